package main

// Path exploration by re-execution along decision trails, over several workers.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"
)

type decision struct {
	alt    int32
	forced bool
	site   int32 // step fingerprint for divergence detection
}

type Path struct {
	trail    []decision // decided so far
	prefix   []decision // to be replayed
	pos      int
	pc       []*Term
	model    Model
	memo     *Memo
	names    map[string]int
	inputs   []inputVar // harness inputs in creation order
	choices  []string   // human readable nondeterministic choices
	sched    []string   // schedule trace (explore mode)
	covers   map[string]bool
	obs      []obsEntry
	mapOrder bool
	nchoice  int
	fails    map[*cblock]int
	asserts  int
	unknown  bool
	env      bool // depends on environment stubs that are not replayable as inputs
	params   map[string]int
	hint     hint
}

type task struct {
	trail []decision
	hint  hint
}

type inputVar struct {
	name string
	kind string // u8,u16,...,bool,f64,len
	t    *Term
	con  uint64 // value when concretely chosen (t == nil)
}

type obsEntry struct {
	label string
	kind  string
	v     value
	w     uint8
}

type Violation struct {
	Label   string
	Msg     string
	Where   string
	Inputs  []Assign
	Sched   []string
	Choices []string
	Env     bool
	Kind    string // assert, panic, deadlock, race
	pathID  int
}

type Assign struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Witness struct {
	Inputs []Assign
	Obs    []string // expected observation lines
}

// Explorer explores one harness.
type Explorer struct {
	w       *World
	h       *HarnessRun
	mu      sync.Mutex
	cond    *sync.Cond
	pool    []task
	active  int
	stop    bool
	stopWhy string

	Paths, Infeasible, Unsupported, Limited, Panicked int
	Branches, Forced                                  int64
	Discharged, AssertUnknown                         int
	Violations                                        map[string]*Violation
	VioCount                                          map[string]int
	Covers                                            map[string]int
	Unsup                                             map[string]int
	Witnesses                                         []Witness
	samplePaths                                       []string
	deadline                                          time.Time
	maxPaths                                          int
	nonReplay                                         bool
	started                                           int
	leftover                                          int
	States                                            int64
}

func (in *Interp) ensureModel() bool {
	p := in.path
	if p.model != nil {
		return true
	}
	if p.hint != nil {
		h := p.hint
		p.hint = nil
		if in.useHint(h) {
			return true
		}
	}
	r, m := in.solver.check(p.pc, nil, true, in.tc.vlst)
	switch r {
	case Sat:
		p.model = m
		p.memo.reset()
		return true
	case Unsat:
		panic(pathAbort{"infeasible", "path condition unsat"})
	}
	p.unknown = true
	return false
}

func (in *Interp) evalModel(t *Term) (uint64, bool) {
	p := in.path
	if p.model == nil {
		return 0, false
	}
	return p.model.eval(t, p.memo)
}

func (in *Interp) addPC(t *Term) {
	p := in.path
	if t == in.tc.tru {
		return
	}
	p.pc = append(p.pc, t)
	if p.model != nil {
		if v, ok := in.evalModel(t); !ok || v != 1 {
			p.model = nil
		}
	}
}

// truth decides a bool or symbolic condition.
func (in *Interp) truth(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.branch(x)
	}
	panic(unsupported(fmt.Sprintf("truth of %T", v)))
}

// branch decides a symbolic condition, forking the path when both sides are feasible.
func (in *Interp) branch(c *Term) bool {
	if c.op == OConst {
		return c.c == 1
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.path == nil || in.initing > 0 {
		panic(unsupported("symbolic branch outside a path"))
	}
	p := in.path
	site := int32(in.steps)
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.site != site {
			panic(fmt.Sprintf("replay divergence: site %d vs %d at %s", d.site, site, in.where(in.curFrame)))
		}
		p.trail = append(p.trail, d)
		b := d.alt == 1
		if !d.forced {
			if b {
				in.addPC(c)
			} else {
				in.addPC(in.tc.Not(c))
			}
		}
		return b
	}
	in.ex.countBranch()
	in.overdue()
	var dir bool
	nc := in.tc.Not(c)
	decided := false
	if in.ensureModel() {
		if v, ok := in.evalModel(c); ok {
			dir = v == 1
			decided = true
		}
	}
	if !decided {
		r, m := in.solver.check(p.pc, c, true, in.tc.vlst)
		if r == Unsat {
			p.trail = append(p.trail, decision{0, true, site})
			return false
		}
		dir = true
		if r == Sat {
			p.model = m
			p.memo.reset()
		}
	}
	take, other := c, nc
	if !dir {
		take, other = nc, c
	}
	r, om := in.quick(other)
	if r == Unknown {
		r, om = in.solver.check(p.pc, other, true, in.tc.vlst)
	}
	if r == Unsat {
		p.trail = append(p.trail, decision{int32(b2u(dir)), true, site})
		return dir
	}
	if r == Unknown {
		p.unknown = true
	}
	in.ex.push(p.trail, decision{int32(1 - b2u(dir)), false, site}, om.hint())
	p.trail = append(p.trail, decision{int32(b2u(dir)), false, site})
	in.addPC(take)
	return dir
}

// choose picks one of n alternatives nondeterministically (all are explored).
func (in *Interp) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	p := in.path
	site := int32(in.steps)
	name := fmt.Sprintf("choice:%s:%d", what, p.nchoice)
	p.nchoice++
	v := in.tc.Var(name, bvSort(8))
	var k int
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.site != site {
			panic(fmt.Sprintf("replay divergence (choose %s): site %d vs %d at %s", what, d.site, site, in.where(in.curFrame)))
		}
		p.trail = append(p.trail, d)
		k = int(d.alt)
	} else {
		in.ex.countBranch()
		var h hint
		if p.model != nil {
			h = p.model.hint()
		}
		for i := n - 1; i >= 1; i-- {
			in.ex.push(p.trail, decision{int32(i), false, site}, append(h[:len(h):len(h)], hintVal{name, v.sort, uint64(i)}))
		}
		p.trail = append(p.trail, decision{0, false, site})
	}
	if p.model != nil {
		p.model[v] = uint64(k) // v is fresh
		p.memo.reset()
	}
	in.addPC(in.tc.Eq(v, in.tc.BV(uint64(k), 8)))
	return k
}

// concretizeV enumerates the feasible values of t by forking.
func (in *Interp) concretizeV(t *Term, max int, what string) uint64 {
	if in.spec > 0 {
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		if n > max {
			panic(pathAbort{"limit", "concretization of " + what})
		}
		if in.path.pos >= len(in.path.prefix) {
			if !in.ensureModel() {
				panic(pathAbort{"limit", "solver unknown while concretizing " + what})
			}
		}
		// candidate value must be reproducible on replay: record it as a pseudo decision
		p := in.path
		site := int32(in.steps)
		var cand uint64
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			if d.site != site {
				panic("replay divergence (concretize " + what + ")")
			}
			hi := p.prefix[p.pos]
			p.pos++
			p.trail = append(p.trail, d, hi)
			cand = uint64(uint32(d.alt)) | uint64(uint32(hi.alt))<<32
		} else {
			v, ok := in.evalModel(t)
			if !ok {
				panic(pathAbort{"limit", "cannot evaluate model while concretizing " + what})
			}
			cand = v
			p.trail = append(p.trail, decision{int32(uint32(cand)), true, site}, decision{int32(uint32(cand >> 32)), true, site})
		}
		if in.branch(in.tc.Eq(t, in.tc.BV(cand, int(t.sort.w)))) {
			return cand
		}
	}
}

func (in *Interp) concretize(t *Term, max int, what string) int {
	return int(in.concretizeV(t, max, what))
}

// assume restricts the path.
func (in *Interp) assume(v value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathAbort{"infeasible", "assume false"})
		}
	case *Term:
		in.addPC(c)
		if in.path.pos >= len(in.path.prefix) {
			in.ensureModel() // aborts when infeasible
		}
	}
}

func (in *Interp) assert(v value, label, msg string) {
	p := in.path
	p.asserts++
	switch c := v.(type) {
	case bool:
		if c {
			in.ex.discharged()
			return
		}
		if p.pos < len(p.prefix) {
			return // an earlier path already reported it
		}
		if !in.ensureModel() {
			in.ex.assertUnknown()
			panic(pathAbort{"limit", "assert reached on an undecided path"})
		}
		in.report("assert", label, msg)
		panic(pathAbort{"violation", label})
	case *Term:
		if p.pos < len(p.prefix) {
			// decided on the path that pushed this prefix; just assume
			in.addPC(c)
			return
		}
		in.overdue()
		r, m := in.solver.check(p.pc, in.tc.Not(c), true, in.tc.vlst)
		if r == Unknown {
			r, m = in.secondOpinion(in.tc.Not(c))
		}
		switch r {
		case Unsat:
			in.ex.discharged()
		case Sat:
			save := p.model
			p.model = m
			p.memo.reset()
			in.report("assert", label, msg)
			p.model = save
			p.memo.reset()
			in.addPC(c)
			in.ensureModel()
			return
		default:
			in.ex.assertUnknown()
		}
		in.addPC(c)
	default:
		panic(unsupported(fmt.Sprintf("assert on %T", v)))
	}
}

// overdue ends a path that outlives the exploration's time.
func (in *Interp) overdue() {
	if in.ex != nil && in.initing == 0 && time.Since(in.ex.deadline) > 10*time.Second {
		panic(pathAbort{"limit", "time"})
	}
}

func (in *Interp) secondOpinion(extra *Term) (SatRes, Model) {
	s := newSolver("cvc5", in.w.solverTimeout*2)
	defer s.close()
	r, m := s.check(in.path.pc, extra, true, in.tc.vlst)
	in.solver.Stats.Queries++
	in.solver.Stats.Time += s.Stats.Time
	return r, m
}

func (in *Interp) assignment() []Assign {
	p := in.path
	var out []Assign
	for _, iv := range p.inputs {
		a := Assign{Name: iv.name, Kind: iv.kind, Val: iv.con}
		if iv.t != nil {
			a.Val = p.model[iv.t]
		}
		out = append(out, a)
	}
	return out
}

func (in *Interp) report(kind, label, msg string) {
	v := &Violation{Label: label, Msg: msg, Kind: kind, Where: in.where(in.curFrame), Env: in.path.env}
	if in.path.model != nil {
		v.Inputs = in.assignment()
	}
	v.Sched = append([]string(nil), in.path.sched...)
	v.Choices = append([]string(nil), in.path.choices...)
	in.ex.addViolation(v)
}

func (e *Explorer) countBranch() {
	e.mu.Lock()
	e.Branches++
	e.mu.Unlock()
}
func (e *Explorer) discharged() {
	e.mu.Lock()
	e.Discharged++
	e.mu.Unlock()
}
func (e *Explorer) assertUnknown() {
	e.mu.Lock()
	e.AssertUnknown++
	e.mu.Unlock()
}

func (e *Explorer) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.VioCount[v.Label]++
	key := v.Label
	// keep a few distinct examples per label
	for i := 0; i < 6; i++ {
		k := fmt.Sprintf("%s#%d", key, i)
		if _, ok := e.Violations[k]; !ok {
			e.Violations[k] = v
			break
		}
	}
}

func (e *Explorer) push(trail []decision, d decision, h hint) {
	n := make([]decision, len(trail)+1)
	copy(n, trail)
	n[len(trail)] = d
	e.mu.Lock()
	e.pool = append(e.pool, task{n, h})
	e.cond.Signal()
	e.mu.Unlock()
}

// next returns the next prefix; nil when exploration is over.
func (e *Explorer) next(local *[]decision) (task, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return task{}, false
		}
		if time.Now().After(e.deadline) {
			e.halt("time budget")
			return task{}, false
		}
		if e.maxPaths > 0 && e.started >= e.maxPaths {
			e.halt("path budget")
			return task{}, false
		}
		if n := len(e.pool); n > 0 {
			// prefer the prefix sharing most with this worker's last one (it is usually near the end)
			best, bestLen := n-1, -1
			lo := n - 16
			if lo < 0 {
				lo = 0
			}
			for i := n - 1; i >= lo; i-- {
				k := common(e.pool[i].trail, *local)
				if k > bestLen {
					best, bestLen = i, k
				}
			}
			p := e.pool[best]
			e.pool = append(e.pool[:best], e.pool[best+1:]...)
			e.active++
			e.started++
			return p, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return task{}, false
		}
		e.cond.Wait()
	}
}

func common(a, b []decision) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (e *Explorer) halt(why string) {
	e.stop = true
	e.stopWhy = why
	e.leftover = len(e.pool)
	e.cond.Broadcast()
}

func (e *Explorer) finish() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.pool) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func newExplorer(w *World, h *HarnessRun) *Explorer {
	e := &Explorer{w: w, h: h, Violations: map[string]*Violation{}, VioCount: map[string]int{}, Covers: map[string]int{}, Unsup: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

// runOne executes one path.
func (in *Interp) runOne(e *Explorer, tk task) (trail []decision) {
	in.ex = e
	p := &Path{prefix: tk.trail, hint: tk.hint, names: map[string]int{}, covers: map[string]bool{}, memo: in.pmemo.reset(),
		fails: map[*cblock]int{}, params: e.h.Params}
	in.path = p
	in.steps = 0
	in.depth = 0
	in.spec = 0
	in.side = map[interface{}]interface{}{}
	in.shadow = nil
	in.preempts = 0
	in.gors = nil
	in.nextGid = 0
	in.killing = false
	in.timers = nil
	in.period = nil
	in.tickBudget = e.h.param("ticks", 3)
	in.raceOn = false
	in.explore = false
	for pk, st := range in.inited {
		if st == 2 {
			delete(in.inited, pk)
		}
	}
	kind, msg := in.runMain(e)
	in.rollback()
	e.mu.Lock()
	e.Paths++
	in.totalSteps += in.steps
	e.States += int64(len(p.trail)) + 1
	for c := range p.covers {
		e.Covers[c]++
	}
	switch kind {
	case "infeasible":
		e.Infeasible++
	case "unsupported":
		e.Unsupported++
		e.Unsup[trunc(msg, 300)]++
	case "limit":
		e.Limited++
		e.Unsup["limit: "+trunc(msg, 300)]++
	case "internal":
		e.Unsupported++
		e.Unsup["internal: "+trunc(msg, 1500)]++
	}
	want := kind == "ok" && len(e.Witnesses) < e.h.maxWitness() && !p.env
	if len(e.samplePaths) < 8 && kind == "ok" {
		e.samplePaths = append(e.samplePaths, fmt.Sprintf("decisions=%d pc=%d steps=%d asserts=%d covers=%s", len(p.trail), len(p.pc), in.steps, p.asserts, strings.Join(keys(p.covers), ",")))
	}
	e.mu.Unlock()
	if want {
		in.witness(e, p)
	}
	return p.trail
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// witness records a concrete input for this path with its expected observations.
func (in *Interp) witness(e *Explorer, p *Path) {
	in.path = p
	defer func() { recover() }()
	if !in.ensureModel() {
		return
	}
	w := Witness{Inputs: in.assignment()}
	for _, o := range p.obs {
		s, ok := in.obsString(o)
		if !ok {
			return
		}
		w.Obs = append(w.Obs, s)
	}
	e.mu.Lock()
	if len(e.Witnesses) < e.h.maxWitness() {
		e.Witnesses = append(e.Witnesses, w)
	}
	e.mu.Unlock()
}

func (in *Interp) obsString(o obsEntry) (string, bool) {
	ev := func(v value) (uint64, bool) {
		switch x := v.(type) {
		case uint64:
			return x, true
		case bool:
			return b2u(x), true
		case *Term:
			return in.path.model.eval(x, in.path.memo)
		}
		return 0, false
	}
	switch o.kind {
	case "int":
		u, ok := ev(o.v)
		return fmt.Sprintf("%s=%d", o.label, int64(u)), ok
	case "bool":
		u, ok := ev(o.v)
		return fmt.Sprintf("%s=%v", o.label, u == 1), ok
	case "str":
		bs := strBytes(o.v)
		out := make([]byte, len(bs))
		for i, b := range bs {
			if b.t == nil {
				out[i] = b.c
			} else {
				u, ok := ev(b.t)
				if !ok {
					return "", false
				}
				out[i] = byte(u)
			}
		}
		return fmt.Sprintf("%s=%x", o.label, out), true
	case "cover":
		return "cover:" + o.label, true
	}
	return "", false
}

// worker loop
func (in *Interp) work(e *Explorer, fresh func() *Interp) {
	var last []decision
	for {
		p, ok := e.next(&last)
		if !ok {
			return
		}
		last = in.runOne(e, p)
		e.finish()
		if in.tc.size() > 3_000_000 {
			in = fresh()
		}
	}
}
