package main

// Goroutines, channels, locks and the (optional) exploration of schedules.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id       int
	wake     chan struct{}
	ready    func() bool // nil = runnable
	done     bool
	name     string
	sleeping bool
	blockOn  string
	vc       map[int]int
	frame    *frame
	depth    int
	held     map[interface{}]bool
}

type chanv struct {
	cap    int
	elem   types.Type
	buf    []value
	bufVC  []map[int]int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     map[int]int // acquire/release clock
	timer  *timer
}

type waiter struct {
	g     *gor
	done  bool
	idx   int
	val   value
	ok    bool
	panic bool
	w     *waiter // shared state for select
	c     *chanv
	vc    map[int]int
}

func (w *waiter) sel() *waiter {
	if w.w != nil {
		return w.w
	}
	return w
}

type timer struct {
	c      *chanv
	fires  int // remaining; -1 unlimited (bounded by tickBudget)
	f      value
	active bool
}

func (in *Interp) newGor(name string) *gor {
	g := &gor{id: in.nextGid, wake: make(chan struct{}, 1), name: name, vc: map[int]int{}}
	in.nextGid++
	g.vc[g.id] = 1
	in.gors = append(in.gors, g)
	return g
}

// runMain runs module inits and the harness function; returns how the path ended.
func (in *Interp) runMain(e *Explorer) (kind, msg string) {
	g := in.newGor("main")
	in.cur = g
	func() {
		defer func() {
			r := recover()
			if r == nil {
				kind = "ok"
				return
			}
			kind, msg = in.classify(r)
		}()
		in.w.runModuleInits(in, e.h)
		in.runFn(in.compile(e.h.fn), nil, nil, nil)
	}()
	in.killAll()
	if in.path.unknown && kind == "ok" {
		// still a completed path; unknown branches only over-approximate
		_ = kind
	}
	return
}

func (in *Interp) classify(r interface{}) (kind, msg string) {
	switch x := r.(type) {
	case pathAbort:
		return x.kind, x.msg
	case targetPanic:
		m := in.showPanic(x.v)
		if in.path != nil && in.ex != nil {
			ok := func() (ok bool) {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				return in.ensureModel()
			}()
			if ok {
				v := &Violation{Label: "panic", Msg: m, Kind: "panic", Where: x.where, Env: in.path.env, Inputs: in.assignment(),
					Sched: append([]string(nil), in.path.sched...), Choices: append([]string(nil), in.path.choices...)}
				in.ex.addViolation(v)
				return "violation", "panic: " + m
			}
		}
		return "limit", "panic on an undecided path: " + m
	case error:
		return "internal", fmt.Sprint(x, " at ", in.where(in.curFrame), stackTrace())
	}
	return "internal", fmt.Sprint(r, " at ", in.where(in.curFrame), stackTrace())
}

func (in *Interp) showPanic(v value) string {
	itf, ok := v.(iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	switch x := itf.v.(type) {
	case string:
		return x
	case *symStr:
		return "<symbolic string>"
	case structv:
		if len(x) > 0 {
			if s, ok := x[0].(string); ok {
				return s
			}
		}
	case *value:
		if x != nil {
			if s, ok := (*x).(structv); ok && len(s) > 0 {
				if m, ok := s[0].(string); ok {
					return m
				}
			}
		}
	}
	return fmt.Sprintf("%v", itf.t)
}

func (in *Interp) spawn(fnv value, args []value, pos string) {
	if in.initing > 0 {
		return // goroutines of library initialisers are not modelled
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if len(in.gors) > 64 {
		panic(pathAbort{"limit", "too many goroutines"})
	}
	g := in.newGor(pos)
	for k, v := range in.cur.vc {
		if k != g.id {
			g.vc[k] = v
		}
	}
	in.cur.vc[in.cur.id]++
	caller := in.curFrame
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if in.killing {
				in.killed <- struct{}{}
				return
			}
			if r != nil {
				in.childAbort = r
				in.switchTo(in.gors[0], nil)
				return
			}
			// pick someone else
			func() {
				defer func() {
					if r := recover(); r != nil {
						in.childAbort = r
						in.switchTo(in.gors[0], nil)
					}
				}()
				in.reschedule(g, true)
			}()
		}()
		if in.killing {
			panic(pathAbort{"kill", ""})
		}
		_ = caller
		in.curFrame = nil
		in.depth = 0
		in.call(nil, fnv, args, 0)
	}()
	in.yieldPoint("go")
}

// switchTo hands the baton to g; self (if non-nil) waits to be woken.
func (in *Interp) switchTo(g *gor, self *gor) {
	if g == self {
		return
	}
	if self != nil {
		self.frame = in.curFrame
		self.depth = in.depth
	}
	in.cur = g
	in.curFrame = g.frame
	in.depth = g.depth
	g.wake <- struct{}{}
	if self != nil {
		<-self.wake
		if in.killing {
			panic(pathAbort{"kill", ""})
		}
		if self.id == 0 && in.childAbort != nil {
			r := in.childAbort
			in.childAbort = nil
			panic(r)
		}
	}
}

func (in *Interp) killAll() {
	in.killing = true
	for _, g := range in.gors[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-in.killed
		}
	}
	in.gors = in.gors[:0]
	in.childAbort = nil
	in.killing = false
}

// reschedule picks the next goroutine when self cannot continue (blocked or finished).
func (in *Interp) reschedule(self *gor, finished bool) {
	for {
		var cand []*gor
		var sleepers []*gor
		// round-robin order after self
		n := len(in.gors)
		for k := 1; k <= n; k++ {
			g := in.gors[(self.id+k)%n]
			if g.done {
				continue
			}
			if g.ready == nil || g.ready() {
				if g.sleeping {
					sleepers = append(sleepers, g)
				} else {
					cand = append(cand, g)
				}
			}
		}
		if len(cand) == 0 && len(sleepers) > 0 {
			cand = sleepers[:1]
		}
		if len(cand) == 0 {
			if in.fireTimer() {
				continue
			}
			if finished && self.id == 0 {
				return
			}
			in.deadlock()
		}
		k := 0
		if in.explore && len(cand) > 1 {
			k = in.choose(len(cand), "sched")
		}
		g := cand[k]
		g.ready = nil
		g.sleeping = false
		g.blockOn = ""
		if in.explore {
			in.path.sched = append(in.path.sched, fmt.Sprintf("->g%d", g.id))
		}
		if finished {
			in.switchTo(g, nil)
		} else {
			in.switchTo(g, self)
		}
		return
	}
}

func (in *Interp) deadlock() {
	s := ""
	for _, g := range in.gors {
		if !g.done {
			s += fmt.Sprintf(" g%d:%s", g.id, g.blockOn)
		}
	}
	if in.ensureModel() {
		in.report("deadlock", "deadlock", "all goroutines are blocked:"+s)
	}
	panic(pathAbort{"violation", "deadlock" + s})
}

// blockUntil suspends the current goroutine until ready() holds.
func (in *Interp) blockUntil(what string, ready func() bool) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.initing > 0 {
		panic(unsupported("blocking operation during init: " + what))
	}
	g := in.cur
	for !ready() {
		g.ready = ready
		g.blockOn = what
		in.reschedule(g, false)
	}
}

// yieldPoint is a scheduling point before a visible operation.
func (in *Interp) yieldPoint(what string) {
	if !in.explore || in.initing > 0 {
		return
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	self := in.cur
	var others []*gor
	for _, g := range in.gors {
		if g != self && !g.done && !g.sleeping && (g.ready == nil || g.ready()) {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return
	}
	if in.preempts >= in.ex.h.param("preempt", 2) {
		return
	}
	k := in.choose(1+len(others), "sched")
	if k == 0 {
		return
	}
	in.preempts++
	g := others[k-1]
	g.ready = nil
	in.path.sched = append(in.path.sched, fmt.Sprintf("preempt g%d before %s at %s ->g%d", self.id, what, in.where1(), g.id))
	in.switchTo(g, self)
}

func (in *Interp) where1() string {
	f := in.curFrame
	for f != nil && !in.w.inModule(f.cf.fn) {
		f = f.caller
	}
	if f == nil {
		for f = in.curFrame; f != nil; f = f.caller {
			if p := in.w.pos(f.curPos); strings.HasPrefix(p, hroot+"/") && !strings.HasPrefix(p, hroot+"/sym/") {
				return p
			}
		}
		return "?"
	}
	return in.w.pos(f.curPos)
}

func (in *Interp) sleep() {
	if in.initing > 0 {
		return
	}
	g := in.cur
	others := false
	for _, o := range in.gors {
		if o != g && !o.done {
			others = true
		}
	}
	if !others {
		return
	}
	first := true
	g.sleeping = true
	g.blockOn = "sleep"
	g.ready = func() bool { return true }
	_ = first
	in.reschedule(g, false)
	g.sleeping = false
}

func (in *Interp) fireTimer() bool {
	if in.tickBudget <= 0 {
		return false
	}
	for _, t := range in.timers {
		if t.active && t.fires != 0 {
			if t.c != nil && len(t.c.buf) == 0 {
				in.tickBudget--
				if t.fires > 0 {
					t.fires--
				}
				// rotate so that every timer gets its turn
				in.timers = append(removeTimer(in.timers, t), t)
				in.deliver(t.c, in.now())
				return true
			}
			if t.f != nil {
				in.tickBudget--
				t.fires = 0
				t.active = false
				f := t.f
				in.spawn(f, nil, "timer")
				return true
			}
		}
	}
	return false
}

func removeTimer(ts []*timer, t *timer) []*timer {
	var r []*timer
	for _, x := range ts {
		if x != t {
			r = append(r, x)
		}
	}
	return r
}

// ---- channels

func (in *Interp) deliver(c *chanv, v value) {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		s := w.sel()
		if s.done {
			continue
		}
		s.done, s.idx, s.val, s.ok = true, w.idx, v, true
		s.vc = in.release(nil)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.bufVC = append(c.bufVC, in.release(nil))
	}
}

func (in *Interp) liveSend(c *chanv) *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		if w.sel().done {
			c.sendq = c.sendq[1:]
			continue
		}
		return w
	}
	return nil
}

func (in *Interp) liveRecv(c *chanv) *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		if w.sel().done {
			c.recvq = c.recvq[1:]
			continue
		}
		return w
	}
	return nil
}

// trySend attempts a send without blocking.
func (in *Interp) trySend(c *chanv, v value) bool {
	if c.closed {
		in.goPanicPlain("send on closed channel")
	}
	if w := in.liveRecv(c); w != nil {
		c.recvq = c.recvq[1:]
		s := w.sel()
		s.done, s.idx, s.val, s.ok = true, w.idx, v, true
		s.vc = in.release(nil)
		in.acquire(c.vc)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.bufVC = append(c.bufVC, in.release(nil))
		in.acquire(c.vc)
		return true
	}
	return false
}

func (in *Interp) tryRecv(c *chanv) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		in.acquire(c.bufVC[0])
		c.buf = append([]value(nil), c.buf[1:]...)
		c.bufVC = append([]map[int]int(nil), c.bufVC[1:]...)
		c.vc = in.release(c.vc)
		if w := in.liveSend(c); w != nil {
			c.sendq = c.sendq[1:]
			s := w.sel()
			c.buf = append(c.buf, w.val)
			c.bufVC = append(c.bufVC, w.vc)
			s.done, s.idx = true, w.idx
			s.vc = in.release(nil)
		}
		return v, true, true
	}
	if w := in.liveSend(c); w != nil {
		c.sendq = c.sendq[1:]
		s := w.sel()
		in.acquire(w.vc)
		s.done, s.idx = true, w.idx
		s.vc = in.release(nil)
		return w.val, true, true
	}
	if c.closed {
		in.acquire(c.vc)
		return zero(c.elem), false, true
	}
	return nil, false, false
}

func (in *Interp) chanSend(c *chanv, v value) {
	in.yieldPoint("send")
	if c == nil {
		in.blockUntil("send on nil channel", func() bool { return false })
	}
	if in.trySend(c, v) {
		return
	}
	w := &waiter{g: in.cur, val: v, c: c, vc: in.release(nil)}
	c.sendq = append(c.sendq, w)
	in.blockUntil("chan send", func() bool { return w.done })
	if w.panic {
		in.goPanicPlain("send on closed channel")
	}
	in.acquire(w.vc)
}

func (in *Interp) chanRecv(c *chanv, et types.Type) (value, bool) {
	in.yieldPoint("recv")
	if c == nil {
		in.blockUntil("receive on nil channel", func() bool { return false })
	}
	if v, ok, done := in.tryRecv(c); done {
		return v, ok
	}
	w := &waiter{g: in.cur, c: c}
	c.recvq = append(c.recvq, w)
	in.blockUntil("chan receive", func() bool { return w.done })
	in.acquire(w.vc)
	return w.val, w.ok
}

func (in *Interp) chanClose(c *chanv) {
	in.yieldPoint("close")
	if c == nil {
		in.goPanicPlain("close of nil channel")
	}
	if c.closed {
		in.goPanicPlain("close of closed channel")
	}
	c.closed = true
	c.vc = in.release(c.vc)
	for w := in.liveRecv(c); w != nil; w = in.liveRecv(c) {
		c.recvq = c.recvq[1:]
		s := w.sel()
		s.done, s.idx, s.val, s.ok = true, w.idx, zero(c.elem), false
		s.vc = in.release(nil)
	}
	for w := in.liveSend(c); w != nil; w = in.liveSend(c) {
		c.sendq = c.sendq[1:]
		s := w.sel()
		s.done, s.idx, s.panic = true, w.idx, true
		w.panic = true
	}
}

func (in *Interp) selectStmt(fr *frame, i *ssa.Select, ci *cinstr) value {
	in.yieldPoint("select")
	type scase struct {
		c    *chanv
		send bool
		v    value
	}
	var cases []scase
	for k, st := range i.States {
		c, ok := in.get(fr, &ci.ops[2*k]).(*chanv)
		if !ok {
			panic(unsupported("select on poison"))
		}
		sc := scase{c: c, send: st.Dir == types.SendOnly}
		if sc.send {
			sc.v = copyVal(in.get(fr, &ci.ops[2*k+1]))
		}
		cases = append(cases, sc)
	}
	res := func(idx int, v value, ok bool) value {
		t := tuplev{uint64(int64(idx)), ok}
		for k, st := range i.States {
			if st.Dir == types.RecvOnly {
				if k == idx {
					t = append(t, v)
				} else {
					t = append(t, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	var ready []int
	for k, sc := range cases {
		if sc.c == nil {
			continue
		}
		if sc.send {
			if sc.c.closed || in.liveRecv(sc.c) != nil || len(sc.c.buf) < sc.c.cap {
				ready = append(ready, k)
			}
		} else if len(sc.c.buf) > 0 || in.liveSend(sc.c) != nil || sc.c.closed {
			ready = append(ready, k)
		}
	}
	if len(ready) > 0 {
		k := ready[0]
		if in.explore && len(ready) > 1 {
			k = ready[in.choose(len(ready), "select")]
		}
		sc := cases[k]
		if sc.send {
			in.trySend(sc.c, sc.v)
			return res(k, nil, false)
		}
		v, ok, _ := in.tryRecv(sc.c)
		return res(k, v, ok)
	}
	if !i.Blocking {
		return res(-1, nil, false)
	}
	main := &waiter{g: in.cur}
	for k, sc := range cases {
		if sc.c == nil {
			continue
		}
		w := &waiter{g: in.cur, w: main, idx: k, c: sc.c, val: sc.v}
		if sc.send {
			w.vc = in.release(nil)
			sc.c.sendq = append(sc.c.sendq, w)
		} else {
			sc.c.recvq = append(sc.c.recvq, w)
		}
	}
	in.blockUntil("select", func() bool { return main.done })
	if main.panic {
		in.goPanicPlain("send on closed channel")
	}
	in.acquire(main.vc)
	return res(main.idx, main.val, main.ok)
}

// ---- happens-before clocks

// release joins the current clock into vc (returned) and advances the thread.
func (in *Interp) release(vc map[int]int) map[int]int {
	if !in.raceOn {
		return nil
	}
	r := map[int]int{}
	for k, v := range vc {
		r[k] = v
	}
	for k, v := range in.cur.vc {
		if v > r[k] {
			r[k] = v
		}
	}
	in.cur.vc[in.cur.id]++
	return r
}

func (in *Interp) acquire(vc map[int]int) {
	if !in.raceOn || vc == nil {
		return
	}
	for k, v := range vc {
		if v > in.cur.vc[k] {
			in.cur.vc[k] = v
		}
	}
}

// syncObj returns per-path state of a synchronisation object.
func (in *Interp) syncObj(key interface{}) *syncObj {
	if o, ok := in.side[key]; ok {
		return o.(*syncObj)
	}
	o := &syncObj{}
	in.side[key] = o
	return o
}

type syncObj struct {
	cond    []*condTicket
	vc      map[int]int
	rvc     map[int]int
	locked  bool
	readers int
	owner   int
	n       int64
	waiting int // pending writers
	waiters []*waiter
}

func (in *Interp) acqrel(key interface{}) {
	if !in.raceOn {
		return
	}
	o := in.syncObj(key)
	in.acquire(o.vc)
	o.vc = in.release(o.vc)
}

// ---- data races on plain memory

type shadow struct {
	wg, wc int
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

func (in *Interp) raceCell(p *value, write bool) {
	switch v := (*p).(type) {
	case structv:
		for i := range v {
			in.raceCell(&v[i], write)
		}
		return
	case arrayv:
		if len(v) > 64 {
			break
		}
		for i := range v {
			in.raceCell(&v[i], write)
		}
		return
	}
	in.raceAccess(p, write)
}

func (in *Interp) raceAccess(key interface{}, write bool) {
	if len(in.gors) < 2 || in.initing > 0 {
		return
	}
	if in.shadow == nil {
		in.shadow = map[interface{}]*shadow{}
	}
	s := in.shadow[key]
	g := in.cur
	if s == nil {
		s = &shadow{wg: -1}
		in.shadow[key] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc[s.wg] {
		in.race(s.wpos, "write", write)
	}
	if write {
		for r, c := range s.reads {
			if r != g.id && c > g.vc[r] {
				in.race(s.rpos[r], "read", write)
			}
		}
		s.wg, s.wc = g.id, g.vc[g.id]
		s.wpos = in.racePos()
		s.reads, s.rpos = nil, nil
	} else {
		if s.reads == nil {
			s.reads = map[int]int{}
			s.rpos = map[int]string{}
		}
		s.reads[g.id] = g.vc[g.id]
		s.rpos[g.id] = in.racePos()
	}
}

func (in *Interp) racePos() string { return in.where(in.curFrame) }

func (in *Interp) race(prev, kind string, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	if in.ensureModel() {
		in.report("race", "datarace", fmt.Sprintf("data race: %s at %s vs earlier %s at %s", k, in.where(in.curFrame), kind, prev))
	}
	panic(pathAbort{"violation", "datarace"})
}
