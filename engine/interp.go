package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled form

type operand struct {
	idx  int32 // >=0 register
	c    value // constant
	agg  bool
	glob *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	ops []operand
	pos token.Pos
}

type cblock struct {
	b     *ssa.BasicBlock
	index int
	phis  []*cinstr
	ins   []*cinstr // non-phi
	succs []*cblock
	preds []*cblock
	pure  bool // every instruction may be executed speculatively
}

type cfn struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*cblock
	recover  *cblock
	hasDefer bool
	regBlock []*cblock // defining block per register
	regType  []types.Type
	nparams  int
	purity   int8 // 0 unknown, 1 pure-ish, -1 impure
	name     string
	native   func(in *Interp, fr *frame, args []value) value
	checked  bool
	stepsIn  int64
}

type frame struct {
	cf        *cfn
	caller    *frame
	regs      []value
	block     *cblock
	prev      *cblock
	defers    []deferred
	result    value
	panicking bool
	panicVal  interface{}
	curPos    token.Pos
	g         *gor
	done      bool
}

type deferred struct {
	fn   value
	args []value
	pos  token.Pos
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     value // iface
	where string
}

// pathAbort ends the current path.
type pathAbort struct {
	kind string // "unsupported","infeasible","limit","kill","violation","done"
	msg  string
}

func unsupported(msg string) pathAbort { return pathAbort{"unsupported", msg} }

type specAbort struct{}

type Interp struct {
	w       *World
	ex      *Explorer // current exploration
	tc      *TermCtx
	solver  *Solver
	types   *typeCache
	fns     map[*ssa.Function]*cfn
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int // 1 = done (epoch 0), 2 = per-path
	initing int
	methods map[methodKey]*ssa.Function

	// per path
	log         []undoRec
	steps       int64
	depth       int
	spec        int
	path        *Path
	gors        []*gor
	cur         *gor
	nextGid     int
	raceOn      bool
	explore     bool // scheduling choices are explored
	preempts    int
	side        map[interface{}]interface{} // per-path side objects
	rt          types.Type
	totalSteps  int64
	encoded     map[*ssa.Function]int64
	visits      map[string]int64
	killing     bool
	shadow      map[interface{}]*shadow
	tickBudget  int
	timers      []*timer
	period      value
	uniq        map[string]*value
	poisonNotes map[string]int
	killed      chan struct{}
	childAbort  interface{}
	raceWanted  bool
	side2       map[types.Type]value
	curFrame    *frame
	pmemo       *Memo
	smemo       *Memo
}

type methodKey struct {
	t types.Type
	m string
}

type undoRec struct {
	p   *value
	old value
	f   func()
}

func (in *Interp) undo(f func()) {
	if in.initing == 0 {
		in.log = append(in.log, undoRec{f: f})
	}
}

func (in *Interp) setCell(p *value, v value) {
	if in.initing == 0 {
		in.log = append(in.log, undoRec{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) rollback() {
	for i := len(in.log) - 1; i >= 0; i-- {
		r := in.log[i]
		if r.f != nil {
			r.f()
		} else {
			*r.p = r.old
		}
	}
	in.log = in.log[:0]
}

// ---- compile

func (in *Interp) compile(fn *ssa.Function) *cfn {
	if c, ok := in.fns[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, name: fnName(fn)}
	in.fns[fn] = c
	if nf, ok := intrinsics[c.name]; ok {
		c.native = nf
	} else if nf := dynIntrinsic(c.name); nf != nil {
		c.native = nf
	}
	if mname, ok := modelFor[c.name]; ok && c.native == nil {
		if m := in.w.modelFn(mname); m != nil {
			return in.aliasModel(c, m)
		}
	}
	if fn.Blocks == nil {
		return c
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	var rb []*cblock
	add := func(v ssa.Value, b *cblock) {
		idx[v] = n
		n++
		rb = append(rb, b)
		c.regType = append(c.regType, v.Type())
	}
	for _, p := range fn.Params {
		add(p, nil)
	}
	for _, p := range fn.FreeVars {
		add(p, nil)
	}
	c.nparams = len(fn.Params)
	bm := map[*ssa.BasicBlock]*cblock{}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b, index: len(c.blocks)}
		bm[b] = cb
		c.blocks = append(c.blocks, cb)
	}
	if fn.Recover != nil {
		c.recover = bm[fn.Recover]
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v, bm[b])
			}
		}
	}
	for _, b := range fn.Blocks {
		cb := bm[b]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, bm[s])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, bm[s])
		}
		cb.pure = true
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := &cinstr{in: i, dst: -1, pos: i.Pos()}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			for _, o := range i.Operands(nil) {
				ci.ops = append(ci.ops, in.mkOperand(*o, idx))
			}
			if _, ok := i.(*ssa.Defer); ok {
				c.hasDefer = true
			}
			if _, ok := i.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.ins = append(cb.ins, ci)
				if !specable(i) {
					cb.pure = false
				}
			}
		}
	}
	c.nregs = int(n)
	c.regBlock = rb
	return c
}

func (in *Interp) aliasModel(c *cfn, m *ssa.Function) *cfn {
	mc := in.compile(m)
	c.native = func(in *Interp, fr *frame, args []value) value { return in.runFn(mc, args, nil, fr) }
	return c
}

func specable(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.BinOp, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.If, *ssa.Jump,
		*ssa.Phi, *ssa.Return, *ssa.UnOp, *ssa.IndexAddr, *ssa.Index, *ssa.DebugRef:
		if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
		return true
	case *ssa.Lookup:
		_, ok := i.X.Type().Underlying().(*types.Basic)
		return ok
	case *ssa.Convert:
		return isScalar(i.Type()) && isScalar(i.X.Type())
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		return i.Call.StaticCallee() != nil
	}
	return false
}

// pureFn reports whether fn only consists of specable instructions (calls included).
func (in *Interp) pureFn(c *cfn) bool {
	if c.purity != 0 {
		return c.purity > 0
	}
	if c.native != nil {
		if pureNative[c.name] {
			c.purity = 1
		} else {
			c.purity = -1
		}
		return c.purity > 0
	}
	c.purity = -1 // recursion is impure
	if len(c.blocks) == 0 || len(c.blocks) > 60 {
		return false
	}
	for _, b := range c.blocks {
		if !b.pure {
			// a block ending in panic is tolerated: it aborts speculation when reached
			if len(b.succs) == 0 {
				continue
			}
			return false
		}
		for _, i := range b.ins {
			if call, ok := i.in.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil {
					if !in.pureFn(in.compile(f)) {
						return false
					}
				}
			}
		}
	}
	c.purity = 1
	return true
}

func (in *Interp) mkOperand(v ssa.Value, idx map[ssa.Value]int32) operand {
	switch v := v.(type) {
	case nil:
		return operand{idx: -1}
	case *ssa.Const:
		cv := constValue(v)
		_, s := cv.(structv)
		_, a := cv.(arrayv)
		return operand{idx: -1, c: cv, agg: s || a}
	case *ssa.Global:
		return operand{idx: -1, glob: v}
	case *ssa.Function:
		return operand{idx: -1, c: v}
	case *ssa.Builtin:
		return operand{idx: -1, c: v}
	}
	i, ok := idx[v]
	if !ok {
		panic(fmt.Sprintf("operand %T %s", v, v))
	}
	return operand{idx: i}
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	b, ok := basicOf(c.Type())
	if !ok {
		if tp, ok := c.Type().(*types.TypeParam); ok {
			_ = tp
			return poison{"typeparam const"}
		}
		panic(fmt.Sprintf("constValue: %s", c))
	}
	switch b.kind {
	case 'b':
		return constant.BoolVal(c.Value)
	case 'i':
		if b.signed {
			return uint64(c.Int64()) & mask(b.w)
		}
		return c.Uint64() & mask(b.w)
	case 'f':
		return c.Float64()
	case 'F':
		return float32(c.Float64())
	case 's':
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case 'c':
		return complexv(c.Complex128())
	case 'p':
		return poison{"unsafe.Pointer const"}
	}
	panic("constValue")
}

func (in *Interp) get(fr *frame, o *operand) value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	if o.glob != nil {
		return in.globalAddr(o.glob)
	}
	if o.agg {
		return copyVal(o.c)
	}
	return o.c
}

func (in *Interp) globalAddr(g *ssa.Global) *value {
	p := in.globals[g]
	if p == nil {
		p = new(value)
		*p = zero(g.Type().(*types.Pointer).Elem())
		in.globals[g] = p
	}
	if in.inited[g.Pkg] == 0 {
		in.ensureInit(g.Pkg)
	}
	return p
}

// ensureInit runs the initialiser of a standard-library/dependency package on first use.
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	if in.w.isModule(pkg) {
		in.inited[pkg] = 2
		return // per-path, run by startPath
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	in.initing++
	savedSpec, savedRace, savedEx := in.spec, in.raceOn, in.explore
	st, dep, cf := in.steps, in.depth, in.curFrame
	in.spec, in.raceOn, in.explore = 0, false, false
	defer func() {
		in.initing--
		in.steps, in.depth, in.curFrame = st, dep, cf
		in.spec, in.raceOn, in.explore = savedSpec, savedRace, savedEx
	}()
	in.runInit(pkg)
}

// runInit executes pkg.init tolerantly.
func (in *Interp) runInit(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(pathAbort); ok {
				if pa.kind == "kill" {
					panic(r)
				}
				in.note("init " + pkg.Pkg.Path() + ": " + pa.msg)
				return
			}
			if tp, ok := r.(targetPanic); ok {
				in.note("init " + pkg.Pkg.Path() + " panicked: " + in.showPanic(tp.v))
				return
			}
			panic(r)
		}
	}()
	in.runFn(in.compile(fn), nil, nil, nil)
}

func (in *Interp) note(s string) {
	if in.poisonNotes == nil {
		in.poisonNotes = map[string]int{}
	}
	in.poisonNotes[s]++
}

// ---- calls

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (in *Interp) call(fr *frame, fnv value, args []value, pos token.Pos) value {
	switch f := fnv.(type) {
	case *ssa.Function:
		if f == nil {
			in.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		return in.callFn(fr, f, args, nil)
	case *closure:
		return in.callFn(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return in.callBuiltin(fr, f, args, nil)
	case *nativeFn:
		return f.f(in, args)
	case poison:
		panic(unsupported("call of poison: " + f.why))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fnv)))
}

func (in *Interp) callFn(fr *frame, f *ssa.Function, args []value, env []value) value {
	c := in.fns[f]
	if c == nil {
		c = in.compile(f)
	}
	if in.initing > 0 && f.Synthetic == "package initializer" && fr != nil {
		return nil // imported packages are initialised lazily
	}
	if f.Synthetic == "package initializer" && fr != nil {
		return nil
	}
	if c.native != nil {
		if in.spec > 0 && !pureNative[c.name] {
			panic(specAbort{})
		}
		v := c.native(in, fr, args)
		if _, ok := v.(useBody); !ok {
			return v
		}
	}
	if c.blocks == nil {
		panic(unsupported("no body: " + c.name))
	}
	if env == nil && in.spec == 0 && in.initing == 0 && !in.raceOn && in.pureFn(c) && anySym(args) {
		if v, ok := in.specCall(c, args); ok {
			return v
		}
	}
	return in.runFn(c, args, env, fr)
}

func anySym(args []value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *Term, *symStr:
			return true
		case structv:
			if anySym(x) {
				return true
			}
		case arrayv:
			if len(x) <= 64 && anySym(x) {
				return true
			}
		case slicev:
			if len(x) <= 64 && anySym(x) {
				return true
			}
		case iface:
			if anySym([]value{x.v}) {
				return true
			}
		case *value:
			if x != nil {
				switch y := (*x).(type) {
				case *Term, *symStr:
					return true
				case structv:
					for _, f := range y {
						switch f.(type) {
						case *Term, *symStr:
							return true
						}
					}
				}
			}
		}
	}
	return false
}

const maxDepth = 4000

func (in *Interp) runFn(c *cfn, args []value, env []value, caller *frame) value {
	if c.blocks == nil {
		if c.native != nil {
			return c.native(in, caller, args)
		}
		panic(unsupported("no body: " + c.name))
	}
	in.depth++
	if in.depth > maxDepth {
		in.depth = 0
		panic(pathAbort{"limit", "call depth in " + c.name})
	}
	fr := &frame{cf: c, caller: caller, regs: make([]value, c.nregs), block: c.blocks[0], g: in.cur}
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	if in.initing == 0 {
		in.encoded[c.fn]++
	}
	d := in.depth
	if c.hasDefer || c.recover != nil {
		in.runWithDefers(fr)
	} else {
		in.loop(fr)
	}
	in.depth = d - 1
	return fr.result
}

func (in *Interp) runWithDefers(fr *frame) {
	d := in.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		switch r.(type) {
		case targetPanic:
		default:
			panic(r)
		}
		in.depth = d
		fr.panicking = true
		fr.panicVal = r
		in.runDefers(fr)
		// recovered
		if fr.cf.recover != nil {
			fr.block = fr.cf.recover
			fr.prev = nil
			in.loop(fr)
		} else {
			fr.result = zeroResult(fr.cf.fn)
		}
		fr.done = true
	}()
	in.loop(fr)
	fr.done = true
}

func zeroResult(fn *ssa.Function) value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

// runDefers runs fr's deferred calls; if a panic remains it is re-raised.
func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (in *Interp) runDefer(fr *frame, d deferred) {
	ok := false
	dep := in.depth
	defer func() {
		if !ok {
			r := recover()
			switch r.(type) {
			case targetPanic:
				in.depth = dep
				fr.panicking = true
				fr.panicVal = r
			default:
				panic(r)
			}
		}
	}()
	in.call(fr, d.fn, d.args, d.pos)
	ok = true
}

func (in *Interp) loop(fr *frame) {
	for {
		b := fr.block
		if len(b.phis) > 0 && fr.prev != nil {
			in.runPhis(fr, b)
		}
		if !in.execBlock(fr, b) {
			return
		}
	}
}

func (in *Interp) runPhis(fr *frame, b *cblock) {
	pi := -1
	for i, p := range b.preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	if len(b.phis) == 1 {
		fr.regs[b.phis[0].dst] = in.get(fr, &b.phis[0].ops[pi])
		return
	}
	var tmp [8]value
	vs := tmp[:0]
	for _, ph := range b.phis {
		vs = append(vs, in.get(fr, &ph.ops[pi]))
	}
	for i, ph := range b.phis {
		fr.regs[ph.dst] = vs[i]
	}
}

// execBlock runs the non-phi instructions; sets fr.block. Returns false on return.
func (in *Interp) execBlock(fr *frame, b *cblock) bool {
	in.curFrame = fr
	for _, ci := range b.ins {
		in.steps++
		if in.initing == 0 && in.steps > in.w.maxSteps {
			panic(pathAbort{"limit", "step limit in " + fr.cf.name})
		}
		if in.steps&0xffff == 0 {
			in.overdue()
		}
		fr.curPos = ci.pos
		switch i := ci.in.(type) {
		case *ssa.If:
			c := in.get(fr, &ci.ops[0])
			fr.prev = b
			if t, ok := c.(*Term); ok {
				if in.spec == 0 && in.initing == 0 && !in.raceOn {
					if in.region(fr, b, t) {
						return true
					}
				}
				if in.branch(t) {
					fr.block = b.succs[0]
				} else {
					fr.block = b.succs[1]
				}
			} else if cb, ok := c.(bool); ok {
				if cb {
					fr.block = b.succs[0]
				} else {
					fr.block = b.succs[1]
				}
			} else {
				panic(unsupported(fmt.Sprintf("if on %T at %s", c, in.w.pos(ci.pos))))
			}
			return true
		case *ssa.Jump:
			fr.prev = b
			fr.block = b.succs[0]
			return true
		case *ssa.Return:
			switch len(ci.ops) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = in.get(fr, &ci.ops[0])
			default:
				t := make(tuplev, len(ci.ops))
				for k := range ci.ops {
					t[k] = in.get(fr, &ci.ops[k])
				}
				fr.result = t
			}
			return false
		case *ssa.Panic:
			v := in.get(fr, &ci.ops[0])
			panic(targetPanic{v, in.where(fr)})
		case *ssa.RunDefers:
			in.runDefers(fr)
		default:
			_ = i
			if in.initing > 0 {
				in.execTolerant(fr, ci)
			} else {
				in.exec(fr, ci)
			}
		}
	}
	panic("fell off block in " + fr.cf.name)
}

// execTolerant turns unsupported operations during initialisation into poison.
func (in *Interp) execTolerant(fr *frame, ci *cinstr) {
	d := in.depth
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(pathAbort); ok && pa.kind == "unsupported" {
				in.depth = d
				in.note(trunc(pa.msg, 120))
				if ci.dst >= 0 {
					fr.regs[ci.dst] = poisonFor(ci.in.(ssa.Value).Type(), pa.msg)
				}
				return
			}
			panic(r)
		}
	}()
	in.exec(fr, ci)
}

func poisonFor(t types.Type, why string) value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(tuplev, tt.Len())
		for i := range r {
			r[i] = poison{why}
		}
		return r
	}
	return poison{why}
}

func (in *Interp) where(fr *frame) string {
	var sb strings.Builder
	for i := 0; fr != nil && i < 6; i++ {
		if i > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.cf.name + "@" + in.w.pos(fr.curPos))
		fr = fr.caller
	}
	return sb.String()
}

func (in *Interp) goPanicRuntime(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{in.w.runtimeError(msg), in.where(in.topFrame())})
}

func (in *Interp) goPanicPlain(msg string) { in.goPanicRuntime(msg) }

func (in *Interp) topFrame() *frame { return in.curFrame }
