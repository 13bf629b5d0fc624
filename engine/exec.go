package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) load(p value, t types.Type) value {
	switch a := p.(type) {
	case *value:
		if a == nil {
			in.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		if in.raceOn {
			if in.spec > 0 {
				panic(specAbort{})
			}
			in.raceCell(a, false)
		}
		v := *a
		if pz, ok := v.(poison); ok && in.initing == 0 {
			panic(unsupported("read of poison: " + pz.why))
		}
		return copyVal(v)
	case *symAddr:
		return in.symRead(a)
	case poison:
		panic(unsupported("load via poison: " + a.why))
	case *sliceData:
		if len(a.s) > 0 {
			return a.s[0]
		}
	}
	panic(unsupported(fmt.Sprintf("load via %T", p)))
}

func (in *Interp) store(p value, v value) {
	switch a := p.(type) {
	case *value:
		if a == nil {
			in.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		if in.raceOn {
			in.raceCell(a, true)
		}
		in.storeCell(a, v)
	case *symAddr:
		k := in.concretize(a.idx, len(a.base)+1, "store index")
		in.store(&a.base[k], v)
	case poison:
		panic(unsupported("store via poison: " + a.why))
	default:
		panic(unsupported(fmt.Sprintf("store via %T", p)))
	}
}

// storeCell writes v into *a, in place for aggregates so interior pointers stay valid.
func (in *Interp) storeCell(a *value, v value) {
	switch n := v.(type) {
	case structv:
		if o, ok := (*a).(structv); ok && len(o) == len(n) {
			if len(n) > 0 && &o[0] == &n[0] {
				return
			}
			for i := range n {
				in.storeCell(&o[i], n[i])
			}
			return
		}
		in.setCell(a, copyVal(v))
	case arrayv:
		if o, ok := (*a).(arrayv); ok && len(o) == len(n) {
			if len(n) > 0 && &o[0] == &n[0] {
				return
			}
			for i := range n {
				in.storeCell(&o[i], n[i])
			}
			return
		}
		in.setCell(a, copyVal(v))
	default:
		in.setCell(a, v)
	}
}

// symRead builds an ite tree over the elements.
func (in *Interp) symRead(a *symAddr) value {
	b, _ := basicOf(a.elem)
	ts := make([]*Term, len(a.base))
	for i, v := range a.base {
		ts[i] = in.term(v, b)
	}
	return norm(in.mux(ts, a.idx, int(a.idx.sort.w)))
}

func (in *Interp) mux(ts []*Term, idx *Term, w int) *Term {
	n := len(ts)
	if n == 1 {
		return ts[0]
	}
	nb := 0
	for (1 << nb) < n {
		nb++
	}
	if nb > w {
		nb = w
	}
	return in.muxBits(ts, idx, nb-1)
}

func (in *Interp) muxBits(ts []*Term, idx *Term, bit int) *Term {
	same := true
	for _, t := range ts[1:] {
		if t != ts[0] {
			same = false
			break
		}
	}
	if same || bit < 0 {
		return ts[0]
	}
	half := 1 << bit
	if len(ts) <= half {
		return in.muxBits(ts, idx, bit-1)
	}
	c := in.tc.Eq(in.tc.Extract(idx, bit, bit), in.tc.BV(1, 1))
	lo := in.muxBits(ts[:half], idx, bit-1)
	hi := in.muxBits(ts[half:], idx, bit-1)
	return in.tc.Ite(c, hi, lo)
}

// index checks bounds and returns either a concrete index or the symbolic term
// (zero-extended to 64 bits).
func (in *Interp) index(v value, t types.Type, n int) (int, *Term) {
	b, _ := basicOf(t)
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if b.signed {
			i = sx(x, b.w)
		}
		if i < 0 || i >= int64(n) {
			if b.signed || i >= 0 {
				in.goPanicRuntime(fmt.Sprintf("index out of range [%d] with length %d", i, n))
			}
			in.goPanicRuntime("index out of range")
		}
		return int(i), nil
	case *Term:
		var t64 *Term
		if b.signed {
			t64 = in.tc.Sext(x, 64)
		} else {
			t64 = in.tc.Zext(x, 64)
		}
		ok := in.tc.Ult(t64, in.tc.BV(uint64(n), 64))
		if !in.branch(ok) {
			in.goPanicRuntime(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		if t64.op == OConst {
			return int(t64.c), nil
		}
		return 0, t64
	}
	panic(unsupported(fmt.Sprintf("index %T", v)))
}

// intArg concretises an integer value (signed interpretation by type).
func (in *Interp) intArg(v value, t types.Type, what string) int64 {
	b, _ := basicOf(t)
	switch x := v.(type) {
	case uint64:
		if b.signed {
			return sx(x, b.w)
		}
		return int64(x)
	case *Term:
		k := in.concretizeV(x, 4096, what)
		if b.signed {
			return sx(k, b.w)
		}
		return int64(k)
	}
	panic(unsupported(fmt.Sprintf("int arg %T (%s)", v, what)))
}

func (in *Interp) exec(fr *frame, ci *cinstr) {
	switch i := ci.in.(type) {
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(i.Op, i.X.Type(), i.Y.Type(), in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]))
	case *ssa.UnOp:
		x := in.get(fr, &ci.ops[0])
		switch i.Op {
		case token.MUL:
			fr.regs[ci.dst] = in.load(x, i.Type())
		case token.ARROW:
			v, ok := in.chanRecv(x.(*chanv), i.X.Type().Underlying().(*types.Chan).Elem())
			if i.CommaOk {
				fr.regs[ci.dst] = tuplev{v, ok}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			fr.regs[ci.dst] = in.unop(i.Op, i.X.Type(), x)
		}
	case *ssa.Call:
		fr.regs[ci.dst] = in.doCall(fr, &i.Call, ci)
	case *ssa.Store:
		in.store(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]))
	case *ssa.FieldAddr:
		x := in.get(fr, &ci.ops[0])
		switch p := x.(type) {
		case *value:
			if p == nil {
				in.goPanicRuntime("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structv)
			if !ok {
				panic(unsupported(fmt.Sprintf("FieldAddr of %T (%s.%d) in %s", *p, i.X.Type(), i.Field, fr.cf.name)))
			}
			fr.regs[ci.dst] = &s[i.Field]
		case poison:
			panic(unsupported("FieldAddr via poison: " + p.why))
		default:
			panic(unsupported(fmt.Sprintf("FieldAddr via %T", x)))
		}
	case *ssa.Field:
		switch s := in.get(fr, &ci.ops[0]).(type) {
		case structv:
			fr.regs[ci.dst] = copyVal(s[i.Field])
		default:
			panic(unsupported(fmt.Sprintf("Field of %T", s)))
		}
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = in.indexAddr(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), i)
	case *ssa.Index:
		x := in.get(fr, &ci.ops[0])
		ix := in.get(fr, &ci.ops[1])
		switch a := x.(type) {
		case arrayv:
			k, t := in.index(ix, i.Index.Type(), len(a))
			if t != nil {
				et := i.Type()
				if isScalar(et) {
					fr.regs[ci.dst] = in.symRead(&symAddr{a, t, et})
					return
				}
				k = in.concretize(t, len(a)+1, "array index")
			}
			fr.regs[ci.dst] = copyVal(a[k])
		case string, *symStr:
			fr.regs[ci.dst] = in.strIndex(x, ix, i.Index.Type())
		default:
			panic(unsupported(fmt.Sprintf("Index of %T", x)))
		}
	case *ssa.Lookup:
		x := in.get(fr, &ci.ops[0])
		k := in.get(fr, &ci.ops[1])
		switch m := x.(type) {
		case *mapv:
			if in.raceOn && m != nil {
				in.raceAccess(m, false)
			}
			e := in.mapFind(m, k)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(i.X.Type().Underlying().(*types.Map).Elem())
			}
			if i.CommaOk {
				fr.regs[ci.dst] = tuplev{v, e != nil}
			} else {
				fr.regs[ci.dst] = v
			}
		case string, *symStr:
			fr.regs[ci.dst] = in.strIndex(x, k, i.Index.Type())
		default:
			panic(unsupported(fmt.Sprintf("Lookup in %T", x)))
		}
	case *ssa.Alloc:
		p := new(value)
		*p = zero(i.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.Extract:
		switch t := in.get(fr, &ci.ops[0]).(type) {
		case tuplev:
			fr.regs[ci.dst] = t[i.Index]
		case poison:
			fr.regs[ci.dst] = t
		default:
			panic(unsupported(fmt.Sprintf("Extract of %T", t)))
		}
	case *ssa.ChangeType:
		fr.regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.MakeInterface:
		v := in.get(fr, &ci.ops[0])
		fr.regs[ci.dst] = iface{in.types.get(i.X.Type()), copyVal(v)}
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(i.Type(), i.X.Type(), in.get(fr, &ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(i.Type(), i.X.Type(), in.get(fr, &ci.ops[0]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(i, in.get(fr, &ci.ops[0]))
	case *ssa.MakeClosure:
		env := make([]value, len(i.Bindings))
		for k := range env {
			env[k] = in.get(fr, &ci.ops[k+1])
		}
		fr.regs[ci.dst] = &closure{i.Fn.(*ssa.Function), env}
	case *ssa.MakeSlice:
		n := in.intArg(in.get(fr, &ci.ops[0]), i.Len.Type(), "make len")
		c := in.intArg(in.get(fr, &ci.ops[1]), i.Cap.Type(), "make cap")
		if n < 0 || n > c {
			in.goPanicRuntime("makeslice: len out of range")
		}
		if c > 1<<22 {
			panic(unsupported(fmt.Sprintf("make([]T, %d)", c)))
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		s := make(slicev, c)
		if isScalar(et) {
			z := zero(et)
			for k := range s {
				s[k] = z
			}
		} else {
			for k := range s {
				s[k] = zero(et)
			}
		}
		fr.regs[ci.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap(i.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		n := in.intArg(in.get(fr, &ci.ops[0]), i.Size.Type(), "make chan")
		fr.regs[ci.dst] = &chanv{cap: int(n), elem: i.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MapUpdate:
		m, ok := in.get(fr, &ci.ops[0]).(*mapv)
		if !ok {
			panic(unsupported("map update on poison"))
		}
		in.mapSet(m, in.get(fr, &ci.ops[1]), copyVal(in.get(fr, &ci.ops[2])))
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice(fr, i, ci)
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ci.ops[0]).(slicev)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			in.goPanicRuntime(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), at.Len()))
		}
		p := new(value)
		*p = arrayv(s[:at.Len():at.Len()])
		fr.regs[ci.dst] = p
	case *ssa.Range:
		x := in.get(fr, &ci.ops[0])
		switch m := x.(type) {
		case *mapv:
			fr.regs[ci.dst] = in.newMapIter(m)
		case string, *symStr:
			fr.regs[ci.dst] = &strIter{s: x}
		default:
			panic(unsupported(fmt.Sprintf("range over %T", x)))
		}
	case *ssa.Next:
		switch it := in.get(fr, &ci.ops[0]).(type) {
		case *mapIter:
			fr.regs[ci.dst] = it.next(in)
		case *strIter:
			fr.regs[ci.dst] = it.next(in)
		default:
			panic(unsupported("next"))
		}
	case *ssa.Go:
		fnv, args := in.prepareCall(fr, &i.Call, ci)
		in.spawn(fnv, args, in.w.pos(ci.pos))
	case *ssa.Defer:
		fnv, args := in.prepareCall(fr, &i.Call, ci)
		if i.DeferStack != nil {
			panic(unsupported("defer with explicit stack"))
		}
		if n := len(i.Call.Args); i.Call.IsInvoke() {
			args = args[:n+1]
		} else {
			args = args[:n] // the operands of a Defer include its stack
		}
		fr.defers = append(fr.defers, deferred{fnv, args, ci.pos})
	case *ssa.Send:
		c, ok := in.get(fr, &ci.ops[0]).(*chanv)
		if !ok {
			panic(unsupported("send on poison"))
		}
		in.chanSend(c, copyVal(in.get(fr, &ci.ops[1])))
	case *ssa.Select:
		fr.regs[ci.dst] = in.selectStmt(fr, i, ci)
	case *ssa.DebugRef:
	default:
		panic(unsupported(fmt.Sprintf("instr %T", ci.in)))
	}
}

func (in *Interp) strIndex(x, ix value, it types.Type) value {
	n := strLen(x)
	k, t := in.index(ix, it, n)
	if t == nil {
		switch s := x.(type) {
		case string:
			return uint64(s[k])
		case *symStr:
			return s.b[k].val()
		}
	}
	bs := strBytes(x)
	ts := make([]*Term, n)
	for i := range bs {
		ts[i] = in.sbt(bs[i])
	}
	return norm(in.mux(ts, t, 64))
}

func (in *Interp) indexAddr(x, ix value, i *ssa.IndexAddr) value {
	var base []value
	var et types.Type
	switch a := x.(type) {
	case slicev:
		base = a
		et = i.X.Type().Underlying().(*types.Slice).Elem()
	case *value:
		if a == nil {
			in.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		arr, ok := (*a).(arrayv)
		if !ok {
			panic(unsupported(fmt.Sprintf("IndexAddr of *%T", *a)))
		}
		base = arr
		et = i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
	case poison:
		panic(unsupported("IndexAddr of poison: " + a.why))
	default:
		panic(unsupported(fmt.Sprintf("IndexAddr of %T", x)))
	}
	k, t := in.index(ix, i.Index.Type(), len(base))
	if t == nil {
		return &base[k]
	}
	if isScalar(et) && !in.raceOn {
		return &symAddr{base, t, et}
	}
	return &base[in.concretize(t, len(base)+1, "index")]
}

func (in *Interp) slice(fr *frame, i *ssa.Slice, ci *cinstr) value {
	x := in.get(fr, &ci.ops[0])
	gi := func(k int, e ssa.Value, def int) (int, bool) {
		if e == nil {
			return def, false
		}
		return int(in.intArg(in.get(fr, &ci.ops[k]), e.Type(), "slice bound")), true
	}
	// operands: X, Low, High, Max (nil ones included as nil pointers)
	switch s := x.(type) {
	case string, *symStr:
		n := strLen(s)
		lo, _ := gi(1, i.Low, 0)
		hi, _ := gi(2, i.High, n)
		if hi < 0 || hi > n {
			in.goPanicRuntime(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			in.goPanicRuntime(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if str, ok := s.(string); ok {
			return str[lo:hi]
		}
		return mkStr(s.(*symStr).b[lo:hi])
	}
	var base []value
	isnil := false
	switch s := x.(type) {
	case slicev:
		base = s
		isnil = s == nil
	case *value:
		if s == nil {
			in.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(arrayv)
		if !ok {
			panic(unsupported(fmt.Sprintf("slice of *%T", *s)))
		}
		base = a
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	lo, _ := gi(1, i.Low, 0)
	hi, _ := gi(2, i.High, len(base))
	mx, hasMax := gi(3, i.Max, cap(base))
	if hasMax && (mx < 0 || mx > cap(base)) {
		in.goPanicRuntime(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cap(base)))
	}
	if hi < 0 || hi > mx {
		in.goPanicRuntime(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		in.goPanicRuntime(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if isnil {
		return slicev(nil)
	}
	return slicev(base[lo:hi:mx])
}

// ---- iterators

type mapIter struct {
	m     *mapv
	order []*mapEntry
	i     int
	seen  int // entries of m.ents considered
	done  map[*mapEntry]bool
}

func (in *Interp) newMapIter(m *mapv) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if in.raceOn {
		in.raceAccess(m, false)
	}
	for _, e := range m.ents {
		if !e.deleted {
			it.order = append(it.order, e)
		}
	}
	it.seen = len(m.ents)
	if in.path != nil && in.path.mapOrder && len(it.order) > 1 && in.initing == 0 {
		// arbitrary permutation: choose each next element
		rest := append([]*mapEntry(nil), it.order...)
		it.order = nil
		for len(rest) > 1 {
			k := in.choose(len(rest), "maporder")
			it.order = append(it.order, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		it.order = append(it.order, rest...)
	}
	return it
}

func (it *mapIter) next(in *Interp) value {
	for it.m != nil {
		for it.i < len(it.order) {
			e := it.order[it.i]
			it.i++
			if e.deleted {
				continue
			}
			return tuplev{true, copyVal(e.k), copyVal(e.v)}
		}
		if it.seen < len(it.m.ents) {
			it.order = append(it.order, it.m.ents[it.seen:]...)
			it.seen = len(it.m.ents)
			continue
		}
		break
	}
	var kz, vz value
	if it.m != nil {
		kz, vz = zero(it.m.t.Key()), zero(it.m.t.Elem())
	}
	return tuplev{false, kz, vz}
}

type strIter struct {
	s value
	i int
}

func (it *strIter) next(in *Interp) value {
	n := strLen(it.s)
	if it.i >= n {
		return tuplev{false, uint64(0), uint64(0)}
	}
	at := uint64(it.i)
	switch s := it.s.(type) {
	case string:
		r, sz := utf8.DecodeRuneInString(s[it.i:])
		it.i += sz
		return tuplev{true, at, uint64(uint32(r))}
	case *symStr:
		r, sz := in.decodeRune(s.b[it.i:])
		it.i += sz
		return tuplev{true, at, r}
	}
	panic("strIter")
}

// decodeRune decodes one rune from possibly symbolic bytes (forking on the encoding class).
func (in *Interp) decodeRune(b []sbyte) (value, int) {
	if b[0].t != nil {
		if in.branch(in.tc.Ult(b[0].t, in.tc.BV(0x80, 8))) {
			return norm(in.tc.Zext(b[0].t, 32)), 1
		}
	} else if b[0].c < 0x80 {
		return uint64(b[0].c), 1
	}
	f := in.w.modelFn("DecodeRune")
	if f == nil {
		panic(unsupported("no DecodeRune model"))
	}
	if len(b) > 4 {
		b = b[:4]
	}
	r := in.runFn(in.compile(f), []value{mkStr(b)}, nil, in.curFrame).(tuplev)
	sz := in.intArg(r[1], types.Typ[types.Int], "rune size")
	return r[0], int(sz)
}

// ---- operators

var binToOp = map[token.Token]Op{
	token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor,
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return in.equals(xt, x, y)
	case token.NEQ:
		return in.not(in.equals(xt, x, y))
	}
	b, ok := basicOf(xt)
	if !ok {
		panic(unsupported("binop " + op.String() + " on " + xt.String()))
	}
	if _, ok := x.(poison); ok {
		panic(unsupported("binop on poison"))
	}
	if _, ok := y.(poison); ok {
		panic(unsupported("binop on poison"))
	}
	switch b.kind {
	case 's':
		switch op {
		case token.ADD:
			xs, ok1 := x.(string)
			ys, ok2 := y.(string)
			if ok1 && ok2 {
				return xs + ys
			}
			xb, yb := strBytes(x), strBytes(y)
			r := make([]sbyte, 0, len(xb)+len(yb))
			r = append(append(r, xb...), yb...)
			return mkStr(r)
		case token.LSS:
			return in.strLt(x, y)
		case token.GTR:
			return in.strLt(y, x)
		case token.LEQ:
			return in.not(in.strLt(y, x))
		case token.GEQ:
			return in.not(in.strLt(x, y))
		}
	case 'i':
		return in.intBin(op, b, yt, x, y)
	case 'f', 'F':
		return in.floatBin(op, b, x, y)
	case 'b':
		switch op {
		case token.AND, token.LAND:
			return norm(in.tc.And(in.boolTerm(x), in.boolTerm(y)))
		case token.OR, token.LOR:
			return norm(in.tc.Or(in.boolTerm(x), in.boolTerm(y)))
		}
	}
	panic(unsupported("binop " + op.String() + " on " + xt.String()))
}

func (in *Interp) not(v value) value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return norm(in.tc.Not(v.(*Term)))
}

func (in *Interp) intBin(op token.Token, b basicInfo, yt types.Type, x, y value) value {
	xc, ok1 := x.(uint64)
	yc, ok2 := y.(uint64)
	w := b.w
	switch op {
	case token.SHL, token.SHR:
		yb, _ := basicOf(yt)
		if ok2 {
			if yb.signed && sx(yc, yb.w) < 0 {
				in.goPanicRuntime("negative shift amount")
			}
			if ok1 {
				if op == token.SHL {
					if yc >= uint64(w) {
						return uint64(0)
					}
					return xc << yc & mask(w)
				}
				if b.signed {
					if yc >= uint64(w) {
						yc = uint64(w) - 1
					}
					return uint64(sx(xc, w)>>yc) & mask(w)
				}
				if yc >= uint64(w) {
					return uint64(0)
				}
				return xc >> yc
			}
		} else if yb.signed {
			if in.branch(in.tc.Slt(y.(*Term), in.tc.BV(0, int(yb.w)))) {
				in.goPanicRuntime("negative shift amount")
			}
		}
		xt := in.term(x, b)
		yt := in.term(y, yb)
		var sh *Term
		if yb.w < w {
			sh = in.tc.Zext(yt, int(w))
		} else if yb.w > w {
			big := in.tc.Not(in.tc.Ult(yt, in.tc.BV(uint64(w), int(yb.w))))
			sh = in.tc.Ite(big, in.tc.BV(uint64(w), int(w)), in.tc.Extract(yt, int(w)-1, 0))
		} else {
			sh = yt
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if b.signed {
				o = OAshr
			}
		}
		return norm(in.tc.Bin(o, xt, sh))
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return (xc + yc) & mask(w)
		case token.SUB:
			return (xc - yc) & mask(w)
		case token.MUL:
			return (xc * yc) & mask(w)
		case token.AND:
			return xc & yc
		case token.OR:
			return xc | yc
		case token.XOR:
			return xc ^ yc
		case token.AND_NOT:
			return xc &^ yc
		case token.QUO, token.REM:
			if yc == 0 {
				in.goPanicRuntime("integer divide by zero")
			}
			if b.signed {
				a, d := sx(xc, w), sx(yc, w)
				if d == -1 {
					if op == token.QUO {
						return uint64(-a) & mask(w)
					}
					return uint64(0)
				}
				if op == token.QUO {
					return uint64(a/d) & mask(w)
				}
				return uint64(a%d) & mask(w)
			}
			if op == token.QUO {
				return xc / yc
			}
			return xc % yc
		case token.LSS:
			if b.signed {
				return sx(xc, w) < sx(yc, w)
			}
			return xc < yc
		case token.GTR:
			if b.signed {
				return sx(xc, w) > sx(yc, w)
			}
			return xc > yc
		case token.LEQ:
			if b.signed {
				return sx(xc, w) <= sx(yc, w)
			}
			return xc <= yc
		case token.GEQ:
			if b.signed {
				return sx(xc, w) >= sx(yc, w)
			}
			return xc >= yc
		}
	}
	xt, ty := in.term(x, b), in.term(y, b)
	lt := func(p, q *Term) *Term {
		if b.signed {
			return in.tc.Slt(p, q)
		}
		return in.tc.Ult(p, q)
	}
	switch op {
	case token.LSS:
		return norm(lt(xt, ty))
	case token.GTR:
		return norm(lt(ty, xt))
	case token.LEQ:
		return norm(in.tc.Not(lt(ty, xt)))
	case token.GEQ:
		return norm(in.tc.Not(lt(xt, ty)))
	case token.AND_NOT:
		return norm(in.tc.Bin(OBAnd, xt, in.tc.BNot(ty)))
	case token.QUO, token.REM:
		if ty.op != OConst {
			if in.branch(in.tc.Eq(ty, in.tc.BV(0, int(w)))) {
				in.goPanicRuntime("integer divide by zero")
			}
		} else if ty.c == 0 {
			in.goPanicRuntime("integer divide by zero")
		}
		o := OUdiv
		switch {
		case op == token.QUO && b.signed:
			o = OSdiv
		case op == token.REM && b.signed:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		if b.signed && ty.op == OConst && sx(ty.c, w) > 0 && xt.op == OZext {
			if o == OSdiv {
				o = OUdiv
			} else {
				o = OUrem
			}
		}
		return norm(in.tc.Bin(o, xt, ty))
	}
	if o, ok := binToOp[op]; ok {
		return norm(in.tc.Bin(o, xt, ty))
	}
	panic(unsupported("int op " + op.String()))
}

func (in *Interp) floatBin(op token.Token, b basicInfo, x, y value) value {
	if xc, ok := x.(float64); ok {
		if yc, ok := y.(float64); ok {
			switch op {
			case token.ADD:
				return xc + yc
			case token.SUB:
				return xc - yc
			case token.MUL:
				return xc * yc
			case token.QUO:
				return xc / yc
			case token.LSS:
				return xc < yc
			case token.GTR:
				return xc > yc
			case token.LEQ:
				return xc <= yc
			case token.GEQ:
				return xc >= yc
			}
		}
	}
	if xc, ok := x.(float32); ok {
		if yc, ok := y.(float32); ok {
			switch op {
			case token.ADD:
				return xc + yc
			case token.SUB:
				return xc - yc
			case token.MUL:
				return xc * yc
			case token.QUO:
				return xc / yc
			case token.LSS:
				return xc < yc
			case token.GTR:
				return xc > yc
			case token.LEQ:
				return xc <= yc
			case token.GEQ:
				return xc >= yc
			}
		}
	}
	xt, yt := in.term(x, b), in.term(y, b)
	switch op {
	case token.ADD:
		return norm(in.tc.FBin(OFAdd, xt, yt))
	case token.SUB:
		return norm(in.tc.FBin(OFSub, xt, yt))
	case token.MUL:
		return norm(in.tc.FBin(OFMul, xt, yt))
	case token.QUO:
		return norm(in.tc.FBin(OFDiv, xt, yt))
	case token.LSS:
		return norm(in.tc.FCmp(OFLt, xt, yt))
	case token.GTR:
		return norm(in.tc.FCmp(OFLt, yt, xt))
	case token.LEQ:
		return norm(in.tc.FCmp(OFLe, xt, yt))
	case token.GEQ:
		return norm(in.tc.FCmp(OFLe, yt, xt))
	}
	panic(unsupported("float op " + op.String()))
}

func (in *Interp) unop(op token.Token, t types.Type, x value) value {
	b, _ := basicOf(t)
	if p, ok := x.(poison); ok {
		panic(unsupported("unop on poison: " + p.why))
	}
	switch op {
	case token.NOT:
		return in.not(x)
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			return (-v) & mask(b.w)
		case float64:
			return -v
		case float32:
			return -v
		case *Term:
			if b.kind == 'i' {
				return norm(in.tc.Neg(v))
			}
			return norm(in.tc.FUn(OFNeg, v))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			return ^v & mask(b.w)
		case *Term:
			return norm(in.tc.BNot(v))
		}
	}
	panic(unsupported("unop " + op.String()))
}

func (in *Interp) convert(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if p, ok := x.(poison); ok {
		panic(unsupported("convert of poison: " + p.why))
	}
	db, dok := basicOf(ud)
	sb, sok := basicOf(us)
	if dok && sok {
		switch {
		case db.kind == 'p' || sb.kind == 'p':
			return x
		case db.kind == 's' && sb.kind == 's':
			return x
		case db.kind == 's' && sb.kind == 'i':
			// string(rune)
			switch v := x.(type) {
			case uint64:
				return string(rune(sx(v, sb.w)))
			case *Term:
				return in.runeToStr(v, sb)
			}
		case db.kind == 'i' && sb.kind == 'i':
			switch v := x.(type) {
			case uint64:
				if sb.signed {
					return uint64(sx(v, sb.w)) & mask(db.w)
				}
				return v & mask(db.w)
			case *Term:
				if db.w <= sb.w {
					return norm(in.tc.Extract(v, int(db.w)-1, 0))
				}
				if sb.signed {
					return norm(in.tc.Sext(v, int(db.w)))
				}
				return norm(in.tc.Zext(v, int(db.w)))
			}
		case (db.kind == 'f' || db.kind == 'F') && sb.kind == 'i':
			switch v := x.(type) {
			case uint64:
				if db.kind == 'F' {
					if sb.signed {
						return float32(sx(v, sb.w))
					}
					return float32(v)
				}
				if sb.signed {
					return float64(sx(v, sb.w))
				}
				return float64(v)
			case *Term:
				fs := sF64
				if db.kind == 'F' {
					fs = sF32
				}
				if sb.signed {
					return norm(in.tc.FConv(OFFromSbv, fs, v))
				}
				return norm(in.tc.FConv(OFFromUbv, fs, v))
			}
		case db.kind == 'i' && (sb.kind == 'f' || sb.kind == 'F'):
			switch v := x.(type) {
			case float64:
				if db.signed {
					return uint64(int64(v)) & mask(db.w)
				}
				return uint64(v) & mask(db.w)
			case float32:
				if db.signed {
					return uint64(int64(v)) & mask(db.w)
				}
				return uint64(v) & mask(db.w)
			case *Term:
				if db.w == 64 && db.signed && v.sort.k == KF64 {
					// amd64 semantics: out-of-range and NaN give MinInt64
					inr := in.tc.And(in.tc.FCmp(OFLt, v, in.tc.F64(9223372036854775808.0)), in.tc.FCmp(OFLe, in.tc.F64(-9223372036854775808.0), v))
					return norm(in.tc.Ite(inr, in.tc.FConv(OFToSbv, bvSort(64), v), in.tc.BV(1<<63, 64)))
				}
				return norm(in.tc.FConv(OFToSbv, bvSort(int(db.w)), v))
			}
		case (db.kind == 'f' || db.kind == 'F') && (sb.kind == 'f' || sb.kind == 'F'):
			switch v := x.(type) {
			case float64:
				if db.kind == 'F' {
					return float32(v)
				}
				return v
			case float32:
				if db.kind == 'f' {
					return float64(v)
				}
				return v
			case *Term:
				fs := sF64
				if db.kind == 'F' {
					fs = sF32
				}
				return norm(in.tc.FConv(OFToF, fs, v))
			}
		case db.kind == 'b' && sb.kind == 'b':
			return x
		}
		panic(unsupported(fmt.Sprintf("convert %s -> %s (%T)", src, dst, x)))
	}
	// string <-> slices
	if dok && db.kind == 's' {
		if st, ok := us.(*types.Slice); ok {
			s := x.(slicev)
			eb, _ := basicOf(st.Elem())
			if eb.w == 8 {
				bs := make([]sbyte, len(s))
				for k, v := range s {
					bs[k] = toSbyte(v)
				}
				return mkStr(bs)
			}
			// []rune
			var out []sbyte
			for _, v := range s {
				switch r := v.(type) {
				case uint64:
					out = append(out, strBytes(string(rune(sx(r, 32))))...)
				case *Term:
					out = append(out, strBytes(in.runeToStr(r, eb))...)
				}
			}
			return mkStr(out)
		}
	}
	if sok && sb.kind == 's' {
		if st, ok := ud.(*types.Slice); ok {
			eb, _ := basicOf(st.Elem())
			if eb.w == 8 {
				bs := strBytes(x)
				r := make(slicev, len(bs), bytesCap(len(bs)))
				for k := range bs {
					r[k] = bs[k].val()
				}
				z := r[:cap(r)]
				for k := len(bs); k < len(z); k++ {
					z[k] = uint64(0)
				}
				return r
			}
			bs := strBytes(x)
			r := slicev{}
			for len(bs) > 0 {
				v, n := in.decodeRune2(bs)
				r = append(r, v)
				bs = bs[n:]
			}
			return r
		}
	}
	switch ud.(type) {
	case *types.Pointer, *types.Basic:
		return x // unsafe.Pointer <-> *T
	case *types.Slice:
		return x
	case *types.Interface, *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Array:
		if a, ok := ud.(*types.Array); ok {
			if s, ok := x.(slicev); ok {
				if int64(len(s)) < a.Len() {
					in.goPanicRuntime("cannot convert slice to array: length")
				}
				return copyVal(arrayv(s[:a.Len()]))
			}
		}
		return x
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", src, dst)))
}

func (in *Interp) decodeRune2(b []sbyte) (value, int) {
	if b[0].t == nil && b[0].c < 0x80 {
		return uint64(b[0].c), 1
	}
	conc := true
	for _, x := range b {
		if x.t != nil {
			conc = false
		}
	}
	if conc {
		r, n := utf8.DecodeRuneInString(mkStr(b).(string))
		return uint64(uint32(r)), n
	}
	return in.decodeRune(b)
}

// runeToStr implements string(rune) for a symbolic rune.
func (in *Interp) runeToStr(v *Term, sb basicInfo) value {
	w := int(sb.w)
	if in.branch(in.tc.Ult(v, in.tc.BV(0x80, w))) {
		return mkStr([]sbyte{toSbyte(norm(in.tc.Extract(v, 7, 0)))})
	}
	if sb.w < 32 {
		v = in.tc.Zext(v, 32)
	}
	f := in.w.modelFn("RuneToString")
	var x *Term
	if sb.w > 32 {
		x = in.tc.Extract(v, 31, 0)
	} else {
		x = v
	}
	return in.runFn(in.compile(f), []value{norm(x)}, nil, in.curFrame)
}

// bytesCap is the capacity of a []byte(string) conversion (rounded up to a size class).
func bytesCap(n int) int {
	if n == 0 {
		return 0
	}
	return growCap(0, n, 1)
}

// growCap is the capacity the runtime gives a slice of elements of the given
// size when it grows from oldCap to hold newLen elements.
func growCap(oldCap, newLen int, elemSize int64) int {
	if elemSize == 0 {
		return newLen
	}
	if elemSize > 1024 {
		elemSize = 1024
	}
	k := [3]int64{int64(oldCap), int64(newLen), elemSize}
	growMu.Lock()
	defer growMu.Unlock()
	if c, ok := growMemo[k]; ok {
		return c
	}
	var et reflect.Type
	if elemSize%8 == 0 {
		et = reflect.ArrayOf(int(elemSize/8), reflect.TypeOf(uintptr(0)))
	} else {
		et = reflect.ArrayOf(int(elemSize), reflect.TypeOf(byte(0)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, oldCap, oldCap)
	add := reflect.MakeSlice(st, newLen-oldCap, newLen-oldCap)
	c := reflect.AppendSlice(s, add).Cap()
	growMemo[k] = c
	return c
}

// appendVals implements append(s, add...).
func (in *Interp) appendVals(s slicev, add []value, et types.Type) slicev {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			p := &r[len(s)+i]
			if in.raceOn {
				in.raceCell(p, true)
			}
			in.storeCell(p, v)
		}
		return r
	}
	c := growCap(cap(s), n, in.w.sizeof(et))
	r := make(slicev, n, c)
	for i, v := range s {
		if in.raceOn {
			in.raceCell(&s[i], false)
		}
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	z := r[:c]
	for i := n; i < c; i++ {
		z[i] = zero(et)
	}
	return r
}

// ---- type assertions

func (in *Interp) typeAssert(i *ssa.TypeAssert, x value) value {
	itf, ok := x.(iface)
	if !ok {
		if p, ok := x.(poison); ok {
			panic(unsupported("type assert on poison: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("typeAssert on %T", x)))
	}
	var v value
	good := false
	if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		if itf.t != nil && in.implements(itf.t, it) {
			v, good = itf, true
		}
	} else if itf.t != nil && in.types.get(itf.t) == in.types.get(i.AssertedType) {
		v, good = copyVal(itf.v), true
	}
	if i.CommaOk {
		if !good {
			v = zero(i.AssertedType)
		}
		return tuplev{v, good}
	}
	if !good {
		in.goPanicRuntime(fmt.Sprintf("interface conversion: %v is not %s", itf.t, i.AssertedType))
	}
	return v
}

type implKey struct{ t, i types.Type }

func (in *Interp) implements(t types.Type, i *types.Interface) bool {
	if i.NumMethods() == 0 {
		return true
	}
	k := implKey{t, i}
	if r, ok := in.w.implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	in.w.implCache.Store(k, r)
	return r
}

// ---- calls

func (in *Interp) prepareCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (value, []value) {
	if c.IsInvoke() {
		recv := in.get(fr, &ci.ops[0])
		itf, ok := recv.(iface)
		if !ok {
			if p, ok := recv.(poison); ok {
				panic(unsupported("invoke on poison: " + p.why))
			}
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if itf.t == nil {
			in.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		args := make([]value, 1, len(ci.ops))
		args[0] = copyVal(itf.v)
		for k := 1; k < len(ci.ops); k++ {
			args = append(args, copyVal(in.get(fr, &ci.ops[k])))
		}
		if nv, ok := itf.v.(*nativeObj); ok {
			f := nv.methods[c.Method.Name()]
			if f == nil {
				panic(unsupported("native method " + nv.name + "." + c.Method.Name()))
			}
			return &nativeFn{nv.name + "." + c.Method.Name(), f}, args
		}
		return in.lookupMethod(itf.t, c.Method), args
	}
	fnv := in.get(fr, &ci.ops[0])
	args := make([]value, 0, len(ci.ops)-1)
	for k := 1; k < len(ci.ops); k++ {
		args = append(args, copyVal(in.get(fr, &ci.ops[k])))
	}
	if b, ok := fnv.(*ssa.Builtin); ok {
		// deferred / go'd builtin: bind types
		return &nativeFn{b.Name(), func(in *Interp, a []value) value { return in.callBuiltin(fr, b, a, c) }}, args
	}
	return fnv, args
}

type nativeObj struct {
	name    string
	methods map[string]func(in *Interp, args []value) value
	data    interface{}
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{in.types.get(t), m.Id()}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.w.lookupMethod(t, m)
	if f == nil {
		panic(unsupported(fmt.Sprintf("method %s not found on %s", m.Name(), t)))
	}
	in.methods[k] = f
	return f
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) value {
	if !c.IsInvoke() {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			args := make([]value, 0, len(ci.ops)-1)
			for k := 1; k < len(ci.ops); k++ {
				args = append(args, in.get(fr, &ci.ops[k]))
			}
			return in.callBuiltin(fr, b, args, c)
		}
	}
	fnv, args := in.prepareCall(fr, c, ci)
	save := in.curFrame
	in.curFrame = fr
	v := in.call(fr, fnv, args, ci.pos)
	in.curFrame = save
	return v
}

func (in *Interp) callBuiltin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	for _, a := range args {
		if p, ok := a.(poison); ok {
			panic(unsupported("builtin on poison: " + p.why))
		}
	}
	argT := func(i int) types.Type {
		if c != nil {
			return c.Args[i].Type()
		}
		return b.Type().(*types.Signature).Params().At(i).Type()
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *symStr:
			return uint64(strLen(x))
		case slicev:
			return uint64(len(x))
		case *mapv:
			if x == nil {
				return uint64(0)
			}
			if in.raceOn {
				in.raceAccess(x, false)
			}
			return uint64(x.n)
		case *chanv:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case arrayv:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(arrayv)))
		}
	case "cap":
		switch x := args[0].(type) {
		case slicev:
			return uint64(cap(x))
		case *chanv:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case arrayv:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(arrayv)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		et := argT(0).Underlying().(*types.Slice).Elem()
		s := args[0].(slicev)
		switch y := args[1].(type) {
		case slicev:
			if in.raceOn {
				for i := range y {
					in.raceCell(&y[i], false)
				}
			}
			return in.appendVals(s, y, et)
		case string, *symStr:
			bs := strBytes(y)
			vs := make([]value, len(bs))
			for i := range bs {
				vs[i] = bs[i].val()
			}
			return in.appendVals(s, vs, et)
		}
	case "copy":
		dst := args[0].(slicev)
		var src []value
		switch y := args[1].(type) {
		case slicev:
			src = y
			if in.raceOn {
				for i := range y {
					if i < len(dst) {
						in.raceCell(&y[i], false)
					}
				}
			}
		default:
			bs := strBytes(y)
			src = make([]value, len(bs))
			for i := range bs {
				src[i] = bs[i].val()
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if in.raceOn {
				in.raceCell(&dst[i], true)
			}
			in.storeCell(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		in.mapDelete(args[0].(*mapv), args[1])
		return nil
	case "close":
		in.chanClose(args[0].(*chanv))
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapv:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.ents...) {
					if !e.deleted {
						in.mapDelete(x, e.k)
					}
				}
			}
			return nil
		case slicev:
			et := argT(0).Underlying().(*types.Slice).Elem()
			for i := range x {
				in.storeCell(&x[i], zero(et))
			}
			return nil
		}
	case "panic":
		panic(targetPanic{args[0], in.where(fr)})
	case "recover":
		// fr is the frame calling recover; its caller must be running defers while panicking
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			tp := fr.caller.panicVal.(targetPanic)
			v := tp.v.(iface)
			if v.t == nil {
				return in.w.runtimeError("panic called with nil argument")
			}
			return v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := argT(0)
		for i := 1; i < len(args); i++ {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			lt := in.binop(op, t, t, args[i], r)
			if lb, ok := lt.(bool); ok {
				if lb {
					r = args[i]
				}
			} else {
				bi, _ := basicOf(t)
				r = norm(in.tc.Ite(lt.(*Term), in.term(args[i], bi), in.term(r, bi)))
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.goPanicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData":
		switch x := args[0].(type) {
		case slicev:
			if x == nil {
				return (*value)(nil)
			}
			return &sliceData{s: x[:len(x):cap(x)]}
		case string, *symStr:
			return &sliceData{str: x}
		}
	case "String":
		n := int(in.intArg(args[1], argT(1), "unsafe.String"))
		switch d := args[0].(type) {
		case *sliceData:
			if d.str != nil {
				return mkStr(strBytes(d.str)[:n])
			}
			bs := make([]sbyte, n)
			s := d.s[:n]
			for i := range bs {
				bs[i] = toSbyte(s[i])
			}
			return mkStr(bs)
		case *value:
			if n == 0 {
				return ""
			}
		}
	case "Slice":
		n := int(in.intArg(args[1], argT(1), "unsafe.Slice"))
		switch d := args[0].(type) {
		case *sliceData:
			if d.str != nil {
				bs := strBytes(d.str)[:n]
				r := make(slicev, n)
				for i := range bs {
					r[i] = bs[i].val()
				}
				return r
			}
			return d.s[:n]
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s", b.Name())))
}

var _ = math.Abs
