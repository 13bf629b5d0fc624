package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Runtime values of interpreted code:
//
//	integers            uint64 (zero-extended, truncated to width) or *Term (BV)
//	bool                bool or *Term (Bool)
//	float64/float32     float64 / float32 or *Term (FP)
//	string              string or *symStr
//	pointer             *value, *symAddr, nil *value
//	unsafe.Pointer      any pointer-ish value
//	struct              structv       array  arrayv
//	slice               slicev (nil s = nil slice)
//	map                 *mapv (nil = nil map)
//	chan                *chanv
//	interface           iface
//	func                *ssa.Function, *closure, *ssa.Builtin, *nativeFn or nil *ssa.Function
//	tuple               tuplev
//	poison              unsupported value
type value interface{}

type structv []value
type arrayv []value
type slicev []value
type tuplev []value

type iface struct {
	t types.Type // nil for nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(in *Interp, args []value) value
}

type poison struct{ why string }

// sliceData is the result of unsafe.SliceData / StringData.
type sliceData struct {
	s   slicev
	str value
}

// symAddr is &base[idx] with idx symbolic; only used for scalar elements.
type symAddr struct {
	base []value
	idx  *Term
	elem types.Type
}

// sbyte is one byte of a symbolic string.
type sbyte struct {
	c byte
	t *Term
}

type symStr struct{ b []sbyte }

type complexv complex128

// ---- types

type typeCache struct {
	m     typeutil.Map
	canon map[types.Type]types.Type
}

func newTypeCache() *typeCache {
	return &typeCache{canon: map[types.Type]types.Type{}}
}

func (tc *typeCache) get(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := tc.canon[t]; ok {
		return c
	}
	t0 := t
	t = types.Unalias(t)
	if c := tc.m.At(t); c != nil {
		ct := c.(types.Type)
		tc.canon[t0] = ct
		return ct
	}
	tc.m.Set(t, t)
	tc.canon[t0] = t
	return t
}

type basicInfo struct {
	w      uint8
	signed bool
	kind   byte // 'i','b','f','s','p','c', 'F'(float32)
}

func basicOf(t types.Type) (basicInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return basicInfo{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return basicInfo{0, false, 'b'}, true
	case types.Int, types.Int64, types.UntypedInt:
		return basicInfo{64, true, 'i'}, true
	case types.Int8:
		return basicInfo{8, true, 'i'}, true
	case types.Int16:
		return basicInfo{16, true, 'i'}, true
	case types.Int32, types.UntypedRune:
		return basicInfo{32, true, 'i'}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return basicInfo{64, false, 'i'}, true
	case types.Uint8:
		return basicInfo{8, false, 'i'}, true
	case types.Uint16:
		return basicInfo{16, false, 'i'}, true
	case types.Uint32:
		return basicInfo{32, false, 'i'}, true
	case types.Float64, types.UntypedFloat:
		return basicInfo{64, true, 'f'}, true
	case types.Float32:
		return basicInfo{32, true, 'F'}, true
	case types.String, types.UntypedString:
		return basicInfo{0, false, 's'}, true
	case types.UnsafePointer:
		return basicInfo{64, false, 'p'}, true
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return basicInfo{128, false, 'c'}, true
	}
	return basicInfo{}, false
}

func isScalar(t types.Type) bool {
	b, ok := basicOf(t)
	return ok && (b.kind == 'i' || b.kind == 'b' || b.kind == 'f' || b.kind == 'F')
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Basic:
		switch b, _ := basicOf(t); b.kind {
		case 'b':
			return false
		case 'i':
			return uint64(0)
		case 'f':
			return float64(0)
		case 'F':
			return float32(0)
		case 's':
			return ""
		case 'p':
			return (*value)(nil)
		case 'c':
			return complexv(0)
		}
		return iface{} // untyped nil
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(arrayv, t.Len())
		if isScalar(t.Elem()) {
			z := zero(t.Elem())
			for i := range a {
				a[i] = z
			}
		} else {
			for i := range a {
				a[i] = zero(t.Elem())
			}
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return slicev(nil)
	case *types.Struct:
		s := make(structv, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(tuplev, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic("zero of type param")
	}
	panic(fmt.Sprintf("zero: %T", t))
}

// copyVal copies aggregates (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structv:
		n := make(structv, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case arrayv:
		n := make(arrayv, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// ---- strings

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v)))
}

func strBytes(v value) []sbyte {
	switch s := v.(type) {
	case string:
		b := make([]sbyte, len(s))
		for i := 0; i < len(s); i++ {
			b[i].c = s[i]
		}
		return b
	case *symStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("strBytes of %T", v)))
}

func mkStr(b []sbyte) value {
	for _, x := range b {
		if x.t != nil {
			return &symStr{b}
		}
	}
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = x.c
	}
	return string(o)
}

func (x sbyte) val() value {
	if x.t != nil {
		return x.t
	}
	return uint64(x.c)
}

func toSbyte(v value) sbyte {
	switch v := v.(type) {
	case uint64:
		return sbyte{c: byte(v)}
	case *Term:
		if v.op == OConst {
			return sbyte{c: byte(v.c)}
		}
		return sbyte{t: v}
	}
	panic(unsupported(fmt.Sprintf("byte from %T", v)))
}

// ---- scalar <-> term

func (in *Interp) term(v value, b basicInfo) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return in.tc.BV(x, int(b.w))
	case bool:
		return in.tc.Bool(x)
	case float64:
		return in.tc.F64(x)
	case float32:
		return in.tc.F32(x)
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

// norm turns a constant term into a concrete value.
func norm(t *Term) value {
	if t.op != OConst {
		return t
	}
	switch t.sort.k {
	case KBool:
		return t.c == 1
	case KBV:
		return t.c
	case KF32:
		return math.Float32frombits(uint32(t.c))
	}
	return math.Float64frombits(t.c)
}

// ---- equality

func (in *Interp) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return in.tc.Bool(v)
	case *Term:
		return v
	}
	panic(unsupported(fmt.Sprintf("bool of %T", v)))
}

func (in *Interp) strEq(a, b value) value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as == bs
	}
	if strLen(a) != strLen(b) {
		return false
	}
	ab, bb := strBytes(a), strBytes(b)
	r := in.tc.tru
	for i := range ab {
		r = in.tc.And(r, in.tc.Eq(in.sbt(ab[i]), in.sbt(bb[i])))
		if r == in.tc.fls {
			return false
		}
	}
	return norm(r)
}

func (in *Interp) sbt(b sbyte) *Term {
	if b.t != nil {
		return b.t
	}
	return in.tc.BV(uint64(b.c), 8)
}

// strLt is a < b.
func (in *Interp) strLt(a, b value) value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as < bs
	}
	ab, bb := strBytes(a), strBytes(b)
	n := len(ab)
	if len(bb) < n {
		n = len(bb)
	}
	r := in.tc.Bool(len(ab) < len(bb))
	for i := n - 1; i >= 0; i-- {
		x, y := in.sbt(ab[i]), in.sbt(bb[i])
		r = in.tc.Or(in.tc.Ult(x, y), in.tc.And(in.tc.Eq(x, y), r))
	}
	return norm(r)
}

// equals implements == for values of type t; result is bool or *Term.
func (in *Interp) equals(t types.Type, a, b value) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi, _ := basicOf(u)
		switch bi.kind {
		case 's':
			return in.strEq(a, b)
		case 'p':
			return in.ptrEq(a, b)
		case 'f', 'F':
			switch x := a.(type) {
			case float64:
				if y, ok := b.(float64); ok {
					return x == y
				}
			case float32:
				if y, ok := b.(float32); ok {
					return x == y
				}
			}
			return norm(in.tc.FCmp(OFEq, in.term(a, bi), in.term(b, bi)))
		case 'i':
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return x == y
				}
			}
			return norm(in.tc.Eq(in.term(a, bi), in.term(b, bi)))
		case 'b':
			if x, ok := a.(bool); ok {
				if y, ok := b.(bool); ok {
					return x == y
				}
			}
			return norm(in.tc.Eq(in.boolTerm(a), in.boolTerm(b)))
		case 'c':
			return a.(complexv) == b.(complexv)
		}
	case *types.Pointer:
		return in.ptrEq(a, b)
	case *types.Struct:
		as, bs := a.(structv), b.(structv)
		r := in.tc.tru
		for i := range as {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.tc.And(r, in.boolTerm(in.equals(u.Field(i).Type(), as[i], bs[i])))
			if r == in.tc.fls {
				return false
			}
		}
		return norm(r)
	case *types.Array:
		as, bs := a.(arrayv), b.(arrayv)
		r := in.tc.tru
		for i := range as {
			r = in.tc.And(r, in.boolTerm(in.equals(u.Elem(), as[i], bs[i])))
			if r == in.tc.fls {
				return false
			}
		}
		return norm(r)
	case *types.Interface:
		return in.ifaceEq(a.(iface), b.(iface))
	case *types.Chan:
		return a.(*chanv) == b.(*chanv)
	case *types.Map:
		return a.(*mapv) == nil && b.(*mapv) == nil
	case *types.Slice:
		return a.(slicev) == nil && b.(slicev) == nil
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	}
	panic(unsupported(fmt.Sprintf("equals on %s", t)))
}

func isNilFunc(v value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

func (in *Interp) ptrEq(a, b value) value {
	x, ok1 := a.(*value)
	y, ok2 := b.(*value)
	if ok1 && ok2 {
		return x == y
	}
	if _, ok := a.(poison); ok {
		panic(unsupported("poison pointer"))
	}
	if _, ok := b.(poison); ok {
		panic(unsupported("poison pointer"))
	}
	if sa, ok := a.(*symAddr); ok && ok2 && y == nil {
		_ = sa
		return false
	}
	if sb, ok := b.(*symAddr); ok && ok1 && x == nil {
		_ = sb
		return false
	}
	return a == b
}

func (in *Interp) ifaceEq(a, b iface) value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if in.types.get(a.t) != in.types.get(b.t) {
		return false
	}
	if !types.Comparable(a.t) {
		in.goPanicRuntime("comparing uncomparable type " + a.t.String())
	}
	return in.equals(a.t, a.v, b.v)
}

// ---- maps: insertion-ordered association lists with an index for concrete keys

type mapEntry struct {
	k, v    value
	deleted bool
	ck      string // concrete key hash, "" when symbolic
}

type mapv struct {
	t     *types.Map
	ents  []*mapEntry
	index map[string]*mapEntry
	nsym  int // live entries with a symbolic key
	n     int
}

// ckey returns a canonical string of a fully concrete key.
func (in *Interp) ckey(sb *strings.Builder, t types.Type, v value) bool {
	switch x := v.(type) {
	case uint64:
		fmt.Fprintf(sb, "i%d;", x)
		return true
	case bool:
		fmt.Fprintf(sb, "b%v;", x)
		return true
	case float64:
		if x != x {
			return false
		}
		if x == 0 {
			x = 0
		}
		fmt.Fprintf(sb, "f%v;", x)
		return true
	case float32:
		fmt.Fprintf(sb, "F%v;", x)
		return true
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(x), x)
		return true
	case *value:
		fmt.Fprintf(sb, "p%p;", x)
		return true
	case *chanv:
		fmt.Fprintf(sb, "c%p;", x)
		return true
	case *symStr:
		return false
	case *Term:
		return false
	case structv:
		st := t.Underlying().(*types.Struct)
		sb.WriteByte('{')
		for i, f := range x {
			if !in.ckey(sb, st.Field(i).Type(), f) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case arrayv:
		at := t.Underlying().(*types.Array)
		sb.WriteByte('[')
		for _, f := range x {
			if !in.ckey(sb, at.Elem(), f) {
				return false
			}
		}
		sb.WriteByte(']')
		return true
	case iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		ct := in.types.get(x.t)
		fmt.Fprintf(sb, "I%p:", reflect.ValueOf(ct).Interface())
		if !types.Comparable(ct) {
			in.goPanicRuntime("hash of unhashable type " + ct.String())
		}
		return in.ckey(sb, ct, x.v)
	case poison:
		panic(unsupported("poison map key: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (in *Interp) mapFind(m *mapv, k value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	if in.ckey(&sb, m.t.Key(), k) {
		if e := m.index[sb.String()]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.deleted || e.ck != "" {
				continue
			}
			if in.truth(in.equals(m.t.Key(), e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if in.truth(in.equals(m.t.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *mapv, k, v value) {
	if m == nil {
		in.goPanicPlain("assignment to entry in nil map")
	}
	if in.raceOn {
		in.raceAccess(m, true)
	}
	if e := in.mapFind(m, k); e != nil {
		old := e.v
		e.v = v
		in.undo(func() { e.v = old })
		return
	}
	e := &mapEntry{k: k, v: v}
	var sb strings.Builder
	if in.ckey(&sb, m.t.Key(), k) {
		e.ck = sb.String()
		m.index[e.ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
	in.undo(func() {
		if e.ck != "" {
			delete(m.index, e.ck)
		} else {
			m.nsym--
		}
		m.ents = m.ents[:len(m.ents)-1]
		m.n--
	})
}

func (in *Interp) mapDelete(m *mapv, k value) {
	if m == nil {
		return
	}
	if in.raceOn {
		in.raceAccess(m, true)
	}
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if e.ck != "" {
		delete(m.index, e.ck)
	} else {
		m.nsym--
	}
	in.undo(func() {
		e.deleted = false
		m.n++
		if e.ck != "" {
			m.index[e.ck] = e
		} else {
			m.nsym++
		}
	})
}

func newMap(t *types.Map) *mapv { return &mapv{t: t, index: map[string]*mapEntry{}} }
