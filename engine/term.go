package main

// Hash-consed SMT terms with local simplification, an SMT-LIB printer and a
// concrete evaluator (used for model-based query elision and for reports).

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KF32
	KF64
)

type Sort struct {
	k Kind
	w uint8
}

var (
	sBool = Sort{KBool, 0}
	sF64  = Sort{KF64, 64}
	sF32  = Sort{KF32, 32}
)

func bvSort(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) smt() string {
	switch s.k {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.w)
	case KF32:
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OVar Op = iota
	OConst
	// bool
	ONot
	OAnd
	OOr
	OIte
	OEq // bv or bool
	// bv comparison
	OUlt
	OSlt
	// bv arithmetic
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OExtract // c=hi, c2=lo
	OZext
	OSext
	OConcat
	// fp
	OFEq
	OFLt
	OFLe
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFIsNaN
	OFIsInf
	OFFromBits
	OFFromSbv
	OFFromUbv
	OFToSbv
	OFToUbv
	OFToF // fp to fp conversion
	OFSqrt
	OFRti // round to integral, c = mode 0 RTN(floor) 1 RTP(ceil) 2 RTZ(trunc)
)

type Term struct {
	op   Op
	sort Sort
	a    [3]*Term
	c    uint64 // const bits / extract hi
	c2   uint64 // extract lo
	name string
	id   int32
	vidx int32
	vi   *varInfo
}

type termKey struct {
	op         Op
	sort       Sort
	a0, a1, a2 int32
	c, c2      uint64
}

type TermCtx struct {
	tab  map[termKey]*Term
	all  []*Term
	vars map[string]*Term
	vlst []*Term
	tru  *Term
	fls  *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	c.tru = c.mk(OConst, sBool, nil, nil, nil, 1, 0)
	c.fls = c.mk(OConst, sBool, nil, nil, nil, 0, 0)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, s Sort, a0, a1, a2 *Term, cc, c2 uint64) *Term {
	k := termKey{op, s, tid(a0), tid(a1), tid(a2), cc, c2}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, a: [3]*Term{a0, a1, a2}, c: cc, c2: c2, id: int32(len(c.all))}
	c.all = append(c.all, t)
	c.tab[k] = t
	return t
}

func (c *TermCtx) Var(name string, s Sort) *Term {
	if t, ok := c.vars[name]; ok {
		if t.sort != s {
			panic("sort clash for " + name)
		}
		return t
	}
	t := &Term{op: OVar, sort: s, name: name, id: int32(len(c.all)), vidx: int32(len(c.vlst))}
	c.all = append(c.all, t)
	c.vars[name] = t
	c.vlst = append(c.vlst, t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TermCtx) BV(v uint64, w int) *Term {
	return c.mk(OConst, bvSort(w), nil, nil, nil, v&mask(uint8(w)), 0)
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *TermCtx) F64(f float64) *Term {
	return c.mk(OConst, sF64, nil, nil, nil, math.Float64bits(f), 0)
}
func (c *TermCtx) F32(f float32) *Term {
	return c.mk(OConst, sF32, nil, nil, nil, uint64(math.Float32bits(f)), 0)
}

func (t *Term) isConst() bool { return t.op == OConst }

func sx(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// ---- boolean

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, sBool, a, nil, nil, 0, 0)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == b || b == c.tru {
		return a
	}
	if a == c.tru {
		return b
	}
	if a == c.fls || b == c.fls {
		return c.fls
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, sBool, a, b, nil, 0, 0)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == b || b == c.fls {
		return a
	}
	if a == c.fls {
		return b
	}
	if a == c.tru || b == c.tru {
		return c.tru
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return c.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, sBool, a, b, nil, 0, 0)
}

func (c *TermCtx) Ite(i, t, e *Term) *Term {
	if i == c.tru {
		return t
	}
	if i == c.fls {
		return e
	}
	if t == e {
		return t
	}
	if i.op == ONot {
		return c.Ite(i.a[0], e, t)
	}
	if t.sort.k == KBool {
		if t == c.tru && e == c.fls {
			return i
		}
		if t == c.fls && e == c.tru {
			return c.Not(i)
		}
		if t == c.tru {
			return c.Or(i, e)
		}
		if t == c.fls {
			return c.And(c.Not(i), e)
		}
		if e == c.tru {
			return c.Or(c.Not(i), t)
		}
		if e == c.fls {
			return c.And(i, t)
		}
	}
	if t.op == OIte && t.a[0] == i {
		t = t.a[1]
	}
	if e.op == OIte && e.a[0] == i {
		e = e.a[2]
	}
	if t == e {
		return t
	}
	return c.mk(OIte, t.sort, i, t, e, 0, 0)
}

// bitsOf is the float64 term whose bits a term is, if known.
func (c *TermCtx) bitsOf(t *Term) *Term {
	if t.op == OConst && t.sort.k == KBV && t.sort.w == 64 {
		return c.F64(math.Float64frombits(t.c))
	}
	if t.op == OVar && strings.HasPrefix(t.name, "f2b:") {
		if id, err := strconv.Atoi(t.name[4:]); err == nil && id < len(c.all) {
			return c.all[id]
		}
	}
	return nil
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.sort.k == KBV && a.sort.w == 64 && a != b && (a.op == OVar || b.op == OVar) {
		if fa, fb := c.bitsOf(a), c.bitsOf(b); fa != nil && fb != nil {
			// the bits of exact integers are equal exactly when the integers are
			_, _, oka := c.exactInt(fa)
			_, _, okb := c.exactInt(fb)
			if oka && okb {
				if x, y, _, ok := c.exactPair(fa, fb, 0); ok {
					return c.Eq(x, y)
				}
			}
		}
	}
	if a == b {
		return c.tru
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.c == b.c)
	}
	if a.sort.k == KBool {
		if a.op == OConst {
			a, b = b, a
		}
		if b == c.tru {
			return a
		}
		if b == c.fls {
			return c.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.sort.k == KBV {
		switch a.op {
		case OZext:
			iw := a.a[0].sort.w
			if b.c&^mask(iw) != 0 {
				return c.fls
			}
			return c.Eq(a.a[0], c.BV(b.c, int(iw)))
		case OSext:
			iw := a.a[0].sort.w
			if uint64(sx(b.c&mask(iw), iw))&mask(a.sort.w) != b.c {
				return c.fls
			}
			return c.Eq(a.a[0], c.BV(b.c, int(iw)))
		case OAdd:
			if a.a[1].op == OConst {
				return c.Eq(a.a[0], c.BV(b.c-a.a[1].c, int(a.sort.w)))
			}
		case OBXor:
			if a.a[1].op == OConst {
				return c.Eq(a.a[0], c.BV(b.c^a.a[1].c, int(a.sort.w)))
			}
		case OIte:
			// push equality with constants into constant-leaved ite trees
			if constLeaves(a, 0) {
				return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
			}
		case OConcat:
			lw := a.a[1].sort.w
			return c.And(c.Eq(a.a[0], c.BV(b.c>>lw, int(a.a[0].sort.w))), c.Eq(a.a[1], c.BV(b.c, int(lw))))
		}
	}
	if a.sort.k == KBV {
		l1, h1 := c.urange(a)
		l2, h2 := c.urange(b)
		if h1 < l2 || h2 < l1 {
			return c.fls
		}
	}
	if a.id > b.id && !(b.op == OConst) {
		a, b = b, a
	}
	return c.mk(OEq, sBool, a, b, nil, 0, 0)
}

func constLeaves(t *Term, d int) bool {
	if t.op == OConst {
		return true
	}
	if t.op == OIte && d < 8 {
		return constLeaves(t.a[1], d+1) && constLeaves(t.a[2], d+1)
	}
	return false
}

// ---- bit-vectors

func bvFold(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return (x + y) & mask(w), true
	case OSub:
		return (x - y) & mask(w), true
	case OMul:
		return (x * y) & mask(w), true
	case OUdiv:
		if y == 0 {
			return mask(w), true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		if y == 0 {
			if sx(x, w) >= 0 {
				return mask(w), true
			}
			return 1, true
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & mask(w), true
		}
		return uint64(a/b) & mask(w), true
	case OSrem:
		if y == 0 {
			return x, true
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & mask(w), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & mask(w), true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & mask(w), true
	}
	return 0, false
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.sort.w
	if a.op == OConst && b.op == OConst {
		if v, ok := bvFold(op, w, a.c, b.c); ok {
			return c.BV(v, int(w))
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.op == OConst || (b.op != OConst && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.op == OConst {
		bc := b.c
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			if bc == 0 {
				return a
			}
			if (op == OShl || op == OLshr) && bc >= uint64(w) {
				return c.BV(0, int(w))
			}
			if op == OSub {
				return c.Bin(OAdd, a, c.BV(-bc, int(w)))
			}
			if op == OAdd && a.op == OAdd && a.a[1].op == OConst {
				return c.Bin(OAdd, a.a[0], c.BV(a.a[1].c+bc, int(w)))
			}
			if op == OBOr && bc == mask(w) {
				return b
			}
			if op == OBXor && bc == mask(w) {
				return c.BNot(a)
			}
			if op == OLshr && a.op == OZext && bc >= uint64(a.a[0].sort.w) {
				return c.BV(0, int(w))
			}
			if op == OShl && a.op == OZext {
				iw := uint64(a.a[0].sort.w)
				if bc+iw <= uint64(w) {
					r := c.Concat(a.a[0], c.BV(0, int(bc)))
					return c.Zext(r, int(w))
				}
			}
			if op == OLshr {
				return c.Zext(c.Extract(a, int(w)-1, int(bc)), int(w))
			}
			if op == OShl {
				return c.Concat(c.Extract(a, int(w)-1-int(bc), 0), c.BV(0, int(bc)))
			}
		case OMul:
			if bc == 0 {
				return b
			}
			if bc == 1 {
				return a
			}
			if bc&(bc-1) == 0 {
				return c.Bin(OShl, a, c.BV(uint64(bits.TrailingZeros64(bc)), int(w)))
			}
		case OBAnd:
			if bc == 0 {
				return b
			}
			if bc == mask(w) {
				return a
			}
			if bc&(bc+1) == 0 { // low mask
				k := bits.Len64(bc)
				return c.Zext(c.Extract(a, k-1, 0), int(w))
			}
			if a.op == OZext && bc&mask(a.a[0].sort.w) == mask(a.a[0].sort.w) {
				return a
			}
		case OUdiv:
			if bc == 1 {
				return a
			}
			if bc != 0 && bc&(bc-1) == 0 {
				return c.Bin(OLshr, a, c.BV(uint64(bits.TrailingZeros64(bc)), int(w)))
			}
		case OUrem:
			if bc != 0 && bc&(bc-1) == 0 {
				return c.Bin(OBAnd, a, c.BV(bc-1, int(w)))
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.BV(0, int(w))
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OBOr || op == OAdd || op == OBXor {
		// disjoint zext/concat combination: (zext lo) | (concat hi 0)
		if r := c.joinDisjoint(a, b); r != nil {
			return r
		}
		if r := c.joinDisjoint(b, a); r != nil {
			return r
		}
	}
	return c.mk(op, a.sort, a, b, nil, 0, 0)
}

// joinDisjoint handles lo|hi where hi = (zext)(concat H 0_k) and lo = zext(L), width(L) <= k.
func (c *TermCtx) joinDisjoint(lo, hi *Term) *Term {
	w := int(lo.sort.w)
	if lo.op != OZext {
		return nil
	}
	L := lo.a[0]
	h := hi
	if h.op == OZext {
		h = h.a[0]
	}
	if h.op != OConcat || h.a[1].op != OConst || h.a[1].c != 0 {
		return nil
	}
	k := int(h.a[1].sort.w)
	if int(L.sort.w) > k {
		return nil
	}
	return c.Zext(c.Concat(h.a[0], c.Zext(L, k)), w)
}

// urange is an unsigned interval containing every value of a bit-vector term.
func (c *TermCtx) urange(t *Term) (uint64, uint64) { return c.urng(t, 6) }

func (c *TermCtx) urng(t *Term, d int) (uint64, uint64) {
	m := mask(t.sort.w)
	if t.op == OConst {
		return t.c, t.c
	}
	if d == 0 {
		return 0, m
	}
	switch t.op {
	case OZext:
		return c.urng(t.a[0], d-1)
	case OUrem:
		if b := t.a[1]; b.op == OConst && b.c > 0 {
			_, h := c.urng(t.a[0], d-1)
			if h > b.c-1 {
				h = b.c - 1
			}
			return 0, h
		}
	case OUdiv:
		if b := t.a[1]; b.op == OConst && b.c > 0 {
			l, h := c.urng(t.a[0], d-1)
			return l / b.c, h / b.c
		}
	case OAdd:
		l1, h1 := c.urng(t.a[0], d-1)
		l2, h2 := c.urng(t.a[1], d-1)
		if h1 <= m-h2 {
			return l1 + l2, h1 + h2
		}
	case OIte:
		l1, h1 := c.urng(t.a[1], d-1)
		l2, h2 := c.urng(t.a[2], d-1)
		return min(l1, l2), max(h1, h2)
	case OExtract:
		if l, h := c.urng(t.a[0], d-1); h <= m && t.c2 == 0 {
			return l, h
		}
	case OConcat:
		w := t.a[1].sort.w
		l1, h1 := c.urng(t.a[0], d-1)
		l2, h2 := c.urng(t.a[1], d-1)
		return l1<<w | l2, h1<<w | h2
	}
	return 0, m
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.BV(^a.c, int(a.sort.w))
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return c.mk(OBNot, a.sort, a, nil, nil, 0, 0)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.BV(-a.c, int(a.sort.w))
	}
	return c.mk(ONeg, a.sort, a, nil, nil, 0, 0)
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := int(a.sort.w)
	if lo == 0 && hi == w-1 {
		return a
	}
	if a.op == OConst {
		return c.BV(a.c>>uint(lo), hi-lo+1)
	}
	switch a.op {
	case OExtract:
		return c.Extract(a.a[0], hi+int(a.c2), lo+int(a.c2))
	case OZext:
		iw := int(a.a[0].sort.w)
		if lo >= iw {
			return c.BV(0, hi-lo+1)
		}
		if hi < iw {
			return c.Extract(a.a[0], hi, lo)
		}
		return c.Zext(c.Extract(a.a[0], iw-1, lo), hi-lo+1)
	case OSext:
		iw := int(a.a[0].sort.w)
		if hi < iw {
			return c.Extract(a.a[0], hi, lo)
		}
	case OConcat:
		lw := int(a.a[1].sort.w)
		if hi < lw {
			return c.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a[0], hi-lw, 0), c.Extract(a.a[1], lw-1, lo))
	case OIte:
		if constLeaves(a, 0) {
			return c.Ite(a.a[0], c.Extract(a.a[1], hi, lo), c.Extract(a.a[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if a.a[1].op == OConst || lo == 0 {
			return c.Bin(a.op, c.Extract(a.a[0], hi, lo), c.Extract(a.a[1], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && a.a[1].op == OConst {
			return c.Bin(a.op, c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
		}
	}
	return c.mk(OExtract, bvSort(hi-lo+1), a, nil, nil, uint64(hi), uint64(lo))
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if int(a.sort.w) > w {
		panic("zext")
	}
	if a.op == OConst {
		return c.BV(a.c, w)
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	if a.op == OIte && constLeaves(a, 0) {
		return c.Ite(a.a[0], c.Zext(a.a[1], w), c.Zext(a.a[2], w))
	}
	return c.mk(OZext, bvSort(w), a, nil, nil, 0, 0)
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.op == OConst {
		return c.BV(uint64(sx(a.c, a.sort.w)), w)
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	if a.op == OSext {
		return c.Sext(a.a[0], w)
	}
	return c.mk(OSext, bvSort(w), a, nil, nil, 0, 0)
}

func (c *TermCtx) Concat(hi, lo *Term) *Term {
	w := int(hi.sort.w) + int(lo.sort.w)
	if w > 64 {
		return c.mk(OConcat, bvSort(w), hi, lo, nil, 0, 0)
	}
	if hi.op == OConst && lo.op == OConst {
		return c.BV(hi.c<<lo.sort.w|lo.c, w)
	}
	if hi.op == OConst && hi.c == 0 {
		return c.Zext(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] && hi.c2 == lo.c+1 {
		return c.Extract(hi.a[0], int(hi.c), int(lo.c2))
	}
	if hi.op == OZext {
		return c.Zext(c.Concat(hi.a[0], lo), w)
	}
	// concat(x, concat(y,z)) with adjacent extracts
	if lo.op == OConcat && hi.op == OExtract && lo.a[0].op == OExtract && hi.a[0] == lo.a[0].a[0] && hi.c2 == lo.a[0].c+1 {
		return c.Concat(c.Extract(hi.a[0], int(hi.c), int(lo.a[0].c2)), lo.a[1])
	}
	if hi.op == OConcat && lo.op == OExtract && hi.a[1].op == OExtract && hi.a[1].a[0] == lo.a[0] && hi.a[1].c2 == lo.c+1 {
		return c.Concat(hi.a[0], c.Extract(lo.a[0], int(hi.a[1].c), int(lo.c2)))
	}
	return c.mk(OConcat, bvSort(w), hi, lo, nil, 0, 0)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.c < b.c)
	}
	w := a.sort.w
	if b.op == OConst {
		if b.c == 0 {
			return c.fls
		}
		if a.op == OZext {
			iw := a.a[0].sort.w
			if b.c > mask(iw) {
				return c.tru
			}
			return c.Ult(a.a[0], c.BV(b.c, int(iw)))
		}
		if b.c == 1 {
			return c.Eq(a, c.BV(0, int(w)))
		}
		if a.op == OIte && constLeaves(a, 0) {
			return c.Ite(a.a[0], c.Ult(a.a[1], b), c.Ult(a.a[2], b))
		}
	}
	if a.op == OConst {
		if a.c == mask(w) {
			return c.fls
		}
		if b.op == OZext {
			iw := b.a[0].sort.w
			if a.c >= mask(iw) {
				return c.fls
			}
			return c.Ult(c.BV(a.c, int(iw)), b.a[0])
		}
		if b.op == OIte && constLeaves(b, 0) {
			return c.Ite(b.a[0], c.Ult(a, b.a[1]), c.Ult(a, b.a[2]))
		}
	}
	if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
		return c.Ult(a.a[0], b.a[0])
	}
	l1, h1 := c.urange(a)
	l2, h2 := c.urange(b)
	if h1 < l2 {
		return c.tru
	}
	if l1 >= h2 {
		return c.fls
	}
	return c.mk(OUlt, sBool, a, b, nil, 0, 0)
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	w := a.sort.w
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.c, w) < sx(b.c, w))
	}
	nonneg := func(t *Term) bool {
		if t.op == OConst {
			return sx(t.c, w) >= 0
		}
		return t.op == OZext
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if a.op == OZext && b.op == OConst && sx(b.c, w) < 0 {
		return c.fls
	}
	if b.op == OZext && a.op == OConst && sx(a.c, w) < 0 {
		return c.tru
	}
	if a.op == OConst || b.op == OConst {
		if l1, h1, ok := srange(a, 0); ok {
			if l2, h2, ok := srange(b, 0); ok {
				if h1 < l2 {
					return c.tru
				}
				if l1 >= h2 {
					return c.fls
				}
			}
		}
	}
	if b.op == OConst && a.op == OIte && constLeaves(a, 0) {
		return c.Ite(a.a[0], c.Slt(a.a[1], b), c.Slt(a.a[2], b))
	}
	if a.op == OConst && b.op == OIte && constLeaves(b, 0) {
		return c.Ite(b.a[0], c.Slt(a, b.a[1]), c.Slt(a, b.a[2]))
	}
	return c.mk(OSlt, sBool, a, b, nil, 0, 0)
}

// ---- floating point

func fval(t *Term) float64 {
	if t.sort.k == KF32 {
		return float64(math.Float32frombits(uint32(t.c)))
	}
	return math.Float64frombits(t.c)
}

func (c *TermCtx) fconst(s Sort, f float64) *Term {
	if s.k == KF32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}

// exactInt recognises a float64 term that is the exact conversion of a w-bit
// signed integer (w at most 53), never -0.
func (c *TermCtx) exactInt(t *Term) (*Term, int, bool) {
	if t.sort.k != KF64 {
		return nil, 0, false
	}
	switch t.op {
	case OConst:
		f := math.Float64frombits(t.c)
		if f != math.Trunc(f) || math.Abs(f) > 1<<51 || (f == 0 && math.Signbit(f)) {
			return nil, 0, false
		}
		i := int64(f)
		w := 2
		for i < -(1<<(w-1)) || i >= 1<<(w-1) {
			w++
		}
		return c.BV(uint64(i)&mask(uint8(w)), w), w, true
	case OFFromSbv:
		x := t.a[0]
		for x.op == OSext {
			x = x.a[0]
		}
		if x.op == OZext && x.a[0].sort.w < 53 {
			x = x.a[0]
			w := x.sort.w + 1
			return c.Zext(x, int(w)), int(w), true
		}
		if x.sort.w <= 53 {
			return x, int(x.sort.w), true
		}
		if lo, hi, ok := srange(x, 0); ok && lo >= -(1<<51) && hi < 1<<51 {
			w := 2
			for lo < -(1<<(w-1)) || hi >= 1<<(w-1) {
				w++
			}
			return c.Extract(x, w-1, 0), w, true
		}
	case OFFromUbv:
		x := t.a[0]
		for x.op == OZext {
			x = x.a[0]
		}
		if x.sort.w < 53 {
			w := x.sort.w + 1
			return c.Zext(x, int(w)), int(w), true
		}
	case OIte:
		if x, y, w, ok := c.exactPair(t.a[1], t.a[2], 0); ok {
			return c.Ite(t.a[0], x, y), w, true
		}
	}
	return nil, 0, false
}

// srange bounds a term read as a signed integer (only for terms that cannot wrap).
func srange(t *Term, d int) (lo, hi int64, ok bool) {
	const lim = 1 << 52
	w := t.sort.w
	if d > 12 || t.sort.k != KBV {
		return
	}
	switch t.op {
	case OConst:
		v := int64(sx(t.c, w))
		return v, v, v > -lim && v < lim
	case OSext:
		if iw := t.a[0].sort.w; iw < 53 {
			return -(1 << (iw - 1)), 1<<(iw-1) - 1, true
		}
		return srange(t.a[0], d+1)
	case OZext:
		if iw := t.a[0].sort.w; iw < 52 {
			return 0, 1<<iw - 1, true
		}
	case OIte:
		l1, h1, ok1 := srange(t.a[1], d+1)
		l2, h2, ok2 := srange(t.a[2], d+1)
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OAdd, OSub:
		l1, h1, ok1 := srange(t.a[0], d+1)
		l2, h2, ok2 := srange(t.a[1], d+1)
		if !ok1 || !ok2 {
			return
		}
		if t.op == OAdd {
			lo, hi = l1+l2, h1+h2
		} else {
			lo, hi = l1-h2, h1-l2
		}
		if w < 53 && (lo < -(1<<(w-1)) || hi >= 1<<(w-1)) {
			return 0, 0, false // may wrap
		}
		return lo, hi, lo > -lim && hi < lim
	}
	return
}

// exactPair widens two exact integers to a common width plus extra bits.
func (c *TermCtx) exactPair(a, b *Term, extra int) (x, y *Term, w int, ok bool) {
	x, wx, ok := c.exactInt(a)
	if !ok {
		return
	}
	y, wy, ok := c.exactInt(b)
	if !ok {
		return
	}
	w = wx
	if wy > w {
		w = wy
	}
	w += extra
	if w > 53 {
		return nil, nil, 0, false
	}
	return c.Sext(x, w), c.Sext(y, w), w, true
}

// fbounded: a finite float64 of magnitude below 2^(64+depth).
func fbounded(t *Term, depth int) bool {
	switch t.op {
	case OConst:
		return t.sort.k == KF64 && math.Abs(fval(t)) < 1e18
	case OFFromSbv, OFFromUbv:
		return t.sort.k == KF64
	case OFAdd, OFSub:
		return depth < 100 && fbounded(t.a[0], depth+1) && fbounded(t.a[1], depth+1)
	case OFNeg, OFAbs:
		return fbounded(t.a[0], depth)
	}
	return false
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if op == OFAdd || op == OFSub {
		if !(a.op == OConst && b.op == OConst) {
			if x, y, _, ok := c.exactPair(a, b, 1); ok {
				if op == OFAdd {
					x = c.Bin(OAdd, x, y)
				} else {
					x = c.Bin(OSub, x, y)
				}
				return c.FConv(OFFromSbv, a.sort, c.Sext(x, 64))
			}
		}
	}
	if a.op == OConst && b.op == OConst {
		x, y := fval(a), fval(b)
		switch op {
		case OFAdd:
			return c.fconst(a.sort, x+y)
		case OFSub:
			return c.fconst(a.sort, x-y)
		case OFMul:
			return c.fconst(a.sort, x*y)
		case OFDiv:
			return c.fconst(a.sort, x/y)
		}
	}
	return c.mk(op, a.sort, a, b, nil, 0, 0)
}

// intCmpConst compares the w-bit signed x with f (f on the left if flip).
func (c *TermCtx) intCmpConst(op Op, x *Term, w int, f float64, flip bool) *Term {
	lo, hi := -math.Ldexp(1, w-1), math.Ldexp(1, w-1)-1
	if op == OFEq {
		if f != math.Trunc(f) || f < lo || f > hi {
			return c.fls
		}
		return c.Eq(x, c.BV(uint64(int64(f))&mask(uint8(w)), w))
	}
	k := func(v float64) *Term { return c.BV(uint64(int64(v))&mask(uint8(w)), w) }
	le := func(v float64) *Term { // x <= v, v integral or infinite
		if v >= hi {
			return c.tru
		}
		if v < lo {
			return c.fls
		}
		return c.Not(c.Slt(k(v), x))
	}
	switch {
	case op == OFLe && !flip: // x <= f
		return le(math.Floor(f))
	case op == OFLt && !flip: // x < f  <=>  x <= ceil(f)-1
		if math.Abs(f) > 1<<53 {
			return le(f)
		}
		return le(math.Ceil(f) - 1)
	case op == OFLe && flip: // f <= x  <=>  !(x <= ceil(f)-1)
		if math.Abs(f) > 1<<53 {
			return c.Not(le(f))
		}
		return c.Not(le(math.Ceil(f) - 1))
	case op == OFLt && flip: // f < x
		return c.Not(le(math.Floor(f)))
	}
	return nil
}

func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		x, y := fval(a), fval(b)
		switch op {
		case OFEq:
			return c.Bool(x == y)
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		}
	}
	if a == b && op == OFLt {
		return c.fls
	}
	if a == b && fbounded(a, 0) {
		return c.tru
	}
	if x, y, _, ok := c.exactPair(a, b, 0); ok {
		switch op {
		case OFEq:
			return c.Eq(x, y)
		case OFLt:
			return c.Slt(x, y)
		case OFLe:
			return c.Not(c.Slt(y, x))
		}
	}
	// an exact integer against any other constant
	if x, w, ok := c.exactInt(a); ok && b.op == OConst {
		if f := fval(b); f == f {
			if r := c.intCmpConst(op, x, w, f, false); r != nil {
				return r
			}
		}
	}
	if x, w, ok := c.exactInt(b); ok && a.op == OConst {
		if f := fval(a); f == f {
			if r := c.intCmpConst(op, x, w, f, true); r != nil {
				return r
			}
		}
	}
	return c.mk(op, sBool, a, b, nil, 0, 0)
}

func (c *TermCtx) FUn(op Op, a *Term) *Term {
	if a.op == OConst {
		x := fval(a)
		switch op {
		case OFNeg:
			return c.fconst(a.sort, -x)
		case OFAbs:
			return c.fconst(a.sort, math.Abs(x))
		case OFIsNaN:
			return c.Bool(x != x)
		case OFIsInf:
			return c.Bool(math.IsInf(x, 0))
		case OFSqrt:
			return c.fconst(a.sort, math.Sqrt(x))
		}
	}
	s := a.sort
	if (op == OFIsNaN || op == OFIsInf) && fbounded(a, 0) {
		return c.fls
	}
	if op == OFIsNaN || op == OFIsInf {
		s = sBool
	}
	return c.mk(op, s, a, nil, nil, 0, 0)
}

func (c *TermCtx) FConv(op Op, s Sort, a *Term) *Term {
	if a.op == OConst {
		if v, ok := fconvFold(op, s, a.sort, a.c); ok {
			return c.mk(OConst, s, nil, nil, nil, v, 0)
		}
	}
	if op == OFToF && a.sort == s {
		return a
	}
	if op == OFToSbv {
		if x, w, ok := c.exactInt(a); ok && w <= int(s.w) {
			return c.Sext(x, int(s.w))
		}
	}
	return c.mk(op, s, a, nil, nil, 0, 0)
}

func fbits(s Sort, f float64) uint64 {
	if s.k == KF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func ffrom(s Sort, b uint64) float64 {
	if s.k == KF32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

func fconvFold(op Op, s, as Sort, v uint64) (uint64, bool) {
	switch op {
	case OFFromBits:
		return v, true
	case OFFromSbv:
		if s.k == KF32 {
			return uint64(math.Float32bits(float32(sx(v, as.w)))), true
		}
		return math.Float64bits(float64(sx(v, as.w))), true
	case OFFromUbv:
		if s.k == KF32 {
			return uint64(math.Float32bits(float32(v))), true
		}
		return math.Float64bits(float64(v)), true
	case OFToSbv:
		f := ffrom(as, v)
		if f != f || f >= 9.3e18 || f <= -9.3e18 {
			return 0, false
		}
		return uint64(int64(f)) & mask(s.w), true
	case OFToUbv:
		f := ffrom(as, v)
		if f != f || f < 0 || f >= 1.8e19 {
			return 0, false
		}
		return uint64(f) & mask(s.w), true
	case OFToF:
		return fbits(s, ffrom(as, v)), true
	}
	return 0, false
}

// ---- evaluation under a model

type Model map[*Term]uint64

type evaluator struct {
	m    Model
	memo *Memo
	ok   bool
}

// Eval evaluates t under m (absent variables are 0). ok=false when some
// operation has no defined concrete result.
// Memo caches evaluation results per term id; reset is O(1).
type Memo struct {
	val []uint64
	gen []uint32
	g   uint32
}

func (m *Memo) reset() *Memo {
	m.g++
	if m.g == 0 {
		for i := range m.gen {
			m.gen[i] = 0
		}
		m.g = 1
	}
	return m
}

func (m *Memo) get(id int32) (uint64, bool) {
	if int(id) < len(m.gen) && m.gen[id] == m.g {
		return m.val[id], true
	}
	return 0, false
}

func (m *Memo) put(id int32, v uint64) {
	if int(id) >= len(m.gen) {
		n := int(id)*3/2 + 256
		nv, ng := make([]uint64, n), make([]uint32, n)
		copy(nv, m.val)
		copy(ng, m.gen)
		m.val, m.gen = nv, ng
	}
	m.val[id], m.gen[id] = v, m.g
}

func newMemo() *Memo { return &Memo{g: 1} }

func (m Model) eval(t *Term, memo *Memo) (uint64, bool) {
	e := &evaluator{m: m, memo: memo, ok: true}
	v := e.ev(t)
	return v, e.ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return e.m[t]
	}
	if v, ok := e.memo.get(t.id); ok {
		return v
	}
	var v uint64
	switch t.op {
	case ONot:
		v = 1 - e.ev(t.a[0])
	case OAnd:
		if e.ev(t.a[0]) == 0 {
			v = 0
		} else {
			v = e.ev(t.a[1])
		}
	case OOr:
		if e.ev(t.a[0]) == 1 {
			v = 1
		} else {
			v = e.ev(t.a[1])
		}
	case OIte:
		if e.ev(t.a[0]) == 1 {
			v = e.ev(t.a[1])
		} else {
			v = e.ev(t.a[2])
		}
	case OEq:
		v = b2u(e.ev(t.a[0]) == e.ev(t.a[1]))
	case OUlt:
		v = b2u(e.ev(t.a[0]) < e.ev(t.a[1]))
	case OSlt:
		w := t.a[0].sort.w
		v = b2u(sx(e.ev(t.a[0]), w) < sx(e.ev(t.a[1]), w))
	case OBNot:
		v = ^e.ev(t.a[0]) & mask(t.sort.w)
	case ONeg:
		v = (-e.ev(t.a[0])) & mask(t.sort.w)
	case OExtract:
		if t.a[0].sort.w > 64 {
			e.ok = false
			return 0
		}
		v = (e.ev(t.a[0]) >> t.c2) & mask(t.sort.w)
	case OZext:
		v = e.ev(t.a[0])
	case OSext:
		v = uint64(sx(e.ev(t.a[0]), t.a[0].sort.w)) & mask(t.sort.w)
	case OConcat:
		if t.sort.w > 64 {
			e.ok = false
			return 0
		}
		v = e.ev(t.a[0])<<t.a[1].sort.w | e.ev(t.a[1])
	case OFEq, OFLt, OFLe:
		s := t.a[0].sort
		x, y := ffrom(s, e.ev(t.a[0])), ffrom(s, e.ev(t.a[1]))
		switch t.op {
		case OFEq:
			v = b2u(x == y)
		case OFLt:
			v = b2u(x < y)
		default:
			v = b2u(x <= y)
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := ffrom(t.sort, e.ev(t.a[0])), ffrom(t.sort, e.ev(t.a[1]))
		switch t.op {
		case OFAdd:
			x = x + y
		case OFSub:
			x = x - y
		case OFMul:
			x = x * y
		default:
			x = x / y
		}
		v = fbits(t.sort, x)
	case OFNeg:
		v = fbits(t.sort, -ffrom(t.sort, e.ev(t.a[0])))
	case OFAbs:
		v = fbits(t.sort, math.Abs(ffrom(t.sort, e.ev(t.a[0]))))
	case OFSqrt:
		v = fbits(t.sort, math.Sqrt(ffrom(t.sort, e.ev(t.a[0]))))
	case OFRti:
		x := ffrom(t.sort, e.ev(t.a[0]))
		switch t.c {
		case 0:
			x = math.Floor(x)
		case 1:
			x = math.Ceil(x)
		default:
			x = math.Trunc(x)
		}
		v = fbits(t.sort, x)
	case OFIsNaN:
		x := ffrom(t.a[0].sort, e.ev(t.a[0]))
		v = b2u(x != x)
	case OFIsInf:
		v = b2u(math.IsInf(ffrom(t.a[0].sort, e.ev(t.a[0])), 0))
	case OFFromBits, OFFromSbv, OFFromUbv, OFToSbv, OFToUbv, OFToF:
		x, ok := fconvFold(t.op, t.sort, t.a[0].sort, e.ev(t.a[0]))
		if !ok {
			e.ok = false
		}
		v = x
	default:
		x, y := e.ev(t.a[0]), e.ev(t.a[1])
		if t.sort.w > 64 {
			e.ok = false
			return 0
		}
		r, ok := bvFold(t.op, t.sort.w, x, y)
		if !ok {
			e.ok = false
		}
		v = r
	}
	e.memo.put(t.id, v)
	return v
}

// ---- SMT-LIB printing

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
}

var fpOps = map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}

func fpTo(s Sort) string {
	if s.k == KF32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) ref() string {
	switch t.op {
	case OVar:
		return "|" + t.name + "|"
	case OConst:
		switch t.sort.k {
		case KBool:
			if t.c == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return fmt.Sprintf("(_ bv%d %d)", t.c, t.sort.w)
		default:
			f := fval(t)
			if f != f {
				return "(_ NaN " + fpTo(t.sort) + ")"
			}
			return fmt.Sprintf("((_ to_fp %s) (_ bv%d %d))", fpTo(t.sort), t.c, t.sort.w)
		}
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.c, t.c2)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort.w-t.a[0].sort.w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort.w-t.a[0].sort.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		sb.WriteString(fpOps[t.op] + " RNE")
	case OFSqrt:
		sb.WriteString("fp.sqrt RNE")
	case OFRti:
		sb.WriteString("fp.roundToIntegral " + [...]string{"RTN", "RTP", "RTZ"}[t.c])
	case OFFromBits:
		fmt.Fprintf(&sb, "(_ to_fp %s)", fpTo(t.sort))
	case OFFromSbv, OFToF:
		fmt.Fprintf(&sb, "(_ to_fp %s) RNE", fpTo(t.sort))
	case OFFromUbv:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %s) RNE", fpTo(t.sort))
	case OFToSbv:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort.w)
	case OFToUbv:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort.w)
	default:
		sb.WriteString(opName[t.op])
	}
	for _, a := range t.a {
		if a != nil {
			sb.WriteByte(' ')
			sb.WriteString(a.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	if t.op == OVar || t.op == OConst {
		return t.ref()
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(")
	if t.op == OExtract {
		fmt.Fprintf(&sb, "extract[%d:%d]", t.c, t.c2)
	} else if n, ok := opName[t.op]; ok {
		sb.WriteString(n)
	} else {
		fmt.Fprintf(&sb, "op%d", t.op)
	}
	for _, a := range t.a {
		if a != nil {
			sb.WriteString(" " + a.str(d-1))
		}
	}
	return sb.String() + ")"
}

func (c *TermCtx) size() int { return len(c.all) }
