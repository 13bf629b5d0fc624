package main

// Speculative merging: pure regions / pure functions under a symbolic branch
// are evaluated on both sides and joined with ite, instead of forking paths.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type specExit struct {
	cond  *Term
	block *cblock
	prev  *cblock
	regs  []value
	ret   value
	phis  []value
}

type specRun struct {
	in     *Interp
	cf     *cfn
	region bool
	exits  []specExit
	budget int
	fr     *frame
	entry  *cblock
}

const (
	specMaxExits = 160
	specBudget   = 6000
)

// guardSpec runs f in speculation mode; false when speculation was aborted.
func (in *Interp) guardSpec(f func() bool) (ok bool) {
	in.spec++
	d, st := in.depth, in.steps
	cf := in.curFrame
	n := len(in.log)
	defer func() {
		in.spec--
		if r := recover(); r != nil {
			in.depth = d
			in.steps = st
			in.curFrame = cf
			switch x := r.(type) {
			case specAbort, targetPanic:
				ok = false
				if len(in.log) != n {
					panic(fmt.Sprintf("speculation wrote memory (%v)", x))
				}
				return
			case pathAbort:
				if x.kind == "unsupported" || x.kind == "limit" {
					ok = false
					return
				}
			}
			panic(r)
		}
	}()
	return f()
}

// specCall evaluates a pure function on symbolic arguments into one merged value.
func (in *Interp) specCall(c *cfn, args []value) (v value, ok bool) {
	if in.path.fails[c.blocks[0]] > 8 {
		return nil, false
	}
	ok = in.guardSpec(func() bool {
		r, good := in.specFn(c, args)
		v = r
		return good
	})
	if ok {
		in.encoded[c.fn]++
	} else {
		in.path.fails[c.blocks[0]]++
	}
	return
}

func (in *Interp) specFn(c *cfn, args []value) (value, bool) {
	if in.depth > 200 {
		return nil, false
	}
	in.depth++
	defer func() { in.depth-- }()
	regs := make([]value, c.nregs)
	copy(regs, args)
	s := &specRun{in: in, cf: c, budget: specBudget}
	s.fr = &frame{cf: c}
	if !s.explore(regs, c.blocks[0], nil, in.tc.tru, 0) {
		return nil, false
	}
	// merge returns
	n := len(s.exits)
	if n == 0 {
		return nil, false
	}
	acc := s.exits[n-1].ret
	for i := n - 2; i >= 0; i-- {
		var good bool
		acc, good = in.mergeVal(c.retType(), s.exits[i].cond, s.exits[i].ret, acc)
		if !good {
			return nil, false
		}
	}
	return acc, true
}

// explore walks from block b. In region mode it stops at impure blocks and back edges.
func (s *specRun) explore(regs []value, b, prev *cblock, cond *Term, depth int) bool {
	in := s.in
	for {
		if cond == in.tc.fls {
			return true
		}
		if s.region && (!b.pure || isRet(b) || (prev != nil && b.b.Dominates(prev.b)) || depth > 24) {
			s.exits = append(s.exits, specExit{cond: cond, block: b, prev: prev, regs: regs})
			return len(s.exits) <= specMaxExits
		}
		if !s.region && !b.pure {
			return false
		}
		fr := s.fr
		fr.regs = regs
		fr.prev = prev
		start := regs
		if s.region {
			// keep the entry state in case the block turns out not to be executable
			start = append([]value(nil), regs...)
		}
		ok := s.runBlock(fr, b)
		if !ok {
			if s.region {
				s.exits = append(s.exits, specExit{cond: cond, block: b, prev: prev, regs: start})
				return len(s.exits) <= specMaxExits
			}
			return false
		}
		regs = fr.regs
		last := b.ins[len(b.ins)-1]
		switch last.in.(type) {
		case *ssa.Return:
			var ret value
			switch len(last.ops) {
			case 0:
			case 1:
				ret = in.get(fr, &last.ops[0])
			default:
				t := make(tuplev, len(last.ops))
				for k := range last.ops {
					t[k] = in.get(fr, &last.ops[k])
				}
				ret = t
			}
			s.exits = append(s.exits, specExit{cond: cond, ret: ret})
			return len(s.exits) <= specMaxExits
		case *ssa.Jump:
			prev, b = b, b.succs[0]
		case *ssa.If:
			c := in.get(fr, &last.ops[0])
			switch x := c.(type) {
			case bool:
				prev = b
				if x {
					b = b.succs[0]
				} else {
					b = b.succs[1]
				}
			case *Term:
				cp := append([]value(nil), regs...)
				if !s.explore(cp, b.succs[0], b, in.tc.And(cond, x), depth+1) {
					return false
				}
				cond = in.tc.And(cond, in.tc.Not(x))
				prev, b = b, b.succs[1]
				depth++
			default:
				return false
			}
		default:
			return false
		}
	}
}

func isRet(b *cblock) bool {
	_, ok := b.ins[len(b.ins)-1].in.(*ssa.Return)
	return ok
}

// runBlock executes phis and all instructions but the terminator.
func (s *specRun) runBlock(fr *frame, b *cblock) (ok bool) {
	in := s.in
	s.budget -= len(b.ins)
	if s.budget < 0 {
		return false
	}
	if s.region {
		// an abort inside the block makes it an exit
		d := in.depth
		defer func() {
			if r := recover(); r != nil {
				in.depth = d
				switch x := r.(type) {
				case specAbort, targetPanic:
					ok = false
					return
				case pathAbort:
					if x.kind == "unsupported" || x.kind == "limit" {
						ok = false
						return
					}
				}
				panic(r)
			}
		}()
	}
	if len(b.phis) > 0 && fr.prev != nil {
		in.runPhis(fr, b)
	}
	for _, ci := range b.ins[:len(b.ins)-1] {
		if call, ok := ci.in.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil {
				c := in.compile(f)
				if !in.pureFn(c) {
					return false
				}
				args := make([]value, 0, len(ci.ops)-1)
				for k := 1; k < len(ci.ops); k++ {
					args = append(args, in.get(fr, &ci.ops[k]))
				}
				if c.native != nil {
					fr.regs[ci.dst] = c.native(in, fr, args)
					continue
				}
				v, good := in.specFn(c, args)
				if !good {
					return false
				}
				fr.regs[ci.dst] = v
				continue
			}
		}
		in.exec(fr, ci)
	}
	return true
}

// region tries to merge the pure region below the symbolic branch ending b.
func (in *Interp) region(fr *frame, b *cblock, c *Term) bool {
	if in.path.fails[b] > 6 {
		return false
	}
	worth := false
	for _, s := range b.succs {
		if s.pure && !isRet(s) && !s.b.Dominates(b.b) {
			worth = true
		}
	}
	if !worth {
		return false
	}
	var s *specRun
	ok := in.guardSpec(func() bool {
		s = &specRun{in: in, cf: fr.cf, region: true, budget: specBudget, entry: b}
		s.fr = &frame{cf: fr.cf, caller: fr.caller}
		if !s.explore(append([]value(nil), fr.regs...), b.succs[0], b, c, 0) {
			return false
		}
		return s.explore(append([]value(nil), fr.regs...), b.succs[1], b, in.tc.Not(c), 0)
	})
	if !ok || len(s.exits) < 2 {
		in.path.fails[b]++
		return false
	}
	// group by block
	type group struct {
		block *cblock
		ex    []specExit
		cond  *Term
	}
	var groups []*group
	for _, e := range s.exits {
		e := e
		if len(e.block.phis) > 0 {
			pi := -1
			for i, p := range e.block.preds {
				if p == e.prev {
					pi = i
				}
			}
			f := &frame{cf: fr.cf, regs: e.regs}
			for _, ph := range e.block.phis {
				e.phis = append(e.phis, in.get(f, &ph.ops[pi]))
			}
		}
		var g *group
		for _, x := range groups {
			if x.block == e.block {
				g = x
			}
		}
		if g != nil {
			// try merging
			if m, good := in.mergeExit(fr, g.ex[0], e); good {
				g.ex[0] = m
				g.cond = m.cond
				continue
			}
		}
		groups = append(groups, &group{block: e.block, ex: []specExit{e}, cond: e.cond})
	}
	if len(groups) == len(s.exits) {
		// no merging gained
		in.path.fails[b]++
		if len(groups) == 2 {
			return false
		}
	} else {
		in.path.fails[b] = 0
	}
	pick := groups[len(groups)-1]
	for _, g := range groups[:len(groups)-1] {
		if in.branch(g.cond) {
			pick = g
			break
		}
	}
	e := pick.ex[0]
	fr.regs = e.regs
	for i, ph := range e.block.phis {
		fr.regs[ph.dst] = e.phis[i]
	}
	fr.block = e.block
	fr.prev = nil // phis already evaluated
	return true
}

// mergeExit merges two exits into the same block (a has priority under a.cond).
func (in *Interp) mergeExit(fr *frame, a, b specExit) (specExit, bool) {
	r := specExit{cond: in.tc.Or(a.cond, b.cond), block: a.block, prev: a.prev}
	for i := range a.phis {
		v, ok := in.mergeVal(a.block.phis[i].in.(ssa.Value).Type(), a.cond, a.phis[i], b.phis[i])
		if !ok {
			return r, false
		}
		r.phis = append(r.phis, v)
	}
	r.regs = append([]value(nil), b.regs...)
	for i := range a.regs {
		if sameVal(a.regs[i], b.regs[i]) {
			continue
		}
		db := fr.cf.regBlock[i]
		if db == nil || !db.b.Dominates(a.block.b) || db == a.block {
			r.regs[i] = nil
			continue
		}
		v, ok := in.mergeVal(fr.cf.regType[i], a.cond, a.regs[i], b.regs[i])
		if !ok {
			return r, false
		}
		r.regs[i] = v
	}
	return r, true
}

func sameVal(a, b value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case *symStr:
		y, ok := b.(*symStr)
		return ok && x == y
	case *mapv:
		y, ok := b.(*mapv)
		return ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case *closure:
		y, ok := b.(*closure)
		return ok && x == y
	case slicev:
		y, ok := b.(slicev)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return false
		}
		if cap(x) == 0 {
			return true
		}
		return &x[:1][0] == &y[:1][0]
	case iface:
		y, ok := b.(iface)
		return ok && x.t == y.t && sameVal(x.v, y.v)
	}
	return false
}

func (c *cfn) retType() types.Type {
	r := c.fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// mergeVal is ite(c, a, b) for values of type t.
func (in *Interp) mergeVal(t types.Type, c *Term, a, b value) (value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a == nil || b == nil {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi, _ := basicOf(u)
		switch bi.kind {
		case 'i', 'b', 'f', 'F':
			switch a.(type) {
			case *Term, uint64, bool, float64, float32:
			default:
				return nil, false
			}
			switch b.(type) {
			case *Term, uint64, bool, float64, float32:
			default:
				return nil, false
			}
			return norm(in.tc.Ite(c, in.term(a, bi), in.term(b, bi))), true
		case 's':
			switch a.(type) {
			case string, *symStr:
			default:
				return nil, false
			}
			switch b.(type) {
			case string, *symStr:
			default:
				return nil, false
			}
			if strLen(a) != strLen(b) {
				return nil, false
			}
			ab, bb := strBytes(a), strBytes(b)
			r := make([]sbyte, len(ab))
			for i := range ab {
				if ab[i].t == nil && bb[i].t == nil && ab[i].c == bb[i].c {
					r[i] = ab[i]
				} else {
					r[i] = toSbyte(norm(in.tc.Ite(c, in.sbt(ab[i]), in.sbt(bb[i]))))
				}
			}
			return mkStr(r), true
		}
	case *types.Tuple:
		x, y := a.(tuplev), b.(tuplev)
		r := make(tuplev, len(x))
		for i := range x {
			v, ok := in.mergeVal(u.At(i).Type(), c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *types.Struct:
		x, ok1 := a.(structv)
		y, ok2 := b.(structv)
		if !ok1 || !ok2 {
			return nil, false
		}
		r := make(structv, len(x))
		for i := range x {
			v, ok := in.mergeVal(u.Field(i).Type(), c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *types.Array:
		x, ok1 := a.(arrayv)
		y, ok2 := b.(arrayv)
		if !ok1 || !ok2 {
			return nil, false
		}
		r := make(arrayv, len(x))
		for i := range x {
			v, ok := in.mergeVal(u.Elem(), c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	return nil, false
}
