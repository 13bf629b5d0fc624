package main

// Cheap exact feasibility decisions for branch pruning: constraint slicing with
// exhaustive evaluation of a single small variable, and model repair. Whatever
// is not settled here goes to the SMT solver.

type varInfo struct {
	vs []int32
	sz int32
}

func (c *TermCtx) info(t *Term) *varInfo {
	if t.vi != nil {
		return t.vi
	}
	vi := &varInfo{sz: 1}
	switch t.op {
	case OConst:
	case OVar:
		vi.vs = []int32{t.vidx}
	default:
		for _, a := range t.a {
			if a == nil {
				continue
			}
			x := c.info(a)
			vi.vs = unionVars(vi.vs, x.vs)
			vi.sz += x.sz
			if vi.sz > 1<<20 {
				vi.sz = 1 << 20
			}
		}
	}
	t.vi = vi
	return vi
}

func unionVars(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset checks keep slices shared
	i, j, extra := 0, 0, 0
	sub := true
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i] < b[j]:
			i++
		default:
			j++
			extra++
			sub = false
		}
	}
	if j < len(b) {
		sub = false
	}
	if sub {
		return a
	}
	r := make([]int32, 0, len(a)+len(b)-0)
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			r = append(r, b[j])
			j++
		case j == len(b):
			r = append(r, a[i])
			i++
		case a[i] == b[j]:
			r = append(r, a[i])
			i++
			j++
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	_ = extra
	return r
}

func hasVar(vs []int32, v int32) bool {
	lo, hi := 0, len(vs)
	for lo < hi {
		m := (lo + hi) / 2
		if vs[m] < v {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(vs) && vs[lo] == v
}

func varWidth(t *Term) int {
	switch t.sort.k {
	case KBool:
		return 1
	case KBV:
		return int(t.sort.w)
	}
	return 64
}

// quick decides feasibility of pc ∧ c without the solver when it is easy.
// The current model (if any) satisfies pc.
func (in *Interp) quick(c *Term) (SatRes, Model) {
	p := in.path
	tc := in.tc
	vi := tc.info(c)
	if len(vi.vs) == 0 || vi.sz > 4000 {
		return Unknown, nil
	}
	// constraint slice
	set := vi.vs
	var rel []*Term
	used := make([]bool, len(p.pc))
	sz := int(vi.sz)
	for ch := true; ch; {
		ch = false
		for i, t := range p.pc {
			if used[i] {
				continue
			}
			ti := tc.info(t)
			hit := false
			for _, v := range ti.vs {
				if hasVar(set, v) {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				rel = append(rel, t)
				sz += int(ti.sz)
				n := unionVars(set, ti.vs)
				if len(n) != len(set) {
					set = n
					ch = true
				}
			}
			if sz > 60000 {
				return Unknown, nil
			}
		}
	}
	if len(set) == 1 {
		v := tc.vlst[set[0]]
		w := varWidth(v)
		if w <= 8 && v.sort.k != KF64 && sz*256 < 4_000_000 {
			m := Model{}
			for x := uint64(0); x < 1<<uint(w); x++ {
				m[v] = x
				memo := in.smemo.reset()
				if r, ok := m.eval(c, memo); !ok {
					return Unknown, nil
				} else if r != 1 {
					continue
				}
				good := true
				for _, t := range rel {
					r, ok := m.eval(t, memo)
					if !ok {
						return Unknown, nil
					}
					if r != 1 {
						good = false
						break
					}
				}
				if good {
					if p.model == nil {
						return Sat, nil
					}
					return Sat, p.model.with(v, x)
				}
			}
			return Unsat, nil
		}
	}
	if p.model == nil {
		return Unknown, nil
	}
	// repair the model by changing one variable
	budget := 3_000_000
	nv := 0
	for _, vx := range vi.vs {
		v := tc.vlst[vx]
		if v.sort.k == KF64 || v.sort.k == KF32 {
			continue
		}
		nv++
		if nv > 8 {
			break
		}
		var rv []*Term
		for _, t := range rel {
			if hasVar(tc.info(t).vs, vx) {
				rv = append(rv, t)
			}
		}
		w := varWidth(v)
		var cands []uint64
		if w <= 8 {
			n := 1 << uint(w)
			base := int(p.model[v])
			for d := 1; d < n; d++ {
				cands = append(cands, uint64((base+d)%n))
			}
		} else {
			mk := mask(uint8(w))
			cands = []uint64{0, 1, 2, 3, mk, mk - 1, 1 << uint(w-1), (1 << uint(w-1)) - 1, 10, 100, 1000, 64, 127, 128, 255, 256}
			cands = append(cands, constsIn(c, w, 40)...)
		}
		old := p.model[v]
		for _, x := range cands {
			if budget < 0 {
				break
			}
			budget -= int(vi.sz) + 20
			p.model[v] = x
			memo := in.smemo.reset()
			good := false
			if r, ok := p.model.eval(c, memo); ok && r == 1 {
				good = true
				for _, t := range rv {
					budget -= int(tc.info(t).sz)
					if r, ok := p.model.eval(t, memo); !ok || r != 1 {
						good = false
						break
					}
				}
			}
			if good {
				m := p.model.with(v, x)
				p.model[v] = old
				return Sat, m
			}
		}
		p.model[v] = old
	}
	return Unknown, nil
}

func constsIn(t *Term, w, lim int) []uint64 {
	var r []uint64
	seen := map[*Term]bool{}
	mk := mask(uint8(w))
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || len(r) > lim {
			return
		}
		seen[t] = true
		if t.op == OConst && t.sort.k == KBV {
			r = append(r, t.c&mk, (t.c+1)&mk, (t.c-1)&mk)
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	return r
}

func (m Model) with(v *Term, x uint64) Model {
	n := make(Model, len(m)+1)
	for k, y := range m {
		n[k] = y
	}
	n[v] = x
	return n
}

// hint is a model in worker-independent form.
type hint []hintVal

type hintVal struct {
	name string
	sort Sort
	val  uint64
}

func (m Model) hint() hint {
	if m == nil {
		return nil
	}
	h := make(hint, 0, len(m))
	for t, v := range m {
		if v != 0 {
			h = append(h, hintVal{t.name, t.sort, v})
		}
	}
	return h
}

// useHint installs a hint as the current model when it satisfies the path condition.
func (in *Interp) useHint(h hint) bool {
	m := Model{}
	for _, x := range h {
		m[in.tc.Var(x.name, x.sort)] = x.val
	}
	memo := in.smemo.reset()
	for _, t := range in.path.pc {
		if r, ok := m.eval(t, memo); !ok || r != 1 {
			return false
		}
	}
	in.path.model = m
	in.path.memo.reset()
	return true
}
