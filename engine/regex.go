package main

// regexp matching over symbolic bytes: the compiled NFA program is simulated
// symbolically (anchored or not), producing one boolean formula.

import (
	"regexp"
	"regexp/syntax"
)

func (in *Interp) reMatch(pat string, s value) value {
	if str, ok := s.(string); ok {
		return regexp.MustCompile(pat).MatchString(str)
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + err.Error()))
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported("regexp " + err.Error()))
	}
	bs := strBytes(s)
	n := len(bs)
	c := in.tc
	cur := map[int]*Term{}
	matched := c.fls
	// closure adds pc and its empty-width successors
	var closure func(m map[int]*Term, pc int, cond *Term, pos int, onpath map[int]bool)
	closure = func(m map[int]*Term, pc int, cond *Term, pos int, onpath map[int]bool) {
		if cond == c.fls || onpath[pc] {
			return
		}
		onpath[pc] = true
		defer delete(onpath, pc)
		i := &prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			closure(m, int(i.Out), cond, pos, onpath)
			closure(m, int(i.Arg), cond, pos, onpath)
		case syntax.InstCapture, syntax.InstNop:
			closure(m, int(i.Out), cond, pos, onpath)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(i.Arg)
			k := c.tru
			if op&syntax.EmptyBeginText != 0 && pos != 0 {
				k = c.fls
			}
			if op&syntax.EmptyEndText != 0 && pos != n {
				k = c.fls
			}
			if op&(syntax.EmptyBeginLine|syntax.EmptyEndLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				panic(unsupported("regexp empty-width op"))
			}
			closure(m, int(i.Out), c.And(cond, k), pos, onpath)
		case syntax.InstMatch:
			matched = c.Or(matched, cond)
		case syntax.InstFail:
		default:
			if old, ok := m[pc]; ok {
				m[pc] = c.Or(old, cond)
			} else {
				m[pc] = cond
			}
		}
	}
	for pos := 0; ; pos++ {
		closure(cur, prog.Start, c.tru, pos, map[int]bool{}) // unanchored start at every position
		if pos == n {
			break
		}
		next := map[int]*Term{}
		b := in.sbt(bs[pos])
		for pc := 0; pc < len(prog.Inst); pc++ {
			cond, ok := cur[pc]
			if !ok {
				continue
			}
			i := &prog.Inst[pc]
			t := in.reCond(i, b)
			closure(next, int(i.Out), c.And(cond, t), pos+1, map[int]bool{})
		}
		cur = next
	}
	return norm(matched)
}

// reCond is the condition under which instruction i consumes byte b. Every byte
// from 0x80 on stands for some non-ASCII rune; instructions must not tell those apart.
func (in *Interp) reCond(i *syntax.Inst, b *Term) *Term {
	c := in.tc
	t := c.fls
	switch i.Op {
	case syntax.InstRuneAny:
		return c.tru
	case syntax.InstRuneAnyNotNL:
		return c.Not(c.Eq(b, c.BV('\n', 8)))
	case syntax.InstRune, syntax.InstRune1:
		hi := i.MatchRune(0xFFFD)
		rs := i.Rune
		if len(rs) == 1 {
			if rs[0] >= 0x80 {
				panic(unsupported("regexp with a non-ASCII literal"))
			}
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 && (rs[0]|32 == 'k' || rs[0]|32 == 's') {
				panic(unsupported("regexp case folding"))
			}
		} else {
			for j := 0; j+1 < len(rs); j += 2 {
				if rs[j+1] >= 0x80 && !(rs[j] <= 0x80 && rs[j+1] == 0x10FFFF) {
					panic(unsupported("regexp with a non-ASCII class"))
				}
			}
		}
		for r := 0; r < 0x80; {
			if !i.MatchRune(rune(r)) {
				r++
				continue
			}
			e := r
			for e+1 < 0x80 && i.MatchRune(rune(e+1)) {
				e++
			}
			rng := c.And(c.Not(c.Ult(b, c.BV(uint64(r), 8))), c.Ult(b, c.BV(uint64(e+1), 8)))
			if e == r {
				rng = c.Eq(b, c.BV(uint64(r), 8))
			}
			t = c.Or(t, rng)
			r = e + 1
		}
		if hi {
			t = c.Or(t, c.Not(c.Ult(b, c.BV(0x80, 8))))
		}
	}
	return t
}

// reFind is the leftmost-first match of pat in s (byte offsets of the groups), by
// backtracking with a symbolic branch for every byte class decided.
func (in *Interp) reFind(pat string, s value) []int {
	if str, ok := s.(string); ok {
		return regexp.MustCompile(pat).FindStringSubmatchIndex(str)
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + err.Error()))
	}
	ncap := re.MaxCap()
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported("regexp " + err.Error()))
	}
	bs := strBytes(s)
	n := len(bs)
	caps := make([]int, 2*(ncap+1))
	for i := range caps {
		caps[i] = -1
	}
	visited := map[[2]int]bool{}
	var try func(pc, pos int) bool
	try = func(pc, pos int) bool {
		k := [2]int{pc, pos}
		if visited[k] {
			return false
		}
		visited[k] = true
		i := &prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			return try(int(i.Out), pos) || try(int(i.Arg), pos)
		case syntax.InstCapture:
			old := caps[i.Arg]
			caps[i.Arg] = pos
			if try(int(i.Out), pos) {
				return true
			}
			caps[i.Arg] = old
			return false
		case syntax.InstNop:
			return try(int(i.Out), pos)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(i.Arg)
			if op&(syntax.EmptyBeginLine|syntax.EmptyEndLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				panic(unsupported("regexp empty-width op"))
			}
			if op&syntax.EmptyBeginText != 0 && pos != 0 || op&syntax.EmptyEndText != 0 && pos != n {
				return false
			}
			return try(int(i.Out), pos)
		case syntax.InstMatch:
			caps[1] = pos
			return true
		case syntax.InstFail:
			return false
		}
		if pos == n || !in.truth(norm(in.reCond(i, in.sbt(bs[pos])))) {
			return false
		}
		return try(int(i.Out), pos+1)
	}
	for st := 0; st <= n; st++ {
		caps[0] = st
		if try(prog.Start, st) {
			return caps
		}
	}
	return nil
}

func initRegexpOps(I map[string]func(in *Interp, fr *frame, args []value) value) {
	conc := func(v value) string {
		s, ok := v.(string)
		if !ok {
			panic(unsupported("regexp replacement on symbolic text"))
		}
		return s
	}
	sub := func(s value, i, j int) value {
		if i < 0 {
			return ""
		}
		return mkStr(strBytes(s)[i:j])
	}
	I["(*regexp.Regexp).FindStringSubmatch"] = func(in *Interp, fr *frame, a []value) value {
		m := in.reFind(in.rePattern(a[0]), a[1])
		if m == nil {
			return slicev(nil)
		}
		r := make(slicev, len(m)/2)
		for i := range r {
			r[i] = sub(a[1], m[2*i], m[2*i+1])
		}
		return r
	}
	I["(*regexp.Regexp).FindString"] = func(in *Interp, fr *frame, a []value) value {
		m := in.reFind(in.rePattern(a[0]), a[1])
		if m == nil {
			return ""
		}
		return sub(a[1], m[0], m[1])
	}
	I["(*regexp.Regexp).FindStringIndex"] = func(in *Interp, fr *frame, a []value) value {
		m := in.reFind(in.rePattern(a[0]), a[1])
		if m == nil {
			return slicev(nil)
		}
		return slicev{uint64(int64(m[0])), uint64(int64(m[1]))}
	}
	I["(*regexp.Regexp).ReplaceAllString"] = func(in *Interp, fr *frame, a []value) value {
		return regexp.MustCompile(in.rePattern(a[0])).ReplaceAllString(conc(a[1]), conc(a[2]))
	}
	I["(*regexp.Regexp).FindStringSubmatchIndex"] = func(in *Interp, fr *frame, a []value) value {
		m := in.reFind(in.rePattern(a[0]), a[1])
		if m == nil {
			return slicev(nil)
		}
		r := make(slicev, len(m))
		for i := range m {
			r[i] = uint64(int64(m[i]))
		}
		return r
	}
}
