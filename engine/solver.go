package main

// A persistent SMT solver process driven over SMT-LIB with an assertion stack.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Restarts, OneShot int
	Time                                            time.Duration
	MaxQuery                                        time.Duration
	Errors                                          []string
}

type Solver struct {
	kind      string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inRaw     io.WriteCloser
	out       *bufio.Reader
	defined   map[int32]bool
	stack     []*Term // asserted (one push level each)
	timeoutMs int
	Stats     SolverStats
	log       io.Writer
	fp        bool
}

func newSolver(kind string, timeoutMs int) *Solver {
	s := &Solver{kind: kind, timeoutMs: timeoutMs}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	bin := s.kind
	switch s.kind {
	case "cvc5":
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeoutMs)}
	default:
		args = []string{"-in"}
	}
	s.cmd = exec.Command(bin, args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver %s: %v", s.kind, err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.fp = false
	s.send("(set-option :global-declarations true)\n")
	if s.kind != "cvc5" {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMs))
	}
	s.send("(set-option :produce-models true)\n(set-logic ALL)\n")
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.Stats.Restarts++
	s.start()
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 {
			a := f.t.a[f.i]
			f.i++
			if a != nil && a.op != OConst && !s.defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.defined[f.t.id] = true
		if f.t.op == OVar {
			s.send(fmt.Sprintf("(declare-fun |%s| () %s)\n", f.t.name, f.t.sort.smt()))
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", f.t.id, f.t.sort.smt(), f.t.body()))
		}
		if s.kind != "cvc5" && !s.fp && (f.t.sort.k == KF64 || f.t.sort.k == KF32) && f.t.op != OVar {
			// incremental floating-point reasoning is weak: give up early, oneShot takes over
			s.fp = true
			s.send("(set-option :timeout 2000)\n")
		}
		st = st[:len(st)-1]
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

// check decides pc ∧ extra. When sat and vars != nil a model is returned.
func (s *Solver) check(pc []*Term, extra *Term, wantModel bool, vars []*Term) (SatRes, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxQuery {
			s.Stats.MaxQuery = d
		}
	}()
	s.Stats.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	r := s.readLine()
	res := Unknown
	switch r {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		var m Model
		res, m = s.oneShot(pc, extra, wantModel, vars)
		if extra != nil {
			s.send("(pop 1)\n")
		}
		switch res {
		case Sat:
			s.Stats.Sat++
		case Unsat:
			s.Stats.Unsat++
		default:
			s.Stats.Unknown++
		}
		return res, m
	default:
		s.Stats.Errors = append(s.Stats.Errors, r)
		s.Stats.Unknown++
		s.restart()
		return Unknown, nil
	}
	var m Model
	if res == Sat && wantModel {
		var dv []*Term
		for _, v := range vars {
			if s.defined[v.id] {
				dv = append(dv, v)
			}
		}
		m = Model{}
		if len(dv) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range dv {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			sx, err := s.readSexp()
			if err != nil || !parseModel(sx, dv, m) {
				s.Stats.Errors = append(s.Stats.Errors, fmt.Sprint("model: ", err, trunc(fmt.Sprint(sx), 200)))
				s.restart()
				s.Stats.Unknown++
				return Unknown, nil
			}
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res, m
}

// oneShot decides the query without incrementality: fresh processes of two
// solvers race with their full preprocessing on a self-contained script.
func (s *Solver) oneShot(pc []*Term, extra *Term, wantModel bool, vars []*Term) (SatRes, Model) {
	s.Stats.OneShot++
	roots := append([]*Term(nil), pc...)
	if extra != nil {
		roots = append(roots, extra)
	}
	var sb strings.Builder
	seen := map[*Term]bool{}
	fp := false
	used := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.a {
			visit(a)
			if a != nil && (a.sort.k == KF64 || a.sort.k == KF32) {
				fp = true
			}
		}
		if t.sort.k == KF64 || t.sort.k == KF32 {
			fp = true
		}
		if t.op == OVar {
			used[t] = true
			fmt.Fprintf(&sb, "(declare-fun |%s| () %s)\n", t.name, t.sort.smt())
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.body())
		}
	}
	for _, r := range roots {
		visit(r)
	}
	for _, r := range roots {
		sb.WriteString("(assert " + r.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	var dv []*Term
	for _, v := range vars {
		if used[v] {
			dv = append(dv, v)
		}
	}
	if wantModel && len(dv) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range dv {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	logic := "QF_BV"
	if fp {
		logic = "QF_BVFP"
	}
	script := "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + sb.String()
	secs := 3 * s.timeoutMs / 1000
	type ans struct {
		res SatRes
		m   Model
	}
	ch := make(chan ans, 2)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	run := func(bin string, args ...string) {
		c := exec.CommandContext(ctx, bin, args...)
		c.Stdin = strings.NewReader(script)
		go func() {
			out, _ := c.Output()
			s2 := string(out)
			l, rest, _ := strings.Cut(s2, "\n")
			switch strings.TrimSpace(l) {
			case "unsat":
				ch <- ans{Unsat, nil}
				return
			case "sat":
				m := Model{}
				if wantModel && len(dv) > 0 {
					sx, err := (&Solver{in: bufio.NewWriter(io.Discard), out: bufio.NewReader(strings.NewReader(rest))}).readSexp()
					if err != nil || !parseModel(sx, dv, m) {
						ch <- ans{Unknown, nil}
						return
					}
				}
				ch <- ans{Sat, m}
				return
			}
			ch <- ans{Unknown, nil}
		}()
	}
	run("z3", "-in", fmt.Sprintf("-T:%d", secs))
	run("cvc5", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000))
	r := ans{}
	r.res = Unknown
	for i := 0; i < 2; i++ {
		if a := <-ch; a.res != Unknown {
			r = a
			break
		}
	}
	return r.res, r.m
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (s *Solver) readLine() string {
	s.in.Flush()
	done := make(chan struct{})
	tm := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3+20*time.Second, func() { s.cmd.Process.Kill() })
	defer tm.Stop()
	defer close(done)
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "solver died: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

// readSexp reads one balanced s-expression as nested []interface{} / string.
func (s *Solver) readSexp() (interface{}, error) {
	s.in.Flush()
	var stack [][]interface{}
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		switch {
		case b == '(':
			stack = append(stack, nil)
		case b == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced")
			}
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if len(stack) == 0 {
				return top, nil
			}
			stack[len(stack)-1] = append(stack[len(stack)-1], top)
		case b == '|':
			x, err := s.out.ReadString('|')
			if err != nil {
				return nil, err
			}
			x = strings.TrimSuffix(x, "|")
			if len(stack) == 0 {
				return x, nil
			}
			stack[len(stack)-1] = append(stack[len(stack)-1], x)
		case b == ' ' || b == '\n' || b == '\t' || b == '\r':
		default:
			var sb strings.Builder
			sb.WriteByte(b)
			for {
				b, err := s.out.ReadByte()
				if err != nil {
					return nil, err
				}
				if b == ' ' || b == '\n' || b == '(' || b == ')' {
					s.out.UnreadByte()
					break
				}
				sb.WriteByte(b)
			}
			if len(stack) == 0 {
				return sb.String(), nil
			}
			stack[len(stack)-1] = append(stack[len(stack)-1], sb.String())
		}
	}
}

func parseModel(sx interface{}, vars []*Term, m Model) bool {
	l, ok := sx.([]interface{})
	if !ok {
		return false
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	for _, p := range l {
		pl, ok := p.([]interface{})
		if !ok || len(pl) != 2 {
			return false
		}
		n, ok := pl[0].(string)
		if !ok {
			return false
		}
		v := byName[n]
		if v == nil {
			return false
		}
		x, ok := parseVal(pl[1], v.sort)
		if !ok {
			return false
		}
		m[v] = x
	}
	return true
}

func parseBits(s string) (uint64, int, bool) {
	if strings.HasPrefix(s, "#x") {
		u, err := strconv.ParseUint(s[2:], 16, 64)
		return u, 4 * (len(s) - 2), err == nil
	}
	if strings.HasPrefix(s, "#b") {
		u, err := strconv.ParseUint(s[2:], 2, 64)
		return u, len(s) - 2, err == nil
	}
	return 0, 0, false
}

func parseVal(x interface{}, s Sort) (uint64, bool) {
	switch s.k {
	case KBool:
		return b2u(x == "true"), x == "true" || x == "false"
	case KBV:
		if str, ok := x.(string); ok {
			u, _, ok := parseBits(str)
			return u, ok
		}
		if l, ok := x.([]interface{}); ok && len(l) == 3 { // (_ bvN w)
			if str, ok := l[1].(string); ok && strings.HasPrefix(str, "bv") {
				u, err := strconv.ParseUint(str[2:], 10, 64)
				return u, err == nil
			}
		}
		return 0, false
	default:
		l, ok := x.([]interface{})
		if !ok || len(l) < 2 {
			return 0, false
		}
		if l[0] == "fp" && len(l) == 4 {
			var v uint64
			for _, p := range l[1:] {
				str, _ := p.(string)
				u, w, ok := parseBits(str)
				if !ok {
					return 0, false
				}
				v = v<<uint(w) | u
			}
			return v, true
		}
		if l[0] == "_" {
			eb, mb := uint(11), uint(52)
			if s.k == KF32 {
				eb, mb = 8, 23
			}
			expAll := (uint64(1)<<eb - 1) << mb
			switch l[1] {
			case "NaN":
				return expAll | 1<<(mb-1), true
			case "+oo":
				return expAll, true
			case "-oo":
				return expAll | 1<<(eb+mb), true
			case "+zero":
				return 0, true
			case "-zero":
				return 1 << (eb + mb), true
			}
		}
		return 0, false
	}
}
