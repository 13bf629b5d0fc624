package main

// Native replay: the harness is compiled against the real code with the
// ordinary Go compiler (through a build overlay) and run on the assignment.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Replayer struct {
	verif string
	dir   string // scratch
	mu    sync.Mutex
	bins  map[string]*binEntry
	Time  time.Duration
	Runs  int
}

type binEntry struct {
	once sync.Once
	path string
	err  error
}

func newReplayer(verif string) *Replayer {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatalf("scratch: %v", err)
	}
	return &Replayer{verif: verif, dir: d, bins: map[string]*binEntry{}}
}

func (r *Replayer) close() { os.RemoveAll(r.dir) }

const mainTmpl = `package main

import (
	"os"
	"time"

	h %q
	"go.opencensus.io/internal/verifh/sym"
)

func main() {
	sym.Load(os.Args[1])
	go func() { time.Sleep(20 * time.Second); println("REPLAY-TIMEOUT"); os.Exit(3) }()
	h.%s()
	println("REPLAY-DONE")
	if sym.Failed() {
		os.Exit(1)
	}
}
`

// build compiles the replay binary of one harness. noise lists file:line positions
// (module files) that get a randomised delay, to help reproduce schedules.
func (r *Replayer) build(h *HarnessRun, race bool, noise []string) (string, error) {
	key := fmt.Sprintf("%s|%v|%s", h.name(), race, strings.Join(noise, ","))
	r.mu.Lock()
	e := r.bins[key]
	if e == nil {
		e = &binEntry{}
		r.bins[key] = e
	}
	n := len(r.bins)
	r.mu.Unlock()
	e.once.Do(func() { e.path, e.err = r.doBuild(h, race, noise, n) })
	return e.path, e.err
}

func (r *Replayer) doBuild(h *HarnessRun, race bool, noise []string, n int) (string, error) {
	d := filepath.Join(r.dir, fmt.Sprintf("b%d", n))
	os.MkdirAll(d, 0755)
	ov, err := overlayFiles(r.verif, []string{h.Pkg})
	if err != nil {
		return "", err
	}
	rep := map[string]string{}
	for dst, src := range ov {
		rep[dst] = src
	}
	mf := filepath.Join(d, "main.go")
	if err := os.WriteFile(mf, []byte(fmt.Sprintf(mainTmpl, modPath+"/"+hroot+"/"+h.Pkg, h.Fn)), 0644); err != nil {
		return "", err
	}
	mdir := filepath.Join(repoDir, hroot, "zzmain")
	rep[filepath.Join(mdir, "main.go")] = mf
	if err := rewriteModule(d, rep, noise); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(d, "overlay.json")
	if err := os.WriteFile(of, b, 0644); err != nil {
		return "", err
	}
	out := filepath.Join(d, "replay")
	args := []string{"build", "-overlay", of, "-o", out}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, modPath+"/"+hroot+"/zzmain")
	cmd := exec.Command("/opt/veriftools/go1.27.3/bin/go", args...)
	cmd.Dir = repoDir
	cmd.Env = env
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, trunc(string(o), 2000))
	}
	return out, nil
}

// envFuncs are the environment reads the native build redirects to the harness.
var envFuncs = map[string]struct {
	sels map[string]string
	keep string
}{
	"time":        {map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "NewTicker": "NewTicker"}, "Now"},
	"runtime":     {map[string]string{"ReadMemStats": "ReadMemStats", "NumGoroutine": "NumGoroutine", "NumCgoCall": "NumCgoCall"}, "NumCPU"},
	"crypto/rand": {map[string]string{"Reader": "RandReader", "Read": "RandRead"}, "Read"},
}

type edit struct {
	off, end int
	text     string
}

// rewriteModule redirects environment reads to the harness and, at the given
// positions (module files), inserts a random delay before the statement.
func rewriteModule(d string, rep map[string]string, noise []string) error {
	byFile := map[string]map[int]bool{}
	for _, p := range noise {
		i := strings.LastIndex(p, ":")
		if i < 0 {
			continue
		}
		ln, err := strconv.Atoi(p[i+1:])
		if err != nil || strings.HasPrefix(p, "/") {
			continue
		}
		f := filepath.Join(repoDir, p[:i])
		if byFile[f] == nil {
			byFile[f] = map[int]bool{}
		}
		byFile[f][ln] = true
	}
	var files []string
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "examples" || n == "testdata" || n == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	overlaid := map[string]bool{}
	for f := range byFile {
		if _, ok := rep[f]; ok {
			files = append(files, f)
			overlaid[f] = true
		}
	}
	k := 0
	for _, f := range files {
		rf := f
		if overlaid[f] {
			rf = rep[f]
		}
		src, err := os.ReadFile(rf)
		if err != nil {
			continue
		}
		lines := byFile[f]
		if lines == nil && !bytes.Contains(src, []byte("Now")) && !bytes.Contains(src, []byte("Since")) && !bytes.Contains(src, []byte("NewTicker")) && !bytes.Contains(src, []byte("runtime")) && !bytes.Contains(src, []byte("crypto/rand")) {
			continue
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			continue
		}
		var eds []edit
		usesSym, usesNoise := false, false
		tail := ""
		for _, im := range af.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			ef, ok := envFuncs[path]
			if !ok || overlaid[f] {
				continue
			}
			name := filepath.Base(path)
			if im.Name != nil {
				name = im.Name.Name
			}
			hit := false
			ast.Inspect(af, func(n ast.Node) bool {
				se, ok := n.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				id, ok := se.X.(*ast.Ident)
				if !ok || id.Name != name || id.Obj != nil {
					return true
				}
				if to, ok := ef.sels[se.Sel.Name]; ok {
					eds = append(eds, edit{fs.Position(se.Pos()).Offset, fs.Position(se.End()).Offset, "verifsym." + to})
					hit = true
				}
				return true
			})
			if hit {
				usesSym = true
				tail += "\nvar _ = " + name + "." + ef.keep + "\n"
			}
		}
		if lines != nil {
			mark := func(list []ast.Stmt) {
				for _, s := range list {
					a, b := fs.Position(s.Pos()), fs.Position(s.End())
					switch s.(type) {
					case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					simple := false
					switch s.(type) {
					case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
					default:
						simple = true
					}
					for ln := range lines {
						if a.Line == ln || (simple && a.Line <= ln && ln <= b.Line) {
							if _, ok := s.(*ast.GoStmt); ok {
								eds = append(eds, edit{b.Offset, b.Offset, "; verifnoise.Noise()"})
							} else {
								eds = append(eds, edit{a.Offset, a.Offset, "verifnoise.Noise(); "})
							}
							usesNoise = true
							break
						}
					}
				}
			}
			atomicName := ""
			for _, im := range af.Imports {
				if im.Path.Value == "\"sync/atomic\"" {
					atomicName = "atomic"
					if im.Name != nil {
						atomicName = im.Name.Name
					}
				}
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					// a delay between an atomic operation and the use of its result in one expression
					a := fs.Position(x.Pos())
					if t := atomicResult(x, atomicName); t != "" && lines[a.Line] {
						b := fs.Position(x.End())
						eds = append(eds, edit{a.Offset, a.Offset, "func() " + t + " { verifv := "})
						eds = append(eds, edit{b.Offset, b.Offset, "; verifnoise.Noise(); return verifv }()"})
						usesNoise = true
					}
				case *ast.BlockStmt:
					mark(x.List)
				case *ast.CaseClause:
					mark(x.Body)
				case *ast.CommClause:
					mark(x.Body)
				}
				return true
			})
		}
		if len(eds) == 0 {
			continue
		}
		imp := ""
		if usesSym {
			imp += "; import verifsym \"go.opencensus.io/internal/verifh/sym\""
		}
		if usesNoise {
			imp += "; import verifnoise \"go.opencensus.io/internal/verifh/noise\""
		}
		p := fs.Position(af.Name.End()).Offset
		eds = append(eds, edit{p, p, imp})
		sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
		var out []byte
		pos := 0
		for _, e := range eds {
			if e.off < pos {
				continue
			}
			out = append(out, src[pos:e.off]...)
			out = append(out, e.text...)
			pos = e.end
		}
		out = append(out, src[pos:]...)
		out = append(out, tail...)
		k++
		nf := filepath.Join(d, fmt.Sprintf("n%d.go", k))
		if err := os.WriteFile(nf, out, 0644); err != nil {
			return err
		}
		rep[f] = nf
	}
	nf := filepath.Join(d, "noise.go")
	os.WriteFile(nf, []byte("package noise\n\nimport (\n\t\"math/rand\"\n\t\"runtime\"\n\t\"time\"\n)\n\nfunc Noise() {\n\tswitch rand.Intn(4) {\n\tcase 0:\n\tcase 1:\n\t\truntime.Gosched()\n\tcase 2:\n\t\ttime.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)\n\tdefault:\n\t\ttime.Sleep(time.Duration(rand.Intn(4)) * time.Millisecond)\n\t}\n}\n"), 0644)
	rep[filepath.Join(repoDir, hroot, "noise", "noise.go")] = nf
	return nil
}

// atomicResult is the result type of a call of sync/atomic (or of a Load of an
// atomic value whose dynamic type is asserted), "" when it is not one.
func atomicResult(x *ast.CallExpr, pkg string) string {
	se, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := se.X.(*ast.Ident)
	if !ok || pkg == "" || id.Name != pkg || id.Obj != nil {
		return ""
	}
	n := se.Sel.Name
	if strings.HasPrefix(n, "CompareAndSwap") {
		return "bool"
	}
	for _, p := range []string{"Load", "Add", "Swap"} {
		switch strings.TrimPrefix(n, p) {
		case "Int32", "Int64", "Uint32", "Uint64", "Uintptr":
			if strings.HasPrefix(n, p) {
				return strings.ToLower(strings.TrimPrefix(n, p))
			}
		}
	}
	return ""
}

type runResult struct {
	obs     []string
	asserts []string
	assume  bool
	panicd  string
	race    bool
	dead    bool
	done    bool
	timeout bool
	raw     string
}

var panicRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*)$`)

type assignFile struct {
	Inputs []Assign       `json:"inputs"`
	Params map[string]int `json:"params"`
}

func (r *Replayer) writeAssign(path string, h *HarnessRun, in []Assign) error {
	p := h.Params
	if p == nil {
		p = map[string]int{}
	}
	if in == nil {
		in = []Assign{}
	}
	b, _ := json.Marshal(assignFile{in, p})
	return os.WriteFile(path, b, 0644)
}

func (r *Replayer) run(bin string, h *HarnessRun, in []Assign) runResult {
	r.mu.Lock()
	r.Runs++
	n := r.Runs
	r.mu.Unlock()
	f := filepath.Join(r.dir, fmt.Sprintf("a%d.json", n))
	if err := r.writeAssign(f, h, in); err != nil {
		return runResult{raw: err.Error()}
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f)
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Run()
	var res runResult
	res.timeout = ctx.Err() != nil || strings.Contains(se.String(), "REPLAY-TIMEOUT")
	for _, l := range strings.Split(so.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			res.obs = append(res.obs, l[4:])
		case strings.HasPrefix(l, "ASSERT-FAILED "):
			res.asserts = append(res.asserts, l[14:])
		case l == "ASSUME-FAILED":
			res.assume = true
		}
	}
	e := se.String()
	res.done = strings.Contains(e, "REPLAY-DONE")
	res.race = strings.Contains(e, "WARNING: DATA RACE")
	if !res.done && !res.assume {
		if m := panicRe.FindString(e); m != "" {
			res.panicd = m
		}
	}
	res.dead = strings.Contains(e, "all goroutines are asleep") || res.timeout
	res.raw = trunc(so.String(), 2000) + "\n--stderr--\n" + trunc(e, 3000)
	return res
}

// reproduced reports whether res shows violation v.
func (res *runResult) reproduced(v *Violation) bool {
	switch v.Kind {
	case "assert":
		for _, a := range res.asserts {
			if a == v.Label {
				return true
			}
		}
		return false
	case "panic":
		return res.panicd != ""
	case "race":
		return res.race
	case "deadlock":
		return res.dead
	}
	return false
}

var posRe = regexp.MustCompile(`([A-Za-z0-9_./-]+\.go):(\d+)`)

func schedPositions(v *Violation) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		for _, m := range posRe.FindAllString(s, -1) {
			if seen[m] || strings.HasPrefix(m, "/") {
				continue
			}
			if strings.HasPrefix(m, hroot) {
				seen[m] = true
				out = append(out, m)
				continue
			}
			if _, err := os.Stat(filepath.Join(repoDir, m[:strings.LastIndex(m, ":")])); err != nil {
				continue
			}
			seen[m] = true
			out = append(out, m)
		}
	}
	for _, s := range v.Sched {
		add(s)
	}
	add(v.Msg)
	add(v.Where)
	sort.Strings(out)
	return out
}

// confirm replays a violation against the real code.
func (r *Replayer) confirm(h *HarnessRun, v *Violation, budget time.Duration) (bool, runResult, int) {
	t0 := time.Now()
	defer func() { r.mu.Lock(); r.Time += time.Since(t0); r.mu.Unlock() }()
	race := v.Kind == "race"
	bin, err := r.build(h, race, nil)
	if err != nil {
		return false, runResult{raw: err.Error()}, 0
	}
	res := r.run(bin, h, v.Inputs)
	if res.reproduced(v) {
		return true, res, 1
	}
	if !v.Env {
		return false, res, 1
	}
	// schedule or iteration order dependent: many runs, with delays at the preemption points
	bins := []string{bin}
	if pos := schedPositions(v); len(pos) > 0 {
		if nb, err := r.build(h, race, pos); err == nil {
			bins = append(bins, nb, nb)
		} else {
			fmt.Println("note: noise build failed:", trunc(err.Error(), 300))
		}
	}
	var mu sync.Mutex
	found := false
	var fres runResult
	tries := 1
	deadline := time.Now().Add(budget)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < 400 && time.Now().Before(deadline); i++ {
				mu.Lock()
				if found {
					mu.Unlock()
					return
				}
				tries++
				mu.Unlock()
				x := r.run(bins[(i+k)%len(bins)], h, v.Inputs)
				if x.reproduced(v) {
					mu.Lock()
					found, fres = true, x
					mu.Unlock()
					return
				}
			}
		}(k)
	}
	wg.Wait()
	if found {
		return true, fres, tries
	}
	return false, res, tries
}

// validate replays path witnesses and compares the observations.
func (r *Replayer) validate(h *HarnessRun, ws []Witness) (ok, bad int, samples []string, vio []*Violation) {
	t0 := time.Now()
	defer func() { r.mu.Lock(); r.Time += time.Since(t0); r.mu.Unlock() }()
	if len(ws) == 0 {
		return
	}
	bin, err := r.build(h, false, nil)
	if err != nil {
		samples = append(samples, err.Error())
		return 0, len(ws), samples, nil
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range ws {
		wg.Add(1)
		go func(w Witness) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			res := r.run(bin, h, w.Inputs)
			good := res.done && len(res.asserts) == 0 && strings.Join(res.obs, "\n") == strings.Join(w.Obs, "\n")
			mu.Lock()
			defer mu.Unlock()
			if good {
				ok++
				return
			}
			bad++
			if len(samples) < 3 {
				b, _ := json.Marshal(w.Inputs)
				samples = append(samples, fmt.Sprintf("inputs=%s\nexpected:\n%s\ngot:\n%s\n%s", trunc(string(b), 600), trunc(strings.Join(w.Obs, "\n"), 600), trunc(strings.Join(res.obs, "\n"), 600), trunc(res.raw, 1200)))
			}
			for _, a := range res.asserts {
				vio = append(vio, &Violation{Label: a, Kind: "assert", Msg: "assertion fails natively on a path witness", Inputs: w.Inputs})
			}
			if res.panicd != "" {
				vio = append(vio, &Violation{Label: "panic", Kind: "panic", Msg: res.panicd + " (natively, on a path witness)", Inputs: w.Inputs})
			}
		}(ws[i])
	}
	wg.Wait()
	return
}
