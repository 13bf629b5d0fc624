package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

type HarnessCfg struct {
	Pkg      string         `json:"pkg"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Thorough map[string]int `json:"thorough"`
	Time     int            `json:"time"`
	TTime    int            `json:"ttime"`
	Bounds   string         `json:"bounds"`
	Covers   []string       `json:"covers"`
	Only     string         `json:"only"` // "thorough": only in that tier
}

type CheckCfg struct {
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
}

type Known struct {
	Property string `json:"property"`
	Label    string `json:"label"`
	Harness  string `json:"harness"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit"`
}

func verifDir() string {
	if d := os.Getenv("GOSYM_VERIF"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(e))
	}
	return "/verif"
}

func loadKnown(verif string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' { // "fixed:" lines are a record only
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatalf("known_findings.txt: %v", err)
		}
		ks = append(ks, k)
	}
	return ks
}

type harnessResult struct {
	h         *HarnessRun
	cfg       HarnessCfg
	e         *Explorer
	secs      float64
	stats     SolverStats
	encoded   map[string]int64
	notes     map[string]int
	valOK     int
	valBad    int
	valSample []string
	missing   []string
}

func exploreHarness(w *World, h *HarnessRun, workers []*Interp) *harnessResult {
	t0 := time.Now()
	e := newExplorer(w, h)
	e.pool = []task{{}}
	e.maxPaths = h.param("maxpaths", 0)
	e.deadline = time.Now().Add(time.Duration(h.Time) * time.Second)
	res := &harnessResult{h: h, e: e, encoded: map[string]int64{}, notes: map[string]int{}}
	var wg sync.WaitGroup
	for i := range workers {
		workers[i].encoded = map[*ssa.Function]int64{}
		workers[i].solver.Stats = SolverStats{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			workers[i].work(e, func() *Interp {
				n := newInterp(w)
				n.encoded = workers[i].encoded
				n.solver.Stats = workers[i].solver.Stats
				workers[i].solver.close()
				workers[i] = n
				return n
			})
		}(i)
	}
	wg.Wait()
	for _, in := range workers {
		s := in.solver.Stats
		res.stats.Queries += s.Queries
		res.stats.Sat += s.Sat
		res.stats.Unsat += s.Unsat
		res.stats.Unknown += s.Unknown
		res.stats.Restarts += s.Restarts
		res.stats.OneShot += s.OneShot
		res.stats.Time += s.Time
		if s.MaxQuery > res.stats.MaxQuery {
			res.stats.MaxQuery = s.MaxQuery
		}
		res.stats.Errors = append(res.stats.Errors, s.Errors...)
		for f, n := range in.encoded {
			if w.inModule(f) {
				res.encoded[f.String()] += n
			}
		}
		for k, n := range in.poisonNotes {
			res.notes[k] += n
		}
	}
	res.secs = time.Since(t0).Seconds()
	return res
}

func setup(w *World, c HarnessCfg, tier string) (*HarnessRun, error) {
	h := &HarnessRun{Pkg: c.Pkg, Fn: c.Fn, Params: map[string]int{}, Time: c.Time}
	for k, v := range c.Params {
		h.Params[k] = v
	}
	if h.Time == 0 {
		h.Time = 60
	}
	if tier == "thorough" {
		for k, v := range c.Thorough {
			h.Params[k] = v
		}
		if c.TTime != 0 {
			h.Time = c.TTime
		} else {
			h.Time *= 3
		}
	}
	if w != nil {
		p := w.pkgs[modPath+"/"+hroot+"/"+c.Pkg]
		if p == nil {
			return nil, fmt.Errorf("package %s not loaded", c.Pkg)
		}
		h.fn = p.Func(c.Fn)
		if h.fn == nil {
			return nil, fmt.Errorf("no function %s in %s", c.Fn, c.Pkg)
		}
	}
	return h, nil
}

func nworkers() int {
	if s := os.Getenv("GOSYM_WORKERS"); s != "" {
		n, _ := strconv.Atoi(s)
		if n > 0 {
			return n
		}
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: gosym check ID [quick|thorough] | run PKG.FN [k=v…] | replay FILE")
	}
	if r := os.Getenv("GOSYM_REPO"); r != "" {
		repoDir = r
	}
	if pf := os.Getenv("GOSYM_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "run":
		rc := runDebug(os.Args[2], os.Args[3:])
		pprof.StopCPUProfile()
		os.Exit(rc)
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	}
	fatalf("unknown command %s", os.Args[1])
}

func loadChecks(verif string) map[string]CheckCfg {
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		fatalf("%v", err)
	}
	m := map[string]CheckCfg{}
	if err := json.Unmarshal(b, &m); err != nil {
		fatalf("checks.json: %v", err)
	}
	return m
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Label    string   `json:"label"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Where    string   `json:"where"`
	Sched    []string `json:"sched,omitempty"`
	Choices  []string `json:"choices,omitempty"`
	Env      bool     `json:"env"`
	assignFile
	Native string `json:"native_output"`
}

func runReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatalf("%v", err)
	}
	i := strings.LastIndex(f.Harness, ".")
	h := &HarnessRun{Pkg: f.Harness[:i], Fn: f.Harness[i+1:], Params: f.Params}
	r := newReplayer(verifDir())
	defer r.close()
	v := &Violation{Label: f.Label, Kind: f.Kind, Inputs: f.Inputs, Sched: f.Sched, Env: f.Env, Msg: f.Msg, Where: f.Where}
	ok, res, n := r.confirm(h, v, 120*time.Second)
	fmt.Println(res.raw)
	fmt.Printf("reproduced=%v after %d run(s)\n", ok, n)
	if ok {
		return 1
	}
	return 0
}

func runDebug(name string, kv []string) int {
	i := strings.LastIndex(name, ".")
	c := HarnessCfg{Pkg: name[:i], Fn: name[i+1:], Params: map[string]int{}, Time: 60}
	noval := false
	for _, s := range kv {
		p := strings.SplitN(s, "=", 2)
		if len(p) != 2 {
			continue
		}
		n, _ := strconv.Atoi(p[1])
		switch p[0] {
		case "time":
			c.Time = n
		case "noval":
			noval = true
		default:
			c.Params[p[0]] = n
		}
	}
	verif := verifDir()
	w, err := loadWorld(verif, []string{c.Pkg})
	if err != nil {
		fatalf("load: %v", err)
	}
	fmt.Printf("load %.1fs\n", w.loadTime.Seconds())
	h, err := setup(w, c, "quick")
	if err != nil {
		fatalf("%v", err)
	}
	var workers []*Interp
	for k := 0; k < nworkers(); k++ {
		workers = append(workers, newInterp(w))
	}
	res := exploreHarness(w, h, workers)
	printResult(res)
	for k, v := range res.e.Violations {
		if !strings.HasSuffix(k, "#0") {
			continue
		}
		b, _ := json.Marshal(v.Inputs)
		if len(b) > 600 && os.Getenv("GOSYM_DEBUG") == "" {
			b = append(b[:600:600], '.', '.')
		}
		fmt.Printf("VIO %s kind=%s %s\n   at %s\n   inputs %s\n   choices %v\n   sched %v\n", k, v.Kind, v.Msg, v.Where, b, v.Choices, v.Sched)
	}
	if noval {
		return 0
	}
	r := newReplayer(verif)
	defer r.close()
	ok, bad, s, _ := r.validate(h, res.e.Witnesses)
	fmt.Printf("witnesses ok=%d bad=%d\n", ok, bad)
	for _, x := range s {
		fmt.Println(x)
	}
	for k, v := range res.e.Violations {
		if !strings.HasSuffix(k, "#0") {
			continue
		}
		rep, rr, n := r.confirm(h, v, 30*time.Second)
		fmt.Printf("replay %s: reproduced=%v runs=%d\n", k, rep, n)
		if !rep {
			fmt.Println(rr.raw)
		}
	}
	return 0
}

func printResult(res *harnessResult) {
	e := res.e
	fmt.Printf("%s: %.1fs paths=%d infeasible=%d unsupported=%d limited=%d branches=%d asserts discharged=%d unknown=%d queries=%d (unknown %d, restarts %d, %.1fs solver, max %.2fs) stop=%q left=%d\n",
		res.h.name(), res.secs, e.Paths, e.Infeasible, e.Unsupported, e.Limited, e.Branches, e.Discharged, e.AssertUnknown,
		res.stats.Queries, res.stats.Unknown, res.stats.Restarts, res.stats.Time.Seconds(), res.stats.MaxQuery.Seconds(), e.stopWhy, e.leftover)
	for k, n := range e.Unsup {
		fmt.Printf("  unsup %dx %s\n", n, k)
	}
	for i, k := range res.stats.Errors {
		if i < 3 {
			fmt.Println("  solver error:", trunc(k, 300))
		}
	}
	fmt.Printf("  covers %v\n", e.Covers)
	for k, n := range e.VioCount {
		fmt.Printf("  violations %s: %d\n", k, n)
	}
	if os.Getenv("GOSYM_NOTES") != "" {
		for k, n := range res.notes {
			fmt.Printf("  note %dx %s\n", n, k)
		}
		fmt.Printf("  encoded %d functions\n", len(res.encoded))
	}
}

func runCheck(id, tier string) int {
	t0 := time.Now()
	verif := verifDir()
	cfgs := loadChecks(verif)
	cc, ok := cfgs[id]
	if !ok {
		fatalf("no check %s", id)
	}
	known := loadKnown(verif)
	pk := map[string]bool{}
	for _, h := range cc.Harnesses {
		pk[h.Pkg] = true
	}
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	rep := newReplayer(verif)
	defer rep.close()
	var w *World
	var lerr error
	var bwg sync.WaitGroup
	bwg.Add(1)
	go func() {
		defer bwg.Done()
		for _, c := range cc.Harnesses {
			if c.Only == "thorough" && tier != "thorough" {
				continue
			}
			h, _ := setup(nil, c, tier)
			rep.build(h, false, nil)
		}
	}()
	w, lerr = loadWorld(verif, pkgs)
	if lerr != nil {
		fmt.Fprintf(os.Stderr, "%v\n", lerr)
		fatalf("the tree does not load")
	}
	overall := 800 * time.Second
	var results []*harnessResult
	violated := false
	nvio := 0
	explored := false
	var unconfirmed []string
	knownSeen := map[string]bool{}
	rdir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(rdir, 0755)
	for _, c := range cc.Harnesses {
		if c.Only == "thorough" && tier != "thorough" {
			continue
		}
		h, err := setup(w, c, tier)
		if err != nil {
			fatalf("%v", err)
		}
		left := overall - time.Since(t0)
		if left < 20*time.Second {
			fmt.Printf("note: no time left for %s\n", h.name())
			continue
		}
		if time.Duration(h.Time)*time.Second > left-15*time.Second {
			h.Time = int(left.Seconds()) - 15
		}
		var workers []*Interp
		for k := 0; k < nworkers(); k++ {
			workers = append(workers, newInterp(w))
		}
		res := exploreHarness(w, h, workers)
		for _, in := range workers {
			in.solver.close()
		}
		res.cfg = c
		printResult(res)
		results = append(results, res)
		e := res.e
		if e.Paths-e.Infeasible-e.Unsupported-e.Limited > 0 {
			explored = true
		}
		for _, cv := range c.Covers {
			if e.Covers[cv] == 0 {
				res.missing = append(res.missing, cv)
			}
		}
		var vs []string
		for k := range e.Violations {
			vs = append(vs, k)
		}
		sort.Strings(vs)
		bwg.Wait()
		var wvio []*Violation
		res.valOK, res.valBad, res.valSample, wvio = rep.validate(h, e.Witnesses)
		if res.valBad > 0 {
			fmt.Printf("  witnesses: %d agree, %d disagree\n%s\n", res.valOK, res.valBad, strings.Join(res.valSample, "\n"))
		}
		done := map[string]bool{}
		tryOne := func(v *Violation) {
			if done[v.Label] {
				return
			}
			var kn *Known
			for i := range known {
				k := &known[i]
				if k.Status == "known" && k.Property == id && k.Label == v.Label && (k.Harness == "" || k.Harness == h.name()) {
					kn = k
				}
			}
			if kn != nil && knownSeen[kn.Label] {
				done[v.Label] = true
				return
			}
			okr, rr, n := rep.confirm(h, v, 40*time.Second)
			if !okr {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%s (%s): not reproduced natively in %d run(s): %s", h.name(), v.Label, v.Kind, n, v.Msg))
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Println(rr.raw)
				}
				return
			}
			done[v.Label] = true
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%s.json", id, h.Fn, sanitize(v.Label)))
			f := replayFile{Property: id, Harness: h.name(), Label: v.Label, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Sched: v.Sched, Choices: v.Choices, Env: v.Env, Native: rr.raw}
			f.Inputs, f.Params = v.Inputs, h.Params
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, b, 0644)
			if kn != nil {
				knownSeen[kn.Label] = true
				return
			}
			violated = true
			nvio++
			fmt.Printf("  %s: %s [%s] %s\n    at %s\n    reproduced natively after %d run(s)\n", h.name(), v.Label, v.Kind, v.Msg, v.Where, n)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		for _, k := range vs {
			if time.Since(t0) > 840*time.Second {
				break
			}
			tryOne(e.Violations[k])
		}
		for _, v := range wvio {
			tryOne(v)
		}
		if violated && tier == "quick" {
			break
		}
	}
	bwg.Wait()
	for _, k := range known {
		if k.Status == "known" && k.Property == id {
			if knownSeen[k.Label] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			} else if !violated {
				fmt.Printf("note: known finding %q did not show in this run\n", k.Label)
			}
		}
	}
	for _, u := range unconfirmed {
		fmt.Println("note: unconfirmed counterexample (not reported):", u)
	}
	writeEvidence(verif, id, tier, cc, w, results, rep, t0, nvio, unconfirmed, knownSeen)
	fmt.Printf("%s %s: %.1fs, %d violation(s)\n", id, tier, time.Since(t0).Seconds(), nvio)
	if violated {
		return 1
	}
	if !explored {
		fmt.Println("nothing was explored")
		return 2
	}
	return 0
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func writeEvidence(verif, id, tier string, cc CheckCfg, w *World, results []*harnessResult, rep *Replayer, t0 time.Time, nvio int, unconfirmed []string, knownSeen map[string]bool) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{}
	var states, trans int64
	var valid, bad, queries, sat, unsat, unk, paths, disch, aunk int
	var st float64
	fns := map[string]int64{}
	samples := []string{}
	var per []map[string]interface{}
	exhaustive := true
	for _, r := range results {
		e := r.e
		states += e.States
		trans += e.Branches
		valid += r.valOK
		bad += r.valBad
		queries += r.stats.Queries
		sat += r.stats.Sat
		unsat += r.stats.Unsat
		unk += r.stats.Unknown
		st += r.stats.Time.Seconds()
		paths += e.Paths
		disch += e.Discharged
		aunk += e.AssertUnknown
		for f, n := range r.encoded {
			fns[f] += n
		}
		for i, s := range e.samplePaths {
			if i < 4 {
				samples = append(samples, r.h.name()+": "+s)
			}
		}
		for i, wt := range e.Witnesses {
			if i < 2 {
				b, _ := json.Marshal(wt)
				samples = append(samples, r.h.name()+" witness "+trunc(string(b), 500))
			}
		}
		complete := e.stopWhy == "" && e.Unsupported == 0 && e.Limited == 0 && e.AssertUnknown == 0
		if !complete {
			exhaustive = false
		}
		per = append(per, map[string]interface{}{
			"harness": r.h.name(), "bounds": r.cfg.Bounds, "params": r.h.Params, "seconds": round1(r.secs), "complete_within_bounds": complete,
			"paths": e.Paths, "infeasible": e.Infeasible, "unsupported_paths": e.Unsupported, "limited_paths": e.Limited,
			"branch_points": e.Branches, "asserts_discharged": e.Discharged, "asserts_undecided": e.AssertUnknown,
			"queries": r.stats.Queries, "queries_unsat": r.stats.Unsat, "queries_sat": r.stats.Sat, "queries_unknown": r.stats.Unknown,
			"solver_seconds": round1(r.stats.Time.Seconds()), "slowest_query_s": r.stats.MaxQuery.Seconds(),
			"stopped": e.stopWhy, "unexplored_prefixes": e.leftover, "covers": e.Covers, "missing_covers": r.missing,
			"reduced_bounds": e.Unsup, "witnesses_replayed_ok": r.valOK, "witnesses_disagreeing": r.valBad, "disagreement_samples": r.valSample,
		})
	}
	var fl []string
	for f, n := range fns {
		fl = append(fl, fmt.Sprintf("%s (%d)", f, n))
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = valid
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["explanation"] = "symbolic execution of the SSA of /repo's current source; states = decided points over all explored paths, transitions = symbolic or scheduling branch points, traces_validated_against_impl = path witnesses whose native execution gave the predicted observations"
	cov["harnesses"] = per
	cov["functions_encoded"] = fl
	cov["paths"] = paths
	cov["asserts_discharged"] = disch
	cov["asserts_undecided"] = aunk
	cov["queries"] = queries
	cov["queries_unsat"] = unsat
	cov["queries_sat"] = sat
	cov["queries_unknown"] = unk
	cov["solver"] = primarySolver()
	cov["solver_seconds"] = round1(st)
	cov["load_seconds"] = round1(w.loadTime.Seconds())
	cov["native_runs"] = rep.Runs
	cov["witnesses_disagreeing"] = bad
	cov["unconfirmed_counterexamples"] = unconfirmed
	cov["outside"] = cc.Outside
	var kl []string
	for k := range knownSeen {
		kl = append(kl, k)
	}
	cov["known_findings_seen"] = kl
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, cc.Assumptions...), stdAssumptions...),
		"wall_s":      round1(time.Since(t0).Seconds()), "violations": nvio,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644); err != nil {
		fatalf("evidence: %v", err)
	}
}

var stdAssumptions = []string{
	"the engine's SSA semantics (checked per run by replaying path witnesses natively)",
	"stubs: clock (concrete, 1 ms per reading, unless the harness makes it symbolic), crypto/math randomness (constants unless symbolic), formatting, sync and atomic primitives as atomic steps, environment variables empty",
}

func round1(f float64) float64 { return float64(int64(f*10+0.5)) / 10 }
