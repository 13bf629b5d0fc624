package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "go.opencensus.io"
const hroot = "internal/verifh"

var repoDir = repoRoot()

// repoRoot is /repo; GOSYM_REPO points development runs at a scratch copy.
func repoRoot() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type World struct {
	prog          *ssa.Program
	fset          *token.FileSet
	pkgs          map[string]*ssa.Package // by path
	maxSteps      int64
	solverTimeout int
	sizes         types.Sizes
	implCache     sync.Map
	mu            sync.Mutex
	msets         typeutil.MethodSetCache
	loadTime      time.Duration
	initOrder     map[string][]*ssa.Package
	rtErr         types.Type
	errI          *types.Interface
}

// HarnessRun is one harness function with its bounds.
type HarnessRun struct {
	Pkg    string         `json:"pkg"`
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params"`
	Time   int            `json:"time"` // seconds
	Note   string         `json:"note"`
	fn     *ssa.Function
}

func (h *HarnessRun) param(n string, d int) int {
	if v, ok := h.Params[n]; ok {
		return v
	}
	return d
}

func (h *HarnessRun) maxWitness() int { return h.param("witnesses", 24) }

func (h *HarnessRun) name() string { return h.Pkg + "." + h.Fn }

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "internal/poll": true, "internal/cpu": true, "time": true,
	"crypto/tls": true, "crypto/x509": true, "internal/godebug": true, "google.golang.org/protobuf/internal/impl": true,
	"log": true,
}

// overlayFiles maps destination paths in the repository to the harness sources.
func overlayFiles(verif string, pkgs []string) (map[string]string, error) {
	m := map[string]string{}
	add := func(dir, dst string) error {
		fs, err := filepath.Glob(filepath.Join(verif, dir, "*.go"))
		if err != nil || len(fs) == 0 {
			return fmt.Errorf("no harness sources in %s", dir)
		}
		for _, f := range fs {
			m[filepath.Join(repoDir, hroot, dst, filepath.Base(f))] = f
		}
		return nil
	}
	if err := add("harness/sym", "sym"); err != nil {
		return nil, err
	}
	if err := add("harness/model", "model"); err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if err := add("harness/"+p, p); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "CGO_ENABLED", "GOOS", "GOARCH", "PATH", "HOME", "GOPATH", "GOMODCACHE", "GOCACHE", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	root := "/opt/veriftools/go1.27.3"
	return append(env, "HOME=/root", "GOROOT="+root, "PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+gocache(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOFLAGS=-mod=readonly -buildvcs=false")
}

func gocache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func loadWorld(verif string, pkgNames []string) (*World, error) {
	t0 := time.Now()
	ov, err := overlayFiles(verif, pkgNames)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repoDir,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	pats := []string{modPath + "/" + hroot + "/sym", modPath + "/" + hroot + "/model"}
	for _, p := range pkgNames {
		pats = append(pats, modPath+"/"+hroot+"/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, maxSteps: 40_000_000, solverTimeout: 10000,
		sizes: types.SizesFor("gc", "amd64"), initOrder: map[string][]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	w.rtErr = w.typeOf("runtime", "errorString")
	w.errI = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	w.loadTime = time.Since(t0)
	return w, nil
}

func (w *World) typeOf(pkg, name string) types.Type {
	p := w.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type not found: " + pkg + "." + name))
	}
	return o.Type()
}

func (w *World) errorIface() *types.Interface { return w.errI }

func (w *World) runtimeError(msg string) value { return iface{w.rtErr, msg} }

func (w *World) modelFn(name string) *ssa.Function {
	if name == "" {
		return nil
	}
	p := w.pkgs[modPath+"/"+hroot+"/model"]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (w *World) isModule(p *ssa.Package) bool {
	pp := p.Pkg.Path()
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

func (w *World) inModule(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Pkg != nil && w.isModule(f.Pkg) && !strings.Contains(f.Pkg.Pkg.Path(), hroot)
}

func (w *World) sizeof(t types.Type) int64 { return w.sizes.Sizeof(t) }

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	if i := strings.Index(f, "/src/"); i >= 0 && strings.Contains(f, "/go1.") {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) methodSet(t types.Type) *types.MethodSet {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.msets.MethodSet(t)
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	sel := w.msets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// moduleInits lists the module packages a harness depends on, dependencies first.
func (w *World) moduleInits(root string) []*ssa.Package {
	w.mu.Lock()
	defer w.mu.Unlock()
	if o, ok := w.initOrder[root]; ok {
		return o
	}
	var out []*ssa.Package
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if sp := w.pkgs[p.Path()]; sp != nil && w.isModule(sp) {
			out = append(out, sp)
		}
	}
	if rp := w.pkgs[root]; rp != nil {
		visit(rp.Pkg)
	}
	w.initOrder[root] = out
	return out
}

func (w *World) runModuleInits(in *Interp, h *HarnessRun) {
	for _, p := range w.moduleInits(modPath + "/" + hroot + "/" + h.Pkg) {
		in.inited[p] = 2
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				if c := in.globals[g]; c != nil {
					// fresh zero value for this path
					old := *c
					*c = zero(g.Type().(*types.Pointer).Elem())
					in.log = append(in.log, undoRec{p: c, old: old})
				}
			}
		}
	}
	for _, p := range w.moduleInits(modPath + "/" + hroot + "/" + h.Pkg) {
		fn := p.Func("init")
		if fn != nil {
			in.runFn(in.compile(fn), nil, nil, nil)
		}
	}
}

func newInterp(w *World) *Interp {
	return &Interp{w: w, pmemo: newMemo(), smemo: newMemo(), tc: newTermCtx(), types: newTypeCache(), fns: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]*value{},
		inited: map[*ssa.Package]int{}, methods: map[methodKey]*ssa.Function{}, encoded: map[*ssa.Function]int64{}, visits: map[string]int64{},
		killed: make(chan struct{}), solver: newSolver(primarySolver(), w.solverTimeout), side: map[interface{}]interface{}{}}
}

func primarySolver() string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}
