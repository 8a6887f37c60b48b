package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Meta describes a property's check (harness/<id>/meta.json).
type Meta struct {
	Bounds   string   `json:"bounds"`
	Outside  string   `json:"outside"`
	Stubs    []string `json:"stubs"`
	Quick    int      `json:"quick_s"`
	Thorough int      `json:"thorough_s"`
	Preempt  int      `json:"preempt"`
	Steps    int64    `json:"steps"`
	Reach    []string `json:"reach"`
	Repeat   int      `json:"repeat"` // native repetitions for schedule/map order dependent replays
}

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine error: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "only harnesses whose name contains this")
	secs := flag.Int("secs", 0, "override time budget")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	flag.StringVar(&repoDir, "repo", "/repo", "source tree")
	flag.StringVar(&verifDir, "verif", "/verif", "verification tree")
	replayFile := flag.String("replay", "", "run the counterexample in this file against the real build")
	noReplay := flag.Bool("noreplay", false, "skip native validation (debugging)")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	debug.SetGCPercent(300)
	debug.SetMaxStack(4 << 30)
	debug.SetMemoryLimit(14 << 30)
	start := time.Now()
	os.Setenv("VERIF_TIER", *tier)

	id := strings.ToUpper(*prop)
	pkgName := strings.ToLower(*prop)
	var meta Meta
	mb, err := os.ReadFile(filepath.Join(verifDir, "harness", pkgName, "meta.json"))
	if err != nil {
		fail("%v", err)
	}
	if err := json.Unmarshal(mb, &meta); err != nil {
		fail("meta.json: %v", err)
	}
	work, err := os.MkdirTemp("", "verif-"+pkgName+"-")
	if err != nil {
		fail("%v", err)
	}
	if *replayFile != "" {
		code := replayOne(pkgName, *replayFile, meta, work)
		os.RemoveAll(work)
		os.Exit(code)
	}
	code := run(id, pkgName, *tier, seed, *only, *secs, *workers, meta, work, start, *noReplay)
	os.RemoveAll(work)
	os.Exit(code)
}

func overlayFiles(pkgName string) map[string]string {
	m := map[string]string{}
	for _, d := range []string{"v", "lib", pkgName} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repoDir, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	return m
}

func run(id, pkgName, tier string, seed int64, only string, secs, workers int, meta Meta, work string, start time.Time, noReplay bool) int {
	files := overlayFiles(pkgName)
	overlay := map[string][]byte{}
	for to, from := range files {
		b, err := os.ReadFile(from)
		if err != nil {
			fail("%v", err)
		}
		overlay[to] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repoDir,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
		Env:     goEnv(),
	}
	pkgPath := modPath + "/zz_verif/" + pkgName
	pkgs, err := packages.Load(cfg, pkgPath, vPath)
	if err != nil {
		fail("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintf(os.Stderr, "%s: %v\n", p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		fail("the tree or the harness does not type-check")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, poisons: map[string]bool{}, named: map[string]types.Type{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.opt = Options{preempt: meta.Preempt, stepLimit: meta.Steps, tier: tier, workers: workers, seed: seed}
	if e.opt.stepLimit == 0 {
		e.opt.stepLimit = 40_000_000
	}
	if e.opt.preempt == 0 {
		e.opt.preempt = 2
	}
	e.rtErrString = rtOf(e.namedType("runtime", "errorString"))
	if e.pkgs["reflect"] != nil {
		e.rtRtype = rtOf(types.NewPointer(e.namedType("reflect", "rtype")))
	}
	e.fnDecodeRuneInString = e.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	redirectFns = map[string]*ssa.Function{}
	for k, n := range redirects {
		f := e.pkgs[vPath].Func(n)
		if f == nil {
			fail("no model %s", n)
		}
		redirectFns[k] = f
	}
	hp := e.pkgs[pkgPath]
	var hs []*Harness
	var names []string
	for _, p := range pkgs {
		if p.PkgPath != pkgPath {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
					continue
				}
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if only != "" && !strings.Contains(n, only) {
			continue
		}
		hs = append(hs, &Harness{name: n, fn: hp.Func(n)})
	}
	if len(hs) == 0 {
		fail("no harness")
	}
	loadTime := time.Since(start)

	// build the native replayer meanwhile
	rep := &Replayer{work: work, pkg: pkgName, names: names, repeat: meta.Repeat}
	built := make(chan error, 1)
	go func() { built <- rep.build(files) }()

	budget := meta.Quick
	if tier == "thorough" {
		budget = meta.Thorough
	}
	if budget == 0 {
		budget = 60
	}
	if secs > 0 {
		budget = secs
	}
	e.deadline = time.Now().Add(time.Duration(budget) * time.Second)
	e.run(hs)
	exploreTime := time.Since(start) - loadTime
	if e.fatalMsg != "" {
		fail("%s", e.fatalMsg)
	}
	if noReplay {
		report(e, hs)
		return 0
	}
	if err := <-built; err != nil {
		fail("native build: %v", err)
	}
	return conclude(e, hs, rep, id, tier, seed, meta, start, loadTime, exploreTime, only != "")
}

func report(e *Engine, hs []*Harness) {
	for _, h := range hs {
		fmt.Printf("%-40s paths %d infeasible %d unsupported %d steps %d violations %d pending %d asserts %d time %.1fs maxdecs %d\n", h.name, h.paths, h.infeasible, h.unsup, h.stepped, h.violations, len(h.stack), h.asserts, h.used.Seconds(), h.maxDecs)
		for k, n := range h.unsupWhy {
			fmt.Printf("   unsupported %d: %s\n", n, k)
		}
		for k, c := range h.cands {
			if c[0].kind == "unsupported" {
				continue
			}
			fmt.Printf("   candidate %s: %v %v\n      %s\n", k, c[0].Inputs, c[0].Labels, c[0].Where)
		}
	}
	fmt.Printf("solver: queries %d sat %d unsat %d unknown %d time %.2fs memo %d; asserts concrete %d solved %d\n", e.st.queries.Load(), e.st.sat.Load(), e.st.unsat.Load(), e.st.unknown.Load(), float64(e.st.nanos.Load())/1e9, e.st.memoHits.Load(), e.assertConcrete.Load(), e.assertSolved.Load())
	if os.Getenv("VERIF_DEBUG") != "" {
		for p := range e.poisons {
			fmt.Fprintln(os.Stderr, "poison:", p)
		}
	}
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")
}
