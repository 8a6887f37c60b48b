package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	preempt   int
	stepLimit int64
	tier      string
	workers   int
	seed      int64
}

// Harness is one entry point with its own worklist.
type Harness struct {
	name  string
	fn    *ssa.Function
	stack [][]int64
	busy  int
	used  time.Duration

	paths, infeasible, violations, unsup, stepped, unknown int64
	asserts                                                int64
	decisions                                              int64
	reached                                                map[string]int64
	unsupWhy                                               map[string]int64
	samples                                                []*Sample
	nsamples                                               int64
	cands                                                  map[string][]*Candidate
	maxDecs                                                int
}

// Sample is a completed path with a witness, for validation against the real build.
type Sample struct {
	Harness string   `json:"harness"`
	Inputs  []int64  `json:"inputs"`
	Labels  []string `json:"labels,omitempty"`
	Obs     []string `json:"obs"`
	free    bool
	threads bool
}

// Candidate is a counterexample to be replayed.
type Candidate struct {
	Harness string   `json:"harness"`
	Label   string   `json:"label"`
	Inputs  []int64  `json:"inputs"`
	Labels  []string `json:"input_labels"`
	Where   string   `json:"where"`
	kind    string
	threads bool
}

type Engine struct {
	prog   *ssa.Program
	progMu sync.Mutex
	pkgs   map[string]*ssa.Package
	opt    Options
	st     SolverStats

	rtErrString          *RT
	rtRtype              *RT
	fnDecodeRuneInString *ssa.Function

	inited   []map[*ssa.Package]bool
	syncMaps []map[*Value]*Map

	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*Harness
	stop     bool
	deadline time.Time
	curH     []*Harness

	poisonMu sync.Mutex
	poisons  map[string]bool

	assertConcrete, assertSolved atomic.Int64
	fatalMsg                     string
	namedMu                      sync.Mutex
	named                        map[string]types.Type
	candTotal                    int
}

func (e *Engine) notePoison(s string) {
	e.poisonMu.Lock()
	e.poisons[s] = true
	e.poisonMu.Unlock()
}

func (e *Engine) namedType(pkg, name string) types.Type {
	e.namedMu.Lock()
	defer e.namedMu.Unlock()
	k := pkg + "." + name
	if t, ok := e.named[k]; ok {
		return t
	}
	p := e.pkgs[pkg]
	if p == nil {
		panic(fatal{"package not loaded: " + pkg})
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(fatal{"no type " + k})
	}
	e.named[k] = o.Type()
	return o.Type()
}

func (e *Engine) pushFor(h *Harness, p []int64) {
	e.mu.Lock()
	h.stack = append(h.stack, p)
	e.mu.Unlock()
	e.cond.Signal()
}

// next hands out the next path prefix, or nil when everything is explored.
func (e *Engine) next() (*Harness, []int64) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			e.stop = true
			e.cond.Broadcast()
			return nil, nil
		}
		var best *Harness
		busy := 0
		for _, h := range e.hs {
			busy += h.busy
			if len(h.stack) > 0 && (best == nil || h.used < best.used) {
				best = h
			}
		}
		if best != nil {
			n := len(best.stack) - 1
			p := best.stack[n]
			best.stack[n] = nil
			best.stack = best.stack[:n]
			best.busy++
			return best, p
		}
		if busy == 0 {
			e.cond.Broadcast()
			return nil, nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{id: id, eng: e, pool: NewPool(), memo: map[memoKey]bool{}, state: map[any]any{}}
	w.solver = NewSolver(&e.st)
	w.stepLimit = e.opt.stepLimit
	w.main = &Thread{wake: make(chan struct{})}
	return w
}

func (e *Engine) work(id int, wg *sync.WaitGroup) {
	defer wg.Done()
	defer func() {
		if r := recover(); r != nil {
			e.mu.Lock()
			if e.fatalMsg == "" {
				e.fatalMsg = fmt.Sprint(r)
				if f, ok := r.(fatal); ok {
					e.fatalMsg = f.msg
				} else {
					e.fatalMsg += "\n" + string(debug.Stack())
				}
			}
			e.stop = true
			e.mu.Unlock()
			e.cond.Broadcast()
		}
	}()
	w := e.newWorker(id)
	defer w.solver.Close()
	for {
		h, p := e.next()
		if h == nil {
			return
		}
		t := time.Now()
		w.runPath(h, p)
		e.mu.Lock()
		h.busy--
		h.used += time.Since(t)
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

// runPath executes one path.
func (w *Worker) runPath(h *Harness, prefix []int64) {
	e := w.eng
	w.h = h
	w.resetPath(prefix)
	w.threads = append(w.threads[:0], w.main)
	w.cur = w.main
	w.main.sp, w.main.done, w.main.blocked, w.main.vc = 0, false, nil, nil
	w.frame = nil
	var end pathEnd
	kind := "done"
	why := ""
	where := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				kind = x.kind
				end = x
			case *TargetPanic:
				kind = "panic"
				why = showPanic(x.v)
				where = x.where
			case unsupported:
				kind = "unsupported"
				why = x.msg + " at " + w.whereStr()
			case fatal:
				panic(r)
			case exited:
				kind, why = "panic", "os.Exit called"
			default:
				kind = "unsupported"
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i > 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				why = fmt.Sprintf("engine: %v at %s\n%s", r, w.whereStr(), st)
			}
		}()
		// initialise the module's packages and the harness's first
		w.initModule(h)
		w.call(codeOf(h.fn), nil, nil, nil)
		if len(w.threads) > 1 {
			// let nothing unfinished be mistaken for a passing path
			_ = w.threads
		}
	}()
	threads := len(w.threads) > 1
	if threads {
		w.killThreads()
	}
	var cand *Candidate
	var sample *Sample
	mk := func(label string, m map[*Expr]uint64, where string) *Candidate {
		c := &Candidate{Harness: h.name, Label: label, Inputs: w.inputValues(m), Where: where}
		for _, in := range w.inputs {
			c.Labels = append(c.Labels, in.label)
		}
		c.threads = threads
		return c
	}
	var races []*Candidate
	if w.race != nil && len(w.race.found) > 0 {
		if m, ok := w.model(nil); ok {
			for l := range w.race.found {
				c := mk(l, m, "")
				c.kind = "race"
				races = append(races, c)
			}
		}
	}
	switch kind {
	case "violation":
		cand = mk(end.label, end.model, end.where)
		cand.kind = "assert"
	case "panic":
		if m, ok := w.model(nil); ok {
			cand = mk("panic: "+why, m, where)
			cand.kind = "panic"
		} else {
			kind = "infeasible"
		}
	case "steps":
		if m, ok := w.model(nil); ok {
			cand = mk("does not terminate within the step bound", m, w.whereStr())
			cand.kind = "steps"
		} else {
			kind = "infeasible"
		}
	case "unsupported":
		// replay a witness natively all the same
		if m, ok := w.model(nil); ok {
			cand = mk("unsupported: "+why, m, "")
			cand.kind = "unsupported"
		} else {
			kind = "infeasible"
		}
	case "done":
		if w.sampled(h) {
			if m, ok := w.model(nil); ok {
				sample = &Sample{Harness: h.name, Inputs: w.inputValues(m), free: w.free, threads: threads}
				memo := map[*Expr]uint64{}
				for _, o := range w.obs {
					sample.Obs = append(sample.Obs, o.label+"="+w.concreteView(o.v, m, memo))
				}
				for _, in := range w.inputs {
					sample.Labels = append(sample.Labels, in.label)
				}
			}
		}
	}
	w.rollback()
	e.mu.Lock()
	defer e.mu.Unlock()
	h.paths++
	h.asserts += int64(w.nAsserts)
	h.decisions += int64(max(0, len(w.decs)-len(w.prefix)))
	h.maxDecs = max(h.maxDecs, len(w.decs))
	for r := range w.reached {
		h.reached[r]++
	}
	if w.unknowns > 0 {
		h.unknown++
	}
	switch kind {
	case "infeasible":
		h.infeasible++
	case "unsupported":
		h.unsup++
		h.unsupWhy[firstLine(why)]++
		if os.Getenv("VERIF_DEBUG") != "" && h.unsupWhy[firstLine(why)] == 1 {
			fmt.Fprintf(os.Stderr, "[%s] unsupported: %s\n", h.name, why)
		}
	case "steps":
		h.stepped++
	case "unknown":
		h.unknown++
	}
	if cand != nil {
		races = append(races, cand)
	}
	for _, cand := range races {
		l := h.cands[cand.Label]
		if len(l) < 12 && e.candTotal < 400 {
			h.cands[cand.Label] = append(l, cand)
			e.candTotal++
		}
		if cand.kind == "assert" || cand.kind == "panic" || cand.kind == "race" {
			h.violations++
		}
	}
	if sample != nil {
		h.nsamples++
		const keep = 60
		if len(h.samples) < keep {
			h.samples = append(h.samples, sample)
		} else {
			// deterministic thinning
			i := int((h.nsamples*2654435761 + e.opt.seed) % (h.nsamples))
			if i < keep {
				h.samples[i] = sample
			}
		}
	}
}

func (w *Worker) sampled(h *Harness) bool {
	n := h.paths
	if n < 200 {
		return true
	}
	return n%37 == 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func showPanic(v Value) string {
	switch x := v.(type) {
	case *Iface:
		switch y := x.v.(type) {
		case string:
			return x.t.String() + ": " + y
		case *Value:
			if y != nil {
				if s, ok := (*y).(Struct); ok && len(s) > 0 {
					return x.t.String() + ": " + show(s[0])
				}
			}
		}
		return x.t.String() + ": " + show(x.v)
	}
	return show(v)
}

// initModule initialises module and harness packages once per worker, in
// dependency order, before the first path.
func (w *Worker) initModule(h *Harness) {
	if w.eng.inited[w.id][h.fn.Pkg] {
		return
	}
	saved := w.logging
	w.logging = false
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			if strings.HasPrefix(q.Path(), modPath) {
				visit(q)
			}
		}
		w.initPackage(w.eng.prog.Package(p))
	}
	visit(h.fn.Pkg.Pkg)
	w.logging = saved
	w.steps = 0
}

func (e *Engine) run(hs []*Harness) {
	e.hs = hs
	e.cond = sync.NewCond(&e.mu)
	for _, h := range hs {
		h.stack = [][]int64{nil}
		h.reached = map[string]int64{}
		h.unsupWhy = map[string]int64{}
		h.cands = map[string][]*Candidate{}
	}
	e.inited = make([]map[*ssa.Package]bool, e.opt.workers)
	e.syncMaps = make([]map[*Value]*Map, e.opt.workers)
	for i := range e.inited {
		e.inited[i] = map[*ssa.Package]bool{}
		e.syncMaps[i] = map[*Value]*Map{}
	}
	var wg sync.WaitGroup
	for i := 0; i < e.opt.workers; i++ {
		wg.Add(1)
		go e.work(i, &wg)
	}
	// wake sleepers at the deadline
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				e.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(done)
}

// functionsEncoded lists the functions executed, by package.
func functionsEncoded() (module []string, other int) {
	codeCache.Range(func(k, v any) bool {
		c := v.(*fnCode)
		if !c.used.Load() {
			return true
		}
		if c.module {
			module = append(module, strings.ReplaceAll(c.name, modPath, "booklit"))
		} else {
			other++
		}
		return true
	})
	sort.Strings(module)
	return
}
