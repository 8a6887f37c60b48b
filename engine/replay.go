package main

// Native replay of witnesses and counterexamples, and the verdict.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Replayer struct {
	work   string
	pkg    string
	names  []string
	bin    string
	racy   string
	files  map[string]string
	repeat int
}

func (r *Replayer) build(files map[string]string) error {
	bin, err := r.buildAs("replay", files, goEnv())
	r.bin, r.files = bin, files
	return err
}

// buildRacy builds the replayer for cases with several goroutines: with the
// race detector, and with random delays around booklit's synchronisation.
func (r *Replayer) buildRacy() error {
	if r.racy != "" {
		return nil
	}
	env := append(goEnv(), "CGO_ENABLED=1")
	files := map[string]string{}
	for k, v := range r.files {
		files[k] = v
	}
	for _, d := range []string{"vsync", "vatomic"} {
		files[filepath.Join(repoDir, "zz_verif", d, d+".go")] = filepath.Join(verifDir, "harness", d, d+".go")
	}
	n := 0
	filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			if err == nil && p != repoDir && strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasPrefix(p, filepath.Join(repoDir, "zz_verif")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(b, []byte(`"sync`)) {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		s := string(b)
		changed := false
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			sub, name := map[string]string{`"sync"`: "vsync", `"sync/atomic"`: "vatomic"}[im.Path.Value], ""
			if sub == "" {
				continue
			}
			if im.Name == nil {
				name = strings.TrimPrefix(sub, "v") + " "
			}
			a, z := int(im.Path.Pos())-int(f.FileStart), int(im.Path.End())-int(f.FileStart)
			s = s[:a] + name + `"` + modPath + "/zz_verif/" + sub + `"` + s[z:]
			changed = true
		}
		if changed {
			to := filepath.Join(r.work, fmt.Sprintf("jitter%d.go", n))
			n++
			if os.WriteFile(to, []byte(s), 0o644) == nil {
				files[p] = to
			}
		}
		return nil
	})
	bin, err := r.buildAs("racy", files, append(env, "VERIF=racy"))
	if err != nil {
		// uses something the stand-ins lack
		bin, err = r.buildAs("racy", r.files, env)
	}
	if err != nil {
		return err
	}
	r.racy = bin
	return nil
}

func (r *Replayer) buildAs(name string, files map[string]string, env []string) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + vPath + "\"\n\th \"" + modPath + "/zz_verif/" + r.pkg + "\"\n)\n\nfunc main() {\n\tv.Main(map[string]func(){\n")
	for _, n := range r.names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(r.work, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{}
	for k, v := range files {
		rep[k] = v
	}
	rep[filepath.Join(repoDir, "zz_verif", "replay", "main.go")] = mainFile
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(r.work, name+".json")
	if err := os.WriteFile(ov, ob, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.work, name)
	args := []string{"build", "-overlay", ov, "-o", bin}
	if name == "racy" {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./zz_verif/replay")...)
	cmd.Dir = repoDir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

type outcome struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
	Left   int      `json:"left"`
}

type caseIn struct {
	Harness string  `json:"harness"`
	Inputs  []int64 `json:"inputs"`
	Repeat  int     `json:"repeat"`
	Dir     string  `json:"dir"`
}

// session is one running replay process.
type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<14 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (r *Replayer) start(bin string) (*session, error) {
	s := &session{err: &tail{}}
	s.cmd = exec.Command(bin)
	s.cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	s.cmd.Stderr = s.err
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	return s, nil
}

func (s *session) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// runCase returns the outcome; the session is dead after crash and hang.
func (s *session) runCase(c caseIn, limit time.Duration) (outcome, bool) {
	b, _ := json.Marshal(c)
	if _, err := s.in.Write(append(b, '\n')); err != nil {
		return outcome{Status: "crash", Label: err.Error()}, false
	}
	type res struct {
		o  outcome
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadBytes('\n')
		if err != nil {
			ch <- res{outcome{Status: "crash"}, false}
			return
		}
		var o outcome
		if err := json.Unmarshal(l, &o); err != nil {
			ch <- res{outcome{Status: "error", Label: "bad output " + string(l)}, false}
			return
		}
		ch <- res{o, true}
	}()
	select {
	case x := <-ch:
		if !x.ok && x.o.Status == "crash" {
			s.cmd.Wait()
			s.err.mu.Lock()
			x.o.Label = firstLine(string(s.err.b))
			if strings.Contains(string(s.err.b), "WARNING: DATA RACE") {
				x.o.Label = "data race"
			}
			s.err.mu.Unlock()
		}
		return x.o, x.ok
	case <-time.After(limit):
		s.cmd.Process.Kill()
		return outcome{Status: "hang"}, false
	}
}

type Known struct {
	Property string
	What     string
	Harness  string
	Label    string
}

// knownFindings reads KNOWN-FINDINGS.txt: "finding: property=<id> harness=<h> label=<label> :: <what fails>".
func knownFindings(id string) []Known {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN-FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		k := Known{What: what}
		if i := strings.Index(head, " label="); i >= 0 {
			k.Label = head[i+7:]
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			a, v, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				k.Property = v
			case "harness":
				k.Harness = v
			}
		}
		if k.Property == id {
			out = append(out, k)
		}
	}
	return out
}

func conclude(e *Engine, hs []*Harness, rep *Replayer, id, tier string, seed int64, meta Meta, start time.Time, loadTime, exploreTime time.Duration, partial bool) int {
	// 1. validate passing paths against the real build
	var ses *session
	get := func() *session {
		if ses == nil {
			s, err := rep.start(rep.bin)
			if err != nil {
				fail("replay: %v", err)
			}
			ses = s
		}
		return ses
	}
	drop := func() {
		if ses != nil {
			ses.close()
			ses = nil
		}
	}
	defer drop()
	validated, mismatches := 0, 0
	var mismatchNote []string
	type viol struct {
		c *Candidate
		o outcome
	}
	var viols []viol
	for _, h := range hs {
		for _, s := range h.samples {
			c := caseIn{Harness: s.Harness, Inputs: s.Inputs, Dir: rep.work}
			o, ok := get().runCase(c, 30*time.Second)
			if !ok {
				drop()
			}
			switch {
			case o.Status == "ok" && strings.Join(o.Obs, "\n") == strings.Join(s.Obs, "\n"):
				validated++
			case o.Status == "ok" && (s.free || s.threads):
				validated++ // order-dependent observations may differ
			default:
				mismatches++
				if len(mismatchNote) < 5 {
					mismatchNote = append(mismatchNote, fmt.Sprintf("%s %v: executor ok %q, real run %s %s %q", s.Harness, s.Inputs, s.Obs, o.Status, o.Label, o.Obs))
				}
				// the real run failing where the executor passed is a violation
				// of the real code all the same
				if o.Status == "assert" || o.Status == "panic" || o.Status == "crash" || o.Status == "hang" {
					viols = append(viols, viol{&Candidate{Harness: s.Harness, Label: label(o), Inputs: s.Inputs, Labels: s.Labels}, o})
				}
			}
		}
	}
	// 2. replay counterexamples
	unconfirmed := 0
	var unconfirmedNote []string
	racySlots := 8
	var racyDone []string
	for _, h := range hs {
		var labels []string
		for l := range h.cands {
			labels = append(labels, l)
		}
		sort.Strings(labels)
		for _, l := range labels {
			confirmed := false
			for _, c := range h.cands[l] {
				if c.threads && c.kind != "unsupported" {
					if racySlots == 0 || len(racyDone) > 0 && c.kind == "race" {
						continue
					}
					racySlots--
					if o, ok := rep.runRacy(c); ok {
						viols = append(viols, viol{c, o})
						racyDone = append(racyDone, l)
						confirmed = true
						break
					} else if len(unconfirmedNote) < 8 {
						unconfirmedNote = append(unconfirmedNote, fmt.Sprintf("%s [%s] %v: real run %s", c.Harness, l, c.Inputs, o.Status))
					}
					continue
				}
				rpt := 1
				if c.kind != "unsupported" && meta.Repeat > 1 {
					rpt = meta.Repeat
				}
				o, ok := get().runCase(caseIn{Harness: c.Harness, Inputs: c.Inputs, Repeat: rpt, Dir: rep.work}, 30*time.Second)
				if !ok {
					drop()
				}
				if ok && c.kind != "unsupported" && (o.Status == "ok" || o.Status == "stop") {
					// in a new process, where no earlier run has left anything
					drop()
					o, ok = get().runCase(caseIn{Harness: c.Harness, Inputs: c.Inputs, Repeat: rpt, Dir: rep.work}, 30*time.Second)
					if !ok {
						drop()
					}
				}
				if o.Status == "assert" || o.Status == "panic" || o.Status == "crash" || o.Status == "hang" {
					viols = append(viols, viol{c, o})
					confirmed = true
					break
				}
				if c.kind != "unsupported" && len(unconfirmedNote) < 8 {
					unconfirmedNote = append(unconfirmedNote, fmt.Sprintf("%s [%s] %v: real run %s", c.Harness, l, c.Inputs, o.Status))
				}
			}
			if !confirmed && h.cands[l][0].kind != "unsupported" {
				unconfirmed++
			}
		}
	}
	// 3. verdict
	known := knownFindings(id)
	hit := map[int]bool{}
	var fresh []viol
	for _, v := range viols {
		matched := false
		for i, k := range known {
			if k.Harness == v.c.Harness && k.Label == label(v.o) {
				hit[i] = true
				matched = true
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for i, k := range known {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	replayPath := ""
	if len(fresh) > 0 && !partial || len(fresh) > 0 {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		v := fresh[0]
		replayPath = filepath.Join(dir, id+".json")
		b, _ := json.MarshalIndent(map[string]any{
			"property": id, "harness": v.c.Harness, "inputs": v.c.Inputs, "input_labels": v.c.Labels, "threads": v.c.threads,
			"expected": v.c.Label, "real_run": v.o, "where": v.c.Where,
			"how": "/verif/check.sh --replay " + id + " " + replayPath,
		}, "", "  ")
		os.WriteFile(replayPath, b, 0o644)
		for _, v := range fresh {
			fmt.Printf("counterexample %s: %s (%s) inputs %s\n", v.c.Harness, label(v.o), v.o.Status, describe(v.c))
		}
	}
	vac := []string{}
	for _, h := range hs {
		if h.asserts == 0 && len(viols) == 0 {
			vac = append(vac, h.name+" reached no assertion")
		}
		if h.paths == h.infeasible+h.unsup && len(viols) == 0 {
			vac = append(vac, h.name+" completed no path")
		}
	}
	if !partial && len(viols) == 0 {
		for _, r := range meta.Reach {
			n := int64(0)
			for _, h := range hs {
				n += h.reached[r]
			}
			if n == 0 {
				vac = append(vac, "no path reached "+r)
			}
		}
	}
	writeEvidence(e, hs, id, tier, seed, meta, start, loadTime, exploreTime, validated, mismatches, mismatchNote, unconfirmed, unconfirmedNote, len(fresh), vac, len(hit))
	report(e, hs)
	fmt.Printf("validated %d passing paths natively, %d differ; %d counterexample labels not confirmed; load %.1fs explore %.1fs total %.1fs\n", validated, mismatches, unconfirmed, loadTime.Seconds(), exploreTime.Seconds(), time.Since(start).Seconds())
	for _, n := range mismatchNote {
		fmt.Println("  mismatch:", n)
	}
	for _, n := range unconfirmedNote {
		fmt.Println("  unconfirmed:", n)
	}
	for _, n := range vac {
		fmt.Println("  vacuous:", n)
	}
	if len(fresh) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		return 1
	}
	if len(vac) > 0 && !partial {
		fmt.Println("inconclusive: a harness proved nothing")
		return 2
	}
	return 0
}

func label(o outcome) string {
	switch o.Status {
	case "assert":
		return o.Label
	case "panic":
		return "panic: " + firstLine(o.Label)
	case "crash":
		return "crash: " + o.Label
	}
	return o.Status
}

func describe(c *Candidate) string {
	var p []string
	text := []byte{}
	for i, x := range c.Inputs {
		l := ""
		if i < len(c.Labels) {
			l = c.Labels[i]
		}
		p = append(p, fmt.Sprintf("%s=%d", l, x))
		if x >= 0 && x < 256 {
			text = append(text, byte(x))
		}
	}
	return strings.Join(p, " ") + fmt.Sprintf(" %q", text)
}

func writeEvidence(e *Engine, hs []*Harness, id, tier string, seed int64, meta Meta, start time.Time, loadTime, exploreTime time.Duration, validated, mismatches int, mm []string, unconfirmed int, un []string, violations int, vac []string, knownHits int) {
	var paths, decisions, infeasible, unsupN, stepped, pending, asserts int64
	per := map[string]any{}
	complete := true
	var samples []any
	for _, h := range hs {
		paths += h.paths
		decisions += h.decisions
		infeasible += h.infeasible
		unsupN += h.unsup
		stepped += h.stepped
		pending += int64(len(h.stack))
		asserts += h.asserts
		ok := len(h.stack) == 0 && h.unsup == 0 && h.stepped == 0 && h.unknown == 0
		if !ok {
			complete = false
		}
		d := map[string]any{
			"paths": h.paths, "infeasible": h.infeasible, "assertions_reached": h.asserts, "branch_decisions": h.decisions,
			"longest_decision_sequence": h.maxDecs, "unexplored_prefixes": len(h.stack), "paths_outside_the_encoding": h.unsup,
			"paths_over_step_bound": h.stepped, "paths_with_solver_unknown": h.unknown, "explored_completely": ok, "cpu_s": round(h.used.Seconds()),
		}
		if len(h.unsupWhy) > 0 {
			d["outside_the_encoding"] = h.unsupWhy
		}
		if len(h.reached) > 0 {
			d["witness_points_reached"] = h.reached
		}
		per[h.name] = d
		for i, s := range h.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, s)
			}
		}
	}
	mod, other := functionsEncoded()
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   decisions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    complete && pending == 0,
		"explanation": "states = symbolic paths executed, each standing for all inputs that satisfy its path condition; transitions = branch decisions taken. " +
			"'exhaustive' means every feasible path within the bounds was executed and decided.",
		"bounds":                      meta.Bounds,
		"outside_bounds":              meta.Outside,
		"harnesses":                   per,
		"functions_encoded":           mod,
		"library_functions_encoded":   other,
		"solver":                      "z3 (SMT-LIB 2, QF_BV)",
		"solver_queries":              e.st.queries.Load(),
		"solver_sat":                  e.st.sat.Load(),
		"solver_unsat":                e.st.unsat.Load(),
		"solver_unknown":              e.st.unknown.Load(),
		"solver_time_s":               round(float64(e.st.nanos.Load()) / 1e9),
		"verdicts_reused":             e.st.memoHits.Load(),
		"assertions_discharged":       asserts,
		"assertions_needing_solver":   e.assertSolved.Load(),
		"assertions_decided_by_path":  e.assertConcrete.Load(),
		"validation_mismatches":       mismatches,
		"counterexamples_unconfirmed": unconfirmed,
		"known_findings_met":          knownHits,
		"load_s":                      round(loadTime.Seconds()),
		"explore_s":                   round(exploreTime.Seconds()),
	}
	if len(mm) > 0 {
		cov["validation_mismatch_samples"] = mm
	}
	if len(un) > 0 {
		cov["unconfirmed_samples"] = un
	}
	if len(vac) > 0 {
		cov["vacuity"] = vac
	}
	as := append([]string{
		"go/ssa translates Go source faithfully; the executor's instruction semantics (cross-checked by replaying sampled paths natively)",
		"z3 answers correctly",
		"models of runtime, sync, reflect, time, logrus, x/text/cases and (where used) the file system",
	}, meta.Stubs...)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": round(time.Since(start).Seconds()), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644); err != nil {
		fail("%v", err)
	}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// runRacy runs a case with several goroutines over and over.
func (r *Replayer) runRacy(c *Candidate) (outcome, bool) {
	if err := r.buildRacy(); err != nil {
		fail("native build: %v", err)
	}
	s, err := r.start(r.racy)
	if err != nil {
		fail("%v", err)
	}
	defer s.close()
	o := outcome{Status: "ok"}
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		var ok bool
		o, ok = s.runCase(caseIn{Harness: c.Harness, Inputs: c.Inputs, Repeat: 20, Dir: r.work}, 60*time.Second)
		switch o.Status {
		case "assert", "panic", "crash", "hang":
			return o, true
		}
		if !ok || o.Status != "ok" {
			break
		}
	}
	return o, false
}

// replayOne runs a reported counterexample natively: exit 1 if it still fails.
func replayOne(pkgName, file string, meta Meta, work string) int {
	var r struct {
		Harness string
		Inputs  []int64
		Threads bool
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	rep := &Replayer{work: work, pkg: pkgName, names: []string{r.Harness}, repeat: meta.Repeat}
	if err := rep.build(overlayFiles(pkgName)); err != nil {
		fail("%v", err)
	}
	if r.Threads {
		o, bad := rep.runRacy(&Candidate{Harness: r.Harness, Inputs: r.Inputs})
		fmt.Printf("%s %s\n", o.Status, o.Label)
		if bad {
			return 1
		}
		return 0
	}
	s, err := rep.start(rep.bin)
	if err != nil {
		fail("%v", err)
	}
	defer s.close()
	o, _ := s.runCase(caseIn{Harness: r.Harness, Inputs: r.Inputs, Repeat: max(1, meta.Repeat), Dir: work}, 60*time.Second)
	fmt.Printf("%s %s\n", o.Status, o.Label)
	for _, l := range o.Obs {
		fmt.Println("  ", l)
	}
	if o.Status == "ok" || o.Status == "stop" {
		return 0
	}
	return 1
}
