package c36

import (
	"errors"
	"os"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// Slow has functions that take their time.
type Slow struct{}

func (Slow) Slow(c booklit.Content) booklit.Content { time.Sleep(3 * time.Millisecond); return c }
func (Slow) Idle()                                  { time.Sleep(3 * time.Millisecond) }
func (Slow) Boom(...booklit.Content) (booklit.Content, error) {
	time.Sleep(3 * time.Millisecond)
	return nil, errors.New("it failed")
}
func (Slow) Stop(booklit.Content) error { return errors.New("it stopped") }

// outcome is what became of a document.
type outcome struct {
	err, tree string
}

func build(path string, threshold time.Duration) outcome {
	sec, err := (&load.Processor{SlowInvokeThreshold: threshold}).LoadFile(path, append(lib.Base(), func(*booklit.Section) booklit.Plugin { return Slow{} }))
	if err != nil {
		at := ""
		var failed booklit.FailedFunctionError
		var undefined booklit.UndefinedFunctionError
		if errors.As(err, &failed) {
			at = failed.Annotate("")
		} else if errors.As(err, &undefined) {
			at = undefined.Annotate("")
		}
		return outcome{err: at + err.Error()}
	}
	tree := ""
	lib.Walk(sec, func(s *booklit.Section) {
		tree += s.Number() + "[" + lib.TokString(s.Title) + "|" + lib.TokString(s.Body) + "]"
	})
	return outcome{tree: tree}
}

func same(a, b outcome) bool { return a == b }

func item() string {
	return v.Pick("item", "", "\\slow{a}", "\\slow{a \\slow{b}}", "\\bold{\\slow{\n  c\n\n  \\slow{d}\n}}", "\\idle",
		"\\section{\n\\slow{e}\n}", "\\list{\\slow{f}}{\\idle}", "\\include-section{sub/inc.lit}",
		"\\boom", "\\boom{\\slow{g}}", "\\slow{\\boom}", "\\stop{\\idle}", "\\slow{\\nope{\\slow{x}}}", "\\include-section{gone.lit}", "\\slow")
}

func write(items ...string) string {
	src := "text\n\n"
	for _, it := range items {
		src += it + "\n\n"
	}
	path := v.Dir() + "/doc.lit"
	v.WriteFile(path, src, 1)
	v.WriteFile(v.Dir()+"/sub/inc.lit", "\\italic{i}\n", 1)
	return path
}

func threshold() time.Duration { return time.Duration(v.Pick("threshold", 1, int64(time.Hour), -1)) }

// quiet sends what is reported to a file.
func quiet(f func()) string {
	path := v.Dir() + "/stderr"
	out, err := os.Create(path)
	if err != nil {
		v.Fail("scratch file")
	}
	old := os.Stderr
	os.Stderr = out
	f()
	os.Stderr = old
	s, _ := v.ReadFile(path)
	return s
}

func begins(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// whole tells whether reports are those of calls, one after another; the last
// may still be in the making.
func whole(reports, path string) bool {
	src, _ := v.ReadFile(path)
	inc, _ := v.ReadFile(v.Dir() + "/sub/inc.lit")
	var each []string
	for _, s := range []string{src, inc} {
		for i := range s {
			if s[i] != '\\' {
				continue
			}
			a, b, n := i, i, i+1
			for a > 0 && s[a-1] != '\n' {
				a--
			}
			for b < len(s) && s[b] != '\n' {
				b++
			}
			for n < len(s) && (s[n] >= 'a' && s[n] <= 'z' || s[n] == '-') {
				n++
			}
			r := "   " + string(rune('0'+lib.Locate(s, i).Line)) + "| "
			pad := ""
			for k := 0; k < len(r)+i-a; k++ {
				pad += " "
			}
			mark := ""
			for k := i; k < n; k++ {
				mark += "^"
			}
			each = append(each, r+s[a:b]+"\n"+pad+"\x1b[31m"+mark+"\x1b[0m\n")
		}
	}
	for len(reports) > 0 {
		found := false
		for _, e := range each {
			if begins(reports, e) {
				reports, found = reports[len(e):], true
				break
			}
		}
		if !found {
			for _, e := range each {
				if begins(e, reports) {
					return true
				}
			}
			return false
		}
	}
	return true
}

// check loads a document with and without a threshold.
func check(path string) {
	want := build(path, 0)
	t := threshold()
	var got outcome
	reports := ""
	panicked, msg := v.Try(func() {
		reports = quiet(func() { got = build(path, t) })
	})
	v.Observe("panic", msg)
	v.Assert(whole(reports, path), "each report shows the call that is slow")
	if len(reports) > 0 && v.Symbolic() {
		v.Reach("reported")
	}
	v.Assert(!panicked, "reporting slow calls does not crash")
	v.Observe("failed", got.err != "")
	v.Assert(same(want, got), "the result does not depend on how long calls may take")
	if got.err != "" {
		v.Reach("failed")
	} else {
		v.Reach("loaded")
	}
}

// every kind of call
func H_kinds() {
	v.Preemptions(1)
	items := []string{item()}
	if v.Thorough() {
		items = append(items, item())
	}
	check(write(append(items, "\\slow{z}")...))
}

// several calls being slow at once
func H_several() {
	v.Preemptions(depth(2, 3))
	check(write(v.Pick("calls", "\\slow{a}", "\\slow{\\idle}", "\\slow{\\boom}", "\\idle\n\\idle", "\\section{\n\\slow{a}\n}")))
}

// two documents at once
func H_concurrent() {
	v.Preemptions(1)
	path := write(v.Pick("calls", [][]string{{"\\idle"}, {"\\idle", "\\slow{\\boom}"}}[depth(0, 1)]...))
	want := build(path, 0)
	t := time.Duration(v.Pick("threshold", 1, int64(time.Hour)))
	var got [2]outcome
	quiet(func() {
		v.Parallel(func() { got[0] = build(path, t) }, func() { got[1] = build(path, t) })
	})
	v.Assert(same(want, got[0]) && same(want, got[1]), "nor on what else goes on")
	v.Reach("concurrent")
}
