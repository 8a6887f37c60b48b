// Package v is the interface between harnesses and the symbolic executor.
// Natively (when a counterexample is replayed) the inputs come from a recorded
// list; in the executor the functions below marked "intrinsic" are replaced.
package v

import (
	"time"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
)

var (
	inputs []int64
	pos    int
	obs    []string
	dir    string
)

// Failure is the panic value of a failed assertion.
type Failure struct{ Label string }

func (f Failure) Error() string { return "ASSERT " + f.Label }

type stop struct{}

func next() int64 {
	if pos >= len(inputs) {
		panic(stop{}) // ran past the recorded inputs
	}
	x := inputs[pos]
	pos++
	return x
}

// Byte is an arbitrary byte. (intrinsic)
func Byte(label string) byte { return byte(next()) }

// Int is an arbitrary integer with lo <= n <= hi. (intrinsic)
func Int(label string, lo, hi int) int { return int(next()) }

// Int64 is an arbitrary 64-bit integer. (intrinsic)
func Int64(label string) int64 { return next() }

// Bool is an arbitrary truth value. (intrinsic)
func Bool(label string) bool { return next() != 0 }

// Assume restricts attention to executions where c holds. (intrinsic)
func Assume(c bool) {
	if !c {
		panic(stop{})
	}
}

// Assert is the property. (intrinsic)
func Assert(c bool, label string) {
	if !c && asChild == nil {
		panic(Failure{label})
	}
}

// Timers tells whether timers may go off (they may by default). (intrinsic)
func Timers(on bool) {}

// Fail is Assert(false). (intrinsic)
func Fail(label string) { panic(Failure{label}) }

// Observe records a value compared between executor and real run. (intrinsic)
func Observe(label string, x any) { obs = append(obs, label+"="+fmt.Sprint(x)) }

// Reach marks a point that some path must reach. (intrinsic)
func Reach(label string) {}

// Symbolic tells whether the executor is running. (intrinsic)
func Symbolic() bool { return false }

// Thorough tells whether the deep tier is running. (intrinsic)
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// FreeMapOrder makes the iteration order of maps ranged over by booklit's own
// code arbitrary from here on. (intrinsic)
func FreeMapOrder(on bool) {}

// And, Or, Not and EqInt build conditions without branching. (intrinsic)
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// Concrete forks over the possible values of x. (intrinsic)
func Concrete(x int) int { return x }

// Preemptions bounds the switches away from goroutines that could go on. (intrinsic)
func Preemptions(n int) {}

// Fine makes every memory access of booklit's code a scheduling point. (intrinsic)
func Fine(on bool) {}

// Parallel runs the functions concurrently and waits for all of them.
func Parallel(fs ...func()) {
	if !Symbolic() {
		runtime.GOMAXPROCS(4)
	}
	var wg sync.WaitGroup
	errs := make([]any, len(fs))
	for i, f := range fs {
		i, f := i, f // the module's Go version shares loop variables
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			f()
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
}

// Str is an arbitrary string of n bytes.
func Str(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return string(b)
}

// In reports whether c occurs in set, without branching.
func In(c byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = Or(r, c == set[i])
	}
	return r
}

// ByteIn is an arbitrary byte of set.
func ByteIn(label, set string) byte {
	c := Byte(label)
	Assume(In(c, set))
	return c
}

// StrIn is an arbitrary string of n bytes of set.
func StrIn(label string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(label, set)
	}
	return string(b)
}

// Pick is an arbitrary element of xs.
func Pick[T any](label string, xs ...T) T {
	n := Int(label, 0, len(xs)-1)
	for i := 0; i < len(xs)-1; i++ {
		if n == i {
			return xs[i]
		}
	}
	return xs[len(xs)-1]
}

// Len is an arbitrary length up to max, decided at once.
func Len(label string, max int) int { return Concrete(Int(label, 0, max)) }

// Try runs f and reports how it panicked, if it did (assertion failures and
// the executor's own exits pass through).
func Try(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Failure:
				panic(x)
			case stop:
				panic(x)
			case error:
				panicked, msg = true, x.Error()
			case string:
				panicked, msg = true, x
			default:
				panicked, msg = true, "panic"
			}
		}
	}()
	f()
	return
}

// ---- files: real ones natively, modelled (fs.go) in the executor ----

// Dir is the scratch directory holding the files of the run.
func Dir() string {
	if Symbolic() {
		return "/v"
	}
	return dir
}

// WriteFile creates or replaces a file with the given modification time.
func WriteFile(path, content string, mtime int64) {
	if Symbolic() {
		fsPut(path, []byte(content), mtime)
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		panic(err)
	}
	t := fsTime(mtime)
	if err := os.Chtimes(path, t, t); err != nil {
		panic(err)
	}
	if info, err := os.Stat(path); err == nil && !info.ModTime().Equal(t) {
		// a file system without nanoseconds
		t = t.Add(time.Duration(mtime&1) * time.Second / 2)
		if err := os.Chtimes(path, t, t); err != nil {
			panic(err)
		}
	}
}

// RemoveFile removes a file.
func RemoveFile(path string) {
	if Symbolic() {
		fsRemove(path)
		return
	}
	os.Remove(path)
}

// FileLimit lets no file grow beyond n bytes, as if the disk were full; none if
// negative.
func FileLimit(n int) {
	if Symbolic() {
		fsLimit = n
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	limited = n >= 0
}

var limited bool

// ReadFile gives a file's content.
func ReadFile(path string) (string, bool) {
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

// Files lists the names of the files in a directory (not below), sorted.
func Files(d string) []string {
	ms, _ := filepath.Glob(filepath.Join(d, "*"))
	var out []string
	for _, m := range ms {
		if fi, err := os.Stat(m); err == nil && !fi.IsDir() {
			out = append(out, filepath.Base(m))
		}
	}
	return out
}

// ---- native replay ----

type Case struct {
	Harness string   `json:"harness"`
	Inputs  []int64  `json:"inputs"`
	Obs     []string `json:"obs"`
	Repeat  int      `json:"repeat"`
	Dir     string   `json:"dir"`
}

type Outcome struct {
	Status string   `json:"status"` // ok, assert, panic, stop
	Label  string   `json:"label,omitempty"`
	Obs    []string `json:"obs,omitempty"`
	Left   int      `json:"left"`
}

func runOne(c Case, f func()) (o Outcome) {
	inputs, pos, obs = c.Inputs, 0, nil
	d, err := os.MkdirTemp(c.Dir, "run")
	if err != nil {
		panic(err)
	}
	dir = d
	if err := os.Chdir(d); err != nil { // whatever has a relative name stays here
		panic(err)
	}
	current, results = c, nil
	defer os.RemoveAll(d)
	defer func() {
		if limited {
			FileLimit(-1)
		}
		o.Obs = obs
		o.Left = len(inputs) - pos
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Failure:
				o.Status, o.Label = "assert", x.Label
			case stop:
				o.Status = "stop"
			default:
				o.Status, o.Label = "panic", fmt.Sprint(r)
			}
		}
	}()
	f()
	return Outcome{Status: "ok"}
}

// Main reads cases from standard input, one JSON object per line, and writes
// their outcomes.
func Main(hs map[string]func()) {
	if spec := os.Getenv(childEnv); spec != "" {
		runChild(spec, hs)
		return
	}
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var c Case
		if err := dec.Decode(&c); err != nil {
			return
		}
		f, ok := hs[c.Harness]
		if !ok {
			enc.Encode(Outcome{Status: "error", Label: "no harness " + c.Harness})
			continue
		}
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var o Outcome
		for i := 0; i < n; i++ {
			o = runOne(c, f)
			if o.Status != "ok" {
				break
			}
		}
		enc.Encode(o)
	}
}
