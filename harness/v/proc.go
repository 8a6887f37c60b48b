package v

// Programs: real processes natively, modelled in the executor.

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

// Result is how a program ended.
type Result struct {
	Code     int
	Out, Err string
}

// Process runs f as a program with its own arguments and environment, until it
// returns or exits.
func Process(args, env []string, f func()) Result {
	if !Symbolic() {
		return process(args, env, f)
	}
	oldArgs, oldEnv, oldOut, oldErr := os.Args, procEnv, os.Stdout, os.Stderr
	out, _ := OsCreate("/v/.stdout")
	err, _ := OsCreate("/v/.stderr")
	os.Args, procEnv, os.Stdout, os.Stderr = args, append([]string{}, env...), out, err
	cwd := fsCwd
	code := untilExit(f)
	fsCwd = cwd
	os.Args, procEnv, os.Stdout, os.Stderr = oldArgs, oldEnv, oldOut, oldErr
	r := Result{code & 255, string(fsHandles[out].node.data), string(fsHandles[err].node.data)}
	fsRemove("/v/.stdout")
	fsRemove("/v/.stderr")
	return r
}

// intrinsic
func untilExit(f func()) int { return 0 }

// child tells a replay that it is a program of a case.
type child struct {
	Case    Case
	Dir     string
	Results []Result
	Args    []string
	Env     []string
}

var (
	current Case
	asChild *child
	results []Result
)

const childEnv = "VERIF_CHILD"

func process(args, env []string, f func()) Result {
	if asChild != nil {
		if len(results) < len(asChild.Results) {
			r := asChild.Results[len(results)]
			results = append(results, r)
			return r
		}
		// what the harness read may have changed since
		os.Args = asChild.Args
		os.Clearenv()
		for _, e := range asChild.Env {
			if i := strings.Index(e, "="); i > 0 {
				os.Setenv(e[:i], e[i+1:])
			}
		}
		f()
		os.Exit(0)
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, err := json.Marshal(child{current, dir, results, args, env})
	if err != nil {
		panic(err)
	}
	var out, errs bytes.Buffer
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), childEnv+"="+string(b))
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	r := Result{cmd.ProcessState.ExitCode(), out.String(), errs.String()}
	if r.Code == 2 && strings.Contains(r.Err, "\ngoroutine ") {
		panic(r.Err)
	}
	results = append(results, r)
	return r
}

// runChild is the program of a case.
func runChild(spec string, hs map[string]func()) {
	c := &child{}
	if err := json.Unmarshal([]byte(spec), c); err != nil {
		panic(err)
	}
	asChild = c
	inputs, pos, dir = c.Case.Inputs, 0, c.Dir
	hs[c.Case.Harness]()
}

// Toolchain provides a program go that builds programs which note their
// arguments and environment, print what they are, and exit with the given
// status; both are noted in Dir, and the directory of go is returned.
func Toolchain(build, run int) string {
	bin := Dir() + "/bin"
	if Symbolic() {
		goBuild, goRun = build, run
		return bin
	}
	if asChild != nil {
		return bin
	}
	prog := "#!/bin/sh\n" +
		"for a in \"$@\"; do printf '%s\\n' \"$a\"; done > '" + Dir() + "/run.args'\n" +
		"/usr/bin/env > '" + Dir() + "/run.env'\n" +
		"printf 'program out'\nprintf 'program err' >&2\nexit " + strconv.Itoa(run) + "\n"
	WriteFile(Dir()+"/program", prog, 1)
	script := "#!/bin/sh\n" +
		"for a in \"$@\"; do printf '%s\\n' \"$a\"; src=\"$a\"; done > '" + Dir() + "/build.args'\n" +
		"/usr/bin/env > '" + Dir() + "/build.env'\n" +
		"case \"$src\" in *.go) ;; *) src=\"$src/main.go\";; esac\n" +
		"/bin/cat \"$src\" > '" + Dir() + "/build.src'\n" +
		"[ " + strconv.Itoa(build) + " = 0 ] || exit " + strconv.Itoa(build) + "\n" +
		"name=\"${src##*/}\"; out=\"$GOBIN/${name%.go}\"\n" +
		"[ \"$1\" = build ] && while [ $# -gt 0 ]; do [ \"$1\" = -o ] && out=\"$2\"; shift; done\n" +
		"/bin/cp '" + Dir() + "/program' \"$out\" && /bin/chmod 755 \"$out\"\n"
	WriteFile(bin+"/go", script, 1)
	if err := os.Chmod(bin+"/go", 0o755); err != nil {
		panic(err)
	}
	return bin
}

// ---- the model ----

var (
	procEnv        []string
	goBuild, goRun int
	cmdCodes       = map[*exec.Cmd]int{}
	procCodes      = map[*os.ProcessState]int{}
)

func OsLookupEnv(key string) (string, bool) {
	for i := len(procEnv) - 1; i >= 0; i-- {
		if strings.HasPrefix(procEnv[i], key+"=") {
			return procEnv[i][len(key)+1:], true
		}
	}
	return "", false
}

func OsGetenv(key string) string {
	s, _ := OsLookupEnv(key)
	return s
}

func OsEnviron() []string { return append([]string{}, procEnv...) }

func OsSetenv(key, value string) error {
	OsUnsetenv(key)
	procEnv = append(procEnv, key+"="+value)
	return nil
}

func OsUnsetenv(key string) error {
	var out []string
	for _, e := range procEnv {
		if !strings.HasPrefix(e, key+"=") {
			out = append(out, e)
		}
	}
	procEnv = out
	return nil
}

func OsClearenv() { procEnv = nil }

func ExecLookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		return file, nil
	}
	if file == "go" {
		return "/v/bin/go", nil
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

func CmdStart(c *exec.Cmd) error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	c.Process = &os.Process{Pid: 1000 + len(cmdCodes)}
	env := c.Env
	if env == nil {
		env = procEnv
	}
	get := func(key string) string {
		for i := len(env) - 1; i >= 0; i-- {
			if strings.HasPrefix(env[i], key+"=") {
				return env[i][len(key)+1:]
			}
		}
		return ""
	}
	// the last of several values counts
	shown := ""
	for i, e := range env {
		k := strings.Index(e, "=")
		last := k > 0
		for _, o := range env[i+1:] {
			last = last && !strings.HasPrefix(o, e[:k+1])
		}
		if last {
			shown += e + "\n"
		}
	}
	args := ""
	for _, a := range c.Args[1:] {
		args += a + "\n"
	}
	path := func(p string) string {
		if !filepath.IsAbs(p) && c.Dir != "" {
			return filepath.Join(c.Dir, p)
		}
		return p
	}
	if c.Path == "/v/bin/go" {
		fsPut("/v/build.args", []byte(args), 1)
		fsPut("/v/build.env", []byte(shown), 1)
		src := path(c.Args[len(c.Args)-1])
		if !strings.HasSuffix(src, ".go") {
			src += "/main.go"
		}
		b, err := OsReadFile(src)
		fsPut("/v/build.src", b, 1)
		if err != nil && goBuild == 0 {
			cmdCodes[c] = 1
			return nil
		}
		cmdCodes[c] = goBuild
		if goBuild != 0 {
			return nil
		}
		out := get("GOBIN") + "/" + strings.TrimSuffix(filepath.Base(src), ".go")
		for i, a := range c.Args {
			if c.Args[1] == "build" && a == "-o" {
				out = path(c.Args[i+1])
			}
		}
		if !fsIsDir(filepath.Dir(fsClean(out))) {
			cmdCodes[c] = 1
			return nil
		}
		fsPut(out, []byte("#!program"), 1)
		return nil
	}
	n, err := fsLookup("fork/exec", c.Path)
	if err != nil {
		return err
	}
	if string(n.data) != "#!program" {
		return fsErr("fork/exec", c.Path, syscall.ENOEXEC)
	}
	fsPut("/v/run.args", []byte(args), 1)
	fsPut("/v/run.env", []byte(shown), 1)
	if c.Stdout != nil {
		io.WriteString(c.Stdout, "program out")
	}
	if c.Stderr != nil {
		io.WriteString(c.Stderr, "program err")
	}
	cmdCodes[c] = goRun
	return nil
}

func CmdWait(c *exec.Cmd) error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	c.ProcessState = new(os.ProcessState)
	procCodes[c.ProcessState] = cmdCodes[c]
	if cmdCodes[c] != 0 {
		return &exec.ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func ProcExitCode(p *os.ProcessState) int {
	if p == nil {
		return -1
	}
	return procCodes[p]
}
func ProcSuccess(p *os.ProcessState) bool { return procCodes[p] == 0 }
func ProcExited(p *os.ProcessState) bool  { return true }
func ProcString(p *os.ProcessState) string {
	return "exit status " + strconv.Itoa(procCodes[p])
}
