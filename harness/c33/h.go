package c33

import (
	"path/filepath"
	"strings"

	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// lines are what a program noted.
func lines(name string) []string {
	s, _ := v.ReadFile(v.Dir() + "/" + name)
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func ran(name string) bool {
	_, ok := v.ReadFile(v.Dir() + "/" + name)
	return ok
}

func value(env []string, key string) string {
	for _, e := range env {
		if strings.HasPrefix(e, key+"=") {
			return e[len(key)+1:]
		}
	}
	return ""
}

// quoted are the strings of Go source: what it imports.
func quoted(src string) []string {
	parts := strings.Split(src, "\"")
	var out []string
	for i := 1; i < len(parts); i += 2 {
		out = append(out, parts[i])
	}
	return out
}

// run runs the command and compares it with what a command with these plugins
// should do.
func run(args, extra, plugins []string, build, status int, plain bool) {
	dir := v.Dir()
	v.Timers(false)
	bin := v.Toolchain(build, status)
	v.WriteFile(dir+"/tmp/keep", "", 1)
	v.WriteFile(dir+"/doc.lit", "\\title{Doc}{doc}\n\nplain text\n", 1)
	env := append([]string{"PATH=" + bin, "TMPDIR=" + dir + "/tmp", "HOME=/x", "OTHER=a b=c"}, extra...)
	r := v.Process(args, env, booklitcmd.Main)
	v.Observe("code", r.Code)
	left, _ := filepath.Glob(dir + "/tmp/*")
	v.Assert(len(left) == 1, "nothing temporary is left")
	if len(plugins) == 0 {
		v.Assert(!ran("build.src") && !ran("run.args"), "nothing is rebuilt")
		v.Assert(r.Code == 0 && lib.Contains(r.Out, "plain text"), "the command builds the document itself")
		v.Reach("direct")
		return
	}
	v.Assert(!lib.Contains(r.Out, "plain text"), "the document is not built by the command itself")
	v.Assert(ran("build.src"), "the command is rebuilt")
	src, _ := v.ReadFile(dir + "/build.src")
	v.Assert(lib.Contains(src, "package main\n"), "as a program")
	imports := quoted(src)
	v.Assert(lib.Count(imports, "github.com/vito/booklit/booklitcmd") == 1 && lib.Contains(src, "booklitcmd.Main()"), "which is the command")
	for _, p := range plugins {
		v.Assert(lib.Count(imports, p) >= 1 && lib.Contains(src, "_ \""+p+"\""), "with every plugin imported")
	}
	for _, i := range imports {
		v.Assert(i == "github.com/vito/booklit/booklitcmd" || lib.Count(plugins, i) > 0, "and no other package")
	}
	benv := lines("build.env")
	v.Assert(value(benv, "HOME") == "/x" && value(benv, "OTHER") == "a b=c", "it is built in the same environment")
	if build != 0 {
		v.Assert(!ran("run.args"), "what is not built is not run")
		v.Assert(r.Code != 0 && r.Err != "", "and that is an error")
		v.Reach("not built")
		return
	}
	v.Assert(ran("run.args"), "the rebuilt command is run")
	got := lines("run.args")
	v.Assert(len(got) == len(args)-1, "with as many arguments")
	for i := range got {
		v.Assert(got[i] == args[i+1], "each the same")
	}
	renv := lines("run.env")
	v.Assert(value(renv, "HOME") == "/x" && value(renv, "OTHER") == "a b=c" && value(renv, "PATH") == bin, "in the same environment")
	for _, e := range extra {
		if e == "BOOKLIT_REEXEC=" {
			continue
		}
		v.Assert(lib.Count(renv, e) == 1, "with all of it")
	}
	v.Assert(r.Out == "program out" && strings.HasSuffix(r.Err, "program err"), "its output is the command's")
	v.Assert(r.Code == status, "its exit status is the command's")
	v.Reach("run")
	// the rebuilt command is this one with plugins
	v.WriteFile(dir+"/build.src", "none", 2)
	v.WriteFile(dir+"/run.args", "none", 2)
	again := v.Process(append([]string{"main"}, got...), renv, booklitcmd.Main)
	src, _ = v.ReadFile(dir + "/build.src")
	now, _ := v.ReadFile(dir + "/run.args")
	v.Assert(src == "none" && now == "none", "which is not rebuilt again")
	if plain {
		v.Assert(again.Code == 0 && lib.Contains(again.Out, "plain text"), "and builds the document itself")
		v.Reach("rebuilt")
	}
}

// any plugins, written in any way
func H_plugins() {
	args := []string{"booklit", "--in", v.Dir() + "/doc.lit"}
	var plugins []string
	for i, n := 0, v.Len("plugins", 3); i < n; i++ {
		p := "p"
		switch v.Pick("name", "short", "long", "same base") {
		case "long":
			p = "example.com/a-b/c.d" + string([]byte{'0' + byte(i)})
		case "same base":
			p = "example.com/" + string([]byte{'a' + byte(i)}) + "/plugin"
		}
		plugins = append(plugins, p)
		switch v.Pick("form", "-p", "--plugin", "--plugin=", "-p=") {
		case "-p":
			args = append(args, "-p", p)
		case "--plugin":
			args = append(args, "--plugin", p)
		case "--plugin=":
			args = append(args, "--plugin="+p)
		default:
			args = append(args, "-p="+p)
		}
	}
	run(args, nil, plugins, v.Pick("build status", 0, 1), 3, true)
}

// any name of a package
func H_names() {
	name := "p" + v.StrIn("name", v.Len("len", depth(3, 5)), "a-./_~9")
	run([]string{"booklit", "--plugin", name, "--in", v.Dir() + "/doc.lit"}, nil, []string{name}, 0, 0, true)
}

// any exit status
func H_status() {
	status := v.Concrete(v.Int("status", 0, 255))
	run([]string{"booklit", "-p", "p", "-i", v.Dir() + "/doc.lit"}, nil, []string{"p"}, 0, status, false)
}

func H_build_status() {
	status := v.Concrete(v.Int("status", 0, 255))
	run([]string{"booklit", "-p", "p", "-i", v.Dir() + "/doc.lit"}, nil, []string{"p"}, status, 0, false)
}

// any arguments
func H_arguments() {
	args := []string{"booklit", "-p", "p", "-i", v.Dir() + "/doc.lit"}
	for i, n := 0, v.Len("more", 2); i < n; i++ {
		switch v.Pick("argument", "option", "switch", "empty", "text") {
		case "option":
			args = append(args, "--section-tag", "x y'\"$z\\n")
		case "switch":
			args = append(args, "-d")
		case "empty":
			args = append(args, "--text-file-extension=", "rest")
		case "text":
			args = append(args, "--out="+v.Dir()+"/"+v.StrIn("text", depth(3, 5), "a *$'=-"))
		}
	}
	var extra []string
	switch v.Pick("environment", "plain", "go", "empty") {
	case "go":
		extra = []string{"GOBIN=/nowhere", "GOFLAGS=-mod=mod"}
	case "empty":
		extra = []string{"EMPTY=", "BOOKLIT_REEXEC="}
	}
	run(args, extra, []string{"p"}, 0, 1, len(args) == 5)
}
