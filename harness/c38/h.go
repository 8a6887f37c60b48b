package c38

import (
	"os"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// direct runs a command whose options are set already.
func direct(cmd *booklitcmd.Command) (string, error) {
	path := v.Dir() + "/stdout"
	f, err := os.Create(path)
	v.Assert(err == nil, "scratch file")
	old := os.Stdout
	os.Stdout = f
	err = cmd.Execute(nil)
	os.Stdout = old
	f.Close()
	booklit.AllowBrokenReferences = false
	out, _ := v.ReadFile(path)
	return out, err
}

// with writes an option with a value in any way.
func with(form, short, long, value string) []string {
	switch {
	case form == "-x v" && short != "":
		return []string{"-" + short, value}
	case form == "-xv" && short != "":
		return []string{"-" + short + value}
	case form == "--x v" || form == "-x v":
		return []string{"--" + long, value}
	}
	return []string{"--" + long + "=" + value}
}

func files(d string) map[string]string {
	out := map[string]string{}
	for _, f := range v.Files(d) {
		out[f], _ = v.ReadFile(d + "/" + f)
	}
	return out
}

// same compares what a command line does with what the options say.
func same(args []string, cmd *booklitcmd.Command) {
	var want map[string]string
	out, err := direct(cmd)
	want = files(v.Dir() + "/direct")
	r := v.Process(append([]string{"booklit"}, args...), []string{"PATH=/nowhere"}, booklitcmd.Main)
	got := files(v.Dir() + "/out")
	v.Assert((r.Code == 0) == (err == nil), "the exit status tells success")
	v.Assert(r.Out == out, "the same is printed")
	v.Assert(len(got) == len(want), "the same files are written")
	for name, s := range want {
		v.Assert(got[name] == s, "with the same content")
	}
	if err != nil {
		v.Assert(r.Err != "", "a failure is reported")
		v.Reach("fails")
		return
	}
	v.Reach("succeeds")
}

const doc = "\\title{Doc}{doc}\n\n\\split-sections\n\ntext & \\bold{text}\n\n\\section{\n\\title{A}{a}\n\nin a\n}\n"

// every option, in every form, in both orders
func H_options() {
	v.Timers(false)
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", doc, 1)
	v.WriteFile(dir+"/more.lit", "\\title{More}{more}\n\n\\reference{zz}{broken}\n", 1)
	v.WriteFile(dir+"/h/bold.tmpl", "<mine>{{.Content | render}}</mine>", 1)
	v.WriteFile(dir+"/t/bold.tmpl", "mine({{.Content | render}})", 1)
	v.WriteFile(dir+"/t/reference.tmpl", "ref({{.Content | render}})", 1)
	cmd := &booklitcmd.Command{In: dir + "/doc.lit"}
	form := v.Pick("form", "--x v", "--x=v", "-x v", "-xv")
	args := with(form, "i", "in", cmd.In)
	first := v.Bool("first")
	add := func(on bool, more func() []string) {
		if !on {
			return
		}
		if a := more(); first {
			args = append(a, args...)
		} else {
			args = append(args, a...)
		}
	}
	// a few options at a time, and an output directory or not
	options := []string{"section-tag", "section-path", "index", "extension", "text templates", "html templates", "allow", "threshold", "debug"}
	for i := 0; i < depth(2, 4); i++ {
		k := v.Len("option", len(options))
		if k == len(options) {
			break
		}
		option := options[k]
		options = options[k+1:]
		switch option {
		case "section-tag":
			cmd.SectionTag = v.Pick("tag", "a", "zz")
			add(true, func() []string { return with(form, "", "section-tag", cmd.SectionTag) })
		case "section-path":
			cmd.SectionPath = dir + "/more.lit"
			add(true, func() []string { return with(form, "", "section-path", cmd.SectionPath) })
		case "index":
			cmd.SaveSearchIndex = true
			add(true, func() []string { return []string{"--save-search-index"} })
		case "extension":
			cmd.TextEngine.FileExtension = "md"
			add(true, func() []string { return with(form, "", "text-file-extension", "md") })
		case "text templates":
			cmd.TextEngine.Templates = dir + "/t"
			add(true, func() []string { return with(form, "", "text-templates", dir+"/t") })
		case "html templates":
			cmd.HTMLEngine.Templates = dir + "/h"
			add(true, func() []string { return with(form, "", "html-templates", dir+"/h") })
		case "allow":
			cmd.AllowBrokenReferences = true
			add(true, func() []string { return []string{"--allow-broken-references"} })
		case "threshold":
			cmd.SlowInvokeThreshold = 90 * time.Minute
			add(true, func() []string { return with(form, "", "slow-invoke-threshold", "1h30m") })
		case "debug":
			add(true, func() []string { return []string{v.Pick("debug", "-d", "--debug")} })
		}
	}
	if v.Bool("out") {
		cmd.Out = dir + "/direct"
		add(true, func() []string { return with(form, "o", "out", dir+"/out") })
	}
	same(args, cmd)
}

// documents that fail
func H_failures() {
	v.Timers(false)
	dir := v.Dir()
	cmd := &booklitcmd.Command{In: dir + "/doc.lit"}
	args := []string{"--in", cmd.In}
	if v.Bool("out") {
		cmd.Out = dir + "/direct"
		args = append(args, "--out", dir+"/out")
	}
	text := "\\title{Doc}{doc}\n\n"
	word := ""
	switch v.Pick("why", "missing", "syntax", "undefined", "failed", "broken", "ambiguous", "title", "include", "none") {
	case "syntax":
		text += "text }\n"
		word = "3"
	case "undefined":
		text += "\\nope\n"
		word = "nope"
	case "failed":
		text += "\\use-plugin{zz}\n"
		word = "zz"
	case "broken":
		text += "\\reference{zz}\n"
		word = "zz"
	case "ambiguous":
		text += "\\target{zz}\\target{zz}\\reference{zz}\n"
		word = "zz"
	case "title":
		text += "\\title{again}\n"
		word = "title"
	case "include":
		text += "\\include-section{zz.lit}\n"
		word = "zz.lit"
	case "missing":
		text = ""
		word = "doc.lit"
	}
	if text != "" {
		v.WriteFile(cmd.In, text, 1)
	}
	_, err := direct(cmd)
	v.Assert((err == nil) == (word == ""), "as expected")
	r := v.Process(append([]string{"booklit"}, args...), []string{"PATH=/nowhere"}, booklitcmd.Main)
	if word == "" {
		v.Assert(r.Code == 0, "the exit status tells success")
		return
	}
	v.Assert(r.Code == 1, "the exit status tells failure")
	v.Assert(lib.Contains(r.Err, word) && lib.Contains(r.Err, "doc.lit"), "with a report of the cause")
	v.Assert(!lib.Contains(r.Out, "</html>"), "no page is shown")
	v.Reach("reported")
}

// command lines that are wrong, or ask about the command
func H_lines() {
	v.Timers(false)
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", doc, 1)
	args := []string{"booklit"}
	in := []string{"-i", dir + "/doc.lit"}
	late := v.Bool("late")
	if late {
		args = append(args, in...)
	}
	kind := v.Pick("kind", "no input", "unknown", "unknown short", "no value", "duration", "port", "value", "help", "version", "short version")
	bad := true
	switch kind {
	case "unknown":
		args = append(args, "--nope")
	case "unknown short":
		args = append(args, "-z")
	case "duration":
		args = append(args, "--slow-invoke-threshold", v.StrIn("duration", 2, "ax!"))
	case "port":
		args = append(args, "--serve", "x")
	case "value":
		args = append(args, "--debug=maybe")
	case "help":
		args = append(args, v.Pick("help", "-h", "--help"))
		bad = false
	case "version":
		args = append(args, "--version")
		bad = false
	case "short version":
		args = append(args, "-v")
		bad = false
	}
	if !late && kind != "no input" {
		args = append(args, in...)
	}
	if kind == "no value" {
		args = append(args, "--out")
	}
	if kind == "no input" {
		args = []string{"booklit", "-o", dir + "/out"}
	}
	r := v.Process(args, []string{"PATH=/nowhere"}, booklitcmd.Main)
	v.Assert(!lib.Contains(r.Out, "</html>") && len(v.Files(dir+"/out")) == 0, "nothing is built")
	v.Assert((r.Code == 0) == !bad, "the exit status tells whether the command line was right")
	if bad {
		v.Assert(r.Out+r.Err != "", "what is wrong is told")
		v.Reach("wrong")
		return
	}
	if kind == "help" {
		for _, o := range []string{"--in", "--out", "--plugin", "--section-tag", "--serve"} {
			v.Assert(lib.Contains(r.Out, o), "the options are listed")
		}
		v.Reach("help")
		return
	}
	v.Assert(strings.TrimSpace(r.Out) == booklit.Version, "the version is printed")
	v.Reach("version")
}

// any value of an option
func H_values() {
	v.Timers(false)
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", "\\title{Doc}{a}\n\ntext\n\n\\section{\n\\title{A}{b=}\n\nin a\n}\n", 1)
	cmd := &booklitcmd.Command{In: dir + "/doc.lit"}
	args := []string{"-i", cmd.In}
	text := v.StrIn("text", v.Len("length", depth(3, 4)), "ab =-$*%'\\<>{}.,~#&")
	if text == "" {
		return
	}
	if v.Bool("tag") {
		cmd.SectionTag = text
		args = append(args, "--section-tag="+text)
	} else {
		cmd.TextEngine.FileExtension = text
		args = append(args, "--text-file-extension="+text)
		cmd.Out = dir + "/direct"
		args = append(args, "--out="+dir+"/out")
	}
	same(args, cmd)
}

// names relative to the working directory
func H_relative() {
	v.Timers(false)
	dir := v.Dir()
	v.WriteFile(dir+"/src/doc.lit", "\\title{Doc}{doc}\n\n\\split-sections\n\n\\bold{text}\n\n\\include-section{sub/a.lit}\n\n\\include-section{./sub/../b.lit}\n", 1)
	v.WriteFile(dir+"/src/sub/a.lit", "\\title{A}{a}\n\nin a\n\n\\include-section{../b.lit}\n", 1)
	v.WriteFile(dir+"/src/b.lit", "\\title{B}\n\nin b\n", 1)
	v.WriteFile(dir+"/h/bold.tmpl", "<mine>{{.Content | render}}</mine>", 1)
	cmd := &booklitcmd.Command{In: dir + "/src/doc.lit"}
	name := func(label, s string) string {
		return v.Pick(label, "", "./", "src/../", "../"+base(dir)+"/", dir+"/") + s
	}
	args := []string{"--in", name("in", "src/doc.lit")}
	if v.Bool("more") {
		cmd.SectionPath = dir + "/src/sub/a.lit"
		args = append(args, "--section-path", name("section", "src/sub/a.lit"))
	} else {
		cmd.HTMLEngine.Templates = dir + "/h"
		args = append(args, "--html-templates", name("templates", "h"))
	}
	if v.Bool("out") {
		cmd.Out = dir + "/direct"
		cmd.SaveSearchIndex = true
		args = append(args, "--save-search-index", "--out", name("out", "out")+v.Pick("end", "", "/", "/."))
	}
	same(args, cmd)
}

func base(path string) string {
	return path[strings.LastIndex(path, "/")+1:]
}
