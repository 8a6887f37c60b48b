package c23

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func show(s *booklit.Section) string {
	out := "[" + lib.TokString(s.Title) + "|" + lib.TokString(s.Body) + "|" + s.Style + "|" + s.FilePath() + "|" + s.PrimaryTag.Name + "|"
	for _, t := range s.Tags {
		out += t.Name + "#" + t.Anchor + "(" + lib.TokString(t.Title) + ")" + strconv.Itoa(t.Location.Line) + ","
	}
	for _, c := range s.Children {
		if c.Parent != s {
			out += "not the parent"
		}
		out += show(c)
	}
	return out + "]"
}

func result(p *load.Processor, path string) string {
	s, err := p.LoadFile(path, lib.Base())
	if err != nil {
		return "error: " + err.Error()
	}
	return show(s)
}

// same asserts that a processor loads what a fresh one does.
func same(p *load.Processor, path string) {
	v.Assert(result(p, path) == result(&load.Processor{}, path), "loading is as from scratch")
}

// A file has a few versions, each at a time of its own; the last is no file.
type file struct {
	path     string
	versions []string
	times    []int64
	missing  bool
}

func newFile(path string, missing bool, versions ...string) *file {
	f := &file{path: path, versions: versions, missing: missing}
	for i := range versions {
		t := v.Int64("time")
		v.Assume(v.And(t >= 0, t < 8))
		for _, u := range f.times[:i] {
			v.Assume(t != u)
		}
		f.times = append(f.times, t)
	}
	return f
}

func (f *file) put(i int) {
	if i == len(f.versions) {
		v.RemoveFile(f.path)
		return
	}
	v.WriteFile(f.path, f.versions[i], f.times[i])
}

func (f *file) change() {
	n := len(f.versions)
	if !f.missing {
		n--
	}
	f.put(v.Concrete(v.Int("version", 0, n)))
}

// one file
func H_file() {
	f := newFile(v.Dir()+"/doc.lit", true,
		"\\title{A}{a}\n\n\\target{x} one\n",
		"\\title{A}{a}\n\n\\target{x} one\n", // touched
		"\\title{B}{b}\n\n\\section{\n\\title{C}{c}\n\ntwo\n}\n",
		"\\title{A}{a}\n\none {\n",
		"\\title{A}{a}\n\n\\unknown-function\n")
	p := &load.Processor{}
	for i := 0; i < depth(3, 4); i++ {
		f.change()
		same(p, f.path)
		if !v.Thorough() || v.Bool("again") {
			same(p, f.path)
		}
	}
	v.Reach("one")
}

// included files, one of the name of another in a different directory
func H_included() {
	dir := v.Dir()
	files := []*file{
		newFile(dir+"/doc.lit", true,
			"\\title{A}{a}\n\n\\include-section{sub/doc.lit}\n\n\\target{x} text\n",
			"\\title{B}{b}\n\ntext\n\n\\include-section{sub/two.lit}\n\n\\include-section{sub/doc.lit}\n",
			"\\title{A}{a}\n\n\\include-section{sub/doc.lit}\n\n\\include-section{sub/doc.lit}\n\n\\unknown-function\n"),
		newFile(dir+"/sub/doc.lit", true,
			"\\title{One}{one}\n\n\\styled{s}\n\none\n\n\\include-section{two.lit}\n",
			"\\title{Uno}{uno}\n\nuno\n",
			"\\title{One}{one}\n\none }\n"),
		newFile(dir+"/sub/two.lit", true,
			"\\title{Two}{two}\n\ntwo\n",
			"\\title{Dos}{dos}\n\n\\section{\n\\title{Deep}{deep}\n}\n",
			"\\unknown-function\n"),
	}
	for _, f := range files {
		f.put(0)
	}
	p := &load.Processor{}
	same(p, files[0].path)
	for i := 0; i < depth(2, 3); i++ {
		f := files[v.Concrete(v.Int("file", 0, 2))]
		f.change()
		same(p, files[0].path)
	}
	same(p, files[0].path)
	v.Reach("included")
}

// several changes at once, and either document of two that share a file
func H_shared() {
	dir := v.Dir()
	one := newFile(dir+"/one.lit", false, "\\title{One}{one}\n\n\\include-section{both.lit}\n", "\\title{Uno}{uno}\n\nuno\n")
	two := newFile(dir+"/two.lit", false, "\\title{Two}{two}\n\n\\include-section{both.lit}\n\n\\include-section{one.lit}\n", "\\title{Two}{two}\n\ntwo }\n")
	both := newFile(dir+"/both.lit", true, "\\title{Both}{both}\n", "\\title{Both}{both}\n\n\\target{x}\n", "\\title")
	one.put(0)
	two.put(0)
	both.put(0)
	p := &load.Processor{}
	for i := 0; i < depth(2, 3); i++ {
		if v.Bool("change one") {
			one.change()
		}
		if v.Bool("change both") {
			both.change()
		}
		if v.Thorough() && i > 0 && v.Bool("change two") {
			two.change()
		}
		if i == 0 || v.Bool("one first") {
			same(p, one.path)
		}
		same(p, two.path)
	}
	v.Reach("shared")
}

// preformatted text, comments, arguments of every form: what is kept of a
// file is not changed by loading it
func H_content() {
	dir := v.Dir()
	src := v.Pick("doc",
		"\\title{A}{a}\n\na\\bold{b\nc} d\ne \\unknown\n",
		"\\title{A}{a}\n\n\\code{{\n  a\n    \\bold{b}\n}}\n\n\\code{{{x}}}\\italic{}\n",
		"\\title{A\\aux{x}}\n\n\\list{a}{\n  b\n\n  c\n}\n\n{- x -}\\definitions{\\definition{a}{b}}\n",
		"\\title{A}{a}\n\n\\section{\n\\title{B}{b}\n\n\\target{t}{T}{c} \\reference{a}\n}\n\n\\table{\\table-row{a}{b}}\n")
	v.WriteFile(dir+"/doc.lit", src, 5)
	p := &load.Processor{}
	first := result(p, dir+"/doc.lit")
	for i := 0; i < depth(2, 3); i++ {
		v.Assert(result(p, dir+"/doc.lit") == first, "loading again is the same")
	}
	v.WriteFile(dir+"/root.lit", "\\title{R}{r}\n\n\\include-section{doc.lit}\n\n\\include-section{doc.lit}\n", 5)
	same(p, dir+"/root.lit")
	v.Reach("content")
}
