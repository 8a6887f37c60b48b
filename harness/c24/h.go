package c24

import (
	"bytes"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

type engine interface {
	render.Engine
	LoadTemplates(string) error
}

func make(text bool) engine {
	if text {
		return render.NewTextEngine("txt")
	}
	return render.NewHTMLEngine()
}

func document() *booklit.Section {
	secs := lib.Build([]int{-1, 0})
	for i, s := range secs {
		s.SetTitle(booklit.String("t"), s.Location, []string{"root", "child"}[i])
		s.Body = booklit.Paragraph{booklit.String("body"), booklit.String("more")}
		s.Style = []string{"", "a"}[i]
	}
	return secs[0]
}

func page(e engine) string {
	buf := new(bytes.Buffer)
	if err := e.RenderSection(buf, document()); err != nil {
		return "error: " + err.Error()
	}
	return buf.String()
}

// same asserts that an engine behaves as one made for the current templates.
func same(e engine, text bool, dir string) {
	fresh := make(text)
	got, want := e.LoadTemplates(dir), fresh.LoadTemplates(dir)
	v.Assert((got == nil) == (want == nil), "loading fails exactly if a template is invalid")
	if want == nil {
		v.Assert(page(e) == page(fresh), "the current templates are used")
		v.Reach("loaded")
	} else {
		v.Reach("invalid")
	}
}

type file struct {
	path     string
	versions []string
	times    []int64
}

func newFile(path string, versions ...string) *file {
	f := &file{path: path, versions: versions}
	for i := range versions {
		t := v.Int64("time")
		v.Assume(v.And(t >= 0, t < 8))
		for _, u := range f.times[:i] {
			v.Assume(t != u)
		}
		f.times = append(f.times, t)
	}
	return f
}

// change puts a version in place, or removes the file.
func (f *file) change() {
	i := v.Concrete(v.Int("version", 0, len(f.versions)))
	if i == len(f.versions) {
		v.RemoveFile(f.path)
		return
	}
	v.WriteFile(f.path, f.versions[i], f.times[i])
}

// one template
func H_template() {
	dir, text := v.Dir(), v.Bool("text")
	f := newFile(dir+"/"+v.Pick("name", "paragraph", "a", "page", "string")+".tmpl", "one", "two {{printf \"%T\" .}}", "bad {{")
	e := make(text)
	for i := 0; i < depth(3, 4); i++ {
		f.change()
		same(e, text, dir)
		same(e, text, dir)
	}
}

// several templates, one of which defines another
func H_templates() {
	dir, text := v.Dir(), v.Bool("text")
	files := []*file{
		newFile(dir+"/a.tmpl", "A {{.Body | render}}", "B {{template \"b.tmpl\" .}}", "{{bad}}"),
		newFile(dir+"/b.tmpl", "b", "{{define \"c.tmpl\"}}c{{end}}b{{template \"c.tmpl\"}}"),
		newFile(dir+"/paragraph.tmpl", "P", "Q {{range .}}{{. | render}},{{end}}", "{{end}}"),
	}
	e := make(text)
	for i := 0; i < depth(2, 3); i++ {
		files[v.Concrete(v.Int("file", 0, 2))].change()
		same(e, text, dir)
	}
	same(e, text, dir)
}

// a file takes another's place
func H_renamed() {
	dir, text := v.Dir(), v.Bool("text")
	e := make(text)
	names := []string{"a", "paragraph", "page", "string"}
	last := ""
	for i := 0; i < depth(3, 4); i++ {
		if last != "" {
			v.RemoveFile(dir + "/" + last + ".tmpl")
		}
		last = v.Pick("name", names...)
		v.WriteFile(dir+"/"+last+".tmpl", "X", 3)
		same(e, text, dir)
	}
}

// directories take turns
func H_directories() {
	text := v.Bool("text")
	dirs := []string{v.Dir() + "/one", v.Dir() + "/two", v.Dir() + "/none"}
	one := newFile(dirs[0]+"/paragraph.tmpl", "P", "Q", "{{bad")
	v.WriteFile(dirs[1]+"/paragraph.tmpl", "R", 3)
	if v.Thorough() && v.Bool("more") {
		v.WriteFile(dirs[1]+"/a.tmpl", "A", 3)
	}
	e := make(text)
	for i := 0; i < depth(3, 4); i++ {
		if i != 1 {
			one.change()
		}
		same(e, text, dirs[v.Concrete(v.Int("dir", 0, 2))])
	}
}

// directories of any name, with other files beside the templates
func H_names() {
	text := v.Bool("text")
	parent := v.Dir()
	dir := parent + "/" + v.Pick("dir", "t", "t[1]", "t*", "t?", "[!t]", "a\\[b", "{t}", "a b", "\u00e9", "%74", ".t", "t.tmpl", "-t", "~")
	others := []string{parent + "/t1", parent + "/t", parent + "/tx", parent + "/[t"}
	e := make(text)
	bundled := page(e)
	v.WriteFile(dir+"/readme.md", "{{", 3)
	for i, o := range others {
		if o != dir && v.Thorough() || i < 2 {
			v.WriteFile(o+"/unrelated.md", "x", 3)
		}
	}
	v.Assert(lib.Contains(bundled, "more") && e.LoadTemplates(dir) == nil && page(e) == bundled, "no template, no difference")
	for _, o := range others {
		if o != dir {
			v.WriteFile(o+"/paragraph.tmpl", "other", 3)
		}
	}
	v.WriteFile(dir+"/sub/paragraph.tmpl", "{{nested", 3)
	v.WriteFile(dir+"/"+v.Pick("beside", "paragraph.tmpl.bak", "paragraph.tmp", "paragraphtmpl", "paragraph.TMPL", "paragraph"), "{{beside", 3)
	v.Assert(e.LoadTemplates(dir) == nil && page(e) == bundled, "only templates in the directory itself count")
	v.WriteFile(dir+"/paragraph.tmpl", "MINE", 4)
	v.Assert(e.LoadTemplates(dir+v.Pick("slash", "", "/", "/.")) == nil, "the directory loads")
	v.Assert(lib.Contains(page(e), "MINE"), "its templates are used")
	v.Assert(!lib.Contains(page(e), "more"), "instead of the bundled ones")
	v.RemoveFile(dir + "/paragraph.tmpl")
	v.Assert(e.LoadTemplates(dir) == nil && page(e) == bundled, "the bundled ones are back")
	v.Assert(e.LoadTemplates(dir+"/missing") != nil, "a directory that is not there is an error")
	v.Reach("names")
}

// two templates in use, of which either changes
func H_pair() {
	dir, text := v.Dir(), v.Bool("text")
	files := []*file{
		newFile(dir+"/a.tmpl", "A {{.Body | render}}", "B {{.Body | render}}"),
		newFile(dir+"/paragraph.tmpl", "P", "Q {{range .}}{{. | render}},{{end}}"),
	}
	for _, f := range files {
		v.WriteFile(f.path, f.versions[0], f.times[0])
	}
	e := make(text)
	same(e, text, dir)
	for i := 0; i < depth(2, 4); i++ {
		f := files[v.Concrete(v.Int("file", 0, 1))]
		k := v.Concrete(v.Int("version", 0, 1))
		v.WriteFile(f.path, f.versions[k], f.times[k])
		same(e, text, dir)
	}
	v.Reach("pair")
}
