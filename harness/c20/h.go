package c20

import (
	"bytes"
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

type engine interface {
	render.Engine
	LoadTemplates(string) error
}

func engines() engine {
	if v.Bool("text") {
		return render.NewTextEngine("txt")
	}
	return render.NewHTMLEngine()
}

func out(e engine, sec *booklit.Section) string {
	buf := new(bytes.Buffer)
	err := e.RenderSection(buf, sec)
	v.Assert(err == nil, "renders")
	return buf.String()
}

// marks are the words of a page that tell the templates used: @NAME for a
// template of ours, and titles.
func marks(s string) []string {
	var out []string
	for i := 0; i < len(s); i++ {
		if s[i] != '@' {
			continue
		}
		k := i
		for k < len(s) && s[k] != ';' {
			k++
		}
		out = append(out, s[i+1:k])
	}
	return out
}

func same(got, want []string) {
	v.Assert(len(got) == len(want), "as many templates as sections and pages")
	for i := range got {
		v.Assert(got[i] == want[i], "the template of the section's style is used, or else the standard one")
	}
	v.Reach("styles")
}

const sectionTmpl = "@%;{{.Title | render}}{{range .Children}}{{. | render}}{{end}}@/%;"
const pageTmpl = "@%;{{. | render}}@/%;"

func fill(tmpl, name string) string {
	out := ""
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '%' {
			out += name
		} else {
			out += tmpl[i : i+1]
		}
	}
	return out
}

type set map[string]bool

// templates writes some of the templates.
func templates(dir string, names ...string) set {
	has := set{}
	v.WriteFile(dir+"/other.txt", "{{not a template", 1)
	for _, n := range names {
		if v.Bool(n) {
			has[n] = true
			t := sectionTmpl
			if lib.Contains(n, "page") {
				t = pageTmpl
			}
			v.WriteFile(dir+"/"+n+".tmpl", fill(t, n)+"\n\n", 1)
		}
	}
	return has
}

func (has set) section(s *booklit.Section) []string {
	name := "section"
	if s.Style != "" && has[s.Style] {
		name = s.Style
	}
	var out []string
	if has[name] {
		out = append(out, name)
	}
	if name == "section" && !has[name] {
		// the bundled one shows the title, the body, and the children
		out = append(out, s.Title.String()[1:3], "body")
		if !s.SplitSections {
			for _, c := range s.Children {
				out = append(out, has.section(c)...)
			}
		}
		return out
	}
	out = append(out, s.Title.String()[1:3])
	for _, c := range s.Children {
		out = append(out, has.section(c)...)
	}
	return append(out, "/"+name)
}

func (has set) page(s *booklit.Section) []string {
	name := "page"
	if s.Style != "" && has[s.Style+"-page"] {
		name = s.Style + "-page"
	}
	if !has[name] {
		// the bundled one shows the title once more
		return append([]string{s.Title.String()[1:3]}, has.section(s)...)
	}
	return append(append([]string{name}, has.section(s)...), "/"+name)
}

func document(parents []int, style func(i int) string) *booklit.Section {
	secs := lib.Build(parents)
	for i, s := range secs {
		s.SetTitle(booklit.String("@t"+strconv.Itoa(i)+";"), s.Location, "s"+strconv.Itoa(i))
		s.Body = booklit.Paragraph{booklit.String("@body;")}
		s.Style = style(i)
	}
	return secs[0]
}

func pick(label string, names ...string) string { return v.Pick(label, names...) }

// any styles with any templates
func H_styles() {
	dir := v.Dir()
	names := []string{"a", "a-page", "page", "section"}
	if v.Thorough() {
		names = append(names, "b", "b-page")
	}
	e := engines()
	has := templates(dir, names...)
	v.Assert(e.LoadTemplates(dir) == nil, "templates load")
	root := document(lib.Shape(depth(2, 3)), func(int) string { return pick("style", "", "a", "b") })
	lib.Walk(root, func(s *booklit.Section) {
		if len(s.Children) > 0 {
			s.SplitSections = v.Bool("split")
		}
	})
	lib.Walk(root, func(s *booklit.Section) { same(marks(out(e, s)), has.page(s)) })
	// and without regard to what was rendered before
	same(marks(out(e, root)), has.page(root))
}

// styles of any names, bundled templates' among them
func H_names() {
	dir := v.Dir()
	e := engines()
	names := []string{"list", "bold", "toc", "a.b", "x y", "\u00e9", "A", "section"}
	i := v.Len("name", len(names)-1)
	name := names[i]
	has := templates(dir, name, name+"-page", "page")
	v.Assume(has[name] || i > 2)
	v.Assert(e.LoadTemplates(dir) == nil, "templates load")
	which := v.Concrete(v.Int("which", 0, 2))
	root := document([]int{-1, 0}, func(i int) string {
		if i == which || which == 2 {
			return name
		}
		return ""
	})
	lib.Walk(root, func(s *booklit.Section) { same(marks(out(e, s)), has.page(s)) })
}

// styles next to each other, as declared in documents
func H_declared() {
	dir := v.Dir()
	e := engines()
	has := templates(dir, "a", "a-page", "b")
	v.Assert(e.LoadTemplates(dir) == nil, "templates load")
	styles := []string{}
	styled := func() string {
		s := pick("style", "", "a", "b")
		styles = append(styles, s)
		if s == "" {
			return ""
		}
		return "\\styled{" + s + "}\n\n"
	}
	one, two, three := styled(), styled(), styled()
	late := v.Bool("late")
	src := "\\title{@t0;}{s0}\n\n"
	if !late {
		src += one
	}
	src += "@body;\n\n\\section{\n\\title{@t1;}{s1}\n\n" + two + "@body;\n}\n\n\\section{\n" + three + "\\title{@t2;}{s2}\n\n@body;\n}\n\n"
	if late {
		src += one
	}
	root, err := lib.Load(src)
	v.Assert(err == nil, "loads")
	for i, s := range []*booklit.Section{root, root.Children[0], root.Children[1]} {
		v.Assert(s.Style == styles[i], "a style is for its section")
		same(marks(out(e, s)), has.page(s))
	}
}

// templates of the same name override bundled ones
var bundled = []string{
	"aside", "bold", "definitions", "image", "inset", "italic", "larger", "link", "list", "paragraph",
	"preformatted", "reference", "sequence", "smaller", "strike", "string", "subscript", "superscript",
	"table", "target", "toc", "verbatim",
}

func content(name string, s *booklit.Section) booklit.Content {
	x := booklit.String("x")
	switch name {
	case "definitions":
		return booklit.Definitions{{Subject: x, Definition: x}}
	case "image":
		return booklit.Image{Path: "p"}
	case "link":
		return booklit.Link{Content: x, Target: "u"}
	case "list":
		return booklit.List{Items: []booklit.Content{x}}
	case "paragraph":
		return booklit.Paragraph{x}
	case "preformatted":
		return booklit.Preformatted{x}
	case "reference":
		return &booklit.Reference{Section: s, TagName: "tag", Content: x}
	case "sequence":
		return booklit.Sequence{x}
	case "string":
		return booklit.String("y")
	case "table":
		return booklit.Table{Rows: [][]booklit.Content{{x}}}
	case "target":
		return booklit.Target{TagName: "t", Title: x}
	case "toc":
		return booklit.TableOfContents{Section: s}
	}
	return booklit.Styled{Style: booklit.Style(name), Content: x}
}

func H_override() {
	dir := v.Dir()
	e := engines()
	name := v.Pick("template", bundled...)
	v.WriteFile(dir+"/"+name+".tmpl", "@"+name+";\n", 1)
	v.WriteFile(dir+"/page.tmpl", "{{.Body | render}}", 1)
	fresh := v.Bool("from fresh")
	if fresh {
		// the templates are those of this engine only
		v.Assert(render.NewHTMLEngine().LoadTemplates(dir) == nil && render.NewTextEngine("x").LoadTemplates(dir) == nil, "templates load")
	}
	s := &booklit.Section{}
	s.SetTitle(booklit.Sequence{}, s.Location, "tag")
	c := &booklit.Section{Parent: s, Body: booklit.Empty}
	c.SetTitle(booklit.Sequence{}, c.Location, "child")
	s.Children = append(s.Children, c)
	s.Body = content(name, s)
	if fresh {
		buf := new(bytes.Buffer)
		if e.RenderSection(buf, s) == nil {
			v.Assert(len(marks(buf.String())) == 0, "the templates of one engine are not another's")
		}
	}
	v.Assert(e.LoadTemplates(dir) == nil, "templates load")
	got := out(e, s)
	v.Assert(got == "@"+name+";", "user templates override bundled ones")
	// other content is as before
	other := v.Pick("other", "paragraph", "preformatted", "inset")
	if other != name {
		s.Body = content(other, s)
		got := marks(out(e, s))
		n := 0
		if name == "string" {
			n = 1
		}
		v.Assert(len(got) == n, "and no others")
	}
	v.Reach("override")
}

// a style anywhere in a large document
func H_large() {
	dir := v.Dir()
	e := engines()
	has := templates(dir, "a")
	v.Assert(e.LoadTemplates(dir) == nil, "templates load")
	parents := lib.Large(depth(7, 10))
	one := lib.One("styled", len(parents))
	root := document(parents, func(i int) string {
		if one[i] {
			return "a"
		}
		return ""
	})
	same(marks(out(e, root)), has.page(root))
}
