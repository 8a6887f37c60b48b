package c26

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// Styler gives documents styled content with partials.
type Styler struct{}

// Card is styled content holding three pieces of content.
func (Styler) Card(content, p, q booklit.Content) booklit.Content {
	return booklit.Styled{Style: booklit.StyleBold, Content: content, Partials: booklit.Partials{"Q": q, "P": p}}
}

func styler(*booklit.Section) booklit.Plugin { return Styler{} }

// summary is everything a build of a document results in.
type summary struct{ parts []string }

func (s *summary) add(label string, x ...interface{}) {
	s.parts = append(s.parts, label+": "+fmt.Sprint(x...))
}

func (s *summary) fail(label string, err error) {
	s.add(label, err.Error())
	var pretty booklit.PrettyError
	if errors.As(err, &pretty) {
		buf := new(bytes.Buffer)
		pretty.PrettyPrint(buf)
		s.add(label, buf.String())
		buf = new(bytes.Buffer)
		err := pretty.PrettyHTML(buf)
		s.add(label, buf.String(), err)
	}
}

func build(path string, engine func() render.Engine) *summary {
	sum := &summary{}
	root, err := (&load.Processor{}).LoadFile(path, append(lib.Base(), styler))
	if err != nil {
		sum.fail("load", err)
		return sum
	}
	lib.Walk(root, func(s *booklit.Section) {
		for _, t := range s.Tags {
			sum.add("tag", t.Name, " ", t.Anchor, " ", t.Title, " ", lib.TokString(t.Content), " ", t.Location)
		}
		sum.add("title", lib.TokString(s.Title), lib.TokString(booklit.StripAux(s.Title)))
		sum.add("body", lib.TokString(s.Body), lib.TokString(booklit.StripAux(s.Body)))
		for _, name := range []string{"a", "b"} {
			for _, t := range s.FindTag(name) {
				sum.add("find", name, " ", t.Location)
			}
			for _, t := range s.SimilarTags(name) {
				sum.add("similar", name, " ", t.Location)
			}
			ref := &booklit.Reference{Section: s, TagName: name}
			if t, err := ref.Tag(); err != nil {
				sum.fail("reference", err)
			} else {
				sum.add("reference", t.Name, t.Location)
			}
		}
	})
	dir := v.Dir() + "/out"
	for _, f := range v.Files(dir) {
		v.RemoveFile(dir + "/" + f)
	}
	pages, err := lib.Pages(engine(), root)
	if err != nil {
		sum.fail("render", err)
	} else {
		for _, f := range v.Files(dir) {
			sum.add(f, pages[f])
		}
		v.Reach("pages")
	}
	if err := (render.Writer{Engine: engine(), Destination: dir}).WriteSearchIndex(root, "index.json"); err != nil {
		sum.fail("index", err)
	}
	index, _ := v.ReadFile(dir + "/index.json")
	sum.add("index", index)
	return sum
}

func html() render.Engine { return render.NewHTMLEngine() }
func text() render.Engine { return render.NewTextEngine("txt") }

func same(a, b *summary) {
	v.Assert(len(a.parts) == len(b.parts), "both builds give as much")
	for i := range a.parts {
		v.Assert(a.parts[i] == b.parts[i], "both builds give the same")
	}
	v.Reach("same")
}

// check builds a document twice; the second time every map is iterated in an
// arbitrary order.
func check(doc string, engine func() render.Engine) {
	path := v.Dir() + "/doc.lit"
	v.WriteFile(path, doc, 1)
	first := build(path, engine)
	v.FreeMapOrder(true)
	second := build(path, engine)
	v.FreeMapOrder(false)
	same(first, second)
}

// name is the name of a target.
func name() string { return v.Pick("name", "a", "b") }

func piece() string {
	switch v.Pick("piece", "target", "text", "card") {
	case "target":
		return "\\target{" + name() + "}{A}{x}"
	case "card":
		return "\\card{\\target{" + name() + "}}{\\target{b}{T}{c}}{q}"
	}
	return "text"
}

// partials of a section
func H_partials() {
	doc := "\\title{R}{r}\n\n"
	names := []string{"P", "Q", "N", "O"}
	n := depth(2, 3)
	for i := 0; i < n; i++ {
		doc += "\\set-partial{" + names[i] + "}{" + piece() + "}\n\n"
	}
	if v.Thorough() {
		doc += v.Pick("reference", "text", "\\reference{a}", "\\reference{b}") + "\n"
	} else {
		doc += "text\n"
	}
	check(doc, text)
}

// partials of styled content, in each place
func H_styled() {
	card := "\\card{"
	if v.Thorough() {
		card += piece()
	} else {
		card += "\\target{b}"
	}
	card += "}{" + piece() + "}{" + piece() + "}"
	where := v.Pick("where", "x %", "\\set-partial{P}{%}\n\nx", "\\section{\n\\title{S \\aux{%}}{s}\n}", "\\title{R %}{r}")
	doc := ""
	if where[:1] != "\\" || where[1:2] != "t" {
		doc = "\\title{R}{r}\n\n"
	}
	for i := 0; i < len(where); i++ {
		if where[i] == '%' {
			doc += card
		} else {
			doc += where[i : i+1]
		}
	}
	check(doc+"\n\nx\n", text)
}

// partials that clash with each other, and with sections
func H_clashes() {
	def := func() string { return v.Pick("define", "\\target{a}{One}{1}", "\\target{a}{Two}", "\\target{b}") }
	last := "\\target{a}{One}{1}"
	if v.Thorough() {
		last = def()
	}
	doc := "\\title{R}{r}\n\n\\set-partial{B}{" + def() + "}\n\n\\set-partial{A}{" + def() + "}\n\n" +
		v.Pick("reference", "x", "\\reference{a}") + "\n\n\\section{\n\\title{S}{" + v.Pick("tag", "s", "a") + "}\n\n\\set-partial{A}{" + last + "}\n}\n"
	engine := text
	if v.Thorough() && v.Bool("html") {
		engine = html
	}
	check(doc, engine)
}

// template directories
func H_templates() {
	dir := v.Dir()
	v.WriteFile(dir+"/t/README", "templates", 1)
	names := []string{"section.tmpl", "note.tmpl", "page.tmpl", "paragraph.tmpl"}
	texts := []string{"{{.Body | render}}{{template \"note.tmpl\" .}}", "note {{define \"paragraph.tmpl\"}}defined{{end}}", "page {{. | render}}", "{{range .}}<p>{{. | render}}</p>{{end}}"}
	for i := range names[:depth(3, 4)] {
		if v.Bool("template") {
			v.WriteFile(dir+"/t/"+names[i], texts[i], 1)
		}
	}
	v.WriteFile(dir+"/doc.lit", "\\title{R}{r}\n\ntext\n", 1)
	engine := func() render.Engine {
		e := render.NewHTMLEngine()
		err := e.LoadTemplates(dir + "/t")
		v.Assert(err == nil, "loaded")
		return e
	}
	first := build(dir+"/doc.lit", engine)
	v.FreeMapOrder(true)
	second := build(dir+"/doc.lit", engine)
	v.FreeMapOrder(false)
	same(first, second)
	v.Reach("templates")
}

// documents with everything, built twice by the same processor and renderer
func H_again() {
	dir := v.Dir()
	doc := "\\title{R}{r}\n\n" + v.Pick("page", "", "\\split-sections\n\n\\table-of-contents\n\n") +
		"\\set-partial{P}{" + piece() + "}\n\n\\section{\n\\title{S}{s}\n\n" + v.Pick("reference", "x", "\\reference{r}", "\\reference{a}", "\\reference{zz}") +
		"\n}\n\n\\include-section{sub.lit}\n"
	v.WriteFile(dir+"/doc.lit", doc, 1)
	v.WriteFile(dir+"/sub.lit", "\\title{Sub}{sub}\n\n\\definitions{\\definition{x}{\\target{b}}}\n", 1)
	proc := &load.Processor{}
	e := render.NewHTMLEngine()
	var sums [2]*summary
	for i := range sums {
		v.FreeMapOrder(i == 1)
		sum := &summary{}
		root, err := proc.LoadFile(dir+"/doc.lit", append(lib.Base(), styler))
		if err != nil {
			sum.fail("load", err)
		} else {
			pages, err := lib.Pages(e, root)
			if err != nil {
				sum.fail("render", err)
			}
			sum.add("number of pages", len(pages))
			for _, f := range v.Files(dir + "/out") {
				sum.add(f, pages[f])
				v.RemoveFile(dir + "/out/" + f)
			}
		}
		sums[i] = sum
	}
	v.FreeMapOrder(false)
	same(sums[0], sums[1])
}
