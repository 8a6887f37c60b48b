package c31

import (
	"strings"

	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// expr is source, and the content it stands for.
type expr struct {
	src  string
	con  booklit.Content
	fail bool
}

func text() expr {
	s := v.StrIn("text", 1, "aZ.<")
	return expr{src: s, con: booklit.String(s)}
}

var styles = []string{"italic", "bold", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside"}

var kinds = []string{"text", "styled", "code", "link", "reference", "reference with text", "target", "target with title", "target with content",
	"list", "ordered list", "table", "definitions", "image", "image with description", "aux", "toc", "mixed"}

func args(es []expr) string {
	s := ""
	for _, e := range es {
		s += "{" + e.src + "}"
	}
	return s
}

func contents(es []expr) []booklit.Content {
	out := []booklit.Content{}
	for _, e := range es {
		out = append(out, e.con)
	}
	return out
}

func failed(es []expr) bool {
	for _, e := range es {
		if e.fail {
			return true
		}
	}
	return false
}

func some(n, level int, ks []string) []expr {
	var out []expr
	for i := 0; i < n; i++ {
		if i == n-1 {
			out = append(out, gen(level, ks))
		} else {
			out = append(out, text())
		}
	}
	return out
}

// gen makes an arbitrary expression of some depth.
func gen(level int, kinds []string) expr {
	if level == 0 {
		return text()
	}
	kind := v.Pick("kind", kinds...)
	sub := level - 1
	switch kind {
	case "text":
		return text()
	case "styled":
		style := "bold"
		if sub == 0 {
			style = styles[v.Len("style", len(styles)-1)]
		}
		e := gen(sub, kinds)
		return expr{"\\" + style + "{" + e.src + "}", booklit.Styled{Style: booklit.Style(style), Content: e.con}, e.fail}
	case "code":
		e := gen(sub, kinds)
		return expr{"\\code{" + e.src + "}", booklit.Styled{Style: "verbatim", Content: e.con}, e.fail}
	case "aux":
		e := gen(sub, kinds)
		return expr{"\\aux{" + e.src + "}", booklit.Aux{Content: e.con}, e.fail}
	case "link":
		e := gen(sub, kinds)
		t := gen(sub, []string{"text", "styled", "image"})
		return expr{"\\link{" + e.src + "}{" + t.src + "}", booklit.Link{Content: e.con, Target: t.con.String()}, e.fail}
	case "reference":
		t := gen(sub, []string{"text", "styled"})
		return expr{"\\reference{" + t.src + "}", &booklit.Reference{TagName: t.con.String()}, false}
	case "reference with text":
		e := gen(sub, kinds)
		return expr{"\\reference{tag}{" + e.src + "}", &booklit.Reference{TagName: "tag", Content: e.con}, e.fail}
	case "target":
		t := gen(sub, []string{"text", "styled"})
		return expr{"\\target{" + t.src + "}", booklit.Target{TagName: t.con.String(), Title: booklit.String(t.con.String())}, false}
	case "target with title":
		e := gen(sub, kinds)
		return expr{"\\target{tag}{" + e.src + "}", booklit.Target{TagName: "tag", Title: e.con}, e.fail}
	case "target with content":
		e := gen(sub, kinds)
		t := text()
		return expr{"\\target{tag}{" + t.src + "}{" + e.src + "}", booklit.Target{TagName: "tag", Title: t.con, Content: e.con}, e.fail}
	case "list", "ordered list":
		es := some(v.Len("items", 2), sub, kinds)
		name := "\\list"
		if kind != "list" {
			name = "\\ordered-list"
		}
		return expr{name + args(es), booklit.List{Items: contents(es), Ordered: kind != "list"}, failed(es)}
	case "table":
		src, table, fail := "\\table", booklit.Table{}, false
		rows := v.Len("rows", 2)
		for i := 0; i < rows; i++ {
			es := []expr{text()}
			if i == rows-1 {
				es = some(v.Len("columns", 2), sub, kinds)
			}
			fail = fail || failed(es)
			table.Rows = append(table.Rows, contents(es))
			src += wrap("\\table-row" + args(es))
		}
		return expr{src, table, fail}
	case "definitions":
		src, defs, fail := "\\definitions", booklit.Definitions{}, false
		n := v.Len("definitions", 2)
		for i := 0; i < n; i++ {
			s, d := text(), text()
			if i == n-1 {
				s, d = gen(sub, []string{"text", "styled"}), gen(sub, kinds)
			}
			fail = fail || s.fail || d.fail
			defs = append(defs, booklit.Definition{Subject: s.con, Definition: d.con})
			src += wrap("\\definition{" + s.src + "}{" + d.src + "}")
		}
		return expr{src, defs, fail}
	case "image":
		t := gen(sub, []string{"text", "styled"})
		return expr{"\\image{" + t.src + "}", booklit.Image{Path: t.con.String()}, false}
	case "image with description":
		t := text()
		return expr{"\\image{path}{" + t.src + "}", booklit.Image{Path: "path", Description: t.con.String()}, false}
	case "toc":
		return expr{"\\table-of-contents", booklit.TableOfContents{}, false}
	case "mixed":
		t, e := text(), gen(sub, kinds)
		return expr{t.src + e.src + " b", booklit.Sequence{t.con, e.con, booklit.String(" b")}, e.fail}
	}
	panic(kind)
}

// wrap makes an argument of a call, on a line of its own or not.
func wrap(call string) string {
	if v.Bool("lines") {
		return "{\n  " + call + "\n}"
	}
	return "{" + call + "}"
}

func H_content() {
	e := gen(depth(2, 2), kinds)
	check(e)
}

// deeper, but of fewer kinds
func H_nested() {
	kinds := []string{"target with content", "list", "table"}
	if v.Thorough() {
		kinds = append(kinds, "definitions", "styled", "reference with text", "mixed")
	}
	check(gen(3, kinds))
}

func check(e expr) {
	rec := &lib.Recorder{}
	sec, err := lib.Eval("\\title{T}\n\n\\keep{"+e.src+"}\n", rec.Factory())
	v.Assert(err == nil, "the document is fine")
	v.Assert(len(rec.Contents) == 1, "one argument")
	got := rec.Contents[0]
	v.Assert(lib.SameToks(lib.Toks(got), lib.Toks(e.con)), "the content is what the functions document")
	v.Assert(got.IsFlow() == e.con.IsFlow(), "flow or block alike")
	inSection(got, sec)
	v.Reach("made")
}

// inSection checks what belongs to a section.
func inSection(c booklit.Content, sec *booklit.Section) {
	switch c := c.(type) {
	case *booklit.Reference:
		v.Assert(c.Section == sec && !c.Optional, "references belong to the section they are in")
		v.Reach("reference")
	case booklit.TableOfContents:
		v.Assert(c.Section == sec, "it is the table of contents of the section it is in")
		v.Reach("toc")
	case booklit.Styled:
		inSection(c.Content, sec)
	}
}

// rows and definitions that are none
func H_rejected() {
	what := v.Pick("function", "table", "definitions")
	n := v.Len("before", 2)
	src := "\\" + what
	for i := 0; i < n; i++ {
		if what == "table" {
			src += "{\\table-row{a}}"
		} else {
			src += "{\\definition{a}{b}}"
		}
	}
	bad := v.Pick("bad", "text", "styled", "image", "table", "definitions", "nothing", "two", "one", "three", "none")
	list := false
	switch bad {
	case "text":
		src += "{" + text().src + "}"
	case "styled":
		src += "{\\bold{\\list{a}{b}}}"
	case "image":
		src += "{\\image{a}}"
	case "table":
		src += "{\\table{\\table-row{a}{b}}}"
	case "definitions":
		src += "{\\definitions{\\definition{a}{b}}}"
	case "nothing":
		src += "{}"
	case "two":
		src += "{\\table-row{a}{b}\\table-row{a}{b}}"
	case "one":
		src, list = src+"{\\list{a}}", true
	case "three":
		src, list = src+"{\\list{a}{b}{c}}", true
	case "none":
		src, list = src+"{\\list}", true
	}
	if v.Bool("after") {
		src += "{\\list{a}{b}}"
	}
	_, err := lib.Eval(src + "\n")
	if what == "table" && list {
		v.Assert(err == nil, "lists are rows")
		return
	}
	v.Assert(err != nil && strings.Contains(err.Error(), "\\"+what), "it is rejected, naming the function")
	v.Reach("rejected")
}

// partials, and what is set on the section
func H_section() {
	n := depth(3, 4)
	src := "\\title{T}\n\n"
	want := map[string]string{}
	style, omit, split, single := "", false, false, false
	for i := 0; i < n; i++ {
		switch op := v.Pick("set", "partial", "styled", "omit", "split", "single"); op {
		case "partial":
			name := v.Pick("name", "A", "B")
			t := v.StrIn("text", 1, "ab<")
			src += "\\set-partial{" + name + "}{\\bold{" + t + "}}\n\n"
			want[name] = t
		case "styled":
			style = v.Pick("style", "x", "y-z")
			src += "\\styled{" + style + "}\n\n"
		case "omit":
			omit = true
			src += "\\omit-children-from-table-of-contents\n\n"
		case "split":
			split = true
			src += "\\split-sections\n\n"
		case "single":
			single = true
			src += "\\single-page\n\n"
		}
	}
	sec, err := lib.Eval(src)
	v.Assert(err == nil, "the document is fine")
	for _, name := range []string{"A", "B", "C"} {
		p := sec.Partial(name)
		t, ok := want[name]
		v.Assert((p != nil) == ok, "partials are set by name")
		if ok {
			v.Assert(lib.SameToks(lib.Toks(p), lib.Toks(booklit.Styled{Style: "bold", Content: booklit.String(t)})), "to the last content given")
			v.Reach("partial")
		}
	}
	v.Assert(sec.Style == style, "the last style is used")
	v.Assert(sec.OmitChildrenFromTableOfContents == omit, "children are omitted if said so")
	v.Assert(sec.ResetDepth == split && sec.SplitSections == (split && !single) && sec.PreventSplitSections == single, "sections are split if said so")
	v.Assert(sec.Body.String() == "", "setting shows nothing")
}
