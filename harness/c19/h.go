package c19

import (
	"bytes"
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()
var text = render.NewTextEngine("txt")

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func renders(e render.Engine, sec *booklit.Section) string {
	buf := new(bytes.Buffer)
	err := e.RenderSection(buf, sec)
	v.Assert(err == nil, "renders")
	first := buf.String()
	buf = new(bytes.Buffer)
	err = e.RenderSection(buf, sec)
	v.Assert(err == nil, "renders again")
	v.Assert(buf.String() == first, "the same again")
	return first
}

// An independent rendering of content.

func escape(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			out += "&lt;"
		case '>':
			out += "&gt;"
		case '&':
			out += "&amp;"
		case '"':
			out += "&quot;"
		default:
			out += s[i : i+1]
		}
	}
	return out
}

// flow is whether content fits within a sentence.
func flow(c booklit.Content) bool {
	switch x := c.(type) {
	case nil:
		return true
	case booklit.Sequence:
		for _, c := range x {
			if !flow(c) {
				return false
			}
		}
		return true
	case booklit.Styled:
		return !x.Block && flow(x.Content)
	case booklit.Link:
		return flow(x.Content)
	case booklit.Aux:
		return flow(x.Content)
	case booklit.String, *booklit.Reference, booklit.Target, *booklit.Target, booklit.Image:
		return true
	case *booklit.Lazy:
		return !x.Block
	}
	return false
}

var tags = map[booklit.Style][2]string{
	"bold":        {`<strong>`, `</strong>`},
	"italic":      {`<em>`, `</em>`},
	"larger":      {`<span style="font-size: 120%">`, `</span>`},
	"smaller":     {`<span style="font-size: 80%">`, `</span>`},
	"strike":      {`<span style="text-decoration: line-through">`, `</span>`},
	"superscript": {`<sup>`, `</sup>`},
	"subscript":   {`<sub>`, `</sub>`},
	"inset":       {`<div style="margin: 0 2em 1em" class="inset">`, `</div>`},
	"aside":       {`<blockquote class="aside">`, `</blockquote>`},
}

func want(c booklit.Content, strip bool) string {
	out := ""
	join := func(cs []booklit.Content, sep string) {
		for i, c := range cs {
			if i > 0 {
				out += sep
			}
			out += want(c, strip)
		}
	}
	switch x := c.(type) {
	case nil:
	case booklit.Aux:
		if !strip {
			out = want(x.Content, false)
		}
	case booklit.String:
		out = escape(string(x))
	case booklit.Sequence:
		join(x, "")
	case booklit.Paragraph:
		out = "<p>"
		join(x, " ")
		out += "</p>"
	case booklit.Preformatted:
		join(x, "\n")
	case booklit.Styled:
		t, ok := tags[x.Style]
		if !ok {
			if x.Style == "raw-html" {
				return x.Content.String()
			}
			if t = [2]string{"<pre>", "</pre>"}; flow(x) {
				t = [2]string{"<code>", "</code>"}
			}
		}
		out = t[0] + want(x.Content, strip) + t[1]
	case *booklit.Reference:
		out = want(x.Content, true)
		if x.TagName != "unknown" {
			con := x.Content
			if con == nil {
				con = x.Section.Tags[0].Title
			}
			out = `<a href="tag.html">` + want(con, true) + `</a>`
		}
	case booklit.Link:
		out = `<a href="` + escape(x.Target) + `">` + want(x.Content, strip) + `</a>`
	case booklit.Target:
		out = `<a id="` + escape(x.TagName) + `"></a>`
	case *booklit.Target:
		return want(*x, strip)
	case booklit.Image:
		out = `<img src="` + escape(x.Path) + `" alt="` + escape(x.Description) + `"/>`
	case booklit.List:
		t := "ul>"
		if x.Ordered {
			t = "ol>"
		}
		out = "<" + t
		for _, c := range x.Items {
			out += "<li>" + want(c, strip) + "</li>"
		}
		out += "</" + t
	case booklit.Table:
		out = "<table>"
		for _, row := range x.Rows {
			out += "<tr>"
			for _, c := range row {
				out += "<td>" + want(c, strip) + "</td>"
			}
			out += "</tr>"
		}
		out += "</table>"
	case booklit.Definitions:
		out = "<dl>"
		for _, d := range x {
			out += "<dt>" + want(d.Subject, strip) + "</dt><dd>" + want(d.Definition, strip) + "</dd>"
		}
		out += "</dl>"
	case *booklit.Lazy:
		c, _ := x.Force()
		out = want(c, strip)
	default:
		v.Fail("unknown content")
	}
	return out
}

func number(s *booklit.Section) string {
	if s.Parent == nil {
		return ""
	}
	for i, c := range s.Parent.Children {
		if c == s {
			n := strconv.Itoa(i + 1)
			if p := number(s.Parent); p != "" {
				n = p + "." + n
			}
			return n
		}
	}
	return "?"
}

// header is how deep a section is within its page, and at most 6.
func header(s *booklit.Section) string {
	n := 1
	for ; s.Parent != nil && !s.Parent.ResetDepth; s = s.Parent {
		n++
	}
	if n > 6 {
		n = 6
	}
	return "h" + strconv.Itoa(n)
}

func section(s *booklit.Section) string {
	h := header(s)
	out := `<` + h + ` class="section-header"><a id="` + s.PrimaryTag.Name + `"></a>`
	if s.Parent != nil {
		out += `<span class="section-number">` + number(s) + ` </span>`
	}
	out += want(s.Title, false) + `</` + h + ">\n" + want(s.Body, false) + "\n"
	if !s.SplitSections {
		for _, c := range s.Children {
			out += section(c)
		}
	}
	return out
}

func page(s *booklit.Section) string {
	return `<!DOCTYPE html><html><head><meta http-equiv="content-type" content="text/html; charset=utf-8"/><title>` +
		s.Title.String() + `</title></head><body>` + section(s) + `</body></html>`
}

var blocks = map[string]bool{
	"html": true, "head": true, "meta": true, "title": true, "body": true, "ul": true, "ol": true, "li": true,
	"table": true, "tr": true, "td": true, "dl": true, "dt": true, "dd": true,
	"h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true,
}

func white(c byte) bool { return c == ' ' || c == '\n' }

// normal is a page without line breaks next to the elements around blocks.
func normal(s string) []string {
	ms, ok := lib.HTML(s)
	v.Assert(ok, "well formed")
	var joined []lib.Mark
	for _, m := range ms {
		if k := len(joined) - 1; m.K == 't' && k >= 0 && joined[k].K == 't' {
			joined[k].Name += m.Name
			continue
		}
		joined = append(joined, m)
	}
	var out []string
	for i, m := range joined {
		if m.K != 't' {
			s := string([]byte{m.K}) + m.Name
			for k := 0; k+1 < len(m.Attrs); k += 2 {
				s += " " + m.Attrs[k] + "=" + m.Attrs[k+1]
			}
			out = append(out, s)
			continue
		}
		t := m.Name
		if i == 0 || joined[i-1].K == '!' || blocks[joined[i-1].Name] {
			cut := 0
			for k := 0; k < len(t) && white(t[k]); k++ {
				if t[k] == '\n' {
					cut = k + 1
				}
			}
			t = t[cut:]
		}
		if i+1 == len(joined) || joined[i+1].K == '!' || blocks[joined[i+1].Name] {
			cut := len(t)
			for k := len(t) - 1; k >= 0 && white(t[k]); k-- {
				if t[k] == '\n' {
					cut = k
				}
			}
			t = t[:cut]
		}
		blank := true
		for k := 0; k < len(t); k++ {
			blank = blank && white(t[k])
		}
		if blank && (i+1 == len(joined) || i == 0 || lib.Contains(m.Name, "\n") && (joined[i-1].K == '!' || blocks[joined[i-1].Name] || blocks[joined[i+1].Name])) {
			continue
		}
		if t != "" {
			out = append(out, "t"+t)
		}
	}
	return out
}

func check(sec *booklit.Section) {
	got, exp := normal(renders(html, sec)), normal(page(sec))
	for i, g := range got {
		v.Assert(i < len(exp), "nothing more than the document is put out")
		v.Assert(g == exp[i], "the page is the document's content in order")
	}
	v.Assert(len(got) == len(exp), "nothing is missing")
	v.Reach("html")
}

// nest puts content into containers.
func nest(n int, kinds []string, c booklit.Content) booklit.Content {
	for i := 0; i < n; i++ {
		k := v.Pick("container", kinds...)
		if k == "reference" {
			c = &booklit.Reference{Section: doc(nil), TagName: "unknown", Content: c, Optional: true}
		} else {
			c = lib.Inside(k, c)
		}
	}
	return c
}

func doc(c booklit.Content) *booklit.Section {
	s := &booklit.Section{Body: c}
	s.SetTitle(booklit.String("T"), s.Location, "tag")
	return s
}

var styles = []booklit.Style{"bold", "italic", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside", "verbatim"}

var leaves = []string{"text", "lazy", "lazy paragraph", "image", "target", "link", "reference", "titled reference", "empty", "block", "raw", "nothing"}

func leaf(kind string) booklit.Content {
	t := booklit.String(v.StrIn("text", depth(1, 2), "a <"))
	switch kind {
	case "text":
		return t
	case "lazy":
		return booklit.LazyFlow(func() (booklit.Content, error) { return t, nil })
	case "lazy paragraph":
		return booklit.LazyBlock(func() (booklit.Content, error) { return booklit.Paragraph{t, booklit.String("b")}, nil })
	case "image":
		return booklit.Image{Path: "p.png", Description: string(t)}
	case "target":
		return booklit.Target{TagName: "x" + string(t), Title: t}
	case "link":
		return booklit.Link{Content: t, Target: "http://u/"}
	case "reference":
		return &booklit.Reference{Section: doc(t), TagName: "tag", Content: t}
	case "titled reference":
		s := &booklit.Section{Body: booklit.Empty}
		s.SetTitle(booklit.Sequence{t, booklit.Aux{Content: booklit.String("x")}}, s.Location, "tag")
		return &booklit.Reference{Section: s, TagName: "tag"}
	case "empty":
		return booklit.Empty
	case "block":
		return booklit.Styled{Style: "verbatim", Block: true, Content: t}
	case "raw":
		return booklit.Styled{Style: "raw-html", Content: booklit.String("<i>x</i>")}
	}
	return booklit.Paragraph{}
}

// every kind of content within every other
func H_kinds() {
	check(doc(nest(1, lib.Containers, leaf(v.Pick("leaf", leaves...)))))
}

func H_styles() {
	s := booklit.Styled{Style: v.Pick("style", styles...), Block: v.Bool("block"), Content: leaf(v.Pick("leaf", "text", "lazy", "link", "nothing"))}
	check(doc(nest(depth(1, 2), []string{"sequence", "line", "styled", "item", "cell", "link"}, s)))
}

func H_nested() {
	check(doc(nest(depth(2, 3), lib.Containers, leaf(v.Pick("leaf", "text")))))
}

// several pieces next to each other
func H_several() {
	var cs []booklit.Content
	for i, n := 0, v.Len("pieces", depth(2, 3)); i < n; i++ {
		switch v.Concrete(v.Int("piece", 0, 3)) {
		case 0:
			cs = append(cs, leaf("text"))
		case 1:
			cs = append(cs, leaf("lazy"))
		case 2:
			cs = append(cs, booklit.Paragraph{leaf("text"), booklit.String("z")})
		case 3:
			cs = append(cs, booklit.Styled{Style: "verbatim", Content: booklit.Preformatted{booklit.String("  i"), leaf("text")}})
		}
	}
	switch v.Concrete(v.Int("in", 0, 6)) {
	case 0:
		check(doc(booklit.Sequence(cs)))
	case 1:
		check(doc(booklit.Paragraph(cs)))
	case 2:
		check(doc(booklit.Preformatted(cs)))
	case 3:
		check(doc(booklit.List{Items: cs, Ordered: v.Bool("ordered")}))
	case 4:
		check(doc(booklit.Table{Rows: [][]booklit.Content{cs, {}, cs}}))
	case 5:
		var ds booklit.Definitions
		for _, c := range cs {
			ds = append(ds, booklit.Definition{Subject: c, Definition: booklit.String("d")}, booklit.Definition{Subject: booklit.String("s"), Definition: c})
		}
		check(doc(ds))
	case 6:
		check(doc(booklit.Styled{Style: "inset", Block: true, Content: booklit.Sequence(cs)}))
	}
}

// pages of section trees
func H_sections() {
	parents := lib.Shape(depth(3, 4))
	secs := lib.Build(parents)
	for i, s := range secs {
		n := strconv.Itoa(i)
		s.SetTitle(booklit.Sequence{booklit.String("t" + n), booklit.Styled{Style: "bold", Content: booklit.String("b" + n)}}, s.Location, "tag"+n)
		s.Title = booklit.Sequence{booklit.String("t" + n), booklit.String("u")}
		s.Body = booklit.Paragraph{booklit.String("body" + n)}
		if len(lib.Children(parents, i)) > 0 {
			s.SplitSections = v.Bool("split")
			s.ResetDepth = s.SplitSections
			if v.Thorough() {
				s.ResetDepth = v.Bool("reset")
			}
		}
	}
	for _, s := range secs {
		check(s)
	}
}

// headers stop at the sixth level
func H_deep() {
	n := 8
	parents := make([]int, n)
	for i := range parents {
		parents[i] = i - 1
	}
	secs := lib.Build(parents)
	for i, s := range secs {
		k := strconv.Itoa(i)
		s.SetTitle(booklit.String("t"+k), s.Location, "tag"+k)
		s.Body = booklit.Paragraph{booklit.String("body" + k)}
	}
	if k := v.Concrete(v.Int("split", 0, n)); k < n {
		secs[k].SplitSections = v.Bool("only split")
		secs[k].ResetDepth = true
	}
	check(secs[v.Concrete(v.Int("page", 0, n-1))])
}

// Plain text: the same content with blank lines anywhere between blocks.

func plain(c booklit.Content) string {
	out := ""
	join := func(cs []booklit.Content, sep string) {
		for i, c := range cs {
			if i > 0 {
				out += sep
			}
			out += plain(c)
		}
	}
	switch x := c.(type) {
	case nil:
	case booklit.Aux:
		out = plain(x.Content)
	case booklit.String:
		out = string(x)
	case booklit.Sequence:
		join(x, "")
	case booklit.Paragraph:
		join(x, " ")
		out += "\n\n"
	case booklit.Preformatted:
		join(x, "\n")
	case booklit.Styled:
		out = "    "
		for _, ch := range plain(x.Content) {
			out += string(ch)
			if ch == '\n' {
				out += "    "
			}
		}
	case *booklit.Lazy:
		c, _ := x.Force()
		out = plain(c)
	default:
		v.Fail("unknown content")
	}
	return out
}

// lines are the lines that show something.
func lines(s string) []string {
	var out []string
	line, blank := "", true
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\n' {
			if !blank {
				out = append(out, line)
			}
			line, blank = "", true
			continue
		}
		line += s[i : i+1]
		blank = blank && s[i] == ' '
	}
	return out
}

func plainSection(s *booklit.Section) string {
	out := s.Title.String()
	if s.Parent != nil {
		out = number(s) + " " + out
	}
	out += "\n" + plain(s.Body) + "\n"
	if !s.SplitSections {
		for _, c := range s.Children {
			out += plainSection(c)
		}
	}
	return out
}

func checkText(sec *booklit.Section) {
	got, exp := lines(renders(text, sec)), lines(sec.Title.String()+"\n"+plainSection(sec))
	v.Assert(len(got) == len(exp), "as many lines")
	for i := range got {
		v.Assert(got[i] == exp[i], "the text is the document's content in order")
	}
	v.Reach("text")
}

func docText(c booklit.Content) *booklit.Section {
	s := &booklit.Section{Body: c}
	s.SetTitle(booklit.String("T\n"), s.Location, "tag")
	return s
}

func H_text() {
	var c booklit.Content = leaf(v.Pick("leaf", "text", "lazy", "lazy paragraph", "empty", "nothing"))
	for i := 0; i < depth(2, 3); i++ {
		k := v.Pick("in", "sequence", "line", "second line", "preformatted", "aux", "inset")
		if k == "inset" {
			c = booklit.Styled{Style: "inset", Block: true, Content: c}
		} else {
			c = lib.Inside(k, c)
		}
	}
	checkText(docText(c))
}

func H_text_sections() {
	parents := lib.Shape(depth(3, 4))
	secs := lib.Build(parents)
	for i, s := range secs {
		n := strconv.Itoa(i)
		s.SetTitle(booklit.String("t"+n+"\n"), s.Location, "tag"+n)
		s.Body = booklit.Paragraph{booklit.String("body" + n)}
		if len(lib.Children(parents, i)) > 0 {
			s.SplitSections = v.Bool("split")
			s.ResetDepth = s.SplitSections
			if v.Thorough() {
				s.ResetDepth = v.Bool("reset")
			}
		}
	}
	for _, s := range secs {
		checkText(s)
	}
}

// documents as written
func H_documents() {
	t := lib.Escape(v.StrIn("text", depth(2, 3), "a{<"))
	src := v.Pick("doc",
		"\\title{T}{t}\n\nab%c\nd\n\n\\list{%}{b}\n\ne\\bold{%}f\n",
		"\\title{T}{t}\n\n\\code{{\na%\n  b\n}}\n\nx\\code{%}\n\n\\aside{\n  %\n\n  z\n}\n",
		"\\title{T}{t}\n\n\\table{\\table-row{%}{b}}{\\table-row{c}{d%}}\n\n\\definitions{\\definition{a}{%}}{\\definition{%}{b}}\n",
		"\\title{T}{t}\n\n\\section{\n\\title{A}{a}\n\n%\n\n\\section{\n\\title{B}{b}\n\n\\inset{%}\n}\n}\n\nc%\n\n\\section{\n\\title{C}{c}\n\n\\link{%}{http://u/}\n}\n")
	out := ""
	for i := 0; i < len(src); i++ {
		if src[i] == '%' {
			out += t
		} else {
			out += src[i : i+1]
		}
	}
	root, err := lib.Load(out)
	v.Assert(err == nil, "loads")
	check(root)
}
