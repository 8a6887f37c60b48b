package c18

import (
	"bytes"
	"unicode/utf8"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/stages"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func page(sec *booklit.Section) []lib.Mark {
	buf := new(bytes.Buffer)
	err := html.RenderSection(buf, sec)
	v.Assert(err == nil, "renders")
	ms, ok := lib.HTML(buf.String())
	v.Assert(ok, "text does not break tags")
	return ms
}

// harmless is the same document with a letter for the text.
const harmless = "x"

func replace(s, old, new string) string {
	out := ""
	for i := 0; i < len(s); {
		if i+len(old) <= len(s) && s[i:i+len(old)] == old {
			out += new
			i += len(old)
			continue
		}
		out += s[i : i+1]
		i++
	}
	return out
}

// same asserts that a page has the markup it has with harmless text, and text
// wherever that one has harmless text.
func same(got, plain []lib.Mark, text string) {
	got, plain = join(got), join(plain)
	v.Assert(len(got) == len(plain), "text adds no markup")
	n := 0
	for i := range got {
		g, p := got[i], plain[i]
		v.Assert(g.K == p.K && len(g.Attrs) == len(p.Attrs), "text changes no markup")
		if g.K != 't' {
			v.Assert(g.Name == p.Name, "text changes no markup")
		} else {
			if lib.Contains(p.Name, "@x@") {
				n++
			}
			v.Assert(g.Name == replace(p.Name, "@x@", "@"+text+"@"), "text reads as written")
		}
		for k := 0; k+1 < len(g.Attrs); k += 2 {
			v.Assert(g.Attrs[k] == p.Attrs[k], "text changes no attributes")
			if lib.Contains(p.Attrs[k+1], "@x@") {
				n++
			}
			if g.Attrs[k] != "href" && g.Attrs[k] != "src" {
				v.Assert(g.Attrs[k+1] == replace(p.Attrs[k+1], "@x@", "@"+text+"@"), "attributes read as written")
			}
		}
	}
	v.Assert(n > 0, "the text is shown")
	v.Reach("escaped")
}

// join merges adjacent text.
func join(ms []lib.Mark) []lib.Mark {
	var out []lib.Mark
	for _, m := range ms {
		if k := len(out) - 1; m.K == 't' && k >= 0 && out[k].K == 't' {
			out[k].Name += m.Name
			continue
		}
		out = append(out, m)
	}
	return out
}

// place puts text into a document.
type place struct {
	name string
	doc  func(text string) *booklit.Section
}

func body(c func(t string) booklit.Content) func(string) *booklit.Section {
	return func(t string) *booklit.Section {
		s := &booklit.Section{Title: booklit.String("T"), Body: c("@" + t + "@")}
		s.SetTitle(booklit.String("T"), s.Location, "tag")
		return s
	}
}

func str(t string) booklit.Content { return booklit.String(t) }

var places = []place{
	{"prose", body(func(t string) booklit.Content { return booklit.Paragraph{booklit.String(t)} })},
	{"title", func(t string) *booklit.Section {
		s := &booklit.Section{Body: booklit.Empty}
		s.SetTitle(booklit.String("@"+t+"@"), s.Location, "tag")
		return s
	}},
	{"tag", func(t string) *booklit.Section {
		s := &booklit.Section{Body: booklit.Empty}
		s.SetTitle(booklit.String("T"), s.Location, "@"+t+"@")
		return s
	}},
	{"target", body(func(t string) booklit.Content { return booklit.Target{TagName: t, Title: booklit.Empty} })},
	{"link text", body(func(t string) booklit.Content { return booklit.Link{Content: booklit.String(t), Target: "u"} })},
	{"link target", body(func(t string) booklit.Content { return booklit.Link{Content: booklit.String("l"), Target: t} })},
	{"image path", body(func(t string) booklit.Content { return booklit.Image{Path: t, Description: "d"} })},
	{"image description", body(func(t string) booklit.Content { return booklit.Image{Path: "p", Description: t} })},
	{"styled", body(func(t string) booklit.Content {
		var out booklit.Sequence
		for _, s := range []booklit.Style{"bold", "italic", "larger", "smaller", "strike", "superscript", "subscript", "inset", "aside", "verbatim"} {
			out = append(out, booklit.Styled{Style: s, Content: booklit.String(t)})
		}
		return append(out, booklit.Styled{Style: "verbatim", Block: true, Content: booklit.Preformatted{booklit.String(t)}})
	})},
	{"list", body(func(t string) booklit.Content { return booklit.List{Items: []booklit.Content{str(t)}} })},
	{"table", body(func(t string) booklit.Content { return booklit.Table{Rows: [][]booklit.Content{{str(t)}}} })},
	{"definitions", body(func(t string) booklit.Content {
		return booklit.Definitions{{Subject: str(t), Definition: str(t)}}
	})},
	{"reference", func(t string) *booklit.Section {
		s := &booklit.Section{}
		s.SetTitle(booklit.String("T"), s.Location, "@"+t+"@")
		s.Body = &booklit.Reference{Section: s, TagName: "@" + t + "@", Content: booklit.String("@" + t + "@")}
		return s
	}},
	{"contents", func(t string) *booklit.Section {
		s := &booklit.Section{}
		s.SetTitle(booklit.String("T"), s.Location, "tag")
		s.Body = booklit.TableOfContents{Section: s}
		c := &booklit.Section{Body: booklit.Empty, Parent: s}
		c.SetTitle(booklit.Sequence{booklit.String("@" + t + "@"), booklit.Aux{Content: booklit.String("aux")}}, c.Location, "@"+t+"@")
		s.Children = append(s.Children, c)
		return s
	}},
	{"lazy", body(func(t string) booklit.Content {
		return booklit.LazyFlow(func() (booklit.Content, error) { return booklit.String(t), nil })
	})},
}

func checkPlaces(text string, ps ...place) {
	names := make([]int, len(ps))
	for i := range names {
		names[i] = i
	}
	p := ps[v.Concrete(v.Pick("place", names...))]
	same(page(p.doc(text)), page(p.doc(harmless)), text)
}

// text of the characters that matter in markup
const alphabet = "<>&\"'-/=x !"

func H_special() { checkPlaces(v.StrIn("text", depth(2, 3), alphabet), places...) }

// any character at all
func H_any() {
	t := v.Str("text", depth(1, 2))
	for i := 0; i < len(t); i++ {
		// ASCII but for NUL and for line breaks, which readers of HTML change
		v.Assume(v.And(v.And(t[i] < 128, t[i] != 0), t[i] != '\r'))
	}
	checkPlaces(t, places...)
}

// what markup is made of
func H_words() {
	t := v.Pick("text", "<script>", "</p>", "</title>", "<!--", "-->", "--!>", "]]>", "&lt;", "&amp;lt;", "&#60;", "&", "&;", "\" onload=\"", "' onload='", "><", "</style>", "<![CDATA[", "{{.}}", "é<世>", "😀\"", "\u2028<", "`${x}`")
	v.Assert(utf8.ValidString(t), "valid")
	checkPlaces(t+v.StrIn("more", depth(1, 2), "<\"x"), places...)
}

// documents as written
func H_documents() {
	t := v.StrIn("text", depth(1, 2), "<>&\"'-x")
	e := lib.Escape(t)
	docs := []string{
		"@%@\n\n\\section{\n\\title{@%@}{a}\n\n@%@\n}",
		"\\title{@%@}{t}\n\n\\table-of-contents\n\n\\section{\n\\title{@%@}{s}\n}",
		"\\title{T}{t}\n\n\\bold{@%@}\\code{{{@%@}}}\n\n\\code{{\n@%@\n}}",
		"\\title{T}{t}\n\n\\link{@%@}{http://a/?@%@} \\image{@%@}{@%@}",
		"\\title{T}{t}\n\n\\target{@%@}{@%@} \\reference{@%@}",
		"\\title{T}{t}\n\n\\list{@%@}{@%@}\n\n\\table{\\table-row{@%@}}\n\n\\definitions{\\definition{@%@}{@%@}}",
	}
	doc := v.Pick("doc", docs...)
	load := func(s string) *booklit.Section {
		sec, err := lib.Load(s)
		v.Assert(err == nil, "loads")
		return sec
	}
	same(page(load(replace(doc, "%", e))), page(load(replace(doc, "%", harmless))), t)
}

// URLs

func scheme(u string) string {
	// what browsers do: ignore leading blanks and control characters, and
	// tabs and line breaks anywhere
	s := ""
	for i := 0; i < len(u); i++ {
		c := u[i]
		if c <= ' ' && (s == "" || c == '\t' || c == '\n' || c == '\r') {
			continue
		}
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c == ':' {
			return s
		}
		if c == '/' || c == '?' || c == '#' {
			return ""
		}
		s += string([]byte{c})
	}
	return ""
}

func urls(u string) {
	sec := &booklit.Section{}
	sec.SetTitle(booklit.String("T"), sec.Location, "tag")
	sec.Body = booklit.Sequence{booklit.Link{Content: booklit.String("l"), Target: u}, booklit.Image{Path: u}}
	n := 0
	for _, m := range page(sec) {
		for _, a := range []string{"href", "src"} {
			if val, ok := m.Attr(a); ok {
				n++
				s := scheme(val)
				v.Assert(s != "javascript" && s != "vbscript" && s != "data", "no script URL")
			}
		}
	}
	v.Assert(n == 2, "a link and an image")
	v.Reach("urls")
}

func H_script_urls() {
	pre := v.Pick("pre", "", " ", "\t", "\n", "\x01", "x")
	u := v.Pick("scheme", "javascript", "JavaScript", "java\tscript", "java\nscript", "javascript\t", "vbscript", "data", "java&#x73;cript", "javascript&colon;x", "javascript&Tab;")
	urls(pre + u + v.StrIn("rest", depth(2, 3), ":/&#"))
}

// tags that look like scripts: nor are the links to them
func H_script_tags() {
	pre := v.Pick("pre", "", " ", "\t", "\n", "\x01", "x")
	u := v.Pick("scheme", "javascript", "JavaScript", "java\tscript", "java\nscript", "javascript\t", "vbscript", "data", "java&#x73;cript", "javascript&colon;x", "javascript&Tab;")
	tag := pre + u + v.StrIn("rest", depth(1, 2), ":/&#")
	root := &booklit.Section{SplitSections: v.Bool("split")}
	root.SetTitle(booklit.String("T"), root.Location, "tag")
	sec := &booklit.Section{Body: booklit.Target{TagName: tag + "y", Title: booklit.String("T")}, Parent: root}
	sec.SetTitle(booklit.String("S"), sec.Location, tag)
	root.Children = append(root.Children, sec)
	v.Assert(sec.Body.Visit(&stages.Collect{Section: sec}) == nil, "collected")
	t := tag
	if v.Bool("target") {
		t += "y"
	}
	ref := &booklit.Reference{Section: root, TagName: t, Content: booklit.String("r")}
	root.Body = booklit.Sequence{ref, booklit.TableOfContents{Section: root}}
	n := 0
	for _, m := range page(root) {
		if val, ok := m.Attr("href"); ok {
			n++
			s := scheme(val)
			v.Assert(s != "javascript" && s != "vbscript" && s != "data", "no script URL")
		}
	}
	v.Assert(n == 2, "a reference and an entry")
	for _, t := range sec.Tags {
		s := scheme(html.URL(t))
		v.Assert(s != "javascript" && s != "vbscript" && s != "data", "no script URL")
	}
	v.Reach("urls")
}

func H_script_urls_case() {
	u := []byte("javascript:x")
	for i := range u {
		if i < depth(6, 10) && v.Bool("upper") {
			u[i] -= 'a' - 'A'
		}
	}
	urls(string(u))
}

// any change of one character
func H_script_urls_char() {
	u := []byte("javascript:x")
	k := v.Concrete(v.Int("at", 0, 11))
	u[k] = v.Byte("char")
	v.Assume(v.And(u[k] != 0, u[k] < 128))
	if v.Thorough() {
		j := v.Concrete(v.Int("and", 0, 11))
		u[j] = v.ByteIn("other", "\t\n &;/:x")
	}
	urls(string(u))
}
