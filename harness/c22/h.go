package c22

import (
	"bytes"
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()
var text = render.NewTextEngine("txt")

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func number(parents []int, i int) string {
	p := parents[i]
	if p < 0 {
		return ""
	}
	n := 0
	for _, c := range lib.Children(parents, p) {
		n++
		if c == i {
			break
		}
	}
	if up := number(parents, p); up != "" {
		return up + "." + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

// url of a section: its page, or where it is on the page it is on.
func url(parents []int, split []bool, i int) string {
	o := i
	for parents[o] >= 0 && !split[parents[o]] {
		o = parents[o]
	}
	u := "s" + strconv.Itoa(o) + ".html"
	if o != i {
		u += "#s" + strconv.Itoa(i)
	}
	return u
}

// want lists entries as ( LINK | LABEL nested entries ).
func want(parents []int, split, omit []bool, i int) []string {
	var out []string
	if omit[i] {
		return out
	}
	for _, c := range lib.Children(parents, i) {
		out = append(out, "(", url(parents, split, c)+"|"+number(parents, c)+" s"+strconv.Itoa(c)+"t")
		out = append(out, want(parents, split, omit, c)...)
		out = append(out, ")")
	}
	return out
}

func entries(page string) []string {
	ms, ok := lib.HTML(page)
	v.Assert(ok, "well formed")
	var out []string
	link := -1
	for _, m := range ms {
		switch {
		case m.K == '<' && m.Name == "li":
			out = append(out, "(")
		case m.K == '/' && m.Name == "li":
			out = append(out, ")")
		case m.K == '<' && m.Name == "a":
			if href, ok := m.Attr("href"); ok {
				out = append(out, href+"|")
				link = len(out) - 1
			}
		case m.K == '/' && m.Name == "a":
			link = -1
		case m.K == 't' && link >= 0:
			out[link] += m.Name
		}
	}
	return out
}

func page(e render.Engine, s *booklit.Section) string {
	buf := new(bytes.Buffer)
	v.Assert(e.RenderSection(buf, s) == nil, "renders")
	return buf.String()
}

func same(got, want []string) {
	v.Assert(len(got) == len(want), "every section below, and no other")
	for i := range got {
		v.Assert(got[i] == want[i], "is listed in order, numbered, linked and nested")
	}
	v.Reach("contents")
}

// textual are the lines of plain text.
func textual(s string) []string {
	var out []string
	line := ""
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '\n' {
			line += s[i : i+1]
			continue
		}
		if line != "" {
			out = append(out, line)
		}
		line = ""
	}
	return out
}

func wantText(parents []int, omit []bool, i int) []string {
	var out []string
	if omit[i] {
		return out
	}
	for _, c := range lib.Children(parents, i) {
		out = append(out, number(parents, c)+" s"+strconv.Itoa(c)+"t")
		out = append(out, wantText(parents, omit, c)...)
	}
	return out
}

func H_contents() {
	n := depth(5, 6)
	parents := lib.Shape(n)
	secs := lib.Build(parents)
	split, omit := make([]bool, n), make([]bool, n)
	some := depth(3, 3) // how many sections split or omit
	for i, s := range secs {
		s.SetTitle(booklit.Sequence{booklit.String("s" + strconv.Itoa(i)), booklit.Aux{Content: booklit.String("aux")}, booklit.String("t")}, s.Location, "s"+strconv.Itoa(i), "other"+strconv.Itoa(i))
		if len(lib.Children(parents, i)) > 0 && some > 0 {
			split[i], omit[i] = v.Bool("split"), v.Bool("omit")
			s.SplitSections, s.OmitChildrenFromTableOfContents = split[i], omit[i]
			some--
		}
	}
	at := v.Concrete(v.Int("at", 0, n-1))
	// on a page of its own
	on := &booklit.Section{Body: booklit.TableOfContents{Section: secs[at]}}
	on.SetTitle(booklit.String("P"), on.Location, "p")
	same(entries(page(html, on)), want(parents, split, omit, at))
	on.Title = booklit.String("P\n")
	got := textual(page(text, on))
	v.Assert(len(got) > 1, "page")
	same(got[2:], wantText(parents, omit, at))
}

// documents that declare their contents
func H_documents() {
	n := depth(4, 5)
	parents := lib.Shape(n)
	split, omit := make([]bool, n), make([]bool, n)
	at := v.Concrete(v.Int("at", 0, n-1))
	src := lib.Source(parents, func(i int) string {
		out := ""
		if i == at {
			out += "\\table-of-contents\n\n"
		}
		if len(lib.Children(parents, i)) > 0 {
			split[i], omit[i] = v.Bool("split"), v.Bool("omit")
			if omit[i] {
				out += "\\omit-children-from-table-of-contents\n\n"
			}
			if split[i] {
				out += "\\split-sections\n\n"
			}
		}
		return out + "text"
	})
	// the titles have auxiliary content
	doc := ""
	for i := 0; i < len(src); i++ {
		if i+9 < len(src) && src[i:i+7] == "\\title{" {
			doc += "\\title{" + src[i+7:i+9] + "\\aux{aux}t}"
			i += 9
			continue
		}
		doc += src[i : i+1]
	}
	root, err := lib.Load(doc)
	v.Assert(err == nil, "loads")
	var secs []*booklit.Section
	byTag := map[string]*booklit.Section{}
	lib.Walk(root, func(s *booklit.Section) { byTag[s.PrimaryTag.Name] = s })
	for i := range parents {
		secs = append(secs, byTag["s"+strconv.Itoa(i)])
	}
	same(entries(page(html, secs[at])), want(parents, split, omit, at))
}

// large trees, any section of which splits and any of which omits its own
func H_large() {
	parents := lib.Large(depth(9, 13))
	n := len(parents)
	secs := lib.Build(parents)
	split, omit := lib.One("split", n), lib.One("omit", n)
	for i, s := range secs {
		s.SetTitle(booklit.String("s"+strconv.Itoa(i)+"t"), s.Location, "s"+strconv.Itoa(i))
		s.SplitSections, s.OmitChildrenFromTableOfContents = split[i], omit[i]
	}
	at := v.Concrete(v.Int("at", 0, 1))
	on := &booklit.Section{Body: booklit.TableOfContents{Section: secs[at]}}
	on.SetTitle(booklit.String("P"), on.Location, "p")
	same(entries(page(html, on)), want(parents, split, omit, at))
	on.Title = booklit.String("P\n")
	got := textual(page(text, on))
	v.Assert(len(got) > 1, "page")
	same(got[2:], wantText(parents, omit, at))
}
