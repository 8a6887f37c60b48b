package c16

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()
var text = render.NewTextEngine("txt")

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// owner is the section whose page a section is on.
func owner(s *booklit.Section) *booklit.Section {
	for s.Parent != nil && !s.Parent.SplitSections {
		s = s.Parent
	}
	return s
}

type page struct {
	ids   []string
	links []string
}

func read(pages map[string]string) map[string]page {
	out := map[string]page{}
	for name, s := range pages {
		ms, ok := lib.HTML(s)
		v.Assert(ok, "pages are well formed")
		p := page{ids: lib.IDs(ms)}
		for _, m := range ms {
			if href, ok := m.Attr("href"); ok {
				p.links = append(p.links, href)
			}
		}
		out[name] = p
	}
	return out
}

func leads(pages map[string]page, url, what string) {
	file, frag := lib.URL(url)
	p, ok := pages[file]
	v.Assert(ok, what+" leads to a written page")
	if frag != "" {
		v.Assert(lib.Count(p.ids, frag) == 1, what+" leads to one element of it")
	}
}

func check(root *booklit.Section) {
	written, err := lib.Pages(html, root)
	v.Assert(err == nil, "written")
	pages := read(written)
	n := 0
	lib.Walk(root, func(s *booklit.Section) {
		own := owner(s)
		if own == s {
			n++
		}
		for name, p := range pages {
			want := 0
			if name == own.PrimaryTag.Name+".html" {
				want = 1
			}
			v.Assert(lib.Count(p.ids, s.PrimaryTag.Name) == want, "each section is on exactly one page, its own or its nearest ancestor's")
		}
		for _, t := range s.Tags {
			u := html.URL(t)
			leads(pages, u, "the URL of a tag")
			file, frag := lib.URL(u)
			v.Assert(file == own.PrimaryTag.Name+".html", "the URL of a tag is on its section's page")
			want := t.Anchor
			if want == "" && own != s {
				want = s.PrimaryTag.Name
			}
			v.Assert(frag == want, "the fragment is the anchor or the inlined section's tag")
		}
	})
	v.Assert(len(pages) == n, "no other pages are written")
	for _, p := range pages {
		for _, l := range p.links {
			leads(pages, l, "a link of a page")
		}
	}
	v.Reach("pages")
}

func decl(i int) string {
	return v.Pick("decl", "", "\\split-sections", "\\single-page")
}

// documents of any shape and splitting, with a target in every section and
// links to every other section
func H_documents() {
	n := depth(4, 5)
	links := "\\table-of-contents"
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		links += "\\reference{s" + s + "}{x} \\reference{t" + s + "}{y} "
	}
	root, err := lib.Load(lib.Source(lib.Shape(n), func(i int) string {
		d := decl(i)
		s := "\\bold{\\target{t" + strconv.Itoa(i) + "}}"
		if i == 0 {
			s += links
		}
		return d + "\n\n" + s
	}))
	v.Assert(err == nil, "loads")
	check(root)
}

// links from a section below
func H_links() {
	n := 3
	at := v.Concrete(v.Int("at", 0, n-1))
	root, err := lib.Load(lib.Source(lib.Shape(n), func(i int) string {
		d := decl(i)
		if i != at {
			return d + "\n\n\\target{t" + strconv.Itoa(i) + "}{T}"
		}
		s := "\\table-of-contents"
		for k := 0; k < n; k++ {
			s += "\\reference{s" + strconv.Itoa(k) + "}"
			if k != at {
				s += "\\reference{t" + strconv.Itoa(k) + "}"
			}
		}
		return d + "\n\n" + s
	}))
	v.Assert(err == nil, "loads")
	check(root)
}

// several tags of a section, tags derived from titles and with any character
// in their names that file names may have
func H_names() {
	c := v.Byte("char")
	v.Assume(v.And(c >= ' ', c < 127))
	form := v.Pick("form", 0, 1, 2, 3)
	if form != 2 && form != 3 {
		v.Assume(c != '/')
	}
	names("x"+string([]byte{c})+"y", form)
}

// names that mean something in URLs
func H_odd_names() {
	s := v.Pick("name", "%41", "a%", "javascript:x", "mailto:x", "http:x", "c#", "?", "a?b#c", "#", ".", "..", "./x", "é", "a b", "+", "~x", "世:界", "&amp;", "%25", "x.html")
	form := v.Pick("form", 1, 2, 3)
	if form == 1 && s == "./x" {
		return
	}
	names(s+v.StrIn("more", depth(1, 2), ":%x#"), form)
}

func names(name string, form int) {
	split := v.Pick("split", "", "\\split-sections\n\n")
	e := lib.Escape(name)
	sub := []string{"\\title{Sub " + e + "}", "\\title{Sub}{" + e + "}{" + e + "2}", "\\title{Sub}\n\n\\target{" + e + "}", "\\title{Sub}\\set-partial{P}{a}\n\n\\list{a}{\\target{" + e + "}{T}{C}}"}[form]
	refs := "\\reference{root-2}"
	if form != 0 {
		refs += "\\reference{" + e + "}{x}"
	}
	root, err := lib.Load("\\title{Root}{root}{root-2}\n\n\\table-of-contents\n\n" + split + refs + "\n\n\\section{\n" + sub + "\n\n  \\section{\n    \\title{Deep}\n  }\n}\n")
	v.Assert(err == nil, "loads")
	check(root)
}

// text pages: the URL's file is written, and each section is on one page
func H_text() {
	n := depth(4, 5)
	parents := lib.Shape(n)
	root, err := lib.Load(lib.Source(parents, func(i int) string { return decl(i) + "\n\nbody" + strconv.Itoa(i) + "." }))
	v.Assert(err == nil, "loads")
	pages, err := lib.Pages(text, root)
	v.Assert(err == nil, "written")
	count := 0
	for i, s := range lib.ByTitle(root, n) {
		own := owner(s)
		if own == s {
			count++
		}
		file, frag := lib.URL(text.URL(s.PrimaryTag))
		v.Assert(file == own.PrimaryTag.Name+".txt" && (frag == "") == (own == s), "the URL is the section's page")
		for name, p := range pages {
			v.Assert(lib.Contains(p, "body"+strconv.Itoa(i)+".") == (name == file), "each section is on exactly one page")
		}
	}
	v.Assert(len(pages) == count, "no other pages are written")
	v.Reach("text")
}

// large documents, any section of which splits and another of which is a
// single page, with a target in every section and links to them from one
func H_large() {
	parents := lib.Large(depth(7, 10))
	n := len(parents)
	split, single, all := lib.One("split", n), lib.One("single", n), v.Bool("all split")
	at := n - 1
	if v.Thorough() && v.Bool("from the top") {
		at = 0
	}
	root, err := lib.Load(lib.Source(parents, func(i int) string {
		s := ""
		if split[i] != all {
			s += "\\split-sections\n\n"
		}
		if single[i] {
			s += "\\single-page\n\n"
		}
		s += "\\target{t" + strconv.Itoa(i) + "}{T}"
		for k := 0; i == at && k < n; k++ {
			s += "\\reference{s" + strconv.Itoa(k) + "}{x} \\reference{t" + strconv.Itoa(k) + "}{y} "
		}
		return s
	}))
	v.Assert(err == nil, "loads")
	check(root)
}
