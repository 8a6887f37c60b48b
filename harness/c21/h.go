package c21

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()
var text = render.NewTextEngine("txt")

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// words drops punctuation and layout, keeping letters and digits.
func words(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] > ' ' && s[i] != '\n' && s[i] != ':' && s[i] != '|' && s[i] != '*' && s[i] != '.' {
			out += s[i : i+1]
		}
	}
	return out
}

// spoken is the text of content, in order. Targets show nothing.
func spoken(c booklit.Content) string {
	out := ""
	all := func(cs []booklit.Content) {
		for _, c := range cs {
			out += spoken(c)
		}
	}
	switch x := c.(type) {
	case booklit.String:
		out = words(string(x))
	case booklit.Sequence:
		all(x)
	case booklit.Paragraph:
		all(x)
	case booklit.Preformatted:
		all(x)
	case booklit.Styled:
		out = spoken(x.Content)
	case booklit.Link:
		out = spoken(x.Content)
	case booklit.Aux:
		out = spoken(x.Content)
	case booklit.Table:
		for _, r := range x.Rows {
			all(r)
		}
	case booklit.Definitions:
		for _, d := range x {
			out += spoken(d.Subject) + spoken(d.Definition)
		}
	case booklit.List:
		for i, c := range x.Items {
			if x.Ordered {
				out += strconv.Itoa(i + 1)
			}
			out += spoken(c)
		}
	case *booklit.Reference:
		out = spoken(x.Content)
	}
	return out
}

// check compares the index of a document with its tags.
func check(e render.Engine, root *booklit.Section, plain bool) {
	dir := v.Dir()
	// an older, longer index is in the way
	old := "{\"old\":{}}"
	for i := 0; i < 9; i++ {
		old += old
	}
	v.WriteFile(dir+"/index.json", old, 1)
	v.Assert(render.Writer{Engine: e, Destination: dir}.WriteSearchIndex(root, "index.json") == nil, "written")
	s, ok := v.ReadFile(dir + "/index.json")
	v.Assert(ok, "there")
	index, ok := lib.JSON(s)
	v.Assert(ok, "is JSON")

	names := map[string]bool{}
	lib.Walk(root, func(s *booklit.Section) {
		for _, t := range s.Tags {
			names[t.Name] = true
			_, ok := index[t.Name]
			v.Assert(ok, "every tag has an entry")
		}
	})
	v.Assert(len(index) == len(names), "there are no other entries")
	for name, doc := range index {
		found := false
		v.Assert(len(doc) == 5, "entries have their five fields")
		lib.Walk(root, func(s *booklit.Section) {
			for _, t := range s.Tags {
				if t.Name != name {
					continue
				}
				own := t.Content
				if own == nil {
					own = s.Body
				}
				depth := 0
				for p := s; p.Parent != nil; p = p.Parent {
					depth++
				}
				found = found || doc["location"] == e.URL(t) && doc["title"] == t.Title.String() &&
					doc["text"] == own.String() && (!plain || words(doc["text"]) == spoken(own)) &&
					doc["depth"] == strconv.Itoa(depth) && doc["section_tag"] == s.PrimaryTag.Name
			}
		})
		v.Assert(found, "entries give their tag's URL, title, text, depth and section")
	}
	v.Reach("index")
}

func engine() render.Engine {
	if v.Bool("text") {
		return text
	}
	return html
}

// sections with targets, duplicates among them
func H_tags() {
	n := depth(3, 4)
	parents := lib.Shape(n)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = v.Concrete(v.Int("targets", 0, 5))
	}
	split := v.Bool("split")
	src := lib.Source(parents, func(i int) string {
		k := strconv.Itoa(i)
		out := "body" + k
		if split {
			out = "\\split-sections\n\n" + out
		}
		switch kinds[i] {
		case 1:
			out += " \\target{x" + k + "}"
		case 2:
			out += " \\target{x" + k + "}{title\\bold{" + k + "}}"
		case 3:
			out += " \\target{x" + k + "}{title}{content" + k + "}"
		case 4:
			out += " \\target{same}{title" + k + "}{content" + k + "} \\target{same}"
		case 5:
			out += "\n\n\\list{\\target{x" + k + "}{t}{\n  a\n\n  b\n}\\target{y" + k + "}}{c}"
		}
		return out
	})
	omit := v.Bool("omit")
	if omit {
		src += "\n\\omit-children-from-table-of-contents\n"
	}
	root, err := lib.Load(src)
	v.Assert(err == nil && root.OmitChildrenFromTableOfContents == omit, "loads")
	check(engine(), root, true)
}

// sections with several tags, and without a body
func H_titles() {
	src := "\\title{A\\aux{x}\\bold{\"b}}" + v.Pick("tags", "", "{t}", "{t}{u}", "{t}{s}") + "\n\n" + v.Pick("body", "", "text\n\n") +
		"\\section{\n\\title{S}{s}{r}\n\n" + v.Pick("inner", "", "text\n\n\\target{in}\n") + "}\n"
	root, err := lib.Load(src)
	v.Assert(err == nil, "loads")
	check(engine(), root, false)
}

// any text, in any place
func H_text() {
	t := v.StrIn("text", depth(2, 3), "a \"\\<\n&{")
	name, title, content := "n", booklit.Content(booklit.String("t")), booklit.Content(booklit.String("c"))
	s := &booklit.Section{Body: booklit.String("body")}
	s.SetTitle(booklit.String("T"), s.Location, "tag")
	switch v.Concrete(v.Int("place", 0, 3)) {
	case 0:
		name += t
	case 1:
		title = booklit.Sequence{title, booklit.String(t)}
	case 2:
		content = booklit.Sequence{content, booklit.String(t)}
	case 3:
		s.Body = booklit.Sequence{booklit.String("b"), booklit.String(t)}
		content = nil
	}
	s.SetTagAnchored(name, title, s.Location, content, "anchor")
	check(html, s, false)
}

// content of every kind
func H_kinds() {
	s := &booklit.Section{Body: booklit.String("body")}
	s.SetTitle(booklit.String("T"), s.Location, "tag")
	var leaf booklit.Content = booklit.String("a b")
	switch v.Pick("leaf", "text", "no text", "nothing", "target") {
	case "no text":
		leaf = booklit.Empty
	case "nothing":
		leaf = booklit.Sequence{}
	case "target":
		leaf = booklit.Target{TagName: "y", Title: booklit.Empty}
	}
	c := lib.Nest(depth(2, 3), lib.Without("reference", "target title", "target content"), leaf)
	if v.Bool("body") {
		s.Body = c
	} else {
		s.SetTagAnchored("x", booklit.String("x"), s.Location, c, "x")
	}
	check(html, s, true)
}

// large documents, any section of which splits and any of which is a single
// page
func H_large() {
	parents := lib.Large(depth(8, 12))
	n := len(parents)
	split, single := lib.One("split", n), lib.One("single", n)
	root, err := lib.Load(lib.Source(parents, func(i int) string {
		s := "body"
		if split[i] {
			s += "\n\n\\split-sections"
		}
		if single[i] {
			s += "\n\n\\single-page"
		}
		return s + "\n\n\\target{x" + strconv.Itoa(i) + "}{t}"
	}))
	v.Assert(err == nil, "loads")
	check(html, root, true)
}
