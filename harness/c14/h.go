package c14

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

var count int

// target is a target of a name of its own or a shared one.
func target() booklit.Target {
	count++
	t := booklit.Target{
		TagName:  v.StrIn("tag", 1, "ab"),
		Title:    booklit.String("title"),
		Location: ast.Location{Line: count, Col: count, Offset: count},
	}
	if v.Bool("content") {
		t.Content = booklit.Sequence{booklit.String("content")}
	}
	return t
}

func value(t booklit.Target) booklit.Content {
	if v.Bool("pointer") {
		return &t
	}
	return t
}

// kinds content with targets is nested in; what a target or reference itself
// shows is shown elsewhere.
var kinds = lib.Without("reference", "target title", "target content", "aux")

func carries(tag booklit.Tag, t booklit.Target, sec *booklit.Section) bool {
	return tag.Name == t.TagName && tag.Anchor == t.TagName && tag.Section == sec &&
		tag.Location == t.Location && tag.Title == t.Title &&
		(tag.Content == nil) == (t.Content == nil) && (t.Content == nil || lib.SameToks(lib.Toks(tag.Content), lib.Toks(t.Content)))
}

func expect(tags []booklit.Tag, sec *booklit.Section, ts ...booklit.Target) {
	v.Assert(len(tags) == len(ts), "every target adds one tag and nothing else does")
	for i, t := range ts {
		v.Assert(carries(tags[i], t, sec), "the tag carries what the target has, in order")
	}
	v.Reach("targets")
}

func section() *booklit.Section {
	count = 0
	return &booklit.Section{Title: booklit.String("title"), Body: booklit.String("body")}
}

// one target at any depth of any containers, anywhere in a section
func H_nested() {
	sec := section()
	t := target()
	c := lib.Nest(v.Len("depth", depth(3, 4)), kinds, value(t))
	switch v.Int("where", 0, 2) {
	case 0:
		sec.Title = c
	case 1:
		sec.Body = c
	case 2:
		sec.SetPartial("P", c)
		sec.SetPartial("Q", booklit.String("q"))
	}
	v.Assert(lib.Collect(sec) == nil, "collected")
	expect(sec.Tags, sec, t)
}

// two targets in the places of one container
func H_order() {
	sec := section()
	a, b := target(), target()
	x, y := value(a), value(b)
	two := booklit.Sequence{x, booklit.String(" "), y}
	var c booklit.Content = two
	partial := false
	switch v.Int("container", 0, 8) {
	case 0:
	case 1:
		c = booklit.Paragraph(two)
	case 2:
		c = booklit.Preformatted(two)
	case 3:
		c = booklit.List{Items: two}
	case 4:
		c = booklit.Table{Rows: [][]booklit.Content{{x, y}, {booklit.Empty}}}
	case 5:
		c = booklit.Table{Rows: [][]booklit.Content{{booklit.Empty, x}, {y}}}
	case 6:
		c = booklit.Definitions{{Subject: x, Definition: y}}
	case 7:
		c = booklit.Definitions{{Subject: booklit.Empty, Definition: x}, {Subject: y, Definition: booklit.Empty}}
	case 8:
		c = booklit.Styled{Style: "s", Content: x, Partials: booklit.Partials{"P": y}}
		partial = true
	}
	c = lib.Nest(v.Len("depth", depth(1, 2)), kinds, c)
	if v.Bool("title") {
		sec.Title = c
	} else {
		sec.Body = c
	}
	v.Assert(lib.Collect(sec) == nil, "collected")
	if partial {
		v.Assert(len(sec.Tags) == 2, "every target adds one tag")
		v.Assert(carries(sec.Tags[0], a, sec) && carries(sec.Tags[1], b, sec) || carries(sec.Tags[0], b, sec) && carries(sec.Tags[1], a, sec), "each its own")
		return
	}
	expect(sec.Tags, sec, a, b)
}

// targets in content of any style, shown or in a partial
func H_styles() {
	sec := section()
	sec.Style = v.Str("section style", v.Len("length", depth(12, 16)))
	a, b := target(), target()
	c := booklit.Styled{Style: booklit.Style(v.Str("style", v.Len("length", depth(12, 16)))), Block: v.Bool("block"), Content: a, Partials: booklit.Partials{"P": b}}
	sec.Body = lib.Nest(v.Len("depth", 1), kinds, c)
	v.Assert(lib.Collect(sec) == nil, "collected")
	v.Assert(len(sec.Tags) == 2, "every target adds one tag")
	v.Assert(carries(sec.Tags[0], a, sec) && carries(sec.Tags[1], b, sec) || carries(sec.Tags[0], b, sec) && carries(sec.Tags[1], a, sec), "each its own, whatever the style")
	v.Reach("styles")
}

// title, body and partials of the sections of a tree
func H_sections() {
	n := depth(3, 4)
	secs := lib.Build(lib.Shape(n))
	lib.Vary(secs)
	count = 0
	want := make([][]booklit.Target, n)
	partial := make([]*booklit.Target, n)
	has := make([]bool, n)
	for i, s := range secs {
		s.SetTitle(booklit.String("t"), ast.Location{}, "s")
		s.SplitSections = v.Bool("split")
		if v.Bool("in title") {
			t := target()
			want[i] = append(want[i], t)
			s.Title = booklit.Sequence{s.Title, t}
		}
		if v.Bool("in body") {
			t := booklit.Target{TagName: "b", Title: booklit.String("b"), Location: ast.Location{Line: 100 + i}}
			want[i] = append(want[i], t)
			s.Body = booklit.Sequence{booklit.Paragraph{t}, s.Body}
		}
		if v.Bool("in partial") {
			t := booklit.Target{TagName: "p", Title: booklit.String("p"), Location: ast.Location{Line: 200 + i}}
			partial[i] = &t
			s.SetPartial("P", t)
			s.SetPartial("None", nil)
		}
	}
	v.Assert(lib.Collect(secs[0]) == nil, "collected")
	for i := n - 1; i >= 0; i-- {
		s := secs[i]
		added := s.Tags[1:]
		anchored := s.AnchorTags()
		v.Assert(len(anchored) == len(added), "the anchored tags are those of the targets")
		for j, t := range added {
			v.Assert(anchored[j].Name == t.Name && anchored[j].Section == s && anchored[j].Location == t.Location, "each of them, in order")
		}
		has[i] = len(added) > 0
		if !s.SplitSections {
			for _, c := range s.Children {
				for j := range secs {
					if secs[j] == c {
						has[i] = has[i] || has[j]
					}
				}
			}
		}
		v.Assert(s.HasAnchors() == has[i], "a section has anchors if it or a section inlined in it has one")
	}
	for i, s := range secs {
		v.Assert(s.Tags[0].Name == "s" && s.Tags[0].Anchor == "", "the section's own tags stay")
		tags := s.Tags[1:]
		if partial[i] == nil {
			expect(tags, s, want[i]...)
			continue
		}
		var rest []booklit.Tag
		found := 0
		for _, t := range tags {
			if carries(t, *partial[i], s) {
				found++
			} else {
				rest = append(rest, t)
			}
		}
		v.Assert(found == 1, "a target of a partial adds one tag")
		expect(rest, s, want[i]...)
	}
}

// content without targets adds no tags
func H_none() {
	sec := section()
	var leaf booklit.Content
	switch v.Int("leaf", 0, 5) {
	case 0:
		leaf = booklit.String("s")
	case 1:
		leaf = booklit.Image{Path: "p"}
	case 2:
		leaf = &booklit.Reference{TagName: "r", Section: sec}
	case 3:
		leaf = booklit.TableOfContents{Section: sec}
	case 4:
		leaf = booklit.Styled{Style: "s", Content: booklit.Empty, Partials: booklit.Partials{"nil": nil}}
	case 5:
		leaf = booklit.Sequence{}
	}
	sec.Body = lib.Nest(v.Len("depth", depth(2, 3)), kinds, leaf)
	sec.SetPartial("nil", nil)
	v.Assert(lib.Collect(sec) == nil, "collected")
	v.Assert(len(sec.Tags) == 0, "no other tags")
	v.Reach("none")
}

// documents: targets in every place base functions put them, with any text
func H_documents() {
	name := v.StrIn("tag", depth(1, 2), "ab -")
	args := v.Pick("args", "", "{T}", "{T}{C}")
	tgt := "\\target{" + name + "}" + args
	wrap := v.Pick("in", "%", "x %y", "\\bold{%}", "\\italic{\\link{%}{u}}", "\\list{a}{%}", "\\ordered-list{%}{a}", "\\table{\\table-row{a}{%}}{\\table-row{b}{c}}",
		"\\definitions{\\definition{%}{b}}{\\definition{c}{d}}", "\\definitions{\\definition{a}{b}}{\\definition{c}{%}}", "\\inset{\n  a\n\n  %\n}", "\\code{{\n  a\n  %\n}}", "\\set-partial{P}{%}", "\\aside{\\larger{\\smaller{%}}}")
	src := "\\title{A}{a}\n\n"
	at := len(src)
	for i := 0; i < len(wrap); i++ {
		if wrap[i] == '%' {
			at = len(src)
			src += tgt
		} else {
			src += wrap[i : i+1]
		}
	}
	if v.Bool("section") {
		pre := "\\title{R}{r}\n\n\\section{\n"
		src = pre + src + "\n}\n"
		at += len(pre)
	}
	sec, err := lib.Load(src)
	v.Assert(err == nil, "loads")
	if len(sec.Children) > 0 {
		v.Assert(len(sec.Tags) == 1, "the parent gets no tag")
		sec = sec.Children[0]
	}
	v.Assert(len(sec.Tags) == 2, "one tag is added")
	tag := sec.Tags[1]
	v.Assert(tag.Name == name && tag.Anchor == name && tag.Section == sec, "named after the target")
	v.Assert(tag.Location == lib.Locate(src, at), "located at the target")
	title := name
	if args != "" {
		title = "T"
	}
	v.Assert(tag.Title.String() == title, "with its title")
	v.Assert((tag.Content != nil) == (args == "{T}{C}") && (tag.Content == nil || tag.Content.String() == "C"), "and content")
	v.Reach("documents")
}
