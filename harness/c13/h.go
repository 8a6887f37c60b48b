package c13

import (
	"bytes"
	"errors"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

type def struct {
	name string
	loc  ast.Location
	sec  *booklit.Section
	text string
}

// resolve checks a reference against the tags of its document.
func resolve(ref *booklit.Reference, defs []def, allow bool) {
	booklit.AllowBrokenReferences = allow
	defer func() { booklit.AllowBrokenReferences = false }()
	var hits []def
	for _, d := range defs {
		if d.name == ref.TagName {
			hits = append(hits, d)
		}
	}
	for round := 0; round < 2; round++ {
		t, err := ref.Tag()
		disp, derr := ref.Display()
		if ref.Content != nil {
			v.Assert(derr == nil && lib.SameToks(lib.Toks(disp), lib.Toks(ref.Content)), "its own content is displayed")
			v.Assert(ref.String() == ref.Content.String(), "as text too")
		}
		switch {
		case len(hits) == 1:
			v.Reach("resolved")
			v.Assert(err == nil && derr == nil && t != nil, "a unique tag resolves")
			v.Assert(t.Name == hits[0].name && t.Section == hits[0].sec && t.Location == hits[0].loc, "to that tag")
			if ref.Content == nil {
				v.Assert(disp.String() == hits[0].text && ref.String() == hits[0].text, "and displays its title")
			}
		case len(hits) == 0 && ref.Optional:
			v.Reach("optional")
			v.Assert(err == nil && derr == nil && t == nil, "an optional reference may be broken")
			if ref.Content == nil {
				v.Assert(disp.String() == "" && ref.String() == "", "and displays nothing")
			}
		case allow:
			v.Reach("allowed")
			v.Assert(err == nil && derr == nil && t != nil, "broken references are allowed")
			v.Assert(t.Name == ref.TagName, "the placeholder is named after the tag")
			if ref.Content == nil {
				v.Assert(lib.Contains(disp.String(), ref.TagName), "and shows its name")
			}
		case len(hits) == 0:
			v.Reach("unknown")
			var unknown booklit.UnknownTagError
			v.Assert(t == nil && errors.As(err, &unknown), "an unknown tag is reported")
			v.Assert(unknown.TagName == ref.TagName && unknown.NodeLocation == ref.Location, "by name and place")
			if ref.Content == nil {
				v.Assert(derr != nil, "nothing to display")
			}
		default:
			v.Reach("ambiguous")
			var amb booklit.AmbiguousReferenceError
			v.Assert(t == nil && errors.As(err, &amb), "an ambiguous tag is reported")
			v.Assert(amb.TagName == ref.TagName && amb.NodeLocation == ref.Location, "by name and place")
			v.Assert(len(amb.DefinedLocations) == len(hits), "with every definition")
			for _, h := range hits {
				n := 0
				for _, l := range amb.DefinedLocations {
					if l.NodeLocation == h.loc && l.FilePath == h.sec.FilePath() {
						n++
					}
				}
				v.Assert(n == 1, "each of them once")
			}
			if ref.Content == nil {
				v.Assert(derr != nil, "nothing to display")
			}
		}
	}
}

// references from any section of any tree with any tags
func H_trees() {
	n := depth(3, 4)
	secs := lib.Build(lib.Shape(n))
	lib.Vary(secs)
	var defs []def
	for i, s := range secs {
		s.Path = v.Pick("path", "", "f.lit")
		if v.Bool("tagged") {
			name := v.StrIn("name", 1, "abc")
			d := def{name, ast.Location{Line: i + 1, Col: 1, Offset: i}, s, "T" + name}
			s.SetTag(name, booklit.String(d.text), d.loc)
			defs = append(defs, d)
		}
	}
	ref := &booklit.Reference{Section: secs[v.Concrete(v.Int("from", 0, n-1))], TagName: v.StrIn("ref", 1, "abc"), Location: ast.Location{Line: 9, Col: 9, Offset: 9}}
	ref.Optional = v.Bool("optional")
	if v.Bool("content") {
		ref.Content = booklit.Sequence{booklit.String("shown"), booklit.Image{Path: "x"}}
	}
	resolve(ref, defs, v.Bool("allow"))
}

// names of any characters
func H_names() {
	secs := lib.Build([]int{-1, 0})
	lib.Vary(secs)
	var defs []def
	for i, s := range secs {
		name := v.Str("name", depth(1, 2))
		d := def{name, ast.Location{Line: i + 1}, s, name}
		s.SetTag(name, booklit.String(name), d.loc)
		defs = append(defs, d)
	}
	ref := &booklit.Reference{Section: secs[1], TagName: v.Str("ref", depth(1, 2))}
	resolve(ref, defs, v.Bool("allow"))
}

// one section with the same tag several times
func H_same_section() {
	sec := &booklit.Section{Path: "f.lit"}
	var defs []def
	n := v.Len("n", depth(3, 4))
	for i := 0; i < n; i++ {
		name := v.StrIn("name", 1, "ab")
		d := def{name, ast.Location{Line: i + 1}, sec, "T"}
		sec.SetTagAnchored(name, booklit.String("T"), d.loc, nil, name)
		defs = append(defs, d)
	}
	resolve(&booklit.Reference{Section: sec, TagName: "a", Optional: v.Bool("optional")}, defs, v.Bool("allow"))
}

// Holder gives documents optional references and records all of them.
type Holder struct {
	sec  *booklit.Section
	refs *[]*booklit.Reference
	look bool // at the text of references right away
}

func (h Holder) Maybe(tag string, content ...booklit.Content) booklit.Content {
	ref := &booklit.Reference{Section: h.sec, TagName: tag, Optional: true, Location: h.sec.InvokeLocation}
	if len(content) > 0 {
		ref.Content = content[0]
	}
	*h.refs = append(*h.refs, ref)
	if h.look {
		_ = ref.String()
	}
	return ref
}

func (h Holder) Note(c booklit.Content) booklit.Content {
	*h.refs = append(*h.refs, c.(*booklit.Reference))
	if h.look {
		_ = c.String()
	}
	return c
}

// documents whose references are made by the base plugin or a plugin, loaded
// and rendered
func H_documents() {
	tag := v.StrIn("tag", 1, "ab")
	title := v.Pick("title", "\\title{One}{a}", "\\title{One}{b}", "\\title{a}")
	in := v.Bool("inner")
	call := "\\note{\\reference"
	opt := v.Bool("optional")
	if opt {
		call = "\\maybe"
	}
	shown := v.Bool("content")
	c := call + "{a}"
	if shown {
		c += "{shown}"
	}
	if !opt {
		c += "}"
	}
	var refs []*booklit.Reference
	body := "x " + c
	src := title + "\n\n"
	tgt := "y \\target{" + tag + "}{Two}"
	if in {
		src += tgt + "\n\n\\section{\n  \\title{Sub}\n\n" + body + "\n}\n"
	} else {
		src += body + "\n\n\\section{\n  \\title{Sub}\n\n" + tgt + "\n}\n"
	}
	look := v.Bool("look")
	booklit.AllowBrokenReferences = look && v.Bool("early allow")
	sec, err := lib.Load(src, func(s *booklit.Section) booklit.Plugin { return Holder{s, &refs, look} })
	booklit.AllowBrokenReferences = false
	v.Assert(err == nil, "loads")
	v.Assert(len(refs) == 1, "one reference")
	where := sec
	if !in {
		where = sec.Children[0]
	}
	var defs []def
	if lib.Contains(title, "a}") {
		t := "One"
		if title == "\\title{a}" {
			t = "a"
		}
		defs = append(defs, def{"a", sec.TitleLocation, sec, t})
	}
	at := 0
	for i := range src {
		if src[i] == 't' && i > 0 && src[i-1] == '\\' && i+2 < len(src) && src[i+1] == 'a' {
			at = i - 1
		}
	}
	defs = append(defs, def{tag, lib.Locate(src, at), where, "Two"})
	allow := v.Bool("allow")
	resolve(refs[0], defs, allow)
	hits := 0
	for _, d := range defs {
		if d.name == "a" {
			hits++
		}
	}
	booklit.AllowBrokenReferences = allow
	buf := new(bytes.Buffer)
	err = html.RenderSection(buf, sec)
	booklit.AllowBrokenReferences = false
	v.Assert((err == nil) == (hits == 1 || hits == 0 && opt || allow), "broken references fail the rendering unless allowed or optional")
	if err == nil && shown {
		v.Assert(lib.Contains(buf.String(), "shown"), "content is displayed")
	}
	if err == nil {
		v.Assert(lib.Contains(buf.String(), "<a href") == (hits > 0 || !opt), "a reference without a tag is no link")
	}
	v.Reach("documents")
}

// references in large trees
func H_large() {
	n := depth(9, 14)
	secs := lib.Build(lib.Large(n))
	lib.Vary(secs)
	var defs []def
	a, b := v.Concrete(v.Int("one", -1, n-1)), v.Concrete(v.Int("other", -1, n-1))
	for i, s := range secs {
		s.Path = "f.lit"
		name := "n" + string([]byte{'a' + byte(i)})
		if i == a || i == b {
			name = "x"
		}
		d := def{name, ast.Location{Line: i + 1, Col: 1, Offset: i}, s, "T" + name}
		s.SetTag(name, booklit.String(d.text), d.loc)
		defs = append(defs, d)
	}
	ref := &booklit.Reference{Section: secs[v.Concrete(v.Int("from", 0, n-1))], TagName: "x", Location: ast.Location{Line: 9, Col: 9, Offset: 9}}
	resolve(ref, defs, v.Bool("allow"))
}

// a reference which is looked at while the document grows
func H_growing() {
	secs := lib.Build([]int{-1, 0, 0, 1})
	lib.Vary(secs)
	for _, s := range secs {
		s.Path = "f.lit"
	}
	ref := &booklit.Reference{Section: secs[1], TagName: "a", Optional: v.Bool("optional"), Location: ast.Location{Line: 9, Col: 9, Offset: 9}}
	if v.Bool("content") {
		ref.Content = booklit.String("shown")
	}
	allow := v.Bool("allow")
	var defs []def
	hits := 0
	for i := 0; i < depth(3, 4); i++ {
		switch v.Pick("op", "text", "resolve", "tag") {
		case "text":
			booklit.AllowBrokenReferences = allow
			_ = ref.String()
			booklit.AllowBrokenReferences = false
		case "resolve":
			// a tag which is unique so far would be remembered
			if hits != 1 {
				resolve(ref, defs, allow)
			}
		case "tag":
			name := v.StrIn("name", 1, "ab")
			s := secs[v.Concrete(v.Int("section", 0, 3))]
			d := def{name, ast.Location{Line: i + 1, Col: 1, Offset: i}, s, "T" + name}
			s.SetTag(name, booklit.String(d.text), d.loc)
			defs = append(defs, d)
			if name == "a" {
				hits++
			}
		}
	}
	resolve(ref, defs, allow)
	v.Reach("grown")
}
