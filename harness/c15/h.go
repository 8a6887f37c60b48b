package c15

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func aux(c booklit.Content) bool {
	_, ok := c.(booklit.Aux)
	return ok
}

// strip is the documented result: auxiliary elements leave what holds them,
// and are empty where something has to stand.
func strip(c booklit.Content) booklit.Content {
	switch x := c.(type) {
	case nil:
		return nil
	case booklit.Aux:
		return booklit.Empty
	case booklit.Sequence:
		return booklit.Sequence(all(x))
	case booklit.Paragraph:
		return booklit.Paragraph(all(x))
	case booklit.Preformatted:
		return booklit.Preformatted(all(x))
	case booklit.List:
		return booklit.List{Items: all(x.Items), Ordered: x.Ordered}
	case booklit.Table:
		t := booklit.Table{}
		for _, r := range x.Rows {
			t.Rows = append(t.Rows, all(r))
		}
		return t
	case booklit.Definitions:
		d := booklit.Definitions{}
		for _, e := range x {
			d = append(d, booklit.Definition{Subject: strip(e.Subject), Definition: strip(e.Definition)})
		}
		return d
	case booklit.Styled:
		ps := booklit.Partials{}
		for k, p := range x.Partials {
			if p != nil {
				ps[k] = strip(p)
			}
		}
		return booklit.Styled{Style: x.Style, Block: x.Block, Content: strip(x.Content), Partials: ps}
	case booklit.Link:
		return booklit.Link{Content: strip(x.Content), Target: x.Target}
	case *booklit.Reference:
		return &booklit.Reference{Section: x.Section, TagName: x.TagName, Content: strip(x.Content), Optional: x.Optional, Location: x.Location}
	case booklit.Target:
		return booklit.Target{TagName: x.TagName, Location: x.Location, Title: strip(x.Title), Content: strip(x.Content)}
	case *booklit.Target:
		return strip(*x)
	}
	return c
}

func all(cs []booklit.Content) []booklit.Content {
	out := []booklit.Content{}
	for _, c := range cs {
		if !aux(c) {
			out = append(out, strip(c))
		}
	}
	return out
}

func check(c booklit.Content) {
	before := lib.Toks(c)
	got := booklit.StripAux(c)
	v.Assert(lib.SameToks(lib.Toks(c), before), "the original is unmodified")
	want := lib.Toks(strip(c))
	v.Assert(lib.SameToks(lib.Toks(got), want), "all auxiliary content is gone and all else stays")
	for _, t := range lib.Toks(got) {
		v.Assert(t.K != 'x', "none is left")
	}
	v.Assert(lib.SameToks(lib.Toks(booklit.StripAux(got)), want), "stripping again changes nothing")
	v.Reach("stripped")
}

func text() booklit.Content {
	return booklit.String(v.Str("text", 1))
}

func leaf() booklit.Content {
	switch v.Int("leaf", 0, 8) {
	case 0:
		return booklit.Aux{Content: text()}
	case 1:
		return booklit.Aux{Content: booklit.Sequence{text(), booklit.Aux{Content: text()}}}
	case 2:
		return text()
	case 3:
		return booklit.Sequence{booklit.Aux{Content: text()}, text(), booklit.Aux{Content: text()}}
	case 4:
		return booklit.Image{Path: "p", Description: "d"}
	case 5:
		return booklit.Sequence{text(), booklit.Aux{Content: text()}, booklit.Sequence{booklit.Aux{Content: text()}}, text()}
	case 6:
		return booklit.TableOfContents{Section: &booklit.Section{}}
	case 7:
		return &booklit.Section{Title: booklit.Aux{Content: text()}}
	}
	return booklit.LazyFlow(func() (booklit.Content, error) { panic("not forced") })
}

func H_nested() {
	check(lib.Nest(v.Len("depth", depth(3, 4)), lib.Containers, leaf()))
}

// any subset of the elements of a container
func H_elements() {
	n := depth(4, 5)
	els := make([]booklit.Content, n)
	for i := range els {
		els[i] = text()
		switch v.Int("element", 0, depth(3, 4)) {
		case 1:
			els[i] = booklit.Aux{Content: els[i]}
		case 2:
			els[i] = booklit.Styled{Style: "s", Content: booklit.Sequence{els[i], booklit.Aux{Content: text()}}}
		case 3:
			els[i] = booklit.Empty
		case 4:
			els[i] = booklit.Sequence{booklit.Aux{Content: els[i]}}
		}
	}
	var c booklit.Content
	switch v.Int("kind", 0, 7) {
	case 0:
		c = booklit.Sequence(els)
	case 1:
		c = booklit.Paragraph(els)
	case 2:
		c = booklit.Preformatted(els)
	case 3:
		c = booklit.List{Items: els, Ordered: v.Bool("ordered")}
	case 4:
		c = booklit.Table{Rows: [][]booklit.Content{els[:2], els[2:], els[1:2]}}
	case 5:
		c = booklit.Definitions{{Subject: els[0], Definition: els[1]}, {Subject: els[2], Definition: els[0]}}
	case 6:
		c = booklit.Styled{Style: "s", Block: v.Bool("block"), Content: els[0], Partials: booklit.Partials{"A": els[1], "B": els[2], "C": nil}}
	case 7:
		c = booklit.Target{TagName: "t", Title: els[0], Content: els[1]}
	}
	check(c)
}

// absent parts
func H_absent() {
	ref := &booklit.Reference{TagName: "r", Optional: v.Bool("optional")}
	tgt := booklit.Target{TagName: "t"}
	if v.Bool("title") {
		tgt.Title = leaf()
	} else {
		tgt.Content = leaf()
	}
	var c booklit.Content
	switch v.Int("kind", 0, 4) {
	case 0:
		c = ref
	case 1:
		c = tgt
	case 2:
		c = &tgt
	case 3:
		c = booklit.Styled{Style: "s", Content: leaf(), Partials: booklit.Partials{"nil": nil}}
	case 4:
		c = nil
		v.Assert(booklit.StripAux(nil) == nil, "nothing is left of nothing")
		return
	}
	check(lib.Nest(v.Len("depth", depth(1, 2)), lib.Containers, c))
}

// documents: what references and tables of contents show of titles
func H_documents() {
	src, keep := "", ""
	for i := 0; i < depth(3, 4); i++ {
		switch v.Int("piece", 0, 4) {
		case 0:
			src, keep = src+"a", keep+"a"
		case 1:
			src += "\\aux{b}"
		case 2:
			src, keep = src+"\\bold{c\\aux{d}}", keep+"c"
		case 3:
			src, keep = src+"\\link{e\\aux{f\\aux{g}}h}{u}", keep+"eh"
		case 4:
			src, keep = src+"\\code{\\aux{i}}", keep
		}
	}
	sec, err := lib.Load("\\title{" + src + "}")
	v.Assert(err == nil, "loads")
	before := lib.Toks(sec.Title)
	v.Assert(booklit.StripAux(sec.Title).String() == keep, "the rest of the title")
	v.Assert(sec.PrimaryTag.Name == keep, "its tag")
	v.Assert(lib.SameToks(lib.Toks(sec.Title), before), "and the title stays")
}
