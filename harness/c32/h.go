package c32

import (
	"bytes"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var engine = render.NewHTMLEngine()

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

var leaves = []string{"text", "reference", "target", "image", "list", "table", "definitions", "paragraph", "preformatted", "section", "toc", "lazy flow", "lazy block", "nothing"}

// node is content, and whether it is flow.
func leaf(kind string) (booklit.Content, bool) {
	t := booklit.String("t")
	never := func() (booklit.Content, error) {
		v.Fail("telling flow from block does not need the content")
		return nil, nil
	}
	switch kind {
	case "text":
		return booklit.String(v.StrIn("text", 1, "a\n<")), true
	case "reference":
		return &booklit.Reference{TagName: "x", Content: v.Pick[booklit.Content]("content", nil, booklit.List{})}, true
	case "target":
		return booklit.Target{TagName: "x", Title: t, Content: v.Pick[booklit.Content]("content", nil, booklit.List{}, t)}, true
	case "image":
		return booklit.Image{Path: "p"}, true
	case "list":
		return booklit.List{Items: []booklit.Content{t}, Ordered: v.Bool("ordered")}, false
	case "table":
		return booklit.Table{Rows: [][]booklit.Content{{t}}}, false
	case "definitions":
		return booklit.Definitions{{Subject: t, Definition: t}}, false
	case "paragraph":
		return booklit.Paragraph{t}, false
	case "preformatted":
		return booklit.Preformatted{t}, false
	case "section":
		return &booklit.Section{Title: t, Body: t}, false
	case "toc":
		return booklit.TableOfContents{Section: &booklit.Section{}}, false
	case "lazy flow":
		return booklit.LazyFlow(never), true
	case "lazy block":
		return booklit.LazyBlock(never), false
	case "nothing":
		return booklit.Sequence{}, true
	}
	panic(kind)
}

func tree(level int) (booklit.Content, bool) {
	if level == 0 {
		return leaf(v.Pick("leaf", leaves...))
	}
	kind := v.Pick("node", "leaf", "sequence", "styled", "link", "aux", "paragraph", "list", "table", "definitions", "preformatted")
	if kind == "leaf" {
		return tree(0)
	}
	c, flow := tree(level - 1)
	switch kind {
	case "sequence":
		// the other one is before or after it
		o, oflow := booklit.Content(booklit.String("x")), true
		if v.Bool("block beside") {
			o, oflow = booklit.Paragraph{o}, false
		}
		if v.Bool("last") {
			return booklit.Sequence{o, o, c}, flow && oflow
		}
		return booklit.Sequence{c, o}, flow && oflow
	case "styled":
		block := v.Bool("block")
		partials := booklit.Partials{"P": v.Pick[booklit.Content]("partial", booklit.String("p"), booklit.Paragraph{booklit.String("p")})}
		return booklit.Styled{Style: booklit.Style(v.Pick("style", "verbatim", "inset", "other")), Block: block, Content: c, Partials: partials}, flow && !block
	case "link":
		return booklit.Link{Content: c, Target: "url"}, flow
	case "aux":
		return booklit.Aux{Content: c}, flow
	case "paragraph":
		return booklit.Paragraph{c}, false
	case "list":
		return booklit.List{Items: []booklit.Content{c}}, false
	case "table":
		return booklit.Table{Rows: [][]booklit.Content{{c}}}, false
	case "definitions":
		return booklit.Definitions{{Subject: c, Definition: c}}, false
	case "preformatted":
		return booklit.Preformatted{c}, false
	}
	panic(kind)
}

func H_flow() {
	c, flow := tree(depth(3, 4))
	v.Assert(c.IsFlow() == flow, "flow if it fits within a sentence")
	v.Assert(c.IsFlow() == flow, "and it stays so")
	if flow {
		v.Reach("flow")
	} else {
		v.Reach("block")
	}
}

// stripping auxiliary content does not turn flow into block
func H_stripped() {
	c, flow := tree(depth(3, 4))
	if flow {
		v.Assert(booklit.StripAux(c).IsFlow(), "flow stays flow")
		v.Reach("stripped")
	}
}

// code is inline exactly when it is flow
func H_code() {
	kind := v.Pick("code", "words", "two words", "bold", "lines", "paragraphs", "pre", "pre line", "verbatim", "verbatim line", "list", "toc")
	src, block := "", true
	t := v.StrIn("text", 1, "ab<&")
	switch kind {
	case "words":
		src, block = "{"+t+"}", false
	case "two words":
		src, block = "{"+t+" b}", false
	case "bold":
		src, block = "{\\bold{"+t+"}}", false
	case "lines":
		src = "{\n  " + t + "\n}"
	case "paragraphs":
		src = "{\n  " + t + "\n\n  b\n}"
	case "pre":
		src = "{{\n  " + t + "\n    b\n}}"
	case "pre line":
		src, block = "{{"+t+"}}", false
	case "verbatim":
		src = "{{{\n  " + t + "\n}}}"
	case "verbatim line":
		src, block = "{{{"+t+"}}}", false
	case "list":
		src = "{\\list{" + t + "}}"
	case "toc":
		src = "{\\table-of-contents}"
	}
	alone := v.Bool("alone")
	doc := "\\title{T}{t}\n\n"
	if alone {
		doc += "\\code" + src + "\n"
	} else {
		doc += "x \\code" + src + " y\n"
	}
	sec, err := lib.Load(doc)
	v.Assert(err == nil, "the document is fine")
	buf := new(bytes.Buffer)
	v.Assert(engine.RenderSection(buf, sec) == nil, "it renders")
	ms, ok := lib.HTML(buf.String())
	v.Assert(ok, "as HTML")
	inline, pre := 0, 0
	for i, m := range ms {
		if m.K == '<' && m.Name == "code" {
			inline++
			v.Assert(ms[i+1].Name == t || ms[i+1].Name == t+" b" || ms[i+1].Name == "i" || ms[i+1].Name == "b" || ms[i+1].Name == "strong", "around the code")
		}
		if m.K == '<' && m.Name == "pre" {
			pre++
		}
	}
	if block {
		v.Assert(inline == 0 && pre > 0, "a block of code")
		v.Reach("block code")
	} else {
		v.Assert(inline == 1 && pre == 0, "inline code")
		v.Reach("inline code")
	}
	// inline code is part of a paragraph, a block is not
	body := sec.Body
	if seq, ok := body.(booklit.Sequence); ok && len(seq) == 1 {
		body = seq[0]
	}
	_, para := body.(booklit.Paragraph)
	v.Assert(para == !block, "blocks stand on their own")
}
