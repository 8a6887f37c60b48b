package lib

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/v"
)

// Containers are the places content can be nested in.
var Containers = []string{
	"sequence", "line", "second line", "preformatted", "styled", "partial",
	"link", "reference", "target title", "target content", "item", "ordered item",
	"cell", "second row", "subject", "definition", "aux",
}

// Inside puts content into a container of the given kind, next to other text.
func Inside(kind string, c booklit.Content) booklit.Content {
	before, after := booklit.String("<"), booklit.String(">")
	switch kind {
	case "sequence":
		return booklit.Sequence{before, c, after}
	case "line":
		return booklit.Paragraph{c, after}
	case "second line":
		return booklit.Paragraph{booklit.Sequence{before, before}, c}
	case "preformatted":
		return booklit.Preformatted{before, c, after}
	case "styled":
		return booklit.Styled{Style: booklit.StyleBold, Block: true, Content: c, Partials: booklit.Partials{"P": before}}
	case "partial":
		return booklit.Styled{Style: booklit.StyleItalic, Content: before, Partials: booklit.Partials{"P": c, "Q": after}}
	case "link":
		return booklit.Link{Content: c, Target: "url"}
	case "reference":
		return &booklit.Reference{TagName: "ref", Content: c, Optional: true}
	case "target title":
		return booklit.Target{TagName: "tgt", Title: c, Content: after}
	case "target content":
		return &booklit.Target{TagName: "tgt", Title: before, Content: c}
	case "item":
		return booklit.List{Items: []booklit.Content{before, c}}
	case "ordered item":
		return booklit.List{Items: []booklit.Content{c, after}, Ordered: true}
	case "cell":
		return booklit.Table{Rows: [][]booklit.Content{{before, c, after}}}
	case "second row":
		return booklit.Table{Rows: [][]booklit.Content{{before, after}, {c}}}
	case "subject":
		return booklit.Definitions{{Subject: c, Definition: after}}
	case "definition":
		return booklit.Definitions{{Subject: before, Definition: after}, {Subject: after, Definition: c}}
	case "aux":
		return booklit.Aux{Content: c}
	}
	panic(kind)
}

// Nest puts content at the given depth of arbitrary containers.
func Nest(depth int, kinds []string, c booklit.Content) booklit.Content {
	for i := 0; i < depth; i++ {
		c = Inside(v.Pick("container", kinds...), c)
	}
	return c
}

// Without lists containers but for some.
func Without(not ...string) []string {
	var out []string
next:
	for _, k := range Containers {
		for _, n := range not {
			if k == n {
				continue next
			}
		}
		out = append(out, k)
	}
	return out
}

// Shape is an arbitrary tree of n nodes: the parent of each but the first.
func Shape(n int) []int {
	ps := make([]int, n)
	ps[0] = -1
	for i := 1; i < n; i++ {
		ps[i] = v.Concrete(v.Int("parent", 0, i-1))
	}
	return ps
}

// Build makes sections of a shape, linked like loading them does.
func Build(parents []int) []*booklit.Section {
	secs := make([]*booklit.Section, len(parents))
	for i, p := range parents {
		s := &booklit.Section{Title: booklit.Empty, Body: booklit.Empty}
		if p >= 0 {
			s.Parent = secs[p]
			secs[p].Children = append(secs[p].Children, s)
		}
		secs[i] = s
	}
	return secs
}

// Vary gives sections attributes of any value, for checks of what does not
// depend on them.
func Vary(secs []*booklit.Section) {
	for i, s := range secs {
		s.Style = v.Str("style", 3)
		s.SplitSections, s.ResetDepth = v.Bool("split"), v.Bool("reset")
		s.PreventSplitSections, s.OmitChildrenFromTableOfContents = v.Bool("single"), v.Bool("omit")
		s.Location = ast.Location{Line: v.Int("line", 0, 99), Col: v.Int("col", 0, 99)}
		s.SetPartial("Partial", booklit.String("partial"))
		if i%3 != 1 {
			s.Path = v.Str("path", 2)
		}
	}
}

// Children lists the children of a node.
func Children(parents []int, i int) []int {
	var out []int
	for k, p := range parents {
		if p == i {
			out = append(out, k)
		}
	}
	return out
}

// Source writes a shape as a document whose sections are titled and tagged s0,
// s1 and so on, with declarations of each written between its title and its
// children.
func Source(parents []int, decl func(i int) string) string {
	return source(parents, 0, decl, "")
}

func source(parents []int, i int, decl func(i int) string, indent string) string {
	name := "s" + strconv.Itoa(i)
	out := indent + "\\title{" + name + "}{" + name + "}\n\n"
	if d := decl(i); d != "" {
		out += indent + d + "\n\n"
	}
	for _, c := range Children(parents, i) {
		out += indent + "\\section{\n" + source(parents, c, decl, indent+"  ") + indent + "}\n\n"
	}
	return out
}

// ByTitle maps the sections of a tree to their numbers in its shape.
func ByTitle(root *booklit.Section, n int) []*booklit.Section {
	out := make([]*booklit.Section, n)
	var walk func(s *booklit.Section)
	walk = func(s *booklit.Section) {
		if t := s.Title.String(); len(t) > 1 && t[0] == 's' {
			if i, err := strconv.Atoi(t[1:]); err == nil && i < n {
				out[i] = s
			}
		}
		for _, c := range s.Children {
			walk(c)
		}
	}
	walk(root)
	return out
}

// Grab is a plugin that hands out the section it is used by first.
func Grab(to **booklit.Section) booklit.PluginFactory {
	return func(s *booklit.Section) booklit.Plugin {
		if *to == nil {
			*to = s
		}
		return struct{}{}
	}
}

// Large is a tree of many nodes of one of four shapes: a chain, a star, a
// binary tree, and a chain with a star at its end.
func Large(n int) []int {
	kind := v.Concrete(v.Int("large", 0, 3))
	ps := make([]int, n)
	for i := range ps {
		switch {
		case i == 0:
			ps[i] = -1
		case kind == 0:
			ps[i] = i - 1
		case kind == 1:
			ps[i] = 0
		case kind == 2:
			ps[i] = (i - 1) / 2
		case i <= n/2:
			ps[i] = i - 1
		default:
			ps[i] = n / 2
		}
	}
	return ps
}

// One is any of n flags, or none.
func One(name string, n int) []bool {
	out := make([]bool, n)
	if i := v.Concrete(v.Int(name, -1, n-1)); i >= 0 {
		out[i] = true
	}
	return out
}
