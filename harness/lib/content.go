package lib

import (
	"sort"

	"github.com/vito/booklit"
)

// Toks lists a content's structure and text, with sequences spliced into what
// holds them and adjacent text joined.
func Toks(c booklit.Content) []Tok {
	f := &flatContent{}
	f.add(c)
	return f.out
}

// TokString is a readable form of Toks.
func TokString(c booklit.Content) string {
	s := ""
	for _, t := range Toks(c) {
		s += string([]byte{t.K}) + t.S + ";"
	}
	return s
}

type flatContent struct{ flat }

func (f *flatContent) tok(k byte, s string) { f.out = append(f.out, Tok{K: k, S: s}) }

func (f *flatContent) part(k byte, c booklit.Content) {
	f.mark(k)
	f.add(c)
}

func (f *flatContent) parts(open, each byte, cs []booklit.Content) {
	f.mark(open)
	for _, c := range cs {
		f.part(each, c)
	}
	f.mark(')')
}

func (f *flatContent) add(c booklit.Content) {
	switch x := c.(type) {
	case nil:
		f.mark('0')
	case booklit.Aux:
		f.part('x', x.Content)
		f.mark(')')
	case booklit.String:
		f.text(string(x))
	case booklit.Sequence:
		for _, c := range x {
			f.add(c)
		}
	case booklit.Paragraph:
		f.parts('P', 'L', x)
	case booklit.Preformatted:
		f.parts('R', 'L', x)
	case booklit.Styled:
		f.tok('S', string(x.Style))
		if x.Block {
			f.mark('b')
		}
		f.add(x.Content)
		var names []string
		for name := range x.Partials {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			f.tok('p', name)
			f.add(x.Partials[name])
		}
		f.mark(')')
	case *booklit.Reference:
		f.tok('F', x.TagName)
		if x.Optional {
			f.mark('o')
		}
		f.add(x.Content)
		f.mark(')')
	case booklit.Link:
		f.tok('K', x.Target)
		f.add(x.Content)
		f.mark(')')
	case booklit.Target:
		f.target(x)
	case *booklit.Target:
		f.target(*x)
	case booklit.Image:
		f.tok('M', x.Path)
		f.tok('m', x.Description)
	case booklit.List:
		k := byte('U')
		if x.Ordered {
			k = 'O'
		}
		f.parts(k, 'I', x.Items)
	case booklit.Table:
		f.mark('B')
		for _, row := range x.Rows {
			f.parts('r', 'c', row)
		}
		f.mark(')')
	case booklit.Definitions:
		f.mark('D')
		for _, d := range x {
			f.part('s', d.Subject)
			f.part('d', d.Definition)
		}
		f.mark(')')
	case booklit.TableOfContents:
		f.mark('C')
	case *booklit.Section:
		f.mark('X')
	case *booklit.Lazy:
		f.mark('Z')
	default:
		panic("unknown content")
	}
}

func (f *flatContent) target(x booklit.Target) {
	f.tok('T', x.TagName)
	f.add(x.Title)
	f.part('c', x.Content)
	f.mark(')')
}
