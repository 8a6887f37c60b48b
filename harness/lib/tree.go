package lib

import "github.com/vito/booklit/ast"

// Tok is one element of a flattened syntax tree.
type Tok struct {
	K   byte
	S   string
	Loc ast.Location
}

// Flat lists a syntax tree's structure and text, with adjacent text joined.
func Flat(n ast.Node) []Tok {
	f := &flat{}
	f.node(n)
	return f.out
}

type flat struct{ out []Tok }

func (f *flat) text(s string) {
	if s == "" {
		return
	}
	if k := len(f.out) - 1; k >= 0 && f.out[k].K == 't' {
		f.out[k].S += s
		return
	}
	f.out = append(f.out, Tok{K: 't', S: s})
}

func (f *flat) mark(k byte) { f.out = append(f.out, Tok{K: k}) }

func (f *flat) node(n ast.Node) {
	switch x := n.(type) {
	case ast.String:
		f.text(string(x))
	case ast.Sequence:
		for _, c := range x {
			f.node(c)
		}
	case ast.Paragraph:
		f.mark('P')
		for _, l := range x {
			f.mark('L')
			f.node(l)
		}
		f.mark(')')
	case ast.Preformatted:
		f.mark('R')
		for _, l := range x {
			f.mark('L')
			f.node(l)
		}
		f.mark(')')
	case ast.Invoke:
		f.out = append(f.out, Tok{K: 'I', S: x.Function, Loc: x.Location})
		for _, a := range x.Arguments {
			f.mark('A')
			f.node(a)
		}
		f.mark(')')
	default:
		panic("unknown node")
	}
}

// SameToks compares two flattened trees up to positions.
func SameToks(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K != b[i].K || a[i].S != b[i].S {
			return false
		}
	}
	return true
}

// SameLocs compares the positions of two equally shaped trees.
func SameLocs(a, b []Tok) bool {
	for i := range a {
		if a[i].Loc != b[i].Loc {
			return false
		}
	}
	return true
}
