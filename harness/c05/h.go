package c05

import (
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

const alphabet = "\\{}-a \n"

func crlf(s string) string {
	out := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, '\r')
		}
		out = append(out, s[i])
	}
	return string(out)
}

func same(a, b, what string) {
	n1, err1 := ast.Parse("doc.lit", []byte(a))
	n2, err2 := ast.Parse("doc.lit", []byte(b))
	v.Assert((err1 == nil) == (err2 == nil), what+": accepted alike")
	if err1 != nil {
		return
	}
	v.Reach(what)
	v.Assert(lib.SameToks(lib.Flat(n1.(ast.Node)), lib.Flat(n2.(ast.Node))), what+": same tree")
}

func endings(src string) { same(src, crlf(src), "line endings") }

func H_endings_document()  { endings("a" + v.StrIn("src", depth(5, 6), alphabet) + "\nb") }
func H_endings_arguments() { endings("\\a{" + v.StrIn("src", depth(4, 5), alphabet) + "\n}{b\nc}\n") }
func H_endings_paragraphs() {
	endings("\\a{\n  b\n\n" + v.StrIn("src", depth(4, 5), alphabet) + "\n  c\n}\n")
}
func H_endings_blocks() {
	endings("\\a{{\n  b\n" + v.StrIn("one", depth(3, 4), alphabet) + "\n}}{{{\n b\n" + v.StrIn("two", depth(1, 2), alphabet) + "\n}}}")
}
func H_endings_comments() {
	endings("a{- b\n" + v.StrIn("src", depth(4, 5), alphabet) + "\n-}\n{- c\n\n -}\nd")
}

// comment is an arbitrary well-formed comment.
func comment() string {
	switch v.Int("comment", 0, 4) {
	case 0:
		return "{--}"
	case 1:
		c := v.ByteIn("c", "a \n\\}{-")
		d := v.ByteIn("d", "a \n\\}{-")
		// the comment must end where it is meant to
		v.Assume(v.Not(v.Or(v.And(c == '-', d == '}'), v.And(c == '{', d == '-'))))
		v.Assume(v.Not(v.Or(d == '{', c == '}')))
		return "{-" + string([]byte{c, d}) + "-}"
	case 2:
		return "{- x {- y -} z -}"
	case 3:
		return "{-\n\n \\f{ }\n-}"
	}
	return "{- {--}{- {- -} -} -}"
}

type piece struct {
	src  string
	text bool // ends in a visible character of text
}

func pieces(n int) []piece {
	var ps []piece
	for i := 0; i < n; i++ {
		switch v.Int("piece", 0, 6) {
		case 0:
			ps = append(ps, piece{"a", true})
		case 1:
			ps = append(ps, piece{" b", true})
		case 2:
			ps = append(ps, piece{"\\{", true})
		case 3:
			ps = append(ps, piece{"\\f{c}", false})
		case 4:
			ps = append(ps, piece{"\n", false})
		case 5:
			ps = append(ps, piece{"{e}", false})
		default:
			ps = append(ps, piece{" ", false})
		}
	}
	return ps
}

// a comment directly after any visible character of text
func within(open, shut string, n int) {
	ps := pieces(n)
	ps = append(ps, piece{"z", true})
	at := v.Concrete(v.Int("at", 0, len(ps)-1))
	v.Assume(ps[at].text)
	a, b := open, open
	for i, p := range ps {
		a += p.src
		b += p.src
		if i == at {
			b += comment()
		}
	}
	same(a+shut, b+shut, "comments in text")
}

func H_comment_prose()        { within("y", "\nx\n", depth(2, 4)) }
func H_comment_argument()     { within("\\g{y", "}", depth(2, 3)) }
func H_comment_paragraphs()   { within("\\g{\n  y", "\n}", depth(2, 3)) }
func H_comment_preformatted() { within("\\g{{\n  y", "\n}}\n\nx", depth(2, 3)) }

// comments on lines of their own between paragraphs
func H_comment_between() {
	gap := v.Pick("gap", "\n\n", "\n\n\n", "\n \n", "\n\n  ")
	a := "a\nb\\f{c}" + gap + "d e"
	b := "a\nb\\f{c}" + v.Pick("before", "\n\n", "\n\n\n", "\n\n  ") + comment() + v.Pick("after", "\n", "\n\n", "\n\n  ", "  \n\n") + "d e"
	same(a, b, "comments between paragraphs")
	same("\\g{\n "+a+"\n}", "\\g{\n "+b+"\n}", "comments between paragraphs")
}

// comments at the ends of a document
func H_comment_ends() {
	c := comment()
	same("a\n", c+"\na\n", "comments at the start")
	same("a\n", "a\n"+c+v.Pick("tail", "", "\n", "\n\n", "\n  "), "comments at the end")
}
