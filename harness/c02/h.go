package c02

import (
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

const alphabet = "\\{}-a \t\n"
const withCR = "\\{}-a \n\r\t"

func H_document() { check(hole("src", depth(6, 8), alphabet)) }

func H_breaks() { check("a" + hole("src", depth(5, 6), " \t\r\na") + "b") }

func H_argument() {
	check("\\a{" + hole("src", depth(5, 7), alphabet) + "}")
}

func H_arguments() {
	check("\\a{" + hole("one", depth(2, 3), alphabet) + "}{" + hole("two", depth(2, 3), alphabet) + "}")
}

func H_paragraphs() {
	check("\\a{\n b" + hole("src", depth(5, 6), alphabet) + "c\n}\nd")
}

func H_wrapped() {
	check("x \\a{b" + hole("src", depth(5, 6), withCR) + "c}d")
}

func H_preformatted() {
	check("\\a{{\n" + hole("src", depth(5, 6), alphabet) + "\n}}")
}

func H_verbatim_line() {
	check("\\a{{{" + hole("src", depth(5, 6), alphabet) + "}}}")
}

func H_verbatim_block() {
	check("\\a{{{\n" + hole("src", depth(5, 6), alphabet) + "\n}}}")
}

func H_comment() { check("a{-" + hole("src", depth(5, 7), alphabet) + "-}b") }

func H_nested_comment() {
	check("a {- b {- c" + hole("src", depth(4, 6), "{-}\n c") + "-} d -}\n\ne")
}

func H_braces() { check("a{" + hole("src", depth(5, 7), alphabet) + "}b") }

// names: every character
func H_name() { check("\\" + v.Str("name", depth(1, 2)) + "{x}") }

// between documents of several kinds of arguments
func H_mixed() {
	check("\\a{b}{{\n" + v.StrIn("one", 2, alphabet) + "\n}}{{{" + hole("two", depth(1, 2), alphabet) + "}}}{\n" + hole("three", depth(1, 2), alphabet) + "\n}c")
}

// hole is any string of up to n characters.
func hole(label string, n int, alphabet string) string {
	return v.StrIn(label, v.Len("length", n), alphabet)
}

// pieces of syntax in any order
func H_pieces() {
	src := ""
	for i, n := 0, v.Len("pieces", depth(4, 5)); i < n; i++ {
		src += v.Pick("piece", "a", " ", "\n", "\r\n", "{--}", "{-", "-}", "{", "}", "\\b", "{{\n", "\n}}", "{{{", "}}}")
	}
	check(src)
}

func H_comments() {
	src := "a"
	for i, n := 0, v.Len("pieces", depth(5, 6)); i < n; i++ {
		src += v.Pick("piece", "a", " ", "\n", "{--}", "\\b{", "{", "}")
	}
	check(src + "b")
}

func check(src string) {
	if !ascii(src) {
		// the documented syntax is about text
		v.Reach("not ASCII")
		return
	}
	want, ok := lib.RefParse(src)
	node, err := ast.Parse("doc.lit", []byte(src))
	v.Assert((err == nil) == ok, "accepted exactly if it follows the syntax")
	if err != nil {
		v.Reach("rejected")
		return
	}
	v.Reach("accepted")
	got := lib.Flat(node.(ast.Node))
	v.Assert(lib.SameToks(got, lib.Flat(want)), "the documented tree")
}

func ascii(s string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = v.And(r, s[i] < 0x80)
	}
	return r
}
