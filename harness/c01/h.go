package c01

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// every byte string up to the length
func H_bytes() { check(v.Str("src", v.Len("n", depth(3, 4)))) }

const alphabet = "\\{}-a \n\r"

// every string of the characters the grammar distinguishes
func H_syntax() { check(v.StrIn("src", depth(5, 7), alphabet)) }

func H_inline() {
	check("\\a{" + v.StrIn("src", depth(4, 6), alphabet) + v.Pick("end", "", "}", "}}"))
}

func H_preformatted() {
	check("\\a{{\n" + v.StrIn("src", depth(4, 6), alphabet) + v.Pick("end", "\n}}", "}}"))
}

func H_verbatim() {
	check("\\a{{{" + v.StrIn("src", depth(4, 6), alphabet) + v.Pick("end", "}}}", "\n}}}"))
}

func H_comment() { check("a{-" + v.StrIn("src", depth(4, 6), alphabet) + "-}") }

func H_lines() {
	check("ab\n\\a{c}\n\nd" + v.StrIn("src", depth(3, 5), alphabet) + "e\nf")
}

func check(src string) {
	node, err := ast.Parse("doc.lit", []byte(src))
	if err == nil {
		v.Assert(node != nil, "neither document nor error")
		n, ok := node.(ast.Node)
		v.Assert(ok, "not a document")
		lib.Flat(n)
		v.Reach("document")
		return
	}
	v.Reach("error")
	e, ok := ast.UnpackError(err)
	v.Assert(ok, "error without location")
	v.Assert(e.Inner != nil, "location without error")
	located(src, e.Location)
	v.Observe("error", err.Error())
}

func located(src string, l ast.Location) {
	v.Assert(v.And(0 <= l.Offset, l.Offset <= len(src)), "offset is a position of the input")
	off := v.Concrete(l.Offset)
	want := locate(src, off)
	if off < len(src) && src[off] == '\n' {
		// a line break may count as the start of the line it begins
		v.Assert(v.Or(l == want, l == ast.Location{Line: want.Line + 1, Col: 0, Offset: off}), "line and column belong to the offset")
		return
	}
	v.Assert(l == want, "line and column belong to the offset")
}

// locate is lib.Locate with every invalid byte counting as a character.
func locate(s string, off int) ast.Location {
	line, col := 1, 1
	for i, c := range s {
		if i >= off {
			break
		}
		if c == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return ast.Location{Line: line, Col: col, Offset: off}
}

// through the processor, from a file
func H_file() {
	src := v.StrIn("src", depth(3, 4), alphabet)
	path := v.Dir() + "/doc.lit"
	v.WriteFile(path, src, 1000)
	sec, err := (&load.Processor{}).EvaluateFile(nil, path, nil)
	v.Assert((sec == nil) == (err != nil), "either a document or an error")
	_, perr := ast.Parse(path, []byte(src))
	pe, isParse := err.(booklit.ParseError)
	v.Assert(isParse == (perr != nil), "syntax errors are reported as such")
	if isParse {
		v.Reach("file error")
		v.Assert(pe.FilePath == path, "error names the file")
		located(src, pe.NodeLocation)
		v.Assert(pe.Error() != "", "message")
	}
}
