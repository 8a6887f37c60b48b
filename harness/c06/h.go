package c06

import (
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// text before a call, with line breaks, comments, escapes and multi-byte characters
func lead(label string, n int) string { return v.StrIn(label, n, "a \n\t}{\\-") }

func H_document() { check(lead("a", depth(3, 5))+"\\f"+lead("b", depth(1, 2))+"\\g", 0) }

func H_crlf() { check(v.StrIn("a", depth(3, 4), "a \r\n")+"\\f\r\n \\g{x}\n\\h", 3) }

func H_unicode() {
	u := ""
	for i := 0; i < depth(3, 4); i++ {
		u += v.Pick("char", "a", "é", "世", "😀", "\n", " ")
	}
	check(u+"\\f{é\\g{"+v.Pick("in", "x", "ü", "\n世\n")+"}}é\\h", 3)
}

func H_inline() { check("\\f{"+lead("a", depth(3, 4))+"\\g{x}"+lead("b", depth(1, 2))+"}\\h", 0) }

func H_paragraphs() {
	check("x\n\\f{\n"+lead("a", depth(2, 3))+"\\g"+lead("b", depth(1, 2))+"\n}\n\\h", 0)
}

func H_preformatted() {
	check("\\f{{\n"+lead("a", depth(3, 4))+"\\g{x}\n}}\\h", 0)
}

func H_verbatim() {
	check("\\f{{{\n"+lead("a", depth(3, 4))+"\\g{x}\n}}}\\h{y}", 0)
}

func H_nested() {
	check("\\f{\\g{\n"+lead("a", depth(1, 2))+"{\\h}\n}"+lead("b", 1)+"{- c\n -}\\i{{{x}}}}", 0)
}

func check(src string, atLeast int) {
	node, err := ast.Parse("doc.lit", []byte(src))
	if err != nil {
		v.Reach("rejected")
		return
	}
	got := lib.Flat(node.(ast.Node))
	calls := 0
	last := -1
	for _, t := range got {
		if t.K != 'I' {
			continue
		}
		calls++
		off := v.Concrete(t.Loc.Offset)
		v.Assert(off > last && off < len(src), "calls are located in source order")
		last = off
		v.Assert(src[off] == '\\', "located at a backslash")
		v.Assert(len(src)-off > len(t.S), "the name follows")
		v.Assert(src[off+1:off+1+len(t.S)] == t.S, "the name follows its backslash")
		v.Assert(t.Loc == lib.Locate(src, off), "line and column of the backslash")
	}
	v.Assert(calls >= atLeast, "calls found")
	if calls > 1 {
		v.Reach("several calls")
	}
	// the offsets are those the documented syntax gives
	want, ok := lib.RefParse(src)
	if ok {
		w := lib.Flat(want)
		if lib.SameToks(got, w) {
			v.Assert(lib.SameLocs(got, w), "located where the call is written")
		}
	}
}
