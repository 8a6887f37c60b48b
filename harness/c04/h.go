package c04

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func max(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// indent is an indentation: any of up to n blanks in the thorough tier, a
// choice of those otherwise.
func indent(n int) string {
	if v.Thorough() {
		return v.StrIn("blank", v.Len("indent", n), " \t")
	}
	if n > 2 {
		return v.Pick("indent", "", " ", "\t", " \t", "  ", "\t\t ")
	}
	return v.Pick("indent", "", " ", "\t ")
}

func skip(first, line string) string {
	if len(line) < len(first) {
		return ""
	}
	return line[len(first):]
}

func lines(c booklit.Content, want ...string) {
	pre, ok := c.(booklit.Preformatted)
	v.Assert(ok, "preformatted content")
	v.Assert(len(pre) == len(want), "every line is kept")
	for i := range want {
		v.Assert(pre[i].String() == want[i], "relative indentation")
	}
}

// char is any visible character without a meaning of its own.
func char() string {
	b := v.Byte("char")
	v.Assume(v.And(b > ' ', b < 127))
	v.Assume(v.And(b != '\\', v.And(b != '{', b != '}')))
	return string([]byte{b})
}

func block(open, shut string) {
	n := max(3, 3)
	a, b, c := indent(n), indent(n), indent(n)
	x, y := char(), char()
	blank := v.Pick("blank", "", " ", "\t  ")
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep"+open+"\n"+a+x+"\n"+b+y+"  z\n"+blank+"\n"+c+"w \n"+v.Pick("shut", "", " ")+shut, rec.Factory())
	v.Assert(err == nil && len(rec.Contents) == 1, "accepted")
	lines(rec.Contents[0], x, skip(a, b)+y+"  z", skip(a, blank), skip(a, c)+"w ")
	v.Reach("block")
}

func H_preformatted() { block("{{", "}}") }
func H_verbatim()     { block("{{{", "}}}") }

// a first line that is blank sets the indentation too
func H_blank_first() {
	a, b := indent(2), indent(max(3, 3))
	open, shut := "{{", "}}"
	if v.Bool("verbatim") {
		open, shut = "{{{", "}}}"
	}
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep"+open+"\n"+a+"\n"+b+"y\n"+shut, rec.Factory())
	v.Assert(err == nil && len(rec.Contents) == 1, "accepted")
	lines(rec.Contents[0], "", skip(a, b)+"y")
}

// a block in a line of another block
func H_nested() {
	n := max(2, 2)
	a, b, c := indent(n), indent(n), indent(n)
	p, q := indent(n), indent(n)
	x, y := char(), char()
	open, shut := "{{", "}}"
	if v.Bool("verbatim") {
		open, shut = "{{{", "}}}"
	}
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep{{\n"+a+x+"\n"+b+"\\keep"+open+"\n"+p+"i\n"+q+"j\n"+shut+"\n"+c+y+"\n}}", rec.Factory())
	v.Assert(err == nil && len(rec.Contents) == 2, "accepted")
	lines(rec.Contents[0], "i", skip(p, q)+"j")
	outer, ok := rec.Contents[1].(booklit.Preformatted)
	v.Assert(ok && len(outer) == 3, "every line is kept")
	v.Assert(outer[0].String() == x, "first line")
	v.Assert(outer[1].String() == skip(a, b)+"i\n"+skip(p, q)+"j\n", "the line with the inner block")
	v.Assert(outer[2].String() == skip(a, c)+y, "the line after the inner block")
	v.Reach("nested")
}

// the inner block on the first line
func H_nested_first() {
	n := max(2, 2)
	a, c := indent(n), indent(n)
	p, q := indent(n), indent(n)
	x, y := char(), char()
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep{{\n"+a+"\\keep{{\n"+p+x+"\n"+q+"j\n}}\n"+c+y+"\n}}", rec.Factory())
	v.Assert(err == nil && len(rec.Contents) == 2, "accepted")
	lines(rec.Contents[0], x, skip(p, q)+"j")
	outer, ok := rec.Contents[1].(booklit.Preformatted)
	v.Assert(ok && len(outer) == 2, "every line is kept")
	v.Assert(outer[1].String() == skip(a, c)+y, "the line after the inner block")
}

// blocks after one another: as arguments of one call, of two calls, of
// different kinds
func H_following() {
	n := max(2, 2)
	a, b := indent(n), indent(n)
	p, q := indent(n), indent(n)
	x, y := char(), char()
	o1, s1, o2, s2 := "{{", "}}", "{{", "}}"
	if v.Bool("first verbatim") {
		o1, s1 = "{{{", "}}}"
	}
	if v.Bool("second verbatim") {
		o2, s2 = "{{{", "}}}"
	}
	sep := v.Pick("between", "\\keep", "\n\n\\keep", " text \\keep{z}\\keep", "\n\\keep{\n \\keep{z}\n}\n\\keep")
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep"+o1+"\n"+a+x+"\n"+b+y+"\n"+s1+sep+o2+"\n"+p+"i\n"+q+"j\n"+s2, rec.Factory())
	v.Assert(err == nil && len(rec.Contents) >= 2, "accepted")
	lines(rec.Contents[0], x, skip(a, b)+y)
	lines(rec.Contents[len(rec.Contents)-1], "i", skip(p, q)+"j")
	v.Reach("following")
}
