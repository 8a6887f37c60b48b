package c03

import (
	"unicode/utf8"

	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

const alphabet = "\\{}-a \t"

func text(n int) string { return v.StrIn("text", n, alphabet) }

// any text of the line, including any bytes
func anyText(n int) string {
	s := v.Str("text", v.Len("n", n))
	for i := 0; i < len(s); i++ {
		v.Assume(v.And(s[i] != '\n', s[i] != '\r'))
	}
	return s
}

// trimmed is s without leading blanks.
func trimmed(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t') {
		s = s[1:]
	}
	return s
}

func prose(t string) {
	sec, err := lib.Eval(lib.Escape(t))
	if trimmed(t) == "" {
		// nothing but blanks is no document
		return
	}
	if !utf8.ValidString(t) {
		return
	}
	v.Assert(err == nil, "prose is accepted")
	para, ok := sec.Body.(booklit.Paragraph)
	v.Assert(ok && len(para) == 1, "one line of prose")
	v.Assert(para[0].String() == trimmed(t), "prose comes out as written")
	v.Reach("prose")
}

func H_prose()       { prose(text(depth(5, 7))) }
func H_prose_bytes() { prose(anyText(depth(3, 4))) }

func H_prose_lines() {
	a, b := text(depth(2, 3)), text(depth(2, 3))
	v.Assume(trimmed(a) != "")
	v.Assume(trimmed(b) != "")
	sec, err := lib.Eval(lib.Escape(a) + "\n" + lib.Escape(b) + "\n\nc")
	v.Assert(err == nil, "prose is accepted")
	seq, ok := sec.Body.(booklit.Sequence)
	v.Assert(ok && len(seq) == 2, "two paragraphs")
	p, ok := seq[0].(booklit.Paragraph)
	v.Assert(ok && len(p) == 2, "two lines")
	v.Assert(p[0].String() == trimmed(a), "first line as written")
	v.Assert(p[1].String() == trimmed(b), "second line as written")
	v.Assert(seq[1].String() == "c\n\n", "second paragraph as written")
}

func argument(t string) {
	rec := &lib.Recorder{}
	e := lib.Escape(t)
	_, err := lib.Eval("\\keep-both{"+e+"}{"+e+"}", rec.Factory())
	if !utf8.ValidString(t) {
		return
	}
	v.Assert(err == nil, "argument is accepted")
	v.Assert(len(rec.Contents) == 1 && len(rec.Texts) == 1, "called once")
	v.Assert(rec.Contents[0].String() == t, "content argument comes out as written")
	v.Assert(rec.Texts[0] == t, "text argument comes out as written")
	v.Reach("argument")
}

func H_argument()       { argument(text(depth(4, 6))) }
func H_argument_bytes() { argument(anyText(depth(2, 3))) }

// text around calls keeps its place
func H_between_calls() {
	a, b, c := text(depth(2, 3)), text(depth(2, 3)), text(1)
	v.Assume(trimmed(a) != "")
	rec := &lib.Recorder{}
	sec, err := lib.Eval(lib.Escape(a)+"\\keep{"+lib.Escape(b)+"}"+lib.Escape(c), rec.Factory())
	v.Assert(err == nil, "accepted")
	v.Assert(sec.Body.String() == trimmed(a)+b+c+"\n\n", "text stays in order around a call")
}

func verbatim(t string) {
	v.Assume(!lib.Contains(t, "}}}"))
	v.Assume(t == "" || t[len(t)-1] != '}')
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep-both{{{"+t+"}}}{{{"+t+"}}}", rec.Factory())
	if !utf8.ValidString(t) {
		return
	}
	v.Assert(err == nil, "verbatim text is accepted")
	v.Assert(len(rec.Contents) == 1, "called once")
	v.Assert(rec.Contents[0].String() == t, "verbatim text comes out as written")
	v.Assert(rec.Texts[0] == t, "verbatim text comes out as written as text")
	v.Reach("verbatim")
}

func H_verbatim()       { verbatim(text(depth(4, 6))) }
func H_verbatim_bytes() { verbatim(anyText(depth(3, 3))) }

func H_verbatim_block() {
	n := depth(2, 3)
	a, b := text(n), text(n)
	v.Assume(!lib.Contains(a, "}}}"))
	v.Assume(!lib.Contains(b, "}}}"))
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep{{{\nx"+a+"\n"+b+"\n\ny\n}}}", rec.Factory())
	v.Assert(err == nil, "verbatim block is accepted")
	v.Assert(len(rec.Contents) == 1, "called once")
	pre, ok := rec.Contents[0].(booklit.Preformatted)
	v.Assert(ok && len(pre) == 4, "four lines")
	v.Assert(pre[0].String() == "x"+a, "first line as written")
	v.Assert(pre[1].String() == b, "second line as written")
	v.Assert(pre[2].String() == "", "blank line kept")
	v.Assert(pre[3].String() == "y", "last line as written")
	v.Reach("block")
}

// escapes within preformatted text
func H_preformatted() {
	a := text(depth(3, 4))
	rec := &lib.Recorder{}
	_, err := lib.Eval("\\keep{{\nx"+lib.Escape(a)+"\n}}", rec.Factory())
	v.Assert(err == nil, "accepted")
	pre, ok := rec.Contents[0].(booklit.Preformatted)
	v.Assert(ok && len(pre) == 1, "one line")
	v.Assert(pre[0].String() == "x"+a, "as written")
}

// characters beyond ASCII
func H_unicode() {
	t := ""
	for i := 0; i < depth(3, 4); i++ {
		t += v.Pick("char", "é", "世", "😀", "a", "\\", "{", "}", "\u2028", "\ufeff", "\u0000")
	}
	prose(t)
	argument(t)
	if t[len(t)-1] != '}' {
		verbatim(t)
	}
}
