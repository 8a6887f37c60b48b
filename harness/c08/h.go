package c08

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// Makers produces content of every kind.
type Makers struct{ shared booklit.Sequence }

func (m Makers) Nothing()                         {}
func (m Makers) Nil() booklit.Content             { return nil }
func (m Makers) NilErr() (booklit.Content, error) { return nil, nil }
func (m Makers) Flow(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "flow", Content: c}
}
func (m Makers) Block(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "block", Block: true, Content: c}
}
func (m Makers) Tab() booklit.Content { return booklit.Table{} }
func (m Makers) Seq() booklit.Content {
	return booklit.Sequence{booklit.String("1"), booklit.Image{Path: "i"}}
}
func (m Makers) None() booklit.Content                  { return booklit.Sequence{} }
func (m Makers) Shared() booklit.Content                { return m.shared }
func (m Makers) Same(c booklit.Content) booklit.Content { return c }

func factory(m Makers) booklit.PluginFactory {
	return func(*booklit.Section) booklit.Plugin { return m }
}

// shared is a sequence with room to spare.
func shared(spare int) booklit.Sequence {
	s := make(booklit.Sequence, 0, 1+spare)
	return append(s, booklit.String("s"))
}

type piece struct {
	src   string
	toks  []lib.Tok
	block bool
	none  bool
}

func tok(k byte, s string) lib.Tok { return lib.Tok{K: k, S: s} }

func letter() string {
	b := v.Byte("letter")
	v.Assume(v.And(b >= '0', b <= '9'))
	return string([]byte{b})
}

func pieceOf(kinds int) piece {
	switch v.Int("piece", 0, kinds-1) {
	case 0:
		s := letter()
		return piece{src: s, toks: []lib.Tok{tok('t', s)}}
	case 1:
		return piece{src: "\\nothing", none: true}
	case 2:
		s := letter()
		return piece{src: "\\flow{" + s + "}", toks: []lib.Tok{tok('S', "flow"), tok('t', s), tok(')', "")}}
	case 3:
		s := letter()
		return piece{src: "\\block{" + s + "}", toks: []lib.Tok{tok('S', "block"), tok('b', ""), tok('t', s), tok(')', "")}, block: true}
	case 4:
		return piece{src: "\\shared", toks: []lib.Tok{tok('t', "s")}}
	case 5:
		return piece{src: "\\seq", toks: []lib.Tok{tok('t', "1"), tok('M', "i"), tok('m', "")}}
	case 6:
		return piece{src: "\\nil", none: true}
	case 7:
		return piece{src: "\\nil-err", none: true}
	case 8:
		return piece{src: "\\tab", toks: []lib.Tok{tok('B', ""), tok(')', "")}, block: true}
	}
	s := letter()
	return piece{src: "\\same{" + s + "\\nothing\\shared}", toks: []lib.Tok{tok('t', s), tok('t', "s")}}
}

type toks struct{ out []lib.Tok }

func (t *toks) add(xs ...lib.Tok) {
	for _, x := range xs {
		if k := len(t.out) - 1; x.K == 't' && k >= 0 && t.out[k].K == 't' {
			t.out[k].S += x.S
			continue
		}
		t.out = append(t.out, x)
	}
}

// paragraph writes a paragraph of lines and says what it must produce.
func paragraph(lines [][]piece, indent string) (string, []lib.Tok) {
	src := ""
	out := &toks{}
	kept, block := 0, false
	for _, l := range lines {
		src += indent
		any := false
		blk := false
		for _, p := range l {
			src += p.src
			any = any || !p.none
			blk = blk || p.block
		}
		src += "\n"
		if !any {
			continue
		}
		kept++
		block = blk
		out.add(tok('L', ""))
		for _, p := range l {
			out.add(p.toks...)
		}
	}
	if kept == 0 {
		return src, nil
	}
	if kept == 1 && block {
		return src, out.out[1:]
	}
	res := append([]lib.Tok{tok('P', "")}, out.out...)
	return src, append(res, tok(')', ""))
}

func check(src, pre, post string, want []lib.Tok) {
	sh := shared(v.Concrete(v.Int("spare", 0, 2)))
	sec, err := lib.Eval(pre+src+post, factory(Makers{sh}))
	v.Assert(err == nil, "accepted")
	v.Assert(lib.SameToks(lib.Toks(sec.Body), want), "exactly the content its pieces produce, in order")
	v.Assert(len(sh) == 1 && sh[0] == booklit.Content(booklit.String("s")), "shared content is not modified")
	v.Reach("content")
}

func lineOf(n, kinds int) []piece {
	var l []piece
	for i := 0; i < n; i++ {
		l = append(l, pieceOf(kinds))
	}
	return l
}

// one line of any pieces
func H_line() {
	src, want := paragraph([][]piece{lineOf(depth(3, 4), 10)}, "")
	check(src, "", "", want)
}

// a paragraph of lines
func H_lines() {
	src, want := paragraph([][]piece{lineOf(1, 6), lineOf(2, 6), lineOf(1, 4)}, "")
	check(src, "", "", want)
}

// paragraphs
func H_paragraphs() {
	n := depth(2, 3)
	src := ""
	out := &toks{}
	for i := 0; i < n; i++ {
		s, w := paragraph([][]piece{lineOf(1, 5), lineOf(1, 4)}, "")
		src += s + "\n"
		out.add(w...)
	}
	check(src, "", "", out.out)
}

// an argument of several paragraphs
func H_argument() {
	a, wa := paragraph([][]piece{lineOf(2, 5)}, "  ")
	b, wb := paragraph([][]piece{lineOf(1, 5), lineOf(1, 4)}, "  ")
	out := &toks{}
	out.add(tok('S', "block"), tok('b', ""))
	out.add(wa...)
	out.add(wb...)
	out.add(tok(')', ""))
	check("\\block{\n"+a+"\n"+b+"}", "", "\n", out.out)
}

// a sequence argument of several lines
func H_argument_lines() {
	a, b := lineOf(1, 8), lineOf(depth(1, 2), 8)
	out := &toks{}
	out.add(tok('P', ""), tok('L', ""), tok('t', "x"), tok('S', "flow"))
	src := "x\\flow{"
	block := false
	for _, p := range a {
		src += p.src
		out.add(p.toks...)
		block = block || p.block
	}
	src += "\n  "
	out.add(tok('t', " "))
	for _, p := range b {
		src += p.src
		out.add(p.toks...)
		block = block || p.block
	}
	src += "}y"
	out.add(tok(')', ""), tok('t', "y"), tok(')', ""))
	want := out.out
	if block {
		// one block of the whole line
		want = want[2 : len(want)-1]
	}
	check(src, "", "", want)
}

// preformatted lines keep blank ones
func H_preformatted() {
	a, b := lineOf(depth(1, 2), 10), lineOf(1, 10)
	out := &toks{}
	src := "\\block{{\n"
	out.add(tok('S', "block"), tok('b', ""), tok('R', ""), tok('L', ""))
	for _, p := range a {
		src += p.src
		out.add(p.toks...)
	}
	src += "\n\n  "
	out.add(tok('L', ""), tok('L', ""), tok('t', "  "))
	for _, p := range b {
		src += p.src
		out.add(p.toks...)
	}
	out.add(tok(')', ""), tok(')', ""))
	check(src+"\n}}", "", "", out.out)
}

// content kept by partials and titles is not affected by what follows
func H_partials() {
	m := Makers{shared(v.Concrete(v.Int("spare", 0, 3)))}
	a, b := lineOf(1, 10), lineOf(depth(1, 2), 10)
	src := "\\set-partial{A}{\\shared"
	out := &toks{}
	out.add(tok('t', "s"))
	for _, p := range a {
		src += p.src
		out.add(p.toks...)
	}
	src += "}\n\n\\shared"
	for _, p := range b {
		src += p.src
	}
	sec, err := lib.Eval(src, factory(m))
	v.Assert(err == nil, "accepted")
	v.Assert(lib.SameToks(lib.Toks(sec.Partials["A"]), out.out), "content kept elsewhere stays as it was")
}

// Append itself

func content(i int) booklit.Content {
	switch v.Int("content", 0, 4) {
	case 0:
		return booklit.String(letter())
	case 1:
		return booklit.Table{}
	case 2:
		s := make(booklit.Sequence, 0, 2+v.Concrete(v.Int("spare", 0, 2)))
		return append(s, booklit.String(letter()), booklit.Image{Path: "i"})
	case 3:
		return booklit.Sequence{}
	}
	return nil
}

func toksOf(cs ...booklit.Content) []lib.Tok {
	out := &toks{}
	for _, c := range cs {
		if c != nil {
			out.add(lib.Toks(c)...)
		}
	}
	return out.out
}

func result(c booklit.Content) []lib.Tok {
	if c == nil {
		return nil
	}
	return lib.Toks(c)
}

// joins starting from the same content do not affect one another
func H_append() {
	first, a, b, c := content(0), content(1), content(2), content(3)
	base := booklit.Append(first, a)
	one := booklit.Append(base, b)
	two := booklit.Append(base, c)
	three := booklit.Append(one, c)
	v.Assert(lib.SameToks(result(base), toksOf(first, a)), "joined")
	v.Assert(lib.SameToks(result(one), toksOf(first, a, b)), "joined further")
	v.Assert(lib.SameToks(result(two), toksOf(first, a, c)), "joined differently")
	v.Assert(lib.SameToks(result(three), toksOf(first, a, b, c)), "joined again")
	v.Reach("append")
}

// many at once
func H_append_many() {
	first := content(0)
	var rest []booklit.Content
	n := v.Len("n", depth(2, 4))
	for i := 0; i < n; i++ {
		rest = append(rest, content(i))
	}
	all := append([]booklit.Content{first}, rest...)
	v.Assert(lib.SameToks(result(booklit.Append(first, rest...)), toksOf(all...)), "none lost")
}
