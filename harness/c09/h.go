package c09

import (
	"errors"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// derived is the documented tag of a title's text.
func derived(s string) string {
	// ' & ' reads as ' and '
	t := ""
	for i := 0; i < len(s); {
		if i+3 <= len(s) && s[i] == ' ' && s[i+1] == '&' && s[i+2] == ' ' {
			t += " and "
			i += 3
			continue
		}
		t += s[i : i+1]
		i++
	}
	out := ""
	space := false
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' {
			if !space {
				out += "-"
			}
			space = true
			continue
		}
		space = false
		switch {
		case c >= 'A' && c <= 'Z':
			out += string([]byte{c - 'A' + 'a'})
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9', c == '_', c == '-':
			out += t[i : i+1]
		}
	}
	return out
}

func settle(title string, display booklit.Content) {
	sec := &booklit.Section{Title: booklit.Empty, Body: booklit.Empty}
	loc := ast.Location{Line: 3, Col: 4, Offset: 5}
	sec.SetTitle(display, loc)
	v.Assert(len(sec.Tags) == 1, "one tag")
	v.Assert(sec.Tags[0].Name == derived(title), "derived from the title")
	v.Assert(sec.PrimaryTag.Name == sec.Tags[0].Name, "and primary")
	v.Assert(sec.PrimaryTag.Section == sec && sec.Tags[0].Section == sec, "of the section")
	v.Assert(sec.Title == display, "title set")
	v.Assert(sec.TitleLocation == loc && sec.Tags[0].Location == loc, "located")
	v.Assert(sec.Tags[0].Anchor == "", "without anchor")
	v.Reach("derived")
}

// any text of a range of characters
func H_derived() {
	s := v.StrIn("title", depth(4, 5), "aZ0 &\t-_!")
	settle(s, booklit.String(s))
}

// any ASCII text
func H_derived_ascii() {
	s := v.Str("title", depth(3, 4))
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 128)
	}
	settle(s, booklit.String(s))
}

func H_derived_unicode() {
	s := ""
	for i := 0; i < depth(3, 4); i++ {
		s += v.Pick("char", "é", "世", "a", " ", "\u00a0", "B", "-", "&", "\u212a", "\u0130", "\u017f", "\u2003", "\u0663")
	}
	settle(s, booklit.String(s))
}

// title content in all its forms, as called by documents
func H_derived_document() {
	src, text := "", ""
	for i := 0; i < depth(2, 3); i++ {
		b := v.ByteIn("char", "aZ& -{")
		c := string([]byte{b})
		switch v.Int("piece", 0, 5) {
		case 0:
			src += lib.Escape(c)
			text += c
		case 1:
			src += "\\aux{" + lib.Escape(c) + "}"
		case 2:
			src += "\\bold{" + lib.Escape(c) + "\\aux{x}}"
			text += c
		case 3:
			src += "\\link{" + lib.Escape(c) + "}{u}"
			text += c
		case 5:
			src += "a & "
			text += "a & "
		case 4:
			src += "\\italic{\\code{{{" + c + "}}}}"
			text += c
		}
	}
	sec, err := lib.Load("a\n\n  \\title{" + src + "}")
	v.Assert(err == nil, "accepted")
	v.Assert(len(sec.Tags) == 1, "one tag")
	v.Assert(sec.PrimaryTag.Name == derived(text), "derived from the title without auxiliary content")
	v.Assert(sec.TitleLocation == ast.Location{Line: 3, Col: 3, Offset: 5}, "located")
}

// listed tags
func H_listed() {
	n := 1 + v.Len("n", depth(2, 3))
	var names []string
	title := v.Pick("title", "T", "A", "Ab")
	src := "\\title{" + title + "}"
	for i := 0; i < n; i++ {
		names = append(names, v.StrIn("tag", v.Len("len", 2), "ab &"))
		src += "{" + names[i] + "}"
	}
	sec, err := lib.Load(src)
	v.Assert(err == nil, "accepted")
	v.Assert(len(sec.Tags) == n, "exactly the listed tags")
	for i, t := range sec.Tags {
		v.Assert(t.Name == names[i], "in order")
		v.Assert(t.Section == sec && t.Title == booklit.Content(booklit.String(title)) && t.Anchor == "", "tags are the section's")
	}
	v.Assert(sec.PrimaryTag.Name == names[0], "the first is primary")
	v.Reach("listed")
}

// a second title
func H_second() {
	first := v.Pick("first", "\\title{A}", "\\title{A}{x}", "\\title{A}{x}{y}", "\\title{}", "\\title{}{x}", "\\title{\\aux{A}}", "\\title{\n  A\n\n  B\n}")
	between := v.Pick("between", "", "\n", "\n\ntext\n\n", " text \\section{\\title{C}}", "\n\n\\section{\n \\title{C}\n}\n")
	second := v.Pick("second", "\\title{B}", "\\title{A}", "\\title{B}{z}", "\\title{}", "\\bold{\\title{B}}", "\\title{A}{x}")
	var sec, only *booklit.Section
	_, err := lib.Eval(first+between, lib.Grab(&only))
	v.Assert(err == nil, "one title is accepted")
	_, err = lib.Eval(first+between+second, lib.Grab(&sec))
	v.Assert(err != nil, "a second title is rejected")
	var twice booklit.TitleTwiceError
	v.Assert(errors.As(err, &twice), "as such")
	v.Assert(twice.TitleLocation.NodeLocation == ast.Location{Line: 1, Col: 1, Offset: 0}, "naming the first one")
	off := len(first + between)
	if second[1] == 'b' {
		off += len("\\bold{")
	}
	v.Assert(twice.NodeLocation == lib.Locate(first+between+second, off), "and itself")
	v.Assert(lib.SameToks(lib.Toks(sec.Title), lib.Toks(only.Title)), "the title stays")
	v.Assert(len(sec.Tags) == len(only.Tags), "the tags stay")
	for i := range sec.Tags {
		v.Assert(sec.Tags[i].Name == only.Tags[i].Name, "as they are")
	}
	v.Assert(sec.PrimaryTag.Name == only.PrimaryTag.Name, "the primary tag stays")
	v.Reach("second")
}
