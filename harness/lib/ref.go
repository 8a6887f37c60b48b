package lib

import (
	"github.com/vito/booklit/ast"
)

// A reference parser for the documented syntax, written independently of the
// grammar file: plain recursive descent over the bytes of a document.

type ref struct {
	s string
}

// RefParse parses a document (which must be valid UTF-8).
func RefParse(src string) (ast.Node, bool) {
	r := &ref{src}
	n, i, ok := r.paragraphs(0)
	if !ok {
		return nil, false
	}
	i = r.blanks(i)
	if i != len(src) {
		return nil, false
	}
	return n, true
}

// at reports whether the input continues with lit.
func (r *ref) at(i int, lit string) bool {
	if len(r.s)-i < len(lit) {
		return false
	}
	for k := 0; k < len(lit); k++ {
		if r.s[i+k] != lit[k] {
			return false
		}
	}
	return true
}

func (r *ref) blanks(i int) int {
	for i < len(r.s) && (r.s[i] == ' ' || r.s[i] == '\t') {
		i++
	}
	return i
}

// eol gives the position after a line break.
func (r *ref) eol(i int) (int, bool) {
	if i < len(r.s) && r.s[i] == '\n' {
		return i + 1, true
	}
	if r.at(i, "\r\n") {
		return i + 2, true
	}
	return i, false
}

// comment skips blanks and a comment. Comments nest; an opening that is never
// closed is ordinary text.
func (r *ref) comment(i int) (int, bool) {
	k := r.blanks(i)
	if !r.at(k, "{-") {
		return i, false
	}
	k += 2
	for k < len(r.s) {
		if r.at(k, "-}") {
			return k + 2, true
		}
		if r.at(k, "{-") {
			if n, ok := r.comment(k); ok {
				k = n
				continue
			}
		}
		k++
	}
	return i, false
}

// spacing skips blank lines and comments.
func (r *ref) spacing(i int) int {
	for {
		if k, ok := r.eol(r.blanks(i)); ok {
			i = k
		} else if k, ok := r.comment(i); ok {
			i = k
		} else {
			return i
		}
	}
}

func (r *ref) paragraphs(i int) (ast.Node, int, bool) {
	var out ast.Sequence
	i = r.spacing(i)
	for {
		p, k, ok := r.paragraph(i)
		if !ok {
			break
		}
		out = append(out, p)
		i = r.spacing(k)
	}
	return out, i, len(out) > 0
}

func (r *ref) paragraph(i int) (ast.Node, int, bool) {
	var out ast.Paragraph
	for {
		ws, k := r.words(r.blanks(i))
		if len(ws) == 0 {
			break
		}
		out = append(out, ast.Sequence(ws))
		i = k
		if k, ok := r.eol(i); ok {
			i = k
		}
	}
	return out, i, len(out) > 0
}

func (r *ref) words(i int) ([]ast.Node, int) {
	var out []ast.Node
	for {
		w, k, ok := r.word(i)
		if !ok {
			return out, i
		}
		out = append(out, w)
		i = k
	}
}

// word is a string, a call or a word in braces, with comments around it.
func (r *ref) word(i int) (ast.Node, int, bool) {
	k := i
	if c, ok := r.comment(k); ok {
		k = c
	}
	n, k, ok := r.bare(k)
	if !ok {
		return nil, i, false
	}
	if c, ok := r.comment(k); ok {
		k = c
	}
	return n, k, true
}

func (r *ref) bare(i int) (ast.Node, int, bool) {
	if i >= len(r.s) {
		return nil, i, false
	}
	switch r.s[i] {
	case '}', '\r', '\n':
		return nil, i, false
	case '\\':
		if i+1 < len(r.s) && (r.s[i+1] == '\\' || r.s[i+1] == '{' || r.s[i+1] == '}') {
			return ast.String(r.s[i+1 : i+2]), i + 2, true
		}
		return r.invoke(i)
	case '{':
		w, k, ok := r.word(i + 1)
		if !ok {
			w, k = ast.Sequence{}, i+1
		}
		if !r.at(k, "}") {
			return nil, i, false
		}
		return w, k + 1, true
	}
	k := i + 1
	for k < len(r.s) && r.s[k] != '\\' && r.s[k] != '{' && r.s[k] != '}' && r.s[k] != '\r' && r.s[k] != '\n' {
		k++
	}
	return ast.String(r.s[i:k]), k, true
}

func (r *ref) invoke(i int) (ast.Node, int, bool) {
	k := i + 1
	for k < len(r.s) && (r.s[k] >= 'a' && r.s[k] <= 'z' || r.s[k] == '-') {
		k++
	}
	if k == i+1 {
		return nil, i, false
	}
	inv := ast.Invoke{Function: r.s[i+1 : k], Location: Locate(r.s, i)}
	for {
		a, n, ok := r.argument(k)
		if !ok {
			return inv, k, true
		}
		inv.Arguments = append(inv.Arguments, a)
		k = n
	}
}

func (r *ref) argument(i int) (ast.Node, int, bool) {
	if r.at(i, "{{{") {
		if n, k, ok := r.verbatim(i + 3); ok && r.at(k, "}}}") {
			return n, k + 3, true
		}
	}
	if r.at(i, "{{") {
		if k, ok := r.eol(i + 2); ok {
			n, k := r.block(k, func(i int) ([]ast.Node, int) { return r.words(i) })
			if r.at(k, "}}") {
				return n, k + 2, true
			}
		}
	}
	if r.at(i, "{") {
		n, k := r.braces(i + 1)
		if r.at(k, "}") {
			return n, k + 1, true
		}
	}
	return nil, i, false
}

// verbatimText is everything up to the end of the line or three closing braces.
func (r *ref) verbatimText(i int) ([]ast.Node, int) {
	k := i
	for k < len(r.s) && r.s[k] != '\n' && r.s[k] != '\r' && !r.at(k, "}}}") {
		k++
	}
	if k == i {
		return nil, k
	}
	return []ast.Node{ast.String(r.s[i:k])}, k
}

func (r *ref) verbatim(i int) (ast.Node, int, bool) {
	if k, ok := r.eol(i); ok {
		n, k := r.block(k, r.verbatimText)
		return n, k, true
	}
	ws, k := r.verbatimText(i)
	return ast.Sequence(ws), k, true
}

// block is whole lines, each stripped of the first one's indentation.
func (r *ref) block(i int, text func(int) ([]ast.Node, int)) (ast.Node, int) {
	out := ast.Preformatted{}
	skip := -1
	for {
		k := r.blanks(i)
		ws, e := text(k)
		n, ok := r.eol(e)
		if !ok {
			return out, r.blanks(i)
		}
		if skip < 0 {
			skip = k - i
		}
		indent := ""
		if k-i > skip {
			indent = r.s[i+skip : k]
		}
		out = append(out, append(ast.Sequence{ast.String(indent)}, ws...))
		i = n
	}
}

// braces is what stands between single braces.
func (r *ref) braces(i int) (ast.Node, int) {
	if w, k, ok := r.word(i); ok {
		out := ast.Sequence{w}
		for {
			if w, n, ok := r.word(k); ok {
				out = append(out, w)
				k = n
			} else if n, ok := r.eol(k); ok {
				out = append(out, ast.String(" "))
				k = r.blanks(n)
			} else {
				return out, k
			}
		}
	}
	if n, k, ok := r.paragraphs(i); ok {
		return n, r.blanks(k)
	}
	return ast.String(""), r.blanks(r.spacing(i))
}

// Locate gives the line and column of a byte of a document.
func Locate(s string, off int) ast.Location {
	line, col := 1, 1
	for i := 0; i < off; i++ {
		if s[i] == '\n' {
			line++
			col = 1
		} else if s[i]&0xC0 != 0x80 {
			col++
		}
	}
	return ast.Location{Line: line, Col: col, Offset: off}
}
