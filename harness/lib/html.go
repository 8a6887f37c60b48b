package lib

// A small HTML tokeniser: enough to read what the templates write, and to
// notice markup that should not be there.

// Mark is a piece of a page: text ('t'), an opening tag ('<'), a closing tag
// ('/') or anything else between angle brackets ('!').
type Mark struct {
	K     byte
	Name  string   // or the text, unescaped
	Attrs []string // names and unescaped values, alternating
}

// Attr gives the value of an attribute.
func (m Mark) Attr(name string) (string, bool) {
	for i := 0; i+1 < len(m.Attrs); i += 2 {
		if m.Attrs[i] == name {
			return m.Attrs[i+1], true
		}
	}
	return "", false
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func alnum(c byte) bool  { return letter(c) || c >= '0' && c <= '9' || c == '-' }
func white(c byte) bool  { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' }

// HTML splits a page. It reports failure for a tag it cannot make sense of.
func HTML(s string) ([]Mark, bool) {
	var out []Mark
	raw := "" // the element whose text runs up to its closing tag
	i := 0
	for i < len(s) {
		if s[i] != '<' || raw != "" && !startsWith(s[i:], "</"+raw) {
			k := i
			for k < len(s) && (s[k] != '<' || raw != "" && !startsWith(s[k:], "</"+raw)) {
				k++
			}
			out = append(out, Mark{K: 't', Name: Unescape(s[i:k])})
			i = k
			continue
		}
		if i+1 < len(s) && s[i+1] == '!' {
			k := i
			for k < len(s) && s[k] != '>' {
				k++
			}
			if k == len(s) {
				return out, false
			}
			out = append(out, Mark{K: '!', Name: s[i+2 : k]})
			i = k + 1
			continue
		}
		m := Mark{K: '<'}
		i++
		if i < len(s) && s[i] == '/' {
			m.K = '/'
			i++
		}
		k := i
		for k < len(s) && alnum(s[k]) {
			k++
		}
		if k == i {
			return out, false
		}
		m.Name = s[i:k]
		i = k
		for {
			for i < len(s) && white(s[i]) {
				i++
			}
			if i == len(s) {
				return out, false
			}
			if s[i] == '>' {
				i++
				break
			}
			if s[i] == '/' && i+1 < len(s) && s[i+1] == '>' {
				i += 2
				break
			}
			k := i
			for k < len(s) && alnum(s[k]) {
				k++
			}
			if k == i || k+1 >= len(s) || s[k] != '=' || s[k+1] != '"' || m.K == '/' {
				return out, false
			}
			e := k + 2
			for e < len(s) && s[e] != '"' {
				e++
			}
			if e == len(s) {
				return out, false
			}
			m.Attrs = append(m.Attrs, s[i:k], Unescape(s[k+2:e]))
			i = e + 1
		}
		raw = ""
		if m.K == '<' && (m.Name == "title" || m.Name == "script" || m.Name == "style" || m.Name == "textarea") {
			raw = m.Name
		}
		out = append(out, m)
	}
	return out, true
}

func startsWith(s, p string) bool {
	return len(s) >= len(p) && s[:len(p)] == p
}

var entities = []struct{ name, text string }{
	{"amp", "&"}, {"lt", "<"}, {"gt", ">"}, {"quot", "\""}, {"apos", "'"},
	{"#34", "\""}, {"#39", "'"}, {"#43", "+"}, {"#96", "`"}, {"#61", "="},
}

// Unescape reads character references.
func Unescape(s string) string {
	out := make([]byte, 0, len(s))
next:
	for i := 0; i < len(s); i++ {
		if s[i] == '&' {
			for _, e := range entities {
				if startsWith(s[i+1:], e.name+";") {
					out = append(out, e.text...)
					i += len(e.name) + 1
					continue next
				}
			}
		}
		out = append(out, s[i])
	}
	return string(out)
}

// IDs lists the element ids of a page.
func IDs(ms []Mark) []string {
	var out []string
	for _, m := range ms {
		if id, ok := m.Attr("id"); ok && m.K == '<' {
			out = append(out, id)
		}
	}
	return out
}

// Count counts a string among others.
func Count(in []string, s string) int {
	n := 0
	for _, x := range in {
		if x == s {
			n++
		}
	}
	return n
}

// Structure is the tags and the text of a page without the blank space that
// is only between tags.
func Structure(ms []Mark) []Tok {
	f := &flat{}
	for _, m := range ms {
		if m.K == 't' {
			blank := true
			for i := 0; i < len(m.Name); i++ {
				blank = blank && white(m.Name[i])
			}
			if blank && Contains(m.Name, "\n") {
				continue
			}
			f.text(m.Name)
			continue
		}
		s := m.Name
		for i := 0; i+1 < len(m.Attrs); i += 2 {
			s += " " + m.Attrs[i] + "=" + m.Attrs[i+1]
		}
		f.out = append(f.out, Tok{K: m.K, S: s})
	}
	return f.out
}
