package lib

// A reader of JSON objects of objects of strings and numbers.

type jsonReader struct {
	s  string
	i  int
	ok bool
}

func (r *jsonReader) blanks() {
	for r.i < len(r.s) && (white(r.s[r.i])) {
		r.i++
	}
}

func (r *jsonReader) eat(c byte) bool {
	r.blanks()
	if r.i < len(r.s) && r.s[r.i] == c {
		r.i++
		return true
	}
	return false
}

func hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// text reads a string (surrogates aside).
func (r *jsonReader) text() string {
	if !r.eat('"') {
		r.ok = false
		return ""
	}
	var out []byte
	for r.i < len(r.s) {
		c := r.s[r.i]
		r.i++
		if c == '"' {
			return string(out)
		}
		if c < ' ' {
			break
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		if r.i == len(r.s) {
			break
		}
		c = r.s[r.i]
		r.i++
		switch c {
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case '"', '\\', '/':
			out = append(out, c)
		case 'u':
			u := 0
			for k := 0; k < 4; k++ {
				h := -1
				if r.i < len(r.s) {
					h = hex(r.s[r.i])
				}
				if h < 0 {
					r.ok = false
					return ""
				}
				u = u*16 + h
				r.i++
			}
			out = append(out, string(rune(u))...)
		default:
			r.ok = false
			return ""
		}
	}
	r.ok = false
	return ""
}

func (r *jsonReader) number() string {
	r.blanks()
	k := r.i
	for r.i < len(r.s) && (r.s[r.i] >= '0' && r.s[r.i] <= '9' || r.s[r.i] == '-') {
		r.i++
	}
	if k == r.i {
		r.ok = false
	}
	return r.s[k:r.i]
}

func (r *jsonReader) object(each func(key string)) {
	if !r.eat('{') {
		r.ok = false
		return
	}
	if r.eat('}') {
		return
	}
	for r.ok {
		key := r.text()
		if !r.eat(':') {
			r.ok = false
			return
		}
		each(key)
		if r.eat(',') {
			continue
		}
		if !r.eat('}') {
			r.ok = false
		}
		return
	}
}

// JSON reads an object of objects, checking that no name occurs twice.
func JSON(s string) (map[string]map[string]string, bool) {
	r := &jsonReader{s: s, ok: true}
	out := map[string]map[string]string{}
	r.object(func(key string) {
		if _, dup := out[key]; dup {
			r.ok = false
		}
		in := map[string]string{}
		r.object(func(k string) {
			if _, dup := in[k]; dup {
				r.ok = false
			}
			r.blanks()
			if r.i < len(r.s) && r.s[r.i] == '"' {
				in[k] = r.text()
			} else {
				in[k] = r.number()
			}
		})
		out[key] = in
	})
	r.blanks()
	return out, r.ok && r.i == len(s)
}
