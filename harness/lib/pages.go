package lib

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/v"
)

// Pages writes a document to a scratch directory and reads all of it back.
func Pages(e render.Engine, sec *booklit.Section) (map[string]string, error) {
	dir := v.Dir() + "/out"
	// an earlier, longer page of the root is in the way
	long := "<old>"
	for i := 0; i < 12; i++ {
		long += long
	}
	v.WriteFile(dir+"/"+sec.PrimaryTag.Name+"."+e.FileExtension(), long, 1)
	if err := (render.Writer{Engine: e, Destination: dir}).WriteSection(sec); err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, name := range v.Files(dir) {
		s, _ := v.ReadFile(dir + "/" + name)
		out[name] = s
	}
	return out, nil
}

// URL is the file, beside the page it is on, and the fragment that browsers
// make of a relative URL. There is no file if it leads elsewhere.
func URL(u string) (file, frag string) {
	for i := 0; i < len(u); i++ {
		if u[i] == '#' {
			u, frag = u[:i], u[i+1:]
			break
		}
	}
	for i := 0; i < len(u); i++ {
		if u[i] == '?' {
			u = u[:i]
			break
		}
	}
	if len(u) > 1 && u[0] == '.' && u[1] == '/' {
		u = u[2:]
	} else {
		for i := 0; i < len(u) && u[i] != '/'; i++ {
			if u[i] == ':' {
				return "", frag
			}
		}
	}
	return Percent(u), Percent(frag)
}

func nibble(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// Percent decodes the escapes of a URL.
func Percent(u string) string {
	out := ""
	from := 0
	for i := 0; i < len(u); i++ {
		if u[i] != '%' || i+2 >= len(u) {
			continue
		}
		a, ok := nibble(u[i+1])
		b, ok2 := nibble(u[i+2])
		if ok && ok2 {
			out += u[from:i] + string([]byte{a<<4 | b})
			i += 2
			from = i + 1
		}
	}
	return out + u[from:]
}

// Walk visits a section and those below it.
func Walk(s *booklit.Section, f func(*booklit.Section)) {
	f(s)
	for _, c := range s.Children {
		Walk(c, f)
	}
}
