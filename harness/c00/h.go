// Package c00 is a test of the executor itself, not of booklit: what it computes
// symbolically is what it computes concretely, and that is what Go computes.
package c00

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"net/url"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/vito/booklit/zz_verif/v"
)

var re = regexp.MustCompile(`[^[:alnum:]_\-]+`)
var re2 = regexp.MustCompile(`(?i)a+b?|[x-z]|\s$`)

type pair struct {
	a int
	b string
}

var fs = map[string]func(a, b byte) string{
	"hex": func(a, b byte) string {
		return fmt.Sprintf("%02x|%x|%X|%d|%5d|%-5d|%q|%c|%U", a, b, a, b, a, b, a, a, b)
	},
	"fmts": func(a, b byte) string {
		s := string([]byte{a, b})
		return fmt.Sprintf("%s|%q|%x|%5s|%v|%+v", s, s, s, s, s, pair{int(a), s})
	},
	"fmt2": func(a, b byte) string { return fmt.Sprint(a, b, int8(a), uint64(b), []byte{a, b}, true) },
	"atoi": func(a, b byte) string { n, err := strconv.Atoi(string([]byte{a, b})); return fmt.Sprint(n, err) },
	"itoa": func(a, b byte) string {
		return strconv.Itoa(int(a)*int(b)) + strconv.Itoa(int(int8(a))-int(b)) + strconv.FormatInt(int64(a), 2)
	},
	"quote": func(a, b byte) string { return strconv.Quote(string([]byte{a, b})) },
	"upper": func(a, b byte) string {
		s := string([]byte{a, b})
		return strings.ToUpper(s) + strings.ToLower(s) + strings.Title(s)
	},
	"trim": func(a, b byte) string {
		s := string([]byte{a, 'x', b})
		return strings.TrimSpace(s) + "|" + strings.Trim(s, "abx ") + "|" + strings.TrimLeft(s, " \t") + "|" + strings.TrimPrefix(s, "x")
	},
	"split": func(a, b byte) string {
		s := string([]byte{a, 'x', b})
		return fmt.Sprint(len(strings.Split(s, "x")), len(strings.Fields(s)), strings.Index(s, "a"), strings.LastIndex(s, "x"), strings.Count(s, "x"), strings.Contains(s, "xa"), strings.IndexAny(s, "ab"), strings.EqualFold(s, "AXB"))
	},
	"repl": func(a, b byte) string {
		s := string([]byte{a, 'x', b, 'x'})
		return strings.Replace(s, "x", "--", 1) + strings.ReplaceAll(s, "xa", "!") + strings.NewReplacer("a", "1", "x", "22").Replace(s) + strings.Map(func(r rune) rune { return r + 1 }, s)
	},
	"cmp": func(a, b byte) string {
		s, t := string([]byte{a, 'x'}), string([]byte{'k', b})
		return fmt.Sprint(s < t, s == t, strings.Compare(s, t), bytes.Equal([]byte(s), []byte(t)), bytes.Compare([]byte(s), []byte(t)))
	},
	"rune": func(a, b byte) string {
		s := string([]byte{a, b})
		r, n := utf8.DecodeRuneInString(s)
		q, m := utf8.DecodeLastRuneInString(s)
		return fmt.Sprint(r, n, q, m, utf8.ValidString(s), utf8.RuneCountInString(s), []rune(s), string([]rune(s)))
	},
	"uni": func(a, b byte) string {
		r := rune(a)*16 + rune(b)
		return fmt.Sprint(unicode.IsSpace(r), unicode.IsUpper(r), unicode.IsLetter(rune(a)), unicode.IsDigit(rune(b)), unicode.IsPunct(rune(a)), unicode.ToUpper(rune(a)), unicode.ToLower(rune(b))) + string(r)
	},
	"range": func(a, b byte) string {
		out := ""
		for i, r := range string([]byte{a, b, 'z'}) {
			out += fmt.Sprint(i, r, ";")
		}
		return out
	},
	"re": func(a, b byte) string {
		s := string([]byte{a, b})
		return re.ReplaceAllString(s, "-") + fmt.Sprint(re2.FindStringIndex(s), re2.MatchString(s), re.FindAllString(s, -1))
	},
	"html": func(a, b byte) string {
		return template.HTMLEscapeString(string([]byte{a, b})) + template.JSEscapeString(string([]byte{a, b}))
	},
	"url": func(a, b byte) string {
		s := string([]byte{a, b})
		u := url.URL{Path: s, Fragment: s}
		return url.PathEscape(s) + url.QueryEscape(s) + u.String()
	},
	"json": func(a, b byte) string {
		j, err := json.Marshal(map[string]string{string([]byte{'k', a}): string([]byte{b, a})})
		return string(j) + fmt.Sprint(err)
	},
	"path": func(a, b byte) string {
		s := string([]byte{'p', a, b, 'q'})
		return filepath.Clean(s) + filepath.Base(s) + filepath.Dir(s) + filepath.Ext(s) + filepath.Join("x", s, "y")
	},
	"shift": func(a, b byte) string {
		return fmt.Sprint(a<<(b&9), int8(a)>>(b&7), uint32(a)<<b, int(a)-int(b), a/(b|1), int8(a)/int8(b|1), int8(a)%int8(b|1), a&^b, a^b, -a, ^b, uint16(a)*uint16(b), int64(int8(a))*3)
	},
	"conv": func(a, b byte) string {
		return fmt.Sprint(int8(a), int32(int8(a)), uint32(int8(a)), int(a)<<8|int(b), int16(uint16(a)<<8|uint16(b)), rune(b), string(rune(a)), uint64(int64(int8(b))))
	},
	"arr": func(a, b byte) string {
		t := [5]int{3, 1, 4, 1, 5}
		u := []string{"p", "q", "r"}
		t[a%5] = int(b)
		s := t[b%5]
		return fmt.Sprint(t, s, u[a%3], "abcdefg"[b%7], u[:a%4], "abcdefg"[a%8:])
	},
	"map": func(a, b byte) string {
		m := map[string]int{"aa": 1}
		m[string([]byte{a})] = 2
		m[string([]byte{b})] += 3
		_, ok := m["x"]
		delete(m, "y")
		k := map[byte]byte{'a': 'b', a: 'z'}
		return fmt.Sprint(len(m), ok, m["a"], k['a'], k[b])
	},
	"sort": func(a, b byte) string {
		x := []int{int(a), 50, int(b), 7}
		sort.Ints(x)
		y := []string{string([]byte{a}), "m", string([]byte{b})}
		sort.Strings(y)
		return fmt.Sprint(x) + strings.Join(y, ",")
	},
	"switch": func(a, b byte) string {
		switch {
		case a < b:
			return "lt"
		case a == b:
			return "eq"
		}
		switch a {
		case 'a', 'b':
			return "ab"
		case 'z':
			return "z"
		}
		if a > 'm' && b < 10 || a == 0 {
			return "q"
		}
		return "no"
	},
	"buf": func(a, b byte) string {
		w := new(bytes.Buffer)
		w.WriteByte(a)
		w.WriteString("k")
		w.WriteRune(rune(b))
		c, _ := w.ReadByte()
		return w.String() + string([]byte{c}) + fmt.Sprint(w.Len(), bytes.IndexByte(w.Bytes(), 'k'), bytes.TrimSpace([]byte{a, b}))
	},
	"iface": func(a, b byte) string {
		var x, y interface{} = a, b
		var p, q interface{} = string([]byte{a}), string([]byte{b})
		return fmt.Sprint(x == y, p == q, pair{int(a), "x"} == pair{int(b), "x"}, [2]byte{a, b} == [2]byte{b, a})
	},
	"scan": func(a, b byte) string {
		n, err := strconv.ParseInt(string([]byte{a, b}), 0, 8)
		u, err2 := strconv.Unquote(string([]byte{'"', a, b, '"'}))
		bl, err3 := strconv.ParseBool(string([]byte{a}))
		return fmt.Sprint(n, err, u, err2, bl, err3)
	},
	"uns": func(a, b byte) string { r, e := url.PathUnescape(string([]byte{'%', a, b})); return r + fmt.Sprint(e) },
	"parse": func(a, b byte) string {
		u, e := url.Parse(string([]byte{'x', a, '/', b}))
		if e != nil {
			return e.Error()
		}
		return u.Scheme + "|" + u.Path + "|" + u.RawQuery + "|" + u.Fragment
	},
}

func run(name string) {
	f := fs[name]
	a, b := v.Byte("a"), v.Byte("b")
	x := f(a, b)
	y := f(byte(v.Concrete(int(a))), byte(v.Concrete(int(b))))
	v.Assert(x == y, "same "+name)
	v.Observe(name, strconv.Quote(y))
}

func H_hex() { run("hex") }

func H_fmts() { run("fmts") }

func H_fmt2() { run("fmt2") }

func H_atoi() { run("atoi") }

func H_itoa() { run("itoa") }

func H_quote() { run("quote") }

func H_upper() { run("upper") }

func H_trim() { run("trim") }

func H_split() { run("split") }

func H_repl() { run("repl") }

func H_cmp() { run("cmp") }

func H_rune() { run("rune") }

func H_uni() { run("uni") }

func H_range() { run("range") }

func H_re() { run("re") }

func H_html() { run("html") }

func H_url() { run("url") }

func H_json() { run("json") }

func H_path() { run("path") }

func H_shift() { run("shift") }

func H_conv() { run("conv") }

func H_arr() { run("arr") }

func H_map() { run("map") }

func H_sort() { run("sort") }

func H_switch() { run("switch") }

func H_buf() { run("buf") }

func H_iface() { run("iface") }

func H_scan() { run("scan") }

func H_uns() { run("uns") }

func H_parse() { run("parse") }
