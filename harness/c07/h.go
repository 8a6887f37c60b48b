package c07

import (
	"errors"
	"fmt"
	"io"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

type calls struct{ made []string }

func (c *calls) add(s string) { c.made = append(c.made, s) }

// three plugins with overlapping sets of functions; the last one has some
// through embedding and pointer receivers

type One struct{ c *calls }

func (p One) A()   { p.c.add("One.A") }
func (p One) Ab()  { p.c.add("One.Ab") }
func (p One) BA()  { p.c.add("One.BA") }
func (p One) BbA() { p.c.add("One.BbA") }

type Two struct{ c *calls }

func (p Two) B()    { p.c.add("Two.B") }
func (p Two) Ab()   { p.c.add("Two.Ab") }
func (p Two) AB()   { p.c.add("Two.AB") }
func (p Two) AA()   { p.c.add("Two.AA") }
func (p Two) ABA()  { p.c.add("Two.ABA") }
func (p Two) A_b()  { p.c.add("Two.A_b") }
func (p Two) Bab()  { p.c.add("Two.Bab") }
func (p Two) Baba() { p.c.add("Two.Baba") }

type common struct{ c *calls }

func (p common) A()   { p.c.add("Three.A") }
func (p *common) BA() { p.c.add("Three.BA") }

type Three struct{ common }

func (p *Three) Ba()  { p.c.add("Three.Ba") }
func (p *Three) Bb()  { p.c.add("Three.Bb") }
func (p *Three) Ab()  { p.c.add("Three.Ab") }
func (p *Three) AbB() { p.c.add("Three.AbB") }

var has = map[string][]string{
	"One":   {"A", "Ab", "BA", "BbA"},
	"Two":   {"B", "Ab", "AB", "AA", "ABA", "A_b", "Bab", "Baba"},
	"Three": {"A", "BA", "Ba", "Bb", "Ab", "AbB"},
}

// camel is the documented name of a function's method.
func camel(fn string) string {
	out := ""
	up := true
	for i := 0; i < len(fn); i++ {
		if fn[i] == '-' {
			up = true
			continue
		}
		if up {
			out += string([]byte{fn[i] - 'a' + 'A'})
		} else {
			out += string([]byte{fn[i]})
		}
		up = false
	}
	return out
}

func provider(order []string, fn string) string {
	m := camel(fn)
	for _, p := range order {
		for _, h := range has[p] {
			if h == m {
				return p + "." + m
			}
		}
	}
	return ""
}

// any function name against any order of plugins
func dispatch(n int, order []string) {
	n = 1 + v.Len("n", n-1)
	fn := v.StrIn("name", n, "ab-")
	c := &calls{}
	var pfs []booklit.PluginFactory
	for _, p := range order {
		p := p
		pfs = append(pfs, func(*booklit.Section) booklit.Plugin {
			switch p {
			case "One":
				return One{c}
			case "Two":
				return Two{c}
			}
			return &Three{common{c}}
		})
	}
	_, err := lib.Eval("x\\"+fn+"y", pfs...)
	_ = err
	src := "a \\" + fn + " b \\" + fn
	c.made = nil
	_, err = lib.Eval(src, pfs...)
	want := provider(order, fn)
	if want == "" {
		v.Reach("undefined")
		var und booklit.UndefinedFunctionError
		v.Assert(errors.As(err, &und), "a function no plugin has is undefined")
		v.Assert(und.Function == fn, "the error names the function")
		v.Assert(len(c.made) == 0, "nothing is called")
		return
	}
	v.Reach("dispatched")
	v.Assert(err == nil, "a function a plugin has is called")
	v.Assert(len(c.made) == 2, "each call is made once")
	v.Assert(c.made[0] == want && c.made[1] == want, "the first plugin which has it")
}

func pick() string { return v.Pick("plugin", "One", "Two", "Three") }

func H_dispatch_one()   { dispatch(depth(4, 5), []string{pick()}) }
func H_dispatch_two()   { dispatch(depth(3, 4), []string{pick(), pick()}) }
func H_dispatch_three() { dispatch(depth(3, 4), []string{pick(), pick(), pick()}) }
func H_dispatch_none()  { dispatch(3, nil) }

// plugins used by the document itself
func H_dispatch_used() {
	c := &calls{}
	booklit.RegisterPlugin("one", func(*booklit.Section) booklit.Plugin { return One{c} })
	booklit.RegisterPlugin("two", func(*booklit.Section) booklit.Plugin { return Two{c} })
	booklit.RegisterPlugin("three", func(*booklit.Section) booklit.Plugin { return &Three{common{c}} })
	name := map[string]string{"one": "One", "two": "Two", "three": "Three"}
	var order []string
	src := ""
	fn := v.Pick("name", "a", "ab", "b-a", "ba", "b-b")
	bad := false
	for i := 0; i < 2; i++ {
		u := v.Pick("use", "one", "two", "three", "four", "")
		if u == "" {
			continue
		}
		src += "\\use-plugin{" + u + "}\n"
		if name[u] == "" {
			bad = true
			break
		}
		order = append(order, name[u])
	}
	_, err := lib.Eval(src + "\n\\" + fn)
	want := provider(order, fn)
	if bad || want == "" {
		v.Assert(err != nil && len(c.made) == 0, "unknown plugins and functions fail")
		return
	}
	v.Assert(err == nil && len(c.made) == 1 && c.made[0] == want, "the first plugin used which has it")
}

// Args records the arguments it is given.
type Args struct{ c *calls }

func (p Args) None()                 { p.c.add("none") }
func (p Args) Text(s string)         { p.c.add("text:" + s) }
func (p Args) Con(c booklit.Content) { p.c.add("con:" + c.String()) }
func (p Args) Raw(n ast.Node)        { p.c.add("raw:" + raw(n)) }
func (p Args) Many(s ...string)      { p.c.add("many:" + join(s)) }
func (p Args) Inner(s string) booklit.Content {
	p.c.add("inner:" + s)
	return booklit.String("<" + s + ">")
}
func (p Args) Mix(s string, c booklit.Content, n ast.Node) {
	p.c.add("mix:" + s + "," + c.String() + "," + raw(n))
}
func (p Args) Cons(c booklit.Content, cs ...booklit.Content) {
	s := "cons:" + c.String()
	for _, c := range cs {
		s += "," + c.String()
	}
	p.c.add(s)
}
func (p Args) Raws(s string, ns ...ast.Node) {
	o := "raws:" + s
	for _, n := range ns {
		o += "," + raw(n)
	}
	p.c.add(o)
}
func (p Args) Number(n int)               { p.c.add("number") }
func (p Args) Numbers(s string, n ...int) { p.c.add("numbers") }
func (p Args) Section(s *booklit.Section) { p.c.add("section") }
func (p Args) Bytes(s string, b []byte)   { p.c.add("bytes") }

func raw(n ast.Node) string {
	s := ""
	for _, t := range lib.Flat(n) {
		s += string([]byte{t.K}) + t.S
	}
	return s
}

func join(ss []string) string {
	o := ""
	for i, s := range ss {
		if i > 0 {
			o += ","
		}
		o += s
	}
	return o
}

type arg struct{ src, text, raw, inner string }

// an argument: text of any lower-case letter, a nested call, or nothing
func argument() arg {
	switch v.Int("arg", 0, 2) {
	case 0:
		return arg{"{}", "", "", ""}
	case 1:
		b := v.Byte("letter")
		v.Assume(v.And(b >= 'a', b <= 'z'))
		s := string([]byte{b})
		return arg{"{" + s + "}", s, "t" + s, ""}
	}
	b := v.Byte("letter")
	v.Assume(v.And(b >= 'a', b <= 'z'))
	s := string([]byte{b})
	return arg{"{\\inner{" + s + "}}", "<" + s + ">", "IinnerAt" + s + ")", "inner:" + s}
}

// any number of any arguments to functions of every signature
func arguments(fn string, max int) {
	n := v.Len("argc", max)
	var args []arg
	src := "\\" + fn
	for i := 0; i < n; i++ {
		args = append(args, argument())
		src += args[i].src
	}
	c := &calls{}
	_, err := lib.Eval(src, func(*booklit.Section) booklit.Plugin { return Args{c} })
	min, variadic := map[string]int{"none": 0, "text": 1, "con": 1, "raw": 1, "many": 0, "mix": 3, "cons": 1, "raws": 1}[fn], fn == "many" || fn == "cons" || fn == "raws"
	if n < min || n > min && !variadic {
		v.Reach("wrong argument count")
		v.Assert(err != nil, "a wrong argument count fails")
		v.Assert(lib.Contains(err.Error(), fn), "the error names the function")
		for _, m := range c.made {
			v.Assert(m[:5] == "inner", "the function is not called")
		}
		return
	}
	v.Reach("arguments")
	v.Assert(err == nil, "accepted")
	var want []string
	call := fn + ":"
	for i, a := range args {
		isRaw := fn == "raw" || fn == "mix" && i == 2 || fn == "raws" && i > 0
		if i > 0 {
			call += ","
		}
		if isRaw {
			call += a.raw
			continue
		}
		call += a.text
		if a.inner != "" {
			want = append(want, a.inner)
		}
	}
	if fn == "none" {
		call = fn
	}
	want = append(want, call)
	v.Assert(len(c.made) == len(want), "every call is made once")
	for i := range want {
		v.Assert(c.made[i] == want[i], "arguments are evaluated, converted and passed in order")
	}
}

func H_args_text() { arguments(v.Pick("fn", "none", "text", "con", "raw"), 2) }
func H_args_mix()  { arguments("mix", 4) }
func H_args_many() { arguments("many", depth(3, 5)) }
func H_args_cons() { arguments(v.Pick("fn", "cons", "raws"), depth(3, 5)) }

// parameters which documents cannot provide
func H_args_unsupported() {
	src := v.Pick("call", "\\number{1}", "\\numbers{a}{1}", "\\numbers{a}{1}{2}", "\\section{a}", "\\bytes{a}{b}", "\\bytes{\\inner{b}}{b}")
	c := &calls{}
	// before the base plugin, which has a function of that name
	_, err := lib.Eval("\\use-plugin{args}"+src, func(*booklit.Section) booklit.Plugin { return Args{c} })
	v.Assert(err != nil, "unsupported parameters fail")
	for _, m := range c.made {
		v.Assert(m[:5] == "inner", "the function is not called")
	}
}

// what functions return

type Results struct {
	c      *calls
	con    booklit.Content
	err    error
	second error
}

func (r Results) Nothing()             { r.c.add("nothing") }
func (r Results) Err() error           { r.c.add("err"); return r.err }
func (r Results) Con() booklit.Content { r.c.add("con"); return r.con }
func (r Results) Both() (booklit.Content, error) {
	r.c.add("both")
	return r.con, r.err
}
func (r Results) Str() string                             { r.c.add("str"); return "s" }
func (r Results) Num() (int, error)                       { r.c.add("num"); return 1, r.err }
func (r Results) Two() (booklit.Content, booklit.Content) { r.c.add("two"); return r.con, r.con }
func (r Results) Swap() (error, booklit.Content)          { r.c.add("swap"); return r.err, r.con }
func (r Results) Three() (booklit.Content, booklit.Content, error) {
	r.c.add("three")
	return r.con, r.con, r.err
}
func (r Results) Concrete() booklit.String { r.c.add("concrete"); return "s" }

// Pretty is an error which prints itself.
type Pretty struct{}

func (Pretty) Error() string              { return "pretty" }
func (Pretty) PrettyPrint(io.Writer)      {}
func (Pretty) PrettyHTML(io.Writer) error { return nil }

func H_results() {
	b := v.Byte("text")
	v.Assume(b < 128)
	text := string([]byte{b})
	r := Results{c: &calls{}}
	switch v.Int("content", 0, 2) {
	case 0:
	case 1:
		r.con = booklit.String(text)
	case 2:
		r.con = booklit.Sequence{booklit.String(text), booklit.Styled{Style: booklit.StyleBold, Content: booklit.String("s")}}
	}
	plain := fmt.Errorf("plain")
	switch v.Int("error", 0, 2) {
	case 1:
		r.err = plain
	case 2:
		r.err = Pretty{}
	}
	fn := v.Pick("fn", "nothing", "err", "con", "both", "str", "num", "two", "swap", "three", "concrete")
	nested := v.Bool("nested")
	src := "a\\" + fn + "\\nothing"
	if nested {
		src = "a\\bold{b\\" + fn + "\\nothing}"
	}
	sec, err := lib.Eval(src, func(*booklit.Section) booklit.Plugin { return r })
	v.Assert(len(r.c.made) > 0 && r.c.made[0] == fn, "called")
	switch fn {
	case "nothing", "con", "both", "err":
	default:
		v.Reach("unsupported result")
		v.Assert(err != nil, "unsupported results fail")
		v.Assert(len(r.c.made) == 1, "and stop evaluation")
		return
	}
	if r.err != nil && (fn == "both" || fn == "err") {
		v.Reach("failed")
		v.Assert(err != nil, "an error fails the evaluation")
		v.Assert(len(r.c.made) == 1, "and stops it")
		if r.err == plain {
			var f booklit.FailedFunctionError
			v.Assert(errors.As(err, &f), "the failed function is reported")
			v.Assert(f.Function == fn && f.Err == plain, "by name and error")
			v.Assert(lib.Contains(err.Error(), fn) && lib.Contains(err.Error(), "plain"), "as text")
		} else {
			var p Pretty
			v.Assert(errors.As(err, &p), "errors which print themselves are kept")
		}
		return
	}
	v.Reach("result")
	v.Assert(err == nil, "accepted")
	v.Assert(len(r.c.made) == 2 && r.c.made[1] == "nothing", "evaluation goes on")
	want := "a"
	if nested {
		want = "ab"
	}
	if r.con != nil && (fn == "con" || fn == "both") {
		want += r.con.String()
	}
	v.Assert(sec.Body.String() == want+"\n\n", "the result takes the place of the call")
}

// arguments and results without content, everywhere
func H_no_content() {
	r := Results{c: &calls{}}
	c := &calls{}
	in := v.Pick("in", "\\con", "\\nothing", "\\both", "\\err", "{}", "{- c -}", "")
	call := v.Pick("call", "\\con{%}", "\\text{%}", "\\cons{%}{%}", "\\many{%}{%}", "\\mix{%}{%}{a}", "\\cons{\n  %\n}")
	src := ""
	for i := 0; i < len(call); i++ {
		if call[i] == '%' {
			src += in
		} else {
			src += call[i : i+1]
		}
	}
	first := func(*booklit.Section) booklit.Plugin { return Args{c} }
	second := func(*booklit.Section) booklit.Plugin { return Results{c: r.c} }
	if in == "\\con" {
		// both plugins have it
		first = func(*booklit.Section) booklit.Plugin { return argsNoCon{c} }
		if call == "\\con{%}" {
			return
		}
	}
	sec, err := lib.Eval("x"+src+"y", first, second)
	v.Assert(err == nil, "no content is accepted")
	v.Assert(len(c.made) == 1, "called")
	want := map[string]string{"\\con{%}": "con:", "\\text{%}": "text:", "\\cons{%}{%}": "cons:,", "\\many{%}{%}": "many:,", "\\mix{%}{%}{a}": "mix:,,ta", "\\cons{\n  %\n}": "cons:"}[call]
	v.Assert(c.made[0] == want, "no content contributes nothing")
	v.Assert(sec.Body.String() == "xy\n\n", "nor does no result")
	v.Reach("no content")
}

type argsNoCon struct{ c *calls }

func (p argsNoCon) Text(s string)                                { Args{p.c}.Text(s) }
func (p argsNoCon) Many(s ...string)                             { Args{p.c}.Many(s...) }
func (p argsNoCon) Cons(c booklit.Content, s ...booklit.Content) { Args{p.c}.Cons(c, s...) }
func (p argsNoCon) Mix(s string, c booklit.Content, n ast.Node)  { Args{p.c}.Mix(s, c, n) }

// plugins with functions of the same name which take or return other things

type Wide struct{ c *calls }

func (p Wide) X(ss ...string)                 { p.c.add("Wide.X") }
func (p Wide) Y(s string)                     { p.c.add("Wide.Y") }
func (p Wide) Z(s, t string) booklit.Content  { p.c.add("Wide.Z"); return booklit.String("z") }

type Narrow struct{ c *calls }

func (p Narrow) X()                         { p.c.add("Narrow.X") }
func (p Narrow) Y(s, t string, u ...string) { p.c.add("Narrow.Y") }
func (p Narrow) Z(s string) error           { p.c.add("Narrow.Z"); return nil }

type Strange struct{ c *calls }

func (p Strange) X(n int)            { p.c.add("Strange.X") }
func (p Strange) Y(s string) int     { p.c.add("Strange.Y"); return 1 }
func (p Strange) Z(s ...int) float64 { p.c.add("Strange.Z"); return 1 }

// takes gives the least and greatest number of arguments, and whether a call
// with so many works.
var takes = map[string][3]int{
	"Wide.X": {0, 9, 1}, "Wide.Y": {1, 1, 1}, "Wide.Z": {2, 2, 1},
	"Narrow.X": {0, 0, 1}, "Narrow.Y": {2, 9, 1}, "Narrow.Z": {1, 1, 1},
	"Strange.X": {1, 1, 0}, "Strange.Y": {1, 1, 0}, "Strange.Z": {0, 9, 0},
}

// the first plugin which has the function, whether or not another would fit the
// call better
func H_same_name() {
	c := &calls{}
	var order []string
	var pfs []booklit.PluginFactory
	n := depth(2, 3)
	for i := 0; i < n; i++ {
		p := v.Pick("plugin", "Wide", "Narrow", "Strange")
		order = append(order, p)
		pfs = append(pfs, func(*booklit.Section) booklit.Plugin {
			switch p {
			case "Wide":
				return Wide{c}
			case "Narrow":
				return Narrow{c}
			}
			return Strange{c}
		})
	}
	fn := v.Pick("fn", "x", "y", "z")
	argc := v.Len("argc", depth(3, 4))
	src := "\\" + fn
	for i := 0; i < argc; i++ {
		src += "{1}"
	}
	_, err := lib.Eval(src, pfs...)
	want := order[0] + "." + camel(fn)
	t := takes[want]
	if argc < t[0] || argc > t[1] {
		v.Assert(err != nil && len(c.made) == 0, "a wrong argument count fails")
		v.Reach("does not fit")
		return
	}
	v.Assert((err == nil) == (t[2] == 1), "what the function takes and returns decides")
	if err == nil {
		v.Assert(len(c.made) == 1, "called once")
	}
	for _, m := range c.made {
		v.Assert(m == want, "the first plugin's")
	}
	v.Reach("fits")
}
