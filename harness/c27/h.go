package c27

import (
	"bytes"
	"errors"
	"net/http"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var engine = render.NewHTMLEngine()

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

const cause = "it failed: 5%d < 6"

// Failing has a function that fails, and one that takes anything.
type Failing struct{}

func (Failing) Boom(x ...booklit.Content) (booklit.Content, error) {
	return nil, errors.New(cause)
}
func (Failing) Fizzle(booklit.Content) error           { return errors.New(cause) }
func (Failing) Keep(c booklit.Content) booklit.Content { return c }

func init() {
	booklit.RegisterPlugin("failing", func(*booklit.Section) booklit.Plugin { return Failing{} })
}

type file struct{ path, src string }

// @ is where the call is written
var places = [][]file{
	{{"doc.lit", "\\title{Doc}{doc}\n\nsome \u00e9 text\n\nx @ y  \n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\section{\n  \\title{S}{s}\n\n  text @\n}\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\section{\n  \\title{S}{s}\n\n  \\section{\n    \\title{T}{t}\n\n    @\n  }\n}\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\include-section{sub/i%d.lit}\n"}, {"sub/i%d.lit", "\\title{Inc}{inc}\n\n@\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\section{\n  \\title{A}{a}\n\n  \\include-section{sub/inc.lit}\n}\n"}, {"sub/inc.lit", "\\title{Inc}{inc}\n\n\\section{\n\\title{S}{s}\n\n@\n}\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\include-section{sub/inc.lit}\n\n\\section{\n\\title{After}{after}\n\n@\n}"}, {"sub/inc.lit", "\\title{Inc}{inc}\n\n\\section{\n\\title{S}{s}\n}\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\include-section{sub/inc.lit}\n"}, {"sub/inc.lit", "\\title{Inc}{inc}\n\n\\include-section{deep/leaf.lit}\n"}, {"sub/deep/leaf.lit", "\\title{Leaf}{leaf}\n@"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\bold{\\keep{a @ b}}\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\keep{\n  a\n\n  b @ c\n}\n"}},
	{{"doc.lit", "\\title{Doc}{doc}\n\n\\list{a}{\\keep{{\n  code\n    @\n}}}\n"}},
}

func replace(s, by string) (string, int) {
	at := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			at = i
		}
	}
	if at < 0 {
		return s, -1
	}
	return s[:at] + by + s[at+1:], at
}

func crlf(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out += "\r"
		}
		out += s[i : i+1]
	}
	return out
}

// spot is where a call is.
type spot struct {
	path, src string
	off       int
}

// write writes the files of a place with the call in it.
func write(files []file, lead, call string) spot {
	ends := v.Bool("crlf")
	if len(lead) > 1 && lead[0] == '{' && len(files) == 1 {
		// a line of only a comment is not allowed in a preformatted block
		v.Assume(!lib.Contains(files[0].src, "{{"))
	}
	var at spot
	for _, f := range files {
		src, _ := replace("\\use-plugin{failing}\n"+f.src, lead+"@")
		if ends {
			src = crlf(src)
		}
		src, off := replace(src, call)
		f.path = v.Dir() + "/" + f.path
		v.WriteFile(f.path, src, 1)
		if off >= 0 {
			at = spot{f.path, src, off}
		}
	}
	return at
}

// pointed checks that an error points at a spot, and shows it.
func pointed(err error, loc booklit.ErrorLocation, at spot, name string) {
	v.Assert(loc.FilePath == at.path, "names the file of the call")
	v.Assert(loc.NodeLocation == lib.Locate(at.src, at.off), "points at the call")
	v.Assert(loc.Length == 1+len(name), "marks the name of the function")
	var pretty booklit.PrettyError
	v.Assert(errors.As(err, &pretty), "can be printed")
	shown(pretty, at.path, line(at), "\\"+name, loc.NodeLocation)
	v.Reach("shown")
}

// line is the line a spot is in, and its start.
func line(at spot) string {
	i, k := at.off, at.off
	for i > 0 && at.src[i-1] != '\n' {
		i--
	}
	for k < len(at.src) && at.src[k] != '\n' && at.src[k] != '\r' {
		k++
	}
	return at.src[i:k]
}

func shown(err booklit.PrettyError, path, line, name string, loc ast.Location) {
	buf := new(bytes.Buffer)
	err.PrettyPrint(buf)
	v.Assert(textShows(buf.String(), path, line, len(name), loc), "the text shows the line with the call marked")
	buf = new(bytes.Buffer)
	v.Assert(err.PrettyHTML(buf) == nil, "HTML is produced")
	v.Assert(htmlShows(buf.String(), path, line, name, loc), "the HTML shows the line with the call marked")
	page := &response{}
	booklit.ErrorResponse(page, err)
	v.Assert(lib.Contains(page.String(), buf.String()), "the error page contains it")
}

type response struct{ bytes.Buffer }

func (*response) Header() http.Header { return http.Header{} }
func (*response) WriteHeader(int)     {}

func number(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return number(n/10) + number(n%10)
}

func plain(s string) []string {
	var out []string
	l := ""
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == 27:
			for i < len(s) && s[i] != 'm' {
				i++
			}
		case s[i] == '\n':
			out = append(out, l)
			l = ""
		default:
			l += s[i : i+1]
		}
	}
	return append(out, l)
}

// textShows finds the line in a report, with the marker in the next one.
func textShows(report, path, line string, n int, loc ast.Location) bool {
	ls := plain(report)
	if !lib.Contains(ls[0], path+":"+number(loc.Line)+":") {
		return false
	}
	for i := 1; i+1 < len(ls); i++ {
		p := len(ls[i]) - len(line)
		if p < 2 || ls[i][p-2:p] != "| " || ls[i][p:] != line || !lib.Contains(ls[i][:p], number(loc.Line)+"|") {
			continue
		}
		marker := ""
		for k := 0; k < p+loc.Col-1; k++ {
			marker += " "
		}
		for k := 0; k < n; k++ {
			marker += "^"
		}
		return ls[i+1] == marker
	}
	return false
}

// htmlShows finds the line in a report, with the call annotated.
func htmlShows(page, path, line, name string, loc ast.Location) bool {
	ms, ok := lib.HTML(page)
	if !ok {
		return false
	}
	all := ""
	for i, m := range ms {
		if m.K == 't' {
			all += m.Name
		}
		if c, _ := m.Attr("class"); m.K != '<' || c != "line" {
			continue
		}
		// the first line shown
		text, marked, in := "", "", 0
		for k := i + 1; k < len(ms) && (ms[k].K != '/' || ms[k].Name != "pre"); k++ {
			c, _ := ms[k].Attr("class")
			switch {
			case ms[k].K == '<' && c == "annotated":
				in = 1
				if chars(text) != loc.Col-1 {
					return false
				}
			case ms[k].K == '/':
				in = 0
			case ms[k].K == 't':
				text += ms[k].Name
				if in > 0 {
					marked += ms[k].Name
				}
			}
		}
		return text == line && marked == name && lib.Contains(all, path+":") && lib.Contains(all, " "+number(loc.Line))
	}
	return false
}

func chars(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i]&0xc0 != 0x80 {
			n++
		}
	}
	return n
}

func leads() string {
	l := v.Pick("lead", "", "\u00e9\u4e16 ", "\\bold{b} ", "{- c\n -}")
	return l + v.StrIn("lead", depth(1, 3), "a%< \n")
}

func evaluate() error {
	_, err := (&load.Processor{}).LoadFile(v.Dir()+"/doc.lit", lib.Base())
	return err
}

// calls that fail while the document is evaluated
func H_call() {
	files := places[v.Len("place", len(places)-1)]
	name := v.Pick("call", "nope", "boom", "fizzle", "include-section")
	at := write(files, leads(), "\\"+name+"{\\keep{x}}")
	err := evaluate()
	if name == "nope" {
		var undefined booklit.UndefinedFunctionError
		v.Assert(errors.As(err, &undefined) && undefined.Function == name, "the function is undefined")
		pointed(err, undefined.ErrorLocation, at, name)
		return
	}
	var failed booklit.FailedFunctionError
	v.Assert(errors.As(err, &failed) && failed.Function == name, "the function failed")
	pointed(err, failed.ErrorLocation, at, name)
	if name != "include-section" {
		v.Assert(says(failed, cause), "the report gives the cause")
	}
}

// says finds text in both reports.
func says(err booklit.PrettyError, text string) bool {
	var out, page bytes.Buffer
	err.PrettyPrint(&out)
	if err.PrettyHTML(&page) != nil {
		return false
	}
	ms, _ := lib.HTML(page.String())
	all := ""
	for _, m := range ms {
		if m.K == 't' {
			all += m.Name
		}
	}
	return lib.Contains(out.String(), text) && lib.Contains(all, text)
}

// a second title
func H_title() {
	files := places[v.Len("place", len(places)-1)]
	at := write(files, leads(), "\\title{\\keep{Again}}{tag}")
	err := evaluate()
	var twice booklit.TitleTwiceError
	if err != nil {
		v.Observe("err", err.Error())
	}
	v.Assert(errors.As(err, &twice), "there is a title already")
	pointed(err, twice.ErrorLocation, at, "title")
	// the title of the section the call is in is the last one before it
	first := at
	for first.off--; at.src[first.off:first.off+6] != "\\title"; first.off-- {
	}
	v.Assert(twice.TitleLocation.FilePath == at.path && twice.TitleLocation.NodeLocation == lib.Locate(at.src, first.off), "the first title is pointed at")
	report := new(bytes.Buffer)
	twice.PrettyPrint(report)
	v.Assert(lib.Contains(report.String(), "| "+line(first)+"\n"), "and shown")
}

func at(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// references
func H_reference() {
	files := places[v.Len("place", len(places)-1)]
	lead := v.Pick("lead", "", "\u00e9\u4e16 ", "a\n", "{- c\n -}<")
	call := v.Pick("call", "\\reference{zz}", "\\reference{zz}{\\keep{text}}", "\\reference{twice}")
	var defs []spot
	files = append([]file{}, files...)
	if call == "\\reference{twice}" {
		for i, f := range files {
			f.src += "\n\n\\target{twice}\n"
			if i == 0 {
				f.src += "\n\\section{\n  \\title{\u00e9}{x}{twice}\n}\n"
			}
			files[i] = f
		}
	}
	here := write(files, lead, call)
	root, err := (&load.Processor{}).LoadFile(v.Dir()+"/doc.lit", lib.Base())
	v.Assert(err == nil, "the document is fine but for the reference")
	_, err = lib.Pages(engine, root)
	var unknown booklit.UnknownTagError
	var ambiguous booklit.AmbiguousReferenceError
	switch {
	case errors.As(err, &unknown):
		v.Assert(unknown.TagName == "zz", "an unknown tag")
		pointed(err, unknown.ErrorLocation, here, "reference")
	case errors.As(err, &ambiguous):
		v.Assert(ambiguous.TagName == "twice", "an ambiguous tag")
		pointed(err, ambiguous.ErrorLocation, here, "reference")
		for _, f := range files {
			path := v.Dir() + "/" + f.path
			src, _ := v.ReadFile(path)
			for off := range src {
				if at(src[off:], "\\target{twice}") || at(src[off:], "\\title{\u00e9}") {
					defs = append(defs, spot{path, src, off})
				}
			}
		}
		v.Assert(len(ambiguous.DefinedLocations) == len(defs), "every definition is listed")
		for _, d := range defs {
			n := 0
			for _, loc := range ambiguous.DefinedLocations {
				if loc.FilePath == d.path && loc.NodeLocation == lib.Locate(d.src, d.off) {
					n++
				}
			}
			v.Assert(n == 1, "each definition is pointed at")
			var report, page bytes.Buffer
			ambiguous.PrettyPrint(&report)
			v.Assert(ambiguous.PrettyHTML(&page) == nil && lib.Contains(report.String(), "| "+line(d)+"\n"), "and shown")
			ms, _ := lib.HTML(page.String())
			v.Assert(showsLine(ms, line(d)), "in HTML as well")
		}
		v.Reach("ambiguous")
	default:
		v.Observe("err", err.Error())
		v.Fail("the broken reference is reported")
	}
}

// showsLine finds a line among those annotated.
func showsLine(ms []lib.Mark, line string) bool {
	for i, m := range ms {
		if c, _ := m.Attr("class"); m.K != '<' || c != "line" {
			continue
		}
		text := ""
		for k := i + 1; k < len(ms) && (ms[k].K != '/' || ms[k].Name != "pre"); k++ {
			if ms[k].K == 't' {
				text += ms[k].Name
			}
		}
		if text == line {
			return true
		}
	}
	return false
}

// lines of any length
func H_long() {
	long := "abcdefghijklmnop"
	for len(long) < 8192 {
		long += long
	}
	short := long[:4096-len("\\nope")-1]
	before, lead, after := v.Pick("before", "", short, long[:5000]), v.Pick("lead", "", "x", long[:5000]), v.Pick("after", "", short, long)
	if v.Thorough() {
		before, lead, after = v.Pick("more before", before, long[:4095], long), v.Pick("more lead", lead, short, long[:4096]), v.Pick("more after", after, "x", long[:4091])
	}
	path := v.Dir() + "/doc.lit"
	src := before + "\n" + lead
	at := spot{path, src + "\\nope" + after + v.Pick("end", "", "\n", "\r\n", "\nmore\n"), len(src)}
	v.WriteFile(path, at.src, 1)
	loc := ast.Location{Line: 2, Col: len(lead) + 1, Offset: at.off}
	shown(booklit.UndefinedFunctionError{Function: "nope", ErrorLocation: booklit.ErrorLocation{FilePath: path, NodeLocation: loc, Length: 5}}, path, line(at), "\\nope", loc)
	v.Reach("long")
}

// a file that does not parse
func H_parse() {
	lead := v.StrIn("lead", depth(2, 3), "a \n")
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", "\\title{Doc}{doc}\n\n\\include-section{sub/inc.lit}\n", 1)
	v.WriteFile(dir+"/sub/inc.lit", "\\title{Inc}{inc}\n\n"+lead+"}x\n", 1)
	err := evaluate()
	var parse booklit.ParseError
	v.Assert(errors.As(err, &parse), "it does not parse")
	v.Assert(parse.FilePath == dir+"/sub/inc.lit", "names the file")
	var b bytes.Buffer
	parse.PrettyPrint(&b)
	v.Assert(parse.PrettyHTML(&b) == nil, "HTML is produced")
	v.Reach("parse error")
}

// whatever became of the file
func H_changed() {
	path := v.Dir() + "/doc.lit"
	loc := booklit.ErrorLocation{
		FilePath:     path,
		NodeLocation: ast.Location{Line: v.Len("line", depth(2, 3)), Col: v.Len("col", depth(2, 3))},
		Length:       v.Len("length", 2),
	}
	src := ""
	switch v.Pick("now", "gone", "directory", "ascii", "unicode") {
	case "directory":
		v.WriteFile(path+"/x", "", 1)
	case "ascii":
		src = v.StrIn("src", v.Len("size", depth(2, 5)), "a<\n\r")
		v.WriteFile(path, src, 1)
	case "unicode":
		src = v.Pick("char", "\u00e9", "\u4e16\n", "\xff") + v.Str("src", depth(1, 2))
		v.WriteFile(path, src, 1)
	}
	for i, err := range []booklit.PrettyError{
		booklit.ParseError{Err: errors.New("x"), ErrorLocation: loc},
		booklit.UnknownTagError{TagName: "x", ErrorLocation: loc},
		booklit.AmbiguousReferenceError{TagName: "x", DefinedLocations: []booklit.ErrorLocation{loc}, ErrorLocation: loc},
		booklit.UndefinedFunctionError{Function: "x", ErrorLocation: loc},
		booklit.FailedFunctionError{Function: "x", Err: booklit.UndefinedFunctionError{Function: "x", ErrorLocation: loc}, ErrorLocation: loc},
		booklit.TitleTwiceError{TitleLocation: loc, ErrorLocation: loc},
	} {
		i, err := i, err
		panicked, msg := v.Try(func() {
			buf := new(bytes.Buffer)
			err.PrettyPrint(buf)
			v.Assert(buf.Len() > 0, "something is printed")
			if i%3 == 0 || v.Thorough() {
				booklit.ErrorResponse(&response{}, err)
			} else {
				err.PrettyHTML(new(bytes.Buffer))
			}
		})
		v.Observe("panic", msg)
		v.Assert(!panicked, "reporting never crashes")
	}
	v.Reach("reported")
}
