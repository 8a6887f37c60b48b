package c37

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

var fault = errors.New("fault")

// source delivers a document in pieces and fails after some of it.
type source struct {
	data  string
	cuts  []int // where pieces end
	fail  int   // after how many bytes to fail, or -1
	with  bool  // the error comes with the last bytes
	at    int
	empty bool // one empty read on the way
}

func (s *source) Read(p []byte) (int, error) {
	if s.empty && s.at > 0 {
		s.empty = false
		return 0, nil
	}
	end := len(s.data)
	for _, c := range s.cuts {
		if c > s.at && c < end {
			end = c
		}
	}
	if s.fail >= 0 && s.fail < end {
		end = s.fail
	}
	n := copy(p, s.data[s.at:end])
	s.at += n
	switch {
	case s.fail >= 0 && s.at >= s.fail && (s.with || n == 0):
		return n, fault
	case s.at == len(s.data) && (s.with || n == 0):
		return n, io.EOF
	}
	return n, nil
}

var texts = []string{
	"\\title{T}\n\nSome \\bold{text}.\n",
	"a\n\n\\list{b}{{\n  c\n  d\n}}{{{\n  é}\n}}}\n",
	"bad }",
	"",
}

// a document read in pieces, or not to its end
func H_reader() {
	text := v.Pick("text", texts...)
	s := &source{data: text, fail: v.Concrete(v.Int("fail", -1, len(text))), with: v.Bool("with"), empty: v.Bool("empty")}
	for i := 0; i < depth(1, 2); i++ {
		s.cuts = append(s.cuts, v.Concrete(v.Int("cut", 0, len(text))))
	}
	got, err := ast.ParseReader("doc", s)
	if s.fail >= 0 {
		v.Reach("not read")
		v.Assert(errors.Is(err, fault), "the failure is reported")
		return
	}
	want, werr := ast.ParseReader("doc", strings.NewReader(text))
	v.Assert((err == nil) == (werr == nil), "pieces parse like the whole")
	if err != nil {
		v.Assert(err.Error() == werr.Error(), "with the same error")
		return
	}
	v.Assert(lib.SameToks(lib.Flat(got.(ast.Node)), lib.Flat(want.(ast.Node))), "to the same tree")
	v.Reach("read")
}

// sink takes a page up to some write, of which it takes a part.
type sink struct {
	fail, n int
	part    int // all but the last byte if 1
	got     bytes.Buffer
}

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	if s.fail == -2 {
		return 0, fault
	}
	if s.n == s.fail {
		s.fail = -2
		k := 0
		if s.part == 1 && len(p) > 0 {
			k = len(p) - 1
		}
		s.got.Write(p[:k])
		return k, fault
	}
	return s.got.Write(p)
}

const doc = "\\title{Doc}{doc}\n\ntext & more\n\n\\section{\n\\title{A}{a}\n\nin a\n}\n"

func engine() render.Engine {
	if v.Bool("text") {
		return render.NewTextEngine("md")
	}
	return render.NewHTMLEngine()
}

func whole(e render.Engine, s *booklit.Section) string {
	buf := new(bytes.Buffer)
	v.Assert(e.RenderSection(buf, s) == nil, "renders")
	return buf.String()
}

// a page that cannot be written to its end
func H_render() {
	e := engine()
	root, err := lib.Load(doc)
	v.Assert(err == nil, "loads")
	page := whole(e, root)
	s := &sink{fail: v.Int("write", 1, 400), part: v.Concrete(v.Int("part", 0, 1))}
	err = e.RenderSection(s, root)
	v.Assert((err == nil) == (s.fail != -2), "rendering fails exactly when not all was written")
	v.Assert(s.n < 400, "so many writes were considered")
	v.Assert(err == nil || errors.Is(err, fault), "with the failure")
	v.Assert(strings.HasPrefix(page, s.got.String()) && (err != nil || s.got.Len() == len(page)), "nothing but the page is written")
	v.Assert(whole(e, root) == page, "and works again afterwards")
	v.Reach("page")
}

// upto is any size a file is limited to.
func upto(n int) int {
	if v.Thorough() {
		return v.Concrete(v.Int("limit", 0, n))
	}
	if v.Bool("nearly") {
		return n - v.Concrete(v.Int("short", 0, 2))
	}
	return v.Concrete(v.Int("limit", 0, n/8)) * 8
}

// files of a build that cannot be written to their end
func H_write() {
	e := engine()
	dir := v.Dir()
	src := strings.Replace(doc, "\n\n", "\n\n\\split-sections\n\n", 1)
	v.WriteFile(dir+"/doc.lit", src, 1)
	root, err := (&load.Processor{}).LoadFile(dir+"/doc.lit", lib.Base())
	v.Assert(err == nil, "loads")
	v.WriteFile(dir+"/out/keep", "", 1)
	w := render.Writer{Engine: e, Destination: dir + "/out"}
	pages := map[string]string{}
	largest := 0
	lib.Walk(root, func(s *booklit.Section) {
		if s.Parent == nil || s.Parent.SplitSections {
			p := whole(e, s)
			pages[s.PrimaryTag.Name+"."+e.FileExtension()] = p
			if len(p) > largest {
				largest = len(p)
			}
		}
	})
	v.Assert(len(pages) == 2, "two pages")
	n := upto(largest)
	v.FileLimit(n)
	werr := w.WriteSection(root)
	v.FileLimit(-1)
	v.Assert((werr == nil) == (n == largest), "writing fails exactly when a page is cut short")
	v.Assert(werr == nil || errors.Is(werr, syscall.EFBIG), "with the failure")
	v.Assert(w.WriteSection(root) == nil, "writing works afterwards")
	for name, p := range pages {
		got, ok := v.ReadFile(dir + "/out/" + name)
		v.Assert(ok && got == p, "and the pages are whole")
	}
	v.Reach("pages")
}

func H_index() {
	e := engine()
	dir := v.Dir()
	v.WriteFile(dir+"/out/keep", "", 1)
	root, err := lib.Load(doc)
	v.Assert(err == nil, "loads")
	w := render.Writer{Engine: e, Destination: dir + "/out"}
	v.Assert(w.WriteSearchIndex(root, "i.json") == nil, "written")
	index, _ := v.ReadFile(dir + "/out/i.json")
	n := upto(len(index))
	v.FileLimit(n)
	err = w.WriteSearchIndex(root, "i.json")
	v.FileLimit(-1)
	v.Assert((err == nil) == (n == len(index)), "writing fails exactly when the index is cut short")
	v.Assert(err == nil || errors.Is(err, syscall.EFBIG), "with the failure")
	v.Assert(w.WriteSearchIndex(root, "i.json") == nil, "writing works afterwards")
	again, _ := v.ReadFile(dir + "/out/i.json")
	v.Assert(again == index, "and the index is whole")
	v.Reach("index")
}

// builds as a whole: what is printed, pages and index
func H_build() {
	dir := v.Dir()
	cmd := &booklitcmd.Command{In: dir + "/doc.lit"}
	v.WriteFile(cmd.In, doc, 1)
	out := v.Pick("out", "printed", "page", "index")
	if out != "printed" {
		cmd.Out = dir + "/out"
		cmd.SaveSearchIndex = out == "index"
	}
	run := func() (string, error) {
		f, err := os.Create(dir + "/stdout")
		v.Assert(err == nil, "scratch file")
		old := os.Stdout
		os.Stdout = f
		err = cmd.Execute(nil)
		os.Stdout = old
		f.Close()
		name := "/stdout"
		switch out {
		case "page":
			name = "/out/doc.html"
		case "index":
			name = "/out/search_index.json"
		}
		s, _ := v.ReadFile(dir + name)
		return s, err
	}
	page, err := run()
	v.Assert(err == nil && page != "", "builds")
	n := upto(len(page))
	full := n == len(page)
	if out == "index" {
		html, _ := v.ReadFile(dir + "/out/doc.html")
		full = full && len(html) <= n
	}
	v.FileLimit(n)
	_, err = run()
	v.FileLimit(-1)
	v.Assert((err == nil) == full, "the build fails exactly when something is cut short")
	again, err := run()
	v.Assert(err == nil && again == page, "and works afterwards")
	v.Reach("build")
}

// files that are missing, directories, or in the way
func H_paths() {
	dir := v.Dir()
	cmd := &booklitcmd.Command{In: dir + "/doc.lit", Out: dir + "/out"}
	cmd.SaveSearchIndex = true
	cmd.HTMLEngine.Templates = dir + "/t"
	main := "\\title{Doc}{doc}\n\n\\split-sections\n\n\\include-section{sub.lit}\n"
	files := map[string]string{"doc.lit": main, "sub.lit": "\\title{Sub}{sub}\n", "t/bold.tmpl": "<b>{{.Content | render}}</b>"}
	bad := v.Pick("bad", "doc.lit", "sub.lit", "t/bold.tmpl", "out", "out/doc.html", "out/sub.html", "out/search_index.json")
	how := v.Pick("how", "directory", "missing", "file")
	v.Assume(how == "directory" && bad != "out" || how == "missing" && (bad == "doc.lit" || bad == "sub.lit") || how == "file" && bad == "out")
	for name, s := range files {
		if name != bad {
			v.WriteFile(dir+"/"+name, s, 1)
		}
	}
	switch how {
	case "directory":
		v.WriteFile(dir+"/"+bad+"/x", "", 1)
	case "file":
		v.WriteFile(dir+"/"+bad, "in the way", 1)
	}
	proc := &load.Processor{}
	e := render.NewHTMLEngine()
	_, lerr := proc.LoadFile(cmd.In, lib.Base())
	terr := e.LoadTemplates(dir + "/t")
	v.Assert((lerr == nil) == (bad != "doc.lit" && bad != "sub.lit"), "a document is loaded only when all of it can be read")
	v.Assert((terr == nil) == (bad != "t/bold.tmpl"), "templates are loaded only when all can be read")
	err := cmd.Execute(nil)
	v.Assert(err != nil, "the build fails")
	for _, name := range []string{"doc.lit", "sub.lit", "t/bold.tmpl"} {
		if name == bad {
			v.Assert(len(v.Files(dir+"/out")) == 0, "without writing pages")
		}
	}
	switch {
	case how == "missing":
		v.Assert(strings.Contains(err.Error(), bad), "the file is named")
	case bad == "out/doc.html" || bad == "out/sub.html" || bad == "out/search_index.json":
		v.Assert(errors.Is(err, syscall.EISDIR) && strings.Contains(err.Error(), bad), "because of the directory")
	case bad == "out":
		v.Assert(errors.Is(err, syscall.ENOTDIR), "because of the file")
	}
	// the cause is removed
	if how == "directory" {
		v.RemoveFile(dir + "/" + bad + "/x")
	}
	v.RemoveFile(dir + "/" + bad)
	if s, ok := files[bad]; ok {
		v.WriteFile(dir+"/"+bad, s, 1)
	}
	root, err := proc.LoadFile(cmd.In, lib.Base())
	v.Assert(err == nil && len(root.Children) == 1, "it loads now")
	v.Assert(e.LoadTemplates(dir+"/t") == nil, "templates too")
	v.Assert(cmd.Execute(nil) == nil, "it builds now")
	v.Assert(len(v.Files(dir+"/out")) == 3, "all of it")
	v.Reach("paths")
}

// response is a client that goes away.
type response struct {
	sink
	header http.Header
	codes  []int
}

func (r *response) Header() http.Header  { return r.header }
func (r *response) WriteHeader(code int) { r.codes = append(r.codes, code) }

// requests whose response cannot be written
func H_server() {
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", "\\title{Doc}{doc}\n\ntext\n", 1)
	srv := &booklitcmd.Server{In: dir + "/doc.lit", Processor: &load.Processor{}, Engine: render.NewHTMLEngine(), FileServer: http.NotFoundHandler()}
	path := "/doc.html"
	if v.Bool("failing") {
		v.WriteFile(dir+"/doc.lit", "\\title{Doc}{doc}\n\n\\nope\n", 1)
	}
	get := func(fail, part int) *response {
		r := &response{header: http.Header{}}
		r.fail, r.part = fail, part
		req, err := http.NewRequest("GET", path, nil)
		v.Assert(err == nil, "request")
		srv.ServeHTTP(r, req)
		return r
	}
	want := get(-1, 0)
	body := want.got.String()
	got := get(v.Int("write", 1, 400), v.Concrete(v.Int("part", 0, 1)))
	v.Assert(strings.HasPrefix(body, got.got.String()), "no more than the answer is written")
	again := get(-1, 0)
	v.Assert(again.got.String() == body && len(again.codes) == len(want.codes), "the next request is answered as before")
	v.Reach("served")
}
