package c25

import (
	"bytes"
	"net/http"
	"net/url"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// response is what a request is answered with.
type response struct {
	header http.Header
	code   int
	body   string
}

func (r *response) Header() http.Header { return r.header }
func (r *response) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
	}
}
func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body += string(b)
	return len(b), nil
}

type files struct{}

func (files) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	w.WriteHeader(222)
	w.Write([]byte("file " + r.URL.Path))
}

func serverOf(dir, templates string) *booklitcmd.Server {
	return &booklitcmd.Server{
		In:         dir + "/doc.lit",
		Processor:  &load.Processor{},
		Templates:  templates,
		Engine:     render.NewHTMLEngine(),
		FileServer: files{},
	}
}

func get(s *booklitcmd.Server, path string) *response {
	w := &response{header: http.Header{}}
	s.ServeHTTP(w, &http.Request{Method: "GET", URL: &url.URL{Path: path}, Header: http.Header{}})
	if w.code == 0 {
		w.code = 200
	}
	return w
}

// tagOf is the tag a path asks for.
func tagOf(path string) (string, bool) {
	if path == "/" {
		return "index", true
	}
	n := len(path) - len(".html")
	if n < 1 || path[0] != '/' || path[n:] != ".html" {
		return "", false
	}
	return path[1:n], true
}

// expect works out what a path shows, from scratch: the pages that do, or
// whether something fails.
func expect(dir, templates, path string) (pages []string, failed bool) {
	tag, ok := tagOf(path)
	if !ok {
		return nil, false
	}
	root, err := (&load.Processor{}).LoadFile(dir+"/doc.lit", lib.Base())
	if err != nil {
		return nil, true
	}
	lib.Walk(root, func(s *booklit.Section) {
		for _, t := range s.Tags {
			if t.Name != tag {
				continue
			}
			e := render.NewHTMLEngine()
			if templates != "" && e.LoadTemplates(templates) != nil {
				failed = true
				return
			}
			buf := new(bytes.Buffer)
			if e.RenderSection(buf, s) != nil {
				failed = true
				return
			}
			pages = append(pages, buf.String())
		}
	})
	return
}

func check(s *booklitcmd.Server, dir, path string) {
	pages, failed := expect(dir, s.Templates, path)
	answer(get(s, path), pages, failed, path)
}

func answer(got *response, pages []string, failed bool, path string) {
	switch {
	case failed:
		v.Assert(got.code == 500, "failures are answered with status 500")
		v.Assert(lib.Contains(got.body, "<html") && lib.Contains(got.body, "</html>"), "and an error page")
		v.Assert(!lib.Contains(got.body, "Secret"), "and none of the failed page")
		v.Reach("failed")
	case len(pages) > 0:
		ok := false
		for _, p := range pages {
			ok = ok || got.body == p
		}
		v.Assert(got.code == 200, "sections are answered with status 200")
		v.Assert(ok, "and the current page")
		v.Reach("page")
	default:
		v.Assert(got.code == 222 && got.body == "file "+path, "other paths are for the file server")
		v.Reach("file")
	}
}

const doc = `\title{Root}{index}{root}

Secret

\section{
  \title{One}{one}

  \target{anchor}\reference{two}
}

\section{
  \title{Two}{two}{index2}

  \table-of-contents
}
`

func H_paths() {
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", doc, 1)
	s := serverOf(dir, "")
	path := v.Pick("path", "/", "/index.html", "/root.html", "/one.html", "/two.html", "/anchor.html", "/index2.html",
		"/other.html", "/one", "/one.htm", "/one.css", "/one.html/", "/.html", "/html", "//one.html", "/sub/one.html",
		"/One.html", "/one.html.html", "/one.htmlx", "/index", "/one%2ehtml", "")
	check(s, dir, path)
	check(s, dir, v.Pick("then", "/", path))
}

// any short path
func H_any_path() {
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", "\\title{R}{a}\n\n\\section{\n\\title{B}{b.}\n}\n", 1)
	path := "/" + v.StrIn("name", v.Len("length", depth(3, 5)), "ab./") + v.Pick("ext", ".html", "")
	check(serverOf(dir, ""), dir, path)
}

// documents without an index
func H_no_index() {
	dir := v.Dir()
	v.WriteFile(dir+"/doc.lit", "\\title{R}\n\ntext\n", 1)
	check(serverOf(dir, ""), dir, v.Pick("path", "/", "/index.html", "/r.html"))
}

var versions = []string{
	doc,
	"\\title{Root}{index}\n\nSecret\n\n\\section{\n\\title{One}{one}\n\nnew\n}\n",
	// fails to parse
	"\\title{Root}{index}\n\nSecret\n\n\\section{\n\n",
	// fails to evaluate
	"\\title{Root}{index}\n\nSecret\n\n\\unknown-function\n\n\\section{\n\\title{One}{one}\n}\n",
	// fails to render, after some of the page
	"\\title{Root}{index}\n\nSecret\n\nx\\reference{nowhere}\n\n\\section{\n\\title{One}{one}\n\nfine\n}\n",
	"\\title{Root}{index}\n\nfine\n\n\\split-sections\n\n\\section{\n\\title{One}{one}\n\nSecret\n\n\\reference{index}\\reference{nowhere}\n}\n",
	"\\title{Root}{index}\n\nSecret\n\n\\section{\n\\title{One}{one}\n\nfirst\n}\n\n\\section{\n\\title{One}{one}\n\nsecond\n}\n\n\\reference{one}\n",
}

var pages = []string{
	"T {{. | render}}",
	"Secret {{. | render}} {{.NoSuchField}}",
	"Secret {{bad",
}

// histories of edits of document and templates, with requests in between
func H_histories() {
	dir := v.Dir()
	templates := ""
	if v.Bool("templates") {
		templates = dir + "/templates"
	}
	s := serverOf(dir, templates)
	for i := 0; i < depth(2, 3); i++ {
		k := 0
		if templates == "" || v.Thorough() {
			k = v.Concrete(v.Int("document", 0, len(versions)))
		} else {
			k = v.Pick("document with templates", 1, 5)
		}
		if k == len(versions) {
			v.RemoveFile(dir + "/doc.lit")
		} else {
			v.WriteFile(dir+"/doc.lit", versions[k], int64(20-k))
		}
		if templates != "" {
			k := v.Concrete(v.Int("template", 0, len(pages)))
			if k == len(pages) {
				v.RemoveFile(templates + "/page.tmpl")
			} else {
				v.WriteFile(templates+"/page.tmpl", pages[k], int64(20-k))
			}
		}
		if templates == "" || v.Thorough() {
			check(s, dir, v.Pick("path", "/", "/one.html"))
		} else {
			check(s, dir, "/one.html")
		}
		check(s, dir, "/style.css")
	}
}

// concurrent requests
func together(dir string, s *booklitcmd.Server, paths []string) {
	var fs []func()
	got := make([]*response, len(paths))
	for i := range paths {
		i := i
		fs = append(fs, func() { got[i] = get(s, paths[i]) })
	}
	v.Parallel(fs...)
	for i, p := range paths {
		pages, failed := expect(dir, s.Templates, p)
		answer(got[i], pages, failed, p)
	}
	v.Reach("concurrent")
}

const small = "\\title{Root}{index}\n\n\\section{\n\\title{Two}{two}\n}\n"

func H_concurrent() {
	dir := v.Dir()
	templates, text := "", small
	paths := []string{"/", "/two.html"}
	switch v.Pick("case", "plain", "same", "file", "parse", "render", "template", "broken") {
	case "same":
		paths[1] = "/"
	case "file":
		paths[0] = "/x.css"
	case "parse":
		text += "{"
	case "render":
		text = "\\title{Root}{index}\n\nSecret\n\n\\reference{nowhere}\n\n\\section{\n\\title{Two}{two}\n}\n"
	case "template":
		templates = dir + "/templates"
		v.WriteFile(templates+"/page.tmpl", "P {{.Title | render}}", 1)
	case "broken":
		templates = dir + "/templates"
		v.WriteFile(templates+"/page.tmpl", "Secret {{bad", 1)
	}
	v.WriteFile(dir+"/doc.lit", text, 1)
	s := serverOf(dir, templates)
	if v.Thorough() {
		if v.Bool("warm") {
			get(s, "/")
		}
		paths = append(paths, "/two.html")
	}
	together(dir, s, paths)
}
