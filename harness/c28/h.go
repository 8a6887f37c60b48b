package c28

import (
	"errors"
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// One and Two have a function of the same name, which tells the plugin and the
// section it belongs to.
type One struct{ section *booklit.Section }

func (p One) Which() booklit.Content { return tell("one", p.section) }

type Two struct{ section *booklit.Section }

func (p Two) Which() booklit.Content { return tell("two", p.section) }

func tell(plugin string, s *booklit.Section) booklit.Content {
	return booklit.String("<" + plugin + " " + s.Title.String() + ">")
}

func one(s *booklit.Section) booklit.Plugin { return One{s} }
func two(s *booklit.Section) booklit.Plugin { return Two{s} }

func init() {
	booklit.RegisterPlugin("one", one)
	booklit.RegisterPlugin("two", two)
}

// want is a section as it should be.
type want struct {
	title    string
	path     string // of its file
	own      bool   // whether the file is its own
	said     string // what Which told
	undef    bool   // whether Which is undefined
	children []*want
}

// maker writes an arbitrary program, and what it should result in.
type maker struct {
	left  int // events
	n     int // sections
	files []string
	srcs  []string
	ops   []string
	bad   bool
}

// section writes the source of a section: its title, and any events. plugins
// are those it starts with.
func (m *maker) section(w *want, dir, indent string, plugins []string) string {
	w.title = "s" + strconv.Itoa(m.n)
	m.n++
	src := indent + "\\title{" + w.title + "}\n\n"
	for m.left > 0 && !m.bad {
		m.left--
		op := v.Pick("op", m.ops...)
		switch op {
		case "end":
			if w.title == "s0" {
				m.left = 0
			}
			return src
		case "which":
			src += indent + "\\which\n\n"
			if len(plugins) == 0 {
				m.bad = true
				return src
			}
			w.said += "<" + plugins[0] + " " + w.title + ">"
		case "inline":
			child := &want{path: w.path}
			w.children = append(w.children, child)
			src += indent + "\\section{\n" + m.section(child, dir, indent+"  ", append([]string{}, plugins...)) + indent + "}\n\n"
		case "include":
			child := &want{own: true}
			w.children = append(w.children, child)
			k := strconv.Itoa(m.n)
			sub := "d" + k + "/"
			child.path = dir + sub + "f.lit"
			src += indent + "\\include-section{" + sub + "f.lit}\n\n"
			body := m.section(child, dir+sub, "", nil)
			v.WriteFile(child.path, body, 1)
		default:
			src += indent + "\\use-plugin{" + op + "}\n\n"
			plugins = append(plugins, op)
		}
	}
	return src
}

// same checks a section tree.
func same(s *booklit.Section, parent *booklit.Section, w *want, where string) {
	v.Assert(s.Parent == parent, "the parent is the section that declares it")
	v.Assert(s.Title.String() == w.title, "the title is its own")
	v.Assert(s.FilePath() == w.path && (s.Path == w.path || !w.own), "the file is the one it is written in")
	said := ""
	for i, text := 0, s.Body.String(); i < len(text); i++ {
		if text[i] != '\n' {
			said += text[i : i+1]
		}
	}
	v.Assert(said == w.said, "functions come from the plugins used, for this section")
	v.Assert(len(s.Plugins) == len(s.PluginFactories), "each plugin is made once")
	v.Assert(len(s.Children) == len(w.children), "every declared section is a child")
	for i, c := range w.children {
		same(s.Children[i], s, c, where)
	}
}

func program(n int, ops []string, factories []booklit.PluginFactory, plugins []string) {
	m := &maker{left: n, ops: ops}
	dir := v.Dir() + "/"
	root := &want{path: dir + "doc.lit"}
	v.WriteFile(root.path, m.section(root, dir, "", plugins), 1)
	proc := &load.Processor{}
	for round := 0; round < 2; round++ {
		sec, err := proc.LoadFile(root.path, factories)
		if m.bad {
			var undefined booklit.UndefinedFunctionError
			v.Assert(errors.As(err, &undefined) && undefined.Function == "which", "plugins used elsewhere are not available")
			v.Reach("not available")
			return
		}
		v.Assert(err == nil, "the document is fine")
		same(sec, nil, root, "")
		if len(root.children) > 1 {
			v.Reach("siblings")
		}
	}
}

func H_plugins() {
	program(depth(6, 7), []string{"end", "which", "inline", "include", "one"}, lib.Base(), nil)
}

func H_two_plugins() {
	program(depth(5, 7), []string{"end", "which", "inline", "one", "two"}, lib.Base(), nil)
}

func H_given() {
	program(depth(5, 6), []string{"end", "which", "inline", "include", "one"}, append(lib.Base(), two), []string{"two"})
}

// many children, whose plugins must not end up with one another
func H_crowd() {
	n := depth(4, 6)
	doc := "\\title{s0}\n\n\\use-plugin{one}\n\n"
	for i := 0; i < n; i++ {
		if v.Bool("use") {
			doc += "\\use-plugin{one}\n\n"
		}
		doc += "\\section{\n\\title{s" + strconv.Itoa(i+1) + "}\n\n"
		if v.Bool("use in child") {
			doc += "\\use-plugin{two}\n\n"
		}
		doc += "\\which\n}\n\n"
	}
	path := v.Dir() + "/doc.lit"
	v.WriteFile(path, doc, 1)
	// two first: a child which uses it still has it after one
	sec, err := (&load.Processor{}).LoadFile(path, lib.Base())
	v.Assert(err == nil, "the document is fine")
	v.Assert(len(sec.Children) == n, "every section is a child")
	for i, c := range sec.Children {
		v.Assert(c.Title.String() == "s"+strconv.Itoa(i+1), "in order")
		v.Assert(c.Body.String() == "<one s"+strconv.Itoa(i+1)+">\n\n" || lib.Contains(c.Body.String(), "<one s"+strconv.Itoa(i+1)+">"), "with its parent's plugin")
	}
	// a plugin list belongs to one section
	for i, c := range sec.Children {
		before := len(c.PluginFactories)
		c.UsePlugin(func(s *booklit.Section) booklit.Plugin {
			v.Assert(s == c, "made for the section using it")
			return Two{s}
		})
		v.Assert(len(c.PluginFactories) == before+1 && len(c.Plugins) == before+1, "used once")
		for k, d := range sec.Children {
			if k <= i {
				continue
			}
			last := d.PluginFactories[len(d.PluginFactories)-1](d)
			_, isOne := last.(One)
			_, isTwo := last.(Two)
			v.Assert(isOne || isTwo, "other sections keep theirs")
		}
	}
	v.Reach("crowd")
}

// where included files are
func H_paths() {
	dir := v.Dir() + "/"
	at := dir + "a/b/" // the directory of the including file
	path := at + "doc.lit"
	doc := path
	n := depth(2, 4)
	var chain []string
	for i := 0; i <= n; i++ {
		k := strconv.Itoa(i)
		body := "\\title{s" + k + "}\n\n"
		next, rel := "", ""
		if i < n {
			switch v.Pick("path", "beside", "below", "above", "same name", "dotted") {
			case "beside":
				rel, next = "f"+k+".lit", at+"f"+k+".lit"
			case "below":
				rel, next = "d/f"+k+".lit", at+"d/f"+k+".lit"
			case "above":
				rel, next = "../f"+k+".lit", up(at)+"f"+k+".lit"
			case "same name":
				rel, next = "g"+k+"/doc.lit", at+"g"+k+"/doc.lit"
			case "dotted":
				rel, next = "./d/../f"+k+".lit", at+"f"+k+".lit"
			}
			// a decoy for whoever starts elsewhere
			if v.Bool("decoy") && clean(dir+"a/b/"+rel) != next {
				v.WriteFile(clean(dir+"a/b/"+rel), "\\title{decoy}\n", 1)
			}
			call := "\\include-section{" + rel + "}\n"
			if v.Bool("inline") {
				call = "\\section{\n\\title{in}\n\n" + call + "}\n"
			}
			body += call
		}
		v.WriteFile(path, body, 1)
		chain = append(chain, path)
		path = next
		if next != "" {
			at = up(next + "/")
		}
	}
	sec, err := (&load.Processor{}).LoadFile(doc, lib.Base())
	v.Assert(err == nil, "the document is fine")
	for i, want := range chain {
		v.Assert(sec.Title.String() == "s"+strconv.Itoa(i) && sec.FilePath() == want, "the path is relative to the including file")
		if i < n {
			v.Assert(len(sec.Children) == 1, "one section")
			sec = sec.Children[0]
			if sec.Title.String() == "in" {
				v.Assert(sec.FilePath() == want && len(sec.Children) == 1, "inline sections are in the same file")
				sec = sec.Children[0]
			}
		}
	}
	v.Reach("chain")
}

// up is the directory a directory is in.
func up(dir string) string {
	i := len(dir) - 2
	for dir[i] != '/' {
		i--
	}
	return dir[:i+1]
}

func clean(p string) string {
	for i := 0; i+3 < len(p); i++ {
		if p[i:i+4] == "/../" {
			return clean(up(p[:i+1]) + p[i+4:])
		}
		if p[i:i+3] == "/./" {
			return clean(p[:i] + p[i+2:])
		}
	}
	return p
}

// a file included more than once
func H_shared() {
	dir := v.Dir() + "/"
	v.WriteFile(dir+"x/shared.lit", "\\title{Shared}\n\n\\section{\n\\title{Inner}\n}\n", 1)
	v.WriteFile(dir+"x/other.lit", "\\title{Other}\n\n\\include-section{shared.lit}\n", 1)
	doc := "\\title{Doc}\n\n"
	n := depth(3, 4)
	var kinds []string
	for i := 0; i < n; i++ {
		kind := v.Pick("kind", "file", "other", "inline")
		kinds = append(kinds, kind)
		switch kind {
		case "file":
			doc += "\\include-section{x/shared.lit}\n\n"
		case "other":
			doc += "\\include-section{x/other.lit}\n\n"
		case "inline":
			doc += "\\section{\n\\title{In}\n\n\\include-section{x/shared.lit}\n}\n\n"
		}
	}
	v.WriteFile(dir+"doc.lit", doc, 1)
	root, err := (&load.Processor{}).LoadFile(dir+"doc.lit", lib.Base())
	v.Assert(err == nil, "the document is fine")
	v.Assert(len(root.Children) == n, "each inclusion is a section")
	var seen []*booklit.Section
	for i, c := range root.Children {
		v.Assert(c.Parent == root, "of the including section")
		if kinds[i] != "file" {
			v.Assert(c.Title.String() == map[string]string{"other": "Other", "inline": "In"}[kinds[i]], "in order")
			v.Assert(len(c.Children) == 1 && c.Children[0].Parent == c, "of the including section")
			c = c.Children[0]
		}
		v.Assert(c.Title.String() == "Shared" && c.Path == dir+"x/shared.lit", "the file's section")
		v.Assert(len(c.Children) == 1 && c.Children[0].Parent == c && c.Children[0].Title.String() == "Inner", "with its own children")
		for _, s := range seen {
			v.Assert(s != c && s.Children[0] != c.Children[0], "a section of its own")
		}
		seen = append(seen, c)
	}
	v.Reach("shared")
}

// files which include one another, themselves, or neither
func H_cycles() {
	dir := v.Dir() + "/"
	names := []string{"a.lit", "sub/b.lit", "sub/c.lit"}
	n := depth(2, 3)
	var calls [3][]int // the files each file includes
	left := depth(3, 4)
	for i := 0; i < n; i++ {
		body := "\\title{f" + strconv.Itoa(i) + "}\n\n"
		form, inline := v.Pick("form", "plain", "dotted", "roundabout"), v.Bool("inline")
		for left > 0 && v.Bool("another") {
			left--
			to := v.Concrete(v.Int("to", 0, n-1))
			calls[i] = append(calls[i], to)
			rel := names[to]
			if i > 0 {
				rel = "../" + rel
			}
			switch form {
			case "dotted":
				rel = "./" + rel
			case "roundabout":
				rel = "x/.././" + rel
			}
			call := "\\include-section{" + rel + "}\n\n"
			if inline {
				call = "\\section{\n\\title{in}\n\n" + call + "}\n\n"
			}
			body += call
		}
		v.WriteFile(dir+names[i], body, 1)
	}
	// whether a section of the file is inside another of it
	var endless func(i int, above []int) bool
	endless = func(i int, above []int) bool {
		for _, a := range above {
			if a == i {
				return true
			}
		}
		for _, c := range calls[i] {
			if endless(c, append(append([]int{}, above...), i)) {
				return true
			}
		}
		return false
	}
	cyclic := endless(0, nil)
	proc := &load.Processor{}
	for round := 0; round < 2; round++ {
		sec, err := proc.LoadFile(dir+names[0], lib.Base())
		if cyclic {
			var failed booklit.FailedFunctionError
			v.Assert(err != nil && errors.As(err, &failed), "a file inside itself is an error, at the inclusion")
			v.Reach("cycle")
			continue
		}
		v.Assert(err == nil, "files may be included many times")
		tree(sec, nil, 0, &calls)
		v.Reach("no cycle")
	}
}

func tree(s, parent *booklit.Section, i int, calls *[3][]int) {
	v.Assert(s.Parent == parent && s.Title.String() == "f"+strconv.Itoa(i), "the file's section")
	v.Assert(len(s.Children) == len(calls[i]), "with each it includes")
	for k, c := range s.Children {
		up := s
		if c.Title.String() == "in" {
			v.Assert(c.Parent == s && len(c.Children) == 1, "from inline sections too")
			up, c = c, c.Children[0]
		}
		tree(c, up, calls[i][k], calls)
	}
}
