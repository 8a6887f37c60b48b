package c35

import (
	"bytes"
	"os"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// run executes a command and gives what it prints.
func run(cmd *booklitcmd.Command) (string, error) {
	path := v.Dir() + "/stdout"
	f, err := os.Create(path)
	if err != nil {
		v.Fail("scratch file")
	}
	old := os.Stdout
	os.Stdout = f
	err = cmd.Execute(nil)
	os.Stdout = old
	f.Close()
	booklit.AllowBrokenReferences = false
	out, _ := v.ReadFile(path)
	return out, err
}

// build is a command with its document.
type build struct {
	cmd   *booklitcmd.Command
	files map[string]string // what is in the directory before
}

var docs = map[string]string{
	"plain": "\\title{Doc}{doc}\n\ntext\n\n\\section{\n\\title{A}{a}\n\nin a \\target{spot}{Spot}\n\n\\section{\n\\title{B}{b}\n\nin b\n}\n}\n",
	"split": "\\title{Doc}{doc}\n\n\\split-sections\n\ntext\n\n\\section{\n\\title{A}{a}\n\nin a \\target{spot}{Spot}\n\n\\section{\n\\title{B}{b}\n\nin b\n}\n}\n\n\\section{\n\\title{C}{c}\n}\n",
	"deep":  "\\title{Doc}{doc}\n\ntext\n\n\\section{\n\\title{A}{a}\n\n\\split-sections\n\nin a \\target{spot}{Spot}\n\n\\section{\n\\title{B}{b}\n\nin b\n}\n}\n",
}

// doc is a document the options can render: there is no template for targets in
// text.
func doc(cmd *booklitcmd.Command, name string) string {
	s := docs[name]
	if bare(cmd) {
		return before(s, "\\target{spot}{Spot}")
	}
	return s
}

func bare(cmd *booklitcmd.Command) bool {
	return cmd.TextEngine.FileExtension != "" && cmd.TextEngine.Templates == ""
}

// before is s without the first part.
func before(s, part string) string {
	for i := 0; i+len(part) <= len(s); i++ {
		if s[i:i+len(part)] == part {
			return s[:i] + s[i+len(part):]
		}
	}
	return s
}

// engine is the one the options ask for.
func engine(cmd *booklitcmd.Command) (render.Engine, error) {
	if cmd.TextEngine.FileExtension != "" {
		e := render.NewTextEngine(cmd.TextEngine.FileExtension)
		if cmd.TextEngine.Templates != "" {
			return e, e.LoadTemplates(cmd.TextEngine.Templates)
		}
		return e, nil
	}
	e := render.NewHTMLEngine()
	if cmd.HTMLEngine.Templates != "" {
		return e, e.LoadTemplates(cmd.HTMLEngine.Templates)
	}
	return e, nil
}

// expect checks what a build does against the section it should render.
func expect(cmd *booklitcmd.Command, sec, root *booklit.Section) {
	e, err := engine(cmd)
	v.Assert(err == nil, "templates load")
	want := map[string]string{}
	add := func(s *booklit.Section) {
		buf := new(bytes.Buffer)
		v.Assert(e.RenderSection(buf, s) == nil, "the section renders")
		want[s.PrimaryTag.Name+"."+e.FileExtension()] = buf.String()
	}
	lib.Walk(sec, func(s *booklit.Section) {
		if s == sec || s.Parent.SplitSections {
			add(s)
		}
	})
	page := want[sec.PrimaryTag.Name+"."+e.FileExtension()]
	if cmd.Out != "" && v.Bool("old") {
		want["other.txt"] = "kept"
		v.WriteFile(cmd.Out+"/other.txt", "kept", 1)
		v.WriteFile(cmd.Out+"/"+sec.PrimaryTag.Name+"."+e.FileExtension(), page+page, 1)
	}
	out, err := run(cmd)
	v.Assert(err == nil, "the build succeeds")
	if cmd.Out == "" {
		v.Assert(out == page, "the page is printed")
		v.Reach("printed")
		return
	}
	v.Assert(out == "", "nothing is printed")
	got := v.Files(cmd.Out)
	n := len(want)
	if cmd.SaveSearchIndex {
		n++
		index, ok := v.ReadFile(cmd.Out + "/search_index.json")
		v.Assert(ok, "the search index is written")
		entries, ok := lib.JSON(index)
		v.Assert(ok, "as JSON")
		lib.Walk(root, func(s *booklit.Section) {
			for _, t := range s.Tags {
				d, ok := entries[t.Name]
				v.Assert(ok && d["location"] == e.URL(t), "of the whole document")
			}
		})
		v.Reach("index")
	}
	v.Assert(len(got) == n, "no other files are written")
	for name, text := range want {
		have, ok := v.ReadFile(cmd.Out + "/" + name)
		v.Assert(ok, "every page is written")
		v.Assert(have == text, "with all of the section")
	}
	v.Reach("written")
}

func options() *booklitcmd.Command {
	cmd := &booklitcmd.Command{In: v.Dir() + "/src/doc.lit"}
	switch v.Pick("engine", "html", "text", "html templates", "text templates") {
	case "text":
		cmd.TextEngine.FileExtension = "md"
	case "html templates":
		cmd.HTMLEngine.Templates = v.Dir() + "/tmpl"
		cmd.TextEngine.Templates = v.Dir() + "/not-for-html"
		v.WriteFile(v.Dir()+"/tmpl/page.tmpl", "<mine>{{. | render}}</mine>", 1)
	case "text templates":
		cmd.TextEngine.FileExtension = "md"
		cmd.TextEngine.Templates = v.Dir() + "/tmpl"
		cmd.HTMLEngine.Templates = v.Dir() + "/not-for-text"
		v.WriteFile(v.Dir()+"/tmpl/page.tmpl", "mine {{. | render}}", 1)
		v.WriteFile(v.Dir()+"/tmpl/target.tmpl", "(target)", 1)
	}
	switch v.Pick("out", "print", "dir", "new dir") {
	case "dir":
		cmd.Out = v.Dir() + "/out"
		v.WriteFile(cmd.Out+"/x", "", 1)
		v.RemoveFile(cmd.Out + "/x")
	case "new dir":
		cmd.Out = v.Dir() + "/a/b"
	}
	cmd.SaveSearchIndex = v.Bool("index")
	return cmd
}

// documents which are fine
func H_build() {
	cmd := options()
	v.WriteFile(cmd.In, doc(cmd, v.Pick("doc", "plain", "split", "deep")), 1)
	root, err := (&load.Processor{}).LoadFile(cmd.In, lib.Base())
	v.Assert(err == nil, "the document loads")
	sec := root
	tag := v.Pick("tag", "", "doc", "a", "b", "spot")
	if tag != "" {
		v.Assume(tag != "spot" || !bare(cmd))
		cmd.SectionTag = tag
		lib.Walk(root, func(s *booklit.Section) {
			if s.PrimaryTag.Name == tag || tag == "spot" && s.PrimaryTag.Name == "a" {
				sec = s
			}
		})
		v.Reach("by tag")
	}
	expect(cmd, sec, root)
}

// another file's section below the document
func H_path() {
	cmd := options()
	v.WriteFile(cmd.In, doc(cmd, v.Pick("doc", "plain", "split")), 1)
	cmd.SectionPath = v.Dir() + "/src/sub/more.lit"
	v.WriteFile(cmd.SectionPath, v.Pick("more", "\\title{More}{more}\n\ntext\n", "\\title{More}{more}\n\n\\split-sections\n\n\\section{\n\\title{Less}{less}\n}\n"), 1)
	proc := &load.Processor{}
	root, err := proc.LoadFile(cmd.In, lib.Base())
	v.Assert(err == nil, "the document loads")
	sec, err := proc.LoadFileIn(root, cmd.SectionPath, lib.Base())
	v.Assert(err == nil, "the section loads")
	v.Assert(sec.Parent == root, "below the document")
	v.Reach("by path")
	expect(cmd, sec, root)
}

// what cannot be built is an error, and leaves what is there alone
func H_fails() {
	cmd := options()
	text := doc(cmd, "plain")
	why := v.Pick("why", "missing", "does not parse", "undefined", "unknown tag", "missing path", "bad path", "broken reference", "templates", "no templates")
	rendering := false
	switch why {
	case "does not parse":
		text += "}"
	case "undefined":
		text += "\\nope"
	case "unknown tag":
		cmd.SectionTag = "zz"
	case "missing path":
		cmd.SectionPath = v.Dir() + "/src/zz.lit"
	case "bad path":
		cmd.SectionPath = v.Dir() + "/src/zz.lit"
		v.WriteFile(cmd.SectionPath, "\\nope", 1)
	case "broken reference":
		text += "\n\n\\reference{zz}\n"
		rendering = true
	case "templates":
		v.WriteFile(v.Dir()+"/tmpl/page.tmpl", "{{", 1)
		cmd.HTMLEngine.Templates = v.Dir() + "/tmpl"
		cmd.TextEngine.Templates = v.Dir() + "/tmpl"
	case "no templates":
		cmd.HTMLEngine.Templates = v.Dir() + "/missing"
		cmd.TextEngine.Templates = v.Dir() + "/missing"
	}
	if why != "missing" {
		v.WriteFile(cmd.In, text, 1)
	}
	_, err := run(cmd)
	v.Assert(err != nil, "the failure is reported")
	if cmd.Out != "" && !rendering {
		v.Assert(len(v.Files(cmd.Out)) == 0, "nothing is written")
	}
	v.Reach("failed")
}

// broken references can be allowed
func H_allowed() {
	cmd := &booklitcmd.Command{In: v.Dir() + "/src/doc.lit", AllowBrokenReferences: v.Bool("allow")}
	doc := "\\title{Doc}{doc}\n\n\\reference{" + v.Pick("optional", "doc", "zz") + "}{text}\n"
	broken := lib.Contains(doc, "zz")
	v.WriteFile(cmd.In, doc, 1)
	for i := 0; i < 2; i++ {
		out, err := run(cmd)
		v.Assert((err == nil) == (!broken || cmd.AllowBrokenReferences), "broken references fail unless allowed")
		if err == nil {
			v.Assert(lib.Contains(out, "text"), "and show their text")
			v.Reach("allowed")
		}
	}
}
