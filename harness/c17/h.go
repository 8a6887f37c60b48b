package c17

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

type sec struct {
	split, single bool
	// declarations before, between and after the children
	at [3]string
}

// declared places a section's declarations anywhere around its children.
func declared() *sec {
	s := &sec{split: v.Bool("split"), single: v.Bool("single")}
	if s.split {
		s.at[v.Concrete(v.Int("split at", 0, 2))] += "\\split-sections\n\n"
	}
	if s.single {
		k := v.Concrete(v.Int("single at", 0, 2))
		if v.Bool("first") {
			s.at[k] = "\\single-page\n\n" + s.at[k]
		} else {
			s.at[k] += "\\single-page\n\n"
		}
	}
	return s
}

func source(parents []int, secs []*sec, i int, drop bool) string {
	name := "s" + strconv.Itoa(i)
	out := "\\title{" + name + "}{" + name + "}\n\n"
	at := func(k int) {
		if !drop {
			out += secs[i].at[k]
			return
		}
		// the split form: the same without single-page
		if lib.Contains(secs[i].at[k], "split") {
			out += "\\split-sections\n\n"
		}
	}
	at(0)
	cs := lib.Children(parents, i)
	for k, c := range cs {
		if k == len(cs)-1 {
			at(1)
		}
		out += "\\section{\n" + source(parents, secs, c, drop) + "}\n\n"
	}
	if len(cs) == 0 {
		at(1)
	}
	at(2)
	return out
}

func single(parents []int, secs []*sec, i int) bool {
	for ; i >= 0; i = parents[i] {
		if secs[i].single {
			return true
		}
	}
	return false
}

func check(parents []int, secs []*sec, root, other *booklit.Section, pages map[string]string) {
	n := len(parents)
	got, split := lib.ByTitle(root, n), lib.ByTitle(other, n)
	want := 0
	for i := range parents {
		own := parents[i] < 0 || secs[parents[i]].split && !single(parents, secs, parents[i])
		if own {
			want++
		}
		_, ok := pages["s"+strconv.Itoa(i)+".html"]
		v.Assert(ok == own, "a section has its own page exactly if its parent splits outside of a single page")
		v.Assert(got[i].PageDepth() == split[i].PageDepth(), "header depths are as in the split form")
		v.Assert(got[i].Number() == split[i].Number(), "numbers are as in the split form")
	}
	v.Assert(len(pages) == want, "no other pages")
	for name, page := range pages {
		ms, ok := lib.HTML(page)
		v.Assert(ok, "well formed")
		// headers by depth
		for k, m := range ms {
			if m.K != '<' || len(m.Name) != 2 || m.Name[0] != 'h' || m.Name[1] < '1' || m.Name[1] > '6' {
				continue
			}
			id, _ := ms[k+1].Attr("id")
			i, err := strconv.Atoi(id[1:])
			v.Assert(err == nil, "a header of a section in "+name)
			v.Assert(int(m.Name[1]-'0') == got[i].PageDepth()+1, "is of its depth")
		}
	}
	v.Reach("split and single")
}

func H_documents() {
	n := depth(3, 4)
	parents := lib.Shape(n)
	secs := make([]*sec, n)
	for i := range secs {
		secs[i] = &sec{}
		// leaves have nothing to split
		if len(lib.Children(parents, i)) > 0 {
			secs[i] = declared()
		}
	}
	root, err := lib.Load(source(parents, secs, 0, false))
	v.Assert(err == nil, "loads")
	other, err := lib.Load(source(parents, secs, 0, true))
	v.Assert(err == nil, "loads")
	pages, err := lib.Pages(html, root)
	v.Assert(err == nil, "written")
	check(parents, secs, root, other, pages)
}

// declarations in a chain of three (thorough: four) sections, in any order
func H_deep() {
	parents := []int{-1, 0, 1, 2}[:depth(3, 4)]
	secs := make([]*sec, len(parents))
	for i := range secs {
		secs[i] = &sec{split: i+1 < len(secs) && v.Bool("split"), single: v.Bool("single")}
		k := 0
		if secs[i].split || secs[i].single {
			k = v.Concrete(v.Int("at", 0, 2))
		}
		if k == 1 {
			k = 2
			if secs[i].single {
				secs[i].at[k] = "\\single-page\n\n"
			}
			if secs[i].split {
				secs[i].at[0] = "\\split-sections\n\n"
			}
		} else {
			if secs[i].single {
				secs[i].at[k] = "\\single-page\n\n"
			}
			if secs[i].split {
				secs[i].at[2-k] = "\\split-sections\n\n"
			}
		}
	}
	root, err := lib.Load(source(parents, secs, 0, false))
	v.Assert(err == nil, "loads")
	other, err := lib.Load(source(parents, secs, 0, true))
	v.Assert(err == nil, "loads")
	for i, s := range lib.ByTitle(root, len(secs)) {
		own := parents[i] < 0 || secs[parents[i]].split && !single(parents, secs, parents[i])
		v.Assert((s.Parent == nil || s.Parent.SplitSections) == own, "split exactly outside of single pages")
		v.Assert(s.PageDepth() == lib.ByTitle(other, len(secs))[i].PageDepth(), "depths")
	}
}

// included sections
func H_included() {
	parents := []int{-1, 0, 1}
	secs := []*sec{declared(), declared(), {}}
	dir := v.Dir()
	write := func(drop bool) *booklit.Section {
		src := "\\title{s0}{s0}\n\n"
		at := func(i, k int) string {
			if !drop {
				return secs[i].at[k]
			}
			if lib.Contains(secs[i].at[k], "split") {
				return "\\split-sections\n\n"
			}
			return ""
		}
		src += at(0, 0) + "\\include-section{sub/one.lit}\n\n" + at(0, 1) + at(0, 2)
		v.WriteFile(dir+"/doc.lit", src, 1)
		v.WriteFile(dir+"/sub/one.lit", "\\title{s1}{s1}\n\n"+at(1, 0)+"\\include-section{two.lit}\n\n"+at(1, 1)+at(1, 2), 1)
		v.WriteFile(dir+"/sub/two.lit", "\\title{s2}{s2}\n", 1)
		root, err := (&load.Processor{}).LoadFile(dir+"/doc.lit", lib.Base())
		v.Assert(err == nil, "loads")
		return root
	}
	root, other := write(false), write(true)
	pages, err := lib.Pages(html, root)
	v.Assert(err == nil, "written")
	check(parents, secs, root, other, pages)
}

// one single page anywhere in a long chain of sections, inline or each in a
// file of its own
func H_chain() {
	n := depth(6, 8)
	parents := make([]int, n)
	secs := make([]*sec, n)
	one := v.Len("single", n)
	for i := range secs {
		parents[i] = i - 1
		secs[i] = &sec{split: i+1 < n && v.Bool("split"), single: i == one}
		if secs[i].split {
			secs[i].at[0] = "\\split-sections\n\n"
		}
		if secs[i].single {
			secs[i].at[v.Pick("at", 0, 2)] += "\\single-page\n\n"
		}
	}
	var root *booklit.Section
	var err error
	if v.Bool("included") {
		dir := v.Dir()
		for i := range secs {
			src := "\\title{s" + strconv.Itoa(i) + "}\n\n" + secs[i].at[0]
			if i+1 < n {
				src += "\\include-section{s" + strconv.Itoa(i+1) + ".lit}\n\n"
			}
			v.WriteFile(dir+"/s"+strconv.Itoa(i)+".lit", src+secs[i].at[1]+secs[i].at[2], 1)
		}
		root, err = (&load.Processor{}).LoadFile(dir+"/s0.lit", lib.Base())
	} else {
		root, err = lib.Load(source(parents, secs, 0, false))
	}
	v.Assert(err == nil, "loads")
	s := root
	for i := range secs {
		own := i == 0 || secs[i-1].split && !single(parents, secs, i-1)
		v.Assert((s.Parent == nil || s.Parent.SplitSections) == own, "split exactly outside of single pages, however deep")
		depth := 0
		for k := i - 1; k >= 0 && !secs[k].split; k-- {
			depth++
		}
		v.Assert(s.PageDepth() == depth, "depths")
		if i+1 < n {
			s = s.Children[0]
		}
	}
	v.Reach("long")
}
