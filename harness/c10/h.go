package c10

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func number(parents []int, i int) string {
	if parents[i] < 0 {
		return ""
	}
	pos := 1
	for k := 0; k < i; k++ {
		if parents[k] == parents[i] {
			pos++
		}
	}
	if n := number(parents, parents[i]); n != "" {
		return n + "." + strconv.Itoa(pos)
	}
	return strconv.Itoa(pos)
}

func check(parents []int, secs []*booklit.Section) {
	for i, s := range secs {
		v.Assert(s != nil, "every section is there")
		v.Assert(s.Number() == number(parents, i), "parent's number and position")
		for k := 0; k < i; k++ {
			v.Assert(s.Number() != secs[k].Number(), "unique")
		}
	}
	v.Reach("numbers")
}

// trees of every shape, with any split, single-page and table of contents flags
func H_trees() {
	parents := lib.Shape(depth(7, 8))
	secs := lib.Build(parents)
	lib.Vary(secs)
	for _, s := range secs {
		s.SplitSections, s.ResetDepth = v.Bool("split"), v.Bool("reset")
		s.PreventSplitSections, s.OmitChildrenFromTableOfContents = v.Bool("single"), v.Bool("omit")
	}
	check(parents, secs)
}

func decl(int) string {
	return v.Pick("decl", "", "\\split-sections", "\\single-page", "\\omit-children-from-table-of-contents\\styled{x}")
}

// as documents
func H_documents() {
	parents := lib.Shape(depth(4, 5))
	root, err := lib.Load(lib.Source(parents, decl))
	v.Assert(err == nil, "loads")
	check(parents, lib.ByTitle(root, len(parents)))
}

// many siblings
func H_siblings() {
	parents := []int{-1}
	for i := 0; i < 12; i++ {
		parents = append(parents, 0)
	}
	p := v.Concrete(v.Int("parent", 1, 12))
	for i := 0; i < 11; i++ {
		parents = append(parents, p)
	}
	secs := lib.Build(parents)
	lib.Vary(secs)
	check(parents, secs)
}

// large trees
func H_large() {
	parents := lib.Large(depth(16, 30))
	secs := lib.Build(parents)
	lib.Vary(secs)
	check(parents, secs)
}

func H_large_documents() {
	parents := lib.Large(depth(12, 16))
	one := lib.One("declares", len(parents))
	root, err := lib.Load(lib.Source(parents, func(i int) string {
		if one[i] {
			return "\\split-sections\n\n\\omit-children-from-table-of-contents"
		}
		return ""
	}))
	v.Assert(err == nil, "loads")
	check(parents, lib.ByTitle(root, len(parents)))
}
