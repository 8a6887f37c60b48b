package c11

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

func pos(secs []*booklit.Section, s *booklit.Section) int {
	if s == nil {
		return -1
	}
	for i, x := range secs {
		if x == s {
			return i
		}
	}
	return -2
}

func ancestor(parents []int, a, i int) bool {
	for ; i >= 0; i = parents[i] {
		if i == a {
			return true
		}
	}
	return false
}

func sibling(parents []int, i int) int {
	if i < 0 || parents[i] < 0 {
		return -1
	}
	for k := i + 1; k < len(parents); k++ {
		if parents[k] == parents[i] {
			return k
		}
	}
	return sibling(parents, parents[i])
}

func prev(parents []int, i int) int {
	for k := i - 1; k >= 0; k-- {
		if parents[k] == parents[i] && parents[i] >= 0 {
			return k
		}
	}
	return parents[i]
}

func depthOf(parents []int, i int) int {
	if parents[i] < 0 {
		return 0
	}
	return depthOf(parents, parents[i]) + 1
}

func check(parents []int, secs []*booklit.Section, split, reset []bool) {
	n := len(secs)
	pageDepth := make([]int, n)
	for i, s := range secs {
		p := parents[i]
		if p >= 0 && !reset[p] {
			pageDepth[i] = pageDepth[p] + 1
		}
		next := sibling(parents, i)
		v.Assert(s.Top() == secs[0], "top")
		v.Assert(s.Depth() == depthOf(parents, i), "depth")
		v.Assert(s.PageDepth() == pageDepth[i], "depth on the page")
		v.Assert(pos(secs, s.NextSibling()) == next, "next sibling")
		v.Assert(pos(secs, s.Prev()) == prev(parents, i), "previous")
		if cs := lib.Children(parents, i); split[i] && len(cs) > 0 {
			next = cs[0]
		}
		v.Assert(pos(secs, s.Next()) == next, "next")
		for k, o := range secs {
			v.Assert(s.Contains(o) == ancestor(parents, i, k), "contains")
			v.Assert(s.IsOrHasChild(o) == (i == k || parents[k] == i), "is or has child")
		}
		v.Assert(!s.Contains(&booklit.Section{}) && !s.IsOrHasChild(&booklit.Section{}), "nothing else")
	}
	v.Reach("navigation")
}

func H_trees() {
	n := depth(6, 6)
	parents := lib.Shape(n)
	secs := lib.Build(parents)
	lib.Vary(secs)
	split, reset := make([]bool, n), make([]bool, n)
	for i, s := range secs {
		split[i], reset[i] = v.Bool("split"), v.Bool("reset")
		s.SplitSections, s.ResetDepth = split[i], reset[i]
	}
	check(parents, secs, split, reset)
}

// as documents
func H_documents() {
	n := depth(5, 6)
	parents := lib.Shape(n)
	split := make([]bool, n)
	root, err := lib.Load(lib.Source(parents, func(i int) string {
		if v.Bool("split") {
			split[i] = true
			return "\\split-sections"
		}
		return "text"
	}))
	v.Assert(err == nil, "loads")
	check(parents, lib.ByTitle(root, n), split, split)
}

// large trees, any of whose sections splits or resets
func H_large() {
	parents := lib.Large(depth(12, 20))
	n := len(parents)
	secs := lib.Build(parents)
	lib.Vary(secs)
	split, reset := lib.One("split", n), lib.One("reset", n)
	for i, s := range secs {
		s.SplitSections, s.ResetDepth = split[i], reset[i]
	}
	check(parents, secs, split, reset)
}
