package c12

import (
	"strconv"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

type tag struct {
	name string
	sec  *booklit.Section
	loc  int
}

// tagged is a tree of any shape with any tags, numbered by their offset.
func tagged(n, perSection, length int, alphabet string) ([]*booklit.Section, []tag) {
	secs := lib.Build(lib.Shape(n))
	lib.Vary(secs)
	var tags []tag
	for _, s := range secs {
		s.SplitSections, s.OmitChildrenFromTableOfContents = v.Bool("split"), v.Bool("omit")
		k := v.Len("tags", perSection)
		for i := 0; i < k; i++ {
			name := v.StrIn("name", v.Len("len", length), alphabet)
			at := len(tags) + 1
			if i > 0 {
				s.SetTagAnchored(name, booklit.Empty, ast.Location{Offset: at}, nil, name)
			} else {
				s.SetTag(name, booklit.Empty, ast.Location{Offset: at})
			}
			tags = append(tags, tag{name, s, at})
		}
	}
	return secs, tags
}

func count(found []booklit.Tag, t tag) int {
	n := 0
	for _, f := range found {
		if f.Location.Offset == t.loc {
			v.Assert(f.Name == t.name && f.Section == t.sec, "tags are found as they are")
			n++
		}
	}
	return n
}

func lookup(secs []*booklit.Section, tags []tag, name string) {
	for _, s := range secs {
		found := s.FindTag(name)
		want := 0
		for _, t := range tags {
			if t.name == name {
				want++
				v.Assert(count(found, t) == 1, "every tag of the name is found once")
			}
		}
		v.Assert(len(found) == want, "and nothing else")
	}
	v.Reach("found")
}

func H_find() {
	secs, tags := tagged(depth(4, 5), 1, 1, "ab")
	lookup(secs, tags, v.StrIn("lookup", v.Len("len", 1), "ab"))
}

// several tags of a section, any names
func H_find_many() {
	secs, tags := tagged(2, 2, depth(2, 2), "ab")
	lookup(secs, tags, v.StrIn("lookup", depth(2, 2), "ab"))
}

// names of any characters
func H_find_any() {
	secs := lib.Build([]int{-1, 0, 1, 0})
	lib.Vary(secs)
	var tags []tag
	for i, s := range secs {
		name := v.Str("name", depth(2, 3))
		s.SetTag(name, booklit.Empty, ast.Location{Offset: i + 1})
		tags = append(tags, tag{name, s, i + 1})
	}
	lookup(secs, tags, v.Str("lookup", depth(2, 3)))
}

func H_similar() {
	secs, tags := tagged(depth(3, 3), 1, depth(1, 2), "ab")
	similar(secs, tags, v.StrIn("lookup", v.Len("len", 2), "ab"))
}

func H_similar_words() {
	secs, tags := tagged(2, 1, 0, "a")
	names := []string{"section", "sections", "Section", "session", "é", "x"}
	for i, s := range secs {
		name := v.Pick("name", names...)
		s.SetTag(name, booklit.Empty, ast.Location{Offset: 100 + i})
		tags = append(tags, tag{name, s, 100 + i})
	}
	similar(secs, tags, v.Pick("lookup", append(names, "sction", "noitces")...))
}

func similar(secs []*booklit.Section, tags []tag, name string) {
	for _, s := range secs {
		found := s.SimilarTags(name)
		total := 0
		for _, t := range tags {
			n := count(found, t)
			v.Assert(n <= 1, "each at most once")
			if t.name == name {
				v.Assert(n == 1, "including every tag of that very name")
			}
			total += n
		}
		v.Assert(total == len(found), "tags of the document only")
	}
	v.Reach("similar")
}

// as documents, with the tags of titles and targets
func H_documents() {
	n := depth(4, 5)
	parents := lib.Shape(n)
	var names []string
	root, err := lib.Load(lib.Source(parents, func(i int) string {
		t := v.StrIn("target", 1, "ab")
		names = append(names, t)
		return "x \\target{" + t + "}\\bold{\\target{" + t + t + "}}"
	}))
	v.Assert(err == nil, "loads")
	name := v.StrIn("lookup", v.Concrete(v.Int("len", 1, 2)), "ab")
	want := 0
	for _, t := range names {
		if t == name || t+t == name {
			want++
		}
	}
	for i, s := range lib.ByTitle(root, n) {
		found := s.FindTag(name)
		v.Assert(len(found) == want, "every tag of the name")
		for k := range found {
			v.Assert(found[k].Name == name && found[k].Anchor == name, "is found as it is")
			for l := 0; l < k; l++ {
				v.Assert(found[k].Location != found[l].Location, "once")
			}
		}
		own := s.FindTag("s" + strconv.Itoa(i))
		v.Assert(len(own) == 1 && own[0].Section == s, "sections are found by their own tag")
	}
}

// large trees with a tag of the name in any two sections or none
func H_large() {
	n := depth(10, 14)
	secs := lib.Build(lib.Large(n))
	lib.Vary(secs)
	var tags []tag
	a, b := v.Concrete(v.Int("one", -1, n-1)), v.Concrete(v.Int("other", -1, n-1))
	for i, s := range secs {
		name := "n" + strconv.Itoa(i)
		if i == a || i == b {
			name = "x"
		}
		s.SetTag(name, booklit.Empty, ast.Location{Offset: i + 1})
		tags = append(tags, tag{name, s, i + 1})
	}
	lookup(secs, tags, "x")
	similar(secs, tags, "x")
}

// lookups while the document grows
func H_growing() {
	secs := lib.Build([]int{-1, 0})
	lib.Vary(secs)
	var tags []tag
	name := v.StrIn("lookup", 1, "ab")
	for i := 0; i < depth(3, 4); i++ {
		k := v.Concrete(v.Int("section", 0, len(secs)-1))
		switch v.Pick("op", "tag", "target", "title", "child") {
		case "tag":
			t := tag{v.StrIn("name", 1, "ab"), secs[k], len(tags) + 1}
			secs[k].SetTag(t.name, booklit.Empty, ast.Location{Offset: t.loc})
			tags = append(tags, t)
		case "target":
			t := tag{v.StrIn("name", 1, "ab"), secs[k], len(tags) + 1}
			secs[k].SetTagAnchored(t.name, booklit.Empty, ast.Location{Offset: t.loc}, nil, t.name)
			tags = append(tags, t)
		case "title":
			// instead of the tags so far
			t := tag{v.StrIn("name", 1, "ab"), secs[k], len(tags) + 1}
			for i := range tags {
				if tags[i].sec == secs[k] {
					tags[i].name = ""
				}
			}
			secs[k].SetTitle(booklit.Empty, ast.Location{Offset: t.loc}, t.name)
			tags = append(tags, t)
		case "child":
			s := &booklit.Section{Parent: secs[k], Title: booklit.Empty, Body: booklit.Empty}
			secs[k].Children = append(secs[k].Children, s)
			secs = append(secs, s)
		}
		lookup(secs, tags, name)
		if i == 0 {
			for _, s := range secs {
				s.SimilarTags(name)
			}
		}
	}
	similar(secs, named(tags), name)
}

func named(tags []tag) []tag {
	var out []tag
	for _, t := range tags {
		if t.name != "" {
			out = append(out, t)
		}
	}
	return out
}
