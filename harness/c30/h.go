package c30

import (
	"regexp"

	"github.com/alecthomas/chroma/styles"
	"github.com/vito/booklit"
	"github.com/vito/booklit/chroma"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

var patterns = []*regexp.Regexp{
	regexp.MustCompile("a"),
	regexp.MustCompile("ab?"),
	regexp.MustCompile("a+|bc"),
	regexp.MustCompile("b*"),
	regexp.MustCompile("(?m)^a"),
	regexp.MustCompile("a$"),
	regexp.MustCompile("(a)(b)"),
	regexp.MustCompile("."),
	regexp.MustCompile("\\bb"),
}

func H_all() {
	p := patterns[v.Len("pattern", len(patterns)-1)]
	str := v.StrIn("text", v.Len("size", depth(6, 8)), "abc\n")
	check(p, str)
}

func check(p *regexp.Regexp, str string) {
	calls := 0
	t := chroma.Transformer{Pattern: p, Transform: func(s string) booklit.Content {
		calls++
		return booklit.Styled{Style: booklit.StyleBold, Content: booklit.String(s)}
	}}
	out := t.TransformAll(str)
	want := p.FindAllStringIndex(str, -1)
	v.Assert(calls == len(want), "each match is transformed once")
	at, n := 0, 0
	for _, c := range out {
		switch c := c.(type) {
		case booklit.String:
			end := len(str)
			if n < len(want) {
				end = want[n][0]
			}
			v.Assert(at+len(c) == end && str[at:end] == string(c), "text in between is kept")
			at = end
		case booklit.Styled:
			v.Assert(n < len(want) && at == want[n][0] && c.Content == booklit.Content(booklit.String(str[at:want[n][1]])), "matches are transformed in place")
			at = want[n][1]
			n++
		default:
			v.Fail("text or transformed text")
		}
	}
	v.Assert(at == len(str) && n == len(want), "nothing is lost")
	v.Reach("transformed")
}

// bold transforms matches of a pattern into marked text.
func bold(pattern, style string, calls *int) chroma.Transformer {
	return chroma.Transformer{Pattern: regexp.MustCompile(pattern), Transform: func(s string) booklit.Content {
		*calls++
		return booklit.Styled{Style: booklit.Style(style), Content: booklit.String(s)}
	}}
}

// highlighted code, with any number of transformers
func H_syntax() {
	text := v.StrIn("code", depth(3, 4), "ab<&\"\n ")
	var code booklit.Content = booklit.String(text)
	if v.Bool("block") {
		code = booklit.Preformatted{booklit.String(text)}
	}
	plugin := chroma.NewPlugin(&booklit.Section{}).(chroma.Plugin)
	calls := 0
	ts := []chroma.Transformer{bold("a", "first", &calls), bold("[ab]", "second", &calls), bold("b+", "third", &calls)}[:v.Len("transformers", 3)]
	plain, err := plugin.SyntaxTransform("nosuchlanguage", code, styles.Fallback)
	v.Assert(err == nil, "highlighted")
	con, err := plugin.SyntaxTransform("nosuchlanguage", code, styles.Fallback, ts...)
	v.Assert(err == nil, "highlighted")
	base, styles := flatten(plain)
	v.Assert(len(styles) == 0, "nothing is transformed without transformers")
	got, styles := flatten(con)
	v.Assert(got == base, "transforming keeps the text")
	v.Assert(len(styles) == calls, "each match is in its transformed form once")
	st := con.(booklit.Styled)
	v.Assert(st.IsFlow() == code.IsFlow(), "inline code is inline")
	v.Assert(st.Partials["Language"].String() == "nosuchlanguage", "the language is known")
	ms, ok := lib.HTML(base)
	v.Assert(ok, "HTML is well-formed")
	all := ""
	for _, m := range ms {
		if m.K == 't' {
			all += m.Name
		}
	}
	v.Assert(all == code.String() || all == code.String()+"\n", "the code is shown as it is")
	v.Reach("highlighted")
}

// flatten is the text of highlighted code and the styles in it.
func flatten(c booklit.Content) (string, []string) {
	out := ""
	var styles []string
	for _, part := range c.(booklit.Styled).Content.(booklit.Sequence) {
		st, ok := part.(booklit.Styled)
		v.Assert(ok, "no text is left to be escaped")
		if st.Style != "raw-html" {
			styles = append(styles, string(st.Style))
		}
		out += st.Content.String()
	}
	return out, styles
}
