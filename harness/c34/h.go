package c34

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/chroma"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

const set = "\\{}-a \n"

func H_any() { check(v.StrIn("text", depth(5, 7), set)) }

// text around, in and after each construct
func H_verbatim() {
	check("{{{" + v.StrIn("text", depth(5, 7), set) + v.Pick("end", "}}}", "}}", "") + v.StrIn("after", 1, set))
}

func H_comment() {
	check("a{-" + v.StrIn("text", depth(4, 6), set) + v.Pick("end", "-}", "-", "") + v.StrIn("after", 1, set))
}

func H_call() {
	check("\\" + v.StrIn("name", depth(3, 4), "aZ-{\\") + "{" + v.StrIn("text", depth(2, 3), set) + "}" + v.Pick("after", "", "\\", "\\a"))
}

// any other characters
func H_bytes() {
	t := v.Str("text", depth(3, 4))
	for i := 0; i < len(t); i++ {
		v.Assume(t[i] < 0x80 && t[i] != '\r')
	}
	check(v.Pick("around", "", "{{{", "{-", "\\") + t + v.Pick("then", "", "\u00e9", "\u4e16\\f{\U0001f600}"))
}

func check(src string) {
	it, err := chroma.Booklit.Tokenise(nil, src)
	v.Assert(err == nil, "any source can be highlighted")
	all := ""
	for _, t := range it.Tokens() {
		all += t.Value
	}
	v.Assert(all == src, "nothing is lost or altered")
	v.Reach("tokens")
}

// the highlighted HTML
func H_syntax() {
	src := v.Pick("before", "", "\\f{", "{{{", "{-") + v.StrIn("text", depth(2, 3), "\\{}-a<&\n ") + v.Pick("after", "", "}", "}}}", "-}x")
	var code booklit.Content = booklit.String(src)
	if v.Bool("block") {
		code = booklit.Preformatted{booklit.String(src)}
	}
	var style []string
	if v.Thorough() && v.Bool("style") {
		style = []string{v.Pick("style", "monokai", "nosuchstyle")}
	}
	con, err := chroma.NewPlugin(&booklit.Section{}).(chroma.Plugin).Syntax("booklit", code, style...)
	v.Assert(err == nil, "highlighted")
	st := con.(booklit.Styled)
	v.Assert(st.IsFlow() == code.IsFlow(), "inline code is inline")
	html := ""
	for _, part := range st.Content.(booklit.Sequence) {
		html += part.String()
	}
	ms, ok := lib.HTML(html)
	v.Assert(ok, "HTML is well-formed")
	all := ""
	for _, m := range ms {
		if m.K == 't' {
			all += m.Name
		}
	}
	v.Assert(all == code.String() || all == code.String()+"\n", "the source is shown as it is")
	v.Reach("highlighted")
}
