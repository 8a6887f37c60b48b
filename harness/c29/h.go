package c29

import (
	"bytes"
	"errors"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/stages"
	"github.com/vito/booklit/zz_verif/lib"
	"github.com/vito/booklit/zz_verif/v"
)

var html = render.NewHTMLEngine()
var text = render.NewTextEngine("txt")

func depth(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// thing is lazy content, and what is known about it.
type thing struct {
	lazy   *booklit.Lazy
	block  bool
	runs   int
	forced bool
	result booklit.Content
	err    error
}

func (t *thing) make() {
	fn := func() (booklit.Content, error) {
		t.runs++
		return t.result, t.err
	}
	if t.block {
		t.lazy = booklit.LazyBlock(fn)
	} else {
		t.lazy = booklit.LazyFlow(fn)
	}
}

func (t *thing) check() {
	if t.forced {
		v.Assert(t.runs == 1, "the function runs once")
	} else {
		v.Assert(t.runs == 0, "the function does not run before it is needed")
	}
	v.Assert(t.lazy.IsFlow() == !t.block, "it is what it was said to be")
}

// force does something that needs the content, or something that does not.
func (t *thing) use(what string) {
	var inside booklit.Content = booklit.Sequence{booklit.String("<"), t.lazy, booklit.Aux{Content: booklit.String("x")}}
	switch what {
	case "force":
		t.forced = true
		con, err := t.lazy.Force()
		v.Assert(con == t.result && err == t.err, "forcing gives the result")
	case "html", "text":
		t.forced = true
		var engine render.Engine = html
		if what == "text" {
			engine = text
		}
		sec := &booklit.Section{Title: booklit.Empty, Body: t.lazy}
		buf := new(bytes.Buffer)
		err := engine.RenderSection(buf, sec)
		if t.err != nil {
			v.Assert(err != nil && lib.Contains(err.Error(), t.err.Error()), "its error is reported")
			v.Reach("failed")
		} else {
			v.Assert(err == nil && lib.Contains(buf.String(), "result"), "its result is rendered")
			v.Reach("rendered")
		}
	case "look":
		t.lazy.IsFlow()
		_ = t.lazy.String()
		_ = inside.IsFlow()
		_ = inside.String()
	case "collect":
		sec := &booklit.Section{Title: booklit.Empty, Body: inside}
		v.Assert(sec.Visit(&stages.Collect{Section: sec}) == nil, "collecting is fine")
	case "strip":
		stripped := booklit.StripAux(inside).(booklit.Sequence)
		v.Assert(stripped[1] == booklit.Content(t.lazy), "stripping keeps it")
	}
}

// any use of several lazy contents, in any order
func H_history() {
	things := make([]*thing, 2)
	for i := range things {
		t := &thing{block: v.Bool("block")}
		if v.Bool("fails") {
			t.err = errors.New("it failed")
		} else {
			t.result = booklit.String("result")
		}
		t.make()
		things[i] = t
	}
	for i := 0; i < depth(3, 4); i++ {
		t := things[v.Len("which", 1)]
		t.use(v.Pick("use", "force", "look", "collect", "strip", "html", "text"))
		for _, t := range things {
			t.check()
		}
	}
}

// result and error at once
func H_both() {
	t := &thing{result: booklit.String("result"), err: errors.New("it failed")}
	t.make()
	for i := 0; i < 3; i++ {
		t.use("force")
		t.check()
	}
}

// content that is itself lazy
func H_nested() {
	inner := &thing{result: booklit.String("result"), block: v.Bool("block")}
	inner.make()
	outer := &thing{result: inner.lazy, block: v.Bool("block")}
	outer.make()
	for i := 0; i < depth(3, 4); i++ {
		switch v.Pick("use", "force outer", "force inner", "html", "text") {
		case "force outer":
			outer.use("force")
		case "force inner":
			inner.use("force")
		case "html":
			outer.use("html")
			inner.forced = true
		case "text":
			outer.use("text")
			inner.forced = true
		}
		inner.check()
		outer.check()
	}
}

// forced by several goroutines
func H_concurrent() {
	parallel(depth(2, 3), depth(2, 2))
}

func H_concurrent_more() {
	parallel(3, 1)
}

func parallel(threads, times int) {
	runs := 0
	fails := v.Bool("fails")
	result := &booklit.Target{TagName: "x"}
	failure := errors.New("it failed")
	lazy := booklit.LazyBlock(func() (booklit.Content, error) {
		runs++
		if fails {
			return nil, failure
		}
		return result, nil
	})
	good := make([]bool, threads)
	var fs []func()
	for i := 0; i < threads; i++ {
		i := i
		fs = append(fs, func() {
			ok := true
			for n := 0; n < times; n++ {
				con, err := lazy.Force()
				if fails {
					ok = ok && con == nil && err == failure
				} else {
					ok = ok && con == booklit.Content(result) && err == nil
				}
				ok = ok && lazy.IsFlow() == false
			}
			good[i] = ok
		})
	}
	v.Fine(true)
	v.Parallel(fs...)
	v.Fine(false)
	v.Assert(runs == 1, "the function runs once")
	for _, ok := range good {
		v.Assert(ok, "every goroutine gets the result")
	}
	v.Reach("concurrent")
}
