package lib

import "github.com/vito/booklit"

// Recorder is a plugin that records what its functions are given.
type Recorder struct {
	Contents []booklit.Content
	Texts    []string
}

// Factory makes a plugin list entry of it.
func (r *Recorder) Factory() booklit.PluginFactory {
	return func(*booklit.Section) booklit.Plugin { return RecorderPlugin{r} }
}

type RecorderPlugin struct{ r *Recorder }

// Keep records content and produces it.
func (p RecorderPlugin) Keep(c booklit.Content) booklit.Content {
	p.r.Contents = append(p.r.Contents, c)
	return c
}

// KeepText records text and produces nothing.
func (p RecorderPlugin) KeepText(s string) { p.r.Texts = append(p.r.Texts, s) }

// KeepBoth records content and text.
func (p RecorderPlugin) KeepBoth(c booklit.Content, s string) {
	p.r.Contents = append(p.r.Contents, c)
	p.r.Texts = append(p.r.Texts, s)
}
