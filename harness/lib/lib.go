// Package lib holds helpers shared by the harnesses.
package lib

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/stages"
)

// Base is the plugin list every root document starts with.
func Base() []booklit.PluginFactory {
	return []booklit.PluginFactory{baselit.NewPlugin}
}

// Eval parses and evaluates a document without touching the file system.
func Eval(src string, pfs ...booklit.PluginFactory) (*booklit.Section, error) {
	node, err := ast.Parse("doc.lit", []byte(src))
	if err != nil {
		return nil, err
	}
	return (&load.Processor{}).EvaluateNode(nil, node.(ast.Node), append(Base(), pfs...))
}

// Load is Eval followed by collecting the tags.
func Load(src string, pfs ...booklit.PluginFactory) (*booklit.Section, error) {
	sec, err := Eval(src, pfs...)
	if err != nil {
		return nil, err
	}
	return sec, Collect(sec)
}

// Collect collects the targets of a section tree.
func Collect(sec *booklit.Section) error {
	return sec.Visit(&stages.Collect{Section: sec})
}

// Escape writes text so that it means itself.
func Escape(s string) string {
	out := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' || s[i] == '{' || s[i] == '}' {
			out = append(out, '\\')
		}
		out = append(out, s[i])
	}
	return string(out)
}

// Contains reports whether s contains sub.
func Contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}
