package main

// Happens-before data-race detection over the explored schedules: vector
// clocks, with edges from the synchronisation operations only.

import (
	"sort"
	"strings"
)

type vclock []uint32

func (c vclock) at(t int) uint32 {
	if t < len(c) {
		return c[t]
	}
	return 0
}

func (c *vclock) join(d vclock) {
	for len(*c) < len(d) {
		*c = append(*c, 0)
	}
	for i, x := range d {
		if x > (*c)[i] {
			(*c)[i] = x
		}
	}
}

type access struct {
	t  int
	c  uint32
	by *fnCode
}

type shadow struct {
	w  access
	rs []access
}

type syncKey struct {
	p    any
	kind int
}

type raceState struct {
	cells map[any]*shadow // *Value or *Map
	syncs map[syncKey]*vclock
	found map[string]bool
}

func (w *Worker) raceSpawn(child *Thread) {
	if w.race == nil {
		w.race = &raceState{cells: map[any]*shadow{}, syncs: map[syncKey]*vclock{}, found: map[string]bool{}}
		w.cur.tick()
	}
	child.vc = append(vclock(nil), w.cur.vc...)
	child.tick()
	w.cur.tick()
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// acquire and release are the two halves of a happens-before edge.
func (w *Worker) acquire(p any, kind int) {
	if w.race == nil {
		return
	}
	if c := w.race.syncs[syncKey{p, kind}]; c != nil {
		w.cur.vc.join(*c)
	}
}

func (w *Worker) release(p any, kind int) {
	if w.race == nil {
		return
	}
	c := w.race.syncs[syncKey{p, kind}]
	if c == nil {
		c = new(vclock)
		w.race.syncs[syncKey{p, kind}] = c
	}
	c.join(w.cur.vc)
	w.cur.tick()
}

func (w *Worker) acqrel(p any, kind int) { w.acquire(p, kind); w.release(p, kind) }

func (w *Worker) shadowOf(p any) *shadow {
	s := w.race.cells[p]
	if s == nil {
		s = &shadow{w: access{t: -1}}
		w.race.cells[p] = s
	}
	return s
}

func (w *Worker) raceReport(a, b *fnCode) {
	n := []string{codeName(a), codeName(b)}
	sort.Strings(n)
	w.race.found["data race: "+strings.Join(n, " and ")] = true
}

func codeName(c *fnCode) string {
	if c == nil {
		return "?"
	}
	return strings.ReplaceAll(c.name, modPath, "booklit")
}

// raced reports whether an earlier access is unordered with the current thread.
func (w *Worker) raced(a access) bool {
	return a.t >= 0 && a.t != w.cur.id && w.cur.vc.at(a.t) < a.c
}

func tracked(fr *frame) bool { return fr.code != nil && fr.code.track }

func (w *Worker) raceRead(p any, fr *frame) {
	if !tracked(fr) {
		return
	}
	s := w.shadowOf(p)
	if w.raced(s.w) {
		w.raceReport(s.w.by, fr.code)
	}
	me := access{w.cur.id, w.cur.vc.at(w.cur.id), fr.code}
	for i := range s.rs {
		if s.rs[i].t == me.t {
			s.rs[i] = me
			return
		}
	}
	s.rs = append(s.rs, me)
}

func (w *Worker) raceWrite(p any, fr *frame) {
	if !tracked(fr) {
		return
	}
	s := w.shadowOf(p)
	if w.raced(s.w) {
		w.raceReport(s.w.by, fr.code)
	}
	for _, r := range s.rs {
		if w.raced(r) {
			w.raceReport(r.by, fr.code)
		}
	}
	s.w = access{w.cur.id, w.cur.vc.at(w.cur.id), fr.code}
	s.rs = s.rs[:0]
}

// raceAll visits the cells of an aggregate.
func (w *Worker) raceAll(p *Value, fr *frame, f func(any, *frame)) {
	if p == nil || !tracked(fr) {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			w.raceAll(&x[i], fr, f)
		}
	case Array:
		for i := range x {
			w.raceAll(&x[i], fr, f)
		}
	default:
		f(p, fr)
	}
}

func (w *Worker) raceSlice(s []Value, fr *frame, f func(any, *frame)) {
	if !tracked(fr) {
		return
	}
	for i := range s {
		w.raceAll(&s[i], fr, f)
	}
}

// syncPoint reports whether a synchronisation operation called from fr is a
// scheduling point: those of booklit's code and of the harness are.
func syncPoint(fr *frame) bool {
	for ; fr != nil; fr = fr.caller {
		if fr.code == nil || fr.code.pkg == "" {
			continue
		}
		switch fr.code.pkg {
		case "sync", "sync/atomic", "internal/sync", "internal/race":
			continue
		}
		return strings.HasPrefix(fr.code.pkg, modPath) && fr.code.pkg != vPath
	}
	return true
}

func (fr *frame) yield() {
	if len(fr.w.threads) < 2 || !syncPoint(fr) {
		return
	}
	fr.w.yield(false)
}
