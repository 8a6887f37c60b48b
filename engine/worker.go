package main

import (
	"fmt"
	"sort"
	"strings"
)

type undoEnt struct {
	p   *Value
	v   Value
	m   *Map
	old *Map
	f   func()
}

type inputRec struct {
	label string
	e     *Expr // value expression
	v     *Expr // underlying variable
}

type obsRec struct {
	label string
	v     Value
}

type memoKey struct {
	e *Expr
	d Dom
}

// Worker explores paths one at a time with its own heap, terms and solver.
type Worker struct {
	id      int
	eng     *Engine
	pool    *Pool
	solver  *Solver
	memo    map[memoKey]bool
	globals []*Value
	pkgInit []int8

	undo    []undoEnt
	logging bool
	epoch   int
	initing int

	// current path
	prefix     []int64
	decs       []int64
	cs         []*Expr
	doms       map[*Expr]*Dom
	rel        map[*Expr]bool
	nvars      int
	inputs     []inputRec
	obs        []obsRec
	reached    map[string]bool
	steps      int64
	depth      int
	stepLimit  int64
	nAsserts   int
	unknowns   int
	free       bool // map iteration order is free
	freeLeft   int  // how many more iterations may take another order
	state      map[any]any
	threads    []*Thread
	cur        *Thread
	main       *Thread
	preempt    int
	maxPreempt int
	timers     map[*Value]*timer
	noTimers   bool // no timer goes off
	fine       bool
	killing    bool
	thPanic    any
	race       *raceState // once a second goroutine exists
	frame      *frame     // innermost, for diagnostics
	h          *Harness
}

type pathEnd struct {
	kind  string // "infeasible", "violation", "done"
	label string
	model map[*Expr]uint64
	where string
}

func (w *Worker) resetPath(prefix []int64) {
	w.prefix = prefix
	w.decs = w.decs[:0]
	w.cs = w.cs[:0]
	w.doms = map[*Expr]*Dom{}
	w.rel = map[*Expr]bool{}
	w.nvars = 0
	w.inputs = nil
	w.obs = nil
	w.reached = map[string]bool{}
	w.steps, w.depth = 0, 0
	w.nAsserts, w.unknowns = 0, 0
	w.free = false
	w.state = map[any]any{}
	w.epoch++
	w.logging = true
	w.preempt = 0
	w.maxPreempt = w.eng.opt.preempt
	w.timers, w.noTimers = nil, false
	w.fine = false
	w.killing = false
	w.thPanic = nil
	w.race = nil
	if w.pool.n > 1500000 {
		w.solver.align(nil)
		w.pool = NewPool()
		w.memo = map[memoKey]bool{}
	}
}

func (w *Worker) rollback() {
	w.logging = false
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		switch {
		case u.p != nil:
			*u.p = u.v
		case u.m != nil:
			*u.m = *u.old
		case u.f != nil:
			u.f()
		}
		*u = undoEnt{}
	}
	w.undo = w.undo[:0]
}

// set stores into a cell, logging the old value.
func (w *Worker) set(p *Value, v Value) {
	if w.logging {
		w.undo = append(w.undo, undoEnt{p: p, v: *p})
	}
	*p = v
}

func (w *Worker) newVar(width uint8) *Expr {
	w.nvars++
	return w.pool.Var(fmt.Sprintf("n%d.%d", w.nvars, width), width)
}

func (w *Worker) dom(v *Expr) *Dom {
	d := w.doms[v]
	if d == nil {
		d = new(Dom)
		*d = fullDom(v.w)
		w.doms[v] = d
	}
	return d
}

func small(e *Expr) bool { return len(e.vars) == 1 && e.vars[0].w <= 8 }

func (w *Worker) addConstraint(e *Expr) {
	if e == w.pool.True {
		return
	}
	if e.op == OAnd {
		w.addConstraint(e.a[0])
		w.addConstraint(e.a[1])
		return
	}
	if e.op == ONot && e.a[0].op == OOr {
		w.addConstraint(w.pool.Not(e.a[0].a[0]))
		w.addConstraint(w.pool.Not(e.a[0].a[1]))
		return
	}
	w.cs = append(w.cs, e)
	if small(e) {
		d := w.dom(e.vars[0])
		ed := e.domOf()
		*d = d.and(&ed)
		return
	}
	for _, v := range e.vars {
		w.rel[v] = true
	}
}

// unary decides a one-byte condition against the byte's current domain; the
// verdict is the solver's, remembered per (condition, domain).
func (w *Worker) unary(e *Expr) bool {
	v := e.vars[0]
	d := *w.dom(v)
	k := memoKey{e, d}
	if r, ok := w.memo[k]; ok {
		w.eng.st.memoHits.Add(1)
		return r
	}
	ed := e.domOf()
	id := d.and(&ed)
	guess := !id.empty()
	switch w.solver.CheckUnary(v, d, e) {
	case Sat:
		if !guess {
			panic(fatal{"solver and value table disagree (sat): " + e.smt()})
		}
	case Unsat:
		if guess {
			panic(fatal{"solver and value table disagree (unsat): " + e.smt()})
		}
	}
	w.memo[k] = guess
	return guess
}

func disjoint(a, b *Expr) bool {
	i, j := 0, 0
	for i < len(a.vars) && j < len(b.vars) {
		switch {
		case a.vars[i] == b.vars[j]:
			return false
		case a.vars[i].id < b.vars[j].id:
			i++
		default:
			j++
		}
	}
	return true
}

// split tries to decide e by independent one-byte parts: 1 sat, 0 unsat, -1 no idea.
func (w *Worker) split(e *Expr, neg bool) int {
	switch {
	case e == w.pool.True:
		if neg {
			return 0
		}
		return 1
	case e == w.pool.False:
		if neg {
			return 1
		}
		return 0
	case e.op == ONot:
		return w.split(e.a[0], !neg)
	case small(e):
		if w.rel[e.vars[0]] {
			return -1
		}
		x := e
		if neg {
			x = w.pool.Not(e)
		}
		if w.unary(x) {
			return 1
		}
		return 0
	case (e.op == OAnd || e.op == OOr) && disjoint(e.a[0], e.a[1]):
		a := w.split(e.a[0], neg)
		if a < 0 {
			return -1
		}
		b := w.split(e.a[1], neg)
		if b < 0 {
			return -1
		}
		if (e.op == OAnd) != neg {
			return a & b
		}
		return a | b
	}
	return -1
}

func (w *Worker) feasible(e *Expr) bool {
	if e == w.pool.True {
		return true
	}
	if e == w.pool.False {
		return false
	}
	if small(e) {
		// an empty intersection is conclusive, a non-empty one only for an
		// unrelated variable
		if !w.unary(e) {
			return false
		}
		if !w.rel[e.vars[0]] {
			return true
		}
	} else if r := w.split(e, false); r >= 0 {
		return r == 1
	}
	switch w.solver.CheckWith(w.cs, e) {
	case Unsat:
		return false
	case Unknown:
		w.unknowns++
	}
	return true
}

// truth decides a condition, forking the path if both sides are possible.
func (w *Worker) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	e, ok := v.(*Expr)
	if !ok {
		if p, isP := v.(Poison); isP {
			panic(unsupported{"poison: " + p.why})
		}
		panic(unsupported{fmt.Sprintf("condition %T", v)})
	}
	ne := w.pool.Not(e)
	if i := len(w.decs); i < len(w.prefix) {
		d := w.prefix[i]
		w.decs = append(w.decs, d)
		switch d {
		case 0:
			w.addConstraint(ne)
		case 1:
			w.addConstraint(e)
		}
		return d&1 == 1
	}
	t := w.feasible(e)
	if !t {
		w.decs = append(w.decs, 2)
		return false
	}
	if !w.feasible(ne) {
		w.decs = append(w.decs, 3)
		return true
	}
	w.branch(0)
	w.decs = append(w.decs, 1)
	w.addConstraint(e)
	return true
}

// branch schedules the alternative decision d at the current point.
func (w *Worker) branch(d int64) {
	p := make([]int64, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d
	w.eng.pushFor(w.h, p)
}

// choose is a free n-way choice not backed by an input (schedules, orders).
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if i := len(w.decs); i < len(w.prefix) {
		d := w.prefix[i]
		w.decs = append(w.decs, d)
		return int(d)
	}
	for k := n - 1; k >= 1; k-- {
		w.branch(int64(k))
	}
	w.decs = append(w.decs, 0)
	return 0
}

const maxConcretize = 1100

// concretize forks over every feasible value of e and returns this path's one.
func (w *Worker) concretize(v Value) int64 {
	if n, ok := v.(int64); ok {
		return n
	}
	e, ok := v.(*Expr)
	if !ok {
		panic(unsupported{fmt.Sprintf("integer expected, have %T", v)})
	}
	if i := len(w.decs); i < len(w.prefix) {
		d := w.prefix[i]
		w.decs = append(w.decs, d)
		w.addConstraint(w.pool.Eq(e, w.pool.Const(uint64(d), e.w)))
		return d
	}
	var vals []int64
	if small(e) && !w.rel[e.vars[0]] {
		d := w.dom(e.vars[0])
		seen := map[uint64]bool{}
		for i, x := range e.table() {
			if d.has(i) && !seen[x] {
				seen[x] = true
				vals = append(vals, int64(x))
			}
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	} else {
		block := w.pool.True
		for {
			m, ok := w.solver.Model(w.cs, block, e.vars)
			if !ok {
				break
			}
			x := e.eval(m, map[*Expr]uint64{})
			vals = append(vals, int64(x))
			block = w.pool.And(block, w.pool.Not(w.pool.Eq(e, w.pool.Const(x, e.w))))
			if len(vals) > maxConcretize {
				unsup("too many values to enumerate")
			}
		}
		if len(vals) == 0 {
			unsup("solver gave no value to enumerate")
		}
	}
	for k := len(vals) - 1; k >= 1; k-- {
		w.branch(vals[k])
	}
	w.decs = append(w.decs, vals[0])
	w.addConstraint(w.pool.Eq(e, w.pool.Const(uint64(vals[0]), e.w)))
	return vals[0]
}

// concreteInt concretizes with sign.
func (w *Worker) concreteInt(v Value, width uint8, signed bool) int64 {
	if n, ok := v.(int64); ok {
		return n
	}
	return normInt(w.concretize(v), width, signed)
}

func (w *Worker) assume(v Value) {
	e := w.boolExpr(v)
	if e == w.pool.True {
		return
	}
	if len(w.decs) >= len(w.prefix) {
		if !w.feasible(e) {
			panic(pathEnd{kind: "infeasible"})
		}
	} else if e == w.pool.False {
		panic(pathEnd{kind: "infeasible"})
	}
	w.addConstraint(e)
}

func (w *Worker) assert(v Value, label string) {
	w.nAsserts++
	if b, ok := v.(bool); ok {
		w.eng.assertConcrete.Add(1)
		if !b {
			w.violate(nil, label)
		}
		return
	}
	e := v.(*Expr)
	w.eng.assertSolved.Add(1)
	// conjunctions are discharged part by part
	if e.op == OAnd {
		w.nAsserts--
		w.assert(w.lower(e.a[0]), label)
		w.assert(w.lower(e.a[1]), label)
		return
	}
	ne := w.pool.Not(e)
	if w.feasible(ne) {
		w.violate(ne, label)
	}
}

func (w *Worker) violate(extra *Expr, label string) {
	m, ok := w.model(extra)
	if !ok {
		w.unknowns++
		panic(pathEnd{kind: "unknown", label: label})
	}
	panic(pathEnd{kind: "violation", label: label, model: m, where: w.whereStr()})
}

func (w *Worker) whereStr() string {
	var sb strings.Builder
	n := 0
	for f := w.frame; f != nil && n < 12; f = f.caller {
		if f.code != nil && f.code.fn != nil {
			if n > 0 {
				sb.WriteString(" < ")
			}
			sb.WriteString(f.code.fn.String())
			n++
		}
	}
	return sb.String()
}

// model gives values for all variables of the path.
func (w *Worker) model(extra *Expr) (map[*Expr]uint64, bool) {
	var rel []*Expr
	inExtra := map[*Expr]bool{}
	if extra != nil {
		for _, v := range extra.vars {
			inExtra[v] = true
		}
	}
	m := map[*Expr]uint64{}
	for _, in := range w.inputs {
		v := in.v
		if w.rel[v] || inExtra[v] || v.w > 8 {
			rel = append(rel, v)
			continue
		}
		d := w.dom(v)
		m[v] = prefer(d)
	}
	if len(rel) > 0 || extra != nil {
		rm, ok := w.solver.Model(w.cs, extra, rel)
		if !ok {
			return nil, false
		}
		for k, v := range rm {
			m[k] = v
		}
	}
	return m, true
}

func prefer(d *Dom) uint64 {
	for _, c := range "aAx0 .\n" {
		if d.has(int(c)) {
			return uint64(c)
		}
	}
	for c := 33; c < 127; c++ {
		if d.has(c) {
			return uint64(c)
		}
	}
	if d.empty() {
		return 0
	}
	return uint64(d.min())
}

func (w *Worker) inputValues(m map[*Expr]uint64) []int64 {
	out := make([]int64, len(w.inputs))
	memo := map[*Expr]uint64{}
	for i, in := range w.inputs {
		x := in.e.eval(m, memo)
		if in.e.w == 64 {
			out[i] = int64(x)
		} else {
			out[i] = int64(x)
		}
	}
	return out
}

// concreteView renders a value under a model, for observations.
func (w *Worker) concreteView(v Value, m map[*Expr]uint64, memo map[*Expr]uint64) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch c := c.(type) {
			case int64:
				b[i] = byte(c)
			case *Expr:
				b[i] = byte(c.eval(m, memo))
			}
		}
		return string(b)
	case int64:
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case *Expr:
		u := x.eval(m, memo)
		if x.w == 0 {
			return fmt.Sprint(u != 0)
		}
		if x.w == 64 {
			return fmt.Sprint(int64(u))
		}
		return fmt.Sprint(u)
	case *Iface:
		return w.concreteView(x.v, m, memo)
	}
	return fmt.Sprintf("%T", v)
}
