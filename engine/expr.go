package main

// Hash-consed SMT terms over bit-vectors and booleans.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bit-vector constant, or boolean constant when w == 0
	OVar
	ONot // boolean
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low w bits
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv",
	OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
}

// Expr is a term. w is the width in bits; w == 0 means boolean.
type Expr struct {
	op   Op
	w    uint8
	val  uint64 // constants
	name string // variables
	a    [3]*Expr
	id   int
	// varset: sorted ids of variables; single: the variable if exactly one with width<=8
	vars []*Expr
	tab  []uint64 // value table over the single small variable (computed on demand)
}

func (e *Expr) isBool() bool { return e.w == 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

type ekey struct {
	op      Op
	w       uint8
	val     uint64
	name    string
	a, b, c int
}

// Pool owns the terms of one worker.
type Pool struct {
	tab         map[ekey]*Expr
	n           int
	True, False *Expr
}

func NewPool() *Pool {
	p := &Pool{tab: map[ekey]*Expr{}}
	p.True = p.mk(OConst, 0, 1, "", nil, nil, nil)
	p.False = p.mk(OConst, 0, 0, "", nil, nil, nil)
	return p
}

func eid(e *Expr) int {
	if e == nil {
		return -1
	}
	return e.id
}

func (p *Pool) mk(op Op, w uint8, val uint64, name string, a, b, c *Expr) *Expr {
	k := ekey{op, w, val, name, eid(a), eid(b), eid(c)}
	if e, ok := p.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, val: val, name: name, a: [3]*Expr{a, b, c}, id: p.n}
	p.n++
	switch {
	case op == OVar:
		e.vars = []*Expr{e}
	default:
		e.vars = mergeVars(a, b, c)
	}
	p.tab[k] = e
	if op != OConst && op != OVar && len(e.vars) == 1 && e.vars[0].w <= 8 {
		// the term is a function of one byte: if that function is constant, fold it
		t := e.table()
		same := true
		for _, x := range t {
			if x != t[0] {
				same = false
				break
			}
		}
		if same {
			var r *Expr
			if w == 0 {
				r = p.Bool(t[0] != 0)
			} else {
				r = p.Const(t[0], w)
			}
			p.tab[k] = r
			return r
		}
	}
	return e
}

func mergeVars(es ...*Expr) []*Expr {
	var out []*Expr
	for _, e := range es {
		if e == nil || len(e.vars) == 0 {
			continue
		}
		if out == nil {
			out = e.vars
			continue
		}
		if len(out) == len(e.vars) {
			eq := true
			for i := range out {
				if out[i] != e.vars[i] {
					eq = false
					break
				}
			}
			if eq {
				continue
			}
		}
		var m []*Expr
		i, j := 0, 0
		for i < len(out) || j < len(e.vars) {
			switch {
			case j == len(e.vars) || i < len(out) && out[i].id < e.vars[j].id:
				m = append(m, out[i])
				i++
			case i == len(out) || e.vars[j].id < out[i].id:
				m = append(m, e.vars[j])
				j++
			default:
				m = append(m, out[i])
				i++
				j++
			}
		}
		out = m
	}
	return out
}

func (p *Pool) Bool(b bool) *Expr {
	if b {
		return p.True
	}
	return p.False
}

func (p *Pool) Const(v uint64, w uint8) *Expr {
	return p.mk(OConst, w, v&mask(w), "", nil, nil, nil)
}

func (p *Pool) Var(name string, w uint8) *Expr {
	return p.mk(OVar, w, 0, name, nil, nil, nil)
}

// table evaluates e for every value of its single variable.
func (e *Expr) table() []uint64 {
	if e.tab != nil {
		return e.tab
	}
	if len(e.vars) != 1 || e.vars[0].w > 8 {
		return nil
	}
	n := 1 << e.vars[0].w
	if e.vars[0].w == 0 {
		n = 2
	}
	t := make([]uint64, n)
	if e.op == OVar {
		for i := range t {
			t[i] = uint64(i)
		}
		e.tab = t
		return t
	}
	var at [3][]uint64
	for k, x := range e.a {
		if x == nil {
			continue
		}
		if x.op != OConst {
			at[k] = x.table()
		}
	}
	get := func(k, i int) uint64 {
		if e.a[k] == nil {
			return 0
		}
		if at[k] == nil {
			return e.a[k].val
		}
		return at[k][i]
	}
	for i := range t {
		var aw uint8
		if e.a[0] != nil {
			aw = e.a[0].w
		}
		t[i] = evalOp(e.op, e.w, aw, get(0, i), get(1, i), get(2, i))
	}
	e.tab = t
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp applies op to concrete operands. w: result width, aw: width of the first operand.
func evalOp(op Op, w, aw uint8, a, b, c uint64) uint64 {
	switch op {
	case ONot:
		return 1 - a
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return mask(w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSrem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & mask(w)
	case OExtract:
		return a & mask(w)
	}
	panic("evalOp")
}

func (p *Pool) Not(a *Expr) *Expr {
	switch {
	case a == p.True:
		return p.False
	case a == p.False:
		return p.True
	case a.op == ONot:
		return a.a[0]
	}
	return p.mk(ONot, 0, 0, "", a, nil, nil)
}

func (p *Pool) And(a, b *Expr) *Expr {
	switch {
	case a == p.False || b == p.False:
		return p.False
	case a == p.True:
		return b
	case b == p.True || a == b:
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return p.False
	}
	return p.mk(OAnd, 0, 0, "", a, b, nil)
}

func (p *Pool) Or(a, b *Expr) *Expr {
	switch {
	case a == p.True || b == p.True:
		return p.True
	case a == p.False:
		return b
	case b == p.False || a == b:
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return p.True
	}
	return p.mk(OOr, 0, 0, "", a, b, nil)
}

func (p *Pool) Ite(c, a, b *Expr) *Expr {
	switch {
	case c == p.True || a == b:
		return a
	case c == p.False:
		return b
	}
	if a.w == 0 {
		if a == p.True && b == p.False {
			return c
		}
		if a == p.False && b == p.True {
			return p.Not(c)
		}
		return p.Or(p.And(c, a), p.And(p.Not(c), b))
	}
	return p.mk(OIte, a.w, 0, "", c, a, b)
}

func (p *Pool) Eq(a, b *Expr) *Expr {
	if a == b {
		return p.True
	}
	if a.op == OConst && b.op == OConst {
		return p.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a == p.True {
			return b
		}
		if b == p.True {
			return a
		}
		if a == p.False {
			return p.Not(b)
		}
		if b == p.False {
			return p.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		// see through extensions
		switch a.op {
		case OZext:
			if b.val > mask(a.a[0].w) {
				return p.False
			}
			return p.Eq(a.a[0], p.Const(b.val, a.a[0].w))
		case OSext:
			in := p.Const(b.val, a.a[0].w)
			if uint64(sext(in.val, in.w))&mask(a.w) != b.val {
				return p.False
			}
			return p.Eq(a.a[0], in)
		case OAdd:
			if a.a[1].op == OConst {
				return p.Eq(a.a[0], p.Const(b.val-a.a[1].val, a.w))
			}
		case OIte:
			if a.a[1].op == OConst || a.a[2].op == OConst {
				return p.Ite(a.a[0], p.Eq(a.a[1], b), p.Eq(a.a[2], b))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return p.Eq(a.a[0], b.a[0])
	} else if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OEq, 0, 0, "", a, b, nil)
}

func (p *Pool) Cmp(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return p.Bool(evalOp(op, 0, a.w, a.val, b.val, 0) != 0)
	}
	if a == b {
		return p.Bool(op == OUle || op == OSle)
	}
	// zero extended against constants / each other: unsigned compare on the narrow width
	narrow := func(e *Expr) (*Expr, bool) {
		if e.op == OZext {
			return e.a[0], true
		}
		return nil, false
	}
	na, oka := narrow(a)
	nb, okb := narrow(b)
	uop := op
	if op == OSlt {
		uop = OUlt
	} else if op == OSle {
		uop = OUle
	}
	if oka && okb && na.w == nb.w {
		return p.Cmp(uop, na, nb)
	}
	if oka && b.op == OConst {
		m := mask(na.w)
		if op == OSlt || op == OSle {
			s := sext(b.val, b.w)
			if s < 0 {
				return p.False
			}
			if uint64(s) > m {
				return p.True
			}
		} else if b.val > m {
			return p.True
		}
		return p.Cmp(uop, na, p.Const(b.val, na.w))
	}
	if okb && a.op == OConst {
		m := mask(nb.w)
		if op == OSlt || op == OSle {
			s := sext(a.val, a.w)
			if s < 0 {
				return p.True
			}
			if uint64(s) > m {
				return p.False
			}
		} else if a.val > m {
			return p.False
		}
		return p.Cmp(uop, p.Const(a.val, nb.w), nb)
	}
	return p.mk(op, 0, 0, "", a, b, nil)
}

func (p *Pool) Bin(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return p.Const(evalOp(op, a.w, a.w, a.val, b.val, 0), a.w)
	}
	switch op {
	case OAdd, OBor, OBxor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if op == OAdd && b.op == OConst && a.op == OAdd && a.a[1].op == OConst {
			return p.Bin(OAdd, a.a[0], p.Const(a.a[1].val+b.val, a.w))
		}
		if op == OBor && a == b {
			return a
		}
	case OSub:
		if b.op == OConst {
			return p.Bin(OAdd, a, p.Const(-b.val, a.w))
		}
		if a == b {
			return p.Const(0, a.w)
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && b.val == 0 {
			return b
		}
	case OBand:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == mask(a.w) || a == b {
			return a
		}
		if b.op == OConst && b.val == 0 {
			return b
		}
	}
	return p.mk(op, a.w, 0, "", a, b, nil)
}

func (p *Pool) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return p.Const(a.val, w)
	}
	if a.op == OZext {
		return p.Zext(a.a[0], w)
	}
	return p.mk(OZext, w, 0, "", a, nil, nil)
}

func (p *Pool) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return p.Const(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OZext {
		return p.Zext(a.a[0], w)
	}
	return p.mk(OSext, w, 0, "", a, nil, nil)
}

func (p *Pool) Extract(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return p.Const(a.val, w)
	}
	if a.op == OZext || a.op == OSext {
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return p.Extract(in, w)
		}
		if a.op == OZext {
			return p.Zext(in, w)
		}
		return p.Sext(in, w)
	}
	if a.op == OAdd || a.op == OSub || a.op == OBand || a.op == OBor || a.op == OBxor || a.op == OMul {
		return p.Bin(a.op, p.Extract(a.a[0], w), p.Extract(a.a[1], w))
	}
	if a.op == OIte {
		return p.Ite(a.a[0], p.Extract(a.a[1], w), p.Extract(a.a[2], w))
	}
	return p.mk(OExtract, w, 0, "", a, nil, nil)
}

// ---- printing ----

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

// smt prints e, sharing repeated subterms with let.
func (e *Expr) smt() string {
	count := map[*Expr]int{}
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil || x.op == OConst || x.op == OVar {
			return
		}
		count[x]++
		if count[x] > 1 {
			return
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(e)
	var shared []*Expr
	for x, n := range count {
		if n > 1 && x != e {
			shared = append(shared, x)
		}
	}
	sort.Slice(shared, func(i, j int) bool { return shared[i].id < shared[j].id })
	isShared := map[*Expr]bool{}
	for _, x := range shared {
		isShared[x] = true
	}
	var sb strings.Builder
	var pr func(x *Expr, top bool)
	pr = func(x *Expr, top bool) {
		if !top && isShared[x] {
			fmt.Fprintf(&sb, "?e%d", x.id)
			return
		}
		switch x.op {
		case OConst:
			sb.WriteString(smtConst(x.val, x.w))
		case OVar:
			sb.WriteString("|" + x.name + "|")
		case OZext:
			fmt.Fprintf(&sb, "((_ zero_extend %d) ", x.w-x.a[0].w)
			pr(x.a[0], false)
			sb.WriteByte(')')
		case OSext:
			fmt.Fprintf(&sb, "((_ sign_extend %d) ", x.w-x.a[0].w)
			pr(x.a[0], false)
			sb.WriteByte(')')
		case OExtract:
			fmt.Fprintf(&sb, "((_ extract %d 0) ", x.w-1)
			pr(x.a[0], false)
			sb.WriteByte(')')
		default:
			sb.WriteString("(" + opNames[x.op])
			for _, y := range x.a {
				if y != nil {
					sb.WriteByte(' ')
					pr(y, false)
				}
			}
			sb.WriteByte(')')
		}
	}
	// ids grow from children to parents, so binding in id order is well scoped
	for _, x := range shared {
		fmt.Fprintf(&sb, "(let ((?e%d ", x.id)
		pr(x, true)
		sb.WriteString(")) ")
	}
	pr(e, true)
	sb.WriteString(strings.Repeat(")", len(shared)))
	return sb.String()
}

// eval evaluates e under an assignment of its variables.
func (e *Expr) eval(env map[*Expr]uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OVar:
		return env[e]
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var x [3]uint64
	for i, y := range e.a {
		if y != nil {
			x[i] = y.eval(env, memo)
		}
	}
	v := evalOp(e.op, e.w, e.a[0].w, x[0], x[1], x[2])
	memo[e] = v
	return v
}

// ---- byte domains ----

// Dom is a set of values of one variable of at most 8 bits.
type Dom [4]uint64

func fullDom(w uint8) Dom {
	var d Dom
	n := 1 << w
	if w == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}
func (d *Dom) has(i int) bool { return d[i>>6]>>(i&63)&1 != 0 }
func (d *Dom) empty() bool    { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d *Dom) and(o *Dom) Dom {
	return Dom{d[0] & o[0], d[1] & o[1], d[2] & o[2], d[3] & o[3]}
}
func (d *Dom) andNot(o *Dom) Dom {
	return Dom{d[0] &^ o[0], d[1] &^ o[1], d[2] &^ o[2], d[3] &^ o[3]}
}
func (d *Dom) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d *Dom) min() int {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			return i*64 + bits.TrailingZeros64(d[i])
		}
	}
	return -1
}
func (d *Dom) max() int {
	for i := 3; i >= 0; i-- {
		if d[i] != 0 {
			return i*64 + 63 - bits.LeadingZeros64(d[i])
		}
	}
	return -1
}

// domOf is the set of values of e's single variable for which boolean e holds.
func (e *Expr) domOf() Dom {
	var d Dom
	for i, x := range e.table() {
		if x != 0 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	return d
}

// smt renders membership of variable v in the set as ranges.
func (d *Dom) smt(v *Expr) string {
	n := 1 << v.w
	if v.w == 0 {
		t, f := d.has(1), d.has(0)
		switch {
		case t && f:
			return "true"
		case t:
			return "|" + v.name + "|"
		case f:
			return "(not |" + v.name + "|)"
		}
		return "false"
	}
	var parts []string
	for i := 0; i < n; {
		if !d.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && d.has(j+1) {
			j++
		}
		switch {
		case i == 0 && j == n-1:
			return "true"
		case i == j:
			parts = append(parts, fmt.Sprintf("(= |%s| (_ bv%d %d))", v.name, i, v.w))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvule (_ bv%d %d) |%s|) (bvule |%s| (_ bv%d %d)))", i, v.w, v.name, v.name, j, v.w))
		}
		i = j + 1
	}
	switch len(parts) {
	case 0:
		return "false"
	case 1:
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}
