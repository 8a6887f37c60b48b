package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a target value:
//
//	integers         int64 (normalised to the type's width) or *Expr
//	booleans         bool or *Expr (w == 0)
//	floats           float64
//	complex          complex128
//	strings          string or *SymStr (some byte symbolic)
//	pointers         *Value; *SymPtr for &a[i] with symbolic i (short-lived)
//	structs, arrays  Struct, Array
//	slices           Slice
//	maps             *Map
//	functions        *Closure
//	interfaces       nil or *Iface
//	tuples           Tuple
//	reflect.Value    *RValue;  reflect.Type: *Iface{rtypeRT, *RT}
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value
type Slice struct{ a []Value }
type SymStr struct{ b []Value }
type SymPtr struct {
	a   []Value
	idx *Expr
}
type Iface struct {
	t *RT
	v Value
}
type Closure struct {
	code *fnCode
	fv   []Value
	// bound native function (reflect method values and the like)
	native func(fr *frame, args []Value) Value
	sig    *types.Signature
}

// Poison is the result of something unsupported during package initialisation.
type Poison struct{ why string }

// fatal aborts the whole run: an error of the machinery.
type fatal struct{ msg string }

// unsupported aborts the current path only.
type unsupported struct{ msg string }

func unsup(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

// TargetPanic is a Go panic of the program under test.
type TargetPanic struct {
	v     Value // interface value
	fatal bool  // unrecoverable (deadlock, stack overflow)
	where string
}

const nSmall = 1 << 16

var smallInts [nSmall + 1024]any

func init() {
	for i := range smallInts {
		smallInts[i] = int64(i) - 1024
	}
}

func mkInt(n int64) Value {
	if n >= -1024 && n < nSmall {
		return smallInts[n+1024]
	}
	return n
}

// ---- types ----

type RT struct {
	T       types.Type
	U       types.Type
	id      int
	kind    reflect.Kind
	methods sync.Map // string -> *fnCode or nil
	impl    sync.Map // *RT (interface) -> bool
	exp     []*types.Selection
	expOnce sync.Once
}

var (
	rtMu    sync.Mutex
	rtMap   typeutil.Map
	rtFast  sync.Map // types.Type -> *RT
	rtCount int
)

func rtOf(t types.Type) *RT {
	if r, ok := rtFast.Load(t); ok {
		return r.(*RT)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	r, _ := rtMap.At(t).(*RT)
	if r == nil {
		r = &RT{T: t, U: t.Underlying(), id: rtCount, kind: kindOf(t.Underlying())}
		rtCount++
		rtMap.Set(t, r)
	}
	rtFast.Store(t0, r)
	return r
}

func (r *RT) String() string {
	return types.TypeString(r.T, func(p *types.Package) string { return p.Name() })
}

func kindOf(u types.Type) reflect.Kind {
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

// intInfo gives width and signedness of integer types.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func normInt(n int64, w uint8, signed bool) int64 {
	switch w {
	case 8:
		if signed {
			return int64(int8(n))
		}
		return int64(uint8(n))
	case 16:
		if signed {
			return int64(int16(n))
		}
		return int64(uint16(n))
	case 32:
		if signed {
			return int64(int32(n))
		}
		return int64(uint32(n))
	}
	return n
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Name() != "Value" || o.Pkg() == nil {
		return false
	}
	p := o.Pkg().Path()
	return p == "reflect" || p == "internal/reflectlite"
}

func zero(t types.Type) Value {
	if isReflectValue(t) {
		return rvZero
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		z := zero(u.Elem())
		switch z.(type) {
		case Struct, Array:
			for i := range a {
				a[i] = zero(u.Elem())
			}
		default:
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Map:
		return (*Map)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return nil
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = zero(u.At(i).Type())
		}
		return tt
	}
	panic(unsupported{fmt.Sprintf("zero of %v", t)})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

func isAggregate(t types.Type) bool {
	if isReflectValue(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported{fmt.Sprintf("string expected, have %T", v)})
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return mkInt(int64(s[i]))
	case *SymStr:
		return s.b[i]
	}
	panic(unsupported{fmt.Sprintf("string expected, have %T", v)})
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = mkInt(int64(s[i]))
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(unsupported{fmt.Sprintf("string expected, have %T", v)})
}

// mkStr makes a string of bytes; b is not retained if it is all concrete, and
// must not be modified afterwards otherwise.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			if p, ok := x.(Poison); ok {
				panic(unsupported{"poison: " + p.why})
			}
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strSlice(v Value, i, j int) Value {
	switch s := v.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic(unsupported{fmt.Sprintf("string expected, have %T", v)})
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	return mkStr(append(r, y...))
}

// goStr demands a concrete string.
func goStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("concrete string needed, have %T", v)
	}
	return s
}

// ---- maps ----

type mapEntry struct {
	k, v Value
	live bool
}

type Map struct {
	ents  []mapEntry
	idx   map[any]int
	live  int
	nsym  int
	epoch int
	key   types.Type
}

type kcons struct{ h, t any }

// mapKey returns a comparable Go value for a concrete key.
func mapKey(v Value) (any, bool) {
	switch x := v.(type) {
	case *Expr, *SymStr:
		return nil, false
	case *Iface:
		k, ok := mapKey(x.v)
		return kcons{x.t, k}, ok
	case Struct:
		var r any
		for _, e := range x {
			k, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			r = kcons{k, r}
		}
		return r, true
	case Array:
		var r any
		for _, e := range x {
			k, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			r = kcons{k, r}
		}
		return r, true
	case Slice, *Closure:
		panic(unsupported{"unhashable map key"})
	case *RValue:
		panic(unsupported{"reflect.Value as map key"})
	}
	return v, true
}

func (m *Map) clone() *Map {
	c := *m
	c.ents = append([]mapEntry(nil), m.ents...)
	c.idx = make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return &c
}

// find returns the index of the entry for k or -1, deciding symbolic equalities.
func (w *Worker) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	ck, ok := mapKey(k)
	if ok {
		if i, hit := m.idx[ck]; hit {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if ok {
			if _, c := mapKey(e.k); c {
				continue
			}
		}
		if w.truth(w.equal(m.key, e.k, k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapTouch(m *Map) {
	if m.epoch != w.epoch {
		if w.logging {
			w.undo = append(w.undo, undoEnt{m: m, old: m.clone()})
		}
		m.epoch = w.epoch
	}
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	i := w.mapFind(m, k)
	w.mapTouch(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, mapEntry{k, v, true})
	m.live++
	if ck, ok := mapKey(k); ok {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	e := &m.ents[i]
	if ck, ok := mapKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	e.live = false
	e.v = nil
	m.live--
}

func (w *Worker) newMap(key types.Type) *Map {
	return &Map{idx: map[any]int{}, epoch: w.epoch, key: key}
}

type mapIter struct {
	m    *Map
	next int
	// free order mode
	free bool
	back bool // from last to first
	seen map[int]bool
}

type strIter struct {
	s Value
	i int
}

// ---- channels ----

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// rendezvous for unbuffered channels: senders waiting
	sendq []*chanWait
	recvq []*chanWait
}

type chanWait struct {
	th   *Thread
	v    Value
	done bool
	ok   bool
}

// ---- equality ----

// equal compares two values of static type t: bool or *Expr.
func (w *Worker) equal(t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		if y, ok := b.(*Expr); ok {
			return w.lower(w.pool.Eq(y, w.pool.Const(uint64(x), y.w)))
		}
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		if y, ok := b.(*Expr); ok {
			return w.lower(w.pool.Eq(y, w.pool.Bool(x)))
		}
	case *Expr:
		switch y := b.(type) {
		case int64:
			return w.lower(w.pool.Eq(x, w.pool.Const(uint64(y), x.w)))
		case bool:
			return w.lower(w.pool.Eq(x, w.pool.Bool(y)))
		case *Expr:
			return w.lower(w.pool.Eq(x, y))
		}
	case float64:
		return x == b.(float64)
	case complex128:
		return x == b.(complex128)
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return w.strEq(a, b)
	case *SymStr:
		return w.strEq(a, b)
	case *Value:
		switch y := b.(type) {
		case *Value:
			return x == y
		}
		return false
	case Slice: // only against nil
		y := b.(Slice)
		return x.a == nil && y.a == nil
	case *Map:
		return x == b.(*Map)
	case *Chan:
		return x == b.(*Chan)
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return x == y
		}
		return x == y
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return false
		}
		if x == y {
			if !comparableVal(x.v) {
				panic(w.rtPanic("runtime error: comparing uncomparable type " + x.t.String()))
			}
			return true
		}
		if x.t != y.t {
			return false
		}
		if !types.Comparable(x.t.T) {
			panic(w.rtPanic("runtime error: comparing uncomparable type " + x.t.String()))
		}
		return w.equal(x.t.T, x.v, y.v)
	case Struct:
		y := b.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			e := w.equal(ft, x[i], y[i])
			if e == false {
				return false
			}
			r = w.and(r, e)
		}
		return r
	case Array:
		y := b.(Array)
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		var r Value = true
		for i := range x {
			e := w.equal(et, x[i], y[i])
			if e == false {
				return false
			}
			r = w.and(r, e)
		}
		return r
	case *RT:
		y, ok := b.(*RT)
		return ok && x == y
	case *RValue:
		return x == b
	case Poison:
		panic(unsupported{"poison: " + x.why})
	}
	if p, ok := b.(Poison); ok {
		panic(unsupported{"poison: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("equal %T %T", a, b)})
}

func comparableVal(v Value) bool {
	switch x := v.(type) {
	case Slice, *Map, *Closure:
		return false
	case Struct:
		for _, e := range x {
			if !comparableVal(e) {
				return false
			}
		}
	}
	return true
}

func (w *Worker) lower(e *Expr) Value {
	if e.w == 0 {
		if e == w.pool.True {
			return true
		}
		if e == w.pool.False {
			return false
		}
	}
	return e
}

func (w *Worker) boolExpr(v Value) *Expr {
	switch x := v.(type) {
	case bool:
		return w.pool.Bool(x)
	case *Expr:
		return x
	}
	panic(unsupported{fmt.Sprintf("bool expected, have %T", v)})
}

func (w *Worker) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return w.lower(w.pool.And(a.(*Expr), b.(*Expr)))
}

func (w *Worker) not(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return w.lower(w.pool.Not(a.(*Expr)))
}

func (w *Worker) or(a, b Value) Value { return w.not(w.and(w.not(a), w.not(b))) }

// byteExpr lifts a byte value.
func (w *Worker) byteExpr(v Value) *Expr {
	switch x := v.(type) {
	case int64:
		return w.pool.Const(uint64(x), 8)
	case *Expr:
		return x
	}
	panic(unsupported{fmt.Sprintf("byte expected, have %T", v)})
}

func (w *Worker) byteEq(a, b Value) Value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x == y
	}
	return w.lower(w.pool.Eq(w.byteExpr(a), w.byteExpr(b)))
}

func (w *Worker) strEq(a, b Value) Value {
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	var r Value = true
	// look for a concrete mismatch first
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if p, ok := x.(int64); ok {
			if q, ok := y.(int64); ok && p != q {
				return false
			}
		}
	}
	for i := 0; i < n; i++ {
		e := w.byteEq(strAt(a, i), strAt(b, i))
		if e == false {
			return false
		}
		r = w.and(r, e)
	}
	return r
}

// strLess is a < b (or a <= b), lexicographically.
func (w *Worker) strLess(a, b Value, orEq bool) Value {
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	var r Value = na < nb || orEq && na == nb
	for i := n - 1; i >= 0; i-- {
		x, y := strAt(a, i), strAt(b, i)
		if p, ok := x.(int64); ok {
			if q, ok := y.(int64); ok {
				if p != q {
					r = p < q
				}
				continue
			}
		}
		ex, ey := w.byteExpr(x), w.byteExpr(y)
		lt := w.lower(w.pool.Cmp(OUlt, ex, ey))
		eq := w.lower(w.pool.Eq(ex, ey))
		r = w.or(lt, w.and(eq, r))
	}
	return r
}

// ---- debugging ----

func show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Iface:
		return x.t.String() + ":" + show(x.v)
	case *SymStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, b := range x.b {
			if c, ok := b.(int64); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteByte('?')
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case Slice:
		if len(x.a) > 8 {
			return fmt.Sprintf("slice(%d)", len(x.a))
		}
		var p []string
		for _, e := range x.a {
			p = append(p, show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, show(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Value:
		if x == nil {
			return "nilptr"
		}
		return "ptr"
	case *Closure:
		if x == nil {
			return "nilfunc"
		}
		return "func"
	case *Expr:
		return x.smt()
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(v)
}

var _ = ssa.NaiveForm
