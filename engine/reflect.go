package main

// A model of package reflect over target values.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type RValue struct {
	t    *RT
	v    Value
	addr *Value
	ro   bool // obtained through an unexported field
}

var rvZero = &RValue{}

func (r *RValue) get() Value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func (w *Worker) rtype(t *RT) Value {
	if t == nil {
		return nil
	}
	return &Iface{w.eng.rtRtype, t}
}

func asRT(v Value) *RT {
	i, ok := v.(*Iface)
	if !ok {
		unsup("reflect.Type expected, have %T", v)
	}
	return i.v.(*RT)
}

func asRV(v Value) *RValue {
	r, ok := v.(*RValue)
	if !ok {
		if p, isP := v.(Poison); isP {
			panic(unsupported{"poison: " + p.why})
		}
		unsup("reflect.Value expected, have %T", v)
	}
	return r
}

// rvOf makes a reflect.Value of an interface value.
func rvOf(v Value) *RValue {
	if v == nil {
		return rvZero
	}
	i := v.(*Iface)
	return &RValue{t: i.t, v: i.v}
}

func (w *Worker) rvIface(r *RValue) Value {
	if r.t == nil {
		panic(w.rtPanic("reflect: call of reflect.Value.Interface on zero Value"))
	}
	if r.t.kind == reflect.Interface {
		return r.get()
	}
	return &Iface{r.t, r.get()}
}

// rvAssign converts r for assignment to type t, panicking like reflect does.
func (w *Worker) rvAssign(r *RValue, t *RT, what string) Value {
	if r.t == nil {
		panic(w.rtPanic("reflect: " + what + " using zero Value argument"))
	}
	if t.kind == reflect.Interface {
		if r.t.kind == reflect.Interface {
			v := r.get()
			if v == nil || w.implements(v.(*Iface).t, t) {
				return v
			}
		} else if w.implements(r.t, t) {
			return &Iface{r.t, r.get()}
		}
	} else if types.AssignableTo(r.t.T, t.T) {
		return r.get()
	}
	panic(w.rtPanic("reflect: " + what + " using " + r.t.String() + " as type " + t.String()))
}

func exportedMethods(t *RT, prog *ssa.Program) []*types.Selection {
	t.expOnce.Do(func() {
		ms := prog.MethodSets.MethodSet(t.T)
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Exported() {
				t.exp = append(t.exp, s)
			}
		}
		sort.Slice(t.exp, func(i, j int) bool { return t.exp[i].Obj().Name() < t.exp[j].Obj().Name() })
	})
	return t.exp
}

// concretizeName forks a symbolic name over candidates; "" if none.
func (w *Worker) pickName(name Value, cands []string) string {
	if s, ok := name.(string); ok {
		return s
	}
	for _, c := range cands {
		if w.truth(w.strEq(name, c)) {
			return c
		}
	}
	return ""
}

func (w *Worker) rvMethodByName(r *RValue, name Value) *RValue {
	if r.t == nil {
		panic(w.rtPanic("reflect: call of reflect.Value.MethodByName on zero Value"))
	}
	exp := exportedMethods(r.t, w.eng.prog)
	var names []string
	for _, s := range exp {
		names = append(names, s.Obj().Name())
	}
	n := w.pickName(name, names)
	for _, s := range exp {
		if s.Obj().Name() == n {
			return w.rvMethod(r, s)
		}
	}
	return rvZero
}

func (w *Worker) rvMethod(r *RValue, s *types.Selection) *RValue {
	m := s.Obj().(*types.Func)
	sig := m.Type().(*types.Signature)
	ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	recv := r.get()
	isI := r.t.kind == reflect.Interface
	rt := r.t
	if isI && recv == nil {
		panic(w.rtPanic("reflect: Method on nil interface value"))
	}
	c := &Closure{sig: ft, native: func(fr *frame, args []Value) Value {
		if isI {
			return fr.w.invoke(recv, m, args, fr)
		}
		if p, ok := recv.(*Value); ok && p == nil {
			// a nil receiver is passed on; promoted methods panic by themselves
			_ = p
		}
		code := fr.w.method(rt, m)
		return fr.w.call(code, append([]Value{recv}, args...), nil, fr)
	}}
	return &RValue{t: rtOf(ft), v: c}
}

func (w *Worker) rvCall(r *RValue, in []Value, spread bool, fr *frame) Value {
	if r.t == nil || r.t.kind != reflect.Func {
		panic(w.rtPanic("reflect: call of Call on non-function"))
	}
	sig := r.t.U.(*types.Signature)
	c := r.get().(*Closure)
	if c == nil {
		panic(w.rtPanic("reflect: call of nil function"))
	}
	np := sig.Params().Len()
	var args []Value
	fixed := np
	if sig.Variadic() && !spread {
		fixed--
	}
	if len(in) < fixed {
		panic(w.rtPanic("reflect: Call with too few input arguments"))
	}
	if !sig.Variadic() && len(in) > fixed {
		panic(w.rtPanic("reflect: Call with too many input arguments"))
	}
	for _, a := range in {
		if asRV(a).t == nil {
			panic(w.rtPanic("reflect: Call using zero Value argument"))
		}
	}
	for i := 0; i < fixed; i++ {
		args = append(args, w.rvAssign(asRV(in[i]), rtOf(sig.Params().At(i).Type()), "Call"))
	}
	if sig.Variadic() && !spread {
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		var rest []Value
		for _, a := range in[fixed:] {
			rest = append(rest, w.rvAssign(asRV(a), rtOf(et), "Call"))
		}
		if rest == nil {
			rest = []Value{}
		}
		args = append(args, Slice{rest[:len(rest):len(rest)]})
	}
	res := w.callValue(c, args, fr)
	nr := sig.Results().Len()
	out := make([]Value, nr)
	switch nr {
	case 0:
	case 1:
		out[0] = &RValue{t: rtOf(sig.Results().At(0).Type()), v: res}
	default:
		for i, x := range res.(Tuple) {
			out[i] = &RValue{t: rtOf(sig.Results().At(i).Type()), v: x}
		}
	}
	return Slice{out}
}

func (w *Worker) rvField(r *RValue, i int) *RValue {
	st, ok := r.t.U.(*types.Struct)
	if !ok {
		panic(w.rtPanic("reflect: call of Field on " + r.t.String()))
	}
	f := st.Field(i)
	n := &RValue{t: rtOf(f.Type()), ro: r.ro || !f.Exported() && !f.Embedded()}
	if !f.Exported() {
		n.ro = true
	}
	if r.addr != nil {
		n.addr = &asStruct(*r.addr)[i]
	} else {
		n.v = asStruct(r.v)[i]
	}
	return n
}

func (w *Worker) rvElem(r *RValue) *RValue {
	switch r.t.kind {
	case reflect.Interface:
		x := rvOf(r.get())
		if x.t != nil && r.ro {
			return &RValue{t: x.t, v: x.v, ro: true}
		}
		return x
	case reflect.Ptr:
		p, ok := r.get().(*Value)
		if !ok {
			unsup("reflect Elem of %T", r.get())
		}
		if p == nil {
			return rvZero
		}
		return &RValue{t: rtOf(r.t.U.(*types.Pointer).Elem()), addr: p, ro: r.ro}
	}
	panic(w.rtPanic("reflect: call of reflect.Value.Elem on " + r.t.kind.String() + " Value"))
}

func (w *Worker) rvLen(r *RValue) int {
	switch x := r.get().(type) {
	case string, *SymStr:
		return strLen(x)
	case Slice:
		return len(x.a)
	case Array:
		return len(x)
	case *Map:
		if x == nil {
			return 0
		}
		return x.live
	case *Chan:
		if x == nil {
			return 0
		}
		return len(x.buf)
	}
	panic(w.rtPanic("reflect: call of reflect.Value.Len on " + r.t.kind.String() + " Value"))
}

func (w *Worker) rvIndex(r *RValue, i int) *RValue {
	if i < 0 || i >= w.rvLen(r) {
		panic(w.rtPanic("reflect: slice index out of range"))
	}
	switch u := r.t.U.(type) {
	case *types.Slice:
		s := r.get().(Slice)
		return &RValue{t: rtOf(u.Elem()), addr: &s.a[i], ro: r.ro}
	case *types.Array:
		if r.addr != nil {
			return &RValue{t: rtOf(u.Elem()), addr: &(*r.addr).(Array)[i], ro: r.ro}
		}
		return &RValue{t: rtOf(u.Elem()), v: r.v.(Array)[i], ro: r.ro}
	case *types.Basic:
		return &RValue{t: rtOf(types.Typ[types.Uint8]), v: strAt(r.get(), i)}
	}
	panic(w.rtPanic("reflect: call of reflect.Value.Index on " + r.t.kind.String() + " Value"))
}

func (w *Worker) rvIsNil(r *RValue) bool {
	if r.t == nil {
		panic(w.rtPanic("reflect: call of reflect.Value.IsNil on zero Value"))
	}
	switch x := r.get().(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case *Map:
		return x == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	case Slice:
		return x.a == nil
	case *Iface:
		return false
	}
	panic(w.rtPanic("reflect: call of reflect.Value.IsNil on " + r.t.kind.String() + " Value"))
}

func (w *Worker) rvIsZero(r *RValue) Value {
	switch x := r.get().(type) {
	case Slice:
		return x.a == nil
	case *Map:
		return x == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	case Struct:
		st := r.t.U.(*types.Struct)
		var res Value = true
		for i := range x {
			res = w.and(res, w.rvIsZero(&RValue{t: rtOf(st.Field(i).Type()), v: x[i]}))
		}
		return res
	default:
		return w.equal(r.t.T, x, zero(r.t.T))
	}
}

func (w *Worker) rvSet(r *RValue, v Value) {
	if r.addr == nil {
		panic(w.rtPanic("reflect: reflect.Value.Set using unaddressable value"))
	}
	w.store(r.addr, v)
}

// ---- struct fields and methods as target structs ----

func (w *Worker) pkgPath(o types.Object) string {
	if o.Exported() || o.Pkg() == nil {
		return ""
	}
	return o.Pkg().Path()
}

func (w *Worker) structField(f *types.Var, tag string, index []int) Value {
	t := w.eng.namedType("reflect", "StructField")
	s := zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Name":
			s[i] = f.Name()
		case "PkgPath":
			s[i] = w.pkgPath(f)
		case "Type":
			s[i] = w.rtype(rtOf(f.Type()))
		case "Tag":
			s[i] = tag
		case "Index":
			var a []Value
			for _, x := range index {
				a = append(a, mkInt(int64(x)))
			}
			s[i] = Slice{a}
		case "Anonymous":
			s[i] = f.Embedded()
		}
	}
	return s
}

func (w *Worker) reflectMethod(s *types.Selection, idx int, recv *RT) Value {
	t := w.eng.namedType("reflect", "Method")
	r := zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	sig := s.Obj().Type().(*types.Signature)
	var ft types.Type
	if recv.kind == reflect.Interface {
		ft = types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	} else {
		ps := []*types.Var{types.NewVar(0, nil, "", recv.T)}
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i))
		}
		ft = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Name":
			r[i] = s.Obj().Name()
		case "Type":
			r[i] = w.rtype(rtOf(ft))
		case "Index":
			r[i] = mkInt(int64(idx))
		}
	}
	return r
}

func (w *Worker) rtypeMethod(t *RT, name string, args []Value, fr *frame) Value {
	tup := func(ts *types.Tuple, i int) Value { return w.rtype(rtOf(ts.At(i).Type())) }
	switch name {
	case "Kind":
		return mkInt(int64(t.kind))
	case "Name":
		switch n := t.T.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "String":
		s := t.String()
		s = strings.ReplaceAll(s, "any", "interface {}")
		return s
	case "Elem":
		switch u := t.U.(type) {
		case *types.Pointer:
			return w.rtype(rtOf(u.Elem()))
		case *types.Slice:
			return w.rtype(rtOf(u.Elem()))
		case *types.Array:
			return w.rtype(rtOf(u.Elem()))
		case *types.Map:
			return w.rtype(rtOf(u.Elem()))
		case *types.Chan:
			return w.rtype(rtOf(u.Elem()))
		}
		panic(w.rtPanic("reflect: Elem of invalid type " + t.String()))
	case "Key":
		return w.rtype(rtOf(t.U.(*types.Map).Key()))
	case "Len":
		return mkInt(t.U.(*types.Array).Len())
	case "In":
		return tup(t.U.(*types.Signature).Params(), int(args[0].(int64)))
	case "Out":
		return tup(t.U.(*types.Signature).Results(), int(args[0].(int64)))
	case "NumIn":
		return mkInt(int64(t.U.(*types.Signature).Params().Len()))
	case "NumOut":
		return mkInt(int64(t.U.(*types.Signature).Results().Len()))
	case "IsVariadic":
		return t.U.(*types.Signature).Variadic()
	case "NumField":
		return mkInt(int64(t.U.(*types.Struct).NumFields()))
	case "Field":
		st := t.U.(*types.Struct)
		i := int(args[0].(int64))
		return w.structField(st.Field(i), st.Tag(i), []int{i})
	case "FieldByName":
		st, ok := t.U.(*types.Struct)
		if !ok {
			panic(w.rtPanic("reflect: FieldByName of non-struct type " + t.String()))
		}
		n := goStr(args[0])
		var pkg *types.Package
		if nm, ok := t.T.(*types.Named); ok {
			pkg = nm.Obj().Pkg()
		}
		o, index, _ := types.LookupFieldOrMethod(t.T, false, pkg, n)
		f, isVar := o.(*types.Var)
		if !isVar {
			return Tuple{zero(w.eng.namedType("reflect", "StructField")), false}
		}
		tag := ""
		if len(index) == 1 {
			tag = st.Tag(index[0])
		}
		return Tuple{w.structField(f, tag, index), true}
	case "NumMethod":
		if it, ok := t.U.(*types.Interface); ok {
			return mkInt(int64(it.NumMethods()))
		}
		return mkInt(int64(len(exportedMethods(t, w.eng.prog))))
	case "MethodByName":
		n := goStr(args[0])
		for i, s := range exportedMethods(t, w.eng.prog) {
			if s.Obj().Name() == n {
				return Tuple{w.reflectMethod(s, i, t), true}
			}
		}
		return Tuple{zero(w.eng.namedType("reflect", "Method")), false}
	case "Method":
		i := int(args[0].(int64))
		return w.reflectMethod(exportedMethods(t, w.eng.prog)[i], i, t)
	case "Implements":
		return w.implements(t, asRT(args[0]))
	case "AssignableTo":
		return types.AssignableTo(t.T, asRT(args[0]).T)
	case "ConvertibleTo":
		return types.ConvertibleTo(t.T, asRT(args[0]).T)
	case "Comparable":
		return types.Comparable(t.T)
	case "Size":
		return mkInt(sizes64.Sizeof(t.T))
	case "Bits":
		wd, _, _ := intInfo(t.T)
		return mkInt(int64(wd))
	case "CanSeq", "CanSeq2":
		return w.canSeq(t, name == "CanSeq2")
	}
	panic(unsupported{"reflect.Type." + name})
}

func (w *Worker) canSeq(t *RT, two bool) bool {
	switch t.kind {
	case reflect.Func:
		sig := t.U.(*types.Signature)
		if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			return false
		}
		y, ok := sig.Params().At(0).Type().Underlying().(*types.Signature)
		if !ok || y.Results().Len() != 1 || !types.Identical(y.Results().At(0).Type(), types.Typ[types.Bool]) {
			return false
		}
		if two {
			return y.Params().Len() == 2
		}
		return y.Params().Len() == 1
	case reflect.Slice, reflect.Array, reflect.String, reflect.Map:
		return true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return !two
	}
	return false
}

type rvMapIter struct {
	it   *mapIter
	mt   *types.Map
	cur  *mapEntry
	done bool
}

func init() {
	m := func(name string, f func(w *Worker, r *RValue, a []Value, fr *frame) Value) {
		g := func(fr *frame, args []Value) Value { return f(fr.w, asRV(args[0]), args[1:], fr) }
		natives["(reflect.Value)."+name] = g
		natives["(internal/reflectlite.Value)."+name] = g
	}
	kindPanic := func(w *Worker, r *RValue, name string) *TargetPanic {
		k := reflect.Invalid
		if r.t != nil {
			k = r.t.kind
		}
		return w.rtPanic("reflect: call of reflect.Value." + name + " on " + k.String() + " Value")
	}
	m("Kind", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			return mkInt(0)
		}
		return mkInt(int64(r.t.kind))
	})
	m("IsValid", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.t != nil })
	m("Type", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			panic(kindPanic(w, r, "Type"))
		}
		return w.rtype(r.t)
	})
	m("IsNil", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return w.rvIsNil(r) })
	m("IsZero", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			panic(kindPanic(w, r, "IsZero"))
		}
		return w.rvIsZero(r)
	})
	m("Interface", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.ro {
			panic(w.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		return w.rvIface(r)
	})
	m("CanInterface", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			panic(kindPanic(w, r, "CanInterface"))
		}
		return !r.ro
	})
	m("CanAddr", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.addr != nil })
	m("CanSet", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.addr != nil && !r.ro })
	m("Addr", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.addr == nil {
			panic(w.rtPanic("reflect.Value.Addr of unaddressable value"))
		}
		return &RValue{t: rtOf(types.NewPointer(r.t.T)), v: r.addr, ro: r.ro}
	})
	m("UnsafeAddr", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.addr })
	m("Elem", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			panic(kindPanic(w, r, "Elem"))
		}
		return w.rvElem(r)
	})
	m("Len", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			panic(kindPanic(w, r, "Len"))
		}
		if r.t.kind == reflect.Ptr {
			return mkInt(int64(w.rvLen(w.rvElem(r))))
		}
		return mkInt(int64(w.rvLen(r)))
	})
	m("Cap", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return mkInt(int64(cap(r.get().(Slice).a)))
	})
	m("Index", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return w.rvIndex(r, int(w.concretize(a[0])))
	})
	m("Field", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return w.rvField(r, int(a[0].(int64)))
	})
	m("NumField", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return mkInt(int64(r.t.U.(*types.Struct).NumFields()))
	})
	byIndex := func(w *Worker, r *RValue, idx []Value) (*RValue, bool) {
		for k, x := range idx {
			if k > 0 && r.t.kind == reflect.Ptr {
				if w.rvIsNil(r) {
					return nil, false
				}
				r = w.rvElem(r)
			}
			r = w.rvField(r, int(x.(int64)))
		}
		return r, true
	}
	m("FieldByIndexErr", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		x, ok := byIndex(w, r, asSlice(a[0]).a)
		if !ok {
			return Tuple{rvZero, w.errIface("reflect: indirection through nil pointer to embedded struct")}
		}
		return Tuple{x, nil}
	})
	m("FieldByIndex", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		x, ok := byIndex(w, r, asSlice(a[0]).a)
		if !ok {
			panic(w.rtPanic("reflect: indirection through nil pointer to embedded struct"))
		}
		return x
	})
	m("FieldByName", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		o, index, _ := types.LookupFieldOrMethod(r.t.T, false, nil, goStr(a[0]))
		if _, ok := o.(*types.Var); !ok {
			return rvZero
		}
		for _, i := range index {
			r = w.rvField(r, i)
		}
		return r
	})
	m("MethodByName", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return w.rvMethodByName(r, a[0]) })
	m("Method", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return w.rvMethod(r, exportedMethods(r.t, w.eng.prog)[int(a[0].(int64))])
	})
	m("NumMethod", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			panic(kindPanic(w, r, "NumMethod"))
		}
		return w.rtypeMethod(r.t, "NumMethod", nil, fr)
	})
	m("Call", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return w.rvCall(r, asSlice(a[0]).a, false, fr)
	})
	m("CallSlice", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return w.rvCall(r, asSlice(a[0]).a, true, fr)
	})
	m("String", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			return "<invalid Value>"
		}
		if r.t.kind == reflect.String {
			return r.get()
		}
		return "<" + r.t.String() + " Value>"
	})
	m("Bool", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil || r.t.kind != reflect.Bool {
			panic(kindPanic(w, r, "Bool"))
		}
		return r.get()
	})
	m("Int", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		wd, s, ok := intInfo(r.t.T)
		if !ok || !s {
			panic(kindPanic(w, r, "Int"))
		}
		v := r.get()
		if e, isE := v.(*Expr); isE {
			return w.lowerInt(w.pool.Sext(e, 64), true)
		}
		_ = wd
		return v
	})
	m("Uint", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		_, s, ok := intInfo(r.t.T)
		if !ok || s {
			panic(kindPanic(w, r, "Uint"))
		}
		v := r.get()
		if e, isE := v.(*Expr); isE {
			return w.lowerInt(w.pool.Zext(e, 64), false)
		}
		return v
	})
	m("Float", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.get() })
	m("Complex", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.get() })
	m("CanInt", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return r.t != nil && r.t.kind >= reflect.Int && r.t.kind <= reflect.Int64
	})
	m("CanUint", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return r.t != nil && r.t.kind >= reflect.Uint && r.t.kind <= reflect.Uintptr
	})
	m("CanFloat", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return r.t != nil && (r.t.kind == reflect.Float32 || r.t.kind == reflect.Float64)
	})
	m("Bytes", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.get() })
	m("Pointer", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return mkInt(0xdead) })
	m("UnsafePointer", func(w *Worker, r *RValue, a []Value, fr *frame) Value { return r.get() })
	m("Comparable", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		if r.t == nil {
			return true
		}
		if r.t.kind == reflect.Interface {
			x := r.get()
			return x == nil || types.Comparable(x.(*Iface).t.T)
		}
		return types.Comparable(r.t.T)
	})
	m("Equal", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		o := asRV(a[0])
		if r.t != nil && r.t.kind == reflect.Interface {
			r = w.rvElem(r)
		}
		if o.t != nil && o.t.kind == reflect.Interface {
			o = w.rvElem(o)
		}
		if r.t == nil || o.t == nil {
			return r.t == o.t
		}
		if r.t != o.t {
			return false
		}
		return w.equal(r.t.T, r.get(), o.get())
	})
	m("Set", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		w.rvSet(r, w.rvAssign(asRV(a[0]), r.t, "Set"))
		return nil
	})
	m("SetZero", func(w *Worker, r *RValue, a []Value, fr *frame) Value { w.rvSet(r, zero(r.t.T)); return nil })
	for _, n := range []string{"SetString", "SetBool", "SetInt", "SetUint", "SetFloat", "SetBytes"} {
		m(n, func(w *Worker, r *RValue, a []Value, fr *frame) Value {
			v := a[0]
			if i, ok := v.(int64); ok {
				if wd, s, ok := intInfo(r.t.T); ok {
					v = mkInt(normInt(i, wd, s))
				}
			}
			w.rvSet(r, v)
			return nil
		})
	}
	m("Slice", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		i, j := int(w.concretize(a[0])), int(w.concretize(a[1]))
		switch x := r.get().(type) {
		case string, *SymStr:
			if i < 0 || j < i || j > strLen(x) {
				panic(w.rtPanic("reflect.Value.Slice: string slice index out of bounds"))
			}
			return &RValue{t: r.t, v: strSlice(x, i, j)}
		case Slice:
			if i < 0 || j < i || j > cap(x.a) {
				panic(w.rtPanic("reflect.Value.Slice: slice index out of bounds"))
			}
			return &RValue{t: r.t, v: Slice{x.a[i:j]}}
		}
		panic(unsupported{"reflect Slice"})
	})
	m("MapIndex", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		mt := r.t.U.(*types.Map)
		mm := r.get().(*Map)
		k := w.rvAssign(asRV(a[0]), rtOf(mt.Key()), "MapIndex")
		i := w.mapFind(mm, k)
		if i < 0 {
			return rvZero
		}
		return &RValue{t: rtOf(mt.Elem()), v: mm.ents[i].v}
	})
	m("SetMapIndex", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		mt := r.t.U.(*types.Map)
		mm := r.get().(*Map)
		k := w.rvAssign(asRV(a[0]), rtOf(mt.Key()), "SetMapIndex")
		if asRV(a[1]).t == nil {
			w.mapDelete(mm, k)
			return nil
		}
		w.mapSet(mm, k, w.rvAssign(asRV(a[1]), rtOf(mt.Elem()), "SetMapIndex"))
		return nil
	})
	m("MapKeys", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		mt := r.t.U.(*types.Map)
		var out []Value
		if mm := r.get().(*Map); mm != nil {
			for i := range mm.ents {
				if mm.ents[i].live {
					out = append(out, &RValue{t: rtOf(mt.Key()), v: mm.ents[i].k})
				}
			}
		}
		if out == nil {
			out = []Value{}
		}
		return Slice{out}
	})
	m("MapRange", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		p := new(Value)
		*p = &rvMapIter{it: &mapIter{m: r.get().(*Map)}, mt: r.t.U.(*types.Map)}
		return p
	})
	natives["(*reflect.MapIter).Next"] = func(fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		it.cur = fr.w.mapNext(it.it)
		return it.cur != nil
	}
	natives["(*reflect.MapIter).Key"] = func(fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		return &RValue{t: rtOf(it.mt.Key()), v: it.cur.k}
	}
	natives["(*reflect.MapIter).Value"] = func(fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		return &RValue{t: rtOf(it.mt.Elem()), v: it.cur.v}
	}
	m("SetIterKey", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		w.rvSet(r, w.rvAssign(&RValue{t: rtOf(it.mt.Key()), v: it.cur.k}, r.t, "SetIterKey"))
		return nil
	})
	m("SetIterValue", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		w.rvSet(r, w.rvAssign(&RValue{t: rtOf(it.mt.Elem()), v: it.cur.v}, r.t, "SetIterValue"))
		return nil
	})
	m("Convert", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		t := asRT(a[0])
		if t.kind == reflect.Interface {
			return &RValue{t: t, v: w.rvAssign(r, t, "Convert")}
		}
		return &RValue{t: t, v: convFn(r.t.T, t.T)(w, r.get())}
	})
	m("CanConvert", func(w *Worker, r *RValue, a []Value, fr *frame) Value {
		return types.ConvertibleTo(r.t.T, asRT(a[0]).T)
	})
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		natives[pk+".ValueOf"] = func(fr *frame, a []Value) Value { return rvOf(a[0]) }
		natives[pk+".TypeOf"] = func(fr *frame, a []Value) Value {
			if a[0] == nil {
				return nil
			}
			return fr.w.rtype(a[0].(*Iface).t)
		}
		natives[pk+".Swapper"] = func(fr *frame, a []Value) Value {
			s := asSlice(a[0].(*Iface).v)
			return &Closure{native: func(fr *frame, b []Value) Value {
				i, j := int(fr.w.concretize(b[0])), int(fr.w.concretize(b[1]))
				if i == j {
					return nil
				}
				x, y := copyVal(s.a[i]), copyVal(s.a[j])
				fr.w.store(&s.a[i], y)
				fr.w.store(&s.a[j], x)
				return nil
			}}
		}
	}
	natives["reflect.New"] = func(fr *frame, a []Value) Value {
		t := asRT(a[0])
		p := new(Value)
		*p = zero(t.T)
		return &RValue{t: rtOf(types.NewPointer(t.T)), v: p}
	}
	natives["reflect.Zero"] = func(fr *frame, a []Value) Value {
		t := asRT(a[0])
		return &RValue{t: t, v: zero(t.T)}
	}
	natives["reflect.PointerTo"] = func(fr *frame, a []Value) Value {
		return fr.w.rtype(rtOf(types.NewPointer(asRT(a[0]).T)))
	}
	natives["reflect.PtrTo"] = natives["reflect.PointerTo"]
	natives["reflect.SliceOf"] = func(fr *frame, a []Value) Value {
		return fr.w.rtype(rtOf(types.NewSlice(asRT(a[0]).T)))
	}
	natives["reflect.Indirect"] = func(fr *frame, a []Value) Value {
		r := asRV(a[0])
		if r.t == nil || r.t.kind != reflect.Ptr {
			return r
		}
		return fr.w.rvElem(r)
	}
	natives["reflect.MakeSlice"] = func(fr *frame, a []Value) Value {
		t := asRT(a[0])
		n, c := int(fr.w.concretize(a[1])), int(fr.w.concretize(a[2]))
		s := make([]Value, c)
		for i := range s {
			s[i] = zero(t.U.(*types.Slice).Elem())
		}
		return &RValue{t: t, v: Slice{s[:n]}}
	}
	natives["reflect.MakeMap"] = func(fr *frame, a []Value) Value {
		t := asRT(a[0])
		return &RValue{t: t, v: fr.w.newMap(t.U.(*types.Map).Key())}
	}
	natives["reflect.Append"] = func(fr *frame, a []Value) Value {
		r := asRV(a[0])
		et := r.t.U.(*types.Slice).Elem()
		var add []Value
		for _, x := range asSlice(a[1]).a {
			add = append(add, fr.w.rvAssign(asRV(x), rtOf(et), "Append"))
		}
		return &RValue{t: r.t, v: fr.w.appendSlice(r.get().(Slice), add, et)}
	}
	natives["reflect.DeepEqual"] = func(fr *frame, a []Value) Value {
		return fr.w.deepEqual(a[0], a[1])
	}
}

func (w *Worker) deepEqual(a, b Value) Value {
	switch x := a.(type) {
	case *Iface:
		y, ok := b.(*Iface)
		if !ok || x.t != y.t {
			return false
		}
		return w.deepEqual(x.v, y.v)
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return w.deepEqual(*x, *y)
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			r = w.and(r, w.deepEqual(x[i], y[i]))
		}
		return r
	case Slice:
		y := b.(Slice)
		if (x.a == nil) != (y.a == nil) || len(x.a) != len(y.a) {
			return false
		}
		var r Value = true
		for i := range x.a {
			r = w.and(r, w.deepEqual(x.a[i], y.a[i]))
		}
		return r
	case nil:
		return b == nil
	case *Map, *Closure:
		unsup("DeepEqual on %T", a)
	}
	return w.equal(nil, a, b)
}

var _ = fmt.Sprint
