package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (k *compiler) unop(x *ssa.UnOp) instrFn {
	d, a := k.reg(x), k.op(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		if isAggregate(t) {
			return func(fr *frame) {
				if fr.w.race != nil {
					if p, ok := a.get(fr).(*Value); ok {
						fr.w.raceAll(p, fr, fr.w.raceRead)
					}
				}
				fr.r[d] = copyVal(fr.w.load(a.get(fr)))
			}
		}
		ew, es, isInt := intInfo(t)
		fine := k.c.module
		return func(fr *frame) {
			if p, ok := a.get(fr).(*Value); ok && p != nil {
				if fr.w.race != nil {
					if fine && fr.w.fine {
						fr.w.yield(true)
					}
					fr.w.raceRead(p, fr)
				}
				fr.r[d] = *p
				return
			}
			v := fr.w.load(a.get(fr))
			if isInt {
				v = fr.w.fixWidth(v, ew, es)
			}
			fr.r[d] = v
		}
	case token.NOT:
		return func(fr *frame) {
			v := a.get(fr)
			if b, ok := v.(bool); ok {
				fr.r[d] = !b
				return
			}
			fr.r[d] = fr.w.not(v)
		}
	case token.SUB:
		w, s, ok := intInfo(x.Type())
		if ok {
			return func(fr *frame) {
				switch v := a.get(fr).(type) {
				case int64:
					fr.r[d] = mkInt(normInt(-v, w, s))
				case *Expr:
					fr.r[d] = fr.w.lowerInt(fr.w.pool.Bin(OSub, fr.w.pool.Const(0, w), v), s)
				default:
					unsup("negate %T", v)
				}
			}
		}
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case float64:
				fr.r[d] = -v
			case complex128:
				fr.r[d] = -v
			default:
				unsup("negate %T", v)
			}
		}
	case token.XOR:
		w, s, _ := intInfo(x.Type())
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case int64:
				fr.r[d] = mkInt(normInt(^v, w, s))
			case *Expr:
				fr.r[d] = fr.w.lowerInt(fr.w.pool.Bin(OBxor, v, fr.w.pool.Const(mask(w), w)), s)
			default:
				unsup("complement %T", v)
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		ct := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.w.recv(a.get(fr).(*Chan), ct)
			if commaOk {
				fr.r[d] = Tuple{v, ok}
			} else {
				fr.r[d] = v
			}
		}
	}
	panic(unsupported{"unop " + x.Op.String()})
}

// lowerInt turns a constant expression into a concrete integer.
func (w *Worker) lowerInt(e *Expr, signed bool) Value {
	if e.op == OConst {
		return mkInt(normInt(int64(e.val), e.w, signed))
	}
	return e
}

func (w *Worker) intExpr(v Value, width uint8) *Expr {
	switch x := v.(type) {
	case int64:
		return w.pool.Const(uint64(x), width)
	case *Expr:
		if x.w != width {
			unsup("width %d where %d expected", x.w, width)
		}
		return x
	case Poison:
		panic(unsupported{"poison: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("integer expected, have %T", v)})
}

func (k *compiler) binop(x *ssa.BinOp) instrFn {
	d, a, b := k.reg(x), k.op(x.X), k.op(x.Y)
	t := x.X.Type()
	op := x.Op
	if op == token.EQL || op == token.NEQ {
		neq := op == token.NEQ
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if i, ok := u.(int64); ok {
				if j, ok := v.(int64); ok {
					fr.r[d] = (i == j) != neq
					return
				}
			}
			r := fr.w.equal(t, u, v)
			if neq {
				r = fr.w.not(r)
			}
			fr.r[d] = r
		}
	}
	if w, s, ok := intInfo(t); ok {
		return k.intOp(d, a, b, op, w, s, x.Y.Type())
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt == nil {
		panic(unsupported{"binop on " + t.String()})
	}
	switch {
	case bt.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.r[d] = strConcat(a.get(fr), b.get(fr)) }
		case token.LSS:
			return func(fr *frame) { fr.r[d] = fr.w.strLess(a.get(fr), b.get(fr), false) }
		case token.LEQ:
			return func(fr *frame) { fr.r[d] = fr.w.strLess(a.get(fr), b.get(fr), true) }
		case token.GTR:
			return func(fr *frame) { fr.r[d] = fr.w.strLess(b.get(fr), a.get(fr), false) }
		case token.GEQ:
			return func(fr *frame) { fr.r[d] = fr.w.strLess(b.get(fr), a.get(fr), true) }
		}
	case bt.Info()&types.IsFloat != 0:
		f32 := bt.Kind() == types.Float32
		return func(fr *frame) {
			p, ok1 := a.get(fr).(float64)
			q, ok2 := b.get(fr).(float64)
			if !ok1 || !ok2 {
				unsup("symbolic float")
			}
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				fr.r[d] = p < q
				return
			case token.LEQ:
				fr.r[d] = p <= q
				return
			case token.GTR:
				fr.r[d] = p > q
				return
			case token.GEQ:
				fr.r[d] = p >= q
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.r[d] = r
		}
	case bt.Info()&types.IsComplex != 0:
		return func(fr *frame) {
			p, q := a.get(fr).(complex128), b.get(fr).(complex128)
			switch op {
			case token.ADD:
				fr.r[d] = p + q
			case token.SUB:
				fr.r[d] = p - q
			case token.MUL:
				fr.r[d] = p * q
			case token.QUO:
				fr.r[d] = p / q
			}
		}
	case bt.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND, token.LAND:
			return func(fr *frame) { fr.r[d] = fr.w.and(a.get(fr), b.get(fr)) }
		case token.OR, token.LOR:
			return func(fr *frame) { fr.r[d] = fr.w.or(a.get(fr), b.get(fr)) }
		}
	}
	panic(unsupported{"binop " + op.String() + " on " + t.String()})
}

func (k *compiler) intOp(d int, a, b operand, op token.Token, w uint8, s bool, yt types.Type) instrFn {
	sym := func(o Op) instrFn {
		return nil
	}
	_ = sym
	bin := func(conc func(p, q int64) int64, o Op) instrFn {
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if p, ok := u.(int64); ok {
				if q, ok := v.(int64); ok {
					fr.r[d] = mkInt(normInt(conc(p, q), w, s))
					return
				}
			}
			wk := fr.w
			fr.r[d] = wk.lowerInt(wk.pool.Bin(o, wk.intExpr(u, w), wk.intExpr(v, w)), s)
		}
	}
	cmp := func(conc func(p, q int64) bool, o Op, swap bool) instrFn {
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if p, ok := u.(int64); ok {
				if q, ok := v.(int64); ok {
					fr.r[d] = conc(p, q)
					return
				}
			}
			wk := fr.w
			x, y := wk.intExpr(u, w), wk.intExpr(v, w)
			if swap {
				x, y = y, x
			}
			fr.r[d] = wk.lower(wk.pool.Cmp(o, x, y))
		}
	}
	switch op {
	case token.ADD:
		return bin(func(p, q int64) int64 { return p + q }, OAdd)
	case token.SUB:
		return bin(func(p, q int64) int64 { return p - q }, OSub)
	case token.MUL:
		return bin(func(p, q int64) int64 { return p * q }, OMul)
	case token.AND:
		return bin(func(p, q int64) int64 { return p & q }, OBand)
	case token.OR:
		return bin(func(p, q int64) int64 { return p | q }, OBor)
	case token.XOR:
		return bin(func(p, q int64) int64 { return p ^ q }, OBxor)
	case token.AND_NOT:
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if p, ok := u.(int64); ok {
				if q, ok := v.(int64); ok {
					fr.r[d] = mkInt(normInt(p&^q, w, s))
					return
				}
			}
			wk := fr.w
			ny := wk.pool.Bin(OBxor, wk.intExpr(v, w), wk.pool.Const(mask(w), w))
			fr.r[d] = wk.lowerInt(wk.pool.Bin(OBand, wk.intExpr(u, w), ny), s)
		}
	case token.QUO, token.REM:
		quo := op == token.QUO
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			wk := fr.w
			p, ok1 := u.(int64)
			q, ok2 := v.(int64)
			if ok1 && ok2 {
				if q == 0 {
					panic(wk.rtPanic("integer divide by zero"))
				}
				var r int64
				switch {
				case s && quo && q == -1:
					r = -p
				case s && q == -1:
					r = 0
				case s && quo:
					r = p / q
				case s:
					r = p % q
				case quo:
					r = int64(uint64(p) / uint64(q))
				default:
					r = int64(uint64(p) % uint64(q))
				}
				fr.r[d] = mkInt(normInt(r, w, s))
				return
			}
			x, y := wk.intExpr(u, w), wk.intExpr(v, w)
			if wk.truth(wk.lower(wk.pool.Eq(y, wk.pool.Const(0, w)))) {
				panic(wk.rtPanic("integer divide by zero"))
			}
			o := OUdiv
			switch {
			case s && quo:
				o = OSdiv
			case s:
				o = OSrem
			case !quo:
				o = OUrem
			}
			fr.r[d] = wk.lowerInt(wk.pool.Bin(o, x, y), s)
		}
	case token.SHL, token.SHR:
		yw, ys, _ := intInfo(yt)
		left := op == token.SHL
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			wk := fr.w
			p, ok1 := u.(int64)
			q, ok2 := v.(int64)
			if ok2 && ys && q < 0 {
				panic(wk.rtPanic("negative shift amount"))
			}
			if ok1 && ok2 {
				var r int64
				n := uint64(q)
				switch {
				case left && n >= 64:
					r = 0
				case left:
					r = p << n
				case s && n >= 64:
					r = p >> 63
				case s:
					r = p >> n
				case n >= 64:
					r = 0
				default:
					r = int64(uint64(p) & mask(w) >> n)
				}
				fr.r[d] = mkInt(normInt(r, w, s))
				return
			}
			y := wk.intExpr(v, yw)
			if ys && !ok2 {
				if wk.truth(wk.lower(wk.pool.Cmp(OSlt, y, wk.pool.Const(0, yw)))) {
					panic(wk.rtPanic("negative shift amount"))
				}
			}
			x := wk.intExpr(u, w)
			o := OShl
			if !left {
				o = OLshr
				if s {
					o = OAshr
				}
			}
			// bring the count to the operand's width, saturating
			var cnt *Expr
			switch {
			case yw == w:
				cnt = y
			case yw < w:
				cnt = wk.pool.Zext(y, w)
			default:
				big := wk.pool.Cmp(OUle, wk.pool.Const(uint64(w), yw), y)
				cnt = wk.pool.Ite(big, wk.pool.Const(uint64(w), w), wk.pool.Extract(y, w))
			}
			fr.r[d] = wk.lowerInt(wk.pool.Bin(o, x, cnt), s)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if s {
			lt, le = OSlt, OSle
		}
		if s || w < 64 {
			switch op {
			case token.LSS:
				return cmp(func(p, q int64) bool { return p < q }, lt, false)
			case token.LEQ:
				return cmp(func(p, q int64) bool { return p <= q }, le, false)
			case token.GTR:
				return cmp(func(p, q int64) bool { return p > q }, lt, true)
			default:
				return cmp(func(p, q int64) bool { return p >= q }, le, true)
			}
		}
		switch op {
		case token.LSS:
			return cmp(func(p, q int64) bool { return uint64(p) < uint64(q) }, lt, false)
		case token.LEQ:
			return cmp(func(p, q int64) bool { return uint64(p) <= uint64(q) }, le, false)
		case token.GTR:
			return cmp(func(p, q int64) bool { return uint64(p) > uint64(q) }, lt, true)
		default:
			return cmp(func(p, q int64) bool { return uint64(p) >= uint64(q) }, le, true)
		}
	}
	panic(unsupported{"integer operation " + op.String()})
}

// ---- conversions ----

func (k *compiler) convert(x ssa.Value, from, to types.Type, a operand) instrFn {
	d := k.reg(x)
	f := convFn(from, to)
	return func(fr *frame) { fr.r[d] = f(fr.w, a.get(fr)) }
}

func convFn(from, to types.Type) func(w *Worker, v Value) Value {
	if tp, ok := to.Underlying().(*types.TypeParam); ok {
		panic(unsupported{"conversion to " + tp.String()})
	}
	ut, uf := to.Underlying(), from.Underlying()
	fw, fs, fromInt := intInfo(from)
	tw, ts, toInt := intInfo(to)
	fb, _ := uf.(*types.Basic)
	tb, _ := ut.(*types.Basic)
	isFloat := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsFloat != 0 }
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	switch {
	case fromInt && toInt:
		if fw == tw && fs == ts {
			return func(w *Worker, v Value) Value { return v }
		}
		return func(w *Worker, v Value) Value {
			switch n := v.(type) {
			case int64:
				return mkInt(normInt(n, tw, ts))
			case *Expr:
				switch {
				case tw < fw:
					return w.lowerInt(w.pool.Extract(n, tw), ts)
				case tw > fw && fs:
					return w.lowerInt(w.pool.Sext(n, tw), ts)
				case tw > fw:
					return w.lowerInt(w.pool.Zext(n, tw), ts)
				}
				return n
			case Poison:
				return n
			}
			panic(unsupported{fmt.Sprintf("convert %T", v)})
		}
	case fromInt && isFloat(tb):
		return func(w *Worker, v Value) Value {
			n := w.concreteInt(v, fw, fs)
			var f float64
			if fs || fw < 64 {
				f = float64(n)
			} else {
				f = float64(uint64(n))
			}
			if tb.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	case isFloat(fb) && toInt:
		return func(w *Worker, v Value) Value {
			f := v.(float64)
			if !ts && tw == 64 {
				return mkInt(int64(uint64(f)))
			}
			return mkInt(normInt(int64(f), tw, ts))
		}
	case isFloat(fb) && isFloat(tb):
		return func(w *Worker, v Value) Value {
			if tb.Kind() == types.Float32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	case fromInt && isStr(tb):
		return func(w *Worker, v Value) Value {
			if n, ok := v.(int64); ok {
				if n < 0 || n > math.MaxInt32 {
					return string(utf8.RuneError)
				}
				return string(rune(n))
			}
			return mkStr(w.encodeRune(v, fw))
		}
	case isStr(fb) && isStr(tb):
		return func(w *Worker, v Value) Value { return v }
	case isStr(fb):
		et := ut.(*types.Slice).Elem()
		if b := et.Underlying().(*types.Basic); b.Kind() == types.Uint8 {
			return func(w *Worker, v Value) Value {
				n := strLen(v)
				c := roundupsize(n, 1)
				r := make([]Value, n, max(c, n))
				copy(r, strBytes(v))
				full := r[:cap(r)]
				for i := n; i < len(full); i++ {
					full[i] = mkInt(0)
				}
				return Slice{r}
			}
		}
		return func(w *Worker, v Value) Value {
			r := []Value{}
			for i := 0; i < strLen(v); {
				c, n := w.decodeRune(v, i)
				r = append(r, c)
				i += n
			}
			return Slice{r[:len(r):len(r)]}
		}
	case isStr(tb):
		if sl, ok := uf.(*types.Slice); ok {
			if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
				return func(w *Worker, v Value) Value {
					s := asSlice(v).a
					for _, x := range s {
						if _, ok := x.(int64); !ok {
							return mkStr(append([]Value(nil), s...))
						}
					}
					return mkStr(s)
				}
			}
			return func(w *Worker, v Value) Value {
				var r []Value
				for _, x := range asSlice(v).a {
					r = append(r, w.encodeRune(x, 32)...)
				}
				return mkStr(r)
			}
		}
	case fb != nil && fb.Kind() == types.UnsafePointer, tb != nil && tb.Kind() == types.UnsafePointer:
		return func(w *Worker, v Value) Value { return v }
	}
	if types.Identical(ut, uf) || fb != nil && tb != nil && fb.Info()&tb.Info()&types.IsComplex != 0 {
		return func(w *Worker, v Value) Value { return v }
	}
	if _, ok := ut.(*types.Pointer); ok {
		return func(w *Worker, v Value) Value { return v }
	}
	panic(unsupported{fmt.Sprintf("conversion %v to %v", from, to)})
}

// encodeRune gives the UTF-8 bytes of a rune value, forking on its size.
func (w *Worker) encodeRune(v Value, width uint8) []Value {
	if n, ok := v.(int64); ok {
		r := rune(utf8.RuneError)
		if n >= 0 && n <= math.MaxInt32 {
			r = rune(n)
		}
		var out []Value
		for _, b := range []byte(string(r)) {
			out = append(out, mkInt(int64(b)))
		}
		return out
	}
	e := w.intExpr(v, width)
	if width < 32 {
		e = w.pool.Zext(e, 32)
	} else if width > 32 {
		if !w.truth(w.lower(w.pool.Cmp(OUlt, e, w.pool.Const(1<<31, width)))) {
			return strBytes(string(utf8.RuneError))
		}
		e = w.pool.Extract(e, 32)
	}
	p := w.pool
	lt := func(n uint64) bool { return w.truth(w.lower(p.Cmp(OUlt, e, p.Const(n, 32)))) }
	byteOf := func(x *Expr) Value { return w.lowerInt(p.Extract(x, 8), false) }
	shr := func(n uint64) *Expr { return p.Bin(OLshr, e, p.Const(n, 32)) }
	low6 := func(x *Expr) Value {
		return byteOf(p.Bin(OBor, p.Const(0x80, 32), p.Bin(OBand, x, p.Const(0x3f, 32))))
	}
	switch {
	case lt(0x80):
		return []Value{byteOf(e)}
	case lt(0x800):
		return []Value{byteOf(p.Bin(OBor, p.Const(0xc0, 32), shr(6))), low6(e)}
	case w.truth(w.lower(p.And(p.Cmp(OUle, p.Const(0xd800, 32), e), p.Cmp(OUle, e, p.Const(0xdfff, 32))))):
		return strBytes(string(utf8.RuneError))
	case lt(0x10000):
		return []Value{byteOf(p.Bin(OBor, p.Const(0xe0, 32), shr(12))), low6(shr(6)), low6(e)}
	case lt(0x110000):
		return []Value{byteOf(p.Bin(OBor, p.Const(0xf0, 32), shr(18))), low6(shr(12)), low6(shr(6)), low6(e)}
	}
	return strBytes(string(utf8.RuneError))
}

// decodeRune decodes the rune of string s at i, forking on its form.
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	if g, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(g[i:])
		return mkInt(int64(r)), n
	}
	b := s.(*SymStr).b[i:]
	var conc [4]byte
	k := 0
	for k < len(b) && k < 4 {
		c, ok := b[k].(int64)
		if !ok {
			break
		}
		conc[k] = byte(c)
		k++
	}
	if k > 0 && (utf8.FullRune(conc[:k]) || k == len(b)) {
		r, n := utf8.DecodeRune(conc[:k])
		return mkInt(int64(r)), n
	}
	p := w.pool
	if w.truth(w.lower(p.Cmp(OUlt, w.byteExpr(b[0]), p.Const(0x80, 8)))) {
		return w.lowerInt(p.Zext(w.byteExpr(b[0]), 32), true), 1
	}
	// not ASCII: by the interpreted decoder
	t := w.call(codeOf(w.eng.fnDecodeRuneInString), []Value{mkStr(b)}, nil, w.frame).(Tuple)
	return t[0], int(w.concretize(t[1]))
}

// ---- builtins ----

func (k *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, as []operand) func(fr *frame) Value {
	switch b.Name() {
	case "len":
		a := as[0]
		return func(fr *frame) Value {
			switch x := a.get(fr).(type) {
			case string:
				return mkInt(int64(len(x)))
			case Slice:
				return mkInt(int64(len(x.a)))
			}
			return fr.w.builtinCall(b, c, []Value{a.get(fr)}, fr)
		}
	case "ssa:deferstack":
		return func(fr *frame) Value { return fr }
	}
	return func(fr *frame) Value { return fr.w.builtinCall(b, c, gather(fr, as), fr) }
}

func (w *Worker) builtinCall(b *ssa.Builtin, c *ssa.CallCommon, args []Value, fr *frame) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(unsupported{"poison: " + p.why})
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return mkInt(int64(strLen(x)))
		case Slice:
			return mkInt(int64(len(x.a)))
		case Array:
			return mkInt(int64(len(x)))
		case *Map:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(x.live))
		case *Chan:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(len(x.buf)))
		case *Value:
			t := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mkInt(t.Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkInt(int64(cap(x.a)))
		case Array:
			return mkInt(int64(len(x)))
		case *Chan:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(x.cap))
		case *Value:
			t := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mkInt(t.Len())
		}
	case "append":
		s := asSlice(args[0])
		var add []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			add = strBytes(y)
		case Slice:
			add = y.a
		default:
			unsup("append %T", y)
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if w.race != nil {
			if y, ok := args[1].(Slice); ok {
				w.raceSlice(y.a, fr, w.raceRead)
			}
			if n := len(s.a) + len(add); n <= cap(s.a) {
				w.raceSlice(s.a[len(s.a):n], fr, w.raceWrite)
			} else {
				w.raceSlice(s.a, fr, w.raceRead)
			}
		}
		return w.appendSlice(s, add, et)
	case "copy":
		d := asSlice(args[0])
		var src []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = strBytes(y)
		case Slice:
			src = y.a
		}
		if w.race != nil {
			n := min(len(d.a), len(src))
			w.raceSlice(src[:n], fr, w.raceRead)
			w.raceSlice(d.a[:n], fr, w.raceWrite)
		}
		return mkInt(int64(w.copyInto(d.a, src)))
	case "delete":
		if m := asMap(args[0]); w.race != nil && m != nil {
			w.raceWrite(m, fr)
		}
		w.mapDelete(asMap(args[0]), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				w.mapTouch(x)
				x.ents = nil
				x.idx = map[any]int{}
				x.live, x.nsym = 0, 0
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				w.store(&x.a[i], zero(et))
			}
		}
		return nil
	case "close":
		w.closeChan(args[0].(*Chan))
		return nil
	case "panic":
		panic(&TargetPanic{v: args[0], where: w.whereStr()})
	case "recover":
		if fr.caller != nil && fr.caller.panic != nil && !fr.caller.recov {
			fr.caller.recov = true
			return fr.caller.panic.v
		}
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		isMin := b.Name() == "min"
		r := args[0]
		t := c.Args[0].Type()
		width, signed, isInt := intInfo(t)
		for _, y := range args[1:] {
			var less Value
			switch {
			case isInt:
				p, ok1 := r.(int64)
				q, ok2 := y.(int64)
				if ok1 && ok2 {
					if signed || width < 64 {
						less = p < q
					} else {
						less = uint64(p) < uint64(q)
					}
				} else {
					o := OUlt
					if signed {
						o = OSlt
					}
					less = w.lower(w.pool.Cmp(o, w.intExpr(r, width), w.intExpr(y, width)))
				}
				if e, ok := less.(*Expr); ok {
					if !isMin {
						e = w.pool.Cmp(OUlt, w.intExpr(y, width), w.intExpr(r, width))
						if signed {
							e = w.pool.Cmp(OSlt, w.intExpr(y, width), w.intExpr(r, width))
						}
					}
					r = w.lowerInt(w.pool.Ite(e, w.intExpr(r, width), w.intExpr(y, width)), signed)
					continue
				}
			case strOK(r):
				less = w.strLess(r, y, false)
			default:
				less = r.(float64) < y.(float64)
			}
			if w.truth(less) != isMin {
				r = y
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(w.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	// package unsafe
	case "SliceData":
		s := asSlice(args[0])
		if cap(s.a) == 0 {
			p := new(Value)
			w.setSide(p, s.a)
			return p
		}
		p := &s.a[:1][0]
		w.setSide(p, s.a[:cap(s.a)])
		return p
	case "StringData":
		b := strBytes(args[0])
		c := append([]Value(nil), b...)
		if len(c) == 0 {
			p := new(Value)
			w.setSide(p, c)
			return p
		}
		w.setSide(&c[0], c)
		return &c[0]
	case "String":
		p, _ := args[0].(*Value)
		n := int(w.concretize(args[1]))
		if n == 0 {
			return ""
		}
		s := w.side(p)
		return mkStr(append([]Value(nil), s[:n]...))
	case "Slice":
		p, _ := args[0].(*Value)
		n := int(w.concretize(args[1]))
		if p == nil {
			return Slice{}
		}
		s := w.side(p)
		return Slice{s[:n:n]}
	}
	panic(unsupported{"builtin " + b.Name()})
}

func strOK(v Value) bool {
	switch v.(type) {
	case string, *SymStr:
		return true
	}
	return false
}

type sideKey struct{ p *Value }

func (w *Worker) setSide(p *Value, s []Value) { w.state[sideKey{p}] = s }
func (w *Worker) side(p *Value) []Value {
	s, ok := w.state[sideKey{p}].([]Value)
	if !ok {
		unsup("unsafe pointer arithmetic")
	}
	return s
}

func (w *Worker) copyInto(d, src []Value) int {
	n := min(len(d), len(src))
	if n == 0 {
		return 0
	}
	if &d[0] == &src[0] {
		return n
	}
	tmp := make([]Value, n)
	for i := range tmp {
		tmp[i] = copyVal(src[i])
	}
	for i := range tmp {
		w.store(&d[i], tmp[i])
	}
	return n
}

var sizes64 = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundupsize gives the capacity in elements the Go allocator hands out.
func roundupsize(n, size int) int {
	if size == 0 {
		return n
	}
	b := n * size
	if b <= 32768 {
		lo, hi := 0, len(sizeClasses)-1
		for lo < hi {
			m := (lo + hi) / 2
			if sizeClasses[m] >= b {
				hi = m
			} else {
				lo = m + 1
			}
		}
		b = sizeClasses[lo]
	} else {
		b = (b + 8191) &^ 8191
	}
	return b / size
}

func (w *Worker) appendSlice(s Slice, add []Value, et types.Type) Value {
	n := len(s.a) + len(add)
	if len(add) == 0 {
		return s
	}
	agg := isAggregate(et)
	if n <= cap(s.a) {
		r := s.a[:n]
		if len(add) > 1 {
			add = append([]Value(nil), add...) // may overlap
		}
		for i, x := range add {
			if agg {
				x = copyVal(x)
			}
			w.set(&r[len(s.a)+i], x)
		}
		return Slice{r}
	}
	c := n
	old := cap(s.a)
	if n <= 2*old {
		const threshold = 256
		if old < threshold {
			c = 2 * old
		} else {
			c = old
			for c < n {
				c += (c + 3*threshold) / 4
			}
		}
	}
	c = roundupsize(c, int(sizes64.Sizeof(et)))
	if c < n {
		c = n
	}
	r := make([]Value, n, c)
	copy(r, s.a)
	for i, x := range add {
		if agg {
			x = copyVal(x)
		}
		r[len(s.a)+i] = x
	}
	full := r[:c]
	if agg {
		for i := range s.a {
			full[i] = copyVal(full[i])
		}
	}
	if c > n {
		z := zero(et)
		for i := n; i < c; i++ {
			if agg {
				z = zero(et)
			}
			full[i] = z
		}
	}
	return Slice{r}
}
