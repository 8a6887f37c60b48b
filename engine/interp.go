package main

// Translation of go/ssa functions to closures, and their execution.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type instrFn func(fr *frame)

type edge struct {
	to   int // block
	pred int // index among its predecessors
}

type phiInfo struct {
	dst int
	src []operand // per predecessor
}

type block struct {
	phis []phiInfo
	ins  []instrFn
	term func(fr *frame) int // successor ordinal, -1 return
	succ []edge
}

type fnCode struct {
	fn       *ssa.Function
	once     sync.Once
	native   func(fr *frame, args []Value) Value
	blocks   []block
	nregs    int
	params   []int
	hasDefer bool
	recover  int // block index or -1
	module   bool
	track    bool // accesses count for race detection
	pkg      string
	used     atomic.Bool
	err      string
	name     string
	isInit   bool
}

type deferred struct {
	call func(fr *frame)
}

type frame struct {
	w      *Worker
	th     *Thread
	code   *fnCode
	r      []Value
	fv     []Value
	caller *frame
	pred   int
	result Value
	defers []func(fr *frame)
	panic  *TargetPanic // while running deferred calls
	recov  bool
}

type operand struct {
	reg int // -1: constant, -2: global, -3: free variable
	k   Value
	g   int
}

func (o *operand) get(fr *frame) Value {
	if o.reg >= 0 {
		return fr.r[o.reg]
	}
	return o.slow(fr)
}

func (o *operand) slow(fr *frame) Value {
	switch o.reg {
	case -1:
		return o.k
	case -2:
		return fr.w.global(o.g)
	default:
		return fr.fv[o.g]
	}
}

var codeCache sync.Map // *ssa.Function -> *fnCode

func codeOf(fn *ssa.Function) *fnCode {
	if c, ok := codeCache.Load(fn); ok {
		return c.(*fnCode)
	}
	c := &fnCode{fn: fn, name: fn.String(), recover: -1}
	r, _ := codeCache.LoadOrStore(fn, c)
	return r.(*fnCode)
}

// global numbering
var (
	globMu   sync.RWMutex
	globIdx  = map[*ssa.Global]int{}
	globList []*ssa.Global
)

func globalIndex(g *ssa.Global) int {
	globMu.Lock()
	defer globMu.Unlock()
	i, ok := globIdx[g]
	if !ok {
		i = len(globList)
		globIdx[g] = i
		globList = append(globList, g)
	}
	return i
}

func (w *Worker) global(i int) Value {
	if i < len(w.globals) {
		if p := w.globals[i]; p != nil {
			return p
		}
	}
	globMu.RLock()
	g := globList[i]
	n := len(globList)
	globMu.RUnlock()
	w.ensureGlobals(n)
	w.initPackage(g.Pkg)
	if w.globals[i] == nil {
		// a synthetic global such as init$guard of a package skipped so far
		w.allocGlobal(g)
	}
	return w.globals[i]
}

func (w *Worker) ensureGlobals(n int) {
	for len(w.globals) < n {
		w.globals = append(w.globals, nil)
	}
}

func (w *Worker) allocGlobal(g *ssa.Global) {
	i := globalIndex(g)
	w.ensureGlobals(i + 1)
	if w.globals[i] != nil {
		return
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	w.globals[i] = p
}

// initPackage allocates the package's variables and runs its initialiser
// (imports are initialised on demand in the same way).
func (w *Worker) initPackage(p *ssa.Package) {
	if w.eng.inited[w.id][p] {
		return
	}
	w.eng.inited[w.id][p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			w.allocGlobal(g)
		}
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	savedLog, savedEpoch, savedSteps := w.logging, w.epoch, w.steps
	savedFrame, savedDepth := w.frame, w.depth
	savedDecs, savedPrefix := w.decs, w.prefix
	w.decs, w.prefix = nil, nil
	w.logging = false
	w.epoch = 0
	w.initing++
	th := w.cur
	w.cur = w.newThread()
	w.call(codeOf(init), nil, nil, nil)
	w.cur = th
	w.initing--
	if len(w.decs) != 0 {
		unsup("symbolic decision while initialising %s", p.Pkg.Path())
	}
	w.logging, w.epoch, w.steps = savedLog, savedEpoch, savedSteps
	w.frame, w.depth = savedFrame, savedDepth
	w.decs, w.prefix = savedDecs, savedPrefix
}

const maxDepth = 6000

func (w *Worker) call(code *fnCode, args []Value, fv []Value, caller *frame) Value {
	code.once.Do(func() { compile(code) })
	if !code.used.Load() {
		code.used.Store(true)
	}
	th := w.cur
	if code.native != nil {
		if caller == nil {
			caller = &frame{w: w, th: th}
		}
		return code.native(caller, args)
	}
	if code.err != "" {
		unsup("%s: %s", code.name, code.err)
	}
	w.depth++
	if w.depth > maxDepth {
		panic(&TargetPanic{v: w.errIface("stack overflow"), fatal: true, where: code.name})
	}
	fr := &frame{w: w, th: th, code: code, fv: fv, caller: caller}
	fr.r = th.alloc(code.nregs)
	for i, p := range code.params {
		fr.r[p] = args[i]
	}
	w.frame = fr
	if code.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	th.free(code.nregs)
	w.depth--
	w.frame = caller
	return fr.result
}

func (fr *frame) run(b int) {
	w := fr.w
	blocks := fr.code.blocks
	for {
		blk := &blocks[b]
		if len(blk.phis) > 0 {
			fr.doPhis(blk)
		}
		for _, in := range blk.ins {
			in(fr)
		}
		w.steps += int64(len(blk.ins)) + 1
		if w.steps > w.stepLimit && w.initing == 0 {
			panic(pathEnd{kind: "steps"})
		}
		s := blk.term(fr)
		if s < 0 {
			return
		}
		e := blk.succ[s]
		fr.pred = e.pred
		b = e.to
	}
}

func (fr *frame) doPhis(blk *block) {
	if len(blk.phis) == 1 {
		p := &blk.phis[0]
		fr.r[p.dst] = p.src[fr.pred].get(fr)
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range blk.phis {
		vals = append(vals, blk.phis[i].src[fr.pred].get(fr))
	}
	for i := range blk.phis {
		fr.r[blk.phis[i].dst] = vals[i]
	}
}

// runWithDefers runs a function that has defer statements.
func (fr *frame) runWithDefers() {
	w := fr.w
	th := fr.th
	sp := th.mark()
	depth := w.depth
	tp := fr.protect(func() { fr.run(0) })
	for tp != nil {
		th.reset(sp)
		w.depth = depth
		w.frame = fr
		if tp.fatal {
			panic(tp)
		}
		fr.panic = tp
		fr.recov = false
		var next *TargetPanic
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			next = fr.protect(func() { d(fr) })
			if next != nil {
				break
			}
			if fr.recov {
				break
			}
		}
		if next != nil {
			tp = next
			continue
		}
		if fr.recov {
			fr.panic = nil
			fr.recov = false
			// run the remaining deferred calls, then return normally
			tp = fr.protect(func() {
				fr.runDefers()
				if fr.code.recover >= 0 {
					fr.run(fr.code.recover)
				} else {
					fr.result = zeroResult(fr.code.fn.Signature)
				}
			})
			continue
		}
		panic(tp)
	}
}

func zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

// protect runs f and returns the target panic it ended with, if any.
func (fr *frame) protect(f func()) (tp *TargetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*TargetPanic); ok {
				tp = p
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d(fr)
	}
}

// ---- panics ----

func (w *Worker) errIface(msg string) Value {
	return &Iface{w.eng.rtErrString, msg}
}

func (w *Worker) rtPanic(msg string) *TargetPanic {
	return &TargetPanic{v: w.errIface(msg), where: w.whereStr()}
}

func (w *Worker) nilDeref() *TargetPanic {
	return w.rtPanic("invalid memory address or nil pointer dereference")
}

// ---- memory ----

func (w *Worker) load(p Value) Value {
	switch q := p.(type) {
	case *Value:
		if q == nil {
			panic(w.nilDeref())
		}
		return *q
	case *SymPtr:
		return w.selectSym(q.a, q.idx)
	case Poison:
		panic(unsupported{"poison: " + q.why})
	}
	panic(unsupported{fmt.Sprintf("load from %T", p)})
}

func (w *Worker) ptr(p Value) *Value {
	switch q := p.(type) {
	case *Value:
		if q == nil {
			panic(w.nilDeref())
		}
		return q
	case *SymPtr:
		i := w.concretize(q.idx)
		return &q.a[i]
	case Poison:
		panic(unsupported{"poison: " + q.why})
	}
	panic(unsupported{fmt.Sprintf("address %T", p)})
}

func (w *Worker) store(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			// copy first: x may alias parts of old
			for i := range x {
				w.store(&old[i], x[i])
			}
			return
		}
		w.set(p, copyVal(x))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				w.store(&old[i], x[i])
			}
			return
		}
		w.set(p, copyVal(x))
	default:
		w.set(p, v)
	}
}

// selectSym is a[idx] for symbolic idx (already known to be in range).
func (w *Worker) selectSym(a []Value, idx *Expr) Value {
	n := len(a)
	width := uint8(0)
	ok := true
	isBool := false
	for _, x := range a {
		switch y := x.(type) {
		case int64:
		case bool:
			isBool = true
		case *Expr:
			if y.w == 0 {
				isBool = true
			} else {
				width = y.w
			}
		default:
			ok = false
		}
		if !ok {
			break
		}
	}
	if !ok || n > 4096 {
		return a[w.concretize(idx)]
	}
	if isBool {
		width = 0
	} else if width == 0 {
		width = 64
	}
	lift := func(v Value) *Expr {
		switch y := v.(type) {
		case int64:
			return w.pool.Const(uint64(y), width)
		case bool:
			return w.pool.Bool(y)
		}
		return v.(*Expr)
	}
	// runs of equal elements, from the end
	r := lift(a[n-1])
	i := n - 1
	for i > 0 {
		e := lift(a[i-1])
		j := i - 1
		for j > 0 && lift(a[j-1]) == e {
			j--
		}
		if e != r {
			c := w.pool.Cmp(OUlt, idx, w.pool.Const(uint64(i), idx.w))
			if idx.w < 63 && i >= 1<<idx.w {
				c = w.pool.True
			}
			r = w.pool.Ite(c, e, r)
		}
		i = j
	}
	return w.lowerW(r)
}

// lowerW turns constants into concrete values. Integers are returned at the
// element's own width by the caller (fixWidth).
func (w *Worker) lowerW(e *Expr) Value {
	if e.op == OConst {
		if e.w == 0 {
			return e.val != 0
		}
		return mkInt(sext(e.val, e.w))
	}
	return e
}

// ---- compilation ----

func compile(c *fnCode) {
	fn := c.fn
	if nat := nativeFor(fn); nat != nil {
		c.native = nat
		return
	}
	if r := redirectFor(fn); r != nil {
		rc := codeOf(r)
		c.native = func(fr *frame, args []Value) Value {
			return fr.w.call(rc, args, nil, fr)
		}
		return
	}
	if fn.Blocks == nil {
		c.err = "no body"
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				c.err = u.msg
				return
			}
			panic(r)
		}
	}()
	if p := fn.Package(); p != nil {
		c.pkg = p.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Package() != nil {
		c.pkg = o.Package().Pkg.Path()
	}
	c.module = isModule(c.pkg)
	c.track = !strings.HasPrefix(c.pkg, modPath+"/zz_verif") && c.pkg != "sync" && c.pkg != "internal/sync"
	c.isInit = fn.Synthetic == "package initializer"
	k := &compiler{c: c, regs: map[ssa.Value]int{}, fvs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.params = append(c.params, k.reg(p))
	}
	for i, f := range fn.FreeVars {
		k.fvs[f] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.reg(v)
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				c.hasDefer = true
			}
		}
	}
	c.blocks = make([]block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		k.block(&c.blocks[i], b)
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	c.nregs = k.n
}

type compiler struct {
	c    *fnCode
	regs map[ssa.Value]int
	fvs  map[ssa.Value]int
	n    int
}

func (k *compiler) reg(v ssa.Value) int {
	if i, ok := k.regs[v]; ok {
		return i
	}
	i := k.n
	k.n++
	k.regs[v] = i
	return i
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			if w == 64 && !s {
				return mkInt(int64(c.Uint64()))
			}
			return mkInt(c.Int64())
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	}
	panic(unsupported{fmt.Sprintf("constant %v", c)})
}

func (k *compiler) op(v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, k: constVal(x)}
	case *ssa.Global:
		return operand{reg: -2, g: globalIndex(x)}
	case *ssa.Function:
		return operand{reg: -1, k: &Closure{code: codeOf(x)}}
	case *ssa.Builtin:
		return operand{reg: -1, k: x.Name()}
	case *ssa.FreeVar:
		return operand{reg: -3, g: k.fvs[x]}
	}
	return operand{reg: k.reg(v)}
}

func (k *compiler) ops(vs []ssa.Value) []operand {
	r := make([]operand, len(vs))
	for i, v := range vs {
		r[i] = k.op(v)
	}
	return r
}

func (k *compiler) block(out *block, b *ssa.BasicBlock) {
	for si, s := range b.Succs {
		// the si-th edge from b to s is the n-th occurrence of b among s.Preds
		n := 0
		for _, t := range b.Succs[:si] {
			if t == s {
				n++
			}
		}
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				if n == 0 {
					pi = i
					break
				}
				n--
			}
		}
		out.succ = append(out.succ, edge{s.Index, pi})
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			out.phis = append(out.phis, phiInfo{k.reg(x), k.ops(x.Edges)})
		case *ssa.DebugRef:
		case *ssa.If:
			c := k.op(x.Cond)
			out.term = func(fr *frame) int {
				v := c.get(fr)
				if b, ok := v.(bool); ok {
					if b {
						return 0
					}
					return 1
				}
				if fr.w.truth(v) {
					return 0
				}
				return 1
			}
		case *ssa.Jump:
			out.term = func(fr *frame) int { return 0 }
		case *ssa.Return:
			rs := k.ops(x.Results)
			switch len(rs) {
			case 0:
				out.term = func(fr *frame) int { return -1 }
			case 1:
				r := rs[0]
				out.term = func(fr *frame) int { fr.result = r.get(fr); return -1 }
			default:
				out.term = func(fr *frame) int {
					t := make(Tuple, len(rs))
					for i := range rs {
						t[i] = rs[i].get(fr)
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			v := k.op(x.X)
			out.term = func(fr *frame) int {
				pv := v.get(fr)
				if pv == nil {
					panic(fr.w.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)"))
				}
				panic(&TargetPanic{v: pv, where: fr.w.whereStr()})
			}
		default:
			f := k.tryInstr(in)
			if f != nil {
				out.ins = append(out.ins, f)
			}
		}
	}
	if out.term == nil {
		out.term = func(fr *frame) int { panic(unsupported{"block without terminator"}) }
	}
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

// tryInstr compiles an instruction; one outside the encoding stops the paths
// that reach it.
func (k *compiler) tryInstr(in ssa.Instruction) (f instrFn) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			f = func(fr *frame) { panic(u) }
		}
	}()
	return k.instr(in)
}

func (k *compiler) instr(in ssa.Instruction) instrFn {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := k.reg(x)
		t := deref(x.Type())
		if isAggregate(t) || isReflectValue(t) {
			return func(fr *frame) {
				p := new(Value)
				*p = zero(t)
				fr.r[d] = p
			}
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.r[d] = p
		}
	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		fine := k.c.module
		if isAggregate(x.Val.Type()) {
			return func(fr *frame) {
				val := v.get(fr)
				p := fr.w.ptr(a.get(fr))
				if fr.w.race != nil {
					fr.w.raceAll(p, fr, fr.w.raceWrite)
				}
				// the source may alias the destination
				fr.w.store(p, val)
			}
		}
		return func(fr *frame) {
			val := v.get(fr)
			w := fr.w
			p, ok := a.get(fr).(*Value)
			if !ok || p == nil {
				p = w.ptr(a.get(fr))
			}
			if w.race != nil {
				if fine && w.fine {
					w.yield(true)
				}
				w.raceWrite(p, fr)
			}
			if w.logging {
				w.undo = append(w.undo, undoEnt{p: p, v: *p})
			}
			*p = val
		}
	case *ssa.UnOp:
		return k.unop(x)
	case *ssa.BinOp:
		return k.binop(x)
	case *ssa.Call:
		d := k.reg(x)
		f := k.call(&x.Call)
		if k.c.isInit {
			name := x.String()
			return func(fr *frame) {
				w := fr.w
				th := w.cur
				sp, depth := th.mark(), w.depth
				defer func() {
					if r := recover(); r != nil {
						why := ""
						switch u := r.(type) {
						case unsupported:
							why = u.msg
						case *TargetPanic:
							why = "panic " + show(u.v) + " at " + u.where
						case fatal, pathEnd:
							panic(r)
						default:
							why = fmt.Sprint(r)
						}
						th.reset(sp)
						w.depth = depth
						w.cur = th
						w.frame = fr
						w.eng.notePoison(k.c.fn.Pkg.Pkg.Path() + ": " + name + ": " + why)
						fr.r[d] = Poison{why}
					}
				}()
				fr.r[d] = f(fr)
			}
		}
		return func(fr *frame) { fr.r[d] = f(fr) }
	case *ssa.Defer:
		f := k.deferCall(&x.Call)
		if x.DeferStack != nil {
			ds := k.op(x.DeferStack)
			return func(fr *frame) {
				g := f(fr)
				target := ds.get(fr).(*frame)
				target.defers = append(target.defers, g)
			}
		}
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		f := k.deferCall(&x.Call)
		return func(fr *frame) {
			g := f(fr)
			fr.w.spawn(fr, func(fr2 *frame) { g(fr2) })
		}
	case *ssa.ChangeInterface:
		d, a := k.reg(x), k.op(x.X)
		return func(fr *frame) { fr.r[d] = a.get(fr) }
	case *ssa.ChangeType:
		d, a := k.reg(x), k.op(x.X)
		return func(fr *frame) { fr.r[d] = a.get(fr) }
	case *ssa.Convert:
		return k.convert(x, x.X.Type(), x.Type(), k.op(x.X))
	case *ssa.MultiConvert:
		panic(unsupported{"MultiConvert"})
	case *ssa.SliceToArrayPointer:
		d, a := k.reg(x), k.op(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := a.get(fr).(Slice)
			if len(s.a) < n {
				panic(fr.w.rtPanic("cannot convert slice to array pointer: too short"))
			}
			if s.a == nil {
				fr.r[d] = (*Value)(nil)
				return
			}
			p := new(Value)
			*p = Array(s.a[:n:n])
			fr.r[d] = p
		}
	case *ssa.MakeInterface:
		d, a := k.reg(x), k.op(x.X)
		t := rtOf(x.X.Type())
		return func(fr *frame) { fr.r[d] = &Iface{t, a.get(fr)} }
	case *ssa.MakeClosure:
		d := k.reg(x)
		code := codeOf(x.Fn.(*ssa.Function))
		bs := k.ops(x.Bindings)
		return func(fr *frame) {
			fv := make([]Value, len(bs))
			for i := range bs {
				fv[i] = bs[i].get(fr)
			}
			fr.r[d] = &Closure{code: code, fv: fv}
		}
	case *ssa.MakeMap:
		d := k.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.r[d] = fr.w.newMap(kt) }
	case *ssa.MakeChan:
		d, a := k.reg(x), k.op(x.Size)
		return func(fr *frame) { fr.r[d] = &Chan{cap: int(fr.w.concretize(a.get(fr)))} }
	case *ssa.MakeSlice:
		d := k.reg(x)
		l, c := k.op(x.Len), k.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		agg := isAggregate(et)
		var z Value
		if !agg {
			z = zero(et)
		}
		return func(fr *frame) {
			n := int(fr.w.concretize(l.get(fr)))
			m := int(fr.w.concretize(c.get(fr)))
			if n < 0 {
				panic(fr.w.rtPanic("makeslice: len out of range"))
			}
			if m < n {
				panic(fr.w.rtPanic("makeslice: cap out of range"))
			}
			if m > 1<<22 {
				unsup("make of %d elements", m)
			}
			s := make([]Value, m)
			if agg {
				for i := range s {
					s[i] = zero(et)
				}
			} else {
				for i := range s {
					s[i] = z
				}
			}
			fr.r[d] = Slice{s[:n]}
		}
	case *ssa.MapUpdate:
		m, key, v := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		return func(fr *frame) {
			mm := asMap(m.get(fr))
			if mm == nil {
				panic(fr.w.rtPanic("assignment to entry in nil map"))
			}
			if fr.w.race != nil {
				fr.w.raceWrite(mm, fr)
			}
			fr.w.mapSet(mm, key.get(fr), v.get(fr))
		}
	case *ssa.Lookup:
		return k.lookup(x)
	case *ssa.Range:
		d, a := k.reg(x), k.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) {
				it := &mapIter{m: asMap(a.get(fr)), free: fr.w.free && (fr.code.module || fr.code.pkg == "maps")}
				if it.free {
					fr.w.deviate(it)
				}
				fr.r[d] = it
			}
		}
		return func(fr *frame) { fr.r[d] = &strIter{s: a.get(fr)} }
	case *ssa.Next:
		d, a := k.reg(x), k.op(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := a.get(fr).(*strIter)
				if it.i >= strLen(it.s) {
					fr.r[d] = Tuple{false, mkInt(0), mkInt(0)}
					return
				}
				r, n := fr.w.decodeRune(it.s, it.i)
				fr.r[d] = Tuple{true, mkInt(int64(it.i)), r}
				it.i += n
			}
		}
		return func(fr *frame) {
			it := a.get(fr).(*mapIter)
			if fr.w.race != nil && it.m != nil {
				fr.w.raceRead(it.m, fr)
			}
			e := fr.w.mapNext(it)
			if e == nil {
				fr.r[d] = Tuple{false, nil, nil}
				return
			}
			fr.r[d] = Tuple{true, e.k, e.v}
		}
	case *ssa.Extract:
		d, a, i := k.reg(x), k.op(x.Tuple), x.Index
		return func(fr *frame) {
			t, ok := a.get(fr).(Tuple)
			if !ok {
				if p, isP := a.get(fr).(Poison); isP {
					fr.r[d] = p
					return
				}
				unsup("extract from %T", a.get(fr))
			}
			fr.r[d] = t[i]
		}
	case *ssa.Field:
		d, a, i := k.reg(x), k.op(x.X), x.Field
		return func(fr *frame) { fr.r[d] = asStruct(a.get(fr))[i] }
	case *ssa.FieldAddr:
		d, a, i := k.reg(x), k.op(x.X), x.Field
		return func(fr *frame) {
			p, ok := a.get(fr).(*Value)
			if !ok || p == nil {
				p = fr.w.ptr(a.get(fr))
			}
			s, ok := (*p).(Struct)
			if !ok {
				s = asStruct(*p)
			}
			fr.r[d] = &s[i]
		}
	case *ssa.Index:
		d, a, i := k.reg(x), k.op(x.X), k.op(x.Index)
		iw, is, _ := intInfo(x.Index.Type())
		ew, es, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := a.get(fr)
			switch s := v.(type) {
			case Array:
				fr.r[d] = fr.w.index(s, i.get(fr), iw, is, ew, es)
			default:
				fr.r[d] = fr.w.strIndex(v, i.get(fr), iw, is)
			}
		}
	case *ssa.IndexAddr:
		return k.indexAddr(x)
	case *ssa.Slice:
		return k.slice(x)
	case *ssa.TypeAssert:
		return k.typeAssert(x)
	case *ssa.Send:
		c, v := k.op(x.Chan), k.op(x.X)
		return func(fr *frame) { fr.w.send(c.get(fr).(*Chan), v.get(fr)) }
	case *ssa.Select:
		return k.selectStmt(x)
	}
	panic(unsupported{fmt.Sprintf("instruction %T", in)})
}

func asStruct(v Value) Struct {
	switch s := v.(type) {
	case Struct:
		return s
	case Poison:
		panic(unsupported{"poison: " + s.why})
	}
	panic(unsupported{fmt.Sprintf("struct expected, have %T", v)})
}

func asMap(v Value) *Map {
	switch m := v.(type) {
	case *Map:
		return m
	case Poison:
		panic(unsupported{"poison: " + m.why})
	}
	panic(unsupported{fmt.Sprintf("map expected, have %T", v)})
}

func asSlice(v Value) Slice {
	switch m := v.(type) {
	case Slice:
		return m
	case Poison:
		panic(unsupported{"poison: " + m.why})
	}
	panic(unsupported{fmt.Sprintf("slice expected, have %T", v)})
}

// maxFreeMap is the size up to which every order of a map is explored; bigger
// ones are also iterated backwards.
const maxFreeMap = 3

// deviate decides whether the iteration it takes another order than that of
// insertion; a limited number of iterations of a path do.
func (w *Worker) deviate(it *mapIter) {
	it.free = false
	if it.m == nil || w.freeLeft == 0 {
		return
	}
	live := 0
	for i := range it.m.ents {
		if it.m.ents[i].live {
			live++
		}
	}
	if live < 2 || w.choose(2) == 0 {
		return
	}
	w.freeLeft--
	it.free, it.back, it.seen = true, live > maxFreeMap, map[int]bool{}
}

func (w *Worker) mapNext(it *mapIter) *mapEntry {
	m := it.m
	if m == nil {
		return nil
	}
	if it.free {
		var cand []int
		for i := range m.ents {
			if m.ents[i].live && !it.seen[i] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		i := cand[len(cand)-1]
		if len(cand) <= maxFreeMap && !it.back {
			i = cand[w.choose(len(cand))]
		}
		it.seen[i] = true
		return &m.ents[i]
	}
	for it.next < len(m.ents) {
		e := &m.ents[it.next]
		it.next++
		if e.live {
			return e
		}
	}
	return nil
}

// inRange decides 0 <= i < n for an index value and returns it as a concrete
// int or an expression.
func (w *Worker) inRange(iv Value, n int, iw uint8, signed bool) (int, *Expr) {
	switch i := iv.(type) {
	case int64:
		if i < 0 && signed || uint64(i) >= uint64(n) {
			panic(w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	case *Expr:
		var c *Expr
		if i.w < 63 && uint64(n) > mask(i.w) && (!signed) {
			c = w.pool.True
		} else {
			// unsigned comparison also excludes negative values, if n fits
			if signed && i.w < 64 && uint64(n) > mask(i.w)>>1 {
				c = w.pool.Cmp(OSle, w.pool.Const(0, i.w), i)
			} else {
				c = w.pool.Cmp(OUlt, i, w.pool.Const(uint64(n), i.w))
			}
		}
		if !w.truth(w.lower(c)) {
			panic(w.rtPanic("index out of range"))
		}
		if i.op == OConst {
			return int(i.val), nil
		}
		return 0, i
	case Poison:
		panic(unsupported{"poison: " + i.why})
	}
	panic(unsupported{fmt.Sprintf("index %T", iv)})
}

func (w *Worker) fixWidth(v Value, ew uint8, es bool) Value {
	if e, ok := v.(*Expr); ok && e.w == 64 && ew != 64 && ew != 0 {
		r := w.pool.Extract(e, ew)
		if r.op == OConst {
			return mkInt(normInt(int64(r.val), ew, es))
		}
		return r
	}
	return v
}

func (w *Worker) index(a []Value, iv Value, iw uint8, is bool, ew uint8, es bool) Value {
	i, e := w.inRange(iv, len(a), iw, is)
	if e == nil {
		return a[i]
	}
	return w.fixWidth(w.selectSym(a, e), ew, es)
}

func (w *Worker) strIndex(s Value, iv Value, iw uint8, is bool) Value {
	i, e := w.inRange(iv, strLen(s), iw, is)
	if e == nil {
		return strAt(s, i)
	}
	return w.fixWidth(w.selectSym(strBytes(s), e), 8, false)
}

func (k *compiler) indexAddr(x *ssa.IndexAddr) instrFn {
	d, a, i := k.reg(x), k.op(x.X), k.op(x.Index)
	iw, is, _ := intInfo(x.Index.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		w := fr.w
		var s []Value
		v := a.get(fr)
		if isPtr {
			p := w.ptr(v)
			arr, ok := (*p).(Array)
			if !ok {
				if po, isP := (*p).(Poison); isP {
					panic(unsupported{"poison: " + po.why})
				}
				unsup("indexaddr of %T", *p)
			}
			s = arr
		} else {
			sl, ok := v.(Slice)
			if !ok {
				sl = asSlice(v)
			}
			s = sl.a
		}
		iv := i.get(fr)
		if n, ok := iv.(int64); ok && n >= 0 && n < int64(len(s)) {
			fr.r[d] = &s[n]
			return
		}
		n, e := w.inRange(iv, len(s), iw, is)
		if e == nil {
			fr.r[d] = &s[n]
			return
		}
		fr.r[d] = &SymPtr{s, e}
	}
}

func (k *compiler) slice(x *ssa.Slice) instrFn {
	d, a := k.reg(x), k.op(x.X)
	var lo, hi, mx *operand
	get := func(v ssa.Value) *operand {
		if v == nil {
			return nil
		}
		o := k.op(v)
		return &o
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	idx := func(fr *frame, o *operand, def int) int {
		if o == nil {
			return def
		}
		v := o.get(fr)
		if n, ok := v.(int64); ok {
			return int(n)
		}
		return int(fr.w.concretize(v))
	}
	return func(fr *frame) {
		w := fr.w
		v := a.get(fr)
		bad := func(l, h, c int) {
			panic(w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c)))
		}
		switch s := v.(type) {
		case string, *SymStr:
			n := strLen(v)
			l, h := idx(fr, lo, 0), idx(fr, hi, n)
			if l < 0 || h < l || h > n {
				bad(l, h, n)
			}
			fr.r[d] = strSlice(v, l, h)
		case Slice:
			l, h := idx(fr, lo, 0), idx(fr, hi, len(s.a))
			m := idx(fr, mx, cap(s.a))
			if l < 0 || h < l || m < h || m > cap(s.a) {
				bad(l, h, cap(s.a))
			}
			fr.r[d] = Slice{s.a[l:h:m]}
		case *Value:
			p := w.ptr(s)
			arr, ok := (*p).(Array)
			if !ok {
				unsup("slice of pointer to %T", *p)
			}
			l, h := idx(fr, lo, 0), idx(fr, hi, len(arr))
			m := idx(fr, mx, len(arr))
			if l < 0 || h < l || m < h || m > len(arr) {
				bad(l, h, len(arr))
			}
			r := []Value(arr)[l:h:m]
			if r == nil {
				r = []Value{}
			}
			fr.r[d] = Slice{r}
		default:
			if p, ok := v.(Poison); ok {
				panic(unsupported{"poison: " + p.why})
			}
			unsup("slice of %T", v)
		}
	}
}

func (k *compiler) lookup(x *ssa.Lookup) instrFn {
	d, a, i := k.reg(x), k.op(x.X), k.op(x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		iw, is, _ := intInfo(x.Index.Type())
		return func(fr *frame) { fr.r[d] = fr.w.strIndex(a.get(fr), i.get(fr), iw, is) }
	}
	et := mt.Elem()
	commaOk := x.CommaOk
	return func(fr *frame) {
		m := asMap(a.get(fr))
		if fr.w.race != nil && m != nil {
			fr.w.raceRead(m, fr)
		}
		n := fr.w.mapFind(m, i.get(fr))
		var v Value
		if n >= 0 {
			v = m.ents[n].v
		} else {
			v = zero(et)
		}
		if commaOk {
			fr.r[d] = Tuple{v, n >= 0}
		} else {
			fr.r[d] = v
		}
	}
}

// ---- type assertions ----

func (w *Worker) implements(t *RT, it *RT) bool {
	if r, ok := t.impl.Load(it); ok {
		return r.(bool)
	}
	r := types.Implements(t.T, it.U.(*types.Interface))
	t.impl.Store(it, r)
	return r
}

func (k *compiler) typeAssert(x *ssa.TypeAssert) instrFn {
	d, a := k.reg(x), k.op(x.X)
	at := rtOf(x.AssertedType)
	_, isI := at.U.(*types.Interface)
	commaOk := x.CommaOk
	src := x.X.Type()
	return func(fr *frame) {
		v := a.get(fr)
		var i *Iface
		ok := false
		switch y := v.(type) {
		case nil:
		case *Iface:
			i = y
			if isI {
				ok = fr.w.implements(i.t, at)
			} else {
				ok = i.t == at
			}
		case Poison:
			panic(unsupported{"poison: " + y.why})
		default:
			unsup("type assertion on %T", v)
		}
		if ok {
			var r Value = i
			if !isI {
				r = i.v
			}
			if commaOk {
				fr.r[d] = Tuple{r, true}
			} else {
				fr.r[d] = r
			}
			return
		}
		if commaOk {
			fr.r[d] = Tuple{zero(at.T), false}
			return
		}
		msg := "interface conversion: "
		if i == nil {
			msg += rtOf(src).String() + " is nil, not " + at.String()
		} else {
			msg += i.t.String() + " is not " + at.String()
		}
		panic(fr.w.rtPanic(msg))
	}
}

// ---- calls ----

func (k *compiler) args(c *ssa.CallCommon) []operand { return k.ops(c.Args) }

func gather(fr *frame, as []operand) []Value {
	r := make([]Value, len(as))
	for i := range as {
		r[i] = as[i].get(fr)
	}
	return r
}

func (w *Worker) method(t *RT, m *types.Func) *fnCode {
	key := m.Id()
	if c, ok := t.methods.Load(key); ok {
		return c.(*fnCode)
	}
	sel := w.eng.prog.MethodSets.MethodSet(t.T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsup("no method %s on %s", m.Name(), t)
	}
	w.eng.progMu.Lock()
	fn := w.eng.prog.MethodValue(sel)
	w.eng.progMu.Unlock()
	if fn == nil {
		unsup("abstract method %s on %s", m.Name(), t)
	}
	c := codeOf(fn)
	t.methods.Store(key, c)
	return c
}

func (w *Worker) invoke(recv Value, m *types.Func, args []Value, fr *frame) Value {
	i, ok := recv.(*Iface)
	if !ok {
		if recv == nil {
			panic(w.nilDeref())
		}
		if p, isP := recv.(Poison); isP {
			panic(unsupported{"poison: " + p.why})
		}
		unsup("invoke %s on %T", m.Name(), recv)
	}
	if rt, ok := i.v.(*RT); ok {
		return w.rtypeMethod(rt, m.Name(), args, fr)
	}
	c := w.method(i.t, m)
	all := make([]Value, 0, len(args)+1)
	all = append(all, i.v)
	all = append(all, args...)
	return w.call(c, all, nil, fr)
}

func (w *Worker) callValue(f Value, args []Value, fr *frame) Value {
	c, ok := f.(*Closure)
	if !ok {
		if p, isP := f.(Poison); isP {
			panic(unsupported{"poison: " + p.why})
		}
		unsup("call of %T", f)
	}
	if c == nil {
		panic(w.nilDeref())
	}
	if c.native != nil {
		return c.native(fr, args)
	}
	return w.call(c.code, args, c.fv, fr)
}

func (k *compiler) call(c *ssa.CallCommon) func(fr *frame) Value {
	as := k.args(c)
	if c.IsInvoke() {
		recv := k.op(c.Value)
		m := c.Method
		var lastT *RT
		var lastC *fnCode
		_ = lastT
		_ = lastC
		return func(fr *frame) Value {
			i, ok := recv.get(fr).(*Iface)
			if ok {
				if _, isRT := i.v.(*RT); !isRT {
					code := fr.w.method(i.t, m)
					args := make([]Value, len(as)+1)
					args[0] = i.v
					for j := range as {
						args[j+1] = as[j].get(fr)
					}
					return fr.w.call(code, args, nil, fr)
				}
			}
			return fr.w.invoke(recv.get(fr), m, gather(fr, as), fr)
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return k.builtin(f, c, as)
	case *ssa.Function:
		code := codeOf(f)
		// calls of other packages' initialisers happen on demand
		if k.c.isInit && f.Synthetic == "package initializer" {
			return func(fr *frame) Value { return nil }
		}
		return func(fr *frame) Value { return fr.w.call(code, gather(fr, as), nil, fr) }
	}
	fv := k.op(c.Value)
	return func(fr *frame) Value {
		f := fv.get(fr)
		return fr.w.callValue(f, gather(fr, as), fr)
	}
}

// deferCall evaluates callee and arguments now and returns the pending call.
func (k *compiler) deferCall(c *ssa.CallCommon) func(fr *frame) func(fr *frame) {
	as := k.args(c)
	if c.IsInvoke() {
		recv := k.op(c.Value)
		m := c.Method
		return func(fr *frame) func(fr *frame) {
			r, args := recv.get(fr), gather(fr, as)
			if r == nil {
				panic(fr.w.nilDeref())
			}
			return func(fr *frame) { fr.w.invoke(r, m, args, fr) }
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		tmp := make([]operand, len(as))
		return func(fr *frame) func(fr *frame) {
			args := gather(fr, as)
			_ = tmp
			return func(fr *frame) { fr.w.builtinCall(b, c, args, fr) }
		}
	}
	fv := k.op(c.Value)
	return func(fr *frame) func(fr *frame) {
		f, args := fv.get(fr), gather(fr, as)
		return func(fr *frame) { fr.w.callValue(f, args, fr) }
	}
}

var _ = token.ADD
