package main

// Models of functions without Go bodies, of the runtime, and of the
// environment. Every entry is part of what a verdict trusts.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sprint(x any) string { return fmt.Sprint(x) }

var natives = map[string]func(fr *frame, args []Value) Value{}

const modPath = "github.com/vito/booklit"
const vPath = modPath + "/zz_verif/v"

func isModule(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, modPath+"/zz_verif")
}

// skipInit lists packages whose initialisers are irrelevant to what is run.
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "os": false, "syscall": true, "internal/poll": true,
	"internal/syscall/unix": true, "internal/testlog": true, "os/signal": true,
}

// redirects maps library functions to models written in Go (package v).
var redirects = map[string]string{}

var redirectFns map[string]*ssa.Function

func redirectFor(fn *ssa.Function) *ssa.Function {
	return redirectFns[fn.String()]
}

func nativeFor(fn *ssa.Function) func(fr *frame, args []Value) Value {
	name := fn.String()
	if f, ok := natives[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil && o != fn {
		on := o.String()
		if f, ok := genericNatives[on]; ok {
			ta := fn.TypeArgs()
			return func(fr *frame, args []Value) Value { return f(fr, ta, args) }
		}
	}
	if strings.HasPrefix(name, "(*github.com/sirupsen/logrus.") || strings.HasPrefix(name, "github.com/sirupsen/logrus.") || strings.HasPrefix(name, "(github.com/sirupsen/logrus.") {
		if strings.HasSuffix(name, ".init") {
			return func(fr *frame, args []Value) Value { return nil }
		}
		res := fn.Signature.Results()
		return func(fr *frame, args []Value) Value {
			if res.Len() == 1 {
				if p, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
					c := new(Value)
					*c = zero(p.Elem())
					return c
				}
				return zero(res.At(0).Type())
			}
			return nil
		}
	}
	return nil
}

var genericNatives = map[string]func(fr *frame, ta []types.Type, args []Value) Value{
	"reflect.TypeFor": func(fr *frame, ta []types.Type, args []Value) Value {
		return fr.w.rtype(rtOf(ta[0]))
	},
	"internal/abi.Escape": func(fr *frame, ta []types.Type, args []Value) Value { return args[0] },
}

func concBytes(s []Value) (string, bool) {
	b := make([]byte, len(s))
	for i, x := range s {
		n, ok := x.(int64)
		if !ok {
			return "", false
		}
		b[i] = byte(n)
	}
	return string(b), true
}

// indexByte finds the first occurrence, forking on symbolic bytes.
func (w *Worker) indexByte(b []Value, c Value) int {
	for i, x := range b {
		if w.truth(w.byteEq(x, c)) {
			return i
		}
	}
	return -1
}

func (w *Worker) lastIndexByte(b []Value, c Value) int {
	for i := len(b) - 1; i >= 0; i-- {
		if w.truth(w.byteEq(b[i], c)) {
			return i
		}
	}
	return -1
}

func (w *Worker) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var r Value = true
	for i := range a {
		e := w.byteEq(a[i], b[i])
		if e == false {
			return false
		}
		r = w.and(r, e)
	}
	return r
}

func (w *Worker) indexBytes(h, n []Value) int {
	if len(n) == 0 {
		return 0
	}
	if hs, ok := concBytes(h); ok {
		if ns, ok := concBytes(n); ok {
			return strings.Index(hs, ns)
		}
	}
	for i := 0; i+len(n) <= len(h); i++ {
		if w.truth(w.bytesEq(h[i:i+len(n)], n)) {
			return i
		}
	}
	return -1
}

func (w *Worker) countByte(b []Value, c Value) Value {
	n := 0
	for _, x := range b {
		if w.truth(w.byteEq(x, c)) {
			n++
		}
	}
	return mkInt(int64(n))
}

func (w *Worker) compare(a, b Value) Value {
	if w.truth(w.strEq(a, b)) {
		return mkInt(0)
	}
	if w.truth(w.strLess(a, b, false)) {
		return mkInt(-1)
	}
	return mkInt(1)
}

func nop(fr *frame, a []Value) Value { return nil }

func init() {
	n := natives
	// --- runtime and compiler support ---
	for _, f := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "(*strings.Builder).copyCheck",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "runtime/debug.SetGCPercent"} {
		n[f] = nop
	}
	n["runtime.Gosched"] = func(fr *frame, a []Value) Value { fr.w.yield(false); return nil }
	n["runtime.Callers"] = func(fr *frame, a []Value) Value { return mkInt(0) }
	n["runtime.Caller"] = func(fr *frame, a []Value) Value { return Tuple{mkInt(0), "", mkInt(0), false} }
	n["runtime.GOMAXPROCS"] = func(fr *frame, a []Value) Value { return mkInt(8) }
	n["internal/abi.NoEscape"] = func(fr *frame, a []Value) Value { return a[0] }
	n["(*internal/godebug.Setting).Value"] = func(fr *frame, a []Value) Value { return "" }
	n["(*internal/godebug.Setting).String"] = func(fr *frame, a []Value) Value { return "" }

	// --- bytealg ---
	n["internal/bytealg.IndexByte"] = func(fr *frame, a []Value) Value {
		return mkInt(int64(fr.w.indexByte(asSlice(a[0]).a, a[1])))
	}
	n["internal/bytealg.IndexByteString"] = func(fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return mkInt(int64(strings.IndexByte(s, byte(c))))
			}
		}
		return mkInt(int64(fr.w.indexByte(strBytes(a[0]), a[1])))
	}
	n["internal/bytealg.LastIndexByte"] = func(fr *frame, a []Value) Value {
		return mkInt(int64(fr.w.lastIndexByte(asSlice(a[0]).a, a[1])))
	}
	n["internal/bytealg.LastIndexByteString"] = func(fr *frame, a []Value) Value {
		return mkInt(int64(fr.w.lastIndexByte(strBytes(a[0]), a[1])))
	}
	n["internal/bytealg.Count"] = func(fr *frame, a []Value) Value { return fr.w.countByte(asSlice(a[0]).a, a[1]) }
	n["internal/bytealg.CountString"] = func(fr *frame, a []Value) Value { return fr.w.countByte(strBytes(a[0]), a[1]) }
	n["internal/bytealg.Equal"] = func(fr *frame, a []Value) Value {
		return fr.w.bytesEq(asSlice(a[0]).a, asSlice(a[1]).a)
	}
	n["bytes.Equal"] = n["internal/bytealg.Equal"]
	n["internal/bytealg.Compare"] = func(fr *frame, a []Value) Value {
		return fr.w.compare(mkStr(asSlice(a[0]).a), mkStr(asSlice(a[1]).a))
	}
	n["bytes.Compare"] = n["internal/bytealg.Compare"]
	n["internal/bytealg.CompareString"] = func(fr *frame, a []Value) Value { return fr.w.compare(a[0], a[1]) }
	n["strings.Compare"] = n["internal/bytealg.CompareString"]
	n["internal/runtime/sys.GetCallerPC"] = func(fr *frame, a []Value) Value { return mkInt(0) }
	n["internal/bytealg.Index"] = func(fr *frame, a []Value) Value {
		return mkInt(int64(fr.w.indexBytes(asSlice(a[0]).a, asSlice(a[1]).a)))
	}
	n["bytes.Index"] = n["internal/bytealg.Index"]
	n["internal/bytealg.IndexString"] = func(fr *frame, a []Value) Value {
		return mkInt(int64(fr.w.indexBytes(strBytes(a[0]), strBytes(a[1]))))
	}
	n["strings.Clone"] = func(fr *frame, a []Value) Value { return a[0] }
	n["internal/stringslite.Clone"] = n["strings.Clone"]
	n["github.com/jessevdk/go-flags.getTerminalColumns"] = func(fr *frame, a []Value) Value { return mkInt(80) }
	n["strings.Index"] = n["internal/bytealg.IndexString"]
	n["internal/stringslite.Index"] = n["internal/bytealg.IndexString"]
	n["internal/bytealg.MakeNoZero"] = func(fr *frame, a []Value) Value {
		c := int(fr.w.concretize(a[0]))
		s := make([]Value, roundupsize(c, 1))
		for i := range s {
			s[i] = mkInt(0)
		}
		return Slice{s[:c]}
	}

	// --- math ---
	n["math.Float64bits"] = func(fr *frame, a []Value) Value { return mkInt(int64(math.Float64bits(a[0].(float64)))) }
	n["math.Float64frombits"] = func(fr *frame, a []Value) Value { return math.Float64frombits(uint64(a[0].(int64))) }
	n["math.Float32bits"] = func(fr *frame, a []Value) Value {
		return mkInt(int64(math.Float32bits(float32(a[0].(float64)))))
	}
	n["math.Float32frombits"] = func(fr *frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(a[0].(int64))))
	}
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2} {
		n["math."+name] = func(fr *frame, a []Value) Value { return f(a[0].(float64)) }
	}

	// --- sync ---
	n["(*sync.Mutex).Lock"] = func(fr *frame, a []Value) Value { fr.lock(a[0]); return nil }
	n["(*sync.Mutex).Unlock"] = func(fr *frame, a []Value) Value { fr.unlock(a[0]); return nil }
	n["(*sync.Mutex).TryLock"] = func(fr *frame, a []Value) Value {
		fr.yield()
		l := fr.w.lockState(a[0])
		if l.held || l.readers > 0 {
			return false
		}
		l.held = true
		fr.w.acquire(l, 0)
		fr.w.acquire(l, 1)
		return true
	}
	n["(*sync.RWMutex).Lock"] = n["(*sync.Mutex).Lock"]
	n["(*sync.RWMutex).Unlock"] = n["(*sync.Mutex).Unlock"]
	n["(*sync.RWMutex).RLock"] = func(fr *frame, a []Value) Value {
		l := fr.w.lockState(a[0])
		fr.yield()
		fr.w.block(func() bool { return !l.held })
		l.readers++
		fr.w.acquire(l, 0)
		return nil
	}
	n["(*sync.RWMutex).RUnlock"] = func(fr *frame, a []Value) Value {
		l := fr.w.lockState(a[0])
		if l.readers == 0 {
			panic(&TargetPanic{v: fr.w.errIface("sync: RUnlock of unlocked RWMutex"), fatal: true})
		}
		l.readers--
		fr.w.release(l, 1)
		fr.yield()
		return nil
	}
	n["(*sync.Pool).Get"] = func(fr *frame, a []Value) Value {
		p := fr.w.ptr(a[0])
		t := fr.w.eng.namedType("sync", "Pool").Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "New" {
				f := asStruct(*p)[i].(*Closure)
				if f == nil {
					return nil
				}
				return fr.w.callValue(f, nil, fr)
			}
		}
		return nil
	}
	n["(*sync.Pool).Put"] = nop
	n["(*sync.WaitGroup).Add"] = func(fr *frame, a []Value) Value {
		g := fr.w.wg(a[0])
		g.n += int(fr.w.concretize(a[1]))
		fr.w.release(g, 0)
		if g.n < 0 {
			panic(fr.w.rtPanic("sync: negative WaitGroup counter"))
		}
		fr.yield()
		return nil
	}
	n["(*sync.WaitGroup).Done"] = func(fr *frame, a []Value) Value {
		return n["(*sync.WaitGroup).Add"](fr, []Value{a[0], mkInt(-1)})
	}
	n["(*sync.WaitGroup).Wait"] = func(fr *frame, a []Value) Value {
		g := fr.w.wg(a[0])
		fr.w.block(func() bool { return g.n == 0 })
		fr.w.acquire(g, 0)
		return nil
	}
	n["(*sync.WaitGroup).Go"] = func(fr *frame, a []Value) Value {
		g := fr.w.wg(a[0])
		g.n++
		f := a[1]
		fr.w.spawn(fr, func(fr2 *frame) {
			fr2.w.callValue(f, nil, fr2)
			g.n--
			fr2.w.release(g, 0)
		})
		return nil
	}
	n["(*sync.Map).Load"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		m := fr.w.syncMap(a[0])
		i := fr.w.mapFind(m, a[1])
		if i < 0 {
			return Tuple{nil, false}
		}
		return Tuple{m.ents[i].v, true}
	}
	n["(*sync.Map).Store"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		fr.w.mapSet(fr.w.syncMap(a[0]), a[1], a[2])
		return nil
	}
	n["(*sync.Map).LoadOrStore"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		m := fr.w.syncMap(a[0])
		i := fr.w.mapFind(m, a[1])
		if i >= 0 {
			return Tuple{m.ents[i].v, true}
		}
		fr.w.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	}
	n["(*sync.Map).Delete"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		fr.w.mapDelete(fr.w.syncMap(a[0]), a[1])
		return nil
	}
	n["(*sync.Map).Range"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		m := fr.w.syncMap(a[0])
		for i := 0; i < len(m.ents); i++ {
			if m.ents[i].live {
				if !fr.w.truth(fr.w.callValue(a[1], []Value{m.ents[i].k, m.ents[i].v}, fr)) {
					break
				}
			}
		}
		return nil
	}

	// --- sync/atomic ---
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			n[pk+".Load"+t] = func(fr *frame, a []Value) Value {
				fr.yield()
				fr.w.acqrel(fr.w.ptr(a[0]), 2)
				return fr.w.load(a[0])
			}
			n[pk+".Store"+t] = func(fr *frame, a []Value) Value {
				fr.yield()
				fr.w.acqrel(fr.w.ptr(a[0]), 2)
				fr.w.set(fr.w.ptr(a[0]), a[1])
				return nil
			}
			n[pk+".Swap"+t] = func(fr *frame, a []Value) Value {
				fr.yield()
				fr.w.acqrel(fr.w.ptr(a[0]), 2)
				p := fr.w.ptr(a[0])
				old := *p
				fr.w.set(p, a[1])
				return old
			}
			n[pk+".CompareAndSwap"+t] = func(fr *frame, a []Value) Value {
				fr.yield()
				fr.w.acqrel(fr.w.ptr(a[0]), 2)
				p := fr.w.ptr(a[0])
				if fr.w.truth(fr.w.equal(nil, *p, a[1])) {
					fr.w.set(p, a[2])
					return true
				}
				return false
			}
			width, signed := uint8(64), t[0] == 'I'
			if strings.HasSuffix(t, "32") {
				width = 32
			}
			n[pk+".Add"+t] = func(fr *frame, a []Value) Value {
				fr.yield()
				fr.w.acqrel(fr.w.ptr(a[0]), 2)
				p := fr.w.ptr(a[0])
				x, ok1 := (*p).(int64)
				y, ok2 := a[1].(int64)
				if !ok1 || !ok2 {
					unsup("symbolic atomic add")
				}
				v := mkInt(normInt(x+y, width, signed))
				fr.w.set(p, v)
				return v
			}
		}
	}
	n["(*sync/atomic.Value).Load"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		return asStruct(*fr.w.ptr(a[0]))[0]
	}
	n["(*sync/atomic.Value).Store"] = func(fr *frame, a []Value) Value {
		fr.yield()
		fr.w.acqrel(fr.w.ptr(a[0]), 2)
		fr.w.set(&asStruct(*fr.w.ptr(a[0]))[0], a[1])
		return nil
	}

	// --- time ---
	n["time.Sleep"] = func(fr *frame, a []Value) Value { fr.w.yield(false); return nil }
	n["time.now"] = func(fr *frame, a []Value) Value { return Tuple{mkInt(1700000000), mkInt(0), mkInt(1)} }
	n["time.runtimeNano"] = func(fr *frame, a []Value) Value { return mkInt(1) }
	n["time.runtimeNow"] = func(fr *frame, a []Value) Value { return Tuple{mkInt(1700000000), mkInt(0), mkInt(1)} }
	// a timer may go off at any time after it was set, unless stopped
	n["time.AfterFunc"] = func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(fr.w.eng.namedType("time", "Timer"))
		t := &timer{}
		if fr.w.timers == nil {
			fr.w.timers = map[*Value]*timer{}
		}
		fr.w.timers[p] = t
		f := a[1]
		if fr.w.noTimers {
			return p
		}
		fr.w.spawn(fr, func(fr2 *frame) {
			fr2.w.block(func() bool { return !t.stopped })
			t.fired = true
			fr2.w.callValue(f, nil, fr2)
		})
		return p
	}
	n["(*time.Timer).Stop"] = func(fr *frame, a []Value) Value {
		fr.yield()
		t := fr.w.timers[fr.w.ptr(a[0])]
		if t == nil {
			unsup("Stop of a timer not made by AfterFunc")
		}
		if t.fired || t.stopped {
			return false
		}
		t.stopped = true
		return true
	}
	n["time.Since"] = func(fr *frame, a []Value) Value { return mkInt(0) }

	// --- x/text/cases ---
	n["golang.org/x/text/cases.Title"] = func(fr *frame, a []Value) Value {
		return zero(fr.w.eng.namedType("golang.org/x/text/cases", "Caser"))
	}
	n["golang.org/x/text/cases.NoLower"] = nop
	n["(golang.org/x/text/cases.Caser).String"] = func(fr *frame, a []Value) Value { return fr.w.titleCase(a[1]) }

	// --- os basics; files are modelled in package v ---
	n["os.Exit"] = func(fr *frame, a []Value) Value { panic(exited{a[0]}) }
	n["os.NewFile"] = func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(fr.w.eng.namedType("os", "File"))
		return p
	}
}

// titleCase models cases.Title(language.English, cases.NoLower) on a single
// word of ASCII letters and digits: the first letter is upper-cased.
func (w *Worker) titleCase(v Value) Value {
	b := append([]Value(nil), strBytes(v)...)
	start := true
	for i, c := range b {
		e := w.byteExpr(c)
		in := func(lo, hi byte) *Expr {
			return w.pool.And(w.pool.Cmp(OUle, w.pool.Const(uint64(lo), 8), e), w.pool.Cmp(OUle, e, w.pool.Const(uint64(hi), 8)))
		}
		if start {
			if w.truth(w.lower(in('a', 'z'))) {
				b[i] = w.lowerInt(w.pool.Bin(OSub, e, w.pool.Const(32, 8)), false)
				start = false
				continue
			}
		}
		if w.truth(w.lower(in('0', '9'))) {
			start = false
			continue
		}
		if !start && w.truth(w.lower(in('a', 'z'))) {
			continue
		}
		if w.truth(w.lower(in('A', 'Z'))) {
			start = false
			continue
		}
		if w.truth(w.byteEq(c, mkInt(' '))) || w.truth(w.byteEq(c, mkInt('-'))) {
			start = true
			continue
		}
		unsup("title casing outside the model")
	}
	return mkStr(b)
}

// ---- locks ----

type lockKey struct{ p *Value }
type wgKey struct{ p *Value }
type smKey struct{ p *Value }

type lockState struct {
	held    bool
	readers int
}
type wgState struct{ n int }

func (w *Worker) lockState(p Value) *lockState {
	q := w.ptr(p)
	l, _ := w.state[lockKey{q}].(*lockState)
	if l == nil {
		l = &lockState{}
		w.state[lockKey{q}] = l
	}
	return l
}

func (fr *frame) lock(p Value) {
	w := fr.w
	l := w.lockState(p)
	fr.yield()
	w.block(func() bool { return !l.held && l.readers == 0 })
	l.held = true
	w.acquire(l, 0)
	w.acquire(l, 1)
}

func (fr *frame) unlock(p Value) {
	w := fr.w
	l := w.lockState(p)
	if !l.held {
		panic(&TargetPanic{v: w.errIface("sync: unlock of unlocked mutex"), fatal: true, where: w.whereStr()})
	}
	l.held = false
	w.release(l, 0)
	fr.yield()
}

func (w *Worker) wg(p Value) *wgState {
	q := w.ptr(p)
	l, _ := w.state[wgKey{q}].(*wgState)
	if l == nil {
		l = &wgState{}
		w.state[wgKey{q}] = l
	}
	return l
}

func (w *Worker) syncMap(p Value) *Map {
	q := w.ptr(p)
	m := w.eng.syncMaps[w.id][q]
	if m == nil {
		m = w.newMap(types.NewInterfaceType(nil, nil))
		if w.initing == 0 {
			// belongs to this path only
			w.undo = append(w.undo, undoEnt{f: func() { delete(w.eng.syncMaps[w.id], q) }})
		}
		w.eng.syncMaps[w.id][q] = m
	}
	return m
}

type timer struct{ fired, stopped bool }

// exited unwinds a program that calls os.Exit, without running deferred calls.
type exited struct{ code Value }

// untilExit calls f and gives the status it exits with: zero if it returns.
func untilExit(fr *frame, f Value) (code Value) {
	w, th := fr.w, fr.w.cur
	sp, depth := th.mark(), w.depth
	code = mkInt(0)
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(exited)
			if !ok {
				panic(r)
			}
			if w.cur != th {
				unsup("os.Exit in another goroutine")
			}
			th.reset(sp)
			w.depth = depth
			w.frame = fr
			code = x.code
		}
	}()
	w.callValue(f, nil, fr)
	return
}
