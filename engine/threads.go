package main

// Goroutines of the program under test: one runs at a time; at scheduling
// points the explorer chooses which one continues.

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type Thread struct {
	id      int
	slab    []Value
	sp      int
	wake    chan struct{}
	done    bool
	blocked func() bool // nil: runnable; else runnable when it returns true
	depth   int
	frame   *frame
	vc      vclock
}

const slabSize = 1 << 17

func (w *Worker) newThread() *Thread {
	t := &Thread{id: len(w.threads), wake: make(chan struct{})}
	return t
}

func (t *Thread) alloc(n int) []Value {
	if t.slab == nil {
		t.slab = make([]Value, slabSize)
	}
	sp := t.sp
	t.sp += n
	if t.sp > len(t.slab) {
		return make([]Value, n)
	}
	return t.slab[sp:t.sp:t.sp]
}
func (t *Thread) free(n int)  { t.sp -= n }
func (t *Thread) mark() int   { return t.sp }
func (t *Thread) reset(m int) { t.sp = m }

type killed struct{}

func (w *Worker) spawn(at *frame, f func(fr *frame)) {
	t := &Thread{id: len(w.threads), wake: make(chan struct{}), slab: make([]Value, 1<<12)}
	w.threads = append(w.threads, t)
	w.raceSpawn(t)
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			t.done = true
			if _, ok := r.(killed); ok {
				w.main.wake <- struct{}{}
				return
			}
			if r != nil {
				if _, ok := r.(*TargetPanic); !ok {
					if _, ok := r.(pathEnd); !ok {
						if _, ok := r.(unsupported); !ok {
							if _, ok := r.(fatal); !ok {
								r = unsupported{"engine: " + sprint(r)}
							}
						}
					}
				}
				w.thPanic = r
				w.switchTo(w.main, t)
				return
			}
			// pick another thread
			var next *Thread
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.thPanic = r
						next = w.main
					}
				}()
				next = w.pick(nil)
			}()
			w.switchTo(next, t)
		}()
		if w.killing {
			panic(killed{})
		}
		f(&frame{w: w, th: t})
	}()
	at.yield()
}

// switchTo passes the baton without waiting.
func (w *Worker) switchTo(n *Thread, from *Thread) {
	from.depth, from.frame = w.depth, w.frame
	w.cur = n
	w.depth, w.frame = n.depth, n.frame
	n.wake <- struct{}{}
}

// runnable lists threads that can run, the current one first.
func (w *Worker) runnable(cur *Thread) []*Thread {
	var r []*Thread
	ok := func(t *Thread) bool {
		if t.done {
			return false
		}
		return t.blocked == nil || t.blocked()
	}
	if cur != nil && ok(cur) {
		r = append(r, cur)
	}
	for _, t := range w.threads {
		if t != cur && ok(t) {
			r = append(r, t)
		}
	}
	return r
}

// pick chooses the thread to run next; cur may continue.
func (w *Worker) pick(cur *Thread) *Thread {
	r := w.runnable(cur)
	if len(r) == 0 {
		panic(&TargetPanic{v: w.errIface("all goroutines are asleep - deadlock!"), fatal: true, where: w.whereStr()})
	}
	curOK := cur != nil && r[0] == cur
	if curOK && w.preempt >= w.maxPreempt {
		return cur
	}
	n := r[w.choose(len(r))]
	if curOK && n != cur {
		w.preempt++
	}
	return n
}

// yield is a scheduling point of the running thread.
func (w *Worker) yield(fine bool) {
	if len(w.threads) < 2 || w.initing > 0 {
		return
	}
	cur := w.cur
	w.resumeWith(cur, w.pick(cur))
}

func (w *Worker) resumeWith(cur, n *Thread) {
	if n != cur {
		w.switchTo(n, cur)
		<-cur.wake
		w.afterWake(cur)
	}
	cur.blocked = nil
}

func (w *Worker) afterWake(cur *Thread) {
	if w.killing && cur != w.main {
		panic(killed{})
	}
	if cur == w.main && w.thPanic != nil {
		p := w.thPanic
		w.thPanic = nil
		panic(p)
	}
}

// block suspends the running thread until ready reports true.
func (w *Worker) block(ready func() bool) {
	cur := w.cur
	for !ready() {
		cur.blocked = ready
		n := w.pick(cur)
		w.resumeWith(cur, n)
	}
	cur.blocked = nil
}

// killThreads ends the other threads of a finished path.
func (w *Worker) killThreads() {
	w.killing = true
	for _, t := range w.threads {
		if t != w.main && !t.done {
			t.wake <- struct{}{}
			<-w.main.wake
		}
	}
	w.threads = w.threads[:0]
	w.killing = false
}

// ---- channels ----

func (w *Worker) send(c *Chan, v Value) {
	w.yield(false)
	if c == nil {
		w.block(func() bool { return false })
	}
	if c.closed {
		panic(w.rtPanic("send on closed channel"))
	}
	if c.cap > 0 {
		w.block(func() bool { return c.closed || len(c.buf) < c.cap })
		w.acquire(c, 0)
		if c.closed {
			panic(w.rtPanic("send on closed channel"))
		}
		w.release(c, 0)
		c.buf = append(c.buf, v)
		return
	}
	w.release(c, 0)
	q := &chanWait{v: v}
	c.sendq = append(c.sendq, q)
	w.block(func() bool { return q.done || c.closed })
	w.acquire(c, 0)
	if !q.done {
		panic(w.rtPanic("send on closed channel"))
	}
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (w *Worker) recv(c *Chan, et types.Type) (Value, bool) {
	w.yield(false)
	if c == nil {
		w.block(func() bool { return false })
	}
	w.block(c.canRecv)
	w.acqrel(c, 0)
	return c.take(et)
}

func (c *Chan) take(et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.sendq) > 0 {
		q := c.sendq[0]
		c.sendq = c.sendq[1:]
		q.done = true
		return q.v, true
	}
	return zero(et), false
}

func (w *Worker) closeChan(c *Chan) {
	if c == nil {
		panic(w.rtPanic("close of nil channel"))
	}
	if c.closed {
		panic(w.rtPanic("close of closed channel"))
	}
	c.closed = true
	w.release(c, 0)
	w.yield(false)
}

func (k *compiler) selectStmt(x *ssa.Select) instrFn {
	d := k.reg(x)
	type st struct {
		dir  types.ChanDir
		c, v operand
		et   types.Type
	}
	var ss []st
	nrecv := 0
	for _, s := range x.States {
		t := st{dir: s.Dir, c: k.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			t.v = k.op(s.Send)
		} else {
			nrecv++
		}
		ss = append(ss, t)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		w := fr.w
		w.yield(false)
		chans := make([]*Chan, len(ss))
		for i := range ss {
			chans[i] = ss[i].c.get(fr).(*Chan)
		}
		ready := func() []int {
			var r []int
			for i, s := range ss {
				c := chans[i]
				if c == nil {
					continue
				}
				if s.dir == types.RecvOnly {
					if c.canRecv() {
						r = append(r, i)
					}
				} else if c.closed || c.cap > 0 && len(c.buf) < c.cap {
					r = append(r, i)
				} else if c.cap == 0 {
					unsup("select send on unbuffered channel")
				}
			}
			return r
		}
		res := make(Tuple, 2+nrecv)
		j := 2
		for _, s := range ss {
			if s.dir == types.RecvOnly {
				res[j] = zero(s.et)
				j++
			}
		}
		r := ready()
		if len(r) == 0 {
			if !blocking {
				res[0], res[1] = mkInt(-1), false
				fr.r[d] = res
				return
			}
			w.block(func() bool { return len(ready()) > 0 })
			r = ready()
		}
		i := r[w.choose(len(r))]
		res[0], res[1] = mkInt(int64(i)), false
		w.acqrel(chans[i], 0)
		if ss[i].dir == types.RecvOnly {
			v, ok := chans[i].take(ss[i].et)
			j := 2
			for _, s := range ss[:i] {
				if s.dir == types.RecvOnly {
					j++
				}
			}
			res[1], res[j] = ok, v
		} else {
			if chans[i].closed {
				panic(w.rtPanic("send on closed channel"))
			}
			chans[i].buf = append(chans[i].buf, ss[i].v.get(fr))
		}
		fr.r[d] = res
	}
}

var _ = reflect.Bool
