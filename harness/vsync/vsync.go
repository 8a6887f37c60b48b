// Package vsync stands in for sync in native replays of counterexamples with
// several goroutines: the real thing, with random delays around it.
package vsync

import (
	"math/rand"
	"runtime"
	"sync"
	"time"
)

// Jitter delays the caller for a little while, or not.
func Jitter() {
	switch rand.Intn(4) {
	case 0:
		for i := rand.Intn(20); i > 0; i-- {
			runtime.Gosched()
		}
	case 1:
		time.Sleep(time.Duration(rand.Intn(400)) * time.Microsecond)
	}
}

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { Jitter(); m.m.Lock(); Jitter() }
func (m *Mutex) Unlock()       { m.m.Unlock(); Jitter() }
func (m *Mutex) TryLock() bool { Jitter(); return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { Jitter(); m.m.Lock(); Jitter() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); Jitter() }
func (m *RWMutex) RLock()         { Jitter(); m.m.RLock(); Jitter() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); Jitter() }
func (m *RWMutex) TryLock() bool  { Jitter(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { Jitter(); return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return m.m.RLocker()
}

type WaitGroup struct{ g sync.WaitGroup }

func (g *WaitGroup) Add(n int)   { g.g.Add(n) }
func (g *WaitGroup) Done()       { Jitter(); g.g.Done() }
func (g *WaitGroup) Wait()       { g.g.Wait() }
func (g *WaitGroup) Go(f func()) { g.g.Add(1); go func() { defer g.Done(); Jitter(); f() }() }

type Once struct{ o sync.Once }

func (o *Once) Do(f func()) { Jitter(); o.o.Do(f); Jitter() }

func OnceFunc(f func()) func() {
	g := sync.OnceFunc(f)
	return func() { Jitter(); g() }
}

func OnceValue[T any](f func() T) func() T {
	g := sync.OnceValue(f)
	return func() T { Jitter(); return g() }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	g := sync.OnceValues(f)
	return func() (T, U) { Jitter(); return g() }
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { Jitter(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { Jitter(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { Jitter(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { Jitter(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { Jitter(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { Jitter(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { Jitter(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { Jitter(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { Jitter(); m.m.Range(f) }
func (m *Map) Clear()                           { Jitter(); m.m.Clear() }
