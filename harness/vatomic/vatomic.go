// Package vatomic stands in for sync/atomic in native replays, as vsync does for sync.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/vito/booklit/zz_verif/vsync"
)

type Bool struct{ a atomic.Bool }

func (x *Bool) Load() bool                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Bool) Store(v bool)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsync.Jitter(); return x.a.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

type Int32 struct{ a atomic.Int32 }

func (x *Int32) Load() int32                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Int32) Store(v int32)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Int32) Swap(v int32) int32             { vsync.Jitter(); return x.a.Swap(v) }
func (x *Int32) Add(v int32) int32              { vsync.Jitter(); return x.a.Add(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

type Uint32 struct{ a atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Uint32) Store(v uint32)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vsync.Jitter(); return x.a.Swap(v) }
func (x *Uint32) Add(v uint32) uint32             { vsync.Jitter(); return x.a.Add(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

type Int64 struct{ a atomic.Int64 }

func (x *Int64) Load() int64                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Int64) Store(v int64)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Int64) Swap(v int64) int64             { vsync.Jitter(); return x.a.Swap(v) }
func (x *Int64) Add(v int64) int64              { vsync.Jitter(); return x.a.Add(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

type Uint64 struct{ a atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Uint64) Store(v uint64)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vsync.Jitter(); return x.a.Swap(v) }
func (x *Uint64) Add(v uint64) uint64             { vsync.Jitter(); return x.a.Add(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

type Pointer[T any] struct{ a atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsync.Jitter(); return x.a.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

type Value struct{ a atomic.Value }

func (x *Value) Load() any                    { vsync.Jitter(); defer vsync.Jitter(); return x.a.Load() }
func (x *Value) Store(v any)                  { vsync.Jitter(); x.a.Store(v) }
func (x *Value) Swap(v any) any               { vsync.Jitter(); return x.a.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { vsync.Jitter(); return x.a.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { vsync.Jitter(); defer vsync.Jitter(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsync.Jitter(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { vsync.Jitter(); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vsync.Jitter(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsync.Jitter()
	return atomic.CompareAndSwapInt32(p, o, n)
}

func LoadUint32(p *uint32) uint32           { vsync.Jitter(); defer vsync.Jitter(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vsync.Jitter(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { vsync.Jitter(); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vsync.Jitter(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsync.Jitter()
	return atomic.CompareAndSwapUint32(p, o, n)
}

func LoadInt64(p *int64) int64          { vsync.Jitter(); defer vsync.Jitter(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vsync.Jitter(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { vsync.Jitter(); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vsync.Jitter(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsync.Jitter()
	return atomic.CompareAndSwapInt64(p, o, n)
}

func LoadUint64(p *uint64) uint64           { vsync.Jitter(); defer vsync.Jitter(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vsync.Jitter(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { vsync.Jitter(); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vsync.Jitter(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsync.Jitter()
	return atomic.CompareAndSwapUint64(p, o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsync.Jitter(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsync.Jitter(); atomic.StorePointer(p, v) }
