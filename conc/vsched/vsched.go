// Package vsched is added to the library's module through a build overlay. P is called before
// every statement of the library, and by the stand-ins for package sync and sync/atomic before
// every operation, so that a thread can also be preempted in the middle of a statement.
package vsched

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

// Hook is called with the number of the statement that is about to run.
var Hook func(id int32)

// Blocked is called when the current thread cannot go on before another one does something.
var Blocked func()

// last is the statement the current thread is in: it is set after the hook, which may have let
// another thread run.
var last int32

func P(id int32) {
	if h := Hook; h != nil {
		h(id)
		last = id
	}
}

// sub is a point within the current statement.
func sub() {
	if h := Hook; h != nil {
		l := last
		h(-100 - l)
		last = l
	}
}

// Mutex, RWMutex and Once take the place of those of package sync in the instrumented library:
// a thread that has to wait gives way to the other thread of the schedule.
type Mutex struct{ held bool }

func wait(busy func() bool) {
	for n := 0; busy(); n++ {
		b := Blocked
		if b == nil || n > 1000 {
			panic("vsched: deadlock")
		}
		b()
	}
}

func (m *Mutex) Lock() {
	sub()
	wait(func() bool { return m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sub()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("vsched: unlock of unlocked mutex")
	}
	m.held = false
	sub()
}

type RWMutex struct {
	w       bool
	readers int
}

func (m *RWMutex) Lock() {
	sub()
	wait(func() bool { return m.w || m.readers > 0 })
	m.w = true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("vsched: unlock of unlocked mutex")
	}
	m.w = false
	sub()
}

func (m *RWMutex) RLock() {
	sub()
	wait(func() bool { return m.w })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("vsched: unlock of unlocked mutex")
	}
	m.readers--
	sub()
}

func (m *RWMutex) TryLock() bool {
	sub()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	sub()
	if m.w {
		return false
	}
	m.readers++
	return true
}

type Once struct{ state int }

func (o *Once) Do(f func()) {
	sub()
	if o.state == 2 {
		return
	}
	if o.state == 1 {
		wait(func() bool { return o.state == 1 })
		return
	}
	o.state = 1
	defer func() { o.state = 2 }()
	f()
}

// OnceFunc takes the place of sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool takes the place of sync.Pool: what was put last is got first, whoever asks for it.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	sub()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	sub()
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map takes the place of sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { sub(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { sub(); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { sub(); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	sub()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) { sub(); return m.m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool)       { sub(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool         { sub(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o interface{}) bool          { sub(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v interface{}) bool)             { sub(); m.m.Range(f) }
func (m *Map) Clear()                                          { sub(); m.m.Clear() }

// Value takes the place of atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { sub(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { sub(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { sub(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { sub(); return x.v.CompareAndSwap(o, n) }

// Bool takes the place of atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sub(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sub(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sub(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sub(); return x.v.CompareAndSwap(o, n) }

// Int32 takes the place of atomic.Int32, as do the functions.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sub(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sub(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { sub(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { sub(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sub(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { sub(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sub(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { sub(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { sub(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sub()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int64 takes the place of atomic.Int64, as do the functions.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sub(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sub(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { sub(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { sub(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sub(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { sub(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sub(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { sub(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { sub(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sub()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Uint32 takes the place of atomic.Uint32, as do the functions.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sub(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sub(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { sub(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { sub(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sub(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { sub(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sub(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { sub(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { sub(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sub()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint64 takes the place of atomic.Uint64, as do the functions.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sub(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sub(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { sub(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { sub(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sub(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { sub(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sub(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { sub(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { sub(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sub()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uintptr takes the place of atomic.Uintptr, as do the functions.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { sub(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { sub(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { sub(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { sub(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sub(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { sub(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { sub(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { sub(); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sub(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sub()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sub(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sub(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sub()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sub()
	return atomic.CompareAndSwapPointer(p, o, n)
}
