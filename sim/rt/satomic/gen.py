# generates satomic.go
T=[("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr")]
o='''// Code generated by gen.py. Package satomic replaces sync/atomic: a yield point
// before every operation, then the real one (which the race detector sees).
package satomic

import (
	"gosim/core"
	"sync/atomic"
	"unsafe"
)

func y() { core.Yield("atomic") }

'''
for N,t in T:
    o+=f'''func Load{N}(p *{t}) {t} {{ y(); return atomic.Load{N}(p) }}
func Store{N}(p *{t}, v {t}) {{ y(); atomic.Store{N}(p, v) }}
func Add{N}(p *{t}, v {t}) {t} {{ y(); return atomic.Add{N}(p, v) }}
func Swap{N}(p *{t}, v {t}) {t} {{ y(); return atomic.Swap{N}(p, v) }}
func CompareAndSwap{N}(p *{t}, o, n {t}) bool {{ y(); return atomic.CompareAndSwap{N}(p, o, n) }}
func And{N}(p *{t}, v {t}) {t} {{ y(); return atomic.And{N}(p, v) }}
func Or{N}(p *{t}, v {t}) {t} {{ y(); return atomic.Or{N}(p, v) }}

type {N} struct{{ v atomic.{N} }}

func (x *{N}) Load() {t}                    {{ y(); return x.v.Load() }}
func (x *{N}) Store(v {t})                  {{ y(); x.v.Store(v) }}
func (x *{N}) Add(v {t}) {t}                {{ y(); return x.v.Add(v) }}
func (x *{N}) Swap(v {t}) {t}               {{ y(); return x.v.Swap(v) }}
func (x *{N}) CompareAndSwap(o, n {t}) bool {{ y(); return x.v.CompareAndSwap(o, n) }}
func (x *{N}) And(v {t}) {t}                {{ y(); return x.v.And(v) }}
func (x *{N}) Or(v {t}) {t}                 {{ y(); return x.v.Or(v) }}

'''
o+='''func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { y(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { y(); return atomic.SwapPointer(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { y(); return atomic.CompareAndSwapPointer(p, o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { y(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { y(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(v any)                  { y(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { y(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { y(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { y(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); return x.v.CompareAndSwap(o, n) }
'''
open('satomic.go','w').write(o)
