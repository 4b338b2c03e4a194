// Package ssync replaces package sync in the code under test.
package ssync

import (
	"gosim/core"
)

type waitq struct{ gs []*core.G }

func (q *waitq) wait(why string) {
	g := core.Cur()
	q.gs = append(q.gs, g)
	core.Park(why)
}

func (q *waitq) wakeAll() {
	for _, g := range q.gs {
		core.Ready(g)
	}
	q.gs = nil
}

func (q *waitq) wakeOne() {
	if len(q.gs) > 0 {
		g := q.gs[0]
		q.gs = q.gs[1:]
		core.Ready(g)
	}
}

func fatal(msg string) { core.Crash("fatal error: " + msg) }

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutual-exclusion lock.
type Mutex struct {
	locked bool
	q      waitq
	tok    int64
}

func (m *Mutex) Lock() {
	core.Yield("lock")
	if core.Dying() {
		return
	}
	for m.locked {
		m.q.wait("mutex lock")
	}
	m.locked = true
	core.Acq(&m.tok)
}

func (m *Mutex) TryLock() bool {
	core.Yield("trylock")
	if core.Dying() {
		return true
	}
	if m.locked {
		return false
	}
	m.locked = true
	core.Acq(&m.tok)
	return true
}

func (m *Mutex) Unlock() {
	if core.Dying() {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	core.Rel(&m.tok)
	m.locked = false
	m.q.wakeAll()
	core.Yield("unlock")
}

// RWMutex is a simulated reader/writer lock with writer preference.
type RWMutex struct {
	readers  int
	writer   bool
	wwaiting int
	q        waitq
	wtok     int64
	rtok     int64
}

func (m *RWMutex) Lock() {
	core.Yield("lock")
	if core.Dying() {
		return
	}
	m.wwaiting++
	for m.writer || m.readers > 0 {
		m.q.wait("rwmutex lock")
	}
	m.wwaiting--
	m.writer = true
	core.Acq(&m.wtok)
	core.Acq(&m.rtok)
}

func (m *RWMutex) TryLock() bool {
	core.Yield("trylock")
	if core.Dying() {
		return true
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	core.Acq(&m.wtok)
	core.Acq(&m.rtok)
	return true
}

func (m *RWMutex) Unlock() {
	if core.Dying() {
		return
	}
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	core.Rel(&m.wtok)
	m.writer = false
	m.q.wakeAll()
	core.Yield("unlock")
}

func (m *RWMutex) RLock() {
	core.Yield("rlock")
	if core.Dying() {
		return
	}
	for m.writer || m.wwaiting > 0 {
		m.q.wait("rwmutex rlock")
	}
	m.readers++
	core.Acq(&m.wtok)
}

func (m *RWMutex) TryRLock() bool {
	core.Yield("tryrlock")
	if core.Dying() {
		return true
	}
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	core.Acq(&m.wtok)
	return true
}

func (m *RWMutex) RUnlock() {
	if core.Dying() {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	core.RelMerge(&m.rtok)
	m.readers--
	if m.readers == 0 {
		m.q.wakeAll()
	}
	core.Yield("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n   int
	q   waitq
	tok int64
}

func (w *WaitGroup) Add(d int) {
	core.Yield("wg.add")
	if core.Dying() {
		return
	}
	if d < 0 {
		core.RelMerge(&w.tok)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	core.Yield("wg.wait")
	if core.Dying() {
		return
	}
	for w.n > 0 {
		w.q.wait("waitgroup")
	}
	core.Acq(&w.tok)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	core.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated sync.Once.
type Once struct {
	done    bool
	running bool
	q       waitq
	tok     int64
}

func (o *Once) Do(f func()) {
	core.Yield("once")
	if core.Dying() {
		return
	}
	for {
		if o.done {
			core.Acq(&o.tok)
			return
		}
		if !o.running {
			break
		}
		o.q.wait("once")
	}
	o.running = true
	defer func() {
		if core.Dying() {
			return
		}
		o.running = false
		o.done = true
		core.RelMerge(&o.tok)
		o.q.wakeAll()
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L   Locker
	q   waitq
	tok int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if core.Dying() {
		return
	}
	g := core.Cur()
	c.q.gs = append(c.q.gs, g)
	c.L.Unlock()
	for c.queued(g) {
		core.Park("cond wait")
		if core.Dying() {
			return
		}
	}
	core.Acq(&c.tok)
	c.L.Lock()
}

func (c *Cond) queued(g *core.G) bool {
	for _, x := range c.q.gs {
		if x == g {
			return true
		}
	}
	return false
}

func (c *Cond) Signal() {
	core.Yield("signal")
	core.RelMerge(&c.tok)
	c.q.wakeOne()
}

func (c *Cond) Broadcast() {
	core.Yield("broadcast")
	core.RelMerge(&c.tok)
	c.q.wakeAll()
}

// Pool really reuses what was put into it (last in, first out).
type Pool struct {
	New   func() any
	items []poolItem
}

type poolItem struct {
	v   any
	tok *int64
}

func (p *Pool) Put(x any) {
	core.Yield("pool.put")
	if core.Dying() || x == nil {
		return
	}
	t := new(int64)
	core.Rel(t)
	p.items = append(p.items, poolItem{x, t})
}

func (p *Pool) Get() any {
	core.Yield("pool.get")
	if n := len(p.items); n > 0 && !core.Dying() {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		core.Acq(it.tok)
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map is a simulated sync.Map with a deterministic iteration order.
type Map struct {
	es []*entry
}

type entry struct {
	k, v any
	tok  int64
}

func (m *Map) find(k any) (int, *entry) {
	for i, e := range m.es {
		if e.k == k {
			return i, e
		}
	}
	return -1, nil
}

func (m *Map) Load(k any) (any, bool) {
	core.Yield("map.load")
	_, e := m.find(k)
	if e == nil {
		return nil, false
	}
	core.Acq(&e.tok)
	return e.v, true
}

func (m *Map) put(k, v any) {
	e := &entry{k: k, v: v}
	core.Rel(&e.tok)
	if i, _ := m.find(k); i >= 0 {
		es := core.Copied(m.es, -1)
		es[i] = e
		m.es = es
		return
	}
	m.es = append(core.Copied(m.es, -1), e)
}

func (m *Map) del(k any) {
	if i, _ := m.find(k); i >= 0 {
		m.es = core.Copied(m.es, i)
	}
}

func (m *Map) Store(k, v any) {
	core.Yield("map.store")
	if core.Dying() {
		return
	}
	m.put(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	core.Yield("map.loadorstore")
	if _, e := m.find(k); e != nil {
		core.Acq(&e.tok)
		return e.v, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	core.Yield("map.loadanddelete")
	_, e := m.find(k)
	if e == nil {
		return nil, false
	}
	core.Acq(&e.tok)
	m.del(k)
	return e.v, true
}

func (m *Map) Delete(k any) {
	core.Yield("map.delete")
	if core.Dying() {
		return
	}
	m.del(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	core.Yield("map.swap")
	_, e := m.find(k)
	m.put(k, v)
	if e == nil {
		return nil, false
	}
	core.Acq(&e.tok)
	return e.v, true
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	core.Yield("map.cas")
	_, e := m.find(k)
	if e == nil || e.v != old {
		return false
	}
	m.put(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	core.Yield("map.cad")
	_, e := m.find(k)
	if e == nil || e.v != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	core.Yield("map.clear")
	m.es = nil
}

func (m *Map) Range(f func(k, v any) bool) {
	core.Yield("map.range")
	for _, e := range core.Copied(m.es, -1) {
		_, c := m.find(e.k)
		if c == nil {
			continue
		}
		core.Acq(&c.tok)
		if !f(c.k, c.v) {
			return
		}
		core.Yield("map.range")
	}
}
