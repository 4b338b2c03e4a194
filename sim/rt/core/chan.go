//go:build go1.24

package core

import "unsafe"

// Channels of the code under test keep their identity (a real channel that is
// never used for communication); their contents live here.

type chanState struct {
	id     uintptr
	keep   any
	cap    int
	buf    []any
	toks   []*int64
	slot   int
	closed bool
	ctok   int64
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g     *G
	sel   *selWait
	idx   int
	val   any
	ok    bool
	tok   *int64
	peer  *int64
	ready bool
}

type selWait struct {
	g    *G
	done bool
	idx  int
	w    *waiter
}

type chanTable struct {
	slots [][]*chanState
}

var chans chanTable

func (t *chanTable) reset() { t.slots = make([][]*chanState, 256) }

func (t *chanTable) get(id uintptr, keep any, capacity int) *chanState {
	h := (id >> 4) % 256
	for _, c := range t.slots[h] {
		if c.id == id {
			return c
		}
	}
	c := &chanState{id: id, keep: keep, cap: capacity}
	for i := 0; i < capacity; i++ {
		c.toks = append(c.toks, new(int64))
	}
	t.slots[h] = append(t.slots[h], c)
	return c
}

func (c *chanState) nextTok() *int64 {
	t := c.toks[c.slot%c.cap]
	return t
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.done {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		if (*q)[0].sel.done {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (w *waiter) complete() {
	w.sel.done = true
	w.sel.idx = w.idx
	w.sel.w = w
	w.ready = true
	makeReady(w.g)
}

func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(&c.recvq)
}

func (c *chanState) canRecv() bool {
	return len(c.buf) > 0 || c.closed || hasWaiter(&c.sendq)
}

type bufItem struct {
	v   any
	tok *int64
}

// doSend performs a send that canSend said is possible.
func (c *chanState) doSend(v any) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := popWaiter(&c.recvq); w != nil {
		t := new(int64)
		raceRelease(tokp(t))
		raceAcquire(tokp(w.peer))
		w.val, w.ok, w.tok = v, true, t
		w.complete()
		return
	}
	t := new(int64)
	// the k-th receive happens before the (k+cap)-th send completes
	raceAcquire(tokp(c.toks[c.slot%c.cap]))
	raceRelease(tokp(t))
	c.slot++
	c.buf = append(c.buf, bufItem{v, t})
}

func (c *chanState) doRecv() (any, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0].(bufItem)
		c.buf[0] = nil
		c.buf = c.buf[1:]
		raceAcquire(tokp(it.tok))
		raceReleaseMerge(tokp(c.toks[(c.slot-len(c.buf)-1+c.cap*2)%c.cap]))
		if w := popWaiter(&c.sendq); w != nil {
			raceReleaseMerge(tokp(w.tokp()))
			c.slot++
			c.buf = append(c.buf, bufItem{w.val, w.peer})
			w.complete()
		}
		return it.v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		t := new(int64)
		raceRelease(tokp(t))
		raceAcquire(tokp(w.peer))
		w.tok = t
		v := w.val
		w.complete()
		return v, true
	}
	// closed
	raceAcquire(tokp(&c.ctok))
	return nil, false
}

func (w *waiter) tokp() *int64 {
	if w.tok == nil {
		w.tok = new(int64)
	}
	return w.tok
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func chanSend(c *chanState, v any) {
	Yield("send")
	if Dying() {
		return
	}
	if c == nil {
		for {
			Park("send on nil channel")
		}
	}
	if c.canSend() {
		c.doSend(v)
		return
	}
	sw := &selWait{g: cur}
	w := &waiter{g: cur, sel: sw, val: v, peer: new(int64)}
	raceRelease(tokp(w.peer))
	c.sendq = append(c.sendq, w)
	Park("chan send")
	if w.tok != nil {
		raceAcquire(tokp(w.tok))
	}
	if !w.ready && c.closed && !Dying() {
		panic(plainError("send on closed channel"))
	}
	Note("chan", "send completes")
}

func chanRecv(c *chanState) (any, bool) {
	Yield("recv")
	if Dying() {
		return nil, false
	}
	if c == nil {
		for {
			Park("receive from nil channel")
		}
	}
	if c.canRecv() {
		return c.doRecv()
	}
	sw := &selWait{g: cur}
	w := &waiter{g: cur, sel: sw, peer: new(int64)}
	raceRelease(tokp(w.peer))
	c.recvq = append(c.recvq, w)
	Park("chan receive")
	if w.ready && w.ok {
		raceAcquire(tokp(w.tok))
		return w.val, true
	}
	raceAcquire(tokp(&c.ctok))
	return nil, false
}

func chanClose(c *chanState) {
	Yield("close")
	if Dying() {
		return
	}
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	raceRelease(tokp(&c.ctok))
	c.closed = true
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		w.complete()
		w.ok = false
	}
	for w := popWaiter(&c.sendq); w != nil; w = popWaiter(&c.sendq) {
		w.complete()
		w.ready = false
	}
}

// TrySendEvent is a non-blocking send from event context (tickers).
func trySendEvent(c *chanState, v any, tok *int64) bool {
	if c.closed {
		return false
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.val, w.ok, w.tok = v, true, tok
		w.complete()
		return true
	}
	if len(c.buf) < c.cap {
		c.slot++
		c.buf = append(c.buf, bufItem{v, tok})
		return true
	}
	return false
}

// ---------------------------------------------------------------- generic front end

func stateOf(p unsafe.Pointer, keep any, capacity int) *chanState {
	if p == nil {
		return nil
	}
	return chans.get(uintptr(p), keep, capacity)
}

func csend[T any](c chan<- T) *chanState {
	return stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c))
}

func crecv[T any](c <-chan T) *chanState {
	return stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c))
}

// SendOp(c)(v) is c <- v.
func SendOp[T any](c chan<- T) func(T) {
	return func(v T) { SendAny(csend(c), v) }
}

func as[T any](v any) (t T) {
	if v == nil {
		return t
	}
	return v.(T)
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := RecvAny(crecv(c))
	return as[T](v)
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	v, ok := RecvAny(crecv(c))
	return as[T](v), ok
}

func SendAny(c *chanState, v any)      { chanSend(c, v) }
func RecvAny(c *chanState) (any, bool) { return chanRecv(c) }
func CloseAny(c *chanState)            { chanClose(c) }
func LenAny(c *chanState) int {
	Yield("len")
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func Close[T any](c chan<- T)    { CloseAny(csend(c)) }
func Len[T any](c <-chan T) int  { return LenAny(crecv(c)) }
func LenS[T any](c chan<- T) int { return LenAny(csend(c)) }

// TrySend is a non-blocking send performed by the simulated kernel.
func TrySend[T any](c chan T, v T, tok *int64) bool { return trySendEvent(csend[T](c), v, tok) }

// ChanIter implements for v := range c.
type ChanIter[T any] struct{ c <-chan T }

func RangeChan[T any](c <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{c}, z
}

func (it *ChanIter[T]) Next(p *T) bool {
	v, ok := Recv2(it.c)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// ---------------------------------------------------------------- select

type SelCase interface{ selCase() *selC }

type selC struct {
	c    *chanState
	send bool
	v    any
	rv   any
	rok  bool
}

func (s *selC) selCase() *selC { return s }

type RC[T any] struct{ selC }

func (r *RC[T]) selCase() *selC  { return &r.selC }
func (r *RC[T]) Val() T          { return as[T](r.rv) }
func (r *RC[T]) Val2() (T, bool) { return as[T](r.rv), r.rok }

// RCase is a receive case.
func RCase[T any](c <-chan T) *RC[T] { r := &RC[T]{}; r.c = crecv(c); return r }

// SCase(c)(v) is a send case.
func SCase[T any](c chan<- T) func(T) SelCase {
	return func(v T) SelCase { return &selC{c: csend(c), send: true, v: v} }
}

// Wait performs the select and returns the index of the chosen case, or -1
// for the default.
func Wait(hasDefault bool, cases ...SelCase) int {
	Yield("select")
	if Dying() {
		return deadSelect(hasDefault)
	}
	var rd []int
	for i, k := range cases {
		s := k.selCase()
		if s.c == nil {
			continue
		}
		if s.send && s.c.canSend() || !s.send && s.c.canRecv() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[0]
		if len(rd) > 1 {
			c := ch
			i = rd[c.decide(SS, uint32(len(rd)), func() uint32 { return uint32(splitmix(&c.rng[SS]) % uint64(len(rd))) })]
		}
		s := cases[i].selCase()
		if s.send {
			s.c.doSend(s.v)
		} else {
			s.rv, s.rok = s.c.doRecv()
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sw := &selWait{g: cur}
	for i, k := range cases {
		s := k.selCase()
		if s.c == nil {
			continue
		}
		w := &waiter{g: cur, sel: sw, idx: i, val: s.v, peer: new(int64)}
		raceRelease(tokp(w.peer))
		if s.send {
			s.c.sendq = append(s.c.sendq, w)
		} else {
			s.c.recvq = append(s.c.recvq, w)
		}
	}
	for !sw.done {
		Park("select")
		if Dying() {
			return deadSelect(hasDefault)
		}
	}
	s := cases[sw.idx].selCase()
	w := sw.w
	if s.send {
		if !w.ready {
			panic(plainError("send on closed channel"))
		}
		if w.tok != nil {
			raceAcquire(tokp(w.tok))
		}
		return sw.idx
	}
	if w.ok {
		raceAcquire(tokp(w.tok))
		s.rv, s.rok = w.val, true
	} else {
		raceAcquire(tokp(&s.c.ctok))
	}
	return sw.idx
}

func deadSelect(hasDefault bool) int { return -1 }

// BlockForever is select {}.
func BlockForever() {
	for !Dying() {
		Park("select {}")
	}
}
