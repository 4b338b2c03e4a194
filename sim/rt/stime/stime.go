// Package stime replaces the clock and timers of package time.
package stime

import (
	"gosim/core"
	"time"
	"unsafe"
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	wallToIntern = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToIntern = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

// Now is the simulated wall clock, carrying the simulated monotonic clock.
func Now() time.Time {
	core.Yield("time.Now")
	return now()
}

func now() time.Time {
	s, ns := core.WallNow()
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	isec := s + unixToIntern - wallToIntern
	r.wall = hasMonotonic | uint64(isec)<<30 | uint64(ns)
	r.ext = core.Now() + 1
	r.loc = time.Local
	return t
}

func init() {
	t := now()
	s, ns := core.WallNow()
	if !t.Equal(time.Unix(s, ns)) || t.Round(0).Unix() != s {
		panic("stime: the layout of time.Time is not the expected one")
	}
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	core.Yield("sleep")
	if d > 0 {
		core.SleepFor(int64(d))
	}
}

// Timer is a simulated time.Timer.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	ev  *core.Event
	f   func()
	gr  *core.Group
	tok *int64
}

func (t *Timer) arm(d time.Duration) {
	tok := new(int64)
	core.Rel(tok)
	t.tok = tok
	t.ev = core.At(int64(d), func() {
		if t.gr.Dead {
			return
		}
		if t.f != nil {
			core.SpawnClean("afterfunc", t.gr, tok, t.f)
			return
		}
		core.TrySend(t.c, now(), tok)
	})
}

func group() *core.Group { return core.CurGroup() }

func NewTimer(d time.Duration) *Timer {
	core.Yield("newtimer")
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, gr: group()}
	if core.Dying() {
		return t
	}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	core.Yield("afterfunc")
	t := &Timer{f: f, gr: group()}
	if core.Dying() {
		return t
	}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	core.Yield("timer.stop")
	if core.Dying() {
		return false
	}
	return core.Cancel(t.ev)
}

func (t *Timer) Reset(d time.Duration) bool {
	core.Yield("timer.reset")
	if core.Dying() {
		return false
	}
	was := core.Cancel(t.ev)
	t.arm(d)
	return was
}

// Ticker is a simulated time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	ev  *core.Event
	d   time.Duration
	gr  *core.Group
	tok *int64
}

func NewTicker(d time.Duration) *Ticker {
	core.Yield("newticker")
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, gr: group(), tok: new(int64)}
	if core.Dying() {
		return t
	}
	core.Rel(t.tok)
	t.next()
	return t
}

func (t *Ticker) next() {
	t.ev = core.At(int64(t.d), func() {
		if t.gr.Dead {
			return
		}
		core.TrySend(t.c, now(), t.tok)
		t.next()
	})
}

func (t *Ticker) Stop() {
	core.Yield("ticker.stop")
	if core.Dying() {
		return
	}
	core.Cancel(t.ev)
}

func (t *Ticker) Reset(d time.Duration) {
	core.Yield("ticker.reset")
	if core.Dying() {
		return
	}
	core.Cancel(t.ev)
	t.d = d
	t.next()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
