//go:build go1.24

// Package smisc holds the remaining replacements: scheduling calls, console
// output, randomness, io.Pipe and context.
package smisc

import (
	"context"
	"errors"
	"fmt"
	"gosim/core"
	"gosim/stime"
	"io"
	"math/big"
	"runtime"
	"time"
)

func Gosched()          { core.Yield("gosched") }
func NumGoroutine() int { return core.NumGoroutine() }
func Goexit()           { runtime.Goexit() }
func PrintStack()       {}

func Print(a ...any) (int, error)            { return len(fmt.Sprint(a...)), nil }
func Printf(f string, a ...any) (int, error) { return len(fmt.Sprintf(f, a...)), nil }
func Println(a ...any) (int, error)          { return len(fmt.Sprintln(a...)), nil }

// ---- randomness: drawn from the workload stream

func Uint32() uint32 { return core.WBits() }
func Uint64() uint64 { return uint64(core.WBits())<<32 | uint64(core.WBits()) }
func Int63() int64   { return int64(Uint64() >> 1) }
func Int() int       { return int(Int63()) }
func Int31() int32   { return int32(Uint32() >> 1) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return Int63() % n
}
func Int31n(n int32) int32 { return int32(Int63n(int64(n))) }
func Intn(n int) int       { return int(Int63n(int64(n))) }
func Float64() float64     { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32     { return float32(Float64()) }
func Seed(int64)           {}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func MathRead(p []byte) (int, error) { return CryptoRead(p) }
func CryptoRead(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(core.WBits())
	}
	return len(p), nil
}

type cr struct{}

func (cr) Read(p []byte) (int, error) { return CryptoRead(p) }

var CryptoReader io.Reader = cr{}

func CryptoInt(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	io.ReadFull(r, b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

// ---- io.Pipe

type pipe struct {
	buf    []byte
	tok    int64
	rerr   error
	werr   error
	closed bool
	ws     []*core.G
}

func (p *pipe) wake() {
	for _, g := range p.ws {
		core.Ready(g)
	}
	p.ws = nil
}

func (p *pipe) wait() { p.ws = append(p.ws, core.Cur()); core.Park("pipe") }

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) { p := &pipe{}; return &PipeReader{p}, &PipeWriter{p} }

func (r *PipeReader) Read(b []byte) (int, error) {
	core.Yield("pipe.read")
	for !core.Dying() {
		if r.p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if len(r.p.buf) > 0 {
			n := copy(b, r.p.buf)
			r.p.buf = r.p.buf[n:]
			core.Acq(&r.p.tok)
			r.p.wake()
			return n, nil
		}
		if r.p.werr != nil {
			return 0, r.p.werr
		}
		r.p.wait()
	}
	return 0, io.EOF
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.wake()
	return nil
}
func (w *PipeWriter) Write(b []byte) (int, error) {
	core.Yield("pipe.write")
	for !core.Dying() && len(w.p.buf) > 0 && w.p.rerr == nil {
		w.p.wait()
	}
	if w.p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	core.RelMerge(&w.p.tok)
	w.p.buf = append([]byte{}, b...)
	w.p.wake()
	for !core.Dying() && len(w.p.buf) > 0 && w.p.rerr == nil {
		w.p.wait()
	}
	if w.p.rerr != nil {
		return len(b) - len(w.p.buf), w.p.rerr
	}
	return len(b), nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.wake()
	return nil
}

// ---- context

type ctx struct {
	parent context.Context
	done   chan struct{}
	err    error
	dl     time.Time
	kids   []*ctx
	tok    int64
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.dl.IsZero() {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { core.Yield("ctx.err"); core.Acq(&c.tok); return c.err }
func (c *ctx) Value(k any) any       { return c.parent.Value(k) }

func (c *ctx) cancel(err error) {
	core.Yield("ctx.cancel")
	if c.err != nil {
		return
	}
	core.RelMerge(&c.tok)
	c.err = err
	core.Close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c, func() { c.cancel(context.Canceled) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	x, cancel := WithCancel(parent)
	c := x.(*ctx)
	c.dl = stime.Now().Add(d)
	t := stime.AfterFunc(d, func() { c.cancel(context.DeadlineExceeded) })
	return c, func() { t.Stop(); cancel() }
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, stime.Until(t))
}

var _ = errors.New
