// What the server remembers of connections that are over.
package main

import (
	"reflect"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// holdings counts the map entries, slice elements and objects reachable from
// a value, apart from the simulator's own.
type holdings struct {
	n    int
	seen map[unsafe.Pointer]bool
}

func (h *holdings) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	if p := t.PkgPath(); strings.HasPrefix(p, "gosim/") && !strings.HasPrefix(p, "gosim/ssync") {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		p := v.UnsafePointer()
		if p == nil || h.seen[p] {
			return
		}
		if q := t.Elem().PkgPath(); strings.HasPrefix(q, "gosim/") && !strings.HasPrefix(q, "gosim/ssync") || q == "reflect" || q == "internal/abi" {
			return
		}
		h.seen[p] = true
		h.n++
		h.walk(v.Elem())
	case reflect.Interface:
		h.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h.walk(v.Field(i))
		}
	case reflect.Array, reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Uint8, reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Int:
			if v.Kind() == reflect.Slice {
				h.n += v.Len()
			}
			return
		}
		if v.Kind() == reflect.Slice {
			h.n += v.Len()
		}
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i))
		}
	case reflect.Map:
		p := v.UnsafePointer()
		if p == nil || h.seen[p] {
			return
		}
		h.seen[p] = true
		for it := v.MapRange(); it.Next(); {
			h.n++
			h.walk(it.Key())
			h.walk(it.Value())
		}
	}
}

// what a running server holds more than one just created, generously
const slack = 40

func held(srv *go808.Server) int {
	h := &holdings{seen: map[unsafe.Pointer]bool{}}
	h.walk(reflect.ValueOf(srv))
	return h.n
}

// scenSoak: many connections come and go, some at a time; what the server
// holds afterwards does not grow with their number.
func scenSoak() {
	netCfg().DelayMin = ms
	core.TrackAll()
	keep := int64(36000)
	if core.WP(0.3) {
		keep = 5
	}
	merge := core.WP(0.3)
	var fl *fleet
	var refs []weak.Pointer[go808.Session]
	closed, served, base := 0, 0, 0
	fl = newFleet(srvOpt{keepalive: keep, merge: merge, onClose: func(s *go808.Session) {
		closed++
		refs = append(refs, weak.Make(s))
	}, setup: func(srv *go808.Server) { base = held(srv) }})
	mode := core.W(6) // how all of them behave, or 0: each as it likes
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		switch core.W(5) {
		case 1:
			s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		case 2:
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		case 3:
			s.Close()
		}
	}
	// terminal numbers: few; all different; several per connection
	numbers := core.W(3)
	e := fl.e
	batch := func(n int) {
		done := 0
		fl.ts = nil
		for i := 0; i < n; i++ {
			t := fl.addQuiet()
			if t.conn == nil {
				core.Fail("a terminal cannot connect after %d have", served)
			}
			if numbers > 0 {
				t.phone = uint64(13800000000 + served*8 + i*8)
			}
			how := mode
			if how == 0 {
				how = 1 + core.W(5)
			}
			core.GoIn(core.CurGroup(), t.name, func() {
				for j := core.W(3) + numbers/2; j > 0; j-- {
					if numbers == 2 {
						t.phone++
					}
					f, _ := t.up(0x0200, sampleLoc())
					if core.W(4) == 3 {
						s := sno(t.idx, t.next())
						f = frame(hdr{id: 0x0801, phone: t.phone, serial: s, packet: true, sum: 1, seq: 1}, partBody(0x0801, 1, content(40)))
					}
					if !t.write(f) {
						break
					}
				}
				core.SleepFor(int64(core.W(20)) * ms)
				switch how {
				case 1:
					t.close()
				case 2:
					t.conn.Reset()
				case 3:
					t.write([]byte{0x7e, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x7e})
				case 4:
					t.conn.CloseWrite()
				case 5:
					if t.box.s != nil {
						e.app("closer", func() { t.box.get().Close() })
					} else {
						t.close()
					}
				}
				done++
				core.Poke()
			})
		}
		must(300*sec, "terminals do not finish within 300 s", func() bool { return done == n })
		served += n
		core.SleepFor(5 * sec)
		for _, t := range fl.ts {
			t.conn.Close()
			t.box = Box{}
		}
		fl.ts = nil
		core.Poke()
		if !core.WaitFor(60*sec, func() bool { return closed == served }) {
			core.Fail("%d connections have ended and %d closes are reported", served, closed)
		}
		core.SleepFor(10 * sec)
	}
	n := 10 + core.W(6)
	for i := 0; i < n; i++ {
		batch(10 + core.W(6))
	}
	if keep == 5 {
		core.SleepFor(20 * sec)
	}
	core.AcqAll()
	// the last look: nothing runs after it
	now := held(e.srv)
	core.Note("check", "the server holds %d objects when created, %d after %d connections", base, now, served)
	if grown := now - base - slack; grown > served/2 {
		core.Fail("what the server holds grows with the number of connections it has served: it has %d more objects after %d connections have come and gone", grown, served)
	}
	runtime.GC()
	kept := 0
	for _, w := range refs {
		if w.Value() != nil {
			kept++
		}
	}
	if kept > len(refs)/3 {
		core.Fail("%d of the sessions of %d ended connections are still held in memory", kept, served)
	}
	core.State(uint64(served))
}
