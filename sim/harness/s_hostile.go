// Hostile and broken input on some connections, ordinary traffic on others.
package main

import (
	"encoding/binary"
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
)

const (
	inFatal   = iota // the framing is broken: the connection ends
	inRefused        // a well-formed frame that cannot be understood: answered
	inFine           // an ordinary message
	inUnsure         // not specified
	inPartial        // no complete frame
)

// classify says what the first frame of a byte stream is.
func classify(b []byte) int {
	if len(b) == 0 {
		return inPartial
	}
	if b[0] != 0x7e {
		return inFatal
	}
	end := -1
	for i := 1; i < len(b); i++ {
		if b[i] == 0x7e {
			end = i
			break
		}
	}
	if end < 0 {
		if len(b) > 0xffff+200 {
			return inFatal
		}
		return inPartial
	}
	if end > 0xffff-1000 {
		return inUnsure
	}
	f := b[:end+1]
	raw := make([]byte, 0, len(f))
	for i := 1; i < len(f)-1; i++ {
		c := f[i]
		if c == 0x7d {
			i++
			if f[i] == 1 {
				c = 0x7d
			} else if f[i] == 2 {
				c = 0x7e
			} else {
				return inFatal
			}
		}
		raw = append(raw, c)
	}
	var x byte
	for _, c := range raw {
		x ^= c
	}
	if len(raw) < 13 || x != 0 {
		return inFatal
	}
	raw = raw[:len(raw)-1]
	prop := binary.BigEndian.Uint16(raw[2:])
	hl := 12
	if prop&(1<<13) != 0 {
		hl = 16
	}
	for _, c := range raw[4:10] {
		if c>>4 > 9 || c&15 > 9 {
			return inFatal
		}
	}
	if len(raw) < hl {
		return inFatal
	}
	if int(prop&0x3ff) != len(raw)-hl {
		return inRefused
	}
	if prop&(1<<10) != 0 {
		return inUnsure
	}
	if id := binary.BigEndian.Uint16(raw); typeByID(id) == nil && id != 0x0f01 && id != 0x0f03 {
		return inRefused
	}
	return inUnsure
}

// attack returns the bytes of one attack; m is a message of the attacker whose
// frame it may damage.
func attack(m *inMsg) (string, []byte) {
	w := append([]byte{}, m.wire...)
	r := rnd{uint64(core.WBits())}
	switch core.W(16) {
	case 0:
		return "empty frame", []byte{0x7e, 0x7e}
	case 1:
		return "one-byte frame", []byte{0x7e, byte(core.W(256)), 0x7e}
	case 2:
		return "garbage", r.bytes(1 + core.W(200))
	case 3:
		w[1+core.W(len(w)-2)] ^= byte(1 + core.W(255))
		return "bit flips", w
	case 4:
		i := core.W(len(w))
		return "byte lost", append(append([]byte{}, w[:i]...), w[i+1:]...)
	case 5:
		i := core.W(len(w))
		return "byte inserted", append(append(append([]byte{}, w[:i]...), byte(core.W(256))), w[i:]...)
	case 6:
		i := 1 + core.W(len(w)-2)
		return "frame cut short", append(append([]byte{}, w[:i]...), 0x7e)
	case 7:
		n := core.W(14)
		return "short frame with a good checksum", wrap(r.bytes(n))
	case 8:
		h := m.h
		h.packet = true
		raw := rawHeader(h, 0)
		return "packet header cut short", wrap(raw[:12+core.W(4)])
	case 9:
		i := 1 + core.W(len(w)-1)
		return "bad escape", append(append(append([]byte{}, w[:i]...), 0x7d, byte(3+core.W(100))), w[i:]...)
	case 10:
		if core.W(8) != 7 {
			break
		}
		netCfg().ReadMode, netCfg().SegMode = 0, 0
		b := make([]byte, 65800+core.W(3)*1000)
		b[0] = 0x7e
		for i := 1; i < len(b); i++ {
			b[i] = byte(i%100) + 1
		}
		return "frame that never ends", b
	case 11:
		n := []int{1024, 1030, 2047, 5000}[core.W(4)]
		if n > 2000 {
			netCfg().ReadMode, netCfg().SegMode = 0, 0
		}
		return "body longer than its header can say", wrap(append(rawHeader(m.h, n), make([]byte, n)...))
	case 12:
		h := m.h
		h.crypt = true
		return "encrypted without a key", frame(h, r.bytes(128))
	case 13:
		return "checksum left unescaped", bareChecksum(hdr{id: 0x0002, phone: m.h.phone, serial: m.h.serial}, nil)
	case 14:
		raw := append(rawHeader(m.h, len(m.body)), m.body...)
		if core.W(2) == 1 {
			raw[4+core.W(6)] |= byte(0xa + 2*core.W(3))
		} else {
			raw[4+core.W(6)] |= byte(0xa0 + 0x20*core.W(3))
		}
		return "terminal number that is not decimal", wrap(raw)
	}
	i := core.W(len(w))
	return "frame interrupted by another", append(append([]byte{}, w[:i]...), w...)
}

func scenHostile() {
	randNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 3*sec)
	}
	netCfg().RstOnClose = float64(core.W(2))
	in := newInbound(srvOpt{keepalive: 3600, merge: core.WP(0.3), types: typeIDs(), setup: func(*go808.Server) {
		registerOwn()
	}})
	in.lax = true
	done, total := 0, 0
	nv := 1 + core.W(2)
	for i := 0; i < nv; i++ {
		it := in.addTerm()
		for j, k := 0, 1+core.W(8); j < k; j++ {
			it.draw(true, true)
		}
		total++
		core.GoIn(core.CurGroup(), it.t.name, func() {
			for _, m := range it.msgs {
				it.sent++
				if !it.t.writeCut(m.wire, core.W(4)) {
					core.Fail("the server breaks the connection of %s, which sends well-formed messages, while others misbehave", it.t.name)
				}
				core.SleepFor(int64(core.W(1500)) * ms)
			}
			done++
			core.Poke()
		})
	}
	type enemy struct {
		it   *inTerm
		cls  int
		what string
		at   int64
	}
	var es []*enemy
	na := 1 + core.W(4)
	for i := 0; i < na; i++ {
		it := in.addTerm()
		en := &enemy{it: it}
		es = append(es, en)
		total++
		pre, post := core.W(3), core.W(3)
		for j := 0; j < pre; j++ {
			it.draw(true, true)
		}
		bad := it.draw(true, true)
		what, b := attack(bad)
		core.Count("hostile: " + what)
		en.what = what
		for j := 0; j < post; j++ {
			it.draw(true, true)
		}
		rest := b
		for _, m := range it.msgs[pre+1:] {
			rest = append(rest[:len(rest):len(rest)], m.wire...)
		}
		en.cls = classify(rest)
		if what == "encrypted without a key" {
			en.cls = inFatal
		}
		for j, m := range it.msgs {
			switch {
			case j < pre:
			case en.cls == inFatal || j == pre && en.cls == inRefused && len(b) > 0:
				m.expect = 0
			case en.cls == inRefused && what == "body longer than its header can say":
			default:
				m.expect = 2
			}
		}
		core.Note("attack", "%s: %s class %d, %d messages before and %d after", it.t.name, what, en.cls, pre, post)
		core.GoIn(core.CurGroup(), it.t.name, func() {
			core.SleepFor(int64(core.W(2000)) * ms)
			mode := core.W(4)
			if len(rest) > 1500 {
				mode = 0
			}
			ok := true
			for _, m := range it.msgs[:pre] {
				it.sent++
				ok = ok && it.t.writeCut(m.wire, mode)
			}
			it.sent = len(it.msgs)
			if core.W(2) == 1 {
				ok = ok && it.t.writeCut(rest, mode)
			} else {
				ok = ok && it.t.writeCut(b, mode)
				core.SleepFor(int64(core.W(2000)) * ms)
				ok = ok && it.t.writeCut(rest[len(b):], mode)
			}
			en.at = core.Now()
			done++
			core.Poke()
		})
	}
	must(900*sec, "a terminal cannot send its messages within 900 s while others misbehave", func() bool { return done == total })
	core.StopFaults()
	core.SleepFor(15 * sec)
	for _, en := range es {
		t := en.it.t
		if en.cls == inFatal && !t.eof {
			core.Fail("%s sends a malformed frame (%s) and its connection is still open 15 s later", t.name, en.what)
		}
		if en.cls == inRefused && en.what == "body longer than its header can say" && t.eof {
			core.Fail("%s sends a well-formed frame that cannot be understood (%s) and its connection is closed", t.name, en.what)
		}
		if !en.it.allGot() {
			k := en.it.missing()
			core.Fail("message %d of %s (type %04x), sent %s, is never delivered", k, t.name, en.it.msgs[k].h.id, map[bool]string{true: "before it misbehaves", false: "after a frame that is only refused"}[en.cls == inFatal])
		}
	}
	// new terminals are still served
	it := in.addTerm()
	it.draw(true, false)
	it.send()
	ids := 0
	for _, it := range in.ts {
		if it.idx < nv || it.idx >= nv+na {
			if !core.WaitFor(60*sec, it.allGot) {
				core.Fail("message %d of %s is not delivered while others misbehave", it.missing(), it.t.name)
			}
			if it.t.eof {
				core.Fail("the connection of %s, which sends well-formed messages, is closed while others misbehave", it.t.name)
			}
		}
		if it.sess != nil {
			ids++
		}
	}
	// every connection that ended is reported once, no other
	core.WaitFor(30*sec, func() bool { return len(in.e.closes) >= fatalCount(in) })
	core.SleepFor(2 * sec)
	in.e.sync()
	for _, it := range in.ts {
		if it.sess == nil {
			continue
		}
		n := in.e.closeCount(it.sessID)
		want := 0
		if it.t.eof {
			want = 1
		}
		if n != want {
			core.Fail("the close of the connection of %s (closed: %v) is reported %d times", it.t.name, it.t.eof, n)
		}
	}
	core.State(uint64(ids))
	in.recheck()
}

func fatalCount(in *inbound) int {
	n := 0
	for _, it := range in.ts {
		if it.t.eof {
			n++
		}
	}
	return n
}

var _ = fmt.Sprint

func init() {
	register(&property{id: "C05", level: "exploration", runs: 10000, scen: []scenario{{"hostile", 1, scenHostile}}})
}
