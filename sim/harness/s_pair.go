// Several servers in one process: each is a world of its own.
package main

import (
	"bytes"
	"crypto/rsa"
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type pairSrv struct {
	n      int
	fl     *fleet
	o      srvOpt
	deaf   bool // no handler for location reports
	ts     []*pairTerm
	bcasts [][]byte
	bdone  []int64 // when the call returned, -1: not yet
	down   bool
}

type pairTerm struct {
	t      *Term
	sv     *pairSrv
	expect []pairMsg
	got    int
	id     uint64
	hasID  bool
	silent bool
	cut    bool // its connection may be ended by the server
	ended  bool
	done   bool
	cbs    int
	joined int // broadcasts of its server made before it was known
	gone   int // broadcasts made before it began to end
}

type pairMsg struct {
	id     uint16
	serial uint16
	data   []byte // of a packet
}

// settled is the number of broadcasts that have certainly arrived.
func (sv *pairSrv) settled() int {
	for i, at := range sv.bdone {
		if at < 0 || core.Now()-at < sec {
			return i
		}
	}
	return len(sv.bdone)
}

func scenPair() {
	randNet()
	quietNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	ns := 2 + core.W(2)
	var svs []*pairSrv
	where := func(sv *pairSrv) string { return fmt.Sprintf("server %d of %d", sv.n+1, ns) }
	twin := core.WP(0.3)
	keys := []*rsa.PrivateKey{nil, testKey, testKey2}
	for i := 0; i < ns; i++ {
		sv := &pairSrv{n: i}
		svs = append(svs, sv)
		sv.o = srvOpt{keepalive: 36000, merge: core.W(2) == 1, port: 8808 + i, priv: keys[core.W(3)]}
		if core.W(3) == 2 {
			sv.o.keepalive = 6 + int64(core.W(5))
		}
		sv.deaf = core.W(4) == 3
		sv.o.types = nil
		for _, id := range typeIDs() {
			if id != 0x0200 || !sv.deaf {
				sv.o.types = append(sv.o.types, id)
			}
		}
		sv.o.types = append(sv.o.types, 0x0f01)
		sv.fl = newFleet(sv.o)
		sv.fl.same = false
		sv.fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
			pt := sv.ts[t.idx]
			if s.GetServer() != sv.fl.e.server() {
				core.Fail("a message delivered to a handler of %s comes with a session of another server", where(sv))
			}
			if m.Header.IccID != t.phone {
				core.Fail("a handler of %s is given a message of terminal %d, which sent none to it", where(sv), m.Header.IccID)
			}
			if pt.hasID && pt.id != s.ID() {
				core.Fail("a message of %s at %s is delivered on another session", t.name, where(sv))
			}
			pt.id, pt.hasID = s.ID(), true
			if pt.got >= len(pt.expect) {
				core.Fail("a handler of %s is given a message %04x serial %d that is not to be delivered", where(sv), uint16(m.Header.MsgID), m.Header.MsgSerialNo)
			}
			x := pt.expect[pt.got]
			if x.id != uint16(m.Header.MsgID) || x.serial != m.Header.MsgSerialNo {
				core.Fail("a handler of %s is given %04x serial %d instead of %04x serial %d", where(sv), uint16(m.Header.MsgID), m.Header.MsgSerialNo, x.id, x.serial)
			}
			if x.id == 0x0801 {
				if b := readAll(m.Body.(*protocol.T808_0x0801).Packet); !bytes.Equal(b, x.data) {
					core.Fail("a packet message of %s at %s (merging: %v) is delivered with %d bytes instead of %d", t.name, where(sv), sv.o.merge, len(b), len(x.data))
				}
			}
			pt.got++
			core.Poke()
			if x.id == 0x0200 {
				s.Reply(m, protocol.T808_0x8001ResultSuccess)
			}
			if x.id == 0x0003 {
				panic("application error")
			}
		}
	}
	add := func(sv *pairSrv) *pairTerm {
		i := len(sv.fl.ts)
		t := &Term{name: fmt.Sprintf("T%d of server %d", i, sv.n+1), phone: phoneN(i + 20*sv.n), env: sv.fl.e, readMax: 4096, idx: uint16(i)}
		if t.phone == 0 {
			t.phone = 5
		}
		if twin {
			t.phone = 13800000001 + uint64(i)
		}
		pt := &pairTerm{t: t, sv: sv}
		sv.fl.ts = append(sv.fl.ts, t)
		sv.ts = append(sv.ts, pt)
		if !t.connect() {
			core.Fail("a terminal cannot connect to %s", where(sv))
		}
		f, n := t.up(0x0002, nil)
		pt.expect = append(pt.expect, pairMsg{id: 0x0002, serial: n})
		t.write(f)
		if !core.WaitFor(10*sec, func() bool { return t.box.s != nil }) {
			core.Fail("the first message of %s is not delivered within 10 s", t.name)
		}
		pt.joined = len(sv.bcasts)
		return pt
	}
	served := func(pt *pairTerm) {
		if !core.WaitFor(10*sec, func() bool { return pt.got == len(pt.expect) }) {
			core.Fail("a message of %s is not delivered within 10 s", pt.t.name)
		}
		if pt.t.eof {
			core.Fail("the connection of %s ends although nothing ends it", pt.t.name)
		}
	}
	act := func(pt *pairTerm) bool {
		t, sv := pt.t, pt.sv
		e := sv.fl.e
		k := core.W(8)
		if k > 3 && k < 7 {
			// a sign of life
			f, n := t.up(0x0002, nil)
			pt.expect = append(pt.expect, pairMsg{id: 0x0002, serial: n})
			t.write(f)
		}
		switch k {
		case 0, 1:
			crypt := core.W(3) == 2
			h := hdr{id: 0x0200, phone: t.phone, serial: sno(t.idx, t.next())}
			body := sampleLoc()
			key := sv.o.priv
			if crypt {
				k := keys[1+core.W(2)]
				r := rnd{uint64(core.WBits()) | 1}
				h.crypt = true
				body = encryptBody(&k.PublicKey, &r, body)
				core.Count("encrypted message")
				if k != key {
					// for another server
					core.Count("hostile: encrypted for another server")
					pt.cut, pt.gone = true, sv.settled()
					t.write(frame(h, body))
					if !core.WaitFor(10*sec, func() bool { return t.eof }) {
						core.Fail("%s sends what is encrypted for another server and its connection stays open", t.name)
					}
					return false
				}
			}
			if !sv.deaf {
				pt.expect = append(pt.expect, pairMsg{id: 0x0200, serial: h.serial})
			}
			t.writeCut(frame(h, body), core.W(3))
			if !sv.deaf && !core.WaitFor(10*sec, func() bool { return t.reply(0x0200, h.serial) != nil }) {
				core.Fail("a message of %s is not delivered and answered within 10 s", t.name)
			}
		case 2, 3:
			// a message in packets
			sum := 1 + core.W(3)
			tag := uint32(1000*(sv.n+1) + int(t.serial))
			var all []byte
			for q := 1; q <= sum; q++ {
				d := content(30)
				all = append(all, d...)
				n := sno(t.idx, t.next())
				if !sv.o.merge {
					pt.expect = append(pt.expect, pairMsg{id: 0x0801, serial: n, data: d})
				} else if q == sum {
					pt.expect = append(pt.expect, pairMsg{id: 0x0801, serial: n, data: all})
				}
				t.write(frame(hdr{id: 0x0801, phone: t.phone, serial: n, packet: true, sum: uint16(sum), seq: uint16(q)}, partBody(0x0801, tag, d)))
			}
			core.Count("message in packets")
		case 4:
			// a request
			fin, cbs := false, pt.cbs
			t.answers = nil
			t.onFrame = func(f *rxFrame) {
				if f.h.id == 0x8104 {
					t.answers = append(t.answers, f.h.serial)
					core.Poke()
				}
			}
			e.app(t.name+" app", func() {
				t.box.get().Request(&protocol.T808_0x8104{}, func(m *protocol.Message) { pt.cbs++; core.Poke() })
				fin = true
				core.Poke()
			})
			if !core.WaitFor(10*sec, func() bool { return fin && len(t.answers) == 1 }) {
				core.Fail("a request does not reach %s within 10 s", t.name)
			}
			// the same serial numbers are outstanding at other servers
			n := t.answers[0]
			f, sn := t.up(0x0001, []byte{byte(n >> 8), byte(n), 0x81, 4, 0})
			pt.expect = append(pt.expect, pairMsg{id: 0x0001, serial: sn})
			t.write(f)
			if !core.WaitFor(10*sec, func() bool { return pt.cbs == cbs+1 }) {
				core.Fail("the callback of a request to %s is not called within 10 s of the answer", t.name)
			}
		case 5:
			core.Count("broadcast")
			fin := false
			e.app("broadcast", func() {
				k := len(sv.bcasts)
				b := []byte(fmt.Sprintf("broadcast %d of server %d", k, sv.n+1))
				sv.bcasts = append(sv.bcasts, b)
				sv.bdone = append(sv.bdone, -1)
				e.server().Broadcast(&rawEnt{append([]byte{}, b...)})
				sv.bdone[k] = core.Now()
				fin = true
				core.Poke()
			})
			must(10*sec, "Broadcast does not return within 10 s", func() bool { return fin })
		case 6:
			id := pt.id
			fin := false
			e.app("find", func() {
				s := t.box.get()
				for _, o := range svs {
					g, ok := o.fl.e.server().GetSession(id)
					if o == sv && (!ok || g != s) {
						core.Fail("%s is not found at its server", t.name)
					}
					if o != sv && ok && g == s {
						core.Fail("%s is found at another server", t.name)
					}
				}
				if k := e.server().GetPrivateKey(); k != sv.o.priv {
					core.Fail("%s returns a private key that is not its own", where(sv))
				}
				fin = true
				core.Poke()
			})
			must(10*sec, "GetSession does not return within 10 s", func() bool { return fin })
		case 7:
			f, n := t.up(0x0003, nil)
			pt.expect = append(pt.expect, pairMsg{id: 0x0003, serial: n})
			t.write(f)
			core.Count("panic in a message handler")
		}
		served(pt)
		return true
	}
	leave := func(pt *pairTerm) {
		t, sv := pt.t, pt.sv
		if !pt.cut {
			pt.gone = sv.settled()
		}
		switch k := core.W(3); {
		case pt.cut:
		case k == 2 && sv.o.keepalive < 100:
			pt.cut = true
			pt.silent = true
			last := core.Now()
			if !core.WaitFor((sv.o.keepalive+4)*sec, func() bool { return t.eof }) {
				core.Fail("%s is silent for %.3f s and its connection is still open; the keepalive time of its server is %d s", t.name, float64(core.Now()-last)/1e9, sv.o.keepalive)
			}
			if core.Now()-last < (sv.o.keepalive-2)*sec {
				core.Fail("%s is closed after %.3f s of silence; the keepalive time of its server is %d s", t.name, float64(core.Now()-last)/1e9, sv.o.keepalive)
			}
		case k == 1:
			pt.cut = true
			sv.fl.e.app("closer", func() { t.box.get().Close() })
		default:
			t.close()
		}
		if !core.WaitFor(10*sec, func() bool { return sv.fl.e.closeCount(pt.id) == 1 }) {
			core.Fail("the close of the connection of %s is not reported to its server within 10 s", t.name)
		}
		pt.ended = true
	}
	live, total := 0, 0
	start := func(sv *pairSrv, stay bool) {
		total++
		pt := add(sv)
		k := 1 + core.W(5)
		core.GoIn(core.CurGroup(), pt.t.name, func() {
			ok := true
			for j := 0; j < k && ok; j++ {
				ok = act(pt)
				core.SleepFor(int64(core.W(600)) * ms)
			}
			if !stay || !ok {
				leave(pt)
			}
			pt.done = true
			live++
			core.Poke()
		})
	}
	for _, sv := range svs {
		for i, k := 0, 1+core.W(2); i < k; i++ {
			start(sv, sv.o.keepalive > 100 && core.W(2) == 1)
		}
	}
	// a second server on a port in use
	if core.W(4) == 3 {
		core.Count("port in use")
		sv := svs[core.W(ns)]
		fin, msg := false, ""
		sv.fl.e.app("another server", func() {
			srv, err := go808.NewServer(go808.Options{})
			if err == nil {
				err = srv.Run("tcp", sv.o.port)
			}
			if err != nil {
				msg = err.Error()
			}
			fin = true
			core.Poke()
		})
		must(30*sec, "Run on a port in use does not return within 30 s", func() bool { return fin })
		if msg == "" {
			core.Fail("Run on a port in use reports no error")
		}
	}
	must(600*sec, "terminals do not finish within 600 s", func() bool { return live == total })
	// one server is stopped, the others go on
	var down *pairSrv
	if core.W(3) != 0 {
		down = svs[core.W(ns)]
		core.Count("one of several servers stopped")
		fin := false
		for _, pt := range down.ts {
			if !pt.cut && !pt.ended {
				pt.cut, pt.gone = true, down.settled()
			}
		}
		down.fl.e.app("stop", func() { down.fl.e.server().Stop(); fin = true; core.Poke() })
		must(60*sec, "Stop does not return within 60 s", func() bool { return fin })
		for _, pt := range down.ts {
			if down.fl.e.closeCount(pt.id) != 1 {
				core.Fail("after Stop of its server, the close of %s has been reported %d times", pt.t.name, down.fl.e.closeCount(pt.id))
			}
			pt.ended = true
		}
		down.down = true
		for _, sv := range svs {
			if sv != down {
				start(sv, false)
				for _, pt := range sv.ts {
					if !pt.ended && pt.done && sv.o.keepalive > 100 {
						pt.done = false
						total++
						pt := pt
						core.GoIn(core.CurGroup(), pt.t.name, func() {
							if !act(pt) {
								leave(pt)
							}
							pt.done = true
							live++
							core.Poke()
						})
					}
				}
			}
		}
		must(600*sec, "terminals do not finish within 600 s", func() bool { return live == total })
		if core.W(2) == 1 {
			// and it runs again
			core.Count("probe: a stopped server runs again beside others")
			down.fl.e.run()
			down.fl.e.waitListening()
			down.down = false
			start(down, false)
			must(600*sec, "terminals do not finish within 600 s", func() bool { return live == total })
		}
	}
	core.SleepFor(5 * sec)
	for _, sv := range svs {
		sv.fl.e.sync()
		ids := 0
		for _, pt := range sv.ts {
			if !pt.ended {
				served(pt)
			} else if pt.got < len(pt.expect) && !pt.cut {
				core.Fail("%d of %d messages of %s are delivered", pt.got, len(pt.expect), pt.t.name)
			}
			want := 0
			if pt.ended {
				want = 1
			}
			ids += want
			if c := sv.fl.e.closeCount(pt.id); c != want {
				core.Fail("the close of %s is reported %d times instead of %d", pt.t.name, c, want)
			}
			n := len(sv.bcasts)
			if pt.ended {
				n = pt.gone
			}
			k := 0
			for j, b := range sv.bcasts {
				c := 0
				for _, f := range pt.t.rx {
					if f.h.id == 0x0f01 && bytes.Equal(b, f.body) {
						c++
					}
				}
				k += c
				if c > 1 || c < 1 && j >= pt.joined && j < n {
					core.Fail("%s receives a broadcast of its server %d times", pt.t.name, c)
				}
			}
			if pt.t.count(0x0f01) != k {
				core.Fail("%s receives what its server did not broadcast", pt.t.name)
			}
			core.State(uint64(pt.got)<<8 | uint64(pt.cbs)<<4 | uint64(k))
		}
		if len(sv.fl.e.closes) != ids {
			core.Fail("%s reports %d closes instead of %d", where(sv), len(sv.fl.e.closes), ids)
		}
	}
	for _, sv := range svs {
		fin := false
		sv.fl.e.app("stop", func() { sv.fl.e.server().Stop(); fin = true; core.Poke() })
		must(60*sec, "Stop does not return within 60 s", func() bool { return fin })
	}
}

func init() {
	register(&property{id: "C24", level: "exploration", runs: 30000, scen: []scenario{{"servers", 1, scenPair}}})
}
