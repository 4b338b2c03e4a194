// Application code that does not return: only its own connection waits.
package main

import (
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type blockTerm struct {
	t       *Term
	site    int // 0 message handler, 1 request callback, 2 close handler, 3 the reader's own handler of a merged message
	id      uint64
	blocked bool
	sent    []uint16
	seen    []uint16
}

func scenBlocked() {
	randNet()
	quietNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	keep := int64(36000)
	if core.WP(0.3) {
		keep = 4 + int64(core.W(4))
	}
	merge := core.WP(0.3)
	release := false
	var fl *fleet
	var bts []*blockTerm
	hold := func(b *blockTerm, where string) {
		core.Count("application blocks in a " + where)
		core.Note("app", "%s of %s blocks", where, b.t.name)
		b.blocked = true
		core.Poke()
		core.WaitFor(1<<60, func() bool { return release })
		core.Note("app", "%s of %s goes on", where, b.t.name)
	}
	fl = newFleet(srvOpt{keepalive: keep, merge: merge, onClose: func(s *go808.Session) {
		id := s.ID()
		for _, b := range bts {
			if b.site == 2 && b.id == id {
				hold(b, "close handler")
			}
		}
	}})
	fl.passers()
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if int(t.idx) < len(bts) {
			b := bts[t.idx]
			if m.Header.MsgID == protocol.MsgT808_0x0200 {
				b.seen = append(b.seen, m.Header.MsgSerialNo)
			}
			b.id = s.ID()
			switch {
			case b.site == 0 && m.Header.MsgID == protocol.MsgT808_0x0003,
				b.site == 3 && m.Header.MsgID == protocol.MsgT808_0x0801:
				hold(b, "message handler")
			case b.site == 1 && m.Header.MsgID == protocol.MsgT808_0x0003:
				s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { hold(b, "request callback") })
			}
			return
		}
		if m.Header.MsgID == protocol.MsgT808_0x0200 {
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		}
	}
	nb := 1 + core.W(2)
	for i := 0; i < nb; i++ {
		b := &blockTerm{site: core.W(4)}
		bts = append(bts, b)
		b.t = fl.add()
		t := b.t
		switch b.site {
		case 0:
			f, _ := t.up(0x0003, nil)
			t.write(f)
		case 1:
			t.onFrame = func(f *rxFrame) {
				if f.h.id == 0x8104 {
					t.answers = append(t.answers, f.h.serial)
					core.Poke()
				}
			}
			f, _ := t.up(0x0003, nil)
			t.write(f)
			must(30*sec, "a request does not reach its terminal within 30 s", func() bool { return len(t.answers) > 0 })
			n := t.answers[0]
			f, _ = t.up(0x0001, []byte{byte(n >> 8), byte(n), 0x81, 4, 0})
			t.write(f)
		case 2:
			t.close()
		case 3:
			t.write(frame(hdr{id: 0x0801, phone: t.phone, serial: sno(t.idx, t.next()), packet: true, sum: 1, seq: 1}, partBody(0x0801, 6, content(40))))
		}
		must(30*sec, "application code is not called within 30 s", func() bool { return b.blocked })
		// more from the same terminal, which has to wait
		if b.site != 2 {
			for j, k := 0, core.W(4); j < k; j++ {
				f, n := t.up(0x0200, sampleLoc())
				b.sent = append(b.sent, n)
				t.write(f)
			}
		}
	}
	what := func() string {
		s := ""
		for _, b := range bts {
			s += []string{", a message handler", ", a request callback", ", a close handler", ", a message handler"}[b.site]
		}
		return s[2:] + " of another connection blocks"
	}
	quick := func(name string, fn func()) {
		t0 := core.Now()
		fn()
		if core.Now()-t0 > sec {
			core.Fail("%s takes %.3f s while %s", name, float64(core.Now()-t0)/1e9, what())
		}
	}
	report := func(t *Term) {
		f, n := t.up(0x0200, sampleLoc())
		if !t.writeCut(f, core.W(3)) {
			core.Fail("the connection of %s breaks while %s", t.name, what())
		}
		if !core.WaitFor(10*sec, func() bool { return t.reply(0x0200, n) != nil }) {
			core.Fail("a message of %s is not delivered and answered within 10 s while %s", t.name, what())
		}
	}
	done, total := 0, 0
	nw := 1 + core.W(3)
	for i := 0; i < nw; i++ {
		total++
		t := fl.addQuiet()
		if t.conn == nil {
			core.Fail("a terminal cannot connect while %s", what())
		}
		k := 1 + core.W(4)
		end := core.W(4)
		core.GoIn(core.CurGroup(), t.name, func() {
			// every step needs a sign of life within the keepalive time
			for j := 0; j < k; j++ {
				report(t)
				core.SleepFor(int64(core.W(800)) * ms)
			}
			cbs, ops := 0, false
			t.onFrame = func(f *rxFrame) {
				if f.h.id == 0x8104 {
					t.answers = append(t.answers, f.h.serial)
				}
			}
			fl.e.app(t.name+" app", func() {
				s := t.box.get()
				srv := fl.e.server()
				id := s.ID()
				quick("Send", func() {
					if _, err := s.Send(&protocol.T808_0x8201{}); err != nil {
						core.Fail("sending to %s fails while %s: %s", t.name, what(), err.Error())
					}
				})
				quick("Request", func() { s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { cbs++; core.Poke() }) })
				quick("GetSession", func() {
					if g, ok := srv.GetSession(id); !ok || g != s {
						core.Fail("%s is not found while %s", t.name, what())
					}
				})
				quick("Broadcast", func() { srv.Broadcast(&rawEnt{[]byte("to everybody")}) })
				quick("AddHandler", func() { fl.e.handle(srv, 0x0f03) })
				for _, b := range bts {
					if b.site != 2 {
						if x := b.t.box.get(); x != nil {
							quick("Send to the blocked connection", func() { x.Send(&protocol.T808_0x8201{}) })
							quick("SetPublicKey of the blocked connection", func() { x.SetPublicKey(&testKey.PublicKey) })
						}
					}
				}
				ops = true
				core.Poke()
			})
			if !core.WaitFor(10*sec, func() bool { return ops && t.count(0x8201) > 0 && t.count(0x0f01) > 0 && len(t.answers) > 0 }) {
				core.Fail("what is sent to %s does not arrive within 10 s while %s", t.name, what())
			}
			n := t.answers[0]
			f, _ := t.up(0x0001, []byte{byte(n >> 8), byte(n), 0x81, 4, 0})
			t.write(f)
			if !core.WaitFor(10*sec, func() bool { return cbs == 1 }) {
				core.Fail("the callback of a request to %s is not called within 10 s of the answer while %s", t.name, what())
			}
			s := t.box.get()
			id := s.ID()
			if end == 3 && keep < 100 {
				// silence
				last := core.Now()
				if !core.WaitFor(keep*sec+4*sec, func() bool { return t.eof }) {
					core.Fail("%s is silent for %.3f s and its connection is still open while %s; the keepalive time is %d s", t.name, float64(core.Now()-last)/1e9, what(), keep)
				}
			} else if end == 2 {
				fl.e.app("closer", func() { quick("Close", func() { t.box.get().Close() }) })
			} else {
				t.close()
			}
			if !core.WaitFor(10*sec, func() bool { return fl.e.closeCount(id) == 1 }) {
				core.Fail("the close of the connection of %s is not reported within 10 s while %s", t.name, what())
			}
			done++
			core.Poke()
		})
	}
	must(600*sec, "terminals do not finish within 600 s", func() bool { return done == total })
	for _, b := range bts {
		if b.site != 2 && keep > 100 && !core.WaitFor(10*sec, func() bool { return b.t.count(0x8201) > 0 }) {
			core.Fail("%s receives nothing while its own handler blocks", b.t.name)
		}
	}
	release = true
	core.Poke()
	core.SleepFor(20 * sec)
	fl.e.sync()
	for _, b := range bts {
		// a connection that was silent too long for the server may have ended
		if len(b.seen) > len(b.sent) || len(b.seen) < len(b.sent) && keep > 100 {
			core.Fail("%d of %d messages that waited behind a blocked handler of %s are delivered", len(b.seen), len(b.sent), b.t.name)
		}
		for i, n := range b.seen {
			if b.sent[i] != n {
				core.Fail("messages that waited behind a blocked handler of %s are delivered out of order", b.t.name)
			}
		}
		core.State(uint64(len(b.seen))<<4 | uint64(b.site))
	}
	fin := false
	fl.e.app("stop", func() { fl.e.server().Stop(); fin = true; core.Poke() })
	must(60*sec, "Stop does not return within 60 s", func() bool { return fin })
	_ = fmt.Sprint
}

func init() {
	register(&property{id: "C22", level: "exploration", runs: 30000, scen: []scenario{{"blocked", 1, scenBlocked}}})
	register(&property{id: "C23", level: "exploration", runs: 30000, scen: []scenario{
		{"request", 3, twins(scenRequest)}, {"outbound", 2, twins(scenOutbound)}, {"broadcast", 2, twins(scenBroadcast)},
		{"close", 3, twins(scenClose)}, {"keepalive", 2, twins(scenKeepalive)}}})
}
