// Terminals that stop reading, and partitions: nobody else suffers.
package main

import (
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func scenStalled() {
	opClock = 0
	randNet()
	netCfg().SpikeP = 0
	buf := []int{0, 60, 1000, 4000}[core.W(4)] + 100
	var ots []*outTerm
	var fl *fleet
	var stalled []*outTerm
	slow := func(t0 int64, what string) {
		if core.Now()-t0 > sec {
			core.Fail("%s blocks the caller for %.3f s while a terminal does not read", what, float64(core.Now()-t0)/1e9)
		}
	}
	broadcasts := core.WP(0.3)
	heal := core.WP(0.4) // the stall ends before anything overflows
	fl = newFleet(srvOpt{keepalive: 36000})
	fl.passers()
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if m.Header.MsgID != protocol.MsgT808_0x0200 {
			return
		}
		// answer, and tell a stalled terminal about it
		ot := ots[t.idx]
		x := &outMsg{g: 99, k: int(m.Header.MsgSerialNo & 0xfff), id: 0x8201}
		ot.sent++
		t0 := core.Now()
		ot.do(s, &protocol.T808_0x8201{}, x)
		slow(t0, "a reply")
		ot.told++
		if len(stalled) > 0 && core.W(2) == 1 {
			st := stalled[core.W(len(stalled))]
			if heal && len(st.msgs) >= 12 {
				return
			}
			y := &outMsg{g: 98, k: int(m.Header.MsgSerialNo), id: 0x8201}
			t0 = core.Now()
			st.do(st.t.box.get(), &protocol.T808_0x8201{}, y)
			slow(t0, "a send from a handler")
		}
	}
	nb := 1 + core.W(2)
	ns := 1 + core.W(2)
	for i := 0; i < nb+ns; i++ {
		t := fl.add()
		ot := &outTerm{t: t, quiet: i < nb}
		ots = append(ots, ot)
	}
	netCfg().Buf = buf
	for i := nb; i < nb+ns; i++ {
		ot := ots[i]
		stalled = append(stalled, ot)
		if core.W(2) == 1 {
			core.Count("network holds everything back")
			ot.t.conn.Hold(true)
		} else {
			core.Count("terminal stops reading")
			ot.t.stopped = true
		}
	}
	done, total := 0, 0
	over := make([]bool, nb+ns)
	for i := nb; i < nb+ns && !heal; i++ {
		ot := ots[i]
		total++
		fl.e.app(fmt.Sprintf("flood%d", i), func() {
			s := ot.t.box.get()
			max := buf/15 + 300
			for k := 0; ; k++ {
				m := &outMsg{g: 0, k: k, id: 0x8104}
				t0 := core.Now()
				if core.W(4) == 3 {
					m.request = true
				}
				ot.do(s, &protocol.T808_0x8104{}, m)
				slow(t0, "a send")
				if m.err != "" {
					break
				}
				if k > max {
					core.Fail("%d sends to %s, which does not read, have succeeded over a connection that holds %d bytes", k, ot.t.name, buf)
				}
				if core.W(6) == 5 {
					core.SleepFor(int64(core.W(30)) * ms)
				}
			}
			core.Count("probe: queue overflow")
			id := s.ID()
			if !core.WaitFor(10*sec, func() bool { return fl.e.closeCount(id) == 1 }) {
				core.Fail("%s was too slow, a send to it failed, and its close is not reported within 10 s", ot.t.name)
			}
			if _, ok := fl.e.server().GetSession(id); ok {
				core.Fail("the session of %s is still found after its close was reported", ot.t.name)
			}
			over[i] = true
			core.RelMerge(&fl.e.endTok)
			done++
			core.Poke()
		})
	}
	nbc := 0
	if broadcasts && !heal {
		total++
		fl.e.app("broadcast", func() {
			n := 1 + core.W(10)
			nbc = n
			for k := 0; k < n; k++ {
				t0 := core.Now()
				fl.e.server().Broadcast(&rawEnt{[]byte("all")})
				slow(t0, "a broadcast")
				core.SleepFor(int64(core.W(100)) * ms)
			}
			done++
			core.Poke()
		})
	}
	if heal {
		for i := nb; i < nb+ns; i++ {
			ot := ots[i]
			total++
			fl.e.app(fmt.Sprintf("few%d", i), func() {
				for k := 0; k < 8 && (k == 0 || core.W(5) != 0); k++ {
					t0 := core.Now()
					m := &outMsg{g: 0, k: k, id: 0x8104}
					ot.do(ot.t.box.get(), &protocol.T808_0x8104{}, m)
					slow(t0, "a send")
				}
				core.RelMerge(&fl.e.endTok)
				done++
				core.Poke()
			})
		}
	}
	// the others go on as usual
	for i := 0; i < nb; i++ {
		ot := ots[i]
		total++
		n := 1 + core.W(8)
		core.GoIn(core.CurGroup(), "reporter", func() {
			for k := 0; k < n; k++ {
				_, b := makeBody(typeByID(0x0200), 0, 128, false, false)
				f, _ := ot.t.up(0x0200, b)
				if !ot.t.writeCut(f, 0) {
					core.Fail("the connection of %s breaks while another terminal does not read", ot.t.name)
				}
				ot.asked++
				want := ot.asked
				got := func() bool {
					c := 0
					for _, f := range ot.t.rx {
						if f.h.id == 0x8201 {
							c++
						}
					}
					return c >= want
				}
				if !core.WaitFor(30*sec, got) {
					core.Fail("a report of %s is not answered within 30 s while another terminal does not read", ot.t.name)
				}
				core.SleepFor(int64(core.W(50)) * ms)
			}
			done++
			core.Poke()
		})
	}
	must(600*sec, "sends do not return within 600 s while a terminal does not read", func() bool { return done == total })
	core.SleepFor(2 * sec)
	for i := nb; i < nb+ns; i++ {
		ot := ots[i]
		if heal && ot.t.eof {
			core.Fail("the connection of %s is closed although it only paused", ot.t.name)
		}
		ot.t.conn.Hold(false)
		ot.t.stopped = false
		core.Poke()
	}
	core.SleepFor(20 * sec)
	for i, ot := range ots {
		if broadcasts && !heal {
			// drop the broadcasts before matching
			var l []*rxFrame
			for _, f := range ot.t.rx {
				if f.h.id != 0x0f01 {
					l = append(l, f)
				}
			}
			if c := len(ot.t.rx) - len(l); i < nb && c != nbc {
				core.Fail("%s receives %d of %d broadcasts while another terminal does not read", ot.t.name, c, nbc)
			}
			ot.t.rx = l
		}
		fine := i < nb || heal
		if fine && ot.t.eof {
			core.Fail("the connection of %s is closed: %s", ot.t.name, ot.t.err)
		}
		if !fine && !ot.t.eof {
			core.Fail("%s was too slow and closed, and its connection stays open", ot.t.name)
		}
		ot.verify(fine)
		core.State(uint64(len(ot.t.rx))<<1 | uint64(i&1))
	}
}

func init() {
	register(&property{id: "C13", level: "exploration", runs: 25000, scen: []scenario{{"stalled", 1, scenStalled}}})
}
