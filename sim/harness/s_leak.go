// What connections leave behind: nothing.
package main

import (
	"fmt"

	"gosim/core"
	"gosim/snet"
	"gosim/sos"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// scenLeak: rounds of connections; goroutines, connections and files of the
// server process do not grow from round to round.
func scenLeak() {
	randNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	keep := int64(36000)
	if core.WP(0.3) {
		keep = 1 + int64(core.W(4))
	}
	netCfg().RstOnClose = float64(core.W(2))
	merge := core.WP(0.5)
	var fl *fleet
	closed := 0
	fl = newFleet(srvOpt{keepalive: keep, merge: merge, key: core.WP(0.3), onClose: func(*go808.Session) { closed++ }})
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		switch core.W(6) {
		case 1:
			s.Send(&protocol.T808_0x8104{})
		case 2:
			s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		case 3:
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		}
	}
	e := fl.e
	rounds := 3 + core.W(3)
	base, served := -1, 0
	for r := 0; r < rounds; r++ {
		if r == 1 && core.WP(0.5) {
			core.EnableStalls(0.02, 10, sec)
		}
		fl.ts = nil
		n := 1 + core.W(3)
		done := 0
		for i := 0; i < n; i++ {
			t := fl.addQuiet()
			if t.conn == nil {
				core.Fail("a terminal cannot connect in round %d", r)
			}
			k := core.W(4)
			core.GoIn(core.CurGroup(), t.name, func() {
				for j := 0; j < k; j++ {
					var f []byte
					switch core.W(4) {
					case 1:
						f, _ = t.up(0x7777, nil)
					case 2:
						s := sno(t.idx, t.next())
						f = frame(hdr{id: 0x0801, phone: t.phone, serial: s, packet: true, sum: 1, seq: 1}, partBody(0x0801, uint32(core.W(3)), content(40)))
					default:
						f, _ = t.up(0x0200, sampleLoc())
					}
					if !t.writeCut(f, core.W(4)) {
						break
					}
					core.SleepFor(int64(core.W(50)) * ms)
				}
				switch core.W(8) {
				case 1:
					core.Count("connection reset")
					t.conn.Reset()
				case 2:
					core.Count("hostile: checksum wrong")
					t.write([]byte{0x7e, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x7e})
				case 3:
					core.Count("terminal half-closes")
					t.conn.CloseWrite()
				case 4:
					core.Count("stream ends inside a frame")
					t.write([]byte{0x7e, 2, 0})
					t.close()
				case 5:
					// the application closes it, if it knows it
					if t.box.s != nil {
						core.Count("application closes session")
						e.app("closer", func() { t.box.get().Close() })
						break
					}
					t.close()
				case 6:
					// a full queue
					if t.box.s != nil {
						core.Count("terminal stops reading")
						t.conn.Hold(true)
						t.stopped = true
						e.app("flood", func() {
							for q := 0; q < 60; q++ {
								if _, err := t.box.get().Send(&rawEnt{make([]byte, 900)}); err != nil {
									break
								}
							}
							t.box.get().Close()
						})
						break
					}
					t.close()
				default:
					core.Count("terminal closes")
					t.close()
				}
				done++
				core.Poke()
			})
		}
		must(300*sec, "terminals do not finish within 300 s", func() bool { return done == n })
		served += n
		core.StopFaults()
		core.SleepFor(20 * sec)
		for _, t := range fl.ts {
			t.conn.Hold(false)
			t.stopped = false
			t.conn.Close()
		}
		core.Poke()
		core.SleepFor(20 * sec)
		if closed != served {
			core.Fail("%d connections have ended and %d closes are reported", served, closed)
		}
		stopped := false
		if core.W(3) == 2 {
			stopped = true
			fin := false
			e.app("stop", func() { e.server().Stop(); fin = true; core.Poke() })
			must(60*sec, "Stop does not return within 60 s", func() bool { return fin })
			core.SleepFor(sec)
		}
		if c := snet.OpenConns(); c > 0 {
			core.Fail("%d connections are left open by the server after %d terminals have gone", c, served)
		}
		if sos.OpenNow > 0 {
			core.Fail("%d files are left open after %d terminals have gone", sos.OpenNow, served)
		}
		if stopped {
			e.run()
			e.waitListening()
			core.SleepFor(sec)
		}
		live := core.LiveIn(e.grp)
		if base < 0 {
			base = live
		} else if live > base {
			core.Fail("after %d terminals have gone the server has %d goroutines, after the first round it had %d", served, live, base)
		}
		core.State(uint64(served))
	}
}

var _ = fmt.Sprint

func init() {
	register(&property{id: "C20", level: "exploration", runs: 12000, scen: []scenario{{"leak", 16, scenLeak}, {"soak", 1, scenSoak}}})
}
