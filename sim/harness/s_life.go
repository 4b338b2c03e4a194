// Running, stopping and running again.
package main

import (
	"fmt"

	"gosim/core"
	"gosim/snet"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type lifeTerm struct {
	t       *Term
	phase   int
	ended   bool // ended by itself
	id      uint64
	hasID   bool
	beforeS bool // its session was seen before Stop was called
	stalled bool
	plan    int
	stopMe  bool // sends the message whose handler calls Stop
}

func scenLife() {
	randNet()
	quiet := core.WP(0.5)
	if !quiet {
		core.EnableStalls(0.02, 8, 2*sec)
	}
	if core.WP(0.4) {
		netCfg().AcceptErrP = []float64{0.2, 0.6}[core.W(2)]
	}
	netCfg().RstOnClose = float64(core.W(2))
	if core.WP(0.3) {
		netCfg().Buf = 100
	}
	var ts []*lifeTerm
	var fl *fleet
	slowClose := core.WP(0.2)
	stopping := false
	stopIn := 0 // calls from inside a handler that have returned
	stopsIn := 0
	fl = newFleet(srvOpt{keepalive: 36000, noRun: true, onClose: func(s *go808.Session) {
		id := s.ID()
		if n := fl.e.closeCount(id); n > 1 {
			core.Fail("the close of session %d is reported %d times", id, n)
		}
		for _, x := range ts {
			if x.hasID && x.id == id && !x.ended && !stopping {
				core.Fail("the close of the connection of %s is reported although the server runs and nothing ended it", x.t.name)
			}
		}
		if slowClose {
			core.SleepFor(int64(core.W(2000)) * ms)
		}
	}})
	e := fl.e
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		x := ts[t.idx]
		if !x.hasID {
			x.id, x.hasID = s.ID(), true
			x.beforeS = !stopping
		}
		if m.Header.MsgID == protocol.MsgT808_0x0003 {
			core.Count("Stop called in a handler")
			e.server().Stop()
			stopIn++
			core.Poke()
		}
	}
	phases := 1 + core.W(3)
	for ph := 0; ph < phases; ph++ {
		stopping = false
		e.runErr = ""
		runEnd := e.runEnd
		if core.W(6) == 5 {
			// stopping what does not run is harmless
			done := false
			e.app("stop", func() { e.server().Stop(); done = true; core.Poke() })
			must(30*sec, "Stop of a server that does not run does not return within 30 s", func() bool { return done })
		}
		if core.W(6) == 5 {
			// the port is taken at first
			core.Count("port in use")
			l, err := snet.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", e.port))
			if err != nil {
				core.Fail("the port is still in use after Stop: %s", err.Error())
			}
			e.run()
			must(30*sec, "Run on a port in use does not return within 30 s", func() bool { return e.runEnd == runEnd+1 })
			if e.runErr == "" {
				core.Fail("Run on a port in use reports no error")
			}
			runEnd++
			e.runErr = ""
			l.Close()
		}
		e.run()
		e.waitListening()
		if core.W(3) == 2 {
			// a second Run is refused and disturbs nothing
			fin, msg := false, ""
			e.app("run again", func() {
				if err := e.server().Run("tcp", e.port+core.W(2)); err != nil {
					msg = err.Error()
				}
				fin = true
				core.Poke()
			})
			must(30*sec, "a second Run of a running server does not return within 30 s", func() bool { return fin })
			if msg == "" {
				core.Fail("a second Run of a running server reports no error")
			}
			core.Count("probe: second Run refused")
		}
		n := 1 + core.W(3)
		for i := 0; i < n && len(ts) < 13; i++ {
			x := &lifeTerm{phase: ph}
			ts = append(ts, x)
			x.t = fl.addQuiet()
			if x.t.conn == nil {
				core.Fail("a terminal cannot connect to the running server")
			}
			life(fl, x, core.W(6))
		}
		if core.W(3) != 0 {
			for _, x := range ts {
				if x.phase == ph && !core.WaitFor(120*sec, func() bool { return x.hasID || x.ended }) {
					core.Fail("%s connects to the running server and its message is not delivered within 120 s", x.t.name)
				}
			}
		} else {
			core.SleepFor(int64(core.W(50)) * ms)
		}
		if core.W(4) == 3 {
			// a terminal that does not read, with data on its way to it
			for _, x := range ts {
				if x.phase == ph && x.hasID && core.W(2) == 1 {
					x.t.stopped = true
					x.stalled = true
					core.Count("terminal stops reading")
					e.app("filler", func() {
						for k := 0; k < 12; k++ {
							x.t.box.get().Send(&protocol.T808_0x8104{})
						}
					})
				}
			}
			core.SleepFor(int64(core.W(20)) * ms)
		}
		fatal := core.W(6) == 5
		if fatal {
			core.Count("permanent accept error")
			snet.InjectAcceptError(e.port, snet.FatalAcceptError)
			must(30*sec, "Run does not return within 30 s of a permanent accept error", func() bool { return e.runEnd == runEnd+1 })
			if e.runErr == "" {
				core.Fail("Run reports no error after a permanent accept error")
			}
		}
		// late terminals connect while the server is being stopped
		late := core.W(3)
		for i := 0; i < late && len(ts) < 15 && !fatal; i++ {
			x := &lifeTerm{phase: ph}
			ts = append(ts, x)
			t := &Term{name: fmt.Sprintf("T%d", len(fl.ts)), phone: fl.phone(len(fl.ts)), env: e, readMax: 4096, idx: uint16(len(fl.ts))}
			x.t = t
			fl.ts = append(fl.ts, t)
			core.GoIn(core.CurGroup(), t.name, func() {
				core.SleepFor(int64(core.W(30)) * ms)
				if !t.connect() {
					core.Count("probe: late terminal refused")
					return
				}
				core.Count("terminal connects while stopping")
				life(fl, x, 0)
			})
		}
		// stop
		core.SleepFor(int64(core.W(60)) * ms)
		stopping = true
		stops, back := 1, 0
		if core.W(4) == 3 {
			stops = 2 + core.W(2)
			core.Count("concurrent Stops")
		}
		over := func() {
			if snet.Listening(e.port) {
				core.Fail("the server still listens after Stop")
			}
			for _, x := range ts {
				if x.phase == ph && x.beforeS && !x.ended && e.closeCount(x.id) != 1 {
					core.Fail("Stop has returned and the close of the connection of %s is reported %d times", x.t.name, e.closeCount(x.id))
				}
			}
		}
		inside := -1
		if core.W(5) == 4 {
			for i, x := range ts {
				if x.phase == ph && x.hasID && x.plan != 5 && !x.ended && !x.stalled && !x.t.eof && core.W(2) == 1 {
					inside = i
				}
			}
		}
		if inside >= 0 {
			stopsIn++
			ts[inside].stopMe = true
			core.Poke()
			if !core.WaitFor(120*sec, func() bool { return stopIn == stopsIn }) {
				core.Fail("Stop called in a handler does not return within 120 s")
			}
		} else {
			for k := 0; k < stops; k++ {
				e.app("stop", func() {
					e.server().Stop()
					// each of them returns only when everything is over
					over()
					core.RelMerge(&e.endTok)
					back++
					core.Poke()
				})
			}
			if !core.WaitFor(120*sec, func() bool { return back == stops }) {
				core.Fail("Stop does not return within 120 s")
			}
		}
		// everything is over
		over()
		must(30*sec, "Run does not return within 30 s of Stop", func() bool { return e.runEnd == runEnd+1 })
		core.StopFaults()
		core.SleepFor(15 * sec)
		fin := false
		e.app("look", func() {
			for _, x := range ts {
				if !x.hasID {
					continue
				}
				if _, ok := e.server().GetSession(x.id); ok {
					core.Fail("the session of %s is still found after Stop", x.t.name)
				}
				if n := e.closeCount(x.id); n != 1 {
					core.Fail("the close of the connection of %s is reported %d times by 15 s after Stop", x.t.name, n)
				}
				if _, err := x.t.box.get().Send(&protocol.T808_0x8104{}); err == nil {
					core.Fail("sending to %s succeeds after Stop", x.t.name)
				}
			}
			fin = true
			core.Poke()
		})
		must(30*sec, "looking up sessions after Stop does not finish", func() bool { return fin })
		for _, x := range ts {
			t := x.t
			t.stopped = false
			core.Poke()
			if t.conn != nil && !x.ended && !core.WaitFor(15*sec, func() bool { return t.eof }) {
				core.Fail("the connection of %s stays open after Stop", t.name)
			}
			x.ended = true
		}
		if n := snet.OpenConns(); n > 0 {
			core.Fail("%d connections are left open by the server after Stop", n)
		}
		c, err := snet.DialPort(e.port)
		if err == nil {
			c.Close()
			core.Fail("a terminal can connect after Stop")
		}
		core.State(uint64(ph)<<8 | uint64(len(ts)))
	}
}

// life lets a terminal report now and then until its connection ends.
func life(fl *fleet, x *lifeTerm, plan int) {
	t := x.t
	x.plan = plan
	core.GoIn(core.CurGroup(), t.name, func() {
		for k := 0; !t.eof && !x.ended; k++ {
			if k >= 20 {
				core.WaitFor(1<<60, func() bool { return x.stopMe || t.eof || x.ended })
			}
			if x.stopMe {
				f, _ := t.up(0x0003, nil)
				t.write(f)
				return
			}
			f, _ := t.up(0x0002, nil)
			if !t.writeCut(f, core.W(4)) {
				return
			}
			if k >= 2 && plan == 5 {
				x.ended = true
				core.Count("terminal closes")
				t.close()
				return
			}
			core.SleepFor(int64(5+core.W(100)) * ms)
		}
	})
}

// scenAgain: the server runs again as soon as one of several Stops returns.
func scenAgain() {
	randNet()
	quietNet()
	fl := newFleet(srvOpt{keepalive: 36000})
	e := fl.e
	n := core.W(3)
	for i := 0; i < n; i++ {
		fl.add()
	}
	rounds := 1 + core.W(3)
	for r := 0; r < rounds; r++ {
		stops, back := 2+core.W(2), 0
		for k := 0; k < stops; k++ {
			e.app("stop", func() {
				e.server().Stop()
				back++
				core.Poke()
			})
		}
		must(120*sec, "Stop does not return within 120 s", func() bool { return back > 0 })
		core.Count("Run while further Stops return")
		ends := 0
		for back < stops {
			// a Stop still under way may end the new service too
			fin, msg := false, ""
			e.app("run", func() {
				if err := e.server().Run("tcp", e.port); err != nil {
					msg = err.Error()
				}
				fin = true
				ends++
				core.Poke()
			})
			core.WaitFor(1<<60, func() bool { return fin || back == stops })
			if fin && msg != "" && msg != "EOF" && back == stops {
				break
			}
			core.SleepFor(ms)
		}
		must(120*sec, "Stop does not return within 120 s", func() bool { return back == stops })
		// whatever runs now can be stopped
		core.SleepFor(int64(core.W(50)) * ms)
		fin := false
		e.app("stop", func() { e.server().Stop(); fin = true; core.Poke() })
		must(120*sec, "Stop does not return within 120 s", func() bool { return fin })
		if !core.WaitFor(30*sec, func() bool { return !snet.Listening(e.port) }) {
			core.Fail("the server still listens 30 s after the last Stop returned")
		}
		if r+1 < rounds {
			e.run()
			e.waitListening()
			fl.add()
		}
	}
	core.State(uint64(rounds))
}

func init() {
	register(&property{id: "C12", level: "exploration", runs: 50000, scen: []scenario{{"life", 9, scenLife}, {"again", 1, scenAgain}}})
}
