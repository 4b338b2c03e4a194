// The session registry and the close notification.
package main

import (
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// quietNet makes delays short enough for timing to be judged.
func quietNet() {
	c := netCfg()
	c.SpikeP = 0
	c.DelayMin = 100_000
	c.DelayVar = []int64{0, ms, 20 * ms}[core.W(3)]
}

const (
	endFin = iota
	endRst
	endApp
	endHandler
	endMalformed
	endSilent
	endAtOnce
	endStay
	endHalf
	endTwice
)

type regTerm struct {
	t       *Term
	plan    int
	ended   bool // somebody may have closed it
	id      uint64
	hasID   bool
	serials int
	msgs    int
	want    bool
}

func scenClose() {
	randNet()
	short := core.WP(0.3)
	ka := int64(3600)
	if short {
		ka = 4
		quietNet()
	} else if core.WP(0.4) {
		core.EnableStalls(0.02, 8, 2*sec)
	}
	netCfg().RstOnClose = float64(core.W(2))
	var rts []*regTerm
	inside := core.W(4)
	slowClose := core.WP(0.2)
	var fl *fleet
	fl = newFleet(srvOpt{keepalive: ka, onClose: func(s *go808.Session) {
		id := s.ID()
		if n := fl.e.closeCount(id); n > 1 {
			core.Fail("the close of session %d is reported %d times", id, n)
		}
		srv := fl.e.server()
		if _, ok := srv.GetSession(id); ok {
			core.Fail("session %d is still found while its close is being reported", id)
		}
		var r *regTerm
		for _, x := range rts {
			if x.hasID && x.id == id {
				r = x
			}
		}
		if r != nil {
			if r.t.box.s != s {
				core.Fail("the close of session %d is reported with a session object other than the one its messages came with", id)
			}
			if !r.ended {
				core.Fail("the close of the connection of %s is reported although nothing ended it", r.t.name)
			}
		}
		switch inside {
		case 1:
			if _, err := s.Send(&protocol.T808_0x8104{}); err == nil {
				core.Fail("sending on session %d succeeds after its close is reported", id)
			}
			if _, err := s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {}); err == nil {
				core.Fail("a request on session %d succeeds after its close is reported", id)
			}
		case 2:
			s.Close()
		}
		if slowClose {
			core.SleepFor(int64(core.W(500)) * ms)
		}
	}})
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		r := rts[t.idx]
		id := s.ID()
		if !r.hasID {
			for _, x := range rts {
				if x.hasID && x.id == id {
					core.Fail("two connections have sessions with the same number %d", id)
				}
			}
			r.id, r.hasID = id, true
		}
		r.msgs++
		if t.box.s != s {
			core.Fail("messages of one connection arrive on different sessions")
		}
		g, ok := fl.e.server().GetSession(id)
		if ok && g != s {
			core.Fail("session %d is found as another session", id)
		}
		if !ok && !r.ended {
			core.Fail("session %d is not found although its connection is open", id)
		}
		if r.plan == endHandler && m.Header.MsgID == protocol.MsgT808_0x0003 {
			r.ended = true
			core.Count("application closes session in a handler")
			s.Close()
			if core.W(2) == 1 {
				s.Close()
			}
		}
	}
	n := 1 + core.W(6)
	done, total := 0, 0
	for i := 0; i < n; i++ {
		r := &regTerm{plan: core.W(10)}
		if r.plan == endSilent && !short {
			r.plan = endFin
		}
		rts = append(rts, r)
		core.SleepFor(int64(core.W(200)) * ms)
		if r.plan == endAtOnce {
			r.ended = true
		}
		r.t = fl.addQuiet()
		t := r.t
		r.want = true
		total++
		core.GoIn(core.CurGroup(), t.name, func() {
			defer func() { done++; core.Poke() }()
			if r.plan == endAtOnce {
				core.Count("connection ends at once")
				core.SleepFor(int64(core.W(4)) * ms)
				if core.W(2) == 1 {
					t.conn.Reset()
				} else {
					t.close()
				}
				return
			}
			beats := core.W(4)
			if short {
				beats = 1 + core.W(8)
			}
			for k := 0; k < beats && !t.eof; k++ {
				f, _ := t.up(0x0002, nil)
				t.write(f)
				core.SleepFor(int64(200+core.W(900)) * ms)
			}
			core.SleepFor(int64(core.W(500)) * ms)
			switch r.plan {
			case endFin:
				r.ended = true
				core.Count("terminal closes")
				t.close()
			case endHalf:
				r.ended = true
				core.Count("terminal half-closes")
				t.conn.CloseWrite()
			case endRst:
				r.ended = true
				core.Count("connection reset")
				t.conn.Reset()
			case endMalformed:
				r.ended = true
				core.Count("malformed frame")
				t.write([]byte{0x7e, 1, 2, 0x7e})
			case endHandler:
				r.ended = true // its message may be handled at any time from now on
				f, _ := t.up(0x0003, nil)
				t.write(f)
			case endSilent:
				r.ended = true
				core.Count("terminal falls silent")
			case endApp, endTwice:
				f, _ := t.up(0x0002, nil)
				t.write(f)
				if !core.WaitFor(60*sec, func() bool { return t.box.s != nil }) {
					core.Fail("a message of %s is not delivered within 60 s", t.name)
				}
				r.ended = true
				k := 1
				if r.plan == endTwice {
					k = 2 + core.W(2)
				}
				for j := 0; j < k; j++ {
					core.Count("application closes session")
					fl.e.app("closer", func() { t.box.get().Close() })
				}
				if core.W(3) == 2 {
					t.conn.Reset()
				}
			case endStay:
				r.ended = short // nobody keeps it alive any more
			}
		})
	}
	// the application looks sessions up meanwhile
	polls := core.W(20)
	fl.e.app("lookup", func() {
		for k := 0; k < polls; k++ {
			r := rts[core.W(len(rts))]
			if r.hasID {
				before := r.ended
				g, ok := fl.e.server().GetSession(r.id)
				if ok && g != r.t.box.s {
					core.Fail("session %d is found as another session", r.id)
				}
				if !ok && !before && !r.ended {
					core.Fail("session %d is not found although its connection is open", r.id)
				}
				if ok && fl.e.closeCount(r.id) > 0 && fl.e.closes[len(fl.e.closes)-1].at < core.Now()-5*sec {
					core.Fail("session %d is found long after its close was reported", r.id)
				}
			}
			core.SleepFor(int64(core.W(600)) * ms)
		}
		core.Poke()
	})
	must(600*sec, "terminals do not finish within 600 s", func() bool { return done == total })
	core.StopFaults()
	ends := 0
	for _, r := range rts {
		if r.plan == endStay && short {
			r.ended = true // nobody keeps it alive any more
		}
		if r.ended {
			ends++
		}
	}
	if !core.WaitFor(30*sec, func() bool { return len(fl.e.closes) >= ends }) {
		core.Fail("%d connections have ended and %d closes are reported within 30 s", ends, len(fl.e.closes))
	}
	core.SleepFor(5 * sec)
	if len(fl.e.closes) != ends {
		core.Fail("%d connections have ended and %d closes are reported", ends, len(fl.e.closes))
	}
	fl.e.app("final", func() {
		for _, r := range rts {
			if !r.hasID {
				continue
			}
			c := fl.e.closeCount(r.id)
			g, ok := fl.e.server().GetSession(r.id)
			if r.ended && (ok || c != 1) {
				core.Fail("the connection of %s has ended; its session is found: %v, closes reported: %d", r.t.name, ok, c)
			}
			if !r.ended && (!ok || g != r.t.box.s || c != 0) {
				core.Fail("the connection of %s is open; its session is found: %v, closes reported: %d", r.t.name, ok, c)
			}
			if r.ended {
				s := r.t.box.get()
				if _, err := s.Send(&protocol.T808_0x8104{}); err == nil {
					core.Fail("sending on session %d succeeds after its close was reported", r.id)
				}
				if _, err := s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {}); err == nil {
					core.Fail("a request on session %d succeeds after its close was reported", r.id)
				}
				if _, err := s.Reply(&protocol.Message{}, protocol.T808_0x8001ResultSuccess); err == nil {
					core.Fail("a reply on session %d succeeds after its close was reported", r.id)
				}
			}
		}
		done++
		core.Poke()
	})
	must(60*sec, "looking up sessions does not finish", func() bool { return done == total+1 })
	for _, r := range rts {
		if r.ended && !r.t.eof && r.plan != endFin && r.plan != endRst && r.plan != endAtOnce && !core.WaitFor(5*sec, func() bool { return r.t.eof }) {
			core.Fail("the close of the connection of %s is reported but the connection stays open", r.t.name)
		}
	}
	core.State(uint64(ends)<<8 | uint64(n))
}

// scenEarly: the application closes sessions the moment it can find them,
// before their first message.
func scenEarly() {
	randNet()
	if core.WP(0.6) {
		core.EnableStalls(0.05, 8, sec)
	}
	netCfg().RstOnClose = float64(core.W(2))
	var fl *fleet
	fl = newFleet(srvOpt{keepalive: 3600, onClose: func(s *go808.Session) {
		if _, ok := fl.e.server().GetSession(s.ID()); ok {
			core.Fail("session %d is still found while its close is being reported", s.ID())
		}
	}})
	n := 1 + core.W(4)
	over := false
	closed := make([]bool, 3*n+1)
	closers := 1 + core.W(2)
	left := closers
	for k := 0; k < closers; k++ {
		how := core.W(3)
		gap := []int64{0, 100_000, ms, 20 * ms}[core.W(4)]
		fl.e.app(fmt.Sprintf("closer%d", k), func() {
			srv := fl.e.server()
			for i := 0; i < 2000 && !over; i++ {
				for x := range closed {
					if closed[x] {
						continue
					}
					id := sessionBase + uint64(x)
					s, ok := srv.GetSession(id)
					if !ok {
						continue
					}
					if s.ID() != id {
						core.Fail("session %d is found as session %d", id, s.ID())
					}
					closed[x] = true
					if how == 2 && core.W(2) == 1 {
						continue // this one may stay
					}
					core.Count("application closes session as soon as it is found")
					s.Close()
					if how == 1 {
						s.Close()
					}
				}
				core.SleepFor(gap + 1)
			}
			left--
			core.Poke()
		})
	}
	done := 0
	for i := 0; i < n; i++ {
		t := fl.addQuiet()
		core.GoIn(core.CurGroup(), t.name, func() {
			if t.conn != nil && core.W(2) == 1 {
				f, _ := t.up(0x0002, nil)
				t.write(f)
			}
			core.SleepFor(int64(core.W(100)) * ms)
			if core.W(4) == 3 {
				t.dead = true
				t.close()
			}
			done++
			core.Poke()
		})
		core.SleepFor(int64(core.W(50)) * ms)
	}
	must(600*sec, "terminals do not finish within 600 s", func() bool { return done == n })
	core.SleepFor(20 * sec)
	core.StopFaults()
	over = true
	must(60*sec, "GetSession or Close does not return within 60 s", func() bool { return left == 0 })
	core.SleepFor(10 * sec)
	ends := 0
	for _, t := range fl.ts {
		if t.eof || t.dead {
			ends++
		}
	}
	if len(fl.e.closes) != ends {
		core.Fail("%d connections have ended and %d closes are reported", ends, len(fl.e.closes))
	}
	fl.e.app("final", func() {
		found := 0
		for x := range closed {
			id := sessionBase + uint64(x)
			if _, ok := fl.e.server().GetSession(id); ok {
				found++
				if fl.e.closeCount(id) > 0 {
					core.Fail("session %d is found after its close was reported", id)
				}
			} else if c := fl.e.closeCount(id); c > 1 {
				core.Fail("the close of session %d is reported %d times", id, c)
			}
		}
		if found != n-ends {
			core.Fail("%d connections are open and %d sessions are found", n-ends, found)
		}
		done++
		core.Poke()
	})
	must(60*sec, "looking up sessions does not finish", func() bool { return done == n+1 })
	core.State(uint64(ends)<<8 | uint64(n))
}

func init() {
	register(&property{id: "C06", level: "exploration", runs: 45000, scen: []scenario{{"close", 3, scenClose}, {"early", 1, scenEarly}}})
}
