// Handlers added and replaced while messages flow.
package main

import (
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type swapVer struct {
	n          int
	start, end int64 // of the AddHandler call
}

type swapType struct {
	id   uint16
	vers []*swapVer
}

type swapMsg struct {
	serial uint16
	typ    *swapType
	sentAt int64 // before it was written
	calls  int
	ver    *swapVer
	at     int64
}

func scenSwap() {
	opClock = 0
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.02, 8, sec)
	}
	fl := newFleet(srvOpt{keepalive: 36000, types: []uint16{0x0002}})
	fl.passers()
	fl.e.sync()
	var types []*swapType
	ids := []uint16{0x0200, 0x0001, 0x0100, 0x0704, 0x0f01}
	nty := 1 + core.W(len(ids))
	for i := 0; i < nty; i++ {
		types = append(types, &swapType{id: ids[i]})
	}
	type swapTerm struct {
		t    *Term
		msgs []*swapMsg
		last int
	}
	var ts []*swapTerm
	nested := core.WP(0.4)
	nest := 0
	var install func(ty *swapType)
	install = func(ty *swapType) {
		v := &swapVer{n: len(ty.vers), start: opTick()}
		ty.vers = append(ty.vers, v)
		h := func(s *go808.Session, m *protocol.Message) {
			if uint16(m.Header.MsgID) != ty.id {
				core.Fail("the handler of %04x is given a %04x message", ty.id, uint16(m.Header.MsgID))
			}
			t := ts[snoIdx(m.Header.MsgSerialNo)]
			for k, x := range t.msgs {
				if x.serial != m.Header.MsgSerialNo {
					continue
				}
				x.calls++
				x.ver, x.at = v, opTick()
				core.Note("app", "%s message %d of type %04x to handler version %d", t.t.name, k, ty.id, v.n)
				if x.calls > 1 {
					core.Fail("message %d of %s is given to %d handlers", k, t.t.name, x.calls)
				}
				if k < t.last {
					core.Fail("message %d of %s is delivered after message %d", k, t.t.name, t.last)
				}
				t.last = k
			}
			if nested && nest < 6 && core.W(3) == 2 {
				nest++
				core.Count("handler replaced inside a handler")
				install(types[core.W(len(types))])
			}
			core.RelMerge(&fl.e.endTok)
			core.Poke()
		}
		fl.e.server().AddHandler(protocol.MsgID(ty.id), h)
		if core.W(4) == 3 {
			// no handler at all changes nothing
			fl.e.server().AddHandler(protocol.MsgID(ty.id), nil)
		}
		v.end = opTick()
		core.Note("app", "handler version %d of %04x in force", v.n, ty.id)
	}
	n := 1 + core.W(3)
	for i := 0; i < n; i++ {
		ts = append(ts, &swapTerm{t: fl.add(), last: -1})
	}
	done, total := 0, 0
	na := 1 + core.W(2)
	for g := 0; g < na; g++ {
		total++
		k := 1 + core.W(8)
		fl.e.app(fmt.Sprintf("adder%d", g), func() {
			for j := 0; j < k; j++ {
				install(types[core.W(len(types))])
				if core.W(2) == 1 {
					core.SleepFor(int64(core.W(100)) * ms)
				}
			}
			core.RelMerge(&fl.e.endTok)
			done++
			core.Poke()
		})
	}
	for _, st := range ts {
		total++
		k := 1 + core.W(10)
		core.GoIn(core.CurGroup(), st.t.name, func() {
			for j := 0; j < k; j++ {
				ty := types[core.W(len(types))]
				var b []byte
				if ty.id != 0x0f01 {
					_, b = makeBody(typeByID(ty.id), 0, 128, false, false)
				}
				if ty.id == 0x0001 {
					b = []byte{0, 0, 0, 0, 0}
				}
				f, s := st.t.up(ty.id, b)
				st.msgs = append(st.msgs, &swapMsg{serial: s, typ: ty, sentAt: opTick()})
				if !st.t.writeCut(f, core.W(4)) {
					core.Fail("the connection of %s breaks while handlers are replaced", st.t.name)
				}
				if core.W(3) == 2 {
					core.SleepFor(int64(core.W(100)) * ms)
				}
			}
			done++
			core.Poke()
		})
	}
	must(600*sec, "adding handlers does not return within 600 s", func() bool { return done == total })
	core.StopFaults()
	core.SleepFor(30 * sec)
	for _, st := range ts {
		if st.t.eof || len(st.t.rx) > 0 {
			core.Fail("%s is disturbed while handlers are replaced", st.t.name)
		}
		for k, m := range st.msgs {
			// some version whose installation had finished before it was sent
			var first *swapVer
			for _, v := range m.typ.vers {
				if v.end < m.sentAt {
					first = v
				}
			}
			if m.calls == 0 {
				if first != nil {
					core.Fail("message %d of %s (type %04x) is sent when its type has a handler, and is given to none", k, st.t.name, m.typ.id)
				}
				continue
			}
			// a version replaced before the message was sent gets nothing
			for _, v := range m.typ.vers {
				if v != m.ver && v.start > m.ver.end && v.end < m.sentAt {
					core.Fail("message %d of %s (type %04x) is given to version %d of its handler, which had been replaced by version %d before it was sent", k, st.t.name, m.typ.id, m.ver.n, v.n)
				}
			}
			// once a newer version was seen, an older one is not used again
			core.State(uint64(m.ver.n))
		}
	}
}

func init() {
	register(&property{id: "C21", level: "exploration", runs: 50000, scen: []scenario{{"swap", 1, scenSwap}}})
}
