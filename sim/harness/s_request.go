// Requests and their answers.
package main

import (
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type reqRec struct {
	t      *Term
	typ    int
	g, k   int
	serial uint16
	err    string
	done   bool
	called int
	got    uint16
	gotUp  uint16
	must   bool // its answer has to reach it: nothing replaces it
	last   bool
}

type ansRec struct {
	reply uint16
	up    uint16
	id    uint16
	seen  int
}

type reqTerm struct {
	t    *Term
	ans  []*ansRec
	recs []*reqRec
	pack bool // answers may be marked as packets
}

var reqTypes = []uint16{0x8104, 0x8201, 0x8107, 0x8702, 0x8103, 0x8302, 0x8500, 0x8700, 0x8801, 0x8802}

func reqEntity(i int) protocol.Entity {
	e, _ := makeBody(typeByID(reqTypes[i]), 0, 200, true, false)
	return e
}

func replySerial(m *protocol.Message) uint16 {
	switch b := m.Body.(type) {
	case *protocol.T808_0x0001:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0104:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0201:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0302:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0500:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0700:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0802:
		return b.ReplyMsgSerialNo
	case *protocol.T808_0x0805:
		return b.ReplyMsgSerialNo
	}
	return 0
}

// answer makes the terminal answer a serial number with some answer type.
func (rt *reqTerm) answer(serial uint16) {
	id := answerTypes[core.W(len(answerTypes))]
	_, b := makeBody(typeByID(id), core.WBits(), 128, false, false)
	b[0], b[1] = byte(serial>>8), byte(serial)
	f, up := rt.t.up(id, b)
	if rt.pack && core.W(3) == 2 {
		h := hdr{id: id, phone: rt.t.phone, serial: up, packet: true, sum: uint16(1 + core.W(3)), seq: uint16(1 + core.W(3))}
		f = frame(h, b)
		core.Count("answer marked as a packet")
	}
	rt.ans = append(rt.ans, &ansRec{reply: serial, up: up, id: id})
	rt.t.writeCut(f, 0)
}

// request issues one request and records what its callback gets.
func (rt *reqTerm) request(s *go808.Session, r *reqRec, inside func()) {
	rt.recs = append(rt.recs, r)
	n, err := s.Request(reqEntity(r.typ), func(m *protocol.Message) {
		r.called++
		r.got, r.gotUp = replySerial(m), m.Header.MsgSerialNo
		core.Note("app", "callback of %s request %d.%d type %04x: answer %04x to serial %d", rt.t.name, r.g, r.k, reqTypes[r.typ], uint16(m.Header.MsgID), r.got)
		if r.called > 1 {
			core.Fail("the callback of one request to %s is called %d times", rt.t.name, r.called)
		}
		if snoIdx(r.gotUp) != int(rt.t.idx) {
			core.Fail("the callback of a request to %s is given an answer of terminal %d", rt.t.name, snoIdx(r.gotUp))
		}
		if r.done && r.err == "" && r.got != r.serial {
			core.Fail("the callback of the request with serial %d to %s is given the answer to serial %d", r.serial, rt.t.name, r.got)
		}
		if inside != nil {
			inside()
		}
		core.RelMerge(&rt.t.env.endTok)
		core.Poke()
	})
	r.serial = n
	if err != nil {
		r.err = err.Error()
	}
	r.done = true
	core.Note("app", "request %d.%d to %s type %04x serial %d %s", r.g, r.k, rt.t.name, reqTypes[r.typ], n, r.err)
	if r.err != "" {
		core.Fail("a request to %s, which is connected and reading, fails: %s", rt.t.name, r.err)
	}
	if r.called > 0 && r.got != r.serial {
		core.Fail("the callback of the request with serial %d to %s is given the answer to serial %d", r.serial, rt.t.name, r.got)
	}
}

func (rt *reqTerm) answered(serial uint16) bool {
	for _, a := range rt.ans {
		if a.reply == serial {
			return true
		}
	}
	return false
}

func (rt *reqTerm) delivered() bool {
	for _, a := range rt.ans {
		if a.seen == 0 {
			return false
		}
	}
	return true
}

// seen is the handler's side: every answer is also an ordinary message.
func (rt *reqTerm) seen(m *protocol.Message) {
	for i, a := range rt.ans {
		if a.up == m.Header.MsgSerialNo {
			for _, b := range rt.ans[:i] {
				for _, r := range rt.recs {
					if r.last && r.done && r.err == "" && r.serial == b.reply && r.called == 0 {
						core.Fail("%s answers the request with serial %d (type %04x), and a later message of it is delivered before the callback is called", rt.t.name, r.serial, reqTypes[r.typ])
					}
				}
			}
			a.seen++
			if a.seen > 1 {
				core.Fail("an answer of %s is delivered to its handler twice", rt.t.name)
			}
			if replySerial(m) != a.reply {
				core.Fail("an answer of %s to serial %d reaches its handler as one to serial %d", rt.t.name, a.reply, replySerial(m))
			}
		}
	}
}

func (rt *reqTerm) check() {
	for _, r := range rt.recs {
		if r.called > 0 && !rt.answered(r.serial) {
			core.Fail("the callback of a request to %s (type %04x, serial %d) is called although the terminal did not answer it", rt.t.name, reqTypes[r.typ], r.serial)
		}
		if r.called == 0 && (r.must || r.last) && rt.answered(r.serial) {
			core.Fail("%s answers the request with serial %d (type %04x) and the callback is not called", rt.t.name, r.serial, reqTypes[r.typ])
		}
		if r.called > 0 {
			core.State(uint64(r.serial))
		}
	}
}

const (
	polNow = iota
	polLater
	polTwice
	polNever
	polNoise
)

func scenRequest() {
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.02, 6, 3*sec)
	}
	fl := newFleet(srvOpt{keepalive: 3600, merge: core.W(2) == 1})
	fl.passers()
	pack := core.W(3) == 2
	var rts []*reqTerm
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if int(t.idx) < len(rts) {
			rts[t.idx].seen(m)
		}
	}
	var pol [10]int
	for i := range pol {
		pol[i] = core.W(5)
	}
	nt := 1 + core.W(3)
	pend := 0
	for i := 0; i < nt; i++ {
		rt := &reqTerm{t: fl.add(), pack: pack}
		rts = append(rts, rt)
		rt.t.onFrame = func(f *rxFrame) {
			typ := -1
			for j, id := range reqTypes {
				if id == f.h.id {
					typ = j
				}
			}
			if typ < 0 {
				return
			}
			n := f.h.serial
			switch pol[typ] {
			case polNow:
				rt.answer(n)
			case polTwice:
				rt.answer(n)
				pend++
				core.GoIn(core.CurGroup(), "again", func() {
					core.SleepFor(int64(core.W(2000)) * ms)
					rt.answer(n)
					pend--
					core.Poke()
				})
			case polLater:
				pend++
				core.GoIn(core.CurGroup(), "later", func() {
					core.SleepFor(int64(core.W(3000)) * ms)
					rt.answer(n)
					pend--
					core.Poke()
				})
			case polNoise:
				// numbers nobody used: beyond the last, and equal to
				// an outstanding one in one half only
				odd := [...]uint16{n + 100, n + 256, n << 8, n | 0x8000, n ^ 0x100, 0, 0xffff}
				rt.answer(odd[core.W(len(odd))])
				rt.answer(odd[core.W(len(odd))])
				rt.answer(n)
				rt.answer(odd[core.W(len(odd))])
			}
		}
	}
	done, total := 0, 0
	for i := 0; i < nt; i++ {
		rt := rts[i]
		// each goroutine owns some request types of this session
		ng := 1 + core.W(3)
		next := 0
		for g := 0; g < ng; g++ {
			nty := 1 + core.W(3)
			from := next
			next += nty
			n := 1 + core.W(5)
			burst := core.WP(0.3)
			total++
			fl.e.app(fmt.Sprintf("asker%d.%d", i, g), func() {
				var lasts [10]*reqRec
				for k := 0; k < n && !core.Failed(); k++ {
					r := &reqRec{t: rt.t, typ: from + core.W(nty), g: g, k: k}
					if l := lasts[r.typ]; l != nil {
						l.last = false
						if !burst && pol[r.typ] != polNever {
							l.must = true
							if !core.WaitFor(120*sec, func() bool { return l.called > 0 }) {
								core.Fail("%s answers the request with serial %d (type %04x) and the callback is not called within 120 s", rt.t.name, l.serial, reqTypes[l.typ])
							}
						}
					}
					r.last = true
					lasts[r.typ] = r
					rt.request(rt.t.box.get(), r, nil)
					if core.W(4) == 3 {
						core.SleepFor(int64(core.W(300)) * ms)
					}
				}
				core.RelMerge(&fl.e.endTok)
				done++
				core.Poke()
			})
		}
	}
	must(3600*sec, "a request does not return within 3600 s", func() bool { return done == total })
	core.StopFaults()
	core.SleepFor(20 * sec)
	for _, rt := range rts {
		if !core.WaitFor(120*sec, func() bool { return pend == 0 && rt.delivered() }) {
			core.Fail("an answer of %s is not delivered to the handler of its type", rt.t.name)
		}
		core.SleepFor(sec)
		fl.e.sync()
		rt.check()
	}
}

// scenReuse: a request nobody answers is still pending when its serial number
// comes round again.
func scenReuse() {
	randNet()
	snet1()
	fl := newFleet(srvOpt{keepalive: 36000})
	fl.passers()
	rt := &reqTerm{}
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) { rt.seen(m) }
	t := fl.add()
	rt.t = t
	t.onFrame = func(f *rxFrame) {
		if f.h.id == 0x8201 || f.h.id == 0x8107 {
			rt.answer(f.h.serial)
		}
	}
	nst := 1 + core.W(3)
	pre := core.W(4)
	fill := 240 + core.W(20)
	n := 1 + core.W(20)
	done := false
	fl.e.app("asker", func() {
		s := t.box.get()
		sent := 0
		wait := func() {
			core.WaitFor(1<<60, func() bool { return sent-len(t.rx) < 16 })
			sent++
		}
		for i := 0; i < pre; i++ {
			wait()
			s.Send(&protocol.T808_0x8104{})
		}
		stale := []int{0, 3, 4}
		for i := 0; i < nst; i++ {
			wait()
			r := &reqRec{t: t, typ: stale[i], k: i}
			rt.request(s, r, func() {
				core.Fail("the callback of a request that %s never answered is called, with the answer to serial %d", t.name, r.got)
			})
		}
		for i := 0; i < fill; i++ {
			wait()
			s.Send(&protocol.T808_0x8104{})
		}
		for i := 0; i < n; i++ {
			wait()
			r := &reqRec{t: t, typ: 1 + core.W(2), k: 100 + i, must: true}
			rt.request(s, r, nil)
			if !core.WaitFor(120*sec, func() bool { return r.called > 0 }) {
				core.Fail("%s answers the request with serial %d (type %04x) and the callback is not called within 120 s", t.name, r.serial, reqTypes[r.typ])
			}
		}
		done = true
		core.Poke()
	})
	must(3600*sec, "requests do not finish within 3600 s", func() bool { return done })
	core.State(uint64(fill)<<8 | uint64(n))
}

// scenCycle: the numbers come round while a callback has not returned; the
// requests made meanwhile are not mistaken for the one it belongs to.
func scenCycle() {
	randNet()
	snet1()
	fl := newFleet(srvOpt{keepalive: 36000})
	fl.passers()
	rt := &reqTerm{}
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) { rt.seen(m) }
	t := fl.add()
	rt.t = t
	pre := core.W(6)
	late := core.W(2) == 1 // answers come only after the callback has returned
	fill := 230 + core.W(24)
	n := 1 + core.W(9)
	in, out, back := false, false, false
	t.onFrame = func(f *rxFrame) {
		for j, id := range reqTypes {
			if id == f.h.id && j > 0 {
				k := f.h.serial
				if late && j > 1 {
					core.GoIn(core.CurGroup(), "later", func() {
						core.WaitFor(1<<60, func() bool { return back })
						rt.answer(k)
					})
				} else {
					rt.answer(k)
				}
			}
		}
	}
	var rs []*reqRec
	meanwhile := func(s *go808.Session) {
		sent := len(t.rx)
		wait := func() {
			core.WaitFor(1<<60, func() bool { return sent-len(t.rx) < 16 })
			sent++
		}
		for i := 0; i < fill; i++ {
			wait()
			s.Send(&protocol.T808_0x8104{})
		}
		for i := 0; i < n && i+2 < len(reqTypes); i++ {
			wait()
			r := &reqRec{t: t, typ: i + 2, k: i + 1, must: true}
			rs = append(rs, r)
			rt.request(s, r, nil)
			for j, k := 0, core.W(4); j < k; j++ {
				wait()
				s.Send(&protocol.T808_0x8104{})
			}
		}
		out = true
		core.Poke()
	}
	inside := core.W(2) == 1
	fl.e.app("asker", func() {
		s := t.box.get()
		for i := 0; i < pre; i++ {
			s.Send(&protocol.T808_0x8104{})
		}
		r := &reqRec{t: t, typ: 1, must: true}
		rt.request(s, r, func() {
			in = true
			core.Poke()
			if inside {
				meanwhile(s)
			} else {
				core.WaitFor(1<<60, func() bool { return out })
			}
			back = true
			core.Poke()
		})
		if !inside {
			core.WaitFor(1<<60, func() bool { return in })
			meanwhile(s)
		}
	})
	must(3600*sec, "requests made while a callback has not returned do not return within 3600 s", func() bool { return back })
	if !core.WaitFor(120*sec, func() bool {
		for _, r := range rs {
			if r.called == 0 {
				return false
			}
		}
		return true
	}) {
		core.Fail("%s answers the requests made while a callback had not returned, and not all their callbacks are called", t.name)
	}
	core.SleepFor(sec)
	fl.e.sync()
	rt.check()
	core.Count("numbers come round during a callback")
	core.State(uint64(fill)<<8 | uint64(n))
}

// scenFailed: requests on a connection that is over fail, and answers to
// their serial numbers that were on their way do not reach their callbacks.
func scenFailed() {
	randNet()
	netCfg().SegMode = 0
	netCfg().ReadMode = 0
	fl := newFleet(srvOpt{keepalive: 3600})
	fl.passers()
	var t *Term
	pre := core.W(3)
	n := 1 + core.W(3)
	done := false
	calls := 0
	seen := 0
	fl.onMsg = func(x *Term, s *go808.Session, m *protocol.Message) {
		if replySerial(m) != 0 {
			seen++
		}
		if m.Header.MsgID != protocol.MsgT808_0x0002 || snoK(m.Header.MsgSerialNo) < 2 {
			return
		}
		for i := 0; i < pre; i++ {
			s.Send(&protocol.T808_0x8104{})
		}
		s.Close()
		for i := 0; i < n; i++ {
			k, err := s.Request(reqEntity(i), func(*protocol.Message) { calls++ })
			if err == nil {
				core.Fail("a request to %s succeeds, with serial %d, after its session was closed", x.name, k)
			}
			core.Note("app", "request %d to %s fails: %s", i, x.name, err.Error())
		}
		done = true
		core.Poke()
	}
	t = fl.add()
	w, _ := t.up(0x0002, nil)
	for i := 0; i < n; i++ {
		id := answerTypes[core.W(2)*core.W(len(answerTypes))]
		_, b := makeBody(typeByID(id), 0, 20, false, false)
		k := uint16(pre + 1 + i)
		b[0], b[1] = byte(k>>8), byte(k)
		f, _ := t.up(id, b)
		w = append(w, f...)
	}
	t.write(w)
	must(120*sec, "a handler does not finish within 120 s", func() bool { return done })
	core.SleepFor(20 * sec)
	fl.e.sync()
	if calls > 0 {
		core.Fail("the callback of a request to %s that failed is called", t.name)
	}
	for i := 0; i < seen; i++ {
		core.Count("probe: answer delivered after a failed request")
	}
	core.State(uint64(pre)<<8 | uint64(n)<<4 | uint64(seen))
}

func init() {
	register(&property{id: "C04", level: "exploration", runs: 30000, scen: []scenario{{"request", 12, scenRequest}, {"reuse", 1, scenReuse}, {"cycle", 1, scenCycle}, {"failed", 2, scenFailed}}})
}
