// The codec on its own, over readers and writers that behave in every way
// their interfaces allow, and the library talking to itself.
package main

import (
	"bytes"
	"crypto/rsa"
	"errors"
	"fmt"
	"io"

	"gosim/core"
	"gosim/snet"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

var errDev = errors.New("device error")

// dev is the stream the codec is given.
type dev struct {
	in      []byte
	pos     int
	ended   bool // no more input will come
	mode    int
	errP    float64 // transient read errors
	emptyP  float64 // reads of nothing
	lastEOF bool    // the last bytes may come together with the end
	errs    int     // transient errors returned so far
	out     [][]byte
	writeP  float64 // write errors
	failed  int
	closed  int
}

func (d *dev) Read(p []byte) (int, error) {
	core.Yield("dev.read")
	core.WaitFor(1<<60, func() bool { return d.pos < len(d.in) || d.ended })
	if core.F("reader error", d.errP) {
		d.errs++
		return 0, errDev
	}
	if core.F("empty read", d.emptyP) {
		return 0, nil
	}
	if d.pos == len(d.in) {
		return 0, io.EOF
	}
	n := min(len(p), len(d.in)-d.pos)
	switch d.mode {
	case 1:
		n = 1 + core.FN(n)
	case 2:
		n = 1
	case 3:
		n = 1 + core.FN(min(n, 9))
	}
	copy(p, d.in[d.pos:d.pos+n])
	core.WriteRange(p[:n])
	d.pos += n
	if d.pos == len(d.in) && d.ended && d.lastEOF {
		core.Count("data together with the end")
		return n, io.EOF
	}
	if core.F("data together with an error", d.errP/2) {
		d.errs++
		return n, errDev
	}
	return n, nil
}

func (d *dev) Write(p []byte) (int, error) {
	core.Yield("dev.write")
	core.ReadRange(p)
	if core.F("writer error", d.writeP) {
		n := core.FN(len(p))
		d.out = append(d.out, append([]byte{}, p[:n]...))
		d.failed++
		return n, errDev
	}
	d.out = append(d.out, append([]byte{}, p...))
	core.Yield("dev.written")
	return len(p), nil
}

func (d *dev) Close() error { d.closed++; return nil }

// item is one stretch of the input.
type item struct {
	m    *inMsg // nil: malformed
	what string
	nob  bool // well-formed, but its body cannot be understood
}

func drawItems(it *inTerm, n int, hostile bool) (l []*item, wire []byte) {
	for i := 0; i < n; i++ {
		x := &item{}
		l = append(l, x)
		if !hostile || core.W(3) != 0 {
			x.m = it.draw(false, true)
			wire = append(wire, x.m.wire...)
			continue
		}
		r := rnd{uint64(core.WBits())}
		switch core.W(8) {
		case 0:
			x.what = "garbage between frames"
			g := r.bytes(1 + core.W(40))
			if core.W(8) == 7 {
				g = r.bytes(1 + core.W(400))
			}
			for j := range g {
				if g[j] == 0x7e {
					g[j] = 0x7d
				}
			}
			wire = append(wire, g...)
		case 1:
			x.what = "empty frame"
			wire = append(wire, 0x7e, 0x7e)
		case 2:
			x.what = "frame of a few bytes"
			wire = append(wire, 0x7e)
			for j := core.W(12); j >= 0; j-- {
				wire = append(wire, byte(core.W(0x7d)))
			}
			wire = append(wire, 0x7e)
		case 3:
			x.what = "checksum wrong"
			f := append([]byte{}, frame(hdr{id: 0x0200, phone: 5}, r.bytes(1+core.W(60)))...)
			for j := len(f) - 2; j > 0; j-- {
				// a byte that neither is nor becomes special
				if f[j] < 0x70 && f[j] > 4 && f[j-1] != 0x7d {
					f[j] ^= 0x08
					break
				}
			}
			if _, _, err := parseFrame(f); err == nil {
				f = []byte{0x7e, 9, 9, 0x7e}
			}
			wire = append(wire, f...)
		case 4:
			x.what = "bad escape"
			f := append([]byte{0x7e}, 2, 0, 0, 0, 0, 0x7d, byte(3+core.W(100)), 9, 9, 9, 9, 9, 9, 0, 0x7e)
			wire = append(wire, f...)
		case 5:
			x.nob = true
			x.what = "unknown type"
			x.m = &inMsg{}
			x.m.setWire(hdr{id: uint16(0x7000 + core.W(0x100)), phone: it.t.phone, serial: uint16(core.W(65536))}, r.bytes(core.W(60)))
			wire = append(wire, x.m.wire...)
		case 6:
			x.what = "escape at the end"
			wire = append(wire, 0x7e, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x7d, 0x7e)
		case 7:
			x.what = "checksum left unescaped"
			wire = append(wire, bareChecksum(hdr{id: 0x0002, phone: it.t.phone, serial: uint16(core.W(65536))}, nil)...)
		}
		if x.what != "" {
			core.Count("hostile: " + x.what)
		}
	}
	return
}

func scenCodec() {
	d := &dev{mode: core.W(4)}
	hostile := core.WP(0.5)
	if core.WP(0.5) {
		d.errP = []float64{0.05, 0.3}[core.W(2)]
	}
	if core.WP(0.3) {
		d.emptyP = 0.3
	}
	d.lastEOF = core.WP(0.5)
	grp := core.NewGroup("peer")
	var tok int64
	var codec link.Codec
	var pc *go808.ProtocolCodec
	ready := false
	core.GoIn(grp, "create", func() {
		registerOwn()
		var err error
		codec, err = go808.Protocol{}.NewCodec(d)
		if err != nil {
			core.Fail("NewCodec fails: %s", err.Error())
		}
		pc, _ = codec.(*go808.ProtocolCodec)
		core.RelMerge(&tok)
		ready = true
		core.Poke()
	})
	must(10*sec, "NewCodec does not return", func() bool { return ready })
	core.Acq(&tok)
	it := &inTerm{t: &Term{name: "the stream", phone: phoneN(0)}, k0: core.W(4000)}
	items, wire := drawItems(it, 1+core.W(10), hostile)
	tail := 0
	if core.W(3) == 2 {
		// the stream ends inside a frame
		core.Count("stream ends inside a frame")
		f := frame(hdr{id: 0x0002, phone: 7, serial: 1}, nil)
		tail = 1 + core.W(len(f)-1)
		wire = append(wire, f[:tail]...)
	}
	// feed
	fed := false
	core.GoIn(core.CurGroup(), "feeder", func() {
		for len(wire) > 0 {
			n := len(wire)
			if core.W(2) == 1 {
				n = 1 + core.W(n)
			}
			d.in = append(d.in, wire[:n]...)
			wire = wire[n:]
			if len(wire) == 0 {
				d.ended = true
			}
			core.Poke()
			if core.W(3) == 2 {
				core.SleepFor(int64(core.W(50)) * ms)
			}
		}
		d.ended = true
		fed = true
		core.Poke()
	})
	// receive
	rdone := false
	core.GoIn(grp, "receiver", func() {
		core.Acq(&tok)
		k := 0
		skip := func() { // malformed stretches before the next message
			for k < len(items) && items[k].m == nil {
				k++
			}
		}
		seenErrs, bad := 0, false
		var kept []*protocol.Message
		var keptOf []*inMsg
		for calls := 0; ; calls++ {
			if calls > 200000 {
				core.Fail("Receive returns errors for ever before the end of the stream")
			}
			msg, err := codec.Receive()
			if err != nil {
				if err == errDev || errors.Is(err, errDev) {
					if seenErrs == d.errs {
						core.Fail("Receive returns an error of the reader twice")
					}
					seenErrs = d.errs
					continue
				}
				if d.ended && d.pos == len(d.in) && (err == io.EOF || err == io.ErrUnexpectedEOF) {
					break
				}
				if err == io.EOF {
					core.Fail("Receive reports the end of the stream with %d of %d bytes unread", len(d.in)-d.pos, len(d.in))
				}
				if k < len(items) && items[k].m == nil {
					bad = true
					continue
				}
				core.Fail("Receive fails although what comes next, item %d, is well-formed: %s", k, err.Error())
			}
			if k < len(items) && items[k].m == nil && !bad {
				core.Fail("a malformed stretch of the stream (%s) is passed over without an error", items[k].what)
			}
			skip()
			bad = false
			m, ok := msg.(protocol.Message)
			if !ok {
				core.Fail("Receive returns a %T", msg)
			}
			if k == len(items) {
				core.Fail("Receive returns a message %04x serial %d that is not in the stream", uint16(m.Header.MsgID), m.Header.MsgSerialNo)
			}
			x := items[k]
			k++
			if x.nob {
				if m.Body != nil || uint16(m.Header.MsgID) != x.m.h.id || m.Header.MsgSerialNo != x.m.h.serial || m.Header.IccID != x.m.h.phone {
					core.Fail("a message of unknown type %04x is returned as %04x", x.m.h.id, uint16(m.Header.MsgID))
				}
				continue
			}
			if m.Body == nil {
				core.Fail("a well-formed %04x message is returned without its body: %x", x.m.h.id, x.m.wire)
			}
			if s := x.m.compare(&m); s != "" {
				core.Fail("message %d of the stream (type %04x) is returned changed: %s", k-1, x.m.h.id, s)
			}
			kept = append(kept, &m)
			keptOf = append(keptOf, x.m)
		}
		skipped := false
		for k < len(items) && items[k].m == nil {
			k++
			skipped = true
		}
		if skipped && !bad {
			core.Fail("a malformed stretch at the end of the stream is passed over without an error")
		}
		if k < len(items) {
			core.Fail("Receive reports the end and message %d of %d (type %04x) has not been returned: %x", k, len(items), items[k].m.h.id, items[k].m.wire)
		}
		// the end is final
		for i := 0; i < 3; i++ {
			if m, err := codec.Receive(); err == nil {
				core.Fail("Receive returns a message after the end of the stream: %v", m)
			}
		}
		for i, m := range kept {
			if s := keptOf[i].compare(m); s != "" {
				core.Fail("a returned message (type %04x) changes afterwards: %s", keptOf[i].h.id, s)
			}
		}
		core.State(uint64(len(kept)))
		rdone = true
		core.Poke()
	})
	// send
	sdone := true
	if core.WP(0.6) {
		sdone = false
		if core.WP(0.4) {
			d.writeP = 0.2
		}
		changes := core.WP(0.5)
		nkey := 0 // how many keys may have been in force
		var keys = []*rsa.PrivateKey{testKey, testKey2}
		cur := core.W(3) // 2: none
		if changes {
			cur = core.W(2)
		} else if core.W(3) == 2 {
			k := core.W(3)
			keys = []*rsa.PrivateKey{bigKeys[k], bigKeys[(k+1)%3]}
		}
		_ = nkey
		n := 1 + core.W(6)
		kdone := true
		if changes && pc != nil {
			kdone = false
			core.GoIn(grp, "keys", func() {
				core.Acq(&tok)
				for i := 0; i < 6; i++ {
					x := keys[core.W(2)]
					pc.SetPublicKey(&x.PublicKey)
					if core.W(2) == 1 {
						core.SleepFor(int64(core.W(20)) * ms)
					}
				}
				kdone = true
				core.Poke()
			})
		}
		core.GoIn(grp, "sender", func() {
			core.Acq(&tok)
			if cur < 2 && pc != nil {
				pc.SetPublicKey(&keys[cur].PublicKey)
			}
			for i := 0; i < n; i++ {
				e, x := drawOut()
				m := protocol.Message{Body: e, Header: protocol.Header{MsgID: e.MsgID(), IccID: phoneN(i), MsgSerialNo: uint16(core.W(65536))}}
				crypt := core.W(2) == 1 && cur < 2 && pc != nil
				if crypt {
					m.Header.Property = 1 << 10
					core.Count("encrypted message sent")
				}
				if core.W(4) == 3 {
					m.Header.Packet = &protocol.Packet{Sum: uint16(core.W(65536)), Seq: uint16(core.W(300))}
				}
				w0, f0 := len(d.out), d.failed
				err := codec.Send(m)
				var w []byte
				for _, o := range d.out[w0:] {
					w = append(w, o...)
				}
				long := x.bad || crypt && len(x.body) > cryptRoom(&keys[cur].PublicKey)
				switch {
				case long:
					if err == nil {
						core.Fail("sending a message that cannot be encoded succeeds")
					}
					if len(w) > 0 {
						core.Fail("a message that cannot be encoded is written: %x", cut(w))
					}
					continue
				case d.failed > f0:
					if err == nil {
						core.Fail("Send succeeds although the writer failed after %d bytes", len(w))
					}
					continue
				case err != nil:
					core.Fail("Send of a %04x message fails although the writer did not: %s", x.id, err.Error())
				}
				h, body, ferr := parseFrame(w)
				if ferr != nil {
					core.Fail("Send writes something that is not one frame: %s", ferr.Error())
				}
				if h.crypt != crypt {
					core.Fail("a message is sent with its encryption mark %v instead of %v", h.crypt, crypt)
				}
				if crypt {
					a, e1 := decryptBody(keys[0], body)
					b, e2 := decryptBody(keys[1], body)
					switch {
					case e1 == nil && (cur == 0 || changes):
						body = a
					case e2 == nil && (cur == 1 || changes):
						body = b
					default:
						core.Fail("a message sent encrypted cannot be decrypted with the key it was encrypted for")
					}
				}
				p := m.Header.Packet
				if h.id != x.id || h.phone != m.Header.IccID || h.serial != m.Header.MsgSerialNo || h.packet != (p != nil) || p != nil && (h.sum != p.Sum || h.seq != p.Seq) || !bytes.Equal(body, x.body) {
					core.Fail("a %04x message is sent changed: %04x serial %d body %x instead of %x", x.id, h.id, h.serial, cut(body), cut(x.body))
				}
			}
			if err := codec.Send("no message"); err == nil {
				core.Fail("sending something that is not a message succeeds")
			}
			core.WaitFor(1<<60, func() bool { return kdone })
			sdone = true
			core.Poke()
		})
	}
	must(600*sec, "Receive or Send does not return", func() bool { return fed && rdone && sdone })
	core.StopFaults()
	fin := false
	core.GoIn(grp, "close", func() {
		core.Acq(&tok)
		codec.Close()
		fin = true
		core.Poke()
	})
	must(10*sec, "Close of the codec does not return", func() bool { return fin })
	if d.closed != 1 {
		core.Fail("closing the codec closes its stream %d times", d.closed)
	}
}

// ---------------------------------------------------------------- both ends

type peerMsg struct {
	ent   protocol.Entity
	id    uint16
	media []byte
	h     protocol.Header
	crypt bool
	got   int
}

type peer struct {
	idx  int
	up   []*peerMsg
	down []*peerMsg
	nUp  int // delivered
	nDn  int // received
	want int // to be received
	box  Box
	fin  bool
	up0  bool
	tok  int64
}

type peerLink interface {
	Send(interface{}) error
	Receive() (interface{}, error)
}

// directLink is a terminal that uses the message functions, not a session.
type directLink struct {
	c *snet.Conn
	link.Codec
}

func (d *directLink) put(m protocol.Message, crypt bool) error {
	var b []byte
	var err error
	if crypt {
		b, err = m.Encode(&testKey.PublicKey)
	} else {
		b, err = m.Encode()
	}
	if err == nil {
		_, err = d.c.Write(b)
	}
	return err
}

// scenPeers: terminals built with the library.
func scenPeers() {
	randNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, sec)
	}
	var ps []*peer
	cmp := func(p *peer, dir string, x *peerMsg, m *protocol.Message) {
		if m.Body == nil {
			core.Fail("a %04x message %s terminal %d arrives without its body", x.id, dir, p.idx)
		}
		if uint16(m.Header.MsgID) != x.id {
			core.Fail("a %04x message %s terminal %d arrives as %04x", x.id, dir, p.idx, uint16(m.Header.MsgID))
		}
		if s := diff(m.Body, x.ent); s != "" {
			core.Fail("a %04x message %s terminal %d (encrypted: %v) arrives changed: %s", x.id, dir, p.idx, x.crypt, s)
		}
		if x.id == 0x0801 {
			if b := readAll(m.Body.(*protocol.T808_0x0801).GetReader()); !bytes.Equal(b, x.media) {
				core.Fail("a media message %s terminal %d arrives with %d bytes of data instead of %d", dir, p.idx, len(b), len(x.media))
			}
		}
		if x.crypt != m.Header.Property.IsEnableEncrypt() {
			core.Fail("a %04x message %s terminal %d arrives marked as encrypted: %v", x.id, dir, p.idx, !x.crypt)
		}
	}
	e := startServer(srvOpt{keepalive: 36000, key: true, types: typeIDs(), setup: func(*go808.Server) {
		registerOwn()
	}, handler: func(s *go808.Session, m *protocol.Message) {
		i := snoIdx(m.Header.MsgSerialNo)
		if i >= len(ps) {
			core.Fail("a message with serial %d arrives that no terminal sent", m.Header.MsgSerialNo)
		}
		p := ps[i]
		if p.nUp >= len(p.up) {
			core.Fail("more messages arrive from terminal %d than it sent", i)
		}
		x := p.up[p.nUp]
		p.nUp++
		if m.Header.MsgSerialNo != x.h.MsgSerialNo || m.Header.IccID != x.h.IccID {
			core.Fail("a message of terminal %d arrives with serial %d phone %d instead of %d %d", i, m.Header.MsgSerialNo, m.Header.IccID, x.h.MsgSerialNo, x.h.IccID)
		}
		if (m.Header.Packet == nil) != (x.h.Packet == nil) || m.Header.Packet != nil && *m.Header.Packet != *x.h.Packet {
			core.Fail("a message of terminal %d arrives with another packet header", i)
		}
		cmp(p, "from", x, m)
		if p.box.s == nil {
			p.box.put(s)
		}
	}})
	n := 1 + core.W(3)
	for i := 0; i < n; i++ {
		p := &peer{idx: i}
		ps = append(ps, p)
		grp := core.NewGroup(fmt.Sprintf("terminal%d", i))
		nu, nd := 1+core.W(6), core.W(6)
		p.want = nd
		phone := phoneN(i)
		core.GoIn(grp, "terminal", func() {
			var s peerLink
			ok := true
			direct := core.W(4) == 3 // encodes its messages itself
			if direct {
				c, err := snet.DialPort(e.port)
				if err != nil {
					core.Fail("a terminal cannot connect: %s", err.Error())
				}
				cd, err := go808.Protocol{}.NewCodec(c)
				if err != nil {
					core.Fail("a codec cannot be made: %s", err.Error())
				}
				core.Count("terminal encodes its messages itself")
				s = &directLink{c, cd}
			} else {
				l, err := link.Dial("tcp", fmt.Sprintf("10.0.0.1:%d", e.port), go808.Protocol{}, 1000)
				if err != nil {
					core.Fail("a terminal cannot connect: %s", err.Error())
				}
				pc, is := l.Codec().(*go808.ProtocolCodec)
				if ok = is; is {
					pc.SetPublicKey(&testKey.PublicKey)
				}
				s = l
			}
			p.up0 = true
			core.RelMerge(&p.tok)
			core.GoIn(grp, "rx", func() {
				core.Acq(&p.tok)
				for {
					v, err := s.Receive()
					if err != nil {
						if p.nDn < nd {
							core.Fail("terminal %d cannot receive a message: %s", i, err.Error())
						}
						return
					}
					m, ok := v.(protocol.Message)
					if !ok || p.nDn >= len(p.down) {
						core.Fail("terminal %d receives a message that was not sent", i)
					}
					x := p.down[p.nDn]
					p.nDn++
					cmp(p, "to", x, &m)
					if m.Header.IccID != phone || m.Header.MsgSerialNo == 0 {
						core.Fail("terminal %d receives a message with phone number %d, serial %d", i, m.Header.IccID, m.Header.MsgSerialNo)
					}
					core.Poke()
				}
			})
			for k := 0; k < nu; k++ {
				x := &peerMsg{}
				t := &upTypes[core.W(len(upTypes))]
				if core.W(6) == 5 {
					t = &downTypes[core.W(len(downTypes))]
				}
				seed, room := core.WBits(), drawRoom()
				x.crypt = ok && core.W(2) == 1
				if x.crypt {
					room = min(room, 7*86)
				}
				var b []byte
				x.ent, b = makeBody(t, seed, room, true, false)
				if x.crypt && len(b) > 7*86 {
					x.crypt = false
				}
				x.id = t.id
				if x.id == 0x0801 {
					x.media = b[36:]
				}
				x.h = protocol.Header{IccID: phone, MsgSerialNo: sno(uint16(i), uint16(k+1))}
				if core.W(4) == 3 {
					x.h.Packet = &protocol.Packet{Sum: uint16(core.W(9)), Seq: uint16(core.W(9))}
				}
				h := x.h
				if x.crypt {
					if !direct || core.W(2) == 1 {
						h.Property = 1 << 10
					}
					core.Count("encrypted message")
				}
				p.up = append(p.up, x)
				var err error
				if dl, is := s.(*directLink); is {
					err = dl.put(protocol.Message{Header: h, Body: x.ent}, x.crypt)
				} else {
					err = s.Send(protocol.Message{Header: h, Body: x.ent})
				}
				if err != nil {
					core.Fail("terminal %d cannot send a %04x message: %s", i, x.id, err.Error())
				}
				if core.W(3) == 2 {
					core.SleepFor(int64(core.W(100)) * ms)
				}
			}
			p.fin = true
			core.Poke()
		})
		e.app(fmt.Sprintf("sender%d", i), func() {
			core.WaitFor(1<<60, func() bool { return p.box.s != nil })
			s := p.box.get()
			for k := 0; k < nd; k++ {
				core.WaitFor(1<<60, func() bool { return len(p.down)-p.nDn < 10 })
				x := &peerMsg{}
				t := &downTypes[core.W(len(downTypes))]
				x.ent, _ = makeBody(t, core.WBits(), drawRoom(), true, false)
				x.id = t.id
				p.down = append(p.down, x)
				if _, err := s.Send(x.ent); err != nil {
					core.Fail("sending a %04x message to terminal %d fails: %s", x.id, i, err.Error())
				}
			}
			core.Poke()
		})
		must(600*sec, "a terminal built with the library does not connect", func() bool { return p.up0 })
		pp := p
		defer func() { core.State(uint64(pp.nUp)<<8 | uint64(pp.nDn)) }()
	}
	for i, p := range ps {
		must(600*sec, "a terminal built with the library cannot send its messages", func() bool { return p.fin })
		if !core.WaitFor(120*sec, func() bool { return p.nUp == len(p.up) && p.nDn == p.want }) {
			core.Fail("%d of %d messages of terminal %d have arrived, and %d of %d to it", p.nUp, len(p.up), i, p.nDn, p.want)
		}
	}
}

func init() {
	register(&property{id: "C19", level: "exploration", runs: 16000, scen: []scenario{{"codec", 3, scenCodec}, {"peers", 1, scenPeers}}})
}
