// Broadcasts reach every open session once.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
)

type bcRec struct {
	n          uint32
	start, end int64
	count      int
	bad        bool
	id         uint16
	want       []byte
	frames     int // received by all terminals
}

type bcTerm struct {
	t     *Term
	from  int64 // its session is known open since
	to    int64 // and until (0: to the end)
	quiet bool  // says nothing itself
	early int64 // it may have been open from
}

// readEnt is a message of the application whose body is read once.
type readEnt struct{ r *bytes.Reader }

func (e *readEnt) MsgID() protocol.MsgID { return 0x0f01 }
func (e *readEnt) Encode() ([]byte, error) {
	b := make([]byte, e.r.Len())
	_, _ = e.r.Read(b)
	return b, nil
}
func (e *readEnt) Decode(b []byte) (int, error) { return len(b), nil }

func scenBroadcast() {
	opClock = 0
	randNet()
	netCfg().SpikeP = 0
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, sec)
	}
	fl := newFleet(srvOpt{keepalive: 36000})
	fl.passers()
	var ts []*bcTerm
	var bs []*bcRec
	join := func() *bcTerm {
		x := &bcTerm{early: opTick()}
		x.t = fl.add()
		x.from = opTick()
		ts = append(ts, x)
		return x
	}
	n0 := core.W(4)
	for i := 0; i < n0; i++ {
		if core.W(6) == 5 {
			// it has said nothing yet
			core.Count("broadcast to a terminal that has said nothing")
			x := &bcTerm{early: opTick(), quiet: true}
			x.t = fl.addQuiet()
			core.SleepFor(20 * sec)
			x.from = opTick()
			ts = append(ts, x)
			continue
		}
		join()
	}
	if core.WP(0.03) {
		// many terminals at once
		m := []int{13, 30, 31, 62, 63, 98, 126, 254}[core.W(8)] + core.W(6)
		core.Count("broadcast to a crowd")
		at := opTick()
		var crowd []*bcTerm
		for i := 0; i < m; i++ {
			x := &bcTerm{early: at, quiet: true}
			x.t = fl.addQuiet()
			crowd = append(crowd, x)
		}
		core.SleepFor(60 * sec)
		for _, x := range crowd {
			x.from = opTick()
		}
		ts = append(ts, crowd...)
	}
	done, total := 0, 0
	seq := uint32(0)
	nb := 1 + core.W(2)
	for g := 0; g < nb; g++ {
		total++
		k := 1 + core.W(5)
		fl.e.app(fmt.Sprintf("broadcast%d", g), func() {
			for j := 0; j < k; j++ {
				seq++
				b := &bcRec{n: seq, start: opTick()}
				bs = append(bs, b)
				var e protocol.Entity
				body := make([]byte, 4+core.W(40))
				binary.BigEndian.PutUint32(body, seq)
				raw := &rawEnt{body}
				e = raw
				b.id, b.want = 0x0f01, append([]byte{}, body...)
				var media *protocol.T808_0x0801
				switch core.W(8) {
				case 7:
					b.bad = true
					e = drawBad()
				case 6, 5:
					// its data comes from a reader
					core.Count("broadcast of a body that comes from a reader")
					x, want := makeBody(typeByID(0x0801), core.WBits(), 60, true, false)
					media = x.(*protocol.T808_0x0801)
					media.MediaID = seq
					media.Location.Extras = []extra.Entity{valExtra{0xe4, "kept"}}
					binary.BigEndian.PutUint32(want, seq)
					e, b.id, b.want = media, 0x0801, want
				case 4:
					e = &readEnt{r: bytes.NewReader(append([]byte{}, body...))}
				}
				b.count = fl.e.server().Broadcast(e)
				b.end = opTick()
				core.Note("app", "broadcast %d reaches %d", b.n, b.count)
				if b.bad && b.count != 0 {
					core.Fail("broadcasting a message that cannot be encoded reaches %d sessions", b.count)
				}
				if media != nil && (media.MediaID != b.n || len(media.Location.Extras) != 1) {
					core.Fail("broadcast %d changes the application's message", b.n)
				}
				// the entity belongs to the application again
				if media != nil {
					media.MediaID, media.Event = 0xeeeeeeee, media.Event+1
				}
				for i := range body {
					body[i] = 0xee
				}
				if core.W(2) == 1 {
					core.SleepFor(int64(core.W(300)) * ms)
				}
			}
			core.RelMerge(&fl.e.endTok)
			done++
			core.Poke()
		})
	}
	// terminals come and go meanwhile
	if core.WP(0.7) {
		m := 1 + core.W(3)
		for j := 0; j < m && len(fl.ts) < 12; j++ {
			core.SleepFor(int64(core.W(300)) * ms)
			if len(ts) > 0 && core.W(2) == 1 {
				x := ts[core.W(len(ts))]
				if x.to == 0 {
					x.to = opTick()
					core.Count("terminal leaves during broadcasts")
					switch k := core.W(3); {
					case k == 0 || x.quiet:
						x.t.close()
					case k == 1:
						x.t.conn.Reset()
					default:
						fl.e.app("closer", func() { x.t.box.get().Close() })
					}
				}
			} else {
				core.Count("terminal joins during broadcasts")
				join()
			}
		}
	}
	must(600*sec, "broadcasts do not return within 600 s", func() bool { return done == total })
	core.StopFaults()
	core.SleepFor(15 * sec)
	fl.e.sync()
	for i, x := range ts {
		maxStart := int64(0)
		var seen []uint32
		for _, f := range x.t.rx {
			if f.h.id != 0x0f01 && f.h.id != 0x0801 || len(f.body) < 4 {
				core.Fail("%s receives a %04x message that was not sent", x.t.name, f.h.id)
			}
			k := binary.BigEndian.Uint32(f.body)
			var b *bcRec
			for _, y := range bs {
				if y.n == k {
					b = y
				}
			}
			if b == nil || b.bad {
				core.Fail("%s receives a broadcast that was not sent: %x", x.t.name, cut(f.body))
			}
			if f.h.id != b.id || !bytes.Equal(f.body, b.want) {
				core.Fail("%s receives broadcast %d changed: %04x %x instead of %04x %x", x.t.name, k, f.h.id, f.body, b.id, b.want)
			}
			for _, s := range seen {
				if s == k {
					core.Fail("%s receives broadcast %d twice", x.t.name, k)
				}
			}
			if b.end < x.early {
				core.Fail("%s receives broadcast %d, made before it connected", x.t.name, k)
			}
			if x.quiet && f.h.phone != 0 {
				core.Fail("%s has said nothing and receives broadcast %d with phone number %d", x.t.name, k, f.h.phone)
			}
			if !x.quiet && f.h.phone != x.t.phone && (f.h.phone != 0 || b.start > x.from) {
				core.Fail("%s receives broadcast %d with phone number %d instead of %d", x.t.name, k, f.h.phone, x.t.phone)
			}
			if b.end < maxStart {
				core.Fail("%s receives broadcast %d after one that was made later", x.t.name, k)
			}
			maxStart = max(maxStart, b.start)
			seen = append(seen, k)
			b.frames++
		}
		if x.to == 0 && x.t.eof {
			core.Fail("the connection of %s is closed during broadcasts: %s", x.t.name, x.t.err)
		}
		for _, b := range bs {
			got := false
			for _, s := range seen {
				got = got || s == b.n
			}
			if !got && !b.bad && x.to == 0 && x.from < b.start {
				core.Fail("%s, connected all the time, does not receive broadcast %d", x.t.name, b.n)
			}
		}
		_ = i
	}
	for _, b := range bs {
		// sessions that certainly, and that possibly, took it
		lo, hi := 0, 0
		for _, x := range ts {
			if b.bad || b.end < x.early {
				continue
			}
			hi++
			if x.from < b.start && (x.to == 0 || x.to > b.end) {
				lo++
			}
		}
		if b.count < lo || b.count > hi || b.frames > b.count {
			core.Fail("broadcast %d reports %d sessions; between %d and %d were open, and %d terminals received it", b.n, b.count, lo, hi, b.frames)
		}
		core.State(uint64(b.count)<<8 | uint64(b.frames))
	}
}

func init() {
	register(&property{id: "C15", level: "exploration", runs: 80000, scen: []scenario{{"broadcast", 1, scenBroadcast}}})
}
