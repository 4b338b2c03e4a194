// Messages split into packets: storage, reassembly, faults and crashes.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"gosim/core"
	"gosim/sos"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// pktIDs are application-defined message types that may be split; their
// numbers resemble each other's and 0x0801's in decimal and in hexadecimal.
var pktIDs = []uint16{0x0f02, 0x00cc, 0x500a, 0x0080, 0x8010, 0x2049}

// pktEnt is the body of such a message.
type pktEnt struct {
	id  uint16
	tag uint32
	r   io.Reader
}

func (e *pktEnt) MsgID() protocol.MsgID   { return protocol.MsgID(e.id) }
func (e *pktEnt) Encode() ([]byte, error) { return nil, nil }
func (e *pktEnt) Decode(b []byte) (int, error) {
	if len(b) < 4 {
		return 0, fmt.Errorf("short")
	}
	e.tag = binary.BigEndian.Uint32(b)
	return 4, nil
}
func (e *pktEnt) GetTag() uint32        { return e.tag }
func (e *pktEnt) GetReader() io.Reader  { return e.r }
func (e *pktEnt) SetReader(r io.Reader) { e.r = r }
func (e *pktEnt) DecodePacket(b []byte) error {
	n, err := e.Decode(b)
	if err != nil {
		return err
	}
	e.r = bytes.NewReader(append([]byte{}, b[n:]...))
	return nil
}

func partBody(typ uint16, tag uint32, data []byte) []byte {
	if typ != 0x0801 {
		return append(binary.BigEndian.AppendUint32(nil, tag), data...)
	}
	_, b := makeBody(typeByID(0x0801), 0, 60, false, false)
	b = append(append([]byte{}, b[:36]...), data...)
	binary.BigEndian.PutUint32(b, tag)
	return b
}

// mpMsg is one message under reassembly: for each part the contents the store
// may hold (nil: absent).
type mpMsg struct {
	phone uint64
	typ   uint16
	tag   uint32
	parts [][][]byte
}

func (m *mpMsg) at(seq int) *[][]byte {
	for len(m.parts) <= seq {
		m.parts = append(m.parts, [][]byte{nil})
	}
	return &m.parts[seq]
}

// absent: the part is certainly not stored; present: it certainly is.
func absent(v [][]byte) bool {
	for _, x := range v {
		if x != nil {
			return false
		}
	}
	return true
}

func present(v [][]byte) bool {
	for _, x := range v {
		if x == nil {
			return false
		}
	}
	return true
}

type mpPart struct {
	msg    *mpMsg
	seq    int
	sum    int
	data   []byte
	serial uint16
	conn   int        // connection generation it was sent on
	may    [][][]byte // what may be delivered, per part, at the time
	got    int
	fine   bool // content judged
	result int  // -1: no answer yet
	wire   []byte
	bad    string
}

type mpTerm struct {
	t       *Term
	phone   uint64
	msgs    []*mpMsg
	sent    []*mpPart
	serialN uint16
}

type mpWorld struct {
	fl     *fleet
	ts     []*mpTerm
	slow   bool
	faulty bool
	early  bool // the application stops reading early sometimes
	long   bool
	key    bool // the server has a key: parts may be encrypted
}

// onMsg is the application's handler of split messages.
func (w *mpWorld) onMsg(t *Term, s *go808.Session, m *protocol.Message) {
	if int(t.idx) >= len(w.ts) || m.Header.Packet == nil {
		return
	}
	mt := w.ts[t.idx]
	var p *mpPart
	for _, x := range mt.sent {
		if x.serial == m.Header.MsgSerialNo {
			p = x
		}
	}
	if p == nil {
		core.Fail("a split message of %s is delivered whose serial number it did not send", t.name)
	}
	p.got++
	core.Note("app", "%s message tag %d delivered by part %d/%d", t.name, p.msg.tag, p.seq, p.sum)
	if p.seq != p.sum {
		core.Fail("part %d of %d of a message of %s is delivered on its own", p.seq, p.sum, t.name)
	}
	if p.got > 1 {
		core.Fail("one reception of a complete message of %s is delivered %d times", t.name, p.got)
	}
	if uint16(m.Header.MsgID) != p.msg.typ || m.Header.IccID != p.msg.phone {
		core.Fail("a message of %s is delivered as type %04x of phone %d", t.name, uint16(m.Header.MsgID), m.Header.IccID)
	}
	e, ok := m.Body.(protocol.EntityPacket)
	if !ok {
		core.Fail("a split message of %s is delivered without a reader", t.name)
	}
	if e.GetTag() != p.msg.tag {
		core.Fail("a message of %s with tag %d is delivered with tag %d", t.name, p.msg.tag, e.GetTag())
	}
	r := e.GetReader()
	if r == nil {
		core.Fail("a split message of %s is delivered without a reader", t.name)
	}
	if w.early && core.W(3) == 2 {
		return
	}
	var all []byte
	buf := make([]byte, 1+core.W(700))
	for {
		n, err := r.Read(buf)
		all = append(all, buf[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			if w.faulty {
				return // the disk fails while the application reads
			}
			core.Fail("reading a complete message of %s fails: %s", t.name, err.Error())
		}
		if w.slow && core.W(4) == 3 {
			core.SleepFor(int64(core.W(300)) * ms)
		}
	}
	p.fine = true
	if !matches(p.may[1:], all) {
		want := 0
		for _, v := range p.may[1:] {
			want += len(v[len(v)-1])
		}
		core.Fail("a message of %s (tag %d, %d parts) is delivered with %d bytes that are not the concatenation of its parts (last versions: %d bytes): %x", t.name, p.msg.tag, p.sum, len(all), want, cut(all))
	}
}

// matches: b is the concatenation of one possible version of each part.
func matches(parts [][][]byte, b []byte) bool {
	if len(parts) == 0 {
		return len(b) == 0
	}
	for _, v := range parts[0] {
		if v != nil && bytes.HasPrefix(b, v) && matches(parts[1:], b[len(v):]) {
			return true
		}
	}
	return false
}

// content draws the data of a part.
func content(room int) []byte {
	r := rnd{uint64(core.WBits())}
	b := r.bytes(r.size(room))
	if b == nil {
		b = []byte{}
	}
	return b
}

// send transmits one part.
func (w *mpWorld) send(mt *mpTerm, m *mpMsg, seq, sum int, data []byte) *mpPart {
	mt.serialN++
	p := &mpPart{msg: m, seq: seq, sum: sum, data: data, serial: sno(mt.t.idx, mt.serialN), result: -1}
	v := m.at(seq)
	*v = append((*v)[:len(*v):len(*v)], data) // until it is answered, the old or the new version
	for i := 0; i <= sum; i++ {
		p.may = append(p.may, *m.at(i))
	}
	mt.sent = append(mt.sent, p)
	h := hdr{id: m.typ, phone: m.phone, serial: p.serial, packet: true, sum: uint16(sum), seq: uint16(seq)}
	body := partBody(m.typ, m.tag, data)
	if w.key && len(body) <= 7*86 && core.W(2) == 1 {
		r := rnd{uint64(core.WBits())}
		h.crypt = true
		body = encryptBody(&testKey.PublicKey, &r, body)
		core.Count("encrypted packet")
	}
	p.wire = frame(h, body)
	core.Note("term", "%s sends tag %d part %d/%d (%d bytes) serial %d", mt.t.name, m.tag, seq, sum, len(data), p.serial)
	mt.t.writeCut(p.wire, core.W(4))
	return p
}

// answer takes in the reply to a part.
func (w *mpWorld) answered(mt *mpTerm, p *mpPart) bool {
	if p.result >= 0 {
		return true
	}
	rs := mt.t.replies(p.msg.typ, p.serial)
	if len(rs) == 0 {
		return false
	}
	p.result = int(rs[0].body[4])
	return true
}

// settle applies the answer to the model and judges it; strict: no faults.
func (w *mpWorld) settle(mt *mpTerm, p *mpPart, strict bool) {
	m := p.msg
	v := m.at(p.seq)
	if p.sum == 0 && (p.result == 0 || p.got > 0) {
		core.Fail("packet 0 of 0 of %s is answered with %d and delivered %d times although there is no such message", mt.t.name, p.result, p.got)
	}
	if p.seq > p.sum || p.seq == 0 {
		return // of no consequence, stored or not
	}
	if p.result != 0 && p.result != 1 {
		core.Fail("part %d/%d of a message of %s is answered with result %d", p.seq, p.sum, mt.t.name, p.result)
	}
	if strict || p.result == 0 {
		// stored: from now on this version
		*v = [][]byte{p.data}
	}
	if p.seq != p.sum {
		if strict && p.result != 0 {
			core.Fail("part %d/%d of a message of %s is refused although nothing is wrong", p.seq, p.sum, mt.t.name)
		}
		return
	}
	all, none := true, false
	for i := 1; i <= p.sum; i++ {
		x := p.may[i]
		if i == p.seq {
			x = [][]byte{p.data}
		}
		all = all && present(x)
		none = none || absent(x)
	}
	if p.result == 0 && none {
		core.Fail("the last part of a message of %s is answered with success although a part was never received", mt.t.name)
	}
	if p.result != 0 && strict && all {
		core.Fail("the last part of a message of %s, which is complete, is refused although nothing is wrong", mt.t.name)
	}
	if p.result == 0 && !core.WaitFor(600*sec, func() bool { return p.got == 1 }) {
		core.Fail("the last part of a message of %s is answered with success and the message is not delivered", mt.t.name)
	}
	if p.result == 1 && p.got > 0 {
		core.Fail("the last part of a message of %s is refused and the message is delivered", mt.t.name)
	}
	core.State(uint64(p.sum)<<16 | uint64(p.result))
}

// twice: no part is answered or delivered more than once.
func (w *mpWorld) final() {
	for _, mt := range w.ts {
		for _, p := range mt.sent {
			if n := len(mt.t.replies(p.msg.typ, p.serial)); n > 1 {
				core.Fail("part %d/%d of a message of %s is answered %d times", p.seq, p.sum, mt.t.name, n)
			}
			if p.result == 1 && p.got > 0 {
				core.Fail("the last part of a message of %s is refused and the message is delivered", mt.t.name)
			}
		}
	}
}

func (w *mpWorld) opts() srvOpt {
	return srvOpt{keepalive: 360000, merge: true, key: w.key, types: append(typeIDs(), pktIDs...), setup: func(*go808.Server) {
		for _, id := range pktIDs {
			id := id
			protocol.Register(id, func() protocol.Entity { return &pktEnt{id: id} })
		}
	}}
}

func newMulti() *mpWorld {
	w := &mpWorld{key: core.WP(0.2)}
	w.fl = newFleet(w.opts())
	w.fl.onMsg = w.onMsg
	w.slow = core.WP(0.4)
	w.early = core.WP(0.2)
	slowDisk()
	return w
}

// slowDisk draws how long file operations take.
func slowDisk() {
	if core.WP(0.4) {
		sos.Cfg.SlowP = []float64{0.1, 0.3, 0.7}[core.W(3)]
		sos.Cfg.SlowMax = []int64{ms, 20 * ms, 300 * ms}[core.W(3)]
	}
}

func (w *mpWorld) addTerm(phone uint64) *mpTerm {
	t := w.fl.addQuiet()
	t.phone = phone
	mt := &mpTerm{t: t, phone: phone}
	w.ts = append(w.ts, mt)
	return mt
}

func (mt *mpTerm) message() *mpMsg {
	typ := uint16(0x0801)
	if core.W(3) == 2 {
		typ = 0x0f02
		if core.W(2) == 1 {
			typ = pktIDs[core.W(len(pktIDs))]
		}
	}
	tag := []uint32{1, 2, 3, 0, 0xffffffff, 21, 12, 0x10001, 0x101, 0x80000001, 11, 91}[core.W(12)]
	for _, m := range mt.msgs {
		if m.typ == typ && m.tag == tag {
			return m
		}
	}
	m := &mpMsg{phone: mt.phone, typ: typ, tag: tag}
	mt.msgs = append(mt.msgs, m)
	return m
}

func (w *mpWorld) noFds(what string) {
	// a slow application may still be reading
	if !core.WaitFor(7200*sec, func() bool { return sos.OpenNow == 0 }) {
		core.Fail("%d files stay open %s", sos.OpenNow, what)
	}
}

// tidy: storage holds what was received and nothing that grows with every
// refused packet, unless a removal was made to fail.
func (w *mpWorld) tidy() {
	if sos.RemoveFailed {
		return
	}
	type pk struct {
		m   *mpMsg
		seq int
	}
	all := map[pk]bool{}
	for _, mt := range w.ts {
		for _, p := range mt.sent {
			all[pk{p.msg, p.seq}] = true
			all[pk{p.msg, -1}] = true // the complete message
		}
	}
	if n := sos.Files("/tmp"); n > len(all) {
		core.Fail("%d files are in storage after all transfers are finished, for %d packets and complete messages: refused packets leave files behind", n, len(all))
	}
	core.Count("probe: storage holds no leftovers")
}

// junk puts files of other origin into the place parts are kept.
func junk(phone uint64) {
	dir := fmt.Sprintf("/tmp/go808/%d", phone)
	sos.MkdirAll(dir, 0o755)
	for _, n := range []string{"readme.part", "2049-1.part", "x", "1-2-3-4.part", "part-1", "2049-1.full", "2049-1-1.tmp", "2049-1-2.bak", "2049-2-1", "2049-3-1.part~"} {
		if core.W(2) == 1 {
			sos.WriteFile(dir+"/"+n, []byte("junk junk junk junk junk junk junk"), 0o644)
		}
	}
}

// scenMulti: reassembly against the model, no faults.
func scenMulti() {
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 2*sec)
	}
	w := newMulti()
	n := 1 + core.W(3)
	done := 0
	for i := 0; i < n; i++ {
		mt := w.addTerm(phoneN(i))
		if core.W(5) == 4 {
			junk(mt.phone)
		}
		rounds := 1 + core.W(4)
		core.GoIn(core.CurGroup(), mt.t.name, func() {
			for r := 0; r < rounds; r++ {
				w.transfer(mt)
			}
			done++
			core.Poke()
		})
	}
	must(30000*sec, "transfers do not finish within 30000 s", func() bool { return done == n })
	core.SleepFor(5 * sec)
	w.fl.e.sync()
	w.final()
	w.noFds("after all transfers are finished")
}

// transfer sends one message in some order, with repetitions and omissions.
func (w *mpWorld) transfer(mt *mpTerm) {
	m := mt.message()
	sum := 1 + core.W(5)
	if core.W(8) == 7 {
		sum = 9 + core.W(6)
	}
	if w.long {
		sum = []int{100, 99, 101, 128, 255, 256, 257, 300, 1000}[core.W(9)] + core.W(3)
		core.Count("message of more than 98 packets")
	}
	var order []int
	for i := 1; i <= sum; i++ {
		order = append(order, i)
	}
	switch core.W(6) {
	case 1: // shuffled
		for i := len(order) - 1; i > 0; i-- {
			j := core.W(i + 1)
			order[i], order[j] = order[j], order[i]
		}
		core.Count("parts out of order")
	case 2: // one missing
		i := core.W(len(order))
		order = append(order[:i:i], order[i+1:]...)
		core.Count("part lost")
	case 3: // some repeated
		for k := 0; k < 1+core.W(3); k++ {
			order = append(order, 1+core.W(sum))
		}
		core.Count("parts repeated")
	case 4: // last part repeated
		order = append(order, sum)
		core.Count("last part repeated")
	}
	if !w.long && core.W(12) == 11 {
		// a packet that no message of this length has
		x := sum + 1 + core.W(3)
		if core.W(3) == 2 {
			x = 0
		}
		i := core.W(len(order) + 1)
		order = append(order[:i:i], append([]int{x}, order[i:]...)...)
		core.Count("packet number out of range")
	}
	room := []int{300, 30, 900, 0}[core.W(4)]
	var win []*mpPart
	pipe := 1 + core.W(3)
	if core.W(2) == 0 {
		pipe = 1
	}
	if w.long {
		pipe, room = 12, room%31
	}
	flush := func(k int) {
		for len(win) > k {
			p := win[0]
			win = win[1:]
			if !core.WaitFor(3600*sec, func() bool { return w.answered(mt, p) }) {
				core.Fail("part %d/%d of a message of %s is not answered within an hour", p.seq, p.sum, mt.t.name)
			}
			w.settle(mt, p, true)
		}
	}
	for _, seq := range order {
		flush(pipe - 1)
		for _, p := range win {
			// an unanswered part in the pipe is certainly stored before the next
			if p.seq > 0 && p.seq <= p.sum {
				*m.at(p.seq) = [][]byte{p.data}
			}
		}
		win = append(win, w.send(mt, m, seq, sum, content(room)))
	}
	flush(0)
	if !w.long && core.W(20) == 19 {
		core.Count("packet 0 of 0")
		win = append(win, w.send(mt, m, 0, 0, content(room)))
		flush(0)
	}
}

// scenLong: a message of some hundred packets.
func scenLong() {
	randNet()
	snet1()
	netCfg().ReadMode = 0
	w := newMulti()
	w.long = true
	if sos.Cfg.SlowMax > ms {
		sos.Cfg.SlowMax = ms // thousands of file operations for the last packet
	}
	mt := w.addTerm(phoneN(0))
	w.transfer(mt)
	core.SleepFor(5 * sec)
	w.fl.e.sync()
	w.final()
	w.noFds("after all transfers are finished")
}

// scenTwin: two connections of one phone transfer the same message at once.
func scenTwin() {
	randNet()
	w := newMulti()
	w.slow = true
	phone := phoneN(0)
	shared := &mpMsg{phone: phone, typ: 0x0801, tag: 7}
	sum := 1 + core.W(4)
	n := 2 + core.W(2)
	var data [3][][]byte
	for i := 0; i < n; i++ {
		for s := 0; s <= sum; s++ {
			data[i] = append(data[i], content(200))
		}
	}
	for s := 1; s <= sum; s++ {
		var v [][]byte
		for i := 0; i < n; i++ {
			v = append(v, data[i][s])
		}
		*shared.at(s) = v
	}
	done := 0
	for i := 0; i < n; i++ {
		mt := w.addTerm(phone)
		rounds := 1 + core.W(2)
		core.GoIn(core.CurGroup(), mt.t.name, func() {
			for r := 0; r < rounds; r++ {
				var ps []*mpPart
				for s := 1; s <= sum; s++ {
					own := &mpMsg{phone: phone, typ: 0x0801, tag: 7, parts: shared.parts}
					ps = append(ps, w.send(mt, own, s, sum, data[i][s]))
				}
				for _, p := range ps {
					if !core.WaitFor(3600*sec, func() bool { return w.answered(mt, p) }) {
						core.Fail("part %d/%d of a message of %s is not answered within an hour", p.seq, p.sum, mt.t.name)
					}
					if p.result != 0 {
						core.Fail("part %d/%d of a message of %s is refused although nothing is wrong", p.seq, p.sum, mt.t.name)
					}
					if p.seq == p.sum && !core.WaitFor(600*sec, func() bool { return p.got == 1 }) {
						core.Fail("the last part of a message of %s is answered with success and the message is not delivered", mt.t.name)
					}
				}
			}
			done++
			core.Poke()
		})
	}
	core.Count("same message on several connections")
	must(30000*sec, "transfers do not finish within 30000 s", func() bool { return done == n })
	core.SleepFor(5 * sec)
	w.fl.e.sync()
	w.final()
	w.noFds("after all transfers are finished")
}

// scenLeave: a terminal ends its connection as soon as it has sent the last
// packet, and comes back.
func scenLeave() {
	randNet()
	netCfg().RstOnClose = 0
	w := newMulti()
	phone := phoneN(0)
	sum := 1 + core.W(4)
	m := &mpMsg{phone: phone, typ: 0x0801, tag: 7}
	rounds := 1 + core.W(3)
	for r := 0; r < rounds; r++ {
		mt := w.addTerm(phone)
		from := 1
		if r > 0 {
			// some packets are already there
			from += core.W(sum)
		}
		for seq := from; seq <= sum; seq++ {
			if r == 0 && seq > 1 && core.W(4) == 3 {
				// the rest over another connection
				mt.t.close()
				mt = w.addTerm(phone)
			}
			p := w.send(mt, m, seq, sum, content(200))
			if seq < sum {
				if !core.WaitFor(3600*sec, func() bool { return w.answered(mt, p) }) {
					core.Fail("part %d/%d of a message of %s is not answered within an hour", seq, sum, mt.t.name)
				}
				w.settle(mt, p, true)
				continue
			}
			core.Count("terminal leaves after its last packet")
			core.SleepFor(int64(core.W(3)*core.W(200)) * ms)
			mt.t.close()
			if !core.WaitFor(3600*sec, func() bool { return p.got == 1 }) {
				core.Fail("%s sends the last packet of a complete message and ends the connection; the message is not delivered", mt.t.name)
			}
			*m.at(seq) = [][]byte{p.data}
		}
	}
	core.SleepFor(5 * sec)
	w.fl.e.sync()
	w.final()
	w.noFds("after all transfers are finished")
	w.tidy()
}

// diskFaults draws a storage configuration.
func diskFaults() {
	c := &sos.Cfg
	p := []float64{0.05, 0.15, 0.4}[core.W(3)]
	for i := 0; i < 1+core.W(3); i++ {
		switch core.W(10) {
		case 0:
			c.WriteErrP = p
		case 1:
			c.ShortP = p
		case 2:
			c.OpenErrP = p
		case 3:
			c.ReadErrP = p
		case 4:
			c.CloseErrP = p
		case 5:
			c.RenameErrP = p
		case 6:
			c.MkdirErrP = p
		case 7:
			c.ListErrP = p
		case 8:
			c.StatErrP = p
		case 9:
			c.Capacity = int64(100 + core.W(3000))
		}
	}
	if core.W(6) == 5 {
		c.MaxFiles = 1 + core.W(3)
	}
	if core.W(4) == 3 {
		c.RemoveErrP = p
	}
	c.Budget = 1 + core.W(12)
}

func todoList(sum int) (l []int) {
	for i := 1; i <= sum; i++ {
		l = append(l, i)
	}
	return
}

// pickTodo chooses the part to send next: the first, any, or mostly the last.
func pickTodo(l []int, mode int) int {
	switch mode {
	case 1:
		return core.W(len(l))
	case 2:
		if core.W(2) == 1 {
			return len(l) - 1
		}
	}
	return 0
}

func without(l []int, x int) (r []int) {
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return
}

// scenDisk: storage fails for a while; parts are repeated until accepted.
func scenDisk() {
	randNet()
	w := newMulti()
	w.faulty = true
	n := 1 + core.W(3)
	diskFaults()
	// terminals repeat refused parts; when the disk is well again all finish
	done := 0
	healthy := false
	for i := 0; i < n; i++ {
		mt := w.addTerm(phoneN(i))
		rounds := 1 + core.W(3)
		core.GoIn(core.CurGroup(), mt.t.name, func() {
			var m *mpMsg
			sum := 0
			for r := 0; r < rounds; r++ {
				if r == 0 || core.W(2) == 0 {
					m = mt.message()
					sum = 1 + core.W(4)
				}
				room := []int{300, 30, 900, 0}[core.W(4)]
				var data [][]byte
				for s := 0; s <= sum; s++ {
					data = append(data, content(room))
				}
				todo, mode := todoList(sum), core.W(3)
				for len(todo) > 0 {
					before := healthy
					s := todo[pickTodo(todo, mode)]
					p := w.send(mt, m, s, sum, data[s])
					if !core.WaitFor(3600*sec, func() bool { return w.answered(mt, p) }) {
						core.Fail("part %d/%d of a message of %s is not answered within an hour while storage fails", p.seq, p.sum, mt.t.name)
					}
					w.settle(mt, p, before)
					if p.result == 0 {
						todo = without(todo, s)
						continue
					}
					core.Count("probe: part refused")
					core.SleepFor(int64(1+core.W(3000)) * ms)
				}
				core.Count("probe: transfer completed")
			}
			done++
			core.Poke()
		})
	}
	core.SleepFor(int64(5+core.W(30)) * sec)
	core.StopFaults()
	sos.Cfg = sos.Config{}
	healthy = true
	if !core.WaitFor(30000*sec, func() bool { return done == n }) {
		core.Fail("transfers do not complete within 30000 s after storage is well again")
	}
	core.SleepFor(5 * sec)
	w.fl.e.sync()
	w.final()
	w.noFds("after storage failed and all transfers are finished")
	w.tidy()
}

// scenCrash: the server dies at an arbitrary file operation or instant and is
// started again; what it acknowledged is still there.
func scenCrash() {
	randNet()
	w := newMulti()
	w.slow = false
	w.faulty = true
	n := 1 + core.W(2)
	sos.Cfg.Tear = true
	crashes := 1 + core.W(3)
	stopped := false
	up := true
	done := 0
	for i := 0; i < n; i++ {
		mt := w.addTerm(phoneN(i))
		rounds := 1 + core.W(2)
		core.GoIn(core.CurGroup(), mt.t.name, func() {
			var m *mpMsg
			sum := 0
			for r := 0; r < rounds; r++ {
				if r == 0 || core.W(2) == 0 {
					m = mt.message()
					sum = 1 + core.W(4)
				}
				room := []int{300, 30, 900}[core.W(3)]
				var data [][]byte
				for s := 0; s <= sum; s++ {
					data = append(data, content(room))
				}
				todo, mode := todoList(sum), core.W(3)
				for len(todo) > 0 {
					if mt.t.eof {
						if !core.WaitFor(600*sec, func() bool { return up }) {
							core.Fail("the server is not back within 600 s")
						}
						mt.t.conn.Close()
						mt.t.rx = nil
						mt.t.connect()
						core.SleepFor(200 * ms)
						continue
					}
					s := todo[pickTodo(todo, mode)]
					p := w.send(mt, m, s, sum, data[s])
					t := mt.t
					if !core.WaitFor(3600*sec, func() bool { return w.answered(mt, p) || t.eof }) {
						core.Fail("part %d/%d of a message of %s is not answered within an hour", p.seq, p.sum, mt.t.name)
					}
					if p.result < 0 {
						continue // connection lost: send it again
					}
					if p.result != 0 {
						if s == sum && len(todo) > 1 {
							core.Count("probe: last part refused, parts are missing")
							continue
						}
						core.Fail("part %d/%d of a message of %s is refused although all parts before it were acknowledged", p.seq, p.sum, mt.t.name)
					}
					if s == sum {
						for i := 1; i < sum; i++ {
							if absent(p.may[i]) {
								core.Fail("the last part of a message of %s is answered with success although a part was never received", mt.t.name)
							}
						}
					}
					*m.at(s) = [][]byte{data[s]}
					if p.seq == p.sum && !core.WaitFor(600*sec, func() bool { return p.got == 1 || t.eof }) {
						core.Fail("the last part of a message of %s is answered with success and the message is not delivered", mt.t.name)
					}
					todo = without(todo, s)
				}
			}
			done++
			core.Poke()
		})
	}
	for c := 0; c < crashes && done < n; c++ {
		if core.W(3) == 0 {
			core.WaitFor(int64(core.W(5000))*ms, func() bool { return done == n })
		} else {
			sos.Crashed = false
			sos.Cfg.CrashAt = sos.Ops + 1 + core.W(60)
			core.WaitFor(60*sec, func() bool { return sos.Crashed || done == n })
		}
		sos.Cfg.CrashAt = 0
		up = false
		w.fl.e.crash()
		core.SleepFor(int64(core.W(3000)) * ms)
		o := w.opts()
		o.handler = w.fl.handle
		set := o.setup
		o.setup = func(srv *go808.Server) {
			registerOwn()
			set(srv)
		}
		e := startServer(o)
		w.fl.e = e
		for _, mt := range w.ts {
			mt.t.env = e
			mt.t.box = Box{}
		}
		up = true
		core.Poke()
	}
	stopped = true
	_ = stopped
	must(30000*sec, "transfers do not finish within 30000 s of the last crash", func() bool { return done == n })
	core.SleepFor(5 * sec)
	w.fl.e.sync()
	w.noFds("after all transfers are finished")
}

func init() {
	register(&property{id: "C09", level: "exploration", runs: 10000, scen: []scenario{{"multipart", 40, scenMulti}, {"twin", 10, scenTwin}, {"leave", 4, scenLeave}, {"long", 1, scenLong}}})
	register(&property{id: "C10", level: "exploration", runs: 12000, scen: []scenario{{"disk", 1, scenDisk}}})
	register(&property{id: "C11", level: "exploration", runs: 20000, scen: []scenario{{"crash", 1, scenCrash}}})
}
