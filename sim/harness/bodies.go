// Reference model of the message bodies: each generator draws field values
// and writes, side by side, the structure an application must see and the
// bytes a terminal puts on the wire.
package main

import (
	"bytes"
	"compress/gzip"
	"crypto/rsa"
	"encoding/binary"
	"io"
	"math/big"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
)

type bld struct {
	*rnd
	w    []byte
	left int   // bytes the body may still take
	out  bool  // built for sending by the server
	free int   // from here on the body may end anywhere, 0: nowhere
	stop []int // other places where it may end
	bare bool  // leave derivable sign bits out of the structure (server must add them)
}

func (b *bld) put(p ...byte) { b.w = append(b.w, p...); b.left -= len(p) }
func (b *bld) u8() byte      { v := b.by(); b.put(v); return v }
func (b *bld) u16() uint16 {
	v := uint16(b.by())<<8 | uint16(b.by())
	b.w = binary.BigEndian.AppendUint16(b.w, v)
	b.left -= 2
	return v
}
func (b *bld) u32() uint32 {
	v := uint32(b.by())<<24 | uint32(b.by())<<16 | uint32(b.by())<<8 | uint32(b.by())
	b.put32(v)
	return v
}
func (b *bld) put32(v uint32) { b.w = binary.BigEndian.AppendUint32(b.w, v); b.left -= 4 }
func (b *bld) put16(v uint16) { b.w = binary.BigEndian.AppendUint16(b.w, v); b.left -= 2 }

// rest fills the remaining room (or part of it) with raw bytes.
func (b *bld) rest() []byte {
	p := b.bytes(b.size(b.left))
	b.free = len(b.w)
	b.put(p...)
	return p
}

// fixed draws a NUL-padded field of n raw bytes.
func (b *bld) fixed(n int) string {
	p := b.bytes(b.size(n))
	for i := range p {
		if p[i] == 0 {
			p[i] = 'A'
		}
		if b.out || p[i] >= 0x80 {
			p[i] = "0123456789abcXYZ~}"[int(p[i])%18]
		}
	}
	full := make([]byte, n)
	copy(full, p)
	b.put(full...)
	return string(p)
}

var runes = []rune("京A沪B粤测试終端~}车牌鍙嬪0123456789€ß")

// text draws a string whose encoding takes at most max bytes.
func (b *bld) text(max int, min1 bool) string {
	max = min(max, b.left)
	want := b.size(max)
	var s []rune
	n := 0
	for n < want || (min1 && n == 0) {
		r := runes[b.n(len(runes))]
		l := len(gb(string(r)))
		if n+l > max {
			if min1 && n == 0 {
				r, l = '1', 1
			} else {
				break
			}
		}
		s = append(s, r)
		n += l
	}
	return string(s)
}

// str8 writes a string with a one-byte length, str16 with a two-byte one.
func (b *bld) str8(max int) string {
	s := b.text(min(max, b.left-1), false)
	e := gb(s)
	b.put(byte(len(e)))
	b.put(e...)
	return s
}
func (b *bld) str16(max int) string {
	s := b.text(min(max, b.left-2), false)
	e := gb(s)
	b.put16(uint16(len(e)))
	b.put(e...)
	return s
}
func (b *bld) strRest(min1 bool) string {
	s := b.text(b.left, min1)
	b.free = len(b.w)
	if min1 {
		b.free++
	}
	b.put(gb(s)...)
	return s
}

func bcd2(n int) byte { return byte(n/10<<4 | n%10) }

func (b *bld) time() time.Time {
	y := []int{2020, 2000, 2009, 2010, 2099, 2024}[b.n(6)]
	if b.p(1, 2) {
		y = 2000 + b.n(100)
	}
	mo, d := 1+b.n(12), 1+b.n(28)
	h, mi, s := b.n(24), b.n(60), b.n(60)
	if b.p(1, 8) {
		h, mi, s = 0, 0, 0
	}
	b.put(bcd2(y-2000), bcd2(mo), bcd2(d), bcd2(h), bcd2(mi), bcd2(s))
	return time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local)
}

// geo draws a coordinate in millionths of a degree.
func (b *bld) geo(max uint32) uint32 {
	switch b.n(6) {
	case 0:
		return 0
	case 1:
		return max * 1000000
	case 2:
		return uint32(b.n(200))
	}
	return uint32(b.n(int(max)*1000000 + 1))
}

func deg(v uint32, neg bool) decimal.Decimal {
	d := decimal.New(int64(v), -6)
	if neg {
		d = d.Neg()
	}
	return d
}

func (b *bld) ids(countBytes int) []uint32 {
	n := b.size(min(255, (b.left-countBytes)/4))
	if countBytes == 1 {
		b.put(byte(n))
	} else {
		b.put16(uint16(n))
	}
	var l []uint32
	for i := 0; i < n; i++ {
		l = append(l, b.u32())
	}
	return l
}

// location writes a position report; extras only if room > 0.
func (b *bld) location(room int) protocol.T808_0x0200 {
	var e protocol.T808_0x0200
	e.Alarm = b.u32()
	st := uint32(b.by())<<24 | uint32(b.by())<<8 | uint32(b.by())
	lat, lng := b.geo(90), b.geo(180)
	b.put32(st)
	b.put32(lat)
	b.put32(lng)
	south, west := st&4 != 0, st&8 != 0
	e.Lat, e.Lng = deg(lat, south), deg(lng, west)
	if b.bare {
		if lat != 0 {
			st &^= 4
		}
		if lng != 0 {
			st &^= 8
		}
	}
	e.Status = protocol.T808_0x0200_Status(st)
	e.Altitude, e.Speed, e.Direction = b.u16(), b.u16(), b.u16()
	e.Time = b.time()
	room -= 28
	b.free = len(b.w)
	for room >= 8 && b.p(3, 4) {
		before := len(b.w)
		if x := b.extra(room); x != nil {
			e.Extras = append(e.Extras, x)
		}
		room -= len(b.w) - before
	}
	return e
}

func (b *bld) extra(room int) extra.Entity {
	ext := func(id byte, n int) { b.put(id, byte(n)) }
	switch b.n(14) {
	case 0:
		ext(0x01, 4)
		return extra.NewExtra_0x01(b.u32())
	case 1:
		ext(0x02, 2)
		return extra.NewExtra_0x02(b.u16())
	case 2:
		ext(0x03, 2)
		return extra.NewExtra_0x03(b.u16())
	case 3:
		ext(0x04, 2)
		return extra.NewExtra_0x04(b.u16())
	case 4:
		if b.p(1, 2) {
			ext(0x11, 1)
			b.put(0)
			return extra.NewExtra_0x11(extra.Extra_0x11_Value{})
		}
		ext(0x11, 5)
		t := b.by() | 1
		b.put(t)
		id := b.u32()
		return extra.NewExtra_0x11(extra.Extra_0x11_Value{Type: t, AreaID: &id})
	case 5:
		ext(0x12, 6)
		return extra.NewExtra_0x12(extra.Extra_0x12_Value{Type: b.u8(), AreaID: b.u32(), Direction: b.u8()})
	case 6:
		if room < 9 {
			ext(0x31, 1)
			return extra.NewExtra_0x31(b.u8())
		}
		ext(0x13, 7)
		return extra.NewExtra_0x13(extra.Extra_0x13_Value{RoadID: b.u32(), Duration: b.u16(), Result: b.u8()})
	case 7:
		ext(0x25, 4)
		return extra.NewExtra_0x25(b.u32())
	case 8:
		ext(0x2a, 2)
		return extra.NewExtra_0x2A(b.u16())
	case 9:
		ext(0x2b, 4)
		return extra.NewExtra_0x2B(b.u32())
	case 10:
		ext(0x30, 1)
		return extra.NewExtra_0x30(b.u8())
	case 11:
		ext(0x31, 1)
		return extra.NewExtra_0x31(b.u8())
	}
	if b.out {
		ext(0x30, 1)
		return extra.NewExtra_0x30(b.u8())
	}
	// an extension the server does not know: to be skipped
	n := b.n(min(room-2, 250) + 1)
	ext([]byte{0x05, 0x14, 0xe1, 0xff, 0x7e, 0x7d}[b.n(6)], n)
	b.put(b.bytes(n)...)
	return nil
}

func (b *bld) params() []*protocol.Param {
	at := len(b.w)
	b.put(0)
	var l []*protocol.Param
	for len(l) < 255 && b.left >= 5+4 && b.p(3, 4) {
		id := b.u32()
		p := new(protocol.Param)
		switch b.n(6) {
		case 0:
			b.put(1)
			p.SetByte(id, b.u8())
		case 1:
			b.put(2)
			p.SetUint16(id, b.u16())
		case 2:
			b.put(4)
			p.SetUint32(id, b.u32())
		case 3:
			s := b.str8(min(200, b.left-1))
			p.SetString(id, s)
		default:
			v := b.bytes(b.size(min(255, b.left-1)))
			b.put(byte(len(v)))
			b.put(v...)
			p.SetBytes(id, v)
		}
		l = append(l, p)
	}
	b.w[at] = byte(len(l))
	return l
}

func (b *bld) key() *rsa.PublicKey {
	e := 3 + b.n(1<<30)
	n := make([]byte, 128)
	for i := range n {
		n[i] = b.by()
	}
	n[0] |= 0x80
	b.put32(uint32(e))
	b.put(n...)
	return &rsa.PublicKey{E: e, N: new(big.Int).SetBytes(n)}
}

// areaAttr draws an area attribute; the caller adds the sign bits.
func (b *bld) attr() uint16 { return uint16(b.by())<<8 | uint16(b.by()) }

func (b *bld) limits(e *protocol.CircleArea) {
	e.StartTime, e.EndTime, e.MaxSpeed, e.Duration = b.time(), b.time(), b.u16(), b.u8()
}

func (b *bld) bareAttr(a uint16, lats, lngs bool) protocol.AreaAttribute {
	if b.bare {
		if lats {
			a &^= 1 << 6
		}
		if lngs {
			a &^= 1 << 7
		}
	}
	return protocol.AreaAttribute(a)
}

type gen func(b *bld) protocol.Entity

type typeGen struct {
	id  uint16
	gen gen
}

// bareSection is bareAttr for the sections of a route.
func (b *bld) bareSection(a byte, lat, lng bool) byte {
	if !b.bare {
		return a
	}
	a &^= 3
	if lat {
		a &^= 4
	}
	if lng {
		a &^= 8
	}
	return a
}

func pu16(v uint16) *uint16 { return &v }
func pu8(v byte) *byte      { return &v }

var upTypes = []typeGen{
	{0x0002, func(b *bld) protocol.Entity { return &protocol.T808_0x0002{} }},
	{0x0003, func(b *bld) protocol.Entity { return &protocol.T808_0x0003{} }},
	{0x0200, func(b *bld) protocol.Entity { e := b.location(b.left); return &e }},
	{0x0100, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0100{ProvinceID: b.u16(), CityID: b.u16(), ManufactureID: b.fixed(5), Model: b.fixed(20), TerminalID: b.fixed(7), PlateColor: b.u8()}
		e.LicenseNo = b.strRest(false)
		return e
	}},
	{0x0102, func(b *bld) protocol.Entity { return &protocol.T808_0x0102{AuthKey: b.strRest(true)} }},
	{0x0001, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0001{ReplyMsgSerialNo: b.u16(), ReplyMsgID: b.u16(), Result: protocol.Result(b.u8())}
	}},
	{0x0104, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0104{ReplyMsgSerialNo: b.u16(), Params: b.params()}
	}},
	{0x0107, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0107{TerminalType: b.u16(), ManufactureID: b.fixed(5), Model: b.fixed(20), TerminalID: b.fixed(7)}
		var sim [10]byte
		digits := make([]byte, 20)
		n := b.size(20)
		for i := range digits {
			digits[i] = '0'
			if i >= 20-n {
				digits[i] = '0' + byte(b.n(10))
			}
			sim[i/2] = sim[i/2]<<4 | (digits[i] - '0')
		}
		e.Sim = string(bytes.TrimLeft(digits, "0"))
		b.put(sim[:]...)
		ver := func() string {
			s := b.bytes(b.size(min(255, (b.left-4)/2)))
			for i := range s {
				s[i] = "v1.02-beta~}"[int(s[i])%12]
			}
			b.put(byte(len(s)))
			b.put(s...)
			return string(s)
		}
		e.HardwareVersion, e.SoftwareVersion = ver(), ver()
		e.GNSSProperty, e.COMMProperty = b.u8(), b.u8()
		return e
	}},
	{0x0108, func(b *bld) protocol.Entity { return &protocol.T808_0x0108{Type: b.u8(), Result: b.u8()} }},
	{0x0201, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0201{ReplyMsgSerialNo: b.u16(), Result: b.location(b.left - 2)}
	}},
	{0x0301, func(b *bld) protocol.Entity { return &protocol.T808_0x0301{EventID: b.u8()} }},
	{0x0302, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0302{ReplyMsgSerialNo: b.u16(), AnswerID: b.u8()}
	}},
	{0x0303, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0303{Type: b.u8(), Flag: protocol.T808_0x0303_Flag(b.u8())}
	}},
	{0x0500, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0500{ReplyMsgSerialNo: b.u16(), Result: b.location(b.left - 2)}
	}},
	{0x0700, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0700{ReplyMsgSerialNo: b.u16(), Cmd: b.u8(), Data: b.rest()}
	}},
	{0x0701, func(b *bld) protocol.Entity { return &protocol.T808_0x0701{Size: b.u32(), Content: b.rest()} }},
	{0x0702, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0702{State: b.u8(), Time: b.time(), ICCardResult: b.u8(), DriverName: b.str8(60)}
		e.Number = b.text(20, false)
		num := make([]byte, 20)
		copy(num, gb(e.Number))
		b.put(num...)
		e.CompanyName = b.str8(100)
		y, mo, d := 2000+b.n(100), 1+b.n(12), 1+b.n(28)
		b.put(0x20, bcd2(y-2000), bcd2(mo), bcd2(d))
		e.ExpiryDate = time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.Local)
		return e
	}},
	{0x0704, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0704{}
		at := len(b.w)
		b.put16(0)
		e.Type = b.u8()
		for b.left >= 30 && (len(e.Items) == 0 && b.p(7, 8) || b.p(3, 4)) {
			p := len(b.w)
			b.put16(0)
			e.Items = append(e.Items, b.location(min(b.left, 28+b.n(60))))
			binary.BigEndian.PutUint16(b.w[p:], uint16(len(b.w)-p-2))
		}
		binary.BigEndian.PutUint16(b.w[at:], uint16(len(e.Items)))
		b.free = 0
		return e
	}},
	{0x0705, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0705{}
		n := b.size(min(60, (b.left-7)/12))
		b.put16(uint16(n))
		h, m, s, ms := b.n(24), b.n(60), b.n(60), b.n(1000)
		b.put(bcd2(h), bcd2(m), bcd2(s), bcd2(ms/100), bcd2(ms%100))
		e.ReceiveTime = time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(s)*time.Second + time.Duration(ms)*time.Millisecond
		for i := 0; i < n; i++ {
			var c protocol.T808_0x0705_CAN
			copy(c.ID[:], b.bytes(4))
			copy(c.Data[:], b.bytes(8))
			b.put(c.ID[:]...)
			b.put(c.Data[:]...)
			e.Items = append(e.Items, c)
		}
		return e
	}},
	{0x0800, func(b *bld) protocol.Entity {
		return &protocol.T808_0x0800{MediaID: b.u32(), Type: protocol.T808_0x0800_MediaType(b.u8()), Coding: protocol.T808_0x0800_MediaCoding(b.u8()), Event: b.u8(), ChannelID: b.u8()}
	}},
	{0x0801, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0801{MediaID: b.u32(), Type: protocol.T808_0x0800_MediaType(b.u8()), Coding: protocol.T808_0x0800_MediaCoding(b.u8()), Event: b.u8(), ChannelID: b.u8()}
		e.Location = b.location(0)
		e.Packet = bytes.NewReader(b.rest())
		return e
	}},
	{0x0802, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0802{ReplyMsgSerialNo: b.u16()}
		n := b.size(min(20, (b.left-2)/35))
		b.put16(uint16(n))
		for i := 0; i < n; i++ {
			e.Items = append(e.Items, protocol.T808_0x0802_Item{MediaID: b.u32(), Type: protocol.T808_0x0800_MediaType(b.u8()), ChannelID: b.u8(), Event: b.u8(), Location: b.location(0)})
		}
		b.free = 0
		return e
	}},
	{0x0805, func(b *bld) protocol.Entity {
		b.stop = append(b.stop, 3) // a refusal may come without the list
		return &protocol.T808_0x0805{ReplyMsgSerialNo: b.u16(), Result: protocol.T808_0x0805_Result(b.u8()), MediaIDs: b.ids(2)}
	}},
	{0x0900, func(b *bld) protocol.Entity { return &protocol.T808_0x0900{Type: b.u8(), Data: b.rest()} }},
	{0x0901, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x0901{}
		n := b.size(400)
		if b.p(1, 4) {
			n = b.n(5000)
			e.Uncompressed = bytes.Repeat([]byte{b.by()}, n)
		} else {
			e.Uncompressed = b.bytes(n)
		}
		var z bytes.Buffer
		g := gzip.NewWriter(&z)
		g.Write(e.Uncompressed)
		g.Close()
		b.put32(uint32(z.Len()))
		b.put(z.Bytes()...)
		return e
	}},
	{0x0a00, func(b *bld) protocol.Entity { return &protocol.T808_0x0A00{PublicKey: b.key()} }},
}

var downTypes = []typeGen{
	{0x8104, func(b *bld) protocol.Entity { return &protocol.T808_0x8104{} }},
	{0x8107, func(b *bld) protocol.Entity { return &protocol.T808_0x8107{} }},
	{0x8201, func(b *bld) protocol.Entity { return &protocol.T808_0x8201{} }},
	{0x8702, func(b *bld) protocol.Entity { return &protocol.T808_0x8702{} }},
	{0x8001, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8001{ReplyMsgSerialNo: b.u16(), ReplyMsgID: protocol.MsgID(b.u16()), Result: protocol.Result(b.u8())}
	}},
	{0x8003, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8003{MsgSerialNo: b.u16()}
		n := b.size(min(255, (b.left-1)/2))
		b.put(byte(n))
		for i := 0; i < n; i++ {
			e.PacketIDs = append(e.PacketIDs, b.u16())
		}
		return e
	}},
	{0x8100, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8100{MsgSerialNo: b.u16(), Result: protocol.T808_0x8100_Result(b.u8()), AuthKey: b.strRest(false)}
	}},
	{0x8103, func(b *bld) protocol.Entity { return &protocol.T808_0x8103{Params: b.params()} }},
	{0x8105, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8105{Cmd: protocol.T808_0x8105_Command(b.u8()), Data: b.strRest(false)}
	}},
	{0x8106, func(b *bld) protocol.Entity { return &protocol.T808_0x8106{Params: b.ids(1)} }},
	{0x8108, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8108{Type: b.u8(), ManufactureID: b.fixed(5), Version: b.str8(200), Size: b.u32(), Data: b.rest()}
	}},
	{0x8202, func(b *bld) protocol.Entity { return &protocol.T808_0x8202{Interval: b.u16(), Expire: b.u32()} }},
	{0x8203, func(b *bld) protocol.Entity { return &protocol.T808_0x8203{MsgSerialNo: b.u16(), Type: b.u32()} }},
	{0x8300, func(b *bld) protocol.Entity { return &protocol.T808_0x8300{Flag: b.u8(), Text: b.strRest(false)} }},
	{0x8301, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8301{Type: b.u8()}
		at := len(b.w)
		b.put(0)
		for len(e.Events) < 255 && b.left > 4 && b.p(3, 4) {
			e.Events = append(e.Events, protocol.T808_0x8301_Event{ID: b.u8(), Content: b.str8(60)})
		}
		b.w[at] = byte(len(e.Events))
		return e
	}},
	{0x8302, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8302{Flag: b.u8(), Question: b.str8(200)}
		b.stop = append(b.stop, len(b.w))
		for b.left > 4 && b.p(3, 4) {
			e.CandidateAnswers = append(e.CandidateAnswers, protocol.T808_0x8302_Answer{ID: b.u8(), Content: b.str8(60)})
			b.stop = append(b.stop, len(b.w))
		}
		return e
	}},
	{0x8303, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8303{Type: protocol.T808_0x8303_Type(b.u8())}
		at := len(b.w)
		b.put(0)
		for len(e.Items) < 255 && b.left > 6 && b.p(3, 4) {
			e.Items = append(e.Items, protocol.T808_0x8303_Item{Name: b.str16(300)})
		}
		b.w[at] = byte(len(e.Items))
		return e
	}},
	{0x8304, func(b *bld) protocol.Entity { return &protocol.T808_0x8304{Type: b.u8(), Content: b.str16(1000)} }},
	{0x8400, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8400{Flag: protocol.T808_0x8400_Flag(b.u8()), Number: b.strRest(false)}
	}},
	{0x8401, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8401{Type: protocol.T808_0x8401_Type(b.u8())}
		at := len(b.w)
		b.put(0)
		for len(e.Contacts) < 255 && b.left > 80 && b.p(3, 4) {
			e.Contacts = append(e.Contacts, protocol.T808_0x8401_Contact{Flag: protocol.T808_0x8401_ContactFlag(b.u8()), Number: b.str8(20), Contact: b.str8(40)})
		}
		b.w[at] = byte(len(e.Contacts))
		return e
	}},
	{0x8500, func(b *bld) protocol.Entity { return &protocol.T808_0x8500{Flag: protocol.T808_0x8500_Flag(b.u8())} }},
	{0x8600, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8600{Action: protocol.AreaAction(b.u8())}
		at := len(b.w)
		b.put(0)
		for b.left >= 40 && (len(e.Items) == 0 && b.p(7, 8) || b.p(2, 3)) {
			var a protocol.CircleArea
			a.ID = b.u32()
			at, lat, lng := b.attr(), b.geo(90), b.geo(180)
			b.put16(at)
			b.put32(lat)
			b.put32(lng)
			a.Lat, a.Lng = deg(lat, at&(1<<6) != 0), deg(lng, at&(1<<7) != 0)
			a.Attribute = b.bareAttr(at, lat != 0, lng != 0)
			a.Radius = b.u32()
			if at&1 != 0 {
				b.limits(&a)
			}
			e.Items = append(e.Items, a)
		}
		b.w[at] = byte(len(e.Items))
		return e
	}},
	{0x8601, func(b *bld) protocol.Entity { return &protocol.T808_0x8601{IDs: b.ids(1)} }},
	{0x8602, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8602{Action: protocol.AreaAction(b.u8())}
		at := len(b.w)
		b.put(0)
		for b.left >= 45 && (len(e.Items) == 0 && b.p(7, 8) || b.p(2, 3)) {
			var a protocol.RectArea
			a.ID = b.u32()
			at := b.attr()
			lat1, lng1, lat2, lng2 := b.geo(90), b.geo(180), b.geo(90), b.geo(180)
			b.put16(at)
			b.put32(lat1)
			b.put32(lng1)
			b.put32(lat2)
			b.put32(lng2)
			s, w := at&(1<<6) != 0, at&(1<<7) != 0
			a.LeftTopLat, a.LeftTopLon, a.RightBottomLat, a.RightBottomLon = deg(lat1, s), deg(lng1, w), deg(lat2, s), deg(lng2, w)
			a.Attribute = b.bareAttr(at, lat1 != 0 || lat2 != 0, lng1 != 0 || lng2 != 0)
			if at&1 != 0 {
				var c protocol.CircleArea
				b.limits(&c)
				a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = c.StartTime, c.EndTime, c.MaxSpeed, c.Duration
			}
			e.Items = append(e.Items, a)
		}
		b.w[at] = byte(len(e.Items))
		return e
	}},
	{0x8603, func(b *bld) protocol.Entity { return &protocol.T808_0x8603{IDs: b.ids(1)} }},
	{0x8604, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8604{ID: b.u32()}
		at := b.attr()
		b.put16(at)
		if at&1 != 0 {
			var c protocol.CircleArea
			b.limits(&c)
			e.StartTime, e.EndTime, e.MaxSpeed, e.Duration = c.StartTime, c.EndTime, c.MaxSpeed, c.Duration
		}
		n := b.size(min(100, (b.left-2)/8))
		b.put16(uint16(n))
		s, w := at&(1<<6) != 0, at&(1<<7) != 0
		lats, lngs := false, false
		for i := 0; i < n; i++ {
			lat, lng := b.geo(90), b.geo(180)
			b.put32(lat)
			b.put32(lng)
			lats, lngs = lats || lat != 0, lngs || lng != 0
			e.Vertexes = append(e.Vertexes, protocol.Vertex{Lat: deg(lat, s), Lng: deg(lng, w)})
		}
		e.Attribute = b.bareAttr(at, lats, lngs)
		return e
	}},
	{0x8605, func(b *bld) protocol.Entity { return &protocol.T808_0x8605{IDs: b.ids(1)} }},
	{0x8606, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8606{ID: b.u32(), Attribute: b.u16(), StartTime: b.time(), EndTime: b.time()}
		at := len(b.w)
		b.put16(0)
		for b.left >= 26 && b.p(3, 4) {
			var p protocol.T808_0x8606_Point
			p.ID, p.SectionID = b.u32(), b.u32()
			lat, lng := b.geo(90), b.geo(180)
			b.put32(lat)
			b.put32(lng)
			p.Width = b.u8()
			a := b.u8()
			p.Lat, p.Lng = deg(lat, a&4 != 0), deg(lng, a&8 != 0)
			p.Attribute = protocol.T808_0x8606_SectionAttribute(b.bareSection(a, lat != 0, lng != 0))
			if a&1 != 0 {
				p.TimeTooLong, p.TimeTooShort = pu16(b.u16()), pu16(b.u16())
			}
			if a&2 != 0 {
				p.MaxSpeed, p.OverSpeedDuration = pu16(b.u16()), pu8(b.u8())
			}
			e.Points = append(e.Points, p)
		}
		binary.BigEndian.PutUint16(b.w[at:], uint16(len(e.Points)))
		return e
	}},
	{0x8607, func(b *bld) protocol.Entity { return &protocol.T808_0x8607{IDs: b.ids(1)} }},
	{0x8700, func(b *bld) protocol.Entity { return &protocol.T808_0x8700{Cmd: b.u8(), Data: b.rest()} }},
	{0x8701, func(b *bld) protocol.Entity { return &protocol.T808_0x8701{Cmd: b.u8(), Data: b.rest()} }},
	{0x8800, func(b *bld) protocol.Entity {
		e := &protocol.T808_0x8800{MediaID: b.u32()}
		b.stop = append(b.stop, len(b.w))
		if n := b.size(min(255, (b.left-1)/2)); n > 0 {
			b.put(byte(n))
			for i := 0; i < n; i++ {
				e.RetryIDs = append(e.RetryIDs, b.u16())
			}
		}
		return e
	}},
	{0x8801, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8801{ChannelID: b.u8(), Cmd: b.u16(), Duration: b.u16(), Save: protocol.T808_0x8801_SaveFlag(b.u8()), Resolution: protocol.T808_0x8801_Resolution(b.u8()),
			Quality: b.u8(), Lighting: b.u8(), Contrast: b.u8(), Saturability: b.u8(), Chroma: b.u8()}
	}},
	{0x8802, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8802{Type: protocol.T808_0x0800_MediaType(b.u8()), ChannelID: b.u8(), Event: b.u8(), StartTime: b.time(), EndTime: b.time()}
	}},
	{0x8803, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8803{Type: protocol.T808_0x0800_MediaType(b.u8()), ChannelID: b.u8(), Event: b.u8(), StartTime: b.time(), EndTime: b.time(), RemoveFlag: b.u8()}
	}},
	{0x8804, func(b *bld) protocol.Entity {
		return &protocol.T808_0x8804{Cmd: b.u8(), Duration: b.u16(), Save: protocol.T808_0x8801_SaveFlag(b.u8()), AudioSampleRate: protocol.T808_0x8804_AudioSampleRate(b.u8())}
	}},
	{0x8805, func(b *bld) protocol.Entity { return &protocol.T808_0x8805{MediaID: b.u32(), RemoveFlag: b.u8()} }},
	{0x8900, func(b *bld) protocol.Entity { return &protocol.T808_0x8900{Type: b.u8(), Data: b.rest()} }},
	{0x8a00, func(b *bld) protocol.Entity { return &protocol.T808_0x8A00{PublicKey: b.key()} }},
}

var allTypes = append(append([]typeGen{}, upTypes...), downTypes...)

func typeByID(id uint16) *typeGen {
	for i := range allTypes {
		if allTypes[i].id == id {
			return &allTypes[i]
		}
	}
	return nil
}

// answerTypes are the message types that carry the serial of the message they
// answer in their first two bytes and may complete a request.
var answerTypes = []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805}

func isAnswer(id uint16) bool {
	for _, x := range answerTypes {
		if x == id {
			return true
		}
	}
	return false
}

const maxBody = 1023

// body draws a body of the given type taking at most room bytes.
func makeBody(t *typeGen, seed uint32, room int, out, bare bool) (protocol.Entity, []byte) {
	e, b := build(t, seed, room, out, bare)
	return e, b.w
}

// incomplete tells whether the first n bytes of the body, but not all of it,
// lack something the type requires or the bytes before announce.
func (b *bld) incomplete(n int) bool {
	for _, x := range b.stop {
		if x == n {
			return false
		}
	}
	return n < len(b.w) && (b.free == 0 || n < b.free)
}

func build(t *typeGen, seed uint32, room int, out, bare bool) (protocol.Entity, *bld) {
	r := rnd{uint64(seed)}
	for try := 0; ; try++ {
		b := &bld{rnd: &r, left: room, out: out, bare: bare}
		e := t.gen(b)
		if len(b.w) <= room {
			return e, b
		}
		if try > 20 {
			r.s = 0
		}
		if try > 22 {
			room = maxBody // a type with a large fixed part
		}
	}
}

func readAll(r io.Reader) []byte {
	if r == nil {
		return nil
	}
	b, _ := io.ReadAll(r)
	return b
}
