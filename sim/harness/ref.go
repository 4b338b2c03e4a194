// Reference model of the wire format, written from the JT/T 808 documents and
// independent of the code under test: framing, escaping, checksum, header.
package main

import (
	"crypto/rsa"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math/big"

	"golang.org/x/text/encoding/simplifiedchinese"
)

// rnd is a small deterministic generator; seed 0 always yields 0 (the
// simplest content), which is what minimisation drives towards.
type rnd struct{ s uint64 }

func (r *rnd) u64() uint64 {
	if r.s == 0 {
		return 0
	}
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	if r.s == 0 {
		r.s = 1
	}
	return z
}

func (r *rnd) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rnd) p(num, den int) bool { return r.s != 0 && r.n(den) < num }

// by draws a byte, favouring the ones that matter to the framing.
func (r *rnd) by() byte {
	v := r.u64()
	switch v % 8 {
	case 0:
		return 0x7e
	case 1:
		return 0x7d
	case 2:
		return []byte{0x01, 0x02, 0x00, 0xff, 0x80, 0x7f, 0x30, 0x10}[v>>8%8]
	}
	return byte(v >> 16)
}

func (r *rnd) bytes(n int) []byte {
	b := make([]byte, n)
	mode := r.n(5)
	for i := range b {
		switch mode {
		case 0:
			b[i] = 0x7e
		case 1:
			b[i] = byte(r.u64())
		default:
			b[i] = r.by()
		}
	}
	return b
}

// size draws a length up to max, favouring the ends.
func (r *rnd) size(max int) int {
	if max <= 0 {
		return 0
	}
	switch r.n(6) {
	case 0:
		return 0
	case 1:
		return max
	case 2, 3:
		m := 12
		if m > max {
			m = max
		}
		return r.n(m + 1)
	}
	return r.n(max + 1)
}

// ---------------------------------------------------------------- frames

type hdr struct {
	id     uint16
	phone  uint64
	serial uint16
	packet bool
	sum    uint16
	seq    uint16
	crypt  bool
	bits   uint16 // reserved property bits (11,12,14,15)
}

func bcdPhone(p uint64) [6]byte {
	var b [6]byte
	for i := 5; i >= 0; i-- {
		lo := p % 10
		p /= 10
		hi := p % 10
		p /= 10
		b[i] = byte(hi<<4 | lo)
	}
	return b
}

func escape(dst []byte, raw []byte) []byte {
	for _, c := range raw {
		switch c {
		case 0x7e:
			dst = append(dst, 0x7d, 0x02)
		case 0x7d:
			dst = append(dst, 0x7d, 0x01)
		default:
			dst = append(dst, c)
		}
	}
	return dst
}

func rawHeader(h hdr, bodyLen int) []byte {
	prop := uint16(bodyLen)&0x3ff | h.bits&0xd800
	if h.packet {
		prop |= 1 << 13
	}
	if h.crypt {
		prop |= 1 << 10
	}
	raw := make([]byte, 0, 16)
	raw = binary.BigEndian.AppendUint16(raw, h.id)
	raw = binary.BigEndian.AppendUint16(raw, prop)
	ph := bcdPhone(h.phone)
	raw = append(raw, ph[:]...)
	raw = binary.BigEndian.AppendUint16(raw, h.serial)
	if h.packet {
		raw = binary.BigEndian.AppendUint16(raw, h.sum)
		raw = binary.BigEndian.AppendUint16(raw, h.seq)
	}
	return raw
}

// wrap makes a frame of a raw header+body.
func wrap(raw []byte) []byte {
	var x byte
	for _, c := range raw {
		x ^= c
	}
	out := make([]byte, 0, len(raw)*2+4)
	out = append(out, 0x7e)
	out = escape(out, raw)
	out = escape(out, []byte{x})
	return append(out, 0x7e)
}

func frame(h hdr, body []byte) []byte {
	return wrap(append(rawHeader(h, len(body)), body...))
}

// bareChecksum is a frame whose checksum is the escape byte, not escaped.
func bareChecksum(h hdr, body []byte) []byte {
	for {
		raw := append(rawHeader(h, len(body)), body...)
		var x byte
		for _, c := range raw {
			x ^= c
		}
		if x == 0x7d {
			out := escape([]byte{0x7e}, raw)
			return append(out, 0x7d, 0x7e)
		}
		h.serial ^= uint16(x ^ 0x7d)
	}
}

// parseFrame checks a complete frame (with both flags) strictly.
func parseFrame(f []byte) (h hdr, body []byte, err error) {
	if len(f) < 3 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return h, nil, fmt.Errorf("not delimited by flags: %x", f)
	}
	raw := make([]byte, 0, len(f))
	for i := 1; i < len(f)-1; i++ {
		c := f[i]
		if c == 0x7e {
			return h, nil, fmt.Errorf("flag byte inside a frame: %x", f)
		}
		if c == 0x7d {
			i++
			switch {
			case i < len(f)-1 && f[i] == 1:
				c = 0x7d
			case i < len(f)-1 && f[i] == 2:
				c = 0x7e
			default:
				return h, nil, fmt.Errorf("bad escape in frame: %x", f)
			}
		}
		raw = append(raw, c)
	}
	var x byte
	for _, c := range raw {
		x ^= c
	}
	if x != 0 {
		return h, nil, fmt.Errorf("checksum of frame is wrong: %x", f)
	}
	raw = raw[:len(raw)-1]
	if len(raw) < 12 {
		return h, nil, fmt.Errorf("frame shorter than a header: %x", f)
	}
	prop := binary.BigEndian.Uint16(raw[2:])
	h.id = binary.BigEndian.Uint16(raw)
	h.packet = prop&(1<<13) != 0
	h.crypt = prop&(1<<10) != 0
	h.bits = prop & 0xd800
	for _, c := range raw[4:10] {
		if c>>4 > 9 || c&15 > 9 {
			return h, nil, fmt.Errorf("phone number is not BCD: %x", f)
		}
		h.phone = h.phone*100 + uint64(c>>4)*10 + uint64(c&15)
	}
	h.serial = binary.BigEndian.Uint16(raw[10:])
	body = raw[12:]
	if h.packet {
		if len(body) < 4 {
			return h, nil, fmt.Errorf("packet header cut short: %x", f)
		}
		h.sum, h.seq = binary.BigEndian.Uint16(body), binary.BigEndian.Uint16(body[2:])
		body = body[4:]
	}
	if int(prop&0x3ff) != len(body) {
		return h, nil, fmt.Errorf("header says %d body bytes, frame has %d: %x", prop&0x3ff, len(body), f)
	}
	return h, body, nil
}

// deframer cuts a byte stream written by the server into frames.
type deframer struct{ buf []byte }

func (d *deframer) next() (f []byte, err error) {
	if len(d.buf) == 0 {
		return nil, nil
	}
	if d.buf[0] != 0x7e {
		return nil, fmt.Errorf("bytes between frames: %x", d.buf)
	}
	for i := 1; i < len(d.buf); i++ {
		if d.buf[i] == 0x7e {
			f = append([]byte{}, d.buf[:i+1]...)
			d.buf = d.buf[i+1:]
			return f, nil
		}
	}
	return nil, nil
}

// ---------------------------------------------------------------- text

func gb(s string) []byte {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

// ---------------------------------------------------------------- RSA-OAEP

// makeKey makes a key of fixed primes (test material only).
func makeKey(p, q string) *rsa.PrivateKey {
	a, _ := new(big.Int).SetString(p, 16)
	b, _ := new(big.Int).SetString(q, 16)
	n := new(big.Int).Mul(a, b)
	one := big.NewInt(1)
	phi := new(big.Int).Mul(new(big.Int).Sub(a, one), new(big.Int).Sub(b, one))
	d := new(big.Int).ModInverse(big.NewInt(65537), phi)
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: 65537}, D: d, Primes: []*big.Int{a, b}}
	k.Precompute()
	return k
}

var (
	testKey  = makeKey(keyP, keyQ)
	testKey2 = makeKey(key2P, key2Q)
	bigKeys  = []*rsa.PrivateKey{makeKey(key3P, key3Q), makeKey(key4P, key4Q), makeKey(key5P, key5Q)}
)

// cryptRoom is how long a body may be that is encrypted for a key.
func cryptRoom(pub *rsa.PublicKey) int { return maxBody / pub.Size() * (pub.Size() - 42) }

func mgf(seed []byte, n int) []byte {
	var out []byte
	for i := uint32(0); len(out) < n; i++ {
		h := sha1.New()
		h.Write(seed)
		h.Write(binary.BigEndian.AppendUint32(nil, i))
		out = h.Sum(out)
	}
	return out[:n]
}

// oaep encrypts one chunk, 42 bytes shorter than the key at most.
func oaep(pub *rsa.PublicKey, r *rnd, msg []byte) []byte {
	k, hl := pub.Size(), 20
	em := make([]byte, k)
	seed := em[1 : 1+hl]
	for i := range seed {
		seed[i] = byte(r.u64() >> 7)
	}
	db := em[1+hl:]
	lh := sha1.Sum(nil)
	copy(db, lh[:])
	db[len(db)-len(msg)-1] = 1
	copy(db[len(db)-len(msg):], msg)
	m := mgf(seed, len(db))
	for i := range db {
		db[i] ^= m[i]
	}
	m = mgf(db, hl)
	for i := range seed {
		seed[i] ^= m[i]
	}
	c := new(big.Int).Exp(new(big.Int).SetBytes(em), big.NewInt(int64(pub.E)), pub.N)
	return c.FillBytes(make([]byte, k))
}

// oaepOpen decrypts one chunk as long as the key.
func oaepOpen(priv *rsa.PrivateKey, ct []byte) ([]byte, error) {
	k, hl := priv.Size(), 20
	if len(ct) != k {
		return nil, fmt.Errorf("ciphertext chunk of %d bytes", len(ct))
	}
	em := new(big.Int).Exp(new(big.Int).SetBytes(ct), priv.D, priv.N).FillBytes(make([]byte, k))
	seed, db := em[1:1+hl], em[1+hl:]
	m := mgf(db, hl)
	for i := range seed {
		seed[i] ^= m[i]
	}
	m = mgf(seed, len(db))
	for i := range db {
		db[i] ^= m[i]
	}
	lh := sha1.Sum(nil)
	if em[0] != 0 || string(db[:hl]) != string(lh[:]) {
		return nil, fmt.Errorf("OAEP padding")
	}
	for i := hl; i < len(db); i++ {
		if db[i] == 1 {
			return db[i+1:], nil
		}
		if db[i] != 0 {
			break
		}
	}
	return nil, fmt.Errorf("OAEP padding")
}

func encryptBody(pub *rsa.PublicKey, r *rnd, body []byte) []byte {
	var out []byte
	for len(body) > 0 {
		n := min(pub.Size()-42, len(body))
		out = append(out, oaep(pub, r, body[:n])...)
		body = body[n:]
	}
	return out
}

func decryptBody(priv *rsa.PrivateKey, ct []byte) ([]byte, error) {
	var out []byte
	for len(ct) > 0 {
		n := min(priv.Size(), len(ct))
		p, err := oaepOpen(priv, ct[:n])
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
		ct = ct[n:]
	}
	return out, nil
}
