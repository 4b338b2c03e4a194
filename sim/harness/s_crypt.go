// Encrypted messages.
package main

import (
	"crypto/rsa"
	"math/big"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// otherKey is a public key whose private half nobody has.
func otherKey(pub *rsa.PublicKey) *rsa.PublicKey {
	n := new(big.Int).Set(pub.N)
	return &rsa.PublicKey{N: n.Sub(n, big.NewInt(2)), E: 65537}
}

func scenCrypt() {
	randNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	if core.WP(0.2) {
		core.EnableStalls(0.01, 6, 3*sec)
	}
	haveKey := core.W(8) != 7
	setKeys := core.WP(0.4)
	priv := testKey
	if core.W(3) == 2 {
		priv = testKey2 // a platform key has 1024 bits
	}
	o := priv
	if !haveKey {
		o = nil
	}
	var in *inbound
	in = newInbound(srvOpt{keepalive: 3600, priv: o, types: typeIDs(), setup: func(*go808.Server) {
		registerOwn()
	}})
	in.replies = 20
	pub := &priv.PublicKey
	if setKeys {
		// the application learns terminals' keys while traffic flows
		in.check = func(it *inTerm, m *inMsg, s *go808.Session, msg *protocol.Message) {
			k := &rsa.PublicKey{N: pub.N, E: 3 + 2*it.idx}
			s.SetPublicKey(k)
			if g := s.GetPublicKey(); g != k {
				core.Fail("the public key set for %s is not the one its session returns", it.t.name)
			}
		}
	}
	n := 1 + core.W(3)
	done := 0
	type plan struct {
		it   *inTerm
		kind string
	}
	var plans []*plan
	for i := 0; i < n; i++ {
		it := in.addTerm()
		pl := &plan{it: it}
		plans = append(plans, pl)
		k := 1 + core.W(5)
		dead := false
		for j := 0; j < k; j++ {
			m := it.draw(false, true)
			if dead {
				m.expect = 0
				continue
			}
			if core.W(2) == 0 || len(m.body) > cryptRoom(pub) {
				continue
			}
			r := rnd{uint64(core.WBits())}
			h := m.h
			h.crypt = true
			ct := encryptBody(pub, &r, m.body)
			core.Count("encrypted message")
			bad := ""
			if !haveKey {
				bad = "encrypted without a key"
			} else if len(ct) > 0 && core.W(4) == 3 {
				switch core.W(4) {
				case 0:
					ct[core.W(len(ct))] ^= byte(1 << core.W(8))
					bad = "ciphertext damaged"
				case 1:
					ct = ct[:len(ct)-1-core.W(min(pub.Size()-1, len(ct)-1))]
					bad = "ciphertext cut short"
				case 2:
					if len(ct)+1 <= maxBody {
						ct = append(ct, byte(core.W(256)))
						bad = "ciphertext too long"
					}
				case 3:
					ct = encryptBody(otherKey(pub), &r, m.body)
					bad = "encrypted for someone else"
				}
			}
			plain := m.body
			m.setWire(h, ct)
			m.body = plain
			if bad != "" {
				core.Count("hostile: " + bad)
				pl.kind = bad
				m.expect = 0
				dead = true
			}
		}
		core.GoIn(core.CurGroup(), it.t.name, func() {
			if !it.send() && pl.kind == "" {
				core.Fail("the server breaks the connection of %s while it sends well-formed messages", it.t.name)
			}
			done++
			core.Poke()
		})
	}
	must(600*sec, "a terminal cannot send its messages within 600 s", func() bool { return done == n })
	core.StopFaults()
	for _, pl := range plans {
		it := pl.it
		if !core.WaitFor(60*sec, it.allGot) {
			k := it.missing()
			core.Fail("message %d of %s (type %04x, encrypted: %v) is never delivered", k, it.t.name, it.msgs[k].h.id, it.msgs[k].h.crypt)
		}
		if pl.kind != "" {
			if !core.WaitFor(15*sec, func() bool { return it.t.eof }) {
				core.Fail("%s sends a message that cannot be decrypted (%s) and its connection stays open", it.t.name, pl.kind)
			}
		} else if it.t.eof {
			core.Fail("the server closes the connection of %s although everything it sent can be decrypted", it.t.name)
		}
		for _, f := range it.t.rx {
			if f.h.crypt {
				core.Fail("%s receives a message marked as encrypted although none was sent encrypted", it.t.name)
			}
		}
		core.State(uint64(len(it.msgs)))
	}
	core.SleepFor(2 * sec)
	in.recheck()
}

func init() {
	register(&property{id: "C16", level: "exploration", runs: 16000, scen: []scenario{{"encrypted", 1, scenCrypt}}})
}
