// The countdown timer on its own, against a reference model.
package main

import (
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
)

type tmOp struct {
	at, end int64
	update  bool
	g, n    int // goroutine and its operation number
	fired   bool
}

type tmKey struct {
	name  string
	ops   []*tmOp
	fires []int64
}

type tmSet struct {
	at, end int64 // end 0: in progress
	d       int64
}

type tmModel struct {
	keys    []*tmKey
	sets    []*tmSet
	busy    int   // callbacks and calls in progress
	slowEnd int64 // the last time one ended that took long
}

// took notes that a callback or call that began at t ends.
func (m *tmModel) took(t int64) {
	m.busy--
	if core.Now() > t {
		m.slowEnd = core.Now()
	}
}

// dur gives the durations an update may use: those set before it ends and not
// certainly replaced before it begins.
func (m *tmModel) dur(o *tmOp) (lo, hi int64) {
	lo, hi = 1<<40, 0
	for _, s := range m.sets {
		if o.end != 0 && s.at > o.end {
			continue
		}
		old := false
		for _, r := range m.sets {
			old = old || s.end != 0 && r.at > s.end && r.end != 0 && r.end < o.at
		}
		if !old {
			lo, hi = min(lo, s.d), max(hi, s.d)
		}
	}
	return
}

// after: o certainly comes after u.
func (o *tmOp) after(u *tmOp) bool {
	return u.end != 0 && o.at > u.end || o.g == u.g && o.n > u.n
}

// fire judges a callback at the current time: it must be that of an update
// whose time is up and that no later call replaced before it was.
func (m *tmModel) fire(k *tmKey) {
	now := core.Now()
	core.Note("timer", "callback of %s", k.name)
	var last, best *tmOp
	early, gone, twice := false, false, false
	for _, u := range k.ops {
		if last == nil || !last.after(u) {
			last = u
		}
		if !u.update {
			continue
		}
		lo, _ := m.dur(u)
		due := u.at + lo*sec - sec
		if now < due {
			early = true
			continue
		}
		until := now
		if m.slowEnd >= due {
			until = due // its callback may have had to wait for a slow one
		}
		dead := false
		for _, o := range k.ops {
			dead = dead || o != u && o.after(u) && o.end != 0 && o.end < until
		}
		if dead {
			gone = true
			continue
		}
		if u.fired {
			twice = true
			continue
		}
		// of several, the one that can be replaced first
		if best == nil || u.end != 0 && (best.end == 0 || u.end < best.end) {
			best = u
		}
	}
	if best != nil {
		best.fired = true
		k.fires = append(k.fires, now)
		return
	}
	switch {
	case last == nil:
		core.Fail("a countdown of %s expires that was never started", k.name)
	case twice:
		core.Fail("the countdown of %s expires twice after one update", k.name)
	case early:
		lo, _ := m.dur(last)
		core.Fail("the countdown of %s expires %.3f s after its last update; it is set to %d s", k.name, float64(now-last.at)/1e9, lo)
	case gone:
		core.Fail("the countdown of %s expires %.3f s after it was removed or expired", k.name, float64(now-last.at)/1e9)
	}
}

func scenTimer() {
	m := &tmModel{slowEnd: -1}
	g := core.NewGroup("timer")
	nk := 1 + core.W(6)
	if core.W(4) == 3 {
		nk = 1 + core.W(40)
	}
	crowd := core.W(16) == 15
	if crowd {
		nk = 20 + core.W(180)
		core.Count("many keys at one instant")
	}
	for i := 0; i < nk; i++ {
		m.keys = append(m.keys, &tmKey{name: fmt.Sprintf("k%d", i)})
	}
	if core.W(5) == 4 {
		// keys that are nearly the same
		alike := []string{"1", "01", "", " ", "1 ", "a", "A", "\x00", "1.0", "+1", "0x1", "4294967297", "65537", "18446744073709551617", "257", "\u00e4", "a\u0308", "-1"}
		r := core.W(len(alike))
		for i, k := range m.keys {
			if i < len(alike) {
				k.name = alike[(i+r)%len(alike)]
			}
		}
		core.Count("keys nearly the same")
	}
	unit := int64(1)
	if core.W(60) == 59 {
		unit = 30
		core.Count("countdowns of minutes")
	}
	var tm *go808.CountdownTimer
	var tok int64
	d0 := int64(1+core.W(12)) * unit
	m.sets = append(m.sets, &tmSet{-1, -1, d0})
	rearm := core.WP(0.3)
	slow := core.WP(0.3)
	if core.WP(0.2) {
		core.EnableStalls(0.05, 8, 4*sec)
		core.StallHarnessOnly()
	}
	opN := 0
	upd := func(k *tmKey, g int) {
		opN++
		o := &tmOp{at: core.Now(), update: true, g: g, n: opN}
		k.ops = append(k.ops, o)
		m.busy++
		core.Note("timer", "update %s begins", k.name)
		tm.Update(k.name)
		o.end = core.Now()
		core.Note("timer", "update %s ends", k.name)
		m.took(o.at)
	}
	rem := func(k *tmKey, g int) {
		opN++
		o := &tmOp{at: core.Now(), g: g, n: opN}
		k.ops = append(k.ops, o)
		m.busy++
		core.Note("timer", "remove %s begins", k.name)
		tm.Remove(k.name)
		o.end = core.Now()
		core.Note("timer", "remove %s ends", k.name)
		m.took(o.at)
	}
	busy := false
	core.GoIn(g, "create", func() {
		tm = go808.NewCountdownTimer(d0, func(key string) {
			for _, k := range m.keys {
				if k.name == key {
					m.busy++
					at := core.Now()
					m.fire(k)
					if rearm && busy && core.W(3) == 2 {
						upd(k, -1)
					}
					if slow && busy && core.W(3) == 2 {
						core.Count("slow callback")
						core.SleepFor(int64(core.W(12000)) * ms)
					}
					m.took(at)
					core.Poke()
					return
				}
			}
			core.Fail("the timer reports a key %q that was never given to it", key)
		})
		core.RelMerge(&tok)
		busy = true
		core.Poke()
	})
	must(10*sec, "the timer is not created", func() bool { return busy })
	core.Acq(&tok)
	core.SleepFor(ms) // operation times are not 0, which stands for not ended
	ng := 1 + core.W(4)
	done := 0
	for i := 0; i < ng; i++ {
		nops := 1 + core.W(12)
		if nk > 6 && !crowd {
			nops = 10 + core.W(40)
		}
		core.GoIn(g, fmt.Sprintf("user%d", i), func() {
			core.Acq(&tok)
			if crowd && i == 0 {
				for _, k := range m.keys {
					upd(k, i)
				}
			}
			for j := 0; j < nops; j++ {
				k := m.keys[core.W(nk)]
				switch core.W(8) {
				case 0, 1, 2, 3, 4:
					upd(k, i)
				case 5, 6:
					rem(k, i)
				case 7:
					d := int64(core.W(14)) - 1
					if d > 0 {
						d *= unit
					}
					x := &tmSet{core.Now(), 0, d}
					if d > 0 {
						m.sets = append(m.sets, x)
					}
					m.busy++
					core.Note("timer", "period set to %d s", d)
					tm.SetExpiration(d)
					x.end = core.Now()
					m.took(x.at)
				}
				switch core.W(4) {
				case 1:
					core.SleepFor(int64(core.W(1000)) * ms)
				case 2:
					core.SleepFor(int64(core.W(8)) * unit * sec)
				case 3:
					core.SleepFor(int64(core.W(20)) * unit * sec / 10)
				}
			}
			done++
			core.Poke()
		})
	}
	if core.WP(0.4) {
		core.GoIn(core.CurGroup(), "clock", func() {
			for j := 0; j < 5; j++ {
				core.SleepFor(int64(core.W(6000)) * ms)
				core.Count("wall clock jump")
				core.JumpWall([]int64{-3600 * sec, 3600 * sec, 7 * sec, -7 * sec}[core.W(4)])
			}
		})
	}
	// while it runs: an armed countdown expires in time
	late := func() {
		now := core.Now()
		if m.busy > 0 || now < m.slowEnd+2*sec+ms {
			return
		}
		for _, k := range m.keys {
			if len(k.ops) == 0 {
				continue
			}
			l := k.ops[len(k.ops)-1]
			if !l.update || l.end == 0 {
				continue
			}
			// another goroutine's removal at the same instant may have come later
			skip := false
			for _, o := range k.ops {
				if o != l && !l.after(o) {
					skip = skip || !o.update
				}
			}
			lo, hi := m.dur(l)
			end := l.end
			for _, o := range k.ops {
				if o.update && !l.after(o) {
					x, h := m.dur(o)
					lo, hi, end = min(lo, x), max(hi, h), max(end, o.end)
				}
			}
			if skip || now < end+hi*sec+2*sec+ms {
				continue
			}
			ok := false
			for _, f := range k.fires {
				ok = ok || f >= l.at+lo*sec-sec
			}
			if !ok {
				core.Fail("the countdown of %s has not expired %.3f s after its last update; it is set to %d s", k.name, float64(now-l.end)/1e9, hi)
			}
		}
	}
	for done < ng && !core.Failed() {
		core.WaitFor(sec, func() bool { return done == ng })
		late()
	}
	busy = false
	core.StopFaults()
	for i := int64(0); i < 18+14*unit; i++ {
		core.SleepFor(sec)
		late()
	}
	if slow {
		must(3600*sec, "callbacks do not finish within an hour", func() bool { return m.busy == 0 })
		for i := 0; i < 18; i++ {
			core.SleepFor(sec)
			late()
		}
	}
	n := 0
	for _, k := range m.keys {
		n += len(k.fires)
	}
	core.State(uint64(n))
	g.Kill()
}

func init() {
	register(&property{id: "C08", level: "exploration", runs: 150000, scen: []scenario{{"timer", 1, scenTimer}}})
}
