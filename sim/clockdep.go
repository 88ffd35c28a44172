//go:build go1.18

package main

import (
	"fmt"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// stamped: the drivers whose transactions carry the time they were built at.
var stamped = map[string]bool{"verge": true, "fiii": true, "bigbang": true, "vsys": true, "filenet": true}

type clockSetting struct {
	at, tick int64
}

func (c clockSetting) String() string { return fmt.Sprintf("%d.%09d+%d", c.at/1e9, c.at%1e9, c.tick) }

// anyClock draws a wall clock: right, wrong by a little or by decades, near
// the limits of 31 and 32 bits of seconds, standing still, ticking or jumping.
func anyClock(r *Run) clockSetting {
	t := r.T
	k, g := t.Intn(9), t.Rng()
	s, ns := int64(1600000000), int64(0)
	switch k {
	case 1:
		s += int64(g.Intn(2000000)) - 1000000
	case 2:
		s = 1 + int64(g.Intn(3))
	case 3:
		s = 999999995 + int64(g.Intn(10)) // ten digits
	case 4:
		s = 1<<31 - 3 + int64(g.Intn(6))
	case 5:
		s = 1<<32 - 100000 + int64(g.Intn(1000))
	case 6:
		s = int64(g.U64() % (1<<32 - 100000))
	case 7:
		s = 1600000000 - 1600000000%86400 + 86400 - int64(g.Intn(2)) // midnight
	case 8:
		s = int64(1 + g.Intn(16777216*2)) // fewer bytes
	}
	switch t.Intn(4) {
	case 1:
		ns = int64(g.Intn(1000000000))
	case 2:
		ns = 999999999
	case 3:
		ns = int64(g.Intn(1000)) * 1000000
	}
	tick := []int64{0, 1, 1000, 1e6, 1e9, -1e6, 61e9, 3600e9}[t.Intn(8)]
	if tick < 0 && s < 1000 {
		tick = 0
	}
	return clockSetting{s*1e9 + ns, tick}
}

// clockReach: what depends on the clock is the timestamp a transaction
// carries, and that only where the network's transactions carry one.
func clockReach(r *Run) {
	t := r.T
	p := newPool(r)
	p.hostile = true // small transactions
	var s *script
	var c *Cer
	k := t.Intn(12)
	switch k {
	case 0:
		s = addrScript(r, t.U64())
	case 1:
		s = hdScript(r, t.U64())
	default:
		g := gen(allGens, t.Intn(len(allGens)))
		if k > 8 {
			g = clockGens[t.Intn(len(clockGens))]
		}
		c = g(r, p)
		for tries := 0; len(c.Keys) > 3 && tries < 6; tries++ {
			c = g(r, p)
		}
		s = cerScript(r, c)
	}
	r.Logf("%s: %s", s.drv, short(s.desc))
	seed := t.U64()
	if c != nil {
		for n := t.Range(1, 3); n > 0; n-- {
			clk := anyClock(r)
			simrt.SeedTask(0, mix(seed, 0), clk.at, clk.tick)
			var b Build
			var err error
			o := call(func() { b.Empty, b.Digests, err = c.Create() })
			if ch := settle(); ch != "" {
				r.Fail(lentClass+"|"+c.Drv, "%s", ch)
			}
			if c.MustRefuse != "" {
				break
			}
			r.Sim += 1000 * ms
			r.Count("fault:clock_set")
			reads, ring := simrt.ClockReads(0)
			for i := uint32(0); i < reads && i < uint32(len(ring)); i++ {
				b.Clock = append(b.Clock, ring[i])
			}
			r.Logf("built at %v (%d readings): %v %v %s", clk, reads, o, err, short(b.Empty))
			if o.Bad() || err != nil {
				r.Fail("create-failed-at-clock|"+c.Drv, "with the clock at %v building fails: %v %v; intent: %s", clk, o, err, c.Desc)
				return
			}
			if len(b.Digests) != len(c.Keys) {
				r.Fail("digest-count|"+c.Drv, "with the clock at %v: %d digests for %d signers; intent: %s", clk, len(b.Digests), len(c.Keys), c.Desc)
				return
			}
			if e := c.CheckDigests(&b); e != nil {
				r.Fail("wrong-at-clock|"+c.Drv, "with the clock at %v: %v; intent: %s", clk, e, c.Desc)
			}
			r.State(hashStr(c.Drv), uint64(clk.at/1e9), uint64(clk.tick))
		}
	}
	var base []string
	first := anyClock(r)
	for n := t.Range(2, 3); n > 0; n-- {
		clk := first
		out := make([]string, len(s.steps))
		var used []string
		for i, f := range s.steps {
			if !(i == 0 && stamped[s.drv]) {
				clk = anyClock(r)
			}
			simrt.SeedTask(0, mix(seed, uint64(i)), clk.at, clk.tick)
			o := call(func() { out[i] = f() })
			if o.Bad() {
				out[i] = o.String()
			}
			settle()
			used = append(used, clk.String())
			r.Count("fault:clock_set")
			r.Sim += 1000 * ms
		}
		r.Logf("clocks %v", used)
		for i, x := range out {
			if base != nil && base[i] != x {
				r.Fail("clock-changes-result|"+s.drv, "step %d gives %s at one time and %s at another (clocks %v); intent: %s", i, base[i], x, used, s.desc)
				return
			}
			r.Logf("step %d: %s", i, short(x))
		}
		if base == nil {
			base = out
		}
		r.Count("executions_compared")
	}
}

var clockGens []genFn

func init() {
	clockGens = []genFn{vergeGen, fiiiGen, bigbangGen, vsysGen, filenetGen}
	register(&Property{ID: "C14", Title: "The clock decides the timestamp and nothing else", QuickRuns: 6000, ThorRuns: 200000,
		Rule:    "one seed gives one tape; the tape decides the intent, the clock at every step (wrong by seconds or decades, at 31- and 32-bit limits, standing still, running backwards, jumping between two readings) and the entropy",
		Measure: "distinct (driver, time, tick) situations",
		Real:    []string{"all driver packages", "addressEncoder", "owkeychain", "owcrypt"}, Stub: []string{"clock", "entropy source", "wallet and signer nodes"},
		Assume: cerAssume,
		Body:   clockReach})
}
