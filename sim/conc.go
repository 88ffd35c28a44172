//go:build go1.18

package main

import (
	"fmt"
	"strings"
	"sync"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	ow "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// script is what one caller does: a fixed sequence of library calls whose
// arguments depend only on the results of its own earlier calls.
type script struct {
	drv   string
	desc  string
	steps []func() string
	gen   genFn
	seg   []uint64 // the choices the intent was made from
	pool  *Pool
}

func cerScript(r *Run, c *Cer) *script {
	t := r.T
	s := &script{drv: c.Drv, desc: c.Desc}
	var b Build
	var shares []Share
	s.steps = append(s.steps, func() string {
		b, shares = Build{}, nil
		e, d, err := c.Create()
		b.Empty, b.Digests = e, d
		return fmt.Sprintf("create %s %s %v", e, strings.Join(d, ","), err)
	})
	for i := range c.Keys {
		i := i
		s.steps = append(s.steps, func() string {
			if i >= len(b.Digests) {
				return "nothing to sign"
			}
			sh, err := c.Sign(i, b.Digests[i])
			shares = append(shares, sh)
			return fmt.Sprintf("sign %s %s %v", sh.Sig, sh.Pub, err)
		})
	}
	spoilt := func() func(string) string {
		pos, nib := t.Intn(1<<16), t.Range(1, 15)
		return func(s string) string {
			if s == "" {
				return s
			}
			i := pos % len(s)
			d := strings.IndexByte("0123456789abcdef", s[i])
			if d < 0 {
				d = 0
			}
			return s[:i] + string("0123456789abcdef"[(d+nib)%16]) + s[i+1:]
		}
	}
	bad := func() { // a damaged share
		who, what, sp := t.Intn(16), t.Intn(4), spoilt()
		s.steps = append(s.steps, func() string {
			if len(shares) == 0 {
				return "nothing to combine"
			}
			sh := append([]Share{}, shares...)
			e := b.Empty
			switch x := &sh[who%len(sh)]; what {
			case 0:
				x.Pub = sp(x.Pub)
			case 1:
				e = sp(e)
			default:
				x.Sig = sp(x.Sig)
			}
			f, err := c.Combine(e, b.Digests, sh)
			return fmt.Sprintf("damaged combine %s %v", f, err)
		})
	}
	if t.Chance(1, 3) {
		bad()
	}
	var final string
	s.steps = append(s.steps, func() string {
		f, err := c.Combine(b.Empty, b.Digests, shares)
		final = f
		return fmt.Sprintf("combine %s %v", f, err)
	})
	if t.Chance(1, 3) {
		bad()
	}
	if c.Reverify != nil && t.Chance(1, 2) {
		sp := spoilt()
		s.steps = append(s.steps, func() string {
			if final == "" {
				return "nothing to verify"
			}
			x := fmt.Sprint("verify ", c.Reverify(final))
			o := call(func() { x += fmt.Sprint(" damaged ", c.Reverify(sp(final))) })
			return x + o.String()
		})
	}
	return s
}

// addrScript encodes, decodes and checks addresses.
func addrScript(r *Run, salt uint64) *script {
	t := r.T
	s := &script{drv: "addressEncoder"}
	base := t.Intn(len(addrTypes))
	for i := t.Range(2, 8); i > 0; i-- {
		a := &addrTypes[(base+t.Intn(3))%len(addrTypes)]
		p := (&Rng{mix(salt, uint64(t.Intn(3)))}).Bytes(a.n) // shared by callers and types
		if a.enc == "base32PolyMod" {
			p[0] = 0
		}
		want := a.text(p)
		bad := want
		if t.Chance(1, 3) {
			bad = mangleText(r, want)
		}
		sym := a.symbol()
		s.steps = append(s.steps, func() string {
			e := ae.AddressEncode(p, *a.real)
			d, err := ae.AddressDecode(bad, *a.real)
			x := fmt.Sprintf("%s encode %s decode %s %x %v", a.name, e, bad, d, err)
			if sym != "" {
				ok, err := ae.AddressCheck(bad, sym)
				x += fmt.Sprint(" check ", ok, err)
			}
			return x
		})
		s.desc += a.name + " "
	}
	return s
}

// hdScript derives, exports and reads keys.
func hdScript(r *Run, salt uint64) *script {
	t := r.T
	s := &script{drv: "owkeychain"}
	for i := t.Range(1, 3); i > 0; i-- {
		seed := (&Rng{mix(salt, uint64(t.Intn(2)))}).Bytes(32) // shared by callers and curves
		curve := hdCurves[t.Intn(len(hdCurves))]
		path := fmt.Sprintf("m/44'/88'/%d'/%d", t.Intn(2), t.Intn(3))
		n := uint32(t.Intn(4))
		s.desc += fmt.Sprintf("%d %s %d; ", curve, path, n)
		s.steps = append(s.steps, func() string {
			k, err := ow.DerivedPrivateKeyWithPath(seed, path, curve)
			if err != nil {
				return err.Error()
			}
			x := k.OWEncode()
			d, err := ow.OWDecode(x)
			if err != nil {
				return err.Error()
			}
			p, err := d.GetPublicKey().GenPublicChild(n)
			if err != nil {
				return err.Error()
			}
			sh, err := ow.GetMultiSigShareData(p.OWEncode())
			return fmt.Sprintln(x, p.OWEncode(), sh, err)
		})
	}
	return s
}

var allGens []genFn

func someScripts(r *Run, n int) []*script {
	t := r.T
	p := newPool(r)
	p.hostile = true // small transactions
	a, b := gen(allGens, t.Intn(len(allGens))), gen(allGens, t.Intn(len(allGens)))
	var out []*script
	var lastGen genFn
	var seg []uint64
	theme := -1 // everybody does the same kind of thing
	if t.Chance(1, 5) {
		theme = []int{0, 1, 8, 2}[t.Intn(4)]
	}
	for i := 0; i < n; i++ {
		k := t.Intn(9)
		if theme >= 0 {
			k = theme
		}
		switch {
		case k == 0:
			out = append(out, addrScript(r, p.seed))
		case k == 8:
			out = append(out, codecScript(r))
		case k == 1:
			out = append(out, hdScript(r, p.seed))
		default:
			g := a
			if k >= 6 {
				g = b
			}
			var c *Cer
			if lastGen != nil && t.Chance(1, 4) {
				g = lastGen
				c = sibling(r, p, g, seg)
			}
			if c == nil || len(c.Keys) > 3 {
				at := len(t.Used())
				c = g(r, p)
				for tries := 0; len(c.Keys) > 3 && tries < 6; tries++ {
					at = len(t.Used())
					c = g(r, p)
				}
				lastGen, seg = g, append([]uint64{}, t.Used()[at:]...)
			}
			x := cerScript(r, c)
			x.gen, x.seg = g, seg
			out = append(out, x)
		}
	}
	for _, x := range out {
		x.pool = p
	}
	return out
}

// run runs the script alone.
func (s *script) run(res []string) (o Outcome) {
	for i, f := range s.steps {
		var x string
		o := call(func() { x = f() })
		if o.Bad() {
			x = o.String()
		}
		res[i] = x
	}
	return
}

// concurrentCallers: several callers use the library at once, preempted
// between any two statements. Each obtains what it obtains alone.
func concurrentCallers(r *Run) {
	t := r.T
	n := t.Range(2, 4)
	sc := someScripts(r, n)
	n = len(sc)
	seeds := make([]uint64, n)
	clocks := make([]int64, n)
	for i := range sc {
		seeds[i] = t.U64()
		clocks[i] = defaultClock + int64(t.Intn(1000000))*ms*1000
	}
	prep := func() {
		for i := range sc {
			simrt.SeedTask(i, seeds[i], clocks[i], 1000)
		}
	}
	var sw []simrt.Switch
	scale := t.Intn(4)
	for k := t.Range(1, 60); k > 0; k-- {
		g := uint64(t.Range(1, []int{30, 300, 3000, 30000}[scale]))
		sw = append(sw, simrt.Switch{Gap: g, To: uint32(t.Intn(8))})
	}
	first := t.Intn(n)
	mk := func() [][]string {
		var x [][]string
		for _, s := range sc {
			x = append(x, make([]string, len(s.steps)))
		}
		return x
	}
	alone, together := mk(), mk()
	solo := func() {
		for i, s := range sc {
			simrt.Start(opStepLimit)
			simrt.SeedTask(0, seeds[i], clocks[i], 1000)
			s.run(alone[i])
		}
	}
	conc := func() {
		prep()
		var wg sync.WaitGroup
		simrt.Launch(n, first, sw, opStepLimit*4)
		for i := range sc {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				simrt.Enter(i)
				defer simrt.Exit(i)
				sc[i].run(together[i])
			}(i)
		}
		wg.Wait()
		r.Events += int(simrt.Fired())
		r.Counts["fault:preemption"] += int64(simrt.Fired())
		for _, p := range simrt.Pairs() {
			r.State(p)
		}
		r.Sim += int64(simrt.Steps()) * 1000
		simrt.Start(opStepLimit)
	}
	for i, s := range sc {
		r.Logf("caller %d: %s %s", i, s.drv, short(s.desc))
	}
	if t.Chance(1, 2) { // first use of the library in this process may be concurrent
		conc()
		solo()
	} else {
		solo()
		conc()
	}
	for i, s := range sc {
		for j := range s.steps {
			r.Logf("caller %d step %d: %s", i, j, short(together[i][j]))
		}
	}
	for i, s := range sc {
		for j := range s.steps {
			if alone[i][j] != together[i][j] {
				r.Fail("interference|"+s.drv, "caller %d (%s) step %d gives %s alone and %s with %d callers at once; intent: %s", i, s.drv, j, alone[i][j], together[i][j], n, s.desc)
			}
		}
		r.Count("callers")
	}
}

func init() {
	allGens = append(allGens, btcFamily(false)...)
	allGens = append(allGens, btcFamily(true)...)
	allGens = append(allGens, likeSolo, likeMulti)
	allGens = append(allGens, utxoGens...)
	allGens = append(allGens, acctGens...)
	real := []string{"all driver packages", "addressEncoder", "owkeychain", "owcrypt"}
	register(&Property{ID: "C01", Title: "Concurrent callers do not interfere", QuickRuns: 1000, ThorRuns: 60000, Race: true, Batch: 4,
		Rule:    "one seed gives one tape; the tape decides the callers, their calls, keys, clocks and entropy, and after how many statements which caller is preempted for which",
		Measure: "distinct (statement, preempted caller, resumed caller) preemptions",
		Real:    real, Stub: []string{"thread scheduler (one caller runs at a time, preempted before any statement of the repository)", "package sync", "clock", "entropy source"},
		Assume: []string{"code outside the repository (owcrypt, protobuf, the Go libraries) is not preempted inside a call, but is observed by the race detector"},
		Body:   concurrentCallers})
}
