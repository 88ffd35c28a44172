//go:build go1.18

package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	ow "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// work is a set of callers' scripts with the clock and entropy each one sees.
type work struct {
	sc     []*script
	seeds  []uint64
	clocks []int64
	res    [][]string
}

func drawWork(r *Run) *work {
	t := r.T
	n := t.Range(1, 3)
	w := &work{sc: someScripts(r, n)}
	for range w.sc {
		w.seeds = append(w.seeds, t.U64())
		w.clocks = append(w.clocks, defaultClock+int64(t.Intn(1000000))*ms*1000)
	}
	return w
}

func (w *work) one(i int) []string {
	out := make([]string, len(w.sc[i].steps))
	simrt.Start(opStepLimit)
	simrt.SeedTask(0, w.seeds[i], w.clocks[i], 1000)
	w.sc[i].run(out)
	return out
}

// cmdChild runs the scripts of a tape, last first, in a process that has done nothing else.
func cmdChild(args []string) {
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	ms := fs.Uint64("mapseed", 0, "")
	fs.Parse(args)
	var tape []uint64
	if json.NewDecoder(os.Stdin).Decode(&tape) != nil {
		os.Exit(3)
	}
	simrt.Start(opStepLimit)
	simrt.SeedTask(0, 1, defaultClock, 0)
	simrt.SetMapSeed(0)
	r := NewRun(*prop, ReplayTape(tape))
	w := drawWork(r)
	simrt.SetMapSeed(*ms)
	w.res = make([][]string, len(w.sc))
	for i := len(w.sc) - 1; i >= 0; i-- {
		w.res[i] = w.one(i)
	}
	simrt.Stop()
	var raw [][][]byte // as bytes: texts need not be UTF-8
	for _, x := range w.res {
		var y [][]byte
		for _, s := range x {
			y = append(y, []byte(s))
		}
		raw = append(raw, y)
	}
	b, _ := json.Marshal(raw)
	fmt.Printf("\nCHILD-RESULT %s\n", b)
}

func fresh(prop string, tape []uint64, mapSeed uint64) ([][]string, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	in, _ := json.Marshal(tape)
	cmd := exec.Command(self, "child", "-prop", prop, "-mapseed", fmt.Sprint(mapSeed))
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	i := bytes.LastIndex(out, []byte("\nCHILD-RESULT "))
	if i < 0 {
		return nil, fmt.Errorf("no result from the fresh process: %v", err)
	}
	var raw [][][]byte
	err = json.Unmarshal(bytes.TrimSpace(out[i+len("\nCHILD-RESULT "):]), &raw)
	var res [][]string
	for _, x := range raw {
		var y []string
		for _, s := range x {
			y = append(y, string(s))
		}
		res = append(res, y)
	}
	return res, err
}

// abuse is what other users of the process do meanwhile: calls that fail,
// damaged inputs, failing entropy, and work of their own.
func abuse(r *Run, p *Pool, w *work) {
	t := r.T
	simrt.Start(opStepLimit)
	simrt.SeedTask(0, t.U64(), defaultClock, 1e6)
	note := func(k string, o Outcome) {
		r.Count("fault:" + k)
		r.Logf("history: %s %v", k, o)
	}
	k := t.Intn(9)
	switch k {
	case 8:
		s := []func() *script{func() *script { return hdScript(r, p.seed) }, func() *script { return addrScript(r, p.seed) }, func() *script { return codecScript(r) }}[t.Intn(3)]()
		r.Count("other_work")
		r.Logf("history: %v", call(func() { s.run(make([]string, len(s.steps))) }))
		return
	case 0:
		a := &addrTypes[t.Intn(len(addrTypes))]
		x := mangleText(r, a.text(t.Rng().Bytes(a.n)))
		note("damaged_address_read", call(func() { ae.AddressDecode(x, *a.real) }))
		return
	case 1:
		x := t.Rng().Bytes(t.Intn(70))
		a := &addrTypes[t.Intn(len(addrTypes))]
		note("odd_payload_encoded", call(func() { ae.AddressEncode(x, *a.real) }))
		return
	case 2:
		s := t.Rng().Bytes(32)
		n := t.Intn(30)
		note("damaged_key_text_read", call(func() {
			k, err := ow.InitRootKeyFromSeed(s, hdCurves[n%len(hdCurves)])
			if err == nil {
				x := k.OWEncode()
				ow.OWDecode(x[:len(x)-n])
			}
		}))
		return
	case 3:
		i := t.Intn(len(w.sc))
		r.Count("repeated_work")
		simrt.SeedTask(0, t.U64(), defaultClock, 1e6)
		call(func() { w.sc[i].run(make([]string, len(w.sc[i].steps))) })
		return
	}
	c := gen(allGens, t.Intn(len(allGens)))(r, p)
	if t.Chance(2, 3) {
		if s := w.sc[t.Intn(len(w.sc))]; s.gen != nil && t.Chance(1, 2) {
			c = sibling(r, s.pool, s.gen, s.seg) // almost the same
		} else if s.gen != nil {
			c = s.gen(r, p) // same driver, colliding data
		}
	}
	if len(c.Keys) > 4 {
		return
	}
	var e string
	var d []string
	var err error
	if o := call(func() { e, d, err = c.Create() }); o.Bad() || err != nil {
		note("failed_build", o)
		return
	}
	var sh []Share
	for i := range c.Keys {
		if i >= len(d) {
			break
		}
		dg := d[i]
		if k == 4 && t.Chance(1, 2) {
			dg = tamperText(r, dg)
			r.Count("fault:digest_damaged")
		}
		if k == 5 && !c.Keys[i].Curve.edwards() && t.Chance(1, 2) {
			simrt.FailEntropy(0, int64(t.Intn(2)), t.Chance(1, 2))
			r.Count("fault:entropy_failure")
		}
		var s Share
		o := call(func() { s, err = c.Sign(i, dg) })
		simrt.FailEntropy(0, -1, false)
		if o.Bad() || err != nil {
			note("failed_signature", o)
		}
		if k == 6 && t.Chance(1, 2) {
			s.Sig = tamperText(r, s.Sig)
			r.Count("fault:signature_damaged")
		}
		if k == 6 && t.Chance(1, 3) {
			s.Pub = tamperText(r, s.Pub)
			r.Count("fault:pubkey_damaged")
		}
		sh = append(sh, s)
	}
	if k == 7 {
		e = tamperText(r, e)
		r.Count("fault:transaction_damaged")
	}
	o := call(func() { _, err = c.Combine(e, d, sh) })
	r.Logf("history: combine %s %v %v", c.Drv, o, err != nil)
}

// historyIndependence: what a call returns depends on its arguments, clock and
// entropy, not on what the process did before.
func historyIndependence(r *Run) {
	t := r.T
	w := drawWork(r)
	prefix := append([]uint64{}, t.Used()...)
	for i, s := range w.sc {
		r.Logf("work %d: %s %s", i, s.drv, short(s.desc))
	}
	for i := range w.sc {
		w.res = append(w.res, w.one(i))
		for j, x := range w.res[i] {
			r.Logf("work %d step %d: %s", i, j, short(x))
		}
	}
	compare := func(got [][]string, how string) {
		for i, s := range w.sc {
			for j := range s.steps {
				if got[i][j] != w.res[i][j] {
					r.Fail("history-dependent|"+s.drv, "work %d (%s) step %d gave %s at first and %s %s; intent: %s", i, s.drv, j, w.res[i][j], got[i][j], how, s.desc)
				}
			}
			r.Count("results_compared")
		}
	}
	if t.Chance(1, 3) {
		ms := t.U64()
		got, err := fresh(r.Prop, prefix, ms)
		if err != nil {
			r.Logf("%v", err)
			panic(err)
		}
		r.Count("fault:process_restart")
		r.Logf("compared with a fresh process")
		compare(got, "in a fresh process, in reverse order")
		r.State(hashStr("fresh"), hashStr(w.names()))
	}
	p := newPool(r)
	for _, s := range w.sc {
		if s.pool != nil {
			p.seed, p.keys = s.pool.seed, s.pool.keys // colliding data
		}
	}
	p.hostile = true
	for k := t.Range(0, 6); k > 0; k-- {
		r.Sim += 1000 * ms
		abuse(r, p, w)
		if !t.Chance(1, 2) {
			continue
		}
		simrt.SetMapSeed(t.U64())
		i := t.Intn(len(w.sc))
		got := w.one(i)
		r.State(hashStr(w.sc[i].drv), uint64(k))
		for j := range got {
			if got[j] != w.res[i][j] {
				r.Fail("history-dependent|"+w.sc[i].drv, "work %d (%s) step %d gave %s at first and %s after other calls; intent: %s", i, w.sc[i].drv, j, w.res[i][j], got[j], w.sc[i].desc)
			}
		}
		r.Count("results_compared")
	}
	simrt.SetMapSeed(t.U64())
	got := make([][]string, len(w.sc))
	for i := len(w.sc) - 1; i >= 0; i-- {
		got[i] = w.one(i)
	}
	compare(got, "after other calls, in reverse order")
	r.State(hashStr(w.names()))
}

func (w *work) names() string {
	var s []string
	for _, x := range w.sc {
		s = append(s, x.drv)
	}
	return strings.Join(s, "+")
}

func init() {
	register(&Property{ID: "C02", Title: "Results do not depend on what the process did before", QuickRuns: 4000, ThorRuns: 200000, Batch: 50,
		Rule:    "one seed gives one tape; the tape decides the work, the calls made between its repetitions (other work, failed calls, damaged inputs, entropy failures), the order of iteration over maps and whether a fresh process repeats it",
		Measure: "distinct (driver, number of foreign calls before the repetition) and (set of drivers) situations",
		Real:    []string{"all driver packages", "addressEncoder", "owkeychain", "owcrypt"}, Stub: []string{"callers", "clock", "entropy source", "map iteration order"},
		Assume: []string{"code outside the repository keeps no state between calls"},
		Body:   historyIndependence})
}
