//go:build go1.18

package main

import (
	"bytes"
	"fmt"
	"regexp"
	"runtime/debug"
	"strings"

	ow "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// callAt is call with the place in the repository where a panic happened.
func callAt(f func()) (o Outcome, at string) {
	simrt.OpBegin()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); ok {
				panic(e)
			}
			at = panicPlace(string(debug.Stack()))
			if _, ok := e.(simrt.StepLimit); ok {
				o.Hang = true
				return
			}
			o.Panic = fmt.Sprint(e)
			if o.Panic == "" {
				o.Panic = "panic"
			}
		}
	}()
	f()
	return
}

var placeRE = regexp.MustCompile(`(?m)^github\.com/blocktree/go-owcdrivers/([A-Za-z0-9/]+)\.([^\n]*)\([^\n]*\n\t(\S+):(\d+)`)

// panicPlace names the innermost repository function on the stack.
func panicPlace(stack string) string {
	for _, m := range placeRE.FindAllStringSubmatch(stack, -1) {
		if !strings.HasPrefix(m[1], "verifsim") {
			return m[1] + "." + m[2]
		}
	}
	return "?"
}

// spoil damages a text more thoroughly than tamperText: lengths and counts
// that promise more than there is, nothing at all, not even hex.
func spoil(r *Run, s string) string {
	t := r.T
	switch t.Intn(16) {
	case 0:
		return ""
	case 1:
		return s + s
	case 2:
		return "0x" + s
	case 3:
		return strings.ToUpper(s)
	case 4: // a length or count byte becomes large
		if len(s) < 4 {
			return "ff"
		}
		i := t.Intn(len(s)/2) * 2
		v := []string{"ff", "fe", "fd", "80", "7f", "00", "fc", "4c", "4e"}[t.Intn(9)]
		return s[:i] + v + s[i+2:]
	case 5: // several in a row
		if len(s) < 20 {
			return strings.Repeat("ff", 9)
		}
		i := t.Intn(len(s)/2-8) * 2
		v := []string{"ff", "00"}[t.Intn(2)]
		n := t.Range(2, 9)
		if i+2*n > len(s) {
			n = (len(s) - i) / 2
		}
		return s[:i] + strings.Repeat(v, n) + s[i+2*n:]
	case 6: // whole bytes cut off at the end
		if len(s) < 2 {
			return s
		}
		return s[:t.Intn(len(s)/2)*2]
	case 7: // whole bytes lost inside
		if len(s) < 4 {
			return s
		}
		i := t.Intn(len(s)/2) * 2
		n := 2 * t.Range(1, 40)
		if i+n > len(s) {
			n = len(s) - i
		}
		return s[:i] + s[i+n:]
	case 8: // only a few bytes
		return strings.Repeat([]string{"00", "ff", "01", "30", "51"}[t.Intn(5)], t.Range(1, 80))
	case 9: // not text
		b := t.Rng().Bytes(t.Range(1, 40))
		return string(b)
	case 10: // everything overwritten, the length kept
		return strings.Repeat([]string{"0", "f"}[t.Intn(2)], len(s))
	case 11: // one 32-byte number overwritten: zero, all ones, the order and the prime of the curves
		if len(s) < 64 {
			break
		}
		i := 0
		if t.Chance(1, 4) {
			i = 2 * (t.Intn(len(s)/2 - 31))
		} else { // where r, s or a coordinate starts, with or without a byte before it
			i = 64*t.Intn(len(s)/64) + 2*t.Intn(2)
		}
		if i+64 > len(s) {
			i = len(s) - 64
		}
		return s[:i] + oddNumbers[t.Intn(len(oddNumbers))] + s[i+64:]
	}
	return tamperText(r, s)
}

// oddNumbers are zero, one, all ones, and the orders and primes of secp256k1,
// secp256r1 and ed25519 (little endian).
var oddNumbers = []string{
	strings.Repeat("00", 32),
	strings.Repeat("00", 31) + "01",
	strings.Repeat("ff", 32),
	"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
	"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140",
	"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
	"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30",
	"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
	"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
	"edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

// oddKey is what a damaged key store holds.
func oddKey(r *Run) []byte {
	t := r.T
	switch t.Intn(7) {
	case 0:
		return nil
	case 1:
		return make([]byte, 32)
	case 2:
		return bytes.Repeat([]byte{0xff}, 32)
	case 3:
		return t.Rng().Bytes(t.Intn(32))
	case 4:
		return t.Rng().Bytes(t.Range(33, 70))
	case 5: // the order of secp256k1
		return unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	}
	b := make([]byte, 32)
	b[31] = 1
	return b
}

func someAddress(r *Run) string {
	t := r.T
	switch t.Intn(6) {
	case 0:
		return b58check([]byte{byte(t.Intn(256))}, t.Rng().Bytes(20))
	case 1:
		return segwitAddr([]string{"bc", "tb", "bm"}[t.Intn(3)], t.Rng().Bytes(20))
	case 2:
		return "0x" + hx(t.Rng().Bytes(20))
	case 3:
		k, err := ow.InitRootKeyFromSeed(t.Rng().Bytes(32), hdCurves[t.Intn(len(hdCurves))])
		if err != nil {
			return ""
		}
		x := k.GetPublicKey().OWEncode()
		if t.Chance(1, 2) {
			x, _ = ow.GetMultiSigShareData(x)
		}
		return x
	}
	a := &addrTypes[t.Intn(len(addrTypes))]
	p := t.Rng().Bytes(a.n)
	if a.enc == "base32PolyMod" {
		p[0] = 0
	}
	return a.text(p)
}

// damagedMessages: every message between the parties of a signing ceremony may
// arrive damaged. Whatever arrives, the receiving call ends with a result or
// an error.
func damagedMessages(r *Run) {
	t := r.T
	p := newPool(r)
	p.hostile = true
	g := gen(allGens, t.Intn(len(allGens)))
	c := g(r, p)
	for tries := 0; len(c.Keys) > 3 && tries < 6; tries++ {
		c = g(r, p)
	}
	simrt.SeedTask(0, t.U64(), defaultClock, 1000)
	r.Logf("intent %s: %s", c.Drv, short(c.Desc))
	bad := func(what string, o Outcome, at string, f string, a ...interface{}) {
		if !o.Bad() {
			return
		}
		x := "panic"
		if o.Hang {
			x = "no-answer"
		}
		r.Fail(x+"|"+at, "%s: %v at %s: %s; intent: %s", what, o, at, fmt.Sprintf(f, a...), c.Desc)
	}
	var e string
	var d []string
	var err error
	o, at := callAt(func() { e, d, err = c.Create() })
	bad("building", o, at, "undamaged")
	if err != nil {
		return
	}
	var sh []Share
	for i := range c.Keys {
		if i < len(d) && len(unhex(d[i])) > 0 {
			var s Share
			if o := call(func() { s = c.ext(i, d[i], 0, 7) }); !o.Bad() {
				sh = append(sh, s)
			}
		}
	}
	if t.Chance(1, 3) {
		tornEverywhere(r, c, e, d, sh, bad)
		return
	}
	for k := t.Range(4, 16); k > 0; k-- {
		r.Sim += 100 * ms
		if len(d) > 0 && t.Chance(1, 5) {
			i := t.Intn(len(c.Keys))
			dg := spoil(r, d[i%len(d)])
			r.Count("fault:digest_damaged")
			var s Share
			if t.Chance(1, 3) {
				dg = d[i%len(d)]
			}
			if t.Chance(1, 2) {
				odd := oddKey(r)
				keySeam = func([]byte) []byte { return odd }
				r.Count("fault:key_damaged")
			}
			o, at := callAt(func() { s, err = c.Sign(i, dg) })
			keySeam = nil
			r.Logf("sign %s: %v %v", short(dg), o, err)
			bad("signing", o, at, "digest %q", dg)
			_ = s
			continue
		}
		if t.Chance(1, 6) {
			rd := familyReaders(c.Drv)
			x := e
			if t.Chance(1, 2) || len(rd) == 0 {
				rd = addrReaders
				x = someAddress(r)
			}
			x = spoil(r, x)
			if t.Chance(1, 2) {
				x = mangleText(r, x)
			}
			i := t.Intn(len(rd))
			r.Count("fault:text_damaged")
			o, at := callAt(func() { rd[i](x) })
			r.Logf("read %q: %v", short(x), o)
			bad("reading", o, at, "%q", x)
			continue
		}
		if t.Chance(1, 5) { // building from damaged arguments
			n := t.Intn(12)
			seam := func(s string) string {
				n--
				if n == -1 {
					r.Count("fault:argument_damaged")
					if t.Chance(1, 3) {
						return mangleText(r, s)
					}
					return spoil(r, s)
				}
				return s
			}
			o, at := callAt(func() {
				hxSeam, addrSeam = seam, seam
				defer func() { hxSeam, addrSeam = nil, nil }()
				if k%2 == 0 {
					_, _, err = c.Create()
				} else {
					_, err = c.Combine(e, d, sh)
				}
			})
			r.Logf("damaged argument: %v %v", o, err)
			bad("building or combining with damaged arguments", o, at, "")
			continue
		}
		e2, d2, sh2 := e, append([]string{}, d...), append([]Share{}, sh...)
		which := t.Intn(6)
		switch which {
		case 0, 1, 2:
			e2 = spoil(r, e)
			if t.Chance(1, 3) {
				e2 = spoil(r, e2)
			}
			r.Count("fault:transaction_damaged")
		case 3:
			if len(sh2) > 0 {
				i := t.Intn(len(sh2))
				sh2[i].Sig = spoil(r, sh2[i].Sig)
				r.Count("fault:signature_damaged")
			}
		case 4:
			if len(sh2) > 0 {
				i := t.Intn(len(sh2))
				sh2[i].Pub = spoil(r, sh2[i].Pub)
				r.Count("fault:pubkey_damaged")
			}
		case 5:
			switch t.Intn(3) {
			case 0:
				sh2 = nil
			case 1:
				if len(sh2) > 0 {
					sh2 = sh2[:len(sh2)-1]
				}
			case 2:
				if len(sh2) > 0 {
					sh2 = append(sh2, sh2[0])
				}
			}
			r.Count("fault:share_list_damaged")
		}
		o, at := callAt(func() { _, err = c.Combine(e2, d2, sh2) })
		r.Logf("combine damage %d: %v %v", which, o, err)
		r.State(hashStr(c.Drv), uint64(which), hashStr(fmt.Sprint(err)))
		bad("combining", o, at, "transaction %q shares %q", e2, shareText(sh2))
		r.Count("damaged_calls")
	}
}

// familyReaders are the readers that the format of a driver is given to: its
// own and, among the relatives of Bitcoin, those of the others. A wallet of one
// of these coins does get to read the transactions of another.
func familyReaders(drv string) []func(string) {
	fam := []string{"btc", "hc", "cxc", "omni", "zen", "bch", "bsv", "btclike"}
	rd := append([]func(string){}, txReaders[drv]...)
	for _, f := range fam {
		if f == drv {
			for _, g := range fam {
				if g != drv {
					rd = append(rd, txReaders[g]...)
				}
			}
		}
	}
	return rd
}

var oldBytes = []string{"", "00", "ff", "fd", "4c", "80", "40", "7f", "01", "fe", "c0"}

// tornEverywhere: a stored transaction was torn while it was written. The run
// restarts the reader on what every crash point leaves behind: the text cut at
// each byte, or the part after it still holding the blocks of older files.
func tornEverywhere(r *Run, c *Cer, e string, d []string, sh []Share, bad func(string, Outcome, string, string, ...interface{})) {
	t := r.T
	x := e
	signed := false
	if len(sh) > 0 && t.Chance(2, 3) {
		var f string
		var err error
		o := call(func() { f, err = c.Combine(e, d, sh) })
		if !o.Bad() && err == nil && f != "" {
			x, signed = f, true
		}
	}
	rd := familyReaders(c.Drv)
	if signed {
		if c.Reverify != nil {
			rd = append(rd, func(s string) { c.Reverify(s) })
		}
	} else {
		rd = append(rd, func(s string) { c.Combine(s, d, sh) })
	}
	if len(rd) == 0 {
		return
	}
	old := 0 // what lies behind the tear: nothing, or one byte of another file
	if t.Chance(1, 2) {
		old = t.Range(1, len(oldBytes)-1)
	}
	tail := "" // texts of several parts: the tear may be inside the first one
	if i := strings.IndexByte(x, ':'); i > 0 && t.Chance(2, 3) {
		x, tail = x[:i], x[i:]
	}
	after := -1 // bytes left behind the foreign one, all if negative
	if old > 0 && t.Chance(1, 2) {
		after = t.Intn(10)
	}
	from, step := 0, 2
	n := len(x) / step
	max := 600
	if old > 0 {
		max = 60
	}
	if n > max {
		if t.Chance(1, 2) {
			from = t.Intn(n-max+1) * step
		}
		n = max
	}
	r.Logf("torn at each of %d bytes from %d, signed %v, %d readers, old %d after %d keep %v: %s", n, from/step, signed, len(rd), old, after, tail != "", short(x))
	if t.Chance(1, 4) { // all short remains with a length in front
		n = minInt(n, 12)
		for k := 0; k < n; k++ {
			at := from + k*step
			for _, lead := range []string{"fd", "fe", "ff", "4c", "4d"} {
				for a := 0; a < 9 && at+2+2*a <= len(x); a++ {
					y := x[:at] + lead + x[at+2:at+2+2*a] + tail
					r.Count("fault:torn_write")
					for i := range rd {
						o, where := callAt(func() { rd[i](y) })
						bad("reading what a torn write left", o, where, "%q", y)
					}
				}
			}
		}
		return
	}
	for k := 0; k < n; k++ {
		at := from + k*step
		y := x[:at]
		if old > 0 {
			rest := x[at+2:]
			if after >= 0 && len(rest) > 2*after {
				rest = rest[:2*after]
			}
			y += oldBytes[old] + rest
		}
		y += tail
		r.Sim += 10 * ms
		r.Count("fault:torn_write")
		for i := range rd {
			o, where := callAt(func() { rd[i](y) })
			r.State(hashStr(c.Drv), uint64(100+i), uint64(old), uint64(at))
			bad("reading what a torn write left", o, where, "%q", y)
		}
	}
}

func init() {
	register(&Property{ID: "C16", Title: "Damaged messages give errors, never a crash or a hang", QuickRuns: 12000, ThorRuns: 600000,
		Rule:    "one seed gives one tape; the tape decides the intent and the damage to each message (corrupted, truncated, repeated and lost bytes, wrong lengths and counts, missing and extra shares)",
		Measure: "distinct (driver, damaged part, error) situations",
		Real:    []string{"all driver packages", "addressEncoder", "owkeychain", "owcrypt"}, Stub: []string{"wallet and signer nodes", "network", "disk", "clocks", "entropy source"},
		Assume: []string{"a call that executes 400 million statements of the repository is not going to answer"},
		Body:   damagedMessages})
}
