//go:build go1.18

package main

import (
	"bytes"
	"encoding/base32"
	"fmt"
	"strings"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// addrSeam stands between the person who enters an address and the driver.
var addrSeam func(string) string

func at(s string) string {
	if addrSeam != nil {
		return addrSeam(s)
	}
	return s
}

// sameNet: the driver cannot know which network the address has to be of.
var sameNet bool

// omniAddr is the address whose tokens are frozen.
func omniAddr(x *btcExtra) string {
	if x.OmniAddr == "" || addrSeam == nil {
		return x.OmniAddr
	}
	sameNet = true
	defer func() { sameNet = false }()
	return at(x.OmniAddr)
}

var typedGens []genFn

func init() {
	typedGens = append(typedGens, btcFamily(false)...)
	typedGens = append(typedGens, btcFamily(false)[:4]...)
	typedGens = append(typedGens, likeSolo, vergeGen, aliencoinGen, vollarGen, hypercashGen, elastosGen, fiiiGen, bigbangGen, bytomGen)
	typedGens = append(typedGens, rippleGen, ontologyGen, vsysGen, bnbGen, waykiGen)
}

// foreign gives the same destination the address it would have on another
// network (or an address kind no wallet knows), with a good checksum; "" if it
// cannot.
func foreign(r *Run, s string) string {
	t := r.T
	flip := func(b []byte, n int) {
		if n == 1 {
			b[0] = []byte{0x8c, 0xd3, 0xe7, 0xfb}[t.Intn(4)] // none of the simulated networks uses these
			return
		}
		b[t.Intn(n)] ^= []byte{0x55, 0x2a, 0x80, 0x41}[t.Intn(4)]
	}
	for _, alpha := range []string{b58std, b58ripple} {
		b, err := unbase58(s, alpha)
		if err != nil || len(b) < 25 || len(b) > 28 {
			continue
		}
		n := len(b) - 4
		sums := []func([]byte) []byte{dsha, func(x []byte) []byte { return blake256(blake256(x)) }, vsysSum}
		for _, sum := range sums {
			if !bytes.Equal(sum(b[:n])[:4], b[n:]) {
				continue
			}
			if t.Chance(1, 4) { // nobody's hash is this long
				h := append(append([]byte{}, b[:n]...), t.Rng().Bytes(1+t.Intn(3))...)
				if t.Chance(1, 2) {
					h = h[:n-1-t.Intn(3)]
				}
				return base58(cat(h, sum(h)[:4]), alpha)
			}
			flip(b, n-20)
			return base58(cat(b[:n], sum(b[:n])[:4]), alpha)
		}
	}
	l := strings.ToLower(s)
	if i := strings.LastIndexByte(l, '1'); bech32Valid(l) && i > 0 && len(l) > i+8 {
		var d []byte
		for _, c := range l[i+1 : len(l)-6] {
			d = append(d, byte(strings.IndexRune(b32alpha, c)))
		}
		hrp := l[:i]
		switch k := t.Intn(6); {
		case k == 5: // a group too many
			d = append(d, 0)
			if len(d)%8 == 1 && hrp != "bnb" {
				d = append(d, 0)
			}
			return bech32enc(hrp, d, 1)
		case k == 0 && hrp != "bnb": // another witness version
			d[0] = byte(t.Range(1, 31))
		case k == 1 && hrp != "bnb": // a program no version 0 address has
			d = append(d[:1:1], to5(t.Rng().Bytes([]int{0, 1, 2, 19, 21, 31, 33, 40}[t.Intn(8)]))...)
		case k == 2:
			hrp = []string{"tb", "ltc", "tm", "tbnb", "cosmos"}[t.Intn(5)]
		case k == 3:
			hrp += "x"
		default:
			hrp = "x" + hrp
		}
		konst := uint32(1)
		if t.Chance(1, 4) {
			konst = 0x2bc830a3
		}
		return bech32enc(hrp, d, konst)
	}
	if strings.HasPrefix(l, "bitcoincash:") && cashValid(l) {
		h := t.Rng().Bytes([]int{19, 21, 24, 32}[t.Intn(4)])
		return "bitcoincash:" + cashAddrT(byte(t.Intn(2)), h)
	}
	return ""
}

// typedPayments: a clerk enters payment orders; the addresses are damaged on
// the way to the driver. The driver refuses or pays the address meant.
func typedPayments(r *Run) {
	t := r.T
	for i := t.Range(1, 4); i > 0; i-- {
		p := newPool(r)
		p.hostile = !t.Chance(1, 8) // mostly small transactions
		c := gen(typedGens, t.Intn(len(typedGens)))(r, p)
		if c.MustRefuse != "" {
			continue
		}
		n := 0
		type result struct {
			empty string
			digs  string
			err   error
		}
		seed, clock := t.U64(), defaultClock+r.Sim
		build := func(seam func(string) string) (x result, o Outcome) {
			simrt.SeedTask(0, seed, clock, 0)
			addrSeam = seam
			defer func() { addrSeam = nil }()
			o = call(func() {
				var d []string
				x.empty, d, x.err = c.Create()
				x.digs = strings.Join(d, " ")
			})
			return
		}
		good, o := build(func(s string) string { n++; return s })
		if o.Bad() || good.err != nil {
			r.Fail("good-address-refused|"+c.Drv, "building failed: %v %v; intent: %s", o, good.err, c.Desc)
			return
		}
		for j := t.Range(1, 4); j > 0 && n > 0; j-- {
			r.Sim += 200 * ms
			k, at := t.Intn(n), 0
			if t.Chance(1, 2) {
				k = t.Intn(minInt(n, 3))
			}
			was, is, abroad := "", "", false
			bad, o := build(func(s string) string {
				if at++; at-1 != k {
					return s
				}
				was = s
				if !sameNet && t.Chance(1, 5) {
					is, abroad = foreign(r, s), true
				}
				if is == "" {
					is, abroad = mangleText(r, s), false
				}
				return is
			})
			what := fmt.Sprintf("%q entered as %q", was, is)
			r.Logf("%s: %s: %v %v", c.Drv, what, o, bad.err)
			r.State(hashStr(c.Drv), uint64(k))
			if was == is {
				continue
			}
			r.Count("fault:typing_error")
			switch {
			case o.Bad():
				r.Fail("typo-panicked|"+c.Drv, "%s: %v; intent: %s", what, o, c.Desc)
				return
			case bad.err != nil:
				r.Count("damaged_or_foreign_refused")
			case abroad:
				r.Fail("foreign-accepted|"+c.Drv, "%s, an address of another network, and the transaction was built: %s; intent: %s", what, bad.empty, c.Desc)
				return
			case bad == good:
				r.Count("damage_harmless")
			case bech32Valid(is), c.Drv == "bigbang" && bbcValid(is):
				r.Count("bech32_inherent_collision")
			default:
				r.Fail("typo-accepted|"+c.Drv, "%s, and the transaction was built: %s, the intended one is %s; intent: %s", what, bad.empty, good.empty, c.Desc)
				return
			}
		}
	}
}

// bbcValid: the 24-bit checksum of a BigBang address holds.
func bbcValid(s string) bool {
	if s == "" {
		return false
	}
	b, err := base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").DecodeString(s[1:])
	return err == nil && len(b) == 35 && bbcAddr(b[:32])[1:] == s[1:]
}
