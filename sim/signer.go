//go:build go1.18

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// A signing service holds the keys of several wallets and answers requests.
// Its machine may be restored from a snapshot (the entropy source repeats),
// lose its entropy source, or read a key back damaged; requests may arrive
// damaged or carry extreme values. A signature it gives out is always a valid
// one, by the key it was asked to use, for the digest it was asked to sign.

func (c *Cer) rawSig(s Share) []byte {
	sig := unhex(s.Sig)
	if len(sig) == 65 && c.CheckShare != nil {
		sig = sig[:64]
	}
	return sig
}

// edgeDigest draws 32 bytes at the limits of the group order and the format.
func edgeDigest(r *Run, c curve) []byte {
	n := edL
	if !c.edwards() {
		n = curveOrder(c)
	}
	g := r.T.Intn(10)
	rng := r.T.Rng()
	one := big.NewInt(1)
	switch g {
	case 0:
		return rng.Bytes(32)
	case 1:
		return make([]byte, 32)
	case 2:
		return pad32(n)
	case 3:
		return pad32(new(big.Int).Add(n, one))
	case 4:
		return pad32(new(big.Int).Sub(n, one))
	case 5:
		return bytes.Repeat([]byte{0xff}, 32)
	case 6:
		return pad32(one)
	case 7:
		b := rng.Bytes(32)
		for i := 0; i < 1+rng.Intn(31); i++ {
			b[i] = 0
		}
		return b
	case 8:
		b := rng.Bytes(32)
		b[31], b[30] = 0, 0
		return b
	default:
		b := bytes.Repeat([]byte{0xff}, 32)
		copy(b[16+rng.Intn(16):], rng.Bytes(32))
		return b[:32]
	}
}

// denotes is what a digest text stands for: the bytes, or nothing.
func denotes(s string) []byte {
	if len(s) > 2 && (s[:2] == "0x" || s[:2] == "0X") {
		s = s[2:]
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil
	}
	return b
}

// keyOf is the key a stored private key stands for (nil: none).
func keyOf(c curve, priv []byte) *Key {
	if len(priv) != 32 {
		return nil
	}
	if c.edwards() {
		return nil // any 32 bytes are a key; see vaultKey
	}
	d := new(big.Int).SetBytes(priv)
	if d.Sign() == 0 || d.Cmp(curveOrder(c)) >= 0 {
		return nil
	}
	return newKey(c, pad32(new(big.Int).Sub(d, big.NewInt(1))))
}

func signingVault(r *Run) {
	t := r.T
	p := newPool(r)
	p.hostile = true
	type slot struct {
		c    *Cer
		digs []string
	}
	var slots []slot
	for n := t.Range(1, 3); n > 0; n-- {
		g := gen(allGens, t.Intn(len(allGens)))
		c := g(r, p)
		for tries := 0; len(c.Keys) > 3 && tries < 6; tries++ {
			c = g(r, p)
		}
		if c.MustRefuse != "" || len(c.Keys) == 0 {
			continue
		}
		simrt.SeedTask(0, t.U64(), defaultClock, 1000)
		var d []string
		var err error
		o := call(func() { _, d, err = c.Create() })
		settle()
		if o.Bad() || err != nil || len(d) != len(c.Keys) {
			r.Fail("create-failed|"+c.Drv, "building: %v %v, %d digests for %d signers; intent: %s", o, err, len(d), len(c.Keys), c.Desc)
			return
		}
		r.Logf("wallet %d: %s %s", len(slots), c.Drv, short(c.Desc))
		slots = append(slots, slot{c, d})
	}
	if len(slots) == 0 {
		return
	}
	seen := map[string]string{} // key and r -> digest
	machine := t.U64()
	snap := machine
	for n := t.Range(3, 10); n > 0; n-- {
		r.Sim += 50 * ms
		s := slots[t.Intn(len(slots))]
		c := s.c
		i := t.Intn(len(c.Keys))
		key := c.Keys[i]
		dig := s.digs[i]
		fixed := len(dig) == 64 && denotes(dig) != nil
		good := true // the request is one that has to be answered
		what := "plain"
		switch k := t.Intn(8); {
		case k < 2:
		case k < 5 && fixed:
			dig = hx(edgeDigest(r, key.Curve))
			what = "edge digest"
			r.Count("fault:edge_digest")
		case k < 5:
			what = "other message"
			dig = tamperHex(r, dig)
			good = false
		case k < 7:
			what = "damaged digest"
			dig = spoil(r, dig)
			if t.Chance(1, 2) && fixed {
				b := unhex(s.digs[i])
				switch t.Intn(5) {
				case 0:
					dig = hx(b[:31])
				case 1:
					dig = hx(append(b, 0))
				case 2:
					dig = hx(b[:t.Intn(32)])
				case 3:
					dig = s.digs[i][:63]
				case 4:
					dig = hx(append([]byte{0}, b...))
				}
			}
			good = false
			r.Count("fault:digest_damaged")
		}
		if t.Chance(1, 6) {
			machine = snap
			what += ", snapshot restored"
			r.Count("fault:entropy_rewound")
		} else {
			machine = mix(machine, uint64(n))
		}
		simrt.SeedTask(0, machine, defaultClock+r.Sim, 1000)
		failing := !key.Curve.edwards() && t.Chance(1, 5)
		if failing {
			simrt.FailEntropy(0, int64(t.Intn(3)), t.Chance(1, 2))
		}
		var stored []byte
		damaged := t.Chance(1, 5)
		if damaged {
			stored = vaultKey(r, key)
			keySeam = func([]byte) []byte { return append([]byte{}, stored...) }
			what += ", key damaged"
			r.Count("fault:key_damaged")
			key = keyOf(key.Curve, stored)
			if key == nil {
				key = &Key{}
			}
		}
		var sh Share
		var err error
		o := call(func() { sh, err = c.Sign(i, dig) })
		keySeam = nil
		ch := settle()
		_, _, fired := simrt.EntropyStats(0)
		if failing && fired > 0 {
			good = false
			what += ", no entropy"
			r.Count("fault:entropy_failure")
		}
		r.Logf("%s: %s digest %s: %v %v %s", c.Drv, what, short(dig), o, err, short(sh.Sig))
		r.State(hashStr(c.Drv), hashStr(what), hashStr(fmt.Sprint(err)))
		r.Count("requests")
		if ch != "" {
			r.Fail(lentClass+"|"+c.Drv, "%s; intent: %s", ch, c.Desc)
		}
		if o.Bad() {
			r.Fail("sign-crashed|"+c.Drv, "%s, digest %q: %v; intent: %s", what, dig, o, c.Desc)
			continue
		}
		if err != nil {
			if good && !damaged {
				r.Fail("sign-refused|"+c.Drv, "%s, digest %q: %v; intent: %s", what, dig, err, c.Desc)
			}
			continue
		}
		if key.Pub == nil {
			r.Fail("signed-without-key|"+c.Drv, "%s: the stored key is %x, yet signing digest %q gives %s; intent: %s", what, stored, dig, sh.Sig, c.Desc)
			continue
		}
		msg := denotes(dig)
		if msg == nil || (fixed && len(msg) != 32) {
			r.Fail("signed-no-digest|"+c.Drv, "%s: %q is no digest, yet signing it gives %s; intent: %s", what, dig, sh.Sig, c.Desc)
			continue
		}
		if !damaged {
			if e := c.checkShare(i, hx(msg), sh); e != nil {
				r.Fail("bad-signature|"+c.Drv, "%s: %v; intent: %s", what, e, c.Desc)
				continue
			}
		} else {
			sig := c.rawSig(sh)
			if !refVerify(key.Curve, key.Pub, msg, sig) || (!c.HighS && lowS(key.Curve, sig) != nil) {
				r.Fail("bad-signature|"+c.Drv, "%s: stored key %x, digest %s: signature %s is not valid; intent: %s", what, stored, dig, sh.Sig, c.Desc)
				continue
			}
		}
		sig := c.rawSig(sh)
		id := hx(key.Pub) + hx(sig[:32])
		if d, ok := seen[id]; ok && d != hx(msg) {
			r.Fail("nonce-reused|"+c.Drv, "%s: digests %s and %s are signed with the same nonce: the private key can be computed; intent: %s", what, d, dig, c.Desc)
		}
		seen[id] = hx(msg)
		r.Count("valid_signatures")
	}
	if !t.Chance(1, 10) {
		return
	}
	// A busy day: so many signatures that some have unusual numbers in them.
	s := slots[t.Intn(len(slots))]
	c := s.c
	if len(s.digs[0]) != 64 || denotes(s.digs[0]) == nil {
		return
	}
	rg := t.Rng()
	simrt.SeedTask(0, t.U64(), defaultClock+r.Sim, 1000)
	for n := 40; n > 0; n-- {
		dig := hx(rg.Bytes(32))
		var sh Share
		var err error
		o := call(func() { sh, err = c.Sign(0, dig) })
		settle()
		r.Count("requests")
		if o.Bad() || err != nil {
			r.Fail("sign-refused|"+c.Drv, "busy day, digest %q: %v %v; intent: %s", dig, o, err, c.Desc)
			return
		}
		if e := c.checkShare(0, dig, sh); e != nil {
			r.Fail("bad-signature|"+c.Drv, "busy day, digest %q: %v; intent: %s", dig, e, c.Desc)
			return
		}
		r.Count("valid_signatures")
	}
	r.Logf("%s: busy day done", c.Drv)
}

// vaultKey is a private key as a damaged vault returns it.
func vaultKey(r *Run, k *Key) []byte {
	b := append([]byte{}, k.Priv...)
	if k.Curve.edwards() { // any 32 bytes are a key: only the length can be wrong
		switch r.T.Intn(4) {
		case 0:
			return b[:31]
		case 1:
			return append(b, 0)
		case 2:
			return nil
		default:
			return b[:r.T.Intn(31)]
		}
	}
	n := curveOrder(k.Curve)
	one := big.NewInt(1)
	switch r.T.Intn(12) {
	case 0:
		return b[:31]
	case 1:
		return append(b, 0)
	case 2:
		return append([]byte{0}, b...)
	case 3:
		return nil
	case 4:
		return make([]byte, 32)
	case 5:
		return pad32(n)
	case 6:
		return pad32(new(big.Int).Add(n, one))
	case 7:
		return bytes.Repeat([]byte{0xff}, 32)
	case 8:
		return pad32(new(big.Int).Sub(n, one))
	case 9:
		return pad32(one)
	case 10:
		return b[:r.T.Intn(31)]
	default:
		return append([]byte{}, poolKey(k.Curve, 200+r.T.Intn(4)).Priv...)
	}
}

func init() {
	register(&Property{ID: "C15", Title: "A signature given out is a valid one", QuickRuns: 8000, ThorRuns: 150000,
		Rule:    "one seed gives one tape; the tape decides the requests to the signing service (digests at the limits of the group order, damaged digests), snapshots restored, entropy failures and damaged stored keys",
		Measure: "distinct (driver, kind of request and fault, error) situations",
		Real:    []string{"the signing entry points of all driver packages", "owcrypt"}, Stub: []string{"signing service", "entropy source", "key storage", "clock"},
		Assume: []string{"signature verification of btcec and the Go standard library is right", "Edwards keys: the entropy source does not fail (Go ends the process)"},
		Body:   signingVault})
}
