//go:build go1.18

package main

import (
	"fmt"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	ow "github.com/blocktree/go-owcdrivers/owkeychain"
)

const lentClass = "caller-buffer-changed"

// callerBuffers: honest signing with callers that keep a watch on what they
// hand over and reuse it as soon as the call is back.
func callerBuffers(r *Run) {
	defer func() { lending = false; loans = loans[:0]; lentChanged = "" }()
	if r.T.Chance(1, 5) {
		lending = true
		loans, lentChanged = loans[:0], ""
		if r.T.Chance(1, 2) {
			for i := r.T.Range(1, 12); i > 0; i-- {
				r.Sim += ms
				dispatch(r, letterKinds[r.T.Intn(len(letterKinds))](r), false)
			}
			r.Count("codec_runs")
			return
		}
		simpleBuffers(r)
		return
	}
	lending = true
	loans, lentChanged = loans[:0], ""
	if r.T.Chance(1, 4) { // damaged messages: only the buffers are judged
		r.subTape(r, func(q *Run) { runCeremonies(q, allGens, true) })
		r.Count("hostile_ceremony_runs")
		if r.viol != nil && !strings.HasPrefix(r.viol.Class, lentClass) {
			r.Logf("not about buffers: %s", r.viol.Class)
			r.viol = nil
		}
		return
	}
	start := len(r.T.Used())
	r.subTape(r, func(q *Run) { runCeremonies(q, allGens, false) })
	lending = false
	r.Count("ceremony_runs")
	if r.viol == nil || strings.HasPrefix(r.viol.Class, lentClass) {
		return
	}
	v := r.viol
	r.viol = nil
	plain := r.subTape(NewRun(r.Prop, ReplayTape(append([]uint64{}, r.T.Used()[start:]...))), func(q *Run) { runCeremonies(q, allGens, false) })
	if plain.viol == nil {
		r.Fail("reuse-changes-result|"+v.Class, "when callers reuse their buffers after a call: %s", v.Msg)
	}
	r.Logf("fails without any reuse as well: %s", plain.viol.Class)
}

// subTape executes body on the tape of s.
func (r *Run) subTape(s *Run, body func(*Run)) (out *Run) {
	s.Tier = r.Tier
	out = s
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); !ok {
				panic(e)
			}
		}
	}()
	body(s)
	return s
}

func simpleBuffers(r *Run) {
	t := r.T
	for i := t.Range(2, 8); i > 0; i-- {
		r.Sim += ms
		if t.Chance(1, 2) {
			a := &addrTypes[t.Intn(len(addrTypes))]
			p := t.Rng().Bytes(a.n)
			if a.enc == "base32PolyMod" {
				p[0] = 0
			}
			if t.Chance(1, 3) {
				p = t.Rng().Bytes([]int{33, 65, 64, 40}[t.Intn(4)])
			}
			r.Logf("address %s %x", a.name, p)
			var e1, e2, d1, d2 string
			o := call(func() {
				e1 = ae.AddressEncode(lend(p), *a.real)
				returned()
				b, err := ae.AddressDecode(e1, *a.real)
				d1 = fmt.Sprintf("%x %v", b, err)
				for i := range b { // it is the caller's now
					b[i] ^= 0x55
				}
				e2 = ae.AddressEncode(lend(p), *a.real)
				b, err = ae.AddressDecode(e2, *a.real)
				d2 = fmt.Sprintf("%x %v", b, err)
			})
			r.Count("address_calls")
			if c := settle(); c != "" {
				r.Fail(lentClass+"|addressEncoder", "%s %x: %s", a.name, p, c)
			}
			if !o.Bad() && (e1 != e2 || d1 != d2) {
				r.Fail("reuse-changes-result|addressEncoder", "%s of %x: %s %s first, then %s %s", a.name, p, e1, d1, e2, d2)
			}
			continue
		}
		seed := t.Rng().Bytes([]int{32, 16, 64}[t.Intn(3)])
		curve := hdCurves[t.Intn(len(hdCurves))]
		n := uint32(t.Intn(1000))
		r.Logf("key curve %x seed %x child %d", curve, seed, n)
		changed := ""
		o := call(func() {
			k, err := ow.InitRootKeyFromSeed(lend(seed), curve)
			returned()
			if err != nil {
				return
			}
			text := k.OWEncode()
			child := func() string {
				c, err := k.GenPrivateChild(n)
				if err != nil {
					return err.Error()
				}
				p, err := k.GetPublicKey().GenPublicChild(n)
				if err != nil {
					return err.Error()
				}
				return c.OWEncode() + " " + p.OWEncode()
			}
			before := child()
			wipe := func(b []byte) {
				for i := range b {
					b[i] = 0
				}
			}
			pb, _ := k.GetPrivateKeyBytes()
			wipe(pb)
			wipe(k.GetPublicKeyBytes())
			pub := k.GetPublicKey()
			ptext := pub.OWEncode()
			wipe(pub.GetPublicKeyBytes())
			if x := k.OWEncode(); x != text {
				changed = fmt.Sprintf("key %s is %s after the key bytes it gave out were wiped", text, x)
			} else if x := pub.OWEncode(); x != ptext {
				changed = fmt.Sprintf("key %s is %s after the key bytes it gave out were wiped", ptext, x)
			} else if x := child(); x != before {
				changed = fmt.Sprintf("child %s is %s after key bytes given out were wiped", before, x)
			}
			key, cc, fp := t.Rng().Bytes(32), t.Rng().Bytes(32), t.Rng().Bytes(4)
			e := ow.NewExtendedKey(lend(key), lend(cc), lend(fp), 1, 1, true, curve)
			text = e.OWEncode()
			returned()
			if x := e.OWEncode(); x != text && changed == "" {
				changed = fmt.Sprintf("key %s is %s after the buffers it was made from were reused", text, x)
			}
		})
		r.Count("keychain_calls")
		if c := settle(); c != "" {
			r.Fail(lentClass+"|owkeychain", "%s", c)
		}
		if !o.Bad() && changed != "" {
			r.Fail("reuse-changes-result|owkeychain", "%s", changed)
		}
	}
}

func init() {
	register(&Property{ID: "C03", Title: "Buffers belong to their callers", QuickRuns: 8000, ThorRuns: 100000,
		Rule:    "one seed gives one tape; the tape decides the intents, keys, order of steps, message and crash faults, and every buffer handed over is compared and then reused when the call is back",
		Measure: "distinct ceremony situations (which shares are stored, which nodes are up, pending events)",
		Real:    []string{"all driver packages", "addressEncoder", "owkeychain", "owcrypt"}, Stub: []string{"wallet and signer nodes", "network", "disk", "clocks", "entropy source"},
		Assume: []string{"a call keeps no buffer beyond its return on another thread (the repository starts none)"},
		Body:   callerBuffers})
}
