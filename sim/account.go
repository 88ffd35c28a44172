//go:build go1.18

package main

import (
	"fmt"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// oddAccounts asks for multisig accounts nobody could spend from: the request
// is refused, or the account's outputs can be spent.
func oddAccounts(r *Run, d *btcDrv, ps []btcPrefix, seg bool) {
	t := r.T
	p := ps[t.Intn(len(ps))]
	n := t.Range(1, 4)
	m := t.Range(1, n)
	base := t.Intn(8)
	var keys []*Key
	var pubs [][]byte
	add := func() {
		k := poolKey(k1, (base+3*len(keys))%24)
		keys = append(keys, k)
		pubs = append(pubs, lend(k.Pub))
	}
	for len(keys) < n {
		add()
	}
	why := ""
	full := -1
	switch t.Intn(6) {
	case 0:
		m, why = 0, "no signature would be needed"
	case 1:
		m, why = n+t.Range(1, 4), "more signatures than keys"
	case 2:
		for n = t.Range(16, []int{17, 40, 300}[t.Intn(3)]); len(keys) < n; {
			add()
		}
		m = t.Range(1, 3)
		why = "the script is longer than the network allows"
	case 3:
		i := t.Intn(n)
		pubs[i] = lend(t.Rng().Bytes([]int{0, 1, 20, 32, 34, 64, 66}[t.Intn(7)]))
		why = "a key has a wrong length"
	case 4:
		pubs, m, why = nil, t.Intn(2), "there are no keys"
	default:
		full = t.Intn(n)
		pubs[full] = lend(cat([]byte{4}, keys[full].Full))
	}
	var a, rs string
	var err error
	o := call(func() { a, rs, err = d.multisig(m, pubs, seg, p) })
	returned()
	r.Logf("%s: account of %d of %d keys, %s uncompressed %d: %s %v %v", d.name, m, len(pubs), why, full, a, err, o)
	r.Count("odd_account_requests")
	r.State(hashStr(d.name), hashStr(why), uint64(n))
	if o.Bad() {
		r.Fail("account-crashed|"+d.name, "opening an account of %d of %d keys (%s): %v", m, len(pubs), why, o)
		return
	}
	if why != "" {
		if err == nil || a != "" {
			r.Fail("impossible-account-opened|"+d.name, "an account of %d of %d keys was opened as %s, though %s", m, len(pubs), a, why)
		}
		return
	}
	if err != nil {
		return
	}
	tx := &btcTx{Version: 2}
	if d == drv_cxc {
		tx.Version = 1
	}
	in := btcIn{Kind: inMulti, TxID: t.Rng().Bytes(32), Amount: 100000, M: m, Keys: keys, Redeem: unhex(rs)}
	in.Lock = p2shScript(hash160(in.Redeem))
	if seg {
		in.Kind = inMultiWit
		in.Lock = p2shScript(hash160(cat([]byte{0, 0x20}, sha(in.Redeem))))
	}
	h := t.Rng().Bytes(20)
	tx.Ins = []btcIn{in}
	tx.Outs = []btcOut{{Amount: 5000, Addr: b58check(p.P2PKH, h), Script: p2pkhScript(h)}}
	x := &btcExtra{}
	if d == drv_omni {
		x.Omni, x.OmniProp, x.OmniAmount = true, 31, 1
	}
	var hs []btcHash
	o = call(func() {
		var e string
		if e, err = d.create(tx, p, x); err == nil {
			hs, err = d.hashes(e, tx, p)
		}
	})
	returned()
	if o.Bad() || err != nil || len(hs) != 1 || hs[0].NReq != m {
		r.Fail("uncompressed-account-cannot-be-spent|"+d.name, "the account %s of %d of %d keys, key %d uncompressed, was opened, but no digest to sign is given for its output: %v %v", a, m, n, full, o, err)
	}
}

// strangers: somebody signs for a coin that is not his, but almost.
func strangers(r *Run, gens []genFn) {
	t := r.T
	p := newPool(r)
	p.hostile = true
	c := gen(gens, t.Intn(len(gens)))(r, p)
	if c.Estrange == nil || c.MustRefuse != "" || len(c.Keys) > 12 {
		return
	}
	c.Estrange()
	simrt.SeedTask(0, t.U64(), defaultClock, 1000)
	var e, f string
	var digs []string
	var sh []Share
	var err error
	ok := false
	o := call(func() {
		if e, digs, err = c.Create(); err != nil {
			return
		}
		for i, d := range digs {
			var s Share
			if s, err = c.Sign(i, d); err != nil {
				return
			}
			sh = append(sh, s)
		}
		if f, err = c.Combine(e, digs, sh); err == nil && c.Reverify != nil {
			ok = c.Reverify(f)
		}
	})
	settle()
	r.Count("fault:signed_by_stranger")
	r.State(hashStr("stranger"), hashStr(c.Drv), hashStr(fmt.Sprint(err)))
	r.Logf("%s stranger: %v %v %v %s", c.Drv, o, err, ok, c.Desc)
	if o.Bad() {
		r.Fail("combine-crashed|"+c.Drv, "a coin of another owner: %v; intent: %s", o, c.Desc)
	}
	if ok {
		r.Fail("wrong-transaction-accepted:stranger-key|"+c.Drv, "one coin is locked to another key's hash, and %s is verified; intent: %s", f, c.Desc)
	}
}
