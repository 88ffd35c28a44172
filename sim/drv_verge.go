//go:build go1.18

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	ali "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	xvg "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vol "github.com/blocktree/go-owcdrivers/vollarTransaction"
)

// Verge, Aliencoin and Vollar: Bitcoin-like transactions with per-coin fields.

type xIn struct {
	TxID []byte
	Vout uint32
	Lock []byte
	Key  *Key
}
type xOut struct {
	Addr   string
	Script []byte
	Amount uint64
}
type xTx struct {
	Ins      []xIn
	Outs     []xOut
	Lock     uint32
	Interval uint32
}

func someVout(r *Run) uint32 {
	switch r.T.Intn(3) {
	case 0:
		return uint32(r.T.Intn(4))
	case 1:
		return uint32(r.T.Range(0, 300))
	}
	return uint32(r.T.Amount(0xffffffff))
}

func genXTx(r *Run, g *Pool, p2pkh, p2sh []byte) (*xTx, []*Key) {
	t := r.T
	x := &xTx{}
	var keys []*Key
	seen := map[string]bool{}
	nIn := someCount(r, 3, 12)
	if !g.hostile && t.Chance(1, 400) {
		nIn = bigCount(r, 250, 262)
	}
	for n := nIn; n > 0; n-- {
		k := g.Key(k1)
		in := xIn{TxID: g.Bytes("txid", 32), Vout: someVout(r), Key: k, Lock: p2pkhScript(hash160(k.Pub))}
		id := fmt.Sprintf("%x:%d", in.TxID, in.Vout)
		if seen[id] {
			continue
		}
		seen[id] = true
		x.Ins = append(x.Ins, in)
		keys = append(keys, k)
	}
	n := someCount(r, 3, 40)
	if t.Chance(1, 60) {
		n = bigCount(r, 250, 300)
	}
	for ; n > 0; n-- {
		h := g.Bytes("outhash", 20)
		o := xOut{Amount: t.Amount(1<<63 - 1)}
		if t.Chance(1, 3) {
			o.Addr, o.Script = b58check(p2sh, h), p2shScript(h)
		} else {
			o.Addr, o.Script = b58check(p2pkh, h), p2pkhScript(h)
		}
		x.Outs = append(x.Outs, o)
	}
	if t.Chance(1, 2) {
		x.Lock = uint32(t.Amount(0xffffffff))
	}
	x.Interval = uint32(t.Amount(100000))
	return x, keys
}

func (x *xTx) desc() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "lock=%d interval=%d in[", x.Lock, x.Interval)
	for _, in := range x.Ins {
		fmt.Fprintf(&b, " %s:%d", hx(in.TxID)[:8], in.Vout)
	}
	fmt.Fprintf(&b, " ] out[")
	for i, o := range x.Outs {
		if i == 4 {
			fmt.Fprintf(&b, " +%d more", len(x.Outs)-4)
			break
		}
		fmt.Fprintf(&b, " %d->%s", o.Amount, o.Addr)
	}
	return b.String() + " ]"
}

// clockField reads a 32-bit time from the build and requires that it is a clock
// reading taken while building, plus add.
func clockField(b *Build, off int, add uint32) ([]byte, error) {
	e := unhex(strings.Split(b.Empty, ":")[0])
	if len(e) < off+4 {
		return nil, errors.New("built transaction is too short")
	}
	v := binary.LittleEndian.Uint32(e[off:])
	for _, c := range b.Clock {
		if uint32(c/1e9)+add == v {
			return le32(v), nil
		}
	}
	return nil, &clsErr{"clock", fmt.Sprintf("the transaction's time %d is not a clock reading of the build %v plus %d", v, b.Clock, add)}
}

func btcScriptSig(sh Share) []byte {
	return varbytes(cat(varbytes(append(derSig(unhex(sh.Sig)), 1)), varbytes(unhex(sh.Pub))))
}

// xLegacy is the reference for verge and aliencoin: the legacy digest, with the
// time after the version for verge.
func xLegacy(x *xTx, timed bool) (refDigestFn, func(b *Build, sh []Share) (string, error)) {
	head := func(b *Build) ([]byte, error) {
		h := le32(1)
		if timed {
			t, err := clockField(b, 4, x.Interval)
			if err != nil {
				return nil, err
			}
			h = cat(h, t)
		}
		return h, nil
	}
	outs := func() []byte {
		o := compact(len(x.Outs))
		for _, out := range x.Outs {
			o = cat(o, le64(out.Amount), varbytes(out.Script))
		}
		return o
	}
	ser := func(h []byte, script func(i int) []byte) []byte {
		b := cat(h, compact(len(x.Ins)))
		for i, in := range x.Ins {
			b = cat(b, rev(in.TxID), le32(in.Vout), script(i), []byte{255, 255, 255, 255})
		}
		return cat(b, outs(), le32(x.Lock))
	}
	dig := func(b *Build) ([][]byte, error) {
		h, err := head(b)
		if err != nil {
			return nil, err
		}
		var d [][]byte
		for i := range x.Ins {
			d = append(d, dsha(cat(ser(h, func(j int) []byte {
				if j == i {
					return varbytes(x.Ins[j].Lock)
				}
				return []byte{0}
			}), le32(1))))
		}
		return d, nil
	}
	fin := func(b *Build, sh []Share) (string, error) {
		h, err := head(b)
		if err != nil {
			return "", err
		}
		return hx(ser(h, func(j int) []byte { return btcScriptSig(sh[j]) })), nil
	}
	return dig, fin
}

// xVollar is the reference for vollar: a digest over hashes of the parts.
func xVollar(x *xTx) (refDigestFn, func(b *Build, sh []Share) (string, error)) {
	outs := []byte{}
	for _, o := range x.Outs {
		outs = cat(outs, le64(o.Amount), []byte{0}, varbytes(o.Script), make([]byte, 32))
	}
	var prev, seq []byte
	for _, in := range x.Ins {
		prev = cat(prev, rev(in.TxID), le32(in.Vout))
		seq = cat(seq, []byte{255, 255, 255, 255})
	}
	dig := func(b *Build) ([][]byte, error) {
		var d [][]byte
		for _, in := range x.Ins {
			d = append(d, dsha(cat(dsha(prev), dsha(seq), dsha(outs), make([]byte, 64), make([]byte, 4+4+8), le32(1),
				rev(in.TxID), le32(in.Vout), varbytes(in.Lock), []byte{255, 255, 255, 255})))
		}
		return d, nil
	}
	fin := func(b *Build, sh []Share) (string, error) {
		t := cat(le32(1), []byte{0}, compact(len(x.Ins)))
		for i, in := range x.Ins {
			t = cat(t, rev(in.TxID), le32(in.Vout), btcScriptSig(sh[i]), []byte{255, 255, 255, 255})
		}
		return hx(cat(t, compact(len(x.Outs)), outs, make([]byte, 82+len(x.Ins)))), nil
	}
	return dig, fin
}

func (c *Cer) useRef(dig refDigestFn, fin func(b *Build, sh []Share) (string, error), bound bool) {
	c.CheckDigests = digestsEqual(dig)
	c.Want = func(b *Build, sh []Share) (string, error) {
		d, err := dig(b)
		if err != nil {
			return "", err
		}
		if err := c.sharesValid(d, sh, bound); err != nil {
			return "", err
		}
		return fin(b, sh)
	}
}

var errRefused = errors.New("verification failed")

func vergeGen(r *Run, g *Pool) *Cer {
	x, keys := genXTx(r, g, []byte{0x1e}, []byte{0x21})
	c := &Cer{Drv: "verge", Keys: keys, Desc: x.desc()}
	c.Create = func() (string, []string, error) {
		var ins []xvg.Vin
		for _, in := range x.Ins {
			ins = append(ins, xvg.Vin{TxID: hx(in.TxID), Vout: in.Vout, LockScript: hx(in.Lock)})
		}
		var outs []xvg.Vout
		for _, o := range x.Outs {
			outs = append(outs, xvg.Vout{Address: at(o.Addr), Amount: o.Amount})
		}
		return xvg.CreateEmptyTransactionAndHash(lendS(ins), lendS(outs), x.Lock, x.Interval)
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := xvg.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []xvg.SigPub
		for _, s := range sh {
			sp = append(sp, xvg.SigPub{Pubkey: lend(unhex(s.Pub)), Signature: lend(unhex(s.Sig))})
		}
		ok, f, err := xvg.VerifyAndCombineTransaction(e, lendS(sp))
		returned()
		if err == nil && !ok {
			err = errRefused
		}
		return f, err
	}
	dig, fin := xLegacy(x, true)
	c.useRef(dig, fin, true)
	return c
}

func aliencoinGen(r *Run, g *Pool) *Cer {
	x, keys := genXTx(r, g, []byte{0x17}, []byte{0x30})
	c := &Cer{Drv: "aliencoin", Keys: keys, Desc: x.desc()}
	c.Create = func() (string, []string, error) {
		var ins []ali.Vin
		for _, in := range x.Ins {
			ins = append(ins, ali.Vin{TxID: hx(in.TxID), Vout: in.Vout, LockScript: hx(in.Lock)})
		}
		var outs []ali.Vout
		for _, o := range x.Outs {
			outs = append(outs, ali.Vout{Address: at(o.Addr), Amount: o.Amount})
		}
		return ali.CreateEmptyTransactionAndHash(lendS(ins), lendS(outs), x.Lock)
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := ali.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []ali.SigPub
		for _, s := range sh {
			sp = append(sp, ali.SigPub{Pubkey: lend(unhex(s.Pub)), Signature: lend(unhex(s.Sig))})
		}
		ok, f, err := ali.VerifyAndCombineTransaction(e, lendS(sp))
		returned()
		if err == nil && !ok {
			err = errRefused
		}
		return f, err
	}
	dig, fin := xLegacy(x, false)
	c.useRef(dig, fin, true)
	return c
}

func vollarGen(r *Run, g *Pool) *Cer {
	x, keys := genXTx(r, g, []byte{0x10, 0x1c}, []byte{0x10, 0x41})
	c := &Cer{Drv: "vollar", Keys: keys, Desc: x.desc()}
	c.Create = func() (string, []string, error) {
		var ins []vol.Vin
		for _, in := range x.Ins {
			ins = append(ins, vol.Vin{TxID: hx(in.TxID), Vout: in.Vout, LockScript: hx(in.Lock)})
		}
		var outs []vol.Vout
		for _, o := range x.Outs {
			outs = append(outs, vol.Vout{Address: at(o.Addr), Amount: o.Amount})
		}
		return vol.CreateEmptyRawTransactionAndHash(lendS(ins), lendS(outs))
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := vol.SignRawTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []vol.SigPub
		for _, s := range sh {
			sp = append(sp, vol.SigPub{Pubkey: lend(unhex(s.Pub)), Signature: lend(unhex(s.Sig))})
		}
		ok, f, err := vol.VerifyAndCombineRawTransaction(e, lendS(sp))
		returned()
		if err == nil && !ok {
			err = errRefused
		}
		return f, err
	}
	dig, fin := xVollar(x)
	c.useRef(dig, fin, true)
	return c
}
