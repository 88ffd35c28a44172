//go:build go1.18

package main

import (
	"bytes"
	"errors"
	"fmt"

	hyp "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mate "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	"github.com/blocktree/go-owcrypt"
)

func blake256(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_BLAKE256) }
func ripemd(b []byte) []byte   { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_RIPEMD160) }

func hyperAddr(h []byte) string {
	p := cat([]byte{0x09, 0x7f}, h)
	return base58(cat(p, blake256(blake256(p))[:4]), b58std)
}

type hyperIn struct {
	Amount        uint64
	Height, Index uint32
}

func hypercashGen(r *Run, g *Pool) *Cer {
	t := r.T
	x, keys := genXTx(r, g, []byte{0}, []byte{5})
	var exp uint32
	if t.Chance(1, 2) {
		exp = uint32(t.Amount(0xffffffff))
	}
	extra := make([]hyperIn, len(x.Ins))
	for i := range x.Ins {
		extra[i] = hyperIn{t.Amount(1<<63 - 1), uint32(t.Amount(0xffffffff)), uint32(t.Amount(0xffffffff))}
		x.Ins[i].Lock = p2pkhScript(ripemd(blake256(keys[i].Pub)))
	}
	for i := range x.Outs {
		h := g.Bytes("outhash", 20)
		x.Outs[i].Addr, x.Outs[i].Script = hyperAddr(h), p2pkhScript(h)
	}
	omni := t.Chance(1, 4)
	var pid uint32
	var oamt uint64
	if omni {
		pid, oamt = uint32(t.Amount(0xffffffff)), t.Amount(1<<64-1)
		if len(x.Outs) > 2 {
			x.Outs = x.Outs[:2]
		}
	}
	var outs []xOut
	for i, o := range x.Outs {
		outs = append(outs, o)
		if omni && i == 0 {
			pay := cat([]byte("omni"), make([]byte, 4), be32(pid), be64(oamt))
			outs = append(outs, xOut{Script: cat([]byte{0x6a}, varbytes(pay))})
		}
	}
	c := &Cer{Drv: "hypercash", Keys: keys, Desc: fmt.Sprintf("%s expiry=%d omni=%v/%d/%d", x.desc(), exp, omni, pid, oamt)}
	c.Create = func() (string, []string, error) {
		var ins []hyp.Vin
		for i, in := range x.Ins {
			ins = append(ins, hyp.Vin{TxID: hx(in.TxID), Vout: in.Vout, Amount: extra[i].Amount, LockScript: hx(in.Lock), BlockHeight: extra[i].Height, BlockIndex: extra[i].Index})
		}
		var vo []hyp.Vout
		for _, o := range x.Outs {
			vo = append(vo, hyp.Vout{Amount: o.Amount, Address: at(o.Addr)})
		}
		if omni {
			var ch *hyp.Vout
			if len(vo) > 1 {
				ch = &vo[1]
			}
			return hyp.CreateOmniEmptyTransactionAndHash(lendS(ins), lendP(&vo[0]), lendP(ch), oamt, pid, x.Lock, exp)
		}
		return hyp.CreateEmptyTransactionAndHash(lendS(ins), lendS(vo), x.Lock, exp)
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := hyp.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []*hyp.SigPub
		for _, s := range sh {
			sp = append(sp, &hyp.SigPub{PublicKey: lend(unhex(s.Pub)), Signature: lend(unhex(s.Sig))})
		}
		ok, f := hyp.VerifyAndCombineTransaction(e, lendS(sp))
		returned()
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	prefix := func(ser uint16) []byte {
		b := cat(le16(1), le16(ser), compact(len(x.Ins)))
		for _, in := range x.Ins {
			b = cat(b, rev(in.TxID), le32(in.Vout), []byte{0, 255, 255, 255, 255})
		}
		b = cat(b, compact(len(outs)))
		for _, o := range outs {
			b = cat(b, le64(o.Amount), le16(0), varbytes(o.Script))
		}
		return cat(b, le32(x.Lock), le32(exp))
	}
	dig := func(b *Build) ([][]byte, error) {
		var d [][]byte
		for i, in := range x.Ins {
			w := cat(le16(1), le16(3), compact(len(x.Ins)))
			for j := range x.Ins {
				if j == i {
					w = cat(w, varbytes(in.Lock))
				} else {
					w = append(w, 0)
				}
			}
			d = append(d, blake256(cat(le32(1), blake256(prefix(1)), blake256(w))))
		}
		return d, nil
	}
	// the amount, height and index of a spent output are a hint for the network
	// that no signature covers: hostile runs compare without them
	fin := func(b *Build, sh []Share) (string, error) {
		f := cat(prefix(0), compact(len(sh)))
		for i := range sh {
			f = cat(f, le64(extra[i].Amount), le32(extra[i].Height), le32(extra[i].Index), btcScriptSig(sh[i]))
		}
		return hx(f), nil
	}
	c.useRef(dig, fin, true)
	c.SameFinal = func(final, want string) bool {
		if final == want {
			return true
		}
		if !g.hostile || len(final) != len(want) {
			return false
		}
		a, w := unhex(final), unhex(want)
		at := len(prefix(0)) + len(compact(len(x.Ins)))
		if len(a) != len(w) || !bytes.Equal(a[:at], w[:at]) {
			return false
		}
		for at < len(w) {
			n := at + 16
			e := n + 1 + int(w[n])
			if !bytes.Equal(a[n:e], w[n:e]) {
				return false
			}
			at = e
		}
		return true
	}
	digests := c.CheckDigests
	c.CheckDigests = func(b *Build) error {
		vins, err := hyp.GetVinList(b.Empty)
		if err != nil || len(vins) != len(x.Ins) {
			return &clsErr{"vin-list", fmt.Sprintf("GetVinList gives %d of %d inputs: %v", len(vins), len(x.Ins), err)}
		}
		for i, in := range x.Ins {
			if vins[i].TxID != hx(in.TxID) || vins[i].Vout != in.Vout {
				return &clsErr{"vin-list", fmt.Sprintf("GetVinList gives input %d as %s:%d", i, vins[i].TxID, vins[i].Vout)}
			}
		}
		return digests(b)
	}
	return c
}

// Mateverse: the node builds the unsigned transaction, the driver reads its
// inputs, hashes, signs and combines.
func mateverseGen(r *Run, g *Pool) *Cer {
	t := r.T
	x, keys := genXTx(r, g, []byte{0x32}, []byte{5})
	text := make([]string, len(x.Ins))
	seqs := make([]uint32, len(x.Ins))
	for i, in := range x.Ins {
		h := hash160(in.Key.Pub)
		text[i] = fmt.Sprintf("dup hash160 [ %x ] equalverify checksig", h)
		if t.Chance(1, 3) {
			d1 := t.Rng().Bytes(t.Range(1, 60))
			if t.Chance(1, 8) {
				d1 = t.Rng().Bytes(t.Range(150, 400))
			}
			d2 := cat(g.Bytes("txid", 32), le32(someVout(r)))
			text[i] = fmt.Sprintf("[ %x ] [ %x ] checkattenuationverify %s", d1, d2, text[i])
			x.Ins[i].Lock = cat([]byte{0x4d}, le16(uint16(len(d1))), d1, []byte{byte(len(d2))}, d2, []byte{0xb2}, p2pkhScript(h))
		}
		seqs[i] = 0xffffffff
		if t.Chance(1, 3) {
			seqs[i] = uint32(t.Amount(0xffffffff))
		}
	}
	ser := func(script func(i int) []byte) []byte {
		b := cat(le32(4), compact(len(x.Ins)))
		for i, in := range x.Ins {
			b = cat(b, rev(in.TxID), le32(in.Vout), script(i), le32(seqs[i]))
		}
		b = cat(b, compact(len(x.Outs)))
		for i, o := range x.Outs {
			att := []byte{1, 0, 0, 0, 0, 0, 0, 0}
			if i%3 == 2 {
				att = cat([]byte{2, 0, 0, 0, 1, 0, 0, 0}, varbytes([]byte("MST")), le64(o.Amount))
			}
			b = cat(b, le64(o.Amount), varbytes(o.Script), att)
		}
		return cat(b, le32(x.Lock))
	}
	empty := hx(ser(func(int) []byte { return []byte{0} }))
	c := &Cer{Drv: "mateverse", Keys: keys, Desc: x.desc()}
	load := func(e string) ([]*mate.TxInput, error) {
		ins, err := mate.GetInputsFromEmptyRawTransaction(e)
		if err != nil {
			return nil, err
		}
		for i, in := range ins {
			s := "unknown previous output"
			for j, want := range x.Ins {
				if in.GetTxID() == hx(want.TxID) && in.GetVout() == want.Vout {
					s = text[j]
					break
				}
			}
			if i < len(x.Ins) && s == "unknown previous output" && !g.hostile {
				return nil, fmt.Errorf("input %d read back as %s:%d", i, in.GetTxID(), in.GetVout())
			}
			in.SetLockScript(s)
		}
		return ins, mate.GetSigHash(e, &ins)
	}
	var mem []*mate.TxInput
	n := 0
	c.Create = func() (string, []string, error) {
		ins, err := load(empty)
		if err != nil {
			return "", nil, err
		}
		mem, n = ins, 0
		var d []string
		for _, in := range ins {
			d = append(d, in.GetHash())
		}
		return empty, d, nil
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := mate.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{s, hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		n++
		ins := mem // the wallet still has the inputs in memory
		if n%2 == 0 || len(mem) != len(sh) {
			var err error
			if ins, err = load(e); err != nil {
				return "", err
			}
		}
		if len(ins) < len(sh) {
			return "", errors.New("too many shares")
		}
		ins = ins[:len(sh)]
		for i, in := range ins {
			in.SetPubKey(sh[i].Pub)
			in.SetSignature(sh[i].Sig)
		}
		ok, f := mate.VerifyAndCombineTransaction(e, lendS(ins))
		returned()
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	dig := func(b *Build) ([][]byte, error) {
		var d [][]byte
		for i := range x.Ins {
			d = append(d, dsha(cat(ser(func(j int) []byte {
				if j == i {
					return varbytes(x.Ins[j].Lock)
				}
				return []byte{0}
			}), le32(1))))
		}
		return d, nil
	}
	fin := func(b *Build, sh []Share) (string, error) {
		return hx(ser(func(j int) []byte { return btcScriptSig(sh[j]) })), nil
	}
	c.useRef(dig, fin, true)
	return c
}
