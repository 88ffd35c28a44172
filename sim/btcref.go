//go:build go1.18

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
)

// Reference model for the Bitcoin-style drivers, from the Bitcoin protocol
// documentation, BIP143 (segregated witness digests), BIP125 and BIP199-style
// replay-protected outputs for Zen.

const (
	inP2PKH = iota
	inP2SHP2WPKH
	inP2WPKH
	inMulti    // P2SH m-of-n
	inMultiWit // P2SH-P2WSH m-of-n
)

type btcIn struct {
	TxID   []byte // as displayed
	Vout   uint32
	Kind   int
	Key    *Key
	Amount uint64
	Lock   []byte // scriptPubKey of the output spent
	Redeem []byte
	M      int
	Keys   []*Key
	Signer []int // which of Keys sign, ascending, len M
}

type btcOut struct {
	Addr   string
	Script []byte
	Amount uint64
}

type btcTx struct {
	Version uint32
	Ins     []btcIn
	Outs    []btcOut
	Lock    uint32
	RBF     bool
	ForkID  bool // BCH-style digests and hash type
}

func p2pkhScript(h []byte) []byte {
	return cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac})
}
func p2shScript(h []byte) []byte { return cat([]byte{0xa9, 0x14}, h, []byte{0x87}) }

func multiScript(m int, keys []*Key) []byte {
	b := []byte{byte(0x50 + m)}
	for _, k := range keys {
		b = cat(b, []byte{0x21}, k.Pub)
	}
	return append(b, byte(0x50+len(keys)), 0xae)
}

func (t *btcTx) seq() []byte {
	switch {
	case t.RBF:
		return le32(0xfffffffd)
	case t.Lock != 0:
		return le32(0xfffffffe)
	}
	return le32(0xffffffff)
}

func (t *btcTx) outs() []byte {
	var b []byte
	for _, o := range t.Outs {
		b = cat(b, le64(o.Amount), varbytes(o.Script))
	}
	return b
}

func (t *btcTx) hashType() byte {
	if t.ForkID {
		return 0x41
	}
	return 1
}

// digest is the hash the key of input i signs.
func (t *btcTx) digest(i int) []byte {
	in := t.Ins[i]
	if t.ForkID || in.Kind == inP2SHP2WPKH || in.Kind == inP2WPKH || in.Kind == inMultiWit {
		var prev, seqs []byte
		for _, x := range t.Ins {
			prev = cat(prev, rev(x.TxID), le32(x.Vout))
			seqs = cat(seqs, t.seq())
		}
		code := in.Lock
		switch in.Kind {
		case inP2SHP2WPKH, inP2WPKH:
			code = p2pkhScript(hash160(in.Key.Pub))
		case inMultiWit, inMulti:
			code = in.Redeem
		}
		return dsha(cat(le32(t.Version), dsha(prev), dsha(seqs), rev(in.TxID), le32(in.Vout), varbytes(code), le64(in.Amount), t.seq(), dsha(t.outs()), le32(t.Lock), le32(uint32(t.hashType()))))
	}
	b := cat(le32(t.Version), compact(len(t.Ins)))
	for j, x := range t.Ins {
		script := []byte{}
		if j == i {
			script = in.Lock
			if in.Kind == inMulti {
				script = in.Redeem
			}
		}
		b = cat(b, rev(x.TxID), le32(x.Vout), varbytes(script), t.seq())
	}
	return dsha(cat(b, compact(len(t.Outs)), t.outs(), le32(t.Lock), le32(uint32(t.hashType()))))
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) take(n int) []byte {
	if r.err != nil {
		return nil
	}
	if n < 0 || n > len(r.b) {
		r.err = errors.New("short")
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) u8() int {
	x := r.take(1)
	if x == nil {
		return 0
	}
	return int(x[0])
}

func (r *rd) compact() int {
	switch n := r.u8(); n {
	case 0xfd:
		x := r.take(2)
		if x == nil {
			return 0
		}
		v := int(x[0]) | int(x[1])<<8
		if v < 0xfd {
			r.err = errors.New("non-canonical size")
		}
		return v
	case 0xfe, 0xff:
		r.err = errors.New("size too large")
		return 0
	default:
		return n
	}
}

func (r *rd) expect(what string, b []byte) {
	x := r.take(len(b))
	if r.err == nil && !bytes.Equal(x, b) {
		r.err = fmt.Errorf("%s is %x, want %x", what, x, b)
	}
}

func pushItems(b []byte) ([][]byte, error) {
	var items [][]byte
	r := rd{b: b}
	for len(r.b) > 0 && r.err == nil {
		op := r.u8()
		n := op
		switch {
		case op == 0:
			items = append(items, []byte{})
			continue
		case op <= 75:
		case op == 0x4c:
			n = r.u8()
			if n <= 75 {
				return nil, errors.New("non-minimal push")
			}
		case op == 0x4d:
			x := r.take(2)
			if x == nil {
				return nil, errors.New("short push")
			}
			n = int(x[0]) | int(x[1])<<8
			if n <= 255 {
				return nil, errors.New("non-minimal push")
			}
		default:
			return nil, fmt.Errorf("opcode %02x in input script", op)
		}
		items = append(items, r.take(n))
	}
	return items, r.err
}

func (t *btcTx) checkSig(i int, k *Key, item []byte) error {
	if len(item) < 9 || item[len(item)-1] != t.hashType() {
		return fmt.Errorf("input %d: bad signature item %x", i, item)
	}
	rs, err := parseDER(item[:len(item)-1])
	if err != nil {
		return fmt.Errorf("input %d: %v: %x", i, err, item)
	}
	if !refVerify(k1, k.Pub, t.digest(i), rs) {
		return fmt.Errorf("input %d: signature not valid for the intended transaction and key", i)
	}
	return nil
}

func (t *btcTx) checkUnlock(i int, items [][]byte) error {
	in := t.Ins[i]
	if in.Kind == inMulti || in.Kind == inMultiWit {
		if len(items) != in.M+2 || len(items[0]) != 0 {
			return fmt.Errorf("input %d: %d stack items for %d signatures", i, len(items), in.M)
		}
		if !bytes.Equal(items[len(items)-1], in.Redeem) {
			return fmt.Errorf("input %d: wrong redeem script", i)
		}
		kj := 0
		for s := 1; s <= in.M; s++ {
			ok := false
			for ; kj < len(in.Keys) && !ok; kj++ {
				ok = t.checkSig(i, in.Keys[kj], items[s]) == nil
			}
			if !ok {
				return fmt.Errorf("input %d: signature %d of %d is not by a further listed key, in order", i, s, in.M)
			}
		}
		return nil
	}
	if len(items) != 2 {
		return fmt.Errorf("input %d: %d stack items", i, len(items))
	}
	if !bytes.Equal(items[1], in.Key.Pub) {
		k := *in.Key
		k.Pub = items[1]
		cls := "wrong-key"
		if t.checkSig(i, &k, items[0]) == nil {
			cls = "stranger-key"
		}
		return &clsErr{cls, fmt.Sprintf("input %d: public key %x, owner's is %x", i, items[1], in.Key.Pub)}
	}
	return t.checkSig(i, in.Key, items[0])
}

// checkFinal parses the network serialisation and compares it with the intent.
func (t *btcTx) checkFinal(final string) error {
	b := unhex(final)
	if b == nil {
		return errors.New("final transaction is not hex")
	}
	r := &rd{b: b}
	r.expect("version", le32(t.Version))
	wit := false
	for _, in := range t.Ins {
		if in.Kind == inP2SHP2WPKH || in.Kind == inP2WPKH || in.Kind == inMultiWit {
			wit = true
		}
	}
	if wit {
		r.expect("segwit marker", []byte{0, 1})
	}
	r.expect("input count", compact(len(t.Ins)))
	for i, in := range t.Ins {
		r.expect(fmt.Sprintf("input %d txid", i), rev(in.TxID))
		r.expect(fmt.Sprintf("input %d vout", i), le32(in.Vout))
		script := r.take(r.compact())
		if r.err != nil {
			break
		}
		switch in.Kind {
		case inP2PKH, inMulti:
			items, err := pushItems(script)
			if err != nil {
				return err
			}
			if err := t.checkUnlock(i, items); err != nil {
				return err
			}
		case inP2SHP2WPKH:
			want := cat([]byte{0x16, 0, 0x14}, hash160(in.Key.Pub))
			if !bytes.Equal(script, want) {
				return fmt.Errorf("input %d script %x, want %x", i, script, want)
			}
		case inP2WPKH:
			if len(script) != 0 {
				return fmt.Errorf("input %d script %x, want none", i, script)
			}
		case inMultiWit:
			want := cat([]byte{0x22, 0, 0x20}, sha(in.Redeem))
			if !bytes.Equal(script, want) {
				return fmt.Errorf("input %d script %x, want %x", i, script, want)
			}
		}
		r.expect(fmt.Sprintf("input %d sequence", i), t.seq())
	}
	r.expect("output count", compact(len(t.Outs)))
	r.expect("outputs", t.outs())
	if wit && r.err == nil {
		for i, in := range t.Ins {
			n := r.compact()
			var items [][]byte
			for j := 0; j < n && r.err == nil; j++ {
				items = append(items, r.take(r.compact()))
			}
			if r.err != nil {
				break
			}
			if in.Kind == inP2PKH || in.Kind == inMulti {
				if n != 0 {
					return fmt.Errorf("input %d has %d witness items", i, n)
				}
				continue
			}
			if err := t.checkUnlock(i, items); err != nil {
				return err
			}
		}
	}
	r.expect("lock time", le32(t.Lock))
	if r.err == nil && len(r.b) != 0 {
		return fmt.Errorf("%d bytes after the transaction", len(r.b))
	}
	return r.err
}

// cashAddr is the mainnet CashAddr of a 20-byte public key hash (BCH spec).
func cashAddr(h []byte) string { return cashAddrT(0, h) }

func cashPolymod(d []byte) uint64 {
	hrp := "bitcoincash"
	var v []byte
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]&31)
	}
	v = append(v, 0)
	v = append(v, d...)
	c := uint64(1)
	for _, x := range v {
		c0 := byte(c >> 35)
		c = (c&0x07ffffffff)<<5 ^ uint64(x)
		for i, g := range []uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470} {
			if c0>>uint(i)&1 == 1 {
				c ^= g
			}
		}
	}
	return c ^ 1
}

// cashValid: the checksum of the text holds. Like bech32's it does not notice
// a q before a final p.
func cashValid(s string) bool {
	s = strings.ToLower(s)
	if !strings.HasPrefix(s, "bitcoincash:") {
		return false
	}
	var v []byte
	for _, c := range s[12:] {
		k := strings.IndexRune(b32alpha, c)
		if k < 0 {
			return false
		}
		v = append(v, byte(k))
	}
	return cashPolymod(v) == 0
}

func cashAddrT(typ byte, h []byte) string {
	d := to5(append([]byte{typ << 3}, h...))
	c := cashPolymod(append(append([]byte{}, d...), make([]byte, 8)...))
	out := ""
	for _, x := range d {
		out += string(b32alpha[x])
	}
	for i := 0; i < 8; i++ {
		out += string(b32alpha[c>>uint(5*(7-i))&31])
	}
	return out
}

// clsErr is a reference-model complaint with a class of its own.
type clsErr struct{ cls, msg string }

func (e *clsErr) Error() string { return e.msg }

func errClass(e error) string {
	if c, ok := e.(*clsErr); ok {
		return ":" + c.cls
	}
	return ""
}
