//go:build go1.18

package main

import (
	"bytes"
	stdb64 "encoding/base64"
	"fmt"
	"hash"
	"hash/crc32"
	"strings"
	"unicode/utf8"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	bb32pm "github.com/blocktree/go-owcdrivers/addressEncoder/base32PolyMod"
	bb32 "github.com/blocktree/go-owcdrivers/addressEncoder/bech32"
	bb32m "github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	bl256 "github.com/blocktree/go-owcdrivers/addressEncoder/blake256"
	ali "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	like "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	btm "github.com/blocktree/go-owcdrivers/bytomTransaction"
	atom "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	ela "github.com/blocktree/go-owcdrivers/elastosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	fn "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hyp "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	ow "github.com/blocktree/go-owcdrivers/owkeychain"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	xvg "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vol "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wicc "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
)

// letter is a piece of data written as text by one node for another.
type letter struct {
	codec   string
	format  string // letters of one format can be read by any codec of it
	what    string // arguments
	write   func() string
	want    string                       // the text the format defines
	read    func(string) (string, error) // canonical account of what was read
	meaning string                       // what reading the text has to give
	// strict: any other text is refused or means the same. Otherwise reading
	// another text has to give what again tells, or an error.
	strict   bool
	again    func(string) (string, bool)
	collides func(string) bool // texts the format itself cannot tell from a good one
}

type b58pair struct {
	name string
	enc  func([]byte, string) string
	dec  func(string, string) ([]byte, error)
}

func b58of[A any](name string, mk func(string) *A, enc func([]byte, *A) string, dec func(string, *A) ([]byte, error)) b58pair {
	return b58pair{name,
		func(b []byte, a string) string { return enc(b, mk(a)) },
		func(s, a string) ([]byte, error) { return dec(s, mk(a)) }}
}

var b58s = []b58pair{
	b58of("addressEncoder", ae.NewBase58Alphabet, ae.Base58Encode, ae.Base58Decode),
	b58of("aliencoinTransaction", ali.NewAlphabet, ali.Encode, ali.Decode),
	b58of("bitcoincashTransaction", bch.NewAlphabet, bch.Encode, bch.Decode),
	b58of("bitcoinsvTransaction", bsv.NewAlphabet, bsv.Encode, bsv.Decode),
	b58of("btcLikeTxDriver", like.NewAlphabet, like.Encode, like.Decode),
	b58of("btcTransaction", btc.NewAlphabet, btc.Encode, btc.Decode),
	b58of("cxcTransaction", cxc.NewAlphabet, cxc.Encode, cxc.Decode),
	b58of("elastosTransaction", ela.NewAlphabet, ela.Encode, ela.Decode),
	b58of("fiiiTransaction", fiii.NewAlphabet, fiii.Encode, fiii.Decode),
	b58of("filenetTransaction", fn.NewAlphabet, fn.Encode, fn.Decode),
	b58of("hcTransaction", hc.NewAlphabet, hc.Encode, hc.Decode),
	b58of("hypercashTransaction", hyp.NewAlphabet, hyp.Encode, hyp.Decode),
	b58of("omniTransaction", omni.NewAlphabet, omni.Encode, omni.Decode),
	b58of("ontologyTransaction", ont.NewAlphabet, ont.Encode, ont.Decode),
	b58of("owkeychain", ow.NewAlphabet, ow.Encode, ow.Decode),
	b58of("rippleTransaction", xrp.NewAlphabet, xrp.Encode, xrp.Decode),
	b58of("vergeTransaction", xvg.NewAlphabet, xvg.Encode, xvg.Decode),
	b58of("virtualeconomyTransaction", vsys.NewAlphabet, vsys.Encode, vsys.Decode),
	b58of("vollarTransaction", vol.NewAlphabet, vol.Encode, vol.Decode),
	b58of("waykichainTransaction", wicc.NewAlphabet, wicc.Encode, wicc.Decode),
	b58of("zencashTransaction", zen.NewAlphabet, zen.Encode, zen.Decode),
}

func alphabet(t *Tape, n int) string {
	rg := t.Rng()
	switch t.Intn(5) {
	case 0, 1:
		if n == 58 {
			return b58std
		}
		return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	case 2:
		if n == 58 {
			return b58ripple
		}
	}
	var al []byte
	for c := byte(33); c < 127; c++ {
		if c != '=' {
			al = append(al, c)
		}
	}
	for i := range al {
		j := i + rg.Intn(len(al)-i)
		al[i], al[j] = al[j], al[i]
	}
	return string(al[:n])
}

func oddBytes(t *Tape, max int) []byte {
	rg := t.Rng()
	n := rg.Intn(max + 1)
	b := rg.Bytes(n)
	switch t.Intn(6) {
	case 1:
		for i := 0; i < n/2; i++ {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0
		}
	case 3:
		for i := range b {
			b[i] = 0xff
		}
	case 4:
		if n > 0 {
			b[0] = 0
		}
	}
	return b
}

func show(b []byte, err error) (string, error) {
	if err != nil {
		return "", err
	}
	return hx(b), nil
}

type checkPair struct {
	name   string
	sum    func([]byte) []byte
	plen   [2]int
	hlen   [2]int
	enc    func(p, h []byte) string
	dec    func(s string, p []byte) (string, error)
	joined bool // the account does not tell prefix and payload apart
}

func manyPrefix(name string, enc func([]byte, []byte) string, dec func(string) ([]byte, []byte, error)) checkPair {
	return checkPair{name: name, plen: [2]int{0, 6}, hlen: [2]int{20, 20}, enc: enc, dec: func(s string, _ []byte) (string, error) {
		p, h, err := dec(s)
		if err != nil {
			return "", err
		}
		return hx(p) + " " + hx(h), nil
	}}
}

func onePrefix(name string, enc func(byte, []byte) string, dec func(string) (byte, []byte, error)) checkPair {
	return checkPair{name: name, plen: [2]int{1, 1}, hlen: [2]int{0, 70},
		enc: func(p, h []byte) string { return enc(p[0], h) },
		dec: func(s string, _ []byte) (string, error) {
			p, h, err := dec(s)
			if err != nil {
				return "", err
			}
			return hx([]byte{p}) + " " + hx(h), nil
		}}
}

func twoBlake(b []byte) []byte                       { return blake256(blake256(b)) }
func vsysSum(b []byte) []byte                        { return keccak(blake2b(b)) }
func only(h []byte, e error) ([]byte, []byte, error) { return nil, h, e }

var checkPairs = []checkPair{
	manyPrefix("bitcoincashTransaction", bch.EncodeCheck, bch.DecodeCheck),
	manyPrefix("bitcoinsvTransaction", bsv.EncodeCheck, bsv.DecodeCheck),
	manyPrefix("btcTransaction", btc.EncodeCheck, btc.DecodeCheck),
	manyPrefix("cxcTransaction", cxc.EncodeCheck, cxc.DecodeCheck),
	manyPrefix("elastosTransaction", ela.EncodeCheck, ela.DecodeCheck),
	manyPrefix("hcTransaction", hc.EncodeCheck, hc.DecodeCheck),
	manyPrefix("omniTransaction", omni.EncodeCheck, omni.DecodeCheck),
	manyPrefix("vollarTransaction", vol.EncodeCheck, vol.DecodeCheck),
	manyPrefix("waykichainTransaction", wicc.EncodeCheck, wicc.DecodeCheck),
	manyPrefix("zencashTransaction", zen.EncodeCheck, zen.DecodeCheck),
	onePrefix("aliencoinTransaction", ali.EncodeCheck, ali.DecodeCheck),
	onePrefix("btcLikeTxDriver", like.EncodeCheck, like.DecodeCheck),
	onePrefix("ontologyTransaction", ont.EncodeCheck, ont.DecodeCheck),
	onePrefix("vergeTransaction", xvg.EncodeCheck, xvg.DecodeCheck),
	{name: "fiiiTransaction", plen: [2]int{0, 6}, hlen: [2]int{20, 20}, enc: fiii.EncodeCheck,
		dec: func(s string, p []byte) (string, error) {
			h, err := fiii.DecodeCheck(s, p)
			return hx(p) + " " + hx(h), err
		}},
	{name: "owkeychain", plen: [2]int{0, 8}, hlen: [2]int{0, 90}, enc: func(p, h []byte) string { return ow.Base58checkEncode(h, p) },
		dec: func(s string, p []byte) (string, error) {
			h, err := ow.Base58checkDecode(s, p)
			return hx(p) + " " + hx(h), err
		}},
}

func init() {
	h := manyPrefix("hypercashTransaction", hyp.EncodeCheck, hyp.DecodeCheck)
	h.sum = twoBlake
	v := checkPair{name: "virtualeconomyTransaction", plen: [2]int{1, 1}, hlen: [2]int{0, 70}, joined: true, sum: vsysSum,
		enc: func(p, h []byte) string { return vsys.EncodeCheck(p[0], h) },
		dec: func(s string, _ []byte) (string, error) { return show(vsys.DecodeCheck(s)) }}
	checkPairs = append(checkPairs, h, v)
	for i := range checkPairs {
		if checkPairs[i].sum == nil {
			checkPairs[i].sum = dsha
		}
	}
}

type b32pair struct {
	name    string
	version []byte
	enc     func(hrp string, p []byte) string
	dec     func(string) ([]byte, error)
	lens    []int
}

var b32s = []b32pair{
	{"btcTransaction", []byte{0}, func(h string, p []byte) string { return btc.Bech32Encode(h, b32alpha, p) }, btc.Bech32Decode, []int{20, 32}},
	{"btcLikeTxDriver", []byte{0}, func(h string, p []byte) string { return like.Bech32Encode(h, b32alpha, p) }, like.Bech32Decode, []int{20, 32}},
	{"cxcTransaction", []byte{0}, func(h string, p []byte) string { return cxc.Bech32Encode(h, b32alpha, p) }, cxc.Bech32Decode, []int{20, 32}},
	{"hcTransaction", []byte{0}, func(h string, p []byte) string { return hc.Bech32Encode(h, b32alpha, p) }, hc.Bech32Decode, []int{20, 32}},
	{"omniTransaction", []byte{0}, func(h string, p []byte) string { return omni.Bech32Encode(h, b32alpha, p) }, omni.Bech32Decode, []int{20, 32}},
	{"zencashTransaction", []byte{0}, func(h string, p []byte) string { return zen.Bech32Encode(h, b32alpha, p) }, zen.Bech32Decode, []int{20, 32}},
	{"addressEncoder/bech32", []byte{0}, func(h string, p []byte) string { return bb32.Encode(h, b32alpha, p, lend([]byte{0})) }, func(s string) ([]byte, error) { return bb32.Decode(s, b32alpha) }, []int{20, 32}},
	{"addressEncoder/bech32", nil, func(h string, p []byte) string { return bb32.Encode(h, b32alpha, p, nil) }, func(s string) ([]byte, error) { return bb32.Decode(s, b32alpha) }, []int{20}},
	{"cosmosTransaction", nil, func(h string, p []byte) string { return atom.Bech32Encode(h, b32alpha, p) }, atom.Bech32Decode, []int{20}},
	{"evaioTransaction", nil, func(h string, p []byte) string { return eva.Bech32Encode(h, b32alpha, p) }, eva.Bech32Decode, []int{20}},
}

// regroup is the reference for bit regrouping.
func regroup(b []byte, from, to uint) []byte {
	var out []byte
	acc, n := uint(0), uint(0)
	for _, x := range b {
		for i := int(from) - 1; i >= 0; i-- {
			acc = acc<<1 | uint(x>>uint(i))&1
			if n++; n == to {
				out = append(out, byte(acc))
				acc, n = 0, 0
			}
		}
	}
	if n > 0 {
		out = append(out, byte(acc<<(to-n)))
	}
	return out
}

func drawHRP(t *Tape) string {
	rg := t.Rng()
	if t.Chance(1, 2) {
		return []string{"bc", "tb", "cosmos", "eva", "bnb", "ltc", "bm"}[t.Intn(7)]
	}
	n := 1 + rg.Intn(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(rg.Intn(26))
	}
	return string(b)
}

var letterKinds = []func(r *Run) *letter{
	func(r *Run) *letter { // base58
		t := r.T
		e, d := b58s[t.Intn(len(b58s))], b58s[t.Intn(len(b58s))]
		al := alphabet(t, 58)
		b := oddBytes(t, 90)
		return &letter{codec: e.name + ".Encode", format: "base58", what: fmt.Sprintf("%x %s read by %s", b, al, d.name),
			write: func() string { return e.enc(lend(b), al) }, want: base58(b, al),
			read: func(s string) (string, error) { return show(d.dec(s, al)) }, meaning: hx(b),
			again: func(s string) (string, bool) {
				if !utf8.ValidString(s) {
					return "", false
				}
				x, err := unbase58(s, al)
				return hx(x), err == nil
			}}
	},
	func(r *Run) *letter { // base58 with checksum
		t := r.T
		e := checkPairs[t.Intn(len(checkPairs))]
		rg := t.Rng()
		p := oddBytes(t, e.plen[1])
		for len(p) < e.plen[0] {
			p = append(p, 0)
		}
		h := rg.Bytes(e.hlen[0])
		if e.hlen[1] > e.hlen[0] {
			h = oddBytes(t, e.hlen[1])
		} else if t.Chance(1, 3) {
			h[0], h[1] = 0, 0
		}
		b := cat(p, h)
		m := hx(p) + " " + hx(h)
		if e.joined {
			m = hx(cat(b, e.sum(b)[:4]))
		}
		return &letter{codec: e.name + ".EncodeCheck", format: "base58check", what: fmt.Sprintf("%x %x", p, h),
			write: func() string { return e.enc(lend(p), lend(h)) }, want: base58(cat(b, e.sum(b)[:4]), b58std),
			read: func(s string) (string, error) { return e.dec(s, lend(p)) }, meaning: m, strict: true}
	},
	func(r *Run) *letter { // address readers that want one prefix
		t := r.T
		h := t.Rng().Bytes(20)
		var pre byte
		var read func(string) ([]byte, error)
		var name string
		m := hx(h)
		switch t.Intn(3) {
		case 0:
			pre, name = 0x21, "elastosTransaction.GetProgramHashFromAddress"
			read = ela.GetProgramHashFromAddress
			m = "21" + m
		case 1:
			pre, name = 0x49, "waykichainTransaction.GetProgramHashFromAddress"
			read = wicc.GetProgramHashFromAddress
		case 2:
			name = "rippleTransaction.GetProgramHashFromAddress"
			read = xrp.GetProgramHashFromAddress
			b := cat([]byte{0}, h)
			return &letter{codec: name, format: "base58check", what: m, write: func() string { return base58(cat(b, dsha(b)[:4]), b58ripple) }, want: base58(cat(b, dsha(b)[:4]), b58ripple),
				read: func(s string) (string, error) { return show(read(s)) }, meaning: m, strict: true}
		}
		x := b58check([]byte{pre}, h)
		return &letter{codec: name, format: "base58check", what: m, write: func() string { return x }, want: x, read: func(s string) (string, error) { return show(read(s)) }, meaning: m, strict: true}
	},
	func(r *Run) *letter { // bech32
		t := r.T
		e := b32s[t.Intn(len(b32s))]
		var ds []b32pair
		for _, d := range b32s {
			if len(d.version) == len(e.version) {
				ds = append(ds, d)
			}
		}
		d := ds[t.Intn(len(ds))]
		p := t.Rng().Bytes(e.lens[t.Intn(len(e.lens))])
		if t.Chance(1, 4) {
			for i := range p {
				p[i] = []byte{0, 0xff}[i%2]
			}
		}
		hrp := drawHRP(t)
		return &letter{codec: e.name + ".Bech32Encode", format: "bech32", what: fmt.Sprintf("%s %x read by %s", hrp, p, d.name),
			write: func() string { return e.enc(hrp, lend(p)) }, want: bech32enc(hrp, cat(e.version, to5(p)), 1),
			read: func(s string) (string, error) { return show(d.dec(s)) }, meaning: hx(p), strict: true, collides: bech32Valid}
	},
	func(r *Run) *letter { // bytom's and bech32m's five-bit interface
		t := r.T
		hrp := drawHRP(t)
		d := t.Rng().Bytes(t.Intn(60))
		for i := range d {
			d[i] &= 31
		}
		if len(hrp)+len(d) > 80 {
			d = d[:60]
		}
		l := &letter{format: "bech32", what: fmt.Sprintf("%s %x", hrp, d), meaning: hrp + " " + hx(d), strict: true, collides: bech32Valid}
		if t.Chance(1, 2) {
			l.codec = "bytomTransaction.Bech32Encode"
			l.want = bech32enc(hrp, d, 1)
			l.write = func() string {
				s, err := btm.Bech32Encode(hrp, lend(d))
				if err != nil {
					return "error: " + err.Error()
				}
				return s
			}
			l.read = func(s string) (string, error) {
				h, b, err := btm.Bech32Decode(s)
				return h + " " + hx(b), err
			}
			return l
		}
		spec := bb32m.Bech32
		konst := uint32(1)
		if t.Chance(1, 2) {
			spec, konst = bb32m.Bech32m, 0x2bc830a3
		}
		l.codec = "bech32m.Encode"
		l.what += fmt.Sprint(" ", spec)
		l.meaning += fmt.Sprint(" ", spec)
		l.want = bech32enc(hrp, d, konst)
		l.write = func() string { return bb32m.Encode(hrp, lend(d), spec, b32alpha) }
		l.read = func(s string) (string, error) {
			h, b, sp, err := bb32m.Decode(s, b32alpha)
			return h + " " + hx(b) + fmt.Sprint(" ", sp), err
		}
		return l
	},
	func(r *Run) *letter { // bech32m of bytes
		t := r.T
		hrp := drawHRP(t)
		d := oddBytes(t, 40)
		return &letter{codec: "bech32m.Bech32mEncode", format: "bech32m", what: fmt.Sprintf("%s %x", hrp, d), meaning: hx(d), strict: true, collides: bech32Valid,
			want: bech32enc(hrp, to5(d), 0x2bc830a3),
			write: func() string {
				s, err := bb32m.Bech32mEncode(hrp, lend(d), b32alpha)
				if err != nil {
					return "error: " + err.Error()
				}
				return s
			},
			read: func(s string) (string, error) { return show(bb32m.Bech32mDecode(s, hrp, b32alpha)) }}
	},
	func(r *Run) *letter { // cash addresses
		p := r.T.Rng().Bytes(21)
		p[0] &= 1
		return &letter{codec: "base32PolyMod.Encode", format: "cashaddr", what: hx(p), meaning: hx(cat([]byte{p[0] << 3}, p[1:])), strict: true, collides: cashValid,
			want:  "bitcoincash:" + cashAddrT(p[0], p[1:]),
			write: func() string { return bb32pm.Encode("bitcoincash", b32alpha, lend(p)) },
			read:  func(s string) (string, error) { return show(bb32pm.Decode(s, b32alpha)) }}
	},
	func(r *Run) *letter { // base64
		t := r.T
		al := alphabet(t, 64)
		b := oddBytes(t, 100)
		std := stdb64.NewEncoding(al)
		return &letter{codec: "addressEncoder.Base64Encode", format: "base64", what: fmt.Sprintf("%x %s", b, al), meaning: hx(b),
			want:  std.EncodeToString(b),
			write: func() string { return ae.NewEncoding(al).Base64Encode(lend(b)) },
			read:  func(s string) (string, error) { return show(ae.NewEncoding(al).Base64Decode(s)) },
			again: func(s string) (string, bool) {
				x, err := std.DecodeString(s)
				return hx(x), err == nil
			}}
	},
	func(r *Run) *letter { // regrouped bits, there and back
		t := r.T
		b := oddBytes(t, 60)
		l := &letter{format: "bits", what: hx(b), meaning: hx(b), want: hx(regroup(b, 8, 5))}
		enc, dec := btm.ConvertBits, btm.ConvertBits
		l.codec = "bytomTransaction.ConvertBits"
		if t.Chance(1, 2) {
			l.codec = "bech32m.Convertbits"
			f := func(b []byte, x, y uint8, pad bool) ([]byte, error) {
				return bb32m.Convertbits(b, uint(x), uint(y), pad)
			}
			enc, dec = f, f
		}
		l.write = func() string {
			x, err := enc(lend(b), 8, 5, true)
			if err != nil {
				return "error: " + err.Error()
			}
			return hx(x)
		}
		l.read = func(s string) (string, error) { return show(dec(lend(unhex(s)), 5, 8, false)) }
		return l
	},
	func(r *Run) *letter { // compact numbers
		t := r.T
		v := t.Amount(1<<64 - 1)
		if t.Chance(1, 20) {
			v = 0
		}
		l := &letter{codec: "polkadotTransaction.Encode", format: "compact", what: fmt.Sprint(v), want: hx(scale(v))}
		l.write = func() string { return dot.Encode(v) }
		if t.Chance(1, 4) {
			v &= 1<<30 - 1
			l = &letter{codec: "polkadotTransaction.CompactLength", format: "compact", what: fmt.Sprint(v), want: fmt.Sprint(len(scale(v)))}
			l.write = func() string { return fmt.Sprint(dot.CompactLength(uint32(v))) }
		}
		return l
	},
	func(r *Run) *letter { // little-endian padding
		t := r.T
		if t.Chance(1, 2) {
			v := t.Amount(1<<64 - 1)
			x := scale(v)
			var b []byte
			if len(x) <= 4 {
				b = le64(v)[:len(x)]
			} else {
				if v < 1<<32 {
					v = v | 1<<32
					x = scale(v)
				}
				b = x[1:]
			}
			return &letter{codec: "polkadotTransaction.BytesToCompactBytes", format: "compact", what: hx(b), want: hx(x),
				write: func() string { return keep(dot.BytesToCompactBytes(lend(b))) }}
		}
		b := oddBytes(t, 8)
		n := t.Range(len(b), len(b)+4)
		return &letter{codec: "polkadotTransaction.ExtendLEBytes", format: "compact", what: fmt.Sprintf("%x %d", b, n), want: hx(append(append([]byte{}, b...), make([]byte, n-len(b))...)),
			write: func() string { return keep(dot.ExtendLEBytes(lend(b), n)) }}
	},
	func(r *Run) *letter { // checksums and concatenation
		t := r.T
		b, c := oddBytes(t, 60), oddBytes(t, 10)
		switch t.Intn(4) {
		case 0:
			return &letter{codec: "addressEncoder.CRC32", format: "checksum", what: hx(b), want: hx(be32(crc32.ChecksumIEEE(b))), write: func() string { return keep(ae.CRC32(lend(b))) }}
		case 1:
			if t.Chance(1, 2) {
				c = nil
			}
			return &letter{codec: "addressEncoder.CatData", format: "checksum", what: fmt.Sprintf("%x %x", b, c), want: hx(cat(b, c)), write: func() string { return keep(ae.CatData(lend(b), lend(c))) }}
		case 2:
			ty := []string{"doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "ripemd160", "blake2b_and_keccak256_first_twenty"}[t.Intn(6)]
			a := &addrType{chk: ty}
			s := a.sum(b)
			bad := cat(b, s)
			flip := t.Intn(len(bad))
			bit := byte(1) << uint(t.Intn(8))
			return &letter{codec: "addressEncoder.CalcChecksum", format: "checksum", what: fmt.Sprintf("%s %x", ty, b), want: hx(s) + " true false",
				write: func() string {
					bad[flip] ^= bit
					v := ae.VerifyChecksum(lend(bad), ty)
					bad[flip] ^= bit
					return fmt.Sprint(keep(ae.CalcChecksum(lend(b), ty)), " ", ae.VerifyChecksum(lend(bad), ty), " ", v)
				}}
		}
		al := alphabet(t, 58)
		return &letter{codec: "addressEncoder.EncodeData", format: "base58", what: fmt.Sprintf("%x %s", b, al), want: base58(cat(b, dsha(b)[:4]), al), meaning: hx(b), strict: true,
			write: func() string { return ae.EncodeData(lend(cat(b, dsha(b)[:4])), "base58", al) },
			read:  func(s string) (string, error) { return show(ae.DecodeData(s, "base58", al, "doubleSHA256", nil, nil)) }}
	},
	func(r *Run) *letter { // hashing in pieces
		t := r.T
		b := oddBytes(t, 300)
		salt := t.Rng().Bytes(16)
		k := t.Intn(4)
		var cuts []int
		for n := 0; n < len(b); {
			m := n + t.Range(1, 130)
			if m > len(b) {
				m = len(b)
			}
			cuts = append(cuts, m)
			n = m
		}
		mk := func() hash.Hash {
			switch k {
			case 1:
				return bl256.NewSalt(lend(make([]byte, 16)))
			case 2:
				return bl256.New224()
			case 3:
				return bl256.NewSalt(lend(salt))
			}
			return bl256.New()
		}
		l := &letter{codec: "blake256", format: "hash", what: fmt.Sprintf("%d %x %v", k, b, cuts), want: hx(blake256(b))}
		if k >= 2 {
			l.want = "" // no independent value: pieces against the whole
		}
		l.write = func() string {
			w := mk()
			w.Write(lend(b))
			whole := w.Sum(nil)
			h := mk()
			h.Write([]byte{1, 2, 3})
			h.Reset()
			if k == 3 {
				h = mk()
			}
			if k == 1 {
				h = bl256.NewSalt(make([]byte, 16))
			}
			n := 0
			for _, m := range cuts {
				h.Write(lend(b[n:m]))
				h.Sum(nil)
				n = m
			}
			x := h.Sum([]byte{7})
			if !bytes.Equal(x[1:], whole) || x[0] != 7 || len(whole) != h.Size() {
				return fmt.Sprintf("%x in pieces, %x at once", x, whole)
			}
			if k >= 2 {
				return ""
			}
			if y := bl256.DoubleBlake256(lend(b)); !bytes.Equal(y, blake256(blake256(b))) {
				return fmt.Sprintf("double hash %x", y)
			}
			return hx(whole)
		}
		return l
	},
}

// keep is for results in byte slices: when buffers are lent, the caller
// reuses them before it looks at the result.
func keep(b []byte) string {
	returned()
	return hx(b)
}

// dispatch writes one letter, sends it and reads it.
func dispatch(r *Run, l *letter, hostile bool) {
	fail := func(class, f string, x ...interface{}) {
		r.Fail(class+"|"+l.codec, "%s %s: %s", l.codec, l.what, fmt.Sprintf(f, x...))
	}
	var text string
	o := call(func() { text = l.write() })
	if c := settle(); c != "" {
		fail(lentClass, "%s", c)
	}
	if o.Bad() {
		fail("encode-panicked", "%v", o)
		return
	}
	r.Logf("%s %s -> %s", l.codec, short(l.what), short(text))
	r.Count("texts_written")
	r.State(hashStr(l.codec), hashStr(l.format), uint64(len(text)))
	if text != l.want {
		fail("encoding-mismatch", "gave %q, the format defines %q", text, l.want)
		return
	}
	if l.read == nil {
		return
	}
	for k := 0; k < 3; k++ {
		got := text
		if k > 0 {
			if !hostile || (!l.strict && l.again == nil) {
				break
			}
			got = mangleText(r, text)
			if got != text {
				r.Count("fault:text_damaged")
			}
		}
		var m string
		var err error
		o := call(func() { m, err = l.read(got) })
		if c := settle(); c != "" {
			fail(lentClass, "reading %q: %s", got, c)
		}
		r.Logf("read %q: %s %v", short(got), short(m), err)
		if o.Bad() {
			fail("decode-panicked", "reading %q: %v", got, o)
			return
		}
		switch {
		case got == text && err != nil:
			fail("good-text-refused", "%q: %v", got, err)
		case got == text && m != l.meaning:
			fail("decoding-mismatch", "%q gave %s", got, m)
		case got == text:
			r.Count("good_read")
		case l.strict && err == nil && m != l.meaning:
			if l.collides != nil && l.collides(got) {
				r.Count("inherent_collision")
				continue
			}
			fail("damaged-text-accepted", "%q (was %q) gave %s", got, text, m)
		case l.strict && err == nil && got != strings.ToUpper(text):
			fail("damaged-text-accepted", "%q (was %q) gave %s", got, text, m)
		case l.strict && err != nil:
			r.Count("damage_refused")
		case l.again != nil:
			want, ok := l.again(got)
			if !ok && err == nil {
				fail("damaged-text-accepted", "%q (was %q) gave %s and is not of the format", got, text, m)
			}
			if ok && (err != nil || m != want) {
				fail("decoding-mismatch", "%q gave %s %v, must be %s", got, m, err, want)
			}
			r.Count("other_text_read")
		}
	}
}

// codecScript is dispatching letters as a caller's script.
func codecScript(r *Run) *script {
	t := r.T
	s := &script{drv: "codecs"}
	for i := t.Range(2, 6); i > 0; i-- {
		l := letterKinds[t.Intn(len(letterKinds))](r)
		bad := mangleText(r, l.want)
		s.desc += l.codec + " "
		s.steps = append(s.steps, func() string {
			x := l.codec + " " + l.write()
			if l.read != nil {
				m, err := l.read(l.want)
				x += fmt.Sprint(" ", m, " ", err)
				m, err = l.read(bad)
				x += fmt.Sprint(" ", m, " ", err)
			}
			return x
		})
	}
	s.desc = strings.TrimSpace(s.desc)
	return s
}

func init() {
	register(&Property{ID: "C17", Title: "Text and number codecs are exact", QuickRuns: 800000, ThorRuns: 8000000,
		Rule:    "one seed gives one tape; the tape decides the data, alphabets, prefixes, which package writes and which reads, and the damage in transit",
		Measure: "distinct (codec, format, text length) situations",
		Real:    []string{"the base58, bech32, bech32m, cashaddr, base64, bit regrouping, checksum, blake256 and SCALE compact codecs of 26 packages"}, Stub: []string{"nodes", "network"},
		Assume: []string{"hash functions of owcrypt are right", "four-byte checksums do not collide on the damages drawn"},
		Body: func(r *Run) {
			t := r.T
			hostile := t.Chance(2, 3)
			for i := t.Range(1, 8); i > 0; i-- {
				r.Sim += 100 * ms
				dispatch(r, letterKinds[t.Intn(len(letterKinds))](r), hostile)
			}
		}})
}
