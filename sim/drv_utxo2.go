//go:build go1.18

package main

import (
	"bytes"
	"encoding/base32"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	bbc "github.com/blocktree/go-owcdrivers/bigbangTransaction"
	btm "github.com/blocktree/go-owcdrivers/bytomTransaction"
	ela "github.com/blocktree/go-owcdrivers/elastosTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	fn "github.com/blocktree/go-owcdrivers/filenetTransaction"
	"github.com/blocktree/go-owcrypt"
)

func sha3(b []byte) []byte    { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA3_256) }
func blake2b(b []byte) []byte { return owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B) }
func uvarint(v uint64) []byte {
	b := make([]byte, 10)
	return b[:binary.PutUvarint(b, v)]
}

func jsonParse(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("more than one JSON value")
	}
	return v, nil
}

// jsonEqual: the same JSON value, whatever the order of members.
func jsonEqual(a, b string) bool {
	x, e1 := jsonParse(a)
	y, e2 := jsonParse(b)
	return e1 == nil && e2 == nil && reflect.DeepEqual(x, y)
}

func jsonText(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// ---- Elastos ----

func elaProgram(pub []byte) []byte { return cat([]byte{0x21}, pub, []byte{0xac}) }

func elastosGen(r *Run, g *Pool) *Cer {
	t := r.T
	type in struct {
		txid []byte
		vout uint16
		k    *Key
	}
	var ins []in
	var keys []*Key
	nIn := someCount(r, 3, 12)
	if !g.hostile && t.Chance(1, 60) {
		nIn = bigCount(r, 120, 260)
	}
	has := map[string]bool{}
	for i := 0; i < nIn; i++ {
		x := in{g.Bytes("txid", 32), uint16(t.Amount(0xffff)), g.Key(r1)}
		ins = append(ins, x)
		if !has[string(x.k.Pub)] {
			has[string(x.k.Pub)] = true
			keys = append(keys, x.k)
		}
	}
	type out struct {
		asset []byte
		amt   uint64
		hash  []byte
	}
	var outs []out
	nOut := someCount(r, 3, 40)
	if t.Chance(1, 60) {
		nOut = bigCount(r, 120, 300)
	}
	for ; nOut > 0; nOut-- {
		outs = append(outs, out{g.Bytes("asset", 32), t.Amount(1<<63 - 1), g.Bytes("outhash", 20)})
	}
	addr := func(k *Key) string { return b58check([]byte{0x21}, hash160(elaProgram(k.Pub))) }
	empty := cat([]byte{2, 0, 0}, compact(len(ins)))
	for _, x := range ins {
		empty = cat(empty, rev(x.txid), le16(x.vout), []byte{255, 255, 255, 255})
	}
	empty = cat(empty, compact(len(outs)))
	for _, o := range outs {
		empty = cat(empty, rev(o.asset), le64(o.amt), make([]byte, 4), []byte{0x21}, o.hash)
	}
	empty = cat(empty, make([]byte, 4))
	c := &Cer{Drv: "elastos", Keys: keys, AnyCount: true, Desc: fmt.Sprintf("%d inputs %d outputs %d owners, transaction %s", len(ins), len(outs), len(keys), short(hx(empty)))}
	c.Create = func() (string, []string, error) {
		var vi []ela.Vin
		for _, x := range ins {
			vi = append(vi, ela.Vin{TxID: hx(x.txid), Vout: x.vout, Address: addr(x.k)})
		}
		var vo []ela.Vout
		for _, o := range outs {
			vo = append(vo, ela.Vout{AssetID: hx(o.asset), Amount: o.amt, Address: at(b58check([]byte{0x21}, o.hash))})
		}
		e, hs, err := ela.CreateEmptyRawTransactionAndHash(lendS(vi), lendS(vo))
		returned()
		if err != nil {
			return "", nil, err
		}
		var d []string
		for i, h := range hs {
			if i < len(keys) && h.Address != addr(keys[i]) {
				return "", nil, fmt.Errorf("digest %d is for %s, want %s", i, h.Address, addr(keys[i]))
			}
			d = append(d, h.Hash)
		}
		return e, d, nil
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := ela.SignRawTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []ela.SigPub
		for _, s := range sh {
			sp = append(sp, ela.SigPub{PublicKey: lend(unhex(s.Pub)), Signature: lend(unhex(s.Sig))})
		}
		ok, f := ela.VerifyAndCombineRawTransaction(e, lendS(sp))
		returned()
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	c.useRef(func(b *Build) ([][]byte, error) {
		var d [][]byte
		for range keys {
			d = append(d, sha(empty))
		}
		return d, nil
	}, func(b *Build, sh []Share) (string, error) {
		f := cat(empty, compact(len(sh)))
		for _, s := range sh {
			f = cat(f, []byte{0x41, 0x40}, unhex(s.Sig), []byte{0x23, 0x21}, unhex(s.Pub), []byte{0xac})
		}
		return hx(f), nil
	}, false)
	return c
}

// ---- FIII ----

type fiiiIn struct {
	OutputTransactionHash string
	OutputIndex           int
	Size                  int
	UnlockScript          string
}
type fiiiOut struct {
	Index      int
	Amount     int64
	Size       int
	LockScript string
}
type fiiiTx struct {
	Version                 int
	Hash                    string
	Timestamp, Locktime     int64
	ExpiredTime             int64
	InputCount, OutputCount int
	Inputs                  []fiiiIn
	Outputs                 []fiiiOut
	Size                    int
}

func (x *fiiiTx) complete() {
	b := cat(be64(uint64(x.Timestamp)), be64(uint64(x.Locktime)), be64(uint64(x.ExpiredTime)), be32(uint32(x.InputCount)))
	for _, in := range x.Inputs {
		b = cat(b, unhex(strings.ToLower(in.OutputTransactionHash)), be32(uint32(in.OutputIndex)), be32(uint32(in.Size)), []byte(in.UnlockScript))
	}
	b = cat(b, be32(uint32(x.OutputCount)))
	for _, o := range x.Outputs {
		b = cat(b, be32(uint32(o.Index)), be64(uint64(o.Amount)), be32(uint32(o.Size)), []byte(o.LockScript))
	}
	x.Hash = strings.ToUpper(hx(sha(b)))
	x.Size = len(b) + 36
}

func fiiiUnlock(sh Share) string {
	return strings.ToUpper(sh.Sig) + "[ALL] 302A300506032B6570032100" + strings.ToUpper(sh.Pub)
}

func fiiiGen(r *Run, g *Pool) *Cer {
	t := r.T
	prefix := [][]byte{{0x40, 0xe7, 0xe9, 0x15}, {0x40, 0xe7, 0xe8, 0xaa}}[t.Intn(2)]
	var ins []fiii.Vin
	var keys []*Key
	for n := someCount(r, 3, 12); n > 0; n-- {
		id := hx(g.Bytes("txid", 32))
		if t.Chance(1, 3) {
			id = strings.ToUpper(id)
		}
		ins = append(ins, fiii.Vin{TxID: id, Vout: int(t.Amount(0x7fffffff))})
		keys = append(keys, g.Key(ed))
	}
	x := fiiiTx{Version: t.Range(0, 3), Locktime: int64(t.Amount(1 << 50)), ExpiredTime: int64(t.Amount(1 << 50))}
	var outs []fiii.Vout
	for n := someCount(r, 3, 40); n > 0; n-- {
		h := g.Bytes("outhash", 20)
		amt := int64(1 + t.Amount(1<<62))
		s := "OP_DUP OP_HASH160 " + strings.ToUpper(hx(h)) + " OP_EQUALVERIFY OP_CHECKSIG"
		x.Outputs = append(x.Outputs, fiiiOut{len(outs), amt, len(s), s})
		outs = append(outs, fiii.Vout{AddressPrefix: prefix, Address: b58check(prefix, h), Amount: amt})
	}
	x.InputCount, x.OutputCount = len(ins), len(outs)
	c := &Cer{Drv: "fiii", Keys: keys, Desc: fmt.Sprintf("%v -> %v version %d lock %d expired %d", ins, outs, x.Version, x.Locktime, x.ExpiredTime)}
	c.Create = func() (string, []string, error) {
		vo := append([]fiii.Vout{}, outs...)
		for i := range vo {
			vo[i].Address = at(vo[i].Address)
		}
		return fiii.CreateEmptyTransactionAndMessage(lendS(append([]fiii.Vin{}, ins...)), lendS(vo), x.Version, x.Locktime, x.ExpiredTime)
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := fiii.SignTransactionMessage(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []fiii.SigPub
		for _, s := range sh {
			sp = append(sp, fiii.SigPub{Pubkey: lend(unhex(s.Pub)), Signature: lend(unhex(s.Sig))})
		}
		ok, f, err := fiii.VerifyAndCombineTransaction(e, lendS(sp))
		returned()
		if err == nil && !ok {
			err = errRefused
		}
		return f, err
	}
	msg := func(id string, n int) []byte { return cat(unhex(strings.ToLower(id)), be32(uint32(n))) }
	stampOf := func(b *Build) (int64, error) {
		var built struct{ Timestamp int64 }
		if err := json.Unmarshal([]byte(b.Empty), &built); err != nil {
			return 0, err
		}
		for _, k := range b.Clock {
			if k/1000000 == built.Timestamp {
				return built.Timestamp, nil
			}
		}
		return 0, &clsErr{"clock", fmt.Sprintf("timestamp %d is not a clock reading of the build %v", built.Timestamp, b.Clock)}
	}
	c.useRef(func(b *Build) ([][]byte, error) {
		if _, err := stampOf(b); err != nil {
			return nil, err
		}
		var d [][]byte
		for _, in := range ins {
			d = append(d, msg(in.TxID, in.Vout))
		}
		return d, nil
	}, func(b *Build, sh []Share) (string, error) {
		stamp, err := stampOf(b)
		if err != nil {
			return "", err
		}
		y := x
		y.Timestamp = stamp
		y.Inputs = nil
		for i, in := range ins {
			u := fiiiUnlock(sh[i])
			y.Inputs = append(y.Inputs, fiiiIn{in.TxID, in.Vout, len(u), u})
		}
		y.complete()
		return jsonText(y), nil
	}, false)
	c.SameFinal = jsonEqual
	if g.hostile {
		// The signatures of this coin cover only the spent output, so of a
		// corrupted transaction only the consistency of the result is judged.
		strict := c.Want
		c.Final = func(builds []*Build, sh []Share, final string) error {
			if len(builds) > 0 {
				if w, err := strict(builds[0], sh); err == nil && jsonEqual(w, final) {
					return nil
				}
			}
			var y fiiiTx
			if err := json.Unmarshal([]byte(final), &y); err != nil {
				return err
			}
			if len(y.Inputs) != len(sh) {
				return &clsErr{"share-count", fmt.Sprintf("%d shares for %d inputs", len(sh), len(y.Inputs))}
			}
			for i, in := range y.Inputs {
				if !refVerify(ed, unhex(sh[i].Pub), msg(in.OutputTransactionHash, in.OutputIndex), unhex(sh[i].Sig)) {
					return &clsErr{"invalid-signature", fmt.Sprintf("signature %d is not valid for its input", i)}
				}
				if in.UnlockScript != fiiiUnlock(Share{hx(unhex(sh[i].Sig)), hx(unhex(sh[i].Pub))}) || in.Size != len(in.UnlockScript) {
					return fmt.Errorf("input %d does not carry its signature: %s", i, in.UnlockScript)
				}
			}
			z := y
			z.complete()
			if z.Hash != y.Hash || z.Size != y.Size {
				return fmt.Errorf("hash %s size %d, want %s and %d", y.Hash, y.Size, z.Hash, z.Size)
			}
			return nil
		}
	}
	return c
}

// ---- BigBang ----

func crc24q(b []byte) uint32 {
	var c uint32
	for _, x := range b {
		c ^= uint32(x) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return c & 0xffffff
}

func bbcAddr(pub []byte) string {
	c := be32(crc24q(pub))[1:]
	return "1" + base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").EncodeToString(cat(pub, c))
}

func bigbangGen(r *Run, g *Pool) *Cer {
	t := r.T
	lock := uint32(t.Amount(0xffffffff))
	anchor := g.Bytes("anchor", 32)
	var ins []bbc.Vin
	body := []byte{}
	n := someCount(r, 4, 60)
	impossible := ""
	switch t.Intn(80) {
	case 79:
		n = t.Range(200, 252)
	case 78:
		n = t.Range(240, 252)
	case 76, 77:
		n, impossible = t.Range(253, []int{255, 260, 520}[t.Intn(3)]), "the number of inputs is written in one byte"
	}
	for i := 0; i < n; i++ {
		id, v := g.Bytes("txid", 32), byte(t.Intn(256))
		ins = append(ins, bbc.Vin{TxID: hx(id), Vout: v})
		body = cat(body, rev(id), []byte{v})
	}
	to := g.Bytes("to", 32)
	amt, fee := 1+t.Amount(1<<63-1), 1+t.Amount(1<<63-1)
	data := ""
	if t.Chance(1, 2) {
		data = string(t.Rng().Bytes(t.Range(0, 30)))
		if t.Chance(1, 6) {
			data = string(t.Rng().Bytes(t.Range(120, 252)))
		}
		if t.Chance(1, 30) {
			data, impossible = string(t.Rng().Bytes(t.Range(253, []int{256, 600}[t.Intn(2)]))), "the length of the data is written in one byte"
		}
	}
	switch t.Intn(100) {
	case 98:
		amt, impossible = 0, "nothing is paid"
	case 99:
		fee, impossible = 0, "there is no fee"
	}
	k := g.Key(ed)
	c := &Cer{Drv: "bigbang", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("lock=%d anchor=%x ins=%d to=%x amount=%d fee=%d data=%x", lock, anchor, n, to, amt, fee, data)}
	c.Create = func() (string, []string, error) {
		e, h, err := bbc.CreateEmptyTransactionAndHash(lock, hx(anchor), lendS(append([]bbc.Vin{}, ins...)), at(bbcAddr(to)), amt, fee, data)
		returned()
		return e, []string{h}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := bbc.SignTransactionHash(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{s, hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errors.New("one share needed")
		}
		ok, f := bbc.VerifyAndCombineTransaction(e, sh[0].Sig, lend(unhex(sh[0].Pub)))
		returned()
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	ser := func(b *Build) ([]byte, error) {
		ts, err := clockField(b, 4, 0)
		if err != nil {
			return nil, err
		}
		return cat(le16(1), le16(0), ts, le32(lock), rev(anchor), []byte{byte(n)}, body, []byte{1}, to, le64(amt), le64(fee), []byte{byte(len(data))}, []byte(data)), nil
	}
	c.useRef(func(b *Build) ([][]byte, error) {
		e, err := ser(b)
		return [][]byte{blake2b(e)}, err
	}, func(b *Build, sh []Share) (string, error) {
		e, err := ser(b)
		return hx(cat(e, []byte{0x40}, unhex(sh[0].Sig))), err
	}, false)
	return c
}

// ---- Filenet ----

func fnAddr(h []byte) string { return base58([]byte(hx(h)), b58std) }

type fnDetail struct {
	To    string `json:"to"`
	Value uint64 `json:"value"`
}
type fnTx struct {
	TxId      string     `json:"txid"`
	From      string     `json:"from"`
	ToCount   uint64     `json:"tocount"`
	Value     uint64     `json:"value"`
	Timestamp int64      `json:"timestamp"`
	Details   []fnDetail `json:"transferdetails"`
	Sign      string     `json:"sign"`
}

func filenetGen(r *Run, g *Pool) *Cer {
	t := r.T
	from := g.Bytes("from", 20)
	var outs []fn.Vout
	var total uint64
	impossible := ""
	big := t.Chance(1, 8)
	n := someCount(r, 4, 60)
	if t.Chance(1, 40) {
		n = bigCount(r, 250, 300)
	}
	for i := 0; i < n; i++ {
		h := g.Bytes("outhash", 20)
		if t.Chance(1, 2) {
			h = t.Rng().Bytes(20)
		}
		a := 1 + t.Amount(1<<53)
		if big {
			a = t.Amount(math.MaxUint64)
		}
		switch {
		case a == 0:
			impossible = "a recipient is paid nothing"
		case total+a < total:
			impossible = "the total needs more than 64 bits"
		}
		total += a
		outs = append(outs, fn.Vout{Address: fnAddr(h), Amount: a})
	}
	k := g.Key(k1)
	c := &Cer{Drv: "filenet", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("from %x to %v", from, outs)}
	c.Create = func() (string, []string, error) {
		e, h, err := fn.CreateEmptyTransactionAndHash(fn.Vin{Address: fnAddr(from)}, lendS(append(fn.Vouts{}, outs...)))
		returned()
		return e, []string{h}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := fn.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{s, hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errors.New("one share needed")
		}
		f, ok := fn.VerifyAndCombineTransaction(e, sh[0].Sig, sh[0].Pub)
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	// the recipients are ordered by address; equal addresses may come in any order
	parse := func(b *Build) (*fnTx, []byte, error) {
		e := unhex(b.Empty)
		if len(e) != 44+28*len(outs) {
			return nil, nil, fmt.Errorf("built transaction has %d bytes", len(e))
		}
		ts := int64(binary.LittleEndian.Uint64(e[36:44]))
		ok := false
		for _, k := range b.Clock {
			ok = ok || k/1e9 == ts
		}
		if !ok {
			return nil, nil, &clsErr{"clock", fmt.Sprintf("timestamp %d is not a clock reading of the build %v", ts, b.Clock)}
		}
		x := &fnTx{TxId: hx(sha(e)), From: fnAddr(from), ToCount: uint64(len(outs)), Value: total, Timestamp: ts}
		var got, want []string
		for i := range outs {
			p := e[44+28*i:]
			d := fnDetail{fnAddr(p[:20]), binary.LittleEndian.Uint64(p[20:])}
			if i > 0 && d.To < x.Details[i-1].To {
				return nil, nil, fmt.Errorf("recipients are not in address order")
			}
			x.Details = append(x.Details, d)
			got = append(got, fmt.Sprint(d.To, ":", d.Value))
			want = append(want, fmt.Sprint(outs[i].Address, ":", outs[i].Amount))
		}
		sort.Strings(got)
		sort.Strings(want)
		if !reflect.DeepEqual(got, want) {
			return nil, nil, fmt.Errorf("recipients %v, want %v", got, want)
		}
		if !bytes.Equal(e[:36], cat(from, le64(uint64(len(outs))), le64(total))) {
			return nil, nil, fmt.Errorf("sender, count or total differ: %x", e[:36])
		}
		return x, e, nil
	}
	c.useRef(func(b *Build) ([][]byte, error) {
		_, e, err := parse(b)
		return [][]byte{sha(e)}, err
	}, func(b *Build, sh []Share) (string, error) {
		x, _, err := parse(b)
		if err != nil {
			return "", err
		}
		x.Sign = sh[0].Sig
		return jsonText(x), nil
	}, false)
	c.SameFinal = jsonEqual
	return c
}

// ---- Bytom ----

type btmIn struct {
	src, asset []byte
	pos, amt   uint64
	prog       []byte
	keys       []*Key // account keys, in script order
	m          int    // 0: single key
	script     []byte
	signers    []int // positions in keys
}

func (in *btmIn) id() []byte {
	o := sha3(cat(in.src, in.asset, le64(in.amt), le64(in.pos), le64(1), varbytes(in.prog)))
	o = sha3(cat([]byte("entryid:output1:"), o))
	return sha3(cat([]byte("entryid:spend1:"), sha3(o)))
}

func btmScript(m int, keys []*Key) []byte {
	s := []byte{0xae}
	for _, k := range keys {
		s = cat(s, []byte{0x20}, k.Pub)
	}
	return append(s, 0x50+byte(m), 0x50+byte(len(keys)), 0xad)
}

func bytomGen(r *Run, g *Pool) *Cer {
	t := r.T
	test := t.Chance(1, 3)
	hrp := "bm"
	if test {
		hrp = "tm"
	}
	btmAsset := bytes.Repeat([]byte{0xff}, 32)
	timeRange := t.Amount(1<<64 - 1)
	var ins []btmIn
	var keys []*Key
	var party [][2]int // party -> input, key position
	nIn := someCount(r, 3, 10)
	if !g.hostile && t.Chance(1, 200) {
		nIn = bigCount(r, 120, 140)
	}
	for i := 0; i < nIn; i++ {
		in := btmIn{src: g.Bytes("src", 32), asset: btmAsset, pos: t.Amount(1<<64 - 1), amt: t.Amount(1<<64 - 1)}
		if t.Chance(1, 3) {
			in.pos = uint64(t.Intn(4))
		}
		if t.Chance(1, 8) {
			in.asset = g.Bytes("asset", 32)
		}
		if nIn < 20 && t.Chance(1, 3) {
			n := t.Range(1, 4)
			if t.Chance(1, 8) {
				n = t.Range(1, 12)
			}
			in.m = t.Range(1, n)
			base := t.Intn(8)
			for j := 0; j < n; j++ {
				in.keys = append(in.keys, poolKey(ed, (base+j*3)%40))
			}
			in.script = btmScript(in.m, in.keys)
			in.prog = cat([]byte{0, 0x20}, sha3(in.script))
			perm := make([]int, n)
			for j := range perm {
				perm[j] = j
			}
			for j := n - 1; j > 0; j-- {
				k := t.Intn(j + 1)
				perm[j], perm[k] = perm[k], perm[j]
			}
			in.signers = append(in.signers, perm[:t.Range(in.m, n)]...)
		} else {
			k := g.Key(ed)
			in.keys = []*Key{k}
			in.prog = cat([]byte{0, 0x14}, hash160(k.Pub))
			in.signers = []int{0}
		}
		for _, s := range in.signers {
			party = append(party, [2]int{i, s})
			keys = append(keys, in.keys[s])
		}
		ins = append(ins, in)
	}
	type out struct {
		prog []byte
		amt  uint64
	}
	var outs []out
	nOut := someCount(r, 3, 30)
	if t.Chance(1, 60) {
		nOut = bigCount(r, 120, 300)
	}
	for ; nOut > 0; nOut-- {
		p := g.Bytes("outhash", 20)
		if t.Chance(1, 3) {
			p = g.Bytes("outscript", 32)
		}
		outs = append(outs, out{p, t.Amount(1<<64 - 1)})
	}
	c := &Cer{Drv: "bytom", Keys: keys}
	d := fmt.Sprintf("timeRange=%d in[", timeRange)
	for i, in := range ins {
		if i < 4 {
			d += fmt.Sprintf(" %x:%d amt=%d m=%d n=%d signers=%v", in.src[:4], in.pos, in.amt, in.m, len(in.keys), in.signers)
		}
	}
	c.Desc = d + fmt.Sprintf(" (%d)] outs=%d", len(ins), len(outs))
	c.Create = func() (string, []string, error) {
		var vi []btm.Vin
		for _, in := range ins {
			vi = append(vi, btm.Vin{SourceID: hx(in.src), SourcePosition: in.pos, AssetID: hx(in.asset), Amount: in.amt, ControlProgram: hx(in.prog)})
			if in.m > 0 {
				var ks [][]byte
				for _, k := range in.keys {
					ks = append(ks, lend(k.Pub))
				}
				a, s, err := btm.CreateMultiSig(byte(in.m), lendS(ks), test)
				returned()
				if err != nil || a != segwitAddr(hrp, in.prog[2:]) || s != hx(in.script) {
					return "", nil, fmt.Errorf("multisig account is %s %s %v, want %s %x", a, s, err, segwitAddr(hrp, in.prog[2:]), in.script)
				}
			}
		}
		var vo []btm.Vout
		for _, o := range outs {
			vo = append(vo, btm.Vout{Address: at(segwitAddr(hrp, o.prog)), Amount: o.amt})
		}
		e, err := btm.CreateEmptyRawTransaction(lendS(vi), lendS(vo), timeRange, test)
		returned()
		if err != nil {
			return "", nil, err
		}
		hs, err := btm.CreateRawTransactionHashForSig(e, test)
		if err != nil {
			return "", nil, err
		}
		if len(hs) != len(ins) {
			return "", nil, fmt.Errorf("%d digests for %d inputs", len(hs), len(ins))
		}
		var ds []string
		for i, in := range ins {
			if hs[i].IsMultiSig() != (in.m > 0) {
				return "", nil, fmt.Errorf("input %d multisig=%v", i, hs[i].IsMultiSig())
			}
			if in.m == 0 && hs[i].Normal.Address != segwitAddr(hrp, in.prog[2:]) {
				return "", nil, fmt.Errorf("digest %d is for %s", i, hs[i].Normal.Address)
			}
		}
		for _, p := range party {
			ds = append(ds, hs[p[0]].Hash)
		}
		return e, ds, nil
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := btm.SignRawTransactionHash(d, lendKey(c.Keys[i].Priv))
		returned()
		if err != nil {
			return Share{}, err
		}
		return Share{hx(s.Signature), hx(s.Pubkey)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		hs, err := btm.CreateRawTransactionHashForSig(e, test)
		if err != nil {
			return "", err
		}
		if len(hs) != len(ins) {
			return "", errors.New("not the transaction of this ceremony")
		}
		for i, in := range ins {
			if in.m == 0 {
				continue
			}
			if err := hs[i].PadMultiSig(hx(in.script)); err != nil {
				return "", err
			}
			if int(hs[i].NRequired) != in.m || len(hs[i].Multi) != len(in.keys) {
				return "", fmt.Errorf("account read back as %d of %d, is %d of %d", hs[i].NRequired, len(hs[i].Multi), in.m, len(in.keys))
			}
			for j := range hs[i].Multi {
				hs[i].Multi[j].SigPub.Pubkey = unhex(hs[i].Multi[j].Pubkey)
			}
		}
		for p, s := range sh {
			if p >= len(party) {
				return "", errors.New("too many shares")
			}
			i, j := party[p][0], party[p][1]
			sp := btm.SigPub{Signature: lend(unhex(s.Sig)), Pubkey: lend(unhex(s.Pub))}
			if ins[i].m == 0 {
				if hs[i].Normal == nil {
					return "", errors.New("not the transaction of this ceremony")
				}
				hs[i].Normal.SigPub = sp
			} else {
				hs[i].Multi[j].SigPub = sp
			}
		}
		f, err := btm.InsertSignatureIntoEmptyTransaction(e, lendS(hs))
		returned()
		if err != nil {
			return "", err
		}
		if !btm.VerifyRawTransaction(f) {
			return "", errRefused
		}
		return f, nil
	}
	ser := func(wit func(i int) []byte) []byte {
		b := cat([]byte{7}, uvarint(1), uvarint(timeRange), uvarint(uint64(len(ins))))
		for i, in := range ins {
			x := cat(in.src, in.asset, uvarint(in.amt), uvarint(in.pos), []byte{1}, varbytes(in.prog))
			b = cat(b, []byte{1}, varbytes(cat([]byte{1}, varbytes(x))), wit(i))
		}
		b = cat(b, uvarint(uint64(len(outs))))
		for _, o := range outs {
			p := cat([]byte{0, byte(len(o.prog))}, o.prog)
			b = cat(b, []byte{1}, varbytes(cat(btmAsset, uvarint(o.amt), []byte{1}, varbytes(p))), []byte{0})
		}
		return b
	}
	var mux []byte
	mux = uvarint(uint64(len(ins)))
	for i := range ins {
		in := &ins[i]
		mux = cat(mux, in.id(), in.asset, le64(in.amt), le64(in.pos))
	}
	mux = sha3(cat([]byte("entryid:mux1:"), sha3(cat(mux, le64(1), []byte{1, 0x51}))))
	hdr := cat(le64(1), le64(timeRange), uvarint(uint64(len(outs))))
	for i, o := range outs {
		p := cat([]byte{0, byte(len(o.prog))}, o.prog)
		hdr = cat(hdr, sha3(cat([]byte("entryid:output1:"), sha3(cat(mux, btmAsset, le64(o.amt), le64(uint64(i)), le64(1), varbytes(p))))))
	}
	txid := sha3(cat([]byte("entryid:txheader:"), sha3(hdr)))
	digest := func(i int) []byte { return sha3(cat(ins[i].id(), txid)) }
	c.CheckDigests = digestsEqual(func(b *Build) ([][]byte, error) {
		var d [][]byte
		for _, p := range party {
			d = append(d, digest(p[0]))
		}
		if e := hx(ser(func(int) []byte { return []byte{1, 0} })); e != b.Empty {
			return nil, fmt.Errorf("unsigned transaction is %s, want %s", b.Empty, e)
		}
		return d, nil
	})
	c.Final = func(builds []*Build, sh []Share, final string) error {
		var bad error
		w := ser(func(i int) []byte {
			in := ins[i]
			sigs := map[int]Share{}
			for p, s := range sh {
				if p < len(party) && party[p][0] == i && len(unhex(s.Sig)) > 0 { // none: has not signed
					sigs[party[p][1]] = s
				}
			}
			n := 0
			q := 0 // the key of the script the next signature may be of
			wit := []byte{}
			for j, k := range in.keys {
				s, ok := sigs[j]
				if !ok || n == maxInt(in.m, 1) {
					continue
				}
				n++
				if in.m > 0 {
					// what counts on the chain: each signature is of a
					// further key, in the order of the script
					for q < len(in.keys) && !refVerify(ed, in.keys[q].Pub, digest(i), unhex(s.Sig)) {
						q++
					}
					if q++; q > len(in.keys) {
						bad = &clsErr{"invalid-signature", fmt.Sprintf("a signature of input %d is not valid for the intended transaction", i)}
					}
				} else if !refVerify(ed, unhex(s.Pub), digest(i), unhex(s.Sig)) {
					bad = &clsErr{"invalid-signature", fmt.Sprintf("a signature of input %d is not valid for the intended transaction", i)}
				} else if s.Pub != hx(k.Pub) {
					bad = &clsErr{"stranger-key", fmt.Sprintf("input %d is signed by %s, the owner is %x", i, s.Pub, k.Pub)}
				}
				wit = cat(wit, []byte{0x40}, unhex(s.Sig))
				if in.m == 0 {
					wit = cat(wit, []byte{0x20}, unhex(s.Pub))
				}
			}
			if n < maxInt(in.m, 1) {
				bad = &clsErr{"share-count", fmt.Sprintf("input %d has %d of %d signatures", i, n, in.m)}
			}
			if in.m == 0 {
				wit = cat([]byte{2}, wit)
			} else {
				wit = cat([]byte{byte(in.m + 1)}, wit, uvarint(uint64(len(in.script))), in.script)
			}
			return cat(uvarint(uint64(len(wit))), wit)
		})
		if bad == nil && hx(w) != final {
			bad = fmt.Errorf("the result is not the intended transaction with these signatures: %s, want %x", final, w)
		}
		return bad
	}
	return c
}
