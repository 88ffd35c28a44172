//go:build go1.18

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
)

type btcHash struct {
	Hash, Addr string
	NReq       int
	Pubs       []string
}

// btcDrv is the uniform face of one Bitcoin-style driver package.
type btcDrv struct {
	name     string
	create   func(t *btcTx, p btcPrefix, x *btcExtra) (string, error)
	hashes   func(empty string, t *btcTx, p btcPrefix) ([]btcHash, error)
	sign     func(hash string, priv []byte) (sig, pub []byte, err error)
	multisig func(m int, pubs [][]byte, seg bool, p btcPrefix) (string, string, error)
	// combine re-derives the digests from empty, fills in the shares and
	// returns the final transaction if the driver's own verification passes.
	combine func(empty string, t *btcTx, p btcPrefix, slots []btcSlot, shares []Share) (string, error)
	verify  func(final string, t *btcTx, p btcPrefix) bool
	// signAll signs for all owners at once (nil: the driver has no such call)
	signAll func(empty string, t *btcTx) (string, error)
	noRoute bool // the driver does not name the signers
}

type btcSlot struct {
	In, Key int // Key -1: plain input
}

type btcPrefix struct {
	P2PKH, P2SH, P2SH2 []byte
	HRP                string
	Id                 int
}

type btcExtra struct {
	BlockHash   []byte
	BlockHeight uint64
	Omni        bool
	OmniProp    uint32
	OmniAmount  uint64
	OmniType    int
	OmniEco     byte
	OmniMemo    string
	OmniAddr    string
	Asset       bool
	Assets      []cxcAsset
}

type cxcAsset struct {
	TxID   []byte
	Addr   string
	Amount uint64
}

type btcOpts struct {
	version  uint32
	forkID   bool
	segwit   bool // segwit inputs supported
	bech32   bool // bech32 outputs supported
	multi    int  // 0 none, 1 legacy P2SH, 2 also P2SH-P2WSH
	prefixes []btcPrefix
	zen      bool
	omni     int  // 1 always, 2 optional
	asset    bool // cxc asset transfers
	addrOf   func(p btcPrefix, in *btcIn) string
	single   bool // multisig transactions have one input
	noVerify bool // multisig inputs are not verified by the driver
}

func someCount(r *Run, common, rare int) int {
	if r.T.Chance(1, 24) {
		return r.T.Range(1, rare)
	}
	return r.T.Range(1, common)
}

// bigCount prefers the sizes at which length encodings change.
func bigCount(r *Run, lo, hi int) int {
	if r.T.Chance(1, 3) {
		return r.T.Range(lo, hi)
	}
	var edges []int
	for _, e := range []int{127, 128, 252, 253, 254, 255, 256, 257} {
		if lo <= e && e <= hi {
			edges = append(edges, e)
		}
	}
	return edges[r.T.Intn(len(edges))]
}

func btcGen(d *btcDrv, o btcOpts, onlyMulti bool) genFn {
	return func(r *Run, g *Pool) *Cer {
		t := r.T
		p := o.prefixes[t.Intn(len(o.prefixes))]
		tx := &btcTx{Version: o.version, ForkID: o.forkID}
		segOn := o.segwit && (t.Chance(1, 2) || o.single && onlyMulti)
		nIn := someCount(r, 3, 9)
		if !g.hostile && !onlyMulti && t.Chance(1, 200) {
			nIn = bigCount(r, 250, 262)
		}
		x := &btcExtra{}
		var slots []btcSlot
		var keys []*Key
		seen := map[string]bool{}
		for i := 0; i < nIn; i++ {
			in := btcIn{TxID: g.Bytes("txid", 32), Amount: 1 + t.Amount(2100000000000000-1)}
			switch t.Intn(4) {
			case 0:
				in.Vout = uint32(t.Intn(4))
			case 1:
				in.Vout = uint32(t.Range(0, 300))
			default:
				in.Vout = uint32(t.Amount(0xffffffff))
			}
			id := fmt.Sprintf("%x:%d", in.TxID, in.Vout)
			if seen[id] {
				continue
			}
			seen[id] = true
			kinds := []int{inP2PKH}
			if segOn {
				kinds = append(kinds, inP2SHP2WPKH, inP2WPKH)
			}
			if onlyMulti {
				kinds = nil
				if segOn && o.multi >= 2 {
					kinds = append(kinds, inMultiWit)
				} else if !segOn && o.multi >= 1 {
					kinds = append(kinds, inMulti)
				} else {
					segOn = false
					kinds = append(kinds, inMulti)
				}
				if t.Chance(1, 4) && len(tx.Ins) > 0 {
					kinds = []int{inP2PKH}
				}
			}
			in.Kind = kinds[t.Intn(len(kinds))]
			switch in.Kind {
			case inMulti, inMultiWit:
				n := t.Range(2, 4)
				maxN := 15
				if t.Chance(1, 6) {
					n = t.Range(1, maxN)
				}
				in.M = t.Range(1, minInt(n, 3))
				if t.Chance(1, 6) {
					in.M = t.Range(1, n)
				}
				base := t.Intn(8)
				for j := 0; j < n; j++ {
					in.Keys = append(in.Keys, poolKey(k1, (base+j*3)%24))
				}
				in.Redeem = multiScript(in.M, in.Keys)
				if in.Kind == inMulti {
					in.Lock = p2shScript(hash160(in.Redeem))
				} else {
					in.Lock = p2shScript(hash160(cat([]byte{0, 0x20}, sha(in.Redeem))))
				}
				// choose signers
				pick := make([]bool, n)
				want := in.M
				if t.Chance(1, 5) { // more keys sign than needed
					want = t.Range(in.M, n)
				}
				for c := 0; c < want; {
					k := t.Intn(n)
					for pick[k] {
						k = (k + 1) % n
					}
					pick[k] = true
					c++
				}
				for j, b := range pick {
					if b {
						in.Signer = append(in.Signer, j)
						slots = append(slots, btcSlot{len(tx.Ins), j})
						keys = append(keys, in.Keys[j])
					}
				}
			default:
				in.Key = g.Key(k1)
				h := hash160(in.Key.Pub)
				switch in.Kind {
				case inP2PKH:
					in.Lock = p2pkhScript(h)
					if o.zen && t.Chance(1, 2) { // the output spent is replay-protected itself
						in.Lock = cat(in.Lock, varbytes(g.Bytes("block", 32)), varbytes(scriptNum(uint64(1000+t.Intn(60000)))), []byte{0xb4})
					}
					if o.asset && t.Chance(1, 4) { // the output spent carries an asset
						in.Lock = cat(in.Lock, varbytes(cat([]byte("spkq"), g.Bytes("asset", 32)[:16], le64(t.Amount(1<<63-1)))), []byte{0x75})
					}
				case inP2SHP2WPKH:
					in.Redeem = cat([]byte{0, 0x14}, h)
					in.Lock = p2shScript(hash160(in.Redeem))
				case inP2WPKH:
					in.Lock = cat([]byte{0, 0x14}, h)
				}
				slots = append(slots, btcSlot{len(tx.Ins), -1})
				keys = append(keys, in.Key)
			}
			tx.Ins = append(tx.Ins, in)
			if o.single && onlyMulti {
				break
			}
		}
		if o.zen {
			x.BlockHash = g.Bytes("block", 32)
			x.BlockHeight = []uint64{100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 500000, 8388607, 8388608, 16777216}[t.Intn(13)]
		}
		nOut := someCount(r, 4, 60)
		if t.Chance(1, 60) {
			nOut = bigCount(r, 250, 300)
		}
		for i := 0; i < nOut; i++ {
			h := g.Bytes("outhash", 20)
			out := btcOut{Amount: t.Amount(2100000000000000)}
			n := 2
			if o.bech32 && p.HRP != "" && !o.zen {
				n = 4
			}
			switch t.Intn(n) {
			case 0:
				out.Addr, out.Script = b58check(p.P2PKH, h), p2pkhScript(h)
			case 1:
				pf := p.P2SH
				if p.P2SH2 != nil && t.Chance(1, 2) {
					pf = p.P2SH2
				}
				out.Addr, out.Script = b58check(pf, h), p2shScript(h)
			case 2:
				out.Addr, out.Script = segwitAddr(p.HRP, h), cat([]byte{0, 0x14}, h)
			case 3:
				h = g.Bytes("outhash32", 32)
				out.Addr, out.Script = segwitAddr(p.HRP, h), cat([]byte{0, 0x20}, h)
			}
			if o.zen {
				// OP_CHECKBLOCKATHEIGHT: <hash> <height as minimal script number> 0xb4
				out.Script = cat(out.Script, varbytes(rev(x.BlockHash)), varbytes(scriptNum(x.BlockHeight)), []byte{0xb4})
			}
			tx.Outs = append(tx.Outs, out)
		}
		given := len(tx.Outs)
		if o.omni == 1 || (o.omni == 2 && t.Chance(1, 3)) {
			x.Omni = true
			x.OmniProp = uint32(t.Amount(0xffffffff))
			x.OmniAmount = t.Amount(1<<63 - 1)
			var pl []byte
			x.OmniType = []int{0, 4, 22, 28, 53, 55, 56, 70, 71, 72, 185, 186}[t.Intn(12)]
			ty := []byte{0, 0, 0, byte(x.OmniType)}
			switch x.OmniType {
			case 4, 28:
				x.OmniEco = byte(1 + t.Intn(2))
				pl = cat(ty, []byte{x.OmniEco})
			case 53, 70, 71, 72:
				pl = cat(ty, be32(x.OmniProp))
			case 55, 56:
				x.OmniMemo = strings.Repeat("m", t.Intn(40))
				if t.Chance(1, 3) {
					x.OmniMemo = strings.Repeat("long", 100)[:[]int{54, 55, 56, 100, 234, 235, 254, 255, 256, 300}[t.Intn(10)]]
				}
				m := x.OmniMemo
				if len(m) > 255 {
					m = m[:255]
				}
				pl = cat(ty, be32(x.OmniProp), be64(x.OmniAmount), []byte(m), []byte{0})
			case 185, 186:
				h := g.Bytes("outhash", 20)
				x.OmniAddr = b58check(p.P2PKH, h)
				pl = cat(ty, be32(x.OmniProp), be64(x.OmniAmount), p.P2PKH, h)
			default:
				pl = cat(ty, be32(x.OmniProp), be64(x.OmniAmount))
			}
			pl = cat([]byte("omni"), pl)
			tx.Outs = append(tx.Outs, btcOut{Script: cat([]byte{0x6a}, pushed(pl))})
		}
		if o.asset && t.Chance(1, 3) {
			x.Asset = true
			var as []btcOut
			for i := t.Range(1, 3); i > 0; i-- {
				h := g.Bytes("outhash", 20)
				a := cxcAsset{TxID: g.Bytes("asset", 32)[:16], Amount: t.Amount(1<<63 - 1)}
				var sc []byte
				if t.Chance(1, 2) {
					a.Addr, sc = b58check(p.P2SH, h), p2shScript(h)
				} else {
					a.Addr, sc = b58check(p.P2PKH, h), p2pkhScript(h)
				}
				x.Assets = append(x.Assets, a)
				as = append(as, btcOut{Script: cat(sc, varbytes(cat([]byte("spkq"), rev(a.TxID), le64(a.Amount))), []byte{0x75})})
			}
			tx.Outs = append(as, tx.Outs[0])
		}
		switch t.Intn(3) {
		case 1:
			tx.Lock = uint32(t.Amount(0xffffffff))
		}
		tx.RBF = t.Chance(1, 3)
		full := *tx
		_ = given
		c := &Cer{Drv: d.name, Keys: keys}
		c.Desc = btcDesc(tx, p)
		if !onlyMulti {
			c.Estrange = func() {
				in := &full.Ins[t.Intn(len(full.Ins))]
				bit := t.Intn(160)
				in.Lock = append([]byte{}, in.Lock...)
				switch in.Kind {
				case inP2PKH:
					in.Lock[3+bit/8] ^= 1 << uint(bit%8)
				case inP2WPKH:
					in.Lock[2+bit/8] ^= 1 << uint(bit%8)
				case inP2SHP2WPKH:
					in.Redeem = append([]byte{}, in.Redeem...)
					in.Redeem[2+bit/8] ^= 1 << uint(bit%8)
					in.Lock = p2shScript(hash160(in.Redeem))
				}
			}
		}
		c.Create = func() (string, []string, error) {
			for i := range full.Ins {
				if in := &full.Ins[i]; in.M > 0 {
					if err := checkAccount(d, in, p); err != nil {
						return "", nil, err
					}
				}
			}
			e, err := d.create(&full, p, x)
			if err != nil {
				return "", nil, err
			}
			hs, err := d.hashes(e, &full, p)
			if err != nil {
				return "", nil, err
			}
			var out []string
			for _, s := range slots {
				if s.In >= len(hs) {
					return "", nil, errors.New("fewer digests than inputs")
				}
				out = append(out, hs[s.In].Hash)
			}
			return e, out, nil
		}
		c.Sign = func(i int, digest string) (Share, error) {
			s, pub, err := d.sign(digest, lendKey(c.Keys[i].Priv))
			returned()
			return Share{hx(s), hx(pub)}, err
		}
		c.Combine = func(empty string, digests []string, shares []Share) (string, error) {
			return d.combine(empty, &full, p, slots, shares)
		}
		if !(onlyMulti && o.noVerify) {
			c.Reverify = func(final string) bool { return d.verify(final, &full, p) }
		}
		if d.signAll != nil && !onlyMulti && !g.hostile && t.Chance(1, 2) {
			combine := c.Combine
			c.Combine = func(empty string, digests []string, shares []Share) (string, error) {
				f, err := d.signAll(empty, &full)
				returned()
				if err != nil {
					return "", fmt.Errorf("signing for all owners at once: %v", err)
				}
				if err := tx.checkFinal(f); err != nil {
					return "", fmt.Errorf("signing for all owners at once gave %s: %v", f, err)
				}
				if !d.verify(f, &full, p) {
					return "", fmt.Errorf("signing for all owners at once gave %s, verification failed", f)
				}
				return combine(empty, digests, shares)
			}
		}
		c.CheckDigests = func(b *Build) error {
			for j, s := range slots {
				if want := hx(tx.digest(s.In)); want != b.Digests[j] {
					return fmt.Errorf("digest for input %d is %s, the protocol's is %s", s.In, b.Digests[j], want)
				}
			}
			if d.noRoute {
				return nil
			}
			// routing: every digest names the address or keys that must sign it
			hs, err := d.hashes(b.Empty, &full, p)
			if err != nil {
				return err
			}
			for i := range tx.Ins {
				in := &tx.Ins[i]
				if in.M > 0 {
					var want []string
					for _, k := range in.Keys {
						want = append(want, hx(k.Pub))
					}
					if hs[i].NReq != in.M || strings.Join(hs[i].Pubs, ",") != strings.Join(want, ",") {
						return fmt.Errorf("input %d is routed to %d of %v, want %d of %v", i, hs[i].NReq, hs[i].Pubs, in.M, want)
					}
				} else if want := btcAddrOf(o, p, in); hs[i].Addr != want {
					return fmt.Errorf("input %d is routed to %s, its owner is %s", i, hs[i].Addr, want)
				}
			}
			return nil
		}
		c.CheckFinal = func(_ []*Build, final string) error { return tx.checkFinal(final) }
		return c
	}
}

func scriptNum(v uint64) []byte {
	var b []byte
	for v > 0 {
		b = append(b, byte(v))
		v >>= 8
	}
	if len(b) > 0 && b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	return b
}

func btcAddrOf(o btcOpts, p btcPrefix, in *btcIn) string {
	if o.addrOf != nil {
		return o.addrOf(p, in)
	}
	h := hash160(in.Key.Pub)
	switch in.Kind {
	case inP2SHP2WPKH:
		return b58check(p.P2SH, hash160(in.Redeem))
	case inP2WPKH:
		return segwitAddr(p.HRP, h)
	}
	return b58check(p.P2PKH, h)
}

func btcDesc(t *btcTx, p btcPrefix) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "prefix %x/%s lock=%d rbf=%v in[", p.P2PKH, p.HRP, t.Lock, t.RBF)
	for _, in := range t.Ins {
		fmt.Fprintf(&b, " %s:%d/%s", hx(in.TxID)[:8], in.Vout, []string{"p2pkh", "p2sh-p2wpkh", "p2wpkh", "multi", "multi-wit"}[in.Kind])
		if in.M > 0 {
			fmt.Fprintf(&b, " %d-of-%d%v", in.M, len(in.Keys), in.Signer)
		}
	}
	fmt.Fprintf(&b, " ] out[")
	for i, o := range t.Outs {
		if i == 5 {
			fmt.Fprintf(&b, " +%d more", len(t.Outs)-5)
			break
		}
		fmt.Fprintf(&b, " %d->%s", o.Amount, o.Addr)
	}
	return b.String() + " ]"
}

// checkAccount opens the multisig account the input is spent from.
func checkAccount(d *btcDrv, in *btcIn, p btcPrefix) error {
	var pubs [][]byte
	for _, k := range in.Keys {
		pubs = append(pubs, lend(k.Pub))
	}
	a, rs, err := d.multisig(in.M, pubs, in.Kind == inMultiWit, p)
	if err != nil {
		return err
	}
	if rs != hx(in.Redeem) {
		return fmt.Errorf("account redeem script %s, want %x", rs, in.Redeem)
	}
	if want := b58check(p.P2SH, in.Lock[2:22]); a != want {
		return fmt.Errorf("account address %s, want %s", a, want)
	}
	return nil
}
