//go:build go1.18

package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"github.com/btcsuite/btcd/btcec"
	"math/big"
	"strconv"
	"strings"

	bnb "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	atom "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	wicc "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"github.com/blocktree/go-owcrypt"
)

// Account-based coins.

var errOneShare = errors.New("one share needed")

func someText(r *Run) string {
	const plain = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:/"
	odd := []string{"<", ">", "&", "\"", "\\", "'", "\n", "\t", "é", "钱", "\u2028", "€", "😀", "{", "}", ","}
	t := r.T
	n := 0
	switch t.Intn(4) {
	case 0:
		return ""
	case 1:
		n = t.Range(1, 12)
	case 2:
		n = t.Range(1, 40)
	case 3:
		n = t.Range(100, 300)
	}
	g := t.Rng()
	odds := t.Chance(1, 2)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if odds && g.Intn(6) == 0 {
			b.WriteString(odd[g.Intn(len(odd))])
		} else {
			b.WriteByte(plain[g.Intn(len(plain))])
		}
	}
	return b.String()
}

// ---- ripple

func xrpVL(s string) []byte {
	n := len(s)
	if n <= 192 {
		return cat([]byte{byte(n)}, []byte(s))
	}
	n -= 193
	return cat([]byte{byte(193 + n>>8), byte(n)}, []byte(s))
}

func rippleGen(r *Run, g *Pool) *Cer {
	t := r.T
	k := g.Key(k1)
	acct, dest := hash160(k.Pub), g.Bytes("outhash", 20)
	addr := func(h []byte) string {
		d := cat([]byte{0}, h)
		return base58(cat(d, dsha(d)[:4]), b58ripple)
	}
	tag := int64(-1)
	if t.Chance(1, 2) {
		tag = int64(t.Amount(0xffffffff))
	}
	seq, last := uint32(t.Amount(0xffffffff)), uint32(t.Amount(0xffffffff))
	amount, fee := 1+t.Amount(1<<62-2), 1+t.Amount(1<<62-2)
	var mt, md, mf string
	impossible := ""
	if g.odd() {
		switch t.Intn(5) {
		case 0:
			amount, impossible = 1<<62+t.Amount(1<<63), "the amount does not fit 62 bits"
		case 1:
			fee, impossible = 1<<62+t.Amount(1<<63), "the fee does not fit 62 bits"
		case 2:
			tag, impossible = 1<<32+int64(t.Amount(1<<40)), "the destination tag does not fit 32 bits"
		case 3:
			amount, impossible = 0, "the amount is zero"
		case 4:
			fee, impossible = 0, "the fee is zero"
		}
	}
	if t.Chance(1, 2) {
		mt, md, mf = someText(r), someText(r), someText(r)
		if t.Chance(1, 10) {
			md = strings.Repeat("m", []int{191, 192, 193, 194, 448, 449, 450, 12479, 12480}[t.Intn(9)])
		}
	}
	c := &Cer{Drv: "ripple", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("%s -> %s %d fee %d seq %d tag %d last %d memo %q %q %q", addr(acct), addr(dest), amount, fee, seq, tag, last, mt, short(md), mf)}
	c.Create = func() (string, []string, error) {
		e, h, err := xrp.CreateEmptyRawTransactionAndHash(at(addr(acct)), hx(k.Pub), tag, seq, at(addr(dest)), amount, fee, last, mt, md, mf)
		return e, []string{h}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := xrp.SignRawTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{strings.ToLower(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errOneShare
		}
		ok, f := xrp.VerifyAndCombinRawTransaction(e, sh[0].Sig, sh[0].Pub)
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	ser := func(sig []byte) []byte {
		b := cat([]byte{0x12, 0, 0, 0x22, 0x80, 0, 0, 0, 0x24}, be32(seq))
		if tag >= 0 {
			b = cat(b, []byte{0x2e}, be32(uint32(tag)))
		}
		b = cat(b, []byte{0x20, 0x1b}, be32(last), []byte{0x61}, be64(amount|1<<62), []byte{0x68}, be64(fee|1<<62), []byte{0x73, 0x21}, k.Pub)
		if sig != nil {
			d := derSig(sig)
			b = cat(b, []byte{0x74, byte(len(d))}, d)
		}
		b = cat(b, []byte{0x81, 0x14}, acct, []byte{0x83, 0x14}, dest)
		if md != "" {
			b = cat(b, []byte{0xf9, 0xea})
			if mt != "" {
				b = cat(b, []byte{0x7c}, xrpVL(mt))
			}
			b = cat(b, []byte{0x7d}, xrpVL(md))
			if mf != "" {
				b = cat(b, []byte{0x7e}, xrpVL(mf))
			}
			b = cat(b, []byte{0xe1, 0xf1})
		}
		return b
	}
	c.useRef(func(*Build) ([][]byte, error) {
		return [][]byte{sha512half(cat([]byte{0x53, 0x54, 0x58, 0}, ser(nil)))}, nil
	}, func(_ *Build, sh []Share) (string, error) { return hx(ser(unhex(sh[0].Sig))), nil }, true)
	c.SameFinal = strings.EqualFold
	return c
}

// ---- ontology

func ontEmit(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{0}
	}
	if v.BitLen() <= 4 {
		return []byte{0x50 + byte(v.Uint64())}
	}
	b := rev(v.Bytes())
	if b[len(b)-1] >= 0x80 {
		b = append(b, 0)
	}
	return cat([]byte{byte(len(b))}, b)
}

func ontologyGen(r *Run, g *Pool) *Cer {
	t := r.T
	from, to := g.Key(r1), g.Bytes("outhash", 20)
	owner := func(k *Key) []byte { return hash160(cat([]byte{0x21}, k.Pub, []byte{0xac})) }
	addr := func(h []byte) string { return b58check([]byte{0x17}, h) }
	keys := []*Key{from}
	payer := from
	payerText := []string{"", addr(owner(from))}[t.Intn(2)]
	if t.Chance(1, 3) {
		if p := g.Key(r1); p != from {
			payer = p
			payerText = addr(owner(p))
			keys = []*Key{p, from}
		}
	}
	asset := t.Intn(3)
	v2 := t.Chance(1, 2)
	amount := new(big.Int).SetUint64(t.Amount(1<<64 - 1))
	if v2 && t.Chance(1, 3) {
		amount = new(big.Int).SetBytes(t.Rng().Bytes(t.Range(1, 16)))
	}
	gasPrice, gasLimit := t.Amount(1<<63), t.Amount(1<<63)
	impossible := ""
	if g.odd() {
		switch t.Intn(2) {
		case 0:
			asset, impossible = []int{3, 7, -1, 256}[t.Intn(4)], "there is no such asset"
		case 1:
			v2, amount, impossible = true, big.NewInt(-1-int64(t.Amount(1<<62))), "the amount is negative"
		}
	}
	c := &Cer{Drv: "ontology", MustRefuse: impossible, Keys: keys, AnyCount: true, Desc: fmt.Sprintf("asset %d v2=%v %s -> %s payer %q %v gas %d*%d", asset, v2, addr(owner(from)), addr(to), payerText, amount, gasPrice, gasLimit)}
	c.Create = func() (string, []string, error) {
		var e string
		var h *ont.TxHash
		var err error
		if v2 {
			e, h, err = ont.CreateRawTransactionAndHashV2(gasPrice, gasLimit, ont.TxStateV2{AssetType: asset, Payer: payerText, From: at(addr(owner(from))), To: at(addr(to)), Amount: new(big.Int).Set(amount)})
		} else {
			e, h, err = ont.CreateRawTransactionAndHash(gasPrice, gasLimit, ont.TxState{AssetType: asset, Payer: payerText, From: at(addr(owner(from))), To: at(addr(to)), Amount: amount.Uint64()})
		}
		if err != nil {
			return "", nil, err
		}
		var ds []string
		for i, a := range h.Addresses {
			if i >= len(keys) || a != addr(owner(keys[i])) {
				return "", nil, fmt.Errorf("asks %v to sign", h.Addresses)
			}
			ds = append(ds, h.GetTxHashHex())
		}
		return e, ds, nil
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := ont.SignRawTransactionHash(d, lendKey(c.Keys[i].Priv))
		returned()
		if err != nil {
			return Share{}, err
		}
		return Share{hx(s.Signature), hx(s.PublicKey)}, nil
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		var sp []ont.SigPub
		for _, s := range sh {
			sp = append(sp, ont.SigPub{Signature: lend(unhex(s.Sig)), PublicKey: lend(unhex(s.Pub))})
		}
		ok, f, err := ont.VerifyAndCombineRawTransaction(e, lendS(sp))
		returned()
		if err == nil && !ok {
			err = errRefused
		}
		return f, err
	}
	one := make([]byte, 20)
	one[19] = 1
	two := make([]byte, 20)
	two[19] = 2
	body := func(b *Build) ([]byte, error) {
		e := unhex(b.Empty)
		if len(e) < 6 {
			return nil, errors.New("built transaction is too short")
		}
		m := "transfer"
		if v2 {
			m = "transferV2"
		}
		ct := two
		if asset == 0 {
			ct = one
		}
		p := cat([]byte{0, 0xc6, 0x6b, 0x6a, 0x14}, owner(from), []byte{0xc8, 0x6a})
		if asset == 2 {
			m = "transferFrom"
			p = cat(p, []byte{0x14}, one, []byte{0xc8, 0x6a})
		}
		p = cat(p, []byte{0x14}, to, []byte{0xc8, 0x6a}, ontEmit(amount), []byte{0xc8, 0x6c})
		if asset != 2 {
			p = cat(p, []byte{0x51, 0xc1})
		}
		p = cat(p, []byte{byte(len(m))}, []byte(m), []byte{0x14}, ct, []byte{0, 0x68, 0x16}, []byte("Ontology.Native.Invoke"))
		return cat([]byte{0, 0xd1}, e[2:6], le64(gasPrice), le64(gasLimit), owner(payer), varbytes(p), []byte{0}), nil
	}
	c.useRef(func(b *Build) ([][]byte, error) {
		x, err := body(b)
		if err != nil {
			return nil, err
		}
		var ds [][]byte
		for range keys {
			ds = append(ds, sha(dsha(x)))
		}
		return ds, nil
	}, func(b *Build, sh []Share) (string, error) {
		x, err := body(b)
		if err != nil {
			return "", err
		}
		x = cat(x, compact(len(sh)))
		for _, s := range sh {
			x = cat(x, []byte{0x41, 0x40}, unhex(s.Sig), []byte{0x23, 0x21}, unhex(s.Pub), []byte{0xac})
		}
		return hx(x), nil
	}, false)
	return c
}

// ---- vsys

func keccak(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256) }

func vsysAddr(net byte, h []byte) ([]byte, string) {
	d := cat([]byte{5, net}, h)
	d = cat(d, vsysSum(d)[:4])
	return d, base58(d, b58std)
}

func vsysGen(r *Run, g *Pool) *Cer {
	t := r.T
	k := g.Key(xd)
	raw, to := vsysAddr([]byte{'M', 'T'}[t.Intn(2)], g.Bytes("outhash", 20))
	amount, fee, scale := t.Amount(1<<63-1), t.Amount(1<<63-1), uint16(t.Amount(65535))
	attach, impossible := "", ""
	if g.odd() {
		attach, impossible = "x"+someText(r), "attachments are not supported"
	}
	c := &Cer{Drv: "vsys", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("-> %s %d fee %d/%d", to, amount, fee, scale)}
	c.Create = func() (string, []string, error) {
		e, err := vsys.CreateEmptyTransaction(vsys.TxStruct{TxType: 2, To: at(to), Amount: amount, Fee: fee, FeeScale: scale, Attachment: attach})
		return e, []string{e}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		sp, err := vsys.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		if err != nil {
			return Share{}, err
		}
		return Share{hx(sp.Signature), hx(sp.PublicKey)}, nil
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errOneShare
		}
		sp := &vsys.SignaturePubkey{Signature: lend(unhex(sh[0].Sig)), PublicKey: lend(unhex(sh[0].Pub))}
		if !vsys.VerifyTransaction(e, lendP(sp)) {
			return "", errRefused
		}
		j, err := vsys.CreateJSONRawForSendTransaction(e, sp)
		if err != nil {
			return "", err
		}
		return j.Raw, nil
	}
	stamp := func(b *Build) (uint64, error) {
		e := unhex(b.Empty)
		if len(e) < 9 {
			return 0, errors.New("built transaction is too short")
		}
		v := binary.BigEndian.Uint64(e[1:])
		for _, cl := range b.Clock {
			if uint64(cl/1000*1000) == v {
				return v, nil
			}
		}
		return 0, &clsErr{"clock", fmt.Sprintf("timestamp %d is not a clock reading of the build %v", v, b.Clock)}
	}
	c.useRef(func(b *Build) ([][]byte, error) {
		ts, err := stamp(b)
		if err != nil {
			return nil, err
		}
		return [][]byte{cat([]byte{2}, be64(ts), be64(amount), be64(fee), []byte{byte(scale >> 8), byte(scale)}, raw, []byte{0, 0})}, nil
	}, func(b *Build, sh []Share) (string, error) {
		ts, err := stamp(b)
		if err != nil {
			return "", err
		}
		return jsonText(map[string]interface{}{"timestamp": ts, "amount": amount, "fee": fee, "feeScale": scale, "recipient": to, "senderPublicKey": base58(unhex(sh[0].Pub), b58std), "attachment": "", "signature": base58(unhex(sh[0].Sig), b58std)}), nil
	}, false)
	c.SameFinal = jsonEqual
	return c
}

// ---- cosmos, evaio

type atomCoin struct {
	Denom  string
	Amount int64
}

func atomCoins(cs []atomCoin) []interface{} {
	out := []interface{}{}
	for _, c := range cs {
		out = append(out, map[string]interface{}{"denom": c.Denom, "amount": strconv.FormatInt(c.Amount, 10)})
	}
	return out
}

func atomGen(evaio bool) genFn {
	return func(r *Run, g *Pool) *Cer {
		t := r.T
		k := g.Key(k1)
		coins := func(min int) []atomCoin {
			var cs []atomCoin
			for n := t.Range(min, 2); n > 0; n-- {
				cs = append(cs, atomCoin{[]string{"uatom", "muon", "stake", "eva"}[t.Intn(4)], 1 + int64(t.Amount(1<<63-2))})
			}
			return cs
		}
		chain, memo := "cosmoshub-"+strconv.Itoa(t.Intn(5)), someText(r)
		acct, seq, gas := int(t.Amount(1<<62)), int(t.Amount(1<<62)), int64(t.Amount(1<<62))
		feeCoins := coins(0)
		emptyFee := t.Intn(3)
		type msg struct {
			from, to, typ string
			coins         []atomCoin
		}
		var msgs []msg
		for n := someCount(r, 1, 4); n > 0; n-- {
			msgs = append(msgs, msg{bech32enc("cosmos", to5(g.Bytes("from", 20)), 1), bech32enc("cosmos", to5(g.Bytes("outhash", 20)), 1), []string{"cosmos-sdk/MsgSend", "cosmos-sdk/Send"}[t.Intn(2)], coins(1)})
		}
		c := &Cer{Drv: map[bool]string{false: "cosmos", true: "evaio"}[evaio], Keys: []*Key{k}, Desc: fmt.Sprintf("chain %s account %d seq %d gas %d fee %v memo %q %v", chain, acct, seq, gas, feeCoins, memo, msgs)}
		if evaio {
			mk := func(cs []atomCoin) eva.Coins {
				var o eva.Coins
				for _, c := range cs {
					o = append(o, eva.NewCoin(c.Denom, c.Amount))
				}
				return o
			}
			c.Create = func() (string, []string, error) {
				fc := mk(feeCoins)
				if len(feeCoins) == 0 && emptyFee == 1 {
					fc = eva.Coins{eva.NewCoin("eva", 0)}
				}
				fee := eva.NewStdFee(gas, fc)
				var ms []eva.Message
				for _, m := range msgs {
					ms = append(ms, eva.NewMessage(m.typ, eva.NewMsgSend(m.from, m.to, mk(m.coins))))
				}
				e, h, err := eva.NewTxStruct(chain, memo, acct, seq, lendP(&fee), lendS(ms)).CreateEmptyTransactionAndHash()
				return e, []string{h}, err
			}
			c.Sign = func(i int, d string) (Share, error) {
				s, err := eva.SignTransactionHash(d, lendKey(c.Keys[i].Priv))
				returned()
				return Share{s, hx(c.Keys[i].Pub)}, err
			}
		} else {
			mk := func(cs []atomCoin) atom.Coins {
				var o atom.Coins
				for _, c := range cs {
					o = append(o, atom.NewCoin(c.Denom, c.Amount))
				}
				return o
			}
			c.Create = func() (string, []string, error) {
				fc := mk(feeCoins)
				if len(feeCoins) == 0 && emptyFee == 1 {
					fc = atom.Coins{atom.NewCoin("muon", 0)}
				}
				fee := atom.NewStdFee(gas, fc)
				var ms []atom.Message
				for _, m := range msgs {
					ms = append(ms, atom.NewMessage(m.typ, atom.NewMsgSend(m.from, m.to, mk(m.coins))))
				}
				e, h, err := atom.NewTxStruct(chain, memo, acct, seq, lendP(&fee), lendS(ms)).CreateEmptyTransactionAndHash()
				return e, []string{h}, err
			}
			c.Sign = func(i int, d string) (Share, error) {
				s, err := atom.SignTransactionHash(d, lendKey(c.Keys[i].Priv))
				returned()
				return Share{s, hx(c.Keys[i].Pub)}, err
			}
		}
		c.Combine = func(e string, _ []string, sh []Share) (string, error) {
			if len(sh) != 1 {
				return "", errOneShare
			}
			pub := unhex(sh[0].Pub)
			point := owcrypt.PointDecompress(pub, owcrypt.ECC_CURVE_SECP256K1)
			if len(pub) != 33 || len(point) != 65 {
				return "", errRefused
			}
			if evaio {
				if !eva.VerifyTransactionSig(e, sh[0].Sig, lend(point[1:])) {
					return "", errRefused
				}
				var ts eva.TxStruct
				if err := json.Unmarshal([]byte(e), &ts); err != nil {
					return "", err
				}
				j, err := ts.CreateJsonForSend(sh[0].Sig, pub, "tendermint/PubKeySecp256k1", "sync")
				if err != nil {
					return "verified", nil // and yet unusable
				}
				return j.Raw, nil
			}
			if !atom.VerifyTransactionSig(e, sh[0].Sig, lend(point[1:])) {
				return "", errRefused
			}
			var ts atom.TxStruct
			if err := json.Unmarshal([]byte(e), &ts); err != nil {
				return "", err
			}
			j, err := ts.CreateJsonForSend(sh[0].Sig, pub, "tendermint/PubKeySecp256k1", "sync")
			if err != nil {
				return "verified", nil
			}
			return j.Raw, nil
		}
		var jm []interface{}
		for _, m := range msgs {
			jm = append(jm, map[string]interface{}{"type": m.typ, "value": map[string]interface{}{"amount": atomCoins(m.coins), "from_address": m.from, "to_address": m.to}})
		}
		fee := map[string]interface{}{"amount": atomCoins(feeCoins), "gas": strconv.FormatInt(gas, 10)}
		c.useRef(func(*Build) ([][]byte, error) {
			return [][]byte{sha([]byte(jsonText(map[string]interface{}{"account_number": strconv.Itoa(acct), "chain_id": chain, "fee": fee, "memo": memo, "msgs": jm, "sequence": strconv.Itoa(seq)})))}, nil
		}, func(_ *Build, sh []Share) (string, error) {
			s := map[string]interface{}{"signature": base64.StdEncoding.EncodeToString(unhex(sh[0].Sig)), "pub_key": map[string]interface{}{"type": "tendermint/PubKeySecp256k1", "value": base64.StdEncoding.EncodeToString(unhex(sh[0].Pub))}}
			if !evaio {
				s["account_number"] = strconv.Itoa(acct)
				s["sequence"] = strconv.Itoa(seq)
			}
			return jsonText(map[string]interface{}{"mode": "sync", "tx": map[string]interface{}{"msg": jm, "fee": fee, "memo": memo, "signatures": []interface{}{s}}}), nil
		}, false)
		c.SameFinal = jsonEqual
		return c
	}
}

// ---- binance chain

func bnbGen(r *Run, g *Pool) *Cer {
	t := r.T
	k := g.Key(k1)
	from, to := hash160(k.Pub), g.Bytes("outhash", 20)
	addr := func(h []byte) string { return bech32enc("bnb", to5(h), 1) }
	denom, memo := []string{"BNB", "BTCB-1DE", "TUSDB-888"}[t.Intn(3)], someText(r)
	amount := 1 + int64(t.Amount(1<<53-1)) // beyond, the sign document cannot name every amount
	acct, seq, source := int64(t.Amount(1<<62)), int64(t.Amount(1<<62)), int64(t.Amount(1000))
	impossible := ""
	if g.odd() {
		amount, impossible = 1<<53+1+2*int64(t.Amount(1<<52-2)), "the sign document cannot hold the amount exactly"
	}
	c := &Cer{Drv: "bnb", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("%s -> %s %d %s account %d seq %d source %d memo %q", addr(from), addr(to), amount, denom, acct, seq, source, memo)}
	c.Create = func() (string, []string, error) {
		e, h, err := bnb.CreateEmptyTransactionAndHash(at(addr(from)), at(addr(to)), denom, amount, acct, seq, source, memo)
		return e, []string{h}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := bnb.SignRawTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errOneShare
		}
		ok, f := bnb.VerifyAndCombineRawTransaction(e, sh[0].Sig, sh[0].Pub)
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	lv := func(tag byte, b []byte) []byte {
		if len(b) == 0 {
			return nil
		}
		return cat([]byte{tag}, uvarint(uint64(len(b))), b)
	}
	num := func(tag byte, v int64) []byte {
		if v == 0 {
			return nil
		}
		return cat([]byte{tag}, uvarint(uint64(v)))
	}
	c.useRef(func(*Build) ([][]byte, error) {
		side := func(h []byte) []interface{} {
			return []interface{}{map[string]interface{}{"address": addr(h), "coins": []interface{}{map[string]interface{}{"amount": amount, "denom": denom}}}}
		}
		return [][]byte{sha([]byte(jsonText(map[string]interface{}{"account_number": strconv.FormatInt(acct, 10), "chain_id": "Binance-Chain-Tigris", "data": nil, "memo": memo,
			"msgs": []interface{}{map[string]interface{}{"inputs": side(from), "outputs": side(to)}}, "sequence": strconv.FormatInt(seq, 10), "source": strconv.FormatInt(source, 10)})))}, nil
	}, func(_ *Build, sh []Share) (string, error) {
		coin := cat(lv(0x0a, []byte(denom)), num(0x10, amount))
		side := func(h []byte) []byte { return cat(lv(0x0a, h), lv(0x12, coin)) }
		m := cat([]byte{0x2a, 0x2c, 0x87, 0xfa}, lv(0x0a, side(from)), lv(0x12, side(to)))
		s := cat(lv(0x0a, cat([]byte{0xeb, 0x5a, 0xe9, 0x87, 0x21}, unhex(sh[0].Pub))), lv(0x12, unhex(sh[0].Sig)), num(0x18, acct), num(0x20, seq))
		x := cat([]byte{0xf0, 0x62, 0x5d, 0xee}, lv(0x0a, m), lv(0x12, s), lv(0x1a, []byte(memo)), num(0x20, source))
		return hx(cat(uvarint(uint64(len(x))), x)), nil
	}, false)
	return c
}

// ---- polkadot

func scale(v uint64) []byte {
	switch {
	case v < 1<<6:
		return []byte{byte(v << 2)}
	case v < 1<<14:
		return le16(uint16(v<<2 | 1))
	case v < 1<<30:
		return le32(uint32(v<<2 | 2))
	}
	b := le64(v)
	n := 8
	for n > 4 && b[n-1] == 0 {
		n--
	}
	return cat([]byte{byte(n-4)<<2 | 3}, b[:n])
}

func polkadotGen(r *Run, g *Pool) *Cer {
	t := r.T
	k := g.Key(ed)
	code := []string{"040000", "050000"}[t.Intn(2)]
	h := 1 + t.Amount(1<<40)
	x := dot.TxStruct{SenderPubkey: hx(k.Pub), RecipientPubkey: hx(g.Bytes("outkey", 32)), Amount: 1 + t.Amount(1<<64-2), Nonce: t.Amount(1<<64 - 1), Fee: t.Amount(1<<64 - 1),
		BlockHeight: h, BlockHash: hx(g.Bytes("block", 32)), GenesisHash: hx(g.Bytes("genesis", 32)), SpecVersion: uint32(t.Amount(0xffffffff)), TxVersion: uint32(t.Amount(0xffffffff))}
	impossible := ""
	if g.odd() {
		switch t.Intn(5) {
		case 0:
			x.Amount, impossible = 0, "the amount is zero"
		case 1:
			x.SenderPubkey, impossible = tamperLen(r, x.SenderPubkey), "the sender's key is malformed"
		case 2:
			x.RecipientPubkey, impossible = tamperLen(r, x.RecipientPubkey), "the recipient's key is malformed"
		case 3:
			x.GenesisHash, impossible = tamperLen(r, x.GenesisHash), "the genesis hash is malformed"
		case 4:
			x.BlockHash, impossible = tamperLen(r, x.BlockHash), "the block hash is malformed"
		}
	}
	c := &Cer{Drv: "polkadot", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("code %s %+v", code, x)}
	c.Create = func() (string, []string, error) {
		e, m, err := x.CreateEmptyTransactionAndMessage(code)
		return e, []string{m}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := dot.SignTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errOneShare
		}
		f, ok := dot.VerifyAndCombineTransaction(code, e, sh[0].Sig)
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	method := cat(unhex(code), unhex(x.RecipientPubkey), scale(x.Amount))
	era := le16(uint16(5 + (h%64)<<4))
	ext := cat(era, scale(x.Nonce), scale(x.Fee))
	c.useRef(func(*Build) ([][]byte, error) {
		return [][]byte{cat(method, ext, le32(x.SpecVersion), le32(x.TxVersion), unhex(x.GenesisHash), unhex(x.BlockHash))}, nil
	}, func(_ *Build, sh []Share) (string, error) {
		b := cat([]byte{0x84, 0}, k.Pub, []byte{0}, unhex(sh[0].Sig), ext, method)
		return "0x" + hx(cat(scale(uint64(len(b))), b)), nil
	}, true)
	c.ownPub()
	return c
}

// ownPub makes the reference ignore the public keys named in the shares: the
// transaction names the signer.
func (c *Cer) ownPub() {
	want := c.Want
	c.Want = func(b *Build, sh []Share) (string, error) {
		own := append([]Share{}, sh...)
		for i := range own {
			own[i].Pub = c.pubText(c.Keys[minInt(i, len(c.Keys)-1)])
		}
		return want(b, own)
	}
}

// ---- waykichain

func msbVarint(v uint64) []byte {
	b := []byte{byte(v & 0x7f)}
	for v > 0x7f {
		v = v>>7 - 1
		b = append([]byte{byte(v&0x7f) | 0x80}, b...)
	}
	return b
}

func waykiGen(r *Run, g *Pool) *Cer {
	t := r.T
	k := g.Key(k1)
	typ := []byte{2, 3, 4, 0x0b}[t.Intn(4)]
	regid := func() (string, []byte) {
		a, b := t.Amount(1<<40), t.Amount(70000)
		x := cat(msbVarint(a), msbVarint(b))
		f := "%d-%d"
		if t.Chance(1, 8) { // as users write them
			f = []string{"%04d-%02d", " %d-%d", "%d-%d\t", "%010d-%d"}[t.Intn(4)]
		}
		return fmt.Sprintf(f, a, b), cat([]byte{byte(len(x))}, x)
	}
	amount, fee, height := t.Amount(1<<63-1), t.Amount(1<<63-1), t.Amount(1<<40)
	h := g.Bytes("outhash", 20)
	toText, toRaw := b58check([]byte{0x49}, h), cat([]byte{0x14}, h)
	from, fromRaw := regid()
	app := ""
	var tail []byte
	head := cat([]byte{1}, msbVarint(height))
	switch typ {
	case 2:
		from = hx(k.Pub)
		tail = cat([]byte{0x21}, k.Pub, []byte{0}, msbVarint(fee))
	case 3:
		tail = cat(fromRaw, toRaw, msbVarint(fee), msbVarint(amount), []byte{0})
	case 4:
		var appRaw []byte
		app, appRaw = regid()
		n := t.Range(0, 60)
		if t.Chance(1, 6) {
			n = bigCount(r, 240, 300)
		}
		if t.Chance(1, 60) {
			n = t.Range(65530, 65540)
		}
		data := t.Rng().Bytes(n)
		toText = hx(data)
		tail = cat(fromRaw, appRaw, msbVarint(fee), msbVarint(amount), varbytes(data))
	case 0x0b:
		app = []string{"WICC", "WUSD", "WGRT"}[t.Intn(3)]
		tail = cat(fromRaw, []byte("\x04WICC"), msbVarint(fee), []byte{1}, toRaw, varbytes([]byte(app)), msbVarint(amount), []byte{0})
	}
	a64, f64, h64 := int64(amount), int64(fee), int64(height)
	impossible := ""
	if g.odd() {
		neg := -1 - int64(t.Amount(1<<62))
		switch k := t.Intn(5); {
		case k == 0 && typ != 2:
			a64, impossible = neg, "the amount is negative"
		case k <= 1:
			f64, impossible = neg, "the fee is negative"
		case k == 2:
			h64, impossible = neg, "the height is negative"
		case k == 3:
			from, impossible = []string{"", "12", "12-", "-3", "a-1", "99999999999999999999-1", "1-2-3"}[t.Intn(7)], "the sender's ID is malformed"
		default:
			typ, impossible = []byte{1, 5, 12}[t.Intn(3)], "there is no such transaction type"
		}
	}
	c := &Cer{Drv: "waykichain", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("type %d from %s to %s app %s amount %d fee %d height %d", typ, from, short(toText), app, amount, fee, height)}
	c.Create = func() (string, []string, error) {
		to := toText
		if typ == 3 || typ == 0x0b {
			to = at(to)
		}
		e, h, err := wicc.CreateEmptyRawTransactionAndHash(from, to, app, a64, f64, h64, typ)
		return e, []string{h}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := wicc.SignRawTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	c.HighS = true
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errOneShare
		}
		ok, f := wicc.VerifyAndCombineRawTransaction(e, wicc.SigPub{PublicKey: lend(unhex(sh[0].Pub)), Signature: lend(unhex(sh[0].Sig))})
		returned()
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	c.useRef(func(*Build) ([][]byte, error) {
		return [][]byte{dsha(cat(head[:1], []byte{typ}, head[1:], tail))}, nil
	}, func(_ *Build, sh []Share) (string, error) {
		return hx(cat([]byte{typ}, head, tail, varbytes(derSig(unhex(sh[0].Sig))))), nil
	}, false)
	c.SameFinal = strings.EqualFold
	return c
}

// ---- moac

func rlpItem(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return cat([]byte{0x80 + byte(len(b))}, b)
}
func rlpInt(v *big.Int) []byte { return rlpItem(v.Bytes()) }
func rlpList(b []byte) []byte {
	if len(b) < 56 {
		return cat([]byte{0xc0 + byte(len(b))}, b)
	}
	l := new(big.Int).SetInt64(int64(len(b))).Bytes()
	return cat([]byte{0xf7 + byte(len(l))}, l, b)
}

func moacGen(r *Run, g *Pool) *Cer {
	t := r.T
	k := g.Key(k1)
	test := t.Chance(1, 2)
	id := int64(99)
	if test {
		id = 101
	}
	num := func() *big.Int {
		if t.Chance(1, 4) {
			return new(big.Int).SetBytes(t.Rng().Bytes(t.Range(9, 32)))
		}
		return new(big.Int).SetUint64(t.Amount(1<<64 - 1))
	}
	nonce := t.Amount(1<<64 - 1)
	amount, limit, price := num(), num(), num()
	to := g.Bytes("outhash", 20)
	impossible, toText := "", "0x"+hx(to)
	if g.odd() {
		bad := big.NewInt(-1 - int64(t.Amount(1<<62)))
		if t.Chance(1, 2) {
			bad = new(big.Int).Lsh(big.NewInt(1), uint(256+t.Intn(20)))
		}
		switch t.Intn(4) {
		case 0:
			amount, impossible = bad, "the amount is out of range"
		case 1:
			limit, impossible = bad, "the gas limit is out of range"
		case 2:
			price, impossible = bad, "the gas price is out of range"
		case 3:
			toText, impossible = "0x"+tamperLen(r, hx(to)), "the recipient is malformed"
		}
	}
	c := &Cer{Drv: "moac", MustRefuse: impossible, Keys: []*Key{k}, Desc: fmt.Sprintf("-> 0x%x nonce %d amount %v gas %v*%v test=%v", to, nonce, amount, limit, price, test)}
	c.Create = func() (string, []string, error) {
		e, h, err := moac.CreateEmptyRawTransactionAndHash(toText, nonce, lendInt(amount), lendInt(limit), lendInt(price), test)
		returned()
		return e, []string{h}, err
	}
	c.Sign = func(i int, d string) (Share, error) {
		s, err := moac.SignRawTransaction(d, lendKey(c.Keys[i].Priv))
		returned()
		return Share{hx(s), hx(c.Keys[i].Pub)}, err
	}
	recid := func(sig, dig, pub []byte) int {
		for v := byte(0); v < 2; v++ {
			p, _, err := btcec.RecoverCompact(btcec.S256(), cat([]byte{27 + v}, sig), dig)
			if err == nil && hx(p.SerializeCompressed()) == hx(pub) {
				return int(v)
			}
		}
		return -1
	}
	c.Ext = func(i int, d string, shape int, salt uint64) Share {
		sig := c.Keys[i].extSign(unhex(d), shape, salt)
		v := recid(sig, unhex(d), c.Keys[i].Pub)
		if v < 0 {
			v = 0
		}
		return Share{hx(cat(sig, []byte{byte(v)})), hx(c.Keys[i].Pub)}
	}
	c.CheckShare = func(i int, d string, s Share) error {
		sig := unhex(s.Sig)
		if len(sig) != 65 || !refVerify(k1, c.Keys[i].Pub, unhex(d), sig[:64]) || recid(sig[:64], unhex(d), c.Keys[i].Pub) != int(sig[64]) {
			return fmt.Errorf("signature %s does not verify for digest %s", s.Sig, d)
		}
		return lowS(k1, sig[:64])
	}
	c.Combine = func(e string, _ []string, sh []Share) (string, error) {
		if len(sh) != 1 {
			return "", errOneShare
		}
		ok, f := moac.VerifyAndCombineRawTransaction(e, sh[0].Sig, sh[0].Pub, test)
		if !ok {
			return f, errRefused
		}
		return f, nil
	}
	ser := func(v int64, rr, ss []byte) []byte {
		z := []byte{0x80}
		return rlpList(cat(rlpInt(new(big.Int).SetUint64(nonce)), z, rlpInt(price), rlpInt(limit), rlpItem(to), rlpInt(amount), z, z, z, rlpInt(big.NewInt(v)), rr, ss))
	}
	dig := func(*Build) ([][]byte, error) { return [][]byte{keccak(ser(id, []byte{0x80}, []byte{0x80}))}, nil }
	c.CheckDigests = digestsEqual(dig)
	c.Want = func(b *Build, sh []Share) (string, error) {
		d, _ := dig(b)
		if len(sh) != 1 {
			return "", &clsErr{"share-count", "one share needed"}
		}
		sig := unhex(sh[0].Sig)
		if len(sig) != 65 || !refVerify(k1, unhex(sh[0].Pub), d[0], sig[:64]) || recid(sig[:64], d[0], unhex(sh[0].Pub)) != int(sig[64]) {
			return "", &clsErr{"invalid-signature", "the signature is not valid for the intended transaction"}
		}
		v := id*2 + 35 + int64(sig[64])
		return "0x" + hx(ser(v, rlpInt(new(big.Int).SetBytes(sig[:32])), rlpInt(new(big.Int).SetBytes(sig[32:64])))), nil
	}
	return c
}

func lowS(c curve, sig []byte) error {
	if len(sig) == 64 && !c.edwards() && new(big.Int).SetBytes(sig[32:]).Cmp(new(big.Int).Rsh(curveOrder(c), 1)) > 0 {
		return fmt.Errorf("signature %x has a high s, which the network does not relay", sig)
	}
	return nil
}

var acctGens = []genFn{rippleGen, ontologyGen, vsysGen, atomGen(false), atomGen(true), bnbGen, polkadotGen, waykiGen, moacGen, filenetGen}

// odd says whether the ceremony should ask for something impossible.
func (p *Pool) odd() bool { return !p.hostile && p.r.T.Chance(1, 25) }

// tamperLen makes a hex string one byte shorter or longer, or no hex.
func tamperLen(r *Run, h string) string {
	switch r.T.Intn(4) {
	case 0:
		return h[2:]
	case 1:
		return h + "00"
	case 2:
		return "zz" + h[2:]
	}
	return h[1:]
}
