//go:build go1.18

package main

// Generated from tools/btcfam.tmpl by tools/gen_btcfam.sh.

import (
	"errors"
	"fmt"

	pkg "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
)

func pfx_bsv(p btcPrefix) pkg.AddressPrefix {
	return pkg.AddressPrefix{P2PKHPrefix: lend(p.P2PKH), P2WPKHPrefix: lend(p.P2SH), P2SHPrefix: p.P2SH2, Bech32Prefix: p.HRP}
}

func seg_bsv(t *btcTx) bool {
	for _, in := range t.Ins {
		if in.Kind == inP2SHP2WPKH || in.Kind == inP2WPKH || in.Kind == inMultiWit {
			return true
		}
	}
	return false
}

func unlock_bsv(t *btcTx) []pkg.TxUnlock {
	var u []pkg.TxUnlock
	for _, in := range t.Ins {
		u = append(u, pkg.TxUnlock{LockScript: hx(in.Lock), RedeemScript: hx(in.Redeem), Amount: in.Amount, SigType: pkg.SigHashAll})
	}
	return u
}

var drv_bsv = &btcDrv{
	name: "bsv",
	create: func(t *btcTx, p btcPrefix, x *btcExtra) (string, error) {
		var ins []pkg.Vin
		for _, in := range t.Ins {
			ins = append(ins, pkg.Vin{TxID: hx(in.TxID), Vout: in.Vout})
		}
		var outs []pkg.Vout
		for _, o := range t.Outs {
			if o.Addr == "" {
				continue
			}
			outs = append(outs, pkg.Vout{Address: at(o.Addr), Amount: o.Amount})
		}
		if x.Omni {
			om := pkg.OmniStruct{TxType: pkg.SimpleSend, PropertyId: x.OmniProp, Amount: x.OmniAmount}
			if x.OmniType != 0 {
				om = pkg.OmniStruct{TxType: x.OmniType, PropertyId: x.OmniProp, Amount: x.OmniAmount, Ecosystem: x.OmniEco, Memo: x.OmniMemo, Address: omniAddr(x)}
			}
			return pkg.CreateEmptyOmniRawTransaction(lendS(ins), lendS(outs), om, t.Lock, t.RBF, pfx_bsv(p))
		}
		return pkg.CreateEmptyRawTransaction(lendS(ins), lendS(outs), t.Lock, t.RBF, pfx_bsv(p))
	},
	hashes: func(empty string, t *btcTx, p btcPrefix) ([]btcHash, error) {
		hs, err := pkg.CreateRawTransactionHashForSig(empty, lendS(unlock_bsv(t)), seg_bsv(t), pfx_bsv(p))
		returned()
		if err != nil {
			return nil, err
		}
		var out []btcHash
		for _, h := range hs {
			b := btcHash{Hash: h.GetTxHashHex(), NReq: int(h.NRequired)}
			if h.IsMultisig() {
				b.Pubs = h.GetMultiTxPubkeys()
			} else {
				b.Addr = h.GetNormalTxAddress()
			}
			out = append(out, b)
		}
		return out, nil
	},
	multisig: func(m int, pubs [][]byte, seg bool, p btcPrefix) (string, string, error) {
		return pkg.CreateMultiSig(byte(m), lendS(pubs), seg, pfx_bsv(p))
	},
	sign: func(hash string, priv []byte) ([]byte, []byte, error) {
		sp, err := pkg.SignRawTransactionHash(hash, priv)
		if err != nil {
			return nil, nil, err
		}
		return sp.Signature, sp.Pubkey, nil
	},
	combine: func(empty string, t *btcTx, p btcPrefix, slots []btcSlot, shares []Share) (string, error) {
		hs, err := pkg.CreateRawTransactionHashForSig(empty, lendS(unlock_bsv(t)), seg_bsv(t), pfx_bsv(p))
		returned()
		if err != nil {
			return "", err
		}
		for i, sh := range shares {
			if i >= len(slots) {
				break
			}
			s := slots[i]
			if s.In >= len(hs) {
				return "", errors.New("fewer digests than inputs")
			}
			sp := pkg.SignaturePubkey{Signature: lend(unhex(sh.Sig)), Pubkey: lend(unhex(sh.Pub))}
			if s.Key < 0 {
				if hs[s.In].Normal == nil {
					return "", errors.New("not a plain input")
				}
				hs[s.In].Normal.SigPub = sp
			} else {
				if s.Key >= len(hs[s.In].Multi) {
					return "", errors.New("not a listed key")
				}
				hs[s.In].Multi[s.Key].SigPub = sp
			}
		}
		final, err := pkg.InsertSignatureIntoEmptyTransaction(empty, lendS(hs), lendS(unlock_bsv(t)), seg_bsv(t))
		returned()
		if err != nil {
			return "", err
		}
		if final == "" {
			return "", fmt.Errorf("no transaction returned")
		}
		if !pkg.VerifyRawTransaction(final, lendS(unlock_bsv(t)), seg_bsv(t), pfx_bsv(p)) {
			return "", errors.New("verification failed")
		}
		return final, nil
	},
	verify: func(final string, t *btcTx, p btcPrefix) bool {
		return pkg.VerifyRawTransaction(final, lendS(unlock_bsv(t)), seg_bsv(t), pfx_bsv(p))
	},
}
