//go:build go1.18

package main

import (
	"errors"
	"fmt"

	pkg "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
)

func unlock_like(t *btcTx) []pkg.TxUnlock {
	var u []pkg.TxUnlock
	for _, in := range t.Ins {
		u = append(u, pkg.TxUnlock{LockScript: hx(in.Lock), RedeemScript: hx(in.Redeem), Amount: in.Amount})
	}
	return u
}

var drv_like = &btcDrv{
	name:    "btclike",
	noRoute: true,
	create: func(t *btcTx, p btcPrefix, x *btcExtra) (string, error) {
		var ins []pkg.Vin
		for _, in := range t.Ins {
			ins = append(ins, pkg.Vin{TxID: hx(in.TxID), Vout: in.Vout})
		}
		var outs []pkg.Vout
		for _, o := range t.Outs {
			outs = append(outs, pkg.Vout{Address: at(o.Addr), Amount: o.Amount})
		}
		return pkg.CreateEmptyRawTransaction(lendS(ins), lendS(outs), t.Lock, t.RBF)
	},
	hashes: func(empty string, t *btcTx, p btcPrefix) ([]btcHash, error) {
		hs, err := pkg.CreateRawTransactionHashForSig(empty, lendS(unlock_like(t)))
		returned()
		if err != nil {
			return nil, err
		}
		var out []btcHash
		for _, h := range hs {
			out = append(out, btcHash{Hash: h})
		}
		return out, nil
	},
	multisig: func(m int, pubs [][]byte, seg bool, p btcPrefix) (string, string, error) {
		return pkg.CreateMultiSig(byte(m), lendS(pubs))
	},
	sign: func(hash string, priv []byte) ([]byte, []byte, error) {
		sp, err := pkg.SignRawTransactionHash(lendS([]string{hash}), lendS([]pkg.TxUnlock{{PrivateKey: priv}}))
		if err != nil {
			return nil, nil, err
		}
		if len(sp) != 1 {
			return nil, nil, fmt.Errorf("%d signatures for one digest", len(sp))
		}
		return sp[0].Signature, sp[0].Pubkey, nil
	},
	combine: func(empty string, t *btcTx, p btcPrefix, slots []btcSlot, shares []Share) (string, error) {
		var sps []pkg.SignaturePubkey
		multi := t.Ins[0].M > 0
		for i, sh := range shares {
			if multi && i >= t.Ins[0].M { // more keys signed than needed
				break
			}
			sps = append(sps, pkg.SignaturePubkey{Signature: lend(unhex(sh.Sig)), Pubkey: lend(unhex(sh.Pub))})
		}
		final, err := pkg.InsertSignatureIntoEmptyTransaction(empty, lendS(sps), lendS(unlock_like(t)))
		returned()
		if err != nil {
			return "", err
		}
		if final == "" {
			return "", errors.New("no transaction returned")
		}
		if !multi && !pkg.VerifyRawTransaction(final, lendS(unlock_like(t))) {
			return "", errors.New("verification failed")
		}
		return final, nil
	},
	verify: func(final string, t *btcTx, p btcPrefix) bool {
		return pkg.VerifyRawTransaction(final, lendS(unlock_like(t)))
	},
	signAll: func(empty string, t *btcTx) (string, error) {
		u := unlock_like(t)
		for i := range u {
			u[i].PrivateKey = lendKey(t.Ins[i].Key.Priv)
		}
		return pkg.SignEmptyRawTransaction(empty, lendS(u))
	},
}
