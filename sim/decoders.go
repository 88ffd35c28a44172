//go:build go1.18

package main

import (
	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	bb32pm "github.com/blocktree/go-owcdrivers/addressEncoder/base32PolyMod"
	bb32 "github.com/blocktree/go-owcdrivers/addressEncoder/bech32"
	bb32m "github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	e55 "github.com/blocktree/go-owcdrivers/addressEncoder/eip55"
	ali "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bnb "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	like "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	btm "github.com/blocktree/go-owcdrivers/bytomTransaction"
	atom "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	ela "github.com/blocktree/go-owcdrivers/elastosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	fn "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hyp "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mate "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	ow "github.com/blocktree/go-owcdrivers/owkeychain"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	xvg "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vol "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wicc "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
)

// Functions a node calls on a text it received. The reader of a transaction
// is found by its driver.
var txReaders = map[string][]func(string){
	"btc":       {func(s string) { btc.DecodeRawTransaction(unhex(s), true) }, func(s string) { btc.DecodeRawTransaction(unhex(s), false) }},
	"hc":        {func(s string) { hc.DecodeRawTransaction(unhex(s), true) }, func(s string) { hc.DecodeRawTransaction(unhex(s), false) }},
	"cxc":       {func(s string) { cxc.DecodeRawTransaction(unhex(s), true) }, func(s string) { cxc.DecodeRawTransaction(unhex(s), false) }},
	"omni":      {func(s string) { omni.DecodeRawTransaction(unhex(s), true) }, func(s string) { omni.DecodeRawTransaction(unhex(s), false) }},
	"zen":       {func(s string) { zen.DecodeRawTransaction(unhex(s), true) }, func(s string) { zen.DecodeRawTransaction(unhex(s), false) }},
	"bch":       {func(s string) { bch.DecodeRawTransaction(unhex(s), true) }, func(s string) { bch.DecodeRawTransaction(unhex(s), false) }},
	"bsv":       {func(s string) { bsv.DecodeRawTransaction(unhex(s), true) }, func(s string) { bsv.DecodeRawTransaction(unhex(s), false) }},
	"btclike":   {func(s string) { like.DecodeRawTransaction(unhex(s)) }},
	"verge":     {func(s string) { xvg.DecodeTxStructRaw(s) }},
	"aliencoin": {func(s string) { ali.DecodeTxStructRaw(s) }},
	"vollar":    {func(s string) { vol.DecodeTxStructRaw(s) }},
	"hypercash": {func(s string) { hyp.GetVinList(s) }},
	"mateverse": {func(s string) { mate.GetInputsFromEmptyRawTransaction(s) }},
	"bytom":     {func(s string) { btm.DecodeRawTransaction(unhex(s)) }, func(s string) { btm.CreateRawTransactionHashForSig(s, false) }, func(s string) { btm.VerifyRawTransaction(s) }},
	"ontology":  {func(s string) { ont.DecodeRawTransaction(unhex(s)) }},
	"vsys":      {func(s string) { vsys.TxStructDecode(unhex(s)) }},
	"bnb":       {func(s string) { bnb.DecodeRawTransaction(unhex(s)) }},
	"polkadot":  {func(s string) { dot.NewTxStructFromJSON(s) }},
}

var addrReaders = []func(string){
	func(s string) { btc.DecodeCheck(s) }, func(s string) { btc.Bech32Decode(s) }, func(s string) { btc.Decode(s, btc.BitcoinAlphabet) },
	func(s string) { hc.DecodeCheck(s) }, func(s string) { hc.Bech32Decode(s) }, func(s string) { hc.Decode(s, hc.BitcoinAlphabet) },
	func(s string) { cxc.DecodeCheck(s) }, func(s string) { cxc.Bech32Decode(s) }, func(s string) { cxc.Decode(s, cxc.BitcoinAlphabet) },
	func(s string) { omni.DecodeCheck(s) }, func(s string) { omni.Bech32Decode(s) }, func(s string) { omni.Decode(s, omni.BitcoinAlphabet) },
	func(s string) { zen.DecodeCheck(s) }, func(s string) { zen.Bech32Decode(s) }, func(s string) { zen.Decode(s, zen.BitcoinAlphabet) },
	func(s string) { bch.DecodeCheck(s) }, func(s string) { bch.Decode(s, bch.BitcoinAlphabet) },
	func(s string) { like.DecodeCheck(s) }, func(s string) { like.Bech32Decode(s) },
	func(s string) { bsv.DecodeCheck(s) }, func(s string) { bsv.Decode(s, bsv.BitcoinAlphabet) },
	func(s string) { xvg.DecodeCheck(s) }, func(s string) { ali.DecodeCheck(s) }, func(s string) { vol.DecodeCheck(s) },
	func(s string) { hyp.DecodeCheck(s) }, func(s string) { ela.DecodeCheck(s) }, func(s string) { ela.GetProgramHashFromAddress(s) },
	func(s string) { fiii.DecodeCheck(s, []byte{1, 2, 3}) }, func(s string) { ont.DecodeCheck(s) }, func(s string) { vsys.DecodeCheck(s) },
	func(s string) { xrp.GetProgramHashFromAddress(s) }, func(s string) { wicc.DecodeCheck(s) }, func(s string) { wicc.GetProgramHashFromAddress(s) },
	func(s string) { btm.Bech32Decode(s) }, func(s string) { atom.Bech32Decode(s) }, func(s string) { eva.Bech32Decode(s) },
	func(s string) { fn.Decode(s, fn.BitcoinAlphabet) },
	func(s string) { ae.Base58Decode(s, ae.NewBase58Alphabet(ae.BTCAlphabet)) },
	func(s string) {
		ae.DecodeData(s, "base58", ae.BTCAlphabet, "doubleSHA256", []byte{0}, nil)
	},
	func(s string) { bb32.Decode(s, ae.BTCBech32Alphabet) }, func(s string) { bb32pm.Decode(s, ae.BTCBech32Alphabet) },
	func(s string) { bb32m.Decode(s, ae.BTCBech32Alphabet) }, func(s string) { bb32m.Bech32mDecode(s, "xch", ae.BTCBech32Alphabet) },
	func(s string) { e55.Eip55_decode(s) },
	func(s string) { ow.OWDecode(s) }, func(s string) { ow.ChainDecode(s) }, func(s string) { ow.GetMultiSigShareData(s) },
	func(s string) { ow.Base58checkDecode(s, []byte{1}) }, func(s string) { ow.Decode(s, ow.BitcoinAlphabet) },
}
