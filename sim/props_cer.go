//go:build go1.18

package main

import "github.com/blocktree/go-owcdrivers/verifsim/simrt"

var btcPrefixes = []btcPrefix{
	{[]byte{0x00}, []byte{0x05}, nil, "bc", 0},
	{[]byte{0x6f}, []byte{0xc4}, nil, "tb", 1},
	{[]byte{0x30}, []byte{0x05}, []byte{0x32}, "ltc", 2},
	{[]byte{0x6f}, []byte{0xc4}, []byte{0x3a}, "tltc", 3},
	{[]byte{0x1c, 0xb8}, []byte{0x1c, 0xbd}, nil, "", 4},
	{[]byte{0x1d, 0x25}, []byte{0x1c, 0xba}, nil, "", 5},
}

var hcPrefixes = []btcPrefix{{[]byte{0x09, 0x7f}, []byte{0x7f}, nil, "Hs", 0}, {[]byte{0x0f, 0x21}, []byte{0x21}, nil, "Ts", 0}}

func btcFamily(multi bool) []genFn {
	bchAddr := func(p btcPrefix, in *btcIn) string { return "bitcoincash:" + cashAddr(hash160(in.Key.Pub)) }
	noHRP := func(ps []btcPrefix) []btcPrefix { return ps[:2] }
	all := []genFn{
		btcGen(drv_btc, btcOpts{version: 2, segwit: true, bech32: true, multi: 2, prefixes: btcPrefixes}, multi),
		btcGen(drv_hc, btcOpts{version: 2, segwit: true, multi: 2, prefixes: hcPrefixes}, multi),
		btcGen(drv_cxc, btcOpts{version: 1, segwit: true, bech32: true, multi: 2, asset: true, prefixes: noHRP(btcPrefixes)}, multi),
		btcGen(drv_omni, btcOpts{version: 2, omni: 1, bech32: true, multi: 1, prefixes: noHRP(btcPrefixes)}, multi),
	}
	if !multi {
		all = append(all,
			btcGen(drv_zen, btcOpts{version: 1, zen: true, prefixes: []btcPrefix{{[]byte{0x20, 0x89}, []byte{0x20, 0x96}, nil, "bc", 0}}}, false),
			btcGen(drv_bch, btcOpts{version: 1, forkID: true, omni: 2, prefixes: noHRP(btcPrefixes), addrOf: bchAddr}, false),
			btcGen(drv_bsv, btcOpts{version: 1, forkID: true, omni: 2, prefixes: noHRP(btcPrefixes)}, false),
		)
	}
	return all
}

var likeOpts = btcOpts{version: 2, segwit: true, bech32: true, multi: 2, prefixes: btcPrefixes[1:2], single: true, noVerify: true}
var likeSolo, likeMulti = btcGen(drv_like, likeOpts, false), btcGen(drv_like, likeOpts, true)

const cerRule = "one seed gives one tape; the tape decides the driver, the intent, the keys, the message order, loss, duplication and delay, crashes, clocks, entropy and corruption"
const cerMeasure = "distinct states of the ceremonies after each event (driver, what is durable, shares held, rejections, messages in flight)"

var cerStub = []string{"wallet and signer processes (event-driven nodes)", "network", "durable storage (JSON text)", "clock", "entropy source", "external signers (independent ECDSA/EdDSA implementation)"}
var cerAssume = []string{"the reference encoders and digests written in /verif/sim follow the public network rules", "SHA-256, RIPEMD-160, Keccak, BLAKE2b and the curve arithmetic of the Go libraries are right"}

// mixed alternates honest and hostile runs.
func mixed(r *Run, gens []genFn) { runCeremonies(r, gens, r.T.Chance(1, 2)) }

func init() {
	btcReal := []string{"btcTransaction", "hcTransaction", "cxcTransaction", "omniTransaction", "zencashTransaction", "bitcoincashTransaction", "bitcoinsvTransaction", "addressEncoder", "owcrypt"}
	btcSolo, btcMulti := btcFamily(false), btcFamily(true)
	btcAll := append(append(append([]genFn{}, btcSolo...), btcSolo...), btcMulti...)
	register(&Property{ID: "C04", Title: "Bitcoin-style drivers build the intended transaction", QuickRuns: 8000, ThorRuns: 60000, Rule: cerRule, Measure: cerMeasure, Real: btcReal, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) { runCeremonies(r, btcSolo, false) }})
	register(&Property{ID: "C05", Title: "Bitcoin-style drivers refuse wrong shares", QuickRuns: 2500, ThorRuns: 60000, Rule: cerRule, Measure: cerMeasure, Real: btcReal, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) {
			if r.T.Chance(1, 6) {
				strangers(r, btcSolo)
				return
			}
			runCeremonies(r, btcAll, true)
		}})
	register(&Property{ID: "C07", Title: "The Bitcoin testnet driver btcLikeTxDriver", QuickRuns: 2500, ThorRuns: 60000, Rule: cerRule, Measure: cerMeasure, Real: []string{"btcLikeTxDriver", "owcrypt"}, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) {
			switch {
			case r.T.Chance(1, 8):
				strangers(r, []genFn{likeSolo})
			case r.T.Chance(1, 2):
				runCeremonies(r, []genFn{likeSolo}, true)
			default:
				runCeremonies(r, []genFn{likeSolo, likeSolo, likeMulti}, false)
			}
		}})
	register(&Property{ID: "C06", Title: "Bitcoin-style multisig thresholds", QuickRuns: 2500, ThorRuns: 60000, Rule: cerRule, Measure: cerMeasure, Real: btcReal[:4], Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) {
			if r.T.Chance(1, 4) {
				d := []*btcDrv{drv_btc, drv_hc, drv_cxc, drv_omni}[r.T.Intn(4)]
				ps := btcPrefixes[:2]
				if d == drv_hc {
					ps = hcPrefixes
				}
				simrt.SeedTask(0, r.T.U64(), defaultClock, 1000)
				for i := r.T.Range(1, 4); i > 0; i-- {
					oddAccounts(r, d, ps, d != drv_omni && r.T.Chance(1, 2))
				}
				return
			}
			mixed(r, btcMulti)
		}})
}

var utxoGens = []genFn{vergeGen, aliencoinGen, vollarGen, hypercashGen, mateverseGen, elastosGen, fiiiGen, bigbangGen, bytomGen}

func init() {
	real := []string{"vergeTransaction", "aliencoinTransaction", "vollarTransaction", "hypercashTransaction", "mateverseTransaction", "elastosTransaction", "fiiiTransaction", "bigbangTransaction", "bytomTransaction", "owcrypt"}
	register(&Property{ID: "C08", Title: "Other UTXO coins build the intended transaction", Real: real, QuickRuns: 8000, ThorRuns: 60000, Rule: cerRule, Measure: cerMeasure, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) { runCeremonies(r, utxoGens, false) }})
	register(&Property{ID: "C09", Title: "Other UTXO coins refuse wrong shares", Real: real, QuickRuns: 6000, ThorRuns: 60000, Rule: cerRule, Measure: cerMeasure, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) { runCeremonies(r, utxoGens, true) }})
}

func init() {
	real := []string{"rippleTransaction", "ontologyTransaction", "virtualeconomyTransaction", "cosmosTransaction", "evaioTransaction", "binancechainTransaction", "polkadotTransaction", "waykichainTransaction", "moacchainTransaction", "filenetTransaction", "owcrypt"}
	register(&Property{ID: "C10", Title: "Account coins build the intended transaction", Real: real, QuickRuns: 12000, ThorRuns: 300000, Rule: cerRule, Measure: cerMeasure, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) { runCeremonies(r, acctGens, false) }})
	register(&Property{ID: "C11", Title: "Account coins refuse wrong shares", Real: real, QuickRuns: 12000, ThorRuns: 300000, Rule: cerRule, Measure: cerMeasure, Stub: cerStub, Assume: cerAssume,
		Body: func(r *Run) { runCeremonies(r, acctGens, true) }})
}
