#!/bin/bash
# Writes sim/drv_<name>.go for the Bitcoin-style driver packages.
cd "$(dirname "$0")/../sim" || exit 1
std='return pkg.CreateEmptyRawTransaction(lendS(ins), lendS(outs), t.Lock, t.RBF, pfx_@NAME@(p))'
gen() { # name pkg p2sh2 create seg
	local seg="seg_$1(t), " seg2=", seg_$1(t)" mseg="seg, "
	[ "$5" = noseg ] && seg="" seg2="" mseg=""
	python3 - "$1" "$2" "$3" "$4" "$seg" "$seg2" "$mseg" <<'P'
import sys
n,p,s2,c,seg,seg2,mseg=sys.argv[1:]
t=open('../tools/btcfam.tmpl').read()
t=t.replace('@CREATE@',c).replace('@SEG@',seg).replace('@MSEG@',mseg).replace('@SEG2@',seg2).replace('@P2SH2@',s2).replace('@NAME@',n).replace('@PKG@',p)
open('drv_%s.go'%n,'w').write(t)
P
	gofmt -w drv_$1.go
}
omni='om := pkg.OmniStruct{TxType: pkg.SimpleSend, PropertyId: x.OmniProp, Amount: x.OmniAmount}
		if x.OmniType != 0 { om = pkg.OmniStruct{TxType: x.OmniType, PropertyId: x.OmniProp, Amount: x.OmniAmount, Ecosystem: x.OmniEco, Memo: x.OmniMemo, Address: omniAddr(x)} }'
gen btc btcTransaction 'P2SHPrefix: p.P2SH2, ' "$std"
gen hc hcTransaction '' "$std"
gen cxc cxcTransaction '' "if x.Asset { var as []pkg.AssetTransfer; for _, a := range x.Assets { as = append(as, pkg.AssetTransfer{FirstSellTxID: hx(a.TxID), Address: at(a.Addr), Amount: a.Amount}) }; return pkg.CreateEmptyAssetRawTransaction(lendS(ins), lendS(as), outs[0], t.Lock, t.RBF, pfx_@NAME@(p)) }
		$std"
gen omni omniTransaction '' "$omni
		return pkg.CreateEmptyRawTransaction(lendS(ins), lendS(outs), om, t.Lock, t.RBF, pfx_@NAME@(p))" noseg
gen zen zencashTransaction '' 'return pkg.CreateEmptyRawTransaction(lendS(ins), lendS(outs), t.Lock, t.RBF, pfx_@NAME@(p), hx(x.BlockHash), x.BlockHeight)'
for c in bch:bitcoincashTransaction bsv:bitcoinsvTransaction; do
gen ${c%%:*} ${c##*:} 'P2SHPrefix: p.P2SH2, ' "if x.Omni { $omni
		return pkg.CreateEmptyOmniRawTransaction(lendS(ins), lendS(outs), om, t.Lock, t.RBF, pfx_@NAME@(p)) }
		$std"
done
