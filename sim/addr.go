//go:build go1.18

package main

import (
	"bytes"
	"fmt"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcrypt"
)

// The address book scenario: one node encodes payment addresses and key
// strings, they are stored and sent around, damaged on disk, in transit and by
// typing, and read back by nodes that restarted.

type addrType struct {
	name     string
	real     *ae.AddressType
	enc      string
	alphabet string
	chk      string // checksum type, or the human-readable prefix
	hash     string
	n        int
	pre, suf string
}

func (a *addrType) prefix() []byte { return unhex(a.pre) }

func owh(b []byte, alg uint32, n uint16) []byte { return owcrypt.Hash(b, n, alg) }

func (a *addrType) sum(b []byte) []byte {
	switch a.chk {
	case "doubleSHA256":
		return dsha(b)[:4]
	case "doubleBlake256":
		return blake256(blake256(b))[:4]
	case "keccak256":
		return keccak(b)[:4]
	case "sha3_256":
		return sha3(b)[:4]
	case "ripemd160":
		return ripemd(b)[:4]
	}
	return keccak(blake2b(b))[:4]
}

func (a *addrType) hashOf(pub []byte) []byte {
	switch a.hash {
	case "h160":
		return hash160(pub)
	case "blake2b160":
		return owh(pub, owcrypt.HASH_ALG_BLAKE2B, 20)
	case "ripemd160":
		return ripemd(pub)
	case "keccak256":
		return keccak(pub)
	case "sha3_256_last_twenty":
		return sha3(pub)[12:]
	case "keccak256_last_twenty":
		return keccak(pub)[12:]
	case "sha3_256_ripemd160":
		return ripemd(sha3(pub))
	case "blake2b_and_keccak256_first_twenty":
		return keccak(blake2b(pub))[:20]
	}
	return nil
}

// text is the reference encoding of a payload.
func (a *addrType) text(p []byte) string {
	switch a.enc {
	case "bech32":
		return bech32enc(a.chk, append(a.prefix(), to5(p)...), 1)
	case "bech32m":
		return bech32enc(a.chk, to5(p), 0x2bc830a3)
	case "base32PolyMod":
		return "bitcoincash:" + cashAddrT(p[0], p[1:])
	case "eip55":
		return hx(p[12:])
	case "ICX":
		return "hx" + hx(p)
	case "eos", "aeternity":
		return string(a.prefix()) + base58(cat(p, a.sum(p)), a.alphabet)
	case "XMR":
		b := cat(a.prefix(), p)
		b = cat(b, keccak(b)[:4])
		out := ""
		for len(b) > 0 {
			n, w := 8, 11
			if len(b) < 8 {
				n, w = len(b), 7
			}
			s := base58(b[:n], a.alphabet)
			out += strings.Repeat("1", w-len(s)) + s
			b = b[n:]
		}
		return out
	}
	b := cat(a.prefix(), p, unhex(a.suf))
	return base58(cat(b, a.sum(b)), a.alphabet)
}

// payload is what decoding the address of p has to give.
func (a *addrType) payload(p []byte) []byte {
	switch a.enc {
	case "base32PolyMod":
		return cat([]byte{p[0] << 3}, p[1:])
	case "eip55":
		return p[12:]
	}
	return p
}

func (a *addrType) checked() bool { return a.enc != "eip55" && a.enc != "ICX" }

// sameAs: the two types cannot be told apart by their addresses.
func (a *addrType) sameAs(b *addrType) bool {
	if !a.checked() || !b.checked() {
		return !a.checked() && !b.checked()
	}
	return a.enc == b.enc && a.alphabet == b.alphabet && a.chk == b.chk && a.n == b.n && (a.enc == "bech32" || (a.pre == b.pre && a.suf == b.suf))
}

// bech32Valid reports whether the checksum of a bech32 string holds; two
// different strings can both be valid, which no reader can notice.
func bech32Valid(s string) bool {
	s = strings.ToLower(s)
	i := strings.LastIndexByte(s, '1')
	if i < 1 {
		return false
	}
	var v []byte
	for j := 0; j < i; j++ {
		v = append(v, s[j]>>5)
	}
	v = append(v, 0)
	for j := 0; j < i; j++ {
		v = append(v, s[j]&31)
	}
	for j := i + 1; j < len(s); j++ {
		k := strings.IndexByte(b32alpha, s[j])
		if k < 0 {
			return false
		}
		v = append(v, byte(k))
	}
	pm := bech32Polymod(v)
	return pm == 1 || pm == 0x2bc830a3
}

// counterfeit is a text of the right kind with its checksum right that no
// payload of this type has as its address.
func (a *addrType) counterfeit(r *Run, p []byte) (string, string) {
	t := r.T
	rg := t.Rng()
	switch a.enc {
	case "bech32", "bech32m":
		d := append([]byte{}, to5(p)...)
		pre := a.prefix()
		if a.enc == "bech32m" {
			pre = nil
		}
		k, other := uint32(1), uint32(0x2bc830a3)
		if a.enc == "bech32m" {
			k, other = other, k
		}
		switch t.Intn(5) {
		case 4:
			if len(pre) == 0 {
				return "", ""
			}
			return "other witness version", bech32enc(a.chk, append([]byte{byte(1 + rg.Intn(31))}, d...), []uint32{k, other}[rg.Intn(2)])
		case 0:
			return "other checksum constant", bech32enc(a.chk, append(pre, d...), other)
		case 1:
			if n := len(d)*5 - len(p)*8; n > 0 {
				d[len(d)-1] |= byte(1 + rg.Intn(1<<uint(n)-1))
				return "padding bits not zero", bech32enc(a.chk, append(pre, d...), k)
			}
			return "", ""
		case 2:
			for len(d)*5-len(p)*8 < 5 {
				d = append(d, 0)
			}
			return "a group too many", bech32enc(a.chk, append(pre, d...), k)
		default:
			q := append(append([]byte{}, p...), rg.Bytes(1+rg.Intn(4))...)
			if t.Chance(1, 2) {
				q = p[:len(p)-1-rg.Intn(3)]
			}
			return "payload of another length", bech32enc(a.chk, append(pre, to5(q)...), k)
		}
	case "base32PolyMod":
		if t.Chance(1, 2) {
			return "payload of another length", "bitcoincash:" + cashAddrT(p[0]>>3, append(append([]byte{}, p[1:]...), rg.Bytes(1+rg.Intn(4))...))
		}
		return "payload of another length", "bitcoincash:" + cashAddrT(p[0]>>3, p[1:len(p)-1-rg.Intn(3)])
	case "eos", "aeternity":
		q := p
		pre := string(a.prefix())
		switch t.Intn(3) {
		case 0:
			q = append(append([]byte{}, p...), byte(rg.Intn(256)))
		case 1:
			q = p[:len(p)-1]
		default:
			b := []byte(pre)
			b[rg.Intn(len(b))] ^= byte(1 << uint(rg.Intn(6)))
			pre = string(b)
			return "other prefix", pre + base58(cat(p, a.sum(p)), a.alphabet)
		}
		return "payload of another length", pre + base58(cat(q, a.sum(q)), a.alphabet)
	case "base58":
		pre, suf := append([]byte{}, a.prefix()...), unhex(a.suf)
		q := p
		what := "payload of another length"
		switch t.Intn(4) {
		case 0:
			q = append(append([]byte{}, p...), rg.Bytes(1+rg.Intn(2))...)
		case 1:
			q = p[:len(p)-1-rg.Intn(2)]
		case 2:
			if len(pre) == 0 {
				return "", ""
			}
			what = "other version"
			pre[rg.Intn(len(pre))] ^= byte(1 << uint(rg.Intn(8)))
		default:
			if len(suf) == 0 {
				return "", ""
			}
			what = "other suffix"
			suf[rg.Intn(len(suf))] ^= byte(1 << uint(rg.Intn(8)))
		}
		b := cat(pre, q, suf)
		return what, base58(cat(b, a.sum(b)), a.alphabet)
	}
	return "", ""
}

var checkSymbols = map[string]string{"BTC": "BTC", "ZEC": "ZEC", "LTC": "LTC", "BCH": "BCH", "XTZ": "XTZ", "HC": "HC", "QTUM": "QTUM", "DCRD": "DCRD", "NAS": "NAS", "TRON": "TRX", "VSYS": "VSYS"}

// symbol is the coin AddressCheck knows this type's addresses by.
func (a *addrType) symbol() string {
	c := strings.SplitN(a.name, "_", 2)[0]
	s := checkSymbols[c]
	switch {
	case strings.Contains(a.name, "Private") && c != "DCRD", strings.Contains(a.name, "Public") && c != "HC":
		return ""
	case c == "HC" && a.pre != "097f", c == "TRON" && a.pre != "41", c == "VSYS" && a.pre != "054d":
		return ""
	case a.name == "LTC_testnetAddressP2SH2", a.name == "DCRD_simnetAddressPrivate":
		return ""
	}
	return s
}

type addrEntry struct {
	a    *addrType
	p    []byte
	text string
}

func addressBook(r *Run) {
	t := r.T
	var book []*addrEntry
	fail := func(class string, a *addrType, f string, x ...interface{}) {
		r.Fail(class+"|"+a.enc, "%s: %s", a.name, fmt.Sprintf(f, x...))
	}
	hostile := t.Chance(2, 3)
	add := func() {
		a := &addrTypes[t.Intn(len(addrTypes))]
		rg := t.Rng()
		p := rg.Bytes(a.n)
		switch t.Intn(4) {
		case 1:
			p[0] = 0
		case 2:
			for i := 0; i < len(p)/2; i++ {
				p[i] = 0
			}
		case 3:
			for i := range p {
				p[i] = []byte{0, 0xff}[rg.Intn(2)]
			}
		}
		if a.enc == "base32PolyMod" {
			p[0] = byte(rg.Intn(2))
		}
		in := p
		how := "payload"
		if a.hash != "" && a.hash != "payID" && a.enc != "bech32" && a.enc != "base32PolyMod" && !strings.Contains(a.name, "Private") && t.Chance(1, 3) {
			in = rg.Bytes([]int{33, 65, 64, 40}[rg.Intn(4)])
			p = a.hashOf(in)
			how = "public key"
		}
		if a.enc == "bech32" && t.Chance(1, 4) && a.pre != "" {
			p = rg.Bytes(32)
			in = p
		}
		want := a.text(p)
		var got string
		if o := call(func() { got = ae.AddressEncode(in, *a.real) }); o.Bad() {
			fail("encode-panicked", a, "AddressEncode(%x): %v", in, o)
			return
		}
		r.Logf("encode %s %s %x -> %s", a.name, how, in, got)
		if got != want {
			fail("encoding-mismatch", a, "AddressEncode of %s %x is %q, the network's is %q", how, in, got, want)
			return
		}
		book = append(book, &addrEntry{a, a.payload(p), got})
	}
	read := func(e *addrEntry, as *addrType, text string) {
		var got []byte
		var err error
		if o := call(func() { got, err = ae.AddressDecode(text, *as.real) }); o.Bad() {
			fail("decode-panicked", as, "AddressDecode(%q): %v", text, o)
			return
		}
		r.Logf("decode %q as %s: %v", text, as.name, err)
		good := text == e.text && as == e.a
		switch {
		case err != nil && good:
			fail("good-address-refused", as, "AddressDecode(%q): %v", text, err)
		case err != nil:
			r.Count("damaged_or_foreign_refused")
		case good && !bytes.Equal(got, e.p):
			fail("decoding-mismatch", as, "AddressDecode(%q) is %x, must be %x", text, got, e.p)
		case good:
			r.Count("good_read")
		case !as.sameAs(e.a):
			fail("foreign-address-accepted", as, "AddressDecode(%q) is %x, the text is from %s", text, got, e.a.name)
		case as.checked() && !bytes.Equal(got, e.p):
			if strings.HasPrefix(as.enc, "bech32") && bech32Valid(text) {
				r.Count("bech32_inherent_collision")
				return
			}
			fail("damaged-address-accepted", as, "AddressDecode(%q) is %x, the original was %q for %x", text, got, e.text, e.p)
		case as.checked() && text != e.text && text != strings.ToUpper(e.text):
			fail("damaged-address-accepted", as, "AddressDecode(%q) is %x, the original was %q", text, got, e.text)
		default:
			r.Count("damage_harmless")
		}
	}
	check := func(e *addrEntry, text string) {
		sym := e.a.symbol()
		if sym == "" {
			return
		}
		var ok bool
		var err error
		if o := call(func() { ok, err = ae.AddressCheck(text, sym) }); o.Bad() {
			fail("check-panicked", e.a, "AddressCheck(%q, %s): %v", text, sym, o)
			return
		}
		r.Logf("check %q for %s: %v %v", text, sym, ok, err)
		if text == e.text {
			if !ok || err != nil {
				fail("good-address-refused", e.a, "AddressCheck(%q, %s): %v %v", text, sym, ok, err)
			}
			return
		}
		if ok && !strings.EqualFold(text, e.text) && !(strings.HasPrefix(e.a.enc, "bech32") && bech32Valid(text)) {
			fail("damaged-address-accepted", e.a, "AddressCheck(%q, %s) is true, the original was %q", text, sym, e.text)
		}
		if ok && e.a.checked() && text != strings.ToUpper(e.text) {
			fail("damaged-address-accepted", e.a, "AddressCheck(%q, %s) is true, the original was %q", text, sym, e.text)
		}
		r.Count("damaged_checked")
	}
	add()
	for i := t.Range(4, 24); i > 0; i-- {
		r.Sim += 100 * ms
		e := book[t.Intn(len(book))]
		switch t.Intn(7) {
		case 0, 1:
			add()
		case 6: // somebody else's software made it up
			if !hostile {
				break
			}
			what, text := e.a.counterfeit(r, e.p)
			if text == "" {
				break
			}
			r.Count("fault:counterfeit")
			var got []byte
			var err error
			if o := call(func() { got, err = ae.AddressDecode(text, *e.a.real) }); o.Bad() {
				fail("decode-panicked", e.a, "AddressDecode(%q): %v", text, o)
			} else if err == nil {
				fail("counterfeit-accepted", e.a, "AddressDecode(%q) is %x, but its %s", text, got, what)
			}
			r.Logf("decode counterfeit %q (%s): %v", text, what, err)
		case 2: // restart: the book is read back, perhaps from a damaged disk
			r.Count("fault:restart")
			for _, e := range book {
				text := e.text
				if hostile && t.Chance(1, 3) {
					text = mangleText(r, text)
					if text != e.text {
						r.Count("fault:stored_text_damaged")
					}
				}
				read(e, e.a, text)
			}
		case 3: // sent to another node, which may take it for another coin's
			as := e.a
			if hostile && t.Chance(1, 2) {
				as = &addrTypes[t.Intn(len(addrTypes))]
				if t.Chance(1, 2) { // a sibling network
					o := &addrTypes[t.Intn(len(addrTypes))]
					if o.enc == e.a.enc {
						as = o
					}
				}
				if as != e.a {
					r.Count("fault:misrouted_to_other_network")
				}
			}
			text := e.text
			if hostile && as == e.a && t.Chance(1, 2) {
				text = mangleText(r, text)
				r.Count("fault:sent_text_damaged")
			}
			read(e, as, text)
		case 4, 5: // somebody types it in and it is checked
			text := e.text
			if hostile && t.Chance(1, 2) {
				text = mangleText(r, text)
				r.Count("fault:typing_error")
			}
			check(e, text)
		}
		r.State(hashStr(e.a.name), uint64(len(book)))
	}
}

func init() {
	register(&Property{ID: "C13", Title: "Damaged, mistyped or foreign addresses are refused", QuickRuns: 300000, ThorRuns: 4000000,
		Rule:    "one seed gives one tape; the tape decides the coins, payloads, restarts, storage damage, transmission damage, misrouting and typing errors",
		Measure: "distinct (address type read, book size) situations",
		Real:    []string{"addressEncoder (all encoders)", "the transaction builders of 21 driver packages", "owcrypt"}, Stub: []string{"address book nodes", "durable storage", "network", "typist"},
		Assume: []string{"hash functions are right", "four-byte checksums do not collide on the damages drawn"},
		Body: func(r *Run) {
			if r.T.Chance(1, 2) {
				typedPayments(r)
			} else {
				addressBook(r)
			}
		}})
}
