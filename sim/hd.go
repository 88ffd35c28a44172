//go:build go1.18

package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strings"

	"github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcrypt"
)

// The HD wallet scenario: an offline signer that holds the seed, watch-only
// nodes that hold exported public keys, and a vault with private backups.
// Keys travel as owpub/owprv strings over a lossy, corrupting network and
// survive restarts only as those strings.

var hdCurves = []uint32{
	owcrypt.ECC_CURVE_ED25519, owcrypt.ECC_CURVE_SECP256K1, owcrypt.ECC_CURVE_X25519, owcrypt.ECC_CURVE_SECP256R1,
	owcrypt.ECC_CURVE_CURVE25519_SHA256, owcrypt.ECC_CURVE_SM2_STANDARD, owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL,
	owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, owcrypt.ECC_CURVE_PASTA,
}

func hdEd(c uint32) bool {
	return c == owcrypt.ECC_CURVE_ED25519 || c == owcrypt.ECC_CURVE_X25519 || c == owcrypt.ECC_CURVE_CURVE25519_SHA256
}
func hdBLS(c uint32) bool {
	return c == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || c == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
}

func hdOrder(c uint32) *big.Int {
	h := map[uint32]string{
		owcrypt.ECC_CURVE_SECP256K1:    "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141",
		owcrypt.ECC_CURVE_SECP256R1:    "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551",
		owcrypt.ECC_CURVE_SM2_STANDARD: "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123",
	}[c]
	if hdBLS(c) {
		h = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
	}
	if h == "" {
		h = strings.Repeat("F", 64)
	}
	n, _ := new(big.Int).SetString(h, 16)
	return n
}

// hdRef is the reference key: the derivation written out from its definition,
// always from the private side.
type hdRef struct {
	curve         uint32
	priv, pub, cc []byte
	fp            []byte
	depth         byte
	idx           uint32
}

func hdPub(c uint32, priv []byte) []byte {
	if hdEd(c) {
		c = owcrypt.ECC_CURVE_ED25519
	}
	return owcrypt.Point_mulBaseG(priv, c)
}

func hdRoot(seed []byte, c uint32) *hdRef {
	a := sha512.Sum512(seed)
	i := a[:]
	switch {
	case hdEd(c):
		i[0] &= 248
		i[31] = i[31]&63 | 64
	case hdBLS(c):
		if i[0] > 0x72 {
			i[0] = 0x72
		}
	case c == owcrypt.ECC_CURVE_PASTA:
		i[0] &= 3
	}
	k := &hdRef{curve: c, priv: append([]byte{}, i[:32]...), cc: append([]byte{}, i[32:]...), fp: make([]byte, 4)}
	k.pub = hdPub(c, k.priv)
	return k
}

func (k *hdRef) child(i uint32) *hdRef {
	h := hmac.New(sha512.New, k.cc)
	data := k.pub
	if i >= 1<<31 {
		data = k.priv
	}
	if len(data) == 32 {
		h.Write([]byte{0})
	}
	h.Write(data)
	h.Write(be32(i))
	I := h.Sum(nil)
	if hdBLS(k.curve) && I[0] > 0x72 {
		I[0] = 0x72
	}
	if k.curve == owcrypt.ECC_CURVE_PASTA {
		I[0], I[1], I[2] = 0, 0, 0
	}
	c := &hdRef{curve: k.curve, cc: I[32:], depth: k.depth + 1, idx: i, fp: hash160(k.pub)[:4]}
	if hdEd(k.curve) {
		x := new(big.Int).SetBytes(rev(I[:28]))
		x.Lsh(x, 3)
		x.Add(x, new(big.Int).SetBytes(rev(k.priv)))
		c.priv = rev(pad32(x))
	} else {
		x := new(big.Int).SetBytes(I[:32])
		x.Add(x, new(big.Int).SetBytes(k.priv))
		c.priv = pad32(x.Mod(x, hdOrder(k.curve)))
	}
	c.pub = hdPub(c.curve, c.priv)
	return c
}

func (k *hdRef) text(private bool) string {
	d := cat(be32(k.curve), []byte{k.depth}, k.fp, be32(k.idx), k.cc)
	key := k.pub
	prefix := []byte{0x07, 0xa8, 0x10, 0x31, 0xa2}
	if private {
		key = k.priv
		prefix = []byte{0x07, 0xa8, 0x10, 0x0c, 0x28}
	} else if hdBLS(k.curve) {
		prefix = []byte{0x3e, 0x00, 0xfa, 0xea, 0x69}
	}
	if len(key) == 32 {
		d = append(d, 0)
	}
	return b58check(prefix, append(d, key...))
}

func (k *hdRef) share() string {
	d := []byte{0x08, 0x61, 0x24, 0x96, 0x12, 0xae, 0x5c}
	if len(k.pub) == 32 {
		d = append(d, 0)
	}
	return base58(cat(d, k.pub, k.cc, be32(k.curve)), b58std)
}

type hdNode struct {
	name    string
	private bool
	disk    string // the string the node keeps
	ref     *hdRef // what it stands for
	mem     *owkeychain.ExtendedKey
}

type hdSim struct {
	r       *Run
	curve   uint32
	seed    []byte
	root    *hdRef
	cache   map[string]*hdRef
	nodes   []*hdNode
	hostile bool
	inbox   []func()
}

// at is the reference key of a path.
func (s *hdSim) at(path []uint32) *hdRef {
	k := s.root
	for i := range path {
		id := fmt.Sprint(path[:i+1])
		c, ok := s.cache[id]
		if !ok {
			c = k.child(path[i])
			s.cache[id] = c
		}
		k = c
	}
	return k
}

func (s *hdSim) fail(class, f string, a ...interface{}) {
	s.r.Fail(class+"|hd", "curve %x: %s", s.curve, fmt.Sprintf(f, a...))
}

// same compares a real key with its reference.
func (s *hdSim) same(what string, k *owkeychain.ExtendedKey, ref *hdRef, private bool) {
	if k == nil {
		s.fail("no-key", "%s gave no key", what)
		return
	}
	var text string
	var pub, priv []byte
	var perr error
	var pk *owkeychain.ExtendedKey
	if o := call(func() {
		text, pub = k.OWEncode(), k.GetPublicKeyBytes()
		priv, perr = k.GetPrivateKeyBytes()
		pk = k.GetPublicKey()
	}); o.Bad() {
		s.fail("key-panicked", "%s: %v", what, o)
	}
	if text != ref.text(private) {
		s.fail("key-mismatch", "%s: key is %s, must be %s", what, text, ref.text(private))
	}
	if !bytes.Equal(pub, ref.pub) {
		s.fail("public-key-mismatch", "%s: public key is %x, must be %x", what, pub, ref.pub)
	}
	if private != (perr == nil) || (private && !bytes.Equal(priv, ref.priv)) {
		s.fail("private-key-mismatch", "%s: private key is %x (%v), private=%v", what, priv, perr, private)
	}
	if pk == nil || pk.OWEncode() != ref.text(false) {
		s.fail("key-mismatch", "%s: its public key is not %s", what, ref.text(false))
	}
	if !hdEd(s.curve) && !hdBLS(s.curve) && s.curve != owcrypt.ECC_CURVE_PASTA {
		un := k.GetUncompressedPublicKeyBytes()
		if len(un) != 64 || !bytes.Equal(owcrypt.PointCompress(un, s.curve), ref.pub) {
			s.fail("public-key-mismatch", "%s: uncompressed public key %x", what, un)
		}
	}
}

func (s *hdSim) pathText(p []uint32) string {
	t := "m"
	for _, i := range p {
		t += "/"
		if i >= 1<<31 {
			t += fmt.Sprintf("%d'", i-1<<31)
		} else {
			t += fmt.Sprint(i)
		}
		if s.r.T.Chance(1, 12) {
			t += " "
		}
	}
	return t
}

func (s *hdSim) index(hardened bool) uint32 {
	t := s.r.T
	var i uint32
	switch t.Intn(4) {
	case 0:
		i = uint32(t.Intn(4))
	case 1:
		i = uint32(t.Intn(1000))
	case 2:
		i = 1<<31 - 1 - uint32(t.Intn(2))
	case 3:
		i = uint32(t.U64()) >> 1
	}
	if hardened {
		i |= 1 << 31
	}
	return i
}

// path is a path of n steps below a key; below the root of the special seed it
// may lead to one of its rare children.
func (s *hdSim) path(n int, hardOK bool, from *hdRef) []uint32 {
	var p []uint32
	for i := 0; i < n; i++ {
		x := s.index(hardOK && s.r.T.Chance(1, 2))
		if y := s.rare(from); i == 0 && (y < 1<<31 || hardOK) && y != 0 {
			x = y
		}
		p = append(p, x)
	}
	return p
}

// rare is, now and then, the index of a rare child of the key, otherwise 0.
func (s *hdSim) rare(from *hdRef) uint32 {
	l := hdSpecial[s.curve]
	if string(s.seed) != hdSpecialSeed || from != s.root || len(l) == 0 || s.r.T.Chance(1, 3) {
		return 0
	}
	s.r.Count("rare_key_derived")
	return l[s.r.T.Intn(len(l))]
}

// corrupt damages a stored or transmitted string.
func (s *hdSim) corrupt(x string) string {
	y := mangleText(s.r, x)
	if y != x {
		s.r.Count("fault:key_string_corrupted")
	}
	return y
}

// accept is a node receiving or rereading a key string: the honest text or an error.
func (s *hdSim) accept(n *hdNode, got, honest string, ref *hdRef, private bool) {
	var k *owkeychain.ExtendedKey
	var err error
	o := call(func() { k, err = owkeychain.OWDecode(got) })
	if o.Bad() {
		s.fail("decode-panicked", "OWDecode(%q): %v", got, o)
		return
	}
	s.r.Logf("%s decodes %s: %v", n.name, short(got), err)
	if err != nil {
		if got == honest {
			s.fail("good-key-refused", "OWDecode(%q): %v", got, err)
		}
		s.r.Count("key_string_refused")
		n.mem = nil
		return
	}
	if got != honest {
		s.fail("corrupt-key-accepted", "OWDecode accepted %q, a corruption of %q", got, honest)
		return
	}
	s.same("OWDecode("+got+")", k, ref, private)
	n.mem, n.ref, n.private, n.disk = k, ref, private, honest
}

func (s *hdSim) step() {
	t := s.r.T
	n := s.nodes[t.Intn(len(s.nodes))]
	switch t.Intn(12) {
	case 0, 1: // the signer exports an account to a node
		p := s.path(t.Intn(4), true, s.root)
		private := t.Chance(1, 3)
		ref := s.at(p)
		pt := s.pathText(p)
		var k *owkeychain.ExtendedKey
		var err error
		o := call(func() { k, err = owkeychain.DerivedPrivateKeyWithPath(s.seed, pt, s.curve) })
		if o.Bad() || err != nil {
			s.fail("derive-failed", "DerivedPrivateKeyWithPath(%q): %v %v", pt, o, err)
			return
		}
		s.same("DerivedPrivateKeyWithPath("+pt+")", k, ref, true)
		out := k
		if !private {
			out = k.GetPublicKey()
			s.same("GetPublicKey", out, ref, false)
		}
		text := out.OWEncode()
		honest := ref.text(private)
		s.r.Logf("signer exports %s private=%v", pt, private)
		deliver := func() {
			got := text
			if s.hostile && t.Chance(1, 3) {
				got = s.corrupt(got)
			}
			s.accept(n, got, honest, ref, private)
		}
		switch {
		case t.Chance(1, 8):
			s.r.Count("fault:message_lost")
		case t.Chance(1, 8):
			s.r.Count("fault:message_duplicated")
			s.inbox = append(s.inbox, deliver, deliver)
		default:
			s.inbox = append(s.inbox, deliver)
		}
	case 2: // delivery of something in flight, in any order
		if len(s.inbox) > 0 {
			i := t.Intn(len(s.inbox))
			f := s.inbox[i]
			s.inbox = append(s.inbox[:i], s.inbox[i+1:]...)
			f()
		}
	case 3: // a node crashes and restarts from its disk
		if n.disk == "" {
			return
		}
		s.r.Count("fault:node_crash")
		got := n.disk
		if s.hostile && t.Chance(1, 3) {
			got = s.corrupt(got)
		}
		s.accept(n, got, n.disk, n.ref, n.private)
	case 4, 5, 6: // a node derives an address key, plainly or by path
		if n.mem == nil {
			return
		}
		cnt := 1
		byPath := t.Chance(1, 2)
		if byPath {
			cnt = t.Range(1, 3)
		}
		p := s.path(cnt, n.private, n.ref)
		ref := n.ref
		hard := false
		for i, x := range p {
			if x >= 1<<31 && (!n.private || i > 0) {
				hard = true // cannot be derived from what is then public
			}
			ref = ref.child(x)
		}
		var k *owkeychain.ExtendedKey
		var err error
		var how string
		o := call(func() {
			if byPath {
				how = "DerivedPublicKeyFromPath(" + s.pathText(p)[1:] + ")"
				k, err = n.mem.DerivedPublicKeyFromPath(how[len("DerivedPublicKeyFromPath(") : len(how)-1])
			} else if t.Chance(1, 2) {
				how = fmt.Sprintf("GenPublicChild(%d)", p[0])
				k, err = n.mem.GenPublicChild(p[0])
			} else {
				how = fmt.Sprintf("DerivedPublicKeyFromSerializes(%d)", p[0])
				k, err = n.mem.DerivedPublicKeyFromSerializes(p[0])
			}
		})
		s.r.Logf("%s %s: %v %v", n.name, how, o, err)
		if o.Bad() {
			s.fail("derive-failed", "%s: %v", how, o)
			return
		}
		if hard {
			if err == nil {
				s.fail("hardened-from-public", "%s succeeded on a public key", how)
			}
			s.r.Count("hardened_refused")
			return
		}
		if err != nil {
			s.fail("derive-failed", "%s on private=%v: %v", how, n.private, err)
			return
		}
		s.same(how, k, ref, false)
		s.same("the parent after "+how, n.mem, n.ref, n.private)
		s.r.Count("watch_only_keys_compared")
	case 7: // the vault derives a private child
		if n.mem == nil {
			return
		}
		i := s.index(t.Chance(1, 2))
		if y := s.rare(n.ref); y != 0 {
			i = y
		}
		var k *owkeychain.ExtendedKey
		var err error
		o := call(func() { k, err = n.mem.GenPrivateChild(i) })
		s.r.Logf("%s GenPrivateChild(%d): %v %v", n.name, i, o, err)
		if !n.private {
			if o.Bad() || err == nil {
				s.fail("private-from-public", "GenPrivateChild on a public key: %v %v", o, err)
			}
			return
		}
		if o.Bad() || err != nil {
			s.fail("derive-failed", "GenPrivateChild(%d): %v %v", i, o, err)
			return
		}
		ref := n.ref.child(i)
		s.same(fmt.Sprintf("GenPrivateChild(%d)", i), k, ref, true)
		s.same("the parent after GenPrivateChild", n.mem, n.ref, true)
		if t.Chance(1, 2) { // keep the child
			n.mem, n.ref, n.disk = k, ref, k.OWEncode()
		}
	case 8: // multisig share data, from the public or the private string
		if n.mem == nil {
			return
		}
		var text string
		var err error
		o := call(func() { text, err = owkeychain.GetMultiSigShareData(n.disk) })
		if o.Bad() {
			s.fail("share-panicked", "GetMultiSigShareData: %v", o)
			return
		}
		if hdBLS(s.curve) {
			if err == nil {
				var m *owkeychain.MultiSigShare
				o := call(func() { m, err = owkeychain.ChainDecode(text) })
				if o.Bad() || err != nil || !bytes.Equal(m.Pubkey, n.ref.pub) {
					s.fail("share-unreadable", "share %q of a BLS key cannot be read back: %v %v", text, o, err)
				}
			}
			return
		}
		if err != nil || text != n.ref.share() {
			s.fail("share-mismatch", "GetMultiSigShareData is %q (%v), must be %q", text, err, n.ref.share())
			return
		}
		var m *owkeychain.MultiSigShare
		o = call(func() { m, err = owkeychain.ChainDecode(text) })
		if o.Bad() || err != nil || !bytes.Equal(m.Pubkey, n.ref.pub) || !bytes.Equal(m.ChainCode, n.ref.cc) || m.CurveType != s.curve || m.ChianEncode() != text {
			s.fail("share-mismatch", "ChainDecode(%q): %v %v", text, o, err)
		}
	case 9: // requests that have to be refused
		var err error
		var what string
		o := call(func() {
			switch t.Intn(4) {
			case 0:
				bad := []string{"44'/0", "m/", "m//1", "m/-1", "m/-1'", "m/4294967296", "m/4294967295'", "m/2147483648'", "m/x", "m/1''", "m/'", "n/1", "m/1/", "m/0x10", "m/99999999999999999999"}
				what = bad[t.Intn(len(bad))]
				_, err = owkeychain.DerivedPrivateKeyWithPath(s.seed, what, s.curve)
			case 1:
				l := []int{0, 1, 15, 65, 128}[t.Intn(5)]
				what = fmt.Sprintf("seed of %d bytes", l)
				_, err = owkeychain.DerivedPrivateKeyWithPath(make([]byte, l), "m/1", s.curve)
			case 2:
				what = "child of a key at depth 255"
				k := owkeychain.NewExtendedKey(s.root.priv, s.root.cc, s.root.fp, 255, 0, true, s.curve)
				if t.Chance(1, 2) {
					k = owkeychain.NewExtendedKey(s.root.pub, s.root.cc, s.root.fp, 255, 0, false, s.curve)
				}
				_, err = k.GenPublicChild(1)
			case 3:
				bad := []string{"", "1", "//1", "/1/", "/-1", "/4294967296", "/x", "/"}
				what = bad[t.Intn(len(bad))]
				k := owkeychain.NewExtendedKey(s.root.pub, s.root.cc, s.root.fp, 3, 0, false, s.curve)
				_, err = k.DerivedPublicKeyFromPath(what)
				what = "relative path " + what
			}
		})
		s.r.Logf("impossible request %q: %v %v", what, o, err)
		if o.Bad() {
			s.fail("bad-request-panicked", "%q: %v", what, o)
		} else if err == nil {
			s.fail("bad-request-accepted", "%q was accepted", what)
		}
	case 10: // deep but allowed
		d := byte(t.Range(250, 254))
		rk := *s.root
		rk.depth = d
		pub := t.Chance(1, 2)
		key := rk.priv
		if pub {
			key = rk.pub
		}
		k := owkeychain.NewExtendedKey(key, rk.cc, rk.fp, d, 0, !pub, s.curve)
		var err error
		var c *owkeychain.ExtendedKey
		o := call(func() { c, err = k.GenPublicChild(5) })
		if o.Bad() || err != nil {
			s.fail("derive-failed", "child of a key at depth %d: %v %v", d, o, err)
			return
		}
		s.same("deep child", c, rk.child(5), false)
	case 11: // the built-in coin accounts
		if s.curve != owcrypt.ECC_CURVE_SECP256K1 {
			return
		}
		i := uint32(t.Intn(2))
		coin := []owkeychain.CoinType{owkeychain.Bitcoin, owkeychain.Ethereum}[i]
		x := s.index(false)
		root := s.at([]uint32{44 | 1<<31, 88 | 1<<31, i})
		var k *owkeychain.ExtendedKey
		var b []byte
		var e1, e2 error
		o := call(func() {
			k, e1 = owkeychain.GetCoinRootPublicKey(s.seed, coin)
			b, e2 = owkeychain.DerivedPrivateKeyBytes(s.seed, coin, x)
		})
		if o.Bad() || e1 != nil || e2 != nil {
			s.fail("derive-failed", "coin account: %v %v %v", o, e1, e2)
			return
		}
		s.same("GetCoinRootPublicKey", k, root, false)
		if !bytes.Equal(b, root.child(x).priv) {
			s.fail("private-key-mismatch", "DerivedPrivateKeyBytes is %x", b)
		}
	}
}

// hdWallet is the body of the HD property.
func hdWallet(r *Run) {
	t := r.T
	s := &hdSim{r: r, cache: map[string]*hdRef{}}
	s.curve = hdCurves[t.Intn(len(hdCurves))]
	s.hostile = t.Chance(1, 2)
	rg := t.Rng()
	s.seed = rg.Bytes([]int{32, 16, 64, 17, 63, 33}[t.Intn(6)])
	if t.Chance(1, 3) {
		s.seed = []byte(hdSpecialSeed)
	}
	s.root = hdRoot(s.seed, s.curve)
	for i := 0; i < 3; i++ {
		s.nodes = append(s.nodes, &hdNode{name: fmt.Sprintf("node%d", i)})
	}
	r.Logf("curve %x seed %x", s.curve, s.seed)
	k, err := owkeychain.InitRootKeyFromSeed(s.seed, s.curve)
	if err != nil {
		s.fail("derive-failed", "root: %v", err)
	}
	s.same("root", k, s.root, true)
	s.nodes[0].mem, s.nodes[0].ref, s.nodes[0].private, s.nodes[0].disk = k, s.root, true, k.OWEncode()
	steps := t.Range(6, 30)
	for i := 0; i < steps; i++ {
		s.step()
		r.Sim += 50 * ms
		var x []uint64
		for _, n := range s.nodes {
			if n.mem != nil {
				x = append(x, uint64(n.ref.depth), hashStr(n.disk))
			} else {
				x = append(x, 0)
			}
		}
		r.State(append(x, uint64(len(s.inbox)))...)
	}
	// faults over: everything in flight arrives, every node comes back
	s.hostile = false
	for _, f := range s.inbox {
		f()
	}
	for _, n := range s.nodes {
		if n.disk != "" {
			s.accept(n, n.disk, n.disk, n.ref, n.private)
		}
	}
}

func init() {
	register(&Property{ID: "C12", Title: "HD keychain: watch-only and signing sides agree", QuickRuns: 5000, ThorRuns: 60000,
		Rule:    "one seed gives one tape; the tape decides the curve, seed, paths, who derives what, exports, message loss, duplication, reordering, corruption of stored and sent key strings, and restarts",
		Measure: "distinct combinations of what the nodes hold and what is in flight",
		Real:    []string{"owkeychain", "owcrypt"}, Stub: []string{"signer, watch-only and vault nodes", "network", "durable storage"},
		Assume: []string{"owcrypt's base point multiplication and Go's HMAC-SHA512 are right"},
		Body:   hdWallet})
}
