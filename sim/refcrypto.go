//go:build go1.18

package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"math/big"

	"github.com/blocktree/go-owcrypt"
	"github.com/btcsuite/btcd/btcec"
)

// Reference primitives, written from the published formats and independent of
// the repository's own encoders. Hash functions outside the standard library
// come from go-owcrypt (a dependency, trusted); curve arithmetic comes from
// btcec and the standard library.

func dsha(b []byte) []byte {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return c[:]
}

func sha(b []byte) []byte { a := sha256.Sum256(b); return a[:] }

func sha512half(b []byte) []byte { a := sha512.Sum512(b); return a[:32] }

func hash160(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_HASH160) }

const b58std = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const b58ripple = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"

func base58(b []byte, alpha string) string {
	x := new(big.Int).SetBytes(b)
	m := new(big.Int)
	d := big.NewInt(58)
	var out []byte
	for x.Sign() > 0 {
		x.DivMod(x, d, m)
		out = append(out, alpha[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, alpha[0])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func unbase58(s, alpha string) ([]byte, error) {
	x := new(big.Int)
	for i := 0; i < len(s); i++ {
		k := bytes.IndexByte([]byte(alpha), s[i])
		if k < 0 {
			return nil, errors.New("bad base58")
		}
		x.Mul(x, big.NewInt(58))
		x.Add(x, big.NewInt(int64(k)))
	}
	out := x.Bytes()
	for i := 0; i < len(s) && s[i] == alpha[0]; i++ {
		out = append([]byte{0}, out...)
	}
	return out, nil
}

func b58check(prefix, payload []byte) string {
	b := append(append([]byte{}, prefix...), payload...)
	return base58(append(b, dsha(b)[:4]...), b58std)
}

const b32alpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bech32Polymod(v []byte) uint32 {
	gen := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := uint32(1)
	for _, x := range v {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if (top>>uint(i))&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	return chk
}

func to5(b []byte) []byte {
	var out []byte
	acc, bits := uint32(0), uint(0)
	for _, x := range b {
		acc = acc<<8 | uint32(x)
		bits += 8
		for bits >= 5 {
			bits -= 5
			out = append(out, byte(acc>>bits)&31)
		}
	}
	if bits > 0 {
		out = append(out, byte(acc<<(5-bits))&31)
	}
	return out
}

func bech32enc(hrp string, data5 []byte, konst uint32) string {
	var v []byte
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]>>5)
	}
	v = append(v, 0)
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]&31)
	}
	v = append(v, data5...)
	pm := bech32Polymod(append(append([]byte{}, v...), 0, 0, 0, 0, 0, 0)) ^ konst
	out := hrp + "1"
	for _, d := range data5 {
		out += string(b32alpha[d])
	}
	for i := 0; i < 6; i++ {
		out += string(b32alpha[(pm>>uint(5*(5-i)))&31])
	}
	return out
}

func segwitAddr(hrp string, prog []byte) string {
	return bech32enc(hrp, append([]byte{0}, to5(prog)...), 1)
}

// ---- keys and signatures ----

type curve int

const (
	k1 curve = iota
	r1
	ed // EdDSA with the scalar as private key (go-owcrypt's ED25519)
	xd // the same, public key as a Curve25519 u coordinate (go-owcrypt's X25519)
)

func (c curve) edwards() bool { return c == ed || c == xd }

var edL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
var edP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

func edLE(x *big.Int) []byte  { return rev(pad32(x)) }
func edInt(b []byte) *big.Int { return new(big.Int).SetBytes(rev(b)) }

// edU maps an Edwards point to its Montgomery u coordinate, edY back (without
// the sign of x).
func edU(pub []byte) []byte {
	y := edInt(pub)
	y.SetBit(y, 255, 0)
	den := new(big.Int).Sub(big.NewInt(1), y)
	den.ModInverse(den.Mod(den, edP), edP)
	u := new(big.Int).Add(big.NewInt(1), y)
	return edLE(u.Mod(u.Mul(u, den), edP))
}
func edY(u []byte) []byte {
	x := edInt(u)
	x.SetBit(x, 255, 0)
	den := new(big.Int).Add(x, big.NewInt(1))
	den.Mod(den, edP)
	if den.Sign() == 0 {
		return nil
	}
	den.ModInverse(den, edP)
	y := new(big.Int).Sub(x, big.NewInt(1))
	return edLE(y.Mod(y.Mul(y, den), edP))
}

type Key struct {
	Curve curve
	Priv  []byte // 32 bytes
	Pub   []byte // compressed (33) or ed25519 (32)
	Full  []byte // x||y, ECDSA only
	d     *big.Int
	edPub []byte
}

func curveOrder(c curve) *big.Int {
	if c == k1 {
		return btcec.S256().N
	}
	return elliptic.P256().Params().N
}

func pad32(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

func newKey(c curve, priv []byte) *Key {
	k := &Key{Curve: c, Priv: append([]byte{}, priv...)}
	switch c {
	case ed, xd:
		k.Priv[0] &= 248
		k.Priv[31] = k.Priv[31]&63 | 64
		k.edPub = owcrypt.Point_mulBaseG(append([]byte{}, k.Priv...), owcrypt.ECC_CURVE_ED25519)
		k.Pub = k.edPub
		if c == xd {
			k.Pub = edU(k.edPub)
		}
		return k
	}
	n := curveOrder(c)
	k.d = new(big.Int).SetBytes(priv)
	k.d.Mod(k.d, new(big.Int).Sub(n, big.NewInt(1)))
	k.d.Add(k.d, big.NewInt(1))
	k.Priv = pad32(k.d)
	var x, y *big.Int
	if c == k1 {
		x, y = btcec.S256().ScalarBaseMult(k.Priv)
	} else {
		x, y = elliptic.P256().ScalarBaseMult(k.Priv)
	}
	k.Full = append(pad32(x), pad32(y)...)
	k.Pub = append([]byte{2 + byte(y.Bit(0))}, pad32(x)...)
	return k
}

type keyCacheKey struct {
	c curve
	i int
}

var keyPool = map[keyCacheKey]*Key{}

// poolKey returns the i-th key of a fixed pool; some have leading zero bytes.
func poolKey(c curve, i int) *Key {
	kk := keyCacheKey{c, i}
	if k, ok := keyPool[kk]; ok {
		return k
	}
	r := Rng{mix(0xfeed, uint64(c), uint64(i))}
	p := r.Bytes(32)
	switch i % 8 {
	case 5:
		p[0] = 0
	case 6:
		p[0], p[1] = 0, 0
	case 7:
		for j := 0; j < 28; j++ {
			p[j] = 0
		}
	}
	k := newKey(c, p)
	rare := func() bool { // zero bytes at the ends of the public key
		switch {
		case i%8 == 3 && c.edwards():
			return k.Pub[0] == 0
		case i%8 == 4 && c.edwards():
			return k.Pub[31] == 0
		case i%8 == 3:
			return k.Pub[1] == 0
		case i%8 == 4:
			return k.Full[32] == 0
		}
		return true
	}
	for tries := 0; !rare() && tries < 4000; tries++ {
		k = newKey(c, r.Bytes(32))
	}
	keyPool[kk] = k
	return k
}

type noncePoint struct {
	k, kinv, r *big.Int
}

var nonceTables = map[curve][]noncePoint{}

func nonces(c curve) []noncePoint {
	if t, ok := nonceTables[c]; ok {
		return t
	}
	n := curveOrder(c)
	var t []noncePoint
	add := func(k *big.Int) {
		var x *big.Int
		if c == k1 {
			x, _ = btcec.S256().ScalarBaseMult(pad32(k))
		} else {
			x, _ = elliptic.P256().ScalarBaseMult(pad32(k))
		}
		t = append(t, noncePoint{k, new(big.Int).ModInverse(k, n), new(big.Int).Mod(x, n)})
	}
	if c == k1 { // the well-known nonce with a 21-byte r
		h := new(big.Int).Add(n, big.NewInt(1))
		add(h.Rsh(h, 1))
	}
	r := Rng{0x6e6f6e6365}
	for len(t) < 768 {
		k := new(big.Int).SetBytes(r.Bytes(32))
		k.Mod(k, n)
		add(k)
	}
	nonceTables[c] = t
	return t
}

const (
	shapeAny = iota
	shapeShortR
	shapeShortS
	shapeHighR
	shapeHighByteS
	nShapes
)

// extSign is the simulated external signer (an HSM or hardware wallet): a
// correct ECDSA signature, low-S, whose r or s has the requested shape.
func (k *Key) extSign(digest []byte, shape int, salt uint64) []byte {
	if k.Curve.edwards() {
		h := sha512.Sum512(cat(k.Priv, be64(salt), digest))
		r := new(big.Int).Mod(edInt(h[:]), edL)
		R := owcrypt.Point_mulBaseG(edLE(r), owcrypt.ECC_CURVE_ED25519)
		h = sha512.Sum512(cat(R, k.edPub, digest))
		s := edInt(h[:])
		s.Mul(s, edInt(k.Priv)).Add(s, r).Mod(s, edL)
		sig := cat(R, edLE(s))
		if k.Curve == xd {
			sig[63] |= k.edPub[31] & 0x80
		}
		return sig
	}
	n := curveOrder(k.Curve)
	half := new(big.Int).Rsh(n, 1)
	z := new(big.Int).SetBytes(digest)
	t := nonces(k.Curve)
	var r, s *big.Int
	start := int(salt % uint64(len(t)))
	if shape == shapeShortR {
		if k.Curve == k1 && salt%3 == 0 {
			start = 0
		}
	}
	for i := 0; i < len(t); i++ {
		p := t[(start+i)%len(t)]
		rr := p.r
		if shape == shapeShortR && rr.BitLen() > 248 {
			continue
		}
		if shape == shapeHighR && rr.BitLen() != 256 {
			continue
		}
		ss := new(big.Int).Mul(rr, k.d)
		ss.Add(ss, z)
		ss.Mul(ss, p.kinv)
		ss.Mod(ss, n)
		if ss.Sign() == 0 {
			continue
		}
		if ss.Cmp(half) > 0 {
			ss.Sub(n, ss)
		}
		r, s = rr, ss
		if shape == shapeShortS && ss.BitLen() > 248 {
			continue
		}
		if shape == shapeHighByteS && ss.BitLen() != 255 && ss.BitLen()%8 != 0 {
			continue
		}
		break
	}
	return append(pad32(r), pad32(s)...)
}

// refVerify checks a raw r||s (or ed25519) signature.
func refVerify(c curve, pub, digest, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	if c == xd {
		y := edY(pub)
		if len(pub) != 32 || y == nil {
			return false
		}
		sig = append([]byte{}, sig...)
		y[31] |= sig[63] & 0x80
		sig[63] &= 0x7f
		return ed25519.Verify(y, digest, sig)
	}
	if c == ed {
		return len(pub) == 32 && ed25519.Verify(pub, digest, sig)
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if c == k1 {
		pk, err := btcec.ParsePubKey(pub, btcec.S256())
		if err != nil {
			return false
		}
		return (&btcec.Signature{R: r, S: s}).Verify(digest, pk)
	}
	x, y := elliptic.UnmarshalCompressed(elliptic.P256(), pub)
	if x == nil {
		return false
	}
	return ecdsa.Verify(&ecdsa.PublicKey{Curve: elliptic.P256(), X: x, Y: y}, digest, r, s)
}

// derInt/derSig: strict DER as consensus rules require it.
func derInt(x []byte) []byte {
	for len(x) > 1 && x[0] == 0 {
		x = x[1:]
	}
	if x[0]&0x80 != 0 {
		x = append([]byte{0}, x...)
	}
	return append([]byte{2, byte(len(x))}, x...)
}

func derSig(sig []byte) []byte {
	b := append(derInt(sig[:32]), derInt(sig[32:64])...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// parseDER returns r||s of a strict DER signature.
func parseDER(b []byte) ([]byte, error) {
	bad := errors.New("not strict DER")
	if len(b) < 8 || b[0] != 0x30 || int(b[1])+2 != len(b) || b[2] != 2 {
		return nil, bad
	}
	rl := int(b[3])
	if 4+rl+2 > len(b) || b[4+rl] != 2 {
		return nil, bad
	}
	sl := int(b[5+rl])
	if 6+rl+sl != len(b) {
		return nil, bad
	}
	conv := func(x []byte) []byte {
		if len(x) == 0 || x[0]&0x80 != 0 || (len(x) > 1 && x[0] == 0 && x[1]&0x80 == 0) {
			return nil
		}
		i := new(big.Int).SetBytes(x)
		if i.BitLen() > 256 {
			return nil
		}
		return pad32(i)
	}
	r, s := conv(b[4:4+rl]), conv(b[6+rl:])
	if r == nil || s == nil {
		return nil, bad
	}
	return append(r, s...), nil
}

// ---- byte building ----

func le16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func le64(v uint64) []byte { return append(le32(uint32(v)), le32(uint32(v>>32))...) }
func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func be64(v uint64) []byte { return append(be32(uint32(v>>32)), be32(uint32(v))...) }

func compact(n int) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, le16(uint16(n))...)
	default:
		return append([]byte{0xfe}, le32(uint32(n))...)
	}
}

// pushed is the script that pushes b.
func pushed(b []byte) []byte {
	switch n := len(b); {
	case n > 255:
		return cat([]byte{0x4d, byte(n), byte(n >> 8)}, b)
	case n > 75:
		return cat([]byte{0x4c, byte(n)}, b)
	}
	return cat([]byte{byte(len(b))}, b)
}

func varbytes(b []byte) []byte { return append(compact(len(b)), b...) }

func cat(xs ...[]byte) []byte {
	var out []byte
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

func rev(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil
	}
	return b
}

func hx(b []byte) string {
	if hxSeam != nil {
		return hxSeam(hex.EncodeToString(b))
	}
	return hex.EncodeToString(b)
}

// hxSeam stands between the texts a caller hands over and the drivers (C16).
var hxSeam func(string) string
