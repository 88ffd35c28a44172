//go:build go1.18

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
)

// wantFinal is the reference judgement for drivers whose combine step is a
// function of the build and the shares: the shares have to be valid signatures
// for the digests of the intended transaction, and the result has to be the
// intended transaction with exactly these signatures.
type wantFn func(b *Build, shares []Share) (string, error)

// refDigests returns the digests the network's rules define for the intended
// transaction as built (the build only matters for clock readings and nonces).
type refDigestFn func(b *Build) ([][]byte, error)

func digestsEqual(dig refDigestFn) func(b *Build) error {
	return func(b *Build) error {
		want, err := dig(b)
		if err != nil {
			return err
		}
		if len(want) != len(b.Digests) {
			return fmt.Errorf("%d digests, want %d", len(b.Digests), len(want))
		}
		for i := range want {
			if !strings.EqualFold(hx(want[i]), b.Digests[i]) {
				return fmt.Errorf("digest %d is %s, the protocol's is %x", i, b.Digests[i], want[i])
			}
		}
		return nil
	}
}

// sharesValid checks the shares against the reference digests. With bound the
// public keys have to be the owners'.
func (c *Cer) sharesValid(digs [][]byte, shares []Share, bound bool) error {
	if len(shares) != len(c.Keys) && !(c.AnyCount && len(shares) > 0) {
		return &clsErr{"share-count", fmt.Sprintf("%d shares for %d signers", len(shares), len(c.Keys))}
	}
	for i, sh := range shares {
		at := i
		if at >= len(c.Keys) {
			at = 0
		}
		k := c.Keys[at]
		pub := unhex(sh.Pub)
		if c.PubBytes != nil {
			pub = c.PubBytes(sh.Pub)
		}
		if !refVerify(k.Curve, pub, digs[at], unhex(sh.Sig)) {
			return &clsErr{"invalid-signature", fmt.Sprintf("signature %d is not valid for the intended transaction", i)}
		}
		own := unhex(c.pubText(k))
		if c.PubBytes != nil {
			own = c.PubBytes(c.pubText(k))
		}
		if bound && !bytes.Equal(pub, own) {
			return &clsErr{"stranger-key", fmt.Sprintf("signature %d is by %s, the owner is %s", i, sh.Pub, c.pubText(k))}
		}
	}
	return nil
}

var errNoBuild = errors.New("no transaction was built")

// checkFinalShares judges an accepted combine.
func (c *Cer) checkFinalShares(builds []*Build, shares []Share, empty, final string) error {
	var last error = errNoBuild
	for _, b := range builds {
		want, err := c.Want(b, shares)
		if err == nil && (want == final || (c.SameFinal != nil && c.SameFinal(final, want))) {
			return nil
		}
		if err == nil {
			err = fmt.Errorf("the result is not the intended transaction with these signatures: %s, want %s", final, want)
		}
		if last == errNoBuild || b.Empty == empty {
			last = err // the complaint about the transaction it was made from
		}
	}
	return last
}
