//go:build go1.18

package main

import (
	"container/heap"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// A signing ceremony: a wallet node builds an unsigned transaction from an
// intent, signer nodes sign its digests, the wallet collects the shares,
// combines and verifies. The calls into the drivers are real; the nodes, the
// network, the disk, the clocks and the entropy source are simulated.

type Share struct{ Sig, Pub string }

// Build is what the wallet makes durable after building the transaction.
type Build struct {
	Empty   string
	Digests []string
	Clock   []int64 // clock readings served while it was built
}

type Cer struct {
	Drv  string
	Desc string
	Keys []*Key // key of party i; party i signs Digests[i]
	// real driver code
	Create  func() (string, []string, error)
	Sign    func(i int, digest string) (Share, error)
	Combine func(empty string, digests []string, shares []Share) (string, error)
	// simulated external signer (nil: none for this driver)
	Ext func(i int, digest string, shape int, salt uint64) Share
	// reference model
	CheckDigests func(b *Build) error
	CheckFinal   func(builds []*Build, final string) error
	// Want: used instead of CheckFinal when the result is a function of the shares
	Want wantFn
	// Final: used instead of Want when the result depends on which shares came
	Final func(builds []*Build, sh []Share, final string) error
	// AnyCount: the transaction does not say how many signatures it needs
	AnyCount bool
	// SameFinal compares an accepted result with the wanted one (nil: equality)
	SameFinal func(final, want string) bool
	// PubBytes decodes the text of a public key (nil: hex)
	PubBytes func(s string) []byte
	// CheckShare: nil means refVerify(key, digest, sig)
	CheckShare func(i int, digest string, s Share) error
	// Reverify: the driver's verification of a finished transaction (nil: none)
	Reverify func(final string) bool
	// MustRefuse: why no transaction can say what is intended; building it has to fail
	MustRefuse string
	// Estrange makes one coin somebody else's whose hash differs in one bit
	Estrange func()
	// HighS: the network accepts either value of s
	HighS bool
	// PubText is how party i's public key is written in a share.
	PubText func(k *Key) string
}

func (c *Cer) pubText(k *Key) string {
	if c.PubText != nil {
		return c.PubText(k)
	}
	return hx(k.Pub)
}

func (c *Cer) ext(i int, digest string, shape int, salt uint64) Share {
	if c.Ext != nil {
		return c.Ext(i, digest, shape, salt)
	}
	return Share{hx(c.Keys[i].extSign(unhex(digest), shape, salt)), c.pubText(c.Keys[i])}
}

func (c *Cer) checkShare(i int, digest string, s Share) error {
	if c.CheckShare != nil {
		return c.CheckShare(i, digest, s)
	}
	if !refVerify(c.Keys[i].Curve, c.Keys[i].Pub, unhex(digest), unhex(s.Sig)) {
		return fmt.Errorf("signature %s does not verify for digest %s", s.Sig, digest)
	}
	if !c.HighS {
		if e := lowS(c.Keys[i].Curve, unhex(s.Sig)); e != nil {
			return e
		}
	}
	if s.Pub != c.pubText(c.Keys[i]) {
		return fmt.Errorf("share names public key %s, signer's is %s", s.Pub, c.pubText(c.Keys[i]))
	}
	return nil
}

type genFn func(r *Run, g *Pool) *Cer

type event struct {
	at  int64
	seq int
	run func()
}
type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Pool holds the data ceremonies of one run share, so that they collide:
// the same keys, previous outputs and addresses with different intents.
type Pool struct {
	r       *Run
	seed    uint64
	keys    int
	hostile bool
}

func newPool(r *Run) *Pool { return &Pool{r: r, seed: r.T.U64(), keys: r.T.Range(2, 8)} }

func (p *Pool) Key(c curve) *Key { return poolKey(c, p.r.T.Intn(p.keys)) }

// Bytes returns the i-th of a few shared byte strings of the given kind.
func (p *Pool) Bytes(kind string, n int) []byte {
	i := p.r.T.Intn(5)
	r := Rng{mix(p.seed, hashStr(kind), uint64(i))}
	b := r.Bytes(n)
	switch i {
	case 2:
		b[0] = 0
	case 3:
		b[0], b[1] = 0, 0
	case 4:
		b[n-1], b[0] = 0, 0xff
	}
	return b
}

type node struct {
	up    bool
	epoch int
	skew  int64
	tick  int64
}

type cerState struct {
	id      int
	c       *Cer
	disk    string // JSON of durable
	builds  []*Build
	started bool
	done    bool
	final   string
	rejects int
	accept  int
}

type durable struct {
	Build  *Build
	Shares map[string]Share
	Final  string
}

type faultCfg struct {
	loss, dup, delay, crash, clock, entropy        int // per mille / on-off
	tamper                                         bool
	tShare, tDigest, tDisk, tPremature, tExtra, tX int
}

type CerSim struct {
	r        *Run
	q        eventHeap
	now      int64
	seq      int
	faultEnd int64
	cfg      faultCfg
	cers     []*cerState
	wallet   node
	signers  []node
	opN      uint64
	entSeed  uint64
	settled  int // events since the last fault could happen
	tamperOn bool
}

const ms = int64(1000000)

func (s *CerSim) after(d int64, f func()) {
	s.seq++
	heap.Push(&s.q, event{s.now + d, s.seq, f})
}

func (s *CerSim) faulty() bool { return s.now < s.faultEnd }

// send delivers f after a delay, or not at all, or twice.
func (s *CerSim) send(what string, f func()) {
	d := ms
	if s.faulty() {
		if s.r.T.Chance(s.cfg.loss, 1000) {
			s.r.Count("fault:message_lost")
			s.r.Logf("t=%dms lost %s", s.now/ms, what)
			return
		}
		if s.r.T.Chance(s.cfg.delay, 1000) {
			d += int64(s.r.T.Range(1, 400)) * ms
			s.r.Count("fault:message_delayed")
		}
		if s.r.T.Chance(s.cfg.dup, 1000) {
			s.r.Count("fault:message_duplicated")
			s.after(d+int64(s.r.T.Range(0, 300))*ms, f)
		}
	}
	s.after(d, f)
}

func (s *CerSim) enter(n *node) {
	s.opN++
	simrt.SeedTask(0, mix(s.entSeed, s.opN), defaultClock+s.now+n.skew, n.tick)
}

func (s *CerSim) load(c *cerState) *durable {
	d := &durable{Shares: map[string]Share{}}
	if c.disk != "" {
		json.Unmarshal([]byte(c.disk), d)
		if d.Shares == nil {
			d.Shares = map[string]Share{}
		}
	}
	return d
}

func (s *CerSim) save(c *cerState, d *durable) {
	b, _ := json.Marshal(d)
	c.disk = string(b)
}

func (s *CerSim) failHonest(class string, c *cerState, f string, a ...interface{}) {
	s.r.Fail(class+"|"+c.c.Drv, "%s; intent: %s", fmt.Sprintf(f, a...), c.c.Desc)
}

// build runs on the wallet node: create the transaction, make it durable, ask
// for signatures.
func (s *CerSim) build(c *cerState) {
	s.enter(&s.wallet)
	simrt.ResetClockReads(0)
	var empty string
	var digests []string
	var err error
	o := call(func() { empty, digests, err = c.c.Create() })
	s.settle(c, "building")
	if c.c.MustRefuse != "" {
		switch {
		case o.Bad():
			s.failHonest("create-panicked", c, "%s: %v", c.c.MustRefuse, o)
		case err == nil:
			s.failHonest("impossible-intent-built", c, "%s, but building it succeeded: %s", c.c.MustRefuse, empty)
		}
		s.r.Count("impossible_intent_refused")
		c.done = true
		return
	}
	if o.Bad() || err != nil {
		s.failHonest("create-failed", c, "building the transaction failed: %v %v", o, err)
		return
	}
	b := &Build{Empty: empty, Digests: digests}
	n, ring := simrt.ClockReads(0)
	for i := uint32(0); i < n && i < uint32(len(ring)); i++ {
		b.Clock = append(b.Clock, ring[i])
	}
	s.r.Logf("t=%dms wallet built c%d %s digests=%d empty=%s", s.now/ms, c.id, c.c.Drv, len(digests), short(empty))
	if len(digests) != len(c.c.Keys) {
		s.failHonest("digest-count", c, "%d digests for %d signers", len(digests), len(c.c.Keys))
		return
	}
	if !s.cfg.tamper {
		if e := c.c.CheckDigests(b); e != nil {
			s.failHonest("digest-mismatch", c, "%v", e)
		}
	}
	c.builds = append(c.builds, b)
	d := s.load(c)
	d.Build = b
	if !(s.cfg.tamper && s.faulty() && s.r.T.Chance(200, 1000)) {
		d.Shares = map[string]Share{}
	} else if len(d.Shares) > 0 {
		s.r.Count("fault:stale_shares_kept")
	}
	if s.crashPoint("after-build") {
		return
	}
	s.save(c, d)
	s.diskFault(c)
	s.requestShares(c)
}

// settle ends the loans of a step (see lend.go).
func (s *CerSim) settle(c *cerState, what string) {
	if ch := settle(); ch != "" {
		s.r.Fail(lentClass+"|"+c.c.Drv, "while %s: %s; intent: %s", what, ch, c.c.Desc)
	}
}

// crashPoint lets the wallet crash here; what was not saved is lost.
func (s *CerSim) crashPoint(where string) bool {
	if !s.faulty() || !s.r.T.Chance(s.cfg.crash, 1000) {
		return false
	}
	s.r.Count("fault:wallet_crash")
	s.r.Count("crash@" + where)
	s.r.Logf("t=%dms wallet crashes %s", s.now/ms, where)
	s.wallet.up = false
	s.wallet.epoch++
	s.after(int64(s.r.T.Range(1, 300))*ms, func() {
		s.wallet.up = true
		s.clockFault(&s.wallet, "wallet")
		s.r.Logf("t=%dms wallet restarts", s.now/ms)
		for _, c := range s.cers {
			if c.started && !c.done {
				s.resume(c)
			}
		}
	})
	return true
}

func (s *CerSim) clockFault(n *node, who string) {
	if s.cfg.clock > 0 && s.r.T.Chance(s.cfg.clock, 1000) {
		k := s.r.T.Intn(6)
		r := s.r.T.Rng()
		switch k {
		case 0:
			n.skew += int64(r.Intn(2000)-1000) * ms
		case 1:
			n.skew += int64(r.Intn(86400)-43200) * 1000 * ms
		case 2:
			n.skew = int64(2200000000)*1e9 - defaultClock // past 2038
		case 3:
			n.skew = -defaultClock + int64(r.Intn(1000))*1e9 // near the epoch
		case 4:
			n.skew = int64(r.Intn(999999999)) // odd nanoseconds
		case 5:
			n.skew = int64(4294967290+int64(r.Intn(5)))*1e9 - defaultClock // up to the 32-bit second limit
		}
		if defaultClock+n.skew < 1e9 {
			n.skew = 1e9 - defaultClock // never before the epoch
		}
		s.r.Count("fault:clock_jump")
		s.r.Logf("t=%dms clock of %s jumps to %d", s.now/ms, who, defaultClock+s.now+n.skew)
	}
	if s.cfg.clock > 0 {
		n.tick = []int64{0, 1, 1e6, 1e9, 61e9}[s.r.T.Intn(5)]
	}
}

// resume is what a restarted wallet does: everything it knows is on disk.
func (s *CerSim) resume(c *cerState) {
	d := s.load(c)
	switch {
	case d.Final != "":
		c.done = true
	case d.Build == nil:
		s.build(c)
	default:
		s.requestShares(c)
	}
}

func (s *CerSim) requestShares(c *cerState) {
	d := s.load(c)
	if d.Build == nil {
		return
	}
	missing := 0
	for i := range c.c.Keys {
		if _, ok := d.Shares[fmt.Sprint(i)]; ok {
			continue
		}
		missing++
		if i >= len(d.Build.Digests) {
			continue
		}
		dig := d.Build.Digests[i]
		i := i
		s.send(fmt.Sprintf("sign request c%d/%d", c.id, i), func() { s.signerGot(c, i, dig) })
	}
	if missing == 0 {
		s.combine(c)
	}
	ep := s.wallet.epoch
	s.after(250*ms, func() {
		if s.wallet.up && s.wallet.epoch == ep && !c.done {
			s.requestShares(c)
		}
	})
}

func (s *CerSim) signerGot(c *cerState, i int, digest string) {
	n := &s.signers[i%len(s.signers)]
	if s.faulty() && s.r.T.Chance(s.cfg.crash, 1000) {
		s.r.Count("fault:signer_crash")
		return // down: the request is lost, nothing else to lose
	}
	if s.cfg.tamper && s.faulty() && s.r.T.Chance(s.cfg.tDigest, 1000) {
		digest = tamperHex(s.r, digest)
		s.r.Count("fault:digest_corrupted")
		s.r.Logf("t=%dms digest for c%d/%d corrupted in transit", s.now/ms, c.id, i)
	}
	var sh Share
	if s.r.T.Chance(1, 3) {
		s.enter(n)
		failing := false
		if s.faulty() && s.r.T.Chance(s.cfg.entropy, 1000) && !c.c.Keys[i].Curve.edwards() {
			failing = true
			simrt.FailEntropy(0, int64(s.r.T.Intn(3)), s.r.T.Chance(1, 2))
		}
		var err error
		o := call(func() { sh, err = c.c.Sign(i, digest) })
		s.settle(c, "signing")
		_, _, fired := simrt.EntropyStats(0)
		if failing && fired > 0 {
			s.r.Count("fault:entropy_failure")
			s.r.Logf("t=%dms entropy of signer %d fails", s.now/ms, i)
			if o.Bad() || err != nil {
				return // lost; the wallet asks again
			}
		} else if o.Bad() || err != nil {
			if !s.cfg.tamper {
				s.failHonest("sign-failed", c, "signer %d: %v %v", i, o, err)
			}
			return
		}
		s.r.Count("real_signatures")
		if !s.cfg.tamper {
			if e := c.c.checkShare(i, digest, sh); e != nil {
				s.failHonest("bad-share", c, "signer %d: %v", i, e)
			}
		}
	} else {
		if len(unhex(digest)) == 0 {
			return
		}
		shape := s.r.T.Intn(nShapes)
		salt := s.r.T.U64()
		sh = c.c.ext(i, digest, shape, salt)
		s.r.Count("external_signatures")
		if shape == shapeShortR || shape == shapeShortS {
			s.r.Count("external_signatures_short_rs")
		}
	}
	s.r.Logf("t=%dms signer %d signs c%d digest=%s sig=%s", s.now/ms, i, c.id, short(digest), short(sh.Sig))
	s.send(fmt.Sprintf("share c%d/%d", c.id, i), func() { s.walletGot(c, i, sh) })
}

func (s *CerSim) walletGot(c *cerState, i int, sh Share) {
	if !s.wallet.up {
		s.r.Count("fault:message_to_crashed_wallet")
		return
	}
	if c.done {
		return
	}
	if s.cfg.tamper && s.faulty() && s.r.T.Chance(s.cfg.tShare, 1000) {
		sh = s.tamperShare(c, i, sh)
	}
	if s.crashPoint("before-share-saved") {
		return
	}
	d := s.load(c)
	d.Shares[fmt.Sprint(i)] = sh
	s.save(c, d)
	s.diskFault(c)
	if s.crashPoint("after-share-saved") {
		return
	}
	s.combine(c)
}

func (s *CerSim) combine(c *cerState) {
	d := s.load(c)
	if d.Build == nil || c.done {
		return
	}
	var shares []Share
	complete := true
	for i := range c.c.Keys {
		sh, ok := d.Shares[fmt.Sprint(i)]
		if !ok {
			complete = false
			continue
		}
		shares = append(shares, sh)
	}
	if !complete {
		if !(s.cfg.tamper && s.faulty() && s.r.T.Chance(s.cfg.tPremature, 1000)) {
			return
		}
		s.r.Count("fault:premature_combine")
		s.r.Logf("t=%dms wallet combines c%d with %d of %d shares", s.now/ms, c.id, len(shares), len(c.c.Keys))
	}
	empty := d.Build.Empty
	if s.cfg.tamper && s.faulty() && len(shares) > 0 && s.r.T.Chance(s.cfg.tExtra, 1000) {
		switch s.r.T.Intn(3) {
		case 0:
			shares = append(shares, shares[s.r.T.Intn(len(shares))])
			s.r.Count("fault:share_duplicated_in_list")
		case 1:
			if len(shares) > 1 {
				j := s.r.T.Range(1, len(shares)-1)
				shares[0], shares[j] = shares[j], shares[0]
				s.r.Count("fault:shares_reordered_in_list")
			}
		case 2:
			shares = shares[:len(shares)-1]
			s.r.Count("fault:share_dropped_from_list")
		}
	}
	var misrouted *cerState
	if s.cfg.tamper && s.faulty() && s.r.T.Chance(s.cfg.tX, 1000) {
		var other *cerState
		if len(s.cers) > 1 {
			other = s.cers[s.r.T.Intn(len(s.cers))]
		}
		if other != nil && other != c && other.c.Drv == c.c.Drv {
			if od := s.load(other); od.Build != nil && od.Build.Empty != empty {
				empty = od.Build.Empty
				misrouted = other
				s.r.Count("fault:transaction_misrouted")
				s.r.Logf("t=%dms c%d combined with the transaction of c%d", s.now/ms, c.id, other.id)
			}
		}
	}
	s.enter(&s.wallet)
	var final string
	var err error
	o := call(func() { final, err = c.c.Combine(empty, d.Build.Digests, shares) })
	s.settle(c, "combining")
	check := func(c *cerState) error { return c.judge(shares, empty, final) }
	if !o.Bad() && err == nil && misrouted != nil && check(c) != nil && check(misrouted) == nil {
		// the transaction and the shares of one ceremony, handed in for another:
		// correct for what was handed in; the wallet sees it is not its own
		s.r.Count("combined_other_ceremony")
		err = errRefused
	}
	if o.Bad() && s.cfg.tamper {
		s.r.Fail("combine-crashed|"+c.c.Drv, "combining neither refused nor returned: %v; empty=%s shares=%s; intent: %s", o, empty, shareText(shares), c.c.Desc)
	}
	if o.Bad() || err != nil {
		c.rejects++
		s.r.Count("combine_rejected")
		s.r.Logf("t=%dms wallet: combine c%d rejected: %v %v", s.now/ms, c.id, o, err)
		if !s.cfg.tamper {
			s.failHonest("honest-shares-rejected", c, "all shares are good, combine said: %v %v", o, err)
			return
		}
		if !complete {
			return
		}
		d.Shares = map[string]Share{}
		if c.rejects%2 == 0 {
			d.Build = nil
		}
		s.save(c, d)
		back := c.rejects
		if back > 10 {
			back = 10
		}
		ep := s.wallet.epoch
		s.after(int64(back)*20*ms, func() {
			if s.wallet.up && s.wallet.epoch == ep && !c.done {
				s.resume(c)
			}
		})
		return
	}
	c.accept++
	s.r.Count("combine_accepted")
	s.r.Logf("t=%dms wallet: combine c%d accepted: %s", s.now/ms, c.id, short(final))
	if e := check(c); e != nil {
		if s.cfg.tamper {
			s.r.Fail("wrong-transaction-accepted"+errClass(e)+"|"+c.c.Drv, "combine accepted, but: %v; shares=%d of %d; empty=%s shares=%s final=%s; intent: %s", e, len(shares), len(c.c.Keys), empty, shareText(shares), final, c.c.Desc)
		} else {
			s.failHonest("final-mismatch"+errClass(e), c, "%v; final=%s", e, final)
		}
	}
	if s.crashPoint("before-final-saved") {
		return
	}
	d.Final = final
	s.save(c, d)
	c.final = final
	c.done = true
	s.audit(c)
	if s.cfg.tamper {
		s.strays(c, empty, d.Build.Digests, shares)
	}
}

// judge compares an accepted result with the reference model.
func (c *cerState) judge(shares []Share, empty, final string) error {
	if c.c.Final != nil {
		return c.c.Final(c.builds, shares, final)
	}
	if c.c.Want != nil {
		return c.c.checkFinalShares(c.builds, shares, empty, final)
	}
	return c.c.CheckFinal(c.builds, final)
}

// strays: a second wallet process works with corrupted copies of what the
// first one finished with.
func (s *CerSim) strays(c *cerState, empty string, digests []string, good []Share) {
	t := s.r.T
	n := t.Range(1, 6)
	if len(good) > 3 {
		n = t.Intn(2)
	}
	for ; n > 0; n-- {
		e, shares := empty, append([]Share{}, good...)
		switch k := t.Intn(8); {
		case k < 4 && len(shares) > 0:
			i := t.Intn(len(shares))
			if i < len(c.c.Keys) {
				shares[i] = s.tamperShare(c, i, shares[i])
			}
		case k < 6:
			e = tamperText(s.r, e)
			s.r.Count("fault:stored_transaction_corrupted")
		case k == 6 && len(shares) > 0:
			i := t.Intn(len(shares))
			shares = append(shares[:i], shares[i+1:]...)
			s.r.Count("fault:share_dropped_from_list")
		case k == 7 && len(shares) > 1:
			i, j := t.Intn(len(shares)), t.Intn(len(shares))
			shares[i] = shares[j]
			s.r.Count("fault:share_duplicated_in_list")
		}
		s.enter(&s.wallet)
		var final string
		var err error
		o := call(func() { final, err = c.c.Combine(e, digests, shares) })
		s.settle(c, "combining")
		s.r.Logf("t=%dms second wallet combines corrupted copies of c%d: %v %v", s.now/ms, c.id, o, err)
		if o.Bad() {
			s.r.Fail("combine-crashed|"+c.c.Drv, "combining neither refused nor returned: %v; empty=%s shares=%s; intent: %s", o, e, shareText(shares), c.c.Desc)
		}
		if o.Bad() || err != nil {
			s.r.Count("combine_rejected")
			continue
		}
		s.r.Count("combine_accepted")
		if x := c.judge(shares, e, final); x != nil {
			s.r.Fail("wrong-transaction-accepted"+errClass(x)+"|"+c.c.Drv, "combine accepted, but: %v; shares=%d of %d; empty=%s shares=%s final=%s; intent: %s", x, len(shares), len(c.c.Keys), e, shareText(shares), final, c.c.Desc)
		}
	}
}

// audit verifies the finished transaction again as it was stored, and, on a
// hostile disk, after it was corrupted there.
func (s *CerSim) audit(c *cerState) {
	if c.c.Reverify == nil || !s.r.T.Chance(1, 4) {
		return
	}
	ok := false
	if o := call(func() { ok = c.c.Reverify(c.final) }); o.Bad() || !ok {
		s.failHonest("stored-final-refused", c, "the finished transaction is refused when it is verified again: %v; final=%s", o, c.final)
	}
	for n := 0; s.cfg.tamper && n < 4; n++ {
		bad := tamperText(s.r, c.final)
		if bad == c.final {
			continue
		}
		s.r.Count("fault:stored_final_corrupted")
		ok := false
		o := call(func() { ok = c.c.Reverify(bad) })
		s.r.Logf("t=%dms stored final of c%d corrupted, verification: %v %v", s.now/ms, c.id, ok, o)
		if o.Bad() {
			s.r.Fail("verify-crashed|"+c.c.Drv, "verifying a corrupted final neither refused nor returned: %v; corrupted=%s; intent: %s", o, bad, c.c.Desc)
		}
		if o.Bad() || !ok {
			continue
		}
		if e := c.c.CheckFinal(nil, bad); e != nil {
			s.r.Fail("wrong-transaction-verified|"+c.c.Drv, "verification accepts a corrupted final: %v; final=%s; corrupted=%s; intent: %s", e, c.final, bad, c.c.Desc)
		}
	}
	s.settle(c, "verifying")
}

func shareText(sh []Share) string {
	var x []string
	for _, s := range sh {
		x = append(x, s.Sig+"/"+s.Pub)
	}
	return strings.Join(x, " ")
}

func (s *CerSim) diskFault(c *cerState) {
	if !s.cfg.tamper || !s.faulty() || !s.r.T.Chance(s.cfg.tDisk, 1000) {
		return
	}
	d := s.load(c)
	if d.Build == nil {
		return
	}
	d.Build.Empty = tamperText(s.r, d.Build.Empty)
	s.save(c, d)
	s.r.Count("fault:stored_transaction_corrupted")
	s.r.Logf("t=%dms stored transaction of c%d corrupted", s.now/ms, c.id)
}

// tamperHex changes one or a few hex digits, keeping the length.
func tamperHex(r *Run, h string) string {
	if h == "" {
		return h
	}
	b := []byte(h)
	for n := r.T.Range(1, 2); n > 0; n-- {
		i := r.T.Intn(len(b))
		switch r.T.Intn(8) { // the first and last bytes mean most
		case 1:
			i = len(b) - 1
		case 2:
			i = 0
		case 3:
			if len(b) > 1 {
				i = 1
			}
		}
		by := r.T.Range(1, 15)
		if r.T.Chance(1, 4) {
			by = 1
		}
		b[i] = flipDigit(b[i], by)
	}
	return string(b)
}

func flipDigit(c byte, by int) byte {
	const d = "0123456789abcdef"
	i := strings.IndexByte(d, c)
	if i < 0 {
		return d[by%16]
	}
	return d[(i^by)%16]
}

// tamperText corrupts a stored or transmitted string: hex digit or character
// changes, truncation, extension, removal or repetition of a piece.
func tamperText(r *Run, h string) string {
	if h == "" {
		return h
	}
	switch r.T.Intn(8) {
	case 0, 1, 2:
		return tamperHex(r, h)
	case 3:
		b := []byte(h)
		i := r.T.Intn(len(b))
		b[i] = byte(32 + r.T.Intn(95))
		return string(b)
	case 4:
		return h[:r.T.Intn(len(h))]
	case 5:
		i := r.T.Intn(len(h))
		n := r.T.Range(1, 8)
		if i+n > len(h) {
			n = len(h) - i
		}
		return h[:i] + h[i+n:]
	case 6:
		i := r.T.Intn(len(h))
		n := r.T.Range(1, 8)
		if i+n > len(h) {
			n = len(h) - i
		}
		return h[:i+n] + h[i:]
	default:
		return h + []string{"00", "ff", "0", "01"}[r.T.Intn(4)]
	}
}

func (s *CerSim) tamperShare(c *cerState, i int, sh Share) Share {
	k := s.r.T.Intn(12)
	old := sh
	name := ""
	digest := func() string {
		d := s.load(c)
		if d.Build != nil && i < len(d.Build.Digests) {
			return d.Build.Digests[i]
		}
		return ""
	}
	switch k {
	case 0:
		sh.Sig, name = tamperHex(s.r, sh.Sig), "signature_corrupted"
	case 1:
		sh.Pub, name = tamperHex(s.r, sh.Pub), "pubkey_corrupted"
	case 2:
		sh.Sig, name = tamperText(s.r, sh.Sig), "signature_mangled"
	case 3:
		sh.Pub, name = tamperText(s.r, sh.Pub), "pubkey_mangled"
	case 4: // signature of another party or ceremony under this one's key name
		if o := s.otherShare(c, i); o != nil {
			sh.Sig, name = o.Sig, "signature_misrouted"
		}
	case 5:
		if o := s.otherShare(c, i); o != nil {
			sh, name = *o, "share_misrouted"
		}
	case 6, 7: // a stranger signs the right digest
		if dg := digest(); dg != "" && len(c.c.Keys) > 0 {
			kk := c.c.Keys[i]
			str := poolKey(kk.Curve, 100+s.r.T.Intn(4))
			if o := c.c.Keys[s.r.T.Intn(len(c.c.Keys))]; s.r.T.Chance(1, 2) && o != kk && o.Curve == kk.Curve {
				str = o // a stranger to this input only
			}
			cc := *c.c
			cc.Keys = append([]*Key{}, c.c.Keys...)
			cc.Keys[i] = str
			if o := call(func() { sh = c.c.strangerShare(&cc, i, dg, s.r.T.Intn(nShapes)) }); o.Bad() {
				sh = old
				break
			}
			name = "share_by_stranger"
			if k == 7 {
				sh.Pub = old.Pub
				name = "signature_by_stranger"
			}
		}
	case 8:
		sh.Sig, name = "", "signature_missing"
	case 9:
		sh.Sig, name = strings.Repeat("0", len(sh.Sig)), "signature_zeroed"
	case 11: // as valid as before, but not the form the signer gave it
		if sig := unhex(sh.Sig); (len(sig) == 64 || len(sig) == 65) && len(c.c.Keys) > 0 && !c.c.Keys[i].Curve.edwards() {
			n := curveOrder(c.c.Keys[i].Curve)
			x := new(big.Int).SetBytes(sig[32:64])
			if x.Sign() > 0 && x.Cmp(n) < 0 {
				sh.Sig, name = hx(cat(sig[:32], pad32(x.Sub(n, x)), sig[64:])), "signature_negated"
			}
		}
	case 10:
		sh.Pub, name = c.c.pubText(poolKey(c.c.Keys[i].Curve, 100+s.r.T.Intn(4))), "pubkey_replaced"
	}
	if name != "" && sh != old {
		s.r.Count("fault:" + name)
		s.r.Logf("t=%dms share c%d/%d: %s", s.now/ms, c.id, i, name)
	}
	return sh
}

func (c *Cer) strangerShare(cc *Cer, i int, digest string, shape int) Share {
	sh := Share{}
	if c.Ext != nil {
		keep := c.Keys[i]
		c.Keys[i] = cc.Keys[i]
		defer func() { c.Keys[i] = keep }()
		return c.Ext(i, digest, shape, 7)
	}
	sh.Sig = hx(cc.Keys[i].extSign(unhex(digest), shape, 7))
	sh.Pub = c.pubText(cc.Keys[i])
	return sh
}

func (s *CerSim) otherShare(c *cerState, i int) *Share {
	o := s.cers[s.r.T.Intn(len(s.cers))]
	d := s.load(o)
	if len(o.c.Keys) == 0 {
		return nil
	}
	j := s.r.T.Intn(len(o.c.Keys))
	if o == c && j == i {
		return nil
	}
	if sh, ok := d.Shares[fmt.Sprint(j)]; ok {
		return &sh
	}
	return nil
}

// gen is gens[i]; in development, one that draws from the driver asked for.
func gen(gens []genFn, i int) genFn {
	if onlyDrv == "" {
		return gens[i]
	}
	return func(r *Run, p *Pool) *Cer {
		c := gens[i](r, p)
		for tries := 0; c.Drv != onlyDrv && tries < 400; tries++ {
			c = gens[r.T.Intn(len(gens))](r, p)
		}
		return c
	}
}

var onlyDrv = os.Getenv("VERIF_ONLY")

// runCeremonies is the body of the ceremony properties.
// sibling makes an intent that differs from another one in one or two choices:
// the one drawn with the choices seg from generator g.
func sibling(r *Run, p *Pool, g genFn, seg []uint64) *Cer {
	t := r.T
	v := append([]uint64{}, seg...)
	for k := t.Range(1, 2); k > 0 && len(v) > 0; k-- {
		i := t.Intn(len(v))
		if t.Chance(1, 2) {
			v[i]++
		} else {
			v[i] = t.U64()
		}
	}
	q := NewRun(r.Prop, ReplayTape(v))
	q.Tier = r.Tier
	pp := *p
	pp.r = q
	r.Count("sibling_intents")
	return g(q, &pp)
}

func runCeremonies(r *Run, gens []genFn, tamper bool) {
	t := r.T
	s := &CerSim{r: r}
	s.cfg.tamper = tamper
	s.wallet.up = true
	pool := newPool(r)
	pool.hostile = tamper
	n := 1 + t.Intn(3)
	first := t.Intn(len(gens))
	var lastGen genFn
	var seg []uint64
	for i := 0; i < n; i++ {
		gi := first
		if t.Chance(1, 3) {
			gi = t.Intn(len(gens))
		}
		g := gen(gens, gi)
		if i > 0 && t.Chance(1, 4) {
			s.cers = append(s.cers, &cerState{id: i, c: sibling(r, pool, lastGen, seg)})
			continue
		}
		at := len(t.Used())
		c := g(r, pool)
		lastGen, seg = g, append([]uint64{}, t.Used()[at:]...)
		s.cers = append(s.cers, &cerState{id: i, c: c})
	}
	s.signers = make([]node, 4)
	s.entSeed = t.U64()
	// swarm: which faults this run may see
	mode := t.Intn(4)
	if mode > 0 || tamper {
		on := func(max int) int {
			if t.Chance(1, 2) {
				return t.Range(20, max)
			}
			return 0
		}
		s.cfg.loss, s.cfg.dup, s.cfg.delay = on(300), on(300), on(500)
		s.cfg.crash, s.cfg.clock, s.cfg.entropy = on(150), on(600), on(400)
		if tamper {
			s.cfg.tShare, s.cfg.tDigest, s.cfg.tDisk = on(700), on(300), on(400)
			s.cfg.tPremature, s.cfg.tExtra, s.cfg.tX = on(300), on(300), on(400)
			if s.cfg.tShare+s.cfg.tDigest+s.cfg.tDisk+s.cfg.tPremature+s.cfg.tExtra+s.cfg.tX == 0 {
				s.cfg.tShare = 400
			}
		}
		s.faultEnd = int64(t.Range(300, 2500)) * ms
	}
	s.clockFault(&s.wallet, "wallet")
	for i := range s.signers {
		s.clockFault(&s.signers[i], fmt.Sprintf("signer %d", i))
	}
	for _, c := range s.cers {
		c := c
		r.Logf("intent c%d %s: %s", c.id, c.c.Drv, c.c.Desc)
		s.after(int64(t.Intn(50))*ms, func() {
			c.started = true
			if s.wallet.up {
				s.build(c)
			}
		})
	}
	budget := 400 + 60*len(s.cers)*4
	for _, c := range s.cers {
		budget += 8 * len(c.c.Keys)
	}
	for len(s.q) > 0 && !s.allDone() {
		ev := heap.Pop(&s.q).(event)
		s.now = ev.at
		ev.run()
		r.State(hashStr(s.stateText()))
		if s.now >= s.faultEnd {
			s.settled++
			if s.settled > budget {
				break
			}
		}
		if r.Events > 2500 && s.faulty() {
			s.faultEnd = s.now // enough adversity
		}
	}
	r.Sim += s.now
	if !s.allDone() {
		for _, c := range s.cers {
			if !c.done {
				s.r.Fail("not-completed|"+c.c.Drv, "ceremony c%d did not complete within %d events after faults stopped (%d rejects); intent: %s", c.id, budget, c.rejects, c.c.Desc)
			}
		}
	}
	r.Logf("end t=%dms", s.now/ms)
}

func (s *CerSim) allDone() bool {
	for _, c := range s.cers {
		if !c.done {
			return false
		}
	}
	return true
}

func (s *CerSim) stateText() string {
	var b strings.Builder
	for _, c := range s.cers {
		d := s.load(c)
		fmt.Fprintf(&b, "%s/%v%v%d:", c.c.Drv, d.Build != nil, c.done, c.rejects)
		for i := range c.c.Keys {
			if _, ok := d.Shares[fmt.Sprint(i)]; ok {
				fmt.Fprintf(&b, "%d", i)
			}
		}
		fmt.Fprintf(&b, ";")
	}
	fmt.Fprintf(&b, "%v%d", s.wallet.up, len(s.q))
	return b.String()
}
