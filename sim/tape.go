//go:build go1.18

package main

import (
	"encoding/binary"
	"os"
)

// A run is a pure function of its tape: the sequence of bounded choices the
// simulator drew. During search the choices come from the seeded generator
// and are recorded; during replay and minimisation they come from the file.
// Choice 0 is always the plainest alternative (no fault, no context switch,
// the simplest operation), and choices past the end of a tape are 0, so that
// dropping or zeroing choices simplifies the run.

type Tape struct {
	vals   []uint64
	pos    int
	replay bool
	rng    Rng
	sink   *os.File
}

type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 24)
	}
	return b
}

func mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		r := Rng{h ^ x}
		h = r.U64()
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func NewTape(seed uint64) *Tape {
	t := &Tape{rng: Rng{seed}}
	if p := os.Getenv("VERIF_TAPE"); p != "" {
		t.sink, _ = os.Create(p)
	}
	return t
}
func ReplayTape(vals []uint64) *Tape { return &Tape{vals: vals, replay: true} }
func (t *Tape) Used() []uint64       { return t.vals[:minInt(t.pos, len(t.vals))] }
func (t *Tape) raw(gen uint64) uint64 {
	if t.replay {
		v := uint64(0)
		if t.pos < len(t.vals) {
			v = t.vals[t.pos]
		}
		t.pos++
		return v
	}
	t.vals = append(t.vals, gen)
	t.pos++
	if t.sink != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], gen)
		t.sink.Write(b[:])
	}
	return gen
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Intn draws from [0,n).
func (t *Tape) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var g uint64
	if !t.replay {
		g = t.rng.U64() % uint64(n)
	}
	return int(t.raw(g) % uint64(n))
}

// U64 draws a full word, used to seed data that need not shrink.
func (t *Tape) U64() uint64 {
	var g uint64
	if !t.replay {
		g = t.rng.U64()
	}
	return t.raw(g)
}

// Chance is true with probability num/den; the zero choice is false.
func (t *Tape) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return t.Intn(den) >= den-num
}

// Range draws from [lo,hi]; the zero choice is lo.
func (t *Tape) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Rng derives a generator for bulk data from one choice.
func (t *Tape) Rng() *Rng { return &Rng{t.U64()} }

// Amount draws from boundary-heavy unsigned values no larger than max.
func (t *Tape) Amount(max uint64) uint64 {
	k := t.Intn(14)
	r := t.Rng()
	var v uint64
	switch k {
	case 13:
		return 0
	case 0:
		v = 1 + r.U64()%1000
	case 1:
		v = r.U64() % 100000000
	case 2: // around a power of two
		v = uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 3: // around a byte boundary
		v = uint64(1)<<uint(8*r.Intn(8)) + uint64(r.Intn(3)) - 1
	case 4:
		v = max - uint64(r.Intn(3))
	case 5: // zero bytes inside
		v = r.U64() & (uint64(0xff) << uint(8*r.Intn(8)))
	case 6:
		v = (r.U64() & 0xff00ff00ff00ff) >> uint(r.Intn(64))
	default:
		v = r.U64() >> uint(r.Intn(64))
	}
	if v > max {
		v %= max
	}
	if v == 0 {
		v = 1
	}
	return v
}
