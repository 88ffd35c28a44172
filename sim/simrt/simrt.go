// Package simrt is the runtime the instrumented repository code calls into:
// scheduling points, the simulated clock and the simulated entropy source.
//
// One task runs at a time; which one is decided only here, from switch points
// the harness drew from the run's choice tape before the tasks were started.
// Hand-over between tasks goes through plain memory in functions marked
// go:norace, so that under the race detector the hand-over itself orders
// nothing: two tasks touching the same memory without synchronisation of
// their own are reported whatever the interleaving was.
package simrt

import (
	"errors"
	"runtime"
	"time"
)

const (
	MaxTasks  = 8
	MaxSwitch = 256
	ringSize  = 64
)

type Switch struct {
	Gap uint64 // scheduling points until the switch
	To  uint32 // which of the other runnable tasks (modulo)
}

type task struct {
	live      bool
	entropy   uint64 // stream state
	entServed uint64 // bytes served
	entReads  uint64
	entFail   int64 // reads left before the source fails; -1: never
	entShort  bool  // fail with a short read instead of none at all
	entFired  uint64
	clock     int64 // next reading, ns since the epoch
	tick      int64 // added after every reading
	reads     uint32
	ring      [ringSize]int64
}

var (
	on      bool
	conc    bool
	step    uint64
	next    uint64
	opStart uint64
	opLimit uint64
	cur     int32
	nTasks  int32
	foreign int32
	tasks   [MaxTasks]task

	sw      [MaxSwitch]Switch
	nSw     int
	iSw     int
	swAt    uint64
	lastSw  uint64
	fired   int
	pairs   [MaxSwitch * 4]uint64
	nPairs  int
	mapSeed uint64
)

// StepLimit is the panic value used when one operation passes its step budget.
type StepLimit struct{ Steps uint64 }

func (s StepLimit) Error() string { return "simulated step budget exhausted" }

var ErrEntropy = errors.New("simulated entropy source failure")

//go:norace
func Y(id uint32) {
	if !on {
		return
	}
	step++
	if step < next {
		return
	}
	slow(id)
}

//go:norace
func slow(id uint32) {
	if foreign != 0 {
		return
	}
	if opLimit != 0 && step-opStart >= opLimit {
		opStart = step
		arm()
		panic(StepLimit{opLimit})
	}
	if conc && iSw < nSw && step >= swAt {
		s := sw[iSw]
		iSw++
		if iSw < nSw {
			swAt = step + sw[iSw].Gap
		}
		arm()
		if t := pick(s.To); t >= 0 {
			fired++
			if nPairs < len(pairs) {
				pairs[nPairs] = uint64(id)<<32 | uint64(t)<<8 | uint64(cur)
				nPairs++
			}
			yieldTo(t)
		}
		return
	}
	arm()
}

//go:norace
func arm() {
	next = ^uint64(0)
	if conc && iSw < nSw {
		next = swAt
	}
	if opLimit != 0 && opStart+opLimit < next {
		next = opStart + opLimit
	}
}

// pick chooses the (n mod k)-th of the k live tasks other than the current one.
//
//go:norace
func pick(n uint32) int32 {
	k := uint32(0)
	for i := int32(0); i < nTasks; i++ {
		if i != cur && tasks[i].live {
			k++
		}
	}
	if k == 0 {
		return -1
	}
	n %= k
	for i := int32(0); i < nTasks; i++ {
		if i != cur && tasks[i].live {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

//go:norace
func yieldTo(t int32) {
	me := cur
	cur = t
	for cur != me {
		runtime.Gosched()
	}
}

// Blocked is called by the cooperative sync primitives while they cannot
// proceed: it lets some other task run. It reports false if no other task is
// live, in which case the caller is deadlocked.
//
//go:norace
func Blocked() bool {
	if !on || !conc || foreign != 0 {
		runtime.Gosched()
		return true
	}
	t := pick(uint32(step))
	if t < 0 {
		return false
	}
	step++
	if step > next && opLimit != 0 && step-opStart >= opLimit {
		return false
	}
	yieldTo(t)
	return true
}

// ---- harness side ----

//go:norace
func Start(limit uint64) {
	on, conc = true, false
	step, opStart, opLimit = 0, 0, limit
	cur, nTasks = 0, 1
	iSw, nSw, fired, nPairs = 0, 0, 0, 0
	arm()
}

//go:norace
func Stop() { on = false; conc = false }

// OpBegin starts a fresh step budget.
//
//go:norace
func OpBegin() { opStart = step; arm() }

//go:norace
func Steps() uint64 { return step }

//go:norace
func OpSteps() uint64 { return step - opStart }

//go:norace
func SetTask(i int) { cur = int32(i) }

//go:norace
func SetLimit(l uint64) { opLimit = l; arm() }

//go:norace
func SeedTask(i int, entropy uint64, clock, tick int64) {
	t := &tasks[i]
	t.entropy, t.entServed, t.entReads, t.entFail, t.entShort, t.entFired = entropy, 0, 0, -1, false, 0
	t.clock, t.tick, t.reads = clock, tick, 0
}

//go:norace
func SetClock(i int, clock, tick int64) { tasks[i].clock, tasks[i].tick = clock, tick }

//go:norace
func Clock(i int) int64 { return tasks[i].clock }

//go:norace
func FailEntropy(i int, after int64, short bool) {
	tasks[i].entFail, tasks[i].entShort = after, short
}

//go:norace
func EntropyStats(i int) (reads, served, fired uint64) {
	return tasks[i].entReads, tasks[i].entServed, tasks[i].entFired
}

// ClockReads returns how many readings task i took and the last of them.
//
//go:norace
func ClockReads(i int) (uint32, [ringSize]int64) { return tasks[i].reads, tasks[i].ring }

//go:norace
func ResetClockReads(i int) { tasks[i].reads = 0 }

//go:norace
func SetMapSeed(s uint64) { mapSeed = s }

// Launch prepares n concurrent tasks and their switch points. The first task
// to run is first.
//
//go:norace
func Launch(n int, first int, switches []Switch, limit uint64) {
	on, conc = true, true
	step, opStart, opLimit = 0, 0, limit
	nTasks = int32(n)
	for i := 0; i < n; i++ {
		tasks[i].live = true
	}
	nSw, iSw, fired, nPairs = 0, 0, 0, 0
	for _, s := range switches {
		if nSw < MaxSwitch {
			sw[nSw] = s
			nSw++
		}
	}
	if nSw > 0 {
		swAt = sw[0].Gap
	}
	arm()
	cur = int32(first)
}

// Enter blocks the calling task until the scheduler picks it.
//
//go:norace
func Enter(i int) {
	for cur != int32(i) {
		runtime.Gosched()
	}
}

// Exit marks the calling task finished and hands over to another one.
//
//go:norace
func Exit(i int) {
	tasks[i].live = false
	n := uint32(0)
	if iSw < nSw {
		n = sw[iSw].To
	}
	if t := pick(n); t >= 0 {
		cur = t
		return
	}
	cur = -1
}

//go:norace
func Fired() int { return fired }

//go:norace
func Pairs() []uint64 {
	out := make([]uint64, 0, nPairs)
	for i := 0; i < nPairs; i++ {
		out = append(out, pairs[i])
	}
	return out
}

// Go runs f as a goroutine of the code under test. The simulator does not
// preempt while such goroutines exist.
func Go(f func()) {
	addForeign(1)
	go func() {
		defer addForeign(-1)
		f()
	}()
}

//go:norace
func addForeign(d int32) { foreign += d }

// ---- seams ----

//go:norace
func TimeNow() time.Time {
	t := &tasks[cur]
	v := t.clock
	t.ring[t.reads%ringSize] = v
	t.reads++
	t.clock += t.tick
	return time.Unix(v/1e9, v%1e9)
}

func TimeSince(u time.Time) time.Duration { return TimeNow().Sub(u) }
func TimeUntil(u time.Time) time.Duration { return u.Sub(TimeNow()) }

//go:norace
func TimeSleep(d time.Duration) { tasks[cur].clock += int64(d) }

func TimeAfter(d time.Duration) <-chan time.Time {
	TimeSleep(d)
	c := make(chan time.Time, 1)
	c <- TimeNow()
	return c
}

type reader struct{}

// Entropy is the simulated entropy source, also installed as crypto/rand.Reader.
var Entropy reader

//go:norace
func (reader) Read(b []byte) (int, error) {
	t := &tasks[cur]
	t.entReads++
	n := len(b)
	failed := false
	if t.entFail == 0 {
		t.entFired++
		failed = true
		n = 0
		if t.entShort {
			n = len(b) / 2
		}
	} else if t.entFail > 0 {
		t.entFail--
	}
	for i := 0; i < n; i++ {
		t.entropy += 0x9e3779b97f4a7c15
		z := t.entropy
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		b[i] = byte(z)
	}
	t.entServed += uint64(n)
	if failed {
		return n, ErrEntropy
	}
	return n, nil
}

// RandRead stands in for crypto/rand.Read: it fills b or reports an error.
func RandRead(b []byte) (int, error) {
	return Entropy.Read(b)
}
