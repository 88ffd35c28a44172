//go:build go1.18

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

// Violation is a broken property. Class names what broke, independent of the
// data of the run; minimisation and known findings go by it.
type Violation struct {
	Class string
	Msg   string
}

// Run is one simulated execution.
type Run struct {
	T        *Tape
	Prop     string
	Tier     string
	Variant  int // which of several executions of the same tape (process restarts)
	trace    []string
	logHash  uint64
	Counts   map[string]int64 // faults fired, probes
	Sim      int64            // simulated nanoseconds covered
	States   map[uint64]bool  // distinct interleavings or states
	Events   int
	viol     *Violation
	known    map[string]int
	knownMsg map[string]string
	knownOK  func(class string) bool
}

type stopRun struct{}

func NewRun(prop string, t *Tape) *Run {
	return &Run{T: t, Prop: prop, logHash: 14695981039346656037, Counts: map[string]int64{}, States: map[uint64]bool{}, known: map[string]int{}, knownMsg: map[string]string{}}
}

// Logf appends to the event log; it never draws from the tape.
func (r *Run) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		r.logHash ^= uint64(s[i])
		r.logHash *= 1099511628211
	}
	r.Events++
	if len(r.trace) < 4000 {
		r.trace = append(r.trace, s)
	}
}

func (r *Run) Count(k string) { r.Counts[k]++ }
func (r *Run) State(xs ...uint64) {
	if len(r.States) < 1<<16 {
		r.States[mix(xs...)] = true
	}
}

// Fail records a violation and ends the run, unless the class is listed as a
// known finding, in which case the run goes on.
func (r *Run) Fail(class, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if r.knownOK != nil && r.knownOK(class) {
		r.known[class]++
		r.knownMsg[class] = msg
		r.Logf("known finding %s: %s", class, msg)
		return
	}
	r.Logf("VIOLATION %s: %s", class, msg)
	r.viol = &Violation{class, msg}
	panic(stopRun{})
}

// Property is one check: it drives a run and fails it when the property breaks.
type Property struct {
	ID        string
	Title     string
	QuickRuns int
	ThorRuns  int
	Rule      string
	Measure   string
	Real      []string
	Stub      []string
	Assume    []string
	Race      bool
	Batch     int // runs per worker process (0: no limit)
	Body      func(r *Run)
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func propIDs() []string {
	var s []string
	for k := range properties {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

const opStepLimit = 400000000

// Execute runs the property body once on the tape.
func Execute(p *Property, r *Run) {
	simrt.Start(opStepLimit)
	simrt.SeedTask(0, 1, defaultClock, 0)
	simrt.SetMapSeed(0)
	defer simrt.Stop()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); ok {
				return
			}
			panic(e)
		}
	}()
	p.Body(r)
}

const defaultClock = int64(1600000000) * 1e9

// Outcome of one call into the code under test.
type Outcome struct {
	Panic string
	Hang  bool
}

// call runs f, turning panics and step-budget exhaustion into an Outcome.
func call(f func()) (o Outcome) {
	simrt.OpBegin()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); ok {
				panic(e)
			}
			if _, ok := e.(simrt.StepLimit); ok {
				o.Hang = true
				return
			}
			o.Panic = fmt.Sprint(e)
			if o.Panic == "" {
				o.Panic = "panic"
			}
		}
	}()
	f()
	return
}

func (o Outcome) Bad() bool { return o.Panic != "" || o.Hang }
func (o Outcome) String() string {
	if o.Hang {
		return "no result within the step budget"
	}
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	return "ok"
}

func short(s string) string {
	if len(s) <= 96 {
		return s
	}
	return fmt.Sprintf("%s...(%d)...%s", s[:48], len(s), s[len(s)-24:])
}

func classPart(s string) string {
	s = strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return -1
		}
		if c == ' ' || c == '\n' || c == '\t' {
			return '_'
		}
		return c
	}, s)
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}
