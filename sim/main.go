//go:build go1.18

package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

func main() {
	rand.Reader = simrt.Entropy
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifsim check|worker|replay|child|selftest|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		runtime.GOMAXPROCS(1)
		cmdWorker(os.Args[2:])
	case "replay":
		runtime.GOMAXPROCS(1)
		os.Exit(cmdReplay(os.Args[2:]))
	case "shrink":
		runtime.GOMAXPROCS(1)
		cmdShrink(os.Args[2:])
	case "child":
		runtime.GOMAXPROCS(1)
		cmdChild(os.Args[2:])
	case "selftest":
		os.Exit(cmdSelftest(os.Args[2:]))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id, properties[id].Title)
		}
	default:
		os.Exit(2)
	}
}

// Replay is the file written for a violation.
type Replay struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	VerifSeed uint64   `json:"verif_seed"`
	Run       int      `json:"run"`
	RunSeed   uint64   `json:"run_seed"`
	Tier      string   `json:"tier"`
	Tape      []uint64 `json:"tape"`
	UseSeed   bool     `json:"use_seed,omitempty"`    // the run is regenerated from run_seed, no tape
	Prefix    []int    `json:"prefix_runs,omitempty"` // runs executed before, in the same process
	Original  int      `json:"choices_before_minimisation"`
	Minimised int      `json:"choices_after_minimisation"`
	Trace     []string `json:"trace"`

	NotRepeatable bool `json:"not_repeatable,omitempty"`
}

func runSeed(verifSeed uint64, prop string, i int) uint64 {
	return mix(verifSeed, hashStr(prop), uint64(i))
}

type workerOut struct {
	Runs     int               `json:"runs"`
	Counts   map[string]int64  `json:"counts"`
	SimNS    float64           `json:"sim_ns"`
	Events   int64             `json:"events"`
	Steps    uint64            `json:"steps"`
	States   []uint64          `json:"states"`
	Distinct []uint64          `json:"distinct"`
	Known    map[string]int    `json:"known"`
	Msgs     map[string]string `json:"msgs,omitempty"`
	Samples  [][]string        `json:"samples"`
	Viol     *Replay           `json:"viol"`
	Hashes   []string          `json:"hashes"`
}

type knownFinding struct {
	Property, Key, What string
}

var knownPath string

func loadKnown(path string) []knownFinding {
	var out []knownFinding
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

func knownFn(prop string) func(string) bool {
	set := map[string]bool{}
	for _, k := range loadKnown(knownPath) {
		if k.Property == prop {
			set[k.Key] = true
		}
	}
	survey := os.Getenv("VERIF_SURVEY") != "" // development: list every class instead of stopping at the first
	return func(c string) bool { return set[c] || survey }
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	runs := fs.Int("runs", 0, "run indexes below this")
	deadline := fs.Float64("deadline", 0, "seconds")
	tier := fs.String("tier", "quick", "")
	progress := fs.String("progress", "", "")
	known := fs.String("known", "", "")
	hashes := fs.Bool("hashes", false, "")
	fs.Parse(args)
	knownPath = *known
	p := properties[*prop]
	kf := knownFn(p.ID)
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	out := workerOut{Counts: map[string]int64{}, Known: map[string]int{}, Msgs: map[string]string{}}
	states, distinct := map[uint64]bool{}, map[uint64]bool{}
	start := time.Now()
	var buf [8]byte
	for i := *from; i < *runs; i += *stride {
		if *deadline > 0 && time.Since(start).Seconds() > *deadline {
			break
		}
		if pf != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
			pf.WriteAt(buf[:], 0)
		}
		rs := runSeed(*seed, p.ID, i)
		r := NewRun(p.ID, NewTape(rs))
		r.Tier = *tier
		r.knownOK = kf
		Execute(p, r)
		out.Runs++
		out.Steps += simrt.Steps()
		out.Events += int64(r.Events)
		out.SimNS += float64(r.Sim)
		for k, v := range r.Counts {
			out.Counts[k] += v
		}
		for k, v := range r.known {
			out.Known[k] += v
			out.Msgs[k] = r.knownMsg[k]
		}
		for k := range r.States {
			if len(states) < 400000 {
				states[k] = true
			}
		}
		if len(r.Counts) > 0 {
			distinct[r.logHash] = true
		}
		if *hashes {
			out.Hashes = append(out.Hashes, fmt.Sprintf("%d:%016x", i, r.logHash))
		}
		if len(out.Samples) < 2 {
			out.Samples = append(out.Samples, headTail(r.trace, 14))
		}
		if r.viol != nil {
			out.Viol = &Replay{Property: p.ID, Class: r.viol.Class, Message: r.viol.Msg, VerifSeed: *seed, Run: i, RunSeed: rs, Tier: *tier, Tape: r.T.Used(), Trace: r.trace}
			break
		}
	}
	for k := range states {
		out.States = append(out.States, k)
	}
	for k := range distinct {
		out.Distinct = append(out.Distinct, k)
	}
	b, _ := json.Marshal(out)
	w := bufio.NewWriter(os.Stdout)
	w.WriteString("\nWORKER-RESULT ")
	w.Write(b)
	w.WriteString("\n")
	w.Flush()
}

func headTail(s []string, n int) []string {
	if len(s) <= n {
		return s
	}
	return append(append([]string{}, s[:n]...), fmt.Sprintf("... %d more events", len(s)-n))
}

// execReplay executes the file's run; it returns the run.
func execReplay(rp *Replay) *Run {
	p := properties[rp.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rp.Property)
		os.Exit(3)
	}
	kf := knownFn(rp.Property)
	for _, i := range rp.Prefix {
		r := NewRun(p.ID, NewTape(runSeed(rp.VerifSeed, p.ID, i)))
		r.Tier = rp.Tier
		r.knownOK = kf
		Execute(p, r)
	}
	t := ReplayTape(rp.Tape)
	if rp.UseSeed {
		t = NewTape(rp.RunSeed)
	}
	r := NewRun(p.ID, t)
	r.Tier = rp.Tier
	r.knownOK = kf
	Execute(p, r)
	return r
}

func readReplay(path string) *Replay {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &rp
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	known := fs.String("known", "", "")
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	knownPath = *known
	rp := readReplay(fs.Arg(0))
	r := execReplay(rp)
	if !*quiet {
		for _, l := range r.trace {
			fmt.Println(l)
		}
	}
	fmt.Printf("REPLAY-LOG-HASH %016x\n", r.logHash)
	if r.viol != nil {
		fmt.Printf("REPLAY-VIOLATION %s\n%s\n", r.viol.Class, r.viol.Msg)
		return 1
	}
	fmt.Println("REPLAY-OK")
	return 0
}

// cmdShrink minimises in process and writes the result over the file.
func cmdShrink(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	known := fs.String("known", "", "")
	budget := fs.Float64("budget", 45, "seconds")
	fs.Parse(args)
	knownPath = *known
	rp := readReplay(fs.Arg(0))
	orig := len(rp.Tape)
	try := func(tape []uint64) (*Run, bool) {
		c := *rp
		c.Tape = tape
		c.Prefix = nil
		r := execReplay(&c)
		return r, r.viol != nil && r.viol.Class == rp.Class
	}
	best, last := shrink(rp.Tape, *budget, try)
	if last != nil {
		rp.Tape = best
		rp.Message = last.viol.Msg
		rp.Trace = last.trace
	}
	rp.Original, rp.Minimised = orig, len(rp.Tape)
	writeReplay(fs.Arg(0), rp)
}

func writeReplay(path string, rp *Replay) {
	b, _ := json.MarshalIndent(rp, "", " ")
	ioutil.WriteFile(path, b, 0644)
}

// shrink deletes chunks, zeroes and lowers choices while try keeps failing.
func shrink(tape []uint64, budget float64, try func([]uint64) (*Run, bool)) ([]uint64, *Run) {
	start := time.Now()
	over := func() bool { return time.Since(start).Seconds() > budget }
	best := append([]uint64{}, tape...)
	var last *Run
	attempt := func(c []uint64) bool {
		r, ok := try(c)
		if ok {
			u := len(c)
			if r.T.pos < u {
				u = r.T.pos
			}
			best = append([]uint64{}, c[:u]...)
			for len(best) > 0 && best[len(best)-1] == 0 {
				best = best[:len(best)-1]
			}
			last = r
		}
		return ok
	}
	if !attempt(best) {
		return tape, nil
	}
	for pass := 0; pass < 6 && !over(); pass++ {
		before := fmt.Sprint(best)
		for size := len(best) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(best) && !over(); {
				c := append(append([]uint64{}, best[:i]...), best[i+size:]...)
				if !attempt(c) {
					i += size
				}
			}
		}
		for size := len(best) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(best) && !over(); i += size {
				c := append([]uint64{}, best...)
				ch := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						c[j] = 0
						ch = true
					}
				}
				if ch {
					attempt(c)
				}
			}
		}
		for i := 0; i < len(best) && !over(); i++ {
			for _, v := range []uint64{1, best[i] / 2, best[i] - 1} {
				if i < len(best) && v < best[i] {
					c := append([]uint64{}, best...)
					c[i] = v
					attempt(c)
				}
			}
		}
		if fmt.Sprint(best) == before {
			break
		}
	}
	return best, last
}

type child struct {
	out   workerOut
	ok    bool
	err   string
	from  int
	died  bool
	lastI int
}

// oneWorker runs one worker process to its end.
func oneWorker(self string, p *Property, seed uint64, from, W, end int, left float64, tier, work string, w int, start func(*exec.Cmd) bool, killed func() bool) *child {
	prog := filepath.Join(work, fmt.Sprintf("progress.%d", w))
	os.Remove(prog)
	cmd := exec.Command(self, "worker", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(W),
		"-runs", fmt.Sprint(end), "-deadline", fmt.Sprint(left), "-tier", tier, "-progress", prog, "-known", knownPath)
	cmd.Env = append(os.Environ(), gorace, "VERIF_WORK="+work)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &limitWriter{b: &eb, n: 1 << 20}
	if !start(cmd) {
		if killed() {
			return nil
		}
		return &child{err: "worker does not start"}
	}
	c := &child{from: from}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Duration((left + 120) * float64(time.Second))):
		cmd.Process.Kill()
		<-done
		c.err = "watchdog: worker did not finish"
		return c
	}
	if i := bytes.LastIndex(ob.Bytes(), []byte("\nWORKER-RESULT ")); i >= 0 {
		line := ob.Bytes()[i+len("\nWORKER-RESULT "):]
		if e := json.Unmarshal(bytes.TrimSpace(line), &c.out); e == nil {
			c.ok = true
		}
	}
	if !c.ok && !killed() {
		c.died = true
		c.err = fmt.Sprintf("worker ended: %v\n%s", err, eb.String())
		if b, e := ioutil.ReadFile(prog); e == nil && len(b) == 8 {
			c.lastI = int(binary.LittleEndian.Uint64(b)) - 1
		} else {
			c.died = false
		}
	}
	return c
}

const gorace = "GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0"

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "scratch directory")
	workers := fs.Int("workers", 0, "")
	runsOverride := fs.Int("runs", 0, "")
	deadlineF := fs.Float64("deadline", 0, "")
	noEvidence := fs.Bool("noevidence", false, "")
	fs.Parse(args)
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 3
	}
	start := time.Now()
	W := *workers
	if W == 0 {
		W = runtime.NumCPU()
		if W > 8 {
			W = 8
		}
	}
	runs := p.QuickRuns
	dl := 300.0
	if *tier == "thorough" {
		runs = p.ThorRuns
		dl = 1800
	}
	if *runsOverride > 0 {
		runs = *runsOverride
	}
	if *deadlineF > 0 {
		dl = *deadlineF
	}
	knownPath = filepath.Join(*verif, "known-findings.txt")
	self, _ := os.Executable()
	var res []child
	var rmu sync.Mutex
	var wg sync.WaitGroup
	var mu sync.Mutex
	stopped := false
	procs := make([]*exec.Cmd, W)
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			step := 0
			if p.Batch > 0 {
				step = p.Batch * W
			}
			for from := w; from < runs; from += step {
				end, left := runs, dl-time.Since(start).Seconds()
				if step > 0 && from+step < runs {
					end = from + step
				}
				if left <= 0 {
					return
				}
				c := oneWorker(self, p, *seed, from, W, end, left, *tier, *work, w, func(cmd *exec.Cmd) bool {
					mu.Lock()
					defer mu.Unlock()
					if stopped {
						return false
					}
					if cmd.Start() != nil {
						return false
					}
					procs[w] = cmd
					return true
				}, func() bool {
					mu.Lock()
					defer mu.Unlock()
					return stopped
				})
				if c == nil {
					return
				}
				rmu.Lock()
				res = append(res, *c)
				rmu.Unlock()
				if (c.ok && c.out.Viol != nil) || c.died {
					mu.Lock()
					stopped = true
					for k, c := range procs {
						if k != w && c != nil && c.Process != nil {
							c.Process.Kill()
						}
					}
					mu.Unlock()
				}
				if !c.ok || step == 0 {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	// aggregate
	agg := workerOut{Counts: map[string]int64{}, Known: map[string]int{}, Msgs: map[string]string{}}
	states, distinct := map[uint64]bool{}, map[uint64]bool{}
	var viol *Replay
	var dead *child
	for w := range res {
		c := &res[w]
		if c.ok {
			o := c.out
			agg.Runs += o.Runs
			agg.Events += o.Events
			agg.Steps += o.Steps
			agg.SimNS += o.SimNS
			for k, v := range o.Counts {
				agg.Counts[k] += v
			}
			for k, v := range o.Known {
				agg.Known[k] += v
				agg.Msgs[k] = o.Msgs[k]
			}
			for _, k := range o.States {
				states[k] = true
			}
			for _, k := range o.Distinct {
				distinct[k] = true
			}
			if len(agg.Samples) < 3 {
				agg.Samples = append(agg.Samples, o.Samples...)
			}
			if o.Viol != nil && (viol == nil || o.Viol.Run < viol.Run) {
				viol = o.Viol
			}
		} else if c.died {
			dead = c
		} else if c.err != "" && !stopped {
			fmt.Fprintln(os.Stderr, "check error:", c.err)
			return 3
		}
	}
	nviol := 0
	code := 0
	if viol == nil && dead != nil {
		v, err := reproduceDeath(self, p, dead, *seed, *tier, W, *work)
		if v == nil && strings.Contains(dead.err, "WARNING: DATA RACE") {
			// The detector's report is a fact about the code, but what it
			// remembers of earlier accesses is not under a seam.
			v = &Replay{Property: p.ID, VerifSeed: *seed, Run: dead.lastI, RunSeed: runSeed(*seed, p.ID, dead.lastI), Tier: *tier, UseSeed: true, NotRepeatable: true}
			v.Class = deathClass(66, dead.err)
			v.Message = "(does not repeat from its seed: the race detector does not remember every access) " + tailLines(dead.err, 60)
			v.Trace = strings.Split(tailLines(dead.err, 60), "\n")
		}
		if v == nil {
			fmt.Fprintln(os.Stderr, "check error: a worker died and the death did not reproduce:", err, "\n", dead.err)
			return 3
		}
		viol = v
	} else if viol != nil {
		if !confirm(self, p, viol, W, *work) {
			// Seen on the real code, but it also depends on something no seam controls.
			viol.Message = "(does not repeat from its seed: the code depends on something outside the simulation) " + viol.Message
			viol.NotRepeatable = true
		}
	}
	if viol != nil {
		nviol = 1
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *seed, viol.Run))
		writeReplay(path, viol)
		for _, l := range headTail(viol.Trace, 60) {
			if len(l) > 400 {
				l = l[:400] + "..."
			}
			fmt.Println("  ", l)
		}
		fmt.Printf("class=%s run_seed=%d choices=%d (from %d)\n%s\n", viol.Class, viol.RunSeed, viol.Minimised, viol.Original, viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	} else {
		// Every listed finding is re-demonstrated or reported as listed.
		for _, k := range loadKnown(knownPath) {
			if k.Property == p.ID {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
			}
		}
	}
	if os.Getenv("VERIF_SURVEY") != "" {
		for k, v := range agg.Known {
			fmt.Printf("SURVEY %d %s\n   %s\n", v, k, agg.Msgs[k])
		}
	}
	wall := time.Since(start).Seconds()
	if !*noEvidence {
		writeEvidence(*verif, p, *tier, *seed, &agg, len(states), len(distinct), wall, nviol, W)
	}
	fmt.Printf("%s %s: %d runs, %d distinct, %d states, %.1f s, violations %d\n", p.ID, *tier, agg.Runs, len(distinct), len(states), wall, nviol)
	return code
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// runReplay runs one replay file in a fresh process; it returns the class it
// ended with ("" for none) and its output.
func runReplay(self, path string, timeout time.Duration) (string, string) {
	cmd := exec.Command(self, "replay", "-q", "-known", knownPath, path)
	cmd.Env = append(os.Environ(), gorace, "VERIF_WORK="+filepath.Dir(path))
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &limitWriter{b: &eb, n: 1 << 20}
	if err := cmd.Start(); err != nil {
		return "error", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return "error", "timeout"
	}
	out := ob.String()
	if i := strings.Index(out, "REPLAY-VIOLATION "); i >= 0 {
		rest := out[i+len("REPLAY-VIOLATION "):]
		return strings.SplitN(rest, "\n", 2)[0], out
	}
	if strings.Contains(out, "REPLAY-OK") {
		return "", out
	}
	return deathClass(cmd.ProcessState.ExitCode(), eb.String()), eb.String()
}

var raceFrame = regexp.MustCompile(`go-owcdrivers/([A-Za-z0-9]+)\.`)

func deathClass(code int, stderr string) string {
	if strings.Contains(stderr, "WARNING: DATA RACE") {
		pk := map[string]bool{}
		for _, m := range raceFrame.FindAllStringSubmatch(stderr, -1) {
			if m[1] != "verifsim" {
				pk[m[1]] = true
			}
		}
		var ks []string
		for k := range pk {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return "data-race|" + strings.Join(ks, "+")
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return "process-crash|" + classPart(l)
		}
	}
	return fmt.Sprintf("process-crash|exit_%s", strings.ReplaceAll(strconv.Itoa(code), "-", "m"))
}

// confirm replays a violation in a fresh process, minimises it, and replays
// the minimised file again. Where the run alone does not reproduce it (state
// left by earlier runs of the same process), the earlier runs become part of
// the file.
func confirm(self string, p *Property, v *Replay, W int, work string) bool {
	f := filepath.Join(work, "confirm.json")
	writeReplay(f, v)
	v.Original, v.Minimised = len(v.Tape), len(v.Tape)
	if c, _ := runReplay(self, f, 120*time.Second); c == v.Class {
		s := filepath.Join(work, "shrink.json")
		writeReplay(s, v)
		cmd := exec.Command(self, "shrink", "-known", knownPath, s)
		cmd.Env = append(os.Environ(), "VERIF_WORK="+work)
		if cmd.Run() == nil {
			m := readReplay(s)
			if c, _ := runReplay(self, s, 120*time.Second); c == v.Class {
				*v = *m
			}
		}
		return true
	} else if c != "" && c != "error" {
		// a fresh process breaks too, in another way: report what replays
		v.Class = c
		return confirmAgain(self, v, f)
	}
	first := v.Run % W
	if p.Batch > 0 {
		first += v.Run / W / p.Batch * p.Batch * W
	}
	for i := first; i < v.Run; i += W {
		v.Prefix = append(v.Prefix, i)
	}
	writeReplay(f, v)
	if c, _ := runReplay(self, f, 300*time.Second); c != v.Class {
		return false
	}
	for n := len(v.Prefix) / 2; n >= 1; n /= 2 {
		for {
			if len(v.Prefix) < n {
				break
			}
			t := *v
			t.Prefix = append([]int{}, v.Prefix[n:]...)
			writeReplay(f, &t)
			if c, _ := runReplay(self, f, 120*time.Second); c == v.Class {
				v.Prefix = t.Prefix
			} else {
				break
			}
		}
	}
	return true
}

func confirmAgain(self string, v *Replay, f string) bool {
	writeReplay(f, v)
	c, out := runReplay(self, f, 120*time.Second)
	if c == v.Class {
		v.Message = short(out)
		return true
	}
	return false
}

// reproduceDeath turns the death of a worker process (a data race report, a
// fatal error, memory exhaustion) into a replay file.
func reproduceDeath(self string, p *Property, d *child, seed uint64, tier string, W int, work string) (*Replay, string) {
	v := &Replay{Property: p.ID, VerifSeed: seed, Run: d.lastI, RunSeed: runSeed(seed, p.ID, d.lastI), Tier: tier, UseSeed: true}
	f := filepath.Join(work, "death.json")
	writeReplay(f, v)
	c, out := runReplay(self, f, 200*time.Second)
	if c == "" || c == "error" {
		for i := d.from; i < d.lastI; i += W {
			v.Prefix = append(v.Prefix, i)
		}
		writeReplay(f, v)
		c, out = runReplay(self, f, 300*time.Second)
		if c == "" || c == "error" {
			return nil, out
		}
	}
	v.Class = c
	v.Message = tailLines(out, 60)
	v.Trace = strings.Split(tailLines(out, 60), "\n")
	if len(v.Prefix) == 0 {
		if t := recordTape(self, p, v, work); t != nil {
			v.Tape, v.UseSeed = t, false
			v.Original = len(t)
			writeReplay(f, v)
			if c2, _ := runReplay(self, f, 200*time.Second); c2 != c {
				v.Tape, v.UseSeed = nil, true
			} else {
				best, _ := shrink(v.Tape, 60, func(c3 []uint64) (*Run, bool) {
					t := *v
					t.Tape = c3
					writeReplay(f, &t)
					cl, o := runReplay(self, f, 60*time.Second)
					if cl == c {
						v.Message = tailLines(o, 60)
						v.Trace = strings.Split(v.Message, "\n")
					}
					return &Run{T: &Tape{pos: len(c3)}}, cl == c
				})
				v.Tape = best
				v.Minimised = len(best)
			}
		}
	}
	return v, ""
}

func tailLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// recordTape re-executes a dying run with its choices written out as drawn.
func recordTape(self string, p *Property, v *Replay, work string) []uint64 {
	tf := filepath.Join(work, "tape.bin")
	f := filepath.Join(work, "death.json")
	writeReplay(f, v)
	cmd := exec.Command(self, "replay", "-q", "-known", knownPath, f)
	cmd.Env = append(os.Environ(), gorace, "VERIF_TAPE="+tf, "VERIF_WORK="+work)
	cmd.Run()
	b, err := ioutil.ReadFile(tf)
	if err != nil {
		return nil
	}
	var out []uint64
	for i := 0; i+8 <= len(b); i += 8 {
		out = append(out, binary.LittleEndian.Uint64(b[i:]))
	}
	return out
}

func writeEvidence(verif string, p *Property, tier string, seed uint64, a *workerOut, states, distinct int, wall float64, nviol int, W int) {
	lvl := "exploration"
	faults, probes := map[string]int64{}, map[string]int64{}
	for k, v := range a.Counts {
		if strings.HasPrefix(k, "fault:") {
			faults[k[6:]] = v
		} else {
			probes[k] = v
		}
	}
	cov := map[string]interface{}{
		"evaluations":                a.Runs,
		"distinct_nontrivial":        distinct,
		"rule":                       p.Rule,
		"samples":                    a.Samples,
		"simulated_runs_per_hour":    int64(float64(a.Runs) / wall * 3600),
		"seeds_per_hour":             int64(float64(a.Runs) / wall * 3600),
		"simulated_seconds":          a.SimNS / 1e9,
		"events":                     a.Events,
		"scheduling_points_executed": a.Steps,
		"faults_injected":            faults,
		"probes":                     probes,
		"distinct_states":            states,
		"distinct_states_measure":    p.Measure,
		"components_real":            p.Real,
		"components_stub":            p.Stub,
		"known_finding_hits":         a.Known,
		"worker_processes":           W,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0644)
}

// cmdSelftest proves replay determinism: every run is executed by different
// processes at different worker counts and the event-log hashes are compared.
func cmdSelftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	only := fs.String("prop", "", "")
	runs := fs.Int("runs", 200, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	self, _ := os.Executable()
	bad := 0
	for _, id := range propIDs() {
		if *only != "" && *only != id {
			continue
		}
		n := 0
		for _, seed := range []int{1, 2, 3} {
			var ref map[string]string
			for _, W := range []int{1, 3, 8} {
				got := map[string]string{}
				var mu sync.Mutex
				var wg sync.WaitGroup
				for w := 0; w < W; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						cmd := exec.Command(self, "worker", "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(W), "-runs", fmt.Sprint(*runs), "-hashes", "-known", *known)
						cmd.Env = append(os.Environ(), gorace)
						b, _ := cmd.Output()
						i := bytes.LastIndex(b, []byte("\nWORKER-RESULT "))
						if i < 0 {
							return
						}
						var o workerOut
						json.Unmarshal(bytes.TrimSpace(b[i+15:]), &o)
						mu.Lock()
						for _, h := range o.Hashes {
							p := strings.SplitN(h, ":", 2)
							got[p[0]] = p[1]
						}
						mu.Unlock()
					}(w)
				}
				wg.Wait()
				if ref == nil {
					ref = got
				}
				for k, v := range ref {
					n++
					if got[k] != v {
						bad++
						fmt.Printf("%s seed %d run %s: %s with 1 worker, %s with %d\n", id, seed, k, v, got[k], W)
					}
				}
			}
		}
		fmt.Printf("%s: %d log comparisons, %d mismatches so far\n", id, n, bad)
	}
	if bad > 0 {
		return 1
	}
	return 0
}
