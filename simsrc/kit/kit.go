// Package kit is the simulator's core: one seeded run, its faults, its nodes and its verdict.
package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Fault is one injected fault: the n-th opportunity at a site.
type Fault struct {
	Site string `json:"site"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
}

// Spec says what to run. A replay file is a Spec with Replay set.
type Spec struct {
	Scenario  string                  `json:"scenario"`
	Prop      string                  `json:"property"`
	Seed      uint64                  `json:"seed"`
	Tier      string                  `json:"tier,omitempty"`
	Replay    bool                    `json:"replay"`
	Faults    []Fault                 `json:"faults"`
	SkipOps   []int                   `json:"skip_ops,omitempty"`
	Fifo      bool                    `json:"fifo,omitempty"`      // default schedule + overrides
	Overrides []runtime.VerifOverride `json:"overrides,omitempty"` // scheduling decisions that differ from the default
	Record    bool                    `json:"record,omitempty"`
	Known     []string                `json:"known,omitempty"` // signatures that are known findings
	Verbose   bool                    `json:"-"`
	Expect    *Expect                 `json:"expect,omitempty"`
	Params    map[string]int64        `json:"params,omitempty"`
}

// Expect is what replaying the file must reproduce.
type Expect struct {
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
	Hash uint64 `json:"hash"`
}

// Result is the outcome of one run.
type Result struct {
	Verdict   string                  `json:"verdict"` // ok, violation, inconclusive
	Prop      string                  `json:"property"`
	Sig       string                  `json:"sig,omitempty"`
	Msg       string                  `json:"msg,omitempty"`
	Known     []string                `json:"known,omitempty"` // known findings hit on the way
	Side      []string                `json:"side,omitempty"`  // violations of other properties
	Faults    []Fault                 `json:"faults,omitempty"`
	Kinds     map[string]int          `json:"kinds,omitempty"`
	Ops       []string                `json:"ops,omitempty"`
	Cover     map[string]int          `json:"cover,omitempty"`
	States    []uint64                `json:"states,omitempty"`
	Trace     []string                `json:"trace,omitempty"`
	Stats     runtime.VerifStatsT     `json:"stats"`
	VirtualNs int64                   `json:"virtual_ns"`
	Checks    int                     `json:"checks"` // oracle evaluations
	Overrides []runtime.VerifOverride `json:"overrides,omitempty"`
	Nontriv   bool                    `json:"nontrivial"`
}

// Rng is a small seeded generator.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Hash64 hashes a string.
func Hash64(s string) uint64 { return mix(hashStr(s)) }

// NewRng returns a generator for the given seed.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Chance is true with probability num/den.
func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

// Float in [0,1).
func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Perm returns a permutation of [0,n).
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Pick returns one of the strings.
func (r *Rng) Pick(s ...string) string { return s[r.Intn(len(s))] }

// Pick2 chooses one of the numbers.
func (r *Rng) Pick2(n ...int) int { return n[r.Intn(len(n))] }

// KindProb is a fault kind a site may draw, with its relative weight and argument range.
type KindProb struct {
	Kind     string
	Weight   int
	ArgMin   int64
	ArgMax   int64
	LogScale bool
}

// Kit is the state of one run.
type Kit struct {
	Spec   *Spec
	Res    *Result
	Seed   uint64
	sites  map[string]int
	replay map[string]map[int]Fault
	rates  map[string]float64
	later  map[string]int
	skip   map[int]bool
	known  map[string]bool
	quiet  bool
	budget int
	failed bool
	start  int64

	nextNode uint32
	onKill   []func(node uint32)
	mainG    uint64
	seen     int // panics already seen
	Log      bool
	stateSet map[uint64]bool

	// OnAnyPanic, when set, is consulted about panics of nodes.
	IgnorePanic func(p runtime.VerifPanic) bool
}

type stop struct{}

// K is the run in progress.
var K *Kit

// New builds the kit for a spec.
func New(spec *Spec) *Kit {
	k := &Kit{Spec: spec, Seed: spec.Seed, sites: map[string]int{}, rates: map[string]float64{}, later: map[string]int{}, skip: map[int]bool{},
		known: map[string]bool{}, budget: 1 << 30, nextNode: 1, stateSet: map[uint64]bool{}}
	k.Res = &Result{Prop: spec.Prop, Kinds: map[string]int{}, Cover: map[string]int{}}
	for _, s := range spec.SkipOps {
		k.skip[s] = true
	}
	for _, s := range spec.Known {
		k.known[s] = true
	}
	if spec.Replay {
		k.replay = map[string]map[int]Fault{}
		for _, f := range spec.Faults {
			if k.replay[f.Site] == nil {
				k.replay[f.Site] = map[int]Fault{}
			}
			k.replay[f.Site][f.N] = f
		}
	}
	K = k
	return k
}

// Rand returns an independent generator named name.
func (k *Kit) Rand(name string) *Rng { return &Rng{mix(k.Seed*0x9e3779b97f4a7c15 ^ hashStr(name))} }

// Param returns a run parameter that can be pinned by the spec.
func (k *Kit) Param(name string, v int64) int64 {
	if k.Spec.Params != nil {
		if x, ok := k.Spec.Params[name]; ok {
			return x
		}
	}
	return v
}

// Thorough tells whether this is a deep run.
func (k *Kit) Thorough() bool { return k.Spec.Tier == "thorough" }

// SetRate sets the fault probability of a site.
func (k *Kit) SetRate(site string, p float64) { k.rates[site] = p }

// ClearRates switches all faults off whose rates are not set again.
func (k *Kit) ClearRates() { clear(k.rates) }

// SetLater lets the next n opportunities at the site pass without a fault.
func (k *Kit) SetLater(site string, n int) { k.later[site] = n }

// SetBudget limits the number of faults still to be injected.
func (k *Kit) SetBudget(n int) { k.budget = n }

// Quiet stops (or resumes) fault injection.
func (k *Kit) Quiet(q bool) { k.quiet = q }

// IsQuiet tells whether faults are currently off.
func (k *Kit) IsQuiet() bool { return k.quiet }

// Draw decides whether the next opportunity at the site is a fault.
func (k *Kit) Draw(site string, kinds ...KindProb) *Fault {
	n := k.sites[site]
	k.sites[site] = n + 1
	if k.quiet {
		return nil
	}
	if k.replay != nil {
		if f, ok := k.replay[site][n]; ok {
			f := f
			k.inject(&f)
			return &f
		}
		return nil
	}
	p := k.rates[site]
	if p == 0 || k.budget <= 0 || len(kinds) == 0 {
		return nil
	}
	if k.later[site] > 0 {
		k.later[site]--
		return nil
	}
	r := &Rng{mix(k.Seed ^ hashStr(site)*31 ^ uint64(n)*0x9e3779b97f4a7c15)}
	if r.Float() >= p {
		return nil
	}
	tot := 0
	for _, kp := range kinds {
		tot += kp.Weight
	}
	x := r.Intn(tot)
	for _, kp := range kinds {
		if x -= kp.Weight; x < 0 {
			f := &Fault{Site: site, N: n, Kind: kp.Kind}
			if kp.ArgMax > kp.ArgMin {
				if kp.LogScale {
					lo, hi := kp.ArgMin, kp.ArgMax
					for hi > lo+1 && r.Chance(1, 2) {
						hi = lo + (hi-lo)/2
					}
					f.Arg = lo + int64(r.U64()%uint64(hi-lo+1))
				} else {
					f.Arg = kp.ArgMin + int64(r.U64()%uint64(kp.ArgMax-kp.ArgMin+1))
				}
			} else {
				f.Arg = kp.ArgMin
			}
			k.budget--
			k.inject(f)
			return f
		}
	}
	return nil
}

func (k *Kit) inject(f *Fault) {
	k.Res.Faults = append(k.Res.Faults, *f)
	k.Res.Kinds[f.Site+"/"+f.Kind]++
	k.Tracef("FAULT %s #%d %s %d", f.Site, f.N, f.Kind, f.Arg)
}

// NFaults returns how many faults were injected so far.
func (k *Kit) NFaults() int { return len(k.Res.Faults) }

// Op registers operation i of the history; false means the replay leaves it out.
func (k *Kit) Op(i int, format string, a ...any) bool {
	s := fmt.Sprintf(format, a...)
	if k.skip[i] {
		return false
	}
	k.Res.Ops = append(k.Res.Ops, fmt.Sprintf("%d: %s", i, s))
	k.Tracef("OP %d %s", i, s)
	return true
}

// Tracef records a line of the run's trace.
func (k *Kit) Tracef(format string, a ...any) {
	s := fmt.Sprintf("[%s n%d] ", time.Duration(runtime.VerifMono()-k.start), runtime.VerifNode()) + fmt.Sprintf(format, a...)
	if k.Log {
		syscall.Write(2, []byte(s+"\n"))
	}
	k.Res.Trace = append(k.Res.Trace, s)
	if len(k.Res.Trace) > 4000 {
		k.Res.Trace = append(k.Res.Trace[:0], k.Res.Trace[2000:]...)
	}
	runtime.VerifMix(hashStr(s))
}

// Cover counts that something interesting happened.
func (k *Kit) Cover(name string) { k.Res.Cover[name]++ }

// State records a distinct state of the system under test.
func (k *Kit) State(h uint64) {
	if !k.stateSet[h] {
		k.stateSet[h] = true
		if len(k.Res.States) < 256 {
			k.Res.States = append(k.Res.States, h)
		}
	}
}

// Check counts an oracle evaluation.
func (k *Kit) Check() { k.Res.Checks++ }

// Targets tells whether the run looks at the property.
func (k *Kit) Targets(prop string) bool { return k.Spec.Prop == prop }

// Fail reports that prop ("" or "any": the property this run is about) is violated.
// sig identifies the failing condition independent of the seed.
func (k *Kit) Fail(prop, sig, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if prop == "" || prop == "any" {
		prop = k.Spec.Prop
	}
	k.Tracef("FAIL %s %s: %s", prop, sig, msg)
	if k.known[prop+" "+sig] {
		if prop == k.Spec.Prop {
			k.Res.Known = appendNew(k.Res.Known, sig)
		}
		return
	}
	if prop != k.Spec.Prop {
		k.Res.Side = appendNew(k.Res.Side, prop+" "+sig)
		return
	}
	if k.failed {
		return
	}
	k.failed = true
	k.Res.Verdict, k.Res.Sig, k.Res.Msg = "violation", sig, msg
	k.unwind()
}

// Inconclusive ends the run without a verdict.
func (k *Kit) Inconclusive(format string, a ...any) {
	if !k.failed {
		k.failed = true
		k.Res.Verdict, k.Res.Msg = "inconclusive", fmt.Sprintf(format, a...)
		k.Tracef("INCONCLUSIVE %s", k.Res.Msg)
	}
	k.unwind()
}

// Stop ends the run here (verdict ok unless something failed).
func (k *Kit) Stop() { panic(stop{}) }

func (k *Kit) unwind() {
	if runtime.VerifGoid() == k.mainG {
		panic(stop{})
	}
	runtime.VerifWake()
	if runtime.VerifNode() == 0 {
		select {}
	}
}

func appendNew(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

// ---- nodes

// NewNode allocates a node (one process incarnation).
func (k *Kit) NewNode() uint32 {
	n := k.nextNode
	k.nextNode++
	return n
}

// OnKill registers what the environment does when a node dies.
func (k *Kit) OnKill(f func(node uint32)) { k.onKill = append(k.onKill, f) }

// Kill crashes a node: none of its goroutines runs again.
func (k *Kit) Kill(n uint32) {
	if n == 0 || runtime.VerifDead(n) {
		return
	}
	k.Tracef("KILL node %d", n)
	old := runtime.VerifSetNode(0)
	runtime.VerifKill(n)
	k.afterKill(n)
	runtime.VerifWake()
	runtime.VerifSetNode(old)
	if old == n {
		runtime.VerifKill(n) // does not return
	}
}

func (k *Kit) afterKill(n uint32) {
	for _, f := range k.onKill {
		f(n)
	}
}

// Task is a piece of work running on a node.
type Task struct {
	Node  uint32
	Name  string
	Done  bool
	Start int64
	End   int64
}

// Go starts fn on node n.
func (k *Kit) Go(n uint32, name string, fn func()) *Task {
	t := &Task{Node: n, Name: name, Start: runtime.VerifMono()}
	old := runtime.VerifSetNode(n)
	go func() {
		fn()
		t.Done = true
		t.End = runtime.VerifMono()
		runtime.VerifSetNode(0)
		runtime.VerifWake()
	}()
	runtime.VerifSetNode(old)
	return t
}

// Outcome of waiting for tasks.
type Outcome int

const (
	Done Outcome = iota
	Timeout
	Killed   // the node of a task was crashed
	Panicked // a node died of a panic
	Hung     // the step budget ran out
	Stuck    // nothing can ever run again
)

func (o Outcome) String() string {
	return []string{"done", "timeout", "killed", "panicked", "step budget exhausted", "stuck"}[o]
}

// LastPanic is the most recent panic of a node.
var LastPanic runtime.VerifPanic

// PanicText describes a panic with its innermost frames of the program under test.
func PanicText(p runtime.VerifPanic) (msg, where string) {
	fr := runtime.CallersFrames(p.PCs)
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "netsec-ethz/fpki/") && !strings.Contains(f.Function, "/verifsim") && !strings.Contains(f.Function, "/verifrt") {
			where = strings.TrimPrefix(f.Function, "github.com/netsec-ethz/fpki/")
			break
		}
		if !more {
			break
		}
	}
	return p.Msg, where
}

// PanicStack lists the frames of a panic.
func PanicStack(p runtime.VerifPanic) string {
	var b strings.Builder
	fr := runtime.CallersFrames(p.PCs)
	for {
		f, more := fr.Next()
		fmt.Fprintf(&b, "%s:%d ", f.Function, f.Line)
		if !more {
			return b.String()
		}
	}
}

// Wait runs the system until all tasks are done or something else ends the wait.
func (k *Kit) Wait(timeout time.Duration, tasks ...*Task) Outcome {
	return k.WaitUntil(timeout, func() bool {
		for _, t := range tasks {
			if !t.Done && !runtime.VerifDead(t.Node) {
				return false
			}
		}
		return true
	}, tasks...)
}

// Dump prints all goroutines when the run is being watched.
func (k *Kit) Dump() {
	if k.Log {
		runtime.VerifStop()
		buf := make([]byte, 1<<20)
		os.Stderr.Write(buf[:runtime.Stack(buf, true)])
		os.Exit(7)
	}
}

// WaitUntil runs the system until cond holds.
func (k *Kit) WaitUntil(timeout time.Duration, cond func() bool, tasks ...*Task) Outcome {
	fired := false
	tm := time.AfterFunc(timeout, func() { fired = true; runtime.VerifWake() })
	defer tm.Stop()
	for {
		if k.failed {
			panic(stop{})
		}
		if ps := runtime.VerifPanics(); len(ps) > k.seen {
			for k.seen < len(ps) {
				LastPanic = ps[k.seen]
				k.seen++
				k.Tracef("PANIC node %d: %s | %s", LastPanic.Node, LastPanic.Msg, PanicStack(LastPanic))
				k.afterKill(LastPanic.Node)
			}
			return Panicked
		}
		if runtime.VerifStats().Hung {
			k.Dump()
			return Hung
		}
		if cond() {
			for _, t := range tasks {
				if !t.Done {
					return Killed
				}
			}
			return Done
		}
		if fired {
			return Timeout
		}
		switch runtime.VerifIdleWait() {
		case 1:
			if cond() {
				continue
			}
			return Stuck
		case 2:
			k.Dump()
			return Hung
		case 3:
			k.Tracef("KILL fired")
			for n := uint32(1); n < k.nextNode; n++ {
				if runtime.VerifDead(n) {
					k.afterKill(n)
				}
			}
		}
	}
}

// Must runs fn on node n and treats anything but normal completion as a violation of the target
// property.
func (k *Kit) Must(n uint32, what string, timeout time.Duration, fn func()) {
	t := k.Go(n, what, fn)
	k.MustDone(k.Wait(timeout, t), what, timeout)
}

// MustDone fails the run unless the outcome is Done.
func (k *Kit) MustDone(o Outcome, what string, timeout time.Duration) {
	switch o {
	case Done:
	case Panicked:
		m, w := PanicText(LastPanic)
		k.Fail("", "panic:"+w, "%s: the process panics in %s: %s", what, w, m)
		k.Stop()
	case Hung:
		k.Fail("", "hang:"+what, "%s: still running after %d steps", what, runtime.VerifStats().Yields)
		k.Stop()
	default:
		k.Fail("", "hang:"+what, "%s: not finished within %s of virtual time (%s)", what, timeout, o)
		k.Stop()
	}
}

// Sleep lets virtual time pass for d while the system runs. The outcome is Timeout normally.
func (k *Kit) Sleep(d time.Duration) Outcome { return k.WaitUntil(d, func() bool { return false }) }

// Main runs the scenario and returns its result.
func (k *Kit) Main(sched runtime.VerifConfig, scenario func(k *Kit)) (res *Result) {
	k.mainG = runtime.VerifGoid()
	res = k.Res
	k.start = sched.StartNs
	runtime.VerifStart(&sched)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					return
				}
				res.Verdict = "inconclusive"
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				res.Msg = fmt.Sprintf("harness panic: %v\n%s", e, buf)
			}
		}()
		scenario(k)
	}()
	res.VirtualNs = runtime.VerifMono() - k.start
	res.Stats = runtime.VerifStats()
	runtime.VerifStop()
	if res.Verdict == "" {
		res.Verdict = "ok"
	}
	if k.Spec.Record {
		res.Overrides = runtime.VerifRecorded()
	}
	return res
}

// WriteResult writes the result to the file descriptor.
func WriteResult(fd int, res *Result) {
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err != nil {
			os.Exit(3)
		}
		b = b[n:]
	}
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return l
}
