// vt builds the simulation of the repository's working tree and decides properties with it.
//
//	vt build                       build the simulation
//	vt check PROPERTY quick|thorough
//	vt replay FILE                 run a replay file; exit 1 if it reproduces exactly
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/tool/build"
)

// verif is the folder this tool was built in.
var verif = func() string {
	exe, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(exe))
}()

// repo is the tree to decide; another one than /repo is for developing the checks only.
var repo = "/repo"

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repo = r
	}
	args := os.Args[1:]
	if len(args) == 0 {
		args = []string{"build"}
	}
	switch {
	case args[0] == "build":
		r, err := build.Build(repo, verif)
		if err != nil {
			die(2, "%v", err)
		}
		fmt.Println(r.Bin, r.Small, r.Files, r.YieldPoints)
	case args[0] == "check" && len(args) >= 2:
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		}
		os.Exit(check(args[1], tier))
	case args[0] == "replay" && len(args) == 2:
		os.Exit(replay(args[1]))
	case args[0] == "plans":
		for _, p := range sortedKeys(plans) {
			fmt.Println(p)
		}
	default:
		die(2, "usage: vt build | check PROPERTY quick|thorough | replay FILE")
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// finding is a line of known-findings.txt: "finding: property=C00 sig=<sig> <text>".
type finding struct{ prop, sig, text string }

func knownFindings() ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var l []finding
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "sig=")
		if !ok {
			return nil, fmt.Errorf("known-findings.txt: no sig in %q", line)
		}
		sig, text, _ := strings.Cut(rest, " ")
		l = append(l, finding{prop, sig, text})
	}
	return l, nil
}

type job struct {
	spec  *Spec
	twice bool
}

type agg struct {
	runs, inconclusive, nontrivial, checks int
	hashes, nontrivHashes, states          map[uint64]bool
	kinds, cover, side, known, perScenario map[string]int
	incMsg                                 map[string]int
	virtual                                int64
	st                                     Stats
	rechecked, diverged                    int
	faultRuns, faults                      int
	samples                                []any
}

func (a *agg) add(s *Spec, r *Result) {
	a.runs++
	a.perScenario[s.Scenario]++
	if r.Verdict == "inconclusive" {
		a.inconclusive++
		m := r.Msg
		if len(m) > 300 {
			m = m[:300]
		}
		a.incMsg[m]++
		return
	}
	a.hashes[r.Stats.Hash] = true
	if r.Nontriv {
		a.nontrivial++
		a.nontrivHashes[r.Stats.Hash] = true
	}
	for _, h := range r.States {
		a.states[h] = true
	}
	for k, n := range r.Kinds {
		a.kinds[k] += n
		a.faults += n
	}
	if len(r.Kinds) > 0 {
		a.faultRuns++
	}
	for k, n := range r.Cover {
		a.cover[k] += n
	}
	for _, k := range r.Side {
		a.side[k]++
	}
	for _, k := range r.Known {
		a.known[k]++
	}
	a.checks += r.Checks
	a.virtual += r.VirtualNs
	a.st.Yields += r.Stats.Yields
	a.st.Picks += r.Stats.Picks
	a.st.Choices += r.Stats.Choices
	a.st.Preempts += r.Stats.Preempts
	a.st.Selects += r.Stats.Selects
	if r.Nontriv && len(a.samples) < 3 && len(r.Ops) > 0 {
		a.samples = append(a.samples, map[string]any{"scenario": s.Scenario, "seed": s.Seed, "operations": clip(r.Ops, 12), "faults": r.Faults, "verdict": r.Verdict})
	}
}

func clip(l []string, n int) []string {
	var o []string
	for i, s := range l {
		if i == n {
			o = append(o, fmt.Sprintf("... %d more", len(l)-n))
			break
		}
		if len(s) > 160 {
			s = s[:160] + "..."
		}
		o = append(o, s)
	}
	return o
}

func check(prop, tier string) int {
	start := time.Now()
	p := plans[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no plan for", prop)
		return 2
	}
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			return 2
		}
		base = n
	}
	b, err := build.Build(repo, verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	built := time.Since(start)
	findings, err := knownFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var known []string
	for _, f := range findings {
		if f.prop == prop {
			known = append(known, f.prop+" "+f.sig)
		}
	}
	perRun, wall := 40*time.Second, 240*time.Second
	if tier == "thorough" {
		perRun, wall = 120*time.Second, 3*time.Hour
	}
	if s := os.Getenv("VERIF_WALL"); s != "" { // seconds; for development
		if n, err := strconv.Atoi(s); err == nil {
			wall = time.Duration(n) * time.Second
		}
	}
	r, err := newRunner(b, perRun)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer r.close()
	workers := runtime.NumCPU()
	deadline := start.Add(wall)

	jobs := make(chan job)
	stop := make(chan struct{})
	var once sync.Once
	go func() {
		defer close(jobs)
		// interleave the parts, so that a run cut short covers all of them
		n := make([]int, len(p.parts))
		total, sent := 0, 0
		for i, pt := range p.parts {
			n[i] = pt.quick
			if tier == "thorough" {
				n[i] = pt.thorough
			}
			total += n[i]
		}
		done := make([]int, len(p.parts))
		for sent < total {
			// the part that lags behind most
			bi := -1
			for i := range n {
				if done[i] < n[i] && (bi < 0 || float64(done[i])/float64(n[i]) < float64(done[bi])/float64(n[bi])) {
					bi = i
				}
			}
			pt := p.parts[bi]
			seed := mix(mix(base) ^ mix(uint64(done[bi])) ^ hashStr(prop+"/"+pt.scenario))
			j := job{spec: &Spec{Scenario: pt.scenario, Prop: prop, Seed: seed >> 1, Tier: tier, Known: known, Params: pt.params, Small: seed&1 == 1},
				twice: done[bi]%40 == 7}
			done[bi]++
			sent++
			if time.Now().After(deadline) {
				return
			}
			select {
			case jobs <- j:
			case <-stop:
				return
			}
		}
	}()
	a := &agg{hashes: map[uint64]bool{}, nontrivHashes: map[uint64]bool{}, states: map[uint64]bool{}, kinds: map[string]int{}, cover: map[string]int{},
		side: map[string]int{}, known: map[string]int{}, perScenario: map[string]int{}, incMsg: map[string]int{}}
	var mu sync.Mutex
	var bad *Spec
	var badRes *Result
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				res := r.run(j.spec)
				var again *Result
				if j.twice || res.Verdict == "violation" {
					again = r.run(j.spec)
				}
				mu.Lock()
				if again != nil && res.Verdict != "inconclusive" && again.Verdict != "inconclusive" {
					a.rechecked++
					if again.Stats.Hash != res.Stats.Hash || again.Verdict != res.Verdict || again.Sig != res.Sig {
						a.diverged++
						fmt.Printf("note: seed %d of scenario %s did not repeat exactly (%s/%s %x, %s/%s %x)\n", j.spec.Seed, j.spec.Scenario,
							res.Verdict, res.Sig, res.Stats.Hash, again.Verdict, again.Sig, again.Stats.Hash)
						if res.Verdict == "violation" && (again.Verdict != "violation" || again.Sig != res.Sig) {
							res = &Result{Verdict: "inconclusive", Prop: prop, Msg: "violation did not repeat: " + res.Sig}
						}
					}
				}
				a.add(j.spec, res)
				if res.Verdict == "violation" && bad == nil {
					bad, badRes = j.spec, res
					once.Do(func() { close(stop) })
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searched := time.Since(start) - built

	for _, f := range findings {
		if f.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (sig=%s, met in %d runs)\n", prop, f.text, f.sig, a.known[prop+" "+f.sig])
		}
	}
	violations := 0
	code := 0
	var replayPath string
	if bad != nil {
		violations = 1
		code = 1
		fmt.Printf("violation of %s in scenario %s, seed %d: [%s] %s\n", prop, bad.Scenario, bad.Seed, badRes.Sig, firstLines(badRes.Msg, 12))
		ms, mr := bad, badRes
		if !strings.HasPrefix(badRes.Sig, "fatal-error") {
			ms, mr = minimise(r, workers, bad, badRes, time.Now().Add(60*time.Second))
		}
		replayPath, err = writeReplay(filepath.Join(verif, ".cache", "replays"), ms, mr, b.SourceHash)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		x := r.run(loadReplay(replayPath).Spec)
		fmt.Printf("minimised: %d faults, %d operations, %s; replay reproduces exactly: %v\n", len(ms.Faults), len(mr.Ops), schedText(ms),
			x.Verdict == "violation" && x.Sig == mr.Sig && x.Stats.Hash == mr.Stats.Hash)
		for _, o := range mr.Ops {
			if len(o) > 200 {
				o = o[:200] + "..."
			}
			fmt.Println("  op", o)
		}
		for _, f := range ms.Faults {
			fmt.Printf("  fault %s #%d %s %d\n", f.Site, f.N, f.Kind, f.Arg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
	}
	if err := writeEvidence(prop, tier, int64(base), p, a, b, start, searched, violations); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial and distinct, %d inconclusive), %d oracle checks, %d faults, %.0f s virtual, %.1f s wall\n",
		prop, tier, a.runs, len(a.nontrivHashes), a.inconclusive, a.checks, a.faults, float64(a.virtual)/1e9, time.Since(start).Seconds())
	for m, n := range a.incMsg {
		fmt.Printf("  inconclusive x%d: %s\n", n, firstLines(m, 3))
	}
	if code == 0 && len(a.nontrivHashes) == 0 {
		fmt.Println("nothing was decided")
		return 2
	}
	return code
}

func schedText(s *Spec) string {
	if s.Fifo {
		return fmt.Sprintf("%d scheduling decisions", len(s.Overrides))
	}
	return "seeded schedule"
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func loadReplay(path string) *replayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		die(2, "%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		die(2, "%v", err)
	}
	if f.Spec == nil {
		die(2, "%s: not a replay file", path)
	}
	return &f
}

func replay(path string) int {
	f := loadReplay(path)
	b, err := build.Build(repo, verif)
	if err != nil {
		die(2, "%v", err)
	}
	r, err := newRunner(b, 10*time.Minute)
	if err != nil {
		die(2, "%v", err)
	}
	defer r.close()
	x := r.run(f.Spec)
	for _, t := range x.Trace {
		fmt.Println(t)
	}
	fmt.Printf("verdict %s sig %s\n%s\n", x.Verdict, x.Sig, x.Msg)
	e := f.Spec.Expect
	switch {
	case x.Verdict == "violation" && e != nil && x.Sig == e.Sig && x.Stats.Hash == e.Hash:
		fmt.Println("reproduced exactly")
		return 1
	case x.Verdict == "violation" && e != nil && x.Sig == e.Sig:
		fmt.Println("reproduced (the tree or the machinery changed since: other trace)")
		return 1
	case x.Verdict == "ok":
		fmt.Println("not reproduced")
		return 0
	}
	return 2
}

func writeEvidence(prop, tier string, seed int64, p *plan, a *agg, b *build.Result, start time.Time, searched time.Duration, violations int) error {
	commit := ""
	if out, err := exec.Command("git", "-C", repo, "rev-parse", "--short", "HEAD").Output(); err == nil {
		commit = strings.TrimSpace(string(out))
	}
	perHour := 0.0
	if searched > 0 {
		perHour = float64(a.runs) / searched.Hours()
	}
	if len(a.samples) == 0 {
		a.samples = append(a.samples, "none")
	}
	cov := map[string]any{
		"evaluations":                          a.runs - a.inconclusive,
		"distinct_nontrivial":                  len(a.nontrivHashes),
		"rule":                                 p.rule + "; distinct: different hash over every scheduling decision, fault and observed event of the run",
		"samples":                              a.samples,
		"runs":                                 a.runs,
		"inconclusive_runs":                    a.inconclusive,
		"runs_by_scenario":                     a.perScenario,
		"runs_per_hour":                        int(perHour),
		"seeds_per_hour":                       int(perHour),
		"oracle_checks":                        a.checks,
		"simulated_seconds":                    float64(a.virtual) / 1e9,
		"faults_injected":                      a.kinds,
		"runs_with_faults":                     a.faultRuns,
		"distinct_interleavings":               len(a.hashes),
		"distinct_interleavings_by":            "hash over all scheduling, timer, network, storage and fault decisions of a run",
		"distinct_states":                      len(a.states),
		"distinct_states_by":                   "states a scenario records (published roots, stored content, results); at most 256 per run",
		"events":                               a.cover,
		"scheduling_choices":                   a.st.Choices,
		"preemptions":                          a.st.Preempts,
		"yield_points_passed":                  a.st.Yields,
		"runs_repeated_to_confirm_determinism": a.rechecked,
		"runs_that_did_not_repeat":             a.diverged,
		"other_properties_seen":                a.side,
		"known_findings_met":                   a.known,
		"components_real":                      p.real,
		"components_stubbed":                   p.stub,
		"source_files_instrumented":            b.Files,
		"yield_points_inserted":                b.YieldPoints,
		"source_hash":                          b.SourceHash,
		"commit":                               commit,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"goroutines interleave at statement granularity: no data race finer than a statement is explored",
			"the in-process database behaves like MySQL 8 for the statements the code issues",
			"SHA-256, RSA and Ed25519 of the standard library are trusted",
		},
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	bs, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(bs, '\n'), 0o644)
}
