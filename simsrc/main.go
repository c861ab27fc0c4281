package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"

	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// A scenario is one simulated world.
type scenario struct {
	name     string
	run      func(k *kit.Kit)
	maxSteps uint64
	preempts []uint64 // mean yield distance between preemptions, drawn per run
}

var scenarios = map[string]*scenario{}

func register(s *scenario) { scenarios[s.name] = s }

func main() {
	flags := flag.NewFlagSet(os.Args[0], flag.ExitOnError) // the program under test has its own
	specFile := flags.String("spec", "", "run specification (JSON file)")
	verbose := flags.Bool("v", false, "trace to stderr")
	flags.Parse(os.Args[1:])
	b, err := os.ReadFile(*specFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var spec kit.Spec
	if err := json.Unmarshal(b, &spec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := scenarios[spec.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", spec.Scenario)
		os.Exit(3)
	}
	k := kit.New(&spec)
	k.Log = *verbose
	r := k.Rand("sched")
	cfg := runtime.VerifConfig{Seed: spec.Seed, TickNs: 0, SchedNs: 500, StartNs: 1_700_000_000e9, MaxSteps: sc.maxSteps, Record: spec.Record}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	// Swarm: the scheduling policy and how often goroutines are preempted vary per seed.
	cfg.Policy = []int{0, 1, 1, 2, 2, 3, 4}[r.Intn(7)]
	pre := sc.preempts
	if pre == nil {
		pre = []uint64{0, 3, 20, 200, 2000}
	}
	cfg.Preempt = pre[r.Intn(len(pre))]
	if spec.Fifo {
		cfg.Policy = 0
		cfg.Override = spec.Overrides
	}
	res := k.Main(cfg, sc.run)
	kit.WriteResult(3, res)
	os.Exit(0)
}
