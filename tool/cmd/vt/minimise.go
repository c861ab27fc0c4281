package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// minimise reduces a failing run to few faults, few operations and few scheduling decisions that differ
// from the plain round-robin schedule, always keeping the same kind of violation.
func minimise(r *runner, workers int, spec *Spec, res *Result, deadline time.Time) (*Spec, *Result) {
	best := *spec
	best.Replay = true
	best.Faults = append([]Fault{}, res.Faults...)
	bestRes := res
	try := func(s *Spec) *Result {
		x := r.run(s)
		if x.Verdict == "violation" && x.Sig == res.Sig && x.Prop == res.Prop {
			return x
		}
		return nil
	}
	// many runs the candidates in parallel and returns the first (in order) that still fails.
	many := func(cands []*Spec) (int, *Result) {
		for i := 0; i < len(cands); i += workers {
			n := min(workers, len(cands)-i)
			out := make([]*Result, n)
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() { defer wg.Done(); out[j] = try(cands[i+j]) }()
			}
			wg.Wait()
			for j, o := range out {
				if o != nil {
					return i + j, o
				}
			}
			if time.Now().After(deadline) {
				break
			}
		}
		return -1, nil
	}
	if x := try(&best); x != nil {
		bestRes = x
	} else {
		// The recorded faults do not suffice: keep the original specification.
		return spec, res
	}
	// The plain schedule, or else the recorded one.
	fifo := best
	fifo.Fifo, fifo.Overrides = true, nil
	if x := try(&fifo); x != nil {
		best, bestRes = fifo, x
	}
	shrink := func(n int, build func(keep []bool) *Spec) {
		keep := make([]bool, n)
		for i := range keep {
			keep[i] = true
		}
		left := n
		for chunk := n; chunk >= 1; {
			if time.Now().After(deadline) {
				return
			}
			var cands []*Spec
			var masks [][]bool
			idx := []int{}
			for i, k := range keep {
				if k {
					idx = append(idx, i)
				}
			}
			if chunk > len(idx) {
				chunk = max(len(idx), 1)
			}
			for i := 0; i < len(idx); i += chunk {
				m := append([]bool{}, keep...)
				for _, p := range idx[i:min(i+chunk, len(idx))] {
					m[p] = false
				}
				masks = append(masks, m)
				cands = append(cands, build(m))
			}
			i, x := many(cands)
			if i >= 0 {
				best, bestRes = *cands[i], x
				keep = masks[i]
				l := 0
				for _, k := range keep {
					if k {
						l++
					}
				}
				left = l
				if left == 0 {
					return
				}
				continue
			}
			if chunk == 1 {
				return
			}
			chunk = (chunk + 1) / 2
			if chunk < 1 {
				chunk = 1
			}
		}
	}
	for round := 0; round < 2; round++ {
		faults := best.Faults
		shrink(len(faults), func(keep []bool) *Spec {
			s := best
			s.Faults = nil
			for i, k := range keep {
				if k {
					s.Faults = append(s.Faults, faults[i])
				}
			}
			return &s
		})
		nops := opIndexes(bestRes.Ops)
		skip := best.SkipOps
		shrink(len(nops), func(keep []bool) *Spec {
			s := best
			s.SkipOps = append([]int{}, skip...)
			for i, k := range keep {
				if !k {
					s.SkipOps = append(s.SkipOps, nops[i])
				}
			}
			return &s
		})
	}
	if !best.Fifo && time.Now().Before(deadline) {
		f := best
		f.Fifo = true
		if x := try(&f); x != nil {
			best, bestRes = f, x
		} else {
			rec := best
			rec.Record = true
			if x := try(&rec); x != nil && len(x.Overrides) > 0 {
				all := x.Overrides
				f := best
				f.Fifo, f.Overrides = true, all
				if y := try(&f); y != nil {
					best, bestRes = f, y
					shrink(len(all), func(keep []bool) *Spec {
						s := best
						s.Overrides = nil
						for i, k := range keep {
							if k {
								s.Overrides = append(s.Overrides, all[i])
							}
						}
						return &s
					})
				}
			}
		}
	}
	return &best, bestRes
}

func opIndexes(ops []string) []int {
	var l []int
	for _, o := range ops {
		n, i := 0, 0
		for i < len(o) && o[i] >= '0' && o[i] <= '9' {
			n = n*10 + int(o[i]-'0')
			i++
		}
		if i > 0 {
			l = append(l, n)
		}
	}
	return l
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Spec    *Spec    `json:"spec"`
	Message string   `json:"message"`
	Seed    uint64   `json:"original_seed"`
	Source  string   `json:"source_hash"`
	Ops     []string `json:"operations"`
	Trace   []string `json:"trace"`
}

func writeReplay(dir string, spec *Spec, res *Result, source string) (string, error) {
	s := *spec
	s.Record = false
	s.Expect = &Expect{Sig: res.Sig, Msg: res.Msg, Hash: res.Stats.Hash}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	b, err := json.MarshalIndent(&replayFile{Spec: &s, Message: res.Msg, Seed: spec.Seed, Source: source, Ops: res.Ops, Trace: res.Trace}, "", " ")
	if err != nil {
		return "", err
	}
	p := filepath.Join(dir, s.Prop+".json")
	return p, os.WriteFile(p, b, 0o644)
}
