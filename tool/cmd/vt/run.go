package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/tool/build"
)

// These mirror the types of the simulation binary (simsrc/kit).

type Fault struct {
	Site string `json:"site"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
}

type Override struct {
	Kind   uint32
	Choice uint32
	At     uint64
}

type Expect struct {
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
	Hash uint64 `json:"hash"`
}

type Spec struct {
	Scenario  string           `json:"scenario"`
	Prop      string           `json:"property"`
	Seed      uint64           `json:"seed"`
	Tier      string           `json:"tier,omitempty"`
	Replay    bool             `json:"replay"`
	Faults    []Fault          `json:"faults"`
	SkipOps   []int            `json:"skip_ops,omitempty"`
	Fifo      bool             `json:"fifo,omitempty"`
	Overrides []Override       `json:"overrides,omitempty"`
	Record    bool             `json:"record,omitempty"`
	Known     []string         `json:"known,omitempty"`
	Expect    *Expect          `json:"expect,omitempty"`
	Params    map[string]int64 `json:"params,omitempty"`
	Small     bool             `json:"small,omitempty"` // use the variant with small batch and chunk sizes
}

type Stats struct {
	Yields, Picks, Choices, Selects, Preempts, IdleJumps, NodeSwitches, Hash uint64
	Hung, Killed                                                             bool
	RecN                                                                     int
}

type Result struct {
	Verdict   string         `json:"verdict"`
	Prop      string         `json:"property"`
	Sig       string         `json:"sig,omitempty"`
	Msg       string         `json:"msg,omitempty"`
	Known     []string       `json:"known,omitempty"`
	Side      []string       `json:"side,omitempty"`
	Faults    []Fault        `json:"faults,omitempty"`
	Kinds     map[string]int `json:"kinds,omitempty"`
	Ops       []string       `json:"ops,omitempty"`
	Cover     map[string]int `json:"cover,omitempty"`
	States    []uint64       `json:"states,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
	Stats     Stats          `json:"stats"`
	VirtualNs int64          `json:"virtual_ns"`
	Checks    int            `json:"checks"`
	Overrides []Override     `json:"overrides,omitempty"`
	Nontriv   bool           `json:"nontrivial"`
}

// runner executes single simulated runs, one process each.
type runner struct {
	bin     string
	small   string
	scratch string
	timeout time.Duration
}

// run executes one specification. It never fails: what cannot be judged is "inconclusive".
func (r *runner) run(spec *Spec) *Result {
	inconclusive := func(f string, a ...any) *Result {
		return &Result{Verdict: "inconclusive", Prop: spec.Prop, Msg: fmt.Sprintf(f, a...)}
	}
	f, err := os.CreateTemp(r.scratch, "spec-*.json")
	if err != nil {
		return inconclusive("%v", err)
	}
	defer os.Remove(f.Name())
	if err := json.NewEncoder(f).Encode(spec); err != nil {
		return inconclusive("%v", err)
	}
	f.Close()
	pr, pw, err := os.Pipe()
	if err != nil {
		return inconclusive("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), r.timeout)
	defer cancel()
	bin := r.bin
	if spec.Small {
		bin = r.small
	}
	cmd := exec.CommandContext(ctx, bin, "-spec", f.Name())
	cmd.Dir = r.scratch
	// Nothing of the environment may influence a run.
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=single", "PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	cmd.ExtraFiles = []*os.File{pw}
	var stderr tailBuf
	cmd.Stderr = &stderr
	cmd.Stdout = io.Discard
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return inconclusive("%v", err)
	}
	pw.Close()
	out, _ := io.ReadAll(pr)
	pr.Close()
	err = cmd.Wait()
	if ctx.Err() != nil {
		return inconclusive("wall-clock limit of one run exceeded")
	}
	var res Result
	if e := json.Unmarshal(out, &res); e != nil {
		s := stderr.String()
		for _, pat := range []string{"fatal error: stack overflow", "fatal error: concurrent map", "fatal error: sync: unlock of unlocked", "fatal error: sync: RUnlock", "fatal error: sync: Unlock"} {
			if strings.Contains(s, pat) {
				return &Result{Verdict: "violation", Prop: spec.Prop, Sig: strings.ReplaceAll(pat, " ", "-"), Msg: s}
			}
		}
		return inconclusive("process ended (%v) without a result: %s", err, s)
	}
	return &res
}

type tailBuf struct{ b bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 6000 {
		t.b.Write(p[:min(len(p), 6000-t.b.Len())])
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return t.b.String() }

func newRunner(b *build.Result, timeout time.Duration) (*runner, error) {
	d, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		return nil, err
	}
	return &runner{bin: b.Bin, small: b.Small, scratch: d, timeout: timeout}, nil
}

func (r *runner) close() {
	if strings.HasPrefix(filepath.Base(r.scratch), "verif-run-") {
		os.RemoveAll(r.scratch)
	}
}
