package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// Scenario pipeline: pipelines of random shape, run by the real pkg/pipeline. The functions of the
// stages belong to the simulator: they draw outputs, delays and errors, and record every message.

func init() {
	register(&scenario{name: "pipeline", run: pipelineScenario, preempts: []uint64{0, 2, 10, 50, 500}, maxSteps: 6_000_000})
}

// pLink connects stages: senders write to it, one of the receivers reads each message.
type pLink struct {
	id       int
	from, to []*pStage
	shared   bool
	sent     []*pMsg
	got      int // messages received so far
}

func (l *pLink) String() string {
	n := func(ss []*pStage) string {
		var out []string
		for _, s := range ss {
			out = append(out, s.name)
		}
		return strings.Join(out, "+")
	}
	return n(l.from) + "->" + n(l.to)
}

type pMsg struct {
	val       int64
	link      *pLink
	call, pos int // of the sender
	from      *pStage
	by        *pStage
	order     int // position in the sequence of messages received by the stage
	delivered bool
}

type pStage struct {
	name        string
	layer       int
	idx         int // in the pipeline
	outs        []*pLink
	ins         []*pLink
	source      bool
	sink        bool
	outMode     int // 0 default (concurrent) 1 concurrent 2 sequential 3 cycles allowed
	inMode      int // 0 default 1 concurrent 2 sequential
	streaming   bool
	flushes     bool
	quitsAfter  int // messages, then NoMoreData; -1 never
	slow        time.Duration
	like        pip.StageLike
	calls       int
	received    []*pMsg
	inside      bool
	what        string
	noMore      int
	quit        bool
	streamLeft  int
	outBuf      []int64
	outIdx      []int
	sendErr     int
	stalls      bool
	failAt      int // message number at which this stage fails, -1 never
	failNoMore  bool
	handled     []*pMsg // since the last start
	runs        int
	onlyOneEach bool
}

// How the pipeline is made.
const (
	joinNone = iota
	joinRaw  // JoinPipelinesRaw of consecutive parts
	// JoinTwoPipelines: the sink of the first feeds the source of the second. Not drawn: nothing
	// outside pkg/pipeline's tests uses it, and it is known to block when the second pipeline ends
	// early (DESIGN.md).
	joinTwo
)

type pWorld struct {
	k      *kit.Kit
	r      *kit.Rng
	n      uint32
	stages []*pStage
	links  []*pLink
	p      *pip.Pipeline
	nextV  int64
	errs   []error
	wait   error
	round  int
	seqLen int  // stages of each branch read in turns
	over   bool // Wait returned
	seq    bool
	total  int // items the source produces
	srcN   int
	srcVal []int64
	srcOut [][]int
	srcEnd bool

	stalling  bool
	inStalled int
	stallN    int
	working   map[*pStage]bool
	auto      int // index of the stage that resumes automatically, -1
	autoStops int
	stopped   *pStage
	chanSrc   chan int64
	endless   bool
	join      int
	cuts      []int   // joinRaw: first stage of each part but the first
	src2      *pStage // joinTwo: the source of the second pipeline
	sink1     *pStage
	seen2     []int64
	chan2     chan int64
	p2        *pip.Pipeline
	srcKind   int // 0 function 1 channel 2 slice
	slice     []int64
}

var errPlanned = errors.New("planned failure")

func pipelineScenario(k *kit.Kit) {
	w := &pWorld{k: k, r: k.Rand("pipeline"), auto: -1, working: map[*pStage]bool{}}
	k.SetRate("stage.process", 1)
	r := w.r
	w.build()
	w.n = k.NewNode()
	rounds := 1
	if w.auto < 0 && w.join != joinTwo && r.Chance(1, 3) {
		rounds = r.Range(2, 3)
	}
	stopRound := -1
	if w.auto < 0 && w.join != joinTwo && r.Chance(1, 8) {
		stopRound = r.Intn(rounds)
		w.srcKind = 1
		w.noFailures()
	}
	k.Must(w.n, "creating the pipeline", time.Hour, func() { w.create() })
	if w.p == nil {
		return
	}
	for w.round = 0; w.round < rounds; w.round++ {
		if !k.Op(w.round, "run %d", w.round) {
			continue
		}
		w.endless = w.round == stopRound
		w.reset()
		w.runRound(w.round == stopRound)
		if stopRound == w.round {
			break // a stopped pipeline is not used again
		}
	}
	if w.total > 1 && len(w.stages) > 2 {
		k.Res.Nontriv = true
	}
}

// build draws the shape of the pipeline.
func (w *pWorld) build() {
	r, k := w.r, w.k
	kind := r.Intn(10)
	w.seq = kind == 0
	var layers [][]*pStage
	add := func(layer int, name string) *pStage {
		s := &pStage{name: name, layer: layer, idx: len(w.stages), quitsAfter: -1, failAt: -1}
		w.stages = append(w.stages, s)
		for len(layers) <= layer {
			layers = append(layers, nil)
		}
		layers[layer] = append(layers[layer], s)
		return s
	}
	src := add(0, "source")
	src.source = true
	w.srcKind = r.Intn(3)
	link := func(from, to []*pStage, shared bool) {
		l := &pLink{id: len(w.links), from: from, to: to, shared: shared}
		w.links = append(w.links, l)
		for _, f := range from {
			f.outs = append(f.outs, l)
		}
		for _, t := range to {
			t.ins = append(t.ins, l)
		}
	}
	if w.seq {
		// Branches of equal length that end in a stage reading its inputs in turns.
		n, length := r.Range(2, 4), r.Range(1, 3)
		w.seqLen = length
		var ends []*pStage
		for b := 0; b < n; b++ {
			prev := src
			for d := 0; d < length; d++ {
				s := add(1+d, fmt.Sprintf("s%d.%d", 1+d, b))
				s.onlyOneEach = true
				s.outMode = r.Intn(4)
				link([]*pStage{prev}, []*pStage{s}, false)
				prev = s
			}
			ends = append(ends, prev)
		}
		sink := add(1+length, "sink")
		sink.sink = true
		sink.inMode = 2
		for _, e := range ends {
			link([]*pStage{e}, []*pStage{sink}, false)
		}
		src.outMode = 2
		// The pipeline lists the stages in its own order: by layer.
	} else {
		n := r.Intn(4)
		for l := 1; l <= n; l++ {
			width := []int{1, 1, 1, 2, 2, 3}[r.Intn(6)]
			for i := 0; i < width; i++ {
				add(l, fmt.Sprintf("s%d.%d", l, i))
			}
		}
		nsinks := 1
		if r.Chance(1, 5) {
			w.join = joinRaw
		}
		shared := make([]bool, n+2)
		for i := range shared {
			shared[i] = r.Chance(1, 3)
		}
		if r.Chance(1, 4) && w.join != joinTwo {
			nsinks = 2
		}
		for i := 0; i < nsinks; i++ {
			s := add(n+1, fmt.Sprintf("sink%d", i))
			s.sink = true
		}
		for l := 0; l <= n; l++ {
			if shared[l] {
				link(layers[l], layers[l+1], true)
				continue
			}
			for _, a := range layers[l] {
				for _, b := range layers[l+1] {
					link([]*pStage{a}, []*pStage{b}, false)
				}
			}
		}
		// A shortcut over one layer.
		if n >= 1 && r.Chance(1, 4) {
			l := r.Intn(n)
			ok := true
			a, b := layers[l][r.Intn(len(layers[l]))], layers[l+2][r.Intn(len(layers[l+2]))]
			for _, x := range a.outs {
				ok = ok && !x.shared
			}
			for _, x := range b.ins {
				ok = ok && !x.shared
			}
			if ok {
				link([]*pStage{a}, []*pStage{b}, false)
			}
		}
		if w.join == joinTwo {
			w.sink1 = w.stages[len(w.stages)-1]
			w.src2 = add(n+2, "source2")
			w.src2.source = true
			l := n + 3
			for m := r.Intn(3); m > 0; m-- {
				for i := r.Range(1, 2); i > 0; i-- {
					add(l, fmt.Sprintf("t%d.%d", l, i))
				}
				l++
			}
			add(l, "sink2").sink = true
			for i := n + 2; i < l; i++ {
				if r.Chance(1, 3) {
					link(layers[i], layers[i+1], true)
					continue
				}
				for _, a := range layers[i] {
					for _, b := range layers[i+1] {
						link([]*pStage{a}, []*pStage{b}, false)
					}
				}
			}
		}
		if w.join == joinRaw {
			for i, s := range w.stages {
				if i > 1 && s.layer > w.stages[i-1].layer && s.layer <= n && r.Chance(1, 2) && len(w.cuts) < 2 {
					w.cuts = append(w.cuts, i)
				}
			}
			if len(w.cuts) == 0 {
				w.cuts = []int{len(w.stages) - nsinks}
			}
		}
		for _, s := range w.stages {
			s.outMode, s.inMode = r.Intn(4), r.Intn(2)
			if !s.source && !s.sink {
				s.streaming = r.Chance(1, 4)
			}
			if !s.source {
				s.flushes = r.Chance(1, 4)
			}
		}
	}
	w.total = []int{0, 1, r.Range(2, 6), r.Range(2, 12), r.Range(5, 40)}[r.Intn(5)]
	for _, s := range w.stages {
		if r.Chance(1, 3) {
			s.slow = time.Duration(r.Range(1, 2000)) * time.Microsecond
		}
	}
	// Automatic resumption: one stage ends without error every few messages.
	if w.join == joinTwo {
		if r.Chance(1, 3) {
			w.auto = w.sink1.idx
			w.sink1.quitsAfter = r.Range(1, 4)
			for _, s := range w.stages {
				s.flushes = s.flushes && s.layer > w.sink1.layer
			}
		}
	} else if !w.seq && w.join == joinNone && r.Chance(1, 5) {
		chain := true
		for _, l := range w.links {
			if l.shared || len(l.from) != 1 || len(l.to) != 1 {
				chain = false
			}
		}
		linear := chain
		for _, s := range w.stages {
			linear = linear && len(s.ins) <= 1 && len(s.outs) <= 1
		}
		if linear {
			w.auto = r.Intn(len(w.stages))
			t := w.stages[w.auto]
			t.quitsAfter = r.Range(1, 4)
			t.streaming = false
			for _, s := range w.stages {
				s.flushes = false
			}
		} else if chain && r.Chance(1, 2) {
			// Only the last stage or the first one.
			w.auto = []int{0, len(w.stages) - 1}[r.Intn(2)]
			if w.auto != 0 && !w.stages[w.auto-1].sink || w.auto == 0 {
				w.stages[w.auto].quitsAfter = r.Range(1, 4)
				for _, s := range w.stages {
					s.flushes = false
				}
			} else {
				w.auto = -1
			}
		}
		if w.auto == 0 {
			w.srcKind = 0
		}
	}
	// Failures.
	if r.Chance(1, 2) {
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			s := w.stages[r.Intn(len(w.stages))]
			if r.Chance(1, 5) && !s.source {
				s.failNoMore = true
			} else {
				s.failAt = r.Intn(8)
			}
		}
	}
	// Stalls.
	if r.Chance(1, 4) {
		for _, s := range w.stages {
			s.stalls = r.Chance(1, 2)
		}
	}
	for _, s := range w.stages {
		k.Tracef("stage %s out %d in %d stream %v flush %v quit %d slow %v fail %d/%v stall %v links %v", s.name, s.outMode, s.inMode, s.streaming, s.flushes, s.quitsAfter, s.slow, s.failAt, s.failNoMore, s.stalls, s.outs)
	}
	k.Tracef("items %d source %d auto %d join %d %v", w.total, w.srcKind, w.auto, w.join, w.cuts)
}

func (w *pWorld) noFailures() {
	for _, s := range w.stages {
		s.failAt, s.failNoMore = -1, false
	}
}

func (w *pWorld) reset() {
	w.srcN, w.srcEnd, w.errs, w.wait, w.over = 0, false, nil, nil, false
	w.srcVal, w.srcOut, w.slice = nil, nil, nil
	w.seen2 = nil
	for _, l := range w.links {
		l.sent, l.got = nil, 0
	}
	for _, s := range w.stages {
		s.calls, s.received, s.noMore, s.quit, s.streamLeft, s.handled, s.sendErr = 0, nil, 0, false, 0, nil, 0
	}
	src := w.stages[0]
	n := len(src.outs)
	for i := 0; i < w.total; i++ {
		w.nextV++
		w.srcVal = append(w.srcVal, w.nextV)
		o := []int{w.r.Intn(n)}
		if w.seq {
			o[0] = i % n
		} else if w.srcKind == 1 && w.r.Chance(1, 4) {
			o = w.r.Perm(n)[:w.r.Range(0, n)]
		}
		w.srcOut = append(w.srcOut, o)
	}
	if w.seq && w.total > n && w.r.Chance(1, 2) {
		// Some branches end earlier than others. What the others get in the meantime has to fit into their
		// stages, as a stage reading in turns waits for the first one until it knows that it ended.
		last := w.srcVal[:w.total-w.total%n]
		outs := w.srcOut[:len(last)]
		more := make([]int, n)
		for b := range more {
			more[b] = w.r.Range(0, w.seqLen)
		}
		for t := 0; t < w.seqLen; t++ {
			for b := 0; b < n; b++ {
				if t < more[b] {
					w.nextV++
					last = append(last[:len(last):len(last)], w.nextV)
					outs = append(outs[:len(outs):len(outs)], []int{b})
				}
			}
		}
		w.srcVal, w.srcOut = last, outs
	}
	if w.endless {
		// Every item of the source goes to one channel.
		for i := range w.srcOut {
			w.srcOut[i] = []int{i % n}
		}
	}
	w.slice = w.srcVal
}

// enter and leave bracket every function of a stage.
func (w *pWorld) enter(s *pStage, what string) {
	k := w.k
	if w.over {
		k.Fail("", "after-wait", "%s of stage %s runs after Wait returned", what, s.name)
		k.Stop()
	}
	if s.inside {
		k.Fail("", "overlap", "%s of stage %s runs while another function of the stage is running", what, s.name)
		k.Stop()
	}
	if s.quit && !(w.auto == s.idx) {
		k.Fail("", "after-end", "%s of stage %s runs after the stage ended", what, s.name)
		k.Stop()
	}
	if s.stalls && w.stalling && !strings.Contains(what, "streaming") {
		k.Fail("", "stall", "%s of stage %s runs while the pipeline is stalled", what, s.name)
		k.Stop()
	}
	s.inside, s.what = true, what
	if s.slow > 0 && w.r.Chance(1, 2) {
		time.Sleep(s.slow)
	} else if w.r.Chance(1, 3) {
		runtime.Gosched()
	}
	if w.r.Chance(1, 100) && !w.spins() {
		time.Sleep(time.Duration(w.r.Range(1, 60)) * time.Second)
		w.k.Cover("stalled-stage")
	}
}

// spins tells whether some stage polls its outputs: long delays would take forever then.
func (w *pWorld) spins() bool {
	for _, s := range w.stages {
		if s.outMode == 3 {
			return true
		}
	}
	return false
}

func (w *pWorld) leave(s *pStage) { s.inside = false }

// fail decides whether the function fails at this point.
func (w *pWorld) fail(s *pStage, what string, now bool) error {
	if !now {
		return nil
	}
	if f := w.k.Draw("stage.process", kit.KindProb{Kind: "stage-error", Weight: 1}); f == nil {
		return nil
	}
	err := fmt.Errorf("%w %d of %s in %s", errPlanned, len(w.errs), s.name, what)
	w.errs = append(w.errs, err)
	w.k.Tracef("%v", err)
	return err
}

// receive records that stage s got the value.
func (w *pWorld) receive(s *pStage, v int64) {
	k := w.k
	var old *pMsg
	for _, l := range s.ins {
		for _, m := range l.sent {
			if m.val != v {
				continue
			}
			if m.delivered {
				old = m
				continue
			}
			m.delivered, m.by, m.order = true, s, len(s.received)
			l.got++
			s.received = append(s.received, m)
			s.handled = append(s.handled, m)
			return
		}
	}
	if old != nil {
		k.Fail("", "duplicate", "stage %s receives message %d twice (sent by %s)", s.name, v, old.from.name)
	} else {
		k.Fail("", "invented", "stage %s receives message %d, which was not sent to it", s.name, v)
	}
	k.Stop()
}

// send records the outputs of one call.
func (w *pWorld) send(s *pStage, vals []int64, idx []int) {
	s.calls++
	for i, v := range vals {
		l := s.outs[idx[i]]
		l.sent = append(l.sent, &pMsg{val: v, link: l, call: s.calls, pos: i, from: s})
	}
}

// outputs draws the outputs of one call.
func (w *pWorld) outputs(s *pStage) ([]int64, []int) {
	n := []int{1, 1, 1, 1, 0, 2, 3}[w.r.Intn(7)]
	if s.onlyOneEach {
		n = 1
	}
	s.outBuf, s.outIdx = s.outBuf[:0], s.outIdx[:0]
	if w.r.Chance(1, 4) {
		s.outBuf, s.outIdx = nil, nil
	}
	for i := 0; i < n; i++ {
		w.nextV++
		s.outBuf = append(s.outBuf, w.nextV)
		s.outIdx = append(s.outIdx, w.r.Intn(len(s.outs)))
	}
	return s.outBuf, s.outIdx
}

func (w *pWorld) process(s *pStage, v int64) ([]int64, []int, error) {
	w.enter(s, "the processing function")
	defer w.leave(s)
	w.receive(s, v)
	if err := w.fail(s, "process", len(s.received)-1 == s.failAt); err != nil {
		s.quit = true
		return nil, nil, err
	}
	if s.sink {
		if s.quitsAfter > 0 && len(s.handled)%s.quitsAfter == 0 {
			w.autoStops++
			return nil, nil, pip.NoMoreData
		}
		return nil, nil, nil
	}
	o, x := w.outputs(s)
	if s.streaming && w.r.Chance(1, 2) {
		if w.r.Chance(1, 3) {
			o, x = o[:0], x[:0]
		}
		s.streamLeft = w.r.Range(0, 4)
		w.send(s, o, x)
		return o, x, pip.StreamOutput
	}
	w.send(s, o, x)
	if s.quitsAfter > 0 && len(s.handled)%s.quitsAfter == 0 {
		w.autoStops++
		return o, x, pip.NoMoreData
	}
	return o, x, nil
}

func (w *pWorld) stream(s *pStage, o *[]int64, x *[]int) error {
	w.enter(s, "the streaming function")
	defer w.leave(s)
	if err := w.fail(s, "stream", len(s.received)-1 == s.failAt-1 && s.failAt > 0); err != nil {
		s.quit = true
		return err
	}
	if s.streamLeft == 0 {
		*o, *x = (*o)[:0], (*x)[:0]
		if w.r.Chance(1, 3) { // the last outputs come with the end of the stream
			*o, *x = w.outputs(s)
			w.send(s, *o, *x)
		}
		if w.r.Chance(1, 2) {
			return nil
		}
		return pip.NoMoreData
	}
	s.streamLeft--
	*o, *x = w.outputs(s)
	w.send(s, *o, *x)
	return pip.StreamOutput
}

func (w *pWorld) noMoreData(s *pStage) ([]int64, []int, error) {
	w.enter(s, "the no-more-data function")
	defer w.leave(s)
	s.noMore++
	if s.noMore > 1 {
		w.k.Fail("", "no-more-data-twice", "stage %s is told twice that there is no more data", s.name)
		w.k.Stop()
	}
	s.quit = true
	if err := w.fail(s, "no more data", s.failNoMore); err != nil {
		return nil, nil, err
	}
	if s.sink || !s.flushes {
		return nil, nil, nil
	}
	o, x := w.outputs(s)
	w.send(s, o, x)
	return o, x, nil
}

func (w *pWorld) sourceNext() ([]int64, []int, error) {
	s := w.stages[0]
	w.enter(s, "the source function")
	defer w.leave(s)
	if err := w.fail(s, "source", w.srcN == s.failAt); err != nil {
		s.quit = true
		return nil, nil, err
	}
	if w.srcN >= len(w.srcVal) {
		w.srcEnd = true
		s.quit = true
		return nil, nil, pip.NoMoreData
	}
	o, x := []int64{w.srcVal[w.srcN]}, w.srcOut[w.srcN][:1]
	w.srcN++
	w.send(s, o, x)
	if s.quitsAfter > 0 && w.srcN%s.quitsAfter == 0 {
		w.autoStops++
		return o, x, pip.NoMoreData
	}
	if w.auto < 0 && w.srcN == len(w.srcVal) && w.srcVal[0]%2 == 0 {
		// The last item can come together with the end.
		w.srcEnd = true
		s.quit = true
		return o, x, pip.NoMoreData
	}
	return o, x, nil
}

func (w *pWorld) sourceChannels(v int64) ([]int, error) {
	s := w.stages[0]
	w.enter(s, "the source function")
	defer w.leave(s)
	if w.srcN >= len(w.srcVal) || v != w.srcVal[w.srcN] {
		w.k.Fail("", "source-order", "the source processes item %d as number %d of %v", v, w.srcN, w.srcVal)
		w.k.Stop()
	}
	if err := w.fail(s, "source", w.srcN == s.failAt); err != nil {
		s.quit = true
		return nil, err
	}
	x := w.srcOut[w.srcN]
	w.srcN++
	vals := make([]int64, len(x))
	for i := range vals {
		vals[i] = v
	}
	w.send(s, vals, x)
	return x, nil
}

// source2 gets what the sink of the first pipeline got.
func (w *pWorld) source2(v int64) ([]int, error) {
	k, s := w.k, w.src2
	w.enter(s, "the source function")
	defer w.leave(s)
	known := false
	for _, l := range w.sink1.ins {
		for _, m := range l.sent {
			known = known || m.val == v
		}
	}
	for _, x := range w.seen2 {
		if x == v {
			k.Fail("", "duplicate", "the second pipeline gets message %d twice", v)
			k.Stop()
		}
	}
	if !known {
		k.Fail("", "invented", "the second pipeline gets message %d, which was not sent to the sink of the first", v)
		k.Stop()
	}
	w.seen2 = append(w.seen2, v)
	if err := w.fail(s, "source", len(w.seen2)-1 == s.failAt); err != nil {
		s.quit = true
		return nil, err
	}
	x := []int{w.r.Intn(len(s.outs))}
	w.send(s, []int64{v}, x)
	return x, nil
}

// checkJoin compares what the sink of the first pipeline got with what the second one got.
func (w *pWorld) checkJoin() {
	k := w.k
	for i, v := range w.seen2 {
		if i < len(w.sink1.received) && w.sink1.received[i].val != v {
			k.Fail("", "join-order", "the second pipeline gets message %d as number %d, the sink of the first got %d", v, i, w.sink1.received[i].val)
			k.Stop()
		}
	}
	if len(w.errs) == 0 && len(w.seen2) != len(w.sink1.received) {
		k.Fail("", "join-lost", "the sink of the first pipeline got %d messages, the second pipeline %d", len(w.sink1.received), len(w.seen2))
		k.Stop()
	}
}

// ---- the pipeline itself

func (w *pWorld) create() {
	w.chanSrc, w.chan2 = make(chan int64), make(chan int64)
	var likes []pip.StageLike
	for _, s := range w.stages {
		likes = append(likes, w.newStage(s))
	}
	var p *pip.Pipeline
	make := func(link func(*pip.Pipeline), auto bool, likes ...pip.StageLike) *pip.Pipeline {
		var p *pip.Pipeline
		var err error
		if auto {
			p, err = pip.NewPipeline(link, pip.WithStages(likes...), w.autoOption())
		} else {
			p, err = pip.NewPipeline(link, pip.WithStages(likes...))
		}
		if err != nil {
			w.k.Fail("", "create", "a pipeline with a source and a sink is refused: %v", err)
			w.k.Stop()
		}
		return p
	}
	all := func(a, b *pStage) bool { return true }
	noLink := func(*pip.Pipeline) {}
	switch w.join {
	case joinNone:
		p = make(func(*pip.Pipeline) { w.link(all) }, w.auto >= 0, likes...)
	case joinRaw:
		// Each part has a sink and a source of its own where it is cut.
		var parts []*pip.Pipeline
		cuts := append(append([]int{0}, w.cuts...), len(likes))
		for i := 0; i+1 < len(cuts); i++ {
			part := append([]pip.StageLike{}, likes[cuts[i]:cuts[i+1]]...)
			unused := fmt.Sprintf("part %d", i)
			if i > 0 {
				part = append([]pip.StageLike{pip.NewSource[int64](unused, pip.WithSourceChannel(&w.chan2, func(int64) ([]int, error) {
					w.k.Fail("", "skipped", "the source of a joined pipeline runs")
					return nil, nil
				}))}, part...)
			}
			if i+2 < len(cuts) {
				part = append(part, pip.NewSink[int64](unused, pip.WithSinkFunction(func(int64) error {
					w.k.Fail("", "skipped", "the sink of a joined pipeline runs")
					return nil
				})))
			}
			parts = append(parts, make(noLink, false, part...))
		}
		p = pip.JoinPipelinesRaw(func(*pip.Pipeline) { w.link(all) }, parts...)
		w.k.Cover("join-raw")
	case joinTwo:
		second := func(a, b *pStage) bool { return a.layer >= w.src2.layer }
		first := func(a, b *pStage) bool { return a.layer < w.src2.layer }
		p1 := make(func(*pip.Pipeline) { w.link(first) }, w.auto >= 0, likes[:w.src2.idx]...)
		w.p2 = make(func(*pip.Pipeline) {
			for _, s := range w.stages[w.src2.idx:] {
				s.noMore, s.quit = 0, false
			}
			w.link(second)
		}, false, likes[w.src2.idx:]...)
		var err error
		if p, err = pip.JoinTwoPipelines[int64](p1, w.p2); err != nil {
			w.k.Fail("", "create", "joining two pipelines fails: %v", err)
			w.k.Stop()
		}
		w.k.Cover("join-two")
	}
	stalls := false
	for _, s := range w.stages {
		stalls = stalls || s.stalls
	}
	if stalls {
		w.stallOption()(p)
	}
	w.p = p
}

func (w *pWorld) newStage(s *pStage) pip.StageLike {
	switch {
	case s.source:
		main := pip.WithSourceFunction(func() ([]int64, []int, error) { return w.sourceNext() })
		switch {
		case s == w.src2:
			main = pip.WithSourceChannel(&w.chan2, func(v int64) ([]int, error) { return w.source2(v) })
		case w.srcKind == 1:
			main = pip.WithSourceChannel(&w.chanSrc, func(v int64) ([]int, error) { return w.sourceChannels(v) })
		case w.srcKind == 2:
			main = pip.WithSourceSlice(&w.slice, func(v int64) (int, error) {
				x, err := w.sourceChannels(v)
				if err != nil {
					return 0, err
				}
				return x[0], nil
			})
		}
		multi := pip.WithMultiOutputChannels[pip.None, int64](len(s.outs))
		var src *pip.Source[int64]
		switch s.outMode {
		case 0:
			src = pip.NewSource[int64](s.name, main, multi)
		case 1:
			src = pip.NewSource[int64](s.name, main, multi, pip.WithConcurrentOutputs[pip.None, int64]())
		case 2:
			src = pip.NewSource[int64](s.name, main, multi, pip.WithSequentialOutputs[pip.None, int64]())
		default:
			src = pip.NewSource[int64](s.name, main, multi, pip.WithCyclesAllowedSequentialOutputs[pip.None, int64]())
		}
		s.like = src
	case s.sink:
		main := pip.WithSinkFunction(func(v int64) error { _, _, err := w.process(s, v); return err })
		multi := pip.WithMultiInputChannels[int64, pip.None](len(s.ins))
		end := pip.WithOnNoMoreData[int64, pip.None](func() ([]pip.None, []int, error) {
			_, _, err := w.noMoreData(s)
			return nil, nil, err
		})
		switch s.inMode {
		case 0:
			s.like = pip.NewSink[int64](s.name, main, multi, end)
		case 1:
			s.like = pip.NewSink[int64](s.name, main, multi, end, pip.WithConcurrentInputs[int64, pip.None]())
		default:
			s.like = pip.NewSink[int64](s.name, main, multi, end, pip.WithSequentialInputs[int64, pip.None]())
		}
	default:
		main := pip.WithProcessFunction(func(v int64) ([]int64, []int, error) { return w.process(s, v) })
		mi, mo := pip.WithMultiInputChannels[int64, int64](len(s.ins)), pip.WithMultiOutputChannels[int64, int64](len(s.outs))
		end := pip.WithOnNoMoreData[int64, int64](func() ([]int64, []int, error) { return w.noMoreData(s) })
		st := pip.WithOutputStreamingFunction[int64](func(o *[]int64, x *[]int) error { return w.stream(s, o, x) })
		fe := pip.WithOnErrorSending[int64, int64](func(err error, failed []int) { s.sendErr++ })
		in := pip.WithConcurrentInputs[int64, int64]()
		if s.inMode == 2 {
			in = pip.WithSequentialInputs[int64, int64]()
		}
		out := pip.WithConcurrentOutputs[int64, int64]()
		switch s.outMode {
		case 2:
			out = pip.WithSequentialOutputs[int64, int64]()
		case 3:
			out = pip.WithCyclesAllowedSequentialOutputs[int64, int64]()
		}
		if s.outMode == 0 {
			s.like = pip.NewStage[int64, int64](s.name, main, mi, mo, end, st, fe, in)
		} else {
			s.like = pip.NewStage[int64, int64](s.name, main, mi, mo, end, st, fe, in, out)
		}
	}
	return s.like
}

// typed views of the stages.
func asSource(s *pStage) *pip.Stage[pip.None, int64] {
	return pip.SourceAsStage(s.like.(*pip.Source[int64]))
}
func asMid(s *pStage) *pip.Stage[int64, int64]     { return s.like.(*pip.Stage[int64, int64]) }
func asSink(s *pStage) *pip.Stage[int64, pip.None] { return pip.SinkAsStage(s.like.(*pip.Sink[int64])) }

func indexOf(ls []*pLink, l *pLink) int {
	for i, x := range ls {
		if x == l {
			return i
		}
	}
	panic("no such link")
}

// link connects the stages for which want says so.
func (w *pWorld) link(want func(a, b *pStage) bool) {
	for _, l := range w.links {
		if !want(l.from[0], l.to[0]) {
			continue
		}
		if l.shared {
			linkShared(l)
			continue
		}
		a, b := l.from[0], l.to[0]
		o, i := indexOf(a.outs, l), indexOf(b.ins, l)
		switch {
		case a.source && b.sink:
			pip.LinkStagesAt(asSource(a), o, asSink(b), i)
		case a.source:
			pip.LinkStagesAt(asSource(a), o, asMid(b), i)
		case b.sink:
			pip.LinkStagesAt(asMid(a), o, asSink(b), i)
		default:
			pip.LinkStagesAt(asMid(a), o, asMid(b), i)
		}
	}
}

func linkShared(l *pLink) {
	var mids, mids2 []*pip.Stage[int64, int64]
	var srcs []*pip.Stage[pip.None, int64]
	var sinks []*pip.Stage[int64, pip.None]
	for _, s := range l.from {
		if s.source {
			srcs = append(srcs, asSource(s))
		} else {
			mids = append(mids, asMid(s))
		}
	}
	for _, s := range l.to {
		if s.sink {
			sinks = append(sinks, asSink(s))
		} else {
			mids2 = append(mids2, asMid(s))
		}
	}
	switch {
	case len(srcs) > 0 && len(sinks) > 0:
		pip.LinkStagesDistribute(srcs[0], sinks...)
	case len(srcs) > 0:
		pip.LinkStagesDistribute(srcs[0], mids2...)
	case len(sinks) > 0:
		pip.LinkStagesCrissCross(mids, sinks)
	default:
		pip.LinkStagesCrissCross(mids, mids2)
	}
}

func (w *pWorld) autoOption() func(*pip.Pipeline) {
	t := w.stages[w.auto]
	var affected []int
	for i := w.auto + 1; i < len(w.stages) && w.join != joinTwo; i++ {
		affected = append(affected, i)
	}
	w.r.Perm(1)
	return pip.WithAutoResumeAtStage(w.auto, func() bool {
		if len(w.errs) > 0 {
			return false
		}
		if t.source {
			return !w.srcEnd
		}
		return t.noMore == 0
	}, func(p *pip.Pipeline) {
		for _, i := range affected {
			w.stages[i].noMore, w.stages[i].quit = 0, false
		}
		w.k.Cover("auto-resume")
		w.link(func(a, b *pStage) bool { return a.idx >= w.auto && w.join != joinTwo })
	}, affected...)
}

func (w *pWorld) stallOption() func(*pip.Pipeline) {
	var these, at []pip.StageLike
	for _, s := range w.stages {
		if s.stalls {
			these = append(these, s.like)
		}
	}
	for _, s := range w.stages {
		if w.r.Chance(1, 2) {
			at = append(at, s.like)
		}
	}
	return pip.WithStallStages(these, func() {
		if w.stalling {
			w.k.Fail("", "stall-twice", "the stalled function runs twice at the same time")
			w.k.Stop()
		}
		w.stalling = true
		w.k.Cover("stall")
		for _, s := range w.stages {
			if s.stalls && s.inside && s.what != "the streaming function" {
				w.k.Fail("", "stall", "the stalled function runs while stage %s is processing", s.name)
				w.k.Stop()
			}
		}
		if w.r.Chance(1, 2) {
			time.Sleep(time.Duration(w.r.Range(1, 500)) * time.Microsecond)
		}
		w.stalling = false
	}, func(pip.StageLike) bool {
		return w.r.Chance(1, 6)
	}, at)
}

// ---- running it

func (w *pWorld) runRound(stop bool) {
	k, r := w.k, w.r
	base := runtime.VerifCount(w.n)
	ctx := context.Background()
	var feeder *kit.Task
	w.chanSrc = make(chan int64)
	if w.srcKind == 1 {
		ch, vals := w.chanSrc, w.srcVal
		fn := k.NewNode()
		feeder = k.Go(fn, "feeder", func() {
			for i := 0; i < len(vals) || w.endless; i++ {
				if w.endless && i >= len(w.srcVal) {
					w.nextV++
					w.srcVal = append(w.srcVal, w.nextV)
					w.srcOut = append(w.srcOut, []int{i % len(w.stages[0].outs)})
				}
				v := w.srcVal[i]
				if w.endless || r.Chance(1, 10) {
					time.Sleep(time.Duration(r.Range(1, 300)) * time.Microsecond)
				}
				ch <- v
			}
			close(ch)
		})
	}
	t := k.Go(w.n, "run", func() {
		w.p.Resume(ctx)
		if stop {
			return
		}
		w.wait = w.p.Wait(ctx)
		w.over = true
	})
	if stop {
		k.MustDone(k.Wait(time.Hour, t), "starting the pipeline", time.Hour)
		w.stop()
		return
	}
	k.MustDone(k.Wait(2*time.Hour, t), w.state(), 2*time.Hour)
	k.Tracef("Wait: %v; failures %d", w.wait, len(w.errs))
	w.check()
	k.Sleep(time.Second)
	leftover := w.auto >= 0 && len(w.stages[w.auto].ins) > 1 && len(w.errs) > 0 // a stage that ended early is not resumed: nobody reads its inputs
	if n := runtime.VerifCount(w.n); n > base && !leftover {
		k.Dump()
		k.Fail("", "goroutines", "%d goroutines of the pipeline are still there after Wait returned (failures: %d)", n-base, len(w.errs))
		k.Stop()
	}
	if feeder != nil && !feeder.Done {
		k.Kill(feeder.Node)
	}
}

func (w *pWorld) state() string {
	return fmt.Sprintf("run %d of the pipeline", w.round)
}

// stop ends the pipeline from outside, at some stage, while the source has data without end.
func (w *pWorld) stop() {
	k := w.k
	// All data passes through the stage: other branches would keep the rest of the pipeline working.
	var cuts []*pStage
	for _, c := range w.stages {
		cut := true
		for _, x := range w.stages {
			if x.layer > c.layer && !w.after(c, x) || x.layer == c.layer && x != c {
				cut = false
			}
		}
		if cut {
			cuts = append(cuts, c)
		}
	}
	s := cuts[w.r.Intn(len(cuts))]
	k.Sleep(time.Duration(w.r.Range(0, 400)) * time.Microsecond)
	k.Cover("stop")
	k.Tracef("StopAndWait at %s", s.name)
	var err error
	t := k.Go(w.n, "stop", func() {
		switch {
		case s.source:
			err = asSource(s).StopAndWait()
		case s.sink:
			err = asSink(s).StopAndWait()
		default:
			err = asMid(s).StopAndWait()
		}
		// The stages after this one are done.
		for _, x := range w.stages {
			if x.layer > s.layer && w.after(s, x) {
				x.quit = true
			}
		}
	})
	k.MustDone(k.Wait(time.Hour, t), "stopping stage "+s.name, time.Hour)
	if err != nil {
		k.Fail("", "stop-error", "no function failed and StopAndWait returns %v", err)
		k.Stop()
	}
	t = k.Go(w.n, "wait", func() { w.wait = w.p.Wait(context.Background()) })
	k.MustDone(k.Wait(time.Hour, t), "waiting for the stopped pipeline", time.Hour)
	if w.wait != nil {
		k.Fail("", "stop-error", "no function failed and Wait returns %v after StopAndWait", w.wait)
		k.Stop()
	}
	w.order()
	k.Check()
}

// after tells whether all the data x receives passes through s.
func (w *pWorld) after(s, x *pStage) bool {
	if x == s {
		return true
	}
	if len(x.ins) == 0 {
		return false
	}
	for _, l := range x.ins {
		for _, f := range l.from {
			if !w.after(s, f) {
				return false
			}
		}
	}
	return true
}

// check compares what was delivered with what was sent.
func (w *pWorld) check() {
	k := w.k
	k.Check()
	for _, s := range w.stages {
		if s.inside {
			k.Fail("", "after-wait", "a function of stage %s is running when Wait returns", s.name)
			k.Stop()
		}
	}
	if len(w.errs) == 0 && w.wait != nil {
		k.Fail("", "wrong-error", "no function failed and Wait returns %v", w.wait)
		k.Stop()
	}
	if len(w.errs) > 0 {
		if w.wait == nil {
			k.Fail("", "lost-error", "Wait returns no error after: %v", w.errs)
			k.Stop()
		}
		for _, e := range w.errs {
			if !strings.Contains(w.wait.Error(), e.Error()) {
				k.Fail("", "lost-error", "the error of Wait does not mention %q: %v", e, w.wait)
				k.Stop()
			}
		}
		k.Cover("failed-run")
	} else {
		k.Cover("clean-run")
	}
	sent, lost := 0, 0
	for _, l := range w.links {
		for _, m := range l.sent {
			sent++
			if !m.delivered {
				lost++
				if len(w.errs) == 0 {
					k.Fail("", "lost", "message %d of stage %s was not delivered over %v, and Wait reports no error", m.val, m.from.name, l)
					k.Stop()
				}
			}
		}
	}
	if len(w.errs) == 0 {
		if w.srcN != len(w.srcVal) {
			k.Fail("", "lost-input", "only %d of %d items of the source were processed", w.srcN, len(w.srcVal))
			k.Stop()
		}
		for _, s := range w.stages {
			if !s.source && s.noMore != 1 && (w.auto < 0 || s.idx < w.auto) {
				k.Fail("", "no-more-data", "stage %s was told %d times that there is no more data", s.name, s.noMore)
				k.Stop()
			}
		}
	}
	w.order()
	if w.join == joinTwo {
		w.checkJoin()
	}
	k.State(kit.Hash64(fmt.Sprint(sent, lost, len(w.errs), w.wait != nil, w.shape())))
}

func (w *pWorld) shape() string {
	var b strings.Builder
	for _, s := range w.stages {
		fmt.Fprintf(&b, "%d.%d.%d.%d;", s.layer, s.outMode, len(s.received), s.calls)
	}
	return b.String()
}

// order checks that what one stage sent to another over a link arrives in order.
func (w *pWorld) order() {
	k := w.k
	for _, s := range w.stages {
		last := map[*pStage]map[*pLink]*pMsg{}
		for _, m := range s.received {
			if last[m.from] == nil {
				last[m.from] = map[*pLink]*pMsg{}
			}
			p := last[m.from][m.link]
			if p != nil {
				bad := m.call < p.call
				if m.from.outMode == 2 && m.call == p.call && m.pos < p.pos {
					bad = true
				}
				if bad {
					k.Fail("", "order", "stage %s receives message %d of %s (call %d output %d) after message %d (call %d output %d)", s.name, m.val, m.from.name, m.call, m.pos, p.val, p.call, p.pos)
					k.Stop()
				}
			}
			last[m.from][m.link] = m
		}
	}
	if w.seq && len(w.errs) == 0 {
		sink := w.stages[len(w.stages)-1]
		// Inputs are read in turns: message i of every branch before message i+1 of any, in the
		// order of the channels.
		count := map[*pLink]int{}
		type key struct{ turn, ch int }
		var keys []key
		for _, m := range sink.received {
			keys = append(keys, key{count[m.link], indexOf(sink.ins, m.link)})
			count[m.link]++
		}
		if !sort.SliceIsSorted(keys, func(i, j int) bool {
			return keys[i].turn < keys[j].turn || keys[i].turn == keys[j].turn && keys[i].ch < keys[j].ch
		}) {
			k.Fail("", "turns", "the sink reads its inputs out of turn: %v", keys)
			k.Stop()
		}
		k.Cover("sequential-inputs")
	}
}
