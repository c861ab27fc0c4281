package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"

	mapservercmd "github.com/netsec-ethz/fpki/cmd/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() {
	register(&scenario{name: "cmd", run: cmdScenario, preempts: []uint64{0, 5, 50, 500}})
}

const (
	apiAddr   = "127.0.0.1:8443"
	cycleLen  = 400 * time.Second // an update cycle takes less than this, stalls apart
	startSlop = 2 * time.Second
	graceTime = 10*time.Second + 200*time.Millisecond
)

// cmdRun is the map server command, run as a process: command line, configuration file, signals
// and exit status.
type cmdRun struct {
	serverRun
	tod     [4]int // hour, minute, second, nanosecond
	period  time.Duration
	task    *kit.Task
	exited  bool
	code    int
	exitAt  int64
	acts    []int64 // times at which the update machinery was active
	cts     []int64 // times of tree head requests
	noObs   bool    // queries are running: statements say nothing about updates
	stalls  []window
	stallD  time.Duration // stall the next statement of the process
	nStall  int
	stalled int
	clients uint32
}

type window struct{ from, to int64 }

func cmdScenario(k *kit.Kit) {
	w := newWorld(k)
	r := k.Rand("cmd")
	x := &cmdRun{}
	x.serverRun = serverRun{world: w, r: r, m: newModel(), reg: registry{}, last: mapping{}, plain: true}
	x.reg.add(x.last)
	x.setup()
	k.SetRate("proc", 0)
	w.sql.KillClients = false
	x.tod = [4]int{r.Intn(24), r.Intn(60), r.Intn(60), 0}
	switch r.Intn(6) {
	case 0:
		x.tod[3] = r.Intn(1_000_000_000)
	case 1:
		x.tod = [4]int{0, 0, 0, 0}
	case 2:
		x.tod = [4]int{23, 59, 59, 0}
	}
	x.period = []time.Duration{450 * time.Second, 15 * time.Minute, time.Hour, 7 * time.Hour, 24 * time.Hour, 48 * time.Hour}[r.Intn(6)]
	x.writeConf()
	for i, p := range x.u.pols {
		w.fs.Put(fmt.Sprintf("/data/policy%d.json", i), p.raw)
	}
	os.VerifExit = func(code int) {
		n := runtime.VerifNode()
		if n == 0 {
			return
		}
		if n == x.node && !x.exited {
			x.exited, x.code, x.exitAt = true, code, runtime.VerifMono()
			k.Tracef("EXIT %d", code)
		}
		runtime.VerifWake()
		k.Kill(n)
		select {}
	}
	w.sql.Stall = func(node uint32, sql string) time.Duration {
		if node == x.node && !x.noObs {
			x.acts = append(x.acts, runtime.VerifMono())
			runtime.VerifWake()
		}
		if node != x.node || x.stallD == 0 || x.nStall == 0 {
			return 0
		}
		x.nStall--
		x.stalled++
		now := runtime.VerifMono()
		if !x.noObs {
			x.stalls = append(x.stalls, window{now, now + int64(x.stallD)})
		}
		return x.stallD
	}
	for _, l := range x.logs {
		l.reqs = func(string) {
			x.cts = append(x.cts, runtime.VerifMono())
			runtime.VerifWake()
		}
	}
	k.Quiet(true)
	k.Sleep(time.Duration(r.Float() * float64(26*time.Hour)))
	lives := r.Range(1, 4)
	for i := 0; i < lives; i++ {
		x.life(i)
	}
	k.Quiet(true)
	x.calmDown()
	for _, l := range x.logs {
		l.lag, l.hold = false, false
	}
	// A last process brings everything up to date and serves it.
	k.Tracef("faults stop")
	before := x.refresh()
	due := time.Now()
	x.launch("-updateNow", "/data/conf.json")
	if !x.ready(time.Hour) {
		k.Fail("", "final-start", "without faults the map server does not start with an update (exit %v, code %d)", x.exited, x.code)
		k.Stop()
	}
	x.settle(due, before, false)
	for i, l := range x.logs {
		k.Check()
		if x.sizes[i] != l.size() {
			k.Fail("", "incomplete", "after an update without faults, log %s is recorded up to %d of %d entries", l.url(), x.sizes[i], l.size())
		}
	}
	x.queryAll()
	if len(x.last) >= 2 {
		k.Res.Nontriv = true
	}
	x.stop("final", false)
}

// durUnits are the units in which a configuration can state the interval of updates.
var durUnits = []struct {
	s string
	d time.Duration
}{{"d", 24 * time.Hour}, {"h", time.Hour}, {"m", time.Minute}, {"s", time.Second}, {"ms", time.Millisecond}, {"us", time.Microsecond}, {"ns", 1}}

func (x *cmdRun) writeConf() {
	b, _ := json.Marshal(x.conf())
	m := map[string]any{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	at := fmt.Sprintf("%02d:%02d:%02d", x.tod[0], x.tod[1], x.tod[2])
	if x.tod[3] != 0 {
		at += strings.TrimRight(fmt.Sprintf(".%09d", x.tod[3]), "0")
	}
	m["UpdateAt"] = at
	timers := []string{}
	for _, u := range durUnits {
		if x.period%u.d == 0 {
			timers = append(timers, fmt.Sprintf("%d%s", x.period/u.d, u.s))
		}
	}
	m["UpdateTimer"] = timers[x.r.Intn(len(timers))]
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	if x.r.Chance(3, 10) {
		// the file as the program itself would write it
		c := config.Config{}
		if err := json.Unmarshal(b, &c); err != nil {
			x.k.Fail("C25", "config", "a valid configuration is refused: %v: %s", err, b)
			x.k.Stop()
		}
		if b, err = json.Marshal(c); err != nil {
			panic(err)
		}
		x.k.Tracef("configuration as written by the program")
	}
	x.fs.Put("/data/conf.json", b)
	x.k.Tracef("updates at %s every %s, local zone %s", at, x.period, time.Local)
}

// next is the first instant not before t at the configured time of day (UTC).
func (x *cmdRun) next(t time.Time) time.Time {
	day := int64(24 * time.Hour)
	tod := int64(x.tod[0])*int64(time.Hour) + int64(x.tod[1])*int64(time.Minute) + int64(x.tod[2])*int64(time.Second) + int64(x.tod[3])
	ns := t.UnixNano()
	d := ns - ns%day + tod
	if d < ns {
		d += day
	}
	return time.Unix(0, d)
}

// launch starts the command as a new process.
func (x *cmdRun) launch(args ...string) {
	k := x.k
	signal.VerifReset()
	os.Args = append([]string{"mapserver"}, args...)
	x.node = k.NewNode()
	x.cl = k.NewNode()
	x.exited, x.code, x.gone = false, 0, false
	x.acts, x.cts, x.stalls = nil, nil, nil
	x.stallD, x.nStall, x.stalled, x.noObs = 0, 0, 0, false
	k.Tracef("LAUNCH %v", os.Args)
	x.task = k.Go(x.node, "command", func() {
		mapservercmd.VerifMain()
		os.Exit(0)
	})
}

// wait lets time pass until cond holds, the process ended or died. It reports whether cond holds.
func (x *cmdRun) wait(d time.Duration, cond func() bool) bool {
	k := x.k
	ok := false
	o := k.WaitUntil(d, func() bool {
		ok = cond != nil && cond()
		return ok || x.exited
	})
	x.bad(o)
	return ok
}

func (x *cmdRun) bad(o kit.Outcome) {
	k := x.k
	if x.db.Unsupported != "" {
		k.Inconclusive("simulated database: unsupported: %s", x.db.Unsupported)
	}
	switch o {
	case kit.Panicked:
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("", "panic:"+wh, "the map server panics in %s: %s", wh, m)
		k.Stop()
	case kit.Hung:
		k.Fail("", "hang", "the map server does not come to rest (step budget exhausted)")
		k.Stop()
	}
}

func (x *cmdRun) ready(d time.Duration) bool {
	return x.wait(d, func() bool { return x.net.Listening(apiAddr) })
}

func (x *cmdRun) calmDown() {
	x.faulty = false
	x.stallD, x.nStall = 0, 0
}

// end of the process without a request: power loss.
func (x *cmdRun) powerLoss() {
	x.k.Kill(x.node)
	x.k.Kill(x.cl)
	x.k.Cover("power-loss")
	x.loose = true
}

// life is one process from its start to its end.
func (x *cmdRun) life(i int) {
	k, r := x.k, x.r
	if len(x.u.pols) > 0 && r.Chance(1, 3) {
		x.insertPolicy()
	}
	if r.Chance(2, 3) {
		l := x.logs[r.Intn(len(x.logs))]
		l.grow(pickEntries(r, x.u, r.Range(1, 8))...)
	}
	updateNow := r.Chance(1, 3)
	args := []string{"/data/conf.json"}
	if updateNow {
		args = append([]string{"-updateNow"}, args...)
	}
	early := r.Chance(1, 5) // ask to stop during start-up or the initial update
	before := x.refresh()
	nf := k.NFaults()
	faulty := x.faulty && r.Chance(1, 2)
	stalling := early && r.Chance(1, 2)
	hold := early && updateNow && r.Chance(1, 3)
	delay := time.Duration(r.Intn(1000)) * time.Duration([]int64{20e3, 200e3, 3e6}[r.Intn(3)])
	if !k.Op(i, "process %d: updateNow %v, early stop %v after %s, faults %v, stall %v, hold %v", i, updateNow, early, delay, faulty, stalling, hold) {
		return
	}
	if r.Chance(1, 4) {
		// start shortly before the time of day, or after it
		d := time.Until(x.next(time.Now())) - time.Duration(r.Range(-30, 120))*time.Second
		if d > 0 {
			k.Sleep(d)
		}
	}
	launched := time.Now()
	x.logs[0].hold = hold
	x.launch(args...)
	if updateNow {
		k.Quiet(!faulty)
	}
	if stalling {
		// The start needs some statements; the initial update waits for the database.
		if x.wait(time.Second, func() bool { return len(x.cts) > 0 }) {
			x.stallD, x.nStall = time.Duration(r.Range(15, 300))*time.Second, r.Range(1, 3)
		}
	}
	if early {
		x.wait(delay, nil)
		if !x.exited {
			x.stop("start-up", !x.net.Listening(apiAddr))
		}
		x.logs[0].hold = false
		k.Quiet(true)
		if updateNow || !x.next(launched).After(time.Now()) {
			x.loose = true // an update may have ended early, by itself or stopped
		}
		x.calmAfterLife()
		return
	}
	up := x.ready(2 * time.Hour)
	if !up {
		k.Quiet(true)
		k.Check()
		if k.NFaults() == nf || !updateNow {
			k.Fail("", "start", "the map server does not start although nothing went wrong (exited %v with status %d)", x.exited, x.code)
			k.Stop()
		}
		if !x.exited {
			k.Fail("", "start-hang", "the initial update does not end")
			k.Stop()
		}
		if x.code == 0 {
			k.Fail("C24", "status", "the initial update failed but the exit status is 0")
		}
		k.Cover("initial-update-failed")
		x.loose = true
		x.calmAfterLife()
		return
	}
	k.Quiet(true)
	if updateNow {
		x.settle(launched, before, k.NFaults() != nf)
		k.Cover("initial-update")
	}
	now := time.Now()
	t0 := x.next(now)
	if t0 != x.next(launched) && !updateNow || t0.Sub(now) < 5*time.Second || now.Sub(x.next(launched).Add(-24*time.Hour)) < 0 && updateNow {
		// The time of day passed during the start.
		x.endLife(t0, 0)
		return
	}
	upMono := runtime.VerifMono()
	base := upMono + int64(t0.Sub(now)) // virtual time of the first cycle
	n := r.Range(0, 3)
	if k.Targets("C25") {
		n = r.Range(1, 5)
	}
	x.acts, x.cts = nil, nil
	x.noObs = false
	last := upMono
	for c := 0; c < n && !x.exited; c++ {
		due := base + int64(c)*int64(x.period)
		for due < runtime.VerifMono()+int64(3*time.Second) {
			due += int64(x.period)
		}
		// Some time in between: logs grow, clients query.
		gap := due - runtime.VerifMono()
		x.wait(time.Duration(r.Float()*0.8*float64(gap)), nil)
		if r.Chance(3, 4) {
			x.logs[r.Intn(len(x.logs))].grow(pickEntries(r, x.u, r.Range(1, 6))...)
		}
		if r.Chance(1, 3) && gap > int64(10*time.Minute) {
			x.noObs = true
			x.queryAll()
			x.noObs = false
		}
		before := x.refresh()
		x.wait(time.Duration(due-runtime.VerifMono()-1e6), nil)
		nf := k.NFaults()
		k.Quiet(!(x.faulty && r.Chance(1, 2)))
		if r.Chance(1, 4) {
			x.stallD, x.nStall = time.Duration((0.1+2.4*r.Float())*float64(x.period)), 1
			k.Cover("long-cycle")
		}
		k.Tracef("CYCLE due")
		dueWall := time.Now()
		x.wait(5*time.Second, nil)
		if k.NFaults() != nf {
			x.acts = append(x.acts, due) // it may not even have reached the database
		}
		if ws := x.stalls; len(ws) > 0 && ws[len(ws)-1].to > runtime.VerifMono() {
			x.wait(time.Duration(ws[len(ws)-1].to-runtime.VerifMono()), nil)
			x.wait(5*time.Second, nil)
		}
		x.stallD, x.nStall = 0, 0
		x.wait(cycleLen, nil)
		k.Quiet(true)
		last = runtime.VerifMono()
		x.schedule(base, upMono, last)
		x.noObs = true
		x.settle(dueWall, before, k.NFaults() != nf || len(x.stalls) > 0)
		x.noObs = false
		x.stalls = x.pastStalls(last)
	}
	if x.exited {
		k.Fail("", "exit", "the map server ends by itself with status %d", x.code)
		k.Stop()
	}
	x.endLife(t0, base)
}

func (x *cmdRun) pastStalls(now int64) []window { return x.stalls }

// schedule checks the observed activity against the configured schedule.
func (x *cmdRun) schedule(base, from, to int64) {
	k := x.k
	p := int64(x.period)
	k.Check()
	inStall := func(t int64) *window {
		for i, w := range x.stalls {
			if t >= w.from && t < w.to+int64(cycleLen) {
				return &x.stalls[i]
			}
		}
		return nil
	}
	for due := base; due+int64(startSlop) < to; due += p {
		if w := inStall(due); w != nil && due > w.from+int64(startSlop) {
			continue // the previous cycle was still running
		}
		found := false
		for _, a := range x.acts {
			if a >= due-int64(time.Millisecond) && a <= due+int64(startSlop) {
				found = true
			}
		}
		if !found {
			k.Fail("C25", "missed", "no update cycle starts at the scheduled time (first at %02d:%02d:%02d.%09d UTC, every %s, cycle %d)", x.tod[0], x.tod[1], x.tod[2], x.tod[3], x.period, (due-base)/p)
		}
	}
	for _, a := range x.acts {
		if a < base {
			if a > from+int64(startSlop) {
				k.Fail("C25", "early", "an update cycle is active %s before the first scheduled time", time.Duration(base-a))
			}
			continue
		}
		since := (a - base) % p
		if since < int64(cycleLen) {
			continue
		}
		if inStall(a) != nil {
			continue
		}
		k.Fail("C25", "unscheduled", "an update cycle is active %s after the last scheduled time (period %s)", time.Duration(since), x.period)
	}
	for _, c := range x.cts {
		for _, w := range x.stalls {
			if c > w.from+int64(time.Second) && c < w.to {
				k.Fail("C25", "overlap", "a second update cycle runs while the previous one still waits for the database")
			}
		}
	}
	k.Cover("cycles")
}

// settle takes the effect of an update cycle into account and checks its result if nothing failed.
func (x *cmdRun) settle(due time.Time, before []int, failed bool) {
	k := x.k
	want := x.m.clone()
	want.prune(due.Unix())
	announced := make([]int, len(x.logs))
	for i, l := range x.logs {
		announced[i] = l.size()
	}
	after := x.readSizes()
	x.sizes = after
	for i, l := range x.logs {
		k.Check()
		if !failed && !l.lag && after[i] != announced[i] {
			k.Fail("C25", "not-ingested", "after a scheduled update without faults, log %d is recorded up to %d of %d entries", i, after[i], announced[i])
			k.Fail("", "not-ingested", "after an update without faults, log %d is recorded up to %d of %d entries", i, after[i], announced[i])
		}
		for _, e := range l.entries[before[i]:after[i]] {
			want.addLeaf(e.cert)
			x.m.addLeaf(e.cert)
		}
	}
	ambiguous := false
	now := time.Now().Unix()
	for _, c := range x.u.byID {
		if c.exp >= due.Unix()-3 && c.exp <= now+3 {
			ambiguous = true
		}
	}
	for i, l := range x.logs {
		for n := range l.served {
			if n > after[i] && x.loose {
				ambiguous = true // an earlier failed update may have stored more
			}
		}
	}
	root, got, err := x.auditTree(x.keys)
	k.Check()
	if err != nil {
		k.Fail("", "corrupt", "the published root %x cannot be served: %v", short(root), err)
		k.Stop()
	}
	x.reg.add(got)
	x.last = got
	k.State(kit.Hash64(string(root)))
	if failed || ambiguous {
		x.loose = true
		return
	}
	x.m = want
	if w := want.mapping(); !eqMapping(w, got) {
		k.Fail("", "content", "after an update cycle without faults the published map differs from the logs' content: %s", x.u.diffMapping(w, got))
		k.Stop()
	}
	x.loose = false
	k.Cover("cycle-exact")
}

// endLife ends the process at a random moment.
func (x *cmdRun) endLife(t0 time.Time, base int64) {
	k, r := x.k, x.r
	mode := r.Intn(6)
	if base == 0 && mode >= 4 {
		mode = 0
	}
	switch mode {
	case 0: // idle
		x.wait(time.Duration(r.Intn(3000))*time.Millisecond, nil)
	case 1: // power loss instead
		x.powerLoss()
		return
	case 2, 3: // queries in progress
		x.inFlight(false)
		return
	default: // during a cycle
		due := base
		for due < runtime.VerifMono()+int64(3*time.Second) {
			due += int64(x.period)
		}
		x.logs[r.Intn(len(x.logs))].grow(pickEntries(r, x.u, r.Range(1, 6))...)
		x.refresh()
		x.wait(time.Duration(due-runtime.VerifMono()-1e6), nil)
		k.Quiet(!(x.faulty && r.Chance(1, 3)))
		if r.Chance(1, 3) {
			x.stallD, x.nStall = time.Duration(r.Range(1, 100))*time.Second, r.Range(1, 2)
		}
		n := len(x.acts)
		x.wait(5*time.Second, func() bool { return len(x.acts) > n })
		x.wait(time.Duration(r.Intn(1000))*time.Duration([]int64{1e3, 50e3, 2e6}[r.Intn(3)]), nil)
		k.Cover("stop-in-cycle")
		x.loose = true
		if r.Chance(1, 2) {
			x.stallD, x.nStall = 0, 0
			x.inFlight(true)
			return
		}
	}
	x.stop(fmt.Sprintf("mode %d", mode), false)
	x.calmAfterLife()
}

// inFlight asks the process to stop while requests are being processed.
func (x *cmdRun) inFlight(cycle bool) {
	k, r := x.k, x.r
	if x.exited {
		return
	}
	n := r.Range(1, 3)
	x.noObs = true
	x.stalled = 0
	nf0 := k.NFaults()
	x.stallD, x.nStall = time.Duration(r.Range(300, 4500/n))*time.Millisecond, n
	type answer struct {
		name string
		resp []*mapCommon.MapServerResponse
		code int
		err  error
	}
	as := make([]answer, n)
	var tasks []*kit.Task
	for i := range as {
		a := &as[i]
		for a.name = x.pick(r); !validName(a.name); {
			a.name = x.pick(r)
		}
		tasks = append(tasks, k.Go(x.cl, "client", func() {
			a.resp, a.code, a.err = x.getProof(a.name)
		}))
	}
	k.WaitUntil(100*time.Millisecond, func() bool { return x.exited })
	x.nStall = 0
	nf := k.NFaults()
	asked := runtime.VerifMono()
	x.stop(inProgress, false)
	took := time.Duration(runtime.VerifMono() - asked)
	o := k.Wait(time.Minute, tasks...)
	k.Quiet(true)
	k.Check()
	if runtime.VerifDead(x.cl) { // power loss
		x.calmAfterLife()
		return
	}
	if o != kit.Done {
		k.Fail("C24", "client-hang", "a client's request in progress when the server is asked to stop never ends (%s)", o)
		k.Stop()
	}
	if x.stalled > 0 {
		k.Cover("stop-in-query")
	}
	for _, a := range as {
		k.Check()
		if a.err != nil && nf0 != k.NFaults() && took > 4*time.Second {
			// Faults made it so slow that the process had to end first.
			k.Cover("given-up")
			continue
		}
		if a.err != nil {
			k.Fail("C24", "dropped", "a request being processed when the server is asked to stop is not answered: %v", a.err)
			continue
		}
		if a.code != 200 {
			// While the map is replaced queries may be refused.
			if !cycle && !x.loose && nf == k.NFaults() {
				k.Fail("C24", "refused", "a request being processed when the server is asked to stop is answered with %d", a.code)
			}
			continue
		}
		if !x.loose && !cycle && eqMapping(x.last, x.m.mapping()) {
			x.expectHonest(x.m, a.name, a.resp, "stop")
		}
		for _, p := range a.resp {
			if p == nil || p.DomainEntry == nil {
				k.Fail("C24", "incomplete-answer", "a request in progress is answered incompletely when the server is asked to stop")
				continue
			}
			if acc, _, _ := clientAccepts(p); !acc {
				k.Fail("C24", "wrong-answer", "an answer given while the server stops does not verify")
			}
		}
	}
	x.calmAfterLife()
}

// stop sends the signal and waits for the end of the process.
func (x *cmdRun) stop(when string, starting bool) {
	k, r := x.k, x.r
	sig := []os.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)]
	if !k.Targets("C24") && r.Chance(1, 2) {
		x.powerLoss()
		return
	}
	if q := k.Rand(fmt.Sprintf("slow clients of %d", x.node)); !starting && k.Targets("C24") && q.Chance(1, 2) {
		d := time.Duration(q.Intn(4000)) * time.Millisecond
		if when == inProgress {
			d = time.Duration(q.Intn(20)) * time.Millisecond
		}
		x.slowClients(q)
		x.wait(d, nil)
		k.Cover("stop-slow-clients")
	}
	k.Tracef("SIGNAL %v (%s)", sig, when)
	handled := signal.VerifHandled(sig)
	if !handled {
		if !starting {
			k.Fail("C24", "unhandled", "the map server does not handle signal %v", sig)
		}
		x.powerLoss()
		return
	}
	at := runtime.VerifMono()
	signal.VerifDeliver(sig)
	o := k.WaitUntil(graceTime, func() bool { return x.exited || runtime.VerifDead(x.node) })
	k.Check()
	if o == kit.Panicked {
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("C24", "panic:"+wh, "asked to stop (%s), the map server panics: %s", when, m)
		x.loose = true
		return
	}
	if !x.exited {
		k.Fail("C24", "no-exit", "asked to stop (%s), the map server still runs after %s (%s)", when, graceTime, o)
		k.Kill(x.node)
		x.loose = true
		return
	}
	k.Tracef("stopped after %s with status %d", time.Duration(x.exitAt-at), x.code)
	if x.code != 0 && !starting {
		k.Fail("C24", "status", "asked to stop (%s), the map server exits with status %d", when, x.code)
	}
	k.Cover("stop")
	if starting {
		x.loose = true
		k.Cover("stop-early")
	}
}

const inProgress = "queries in progress"

// slowClients opens connections to the API that are not used up: clients that send nothing, a part
// of a request only, or a whole one whose answer they do not read.
func (x *cmdRun) slowClients(r *kit.Rng) {
	k := x.k
	for i := r.Range(1, 4); i > 0; i-- {
		kind := r.Intn(5)
		req := "GET /getproof?domain=" + url.QueryEscape(x.pick(r)) + " HTTP/1.1\r\nHost: x\r\n"
		switch kind {
		case 0:
			req = ""
		case 1:
			req = req[:r.Range(1, len(req))]
		case 2:
			req += "Content-Length: 1000\r\n\r\nabc"
		case 3:
			req += "\r\n"
		case 4:
			req += "\r\n" + req[:r.Range(1, len(req))]
		}
		k.Tracef("slow client: %q", req)
		k.Go(x.cl, "slow client", func() {
			c, err := net.Dial("tcp", apiAddr)
			if err != nil {
				return
			}
			defer c.Close()
			if req != "" {
				c.Write([]byte(req))
			}
			if kind == 3 {
				time.Sleep(time.Hour)
			}
			io.Copy(io.Discard, c)
		})
	}
}

// refresh brings the books up to date with what cycles stored.
func (x *cmdRun) refresh() []int {
	after := x.readSizes()
	for i, l := range x.logs {
		for _, e := range l.entries[x.sizes[i]:after[i]] {
			x.m.addLeaf(e.cert)
			x.loose = true
		}
	}
	x.sizes = after
	return after
}

// calmAfterLife brings the books up to date after a process ended.
func (x *cmdRun) calmAfterLife() {
	k := x.k
	k.Quiet(true)
	x.stallD, x.nStall = 0, 0
	x.refresh()
	root, got, err := x.auditTree(x.keys)
	k.Check()
	if err != nil {
		k.Fail("", "corrupt", "after the process ended, the published root %x cannot be served: %v", short(root), err)
		k.Stop()
	}
	if !eqMapping(got, x.last) {
		x.loose = true
	}
	x.reg.add(got)
	x.last = got
}

// insertPolicy runs the command that stores a policy certificate.
func (x *cmdRun) insertPolicy() {
	k, r := x.k, x.r
	i := r.Intn(len(x.u.pols))
	p := x.u.pols[i]
	x.refresh()
	for try := 0; ; try++ {
		nf := k.NFaults()
		k.Quiet(try > 2 || !x.faulty)
		x.launch("-policyFile", fmt.Sprintf("/data/policy%d.json", i), "/data/conf.json")
		x.wait(time.Hour, nil)
		k.Quiet(true)
		k.Check()
		if !x.exited {
			k.Fail("", "policy-hang", "inserting a policy certificate does not end")
			k.Stop()
		}
		if x.code == 0 {
			break
		}
		k.Cover("policy-failed")
		if k.NFaults() == nf {
			k.Fail("", "policy-error", "inserting a policy certificate fails with status %d although nothing went wrong", x.code)
			k.Stop()
		}
	}
	x.m.addPolicy(p)
	k.Cover("policy-inserted")
	root, got, err := x.auditTree(x.keys)
	k.Check()
	if err != nil {
		k.Fail("", "corrupt", "after inserting a policy certificate, the published root %x cannot be served: %v", short(root), err)
		k.Stop()
	}
	if w := x.m.mapping(); !x.loose && !eqMapping(w, got) {
		k.Fail("", "policy-content", "after the command that inserts a policy succeeded the published map is wrong: %s", x.u.diffMapping(w, got))
		k.Stop()
	}
	x.reg.add(got)
	x.last = got
}
