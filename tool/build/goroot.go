// Package build turns a working tree of netsec-ethz/fpki into a simulated binary: it instruments
// a scratch copy of the sources, overlays the Go runtime with the deterministic scheduler, and
// compiles the harness against both.
package build

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type edit struct{ old, new string }

type patch struct {
	file  string // relative to GOROOT/src
	edits []edit
}

var patches = []patch{
	{"runtime/proc.go", []edit{
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"	now, pollUntil, _ := pp.timers.check(0, nil)\n\n	// Try to schedule the trace reader.",
			"	now, pollUntil, _ := pp.timers.check(0, nil)\n\n	if sim.on {\n		if gp := simFindRunnable(pp); gp != nil {\n			return gp, false, false\n		}\n		goto top\n	}\n\n	// Try to schedule the trace reader."},
		{"	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.simNode = callergp.simNode\n	newg.simPrio = 0\n"},
		// Polling loops pass the time, as they do in reality.
		{"	checkTimeouts()\n	mcall(gosched_m)\n}\n\n// goschedguarded", "	if sim.on {\n		faketime += 10000\n	}\n	checkTimeouts()\n	mcall(gosched_m)\n}\n\n// goschedguarded"},
	}},
	{"runtime/runtime2.go", []edit{
		{"	// valgrindStackID is used to track what memory", "	simNode uint32\n	simPrio uint32\n\n	// valgrindStackID is used to track what memory"},
	}},
	{"runtime/rand.go", []edit{
		{"	globalRand.state.Init(*seed)\n	clear(seed[:])\n\n	if startupRand", "	for i := range seed {\n		seed[i] = byte(i*7 + 3)\n	}\n	globalRand.state.Init(*seed)\n	clear(seed[:])\n\n	if startupRand"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if sim.on {\n		return simRand()\n	}\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if sim.on {\n		return uint32(simCheapRand() >> 32)\n	}\n"},
	}},
	{"runtime/mgc.go", []edit{
		{"\nfunc GC() {\n", "\nfunc GC() {\n	if sim.on {\n		return\n	}\n"},
	}},
	{"runtime/mstats.go", []edit{
		{"\nfunc ReadMemStats(m *MemStats) {\n", "\nfunc ReadMemStats(m *MemStats) {\n	if sim.on {\n		*m = MemStats{}\n		return\n	}\n"},
	}},
	{"runtime/pprof/pprof.go", []edit{
		{"\nfunc (p *Profile) WriteTo(w io.Writer, debug int) error {\n", "\n//go:linkname verifSimOn os.verifSimOn\nfunc verifSimOn() bool\n\nfunc (p *Profile) WriteTo(w io.Writer, debug int) error {\n	if verifSimOn() {\n		_, err := io.WriteString(w, \"profile \"+p.name+\"\\n\")\n		return err\n	}\n"},
		{"\nfunc WriteHeapProfile(w io.Writer) error {\n", "\nfunc WriteHeapProfile(w io.Writer) error {\n	if verifSimOn() {\n		_, err := io.WriteString(w, \"heap\\n\")\n		return err\n	}\n"},
	}},
	{"runtime/time.go", []edit{
		{"	isFake bool         // timer is using fake time; immutable; can be read without lock", "	simNode uint32\n	isFake bool         // timer is using fake time; immutable; can be read without lock"},
		{"	t.timer.init(nil, nil)\n	t.trace(\"new\")\n", "	t.timer.init(nil, nil)\n	t.timer.simNode = getg().simNode\n	t.trace(\"new\")\n"},
		{"\n	f(arg, seq, delay)\n", "\n	simRunTimer(t.simNode, f, arg, seq, delay)\n"},
	}},
	{"runtime/select.go", []edit{
		{"j := cheaprandn(uint32(norder + 1))", "j := simSelect(uint32(norder + 1))"},
	}},
	{"runtime/panic.go", []edit{
		{"	preprintpanics(&p)\n\n	fatalpanic(&p)", "	preprintpanics(&p)\n\n	if simFatalPanic(&p) {\n		return\n	}\n	fatalpanic(&p)"},
	}},
	{"crypto/internal/sysrand/rand.go", []edit{
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n	for i := 0; i < len(b); {\n		v := verifRand()\n		for k := 0; k < 8 && i < len(b); k++ {\n			b[i] = byte(v)\n			v >>= 8\n			i++\n		}\n	}\n}\n\n//go:linkname verifRand\nfunc verifRand() uint64\n\nfunc origRead(b []byte) {\n"},
	}},
	{"os/proc.go", []edit{
		{"	if code == 0 && testlog.PanicOnExit0() {", "	if VerifExit != nil {\n		VerifExit(code)\n	}\n	if code == 0 && testlog.PanicOnExit0() {"},
	}},
	{"os/signal/signal.go", []edit{
		{"					if watchSignalLoop != nil {", "					if watchSignalLoop != nil && !verifSimOn() {"},
		{"	handlers.Unlock()\n\n	signalWaitUntilIdle()\n", "	handlers.Unlock()\n\n	if !verifSimOn() {\n		signalWaitUntilIdle()\n	}\n"},
	}},
	{"os/signal/signal_unix.go", []edit{
		{"	signal_enable(uint32(sig))", "	if verifSimOn() {\n		return\n	}\n	signal_enable(uint32(sig))"},
		{"	signal_disable(uint32(sig))", "	if verifSimOn() {\n		return\n	}\n	signal_disable(uint32(sig))"},
		{"	signal_ignore(uint32(sig))", "	if verifSimOn() {\n		return\n	}\n	signal_ignore(uint32(sig))"},
	}},
	{"net/dial.go", []edit{
		{"		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())\n	if !deadline.IsZero() {\n		testHookStepTime()\n		if d, ok := ctx.Deadline(); !ok || deadline.Before(d) {\n			subCtx, cancel := context.WithDeadline(ctx, deadline)\n			defer cancel()\n			ctx = subCtx\n		}\n	}\n	if oldCancel := d.Cancel; oldCancel != nil {",
			"		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())\n	if !deadline.IsZero() {\n		testHookStepTime()\n		if d, ok := ctx.Deadline(); !ok || deadline.Before(d) {\n			subCtx, cancel := context.WithDeadline(ctx, deadline)\n			defer cancel()\n			ctx = subCtx\n		}\n	}\n	if VerifDial != nil {\n		return VerifDial(ctx, network, address)\n	}\n	if oldCancel := d.Cancel; oldCancel != nil {"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if VerifListen != nil {\n		return VerifListen(network, address)\n	}\n"},
	}},
	{"syscall/zsyscall_linux_amd64.go", []edit{
		fsHook("openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)", "if f, e, ok := VerifFS.Open(path, flags, mode); ok {\n			return f, e\n		}"),
		fsHook("unlinkat(dirfd int, path string, flags int) (err error)", "if e, ok := VerifFS.Unlink(path, flags&0x200 != 0); ok {\n			return e\n		}"),
		fsHook("Mkdirat(dirfd int, path string, mode uint32) (err error)", "if e, ok := VerifFS.Mkdir(path, mode); ok {\n			return e\n		}"),
		fsHook("Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", "if e, ok := VerifFS.Rename(oldpath, newpath); ok {\n			return e\n		}"),
		fsHook("fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", "if e, ok := VerifFS.Stat(path, stat, flags&0x100 != 0); ok {\n			return e\n		}"),
		fsHook("fchmodat(dirfd int, path string, mode uint32) (err error)", "if e, ok := VerifFS.Chmod(path, mode); ok {\n			return e\n		}"),
		fsHook("read(fd int, p []byte) (n int, err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Read(fd, p, -1)\n		}"),
		fsHook("pread(fd int, p []byte, offset int64) (n int, err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Read(fd, p, offset)\n		}"),
		fsHook("write(fd int, p []byte) (n int, err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Write(fd, p, -1)\n		}"),
		fsHook("pwrite(fd int, p []byte, offset int64) (n int, err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Write(fd, p, offset)\n		}"),
		fsHook("Close(fd int) (err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Close(fd)\n		}"),
		fsHook("Fstat(fd int, stat *Stat_t) (err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Fstat(fd, stat)\n		}"),
		fsHook("Getdents(fd int, buf []byte) (n int, err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Getdents(fd, buf)\n		}"),
		fsHook("Fsync(fd int) (err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Fsync(fd)\n		}"),
		fsHook("Ftruncate(fd int, length int64) (err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Ftruncate(fd, length)\n		}"),
		fsHook("Seek(fd int, offset int64, whence int) (off int64, err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Seek(fd, offset, whence)\n		}"),
		fsHook("Fchmod(fd int, mode uint32) (err error)", "if VerifFS.Owns(fd) {\n			return VerifFS.Fchmod(fd, mode)\n		}"),
	}},
	{"internal/sync/mutex.go", []edit{
		{"	// Fast path: grab unlocked mutex.\n	if atomic.CompareAndSwapInt32(&m.state, 0, mutexLocked) {\n		if race.Enabled {", "	verifLockStep()\n	// Fast path: grab unlocked mutex.\n	if atomic.CompareAndSwapInt32(&m.state, 0, mutexLocked) {\n		if race.Enabled {"},
	}},
	{"internal/syscall/unix/at.go", []edit{
		atHook("Unlinkat(dirfd int, path string, flags int) error", "if p, ok := syscall.VerifAt(dirfd, path); ok {\n		if flags&0x200 != 0 {\n			return syscall.Rmdir(p)\n		}\n		return syscall.Unlink(p)\n	}"),
		atHook("Openat(dirfd int, path string, flags int, perm uint32) (int, error)", "if p, ok := syscall.VerifAt(dirfd, path); ok {\n		return syscall.Open(p, flags, perm)\n	}"),
		atHook("Mkdirat(dirfd int, path string, mode uint32) error", "if p, ok := syscall.VerifAt(dirfd, path); ok {\n		return syscall.Mkdir(p, mode)\n	}"),
		atHook("Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error", "if p, ok := syscall.VerifAt(olddirfd, oldpath); ok {\n		q, _ := syscall.VerifAt(newdirfd, newpath)\n		return syscall.Rename(p, q)\n	}"),
	}},
	{"internal/syscall/unix/at_fstatat.go", []edit{
		atHook("Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error", "if p, ok := syscall.VerifAt(dirfd, path); ok {\n		if flags&0x100 != 0 {\n			return syscall.Lstat(p, stat)\n		}\n		return syscall.Stat(p, stat)\n	}"),
	}},
}

func fsHook(sig, body string) edit {
	return edit{"\nfunc " + sig + " {\n", "\nfunc " + sig + " {\n	if VerifFS != nil {\n		" + body + "\n	}\n"}
}

func atHook(sig, body string) edit {
	return edit{"\nfunc " + sig + " {\n", "\nfunc " + sig + " {\n	" + body + "\n"}
}

func apply(src string, p patch) (string, error) {
	for _, e := range p.edits {
		if strings.Count(src, e.old) != 1 {
			return "", fmt.Errorf("GOROOT patch for %s: anchor %.60q found %d times", p.file, e.old, strings.Count(src, e.old))
		}
		src = strings.Replace(src, e.old, e.new, 1)
	}
	return src, nil
}

// Overlay writes the patched standard library files below out and returns the overlay map.
func Overlay(goroot, verifDir, out string) (map[string]string, error) {
	m := map[string]string{}
	write := func(rel, content string) error {
		dst := filepath.Join(out, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		m[filepath.Join(goroot, "src", rel)] = dst
		return os.WriteFile(dst, []byte(content), 0o644)
	}
	for _, p := range patches {
		if len(p.edits) == 0 {
			continue
		}
		b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
		if err != nil {
			return nil, err
		}
		s, err := apply(string(b), p)
		if err != nil {
			return nil, err
		}
		if err := write(p.file, s); err != nil {
			return nil, err
		}
	}
	// Whole files: <dir>__<name>.go -> <dir>/<name>.go ("__" stands for a slash).
	files, err := filepath.Glob(filepath.Join(verifDir, "goroot", "*.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		rel := strings.TrimSuffix(strings.ReplaceAll(filepath.Base(f), "__", "/"), ".txt")
		if err := write(rel, string(b)); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func writeOverlay(m map[string]string, file string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}
