package build

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const GoRoot = "/opt/veriftools/go1.25.14"

// Result describes a built simulation.
type Result struct {
	Bin         string
	Small       string // variant with small batch and chunk sizes; same as Bin if it cannot be built
	SourceHash  string
	Files       int
	YieldPoints int
}

func hashTree(h interface{ Write([]byte) (int, error) }, root string, keep func(rel string) bool) error {
	var names []string
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if skipDirs[d.Name()] && p != root {
				return filepath.SkipDir
			}
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if d.Type().IsRegular() && keep(rel) {
			names = append(names, rel)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(root, n))
		if err != nil {
			return err
		}
		fmt.Fprintf(h.(interface {
			Write([]byte) (int, error)
		}), "%s %d\n", n, len(b))
		h.Write(b)
	}
	return nil
}

// Build compiles the simulation of the tree in repo. The binary is reused when neither the tree nor
// the machinery changed since it was built.
func Build(repo, verif string) (*Result, error) {
	h := sha256.New()
	if err := hashTree(h, repo, func(r string) bool {
		return (strings.HasSuffix(r, ".go") && !isTestFile(r)) || r == "go.mod" || r == "go.sum" || needed(r)
	}); err != nil {
		return nil, err
	}
	for _, d := range []string{"goroot", "simsrc", "tool/build"} {
		if err := hashTree(h, filepath.Join(verif, d), func(string) bool { return true }); err != nil {
			return nil, err
		}
	}
	sum := hex.EncodeToString(h.Sum(nil))[:16]
	cache := filepath.Join(verif, ".cache", "sim-"+sum)
	res := &Result{Bin: filepath.Join(cache, "simrun"), SourceHash: sum}
	if b, err := os.ReadFile(filepath.Join(cache, "build.json")); err == nil {
		if json.Unmarshal(b, res) == nil {
			if _, err := os.Stat(res.Bin); err == nil {
				return res, nil
			}
		}
	}
	old, _ := filepath.Glob(filepath.Join(verif, ".cache", "sim-*"))
	if len(old) > 3 {
		sort.Slice(old, func(i, j int) bool {
			a, _ := os.Stat(old[i])
			b, _ := os.Stat(old[j])
			return a != nil && b != nil && a.ModTime().Before(b.ModTime())
		})
		for _, o := range old[:len(old)-3] {
			os.RemoveAll(o)
		}
	}
	if err := os.MkdirAll(cache, 0o755); err != nil {
		return nil, err
	}
	scratch, err := os.MkdirTemp("", "verif-build-")
	if err != nil {
		return nil, err
	}
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(scratch)
	} else {
		fmt.Fprintln(os.Stderr, "scratch:", scratch)
	}
	m, err := Overlay(GoRoot, verif, filepath.Join(scratch, "goroot"))
	if err != nil {
		return nil, err
	}
	ov := filepath.Join(scratch, "overlay.json")
	if err := writeOverlay(m, ov); err != nil {
		return nil, err
	}
	compile := func(src, bin string, small bool) error {
		files, points, err := CopyRepo(repo, src, small)
		if err != nil {
			return err
		}
		if !small {
			res.Files, res.YieldPoints = files, points
		}
		if err := shimUnix(src); err != nil {
			fmt.Fprintln(os.Stderr, "golang.org/x/sys/unix is not simulated:", err)
		}
		if err := copyHarness(filepath.Join(verif, "simsrc"), filepath.Join(src, "verifsim")); err != nil {
			return err
		}
		cmd := exec.Command(filepath.Join(GoRoot, "bin", "go"), "build", "-mod=mod", "-trimpath", "-overlay", ov, "-tags", "faketime",
			"-ldflags=-s=false", "-o", bin, "./verifsim")
		cmd.Dir = src
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod",
			"GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off", "GOROOT="+GoRoot)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Run(); err != nil {
			s := out.String()
			if len(s) > 6000 {
				s = s[:6000]
			}
			return fmt.Errorf("go build: %v\n%s", err, s)
		}
		return nil
	}
	if err := compile(filepath.Join(scratch, "src"), res.Bin, false); err != nil {
		return nil, err
	}
	res.Small = res.Bin + "-small"
	if err := compile(filepath.Join(scratch, "small"), res.Small, true); err != nil {
		fmt.Fprintln(os.Stderr, "variant with small sizes left out:", err)
		res.Small = res.Bin
	}
	b, _ := json.Marshal(res)
	return res, os.WriteFile(filepath.Join(cache, "build.json"), b, 0o644)
}

// copyHarness copies *.go.txt (or .go) files, so that the harness is invisible to other go tooling.
func copyHarness(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

// shimUnix makes the module in src use a copy of golang.org/x/sys whose system calls reach the
// simulated file system.
func shimUnix(src string) error {
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return err
	}
	const name = "golang.org/x/sys"
	version := ""
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) > 0 && f[0] == "require" {
			f = f[1:]
		}
		if len(f) >= 2 && f[0] == name {
			version = f[1]
		}
		if len(f) > 0 && f[0] == "replace" && len(f) > 1 && f[1] == name {
			return fmt.Errorf("the module already replaces it")
		}
	}
	if version == "" {
		return nil // not used
	}
	cmd := exec.Command(filepath.Join(GoRoot, "bin", "go"), "env", "GOMODCACHE")
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local")
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	from := filepath.Join(strings.TrimSpace(string(out)), name+"@"+version)
	to := src + "-xsys"
	if err := copyHarness(from, to); err != nil {
		return err
	}
	asm := filepath.Join(to, "unix", "asm_linux_amd64.s")
	b, err := os.ReadFile(asm)
	if err != nil {
		return err
	}
	s := string(b)
	for _, cut := range []string{
		"TEXT ·Syscall(SB),NOSPLIT,$0-56\n	JMP	syscall·Syscall(SB)\n",
		"TEXT ·Syscall6(SB),NOSPLIT,$0-80\n	JMP	syscall·Syscall6(SB)\n",
	} {
		if strings.Count(s, cut) != 1 {
			return fmt.Errorf("unexpected assembly in %s", asm)
		}
		s = strings.Replace(s, cut, "", 1)
	}
	if err := os.WriteFile(asm, []byte(s), 0o644); err != nil {
		return err
	}
	gc := filepath.Join(to, "unix", "syscall_unix_gc.go")
	if b, err = os.ReadFile(gc); err != nil {
		return err
	}
	s = string(b)
	for _, f := range [][2]string{
		{"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno)\n",
			"//go:uintptrescapes\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {\n	if r1, r2, err, ok := syscall.VerifSyscall(trap, a1, a2, a3, 0, 0, 0); ok {\n		return r1, r2, err\n	}\n	return syscall.Syscall(trap, a1, a2, a3)\n}\n"},
		{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno)\n",
			"//go:uintptrescapes\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {\n	if r1, r2, err, ok := syscall.VerifSyscall(trap, a1, a2, a3, a4, a5, a6); ok {\n		return r1, r2, err\n	}\n	return syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n}\n"},
	} {
		if strings.Count(s, "\n"+f[0]) != 1 {
			return fmt.Errorf("unexpected declarations in %s", gc)
		}
		s = strings.Replace(s, "\n"+f[0], "\n"+f[1], 1)
	}
	s += "\nfunc init() { syscall.VerifShim = true }\n"
	if err := os.WriteFile(gc, []byte(s), 0o644); err != nil {
		return err
	}
	mod = append(mod, []byte("\nreplace "+name+" => "+to+"\n")...)
	return os.WriteFile(filepath.Join(src, "go.mod"), mod, 0o644)
}
