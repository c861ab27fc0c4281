// Package simfs is the simulated file system: volatile and durable contents, errors, short writes,
// full disks and crashes, below the system-call wrappers of package syscall.
package simfs

import (
	"encoding/binary"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/verifsim/kit"
	"runtime"
)

// FS owns every path below its mounts.
type FS struct {
	k      *kit.Kit
	root   *inode
	mounts []string
	fds    map[int]*file
	next   int
	ino    uint64

	// SiteOf returns the fault site of a path ("" for no faults).
	SiteOf func(path string) string
	// FocusWord gives the temporary files with this word in their names sites of their own.
	FocusWord string
	// KillClients lets faults crash the node doing the operation.
	KillClients bool
	// OnOp is told about every completed mutating operation.
	OnOp func(op, path string)
	Ops  int
}

type inode struct {
	ino  uint64
	dir  map[string]*inode // entries now
	ddir map[string]*inode // entries that survive a crash
	data []byte
	// dur is the content that survives a crash of the machine.
	dur   []byte
	mode  uint32
	mtime int64
	isDir bool
}

type file struct {
	in    *inode
	path  string
	pos   int64
	flags int
	node  uint32
	list  []string
	lpos  int
}

const fdBase = 1 << 20

// New installs a simulated file system over the given mount points.
func New(k *kit.Kit, mounts ...string) *FS {
	f := &FS{k: k, fds: map[int]*file{}, next: fdBase, mounts: mounts}
	f.root = f.newDir()
	for _, m := range mounts {
		f.MkdirAll(m)
	}
	syscall.VerifFS = f
	k.OnKill(f.killNode)
	return f
}

func (f *FS) newDir() *inode {
	f.ino++
	return &inode{ino: f.ino, isDir: true, dir: map[string]*inode{}, ddir: map[string]*inode{}, mode: 0o755}
}

func (f *FS) owns(p string) (string, bool) {
	if len(p) == 0 || p[0] != '/' {
		return p, false
	}
	p = path.Clean(p)
	for _, m := range f.mounts {
		if p == m || strings.HasPrefix(p, m+"/") {
			return p, true
		}
	}
	return p, false
}

func (f *FS) lookup(p string) (*inode, *inode, string) {
	cur := f.root
	parts := strings.Split(strings.Trim(p, "/"), "/")
	if p == "/" {
		return nil, f.root, ""
	}
	for i, c := range parts {
		if !cur.isDir {
			return nil, nil, ""
		}
		nx := cur.dir[c]
		if i == len(parts)-1 {
			return cur, nx, c
		}
		if nx == nil {
			return nil, nil, ""
		}
		cur = nx
	}
	return nil, nil, ""
}

// MkdirAll creates a directory (harness).
func (f *FS) MkdirAll(p string) {
	cur := f.root
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if cur.dir[c] == nil {
			cur.dir[c] = f.newDir()
			cur.ddir[c] = cur.dir[c]
		}
		cur = cur.dir[c]
	}
}

// Put writes a durable file (harness).
func (f *FS) Put(p string, data []byte) {
	f.MkdirAll(path.Dir(p))
	d, in, name := f.lookup(p)
	if in == nil {
		f.ino++
		in = &inode{ino: f.ino, mode: 0o644}
		d.dir[name] = in
		d.ddir[name] = in
	}
	in.data = append([]byte(nil), data...)
	in.dur = append([]byte(nil), data...)
}

// Get reads a file (harness).
func (f *FS) Get(p string) ([]byte, bool) {
	_, in, _ := f.lookup(p)
	if in == nil || in.isDir {
		return nil, false
	}
	return append([]byte(nil), in.data...), true
}

// Remove deletes a file (harness).
func (f *FS) Remove(p string) {
	d, in, name := f.lookup(p)
	if in != nil {
		delete(d.dir, name)
		delete(d.ddir, name)
	}
}

// List returns the names in a directory, sorted (harness).
func (f *FS) List(p string) []string {
	_, in, _ := f.lookup(p)
	if in == nil || !in.isDir {
		return nil
	}
	return names(in)
}

func names(in *inode) []string {
	l := make([]string, 0, len(in.dir))
	for n := range in.dir {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (f *FS) killNode(n uint32) {
	for fd, x := range f.fds {
		if x.node == n {
			delete(f.fds, fd)
		}
	}
}

// OpenFDs counts the descriptors a node holds.
func (f *FS) OpenFDs(n uint32) (c int) {
	for _, x := range f.fds {
		if x.node == n {
			c++
		}
	}
	return
}

// PowerLoss keeps only durable state: synced contents and directory entries; un-synced file
// contents survive as a prefix of seeded length. (Rename is atomic and, as on the journaling file
// systems deployments use, ordered with respect to itself; its durability needs no fsync here.)
func (f *FS) PowerLoss() {
	r := f.k.Rand("powerloss")
	var walk func(in *inode)
	walk = func(in *inode) {
		if in.isDir {
			for _, n := range names(in) {
				walk(in.dir[n])
			}
			return
		}
		if string(in.data) != string(in.dur) {
			keep := in.dur
			if len(in.data) > len(in.dur) && strings.HasPrefix(string(in.data), string(in.dur)) {
				keep = in.data[:len(in.dur)+r.Intn(len(in.data)-len(in.dur)+1)]
			} else if r.Chance(1, 2) {
				keep = in.data[:r.Intn(len(in.data)+1)]
			}
			in.data = append([]byte(nil), keep...)
			in.dur = append([]byte(nil), keep...)
		}
	}
	walk(f.root)
}

var errs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.EACCES}

func (f *FS) fault(op, p string, kinds ...kit.KindProb) *kit.Fault {
	f.Ops++
	if f.SiteOf == nil || runtime.VerifNode() == 0 {
		return nil
	}
	s := f.SiteOf(p)
	if s == "" {
		return nil
	}
	if f.FocusWord != "" && s == "tmp" {
		if i := strings.LastIndex(p, f.FocusWord); i >= 0 && (i == 0 || !strings.HasSuffix(p[:i], "_")) {
			s += ".focus"
		}
	}
	if f.KillClients {
		kinds = append(kinds, kit.KindProb{Kind: "crash-before", Weight: 1}, kit.KindProb{Kind: "crash-after", Weight: 1})
	}
	x := f.k.Draw(s+"."+op, kinds...)
	if x != nil {
		f.k.Tracef("  fs %s %s", op, p)
		if x.Kind == "crash-before" {
			f.k.Kill(runtime.VerifNode())
		}
	}
	return x
}

func (f *FS) after(x *kit.Fault, op, p string) {
	if f.OnOp != nil {
		f.OnOp(op, p)
	}
	if x != nil && x.Kind == "crash-after" {
		f.k.Kill(runtime.VerifNode())
	}
}

func (f *FS) Open(p string, flags int, mode uint32) (int, error, bool) {
	p, ok := f.owns(p)
	if !ok {
		return 0, nil, false
	}
	d, in, name := f.lookup(p)
	if d == nil && in == nil {
		return -1, syscall.ENOENT, true
	}
	var x *kit.Fault
	if in == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT, true
		}
		x = f.fault("create", p, kit.KindProb{Kind: "enospc", Weight: 2}, kit.KindProb{Kind: "emfile", Weight: 1}, kit.KindProb{Kind: "eacces", Weight: 1})
		if e := errOf(x); e != 0 {
			return -1, e, true
		}
		f.ino++
		in = &inode{ino: f.ino, mode: mode & 0o777, mtime: time.Now().UnixNano()}
		d.dir[name] = in
		d.ddir[name] = in
		f.after(x, "create", p)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST, true
		}
		if flags&syscall.O_DIRECTORY != 0 && !in.isDir {
			return -1, syscall.ENOTDIR, true
		}
		if in.isDir && flags&3 != 0 {
			return -1, syscall.EISDIR, true
		}
		x = f.fault("open", p, kit.KindProb{Kind: "eio", Weight: 2}, kit.KindProb{Kind: "emfile", Weight: 1}, kit.KindProb{Kind: "eacces", Weight: 1})
		if e := errOf(x); e != 0 {
			return -1, e, true
		}
		if flags&syscall.O_TRUNC != 0 && !in.isDir {
			in.data = nil
			f.after(x, "trunc", p)
		}
	}
	f.next++
	f.fds[f.next] = &file{in: in, path: p, flags: flags, node: runtime.VerifNode()}
	return f.next, nil, true
}

func errOf(x *kit.Fault) syscall.Errno {
	if x == nil {
		return 0
	}
	switch x.Kind {
	case "eio":
		return syscall.EIO
	case "enospc":
		return syscall.ENOSPC
	case "emfile":
		return syscall.EMFILE
	case "eacces":
		return syscall.EACCES
	}
	return 0
}

func (f *FS) Unlink(p string, dir bool) (error, bool) {
	p, ok := f.owns(p)
	if !ok {
		return nil, false
	}
	d, in, name := f.lookup(p)
	if in == nil || d == nil {
		return syscall.ENOENT, true
	}
	if in.isDir != dir {
		if dir {
			return syscall.ENOTDIR, true
		}
		return syscall.EISDIR, true
	}
	if in.isDir && len(in.dir) > 0 {
		return syscall.ENOTEMPTY, true
	}
	x := f.fault("unlink", p, kit.KindProb{Kind: "eio", Weight: 1}, kit.KindProb{Kind: "eacces", Weight: 1})
	if e := errOf(x); e != 0 {
		return e, true
	}
	delete(d.dir, name)
	delete(d.ddir, name)
	f.after(x, "unlink", p)
	return nil, true
}

func (f *FS) Mkdir(p string, mode uint32) (error, bool) {
	p, ok := f.owns(p)
	if !ok {
		return nil, false
	}
	d, in, name := f.lookup(p)
	if in != nil {
		return syscall.EEXIST, true
	}
	if d == nil {
		return syscall.ENOENT, true
	}
	d.dir[name] = f.newDir()
	d.ddir[name] = d.dir[name]
	return nil, true
}

func (f *FS) Rename(o, n string) (error, bool) {
	o, ok1 := f.owns(o)
	n, ok2 := f.owns(n)
	if ok1 != ok2 {
		return syscall.EXDEV, true
	}
	if !ok1 {
		return nil, false
	}
	od, in, on := f.lookup(o)
	nd, tgt, nn := f.lookup(n)
	if in == nil || nd == nil {
		return syscall.ENOENT, true
	}
	if tgt != nil && tgt.isDir {
		return syscall.EISDIR, true
	}
	x := f.fault("rename", n, kit.KindProb{Kind: "eio", Weight: 1}, kit.KindProb{Kind: "enospc", Weight: 1})
	if e := errOf(x); e != 0 {
		return e, true
	}
	delete(od.dir, on)
	delete(od.ddir, on)
	nd.dir[nn] = in
	nd.ddir[nn] = in
	f.after(x, "rename", n)
	return nil, true
}

func fill(in *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = in.ino
	st.Nlink = 1
	st.Size = int64(len(in.data))
	st.Mode = in.mode | syscall.S_IFREG
	if in.isDir {
		st.Mode = in.mode | syscall.S_IFDIR
	}
	st.Mtim = syscall.NsecToTimespec(in.mtime)
	st.Blksize = 4096
}

func (f *FS) Stat(p string, st *syscall.Stat_t, nofollow bool) (error, bool) {
	p, ok := f.owns(p)
	if !ok {
		return nil, false
	}
	_, in, _ := f.lookup(p)
	if in == nil {
		return syscall.ENOENT, true
	}
	fill(in, st)
	return nil, true
}

func (f *FS) Chmod(p string, mode uint32) (error, bool) {
	p, ok := f.owns(p)
	if !ok {
		return nil, false
	}
	_, in, _ := f.lookup(p)
	if in == nil {
		return syscall.ENOENT, true
	}
	in.mode = mode & 0o7777
	return nil, true
}

func (f *FS) Owns(fd int) bool { return fd > fdBase }

// Path returns the path a descriptor was opened with.
func (f *FS) Path(fd int) (string, bool) {
	x := f.fds[fd]
	if x == nil {
		return "", false
	}
	return x.path, true
}

func (f *FS) Read(fd int, b []byte, off int64) (int, error) {
	x := f.fds[fd]
	if x == nil {
		return -1, syscall.EBADF
	}
	if x.in.isDir {
		return -1, syscall.EISDIR
	}
	o := off
	if off < 0 {
		o = x.pos
	}
	if o >= int64(len(x.in.data)) || len(b) == 0 {
		return 0, nil
	}
	fa := f.fault("read", x.path, kit.KindProb{Kind: "eio", Weight: 1}, kit.KindProb{Kind: "short", Weight: 2, ArgMin: 1, ArgMax: 4096, LogScale: true})
	if e := errOf(fa); e != 0 {
		return -1, e
	}
	n := len(b)
	if fa != nil && fa.Kind == "short" && n > int(fa.Arg) {
		n = int(fa.Arg)
	}
	n = copy(b[:n], x.in.data[o:])
	if off < 0 {
		x.pos += int64(n)
	}
	if fa != nil {
		f.after(fa, "read", x.path)
	}
	return n, nil
}

func (f *FS) Write(fd int, b []byte, off int64) (int, error) {
	x := f.fds[fd]
	if x == nil || x.flags&3 == 0 {
		return -1, syscall.EBADF
	}
	fa := f.fault("write", x.path, kit.KindProb{Kind: "eio", Weight: 1}, kit.KindProb{Kind: "enospc", Weight: 3}, kit.KindProb{Kind: "short", Weight: 2, ArgMin: 1, ArgMax: 4096, LogScale: true},
		kit.KindProb{Kind: "torn", Weight: 2, ArgMin: 0, ArgMax: 4096, LogScale: true})
	n := len(b)
	if fa != nil {
		switch fa.Kind {
		case "short":
			if n > int(fa.Arg) {
				n = int(fa.Arg)
			}
		case "torn": // part of the data reaches the file, then the disk is full
			if n > int(fa.Arg) {
				n = int(fa.Arg)
			}
			f.put(x, b[:n], off)
			return -1, syscall.ENOSPC
		}
	}
	if e := errOf(fa); e != 0 {
		return -1, e
	}
	f.put(x, b[:n], off)
	f.after(fa, "write", x.path)
	return n, nil
}

func (f *FS) put(x *file, b []byte, off int64) {
	o := off
	if off < 0 {
		o = x.pos
		if x.flags&syscall.O_APPEND != 0 {
			o = int64(len(x.in.data))
		}
	}
	for int64(len(x.in.data)) < o {
		x.in.data = append(x.in.data, 0)
	}
	k := copy(x.in.data[o:], b)
	x.in.data = append(x.in.data, b[k:]...)
	if off < 0 {
		x.pos = o + int64(len(b))
	}
	x.in.mtime = time.Now().UnixNano()
}

func (f *FS) Close(fd int) error {
	x := f.fds[fd]
	if x == nil {
		return syscall.EBADF
	}
	delete(f.fds, fd)
	if x.flags&3 != 0 {
		fa := f.fault("close", x.path, kit.KindProb{Kind: "eio", Weight: 1})
		if e := errOf(fa); e != 0 {
			return e
		}
		f.after(fa, "close", x.path)
	}
	return nil
}

func (f *FS) Fstat(fd int, st *syscall.Stat_t) error {
	x := f.fds[fd]
	if x == nil {
		return syscall.EBADF
	}
	fill(x.in, st)
	return nil
}

func (f *FS) Getdents(fd int, buf []byte) (int, error) {
	x := f.fds[fd]
	if x == nil {
		return -1, syscall.EBADF
	}
	if !x.in.isDir {
		return -1, syscall.ENOTDIR
	}
	if x.list == nil {
		if e := errOf(f.fault("readdir", x.path, kit.KindProb{Kind: "eio", Weight: 1})); e != 0 {
			return -1, e
		}
		x.list = append([]string{".", ".."}, names(x.in)...)
	}
	n := 0
	for x.lpos < len(x.list) {
		nm := x.list[x.lpos]
		rl := (19 + len(nm) + 1 + 7) &^ 7
		if n+rl > len(buf) {
			break
		}
		typ, ino := byte(4), x.in.ino
		if c := x.in.dir[nm]; c != nil {
			ino = c.ino
			if !c.isDir {
				typ = 8
			}
		}
		b := buf[n : n+rl]
		for i := range b {
			b[i] = 0
		}
		binary.LittleEndian.PutUint64(b, ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(x.lpos+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(rl))
		b[18] = typ
		copy(b[19:], nm)
		n += rl
		x.lpos++
	}
	return n, nil
}

func (f *FS) Fsync(fd int) error {
	x := f.fds[fd]
	if x == nil {
		return syscall.EBADF
	}
	fa := f.fault("fsync", x.path, kit.KindProb{Kind: "eio", Weight: 1})
	if e := errOf(fa); e != 0 {
		return e
	}
	x.in.dur = append([]byte(nil), x.in.data...)
	f.after(fa, "fsync", x.path)
	return nil
}

func (f *FS) Ftruncate(fd int, n int64) error {
	x := f.fds[fd]
	if x == nil {
		return syscall.EBADF
	}
	for int64(len(x.in.data)) < n {
		x.in.data = append(x.in.data, 0)
	}
	x.in.data = x.in.data[:n]
	return nil
}

func (f *FS) Seek(fd int, off int64, whence int) (int64, error) {
	x := f.fds[fd]
	if x == nil {
		return -1, syscall.EBADF
	}
	switch whence {
	case 0:
		x.pos = off
	case 1:
		x.pos += off
	case 2:
		x.pos = int64(len(x.in.data)) + off
	}
	if x.in.isDir {
		x.lpos = int(x.pos)
	}
	return x.pos, nil
}

func (f *FS) Fchmod(fd int, mode uint32) error {
	x := f.fds[fd]
	if x == nil {
		return syscall.EBADF
	}
	x.in.mode = mode & 0o7777
	return nil
}

// ReadFile reads a file for the database server.
func (f *FS) ReadFile(p string) ([]byte, error) {
	if q, ok := f.owns(p); ok {
		if b, ok := f.Get(q); ok {
			return b, nil
		}
		return nil, syscall.ENOENT
	}
	return nil, syscall.ENOENT
}
