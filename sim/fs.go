package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS stands between the code under test and the real file system. Calls are
// performed for real inside the run's scratch directory, after the scheduler
// chose the moment and the tape chose a fault. File times come from the
// simulated clock. Outside of the scratch directory nothing can be changed:
// such calls are recorded and refused.
type FS struct {
	s       *Sim
	root    string
	inodes  map[uint64]*inode
	fds     map[int]*fdInfo
	last    time.Time // last mtime handed out: mtimes are unique
	dirs    map[string]*DirState
	access  []Access // of the current CLI operation, for containment
	inProbe bool
}

type inode struct {
	mtime time.Time
	dirty bool // written and not synced
}

type fdInfo struct {
	path  string
	write bool
	op    *Op
}

// Access is one recorded path access.
type Access struct {
	op    string
	path  string
	write bool
	err   error
	task  *Task
}

// DirState tracks disturbances of a cache directory.
type DirState struct {
	path        string
	disturbed   uint64 // sequence number of the last disturbance
	corrupted   uint64 // ... of the last outside change to file contents, or power loss
	everCorrupt bool
	removed     map[string]uint64 // file name -> sequence number of its outside removal
}

func newFS(s *Sim, root string) *FS {
	return &FS{s: s, root: root, inodes: map[uint64]*inode{}, fds: map[int]*fdInfo{}, dirs: map[string]*DirState{}}
}

func (f *FS) rel(p string) string {
	if p == f.root {
		return "$S"
	}
	if strings.HasPrefix(p, f.root+"/") {
		return "$S" + p[len(f.root):]
	}
	return p
}

func (f *FS) inside(p string) bool { return p == f.root || strings.HasPrefix(p, f.root+"/") }

func (f *FS) dirOf(p string) *DirState {
	for {
		if d := f.dirs[p]; d != nil {
			return d
		}
		n := filepath.Dir(p)
		if n == p || len(n) < len(f.root) {
			return nil
		}
		p = n
	}
}

func (f *FS) disturb(p string) {
	if d := f.dirOf(p); d != nil {
		d.disturbed = f.s.nextSeq()
	}
}

var startDir, _ = os.Getwd()

// theSim is the current run (one at a time per process).
var theSim *Sim

// rawFS marks harness code: its file system calls go straight through.
var rawFS int

func raw(f func()) {
	rawFS++
	defer func() { rawFS-- }()
	f()
}

func installSeams() {
	syscall.SimHook = func(c *syscall.SimCall, do func(c *syscall.SimCall)) {
		t := curTask()
		if t == nil || theSim == nil || rawFS > 0 {
			do(c)
			return
		}
		theSim.fs.call(t, c, do)
	}
}

func isMut(op string, flags int) bool {
	switch op {
	case "openat":
		return flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC|syscall.O_APPEND) != 0
	case "unlinkat", "linkat", "symlinkat", "fchmodat", "utimensat", "mkdirat", "write", "pwrite", "ftruncate", "truncate", "renameat":
		return true
	}
	return false
}

func absPath(dirfd int, p string, fds map[int]*fdInfo) string {
	if p == "" {
		return p
	}
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	if fi := fds[dirfd]; fi != nil {
		return filepath.Join(fi.path, p)
	}
	return filepath.Join(startDir, p)
}

// call handles one file system call of task t.
func (f *FS) call(t *Task, c *syscall.SimCall, do func(*syscall.SimCall)) {
	s := f.s
	path := c.Path
	if path != "" {
		path = absPath(c.Dirfd, c.Path, f.fds)
	} else if fi := f.fds[c.Fd]; fi != nil {
		path = fi.path
	}
	path2 := c.Path2
	if path2 != "" {
		path2 = absPath(c.Dirfd2, c.Path2, f.fds)
	}
	if path == "" && c.Op != "close" {
		// A descriptor the simulator does not know (standard streams, ...).
		do(c)
		return
	}
	mut := isMut(c.Op, c.Flags)
	if c.Op == "close" {
		// Closing always happens; a dead process's descriptors are closed by the kernel.
		fi := f.fds[c.Fd]
		if fi != nil {
			delete(f.fds, c.Fd)
			if !t.dead && !s.ended {
				s.ev("fs", "%s close %s", t.name, f.rel(path))
			}
		}
		do(c)
		if fi != nil && fi.write && !t.dead && !s.ended && s.faultsOn && t.op != nil && t.op.fsFaults && f.inside(path) && s.prof.cfg.fsErr > 0 && t.st.P(s.prof.cfg.fsErr) {
			// Data written back late (network file systems): the error comes with close.
			e := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[t.st.N(3)]
			var size int64
			raw(func() {
				if st, err := os.Stat(path); err == nil {
					size = st.Size()
				}
			})
			if n := f.node(path); n != nil && n.dirty && size > 0 {
				k := t.st.N(int(size))
				raw(func() { os.Truncate(path, int64(k)) })
				f.touch(path)
			}
			s.ev("fs-fault", "%s close %s: %v", t.name, f.rel(path), e)
			s.stats.fault("fs-close-error")
			f.disturb(path)
			t.op.sawFSFault, t.op.sawWriteFault = true, true
			c.N, c.Err = -1, e
			f.probe(t, path, "", true)
		}
		return
	}
	if t.dead || s.ended {
		f.refuse(c, syscall.EIO)
		if t.dead && t.proc != nil {
			runtime.Goexit()
		}
		return
	}
	f.access = append(f.access, Access{c.Op, path, mut, nil, t})
	if path2 != "" {
		f.access = append(f.access, Access{c.Op, path2, mut, nil, t})
	}
	if !f.inside(path) || (path2 != "" && !f.inside(path2)) {
		if mut {
			// Never let anything outside of the scratch directory be changed.
			s.ev("fs-refused", "%s %s %s %s", t.name, c.Op, path, path2)
			f.refuse(c, syscall.EACCES)
			f.access[len(f.access)-1].err = syscall.EACCES
			return
		}
		if (c.Op == "openat" || c.Op == "read") && s.faultsOn && t.op != nil && strings.HasSuffix(path, ".p12") && s.prof.cfg.fsErr > 0 && t.st.P(10*s.prof.cfg.fsErr) {
			// a packaged certificate cannot be read
			e := faultsFor(c.Op, c.Flags)
			f.refuse(c, e[t.st.N(len(e))])
			s.ev("fs-fault", "%s %s %s: %v", t.name, c.Op, filepath.Base(path), c.Err)
			s.stats.fault("fs-" + c.Op + "-error")
			f.access[len(f.access)-1].err = c.Err
			return
		}
		do(c)
		if c.Op == "openat" && c.Err == nil {
			f.fds[c.N] = &fdInfo{path: path, op: t.op}
		}
		f.access[len(f.access)-1].err = c.Err
		return
	}

	var delay time.Duration
	if s.faultsOn && s.prof.cfg.fsDelay > 0 && t.st.P(s.prof.cfg.fsDelay) {
		delay = []time.Duration{time.Microsecond, time.Millisecond, 100 * time.Millisecond, 3 * time.Second, time.Minute}[t.st.N(5)]
		s.stats.fault("fs-stall")
		if t.op != nil {
			t.op.fsDelay += delay
		}
	}
	s.yield(t, c.Op, delay)
	if t.dead || s.ended {
		f.refuse(c, syscall.EIO)
		if t.dead && t.proc != nil {
			runtime.Goexit()
		}
		return
	}
	f.apply(t, c, do, path, path2, mut)
	f.access[len(f.access)-1].err = c.Err
}

func (f *FS) refuse(c *syscall.SimCall, e syscall.Errno) {
	c.N = -1
	c.Err = e
}

// faultsFor lists the errors a call can meet.
func faultsFor(op string, flags int) []syscall.Errno {
	switch op {
	case "openat":
		if flags&syscall.O_CREAT != 0 {
			return []syscall.Errno{syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.EROFS}
		}
		return []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE}
	case "read", "pread":
		return []syscall.Errno{syscall.EIO}
	case "write", "pwrite":
		return []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}
	case "fstatat", "fstat":
		return []syscall.Errno{syscall.EIO, syscall.EACCES}
	case "renameat", "linkat", "symlinkat":
		return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES}
	case "mkdirat":
		return []syscall.Errno{syscall.ENOSPC, syscall.EACCES, syscall.EROFS}
	case "fsync", "fdatasync":
		return []syscall.Errno{syscall.EIO}
	case "ftruncate", "truncate", "unlinkat", "fchmodat", "utimensat":
		return []syscall.Errno{syscall.EIO, syscall.EACCES}
	}
	return nil
}

func (f *FS) apply(t *Task, c *syscall.SimCall, do func(*syscall.SimCall), path, path2 string, mut bool) {
	s := f.s
	cfg := &s.prof.cfg
	inOp := t.op != nil && t.op.fsFaults
	if s.faultsOn && inOp {
		// Crash of the whole process at this call.
		if cfg.crash > 0 && t.proc != nil && t.st.P(cfg.crash) {
			mode := t.st.N(3) // before, after, in the middle
			if mode == 2 && c.Op == "write" && len(c.Buf) > 0 {
				n := t.st.N(len(c.Buf))
				buf := c.Buf
				c.Buf = buf[:n]
				do(c)
				f.after(t, c, path, path2)
				s.ev("crash", "%s killed during write of %s after %d of %d bytes", t.proc.name, f.rel(path), n, len(buf))
			} else if mode == 1 {
				do(c)
				f.after(t, c, path, path2)
				s.ev("crash", "%s killed after %s %s %s", t.proc.name, c.Op, f.rel(path), f.rel(path2))
			} else {
				s.ev("crash", "%s killed before %s %s %s", t.proc.name, c.Op, f.rel(path), f.rel(path2))
			}
			s.stats.fault("crash")
			f.disturb(path)
			f.probe(t, path, path2, mut)
			t.proc.kill("crash in " + c.Op)
			runtime.Goexit()
		}
		if cfg.fsErr > 0 && t.st.P(cfg.fsErr) {
			if errs := faultsFor(c.Op, c.Flags); len(errs) > 0 {
				e := errs[t.st.N(len(errs))]
				s.stats.fault("fs-" + c.Op + "-error")
				f.disturb(path)
				t.op.sawFSFault = true
				if c.Op == "write" && len(c.Buf) > 0 && t.st.N(2) == 1 {
					// A short write, then the error on the rest.
					n := t.st.N(len(c.Buf))
					buf := c.Buf
					c.Buf = buf[:n]
					if n > 0 {
						do(c)
						f.after(t, c, path, path2)
					}
					c.Buf = buf
					c.N, c.Err = n, nil
					if n == 0 {
						c.N, c.Err = -1, e
						t.op.sawWriteFault = true
					}
					s.ev("fs-fault", "%s write %s: %d of %d bytes (%v)", t.name, f.rel(path), n, len(buf), c.Err)
					s.stats.fault("fs-short-write")
					f.probe(t, path, path2, mut)
					return
				}
				if c.Op == "write" || c.Op == "pwrite" || c.Op == "renameat" || (c.Op == "openat" && c.Flags&syscall.O_CREAT != 0) {
					t.op.sawWriteFault = true
				}
				f.refuse(c, e)
				s.ev("fs-fault", "%s %s %s %s: %v", t.name, c.Op, f.rel(path), f.rel(path2), e)
				return
			}
		}
		if (c.Op == "read" || c.Op == "pread") && cfg.shortRead > 0 && len(c.Buf) > 1 && t.st.P(cfg.shortRead) {
			c.Buf = c.Buf[:1+t.st.N(min(len(c.Buf)-1, 64))]
			s.stats.fault("fs-short-read")
		}
		if c.Op == "write" && cfg.shortRead > 0 && len(c.Buf) > 1 && t.st.P(cfg.shortRead) {
			c.Buf = c.Buf[:1+t.st.N(len(c.Buf)-1)]
			s.stats.fault("fs-partial-write")
		}
	}
	var existed bool
	if c.Op == "openat" && c.Flags&syscall.O_CREAT != 0 {
		raw(func() { _, err := os.Lstat(path); existed = err == nil })
	}
	doc := (c.Op == "unlinkat" || c.Op == "renameat") && t.op != nil && s.cm == nil && docName(filepath.Base(path)) && f.complete(path)
	do(c)
	if doc && c.Err == nil {
		t.op.unlinked = append(t.op.unlinked, path)
	}
	if c.Op == "openat" && c.Err == nil {
		f.fds[c.N] = &fdInfo{path: path, write: mut, op: t.op}
		if c.Flags&syscall.O_CREAT != 0 && !existed {
			f.touch(path)
		} else if c.Flags&syscall.O_TRUNC != 0 {
			f.touch(path)
		}
		s.ev("fs", "%s open%s %s", t.name, openMode(c.Flags), f.rel(path))
	} else {
		s.ev("fs", "%s %s %s%s n=%d err=%v", t.name, c.Op, f.rel(path), sp(f.rel(path2)), c.N, c.Err)
	}
	f.after(t, c, path, path2)
	f.probe(t, path, path2, mut)
}

// complete tells whether a file in a cache directory is a complete document.
func (f *FS) complete(path string) bool {
	if f.dirOf(path) == nil {
		return false
	}
	var data []byte
	var err error
	raw(func() { data, err = os.ReadFile(path) })
	for _, d := range f.s.world.docs {
		if err == nil && d.reply != nil && bytes.Equal(d.bytes, data) && filepath.Base(path) == d.svc.fileTag+d.reg.file {
			return true
		}
	}
	return false
}

// openBy lists the files an operation has open.
func (f *FS) openBy(op *Op) []string {
	var l []string
	for _, fi := range f.fds {
		if fi.op == op {
			l = append(l, f.rel(fi.path))
		}
	}
	sort.Strings(l)
	return l
}

func sp(x string) string {
	if x == "" {
		return ""
	}
	return " " + x
}

func openMode(fl int) string {
	m := ""
	if fl&syscall.O_CREAT != 0 {
		m += "+creat"
	}
	if fl&syscall.O_TRUNC != 0 {
		m += "+trunc"
	}
	if fl&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		m += "+w"
	}
	return m
}

// after maintains the simulated file times.
func (f *FS) after(t *Task, c *syscall.SimCall, path, path2 string) {
	switch c.Op {
	case "write", "pwrite", "ftruncate", "truncate":
		if c.N >= 0 && c.Err == nil {
			f.touch(path)
		}
	case "fsync", "fdatasync":
		if n := f.node(path); n != nil {
			n.dirty = false
		}
	case "utimensat":
		if c.Err == nil && c.Times != nil {
			if n := f.node(path); n != nil {
				n.mtime = time.Unix(c.Times[1].Sec, c.Times[1].Nsec)
			}
		}
	case "fstatat", "fstat":
		if c.Err == nil && c.Stat != nil {
			n := f.inodes[c.Stat.Ino]
			if n == nil {
				n = &inode{mtime: f.stamp()}
				f.inodes[c.Stat.Ino] = n
			}
			ts := syscall.NsecToTimespec(n.mtime.UnixNano())
			c.Stat.Mtim, c.Stat.Ctim, c.Stat.Atim = ts, ts, ts
		}
	}
}

// stamp returns the current simulated time, made unique.
func (f *FS) stamp() time.Time {
	now := f.s.now()
	if !now.After(f.last) {
		now = f.last.Add(1)
	}
	f.last = now
	return now
}

func (f *FS) node(path string) *inode {
	var st syscall.Stat_t
	var err error
	raw(func() { err = syscall.Stat(path, &st) })
	if err != nil {
		return nil
	}
	n := f.inodes[st.Ino]
	if n == nil {
		n = &inode{mtime: f.stamp()}
		f.inodes[st.Ino] = n
	}
	return n
}

func (f *FS) touch(path string) {
	var st syscall.Stat_t
	var err error
	raw(func() { err = syscall.Stat(path, &st) })
	if err == nil {
		n := f.inodes[st.Ino]
		if n == nil {
			n = &inode{}
			f.inodes[st.Ino] = n
		}
		n.mtime = f.stamp()
		n.dirty = true
	}
}

// probe checks the cached documents after each change to a cache directory.
func (f *FS) probe(t *Task, path, path2 string, mut bool) {
	if !mut || f.inProbe {
		return
	}
	f.inProbe = true
	defer func() { f.inProbe = false }()
	for _, p := range []string{path, path2} {
		if p == "" {
			continue
		}
		if d := f.dirOf(p); d != nil {
			if f.s.cm != nil {
				f.s.cm.probe(d, p, t)
				continue
			}
			f.s.world.probeFile(d, p, "after a file system call of "+t.name)
		}
	}
}

// outside simulates a change to a cache file by something else.
func (f *FS) outside(path string, data []byte, remove bool) {
	raw(func() {
		if remove {
			os.Remove(path)
			return
		}
		os.WriteFile(path, data, 0o600)
		f.touch(path)
	})
	if d := f.dirOf(path); d != nil {
		d.disturbed = f.s.nextSeq()
		if remove {
			d.removed[filepath.Base(path)] = d.disturbed
			return
		}
		d.corrupted = d.disturbed
		d.everCorrupt = true
	}
}

// docName reports whether a file name is that of a cached document.
func docName(n string) bool {
	for _, v := range services {
		for _, r := range regs {
			if n == v.fileTag+r.file {
				return true
			}
		}
	}
	return indexOf(cacheNames, n) >= 0
}

// list returns the cached documents in dir, sorted.
func (f *FS) list(dir string) []string {
	var out []string
	raw(func() {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if e.Type().IsRegular() && docName(e.Name()) {
				out = append(out, filepath.Join(dir, e.Name()))
			}
		}
	})
	sort.Strings(out)
	return out
}

// powerLoss damages every file not synced to disk.
func (f *FS) powerLoss(st *Stream) {
	var dirs []string
	for d := range f.dirs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		for _, p := range f.list(d) {
			n := f.node(p)
			if n == nil || !n.dirty {
				continue
			}
			var data []byte
			raw(func() { data, _ = os.ReadFile(p) })
			m := n.mtime
			what := "kept"
			switch st.N(4) {
			case 1:
				raw(func() { os.Truncate(p, 0) })
				what = "empty"
			case 2:
				k := 0
				if len(data) > 0 {
					k = st.N(len(data))
				}
				raw(func() { os.Truncate(p, int64(k)) })
				what = fmt.Sprintf("cut to %d bytes", k)
			case 3:
				raw(func() { os.WriteFile(p, make([]byte, len(data)), 0o600) })
				what = "zero-filled"
			}
			n.mtime = m
			n.dirty = false
			f.s.ev("power", "%s: %s", f.rel(p), what)
			if what != "kept" {
				f.s.stats.fault("power-loss-torn-file")
			}
		}
		f.dirs[d].disturbed = f.s.nextSeq()
		f.dirs[d].corrupted = f.dirs[d].disturbed
		f.dirs[d].everCorrupt = true
	}
}
