//go:build go1.23

package zzverifsim

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// The simulated kernel: every file-system call of a simulated process arrives
// here instead of at the real kernel.

const fdBase = 1 << 20

var nextFd = fdBase

type ofile struct {
	n      *inode
	d      *Disk
	off    int64
	flags  int
	path   string
	p      *proc
	dirs   []string
	dirPos int
}

// Fault kinds.
const (
	fErr    = iota // one call fails
	fShort         // one read or write transfers only part
	fIntr          // one call is interrupted (EINTR)
	fFull          // the disk fills up: Arg more bytes fit, from now on
	fRO            // the file system turns read-only from now on
	fBad           // every write, flush, rename fails with EIO from now on
	fNoFd          // every open fails with EMFILE from now on
	fFlush         // writes succeed, the first flush or close from now on fails and loses the data
	fCrash         // process killed before the call
	fCrashA        // process killed after the call
	fTorn          // process killed in the middle of a write
	fClock         // the clock jumps by Arg seconds (stalled process)
	nFaultKinds
)

var faultNames = []string{"error", "short", "eintr", "disk_full", "read_only", "bad_disk", "no_fd", "flush_loss", "crash_before", "crash_after", "crash_torn", "clock_jump"}

// Fault happens at the At-th file operation of a process.
type Fault struct {
	At    int
	Kind  int
	Arg   int
	Power bool // for crashes: the whole machine loses power
	Soft  bool // short transfers only, no failure
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s@%d(%d)", faultNames[f.Kind], f.At, f.Arg)
	if f.Power {
		s += "+power"
	}
	return s
}

// Plan is everything that will go wrong for one process.
type Plan struct {
	Faults []Fault
	// entropy
	EntFailAt   int  // fail from this byte on (-1 never)
	EntFailOnce bool // only once
	EntShort    bool // short reads
	EntRepeat   int  // repeat the first n draws once (0 = no)
	EntStream   uint64
	EntFlip     int // this byte of the stream differs (-1 none)
	EntHigh     int // that many percent of the bytes are 255
	EntTail     int // all bytes from here on differ (-1 none)
}

func noFaults() *Plan { return &Plan{EntFailAt: -1, EntFlip: -1, EntTail: -1} }

func errnosFor(op string) []syscall.Errno {
	switch op {
	case "open":
		return []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.EROFS, syscall.ENFILE, syscall.EPERM, syscall.EDQUOT}
	case "stat", "access", "fstat":
		return []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ELOOP}
	case "read", "pread", "getdents":
		return []syscall.Errno{syscall.EIO}
	case "write", "pwrite":
		return []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG}
	case "close", "fsync":
		return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
	case "rename":
		return []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EXDEV, syscall.EBUSY, syscall.EPERM}
	case "unlink":
		return []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EBUSY}
	case "ftruncate", "truncate", "fallocate":
		return []syscall.Errno{syscall.EIO, syscall.ENOSPC}
	case "flock":
		return []syscall.Errno{syscall.ENOLCK}
	}
	return []syscall.Errno{syscall.EIO, syscall.EPERM}
}

func isMutating(r *syscall.SimReq) bool {
	switch r.Op {
	case "write", "pwrite", "ftruncate", "truncate", "fallocate", "rename", "unlink", "link", "symlink", "mkdir", "chmodat", "fchmod", "chown", "fchown", "utimes":
		return true
	case "open":
		return r.Flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	}
	return false
}

// hook is installed as syscall.SimHook.
func (w *World) hook(r *syscall.SimReq) (int64, syscall.Errno, bool) {
	if w.ghost() {
		select {}
	}
	p := w.cur
	if p == nil {
		if r.Fd >= fdBase {
			return -1, syscall.EBADF, true
		}
		return 0, 0, false
	}
	if p.dead {
		p.deadCalls++
		if p.deadCalls > 2000 {
			w.leave(p)
		}
		if r.Op == "write" {
			return int64(len(r.Buf)), 0, true
		}
		return -1, syscall.EIO, true
	}
	switch r.Op {
	case "read", "write", "close", "fstat", "fcntl", "dup", "pread", "pwrite", "seek", "fsync":
		if r.Fd >= 0 && r.Fd < 3 {
			return w.stdio(p, r)
		}
		if r.Fd < fdBase {
			return -1, syscall.EBADF, true
		}
	}
	switch r.Op {
	case "fcntl", "seek", "getcwd", "chdir", "dup", "sync", "sendfile", "splice", "copy_file_range":
		n, e := w.do(p, r)
		return n, e, true
	}
	if w.conc && !p.noYield {
		w.yieldProc(p)
		if p.dead {
			return -1, syscall.EIO, true
		}
	}
	idx := p.nsys
	p.nsys++
	if p.nsys > 200000 {
		w.hang(p, "more than 200000 file operations")
	}
	for i := range p.plan.Faults {
		f := &p.plan.Faults[i]
		if f.At != idx {
			continue
		}
		if !p.quiet {
			w.stats["fault."+faultNames[f.Kind]]++
		}
		p.faulted++
		if f.Kind != fShort && f.Kind != fIntr && f.Kind != fClock {
			p.hard = true
		}
		switch f.Kind {
		case fErr:
			es := errnosFor(r.Op)
			return w.fail(p, r, es[f.Arg%len(es)])
		case fShort:
			switch r.Op {
			case "read", "write", "pread", "pwrite":
				if len(r.Buf) > 1 {
					r.Buf = r.Buf[:1+f.Arg%(len(r.Buf)-1)]
				}
			default:
				if f.Soft {
					break
				}
				p.hard = true
				return w.fail(p, r, errnosFor(r.Op)[0])
			}
		case fIntr:
			switch r.Op {
			case "read", "write", "pread", "pwrite", "open", "stat", "fsync":
				w.trace(p, r, -1, syscall.EINTR)
				return -1, syscall.EINTR, true
			}
		case fFull:
			p.d.limit = p.d.used() + f.Arg
			p.d.full = true
		case fRO:
			p.d.readonly = true
		case fBad:
			p.d.bad = true
		case fNoFd:
			p.noFd = true
		case fFlush:
			p.d.flushLoss = true
		case fClock:
			w.jump(int64(f.Arg))
		case fCrash:
			w.trace(p, r, -1, syscall.EINTR)
			w.die(p, f, "before "+r.Op)
		case fCrashA:
			n, e := w.do(p, r)
			w.trace(p, r, n, e)
			w.die(p, f, "after "+r.Op)
		case fTorn:
			if (r.Op == "write" || r.Op == "pwrite") && len(r.Buf) > 1 {
				r.Buf = r.Buf[:1+f.Arg%(len(r.Buf)-1)]
				n, e := w.do(p, r)
				w.trace(p, r, n, e)
			}
			w.die(p, f, "in "+r.Op)
		}
	}
	if p.noFd && r.Op == "open" {
		return w.fail(p, r, syscall.EMFILE)
	}
	if p.d.readonly && isMutating(r) {
		return w.fail(p, r, syscall.EROFS)
	}
	if p.d.bad {
		switch r.Op {
		case "write", "pwrite", "fsync", "rename", "ftruncate", "truncate", "unlink":
			return w.fail(p, r, syscall.EIO)
		}
	}
	if p.d.flushLoss && (r.Op == "fsync" || r.Op == "close") {
		if f := w.fds[r.Fd]; f != nil && f.n.kind == kFile && len(f.n.pend) > 0 && f.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			p.d.flushLoss = false
			return w.fail(p, r, syscall.EIO)
		}
	}
	n, e := w.do(p, r)
	w.trace(p, r, n, e)
	return n, e, true
}

// fail makes an operation fail, with the side effects the failure has.
func (w *World) fail(p *proc, r *syscall.SimReq, e syscall.Errno) (int64, syscall.Errno, bool) {
	w.stats["errno."+r.Op]++
	p.failedOps = append(p.failedOps, r.Op)
	switch r.Op {
	case "close":
		// The descriptor is gone and so is what had not been flushed.
		if f := w.fds[r.Fd]; f != nil {
			if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
				w.dropDirty(f.n)
			}
			w.do(p, r)
		}
	case "fsync":
		if f := w.fds[r.Fd]; f != nil && f.n.kind == kFile {
			f.n.lose()
		}
	}
	w.trace(p, r, -1, e)
	return -1, e, true
}

// dropDirty forgets everything about the file's contents that was not flushed.
func (w *World) dropDirty(n *inode) {
	if n.kind == kFile && len(n.pend) > 0 {
		n.data = append([]byte(nil), n.dur...)
		n.pend = nil
	}
}

func (w *World) trace(p *proc, r *syscall.SimReq, n int64, e syscall.Errno) {
	w.steps++
	if p.quiet {
		return
	}
	pth := r.Path
	if r.Fd >= fdBase {
		if f := w.fds[r.Fd]; f != nil {
			pth = f.path
		} else if pth == "" {
			pth = p.lastPath
		}
	}
	p.lastPath = pth
	h := fmt.Sprintf("p%d %s %s", p.id, r.Op, pth)
	if r.Path2 != "" {
		h += " " + r.Path2
	}
	switch r.Op {
	case "open":
		h += fmt.Sprintf(" %#x %o", r.Flags&^syscall.O_CLOEXEC, r.Mode)
	case "write", "pwrite", "read", "pread":
		h += fmt.Sprintf(" %d", len(r.Buf))
	}
	if e != 0 {
		h += " = " + e.Error()
	} else if r.Op != "open" {
		h += fmt.Sprintf(" = %d", n)
	}
	w.logf("%s", h)
	w.mixShape(r.Op, e)
}

func (w *World) stdio(p *proc, r *syscall.SimReq) (int64, syscall.Errno, bool) {
	switch r.Op {
	case "read":
		if r.Fd != 0 {
			return -1, syscall.EBADF, true
		}
		if p.tty != nil {
			n, e := w.ttyRead(p, r.Buf)
			return n, e, true
		}
		if len(p.stdin) == 0 {
			return 0, 0, true
		}
		c := &p.stdin[0]
		if c.err != 0 {
			e := c.err
			if c.times--; c.times <= 0 {
				p.stdin = p.stdin[1:]
			}
			return -1, e, true
		}
		n := copy(r.Buf, c.data)
		c.data = c.data[n:]
		if len(c.data) == 0 {
			p.stdin = p.stdin[1:]
		}
		return int64(n), 0, true
	case "write":
		if p.outFail && r.Fd == 1 {
			return -1, syscall.EIO, true
		}
		if p.tty != nil {
			p.tty.write(r.Buf)
		}
		if r.Fd == 1 {
			p.stdout = append(p.stdout, r.Buf...)
		} else {
			p.stderr = append(p.stderr, r.Buf...)
		}
		if len(p.stdout)+len(p.stderr) > 64<<20 {
			w.hang(p, "endless output")
		}
		return int64(len(r.Buf)), 0, true
	case "fstat":
		*r.Stat = syscall.Stat_t{Mode: syscall.S_IFIFO | 0600, Nlink: 1}
		if p.tty != nil {
			r.Stat.Mode, r.Stat.Rdev = syscall.S_IFCHR|0620, 0x8801
		}
		return 0, 0, true
	case "close", "fcntl":
		return 0, 0, true
	case "fsync":
		return -1, syscall.EINVAL, true
	}
	return -1, syscall.EINVAL, true
}

const (
	pRead  = 4
	pWrite = 2
	pExec  = 1
)

func (n *inode) may(bit uint32) bool { return n.mode&(bit<<6) != 0 }

// namei resolves path; when last is returned, parent and name are set too.
func (w *World) namei(p *proc, dirfd int, pth string, follow bool) (parent *inode, name string, n *inode, e syscall.Errno) {
	if pth == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(pth) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	if !strings.HasPrefix(pth, "/") {
		base := p.cwd
		if dirfd >= fdBase {
			f := w.fds[dirfd]
			if f == nil {
				return nil, "", nil, syscall.EBADF
			}
			base = f.path
		}
		pth = base + "/" + pth
	}
	return w.walkPath(p, pth, follow, 0)
}

func (w *World) walkPath(p *proc, pth string, follow bool, depth int) (parent *inode, name string, n *inode, e syscall.Errno) {
	if depth > 10 {
		return nil, "", nil, syscall.ELOOP
	}
	mustDir := strings.HasSuffix(pth, "/")
	var comps []string
	for _, c := range strings.Split(pth, "/") {
		if c != "" && c != "." {
			comps = append(comps, c)
		}
	}
	n = p.d.root
	stack := []*inode{n}
	cur := ""
	for i, c := range comps {
		if n.kind != kDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if !n.may(pExec) {
			return nil, "", nil, syscall.EACCES
		}
		last := i == len(comps)-1
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			n = stack[len(stack)-1]
			cur = path.Dir(cur)
			continue
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		nx := n.ents[c]
		parent, name = n, c
		if nx == nil {
			if last {
				return parent, name, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		if nx.kind == kLink && (!last || follow || mustDir) {
			t := nx.target
			if !strings.HasPrefix(t, "/") {
				t = cur + "/" + t
			}
			if !last {
				t += "/" + strings.Join(comps[i+1:], "/")
			}
			return w.walkPath(p, t, follow, depth+1)
		}
		n = nx
		stack = append(stack, n)
		cur = strings.TrimSuffix(cur, "/") + "/" + c
	}
	if mustDir && n.kind != kDir {
		return nil, "", nil, syscall.ENOTDIR
	}
	return parent, name, n, 0
}

func fillStat(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: uint64(n.ino), Dev: 7, Nlink: 1, Uid: 1000, Gid: 1000, Size: int64(len(n.data)), Blksize: 4096, Blocks: int64(len(n.data)+511) / 512}
	st.Mode = n.mode
	switch n.kind {
	case kDir:
		st.Mode |= syscall.S_IFDIR
	case kLink:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.target))
	default:
		st.Mode |= syscall.S_IFREG
	}
	st.Mtim = syscall.Timespec{Sec: n.mtime}
}

const umask = 022

func (w *World) do(p *proc, r *syscall.SimReq) (int64, syscall.Errno) {
	d := p.d
	switch r.Op {
	case "open":
		return w.doOpen(p, r)
	case "close":
		f := w.fds[r.Fd]
		if f == nil {
			return -1, syscall.EBADF
		}
		w.sample(f.n, f.path)
		delete(w.fds, r.Fd)
		if f.n.locked == p {
			f.n.locked = nil
		}
		return 0, 0
	case "fcntl":
		if w.fds[r.Fd] == nil {
			return -1, syscall.EBADF
		}
		switch r.Flags {
		case syscall.F_GETFL:
			return int64(w.fds[r.Fd].flags), 0
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			return w.dup(r.Fd)
		}
		return 0, 0
	case "dup":
		return w.dup(r.Fd)
	case "getcwd":
		n := copy(r.Buf, p.cwd+"\x00")
		return int64(n), 0
	case "chdir":
		_, _, n, e := w.namei(p, -100, r.Path, true)
		if e != 0 {
			return -1, e
		}
		if n.kind != kDir {
			return -1, syscall.ENOTDIR
		}
		p.cwd = path.Join("/", r.Path)
		return 0, 0
	case "sync":
		d.syncAll()
		return 0, 0
	case "sendfile", "splice", "copy_file_range":
		return -1, syscall.EINVAL
	case "stat":
		_, _, n, e := w.namei(p, r.Fd, r.Path, r.Flags&0x100 == 0)
		if e != 0 {
			return -1, e
		}
		fillStat(n, r.Stat)
		return 0, 0
	case "access":
		_, _, n, e := w.namei(p, r.Fd, r.Path, true)
		if e != 0 {
			return -1, e
		}
		if r.Mode != 0 && !n.may(r.Mode) {
			return -1, syscall.EACCES
		}
		return 0, 0
	case "chmodat":
		_, _, n, e := w.namei(p, r.Fd, r.Path, true)
		if e != 0 {
			return -1, e
		}
		n.mode = r.Mode & 07777
		w.modeEvent(p, n, r.Path)
		return 0, 0
	case "chown", "utimes":
		_, _, _, e := w.namei(p, r.Fd, r.Path, true)
		if e != 0 {
			return -1, e
		}
		return 0, 0
	case "truncate":
		_, _, n, e := w.namei(p, -100, r.Path, true)
		if e != 0 {
			return -1, e
		}
		if !n.may(pWrite) {
			return -1, syscall.EACCES
		}
		w.sample(n, r.Path)
		n.truncate(int(r.Off))
		return 0, 0
	case "readlink":
		_, _, n, e := w.namei(p, r.Fd, r.Path, false)
		if e != 0 {
			return -1, e
		}
		if n.kind != kLink {
			return -1, syscall.EINVAL
		}
		return int64(copy(r.Buf, n.target)), 0
	case "symlink":
		parent, name, n, e := w.namei(p, r.Fd2, r.Path2, false)
		if n != nil {
			return -1, syscall.EEXIST
		}
		if parent == nil {
			return -1, e
		}
		l := d.newInode(kLink, 0777)
		l.target = r.Path
		parent.ents[name] = l
		d.record(jchange{parent, name, l})
		return 0, 0
	case "link":
		_, _, src, e := w.namei(p, r.Fd, r.Path, false)
		if e != 0 {
			return -1, e
		}
		parent, name, n, e := w.namei(p, r.Fd2, r.Path2, false)
		if n != nil {
			return -1, syscall.EEXIST
		}
		if parent == nil {
			return -1, e
		}
		if !parent.may(pWrite) {
			return -1, syscall.EACCES
		}
		src.nlink++
		parent.ents[name] = src
		d.record(jchange{parent, name, src})
		return 0, 0
	case "unlink":
		parent, name, n, e := w.namei(p, r.Fd, r.Path, false)
		if e != 0 {
			return -1, e
		}
		if r.Flags&0x200 != 0 {
			if n.kind != kDir {
				return -1, syscall.ENOTDIR
			}
			if len(n.ents) > 0 {
				return -1, syscall.ENOTEMPTY
			}
		} else if n.kind == kDir {
			return -1, syscall.EISDIR
		}
		if !parent.may(pWrite) {
			return -1, syscall.EACCES
		}
		w.sample(n, r.Path)
		n.nlink--
		delete(parent.ents, name)
		d.record(jchange{parent, name, nil})
		return 0, 0
	case "mkdir":
		parent, name, n, e := w.namei(p, r.Fd, r.Path, false)
		if n != nil {
			return -1, syscall.EEXIST
		}
		if parent == nil {
			return -1, e
		}
		if !parent.may(pWrite) {
			return -1, syscall.EACCES
		}
		c := d.newInode(kDir, r.Mode&07777&^umask)
		parent.ents[name] = c
		d.record(jchange{parent, name, c})
		return 0, 0
	case "rename":
		op, on, src, e := w.namei(p, r.Fd, r.Path, false)
		if e != 0 {
			return -1, e
		}
		np, nn, dst, e := w.namei(p, r.Fd2, r.Path2, false)
		if np == nil {
			return -1, e
		}
		if !op.may(pWrite) || !np.may(pWrite) {
			return -1, syscall.EACCES
		}
		if dst == src {
			return 0, 0
		}
		if dst != nil {
			if dst.kind == kDir && src.kind != kDir {
				return -1, syscall.EISDIR
			}
			if dst.kind != kDir && src.kind == kDir {
				return -1, syscall.ENOTDIR
			}
			if dst.kind == kDir && len(dst.ents) > 0 {
				return -1, syscall.ENOTEMPTY
			}
			w.sample(dst, r.Path2)
			dst.nlink--
		}
		w.sample(src, r.Path2)
		delete(op.ents, on)
		np.ents[nn] = src
		d.record(jchange{op, on, nil}, jchange{np, nn, src})
		return 0, 0
	}
	// The rest work on a descriptor.
	f := w.fds[r.Fd]
	if f == nil {
		return -1, syscall.EBADF
	}
	n := f.n
	acc := f.flags & (syscall.O_WRONLY | syscall.O_RDWR)
	switch r.Op {
	case "fstat":
		fillStat(n, r.Stat)
		return 0, 0
	case "fchmod":
		n.mode = r.Mode & 07777
		w.modeEvent(p, n, f.path)
		return 0, 0
	case "fchown":
		return 0, 0
	case "fsync":
		f.d.fsync(n)
		return 0, 0
	case "flock":
		if r.Flags&syscall.LOCK_UN != 0 {
			if n.locked == p {
				n.locked = nil
			}
			return 0, 0
		}
		for tries := 0; n.locked != nil && n.locked != p; tries++ {
			if r.Flags&syscall.LOCK_NB != 0 {
				return -1, syscall.EWOULDBLOCK
			}
			if !w.conc || tries > 100000 {
				w.hang(p, "waits for a lock for ever")
			}
			w.yieldProc(p)
			if p.dead {
				return -1, syscall.EIO
			}
		}
		n.locked = p
		return 0, 0
	case "seek":
		switch r.Flags {
		case 0:
			f.off = r.Off
		case 1:
			f.off += r.Off
		case 2:
			f.off = int64(len(n.data)) + r.Off
		default:
			return -1, syscall.EINVAL
		}
		if f.off < 0 {
			f.off = 0
			return -1, syscall.EINVAL
		}
		f.dirs = nil
		return f.off, 0
	case "getdents":
		return w.getdents(f, r.Buf)
	case "read", "pread":
		if n.kind == kDir {
			return -1, syscall.EISDIR
		}
		if acc == syscall.O_WRONLY {
			return -1, syscall.EBADF
		}
		off := f.off
		if r.Op == "pread" {
			off = r.Off
		}
		if off >= int64(len(n.data)) {
			return 0, 0
		}
		c := copy(r.Buf, n.data[off:])
		if r.Op == "read" {
			f.off += int64(c)
		}
		return int64(c), 0
	case "write", "pwrite":
		if acc == 0 {
			return -1, syscall.EBADF
		}
		off := f.off
		if r.Op == "pwrite" {
			off = r.Off
		}
		if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(n.data))
		}
		buf := r.Buf
		if d.full {
			room := d.limit - d.used() + max(0, len(n.data)-int(off))
			if room <= 0 && len(buf) > 0 {
				w.stats["errno.ENOSPC"]++
				p.failedOps = append(p.failedOps, "write")
				return -1, syscall.ENOSPC
			}
			if len(buf) > room {
				buf = buf[:room]
			}
		}
		if off < int64(len(n.data)) {
			w.sample(n, f.path)
		}
		n.write(int(off), buf)
		n.mtime = w.sec
		w.written += int64(len(buf))
		if f.flags&syscall.O_SYNC == syscall.O_SYNC || f.flags&syscall.O_DSYNC != 0 {
			f.d.fsync(n)
		}
		if r.Op == "write" {
			f.off = off + int64(len(buf))
		}
		return int64(len(buf)), 0
	case "ftruncate":
		if acc == 0 {
			return -1, syscall.EINVAL
		}
		w.sample(n, f.path)
		n.truncate(int(r.Off))
		return 0, 0
	case "fallocate":
		return -1, syscall.EOPNOTSUPP
	}
	return -1, syscall.ENOSYS
}

func (w *World) dup(fd int) (int64, syscall.Errno) {
	f := w.fds[fd]
	if f == nil {
		return -1, syscall.EBADF
	}
	c := *f
	nextFd++
	w.fds[nextFd] = &c
	return int64(nextFd), 0
}

func (w *World) doOpen(p *proc, r *syscall.SimReq) (int64, syscall.Errno) {
	d := p.d
	fl := r.Flags
	acc := fl & (syscall.O_WRONLY | syscall.O_RDWR)
	parent, name, n, e := w.namei(p, r.Fd, r.Path, fl&syscall.O_NOFOLLOW == 0)
	if e != 0 && !(e == syscall.ENOENT && parent != nil && fl&syscall.O_CREAT != 0) {
		return -1, e
	}
	if n != nil && fl&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return -1, syscall.EEXIST
	}
	if n == nil && fl&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		// O_EXCL does not follow a dangling link.
		if _, _, l, _ := w.namei(p, r.Fd, r.Path, false); l != nil {
			return -1, syscall.EEXIST
		}
	}
	created := false
	if n == nil {
		if strings.HasSuffix(r.Path, "/") {
			return -1, syscall.EISDIR
		}
		if !parent.may(pWrite) {
			return -1, syscall.EACCES
		}
		if d.full && d.limit <= d.used() {
			p.failedOps = append(p.failedOps, "open")
			return -1, syscall.ENOSPC
		}
		n = d.newInode(kFile, r.Mode&07777&^umask)
		n.nlink = 1
		n.mtime = w.sec
		n.opener = p.name
		parent.ents[name] = n
		d.record(jchange{parent, name, n})
		created = true
		w.modeEvent(p, n, r.Path)
	} else {
		if n.kind == kLink {
			return -1, syscall.ELOOP
		}
		if n.kind == kDir && (acc != 0 || fl&syscall.O_CREAT != 0) {
			return -1, syscall.EISDIR
		}
		if fl&syscall.O_DIRECTORY != 0 && n.kind != kDir {
			return -1, syscall.ENOTDIR
		}
	}
	if !created {
		if acc != syscall.O_WRONLY && !n.may(pRead) {
			return -1, syscall.EACCES
		}
		if acc != 0 && !n.may(pWrite) {
			return -1, syscall.EACCES
		}
	}
	if fl&syscall.O_TRUNC != 0 && acc != 0 && n.kind == kFile {
		w.sample(n, r.Path)
		n.truncate(0)
	}
	pth := r.Path
	if !strings.HasPrefix(pth, "/") {
		if r.Fd >= fdBase && w.fds[r.Fd] != nil {
			pth = w.fds[r.Fd].path + "/" + pth
		} else {
			pth = p.cwd + "/" + pth
		}
	}
	nextFd++
	w.fds[nextFd] = &ofile{n: n, d: d, flags: fl, path: path.Clean(pth), p: p}
	if n.kind == kFile && acc != 0 {
		w.touched(n, path.Clean(pth))
	}
	return int64(nextFd), 0
}

func (w *World) getdents(f *ofile, buf []byte) (int64, syscall.Errno) {
	if f.n.kind != kDir {
		return -1, syscall.ENOTDIR
	}
	if f.dirs == nil {
		f.dirs = []string{}
		for k := range f.n.ents {
			f.dirs = append(f.dirs, k)
		}
		sort.Strings(f.dirs)
		f.dirPos = 0
	}
	n := 0
	for f.dirPos < len(f.dirs) {
		name := f.dirs[f.dirPos]
		c := f.n.ents[name]
		if c == nil {
			f.dirPos++
			continue
		}
		reclen := (19 + len(name) + 1 + 7) &^ 7
		if n+reclen > len(buf) {
			break
		}
		b := buf[n : n+reclen]
		for i := range b {
			b[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&b[0])) = uint64(c.ino)
		*(*uint64)(unsafe.Pointer(&b[8])) = uint64(f.dirPos + 1)
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(reclen)
		switch c.kind {
		case kDir:
			b[18] = syscall.DT_DIR
		case kLink:
			b[18] = syscall.DT_LNK
		default:
			b[18] = syscall.DT_REG
		}
		copy(b[19:], name)
		n += reclen
		f.dirPos++
	}
	return int64(n), 0
}
