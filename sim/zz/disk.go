//go:build go1.23

package zzverifsim

import (
	"fmt"
	"sort"
	"strings"
)

// A simulated disk: inodes with page-cache contents and durable contents, a
// current name space and a durable one, and an ordered journal of name-space
// changes that have not been made durable.

const (
	kFile = iota
	kDir
	kLink
)

type wop struct {
	trunc bool
	off   int // offset, or new size when trunc
	data  []byte
	lost  bool // dropped by a failed flush: never becomes durable
}

type inode struct {
	ino        int
	kind       int
	mode       uint32
	data       []byte
	target     string
	ents       map[string]*inode
	dur        []byte
	pend       []wop
	durE       map[string]*inode
	nlink      int
	mtime      int64
	locked     *proc
	opener     string // who created it (for reports)
	writer     int    // last process that opened it for writing (monitors)
	isPrint    bool
	lastSample uint64
}

type jchange struct {
	dir  *inode
	name string
	node *inode // nil: removed
}
type jentry []jchange

type Disk struct {
	name      string
	root      *inode
	nextIno   int
	journal   []jentry
	limit     int // capacity in bytes while full is set
	full      bool
	bad       bool // writes and flushes fail
	flushLoss bool // next flush of dirty data fails and loses it
	readonly  bool
	ext4      bool // fsync of a file also commits the journal up to its last entry about it
}

func newDisk(name string) *Disk {
	d := &Disk{name: name}
	d.root = d.newInode(kDir, 0755)
	return d
}

func (d *Disk) newInode(kind int, mode uint32) *inode {
	d.nextIno++
	n := &inode{ino: d.nextIno, kind: kind, mode: mode}
	if kind == kDir {
		n.ents = map[string]*inode{}
		n.durE = map[string]*inode{}
	}
	return n
}

// MkdirAll creates durable directories (set-up by the harness).
func (d *Disk) MkdirAll(path string) *inode {
	n := d.root
	for _, c := range strings.Split(strings.Trim(path, "/"), "/") {
		if c == "" {
			continue
		}
		nx := n.ents[c]
		if nx == nil {
			nx = d.newInode(kDir, 0755)
			n.ents[c] = nx
			n.durE[c] = nx
		}
		n = nx
	}
	return n
}

// lookup without permission checks or faults (harness view).
func (d *Disk) lookup(path string) *inode {
	n := d.root
	for _, c := range strings.Split(strings.Trim(path, "/"), "/") {
		if c == "" {
			continue
		}
		if n == nil || n.kind != kDir {
			return nil
		}
		n = n.ents[c]
	}
	return n
}

// realpath follows links (harness view).
func (d *Disk) resolve(path string) *inode {
	for i := 0; i < 10; i++ {
		n := d.lookup(path)
		if n == nil || n.kind != kLink {
			return n
		}
		if strings.HasPrefix(n.target, "/") {
			path = n.target
		} else {
			path = path[:strings.LastIndex(path, "/")+1] + n.target
		}
	}
	return nil
}

// ReadFile is the harness's view of the current contents.
func (d *Disk) ReadFile(path string) ([]byte, bool) {
	n := d.resolve(path)
	if n == nil || n.kind != kFile {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// PutFile writes a durable file (harness set-up, couriers, corruption).
func (d *Disk) PutFile(path string, data []byte, mode uint32) {
	i := strings.LastIndex(path, "/")
	dir := d.MkdirAll(path[:i])
	n := d.newInode(kFile, mode)
	if old := d.resolve(path); old != nil && old.kind == kFile {
		n = old
		n.mode = mode
	} else {
		dir.ents[path[i+1:]] = n
		n.nlink = 1
	}
	n.data = append([]byte(nil), data...)
	n.dur = append([]byte(nil), data...)
	n.pend = nil
	if i >= 0 {
		d.commitAll()
		dir.durE[path[i+1:]] = dir.ents[path[i+1:]]
	}
}

func (d *Disk) PutLink(path, target string) {
	i := strings.LastIndex(path, "/")
	dir := d.MkdirAll(path[:i])
	n := d.newInode(kLink, 0777)
	n.target = target
	dir.ents[path[i+1:]] = n
	dir.durE[path[i+1:]] = n
}

func (d *Disk) Remove(path string) {
	i := strings.LastIndex(path, "/")
	dir := d.lookup(path[:i])
	if dir != nil {
		delete(dir.ents, path[i+1:])
		delete(dir.durE, path[i+1:])
	}
}

func (d *Disk) used() int {
	t := 0
	d.walk(func(_ string, n *inode) { t += len(n.data) })
	return t
}

// walk visits every name in sorted order.
func (d *Disk) walk(f func(path string, n *inode)) {
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		names := make([]string, 0, len(n.ents))
		for k := range n.ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c := n.ents[k]
			f(p+"/"+k, c)
			if c.kind == kDir {
				rec(p+"/"+k, c)
			}
		}
	}
	rec("", d.root)
}

// Files lists all non-directory paths.
func (d *Disk) Files() []string {
	var r []string
	d.walk(func(p string, n *inode) {
		if n.kind != kDir {
			r = append(r, p)
		}
	})
	return r
}

// Image is a map path -> description of contents, for exact comparisons.
func (d *Disk) Image() map[string]string {
	m := map[string]string{}
	d.walk(func(p string, n *inode) {
		switch n.kind {
		case kFile:
			m[p] = fmt.Sprintf("f%04o:", n.mode) + string(n.data)
		case kLink:
			m[p] = "l:" + n.target
		default:
			m[p] = fmt.Sprintf("d%04o", n.mode)
		}
	})
	return m
}

func (d *Disk) record(e ...jchange) { d.journal = append(d.journal, jentry(e)) }

func (d *Disk) apply(e jentry) {
	for _, c := range e {
		if c.node == nil {
			delete(c.dir.durE, c.name)
		} else {
			c.dir.durE[c.name] = c.node
		}
	}
}

func (d *Disk) commit(upto int) {
	for i := 0; i < upto; i++ {
		d.apply(d.journal[i])
	}
	d.journal = append([]jentry(nil), d.journal[upto:]...)
}

func (d *Disk) commitAll() { d.commit(len(d.journal)) }

func (n *inode) applyData(ops []wop, base []byte) []byte {
	b := append([]byte(nil), base...)
	for _, o := range ops {
		if o.lost {
			continue
		}
		b = applyWop(b, o)
	}
	return b
}

func applyWop(b []byte, o wop) []byte {
	if o.trunc {
		if o.off <= len(b) {
			return b[:o.off:o.off]
		}
		return append(b, make([]byte, o.off-len(b))...)
	}
	if need := o.off + len(o.data); need > len(b) {
		b = append(b, make([]byte, need-len(b))...)
	}
	copy(b[o.off:], o.data)
	return b
}

func (n *inode) write(off int, p []byte) {
	o := wop{off: off, data: append([]byte(nil), p...)}
	n.data = applyWop(n.data, o)
	n.pend = append(n.pend, o)
}

func (n *inode) truncate(size int) {
	o := wop{trunc: true, off: size}
	n.data = applyWop(append([]byte(nil), n.data...), o)
	n.pend = append(n.pend, o)
}

// fsync makes the file's data durable (operations lost by an earlier failed
// flush stay lost).
func (d *Disk) fsync(n *inode) {
	if n.kind == kDir {
		last := -1
		for i, e := range d.journal {
			for _, c := range e {
				if c.dir == n {
					last = i
				}
			}
		}
		d.commit(last + 1)
		return
	}
	n.dur = n.applyData(n.pend, n.dur)
	n.pend = nil
	if d.ext4 {
		last := -1
		for i, e := range d.journal {
			for _, c := range e {
				if c.node == n {
					last = i
				}
			}
		}
		d.commit(last + 1)
	}
}

// lose marks everything not yet durable as lost (failed flush).
func (n *inode) lose() {
	for i := range n.pend {
		n.pend[i].lost = true
	}
}

func (d *Disk) syncAll() {
	d.walk(func(_ string, n *inode) {
		if n.kind == kFile {
			d.fsync(n)
		}
	})
	d.commitAll()
}

// PowerLoss forgets everything that was not durable, except what ch decides
// happened to reach the platter: a prefix of the name-space journal and an
// arbitrary part of each file's pending writes, the last one possibly torn.
func (d *Disk) PowerLoss(ch *Choices) string {
	desc := ""
	k := len(d.journal)
	switch ch.N(3) {
	case 0:
		k = 0
	case 1: // all of it
	default:
		k = ch.N(len(d.journal) + 1)
	}
	desc = fmt.Sprintf("journal %d/%d", k, len(d.journal))
	d.commit(k)
	d.journal = nil
	// The durable name space becomes the current one.
	var rec func(n *inode)
	var files []*inode
	seen := map[*inode]bool{}
	rec = func(n *inode) {
		n.ents = map[string]*inode{}
		names := make([]string, 0, len(n.durE))
		for name := range n.durE {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			c := n.durE[name]
			n.ents[name] = c
			if c.kind == kDir {
				rec(c)
			} else if !seen[c] {
				seen[c] = true
				files = append(files, c)
			}
		}
	}
	rec(d.root)
	for _, n := range files {
		n.locked = nil
		if n.kind != kFile || len(n.pend) == 0 {
			if n.kind == kFile {
				n.data = append([]byte(nil), n.dur...)
			}
			continue
		}
		var ops []wop
		mode := ch.N(4)
		switch mode {
		case 0: // nothing reached the platter
		case 1: // everything did
			ops = n.pend
		case 2: // a prefix, the last write possibly torn
			c := ch.N(len(n.pend) + 1)
			ops = append(ops, n.pend[:c]...)
			if c < len(n.pend) && !n.pend[c].trunc && len(n.pend[c].data) > 1 && ch.N(2) == 1 {
				o := n.pend[c]
				o.data = o.data[:1+ch.N(len(o.data)-1)]
				ops = append(ops, o)
			}
		default: // an arbitrary subset
			for _, o := range n.pend {
				if ch.N(2) == 1 {
					ops = append(ops, o)
				}
			}
		}
		n.data = n.applyData(ops, n.dur)
		n.dur = append([]byte(nil), n.data...)
		desc += fmt.Sprintf(" ino%d:mode%d,%d/%d ops", n.ino, mode, len(ops), len(n.pend))
		n.pend = nil
	}
	return desc
}

// Kill is a process crash: the page cache survives.
func (d *Disk) unlockAll() {
	d.walk(func(_ string, n *inode) { n.locked = nil })
}

// Clone copies the whole disk (only used when no process has files open).
func (d *Disk) Clone() *Disk {
	m := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if n == nil {
			return nil
		}
		if c := m[n]; c != nil {
			return c
		}
		c := &inode{ino: n.ino, kind: n.kind, mode: n.mode, target: n.target, nlink: n.nlink, mtime: n.mtime, opener: n.opener}
		m[n] = c
		c.data = append([]byte(nil), n.data...)
		c.dur = append([]byte(nil), n.dur...)
		c.pend = append([]wop(nil), n.pend...)
		if n.ents != nil {
			c.ents = map[string]*inode{}
			c.durE = map[string]*inode{}
			for k, v := range n.ents {
				c.ents[k] = cp(v)
			}
			for k, v := range n.durE {
				c.durE[k] = cp(v)
			}
		}
		return c
	}
	nd := &Disk{name: d.name, nextIno: d.nextIno, limit: d.limit, readonly: d.readonly, ext4: d.ext4}
	nd.root = cp(d.root)
	for _, e := range d.journal {
		var ne jentry
		for _, c := range e {
			ne = append(ne, jchange{dir: cp(c.dir), name: c.name, node: cp(c.node)})
		}
		nd.journal = append(nd.journal, ne)
	}
	return nd
}
