//go:build go1.23

package zzverifsim

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/sa6mwa/krypto431"
)

// version is a file some save or export wrote, and what it holds.
type version struct {
	bytes []byte
	plain []byte
	snap  *Snap
	key   string
}

// damage returns an altered copy of base. The kinds of damage are those a
// disk, a bad transport or somebody tampering can do without the key.
func (w *World) damage(base []byte, vs []version) ([]byte, string) {
	b := append([]byte(nil), base...)
	recs, _ := frames(b)
	var bounds []int
	for _, r := range recs {
		bounds = append(bounds, r.off)
	}
	bounds = append(bounds, len(b))
	cutOut := func(i int) []byte { return base[bounds[i]:bounds[i+1]] }
	n := len(recs)
	other := vs[w.ch.N(len(vs))].bytes
	orecs, _ := frames(other)
	orec := func() []byte {
		if len(orecs) == 0 {
			return nil
		}
		r := orecs[w.ch.N(len(orecs))]
		return other[r.off : r.off+28+len(r.ct)]
	}
	if n == 0 {
		return append(b, 0), "byte added to a file without records"
	}
	switch w.ch.N(21) {
	case 0, 1:
		i := w.ch.N(len(b))
		b[i] ^= 1 << uint(w.ch.N(8))
		return b, fmt.Sprintf("bit of byte %d flipped", i)
	case 2:
		i := w.ch.N(len(b))
		b[i] = byte(w.ch.N(256))
		return b, fmt.Sprintf("byte %d set", i)
	case 3:
		i := w.ch.N(len(b))
		return b[:i], fmt.Sprintf("cut off after %d of %d bytes", i, len(base))
	case 4:
		i := w.ch.N(n)
		return b[:bounds[i]], fmt.Sprintf("cut off after record %d of %d", i, n)
	case 5:
		k := w.ch.Range(1, 64)
		for i := 0; i < k; i++ {
			b = append(b, byte(mix(uint64(i)+uint64(w.seed))))
		}
		return b, fmt.Sprintf("%d random bytes added", k)
	case 6:
		k := w.ch.Range(1, 4096)
		return append(b, make([]byte, k)...), fmt.Sprintf("%d zero bytes added", k)
	case 7:
		l := []uint32{0, 1, 24, 39, 40, 64, 65536, 1 << 31, 0xffffffff}[w.ch.N(9)]
		return binary.LittleEndian.AppendUint32(b, l), fmt.Sprintf("length %d added", l)
	case 8:
		i := w.ch.N(n)
		return append(b, cutOut(i)...), fmt.Sprintf("record %d repeated at the end", i)
	case 9:
		r := orec()
		return append(b, r...), "record of another version added"
	case 10:
		return append(b, other...), "whole other version added"
	case 11:
		i, j := w.ch.N(n), w.ch.N(n)
		var o []byte
		for x := 0; x < n; x++ {
			y := x
			if x == i {
				y = j
			} else if x == j {
				y = i
			}
			o = append(o, cutOut(y)...)
		}
		return o, fmt.Sprintf("records %d and %d swapped", i, j)
	case 12:
		i := w.ch.N(n)
		o := append([]byte(nil), b[:bounds[i]]...)
		return append(o, b[bounds[i+1]:]...), fmt.Sprintf("record %d removed", i)
	case 13:
		i := w.ch.N(n)
		o := append([]byte(nil), b[:bounds[i+1]]...)
		return append(o, b[bounds[i]:]...), fmt.Sprintf("record %d doubled", i)
	case 14:
		// the first records of one version, the rest of another
		i := w.ch.N(n + 1)
		j := w.ch.N(len(orecs) + 1)
		o := append([]byte(nil), b[:bounds[i]]...)
		if j < len(orecs) {
			o = append(o, other[orecs[j].off:]...)
		}
		return o, fmt.Sprintf("first %d records, then another version's from %d", i, j)
	case 15:
		i := w.ch.N(n)
		o := append([]byte(nil), b[:bounds[i]]...)
		o = append(o, orec()...)
		return append(o, b[bounds[i+1]:]...), fmt.Sprintf("record %d replaced by one of another version", i)
	case 16:
		i := w.ch.N(len(b))
		j := min(len(b), i+w.ch.Range(1, 4096))
		clear(b[i:j])
		return b, fmt.Sprintf("bytes %d to %d zero", i, j)
	case 17:
		k := w.ch.Range(1, 300)
		o := make([]byte, k)
		for i := range o {
			o[i] = byte(mix(uint64(i)*7 + w.seed))
		}
		return o, "some other file"
	case 18:
		// 512-byte blocks from another version of the file
		o := append([]byte(nil), b...)
		i := w.ch.N(len(o)/512+1) * 512
		copy(o[i:min(len(o), i+512)], other[min(len(other), i):])
		return o, fmt.Sprintf("the block at %d is from another version", i)
	case 19:
		i := w.ch.N(n)
		o := append([]byte(nil), b...)
		l := binary.LittleEndian.Uint32(o[bounds[i]:])
		l += uint32([]int{1, -1, 16, 1 << 20, -40}[w.ch.N(5)])
		binary.LittleEndian.PutUint32(o[bounds[i]:], l)
		return o, fmt.Sprintf("length of record %d changed to %d", i, l)
	default:
		// a record split in two or two joined
		i := w.ch.N(n)
		o := append([]byte(nil), b[:bounds[i]]...)
		if i+1 < n && w.ch.P(1, 2) {
			x := append([]byte(nil), cutOut(i)...)
			binary.LittleEndian.PutUint32(x, uint32(bounds[i+2]-bounds[i]-8))
			o = append(o, x...)
			o = append(o, cutOut(i + 1)[4:]...)
			return append(o, b[bounds[i+2]:]...), "two records joined"
		}
		x := cutOut(i)
		k := 4 + w.ch.N(len(x)-4)
		o = binary.LittleEndian.AppendUint32(o, uint32(k-4))
		o = append(o, x[4:k]...)
		o = binary.LittleEndian.AppendUint32(o, uint32(len(x)-k))
		o = append(o, x[k:]...)
		return append(o, b[bounds[i+1]:]...), "a record split"
	}
}

// verdict says which version the file still decrypts to: -1 if none.
func verdict(b []byte, key string, vs []version) int {
	plain, complete, err := refDecrypt(b, keyBytes(key))
	if err != nil || !complete {
		return -1
	}
	for i := range vs {
		if string(vs[i].plain) == string(plain) {
			return i
		}
	}
	return -2
}

func imageDiff(a, b map[string]string) string {
	var r []string
	for k := range a {
		if _, ok := b[k]; !ok {
			r = append(r, k+" is gone")
		} else if a[k] != b[k] {
			r = append(r, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k+" appeared")
		}
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func scenP04(w *World) {
	c := &histCfg{gen: 4, delKeys: 2, delMsgs: 1, compose: 5, receive: 3, edit: 3, export: 2, n: [2]int{1, 1}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	var vs []version
	add := func(path string, s *Snap) {
		b, ok := st.disk.ReadFile(path)
		if !ok {
			return
		}
		plain, complete, err := refDecrypt(b, keyBytes(st.pfk))
		if err != nil || !complete {
			return
		}
		vs = append(vs, version{append([]byte(nil), b...), plain, s, st.pfk})
	}
	add(st.path, st.cur)
	for i := w.ch.Range(1, 5); i > 0; i-- {
		w.history(st, c)
		add(st.path, st.cur)
		for _, t := range []string{"/move.gob", "/t2", "/k.bin"} {
			if _, ok := st.disk.ReadFile(home + t); ok && w.ch.P(1, 2) {
				s, _ := w.observe(st.disk, home+t, st.pfk)
				if s == nil {
					w.violate("P13,P03", "unreadable", "the export %s cannot be opened", t)
				}
				add(home+t, s)
			}
		}
	}
	if w.ch.P(1, 8) {
		// a large store has several records
		w.exec(w.opBulk(st, w.ch.Range(200, 900)), nil)
		add(st.path, st.cur)
	}
	if len(vs) == 0 {
		return
	}
	good := st.disk.Clone()
	for round := w.ch.Range(2, 10); round > 0; round-- {
		st.disk = good.Clone()
		v := vs[len(vs)-1]
		if w.ch.P(1, 4) {
			v = vs[w.ch.N(len(vs))]
		}
		b, desc := w.damage(v.bytes, vs)
		key := st.pfk
		switch w.ch.Weighted(8, 1, 1) {
		case 1: // the right file, a wrong key
			b, desc = v.bytes, "opened with a key one bit off"
			k := *keyBytes(key)
			i := w.ch.N(256)
			k[i/8] ^= 1 << uint(i%8)
			key = fmt.Sprintf("%x", k[:])
		case 2: // damaged twice
			b2, d2 := w.damage(b, vs)
			b, desc = b2, desc+", "+d2
		}
		want := verdict(b, key, vs)
		if want == -2 {
			// decrypts to something no save wrote as a whole (whole versions one
			// after the other, for example): to be refused.
			want = -1
		}
		w.note("damage: %s -> %d", desc, want)
		w.stats["damage"]++
		if want >= 0 {
			w.stats["damage_equivalent"]++
		}
		w.damagedRun(st, b, desc, key, want, vs)
	}
	st.disk = good
}

// damagedRun opens the damaged file in one of the ways the system has.
func (w *World) damagedRun(st *Station, b []byte, desc, key string, want int, vs []version) {
	plan := noFaults()
	if w.ch.P(1, 4) {
		for i := w.ch.Range(1, 3); i > 0; i-- {
			plan.Faults = append(plan.Faults, Fault{At: w.ch.N(12), Soft: true, Kind: []int{fShort, fIntr}[w.ch.N(2)], Arg: w.ch.N(4096)})
		}
	}
	how := w.ch.N(11)
	path := st.path
	if how >= 9 {
		path = home + "/in.gob"
	}
	st.disk.PutFile(path, b, 0600)
	st.disk.syncAll()
	before := st.disk.Image()
	var p *proc
	var mem, after, opened *Snap
	cmd := ""
	rd := fmt.Sprintf("AA DE OTH = TEXT = K")
	base := []string{"-f", path, "-K", key}
	cli := func(args ...string) {
		cmd = strings.Join(args, " ")
		p = w.rawCli(st, plan, append(base, args...)...)
	}
	switch how {
	case 0:
		cli("keys", "-l", "--all")
	case 1:
		cli("keys", "-n", "2")
	case 2:
		cli("keys", "-d", "-y", "-i", "AAAAA")
	case 3:
		cli("messages", "-n")
		p.setStdin(rd)
	case 4:
		cli("messages", "-l")
	case 5:
		cli("keys", "-o", home+"/dam.txt", "--all")
	case 6:
		cli("keys", "-E", home+"/dam.gob", "--all")
	case 7:
		cmd = "pfk change"
		p = w.rawCli(st, plan, "-f", path, "-K", key, "pfk", "-c", path, "-k", w.hexKey("newkey"), "-y")
	case 8:
		cmd = "Load"
		p = w.newProc(st, "lib load", plan, func() {
			k := libInstance(path, key)
			if w.cur == nil {
				return
			}
			k.CallSign = []rune("KEEP")
			mem = snapOf(k)
			err := k.Load()
			after = snapOf(k)
			if err != nil {
				theWorld.cur.code = 1
				return
			}
			opened = after
		})
	default:
		cmd = "Import"
		over := w.ch.P(1, 2)
		p = w.newProc(st, "lib import", plan, func() {
			k := libInstance(st.path, st.pfk)
			p := theWorld.cur
			if err := k.Load(); err != nil {
				p.code = 3
				return
			}
			mem = snapOf(k)
			_, err := k.ImportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPersistence(path), krypto431.WithPFKString(key), krypto431.WithOverwriteExistingKeysOnImport(over))
			after = snapOf(k)
			if err != nil {
				p.code = 1
			}
		})
	}
	w.run(p)
	what := fmt.Sprintf("%s (%s) on a file with %s", cmd, p.outcome(), desc)
	if p.hung != "" {
		w.violate("P04", "hang", "%s never ends: %s", what, p.hung)
	}
	if p.panicked != "" {
		w.violate("P04", "panic", "%s: %s", what, p.err())
	}
	if want >= 0 {
		// It still says exactly what some save wrote.
		if opened != nil {
			if d := diff(vs[want].snap, opened); d != "" {
				w.violate("P04", "contents", "%s opened with contents no save wrote: %s", what, d)
			}
		}
		return
	}
	if p.ok() {
		w.violate("P04", "accepted", "%s was not refused; output %.300q", what, string(p.stdout))
	}
	if p.code == 3 {
		return
	}
	if d := imageDiff(before, st.disk.Image()); d != "" {
		w.violate("P04", "modified", "%s was refused but %s", what, d)
	}
	if mem != nil {
		if d := diff(mem, after); d != "" {
			w.violate("P04,P13", "memory", "%s was refused but changed the instance: %s", what, d)
		}
	}
}

// opBulk makes many keys at once (stores of several records).
func (w *World) opBulk(st *Station, n int) *op {
	o := &op{kind: "bulk", st: st, args: []string{"keys", "-n", fmt.Sprint(n)}, mutates: true, must: true, mustTag: "P12,P02"}
	if st.cur.GS < 4 {
		return w.opGen(st)
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		nk, tag, m := w.newKeys(p, st, pre, post, n, nil, nil)
		if m != "" {
			return tag, m
		}
		want := pre.clone()
		want.Keys = append(want.Keys, nk...)
		return "P12,P03", diff(want, post)
	}
	return o
}
