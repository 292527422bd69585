//go:build go1.23

package zzverifsim

import (
	"fmt"
	"strings"

	"github.com/sa6mwa/krypto431"
)

const expl = "exploration"

var scenarios map[string]*Scenario

func init() {
	const hist = "the sequence of commands, their outcomes, every file operation and failure in them, and what power failures kept, differ"
	scenarios = map[string]*Scenario{
		"P01": {scenP01, hist, expl, true},
		"P02": {scenP02, hist, expl, true},
		"P03": {scenP03, hist, expl, true},
		"P04": {scenP04, "the damaged bytes and how they were opened differ", expl, true},
		"P05": {scenP05, hist, expl, false},
		"P06": {scenP06, hist, expl, false},
		"P07": {scenP07, hist, expl, true},
		"P08": {scenP08, hist, expl, true},
		"P10": {scenP10, hist, expl, true},
		"P11": {scenP11, hist, expl, true},
		"P14": {scenP14, hist, expl, true},
		"P22": {scenP22, hist, expl, true},
		"P23": {scenP23, hist, expl, true},
	}
}

func warmRun(w *World) {
	st := w.newStation("warm", "AA")
	w.exec(w.opInit(st), nil)
	for i := 0; i < 12; i++ {
		w.exec(w.pickOp(st, &histCfg{gen: 2, compose: 4, receive: 2, list: 2, print: 2, pdf: 2, reopen: 1}), nil)
	}
}

// histCfg weighs the operations of a history.
type histCfg struct {
	gen, delKeys, delMsgs, compose, receive, list, print, pdf, export, edit, composeKey, reopen, imp, reinit, rekey, regroup, wrong, session int
	n                                                                                                                                        [2]int
	modes                                                                                                                                    []int // fault modes to draw from
	again                                                                                                                                    int   // up to this many attempts from the same state
	gsAny                                                                                                                                    bool
	small                                                                                                                                    bool // few letters per key
	noJump                                                                                                                                   bool
	long                                                                                                                                     bool // keys of many pages too
}

func (w *World) setup(c *histCfg, name, call string) *Station {
	st := w.newStation(name, call)
	if c.gsAny || w.ch.P(1, 4) {
		st.gs = []int{5, 3, 4, 6, 8, 2, 1}[w.ch.Weighted(4, 2, 2, 2, 1, 1, 1)]
	}
	st.kl = w.ch.Range(20, 60)
	if c.small {
		st.kl = w.ch.Range(20, 40)
	}
	if c.long && w.ch.P(1, 5) {
		st.kl = w.ch.Range(61, []int{400, 1500, 7000}[w.ch.Weighted(4, 2, 1)])
	}
	return st
}

// begin initialises a station, possibly with things going wrong.
func (w *World) begin(c *histCfg, name, call string) *Station {
	st := w.setup(c, name, call)
	for i := 0; st.cur == nil; i++ {
		mode := fmNone
		if len(c.modes) > 0 && i < 3 && w.ch.P(1, 4) {
			mode = c.modes[w.ch.N(len(c.modes))]
		}
		o := w.opInit(st)
		if i >= 3 {
			o = w.opInit(st)
			st.disk.Remove(st.path)
			o.mustNot, o.must = false, true
		}
		w.exec(o, w.genPlan(o, mode))
	}
	if w.ch.P(1, 14) {
		// The operator keeps the store elsewhere and a link in its place.
		b, _ := st.disk.ReadFile(st.path)
		st.disk.Remove(st.path)
		st.disk.PutFile(home+"/vault/real.gob", b, 0600)
		st.disk.PutLink(st.path, home+"/vault/real.gob")
		st.disk.syncAll()
		w.stats["stores_behind_a_link"]++
	}
	return st
}

func (w *World) transport() string { return home + "/" + w.ch.Pick("move.gob", "t2", "k.bin") }

func (w *World) pickOp(st *Station, c *histCfg) *op {
	if len(st.future) > 0 && st.cur != nil && w.ch.P(1, 4) {
		if o := w.opLate(st); o != nil {
			return o
		}
	}
	switch w.ch.Weighted(c.gen, c.delKeys, c.delMsgs, c.compose, c.receive, c.list, c.print, c.pdf, c.export, c.edit, c.composeKey, c.reopen, c.imp, c.reinit, c.regroup, c.wrong, c.session) {
	case 0:
		return w.combine(w.opGen(st))
	case 1:
		return w.combine(w.opDelKeys(st))
	case 2:
		return w.combine(w.opDelMsgs(st))
	case 3:
		return w.combine(w.opCompose(st))
	case 4:
		return w.opReceive(st)
	case 5:
		return w.opList(st)
	case 6:
		return w.opPrint(st)
	case 7:
		return w.opPDF(st)
	case 8:
		return w.opExport(st, w.transport())
	case 9:
		return w.opEdit(st)
	case 10:
		return w.opComposeKey(st)
	case 11:
		return w.opReopen(st)
	case 12:
		for _, p := range []string{home + "/move.gob", home + "/t2", home + "/k.bin"} {
			if _, ok := st.disk.ReadFile(p); ok {
				return w.opImport(st, p, st.pfk)
			}
		}
		return w.opExport(st, w.transport())
	case 13:
		return w.opInit(st)
	case 14:
		return w.opRegroup(st, c)
	case 15:
		return w.opWrong(st)
	default:
		return w.opSession(st)
	}
}

// history runs a random history of operations on one station.
func (w *World) history(st *Station, c *histCfg) {
	n := w.ch.Range(c.n[0], c.n[1])
	for i := 0; i < n; i++ {
		w.between(st, c)
		o := w.pickOp(st, c)
		tries := 1
		if c.again > 1 {
			tries = w.ch.Range(1, c.again)
		}
		base, cur, sent, soft, pend := st.disk, st.cur, copySent(st.sent), st.soft, st.pend
		for j := 0; j < tries; j++ {
			if tries > 1 {
				st.disk, st.cur, st.sent, st.soft, st.pend = base.Clone(), cur, copySent(sent), soft[:len(soft):len(soft)], pend[:len(pend):len(pend)]
			}
			mode := fmNone
			if len(c.modes) > 0 {
				mode = c.modes[w.ch.N(len(c.modes))]
			}
			w.exec(o, w.genPlan(o, mode))
		}
		if st.cur == nil {
			return
		}
	}
}

func copySent(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// between lets time pass, moves the clock or the time zone.
func (w *World) between(st *Station, c *histCfg) {
	switch w.ch.Weighted(6, 3, 1, 1) {
	case 1:
		w.pass(int64(w.ch.Range(1, 100000)))
	case 2:
		if !c.noJump {
			w.jump(int64([]int{-3600, 3600, -86400, 90 * 86400, 400 * 86400}[w.ch.N(5)]))
		}
	case 3:
		st.zone = zones[w.ch.N(len(zones))]
	}
	if w.monitor && w.ch.P(1, 8) {
		// Somebody put the store back from a copy that others may read.
		if n := st.disk.resolve(st.path); n != nil {
			n.mode = []uint32{0644, 0666, 0640}[w.ch.N(3)]
			w.stats["stores_others_may_read"]++
		}
	}
}

// opRegroup changes the station's group size, or the length of the keys to come,
// through the library.
func (w *World) opRegroup(st *Station, c *histCfg) *op {
	gs, kl := []int{5, 4, 3, 6}[w.ch.N(4)], st.cur.KL
	if c.long || w.ch.P(1, 3) {
		gs, kl = st.cur.GS, w.ch.Range(20, 60)
		if c.long && w.ch.P(1, 2) {
			kl = w.ch.Range(61, []int{400, 1500, 7000}[w.ch.Weighted(2, 1, 2)])
		}
	}
	o := &op{kind: "regroup", st: st, mutates: true, must: true, mustTag: "P03"}
	o.lib = func(k *krypto431.Krypto431) error {
		k.GroupSize, k.KeyLength = gs, kl
		return k.Save()
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		want := pre.clone()
		want.GS, want.KL = gs, kl
		return "P03", diff(want, post)
	}
	o.after = func(p *proc, pre, post *Snap) {
		if post != nil {
			st.gs, st.kl = post.GS, post.KL
		}
	}
	return o
}

// opWrong is a command that must end in an error before anything is changed.
func (w *World) opWrong(st *Station) *op {
	o := &op{kind: "wrong", st: st, mustNot: true, mustTag: "P23"}
	switch w.ch.N(20) {
	case 9:
		o.args = []string{"keys", "-E", ""}
	case 10:
		o.args = []string{"keys", "-I", ""}
	case 11:
		o.args = []string{w.ch.Pick("keys", "messages"), "-o", ""}
	case 12:
		// No operation: an explanation, no error.
		o.args = []string{w.ch.Pick("keys", "messages", "pfk", "help", "version")}
		o.mustNot = false
	case 13:
		o.args = []string{w.ch.Pick("keys", "messages", "init", "pfk"), w.ch.Pick("--help", "-h")}
		o.mustNot = false
	case 14:
		o.args = []string{"keys", "-n", w.ch.Pick("0", "-1", "-3")}
		o.mustNot = false
	case 15:
		o.args = []string{"keys", "-n", w.ch.Pick("x", "1x", "1.5", "99999999999999999999")}
	case 16:
		o.args = []string{"keys", "-I", home + "/there/is/none"}
	case 17:
		o.args = []string{"keys", "-n", "1", "-x", w.ch.Pick("311299Z", "", "32JAN26", "0", "301200ZFEB26x", "2026-01-01")}
	case 18:
		o.args = []string{w.ch.Pick("messages", "keys"), w.ch.Pick("-l=maybe", "-q", "--new=", "-d=perhaps")}
		o.mustNot = false
	case 19:
		o.args = []string{w.ch.Pick("bogus", "KEYS", "-l", "keys -l")}
		o.mustNot = false
	case 0:
		o.args = []string{"messages", "-n"}
		o.stdin = []inPart{{data: []byte("this is no radiogram")}}
		o.mustTag = "P17,P08"
	case 1:
		o.args = []string{"keys", "-n", "2", "-x", "notatime"}
	case 2:
		o.args = []string{"messages", "-n"}
		o.stdin = []inPart{{data: []byte("AA DE " + st.cur.Call + " 99ZZ99ZZZ = TEXT")}}
	case 3:
		o.args = []string{"messages", "-n"}
		o.stdin = []inPart{{data: []byte("DE " + st.cur.Call + " = SOME TE")}, {err: 5, times: 1}}
		o.mustTag = "P17,P08"
	case 4:
		o.args = []string{"keys", "-o", home + "/nodir/x.txt"}
		o.printing = true
		o.mustTag = "P02"
	case 5:
		o.args = []string{"keys", "-E", home + "/nodir/x"}
		o.mustTag = "P02"
	case 6:
		o.args = []string{"keys", "--bogus"}
	case 7:
		o.args = []string{"messages", "-n"}
		o.mustTag = "P17,P08"
	case 8:
		o.args = []string{"keys", "-o", home + "/x.doc", "--type", "doc"}
		o.mustNot = false
		o.printing = true
	}
	return o
}

// ---- scenarios ----

func scenP01(w *World) {
	c := &histCfg{gen: 4, delKeys: 3, delMsgs: 2, compose: 5, receive: 3, edit: 3, composeKey: 1, imp: 1, export: 1, reinit: 2, n: [2]int{1, 5}, modes: []int{fmCrash, fmCrash, fmCrash, fmNone}, again: 4}
	w.bulk = 6
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP02(w *World) {
	c := &histCfg{gen: 4, delKeys: 2, delMsgs: 2, compose: 4, receive: 3, edit: 3, imp: 2, export: 4, print: 4, pdf: 2, reinit: 2, n: [2]int{1, 6}, modes: []int{fmFaults, fmFaults, fmFaults, fmNone}, again: 3}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP03(w *World) {
	w.edits = w.ch.Weighted(1, 1)
	w.rich = true
	c := &histCfg{gen: 4, delKeys: 3, delMsgs: 2, compose: 5, receive: 3, edit: 5, reopen: 5, session: 3, imp: 2, export: 2, composeKey: 2, reinit: 1, n: [2]int{3, 12}, modes: []int{fmNone, fmSoft}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP05(w *World) {
	w.monitor = true
	c := &histCfg{gen: 4, delKeys: 2, delMsgs: 1, compose: 5, receive: 3, edit: 2, imp: 2, export: 4, print: 4, pdf: 2, reinit: 1, n: [2]int{2, 8}, modes: []int{fmNone, fmFaults, fmCrash}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP06(w *World) {
	if w.ch.P(1, 8) {
		w.keysAndSalts()
		return
	}
	w.monitor = true
	c := &histCfg{gen: 4, delKeys: 2, delMsgs: 2, compose: 3, receive: 2, edit: 4, export: 4, reinit: 2, n: [2]int{3, 10}, modes: []int{fmNone, fmNone, fmFaults, fmCrash}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP07(w *World) {
	c := &histCfg{gen: 3, delKeys: 1, delMsgs: 2, compose: 8, composeKey: 5, receive: 3, edit: 1, list: 1, n: [2]int{4, 12}, modes: []int{fmNone, fmNone, fmFaults, fmCrash}, small: true}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
	if st.cur != nil && w.ch.P(1, 2) {
		w.drain(st)
	}
}

// drain uses up the keys: whatever is still taken for usable gets used.
func (w *World) drain(st *Station) {
	groups := [][]string{nil}
	for i := range st.cur.Keys {
		if k := st.cur.Keys[i].Keepers; len(k) > 0 {
			groups = append(groups, k)
		}
	}
	for n := 0; n < 10 && len(groups) > 0; n++ {
		i := w.ch.N(len(groups))
		p := w.exec(w.opComposeWith(st, groups[i], "DRAIN"), nil)
		if st.cur == nil {
			return
		}
		if !p.ok() {
			groups = append(groups[:i:i], groups[i+1:]...)
		}
	}
}

func scenP08(w *World) {
	c := &histCfg{gen: 3, compose: 8, composeKey: 5, edit: 2, wrong: 2, receive: 1, n: [2]int{3, 9}, modes: []int{fmNone, fmNone, fmNone, fmFaults}, small: true, gsAny: true}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP10(w *World) {
	c := &histCfg{gen: 3, compose: 1, receive: 12, edit: 1, list: 2, delKeys: 1, n: [2]int{4, 12}, modes: []int{fmNone}, small: true, gsAny: true}
	if w.ch.P(1, 10) {
		c.n = [2]int{25, 50}
	}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP11(w *World) {
	c := &histCfg{gen: 4, compose: 8, composeKey: 5, edit: 6, receive: 1, regroup: 1, n: [2]int{4, 12}, modes: []int{fmNone}, small: true}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP14(w *World) {
	w.edits = 3
	c := &histCfg{gen: 3, delKeys: 6, delMsgs: 4, compose: 4, receive: 2, edit: 2, export: 1, imp: 1, session: 6, n: [2]int{4, 12}, modes: []int{fmNone, fmNone, fmNone, fmCrash}, small: true}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

func scenP22(w *World) {
	c := &histCfg{gen: 3, compose: 3, composeKey: 1, receive: 2, edit: 3, list: 6, print: 6, pdf: 2, regroup: 1, n: [2]int{4, 12}, modes: []int{fmNone, fmNone, fmFaults}, long: true}
	st := w.begin(c, "A", "AA")
	if w.ch.P(1, 3) {
		for _, x := range []string{"out.txt", "out2.txt", "out.pdf", "list.dat"} {
			st.disk.PutFile(home+"/"+x, []byte(strings.Repeat("old rubbish, and more of it\n", 4000)), 0600)
		}
	}
	if st.cur != nil && w.ch.P(1, 3) {
		w.bulk = 3
		w.exec(w.opBurst(st), nil)
		if st.cur != nil && w.ch.P(1, 2) {
			w.exec(w.opPDF(st), nil)
		}
	}
	if st.cur != nil {
		w.history(st, c)
	}
}

func scenP23(w *World) {
	c := &histCfg{gen: 1, compose: 2, receive: 1, edit: 1, list: 5, print: 5, pdf: 2, export: 5, wrong: 6, reopen: 1, n: [2]int{3, 10}, modes: []int{fmNone, fmFaults, fmFaults}}
	w.late = w.ch.P(1, 4)
	st := w.begin(c, "A", "AA")
	w.history(st, c)
}

var _ = fmt.Sprint
