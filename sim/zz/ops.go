//go:build go1.23

package zzverifsim

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/sa6mwa/krypto431"
)

// op is one operation of an operator, with the judgement of its outcome.
type op struct {
	kind     string
	st       *Station
	args     []string
	lib      func(k *krypto431.Krypto431) error
	stdin    []inPart
	out      string // file it is asked to write besides the store
	printing bool
	raw      bool // args hold everything
	env      []string
	mutates  bool
	creates  bool   // makes the store when there is none
	must     bool   // has to succeed when nothing fails
	mustNot  bool   // has to be refused
	mustTag  string // properties broken when it does not
	noTag    string // property broken, besides P23, when it changes what it must not
	tty      func() *tty
	// check judges the state after the operation took effect completely.
	check func(p *proc, pre, post *Snap) (props, msg string)
	// done judges a reported success (output, other files).
	done  func(p *proc, pre, post *Snap) (props, msg string)
	after func(p *proc, pre, post *Snap) // bookkeeping, any outcome
}

func (w *World) prep(o *op, plan *Plan) *proc {
	var p *proc
	if o.lib != nil {
		p = w.libProc(o.st, plan, o.kind, o.lib)
	} else if o.raw {
		p = w.rawCli(o.st, plan, o.args...)
		p.env = o.env
	} else {
		p = w.cliProc(o.st, plan, o.args...)
	}
	for _, c := range o.stdin {
		c.data = append([]byte(nil), c.data...)
		p.stdin = append(p.stdin, c)
	}
	if o.tty != nil {
		p.tty = o.tty()
	}
	p.printing, p.printFile = o.printing, o.out
	p.storePath = o.st.path
	return p
}

// rehearse counts the file operations (and random bytes) of o without running
// it for real.
func (w *World) rehearse(o *op, plan *Plan) (nsys int, ent int, p *proc) {
	st := o.st
	d := st.disk
	st.disk = d.Clone()
	sec, nsec, mono, sim, procs, steps, mon, dig, sh, logn, log := w.sec, w.nsec, w.mono, w.simNs, w.procs, w.steps, w.monitor, w.digest, w.shape, w.logN, w.log
	w.monitor = false
	p = w.prep(o, plan)
	p.quiet = true
	w.run(p)
	st.disk = d
	w.sec, w.nsec, w.mono, w.simNs, w.procs, w.steps, w.monitor = sec, nsec, mono, sim, procs, steps, mon
	w.digest, w.shape, w.logN, w.log = dig, sh, logn, log
	return p.nsys, p.ent.pos, p
}

const (
	fmNone = iota
	fmFaults
	fmCrash
	fmSoft
)

// genPlan places faults inside the operation.
func (w *World) genPlan(o *op, mode int) *Plan {
	if mode == fmNone {
		return nil
	}
	n, ent, _ := w.rehearse(o, nil)
	pl := noFaults()
	if n == 0 {
		return pl
	}
	if mode == fmCrash {
		from := 0
		if w.ch.P(1, 5) {
			// Something had already gone wrong before the crash, and what is
			// done about it takes operations of its own.
			f := w.genFault(n)
			pl.Faults = append(pl.Faults, f)
			n2, _, _ := w.rehearse(o, pl)
			if f.At < n2-1 {
				from, n = f.At+1, n2
			}
		}
		f := Fault{At: from + w.ch.N(n-from), Kind: []int{fCrash, fCrashA, fTorn}[w.ch.N(3)], Power: w.ch.P(1, 2)}
		if f.Kind == fTorn {
			f.Arg = w.ch.N(4096)
		}
		pl.Faults = append(pl.Faults, f)
		return pl
	}
	if mode == fmSoft {
		for i := w.ch.Range(1, 4); i > 0; i-- {
			pl.Faults = append(pl.Faults, Fault{At: w.ch.N(n), Soft: true, Kind: []int{fShort, fIntr}[w.ch.N(2)], Arg: w.ch.N(4096)})
		}
		pl.EntShort = w.ch.P(1, 4)
		return pl
	}
	k := 1
	if w.ch.P(1, 4) {
		k = 2
	}
	for i := 0; i < k; i++ {
		pl.Faults = append(pl.Faults, w.genFault(n))
	}
	if ent > 0 && w.ch.P(1, 10) {
		pl.EntFailAt = w.ch.N(ent + 1)
	}
	if w.ch.P(1, 10) {
		pl.EntShort = true
	}
	return pl
}

func (w *World) genFault(n int) Fault {
	f := Fault{At: w.ch.N(n)}
	switch w.ch.Weighted(10, 2, 2, 3, 1, 2, 1, 3, 1) {
	case 0:
		f.Kind, f.Arg = fErr, w.ch.N(8)
	case 1:
		f.Kind, f.Arg = fShort, w.ch.N(4096)
	case 2:
		f.Kind = fIntr
	case 3:
		f.Kind, f.Arg = fFull, w.ch.N(3000)
	case 4:
		f.Kind = fRO
	case 5:
		f.Kind = fBad
	case 6:
		f.Kind = fNoFd
	case 7:
		f.Kind = fFlush
	case 8:
		f.Kind, f.Arg = fClock, []int{3600, -3600, 86400, -86400, 400 * 86400}[w.ch.N(5)]
	}
	return f
}

func (pl *Plan) quietPlan() bool {
	return pl == nil || len(pl.Faults) == 0 && pl.EntFailAt < 0
}

// exec runs an operation and judges everything that can be judged about it.
func (w *World) exec(o *op, plan *Plan) *proc {
	st := o.st
	pre := st.cur
	preBytes, had := st.disk.ReadFile(st.path)
	files := map[string]bool{}
	for _, f := range st.disk.Files() {
		files[f] = true
	}
	p := w.prep(o, plan)
	if plan != nil && len(plan.Faults) > 0 {
		w.logf("plan %v", plan.Faults)
	}
	w.shape = fold(w.shape, o.kind)
	w.run(p)
	st.disk.heal()
	if p.tty != nil {
		p.stdout = csi.ReplaceAll(p.stdout, nil)
		w.stats["prompts"] += p.tty.asked
	}
	w.stats["op."+o.kind]++
	if plan != nil && plan.EntFailAt >= 0 && p.ent.failed > 0 {
		p.faulted++
	}
	keys := []string{st.pfk}
	if w.monitor {
		if p.printing && !contains(p.failedOps, "unlink") && !p.fatal && !p.d.readonly {
			// A print-out is what was asked for, under the name asked for.
			for _, f := range st.disk.Files() {
				if n := st.disk.resolve(f); n != nil && n.isPrint && n.writer == p.id && f != o.out && (p.crashed == nil || path.Dir(f) != path.Dir(o.out)) {
					n.isPrint, n.lastSample = false, 0
					w.touch = append(w.touch, touchRec{n, f})
				}
			}
		}
		w.checkMonitors(keys, secretsOf(keys, pre))
	}
	w.judgeOn(o, p, pre, preBytes, had, files)
	return p
}

// judgeOn judges an operation. A violation of another property than the one
// under test ends the run only if there is no store to go on with.
func (w *World) judgeOn(o *op, p *proc, pre *Snap, preBytes []byte, had bool, files map[string]bool) {
	st := o.st
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(abortRun); !ok || w.viol != nil || w.other == nil {
			panic(r)
		}
		post, _ := w.look(st)
		if post == nil {
			panic(r)
		}
		if o.after != nil {
			o.after(p, pre, post)
		}
		w.stats["went_on"]++
		if w.stats["went_on"] > 50 {
			panic(r)
		}
		st.soft = append(st.soft, pre)
		st.cur = post
		w.invariants(o, p)
	}()
	w.judge(o, p, pre, preBytes, had, files)
}

func cause(p *proc) string {
	switch {
	case p.crashed != nil:
		return "P01"
	case p.faulted > 0:
		return "P02"
	}
	return "P03"
}

func addTag(a, b string) string {
	if b == "" {
		return a
	}
	if a == "" {
		return b
	}
	if strings.Contains(a, b) {
		return a
	}
	return a + "," + b
}

func (w *World) judge(o *op, p *proc, pre *Snap, preBytes []byte, had bool, files map[string]bool) {
	st := o.st
	postBytes, has := st.disk.ReadFile(st.path)
	same := had == has && string(preBytes) == string(postBytes)
	var post *Snap
	msg := ""
	if same {
		post = pre
	} else if has {
		post, msg = w.look(st)
	}
	what := fmt.Sprintf("%s on %s (%s)", o.kind, st.name, p.outcome())
	if p.hung != "" {
		w.violate(addTag(o.mustTag, cause(p)), "hang", "%s never ends: %s", what, p.hung)
	}
	// What a power failure may bring back: states from before a command that
	// was never reported successful and so was not necessarily durable.
	power := p.crashed != nil && p.crashed.Power
	back := false
	if power {
		for _, s := range st.soft {
			if diff(s, post) == "" {
				back = true
			}
		}
	}
	if pre != nil && post == nil && !back {
		w.violate(addTag(cause(p), map[bool]string{true: "P23", false: cause(p)}[!o.mutates]), "lost", "after %s the store can no longer be opened: %q; before: %s", what, msg, pre.short())
	}
	if p.panicked != "" && !p.fatal && p.ent.failed == 0 {
		w.violate(addTag(o.mustTag, map[bool]string{true: "P02", false: "P08"}[p.faulted > 0]), "panic", "%s: %s", what, p.err())
	}
	valid := func() (string, string) {
		if !o.mutates {
			return addTag("P23", o.noTag), "the store changed"
		}
		if post == nil {
			return cause(p), "there is no store"
		}
		return o.check(p, pre, post)
	}
	switch {
	case p.crashed != nil:
		if pre == nil && o.creates && post == nil {
			if has && len(postBytes) > 0 {
				w.violate("P01", "partial", "%s left a store that cannot be opened: %s", what, msg)
			}
			break
		}
		if !same && !back && diff(pre, post) != "" {
			if tag, m := valid(); m != "" {
				w.violate(addTag("P01", tag), "mixed", "%s left neither the contents from before nor from after: %s", what, m)
			}
		}
	case p.ok():
		if o.mustNot {
			w.violate(o.mustTag, "accepted", "%s was not refused; input %.200q", what, o.input())
		}
		if o.mutates {
			if tag, m := valid(); m != "" {
				if p.faulted > 0 {
					tag = addTag(tag, "P02")
				}
				if s := o.input(); s != "" {
					m += fmt.Sprintf("; input %.300q", s)
				}
				w.violate(tag, "result", "%s: %s", what, m)
			}
		} else if !same {
			w.violate(addTag("P23", o.noTag), "changed", "%s changed the store (%s)", what, diff(pre, post))
		}
		if o.done != nil {
			if tag, m := o.done(p, pre, post); m != "" {
				if p.faulted > 0 {
					tag = addTag(tag, "P02")
				}
				w.violate(tag, "report", "%s: %s", what, m)
			}
		}
		if o.mutates && w.ch.P(1, 3) {
			// A power failure right after the reported success.
			d := st.disk.Clone()
			w.powerLoss(d)
			after, m := w.observe(d, st.path, st.pfk)
			if df := diff(post, after); df != "" {
				w.violate(addTag("P01", map[bool]string{true: "P14", false: "P01"}[strings.Contains(o.kind, "delete")]), "undurable", "after %s reported success a power failure lost it: %s %s", what, m, df)
			}
		}
	default:
		if o.must && !p.hard {
			w.violate(o.mustTag, "refused", "%s failed although nothing was wrong: %s", what, p.err())
		}
		if !same {
			if p.faulted == 0 {
				w.violate(addTag("P23,P08", o.noTag), "changed", "%s ended in an error and changed the store: %s: %s", what, diff(pre, post), p.err())
			}
			if diff(pre, post) != "" {
				if tag, m := valid(); m != "" {
					w.violate(addTag("P02", tag), "mixed", "%s failed and left neither the contents from before nor from after: %s", what, m)
				}
			}
		}
	}
	// Nothing may be left behind.
	if p.crashed == nil && !p.fatal && (!o.mutates || !p.ok()) && !contains(p.failedOps, "unlink") && !p.d.readonly {
		ro := false
		for _, f := range p.plan.Faults {
			if f.Kind == fRO || f.Kind == fBad {
				ro = true
			}
		}
		for _, f := range st.disk.Files() {
			if !files[f] && f != o.out && f != st.path && !ro {
				w.violate("P23", "litter", "%s left %s behind", what, f)
			}
		}
	}
	if o.after != nil {
		o.after(p, pre, post)
	}
	switch {
	case power, p.ok() && o.mutates:
		st.soft = nil
	case !same:
		st.soft = append(st.soft, pre)
	}
	st.cur = post
	w.invariants(o, p)
}

// invariants that hold between operations.
func (w *World) invariants(o *op, p *proc) {
	st := o.st
	if st.cur == nil {
		return
	}
	w.stats["states_checked"]++
	if len(st.soft) == 0 {
		// What was stored for good can be listed and sent.
		for _, m := range st.pend {
			if st.cur.msg(m.id) != nil {
				w.noteSent(st, m.pre, m.key, m.ct, "stored")
			}
		}
		st.pend = nil
	}
	ids := map[string]bool{}
	for i := range st.cur.Keys {
		k := &st.cur.Keys[i]
		if how, ok := st.sent[k.Runes]; ok && !k.Used {
			w.violate("P07", "unmarked", "key %s was used for traffic put out (%s) but is not marked used after %s (%s)", k.Id, how, o.kind, p.outcome())
		}
		if ids[k.Id] {
			w.violate("P12,P13", "duplicate", "two keys have the identifier %s after %s", k.Id, o.kind)
		}
		ids[k.Id] = true
	}
}

// ---- operations ----

func realLen(kl, gs int) int { return (kl + gs - 1) / gs * gs }

func vet(l []string) []string {
	var r []string
	for _, x := range l {
		for _, y := range strings.FieldsFunc(x, func(c rune) bool { return c == ',' || c == ' ' }) {
			r = append(r, strings.ToUpper(y))
		}
	}
	return r
}

func without(l []string, x string) []string {
	var r []string
	done := false
	for _, y := range l {
		if y == x && !done {
			done = true
			continue
		}
		r = append(r, y)
	}
	return r
}

const yearNs = int64(365 * 24 * time.Hour)

// newKeys judges the keys that appeared between pre and post.
func (w *World) newKeys(p *proc, st *Station, pre, post *Snap, n int, keepers []string, exp *int64) ([]KeySnap, string, string) {
	var nk []KeySnap
	seen := map[string]int{}
	for _, k := range post.Keys {
		seen[k.Id]++
		if pre == nil || pre.key(k.Id) == nil {
			nk = append(nk, k)
		}
	}
	for id, c := range seen {
		if c > 1 {
			return nil, "P12", "identifier " + id + " was given twice"
		}
	}
	if len(nk) != n {
		return nil, "P12,P02,P03", fmt.Sprintf("%d keys were made instead of %d", len(nk), n)
	}
	for _, k := range nk {
		if len(k.Id) != post.GS || strings.Trim(k.Id, upperAlpha) != "" {
			return nil, "P12", fmt.Sprintf("identifier %q is not a group of %d letters", k.Id, post.GS)
		}
		if len(k.Runes) < post.KL || strings.Trim(k.Runes, upperAlpha) != "" {
			return nil, "P12", fmt.Sprintf("key %s has %d letters of %d: %q", k.Id, len(k.Runes), post.KL, k.Runes)
		}
		if k.Used || k.Comp || k.Comment != "" {
			return nil, "P12,P07,P03", "new key " + k.Id + " is not fresh: " + k.canon()
		}
		if !eqList(k.Keepers, keepers) {
			return nil, "P11,P12,P03", fmt.Sprintf("keepers of new key %s are %q instead of %q", k.Id, k.Keepers, keepers)
		}
		if !p.jumped {
			if k.Created < p.t0 || k.Created > p.t1 {
				return nil, "P16", fmt.Sprintf("new key %s was created at %d, outside %d..%d", k.Id, k.Created, p.t0, p.t1)
			}
			if exp == nil && (k.Expires < p.t0+yearNs || k.Expires > p.t1+yearNs) {
				return nil, "P16,P03", fmt.Sprintf("new key %s expires at %s instead of a year from %s", k.Id, time.Unix(0, k.Expires).UTC(), time.Unix(0, p.t0).UTC())
			}
		}
		if exp != nil && k.Expires != *exp {
			return nil, "P16,P03", fmt.Sprintf("new key %s expires at %s instead of %s", k.Id, time.Unix(0, k.Expires).UTC(), time.Unix(0, *exp).UTC())
		}
	}
	return nk, "", ""
}

// genDTG makes a complete date-time group and the instant it stands for.
func (w *World) genDTG(days int) (string, int64) {
	z := whole[w.ch.N(len(whole))]
	if days >= 300 && w.ch.P(1, 6) {
		days = 15000 // any year two digits can tell
	}
	t := w.now().In(z).Add(time.Duration(w.ch.Range(-days, days)) * 24 * time.Hour).Add(time.Duration(w.ch.N(1440)) * time.Minute).Truncate(time.Minute)
	for t.Year() > 2067 || t.Year() < 1970 {
		t = t.AddDate(-60*(t.Year()/2068)+30*(1969/t.Year()), 0, 0)
	}
	return refDTG(t), t.UnixNano()
}

// anyDTG stands for a date-time group which is not looked at.
const anyDTG int64 = -1 << 63

// partialDTG makes a date-time group without year, or month and year, or also
// zone. The clock tells what it stands for.
func (w *World) partialDTG(st *Station) (string, func(p *proc) int64) {
	z := zones[w.ch.N(9)]
	form := w.ch.N(3)
	if form == 0 {
		if strings.Contains(st.zone.String(), "/") {
			form = 1
		} else {
			z = st.zone
		}
	}
	t := time.Date(2023, time.Month(w.ch.Range(1, 12)), w.ch.Range(1, 28), w.ch.N(24), w.ch.N(60), 0, 0, z)
	s := refDTG(t)[:[]int{6, 7, 10}[form]]
	at := func(now int64) int64 {
		n := time.Unix(0, now).In(z)
		m := n.Month()
		if form == 2 {
			m = t.Month()
		}
		return time.Date(n.Year(), m, t.Day(), t.Hour(), t.Minute(), 0, 0, z).UnixNano()
	}
	w.stats["partial_dtg"]++
	return s, func(p *proc) int64 {
		if p.jumped || at(p.t0) != at(p.t1) {
			return anyDTG
		}
		return at(p.t0)
	}
}

func (w *World) keeperArgs() ([]string, []string) {
	var args, list []string
	n := w.ch.Weighted(3, 4, 2, 1)
	for i := 0; i < n; i++ {
		c := calls[w.ch.N(len(calls))]
		list = append(list, c)
	}
	if n == 3 && w.ch.P(1, 2) {
		// A net of many stations.
		for i := w.ch.Range(3, 14); i > 0; i-- {
			list = append(list, fmt.Sprintf("SM%d%c%c", w.ch.N(10), 'A'+w.ch.N(26), 'A'+w.ch.N(26)))
		}
	}
	list = uniq(list)
	if len(list) == 0 {
		return nil, nil
	}
	switch w.ch.N(3) {
	case 0:
		for _, c := range list {
			args = append(args, "-k", c)
		}
	case 1:
		args = []string{"-k", strings.Join(list, ",")}
	default:
		args = []string{"-k", strings.ToLower(strings.Join(list, " "))}
	}
	return args, list
}

func (w *World) opInit(st *Station) *op {
	n := w.ch.Range(0, 6)
	if st.gs == 1 {
		n = min(n, 3)
	}
	ka, kl := w.keeperArgs()
	args := []string{"init", "-c", st.call, "-n", fmt.Sprint(n), "-l", fmt.Sprint(st.kl), "-g", fmt.Sprint(st.gs)}
	args = append(args, ka...)
	var exp *int64
	if n > 0 && w.ch.P(1, 4) {
		d, x := w.genDTG(300)
		args = append(args, "-x", d)
		exp = &x
	}
	yes := w.ch.P(1, 2)
	if yes {
		args = append(args, "-y")
	}
	exists := st.disk.resolve(st.path) != nil
	o := &op{kind: "init", st: st, args: args, mutates: true, creates: true, mustTag: "P21"}
	if exists && !yes {
		o.mustNot = true
	} else {
		o.must = true
		o.mustTag = "P12,P02"
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		nk, tag, m := w.newKeys(p, st, nil, post, n, without(kl, st.call), exp)
		if m != "" {
			return tag, m
		}
		want := &Snap{GS: st.gs, KL: st.kl, Col: 110, KCol: 30, Call: st.call, Keys: nk}
		return "P03,P02", diff(want, post)
	}
	o.after = func(p *proc, pre, post *Snap) {
		if post != pre {
			st.sent, st.pend = map[string]string{}, nil
		}
	}
	return o
}

func (w *World) opGen(st *Station) *op {
	n := w.ch.Range(1, 5)
	if w.bulk > 0 && w.ch.P(1, w.bulk) {
		n = w.ch.Range(30, 260)
	}
	ka, kl := w.keeperArgs()
	args := append([]string{"keys", "-n", fmt.Sprint(n)}, ka...)
	var exp *int64
	if w.ch.P(1, 3) {
		d, x := w.genDTG(300)
		args = append(args, "-x", d)
		exp = &x
	}
	o := &op{kind: "generate", st: st, args: args, mutates: true, must: true, mustTag: "P12,P02"}
	if st.cur != nil && (st.cur.GS == 1 && len(st.cur.Keys)+n > 12 || st.cur.GS == 2 && len(st.cur.Keys)+n > 300) {
		return w.opList(st)
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		nk, tag, m := w.newKeys(p, st, pre, post, n, without(kl, pre.Call), exp)
		if m != "" {
			return tag, m
		}
		want := pre.clone()
		want.Keys = append(want.Keys, nk...)
		return "P12,P03", diff(want, post)
	}
	return o
}

// someIds picks identifiers of existing (and sometimes unknown) items.
func (w *World) someIds(all []string, gs int) []string {
	var ids []string
	n := w.ch.Range(1, 3)
	for i := 0; i < n; i++ {
		if len(all) > 0 && w.ch.Weighted(6, 1) == 0 {
			ids = append(ids, all[w.ch.N(len(all))])
		} else {
			ids = append(ids, strings.Repeat("X", gs))
		}
	}
	return ids
}

func (s *Snap) keyIds() []string {
	var r []string
	for _, k := range s.Keys {
		r = append(r, k.Id)
	}
	return r
}

func (s *Snap) msgIds() []string {
	var r []string
	for _, m := range s.Msgs {
		r = append(r, m.Id)
	}
	return r
}

func idArgs(w *World, flag string, ids []string) []string {
	switch w.ch.N(2) {
	case 0:
		var a []string
		for _, i := range ids {
			a = append(a, flag, i)
		}
		return a
	default:
		return []string{flag, strings.Join(ids, ",")}
	}
}

func delKeys(pre *Snap, ids []string, st *Station) (*Snap, int) {
	want := pre.clone()
	n := 0
	for _, id := range ids {
		for i := range want.Keys {
			if strings.EqualFold(want.Keys[i].Id, id) {
				want.Keys = append(want.Keys[:i:i], want.Keys[i+1:]...)
				n++
				break
			}
		}
	}
	return want, n
}

// listed is what the store holds once the messages f selects were listed: those
// whose key has arrived in the meantime are read. amb: it is left open.
func (s *Snap) listed(f func(*MsgSnap) bool) (r *Snap, amb bool) {
	r = s.clone()
	for i := range r.Msgs {
		m := &r.Msgs[i]
		if m.KeyId != "" || !f(m) {
			continue
		}
		plain, key, ct, chain, ok, a := refIncoming(r, m.Plain)
		amb = amb || a
		if ok {
			m.Plain, m.KeyId, m.Cipher = plain, key, ct
			for _, c := range chain {
				r.key(c.id).Used = true
			}
		}
	}
	return
}

// delListed judges that exactly these messages are gone after the ones f
// selects were listed (whether listing them reads late ones or not).
func delListed(pre, post *Snap, ids []string, f func(*MsgSnap) bool) string {
	want, _ := delMsgs(pre, ids)
	d := diff(want, post)
	if d == "" {
		return ""
	}
	l, amb := pre.listed(f)
	want, _ = delMsgs(l, ids)
	if diff(want, post) == "" {
		return ""
	}
	if amb && len(want.Msgs) == len(post.Msgs) {
		for i := range want.Msgs {
			if want.Msgs[i].Id != post.Msgs[i].Id {
				return d
			}
		}
		return ""
	}
	return d
}

func delMsgs(pre *Snap, ids []string) (*Snap, int) {
	want := pre.clone()
	n := 0
	for _, id := range ids {
		for i := range want.Msgs {
			if want.Msgs[i].Id == id {
				want.Msgs = append(want.Msgs[:i:i], want.Msgs[i+1:]...)
				n++
				break
			}
		}
	}
	return want, n
}

func (w *World) opDelKeys(st *Station) *op {
	ids := w.someIds(st.cur.keyIds(), st.cur.GS)
	_, n := delKeys(st.cur, ids, st)
	arg := ids
	if w.ch.P(1, 4) {
		arg = []string{strings.ToLower(strings.Join(ids, " "))}
	}
	o := &op{kind: "delete keys", st: st, args: append([]string{"keys", "-d", "-y"}, idArgs(w, "-i", arg)...), mutates: n > 0, must: true, mustTag: "P14"}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		want, _ := delKeys(pre, ids, st)
		return "P14", diff(want, post)
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if n > 0 && !strings.Contains(string(p.stderr), fmt.Sprintf("Deleted %d keys.", n)) {
			return "P14", fmt.Sprintf("%d keys were deleted but it said %q", n, p.stderr)
		}
		return "", ""
	}
	return o
}

func (w *World) opDelMsgs(st *Station) *op {
	ids := w.someIds(st.cur.msgIds(), 4)
	want, n := delMsgs(st.cur, ids)
	o := &op{kind: "delete messages", st: st, args: append([]string{"messages", "-d", "-y"}, idArgs(w, "-i", ids)...), mutates: n > 0, must: true, mustTag: "P14"}
	o.check = func(p *proc, pre, post *Snap) (string, string) { return "P14", diff(want, post) }
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if n > 0 && !strings.Contains(string(p.stderr), fmt.Sprintf("Deleted %d messages.", n)) {
			return "P14", fmt.Sprintf("%d messages were deleted but it said %q", n, p.stderr)
		}
		return "", ""
	}
	return o
}

// capacity says whether the station certainly has enough keys for the text.
func capacity(s *Snap, to []string, text string, skip string) bool {
	usable, n := 1<<30, 0
	for i := range s.Keys {
		if eligible(&s.Keys[i], s.GS, to) && s.Keys[i].Id != skip {
			n++
			usable = min(usable, len(s.Keys[i].Runes)-s.GS-5)
		}
	}
	return n > 0 && supported(text) && n >= keysNeeded(text, usable)
}

func (w *World) pickTo(st *Station) []string {
	var pool [][]string
	pool = append(pool, nil)
	for _, k := range st.cur.Keys {
		if len(k.Keepers) > 0 {
			pool = append(pool, k.Keepers)
			if len(k.Keepers) > 1 {
				pool = append(pool, k.Keepers[:1], k.Keepers[1:])
			}
		}
	}
	pool = append(pool, []string{"ZZ9"})
	to := pool[w.ch.N(len(pool))]
	switch w.ch.Weighted(12, 1, 1) {
	case 1:
		// A station that is called nearly the same.
		if len(to) > 0 {
			i := w.ch.N(len(to))
			c := to[i]
			base, _, _ := strings.Cut(c, "/")
			l := []string{base, c + "/P", c + "A", "X" + c}
			if len(c) > 1 && !strings.HasSuffix(c[:len(c)-1], "/") {
				l = append(l, c[:len(c)-1])
			}
			to = append([]string{}, to...)
			to[i] = l[w.ch.N(len(l))]
			to = uniq(to)
		}
	case 2:
		// Stations that may have no key in common.
		to = uniq(append(append([]string{}, to...), pool[w.ch.N(len(pool))]...))
	}
	return to
}

// judgeOutgoing judges the effect of composing one message.
func (w *World) judgeOutgoing(p *proc, pre, post *Snap, to []string, text, radiogram string, dtg *int64, keyId string) (string, string) {
	var m *MsgSnap
	for i := range post.Msgs {
		if pre.msg(post.Msgs[i].Id) == nil {
			if m != nil {
				return "P08", "more than one message appeared"
			}
			m = &post.Msgs[i]
		}
	}
	if m == nil {
		return "P09,P02,P03", "the message was not stored"
	}
	text2, chain, err := refDecipher(pre.keyFn(), pre.GS, m.KeyId, m.Cipher)
	if err != nil {
		return "P09", fmt.Sprintf("the cipher text cannot be deciphered by hand: %v (key %s, %d letters)", err, m.KeyId, len(m.Cipher))
	}
	if text2 != text {
		return "P09", fmt.Sprintf("a recipient reads %q instead of %q", text2, text)
	}
	if m.Plain != text || m.From != pre.Call || !eqSeq(m.To, to) {
		return "P09", fmt.Sprintf("stored as from %q to %q: %q instead of from %q to %q: %q", m.From, m.To, m.Plain, pre.Call, to, text)
	}
	if len(m.Cipher)%pre.GS != 0 {
		return "P09", "the cipher text does not fill its groups"
	}
	if dtg != nil && *dtg != anyDTG && m.DTG != *dtg {
		return "P09", fmt.Sprintf("date-time group stands for %s instead of %s", time.Unix(0, m.DTG).UTC(), time.Unix(0, *dtg).UTC())
	}
	if dtg == nil && !p.jumped && (m.DTG < p.t0 || m.DTG > p.t1) {
		return "P09", "date-time group is not the current time"
	}
	if keyId != "" && m.KeyId != keyId {
		return "P11", fmt.Sprintf("key %s was used instead of the requested %s", m.KeyId, keyId)
	}
	want := pre.clone()
	seen := map[string]bool{}
	for i, c := range chain {
		k := want.key(c.id)
		if seen[c.id] {
			return "P07", "key " + c.id + " was used twice within one message"
		}
		seen[c.id] = true
		if k.Used {
			return "P07,P11", "used key " + c.id + " was used again"
		}
		if !(i == 0 && keyId != "") && !eligible(k, pre.GS, to) || k.Comp || len(k.Id) != pre.GS {
			return "P11", fmt.Sprintf("key %s (keepers %q, compromised %v) is not eligible for a message to %q", k.Id, k.Keepers, k.Comp, to)
		}
		k.Used = true
	}
	want.Msgs = append(want.Msgs, *m)
	if d := diff(want, post); d != "" {
		for _, c := range chain {
			if k := post.key(c.id); k != nil && !k.Used {
				return "P07", "key " + c.id + " enciphered the message but is not marked used"
			}
		}
		for _, k := range post.Keys {
			if o := want.key(k.Id); o != nil && o.Used != k.Used {
				return "P08,P07,P11", "key " + k.Id + " changed its used mark without being used: " + d
			}
		}
		return "P08,P03", d
	}
	return "", ""
}

func eqSeq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// pending is a message stored by a command that may not have made it last.
type pending struct {
	pre         *Snap
	id, key, ct string
}

// noteSent records the keys of traffic that has left the station.
func (w *World) noteSent(st *Station, pre *Snap, key, ct, how string) []chainLink {
	_, chain, _ := refDecipher(pre.keyFn(), pre.GS, key, ct)
	for _, c := range chain {
		if k := pre.key(c.id); k != nil {
			st.sent[k.Runes] = how
		}
	}
	return chain
}

func (w *World) opCompose(st *Station) *op {
	to := w.pickTo(st)
	text := w.genText(120)
	bad := w.ch.Weighted(12, 1) == 1
	if bad {
		text = w.spoil(text)
	}
	return w.opComposeWith(st, to, text)
}

func (w *World) opComposeWith(st *Station, to []string, text string) *op {
	dtg := ""
	var inst *int64
	if w.ch.P(1, 3) {
		d, x := w.genDTG(20)
		dtg, inst = d, &x
	}
	var part func(p *proc) int64
	if inst == nil && w.ch.P(1, 5) {
		dtg, part = w.partialDTG(st)
	}
	from := st.cur.Call
	rg := w.radiogram(to, from, dtg, text)
	o := &op{kind: "compose", st: st, args: []string{"messages", "-n"}, mutates: true, mustTag: "P08,P09"}
	w.splitStdin(o, rg)
	ok := supported(text)
	o.must = ok && capacity(st.cur, to, text, "")
	n := 0
	for i := range st.cur.Keys {
		if eligible(&st.cur.Keys[i], st.cur.GS, to) {
			n++
		}
	}
	if n == 0 || !ok {
		o.mustNot = true
		o.mustTag = "P11,P08"
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		if part != nil {
			x := part(p)
			inst = &x
		}
		return w.judgeOutgoing(p, pre, post, to, text, rg, inst, "")
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		t := parseTraffic(trafficOf(string(p.stdout)))
		if t == nil {
			return "P09", "no traffic was put out: " + string(p.stdout)
		}
		var m *MsgSnap
		for i := range post.Msgs {
			if pre.msg(post.Msgs[i].Id) == nil {
				m = &post.Msgs[i]
			}
		}
		if m == nil {
			return "P09", "traffic was put out but no message stored"
		}
		if t.key != m.KeyId || t.ct != m.Cipher || t.from != m.From || !eqSeq(t.to, m.To) || t.count != len(m.Cipher)/pre.GS+1 {
			return "P09,P22", fmt.Sprintf("traffic put out differs from the stored message: %q, stored key %s cipher %s", t.raw, m.KeyId, m.Cipher)
		}
		return "", ""
	}
	o.after = func(p *proc, pre, post *Snap) {
		if t := parseTraffic(trafficOf(string(p.stdout))); t != nil {
			w.noteSent(st, pre, t.key, t.ct, "composed, "+p.outcome())
		}
		if post != nil && post != pre {
			for i := range post.Msgs {
				m := &post.Msgs[i]
				if pre.msg(m.Id) == nil && m.Cipher != "" {
					st.pend = append(st.pend, pending{pre, m.Id, m.KeyId, m.Cipher})
				}
			}
		}
	}
	return o
}

// input is all there is on standard input.
func (o *op) input() (s string) {
	for _, p := range o.stdin {
		s += string(p.data)
	}
	return
}

// splitStdin delivers s in pieces.
func (w *World) splitStdin(o *op, s string) {
	b := []byte(s)
	switch w.ch.N(3) {
	case 0:
		o.stdin = []inPart{{data: b}}
	default:
		h := uint64(w.ch.N(1 << 16))
		m := 1 + w.ch.N(40)
		for len(b) > 0 {
			h = mix(h + 0x9e3779b97f4a7c15)
			n := min(1+int(h%uint64(m)), len(b))
			o.stdin = append(o.stdin, inPart{data: b[:n]})
			b = b[n:]
		}
	}
}

// refIncoming is the reference for what an incoming text becomes.
// amb: the reference leaves it open whether it deciphers.
func refIncoming(pre *Snap, text string) (plain, key, ct string, chain []chainLink, ok, amb bool) {
	var f strings.Builder
	for _, r := range text {
		if r == ' ' || r == '=' || r == '\n' || r == '\t' || r == '\r' {
			continue
		}
		u := []rune(strings.ToUpper(string(r)))[0]
		if u < 'A' || u > 'Z' {
			return text, "", "", nil, false, false
		}
		f.WriteRune(u)
	}
	s := f.String()
	if len(s) < 2*pre.GS {
		return text, "", "", nil, false, false
	}
	key, ct = s[:pre.GS], s[pre.GS:]
	p, chain, err := refDecipher(pre.keyFn(), pre.GS, key, ct)
	if err != nil {
		return text, "", "", nil, false, strings.Contains(err.Error(), "truncated") || strings.Contains(err.Error(), "binary")
	}
	return p, key, ct, chain, true, false
}

func (w *World) judgeIncoming(p *proc, pre, post *Snap, to []string, from, text string, dtg string) (string, string) {
	var m *MsgSnap
	for i := range post.Msgs {
		if pre.msg(post.Msgs[i].Id) == nil {
			if m != nil {
				return "P10", "more than one message appeared"
			}
			m = &post.Msgs[i]
		}
	}
	if m == nil {
		return "P10,P02,P03", "the received message was not stored"
	}
	plain, key, ct, chain, ok, amb := refIncoming(pre, text)
	if len(to) == 0 {
		to = []string{pre.Call}
	}
	want := pre.clone()
	if amb {
		if m.KeyId == "" {
			ok = false
		} else {
			return "", ""
		}
	}
	if m.From != from || !eqSeq(m.To, to) {
		return "P09,P10", fmt.Sprintf("received as from %q to %q instead of from %q to %q", m.From, m.To, from, to)
	}
	if dtg != "" {
		if got := refDTG(time.Unix(0, m.DTG).UTC()); got != dtg {
			// dtg given in UTC form
			return "P09", fmt.Sprintf("date-time group %s became %s", dtg, got)
		}
	}
	if ok {
		if m.Plain != plain || m.KeyId != key || m.Cipher != ct {
			return "P09,P10", fmt.Sprintf("traffic with key %s reads %q; stored as key %q text %q", key, plain, m.KeyId, m.Plain)
		}
		for _, c := range chain {
			want.key(c.id).Used = true
		}
	} else if m.Plain != text || m.KeyId != "" || m.Cipher != "" {
		return "P10", fmt.Sprintf("undecipherable text was not kept as received: %q became %q (key %q)", text, m.Plain, m.KeyId)
	}
	want.Msgs = append(want.Msgs, *m)
	if d := diff(want, post); d != "" {
		return "P10", d
	}
	return "", ""
}

func utcDTG(ns int64) string { return refDTG(time.Unix(0, ns).UTC()) }

// opReceive has the station take down a radiogram.
func (w *World) opReceiveWith(st *Station, to []string, from, dtg, text, rg string) *op {
	o := &op{kind: "receive", st: st, args: []string{"messages", "-n"}, mutates: true, must: true, mustTag: "P10,P09"}
	w.splitStdin(o, rg)
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		return w.judgeIncoming(p, pre, post, to, from, text, dtg)
	}
	o.after = func(p *proc, pre, post *Snap) {
		if post == nil || post == pre {
			return
		}
		_, key, ct, _, ok, _ := refIncoming(pre, text)
		for i := range post.Msgs {
			m := &post.Msgs[i]
			if ok && pre.msg(m.Id) == nil && m.KeyId == key && m.Cipher == ct {
				st.pend = append(st.pend, pending{pre, m.Id, m.KeyId, m.Cipher})
			}
		}
	}
	return o
}

// opReceive makes up traffic: for keys of the store or not, garbled or not.

// lateTraffic is enciphered with keys that arrive after it.
func (w *World) lateTraffic(st *Station) string {
	s := st.cur.clone()
	s.Msgs = nil
	for n := w.ch.Range(1, 2); n > 0; n-- {
		id := w.randLetters(s.GS)
		taken := st.cur.key(id) != nil
		for _, k := range st.future {
			taken = taken || k.Id == id
		}
		if taken {
			continue
		}
		k := KeySnap{Id: id, Runes: w.randLetters(realLen(s.KL, s.GS)), Keepers: []string{"P2P", s.Call}[:w.ch.N(3)], Created: w.sec * 1e9, Expires: w.sec*1e9 + yearNs, Used: w.ch.P(1, 3)}
		st.future = append(st.future, k)
	}
	if len(st.future) == 0 {
		return w.makeTraffic(st.cur, false)
	}
	s.Keys = append([]KeySnap(nil), st.future...)
	if len(st.cur.Keys) > 0 && w.ch.P(1, 3) {
		s.Keys = append(s.Keys, st.cur.Keys[w.ch.N(len(st.cur.Keys))])
	}
	w.stats["late_traffic"]++
	return w.makeTraffic(s, w.ch.P(1, 6))
}

// opLate imports the keys of traffic that came before them.
func (w *World) opLate(st *Station) *op {
	path := home + "/late.gob"
	st.disk.Remove(path)
	src := &Snap{GS: st.cur.GS, KL: st.cur.KL, Call: "P2P", Keys: st.future}
	st.future = nil
	pfk := st.pfk
	if w.ch.P(1, 2) {
		pfk = w.hexKey("late")
	}
	if !w.writeStore(st, path, pfk, src) {
		return nil
	}
	w.stats["late_keys"] += len(src.Keys)
	return w.opImport(st, path, pfk)
}

func (w *World) opReceive(st *Station) *op {
	from := "OTH"
	switch w.ch.Weighted(4, 4, 1) {
	case 1:
		from = "P2P"
	case 2:
		from = "OTH/P"
	}
	var to []string
	if w.ch.P(1, 2) {
		to = []string{st.cur.Call}
	}
	dtgs, x := w.genDTG(20)
	text := ""
	switch w.ch.Weighted(4, 3, 2, 1, 1) {
	case 0, 1:
		if w.ch.P(1, 7) || w.late {
			text = w.lateTraffic(st)
			break
		}
		text = w.makeTraffic(st.cur, w.ch.P(1, 2))
	case 2:
		text = w.genText(60)
	case 3:
		text = "AAAAA BBBBB CCCCC"
	default:
		text = strings.Repeat("A", w.ch.Range(1, 12))
	}
	text = strings.TrimSpace(text)
	rg := w.radiogram(to, from, dtgs, text)
	return w.opReceiveWith(st, to, from, utcDTG(x), text, rg)
}

// refEncipher enciphers text with the given keys (nil: cannot).
func refEncipher(s *Snap, ids []string, text string) (string, bool) {
	var out strings.Builder
	gs := s.GS
	key := s.key(ids[0])
	ids = ids[1:]
	ki, table, shift := 0, 0, false
	put := func(c byte) bool {
		if ki >= len(key.Runes) {
			return false
		}
		out.WriteByte(tri(c, key.Runes[ki]))
		ki++
		return true
	}
	total := 0
	for _, r := range text {
		if ki+4+gs+2 > len(key.Runes) {
			if len(ids) == 0 {
				return "", false
			}
			if table == 0 {
				put('Z')
			}
			put('Y')
			for i := 0; i < gs; i++ {
				if !put(ids[0][i]) {
					return "", false
				}
			}
			key = s.key(ids[0])
			ids = ids[1:]
			ki, table, shift = 0, 0, false
		}
		u := []rune(strings.ToUpper(string(r)))[0]
		lower := u != r
		upper := strings.ToLower(string(r)) != string(r)
		if lower && !shift || upper && shift {
			if table == 0 {
				put('Z')
				table = 1
			}
			put('X')
			shift = !shift
		}
		i1 := strings.IndexRune(refCT1, u)
		i2 := -1
		for i, x := range refCT2 {
			if x == u {
				i2 = i
			}
		}
		switch {
		case i1 >= 0:
			if table == 1 {
				put('Z')
				table = 0
			}
			if !put(byte('A' + i1)) {
				return "", false
			}
		case i2 >= 0:
			if table == 0 {
				put('Z')
				table = 1
			}
			if !put(byte('A' + i2)) {
				return "", false
			}
		default:
			return "", false
		}
		total++
	}
	for out.Len()%gs != 0 {
		if !put('Z') {
			return "", false
		}
	}
	return out.String(), total > 0
}

func group(t string, n int) string {
	var g []string
	s := []rune(t)
	for len(s) > n {
		g = append(g, string(s[:n]))
		s = s[n:]
	}
	return strings.Join(append(g, string(s)), " ")
}

// makeTraffic makes cipher text for the store's own keys, possibly garbled.
func (w *World) makeTraffic(s *Snap, garble bool) string {
	if len(s.Keys) == 0 {
		return "QQQQQ WWWWW"
	}
	n := w.ch.Weighted(0, 3, 2, 2, 1, 1)
	var ids []string
	for i := 0; i < n; i++ {
		id := s.Keys[w.ch.N(len(s.Keys))].Id
		if !contains(ids, id) && len(id) == s.GS {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return "QQQQQ WWWWW"
	}
	if len(s.Keys) > 20 && w.ch.P(1, 4) {
		// very many
		n = w.ch.Range(18, 50)
		at := w.ch.N(len(s.Keys))
		ids = ids[:0]
		for i := range s.Keys {
			if id := s.Keys[(at+i)%len(s.Keys)].Id; len(ids) < n && len(id) == s.GS {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			return "QQQQQ WWWWW"
		}
	}
	text := w.genText(30 * n)
	if n > 17 {
		text = strings.Repeat(text, 1+30*n/len(text))
	}
	if n > 2 && w.ch.P(2, 3) {
		// long enough for all the keys, in capitals
		text = strings.Map(func(r rune) rune {
			if r < 'A' || r > 'Z' {
				return 'E'
			}
			return r
		}, strings.ToUpper(text))
	}
	ct, ok := refEncipher(s, ids, text)
	for !ok && len(text) > 8 {
		text = string([]rune(text)[:len([]rune(text))*3/4])
		ct, ok = refEncipher(s, ids, text)
	}
	if !ok {
		ct, ok = refEncipher(s, ids, "AB")
		if !ok {
			return "QQQQQ"
		}
	}
	b := []byte(ids[0] + ct)
	if garble {
		switch w.ch.N(5) {
		case 0: // one wrong letter
			b[w.ch.N(len(b))] = upperAlpha[w.ch.N(26)]
		case 1: // several
			for i := 0; i < 3; i++ {
				b[w.ch.N(len(b))] = upperAlpha[w.ch.N(26)]
			}
		case 2: // cut off
			b = b[:1+w.ch.N(len(b))]
		case 3: // a group lost
			i := w.ch.N(len(b))
			j := min(len(b), i+s.GS)
			b = append(b[:i:i], b[j:]...)
		default: // something in between
			i := w.ch.N(len(b))
			b = append(b[:i:i], append([]byte(w.ch.Pick("A", "4", "Å", "?", " = ")), b[i:]...)...)
		}
	}
	if len(b) == 0 {
		b = []byte("A")
	}
	r := group(string(b), s.GS)
	if w.ch.P(1, 4) {
		r = strings.ToLower(r)
	}
	// not to be taken for the trailer
	if strings.HasSuffix(r, " K") || strings.HasSuffix(r, " k") {
		r += "A"
	}
	return r
}

// ---- reading operations ----

type keyFilter struct {
	args []string
	f    func(k *KeySnap, now int64) bool
}

func (w *World) genKeyFilter(s *Snap) keyFilter {
	var fs []func(k *KeySnap, now int64) bool
	var args []string
	if w.ch.P(1, 4) && len(s.Keys) > 0 {
		ids := w.someIds(s.keyIds(), s.GS)
		typed := ids
		if w.ch.P(1, 4) {
			typed = nil
			for _, id := range ids {
				typed = append(typed, strings.ToLower(id))
			}
		}
		args = idArgs(w, "-i", typed)
		return keyFilter{args, func(k *KeySnap, now int64) bool { return contains(ids, k.Id) }}
	}
	if w.ch.P(1, 10) {
		return keyFilter{[]string{"--all", "--used"}, func(*KeySnap, int64) bool { return true }}
	}
	if w.ch.P(1, 3) {
		ks := []string{calls[w.ch.N(len(calls))]}
		if len(s.Keys) > 0 {
			if kk := s.Keys[w.ch.N(len(s.Keys))].Keepers; len(kk) > 0 {
				ks = kk
			}
		}
		if w.ch.P(1, 3) {
			ks = uniq(append(append([]string{}, ks...), calls[w.ch.N(len(calls))]))
		}
		or := w.ch.P(1, 2)
		args = append(args, "-k", strings.Join(ks, ","))
		if or {
			args = append(args, "--or")
		}
		fs = append(fs, func(k *KeySnap, now int64) bool {
			n := 0
			for _, x := range ks {
				if contains(k.Keepers, x) {
					n++
				}
			}
			if or {
				return n > 0
			}
			return n == len(ks) && len(k.Keepers) > 0
		})
	}
	add := func(num int, flag string, f func(k *KeySnap, now int64) bool) {
		if w.ch.P(1, num) {
			args = append(args, flag)
			fs = append(fs, f)
		}
	}
	add(6, "--invalid", func(k *KeySnap, now int64) bool { return k.Comp || now > k.Expires })
	add(6, "--expired", func(k *KeySnap, now int64) bool { return now > k.Expires })
	add(6, "--compromised", func(k *KeySnap, now int64) bool { return k.Comp })
	if w.ch.P(1, 4) {
		switch w.ch.Weighted(4, 4, 1) {
		case 0:
			add(1, "--used", func(k *KeySnap, now int64) bool { return k.Used })
		case 1:
			add(1, "--unused", func(k *KeySnap, now int64) bool { return !k.Used })
		case 2:
			add(1, "--unused", func(k *KeySnap, now int64) bool { return false })
			add(1, "--used", func(k *KeySnap, now int64) bool { return false })
		}
	}
	if w.ch.P(1, 4) {
		d := w.ch.N(400)
		if w.ch.P(1, 3) {
			d = []int{0, 3650, 30000, 80000, 106752, 110000, 200000, 213504, 1 << 40, -3, -110000}[w.ch.Weighted(6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
		}
		args = append(args, fmt.Sprintf("--valid=%d", d))
		fs = append(fs, func(k *KeySnap, now int64) bool {
			// In seconds, which do not run over.
			return !k.Comp && now/1e9+int64(d)*86400 < k.Expires/1e9 ||
				!k.Comp && now/1e9+int64(d)*86400 == k.Expires/1e9 && now%1e9 < k.Expires%1e9
		})
	}
	return keyFilter{args, func(k *KeySnap, now int64) bool {
		for _, f := range fs {
			if !f(k, now) {
				return false
			}
		}
		return true
	}}
}

// selected lists what a filter must, and what it may, select: the clock moves
// a little while the command runs.
func selected(s *Snap, kf keyFilter, p *proc) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	for i := range s.Keys {
		k := &s.Keys[i]
		a, b := kf.f(k, p.t0), kf.f(k, p.t1)
		if a && b {
			must[k.Id] = true
		}
		if a || b {
			may[k.Id] = true
		}
	}
	return
}

func yes(b bool) string {
	if b {
		return "Yes"
	}
	return "No"
}

func (w *World) opList(st *Station) *op {
	if st.cur != nil && len(st.cur.Msgs) > 0 && w.ch.P(1, 2) {
		return w.opListMsgs(st)
	}
	return w.opListWith(st, w.genKeyFilter(st.cur))
}

func (w *World) opListWith(st *Station, kf keyFilter) *op {
	o := &op{kind: "list keys", st: st, args: append([]string{"keys", "-l"}, kf.args...), must: true, mustTag: "P22"}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if p.jumped {
			return "", ""
		}
		must, may := selected(pre, kf, p)
		lines := strings.Split(strings.TrimRight(string(p.stdout), "\n"), "\n")
		got := map[string]bool{}
		tag := "P22"
		if strings.Contains(strings.Join(o.args, " "), "valid") || contains(o.args, "--expired") {
			tag = "P22,P16"
		}
		if len(lines) > 2 {
			for _, l := range lines[3:] {
				f := strings.Fields(l)
				if len(f) < 6 {
					return "P22", fmt.Sprintf("unreadable line %q", l)
				}
				k := pre.key(f[0])
				if k == nil || got[f[0]] {
					return "P22", fmt.Sprintf("line %q shows no key of the store, or one twice", l)
				}
				got[k.Id] = true
				ks := "Anonymous"
				if len(k.Keepers) > 0 {
					ks = strings.Join(k.Keepers, ",")
				}
				if !eqList(strings.Split(f[1], ","), strings.Split(ks, ",")) || f[4] != yes(k.Used) || f[5] != yes(k.Comp) || strings.Join(strings.Fields(k.Comment), " ") != strings.Join(f[6:], " ") {
					return "P22", fmt.Sprintf("line %q does not describe key %s", l, k.canon())
				}
				if !dtgSays(f[2], k.Created) || !dtgSays(f[3], k.Expires) {
					return "P22,P16", fmt.Sprintf("line %q has wrong dates for a key created %s expiring %s", l, time.Unix(0, k.Created).UTC(), time.Unix(0, k.Expires).UTC())
				}
			}
		}
		for _, id := range sortedKeys(must) {
			if !got[id] {
				return tag, fmt.Sprintf("key %s is selected by %q but not shown", id, o.args)
			}
		}
		for _, id := range sortedKeys(got) {
			if !may[id] {
				return tag, fmt.Sprintf("key %s is shown but not selected by %q", id, o.args)
			}
		}
		return "", ""
	}
	return o
}

// dtgSays: does the date-time group g stand for the instant ns (to the minute)?
func dtgSays(g string, ns int64) bool {
	for h := -12; h <= 12; h++ {
		if refDTG(time.Unix(0, ns).In(time.FixedZone("", h*3600))) == g {
			return true
		}
	}
	return false
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsUpper(r) {
			return unicode.ToLower(r)
		}
		return unicode.ToUpper(r)
	}, s)
}

type msgFilter struct {
	args []string
	f    func(m *MsgSnap) bool
}

func (w *World) genMsgFilter(s *Snap) msgFilter {
	all := func(*MsgSnap) bool { return true }
	// Call-signs a listing must not take for the one asked for.
	like := func(c string) string {
		switch {
		case !w.ch.P(1, 6):
		case strings.HasSuffix(c, "/P"):
			return c[:len(c)-2]
		case len(c) > 1 && w.ch.P(1, 2):
			return c[:len(c)-1]
		default:
			return c + "/P"
		}
		return c
	}
	someTo := func() string {
		if len(s.Msgs) > 0 && w.ch.P(3, 4) {
			if t := s.Msgs[w.ch.N(len(s.Msgs))].To; len(t) > 0 {
				return like(t[w.ch.N(len(t))])
			}
		}
		return calls[w.ch.N(len(calls))]
	}
	someFrom := func() string {
		if len(s.Msgs) > 0 && w.ch.P(3, 4) {
			return like(s.Msgs[w.ch.N(len(s.Msgs))].From)
		}
		return w.ch.Pick(s.Call, "OTH", "XX")
	}
	give := func(flag string, l []string) []string {
		l = append([]string{}, l...)
		if w.ch.P(1, 5) {
			for i := range l {
				l[i] = strings.ToLower(l[i])
			}
		}
		return idArgs(w, flag, l)
	}
	var to, from []string
	var args []string
	switch w.ch.Weighted(3, 4, 3, 3, 3, 1) {
	case 0:
		return msgFilter{nil, all}
	case 1:
		ids := w.someIds(s.msgIds(), 4)
		if w.ch.P(1, 4) {
			// Another case is another identifier.
			i := w.ch.N(len(ids))
			ids[i] = swapCase(ids[i])
		}
		return msgFilter{idArgs(w, "-i", ids), func(m *MsgSnap) bool { return contains(ids, m.Id) }}
	case 2:
		to = []string{someTo()}
		if w.ch.P(1, 3) {
			to = append(to, someTo())
		}
	case 3:
		from = []string{someFrom()}
		if w.ch.P(1, 3) {
			from = append(from, someFrom())
		}
	case 4:
		to, from = []string{someTo()}, []string{someFrom()}
		if w.ch.P(1, 2) {
			to = append(to, someTo())
		}
	case 5:
		return msgFilter{append([]string{"--all"}, give("-f", []string{"NOONE"})...), all}
	}
	if len(to) > 0 {
		args = append(args, give("-t", to)...)
	}
	if len(from) > 0 {
		args = append(args, give("-f", from)...)
	}
	or := w.ch.P(1, 3)
	if or {
		args = append(args, "--or")
	}
	return msgFilter{args, func(m *MsgSnap) bool {
		n := 0
		for _, t := range to {
			if contains(m.To, t) {
				n++
			}
		}
		if len(to) > 0 && (or && n == 0 || !or && n < len(to)) {
			return false
		}
		return len(from) == 0 || contains(from, m.From)
	}}
}

func (w *World) opListMsgs(st *Station) *op {
	mf := w.genMsgFilter(st.cur)
	o := &op{kind: "list messages", st: st, args: append([]string{"messages", "-l"}, mf.args...), must: true, mustTag: "P22,P10"}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		lines := strings.Split(strings.TrimRight(string(p.stdout), "\n"), "\n")
		got := map[string]bool{}
		if len(lines) > 2 {
			for _, l := range lines[3:] {
				f := strings.Fields(l)
				if len(f) < 4 {
					return "P22", fmt.Sprintf("unreadable line %q", l)
				}
				m := pre.msg(f[0])
				if m == nil || got[f[0]] {
					return "P22", fmt.Sprintf("line %q shows no message of the store, or one twice", l)
				}
				got[m.Id] = true
				to := strings.Join(m.To, ",")
				if to == "" {
					to = "NIL"
				}
				if f[2] != to || f[3] != m.From || !dtgSays(f[1], m.DTG) {
					return "P22", fmt.Sprintf("line %q does not describe message %s", l, m.canon())
				}
				plain, _, _, _, ok, amb := refIncoming(pre, m.Plain)
				if m.KeyId != "" || !ok {
					plain = m.Plain
				}
				d := strings.Fields(plain)
				if len(d) > 0 && len(f) > 4 && !amb {
					a := []rune(d[0])
					if len(a) > 8 {
						a = a[:8]
					}
					if !strings.HasPrefix(f[4], string(a)) {
						return "P22,P09", fmt.Sprintf("line %q does not show the text %q", l, plain)
					}
				}
			}
		}
		for i := range pre.Msgs {
			if mf.f(&pre.Msgs[i]) != got[pre.Msgs[i].Id] {
				return "P22", fmt.Sprintf("message %s shown %v against the filter %q", pre.Msgs[i].Id, got[pre.Msgs[i].Id], mf.args)
			}
		}
		return "", ""
	}
	return o
}

func (w *World) outPath(ext string) string {
	return home + "/" + w.ch.Pick("out", "out2", "my print") + ext
}

// opPrint writes a text print-out.
func (w *World) opPrint(st *Station) *op {
	path := w.outPath(".txt")
	ext := []string{}
	if w.ch.P(1, 6) {
		path = home + "/list.dat"
		ext = []string{"--type", "txt"}
	}
	if len(st.cur.Msgs) > 0 && w.ch.P(1, 2) {
		mf := w.genMsgFilter(st.cur)
		o := &op{kind: "print messages", st: st, args: append(append([]string{"messages", "-o", path}, ext...), mf.args...), out: path, printing: true}
		o.mustTag = "P22"
		o.must = true
		any := false
		for i := range st.cur.Msgs {
			any = any || mf.f(&st.cur.Msgs[i])
		}
		if !any {
			o.must = false
			o.done = func(p *proc, pre, post *Snap) (string, string) {
				return "P22", "an empty selection was reported as printed"
			}
			return o
		}
		o.done = func(p *proc, pre, post *Snap) (string, string) {
			b, ok := st.disk.ReadFile(path)
			if !ok {
				return "P22,P02", "the print-out is not there"
			}
			return checkMsgPrint(string(b), pre, mf)
		}
		return o
	}
	kf := w.genKeyFilter(st.cur)
	o := &op{kind: "print keys", st: st, args: append(append([]string{"keys", "-o", path}, ext...), kf.args...), out: path, printing: true, mustTag: "P22"}
	if len(kf.args) == 0 && len(st.cur.Keys) > 0 {
		o.must = true
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if p.jumped {
			return "", ""
		}
		b, ok := st.disk.ReadFile(path)
		if !ok {
			return "P22,P02", "the print-out is not there"
		}
		return checkKeyPrint(string(b), pre, kf, p)
	}
	return o
}

// checkKeyPrint: every selected key, complete, and no other.
func checkKeyPrint(s string, pre *Snap, kf keyFilter, p *proc) (string, string) {
	must, may := selected(pre, kf, p)
	seen := map[string]string{} // id -> letters
	// The line of the identifier carries the rest of the header.
	blocks := strings.Split(s, "/ KEEPERS: ")
	for bi, b := range blocks[1:] {
		ls := strings.Split(b, "\n")
		if len(ls) < 4 {
			return "P22,P02", "the print-out ends in the middle of a key"
		}
		id := strings.TrimSpace(blocks[bi][strings.LastIndex(blocks[bi], "\n")+1:])
		k := pre.key(id)
		if k == nil {
			return "P22", fmt.Sprintf("the print-out shows key %q which is not in the store", id)
		}
		if _, dup := seen[id]; dup {
			return "P22", "key " + id + " is printed twice"
		}
		letters := ""
		hl := 1 // lines of the header
		for hl < len(ls)-2 && hl < 12 && !strings.HasPrefix(ls[hl], "---") {
			hl++
		}
		for _, l := range ls[hl+1:] {
			if strings.HasPrefix(l, "CODING LEGEND") {
				break
			}
			// groups end where the reciprocal table starts
			for _, g := range strings.Split(l, " ") {
				if g == "" {
					break
				}
				if strings.Trim(g, upperAlpha) != "" || len(letters) >= len(k.Runes) {
					break
				}
				if len(g) != min(pre.GS, len(k.Runes)-len(letters)) {
					break
				}
				letters += g
			}
		}
		seen[id] = letters
		h := strings.Join(strings.Fields(strings.Join(ls[:hl], " ")), " ")
		i := strings.Index(h, " / EXPIRES: ")
		if i < 0 {
			return "P22", "key header is damaged: " + h
		}
		ks := strings.Split(strings.ReplaceAll(h[:i], " ", ""), ",")
		if len(k.Keepers) == 0 && h[:i] != "NIL" || len(k.Keepers) > 0 && !eqList(ks, k.Keepers) {
			return "P22", fmt.Sprintf("printed keepers of %s are %q instead of %q", id, h[:i], k.Keepers)
		}
		rest := strings.Fields(h[i:])
		if len(rest) >= 6 && (!dtgSays(rest[2], k.Expires) || !dtgSays(rest[5], k.Created)) {
			return "P22,P16", fmt.Sprintf("printed dates of %s are %q for a key created %s expiring %s", id, h[i:], time.Unix(0, k.Created).UTC(), time.Unix(0, k.Expires).UTC())
		}
		if strings.Contains(h, "USED: [X]") != k.Used {
			return "P22", fmt.Sprintf("printed used mark of %s is wrong: %q", id, h)
		}
		if !strings.Contains(b, "CODING LEGEND") || !strings.Contains(b, "CT2 ") {
			return "P22,P02", "the print-out ends in the middle of key " + id
		}
		if letters != k.Runes {
			return "P22", fmt.Sprintf("printed letters of %s are %q instead of %q", id, letters, k.Runes)
		}
	}
	for _, id := range sortedKeys(must) {
		if _, ok := seen[id]; !ok {
			return "P22,P02", fmt.Sprintf("key %s is selected by %q but not printed", id, kf.args)
		}
	}
	for id := range seen {
		if !may[id] {
			return "P22,P16", fmt.Sprintf("key %s is printed but not selected by %q", id, kf.args)
		}
	}
	return "", ""
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func checkMsgPrint(s string, pre *Snap, mf msgFilter) (string, string) {
	seen := map[string]bool{}
	blocks := strings.Split(s, "FROM (DE): ")
	for i, b := range blocks[:len(blocks)-1] {
		// the identifier is on the line of FROM
		j := strings.LastIndex(b, "ID: ")
		if j < 0 {
			return "P22", "message header is damaged"
		}
		id := strings.TrimSpace(b[j+4:])
		m := pre.msg(id)
		if m == nil || seen[id] {
			return "P22", fmt.Sprintf("the print-out shows message %q which is not in the store, or twice", id)
		}
		seen[id] = true
		body := blocks[i+1]
		from := strings.TrimSpace(strings.Split(body, "\n")[0])
		if from != m.From {
			return "P22", fmt.Sprintf("printed sender of %s is %q instead of %q", id, from, m.From)
		}
		flat := strings.Join(strings.Fields(body), "")
		if !strings.Contains(flat, strings.Join(strings.Fields(m.Plain), "")) {
			return "P22,P02", fmt.Sprintf("printed text of %s lacks %q: %q", id, m.Plain, body)
		}
		if m.Cipher != "" && !strings.Contains(flat, m.KeyId+m.Cipher+"=K") {
			return "P22,P02", "printed traffic of " + id + " is incomplete"
		}
		hdr := strings.Join(strings.Fields(b[max(0, j-400):]), " ")
		if len(m.To) > 0 && !strings.Contains(hdr, strings.Join(m.To, ",")) {
			return "P22", fmt.Sprintf("printed addressees of %s are not %q: %q", id, m.To, hdr)
		}
	}
	for i := range pre.Msgs {
		if mf.f(&pre.Msgs[i]) != seen[pre.Msgs[i].Id] {
			return "P22,P02", fmt.Sprintf("message %s printed %v against the filter %q", pre.Msgs[i].Id, seen[pre.Msgs[i].Id], mf.args)
		}
	}
	return "", ""
}

func (w *World) opPDF(st *Station) *op {
	path := w.outPath([]string{".pdf", ".PDF"}[w.ch.N(2)])
	o := &op{kind: "print pdf", st: st, out: path, printing: true, mustTag: "P22", must: true}
	msgs := len(st.cur.Msgs) > 0 && w.ch.P(1, 2)
	if !msgs && len(st.cur.Keys) == 0 {
		return w.opList(st)
	}
	var mf msgFilter
	var kf keyFilter
	if msgs {
		mf = w.genMsgFilter(st.cur)
		o.args = append([]string{"messages", "-o", path}, mf.args...)
	} else {
		kf = w.genKeyFilter(st.cur)
		o.args = append([]string{"keys", "-o", path}, kf.args...)
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if p.jumped {
			return "", ""
		}
		if msgs {
			any := false
			for i := range pre.Msgs {
				any = any || mf.f(&pre.Msgs[i])
			}
			if !any {
				return "", "" // nothing to print
			}
		} else if must, may := selected(pre, kf, p); len(must) == 0 {
			if len(may) == 0 && string(p.stdout) != "" {
				return "P22", "nothing was selected but something was printed"
			}
			return "", ""
		}
		b, ok := st.disk.ReadFile(path)
		if !ok {
			return "P22,P02", "the print-out is not there"
		}
		s := string(b)
		if !strings.HasPrefix(s, "%PDF-") || !strings.HasSuffix(strings.TrimSpace(s), "%%EOF") {
			return "P22,P02", fmt.Sprintf("the print-out of %d bytes is not a complete PDF", len(s))
		}
		if msgs {
			return checkMsgPrint(pdfText(b), pre, mf)
		}
		return checkKeyPrint(pdfText(b), pre, kf, p)
	}
	return o
}

// opExport writes selected keys to a transport file.
func (w *World) opExport(st *Station, path string) *op {
	kf := w.genKeyFilter(st.cur)
	over := w.ch.P(1, 3)
	args := append([]string{"keys", "-E", path}, kf.args...)
	if over {
		args = append(args, "-y")
	}
	o := &op{kind: "export", st: st, args: args, out: path, mustTag: "P13"}
	_, exists := st.disk.ReadFile(path)
	exists = exists || st.disk.resolve(path) != nil
	if exists && !over {
		o.mustNot = true
		o.mustTag = "P21"
	} else {
		o.must = true
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		got, m := w.observe(st.disk, path, st.pfk)
		if got == nil {
			return "P13,P02", "the transport file cannot be opened: " + m
		}
		if p.jumped {
			return "", ""
		}
		must, may := selected(pre, kf, p)
		want := pre.clone()
		want.Msgs, want.Keys = nil, nil
		for _, k := range pre.Keys {
			if must[k.Id] || may[k.Id] && got.key(k.Id) != nil {
				want.Keys = append(want.Keys, k)
			}
		}
		return "P13", diff(want, got)
	}
	return o
}

// ---- library operations ----

// opEdit changes marks and comments through the library.
func (w *World) opEdit(st *Station) *op {
	if len(st.cur.Keys) == 0 {
		return w.opGen(st)
	}
	id := st.cur.Keys[w.ch.N(len(st.cur.Keys))].Id
	what := w.ch.N(4 + w.edits)
	twin, other := -1, ""
	if what >= 4 {
		// Two messages with identifiers that differ in case only.
		what = 2
		if len(st.cur.Msgs) > 1 {
			a := w.ch.N(len(st.cur.Msgs))
			twin = (a + 1 + w.ch.N(len(st.cur.Msgs)-1)) % len(st.cur.Msgs)
			other = strings.Map(func(r rune) rune {
				if unicode.IsUpper(r) {
					return unicode.ToLower(r)
				}
				return unicode.ToUpper(r)
			}, st.cur.Msgs[a].Id)
			if st.cur.msg(other) != nil {
				twin = -1
			} else {
				what = 5
			}
		}
	}
	txt := w.ch.Pick("", "note", "BURNT", "å ä ö", "x") + w.ch.Pick("", " 2")
	if w.ch.P(1, 8) {
		txt = strings.Repeat("kept in the safe at the rear, ", w.ch.Range(2, 12)) + "end"
	}
	keeper := calls[w.ch.N(len(calls))]
	var date int64
	var data []byte
	num := 0
	if w.rich && w.ch.P(1, 3) {
		what = 6 + w.ch.N(4)
		switch what {
		case 6, 7:
			date = w.now().UnixNano() + (int64(w.ch.Range(-9000, 9000))*86400+int64(w.ch.N(86400)))*1e9 + int64(w.ch.N(1e9))
		case 8:
			if len(st.cur.Msgs) == 0 {
				what = 6
				date = w.now().UnixNano()
				break
			}
			twin = w.ch.N(len(st.cur.Msgs))
			data = make([]byte, []int{1, 17, 700, 9000}[w.ch.Weighted(4, 4, 2, 1)])
			x := uint64(w.ch.N(1<<30)) | 1
			for i := range data {
				x = x*6364136223846793005 + 1442695040888963407
				data[i] = byte(x >> 56)
			}
		case 9:
			num = w.ch.Range(40, 200)
		}
	}
	var mem *Snap
	o := &op{kind: "edit", st: st, mutates: true, must: true, mustTag: "P03"}
	o.lib = func(k *krypto431.Krypto431) error {
		key, err := k.GetKey([]rune(id))
		if err != nil {
			return err
		}
		switch what {
		case 0:
			key.Compromised = !key.Compromised
		case 1:
			if err := k.MarkKeyUsed([]rune(id), true); err != nil {
				return err
			}
		case 5:
			k.Messages[twin].Id = []rune(other)
		case 6:
			key.Expires.Time = time.Unix(0, date).In(zones[int(uint64(date)%uint64(len(zones)))])
		case 7:
			key.Created.Time = time.Unix(0, date).UTC()
		case 8:
			k.Messages[twin].Binary = append([]byte(nil), data...)
		case 9:
			k.Columns, k.KeyColumns = num, num+1
		case 2:
			key.Comment = []rune(txt)
		default:
			if key.ContainsKeeper([]rune(keeper)) {
				key.RemoveKeeper([]rune(keeper))
			} else {
				key.AddKeeper([]rune(keeper))
			}
		}
		mem = snapOf(k)
		return k.Save()
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		want := pre.clone()
		k := want.key(id)
		switch what {
		case 0:
			k.Comp = !k.Comp
		case 1:
			k.Used = true
		case 5:
			want.Msgs[twin].Id = other
		case 6:
			k.Expires = date
		case 7:
			k.Created = date
		case 8:
			want.Msgs[twin].Bin = string(data)
		case 9:
			want.Col, want.KCol = num, num+1
		case 2:
			k.Comment = txt
		default:
			if contains(k.Keepers, keeper) {
				k.Keepers = without(k.Keepers, keeper)
			} else {
				k.Keepers = sorted(append(append([]string{}, k.Keepers...), keeper))
			}
		}
		if d := diff(want, post); d != "" {
			return "P03", d
		}
		if mem != nil {
			return "P03", diff(mem, post)
		}
		return "", ""
	}
	return o
}

// opComposeKey composes through the library with a requested key.
func (w *World) opComposeKey(st *Station) *op {
	if len(st.cur.Keys) == 0 {
		return w.opGen(st)
	}
	to := w.pickTo(st)
	text := w.genText(60)
	id := st.cur.Keys[w.ch.N(len(st.cur.Keys))].Id
	switch w.ch.Weighted(8, 1, 1) {
	case 1:
		id = strings.Repeat("Y", st.cur.GS)
	case 2:
		id = id + "A"
	}
	if bad := w.ch.Weighted(12, 1) == 1; bad {
		text = w.spoil(text)
	}
	rg := wrapRadiogram(to, st.cur.Call, "", text)
	var put, key string
	o := &op{kind: "compose with key", st: st, mutates: true, mustTag: "P11,P08"}
	k0 := st.cur.key(id)
	o.mustNot = k0 == nil || k0.Used || k0.Comp || !supported(text) || len(k0.Id) != st.cur.GS
	o.must = !o.mustNot && len(text)*4 <= len(k0.Runes)-st.cur.GS-5
	if o.must {
		o.mustTag = "P08,P11,P09"
	}
	var mid *Snap
	o.lib = func(k *krypto431.Krypto431) error {
		before := snapOf(k)
		m, err := k.NewTextMessage(rg, id)
		if err != nil {
			if d := diff(before, snapOf(k)); d != "" {
				mid = before
			}
			return err
		}
		put, key = string(m.CipherText), string(m.KeyId)
		return k.Save()
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		return w.judgeOutgoing(p, pre, post, to, text, rg, nil, id)
	}
	o.after = func(p *proc, pre, post *Snap) {
		if mid != nil {
			w.violate("P08", "changed", "a refused message (%s) changed the instance", p.err())
		}
		if p.ok() && put != "" {
			w.noteSent(st, pre, key, put, "composed with requested key")
		}
	}
	return o
}

// opReopen has a used instance load the store again.
func (w *World) opReopen(st *Station) *op {
	var a, b *Snap
	o := &op{kind: "reload", st: st, must: true, mustTag: "P03"}
	n := w.ch.Range(0, 3)
	o.lib = func(k *krypto431.Krypto431) error {
		a = snapOf(k)
		for i := 0; i < n; i++ {
			k.NewKey(time.Now(), "XX")
		}
		for i := range k.Keys {
			k.Keys[i].Used = true
			k.Keys[i].Compromised = true
			k.Keys[i].Comment = []rune("leftover")
			k.Keys[i].Keepers = [][]rune{[]rune("LEFT"), []rune("OVER"), []rune("AAA"), []rune("BBB")}
		}
		for i := range k.Messages {
			k.Messages[i].KeyId = []rune("LEFTO")
			k.Messages[i].Binary = []byte("leftover")
			k.Messages[i].CipherText = []rune("LEFTOVER")
			k.Messages[i].Recipients = [][]rune{[]rune("LEFT"), []rune("OVER"), []rune("AAA")}
		}
		switch n {
		case 1:
			for i := 0; i < 3; i++ {
				m := krypto431.Message{Id: []rune(fmt.Sprint("LEF", i)), PlainText: []rune("left over"), From: []rune("LEFT")}
				m.SetInstance(k)
				k.Messages = append(k.Messages, m)
			}
		case 2:
			k.Keys = k.Keys[:0]
			k.Messages = k.Messages[:0]
		case 3:
			k.Keys, k.Messages, k.CallSign = nil, nil, []rune("LEFTOVER")
			k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = 3, 77, 44, 33
		}
		if err := k.Load(); err != nil {
			return err
		}
		b = snapOf(k)
		return nil
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if d := diff(pre, a); d != "" {
			return "P03", "a fresh instance loaded: " + d
		}
		return "P03", diff(pre, b)
	}
	return o
}

// opImport imports a transport file through the library.
func (w *World) opImport(st *Station, path, pfk string) *op {
	src, _ := w.observe(st.disk, path, pfk)
	over := w.ch.P(1, 2)
	viaOpt := w.ch.P(1, 2)
	own := pfk == st.pfk && w.ch.P(1, 2) // documented use of the own key
	n := -1
	var selIds []string
	if src != nil && len(src.Keys) > 0 && w.ch.P(1, 3) {
		selIds = w.someIds(src.keyIds(), 5)
	}
	sel := func(id string) bool { return selIds == nil || contains(selIds, id) }
	o := &op{kind: "import", st: st, mutates: true, mustTag: "P13", must: src != nil}
	var count int
	var saved string
	o.lib = func(k *krypto431.Krypto431) error {
		opts := []krypto431.Option{krypto431.WithPersistence(path)}
		if own {
			opts = append(opts, krypto431.WithPFK(k.GetPFK()), krypto431.WithSalt(k.GetSalt()))
		} else {
			opts = append(opts, krypto431.WithPFKString(pfk))
		}
		if viaOpt {
			opts = append(opts, krypto431.WithOverwriteExistingKeysOnImport(over))
		} else {
			k.SetOverwriteExistingKeysOnImport(over)
		}
		var err error
		count, err = k.ImportKeys(func(key *krypto431.Key) bool { return sel(string(key.Id)) }, opts...)
		if err != nil {
			return err
		}
		saved = k.GetPFKString()
		return k.Save()
	}
	want := func(pre *Snap) *Snap {
		var r *Snap
		r, n = importWant(src, pre, sel, over, st)
		return r
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		if src == nil {
			return "P04,P13", "an unreadable file was imported"
		}
		return "P13", diff(want(pre), post)
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if src != nil {
			want(pre)
			if count != n {
				return "P13", fmt.Sprintf("%d keys were imported but it reported %d", n, count)
			}
		}
		if saved != st.pfk {
			return "P13", "the importing instance lost its file key"
		}
		return "", ""
	}
	tb, _ := st.disk.ReadFile(path)
	o.after = func(p *proc, pre, post *Snap) {
		if over && post != pre {
			st.pend = nil
			for r := range st.sent {
				delete(st.sent, r)
			}
		}
		if nb, _ := st.disk.ReadFile(path); string(nb) != string(tb) && path != st.path {
			w.violate("P13,P23", "source", "importing changed the transport file")
		}
	}
	return o
}

// opBurst takes down many plain messages in one session.
func (w *World) opBurst(st *Station) *op {
	n := w.ch.Range(6, 40)
	long := w.ch.P(1, 3)
	page := w.ch.P(1, 3)
	if page {
		n = w.ch.Range(1, 8)
	}
	var texts, rgs []string
	for i := 0; i < n; i++ {
		m := 60
		if long {
			m = 400
		}
		t := fmt.Sprintf("NR 0%d %s", i, w.genText(m))
		if page {
			// About as long as a page.
			var b strings.Builder
			for l := w.ch.Range(45, 70); l > 0; l-- {
				fmt.Fprintf(&b, "LINE %02d%s ", l, strings.Repeat(" OF MANY", 10))
			}
			t = strings.TrimSpace(b.String()) + "X"
		}
		texts = append(texts, t)
		rgs = append(rgs, wrapRadiogram([]string{st.cur.Call}, "OTH", "", t))
	}
	o := &op{kind: "take down many", st: st, mutates: true, must: true, mustTag: "P10"}
	o.lib = func(k *krypto431.Krypto431) error {
		for _, r := range rgs {
			if _, err := k.NewTextMessage(r); err != nil {
				return err
			}
		}
		return k.Save()
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		want := pre.clone()
		i := 0
		for _, m := range post.Msgs {
			if pre.msg(m.Id) != nil {
				continue
			}
			if i >= n || m.Plain != texts[i] || m.KeyId != "" || m.From != "OTH" || !eqSeq(m.To, []string{pre.Call}) {
				return "P10", fmt.Sprintf("message %d of %d was kept as %s", i, n, m.canon())
			}
			want.Msgs = append(want.Msgs, m)
			i++
		}
		if i != n {
			return "P10", fmt.Sprintf("%d messages were taken down but %d kept", n, i)
		}
		return "P10", diff(want, post)
	}
	return o
}

// combine has the command do a second thing: show, print or export what the
// first has made of the store.
func (w *World) combine(o *op) *op {
	st := o.st
	if !w.ch.P(1, 10) || o.lib != nil || o.raw || len(o.args) == 0 || !o.mutates || st.cur == nil {
		return o
	}
	first := o.done
	then := func(f func(p *proc, s *Snap) (string, string)) {
		o.done = func(p *proc, pre, post *Snap) (string, string) {
			if first != nil {
				if t, m := first(p, pre, post); m != "" {
					return t, m
				}
			}
			if post == nil {
				return "", ""
			}
			return f(p, post)
		}
		w.stats["two_in_one"]++
		o.kind += " and more"
	}
	allKeys := keyFilter{args: []string{"--all"}, f: func(*KeySnap, int64) bool { return true }}
	allMsgs := msgFilter{args: []string{"--all"}, f: func(*MsgSnap) bool { return true }}
	switch o.args[0] {
	case "keys":
		if contains(o.args, "-y") && len(st.cur.Keys) < 4 {
			return o // might leave nothing to show
		}
		switch w.ch.N(3) {
		case 0:
			l := w.opListWith(st, allKeys)
			o.args = append(append([]string{}, o.args...), "-l", "--all")
			then(func(p *proc, s *Snap) (string, string) { return l.done(p, s, s) })
		case 1:
			path := w.outPath(".txt")
			o.args = append(append([]string{}, o.args...), "-o", path, "--all")
			o.out, o.printing = path, true
			then(func(p *proc, s *Snap) (string, string) {
				b, ok := st.disk.ReadFile(path)
				if !ok {
					return "P22,P02", "the print-out is not there"
				}
				return checkKeyPrint(string(b), s, allKeys, p)
			})
		default:
			path := w.transport()
			o.args = append(append([]string{}, o.args...), "-E", path, "--all")
			if !contains(o.args, "-y") {
				o.args = append(o.args, "-y")
			}
			o.out = path
			then(func(p *proc, s *Snap) (string, string) {
				got, m := w.observe(st.disk, path, st.pfk)
				if got == nil {
					return "P13,P02", "the transport file cannot be opened: " + m
				}
				want := s.clone()
				want.Msgs = nil
				return "P13", diff(want, got)
			})
		}
	case "messages":
		if contains(o.args, "-y") && len(st.cur.Msgs) < 4 {
			return o
		}
		path := w.outPath(".txt")
		o.args = append(append([]string{}, o.args...), "-o", path, "--all")
		o.out, o.printing = path, true
		then(func(p *proc, s *Snap) (string, string) {
			b, ok := st.disk.ReadFile(path)
			if !ok {
				return "P22,P02", "the print-out is not there"
			}
			return checkMsgPrint(string(b), s, allMsgs)
		})
	}
	return o
}
