//go:build go1.23

package zzverifsim

import (
	"fmt"
	"regexp"
	"strings"
	"syscall"

	"github.com/sa6mwa/krypto431"
)

func init() {
	const hist = "the sequence of commands, their outcomes, every file operation and failure in them, and what power failures kept, differ"
	for k, s := range map[string]*Scenario{
		"P18": {scenP18, "the processes, the order of their file operations, and who was killed where differ", expl, true},
		"P20": {scenP20, hist, expl, true},
		"P21": {scenP21, hist, expl, true},
		"P24": {scenP24, "the commands, the questions they asked, what the operator typed and how it reached the program, and every file operation and failure differ", expl, true},
		"P25": {scenP25, "how passwords, salts and keys were given, to which command, which were wrong, what was typed, and every failure differ", expl, true},
	} {
		scenarios[k] = s
	}
}

// ---- P18: processes at the same time ----

// held is one thing the store held.
type held struct {
	snap *Snap
	from int64 // step at which it appeared
	by   *proc
}

// reading is what a reader found between two steps.
type reading struct {
	snap   *Snap
	l0, l1 int64
}

// actor is one of the processes.
type actor struct {
	p      *proc
	o      *op       // a command that changes the store
	list   *op       // a command that only reads
	saving []*Snap   // lib sessions: what it set out to save
	saved  int       // index of the version its last successful save made
	reads  []reading // lib readers: what it loaded
}

func scenP18(w *World) {
	c := &histCfg{gen: 5, compose: 2, receive: 1, edit: 1, n: [2]int{1, 4}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
	for round := w.ch.Range(1, 3); round > 0; round-- {
		w.together(st)
	}
}

func (w *World) together(st *Station) {
	var vs []held
	vs = append(vs, held{snap: st.cur, from: w.steps})
	last, _ := st.disk.ReadFile(st.path)
	var as []*actor
	var procs []*proc
	n := 2 + w.ch.N(2)
	faulty := w.ch.P(1, 5)
	kind := ""
	for i := 0; i < n; i++ {
		a := &actor{saved: -1}
		var plan *Plan
		if faulty && w.ch.P(1, 2) {
			plan = noFaults()
			plan.Faults = append(plan.Faults, w.genFault(40))
		}
		switch w.ch.Weighted(3, 1, 4, 3) {
		case 0:
			kind += "r"
			loads := 1 + w.ch.N(2)
			a.p = w.newProc(st, "reader", plan, func() {
				for i := 0; i < loads; i++ {
					k := libInstance(st.named(), st.pfk)
					l0 := w.steps
					if err := k.Load(); err != nil {
						a.p.stderr = []byte("Error: " + err.Error())
						a.p.code = 1
						return
					}
					a.reads = append(a.reads, reading{snapOf(k), l0, w.steps})
				}
			})
		case 1:
			kind += "l"
			a.list = w.opListWith(st, keyFilter{f: func(k *KeySnap, now int64) bool { return true }})
			a.p = w.prep(a.list, plan)
		case 2:
			kind += "w"
			rounds := 1 + w.ch.N(3)
			what := w.ch.N(1 << 16)
			a.p = w.newProc(st, "writer", plan, func() {
				k := libInstance(st.named(), st.pfk)
				fail := func(err error) {
					a.p.stderr = []byte("Error: " + err.Error())
					a.p.code = 1
				}
				if err := k.Load(); err != nil {
					fail(err)
					return
				}
				for i := 0; i < rounds; i++ {
					switch x := what >> (4 * i) % 5; {
					case x == 0 && len(k.Keys) > 1:
						k.DeleteKey(k.Keys[0].Id)
					case x == 1 && len(k.Keys) > 0:
						k.MarkKeyUsed(k.Keys[len(k.Keys)-1].Id, true)
					case x == 2:
						k.NewTextMessage(fmt.Sprintf("OTH DE %s = WORDS OF %d", st.cur.Call, i))
					default:
						if err := k.GenerateKeys(1+what>>12%3, nil, "BB"); err != nil {
							fail(err)
							return
						}
					}
					a.saving = append(a.saving, snapOf(k))
					if err := k.Save(); err != nil {
						fail(err)
						return
					}
					a.saved = len(vs) - 1
					for a.saved > 0 && vs[a.saved].by != a.p {
						a.saved--
					}
				}
			})
		default:
			kind += "c"
			switch w.ch.N(5) {
			case 0:
				a.o = w.opGen(st)
			case 1:
				a.o = w.opDelKeys(st)
			case 2:
				a.o = w.opCompose(st)
			case 3:
				a.o = w.opReceive(st)
			default:
				a.o = w.opGen(st)
			}
			a.p = w.prep(a.o, plan)
		}
		as = append(as, a)
		procs = append(procs, a.p)
	}
	w.shape = fold(w.shape, kind)
	w.note("at the same time: %s", kind)
	kills := 0
	if w.ch.P(1, 3) {
		kills = 1 + w.ch.N(2)
	}
	power := w.ch.P(1, 6)
	powerAt := 0
	if power {
		powerAt = 1 + w.ch.N(80)
	}
	stay := []int{1, 2, 4, 10}[w.ch.N(4)]
	var prev *proc
	steps := 0
	// what is there after every step
	record := func() {
		b, ok := st.disk.ReadFile(st.path)
		if ok && string(b) == string(last) {
			return
		}
		if !ok {
			w.violate("P18", "gone", "the store was missing while %s ran (%s)", prev.name, kind)
		}
		last = append([]byte(nil), b...)
		w.conc = false
		snap, msg := w.observe(st.disk.Clone(), st.path, st.pfk)
		w.conc = true
		if snap == nil {
			w.violate("P18", "broken", "while %s ran the store could not be opened: %s (%d bytes; %s)", prev.name, msg, len(b), kind)
		}
		vs = append(vs, held{snap: snap, from: w.steps, by: prev})
		w.stats["versions"]++
	}
	done := map[*proc]bool{}
	w.runConc(procs, func(r []*proc) *proc {
		if prev != nil {
			if !w.poisoned {
				record()
			}
			if prev.finished {
				done[prev] = true
			}
		}
		steps++
		if power && steps == powerAt {
			for _, p := range r {
				p.crashed, p.crashAt = &Fault{Kind: fCrash, Power: true}, "by the power failure"
				p.dead = true
			}
			w.stats["fault.power_loss_together"]++
		}
		if kills > 0 && w.ch.P(1, 40) {
			p := r[w.ch.N(len(r))]
			if !p.dead {
				p.crashed, p.crashAt = &Fault{Kind: fCrash}, "by a kill"
				p.dead = true
				kills--
				w.stats["fault.killed_together"]++
				w.logf("p%d killed", p.id)
			}
			return p
		}
		p := prev
		ok := false
		for _, q := range r {
			ok = ok || q == prev
		}
		if !ok || w.ch.P(1, stay) {
			p = r[w.ch.N(len(r))]
		}
		if p != prev {
			w.stats["process_switches"]++
		}
		prev = p
		return p
	})
	record2 := func() {
		w.conc = true
		record()
		w.conc = false
	}
	record2()
	st.disk.heal()
	any := faulty
	for _, a := range as {
		if a.o != nil {
			any = any || a.p.panicked != ""
		}
	}
	// The power fails.
	if power {
		w.powerLoss(st.disk)
	}
	// Writers: everything the store held was meant by the one who was writing.
	for i := 1; i < len(vs); i++ {
		v := vs[i]
		var a *actor
		for _, b := range as {
			if b.p == v.by {
				a = b
			}
		}
		if a == nil || a.list != nil || a.o == nil && a.saving == nil {
			w.violate("P18", "disturbed", "%s changed the store (%s)", v.by.name, kind)
		}
		if a.o == nil {
			ok := false
			for _, s := range a.saving {
				ok = ok || diff(s, v.snap) == ""
			}
			if !ok {
				w.violate("P18", "mixed", "%s left the store with what it was not saving (%s): %s", a.p.name, kind, diff(a.saving[len(a.saving)-1], v.snap))
			}
			continue
		}
		why := ""
		ok := false
		for j := 0; j < i && !ok; j++ {
			if vs[j].by == a.p {
				continue
			}
			_, m := a.o.check(a.p, vs[j].snap, v.snap)
			ok = m == ""
			if why == "" || j == i-1 {
				why = m
			}
		}
		if !ok {
			w.violate("P18", "mixed", "%s left the store with what it was not saving (%s): %s", a.p.name, kind, why)
		}
		if a.p.ok() {
			a.saved = i
		}
	}
	// Readers: what was there at some instant while they read.
	for _, a := range as {
		switch {
		case a.p.crashed != nil:
		case a.p.hung != "":
			w.violate("P18", "hang", "%s never ends: %s (%s)", a.p.name, a.p.err(), kind)
		case a.p.panicked != "" && !a.p.fatal && a.o == nil:
			w.violate("P18", "panic", "%s: %s (%s)", a.p.name, a.p.err(), kind)
		case !a.p.ok() && !faulty && (a.o == nil || strings.Contains(a.o.kind, "generate")):
			w.violate("P18", "refused", "%s failed although nothing was wrong: %s (%s)", a.p.name, a.p.err(), kind)
		}
		for _, r := range a.reads {
			if !seen(vs, r.snap, r.l0, r.l1) {
				w.violate("P18", "read", "%s read what the store did not hold at the time (%s): %s", a.p.name, kind, diff(vs[len(vs)-1].snap, r.snap))
			}
			w.stats["reads_judged"]++
		}
		if a.list != nil && a.p.ok() {
			ok, why := false, ""
			for i := range vs {
				if i+1 < len(vs) && vs[i+1].from < a.p.nstart || vs[i].from > a.p.nend {
					continue
				}
				_, m := a.list.done(a.p, vs[i].snap, vs[i].snap)
				ok = ok || m == ""
				why = m
			}
			if !ok {
				w.violate("P18", "read", "%s listed what the store did not hold at the time (%s): %s", a.p.name, kind, why)
			}
		}
	}
	post, msg := w.look(st)
	if post == nil {
		w.violate("P18,P01", "broken", "afterwards the store cannot be opened: %s (%s, power failure %v)", msg, kind, power)
	}
	least := 0
	for _, a := range as {
		least = max(least, a.saved)
	}
	if !power {
		least = len(vs) - 1
	}
	ok := false
	for i := least; i < len(vs); i++ {
		ok = ok || diff(vs[i].snap, post) == ""
	}
	for _, v := range st.soft {
		// what an earlier, killed writer had not flushed
		ok = ok || power && least == 0 && diff(v, post) == ""
	}
	if !ok {
		old := false
		for i := 0; i < least; i++ {
			old = old || diff(vs[i].snap, post) == ""
		}
		w.violate("P18,P01", "left", "afterwards the store does not hold what was saved last (an older version: %v, power failure %v, %s): %s", old, power, kind, diff(vs[len(vs)-1].snap, post))
	}
	w.stats["rounds"]++
	if power || least > 0 {
		st.soft = nil
	}
	st.cur, st.pend = post, nil
	st.sent = map[string]string{}
	if !power {
		// What was there but not flushed may still go.
		for i := 0; i < len(vs)-1; i++ {
			st.soft = append(st.soft, vs[i].snap)
		}
	}
}

// seen tells whether a version was current at some instant between two steps.
func seen(vs []held, s *Snap, l0, l1 int64) bool {
	for i := range vs {
		if i+1 < len(vs) && vs[i+1].from < l0 || vs[i].from > l1 {
			continue
		}
		if diff(vs[i].snap, s) == "" {
			return true
		}
	}
	return false
}

// ---- P20: changing the file key ----

var hex64 = regexp.MustCompile(`\b[0-9a-fA-F]{64}\b`)

// credential opens a store: a key, or a password with a salt.
type credential struct {
	hex, pass, salt string
}

func (c credential) String() string {
	if c.hex != "" {
		return "key " + c.hex[:8]
	}
	return "password " + c.pass + " salt " + c.salt[:min(8, len(c.salt))]
}

func (c credential) args() []string {
	if c.hex != "" {
		return []string{"-K", c.hex}
	}
	r := []string{}
	if c.salt != "" {
		r = append(r, "-S", c.salt)
	}
	return append(r, "-P", c.pass)
}

var derived = map[string]string{} // credential -> key

// key derives the file key with the library's own function (310,000 rounds, so
// only once per password and salt).
func (w *World) credKey(c credential) string {
	if c.hex != "" {
		return strings.ToLower(c.hex)
	}
	id := c.pass + "/" + c.salt
	if k, ok := derived[id]; ok {
		return k
	}
	k := template
	s := c.salt
	if s == "" {
		s = krypto431.DefaultSalt
	}
	if err := k.SetSaltFromString(s); err != nil {
		panic(err)
	}
	if err := k.SetPFKFromPassword(c.pass); err != nil {
		panic(err)
	}
	derived[id] = strings.ToLower(k.GetPFKString())
	return derived[id]
}

var passwords = []string{"correct horse battery staple 77", "Tr0ub4dor&3 Grisslehamn", " Räksmörgås på Öland, 7 gånger! "}
var salts = []string{"", "a3f1c2d4e5b60718293a4b5c6d7e8f90112233445566778899aabbccddeeff00"}

func scenP20(w *World) {
	c := &histCfg{gen: 4, compose: 2, receive: 1, edit: 1, n: [2]int{1, 4}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
	cr := credential{hex: st.pfk}
	withPass := w.ch.P(1, 12)
	for i := w.ch.Range(1, 5); i > 0; i-- {
		cr = w.rekey(st, cr, withPass)
		if w.ch.P(1, 3) && cr.hex != "" {
			w.exec(w.pickOp(st, &histCfg{gen: 3, compose: 2, list: 1}), nil)
		}
	}
}

// rekey changes the file key and judges every way it can end; it returns what
// opens the store afterwards.
func (w *World) rekey(st *Station, cr credential, withPass bool) credential {
	pre := st.cur
	preBytes, _ := st.disk.ReadFile(st.path)
	var next credential
	random := false
	bad := "" // why it has to be refused
	args := cr.args()
	if cr.pass != "" && w.ch.P(1, 2) {
		// the old password as an option of the command
		args = args[:len(args)-2]
		args = append(args, "pfk", "-c", st.named(), "-P", cr.pass)
	} else {
		args = append(args, "pfk", "-c", st.named())
	}
	kind := w.ch.Weighted(4, 4)
	if withPass && w.ch.P(2, 3) {
		kind = 2
	}
	yes := true
	switch kind {
	case 0:
		next = credential{hex: w.hexKey(fmt.Sprint("new", w.procs))}
		if w.ch.P(1, 6) {
			next.hex = strings.ToUpper(next.hex)
		}
		if w.ch.P(1, 12) {
			next.hex = cr.hex
			if next.hex == "" {
				next.hex = w.hexKey("x")
			}
		}
		h := next.hex
		if w.ch.P(1, 10) {
			h = []string{h[:62], h + "00", h[:63], "zz" + h[2:], ""}[w.ch.N(5)]
			bad = "the key is not 32 bytes"
		}
		args = append(args, "-k", h)
		if w.ch.P(1, 6) {
			args = append(args, "-s", salts[1]) // of no consequence
		}
	case 1:
		random = true
		args = append(args, "-r")
		if w.ch.P(1, 6) {
			args = append(args, "-s", salts[1]) // of no consequence
		}
		if w.ch.P(1, 20) {
			args = append(args, "-N", passwords[0])
			bad = "random and password both given"
		}
	default:
		next = credential{pass: passwords[w.ch.N(len(passwords))], salt: cr.salt}
		switch w.ch.N(3) {
		case 1:
			next.salt = salts[1]
			args = append(args, "-s", next.salt)
		case 2:
			next.salt = ""
			args = append(args, "-s", "default")
		}
		args = append(args, "-N", next.pass)
	}
	var questions []answer
	declined := false
	if w.atTerminal && w.ch.P(3, 4) {
		yes = false
		r := w.yesOrNo()
		questions = r.answers("ncryption key for")
		if !r.yes && bad == "" {
			declined = true
		}
		if kind == 2 && w.ch.P(1, 2) {
			// Without the option it asks for the new password, twice.
			i := indexOf(args, "-N")
			args = append(args[:i:i], args[i+2:]...)
			declined = false
			questions = nil
			const first, again = "new encryption key: ", "(repeat) "
			if w.ch.P(1, 4) {
				questions = append(questions, answer{first, enter("password"), 1}) // too weak
			}
			if w.ch.P(1, 4) {
				other := []string{next.pass + "1", strings.ToUpper(next.pass), " " + next.pass, next.pass[:len(next.pass)-1]}[w.ch.N(4)]
				questions = append(questions, answer{first, enter(other), 1}, answer{again, enter(next.pass), 1})
			}
			if w.ch.P(1, 4) {
				bad = "no new password was given"
				questions = append(questions, answer{first, []string{keyEOT}, -1})
			} else {
				questions = append(questions, answer{again, append(w.typo(next.pass), keyEnter), -1}, answer{first, append(w.typo(next.pass), keyEnter), -1})
			}
		}
	} else if w.ch.P(1, 12) {
		yes = false
		bad = "the question was not answered"
	} else {
		args = append(args, "-y")
	}
	old := w.credKey(cr)
	if bad == "" && w.ch.P(1, 12) {
		// not with this key
		for i, a := range args {
			if a == "-K" {
				args[i+1] = w.hexKey("wrong")
				bad = "the old key is wrong"
			}
		}
	}
	_ = yes
	var env []string
	if w.ch.P(1, 3) {
		args, env = w.toEnv(args)
	}
	o := &op{kind: "change key", st: st, args: args, env: env, raw: true, mutates: true}
	if questions != nil {
		fast := w.ch.P(1, 3)
		o.tty = func() *tty {
			t := newTTY(answering(questions))
			t.fast = fast
			return t
		}
	}
	mode := []int{fmNone, fmCrash, fmFaults}[w.ch.Weighted(2, 4, 3)]
	if kind == 2 || cr.pass != "" {
		// deriving is slow: no rehearsal
		mode = fmNone
	}
	plan := w.genPlan(o, mode)
	if mode == fmNone && (kind == 2 || cr.pass != "") && w.ch.P(2, 3) {
		plan = noFaults()
		if w.ch.P(1, 2) {
			plan.Faults = append(plan.Faults, Fault{At: w.ch.N(36), Kind: []int{fCrash, fCrashA, fTorn}[w.ch.N(3)], Arg: w.ch.N(4096), Power: w.ch.P(1, 2)})
		} else {
			plan.Faults = append(plan.Faults, w.genFault(36))
		}
	}
	p := w.prep(o, plan)
	if plan != nil && len(plan.Faults) > 0 {
		w.logf("plan %v", plan.Faults)
	}
	w.shape = fold(w.shape, "rekey"+fmt.Sprint(kind))
	w.run(p)
	st.disk.heal()
	w.stats["op.change key"]++
	if plan != nil && plan.EntFailAt >= 0 && p.ent.failed > 0 {
		p.faulted++
	}
	// The keys the operator has.
	shown := hex64.FindAllString(string(p.stdout)+"\n"+string(p.stderr), -1)
	cands := []credential{cr}
	if next != (credential{}) {
		cands = append(cands, next)
	}
	for _, h := range shown {
		cands = append(cands, credential{hex: h})
	}
	power := p.crashed != nil && p.crashed.Power
	if power {
		for _, k := range st.softKeys {
			cands = append(cands, k)
		}
	}
	if w.monitor {
		var ks []string
		for _, c := range append(cands, st.softKeys...) {
			ks = append(ks, w.credKey(c))
		}
		w.checkMonitors(uniq(ks), secretsOf(ks, pre))
	}
	how := fmt.Sprintf("changing the key of %s from %v (%s) %v", st.name, cr, p.outcome(), []string{"to a given key", "to a random key", "to a password"}[kind])
	if p.hung != "" {
		w.violate(addTag("P20", w.asked()), "hang", "%s never ends: %s", how, p.hung)
	}
	if p.panicked != "" && !p.fatal && p.ent.failed == 0 {
		w.violate(addTag("P20", w.asked()), "panic", "%s: %s", how, p.err())
	}
	var opens *credential
	var post *Snap
	msg := ""
	for i := range cands {
		s, m := w.observe(st.disk, st.path, w.credKey(cands[i]))
		if s == nil {
			msg = m
			continue
		}
		if opens == nil || w.credKey(*opens) == w.credKey(cr) && w.credKey(cands[i]) != w.credKey(cr) {
			opens, post = &cands[i], s
		}
	}
	if opens == nil {
		w.violate(addTag("P20", w.asked()), "locked_out", "after %s neither the old key nor one given or shown opens the store: %s; shown: %v", how, msg, shown)
	}
	soft := false
	for _, s := range st.soft {
		soft = soft || power && diff(s, post) == ""
	}
	if d := diff(pre, post); d != "" && !soft {
		w.violate(addTag("P20", w.asked()), "contents", "after %s the store opens with %v but its contents changed: %s", how, *opens, d)
	}
	w.stats["keys_tried"] += len(cands)
	postBytes, _ := st.disk.ReadFile(st.path)
	if declined {
		if string(preBytes) != string(postBytes) && !power {
			w.violate("P20,P24", "changed", "%s: the operator did not agree and the store changed", how)
		}
	} else if bad != "" {
		if p.ok() {
			w.violate(addTag("P20", w.asked()), "accepted", "%s was not refused although %s", how, bad)
		}
		if string(preBytes) != string(postBytes) && !power {
			w.violate(addTag("P20", w.asked()), "changed", "%s was refused (%s) and changed the store", how, bad)
		}
	}
	if declined {
		if p.ok() && len(shown) > 0 {
			w.violate("P20,P24", "shown", "%s: the operator did not agree and a key was shown: %q", how, p.stdout)
		}
	} else if p.ok() {
		var want credential
		if random {
			if len(shown) == 0 {
				w.violate(addTag("P20", w.asked()), "unshown", "%s succeeded without showing the key: %q", how, p.stdout)
			}
			want = credential{hex: shown[len(shown)-1]}
		} else {
			want = next
		}
		check := func(d *Disk, when string) {
			s, m := w.observe(d, st.path, w.credKey(want))
			if s == nil {
				w.violate(addTag("P20", w.asked()), "not_new", "%s%s: the new %v does not open the store: %s", how, when, want, m)
			}
			if df := diff(pre, s); df != "" {
				w.violate(addTag("P20", w.asked()), "contents", "%s%s: the contents changed: %s", how, when, df)
			}
			if w.credKey(want) != old {
				if s, _ := w.observe(d, st.path, old); s != nil {
					w.violate(addTag("P20", w.asked()), "still_old", "%s%s: the old key still opens the store", how, when)
				}
			}
		}
		check(st.disk, "")
		if w.ch.P(1, 2) {
			d := st.disk.Clone()
			w.powerLoss(d)
			check(d, " and a power failure")
		}
		opens = &want
		st.soft, st.softKeys = nil, nil
	} else if bad == "" && p.faulted == 0 && p.crashed == nil {
		w.violate(addTag("P20", w.asked()), "refused", "%s failed although nothing was wrong: %s", how, p.err())
	}
	switch {
	case power:
		st.soft, st.softKeys = nil, nil
	case !p.ok() && string(preBytes) != string(postBytes):
		st.soft = append(st.soft, pre)
		st.softKeys = append(st.softKeys, cr)
	}
	// Nothing may be left behind by a failure it could handle.
	st.cur = post
	st.pfk = w.credKey(*opens)
	return *opens
}

// asked adds the property of questions at the terminal.
func (w *World) asked() string {
	if w.atTerminal {
		return "P24"
	}
	return ""
}

// ---- P21: existing files ----

func scenP21(w *World) {
	c := &histCfg{gen: 4, compose: 2, n: [2]int{1, 3}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
	if len(st.cur.Keys) == 0 {
		w.exec(w.opGen(st), nil)
	}
	for i := w.ch.Range(2, 6); i > 0; i-- {
		w.onto(st)
	}
}

type fileState struct {
	kind int
	data string
	mode uint32
}

func stateOf(d *Disk, path string) (fileState, bool) {
	n := d.lookup(path)
	if n == nil {
		return fileState{}, false
	}
	r := fileState{kind: n.kind, data: string(n.data), mode: n.mode}
	if n.kind == kLink {
		r.data = n.target
	}
	return r, true
}

// onto has a command write onto something that exists.
func (w *World) onto(st *Station) {
	d := st.disk
	dir := home + "/" + w.ch.Pick("a", "x y", "keys.d")
	d.MkdirAll(dir)
	target := dir + "/" + w.ch.Pick("old.gob", "notes.txt", ".hidden", "åäö")
	d.Remove(target)
	real := target
	kind := w.ch.N(7)
	kinds := []string{"a store", "a foreign file", "an empty file", "a link to a file", "a file that may not be read", "a directory", "a store of another key"}
	own, _ := d.ReadFile(st.path)
	switch kind {
	case 0, 6:
		d.PutFile(target, own, 0600)
		if kind == 6 && len(own) > 0 {
			b := append([]byte(nil), own...)
			b[len(b)/2] ^= 0x40
			d.PutFile(target, b, 0600)
		}
	case 1:
		d.PutFile(target, []byte("these are notes, kept for long"), 0644)
	case 2:
		d.PutFile(target, nil, 0600)
	case 3:
		real = dir + "/behind"
		d.PutFile(real, []byte("linked to"), 0640)
		d.PutLink(target, w.ch.Pick(real, "behind"))
	case 4:
		d.PutFile(target, []byte("closed"), []uint32{0, 0200, 0100, 0400}[w.ch.N(4)])
	case 5:
		d.MkdirAll(target)
		if w.ch.P(1, 2) {
			d.PutFile(target+"/inside", []byte("inside"), 0600)
		}
	}
	d.syncAll()
	before := map[string]fileState{}
	d.walk(func(p string, n *inode) {
		before[p], _ = stateOf(d, p)
	})
	cmd := w.ch.N(3)
	var o *op
	yes := w.ch.P(1, 6)
	target2 := target
	switch w.ch.Weighted(4, 1, 1, 1) {
	case 1:
		target2 = dir + "/./" + target[len(dir)+1:]
	case 2:
		target2 = "~" + target[len(home):]
	case 3:
		target2 = target[len(home)+1:]
	}
	switch cmd {
	case 0:
		args := []string{"-f", target2, "-K", st.pfk, "init", "-c", "NEW", "-n", fmt.Sprint(w.ch.N(3)), "-l", "20", "-g", fmt.Sprint(st.gs)}
		if yes {
			args = append(args, "-y")
		}
		o = &op{kind: "init onto", st: st, args: args, raw: true}
	case 1:
		args := []string{"keys", "-E", target2, "--all"}
		if w.ch.P(1, 3) {
			args[3] = "--unused"
		}
		if w.ch.P(1, 4) && len(st.cur.Keys) > 0 {
			args = append(args[:3], "-i", st.cur.Keys[0].Id)
		}
		if yes {
			args = append(args, "-y")
		}
		o = &op{kind: "export onto", st: st, args: args}
	default:
		o = &op{kind: "lib save onto", st: st}
		viaExport := w.ch.P(1, 2)
		o.lib = func(k *krypto431.Krypto431) error {
			var e krypto431.Krypto431
			opts := []krypto431.Option{krypto431.WithPersistence(target2), krypto431.WithOverwritePersistenceIfExists(yes)}
			if viaExport {
				e = k.ExportKeys(func(*krypto431.Key) bool { return true }, append(opts, krypto431.WithPFKString(st.pfk))...)
			} else {
				n := libInstance(target2, st.pfk)
				krypto431.WithOverwritePersistenceIfExists(yes)(n)
				e = *n
			}
			return e.Save()
		}
	}
	mode := []int{fmNone, fmFaults, fmCrash}[w.ch.Weighted(4, 3, 2)]
	plan := w.genPlan(o, mode)
	if mode == fmNone && w.ch.P(1, 3) {
		// the existence check fails
		n, _, _ := w.rehearse(o, nil)
		plan = noFaults()
		for i := 0; i < n; i++ {
			if w.ch.P(1, 4) {
				plan.Faults = append(plan.Faults, Fault{At: i, Kind: fErr, Arg: w.ch.N(8)})
			}
		}
		w.stats["fault.check_fails"]++
	}
	p := w.prep(o, plan)
	if plan != nil && len(plan.Faults) > 0 {
		w.logf("plan %v", plan.Faults)
	}
	w.note("%s: %s", o.kind, kinds[kind])
	w.shape = fold(w.shape, o.kind+kinds[kind]+yesNo(yes))
	w.run(p)
	d.heal()
	w.stats["op."+o.kind]++
	what := fmt.Sprintf("%s %s (%s)", o.kind, kinds[kind], p.outcome())
	if p.hung != "" || p.panicked != "" && !p.fatal && p.ent.failed == 0 {
		w.violate("P21,P08", "failed", "%s: %s", what, p.err())
	}
	if !yes {
		w.stats["existing_targets"]++
		if p.ok() {
			w.violate("P21", "accepted", "%s: it reported success without having been asked to overwrite; %q", what, p.stdout)
		}
		for f, s := range before {
			n, ok := stateOf(d, f)
			if !ok {
				w.violate("P21", "gone", "%s: %s is gone", what, f)
			}
			if n != s {
				w.violate("P21", "touched", "%s: %s was changed (%d bytes mode %o to %d bytes mode %o)", what, f, len(s.data), s.mode, len(n.data), n.mode)
			}
		}
		if p.crashed == nil {
			d.walk(func(f string, n *inode) {
				if _, ok := before[f]; !ok && n.kind != kDir && !contains(p.failedOps, "unlink") {
					w.violate("P21,P23", "litter", "%s left %s behind", what, f)
				}
			})
		}
	} else if kind != 5 && kind != 4 && p.faulted == 0 && p.ent.failed == 0 && p.crashed == nil && !p.ok() {
		w.violate("P21", "refused", "%s although it was asked to overwrite: %s", what, p.err())
	}
	// the store itself is none of its business
	s, m := w.look(st)
	if s == nil || diff(st.cur, s) != "" {
		w.violate("P21,P23", "store", "%s: the store changed: %s %s", what, m, diff(st.cur, s))
	}
	d.Remove(target)
	for _, f := range d.Files() {
		if f != st.path && strings.HasPrefix(f, dir) {
			d.Remove(f)
		}
	}
	d.syncAll()
}

func yesNo(b bool) string {
	if b {
		return "y"
	}
	return "n"
}

var _ = syscall.EIO
