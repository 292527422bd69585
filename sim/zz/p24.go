//go:build go1.23

package zzverifsim

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

// P24: the operator sits at a terminal and is asked.

func scenP24(w *World) {
	c := &histCfg{gen: 5, compose: 3, receive: 2, edit: 2, n: [2]int{0, 5}, modes: []int{fmNone}}
	var st *Station
	if w.ch.P(1, 4) {
		st = w.setup(c, "A", "AA")
		o := w.ttyInit(st)
		w.exec(o, w.genPlan(o, fmNone))
		if st.cur == nil {
			return
		}
	} else {
		st = w.begin(c, "A", "AA")
	}
	w.history(st, c)
	cr := credential{hex: st.pfk}
	withPass := w.ch.P(1, 6)
	for i := w.ch.Range(2, 6); i > 0; i-- {
		if st.cur == nil || len(st.cur.Keys) == 0 {
			w.exec(w.opGen(st), nil)
		}
		var o *op
		switch w.ch.Weighted(4, 4, 4, 3, 3, 3, 2, 3) {
		case 0:
			o = w.ttySelect(st, false)
		case 1:
			o = w.ttySelect(st, true)
		case 2:
			o = w.ttyInit(st)
		case 3:
			o = w.ttyExport(st)
		case 4:
			o = w.ttyImport(st)
		case 5:
			o = w.ttyMessage(st)
		case 6:
			w.atTerminal = true
			cr.hex = st.pfk
			cr = w.rekey(st, cr, withPass)
			w.atTerminal = false
			if cr.hex == "" {
				return
			}
			continue
		case 7:
			// Something else in between.
			w.exec(w.pickOp(st, &histCfg{gen: 3, compose: 3, receive: 1, edit: 2}), nil)
			continue
		}
		if o == nil {
			continue
		}
		mode := []int{fmNone, fmFaults, fmCrash}[w.ch.Weighted(5, 2, 2)]
		w.exec(o, w.genPlan(o, mode))
	}
	if st.cur != nil && w.ch.P(1, 20) {
		w.passwordStore(st)
	}
}

// onTerminal gives the operation a terminal with an operator; make is called
// for every run of it.
func (w *World) onTerminal(o *op, mk func() func(string) []string) *op {
	fast := w.ch.P(1, 3)
	cols := uint16([]int{80, 132, 40, 20, 0}[w.ch.Weighted(4, 2, 2, 1, 1)])
	kill, intr := -1, -1
	switch w.ch.Weighted(16, 1, 1) {
	case 1:
		kill = w.ch.N(12)
	case 2:
		intr = w.ch.N(6)
	}
	o.noTag = "P24"
	o.mustTag = addTag(o.mustTag, "P24")
	o.tty = func() *tty {
		t := newTTY(mk())
		t.fast, t.killAt, t.intrAt = fast, kill, intr
		if cols > 0 {
			t.cols = cols
		} else {
			t.rows, t.cols = 24, 200
		}
		return t
	}
	tagged := func(f func(p *proc, pre, post *Snap) (string, string)) func(p *proc, pre, post *Snap) (string, string) {
		if f == nil {
			return nil
		}
		return func(p *proc, pre, post *Snap) (string, string) {
			tag, m := f(p, pre, post)
			return addTag(tag, "P24"), m
		}
	}
	o.check, o.done = tagged(o.check), tagged(o.done)
	return o
}

// typo types s with corrections.
func (w *World) typo(s string) []string {
	var r []string
	h := uint64(w.ch.N(1 << 12))
	some := w.ch.P(1, 4)
	for _, c := range s {
		h = mix(h + 0x9e3779b97f4a7c15)
		if some && h%7 == 0 {
			r = append(r, "X", keyBack)
		}
		r = append(r, string(c))
	}
	return r
}

// reply is how an operator answers a yes-or-no question.
type reply struct {
	keys [][]string // one per time it is asked
	yes  bool
}

func (w *World) yesOrNo() reply {
	switch w.ch.Weighted(6, 4, 2, 2, 2, 1, 1, 1) {
	case 0:
		return reply{[][]string{enter(w.ch.Pick("y", "Y", "yes", "YES"))}, true}
	case 1:
		return reply{[][]string{enter(w.ch.Pick("n", "N", "no", "NO"))}, false}
	case 2:
		return reply{[][]string{{keyEnter}}, false} // the default
	case 3:
		return reply{[][]string{{keyIntr}}, false}
	case 4:
		return reply{[][]string{nil}, false} // hang up
	case 5:
		return reply{[][]string{enter("maybe"), enter("y")}, true}
	case 6:
		return reply{[][]string{enter("yup"), enter("n")}, false}
	}
	return reply{[][]string{{"y", keyBack, "n", keyEnter}}, false}
}

func (r reply) answers(prompt string) []answer {
	var as []answer
	for i, k := range r.keys {
		n := 1
		if i == len(r.keys)-1 {
			n = -1
		}
		as = append(as, answer{prompt, k, n})
	}
	return as
}

var focusLine = regexp.MustCompile(`(?m)^> *\[([ x])\] *(\S+)`)

// selecting makes an operator who ticks the wanted items of a list, looking at
// the screen after each keystroke.
func selecting(want map[string]bool, how, end string) func(string) []string {
	state, first, moves := 0, "", 0
	return func(screen string) []string {
		if how == "blind" {
			// Confirms what is there.
			if state++; state > 1 || end == "" {
				return nil
			}
			return []string{end}
		}
		ms := focusLine.FindAllStringSubmatch(screen, -1)
		if len(ms) == 0 {
			state++
			if state > 3 {
				return nil
			}
			return []string{keyIntr}
		}
		m := ms[len(ms)-1]
		if first == "" && how != "" {
			k := how
			how = ""
			return []string{k}
		}
		if (m[1] == "x") != want[m[2]] {
			return []string{" "}
		}
		if first == "" {
			first = m[2]
		} else if m[2] == first || moves > 400 {
			switch end {
			case "":
				return nil
			}
			return []string{end}
		}
		moves++
		return []string{keyDown}
	}
}

// ttySelect deletes keys or messages picked from the list on the screen.
func (w *World) ttySelect(st *Station, msgs bool) *op {
	pre := st.cur
	o := &op{kind: "select keys to delete", st: st, mustTag: "P14"}
	var kf keyFilter
	var mf msgFilter
	var all []string
	if msgs {
		if len(pre.Msgs) == 0 {
			return nil
		}
		o.kind = "select messages to delete"
		mf = w.genMsgFilter(pre)
		o.args = append([]string{"messages", "-d"}, mf.args...)
		for i := range pre.Msgs {
			if mf.f(&pre.Msgs[i]) {
				all = append(all, pre.Msgs[i].Id)
			}
		}
	} else {
		if w.ch.P(1, 2) {
			kf = keyFilter{f: func(k *KeySnap, now int64) bool { return true }}
		} else {
			kf = w.genKeyFilter(pre)
		}
		o.args = append([]string{"keys", "-d"}, kf.args...)
		now := w.sec*1e9 + w.nsec
		for i := range pre.Keys {
			a, b := kf.f(&pre.Keys[i], now), kf.f(&pre.Keys[i], now+600e9)
			if a != b {
				return nil
			}
			if a {
				all = append(all, pre.Keys[i].Id)
			}
		}
	}
	if len(all) == 0 || len(all) > 60 {
		return nil
	}
	want := map[string]bool{}
	for _, id := range all {
		if w.ch.P(1, 3) {
			want[id] = true
		}
	}
	if w.ch.P(1, 8) {
		want = map[string]bool{}
	}
	how := []string{"", keyRight, keyLeft, keyUp}[w.ch.Weighted(5, 1, 1, 1)]
	if len(want) == 0 && w.ch.P(1, 2) {
		how = "blind"
	}
	end := []string{keyEnter, keyEOT, keyIntr, ""}[w.ch.Weighted(8, 1, 2, 1)]
	o.must = end == keyEnter || end == keyEOT
	o.mutates = o.must && len(want) > 0
	if !o.must {
		o.mustNot = true
	}
	var ids []string
	for _, id := range all {
		if want[id] {
			ids = append(ids, id)
		}
	}
	w.note("wants to delete %v of %v", ids, all)
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		if msgs {
			return "P14", delListed(pre, post, ids, mf.f)
		}
		want, _ := delKeys(pre, ids, st)
		return "P14", diff(want, post)
	}
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		what := "keys"
		if msgs {
			what = "messages"
		}
		if n := len(ids); n > 0 && !strings.Contains(string(p.stderr), fmt.Sprintf("Deleted %d %s.", n, what)) {
			return "P14", fmt.Sprintf("%d %s were deleted but it said %q", n, what, p.stderr)
		}
		return "", ""
	}
	return w.onTerminal(o, func() func(string) []string { return selecting(want, how, end) })
}

// unclaimed is the judgement of a command whose question was not answered with
// yes and that ended without an error: it must not say it did it.
func unclaimed(words ...string) func(p *proc, pre, post *Snap) (string, string) {
	return func(p *proc, pre, post *Snap) (string, string) {
		for _, s := range words {
			if strings.Contains(string(p.stderr), s) {
				return "P24", fmt.Sprintf("the operator did not agree and it reported success: %q", p.stderr)
			}
		}
		return "", ""
	}
}

// ttyInit makes a store in dialogue.
func (w *World) ttyInit(st *Station) *op {
	exists := st.disk.resolve(st.path) != nil
	gs, kl := st.gs, st.kl
	n := w.ch.Range(0, 5)
	if gs == 1 {
		n = min(n, 3)
	}
	var as []answer
	call := st.call
	if w.ch.P(1, 6) {
		as = append(as, answer{"call-sign:", []string{keyEnter}, 1}) // required
	}
	as = append(as, answer{"call-sign:", append(w.typo(w.ch.Pick(call, strings.ToLower(call), " "+call+" ")), keyEnter), -1})
	if w.ch.P(1, 6) {
		as = append(as, answer{"number of initial keys", enter(w.ch.Pick("many", "-1", "1.5")), 1})
	}
	// The default is put in brackets; what is typed replaces it.
	as = append(as, answer{"number of initial keys", append(w.typo(fmt.Sprint(n)), keyEnter), -1})
	var keepers []string
	for i := w.ch.Weighted(3, 4, 2, 1); i > 0; i-- {
		keepers = append(keepers, calls[w.ch.N(len(calls))])
	}
	keepers = uniq(keepers)
	txt := strings.Join(keepers, w.ch.Pick(",", " ", ", ", " , ", "  "))
	if w.ch.P(1, 3) {
		txt = strings.ToLower(txt)
	}
	if w.ch.P(1, 8) {
		as = append(as, answer{"keepers of the initial keys", enter("?"), 1}) // help
	}
	as = append(as, answer{"keepers of the initial keys", append(w.typo(txt), keyEnter), -1})
	var exp *int64
	dtg := ""
	if w.ch.P(1, 3) {
		d, x := w.genDTG(300)
		dtg, exp = d, &x
	}
	as = append(as, answer{"expiry date", append(w.typo(dtg), keyEnter), -1})
	if w.ch.P(1, 6) {
		as = append(as, answer{"length of keys", enter(w.ch.Pick("19", "long", "0")), 1})
	}
	if w.ch.P(1, 8) {
		kl = 350
		as = append(as, answer{"length of keys", []string{keyEnter}, -1})
	} else {
		as = append(as, answer{"length of keys", append(w.typo(fmt.Sprint(kl)), keyEnter), -1})
	}
	if w.ch.P(1, 6) {
		as = append(as, answer{"group size", enter(w.ch.Pick("0", "-5", "x")), 1})
	}
	if gs == 5 && w.ch.P(1, 2) {
		as = append(as, answer{"group size", []string{keyEnter}, -1})
	} else {
		as = append(as, answer{"group size", append(w.typo(fmt.Sprint(gs)), keyEnter), -1})
	}
	args := []string{"init"}
	scripted := w.ch.P(1, 4)
	if scripted {
		// The options say it all; only the question remains.
		args = []string{"init", "-c", call, "-n", fmt.Sprint(n), "-l", fmt.Sprint(st.kl), "-g", fmt.Sprint(gs)}
		kl = st.kl
		if len(keepers) > 0 {
			args = append(args, "-k", strings.Join(keepers, ","))
		}
		if exp != nil {
			args = append(args, "-x", dtg)
		}
	}
	o := &op{kind: "init in dialogue", st: st, args: args, mutates: true, creates: true, must: true, mustTag: "P12"}
	gone := ""
	if !scripted && w.ch.P(1, 6) {
		// The operator walks away in the middle.
		gone = as[w.ch.N(len(as))].prompt
		k := []string{keyIntr}
		if w.ch.P(1, 3) {
			k = nil
		}
		as = append([]answer{{gone, k, -1}}, as...)
		for i := 1; i < len(as); i++ {
			if as[i].prompt == gone {
				as[i].times = 0
			}
		}
		o.must, o.mustNot, o.mutates = false, true, false
	}
	rep := w.yesOrNo()
	as = append(as, rep.answers("verwrite")...)
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		sv := st.kl
		st.kl = kl
		nk, tag, m := w.newKeys(p, st, nil, post, n, without(keepers, call), exp)
		st.kl = sv
		if m != "" {
			return tag, m
		}
		want := &Snap{GS: gs, KL: kl, Col: 110, KCol: 30, Call: call, Keys: nk}
		return "P03", diff(want, post)
	}
	if exists && gone == "" && !rep.yes {
		o.must, o.mutates = false, false
		o.mustTag = "P21"
		o.done = unclaimed("Saved")
	}
	o.after = func(p *proc, pre, post *Snap) {
		if post != pre {
			st.sent, st.pend = map[string]string{}, nil
		}
	}
	return w.onTerminal(o, func() func(string) []string { return answering(as) })
}

// ttyExport exports keys onto a file that may exist.
func (w *World) ttyExport(st *Station) *op {
	path := w.transport()
	o := w.opExport(st, path)
	if i := indexOf(o.args, "-y"); i >= 0 {
		o.args = append(o.args[:i:i], o.args[i+1:]...)
	}
	exists := st.disk.resolve(path) != nil
	o.must, o.mustNot, o.mustTag = true, false, "P13"
	before, _ := st.disk.ReadFile(path)
	rep := w.yesOrNo()
	if exists && !rep.yes {
		o.must, o.mustTag = false, "P21"
		no := unclaimed("Exported")
		o.done = func(p *proc, pre, post *Snap) (string, string) {
			if b, _ := st.disk.ReadFile(path); string(b) != string(before) {
				return "P21", path + " was replaced"
			}
			return no(p, pre, post)
		}
		o.after = func(p *proc, pre, post *Snap) {
			if b, ok := st.disk.ReadFile(path); p.crashed == nil && (!ok || string(b) != string(before)) {
				w.violate("P24,P21", "replaced", "%s was replaced although the operator did not agree (%s)", path, p.outcome())
			}
		}
	}
	return w.onTerminal(o, func() func(string) []string { return answering(rep.answers("verwrite")) })
}

var whichKey = regexp.MustCompile(`Key ID (\S+) already`)

// ttyImport takes keys over from another store, asking for those it has.
func (w *World) ttyImport(st *Station) *op {
	pre := st.cur
	path := home + "/incoming"
	st.disk.Remove(path)
	// Another station's keys, some under identifiers this one has.
	src := &Snap{GS: pre.GS, KL: pre.KL, Col: 110, KCol: 30, Call: "OTH"}
	for i := w.ch.Range(1, 5); i > 0; i-- {
		id := w.randLetters(pre.GS)
		if w.ch.P(1, 2) && len(pre.Keys) > 0 {
			id = pre.Keys[w.ch.N(len(pre.Keys))].Id
		}
		if src.key(id) != nil {
			continue
		}
		src.Keys = append(src.Keys, KeySnap{Id: id, Runes: w.randLetters(realLen(pre.KL, pre.GS)), Keepers: []string{pre.Call}, Created: w.sec * 1e9, Expires: w.sec*1e9 + yearNs, Used: w.ch.P(1, 4), Comp: w.ch.P(1, 6), Comment: w.ch.Pick("", "from afar")})
	}
	pfk := w.hexKey("oth")
	// With the command line, the password of the file is asked for.
	cmd, pass, wrong := w.ch.P(1, 3), "", false
	if cmd {
		pass = passwords[w.ch.N(len(passwords))]
		pfk = w.credKey(credential{pass: pass})
		wrong = w.ch.P(1, 5)
	}
	if !w.writeStore(st, path, pfk, src) {
		return nil
	}
	src, m := w.observe(st.disk, path, pfk)
	if src == nil {
		w.violate("P03", "unreadable", "a store written by the library cannot be opened: %s", m)
	}
	// The operator decides about each of them.
	replies := map[string]reply{}
	take := map[string]bool{}
	stop := false
	for _, k := range src.Keys {
		if stop {
			break
		}
		if pre.key(k.Id) == nil {
			take[k.Id] = true
			continue
		}
		r := w.yesOrNo()
		if w.ch.P(1, 2) && len(r.keys[0]) == 0 || len(r.keys[0]) == 1 && r.keys[0][0] == keyIntr && w.ch.P(1, 2) {
			r = reply{[][]string{enter("y")}, true}
		}
		replies[k.Id] = r
		take[k.Id] = r.yes
		if k0 := r.keys[0]; len(k0) == 0 || k0[0] == keyIntr {
			stop = true
		}
	}
	stop = stop || wrong
	o := &op{kind: "import in dialogue", st: st, mutates: !stop, must: !stop, mustNot: stop, mustTag: "P13"}
	got := 0
	want, cnt := importWant(src, pre, func(id string) bool { return take[id] }, true, st)
	o.lib = func(k *krypto431.Krypto431) error {
		krypto431.WithInteractive(true)(k)
		var err error
		got, err = k.ImportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPersistence(path), krypto431.WithPFKString(pfk), krypto431.WithInteractive(true))
		if err != nil {
			return err
		}
		return k.Save()
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) { return "P13", diff(want, post) }
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if cmd {
			w.stats["password_imports"]++
		}
		if cmd && !strings.Contains(string(p.stderr), fmt.Sprintf("Imported %d key", cnt)) {
			return "P13", fmt.Sprintf("%d keys were imported but it said %q", cnt, p.stderr)
		}
		if !cmd && got != cnt {
			return "P13", fmt.Sprintf("%d keys were imported but it reported %d", cnt, got)
		}
		return "", ""
	}
	if cmd {
		o.lib = nil
		o.args = []string{"keys", "-I", path}
	}
	typed := w.typo(pass)
	if wrong {
		typed = w.typo(pass + "x")
		w.stats["wrong_import_password"]++
	}
	o.after = func(p *proc, pre, post *Snap) {
		if post != nil && post != pre {
			st.pend = nil
			for r := range st.sent {
				delete(st.sent, r)
			}
		}
	}
	w.note("imports %v into %v, takes %v", src.keyIds(), pre.keyIds(), take)
	return w.onTerminal(o, func() func(string) []string {
		asked := map[string]int{}
		told := !cmd
		return func(screen string) []string {
			if !told && strings.Contains(screen, "decryption key") {
				told = true
				return append(append([]string{}, typed...), "\n")
			}
			ms := whichKey.FindAllStringSubmatch(screen, -1)
			if len(ms) == 0 {
				return nil
			}
			id := ms[len(ms)-1][1]
			r, ok := replies[id]
			if !ok {
				return nil
			}
			i := min(asked[id], len(r.keys)-1)
			asked[id]++
			return r.keys[i]
		}
	})
}

// randLetters are n random capital letters.
func (w *World) randLetters(n int) string {
	h := uint64(w.ch.N(1 << 20))
	r := make([]byte, n)
	for i := range r {
		h = mix(h + 0x9e3779b97f4a7c15)
		r[i] = byte('A' + (h>>33)%26)
	}
	return string(r)
}

// writeStore has the library write s to a file of the station's disk.
func (w *World) writeStore(st *Station, path, pfk string, s *Snap) bool {
	p := w.newProc(st, "other station", nil, func() {
		k := libInstance(path, pfk)
		krypto431.WithOverwritePersistenceIfExists(true)(k)
		k.GroupSize, k.KeyLength, k.CallSign = s.GS, s.KL, []rune(s.Call)
		for _, x := range s.Keys {
			n := krypto431.Key{Id: []rune(x.Id), Runes: []rune(x.Runes), Used: x.Used, Compromised: x.Comp, Comment: []rune(x.Comment)}
			for _, c := range x.Keepers {
				n.Keepers = append(n.Keepers, []rune(c))
			}
			n.Created.Time, n.Expires.Time = nsTime(x.Created), nsTime(x.Expires)
			n.SetInstance(k)
			k.Keys = append(k.Keys, n)
		}
		if k.Save() != nil {
			w.cur.code = 1
		}
	})
	w.run(p)
	w.samples, w.touch, w.modes = nil, nil, nil
	return p.ok()
}

// ttyMessage enters a message line by line.
func (w *World) ttyMessage(st *Station) *op {
	var o *op
	if w.ch.P(2, 3) {
		o = w.opCompose(st)
	} else {
		o = w.opReceive(st)
	}
	var b []byte
	for _, c := range o.stdin {
		b = append(b, c.data...)
	}
	o.stdin = nil
	s := strings.TrimSpace(strings.ReplaceAll(string(b), "\r\n", "\n"))
	for _, c := range s {
		if c < ' ' && c != '\n' || c == 0x7f {
			return nil
		}
	}
	if s == "" || strings.Contains(s, "\n\n") {
		return nil
	}
	// Words may be broken over lines where there was a space.
	if w.ch.P(1, 2) {
		f := strings.Split(s, " ")
		s = f[0]
		for i, x := range f[1:] {
			if i%7 == 6 && x != "" && !strings.HasSuffix(s, " ") {
				s += "\n" + x
			} else {
				s += " " + x
			}
		}
	}
	lines := strings.Split(s, "\n")
	lines = append(lines, "", "")
	o.kind += " at the terminal"
	end := []string{"", "intr", "hup"}[w.ch.Weighted(8, 1, 1)]
	at := w.ch.N(len(lines))
	if end != "" {
		o.must, o.mustNot, o.mutates = false, true, false
		o.mustTag = "P08"
		o.after = nil
	}
	var keys [][]string
	for _, l := range lines {
		keys = append(keys, append(w.typo(l), keyEnter))
	}
	return w.onTerminal(o, func() func(string) []string {
		i := 0
		ready := false
		return func(screen string) []string {
			ready = ready || strings.Contains(screen, "radiogram")
			if !ready || i >= len(keys) {
				return nil
			}
			if end != "" && i == at {
				if end == "hup" {
					return nil
				}
				return []string{keyIntr}
			}
			k := keys[i]
			i++
			return k
		}
	})
}

// passwordStore opens a store whose password is typed, as every command does.
func (w *World) passwordStore(st *Station) {
	w.stats["password_typed"]++
	pass := passwords[w.ch.N(len(passwords))]
	cr := credential{pass: pass}
	d := st.disk
	path := home + "/secret"
	if !w.writeStore(st, path, w.credKey(cr), st.cur) {
		return
	}
	pre, _ := w.observe(d, path, w.credKey(cr))
	before, _ := d.ReadFile(path)
	typedPass := pass
	wrong := w.ch.P(1, 3)
	if wrong {
		typedPass = []string{pass + "x", "", strings.ToUpper(pass)}[w.ch.N(3)]
	}
	p := w.rawCli(st, nil, "-f", path, "keys", "-n", "2")
	p.tty = newTTY(answering([]answer{{"decryption key", append(w.typo(typedPass), "\n"), -1}}))
	p.tty.fast = w.ch.P(1, 2)
	w.run(p)
	after, _ := d.ReadFile(path)
	if wrong || pre == nil {
		if p.ok() || string(after) != string(before) {
			w.violate("P24,P04", "accepted", "a wrong password was accepted: %s", p.err())
		}
		return
	}
	post, m := w.observe(d, path, w.credKey(cr))
	if !p.ok() || post == nil || len(post.Keys) != len(pre.Keys)+2 {
		w.violate("P24", "refused", "the right password was typed and two keys asked for: %s; %s", p.err(), m)
	}
	if strings.Contains(string(p.stdout)+string(p.stderr), pass) {
		w.violate("P24,P05", "echoed", "the password was shown on the screen")
	}
}

func nsTime(ns int64) time.Time { return time.Unix(0, ns).UTC() }
