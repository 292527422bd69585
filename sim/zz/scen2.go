//go:build go1.23

package zzverifsim

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

func init() {
	const hist = "the sequence of commands, their outcomes, every file operation and failure in them, and what power failures kept, differ"
	for k, s := range map[string]*Scenario{
		"P09": {scenP09, hist, expl, true},
		"P12": {scenP12, hist, expl, true},
		"P13": {scenP13, hist, expl, true},
		"P15": {scenP15, "what was wiped how, and when the random source failed, differ", expl, true},
		"P16": {scenP16, hist, expl, true},
		"P17": {scenP17, "the radiograms, how they were cut into reads and where reading failed differ", expl, true},
	} {
		scenarios[k] = s
	}
}

// ---- P09: several stations and the traffic between them ----

type letter struct {
	from *Station
	t    *traffic
	text string
	to   []string
	dtg  string // in UTC
	need map[string]bool
	keys *Snap // what the sender had
}

func scenP09(w *World) {
	names := []string{"AA", "B2", "VJ"}
	gs := []int{5, 3, 4, 6, 2}[w.ch.Weighted(6, 2, 2, 1, 1)]
	var sts []*Station
	for i := 0; i < 2+w.ch.N(2); i++ {
		st := w.newStation(names[i], names[i])
		st.gs = gs
		st.kl = w.ch.Range(20, 60)
		if w.ch.P(1, 6) {
			st.kl = w.ch.Range(61, 300)
		}
		w.exec(w.opInit(st), nil)
		if st.cur == nil {
			w.violate("P12,P02", "init", "a fresh station cannot be initialised")
		}
		sts = append(sts, st)
	}
	var mail []*letter
	seen := map[string]map[string]bool{} // all the letters an identifier has stood for
	look := func() {
		for _, st := range sts {
			for _, k := range st.cur.Keys {
				if seen[k.Id] == nil {
					seen[k.Id] = map[string]bool{}
				}
				seen[k.Id][k.Runes] = true
			}
		}
	}
	exports := map[*Station][]byte{} // latest transport file of a station
	exported := map[*Station]*Snap{}
	others := func(st *Station) []*Station {
		var r []*Station
		for _, o := range sts {
			if o != st {
				r = append(r, o)
			}
		}
		return r
	}
	mk := func(st *Station) {
		// keys for the others
		var k []string
		for _, o := range others(st) {
			if w.ch.P(2, 3) {
				k = append(k, o.call)
			}
		}
		n := w.ch.Range(1, 5)
		args := []string{"keys", "-n", fmt.Sprint(n)}
		if len(k) > 0 {
			args = append(args, "-k", strings.Join(k, ","))
		}
		o := &op{kind: "generate", st: st, args: args, mutates: true, must: true, mustTag: "P12,P02"}
		o.check = func(p *proc, pre, post *Snap) (string, string) {
			nk, tag, m := w.newKeys(p, st, pre, post, n, k, nil)
			if m != "" {
				return tag, m
			}
			want := pre.clone()
			want.Keys = append(want.Keys, nk...)
			return "P12,P03", diff(want, post)
		}
		w.exec(o, nil)
	}
	export := func(st *Station) {
		path := home + "/move.gob"
		o := &op{kind: "export", st: st, args: []string{"keys", "-E", path, "--all", "-y"}, out: path, must: true, mustTag: "P13"}
		w.exec(o, nil)
		b, ok := st.disk.ReadFile(path)
		if !ok {
			w.violate("P13", "export", "no transport file")
		}
		exports[st] = append([]byte(nil), b...)
		exported[st] = st.cur
	}
	carry := func(from, to *Station) {
		if exports[from] == nil {
			return
		}
		path := home + "/in-" + from.call + ".gob"
		to.disk.PutFile(path, exports[from], 0600)
		over := w.ch.P(1, 4)
		w.importAt(to, from, path, over)
	}
	compose := func(st *Station) {
		pool := [][]string{nil}
		for _, k := range st.cur.Keys {
			if len(k.Keepers) > 0 && !k.Used {
				pool = append(pool, k.Keepers, k.Keepers[w.ch.N(len(k.Keepers)):])
			}
		}
		to := pool[w.ch.N(len(pool))]
		text := w.genText([]int{30, 120, 400}[w.ch.N(3)])
		pre := st.cur
		o := w.opComposeWith(st, to, text)
		p := w.exec(o, nil)
		t := parseTraffic(trafficOf(string(p.stdout)))
		if !p.ok() || t == nil {
			return
		}
		var m *MsgSnap
		for i := range st.cur.Msgs {
			if pre.msg(st.cur.Msgs[i].Id) == nil {
				m = &st.cur.Msgs[i]
			}
		}
		if m == nil {
			return
		}
		l := &letter{from: st, t: t, text: text, to: to, dtg: utcDTG(m.DTG), need: map[string]bool{}, keys: pre}
		for _, o := range others(st) {
			if len(to) == 0 || contains(to, o.call) {
				l.need[o.call] = true
			}
		}
		mail = append(mail, l)
		w.stats["traffic_sent"]++
	}
	deliver := func(l *letter, to *Station, garble bool) {
		raw := l.t.raw
		text := l.t.key + l.t.ct
		if garble {
			b := []byte(text)
			i := w.ch.N(len(b))
			b[i] = upperAlpha[w.ch.N(26)]
			text = string(b)
		}
		flat := text
		text = group(flat, gs)
		if garble || w.ch.P(1, 3) {
			// taken down by hand, perhaps in other groups
			if w.ch.P(1, 4) {
				if t := group(flat, w.ch.Range(2, 9)); !strings.HasSuffix(t, " K") {
					text = t
				}
			}
			if w.ch.P(1, 6) {
				text = strings.ReplaceAll(text, " ", w.ch.Pick("\t", "  ", "\t \t"))
			}
			raw = strings.TrimSpace(strings.Join(l.t.to, " ")+" DE "+l.t.from+" "+l.t.dtg+" "+fmt.Sprint(l.t.count)) + " = " + text + " = K"
			if w.ch.P(1, 3) {
				raw = strings.ToLower(raw)
				text = strings.ToLower(text)
			}
		} else {
			// the text between the second and third = as printed
			f := strings.SplitN(raw, "=", 3)
			s := strings.Map(func(r rune) rune {
				if r == '\n' || r == '\r' {
					return ' '
				}
				return r
			}, f[1])
			text = strings.TrimSpace(s)
		}
		var tol []string
		tol = append(tol, l.t.to...)
		o := w.opReceiveWith(to, tol, l.from.call, l.dtg, text, raw)
		w.exec(o, nil)
		w.stats["traffic_delivered"]++
	}
	n := w.ch.Range(4, 14)
	for i := 0; i < n; i++ {
		look()
		st := sts[w.ch.N(len(sts))]
		w.between(st, &histCfg{noJump: false})
		switch w.ch.Weighted(3, 2, 3, 6, 6, 1) {
		case 0:
			mk(st)
		case 1:
			export(st)
		case 2:
			os := others(st)
			carry(os[w.ch.N(len(os))], st)
		case 3:
			compose(st)
		case 4:
			if len(mail) == 0 {
				compose(st)
				break
			}
			l := mail[w.ch.N(len(mail))]
			var cand []*Station
			for _, o := range sts {
				if o != l.from {
					cand = append(cand, o)
				}
			}
			to := cand[w.ch.N(len(cand))]
			switch w.ch.Weighted(6, 2, 2, 2) {
			case 0:
				deliver(l, to, false)
			case 1:
				deliver(l, to, true)
				w.stats["fault.garbled"]++
			case 2:
				deliver(l, to, false)
				deliver(l, to, false)
				w.stats["fault.duplicated"]++
			case 3:
				w.stats["fault.lost_or_late"]++
			}
		case 5:
			w.exec(w.opReopen(st), nil)
		}
	}
	look()
	// The faults stop: all keys and all traffic get through, in any order.
	for _, st := range sts {
		export(st)
	}
	if w.ch.P(1, 2) {
		for _, st := range sts {
			for _, o := range others(st) {
				carry(o, st)
			}
		}
	}
	for len(mail) > 0 {
		i := w.ch.N(len(mail))
		l := mail[i]
		mail = append(mail[:i:i], mail[i+1:]...)
		for _, o := range others(l.from) {
			if l.need[o.call] {
				deliver(l, o, false)
			}
		}
		w.letters = append(w.letters, l)
	}
	for _, st := range sts {
		for _, o := range others(st) {
			carry(o, st)
		}
	}
	for _, st := range sts {
		w.readAll(st, seen)
	}
}

// importAt imports the transport file of another station and judges it.
func (w *World) importAt(to, from *Station, path string, over bool) {
	src, _ := w.observe(to.disk, path, from.pfk)
	if src == nil {
		w.violate("P13,P03", "unreadable", "the transport file of %s cannot be opened at %s", from.name, to.name)
	}
	pre := to.cur
	want, cnt := importWant(src, pre, func(string) bool { return true }, over, to)
	got := 0
	o := &op{kind: "import", st: to, mutates: true, must: true, mustTag: "P13"}
	o.lib = func(k *krypto431.Krypto431) error {
		var err error
		got, err = k.ImportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPersistence(path), krypto431.WithPFKString(from.pfk), krypto431.WithOverwriteExistingKeysOnImport(over))
		if err != nil {
			return err
		}
		return k.Save()
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) { return "P13", diff(want, post) }
	o.done = func(p *proc, pre, post *Snap) (string, string) {
		if got != cnt {
			return "P13", fmt.Sprintf("%d keys were imported but it reported %d", cnt, got)
		}
		return "", ""
	}
	o.after = func(p *proc, pre, post *Snap) {
		if over {
			to.pend = nil
			for r := range to.sent {
				delete(to.sent, r)
			}
		}
	}
	w.exec(o, nil)
}

// readAll has a station try what it could not read before, and compares with
// what was sent to it.
func (w *World) readAll(st *Station, seen map[string]map[string]bool) {
	var got *Snap
	list := w.ch.P(1, 2)
	p := w.libProc(st, nil, "read", func(k *krypto431.Krypto431) error {
		if list {
			k.SummaryOfMessages(func(*krypto431.Message) bool { return true })
		}
		for i := range k.Messages {
			if !list && len(k.Messages[i].KeyId) == 0 {
				k.Messages[i].TryDecipherPlainText()
			}
		}
		got = snapOf(k)
		return nil
	})
	w.run(p)
	if !p.ok() {
		w.violate("P09,P10", "read", "deciphering what had come in: %s", p.err())
	}
	for _, l := range w.letters {
		if !l.need[st.call] {
			continue
		}
		_, chain, err := refDecipher(l.keys.keyFn(), l.keys.GS, l.t.key, l.t.ct)
		if err != nil {
			w.violate("P08,P11", "letter", "the keys of %s do not decipher %s: %v", l.from.name, l.t.raw, err)
		}
		clash, gone := false, false
		for _, c := range chain {
			x, y, now := got.key(c.id), l.keys.key(c.id), l.from.cur.key(c.id)
			if now == nil || now.Runes != y.Runes {
				gone = true // replaced before it was brought to anyone, perhaps
			}
			if x == nil {
				if !gone {
					w.violate("P13,P09", "keys", "station %s has no key %s to read %s although all keys of %s were brought to it", st.name, c.id, l.t.raw, l.from.name)
				}
			} else if x.Runes != y.Runes {
				clash = true // another key happens to have the same identifier
			}
			if len(seen[c.id]) > 1 || x == nil && gone {
				clash = true
			}
		}
		if clash {
			w.stats["letters_identifier_clash"]++
			continue
		}
		var near *MsgSnap
		ok := false
		to := l.to
		if len(to) == 0 {
			to = []string{st.call}
		}
		for i := range got.Msgs {
			m := &got.Msgs[i]
			if m.Cipher == l.t.ct && m.KeyId == l.t.key {
				near = m
				if m.Plain == l.text && m.From == l.from.call && eqSeq(m.To, to) && utcDTG(m.DTG) == l.dtg {
					ok = true
				}
			}
		}
		w.stats["letters_read"]++
		if !ok {
			s := "nothing"
			if near != nil {
				s = near.canon()
			}
			w.violate("P09", "unread", "%s to %q at %s composed as %q (%s) was put out as %s; %s has %s", l.from.name, l.to, l.dtg, l.text, l.t.key, l.t.raw, st.name, s)
		}
	}
}

// ---- P12: keys come from the random source, all of it ----

func scenP12(w *World) {
	if w.ch.P(1, 150) {
		w.bigKeys()
		return
	}
	switch w.ch.Weighted(3, 4) {
	case 0:
		c := &histCfg{gen: 6, delKeys: 1, compose: 1, reinit: 2, n: [2]int{2, 6}, modes: []int{fmNone, fmFaults}, gsAny: true}
		st := w.begin(c, "A", "AA")
		w.history(st, c)
	default:
		w.twinKeys()
	}
}

// keyLetters makes n keys in a library instance and returns all their letters.
func (w *World) keyLetters(st *Station, plan *Plan, stream uint64, n, gs, kl int, had []string) (string, *proc, []string) {
	out := ""
	var ids []string
	p := w.newProc(st, "lib generate", plan, func() {
		k := libInstance(st.path, st.pfk)
		k.CallSign = []rune("AA")
		k.GroupSize = gs
		k.KeyLength = kl
		for _, id := range had {
			k.Keys = append(k.Keys, krypto431.Key{Id: []rune(id), Runes: []rune("OLD")})
		}
		if err := k.GenerateKeys(n, nil, "BB"); err != nil {
			theWorld.cur.code = 1
			return
		}
		for i := len(had); i < len(k.Keys); i++ {
			ids = append(ids, string(k.Keys[i].Id))
			out += string(k.Keys[i].Id) + string(k.Keys[i].Runes)
		}
	})
	p.ent.key = mix(w.entSalt + stream)
	w.run(p)
	return out, p, ids
}

func (w *World) twinKeys() {
	st := w.newStation("A", "AA")
	gs := []int{5, 4, 3, 6, 2, 8}[w.ch.N(6)]
	kl := w.ch.Range(10, 120)
	n := w.ch.Range(1, 8)
	base, p, ids := w.keyLetters(st, noFaults(), 1, n, gs, kl, nil)
	if !p.ok() {
		w.violate("P12", "refused", "generating %d keys: %s", n, p.err())
	}
	want := n * (gs + realLen(kl, gs))
	if len(base) < n*(gs+kl) || strings.Trim(base, upperAlpha) != "" || len(ids) != n {
		w.violate("P12", "letters", "%d keys of %d letters and groups of %d came out as %q", n, kl, gs, base)
	}
	_ = want
	total := p.ent.pos
	if float64(total) < 0.5875*float64(len(base)) {
		w.violate("P12", "volume", "%d letters were made from %d random bytes", len(base), total)
	}
	cmp := func(b string) (d []int) {
		for i := range base {
			if i >= len(b) || b[i] != base[i] {
				d = append(d, i)
			}
		}
		return
	}
	for round := w.ch.Range(1, 4); round > 0; round-- {
		pl := noFaults()
		switch w.ch.N(6) {
		case 5: // most bytes are so high that a draw may reject them
			pl.EntHigh = w.ch.Range(50, 85)
			b, q, _ := w.keyLetters(st, pl, 1, n, gs, kl, nil)
			w.stats["entropy_high"]++
			if !q.ok() {
				w.violate("P12", "refused", "generating keys from a source of mostly high bytes: %s", q.err())
			}
			if at, lag, l := repeated(b); l >= 20 {
				w.violate("P12", "repeated", "%d letters from %d on are those %d before, when %d of 100 random bytes are 255", l, at, lag, pl.EntHigh)
			}
		case 0: // the rest of the stream is another
			t := w.ch.N(total)
			pl.EntTail = t
			b, q, _ := w.keyLetters(st, pl, 1, n, gs, kl, nil)
			if !q.ok() {
				w.violate("P12", "refused", "generating keys: %s", q.err())
			}
			// At most 8 bytes are drawn per letter, so all letters drawn from
			// the part that differs are at least this many.
			exp := float64(total-t) / float64(total) * float64(len(base))
			d := len(cmp(b))
			w.stats["entropy_tail"]++
			if exp >= 40 && float64(d) < 0.6*exp {
				w.violate("P12", "tail", "of %d letters made from %d random bytes only %d changed when the bytes from %d on did", len(base), total, d, t)
			}
		case 1: // one byte differs
			t := w.ch.N(total)
			pl.EntFlip = t
			b, q, _ := w.keyLetters(st, pl, 1, n, gs, kl, nil)
			if !q.ok() {
				w.violate("P12", "refused", "generating keys: %s", q.err())
			}
			d := cmp(b)
			w.stats["entropy_flip"]++
			if len(d) >= 2 {
				// The letters may well be drawn in groups of some dozens from one
				// big number, and drawing one again moves those after it, up to
				// some point.
				tail := len(base) - d[0]
				end := d[len(d)-1]
				shift := len(d) <= 45
				for _, s := range []int{-1, 1} {
					// everything after moved by a letter
					same, cnt := 0, 0
					for i := d[0] + 1; i+1 < len(base) && i < end && i+s < len(b) && i+s >= 0; i++ {
						cnt++
						if b[i+s] == base[i] {
							same++
						}
					}
					if cnt == 0 || same*2 > cnt {
						shift = true
					}
				}
				if tail >= 20 && len(d)*10 < tail*3 && !shift {
					w.violate("P12", "shared", "changing random byte %d of %d changed %d letters (%v): they are not drawn independently", t, total, len(d), d)
				}
			}
		case 2: // the stream repeats itself
			r := []int{8 * gs, 8, total / n, 8 * (gs + realLen(kl, gs))}[w.ch.N(4)]
			pl.EntRepeat = r
			_, q, i2 := w.keyLetters(st, pl, 1, n, gs, kl, nil)
			w.stats["entropy_repeat"]++
			if !q.ok() {
				w.violate("P12", "refused", "generating keys from a repeating source: %s", q.err())
			}
			if len(uniq(i2)) != n {
				w.violate("P12", "duplicate", "identifiers %q were given out of a source that repeats itself after %d bytes", i2, r)
			}
			// and again with those keys already there
			had := i2
			_, q, i3 := w.keyLetters(st, pl, 1, 2, gs, kl, had)
			if !q.ok() {
				w.violate("P12", "refused", "generating keys from a repeating source: %s", q.err())
			}
			if len(uniq(append(append([]string{}, had...), i3...))) != n+2 {
				w.violate("P12", "duplicate", "identifiers %q were given although %q exist", i3, had)
			}
		case 3: // short reads change nothing
			pl.EntShort = true
			b, q, _ := w.keyLetters(st, pl, 1, n, gs, kl, nil)
			if !q.ok() || b != base {
				w.violate("P12", "short", "with short reads of the random source %d letters differ (%s)", len(cmp(b)), q.outcome())
			}
		default: // it fails
			w.keysFail(st)
		}
	}
}

// repeated finds the longest piece of s, of more than three different letters,
// that occurs twice.
func repeated(s string) (at, lag, l int) {
	for d := 2; d < len(s); d++ {
		run := 0
		for i := d; i <= len(s); i++ {
			if i < len(s) && s[i] == s[i-d] {
				run++
				continue
			}
			if run > l {
				seen := map[byte]bool{}
				for _, c := range []byte(s[i-run : i]) {
					seen[c] = true
				}
				if len(seen) > 3 {
					at, lag, l = i-run, d, run
				}
			}
			run = 0
		}
	}
	return
}

// keysFail has the random source fail while the command line makes keys.
func (w *World) keysFail(st *Station) {
	if st.cur == nil {
		w.exec(w.opInit(st), nil)
	}
	o := w.opGen(st)
	if o.kind != "generate" || st.cur == nil {
		return
	}
	pre := st.cur
	_, ent, _ := w.rehearse(o, nil)
	need := 0
	if i := indexOf(o.args, "-n"); i >= 0 {
		fmt.Sscan(o.args[i+1], &need)
	}
	need = need * (pre.GS + pre.KL)
	pl := noFaults()
	pl.EntFailAt = w.ch.N(ent + 1)
	pl.EntFailOnce = w.ch.P(1, 3)
	p := w.exec(o, pl)
	if p.ent.failed > 0 && float64(pl.EntFailAt) < 0.5875*float64(need) && !pl.EntFailOnce {
		if d := diff(pre, st.cur); d != "" {
			w.violate("P12", "stored", "keys were stored although the random source failed after %d bytes: %s", pl.EntFailAt, d)
		}
		if p.ok() {
			w.violate("P12", "reported", "success was reported although the random source failed after %d bytes", pl.EntFailAt)
		}
	}
}

func indexOf(l []string, x string) int {
	for i := range l {
		if l[i] == x {
			return i
		}
	}
	return -1
}

// bigKeys looks at the distribution of many letters.
func (w *World) bigKeys() {
	st := w.newStation("A", "AA")
	s, p, _ := w.keyLetters(st, noFaults(), uint64(w.ch.N(1<<30)), 100, 5, 1000, nil)
	if !p.ok() {
		w.violate("P12", "refused", "generating keys: %s", p.err())
	}
	w.stats["distribution"]++
	var c [26]float64
	for i := range s {
		c[s[i]-'A']++
	}
	x, e := 0.0, float64(len(s))/26
	for _, v := range c {
		x += (v - e) * (v - e) / e
	}
	// degrees of freedom 25 and 675: limits beyond one in 10^10
	if x > 110 {
		w.violate("P12", "distribution", "the letters of %d key letters are not spread evenly (chi-square %.0f)", len(s), x)
	}
	// Letters tell nothing about those near them, nor about those at the same
	// place of the next key.
	lags := []int{len(s) / 100}
	for l := 1; l <= 32; l++ {
		lags = append(lags, l)
	}
	for _, l := range lags {
		var pr [26 * 26]float64
		for i := l; i < len(s); i++ {
			pr[int(s[i-l]-'A')*26+int(s[i]-'A')]++
		}
		y, e := 0.0, float64(len(s)-l)/676
		for _, v := range pr {
			y += (v - e) * (v - e) / e
		}
		if y > 1000 {
			w.violate("P12", "distribution", "of %d key letters those %d apart go together (chi-square %.0f)", len(s), l, y)
		}
	}
}

// ---- P06: file keys and salts ----

func (w *World) keysAndSalts() {
	st := w.newStation("A", "AA")
	gen := func(kind int, plan *Plan, stream uint64) (string, *proc) {
		out := ""
		var p *proc
		switch kind {
		case 0:
			p = w.rawCli(st, plan, "pfk", "-g", "-r")
		case 1:
			p = w.rawCli(st, plan, "pfk", "-G")
		case 2:
			p = w.newProc(st, "GeneratePFK", plan, func() { out = krypto431.GeneratePFK() })
		default:
			p = w.newProc(st, "GenerateSalt", plan, func() { out = krypto431.GenerateSalt() })
		}
		if stream != 0 {
			p.ent.key = mix(w.entSalt + stream)
		}
		w.run(p)
		if kind < 2 {
			out = strings.TrimSpace(string(p.stdout))
		}
		return out, p
	}
	names := []string{"pfk -g -r", "pfk -G", "GeneratePFK", "GenerateSalt"}
	kind := w.ch.N(4)
	var or, and [32]byte
	for i := range and {
		and[i] = 0xff
	}
	var seen [][]byte
	n := 48
	for i := 0; i < n; i++ {
		plan := noFaults()
		plan.EntShort = i%3 == 2
		s, p := gen(kind, plan, 0)
		if !p.ok() {
			w.violate("P06", "refused", "%s: %s", names[kind], p.err())
		}
		b, err := hex.DecodeString(s)
		if err != nil || len(b) != 32 {
			w.violate("P06", "form", "%s gave %q", names[kind], s)
		}
		if p.ent.pos < 32 {
			w.violate("P06", "volume", "%s drew only %d random bytes", names[kind], p.ent.pos)
		}
		for _, o := range seen {
			same := 0
			for j := range o {
				if o[j] == b[j] {
					same++
				}
			}
			if same > 8 {
				w.violate("P06", "repeat", "%s gave %x and %x, which share %d bytes", names[kind], o, b, same)
			}
		}
		seen = append(seen, b)
		for j := range b {
			or[j] |= b[j]
			and[j] &= b[j]
		}
		w.stats["keys_and_salts"]++
	}
	for j := range or {
		if or[j] != 0xff || and[j] != 0 {
			w.violate("P06", "stuck", "byte %d of %s never had bits %08b set or %08b clear in %d", j, names[kind], ^or[j], and[j], n)
		}
	}
	a, p := gen(kind, noFaults(), 5)
	need := p.ent.pos
	diffBits := func(x, y string) int {
		bx, _ := hex.DecodeString(x)
		by, _ := hex.DecodeString(y)
		d := 0
		for i := range bx {
			d += bits.OnesCount8(bx[i] ^ by[min(i, len(by)-1)])
		}
		return d
	}
	for i := 0; i < 6; i++ {
		pl := noFaults()
		pl.EntTail = w.ch.N(24)
		b, _ := gen(kind, pl, 5)
		// at least 8 of 32 bytes now come from other randomness
		if diffBits(a, b) < 16 {
			w.violate("P06", "tail", "%s hardly changes (%d bits) when the random bytes from %d on do", names[kind], diffBits(a, b), pl.EntTail)
		}
		pl = noFaults()
		pl.EntFailAt = w.ch.N(32)
		s, p := gen(kind, pl, 5)
		out := s + string(p.stdout)
		if p.ok() || longHex(out) {
			w.violate("P06", "produced", "%s produced %q although the random source failed after %d bytes (%s)", names[kind], out, pl.EntFailAt, p.outcome())
		}
	}
	_ = need
}

func longHex(s string) bool {
	n := 0
	for _, r := range s {
		if r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' {
			n++
			if n >= 32 {
				return true
			}
		} else {
			n = 0
		}
	}
	return false
}

// ---- P13: transport between stations, with failures on both sides ----

func scenP13(w *World) {
	c := &histCfg{gen: 4, delKeys: 1, compose: 2, edit: 3, session: 2, export: 1, regroup: 1, n: [2]int{1, 3}, modes: []int{fmNone}}
	a := w.begin(c, "A", "AA")
	b := w.begin(c, "B", "B2")
	if w.ch.P(5, 6) && b.cur.GS != a.cur.GS {
		// mostly the same group size
		b.disk.Remove(b.path)
		b.cur, b.soft = nil, nil
		b.gs = a.cur.GS
		for b.cur == nil {
			w.exec(w.opInit(b), nil)
		}
	}
	fm := []int{fmNone, fmNone, fmFaults, fmCrash}
	for i := w.ch.Range(1, 4); i > 0; i-- {
		x, y := a, b
		if w.ch.P(1, 4) {
			x, y = b, a
		}
		w.history(x, c)
		if w.ch.P(1, 2) {
			w.history(y, c)
		}
		path := w.transport()
		o := w.opExport(x, path)
		w.exec(o, w.genPlan(o, fm[w.ch.N(len(fm))]))
		data, ok := x.disk.ReadFile(path)
		if !ok {
			continue
		}
		data = append([]byte(nil), data...)
		cut := w.ch.P(1, 8)
		if cut && len(data) > 0 {
			data = data[:w.ch.N(len(data))]
			w.stats["fault.courier_truncated"]++
		}
		for t := w.ch.Range(1, 2); t > 0; t-- {
			in := home + "/other.gob"
			y.disk.PutFile(in, data, 0600)
			y.disk.syncAll()
			o = w.opImport(y, in, x.pfk)
			w.exec(o, w.genPlan(o, fm[w.ch.N(len(fm))]))
		}
	}
}

// ---- P15: wiping ----

type capture struct {
	name  string
	r     []rune
	b     []byte
	origR []rune
	origB []byte
	gone  bool
}

func capR(name string, r []rune) *capture {
	return &capture{name: name, r: r, origR: append([]rune(nil), r...)}
}
func capB(name string, b []byte) *capture {
	return &capture{name: name, b: b, origB: append([]byte(nil), b...)}
}

// held says how much of the secret is still in its memory.
func (c *capture) held() (same, n int) {
	for i := range c.r {
		if c.r[i] == c.origR[i] {
			same++
		}
	}
	for i := range c.b {
		if c.b[i] == c.origB[i] {
			same++
		}
	}
	return same, len(c.r) + len(c.b)
}

func captures(k *krypto431.Krypto431, tag string) (keys, msgs map[string][]*capture, inst []*capture) {
	keys, msgs = map[string][]*capture{}, map[string][]*capture{}
	for i := range k.Keys {
		id := string(k.Keys[i].Id)
		keys[id] = append(keys[id], capR(tag+"letters of key "+id, k.Keys[i].Runes))
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		id := string(m.Id)
		msgs[id] = append(msgs[id], capR(tag+"text of message "+id, m.PlainText), capR(tag+"ciphertext of message "+id, m.CipherText),
			capR(tag+"radiogram of message "+id, m.Radiogram), capB(tag+"raw contents of message "+id, m.Binary))
	}
	if p := k.GetPFK(); p != nil {
		inst = append(inst, capB(tag+"file key", *p))
	}
	if p := k.GetSalt(); p != nil {
		inst = append(inst, capB(tag+"salt", *p))
	}
	return
}

func capIds(m map[string][]*capture) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return sorted(r)
}

func scenP15(w *World) {
	c := &histCfg{gen: 4, compose: 5, receive: 5, edit: 1, export: 1, n: [2]int{2, 6}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
	for i := w.ch.Range(1, 4); i > 0; i-- {
		w.wipeSession(st)
	}
}

func (w *World) wipeSession(st *Station) {
	other := home + "/wipe-import.gob"
	imp := w.ch.P(1, 2)
	if imp {
		// keys of another station, imported in the same session
		o := w.newStation("O", "OTH")
		o.gs = st.cur.GS
		w.exec(w.opInit(o), nil)
		if b, ok := o.disk.ReadFile(o.path); ok && o.cur != nil {
			st.disk.PutFile(other, b, 0600)
			st.disk.syncAll()
		} else {
			imp = false
		}
		o.pfk = w.hexKey("pfkO")
	}
	mode := w.ch.Weighted(3, 3, 2, 2, 1)
	x, y := w.ch.N(1<<16), w.ch.N(1<<16)
	act := w.ch.N(14)
	rxText := w.ch.P(1, 2)
	var targets, rest []*capture
	what := ""
	var snapPre, snapPost *Snap
	goneK, goneM := "", ""
	whole := false
	add := func(m map[string][]*capture, id string) {
		for _, k := range capIds(m) {
			l := m[k]
			if k == id {
				targets = append(targets, l...)
			} else {
				rest = append(rest, l...)
			}
		}
	}
	addAll := func(dst *[]*capture, m map[string][]*capture) {
		for _, k := range capIds(m) {
			*dst = append(*dst, m[k]...)
		}
	}
	p := w.libProc(st, noFaults(), "wipe", func(k *krypto431.Krypto431) error {
		p := w.cur
		if imp {
			if _, err := k.ImportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPersistence(other), krypto431.WithPFKString(w.hexKey("pfkO"))); err != nil {
				return err
			}
		}
		if rxText && len(k.Keys) > 0 {
			s := snapOf(k)
			id := s.Keys[y%len(s.Keys)].Id
			if ct, ok := refEncipher(s, []string{id}, "ABC"); ok && len(id) == s.GS {
				k.NewTextMessage(wrapRadiogram(nil, "P2P", "", group(id+ct, s.GS)+"="))
			}
		}
		ent := func() {
			switch mode {
			case 1:
				p.plan.EntFailAt = p.ent.pos
			case 2:
				p.plan.EntFailAt = p.ent.pos + x%600
			case 3:
				p.plan.EntShort = true
			case 4:
				p.plan.EntFailAt, p.plan.EntFailOnce = p.ent.pos+y%200, true
			}
		}
		kc, mc, ic := captures(k, "")
		snapPre = snapOf(k)
		kid, mid := "", ""
		if len(snapPre.Keys) > 0 {
			kid = string(k.Keys[x%len(k.Keys)].Id)
		}
		if len(snapPre.Msgs) > 0 {
			mid = string(k.Messages[x%len(k.Messages)].Id)
		}
		if kid == "" && act < 4 || mid == "" && act >= 4 && act < 8 {
			act = 8
		}
		var kp *krypto431.Key
		var mp *krypto431.Message
		for i := range k.Keys {
			if string(k.Keys[i].Id) == kid {
				kp = &k.Keys[i]
			}
		}
		for i := range k.Messages {
			if string(k.Messages[i].Id) == mid {
				mp = &k.Messages[i]
			}
		}
		switch act {
		case 0, 1, 2, 3:
			add(kc, kid)
			addAll(&rest, mc)
			rest = append(rest, ic...)
			goneK = kid
		case 4, 5, 6, 7:
			add(mc, mid)
			addAll(&rest, kc)
			rest = append(rest, ic...)
			goneM = mid
		}
		ent()
		switch act {
		case 0:
			what = "Wipe of key " + kid
			kp.Wipe()
		case 1:
			what = "RandomWipe of key " + kid
			kp.RandomWipe()
		case 2:
			what = "ZeroWipe of key " + kid
			kp.ZeroWipe()
		case 3:
			what = "DeleteKey of " + kid
			k.DeleteKey([]rune(kid))
		case 4:
			what = "Wipe of message " + mid
			mp.Wipe()
		case 5:
			what = "RandomWipe of message " + mid
			mp.RandomWipe()
		case 6:
			what = "ZeroWipe of message " + mid
			mp.ZeroWipe()
		case 7:
			what = "DeleteMessage of " + mid
			k.DeleteMessage([]rune(mid))
		case 8, 9:
			whole = true
			addAll(&targets, kc)
			addAll(&targets, mc)
			targets = append(targets, ic...)
			if act == 8 {
				what = "Wipe of the instance"
				k.Wipe()
			} else {
				what = "Close of the instance"
				k.Close()
			}
		case 10:
			what = "Wipe of an exported copy"
			e := k.ExportKeys(func(*krypto431.Key) bool { return true })
			ek, em, ei := captures(&e, "the copy's ")
			addAll(&targets, ek)
			addAll(&targets, em)
			targets = append(targets, ei...)
			addAll(&rest, kc)
			addAll(&rest, mc)
			rest = append(rest, ic...)
			e.Wipe()
		case 11:
			what = "Wipe of the source of an exported copy"
			e := k.ExportKeys(func(*krypto431.Key) bool { return true })
			es := snapOf(&e)
			ek, em, ei := captures(&e, "the copy's ")
			addAll(&rest, ek)
			addAll(&rest, em)
			rest = append(rest, ei...)
			addAll(&targets, kc)
			addAll(&targets, mc)
			targets = append(targets, ic...)
			whole = true
			k.Wipe()
			if d := diff(es, snapOf(&e)); d != "" {
				return errors.New("the exported copy changed: " + d)
			}
		case 12:
			what = "Wipe of letters and bytes"
			r := []rune("THESE ARE SOME SECRET LETTERS")
			b := []byte("and these are secret bytes, 32..")
			targets = append(targets, capR("runes", r), capB("bytes", b))
			switch x % 3 {
			case 0:
				krypto431.Wipe(&r)
				krypto431.WipeBytes(&b)
			case 1:
				krypto431.RandomWipe(&r)
				krypto431.RandomWipeBytes(&b)
			default:
				krypto431.ZeroWipe(&r)
				krypto431.ZeroWipeBytes(&b)
			}
			addAll(&rest, kc)
			addAll(&rest, mc)
			rest = append(rest, ic...)
		default:
			what = "changing an exported copy"
			e := k.ExportKeys(func(*krypto431.Key) bool { return true })
			for i := range e.Keys {
				for j := range e.Keys[i].Runes {
					e.Keys[i].Runes[j] = 'X'
				}
				for j := range e.Keys[i].Keepers {
					for z := range e.Keys[i].Keepers[j] {
						e.Keys[i].Keepers[j][z] = 'X'
					}
				}
				for j := range e.Keys[i].Id {
					e.Keys[i].Id[j] = 'X'
				}
				e.Keys[i].Used = true
			}
			addAll(&rest, kc)
			addAll(&rest, mc)
			rest = append(rest, ic...)
		}
		snapPost = snapOf(k)
		return nil
	})
	w.run(p)
	w.stats["wipe."+strings.Fields(what + " none")[0]]++
	w.note("%s, random source mode %d", what, mode)
	how := fmt.Sprintf("%s (random source %s)", what, []string{"working", "failing", "failing part-way", "short", "failing once"}[mode])
	if !p.ok() {
		if strings.Contains(string(p.stderr), "the exported copy changed") {
			w.violate("P15,P13", "damaged", "%s: %s", how, p.err())
		}
		w.violate("P15", "failed", "%s: %s", how, p.err())
	}
	for _, c := range targets {
		w.stats["secrets_inspected"]++
		same, n := c.held()
		lim := 3 + n/4
		if len(c.b) > 0 {
			lim = 4 + n/16
		}
		if n > 3 && same > lim || n > 0 && n <= 3 && same == n && p.ent.failed > 0 {
			w.violate("P15", "held", "after %s the memory of the %s still holds %d of %d", how, c.name, same, n)
		}
	}
	for _, c := range rest {
		if same, n := c.held(); same != n {
			w.violate("P15,P13", "damaged", "%s damaged the %s (%d of %d left)", how, c.name, same, n)
		}
	}
	if whole || snapPost == nil {
		if whole && snapPost != nil && len(snapPost.Keys)+len(snapPost.Msgs) > 0 {
			w.violate("P15", "left", "after %s %d keys and %d messages are left", how, len(snapPost.Keys), len(snapPost.Msgs))
		}
		return
	}
	want := snapPre.clone()
	if goneK != "" {
		want, _ = delKeys(want, []string{goneK}, st)
	}
	if goneM != "" {
		want, _ = delMsgs(want, []string{goneM})
	}
	have := snapPost.clone()
	// a wiped item may stay as an empty one
	var hk []KeySnap
	for _, k := range have.Keys {
		if goneK != "" && want.key(k.Id) == nil {
			continue
		}
		hk = append(hk, k)
	}
	have.Keys = hk
	var hm []MsgSnap
	for _, m := range have.Msgs {
		if goneM != "" && m.Id == goneM {
			continue
		}
		hm = append(hm, m)
	}
	have.Msgs = hm
	if d := diff(want, have); d != "" {
		w.violate("P15,P14", "damaged", "%s changed other items: %s", how, d)
	}
}

// ---- P16: expiry and the clock ----

func (w *World) setClock(ns int64) {
	ns -= 50000 // run lets that much pass first
	w.sec, w.nsec = ns/1e9, ns%1e9
}

func scenP16(w *World) {
	c := &histCfg{gen: 5, edit: 2, export: 2, reopen: 1, compose: 2, session: 1, n: [2]int{1, 3}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	for round := w.ch.Range(2, 6); round > 0; round-- {
		w.frozen = false
		w.history(st, c)
		if len(st.cur.Keys) == 0 {
			w.exec(w.opGen(st), nil)
			if len(st.cur.Keys) == 0 {
				continue
			}
		}
		for i := w.ch.Range(1, 4); i > 0; i-- {
			k := st.cur.Keys[w.ch.N(len(st.cur.Keys))]
			off := []int64{1, -1, 1e6, -1e6, 1e9, -1e9, 60e9, -60e9, 3600e9, -3600e9, 86399e9, -86401e9}[w.ch.N(12)]
			if w.ch.P(1, 8) {
				off = int64(w.ch.Range(-4000, 4000)) * 3600e9
				if off == 0 {
					off = 7
				}
			}
			days := []int{0, 1, 30, 365, 2, 7, 400}[w.ch.N(7)]
			d := int64(0)
			if w.ch.P(1, 2) {
				d = int64(days) * 86400e9
			}
			t := k.Expires - d + off
			if t < 1600000000e9 {
				continue
			}
			st.zone = zones[w.ch.N(len(zones))]
			w.setClock(t)
			w.frozen = true
			w.stats["clock_set"]++
			w.logf("clock set to %d ns from the expiry of %s less %d days", off, k.Id, d/86400e9)
			w.expiryAt(st, t, days)
			w.frozen = false
		}
	}
}

// expiryAt compares every way of asking for expiry with stored instants.
func (w *World) expiryAt(st *Station, t int64, days int) {
	switch w.ch.N(4) {
	case 0, 1:
		bad := ""
		dur := time.Duration(days) * 24 * time.Hour
		extra := time.Duration(w.ch.N(100000)) * time.Second
		p := w.libProc(st, nil, "expiry", func(k *krypto431.Krypto431) error {
			for i := range k.Keys {
				e := k.Keys[i].Expires.UnixNano()
				id := string(k.Keys[i].Id)
				ask := func(name string, got bool, at int64, before bool) {
					if at == e {
						return // the instant itself is left open
					}
					want := at > e
					if before {
						want = at < e
					}
					if got != want && bad == "" {
						bad = fmt.Sprintf("%s of key %s which expires %d ns after the clock is %v", name, id, e-t, got)
					}
				}
				ask("IsExpired", k.Keys[i].IsExpired(), t, false)
				ask(fmt.Sprintf("IsValid(%v)", dur), k.Keys[i].IsValid(dur), t+int64(dur), true)
				ask(fmt.Sprintf("IsValid(%v)", extra), k.Keys[i].IsValid(extra), t+int64(extra), true)
				ask("IsValidOneDay", k.Keys[i].IsValidOneDay(), t+86400e9, true)
				ask("IsValidOneMonth", k.Keys[i].IsValidOneMonth(), t+30*86400e9, true)
				ask("IsValidOneYear", k.Keys[i].IsValidOneYear(), t+365*86400e9, true)
				w.stats["expiry_questions"] += 6
			}
			return nil
		})
		w.run(p)
		if !p.ok() {
			w.violate("P16", "failed", "asking for expiry: %s", p.err())
		}
		if bad != "" {
			w.violate("P16", "expiry", "%s (zone %s)", bad, st.zone)
		}
	default:
		flt := [][]string{{"--expired"}, {"--invalid"}, {"--valid", fmt.Sprint(days)}, {"--valid", fmt.Sprint(days), "--unused"}}[w.ch.N(4)]
		for _, k := range st.cur.Keys {
			if k.Expires == t || k.Expires == t+int64(days)*86400e9 {
				return
			}
		}
		kf := keyFilter{args: flt}
		kf.f = func(k *KeySnap, now int64) bool {
			switch {
			case flt[0] == "--expired":
				return now > k.Expires
			case flt[0] == "--invalid":
				return k.Comp || now > k.Expires
			case len(flt) == 3:
				return !k.Comp && now+int64(days)*86400e9 < k.Expires && !k.Used
			}
			return !k.Comp && now+int64(days)*86400e9 < k.Expires
		}
		o := w.opListWith(st, kf)
		o.mustTag = "P16,P22"
		d := o.done
		o.done = func(p *proc, pre, post *Snap) (string, string) {
			tag, m := d(p, pre, post)
			return addTag("P16", tag), m
		}
		w.exec(o, nil)
	}
}

// ---- P17: how a radiogram arrives ----

type readStep struct {
	n   int // bytes
	err error
}

// script is a reader that hands out data in given pieces.
type script struct {
	data  []byte
	steps []readStep
	calls int
}

var errRead = errors.New("simulated read error")

func (s *script) Read(b []byte) (int, error) {
	s.calls++
	if len(s.steps) == 0 {
		if len(s.data) == 0 {
			return 0, io.EOF
		}
		n := copy(b, s.data)
		s.data = s.data[n:]
		return n, nil
	}
	st := s.steps[0]
	n := min(st.n, len(s.data), len(b))
	copy(b, s.data[:n])
	s.data = s.data[n:]
	if st.n > n && n > 0 && len(s.data) > 0 {
		// The rest of this part does not fit the buffer.
		s.steps[0].n -= n
		return n, nil
	}
	s.steps = s.steps[1:]
	return n, st.err
}

var lineBreaks = []string{"\n", "\r\n", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029"}

func scenP17(w *World) {
	c := &histCfg{gen: 5, compose: 2, receive: 2, edit: 1, n: [2]int{1, 4}, modes: []int{fmNone}}
	st := w.begin(c, "A", "AA")
	w.history(st, c)
	for i := w.ch.Range(2, 6); i > 0; i-- {
		w.arrive(st)
	}
}

func (w *World) arrive(st *Station) {
	// The radiogram, and how it reads with blanks for line breaks.
	out := w.ch.P(1, 2)
	var to []string
	from := "OTH"
	text := w.genText(90)
	if out {
		to = w.pickTo(st)
		from = st.cur.Call
	} else if w.ch.P(1, 2) {
		text = strings.TrimSpace(w.makeTraffic(st.cur, w.ch.P(1, 3)))
	}
	if !out && w.ch.P(1, 12) {
		// More than fits any buffer.
		text = strings.Repeat(text+" ", 1+w.ch.Range(3000, 150000)/(len(text)+1))
		text = strings.TrimSpace(text)
	}
	d, _ := w.genDTG(20)
	rg := w.radiogram(to, from, d, text)
	bad := w.ch.P(1, 10)
	if bad {
		rg = w.ch.Pick("no radiogram here", "", "AA TO BB = X", "\n\n", "DE", "AA DE "+from+" 99ZZ99ZZZ99 =")
	}
	var raw strings.Builder
	br := w.ch.N(3)
	lb := lineBreaks[w.ch.N(len(lineBreaks))]
	for _, r := range rg {
		if r == ' ' && (br == 1 && w.ch.P(1, 5) || br == 2) {
			raw.WriteString(lb)
		} else {
			raw.WriteRune(r)
		}
	}
	if w.ch.P(1, 3) {
		raw.WriteString(lb)
		rg += " "
	}
	data := []byte(raw.String())
	// How it is cut.
	var steps []readStep
	left := len(data)
	style := w.ch.N(4)
	h := uint64(w.ch.N(1 << 16))
	m := 1 + w.ch.N(64)
	for left > 0 && style > 0 {
		h = mix(h + 0x9e3779b97f4a7c15)
		n := 1
		if style > 1 {
			n = 1 + int(h%uint64(m))
		}
		n = min(n, left)
		left -= n
		s := readStep{n: n}
		if h>>20%6 == 0 {
			steps = append(steps, readStep{n: 0})
		}
		if left == 0 && h>>30%2 == 0 {
			s.err = io.EOF
		}
		steps = append(steps, s)
	}
	fails := w.ch.P(1, 3)
	failAt := 0
	if fails {
		if len(steps) == 0 {
			steps = []readStep{{n: w.ch.N(len(data) + 1)}}
		}
		i := w.ch.N(len(steps) + 1)
		failAt = i
		if i < len(steps) && w.ch.P(1, 2) {
			steps = steps[:i+1]
			steps[i].err = errRead // data and error together
		} else {
			steps = append(steps[:i:i], readStep{err: errRead})
		}
		if w.ch.P(1, 4) {
			steps[len(steps)-1].err = io.ErrUnexpectedEOF
		}
		for i := range steps {
			if steps[i].err == io.EOF {
				steps[i].err = nil // it would end before it fails
			}
		}
	}
	// What the same text gives when it comes in one piece with blanks.
	base := *st
	base.disk = st.disk.Clone()
	var want *MsgSnap
	wantErr := ""
	find := func(pre, post *Snap) *MsgSnap {
		for i := range post.Msgs {
			if pre.msg(post.Msgs[i].Id) == nil {
				return &post.Msgs[i]
			}
		}
		return nil
	}
	q := w.libProc(&base, nil, "in one piece", func(k *krypto431.Krypto431) error {
		pre := snapOf(k)
		if _, err := k.NewTextMessage(rg); err != nil {
			wantErr = err.Error()
			return nil
		}
		want = find(pre, snapOf(k))
		return nil
	})
	w.run(q)
	if !q.ok() || want == nil && wantErr == "" {
		w.violate("P17,P08", "whole", "radiogram %q in one piece: %s", rg, q.err())
	}
	w.stats["radiograms"]++
	w.note("radiogram of %d bytes in %d reads, failing %v at %d", len(data), len(steps), fails, failAt)
	cli := w.ch.P(1, 2)
	o := &op{kind: "take down", st: st, mutates: true, mustTag: "P17"}
	o.mustNot = fails || wantErr != ""
	o.must = !o.mustNot
	var mid string
	if cli {
		o.args = []string{"messages", "-n"}
		pos := 0
		if len(steps) == 0 {
			o.stdin = append(o.stdin, inPart{data: data})
		} else {
			for _, s := range steps {
				n := min(s.n, len(data)-pos)
				if n > 0 {
					o.stdin = append(o.stdin, inPart{data: data[pos : pos+n]})
					pos += n
				} else if s.err == nil {
					o.stdin = append(o.stdin, inPart{err: 4, times: 1}) // interrupted
				}
				if s.err != nil && s.err != io.EOF {
					o.stdin = append(o.stdin, inPart{err: 5, times: 1 << 20})
				}
			}
			if !fails && pos < len(data) {
				o.stdin = append(o.stdin, inPart{data: data[pos:]})
			}
		}
	} else {
		o.lib = func(k *krypto431.Krypto431) error {
			s := &script{data: append([]byte(nil), data...), steps: append([]readStep(nil), steps...)}
			pre := snapOf(k)
			_, err := k.NewTextMessageFromReader(s)
			if err != nil {
				mid = diff(pre, snapOf(k))
				return err
			}
			return k.Save()
		}
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		m := find(pre, post)
		if m == nil {
			return "P17", "no message was stored"
		}
		if want == nil {
			return "P17", "stored although the radiogram was refused in one piece: " + wantErr
		}
		if m.Plain != want.Plain || m.From != want.From || !eqSeq(m.To, want.To) || !bad && m.DTG != want.DTG || m.Radio != want.Radio {
			a, b, at := m.canon()[len(m.Id):], want.canon()[len(want.Id):], 0
			for at < len(a) && at < len(b) && a[at] == b[at] {
				at++
			}
			return "P17", fmt.Sprintf("%s (%d letters) in %d reads became %s; in one piece %s (differs from %d: %q, %q)", cut(fmt.Sprintf("%q", raw.String()), 300), raw.Len(), len(steps), cut(a, 300), cut(b, 300), at, cut(a[at:], 100), cut(b[at:], 100))
		}
		if bad {
			return "", ""
		}
		if out {
			return w.judgeOutgoing(p, pre, post, want.To, want.Plain, rg, nil2(m.DTG), "")
		}
		return w.judgeIncoming(p, pre, post, want.To, from, text, "")
	}
	o.after = func(p *proc, pre, post *Snap) {
		if mid != "" {
			w.violate("P17,P08", "changed", "a message that could not be read changed the instance: %s", mid)
		}
		if out && post != nil && post != pre {
			if m := find(pre, post); m != nil && m.Cipher != "" {
				st.pend = append(st.pend, pending{pre, m.Id, m.KeyId, m.Cipher})
			}
		}
	}
	w.exec(o, nil)
}

func nil2(x int64) *int64 { return &x }

var _ = math.Abs

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
