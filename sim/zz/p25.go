//go:build go1.23

package zzverifsim

import (
	"crypto/pbkdf2"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"
	"syscall"

	"github.com/sa6mwa/krypto431"
	passwordvalidator "github.com/wagslane/go-password-validator"
)

// ---- P25: a password or key opens the same store however it is given ----

// The key of a password is PBKDF2-HMAC-SHA256 of it under the salt; this is the
// reference, independent of the library's own derivation.
const (
	refRounds = 310000
	refSalt   = "d14461856f830fc5a1f9ba1b845fae5f61c54767ded39cf943174e6869b44476"
)

var refKeys = map[string]string{}

func refKey(c credential) string {
	if c.hex != "" {
		return strings.ToLower(c.hex)
	}
	s := strings.ToLower(c.salt)
	if s == "" {
		s = refSalt
	}
	id := s + "/" + c.pass
	if k, ok := refKeys[id]; ok {
		return k
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	k, err := pbkdf2.Key(sha256.New, c.pass, b, refRounds, 32)
	if err != nil {
		panic(err)
	}
	refKeys[id] = hex.EncodeToString(k)
	return refKeys[id]
}

// Strong ones of many kinds.
var phrases = []string{
	"correct horse battery staple 77",
	" Räksmörgås på Öland, 7 gånger! ",
	"Ra\u0308ksmo\u0308rga\u030asen i Gö\u0308teborg 1947",
	`comma,separated;"quoted" $HOME 'x' \n %s 42=y#z`,
	"Twas brillig, and the slithy toves did gyre and gimble in the wabe; all mimsy were the borogoves, and the mome raths 0utgrabe",
	"abcdef0123456789ABCDEF98765432100123456789abcdeffedcba9876543210",
	"\tTabbed  and  double  spaced  Phrase 9\t",
	"密码短语很长而且很复杂 とても長いパスワード 42",
}
var weakPhrases = []string{"password", "abc", "hemligt1", "", "1234567890"}
var manySalts = []string{
	"",
	refSalt,
	"a3f1c2d4e5b60718293a4b5c6d7e8f90112233445566778899aabbccddeeff00",
	"A3F1C2D4E5B60718293A4B5C6D7E8F90112233445566778899AABBCCDDEEFF01",
	"00000000000000000000000000000000000000000000000000000000000000000000000000000000",
}

// wrongPass is another password that looks like the right one.
func (w *World) wrongPass(p string) string {
	l := []string{p + " ", p + "x", strings.ToUpper(p), strings.ToLower(p), strings.TrimSpace(p), p[:len(p)-1], "x" + p, " " + p,
		strings.ReplaceAll(p, "  ", " "), strings.Map(func(r rune) rune {
			if r >= 0x300 && r < 0x370 || r > 0x2000 {
				return -1
			}
			return r
		}, p), ""}
	for _, n := range []int{8, 16, 32, 56, 64, 72} {
		if len(p) > n {
			l = append(l, p[:n])
		}
	}
	for i := w.ch.N(len(l)); ; i++ {
		if q := l[i%len(l)]; q != p {
			return q
		}
	}
}

func (w *World) phrase() credential {
	return credential{pass: phrases[w.ch.N(len(phrases))], salt: manySalts[w.ch.N(len(manySalts))]}
}

// giving is one way to tell the program a credential.
type giving struct {
	args, env []string
	asks      []answer
	how       string
}

const (
	promptDec = "decryption key: "
	promptEnc = "Enter encryption key: "
	promptNew = "new encryption key: "
	promptRep = "(repeat) "
)

// salted tells the salt by an option or by the environment.
func (w *World) salted(g *giving, salt string) {
	if salt == "" {
		return
	}
	if w.ch.P(1, 3) {
		salt = strings.ToUpper(salt)
	}
	if w.ch.P(1, 3) {
		g.env = append(g.env, "KRYPTO_SALT="+salt)
		g.how += ", salt by the environment"
	} else {
		g.args = append(g.args, w.ch.Pick("-S", "--salt"), salt)
		g.how += ", salt by option"
	}
}

// give draws a way to tell cr; the password is typed only if typing is not
// empty, which is the question it answers.
func (w *World) give(cr credential, typing string) giving {
	var g giving
	kind := w.ch.Weighted(3, 2, 4, 2, 2)
	if typing == "" && kind == 2 || cr.pass == "" && cr.hex == "" && kind < 2 {
		kind = 3
	}
	if cr.hex != "" {
		kind = 3
	}
	switch kind {
	case 0:
		g.args, g.how = []string{w.ch.Pick("-P", "--password"), cr.pass}, "password by option"
		w.salted(&g, cr.salt)
	case 1:
		g.env, g.how = []string{"KRYPTO_PASSWORD=" + cr.pass}, "password by the environment"
		w.salted(&g, cr.salt)
	case 2:
		g.how = "password typed"
		g.asks = []answer{{typing, append(w.typo(cr.pass), keyEnter), -1}}
		if typing != promptDec {
			g.asks = w.newPass(cr.pass, typing)
		}
		w.salted(&g, cr.salt)
	default:
		h := refKey(cr)
		if w.ch.P(1, 3) {
			h = strings.ToUpper(h)
		}
		g.how = "key by option"
		g.args = []string{w.ch.Pick("-K", "--pfk"), h}
		if w.ch.P(1, 3) {
			g.args, g.env, g.how = nil, []string{"KRYPTO_PFK=" + h}, "key by the environment"
		}
		if w.ch.P(1, 4) {
			w.salted(&g, manySalts[2]) // of no consequence
		}
	}
	w.stats["given."+strings.ReplaceAll(strings.SplitN(g.how, ",", 2)[0], " ", "_")]++
	return g
}

// newPass answers the two questions for a new password, now and then with a
// weak one or with two different ones first.
func (w *World) newPass(pass, prompt string) (as []answer) {
	if w.ch.P(1, 4) {
		as = append(as, answer{prompt, enter(weakPhrases[w.ch.N(len(weakPhrases))]), 1})
		w.stats["weak_typed"]++
	}
	if w.ch.P(1, 4) {
		as = append(as, answer{prompt, enter(pass), 1}, answer{promptRep, enter(w.wrongPass(pass)), 1})
		w.stats["mismatch_typed"]++
	}
	return append(as, answer{promptRep, append(w.typo(pass), keyEnter), -1}, answer{prompt, append(w.typo(pass), keyEnter), -1})
}

// cli25 runs the program with a credential given, at a terminal if it is typed
// (or now and then anyway).
func (w *World) cli25(st *Station, plan *Plan, g giving, args ...string) *proc {
	p := w.rawCli(st, plan, append(append([]string{}, g.args...), args...)...)
	p.env = g.env
	if g.asks != nil || w.ch.P(1, 6) {
		p.tty = newTTY(answering(g.asks))
		p.tty.fast = w.ch.P(1, 3)
		if g.asks != nil && plan != nil && len(plan.Faults) > 0 && w.ch.P(1, 3) {
			p.tty.intrAt = w.ch.N(3)
		}
	}
	w.shape = fold(w.shape, g.how+strings.Join(args, " "))
	w.run(p)
	st.disk.heal()
	w.stats["op.credential command"]++
	if p.hung != "" {
		w.violate("P25", "hang", "%v (%s) never ends: %s", args, g.how, p.hung)
	}
	if p.panicked != "" && !p.fatal && p.ent.failed == 0 {
		w.violate("P25", "panic", "%v (%s): %s", args, g.how, p.err())
	}
	if p.tty != nil {
		t := p.tty
		if p.crashed == nil && t.mode.Lflag&syscall.ECHO == 0 {
			w.violate("P25,P24", "echo", "%v (%s) left the terminal without echo", args, g.how)
		}
		for _, a := range g.asks {
			s := strings.Join(a.keys, "")
			if s = strings.TrimSuffix(s, keyEnter); len(s) > 20 && (strings.Contains(string(t.screen), s) || strings.Contains(string(t.echoed), s)) {
				w.violate("P25,P24,P05", "echoed", "%v (%s): the password appeared on the screen", args, g.how)
			}
		}
	}
	return p
}

// same compares the store at path, opened with the reference key of cr, with
// want; n more keys than in want are expected.
func (w *World) opens(d *Disk, path string, cr credential, want *Snap, n int, how string) *Snap {
	s, m := w.observe(d, path, refKey(cr))
	if s == nil {
		w.violate("P25", "locked_out", "%s: the store does not open with %v: %s", how, cr, m)
	}
	if want != nil {
		x := *s
		if len(x.Keys) != len(want.Keys)+n {
			w.violate("P25", "contents", "%s: %d keys where %d were expected", how, len(x.Keys), len(want.Keys)+n)
		}
		x.Keys = x.Keys[:len(want.Keys)]
		if df := diff(want, &x); df != "" {
			w.violate("P25", "contents", "%s: the store opened with %v differs: %s", how, cr, df)
		}
	}
	return s
}

func scenP25(w *World) {
	c := &histCfg{gen: 3, compose: 2, edit: 1, n: [2]int{1, 4}, modes: []int{fmNone}, small: true}
	st := w.begin(c, "A", "AA")
	for i := w.ch.N(3); i > 0; i-- {
		w.exec(w.pickOp(st, c), nil)
	}
	if st.cur == nil {
		return
	}
	cr := w.phrase()
	path := home + "/" + w.ch.Pick("p.gob", ".hidden", "sub.d")
	d := st.disk
	// A store is made with the credential.
	var want *Snap
	how := ""
	switch w.ch.Weighted(4, 4, 3, 2) {
	case 0: // init
		n := w.ch.Range(0, 3)
		g := w.give(cr, promptEnc)
		args := []string{"-f", path, "init", "-c", st.call, "-n", fmt.Sprint(n), "-l", fmt.Sprint(st.kl), "-g", "5"}
		how = "init, " + g.how
		p := w.cli25(st, nil, g, args...)
		if !p.ok() {
			w.violate("P25", "refused", "%s failed: %s", how, p.err())
		}
		want = w.opens(d, path, cr, nil, 0, how)
		if want.Call != st.call || len(want.Keys) != n {
			w.violate("P25", "contents", "%s: call-sign %q and %d keys", how, want.Call, len(want.Keys))
		}
	case 1: // pfk -c
		old := credential{hex: st.pfk}
		if w.ch.P(1, 3) {
			old = w.phrase()
		}
		if !w.writeStore(st, path, refKey(old), st.cur) {
			return
		}
		want, _ = w.observe(d, path, refKey(old))
		if want == nil {
			return
		}
		w.change25(st, path, old, cr, want)
		how = "pfk -c"
	case 2: // pfk -g and the key it prints
		h := w.genPFK(st, cr)
		if h == "" {
			return
		}
		if !w.writeStore(st, path, h, st.cur) {
			return
		}
		how = "pfk -g and its key"
		want = w.opens(d, path, cr, nil, 0, how)
	default: // the library
		how = w.lib25(st, path, cr)
		want = w.opens(d, path, cr, st.cur, 0, how)
	}
	// It is used, in other ways and by others who do not have it.
	for i := w.ch.Range(1, 4); i > 0; i-- {
		switch w.ch.Weighted(5, 5, 2, 1, 2, 1) {
		case 0:
			want = w.right25(st, path, cr, want, how)
		case 1:
			w.wrong25(st, path, cr, want)
		case 2:
			next := w.phrase()
			if w.ch.P(1, 3) {
				next.salt = cr.salt
			}
			w.change25(st, path, cr, next, want)
			cr = next
			how = "pfk -c"
		case 3:
			w.genPFK(st, w.phrase())
		case 4:
			w.malformed25(st, path, cr, want)
		default:
			w.weak25(st)
		}
	}
	w.opens(d, path, cr, want, 0, "in the end")
}

// right25 uses the store with the right credential.
func (w *World) right25(st *Station, path string, cr credential, want *Snap, made string) *Snap {
	d := st.disk
	if cr.hex == "" && w.ch.P(1, 5) {
		// Through the library.
		got := ""
		var n int
		how := ""
		p := w.newProc(st, st.name+": lib open", nil, func() {
			var k krypto431.Krypto431
			var err error
			k, how, err = w.instance25(path, cr)
			if err == nil {
				err = k.Load()
			}
			if err != nil {
				got = err.Error()
				return
			}
			n = len(k.Keys)
		})
		w.run(p)
		if !p.ok() || got != "" || n != len(want.Keys) {
			w.violate("P25", "refused", "a store made by %s was not opened by the library (%s) with %v: %s %s", made, how, cr, got, p.outcome())
		}
		return want
	}
	g := w.give(cr, promptDec)
	first := []string{"-f", path}
	if w.ch.P(1, 4) {
		first = nil
		g.env = append(g.env, "KRYPTO_FILE="+path)
	}
	n := 0
	out := home + "/out.gob"
	var args []string
	kind := w.ch.Weighted(4, 2, 1, 2)
	switch kind {
	case 0:
		n = w.ch.Range(1, 3)
		args = []string{"keys", "-n", fmt.Sprint(n)}
	case 1:
		args = []string{"keys", "-l"}
	case 2:
		args = []string{"messages", "-l"}
	default:
		d.Remove(out)
		args = []string{"keys", "-E", out, "-y"}
	}
	var plan *Plan
	if w.ch.P(1, 5) {
		plan = noFaults()
		if w.ch.P(1, 2) {
			plan.Faults = append(plan.Faults, Fault{At: w.ch.N(30), Kind: []int{fCrash, fCrashA, fTorn}[w.ch.N(3)], Arg: w.ch.N(4096), Power: w.ch.P(1, 3)})
		} else {
			plan.Faults = append(plan.Faults, w.genFault(30))
		}
	}
	p := w.cli25(st, plan, g, append(first, args...)...)
	how := fmt.Sprintf("a store made by %s, then %v with %v (%s; %s)", made, args, cr, g.how, p.outcome())
	if p.ok() {
		if kind == 3 {
			if d.resolve(out) != nil {
				w.opens(d, out, cr, nil, 0, how+", the exported file")
			}
			return w.opens(d, path, cr, want, 0, how)
		}
		return w.opens(d, path, cr, want, n, how)
	}
	if p.faulted == 0 && p.crashed == nil {
		if kind == 3 && len(want.Keys) == 0 {
			return want
		}
		w.violate("P25", "refused", "%s was refused: %s", how, p.err())
	}
	// Something went wrong: the store is as before or as after, with the
	// same key.
	s, m := w.observe(d, path, refKey(cr))
	if s == nil {
		w.violate("P25", "locked_out", "%s: the store does not open: %s", how, m)
	}
	if len(s.Keys) == len(want.Keys) {
		n = 0
	}
	return w.opens(d, path, cr, want, n, how)
}

// instance25 makes a library instance with the credential, in one of the ways
// there are.
func (w *World) instance25(path string, cr credential) (k krypto431.Krypto431, how string, err error) {
	opts := []krypto431.Option{krypto431.WithPersistence(path)}
	salt, _ := hex.DecodeString(cr.salt)
	later := false
	if cr.salt != "" {
		switch w.ch.N(3) {
		case 0:
			opts = append(opts, krypto431.WithSaltString(cr.salt))
			how = "WithSaltString, "
		case 1:
			opts = append(opts, krypto431.WithSalt(&salt))
			how = "WithSalt, "
		default:
			later = true
			how = "SetSaltFromString, "
		}
	}
	kind := w.ch.N(5)
	key, _ := hex.DecodeString(refKey(cr))
	switch kind {
	case 3:
		opts = append(opts, krypto431.WithPFK(&key))
		how += "WithPFK"
	case 4:
		opts = append(opts, krypto431.WithPFKString(refKey(cr)))
		how += "WithPFKString"
	}
	k = krypto431.New(opts...)
	if later {
		if err = k.SetSaltFromString(cr.salt); err != nil {
			return
		}
	}
	b := []byte(cr.pass)
	switch kind {
	case 0:
		how += "DerivePFKFromPassword"
		err = k.DerivePFKFromPassword(&b)
	case 1:
		how += "DerivePFKFromPasswordWithValidation"
		err = k.DerivePFKFromPasswordWithValidation(&b)
	case 2:
		how += "SetPFKFromPassword"
		err = k.SetPFKFromPassword(cr.pass)
	}
	return
}

// lib25 writes the station's contents with the library.
func (w *World) lib25(st *Station, path string, cr credential) string {
	how := ""
	fail := ""
	p := w.newProc(st, st.name+": lib save", nil, func() {
		src := libInstance(st.path, st.pfk)
		if err := src.Load(); err != nil {
			fail = err.Error()
			return
		}
		k, h, err := w.instance25(path, cr)
		how = "the library (" + h + ")"
		if err == nil {
			k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = src.GroupSize, src.KeyLength, src.Columns, src.KeyColumns
			k.Keys, k.Messages, k.CallSign = src.Keys, src.Messages, src.CallSign
			err = k.Save()
		}
		if err != nil {
			fail = err.Error()
		}
	})
	w.run(p)
	if !p.ok() || fail != "" {
		w.violate("P25", "refused", "saving by %s with %v failed: %s %s", how, cr, fail, p.outcome())
	}
	return how
}

// change25 changes the credential of the store; it succeeds.
func (w *World) change25(st *Station, path string, old, next credential, want *Snap) {
	g := w.give(old, promptDec)
	args := []string{"pfk", w.ch.Pick("-c", "-p", "--change"), path}
	if w.ch.P(1, 4) && old.pass != "" {
		// the old password by the command's own option
		g = giving{how: "old password by option"}
		w.salted(&g, old.salt)
		if w.ch.P(1, 3) {
			g.env = append(g.env, "KRYPTO_OLD_PASSWORD="+old.pass)
		} else {
			args = append(args, w.ch.Pick("-P", "--old"), old.pass)
		}
	}
	// The salt stays what was given unless a new one is.
	given := ""
	for i, a := range g.args {
		if a == "-S" || a == "--salt" {
			given = g.args[i+1]
		}
	}
	for _, e := range g.env {
		if s, ok := strings.CutPrefix(e, "KRYPTO_SALT="); ok {
			given = s
		}
	}
	same := strings.EqualFold(given, next.salt) || given == "" && next.salt == refSalt || next.salt == "" && strings.EqualFold(given, refSalt)
	if !same || w.ch.P(1, 2) {
		s := next.salt
		if s == "" {
			s = w.ch.Pick("default", refSalt)
		}
		args = append(args, w.ch.Pick("-s", "--new-salt"), s)
	}
	how := "the new one by option"
	switch w.ch.Weighted(2, 1, 3) {
	case 0:
		args = append(args, w.ch.Pick("-N", "--new"), next.pass, "-y")
	case 1:
		g.env = append(g.env, "KRYPTO_NEW_PASSWORD="+next.pass)
		args = append(args, "-y")
		how = "the new one by the environment"
	default:
		g.asks = append(append([]answer{}, g.asks...), w.newPass(next.pass, promptNew)...)
		how = "the new one typed"
	}
	p := w.cli25(st, nil, g, args...)
	how = fmt.Sprintf("changing %v (%s) to %v (%s)", old, g.how, next, how)
	if !p.ok() {
		w.violate("P25,P20", "refused", "%s failed: %s", how, p.err())
	}
	w.opens(st.disk, path, next, want, 0, how)
	if refKey(old) != refKey(next) {
		if s, _ := w.observe(st.disk, path, refKey(old)); s != nil {
			w.violate("P25,P20", "still_old", "%s: the old one still opens the store", how)
		}
	}
}

// genPFK asks for the key of a password.
func (w *World) genPFK(st *Station, cr credential) string {
	var g giving
	args := []string{"pfk", w.ch.Pick("-g", "--gen-pfk")}
	switch w.ch.N(3) {
	case 0:
		w.salted(&g, cr.salt)
	case 1:
		if cr.salt != "" {
			args = append(args, "-s", cr.salt)
		}
		if cr.salt == "" || w.ch.P(1, 2) {
			w.salted(&g, manySalts[2+w.ch.N(3)])
			if cr.salt == "" {
				args = append(args, "-s", "default")
			}
		}
	default:
		if cr.salt != "" {
			args = append(args, "-s", cr.salt)
		}
	}
	how := "typed"
	switch w.ch.N(3) {
	case 0:
		g.args = append(g.args, "-P", cr.pass)
		how = "by option"
	case 1:
		g.env = append(g.env, "KRYPTO_PASSWORD="+cr.pass)
		how = "by the environment"
	default:
		g.asks = w.newPass(cr.pass, promptEnc)
	}
	g.how += how
	p := w.cli25(st, nil, g, args...)
	if !p.ok() {
		w.violate("P25", "refused", "generating the key of %v (%s) failed: %s", cr, g.how, p.err())
	}
	shown := hex64.FindAllString(string(p.stdout), -1)
	if len(shown) != 1 || strings.ToLower(shown[0]) != refKey(cr) {
		w.violate("P25", "derived", "the key generated from %v (%s) is %q, not %s", cr, g.how, p.stdout, refKey(cr))
	}
	w.stats["keys_of_passwords"]++
	return shown[0]
}

// weak25 offers passwords below a limit where strength is enforced.
func (w *World) weak25(st *Station) {
	limit := 60.0
	var g giving
	if w.ch.P(2, 3) {
		limit = []float64{1, 20, 45, 60, 90, 150, 400}[w.ch.N(7)]
		s := fmt.Sprint(limit)
		if w.ch.P(1, 2) {
			g.env = append(g.env, "KRYPTO_MINIMUM_ENTROPY="+s)
		} else {
			g.args = append(g.args, w.ch.Pick("-M", "--minimum-entropy"), s)
		}
	}
	pass := append(append([]string{}, weakPhrases...), phrases...)[w.ch.N(len(weakPhrases)+len(phrases))]
	strong := passwordvalidator.GetEntropy(pass) >= limit
	w.stats["strength_judged"]++
	args := []string{"pfk", "-g"}
	if pass != "" && w.ch.P(1, 2) {
		g.args = append(g.args, "-P", pass)
		g.how = "by option"
	} else {
		g.how = "typed"
		g.asks = []answer{{promptRep, enter(pass), 1}, {promptEnc, enter(pass), 1}}
		// then the operator interrupts
	}
	p := w.cli25(st, nil, g, args...)
	shown := hex64.FindAllString(string(p.stdout)+string(p.stderr), -1)
	if strong {
		if !p.ok() || len(shown) != 1 || strings.ToLower(shown[0]) != refKey(credential{pass: pass}) {
			w.violate("P25", "denied", "%q %s is stronger than %g and was refused: %s %q", pass, g.how, limit, p.err(), p.stdout)
		}
	} else if p.ok() || len(shown) > 0 {
		w.violate("P25", "weak", "%q %s is weaker than %g and was accepted: %q", pass, g.how, limit, p.stdout)
	}
}

// malformed25 tries to make or change a store, or to get a key, with a salt or
// key that no store may have.
func (w *World) malformed25(st *Station, path string, cr credential, want *Snap) {
	before, _ := st.disk.ReadFile(path)
	salt := []string{refSalt[:62], refSalt[:63], refSalt[:32], refSalt[:2], "zz" + refSalt[2:], refSalt + "0", " " + refSalt, "-", ""}[w.ch.N(9)]
	h := w.hexKey("malformed")
	h = []string{h[:62], h + "00", h[:63], h[:32], "zz" + h[2:], " " + h, h + h, ""}[w.ch.N(8)]
	next := w.phrase()
	var g giving
	var args []string
	what := fmt.Sprintf("salt %q", salt)
	switch w.ch.N(5) {
	case 0:
		args = []string{"-f", home + "/no.gob", "-S", salt, "-P", next.pass, "init", "-c", st.call, "-n", "1", "-l", "40", "-g", "5"}
		if salt != "" && w.ch.P(1, 3) {
			g.env = []string{"KRYPTO_SALT=" + salt}
			args = append(args[:2:2], args[4:]...)
		}
	case 1:
		what = fmt.Sprintf("key %q", h)
		args = []string{"-f", home + "/no.gob", "-K", h, "init", "-c", st.call, "-n", "1", "-l", "40", "-g", "5"}
		if h != "" && w.ch.P(1, 3) {
			g.env = []string{"KRYPTO_PFK=" + h}
			args = append(args[:2:2], args[4:]...)
		}
	case 2:
		args = []string{"-K", refKey(cr), "pfk", "-c", path, "-s", salt, "-N", next.pass, "-y"}
	case 3:
		what = fmt.Sprintf("key %q", h)
		args = []string{"-K", refKey(cr), "pfk", "-c", path, "-k", h, "-y"}
	default:
		args = []string{"-P", next.pass, w.ch.Pick("pfk -g -s", "-S")}
		if args[2] == "-S" {
			args = append(args, salt, "pfk", "-g")
		} else {
			args = append(args[:2:2], "pfk", "-g", "-s", salt)
		}
	}
	w.stats["malformed_credential"]++
	p := w.cli25(st, nil, g, args...)
	w.refused25(st, path, p, before, fmt.Sprintf("%v with %s", args, what), want)
	if h := hex64.FindString(string(p.stdout)); h != "" {
		w.violate("P25", "accepted", "%v was refused and put out the key %s", args, h)
	}
}

// wrong25 tries to use the store with something else than its credential.
func (w *World) wrong25(st *Station, path string, cr credential, want *Snap) {
	d := st.disk
	before, _ := d.ReadFile(path)
	bad := cr
	var g giving
	what := ""
	kind := w.ch.Weighted(5, 3, 2, 2, 2, 2, 1, 1)
	switch kind {
	case 0:
		bad.pass = w.wrongPass(cr.pass)
		what = fmt.Sprintf("password %q", bad.pass)
		g = w.give(bad, promptDec)
	case 1:
		for refKey(bad) == refKey(cr) {
			bad.salt = manySalts[w.ch.N(len(manySalts))]
		}
		what = "salt " + bad.salt
		g = w.give(bad, promptDec)
	case 2:
		h := []byte(refKey(cr))
		i := w.ch.N(64)
		h[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", h[i])+1+w.ch.N(15))%16]
		what = "a key with one digit changed"
		g = w.give(credential{hex: string(h)}, "")
	case 3:
		h := refKey(cr)
		h = []string{h[:62], h + "00", h[:63], "zz" + h[2:], " " + h, h + "\n", "0x" + h, h[32:] + h[:32], h + h}[w.ch.N(9)]
		what = fmt.Sprintf("key %q", h)
		g = giving{args: []string{"-K", h}}
		if w.ch.P(1, 3) {
			g = giving{env: []string{"KRYPTO_PFK=" + h}}
		}
	case 4: // both
		what = "both a key and a password"
		g = giving{args: []string{"-K", refKey(cr)}, env: []string{"KRYPTO_PASSWORD=" + cr.pass}}
		if w.ch.P(1, 2) {
			g = giving{args: []string{"-P", cr.pass}, env: []string{"KRYPTO_PFK=" + refKey(cr)}}
		}
		if w.ch.P(1, 3) {
			g = giving{args: []string{"-P", cr.pass, "-K", refKey(cr)}}
		}
		w.salted(&g, cr.salt)
	case 5: // an unusable salt
		s := cr.salt
		if s == "" {
			s = refSalt
		}
		s = []string{s[:62], s[:63], s[:2], "zz" + s[2:], s + "0", "default", " " + s}[w.ch.N(7)]
		what = fmt.Sprintf("salt %q", s)
		g = giving{args: []string{"-S", s, "-P", cr.pass}}
		if w.ch.P(1, 3) {
			g = giving{env: []string{"KRYPTO_SALT=" + s}, asks: []answer{{promptDec, enter(cr.pass), -1}}}
		}
	case 6: // nothing at all, and nobody to ask
		what = "nothing"
	default: // walks away
		what = "nothing typed"
		k := []string{w.ch.Pick(keyIntr, keyEOT, keyTerm, keyIntr)}
		if w.ch.P(1, 3) && k[0] != keyEOT {
			k = append(typed(cr.pass), k...)
		}
		g = giving{asks: []answer{{promptDec, k, -1}}}
		w.salted(&g, cr.salt)
	}
	w.stats["wrong_credential"]++
	args := [][]string{{"keys", "-n", "2"}, {"keys", "-l"}, {"messages", "-l"}, {"keys", "-d", "-a", "-y"}, {"keys", "-E", home + "/no.gob", "-y"}, {"pfk", "-r", "-y", "-c", path}, {"pfk", "-y", "-c", path, "-k", refKey(credential{hex: st.pfk})}}[w.ch.N(7)]
	if kind == 6 {
		// not at a terminal
		p := w.rawCli(st, nil, append([]string{"-f", path}, args...)...)
		w.run(p)
		w.refused25(st, path, p, before, fmt.Sprintf("%v with %s", args, what), want)
		return
	}
	p := w.cli25(st, nil, g, append([]string{"-f", path}, args...)...)
	w.refused25(st, path, p, before, fmt.Sprintf("%v with %s (%s) for %v", args, what, g.how, cr), want)
}

func (w *World) refused25(st *Station, path string, p *proc, before []byte, how string, want *Snap) {
	if p.ok() {
		w.violate("P25,P04", "accepted", "%s was accepted: %q %s", how, string(p.stdout), p.err())
	}
	after, _ := st.disk.ReadFile(path)
	if string(after) != string(before) {
		w.violate("P25,P04", "changed", "%s was refused and changed the store", how)
	}
	if st.disk.resolve(home+"/no.gob") != nil {
		w.violate("P25,P04", "exported", "%s was refused and wrote a file", how)
	}
	for _, k := range want.Keys {
		if len(k.Runes) >= 20 && strings.Contains(strings.ReplaceAll(string(p.stdout)+string(p.stderr), " ", ""), string(k.Runes)) {
			w.violate("P25,P04", "shown", "%s was refused and showed a key", how)
		}
	}
}
