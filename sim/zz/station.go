//go:build go1.23

package zzverifsim

import (
	"fmt"
	"os"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"
	"unicode"

	"github.com/sa6mwa/krypto431"
)

const home = "/home/op"

// Station is one operator's machine.
type Station struct {
	name     string
	call     string
	disk     *Disk
	zone     *time.Location
	path     string // store file
	farg     string // the store as the operator names it (empty: not at all)
	envs     int    // bits: the store, the key are told by the environment
	pfk      string // hex
	gs       int
	kl       int
	cur      *Snap // contents of the store after the last operation (observed)
	pend     []pending
	future   []KeySnap         // keys of received traffic that have not arrived yet
	softKeys []credential      // what opens those of them saved before a change of key
	soft     []*Snap           // states a power failure may bring back
	sent     map[string]string // letters of every key that enciphered something put out or stored -> where
	recv     map[string]bool   // letters of keys of deciphered, stored messages
}

var zones = func() []*time.Location {
	r := []*time.Location{time.UTC}
	for _, h := range []int{1, 2, 9, 10, 12, -1, -5, -12} {
		r = append(r, time.FixedZone(fmt.Sprintf("Z%+d", h), h*3600))
	}
	for _, n := range []string{"Europe/Stockholm", "America/New_York", "Australia/Sydney", "Asia/Kolkata", "Pacific/Auckland", "Australia/Lord_Howe"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		r = append(r, l)
	}
	return r
}()

// whole is zones that a date-time group can tell.
var whole = zones[:len(zones)-3]

func (w *World) hexKey(tag string) string {
	h := mix(w.entSalt ^ fold(1469598103934665603, tag))
	s := ""
	for i := 0; i < 4; i++ {
		h = mix(h + 0x9e3779b97f4a7c15)
		s += fmt.Sprintf("%016x", h)
	}
	return s
}

func (w *World) newStation(name, call string) *Station {
	d := newDisk(name)
	d.MkdirAll(home)
	d.MkdirAll("/tmp").mode = 0777
	d.ext4 = w.ch.P(1, 2)
	st := &Station{name: name, call: call, disk: d, zone: zones[w.ch.N(len(zones))], path: home + "/store.gob", pfk: w.hexKey("pfk" + name),
		gs: 5, kl: 40, sent: map[string]string{}, recv: map[string]bool{}}
	// The operator may name the store in several ways.
	st.farg = st.path
	switch w.ch.Weighted(10, 1, 1, 1, 1, 1) {
	case 1:
		st.farg = "~/store.gob"
	case 2:
		st.farg = "store.gob"
	case 3:
		st.farg = "../op/./store.gob"
	case 4:
		d.MkdirAll(home + "/keys of 2023")
		st.path = home + "/keys of 2023/my store"
		st.farg = st.path
	case 5:
		st.path = home + "/.krypto431.gob"
		st.farg = ""
	}
	st.envs = w.ch.Weighted(8, 1, 1, 1)
	w.stations = append(w.stations, st)
	return st
}

var mainFn func()
var template krypto431.Krypto431

func warmUp() {
	template = krypto431.New()
	template.Keys = nil
	template.Messages = nil
}

// libInstance returns an instance for library sessions, as New() makes it but
// without its large preallocation.
func libInstance(path, pfk string) *krypto431.Krypto431 {
	k := template
	k.SetSaltFromString(krypto431.DefaultSalt)
	k.SetPersistence(path)
	if pfk != "" {
		if err := k.SetPFKFromString(pfk); err != nil {
			panic(err)
		}
	}
	return &k
}

// observe opens a file on d with the real Load in a fresh fault-free process.
func (w *World) observe(d *Disk, file, pfk string) (*Snap, string) {
	var s *Snap
	msg := ""
	st := &Station{disk: d, zone: time.UTC}
	sv := [4]bool{d.full, d.readonly, d.bad, d.flushLoss}
	d.heal()
	p := w.newProc(st, "observer", nil, func() {
		k := libInstance(file, pfk)
		if err := k.Load(); err != nil {
			msg = err.Error()
			return
		}
		s = snapOf(k)
	})
	p.quiet = true
	w.run(p)
	d.full, d.readonly, d.bad, d.flushLoss = sv[0], sv[1], sv[2], sv[3]
	if !p.ok() {
		return nil, p.outcome()
	}
	return s, msg
}

func (w *World) look(st *Station) (*Snap, string) { return w.observe(st.disk, st.path, st.pfk) }

// cliProc prepares a run of the command-line program.
func (w *World) cliProc(st *Station, plan *Plan, args ...string) *proc {
	var first, env []string
	switch {
	case st.farg == "":
	case st.envs&1 != 0:
		env = append(env, "KRYPTO_FILE="+st.farg)
	default:
		first = append(first, "-f", st.farg)
	}
	if st.envs&2 != 0 {
		env = append(env, "KRYPTO_PFK="+st.pfk)
	} else {
		first = append(first, "-K", st.pfk)
	}
	p := w.rawCli(st, plan, append(first, args...)...)
	p.env = env
	return p
}

// named is how the operator calls the store where it has to be named.
func (st *Station) named() string {
	if st.farg == "" {
		return "~/.krypto431.gob"
	}
	return st.farg
}

var envNames = []string{"KRYPTO_FILE", "KRYPTO_SALT", "KRYPTO_PFK", "KRYPTO_PASSWORD", "KRYPTO_OLD_PASSWORD", "KRYPTO_NEW_PASSWORD", "KRYPTO_MINIMUM_ENTROPY"}
var envNow = map[string]string{}

// setEnv makes the environment of the process hold these variables of the
// program and no others.
func setEnv(env []string) {
	for _, n := range envNames {
		v, ok := "", false
		for _, e := range env {
			if strings.HasPrefix(e, n+"=") {
				v, ok = e[len(n)+1:], true
			}
		}
		if old, had := envNow[n]; ok && (!had || old != v) {
			os.Setenv(n, v)
			envNow[n] = v
		} else if !ok && had {
			os.Unsetenv(n)
			delete(envNow, n)
		}
	}
}

// toEnv tells some of the options of a pfk command by the environment.
func (w *World) toEnv(args []string) (rest, env []string) {
	global := map[string]string{"-K": "KRYPTO_PFK", "-S": "KRYPTO_SALT", "-P": "KRYPTO_PASSWORD"}
	own := map[string]string{"-P": "KRYPTO_OLD_PASSWORD", "-N": "KRYPTO_NEW_PASSWORD"}
	names := global
	for i := 0; i < len(args); i++ {
		if args[i] == "pfk" {
			names = own
		}
		if n := names[args[i]]; n != "" && i+1 < len(args) && args[i+1] != "" && w.ch.P(1, 4) {
			env = append(env, n+"="+args[i+1])
			i++
			continue
		}
		rest = append(rest, args[i])
	}
	return
}

func (w *World) rawCli(st *Station, plan *Plan, args ...string) *proc {
	p := w.newProc(st, st.name+": "+strings.Join(args, " "), plan, mainFn)
	p.args = append([]string{"krypto431"}, args...)
	return p
}

// libProc prepares a library session on the station's store.
func (w *World) libProc(st *Station, plan *Plan, name string, body func(k *krypto431.Krypto431) error) *proc {
	var p *proc
	p = w.newProc(st, st.name+": lib "+name, plan, func() {
		k := libInstance(st.named(), st.pfk)
		err := k.Load()
		if err == nil {
			err = body(k)
		}
		if err != nil {
			p.stderr = append(p.stderr, []byte("Error: "+err.Error())...)
			p.code = 1
		}
	})
	return p
}

func (p *proc) setStdin(s string) *proc {
	p.stdin = []inPart{{data: []byte(s)}}
	return p
}

func (p *proc) err() string {
	s := string(p.stderr)
	if len(s) > 400 {
		s = s[len(s)-400:]
	}
	return p.outcome() + ": " + s
}

// ---- texts and headers ----

const upperAlpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

var alphabets = []string{
	"ABCDEFGHIJKLMNOPQRSTUVWXYZ",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZ ",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz ",
	"Aa0Qq9Zz?",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789?-ÅÄÖåäö.,:+/ ",
	"aB1zQ-åÖ",
	"q0Zåa1",
}

func (w *World) genText(maxLen int) string {
	a := []rune(alphabets[w.ch.N(len(alphabets))])
	n := 1
	switch w.ch.N(4) {
	case 0:
		n = w.ch.Range(1, 12)
	case 1:
		n = w.ch.Range(1, 40)
	default:
		n = w.ch.Range(1, max(1, maxLen))
	}
	if n > maxLen {
		n = maxLen
	}
	h := uint64(w.ch.N(1 << 20))
	r := make([]rune, n)
	for i := range r {
		h = mix(h + 0x9e3779b97f4a7c15)
		r[i] = a[h%uint64(len(a))]
	}
	// The text must not be mistaken for parts of the radiogram around it.
	if r[0] == ' ' || r[0] == '+' {
		r[0] = 'X'
	}
	switch r[n-1] {
	case ' ', '+':
		r[n-1] = 'Y'
	}
	if n > 1 && r[n-2] == ' ' {
		r[n-2] = 'Z'
	}
	return string(r)
}

// spoil puts a character in text which can not be encoded, mostly one a small
// step from those that can.
func (w *World) spoil(text string) string {
	var r rune
	switch w.ch.N(4) {
	case 0:
		r = []rune("!@¤_€éÉ;#&\"'#")[w.ch.N(10)]
	case 1:
		// Their capital or small letter is another letter: long s, dotless i,
		// Kelvin, Angstrom, full-width and Greek or Cyrillic lookalikes, titlecase.
		r = []rune("ſıKÅ\uff21\uff5aΑВаÿŸßẞǅİ\u0345")[w.ch.N(16)]
	case 2:
		r = rune(w.ch.Range(0xa1, 0x24f))
	default:
		r = rune(w.ch.Range(0xa1, 0x1ffff))
	}
	if supported(string(r)) || unicode.IsSpace(r) || r >= 0xd800 && r < 0xe000 {
		r = '_'
	}
	t := []rune(text)
	i := 1 + w.ch.N(len(t))
	return string(t[:i]) + string(r) + string(t[i:])
}

var calls = []string{"AA", "B2", "VJ", "RU4/P", "SA6MWA", "Q", "K1", "RU4", "B2B"}

func wrapRadiogram(to []string, from, dtg, text string) string {
	s := strings.Join(to, " ")
	if s != "" {
		s += " "
	}
	s += "DE " + from
	if dtg != "" {
		s += " " + dtg
	}
	return s + " = " + text + " = K"
}

var wordDE = regexp.MustCompile(`(?i)(^|[^a-z0-9/])DE([^a-z0-9/]|$)`)
var looksCounted = regexp.MustCompile(`(?i)^\pL{0,4}\s*\d{0,4}\s*$`)
var endsProceed = regexp.MustCompile(`\s[Kk+]$`)

// radiogram writes a message in any of the documented forms.
func (w *World) radiogram(to []string, from, dtg, text string) string {
	form := w.ch.Weighted(6, 3, 2, 2, 2)
	if form == 0 || strings.ContainsRune(text, '=') {
		return wrapRadiogram(to, from, dtg, text)
	}
	r := []rune(text)
	mini := form == 4
	if mini && (wordDE.MatchString(text) || !unicode.IsLetter(r[0])) {
		form, mini = 1, false
	}
	head := strings.Join(to, w.ch.Pick(" ", ",", ", ", "  "))
	if head != "" {
		head += " "
	}
	head += "DE " + from
	if dtg != "" {
		head += " " + dtg
	}
	count := func() string { return w.ch.Pick("", " 1", " 3", " 12", " 1024") }
	switch form {
	case 1: // instructions of up to four letters, group count
		head += w.ch.Pick("", " C", " COL", " SVC", " BLKA") + count()
	case 2: // action addressees, message instructions
		head += " == " + w.ch.Pick("BA", "XY ZZ/P", "VJ, QJ", "2A 3B 4C", "") + " == " + w.ch.Pick("", "COL", "SVC OP", "P") + count()
	case 3: // action addressees
		head += " == " + w.ch.Pick("VJ QJ", "XY ZZ/P", "COL", "") + count()
	}
	if w.ch.P(1, 8) {
		head = strings.ToLower(head)
	}
	trail := w.ch.Pick(" = K", " K", " +", " [AR]", " = AR", " = +", " =", "", "=K", " = k", "[ar]")
	if trail == "" && (endsProceed.MatchString(text) || len(r) == 1) {
		trail = " [AR]"
	}
	if mini {
		if strings.Contains(trail, "=") && looksCounted.MatchString(text) {
			trail = " +"
		}
		return head + " " + text + trail
	}
	eq := w.ch.Pick(" = ", "=", " =", "= ")
	return head + eq + text + trail
}

// trafficOf extracts the traffic from a printed message ("" if none).
func trafficOf(out string) string {
	const mark = "=TRAFFIC=EXAMPLE="
	i := strings.Index(out, mark)
	if i < 0 {
		return ""
	}
	return strings.TrimSpace(out[i+len(mark):])
}

type traffic struct {
	to    []string
	from  string
	dtg   string
	count int
	key   string
	ct    string
	raw   string
}

// parseTraffic reads "TO DE FROM DTG COUNT = KEY GROUPS = K".
func parseTraffic(s string) *traffic {
	t := &traffic{raw: s}
	parts := strings.SplitN(strings.Join(strings.Fields(s), " "), "=", 3)
	if len(parts) != 3 {
		return nil
	}
	h := strings.Fields(parts[0])
	de := -1
	for i, x := range h {
		if x == "DE" {
			de = i
		}
	}
	if de < 0 || len(h) < de+4 {
		return nil
	}
	t.to, t.from, t.dtg = h[:de], h[de+1], h[de+2]
	fmt.Sscan(h[de+3], &t.count)
	g := strings.Fields(parts[1])
	if len(g) < 2 {
		return nil
	}
	t.key = g[0]
	t.ct = strings.Join(g[1:], "")
	return t
}

// ---- key eligibility (the rule the operator relies on) ----

func eligible(k *KeySnap, gs int, to []string) bool {
	if k.Used || k.Comp || len([]rune(k.Id)) != gs {
		return false
	}
	if len(to) == 0 {
		return len(k.Keepers) == 0
	}
	for _, r := range to {
		if !contains(k.Keepers, r) {
			return false
		}
	}
	return true
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func sorted(l []string) []string {
	r := append([]string(nil), l...)
	sort.Strings(r)
	return r
}

func eqList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = sorted(a), sorted(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func uniq(l []string) []string {
	var r []string
	for _, x := range l {
		if !contains(r, x) {
			r = append(r, x)
		}
	}
	return r
}

// ---- P05/P06 monitors ----

func (w *World) touched(n *inode, pth string) {
	if !w.monitor {
		return
	}
	p := w.cur
	if p == nil {
		return
	}
	if n.writer != p.id {
		n.writer = p.id
		n.isPrint = p.printing && pth != p.storePath
		w.touch = append(w.touch, touchRec{n, pth})
	}
}

func (w *World) sample(n *inode, pth string) {
	if !w.monitor || n.kind != kFile || n.writer == 0 || len(n.data) == 0 {
		return
	}
	h := fold(uint64(len(n.data)), string(n.data))
	if n.lastSample == h {
		return
	}
	n.lastSample = h
	w.samples = append(w.samples, sampleRec{n: n, path: pth, writer: n.writer, data: append([]byte(nil), n.data...), print: n.isPrint})
}

func (w *World) modeEvent(p *proc, n *inode, pth string) {
	if w.monitor && n.kind == kFile && n.mode&077 != 0 {
		w.modes = append(w.modes, fmt.Sprintf("%s has mode %04o", path.Clean(pth), n.mode))
	}
}

// checkMonitors judges everything that was on disk since the last call.
// keys are the file keys that are allowed.
func (w *World) checkMonitors(keys []string, secrets []string) {
	if !w.monitor {
		return
	}
	for _, t := range w.touch {
		w.sample(t.n, t.path)
	}
	if len(w.modes) > 0 {
		w.violate("P05", "mode", "a file others can read was created: %s", w.modes[0])
	}
	var kb []*[32]byte
	for _, k := range keys {
		kb = append(kb, keyBytes(k))
	}
	for _, s := range w.samples {
		if s.print {
			continue
		}
		w.stats["states_inspected"]++
		for _, sec := range secrets {
			if len(sec) >= 8 && strings.Contains(string(s.data), sec) {
				w.violate("P05", "clear", "%s held a secret in the clear (%.12s...)", s.path, sec)
			}
		}
		recs, rest := frames(s.data)
		for i := range recs {
			ok := -1
			for j := range kb {
				if _, o := recs[i].open(kb[j]); o {
					ok = j
					break
				}
			}
			if ok < 0 {
				w.violate("P05", "foreign", "%s held data that is not encrypted with the store's key (%d bytes, record %d at %d)", s.path, len(s.data), i, recs[i].off)
			}
			id := keys[ok] + string(recs[i].nonce[:])
			at := fmt.Sprintf("p%d inode %d offset %d", s.writer, s.n.ino, recs[i].off)
			if old, seen := w.nonces[id]; seen && old != at {
				w.violate("P06", "nonce", "nonce %x used for two records under one key: %s and %s", recs[i].nonce[:6], old, at)
			}
			w.nonces[id] = at
			w.stats["records_inspected"]++
		}
		if len(rest) >= 4 {
			n := int(uint32(rest[0]) | uint32(rest[1])<<8 | uint32(rest[2])<<16 | uint32(rest[3])<<24)
			if n < 40 || n <= len(rest)-4 || n > 1<<24 {
				w.violate("P05", "foreign", "%s held data that is not part of an encrypted record (%d bytes after %d records)", s.path, len(rest), len(recs))
			}
		}
	}
	w.samples, w.touch, w.modes = nil, nil, nil
}

// secretsOf lists what must never be found in the clear.
func secretsOf(pfks []string, snaps ...*Snap) []string {
	var r []string
	for _, k := range pfks {
		r = append(r, k, string(keyBytes(k)[:]))
	}
	for _, s := range snaps {
		if s == nil {
			continue
		}
		for _, k := range s.Keys {
			r = append(r, k.Runes[:min(20, len(k.Runes))])
		}
		for _, m := range s.Msgs {
			if len(m.Plain) >= 12 {
				r = append(r, m.Plain[:12])
			}
		}
	}
	return r
}
