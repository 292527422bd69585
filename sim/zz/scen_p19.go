//go:build go1.23

package zzverifsim

import (
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/sa6mwa/krypto431"
	kcrand "github.com/sa6mwa/krypto431/crand"
)

// ---- P19: goroutines sharing the random source ----

func init() {
	scenarios["P19"] = &Scenario{scenP19, "the calls, the order in which the goroutines took their steps, and short or failing reads of the source differ", expl, true}
}

// gor is one goroutine of the cooperative scheduler.
type gor struct {
	id      int
	goid    string
	resume  chan struct{}
	done    bool
	waits   bool // for a lock that was taken when it last tried
	running bool // resumed and not yet back
	calls   []*gcall
	stream  []gread
	panicky string
}

// gread is one answer of the source: bytes or a failure.
type gread struct {
	b   []byte
	pos int
	err bool
}

type gcall struct {
	kind string
	n    int
	out  string
	raw  []byte
	// the part of the goroutine's stream it used
	from, to int
}

type sched struct {
	w       *World
	gs      []*gor
	cur     *gor
	yielded chan *gor
	dead    bool
	pos     int // bytes handed out
	failAt  int
	failN   int
	short   bool
	eager   int // 1 in eager scheduling points switches
	steps   int
	all     []byte
}

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

var stackBuf = make([]byte, 1<<16)

// goStates tells what every goroutine is doing.
func goStates() map[string]string {
	n := 0
	for n = runtime.Stack(stackBuf, true); n == len(stackBuf); n = runtime.Stack(stackBuf, true) {
		stackBuf = make([]byte, 2*n)
	}
	b := stackBuf[:n]
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "goroutine ") {
			f := strings.SplitN(l, " ", 3)
			if len(f) == 3 && len(f[2]) > 2 {
				m[f[1]] = f[2][1:]
			}
		}
	}
	return m
}

func (s *sched) self() *gor {
	id := goid()
	for _, g := range s.gs {
		if g.goid == id {
			return g
		}
	}
	return nil
}

func (s *sched) yield(g *gor) {
	s.yielded <- g
	<-g.resume
	if s.dead {
		runtime.Goexit()
	}
}

// lock is installed as sync.SimLock.
func (s *sched) lock(try func() bool) bool {
	g := s.self()
	if g == nil || s.dead {
		return false
	}
	s.yield(g)
	for !try() {
		g.waits = true
		s.yield(g)
	}
	g.waits = false
	return true
}

func (s *sched) unlock() {
	g := s.self()
	if g == nil || s.dead {
		return
	}
	for _, o := range s.gs {
		o.waits = false
	}
	// No switch here: sync.Pool unlocks while its goroutine is pinned.
}

func (s *sched) point() {
	if g := s.self(); g != nil && !s.dead {
		s.yield(g)
	}
}

// Read is the source underneath.
func (s *sched) Read(b []byte) (int, error) {
	g := s.self()
	if g == nil {
		return simReader{s.w}.Read(b)
	}
	if len(b) == 0 {
		return 0, nil
	}
	s.yield(g)
	n := len(b)
	if s.failN > 0 && s.pos+n > s.failAt {
		if k := s.failAt - s.pos; k > 0 {
			n = k
		} else {
			s.failN--
			s.w.stats["fault.entropy_error"]++
			g.stream = append(g.stream, gread{err: true, pos: s.pos})
			s.yield(g)
			return 0, errEntropy
		}
	}
	if s.short && n > 1 {
		if k := mix(uint64(s.pos)*7+s.w.entSalt) % 4; k < 2 {
			n = 1 + int(mix(uint64(s.pos)+s.w.entSalt)%uint64(n-1))
			s.w.stats["fault.entropy_short"]++
		}
	}
	e := entropy{key: mix(s.w.entSalt + 99), plan: noFaults()}
	at := s.pos
	for i := 0; i < n; i++ {
		b[i] = e.at(at + i)
	}
	s.pos += n
	s.all = append(s.all, b[:n]...)
	g.stream = append(g.stream, gread{b: append([]byte(nil), b[:n]...), pos: at})
	s.w.drawn += int64(n)
	s.yield(g)
	return n, nil
}

// run lets the goroutines go until all are done. It returns why they cannot.
func (s *sched) run(body func(g *gor)) string {
	w := s.w
	s.yielded = make(chan *gor)
	for _, g := range s.gs {
		g := g
		g.resume = make(chan struct{})
		go func() {
			g.goid = goid()
			s.yielded <- g
			<-g.resume
			defer func() {
				if r := recover(); r != nil {
					g.panicky = fmt.Sprint(r)
				}
				g.done = true
				s.yielded <- g
			}()
			if !s.dead {
				body(g)
			}
		}()
		<-s.yielded
	}
	sync.SimLock, sync.SimUnlock, sync.SimYield = s.lock, s.unlock, s.point
	old := crand.Reader
	crand.Reader = s
	defer func() {
		sync.SimLock, sync.SimUnlock, sync.SimYield = nil, nil, nil
		crand.Reader = old
	}()
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	// wait takes in the next goroutine that comes to a scheduling point.
	wait := func(d time.Duration) *gor {
		timer.Reset(d)
		select {
		case g := <-s.yielded:
			g.running = false
			return g
		case <-timer.C:
			return nil
		}
	}
	drain := func() {
		for {
			select {
			case g := <-s.yielded:
				g.running = false
				continue
			default:
			}
			return
		}
	}
	// settle returns when every goroutine is at a scheduling point, done or
	// blocked on something the scheduler does not see (or seems to spin).
	settle := func(most int) {
		for ; ; most-- {
			drain()
			busy := false
			var st map[string]string
			for _, g := range s.gs {
				if !g.running {
					continue
				}
				if st == nil {
					st = goStates()
				}
				blocked := false
				for _, x := range []string{"chan ", "select", "sync.", "sleep", "IO wait"} {
					blocked = blocked || strings.HasPrefix(st[g.goid], x)
				}
				busy = busy || !blocked
			}
			drain()
			again := false
			for _, g := range s.gs {
				again = again || g.running
			}
			if !again || !busy || most <= 0 {
				return
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
	resume := func(g *gor) {
		others := false
		for _, o := range s.gs {
			others = others || o.running
		}
		s.cur = g
		g.running = true
		g.resume <- struct{}{}
		r := wait(2 * time.Millisecond)
		if r != g || others {
			settle(3000)
		}
		if g.running {
			w.stats["blocked_elsewhere"]++
		}
	}
	why := ""
	for {
		var run, waiting, ext []*gor
		for _, g := range s.gs {
			switch {
			case g.done:
			case g.running:
				ext = append(ext, g)
			case g.waits:
				waiting = append(waiting, g)
			default:
				run = append(run, g)
			}
		}
		if len(run) == 0 && len(ext) > 0 {
			if wait(4*time.Second) == nil {
				why = fmt.Sprintf("%d goroutines are blocked for ever", len(ext)+len(waiting))
				break
			}
			for _, g := range waiting {
				g.waits = false
			}
			continue
		}
		if len(run) == 0 && len(waiting) > 0 {
			// one more try each, then nobody can move
			stuck := true
			for _, g := range waiting {
				resume(g)
				if g.running || !g.waits {
					stuck = false
					break
				}
			}
			if stuck {
				why = fmt.Sprintf("%d goroutines wait for a lock nobody holds any longer", len(waiting))
				break
			}
			continue
		}
		if len(run) == 0 {
			break
		}
		if s.steps++; s.steps > 200000 {
			why = "the calls do not come to an end"
			break
		}
		g := s.cur
		stay := false
		for _, o := range run {
			if o == g {
				stay = true
			}
		}
		if !stay || w.ch.P(1, s.eager) {
			g = run[w.ch.N(len(run))]
			w.stats["context_switches"]++
		}
		w.shape = fold(w.shape, string(rune('a'+g.id)))
		resume(g)
	}
	s.dead = true
	sync.SimLock, sync.SimUnlock, sync.SimYield = nil, nil, nil
	if why != "" {
		w.poisoned = true
		for _, g := range s.gs {
			if !g.done && !g.running {
				close(g.resume)
				wait(time.Second)
			}
		}
	}
	return why
}

// call makes one call; the outcome goes to c.
func (c *gcall) call() {
	defer func() {
		if r := recover(); r != nil {
			c.out = "panic: " + fmt.Sprint(r)
		}
	}()
	switch c.kind {
	case "Uint64":
		v := kcrand.Uint64()
		c.out = fmt.Sprintf("%016x", v)
	case "Int63":
		c.out = fmt.Sprintf("%016x", uint64(kcrand.Int63()))
	case "Read":
		b := make([]byte, c.n)
		n, err := kcrand.Read(b)
		if err != nil {
			c.out = "error"
			return
		}
		c.raw = b[:n]
		c.out = fmt.Sprintf("%d %x", n, b)
	case "ReadRunes":
		b := make([]rune, c.n)
		n, err := kcrand.ReadRunes(b)
		if err != nil {
			c.out = "error"
			return
		}
		c.out = fmt.Sprintf("%d %x", n, b)
	case "Uint32":
		c.out = fmt.Sprint(kcrand.Uint32())
	case "Int31":
		c.out = fmt.Sprint(kcrand.Int31())
	case "Int":
		c.out = fmt.Sprint(kcrand.Int())
	case "Int63n":
		c.out = fmt.Sprint(kcrand.Int63n(int64(c.n) + 1))
	case "Int31n":
		c.out = fmt.Sprint(kcrand.Int31n(int32(c.n) + 1))
	case "Intn":
		c.out = fmt.Sprint(kcrand.Intn(c.n + 1))
	case "Float64":
		c.out = fmt.Sprint(kcrand.Float64())
	case "Float32":
		c.out = fmt.Sprint(kcrand.Float32())
	case "Perm":
		c.out = fmt.Sprint(kcrand.Perm(c.n % 9))
	case "Shuffle":
		l := []int{0, 1, 2, 3, 4, 5, 6}[:c.n%7]
		kcrand.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		c.out = fmt.Sprint(l)
	case "NormFloat64":
		c.out = fmt.Sprint(kcrand.NormFloat64())
	case "ExpFloat64":
		c.out = fmt.Sprint(kcrand.ExpFloat64())
	case "keys":
		k := libInstance("x", "")
		k.CallSign, k.GroupSize, k.KeyLength = []rune("AA"), 3, 20
		err := k.GenerateKeys(1+c.n%2, nil)
		for i := range k.Keys {
			c.out += string(k.Keys[i].Id) + " " + string(k.Keys[i].Runes) + ";"
		}
		if err != nil {
			c.out += "error"
		}
	case "pfk":
		c.out = krypto431.GeneratePFK()
	case "salt":
		c.out = krypto431.GenerateSalt()
	case "wipe":
		r := []rune("SOME TEXT")
		if err := krypto431.RandomWipe(&r); err != nil {
			c.out = "error"
			return
		}
		c.out = fmt.Sprintf("%x", r)
	}
}

var crandCalls = []string{"Uint64", "Read", "Int63", "ReadRunes", "Intn", "Uint32", "Int31", "Int", "Int63n", "Int31n", "Float64", "Float32", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "keys", "pfk", "salt", "wipe"}

// playback hands out recorded answers.
type playback struct {
	l    []gread
	i, o int
	over bool
}

func (p *playback) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.i >= len(p.l) {
		p.over = true
		return 0, io.ErrUnexpectedEOF
	}
	g := p.l[p.i]
	if g.err {
		p.i++
		return 0, errEntropy
	}
	n := copy(b, g.b[p.o:])
	p.o += n
	if p.o == len(g.b) {
		p.i, p.o = p.i+1, 0
	}
	return n, nil
}

// direct tells whether calls take exactly the bytes they return from the
// source (true of the shipped code); a source that reads ahead is judged by
// where its values come from only.
func directSource() bool {
	old := crand.Reader
	defer func() { crand.Reader = old }()
	e := entropy{key: 4711, plan: noFaults()}
	var l []gread
	for i := 0; i < 4096; i++ {
		l = append(l, gread{b: []byte{e.at(i)}})
	}
	pb := &playback{l: l}
	crand.Reader = pb
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		for _, n := range []int{3, 1, 8, 5} {
			at := pb.i
			kcrand.Uint64()
			ok = ok && pb.i == at+8
			at = pb.i
			kcrand.Read(make([]byte, n))
			ok = ok && pb.i == at+n
		}
	}()
	return ok
}

func scenP19(w *World) {
	direct := directSource()
	s := &sched{w: w, failAt: -1, eager: []int{2, 1, 4, 10}[w.ch.N(4)]}
	ng := w.ch.Range(2, 4)
	st := w.newStation("A", "AA")
	simple := w.ch.P(1, 2)
	for i := 0; i < ng; i++ {
		g := &gor{id: i}
		for n := w.ch.Range(1, 5); n > 0; n-- {
			c := &gcall{kind: crandCalls[w.ch.N(len(crandCalls))], n: w.ch.N(40)}
			if simple || !direct {
				c.kind = crandCalls[w.ch.N(4)]
			}
			if !direct {
				c.n += 8
			}
			if strings.HasPrefix(c.kind, "Read") && w.ch.P(1, 15) {
				c.n = []int{500, 1000, 1020, 4090, 8190, 16380, 65530}[w.ch.Weighted(4, 4, 4, 4, 3, 2, 1)] + w.ch.N(20)
			}
			g.calls = append(g.calls, c)
		}
		s.gs = append(s.gs, g)
	}
	s.short = w.ch.P(1, 2)
	if w.ch.P(1, 4) {
		s.failAt = w.ch.N(200)
		s.failN = []int{1, 2, 1 << 30}[w.ch.N(3)]
	}
	desc := ""
	for _, g := range s.gs {
		for _, c := range g.calls {
			desc += fmt.Sprintf(" %d:%s(%d)", g.id, c.kind, c.n)
			w.shape = fold(w.shape, c.kind)
		}
	}
	w.note("goroutines:%s; short reads %v, source fails at %d %d times", desc, s.short, s.failAt, s.failN)
	p := w.newProc(st, "goroutines", nil, nil)
	w.enter(p)
	why := s.run(func(g *gor) {
		for _, c := range g.calls {
			c.from = len(g.stream)
			c.call()
			c.to = len(g.stream)
		}
	})
	w.cur = nil
	time.Local = time.UTC
	w.stats["goroutines"] += ng
	for _, g := range s.gs {
		for _, c := range g.calls {
			w.logf("g%d %s(%d) = %s", g.id, c.kind, c.n, c.out)
		}
	}
	if why != "" {
		w.violate("P19", "hang", "%s:%s (short reads %v, source failing from byte %d %d times)", why, desc, s.short, s.failAt, s.failN)
	}
	for _, g := range s.gs {
		if g.panicky != "" {
			w.violate("P19", "panic", "goroutine %d: %s:%s", g.id, g.panicky, desc)
		}
	}
	if !direct {
		s.segments(desc)
		return
	}
	// Every byte to one caller, and in order: each elementary draw got
	// consecutive bytes, and every value is what the same calls give when made
	// one at a time on the bytes the goroutine got.
	for _, g := range s.gs {
		pb := &playback{l: g.stream}
		old := crand.Reader
		crand.Reader = pb
		w.enter(p)
		for _, c := range g.calls {
			var got []byte
			fails := false
			for _, r := range g.stream[c.from:c.to] {
				got = append(got, r.b...)
				fails = fails || r.err
			}
			again := &gcall{kind: c.kind, n: c.n}
			again.call()
			w.stats["calls_compared"]++
			bad := ""
			switch {
			case again.out != c.out:
				bad = fmt.Sprintf("made alone on the same bytes it gives %s", again.out)
			case pb.i != c.to || pb.o != 0 || pb.over:
				bad = "made alone it draws other amounts"
			}
			be := uint64(0)
			if len(got) == 8 {
				be = binary.BigEndian.Uint64(got)
			}
			switch c.kind {
			case "Uint64", "Int63":
				le := uint64(0)
				if len(got) == 8 {
					le = binary.LittleEndian.Uint64(got)
				}
				var v uint64
				if _, err := fmt.Sscanf(c.out, "%x", &v); err != nil || strings.HasPrefix(c.out, "panic") {
					if !fails {
						bad = "the source did not fail"
					}
					break
				}
				m := ^uint64(0)
				if c.kind == "Int63" {
					m >>= 1
				}
				if !fails && (len(got) != 8 || v != be&m && v != le&m && v != be>>1 && v != le>>1) {
					bad = fmt.Sprintf("it drew %x", got)
				}
				if fails && len(got) < 8 {
					bad = "the source failed"
				}
			case "Read":
				if fails && len(got) < c.n && c.out != "error" && !strings.HasPrefix(c.out, "panic") {
					bad = "the source failed"
				}
				if !fails && c.out != fmt.Sprintf("%d %x", c.n, got) {
					bad = fmt.Sprintf("it drew %x", got)
				}
			case "ReadRunes":
				if fails && len(got) < 4*c.n && c.out != "error" && !strings.HasPrefix(c.out, "panic") {
					bad = "the source failed"
				}
				if !fails && len(got) != 4*c.n {
					bad = fmt.Sprintf("it drew %d bytes", len(got))
				}
			}
			if bad == "" {
				switch c.kind {
				case "Uint64", "Int63", "Read", "ReadRunes":
					next := -1
					for _, r := range g.stream[c.from:c.to] {
						if next >= 0 && r.pos != next && !fails {
							bad = "the bytes of others lie between those it got"
						}
						next = r.pos + len(r.b)
					}
				}
			}
			if bad != "" {
				crand.Reader = old
				w.violate("P19", "value", "%s(%d) of goroutine %d returned %s, but %s:%s", c.kind, c.n, g.id, c.out, bad, desc)
			}
		}
		crand.Reader = old
		w.cur = nil
		time.Local = time.UTC
	}
}

// segments looks for where the values of a source that reads ahead come from:
// all from different places.
func (s *sched) segments(desc string) {
	used := map[int]string{}
	for _, g := range s.gs {
		for _, c := range g.calls {
			var want []byte
			switch c.kind {
			case "Uint64":
				if fmt.Sscanf(c.out, "%x", &want); strings.HasPrefix(c.out, "panic") {
					continue
				}
			case "Read":
				if want = c.raw; c.out == "error" || strings.HasPrefix(c.out, "panic") {
					continue
				}
			default:
				continue
			}
			if len(want) < 8 {
				continue
			}
			at := strings.Index(string(s.all), string(want))
			if at < 0 && c.kind == "Uint64" {
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
				at = strings.Index(string(s.all), string(want))
			}
			if at < 0 {
				s.w.violate("P19", "value", "%s of goroutine %d returned %s, which the source never gave in one piece:%s", c.kind, g.id, c.out, desc)
			}
			for i := at; i < at+len(want); i++ {
				if o := used[i]; o != "" {
					s.w.violate("P19", "shared", "%s of goroutine %d returned %s, bytes of which %s got as well:%s", c.kind, g.id, c.out, o, desc)
				}
				used[i] = fmt.Sprintf("%s of goroutine %d", c.kind, g.id)
			}
			s.w.stats["calls_compared"]++
		}
	}
}
