//go:build go1.23

package zzverifsim

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/signal"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sa6mwa/krypto431"
)

// Violation is a broken property found in a run.
type Violation struct {
	Prop string `json:"property"`
	Kind string `json:"kind"`
	Msg  string `json:"message"`
}

// addresses in stack traces differ from run to run
var hexArgs = regexp.MustCompile(`[ +]?0x[0-9a-f]+[?]?|[{}]|, `)

type abortRun struct{}

type inPart struct {
	data  []byte
	err   syscall.Errno
	times int
}

// proc is one simulated process.
type proc struct {
	id          int
	name        string
	d           *Disk
	cwd         string
	args        []string
	zone        *time.Location
	plan        *Plan
	ent         *entropy
	stdin       []inPart
	tty         *tty // the terminal it runs on, if any
	stdout      []byte
	stderr      []byte
	outFail     bool
	dead        bool
	deadCalls   int
	nsys        int
	faulted     int
	failedOps   []string
	exited      bool
	code        int
	crashed     *Fault
	interrupted bool // a signal ended it
	crashAt     string
	panicked    string
	fatal       bool
	hung        string
	noFd        bool
	noYield     bool
	finished    bool
	started     bool
	resume      chan struct{}
	body        func()
	lastPath    string
	quiet       bool
	hard        bool // a failure was injected that an operation cannot hide
	printFile   string
	printing    bool // asked to write a print-out
	storePath   string
	gid         uint64 // of the goroutines that belong to it
	signals     []handler
	prompt      chan struct{} // closed when the process ends while it waits at a prompt
	env         []string      // variables of the program
	conc        bool
	t0, t1      int64 // wall clock when it started and ended
	jumped      bool
	nstart      int64
	nend        int64
}

func (p *proc) ok() bool {
	return p.crashed == nil && p.panicked == "" && p.hung == "" && p.code == 0
}

func (p *proc) outcome() string {
	switch {
	case p.hung != "":
		return "hang: " + p.hung
	case p.crashed != nil:
		return "crashed " + p.crashAt
	case p.panicked != "":
		return "panic: " + p.panicked
	}
	return fmt.Sprintf("exit %d", p.code)
}

// World is one simulated execution.
type World struct {
	ch         *Choices
	seed       uint64
	prop       string
	cur        *proc
	conc       bool
	yielded    chan struct{}
	fds        map[int]*ofile
	live       map[uint64]bool // processes that run, by gid
	procs      int
	sec        int64
	nsec       int64
	mono       int64
	frozen     bool
	simNs      int64
	steps      int64
	written    int64
	drawn      int64
	log        []string
	logN       int
	digest     uint64
	shape      uint64 // interleaving / fault / op shape of the run
	bulk       int    // one generate command in this many makes many keys
	rich       bool   // edits of any field
	late       bool   // much of the received traffic comes before its keys
	edits      int    // kinds of library edits beyond the usual ones
	stats      map[string]int
	viol       *Violation
	other      *Violation
	monitor    bool
	samples    []sampleRec
	touch      []touchRec
	modes      []string
	nonces     map[string]string
	poisoned   bool
	entSalt    uint64
	pfkCache   map[string]string
	known      map[string]bool
	knownHit   map[string]int
	stations   []*Station
	letters    []*letter
	atTerminal bool // the operator answers questions
	keepLog    bool
}

type sampleRec struct {
	n      *inode
	path   string
	data   []byte
	writer int
	print  bool
}
type touchRec struct {
	n    *inode
	path string
}

var theWorld *World

func newWorld(prop string, seed uint64, ch *Choices) *World {
	w := &World{ch: ch, seed: seed, prop: prop, fds: map[int]*ofile{}, live: map[uint64]bool{}, stats: map[string]int{}, yielded: make(chan struct{}),
		sec: 1675000000, mono: 1 << 30, digest: 14695981039346656037, shape: 14695981039346656037, nonces: map[string]string{}, knownHit: map[string]int{}}
	w.entSalt = mix(seed + 0x1234567)
	return w
}

func fold(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (w *World) logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	w.digest = fold(w.digest, s)
	w.logN++
	if w.keepLog && len(w.log) < 20000 {
		w.log = append(w.log, s)
	}
}

func (w *World) mixShape(op string, e syscall.Errno) {
	w.shape = fold(w.shape, op)
	if e != 0 {
		w.shape = fold(w.shape, "!")
	}
}

func (w *World) note(f string, a ...any) {
	w.shape = fold(w.shape, f)
	w.logf("# "+f, a...)
}

// violate records a violation of prop and ends the run.
func (w *World) violate(prop, kind, f string, a ...any) {
	// prop may list several properties that the same observation breaks.
	v := &Violation{Prop: prop, Kind: kind, Msg: fmt.Sprintf(f, a...)}
	if len(v.Msg) > 1500 {
		v.Msg = v.Msg[:1500] + "..."
	}
	w.logf("# VIOLATION %s %s: %s", prop, kind, v.Msg)
	if strings.Contains(prop, w.prop) {
		v.Prop = w.prop
		w.viol = v
	} else {
		w.other = v
	}
	panic(abortRun{})
}

// ---- clock ----

func (w *World) simNow() (int64, int32, int64, bool) {
	if w.cur == nil {
		return 0, 0, 0, false
	}
	if !w.frozen {
		w.advance(1000)
	}
	return w.sec, int32(w.nsec), w.mono, true
}

func (w *World) advance(ns int64) {
	w.mono += ns
	w.simNs += ns
	w.nsec += ns
	w.sec += w.nsec / 1e9
	w.nsec %= 1e9
}

// jump steps the wall clock (either way); positive steps are also time passing.
func (w *World) jump(sec int64) {
	w.sec += sec
	if w.sec < 1600000000 {
		w.sec = 1600000000
	}
	w.stats["clock_jump"]++
	w.logf("clock %+d s", sec)
}

// pass lets time go by between operations.
func (w *World) pass(sec int64) {
	w.sec += sec
	w.mono += sec * 1e9
	w.simNs += sec * 1e9
}

func (w *World) now() time.Time { return time.Unix(w.sec, w.nsec) }

// ---- entropy ----

type entropy struct {
	key    uint64
	pos    int
	repeat int
	plan   *Plan
	failed int
	rec    []byte
	record bool
	calls  int
}

func (e *entropy) at(i int) byte {
	if e.repeat > 0 && i < 6*e.repeat {
		i %= e.repeat
	}
	v := mix(e.key + uint64(i/8)*0x9e3779b97f4a7c15)
	if t := e.plan.EntTail; t >= 0 && i >= t {
		v = mix(v + 0x5bd1e995)
	}
	b := byte(v >> (8 * (uint(i) % 8)))
	if h := e.plan.EntHigh; h > 0 && mix(e.key+uint64(i)*0xd1342543de82ef95+1)%100 < uint64(h) {
		b = 255
	}
	if i == e.plan.EntFlip {
		b ^= 0x5a
	}
	return b
}

var errEntropy = errors.New("simulated failure of the random source")

type simReader struct{ w *World }

func (s simReader) Read(b []byte) (int, error) {
	w := s.w
	p := w.cur
	if p == nil || p.ent == nil {
		for i := range b {
			b[i] = byte(mix(uint64(i) + 77))
		}
		return len(b), nil
	}
	e := p.ent
	e.calls++
	if len(b) == 0 {
		return 0, nil
	}
	if e.pos > 24<<20 || e.calls > 6<<20 {
		w.poisoned = true
		w.hang(p, "draws randomness without end")
	}
	n := len(b)
	pl := e.plan
	if pl.EntFailAt >= 0 && e.pos+n > pl.EntFailAt && !(pl.EntFailOnce && e.failed > 0) {
		k := pl.EntFailAt - e.pos
		if k < 0 {
			k = 0
		}
		if k > 0 && k < n {
			// some bytes first, then the failure
			for i := 0; i < k; i++ {
				b[i] = e.at(e.pos + i)
			}
			e.pos += k
			return k, nil
		}
		e.failed++
		p.hard = true
		w.stats["fault.entropy_error"]++
		w.shape = fold(w.shape, "E")
		return 0, errEntropy
	}
	if pl.EntShort && n > 1 && mix(uint64(e.calls)*31+e.key)%3 == 0 {
		n = 1 + int(mix(uint64(e.calls)+e.key)%uint64(n-1))
		w.stats["fault.entropy_short"]++
	}
	for i := 0; i < n; i++ {
		b[i] = e.at(e.pos + i)
	}
	if e.record {
		e.rec = append(e.rec, b[:n]...)
	}
	e.pos += n
	w.drawn += int64(n)
	return n, nil
}

// ---- processes ----

func (w *World) newProc(st *Station, name string, plan *Plan, body func()) *proc {
	if plan == nil {
		plan = noFaults()
	}
	w.procs++
	p := &proc{id: w.procs, name: name, d: st.disk, cwd: home, zone: st.zone, plan: plan, resume: make(chan struct{}), body: body}
	p.ent = &entropy{key: mix(w.entSalt + uint64(w.procs)*0x51ed27 + plan.EntStream*0xabcdef123), plan: plan, repeat: plan.EntRepeat}
	p.args = []string{"krypto431"}
	return p
}

func (w *World) enter(p *proc) {
	w.cur = p
	os.Args = p.args
	setEnv(p.env)
	krypto431.SetMinimumPasswordEntropyBits(krypto431.DefaultMinimumPasswordEntropyBits)
	time.Local = p.zone
}

// start launches the goroutine of p; it runs until it finishes (or yields).
func (w *World) start(p *proc) {
	p.started = true
	p.nstart = w.steps
	lastGid++
	p.gid = lastGid
	w.live[p.gid] = true
	conc := w.conc // not read in the goroutine: it may start late
	go func() {
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil {
					p.panicked = fmt.Sprint(r)
					p.code = 2
					st := string(debug.Stack())
					if i := strings.Index(st, "panic("); i >= 0 {
						st = st[i:]
					}
					st = hexArgs.ReplaceAllString(st, "")
					if len(st) > 1200 {
						st = st[:1200]
					}
					p.stderr = append(p.stderr, []byte("panic: "+p.panicked+"\n"+st)...)
				}
			}
			runtime.SimRand(0)
			if p.finished {
				return // it died in another of its goroutines
			}
			w.finish(p)
			w.yielded <- struct{}{}
		}()
		if conc {
			<-p.resume
			if p.dead {
				runtime.Goexit()
			}
		}
		runtime.SimRand(mix(p.ent.key^0x5eed) | 1)
		runtime.SimProcess(p.gid)
		p.body()
		normal = true
	}()
}

var lastGid uint64

// finish cleans up after a process.
func (w *World) finish(p *proc) {
	delete(w.live, p.gid)
	for fd, f := range w.fds {
		if f.p == p {
			delete(w.fds, fd)
			if f.n.locked == p {
				f.n.locked = nil
			}
		}
	}
	p.dead = true
	p.finished = true
	p.nend = w.steps
}

// leave ends the process in the middle of what the calling goroutine does.
func (w *World) leave(p *proc) {
	if id, first := runtime.SimProc(); id == p.gid && !first {
		// Another goroutine of the process: all of them stop where they are.
		if c := p.prompt; c != nil {
			p.prompt = nil
			p.dead = true
			close(c)
			select {}
		}
		w.finish(p)
		w.yielded <- struct{}{}
		select {}
	}
	runtime.Goexit()
}

// handler is a channel that is told of signals.
type handler struct {
	c   chan<- os.Signal
	sig []os.Signal
}

// signal sends the process a signal while it waits at a prompt: what it has
// asked for is told, and it may end itself; otherwise the signal kills it.
func (w *World) signal(p *proc, s os.Signal) {
	told := false
	gone := make(chan struct{})
	p.prompt = gone
	for _, h := range append([]handler(nil), p.signals...) {
		for _, x := range h.sig {
			if x == s {
				told = true
				select {
				case h.c <- s:
				default:
				}
			}
		}
	}
	if !told {
		p.prompt = nil
		p.interrupted = true
		w.die(p, &Fault{Kind: fCrash}, "at a prompt ("+s.String()+")")
	}
	w.stats["signal_handled"]++
	t := time.NewTimer(3 * time.Second)
	select {
	case <-gone:
		t.Stop()
		p.interrupted = true
		w.leave(p)
	case <-t.C:
		p.prompt = nil // it goes on
	}
}

// ghost tells whether the calling goroutine is left over from a process that
// has ended.
func (w *World) ghost() bool {
	id, _ := runtime.SimProc()
	return id != 0 && (w.cur == nil || w.cur.gid != id) && !w.live[id]
}

// run executes one process alone.
func (w *World) run(p *proc) *proc {
	w.advance(50000)
	p.t0 = w.sec*1e9 + w.nsec
	j := w.stats["clock_jump"]
	w.enter(p)
	w.start(p)
	<-w.yielded
	w.cur = nil
	p.t1 = w.sec*1e9 + w.nsec
	p.jumped = w.stats["clock_jump"] != j
	time.Local = time.UTC
	if p.crashed != nil && p.crashed.Power {
		w.powerLoss(p.d)
	}
	p.d.unlockAll()
	if t := p.tty; t != nil && t.mode != t.mode0 && (p.crashed == nil || p.interrupted) && p.panicked == "" && p.hung == "" && !t.terminated {
		w.violate("P24,P25", "terminal", "%s (%s) left the terminal in another mode: %x instead of %x", p.name, p.outcome(), t.mode.Lflag, t.mode0.Lflag)
	}
	if !p.quiet {
		w.logf("p%d %s: %s, %d file operations, %d random bytes", p.id, p.name, p.outcome(), p.nsys, p.ent.pos)
		w.shape = fold(w.shape, p.outcome())
	}
	if w.poisoned {
		panic(abortRun{})
	}
	return p
}

func (w *World) powerLoss(d *Disk) {
	desc := d.PowerLoss(w.ch)
	d.walk(func(_ string, n *inode) { n.writer = 0 })
	w.stats["power_loss"]++
	w.logf("power loss on %s: %s", d.name, desc)
	w.shape = fold(w.shape, desc)
}

// heal ends all standing disk faults.
func (d *Disk) heal() { d.full, d.readonly, d.bad, d.flushLoss = false, false, false, false }

func (w *World) yieldProc(p *proc) {
	w.cur = nil
	w.yielded <- struct{}{}
	<-p.resume
	if p.dead {
		w.leave(p)
	}
}

// runConc interleaves processes at every file operation; pick chooses who runs
// next among the runnable ones (and may mark some dead first).
func (w *World) runConc(procs []*proc, pick func(runnable []*proc) *proc) {
	w.conc = true
	jumps := w.stats["clock_jump"]
	for _, p := range procs {
		w.start(p)
	}
	for {
		var r []*proc
		for _, p := range procs {
			if !p.finished {
				r = append(r, p)
			}
		}
		if len(r) == 0 {
			break
		}
		p := pick(r)
		w.advance(20000)
		if p.t0 == 0 {
			p.t0 = w.sec*1e9 + w.nsec
		}
		w.enter(p)
		p.resume <- struct{}{}
		<-w.yielded
		w.cur = nil
		p.t1 = w.sec*1e9 + w.nsec
	}
	w.conc = false
	time.Local = time.UTC
	for _, p := range procs {
		p.d.unlockAll()
		p.jumped = w.stats["clock_jump"] != jumps
		w.logf("p%d %s: %s", p.id, p.name, p.outcome())
	}
	if w.poisoned {
		panic(abortRun{})
	}
}

func (w *World) die(p *proc, f *Fault, where string) {
	p.dead = true
	p.crashed = f
	p.crashAt = where
	w.stats["crash"]++
	w.leave(p)
}

func (w *World) hang(p *proc, why string) {
	p.hung = why
	p.dead = true
	w.leave(p)
}

func (w *World) simExit(code int) {
	p := w.cur
	if p == nil {
		return
	}
	if !p.dead {
		p.exited = true
		p.code = code
		p.dead = true
	}
	w.leave(p)
}

func (w *World) install() {
	theWorld = w
	syscall.SimHook = w.hook
	syscall.SimSyscall = w.sysHook
	time.SimNow = w.simNow
	os.SimExit = w.simExit
	os.SimRandom = func() (uint64, bool) {
		if w.cur == nil {
			return 0, false
		}
		h := fnv.New64a()
		fmt.Fprint(h, w.cur.id, w.steps, w.seed)
		return h.Sum64(), true
	}
	os.SimPid = func() (int, bool) {
		if w.cur == nil {
			return 0, false
		}
		return 1000 + w.cur.id, true
	}
	signal.SimNotify = func(c chan<- os.Signal, sig []os.Signal) bool {
		p := w.cur
		if p == nil {
			return false
		}
		if len(sig) == 0 {
			sig = []os.Signal{syscall.SIGINT, syscall.SIGTERM}
		}
		p.signals = append(p.signals, handler{c, append([]os.Signal(nil), sig...)})
		return true
	}
	signal.SimStop = func(c chan<- os.Signal) bool {
		p := w.cur
		if p == nil {
			return false
		}
		var l []handler
		for _, h := range p.signals {
			if h.c != c {
				l = append(l, h)
			}
		}
		p.signals = l
		return true
	}
	crand.Reader = simReader{w}
	crand.SimFatal = func() {
		if p := w.cur; p != nil {
			p.panicked = "crypto/rand failed (fatal)"
			p.fatal = true
			p.code = 2
			p.dead = true
			w.cur.dead = true
			w.leave(p)
		}
	}
}

func uninstall() {
	// Whatever still runs of the simulated processes must not reach the real system.
	syscall.SimHook = func(r *syscall.SimReq) (int64, syscall.Errno, bool) {
		if id, _ := runtime.SimProc(); id != 0 {
			select {}
		}
		return 0, 0, false
	}
	syscall.SimSyscall = nil
	time.SimNow = nil
	os.SimExit = nil
	os.SimRandom = nil
	os.SimPid = nil
	signal.SimNotify, signal.SimStop = nil, nil
	sync.SimLock = nil
	sync.SimUnlock = nil
}
