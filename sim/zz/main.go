//go:build go1.23

package zzverifsim

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Scenario is what one run of a property does.
type Scenario struct {
	run   func(w *World)
	shape string // what counts as a distinct case
	level string
	hangs bool // a run that never ends breaks the property
}

type runResult struct {
	viol    *Violation
	other   *Violation
	digest  uint64
	shape   uint64
	stats   map[string]int
	simNs   int64
	steps   int64
	written int64
	drawn   int64
	known   map[string]int
	log     []string
	rec     []uint32
	procs   int
}

var knownFindings []knownFinding

type knownFinding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

// runWorld executes one simulated run.
func runWorld(prop string, seed uint64, ch *Choices, keepLog bool) (res runResult) {
	sc := scenarios[prop]
	w := newWorld(prop, seed, ch)
	w.keepLog = keepLog
	nextFd = fdBase
	w.install()
	defer func() {
		r := recover()
		uninstall()
		if r != nil {
			if _, ok := r.(abortRun); !ok {
				fmt.Fprintf(os.Stderr, "harness failure, property %s seed %d: %v\n%s\n", prop, seed, r, debug.Stack())
				os.Exit(4)
			}
		}
		if v := w.viol; v != nil {
			for _, k := range knownFindings {
				if k.Status == "known" && k.Property == v.Prop && (k.Kind == "" || k.Kind == v.Kind) && strings.Contains(v.Msg, k.Match) {
					w.viol = nil
					w.knownHit[k.What]++
				}
			}
		}
		res = runResult{viol: w.viol, other: w.other, digest: w.digest, shape: w.shape, stats: w.stats, simNs: w.simNs, steps: w.steps, written: w.written, drawn: w.drawn, known: w.knownHit, log: w.log, rec: ch.rec, procs: w.procs}
	}()
	sc.run(w)
	return
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Digest   string   `json:"digest"`
	Hang     bool     `json:"hang,omitempty"`
	Prelude  []uint64 `json:"prelude,omitempty"` // seeds run before in the same process
	Choices  []uint32 `json:"choices"`
	Trace    []string `json:"trace"`
}

// heartbeat shared with the parent through a mapped file: run counter and seed.
var beat *[2]uint64

func mapBeat(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return
	}
	f.Truncate(16)
	b, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
	if err == nil {
		beat = (*[2]uint64)(unsafe.Pointer(&b[0]))
	}
}

// strict makes any deviation from exact repeatability an error (VERIF_STRICT=1,
// used on the unchanged tree; a changed tree may have randomness of its own).
var strict = os.Getenv("VERIF_STRICT") != ""

func seedOf(base uint64, i int) uint64 { return mix(base*0x9e3779b97f4a7c15+77)>>8<<24 + uint64(i) }

type workerMsg struct {
	Runs    int            `json:"runs"`
	Stats   map[string]int `json:"stats"`
	SimNs   int64          `json:"sim_ns"`
	Steps   int64          `json:"steps"`
	Written int64          `json:"written"`
	Drawn   int64          `json:"drawn"`
	Procs   int            `json:"procs"`
	Shapes  []uint64       `json:"shapes"`
	Known   map[string]int `json:"known"`
	Digests []string       `json:"digests"` // of the first runs
	Viol    *Violation     `json:"viol"`
	Seed    uint64         `json:"seed"`
	Prelude []uint64       `json:"prelude"`
	Choices []uint32       `json:"choices"`
	Others  map[string]int `json:"others"`
	Samples []string       `json:"samples"`
	Done    bool           `json:"done"`
}

func settle() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(2)
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(9, &lim) // RLIMIT_AS
	null, err := os.Open("/dev/null")
	if err == nil {
		syscall.Dup3(int(null.Fd()), 0, 0)
	}
	// Options must not come from the environment of the check.
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "KRYPTO") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("HOME", home)
	os.Unsetenv("TMPDIR")
	os.Unsetenv("TZ")
	time.Local = time.UTC
	warmUp()
	// One run before any other, so that lazily made state of the libraries
	// (gob types, fonts) is there in every process alike.
	w := newWorld("warm", 1, newChoices(1))
	nextFd = fdBase
	w.install()
	func() {
		defer func() { recover() }()
		warmRun(w)
	}()
	uninstall()
}

func worker(prop string, base uint64, first, stride int, dur time.Duration, maxRuns int, beatFile string) {
	settle()
	mapBeat(beatFile)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	end := time.Now().Add(dur)
	m := workerMsg{Stats: map[string]int{}, Known: map[string]int{}, Others: map[string]int{}}
	var seeds []uint64
	last := time.Now()
	flush := func() {
		enc.Encode(&m)
		out.Flush()
		m = workerMsg{Stats: map[string]int{}, Known: map[string]int{}, Others: map[string]int{}}
		last = time.Now()
	}
	for i := 0; (maxRuns == 0 || i < maxRuns) && (i < 2 || time.Now().Before(end)); i++ {
		s := seedOf(base, first+i*stride)
		if beat != nil {
			beat[1] = s
			beat[0]++
		}
		r := runWorld(prop, s, newChoices(s), false)
		m.Runs++
		for k, v := range r.stats {
			m.Stats[k] += v
		}
		for k, v := range r.known {
			m.Known[k] += v
		}
		m.SimNs += r.simNs
		m.Steps += r.steps
		m.Written += r.written
		m.Drawn += r.drawn
		m.Procs += r.procs
		m.Shapes = append(m.Shapes, r.shape)
		if i < 40 {
			m.Digests = append(m.Digests, fmt.Sprintf("%x:%016x", s, r.digest))
		}
		if r.other != nil {
			k := r.other.Prop + " " + r.other.Kind
			m.Others[k]++
			if m.Others[k] == 1 {
				m.Samples = append(m.Samples, fmt.Sprintf("%s %s seed %d: %.600s", r.other.Prop, r.other.Kind, s, r.other.Msg))
			}
		}
		if r.viol != nil {
			m.Viol, m.Seed, m.Choices = r.viol, s, r.rec
			m.Prelude = seeds
			break
		}
		seeds = append(seeds, s)
		if len(seeds) > 4096 {
			seeds = seeds[1:]
		}
		if time.Since(last) > 500*time.Millisecond {
			flush()
		}
	}
	m.Done = true
	flush()
	os.Exit(0)
}

// tryMode runs replay candidates read from stdin, one JSON object per line,
// one answer per line. Each candidate gets its own process (the parent starts
// one per candidate), so nothing carries over.
type tryReq struct {
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	Prelude []uint64 `json:"prelude"`
	Choices []uint32 `json:"choices"`
	Free    bool     `json:"free"` // draw from the seed instead of replaying
}

type tryResp struct {
	Viol   *Violation `json:"viol"`
	Digest string     `json:"digest"`
	Log    []string   `json:"log"`
	Rec    []uint32   `json:"rec"`
	Other  *Violation `json:"other"`
}

func tryMode() {
	var rq tryReq
	if json.NewDecoder(os.Stdin).Decode(&rq) != nil {
		os.Exit(5)
	}
	settle()
	for _, s := range rq.Prelude {
		runWorld(rq.Prop, s, newChoices(s), false)
	}
	ch := replayChoices(rq.Seed, rq.Choices)
	if rq.Free {
		ch = newChoices(rq.Seed)
	}
	r := runWorld(rq.Prop, rq.Seed, ch, true)
	json.NewEncoder(os.Stdout).Encode(&tryResp{r.viol, fmt.Sprintf("%016x", r.digest), r.log, r.rec, r.other})
	os.Exit(0)
}

// try runs one candidate in a fresh process. hang: it did not end in time;
// died: the process was lost.
func try(rq tryReq, limit time.Duration) (rs *tryResp, hang, died bool, note string) {
	b, _ := json.Marshal(&rq)
	cmd := exec.Command(self(), "try")
	cmd.Stdin = bytes.NewReader(b)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if cmd.Start() != nil {
		return nil, false, true, "cannot start"
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Signal(syscall.SIGKILL)
		<-done
		return nil, true, false, "no end within " + limit.String()
	}
	var r tryResp
	if json.Unmarshal(out.Bytes(), &r) != nil {
		s := er.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return nil, false, true, s
	}
	return &r, false, false, ""
}

func self() string { p, _ := os.Executable(); return p }

// minimise shrinks the choice list of a violation.
func minimise(rq tryReq, want *Violation, budget time.Duration) ([]uint32, *tryResp) {
	end := time.Now().Add(budget)
	cur := append([]uint32(nil), rq.Choices...)
	var best *tryResp
	sem := 6
	// test runs several candidates at once and returns the first that still fails.
	test := func(cands [][]uint32) int {
		res := make([]*tryResp, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				q := rq
				q.Choices = cands[i]
				res[i], _, _, _ = try(q, 20*time.Second)
			}(i)
		}
		wg.Wait()
		for i, r := range res {
			if r != nil && r.Viol != nil && r.Viol.Kind == want.Kind {
				best = r
				return i
			}
		}
		return -1
	}
	trim := func() {
		for len(cur) > 0 && cur[len(cur)-1] == 0 {
			cur = cur[:len(cur)-1]
		}
	}
	trim()
	for pass := 0; pass < 3 && time.Now().Before(end); pass++ {
		before := fmt.Sprint(cur)
		// remove or zero ever smaller chunks
		for size := len(cur); size >= 1 && time.Now().Before(end); size /= 2 {
			for at := 0; at < len(cur) && time.Now().Before(end); {
				var cands [][]uint32
				var pos []int
				for j := at; j < len(cur) && len(cands)+1 < sem; j += size {
					e := min(len(cur), j+size)
					del := append(append([]uint32(nil), cur[:j]...), cur[e:]...)
					z := append([]uint32(nil), cur...)
					nz := false
					for x := j; x < e; x++ {
						nz = nz || z[x] != 0
						z[x] = 0
					}
					cands = append(cands, del)
					pos = append(pos, j)
					if nz {
						cands = append(cands, z)
						pos = append(pos, j)
					}
				}
				if len(cands) == 0 {
					break
				}
				if k := test(cands); k >= 0 {
					cur = cands[k]
					at = pos[k]
				} else {
					at = pos[len(pos)-1] + size
				}
			}
		}
		// smaller values
		for at := 0; at < len(cur) && time.Now().Before(end); at++ {
			for cur[at] > 0 && time.Now().Before(end) {
				var cands [][]uint32
				for _, v := range []uint32{cur[at] / 4, cur[at] / 2, cur[at] - 1} {
					z := append([]uint32(nil), cur...)
					z[at] = v
					cands = append(cands, z)
				}
				k := test(cands)
				if k < 0 {
					break
				}
				cur = cands[k]
			}
		}
		trim()
		if fmt.Sprint(cur) == before {
			break
		}
	}
	return cur, best
}

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.TrimSpace(l) != "" && json.Unmarshal([]byte(l), &k) == nil {
			knownFindings = append(knownFindings, k)
		}
	}
}

// Main is called from the init function of the instrumented program.
func Main(fn func()) {
	mainFn = fn
	if len(os.Args) < 2 {
		os.Exit(64)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet("vsim", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	secs := fs.Float64("secs", 20, "")
	runs := fs.Int("runs", 0, "")
	first := fs.Int("first", 0, "")
	stride := fs.Int("stride", 1, "")
	beatFile := fs.String("beat", "", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "quick", "")
	workers := fs.Int("workers", 8, "")
	one := fs.Uint64("one", 0, "")
	fs.Parse(os.Args[2:])
	loadKnown(filepath.Join(*verif, "known_findings.jsonl"))
	os.Setenv("VERIF_DIR", *verif)
	switch mode {
	case "worker":
		worker(*prop, *seed, *first, *stride, time.Duration(*secs*float64(time.Second)), *runs, *beatFile)
	case "try":
		loadKnown(filepath.Join(os.Getenv("VERIF_DIR"), "known_findings.jsonl"))
		tryMode()
	case "one":
		settle()
		r := runWorld(*prop, *one, newChoices(*one), true)
		fmt.Println(strings.Join(r.log, "\n"))
		fmt.Printf("violation %+v\nother %+v\nstats %v\n", r.viol, r.other, r.stats)
	case "replay":
		os.Exit(replayFile(fs.Arg(0)))
	case "check":
		os.Exit(check(*prop, *tier, *seed, *secs, *workers, *verif))
	case "list":
		var l []string
		for p := range scenarios {
			l = append(l, p)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	}
	os.Exit(0)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	var r Replay
	if err != nil || json.Unmarshal(b, &r) != nil {
		fmt.Fprintln(os.Stderr, "cannot read", path)
		return 2
	}
	rs, hang, died, note := try(tryReq{Prop: r.Property, Seed: r.Seed, Prelude: r.Prelude, Choices: r.Choices}, 90*time.Second)
	if hang || died {
		fmt.Println("the run was lost:", note)
		if r.Hang {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
			return 1
		}
		return 3
	}
	fmt.Println(strings.Join(rs.Log, "\n"))
	if rs.Viol == nil {
		fmt.Println("the violation does not occur")
		return 0
	}
	fmt.Println(rs.Viol.Kind+":", rs.Viol.Msg)
	if rs.Digest != r.Digest || rs.Viol.Msg != r.Message {
		fmt.Println("a violation occurs, but the run differs from the recorded one: the code under test has changed")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

type agg struct {
	workerMsg
	shapes map[uint64]bool
}

// check is the parent: it spreads the runs over worker processes, confirms and
// minimises what they find, and writes the evidence.
func check(prop, tier string, seed uint64, secs float64, workers int, verif string) int {
	sc, ok := scenarios[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	began := time.Now()
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	type ev struct {
		w    int
		m    *workerMsg
		err  string
		gone bool
	}
	evs := make(chan ev, 100)
	cmds := make([]*exec.Cmd, workers)
	beats := make([]string, workers)
	spawn := func(i, firstIdx int, dur float64) {
		beats[i] = filepath.Join(tmp, fmt.Sprint("beat", i, "_", firstIdx))
		c := exec.Command(self(), "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(dur), "-first", fmt.Sprint(firstIdx), "-stride", fmt.Sprint(workers), "-beat", beats[i], "-verif", verif)
		pr, _ := c.StdoutPipe()
		var er bytes.Buffer
		c.Stderr = &er
		cmds[i] = c
		if err := c.Start(); err != nil {
			evs <- ev{i, nil, err.Error(), true}
			return
		}
		go func() {
			d := json.NewDecoder(pr)
			done := false
			for {
				var m workerMsg
				if d.Decode(&m) != nil {
					break
				}
				done = done || m.Done
				evs <- ev{w: i, m: &m}
			}
			io.Copy(io.Discard, pr)
			e := c.Wait()
			s := ""
			if !done {
				s = er.String()
				if f := os.Getenv("VSIM_DUMP"); f != "" && er.Len() > 0 {
					os.WriteFile(f, er.Bytes(), 0644)
				}
				if len(s) > 2000 {
					s = s[:2000]
				}
				s = fmt.Sprint(e, ": ", s)
			}
			evs <- ev{i, nil, s, true}
		}()
	}
	for i := 0; i < workers; i++ {
		spawn(i, i, secs)
	}
	var tot agg
	tot.Stats, tot.Known, tot.Others = map[string]int{}, map[string]int{}, map[string]int{}
	tot.shapes = map[uint64]bool{}
	var samples []string
	var digests []string
	alive := workers
	lastBeat := make([]uint64, workers)
	lastMove := make([]time.Time, workers)
	for i := range lastMove {
		lastMove[i] = time.Now()
	}
	lost := map[int]uint64{}
	var viol *workerMsg
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	readBeat := func(i int) (uint64, uint64) {
		b, err := os.ReadFile(beats[i])
		if err != nil || len(b) < 16 {
			return 0, 0
		}
		return binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
	}
	const stall = 45 * time.Second
	var lostSeed uint64
	var lostNote string
	isLost := false
	for alive > 0 {
		select {
		case e := <-evs:
			if e.m != nil {
				m := e.m
				tot.Runs += m.Runs
				tot.SimNs += m.SimNs
				tot.Steps += m.Steps
				tot.Written += m.Written
				tot.Drawn += m.Drawn
				tot.Procs += m.Procs
				for k, v := range m.Stats {
					tot.Stats[k] += v
				}
				for k, v := range m.Known {
					tot.Known[k] += v
				}
				for k, v := range m.Others {
					tot.Others[k] += v
				}
				for _, s := range m.Shapes {
					tot.shapes[s] = true
				}
				for _, s := range m.Samples {
					if len(samples) < 12 {
						samples = append(samples, s)
					}
				}
				if e.w == 0 {
					digests = append(digests, m.Digests...)
				}
				if m.Viol != nil && (viol == nil || m.Seed < viol.Seed) {
					viol = m
				}
			}
			if e.gone {
				alive--
				if e.err != "" && viol == nil && !isLost {
					_, s := readBeat(e.w)
					isLost, lostSeed, lostNote = true, s, e.err
				}
			}
			if viol != nil || isLost {
				for _, c := range cmds {
					c.Process.Signal(syscall.SIGKILL)
				}
			}
		case <-tick.C:
			for i := range cmds {
				n, s := readBeat(i)
				if n != lastBeat[i] {
					lastBeat[i] = n
					lastMove[i] = time.Now()
				} else if time.Since(lastMove[i]) > stall && cmds[i].ProcessState == nil {
					lost[i] = s
					if !isLost && viol == nil {
						isLost, lostSeed, lostNote = true, s, "no progress"
					}
					cmds[i].Process.Signal(syscall.SIGKILL)
				}
			}
		}
	}
	code := 0
	nviol := 0
	emit := func(r *Replay) {
		dir := filepath.Join(verif, "build", "replays")
		os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, r.Seed))
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(f, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		for _, l := range tailOf(r.Trace, 60) {
			fmt.Println("  ", l)
		}
		fmt.Printf("%s: %s\n", r.Kind, r.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		nviol++
		code = 1
	}
	if viol == nil && isLost {
		// Was it the code under test? Run the seed again, twice, alone.
		lim := stall
		bad := 0
		for k := 0; k < 2; k++ {
			rs, hang, died, note := try(tryReq{Prop: prop, Seed: lostSeed, Free: true}, lim)
			if hang || died {
				bad++
				lostNote = note
			} else if rs.Viol != nil {
				viol = &workerMsg{Viol: rs.Viol, Seed: lostSeed, Choices: rs.Rec}
			}
		}
		if bad == 2 && (sc.hangs || strings.Contains(lostNote, "fatal error")) && !strings.Contains(lostNote, "harness failure") {
			emit(&Replay{Property: prop, Seed: lostSeed, Kind: "hang", Message: "the run never ends or kills the process: " + lostNote, Hang: true})
		} else if viol == nil {
			fmt.Fprintf(os.Stderr, "a worker was lost at seed %d (%d of 2 reruns alike): %s\n", lostSeed, bad, lostNote)
			if bad > 0 || strict {
				code = 3
			}
		}
	}
	if viol != nil {
		rq := tryReq{Prop: prop, Seed: viol.Seed, Choices: viol.Choices}
		rs, _, _, _ := try(rq, 60*time.Second)
		if rs == nil || rs.Viol == nil {
			// State left by earlier runs in the same process matters.
			for n := 1; ; n *= 4 {
				rq.Prelude = viol.Prelude[max(0, len(viol.Prelude)-n):]
				rs, _, _, _ = try(rq, 300*time.Second)
				if rs != nil && rs.Viol != nil || n >= len(viol.Prelude) {
					break
				}
			}
		}
		for n := 0; n < 20 && (rs == nil || rs.Viol == nil); n++ {
			// The code under test has a randomness of its own.
			rq.Prelude = nil
			rs, _, _, _ = try(rq, 60*time.Second)
		}
		if rs == nil || rs.Viol == nil {
			fmt.Fprintf(os.Stderr, "seed %d reported %s %s once but does not reproduce it: %s\n", viol.Seed, viol.Viol.Prop, viol.Viol.Kind, viol.Viol.Msg)
			code = 3
		} else {
			budget := 25 * time.Second
			if len(rq.Prelude) > 0 {
				budget = 40 * time.Second
			}
			if tier == "thorough" {
				budget *= 2
			}
			ch, best := minimise(rq, rs.Viol, budget)
			rq.Choices = ch
			fin, _, _, _ := try(rq, 60*time.Second)
			if fin == nil || fin.Viol == nil {
				fin, rq.Choices = rs, viol.Choices
			}
			_ = best
			again, _, _, _ := try(rq, 60*time.Second)
			if again == nil || again.Digest != fin.Digest {
				fmt.Fprintf(os.Stderr, "seed %d: the replay is not exact\n", viol.Seed)
			}
			emit(&Replay{Property: prop, Seed: viol.Seed, Kind: fin.Viol.Kind, Message: fin.Viol.Msg, Digest: fin.Digest, Prelude: rq.Prelude, Choices: rq.Choices, Trace: fin.Log})
		}
	}
	// Determinism: the first runs of worker 0 once more in a fresh process.
	nd, cmpd := 0, 0
	if code == 0 {
		n := min(len(digests), 40)
		c := exec.Command(self(), "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", "60", "-runs", fmt.Sprint(n), "-first", "0", "-stride", fmt.Sprint(workers), "-beat", filepath.Join(tmp, "again"), "-verif", verif)
		o, _ := c.Output()
		var again []string
		d := json.NewDecoder(bytes.NewReader(o))
		for {
			var m workerMsg
			if d.Decode(&m) != nil {
				break
			}
			again = append(again, m.Digests...)
		}
		for i := 0; i < n && i < len(again); i++ {
			cmpd++
			if again[i] != digests[i] {
				nd++
				fmt.Fprintf(os.Stderr, "run %s is not deterministic (%s)\n", digests[i], again[i])
			}
		}
		if nd > 0 && strict {
			code = 3
		}
	}
	for _, k := range knownFindings {
		if k.Status == "known" && k.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	wall := time.Since(began).Seconds()
	faults := map[string]int{}
	ops := map[string]int{}
	rest := map[string]int{}
	for k, v := range tot.Stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "op."):
			ops[k[3:]] = v
		default:
			rest[k] = v
		}
	}
	if len(samples) == 0 {
		samples = []string{fmt.Sprintf("seed %d (run 0), digest %s", seedOf(seed, 0), strings.Join(digests[:min(1, len(digests))], ""))}
	}
	evd := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": sc.level,
		"coverage": map[string]any{
			"evaluations": tot.Runs, "distinct_nontrivial": len(tot.shapes), "rule": "a run is distinct when " + sc.shape, "samples": samples,
			"simulated_runs": tot.Runs, "seeds_per_hour": int(float64(tot.Runs) / secs * 3600), "simulated_seconds": tot.SimNs / 1e9,
			"simulated_processes": tot.Procs, "file_operations": tot.Steps, "bytes_written": tot.Written, "random_bytes_drawn": tot.Drawn,
			"faults_injected": faults, "operations": ops, "counters": rest, "other_properties_seen": tot.Others,
			"determinism_reruns": cmpd, "determinism_mismatches": nd, "known_findings_hit": tot.Known,
			"real_components": "the whole library and command-line program from /repo's working tree with all its dependencies (urfave/cli, gob, gzip, go-crypto stream, gopdf) and the Go standard library above the system-call layer",
			"stub_components": "kernel file system, clocks, random source, process exit, terminal (a virtual one in P24 and P25, a pipe elsewhere)",
		},
		"assumptions": []string{
			"the simulated file system behaves as POSIX asks, with ordered or unordered metadata journalling; a power loss keeps an arbitrary legal part of what was not flushed",
			"processes interleave at file operations; a process is never stopped between two of them at a point that matters to others",
			"nothing is concluded about executions that were not drawn",
		},
		"wall_s": wall, "violations": nviol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(evd, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d runs, %d distinct, %d s simulated, %.0f s\n", prop, tot.Runs, len(tot.shapes), tot.SimNs/1e9, wall)
	return code
}

func tailOf(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}
