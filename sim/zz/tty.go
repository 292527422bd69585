//go:build go1.23

package zzverifsim

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"syscall"
	"unsafe"
)

// tty is the terminal a simulated process runs on: line discipline, cursor
// reports, and an operator who reads the screen and types.
type tty struct {
	mode       syscall.Termios
	mode0      syscall.Termios // what it was at first
	terminated bool            // a SIGTERM arrived while nobody had asked for it
	rows       uint16
	cols       uint16
	screen     []byte
	echoed     []byte   // lines the terminal showed while they were typed
	mark       int      // what the operator has seen already
	in         [][]byte // keystrokes not read yet
	line       []byte   // line completed in canonical mode
	corner     bool     // the cursor was moved to the far corner
	fast       bool     // keystrokes arrive together
	asked      int      // how often the program waited for the operator
	hup        bool
	killAt     int // the process is killed when it waits for the nth time
	intrAt     int // a signal interrupts that wait
	operator   func(screen string) []string
}

const (
	keyEnter = "\r"
	keyDown  = "\x1b[B"
	keyUp    = "\x1b[A"
	keyLeft  = "\x1b[D"
	keyRight = "\x1b[C"
	keyIntr  = "\x03"
	keyTerm  = "\x00TERM" // not a key: the process is sent SIGTERM
	keyEOT   = "\x04"
	keyDelW  = "\x17"
	keyBack  = "\x7f"
)

func newTTY(operator func(screen string) []string) *tty {
	t := &tty{rows: 24, cols: 80, killAt: -1, intrAt: -1, operator: operator}
	t.mode.Iflag = syscall.ICRNL
	t.mode.Oflag = syscall.OPOST
	t.mode.Lflag = syscall.ICANON | syscall.ECHO | syscall.ISIG
	t.mode.Cc[syscall.VMIN] = 1
	t.mode0 = t.mode
	return t
}

var csi = regexp.MustCompile("\x1b(\\[[0-9;?]*[A-Za-z]|[78])")

// plain removes the escape sequences.
func plainText(b []byte) string { return string(csi.ReplaceAll(b, nil)) }

func (t *tty) write(b []byte) {
	t.screen = append(t.screen, b...)
	if len(t.screen) > 8<<20 {
		n := len(t.screen) - 4<<20
		t.screen = append([]byte(nil), t.screen[n:]...)
		t.mark = max(0, t.mark-n)
	}
	if bytes.Contains(b, []byte("\x1b[999;999f")) {
		t.corner = true
	}
	if bytes.Contains(b, []byte("\x1b8")) {
		t.corner = false
	}
	for i := bytes.Count(b, []byte("\x1b[6n")); i > 0; i-- {
		row, col := int(t.rows)-1, 1
		if t.corner {
			row, col = int(t.rows), int(t.cols)
		}
		t.in = append(t.in, []byte(fmt.Sprintf("\x1b[%d;%dR", row, col)))
	}
}

// read lets the process wait for what the operator types.
func (w *World) ttyRead(p *proc, buf []byte) (int64, syscall.Errno) {
	t := p.tty
	if len(buf) == 0 {
		return 0, 0
	}
	canon := t.mode.Lflag&syscall.ICANON != 0
	for {
		if canon && len(t.line) > 0 {
			n := copy(buf, t.line)
			t.line = t.line[n:]
			return int64(n), 0
		}
		if t.hup {
			return 0, 0
		}
		if len(t.in) == 0 {
			n := t.asked
			t.asked++
			if t.asked > 3000 {
				w.hang(p, "it keeps asking")
			}
			if n == t.killAt {
				w.die(p, &Fault{Kind: fCrash}, "at a prompt")
			}
			if n == t.intrAt {
				t.intrAt = -1
				t.asked--
				p.faulted++
				p.hard = true
				if !p.quiet {
					w.stats["fault.prompt_eintr"]++
				}
				return -1, syscall.EINTR
			}
			s := plainText(t.screen[t.mark:])
			t.mark = len(t.screen)
			w.advance(700_000_000)
			keys := t.operator(s)
			if !p.quiet {
				w.logf("p%d asks %q, the operator %s", p.id, lastLine(s), doing(keys))
			}
			if keys == nil {
				t.hup = true
				return 0, 0
			}
			for _, k := range keys {
				t.in = append(t.in, []byte(k))
			}
			w.stats["keystrokes"] += len(keys)
			continue
		}
		if string(t.in[0]) == keyTerm && !canon {
			t.in = t.in[1:]
			t.terminated = len(p.signals) == 0
			w.signal(p, syscall.SIGTERM)
			continue
		}
		if !canon {
			n := 0
			for len(t.in) > 0 && n+len(t.in[0]) <= len(buf) {
				n += copy(buf[n:], t.in[0])
				t.in = t.in[1:]
				if !t.fast {
					break
				}
			}
			if n == 0 {
				n = copy(buf, t.in[0])
				t.in[0] = t.in[0][n:]
			}
			return int64(n), 0
		}
		// A line at a time.
		var line []byte
		done := false
		for len(t.in) > 0 && !done {
			k := t.in[0]
			t.in = t.in[1:]
			switch string(k) {
			case keyIntr:
				if t.mode.Lflag&syscall.ISIG != 0 {
					w.signal(p, syscall.SIGINT)
				}
			case keyTerm:
				t.terminated = len(p.signals) == 0
				w.signal(p, syscall.SIGTERM)
			case keyEOT:
				if len(line) == 0 {
					return 0, 0
				}
				done = true
			case keyBack:
				if len(line) > 0 {
					line = line[:len(line)-1]
				}
			case "\r", "\n":
				line = append(line, '\n')
				done = true
			default:
				line = append(line, k...)
			}
		}
		if !done {
			line = append(line, '\n')
		}
		t.line = line
		if t.mode.Lflag&syscall.ECHO != 0 {
			t.echoed = append(t.echoed, line...)
		}
	}
}

// kernelTermios is what the kernel reads and writes: the first 36 bytes.
type kernelTermios [36]byte

// sysHook is installed as syscall.SimSyscall: the calls that programs make
// without package os.
func (w *World) sysHook(trap, a1, a2 uintptr, ptr unsafe.Pointer, n uintptr) (uintptr, syscall.Errno, bool) {
	p := w.cur
	if p == nil {
		return 0, 0, false
	}
	fail := ^uintptr(0)
	if p.dead {
		return fail, syscall.EIO, true
	}
	if trap == syscall.SYS_READ {
		r, e, _ := w.stdio(p, &syscall.SimReq{Op: "read", Fd: 0, Buf: unsafe.Slice((*byte)(ptr), int(n))})
		return uintptr(r), e, true
	}
	t := p.tty
	if t == nil || a1 > 2 {
		return fail, syscall.ENOTTY, true
	}
	switch a2 {
	case syscall.TCGETS:
		*(*kernelTermios)(ptr) = *(*kernelTermios)(unsafe.Pointer(&t.mode))
	case syscall.TCSETS, syscall.TCSETS + 1, syscall.TCSETS + 2:
		*(*kernelTermios)(unsafe.Pointer(&t.mode)) = *(*kernelTermios)(ptr)
	case syscall.TIOCGWINSZ:
		*(*[4]uint16)(ptr) = [4]uint16{t.rows, t.cols, 0, 0}
	default:
		return fail, syscall.EINVAL, true
	}
	return 0, 0, true
}

// answer is what the operator does when the screen shows a question.
type answer struct {
	prompt string
	keys   []string
	times  int // how often the answer is given; the last answer stays
}

// answering makes an operator who gives prepared answers. When a question comes
// that was not expected the operator interrupts, and then hangs up.
func answering(as []answer) func(string) []string {
	as = append([]answer(nil), as...)
	lost := 0
	return func(screen string) []string {
		at, best := -1, -1
		for i := range as {
			if as[i].times == 0 {
				continue
			}
			if j := strings.LastIndex(screen, as[i].prompt); j > best {
				at, best = i, j
			}
		}
		if at >= 0 {
			as[at].times--
			return as[at].keys
		}
		lost++
		if lost > 2 {
			return nil
		}
		return []string{keyIntr}
	}
}

func typed(s string) []string {
	var r []string
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

func enter(s string) []string { return append(typed(s), keyEnter) }

// lastLine is what the screen shows last.
func lastLine(s string) string {
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '\n' || r == '\r' })
	for i := len(f) - 1; i >= 0; i-- {
		if x := strings.TrimSpace(f[i]); x != "" {
			if len(x) > 120 {
				x = x[:120]
			}
			return x
		}
	}
	return ""
}

func doing(keys []string) string {
	if keys == nil {
		return "hangs up"
	}
	return fmt.Sprintf("types %q", strings.Join(keys, ""))
}
