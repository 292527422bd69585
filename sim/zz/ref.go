//go:build go1.23

package zzverifsim

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"golang.org/x/crypto/nacl/secretbox"
)

// Reference model: plain values, independent of the code under test.

type KeySnap struct {
	Id, Runes string
	Keepers   []string
	Created   int64
	Expires   int64
	Used      bool
	Comp      bool
	Comment   string
}

type MsgSnap struct {
	Id, From, KeyId, Plain, Cipher, Radio, Bin string
	To                                         []string
	DTG                                        int64
}

type Snap struct {
	GS, KL, Col, KCol int
	Call              string
	Keys              []KeySnap
	Msgs              []MsgSnap
}

func strs(r [][]rune) []string {
	s := make([]string, 0, len(r))
	for _, x := range r {
		s = append(s, string(x))
	}
	return s
}

func keySnap(k *krypto431.Key) KeySnap {
	s := KeySnap{Id: string(k.Id), Runes: string(k.Runes), Keepers: strs(k.Keepers), Created: k.Created.UnixNano(), Expires: k.Expires.UnixNano(), Used: k.Used, Comp: k.Compromised, Comment: string(k.Comment)}
	sort.Strings(s.Keepers)
	return s
}

func msgSnap(m *krypto431.Message) MsgSnap {
	return MsgSnap{Id: string(m.Id), From: string(m.From), KeyId: string(m.KeyId), Plain: string(m.PlainText), Cipher: string(m.CipherText), Radio: string(m.Radiogram), Bin: string(m.Binary), To: strs(m.Recipients), DTG: m.DTG.UnixNano()}
}

func snapOf(k *krypto431.Krypto431) *Snap {
	s := &Snap{GS: k.GroupSize, KL: k.KeyLength, Col: k.Columns, KCol: k.KeyColumns, Call: string(k.CallSign)}
	for i := range k.Keys {
		s.Keys = append(s.Keys, keySnap(&k.Keys[i]))
	}
	for i := range k.Messages {
		s.Msgs = append(s.Msgs, msgSnap(&k.Messages[i]))
	}
	return s
}

func (s *Snap) clone() *Snap {
	c := *s
	c.Keys = append([]KeySnap(nil), s.Keys...)
	c.Msgs = append([]MsgSnap(nil), s.Msgs...)
	return &c
}

func (k KeySnap) canon() string {
	return fmt.Sprintf("%s letters %s keepers %+q created %d expires %d used %v compromised %v comment %+q", k.Id, k.Runes, k.Keepers, k.Created, k.Expires, k.Used, k.Comp, k.Comment)
}

func (m MsgSnap) canon() string {
	return fmt.Sprintf("%s from %+q to %+q dtg %d key %q text %+q cipher %+q raw %+q bin %+q", m.Id, m.From, m.To, m.DTG, m.KeyId, m.Plain, m.Cipher, m.Radio, m.Bin)
}

func (k KeySnap) canonNoUse() string { k.Used = false; return k.canon() }

func (s *Snap) lines() []string {
	r := []string{fmt.Sprintf("settings %d %d %d %d %s", s.GS, s.KL, s.Col, s.KCol, s.Call)}
	for _, k := range s.Keys {
		r = append(r, "key "+k.canon())
	}
	for _, m := range s.Msgs {
		r = append(r, "msg "+m.canon())
	}
	sort.Strings(r)
	return r
}

func (s *Snap) canon() string {
	if s == nil {
		return "<none>"
	}
	return strings.Join(s.lines(), "\n")
}

func (s *Snap) short() string {
	if s == nil {
		return "no store"
	}
	u := 0
	for _, k := range s.Keys {
		if k.Used {
			u++
		}
	}
	return fmt.Sprintf("%d keys (%d used), %d messages", len(s.Keys), u, len(s.Msgs))
}

func (s *Snap) key(id string) *KeySnap {
	for i := range s.Keys {
		if s.Keys[i].Id == id {
			return &s.Keys[i]
		}
	}
	return nil
}

func (s *Snap) msg(id string) *MsgSnap {
	for i := range s.Msgs {
		if s.Msgs[i].Id == id {
			return &s.Msgs[i]
		}
	}
	return nil
}

// diff describes the first differences between two snapshots ("" = equal).
func diff(want, got *Snap) string {
	if want == nil || got == nil {
		if want == got {
			return ""
		}
		return fmt.Sprintf("want %s, got %s", want.short(), got.short())
	}
	a, b := want.lines(), got.lines()
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	var miss, extra []string
	for _, x := range a {
		if m[x] > 0 {
			miss = append(miss, x)
			m[x]--
		}
	}
	for _, x := range b {
		if m[x] < 0 {
			extra = append(extra, x)
			m[x]++
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	cut := func(v []string) string {
		n := len(v)
		if n > 2 {
			v = v[:2]
		}
		return fmt.Sprintf("%d: %s", n, strings.Join(v, " | "))
	}
	return "missing " + cut(miss) + "; unexpected " + cut(extra)
}

// ---- the cipher, independently ----

const refCT1 = "ABCDEFGHIJKLMNOP RSTUVWXY"

var refCT2 = []rune("0123456789?-ÅÄÖ.Q,Z:+/")

func tri(a, b byte) byte { return byte('A' + ((25-int(a-'A')-int(b-'A'))%26+26)%26) }

type chainLink struct {
	id  string
	pos int // offset of its part in the cipher text
	n   int // letters enciphered with it
}

// refDecipher deciphers ct starting with key first. It returns the text and
// the chain of keys with the number of letters each one enciphered.
func refDecipher(keys func(id string) (string, bool), gs int, first, ct string) (string, []chainLink, error) {
	var out []rune
	kr, ok := keys(first)
	if !ok {
		return "", nil, errors.New("unknown key " + first)
	}
	chain := []chainLink{{id: first}}
	ki, table, shift := 0, 0, false
	for i := 0; i < len(ct); i++ {
		if ct[i] < 'A' || ct[i] > 'Z' {
			return "", chain, errors.New("not a letter")
		}
		if ki >= len(kr) {
			return "", chain, errors.New("key too short")
		}
		c := tri(ct[i], kr[ki])
		ki++
		chain[len(chain)-1].n++
		if table == 0 {
			if c == 'Z' {
				table = 1
				continue
			}
			r := rune(refCT1[c-'A'])
			if shift && r != ' ' {
				r = unicode.ToLower(r)
			}
			out = append(out, r)
			continue
		}
		switch c {
		case 'W':
			return "", chain, errors.New("binary")
		case 'X':
			shift = !shift
		case 'Z':
			table = 0
		case 'Y':
			id := ""
			for j := 0; j < gs; j++ {
				i++
				if i >= len(ct) {
					// padding or truncation inside a key change
					return string(out), chain, errors.New("truncated key change")
				}
				if ki >= len(kr) {
					return "", chain, errors.New("key too short")
				}
				if ct[i] < 'A' || ct[i] > 'Z' {
					return "", chain, errors.New("not a letter")
				}
				id += string(rune(tri(ct[i], kr[ki])))
				ki++
				chain[len(chain)-1].n++
			}
			kr, ok = keys(id)
			if !ok {
				return "", chain, errors.New("unknown key " + id)
			}
			chain = append(chain, chainLink{id: id, pos: i + 1})
			ki, table, shift = 0, 0, false
		default:
			r := refCT2[c-'A']
			if shift {
				r = unicode.ToLower(r)
			}
			out = append(out, r)
		}
	}
	return string(out), chain, nil
}

func (s *Snap) keyFn() func(string) (string, bool) {
	return func(id string) (string, bool) {
		if k := s.key(strings.ToUpper(id)); k != nil {
			return k.Runes, true
		}
		return "", false
	}
}

// supported says whether a text is entirely within the cipher's alphabet.
func supported(t string) bool {
	for _, r := range t {
		if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789?-ÅÄÖåäö.,:+/ ", r) {
			return false
		}
	}
	return true
}

// refEncodedLen is an upper bound on the letters a text needs, with the case
// and table changes of the best possible encoding of each character (each
// character costs at most 4).
func refWorst(t string) int { return 4 * len([]rune(t)) }

// keysNeeded is a number of keys of usable length u that is certainly enough.
func keysNeeded(t string, u int) int {
	if u < 4 {
		return 1 << 30
	}
	per := u / 4
	n := len([]rune(t))
	return (n+per-1)/per + 1
}

// ---- the file format, independently ----

type record struct {
	nonce [24]byte
	ct    []byte
	off   int
}

// frames splits an encrypted file into records; rest is an incomplete tail.
func frames(b []byte) (recs []record, rest []byte) {
	off := 0
	for len(b)-off >= 4 {
		n := int(binary.LittleEndian.Uint32(b[off:]))
		if n < 24+16 || len(b)-off-4 < n {
			break
		}
		var r record
		copy(r.nonce[:], b[off+4:])
		r.ct = b[off+4+24 : off+4+n]
		r.off = off
		recs = append(recs, r)
		off += 4 + n
	}
	return recs, b[off:]
}

func (r *record) open(key *[32]byte) ([]byte, bool) { return secretbox.Open(nil, r.ct, &r.nonce, key) }

func keyBytes(h string) *[32]byte {
	var k [32]byte
	b, _ := hex.DecodeString(h)
	copy(k[:], b)
	return &k
}

// refDecrypt opens a whole file under key; complete says that the compressed
// stream inside ends properly.
func refDecrypt(b []byte, key *[32]byte) (plain []byte, complete bool, err error) {
	recs, rest := frames(b)
	var buf bytes.Buffer
	for i := range recs {
		p, ok := recs[i].open(key)
		if !ok {
			return nil, false, fmt.Errorf("record %d does not open", i)
		}
		buf.Write(p)
	}
	if len(rest) > 0 {
		return nil, false, fmt.Errorf("%d trailing bytes", len(rest))
	}
	z, err := gzip.NewReader(&buf)
	if err != nil {
		return nil, false, err
	}
	plain, err = io.ReadAll(z)
	return plain, err == nil, err
}

func dtgString(t time.Time) string { return refDTG(t) }

// refDTG formats a Date-Time Group independently of the library.
func refDTG(t time.Time) string {
	_, off := t.Zone()
	h := off / 3600
	l := byte('J')
	switch {
	case h == 0:
		l = 'Z'
	case h >= 1 && h <= 9:
		l = "ABCDEFGHI"[h-1]
	case h >= 10 && h <= 12:
		l = "KLM"[h-10]
	case h <= -1 && h >= -12:
		l = "NOPQRSTUVWXY"[-h-1]
	}
	return fmt.Sprintf("%02d%02d%02d%c%s%02d", t.Day(), t.Hour(), t.Minute(), l, strings.ToUpper(t.Month().String()[:3]), t.Year()%100)
}
