//go:build go1.23

package zzverifsim

import (
	"fmt"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

// sstep is one step of a library session on one instance, with what the
// instance held before and after it.
type sstep struct {
	kind      string
	pre, post *Snap
	err       error
	judge     func(p *proc, s *sstep) (string, string)
}

// opSession is a library session of several steps on one instance: what one
// step leaves in memory must not harm the next.
func (w *World) opSession(st *Station) *op {
	o := &op{kind: "session", st: st, mutates: true, must: true, mustTag: "P03,P14"}
	var steps []*sstep
	var saved []*Snap // every state a Save was asked to store
	n := w.ch.Range(2, 8)
	type plannedStep struct {
		kind string
		run  func(k *krypto431.Krypto431, s *sstep)
	}
	var planned []plannedStep
	nocall := func(s *sstep) {}
	_ = nocall
	for i := 0; i < n; i++ {
		a, b := w.ch.N(1<<16), w.ch.N(1<<16)
		key := func(s *Snap) string {
			if len(s.Keys) == 0 {
				return strings.Repeat("Q", s.GS)
			}
			return s.Keys[a%len(s.Keys)].Id
		}
		switch w.ch.Weighted(3, 5, 5, 5, 3, 2, 2, 3, 2, 2) {
		case 0:
			keepers := [][]string{nil, {"B2"}, {"VJ", "B2"}}[a%3]
			cnt := 1 + b%2
			planned = append(planned, plannedStep{"generate", func(k *krypto431.Krypto431, s *sstep) {
				if k.GroupSize == 1 && len(k.Keys) > 8 {
					return
				}
				s.err = k.GenerateKeys(cnt, nil, keepers...)
				c := cnt
				s.judge = func(p *proc, s *sstep) (string, string) {
					nk, tag, m := w.newKeys(p, st, s.pre, s.post, c, without(append([]string{}, keepers...), s.pre.Call), nil)
					if m != "" {
						return tag, m
					}
					want := s.pre.clone()
					want.Keys = append(want.Keys, nk...)
					return "P12", diff(want, s.post)
				}
			}})
		case 1:
			text := w.genText(80)
			planned = append(planned, plannedStep{"compose", func(k *krypto431.Krypto431, s *sstep) {
				var pool [][]string
				pool = append(pool, nil)
				for _, x := range s.pre.Keys {
					if len(x.Keepers) > 0 {
						pool = append(pool, x.Keepers, x.Keepers[:1])
					}
				}
				to := pool[a%len(pool)]
				rg := wrapRadiogram(to, s.pre.Call, "", text)
				_, s.err = k.NewTextMessage(rg)
				if s.err != nil {
					can := capacity(s.pre, to, text, "")
					s.judge = func(p *proc, s *sstep) (string, string) {
						if can {
							return "P08,P09", "refused although there were keys enough: " + s.err.Error()
						}
						return "P08", diff(s.pre, s.post)
					}
					return
				}
				s.judge = func(p *proc, s *sstep) (string, string) {
					return w.judgeOutgoing(p, s.pre, s.post, to, text, rg, nil, "")
				}
			}})
		case 2:
			garble := w.ch.P(1, 4)
			kinds := w.ch.N(1 << 16)
			planned = append(planned, plannedStep{"receive", func(k *krypto431.Krypto431, s *sstep) {
				text := "NO TRAFFIC"
				if len(s.pre.Keys) > 0 {
					id := s.pre.Keys[kinds%len(s.pre.Keys)].Id
					if len(id) == s.pre.GS {
						if ct, ok := refEncipher(s.pre, []string{id}, "ABC"); ok {
							text = group(id+ct, s.pre.GS)
							if garble {
								text = strings.TrimSpace(text[:len(text)-1])
							}
						}
					}
				}
				if strings.HasSuffix(text, " K") {
					text += "A"
				}
				rg := wrapRadiogram(nil, "OTH", "", text)
				_, s.err = k.NewTextMessage(rg)
				s.judge = func(p *proc, s *sstep) (string, string) {
					if s.err != nil {
						return "P10", "receiving failed: " + s.err.Error()
					}
					return w.judgeIncoming(p, s.pre, s.post, nil, "OTH", text, "")
				}
			}})
		case 3:
			planned = append(planned, plannedStep{"delete key", func(k *krypto431.Krypto431, s *sstep) {
				ids := []string{key(s.pre)}
				if b%3 == 0 && len(s.pre.Keys) > 1 {
					ids = append(ids, s.pre.Keys[(a+1+b%(len(s.pre.Keys)-1))%len(s.pre.Keys)].Id)
				}
				if b%5 == 0 {
					ids = append(ids, strings.Repeat("Q", s.pre.GS))
				}
				ids = uniq(ids)
				want, cnt := delKeys(s.pre, ids, st)
				got := 0
				switch b % 4 {
				case 0:
					var r [][]rune
					for _, x := range ids {
						r = append(r, []rune(x))
					}
					got, s.err = k.DeleteKey(r...)
				case 1:
					got, s.err = k.DeleteKeyByString(ids...)
				case 2:
					// as the selection list of the command line does
					_, lines := k.SummaryOfKeys(func(key *krypto431.Key) bool { return contains(ids, string(key.Id)) })
					var l []string
					for i := range lines {
						l = append(l, string(lines[i]))
					}
					got, s.err = k.DeleteKeysBySummaryString(l...)
				default:
					got, s.err = k.DeleteKeyByString(strings.ToLower(strings.Join(ids, ", ")))
				}
				s.judge = func(p *proc, s *sstep) (string, string) {
					if s.err != nil {
						return "P14", s.err.Error()
					}
					if got != cnt {
						return "P14", fmt.Sprintf("%d of the keys %q were there but %d reported deleted", cnt, ids, got)
					}
					return "P14,P15", diff(want, s.post)
				}
			}})
		case 4:
			planned = append(planned, plannedStep{"delete message", func(k *krypto431.Krypto431, s *sstep) {
				if len(s.pre.Msgs) == 0 {
					return
				}
				ids := []string{s.pre.Msgs[a%len(s.pre.Msgs)].Id}
				if b%3 == 0 {
					ids = uniq(append(ids, s.pre.Msgs[b%len(s.pre.Msgs)].Id))
				}
				_, cnt := delMsgs(s.pre, ids)
				got := 0
				listed := func(m *MsgSnap) bool { return b%3 == 2 && contains(ids, m.Id) }
				switch b % 3 {
				case 0:
					var r [][]rune
					for _, x := range ids {
						r = append(r, []rune(x))
					}
					got, s.err = k.DeleteMessage(r...)
				case 1:
					got, s.err = k.DeleteMessageByString(ids...)
				default:
					_, lines := k.SummaryOfMessages(func(m *krypto431.Message) bool { return contains(ids, string(m.Id)) })
					var l []string
					for i := range lines {
						l = append(l, string(lines[i]))
					}
					got, s.err = k.DeleteMessagesBySummaryString(l...)
				}
				s.judge = func(p *proc, s *sstep) (string, string) {
					if s.err != nil {
						return "P14", s.err.Error()
					}
					if got != cnt {
						return "P14", fmt.Sprintf("%d of the messages %q were there but %d reported deleted", cnt, ids, got)
					}
					return "P14,P15", delListed(s.pre, s.post, ids, listed)
				}
			}})
		case 5:
			planned = append(planned, plannedStep{"mark", func(k *krypto431.Krypto431, s *sstep) {
				id := key(s.pre)
				want := s.pre.clone()
				if kk := want.key(id); kk != nil {
					kk.Used = b%2 == 0
					s.err = k.MarkKeyUsed([]rune(id), b%2 == 0)
				}
				st.pend = nil
				for r := range st.sent {
					// the operator may well clear a mark, then it is no longer ours to judge
					if kk := want.key(id); kk != nil && kk.Runes == r && b%2 == 1 {
						return
					}
				}
				s.judge = func(p *proc, s *sstep) (string, string) {
					if s.err != nil {
						return "P03", s.err.Error()
					}
					return "P03", diff(want, s.post)
				}
			}})
			if b%2 == 1 {
				planned = planned[:len(planned)-1]
			}
		case 6:
			planned = append(planned, plannedStep{"export and wipe", func(k *krypto431.Krypto431, s *sstep) {
				pfk, salt := k.GetPFKString(), k.GetSaltString()
				e := k.ExportKeys(func(key *krypto431.Key) bool { return true }, krypto431.WithPersistence(home+"/sess.exp"))
				got := snapOf(&e)
				if b%2 == 0 {
					e.Wipe()
				} else {
					for i := range e.Keys {
						e.Keys[i].Keepers = append(e.Keys[i].Keepers, []rune("XXX"))
						e.Keys[i].Wipe()
					}
				}
				s.judge = func(p *proc, s *sstep) (string, string) {
					want := s.pre.clone()
					want.Msgs = nil
					if d := diff(want, got); d != "" {
						return "P13", "the exported copy differs: " + d
					}
					if k.GetPFKString() != pfk || k.GetSaltString() != salt {
						return "P13,P15", "wiping the exported copy wiped the file key or salt of the instance"
					}
					return "P13,P15", diff(s.pre, s.post)
				}
			}})
		case 7:
			over := w.ch.P(1, 2)
			files := []string{home + "/move.gob", home + "/t2", home + "/k.bin", home + "/other.gob"}
			path := ""
			for _, f := range files {
				if _, ok := st.disk.ReadFile(f); ok {
					path = f
					if a%2 == 0 {
						break
					}
				}
			}
			if path == "" {
				continue
			}
			pfk := st.pfk
			src, _ := w.observe(st.disk, path, pfk)
			if src == nil {
				continue
			}
			planned = append(planned, plannedStep{"import", func(k *krypto431.Krypto431, s *sstep) {
				c := 0
				c, s.err = k.ImportKeys(func(key *krypto431.Key) bool { return true }, krypto431.WithPersistence(path), krypto431.WithPFKString(pfk), krypto431.WithOverwriteExistingKeysOnImport(over))
				s.judge = func(p *proc, s *sstep) (string, string) {
					if s.err != nil {
						return "P13", "importing failed: " + s.err.Error()
					}
					want, cnt := importWant(src, s.pre, func(string) bool { return true }, over, st)
					if cnt != c {
						return "P13", fmt.Sprintf("%d keys were imported but it reported %d", cnt, c)
					}
					return "P13", diff(want, s.post)
				}
			}})
		case 8:
			planned = append(planned, plannedStep{"save", func(k *krypto431.Krypto431, s *sstep) {
				saved = append(saved, s.pre)
				s.err = k.Save()
				s.judge = func(p *proc, s *sstep) (string, string) { return "P03,P02", diff(s.pre, s.post) }
			}})
		case 9:
			planned = append(planned, plannedStep{"comment", func(k *krypto431.Krypto431, s *sstep) {
				id := key(s.pre)
				want := s.pre.clone()
				for i := range k.Keys {
					if string(k.Keys[i].Id) == id {
						k.Keys[i].Comment = []rune("session note")
						k.Keys[i].AddKeeper([]rune("SES"))
						kk := want.key(id)
						kk.Comment = "session note"
						kk.Keepers = sorted(uniq(append(append([]string{}, kk.Keepers...), "SES")))
						break
					}
				}
				s.judge = func(p *proc, s *sstep) (string, string) { return "P03,P14", diff(want, s.post) }
			}})
		}
	}
	planned = append(planned, plannedStep{"save", func(k *krypto431.Krypto431, s *sstep) {
		saved = append(saved, s.pre)
		s.err = k.Save()
		s.judge = func(p *proc, s *sstep) (string, string) { return "P03,P02", diff(s.pre, s.post) }
	}})
	judged := 0
	judgeSteps := func(p *proc) (string, string) {
		for ; judged < len(steps); judged++ {
			s := steps[judged]
			if s.judge == nil || s.post == nil {
				continue
			}
			if tag, m := s.judge(p, s); m != "" {
				if s.kind == "import" && s.err != nil && p.faulted > 0 {
					continue
				}
				var l []string
				for _, x := range steps[:judged+1] {
					l = append(l, x.kind)
				}
				return tag, fmt.Sprintf("step %d (%s) of the session: %s", judged+1, strings.Join(l, ", "), m)
			}
		}
		return "", ""
	}
	o.lib = func(k *krypto431.Krypto431) error {
		steps, saved, judged = nil, nil, 0
		cur := snapOf(k)
		for _, pl := range planned {
			s := &sstep{kind: pl.kind, pre: cur}
			steps = append(steps, s)
			pl.run(k, s)
			s.post = snapOf(k)
			cur = s.post
			w.stats["session_steps"]++
			if s.err != nil && pl.kind == "save" {
				return s.err
			}
		}
		return nil
	}
	o.check = func(p *proc, pre, post *Snap) (string, string) {
		if tag, m := judgeSteps(p); m != "" {
			return tag, m
		}
		if p.ok() {
			return "P03", diff(saved[len(saved)-1], post)
		}
		d := "nothing was saved"
		for _, s := range saved {
			if d = diff(s, post); d == "" {
				return "", ""
			}
		}
		return "P03", d
	}
	o.after = func(p *proc, pre, post *Snap) {
		if tag, m := judgeSteps(p); m != "" {
			w.violate(tag, "session", "%s", m)
		}
		for _, s := range steps {
			if s.kind == "import" {
				st.pend = nil
				for r := range st.sent {
					delete(st.sent, r)
				}
			}
			if post != nil && post != pre && s.kind == "compose" && s.err == nil && s.post != nil {
				for i := range s.post.Msgs {
					m := &s.post.Msgs[i]
					if s.pre.msg(m.Id) == nil && post.msg(m.Id) != nil {
						st.pend = append(st.pend, pending{s.pre, m.Id, m.KeyId, m.Cipher})
					}
				}
			}
		}
	}
	return o
}

// importWant is what a store holds after importing the selected keys of src.
func importWant(src, pre *Snap, sel func(string) bool, over bool, st *Station) (*Snap, int) {
	r := pre.clone()
	n := 0
	for _, k := range src.Keys {
		if len(k.Id) != pre.GS || !sel(k.Id) {
			continue
		}
		nk := k
		nk.Keepers = without(append([]string{}, k.Keepers...), pre.Call)
		if !contains(nk.Keepers, src.Call) {
			nk.Keepers = append(nk.Keepers, src.Call)
		}
		nk.Keepers = sorted(nk.Keepers)
		if r.key(k.Id) != nil {
			if !over {
				continue
			}
			r, _ = delKeys(r, []string{k.Id}, st)
		}
		r.Keys = append(r.Keys, nk)
		n++
	}
	return r, n
}

var _ = time.Now
