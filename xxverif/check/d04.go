package check

import (
	"fmt"

	"xxverif/ai"
)

func init() { registry["D04"] = checkD04 }

// An entry form of a ziplist: the encoding byte's values, the text of the
// entry and how many bytes it takes from the encoding byte on.
type zipForm struct {
	name   string
	lo, hi int
	val    func(enc, at *ai.Term) (text, end *ai.Term)
}

func zipString(hdr int64, length func(enc, at *ai.Term) *ai.Term) func(enc, at *ai.Term) (text, end *ai.Term) {
	return func(enc, at *ai.Term) (*ai.Term, *ai.Term) {
		from := ai.AddK(at, hdr)
		to := ai.Add(from, length(enc, at))
		return ai.SubSeq(enc, from, to), to
	}
}

func zipInt(n int) func(enc, at *ai.Term) (text, end *ai.Term) {
	return func(enc, at *ai.Term) (*ai.Term, *ai.Term) {
		return ai.Itoa(ai.SignedWord(bytesAt(enc, ai.AddK(at, 1), n, true))), ai.AddK(at, int64(1+n))
	}
}

var zipForms = []zipForm{
	{"6-bit string", 0x00, 0x3f, zipString(1, func(enc, at *ai.Term) *ai.Term { return ai.LowBits(byteAt(enc, at, 0), 6) })},
	{"14-bit string", 0x40, 0x7f, zipString(2, func(enc, at *ai.Term) *ai.Term {
		return ai.ByteWord([]*ai.Term{byteAt(enc, at, 1), ai.LowBits(byteAt(enc, at, 0), 6)})
	})},
	{"32-bit string", 0x80, 0x80, zipString(5, func(enc, at *ai.Term) *ai.Term { return ai.ByteWord(bytesAt(enc, ai.AddK(at, 1), 4, false)) })},
	{"8-bit integer", 0xfe, 0xfe, zipInt(1)},
	{"16-bit integer", 0xc0, 0xc0, zipInt(2)},
	{"24-bit integer", 0xf0, 0xf0, zipInt(3)},
	{"32-bit integer", 0xd0, 0xd0, zipInt(4)},
	{"64-bit integer", 0xe0, 0xe0, zipInt(8)},
	{"immediate integer", 0xf1, 0xfd, func(enc, at *ai.Term) (*ai.Term, *ai.Term) {
		return ai.Itoa(ai.AddK(ai.LowBits(byteAt(enc, at, 0), 4), -1)), ai.AddK(at, 1)
	}},
}

// zipEntry calls f for every form of entry a path admits at position q.
func zipEntry(st *ai.State, enc, q *ai.Term, f func(st *ai.State, what string, leaf *ai.Term, vs []int, text, end *ai.Term)) {
	prev := byteAt(enc, q, 0)
	for _, pl := range []struct {
		name   string
		lo, hi int
		size   int64
	}{{"", 0, 253, 1}, {" after a long entry", 254, 254, 5}} {
		if len(admits(st, prev, pl.lo, pl.hi)) == 0 {
			continue
		}
		s := st.Clone()
		if !s.Assume(ai.Le(prev, ai.Int(int64(pl.hi))), true) || !s.Assume(ai.Le(ai.Int(int64(pl.lo)), prev), true) {
			continue
		}
		at := ai.AddK(q, pl.size)
		leaf := byteAt(enc, at, 0)
		for _, fm := range zipForms {
			if vs := admits(s, leaf, fm.lo, fm.hi); len(vs) > 0 {
				text, end := fm.val(enc, at)
				f(s, fm.name+pl.name, leaf, vs, text, end)
			}
		}
	}
}

type zipWalk struct {
	w    *World
	enc  *ai.Term
	seen map[string]int
}

// entry compares what a path takes for the entry at q, and where it goes on.
func (z *zipWalk) entry(st *ai.State, q, text, next *ai.Term) (why string) {
	if len(admits(st, byteAt(z.enc, q, 0), 255, 255)) > 0 {
		return "goes on at " + q.String() + " where the list may have ended"
	}
	n := 0
	zipEntry(st, z.enc, q, func(s *ai.State, what string, leaf *ai.Term, vs []int, want, end *ai.Term) {
		z.seen[what]++
		n++
		if got := s.Norm(text); got.IsConstStr() && got.S == "" && want.Op == ai.OSub {
			// an empty string, however it is made
			s := s.Clone()
			for _, b := range []struct {
				t  *ai.Term
				up bool
			}{{ai.AddK(leaf, -int64(vs[len(vs)-1])), true}, {ai.Sub(ai.Int(int64(vs[0])), leaf), true}} {
				s.Assume(ai.Le0(b.t), b.up)
			}
			if s.EntailsLe0(ai.Ring(ai.Sub(want.Args[2], want.Args[1]))) {
				want = got
			}
		}
		if !agree(s, leaf, vs, text, want) && why == "" {
			why = fmt.Sprintf("%s at %s: yields %s, not %s", what, q, text, want)
		}
		if !agree(s, leaf, vs, next, end) && why == "" {
			why = fmt.Sprintf("%s at %s: continues at %s, not %s", what, q, next, end)
		}
	})
	return why
}

// ended: the byte at q is the end mark on this path.
func (z *zipWalk) ended(st *ai.State, q *ai.Term) bool {
	return only(st, byteAt(z.enc, q, 0)) == 255
}

// follow checks a loop that collects entries in v, with p as its position.
// Either each iteration decodes and adds the entry at p, or it adds the entry
// decoded before and decodes the next one.
func (z *zipWalk) follow(st *ai.State, l *ai.LoopInfo, v, p *ai.LoopVar) string {
	var pending, more *ai.LoopVar
	for i, b := range l.Backs {
		lv, x := slotVar(l, i)
		if lv == nil || lv.Sym != v.Sym {
			return "an iteration does not add exactly one entry (path: " + facts(b.St) + ")"
		}
		for _, u := range l.Vars {
			if u.Sym == x {
				pending = u
			}
		}
	}
	if v.Init == nil || !(ai.Len(v.Init).IsInt() && ai.Len(v.Init).K == 0) {
		return "the list does not start empty"
	}
	if pending == nil {
		if p.Init == nil || !equalTo(l.Entry, p.Init, ai.Int(10)) {
			return "the first entry is read at " + p.Init.String()
		}
		for i, b := range l.Backs {
			_, x := slotVar(l, i)
			if why := z.entry(b.St, p.Sym, x, p.Steps[i]); why != "" {
				return why + " (path: " + facts(b.St) + ")"
			}
		}
		if !z.ended(st, p.Sym) {
			return "stops at " + p.Sym.String() + " where the list may go on"
		}
		return ""
	}
	// the flag that tells whether there is a pending entry
	for _, u := range l.Vars {
		if u.Sym.T != nil && u.Sym.T.String() == "bool" && decided(st, u.Sym, false) {
			more = u
		}
	}
	if more == nil {
		return "nothing tells whether there is another entry"
	}
	arrive := func(st *ai.State, q, text, flag, next *ai.Term) string {
		switch flag = st.Norm(flag); {
		case flag == ai.Bool(false):
			if !z.ended(st, q) {
				return "stops at " + q.String() + " where the list may go on"
			}
		case flag == ai.Bool(true):
			return z.entry(st, q, text, next)
		default:
			return "another entry follows if " + flag.String()
		}
		return ""
	}
	if why := arrive(l.Entry, ai.Int(10), pending.Init, more.Init, p.Init); why != "" {
		return why + " (path: " + facts(l.Entry) + ")"
	}
	for i, b := range l.Backs {
		if _, x := slotVar(l, i); x != pending.Sym {
			return "an iteration adds " + x.String()
		}
		if !decided(b.St, more.Sym, true) {
			return "an iteration adds an entry there may not be"
		}
		if why := arrive(b.St, p.Sym, pending.Steps[i], more.Steps[i], p.Steps[i]); why != "" {
			return why + " (path: " + facts(b.St) + ")"
		}
	}
	return ""
}

func intVars(l *ai.LoopInfo) (out []*ai.LoopVar) {
	for _, v := range l.Vars {
		if ai.IsIntType(v.Sym.T) && v.Init != nil {
			out = append(out, v)
		}
	}
	return out
}

func checkD04(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of the ziplist decoder over unknown bytes. One loop collects the entries; by induction over it, the entry at its position is compared with a table of the format for both lengths of the previous-entry field and every value of the encoding byte the path admits: the text is the one the table builds from the bytes (string bounds, widths, signs, byte order, immediates), the next position is directly behind it, the first is 10, iterations go on only where no end mark can be and the loop is left only at the end mark. No path panics at a complete entry."
	f, enc, outs := w.decoder(r, "redis/ziplist")
	if f == nil {
		return
	}
	name := w.place(f)
	z := &zipWalk{w: w, enc: enc, seen: map[string]int{}}
	done := map[*ai.LoopInfo]bool{}
	lists := 0
	for _, o := range outs {
		st := o.St
		if o.Kind != ai.Ret {
			z.fails(r, name, o)
			continue
		}
		seq := st.Norm(w.E.Content(st, o.Rets[0]))
		if seq.IsConstStr() && seq.S == "" {
			ok := z.ended(st, ai.Int(10))
			for _, l := range loopsOf(st.Events()) {
				for _, p := range intVars(l) {
					ok = ok || z.ended(st, p.Sym)
				}
			}
			r.Check(ok, "entries", name, "nothing is decoded although the list may have entries (path: %s)", facts(st))
			continue
		}
		why := "the list is " + seq.String() + ", which no loop collects"
		for _, l := range loopsOf(st.Events()) {
			for _, v := range l.Vars {
				if v.Sym != seq {
					continue
				}
				why = "no position moves in the loop that collects the entries"
				for _, p := range intVars(l) {
					if why = z.follow(st, l, v, p); why == "" {
						lists++
						break
					}
				}
				done[l] = true
			}
		}
		r.Check(why == "", "entries", name, "%s", why)
	}
	r.Floor("loops over entries", lists, 1)
	for _, fm := range zipForms {
		for _, s := range []string{"", " after a long entry"} {
			r.Floor("paths decoding "+fm.name+s, z.seen[fm.name+s], 1)
		}
	}
}

// fails: a path that does not return must be one no complete list takes.
func (z *zipWalk) fails(r *Rep, name string, o *ai.Outcome) {
	st := o.St
	q := []*ai.Term{ai.Int(10)}
	for _, l := range loopsOf(st.Events()) {
		q = nil
		for _, p := range intVars(l) {
			q = append(q, p.Sym)
		}
	}
	r.Check(len(q) > 0, "complete lists", name, "does not return: %v at %s (path: %s)", o.Val, z.w.Pos(o.Pos), facts(st))
	// with several candidates, the position is one that excuses the failure
	bad := ""
	for _, p := range q {
		bad = ""
		end := st.Clone()
		if len(admits(st, byteAt(z.enc, p, 0), 255, 255)) > 0 && end.Assume(ai.Eq(byteAt(z.enc, p, 0), ai.Int(255)), true) && end.Assume(ai.Le(ai.AddK(p, 1), ai.Len(z.enc)), true) {
			bad = "at the end mark"
		}
		zipEntry(st, z.enc, p, func(s *ai.State, what string, leaf *ai.Term, vs []int, _, next *ai.Term) {
			s = s.Clone()
			if bad == "" && s.Assume(ai.Le(ai.Int(int64(vs[0])), leaf), true) && s.Assume(ai.Le(leaf, ai.Int(int64(vs[len(vs)-1]))), true) &&
				s.Assume(ai.Le(ai.AddK(next, 1), ai.Len(z.enc)), true) && s.Assume(ai.Le(ai.AddK(p, 1), next), true) {
				bad = "at a complete " + what
			}
		})
		if bad == "" {
			return
		}
	}
	r.Check(bad == "", "complete lists", name, "fails %s: %v at %s (path: %s)", bad, o.Val, z.w.Pos(o.Pos), facts(st))
}
