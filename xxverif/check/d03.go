package check

import (
	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["D03"] = checkD03 }

// decoder runs a decoder of a value in memory, with operations that may panic
// doing so.
func (w *World) decoder(r *Rep, pkg string) (*ssa.Function, *ai.Term, []*ai.Outcome) {
	f := w.Fn(pkg, "Load")
	if f == nil || f.Blocks == nil || len(f.Params) != 1 {
		r.Fail("roles", pkg+".Load", "the decoder is gone")
		return nil, nil, nil
	}
	save := w.E
	w.E = w.E.With()
	w.E.ForkPanic = true
	outs := w.run(r, f, w.symArgs(f), nil)
	w.E = save
	return f, ai.Sym(f.Params[0].Name(), f.Params[0].Type()), outs
}

// assumed is the loop as it is when the conditions hold throughout.
func assumed(l *ai.LoopInfo, conds ...*ai.Term) *ai.LoopInfo {
	c := *l
	c.Backs, c.Vars = nil, nil
	var keep []int
	for i, b := range l.Backs {
		s := b.St.Clone()
		ok := true
		for _, cond := range conds {
			ok = ok && s.Assume(cond, true)
		}
		if ok {
			nb := *b
			nb.St = s
			c.Backs = append(c.Backs, &nb)
			keep = append(keep, i)
		}
	}
	for _, v := range l.Vars {
		nv := *v
		nv.Steps = nil
		for _, i := range keep {
			nv.Steps = append(nv.Steps, v.Steps[i])
		}
		c.Vars = append(c.Vars, &nv)
	}
	return &c
}

func initials(l *ai.LoopInfo) map[*ai.Term]*ai.Term {
	m := map[*ai.Term]*ai.Term{}
	for _, v := range l.Vars {
		if v.Init != nil {
			m[v.Sym] = v.Init
		}
		m[ai.Sym(v.Sym.S+":n", tInt)] = ai.Int(0)
	}
	m[ai.Sym("L:"+l.ID+":n", tInt)] = ai.Int(0)
	return m
}

func nexts(l *ai.LoopInfo, i int) map[*ai.Term]*ai.Term {
	m := map[*ai.Term]*ai.Term{}
	for _, v := range l.Vars {
		if i < len(v.Steps) && v.Steps[i] != nil {
			m[v.Sym] = v.Steps[i]
		}
		n := ai.Sym(v.Sym.S+":n", tInt)
		m[n] = ai.AddK(n, 1)
	}
	n := ai.Sym("L:"+l.ID+":n", tInt)
	m[n] = ai.AddK(n, 1)
	return m
}

// positions are the positions in enc a term reads at.
func positions(t, enc *ai.Term) (out []*ai.Term) {
	seen := map[*ai.Term]bool{}
	ai.Walk(t, func(x *ai.Term) bool {
		if x.Op == ai.OElem && x.Args[0] == enc && !seen[x.Args[1]] {
			seen[x.Args[1]] = true
			out = append(out, x.Args[1])
		}
		return true
	})
	return out
}

func checkD03(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of the integer set decoder over unknown bytes, once for each of the three widths: the list returned is built by one loop that in each iteration adds, bit for bit, the signed little-endian number at its position; by induction over the loop the positions are 8, 8+w, 8+2w, ... and the loop ends when exactly the announced number of them was visited. No path panics on a set whose length is the announced one."
	f, enc, outs := w.decoder(r, "redis/intset")
	if f == nil {
		return
	}
	name := w.place(f)
	word := func(at int64) *ai.Term { return ai.ByteWord(bytesAt(enc, ai.Int(at), 4, true)) }
	seen := map[int64]int{}
	for _, o := range outs {
		for _, k := range []int64{2, 4, 8} {
			n := word(4)
			conds := []*ai.Term{ai.Eq(word(0), ai.Int(k)), ai.Eq(ai.Len(enc), ai.AddK(ai.Scale(n, k), 8))}
			st := o.St.Clone()
			if !st.Assume(conds[0], true) || !st.Assume(conds[1], true) {
				continue
			}
			if o.Kind != ai.Ret {
				s := withInvariants(st)
				r.Check(!s.Assume(ai.Le(ai.Int(0), n), true), "returns", name, "fails on a well-formed set of %d-byte integers: %v at %s (path: %s)", k, o.Val, w.Pos(o.Pos), facts(st))
				continue
			}
			seen[k]++
			why := w.members(st, enc, o.Rets[0], n, k, conds)
			r.Check(why == "", "members", name, "%d-byte integers: %s (path: %s)", k, why, facts(st))
		}
	}
	for _, k := range []int64{2, 4, 8} {
		r.Floor("paths decoding "+itoa(int(k))+"-byte integers", seen[k], 1)
	}
}

// members checks that the list is every member in order.
func (w *World) members(st *ai.State, enc, ret, n *ai.Term, k int64, conds []*ai.Term) string {
	seq := st.Norm(w.E.Content(st, ret))
	if seq.IsConstStr() && seq.S == "" {
		if !st.EntailsLe0(n) {
			return "the list stays empty"
		}
		return ""
	}
	var l *ai.LoopInfo
	var v *ai.LoopVar
	upto := ai.Len(seq)
	if seq.Op == ai.OSub && seq.Args[1] == ai.Int(0) {
		// all of a list made beforehand
		seq, upto = seq.Args[0], seq.Args[2]
	}
	for _, x := range loopsOf(st.Events()) {
		for _, y := range x.Vars {
			if y.Sym == seq {
				l, v = assumed(x, conds...), y
			}
		}
	}
	if l == nil {
		return "the list is " + seq.String() + ", which no loop collects"
	}
	if len(l.Backs) == 0 {
		return "no iteration adds a member"
	}
	var p *ai.Term
	for i, b := range l.Backs {
		lv, x := slotVar(l, i)
		if lv == nil || lv.Sym != v.Sym {
			return "an iteration does not add exactly one member (path: " + facts(b.St) + ")"
		}
		at, _, _ := slotOf(l, i)
		bs := withInvariants(b.St, l)
		var here *ai.Term
		for _, q := range positions(x, enc) {
			want := ai.SignedWord(bytesAt(enc, q, int(k), true))
			if ai.Ring(x) == ai.Ring(b.St.Norm(want)) || equalTo(b.St, ai.Ring(x), ai.Ring(want)) {
				here = q
			}
		}
		if here == nil {
			return "what an iteration adds is not a signed number of that width, but " + x.String()
		}
		if p == nil {
			p = here
		} else if p != here && !equalTo(bs, p, here) {
			return "iterations read at " + p.String() + " and at " + here.String()
		}
		if upto != ai.Len(v.Sym) && !filled(l, lv) {
			return "the list is a part of what the loop collects"
		}
		if at != nil && !filled(l, lv) && at != ai.Len(v.Sym) {
			return "members are put at position " + at.String()
		}
		if filled(l, lv) {
			if !equalTo(bs, ai.AddK(ai.Scale(at, k), 8), here) {
				return "the member at " + here.String() + " becomes number " + at.String()
			}
			if !equalTo(st, ai.Len(v.Init), n) || upto != ai.Len(v.Sym) && !equalTo(st, upto, n) {
				return "the list has " + ai.Len(v.Init).String() + " members"
			}
		}
		if next := ai.Subst(p, nexts(l, i)); !equalTo(bs, next, ai.AddK(p, k)) {
			return "after reading at " + p.String() + " it continues at " + next.String()
		}
	}
	first := ai.Subst(p, initials(l))
	if !equalTo(l.Entry, first, ai.Int(8)) && !equalTo(st, first, ai.Int(8)) {
		return "the first member is read at " + first.String()
	}
	if v.Init != nil && !filled(l, v) && !(ai.Len(v.Init).IsInt() && ai.Len(v.Init).K == 0) {
		return "the list does not start empty"
	}
	end := ai.AddK(ai.Scale(n, k), 8)
	es := withInvariants(st, l)
	if !es.EntailsLe0(es.Norm(ai.Sub(end, p))) {
		return "it may stop before the last member"
	}
	if !atMost(st, p, end, l) {
		return "it may go on behind the last member"
	}
	return ""
}
