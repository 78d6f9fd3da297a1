package check

import (
	"fmt"
	"strings"

	"xxverif/ai"
)

func init() { registry["M01"] = checkM01 }

// redis does not let a string grow further.
const longest = 512 * 1024 * 1024

func checkM01(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Every path of GETRANGE and SETRANGE over an unknown text, unknown offsets and an unknown replacement. The selected part and the overwritten text are written down as sequences; the result (what GET then reads) is shown to have the same length and, at an arbitrary position, the same byte. A sequence built by a loop is followed by induction: each iteration writes one byte at a position that moves on by one; how the loop ended is taken from its condition and from the condition of its last iteration. GETRANGE never goes round for a position outside the text."
	text := cw.textOf()
	gets, sets := 0, 0
	cw.each(r, []string{"GetRange"}, func(run *Run) {
		name := cw.name("GetRange")
		rets, err := cw.split(run)
		var old *ai.Term
		switch {
		case !live(run.Scen):
			old = ai.Str("")
		case cw.scenKind(run.Scen) == "string":
			old = cw.textAt(text, scenType(run.Scen), keyOf(run.Args))
		}
		if old == nil {
			return
		}
		if !r.Check(err.IsNil() && len(rets) == 1, "range", name, "[%s] fails with %s (path: %s)", run.Scen, err, facts(run.O.St)) {
			return
		}
		gets++
		ls := loopsOf(run.O.St.Events())
		selections(run.O.St, old, run.Args[2], run.Args[3], func(st *ai.State, from, to *ai.Term) {
			why := selected(w, st, ls, rets[0], old, from, to)
			r.Check(why == "", "range", name, "[%s] the part from %s to %s: %s", run.Scen, from, to, why)
		})
		for _, l := range ls {
			why := bounded(l, old)
			r.Check(why == "", "work", name, "[%s] the loop at %s %s", run.Scen, w.Pos(l.Pos), why)
		}
	})
	cw.each(r, []string{"SetRange"}, func(run *Run) {
		name := cw.name("SetRange")
		rets, err := cw.split(run)
		var old *ai.Term
		switch {
		case run.Scen == "absent" || strings.HasPrefix(run.Scen, "expired"):
			old = ai.Str("")
		case cw.scenKind(run.Scen) == "string":
			old = cw.textAt(text, scenType(run.Scen), keyOf(run.Args))
		}
		if old == nil {
			return
		}
		pos, repl := run.Args[2], run.Args[3]
		st := run.O.St
		sets++
		k := keyOf(run.Args)
		ks := cw.look(st, k)
		if !err.IsNil() {
			s := st.Clone()
			fine := s.Assume(ai.Le(ai.Int(0), pos), true) && s.Assume(ai.Le(ai.Add(pos, ai.Len(repl)), ai.Int(longest)), true)
			r.Check(!fine, "refused", name, "[%s] fails with %s for an offset within the limit (path: %s)", run.Scen, err, facts(st))
			r.Check(ks.dataSame(st) && ks.expSame(st), "refused", name, "[%s] fails with %s but %s", run.Scen, err, ks)
			return
		}
		if !r.Check(len(rets) == 1, "overwritten", name, "[%s] returns %v", run.Scen, rets) {
			return
		}
		if s := st.Clone(); s.Assume(ai.Eq(repl, ai.Str("")), true) {
			gone := ks.dKnown && !ks.dHas && !live(run.Scen)
			r.Check(ks.dataSame(s) || gone, "nothing to write", name, "[%s] an empty replacement: %s (path: %s)", run.Scen, ks, facts(s))
			r.Check(equalTo(s, rets[0], ai.Len(old)), "nothing to write", name, "[%s] an empty replacement returns %s, not %s (path: %s)", run.Scen, rets[0], ai.Len(old), facts(s))
		}
		st = st.Clone()
		if !st.Assume(ai.Eq(repl, ai.Str("")), false) || !st.Assume(ai.Le(ai.Int(1), ai.Len(repl)), true) {
			return
		}
		for _, c := range []*ai.Term{ai.Lt(pos, ai.Int(0)), ai.Lt(ai.Int(longest), ai.Add(pos, ai.Len(repl)))} {
			s := st.Clone()
			r.Check(!s.Assume(c, true), "refused", name, "[%s] writes although %s (path: %s)", run.Scen, c, facts(s))
		}
		ls := loopsOf(st.Events())
		got := 0
		for _, o := range cw.RunOp("Get", st, run.Args[1]) {
			if o.Kind != ai.Ret {
				r.Fail("undecided", name, "reading back: %v %v", o.Kind, o.Val)
				continue
			}
			rs, e := splitErr(cw.Ops["Get"].Signature, o)
			if !r.Check(e.IsNil() && len(rs) == 1, "overwritten", name, "[%s] GET on what was stored fails with %s (path: %s)", run.Scen, e, facts(o.St)) {
				continue
			}
			got++
			overwrites(o.St, old, pos, repl, func(s *ai.State, want *ai.Term) {
				why := sameBytes(s, ls, rs[0], want)
				r.Check(why == "", "overwritten", name, "[%s] the text stored %s", run.Scen, why)
				ways(s, ls, func(s *ai.State) {
					r.Check(sameNumber(s, rets[0], ai.Len(want)), "length", name, "[%s] returns %s, not %s (path: %s)", run.Scen, s.Norm(rets[0]), s.Norm(ai.Len(want)), facts(s))
				})
			})
		}
		r.Check(got > 0, "overwritten", name, "[%s] GET does not return on what was stored", run.Scen)
	})
	r.Floor("paths of GETRANGE", gets, 10)
	r.Floor("paths of SETRANGE", sets, 10)
}

// selections splits a path by which part of the text is asked for.
func selections(st *ai.State, old, start, end *ai.Term, f func(st *ai.State, from, to *ai.Term)) {
	n := ai.Len(old)
	both := func(st *ai.State, c *ai.Term, yes, no func(*ai.State)) {
		if s := st.Clone(); s.Assume(c, true) {
			yes(s)
		}
		if s := st.Clone(); s.Assume(c, false) {
			no(s)
		}
	}
	stop := func(from *ai.Term) func(*ai.State) {
		return func(st *ai.State) {
			both(st, ai.Lt(end, ai.Int(0)), func(s *ai.State) {
				f(s, from, ai.AddK(ai.Add(end, n), 1))
			}, func(s *ai.State) {
				both(s, ai.Lt(end, n), func(s *ai.State) {
					f(s, from, ai.AddK(end, 1))
				}, func(s *ai.State) { f(s, from, n) })
			})
		}
	}
	both(st, ai.Lt(start, ai.Int(0)), func(s *ai.State) {
		both(s, ai.Lt(ai.Add(start, n), ai.Int(0)), stop(ai.Int(0)), stop(ai.Add(start, n)))
	}, stop(start))
}

// selected tells what is wrong with x as the part of old between two
// positions.
func selected(w *World, st *ai.State, ls []*ai.LoopInfo, x, old, from, to *ai.Term) string {
	some, none := st.Clone(), st.Clone()
	if none.Assume(ai.Le(to, from), true) {
		why := sameBytes(none, ls, x, ai.Str(""))
		if why != "" && skips(w, none, ls, x, old, from, from) != "" {
			return why
		}
	}
	if some.Assume(ai.Lt(from, to), true) {
		if why := sameBytes(some, ls, x, ai.SubSeq(old, from, to)); why != "" {
			if why2 := skips(w, some, ls, x, old, from, to); why2 != "" {
				return why + "; " + why2
			}
		}
	}
	return ""
}

// skips tells why x is not the part of old that a loop collects while it also
// visits other positions.
func skips(w *World, st *ai.State, ls []*ai.LoopInfo, x, old, from, to *ai.Term) string {
	x = st.Norm(x)
	for _, l0 := range ls {
		l := assumed(l0, narrowed(st, l0)...)
		for _, c := range contents(l) {
			if c.sym != x && c.alias != x {
				continue
			}
			return best(l, func(u *ai.LoopVar) string {
				// the variable of a range loop is one behind its position
				why := skipping(st, l, c, u, 0, old, from, to)
				if why != "" && skipping(st, l, c, u, 1, old, from, to) == "" {
					return ""
				}
				return why
			})
		}
	}
	return "no loop builds it"
}

// narrowed are the conditions of a path that do not change in a loop.
func narrowed(st *ai.State, l *ai.LoopInfo) (out []*ai.Term) {
	own := map[*ai.Term]bool{}
	for _, v := range l.Vars {
		own[v.Sym] = true
	}
	for _, x := range st.Lits() {
		bad := false
		ai.Walk(x.T, func(t *ai.Term) bool {
			bad = bad || own[t]
			return !bad
		})
		if !bad {
			if x.Val {
				out = append(out, x.T)
			} else {
				out = append(out, ai.Not(x.T))
			}
		}
	}
	return out
}

// skipping: while the position moves from one end to the other, exactly the
// bytes between from and to are collected.
func skipping(st *ai.State, l *ai.LoopInfo, c content, u *ai.LoopVar, ahead int64, old, from, to *ai.Term) string {
	pos := ai.AddK(u.Sym, ahead)
	if !zero0(l.Entry, ai.Len(c.init)) {
		return "it does not begin empty"
	}
	if s := st.Clone(); s.Assume(ai.Lt(from, to), true) && s.Assume(ai.Lt(from, ai.AddK(u.Init, ahead)), true) {
		return fmt.Sprintf("the loop begins at %s (path: %s)", u.Init, facts(s))
	}
	for i, b := range l.Backs {
		next := u.Steps[i]
		in := b.St.Clone()
		inside := in.Assume(ai.Le(from, pos), true) && in.Assume(ai.Lt(pos, to), true)
		if b.St.Norm(c.steps[i]) == c.sym {
			if inside {
				return "leaves out a byte of the part (path: " + facts(in) + ")"
			}
			continue
		}
		at, v, ok := written(b.St, c.sym, c.steps[i])
		if !ok || at != nil {
			return fmt.Sprintf("an iteration makes %s of it", c.steps[i])
		}
		for _, cond := range []*ai.Term{ai.Lt(pos, from), ai.Le(to, pos)} {
			if s := b.St.Clone(); s.Assume(cond, true) {
				return "takes a byte outside the part (path: " + facts(s) + ")"
			}
		}
		if !sameByte(b.St, v, byteAt(old, pos, 0)) {
			return fmt.Sprintf("takes %s at position %s", v, pos)
		}
		if !zero0(b.St, ai.Sub(next, ai.AddK(u.Sym, 1))) {
			return fmt.Sprintf("goes on at %s after %s", next, u.Sym)
		}
	}
	for i, b := range l.Backs {
		if d := b.St.Norm(ai.Sub(u.Steps[i], u.Sym)); !d.IsInt() || d.K != 1 {
			return "positions are passed over"
		}
	}
	if s := st.Clone(); s.Assume(ai.Lt(from, to), true) && s.Assume(ai.Lt(pos, to), true) {
		return "ends before the end of the part (path: " + facts(s) + ")"
	}
	return ""
}

// bounded tells how a loop can go round more often than the text has bytes.
func bounded(l *ai.LoopInfo, old *ai.Term) string {
	return best(l, func(u *ai.LoopVar) string {
		low := int64(0)
		if u.Init != nil && u.Init.IsInt() && u.Init.K == -1 {
			low = -1 // a range loop
		}
		for i, b := range l.Backs {
			if d := b.St.Norm(ai.Sub(u.Steps[i], u.Sym)); !d.IsInt() || d.K == 0 {
				return "does not move"
			}
			for _, c := range []*ai.Term{ai.Lt(u.Sym, ai.Int(low)), ai.Lt(ai.Len(old), u.Sym)} {
				if s := withInvariants(b.St, l); s.Assume(c, true) {
					return "goes round for positions outside the text (path: " + facts(s) + ")"
				}
			}
		}
		return ""
	})
}

// overwrites splits a path by how the replacement lies over the text.
func overwrites(st *ai.State, old, pos, repl *ai.Term, f func(*ai.State, *ai.Term)) {
	n := ai.Len(old)
	stop := ai.Add(pos, ai.Len(repl))
	s := st.Clone()
	if s.Assume(ai.Lt(n, pos), true) {
		f(s, ai.Cat(old, ai.Rep(ai.Int(0), ai.Sub(pos, n)), repl))
	}
	s = st.Clone()
	if !s.Assume(ai.Le(pos, n), true) {
		return
	}
	head := ai.Cat(ai.SubSeq(old, ai.Int(0), pos), repl)
	t := s.Clone()
	if t.Assume(ai.Le(n, stop), true) {
		f(t, head)
	}
	if s.Assume(ai.Lt(stop, n), true) {
		f(s, ai.Cat(head, ai.SubSeq(old, stop, n)))
	}
}
