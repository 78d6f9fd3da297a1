package check

import (
	"fmt"
	"go/types"

	"xxverif/ai"
)

// A sweep is a sequence built by a loop that in every iteration writes one
// byte, at a position that moves on by one: over a byte that is there or at
// the end.
type sweep struct {
	l     *ai.LoopInfo
	v     *ai.Term // the content
	init  *ai.Term
	from  *ai.Term // position of the first byte written
	to    *ai.Term // position after the last
	moves []move   // quantities that change by the same in every iteration
	value *ai.Term // what is written, in the loop's variables
	atEnd bool     // every write is at the end
}

type move struct {
	q, init *ai.Term
	d       int64
}

// steps gives the content variables of a loop, with their initial values and
// what each iteration makes of them. A variable that is both reassigned and
// written through appears twice in the loop, and is one here.
type content struct {
	sym, alias, init *ai.Term
	steps            []*ai.Term
	seq              bool
}

func contents(l *ai.LoopInfo) (out []content) {
	through := map[string]*ai.LoopVar{}
	for _, v := range l.Vars {
		through[v.What] = v
	}
	for _, v := range l.Vars {
		if v.Init == nil || ai.IsIntType(v.Sym.T) {
			continue
		}
		c := content{sym: v.Sym, init: v.Init, steps: v.Steps}
		if m := through["mem:"+v.Sym.String()]; m != nil {
			c.sym, c.alias = m.Sym, v.Sym
			c.steps = nil
			for i := range v.Steps {
				if v.Steps[i] != v.Sym {
					c.steps = append(c.steps, v.Steps[i])
				} else {
					c.steps = append(c.steps, m.Steps[i])
				}
			}
		}
		c.seq = isSeq(c.sym)
		for _, s := range c.steps {
			c.seq = c.seq || s.Op == ai.OUpd || s.Op == ai.OCat
		}
		out = append(out, c)
	}
	return out
}

// written is the byte an iteration adds to v: where (nil for the end), what.
func written(st *ai.State, v, step *ai.Term) (at, b *ai.Term, ok bool) {
	step = st.Norm(step)
	switch {
	case step.Op == ai.OUpd && step.Args[0] == v:
		return step.Args[1], step.Args[2], true
	case step.Op == ai.OCat && len(step.Args) == 2 && step.Args[0] == v:
		if x := step.Args[1]; zero0(st, ai.AddK(ai.Len(x), -1)) {
			return nil, byteAt(x, ai.Int(0), 0), true
		}
	}
	return nil, nil, false
}

var intType = types.Typ[types.Int]

func isSeq(t *ai.Term) bool {
	if t.T == nil {
		return false
	}
	switch x := t.T.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

// movesOf are the integers, and the lengths, that change by the same amount in
// each iteration.
func movesOf(l *ai.LoopInfo) (out []move) {
	add := func(q, init *ai.Term, steps []*ai.Term) {
		d := int64(0)
		for i, s := range steps {
			if s == nil {
				return
			}
			x := l.Backs[i].St.Norm(ai.Sub(s, q))
			if !x.IsInt() || i > 0 && x.K != d {
				return
			}
			d = x.K
		}
		if len(steps) > 0 {
			out = append(out, move{q, init, d})
		}
	}
	for _, v := range l.Vars {
		if v.Init != nil && ai.IsIntType(v.Sym.T) {
			add(v.Sym, v.Init, v.Steps)
		}
	}
	for _, c := range contents(l) {
		if !c.seq {
			continue
		}
		var lens []*ai.Term
		for _, s := range c.steps {
			lens = append(lens, ai.Len(s))
		}
		add(ai.Len(c.sym), ai.Len(c.init), lens)
	}
	return out
}

// sweepOf tells how loop l writes v, or why that is not a sweep.
func sweepOf(l *ai.LoopInfo, v *ai.Term) (*sweep, string) {
	for _, c := range contents(l) {
		if c.sym != v && c.alias != v {
			continue
		}
		s := &sweep{l: l, v: c.sym, init: c.init, moves: movesOf(l), atEnd: true}
		var pos *ai.Term
		for i, step := range c.steps {
			at, b, ok := written(l.Backs[i].St, c.sym, step)
			if !ok {
				return nil, fmt.Sprintf("an iteration makes %s of it", step)
			}
			if s.value != nil && s.value != b {
				return nil, "iterations write different things"
			}
			s.value = b
			if at != nil {
				s.atEnd = false
				if pos != nil && pos != at {
					return nil, "iterations write at different positions"
				}
				pos = at
			}
		}
		if s.atEnd {
			s.from, s.to = ai.Len(c.init), ai.Len(c.sym)
			return s, ""
		}
		m0, m1 := map[*ai.Term]*ai.Term{}, map[*ai.Term]*ai.Term{}
		for _, m := range s.moves {
			m0[m.q], m1[m.q] = m.init, ai.AddK(m.q, m.d)
		}
		s.from, s.to = ai.Subst(pos, m0), pos
		if d := ai.Sub(ai.Subst(pos, m1), pos); !d.IsInt() || d.K != 1 {
			return nil, fmt.Sprintf("the position %s does not move on by one", pos)
		}
		// the bytes at the end are written there because nothing is left to
		// overwrite, the others because something is
		n := ai.Len(c.sym)
		n0 := ai.Len(c.init)
		for i, step := range c.steps {
			at, _, _ := written(l.Backs[i].St, c.sym, step)
			t := l.Backs[i].St.Clone()
			done := t.Fresh("iterations", intType)
			t.Assume(ai.Le(ai.Int(0), done), true)
			for _, m := range s.moves {
				t.Assume(ai.Eq(m.q, ai.Add(m.init, ai.Scale(done, m.d))), true)
			}
			if at != nil {
				if t.Assume(ai.Eq(n, pos), true) {
					return nil, "overwrites behind the end"
				}
			} else if t.Assume(ai.Eq(n, n0), true) && t.Assume(ai.Lt(pos, n0), true) {
				return nil, "appends although there are bytes to overwrite"
			}
		}
		return s, ""
	}
	return nil, "it is not built by the loop"
}

// ways splits a path by how its loops ended: without an iteration, or after
// one that was not the end yet.
func ways(st *ai.State, ls []*ai.LoopInfo, f func(*ai.State)) {
	if len(ls) == 0 {
		if !st.Impossible() {
			f(st)
		}
		return
	}
	l := ls[0]
	mv := movesOf(l)
	// no iteration
	s := st.Clone()
	ok := true
	for _, v := range l.Vars {
		if v.Init != nil && ai.IsIntType(v.Sym.T) {
			ok = ok && s.Assume(ai.Eq(v.Sym, v.Init), true)
		}
	}
	for _, c := range contents(l) {
		if c.seq {
			ok = ok && s.Assume(ai.Eq(ai.Len(c.sym), ai.Len(c.init)), true)
		}
	}
	if ok {
		ways(s, ls[1:], f)
	}
	for i, b := range l.Backs {
		s := st.Clone()
		n := s.Fresh("iterations", intType)
		ok := s.Assume(ai.Le(ai.Int(1), n), true)
		prev := map[*ai.Term]*ai.Term{}
		for _, m := range mv {
			ok = ok && s.Assume(ai.Eq(m.q, ai.Add(m.init, ai.Scale(n, m.d))), true)
			prev[m.q] = ai.AddK(m.q, -m.d)
		}
		// lengths and numbers that moved by something known in this one
		for _, v := range l.Vars {
			if v.Init != nil && ai.IsIntType(v.Sym.T) && prev[v.Sym] == nil {
				if d := b.St.Norm(ai.Sub(v.Steps[i], v.Sym)); d.IsInt() {
					prev[v.Sym] = ai.AddK(v.Sym, -d.K)
				}
			}
		}
		for _, c := range contents(l) {
			if n := ai.Len(c.sym); c.seq && prev[n] == nil {
				if d := b.St.Norm(ai.Sub(ai.Len(c.steps[i]), n)); d.IsInt() {
					prev[n] = ai.AddK(n, -d.K)
				}
			}
		}
		own := map[*ai.Term]bool{}
		for _, v := range l.Vars {
			own[v.Sym] = true
		}
		for _, lit := range b.St.Lits() {
			t := lit.T
			x := ai.Subst(t, prev)
			bad := false
			ai.Walk(t, func(y *ai.Term) bool {
				if prev[y] != nil {
					return false
				}
				bad = bad || own[y]
				return !bad
			})
			if !bad && ok {
				ok = s.Assume(x, lit.Val)
			}
		}
		if !ok {
			continue
		}
		// the two ways a sweep can stand
		alts := []*ai.State{s}
		for _, c := range contents(l) {
			sw, _ := sweepOf(l, c.sym)
			if sw == nil || sw.atEnd {
				continue
			}
			var next []*ai.State
			n, n0 := ai.Len(sw.v), ai.Len(sw.init)
			for _, a := range alts {
				if !a.EntailsLe0(a.Norm(ai.Sub(sw.from, n0))) {
					next = append(next, a)
					continue
				}
				x := a.Clone()
				if x.Assume(ai.Eq(n, n0), true) && x.Assume(ai.Le(sw.to, n0), true) {
					next = append(next, x)
				}
				x = a.Clone()
				if x.Assume(ai.Eq(n, sw.to), true) && x.Assume(ai.Lt(n0, sw.to), true) {
					next = append(next, x)
				}
			}
			alts = next
		}
		for _, a := range alts {
			ways(a, ls[1:], f)
		}
	}
}

// eachByte gives the byte of x at position k for each case in which it is a
// single term; it tells what it cannot follow.
func eachByte(st *ai.State, ls []*ai.LoopInfo, x, k *ai.Term, f func(*ai.State, *ai.Term)) string {
	x = st.Norm(x)
	split := func(c *ai.Term, yes, no func(*ai.State) string) string {
		s := st.Clone()
		if s.Assume(c, true) {
			if why := yes(s); why != "" {
				return why
			}
		}
		s = st.Clone()
		if s.Assume(c, false) {
			return no(s)
		}
		return ""
	}
	switch x.Op {
	case ai.OCat:
		p := x.Args[0]
		rest := ai.Cat(x.Args[1:]...)
		return split(ai.Lt(k, ai.Len(p)), func(s *ai.State) string {
			return eachByte(s, ls, p, k, f)
		}, func(s *ai.State) string {
			return eachByte(s, ls, rest, ai.Sub(k, ai.Len(p)), f)
		})
	case ai.OSub:
		return eachByte(st, ls, x.Args[0], ai.Add(x.Args[1], k), f)
	case ai.OUpd:
		return split(ai.Eq(k, x.Args[1]), func(s *ai.State) string {
			f(s, s.Norm(x.Args[2]))
			return ""
		}, func(s *ai.State) string {
			return eachByte(s, ls, x.Args[0], k, f)
		})
	case ai.ORep, ai.OUnit:
		f(st, st.Norm(x.Args[0]))
		return ""
	case ai.OStr:
		same := len(x.S) > 0
		for i := range x.S {
			same = same && x.S[i] == x.S[0]
		}
		if same {
			f(st, ai.Int(int64(x.S[0])))
			return ""
		}
	case ai.OSym:
		for _, l := range ls {
			sw, why := sweepOf(l, x)
			if sw == nil {
				if why != "it is not built by the loop" {
					return why
				}
				continue
			}
			if !zero0(st, ai.Sub(sw.from, ai.Len(sw.init))) && !st.EntailsLe0(st.Norm(ai.Sub(sw.from, ai.Len(sw.init)))) {
				return fmt.Sprintf("the first byte is written at %s, behind the end", sw.from)
			}
			before := func(s *ai.State) string { return eachByte(s, ls, sw.init, k, f) }
			return split(ai.Lt(k, sw.from), before, func(s *ai.State) string {
				t := s.Clone()
				if t.Assume(ai.Le(sw.to, k), true) {
					if why := before(t); why != "" {
						return why
					}
				}
				if !s.Assume(ai.Lt(k, sw.to), true) {
					return ""
				}
				at := map[*ai.Term]*ai.Term{}
				for _, m := range sw.moves {
					at[m.q] = ai.Add(m.init, ai.Scale(ai.Sub(k, sw.from), m.d))
				}
				f(s, s.Norm(ai.Subst(sw.value, at)))
				return ""
			})
		}
	}
	f(st, st.Norm(byteAt(x, k, 0)))
	return ""
}

// sameBytes compares two sequences byte by byte on a path.
func sameBytes(st *ai.State, ls []*ai.LoopInfo, x, want *ai.Term) string {
	why := ""
	ways(st, ls, func(s *ai.State) {
		if why != "" {
			return
		}
		if !sameNumber(s, ai.Len(x), ai.Len(want)) {
			why = fmt.Sprintf("has length %s, not %s (path: %s)", s.Norm(ai.Len(x)), s.Norm(ai.Len(want)), facts(s))
			return
		}
		k := s.Fresh("position", intType)
		if !s.Assume(ai.Le(ai.Int(0), k), true) || !s.Assume(ai.Lt(k, ai.Len(want)), true) {
			return
		}
		cannot := eachByte(s, ls, x, k, func(s *ai.State, a *ai.Term) {
			eachByte(s, nil, want, k, func(s *ai.State, b *ai.Term) {
				if why == "" && !sameByte(s, a, b) {
					why = fmt.Sprintf("has %s at position %s, not %s (path: %s)", a, k, b, facts(s))
				}
			})
		})
		if why == "" && cannot != "" {
			why = "cannot be followed: " + cannot
		}
	})
	return why
}

func sameByte(st *ai.State, a, b *ai.Term) bool {
	a, b = st.Norm(a), st.Norm(b)
	if a == b {
		return true
	}
	if a.Op == ai.OElem && b.Op == ai.OElem && a.Args[0] == b.Args[0] {
		return sameNumber(st, a.Args[1], b.Args[1])
	}
	return equalTo(st, a, b)
}

func sameNumber(st *ai.State, a, b *ai.Term) bool {
	d := ai.Sub(a, b)
	return zero0(st, d) || st.ProvesLe0(d) && st.ProvesLe0(ai.Scale(d, -1))
}
