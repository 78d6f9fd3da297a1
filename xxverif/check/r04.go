package check

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["R04"] = checkR04 }

// quota is the largest constant a loop may count to without reading.
const quota = 1 << 24

func checkR04(w *World, r *Rep) {
	r.Explain = "Every path of the snapshot loader, with every decoder also failing and panicking and every unproved operation of its own also panicking: no panic leaves the loader. Every path of the loader and of each decoder on its own, over unknown bytes: none terminates the process, starts a goroutine whose panic nobody recovers, recurses, or waits for ever; and every loop on them makes progress: an iteration reads from the stream, or visits the next element of data in memory, or moves a counter towards a bound that is a length of data in memory or a constant. A count announced by the input is no bound."
	w.net(r)
	r.Assume = append(r.Assume, "memory is not exhausted", "reading a file ends: a regular file has an end", "the C functions return (Z01)", "the commands sent are received")
	x := w.rdbWorld(r, true)
	if x == nil {
		return
	}
	x.e.ForkPanic = true
	rec := 0
	loops := 0
	seen := map[*ssa.Function]bool{}
	look := func(name string, outs []*ai.Outcome) {
		done := map[*ai.LoopInfo]bool{}
		for _, o := range outs {
			r.Paths++
			if o.Kind == ai.Exit {
				what := "ends the process"
				if o.Val == ai.Diverges {
					what = "never leaves a loop"
				}
				r.Fail("returns", name, "%s at %s (path: %s)", what, w.Pos(o.Pos), facts(o.St))
			}
			evs := flat(o.St.Events())
			for _, ev := range evs {
				switch ev.Kind {
				case "exit":
					r.Fail("returns", name, "calls %s at %s (path: %s)", ev.Name, w.Pos(ev.Pos), facts(o.St))
				case "recurse":
					r.Fail("returns", name, "%s recurses at %s: nothing bounds the stack", ev.Name, w.Pos(ev.Pos))
				case "deadlock", "badunlock", "block", "lock.imbalance":
					r.Fail("returns", name, "%s at %s (path: %s)", ev.Kind, w.Pos(ev.Pos), facts(o.St))
				case "recovered":
					rec++
				case "go":
					f := ev.Args[0].Fn
					if f == nil || f.Blocks == nil {
						r.Fail("goroutines", name, "starts the unknown %s at %s", ev.Name, w.Pos(ev.Pos))
						continue
					}
					if seen[f] {
						continue
					}
					seen[f] = true
					e := x.e.With()
					for _, g := range e.RunClosure(ev.Args[0], ev.Args[1:], started(o.St), "go") {
						r.Check(g.Kind != ai.Pan, "goroutines", w.place(f), "a panic in this goroutine is recovered by nobody: %s at %s (path: %s)", g.Val, w.Pos(g.Pos), facts(g.St))
					}
				}
			}
			for _, l := range loopsOf(o.St.Events()) {
				if done[l] {
					continue
				}
				done[l] = true
				loops++
				at := w.place(l.Fn)
				stuck := w.spins(l)
				r.Check(stuck == nil, "progress", at, "the loop at %s can go on for ever, or as often as the input announces, without reading (path of such an iteration: %s)", w.Pos(l.Pos), factsOf(stuck))
			}
		}
	}
	outs := x.run(x.load, x.repl)
	for _, o := range outs {
		r.Check(o.Kind != ai.Pan, "panics are contained", w.place(x.load), "a panic leaves the loader: %s at %s (path: %s)", o.Val, w.Pos(o.Pos), facts(o.St))
	}
	look(w.place(x.load), outs)
	n := 0
	for _, pkg := range []string{"redis/rdb", "redis/lzf", "redis/ziplist", "redis/intset", "redis/zipmap"} {
		for _, f := range w.decoders(pkg) {
			n++
			as := w.symArgs(f)
			outs := w.run(r, f, as, nil)
			look(w.place(f), outs)
			// what the loader's own loops rely on
			if len(as) == 1 && isReader(as[0].T) {
				sig := f.Signature
				for _, o := range outs {
					if o.Kind != ai.Ret {
						continue
					}
					if _, err := splitErr(sig, o); err != nil && !err.IsNil() {
						continue
					}
					end := w.E.Offset(o.St, as[0])
					r.Check(end != nil && o.St.EntailsLe0(ai.AddK(ai.Sub(ai.Int(0), end), 1)), "decoders read", w.place(f), "succeeds without reading a byte (path: %s)", facts(o.St))
				}
			}
		}
	}
	r.Floor("decoders", n, 8)
	r.Floor("loops", loops, 10)
	r.Floor("recovered panics", rec, 1)
}

func isReader(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "bufio.Reader")
}

func factsOf(st *ai.State) string {
	if st == nil {
		return ""
	}
	return facts(st)
}

// spins finds an iteration of a loop that nothing bounds.
func (w *World) spins(l *ai.LoopInfo) *ai.State {
	return spinsBeyond(l, quota, nil)
}

// spinsBeyond allows counting up to a limit, and iterations that are known to
// make progress.
func spinsBeyond(l *ai.LoopInfo, quota int64, moves func(b *ai.Iter) bool) *ai.State {
	if l.Over != nil {
		return nil
	}
	type measure struct {
		up     func(j int) bool // does not fall
		strict func(j int) bool // grows, and cannot grow for ever
	}
	var ms []measure
	var own []*ai.Term // what the loop changes
	for _, v := range l.Vars {
		own = append(own, v.Sym)
	}
	fixed := func(t *ai.Term) bool {
		ok := true
		ai.Walk(t, func(x *ai.Term) bool {
			for _, o := range own {
				ok = ok && x != o
			}
			return ok
		})
		return ok
	}
	states := make([]*ai.State, len(l.Backs))
	for j, b := range l.Backs {
		states[j] = withInvariants(b.St, l)
	}
	below := func(st *ai.State, v *ai.Term) bool {
		if st.EntailsLe0(ai.AddK(v, -quota)) {
			return true
		}
		for _, n := range st.Lens() {
			if fixed(n) && inMemory(n.Args[0]) && st.EntailsLe0(ai.AddK(ai.Sub(v, n), -quota)) {
				return true
			}
		}
		return false
	}
	// what counts up does not start far below zero
	above := func(init *ai.Term) bool {
		if init == nil {
			return false
		}
		return withInvariants(l.Entry).EntailsLe0(ai.AddK(ai.Scale(init, -1), -quota)) || below(withInvariants(l.Entry), ai.Scale(init, -1))
	}
	counter := func(v *ai.LoopVar, now, init *ai.Term, step func(j int) *ai.Term) {
		delta := func(j int) *ai.Term { return l.Backs[j].St.Norm(ai.Sub(step(j), now)) }
		ms = append(ms, measure{
			up: func(j int) bool { return states[j].EntailsLe0(ai.Scale(delta(j), -1)) },
			strict: func(j int) bool {
				return states[j].EntailsLe0(ai.AddK(ai.Scale(delta(j), -1), 1)) && below(states[j], now) && above(init)
			},
		})
		if init == nil {
			return
		}
		ms = append(ms, measure{
			up: func(j int) bool { return states[j].EntailsLe0(delta(j)) },
			strict: func(j int) bool {
				return states[j].EntailsLe0(ai.AddK(delta(j), 1)) && states[j].EntailsLe0(ai.AddK(ai.Scale(now, -1), -quota)) && below(withInvariants(l.Entry), init)
			},
		})
	}
	for _, v := range l.Vars {
		v := v
		switch {
		case len(v.Steps) != len(l.Backs) || v.Sym == nil:
		case strings.HasPrefix(v.What, "off:"):
			d := func(j int) *ai.Term { return ai.Sub(v.Sym, atLeast(l.Backs[j].St.Norm(v.Steps[j]))) }
			ms = append(ms, measure{
				up:     func(j int) bool { return states[j].EntailsLe0(d(j)) },
				strict: func(j int) bool { return states[j].EntailsLe0(ai.AddK(d(j), 1)) },
			})
		case v.Sym.T == nil:
		case ai.IsIntType(v.Sym.T):
			counter(v, v.Sym, v.Init, func(j int) *ai.Term { return v.Steps[j] })
		default:
			// the rest of something in memory
			switch t := v.Sym.T.Underlying().(type) {
			case *types.Slice:
			case *types.Basic:
				if t.Info()&types.IsString == 0 {
					continue
				}
			default:
				continue
			}
			var init *ai.Term
			if v.Init != nil {
				init = ai.Len(v.Init)
			}
			counter(v, ai.Len(v.Sym), init, func(j int) *ai.Term { return ai.Len(v.Steps[j]) })
		}
	}
	left := map[int]bool{}
	for j, b := range l.Backs {
		left[j] = moves == nil || !moves(b)
	}
	for j := range l.Backs {
		if !left[j] {
			delete(left, j)
		}
	}
	descend := func() {
		for progress := true; progress && len(left) > 0; {
			progress = false
			for _, m := range ms {
				ok := true
				for j := range left {
					if !m.up(j) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				for j := range left {
					if m.strict(j) {
						delete(left, j)
						progress = true
					}
				}
			}
		}
	}
	descend()
	if len(left) > 0 {
		// iterations that none follows do not count
		for j := range left {
			if last(l, j) {
				delete(left, j)
			}
		}
		descend()
	}
	for j := range l.Backs {
		if left[j] && over(l) == nil {
			return l.Backs[j].St
		}
	}
	return nil
}

// atLeast is a lower bound of a stream offset: every decoder reads a byte or more.
func atLeast(off *ai.Term) *ai.Term {
	for off.Op == ai.OCall && strings.HasPrefix(off.S, "rdb") && strings.HasSuffix(off.S, "End") {
		off = ai.AddK(off.Args[1], 1)
	}
	return off
}

// last: no iteration can follow the one that ends with back j.
func last(l *ai.LoopInfo, j int) bool {
	m := map[*ai.Term]*ai.Term{}
	for _, v := range l.Vars {
		if j < len(v.Steps) && v.Steps[j] != nil {
			m[v.Sym] = l.Backs[j].St.Norm(v.Steps[j])
		}
	}
	for _, b := range l.Backs {
		c := l.Backs[j].St.Clone()
		possible := true
		for _, q := range b.St.Lits() {
			for v := range m {
				if possible && ai.Contains(q.T, v) {
					possible = c.Assume(c.Norm(ai.Subst(q.T, m)), q.Val)
				}
			}
		}
		if possible {
			return false
		}
	}
	return true
}

// inMemory: the sequence exists as such; it is not only announced.
func inMemory(t *ai.Term) bool {
	return t.Op != ai.ORep
}
