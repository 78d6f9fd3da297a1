package check

import (
	"strings"

	"xxverif/ai"
)

func init() {
	registry["K03"] = checkK03
	registry["K04"] = checkK04
}

// keyPoint is one key at one point of comparison.
type keyPoint struct {
	st   *ai.State
	k    *ai.Term
	ks   keyState
	pt   point
	scen string
}

// keyPoints expands a point into the keys the path knows about; keys written
// blindly are split over what they may have held before.
func (cw *CW) keyPoints(pt point) []keyPoint {
	seen := map[*ai.Term]bool{}
	var keys []*ai.Term
	addK := func(k *ai.Term) {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for _, k := range tags(pt.st) {
		if isKeyTag(pt.st.Tags[k]) {
			addK(k)
		}
	}
	for _, r := range []role{cw.Data, cw.Exp} {
		for _, d := range []*ai.Term{r.d, cw.cur(pt.st, r)} {
			for _, k := range pt.st.DictKeys(d) {
				addK(k)
			}
		}
	}
	var out []keyPoint
	for _, k := range keys {
		if tag, ok := pt.st.Tags[k]; ok {
			out = append(out, keyPoint{pt.st, k, cw.look(pt.st, k), pt, tag})
			continue
		}
		for _, a := range cw.scenarios(k) {
			if st := cw.seedState(pt.st, a, k); st != nil {
				out = append(out, keyPoint{st, k, cw.look(st, k), pt, a.Tag})
			}
		}
	}
	return out
}

// succeeded: the command returned without error (or has none).
func (cw *CW) succeeded(run *Run) bool {
	_, err := cw.split(run)
	return err.IsNil() || err == cw.Nil
}

func checkK03(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "For every command, scenario and path, and every loop iteration, the deadline stored for each key the command touches is compared with the specification: overwriting and deleting commands leave none, SETEX/PSETEX leave now plus the lifetime, PEXPIREAT the given instant, every other command leaves a live key's deadline as it was, and no deadline is left for a key that is gone or was created without one."
	n := 0
	for _, op := range sortedOps(cw.Ops) {
		name := cw.name(op)
		cw.each(r, []string{op}, func(run *Run) {
			for _, pt := range cw.points(run) {
				for _, kp := range cw.keyPoints(pt) {
					n++
					cw.deadlineRule(r, run, name, kp)
				}
			}
			if op == "Flush" {
				k := ai.IfaceOf(stringType, ai.Sym("anykey", stringType))
				for _, x := range []role{cw.Data, cw.Exp} {
					d := cw.cur(run.O.St, x)
					known, has, _ := run.O.St.DictCur(d, k)
					r.Check(known && !has, "flush", name, "a value or deadline may survive FLUSH in %s", d)
				}
				n++
			}
		})
	}
	r.Floor("keys examined", n, 500)
}

func (cw *CW) deadlineRule(r *Rep, run *Run, name string, kp keyPoint) {
	st, ks, scen := kp.st, kp.ks, kp.scen
	say := func(ok bool, what string) {
		r.Check(ok, "deadline", name, "[%s] %s: %s (path: %s)", scen, what, ks, facts(st))
	}
	ok := cw.succeeded(run)
	isArg := kp.pt.out == nil || cw.singleKey(cw.Ops[run.Op]) && kp.k == keyOf(run.Args)
	gone := ks.gone(st)
	none := ks.eKnown && !ks.eHas
	switch {
	case (run.Op == "Set" || run.Op == "GetSet" || run.Op == "MSet" || run.Op == "Del" || run.Op == "Flush") && ok && isArg:
		say(none || gone && ks.expSame(st) && strings.HasPrefix(scen, "expired"), "an overwritten or deleted key keeps a deadline")
	case (run.Op == "SetEX" || run.Op == "PSetEX") && ok && isArg && kp.pt.out != nil:
		unit, max := int64(1e9), int64(9e9)
		if run.Op == "PSetEX" {
			unit, max = 1e6, 9e12
		}
		arg := run.Args[3]
		s := st.Clone()
		if !s.Assume(ai.Lt(ai.Int(0), arg), true) || !s.Assume(ai.Le(arg, ai.Int(max)), true) {
			say(true, "")
			return
		}
		want := ai.Add(cw.Now, ai.Scale(arg, unit))
		got := ks.eVal
		if ks.eKnown && ks.eHas && got != nil && got.Op == ai.OIface {
			d := s.Norm(ai.Sub(ai.Ring(got.Args[0]), want))
			say(d.IsInt() && d.K == 0, "the deadline is not now plus the requested lifetime "+want.String())
			return
		}
		say(false, "the requested deadline is not stored")
	case run.Op == "PExpireAt" && isArg && live(scen) && kp.pt.out != nil:
		rets, _ := cw.split(run)
		say(ks.dataSame(st), "PEXPIREAT changed the value")
		s := st.Clone()
		if !s.Assume(ai.Lt(cw.Now, run.Args[2]), true) {
			return
		}
		r.Check(len(rets) == 1 && s.Norm(rets[0]).String() == "1", "deadline", name, "[%s] PEXPIREAT on a live key reports %v", scen, rets)
		say(ks.eKnown && ks.eHas && ks.eVal != nil && ks.eVal.Op == ai.OIface && s.Norm(ks.eVal.Args[0]) == s.Norm(run.Args[2]), "the deadline is not the requested instant")
	case live(scen):
		if ks.dKnown && !ks.dHas {
			say(none, "a deleted key keeps a deadline")
			return
		}
		say(ks.expSame(st), "the deadline of a live key changed")
	default: // absent or expired before
		if gone {
			say(none || strings.HasPrefix(scen, "expired") && ks.expSame(st) && ks.dataSame(st), "a deadline is left for a key that does not exist")
			return
		}
		say(none, "a key created without a deadline has one")
	}
}

func checkK04(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "The goroutine started by Cron is interpreted: it never ends; every pass ranges completely over the deadlines (or the values); in each iteration an expired key loses value and deadline (at once, or through a collection that is traversed completely), and every other key is left exactly as it was."
	f := w.Method(cw.T, "Cron")
	if f == nil {
		r.Fail("roles", "cache.(*Cache).Cron", "not found")
		return
	}
	passes, iters := 0, 0
	for _, o := range cw.E.Run(f, []*ai.Term{cw.C}, cw.Base.Clone()) {
		var gos []*ai.Event
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "go" {
				gos = append(gos, ev)
			}
		}
		name := w.fnName(f) + " goroutine"
		ended := o.Kind == ai.Ret
		r.Check(o.Kind == ai.Ret || o.Kind == ai.Exit && o.Val == ai.Diverges, "sweep", w.fnName(f), "Cron does not start the sweep: %s", o.Val)
		var outs []*ai.Outcome
		if len(gos) > 0 {
			for _, ev := range gos {
				outs = append(outs, cw.E.RunClosure(ev.Args[0], ev.Args[1:], started(o.St), "sweep")...)
			}
		} else if !ended {
			outs = append(outs, o)
		}
		r.Check(len(outs) > 0, "sweep", w.fnName(f), "Cron starts no background sweep")
		for _, g := range outs {
			if !r.Check(g.Kind == ai.Exit && g.Val == ai.Diverges, "passes repeat", name, "the sweep can end (%s) at %s (path: %s)", g.Kind, w.Pos(g.Pos), facts(g.St)) {
				continue
			}
			es := g.St.Events()
			var l *ai.LoopInfo
			for i := len(es) - 1; i >= 0 && l == nil; i-- {
				l = es[i].Loop
			}
			for _, b := range l.Backs {
				passes++
				iters += cw.pass(r, name, l, b)
			}
		}
	}
	r.Floor("passes of the sweep", passes, 1)
	r.Floor("iterations of a pass", iters, 4)
}

func (cw *CW) pass(r *Rep, name string, endless *ai.LoopInfo, b *ai.Iter) int {
	w := cw.W
	n := 0
	// a pass must come round again
	for _, ev := range b.Events {
		if ev.Kind == "recv" {
			src := ev.Args[0].String()
			r.Check(strings.Contains(src, "ticker@") || madeIn(b.Events, ev), "passes repeat", name, "a pass waits for %s, which need not fire again, at %s", src, w.Pos(ev.Pos))
		}
	}
	type coll struct {
		v *ai.LoopVar
	}
	var pend []coll
	swept, done := false, true
	for _, l := range loopsOf(b.Events) {
		ov := over(l)
		ranged := ov != nil && (ov == cw.cur(b.St, cw.Exp) || ov == cw.cur(b.St, cw.Data))
		if ranged {
			swept = true
			r.Check(wholeRange(b.Events, l), "complete pass", name, "a pass can stop before it has seen every key, at %s", w.Pos(l.Pos))
		}
		for i, it := range l.Backs {
			for _, kp := range cw.keyPoints(point{st: it.St}) {
				n++
				if !strings.HasPrefix(kp.scen, "expired") {
					r.Check(kp.ks.dataSame(it.St) && kp.ks.expSame(it.St) || !kp.ks.d0Has && !kp.ks.dHas && !kp.ks.eHas, "live keys untouched", name, "a pass changes a key that is %s: %s (path: %s)", kp.scen, kp.ks, facts(it.St))
					continue
				}
				removed := kp.ks.dKnown && !kp.ks.dHas && kp.ks.eKnown && !kp.ks.eHas
				if removed {
					continue
				}
				// collected for later?
				found := false
				for _, v := range l.Vars {
					s := v.Steps[i]
					if ranged && s.Op == ai.OCat && len(s.Args) == 2 && s.Args[0] == v.Sym && s.Args[1].Op == ai.OUnit && isKeyTerm(it.St, s.Args[1].Args[0], kp.k) {
						pend = append(pend, coll{v})
						found = true
					}
				}
				if !found {
					r.Check(false, "expired keys removed", name, "a pass leaves an expired key behind: %s (path: %s)", kp.ks, facts(it.St))
				}
			}
		}
		// does this loop traverse a collection completely?
		for j := 0; j < len(pend); j++ {
			c := pend[j].v
			if l == c.Loop {
				continue
			}
			all := len(l.Backs) > 0
			for _, it := range l.Backs {
				hit := false
				for _, k := range tags(it.St) {
					in := k
					for in.Op == ai.OIface {
						in = in.Args[0]
					}
					if in.Op == ai.OElem && in.Args[0] == c.Sym || ai.Contains(in, c.Sym) {
						hit = true
					}
				}
				all = all && hit
			}
			if !all {
				continue
			}
			complete := false
			for _, v := range l.Vars {
				one := v.Init != nil && v.Init.IsInt() && ai.IsIntType(v.Sym.T)
				for i, s := range v.Steps {
					d := l.Backs[i].St.Norm(ai.Sub(s, v.Sym))
					one = one && d.IsInt() && d.K == 1
				}
				if one && (v.Init.K == -1 && b.St.EntailsLe0(ai.Sub(ai.Len(c.Sym), ai.AddK(v.Sym, 1))) || v.Init.K == 0 && b.St.EntailsLe0(ai.Sub(ai.Len(c.Sym), v.Sym))) {
					complete = true
				}
			}
			if complete {
				pend = append(pend[:j], pend[j+1:]...)
				j--
			}
		}
	}
	done = len(pend) == 0
	r.Check(swept, "complete pass", name, "a pass looks at no dictionary of keys (path: %s)", facts(b.St))
	r.Check(done, "expired keys removed", name, "expired keys are collected but the collection is not removed completely")
	return n
}

func isKeyTerm(st *ai.State, x, k *ai.Term) bool {
	x, k = st.Norm(x), st.Norm(k)
	if x == k {
		return true
	}
	for x.Op == ai.OIface {
		x = x.Args[0]
	}
	in := k
	for in.Op == ai.OIface {
		in = in.Args[0]
	}
	return x == in || x == st.Norm(ai.Unwrap(in, stringType))
}

// madeIn: the channel waited on was created in the same pass.
func madeIn(evs []*ai.Event, recv *ai.Event) bool {
	for _, ev := range evs {
		if ev == recv {
			break
		}
		if ev.Kind == "ext" && (strings.Contains(ev.Name, "time.After") || strings.Contains(ev.Name, "time.NewTimer")) {
			return true
		}
	}
	return false
}
