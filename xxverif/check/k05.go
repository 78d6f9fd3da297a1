package check

import (
	"strings"

	"xxverif/ai"
)

func init() {
	registry["K05"] = checkK05
	registry["K06"] = checkK06
}

// readBack runs a reader on the state a writer left and demands want.
func (cw *CW) readBack(r *Rep, rule, name, ctx string, st *ai.State, op string, want *ai.Term, args ...*ai.Term) {
	n := 0
	for _, o := range cw.RunOp(op, st, args...) {
		if o.Kind == ai.Stuck {
			r.Fail("undecided", name, "reading back with %s: %v", op, o.Val)
			continue
		}
		n++
		if o.Kind != ai.Ret {
			r.Fail(rule, name, "%s: reading back with %s ends in a %s", ctx, op, o.Kind)
			continue
		}
		rets, err := splitErr(cw.Ops[op].Signature, o)
		if !r.Check(err.IsNil(), rule, name, "%s: %s on what was stored fails with %s (path: %s)", ctx, op, err, facts(o.St)) {
			continue
		}
		w := o.St.Norm(want)
		r.Check(len(rets) == 1 && rets[0] == w, rule, name, "%s: %s returns %v instead of %s (path: %s)", ctx, op, rets, w, facts(o.St))
	}
	r.Check(n > 0, rule, name, "%s: %s cannot be followed on the resulting state", ctx, op)
}

// hashRuns prepares the runs of hash commands field by field.
func (cw *CW) fieldSym(d, k *ai.Term, t string) *ai.Term {
	for _, ft := range cw.FVals {
		if shortType(ft) == t {
			return ai.Sym("fv:"+d.String()+":"+k.String(), ft)
		}
	}
	return nil
}

func fieldTag(st *ai.State, f *ai.Term) string { return st.Tags[f] }

// fieldText: for each type a field may hold, what HGET returns for it.
func (cw *CW) fieldText() map[string]*ai.Term {
	m := map[string]*ai.Term{}
	for _, run := range cw.Runs("HGet") {
		if run.O.Kind != ai.Ret || !live(run.Scen) || cw.scenKind(run.Scen) != "hash" {
			continue
		}
		f := ai.IfaceOf(stringType, run.Args[2])
		tag := run.O.St.Tags[f]
		if !strings.HasPrefix(tag, "field:") {
			continue
		}
		rets, err := cw.split(run)
		if !err.IsNil() || len(rets) != 1 {
			continue
		}
		t := scenType(tag)
		from := cw.fieldSym(cw.heDict(keyOf(run.Args)), f, t)
		x := ai.Subst(rets[0], map[*ai.Term]*ai.Term{from: ai.Sym("FIELD", from.T)})
		if m[t] == nil {
			m[t] = x
		} else if m[t] != x {
			m[t] = ai.Str("\x00ambiguous:" + t)
		}
	}
	return m
}

func (cw *CW) fieldTextAt(m map[string]*ai.Term, t string, sym *ai.Term) *ai.Term {
	x := m[t]
	if x == nil || sym == nil {
		return nil
	}
	return ai.Subst(x, map[*ai.Term]*ai.Term{ai.Sym("FIELD", sym.T): sym})
}

func checkK05(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Each writer is composed with GET (HGET): on every path of the writer that stores its argument, GET interpreted on the resulting state returns exactly that argument. Every other reader is shown to agree with GET (HGET) for each kind of stored value: STRLEN and HSTRLEN return its length, GETSET, MGET, HMGET, HVALS, HGETALL the same text, APPEND extends that text."
	text, ftext := cw.textOf(), cw.fieldText()
	for _, t := range cw.Vals {
		if cw.kindOf(t) == "string" {
			r.Check(text[shortType(t)] != nil, "readable", cw.name("Get"), "GET has no result for a live key holding %s", shortType(t))
		}
	}
	for _, t := range cw.FVals {
		r.Check(ftext[shortType(t)] != nil, "readable", cw.name("HGet"), "HGET has no result for a field holding %s", shortType(t))
	}
	writes := 0
	// writers of one key
	for _, x := range []struct {
		op  string
		arg int
	}{{"Set", 2}, {"SetNX", 2}, {"SetEX", 2}, {"PSetEX", 2}, {"GetSet", 2}} {
		cw.each(r, []string{x.op}, func(run *Run) {
			_, err := cw.split(run)
			if !err.IsNil() && !(x.op == "GetSet" && err == cw.Nil) {
				return
			}
			if x.op == "SetNX" && live(run.Scen) {
				return
			}
			st := run.O.St
			if x.op == "SetEX" || x.op == "PSetEX" {
				max := int64(9e9)
				if x.op == "PSetEX" {
					max = 9e12
				}
				st = st.Clone()
				if !st.Assume(ai.Lt(ai.Int(0), run.Args[3]), true) || !st.Assume(ai.Le(run.Args[3], ai.Int(max)), true) {
					return
				}
			}
			writes++
			cw.readBack(r, "read back", cw.name(x.op), "["+run.Scen+"]", st, "Get", run.Args[x.arg], run.Args[1])
		})
	}
	// APPEND
	cw.each(r, []string{"Append"}, func(run *Run) {
		rets, err := cw.split(run)
		var want *ai.Term
		switch {
		case run.Scen == "absent" || strings.HasPrefix(run.Scen, "expired"):
			want = run.Args[2]
		case cw.scenKind(run.Scen) == "string":
			old := cw.textAt(text, scenType(run.Scen), keyOf(run.Args))
			if old == nil {
				return
			}
			want = ai.Cat(old, run.Args[2])
		default:
			return
		}
		writes++
		if r.Check(err.IsNil(), "read back", cw.name("Append"), "[%s] APPEND fails with %s", run.Scen, err) {
			l := run.O.St.Norm(ai.Len(want))
			r.Check(len(rets) == 1 && (rets[0] == l || zero0(run.O.St, ai.Sub(rets[0], l))), "length", cw.name("Append"), "[%s] APPEND reports length %v instead of %s", run.Scen, rets, l)
			cw.readBack(r, "read back", cw.name("Append"), "["+run.Scen+"]", run.O.St, "Get", want, run.Args[1])
		}
	})
	// bulk writers: each iteration stores the value of its own key
	for _, x := range []struct{ op, get string }{{"MSet", "Get"}, {"MSetNX", "Get"}, {"HMSet", "HGet"}} {
		cw.each(r, []string{x.op}, func(run *Run) {
			if x.op == "HMSet" && live(run.Scen) && cw.scenKind(run.Scen) != "hash" {
				return
			}
			m := run.Args[len(run.Args)-1]
			l := wholeLoop(r, cw.name(x.op), run, m)
			if l == nil {
				return
			}
			for _, it := range l.Backs {
				k, v := rangePair(it, m)
				if k == nil {
					r.Fail("undecided", cw.name(x.op), "an iteration without key and value")
					continue
				}
				tag := it.St.Tags[ai.IfaceOf(stringType, k)]
				if x.op == "MSetNX" && live(tag) {
					continue
				}
				writes++
				ctx := "iteration [" + tag + "]"
				if x.get == "Get" {
					cw.readBack(r, "read back", cw.name(x.op), ctx, it.St, "Get", v, k)
				} else {
					cw.readBack(r, "read back", cw.name(x.op), ctx, it.St, "HGet", v, run.Args[1], k)
				}
			}
		})
	}
	for _, op := range []string{"HSet", "HSetNX"} {
		cw.each(r, []string{op}, func(run *Run) {
			_, err := cw.split(run)
			if !err.IsNil() {
				return
			}
			f := ai.IfaceOf(stringType, run.Args[2])
			if op == "HSetNX" && strings.HasPrefix(run.O.St.Tags[f], "field:") {
				return
			}
			writes++
			cw.readBack(r, "read back", cw.name(op), "["+run.Scen+" "+run.O.St.Tags[f]+"]", run.O.St, "HGet", run.Args[3], run.Args[1], run.Args[2])
		})
	}
	r.Floor("writer paths read back", writes, 120)
	// readers agree with GET
	agree := 0
	for _, op := range []string{"GetSet", "StrLen"} {
		cw.each(r, []string{op}, func(run *Run) {
			if !live(run.Scen) || cw.scenKind(run.Scen) != "string" {
				return
			}
			want := cw.textAt(text, scenType(run.Scen), keyOf(run.Args))
			if want == nil {
				return
			}
			if op == "StrLen" {
				want = ai.Len(want)
			}
			rets, err := cw.split(run)
			agree++
			want = run.O.St.Norm(want)
			r.Check(err.IsNil() && len(rets) == 1 && rets[0] == want, "readers agree", cw.name(op), "[%s] returns %v, %s instead of %s", run.Scen, rets, err, want)
		})
	}
	cw.each(r, []string{"MGet"}, func(run *Run) {
		for _, l := range loopsOf(run.O.St.Events()) {
			for i, it := range l.Backs {
				for _, k := range tags(it.St) {
					tag := it.St.Tags[k]
					if !live(tag) || cw.scenKind(tag) != "string" {
						continue
					}
					want := cw.textAt(text, scenType(tag), k)
					if want == nil {
						continue
					}
					agree++
					_, slot, ok := slotOf(l, i)
					want = it.St.Norm(ai.IfaceOf(stringType, want))
					r.Check(ok && slot == want, "readers agree", cw.name("MGet"), "[%s] the slot holds %v instead of %s", tag, slot, want)
				}
			}
		}
	})
	cw.each(r, []string{"HStrLen"}, func(run *Run) {
		f := ai.IfaceOf(stringType, run.Args[2])
		tag := run.O.St.Tags[f]
		if !strings.HasPrefix(tag, "field:") || !live(run.Scen) {
			return
		}
		want := cw.fieldTextAt(ftext, scenType(tag), cw.fieldSym(cw.heDict(keyOf(run.Args)), f, scenType(tag)))
		if want == nil {
			return
		}
		rets, err := cw.split(run)
		agree++
		want = run.O.St.Norm(ai.Len(want))
		r.Check(err.IsNil() && len(rets) == 1 && rets[0] == want, "readers agree", cw.name("HStrLen"), "[%s] returns %v, %s instead of %s", tag, rets, err, want)
	})
	r.Floor("reader paths compared with GET", agree, 20)
}

// rangePair is the key and value of an iteration over map m.
func rangePair(it *ai.Iter, m *ai.Term) (k, v *ai.Term) {
	for _, ev := range it.Events {
		if ev.Kind == "range.next" && ev.Args[0] == m {
			k, v = ev.Args[1], it.St.Norm(ev.Args[2])
			if k.Op == ai.OIface {
				k = k.Args[0]
			}
			return k, v
		}
	}
	return nil, nil
}

// slotOf is what iteration i of loop l adds to the collected result: a new
// element at the end or an assignment to one position.
func slotOf(l *ai.LoopInfo, i int) (at, v *ai.Term, ok bool) {
	st := l.Backs[i].St
	for _, lv := range l.Vars {
		s := st.Norm(lv.Steps[i])
		if s.Op == ai.OCat && len(s.Args) == 2 && s.Args[0] == lv.Sym && s.Args[1].Op == ai.OUnit {
			return ai.Len(lv.Sym), st.Norm(s.Args[1].Args[0]), true
		}
		if s.Op == ai.OUpd && s.Args[0] == lv.Sym {
			return s.Args[1], st.Norm(s.Args[2]), true
		}
	}
	return nil, nil, false
}

// slotVar is the sequence an iteration fills, and what it puts there.
func slotVar(l *ai.LoopInfo, i int) (*ai.LoopVar, *ai.Term) {
	st := l.Backs[i].St
	for _, lv := range l.Vars {
		s := st.Norm(lv.Steps[i])
		if s.Op == ai.OCat && len(s.Args) == 2 && s.Args[0] == lv.Sym && s.Args[1].Op == ai.OUnit {
			return lv, st.Norm(s.Args[1].Args[0])
		}
		if s.Op == ai.OUpd && s.Args[0] == lv.Sym {
			return lv, st.Norm(s.Args[2])
		}
	}
	return nil, nil
}

func checkK06(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Every string, hash and list command is interpreted on live keys of every other kind, without and with a deadline: the result must be the wrong-type error and the final value, fields and deadline those it began with. TYPE is checked on every scenario."
	exempt := map[string]bool{"Set": true, "SetEX": true, "PSetEX": true, "MSet": true, "SetNX": true, "MSetNX": true}
	n := 0
	for _, op := range opsWhere(func(op, c string) bool { return c != "key" && !exempt[op] }) {
		class := cacheOps[op]
		name := cw.name(op)
		if op == "MGet" {
			cw.each(r, []string{op}, func(run *Run) {
				for _, l := range loopsOf(run.O.St.Events()) {
					for i, it := range l.Backs {
						for _, k := range tags(it.St) {
							tag := it.St.Tags[k]
							if !live(tag) || cw.scenKind(tag) == "string" {
								continue
							}
							n++
							_, slot, ok := slotOf(l, i)
							r.Check(ok && slot == cw.Wrong, "wrong-type error", name, "[%s] the slot holds %v", tag, slot)
							ks := cw.look(it.St, k)
							r.Check(ks.dataSame(it.St) && ks.expSame(it.St), "nothing changes", name, "[%s] %s", tag, ks)
						}
					}
				}
			})
			continue
		}
		cw.each(r, []string{op}, func(run *Run) {
			if !live(run.Scen) || cw.scenKind(run.Scen) == class || cw.scenKind(run.Scen) == "other" {
				return
			}
			n++
			rets, err := cw.split(run)
			r.Check(err == cw.Wrong || cw.refusedAnyway(run, err), "wrong-type error", name, "[%s] returns %v, error %s (path: %s)", run.Scen, rets, err, facts(run.O.St))
			cw.unchanged(r, "nothing changes", name, run)
		})
	}
	cw.each(r, []string{"Type"}, func(run *Run) {
		want := "none"
		if live(run.Scen) {
			want = cw.scenKind(run.Scen)
		}
		n++
		rets, _ := cw.split(run)
		r.Check(len(rets) == 1 && rets[0] == ai.Str(want), "TYPE", cw.name("Type"), "[%s] TYPE answers %v instead of %q", run.Scen, rets, want)
	})
	r.Floor("wrong-kind paths", n, 60)
}

// unchanged: no live key differs from what it was, and none appeared.
func (cw *CW) unchanged(r *Rep, rule, name string, run *Run) {
	for _, pt := range cw.points(run) {
		for _, kp := range cw.keyPoints(pt) {
			if live(kp.scen) {
				r.Check(kp.ks.dataSame(kp.st) && kp.ks.expSame(kp.st), rule, name, "[%s] %s (path: %s)", kp.scen, kp.ks, facts(kp.st))
			} else {
				r.Check(kp.ks.gone(kp.st) && (!kp.ks.eHas || kp.ks.expSame(kp.st)), rule, name, "[%s] a key appears: %s (path: %s)", kp.scen, kp.ks, facts(kp.st))
			}
		}
	}
	evs, sts := withStates(run.O.St, run.O.St.Events())
	for i, ev := range evs {
		switch ev.Kind {
		case "dict.store", "dict.delete", "dict.clear":
			d := ev.Args[0]
			if cw.isHash(d) && ai.Root(d).Op != ai.OAlloc {
				if ev.Kind == "dict.delete" && sts[i].Tags[ev.Args[1]] == "nofield" {
					continue
				}
				r.Fail(rule, name, "[%s] %s on the fields of a live hash at %s (path: %s)", run.Scen, ev.Kind, cw.W.Pos(ev.Pos), facts(sts[i]))
			}
		case "mem.store":
			rt := ai.Root(ev.Args[0])
			if rt.Op != ai.OAlloc && (cw.sharedRoot(rt)) && rt.Op != ai.OGlobal {
				r.Fail(rule, name, "[%s] writes %s at %s (path: %s)", run.Scen, cellPath(ev.Args[0]), cw.W.Pos(ev.Pos), facts(sts[i]))
			}
		}
	}
}

// refusedAnyway: the same error is given for an absent key too, so that it is
// the arguments that are invalid.
func (cw *CW) refusedAnyway(run *Run, err *ai.Term) bool {
	if err.IsNil() || err == cw.Nil {
		return false
	}
	for _, a := range cw.Runs(run.Op) {
		if a.Scen != "absent" || a.O.Kind != ai.Ret {
			continue
		}
		s := compatible(run.O.St, a.O.St)
		if s == nil {
			continue
		}
		if _, e := cw.split(a); e != err {
			return false
		}
	}
	return true
}
