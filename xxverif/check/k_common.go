package check

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"xxverif/ai"
)

// cache prepares the cache world for property r; nil when its roles are lost.
func (w *World) cache(r *Rep) *CW {
	cw, err := w.newCW()
	if err != nil {
		r.Fail("roles", "cache.Cache", "%v", err)
		return nil
	}
	for _, e := range cw.errs {
		r.Fail("roles", "cache.Cache", "%s", e)
	}
	r.Assume = append(r.Assume,
		"sync.Map, sync.RWMutex, strconv and time behave as documented (modelled, not analysed)",
		"time.Now() does not move during one command",
		"the cache's fields are reached only through its own methods (they are unexported)")
	return cw
}

// decided reports paths the analysis could not follow.
func (cw *CW) decided(r *Rep, run *Run) bool {
	if run.O.Kind == ai.Stuck {
		r.Fail("undecided", "cache.(*Cache)."+run.Op, "the analysis cannot follow this command: %v", run.O.Val)
		return false
	}
	return run.O.Kind == ai.Ret
}

// each visits the normal outcomes of the named commands (all when none given).
func (cw *CW) each(r *Rep, ops []string, f func(run *Run)) {
	if ops == nil {
		ops = sortedOps(cw.Ops)
	}
	for _, op := range ops {
		if cw.Ops[op] == nil {
			continue
		}
		for _, run := range cw.Runs(op) {
			if cw.decided(r, run) {
				f(run)
			}
		}
	}
}

func opsWhere(f func(op, class string) bool) []string {
	var s []string
	for op, c := range cacheOps {
		if f(op, c) {
			s = append(s, op)
		}
	}
	sort.Strings(s)
	return s
}

func tags(st *ai.State) []*ai.Term {
	var ks []*ai.Term
	for k := range st.Tags {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

// isKeyTag tells a cache key's scenario from a hash field's.
func isKeyTag(tag string) bool {
	return tag == "absent" || strings.HasPrefix(tag, "live") || strings.HasPrefix(tag, "expired")
}

// name is the stable construct of an operation in reports.
func (cw *CW) name(op string) string {
	f := cw.Ops[op]
	if f == nil {
		return "cache.(*Cache)." + op
	}
	return cw.W.fnName(f) + " (" + cw.W.Pos(f.Pos()) + ")"
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// split separates the results of a command from its error (Nil when it has none).
func (cw *CW) split(run *Run) (rets []*ai.Term, err *ai.Term) {
	return splitErr(cw.Ops[run.Op].Signature, run.O)
}

func splitErr(sig *types.Signature, o *ai.Outcome) (rets []*ai.Term, err *ai.Term) {
	n := sig.Results().Len()
	for i, t := range o.Rets {
		t = o.St.Norm(t)
		if i == n-1 && isErr(sig.Results().At(i).Type()) {
			return rets, t
		}
		rets = append(rets, t)
	}
	return rets, ai.Nil()
}

// zero0 decides e == 0 on a path, using the linear invariants of its loops.
// The loops in "in" are those st is an iteration of.
func zero0(st *ai.State, e *ai.Term, in ...*ai.LoopInfo) bool {
	e = st.Norm(e)
	if e.IsInt() {
		return e.K == 0
	}
	s := withInvariants(st, in...)
	e = s.Norm(e)
	if e.IsInt() {
		return e.K == 0
	}
	return s.EntailsLe0(e) && s.EntailsLe0(ai.Scale(e, -1))
}

// withInvariants adds to a copy of st the relations u-u0 == ±(v-v0) and v == v0
// that every back edge of its loops preserves.
func withInvariants(st *ai.State, in ...*ai.LoopInfo) *ai.State {
	s := st.Clone()
	for _, l := range append(in, loopsOf(st.Events())...) {
		type dv struct {
			now, init *ai.Term
			d         []int64
		}
		var vs []dv
		for _, v := range l.Vars {
			now, init := v.Sym, v.Init
			count := func(x *ai.Term) *ai.Term { return x }
			if init == nil {
				continue
			}
			if !ai.IsIntType(v.Sym.T) {
				if v.Sym.T == nil {
					continue
				}
				switch v.Sym.T.Underlying().(type) {
				case *types.Slice:
				default:
					continue
				}
				// a collection: its length is what grows
				count = ai.Len
				now, init = ai.Len(now), ai.Len(init)
			}
			var ds []int64
			ok := true
			for i, x := range v.Steps {
				d := l.Backs[i].St.Norm(ai.Sub(count(x), now))
				if !d.IsInt() {
					ok = false
					break
				}
				ds = append(ds, d.K)
			}
			if ok {
				vs = append(vs, dv{now, init, ds})
			}
		}
		for i, a := range vs {
			zero := true
			for _, d := range a.d {
				zero = zero && d == 0
			}
			if zero {
				s.Assume(ai.Eq(a.now, a.init), true)
			}
			for _, b := range vs[i+1:] {
				for _, c := range []int64{1, -1} {
					ok := true
					for j := range a.d {
						ok = ok && a.d[j] == c*b.d[j]
					}
					if ok {
						s.Assume(ai.Eq(ai.Sub(a.now, a.init), ai.Scale(ai.Sub(b.now, b.init), c)), true)
					}
				}
			}
		}
	}
	return s
}

// describe renders a stored value, following fresh objects.
func (cw *CW) describe(st *ai.State, v *ai.Term) string {
	var sb strings.Builder
	cw.desc(st, v, &sb, map[*ai.Term]bool{})
	return sb.String()
}

func (cw *CW) desc(st *ai.State, v *ai.Term, sb *strings.Builder, seen map[*ai.Term]bool) {
	if v == nil {
		sb.WriteString("?")
		return
	}
	v = st.Norm(v)
	if v.Op == ai.OIface {
		fmt.Fprintf(sb, "<%s>", shortType(v.T))
		cw.desc(st, v.Args[0], sb, seen)
		return
	}
	if ai.Root(v).Op != ai.OAlloc || v.T == nil || seen[v] {
		sb.WriteString(cw.E.Resolve(st, v).String())
		return
	}
	seen[v] = true
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		sb.WriteString(cw.E.Resolve(st, v).String())
		return
	}
	cw.descAt(st, v, pt.Elem(), sb, seen)
}

func (cw *CW) descAt(st *ai.State, a *ai.Term, t types.Type, sb *strings.Builder, seen map[*ai.Term]bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		sb.WriteString("{")
		var es []string
		for _, k := range st.DictKeys(a) {
			_, has, v := st.DictCur(a, k)
			var e strings.Builder
			if has {
				fmt.Fprintf(&e, "%s:", k)
				cw.desc(st, v, &e, seen)
				es = append(es, e.String())
			}
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, " ") + "}")
		return
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		sb.WriteString("(")
		for i := 0; i < su.NumFields(); i++ {
			cw.descAt(st, ai.FieldAddr(a, i), su.Field(i).Type(), sb, seen)
			sb.WriteString(";")
		}
		sb.WriteString(")")
		return
	}
	cw.desc(st, cw.E.Load(st.Clone(), a, t), sb, seen)
}

// textOf finds, for each type the data dictionary (or a hash field) may hold,
// the string a reader returns for the value old: the result of GET (HGET).
func (cw *CW) textOf() map[string]*ai.Term {
	m := map[string]*ai.Term{}
	for _, run := range cw.Runs("Get") {
		if run.O.Kind != ai.Ret || !live(run.Scen) {
			continue
		}
		rets, err := cw.split(run)
		if !err.IsNil() || len(rets) != 1 {
			continue
		}
		t := scenType(run.Scen)
		if m[t] == nil {
			m[t] = rets[0]
		} else if m[t] != rets[0] {
			m[t] = ai.Str("\x00ambiguous:" + t)
		}
	}
	return m
}

// textAt is the text of key k's initial value in scenario type t.
func (cw *CW) textAt(text map[string]*ai.Term, t string, k *ai.Term) *ai.Term {
	x := text[t]
	if x == nil {
		return nil
	}
	gk := keyOf(cw.Args(cw.Ops["Get"]))
	for _, vt := range cw.Vals {
		if shortType(vt) == t {
			from, to := cw.oldVal(gk, vt), cw.oldVal(k, vt)
			return ai.Subst(x, map[*ai.Term]*ai.Term{from.Args[0]: to.Args[0]})
		}
	}
	return nil
}

var stringType = types.Typ[types.String]

// over is the dictionary or map a loop ranges over, nil for other loops.
func over(l *ai.LoopInfo) *ai.Term {
	if l.Over != nil {
		return l.Over
	}
	var m *ai.Term
	for _, b := range l.Backs {
		var first *ai.Term
		for _, ev := range b.Events {
			if ev.Kind == "range.next" {
				first = ev.Args[0]
				break
			}
		}
		if first == nil || m != nil && m != first {
			return nil
		}
		m = first
	}
	return m
}

// wholeRange: on this path the loop over m left only when m was exhausted.
func wholeRange(evs []*ai.Event, l *ai.LoopInfo) bool {
	for i, ev := range evs {
		if ev.Loop != l {
			continue
		}
		if l.Over != nil {
			for _, x := range evs[i:] {
				if x.Kind == "range.break" {
					return false
				}
			}
			return true
		}
		m := over(l)
		for _, x := range evs[i+1:] {
			if (x.Kind == "range.end" || x.Kind == "range.next") && x.Args[0] == m {
				return x.Kind == "range.end"
			}
		}
		return false
	}
	return true // nested: the enclosing loop's iterations are checked by themselves
}

// wholeLoop demands exactly one complete loop over m on a path.
func wholeLoop(r *Rep, name string, run *Run, m *ai.Term) *ai.LoopInfo {
	var loop *ai.LoopInfo
	n := 0
	for _, l := range loopsOf(run.O.St.Events()) {
		if over(l) == m {
			loop = l
			n++
		}
	}
	if n == 0 {
		// nothing to visit
		for _, ev := range run.O.St.Events() {
			if ev.Kind == "range.end" && ev.Args[0] == m {
				return nil
			}
		}
	}
	if !r.Check(n == 1, "all elements", name, "[%s] %d loops over its argument, not one (path: %s)", run.Scen, n, facts(run.O.St)) {
		return nil
	}
	r.Check(wholeRange(run.O.St.Events(), loop), "all elements", name, "[%s] the loop over its argument can stop early (path: %s)", run.Scen, facts(run.O.St))
	return loop
}
