package check

import (
	"fmt"
	"sort"
	"strings"

	"xxverif/ai"
)

func init() { registry["K02"] = checkK02 }

// effect renders everything a caller can see of a point: results and the final
// content of key k (an untouched expired leftover counts as absent).
func (cw *CW) effect(st *ai.State, o *ai.Outcome, k *ai.Term) string {
	var sb strings.Builder
	if o != nil {
		fmt.Fprintf(&sb, "%s", o.Kind)
		for _, x := range o.Rets {
			x = st.Norm(x)
			sb.WriteString(" " + cw.describe(st, cw.E.Resolve(st, x)))
		}
	}
	ks := cw.look(st, k)
	if ks.gone(st) {
		sb.WriteString(" value absent")
		if ks.eHas && !strings.HasPrefix(ks.scen, "expired") {
			sb.WriteString(" deadline left")
		}
		if ks.eHas && strings.HasPrefix(ks.scen, "expired") && !(ks.dataSame(st) && ks.expSame(st)) {
			sb.WriteString(" deadline left")
		}
	} else {
		fmt.Fprintf(&sb, " value %s", cw.describe(st, ks.dVal))
		if !ks.eKnown {
			sb.WriteString(" deadline ?")
		} else if ks.eHas {
			fmt.Fprintf(&sb, " deadline %s", cw.describe(st, ks.eVal))
		} else {
			sb.WriteString(" no deadline")
		}
	}
	return sb.String()
}

// loopSig renders the loops of a path: what each iteration does to its variables.
func (cw *CW) loopSig(evs []*ai.Event) string {
	var out []string
	for _, l := range loopsOf(evs) {
		var its []string
		for i := range l.Backs {
			var vs []string
			for _, v := range l.Vars {
				if cw.bookkeeping(v) {
					continue
				}
				vs = append(vs, v.What+"="+l.Backs[i].St.Norm(v.Steps[i]).String())
			}
			sort.Strings(vs)
			its = append(its, strings.Join(vs, ","))
		}
		sort.Strings(its)
		var prev string
		var u []string
		for _, s := range its {
			if s != prev {
				u = append(u, s)
			}
			prev = s
		}
		out = append(out, strings.Join(u, "|"))
	}
	return strings.Join(out, "##")
}

// bookkeeping variables exist only in the analysis (key counts of dictionaries).
func (cw *CW) bookkeeping(v *ai.LoopVar) bool { return strings.HasPrefix(v.What, "cnt:") }

// compatible: both path conditions can hold at once (st extended), or nil.
func compatible(st *ai.State, other *ai.State) *ai.State {
	s := st.Clone()
	for _, l := range other.Lits() {
		if mentionsStore(l.T) {
			continue
		}
		if !s.Assume(l.T, l.Val) {
			return nil
		}
	}
	return s
}

// mentionsStore: the condition talks about the old content of the cache.
func mentionsStore(t *ai.Term) bool {
	found := false
	ai.Walk(t, func(x *ai.Term) bool {
		if x.Op == ai.OSym && (strings.HasPrefix(x.S, "old:") || strings.HasPrefix(x.S, "!old:") || strings.HasPrefix(x.S, "!he:") ||
			strings.HasPrefix(x.S, "deadline:") || x.S == "now" || strings.HasPrefix(x.S, "fv:")) {
			found = true
		}
		return !found
	})
	return found
}

func checkK02(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "For every command and every kind of value, the paths of the command on an expired key are compared with its paths on an absent key: whenever the conditions on the arguments agree, results, the key's final value and its final deadline must agree. Keys named in collections are compared per loop iteration."
	cmp := 0
	for _, op := range sortedOps(cw.Ops) {
		runs := cw.Runs(op)
		name := cw.name(op)
		if cw.singleKey(cw.Ops[op]) {
			k := keyOf(cw.Args(cw.Ops[op]))
			var abs, exp []*Run
			for _, run := range runs {
				if run.O.Kind == ai.Stuck {
					cw.decided(r, run)
				} else if run.Scen == "absent" {
					abs = append(abs, run)
				} else if strings.HasPrefix(run.Scen, "expired") {
					exp = append(exp, run)
				}
			}
			for _, x := range exp {
				n := 0
				for _, a := range abs {
					sx := compatible(x.O.St, a.O.St)
					if sx == nil {
						continue
					}
					sa := compatible(a.O.St, x.O.St)
					if sa == nil {
						continue
					}
					n++
					cmp++
					ex, ea := cw.effect(sx, x.O, k), cw.effect(sa, a.O, k)
					r.Check(ex == ea, "expired equals absent", name, "with a key that held %s and has expired: %s; with an absent key: %s (path: %s)", scenType(x.Scen), ex, ea, facts(x.O.St))
					lx, la := cw.loopSig(x.O.St.Events()), cw.loopSig(a.O.St.Events())
					r.Check(lx == la, "expired equals absent", name+" loops", "with a key that held %s and has expired the loops do %s; with an absent key %s", scenType(x.Scen), lx, la)
				}
				r.Check(n > 0, "expired equals absent", name, "no path on an absent key corresponds to the path on an expired %s (path: %s)", scenType(x.Scen), facts(x.O.St))
			}
			continue
		}
		// keys met inside the command: compare iterations, and whole outcomes
		for _, run := range runs {
			if run.O.Kind == ai.Stuck {
				cw.decided(r, run)
				continue
			}
			for _, l := range loopsOf(run.O.St.Events()) {
				for i, bi := range l.Backs {
					for j, bj := range l.Backs {
						k := twin(bi.St, bj.St)
						if k == nil {
							continue
						}
						sx := compatible(bi.St, bj.St)
						if sx == nil {
							continue
						}
						sa := compatible(bj.St, bi.St)
						if sa == nil {
							continue
						}
						cmp++
						ex, ea := cw.effect(sx, nil, k), cw.effect(sa, nil, k)
						r.Check(ex == ea, "expired equals absent", name, "in an iteration for a key that held %s and has expired: %s; for an absent key: %s", scenType(bi.St.Tags[k]), ex, ea)
						for _, v := range l.Vars {
							if cw.bookkeeping(v) {
								continue
							}
							a, b := sx.Norm(v.Steps[i]), sa.Norm(v.Steps[j])
							r.Check(a == b, "expired equals absent", name, "in an iteration %s becomes %s for an expired %s but %s for an absent key", v.What, a, scenType(bi.St.Tags[k]), b)
						}
					}
				}
			}
		}
		for _, x := range runs {
			for _, a := range runs {
				if x.O.Kind == ai.Stuck || a.O.Kind == ai.Stuck {
					continue
				}
				k := twin(x.O.St, a.O.St)
				if k == nil {
					continue
				}
				sx, sa := compatible(x.O.St, a.O.St), compatible(a.O.St, x.O.St)
				if sx == nil || sa == nil {
					continue
				}
				cmp++
				ex, ea := cw.effect(sx, x.O, k), cw.effect(sa, a.O, k)
				r.Check(ex == ea, "expired equals absent", name, "leaving the command at a key that held %s and has expired: %s; at an absent key: %s", scenType(x.O.St.Tags[k]), ex, ea)
			}
		}
	}
	r.Floor("comparisons of expired with absent", cmp, 300)
}

// twin: the states differ only in that one key is expired in a and absent in b.
func twin(a, b *ai.State) *ai.Term {
	var d *ai.Term
	for k, t := range a.Tags {
		u, ok := b.Tags[k]
		if !ok {
			return nil
		}
		if t == u {
			continue
		}
		if d != nil || u != "absent" || !strings.HasPrefix(t, "expired") {
			return nil
		}
		d = k
	}
	if len(a.Tags) != len(b.Tags) {
		return nil
	}
	return d
}
