package check

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

// net lists the assumptions of the network-side properties.
func (w *World) net(r *Rep) {
	r.Assume = append(r.Assume,
		"bufio, io, net, strconv, strings and sync behave as documented (modelled, not analysed)",
		"unexported fields are reached only from within their package")
}

// run interprets fn and reports paths the analysis cannot follow.
func (w *World) run(r *Rep, fn *ssa.Function, args []*ai.Term, st *ai.State) []*ai.Outcome {
	if st == nil {
		st = w.Init()
	}
	var out []*ai.Outcome
	for _, o := range w.E.Run(fn, args, st) {
		if o.Kind == ai.Stuck {
			r.Fail("undecided", w.fnName(fn), "the analysis cannot follow this function: %v", o.Val)
			continue
		}
		out = append(out, o)
	}
	return out
}

// method finds an exported method, or fails the property.
func (w *World) method(r *Rep, pkg, typ, name string) *ssa.Function {
	t := w.Type(pkg, typ)
	if t == nil {
		r.Fail("roles", pkg+"."+typ, "the type is gone")
		return nil
	}
	f := w.Method(t, name)
	if f == nil || f.Blocks == nil {
		r.Fail("roles", pkg+"."+typ+"."+name, "the method is gone")
		return nil
	}
	return f
}

// fn finds a function, or fails the property.
func (w *World) fn(r *Rep, pkg, name string) *ssa.Function {
	f := w.Fn(pkg, name)
	if f == nil || f.Blocks == nil {
		r.Fail("roles", pkg+"."+name, "the function is gone")
		return nil
	}
	return f
}

// recvArg is the receiver symbol for a method, pointer or value.
func recvArg(name string, f *ssa.Function) *ai.Term {
	t := f.Params[0].Type()
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return ai.Sym("!"+name, t)
	}
	return ai.Sym(name, t)
}

// place renders a function with its position.
func (w *World) place(f *ssa.Function) string {
	return w.fnName(f) + " (" + w.Pos(f.Pos()) + ")"
}

// failures lists the failed calls of a path, those inside its loop iterations
// included.
func failures(evs []*ai.Event) []*ai.Event {
	var out []*ai.Event
	for _, ev := range flat(evs) {
		if ev.Kind == "fail" {
			out = append(out, ev)
		}
	}
	return out
}

// noPanic demands that a path cannot panic; n bytes allocations are bounded.
func (w *World) noPanic(r *Rep, rule, name, ctx string, o *ai.Outcome) {
	if o.Kind == ai.Pan {
		r.Fail(rule, name, "%spanics: %v at %s (path: %s)", ctx, o.Val, w.Pos(o.Pos), facts(o.St))
		return
	}
	evs, sts := withStates(o.St, o.St.Events())
	for i, ev := range evs {
		switch ev.Kind {
		case "maypanic", "panic":
			r.Fail(rule, name, "%s%s at %s is not shown safe: %v (path: %s)", ctx, ev.Name, w.Pos(ev.Pos), ev.Args, facts(sts[i]))
		case "makeslice":
			n := sts[i].Norm(ev.Args[0])
			r.Check(lengthOnly(n) || sts[i].EntailsLe0(ai.AddK(n, -(1<<40))), rule, name, "%sthe length %s of an allocation at %s has no bound (path: %s)", ctx, n, w.Pos(ev.Pos), facts(sts[i]))
		}
	}
	r.Check(true, rule, name, "")
}

// line tells whether t is the line starting at off, without its terminator,
// and where the next one starts.
func isLine(st *ai.State, in, off, t *ai.Term, number bool) (end *ai.Term, ok bool) {
	end = ai.Call("delim", tInt, in, off, ai.Int(10))
	raw := ai.SubSeq(in, off, end)
	t = st.Norm(t)
	cr := false // a \r is cut off once the \n is gone
	for {
		if t == raw {
			return end, true
		}
		switch {
		case t.Is("trimright") && t.Args[1].IsConstStr() && setOf(t.Args[1].S) == "\n\r":
			t = t.Args[0]
			continue
		case t.Is("trimsuffix") && t.Args[1].IsConstStr() && (t.Args[1].S == "\r\n" || t.Args[1].S == "\n" || t.Args[1].S == "\r"):
			if t.Args[1].S == "\n" && t.Args[0] == raw && !cr {
				return end, false // keeps the \r
			}
			cr = cr || t.Args[1].S == "\r"
			t = t.Args[0]
			continue
		case number && t.Op == ai.OCall && strings.HasPrefix(t.S, "strings.TrimSpace"):
			t = t.Args[0]
			continue
		}
		break
	}
	return end, t == st.Norm(ai.SubSeq(in, off, ai.AddK(end, -2)))
}

func setOf(s string) string {
	var b []byte
	for _, c := range []byte{'\n', '\r'} {
		if strings.IndexByte(s, c) >= 0 {
			b = append(b, c)
		}
	}
	if len(b) != len(s) {
		return s
	}
	return string(b)
}

// only is the single value byte b can have on a path, or -1.
func only(st *ai.State, b *ai.Term) int {
	v := st.ByteSet(b)
	vs := v.Values()
	if len(vs) == 1 {
		return vs[0]
	}
	return -1
}

func decided(st *ai.State, b *ai.Term, want bool) bool {
	d := st.Decide(b)
	return d == 1 && want || d == 0 && !want
}

// equalTo decides a == b on a path.
func equalTo(st *ai.State, a, b *ai.Term) bool {
	a, b = st.Norm(a), st.Norm(b)
	return a == b || ai.IsIntType(a.T) && zero0(st, ai.Sub(a, b)) || decided(st, ai.Eq(a, b), true)
}
