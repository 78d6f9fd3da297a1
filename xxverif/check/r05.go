package check

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["R05"] = checkR05 }

// dispatch is the function that applies replicated commands, analysed over a
// cache whose commands only record that they were called.
type dispatch struct {
	w     *World
	r     *Rep
	e     *ai.Engine
	f     *ssa.Function
	cache *ai.Term
	msgT  types.Type // redis.Message
	arrT  types.Type // redis.ArrayMessage
}

func (w *World) dispatch(r *Rep) *dispatch {
	d := &dispatch{w: w, r: r, f: w.Fn("cache", "HandleMessage")}
	T, m, a := w.Type("cache", "Cache"), w.Type("redis", "Message"), w.Type("redis", "ArrayMessage")
	if d.f == nil || T == nil || m == nil || a == nil || len(d.f.Params) != 2 {
		r.Fail("roles", "cache.HandleMessage", "the dispatcher of replicated commands, or its types, are gone")
		return nil
	}
	d.msgT, d.arrT = m, a
	d.cache = ai.Sym("!cache", types.NewPointer(T))
	d.e = w.E.With()
	for _, f := range w.Methods(T) {
		if f.Blocks == nil || !f.Object().Exported() {
			continue
		}
		f := f
		d.e.Override[f] = func(cc *ai.CallCtx) []*ai.Outcome {
			args := make([]*ai.Term, len(cc.Args))
			for i, x := range cc.Args {
				x = cc.St.Norm(x)
				args[i] = cc.St.Norm(cc.E.Resolve(cc.St, x))
				if x.T != nil {
					if _, ok := x.T.Underlying().(*types.Map); ok {
						args[i] = x
					}
				}
			}
			sig := f.Signature
			name := "cache." + f.Name()
			call := func(st *ai.State) []*ai.Term {
				st.Emit(&ai.Event{Kind: "apply", Name: f.Name(), Args: args, Pos: cc.Pos, Fn: cc.In})
				var rs []*ai.Term
				n := sig.Results().Len()
				for i := 0; i < n; i++ {
					if i == n-1 && isErr(sig.Results().At(i).Type()) {
						rs = append(rs, ai.Nil())
					} else {
						rs = append(rs, st.Fresh(name, sig.Results().At(i).Type()))
					}
				}
				return rs
			}
			if n := sig.Results().Len(); n == 0 || !isErr(sig.Results().At(n-1).Type()) {
				return []*ai.Outcome{{St: cc.St, Kind: ai.Ret, Rets: call(cc.St)}}
			}
			return cc.E.ForkErr(cc, name, call)
		}
	}
	return d
}

// of runs the dispatcher on an array of n unknown messages.
func (d *dispatch) of(n int) (outs []*ai.Outcome, els []*ai.Term) {
	save := d.w.E
	d.w.E = d.e
	defer func() { d.w.E = save }()
	st := d.w.Init()
	var us []*ai.Term
	for i := 0; i < n; i++ {
		m := ai.Sym(fmt.Sprintf("m%d", i), d.msgT)
		st.Assume(ai.Eq(m, ai.Nil()), false)
		els = append(els, m)
		us = append(us, ai.Unit(m))
	}
	content := ai.Str("")
	if n > 0 {
		content = ai.Cat(us...)
	}
	return d.w.run(d.r, d.f, []*ai.Term{d.cache, ai.IfaceOf(d.arrT, d.e.NewSlice(st, "message", content))}, st), els
}

func textOf(m *ai.Term) *ai.Term { return ai.Call("m:String", stringType, m) }

// instants reduces a point in time to one linear form.
func instants(t *ai.Term) *ai.Term {
	for i := 0; i < 4; i++ {
		m := map[*ai.Term]*ai.Term{}
		ai.Walk(t, func(x *ai.Term) bool {
			switch {
			case x.Is("rem") && x.Args[1].IsInt() && x.Args[1].K != 0:
				m[x] = ai.Sub(x.Args[0], ai.Scale(ai.Call("div", x.T, x.Args[0], x.Args[1]), x.Args[1].K))
				return false
			case x.Op == ai.OConv:
				m[x] = x.Args[0]
				return false
			}
			return true
		})
		if len(m) == 0 {
			break
		}
		t = ai.Subst(t, m)
	}
	// the clock is read with a resolution of a millisecond or better
	m := map[*ai.Term]*ai.Term{}
	ai.Walk(t, func(x *ai.Term) bool {
		if x.Is("div") && x.Args[0].Op == ai.OSym && x.Args[0].S == "now" && x.Args[1].IsInt() && x.Args[1].K <= 1e6 {
			m[x] = ai.Call("tick", tInt, x.Args[1])
			return false
		}
		return true
	})
	t = ai.Ring(ai.Subst(t, m))
	back := map[*ai.Term]*ai.Term{}
	ai.Walk(t, func(x *ai.Term) bool {
		if x.Is("tick") {
			back[x] = x
		}
		return true
	})
	for x := range back {
		// k units of 1e9/k ns each are the present
		d := ai.Ring(ai.Sub(t, ai.Scale(x, x.Args[0].K)))
		if !ai.Contains(d, x) {
			t = ai.Add(d, ai.Sym("now", nil))
		}
	}
	return ai.Subst(t, map[*ai.Term]*ai.Term{})
}

// effect is one change a command makes to the cache, in canonical form.
func (d *dispatch) effects(st *ai.State, evs []*ai.Event) []string {
	var out []string
	set := func(k, v *ai.Term) { out = append(out, fmt.Sprintf("set %s to %s", k, v)) }
	at := func(k, t *ai.Term) { out = append(out, fmt.Sprintf("%s ends at %s", k, instants(t))) }
	later := func(n *ai.Term, unit int64) *ai.Term { return ai.Add(ai.Sym("now", nil), ai.Scale(n, unit)) }
	for _, ev := range evs {
		if ev.Kind != "apply" {
			continue
		}
		a := ev.Args[1:]
		switch ev.Name {
		case "Set":
			set(a[0], a[1])
		case "SetEX", "PSetEX":
			unit := int64(1e9)
			if ev.Name == "PSetEX" {
				unit = 1e6
			}
			set(a[0], a[1])
			at(a[0], later(a[2], unit))
		case "PExpireAt":
			at(a[0], a[1])
		case "RPush":
			for _, u := range unitsOf(a[1]) {
				out = append(out, fmt.Sprintf("push %s to %s", u, a[0]))
			}
		case "HSet":
			out = append(out, fmt.Sprintf("field %s of %s is %s", a[1], a[0], a[2]))
		case "HMSet":
			for _, k := range st.DictKeys(a[1]) {
				_, ok, v := st.DictCur(a[1], k)
				if ok {
					out = append(out, fmt.Sprintf("field %s of %s is %s", k, a[0], st.Norm(v)))
				}
			}
		default:
			if !readOps[ev.Name] {
				out = append(out, fmt.Sprintf("%s%s", ev.Name, a))
			}
		}
	}
	return out
}

func unitsOf(t *ai.Term) []*ai.Term {
	switch {
	case t.Op == ai.OUnit:
		return []*ai.Term{t.Args[0]}
	case t.Op == ai.OCat:
		var out []*ai.Term
		for _, a := range t.Args {
			out = append(out, unitsOf(a)...)
		}
		return out
	case t.IsNil() || t.IsConstStr() && t.S == "":
		return nil
	}
	return []*ai.Term{ai.Call("all", nil, t)}
}

// nameOf is the command name a path has established.
func nameOf(st *ai.State, text *ai.Term) string {
	for _, q := range st.Lits() {
		if q.Val && q.T.Op == ai.OEq {
			for i := 0; i < 2; i++ {
				if c := q.T.Args[1-i]; c.IsConstStr() && (q.T.Args[i] == ai.Lower(text) || q.T.Args[i] == text) {
					return strings.ToLower(c.S)
				}
			}
		}
	}
	return ""
}

// expected are the effects of a well-formed command, or why it is not one.
func (d *dispatch) expected(st *ai.State, name string, els []*ai.Term) (want []string, why string) {
	n := len(els)
	t := func(i int) *ai.Term { return textOf(els[i]) }
	num := func(i int) (*ai.Term, bool) {
		x := t(i)
		return ai.Call("atoi", types.Typ[types.Int64], x), decided(st, ai.Call("isint", tBool, x), true)
	}
	ends := func(k, ms *ai.Term) string {
		return fmt.Sprintf("%s ends at %s", k, instants(ai.Scale(ms, 1e6)))
	}
	switch name {
	case "set":
		if n < 3 {
			return nil, "it has no key and value"
		}
		want = []string{fmt.Sprintf("set %s to %s", t(1), t(2))}
		var at string
		for i := 3; i < n; i++ {
			switch o := nameOf(st, t(i)); o {
			case "nx", "xx", "get":
			case "ex", "px", "exat", "pxat":
				if i+1 >= n {
					return nil, "option " + o + " has no value"
				}
				v, ok := num(i + 1)
				if !ok {
					return nil, "the value of option " + o + " may be no number"
				}
				i++
				switch o {
				case "ex":
					at = fmt.Sprintf("%s ends at %s", t(1), instants(ai.Add(ai.Sym("now", nil), ai.Scale(v, 1e9))))
				case "px":
					at = fmt.Sprintf("%s ends at %s", t(1), instants(ai.Add(ai.Sym("now", nil), ai.Scale(v, 1e6))))
				case "exat":
					at = ends(t(1), ai.Scale(v, 1000))
				case "pxat":
					at = ends(t(1), v)
				}
			case "":
				return nil, fmt.Sprintf("option %s may be any", t(i))
			default:
				return nil, "option " + o + " is none the cache can perform"
			}
		}
		if at != "" {
			want = append(want, at)
		}
	case "rpush":
		if n < 3 {
			return nil, "it has no key and value"
		}
		for i := 2; i < n; i++ {
			want = append(want, fmt.Sprintf("push %s to %s", t(i), t(1)))
		}
	case "hmset":
		if n < 4 || n%2 != 0 {
			return nil, "it has no key and whole pairs"
		}
		for i := 2; i < n; i += 2 {
			want = append(want, fmt.Sprintf("field %s of %s is %s", t(i), t(1), t(i+1)))
		}
	case "pexpireat":
		if n != 3 {
			return nil, "it has no key and instant"
		}
		v, ok := num(2)
		if !ok {
			return nil, "the instant may be no number"
		}
		want = []string{ends(t(1), v)}
	}
	return want, ""
}

var dispatched = []string{"set", "rpush", "hmset", "pexpireat"}

// wellFormed adds to a path that the message is the simplest form of a command
// the dispatcher performs; false where the path excludes it.
func wellFormed(st *ai.State, name string, els []*ai.Term) bool {
	n := len(els)
	switch name {
	case "set":
		if n != 3 {
			return false
		}
	case "rpush":
		if n < 3 {
			return false
		}
	case "hmset":
		if n < 4 || n%2 != 0 {
			return false
		}
	case "pexpireat":
		if n != 3 {
			return false
		}
	}
	s := st.Clone()
	if !s.Assume(ai.Eq(ai.Lower(textOf(els[0])), ai.Str(name)), true) {
		return false
	}
	if name == "pexpireat" && !s.Assume(ai.Call("isint", tBool, textOf(els[2])), true) {
		return false
	}
	return true
}

func checkR05(w *World, r *Rep) {
	r.Explain = "Every path of the dispatcher of replicated commands over arrays of 0 to 8 unknown messages (a set with all its options, several values and pairs), and of unknown length, and over every other message type, with every cache command recorded instead of performed and either succeeding or failing: success means that the cache commands called amount to exactly the effect of the command named, with every argument in its place and the deadline at the exact instant; a cache command that fails is reported; a well-formed set, rpush, hmset or pexpireat, in any letter case, is not refused; nothing panics."
	r.Assume = append(r.Assume, "the elements of an array message are not nil (N06)", "the fields of one hmset are distinct or given with the last value last", "a set has at most one option that names a deadline")
	d := w.dispatch(r)
	if d == nil {
		return
	}
	name := w.place(d.f)
	sig := d.f.Signature
	counts := map[string]int{}
	for n := 0; n <= 8; n++ {
		outs, els := d.of(n)
		for _, o := range outs {
			r.Paths++
			if !r.Check(o.Kind == ai.Ret, "no panic", name, "%s on a message of %d elements: %s at %s (path: %s)", o.Kind, n, o.Val, w.Pos(o.Pos), facts(o.St)) {
				continue
			}
			st := o.St
			evs := st.Events()
			for _, ev := range flat(evs) {
				r.Check(ev.Kind != "maypanic", "no panic", name, "%s at %s on a message of %d elements (path: %s)", ev.Name, w.Pos(ev.Pos), n, facts(st))
			}
			_, err := splitErr(sig, o)
			failed := false
			for _, ev := range evs {
				failed = failed || ev.Kind == "fail" && strings.HasPrefix(ev.Name, "cache.")
			}
			if failed {
				r.Check(!err.IsNil(), "failures are reported", name, "%s and no error is returned (path: %s)", failNames(failures(evs)), facts(st))
				continue
			}
			cmd := ""
			if n > 0 {
				cmd = nameOf(st, textOf(els[0]))
			}
			if !err.IsNil() {
				if n == 0 {
					continue
				}
				for _, c := range dispatched {
					r.Check(!wellFormed(st, c, els), "well-formed commands are performed", name, "a %s command of %d elements can be refused (path: %s)", c, n, facts(st))
				}
				continue
			}
			if !r.Check(cmd != "", "accepted means applied", name, "a message of %d elements that is no known command is accepted (path: %s)", n, facts(st)) {
				continue
			}
			got := d.effects(st, evs)
			want, why := d.expected(st, cmd, els)
			known := false
			for _, c := range dispatched {
				known = known || c == cmd
			}
			if !known {
				r.Check(len(got) > 0, "accepted means applied", name, "%s is accepted without effect (path: %s)", cmd, facts(st))
				continue
			}
			if !r.Check(why == "", "accepted means applied", name, "%s is accepted although %s (path: %s)", cmd, why, facts(st)) {
				continue
			}
			counts[cmd]++
			if cmd == "hmset" {
				got, want = lastOf(got), lastOf(want)
			}
			if cmd == "set" && len(want) == 2 && len(got) == 2 {
				counts["deadline"]++
			}
			r.Check(strings.Join(got, "; ") == strings.Join(want, "; "), "whole effect", name+" "+cmd, "%s of %d elements has the effect {%s}, not {%s} (path: %s)", cmd, n, strings.Join(got, "; "), strings.Join(want, "; "), facts(st))
		}
	}
	for _, c := range dispatched {
		r.Floor("performed "+c, counts[c], 1)
	}
	r.Floor("set with a deadline", counts["deadline"], 4)
	d.anyLength()
	// what any message does when it is written out
	ms := 0
	for _, T := range w.messages() {
		for _, m := range []string{"String", "Serialize"} {
			f := w.Method(T, m)
			if f == nil || f.Blocks == nil {
				continue
			}
			ms++
			for _, o := range w.run(r, f, w.symArgs(f), nil) {
				r.Check(o.Kind == ai.Ret, "no panic", w.place(f), "%s: %s at %s (path: %s)", o.Kind, o.Val, w.Pos(o.Pos), facts(o.St))
				for _, ev := range flat(o.St.Events()) {
					if ev.Kind == "maypanic" && ev.Name != "method call on a possibly nil interface" {
						r.Fail("no panic", w.place(f), "%s at %s (path: %s)", ev.Name, w.Pos(ev.Pos), facts(o.St))
					}
				}
			}
		}
	}
	r.Floor("message methods", ms, 8)
}

// lastOf sorts field effects; of equal fields the last counts.
func lastOf(xs []string) []string {
	m := map[string]string{}
	for _, x := range xs {
		k, _, _ := strings.Cut(x, " is ")
		m[k] = x
	}
	var out []string
	for _, x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

// messages are the types that implement the message interface.
func (w *World) messages() []*types.Named {
	m := w.Type("redis", "Message")
	if m == nil {
		return nil
	}
	it, ok := m.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	sc := w.Pkgs["redis"].Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		T, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(T) {
			continue
		}
		if types.Implements(T, it) || types.Implements(types.NewPointer(T), it) {
			out = append(out, T)
		}
	}
	return out
}

// anyLength: the same over messages of unknown type and length.
func (d *dispatch) anyLength() {
	w, r := d.w, d.r
	save := w.E
	w.E = d.e
	defer func() { w.E = save }()
	name := w.place(d.f)
	msg := ai.Sym("message", d.msgT)
	for _, o := range w.run(r, d.f, []*ai.Term{d.cache, msg}, nil) {
		st := o.St
		if !r.Check(o.Kind == ai.Ret, "no panic", name, "%s on some message: %s at %s (path: %s)", o.Kind, o.Val, w.Pos(o.Pos), facts(st)) {
			continue
		}
		evs := st.Events()
		for _, ev := range flat(evs) {
			r.Check(ev.Kind != "maypanic" || ev.Name == "method call on a possibly nil interface", "no panic", name, "%s at %s on some message (path: %s)", ev.Name, w.Pos(ev.Pos), facts(st))
		}
		_, err := splitErr(d.f.Signature, o)
		if !err.IsNil() {
			continue
		}
		n := 0
		for _, ev := range flat(evs) {
			if ev.Kind == "apply" && !readOps[ev.Name] {
				n++
			}
		}
		r.Check(n > 0, "accepted means applied", name, "some message is accepted without any effect (path: %s)", facts(st))
	}
}

// appliesDeadline: a deadline command sets the deadline it names.
func (w *World) appliesDeadline(r *Rep) {
	d := w.dispatch(r)
	if d == nil {
		return
	}
	name := w.place(d.f)
	outs, els := d.of(3)
	n := 0
	for _, o := range outs {
		if o.Kind != ai.Ret || len(failures(o.St.Events())) > 0 {
			continue
		}
		if _, err := splitErr(d.f.Signature, o); !err.IsNil() {
			r.Check(!wellFormed(o.St, "pexpireat", els), "deadline applied", name, "a deadline command can be refused (path: %s)", facts(o.St))
			continue
		}
		if nameOf(o.St, textOf(els[0])) != "pexpireat" {
			continue
		}
		n++
		got := strings.Join(d.effects(o.St, o.St.Events()), "; ")
		want, _ := d.expected(o.St, "pexpireat", els)
		r.Check(got == strings.Join(want, "; "), "exact instant", name, "the deadline command has the effect {%s}, not {%s} (path: %s)", got, strings.Join(want, "; "), facts(o.St))
	}
	r.Floor("deadline commands applied", n, 1)
}
