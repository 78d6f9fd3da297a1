package check

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() {
	registry["R01"] = checkR01
	registry["R02"] = checkR02
	registry["R03"] = checkR03
}

// snapshot is the analysed loader: its paths, and its loop over the entries.
type snapshot struct {
	*rdbWorld
	name  string
	outs  []*ai.Outcome
	loops []*snapLoop
}

type snapLoop struct {
	l   *ai.LoopInfo
	off *ai.LoopVar // position of the entry in the stream
	in  *ai.Term
	op  *ai.Term // first byte of the entry
}

func (w *World) snapshot(r *Rep) *snapshot {
	w.net(r)
	r.Assume = append(r.Assume, "the decoders of lengths, strings, scores, ziplists, integer sets and zipmaps do what D01 to D05 state")
	x := w.rdbWorld(r, false)
	if x == nil {
		return nil
	}
	s := &snapshot{rdbWorld: x, name: w.place(x.load)}
	s.outs = x.run(x.load, x.repl)
	seen := map[*ai.LoopInfo]bool{}
	for _, o := range s.outs {
		for _, ev := range o.St.Events() {
			if ev.Loop == nil || seen[ev.Loop] {
				continue
			}
			seen[ev.Loop] = true
			for _, v := range ev.Loop.Vars {
				if !strings.HasPrefix(v.What, "off:") || v.Init == nil {
					continue
				}
				var op *ai.Term
				for _, b := range ev.Loop.Backs {
					for _, q := range b.St.Lits() {
						ai.Walk(q.T, func(t *ai.Term) bool {
							if t.Op == ai.OElem && len(t.Args) == 2 && t.Args[1] == v.Sym {
								op = t
							}
							return op == nil
						})
					}
				}
				if op != nil {
					s.loops = append(s.loops, &snapLoop{l: ev.Loop, off: v, in: op.Args[0], op: op})
				}
			}
		}
	}
	if !r.Check(len(s.loops) > 0, "entry loop", s.name, "no loop that reads one entry after the other was found") {
		return nil
	}
	return s
}

// codes lists the entry codes iteration j admits.
func (s *snapLoop) codes(st *ai.State) []int {
	v := st.ByteSet(s.op)
	return v.Values()
}

// kinds of snapshot entries, by the command that recreates them.
var entryKinds = map[int]string{
	0: "string", 1: "list", 2: "set", 3: "sorted set", 5: "sorted set with binary scores", 4: "hash",
	14: "quicklist", 9: "zipmap hash", 10: "ziplist list", 11: "integer set", 12: "ziplist sorted set", 13: "ziplist hash",
}

// other codes: what follows them in the stream.
var auxKinds = map[int]string{
	253: "deadline in seconds", 252: "deadline in milliseconds", 254: "database selection", 251: "table sizes",
	250: "auxiliary field", 249: "access frequency", 248: "idle time", 247: "module data",
}

// format is the snapshot format: the arguments of the command an entry of the
// given kind stands for, and where the entry ends.
func (s *snapLoop) format(code int) (args []part, end *ai.Term) {
	in := s.in
	at := ai.AddK(s.off.Sym, 1)
	str := func(o *ai.Term) *ai.Term { return decoded("Str", stringType, in, o) }
	strEnd := func(o *ai.Term) *ai.Term { return decodedEnd("Str", in, o) }
	lenEnd := func(o *ai.Term) *ai.Term { return decodedEnd("Len", in, o) }
	u := func(t *ai.Term) part { return part{t: ai.Unit(t)} }
	switch code {
	case 253:
		return nil, ai.AddK(at, 4)
	case 252:
		return nil, ai.AddK(at, 8)
	case 249:
		return nil, ai.AddK(at, 1)
	case 254, 248:
		return nil, lenEnd(at)
	case 251:
		return nil, lenEnd(lenEnd(at))
	case 250:
		return nil, strEnd(strEnd(at))
	case 247:
		return nil, lenEnd(lenEnd(lenEnd(lenEnd(at))))
	}
	cmd := map[int]string{0: "set", 1: "rpush", 2: "sadd", 3: "zadd", 5: "zadd", 4: "hmset", 14: "rpush", 9: "hmset", 10: "rpush", 11: "sadd", 12: "zadd", 13: "hmset"}[code]
	args = []part{u(ai.Str(cmd)), u(str(at))}
	at = strEnd(at)
	o := offMark
	times := func(next *ai.Term, body ...part) {
		n := decoded("Len", u64T, in, at)
		f := &fold{n: n, start: lenEnd(at), off: o, next: next, body: body}
		args = append(args, part{fold: f})
		end = after(f)
	}
	packed := str(at)
	each := func(what string, T types.Type, f func(v *ai.Term) *ai.Term) part {
		x := ai.Call(what, T, packed)
		v := ai.Sym("elem:"+x.String(), nil)
		return part{fold: &fold{over: x, v: v, body: []part{u(f(v))}}}
	}
	same := func(v *ai.Term) *ai.Term { return v }
	switch code {
	case 0:
		return append(args, u(packed)), strEnd(at)
	case 1, 2:
		times(strEnd(o), u(str(o)))
	case 3:
		times(decodedEnd("Dbl", in, strEnd(o)), u(ai.Call("score", stringType, decoded("Dbl", f64T, in, strEnd(o)))), u(str(o)))
	case 5:
		times(decodedEnd("Bin", in, strEnd(o)), u(ai.Call("score", stringType, decoded("Bin", f64T, in, strEnd(o)))), u(str(o)))
	case 4:
		times(strEnd(strEnd(o)), u(str(o)), u(str(strEnd(o))))
	case 14:
		x := ai.Call("ziplist", strsT, str(o))
		v := ai.Sym("elem", nil)
		times(strEnd(o), part{fold: &fold{over: x, v: v, body: []part{u(v)}}})
	case 10, 13:
		return append(args, each("ziplist", strsT, same)), strEnd(at)
	case 11:
		return append(args, each("intset", int64sT, func(v *ai.Term) *ai.Term { return ai.Call("itoa", stringType, v) })), strEnd(at)
	case 12:
		x := ai.Call("ziplist", strsT, packed)
		g := []*ai.Term{ai.Sym("g0", nil), ai.Sym("g1", nil)}
		return append(args, part{fold: &fold{over: x, group: g, body: []part{u(g[1]), u(g[0])}}}), strEnd(at)
	case 9:
		x := ai.Call("zipmap", nil, packed)
		k, v := ai.Sym("k", nil), ai.Sym("v", nil)
		return append(args, part{fold: &fold{over: x, isMap: true, k: k, v: v, body: []part{u(k), u(v)}}}), strEnd(at)
	}
	return args, end
}

// command is one message of the loader: its database and argument texts.
type command struct {
	ev   *ai.Event
	db   *ai.Term
	args []part
	why  string
}

// sends lists the messages of a piece of path, in order.
func (s *snapshot) sends(st *ai.State, evs []*ai.Event, ctx []*ai.Event) (out []command, nested bool) {
	for _, ev := range evs {
		if ev.Loop != nil {
			for _, b := range ev.Loop.Backs {
				for _, e := range flat(b.Events) {
					nested = nested || e.Kind == "send"
				}
			}
		}
		if ev.Kind != "send" {
			continue
		}
		out = append(out, s.command(st, ev, ctx))
	}
	return out, nested
}

func fieldOf(w *World, st *ai.State, v *ai.Term, name string) *ai.Term {
	v = st.Norm(w.E.Resolve(st, v))
	if v.T == nil {
		return nil
	}
	su, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return st.Norm(ai.FieldOf(v, i, su.Field(i).Type()))
		}
	}
	return nil
}

func (s *snapshot) command(st *ai.State, ev *ai.Event, ctx []*ai.Event) command {
	c := command{ev: ev, db: fieldOf(s.w, st, ev.Args[1], "Database")}
	msg := fieldOf(s.w, st, ev.Args[1], "Message")
	if c.db == nil || msg == nil {
		c.why = fmt.Sprintf("sends %s, not a replication message", ev.Args[1])
		return c
	}
	c.args, c.why = s.w.texts(s.e, st, ctx, msg)
	return c
}

// texts are the texts of the elements of an array message of known type.
func (w *World) texts(e *ai.Engine, st *ai.State, ctx []*ai.Event, msg *ai.Term) (ps []part, why string) {
	if msg.Op != ai.OIface || msg.T == nil {
		return nil, "a message of unknown type"
	}
	if _, ok := msg.T.Underlying().(*types.Slice); !ok {
		return nil, "not an array message but " + shortType(msg.T)
	}
	save := w.E
	w.E = e
	defer func() { w.E = save }()
	c := &seqCtx{w: w, e: e, loops: loopsOf(ctx), evs: ctx, st: st}
	ps = c.expand(e.Content(st, msg.Args[0]))
	if c.why != "" {
		return nil, c.why
	}
	ps = c.textParts(ps)
	return ps, c.why
}

// textParts replaces messages by their texts.
func (c *seqCtx) textParts(ps []part) []part {
	var out []part
	for _, p := range ps {
		if p.fold != nil {
			f := *p.fold
			f.body = c.textParts(f.body)
			out = append(out, part{fold: &f})
			continue
		}
		if p.t.Op == ai.OCat {
			for _, a := range p.t.Args {
				out = append(out, c.textParts([]part{{t: a}})...)
			}
			continue
		}
		if p.t.Op != ai.OUnit {
			return c.fail("an unknown piece of the command: %s", p.t)
		}
		m := p.t.Args[0]
		if m.Op == ai.OIface {
			ts := c.method(ai.Call("m:String", stringType, m), "String")
			var a []*ai.Term
			for _, q := range ts {
				if q.fold != nil {
					return c.fail("a repeated text")
				}
				a = append(a, q.t)
			}
			m = ai.Cat(a...)
		}
		out = append(out, part{t: ai.Unit(score(m))})
	}
	return out
}

// score recognises the exact renderings of a floating-point number.
func score(t *ai.Term) *ai.Term {
	if t.Op == ai.OCall && strings.HasPrefix(t.S, "ftoa:") && strings.HasSuffix(t.S, ":-1:64") {
		switch t.S[5 : strings.Index(t.S[5:], ":")+5] {
		case "101", "102", "103", "69", "71":
			return ai.Call("score", stringType, t.Args[0])
		}
	}
	return t
}

// canonArgs renders argument lists; the first is a command name.
func canonArgs(ps []part) string {
	if len(ps) > 0 && ps[0].t != nil && ps[0].t.Op == ai.OUnit && ps[0].t.Args[0].IsConstStr() {
		ps = append([]part{{t: ai.Unit(ai.Str(strings.ToLower(ps[0].t.Args[0].S)))}}, ps[1:]...)
	}
	// whole collections are written element by element
	var f func(ps []part) []part
	f = func(ps []part) []part {
		var out []part
		for _, p := range ps {
			switch {
			case p.fold != nil:
				q := *p.fold
				q.body = f(q.body)
				// groups in order are just the elements
				if q.group != nil && len(q.body) == len(q.group) {
					same := true
					for i, b := range q.body {
						same = same && b.t != nil && b.t.Op == ai.OUnit && b.t.Args[0] == q.group[i]
					}
					if same {
						v := ai.Sym("elem:"+q.over.String(), nil)
						q = fold{over: q.over, v: v, body: []part{{t: ai.Unit(v)}}}
					}
				}
				out = append(out, part{fold: &q})
			case p.t.Op == ai.OUnit:
				out = append(out, p)
			case p.t.Op == ai.OCat:
				var qs []part
				for _, a := range p.t.Args {
					qs = append(qs, part{t: a})
				}
				out = append(out, f(qs)...)
			default:
				v := ai.Sym("elem:"+p.t.String(), nil)
				out = append(out, part{fold: &fold{over: p.t, v: v, body: []part{{t: ai.Unit(v)}}}})
			}
		}
		return out
	}
	return canon(f(ps), nil)
}

// isDeadline: the message sets a deadline.
func (c command) isDeadline() bool {
	if len(c.args) == 0 || c.args[0].t == nil || c.args[0].t.Op != ai.OUnit {
		return false
	}
	n := c.args[0].t.Args[0]
	return n.IsConstStr() && strings.ToLower(n.S) == "pexpireat"
}

// given assumes the code of the entry.
func (s *snapLoop) given(st *ai.State, code int) *ai.State {
	c := st.Clone()
	c.Assume(ai.Eq(s.op, ai.Int(int64(code))), true)
	return c
}

// dbVar is the loop variable that holds the selected database.
func (s *snapshot) dbVar(r *Rep, l *snapLoop) *ai.LoopVar {
	var got *ai.LoopVar
	n := 0
	for j, b := range l.l.Backs {
		if !hasCode(l.codes(b.St), 254) {
			continue
		}
		n++
		want := decoded("Len", u64T, l.in, ai.AddK(l.off.Sym, 1))
		for _, v := range l.l.Vars {
			x := b.St.Norm(v.Steps[j])
			for x.Op == ai.OConv {
				x = x.Args[0]
			}
			if x == want && (got == nil || got == v) {
				got = v
			}
		}
	}
	if !r.Check(n > 0 && got != nil, "database tag", s.name, "no quantity becomes the number that follows a database selection (code 254)") {
		return nil
	}
	for j, b := range l.l.Backs {
		if hasCode(l.codes(b.St), 254) {
			x := b.St.Norm(got.Steps[j])
			for x.Op == ai.OConv {
				x = x.Args[0]
			}
			r.Check(x == decoded("Len", u64T, l.in, ai.AddK(l.off.Sym, 1)), "database tag", s.name, "after a database selection (code 254) the current database is %s (path: %s)", got.Steps[j], facts(b.St))
			continue
		}
		r.Check(equalTo(b.St, got.Steps[j], got.Sym), "database tag", s.name, "an entry of code %v changes the current database to %s (path: %s)", l.codes(b.St), got.Steps[j], facts(b.St))
	}
	return got
}

func hasCode(cs []int, c int) bool {
	for _, x := range cs {
		if x == c {
			return true
		}
	}
	return false
}

// lastLoop is the entry loop a path went through.
func (s *snapshot) loopOn(o *ai.Outcome) (*snapLoop, []*ai.Event) {
	evs := o.St.Events()
	for i, ev := range evs {
		for _, l := range s.loops {
			if ev.Loop == l.l {
				return l, evs[i+1:]
			}
		}
	}
	return nil, evs
}

func (x *rdbWorld) err(o *ai.Outcome) *ai.Term {
	_, err := splitErr(x.load.Signature, o)
	return err
}

func checkR01(w *World, r *Rep) {
	r.Explain = "Every iteration of the loader's loop over the snapshot entries, from an unknown position of an unknown file, for every value of the entry's first byte: the messages it sends are compared, as sequences of texts with their loops expanded, with what the snapshot format says the entry of that kind stands for, and the position after the iteration with where the format says the entry ends. Codes that are no entries send nothing. The database on each message is the one last selected. No entry of a supported kind is refused without a failed read or parse."
	s := w.snapshot(r)
	if s == nil {
		return
	}
	seen := map[int]int{}
	for _, l := range s.loops {
		db := s.dbVar(r, l)
		if db == nil {
			continue
		}
		r.Check(zero0(l.l.Entry, ai.AddK(l.off.Init, -9)), "position", s.name, "the first entry is read at offset %s, not after the 9 bytes of the header", l.off.Init)
		for j, b := range l.l.Backs {
			for _, code := range l.codes(b.St) {
				kind := entryKinds[code]
				if kind == "" {
					kind = auxKinds[code]
				}
				if kind == "" {
					continue // R03
				}
				st := l.given(b.St, code)
				ctx := fmt.Sprintf("%s (code %d): ", kind, code)
				at := fmt.Sprintf("%s, %s", s.name, kind)
				seen[code]++
				r.Paths++
				args, end := l.format(code)
				c := &seqCtx{w: w, e: s.e, loops: loopsOf(b.Events), evs: b.Events, st: st}
				got := c.where(l.off.Steps[j])
				r.Check(equalTo(st, got, end), "ends where the format says", at, "%safter the entry reading goes on at %s, not at %s (path: %s)", ctx, got, end, facts(st))
				cmds, nested := s.sends(st, b.Events, b.Events)
				r.Check(!nested, "one command", at, "%smessages are sent from within a loop over its elements", ctx)
				n := 0
				for _, m := range cmds {
					if !r.Check(m.why == "", "recreates the value", at, "%s%s (path: %s)", ctx, m.why, facts(st)) {
						continue
					}
					r.Check(equalTo(st, m.db, db.Sym), "database tag", at, "%sthe message is tagged with database %s, not the current one (path: %s)", ctx, m.db, facts(st))
					if m.isDeadline() {
						continue
					}
					n++
					g, want := canonArgs(m.args), canonArgs(args)
					r.Check(g == want, "recreates the value", at, "%ssends %s, not %s (path: %s)", ctx, g, want, facts(st))
				}
				want := 0
				if args != nil {
					want = 1
				}
				r.Check(n == want, "one command", at, "%ssends %d commands, not %d (path: %s)", ctx, n, want, facts(st))
			}
		}
		// paths that leave the loop without an iteration's end
	}
	for _, o := range s.outs {
		l, rest := s.loopOn(o)
		if l == nil || o.Kind != ai.Ret {
			continue
		}
		if s.err(o).IsNil() {
			cmds, nested := s.sends(o.St, rest, rest)
			r.Check(len(cmds) == 0 && !nested, "one command", s.name, "sends a command after the last entry (path: %s)", facts(o.St))
			continue
		}
		if len(failures(rest)) > 0 {
			continue
		}
		for _, code := range l.codes(o.St) {
			if entryKinds[code] == "" && auxKinds[code] == "" || code == 247 {
				continue
			}
			st := l.given(o.St, code)
			r.Check(s.malformed(st, l, code), "supported kinds are loaded", s.name, "an entry of code %d (%s%s) is refused with %s although nothing failed (path: %s)", code, entryKinds[code], auxKinds[code], s.err(o), facts(st))
		}
	}
	for c, k := range entryKinds {
		r.Floor(k+" iterations", seen[c], 1)
	}
	for c, k := range auxKinds {
		r.Floor(k+" iterations", seen[c], 1)
	}
}

// malformed: the path knows the entry to be one no snapshot holds.
func (s *snapshot) malformed(st *ai.State, l *snapLoop, code int) bool {
	// pairs come in even numbers
	if code == 12 || code == 13 {
		at := decodedEnd("Str", l.in, ai.AddK(l.off.Sym, 1))
		n := ai.Len(ai.Call("ziplist", strsT, decoded("Str", stringType, l.in, at)))
		if decided(st, ai.Eq(ai.Call("rem", tInt, n, ai.Int(2)), ai.Int(0)), false) {
			return true
		}
	}
	return false
}

// recorded is the deadline an entry of code 252 or 253 holds, in milliseconds.
func (l *snapLoop) recorded(code int) *ai.Term {
	n, unit := 8, int64(1)
	if code == 253 {
		n, unit = 4, 1000
	}
	var bs []*ai.Term
	for i := 0; i < n; i++ {
		bs = append(bs, ai.Elem(l.in, ai.AddK(l.off.Sym, int64(1+i)), tByte))
	}
	return ai.Scale(ai.ByteWord(bs), unit)
}

// decimal is the number a text is the decimal rendering of.
func decimal(st *ai.State, t *ai.Term) *ai.Term {
	t = st.Norm(t)
	if !t.Is("itoa") && !t.Is("utoa") {
		return nil
	}
	return ai.Ring(st.Norm(t.Args[0]))
}

func checkR02(w *World, r *Rep) {
	r.Explain = "Every iteration of the loader's loop over the snapshot entries: a deadline message follows the one that creates the entry, names the entry's own key, and its instant, as a function of what earlier iterations left pending, equals what a deadline entry (code 252: 8 bytes little-endian, milliseconds; 253: 4 bytes, seconds) leaves pending. The conditions under which an entry gets no deadline contradict a pending one; the conditions under which it gets one contradict both the initial state and the state after any entry; no other code touches what is pending. The command that applies a deadline does so at the exact instant."
	s := w.snapshot(r)
	if s == nil {
		return
	}
	sets, gets, nones := 0, 0, 0
	for _, l := range s.loops {
		// what is pending: the quantities a deadline entry changes
		pend := map[*ai.Term]*ai.LoopVar{}
		for j, b := range l.l.Backs {
			cs := l.codes(b.St)
			if hasCode(cs, 252) || hasCode(cs, 253) {
				for _, v := range l.l.Vars {
					if v != l.off && b.St.Norm(v.Steps[j]) != v.Sym {
						pend[v.Sym] = v
					}
				}
			}
		}
		if !r.Check(len(pend) > 0, "deadline kept", s.name, "a deadline entry leaves nothing behind for the next one") {
			continue
		}
		about := func(st *ai.State) []ai.Lit {
			var out []ai.Lit
			for _, q := range st.Lits() {
				for v := range pend {
					if ai.Contains(q.T, v) {
						out = append(out, q)
						break
					}
				}
			}
			return out
		}
		// holds: the conditions may all hold with what the quantities became
		holds := func(st *ai.State, m map[*ai.Term]*ai.Term, cond []ai.Lit) bool {
			c := st.Clone()
			for _, q := range cond {
				if !c.Assume(c.Norm(ai.Subst(q.T, m)), q.Val) {
					return false
				}
			}
			return true
		}
		steps := func(j int) map[*ai.Term]*ai.Term {
			m := map[*ai.Term]*ai.Term{}
			for _, v := range pend {
				m[v.Sym] = l.l.Backs[j].St.Norm(v.Steps[j])
			}
			return m
		}
		inits := map[*ai.Term]*ai.Term{}
		for _, v := range pend {
			if v.Init != nil {
				inits[v.Sym] = v.Init
			}
		}
		type entry struct {
			j, code int
			st      *ai.State
			cond    []ai.Lit
			at, ctx string
			instant *ai.Term
		}
		var with, without []entry
		for j, b := range l.l.Backs {
			for _, code := range l.codes(b.St) {
				kind := entryKinds[code]
				if kind == "" {
					if auxKinds[code] != "" && code != 252 && code != 253 {
						for _, v := range pend {
							r.Check(equalTo(b.St, v.Steps[j], v.Sym), "deadline kept", fmt.Sprintf("%s, %s", s.name, auxKinds[code]), "an entry of code %d (%s) changes the pending deadline to %s (path: %s)", code, auxKinds[code], v.Steps[j], facts(b.St))
						}
					}
					continue
				}
				e := entry{j: j, code: code, st: l.given(b.St, code), at: fmt.Sprintf("%s, %s", s.name, kind), ctx: fmt.Sprintf("%s (code %d): ", kind, code)}
				e.cond = about(b.St)
				cmds, _ := s.sends(e.st, b.Events, b.Events)
				n, created := 0, false
				for _, m := range cmds {
					if m.why != "" { // R01
						created = true
						continue
					}
					if !m.isDeadline() {
						created = true
						continue
					}
					n++
					r.Check(created, "after the entry", e.at, "%sthe deadline is sent before the command that creates the entry", e.ctx)
					key := decoded("Str", stringType, l.in, ai.AddK(l.off.Sym, 1))
					if !r.Check(len(m.args) == 3 && m.args[1].t != nil && m.args[2].t != nil && m.args[1].t == ai.Unit(key) && m.args[2].t.Op == ai.OUnit, "own key", e.at, "%sthe deadline command is %s, not for the entry's own key %s", e.ctx, canonArgs(m.args), key) {
						continue
					}
					e.instant = m.args[2].t.Args[0]
				}
				r.Check(n <= 1, "one deadline", e.at, "%s%d deadlines are sent", e.ctx, n)
				if n > 0 {
					gets++
					with = append(with, e)
				} else {
					nones++
					without = append(without, e)
				}
			}
		}
		for j, b := range l.l.Backs {
			for _, code := range l.codes(b.St) {
				if code != 252 && code != 253 {
					continue
				}
				sets++
				want := l.recorded(code)
				st := l.given(b.St, code)
				st.Assume(ai.Lt(ai.Int(0), want), true)
				st.Assume(ai.Lt(ai.Int(0), ai.Conv(want, u64T, types.Typ[types.Int64])), true)
				m := steps(j)
				for _, e := range with {
					if e.instant == nil {
						continue
					}
					got := decimal(st, ai.Subst(e.instant, m))
					r.Check(got != nil && got == ai.Ring(st.Norm(want)), "exact instant", e.at, "%safter a %s the deadline is %s, not %s in decimal", e.ctx, auxKinds[code], ai.Subst(e.instant, m), want)
				}
				for _, e := range without {
					r.Check(!holds(st, m, e.cond), "deadline applied", e.at, "%sthe path that sends no deadline is possible right after a %s (path: %s)", e.ctx, auxKinds[code], facts(e.st))
				}
			}
		}
		for _, e := range with {
			r.Check(!holds(l.l.Entry, inits, e.cond), "no deadline without one", e.at, "%sthe path that sends a deadline is possible for the first entry (path: %s)", e.ctx, facts(e.st))
			for _, p := range append(append([]entry{}, with...), without...) {
				r.Check(!holds(p.st, steps(p.j), e.cond), "no deadline without one", p.at, "%sthe deadline stays pending after the entry, and applies to a later one of code %d too (path: %s)", p.ctx, e.code, facts(p.st))
			}
		}
	}
	r.Floor("deadline entries", sets, 2)
	r.Floor("entries with a deadline", gets, 12)
	r.Floor("entries without", nones, 12)
	w.appliesDeadline(r)
}

func checkR03(w *World, r *Rep) {
	r.Explain = "Every path of the snapshot loader and of each of its decoders: a path on which a read, a parse or a decoder fails returns an error, and goes no further (an iteration that saw a failure does not end normally). Success is returned only behind the end-of-file code, after the header was found to be REDIS; an iteration ends normally only for the entry kinds the loader supports. The decoders' own failed reads are returned as errors."
	s := w.snapshot(r)
	if s == nil {
		return
	}
	ok := 0
	for _, o := range s.outs {
		st := o.St
		if o.Kind != ai.Ret {
			continue
		}
		err := s.err(o)
		l, rest := s.loopOn(o)
		if len(loadFailures(rest)) > 0 || l == nil && len(loadFailures(st.Events())) > 0 {
			r.Check(!err.IsNil(), "failures are returned", s.name, "%s and success is reported (path: %s)", failNames(loadFailures(st.Events())), facts(st))
			continue
		}
		if !err.IsNil() {
			continue
		}
		if !r.Check(l != nil, "end of file", s.name, "success is reported without reading entries (path: %s)", facts(st)) {
			continue
		}
		ok++
		cs := l.codes(st)
		r.Check(len(cs) == 1 && cs[0] == 255, "end of file", s.name, "success is reported where the next byte may be %s, not only the end-of-file code 255 (path: %s)", ints(cs), facts(st))
		good := true
		for i, c := range []byte("REDIS") {
			good = good && only(st, ai.Elem(l.in, ai.Int(int64(i)), tByte)) == int(c)
		}
		good = good || decided(st, ai.Eq(ai.SubSeq(l.in, ai.Int(0), ai.Int(5)), ai.Str("REDIS")), true) || decided(st, ai.HasPrefix(ai.SubSeq(l.in, ai.Int(0), ai.Int(9)), ai.Str("REDIS")), true)
		r.Check(good, "header", s.name, "success is reported although the file may not begin with REDIS (path: %s)", facts(st))
	}
	r.Floor("successful paths", ok, 1)
	for _, l := range s.loops {
		for _, b := range l.l.Backs {
			f := loadFailures(b.Events)
			r.Check(len(f) == 0, "failures are returned", s.name, "%s and loading goes on (path: %s)", failNames(f), facts(b.St))
			for _, c := range l.codes(b.St) {
				r.Check(entryKinds[c] != "" || auxKinds[c] != "", "unknown kinds are refused", s.name, "an entry of the unsupported code %d is passed over (path: %s)", c, facts(b.St))
			}
		}
	}
	// an undecodable value may panic; what recovers it reports it
	if x := w.rdbWorld(r, true); x != nil {
		x.e.ForkPanic = true
		n := 0
		for _, o := range x.run(x.load, x.repl) {
			if o.Kind != ai.Ret {
				continue
			}
			for _, ev := range o.St.Events() {
				if ev.Kind == "recovered" {
					n++
					r.Check(!x.err(o).IsNil(), "failures are returned", s.name, "a panic while decoding is recovered and success is reported (path: %s)", facts(o.St))
				}
			}
		}
		r.Note("%d paths that recover a panic", n)
	}
	// the decoders themselves
	n := 0
	for _, pkg := range []string{"redis/rdb", "redis/lzf", "redis/ziplist", "redis/intset", "redis/zipmap"} {
		for _, f := range w.decoders(pkg) {
			n++
			sig := f.Signature
			hasErr := sig.Results().Len() > 0 && isErr(sig.Results().At(sig.Results().Len()-1).Type())
			for _, o := range w.run(r, f, w.symArgs(f), nil) {
				fl := failures(o.St.Events())
				if o.Kind != ai.Ret {
					continue
				}
				if !hasErr {
					r.Check(len(fl) == 0, "decoder failures are returned", w.place(f), "%s and a value is returned (path: %s)", failNames(fl), facts(o.St))
					continue
				}
				_, err := splitErr(sig, o)
				r.Check(len(fl) == 0 || !err.IsNil(), "decoder failures are returned", w.place(f), "%s and no error is returned (path: %s)", failNames(fl), facts(o.St))
			}
		}
	}
	r.Floor("decoders", n, 8)
}

// loadFailures are the failures that matter to a load: closing a file that was
// only read is none.
func loadFailures(evs []*ai.Event) []*ai.Event {
	var out []*ai.Event
	for _, ev := range failures(evs) {
		if ev.Name == "Close" || strings.HasSuffix(ev.Name, ".Close") {
			continue
		}
		out = append(out, ev)
	}
	return out
}

func ints(vs []int) string {
	if len(vs) > 12 {
		return fmt.Sprintf("%v... (%d values)", vs[:12], len(vs))
	}
	return fmt.Sprint(vs)
}

// decoders are the functions of a package that read a stream or a string.
func (w *World) decoders(pkg string) []*ssa.Function {
	var out []*ssa.Function
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	for _, f := range w.allFns() {
		if f.Pkg != p || f.Signature.Recv() != nil || f.Parent() != nil || !ast.IsExported(f.Name()) || !(strings.HasPrefix(f.Name(), "Load") || strings.HasPrefix(f.Name(), "De")) {
			continue
		}
		out = append(out, f)
	}
	return out
}

// symArgs are unknown arguments.
func (w *World) symArgs(f *ssa.Function) []*ai.Term {
	var as []*ai.Term
	for _, p := range f.Params {
		n := p.Name()
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			n = "!" + n
		}
		as = append(as, ai.Sym(n, p.Type()))
	}
	return as
}
