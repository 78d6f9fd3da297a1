package check

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() {
	registry["R06"] = checkR06
	registry["R07"] = checkR07
}

// worker is one goroutine the constructor starts.
type worker struct {
	ev   *ai.Event
	name string
	outs []*ai.Outcome
	segs []segment
}

// pipeline prepares the constructor for following messages: applying one is
// only recorded.
func (w *World) pipeline(r *Rep) (x *construct, ok bool) {
	x = w.construct(r)
	if x == nil {
		return nil, false
	}
	hm, cacheT := w.fn(r, "cache", "HandleMessage"), w.Type("cache", "Cache")
	if hm == nil || cacheT == nil {
		return nil, false
	}
	if f := w.method(r, "redis", "ArrayMessage", "String"); f != nil {
		x.e.Override[f] = func(cc *ai.CallCtx) []*ai.Outcome {
			return []*ai.Outcome{{St: cc.St, Kind: ai.Ret, Rets: []*ai.Term{textOf(cc.St.Norm(cc.Args[0]))}}}
		}
	}
	record := func(kind string, f *ssa.Function) ai.ModelFn {
		return func(cc *ai.CallCtx) []*ai.Outcome {
			args := append([]*ai.Term(nil), cc.Args...)
			for i := range args {
				args[i] = cc.St.Norm(args[i])
			}
			cc.St.Emit(&ai.Event{Kind: kind, Name: f.Name(), Args: args, Pos: cc.Pos, Fn: cc.In})
			res := cc.Sig.Results()
			if n := res.Len(); n > 0 && isErr(res.At(n-1).Type()) {
				return fallible("cache."+f.Name(), nil)(cc)
			}
			var rs []*ai.Term
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, cc.St.Fresh("cache."+f.Name(), res.At(i).Type()))
			}
			return []*ai.Outcome{{St: cc.St, Kind: ai.Ret, Rets: rs}}
		}
	}
	x.e.Override[hm] = record("handle", hm)
	for _, f := range w.Methods(cacheT) {
		if f.Blocks != nil && f.Object().Exported() {
			x.e.Override[f] = record("apply", f)
		}
	}
	return x, true
}

// workers runs the goroutines started on a path of the constructor, each from
// the state the constructor leaves behind.
func (x *construct) workers(o *ai.Outcome) (ws []*worker) {
	return x.workersFrom(o, func(ev *ai.Event) *ai.State { return o.St })
}

func (x *construct) workersFrom(o *ai.Outcome, from func(ev *ai.Event) *ai.State) (ws []*worker) {
	for _, ev := range gos(o.St.Events()) {
		f := ev.Raw[0].Fn
		if f == nil || f.Blocks == nil {
			x.r.Fail("undecided", x.w.place(x.f), "starts the unknown %s at %s", ev.Name, x.w.Pos(ev.Pos))
			continue
		}
		k := &worker{ev: ev, name: x.w.place(f)}
		save := x.w.E
		x.w.E = x.e
		for _, g := range x.e.RunClosure(ev.Raw[0], ev.Raw[1:], started(from(ev)), "go") {
			if g.Kind == ai.Stuck {
				x.r.Fail("undecided", k.name, "the analysis cannot follow this goroutine: %v", g.Val)
				continue
			}
			k.outs = append(k.outs, g)
		}
		x.w.E = save
		k.segs = segments(k.outs)
		ws = append(ws, k)
	}
	return ws
}

func isReplMsg(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "ReplicationMessage"
}

// carries: the event passes a replication message.
func carries(ev *ai.Event) bool {
	return (ev.Kind == "recv" || ev.Kind == "send") && len(ev.Args) >= 2 && ev.Args[1] != nil && ev.Args[1].T != nil && isReplMsg(ev.Args[1].T)
}

func (k *worker) does(f func(ev *ai.Event) bool) bool {
	for _, s := range k.segs {
		for _, ev := range s.evs {
			if f(ev) {
				return true
			}
		}
	}
	return false
}

func (k *worker) applies() bool {
	return k.does(func(ev *ai.Event) bool { return ev.Kind == "recv" && carries(ev) })
}

func (k *worker) reads() bool {
	return k.does(func(ev *ai.Event) bool { return ev.Kind == "send" && carries(ev) })
}

func checkR06(w *World, r *Rep) {
	r.Explain = "Every message the loader sends, in every iteration of its loop, is tagged with the number of the last database selection. The constructor is followed on every path that succeeds, and from the state it leaves each goroutine it starts: in every iteration of the reading goroutine a message is tagged with the last selected database, dropped only if it is a ping, and a select changes that database to its number; in every iteration of the applying goroutine the message reaches the client's own cache exactly on the paths that know its database to be the configured one."
	if s := w.snapshot(r); s != nil {
		for _, l := range s.loops {
			db := s.dbVar(r, l)
			if db == nil {
				continue
			}
			n := 0
			for _, b := range l.l.Backs {
				cmds, _ := s.sends(b.St, flat(b.Events), b.Events)
				for _, m := range cmds {
					n++
					if m.db == nil {
						r.Fail("snapshot messages carry their database", s.name, "%s", m.why)
						continue
					}
					r.Check(equalTo(b.St, m.db, db.Sym), "snapshot messages carry their database", s.name, "the message sent at %s is tagged with database %s, not the current one (path: %s)", w.Pos(m.ev.Pos), m.db, facts(b.St))
				}
			}
			r.Floor("snapshot messages", n, 10)
			x, ok := w.pipeline(r)
			if !ok {
				return
			}
			x.follow(db)
		}
	}
}

// memField is the number of the field a loop quantity lives in.
func memField(v *ai.LoopVar) int {
	if !strings.HasPrefix(v.What, "mem:") {
		return -1
	}
	i, err := strconv.Atoi(v.What[strings.LastIndex(v.What, ".")+1:])
	if err != nil {
		return -1
	}
	return i
}

func (x *construct) follow(db *ai.LoopVar) {
	w, r := x.w, x.r
	conf := x.database(r)
	if conf == nil {
		return
	}
	applied, tagged, good := 0, 0, 0
	for _, o := range x.start() {
		client, ok := x.success(o)
		if !ok {
			continue
		}
		good++
		cache := x.w.clientPart(x, o.St, client, "cache", "Cache")
		for _, ev := range o.St.Events() {
			if ev.Kind != "load" {
				continue
			}
			if i := memField(db); i >= 0 {
				first := o.St.Norm(ai.FieldOf(ev.Args[1], i, tInt))
				r.Check(first.IsInt() && first.K == 0, "first database", w.place(x.f), "the snapshot is loaded with %s as the database of its first entries, not 0 (path: %s)", first, facts(o.St))
			}
		}
		for _, k := range x.workers(o) {
			if k.applies() {
				applied++
				x.filters(k, conf, cache)
				x.lasts(k)
			} else {
				for _, s := range k.segs {
					for _, ev := range s.evs {
						if ev.Kind == "handle" || ev.Kind == "apply" {
							r.Fail("only the applying goroutine changes the cache", k.name, "calls %s at %s without a message of the stream", ev.Name, w.Pos(ev.Pos))
						}
					}
				}
			}
			if k.reads() {
				tagged++
				x.tags(k, db)
			}
		}
	}
	r.Floor("successful constructions", good, 1)
	r.Floor("applying goroutines", applied, 1)
	r.Floor("reading goroutines", tagged, 1)
}

// clientPart finds the one field of the client that points to a T.
func (w *World) clientPart(x *construct, st *ai.State, client *ai.Term, pkg, name string) *ai.Term {
	T := w.Type(pkg, name)
	su, ok := client.T.Underlying().(*types.Struct)
	if !ok || T == nil {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if types.Identical(deref(su.Field(i).Type()), T) && !types.Identical(su.Field(i).Type(), T) {
			return st.Norm(ai.FieldOf(client, i, su.Field(i).Type()))
		}
	}
	return nil
}

// filters: a received message is applied exactly if its database is the
// configured one.
func (x *construct) filters(k *worker, conf, cache *ai.Term) {
	w, r := x.w, x.r
	for _, s := range k.segs {
		st := s.st
		if s.loop != nil {
			st = withInvariants(st, s.loop)
		}
		r.Paths++
		var cur *ai.Event
		var calls []*ai.Event
		settle := func() {
			if cur == nil {
				for _, c := range calls {
					r.Fail("only selected messages are applied", k.name, "calls %s at %s without having received a message (path: %s)", c.Name, w.Pos(c.Pos), facts(st))
				}
				calls = nil
				return
			}
			msg := cur.Args[1]
			mdb, body := fieldOf(w, st, msg, "Database"), fieldOf(w, st, msg, "Message")
			if mdb == nil || body == nil {
				r.Fail("roles", "redis.ReplicationMessage", "the database or the message of a replication message is gone")
				return
			}
			switch st.Decide(ai.Eq(mdb, conf)) {
			case 1:
				if r.Check(len(calls) == 1, "selected messages are applied", k.name, "a message of the configured database is applied %d times (path: %s)", len(calls), facts(st)) {
					c := calls[0]
					r.Check(c.Kind == "handle" && len(c.Args) == 2 && cache != nil && equalTo(st, c.Args[0], cache), "selected messages are applied", k.name, "the message is not applied to the cache of the client (path: %s)", facts(st))
					r.Check(c.Kind == "handle" && len(c.Args) == 2 && equalTo(st, c.Args[1], body), "selected messages are applied", k.name, "not the received message is applied but %s (path: %s)", c.Args[len(c.Args)-1], facts(st))
				}
			case 0:
				r.Check(len(calls) == 0, "only selected messages are applied", k.name, "a message of another database reaches the cache (path: %s)", facts(st))
			default:
				if len(calls) > 0 {
					r.Fail("only selected messages are applied", k.name, "a message is applied at %s although its database need not be the configured one (path: %s)", w.Pos(calls[0].Pos), facts(st))
				} else {
					r.Fail("selected messages are applied", k.name, "a message that may be of the configured database is not applied (path: %s)", facts(st))
				}
			}
			cur, calls = nil, nil
		}
		for _, ev := range s.evs {
			switch {
			case ev.Kind == "recv" && carries(ev):
				settle()
				cur, calls = nil, nil
				if ev.OK {
					cur = ev
				}
			case ev.Kind == "handle" || ev.Kind == "apply":
				calls = append(calls, ev)
			}
		}
		settle()
	}
}

// lasts: the applying goroutine ends only after the stream has.
func (x *construct) lasts(k *worker) {
	for _, o := range k.outs {
		if o.Kind != ai.Ret {
			continue
		}
		over := false
		for _, ev := range o.St.Events() {
			over = over || ev.Kind == "recv" && carries(ev) && !ev.OK
		}
		for _, l := range loopsOf(o.St.Events()) {
			for _, v := range l.Vars {
				over = over || v.Sym.T != nil && isMsgChan(v.Sym) && decided(o.St, ai.Eq(v.Sym, ai.Nil()), true)
			}
		}
		x.r.Check(over, "selected messages are applied", k.name, "stops applying messages before the stream has ended (path: %s)", facts(o.St))
	}
}

// tags: each message read off the stream is passed on with the last selected
// database.
func (x *construct) tags(k *worker, db *ai.LoopVar) {
	w, r := x.w, x.r
	arrT, msgT := w.Type("redis", "ArrayMessage"), w.Type("redis", "Message")
	if arrT == nil || msgT == nil {
		r.Fail("roles", "redis.ArrayMessage", "the message types are gone")
		return
	}
	reads := func(evs []*ai.Event) (ms []*ai.Term) {
		for _, ev := range evs {
			if ev.Kind == "ok" && ev.Name == "conn.Recv" {
				ms = append(ms, ev.Res[0])
			}
		}
		return ms
	}
	n := 0
	for _, s := range k.segs {
		var sends []*ai.Event
		failed := false
		for _, ev := range s.evs {
			if ev.Kind == "send" && carries(ev) {
				sends = append(sends, ev)
			}
			failed = failed || ev.Kind == "fail" && ev.Name == "conn.Recv"
		}
		got := reads(s.evs)
		if len(got) == 0 {
			r.Check(len(sends) == 0, "every message is passed on once", k.name, "sends a message that was not read (path: %s)", facts(s.st))
			if s.loop != nil && failed {
				r.Fail("a lost stream ends", k.name, "goes on reading after a read failed (path: %s)", facts(s.st))
			}
			continue
		}
		n++
		st := s.st
		m := got[0]
		if len(got) > 1 {
			r.Fail("undecided", k.name, "reads more than one message in one iteration")
			continue
		}
		// the current database
		var v *ai.LoopVar
		if s.loop != nil {
			v = x.current(s.loop, db)
			if v == nil {
				r.Fail("database tag", k.name, "no quantity of the reading loop is the current database of the messages it sends")
				continue
			}
		}
		el := func(i int) *ai.Term {
			return textOf(ai.Elem(ai.Unwrap(m, arrT), ai.Int(int64(i)), msgT))
		}
		sel := func(st *ai.State) bool { // assumes that m is a select
			return st.Assume(ai.IsT(m, arrT), true) && st.Assume(ai.Eq(ai.Len(ai.Unwrap(m, arrT)), ai.Int(2)), true) && st.Assume(ai.Eq(ai.Lower(el(0)), ai.Str("select")), true)
		}
		is := sel(st.Clone())
		known := is && st.Decide(ai.Eq(ai.Lower(el(0)), ai.Str("select"))) == 1
		ping := false
		for _, q := range st.Lits() {
			ping = ping || q.Val && isPing(q.T, m, el(0), arrT)
		}
		is = is && !ping
		where := fmt.Sprintf("(path: %s)", facts(st))
		if s.loop == nil {
			// the last message of the stream
			r.Check(len(sends) == 0 || known || !is, "every message is passed on once", k.name, "passes a message on and ends %s", where)
			r.Check(known || ping, "every message is passed on once", k.name, "ends without passing a message on %s", where)
			continue
		}
		step := st.Norm(v.Steps[s.back])
		if known {
			r.Check(equalTo(st, step, ai.Call("atoi", tInt, el(1))), "a select changes the database", k.name, "after a select the current database is %s, not the number that follows %s", step, where)
			continue
		}
		if !r.Check(!is, "a select changes the database", k.name, "a message that may be a select is not treated as one: the current database stays %s %s", step, where) {
			continue
		}
		r.Check(equalTo(st, step, v.Sym), "only a select changes the database", k.name, "a message that is no select changes the current database to %s %s", step, where)
		if len(sends) == 0 {
			r.Check(ping, "every message is passed on once", k.name, "a message that need not be a ping is dropped %s", where)
			continue
		}
		r.Check(len(sends) == 1, "every message is passed on once", k.name, "a message is passed on %d times %s", len(sends), where)
		for _, ev := range sends {
			d, b := fieldOf(w, st, ev.Args[1], "Database"), fieldOf(w, st, ev.Args[1], "Message")
			r.Check(d != nil && equalTo(st, d, v.Sym), "database tag", k.name, "a message is tagged with database %s, not the current one %s", d, where)
			r.Check(b != nil && equalTo(st, b, m), "every message is passed on once", k.name, "passes on %s, not the message read %s", b, where)
		}
	}
	r.Floor("messages followed through the reader", n, 3)
	// the stream begins in the database the snapshot ended with
	for _, s := range k.segs {
		if s.loop == nil || len(reads(s.evs)) == 0 {
			continue
		}
		if v := x.current(s.loop, db); v != nil && v.Init != nil {
			if i := memField(db); i >= 0 {
				want := "loaded:" + x.T.Underlying().(*types.Struct).Field(i).Name()
				init := s.loop.Entry.Norm(v.Init)
				r.Check(init.Op == ai.OSym && init.S == want, "the stream goes on in the database the snapshot ended with", k.name, "the stream begins in database %s", init)
			}
		}
		break
	}
}

// isPing: t says that the message, or its first element, begins with or is
// the word ping. The text of an array begins with that of its first element.
func isPing(t, m, first *ai.Term, arr types.Type) bool {
	if t.Op != ai.OEq && !(t.Op == ai.OCall && t.S == "hasprefix") || len(t.Args) != 2 {
		return false
	}
	for i := range t.Args {
		a, b := t.Args[i], t.Args[1-i]
		for a.Op == ai.OCall && (a.S == "lower" || a.S == "upper") {
			a = a.Args[0]
		}
		if (a == textOf(m) || a == textOf(ai.Unwrap(m, arr)) || a == first) && b.Op == ai.OStr && strings.EqualFold(strings.TrimSpace(b.S), "ping") && (t.Op == ai.OEq || t.Args[0] == t.Args[i]) {
			return true
		}
	}
	return false
}

// current is the loop quantity the messages of the loop are tagged with.
func (x *construct) current(l *ai.LoopInfo, db *ai.LoopVar) *ai.LoopVar {
	for _, b := range l.Backs {
		for _, ev := range b.Events {
			if ev.Kind != "send" || !carries(ev) {
				continue
			}
			d := fieldOf(x.w, b.St, ev.Args[1], "Database")
			for _, v := range l.Vars {
				if d != nil && v.Sym == d {
					return v
				}
			}
		}
	}
	return nil
}
