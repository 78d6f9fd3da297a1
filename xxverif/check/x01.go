package check

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() {
	registry["X01"] = checkX01
	registry["X02"] = checkX02
}

// clientT is the type of the client the constructor returns.
func (x *construct) clientT() *types.Named {
	res := x.f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if n, ok := types.Unalias(deref(res.At(i).Type())).(*types.Named); ok && !types.IsInterface(n) {
			return n
		}
	}
	return nil
}

// receiver turns the client the constructor returned into what m is called on.
func (x *construct) receiver(st *ai.State, client *ai.Term, m *ssa.Function) *ai.Term {
	if _, ok := m.Params[0].Type().Underlying().(*types.Pointer); !ok {
		if _, ok := client.T.Underlying().(*types.Pointer); ok {
			return x.e.Load(st, client, deref(client.T))
		}
		return client
	}
	if _, ok := client.T.Underlying().(*types.Pointer); ok {
		return client
	}
	p := ai.Sym("!theclient", types.NewPointer(client.T))
	x.e.Store(st, p, client, client.T)
	return p
}

func checkX02(w *World, r *Rep) {
	r.Explain = "The constructor is followed on every path with a network and a loader that may fail at each call: whenever a call fails the error it returns is known not to be nil, and it never panics. On every path that reports success the snapshot was received and loaded without failure, from the file it was saved to, after a goroutine was started that hands what the loader sends to this client's cache; every exported method of the client and every implemented cache operation is then run from the state construction leaves, and none can panic or block on the client's own parts; the connections it opens go to the server the snapshot came from."
	x, ok := w.pipeline(r)
	if !ok {
		return
	}
	w.net(r)
	name := w.place(x.f)
	good, failed := 0, 0
	steps := map[string]int{}
	for _, o := range x.start() {
		r.Paths++
		w.noPanic(r, "construction does not panic", name, "", o)
		if o.Kind != ai.Ret {
			if o.Kind == ai.Exit {
				r.Fail("construction returns", name, "does not return: %v (path: %s)", o.Val, facts(o.St))
			}
			continue
		}
		_, err := splitErr(x.f.Signature, o)
		if err == nil {
			r.Fail("roles", name, "reports no error")
			return
		}
		broken := ""
		for _, ev := range failures(o.St.Events()) {
			switch {
			case strings.HasSuffix(ev.Name, ".Close"), strings.HasPrefix(ev.Name, "cache."):
			default:
				broken = ev.Name
				steps[ev.Name]++
			}
		}
		if broken != "" {
			failed++
			r.Check(decided(o.St, ai.Eq(err, ai.Nil()), false), "a failed step is reported", name, "%s failed but the error returned is %s (path: %s)", broken, err, facts(o.St))
			continue
		}
		client, ok := x.success(o)
		if !ok {
			r.Check(decided(o.St, ai.Eq(err, ai.Nil()), false), "the outcome is known", name, "returns %s, which may be nil (path: %s)", err, facts(o.St))
			continue
		}
		good++
		x.ready(o, client)
	}
	for _, s := range []string{"connect", "open", "snapshot"} {
		n := 0
		for k, v := range steps {
			if strings.Contains(k, s) || s == "open" && strings.Contains(k, "Open") {
				n += v
			}
		}
		r.Floor("failures of "+s+" followed", n, 1)
	}
	r.Floor("failed constructions", failed, 4)
	r.Floor("successful constructions", good, 1)
	r.Note("failing steps followed: %v", sortedCounts(steps))
}

func sortedCounts(m map[string]int) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// ready: a successfully constructed client can be used.
func (x *construct) ready(o *ai.Outcome, client *ai.Term) {
	w, r, name := x.w, x.r, x.w.place(x.f)
	where := facts(o.St)
	var load, dialled *ai.Event
	var opened []*ai.Term
	loaded := false
	for _, ev := range flat(o.St.Events()) {
		switch {
		case ev.Kind == "load":
			load = ev
		case ev.Kind == "ok" && ev.Name == "snapshot":
			loaded = true
		case ev.Kind == "dialled":
			dialled = ev
		case ev.Kind == "open" && load == nil:
			opened = append(opened, o.St.Norm(ev.Args[1]))
		}
	}
	if !r.Check(load != nil && loaded, "the snapshot is loaded", name, "reports success without having loaded the snapshot (path: %s)", where) {
		return
	}
	r.Check(dialled != nil, "the snapshot is loaded", name, "reports success without having connected to the master (path: %s)", where)
	su := x.T.Underlying().(*types.Struct)
	same := false
	for i := 0; i < su.NumFields(); i++ {
		if b, ok := su.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			v := o.St.Norm(ai.FieldOf(load.Args[1], i, su.Field(i).Type()))
			for _, f := range opened {
				same = same || equalTo(o.St, v, f)
			}
		}
	}
	r.Check(same, "the snapshot is loaded", name, "loads a snapshot from another file than %v, to which it was saved (path: %s)", opened, where)
	// the parts of the client
	cache := w.clientPart(x, o.St, client, "cache", "Cache")
	server := w.clientPart(x, o.St, client, "redis", "Redis")
	for what, p := range map[string]*ai.Term{"cache": cache, "server connection": server} {
		if !r.Check(p != nil && decided(o.St, ai.Eq(p, ai.Nil()), false), "every part is there", name, "the client's %s may be nil: %v (path: %s)", what, p, where) {
			return
		}
	}
	// the snapshot reaches it
	handed := false
	for _, k := range x.workersFrom(o, func(ev *ai.Event) *ai.State { return ev.From }) {
		if !k.applies() {
			continue
		}
		hands := k.does(func(ev *ai.Event) bool {
			return ev.Kind == "handle" && len(ev.Args) == 2 && equalTo(o.St, ev.Args[0], cache)
		})
		for _, ch := range k.channels() {
			for i := 0; i < su.NumFields(); i++ {
				if f := o.St.Norm(ai.FieldOf(load.Args[1], i, su.Field(i).Type())); f == ch && isMsgChan(f) {
					handed = handed || hands
				}
			}
		}
	}
	r.Check(handed, "the snapshot reaches the cache", name, "no goroutine hands what the loader sends to the cache of the client (path: %s)", where)
	x.usable(o, client, cache, server, dialled)
}

// usable runs what a user may call from the state construction leaves.
func (x *construct) usable(o *ai.Outcome, client, cache, server *ai.Term, dialled *ai.Event) {
	w, r := x.w, x.r
	// without the recording of cache operations
	save := x.e
	x.e = save.With()
	defer func() { x.e = save }()
	for _, f := range w.Methods(w.Type("cache", "Cache")) {
		delete(x.e.Override, f)
	}
	n, dials := 0, 0
	use := func(f *ssa.Function, recv func(st *ai.State) *ai.Term) {
		n++
		st := started(o.St)
		args := []*ai.Term{recv(st)}
		for _, p := range f.Params[1:] {
			args = append(args, ai.Sym(p.Name(), p.Type()))
		}
		for _, g := range x.run(f, st, args...) {
			r.Paths++
			x.safe(f, g)
			for _, ev := range flat(g.St.Events()) {
				switch ev.Kind {
				case "deadlock", "lock.imbalance", "badunlock", "block":
					r.Fail("the client can be used", w.place(f), "after construction: %s at %s (path: %s)", ev.Kind, w.Pos(ev.Pos), facts(g.St))
				case "dialled":
					dials++
					r.Check(dialled == nil || equalTo(g.St, ev.Args[0], dialled.Args[0]), "the client asks the server it follows", w.place(f), "connects to %s, not to %s (path: %s)", ev.Args[0], dialled.Args[0], facts(g.St))
				}
			}
			if g.Kind == ai.Exit {
				r.Fail("the client can be used", w.place(f), "does not return: %v (path: %s)", g.Val, facts(g.St))
			}
		}
	}
	T := x.clientT()
	for _, f := range w.Methods(T) {
		if f.Blocks != nil && f.Object().Exported() {
			use(f, func(st *ai.State) *ai.Term { return x.receiver(st, client, f) })
		}
	}
	for _, f := range w.Methods(w.Type("cache", "Cache")) {
		if _, ok := cacheOps[f.Name()]; ok && f.Blocks != nil {
			use(f, func(st *ai.State) *ai.Term { return cache })
		}
	}
	r.Floor("operations on the constructed client", n, 30)
	r.Floor("connections of the constructed client", dials, 1)
}

// safe: g cannot panic, provided that what the pool holds, and what connecting returned, is a connection
// (which N01 states).
func (x *construct) safe(f *ssa.Function, g *ai.Outcome) {
	w, r := x.w, x.r
	conn := types.NewPointer(w.Type("redis", "Conn"))
	if g.Kind == ai.Pan {
		r.Fail("the client can be used", w.place(f), "after construction panics: %v at %s (path: %s)", g.Val, w.Pos(g.Pos), facts(g.St))
		return
	}
	for _, ev := range flat(g.St.Events()) {
		if ev.Kind != "maypanic" && ev.Kind != "panic" {
			continue
		}
		pooled := false
		if len(ev.Args) == 1 {
			ai.Walk(ev.Args[0], func(t *ai.Term) bool {
				pooled = pooled || t.Op == ai.OSym && (strings.HasPrefix(t.S, "recv@") && types.Identical(t.T, conn) || strings.HasPrefix(t.S, "init:recv@") || strings.HasPrefix(t.S, "init:!connect"))
				return true
			})
		}
		r.Check(pooled && strings.Contains(ev.Name, "nil"), "the client can be used", w.place(f), "after construction %s at %s is not shown safe: %v (path: %s)", ev.Name, w.Pos(ev.Pos), ev.Args, facts(g.St))
	}
	r.Check(true, "the client can be used", w.place(f), "")
}

// reads of the client that the local cache may answer
var clientReads = map[string]bool{"Get": true, "StrLen": true, "GetRange": true, "MGet": true}

func checkX01(w *World, r *Rep) {
	r.Explain = "Each exported command of the client is run with the operations of the local cache answering in each possible way (a result, the no-such-key error, another error) and with the operations of the server connection recorded: on every path a read returns the local answer and asks nobody unless that answer is the no-such-key error, in which case it sends the server the same command once and returns its answer; a write sends the server its command once and returns its answer. On a constructed client every connection it opens has selected the configured database, and been told so without error, before any command or other use, unless that database is the one connections start in."
	x, ok := w.pipeline(r)
	if !ok {
		return
	}
	w.net(r)
	T, cacheT, serverT := x.clientT(), w.Type("cache", "Cache"), w.Type("redis", "Redis")
	if T == nil || cacheT == nil || serverT == nil {
		r.Fail("roles", "xxcache.Client", "the client, cache or connection type is gone")
		return
	}
	miss := w.errKeyNil(r)
	if miss == nil {
		return
	}
	world := x.e.With()
	for _, f := range w.Methods(cacheT) {
		if f.Blocks == nil || !f.Object().Exported() {
			continue
		}
		f := f
		world.Override[f] = func(cc *ai.CallCtx) []*ai.Outcome { return localAnswer(cc, f, miss) }
	}
	for _, f := range w.Methods(serverT) {
		if f.Blocks == nil || !f.Object().Exported() {
			continue
		}
		f := f
		world.Override[f] = func(cc *ai.CallCtx) []*ai.Outcome {
			st := cc.St
			args := append([]*ai.Term(nil), cc.Args...)
			for i := range args {
				args[i] = st.Norm(args[i])
			}
			res := cc.Sig.Results()
			var rs []*ai.Term
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, st.Fresh("server."+f.Name(), res.At(i).Type()))
			}
			st.Emit(&ai.Event{Kind: "server", Name: f.Name(), Args: args, Res: rs, Pos: cc.Pos, Fn: cc.In})
			return []*ai.Outcome{{St: st, Kind: ai.Ret, Rets: rs}}
		}
	}
	keep := x.e
	x.e = world
	reads, writes := 0, 0
	for _, m := range w.Methods(T) {
		if m.Blocks == nil || !m.Object().Exported() {
			continue
		}
		if w.Method(serverT, m.Name()) == nil {
			r.Note("%s is no command", w.fnName(m))
			continue
		}
		var args []*ai.Term
		for i, p := range m.Params {
			if i == 0 {
				args = append(args, recvArg("client", m))
				continue
			}
			args = append(args, ai.Sym(p.Name(), p.Type()))
		}
		for _, o := range x.run(m, nil, args...) {
			r.Paths++
			if clientReads[m.Name()] {
				reads++
			} else {
				writes++
			}
			x.routed(m, args, o, miss)
		}
	}
	r.Floor("paths of reads", reads, 3)
	r.Floor("paths of writes", writes, 1)
	x.e = keep
	for _, f := range w.Methods(cacheT) {
		delete(x.e.Override, f)
	}
	conf := x.database(r)
	if conf == nil {
		return
	}
	uses := 0
	for _, o := range x.start() {
		client, ok := x.success(o)
		if !ok {
			continue
		}
		for _, m := range w.Methods(T) {
			if m.Blocks == nil || !m.Object().Exported() {
				continue
			}
			st := started(o.St)
			args := []*ai.Term{x.receiver(st, client, m)}
			for _, p := range m.Params[1:] {
				args = append(args, ai.Sym(p.Name(), p.Type()))
			}
			for _, g := range x.run(m, st, args...) {
				r.Paths++
				uses += x.selects(m, g, conf)
			}
		}
	}
	r.Floor("connections followed", uses, 2)
}

// errKeyNil is the value the cache's no-such-key error has.
func (w *World) errKeyNil(r *Rep) *ai.Term {
	if g := w.Global("cache", "ErrKeyNil"); g != nil {
		st := w.Init()
		if v := st.Norm(w.E.Load(st, ai.Global(g), deref(g.Type()))); !v.IsNil() {
			return v
		}
	}
	r.Fail("roles", "cache.ErrKeyNil", "the no-such-key error is gone")
	return nil
}

// localAnswer: the cache has a value, has none, or refuses.
func localAnswer(cc *ai.CallCtx, f *ssa.Function, miss *ai.Term) (outs []*ai.Outcome) {
	res := cc.Sig.Results()
	n := res.Len()
	args := append([]*ai.Term(nil), cc.Args...)
	for i := range args {
		args[i] = cc.St.Norm(args[i])
	}
	for kind, what := range []string{"hit", "miss", "refused"} {
		if kind > 0 && (n == 0 || !isErr(res.At(n-1).Type())) {
			break
		}
		st := cc.St.Clone()
		var rs []*ai.Term
		for i := 0; i < n; i++ {
			t := res.At(i).Type()
			switch {
			case i < n-1 || !isErr(t):
				rs = append(rs, st.Fresh("local."+f.Name(), t))
			case kind == 0:
				rs = append(rs, ai.Nil())
			case kind == 1:
				rs = append(rs, miss)
			default:
				e := st.Fresh("local.error", t)
				st.Assume(ai.Eq(e, ai.Nil()), false)
				st.Assume(ai.Eq(e, miss), false)
				rs = append(rs, e)
			}
		}
		st.Emit(&ai.Event{Kind: "local", Name: f.Name() + ":" + what, Args: args, Res: rs, Pos: cc.Pos, Fn: cc.In})
		outs = append(outs, &ai.Outcome{St: st, Kind: ai.Ret, Rets: rs})
	}
	return outs
}

// routed: one path of a client command asks whom it should.
func (x *construct) routed(m *ssa.Function, args []*ai.Term, o *ai.Outcome, miss *ai.Term) {
	r, name, st := x.r, x.w.place(m), o.St
	where := facts(st)
	if o.Kind != ai.Ret {
		r.Fail("answers", name, "does not return: %s %v (path: %s)", o.Kind, o.Val, where)
		return
	}
	var local *ai.Event
	var server []*ai.Event
	for _, ev := range flat(st.Events()) {
		switch ev.Kind {
		case "local":
			if strings.HasPrefix(ev.Name, m.Name()+":") && sameArgs(st, ev.Args[1:], args[1:]) {
				if local == nil {
					local = ev
				} else if local.Name != ev.Name {
					return // two answers to one question: another path has both alike
				}
			}
		case "server":
			server = append(server, ev)
		}
	}
	sent := func(answer string) {
		if !r.Check(len(server) == 1, "asks the server "+answer, name, "sends the server %d commands (path: %s)", len(server), where) {
			return
		}
		ev := server[0]
		r.Check(ev.Name == m.Name() && sameArgs(st, ev.Args[1:], args[1:]), "asks the server "+answer, name, "sends the server %s%v (path: %s)", ev.Name, ev.Args[1:], where)
		r.Check(len(o.Rets) == len(ev.Res) && sameArgs(st, o.Rets, ev.Res), "returns the server's answer", name, "returns %v, not the server's answer %v (path: %s)", o.Rets, ev.Res, where)
	}
	if !clientReads[m.Name()] {
		sent("to write")
		return
	}
	if !r.Check(local != nil, "asks the cache first", name, "does not ask the local cache (path: %s)", where) {
		return
	}
	switch local.Name[strings.Index(local.Name, ":")+1:] {
	case "miss":
		sent("on a miss")
	case "hit":
		r.Check(len(server) == 0, "asks the server only on a miss", name, "asks the server for a key the cache has (path: %s)", where)
		r.Check(sameArgs(st, o.Rets, local.Res), "returns the cached value", name, "returns %v, not the cached %v (path: %s)", o.Rets, local.Res, where)
	case "refused":
		r.Check(len(server) == 0, "asks the server only on a miss", name, "asks the server after the cache refused the key (path: %s)", where)
		_, err := splitErr(m.Signature, o)
		r.Check(err != nil && equalTo(st, err, local.Res[len(local.Res)-1]), "returns the cache's error", name, "returns %v, not the cache's error (path: %s)", err, where)
	}
}

func sameArgs(st *ai.State, a, b []*ai.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !equalTo(st, a[i], b[i]) {
			return false
		}
	}
	return true
}

// selects: a connection opened on the path has selected the database before
// it is used for anything else.
func (x *construct) selects(m *ssa.Function, g *ai.Outcome, conf *ai.Term) (n int) {
	w, r, name, st := x.w, x.r, x.w.place(m), g.St
	where := facts(st)
	errT := w.Type("redis", "ErrorMessage")
	initial := st.EntailsLe0(conf)
	type conn struct{ selected, used bool }
	conns := map[*ai.Term]*conn{}
	use := func(c *conn, what string, ev *ai.Event) {
		if c == nil {
			return
		}
		r.Check(initial || c.selected, "in the configured database", name, "a new connection is %s at %s without having selected the configured database (path: %s)", what, w.Pos(ev.Pos), where)
	}
	evs := flat(st.Events())
	for _, ev := range evs {
		switch {
		case ev.Kind == "ok" && ev.Name == "connect":
			conns[st.Norm(ev.Res[0])] = &conn{}
			n++
		case (ev.Kind == "ok" || ev.Kind == "fail") && strings.HasPrefix(ev.Name, "conn."):
			c := conns[st.Norm(ev.Args[0])]
			if c == nil || len(ev.Args) < 2 {
				continue
			}
			ps, why := w.texts(x.e, st, evs, st.Norm(ev.Args[1]))
			if why != "" {
				r.Fail("undecided", name, "sends %s: %s", ev.Args[1], why)
				continue
			}
			words := plainWords(ps)
			switch {
			case len(words) == 2 && words[0].IsConstStr() && strings.EqualFold(words[0].S, "select"):
				r.Check(equalTo(st, words[1], ai.Itoa(conf)), "in the configured database", name, "selects database %s (path: %s)", words[1], where)
				c.selected = ev.Kind == "ok" && ev.Name == "conn.SendAndWaitReply" && errT != nil && decided(st, ai.IsT(st.Norm(ev.Res[0]), errT), false)
				if ev.Kind == "ok" && !c.selected {
					// refused: may only be closed
					continue
				}
			case len(words) > 0 && words[0].IsConstStr() && strings.EqualFold(words[0].S, "auth"):
			default:
				use(c, "sent a command", ev)
			}
		case ev.Kind == "send":
			use(conns[st.Norm(ev.Args[len(ev.Args)-1])], "shared", ev)
		}
	}
	return n
}

// plainWords are the arguments of a command without repetition.
func plainWords(ps []part) (out []*ai.Term) {
	for _, p := range ps {
		if p.t == nil || p.t.Op != ai.OUnit {
			return out
		}
		out = append(out, p.t.Args[0])
	}
	return out
}
