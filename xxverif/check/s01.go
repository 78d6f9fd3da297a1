package check

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["S01"] = checkS01 }

// touch is one access to memory that more than one goroutine can reach.
type touch struct {
	at    *ai.Term
	write bool
	lib   bool // by a library object that is not made for concurrent use
	ev    *ai.Event
	locks string
	idx   int // position among the events of its path
	st    *ai.State
}

// thread is what one goroutine may do: its paths, with the accesses on each.
type thread struct {
	name  string
	paths []*course
}

type course struct {
	evs  []*ai.Event
	sts  []*ai.State
	acts []touch
	top  *ai.State
}

// common is the memory known when goroutines part ways.
type common struct {
	roots map[*ai.Term]bool
	names []string
}

func (c *common) add(t *ai.Term) {
	if t == nil {
		return
	}
	ai.Walk(t, func(x *ai.Term) bool {
		if (x.Op == ai.OAlloc || x.Op == ai.OSym || x.Op == ai.OGlobal) && !c.roots[x] {
			c.roots[x] = true
			if x.Op == ai.OSym {
				c.names = append(c.names, bare(x.S))
			}
		}
		return true
	})
}

func bare(s string) string {
	for strings.HasPrefix(s, "init:") || strings.HasPrefix(s, "&") {
		s = strings.TrimPrefix(strings.TrimPrefix(s, "init:"), "&")
	}
	return s
}

// memoryOf is everything a state knows about, and what the given terms reach.
func memoryOf(st *ai.State, more ...*ai.Term) *common {
	c := &common{roots: map[*ai.Term]bool{}}
	if st != nil {
		for a, v := range st.Mem {
			c.add(a)
			c.add(v)
		}
	}
	for _, t := range more {
		c.add(t)
	}
	return c
}

// reaches: the address lies in the common memory, or in what it pointed to from
// the start.
func (c *common) reaches(a *ai.Term) bool {
	r := rooted(a)
	if r.Op == ai.OGlobal || c.roots[r] || r.Op == ai.OAlloc && strings.Contains(r.S, "@init") {
		return true
	}
	if r.Op != ai.OSym {
		return false
	}
	for x := r.S; strings.HasPrefix(x, "init:"); {
		b := bare(x)
		for _, n := range c.names {
			if strings.HasPrefix(b, n) && (len(b) == len(n) || !isWordByte(b[len(n)])) {
				return true
			}
		}
		// a global
		return !strings.HasPrefix(b, "!") && strings.Contains(b, "/")
	}
	return false
}

// rooted strips selections from an address or a value.
func rooted(a *ai.Term) *ai.Term {
	for a.Op == ai.OField || a.Op == ai.OIndex || a.Op == ai.OCall && strings.HasPrefix(a.S, "fld") && len(a.Args) == 1 {
		a = a.Args[0]
	}
	return a
}

func isWordByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// follow collects the accesses of a path, from an event on.
func (c *common) follow(st *ai.State, all []*ai.Event, from int) *course {
	k := &course{top: st}
	k.evs, k.sts = withStates(st, all)
	for i, ev := range k.evs {
		if i < from {
			continue
		}
		t := touch{ev: ev, idx: i, st: k.sts[i], locks: ev.Locks}
		switch ev.Kind {
		case "mem.load", "mem.store":
			t.at, t.write = ev.Args[0], ev.Kind == "mem.store"
		case "dict.load", "dict.range", "dict.store", "dict.delete", "dict.clear":
			d := ev.Args[0]
			if d.T == nil || !isMapType(d.T) {
				continue // made for concurrent use
			}
			t.at, t.write = d, ev.Kind != "dict.load" && ev.Kind != "dict.range"
		case "read", "unread", "write", "flush":
			t.at, t.write, t.lib = ev.Args[0], true, true
		default:
			continue
		}
		if t.at != nil && c.reaches(t.at) {
			k.acts = append(k.acts, t)
		}
	}
	return k
}

// meets: the two addresses may name the same memory.
func meets(a, b *ai.Term) bool {
	if a == b {
		return true
	}
	for x := a; x.Op == ai.OField || x.Op == ai.OIndex; x = x.Args[0] {
		if x.Args[0] == b {
			return true
		}
	}
	for x := b; x.Op == ai.OField || x.Op == ai.OIndex; x = x.Args[0] {
		if x.Args[0] == a {
			return true
		}
	}
	if a.Op == ai.OIndex && b.Op == ai.OIndex && a.Args[0] == b.Args[0] {
		return !(a.Args[1].IsInt() && b.Args[1].IsInt() && a.Args[1].K != b.Args[1].K)
	}
	if (a.Op == ai.OField || a.Op == ai.OIndex) && a.Op == b.Op && a.Op == ai.OField && a.K == b.K {
		return meets(a.Args[0], b.Args[0])
	}
	return false
}

// guarded: both accesses hold a lock in common, at least one of them for
// writing.
func guarded(a, b touch) bool {
	x, y := heldLocks(a.locks), heldLocks(b.locks)
	for l, wx := range x {
		wy, ok := y[l]
		if ok && (wx || wy) && (wx || !a.write) && (wy || !b.write) {
			return true
		}
	}
	return false
}

// handedOver: the access of a happens before that of b, because a's goroutine
// sends on (or closes) a channel afterwards that b's has received from before.
func handedOver(a *course, s touch, b *course, t touch) bool {
	for i := s.idx + 1; i < len(a.evs); i++ {
		ev := a.evs[i]
		if ev.Kind != "send" && ev.Kind != "close" || a.sts[i] != a.top {
			continue
		}
		ch := ev.Args[0]
		if ev.Kind == "send" && len(ev.Raw) > 0 {
			ch = ev.Raw[0]
		}
		for j := 0; j < t.idx; j++ {
			if e := b.evs[j]; e.Kind == "recv" && len(e.Args) > 0 && e.Args[0] == ch {
				return true
			}
		}
	}
	return false
}

// ofThePackage leaves the locks that are package variables: those of two
// objects keep nothing apart.
func ofThePackage(locks string) string {
	var out []string
	for _, l := range strings.Split(locks, ",") {
		if strings.HasPrefix(l, "&") && strings.Contains(l, "/") {
			out = append(out, l)
		}
	}
	return strings.Join(out, ",")
}

type racing struct {
	w    *World
	r    *Rep
	told map[string]bool
	n    int
}

// apart: no two accesses of the two goroutines meet unguarded. What a goroutine
// and the one that started it pass each other through a channel is in order.
func (g *racing) apart(rule string, a, b *thread, parent bool) {
	w, r := g.w, g.r
	for _, p := range a.paths {
		for _, s := range p.acts {
			for _, q := range b.paths {
				for _, t := range q.acts {
					if !s.write && !t.write || !meets(s.at, t.at) {
						continue
					}
					g.n++
					if guarded(s, t) || parent && (handedOver(p, s, q, t) || handedOver(q, t, p, s)) {
						r.Check(true, rule, a.name, "")
						continue
					}
					x, y, n, m := s, t, a.name, b.name
					if !x.write {
						x, y, n, m = t, s, m, n
					}
					key := rule + w.Pos(x.ev.Pos) + w.Pos(y.ev.Pos)
					if g.told[key] {
						continue
					}
					g.told[key] = true
					r.Fail(rule, n, "%s at %s (holding %s) while %s %s it at %s (holding %s), with nothing to keep them apart", g.what(x), w.Pos(x.ev.Pos), locksOf(x), m, verb(y), w.Pos(y.ev.Pos), locksOf(y))
				}
			}
		}
	}
}

func verb(t touch) string {
	switch {
	case t.lib:
		return "uses"
	case t.write:
		return "writes"
	}
	return "reads"
}

func (g *racing) what(t touch) string {
	if t.lib {
		return "uses " + cellPath(t.at)
	}
	if t.ev.Kind != "mem.store" && t.ev.Kind != "mem.load" {
		return "changes the map " + t.at.String()
	}
	return "writes " + cellPath(t.at)
}

func locksOf(t touch) string {
	if t.locks == "" {
		return "no lock of its own"
	}
	return t.locks
}

// threads a path starts, each with what it may do from the state given.
func (g *racing) spawned(e *ai.Engine, evs []*ai.Event, from func(ev *ai.Event) *ai.State) (out []*thread, at []*ai.Event) {
	w, r := g.w, g.r
	for _, ev := range gos(evs) {
		f := ev.Raw[0].Fn
		if f == nil || f.Blocks == nil {
			continue // library code
		}
		st := started(from(ev))
		t := &thread{name: w.place(f)}
		c := memoryOf(st, ev.Raw[1:]...)
		c.add(ev.Raw[0])
		save := w.E
		w.E = e
		for _, o := range e.RunClosure(ev.Raw[0], ev.Raw[1:], st, "go") {
			if o.Kind == ai.Stuck {
				r.Fail("undecided", t.name, "the analysis cannot follow this goroutine: %v", o.Val)
				continue
			}
			r.Paths++
			t.paths = append(t.paths, c.follow(o.St, o.St.Events(), 0))
		}
		w.E = save
		out = append(out, t)
		at = append(at, ev)
	}
	return
}

// family: the goroutines a path starts, and what the path itself goes on to do.
func (g *racing) family(rule string, e *ai.Engine, name string, o *ai.Outcome, from func(ev *ai.Event) *ai.State) []*thread {
	kids, at := g.spawned(e, o.St.Events(), from)
	for i, k := range kids {
		for j := i + 1; j < len(kids); j++ {
			g.apart(rule, k, kids[j], false)
		}
		c := memoryOf(at[i].From, at[i].Raw...)
		evs := flat(o.St.Events())
		start := -1
		for n, ev := range evs {
			if ev == at[i] {
				start = n
			}
		}
		// one started in a loop runs beside itself
		again := false
		for _, l := range loopsOf(o.St.Events()) {
			for _, b := range l.Backs {
				for _, ev := range flat(b.Events) {
					again = again || ev == at[i]
				}
			}
		}
		if again {
			g.apart(rule, k, k, false)
		}
		g.apart(rule, &thread{name, []*course{c.follow(o.St, o.St.Events(), start+1)}}, k, !again)
	}
	return kids
}

// setUp lists the methods of T a constructor calls: they come before any
// concurrent use. A plain function that is handed a T is no constructor but a
// part of an operation.
func (w *World) setUp(T *types.Named) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range w.allFns() {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if f.Blocks == nil || top.Signature.Recv() != nil || takes(top, T) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if m := c.Common().StaticCallee(); m != nil && m.Signature.Recv() != nil && types.Identical(deref(m.Signature.Recv().Type()), T) && m.Pkg == f.Pkg {
						out[m] = true
					}
				}
			}
		}
	}
	return out
}

func takes(f *ssa.Function, T *types.Named) bool {
	for _, p := range f.Params {
		if types.Identical(deref(p.Type()), T) {
			return true
		}
	}
	return false
}

func checkS01(w *World, r *Rep) {
	w.net(r)
	r.Explain = "All accesses to memory two goroutines can reach are collected with the locks held at each: of the goroutines the constructor starts, of the constructor after it has started them, of the client's operations beside them, of every pair of operations on one client or pool, of goroutines an operation starts, and of every exported function on package variables. Two accesses that may meet, one of them a write (or both a use of one buffered reader or writer), hold a lock in common that keeps them apart, or one is handed over to the other through a channel."
	r.Assume = append(r.Assume, "the cache's own state is that of K01; a connection taken from the pool belongs to the caller until it is given back (N01)", "setting up a pool is over before it is used", "arguments of an operation belong to its caller")
	g := &racing{w: w, r: r, told: map[string]bool{}}
	w.E.AllMem = true
	defer func() { w.E.AllMem = false }()

	// the goroutines behind a client
	x := w.construct(r)
	if x == nil {
		return
	}
	x.e.AllMem = true
	hm, cacheT := w.fn(r, "cache", "HandleMessage"), w.Type("cache", "Cache")
	if hm == nil || cacheT == nil {
		return
	}
	x.e.Override[hm] = anyResult(hm.Name())
	for _, f := range w.Methods(cacheT) {
		if f.Blocks != nil && f.Object().Exported() {
			x.e.Override[f] = anyResult(f.Name())
		}
	}
	// what they do on the connection counts
	services := x.e.With()
	for _, n := range []string{"Send", "Recv", "SendAndWaitReply"} {
		if f := w.method(r, "redis", "Conn", n); f != nil {
			delete(services.Override, f)
		}
	}
	good := 0
	workers := map[string]bool{}
	for _, o := range x.start() {
		r.Paths++
		client, ok := x.success(o)
		kids := g.family("construction", services, w.place(x.f), o, func(ev *ai.Event) *ai.State { return o.St })
		for _, k := range kids {
			workers[k.name] = true
		}
		if !ok {
			continue
		}
		good++
		// operations of the client beside them
		T := x.clientT()
		if T == nil {
			continue
		}
		st := started(o.St)
		c := memoryOf(st, client)
		for _, f := range w.Methods(T) {
			if f.Blocks == nil || !f.Object().Exported() {
				continue
			}
			s := st.Clone()
			args := append([]*ai.Term{x.receiver(s, client, f)}, w.symArgs(f)[1:]...)
			t := &thread{name: w.place(f)}
			for _, q := range x.run(f, s, args...) {
				t.paths = append(t.paths, c.follow(q.St, q.St.Events(), 0))
			}
			for _, k := range kids {
				g.apart("client beside its services", t, k, false)
			}
		}
	}
	r.Floor("ways to construct a client", good, 1)
	r.Floor("services", len(workers), 3)

	// operations beside each other
	recv := w.method(r, "redis", "Conn", "Recv")
	if recv == nil {
		return
	}
	top := w.E.With()
	for _, f := range w.Methods(cacheT) {
		if f.Blocks != nil {
			top.Override[f] = anyResult(f.Name())
		}
	}
	known := w.E.With()
	known.Override[recv] = fallible("conn.Recv", nil)
	top.Override[recv] = known.Override[recv]
	globals := &common{roots: map[*ai.Term]bool{}}
	var onGlobals []*thread
	shared := map[*types.Named]bool{}
	for _, t := range []*types.Named{w.Type("redis", "Redis"), w.Type("redis", "Pool"), x.clientT()} {
		if t != nil {
			shared[t] = true
		}
	}
	byType := map[*types.Named][]*thread{}
	ops := 0
	for _, pkg := range []string{"", "redis", "redis/rdb", "redis/lzf", "redis/ziplist", "redis/intset", "redis/zipmap", "cache"} {
		for _, f := range w.exported(pkg) {
			if service(f) || pkg == "" && f.Name() == "New" || pkg == "redis" && f.Name() == "Load" {
				continue
			}
			e := known
			switch {
			case f == recv:
				e = w.E
			case pkg == "":
				e = top
			}
			args := w.symArgs(f)
			var T *types.Named
			if f.Signature.Recv() != nil {
				T, _ = types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named)
			}
			own := T != nil && shared[T] && !w.setUp(T)[f]
			var c *common
			if own {
				args[0] = ai.Sym("!shared", args[0].T)
				c = memoryOf(nil, args[0])
			}
			save := w.E
			w.E = e
			outs := w.run(r, f, args, nil)
			w.E = save
			ops++
			gl := &thread{name: w.place(f)}
			ow := &thread{name: w.place(f)}
			for _, o := range outs {
				r.Paths++
				if k := globals.follow(o.St, o.St.Events(), 0); len(k.acts) > 0 {
					for i := range k.acts {
						k.acts[i].locks = ofThePackage(k.acts[i].locks)
					}
					gl.paths = append(gl.paths, k)
				}
				if own {
					if k := c.follow(o.St, o.St.Events(), 0); len(k.acts) > 0 {
						ow.paths = append(ow.paths, k)
					}
				}
				if len(gos(o.St.Events())) > 0 {
					g.family("goroutines of an operation", e, w.place(f), o, func(ev *ai.Event) *ai.State { return ev.From })
				}
			}
			onGlobals = append(onGlobals, gl)
			if own {
				byType[T] = append(byType[T], ow)
			}
		}
	}
	r.Floor("operations", ops, 100)
	g.pairs("package variables", onGlobals)
	var Ts []*types.Named
	for T := range byType {
		Ts = append(Ts, T)
	}
	sort.Slice(Ts, func(i, j int) bool { return Ts[i].String() < Ts[j].String() })
	for _, T := range Ts {
		g.pairs("operations on one "+shortType(T), byType[T])
	}
	r.Floor("meeting accesses", g.n, 1)
}

// pairs compares every operation with every other and itself; only accesses
// that differ in place, kind or locks count.
func (g *racing) pairs(rule string, ts []*thread) {
	type key struct {
		at    *ai.Term
		write bool
		locks string
	}
	written := map[*ai.Term]bool{}
	seen := map[key]bool{}
	var few []*thread
	for _, t := range ts {
		for _, p := range t.paths {
			for _, a := range p.acts {
				if a.write {
					written[ai.Root(a.at)] = true
				}
			}
		}
	}
	for _, t := range ts {
		for _, p := range t.paths {
			k := &course{evs: p.evs, sts: p.sts}
			for _, a := range p.acts {
				q := key{a.at, a.write, a.locks}
				if written[ai.Root(a.at)] && !seen[q] {
					seen[q] = true
					k.acts = append(k.acts, a)
				}
			}
			if len(k.acts) > 0 {
				few = append(few, &thread{t.name, []*course{k}})
			}
		}
	}
	for i, a := range few {
		for j := i; j < len(few); j++ {
			g.apart(rule, a, few[j], false)
		}
	}
}
