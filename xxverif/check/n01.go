package check

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() {
	registry["N01"] = checkN01
	registry["N02"] = checkN02
}

// poolWorld names the parts of the connection pool by what they are.
type poolWorld struct {
	w              *World
	r              *Rep
	e              *ai.Engine
	T, C           *types.Named
	pool           *ai.Term
	chanF, capF    int
	sizeF          int
	netF           int
	chanS, capS    *ai.Term // their values on entry
	get, put, init *ssa.Function
}

func fieldAddrOf(base *ai.Term, T *types.Named, i int) *ai.Term {
	return ai.FieldAddr(base, i)
}

func (w *World) poolWorld(r *Rep) *poolWorld {
	p := &poolWorld{w: w, r: r, T: w.Type("redis", "Pool"), C: w.Type("redis", "Conn"), chanF: -1, capF: -1, sizeF: -1, netF: -1}
	if p.T == nil || p.C == nil {
		r.Fail("roles", "redis.Pool", "the pool or connection type is gone")
		return nil
	}
	st, ok := p.T.Underlying().(*types.Struct)
	cs, ok2 := p.C.Underlying().(*types.Struct)
	if !ok || !ok2 {
		r.Fail("roles", "redis.Pool", "the pool or connection is no struct")
		return nil
	}
	for i := 0; i < cs.NumFields(); i++ {
		if types.TypeString(cs.Field(i).Type(), nil) == "net.Conn" {
			p.netF = i
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if c, ok := st.Field(i).Type().Underlying().(*types.Chan); ok && types.Identical(c.Elem(), types.NewPointer(p.C)) {
			p.chanF = i
		}
	}
	p.get, p.put, p.init = w.method(r, "redis", "Pool", "Get"), w.method(r, "redis", "Pool", "Put"), w.method(r, "redis", "Pool", "Init")
	if p.netF < 0 || p.chanF < 0 || p.get == nil || p.put == nil || p.init == nil {
		r.Fail("roles", "redis.Pool", "the pool has no channel of connections, or a connection no net.Conn")
		return nil
	}
	p.pool = ai.Sym("!pool", types.NewPointer(p.T))
	// Init makes the channel with the capacity the pool remembers
	var args []*ai.Term
	args = append(args, p.pool)
	for _, q := range p.init.Params[1:] {
		args = append(args, ai.Sym(q.Name(), q.Type()))
	}
	made := 0
	for _, o := range w.run(r, p.init, args, nil) {
		name := w.place(p.init)
		w.noPanic(r, "capacity", name, "", o)
		if o.Kind != ai.Ret {
			continue
		}
		var n *ai.Term
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "makechan" && len(ev.Args) > 1 {
				n = o.St.Norm(ev.Args[1])
			}
		}
		if !r.Check(n != nil, "capacity", name, "does not make the channel of connections (path: %s)", facts(o.St)) {
			continue
		}
		made++
		r.Check(o.St.EntailsLe0(ai.AddK(ai.Scale(n, -1), 1)), "capacity", name, "the channel's capacity %s may not be positive (path: %s)", n, facts(o.St))
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if ai.IsIntType(st.Field(i).Type()) {
				v := o.St.Norm(w.E.Load(o.St, fieldAddrOf(p.pool, p.T, i), st.Field(i).Type()))
				if v == n {
					found = true
					if p.capF >= 0 && p.capF != i {
						r.Note("two fields hold the capacity")
					} else {
						p.capF = i
					}
				}
			}
		}
		r.Check(found, "capacity", name, "the pool's capacity and the channel's capacity %s differ (path: %s)", n, facts(o.St))
	}
	r.Floor("ways to initialise a pool", made, 1)
	if p.capF < 0 {
		r.Fail("roles", "redis.Pool", "the pool does not remember its capacity")
		return nil
	}
	// the size is the integer field other methods store, and compare to the
	// capacity
	e := w.E.With()
	p.e = e
	p.capS = p.e.Load(w.Init(), fieldAddrOf(p.pool, p.T, p.capF), st.Field(p.capF).Type())
	compared := map[int]bool{}
	for _, o := range w.run(r, p.get, p.params(p.get), nil) {
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind != "mem.store" {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if ev.Args[0] == fieldAddrOf(p.pool, p.T, i) {
					switch {
					case i == p.capF || i == p.chanF:
						r.Fail("capacity", w.place(p.get), "stores the pool's capacity or channel at %s", w.Pos(ev.Pos))
					case ai.IsIntType(st.Field(i).Type()):
						if p.sizeF < 0 || !compared[p.sizeF] {
							p.sizeF = i
						}
						old := p.e.Load(w.Init(), fieldAddrOf(p.pool, p.T, i), st.Field(i).Type())
						for _, l := range o.St.Lits() {
							if ai.Contains(l.T, old) && ai.Contains(l.T, p.capS) {
								compared[i] = true
								p.sizeF = i
							}
						}
					}
				}
			}
		}
	}
	if p.sizeF < 0 {
		r.Fail("roles", "redis.Pool", "no field counts the connections")
		return nil
	}
	p.chanS = p.e.Load(w.Init(), fieldAddrOf(p.pool, p.T, p.chanF), st.Field(p.chanF).Type())
	// what other goroutines may do while the lock is free: change the size
	models := map[string]ai.ModelFn{}
	for k, m := range e.Models {
		models[k] = m
	}
	for _, k := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"} {
		m := models[k]
		models[k] = func(c *ai.CallCtx) []*ai.Outcome {
			outs := m(c)
			for _, o := range outs {
				T := st.Field(p.sizeF).Type()
				c.E.Store(o.St, fieldAddrOf(p.pool, p.T, p.sizeF), o.St.Fresh("size@"+c.Site, T), T)
			}
			return outs
		}
	}
	e.Models = models
	return p
}

func (p *poolWorld) params(f *ssa.Function) []*ai.Term {
	args := []*ai.Term{p.pool}
	for _, q := range f.Params[1:] {
		n := q.Name()
		switch q.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			n = "!" + n
		}
		args = append(args, ai.Sym(n, q.Type()))
	}
	return args
}

func (p *poolWorld) runs(f *ssa.Function, args []*ai.Term) []*ai.Outcome {
	save := p.w.E
	p.w.E = p.e
	defer func() { p.w.E = save }()
	return p.w.run(p.r, f, args, nil)
}

// inner is the network connection behind a *Conn, nil for the nil pointer.
func (p *poolWorld) inner(st *ai.State, c *ai.Term) *ai.Term {
	c = st.Norm(c)
	if c.IsNil() {
		return nil
	}
	return st.Norm(p.e.Load(st, fieldAddrOf(c, p.C, p.netF), p.C.Underlying().(*types.Struct).Field(p.netF).Type()))
}

func (p *poolWorld) entryInner(c *ai.Term) *ai.Term {
	return p.e.Load(p.w.Init(), fieldAddrOf(c, p.C, p.netF), p.C.Underlying().(*types.Struct).Field(p.netF).Type())
}

// ledger follows the connections and slots along one list of events.
type ledger struct {
	p        *poolWorld
	name     string
	st       *ai.State
	in, out  int // slots taken from the pool (or the caller), given to it
	delta    int64
	fresh    []*ai.Term // connections opened here
	got      []*ai.Term // connections received
	closed   map[*ai.Term]bool
	given    map[*ai.Term]int
	pointers map[*ai.Term]*ai.Term // given connection -> the pointer it was given as
	size     *ai.Term              // as last seen in this critical section
	held     int
	lent     map[*ai.Term]bool
}

func (g *ledger) closedGot() int64 {
	n := int64(0)
	for _, c := range g.got {
		if g.closed[c] {
			n++
		}
	}
	return n
}

func (g *ledger) openFresh() int64 {
	n := int64(0)
	for _, c := range g.fresh {
		if !g.closed[c] {
			n++
		}
	}
	return n
}

func (g *ledger) budget(extra int64, what string, pos string) {
	g.p.r.Check(g.openFresh() <= g.delta+g.closedGot()+extra, "never more than the capacity", g.name, "%s at %s opens a connection without having reserved a slot or closed another (path: %s)", what, pos, facts(g.st))
}

func (g *ledger) follow(evs []*ai.Event) {
	p, r, st := g.p, g.p.r, g.st
	sizeA := fieldAddrOf(p.pool, p.T, p.sizeF)
	for _, ev := range evs {
		pos := p.w.Pos(ev.Pos)
		switch ev.Kind {
		case "loop":
			if ev.Loop == nil {
				continue
			}
			for _, it := range ev.Loop.Backs {
				h := p.newLedger(g.name, it.St)
				h.held, h.size = g.held, nil
				h.follow(it.Events)
				h.settle(nil, false, g.held)
				r.Check(h.held == g.held, "lock", g.name, "a loop at %s changes what is locked", p.w.Pos(ev.Loop.Pos))
			}
		case "lock":
			g.held++
			g.size = nil
		case "rlock":
			g.held++
			g.size = nil
		case "unlock":
			g.held--
			g.size = nil
			g.budget(0, "releasing the lock", pos)
		case "badunlock", "deadlock", "lock.imbalance":
			r.Fail("lock", g.name, "%s at %s (path: %s)", ev.Kind, pos, facts(st))
		case "mem.load":
			if ev.Args[0] == sizeA {
				r.Check(g.held > 0, "lock", g.name, "the number of connections is read at %s without the lock", pos)
				g.size = ev.Args[1]
			}
		case "mem.store":
			if ev.Args[0] == sizeA {
				if !r.Check(g.held > 0 && g.size != nil, "lock", g.name, "the number of connections is stored at %s without having been read under the same lock", pos) {
					continue
				}
				d := st.Norm(ai.Sub(ev.Args[1], g.size))
				if !r.Check(d.IsInt(), "accounting", g.name, "the number of connections changes by %s at %s", d, pos) {
					continue
				}
				if d.K > 0 {
					r.Check(st.EntailsLe0(ai.Sub(ev.Args[1], p.capS)), "never more than the capacity", g.name, "the number of connections grows at %s past the capacity (path: %s)", pos, facts(st))
				}
				g.delta += d.K
				g.size = ev.Args[1]
			}
			for _, i := range []int{p.capF, p.chanF} {
				r.Check(ev.Args[0] != fieldAddrOf(p.pool, p.T, i), "capacity", g.name, "stores the pool's capacity or channel at %s", pos)
			}
			g.touch(ev, ev.Args[:1])
		case "dial":
			extra := int64(0)
			if g.held > 0 && g.size != nil && st.EntailsLe0(ai.AddK(ai.Sub(g.size, p.capS), 1)) {
				extra = 1
			}
			g.fresh = append(g.fresh, st.Norm(ev.Args[0]))
			g.budget(extra, "the call", pos)
		case "recv":
			if st.Norm(ev.Args[0]) != p.chanS {
				continue
			}
			r.Check(g.held == 0, "lock", g.name, "waits for a connection at %s with the lock held", pos)
			g.in++
			g.got = append(g.got, p.entryInner(ev.Args[1]))
		case "select":
			r.Check(g.held == 0 || !decided(st, ev.Args[0], true), "lock", g.name, "waits at %s with the lock held", pos)
		case "send":
			c := st.Norm(ev.Args[len(ev.Args)-1])
			if st.Norm(ev.Args[0]) != p.chanS {
				r.Fail("accounting", g.name, "a connection leaves the pool through another channel at %s", pos)
				continue
			}
			if !r.Check(!c.IsNil(), "accounting", g.name, "a nil connection enters the pool at %s (path: %s)", pos, facts(st)) {
				continue
			}
			g.give(c)
		case "close.conn":
			c := st.Norm(ev.Args[0])
			r.Check(g.given[c] == 0, "given back once", g.name, "closes a connection at %s after having given it back (path: %s)", pos, facts(st))
			g.closed[c] = true
		case "write", "read", "flush", "callfn", "invoke":
			g.touch(ev, ev.Args)
		case "go":
			r.Note("%s starts a goroutine at %s", g.name, pos)
		}
	}
}

// touch: a connection that was given back is no longer ours to use.
func (g *ledger) touch(ev *ai.Event, args []*ai.Term) {
	for c, n := range g.given {
		if n == 0 {
			continue
		}
		ptr := g.pointers[c]
		for _, a := range args {
			if a == nil {
				continue
			}
			uses := a == c || a == ptr
			for i := 0; i < g.p.C.Underlying().(*types.Struct).NumFields() && !uses; i++ {
				fa := fieldAddrOf(ptr, g.p.C, i)
				uses = a == fa || a == ai.Sym("init:"+fa.String(), g.p.C.Underlying().(*types.Struct).Field(i).Type())
				if T := g.p.C.Underlying().(*types.Struct).Field(i).Type(); !uses {
					if _, ok := T.Underlying().(*types.Pointer); ok {
						uses = a == g.st.Norm(g.p.e.Load(g.st, fa, T))
					}
				}
			}
			g.p.r.Check(!uses, "given back once", g.name, "uses a connection (%s at %s) after having given it back (path: %s)", ev.Kind, g.p.w.Pos(ev.Pos), facts(g.st))
		}
	}
}

func (g *ledger) give(ptr *ai.Term) {
	c := g.p.inner(g.st, ptr)
	g.out++
	g.given[c]++
	g.pointers[c] = g.st.Norm(ptr)
}

func (p *poolWorld) newLedger(name string, st *ai.State) *ledger {
	return &ledger{p: p, name: name, st: st, closed: map[*ai.Term]bool{}, given: map[*ai.Term]int{}, pointers: map[*ai.Term]*ai.Term{}}
}

// settle closes the books of a path.
func (g *ledger) settle(gates *gates, panics bool, held int) {
	r, st := g.p.r, g.st
	how := ""
	if panics {
		how = "when the path ends in a panic, "
	}
	r.Check(int64(g.out-g.in) == g.delta, "accounting", g.name, "%s%d connections are taken, %d given back or handed out, and their number changes by %d (path: %s)", how, g.in, g.out, g.delta, facts(st))
	g.budget(0, "the path", "its end")
	for _, c := range g.fresh {
		n := g.given[c]
		r.Check(n == 1 && !g.closed[c] || n == 0 && g.closed[c], "opened once, given or closed once", g.name, "%sa connection opened here is given back or handed out %d times and %s (path: %s)", how, n, map[bool]string{true: "closed", false: "not closed"}[g.closed[c]], facts(st))
	}
	for _, c := range g.got {
		n := g.given[c]
		ok := n == 1 && !g.closed[c] || n == 0 && g.closed[c]
		if n == 1 && g.closed[c] && gates != nil {
			ok = gates.unusable(st, g.pointers[c]) // keeps its slot, to be replaced later
		}
		r.Check(ok, "given back once", g.name, "%sa connection taken from the pool is given back or handed out %d times and %s (path: %s)", how, n, map[bool]string{true: "closed", false: "not closed"}[g.closed[c]], facts(st))
	}
	for c := range g.given {
		known := false
		for _, x := range append(append([]*ai.Term{}, g.fresh...), g.got...) {
			known = known || x == c
		}
		r.Check(known, "accounting", g.name, "%sa connection of unknown origin (%s) is given back or handed out", how, c)
	}
	if held == 0 {
		r.Check(g.held == 0 && len(st.Locks) == 0, "lock", g.name, "%sthe lock is still held at the end (path: %s)", how, facts(st))
	}
}

// gates are the conditions on a connection's own fields under which it is
// handed out by Get, and under which Put lets it enter the pool.
type gates struct {
	p        *poolWorld
	get, put [][]ai.Lit
	getC     []*ai.Term
	putC     []*ai.Term
}

// own selects the literals of a path about the connection's own fields.
func (p *poolWorld) own(st *ai.State, c *ai.Term) []ai.Lit {
	cs := p.C.Underlying().(*types.Struct)
	var out []ai.Lit
	for _, l := range st.Lits() {
		hit := false
		for i := 0; i < cs.NumFields(); i++ {
			s := p.e.Load(p.w.Init(), fieldAddrOf(c, p.C, i), cs.Field(i).Type())
			hit = hit || i != p.netF && ai.Contains(l.T, s)
		}
		if hit {
			out = append(out, l)
		}
	}
	return out
}

func (p *poolWorld) gates() *gates {
	g := &gates{p: p}
	for _, o := range p.runs(p.get, p.params(p.get)) {
		if o.Kind != ai.Ret {
			continue
		}
		rets, err := splitErr(p.get.Signature, o)
		if !err.IsNil() {
			continue
		}
		c := o.St.Norm(rets[0])
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "recv" && ev.Args[1] == c && o.St.Norm(ev.Args[0]) == p.chanS && p.inner(o.St, c) == p.entryInner(c) {
				g.get = append(g.get, p.own(o.St, c))
				g.getC = append(g.getC, c)
			}
		}
	}
	args := p.params(p.put)
	for _, o := range p.runs(p.put, args) {
		if o.Kind != ai.Ret {
			continue
		}
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "send" && o.St.Norm(ev.Args[len(ev.Args)-1]) == args[1] {
				g.put = append(g.put, p.own(o.St, args[1]))
				g.putC = append(g.putC, args[1])
			}
		}
	}
	return g
}

func (g *gates) unusable(st *ai.State, ptr *ai.Term) bool {
	return g.blocked(st, ptr, g.get, g.getC) || g.blocked(st, ptr, g.put, g.putC)
}

func (g *gates) blocked(st *ai.State, ptr *ai.Term, conds [][]ai.Lit, cs []*ai.Term) bool {
	if ptr == nil || len(conds) == 0 {
		return false
	}
	fs := g.p.C.Underlying().(*types.Struct)
	for i, lits := range conds {
		no := false
		for _, l := range lits {
			t := l.T
			for f := 0; f < fs.NumFields(); f++ {
				T := fs.Field(f).Type()
				old := g.p.e.Load(g.p.w.Init(), fieldAddrOf(cs[i], g.p.C, f), T)
				if ai.Contains(t, old) {
					t = ai.Subst(t, map[*ai.Term]*ai.Term{old: g.p.e.Load(st, fieldAddrOf(ptr, g.p.C, f), T)})
				}
			}
			no = no || decided(st, st.Norm(t), !l.Val)
		}
		if !no {
			return false
		}
	}
	return true
}

// books follows every exported pool method and counts the paths.
func (p *poolWorld) books(gs *gates) map[string]int {
	w, r := p.w, p.r
	n := map[string]int{}
	for _, f := range w.Methods(p.T) {
		if f == p.init || strings.HasPrefix(f.Name(), "AddConn") {
			continue
		}
		name := w.place(f)
		variants := [][]*ai.Term{p.params(f)}
		isConn := func(T types.Type) bool { return types.Identical(T, types.NewPointer(p.C)) }
		for i, q := range f.Params[1:] {
			if isConn(q.Type()) {
				v := p.params(f)
				v[i+1] = ai.Nil()
				variants = append(variants, v)
			}
		}
		for _, args := range variants {
			e := p.e
			for pass := 0; pass < 2; pass++ {
				p.e = e
				if pass == 1 {
					// a handler given as an argument may panic
					isArg := false
					for _, a := range args[1:] {
						if a.T == nil {
							continue
						}
						if _, ok := a.T.Underlying().(*types.Signature); ok {
							isArg = true
						}
					}
					if !isArg {
						continue
					}
					p.e = e.With()
					p.e.Models = e.Models
					p.e.DynPanic = func(fn *ai.Term) bool {
						for _, a := range args[1:] {
							if a == fn {
								return true
							}
						}
						return false
					}
				}
				for _, o := range p.runs(f, args) {
					if o.Kind == ai.Pan && !(o.Val != nil && strings.Contains(o.Val.String(), "dynpanic")) {
						continue // nil connections in the pool: excluded by the sends
					}
					if o.Kind == ai.Exit {
						r.Fail("returns", name, "does not return: %v", o.Val)
						continue
					}
					g := p.newLedger(name, o.St)
					for i, a := range args[1:] {
						if isConn(f.Params[i+1].Type()) && !a.IsNil() {
							g.in++
							g.got = append(g.got, p.entryInner(a))
						}
					}
					g.follow(o.St.Events())
					if o.Kind == ai.Ret {
						rets, err := splitErr(f.Signature, o)
						p.handled(name, args[1:], o, err)
						for _, x := range rets {
							if x.T == nil && !x.IsNil() || x.T != nil && !isConn(x.T) && !x.IsNil() {
								continue
							}
							if err != nil && !err.IsNil() {
								r.Check(x.IsNil(), "accounting", name, "hands out a connection together with an error (path: %s)", facts(o.St))
								continue
							}
							if !x.IsNil() {
								if c := p.inner(o.St, x); r.Check(!g.closed[c], "given back once", name, "hands out a closed connection (path: %s)", facts(o.St)) {
									g.give(x)
								}
							} else if isConn(f.Signature.Results().At(0).Type()) {
								r.Fail("accounting", name, "reports success without a connection (path: %s)", facts(o.St))
							}
						}
					}
					g.settle(gs, o.Kind == ai.Pan, 0)
					n[f.Name()]++
					if o.Kind == ai.Pan {
						n["panic"]++
					}
				}
				p.e = e
			}
		}
	}
	return n
}

func checkN01(w *World, r *Rep) {
	w.net(r)
	r.Assume = append(r.Assume,
		"callers put back only connections they got, once, and do not use them afterwards",
		"connection handlers do not panic and do not use the pool; the handler given to Exec may panic")
	r.Explain = "Books are kept along every path of every exported pool method, with the number of connections unknown again whenever the lock is free: connections taken out, opened, closed, given back and handed out. Every connection opened is handed out or given back exactly once, or closed; every one taken is given back or handed out exactly once, or closed; the slots given minus the slots taken equal the change of the count, which only changes under the lock by less than the capacity still free, in the critical section that read it; a connection is opened only against a reserved slot or after closing another. The channel's capacity is the pool's. The lock is free at every end, and nothing waits with it held. Nothing but a connection enters the pool."
	p := w.poolWorld(r)
	if p == nil {
		return
	}
	gs := p.gates()
	n := p.books(gs)
	for _, m := range []string{"Get", "Put", "ExecCommand", "Exec", "panic"} {
		r.Floor("paths of "+m, n[m], 1)
	}
	// nobody else touches the pool's books
	touched := 0
	method := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), p.T)
	}
	var own func(f *ssa.Function) bool
	seen := map[*ssa.Function]bool{}
	own = func(f *ssa.Function) bool {
		if method(f) || seen[f] {
			return true
		}
		// a part of the methods, given a function of its own
		seen[f] = true
		cs, all := w.callersOf(f)
		if !all || len(cs) == 0 || f.Object() == nil || f.Object().Exported() {
			return false
		}
		for _, c := range cs {
			for c.Parent() != nil {
				c = c.Parent()
			}
			if !own(c) {
				return false
			}
		}
		return true
	}
	for f, acc := range w.fieldUsers(p.T, p.sizeF, p.chanF, p.capF) {
		touched++
		ok := false
		for g := f; g != nil; g = g.Parent() {
			ok = ok || own(g)
		}
		r.Check(ok, "accounting", w.fnName(f), "uses the pool's books outside its methods (%s)", acc)
	}
	r.Floor("functions that keep the books", touched, 2)
	// a client's pool is initialised
	if f := w.fn(r, "redis", "NewClient"); f != nil {
		var args []*ai.Term
		for _, q := range f.Params {
			args = append(args, ai.Sym(q.Name(), q.Type()))
		}
		for _, o := range w.run(r, f, args, nil) {
			made := false
			for _, ev := range flat(o.St.Events()) {
				made = made || ev.Kind == "makechan"
			}
			r.Check(o.Kind == ai.Ret && made, "capacity", w.place(f), "a client's pool is not initialised (path: %s)", facts(o.St))
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldUsers finds the functions of the module that address given fields of T.
func (w *World) fieldUsers(T *types.Named, fields ...int) map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	for _, f := range w.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					for _, i := range fields {
						if in.Field == i && types.Identical(deref(in.X.Type()), T) {
							out[f] = w.Pos(in.Pos())
						}
					}
				case *ssa.Field:
					for _, i := range fields {
						if in.Field == i && types.Identical(in.X.Type(), T) {
							out[f] = w.Pos(in.Pos())
						}
					}
				}
			}
		}
	}
	return out
}

// ioFailures are the failed reads and writes.
func ioFailures(evs []*ai.Event) []*ai.Event {
	var out []*ai.Event
	for _, ev := range exchangeFailures(evs) {
		if !strings.HasPrefix(ev.Name, "parsef") && !strings.HasPrefix(ev.Name, "atoi") {
			out = append(out, ev)
		}
	}
	return out
}

// consumed: the path read exactly one whole reply.
func (w *World) consumed(st *ai.State, rd *ai.Term) bool {
	if rd == nil || len(ioFailures(st.Events())) > 0 {
		return false
	}
	h := w.header(st, rd)
	if len(h.known) != 1 || len(h.all) != 1 {
		return false
	}
	off := st.Norm(w.E.Offset(st, rd))
	switch k := h.known[0]; k {
	case '+', '-', ':':
		return equalTo(st, off, h.end)
	case '$', '*':
		if h.num == nil {
			return false
		}
		n := st.Norm(h.num)
		if equalTo(st, off, h.end) {
			return equalTo(st, n, ai.Int(-1)) || k == '*' && equalTo(st, n, ai.Int(0))
		}
		if k == '*' {
			for _, l := range loopsOf(st.Events()) {
				idx := indexVar(l)
				for _, v := range l.Vars {
					if strings.HasPrefix(v.What, "off:") && v.Sym == off && idx != nil {
						return finished(st, l, idx, n)
					}
				}
			}
			return false
		}
		after := ai.Add(h.end, n)
		return st.EntailsLe0(ai.Scale(n, -1)) && (equalTo(st, off, ai.AddK(after, 2)) || (off.Is("delim") && off.Args[2] == ai.Int(10) || off.Is("rlend")) && off.Args[0] == h.in && equalTo(st, off.Args[1], after))
	}
	return false
}

func checkN02(w *World, r *Rep) {
	w.net(r)
	r.Assume = append(r.Assume, "a network operation reports its failure", "handlers given to Exec finish their exchanges or report the failure of the connection's own methods")
	r.Explain = "The conditions under which Get hands out a pooled connection and Put lets one into the pool are read off their paths. On every path of every exported method of a connection that sends or receives, an error, or a request whose reply was not read to its end, leaves the connection in a state that contradicts one of them (or closed and unusable), whatever happened before, and no later success undoes that. Get never hands out a connection it closed, and closes one it replaces. The same holds at the end of every client command. No pool method uses a connection, gives it back again or closes it after having given it back."
	p := w.poolWorld(r)
	if p == nil {
		return
	}
	gs := p.gates()
	r.Floor("ways a pooled connection is handed out", len(gs.get), 1)
	n, bad := 0, 0
	conn := ai.Sym("!c", types.NewPointer(p.C))
	for _, f := range w.Methods(p.C) {
		if len(f.Blocks) == 0 {
			continue
		}
		name := w.place(f)
		args := []*ai.Term{conn}
		byValue := false
		if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); !ok {
			byValue = true
			args[0] = ai.Sym("c", f.Params[0].Type())
		}
		for i, q := range f.Params[1:] {
			_ = i
			nm := q.Name()
			switch q.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				nm = "!" + nm
			}
			args = append(args, ai.Sym(nm, q.Type()))
		}
		for _, again := range []bool{false, true} {
			if again && byValue {
				continue
			}
			starts := []*ai.State{w.Init()}
			if again {
				starts = p.broken(gs, conn)
				r.Floor("states of a broken connection", len(starts), 1)
			}
			for _, s := range starts {
				for _, o := range w.run(r, f, args, s) {
					st := o.St
					ex, wrote := false, false
					var rd *ai.Term
					for _, ev := range flat(st.Events()) {
						switch ev.Kind {
						case "read":
							ex = true
							rd = ev.Args[0]
						case "write", "flush":
							// only the connection's own stream
							if ev.Args[0] != nil && p.ownStream(st, conn, args[0], ev.Args[0]) {
								ex, wrote = true, true
							}
						}
					}
					fl := 0
					for _, ev := range exchangeFailures(st.Events()) {
						_ = ev
						fl++
					}
					if !ex && fl == 0 {
						if again && o.Kind == ai.Ret {
							r.Check(gs.unusable(st, conn), "a failed connection stays failed", name, "makes a connection usable again after a failed exchange (path: %s)", facts(st))
						}
						continue
					}
					if o.Kind == ai.Pan {
						continue // N03, N06
					}
					n++
					if again {
						r.Check(gs.unusable(st, conn), "a failed connection stays failed", name, "makes a connection usable again after a failed exchange (path: %s)", facts(st))
						continue
					}
					_, err := splitErr(f.Signature, o)
					failed := fl > 0 || err != nil && !err.IsNil()
					open := wrote && f.Name() != "Send" && !w.consumed(st, rd)
					if f.Name() == "Send" {
						open = false
					}
					if !failed && !open {
						continue
					}
					bad++
					what := "an exchange failed"
					if !failed {
						what = "the reply was not read to its end"
					}
					r.Check(!byValue && gs.unusable(st, conn), "failed connections are not reused", name, "%s and the connection stays usable (path: %s)", what, facts(st))
				}
			}
		}
	}
	r.Floor("paths with an exchange", n, 20)
	r.Floor("paths with a failed exchange", bad, 5)
	// Get
	for _, o := range p.runs(p.get, p.params(p.get)) {
		if o.Kind != ai.Ret {
			continue
		}
		name := w.place(p.get)
		st := o.St
		rets, err := splitErr(p.get.Signature, o)
		closed := map[*ai.Term]bool{}
		for _, ev := range flat(st.Events()) {
			if ev.Kind == "close.conn" {
				closed[st.Norm(ev.Args[0])] = true
			}
		}
		if err.IsNil() && !rets[0].IsNil() {
			r.Check(!closed[p.inner(st, rets[0])], "failed connections are not reused", name, "hands out a closed connection (path: %s)", facts(st))
		}
		for _, ev := range flat(st.Events()) {
			if ev.Kind != "recv" || st.Norm(ev.Args[0]) != p.chanS {
				continue
			}
			c := p.entryInner(ev.Args[1])
			if err.IsNil() && p.inner(st, rets[0]) != c {
				r.Check(closed[c], "failed connections are closed", name, "replaces a connection without closing it (path: %s)", facts(st))
			}
		}
	}
	// a connection is not used by two callers: nothing uses it after giving it back
	sub := NewRep(r.ID, w)
	p.r = sub
	p.books(gs)
	p.r = r
	for _, v := range sub.Viols {
		if v.Rule == "given back once" {
			r.Fail(v.Rule, v.Construct, "%s", v.Detail)
		}
	}
	r.Obl += sub.Rules["given back once"]
	r.OK += sub.Rules["given back once"]
	r.Rules["given back once"] += sub.Rules["given back once"]
	// every client command, whole
	for _, x := range w.clientRuns(r) {
		st := x.o.St
		if x.o.Kind != ai.Ret || x.wr == nil {
			continue
		}
		if w.consumed(st, x.rd) {
			continue
		}
		// the connection used
		ok, found := true, false
		for _, ev := range flat(st.Events()) {
			if ev.Kind == "send" {
				c := st.Norm(ev.Args[len(ev.Args)-1])
				if c.IsNil() {
					continue
				}
				if p.usesStream(st, c, x.wr) {
					found = true
					ok = ok && gs.unusable(st, c)
				}
			}
		}
		r.Check(ok && (found || p.wrClosed(st, x.wr)), "failed connections are not reused", w.place(x.f), "puts back a connection whose exchange failed (path: %s)", facts(st))
	}
}

// ownStream: the stream is the reader or writer of the connection.
func (p *poolWorld) ownStream(st *ai.State, conn, recv, s *ai.Term) bool {
	if conn == recv {
		return p.usesStream(st, conn, s)
	}
	return strings.Contains(s.String(), recv.String()) || !strings.Contains(s.String(), "!")
}

func (p *poolWorld) usesStream(st *ai.State, c, s *ai.Term) bool {
	fs := p.C.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		T := fs.Field(i).Type()
		if st.Norm(p.e.Load(st, fieldAddrOf(c, p.C, i), T)) == s {
			return true
		}
	}
	return false
}

// wrClosed: the network connection behind the writer was closed.
func (p *poolWorld) wrClosed(st *ai.State, wr *ai.Term) bool {
	for _, ev := range flat(st.Events()) {
		if ev.Kind != "close.conn" {
			continue
		}
		for _, e2 := range flat(st.Events()) {
			if e2.Kind == "wrap" && e2.Args[0] == wr && st.Norm(e2.Args[1]) == st.Norm(ev.Args[0]) {
				return true
			}
		}
		a, b := ev.Args[0].String(), wr.String()
		if i, j := strings.LastIndex(a, "."), strings.LastIndex(b, "."); i > 0 && j > 0 && a[:i] == b[:j] {
			return true
		}
	}
	return false
}

// broken builds the states of a connection after a failed exchange: each
// violates every condition of one gate.
func (p *poolWorld) broken(g *gates, conn *ai.Term) []*ai.State {
	var out []*ai.State
	fs := p.C.Underlying().(*types.Struct)
	for k, conds := range [][][]ai.Lit{g.get, g.put} {
		cs := g.getC
		if k == 1 {
			cs = g.putC
		}
		sts := []*ai.State{p.w.Init()}
		for i, lits := range conds {
			var next []*ai.State
			for _, s := range sts {
				for _, l := range lits {
					t := l.T
					for f := 0; f < fs.NumFields(); f++ {
						T := fs.Field(f).Type()
						old := p.e.Load(p.w.Init(), fieldAddrOf(cs[i], p.C, f), T)
						if ai.Contains(t, old) {
							t = ai.Subst(t, map[*ai.Term]*ai.Term{old: p.e.Load(p.w.Init(), fieldAddrOf(conn, p.C, f), T)})
						}
					}
					q := s.Clone()
					if q.Assume(t, !l.Val) {
						next = append(next, q)
					}
				}
			}
			sts = next
			if len(sts) > 8 {
				sts = sts[:8]
			}
		}
		if len(conds) > 0 {
			out = append(out, sts...)
		}
	}
	return out
}

// callersOf lists the functions that call f; false if f is also used as a value.
func (w *World) callersOf(f *ssa.Function) ([]*ssa.Function, bool) {
	var out []*ssa.Function
	all := true
	for _, g := range w.allFns() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var skip *ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					out = append(out, g)
					skip = &c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) && op != skip {
						all = false
					}
				}
			}
		}
	}
	return out, all
}

// handled: a handler given to the pool runs once, on a connection, unless an
// error says why not, and its own error comes back.
func (p *poolWorld) handled(name string, args []*ai.Term, o *ai.Outcome, err *ai.Term) {
	for _, a := range args {
		if a.T == nil || err == nil {
			continue
		}
		if _, ok := a.T.Underlying().(*types.Signature); !ok {
			continue
		}
		n := 0
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind != "callfn" || ev.Args[0] != a {
				continue
			}
			n++
			for _, x := range ev.Args[1:] {
				p.r.Check(!decided(o.St, ai.Eq(x, ai.Nil()), true), "handlers", name, "runs the handler without a connection (path: %s)", facts(o.St))
			}
		}
		reported := decided(o.St, ai.Eq(err, ai.Nil()), false)
		p.r.Check(n <= 1, "handlers", name, "runs the handler %d times (path: %s)", n, facts(o.St))
		p.r.Check(n == 1 || reported, "handlers", name, "reports success without having run the handler (path: %s)", facts(o.St))
		for _, ev := range failures(o.St.Events()) {
			if strings.Contains(ev.Name, "dyn") && n == 1 {
				p.r.Check(reported, "handlers", name, "the handler's error is lost: returns %s (path: %s)", err, facts(o.St))
			}
		}
	}
}
