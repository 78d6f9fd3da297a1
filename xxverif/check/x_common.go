package check

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

// construct is the client's constructor analysed over a network and a loader
// that may fail at every call, together with the goroutines it starts.
type construct struct {
	w    *World
	r    *Rep
	e    *ai.Engine
	f    *ssa.Function
	opt  *ai.Term
	T    *types.Named // redis.Replication
	outs []*ai.Outcome
}

// fallible is a call that fails, or returns unknown results.
func fallible(name string, then func(cc *ai.CallCtx, st *ai.State)) ai.ModelFn {
	return func(cc *ai.CallCtx) []*ai.Outcome {
		res := cc.Sig.Results()
		return cc.E.ForkErr(cc, name, func(st *ai.State) []*ai.Term {
			if then != nil {
				then(cc, st)
			}
			var rs []*ai.Term
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				if i == res.Len()-1 {
					rs = append(rs, ai.Nil())
					continue
				}
				v := st.Fresh(name, t)
				if _, ok := t.Underlying().(*types.Pointer); ok {
					v = st.Fresh("!"+name, t)
				}
				if types.IsInterface(t) {
					st.Assume(ai.Eq(v, ai.Nil()), false)
				}
				rs = append(rs, v)
			}
			return rs
		})
	}
}

func (w *World) construct(r *Rep) *construct {
	x := &construct{w: w, r: r, f: w.fn(r, "", "New"), T: w.Type("redis", "Replication")}
	connT := w.Type("redis", "Conn")
	if x.f == nil {
		return nil
	}
	if x.T == nil || connT == nil || len(x.f.Params) != 1 {
		r.Fail("roles", "xxcache.New", "the constructor takes no single option, or the types redis.Replication and redis.Conn are gone")
		return nil
	}
	load := w.method(r, "redis", "Replication", "Load")
	if load == nil {
		return nil
	}
	x.e = w.E.With()
	for _, n := range []string{"Send", "Recv", "SendAndWaitReply", "ReadWithWriter"} {
		f := w.method(r, "redis", "Conn", n)
		if f == nil {
			return nil
		}
		x.e.Override[f] = fallible("conn."+n, nil)
	}
	if f := w.fn(r, "redis", "Connect"); f != nil {
		x.e.Override[f] = func(cc *ai.CallCtx) []*ai.Outcome {
			addr := cc.St.Norm(cc.Args[0])
			return fallible("connect", func(cc *ai.CallCtx, st *ai.State) {
				st.Emit(&ai.Event{Kind: "dialled", Args: []*ai.Term{addr}, Pos: cc.Pos, Fn: cc.In})
			})(cc)
		}
	}
	changed := w.storedFields(load, x.T)
	su := x.T.Underlying().(*types.Struct)
	x.e.Override[load] = func(cc *ai.CallCtx) []*ai.Outcome {
		p := cc.St.Norm(cc.Args[0])
		cc.St.Emit(&ai.Event{Kind: "load", Args: []*ai.Term{p, cc.E.Load(cc.St, p, x.T)}, Pos: cc.Pos, Fn: cc.In})
		// whether or not it succeeds
		for i := 0; i < su.NumFields(); i++ {
			if changed[i] {
				t := su.Field(i).Type()
				v := ai.Sym("loaded:"+su.Field(i).Name(), t)
				cc.E.Store(cc.St, ai.FieldAddr(p, i), v, t)
				if cc.E.AllMem {
					cc.St.Emit(&ai.Event{Kind: "mem.store", Args: []*ai.Term{ai.FieldAddr(p, i), v}, Pos: cc.Pos, Fn: cc.In})
				}
			}
		}
		return fallible("snapshot", nil)(cc)
	}
	closable := w.closedChannels()
	x.e.Closes = func(ch *ai.Term) bool {
		el := chanElem(ch.T)
		if el == nil {
			return true
		}
		for _, t := range closable {
			if types.Identical(t, el) {
				return true
			}
		}
		return false
	}
	x.opt = ai.Sym("option", x.f.Params[0].Type())
	return x
}

// closedChannels lists the element types of the channels the program closes.
func (w *World) closedChannels() (out []types.Type) {
	for _, f := range w.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if el := chanElem(c.Common().Args[0].Type()); el != nil {
							out = append(out, el)
						}
					}
				}
			}
		}
	}
	return out
}

// start interprets the constructor.
func (x *construct) start() []*ai.Outcome {
	if x.outs == nil {
		x.outs = x.run(x.f, nil, x.opt)
	}
	return x.outs
}

func (x *construct) run(f *ssa.Function, st *ai.State, args ...*ai.Term) []*ai.Outcome {
	save := x.w.E
	x.w.E = x.e
	defer func() { x.w.E = save }()
	return x.w.run(x.r, f, args, st)
}

// success: the constructor reports no error.
func (x *construct) success(o *ai.Outcome) (client *ai.Term, ok bool) {
	if o.Kind != ai.Ret {
		return nil, false
	}
	rets, err := splitErr(x.f.Signature, o)
	if err == nil || !err.IsNil() || len(rets) != 1 {
		return nil, false
	}
	return rets[0], true
}

// field reads a field of a struct in memory.
func (x *construct) field(st *ai.State, T *types.Named, at *ai.Term, i int) *ai.Term {
	t := T.Underlying().(*types.Struct).Field(i).Type()
	return st.Norm(x.e.Load(st, ai.FieldAddr(at, i), t))
}

// option finds the one integer option called database.
func (x *construct) database(r *Rep) *ai.Term {
	su, ok := x.opt.T.Underlying().(*types.Struct)
	var got *ai.Term
	if ok {
		for i := 0; i < su.NumFields(); i++ {
			if strings.EqualFold(su.Field(i).Name(), "database") && ai.IsIntType(su.Field(i).Type()) {
				got = ai.FieldOf(x.opt, i, su.Field(i).Type())
			}
		}
	}
	if got == nil {
		r.Fail("roles", "xxcache.Option", "there is no integer option named database")
	}
	return got
}

// gos lists the goroutines started on a path, in order.
func gos(evs []*ai.Event) (out []*ai.Event) {
	for _, ev := range flat(evs) {
		if ev.Kind == "go" {
			out = append(out, ev)
		}
	}
	return out
}

// storedFields lists the fields of T written by f or what it calls in its own
// package.
func (w *World) storedFields(f *ssa.Function, T *types.Named) map[int]bool {
	got, seen := map[int]bool{}, map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !w.E.Internal(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(a.X.Type()), T) {
						got[a.Field] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	visit(f)
	return got
}

// reaches: f, or what it calls, contains an instruction.
func (w *World) reaches(f *ssa.Function, found func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !w.E.Internal(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if found(in) {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok && visit(c.Common().StaticCallee()) {
					return true
				}
			}
		}
		for _, g := range f.AnonFuncs {
			if visit(g) {
				return true
			}
		}
		return false
	}
	return visit(f)
}

// a segment is a piece of path within which nothing repeats: an iteration of
// a loop, or what lies outside all loops.
type segment struct {
	st   *ai.State
	evs  []*ai.Event
	loop *ai.LoopInfo
	back int
}

func segments(outs []*ai.Outcome) (out []segment) {
	seen := map[*ai.LoopInfo]bool{}
	var visit func(evs []*ai.Event)
	visit = func(evs []*ai.Event) {
		for _, ev := range evs {
			if ev.Loop == nil || seen[ev.Loop] {
				continue
			}
			seen[ev.Loop] = true
			for j, b := range ev.Loop.Backs {
				out = append(out, segment{b.St, b.Events, ev.Loop, j})
				visit(b.Events)
			}
		}
	}
	for _, o := range outs {
		out = append(out, segment{o.St, o.St.Events(), nil, -1})
		visit(o.St.Events())
	}
	return out
}

func sortedKeys(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
