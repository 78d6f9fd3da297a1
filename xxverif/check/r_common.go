package check

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

var (
	u64T    = types.Typ[types.Uint64]
	f64T    = types.Typ[types.Float64]
	strsT   = types.NewSlice(types.Typ[types.String])
	int64sT = types.NewSlice(types.Typ[types.Int64])
)

// rdbWorld analyses the snapshot loader on top of the contracts of its
// decoders, which the D properties establish.
type rdbWorld struct {
	w    *World
	r    *Rep
	e    *ai.Engine
	load *ssa.Function
	repl *ai.Term
	T    *types.Named
}

// decoded names what a decoder finds at an offset of a stream.
func decoded(what string, t types.Type, in, off *ai.Term) *ai.Term {
	return ai.Call("rdb"+what, t, in, off)
}

func decodedEnd(what string, in, off *ai.Term) *ai.Term {
	return ai.Call("rdb"+what+"End", tInt, in, off)
}

// streamModel is a decoder that reads one item off a stream, or fails.
func streamModel(what string, vals func(in, off *ai.Term) []*ai.Term, panics bool) ai.ModelFn {
	return func(cc *ai.CallCtx) []*ai.Outcome {
		rd := cc.St.Norm(cc.Args[0])
		for rd.Op == ai.OIface {
			rd = rd.Args[0]
		}
		in, off := cc.E.Stream(rd), cc.E.Offset(cc.St, rd)
		var pan *ai.Outcome
		if panics {
			pan = &ai.Outcome{St: cc.St.Clone(), Kind: ai.Pan, Val: ai.Str("malformed " + what), Pos: cc.Pos}
		}
		outs := cc.E.ForkErr(cc, "load"+what, func(st *ai.State) []*ai.Term {
			end := decodedEnd(what, in, off)
			st.Assume(ai.Lt(off, end), true)
			st.Off[rd] = end
			st.Emit(&ai.Event{Kind: "read", Name: "load" + what, Args: []*ai.Term{rd, ai.Sub(end, off)}, Pos: cc.Pos, Fn: cc.In, OK: true})
			return append(vals(in, off), ai.Nil())
		})
		if pan != nil {
			outs = append(outs, pan)
		}
		return outs
	}
}

// valueModel is a decoder of an in-memory value.
func valueModel(what string, elem types.Type, panics bool) ai.ModelFn {
	return func(cc *ai.CallCtx) []*ai.Outcome {
		s := cc.St.Norm(cc.Args[0])
		var pan *ai.Outcome
		if panics {
			f := cc.St.Clone()
			pan = &ai.Outcome{St: f, Kind: ai.Pan, Val: ai.Str("malformed " + what), Pos: cc.Pos}
		}
		T := cc.Sig.Results().At(0).Type()
		outs := cc.E.ForkErr(cc, what, func(st *ai.State) []*ai.Term {
			var v *ai.Term
			if _, ok := T.Underlying().(*types.Slice); ok {
				v = cc.E.NewSlice(st, cc.Site, ai.Call(what, T, s))
			} else {
				v = ai.Call(what, T, s)
			}
			rs := []*ai.Term{v}
			for i := 1; i < cc.Sig.Results().Len(); i++ {
				rs = append(rs, ai.Nil())
			}
			return rs
		})
		if pan != nil {
			outs = append(outs, pan)
		}
		return outs
	}
}

// contracts replaces the decoders by what the D properties show of them.
func (w *World) contracts(r *Rep, e *ai.Engine, panics bool) bool {
	ok := true
	set := func(pkg, name string, m ai.ModelFn) {
		f := w.Fn(pkg, name)
		if f == nil || f.Blocks == nil {
			r.Fail("roles", pkg+"."+name, "the decoder is gone")
			ok = false
			return
		}
		e.Override[f] = m
	}
	set("redis/rdb", "LoadLen", streamModel("Len", func(in, off *ai.Term) []*ai.Term {
		return []*ai.Term{decoded("Len", u64T, in, off), decoded("Encoded", tBool, in, off)}
	}, panics))
	set("redis/rdb", "LoadString", streamModel("Str", func(in, off *ai.Term) []*ai.Term {
		return []*ai.Term{decoded("Str", stringType, in, off)}
	}, panics))
	set("redis/rdb", "LoadDouble", streamModel("Dbl", func(in, off *ai.Term) []*ai.Term {
		return []*ai.Term{decoded("Dbl", f64T, in, off)}
	}, panics))
	set("redis/rdb", "LoadBinaryDouble", streamModel("Bin", func(in, off *ai.Term) []*ai.Term {
		return []*ai.Term{decoded("Bin", f64T, in, off)}
	}, panics))
	set("redis/ziplist", "Load", valueModel("ziplist", stringType, panics))
	set("redis/intset", "Load", valueModel("intset", nil, panics))
	set("redis/zipmap", "Load", valueModel("zipmap", nil, panics))
	return ok
}

func (w *World) rdbWorld(r *Rep, panics bool) *rdbWorld {
	x := &rdbWorld{w: w, r: r, T: w.Type("redis", "Replication")}
	x.load = w.method(r, "redis", "Replication", "Load")
	if x.load == nil {
		return nil
	}
	x.e = w.E.With()
	if !w.contracts(r, x.e, panics) {
		return nil
	}
	x.repl = ai.Sym("!repl", types.NewPointer(x.T))
	return x
}

func (x *rdbWorld) run(f *ssa.Function, args ...*ai.Term) []*ai.Outcome {
	save := x.w.E
	x.w.E = x.e
	defer func() { x.w.E = save }()
	return x.w.run(x.r, f, args, nil)
}
