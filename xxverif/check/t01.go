package check

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["T01"] = checkT01 }

// counted is the number of steps an operation may count through on its own:
// the longest string there can be.
const counted = 1 << 29

// exported lists the exported functions and methods of a package.
func (w *World) exported(pkg string) (out []*ssa.Function) {
	p := w.Pkgs[pkg]
	for _, f := range w.allFns() {
		if p != nil && f.Pkg == p && f.Parent() == nil && f.Blocks != nil && f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return
}

// service: the function serves for as long as the process runs.
func service(f *ssa.Function) bool {
	return f.Name() == "Ack" && f.Signature.Recv() != nil && f.Signature.Results().Len() == 0
}

func checkT01(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of every exported function and method of the cache, the client, the pool, the connections, the messages and the decoders, from unknown arguments and memory: none ends the process, deadlocks on its own lock or runs into an endless loop; every loop makes progress: an iteration visits the next element of data in memory, moves a counter towards a bound that is a length of data in memory or at most 2^29, consumes input, or takes an element out of a channel without waiting; a function that calls itself has consumed input before."
	r.Assume = append(r.Assume, "waiting for the network, a free connection or a lock ends", "the C functions return (Z01)", "the snapshot loader is that of R04")
	recv := w.method(r, "redis", "Conn", "Recv")
	if recv == nil {
		return
	}
	n := 0
	t := &ending{w: w, r: r, seen: map[string]bool{}}
	plain := w.E.With()
	known := w.E.With()
	known.Override[recv] = fallible("conn.Recv", nil)
	var cacheOps map[*ssa.Function]bool
	if T := w.Type("cache", "Cache"); T != nil {
		cacheOps = map[*ssa.Function]bool{}
		for _, f := range w.Methods(T) {
			cacheOps[f] = true
		}
	}
	// what the client's own commands stand on is looked at by itself
	top := w.E.With()
	top.Override[recv] = known.Override[recv]
	for f := range cacheOps {
		top.Override[f] = anyResult(f.Name())
	}
	for _, pkg := range []string{"", "redis", "redis/rdb", "redis/lzf", "redis/ziplist", "redis/intset", "redis/zipmap", "cache"} {
		for _, f := range w.exported(pkg) {
			if service(f) || pkg == "" && f.Name() == "New" || pkg == "redis" && f.Name() == "Load" {
				continue
			}
			n++
			e := known
			switch {
			case f == recv:
				e = plain
			case pkg == "":
				e = top
			}
			save := w.E
			w.E = e
			t.look(f, f == recv, w.run(r, f, w.symArgs(f), nil))
			w.E = save
		}
	}
	if x := w.construct(r); x != nil {
		n++
		t.look(x.f, false, x.start())
	}
	r.Floor("operations", n, 100)
	r.Floor("loops", t.loops, 15)
	r.Floor("nested replies", t.nested, 1)
}

// anyResult is a call that returns whatever its type allows.
func anyResult(name string) ai.ModelFn {
	return func(cc *ai.CallCtx) []*ai.Outcome {
		res := cc.Sig.Results()
		var rs []*ai.Term
		for i := 0; i < res.Len(); i++ {
			if i == res.Len()-1 && types.TypeString(res.At(i).Type(), nil) == "error" {
				return cc.E.ForkErr(cc, name, func(st *ai.State) []*ai.Term {
					var rs []*ai.Term
					for i := 0; i < res.Len()-1; i++ {
						rs = append(rs, st.Fresh(name, res.At(i).Type()))
					}
					return append(rs, ai.Nil())
				})
			}
			rs = append(rs, cc.St.Fresh(name, res.At(i).Type()))
		}
		return ai.Return(cc.St, rs...)
	}
}

type ending struct {
	w             *World
	r             *Rep
	loops, nested int
	seen          map[string]bool
}

func (t *ending) look(f *ssa.Function, parser bool, outs []*ai.Outcome) {
	w, r := t.w, t.r
	name := w.place(f)
	done := map[*ai.LoopInfo]bool{}
	for _, o := range outs {
		r.Paths++
		if o.Kind == ai.Exit {
			what := "ends the process"
			if o.Val == ai.Diverges {
				what = "never leaves a loop"
			}
			r.Fail("returns", name, "%s at %s (path: %s)", what, w.Pos(o.Pos), facts(o.St))
		}
		read := false
		for _, ev := range flat(o.St.Events()) {
			switch ev.Kind {
			case "read":
				read = read || ev.OK
			case "exit":
				r.Fail("returns", name, "calls %s at %s (path: %s)", ev.Name, w.Pos(ev.Pos), facts(o.St))
			case "deadlock", "block":
				r.Fail("returns", name, "%s at %s (path: %s)", ev.Kind, w.Pos(ev.Pos), facts(o.St))
			case "recurse":
				t.nested++
				r.Check(parser && read, "progress", name, "%s calls itself at %s without having consumed input (path: %s)", ev.Name, w.Pos(ev.Pos), facts(o.St))
			}
		}
		if parser && o.Kind == ai.Ret {
			if _, err := splitErr(f.Signature, o); err != nil && err.IsNil() {
				r.Check(read, "progress", name, "succeeds without consuming input (path: %s)", facts(o.St))
			}
		}
		for _, l := range loopsOf(o.St.Events()) {
			if done[l] {
				continue
			}
			done[l] = true
			t.loops++
			stuck := spinsBeyond(l, counted, consumes)
			r.Check(stuck == nil, "progress", w.place(l.Fn), "the loop at %s can go on for ever (path of such an iteration: %s)", w.Pos(l.Pos), factsOf(stuck))
		}
	}
}

// consumes: the iteration read input or a reply, or took something out of a channel
// without waiting for it and without putting anything back.
func consumes(b *ai.Iter) bool {
	var took, put *ai.Term
	ok := false
	for _, ev := range b.Events {
		switch {
		case ev.Kind == "ok" && (ev.Name == "conn.Recv" || strings.HasPrefix(ev.Name, "rec:")):
			ok = true
		case ev.Kind == "read" && ev.OK && b.St.EntailsLe0(ai.AddK(ai.Scale(ev.Args[1], -1), 1)):
			ok = true
		case ev.Kind == "unread":
			return false
		case ev.Kind == "select" && ev.Name != "default" && len(ev.Args) > 1 && ev.Args[0] == ai.Bool(false):
			took = ev.Args[1]
		case ev.Kind == "send":
			put = ev.Args[0]
		}
	}
	return ok || took != nil && put == nil
}
