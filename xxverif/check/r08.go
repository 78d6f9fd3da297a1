package check

import (
	"go/constant"
	"go/types"
	"os"
	"slices"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["R08"] = checkR08 }

// copied resolves what was written on a path: where a loop only copies from a
// stream, its output is the stretch of the stream it went over.
//
// For a loop with output variable O, every iteration must extend O by
// in[x:y] where y is x with the loop variables advanced, x an expression over
// the variables at the head; then by induction O = O0 ++ in[x0:x].
func (w *World) copied(st *ai.State, t *ai.Term) *ai.Term {
	for i := 0; i < 4; i++ {
		var found *ai.Term
		for _, l := range loopsOf(st.Events()) {
			for _, v := range l.Vars {
				if v.Init == nil || found != nil || !ai.Contains(t, v.Sym) {
					continue
				}
				if s := copiedBy(l, v); s != nil {
					found = v.Sym
					t = st.Norm(ai.Subst(t, map[*ai.Term]*ai.Term{v.Sym: ai.Cat(v.Init, s)}))
				}
			}
		}
		if found == nil {
			break
		}
	}
	return t
}

func copiedBy(l *ai.LoopInfo, v *ai.LoopVar) *ai.Term {
	inits, in := map[*ai.Term]*ai.Term{}, (*ai.Term)(nil)
	for _, u := range l.Vars {
		if u.Init != nil {
			inits[u.Sym] = u.Init
		}
	}
	var from *ai.Term
	for i, step := range v.Steps {
		b := l.Backs[i]
		x := b.St.Norm(step)
		if x == v.Sym {
			// nothing written: the position must stand still too, checked below
			continue
		}
		if x.Op != ai.OCat || len(x.Args) != 2 || x.Args[0] != v.Sym || x.Args[1].Op != ai.OSub {
			return nil
		}
		s := x.Args[1]
		if in == nil {
			in, from = s.Args[0], s.Args[1]
		}
		if s.Args[0] != in || s.Args[1] != from {
			return nil
		}
	}
	if in == nil || ai.Contains(in, v.Sym) {
		return nil
	}
	for i, step := range v.Steps {
		b := l.Backs[i]
		next := map[*ai.Term]*ai.Term{}
		for _, u := range l.Vars {
			if i < len(u.Steps) && u.Steps[i] != nil {
				next[u.Sym] = u.Steps[i]
			}
		}
		at := b.St.Norm(ai.Subst(from, next))
		to := from
		if x := b.St.Norm(step); x != v.Sym {
			to = x.Args[1].Args[2]
		}
		if !equalTo(b.St, at, to) {
			return nil
		}
	}
	return ai.SubSeq(in, ai.Subst(from, inits), from)
}

// atMost proves x <= n by induction over a loop on the path that x's variables
// belong to.
func atMost(st *ai.State, x, n *ai.Term, ls ...*ai.LoopInfo) bool {
	d := st.Norm(ai.Sub(x, n))
	if st.EntailsLe0(d) {
		return true
	}
	if ls == nil {
		ls = loopsOf(st.Events())
	}
	for _, l := range ls {
		inits := initials(l)
		has := false
		for u := range inits {
			has = has || ai.Contains(d, u)
		}
		if !has || !st.EntailsLe0(ai.Subst(d, inits)) {
			continue
		}
		ok := true
		for i, b := range l.Backs {
			e := ai.Subst(d, nexts(l, i))
			bs := withInvariants(b.St, l)
			ok = ok && (bs.EntailsLe0(e) || bs.Assume(ai.Le(d, ai.Int(0)), true) && bs.EntailsLe0(e))
		}
		if ok {
			return true
		}
	}
	return false
}

// closesFiles checks that what a path opens it also closes.
func (r *Rep) closesFiles(w *World, name string, o *ai.Outcome) {
	evs := flat(o.St.Events())
	for i, ev := range evs {
		if ev.Kind != "open" {
			continue
		}
		closed := false
		for _, c := range evs[i+1:] {
			closed = closed || c.Kind == "close.file" && c.Args[0] == o.St.Norm(ev.Args[0])
		}
		for _, v := range o.Rets {
			// handed to the caller
			closed = closed || o.Kind == ai.Ret && ai.Contains(o.St.Norm(v), ev.Args[0])
		}
		r.Check(closed, "files are closed", name, "the file opened at %s is still open when the function ends at %s (path: %s)", w.Pos(ev.Pos), w.Pos(o.Pos), facts(o.St))
	}
}

// opens: the function may open a file itself.
func opensFile(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "os" {
		return false
	}
	switch f.Name() {
	case "Open", "OpenFile", "Create":
		return true
	}
	return false
}

// truncates: the file ends up with nothing but what is written to it.
func (w *World) replaces(ev *ai.Event) bool {
	switch ev.Name {
	case "os.Create":
		return true
	case "os.OpenFile":
		fl := ev.Args[2]
		if !fl.IsInt() {
			return false
		}
		return w.osConst("O_TRUNC")&fl.K != 0 && w.osConst("O_CREATE")&fl.K != 0 && (w.osConst("O_WRONLY")|w.osConst("O_RDWR"))&fl.K != 0
	}
	return false
}

func (w *World) osConst(name string) int64 {
	for _, p := range w.Prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				v, _ := constant.Int64Val(c.Val())
				return v
			}
		}
	}
	return int64(map[string]int{"O_TRUNC": os.O_TRUNC, "O_CREATE": os.O_CREATE, "O_WRONLY": os.O_WRONLY, "O_RDWR": os.O_RDWR}[name])
}

func checkR08(w *World, r *Rep) {
	r.Explain = "Every path of synchronising with the master, from unknown replies: a path that reports success has no failed dial, read, write, flush or open on it; it opened the configured snapshot file so that its old content is dropped; the reply's type byte is '$' and its length a number not below 0; and what was handed to the file is exactly that many bytes after the length line (loops that copy are resolved by induction over the stream position), with every buffering writer flushed after its last write. On every path of it and of the loader, also when decoders fail or panic, every opened file is closed."
	w.net(r)
	f := w.method(r, "redis", "Replication", "SyncWithRedis")
	if f == nil {
		return
	}
	name := w.place(f)
	repl := recvArg("repl", f)
	file := w.fieldSym(repl, "RdbFile")
	good := 0
	opened := 0
	var rd *ai.Term
	for _, o := range w.run(r, f, []*ai.Term{repl}, nil) {
		st := o.St
		r.closesFiles(w, name, o)
		if o.Kind != ai.Ret {
			continue
		}
		_, err := splitErr(f.Signature, o)
		if err == nil {
			r.Fail("reports failures", name, "has no error result")
			return
		}
		if d := st.Decide(ai.Eq(err, ai.Nil())); !err.IsNil() && d == 0 {
			r.Check(true, "reports failures", name, "")
			continue
		}
		good++
		fl := loadFailures(st.Events())
		r.Check(len(fl) == 0, "reports failures", name, "reports success although %s failed (path: %s)", failNames(fl), facts(st))
		var to *ai.Term
		evs := flat(st.Events())
		for _, ev := range evs {
			if ev.Kind == "open" {
				opened++
				if file != nil && equalTo(st, ev.Args[1], file) && w.replaces(ev) {
					to = ev.Args[0]
				}
			}
			if ev.Kind == "read" {
				rd = ev.Args[0]
			}
		}
		if !r.Check(to != nil, "snapshot file", name, "reports success without opening the snapshot file for replacing its content (path: %s)", facts(st)) {
			continue
		}
		if rd == nil {
			r.Fail("content", name, "reports success without reading a reply (path: %s)", facts(st))
			continue
		}
		dest := w.writerOn(r, name, evs, to)
		got := w.copied(st, st.Norm(w.E.OutOf(st, dest)))
		in := w.E.Stream(rd)
		ok, why := w.payload(withInvariants(st), in, got)
		r.Check(ok, "content", name, "%s (path: %s)", why, facts(st))
	}
	r.Floor("successful transfers", good, 1)
	x := w.rdbWorld(r, true)
	if x == nil {
		return
	}
	x.e.ForkPanic = true
	for _, o := range x.run(x.load, x.repl) {
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "open" {
				opened++
			}
		}
		r.closesFiles(w, w.place(x.load), o)
	}
	r.Floor("opened files", opened, 2)
}

// fieldSym is the initial content of a field of the object an argument points
// to.
func (w *World) fieldSym(obj *ai.Term, name string) *ai.Term {
	p, ok := obj.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return ai.Sym("init:"+ai.FieldAddr(obj, i).String(), s.Field(i).Type())
		}
	}
	return nil
}

// writerOn finds the writer whose output is what reaches the file, and checks
// that it was flushed.
func (w *World) writerOn(r *Rep, name string, evs []*ai.Event, file *ai.Term) *ai.Term {
	dest, last := file, -1
	chain := map[*ai.Term]bool{file: true}
	for i, ev := range evs {
		switch {
		case ev.Kind == "wrap" && ev.Name == "writer":
			u := ev.Args[1]
			for u.Op == ai.OIface {
				u = u.Args[0]
			}
			chain[ev.Args[0]] = chain[u]
		case ev.Kind == "write" && chain[ev.Args[0]]:
			if last >= 0 && dest != ev.Args[0] {
				r.Fail("content", name, "writes to the file in two ways, the second at %s", w.Pos(ev.Pos))
			}
			dest, last = ev.Args[0], i
		}
	}
	if dest != file {
		flushed := last < 0
		for i, ev := range evs {
			flushed = flushed || i > last && ev.Kind == "flush" && ev.Args[0] == dest
		}
		r.Check(flushed, "flushed", name, "reports success although what it wrote may still be in a buffer")
	}
	return dest
}

// payload: got is the payload of a bulk reply on the stream.
func (w *World) payload(st *ai.State, in, got *ai.Term) (bool, string) {
	var from, to *ai.Term
	switch {
	case got.Op == ai.OSub && got.Args[0] == in:
		from, to = got.Args[1], got.Args[2]
	case got.IsConstStr() && got.S == "":
	default:
		return false, "what reaches the file is " + got.String() + ", not a stretch of the reply"
	}
	// the length line before it
	var lines []*ai.Term
	see := func(t *ai.Term) bool {
		if t.Is("atoi") {
			lines = append(lines, t)
		}
		return true
	}
	for _, l := range st.Lits() {
		ai.Walk(l.T, see)
	}
	why := "the path knows of no length line"
	type line struct{ n, start, end *ai.Term }
	var found []line
	for _, n := range lines {
		l := line{n: n}
		ai.Walk(n, func(t *ai.Term) bool {
			if t.Is("delim") && t.Args[0] == in && l.start == nil {
				if e, ok := isLine(st, in, t.Args[1], n.Args[0], true); ok {
					l.start, l.end = t.Args[1], e
				}
			}
			return true
		})
		if l.start != nil {
			found = append(found, l)
		}
	}
	for _, l := range found {
		n, start, end := l.n, l.start, l.end
		if from == nil && slices.ContainsFunc(found, func(m line) bool { return m.n != n && (st.EntailsLe0(ai.Sub(l.end, m.start)) || ai.Contains(m.n, n)) }) {
			// the length of an earlier reply
			continue
		}
		n = st.Norm(n)
		if from != nil && !equalTo(st, from, end) {
			why = "what reaches the file starts at " + from.String() + ", not after the length line"
			continue
		}
		switch {
		case !decided(st, ai.Call("isint", tBool, n.Args[0]), true) || !st.EntailsLe0(ai.Scale(n, -1)):
			why = "a length that is no number, or negative, counts as success"
		case only(st, ai.Elem(in, ai.AddK(start, -1), tByte)) != '$':
			why = "a reply of another kind than a bulk counts as success"
		case from == nil && !st.EntailsLe0(n):
			why = "nothing reaches the file"
		case from != nil && !equalTo(st, ai.Sub(to, from), n) && !(st.EntailsLe0(ai.Sub(n, ai.Sub(to, from))) && atMost(st, ai.Sub(to, from), n)):
			why = ai.Sub(to, from).String() + " bytes reach the file, not the announced number"
		default:
			return true, ""
		}
		return false, why
	}
	return false, why
}
