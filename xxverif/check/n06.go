package check

import (
	"go/types"
	"strings"

	"xxverif/ai"
)

func init() { registry["N06"] = checkN06 }

// stringOf applies a String-like method to a message of known type.
func (w *World) stringOf(st *ai.State, msg *ai.Term, name string) *ai.Term {
	c := w.seqOf(st)
	ps := c.method(ai.Call("m:"+name, nil, msg), name)
	if c.why != "" {
		return ai.Str("\x00" + c.why)
	}
	var a []*ai.Term
	for _, p := range ps {
		if p.fold != nil {
			return ai.Str("\x00repeated")
		}
		a = append(a, p.t)
	}
	if len(a) == 1 {
		return a[0]
	}
	return ai.Cat(a...)
}

// protocolOf is the type byte of a message of known type, -1 if unknown.
func (w *World) protocolOf(st *ai.State, msg *ai.Term) int {
	if msg.Op != ai.OIface {
		return -1
	}
	f := w.Prog.LookupMethod(msg.T, nil, "Protocol")
	if f == nil {
		return -1
	}
	got := -1
	for _, o := range w.E.Run(f, []*ai.Term{msg.Args[0]}, st.Clone()) {
		if o.Kind != ai.Ret || !o.Rets[0].IsInt() {
			return -1
		}
		got = int(o.Rets[0].K)
	}
	return got
}

var replyKinds = map[byte]string{'+': "SimpleStringMessage", '-': "ErrorMessage", ':': "IntMessage", '$': "", '*': "ArrayMessage"}

// header is what a path knows about the first line of the reply it read.
type header struct {
	in    *ai.Term
	known []byte   // type bytes of the protocol the path admits
	all   []int    // all type bytes it admits
	num   *ai.Term // the number on the line, if it was parsed
	end   *ai.Term // where the next line starts
}

func (w *World) header(st *ai.State, rd *ai.Term, vals ...*ai.Term) *header {
	h := &header{in: w.E.Stream(rd)}
	bs := st.ByteSet(ai.Elem(h.in, ai.Int(0), tByte))
	h.all = bs.Values()
	for _, v := range h.all {
		if _, ok := replyKinds[byte(v)]; ok {
			h.known = append(h.known, byte(v))
		}
	}
	h.end = ai.Call("delim", tInt, h.in, ai.Int(1), ai.Int(10))
	see := func(t *ai.Term) bool {
		if t.Op == ai.OCall && (t.S == "atoi" || t.S == "isint") {
			if _, ok := isLine(st, h.in, ai.Int(1), t.Args[0], true); ok {
				h.num = ai.Call("atoi", tInt, t.Args[0])
			}
		}
		return true
	}
	for _, v := range vals {
		ai.Walk(v, see)
	}
	for _, l := range st.Lits() {
		ai.Walk(l.T, see)
	}
	return h
}

// excused: the path knows the reply to be malformed.
func (h *header) excused(st *ai.State) bool {
	ok := len(h.known) == 0
	if h.num != nil && len(h.known) == 1 {
		n := st.Norm(h.num)
		big := int64(512<<20 + 1)
		if h.known[0] == '*' {
			big = 1 << 20
		}
		ok = h.known[0] != ':' && (st.EntailsLe0(ai.AddK(n, 2)) || st.EntailsLe0(ai.Sub(ai.Int(big), n)))
		if h.known[0] == '$' {
			for i, c := range []int{'\r', '\n'} {
				ok = ok || excludes(st, ai.Elem(h.in, ai.AddK(ai.Add(h.end, n), int64(i)), tByte), c)
			}
		}
	}
	return ok || excludes(st, ai.Elem(h.in, ai.AddK(h.end, -2), tByte), '\r') || st.EntailsLe0(ai.AddK(h.end, -2))
}

func checkN06(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of reading one reply, from an unknown byte stream: the type byte admits exactly the announced kind; the content is the line (or, for bulks, exactly the announced number of bytes after it); an array is one complete loop that collects one reply, read by the same function, per announced element, in order; the stream is left exactly after the reply. Paths that report an error have a failed read or parse, an unknown type byte or a length no reply can have; paths with any of these report an error. No step can panic."
	r.Assume = append(r.Assume, "by induction on nesting, a recursive call reads one reply as specified")
	f := w.method(r, "redis", "Conn", "Recv")
	if f == nil {
		return
	}
	name := w.place(f)
	seen := map[string]int{}
	kinds := replyKinds
	for _, o := range w.run(r, f, []*ai.Term{recvArg("c", f)}, nil) {
		st := o.St
		w.noPanic(r, "no panic", name, "", o)
		if o.Kind != ai.Ret {
			if o.Kind == ai.Exit {
				r.Fail("returns", name, "does not return: %v", o.Val)
			}
			continue
		}
		rets, err := splitErr(f.Signature, o)
		var rd *ai.Term
		for _, ev := range flat(st.Events()) {
			if ev.Kind == "read" {
				if rd == nil {
					rd = ev.Args[0]
				}
				r.Check(rd == ev.Args[0], "one stream", name, "reads from two streams, %s and %s", rd, ev.Args[0])
			}
		}
		fl := failures(st.Events())
		if rd == nil {
			r.Check(!err.IsNil() && len(fl) > 0, "reads the reply", name, "returns %s, %s without reading (path: %s)", rets[0], err, facts(st))
			continue
		}
		h := w.header(st, rd, rets[0])
		in, known, end, num := h.in, h.known, h.end, h.num
		if !err.IsNil() {
			if len(fl) > 0 || len(known) == 0 {
				r.Check(true, "errors are real", name, "")
				continue
			}
			excuse := h.excused(st)
			r.Check(excuse, "errors are real", name, "reports an error on a well-formed reply (type byte %q, path: %s)", known, facts(st))
			continue
		}
		r.Check(len(fl) == 0, "failures are reported", name, "reports success although %s failed (path: %s)", failNames(fl), facts(st))
		if !r.Check(len(known) == 1 && len(h.all) == 1, "type byte", name, "accepts any of the type bytes %v in the same way (path: %s)", h.all, facts(st)) {
			continue
		}
		msg := st.Norm(rets[0])
		k := known[0]
		ctx := "type byte '" + string(k) + "': "
		if !r.Check(msg.Op == ai.OIface, "kind", name, "%sreturns %s", ctx, msg) {
			continue
		}
		T := shortType(msg.T)
		if T == "redis.NilMessage" || T == "*redis.NilMessage" {
			r.Check((k == '$' || k == '*') && num != nil && equalTo(st, num, ai.Int(-1)), "nil", name, "%sreturns the nil reply for another length than -1 (path: %s)", ctx, facts(st))
			r.Check(equalTo(st, w.E.Offset(st, rd), end), "consumes exactly the reply", name, "%s the nil reply ends at %s, not %s", ctx, w.E.Offset(st, rd), end)
			seen[string(k)+"nil"]++
			continue
		}
		off := st.Norm(w.E.Offset(st, rd))
		switch k {
		case '+', '-':
			r.Check(T == "redis."+kinds[k], "kind", name, "%sreturns a %s", ctx, T)
			_, ok := isLine(st, in, ai.Int(1), st.Norm(msg.Args[0]), false)
			r.Check(ok, "content", name, "%sthe content is %s, not the line", ctx, msg.Args[0])
			r.Check(equalTo(st, off, end), "consumes exactly the reply", name, "%sreading stops at %s, not %s", ctx, off, end)
			seen[string(k)]++
		case ':':
			r.Check(T == "redis."+kinds[k], "kind", name, "%sreturns a %s", ctx, T)
			x := st.Norm(msg.Args[0])
			r.Check(num != nil && x == st.Norm(num) && decided(st, ai.Call("isint", tBool, num.Args[0]), true), "content", name, "%sthe number is %s", ctx, x)
			r.Check(equalTo(st, off, end), "consumes exactly the reply", name, "%sreading stops at %s, not %s", ctx, off, end)
			seen[string(k)]++
		case '$':
			if !r.Check(num != nil && decided(st, ai.Call("isint", tBool, num.Args[0]), true), "content", name, "%sthe length is not the number on the line (path: %s)", ctx, facts(st)) {
				continue
			}
			n := st.Norm(num)
			r.Check(st.EntailsLe0(ai.Scale(n, -1)), "length", name, "%saccepts a negative length (path: %s)", ctx, facts(st))
			r.Check(w.protocolOf(st, msg) == '$', "kind", name, "%sreturns a %s", ctx, T)
			want := st.Norm(ai.SubSeq(in, end, ai.Add(end, n)))
			got := st.Norm(w.stringOf(st, msg, "String"))
			r.Check(got == want, "content", name, "%sthe content is %s, not the %s bytes after the line", ctx, got, n)
			after := ai.Add(end, n)
			ok := equalTo(st, off, ai.AddK(after, 2)) || (off.Is("delim") && off.Args[2] == ai.Int(10) || off.Is("rlend")) && off.Args[0] == in && equalTo(st, off.Args[1], after)
			r.Check(ok, "consumes exactly the reply", name, "%sreading stops at %s, not %s", ctx, off, ai.AddK(after, 2))
			seen[string(k)]++
		case '*':
			r.Check(T == "redis."+kinds[k], "kind", name, "%sreturns a %s", ctx, T)
			if num == nil {
				r.Fail("length", name, "%sthe number of elements is not the number on the line", ctx)
				continue
			}
			n := st.Norm(num)
			r.Check(decided(st, ai.Call("isint", tBool, num.Args[0]), true) && st.EntailsLe0(ai.Scale(n, -1)), "length", name, "%saccepts a length that is no number or negative (path: %s)", ctx, facts(st))
			seen[string(k)]++
			w.replyArray(r, name, o, rd, msg.Args[0], n, end)
		}
	}
	for _, k := range []string{"+", "-", ":", "$", "*", "$nil", "*nil"} {
		r.Floor("accepted replies of type "+k, seen[k], 1)
	}
}

var tByte = types.Typ[types.Uint8]

func excludes(st *ai.State, b *ai.Term, c int) bool {
	s := st.ByteSet(b)
	for _, v := range s.Values() {
		if v == c {
			return false
		}
	}
	return true
}

func failNames(fl []*ai.Event) string {
	var s []string
	for _, ev := range fl {
		s = append(s, ev.Name)
	}
	return strings.Join(s, ", ")
}

// replyArray: the message content is one complete loop of recursive reads.
func (w *World) replyArray(r *Rep, name string, o *ai.Outcome, rd, val, n, start *ai.Term) {
	st := o.St
	content := st.Norm(w.E.Content(st, val))
	loops := 0
	for _, l := range loopsOf(st.Events()) {
		rec := false
		for _, b := range l.Backs {
			for _, ev := range b.Events {
				rec = rec || ev.Kind == "recurse" || ev.Kind == "read"
			}
		}
		if !rec {
			continue
		}
		loops++
		idx := indexVar(l)
		if !r.Check(idx != nil, "elements", name, "the loop over the elements does not count them") {
			continue
		}
		r.Check(finished(st, l, idx, n), "elements", name, "the loop over the elements can stop early (path: %s)", facts(st))
		r.Check(equalTo(st, ai.AddK(idx.Sym, -idx.Init.K), n) || st.EntailsLe0(ai.Sub(ai.AddK(idx.Sym, -idx.Init.K), n)) || everyBelow(l, idx, n), "elements", name, "the loop over the elements can read more than %s (path: %s)", n, facts(st))
		for i, it := range l.Backs {
			var recs, others int
			var res *ai.Term
			for _, ev := range flat(it.Events) {
				switch ev.Kind {
				case "recurse":
					recs++
				case "read":
					others++
				case "fail":
					r.Fail("failures are reported", name, "an element that could not be read (%s) is skipped", ev.Name)
				case "ok":
					if strings.HasPrefix(ev.Name, "rec:") {
						res = it.St.Norm(ev.Res[0])
					}
				}
			}
			r.Check(recs == 1 && others == 0, "elements", name, "an iteration reads %d replies and makes %d other reads, not exactly one reply", recs, others)
			at, slot, ok := slotOf(l, i)
			r.Check(ok && slot == res && zero0(it.St, ai.Sub(at, cur(it.St, l, idx)), l), "elements", name, "position %v of the result receives %v instead of the reply just read", at, slot)
			appended := false
			for _, v := range l.Vars {
				if strings.HasPrefix(v.What, "off:") && v.Init != nil {
					r.Check(equalTo(st, v.Init, start), "consumes exactly the reply", name, "the first element is read at %s instead of %s", v.Init, start)
				}
				appended = appended || st.Norm(w.E.Content(st, v.Sym)) == content || v.Sym == content
			}
			r.Check(appended, "elements", name, "the result %s is not what the loop collected", content)
		}
		ln := st.Norm(ai.Len(content))
		r.Check(zero0(st, ai.Sub(ln, n)) || grown(st, l, ln, idx), "elements", name, "the result has %s elements", ln)
		off := st.Norm(w.E.Offset(st, rd))
		ok := false
		for _, v := range l.Vars {
			ok = ok || strings.HasPrefix(v.What, "off:") && off == v.Sym
		}
		r.Check(ok, "consumes exactly the reply", name, "reading continues after the last element, to %s", off)
	}
	if loops == 0 {
		ln := st.Norm(ai.Len(content))
		r.Check(equalTo(st, n, ai.Int(0)) && (content.IsNil() || ln.IsInt() && ln.K == 0), "elements", name, "returns %s for %s elements without reading them (path: %s)", content, n, facts(st))
		off := w.E.Offset(st, rd)
		r.Check(equalTo(st, off, start), "consumes exactly the reply", name, "the empty array ends at %s, not %s", off, start)
		return
	}
	r.Check(loops == 1, "elements", name, "%d loops read elements", loops)
}

// everyBelow: each iteration starts with its position below n.
func everyBelow(l *ai.LoopInfo, idx *ai.LoopVar, n *ai.Term) bool {
	for _, it := range l.Backs {
		d := ai.AddK(ai.Sub(cur(it.St, l, idx), n), 1)
		if !it.St.EntailsLe0(d) && !withInvariants(it.St, l).EntailsLe0(d) {
			return false
		}
	}
	return true
}
