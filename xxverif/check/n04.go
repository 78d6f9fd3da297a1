package check

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() {
	registry["N03"] = checkN03
	registry["N04"] = checkN04
	registry["N05"] = checkN05
}

// clientSpec: the request of each client method and the kind of its reply.
// An argument is the number of a parameter; "map" and "list" stand for all
// entries of the first.
type clientSpec struct {
	cmd   string
	args  []int
	coll  string
	reply string // ok, int, text, float, values
}

var clientOps = map[string]clientSpec{
	"Set":         {"set", []int{0, 1}, "", "ok"},
	"Select":      {"select", []int{0}, "", "ok"},
	"SetNX":       {"setnx", []int{0, 1}, "", "int"},
	"SetEX":       {"setex", []int{0, 2, 1}, "", "ok"},
	"PSetEX":      {"psetex", []int{0, 2, 1}, "", "ok"},
	"Get":         {"get", []int{0}, "", "text"},
	"GetSet":      {"getset", []int{0, 1}, "", "text"},
	"StrLen":      {"strlen", []int{0}, "", "int"},
	"Append":      {"append", []int{0, 1}, "", "int"},
	"SetRange":    {"setrange", []int{0, 1, 2}, "", "int"},
	"GetRange":    {"getrange", []int{0, 1, 2}, "", "text"},
	"Incr":        {"incr", []int{0}, "", "int"},
	"IncrBy":      {"incrby", []int{0, 1}, "", "int"},
	"IncrByFloat": {"incrbyfloat", []int{0, 1}, "", "float"},
	"Decr":        {"decr", []int{0}, "", "int"},
	"DecrBy":      {"decrby", []int{0, 1}, "", "int"},
	"MSet":        {"mset", nil, "map", "ok"},
	"MSetNX":      {"msetnx", nil, "map", "int"},
	"MGet":        {"mget", nil, "list", "values"},
}

// clientRun is one interpreted path of a client method.
type clientRun struct {
	op   string
	spec clientSpec
	f    *ssa.Function
	args []*ai.Term // without the receiver
	o    *ai.Outcome
	rets []*ai.Term
	err  *ai.Term
	// the exchange
	rd, wr *ai.Term
}

func (w *World) clientRuns(r *Rep) []*clientRun {
	t := w.Type("redis", "Redis")
	if t == nil {
		r.Fail("roles", "redis.Redis", "the client type is gone")
		return nil
	}
	var out []*clientRun
	found := 0
	for _, f := range w.Methods(t) {
		spec, ok := clientOps[f.Name()]
		if !ok {
			r.Note("%s is not one of the known commands", w.fnName(f))
			continue
		}
		found++
		var all, args []*ai.Term
		all = append(all, recvArg("redis", f))
		for i, p := range f.Params[1:] {
			a := ai.Sym(fmt.Sprintf("p%d", i), p.Type())
			all = append(all, a)
			args = append(args, a)
		}
		for _, o := range w.run(r, f, all, nil) {
			x := &clientRun{op: f.Name(), spec: spec, f: f, args: args, o: o}
			if o.Kind == ai.Ret {
				x.rets, x.err = splitErr(f.Signature, o)
			}
			for _, ev := range flat(o.St.Events()) {
				switch ev.Kind {
				case "read":
					if x.rd == nil {
						x.rd = ev.Args[0]
					} else if x.rd != ev.Args[0] {
						r.Fail("one exchange", w.place(f), "reads from two streams, %s and %s", x.rd, ev.Args[0])
					}
				case "write":
					if x.wr == nil {
						x.wr = ev.Args[0]
					} else if x.wr != ev.Args[0] {
						r.Fail("one exchange", w.place(f), "writes to two streams, %s and %s", x.wr, ev.Args[0])
					}
				}
			}
			out = append(out, x)
		}
	}
	r.Floor("client methods", found, len(clientOps))
	return out
}

// sameConn: the reader and writer belong to one connection.
func sameConn(st *ai.State, rd, wr *ai.Term) bool {
	owner := func(t *ai.Term) string {
		for _, ev := range flat(st.Events()) {
			if ev.Kind == "wrap" && ev.Args[0] == t {
				return ev.Args[1].String()
			}
		}
		s := t.String()
		if i := strings.LastIndex(s, "."); i > 0 && strings.HasPrefix(s, "init:") {
			return s[:i]
		}
		return ""
	}
	a, b := owner(rd), owner(wr)
	return a != "" && a == b
}

func bulkParts(n, x *ai.Term) []part {
	return []part{{t: ai.Str("$")}, {t: n}, {t: ai.Str("\r\n")}, {t: x}, {t: ai.Str("\r\n")}}
}

func bulkOf(x *ai.Term) []part { return bulkParts(ai.Call("itoa", stringType, ai.Len(x)), x) }

func constBulk(s string) []part { return bulkParts(ai.Str(itoa(len(s))), ai.Str(s)) }

// argTexts lists the ways Redis accepts an argument of that type.
func argTexts(a *ai.Term) []*ai.Term {
	b, ok := a.T.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsString != 0:
		return []*ai.Term{a}
	case b.Info()&types.IsUnsigned != 0:
		return []*ai.Term{ai.Utoa(a)}
	case b.Info()&types.IsInteger != 0:
		return []*ai.Term{ai.Itoa(a)}
	case b.Info()&types.IsFloat != 0:
		return []*ai.Term{ai.Ftoa(a, "102:-1:64"), ai.Ftoa(a, "103:-1:64"), ai.Ftoa(a, "101:-1:64")}
	}
	return nil
}

// requests renders the acceptable forms of a method's request.
func requests(s clientSpec, args []*ai.Term) []string {
	num := func(n *ai.Term) part { return part{t: ai.Itoa(n)} }
	mk := func(n *ai.Term, rest ...[]part) []part {
		ps := []part{{t: ai.Str("*")}, num(n), {t: ai.Str("\r\n")}}
		ps = append(ps, constBulk(s.cmd)...)
		for _, x := range rest {
			ps = append(ps, x...)
		}
		return ps
	}
	switch s.coll {
	case "map":
		m := args[0]
		k, v := ai.Sym("k", stringType), ai.Sym("v", stringType)
		f := &fold{over: m, isMap: true, k: k, v: v, body: append(bulkOf(k), bulkOf(v)...)}
		return []string{canon(mk(ai.AddK(ai.Scale(card(m), 2), 1), []part{{fold: f}}), strings.ToLower)}
	case "list":
		x := ai.Sym("x", stringType)
		f := &fold{over: args[0], v: x, body: bulkOf(x)}
		return []string{canon(mk(ai.AddK(ai.Len(args[0]), 1), []part{{fold: f}}), strings.ToLower)}
	}
	out := [][]part{nil}
	for _, i := range s.args {
		if i >= len(args) {
			return nil
		}
		var next [][]part
		for _, p := range out {
			for _, t := range argTexts(args[i]) {
				next = append(next, append(append([]part{}, p...), bulkOf(t)...))
			}
		}
		out = next
	}
	var res []string
	for _, p := range out {
		res = append(res, canon(mk(ai.Int(int64(len(s.args)+1)), p), strings.ToLower))
	}
	return res
}

func checkN04(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of every client method on which a reply is read: what was written to that connection, with the loops that build it expanded, equals exactly one request made of the command's name and the method's own arguments in the order of the Redis command table, flushed before the reply is read, on the connection the reply is read from."
	n := map[string]int{}
	for _, x := range w.clientRuns(r) {
		name := w.place(x.f)
		if x.o.Kind != ai.Ret || x.rd == nil {
			// nothing was exchanged, or the path ends in a panic (N03)
			if x.o.Kind == ai.Ret {
				r.Check(!x.err.IsNil(), "sends the command", name, "reports success without an exchange (path: %s)", facts(x.o.St))
			}
			continue
		}
		st := x.o.St
		if !r.Check(x.wr != nil && sameConn(st, x.rd, x.wr), "one connection", name, "reads a reply from %s without having written to that connection (%v)", x.rd, x.wr) {
			continue
		}
		flushed, order := false, true
		for _, ev := range flat(st.Events()) {
			switch ev.Kind {
			case "write":
				flushed = false
				if ev.Args[0] != x.wr {
					order = false
				}
			case "flush":
				flushed = flushed || ev.Args[0] == x.wr
			case "read":
				order = order && flushed
			}
		}
		r.Check(order, "flushed first", name, "waits for the reply before the request was flushed (path: %s)", facts(st))
		c := w.seqOf(st)
		got := canon(c.expand(w.E.OutOf(st, x.wr)), strings.ToLower)
		if !r.Check(c.why == "", "request", name, "the request cannot be determined: %s", c.why) {
			continue
		}
		ok := false
		want := requests(x.spec, x.args)
		for _, s := range want {
			ok = ok || s == got
		}
		r.Check(ok, "request", name, "sends %s instead of %s", got, want)
		n[x.op]++
	}
	for op := range clientOps {
		r.Floor("exchanges of "+op, n[op], 1)
	}
}

func checkN05(w *World, r *Rep) {
	w.net(r)
	r.Explain = "For every type that implements the message interface: the text its serialiser builds, with loops expanded, equals the frame the protocol defines for its type byte, for unknown content; the text of a message is the content it was made from. Converting arguments to a message and sending it writes exactly the frame of those arguments, then flushes."
	r.Assume = append(r.Assume, "simple strings and errors hold single lines by definition")
	mi := w.Type("redis", "Message")
	if mi == nil {
		r.Fail("roles", "redis.Message", "the interface is gone")
		return
	}
	iface := mi.Underlying().(*types.Interface)
	var impls []types.Type
	scope := w.Pkgs["redis"].Pkg.Scope()
	names := scope.Names()
	sort.Strings(names)
	for _, nm := range names {
		tn, ok := scope.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, isI := tn.Type().Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(tn.Type(), iface) {
			impls = append(impls, tn.Type())
		} else if types.Implements(types.NewPointer(tn.Type()), iface) {
			impls = append(impls, types.NewPointer(tn.Type()))
		}
	}
	kinds := map[int]int{}
	for _, T := range impls {
		f := w.Prog.LookupMethod(T, nil, "Serialize")
		name := shortType(T) + ".Serialize"
		if f != nil && f.Pos().IsValid() {
			name = w.place(f)
		}
		st := w.Init()
		var val *ai.Term
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			val = ai.Sym("!m", T)
			_ = pt
		} else {
			val = ai.Sym("m", T)
		}
		msg := ai.IfaceOf(T, val)
		p := w.protocolOf(st, msg)
		kinds[p]++
		c := w.seqOf(st)
		got := canon(c.method(ai.Call("m:Serialize", stringType, msg), "Serialize"), nil)
		if !r.Check(c.why == "", "frame", name, "the frame cannot be determined: %s", c.why) {
			continue
		}
		text := w.stringOf(st, msg, "String")
		var want []string
		switch p {
		case '+', '-':
			want = append(want, canon([]part{{t: ai.Str(string(rune(p)))}, {t: text}, {t: ai.Str("\r\n")}}, nil))
		case ':':
			n := val
			if !ai.IsIntType(val.T) {
				r.Fail("frame", name, "%s is no integer", shortType(T))
				continue
			}
			want = append(want, canon([]part{{t: ai.Str(":")}, {t: ai.Itoa(n)}, {t: ai.Str("\r\n")}}, nil))
			r.Check(st.Norm(text) == ai.Itoa(n), "text", name, "the text of number %s is %s", n, text)
		case '$':
			if shortType(T) == "redis.NilMessage" {
				want = append(want, canon([]part{{t: ai.Str("$-1\r\n")}}, nil), canon([]part{{t: ai.Str("*-1\r\n")}}, nil))
			} else {
				want = append(want, canon(bulkOf(text), nil))
			}
		case '*':
			x := ai.Sym("x", mi)
			over := w.E.Content(st, val)
			f := &fold{over: over, v: x, body: []part{{t: ai.Call("m:Serialize", stringType, x)}}}
			want = append(want, canon([]part{{t: ai.Str("*")}, {t: ai.Itoa(ai.Len(over))}, {t: ai.Str("\r\n")}, {fold: f}}, nil))
		default:
			r.Fail("frame", name, "type byte %d is not one of the protocol's", p)
			continue
		}
		ok := false
		for _, x := range want {
			ok = ok || x == got
		}
		r.Check(ok, "frame", name, "serialises to %s instead of %s", got, want)
	}
	for _, k := range []int{'+', '-', ':', '$', '*'} {
		min := 1
		if k == '$' {
			min = 2
		}
		r.Floor("message types of type byte "+string(rune(k)), kinds[k], min)
	}
	// the text of a message is what it was made from
	st := w.Init()
	s := ai.Sym("s", stringType)
	for _, nm := range []string{"SimpleStringMessage", "ErrorMessage"} {
		T := w.Type("redis", nm)
		if T == nil {
			r.Fail("roles", "redis."+nm, "the type is gone")
			continue
		}
		v := ai.Sym("m", T)
		r.Check(w.stringOf(st, ai.IfaceOf(T, v), "String") == v, "text", "redis."+nm+".String", "the text of %s differs from its content", nm)
	}
	if f := w.fn(r, "redis", "NewBulkStringMessage"); f != nil {
		for _, o := range w.run(r, f, []*ai.Term{s}, nil) {
			w.noPanic(r, "no panic", w.place(f), "", o)
			if o.Kind != ai.Ret {
				continue
			}
			m := o.St.Norm(o.Rets[0])
			if m.Op != ai.OIface {
				m = ai.IfaceOf(f.Signature.Results().At(0).Type(), m)
			}
			r.Check(w.stringOf(o.St, m, "String") == s, "text", w.place(f), "the text of a bulk string made from s is %s", w.stringOf(o.St, m, "String"))
			r.Check(w.protocolOf(o.St, m) == '$', "text", w.place(f), "a bulk string has another type byte")
		}
	}
	// arguments become one request
	if f := w.fn(r, "redis", "ConvertToMessage"); f != nil {
		args := ai.Sym("args", f.Signature.Params().At(0).Type())
		x := ai.Sym("x", stringType)
		want := canon([]part{{t: ai.Str("*")}, {t: ai.Itoa(ai.Len(args))}, {t: ai.Str("\r\n")}, {fold: &fold{over: args, v: x, body: bulkOf(x)}}}, nil)
		for _, o := range w.run(r, f, []*ai.Term{args}, nil) {
			w.noPanic(r, "no panic", w.place(f), "", o)
			if o.Kind != ai.Ret {
				continue
			}
			c := w.seqOf(o.St)
			got := canon(c.expand(ai.Call("m:Serialize", stringType, o.St.Norm(o.Rets[0]))), nil)
			r.Check(c.why == "" && got == want, "arguments", w.place(f), "the arguments are serialised to %s instead of %s (%s)", got, want, c.why)
		}
	}
	// sending writes the frame and flushes it
	if f := w.method(r, "redis", "Conn", "Send"); f != nil {
		msg := ai.Sym("!message", mi)
		n := 0
		for _, o := range w.run(r, f, []*ai.Term{recvArg("c", f), msg}, nil) {
			if o.Kind != ai.Ret {
				r.Fail("sent", w.place(f), "ends in a %s", o.Kind)
				continue
			}
			_, err := splitErr(f.Signature, o)
			fl := failures(o.St.Events())
			if !err.IsNil() {
				continue
			}
			n++
			r.Check(len(fl) == 0, "sent", w.place(f), "reports success although %s failed", failNames(fl))
			var wr *ai.Term
			flushed := false
			for _, ev := range flat(o.St.Events()) {
				switch ev.Kind {
				case "write":
					r.Check(wr == nil || wr == ev.Args[0], "sent", w.place(f), "writes to two streams")
					wr = ev.Args[0]
					flushed = false
				case "flush":
					flushed = true
				}
			}
			if !r.Check(wr != nil && flushed, "sent", w.place(f), "reports success without writing and flushing (path: %s)", facts(o.St)) {
				continue
			}
			out := o.St.Norm(w.E.OutOf(o.St, wr))
			r.Check(out == ai.Call("m:Serialize", stringType, msg), "sent", w.place(f), "writes %s instead of the serialised message", out)
		}
		r.Floor("successful sends", n, 1)
	}
}
