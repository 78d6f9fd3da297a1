package check

import (
	"go/types"
	"strings"

	"xxverif/ai"
)

// exchangeFailures are the failed reads, writes and parses of a path; a
// connection that could not be opened or closed is not one.
func exchangeFailures(evs []*ai.Event) []*ai.Event {
	var out []*ai.Event
	for _, ev := range failures(evs) {
		switch {
		case strings.HasPrefix(ev.Name, "Read"), strings.HasPrefix(ev.Name, "Write"), ev.Name == "Flush", ev.Name == "Peek", ev.Name == "Discard",
			strings.HasPrefix(ev.Name, "atoi"), strings.HasPrefix(ev.Name, "parsef"), strings.HasPrefix(ev.Name, "rec:"):
			out = append(out, ev)
		}
	}
	return out
}

// poolNil: the condition concerns what the pool holds, which is never nil.
func poolNil(cond *ai.Term) bool {
	s := cond.String()
	return strings.Contains(s, "nil") && (strings.Contains(s, "recv@") || strings.Contains(s, "init:!redis"))
}

// isMessage: the condition says that an element of an array reply is not nil;
// all of them were read as messages, which are not nil (N06).
func isMessage(st *ai.State, cond *ai.Term) bool {
	if cond.Op == ai.ONot {
		cond = cond.Args[0]
	}
	if cond.Op != ai.OEq {
		return false
	}
	el := cond.Args[0]
	if el.IsNil() {
		el = cond.Args[1]
	}
	if el.Op != ai.OElem {
		return false
	}
	for _, l := range loopsOf(st.Events()) {
		for _, v := range l.Vars {
			if v.Sym != el.Args[0] {
				continue
			}
			for j, s := range v.Steps {
				x := l.Backs[j].St.Norm(s)
				if x == v.Sym {
					continue
				}
				var e *ai.Term
				switch {
				case x.Op == ai.OCat && len(x.Args) == 2 && x.Args[0] == v.Sym && x.Args[1].Op == ai.OUnit:
					e = x.Args[1].Args[0]
				case x.Op == ai.OUpd && x.Args[0] == v.Sym:
					e = x.Args[2]
				default:
					return false
				}
				if e.Op != ai.OIface && !strings.Contains(e.String(), "rec:") {
					return false
				}
			}
			return v.Init == nil || v.Init.IsNil() || ai.Len(v.Init).String() == "0"
		}
	}
	return false
}

func checkN03(w *World, r *Rep) {
	w.net(r)
	r.Assume = append(r.Assume, "connections in the pool are never nil (N01)")
	r.Explain = "Every path of every client method, from an unknown pool and an unknown reply: success is reported only when the exchange had no failure and the reply is of the kind the command returns, and then the result is that reply decoded; every such reply does become a success; error and nil replies, replies of other kinds and failed reads, writes and parses end in a non-nil error. In MGET every slot holds its own element's text, or an error for a nil or error element. No reply makes the caller panic."
	ok, bad := map[string]int{}, map[string]int{}
	for _, x := range w.clientRuns(r) {
		name := w.place(x.f)
		st := x.o.St
		if x.o.Kind == ai.Pan {
			if x.rd != nil {
				r.Fail("no panic", name, "panics on a reply: %v at %s (path: %s)", x.o.Val, w.Pos(x.o.Pos), facts(st))
			}
			continue
		}
		if x.o.Kind != ai.Ret {
			r.Fail("returns", name, "does not return: %v", x.o.Val)
			continue
		}
		read := false
		evs, sts := withStates(st, st.Events())
		for i, ev := range evs {
			read = read || ev.Kind == "read"
			if (ev.Kind == "maypanic" || ev.Kind == "panic") && read && !(len(ev.Args) > 0 && ev.Args[0] != nil && (poolNil(ev.Args[0]) || isMessage(st, ev.Args[0]))) {
				r.Fail("no panic", name, "%s at %s is not shown safe: %v (path: %s)", ev.Name, w.Pos(ev.Pos), ev.Args, facts(sts[i]))
			}
		}
		xf := exchangeFailures(st.Events())
		if !x.err.IsNil() {
			bad[x.op]++
			if len(failures(st.Events())) > 0 && !onlyClose(st) || x.rd == nil {
				continue
			}
			h := w.header(st, x.rd, append(x.rets, x.err)...)
			r.Check(h.excused(st) || !w.expected(st, x, h), "replies become results", name, "a reply of the right kind becomes an error (path: %s)", facts(st))
			continue
		}
		if !r.Check(x.rd != nil && x.wr != nil, "success needs a reply", name, "reports success without an exchange (path: %s)", facts(st)) {
			continue
		}
		if !r.Check(len(xf) == 0, "failures are reported", name, "reports success although %s failed (path: %s)", failNames(xf), facts(st)) {
			continue
		}
		h := w.header(st, x.rd, x.rets...)
		if !r.Check(len(h.known) == 1 && len(h.all) == 1, "kind of reply", name, "accepts replies of any of the types %v (path: %s)", h.all, facts(st)) {
			continue
		}
		if len(x.rets) != 1 {
			r.Fail("roles", name, "has %d results", len(x.rets))
			continue
		}
		ok[x.op]++
		w.decoded(r, name, x, h)
	}
	for op := range clientOps {
		r.Floor("successful paths of "+op, ok[op], 1)
		r.Floor("failing paths of "+op, bad[op], 5)
	}
}

func onlyClose(st *ai.State) bool {
	for _, ev := range failures(st.Events()) {
		if ev.Name != "Conn.Close" {
			return false
		}
	}
	return true
}

// text is the reply's content as a string, when the path knows its kind.
func (w *World) replyTexts(st *ai.State, h *header, t *ai.Term) bool {
	switch h.known[0] {
	case '+':
		_, ok := isLine(st, h.in, ai.Int(1), t, false)
		return ok
	case ':':
		if _, ok := isLine(st, h.in, ai.Int(1), t, false); ok {
			return true
		}
		return h.num != nil && t == st.Norm(ai.Itoa(h.num))
	case '$':
		return h.num != nil && t == st.Norm(ai.SubSeq(h.in, h.end, ai.Add(h.end, st.Norm(h.num))))
	}
	return false
}

// decoded: the result is the reply's value.
func (w *World) decoded(r *Rep, name string, x *clientRun, h *header) {
	st, res := x.o.St, st0(x.o.St, x.rets[0])
	k := h.known[0]
	nilReply := h.num != nil && (k == '$' || k == '*') && !st.EntailsLe0(ai.Scale(st.Norm(h.num), -1))
	if !r.Check(k != '-' && !nilReply, "kind of reply", name, "an error or nil reply (type byte %q) becomes the result %s (path: %s)", k, res, facts(st)) {
		return
	}
	switch x.spec.reply {
	case "ok":
		good := k == '+' && saysOK(st, h) == 1
		_, isL := isLine(st, h.in, ai.Int(1), x.rets[0], false)
		r.Check(good && (res.IsConstStr() && res.S == "OK" || isL), "result", name, "a %q reply that is not known to be OK becomes the result %s (path: %s)", k, res, facts(st))
	case "int":
		r.Check(k == ':' && h.num != nil && (res == st.Norm(h.num) || zero0(st, ai.Sub(res, st.Norm(h.num)))), "result", name, "a %q reply becomes the result %s (path: %s)", k, res, facts(st))
	case "text":
		if k == '*' {
			r.Check(!res.IsConstStr(), "result", name, "an array reply becomes %s", res)
			return
		}
		r.Check(w.replyTexts(st, h, res), "result", name, "a %q reply becomes the result %s (path: %s)", k, res, facts(st))
	case "float":
		good := false
		switch {
		case res.Is("parsef"):
			good = decided(st, ai.Call("isfloat", tBool, res.Args[0]), true) && (k == '*' || w.replyTexts(st, h, res.Args[0]))
		case res.Is("i2f"):
			good = k == ':' && h.num != nil && res.Args[0] == st.Norm(h.num)
		}
		r.Check(good, "result", name, "a %q reply becomes the result %s (path: %s)", k, res, facts(st))
	case "values":
		if !r.Check(k == '*' && h.num != nil, "result", name, "a %q reply becomes the result %s", k, res) {
			return
		}
		w.slots(r, name, x, h, res)
	}
}

// saysOK: the path knows that the reply's line is (1) or is not (0) OK.
func saysOK(st *ai.State, h *header) int {
	res := -1
	for _, l := range st.Lits() {
		t, val := l.T, 0
		if l.Val {
			val = 1
		}
		if t.Op != ai.OEq {
			continue
		}
		for i := range t.Args {
			if o := t.Args[1-i]; o.IsConstStr() && o.S == "OK" && rawLine(h.in, ai.Int(1), t.Args[i]) {
				res = val
			}
		}
	}
	return res
}

// rawLine: t is the line at off whatever the path knows of it.
func rawLine(in, off, t *ai.Term) bool {
	raw := ai.SubSeq(in, off, ai.Call("delim", tInt, in, off, ai.Int(10)))
	for {
		switch {
		case t == raw:
			return true
		case t.Is("trimright"), t.Is("trimsuffix"):
			t = t.Args[0]
		default:
			return t == ai.SubSeq(in, off, ai.AddK(raw.Args[2], -2))
		}
	}
}

func st0(st *ai.State, t *ai.Term) *ai.Term { return st.Norm(t) }

// expected: the path knows the reply to be one the command must accept.
func (w *World) expected(st *ai.State, x *clientRun, h *header) bool {
	if len(h.known) != 1 || len(h.all) != 1 {
		return false
	}
	k := h.known[0]
	pos := h.num != nil && st.EntailsLe0(ai.Scale(st.Norm(h.num), -1))
	switch x.spec.reply {
	case "ok":
		if k != '+' {
			return false
		}
		return saysOK(st, h) != 0
	case "int":
		return k == ':' && h.num != nil
	case "text":
		return k == '$' && pos
	case "float":
		return false // needs the text to be a number; a failed parse is a failure
	case "values":
		return k == '*' && pos
	}
	return false
}

// slots: result i is the text of element i, or an error for a nil or error
// element.
func (w *World) slots(r *Rep, name string, x *clientRun, h *header, res *ai.Term) {
	st := x.o.St
	n := st.Norm(h.num)
	ln := st.Norm(w.E.LenOf(st, res))
	nilT, errT := w.Type("redis", "NilMessage"), w.Type("redis", "ErrorMessage")
	if nilT == nil || errT == nil {
		r.Fail("roles", "redis.NilMessage", "the reply types are gone")
		return
	}
	found := false
	content := st.Norm(w.E.Content(st, res))
	for _, l := range loopsOf(st.Events()) {
		fills := false
		for i := range l.Backs {
			if lv, v := slotVar(l, i); lv != nil && v.Op == ai.OIface && (content == lv.Sym || res == lv.Sym || content.Op == ai.OSub && content.Args[0] == lv.Sym && content.Args[1].String() == "0" && filled(l, lv)) {
				fills = true
			}
		}
		if !fills {
			continue
		}
		idx := indexVar(l)
		if idx == nil {
			r.Fail("slots", name, "a loop fills the result without counting")
			continue
		}
		found = true
		for i, it := range l.Backs {
			at, v, isSlot := slotOf(l, i)
			pos := cur(it.St, l, idx)
			// the element looked at: an element of what was read, at this position
			var el *ai.Term
			see := func(t *ai.Term) bool {
				if t.Op == ai.OElem && len(t.Args) == 2 && t.Args[1] == pos {
					el = t
				}
				return true
			}
			for _, lit := range it.St.Lits() {
				ai.Walk(lit.T, see)
			}
			if isSlot {
				ai.Walk(v, see)
			}
			for _, ev := range it.Events {
				for _, a := range ev.Args {
					if a != nil && ev.Kind != "maypanic" {
						ai.Walk(a, see)
					}
				}
			}
			if !r.Check(isSlot && zero0(it.St, ai.Sub(at, pos), l), "slots", name, "position %v of the result is filled for element %s", at, pos) {
				continue
			}
			isErr := isErrorValue(v)
			if isErr || !isStringIface(v) {
				r.Check(isErr, "slots", name, "an element becomes %s", v)
				if el != nil {
					may := it.St.Decide(ai.IsT(el, nilT)) != 0 || it.St.Decide(ai.IsT(el, errT)) != 0
					r.Check(may, "slots", name, "an element that is neither nil nor an error becomes the error %s (path: %s)", v, facts(it.St))
				}
				continue
			}
			if el == nil {
				r.Fail("slots", name, "an element becomes %s", v)
				continue
			}
			text := it.St.Norm(v.Args[0])
			okText := text == it.St.Norm(ai.Call("m:String", stringType, el))
			if !okText && it.St.TypeOf(el) != nil {
				T := it.St.TypeOf(el)
				okText = text == w.stringOf(it.St, ai.IfaceOf(T, it.St.Norm(ai.Unwrap(el, T))), "String")
			}
			r.Check(okText, "slots", name, "an element becomes %s instead of its text", text)
			r.Check(it.St.Decide(ai.IsT(el, nilT)) == 0 && it.St.Decide(ai.IsT(el, errT)) == 0, "slots", name, "a nil or error element becomes its text (path: %s)", facts(it.St))
		}
		r.Check(finished(withInvariants(st), l, idx, n) || zero0(st, ai.Sub(ai.AddK(idx.Sym, -idx.Init.K), n)), "slots", name, "the loop over the elements can stop early (path: %s)", facts(st))
		r.Check(zero0(st, ai.Sub(ln, n)) || exactly(st, ln, n) || grown(st, l, ln, idx) && finished(withInvariants(st), l, idx, n), "slots", name, "the result has %s entries for %s elements", ln, n)
	}
	if !found {
		r.Check(equalTo(st, n, ai.Int(0)) && (res.IsNil() || ln.IsInt() && ln.K == 0), "slots", name, "no loop fills the result %s for %s elements", res, n)
	}
}

func isStringIface(v *ai.Term) bool {
	if v.Op != ai.OIface {
		return false
	}
	b, ok := v.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isErrorValue: v is an interface holding a non-nil error.
func isErrorValue(v *ai.Term) bool {
	if v.Op != ai.OIface {
		return false
	}
	return ai.IsErrorString(v.T) || types.Implements(v.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// exactly: ln is the length of what a loop collected in exactly n iterations.
func exactly(st *ai.State, ln, n *ai.Term) bool {
	inv := withInvariants(st)
	if zero0(inv, ai.Sub(ln, n)) {
		return true
	}
	for _, l := range loopsOf(st.Events()) {
		idx := indexVar(l)
		if idx != nil && finished(st, l, idx, n) && everyBelow(l, idx, n) && (grown(st, l, ln, idx) || zero0(inv, ai.Sub(ln, ai.AddK(idx.Sym, -idx.Init.K)))) {
			return true
		}
	}
	return false
}
