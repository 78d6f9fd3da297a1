package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stdModels map[string]ModelFn

func ret(st *State, rs ...*Term) []*Outcome { return []*Outcome{{St: st, Kind: Ret, Rets: rs}} }

// Return builds the single normal outcome of a model.
func Return(st *State, rs ...*Term) []*Outcome { return ret(st, rs...) }

var (
	tInt    = types.Typ[types.Int]
	tInt64  = types.Typ[types.Int64]
	tStr    = types.Typ[types.String]
	tBool   = types.Typ[types.Bool]
	tF64    = types.Typ[types.Float64]
	tByte   = types.Typ[types.Uint8]
	tUint64 = types.Typ[types.Uint64]
)

func (e *Engine) builtinErr(cc *CallCtx, what string, args ...*Term) *Term {
	a := mk(Term{Op: OAlloc, S: cc.St.Fresh("error@"+cc.Site, nil).S})
	return IfaceOf(errStringT, mk(Term{Op: OAlloc, S: a.S}))
}

var errStringT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil))

// IsErrorString: t is the type of the errors made by errors.New and fmt.Errorf.
func IsErrorString(t types.Type) bool { return t == errStringT }

func (x *act) builtin(cc *CallCtx, name string, c *ssa.CallCommon, asDefer bool) []*Outcome {
	e, st := cc.E, cc.St
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return ret(st, Call("maplen", tInt, cc.Args[0]))
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
			return ret(st, st.Fresh("chanlen@"+cc.Site, tInt))
		}
		return ret(st, st.Norm(e.LenOf(st, cc.Args[0])))
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
			if n, ok := st.Mem[Call("cap", nil, cc.Args[0])]; ok {
				return ret(st, n)
			}
		}
		n := Call("capof", tInt, cc.Args[0])
		st.addLe(Sub(e.LenOf(st, cc.Args[0]), n))
		return ret(st, n)
	case "append":
		a := e.Content(st, cc.Args[0])
		if len(cc.Args) < 2 {
			return ret(st, cc.Args[0])
		}
		b := e.Content(st, cc.Args[1])
		return ret(st, e.NewSlice(st, cc.Site, Cat(a, b)))
	case "copy":
		d, s := st.Norm(cc.Args[0]), e.Content(st, cc.Args[1])
		ld, ls := e.LenOf(st, d), Len(s)
		var n *Term
		switch {
		case st.EntailsLe0(Sub(ls, ld)):
			n = ls
		case st.EntailsLe0(Sub(ld, ls)):
			n = ld
		default:
			n = st.Fresh("copied@"+cc.Site, tInt)
			st.addLe(Scale(n, -1))
			st.addLe(Sub(n, ld))
			st.addLe(Sub(n, ls))
		}
		e.WriteSlice(st, d, Int(0), SubSeq(s, Int(0), n), n)
		return ret(st, n)
	case "delete":
		m, k := st.Norm(cc.Args[0]), st.Norm(cc.Args[1])
		if m.IsNil() {
			return ret(st)
		}
		var os []*Outcome
		for _, r := range e.dictPeek(st, m, k) {
			e.dictDelete(r.St, m, k, cc.Pos, cc.In)
			os = append(os, &Outcome{St: r.St, Kind: Ret})
		}
		return os
	case "close":
		ch := st.Norm(cc.Args[0])
		st.Emit(&Event{Kind: "close", Args: []*Term{ch}, Pos: cc.Pos, Fn: cc.In})
		st.Chan[ch] = "closed"
		return ret(st)
	case "recover":
		if x.isDefer && st.panicking != nil {
			v := st.panicking
			st.panicking = nil
			st.Emit(&Event{Kind: "recovered", Args: []*Term{v}, Pos: cc.Pos, Fn: cc.In})
			return ret(st, IfaceOf(runtimeErr, v))
		}
		return ret(st, Nil())
	case "ssa:wrapnilchk":
		return ret(st, cc.Args[0])
	case "print", "println":
		return ret(st)
	}
	return []*Outcome{{St: st, Kind: Stuck, Val: Str("builtin " + name), Pos: cc.Pos}}
}

// WriteSlice overwrites n elements of slice d from offset off with seq.
func (e *Engine) WriteSlice(st *State, d, off, seq, n *Term) {
	d = st.Norm(d)
	var a, base *Term
	if d.Op == OSlice {
		a, base = d.Args[0], Add(d.Args[1], off)
	} else {
		a, base = d, off
	}
	old := e.Arr(st, a)
	total := Len(old)
	st.Mem[a] = Cat(SubSeq(old, Int(0), base), seq, SubSeq(old, Add(base, n), total))
}

// ---- channels ----

func (e *Engine) chanSend(st *State, ch, v *Term, pos token.Pos, fn *ssa.Function) {
	if ch.IsNil() {
		st.Emit(&Event{Kind: "block", Name: "send on nil channel", Pos: pos, Fn: fn})
	}
	if st.Chan[ch] == "closed" {
		st.Emit(&Event{Kind: "sendclosed", Args: []*Term{ch}, Pos: pos, Fn: fn})
	}
	st.Emit(&Event{Kind: "send", Args: []*Term{ch, e.Resolve(st, v), v}, Pos: pos, Fn: fn})
}

func (e *Engine) chanRecv(st *State, ch *Term, commaOk bool, t types.Type, site string, pos token.Pos, fn *ssa.Function) []*Outcome {
	et := t
	if tt, ok := t.(*types.Tuple); ok {
		et = tt.At(0).Type()
	}
	v := st.Fresh("recv@"+site, et)
	timer := strings.Contains(ch.String(), "ticker@") || strings.Contains(ch.String(), "timer@")
	closes := commaOk
	if e.Closes != nil {
		closes = e.Closes(ch)
	}
	if !commaOk {
		st.Emit(&Event{Kind: "recv", Args: []*Term{ch, v}, Pos: pos, Fn: fn, OK: true})
		if e.Closes != nil && closes && !timer {
			f := st.Clone()
			f.ev = f.ev.prev
			f.Emit(&Event{Kind: "recv", Args: []*Term{ch, e.Zero(et)}, Pos: pos, Fn: fn, OK: false})
			f.Chan[ch] = "closed"
			return []*Outcome{{St: st, Kind: Ret, Rets: []*Term{v}}, {St: f, Kind: Ret, Rets: []*Term{e.Zero(et)}}}
		}
		return ret(st, v)
	}
	if timer || !closes {
		st.Emit(&Event{Kind: "recv", Args: []*Term{ch, v}, Pos: pos, Fn: fn, OK: true})
		return ret(st, Tuple(v, Bool(true)))
	}
	f := st.Clone()
	st.Emit(&Event{Kind: "recv", Args: []*Term{ch, v}, Pos: pos, Fn: fn, OK: true})
	f.Emit(&Event{Kind: "recv", Args: []*Term{ch, e.Zero(et)}, Pos: pos, Fn: fn, OK: false})
	f.Chan[ch] = "closed"
	return []*Outcome{{St: st, Kind: Ret, Rets: []*Term{Tuple(v, Bool(true))}}, {St: f, Kind: Ret, Rets: []*Term{Tuple(e.Zero(et), Bool(false))}}}
}

// ---- readers ----

// Stream is the content of reader r, Offset how far it has been consumed.
func (e *Engine) Stream(r *Term) *Term { return Sym("in:"+r.String(), tStr) }

func (e *Engine) Offset(st *State, r *Term) *Term {
	if o, ok := st.Off[r]; ok {
		return o
	}
	return Int(0)
}

func (e *Engine) readerOf(st *State, r *Term) *Term {
	r = st.Norm(r)
	for r.Op == OIface {
		r = r.Args[0]
	}
	return r
}

func (e *Engine) readFull(cc *CallCtx, r, buf *Term, name string) []*Outcome {
	st := cc.St
	n := e.LenOf(st, buf)
	f := st.Clone()
	off := e.Offset(st, r)
	e.WriteSlice(st, buf, Int(0), SubSeq(e.Stream(r), off, Add(off, n)), n)
	st.Off[r] = Add(off, n)
	st.Emit(&Event{Kind: "read", Name: name, Args: []*Term{r, n}, Pos: cc.Pos, Fn: cc.In, OK: true})
	er := f.Fresh("!err:"+name+"@"+cc.Site, errorType)
	m := f.Fresh("short@"+cc.Site, tInt)
	f.addLe(Scale(m, -1))
	f.addLe(AddK(Sub(m, n), 1))
	e.WriteSlice(f, buf, Int(0), f.Fresh("partial@"+cc.Site, tStr), n)
	f.Emit(&Event{Kind: "fail", Name: name, Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
	outs := []*Outcome{{St: st, Kind: Ret, Rets: []*Term{n, Nil()}}}
	if d := f.Decide(Le(n, Int(0))); d != 1 {
		outs = append(outs, &Outcome{St: f, Kind: Ret, Rets: []*Term{m, er}})
	}
	return outs
}

func (e *Engine) readSome(cc *CallCtx, r, buf *Term, min *Term, name string) []*Outcome {
	st := cc.St
	n := e.LenOf(st, buf)
	f := st.Clone()
	off := e.Offset(st, r)
	m := st.Fresh("nread@"+cc.Site, tInt)
	st.addLe(Sub(min, m))
	st.addLe(Sub(m, n))
	e.WriteSlice(st, buf, Int(0), SubSeq(e.Stream(r), off, Add(off, m)), m)
	st.Off[r] = Add(off, m)
	st.Emit(&Event{Kind: "read", Name: name, Args: []*Term{r, m}, Pos: cc.Pos, Fn: cc.In, OK: true})
	er := f.Fresh("!err:"+name+"@"+cc.Site, errorType)
	m2 := f.Fresh("short@"+cc.Site, tInt)
	f.Emit(&Event{Kind: "fail", Name: name, Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
	return []*Outcome{{St: st, Kind: Ret, Rets: []*Term{m, Nil()}}, {St: f, Kind: Ret, Rets: []*Term{m2, er}}}
}

func (e *Engine) readFixed(cc *CallCtx, r *Term, n *Term, name string, conv func(st *State, s *Term) []*Term, zero []*Term) []*Outcome {
	st := cc.St
	f := st.Clone()
	off := e.Offset(st, r)
	s := SubSeq(e.Stream(r), off, Add(off, n))
	st.Off[r] = Add(off, n)
	st.Emit(&Event{Kind: "read", Name: name, Args: []*Term{r, n}, Pos: cc.Pos, Fn: cc.In, OK: true})
	er := f.Fresh("!err:"+name+"@"+cc.Site, errorType)
	f.Emit(&Event{Kind: "fail", Name: name, Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
	return []*Outcome{{St: st, Kind: Ret, Rets: append(conv(st, s), Nil())}, {St: f, Kind: Ret, Rets: append(append([]*Term(nil), zero...), er)}}
}

// ---- writers ----

func (e *Engine) OutOf(st *State, w *Term) *Term {
	if o, ok := st.Out[w]; ok {
		return o
	}
	return Str("")
}

func (e *Engine) writeTo(cc *CallCtx, w, seq *Term, name string, fallible bool) []*Outcome {
	st := cc.St
	var f *State
	if fallible {
		f = st.Clone()
	}
	st.Out[w] = Cat(e.OutOf(st, w), seq)
	if fallible {
		st.Emit(&Event{Kind: "write", Name: name, Args: []*Term{w, e.Resolve(st, seq)}, Pos: cc.Pos, Fn: cc.In, OK: true})
	}
	outs := []*Outcome{{St: st, Kind: Ret, Rets: []*Term{Len(seq), Nil()}}}
	if fallible {
		er := f.Fresh("!err:"+name+"@"+cc.Site, errorType)
		f.Emit(&Event{Kind: "fail", Name: name, Args: []*Term{er, w}, Pos: cc.Pos, Fn: cc.In})
		outs = append(outs, &Outcome{St: f, Kind: Ret, Rets: []*Term{f.Fresh("short@"+cc.Site, tInt), er}})
	}
	return outs
}

func typeName(t types.Type) string { return typeKey(t) }

// isMemBuffer reports whether interface w wraps an in-memory buffer.
func isMemBuffer(t types.Type) bool {
	n := typeName(t)
	return n == "*bytes.Buffer" || n == "*strings.Builder"
}

func (e *Engine) writeIface(cc *CallCtx, w, seq *Term, name string) []*Outcome {
	w = cc.St.Norm(w)
	if w.Op == OIface {
		return e.writeTo(cc, w.Args[0], seq, name, !isMemBuffer(w.T))
	}
	return e.writeTo(cc, w, seq, name, true)
}

// ---- numbers and text ----

func Itoa(x *Term) *Term {
	if x.Op == OInt {
		return Str(strconv.FormatInt(x.K, 10))
	}
	if x.Is("atoi") && false {
		return x.Args[0]
	}
	return Call("itoa", tStr, x)
}

func Utoa(x *Term) *Term {
	if x.Op == OInt && x.K >= 0 || bitWidth(x) >= 0 {
		return Itoa(x)
	}
	return Call("utoa", tStr, x)
}

func Ftoa(f *Term, format string) *Term {
	return Call("ftoa:"+format, tStr, f)
}

func parseBool(st *State, name string, s *Term) *Term {
	return Call(name, tBool, s)
}

func (e *Engine) parse(cc *CallCtx, pred, fun string, t types.Type, s *Term, known func(*Term) (int, *Term)) []*Outcome {
	st := cc.St
	s = st.Norm(s)
	if d, v := known(s); d == 1 {
		return ret(st, v, Nil())
	}
	c := Call(pred, tBool, s)
	v := Call(fun, t, s)
	d := st.Decide(c)
	if d < 0 && pred == "isfloat" && st.Decide(Call("isint", tBool, s)) == 1 {
		d = 1
	}
	f := st
	var outs []*Outcome
	if d < 0 {
		f = st.Clone()
	}
	if d != 0 {
		if d == 1 || st.Assume(c, true) {
			outs = append(outs, &Outcome{St: st, Kind: Ret, Rets: []*Term{v, Nil()}})
		}
	}
	if d != 1 {
		if d == 0 || f.Assume(c, false) {
			er := f.Fresh("!err:"+fun+"@"+cc.Site, errorType)
			f.Emit(&Event{Kind: "fail", Name: fun, Args: []*Term{er, s}, Pos: cc.Pos, Fn: cc.In})
			outs = append(outs, &Outcome{St: f, Kind: Ret, Rets: []*Term{f.Fresh("badnum@"+cc.Site, t), er}})
		}
	}
	return outs
}

// fmtValue renders one formatted operand.
func (e *Engine) fmtValue(st *State, v *Term, verb byte) *Term {
	v = st.Norm(v)
	if v.Op != OIface {
		if verb == 'd' {
			return Call("fmt:d", tStr, v)
		}
		return Call("fmt:v", tStr, v)
	}
	x := st.Norm(v.Args[0])
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		if _, isNamed := types.Unalias(v.T).(*types.Named); isNamed && verb != 'd' {
			if obj, _, _ := types.LookupFieldOrMethod(v.T, true, nil, "String"); obj != nil {
				return Call("fmt:v", tStr, v)
			}
		}
		_, signed, isInt := intInfo(v.T)
		switch {
		case isInt && (verb == 'd' || verb == 'v') && signed:
			return Itoa(x)
		case isInt && (verb == 'd' || verb == 'v'):
			return Utoa(x)
		case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
			return x
		}
	}
	return Call("fmt:"+string(verb), tStr, v)
}

func (e *Engine) sprintf(st *State, format *Term, args *Term) *Term {
	if format.Op != OStr {
		return Call("sprintf", tStr, format, args)
	}
	var items []*Term
	n := Len(args)
	if n.Op == OInt {
		for i := int64(0); i < n.K; i++ {
			items = append(items, Elem(args, Int(i), emptyIface))
		}
	}
	f := format.S
	var out []*Term
	for i, k := 0, 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, Str(f[i:]))
			break
		}
		out = append(out, Str(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = append(out, Str("%"))
			i++
			continue
		}
		if strings.IndexByte("dsvqxwtc", f[i]) < 0 || k >= len(items) {
			return Call("sprintf", tStr, append([]*Term{format}, items...)...)
		}
		verb := f[i]
		if verb == 'w' {
			verb = 'v'
		}
		out = append(out, e.fmtValue(st, items[k], verb))
		k++
		i++
	}
	return Cat(out...)
}

// bytesLE returns the w bytes of integer v, least significant first.
func bytesLE(v *Term, w int) []*Term {
	var bs []*Term
	bv, ok := bitsOf(v)
	for i := 0; i < w; i++ {
		if ok {
			bs = append(bs, fromBits(bv.shr(8*i).trunc(8, false)))
		} else {
			bs = append(bs, Call("byte"+strconv.Itoa(i), tByte, Ring(v)))
		}
	}
	return bs
}

func wordBytes(s *Term, w int, little bool) *Term {
	var bs []*Term
	for i := 0; i < w; i++ {
		bs = append(bs, Elem(s, Int(int64(i)), tByte))
	}
	if !little {
		for i, j := 0, w-1; i < j; i, j = i+1, j-1 {
			bs[i], bs[j] = bs[j], bs[i]
		}
	}
	// the bytes of one value reassemble to it
	if len(bs) == w {
		same := true
		for i, b := range bs {
			same = same && b.Is("byte"+strconv.Itoa(i)) && b.Args[0] == bs[0].Args[0]
		}
		if same {
			return Conv(bs[0].Args[0], tUint64, wordType(w))
		}
	}
	return ByteWord(bs)
}

func wordType(w int) types.Type {
	switch w {
	case 2:
		return types.Typ[types.Uint16]
	case 4:
		return types.Typ[types.Uint32]
	}
	return tUint64
}

func putWord(v *Term, w int, little bool) *Term {
	bs := bytesLE(v, w)
	var ps []*Term
	for i := range bs {
		b := bs[i]
		if !little {
			b = bs[w-1-i]
		}
		ps = append(ps, ByteUnit(b))
	}
	return Cat(ps...)
}

func init() {
	callRules["itoa"] = func(a []*Term, t types.Type) *Term { return Itoa(a[0]) }
	callRules["utoa"] = func(a []*Term, t types.Type) *Term { return Utoa(a[0]) }
	callRules["atoi"] = func(a []*Term, t types.Type) *Term {
		if a[0].Is("itoa") || a[0].Is("utoa") {
			return a[0].Args[0]
		}
		return Call("atoi", t, a...)
	}
	lower := func(a []*Term, t types.Type) *Term { return Lower(a[0]) }
	callRules["lower"] = lower

	m := map[string]ModelFn{}
	stdModels = m

	// locks
	lockM := func(mode int) ModelFn {
		return func(cc *CallCtx) []*Outcome {
			st, l := cc.St, cc.St.Norm(cc.Args[0])
			if h := st.Locks[l]; h != 0 {
				st.Emit(&Event{Kind: "deadlock", Args: []*Term{l}, Pos: cc.Pos, Fn: cc.In})
			}
			if mode < 0 {
				st.Locks[l] = -1
			} else {
				st.Locks[l]++
			}
			st.Emit(&Event{Kind: map[bool]string{true: "lock", false: "rlock"}[mode < 0], Args: []*Term{l}, Pos: cc.Pos, Fn: cc.In})
			return ret(st)
		}
	}
	unlockM := func(mode int) ModelFn {
		return func(cc *CallCtx) []*Outcome {
			st, l := cc.St, cc.St.Norm(cc.Args[0])
			h := st.Locks[l]
			if (mode < 0) != (h < 0) || h == 0 {
				st.Emit(&Event{Kind: "badunlock", Args: []*Term{l}, Pos: cc.Pos, Fn: cc.In})
			}
			if mode < 0 || h <= 1 {
				delete(st.Locks, l)
			} else {
				st.Locks[l]--
			}
			st.Emit(&Event{Kind: "unlock", Args: []*Term{l}, Pos: cc.Pos, Fn: cc.In})
			return ret(st)
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		m["(*sync."+t+").Lock"] = lockM(-1)
		m["(*sync."+t+").Unlock"] = unlockM(-1)
	}
	m["(*sync.RWMutex).RLock"] = lockM(1)
	m["(*sync.RWMutex).RUnlock"] = unlockM(1)

	// sync.Map
	for _, op := range []string{"Load", "Store", "Delete", "LoadOrStore", "LoadAndDelete", "Range", "Swap", "Clear"} {
		op := op
		m["(*sync.Map)."+op] = func(cc *CallCtx) []*Outcome {
			o, _ := cc.E.dictOp(cc, cc.Args[0], op, cc.Args[1:])
			return o
		}
	}

	// time
	now := Sym("now", nil)
	m["time.Now"] = func(cc *CallCtx) []*Outcome {
		tt := cc.Sig.Results().At(0).Type()
		if now.T == nil {
			now = Sym("now", tt)
		}
		return ret(cc.St, Sym("now", tt))
	}
	tm := func(name string, f func(cc *CallCtx, a []*Term) *Term) {
		m[name] = func(cc *CallCtx) []*Outcome {
			var a []*Term
			for _, x := range cc.Args {
				a = append(a, cc.St.Norm(x))
			}
			return ret(cc.St, f(cc, a))
		}
	}
	tm("(time.Time).Before", func(cc *CallCtx, a []*Term) *Term { return Lt(a[0], a[1]) })
	tm("(time.Time).After", func(cc *CallCtx, a []*Term) *Term { return Lt(a[1], a[0]) })
	tm("(time.Time).Equal", func(cc *CallCtx, a []*Term) *Term { return Eq(a[0], a[1]) })
	tm("(time.Time).Sub", func(cc *CallCtx, a []*Term) *Term { return Sub(a[0], a[1]) })
	tm("(time.Time).Add", func(cc *CallCtx, a []*Term) *Term { return Add(a[0], a[1]) })
	same := func(cc *CallCtx, a []*Term) *Term { return a[0] }
	for _, n := range []string{"UTC", "Local", "Round", "In"} {
		if n != "Round" {
			tm("(time.Time)."+n, same)
		}
	}
	tm("(time.Time).UnixNano", same)
	tm("(time.Time).Unix", func(cc *CallCtx, a []*Term) *Term { return callRules["div"]([]*Term{a[0], Int(1e9)}, tInt64) })
	tm("(time.Time).UnixMilli", func(cc *CallCtx, a []*Term) *Term { return callRules["div"]([]*Term{a[0], Int(1e6)}, tInt64) })
	tm("time.Unix", func(cc *CallCtx, a []*Term) *Term { return Add(Scale(a[0], 1e9), a[1]) })
	tm("time.UnixMilli", func(cc *CallCtx, a []*Term) *Term { return Scale(a[0], 1e6) })
	tm("time.Since", func(cc *CallCtx, a []*Term) *Term { return Sub(Sym("now", timeT(cc)), a[0]) })
	tm("time.Until", func(cc *CallCtx, a []*Term) *Term { return Sub(a[0], Sym("now", timeT(cc))) })
	tm("(time.Duration).Milliseconds", func(cc *CallCtx, a []*Term) *Term { return callRules["div"]([]*Term{a[0], Int(1e6)}, tInt64) })
	tm("(time.Duration).Nanoseconds", same)
	ptr := func(kind string) ModelFn {
		return func(cc *CallCtx) []*Outcome {
			return ret(cc.St, cc.St.Fresh("!"+kind+"@"+cc.Site, cc.Sig.Results().At(0).Type()))
		}
	}
	m["time.NewTicker"], m["time.Tick"] = ptr("ticker"), ptr("ticker")
	m["time.NewTimer"], m["time.After"] = ptr("timer"), ptr("timer")
	m["(*time.Ticker).Stop"] = func(cc *CallCtx) []*Outcome { return ret(cc.St) }
	m["time.Sleep"] = func(cc *CallCtx) []*Outcome {
		cc.St.Emit(&Event{Kind: "sleep", Pos: cc.Pos, Fn: cc.In})
		return ret(cc.St)
	}
	m["context.Background"], m["context.TODO"] = ptr("ctx"), ptr("ctx")

	// strconv
	pure := func(name string, f func(e *Engine, st *State, a []*Term) *Term) {
		m[name] = func(cc *CallCtx) []*Outcome {
			var a []*Term
			for _, x := range cc.Args {
				a = append(a, cc.E.Content(cc.St, x))
			}
			return ret(cc.St, cc.St.Norm(f(cc.E, cc.St, a)))
		}
	}
	pure("strconv.Itoa", func(e *Engine, st *State, a []*Term) *Term { return Itoa(a[0]) })
	pure("strconv.FormatInt", func(e *Engine, st *State, a []*Term) *Term {
		if a[1].IsInt() && a[1].K == 10 {
			return Itoa(a[0])
		}
		return Call("formatint", tStr, a...)
	})
	pure("strconv.FormatUint", func(e *Engine, st *State, a []*Term) *Term {
		if a[1].IsInt() && a[1].K == 10 {
			return Utoa(a[0])
		}
		return Call("formatuint", tStr, a...)
	})
	pure("strconv.FormatFloat", func(e *Engine, st *State, a []*Term) *Term {
		return Ftoa(a[0], fmt.Sprintf("%s:%s:%s", a[1], a[2], a[3]))
	})
	m["strconv.AppendInt"] = func(cc *CallCtx) []*Outcome {
		if cc.Args[2].IsInt() && cc.Args[2].K == 10 {
			return ret(cc.St, cc.E.NewSlice(cc.St, cc.Site, Cat(cc.E.Content(cc.St, cc.Args[0]), Itoa(cc.St.Norm(cc.Args[1])))))
		}
		return cc.E.opaque(cc)
	}
	knownInt := func(s *Term) (int, *Term) {
		if s.Is("itoa") {
			return 1, s.Args[0]
		}
		if s.Op == OStr {
			if n, err := strconv.ParseInt(s.S, 10, 64); err == nil {
				return 1, Int(n)
			}
		}
		return 0, nil
	}
	m["strconv.Atoi"] = func(cc *CallCtx) []*Outcome {
		return cc.E.parse(cc, "isint", "atoi", tInt, cc.E.Content(cc.St, cc.Args[0]), knownInt)
	}
	m["strconv.ParseInt"] = func(cc *CallCtx) []*Outcome {
		b, w := cc.Args[1], cc.Args[2]
		s := cc.E.Content(cc.St, cc.Args[0])
		if b.IsInt() && b.K == 10 && w.IsInt() && (w.K == 64 || w.K == 0) {
			return cc.E.parse(cc, "isint", "atoi", tInt64, s, knownInt)
		}
		nm := fmt.Sprintf(":%s:%s", b, w)
		return cc.E.parse(cc, "isint"+nm, "atoi"+nm, tInt64, s, func(*Term) (int, *Term) { return 0, nil })
	}
	m["strconv.ParseUint"] = func(cc *CallCtx) []*Outcome {
		nm := fmt.Sprintf(":u%s:%s", cc.Args[1], cc.Args[2])
		return cc.E.parse(cc, "isint"+nm, "atoi"+nm, tUint64, cc.E.Content(cc.St, cc.Args[0]), func(*Term) (int, *Term) { return 0, nil })
	}
	m["strconv.ParseFloat"] = func(cc *CallCtx) []*Outcome {
		if w := cc.Args[1]; w.IsInt() && w.K == 32 {
			return cc.E.parse(cc, "isfloat32", "parsef32", tF64, cc.E.Content(cc.St, cc.Args[0]), func(*Term) (int, *Term) { return 0, nil })
		}
		return cc.E.parse(cc, "isfloat", "parsef", tF64, cc.E.Content(cc.St, cc.Args[0]), func(s *Term) (int, *Term) {
			if s.Op == OCall && strings.HasPrefix(s.S, "ftoa:") && strings.HasSuffix(s.S, ":-1:64") {
				return 1, s.Args[0]
			}
			if s.Is("itoa") {
				return 1, Call("i2f", tF64, s.Args[0])
			}
			return 0, nil
		})
	}

	// strings
	pure("strings.ToLower", func(e *Engine, st *State, a []*Term) *Term { return Lower(a[0]) })
	pure("bytes.ToLower", func(e *Engine, st *State, a []*Term) *Term { return Lower(a[0]) })
	pure("strings.EqualFold", func(e *Engine, st *State, a []*Term) *Term { return Eq(Lower(a[0]), Lower(a[1])) })
	pure("strings.HasPrefix", func(e *Engine, st *State, a []*Term) *Term { return HasPrefix(a[0], a[1]) })
	pure("bytes.HasPrefix", func(e *Engine, st *State, a []*Term) *Term { return HasPrefix(a[0], a[1]) })
	pure("bytes.Equal", func(e *Engine, st *State, a []*Term) *Term { return Eq(a[0], a[1]) })
	pure("strings.Compare", func(e *Engine, st *State, a []*Term) *Term { return Call("strcmp", tInt, a...) })
	pure("strings.TrimRight", func(e *Engine, st *State, a []*Term) *Term { return Call("trimright", tStr, a...) })
	pure("bytes.TrimRight", func(e *Engine, st *State, a []*Term) *Term { return Call("trimright", tStr, a...) })
	pure("strings.TrimSuffix", func(e *Engine, st *State, a []*Term) *Term { return Call("trimsuffix", tStr, a...) })
	pure("strings.Join", func(e *Engine, st *State, a []*Term) *Term { return JoinSeq(a[0], a[1]) })
	pure("strings.Repeat", func(e *Engine, st *State, a []*Term) *Term {
		if a[0].Op == OStr && len(a[0].S) == 1 {
			return Rep(Int(int64(a[0].S[0])), a[1])
		}
		return Call("repeat", tStr, a...)
	})
	m["bytes.Repeat"] = func(cc *CallCtx) []*Outcome {
		a := cc.E.Content(cc.St, cc.Args[0])
		if a.Op == OStr && len(a.S) == 1 {
			return ret(cc.St, cc.E.NewSlice(cc.St, cc.Site, Rep(Int(int64(a.S[0])), cc.Args[1])))
		}
		return cc.E.opaque(cc)
	}

	// errors and formatting
	newErr := func(cc *CallCtx) []*Outcome { return ret(cc.St, cc.E.builtinErr(cc, cc.Name)) }
	m["errors.New"], m["fmt.Errorf"] = newErr, newErr
	m["errors.Is"] = func(cc *CallCtx) []*Outcome { return ret(cc.St, Eq(cc.St.Norm(cc.Args[0]), cc.St.Norm(cc.Args[1]))) }
	m["fmt.Sprintf"] = func(cc *CallCtx) []*Outcome {
		return ret(cc.St, cc.E.sprintf(cc.St, cc.St.Norm(cc.Args[0]), cc.E.Content(cc.St, cc.Args[1])))
	}
	m["fmt.Sprint"] = func(cc *CallCtx) []*Outcome {
		a := cc.E.Content(cc.St, cc.Args[0])
		if n := Len(a); n.Op == OInt && n.K == 1 {
			return ret(cc.St, cc.E.fmtValue(cc.St, Elem(a, Int(0), emptyIface), 'v'))
		}
		return ret(cc.St, Call("sprint", tStr, a))
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		m[n] = func(cc *CallCtx) []*Outcome { return ret(cc.St, Int(0), Nil()) }
	}
	exit := func(cc *CallCtx) []*Outcome {
		cc.St.Emit(&Event{Kind: "exit", Name: cc.Name, Pos: cc.Pos, Fn: cc.In})
		return []*Outcome{{St: cc.St, Kind: Exit, Val: Str(cc.Name), Pos: cc.Pos}}
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit"} {
		m[n] = exit
	}

	// bufio.Reader
	rd := func(name string, f func(cc *CallCtx, r *Term) []*Outcome) {
		m["(*bufio.Reader)."+name] = func(cc *CallCtx) []*Outcome { return f(cc, cc.E.readerOf(cc.St, cc.Args[0])) }
	}
	rd("ReadByte", func(cc *CallCtx, r *Term) []*Outcome {
		return cc.E.readFixed(cc, r, Int(1), "ReadByte", func(st *State, s *Term) []*Term {
			return []*Term{Elem(s, Int(0), tByte)}
		}, []*Term{Int(0)})
	})
	rd("Read", func(cc *CallCtx, r *Term) []*Outcome { return cc.E.readSome(cc, r, cc.Args[1], Int(0), "Read") })
	rd("Discard", func(cc *CallCtx, r *Term) []*Outcome {
		n := cc.St.Norm(cc.Args[1])
		return cc.E.readFixed(cc, r, n, "Discard", func(st *State, s *Term) []*Term { return []*Term{n} }, []*Term{Int(0)})
	})
	rd("UnreadByte", func(cc *CallCtx, r *Term) []*Outcome {
		cc.St.Off[r] = AddK(cc.E.Offset(cc.St, r), -1)
		cc.St.Emit(&Event{Kind: "unread", Args: []*Term{r}, Pos: cc.Pos, Fn: cc.In})
		return ret(cc.St, Nil())
	})
	rd("Peek", func(cc *CallCtx, r *Term) []*Outcome {
		n := cc.St.Norm(cc.Args[1])
		off := cc.E.Offset(cc.St, r)
		f := cc.St.Clone()
		s := cc.E.NewSlice(cc.St, cc.Site, SubSeq(cc.E.Stream(r), off, Add(off, n)))
		er := f.Fresh("!err:Peek@"+cc.Site, errorType)
		f.Emit(&Event{Kind: "fail", Name: "Peek", Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
		return []*Outcome{{St: cc.St, Kind: Ret, Rets: []*Term{s, Nil()}}, {St: f, Kind: Ret, Rets: []*Term{Nil(), er}}}
	})
	rd("Buffered", func(cc *CallCtx, r *Term) []*Outcome {
		n := cc.St.Fresh("buffered@"+cc.Site, tInt)
		cc.St.addLe(Scale(n, -1))
		return ret(cc.St, n)
	})
	readDelim := func(asBytes bool) func(cc *CallCtx, r *Term) []*Outcome {
		return func(cc *CallCtx, r *Term) []*Outcome {
			st := cc.St
			f := st.Clone()
			off := cc.E.Offset(st, r)
			in := cc.E.Stream(r)
			end := Call("delim", tInt, in, off, cc.St.Norm(cc.Args[1]))
			st.addLe(AddK(Sub(off, end), 1))
			s := SubSeq(in, off, end)
			st.Off[r] = end
			st.Emit(&Event{Kind: "read", Name: "ReadString", Args: []*Term{r, Sub(end, off)}, Pos: cc.Pos, Fn: cc.In, OK: true})
			var v *Term = s
			if asBytes {
				v = cc.E.NewSlice(st, cc.Site, s)
			}
			er := f.Fresh("!err:ReadString@"+cc.Site, errorType)
			f.Emit(&Event{Kind: "fail", Name: "ReadString", Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
			return []*Outcome{{St: st, Kind: Ret, Rets: []*Term{v, Nil()}}, {St: f, Kind: Ret, Rets: []*Term{f.Fresh("partial@"+cc.Site, tStr), er}}}
		}
	}
	rd("ReadString", readDelim(false))
	rd("ReadBytes", readDelim(true))
	rd("ReadLine", func(cc *CallCtx, r *Term) []*Outcome {
		st := cc.St
		f := st.Clone()
		off := cc.E.Offset(st, r)
		in := cc.E.Stream(r)
		pre := st.Fresh("isPrefix@"+cc.Site, tBool)
		s := Call("rline", tStr, in, off, pre)
		st.Off[r] = Call("rlend", tInt, in, off, pre)
		st.addLe(AddK(Sub(off, st.Off[r]), 1))
		st.Emit(&Event{Kind: "read", Name: "ReadLine", Args: []*Term{r, pre}, Pos: cc.Pos, Fn: cc.In, OK: true})
		v := cc.E.NewSlice(st, cc.Site, s)
		er := f.Fresh("!err:ReadLine@"+cc.Site, errorType)
		f.Emit(&Event{Kind: "fail", Name: "ReadLine", Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
		return []*Outcome{{St: st, Kind: Ret, Rets: []*Term{v, pre, Nil()}}, {St: f, Kind: Ret, Rets: []*Term{Nil(), Bool(false), er}}}
	})
	wrap := func(kind string) ModelFn {
		return func(cc *CallCtx) []*Outcome {
			a := mk(Term{Op: OAlloc, S: cc.St.Fresh(kind+"@"+cc.Site, nil).S, T: cc.Sig.Results().At(0).Type()})
			cc.St.Mem[Call("under", nil, a)] = cc.St.Norm(cc.Args[0])
			cc.St.Emit(&Event{Kind: "wrap", Name: kind, Args: []*Term{a, cc.St.Norm(cc.Args[0])}, Pos: cc.Pos, Fn: cc.In})
			return ret(cc.St, a)
		}
	}
	m["bufio.NewReader"], m["bufio.NewReaderSize"] = wrap("reader"), wrap("reader")
	m["bufio.NewWriter"], m["bufio.NewWriterSize"] = wrap("writer"), wrap("writer")
	m["io.ReadFull"] = func(cc *CallCtx) []*Outcome {
		return cc.E.readFull(cc, cc.E.readerOf(cc.St, cc.Args[0]), cc.Args[1], "ReadFull")
	}
	m["io.ReadAtLeast"] = func(cc *CallCtx) []*Outcome {
		n := cc.St.Norm(cc.Args[2])
		if n == cc.E.LenOf(cc.St, cc.Args[1]) {
			return cc.E.readFull(cc, cc.E.readerOf(cc.St, cc.Args[0]), cc.Args[1], "ReadAtLeast")
		}
		return cc.E.readSome(cc, cc.E.readerOf(cc.St, cc.Args[0]), cc.Args[1], n, "ReadAtLeast")
	}
	// copying up to n bytes (all of the stream for n nil); short copies are
	// errors if exact
	copyN := func(cc *CallCtx, src, n *Term, exact bool, name string) []*Outcome {
		var outs []*Outcome
		base := cc.St
		add := func(st *State, got *Term, exact bool) {
			r := cc.E.readerOf(st, src)
			off := cc.E.Offset(st, r)
			sub := *cc
			sub.St = st
			s := SubSeq(cc.E.Stream(r), off, Add(off, got))
			f := st.Clone()
			st.Off[r] = Add(off, got)
			st.Emit(&Event{Kind: "read", Name: name, Args: []*Term{r, got}, Pos: cc.Pos, Fn: cc.In, OK: true})
			for _, o := range cc.E.writeIface(&sub, cc.Args[0], s, name) {
				if o.Rets[1].IsNil() {
					o.Rets[0] = got
				}
				outs = append(outs, o)
			}
			er := f.Fresh("!err:"+name+"@"+cc.Site, errorType)
			m := f.Fresh("short@"+cc.Site, tInt)
			f.addLe(Scale(m, -1))
			f.Emit(&Event{Kind: "fail", Name: "Read" + name, Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
			outs = append(outs, &Outcome{St: f, Kind: Ret, Rets: []*Term{m, er}})
		}
		if n == nil {
			m := base.Fresh("rest@"+cc.Site, tInt)
			base.addLe(Scale(m, -1))
			add(base, m, true)
			return outs
		}
		if z := base.Clone(); z.Assume(Le(n, Int(0)), true) {
			outs = append(outs, &Outcome{St: z, Kind: Ret, Rets: []*Term{Int(0), Nil()}})
		}
		if !base.Assume(Le(n, Int(0)), false) {
			return outs
		}
		if !exact {
			s := base.Clone()
			m := s.Fresh("some@"+cc.Site, tInt)
			s.addLe(Scale(m, -1))
			s.addLe(AddK(Sub(m, n), 1))
			add(s, m, false)
		}
		add(base, n, exact)
		return outs
	}
	m["io.CopyN"] = func(cc *CallCtx) []*Outcome {
		return copyN(cc, cc.St.Norm(cc.Args[1]), cc.St.Norm(cc.Args[2]), true, "CopyN")
	}
	m["io.LimitReader"] = func(cc *CallCtx) []*Outcome {
		return ret(cc.St, Call("limited", cc.Sig.Results().At(0).Type(), cc.St.Norm(cc.Args[0]), cc.St.Norm(cc.Args[1])))
	}
	m["io.Copy"] = func(cc *CallCtx) []*Outcome {
		src := cc.St.Norm(cc.Args[1])
		if src.Is("limited") {
			return copyN(cc, src.Args[0], src.Args[1], false, "Copy")
		}
		return copyN(cc, src, nil, true, "Copy")
	}
	m["io.CopyBuffer"] = m["io.Copy"]
	all := func(cc *CallCtx) []*Outcome {
		st := cc.St
		src := st.Norm(cc.Args[0])
		var outs []*Outcome
		add := func(st *State, r, got *Term) {
			off := cc.E.Offset(st, r)
			st.Off[r] = Add(off, got)
			st.Emit(&Event{Kind: "read", Name: "ReadAll", Args: []*Term{r, got}, Pos: cc.Pos, Fn: cc.In, OK: true})
			outs = append(outs, &Outcome{St: st, Kind: Ret, Rets: []*Term{cc.E.NewSlice(st, cc.Site, SubSeq(cc.E.Stream(r), off, Add(off, got))), Nil()}})
		}
		f := st.Clone()
		er := f.Fresh("!err:ReadAll@"+cc.Site, errorType)
		f.Emit(&Event{Kind: "fail", Name: "ReadAll", Args: []*Term{er}, Pos: cc.Pos, Fn: cc.In})
		outs = append(outs, &Outcome{St: f, Kind: Ret, Rets: []*Term{f.Fresh("partial@"+cc.Site, cc.Sig.Results().At(0).Type()), er}})
		if !src.Is("limited") {
			m := st.Fresh("rest@"+cc.Site, tInt)
			st.addLe(Scale(m, -1))
			add(st, cc.E.readerOf(st, src), m)
			return outs
		}
		r, n := cc.E.readerOf(st, src.Args[0]), src.Args[1]
		if z := st.Clone(); z.Assume(Le(n, Int(0)), true) {
			add(z, r, Int(0))
		}
		if st.Assume(Le(n, Int(0)), false) {
			s := st.Clone()
			m := s.Fresh("some@"+cc.Site, tInt)
			s.addLe(Scale(m, -1))
			s.addLe(AddK(Sub(m, n), 1))
			add(s, r, m)
			add(st, r, n)
		}
		return outs
	}
	m["io.ReadAll"], m["io/ioutil.ReadAll"] = all, all
	m["io.WriteString"] = func(cc *CallCtx) []*Outcome {
		return cc.E.writeIface(cc, cc.Args[0], cc.St.Norm(cc.Args[1]), "WriteString")
	}
	m["fmt.Fprintf"] = func(cc *CallCtx) []*Outcome {
		return cc.E.writeIface(cc, cc.Args[0], cc.E.sprintf(cc.St, cc.St.Norm(cc.Args[1]), cc.E.Content(cc.St, cc.Args[2])), "Fprintf")
	}
	m["fmt.Fprint"] = func(cc *CallCtx) []*Outcome {
		a := cc.E.Content(cc.St, cc.Args[1])
		s := Call("sprint", tStr, a)
		if n := Len(a); n.Op == OInt && n.K == 1 {
			s = cc.E.fmtValue(cc.St, Elem(a, Int(0), emptyIface), 'v')
		}
		return cc.E.writeIface(cc, cc.Args[0], s, "Fprint")
	}

	// writers and buffers
	for _, t := range []struct {
		n    string
		fall bool
	}{{"(*bufio.Writer).", true}, {"(*bytes.Buffer).", false}, {"(*strings.Builder).", false}, {"(*os.File).", true}} {
		t := t
		m[t.n+"Write"] = func(cc *CallCtx) []*Outcome {
			return cc.E.writeTo(cc, cc.St.Norm(cc.Args[0]), cc.E.Content(cc.St, cc.Args[1]), "Write", t.fall)
		}
		m[t.n+"WriteString"] = m[t.n+"Write"]
		m[t.n+"WriteByte"] = func(cc *CallCtx) []*Outcome {
			os := cc.E.writeTo(cc, cc.St.Norm(cc.Args[0]), ByteUnit(cc.St.Norm(cc.Args[1])), "WriteByte", t.fall)
			for _, o := range os {
				o.Rets = o.Rets[1:]
			}
			return os
		}
		m[t.n+"WriteRune"] = func(cc *CallCtx) []*Outcome {
			v := cc.St.Norm(cc.Args[1])
			s := Call("rune2str", tStr, v)
			if v.IsInt() {
				s = Str(string(rune(v.K)))
			}
			return cc.E.writeTo(cc, cc.St.Norm(cc.Args[0]), s, "WriteRune", t.fall)
		}
	}
	for _, n := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		m[n+"String"] = func(cc *CallCtx) []*Outcome { return ret(cc.St, cc.E.OutOf(cc.St, cc.St.Norm(cc.Args[0]))) }
		m[n+"Len"] = func(cc *CallCtx) []*Outcome { return ret(cc.St, Len(cc.E.OutOf(cc.St, cc.St.Norm(cc.Args[0])))) }
		m[n+"Grow"] = func(cc *CallCtx) []*Outcome { return ret(cc.St) }
		m[n+"Reset"] = func(cc *CallCtx) []*Outcome { cc.St.Out[cc.St.Norm(cc.Args[0])] = Str(""); return ret(cc.St) }
		m[n+"Bytes"] = func(cc *CallCtx) []*Outcome {
			return ret(cc.St, cc.E.NewSlice(cc.St, cc.Site, cc.E.OutOf(cc.St, cc.St.Norm(cc.Args[0]))))
		}
	}
	m["(*bufio.Writer).Reset"] = func(cc *CallCtx) []*Outcome {
		w := cc.St.Norm(cc.Args[0])
		cc.St.Out[w] = Str("")
		cc.St.Mem[Call("under", nil, w)] = cc.St.Norm(cc.Args[1])
		return ret(cc.St)
	}
	m["(*bufio.Writer).Buffered"] = func(cc *CallCtx) []*Outcome {
		n := cc.St.Fresh("buffered@"+cc.Site, tInt)
		cc.St.addLe(Scale(n, -1))
		return ret(cc.St, n)
	}
	m["(*bufio.Writer).Available"], m["(*bufio.Writer).Size"] = m["(*bufio.Writer).Buffered"], m["(*bufio.Writer).Buffered"]
	m["(*bufio.Writer).Flush"] = func(cc *CallCtx) []*Outcome {
		w := cc.St.Norm(cc.Args[0])
		f := cc.St.Clone()
		cc.St.Emit(&Event{Kind: "flush", Args: []*Term{w}, Pos: cc.Pos, Fn: cc.In, OK: true})
		er := f.Fresh("!err:Flush@"+cc.Site, errorType)
		f.Emit(&Event{Kind: "fail", Name: "Flush", Args: []*Term{er, w}, Pos: cc.Pos, Fn: cc.In})
		return []*Outcome{{St: cc.St, Kind: Ret, Rets: []*Term{Nil()}}, {St: f, Kind: Ret, Rets: []*Term{er}}}
	}

	// encoding/binary
	for _, little := range []bool{true, false} {
		little := little
		n := "(encoding/binary.bigEndian)."
		if little {
			n = "(encoding/binary.littleEndian)."
		}
		for _, w := range []int{2, 4, 8} {
			w := w
			m[fmt.Sprintf("%sUint%d", n, 8*w)] = func(cc *CallCtx) []*Outcome {
				s := cc.E.Content(cc.St, cc.Args[1])
				return withBound(cc, s, w, func(st *State) []*Outcome { return ret(st, st.Norm(wordBytes(s, w, little))) })
			}
			m[fmt.Sprintf("%sPutUint%d", n, 8*w)] = func(cc *CallCtx) []*Outcome {
				s := cc.E.Content(cc.St, cc.Args[1])
				return withBound(cc, s, w, func(st *State) []*Outcome {
					cc.E.WriteSlice(st, cc.Args[1], Int(0), putWord(st.Norm(cc.Args[2]), w, little), Int(int64(w)))
					return ret(st)
				})
			}
			m[fmt.Sprintf("%sAppendUint%d", n, 8*w)] = func(cc *CallCtx) []*Outcome {
				return ret(cc.St, cc.E.NewSlice(cc.St, cc.Site, Cat(cc.E.Content(cc.St, cc.Args[1]), putWord(cc.St.Norm(cc.Args[2]), w, little))))
			}
		}
	}
	order := func(t *Term) (bool, bool) {
		if t.Op == OIface {
			switch typeName(t.T) {
			case "encoding/binary.littleEndian":
				return true, true
			case "encoding/binary.bigEndian":
				return false, true
			}
		}
		return false, false
	}
	m["encoding/binary.Write"] = func(cc *CallCtx) []*Outcome {
		little, ok := order(cc.St.Norm(cc.Args[1]))
		v := cc.St.Norm(cc.Args[2])
		if ok && v.Op == OIface {
			if w, _, isI := intInfo(v.T); isI {
				os := cc.E.writeIface(cc, cc.Args[0], putWord(v.Args[0], w/8, little), "binary.Write")
				for _, o := range os {
					o.Rets = o.Rets[1:]
				}
				return os
			}
		}
		return cc.E.opaque(cc)
	}
	m["encoding/binary.Read"] = func(cc *CallCtx) []*Outcome {
		little, ok := order(cc.St.Norm(cc.Args[1]))
		v := cc.St.Norm(cc.Args[2])
		if ok && v.Op == OIface {
			if pt, isP := v.T.Underlying().(*types.Pointer); isP {
				w, signed, isI := intInfo(pt.Elem())
				fl := false
				if !isI && isFloatType(pt.Elem()) {
					w, isI, fl = 64, true, true
				}
				if isI {
					r := cc.E.readerOf(cc.St, cc.Args[0])
					return cc.E.readFixed(cc, r, Int(int64(w/8)), "binary.Read", func(st *State, s *Term) []*Term {
						x := wordBytes(s, w/8, little)
						if fl {
							x = Call("f64bits", tF64, x)
						} else if signed {
							if bv, ok := bitsOf(x); ok {
								x = fromBits(bv.trunc(w, true))
							}
						}
						cc.E.Store(st, v.Args[0], x, pt.Elem())
						return nil
					}, nil)
				}
			}
		}
		return cc.E.opaque(cc)
	}

	pure("math.Inf", func(e *Engine, st *State, a []*Term) *Term {
		if a[0].IsInt() {
			if a[0].K >= 0 {
				return Call("+Inf", tF64)
			}
			return Call("-Inf", tF64)
		}
		return Call("inf", tF64, a...)
	})
	pure("math.NaN", func(e *Engine, st *State, a []*Term) *Term { return Call("NaN", tF64) })
	pure("math.Float64frombits", func(e *Engine, st *State, a []*Term) *Term { return Call("f64bits", tF64, a[0]) })

	// operating system and network
	m["net.Dial"] = func(cc *CallCtx) []*Outcome {
		return cc.E.forkErr(cc, "dial", func(st *State) []*Term {
			c := st.Fresh("!netconn@"+cc.Site, cc.Sig.Results().At(0).Type())
			st.Emit(&Event{Kind: "dial", Args: []*Term{c, cc.Args[1]}, Pos: cc.Pos, Fn: cc.In})
			return []*Term{c, Nil()}
		})
	}
	m["net.DialTimeout"] = m["net.Dial"]
	open := func(cc *CallCtx) []*Outcome {
		return cc.E.forkErr(cc, "open", func(st *State) []*Term {
			c := st.Fresh("!file@"+cc.Site, cc.Sig.Results().At(0).Type())
			st.Emit(&Event{Kind: "open", Name: cc.Name, Args: append([]*Term{c}, cc.Args...), Pos: cc.Pos, Fn: cc.In})
			return []*Term{c, Nil()}
		})
	}
	m["os.OpenFile"], m["os.Open"], m["os.Create"] = open, open, open
	m["(*os.File).Sync"] = func(cc *CallCtx) []*Outcome { return cc.E.forkErr(cc, "File.Sync", nil) }
	m["(*os.File).Close"] = func(cc *CallCtx) []*Outcome {
		cc.St.Emit(&Event{Kind: "close.file", Args: []*Term{cc.St.Norm(cc.Args[0])}, Pos: cc.Pos, Fn: cc.In})
		return cc.E.forkErr(cc, "File.Close", nil)
	}
}

func timeT(cc *CallCtx) types.Type {
	if cc.Sig.Params().Len() > 0 {
		return cc.Sig.Params().At(0).Type()
	}
	return nil
}

func withBound(cc *CallCtx, s *Term, w int, f func(st *State) []*Outcome) []*Outcome {
	st := cc.St
	ok := Le(Int(int64(w)), Len(s))
	cc.E.Stats.Oblig++
	d := st.Decide(ok)
	if d == 1 {
		cc.E.Stats.Proved++
		return f(st)
	}
	var outs []*Outcome
	if cc.E.ForkPanic || d == 0 {
		q := st.Clone()
		if d == 0 || q.Assume(ok, false) {
			q.Emit(&Event{Kind: "maypanic", Name: "index out of range", Args: []*Term{ok}, Pos: cc.Pos, Fn: cc.In})
			outs = append(outs, &Outcome{St: q, Kind: Pan, Val: Str("index out of range"), Pos: cc.Pos})
		}
	}
	if d != 0 {
		st.Emit(&Event{Kind: "maypanic", Name: "index out of range", Args: []*Term{ok}, Pos: cc.Pos, Fn: cc.In})
		if st.Assume(ok, true) {
			outs = append(outs, f(st)...)
		}
	}
	return outs
}

// Lower is the lower-cased string s.
func Lower(s *Term) *Term {
	if s.Op == OStr {
		return Str(strings.ToLower(s.S))
	}
	if s.Is("lower") || s.Is("itoa") {
		return s
	}
	return Call("lower", tStr, s)
}

func HasPrefix(s, p *Term) *Term {
	if s.Op == OStr && p.Op == OStr {
		return Bool(strings.HasPrefix(s.S, p.S))
	}
	return Call("hasprefix", tBool, s, p)
}

func JoinSeq(s, sep *Term) *Term {
	if s.Op == OStr && s.S == "" {
		return s
	}
	if s.Op == OUnit {
		return s.Args[0]
	}
	return Call("join", tStr, s, sep)
}

// Pointed is the place in memory an argument of a C function points to.
func Pointed(a *Term) *Term {
	for a.Op == OCall && len(a.Args) == 1 {
		a = a.Args[0]
	}
	if a.Op == OIndex {
		return a
	}
	return nil
}

func modelCgo(cc *CallCtx) []*Outcome {
	name := cc.Fn.Name()
	if strings.HasPrefix(name, "_cgoCheck") || strings.HasPrefix(name, "_cgo_") {
		return ret(cc.St, cc.E.Zero(cc.Sig.Results()).Args...)
	}
	// the buffers it is given: how they are, and that it may write through them
	ev := &Event{Kind: "cgo", Name: strings.TrimPrefix(name, "_Cfunc_"), Args: cc.Args, Pos: cc.Pos, Fn: cc.In}
	bufs := map[*Term]*Term{}
	for _, a := range cc.Args {
		p := Pointed(a)
		if p == nil {
			ev.Res = append(ev.Res, a)
			continue
		}
		c := cc.E.Arr(cc.St, p.Args[0])
		bufs[p.Args[0]] = c
		ev.Res = append(ev.Res, SubSeq(c, p.Args[1], Len(c)))
	}
	cc.St.Emit(ev)
	for _, a := range cc.Args {
		if p := Pointed(a); p != nil {
			cc.St.Mem[p.Args[0]] = SubSeq(Sym("cout:"+p.String(), tStr), Int(0), Len(bufs[p.Args[0]]))
		}
	}
	var rs []*Term
	for i := 0; i < cc.Sig.Results().Len(); i++ {
		rs = append(rs, Call("cret:"+strings.TrimPrefix(name, "_Cfunc_"), cc.Sig.Results().At(i).Type(), cc.Args...))
	}
	return ret(cc.St, rs...)
}

func prefixModel(name string) ModelFn {
	short := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.Contains(name, "github.com/sirupsen/logrus") || strings.HasPrefix(name, "log."):
		switch {
		case strings.HasPrefix(short, "Fatal") || short == "Exit":
			return stdModels["os.Exit"]
		case strings.HasPrefix(short, "Panic"):
			return func(cc *CallCtx) []*Outcome {
				cc.St.Emit(&Event{Kind: "panic", Name: cc.Name, Pos: cc.Pos, Fn: cc.In})
				return []*Outcome{{St: cc.St, Kind: Pan, Val: Str(cc.Name), Pos: cc.Pos}}
			}
		}
		return func(cc *CallCtx) []*Outcome {
			cc.St.Emit(&Event{Kind: "log", Name: cc.Name, Pos: cc.Pos, Fn: cc.In})
			var rs []*Term
			for i := 0; i < cc.Sig.Results().Len(); i++ {
				rs = append(rs, cc.St.Fresh("!log@"+cc.Site, cc.Sig.Results().At(i).Type()))
			}
			return ret(cc.St, rs...)
		}
	case strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "unicode") ||
		strings.HasPrefix(name, "strconv.Quote") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "math/bits.") ||
		strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "path"):
		return func(cc *CallCtx) []*Outcome {
			if n := cc.Sig.Results().Len(); n > 0 && types.Identical(cc.Sig.Results().At(n-1).Type(), errorType) {
				return cc.E.opaque(cc)
			}
			var a []*Term
			for _, x := range cc.Args {
				a = append(a, cc.E.Resolve(cc.St, x))
			}
			var rs []*Term
			for i := 0; i < cc.Sig.Results().Len(); i++ {
				rs = append(rs, Call(fmt.Sprintf("%s#%d", cc.Name, i), cc.Sig.Results().At(i).Type(), a...))
			}
			return ret(cc.St, rs...)
		}
	}
	return nil
}

// stdInvoke models method calls on interfaces of unknown dynamic type.
func (e *Engine) stdInvoke(cc *CallCtx, recv *Term, m *types.Func) []*Outcome {
	st := cc.St
	sig := m.Type().(*types.Signature)
	cc.Sig = sig
	full := m.FullName()
	switch full {
	case "(error).Error":
		return ret(st, Call("errstr", tStr, recv))
	case "(io.Writer).Write", "(net.Conn).Write":
		return e.writeTo(cc, recv, e.Content(st, cc.Args[1]), "Write", true)
	case "(io.Reader).Read", "(net.Conn).Read":
		return e.readSome(cc, recv, cc.Args[1], Int(0), "Read")
	case "(net.Conn).Close", "(io.Closer).Close":
		st.Emit(&Event{Kind: "close.conn", Args: []*Term{recv}, Pos: cc.Pos, Fn: cc.In})
		return e.forkErr(cc, "Conn.Close", nil)
	case "(sync.Locker).Lock":
		return stdModels["(*sync.Mutex).Lock"](cc)
	case "(sync.Locker).Unlock":
		return stdModels["(*sync.Mutex).Unlock"](cc)
	case "(encoding/binary.ByteOrder).Uint16":
	}
	n := sig.Results().Len()
	if sig.Params().Len() == 0 && n > 0 && !types.Identical(sig.Results().At(n-1).Type(), errorType) {
		var rs []*Term
		for i := 0; i < n; i++ {
			nm := "m:" + m.Name()
			if n > 1 {
				nm += strconv.Itoa(i)
			}
			rs = append(rs, st.Norm(Call(nm, sig.Results().At(i).Type(), recv)))
		}
		return ret(st, rs...)
	}
	st.Emit(&Event{Kind: "invoke", Name: full, Args: e.resolveAll(st, cc.Args), Pos: cc.Pos, Fn: cc.In})
	return e.forkErr(cc, full, nil)
}

var _ = constant.MakeInt64
