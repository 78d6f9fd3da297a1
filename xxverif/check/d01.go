package check

import (
	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() {
	registry["D01"] = checkD01
	registry["D02"] = checkD02
}

func byteAt(in, at *ai.Term, i int64) *ai.Term { return ai.Elem(in, ai.AddK(at, i), tByte) }

// bytesAt are n consecutive bytes, in the order of significance asked for
// (least significant first).
func bytesAt(in, at *ai.Term, n int, little bool) []*ai.Term {
	bs := make([]*ai.Term, n)
	for i := range bs {
		j := i
		if !little {
			j = n - 1 - i
		}
		bs[i] = byteAt(in, at, int64(j))
	}
	return bs
}

// A form is one way a byte (or all bytes of a class) continues.
type form struct {
	name    string
	lo, hi  int // the values of the leading byte
	val     func(in, at *ai.Term) *ai.Term
	size    int64
	encoded bool
}

// lenForms are the length headers of the snapshot format.
var lenForms = []form{
	{"6-bit length", 0x00, 0x3f, func(in, at *ai.Term) *ai.Term { return ai.LowBits(byteAt(in, at, 0), 6) }, 1, false},
	{"14-bit length", 0x40, 0x7f, func(in, at *ai.Term) *ai.Term {
		return ai.ByteWord([]*ai.Term{byteAt(in, at, 1), ai.LowBits(byteAt(in, at, 0), 6)})
	}, 2, false},
	{"32-bit length", 0x80, 0x80, func(in, at *ai.Term) *ai.Term { return ai.ByteWord(bytesAt(in, ai.AddK(at, 1), 4, false)) }, 5, false},
	{"64-bit length", 0x81, 0x81, func(in, at *ai.Term) *ai.Term { return ai.ByteWord(bytesAt(in, ai.AddK(at, 1), 8, false)) }, 9, false},
	{"special encoding", 0xc0, 0xff, func(in, at *ai.Term) *ai.Term { return ai.LowBits(byteAt(in, at, 0), 6) }, 1, true},
}

// admits: which values between lo and hi the path leaves for a byte.
func admits(st *ai.State, leaf *ai.Term, lo, hi int) (vs []int) {
	s := st.ByteSet(leaf)
	for _, v := range s.Values() {
		if v >= lo && v <= hi {
			vs = append(vs, v)
		}
	}
	return vs
}

// agree tells whether two terms are equal on a path for all the given values
// of a byte.
func agree(st *ai.State, leaf *ai.Term, vs []int, a, b *ai.Term) bool {
	a, b = ai.Ring(st.Norm(a)), ai.Ring(st.Norm(b))
	if a == b || equalTo(st, a, b) {
		return true
	}
	for _, v := range vs {
		m := map[*ai.Term]*ai.Term{leaf: ai.Int(int64(v))}
		x, y := ai.Ring(ai.Subst(a, m)), ai.Ring(ai.Subst(b, m))
		if x == y || equalTo(st, x, y) {
			continue
		}
		s := st.Clone()
		if !s.Assume(ai.Eq(leaf, ai.Int(int64(v))), true) {
			continue
		}
		if !equalTo(s, x, y) {
			return false
		}
	}
	return true
}

// streamRuns runs a decoder on an unknown stream.
func (w *World) streamRuns(r *Rep, name string) (*ssa.Function, *ai.Term, []*ai.Outcome) {
	f := w.Fn("redis/rdb", name)
	if f == nil || f.Blocks == nil {
		r.Fail("roles", "redis/rdb."+name, "the decoder is gone")
		return nil, nil, nil
	}
	as := w.symArgs(f)
	for _, a := range as {
		if isReader(a.T) {
			return f, a, w.run(r, f, as, nil)
		}
	}
	r.Fail("roles", w.place(f), "does not take a stream")
	return nil, nil, nil
}

// settled sorts out paths that report an error, which they may only do after
// a failure or for input that is not valid.
func (w *World) settled(r *Rep, f *ssa.Function, o *ai.Outcome, valid bool) (rets []*ai.Term, done bool) {
	st, name := o.St, w.place(f)
	if o.Kind != ai.Ret {
		r.Fail("returns", name, "does not return: %v at %s (path: %s)", o.Val, w.Pos(o.Pos), facts(st))
		return nil, true
	}
	rets, err := splitErr(f.Signature, o)
	fl := loadFailures(st.Events())
	if err != nil && !err.IsNil() {
		r.Check(len(fl) > 0 || !valid, "errors are real", name, "reports an error on valid input (path: %s)", facts(st))
		return rets, true
	}
	r.Check(len(fl) == 0, "failures are reported", name, "reports success although %s failed (path: %s)", failNames(fl), facts(st))
	return rets, len(fl) > 0
}

// formsOf lists the forms the byte at "at" may begin, with its values.
func formsOf(st *ai.State, fs []form, in, at *ai.Term) (out []form, vals [][]int, rest int) {
	leaf := byteAt(in, at, 0)
	total := len(admits(st, leaf, 0, 255))
	for _, f := range fs {
		if vs := admits(st, leaf, f.lo, f.hi); len(vs) > 0 {
			out, vals = append(out, f), append(vals, vs)
			total -= len(vs)
		}
	}
	return out, vals, total
}

func checkD01(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of the decoders of lengths, integer-encoded strings and scores, over an unknown stream, is compared with a table of the format: for every value of the leading byte the path admits, the number returned is the same bit for bit as the one the table builds from the bytes (signs, byte order, widths), the special-encoding flag is the table's, and the stream is left exactly behind the number. An error without a failed read or parse is reported only for leading bytes the table does not have, and those are never accepted."
	if f, rd, outs := w.streamRuns(r, "LoadLen"); f != nil {
		in, name := w.E.Stream(rd), w.place(f)
		seen := map[string]int{}
		for _, o := range outs {
			st := o.St
			fs, vals, rest := formsOf(st, lenForms, in, ai.Int(0))
			rets, done := w.settled(r, f, o, len(fs) > 0)
			if done {
				continue
			}
			r.Check(rest == 0, "unknown headers", name, "accepts %d leading bytes that announce no length (path: %s)", rest, facts(st))
			end := w.E.Offset(st, rd)
			leaf := byteAt(in, ai.Int(0), 0)
			for i, fm := range fs {
				seen[fm.name]++
				want := fm.val(in, ai.Int(0))
				r.Check(agree(st, leaf, vals[i], rets[0], want), "value", name, "%s: returns %s, not %s (path: %s)", fm.name, rets[0], want, facts(st))
				r.Check(agree(st, leaf, vals[i], rets[1], ai.Bool(fm.encoded)), "marker", name, "%s: the special-encoding flag is %s (path: %s)", fm.name, rets[1], facts(st))
				r.Check(agree(st, leaf, vals[i], end, ai.Int(fm.size)), "position", name, "%s: reading stops at offset %s, not %d (path: %s)", fm.name, end, fm.size, facts(st))
			}
		}
		for _, fm := range lenForms {
			r.Floor("paths accepting a "+fm.name, seen[fm.name], 1)
		}
	}
	w.strings(r, true)
	if f, rd, outs := w.streamRuns(r, "LoadDouble"); f != nil {
		in, name := w.E.Stream(rd), w.place(f)
		leaf := byteAt(in, ai.Int(0), 0)
		n := 0
		for _, o := range outs {
			st := o.St
			rets, done := w.settled(r, f, o, true)
			if done {
				continue
			}
			end := w.E.Offset(st, rd)
			for _, fm := range []form{
				{name: "text", lo: 0, hi: 252},
				{name: "NaN", lo: 253, hi: 253}, {name: "+Inf", lo: 254, hi: 254}, {name: "-Inf", lo: 255, hi: 255},
			} {
				vs := admits(st, leaf, fm.lo, fm.hi)
				if len(vs) == 0 {
					continue
				}
				n++
				want, at := ai.Call(fm.name, f64T), ai.Int(1)
				if fm.name == "text" {
					at = ai.AddK(leaf, 1)
					want = ai.Call("parsef", f64T, ai.SubSeq(in, ai.Int(1), at))
				}
				r.Check(agree(st, leaf, vs, rets[0], want), "value", name, "a score written as %s becomes %s, not %s (path: %s)", fm.name, rets[0], want, facts(st))
				r.Check(agree(st, leaf, vs, end, at), "position", name, "after a score written as %s reading stops at offset %s, not %s (path: %s)", fm.name, end, at, facts(st))
			}
		}
		r.Floor("kinds of text scores", n, 4)
	}
	if f, rd, outs := w.streamRuns(r, "LoadBinaryDouble"); f != nil {
		in, name := w.E.Stream(rd), w.place(f)
		n := 0
		for _, o := range outs {
			st := o.St
			rets, done := w.settled(r, f, o, true)
			if done {
				continue
			}
			n++
			want := ai.Call("f64bits", f64T, ai.ByteWord(bytesAt(in, ai.Int(0), 8, true)))
			r.Check(equalTo(st, rets[0], want), "value", name, "a binary score becomes %s, not %s (path: %s)", rets[0], want, facts(st))
			r.Check(equalTo(st, w.E.Offset(st, rd), ai.Int(8)), "position", name, "after a binary score reading stops at offset %s (path: %s)", w.E.Offset(st, rd), facts(st))
		}
		r.Floor("binary scores", n, 1)
	}
}

// strings compares the string decoder with the format: numbers written as
// integers, or everything whose length is announced.
func (w *World) strings(r *Rep, numbers bool) {
	dec := w.Fn("redis/lzf", "DeCompress")
	if dec == nil {
		r.Fail("roles", "redis/lzf.DeCompress", "the decompressor is gone")
		return
	}
	e := w.E.With()
	save := w.E
	w.E = e
	defer func() { w.E = save }()
	e.Override[dec] = func(cc *ai.CallCtx) []*ai.Outcome {
		as := append([]*ai.Term(nil), cc.Args...)
		return cc.E.ForkErr(cc, "lzf.DeCompress", func(st *ai.State) []*ai.Term {
			return []*ai.Term{ai.Call("lzf", stringType, st.Norm(as[0]), ai.Ring(st.Norm(as[1]))), ai.Nil()}
		})
	}
	f, rd, outs := w.streamRuns(r, "LoadString")
	if f == nil {
		return
	}
	in, name := w.E.Stream(rd), w.place(f)
	leaf := byteAt(in, ai.Int(0), 0)
	seen := map[string]int{}
	for _, o := range outs {
		st := o.St
		// 0xc0..0xc3 are the special encodings there are
		valid := len(admits(st, leaf, 0, 0x81))+len(admits(st, leaf, 0xc0, 0xc3)) > 0
		if numbers && len(admits(st, leaf, 0xc0, 0xc2)) == 0 {
			continue
		}
		if vs := admits(st, leaf, 0xc3, 0xc3); len(vs) > 0 && len(admits(st, leaf, 0, 255)) == 1 {
			// the two lengths of a compressed string are plain ones
			plain := false
			fs, _, _ := formsOf(st, lenForms, in, ai.Int(1))
			for _, a := range fs {
				gs, _, _ := formsOf(st, lenForms, in, ai.AddK(ai.Int(1), a.size))
				for _, b := range gs {
					plain = plain || !a.encoded && !b.encoded
				}
			}
			valid = plain
		}
		rets, done := w.settled(r, f, o, valid)
		if done {
			continue
		}
		end := w.E.Offset(st, rd)
		check := func(leaf *ai.Term, vs []int, what string, want, at *ai.Term) {
			seen[what]++
			r.Check(agree(st, leaf, vs, rets[0], want), "value", name, "%s: returns %s, not %s (path: %s)", what, rets[0], want, facts(st))
			r.Check(agree(st, leaf, vs, end, at), "position", name, "%s: reading stops at offset %s, not %s (path: %s)", what, end, at, facts(st))
		}
		for i, what := range []string{"8-bit integer", "16-bit integer", "32-bit integer"} {
			if vs := admits(st, leaf, 0xc0+i, 0xc0+i); len(vs) > 0 {
				n := 1 << i
				check(leaf, vs, what, ai.Itoa(ai.SignedWord(bytesAt(in, ai.Int(1), n, true))), ai.Int(int64(1+n)))
			}
		}
		if n := len(admits(st, leaf, 0xc4, 0xff)) + len(admits(st, leaf, 0x82, 0xbf)); n > 0 {
			r.Fail("unknown headers", name, "accepts %d leading bytes that announce no string (path: %s)", n, facts(st))
		}
		if numbers {
			continue
		}
		fs, vals, _ := formsOf(st, lenForms, in, ai.Int(0))
		for i, fm := range fs {
			if !fm.encoded {
				at := ai.Add(ai.Int(fm.size), ai.Ring(fm.val(in, ai.Int(0))))
				check(leaf, vals[i], "string with a "+fm.name, ai.SubSeq(in, ai.Int(fm.size), at), at)
			}
		}
		if vs := admits(st, leaf, 0xc3, 0xc3); len(vs) > 0 {
			fs, fv, _ := formsOf(st, lenForms, in, ai.Int(1))
			for i, a := range fs {
				at := ai.AddK(ai.Int(1), a.size)
				gs, _, _ := formsOf(st, lenForms, in, at)
				for _, b := range gs {
					if a.encoded || b.encoded {
						continue
					}
					from := ai.AddK(at, b.size)
					to := ai.Add(from, ai.Ring(a.val(in, ai.Int(1))))
					want := ai.Call("lzf", stringType, ai.SubSeq(in, from, to), ai.Ring(b.val(in, at)))
					check(byteAt(in, ai.Int(1), 0), fv[i], "compressed string", want, to)
				}
			}
		}
	}
	if numbers {
		for _, k := range []string{"8-bit integer", "16-bit integer", "32-bit integer"} {
			r.Floor("paths accepting a "+k, seen[k], 1)
		}
		return
	}
	for _, fm := range lenForms[:4] {
		r.Floor("paths accepting a string with a "+fm.name, seen["string with a "+fm.name], 1)
	}
	r.Floor("forms of compressed strings", seen["compressed string"], 16)
}

func checkD02(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every read that may deliver fewer bytes than asked for is followed with an unknown number of bytes, and every read that fails as a failed path. On every path: a bulk reply's content is exactly the announced number of bytes after its length line, and reading goes on behind its terminator; a snapshot string is exactly the announced bytes after its length header; a compressed string hands exactly the announced bytes, and the announced decompressed length, to the decompressor; integers take exactly their width; the snapshot's first entry is read behind the 9 bytes of the header. Paths with a failed read report an error."
	w.strings(r, false)
	if f := w.method(r, "redis", "Conn", "Recv"); f != nil {
		name := w.place(f)
		n := 0
		for _, o := range w.run(r, f, []*ai.Term{recvArg("c", f)}, nil) {
			st := o.St
			if o.Kind != ai.Ret {
				continue
			}
			rets, err := splitErr(f.Signature, o)
			fl := failures(st.Events())
			r.Check(len(fl) == 0 || !err.IsNil(), "failures are reported", name, "reports success although %s failed (path: %s)", failNames(fl), facts(st))
			var rd *ai.Term
			for _, ev := range flat(st.Events()) {
				if ev.Kind == "read" {
					rd = ev.Args[0]
				}
			}
			if !err.IsNil() || len(fl) > 0 || rd == nil {
				continue
			}
			h := w.header(st, rd, rets[0])
			if len(admits(st, ai.Elem(h.in, ai.Int(0), tByte), '$', '$')) == 0 {
				continue
			}
			msg := st.Norm(rets[0])
			if h.num == nil {
				r.Fail("bulk", name, "a bulk reply is accepted whatever its length line (path: %s)", facts(st))
				continue
			}
			num := st.Norm(h.num)
			if t := shortType(msg.T); (t == "redis.NilMessage" || t == "*redis.NilMessage") && equalTo(st, num, ai.Int(-1)) {
				continue
			}
			n++
			want := st.Norm(ai.SubSeq(h.in, h.end, ai.Add(h.end, num)))
			got := st.Norm(w.stringOf(st, msg, "String"))
			r.Check(got == want, "bulk", name, "the content is %s, not the %s bytes after the line (path: %s)", got, num, facts(st))
			off, after := st.Norm(w.E.Offset(st, rd)), ai.Add(h.end, num)
			ok := equalTo(st, off, ai.AddK(after, 2)) || (off.Is("delim") && off.Args[2] == ai.Int(10) || off.Is("rlend")) && off.Args[0] == h.in && equalTo(st, off.Args[1], after)
			r.Check(ok, "bulk", name, "reading stops at %s, not %s (path: %s)", off, ai.AddK(after, 2), facts(st))
		}
		r.Floor("bulk replies", n, 1)
	}
	if s := w.snapshot(r); s != nil {
		for _, l := range s.loops {
			r.Check(zero0(l.l.Entry, ai.AddK(l.off.Init, -9)), "header", s.name, "the first entry is read at offset %s, not after the 9 bytes of the header", l.off.Init)
		}
		r.Floor("loops over entries", len(s.loops), 1)
	}
}
