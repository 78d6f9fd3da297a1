package cir

// The compressed format: a byte below 32 is followed by one more literal byte
// than it says; any other byte holds a length in its upper three bits (two
// less than the number of bytes; 7: the next byte is added) and the upper five
// bits of a distance, whose lower eight follow; the bytes are those found at
// one more than the distance before the end of the output.

func number(e Lin) Val { return Val{k: kInt, w: 64, e: e} }

func (x *Interp) ghostCell(st *State, name string, e Lin) *Obj {
	o := x.newObj(name, konst(8))
	o.Type, o.Ghost = "i64", true
	st.cells[o.ID] = number(e)
	return o
}

func get(st *State, o *Obj) Lin { return st.cells[o.ID].e }

func put(st *State, o *Obj, e Lin) { st.cells[o.ID] = number(e) }

// at is the byte of o at off, if it has been read.
func (st *State) at(o *Obj, off Lin) (Lin, bool) {
	for i := len(st.loads) - 1; i >= 0; i-- {
		l := st.loads[i]
		if l.obj == o && l.n == 1 && (l.off.equal(off) || st.f.zero(l.off.sub(off))) {
			return Lin{vs: []int{l.sym}, cs: []int64{1}}, true
		}
	}
	return Lin{}, false
}

// A Decode follows a decompression: what is written must be, token by token,
// what the input says.
type Decode struct {
	In, Out       *Obj
	InLen, OutLen Lin
	w, w0, c      *Obj // written so far, at the last boundary, and the input position there
	segs          []seg
}

// A seg is a stretch of output copied from somewhere: out[i] = obj[i+delta].
type seg struct {
	obj          *Obj
	delta, start Lin
}

func NewDecode(x *Interp, st *State, in, out *Obj, inLen, outLen Lin) {
	d := &Decode{In: in, Out: out, InLen: inLen, OutLen: outLen}
	d.w = x.ghostCell(st, "written", konst(0))
	d.w0 = x.ghostCell(st, "written before", konst(0))
	d.c = x.ghostCell(st, "consumed", konst(0))
	st.g = d
}

func (d *Decode) clone() Ghost {
	r := *d
	r.segs = append([]seg(nil), d.segs...)
	return &r
}

func (d *Decode) append(x *Interp, st *State, src *Obj, soff, n Lin, at *Instr) {
	w := get(st, d.w)
	if src != d.In && (src != d.Out || !st.f.entails(soff.add(n).sub(w))) {
		x.report("ghost", at, false, "writes a byte of output at %s that is neither a byte of the input nor one written before", x.show(w))
		return
	}
	s := seg{src, soff.sub(w), w}
	if k := len(d.segs); k == 0 || d.segs[k-1].obj != s.obj || !st.f.zero(d.segs[k-1].delta.sub(s.delta)) {
		d.segs = append(d.segs, s)
	}
	put(st, d.w, w.add(n))
}

func (d *Decode) store(x *Interp, st *State, obj *Obj, off Lin, val Val, n int, at *Instr) []*State {
	if obj != d.Out {
		return []*State{st}
	}
	if !st.f.zero(off.sub(get(st, d.w))) {
		x.report("ghost", at, false, "writes the output at %s where %s is next", x.show(off), x.show(get(st, d.w)))
		return nil
	}
	if val.src == nil || val.src.N != n {
		x.report("ghost", at, false, "writes a byte of output at %s that is not copied from anywhere", x.show(off))
		return nil
	}
	d.append(x, st, val.src.Obj, val.src.Off, konst(int64(n)), at)
	return []*State{st}
}

func (d *Decode) move(x *Interp, st *State, dst *Obj, doff Lin, src *Obj, soff, n Lin, at *Instr) []*State {
	if dst != d.Out || st.f.zero(n) {
		return []*State{st}
	}
	if !st.f.zero(doff.sub(get(st, d.w))) {
		x.report("ghost", at, false, "writes the output at %s where %s is next", x.show(doff), x.show(get(st, d.w)))
		return nil
	}
	d.append(x, st, src, soff, n, at)
	return []*State{st}
}

func (d *Decode) equal(x *Interp, st *State, a, b *Src) {}

// A token is what the input says at a position.
type token struct {
	src     *Obj
	delta   Lin // of a literal: where in the input; of a reference: minus the distance
	n, next Lin
}

// token reads the token at c; why says what is missing.
func (d *Decode) token(x *Interp, st *State, c Lin) (t token, why string) {
	b, ok := st.at(d.In, c)
	if !ok {
		return t, "the next token has not been read"
	}
	if st.f.entails(b.plus(-31)) {
		return token{d.In, c.plus(1), b.plus(1), c.add(b).plus(2)}, ""
	}
	if !st.f.entails(b.scale(-1).plus(32)) {
		return t, "it is open what kind of token is next"
	}
	hi := x.quot(st, b, 32)
	low5 := b.sub(hi.scale(32))
	n, next := hi.plus(2), c.plus(2)
	if !st.f.entails(hi.plus(-6)) {
		if !st.f.entails(hi.scale(-1).plus(7)) {
			return t, "it is open whether the length goes on in another byte"
		}
		e, ok := st.at(d.In, c.plus(1))
		if !ok {
			return t, "the byte with the rest of the length has not been read"
		}
		n, next = e.plus(9), c.plus(3)
	}
	l, ok := st.at(d.In, next.plus(-1))
	if !ok {
		return t, "the byte with the rest of the distance has not been read"
	}
	return token{d.Out, low5.scale(256).add(l).plus(1).scale(-1), n, next}, ""
}

func (d *Decode) boundary(x *Interp, st *State, where string) { d.settle(x, st, where, nil) }

func (d *Decode) settle(x *Interp, st *State, where string, in *Instr) {
	if in == nil {
		in = &Instr{}
	}
	pos, c, w := get(st, d.w0), get(st, d.c), get(st, d.w)
	segs := d.segs
	for i := 0; i < 5 && !st.f.zero(w.sub(pos)); i++ {
		t, why := d.token(x, st, c)
		if why != "" {
			x.report("ghost", in, false, "at the %s: output was written, but %s", where, why)
			break
		}
		delta := t.delta
		if t.src == d.In {
			delta = delta.sub(pos)
		}
		end := w
		if len(segs) > 1 {
			end = segs[1].start
		}
		switch {
		case len(segs) == 0 || segs[0].obj != t.src || !st.f.zero(segs[0].start.sub(pos)) || !st.f.zero(segs[0].delta.sub(delta)):
			x.report("ghost", in, false, "at the %s: the output from %s on is not what the token says", where, x.show(pos))
			pos = w
			continue
		case !st.f.zero(end.sub(pos.add(t.n))):
			x.report("ghost", in, false, "at the %s: %s bytes were written for a token that stands for %s", where, x.show(end.sub(pos)), x.show(t.n))
			pos = w
			continue
		}
		x.report("ghost", in, true, "a token is performed")
		segs = segs[1:]
		pos, c = end, t.next
	}
	put(st, d.w0, w)
	put(st, d.c, c)
	d.segs = nil
}

func (d *Decode) same(st *State, old Ghost) bool {
	o := old.(*Decode)
	if len(o.segs) != len(d.segs) {
		return false
	}
	for i, s := range d.segs {
		t := o.segs[i]
		if s.obj != t.obj || !st.f.zero(s.delta.sub(t.delta)) || !st.f.zero(s.start.sub(t.start)) {
			return false
		}
	}
	return true
}

func (d *Decode) ret(x *Interp, st *State, v Val, in *Instr) {
	if v.k != kInt || v.obj != nil {
		x.report("ghost", in, false, "what is returned cannot be followed")
		return
	}
	if v.e.isConst() && v.e.k == 0 {
		d.refuse(x, st, in)
		return
	}
	d.settle(x, st, "end", in)
	st.g = nil
	for _, b := range x.canon(st, v, false) {
		if !b.st.f.zero(b.e.sub(get(b.st, d.w))) {
			x.report("ghost", in, false, "returns %s after writing %s bytes", x.show(b.e), x.show(get(b.st, d.w)))
			return
		}
		if !b.st.f.zero(get(b.st, d.c).sub(d.InLen)) {
			x.report("ghost", in, false, "ends with %s of %s bytes of input used", x.show(get(b.st, d.c)), x.show(d.InLen))
			return
		}
	}
	x.report("ghost", in, true, "all the input is used and all the output counted")
}

// refuse checks that there is a reason to give up.
func (d *Decode) refuse(x *Interp, st *State, in *Instr) {
	c, w := get(st, d.c), get(st, d.w0)
	over := func(st *State, e, limit Lin) bool { return st.f.entails(limit.sub(e).plus(1)) }
	bad := func(why string) {
		x.report("ghost", in, false, "gives up though the input is well-formed as far as it was looked at%s", why)
	}
	st.g = nil
	b, ok := st.at(d.In, c)
	if !ok {
		bad(": the next token has not been read")
		return
	}
	lit, ref := st.clone(), st
	if lit.f.assume(b.plus(-31)) && !over(lit, c.add(b).plus(2), d.InLen) && !over(lit, w.add(b).plus(1), d.OutLen) {
		bad(": literal bytes that are there and fit")
		return
	}
	if !ref.f.assume(b.scale(-1).plus(32)) {
		x.report("ghost", in, true, "gives up for a reason")
		return
	}
	hi := x.quot(ref, b, 32)
	long := ref.clone()
	for i, s := range []*State{ref, long} {
		if i == 0 && !s.f.assume(hi.plus(-6)) || i == 1 && !s.f.assume(hi.scale(-1).plus(7)) {
			continue
		}
		need := c.plus(int64(2 + i))
		if over(s, need, d.InLen) {
			continue
		}
		n, okN := hi.plus(2), true
		if i == 1 {
			n, okN = s.at(d.In, c.plus(1))
			n = n.plus(9)
		}
		if okN && over(s, w.add(n), d.OutLen) {
			continue
		}
		if l, ok := s.at(d.In, need.plus(-1)); ok && over(s, b.sub(hi.scale(32)).scale(256).add(l).plus(1), w) {
			continue
		}
		bad(": a reference that is complete, fits and points into what was written")
		return
	}
	x.report("ghost", in, true, "gives up for a reason")
}

// An Encode follows a compression: what is written must be a well-formed
// sequence of tokens for the input so far.
type Encode struct {
	In, Out *Obj
	InLen   Lin
	// u: the input covered, v: the place of the next literal byte, l: the
	// literal bytes whose number is still to be written
	u, v, l *Obj
	tok     []Val // bytes of a token that is not complete
	runs    []run
}

// A run is a stretch of input known to be repeated at a distance.
type run struct {
	from, delta Lin
	n           *Obj
}

func NewEncode(x *Interp, st *State, in, out *Obj, inLen Lin) {
	e := &Encode{In: in, Out: out, InLen: inLen}
	e.u = x.ghostCell(st, "covered", konst(0))
	e.v = x.ghostCell(st, "next literal", konst(1))
	e.l = x.ghostCell(st, "literals", konst(0))
	st.g = e
}

func (g *Encode) clone() Ghost {
	r := *g
	r.tok = append([]Val(nil), g.tok...)
	r.runs = append([]run(nil), g.runs...)
	return &r
}

func (g *Encode) store(x *Interp, st *State, obj *Obj, off Lin, val Val, n int, at *Instr) []*State {
	if obj != g.Out {
		return []*State{st}
	}
	u, v, l := get(st, g.u), get(st, g.v), get(st, g.l)
	if st.f.zero(off.sub(v)) && val.src != nil && val.src.Obj == g.In && val.src.N == n && st.f.zero(val.src.Off.sub(u)) {
		g.literal(st, konst(int64(n)))
		x.report("ghost", at, true, "a literal byte")
		return []*State{st}
	}
	if n != 1 {
		x.report("ghost", at, false, "writes %d bytes of output at once", n)
		return nil
	}
	h := v.sub(l).plus(-1)
	var out []*State
	some := st.clone()
	if some.f.assume(l.scale(-1).plus(1)) {
		// the number of literal bytes
		g := some.g.(*Encode)
		for _, b := range x.canon(some, val, false) {
			switch {
			case !b.st.f.zero(off.sub(h)):
				x.report("ghost", at, false, "writes the output at %s, which is neither the place of the next literal byte (%s) nor of their number (%s)", x.show(off), x.show(v), x.show(h))
			case !b.st.f.zero(b.e.sub(l.plus(-1))):
				x.report("ghost", at, false, "writes %s as the number of %s literal bytes", x.show(b.e), x.show(l))
			case !b.st.f.entails(l.plus(-32)):
				x.report("ghost", at, false, "a run of %s literal bytes is too long", x.show(l))
			default:
				x.report("ghost", at, true, "a run of literal bytes")
				h := b.st.g.(*Encode)
				put(b.st, g.v, v.plus(1))
				put(b.st, g.l, konst(0))
				h.tok = nil
				out = append(out, b.st)
			}
		}
	}
	if !st.f.assume(l) || !st.f.assume(l.scale(-1)) {
		return out
	}
	put(st, g.l, konst(0))
	switch {
	case st.f.zero(off.sub(h)):
		g.tok = []Val{val}
	case len(g.tok) > 0 && st.f.zero(off.sub(h).plus(-int64(len(g.tok)))):
		g.tok = append(g.tok, val)
	default:
		x.report("ghost", at, false, "writes the output at %s, where neither a token (%s) nor its next byte nor a literal byte belongs", x.show(off), x.show(h))
		return out
	}
	return append(out, g.complete(x, st, at)...)
}

func (g *Encode) literal(st *State, n Lin) {
	put(st, g.u, get(st, g.u).add(n))
	put(st, g.v, get(st, g.v).add(n))
	put(st, g.l, get(st, g.l).add(n))
	g.tok = nil
}

// complete recognises a reference.
func (g *Encode) complete(x *Interp, st *State, at *Instr) []*State {
	if len(g.tok) < 2 {
		return []*State{st}
	}
	var out []*State
	for _, b := range x.canon(st, g.tok[0], false) {
		for _, last := range x.canon(b.st, g.tok[len(g.tok)-1], false) {
			st := last.st
			if !st.f.assume(b.e.scale(-1).plus(32)) {
				x.report("ghost", at, false, "a token of literal bytes where there are none")
				continue
			}
			hi := x.quot(st, b.e, 32)
			long := st.clone()
			dist := b.e.sub(hi.scale(32)).scale(256).add(last.e).plus(1)
			if st.f.assume(hi.plus(-6)) {
				if len(g.tok) == 2 {
					out = append(out, g.commit(x, st, hi.plus(2), dist, at)...)
				} else {
					x.report("ghost", at, false, "a token with a byte too many")
				}
			}
			if long.f.assume(hi.scale(-1).plus(7)) {
				switch len(g.tok) {
				case 2:
					out = append(out, long)
				case 3:
					for _, m := range x.canon(long, g.tok[1], false) {
						out = append(out, g.commit(x, m.st, m.e.plus(9), dist, at)...)
					}
				}
			}
		}
	}
	return out
}

func (g *Encode) commit(x *Interp, st *State, n, dist Lin, at *Instr) []*State {
	e := st.g.(*Encode)
	u := get(st, g.u)
	known := false
	for _, r := range e.runs {
		for _, o := range []run{r, {r.from.add(r.delta), r.delta.scale(-1), r.n}} {
			if !known && st.f.zero(o.delta.sub(dist)) && st.f.entails(o.from.sub(u.sub(dist))) &&
				st.f.entails(u.sub(dist).add(n).sub(o.from.add(get(st, o.n)))) {
				known = true
			}
		}
	}
	if !known {
		x.report("ghost", at, false, "refers to %s bytes at distance %s, which are not known to be the next ones of the input", x.show(n), x.show(dist))
		return nil
	}
	if !st.f.entails(dist.sub(u)) || !st.f.entails(u.add(n).sub(g.InLen)) {
		x.report("ghost", at, false, "refers to %s bytes at distance %s, of which some may be outside the input (%s are covered)", x.show(n), x.show(dist), x.show(u))
		return nil
	}
	x.report("ghost", at, true, "a reference")
	put(st, g.u, u.add(n))
	put(st, g.v, get(st, g.v).plus(int64(len(e.tok))))
	e.tok = nil
	return []*State{st}
}

func (g *Encode) move(x *Interp, st *State, dst *Obj, doff Lin, src *Obj, soff, n Lin, at *Instr) []*State {
	if dst != g.Out || st.f.zero(n) {
		return []*State{st}
	}
	if src != g.In || !st.f.zero(doff.sub(get(st, g.v))) || !st.f.zero(soff.sub(get(st, g.u))) {
		x.report("ghost", at, false, "copies into the output what is not the next part of the input")
		return nil
	}
	g.literal(st, n)
	return []*State{st}
}

func (g *Encode) equal(x *Interp, st *State, a, b *Src) {
	if a.Obj != g.In || b.Obj != g.In || a.N != b.N {
		return
	}
	k := konst(int64(a.N))
	for _, p := range [][2]Lin{{a.Off, b.Off}, {b.Off, a.Off}} {
		for i := range g.runs {
			r := &g.runs[i]
			n := get(st, r.n)
			if !st.f.zero(p[1].sub(p[0]).sub(r.delta)) {
				continue
			}
			if st.f.zero(r.from.add(n).sub(p[0])) {
				put(st, r.n, n.add(k))
				return
			}
			if st.f.zero(p[0].add(k).sub(r.from)) {
				r.from = p[0]
				put(st, r.n, n.add(k))
				return
			}
		}
	}
	g.runs = append(g.runs, run{a.Off, b.Off.sub(a.Off), x.ghostCell(st, "equal", k)})
}

func (g *Encode) boundary(x *Interp, st *State, where string) {
	for _, r := range g.runs {
		delete(st.cells, r.n.ID)
	}
	g.tok, g.runs = nil, nil
}

func (g *Encode) same(st *State, old Ghost) bool {
	o := old.(*Encode)
	if len(o.tok) != len(g.tok) || len(o.runs) != len(g.runs) {
		return false
	}
	for i, v := range g.tok {
		if !st.f.zero(v.e.sub(o.tok[i].e)) {
			return false
		}
	}
	for i, r := range g.runs {
		if q := o.runs[i]; q.n != r.n || !st.f.zero(r.from.sub(q.from)) || !st.f.zero(r.delta.sub(q.delta)) {
			return false
		}
	}
	return true
}

func (g *Encode) ret(x *Interp, st *State, v Val, in *Instr) {
	if v.k != kInt || v.obj != nil {
		x.report("ghost", in, false, "what is returned cannot be followed")
		return
	}
	if v.e.isConst() && v.e.k == 0 {
		x.report("ghost", in, true, "gives up")
		return
	}
	u, w, l := get(st, g.u), get(st, g.v), get(st, g.l)
	switch {
	case !st.f.zero(l):
		x.report("ghost", in, false, "ends without the number of the last literal bytes, %s", x.show(l))
	case !st.f.zero(u.sub(g.InLen)):
		x.report("ghost", in, false, "ends with %s of %s bytes of input compressed", x.show(u), x.show(g.InLen))
	case !st.f.zero(v.e.sub(w.plus(-1))):
		x.report("ghost", in, false, "returns %s for %s bytes of output", x.show(v.e), x.show(w.plus(-1)))
	default:
		x.report("ghost", in, true, "all the input is compressed")
	}
}
