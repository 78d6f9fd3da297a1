package check

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func init() { registry["D05"] = checkD05 }

// A zipLen is one of the two forms of a length in a zipmap.
type zipLen struct {
	name   string
	lo, hi int
	size   int64
}

var zipLens = []zipLen{{"short", 0, 253, 1}, {"long", 254, 254, 5}}

// at assumes the form for the length at p, and gives the length.
func (f zipLen) at(st *ai.State, enc, p *ai.Term) (*ai.State, *ai.Term) {
	b := byteAt(enc, p, 0)
	if len(admits(st, b, f.lo, f.hi)) == 0 {
		return nil, nil
	}
	s := st.Clone()
	if !s.Assume(ai.Le(ai.Int(int64(f.lo)), b), true) || !s.Assume(ai.Le(b, ai.Int(int64(f.hi))), true) {
		return nil, nil
	}
	if f.size == 1 {
		return s, b
	}
	return s, ai.ByteWord(bytesAt(enc, ai.AddK(p, 1), 4, true))
}

type zipPair struct {
	what       string
	keyAt      *ai.Term
	key, value *ai.Term
	next       *ai.Term
}

// zipPairs are the pairs a path admits at position p.
func zipPairs(st *ai.State, enc, p *ai.Term, f func(st *ai.State, z zipPair)) {
	for _, kf := range zipLens {
		s, kl := kf.at(st, enc, p)
		if s == nil {
			continue
		}
		k := ai.AddK(p, kf.size)
		ke := ai.Add(k, kl)
		for _, vf := range zipLens {
			t, vl := vf.at(s, enc, ke)
			if t == nil {
				continue
			}
			fr := ai.AddK(ke, vf.size)
			v := ai.AddK(fr, 1)
			ve := ai.Add(v, vl)
			// only bytes that are there make a pair
			if !t.Assume(ai.Le(ai.AddK(ve, 1), ai.Len(enc)), true) {
				continue
			}
			f(t, zipPair{
				"a " + kf.name + " key with a " + vf.name + " value", k,
				ai.SubSeq(enc, k, ke), ai.SubSeq(enc, v, ve), ai.Add(ve, byteAt(enc, fr, 0)),
			})
		}
	}
}

type zipMaps struct {
	w    *World
	r    *Rep
	enc  *ai.Term
	name string
	seen map[string]int
}

// text compares two texts on a path.
func (z *zipMaps) text(st *ai.State, got, want *ai.Term) bool {
	got, want = st.Norm(z.w.E.Resolve(st, got)), st.Norm(want)
	if got == want || equalTo(st, got, want) {
		return true
	}
	if got.IsConstStr() && got.S == "" && want.Op == ai.OSub {
		return st.EntailsLe0(ai.Sub(want.Args[2], want.Args[1]))
	}
	return false
}

func zipAtEnd(st *ai.State, enc, p *ai.Term) (can, must bool) {
	end, more := st.Clone(), st.Clone()
	can = end.Assume(ai.Eq(byteAt(enc, p, 0), ai.Int(255)), true) && end.Assume(ai.Eq(ai.AddK(p, 1), ai.Len(enc)), true)
	must = !(more.Assume(ai.Eq(byteAt(enc, p, 0), ai.Int(255)), false) && more.Assume(ai.Le(ai.AddK(p, 2), ai.Len(enc)), true))
	return can, must
}

// failing: a path that does not return must be one no complete map takes.
func (z *zipMaps) failing(o *ai.Outcome) {
	st := o.St
	q := []*ai.Term{ai.Int(1)}
	for _, l := range loopsOf(st.Events()) {
		q = nil
		for _, p := range intVars(l) {
			q = append(q, p.Sym)
		}
	}
	bad := "before the first pair"
	for _, p := range q {
		bad = ""
		if can, _ := zipAtEnd(st, z.enc, p); can {
			bad = "at the end mark"
		}
		zipPairs(st, z.enc, p, func(s *ai.State, pair zipPair) {
			s = s.Clone()
			if bad == "" && s.Assume(ai.Le(ai.AddK(pair.next, 1), ai.Len(z.enc)), true) && s.Assume(ai.Le(ai.AddK(p, 3), pair.next), true) {
				bad = "at " + pair.what
			}
		})
		if bad == "" {
			return
		}
	}
	z.r.Fail("complete maps", z.name, "fails %s: %v at %s (path: %s)", bad, o.Val, z.w.Pos(o.Pos), facts(st))
}

// walk checks a loop whose position is p; each tells what is wrong with the
// way an iteration treats the pair.
func (z *zipMaps) walk(st *ai.State, l *ai.LoopInfo, p *ai.LoopVar, each func(s *ai.State, b *ai.Iter, pair zipPair) string) string {
	if p.Init == nil || !equalTo(l.Entry, p.Init, ai.Int(1)) {
		return fmt.Sprintf("the first pair is read at %v", p.Init)
	}
	for i, b := range l.Backs {
		if can, _ := zipAtEnd(b.St, z.enc, p.Sym); can {
			return "goes on at the end mark (path: " + facts(b.St) + ")"
		}
		why := ""
		zipPairs(b.St, z.enc, p.Sym, func(s *ai.State, pair zipPair) {
			z.seen[pair.what]++
			if next := s.Norm(ai.Ring(p.Steps[i])); why == "" && !equalTo(s, next, ai.Ring(pair.next)) {
				why = fmt.Sprintf("after %s it continues at %s, not %s (path: %s)", pair.what, next, pair.next, facts(b.St))
			}
			if why == "" {
				why = each(s, b, pair)
			}
		})
		if why != "" {
			return why
		}
	}
	return ""
}

// best tries the positions of a loop and tells what is wrong with the one
// that fits best.
func best(l *ai.LoopInfo, try func(p *ai.LoopVar) string) string {
	why := "no position moves in the loop"
	for _, p := range intVars(l) {
		if why = try(p); why == "" {
			return ""
		}
	}
	return why
}

func (z *zipMaps) load(f *ssa.Function, outs []*ai.Outcome) {
	r := z.r
	loops := 0
	for _, o := range outs {
		st := o.St
		if o.Kind != ai.Ret {
			z.failing(o)
			continue
		}
		m := st.Norm(o.Rets[0])
		ls := loopsOf(st.Events())
		if len(ls) == 0 {
			_, must := zipAtEnd(st, z.enc, ai.Int(1))
			r.Check(must, "pairs", z.name, "nothing is decoded although the map may have pairs (path: %s)", facts(st))
			continue
		}
		why := "no loop fills the map returned"
		for _, l := range ls {
			why = best(l, func(p *ai.LoopVar) string {
				if _, must := zipAtEnd(st, z.enc, p.Sym); !must {
					return "stops at " + p.Sym.String() + " where the map may go on"
				}
				return z.walk(st, l, p, func(s *ai.State, b *ai.Iter, pair zipPair) string {
					n := 0
					for _, e := range flat(b.Events) {
						if e.Kind != "dict.store" && e.Kind != "dict.delete" {
							continue
						}
						n++
						if e.Kind != "dict.store" || s.Norm(e.Args[0]) != m {
							return "an iteration changes " + e.Args[0].String() + " (path: " + facts(s) + ")"
						}
						if !z.text(s, e.Args[1], pair.key) {
							return fmt.Sprintf("%s is stored under %s, not %s (path: %s)", pair.what, e.Args[1], pair.key, facts(s))
						}
						if v := s.Norm(e.Args[2]); !z.text(s, v, pair.value) {
							return fmt.Sprintf("the value of %s becomes %s, not %s (path: %s)", pair.what, v, pair.value, facts(s))
						}
					}
					if n != 1 {
						return fmt.Sprintf("%s is stored %d times (path: %s)", pair.what, n, facts(s))
					}
					return ""
				})
			})
			if why == "" {
				loops++
				break
			}
		}
		r.Check(why == "", "pairs", z.name, "%s", why)
		r.Check(m.Op == ai.OAlloc, "pairs", z.name, "the map returned is %s, which is not a new one", m)
	}
	r.Floor("loops over pairs", loops, 1)
}

func checkD05(w *World, r *Rep) {
	w.net(r)
	r.Explain = "Every path of the zipmap decoder and of the library's own lookup over unknown bytes, and of its writer over unknown keys and values. By induction over the decoder's loop, each iteration stores exactly the pair at its position - for both forms of both lengths - and continues behind the value and its free bytes; it starts at 1, goes on only where there is no end mark and stops only there; a complete map never makes it fail. The lookup's loop is held to the same walk, goes on only past other keys and reports a key found only where it stands. The writer leaves the map as it was but for the end mark, and behind it the new pair in that layout and the end mark, with the pair counted while the count is below 254."
	f, enc, outs := w.decoder(r, "redis/zipmap")
	if f == nil {
		return
	}
	z := &zipMaps{w: w, r: r, enc: enc, name: w.place(f), seen: map[string]int{}}
	z.load(f, outs)
	z.floors("decoding")

	tn := "zipMap"
	if f := w.Fn("redis/zipmap", "New"); f != nil && f.Signature.Results().Len() == 1 {
		if n, ok := types.Unalias(deref(f.Signature.Results().At(0).Type())).(*types.Named); ok {
			tn = n.Obj().Name()
		}
	}
	t := w.Type("redis/zipmap", tn)
	look, set := w.method(r, "redis/zipmap", tn, "Lookup"), w.method(r, "redis/zipmap", tn, "Set")
	if look == nil || set == nil {
		return
	}
	field := -1
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), tByte) {
			field = i
		}
	}
	if !r.Check(field >= 0, "roles", "redis/zipmap.zipMap", "no field holds the encoded bytes") {
		return
	}
	bytes := func(st *ai.State, zm *ai.Term) *ai.Term {
		ft := t.Underlying().(*types.Struct).Field(field).Type()
		return st.Norm(w.E.Content(st, w.E.Load(st, ai.FieldAddr(zm, field), ft)))
	}
	if f := w.Fn("redis/zipmap", "New"); f != nil && len(f.Params) == 0 {
		for _, o := range w.run(r, f, nil, nil) {
			b := o.St.Norm(w.E.Content(o.St, w.E.Resolve(o.St, ai.FieldOf(o.Rets[0], field, st.Field(field).Type()))))
			r.Check(b == ai.Str("\x00\xff"), "new", w.place(f), "a new map is %s", b)
		}
	}
	w.lookup(r, look, bytes)
	w.append(r, set, field, bytes)
}

func (w *World) lookup(r *Rep, f *ssa.Function, bytes func(*ai.State, *ai.Term) *ai.Term) {
	as := w.symArgs(f)
	zm, key := as[0], as[1]
	start := w.Init()
	z := &zipMaps{w: w, r: r, enc: bytes(start, zm), name: w.place(f), seen: map[string]int{}}
	save := w.E
	w.E = w.E.With()
	w.E.ForkPanic = true
	outs := w.run(r, f, as, start)
	w.E = save
	found, not := 0, 0
	for _, o := range outs {
		st := o.St
		if o.Kind != ai.Ret {
			z.failing(o)
			continue
		}
		ls := loopsOf(st.Events())
		if !r.Check(len(ls) > 0, "lookup", z.name, "reports %s without looking (path: %s)", o.Rets[1], facts(st)) {
			continue
		}
		why := ""
		for _, l := range ls {
			why = best(l, func(p *ai.LoopVar) string {
				switch ok := st.Norm(o.Rets[1]); ok {
				case ai.Bool(false):
					if _, must := zipAtEnd(st, z.enc, p.Sym); !must {
						return "stops at " + p.Sym.String() + " where the map may go on"
					}
				case ai.Bool(true):
					if can, _ := zipAtEnd(st, z.enc, p.Sym); can {
						return "reports a key found behind the last pair"
					}
					bad := ""
					zipPairs(st, z.enc, p.Sym, func(s *ai.State, pair zipPair) {
						if bad == "" && !z.text(s, pair.key, key) && !z.text(s, key, pair.key) {
							bad = "reports the key found at " + pair.what + " that may have another"
						}
						if bad == "" && !equalTo(s, o.Rets[0], pair.keyAt) {
							bad = fmt.Sprintf("finds the key at %s, not %s", o.Rets[0], pair.keyAt)
						}
					})
					if bad != "" {
						return bad
					}
				default:
					return "the key is found if " + ok.String()
				}
				return z.walk(st, l, p, func(s *ai.State, b *ai.Iter, pair zipPair) string {
					if !s.Assume(ai.Eq(key, pair.key), true) {
						return ""
					}
					return "goes on at " + pair.what + " that may be the one (path: " + facts(s) + ")"
				})
			})
			if why == "" {
				if decided(st, o.Rets[1], true) {
					found++
				} else {
					not++
				}
				break
			}
		}
		r.Check(why == "", "lookup", z.name, "%s (path: %s)", why, facts(st))
	}
	r.Floor("paths that find a key", found, 1)
	r.Floor("paths that find none", not, 1)
	z.floors("looking past")
}

// append checks the writer where the key is not in the map yet.
func (w *World) append(r *Rep, f *ssa.Function, field int, bytes func(*ai.State, *ai.Term) *ai.Term) {
	as := w.symArgs(f)
	zm, key, value := as[0], as[1], as[2]
	start := w.Init()
	// a count, pairs, and the end mark
	n, pairs := ai.Sym("count", tByte), ai.Sym("pairs", stringType)
	w.E.Store(start, ai.FieldAddr(zm, field), w.E.NewSlice(start, "zipmap", ai.Cat(ai.ByteUnit(n), pairs, ai.ByteUnit(ai.Int(255)))), types.NewSlice(tByte))
	for _, x := range []*ai.Term{key, value} {
		start.Assume(ai.Le(ai.Len(x), ai.Int(1<<32-1)), true)
	}
	name := w.place(f)
	length := func(st *ai.State, x *ai.Term) []*ai.Term {
		n := ai.Len(x)
		switch st.Decide(ai.Le(n, ai.Int(253))) {
		case 1:
			return []*ai.Term{ai.ByteUnit(n)}
		case 0:
			out := []*ai.Term{ai.ByteUnit(ai.Int(254))}
			for i := 0; i < 4; i++ {
				out = append(out, ai.ByteUnit(ai.ByteOf(n, i)))
			}
			return out
		}
		return nil
	}
	seen := map[string]int{}
	for _, o := range w.run(r, f, as, start) {
		st := o.St
		if !r.Check(o.Kind == ai.Ret, "writes", name, "does not return: %v at %s (path: %s)", o.Val, w.Pos(o.Pos), facts(st)) {
			continue
		}
		there := false
		for _, x := range st.Lits() {
			there = there || x.Val && x.T.Op == ai.OEq && (x.T.Args[0] == key || x.T.Args[1] == key)
		}
		if there {
			seen["there"]++
			continue
		}
		rets, err := splitErr(f.Signature, o)
		_ = rets
		if err != nil && !err.IsNil() {
			r.Fail("writes", name, "reports an error (path: %s)", facts(st))
			continue
		}
		kl, vl := length(st, key), length(st, value)
		if !r.Check(kl != nil && vl != nil, "writes", name, "writes pairs with long and with short texts alike (path: %s)", facts(st)) {
			continue
		}
		seen[fmt.Sprintf("%d/%d", len(kl), len(vl))]++
		want := []*ai.Term{pairs}
		want = append(append(want, kl...), key)
		want = append(append(want, vl...), ai.ByteUnit(ai.Int(0)), value, ai.ByteUnit(ai.Int(255)))
		now := bytes(st, zm)
		// conversions that keep the length
		same := map[*ai.Term]*ai.Term{}
		for _, n := range []*ai.Term{ai.Len(key), ai.Len(value)} {
			same[ai.Conv(n, types.Typ[types.Int], types.Typ[types.Uint32])] = n
			if st.Decide(ai.Le(n, ai.Int(253))) == 1 {
				same[ai.Conv(n, types.Typ[types.Int], types.Typ[types.Uint8])] = n
				same[ai.Conv(n, types.Typ[types.Int], types.Typ[types.Uint16])] = n
			}
		}
		got := ai.Subst(st.Norm(ai.SubSeq(now, ai.Int(1), ai.Len(now))), same)
		exp := st.Norm(ai.Cat(want...))
		r.Check(got == exp || equalTo(st, got, exp), "writes", name, "the map goes on with %s, not %s (path: %s)", got, exp, facts(st))
		m := st.Norm(ai.Elem(now, ai.Int(0), tByte))
		ok := true
		for _, v := range admits(st, n, 0, 255) {
			s := st.Clone()
			if s.Assume(ai.Eq(n, ai.Int(int64(v))), true) {
				if v < 254 {
					v++
				}
				ok = ok && equalTo(s, m, ai.Int(int64(v)))
			}
		}
		r.Check(ok, "count", name, "the count %s becomes %s (path: %s)", n, m, facts(st))
	}
	r.Floor("keys already there", seen["there"], 1)
	for _, k := range []string{"1/1", "1/5", "5/1", "5/5"} {
		r.Floor("paths writing lengths of "+k+" bytes", seen[k], 1)
	}
}

func (z *zipMaps) floors(what string) {
	for _, k := range zipLens {
		for _, v := range zipLens {
			s := "a " + k.name + " key with a " + v.name + " value"
			z.r.Floor("paths "+what+" "+s, z.seen[s], 1)
		}
	}
}
