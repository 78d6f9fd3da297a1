package check

import (
	"fmt"
	"go/types"
	"strings"

	"xxverif/ai"
)

// A sequence (bytes or slice elements) built by loops is expanded into parts:
// terms, and folds that repeat their body once per element of a collection.
var (
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
)

type part struct {
	t    *ai.Term // a piece of the sequence
	fold *fold
}

type fold struct {
	over  *ai.Term // slice content or map
	isMap bool
	k, v  *ai.Term // the element (v for slices; k and v for maps)
	body  []part

	// repeated reading of a stream: n times, from offset start on, each time
	// from off to next
	n, start, off, next *ai.Term

	// groups of that many consecutive elements of a slice
	group []*ai.Term
}

// seqCtx is what expansion needs to know about one path.
type seqCtx struct {
	w     *World
	e     *ai.Engine
	loops []*ai.LoopInfo
	evs   []*ai.Event
	st    *ai.State
	why   string
	depth int
	open  map[*ai.Term]bool // accumulators being expanded
}

func (w *World) seqOf(st *ai.State) *seqCtx {
	return &seqCtx{w: w, e: w.E, loops: loopsOf(st.Events()), evs: st.Events(), st: st}
}

func (c *seqCtx) fail(format string, a ...any) []part {
	if c.why == "" {
		c.why = fmt.Sprintf(format, a...)
	}
	return nil
}

// accOf finds the loop whose accumulator is sym.
func (c *seqCtx) accOf(sym *ai.Term) (*ai.LoopInfo, *ai.LoopVar) {
	for _, l := range c.loops {
		for _, v := range l.Vars {
			if v.Sym == sym {
				return l, v
			}
		}
	}
	return nil, nil
}

// expand rewrites sequence t of state st into parts.
func (c *seqCtx) expand(t *ai.Term) []part {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 40 {
		return c.fail("expansion too deep")
	}
	t = c.st.Norm(t)
	if t.Op == ai.OCat {
		var ps []part
		for _, a := range t.Args {
			ps = append(ps, c.expand(a)...)
		}
		return ps
	}
	if t.IsConstStr() && t.S == "" {
		return nil
	}
	if c.open[t] {
		return []part{{t: t}}
	}
	if l, v := c.accOf(t); l != nil {
		return c.expandAcc(l, v)
	}
	if t.Op == ai.OSub && t.Args[1].String() == "0" {
		// a prefix as long as what a loop filled
		if l, v := c.accOf(t.Args[0]); l != nil && filled(l, v) && zero0(c.st, ai.Sub(t.Args[2], ai.Len(v.Init))) {
			return c.expandAcc(l, v)
		}
	}
	if t.Is("join") && t.Args[1].IsConstStr() && t.Args[1].S == "" {
		return c.unwrap(c.expand(t.Args[0]))
	}
	if t.Is("itoa") || t.Is("utoa") {
		return []part{{t: c.number(t)}}
	}
	if t.Op == ai.OCall && strings.HasPrefix(t.S, "m:Serialize") && len(t.Args) == 1 {
		return c.method(t, "Serialize")
	}
	if t.Op == ai.OUnit && t.Args[0].Op == ai.OCall && strings.HasPrefix(t.Args[0].S, "m:String") {
		return []part{{t: ai.Unit(c.text(t.Args[0]))}}
	}
	if t.Op == ai.OCall && strings.HasPrefix(t.S, "m:String") && len(t.Args) == 1 {
		return c.method(t, "String")
	}
	return []part{{t: t}}
}

// text resolves calls of String on values of known type.
func (c *seqCtx) text(t *ai.Term) *ai.Term {
	if t.Op == ai.OCall && strings.HasPrefix(t.S, "m:String") && len(t.Args) == 1 {
		ps := c.method(t, "String")
		var a []*ai.Term
		for _, p := range ps {
			if p.fold != nil {
				return t
			}
			a = append(a, p.t)
		}
		return ai.Cat(a...)
	}
	return t
}

// number rewrites the length of accumulators inside a formatted number.
func (c *seqCtx) number(t *ai.Term) *ai.Term {
	m := map[*ai.Term]*ai.Term{}
	ai.Walk(t, func(x *ai.Term) bool {
		if x.Op == ai.OLen {
			if l, _ := c.accOf(x.Args[0]); l != nil {
				m[x] = count(c.expand(x.Args[0]))
				return false
			}
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	t = ai.Subst(t, m)
	if t.Is("itoa") && t.Args[0].IsInt() {
		return ai.Str(fmt.Sprint(t.Args[0].K))
	}
	return t
}

// card is the number of entries of a map.
func card(m *ai.Term) *ai.Term { return ai.Call("card", tInt, m) }

// count is the number of elements of an expanded sequence.
func count(ps []part) *ai.Term {
	n := ai.Int(0)
	for _, p := range ps {
		if p.fold != nil {
			k := count(p.fold.body)
			if !k.IsInt() {
				return ai.Call("?count", tInt)
			}
			var c *ai.Term
			switch {
			case p.fold.n != nil:
				c = p.fold.n
			case p.fold.group != nil:
				c = ai.Call("div", tInt, ai.Len(p.fold.over), ai.Int(int64(len(p.fold.group))))
			default:
				c = ai.Len(p.fold.over)
			}
			if p.fold.isMap {
				c = card(p.fold.over)
			}
			n = ai.Add(n, ai.Scale(c, k.K))
			continue
		}
		n = ai.Add(n, ai.Len(p.t))
	}
	return n
}

// method applies a method to an interface of known dynamic type.
func (c *seqCtx) method(t *ai.Term, name string) []part {
	x := c.st.Norm(t.Args[0])
	if x.Op != ai.OIface {
		return []part{{t: t}}
	}
	f := c.w.Prog.LookupMethod(x.T, nil, name)
	if f == nil {
		return []part{{t: t}}
	}
	st := c.st.Clone()
	st.ClearEvents()
	var got []part
	n := 0
	for _, o := range c.e.Run(f, []*ai.Term{x.Args[0]}, st) {
		if o.Kind != ai.Ret {
			continue
		}
		n++
		d := &seqCtx{w: c.w, e: c.e, loops: append(loopsOf(o.St.Events()), c.loops...), evs: append(append([]*ai.Event{}, c.evs...), o.St.Events()...), st: o.St, depth: c.depth}
		got = d.expand(o.Rets[0])
		if d.why != "" {
			return c.fail("%s", d.why)
		}
	}
	if n != 1 {
		return c.fail("%s of %s has %d outcomes", name, shortType(x.T), n)
	}
	return got
}

func (c *seqCtx) expandAcc(l *ai.LoopInfo, v *ai.LoopVar) []part {
	if len(l.Backs) != 1 || v.Init == nil {
		return c.fail("the loop at %s adds differently on %d paths", c.w.Pos(l.Pos), len(l.Backs))
	}
	it := l.Backs[0]
	step := it.St.Norm(v.Steps[0])
	pre := c.expand(v.Init)
	if step == v.Sym {
		return pre // never changes
	}
	var tail *ai.Term
	if idx := indexVar(l); filled(l, v) && idx != nil {
		// every position is filled once, in order
		if !zero0(it.St, ai.Sub(step.Args[1], cur(it.St, l, idx)), l) || !finished(c.st, l, idx, ai.Len(v.Init)) {
			return c.fail("the loop at %s does not fill every position in order", c.w.Pos(l.Pos))
		}
		pre = nil
		tail = ai.Unit(step.Args[2])
	} else if step.Op != ai.OCat || step.Args[0] != v.Sym {
		return append(pre, c.nested(l, v, it, step)...)
	} else {
		tail = ai.Cat(step.Args[1:]...)
	}
	if ai.Contains(tail, v.Sym) {
		return c.fail("the loop at %s appends something of its own result", c.w.Pos(l.Pos))
	}
	inner := c.within(it)
	if f := c.reading(l, it); f != nil {
		f.body = inner.expand(tail)
		if inner.why != "" {
			return c.fail("%s", inner.why)
		}
		return append(pre, part{fold: f})
	}
	// a map
	if m := over(l); m != nil {
		if !wholeRange(c.evs, l) {
			return c.fail("the loop at %s can stop early", c.w.Pos(l.Pos))
		}
		k, val := nextPair(it, m)
		if k == nil {
			return c.fail("the loop at %s visits nothing", c.w.Pos(l.Pos))
		}
		body := inner.expand(tail)
		if inner.why != "" {
			return c.fail("%s", inner.why)
		}
		return append(pre, part{fold: &fold{over: m, isMap: true, k: k, v: val, body: body}})
	}
	// a slice: every use of the position is the element there
	idx := indexVar(l)
	if idx == nil {
		if f := c.groups(l, it, strideVar(l), tail); f != nil {
			return append(pre, part{fold: f})
		}
		return c.fail("the loop at %s visits no collection in order", c.w.Pos(l.Pos))
	}
	pos := cur(it.St, l, idx)
	var x *ai.Term
	bad := false
	see := func(t *ai.Term) bool {
		if t.Op == ai.OElem && len(t.Args) == 2 && t.Args[1] == pos {
			if x == nil {
				x = t.Args[0]
			}
			bad = bad || x != t.Args[0]
			return false
		}
		if t == idx.Sym {
			bad = true
		}
		return true
	}
	ai.Walk(tail, see)
	if x == nil || bad {
		if f := c.groups(l, it, idx, tail); f != nil {
			return append(pre, part{fold: f})
		}
		return c.fail("the loop at %s appends %s, not a function of one element", c.w.Pos(l.Pos), tail)
	}
	n := c.lenOf(x)
	if !finished(withInvariants(c.st), l, idx, n) && !finished(withInvariants(c.st), l, idx, ai.Len(x)) {
		return c.fail("the loop at %s can stop before the last element", c.w.Pos(l.Pos))
	}
	el := ai.Elem(x, pos, nil)
	ai.Walk(tail, func(t *ai.Term) bool {
		if t.Op == ai.OElem && len(t.Args) == 2 && t.Args[1] == pos && t.Args[0] == x {
			el = t
			return false
		}
		return true
	})
	xs := c.expand(x)
	if len(xs) == 1 && xs[0].fold == nil && xs[0].t == x {
		ph := ai.Sym("elem:"+x.String(), el.T)
		if inner.st.TypeOf(el) != nil {
			ph = el
		}
		body := inner.expand(ai.Subst(tail, map[*ai.Term]*ai.Term{el: ph}))
		if inner.why != "" {
			return c.fail("%s", inner.why)
		}
		return append(pre, part{fold: &fold{over: x, v: ph, body: body}})
	}
	return append(pre, c.distribute(inner, xs, tail, el)...)
}

// within is the context of one iteration.
func (c *seqCtx) within(it *ai.Iter) *seqCtx {
	return &seqCtx{w: c.w, e: c.e, loops: append(loopsOf(it.Events), c.loops...), evs: it.Events, st: it.St, depth: c.depth, open: c.open}
}

// nested expands an iteration that appends with a loop of its own.
func (c *seqCtx) nested(l *ai.LoopInfo, v *ai.LoopVar, it *ai.Iter, step *ai.Term) []part {
	inner := c.within(it)
	inner.open = map[*ai.Term]bool{v.Sym: true}
	for k := range c.open {
		inner.open[k] = true
	}
	body := inner.expand(step)
	if inner.why != "" {
		return c.fail("%s", inner.why)
	}
	if len(body) == 0 || body[0].t != v.Sym || mentions(body[1:], v.Sym) {
		return c.fail("the loop at %s does not append: %s", c.w.Pos(l.Pos), step)
	}
	body = body[1:]
	if f := c.reading(l, it); f != nil {
		f.body = body
		return []part{{fold: f}}
	}
	m := over(l)
	if m == nil || !wholeRange(c.evs, l) {
		return c.fail("the loop at %s does not append: %s", c.w.Pos(l.Pos), step)
	}
	k, val := nextPair(it, m)
	if k == nil {
		return c.fail("the loop at %s visits nothing", c.w.Pos(l.Pos))
	}
	return []part{{fold: &fold{over: m, isMap: true, k: k, v: val, body: body}}}
}

func mentions(ps []part, x *ai.Term) bool {
	for _, p := range ps {
		if p.fold != nil {
			if mentions(p.fold.body, x) {
				return true
			}
			continue
		}
		if ai.Contains(p.t, x) {
			return true
		}
	}
	return false
}

// reading recognises a loop that reads a stream an announced number of times.
func (c *seqCtx) reading(l *ai.LoopInfo, it *ai.Iter) *fold {
	if over(l) != nil || len(l.Backs) != 1 {
		return nil
	}
	var off *ai.LoopVar
	for _, v := range l.Vars {
		if strings.HasPrefix(v.What, "off:") && it.St.Norm(v.Steps[0]) != v.Sym {
			if off != nil {
				return nil
			}
			off = v
		}
	}
	idx := indexVar(l)
	if off == nil || idx == nil || off.Init == nil {
		return nil
	}
	n := c.times(l, idx)
	if n == nil {
		return nil
	}
	in := c.within(it)
	return &fold{n: n, start: c.where(off.Init), off: off.Sym, next: in.where(off.Steps[0])}
}

// times is the announced length that loop l counts to.
func (c *seqCtx) times(l *ai.LoopInfo, idx *ai.LoopVar) *ai.Term {
	var cands []*ai.Term
	see := func(t *ai.Term) bool {
		if t.Is("rdbLen") {
			cands = append(cands, t)
		}
		if t.Op == ai.OConv && t.Args[0].Is("rdbLen") {
			cands = append(cands, t)
			return false
		}
		return true
	}
	for _, v := range l.Vars {
		if v.Init != nil {
			ai.Walk(v.Init, see)
		}
	}
	for _, q := range l.Backs[0].St.Lits() {
		ai.Walk(q.T, see)
	}
	for _, n := range cands {
		if finished(withInvariants(c.st), l, idx, n) && everyBelow(l, idx, n) {
			for n.Op == ai.OConv {
				n = n.Args[0]
			}
			return n
		}
	}
	return nil
}

// where writes a stream offset after loops by how the loops read.
func (c *seqCtx) where(t *ai.Term) *ai.Term {
	t = c.st.Norm(t)
	m := map[*ai.Term]*ai.Term{}
	ai.Walk(t, func(x *ai.Term) bool {
		if x.Op != ai.OSym {
			return true
		}
		if l, v := c.accOf(x); l != nil && strings.HasPrefix(v.What, "off:") && len(l.Backs) == 1 && !c.open[x] {
			d := *c
			if f := d.reading(l, l.Backs[0]); f != nil && f.off == x {
				m[x] = after(f)
			}
		}
		return true
	})
	return ai.Subst(t, m)
}

var offMark = ai.Sym("$o", types.Typ[types.Int])

// after is where repeated reading ends.
func after(f *fold) *ai.Term {
	return ai.Call("after", tInt, f.n, f.start, ai.Subst(f.next, map[*ai.Term]*ai.Term{f.off: offMark}))
}

// strideVar is a counter from 0 on that grows by a constant.
func strideVar(l *ai.LoopInfo) *ai.LoopVar {
	for _, v := range l.Vars {
		if v.Init == nil || !v.Init.IsInt() || !ai.IsIntType(v.Sym.T) || !strings.HasPrefix(v.What, "phi") && !strings.HasPrefix(v.What, "mem") || len(v.Steps) != 1 {
			continue
		}
		if d := l.Backs[0].St.Norm(ai.Sub(v.Steps[0], v.Sym)); d.IsInt() && d.K > 1 {
			return v
		}
	}
	return nil
}

// groups recognises a loop over consecutive groups of elements of one slice.
func (c *seqCtx) groups(l *ai.LoopInfo, it *ai.Iter, idx *ai.LoopVar, tail *ai.Term) *fold {
	if idx == nil || idx.What == "len" || idx.What == "down" || len(l.Backs) != 1 {
		return nil
	}
	step := it.St.Norm(ai.Sub(idx.Steps[0], idx.Sym)).K
	// every element used is at stride*k + residue in iteration k
	var x *ai.Term
	stride := int64(0)
	type use struct{ el, k *ai.Term }
	var uses []use
	bad := false
	turn := idx.Sym // what counts the iterations
	ai.Walk(it.St.Norm(idx.Sym), func(t *ai.Term) bool {
		if t.Op == ai.OSym {
			turn = t
		}
		return true
	})
	ai.Walk(tail, func(t *ai.Term) bool {
		if t.Op == ai.OElem && len(t.Args) == 2 && (ai.Contains(t.Args[1], idx.Sym) || ai.Contains(t.Args[1], turn)) {
			a := int64(0)
			for _, q := range []int64{1, 2, 3, 4} {
				if d := it.St.Norm(ai.Sub(t.Args[1], ai.Scale(idx.Sym, q))); d.IsInt() {
					a = q
					uses = append(uses, use{t, ai.AddK(d, q*idx.Init.K)})
				}
			}
			bad = bad || a == 0 || x != nil && x != t.Args[0] || stride != 0 && stride != a*step
			x, stride = t.Args[0], a*step
			return false
		}
		bad = bad || t == idx.Sym || t == turn
		return true
	})
	if x == nil || bad || stride < 2 {
		return nil
	}
	f := &fold{over: x, group: make([]*ai.Term, stride)}
	m := map[*ai.Term]*ai.Term{}
	for _, u := range uses {
		k := u.k.K
		if k < 0 || k >= stride {
			return nil
		}
		if f.group[k] == nil {
			f.group[k] = ai.Sym(fmt.Sprintf("group%d:%s", k, x), u.el.T)
		}
		m[u.el] = f.group[k]
	}
	// position of the first element of the group
	first := ai.Scale(ai.AddK(idx.Sym, -idx.Init.K), stride/step)
	n := ai.Len(x)
	halves := func(st *ai.State) *ai.State {
		s := withInvariants(st, l)
		for _, lit := range st.Lits() {
			ai.Walk(lit.T, func(t *ai.Term) bool {
				if t.Is("div") && t.Args[1].IsInt() && t.Args[1].K > 1 && s.EntailsLe0(ai.Scale(t.Args[0], -1)) {
					k := t.Args[1].K
					s.Assume(ai.Le0(ai.Sub(ai.Scale(t, k), t.Args[0])), true)
					s.Assume(ai.Le0(ai.AddK(ai.Sub(t.Args[0], ai.Scale(t, k)), -(k-1))), true)
				}
				return true
			})
		}
		return s
	}
	if !halves(c.st).EntailsLe0(ai.AddK(ai.Sub(n, first), -(stride - 1))) {
		return nil
	}
	// where the length is a multiple of the stride, an element more is a group more
	slack := int64(0)
	if decided(it.St, ai.Eq(ai.Call("rem", tInt, n, ai.Int(stride)), ai.Int(0)), true) {
		slack = stride - 1
	}
	if !halves(it.St).EntailsLe0(ai.AddK(ai.Sub(first, n), stride-slack)) {
		return nil
	}
	inner := c.within(it)
	f.body = inner.expand(ai.Subst(tail, m))
	if inner.why != "" {
		c.fail("%s", inner.why)
		return nil
	}
	return f
}

// distribute applies "tail of el" to every element of xs.
func (c *seqCtx) distribute(inner *seqCtx, xs []part, tail, el *ai.Term) []part {
	var out []part
	for _, p := range xs {
		switch {
		case p.fold != nil:
			f := *p.fold
			f.body = c.distribute(inner, p.fold.body, tail, el)
			out = append(out, part{fold: &f})
		case p.t.Op == ai.OUnit:
			in := &seqCtx{w: c.w, e: c.e, loops: inner.loops, evs: inner.evs, st: inner.st, depth: c.depth, open: c.open}
			out = append(out, in.expand(ai.Subst(tail, map[*ai.Term]*ai.Term{el: p.t.Args[0]}))...)
			if in.why != "" {
				c.fail("%s", in.why)
			}
		case p.t.IsConstStr() && p.t.S == "":
		default:
			// a whole other collection appended
			ph := ai.Sym("elem:"+p.t.String(), el.T)
			in := &seqCtx{w: c.w, e: c.e, loops: inner.loops, evs: inner.evs, st: inner.st, depth: c.depth, open: c.open}
			body := in.expand(ai.Subst(tail, map[*ai.Term]*ai.Term{el: ph}))
			if in.why != "" {
				c.fail("%s", in.why)
			}
			out = append(out, part{fold: &fold{over: p.t, v: ph, body: body}})
		}
	}
	return out
}

// filled: the loop only replaces elements of v.
func filled(l *ai.LoopInfo, v *ai.LoopVar) bool {
	for i, s := range v.Steps {
		x := l.Backs[i].St.Norm(s)
		if x.Op != ai.OUpd || x.Args[0] != v.Sym {
			return false
		}
	}
	return v.Init != nil && len(v.Steps) > 0
}

func (c *seqCtx) lenOf(x *ai.Term) *ai.Term {
	if l, v := c.accOf(x); l != nil && filled(l, v) {
		return c.st.Norm(ai.Len(v.Init))
	}
	return c.st.Norm(ai.Len(x))
}

func substParts(ps []part, m map[*ai.Term]*ai.Term) []part {
	var out []part
	for _, p := range ps {
		if p.fold != nil {
			f := *p.fold
			if f.over != nil {
				f.over = ai.Subst(f.over, m)
			}
			if f.n != nil {
				f.n, f.start, f.next = ai.Subst(f.n, m), ai.Subst(f.start, m), ai.Subst(f.next, m)
			}
			f.body = substParts(f.body, m)
			out = append(out, part{fold: &f})
			continue
		}
		out = append(out, part{t: ai.Subst(p.t, m)})
	}
	return out
}

// each rewrites every element of a sequence.
func (c *seqCtx) unwrap(ps []part) []part {
	var out []part
	for _, p := range ps {
		switch {
		case p.fold != nil:
			f := *p.fold
			f.body = c.unwrap(f.body)
			out = append(out, part{fold: &f})
		case p.t.Op == ai.OUnit:
			out = append(out, c.expand(p.t.Args[0])...)
		case p.t.Op == ai.OCat:
			for _, a := range p.t.Args {
				out = append(out, c.unwrap([]part{{t: a}})...)
			}
		default:
			return c.fail("joins unknown strings: %s", p.t)
		}
	}
	return out
}

// canon renders parts with adjacent constants merged and placeholders renamed,
// so that equal sequences give equal strings.
func canon(ps []part, fold func(string) string) string {
	if fold == nil {
		fold = func(s string) string { return s }
	}
	var sb, lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			fmt.Fprintf(&sb, "%q ", fold(lit.String()))
			lit.Reset()
		}
	}
	depth := 0
	var w func(ps []part)
	w = func(ps []part) {
		for _, p := range ps {
			if p.fold != nil {
				flush()
				depth++
				m := map[*ai.Term]*ai.Term{}
				head := "(each"
				if p.fold.k != nil {
					m[p.fold.k] = ai.Sym(fmt.Sprintf("$k%d", depth), p.fold.k.T)
					head += " k"
				}
				if p.fold.v != nil {
					m[p.fold.v] = ai.Sym(fmt.Sprintf("$v%d", depth), p.fold.v.T)
				}
				for i, g := range p.fold.group {
					if g != nil {
						m[g] = ai.Sym(fmt.Sprintf("$g%d.%d", depth, i), g.T)
					}
				}
				switch {
				case p.fold.n != nil:
					m[p.fold.off] = offMark
					fmt.Fprintf(&sb, "(%s times from %s to %s: ", p.fold.n, p.fold.start, ai.Subst(p.fold.next, m))
				case p.fold.group != nil:
					fmt.Fprintf(&sb, "%s%d %d of %s: ", head, depth, len(p.fold.group), p.fold.over)
				default:
					fmt.Fprintf(&sb, "%s%d of %s: ", head, depth, p.fold.over)
				}
				w(substParts(p.fold.body, m))
				flush()
				depth--
				sb.WriteString(") ")
				continue
			}
			if p.t.IsConstStr() {
				lit.WriteString(p.t.S)
				continue
			}
			if p.t.Op == ai.OCat {
				var qs []part
				for _, a := range p.t.Args {
					qs = append(qs, part{t: a})
				}
				w(qs)
				continue
			}
			flush()
			fmt.Fprintf(&sb, "%s ", p.t)
		}
	}
	w(ps)
	flush()
	return strings.TrimSpace(sb.String())
}
