package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopVar is a quantity generalised at a loop head.
type LoopVar struct {
	Loop  *LoopInfo
	Sym   *Term
	What  string
	Init  *Term
	Steps []*Term // value at each back edge, over Sym and the iteration's symbols
	T     types.Type
}

// LoopInfo summarises one loop on one path.
type LoopInfo struct {
	ID    string
	Fn    *ssa.Function
	Pos   token.Pos
	Kind  string // "for" or "range"
	Over  *Term  // ranged dictionary
	Key   *Term
	Val   *Term
	Vars  []*LoopVar
	Entry *State
	Gen   *State
	Backs []*Iter
}

// Iter is one abstract iteration ending at the back edge.
type Iter struct {
	St     *State
	Events []*Event
}

type genVar struct {
	kind     string // "phi", "mem", "off", "out", "cnt"
	phi      *ssa.Phi
	addr     *Term
	init     *Term
	sym      *Term
	typ      types.Type
	repl     *Term // replacement over another generalised variable (affine relation)
	noRel    bool
	lower    bool // sym >= init established
	upper    bool
	noLow    bool
	noUp     bool
	step     int64 // common constant stride
	strideOK bool
	unit     int64 // constant step of a number, or constant growth of a length
	unitOK   bool
	noUnit   bool
	bounds   []*Term // each <= 0 in every iteration's entry
	bounded  bool
	// of a slice or string that only loses its front ("pos"): what it is a part of
	arr, lo, hi *Term
	noPos       bool
}

func (g *genVar) key() string {
	switch g.kind {
	case "phi", "pos":
		return g.kind + ":" + g.phi.Name()
	}
	return g.kind + ":" + g.addr.String()
}

// part splits a slice or string into what it is a part of and the limits.
func part(st *State, v *Term, t types.Type) (arr, lo, hi *Term) {
	if v == nil {
		return nil, nil, nil
	}
	v = st.Norm(v)
	if isStringType(t) {
		if v.Op == OSub {
			return v.Args[0], v.Args[1], v.Args[2]
		}
		return v, Int(0), st.Norm(Len(v))
	}
	switch v.Op {
	case OSlice:
		return v.Args[0], v.Args[1], v.Args[2]
	case OSym:
		return v, Int(0), st.Norm(Len(v))
	}
	return nil, nil, nil
}

// front is how much the slice has lost at the end of an iteration.
func (g *genVar) front(b *path) *Term {
	arr, lo, hi := part(b.st, b.env[g.phi], g.phi.Type())
	if arr == nil || arr != b.st.Norm(g.arr) || hi != b.st.Norm(g.hi) {
		return nil
	}
	return Sub(lo, b.st.Norm(g.lo))
}

// fronts turns slices that only lose their front into positions.
func (lc *loopCore) fronts(g0 *path, backs []*path) bool {
	for i, k := range lc.order {
		g := lc.vars[k]
		switch {
		case g.kind == "pos":
			ok := true
			for _, b := range backs {
				d := g.front(b)
				ok = ok && d != nil && b.st.EntailsLe0(Sub(Add(g.lo, d), g.hi))
			}
			if ok {
				continue
			}
			delete(lc.vars, k)
			lc.order = append(append([]string{}, lc.order[:i]...), lc.order[i+1:]...)
			init := lc.entry.env[g.phi]
			if seqType(g.phi.Type()) {
				init = lc.e.Content(lc.entry.st, init)
			}
			lc.add(&genVar{kind: "phi", phi: g.phi, init: init, typ: g.phi.Type(), noPos: true})
			return true
		case g.kind == "phi" && !g.noPos && seqType(g.typ):
			if _, was := g0.st.symDefined(g); !was {
				continue
			}
			arr, lo, hi := part(lc.entry.st, lc.entry.env[g.phi], g.typ)
			ok := arr != nil && len(backs) > 0
			n := Len(g.sym)
			for _, b := range backs {
				a, _, h := part(b.st, b.env[g.phi], g.typ)
				ok = ok && a == g.sym && (h == b.st.Norm(n) || h == n)
			}
			if !ok {
				continue
			}
			delete(lc.vars, k)
			lc.order = append(append([]string{}, lc.order[:i]...), lc.order[i+1:]...)
			lc.add(&genVar{kind: "pos", phi: g.phi, init: Int(0), typ: types.Typ[types.Int], arr: arr, lo: lo, hi: hi})
			return true
		}
	}
	return false
}

func (g *genVar) value() *Term {
	if g.repl != nil {
		return g.repl
	}
	return g.sym
}

type backVal struct {
	st  *State
	env map[ssa.Value]*Term
}

// loopCore runs the fixpoint shared by CFG loops and callback iteration.
type loopCore struct {
	e     *Engine
	id    string
	entry *path
	vars  map[string]*genVar
	order []string
}

func (lc *loopCore) get(k string) *genVar { return lc.vars[k] }

func (lc *loopCore) add(g *genVar) {
	k := g.key()
	lc.vars[k] = g
	lc.order = append(lc.order, k)
	g.sym = Sym("L:"+lc.id+":"+k, g.typ)
}

// gen builds the generalised entry path.
func (lc *loopCore) gen(marker *Event) *path {
	p := lc.entry.clone()
	// the count of iterations, if some number tells it
	var count *Term
	for _, k := range lc.order {
		g := lc.vars[k]
		if g.unitOK && g.repl == nil && numeric(g.sym) && g.init != nil && (g.unit == 1 || g.unit == -1) {
			count = Scale(Sub(g.sym, g.init), g.unit)
			break
		}
	}
	for _, k := range lc.order {
		g := lc.vars[k]
		v := g.value()
		switch g.kind {
		case "phi":
			p.env[g.phi] = v
		case "pos":
			if isStringType(g.phi.Type()) {
				p.env[g.phi] = SubSeq(g.arr, Add(g.lo, v), g.hi)
			} else {
				p.env[g.phi] = mk(Term{Op: OSlice, Args: []*Term{g.arr, Add(g.lo, v), g.hi}})
			}
			p.st.addLe(Sub(Add(g.lo, v), g.hi))
		case "mem":
			p.st.Mem[g.addr] = v
		case "off":
			p.st.Off[g.addr] = v
		case "out":
			p.st.Out[g.addr] = v
		case "cnt":
			p.st.Count[g.addr] = v
		}
		if g.repl == nil && numeric(g.sym) && g.init != nil {
			if g.lower {
				p.st.addLe(Sub(g.init, g.sym))
			}
			if g.upper {
				p.st.addLe(Sub(g.sym, g.init))
			}
			for _, b := range g.bounds {
				p.st.addLe(b)
			}
			if g.step > 1 && g.strideOK && g.init.Op == OInt {
				// sym = init + step*n
				n := count
				if n == nil {
					n = Sym(g.sym.S+":n", types.Typ[types.Int])
				}
				p.st.addLe(Scale(n, -1))
				d := Sub(g.sym, Add(g.init, Scale(n, g.step)))
				p.st.addLe(d)
				p.st.addLe(Scale(d, -1))
				p.st.rew[g.sym] = Add(g.init, Scale(n, g.step))
			}
		}
	}
	// lengths that change by a constant follow the count of iterations
	n := count
	for _, k := range lc.order {
		g := lc.vars[k]
		if n == nil && g.repl == nil && g.step > 1 && g.strideOK && g.init != nil && g.init.Op == OInt {
			n = Sym(g.sym.S+":n", types.Typ[types.Int])
		}
	}
	for _, k := range lc.order {
		g := lc.vars[k]
		if !g.unitOK || numeric(g.sym) || g.init == nil {
			continue
		}
		if n == nil {
			n = Sym("L:"+lc.id+":n", types.Typ[types.Int])
			p.st.addLe(Scale(n, -1))
		}
		to := Add(Len(g.init), Scale(n, g.unit))
		d := Sub(Len(g.sym), to)
		p.st.addLe(d)
		p.st.addLe(Scale(d, -1))
		if g.unit < -1 && Len(g.sym).Op == OLen {
			p.st.rew[Len(g.sym)] = to
		}
	}
	return p
}

// update inspects the back edges; it reports whether the generalisation changed.
func (lc *loopCore) update(g0 *path, backs []*path, phis []*ssa.Phi) bool {
	if lc.fronts(g0, backs) {
		return true
	}
	changed := false
	e := lc.e
	backValue := func(g *genVar, b *path) *Term {
		var v *Term
		switch g.kind {
		case "phi":
			v = b.env[g.phi]
			if v != nil && seqType(g.typ) {
				v = e.Content(b.st, v)
			}
		case "pos":
			v = g.front(b)
		case "mem":
			v = b.st.Mem[g.addr]
		case "off":
			v = b.st.Off[g.addr]
		case "out":
			v = b.st.Out[g.addr]
		case "cnt":
			v = b.st.Count[g.addr]
		}
		if v == nil {
			v = g.init
		}
		return b.st.Norm(v)
	}
	// newly varying locations
	for _, ph := range phis {
		k := "phi:" + ph.Name()
		if lc.vars[k] != nil || lc.vars["pos:"+ph.Name()] != nil {
			continue
		}
		cur := g0.env[ph]
		for _, b := range backs {
			if v := b.env[ph]; v != cur && b.st.Norm(v) != b.st.Norm(cur) {
				init := lc.entry.env[ph]
				if seqType(ph.Type()) {
					init = e.Content(lc.entry.st, init)
				}
				lc.add(&genVar{kind: "phi", phi: ph, init: init, typ: ph.Type()})
				changed = true
				break
			}
		}
	}
	scan := func(kind string, g map[*Term]*Term, get func(*State) map[*Term]*Term, def func(a *Term) *Term, typ func(a *Term) types.Type) {
		seen := map[*Term]bool{}
		var addrs []*Term
		for _, b := range backs {
			for a := range get(b.st) {
				if !seen[a] {
					seen[a] = true
					addrs = append(addrs, a)
				}
			}
		}
		sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
		for _, a := range addrs {
			if lc.vars[kind+":"+a.String()] != nil {
				continue
			}
			base, had := g[a]
			if !had {
				if r := root(a); kind == "mem" && (r.Op == OAlloc || r.Op == OSym && lc.local(r)) {
					continue // allocated in the loop body
				}
				if kind == "mem" && lc.mentionsLocal(a) {
					continue
				}
				base = def(a)
			}
			for _, b := range backs {
				v, ok := get(b.st)[a]
				if !ok {
					continue
				}
				if v != base && b.st.Norm(v) != b.st.Norm(base) {
					init := base
					if i, ok := get(lc.entry.st)[a]; ok {
						init = i
					}
					lc.add(&genVar{kind: kind, addr: a, init: init, typ: typ(a)})
					changed = true
					break
				}
			}
		}
	}
	scan("mem", g0.st.Mem, func(s *State) map[*Term]*Term { return s.Mem },
		func(a *Term) *Term {
			t := AddrElem(a)
			if t == nil {
				t = types.Typ[types.Int]
			}
			s := g0.st.Clone()
			delete(s.Mem, a)
			if a.Op == OSym && a.T != nil && seqType(a.T) {
				return a // a slice stands for its content
			}
			return e.Load(s, a, t)
		},
		func(a *Term) types.Type {
			if a.Op == OAlloc && strings.HasPrefix(a.S, "arr@") || a.Op == OSym {
				return nil
			}
			return AddrElem(a)
		})
	intT := types.Typ[types.Int]
	scan("off", g0.st.Off, func(s *State) map[*Term]*Term { return s.Off }, func(*Term) *Term { return Int(0) }, func(*Term) types.Type { return types.Typ[types.Int] })
	scan("out", g0.st.Out, func(s *State) map[*Term]*Term { return s.Out }, func(*Term) *Term { return Str("") }, func(*Term) types.Type { return types.Typ[types.String] })
	scan("cnt", g0.st.Count, func(s *State) map[*Term]*Term { return s.Count }, func(*Term) *Term { return Int(0) }, func(*Term) types.Type { return intT })

	// relations and induction bounds
	var ints []*genVar
	for _, k := range lc.order {
		g := lc.vars[k]
		if g.typ == nil || !(IsIntType(g.typ) || typeKey(g.typ) == "time.Time") {
			continue
		}
		if _, was := g0.st.symDefined(g); !was {
			continue // added in this pass: no step known over its symbol yet
		}
		ints = append(ints, g)
	}
	for i, g := range ints {
		if g.repl != nil {
			for _, b := range backs {
				if backValue(g, b) != b.st.Norm(Subst(g.repl, lc.stepMap(backValue, b))) {
					g.repl = nil
					g.noRel = true
					changed = true
					break
				}
			}
			if g.repl != nil {
				continue
			}
		}
		if !g.noRel && len(backs) > 0 {
			for _, a := range ints[:i] {
				if a.repl != nil {
					continue
				}
				for _, sg := range []int64{1, -1} {
					ok := true
					for _, b := range backs {
						da := Sub(backValue(a, b), a.sym)
						dg := Sub(backValue(g, b), g.sym)
						if Ring(dg) != Ring(Scale(da, sg)) {
							ok = false
							break
						}
					}
					if ok {
						g.repl = Add(g.init, Scale(Sub(a.sym, a.init), sg))
						changed = true
						break
					}
				}
				if g.repl != nil {
					break
				}
			}
			if g.repl != nil {
				continue
			}
		}
		if g.constant(backs, func(b *path) *Term { return Sub(backValue(g, b), b.st.Norm(g.sym)) }) {
			changed = true
		}
		if lc.guards(g, backs, backValue) {
			changed = true
		}
		// monotonicity
		up, down := len(backs) > 0, len(backs) > 0
		stride, sok := int64(0), true
		for _, b := range backs {
			v := backValue(g, b)
			d := Sub(v, b.st.Norm(g.sym))
			if !b.st.EntailsLe0(Scale(d, -1)) {
				up = false
			}
			if !b.st.EntailsLe0(d) {
				down = false
			}
			if d.Op == OInt && d.K > 0 && (stride == 0 || stride == d.K) {
				stride = d.K
			} else {
				sok = false
			}
		}
		if g.lower && !up {
			g.lower, g.noLow = false, true
			changed = true
		} else if !g.lower && up && !g.noLow {
			g.lower = true
			changed = true
		}
		if g.upper && !down {
			g.upper, g.noUp = false, true
			changed = true
		} else if !g.upper && down && !g.noUp {
			g.upper = true
			changed = true
		}
		if g.step == 0 && sok && stride > 1 && (g.kind == "phi" || g.kind == "pos" || g.kind == "mem") {
			g.step, g.strideOK = stride, true
			changed = true
		} else if g.strideOK && !(sok && stride == g.step) {
			g.strideOK = false
			changed = true
		}
	}
	for _, k := range lc.order {
		g := lc.vars[k]
		if g.kind != "phi" || g.typ == nil || !(seqType(g.typ) || isString(g.typ)) {
			continue
		}
		if _, was := g0.st.symDefined(g); !was {
			continue
		}
		if g.constant(backs, func(b *path) *Term {
			return b.st.Norm(Sub(Len(backValue(g, b)), Len(g.sym)))
		}) {
			changed = true
		}
	}
	return changed
}

// guards keeps what the loop's guards say of a counter after its step.
func (lc *loopCore) guards(g *genVar, backs []*path, backValue func(*genVar, *path) *Term) bool {
	if !g.unitOK || g.init == nil || len(backs) == 0 {
		if len(g.bounds) > 0 {
			g.bounds = nil
			return true
		}
		return false
	}
	// b holds for every iteration that follows another
	inductive := func(b *Term) bool {
		if !lc.entry.st.EntailsLe0(Subst(b, map[*Term]*Term{g.sym: lc.entry.st.Norm(g.init)})) {
			return false
		}
		for _, p := range backs {
			if !p.st.EntailsLe0(p.st.Norm(Subst(b, map[*Term]*Term{g.sym: backValue(g, p)}))) {
				return false
			}
		}
		return true
	}
	if g.bounded {
		for _, b := range g.bounds {
			if !inductive(b) {
				g.bounds = nil
				return true
			}
		}
		return false
	}
	g.bounded = true
	for _, f := range backs[0].st.le {
		l := toLin(f)
		c := l.co[g.sym]
		if c != 1 && c != -1 || (c > 0) != (g.unit > 0) || len(g.bounds) > 2 {
			continue
		}
		own := false
		Walk(Sub(f, Scale(g.sym, c)), func(t *Term) bool {
			own = own || t.Op == OSym && strings.HasPrefix(t.S, "L:"+lc.id+":")
			return !own
		})
		if own {
			continue
		}
		// c*sym + R <= 0, so c*(step - unit) + R <= 0
		if b := AddK(f, -c*g.unit); inductive(b) {
			g.bounds = append(g.bounds, b)
		}
	}
	return len(g.bounds) > 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// constant finds the one step all iterations make; it reports a change of mind.
func (g *genVar) constant(backs []*path, step func(b *path) *Term) bool {
	if g.noUnit {
		return false
	}
	unit, ok := int64(0), len(backs) > 0
	for _, b := range backs {
		d := step(b)
		if d.Op == OInt && d.K != 0 && (unit == 0 || unit == d.K) {
			unit = d.K
		} else {
			ok = false
		}
	}
	switch {
	case g.unitOK && (!ok || unit != g.unit):
		g.unitOK, g.noUnit = false, true
		return true
	case !g.unitOK && ok:
		g.unit, g.unitOK = unit, true
		return true
	}
	return false
}

// symDefined reports whether g was already generalised in state s.
func (s *State) symDefined(g *genVar) (*Term, bool) {
	return g.sym, s.sym["G:"+g.sym.S] > 0
}

func (lc *loopCore) stepMap(bv func(*genVar, *path) *Term, b *path) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, k := range lc.order {
		g := lc.vars[k]
		if g.repl == nil && g.sym != nil {
			m[g.sym] = bv(g, b)
		}
	}
	return m
}

func (lc *loopCore) local(s *Term) bool {
	return strings.Contains(s.S, "key@") && strings.Contains(s.S, lc.id)
}

func (lc *loopCore) mentionsLocal(a *Term) bool {
	// addresses through symbols that did not exist at loop entry
	r := root(a)
	return r.Op != OSym && r.Op != OGlobal && r.Op != OCall
}

func seqType(t types.Type) bool {
	if t == nil {
		return false
	}
	if isStringType(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

const maxUnroll = 300

// counting reports whether the call is of a function that only compares numbers.
func counting(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil || f == c.Parent() || len(f.Blocks) != 1 || len(f.FreeVars) > 0 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	cmp, ok := ret.Results[0].(*ssa.BinOp)
	return ok && IsIntType(cmp.X.Type()) && arithmetic(f.Blocks[0])
}

// arithmetic reports whether the block does nothing but calculate.
func arithmetic(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); (!ok || bi.Name() != "len") && !counting(in) {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Next, *ssa.Select, *ssa.Send, *ssa.TypeAssert, *ssa.Lookup, *ssa.IndexAddr, *ssa.Index, *ssa.Store, *ssa.MapUpdate:
			return false
		}
	}
	return true
}

// pureHeader evaluates the header of a loop on a scratch path and returns the
// constant outcome of its branch, or -1.
func (x *act) pureHeader(p *path, b, pred *ssa.BasicBlock) int {
	term, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	// only counting loops have a trip count
	switch c := term.Cond.(type) {
	case *ssa.BinOp:
		if !IsIntType(c.X.Type()) {
			return -1
		}
	case *ssa.Call:
		if !counting(c) {
			return -1
		}
	default:
		return -1
	}
	if !arithmetic(b) {
		return -1
	}
	q := p.clone()
	x.phis(q, b, pred)
	st := *x.e.Stats
	defer func() { *x.e.Stats = st }()
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
			continue
		}
		ls := x.instr(q, in)
		if len(ls) != 1 || ls[0].kind != 0 {
			return -1
		}
		q = ls[0].p
	}
	c := q.st.Norm(x.val(q, term.Cond))
	if c.Op == OBool {
		return int(c.K)
	}
	return -1
}

func (x *act) runLoop(p *path, h, pred *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, outer *loopCtx) []leaf {
	e := x.e
	// constant-trip loops are unrolled
	if c := x.pureHeader(p, h, pred); c >= 0 {
		if c == 0 || p.st.sym["unroll:"+x.ctx.Path+fmt.Sprint(h.Index)] < maxUnroll {
			p.st.sym["unroll:"+x.ctx.Path+fmt.Sprint(h.Index)]++
			e.Stats.Unrolled++
			lc := &loopCtx{header: h, body: body, outer: outer}
			var ls []leaf
			for _, l := range x.enter(p, h, pred, lc) {
				switch l.kind {
				case 3:
					ls = append(ls, x.runLoop(l.p, h, l.pre, body, outer)...)
				case 4:
					ls = append(ls, x.run(l.p, l.b, l.pre, outer)...)
				default:
					ls = append(ls, l)
				}
			}
			return ls
		}
	}
	e.Stats.Loops++
	entry := p
	x.phis(entry, h, pred)
	var phis []*ssa.Phi
	sig := fmt.Sprintf("%s:b%d", x.ctx.Path, h.Index)
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	n := entry.st.sym["loop:"+sig]
	entry.st.sym["loop:"+sig]++
	id := sig
	if n > 0 {
		id = fmt.Sprintf("%s'%d", sig, n)
	}
	h0 := uint32(2166136261)
	for _, ph := range phis {
		h0 = h0*16777619 ^ uint32(entry.env[ph].ID)
	}
	id = fmt.Sprintf("%s~%x", id, h0)
	lcore := &loopCore{e: e, id: id, entry: entry, vars: map[string]*genVar{}}
	info := &LoopInfo{ID: id, Fn: x.fn, Kind: "for", Entry: entry.st}
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			info.Pos = in.Pos()
			break
		}
	}
	lctx := &loopCtx{header: h, body: body, outer: outer}
	var leaves []leaf
	var g, g0 *path
	for pass := 0; ; pass++ {
		if pass > 25 {
			return []leaf{{kind: 5, p: p, val: Str("loop does not stabilise")}}
		}
		g = lcore.gen(nil)
		for _, k := range lcore.order {
			g.st.sym["G:"+lcore.vars[k].sym.S] = 1
		}
		mark := g.st.ev
		g.st.Emit(&Event{Kind: "loop", Loop: info, Pos: info.Pos, Fn: x.fn})
		g0 = g.clone()
		leaves = x.exec(g, h, 0, lctx)
		var backs []*path
		for _, l := range leaves {
			if l.kind == 3 {
				// phi values for the next iteration
				x.phis(l.p, h, l.pre)
				backs = append(backs, l.p)
			}
		}
		_ = mark
		if !lcore.update(g0, backs, phis) {
			info.Gen = g0.st
			lcore.finish(info, g0, backs)
			break
		}
	}
	var ls []leaf
	exits := 0
	for _, l := range leaves {
		if l.kind != 3 {
			exits++
		}
	}
	if exits == 0 {
		// no way out: the path stays in the loop
		q := g0.clone()
		return []leaf{{kind: 2, p: q, val: Diverges, pos: info.Pos}}
	}
	for _, l := range leaves {
		switch l.kind {
		case 3:
		case 4:
			ls = append(ls, x.run(l.p, l.b, l.pre, outer)...)
		default:
			ls = append(ls, l)
		}
	}
	return ls
}

func (lc *loopCore) finish(info *LoopInfo, g0 *path, backs []*path) {
	e := lc.e
	for _, k := range lc.order {
		g := lc.vars[k]
		if g.repl != nil {
			continue
		}
		v := &LoopVar{Loop: info, Sym: g.sym, What: k, Init: e.Resolve(lc.entry.st, g.init), T: g.typ}
		for _, b := range backs {
			var s *Term
			switch g.kind {
			case "phi":
				s = b.env[g.phi]
			case "pos":
				s = g.front(b)
			case "mem":
				s = b.st.Mem[g.addr]
			case "off":
				s = b.st.Off[g.addr]
			case "out":
				s = b.st.Out[g.addr]
			case "cnt":
				s = b.st.Count[g.addr]
			}
			if s == nil {
				s = g.init
			}
			v.Steps = append(v.Steps, e.Resolve(b.st, s))
		}
		info.Vars = append(info.Vars, v)
		e.Loops[g.sym] = v
	}
	for _, b := range backs {
		evs := b.st.eventsSince(g0.st.ev)
		if b.st.LockStr() != g0.st.LockStr() {
			evs = append(evs, &Event{Kind: "lock.imbalance", Fn: info.Fn, Pos: info.Pos})
		}
		info.Backs = append(info.Backs, &Iter{St: b.st, Events: evs})
	}
}

// Iterate summarises a callback loop (sync.Map.Range and the like): body is run
// on generalised states; it returns true to continue.
func (e *Engine) Iterate(cc *CallCtx, kind string, over *Term, body func(st *State) []*Outcome) []*Outcome {
	e.Stats.Loops++
	id := cc.Site + "~" + kind
	if n := cc.St.sym["loop:"+id]; n > 0 {
		id = fmt.Sprintf("%s'%d", id, n)
	}
	cc.St.sym["loop:"+id]++
	entry := &path{st: cc.St, env: map[ssa.Value]*Term{}}
	core := &loopCore{e: e, id: id, entry: entry, vars: map[string]*genVar{}}
	info := &LoopInfo{ID: id, Fn: cc.In, Pos: cc.Pos, Kind: kind, Over: over, Entry: cc.St}
	for pass := 0; ; pass++ {
		if pass > 25 {
			return []*Outcome{{St: cc.St, Kind: Stuck, Val: Str("iteration does not stabilise"), Pos: cc.Pos}}
		}
		g := core.gen(nil)
		for _, k := range core.order {
			g.st.sym["G:"+core.vars[k].sym.S] = 1
		}
		g.st.Emit(&Event{Kind: "loop", Loop: info, Pos: info.Pos, Fn: cc.In})
		g0 := g.clone()
		var backs []*path
		var outs []*Outcome
		for _, o := range body(g.st) {
			if o.Kind != Ret || len(o.Rets) == 0 {
				outs = append(outs, o)
				continue
			}
			r := o.Rets[0]
			t, f := o.St, o.St
			d := o.St.Decide(r)
			if d < 0 {
				f = o.St.Clone()
			}
			if d != 0 && (d == 1 || t.Assume(r, true)) {
				backs = append(backs, &path{st: t, env: map[ssa.Value]*Term{}})
			}
			if d != 1 && (d == 0 || f.Assume(r, false)) {
				f.Emit(&Event{Kind: "range.break", Pos: cc.Pos, Fn: cc.In})
				outs = append(outs, &Outcome{St: f, Kind: Ret})
			}
		}
		if !core.update(g0, backs, nil) {
			info.Gen = g0.st
			core.finish(info, g0, backs)
			outs = append(outs, &Outcome{St: g0.st, Kind: Ret})
			return outs
		}
	}
}

// Diverges is the Val of an Exit outcome that never leaves a loop.
var Diverges = Str("loops forever")
