package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of an abstract path.
type Event struct {
	Kind  string
	Name  string
	Args  []*Term
	Res   []*Term
	Pos   token.Pos
	Fn    *ssa.Function
	Locks string // locks held when the event happened
	Loop  *LoopInfo
	OK    bool
	Raw   []*Term // go: the function and its arguments as they are
	From  *State  // go: the state it is started from
}

type evNode struct {
	ev   *Event
	prev *evNode
	n    int
}

type dictEnt struct {
	key     *Term
	present bool
	val     *Term
}

// Dict is the abstract content of a dictionary: what is known about each key.
type Dict struct {
	init    []dictEnt // knowledge about the initial content
	cur     []dictEnt
	fresh   bool // starts empty
	cleared bool
}

func (d *Dict) clone() *Dict {
	c := *d
	c.init = append([]dictEnt(nil), d.init...)
	c.cur = append([]dictEnt(nil), d.cur...)
	return &c
}

func find(es []dictEnt, k *Term) int {
	for i := range es {
		if es[i].key == k {
			return i
		}
	}
	return -1
}

type byteSet [4]uint64

func fullSet() byteSet { return byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func (b *byteSet) has(i int) bool {
	return b[i>>6]>>(uint(i)&63)&1 == 1
}
func (b *byteSet) del(i int) { b[i>>6] &^= 1 << (uint(i) & 63) }
func (b byteSet) Values() []int {
	var r []int
	for i := 0; i < 256; i++ {
		if b.has(i) {
			r = append(r, i)
		}
	}
	return r
}

// State is one abstract path state.
type State struct {
	Mem   map[*Term]*Term
	Dicts map[*Term]*Dict
	Locks map[*Term]int // -1 write, n>0 readers
	Off   map[*Term]*Term
	Out   map[*Term]*Term
	Count map[*Term]*Term // ghost: change in number of keys per dictionary
	Chan  map[*Term]string
	Tags  map[*Term]string // scenario chosen for a dictionary key
	truth map[*Term]bool
	rew   map[*Term]*Term
	le    []*Term // lin <= 0
	typ   map[*Term]types.Type
	ntyp  map[*Term][]types.Type
	bset  map[*Term]byteSet
	un    *unaries
	ev    *evNode
	sym   map[string]int

	panicking *Term
	dead      bool
}

func NewState() *State {
	return &State{
		Mem: map[*Term]*Term{}, Dicts: map[*Term]*Dict{}, Locks: map[*Term]int{},
		Off: map[*Term]*Term{}, Out: map[*Term]*Term{}, Count: map[*Term]*Term{}, Chan: map[*Term]string{}, Tags: map[*Term]string{},
		truth: map[*Term]bool{}, rew: map[*Term]*Term{}, typ: map[*Term]types.Type{},
		ntyp: map[*Term][]types.Type{}, bset: map[*Term]byteSet{}, sym: map[string]int{},
	}
}

func (s *State) Clone() *State {
	c := *s
	c.Mem = cp(s.Mem)
	c.Dicts = make(map[*Term]*Dict, len(s.Dicts))
	for k, v := range s.Dicts {
		c.Dicts[k] = v.clone()
	}
	c.Locks = cp(s.Locks)
	c.Off = cp(s.Off)
	c.Out = cp(s.Out)
	c.Count = cp(s.Count)
	c.Chan = cp(s.Chan)
	c.Tags = cp(s.Tags)
	c.truth = cp(s.truth)
	c.rew = cp(s.rew)
	c.le = append([]*Term(nil), s.le...)
	c.typ = cp(s.typ)
	c.ntyp = cp(s.ntyp)
	c.bset = cp(s.bset)
	c.sym = cp(s.sym)
	return &c
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) Emit(e *Event) {
	e.Locks = s.LockStr()
	n := 0
	if s.ev != nil {
		n = s.ev.n
	}
	s.ev = &evNode{ev: e, prev: s.ev, n: n + 1}
}

func (s *State) LockStr() string {
	if len(s.Locks) == 0 {
		return ""
	}
	var ss []string
	for l, m := range s.Locks {
		switch {
		case m < 0:
			ss = append(ss, l.String()+":W")
		case m > 0:
			ss = append(ss, l.String()+":R")
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// Events returns the path's events in order.
func (s *State) Events() []*Event { return s.eventsSince(nil) }

func (s *State) eventsSince(m *evNode) []*Event {
	var r []*Event
	for n := s.ev; n != nil && n != m; n = n.prev {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Fresh names a new symbol, distinct along this path.
func (s *State) Fresh(base string, t types.Type) *Term {
	n := s.sym[base]
	s.sym[base] = n + 1
	if n > 0 {
		base = fmt.Sprintf("%s'%d", base, n)
	}
	return Sym(base, t)
}

// ---- facts ----

// Norm rewrites t with the equalities known on this path.
func (s *State) Norm(t *Term) *Term {
	if len(s.rew) == 0 || t == nil {
		return t
	}
	for i := 0; i < 4; i++ {
		u := Subst(t, s.rew)
		if u == t {
			break
		}
		t = u
	}
	return t
}

type rng struct{ lo, hi float64 }

var full = rng{math.Inf(-1), math.Inf(1)}

func (s *State) rangeOf(t *Term) rng {
	switch t.Op {
	case OInt:
		return rng{float64(t.K), float64(t.K)}
	case OLen:
		return rng{0, math.MaxInt64}
	case OBits:
		if w := bitWidth(t); w >= 0 {
			var lo, hi float64
			for i := 0; i < 63; i++ {
				if t.Bits[i] == bit1 {
					lo += float64(int64(1) << i)
				}
				if t.Bits[i] != bit0 {
					hi += float64(int64(1) << i)
				}
			}
			return rng{lo, hi}
		}
		return rng{math.MinInt64, math.MaxInt64}
	case OLin:
		r := rng{float64(t.K), float64(t.K)}
		for i, a := range t.Args {
			q := s.rangeOf(a)
			c := float64(t.Co[i])
			if c < 0 {
				q.lo, q.hi = q.hi, q.lo
			}
			r.lo += c * q.lo
			r.hi += c * q.hi
		}
		return r
	}
	r := full
	if t.T != nil {
		if w, signed, ok := intInfo(t.T); ok {
			if signed {
				r = rng{-math.Ldexp(1, w-1), math.Ldexp(1, w-1) - 1}
			} else {
				r = rng{0, math.Ldexp(1, w) - 1}
			}
		}
	}
	if t.Op == OSym && t.S == "now" { // the clock is past 1970
		r = rng{1, math.MaxInt64}
	}
	if t.Is("rem") && t.Args[1].IsInt() && t.Args[1].K > 0 {
		k := float64(t.Args[1].K)
		a := s.rangeOf(t.Args[0])
		r = rng{-(k - 1), k - 1}
		if a.lo >= 0 {
			r.lo = 0
		}
	}
	if t.Is("div") && t.Args[1].IsInt() && t.Args[1].K > 0 {
		k := float64(t.Args[1].K)
		a := s.rangeOf(t.Args[0])
		r = rng{math.Trunc(a.lo / k), math.Trunc(a.hi / k)}
	}
	if t.Is("and") {
		for _, a := range t.Args {
			if a.IsInt() && a.K >= 0 {
				r = rng{0, float64(a.K)}
			}
		}
	}
	if b, ok := s.bset[t]; ok {
		vs := b.Values()
		if len(vs) > 0 {
			r = rng{float64(vs[0]), float64(vs[len(vs)-1])}
		}
	}
	return r
}

// lf is a linear form: atoms in order of ID, their coefficients, a constant.
type lf struct {
	a []*Term
	c []int64
	k int64
}

func lfOf(t *Term) lf {
	switch t.Op {
	case OInt:
		return lf{k: t.K}
	case OLin:
		return lf{t.Args, t.Co, t.K}
	}
	return lf{[]*Term{t}, coOne, 0}
}

var coOne = []int64{1}

// sub writes x-y to the buffers of d.
func (d *lf) sub(x, y lf) lf {
	a, c := d.a[:0], d.c[:0]
	i, j := 0, 0
	for i < len(x.a) || j < len(y.a) {
		switch {
		case j == len(y.a) || i < len(x.a) && x.a[i].ID < y.a[j].ID:
			a, c = append(a, x.a[i]), append(c, x.c[i])
			i++
		case i == len(x.a) || y.a[j].ID < x.a[i].ID:
			a, c = append(a, y.a[j]), append(c, -y.c[j])
			j++
		default:
			if v := x.c[i] - y.c[j]; v != 0 {
				a, c = append(a, x.a[i]), append(c, v)
			}
			i++
			j++
		}
	}
	d.a, d.c, d.k = a, c, x.k-y.k
	if (x.k < 0) != (y.k < 0) && (d.k < 0) != (x.k < 0) {
		d.a, d.c, d.k = a[:0], c[:0], math.MaxInt64 // says nothing
	}
	return *d
}

// ratio is how often f must be taken to cancel an atom it shares with x.
func (x lf) ratio(f lf) int64 {
	i, j := 0, 0
	for i < len(x.a) && j < len(f.a) {
		switch {
		case x.a[i] == f.a[j]:
			if m := x.c[i] / f.c[j]; m > 1 && m*f.c[j] == x.c[i] {
				return m
			}
			i++
			j++
		case x.a[i].ID < f.a[j].ID:
			i++
		default:
			j++
		}
	}
	return 1
}

func (x lf) times(m int64) lf {
	mul := func(v int64) (int64, bool) {
		w := m * v
		return w, w/m == v && w > math.MinInt64/4 && w < math.MaxInt64/4
	}
	k, fits := mul(x.k)
	c := make([]int64, len(x.c))
	for i := range c {
		w, ok := mul(x.c[i])
		c[i], fits = w, fits && ok
	}
	if !fits {
		return lf{} // says nothing
	}
	return lf{x.a, c, k}
}

func (x lf) touches(y lf) bool {
	i, j := 0, 0
	for i < len(x.a) && j < len(y.a) {
		switch {
		case x.a[i] == y.a[j]:
			return true
		case x.a[i].ID < y.a[j].ID:
			i++
		default:
			j++
		}
	}
	return false
}

func (s *State) ub(l *Term) float64 { return s.ubf(lfOf(l)) }

func (s *State) ubf(l lf) float64 {
	hi := float64(l.k)
	for i, a := range l.a {
		q := s.unary(a)
		if c := float64(l.c[i]); c < 0 {
			hi += c * q.lo
		} else {
			hi += c * q.hi
		}
	}
	return hi
}

// unary is the range of an atom by its type and the facts about it alone.
func (s *State) unary(a *Term) rng {
	if s.un == nil || s.un.n != len(s.le) {
		s.un = &unaries{n: len(s.le), m: map[*Term]rng{}}
		for _, f := range s.le {
			l := lfOf(f)
			if len(l.a) != 1 {
				continue
			}
			r, ok := s.un.m[l.a[0]]
			if !ok {
				r = full
			}
			// c*a + k <= 0
			if c := l.c[0]; c > 0 {
				r.hi = math.Min(r.hi, math.Floor(float64(-l.k)/float64(c)))
			} else {
				r.lo = math.Max(r.lo, math.Ceil(float64(l.k)/float64(-c)))
			}
			s.un.m[l.a[0]] = r
		}
	}
	r := s.rangeOf(a)
	if q, ok := s.un.m[a]; ok {
		r.lo, r.hi = math.Max(r.lo, q.lo), math.Min(r.hi, q.hi)
	}
	return r
}

// unaries are the facts of the first n inequalities that bound one atom.
type unaries struct {
	n int
	m map[*Term]rng
}

// EntailsLe0 reports whether g <= 0 is known.
func (s *State) EntailsLe0(g *Term) bool {
	if s.entailsLe0(g) {
		return true
	}
	t, g, ok := s.divided(g)
	return ok && t.entailsLe0(g)
}

// divided writes quantities known to be multiples as such.
func (s *State) divided(g *Term) (*State, *Term, bool) {
	if g.Op == OInt {
		return nil, nil, false
	}
	var m map[*Term]*Term
	for b, v := range s.truth {
		if !v || b.Op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			x, z := b.Args[i], b.Args[1-i]
			if !x.Is("rem") || z.Op != OInt || z.K != 0 || x.Args[1].Op != OInt || x.Args[1].K < 2 {
				continue
			}
			l := toLin(x.Args[0])
			if len(l.co) != 1 {
				continue
			}
			for a, c := range l.co {
				if c == 1 { // a + k = n*q
					if m == nil {
						m = map[*Term]*Term{}
					}
					m[a] = AddK(Scale(Sym("multiple:"+a.String(), x.T), x.Args[1].K), -l.k)
				}
			}
		}
	}
	if m == nil {
		return nil, nil, false
	}
	t := *s
	t.truth = map[*Term]bool{}
	t.le, t.un = nil, nil
	for _, f := range s.le {
		t.le = append(t.le, Subst(f, m))
	}
	g = Subst(g, m)
	// equalities are solved, so that the factors meet
	for i := 0; i < 8; i++ {
		x, y := t.solvable()
		if x == nil {
			break
		}
		m := map[*Term]*Term{x: y}
		var le []*Term
		for _, f := range t.le {
			if f = Subst(f, m); f.Op != OInt {
				le = append(le, f)
			}
		}
		t.le, t.un = le, nil
		g = Subst(g, m)
	}
	for i, f := range t.le {
		t.le[i] = tighten(f)
	}
	t.un = nil
	return &t, tighten(g), true
}

// fits reports whether a number is known to lie in the range of a type.
func (s *State) fits(v *Term, t types.Type) bool {
	w, signed, ok := intInfo(t)
	if !ok {
		return false
	}
	lo, hi := int64(0), int64(0)
	switch {
	case signed:
		lo, hi = -1<<(w-1), 1<<(w-1)-1
	case w < 64:
		hi = 1<<w - 1
	}
	if !s.EntailsLe0(Sub(Int(lo), v)) {
		return false
	}
	if w == 64 { // what is not negative fits an unsigned one
		return !signed && numeric(v)
	}
	return s.EntailsLe0(AddK(v, -hi))
}

// Impossible looks harder than Assume for a contradiction among the linear
// facts.
func (s *State) Impossible() bool {
	t, _, ok := s.solved(Int(0))
	if !ok {
		return true
	}
	for _, f := range t.le {
		if t.entailsLe0(Sub(Int(1), f)) {
			return true
		}
	}
	return false
}

// ProvesLe0 looks harder than EntailsLe0.
func (s *State) ProvesLe0(g *Term) bool {
	t, g, ok := s.solved(s.Norm(g))
	return !ok || t.entailsLe0(g)
}

// solved has the equalities among the linear facts substituted; it reports
// whether they can hold.
func (s *State) solved(g *Term) (*State, *Term, bool) {
	t := *s
	t.truth, t.rew = map[*Term]bool{}, map[*Term]*Term{}
	t.le, t.un = append([]*Term(nil), s.le...), nil
	for i := 0; i < 40; i++ {
		x, y := t.solvable()
		if x == nil {
			break
		}
		m := map[*Term]*Term{x: y}
		var le []*Term
		for _, f := range t.le {
			f = Subst(f, m)
			if f.Op != OInt {
				le = append(le, f)
			} else if f.K > 0 {
				return &t, g, false
			}
		}
		t.le, t.un = le, nil
		g = Subst(g, m)
	}
	return &t, g, true
}

// solvable finds an equality that gives one atom by the others.
func (s *State) solvable() (x, y *Term) {
	have := map[*Term]bool{}
	for _, f := range s.le {
		have[f] = true
	}
	for _, f := range s.le {
		if !have[Scale(f, -1)] {
			continue
		}
		l := toLin(f)
		for _, a := range f.linAtoms() {
			if c := l.co[a]; (c == 1 || c == -1) && !(a.Op == OSym && strings.HasPrefix(a.S, "multiple:")) {
				y := Scale(Sub(f, Scale(a, c)), -c)
				if !Contains(y, a) {
					return a, y
				}
			}
		}
	}
	return nil, nil
}

func (t *Term) linAtoms() []*Term {
	if t.Op == OLin {
		return t.Args
	}
	return []*Term{t}
}

// tighten divides l <= 0 by the common factor of its coefficients.
func tighten(t *Term) *Term {
	if t.Op != OLin {
		return t
	}
	l := toLin(t)
	d := int64(0)
	for _, c := range l.co {
		for a, b := d, c; ; {
			if a < 0 {
				a = -a
			}
			if b < 0 {
				b = -b
			}
			if b == 0 {
				d = a
				break
			}
			a, b = b, a%b
		}
	}
	if d < 2 {
		return t
	}
	r := Int(ceilDiv(l.k, d))
	for a, c := range l.co {
		r = Add(r, Scale(a, c/d))
	}
	return r
}

func ceilDiv(k, d int64) int64 {
	q := k / d
	if k%d > 0 {
		q++
	}
	return q
}

func (s *State) entailsLe0(g *Term) bool {
	g = tight(g)
	if g.Op == OInt {
		return g.K <= 0
	}
	if s.ub(g) <= 0 {
		return true
	}
	fs := make([]lf, len(s.le))
	for i, f := range s.le {
		fs[i] = lfOf(f)
	}
	// a remainder and its quotient make the whole
	whole := func(x lf) lf {
		for _, a := range x.a {
			if a.Is("rem") {
				l := linT{k: x.k, co: map[*Term]int64{}}
				for i, a := range x.a {
					l.co[a] = x.c[i]
				}
				return lfOf(fromLin(l))
			}
		}
		return x
	}
	var b1, b2, b3 lf
	g0 := lfOf(g)
	for _, f := range fs {
		if !f.touches(g0) {
			continue
		}
		r := whole(b1.sub(g0, f))
		if s.ubf(r) <= 0 {
			return true
		}
		if m := g0.ratio(f); m > 1 && s.ubf(whole(b2.sub(g0, f.times(m)))) <= 0 {
			return true
		}
		for _, f2 := range fs {
			if !f2.touches(r) {
				continue
			}
			if m := r.ratio(f2); m > 1 && s.ubf(whole(b2.sub(r, f2.times(m)))) <= 0 {
				return true
			}
			r2 := whole(b2.sub(r, f2))
			if s.ubf(r2) <= 0 {
				return true
			}
			for _, f3 := range fs {
				if f3.touches(r2) && s.ubf(whole(b3.sub(r2, f3))) <= 0 {
					return true
				}
			}
		}
	}
	return false
}

// TypeOf returns the exact dynamic type of an interface term when known.
func (s *State) TypeOf(t *Term) types.Type {
	if t.Op == OIface {
		return t.T
	}
	return s.typ[t]
}

// byteLeaf returns the single byte-ranged leaf that b depends on.
func byteLeaf(b *Term) *Term {
	var leaf *Term
	ok := true
	var w func(t *Term)
	w = func(t *Term) {
		if !ok {
			return
		}
		switch t.Op {
		case OInt, OBool:
			return
		case OLin, OBits, ONot, OLe0, OEq:
			for _, a := range t.Args {
				w(a)
			}
			return
		case OConv:
			w(t.Args[0])
			return
		case OElem, OSym, OCall:
			if wd, s, isI := intInfo(t.T); isI && wd == 8 && !s {
				if leaf == nil || leaf == t {
					leaf = t
					return
				}
			}
		}
		ok = false
	}
	w(b)
	if !ok {
		return nil
	}
	return leaf
}

// EvalByte evaluates t when its only leaf has value v.
func EvalByte(t, leaf *Term, v int64) (int64, bool) {
	return evalMap(t, map[*Term]int64{leaf: v})
}

func evalMap(t *Term, m map[*Term]int64) (int64, bool) {
	if v, ok := m[t]; ok {
		return v, true
	}
	switch t.Op {
	case OInt, OBool:
		return t.K, true
	case OLin:
		r := t.K
		for i, a := range t.Args {
			x, ok := evalMap(a, m)
			if !ok {
				return 0, false
			}
			r += t.Co[i] * x
		}
		return r, true
	case OBits:
		var r uint64
		for i, b := range t.Bits {
			if b == bit1 {
				r |= 1 << uint(i)
			} else if b.A >= 0 {
				x, ok := evalMap(t.Args[b.A], m)
				if !ok {
					return 0, false
				}
				if uint64(x)>>b.N&1 == 1 {
					r |= 1 << uint(i)
				}
			}
		}
		return int64(r), true
	case OConv:
		x, ok := evalMap(t.Args[0], m)
		if !ok {
			return 0, false
		}
		return Conv(Int(x), types.Typ[types.Int64], t.T).K, true
	case ONot:
		x, ok := evalMap(t.Args[0], m)
		return 1 - x, ok
	case OLe0:
		x, ok := evalMap(t.Args[0], m)
		if x <= 0 {
			return 1, ok
		}
		return 0, ok
	case OEq:
		x, ok := evalMap(t.Args[0], m)
		y, ok2 := evalMap(t.Args[1], m)
		if x == y {
			return 1, ok && ok2
		}
		return 0, ok && ok2
	}
	return 0, false
}

func (s *State) ByteSet(leaf *Term) byteSet {
	if b, ok := s.bset[leaf]; ok {
		return b
	}
	return fullSet()
}

// Decide returns 1, 0 or -1 for true, false, unknown.
func (s *State) Decide(b *Term) int {
	b = s.Norm(b)
	if b.Op == OBool {
		return int(b.K)
	}
	if v, ok := s.truth[b]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch b.Op {
	case ONot:
		if d := s.Decide(b.Args[0]); d >= 0 {
			return 1 - d
		}
		return -1
	case OIsT:
		x := s.Norm(b.Args[0])
		if x.Op == ONil {
			return 0
		}
		if t := s.TypeOf(x); t != nil {
			if types.IsInterface(b.T) {
				if types.Implements(t, b.T.Underlying().(*types.Interface)) {
					return 1
				}
				return 0
			}
			if types.Identical(t, b.T) {
				return 1
			}
			return 0
		}
		for _, t := range s.ntyp[x] {
			if types.Identical(t, b.T) {
				return 0
			}
		}
		return -1
	}
	if leaf := byteLeaf(b); leaf != nil {
		set := s.ByteSet(leaf)
		t, f := false, false
		for _, v := range set.Values() {
			r, ok := EvalByte(b, leaf, int64(v))
			if !ok {
				t, f = true, true
				break
			}
			if r == 1 {
				t = true
			} else {
				f = true
			}
		}
		if t && !f {
			return 1
		}
		if f && !t {
			return 0
		}
		return -1
	}
	switch b.Op {
	case OLe0:
		if s.EntailsLe0(b.Args[0]) {
			return 1
		}
		if s.EntailsLe0(Sub(Int(1), b.Args[0])) {
			return 0
		}
	case OEq:
		x, y := b.Args[0], b.Args[1]
		if y.Op == ONil {
			x, y = y, x
		}
		if x.Op == ONil {
			if s.TypeOf(y) != nil || nonNil(y) {
				return 0
			}
			return -1
		}
		if numeric(x) && numeric(y) {
			d := Sub(x, y)
			if s.EntailsLe0(AddK(d, 1)) || s.EntailsLe0(AddK(Scale(d, -1), 1)) {
				return 0
			}
			if s.EntailsLe0(d) && s.EntailsLe0(Scale(d, -1)) {
				return 1
			}
		}
		// sequences of provably different length
		if seqLike(x) && seqLike(y) {
			if d := s.Decide(mkEqInt(Len(x), Len(y))); d == 0 {
				return 0
			}
		}
		// interfaces of different dynamic types
		if tx, ty := s.TypeOf(x), s.TypeOf(y); tx != nil && ty != nil && !types.Identical(tx, ty) {
			return 0
		}
	}
	return -1
}

func mkEqInt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.Op == OInt {
		return Bool(d.K == 0)
	}
	return Eq(a, b)
}

func seqLike(t *Term) bool {
	switch t.Op {
	case OStr, OCat, OSub, ORep, OUpd, OUnit:
		return true
	case OSym, OElem, OCall:
		return t.T != nil && isStringType(t.T)
	}
	return false
}

// Assume adds b (or its negation); it returns false when that is contradictory.
func (s *State) Assume(b *Term, val bool) bool {
	b = s.Norm(b)
	if d := s.Decide(b); d >= 0 {
		return (d == 1) == val
	}
	if b.Op == ONot {
		return s.Assume(b.Args[0], !val)
	}
	if leaf := byteLeaf(b); leaf != nil {
		set := s.ByteSet(leaf)
		for _, v := range set.Values() {
			if r, ok := EvalByte(b, leaf, int64(v)); ok && (r == 1) != val {
				set.del(v)
			}
		}
		s.bset[leaf] = set
		s.truth[b] = val
		return len(set.Values()) > 0
	}
	s.truth[b] = val
	switch b.Op {
	case OIsT:
		x := b.Args[0]
		if val {
			if !types.IsInterface(b.T) {
				s.typ[x] = b.T
			}
		} else {
			s.ntyp[x] = append(append([]types.Type(nil), s.ntyp[x]...), b.T)
		}
	case OLe0:
		if val {
			s.addLe(b.Args[0])
		} else {
			s.addLe(Sub(Int(1), b.Args[0]))
		}
	case OEq:
		x, y := b.Args[0], b.Args[1]
		if val {
			s.equate(x, y)
		} else if numeric(x) && numeric(y) {
			d := Sub(x, y)
			if s.EntailsLe0(d) {
				s.addLe(AddK(d, 1))
			} else if s.EntailsLe0(Scale(d, -1)) {
				s.addLe(AddK(Scale(d, -1), 1))
			} else {
				s.truth[b] = false
			}
		}
	}
	return true
}

// tight divides l <= 0 by the common factor of its coefficients.
func tight(l *Term) *Term {
	if l.Op != OLin && l.Op != OBits {
		return l
	}
	x := lf{l.Args, l.Co, l.K}
	if l.Op == OBits {
		m := toLin(l)
		if len(m.co) != 1 {
			return l
		}
		x = lf{k: m.k}
		for a, c := range m.co {
			x.a, x.c = append(x.a, a), append(x.c, c)
		}
	}
	g := int64(0)
	for _, c := range x.c {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g < 2 {
		return l
	}
	r := Int(0)
	for i, a := range x.a {
		r = Add(r, Scale(a, x.c[i]/g))
	}
	k := x.k / g
	if x.k%g > 0 {
		k++
	}
	return AddK(r, k)
}

func (s *State) addLe(l *Term) {
	l = tight(l)
	for _, f := range s.le {
		if f == l {
			return
		}
	}
	s.le = append(s.le, l)
	// strengthen recorded disequalities
	for b, v := range s.truth {
		if !v && b.Op == OEq && numeric(b.Args[0]) && numeric(b.Args[1]) {
			d := Sub(b.Args[0], b.Args[1])
			if Scale(d, -1) == l || d == l {
				s.le = append(s.le, AddK(l, 1))
			}
		}
	}
}

func size(t *Term) int {
	n := 0
	Walk(t, func(*Term) bool { n++; return true })
	return n
}

func (s *State) equate(x, y *Term) {
	if x.Op == ONil || y.Op == ONil {
		if x.Op == ONil {
			x, y = y, x
		}
		if x.Op == OSym || x.Op == OElem || x.Op == OCall {
			s.rew[x] = y
		}
		return
	}
	if numeric(x) && numeric(y) {
		d := Sub(x, y)
		s.addLe(d)
		s.addLe(Scale(d, -1))
		// solve for an atom with coefficient +-1
		if isConst(y) && x.Op != OLin && !isConst(x) {
			s.rew[x] = y
			return
		}
		if isConst(x) && y.Op != OLin && !isConst(y) {
			s.rew[y] = x
			return
		}
		l := toLin(d)
		var best *Term
		for a, c := range l.co {
			if (c == 1 || c == -1) && (best == nil || a.ID > best.ID) {
				best = a
			}
		}
		if best != nil {
			c := l.co[best]
			rest := fromLin(l.addTo(toLin(best), -c))
			rhs := Scale(rest, -c)
			if !Contains(rhs, best) {
				s.rew[best] = rhs
			}
		}
		return
	}
	// what is known about the length of one holds for the other
	if x.Op == OStr || y.Op == OStr {
		if d := Sub(Len(x), Len(y)); !isConst(d) {
			s.addLe(d)
			s.addLe(Scale(d, -1))
		}
	}
	// rewrite the larger (or newer) term to the smaller
	a, b := x, y
	if isConst(a) || (!isConst(b) && (size(a) < size(b) || size(a) == size(b) && a.ID < b.ID)) {
		a, b = b, a
	}
	if !Contains(b, a) && !isConst(a) {
		s.rew[a] = b
	} else if !Contains(a, b) && !isConst(b) {
		s.rew[b] = a
	}
}

// Facts describes the path condition (for reports).
func (s *State) Facts() []string {
	var r []string
	for b, v := range s.truth {
		if v {
			r = append(r, b.String())
		} else {
			r = append(r, Not(b).String())
		}
	}
	sort.Strings(r)
	return r
}

// Truth returns the recorded atoms.
func (s *State) Truth() map[*Term]bool { return s.truth }

// ClearEvents forgets the events so far.
func (s *State) ClearEvents() { s.ev = nil }

// Lit is one recorded condition.
type Lit struct {
	T   *Term
	Val bool
}

// Lits lists the path condition as literals, in a fixed order.
func (s *State) Lits() []Lit {
	var r []Lit
	for b, v := range s.truth {
		r = append(r, Lit{b, v})
	}
	for _, g := range s.le {
		r = append(r, Lit{Le0(g), true})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].T.String() < r[j].T.String() })
	return r
}

// Lens lists the lengths the state's facts speak of.
func (s *State) Lens() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	see := func(t *Term) bool {
		if t.Op == OLen && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, l := range s.le {
		Walk(l, see)
	}
	for t := range s.truth {
		Walk(t, see)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
