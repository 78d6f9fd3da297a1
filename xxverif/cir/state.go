package cir

import (
	"fmt"
	"sort"
	"strings"
)

// An Obj is a piece of memory.
type Obj struct {
	ID     int
	Name   string
	Size   Lin
	Type   string // of a single variable; "" for an array of bytes or words
	Signed bool
	Fixed  bool // its content cannot change: what is read there is always the same
	Ghost  bool
}

type kind int

const (
	kUndef kind = iota
	kInt
	kPtr
	kCond
)

// A Val is an integer known up to a multiple of 2^w (relative to the address
// of obj if there is one), a pointer into obj, or a truth value.
type Val struct {
	k   kind
	w   int
	e   Lin
	obj *Obj
	c   Cond
	src *Src
}

// A Src is where the bytes of a value were read.
type Src struct {
	Obj *Obj
	Off Lin
	N   int
}

// A Cond holds if e <= 0 (or e == 0 with eq, or for reasons unknown), or does
// not if neg is set.
type Cond struct {
	e    Lin
	eq   bool
	any  bool
	neg  bool
	a, b *Src // what was found equal
}

type load struct {
	obj *Obj
	off Lin
	n   int
	sym int
}

// A State is what is known at a point of a path.
type State struct {
	f     Facts
	cells map[int]Val
	loads []load
	memo  map[string]int
	env   map[string]Val
	g     Ghost
}

// A Ghost follows what the memory accesses of a path amount to.
type Ghost interface {
	clone() Ghost
	// store is told that val is about to be written to p.
	store(x *Interp, st *State, obj *Obj, off Lin, val Val, n int, at *Instr) []*State
	// move is told of a copy of n bytes.
	move(x *Interp, st *State, dst *Obj, doff Lin, src *Obj, soff Lin, n Lin, at *Instr) []*State
	// equal is told that two pieces of memory hold the same.
	equal(x *Interp, st *State, a, b *Src)
	// boundary is told that the outermost loop comes round (or starts).
	boundary(x *Interp, st *State, at string)
	// same reports whether an inner loop leaves the rest unchanged.
	same(st *State, old Ghost) bool
	ret(x *Interp, st *State, v Val, at *Instr)
}

func (s *State) clone() *State {
	r := &State{f: s.f.clone(), cells: make(map[int]Val, len(s.cells)+2), loads: s.loads[:len(s.loads):len(s.loads)],
		memo: make(map[string]int, len(s.memo)+2), env: make(map[string]Val, len(s.env)+2)}
	for k, v := range s.cells {
		r.cells[k] = v
	}
	for k, v := range s.memo {
		r.memo[k] = v
	}
	for k, v := range s.env {
		r.env[k] = v
	}
	if s.g != nil {
		r.g = s.g.clone()
	}
	return r
}

// assume adds that c holds; false if it cannot.
func (x *Interp) assume(st *State, c Cond, holds bool) bool {
	if c.any {
		return true
	}
	holds = holds != c.neg
	if c.eq {
		if !holds {
			return st.f.assumeNot(c.e)
		}
		if !st.f.assumeZero(c.e) {
			return false
		}
		if c.a != nil && c.b != nil && st.g != nil {
			st.g.equal(x, st, c.a, c.b)
		} else if st.g != nil {
			x.pairs(st, c.e)
		}
		return true
	}
	if holds {
		return st.f.assume(c.e)
	}
	return st.f.assume(c.e.scale(-1).plus(1))
}

// fresh makes an unknown between lo and hi.
func (x *Interp) fresh(st *State, lo, hi int64) Lin {
	v := x.sym("")
	l := Lin{vs: []int{v}, cs: []int64{1}}
	st.f.le = append(st.f.le, l.plus(-hi), l.scale(-1).plus(lo))
	return l
}

func (x *Interp) sym(name string) int {
	x.names = append(x.names, name)
	return len(x.names) - 1
}

func (x *Interp) free(name string) Lin {
	return Lin{vs: []int{x.sym(name)}, cs: []int64{1}}
}

func (x *Interp) show(a Lin) string {
	var b strings.Builder
	for i, v := range a.vs {
		n := x.names[v]
		if n == "" {
			n = fmt.Sprintf("u%d", v)
		}
		switch c := a.cs[i]; {
		case c == 1:
			fmt.Fprintf(&b, "+%s", n)
		case c == -1:
			fmt.Fprintf(&b, "-%s", n)
		default:
			fmt.Fprintf(&b, "%+d*%s", c, n)
		}
	}
	if a.k != 0 || len(a.vs) == 0 {
		fmt.Fprintf(&b, "%+d", a.k)
	}
	return strings.TrimPrefix(b.String(), "+")
}

// quot is the quotient of e by d, rounded down.
func (x *Interp) quot(st *State, e Lin, d int64) Lin {
	if e.isConst() {
		q := e.k / d
		if e.k%d != 0 && e.k < 0 {
			q--
		}
		return konst(q)
	}
	// what d divides goes out of it
	out, rest := Lin{k: 0}, Lin{k: e.k}
	for i, v := range e.vs {
		one := Lin{vs: []int{v}, cs: []int64{1}}
		if e.cs[i]%d == 0 {
			out = out.comb(one, e.cs[i]/d)
		} else {
			rest = rest.comb(one, e.cs[i])
		}
	}
	if rest.isConst() {
		return out.add(x.quot(st, rest, d))
	}
	k := rest.k / d
	if rest.k%d < 0 {
		k--
	}
	out.k, rest.k = out.k+k, rest.k-k*d
	for j := int64(-1); j <= 1; j++ {
		if st.f.entails(rest.scale(-1).plus(j*d)) && st.f.entails(rest.plus(1-d-j*d)) {
			return out.plus(j)
		}
	}
	key := fmt.Sprintf("%d/%s%d", d, rest.shape(), rest.k)
	v, ok := st.memo[key]
	q := Lin{vs: []int{v}, cs: []int64{1}}
	if !ok {
		v = x.sym("")
		st.memo[key] = v
		q = Lin{vs: []int{v}, cs: []int64{1}}
		st.f.le = append(st.f.le, q.scale(d).sub(rest), rest.sub(q.scale(d)).plus(1-d))
	}
	return out.add(q)
}

type branch struct {
	st *State
	e  Lin
}

// canon is the value of v as an unsigned (or signed) number.
func (x *Interp) canon(st *State, v Val, signed bool) []branch {
	lo, hi := int64(0), int64(0)
	if v.w >= 63 {
		// numbers of this size are taken as they are: whoever compares them looks at the sign
		return []branch{{st, v.e}}
	}
	if signed {
		lo, hi = -1<<(v.w-1), 1<<(v.w-1)-1
	} else {
		hi = 1<<v.w - 1
	}
	m := int64(1) << v.w
	in := func(f *Facts, e Lin) bool {
		return f.entails(e.scale(-1).plus(lo)) && f.entails(e.plus(-hi))
	}
	if v.e.isConst() {
		k := v.e.k
		k = ((k-lo)%m + m) % m
		return []branch{{st, konst(k + lo)}}
	}
	if in(&st.f, v.e) {
		return []branch{{st, v.e}}
	}
	for _, d := range []int64{m, -m} {
		if in(&st.f, v.e.plus(d)) {
			return []branch{{st, v.e.plus(d)}}
		}
	}
	if st.f.entails(v.e.scale(-1).plus(lo-m)) && st.f.entails(v.e.plus(-hi-m)) {
		var out []branch
		for _, d := range []int64{0, m, -m} {
			e := v.e.plus(d)
			s := st.clone()
			if s.f.assume(e.scale(-1).plus(lo)) && s.f.assume(e.plus(-hi)) {
				out = append(out, branch{s, e})
			}
		}
		return out
	}
	// e - m*q
	q := x.quot(st, v.e.plus(-lo), m)
	return []branch{{st, v.e.sub(q.scale(m))}}
}

func cellIDs(m map[int]Val) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// pairs finds the bytes an equation between words says to be equal.
func (x *Interp) pairs(st *State, e Lin) {
	src := func(v int) *Src {
		for _, l := range st.loads {
			if l.sym == v {
				return &Src{l.obj, l.off, l.n}
			}
		}
		return nil
	}
	for i, v := range e.vs {
		for j, w := range e.vs {
			if e.cs[i] <= 0 || e.cs[i] != -e.cs[j] {
				continue
			}
			a, b := src(v), src(w)
			if a == nil || b == nil || a.N != b.N {
				continue
			}
			if st.f.zero((Lin{vs: []int{v}, cs: []int64{1}}).sub(Lin{vs: []int{w}, cs: []int64{1}})) {
				st.g.equal(x, st, a, b)
			}
		}
	}
}
