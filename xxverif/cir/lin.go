// Package cir follows C functions, compiled to LLVM's intermediate
// representation, over linear facts about unknown lengths and offsets.
package cir

import (
	"encoding/binary"
	"sort"
)

// A Lin is a linear expression over numbered unknowns.
type Lin struct {
	k  int64
	vs []int // ascending
	cs []int64
}

func konst(k int64) Lin { return Lin{k: k} }

func (a Lin) isConst() bool { return len(a.vs) == 0 }

func (a Lin) plus(k int64) Lin { a.k += k; return a }

func (a Lin) scale(m int64) Lin {
	if m == 0 {
		return Lin{}
	}
	r := Lin{k: a.k * m, vs: a.vs, cs: make([]int64, len(a.cs))}
	for i, c := range a.cs {
		r.cs[i] = c * m
	}
	return r
}

func (a Lin) add(b Lin) Lin { return a.comb(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.comb(b, -1) }

// comb is a + m*b.
func (a Lin) comb(b Lin, m int64) Lin {
	r := Lin{k: a.k + m*b.k}
	if n := len(a.vs) + len(b.vs); n > 0 {
		r.vs, r.cs = make([]int, 0, n), make([]int64, 0, n)
	}
	i, j := 0, 0
	for i < len(a.vs) || j < len(b.vs) {
		switch {
		case j == len(b.vs) || i < len(a.vs) && a.vs[i] < b.vs[j]:
			r.vs, r.cs = append(r.vs, a.vs[i]), append(r.cs, a.cs[i])
			i++
		case i == len(a.vs) || b.vs[j] < a.vs[i]:
			r.vs, r.cs = append(r.vs, b.vs[j]), append(r.cs, m*b.cs[j])
			j++
		default:
			if c := a.cs[i] + m*b.cs[j]; c != 0 {
				r.vs, r.cs = append(r.vs, a.vs[i]), append(r.cs, c)
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) coef(v int) int64 {
	i := sort.SearchInts(a.vs, v)
	if i < len(a.vs) && a.vs[i] == v {
		return a.cs[i]
	}
	return 0
}

// subst replaces unknowns.
func (a Lin) subst(m map[int]Lin) Lin {
	hit := false
	for _, v := range a.vs {
		if _, ok := m[v]; ok {
			hit = true
		}
	}
	if !hit {
		return a
	}
	r := konst(a.k)
	for i, v := range a.vs {
		if e, ok := m[v]; ok {
			r = r.comb(e, a.cs[i])
		} else {
			r = r.comb(Lin{vs: []int{v}, cs: []int64{1}}, a.cs[i])
		}
	}
	return r
}

func (a Lin) equal(b Lin) bool {
	if a.k != b.k || len(a.vs) != len(b.vs) {
		return false
	}
	for i := range a.vs {
		if a.vs[i] != b.vs[i] || a.cs[i] != b.cs[i] {
			return false
		}
	}
	return true
}

// shape identifies the expression up to its constant.
func (a Lin) shape() string {
	b := make([]byte, 0, 8*len(a.vs))
	for i, v := range a.vs {
		b = binary.AppendVarint(b, a.cs[i])
		b = binary.AppendVarint(b, int64(v))
	}
	return string(b)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tight divides a fact (expression <= 0 over integers) by its content.
func (a Lin) tight() Lin {
	g := int64(0)
	for _, c := range a.cs {
		g = gcd(g, c)
	}
	if g <= 1 {
		return a
	}
	r := Lin{vs: a.vs, cs: make([]int64, len(a.cs))}
	for i, c := range a.cs {
		r.cs[i] = c / g
	}
	// ceil(k/g)
	r.k = a.k / g
	if a.k%g != 0 && a.k > 0 {
		r.k++
	}
	return r
}

// Facts are expressions that are at most zero.
type Facts struct {
	le []Lin
	ne []Lin // expressions that are not zero
}

func (f *Facts) clone() Facts {
	return Facts{le: f.le[:len(f.le):len(f.le)], ne: f.ne[:len(f.ne):len(f.ne)]}
}

// entails reports whether g <= 0 follows.
func (f *Facts) entails(g Lin) bool {
	if g.isConst() {
		return g.k <= 0
	}
	for _, x := range f.le {
		if d := g.sub(x); d.isConst() && d.k <= 0 {
			return true
		}
	}
	// refute g >= 1
	return refuted(f.le, g.scale(-1).plus(1))
}

func (f *Facts) zero(g Lin) bool {
	return g.isConst() && g.k == 0 || !g.isConst() && f.entails(g) && f.entails(g.scale(-1))
}

// assume adds g <= 0; false if that cannot be.
func (f *Facts) assume(g Lin) bool {
	if g.isConst() {
		return g.k <= 0
	}
	g = g.tight()
	for _, x := range f.le {
		if d := g.sub(x); d.isConst() && d.k <= 0 {
			return true // known
		}
	}
	if refuted(f.le, g) {
		return false
	}
	f.le = append(f.le, g)
	return f.settle()
}

// settle turns what is not zero and known on one side into a bound.
func (f *Facts) settle() bool {
	for i := 0; i < len(f.ne); i++ {
		x := f.ne[i]
		lo, hi := f.entails(x.scale(-1)), f.entails(x)
		if lo && hi {
			return false
		}
		if lo || hi {
			f.ne = append(append([]Lin(nil), f.ne[:i]...), f.ne[i+1:]...)
			if lo {
				return f.assume(x.scale(-1).plus(1))
			}
			return f.assume(x.plus(1))
		}
	}
	return true
}

func (f *Facts) assumeZero(g Lin) bool { return f.assume(g) && f.assume(g.scale(-1)) && f.settle() }

func (f *Facts) assumeNot(g Lin) bool {
	if g.isConst() {
		return g.k != 0
	}
	f.ne = append(f.ne, g)
	return f.settle()
}

const big = int64(1) << 52

func (a Lin) large() bool {
	if a.k > big || a.k < -big {
		return true
	}
	for _, c := range a.cs {
		if c > 1<<40 || c < -1<<40 {
			return true
		}
	}
	return false
}

// refuted reports whether the facts connected with g contradict it
// (Fourier-Motzkin, giving up when it grows).
func refuted(le []Lin, g Lin) bool {
	// the facts that share unknowns with g, transitively
	in := map[int]bool{}
	for _, v := range g.vs {
		in[v] = true
	}
	used := make([]bool, len(le))
	cons := []Lin{g}
	for again := true; again; {
		again = false
		for i, x := range le {
			if used[i] {
				continue
			}
			for _, v := range x.vs {
				if in[v] {
					used[i], again = true, true
					break
				}
			}
			if used[i] {
				for _, v := range x.vs {
					in[v] = true
				}
				cons = append(cons, x)
			}
		}
	}
	// equalities first
	for {
		shapes := map[string]int{}
		for i, x := range cons {
			shapes[x.shape()] = i
		}
		var m map[int]Lin
		for _, x := range cons {
			j, ok := shapes[x.scale(-1).shape()]
			if !ok || len(x.vs) == 0 || cons[j].k != -x.k {
				continue
			}
			for i, v := range x.vs {
				if c := x.cs[i]; c == 1 || c == -1 {
					// v = -(x - c*v)/c
					rest := x.comb(Lin{vs: []int{v}, cs: []int64{1}}, -c)
					m = map[int]Lin{v: rest.scale(-c)}
					break
				}
			}
			if m != nil {
				break
			}
		}
		if m == nil {
			break
		}
		var bad bool
		cons, bad = tidy(cons, m)
		if bad {
			return true
		}
	}
	for {
		var bad bool
		cons, bad = tidy(cons, nil)
		if bad {
			return true
		}
		if len(cons) == 0 {
			return false
		}
		// the unknown whose elimination costs least
		pos, neg := map[int]int{}, map[int]int{}
		for _, x := range cons {
			for i, v := range x.vs {
				if x.cs[i] > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		best, cost := -1, 0
		for v := range in {
			if pos[v]+neg[v] == 0 {
				continue
			}
			if c := pos[v]*neg[v] - pos[v] - neg[v]; best < 0 || c < cost || c == cost && v < best {
				best, cost = v, c
			}
		}
		if best < 0 || len(cons)+cost > 3000 {
			return false
		}
		var keep, ps, ns []Lin
		for _, x := range cons {
			switch c := x.coef(best); {
			case c > 0:
				ps = append(ps, x)
			case c < 0:
				ns = append(ns, x)
			default:
				keep = append(keep, x)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.coef(best), -n.coef(best)
				d := gcd(a, b)
				r := p.scale(b/d).comb(n, a/d)
				if r.large() {
					continue
				}
				keep = append(keep, r)
			}
		}
		cons = keep
	}
}

// tidy substitutes, tightens and keeps the strongest of each shape.
func tidy(cons []Lin, m map[int]Lin) (out []Lin, bad bool) {
	at := map[string]int{}
	for _, x := range cons {
		if m != nil {
			x = x.subst(m)
		}
		if x.isConst() {
			if x.k > 0 {
				return nil, true
			}
			continue
		}
		x = x.tight()
		s := x.shape()
		if i, ok := at[s]; ok {
			if x.k > out[i].k {
				out[i] = x
			}
			continue
		}
		at[s] = len(out)
		out = append(out, x)
	}
	return out, false
}
