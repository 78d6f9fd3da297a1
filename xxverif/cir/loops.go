package cir

import "fmt"

// loop follows a loop entered along e, and gives the ways out of it.
func (x *Interp) loop(f *Func, l *loop, e edge) ([]edge, []ret) {
	if f.Blocks[l.head].Ins[0].Op == "phi" {
		x.report("undecided", f.Blocks[l.head].Ins[0], false, "a loop that starts with a choice of values")
		return nil, nil
	}
	x.Loops++
	at := f.Blocks[l.head].Ins[0]
	if !x.outer {
		x.outer = true
		defer func() { x.outer = false }()
		if l.inner || !x.short(f, l, e) {
			return x.invariant(f, l, e, at, true)
		}
	}
	if l.inner {
		return x.invariant(f, l, e, at, false)
	}
	// a few times round
	kept := len(x.reports)
	steps := x.steps
	cur := []edge{e}
	var out []edge
	var rets []ret
	for i := 0; i < 4 && len(cur) > 0 && len(cur) < 20; i++ {
		var next []edge
		for _, c := range cur {
			c.st = c.st.clone()
			back, es, rs := x.once(f, l, c)
			next, out, rets = append(next, back...), append(out, es...), append(rets, rs...)
		}
		cur = next
	}
	if len(cur) == 0 {
		return out, rets
	}
	x.reports, x.steps = x.reports[:kept], steps
	// once, and any number of times after that
	back, out, rets := x.once(f, l, edge{e.st.clone(), e.from, e.to})
	if len(back) > 4 {
		x.reports, x.steps = x.reports[:kept], steps
		return x.invariant(f, l, e, at, false)
	}
	for _, b := range back {
		es, rs := x.invariant(f, l, b, at, false)
		out, rets = append(out, es...), append(rets, rs...)
	}
	return out, rets
}

// short tells a loop that always ends after a few rounds.
func (x *Interp) short(f *Func, l *loop, e edge) bool {
	kept, steps := len(x.reports), x.steps
	defer func() { x.reports, x.steps = x.reports[:kept], steps }()
	cur := []edge{{e.st.clone(), e.from, e.to}}
	for i := 0; i < 4; i++ {
		var next []edge
		for _, c := range cur {
			c.st.g = nil
			back, _, _ := x.once(f, l, c)
			next = append(next, back...)
		}
		if len(next) == 0 {
			return true
		}
		if len(next) > 20 {
			return false
		}
		cur = next
	}
	return false
}

// once follows the body of a loop.
func (x *Interp) once(f *Func, l *loop, e edge) (back, out []edge, rets []ret) {
	es, rets := x.block(f, e.st, l.head, e.from)
	all, more := x.region(f, es, l)
	rets = append(rets, more...)
	for _, e := range all {
		if e.to == l.head {
			back = append(back, e)
		} else {
			out = append(out, e)
		}
	}
	return back, out, rets
}

// A cand is a supposed invariant: form + k <= 0 over the unknowns of the head,
// for the first k that holds.
type cand struct {
	form Lin // over the placeholders of the cells (negative numbers) and the unknowns of the entry
	ks   []int64
}

// A varying cell of a loop.
type varying struct {
	id     int
	init   Val
	lead   int // the cell it keeps its distance to, itself if none
	sym    Lin // in this round
	signed bool
}

func (v *varying) place() Lin { return Lin{vs: []int{-1 - v.id}, cs: []int64{1}} }

// invariant follows any number of rounds of a loop.
func (x *Interp) invariant(f *Func, l *loop, e edge, at *Instr, outer bool) ([]edge, []ret) {
	kept := len(x.reports)
	entry := e.st
	if outer && entry.g != nil {
		entry.g.boundary(x, entry, "start of the loop")
		kept = len(x.reports)
	}
	vary := map[int]*varying{}
	var cands []*cand
	for round := 0; ; round++ {
		if round > 60 || x.steps > x.MaxSteps {
			x.reports = x.reports[:kept]
			x.report("undecided", at, false, "the loop changes too much to be followed")
			return nil, nil
		}
		x.reports = x.reports[:kept]
		head := entry.clone()
		ids := keys(vary)
		place := map[int]Lin{}
		for _, id := range ids {
			v := vary[id]
			if v.init.k != kInt && v.init.k != kPtr {
				head.cells[id] = Val{k: kUndef, w: v.init.w}
				if v.init.k == kCond {
					head.cells[id] = Val{k: kCond, w: 1, c: Cond{any: true}}
				}
				continue
			}
			if v.lead == id {
				v.sym = x.free("")
			} else {
				v.sym = vary[v.lead].sym.add(v.init.e.sub(vary[v.lead].init.e))
			}
			place[-1-id] = v.sym
			c := v.init
			c.e, c.src = v.sym, nil
			head.cells[id] = c
			if v.lead == id && c.k == kInt && c.obj == nil && c.w < 63 {
				lo, hi := int64(0), int64(1)<<c.w-1
				if v.signed {
					lo, hi = -1<<(c.w-1), 1<<(c.w-1)-1
				}
				head.f.le = append(head.f.le, v.sym.plus(-hi), v.sym.scale(-1).plus(lo))
			}
		}
		for _, c := range cands {
			if len(c.ks) > 0 {
				head.f.assume(c.form.subst(place).plus(c.ks[0]))
			}
		}
		headCells := map[int]Val{}
		for k, v := range head.cells {
			headCells[k] = v
		}
		var old Ghost
		if head.g != nil {
			old = head.g.clone()
		}
		back, out, rets := x.once(f, l, edge{head, e.from, e.to})
		// what the back edges say
		again := false
		if outer {
			for _, b := range back {
				if b.st.g != nil {
					b.st.g.boundary(x, b.st, "end of a round")
				}
			}
		}
		for _, b := range back {
			for _, id := range cellIDs(headCells) {
				v, ok := b.st.cells[id]
				h := headCells[id]
				if vary[id] != nil {
					continue
				}
				if ok && x.sameVal(b.st, v, h) {
					continue
				}
				init := entry.cells[id]
				nv := &varying{id: id, init: init, lead: id}
				nv.signed = signedCell(entry, id)
				if init.k == kInt || init.k == kPtr {
					for _, o := range keys(vary) {
						if w := vary[o]; w.lead == o && (w.init.k == kInt || w.init.k == kPtr) {
							nv.lead = o
							break
						}
					}
				}
				vary[id] = nv
				again = true
			}
		}
		if again {
			cands = x.candidates(f, entry, vary)
			continue
		}
		// bring the changed numbers into their range
		var ends []*State
		for _, b := range back {
			ends = append(ends, x.ranged(b.st, vary)...)
		}
		redo := false
		for _, st := range ends {
			next := map[int]Lin{}
			for _, id := range keys(vary) {
				v := vary[id]
				if v.init.k != kInt && v.init.k != kPtr {
					continue
				}
				c := st.cells[id]
				if c.k != v.init.k || c.obj != v.init.obj {
					// it became something else
					if c.k == kUndef || c.obj != v.init.obj || c.k != v.init.k {
						v.init = Val{k: kUndef, w: v.init.w}
						again, redo = true, true
						break
					}
				}
				next[-1-id] = c.e
			}
			if redo {
				cands = x.candidates(f, entry, vary)
				break
			}
			// cells that keep their distance
			var leads []*varying
			moved := map[int]int{}
			for _, id := range keys(vary) {
				v := vary[id]
				if v.init.k != kInt && v.init.k != kPtr || v.lead == id {
					continue
				}
				p := vary[v.lead]
				d := next[-1-id].sub(v.sym).sub(next[-1-p.id].sub(p.sym))
				if st.f.zero(d) {
					continue
				}
				again, redo = true, true
				found := false
				for _, w := range leads {
					if moved[w.id] == p.id {
						d := next[-1-id].sub(v.sym).sub(next[-1-w.id].sub(w.sym))
						if st.f.zero(d) {
							v.lead = w.id
							found = true
							break
						}
					}
				}
				if !found {
					v.lead = id
					leads = append(leads, v)
					moved[id] = p.id
				}
			}
			if redo {
				cands = x.candidates(f, entry, vary)
				break
			}
			for _, c := range cands {
				for len(c.ks) > 0 && !st.f.entails(c.form.subst(next).plus(c.ks[0])) {
					c.ks = c.ks[1:]
					again = true
				}
			}
		}
		if again {
			continue
		}
		if head.g != nil && !outer {
			for _, b := range back {
				if !b.st.g.same(b.st, old) {
					x.report("ghost", at, false, "what the rounds of the loop add up to cannot be followed")
				}
			}
		}
		return out, rets
	}
}

func keys(m map[int]*varying) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// signedCell reports whether the variable is used as a signed number.
func signedCell(st *State, id int) bool {
	for _, v := range st.env {
		if v.k == kPtr && v.obj != nil && v.obj.ID == id {
			return v.obj.Signed
		}
	}
	return false
}

func (x *Interp) sameVal(st *State, a, b Val) bool {
	if a.k != b.k || a.obj != b.obj {
		return false
	}
	switch a.k {
	case kUndef:
		return true
	case kCond:
		return false
	}
	return a.e.equal(b.e) || st.f.zero(a.e.sub(b.e))
}

// ranged makes the numbers in the varying cells those of their types.
func (x *Interp) ranged(st *State, vary map[int]*varying) []*State {
	states := []*State{st}
	for _, id := range keys(vary) {
		v := vary[id]
		if v.init.k != kInt || v.init.obj != nil || v.init.w >= 63 {
			continue
		}
		var next []*State
		for _, s := range states {
			c := s.cells[id]
			if c.k != kInt || c.obj != nil {
				next = append(next, s)
				continue
			}
			for _, b := range x.canon(s, c, v.signed) {
				c.e = b.e
				b.st.cells[id] = c
				next = append(next, b.st)
			}
		}
		states = next
	}
	return states
}

// candidates are the linear relations that hold at the entry.
func (x *Interp) candidates(f *Func, entry *State, vary map[int]*varying) []*cand {
	var leads []*varying
	for _, id := range keys(vary) {
		v := vary[id]
		if (v.init.k == kInt || v.init.k == kPtr) && v.lead == id && !v.init.e.large() {
			leads = append(leads, v)
		}
	}
	init := map[int]Lin{}
	for _, v := range leads {
		init[-1-v.id] = v.init.e
	}
	var out []*cand
	shapes := map[string]bool{}
	put := func(form Lin, ks ...int64) {
		if shapes[form.shape()+fmt.Sprint(form.k)] {
			return
		}
		shapes[form.shape()+fmt.Sprint(form.k)] = true
		var ok []int64
		at := form.subst(init)
		for i, k := range ks { // the strongest first
			if entry.f.entails(at.plus(k)) {
				ok = ks[i:]
				break
			}
		}
		if len(ok) > 0 {
			out = append(out, &cand{form, ok})
		}
	}
	// what does not change
	var terms []Lin
	seen := map[string]bool{}
	for _, id := range cellIDs(entry.cells) {
		c := entry.cells[id]
		if vary[id] != nil || c.k != kInt && c.k != kPtr || c.e.isConst() || c.e.large() {
			continue
		}
		if s := c.e.shape(); !seen[s] {
			seen[s] = true
			terms = append(terms, c.e)
		}
	}
	near := []int64{3, 2, 1, 0, -1, -2, -3}
	for _, id := range keys(vary) {
		v := vary[id]
		if v.init.k != kInt || v.init.obj != nil || v.lead == id || v.init.e.large() || vary[v.lead].init.e.large() {
			continue
		}
		// in lock step with another one, at a distance that varies
		d := v.init.e.sub(vary[v.lead].init.e)
		if d.isConst() {
			continue
		}
		p := vary[v.lead].place().add(d)
		for _, t := range terms {
			put(p.sub(t), near[2:]...)
		}
	}
	for i, v := range leads {
		p := v.place()
		var up, down []int64
		for _, k := range f.consts {
			up = append(up, -k)
			down = append([]int64{k}, down...)
		}
		put(p, up...)             // at most k
		put(p.scale(-1), down...) // at least k
		put(p.sub(v.init.e), 0)   // never grows
		put(v.init.e.sub(p), 0)   // never shrinks
		for _, t := range terms {
			put(p.sub(t), near...)
			put(t.sub(p), near...)
		}
		for j, w := range leads {
			if j == i {
				continue
			}
			q := w.place()
			put(p.sub(q), near...)
			put(p.sub(q).sub(v.init.e.sub(w.init.e)), 0)
			if j > i {
				s, t := p.add(q), v.init.e.add(w.init.e)
				put(s.sub(t), 0)
				put(t.sub(s), 0)
				for _, u := range terms {
					put(s.sub(u), near...)
					put(u.sub(s), near...)
				}
			}
		}
	}
	return out
}
