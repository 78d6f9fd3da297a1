package cir

import (
	"fmt"
	"strconv"
	"strings"
)

// A Report is one thing found on a path.
type Report struct {
	Kind string // access, undecided, undefined, or what a ghost makes of it
	File string
	Line int
	What string
	Ok   bool
}

// An Interp follows the paths of one function.
type Interp struct {
	m        *Module
	names    []string
	objs     int
	reports  []Report
	steps    int
	MaxSteps int
	file     []string
	depth    int
	globals  map[string]*Obj
	Rets     int
	outer    bool // inside the outermost loop of the entry
	Loops    int
}

func NewInterp(m *Module) *Interp {
	return &Interp{m: m, MaxSteps: 3000000, globals: map[string]*Obj{}}
}

// Reports are what the paths came to.
func (x *Interp) Reports() []Report { return x.reports }

// Steps is how many instructions were followed.
func (x *Interp) Steps() int { return x.steps }

func (x *Interp) report(kind string, at *Instr, ok bool, format string, a ...any) {
	x.reports = append(x.reports, Report{kind, x.file[len(x.file)-1], at.Line, fmt.Sprintf(format, a...), ok})
}

func (x *Interp) newObj(name string, size Lin) *Obj {
	x.objs++
	return &Obj{ID: x.objs, Name: name, Size: size}
}

func intVal(w int, e Lin) Val { return Val{k: kInt, w: w, e: e} }

func ptrVal(o *Obj, e Lin) Val { return Val{k: kPtr, w: 64, e: e, obj: o} }

func width(t string) int {
	if t == "ptr" {
		return 64
	}
	if strings.HasPrefix(t, "i") {
		if n, err := strconv.Atoi(t[1:]); err == nil {
			return n
		}
	}
	return 0
}

// size is the number of bytes of a type, 0 if it is not known here.
func size(t string) int64 {
	if strings.HasPrefix(t, "[") {
		j := strings.Index(t, " x ")
		if j < 0 {
			return 0
		}
		n, err := strconv.ParseInt(t[1:j], 10, 64)
		if err != nil {
			return 0
		}
		return n * size(strings.TrimSuffix(t[j+3:], "]"))
	}
	return int64((width(t) + 7) / 8)
}

func elem(t string) string {
	if j := strings.Index(t, " x "); j >= 0 && strings.HasPrefix(t, "[") {
		return strings.TrimSuffix(t[j+3:], "]")
	}
	return ""
}

type edge struct {
	st       *State
	from, to string
}

type ret struct {
	st *State
	v  Val
	at *Instr
}

// value is what an operand stands for.
func (x *Interp) value(st *State, o Operand) Val {
	t := o.Text
	switch {
	case strings.HasPrefix(t, "%"):
		if v, ok := st.env[t]; ok {
			return v
		}
	case strings.HasPrefix(t, "@"):
		if ty, ok := x.m.Globals[t]; ok && size(ty) > 0 {
			if x.globals[t] == nil {
				x.globals[t] = x.newObj(strings.TrimPrefix(t, "@"), konst(size(ty)))
			}
			return ptrVal(x.globals[t], konst(0))
		}
	case t == "null":
		return Val{k: kPtr, w: 64}
	case t == "true":
		return Val{k: kCond, w: 1, c: Cond{e: konst(0)}}
	case t == "false":
		return Val{k: kCond, w: 1, c: Cond{e: konst(1)}}
	default:
		if n, err := strconv.ParseInt(t, 10, 64); err == nil && width(o.Type) > 0 {
			return intVal(width(o.Type), konst(n))
		}
	}
	return Val{k: kUndef, w: width(o.Type)}
}

// Call follows f for the arguments.
func (x *Interp) Call(f *Func, st *State, args []Val) []ret {
	x.file = append(x.file, f.File)
	x.depth++
	defer func() { x.file = x.file[:len(x.file)-1]; x.depth-- }()
	f.findLoops()
	f.classify()
	st.env = map[string]Val{}
	for i, p := range f.Params {
		if i < len(args) {
			st.env[p.Text] = args[i]
		}
	}
	edges, rets := x.block(f, st, f.Order[0], "")
	_, more := x.region(f, edges, nil)
	return append(rets, more...)
}

// Analyse follows f as the program calls it.
// limit (if there is one) is the memory whose size bounds what is returned.
func (x *Interp) Analyse(f *Func, st *State, args []Val, limit *Obj) {
	x.file = []string{f.File}
	for _, r := range x.Call(f, st, args) {
		x.Rets++
		if r.v.k == kInt && limit != nil {
			for _, b := range x.canon(r.st, r.v, false) {
				if !b.st.f.entails(b.e.sub(limit.Size)) {
					x.report("access", r.at, false, "returns %s, which may be more than the %s bytes of %s", x.show(b.e), x.show(limit.Size), limit.Name)
				}
			}
		}
		if r.st.g != nil {
			r.st.g.ret(x, r.st, r.v, r.at)
		}
	}
}

// region follows the edges inside scope (the whole function if nil), and
// gives those that leave it or come back to its head.
func (x *Interp) region(f *Func, work []edge, scope *loop) (out []edge, rets []ret) {
	for len(work) > 0 {
		e := work[len(work)-1]
		work = work[:len(work)-1]
		if scope != nil && (!scope.body[e.to] || e.to == scope.head) {
			out = append(out, e)
			continue
		}
		if x.steps > x.MaxSteps {
			return out, rets
		}
		var es []edge
		var rs []ret
		if l := f.loops[e.to]; l != nil {
			es, rs = x.loop(f, l, e)
		} else {
			es, rs = x.block(f, e.st, e.to, e.from)
		}
		work = append(work, es...)
		rets = append(rets, rs...)
	}
	return out, rets
}

// block follows one block to its end.
func (x *Interp) block(f *Func, st *State, name, from string) (out []edge, rets []ret) {
	b := f.Blocks[name]
	type item struct {
		st *State
		i  int
	}
	// phis take their values together
	vals := map[string]Val{}
	first := 0
	for first < len(b.Ins) && b.Ins[first].Op == "phi" {
		in := b.Ins[first]
		for j, p := range in.To {
			if p == from {
				vals[in.Res] = x.value(st, in.Args[j])
			}
		}
		first++
	}
	for k, v := range vals {
		st.env[k] = v
	}
	work := []item{{st, first}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.i >= len(b.Ins) {
			continue
		}
		in := b.Ins[w.i]
		x.steps++
		switch in.Op {
		case "br", "switch", "ret", "unreachable":
			es, r := x.leave(w.st, in, name)
			out = append(out, es...)
			if r != nil {
				rets = append(rets, *r)
			}
			continue
		}
		for _, s := range x.step(f, w.st, in) {
			work = append(work, item{s, w.i + 1})
		}
	}
	return out, rets
}

// truth splits the state by a condition.
func (x *Interp) truth(st *State, v Val, in *Instr) (yes, no *State) {
	if v.k == kInt {
		// the lowest bit
		q := x.quot(st, v.e, 2)
		v = Val{k: kCond, c: Cond{e: v.e.sub(q.scale(2)), eq: true, neg: true}}
	}
	if v.k != kCond {
		x.report("undefined", in, false, "branches on a value that is not set")
		v = Val{k: kCond, c: Cond{any: true}}
	}
	yes, no = st.clone(), st
	if !x.assume(yes, v.c, true) {
		yes = nil
	}
	if !x.assume(no, v.c, false) {
		no = nil
	}
	return yes, no
}

func (x *Interp) leave(st *State, in *Instr, name string) (out []edge, r *ret) {
	switch in.Op {
	case "br":
		if len(in.Args) == 0 {
			return []edge{{st, name, in.To[0]}}, nil
		}
		yes, no := x.truth(st, x.value(st, in.Args[0]), in)
		if yes != nil {
			out = append(out, edge{yes, name, in.To[0]})
		}
		if no != nil {
			out = append(out, edge{no, name, in.To[1]})
		}
	case "switch":
		v := x.value(st, in.Args[0])
		if v.k != kInt || v.obj != nil {
			x.report("undecided", in, false, "a switch on a value that cannot be followed")
			return nil, nil
		}
		for _, b := range x.canon(st, v, true) {
			for i, c := range in.Cases {
				s := b.st.clone()
				if s.f.assumeZero(b.e.plus(-c)) {
					out = append(out, edge{s, name, in.To[i+1]})
				}
			}
			rest := b.st
			ok := true
			for _, c := range in.Cases {
				ok = ok && rest.f.assumeNot(b.e.plus(-c))
			}
			if ok {
				out = append(out, edge{rest, name, in.To[0]})
			}
		}
	case "ret":
		return nil, &ret{st, x.value(st, in.Args[0]), in}
	}
	return out, nil
}

// access checks that n bytes at p are inside their memory.
func (x *Interp) access(st *State, in *Instr, what string, p Val, n Lin) bool {
	if p.k != kPtr || p.obj == nil {
		x.report("undecided", in, false, "%s through a pointer that cannot be followed", what)
		return false
	}
	if st.f.entails(n) { // nothing
		return true
	}
	lo, hi := p.e.scale(-1), p.e.add(n).sub(p.obj.Size)
	if !st.f.entails(lo) {
		x.report("access", in, false, "%s %s at offset %s, which may be before its start", what, p.obj.Name, x.show(p.e))
		if !st.f.assume(lo) {
			return false
		}
	} else if !st.f.entails(hi) {
		x.report("access", in, false, "%s %s at offset %s up to %s, which may be behind its end at %s", what, p.obj.Name, x.show(p.e), x.show(p.e.add(n)), x.show(p.obj.Size))
		if !st.f.assume(hi) {
			return false
		}
	} else if !p.obj.Ghost && p.obj.Type == "" {
		x.report("access", in, true, "%s %s", what, p.obj.Name)
	}
	return true
}

// unknown is any value of a type.
func (x *Interp) unknown(st *State, t string) Val {
	w := width(t)
	switch {
	case t == "i1":
		return Val{k: kCond, w: 1, c: Cond{any: true}}
	case t == "ptr", w == 0:
		return Val{k: kUndef, w: w}
	case w >= 63:
		return intVal(w, x.free(""))
	}
	return intVal(w, x.fresh(st, 0, 1<<w-1))
}

// ints turns a condition into 0 or 1.
func (x *Interp) ints(st *State, v Val, in *Instr) []struct {
	st *State
	v  Val
} {
	type sv = struct {
		st *State
		v  Val
	}
	if v.k != kCond {
		return []sv{{st, v}}
	}
	var out []sv
	yes, no := x.truth(st, v, in)
	if yes != nil {
		out = append(out, sv{yes, intVal(1, konst(1))})
	}
	if no != nil {
		out = append(out, sv{no, intVal(1, konst(0))})
	}
	return out
}

// step follows one instruction.
func (x *Interp) step(f *Func, st *State, in *Instr) []*State {
	set := func(v Val) []*State {
		if in.Res != "" {
			st.env[in.Res] = v
		}
		return []*State{st}
	}
	arg := func(i int) Val { return x.value(st, in.Args[i]) }
	switch in.Op {
	case "alloca":
		n := size(in.Type)
		o := x.newObj(strings.TrimPrefix(in.Res, "%"), konst(n))
		o.Name = strings.TrimSuffix(o.Name, ".addr")
		if width(in.Type) > 0 && len(in.Args) == 0 {
			o.Type = in.Type
			o.Signed = f.signed[in.Res]
		} else if n == 0 || len(in.Args) > 0 {
			x.report("undecided", in, false, "a variable of type %s", in.Type)
		}
		return set(ptrVal(o, konst(0)))
	case "load":
		return x.load(st, in, arg(0))
	case "store":
		return x.store(st, in, arg(1), arg(0))
	case "getelementptr":
		base := arg(0)
		if base.k == kUndef {
			x.report("undefined", in, false, "a pointer that is not set")
			return nil
		}
		if base.obj == nil {
			x.report("undecided", in, false, "arithmetic on a pointer that cannot be followed")
			return nil
		}
		states := []*State{st}
		t := in.Type
		st.env[in.Res] = base
		for i := range in.Args[1:] {
			s := size(t)
			var next []*State
			for _, st := range states {
				v := x.value(st, in.Args[i+1])
				if v.k != kInt || s == 0 {
					x.report("undecided", in, false, "an index that cannot be followed")
					continue
				}
				if v.obj != nil {
					x.report("undecided", in, false, "an address used as an index")
					continue
				}
				for _, b := range x.canon(st, v, true) {
					p := b.st.env[in.Res]
					p.e = p.e.add(b.e.scale(s))
					b.st.env[in.Res] = p
					next = append(next, b.st)
				}
			}
			states = next
			t = elem(t)
		}
		return states
	case "icmp":
		return x.compare(st, in, arg(0), arg(1))
	case "select":
		yes, no := x.truth(st, arg(0), in)
		var out []*State
		if yes != nil {
			yes.env[in.Res] = x.value(yes, in.Args[1])
			out = append(out, yes)
		}
		if no != nil {
			no.env[in.Res] = x.value(no, in.Args[2])
			out = append(out, no)
		}
		return out
	case "zext", "sext":
		var out []*State
		for _, s := range x.ints(st, arg(0), in) {
			if s.v.k != kInt || s.v.obj != nil {
				return x.opaque(st, in)
			}
			if s.v.w == 1 && in.Op == "sext" {
				s.v.e = s.v.e.scale(-1)
				s.st.env[in.Res] = intVal(width(in.Type), s.v.e)
				out = append(out, s.st)
				continue
			}
			for _, b := range x.canon(s.st, s.v, in.Op == "sext") {
				v := intVal(width(in.Type), b.e)
				if in.Op == "zext" {
					v.src = s.v.src
				}
				b.st.env[in.Res] = v
				out = append(out, b.st)
			}
		}
		return out
	case "trunc":
		v := arg(0)
		if v.k != kInt || v.obj != nil {
			return x.opaque(st, in)
		}
		w := width(in.Type)
		if w == 1 {
			q := x.quot(st, v.e, 2)
			return set(Val{k: kCond, w: 1, c: Cond{e: v.e.sub(q.scale(2)), eq: true, neg: true}})
		}
		r := intVal(w, v.e)
		if v.src != nil && w%8 == 0 {
			r.src = v.src
			if w/8 < v.src.N {
				r.src = &Src{v.src.Obj, v.src.Off, w / 8}
			}
		}
		return set(r)
	case "ptrtoint":
		v := arg(0)
		if v.k != kPtr {
			return x.opaque(st, in)
		}
		v.k = kInt
		v.w = width(in.Type)
		return set(v)
	case "inttoptr":
		v := arg(0)
		if v.k != kInt || v.obj == nil {
			return x.opaque(st, in)
		}
		v.k = kPtr
		return set(v)
	case "bitcast":
		return set(arg(0))
	case "add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem":
		return x.arith(st, in, arg(0), arg(1))
	case "call":
		return x.call(st, in)
	}
	return x.opaque(st, in)
}

// opaque gives up on what an instruction does.
func (x *Interp) opaque(st *State, in *Instr) []*State {
	x.report("undecided", in, false, "%s cannot be followed", in.Text)
	if in.Res != "" {
		st.env[in.Res] = x.unknown(st, in.Type)
	}
	return []*State{st}
}

func (x *Interp) load(st *State, in *Instr, p Val) []*State {
	w := width(in.Type)
	n := size(in.Type)
	if !x.access(st, in, "reads", p, konst(n)) || n == 0 {
		return nil
	}
	if p.obj.Type != "" {
		if !p.e.isConst() || p.e.k != 0 || p.obj.Type != in.Type {
			return x.opaque(st, in)
		}
		v, ok := st.cells[p.obj.ID]
		if !ok {
			v = Val{k: kUndef, w: w}
		}
		st.env[in.Res] = v
		return []*State{st}
	}
	v := x.unknown(st, in.Type)
	if v.k != kInt {
		return x.opaque(st, in)
	}
	v.src = &Src{p.obj, p.e, int(n)}
	if p.obj.Fixed {
		for i := len(st.loads) - 1; i >= 0; i-- {
			l := st.loads[i]
			if l.obj == p.obj && l.n == int(n) && (l.off.equal(p.e) || st.f.zero(l.off.sub(p.e))) {
				v.e = Lin{vs: []int{l.sym}, cs: []int64{1}}
				st.env[in.Res] = v
				return []*State{st}
			}
		}
		st.loads = append(st.loads, load{p.obj, p.e, int(n), v.e.vs[0]})
	}
	st.env[in.Res] = v
	return []*State{st}
}

func (x *Interp) store(st *State, in *Instr, p, v Val) []*State {
	n := size(in.Args[0].Type)
	if !x.access(st, in, "writes", p, konst(n)) || n == 0 {
		return nil
	}
	if p.obj.Type != "" {
		if !p.e.isConst() || p.e.k != 0 || p.obj.Type != in.Args[0].Type {
			return x.opaque(st, in)
		}
		st.cells[p.obj.ID] = v
		return []*State{st}
	}
	if p.obj.Fixed {
		x.report("fixed", in, false, "writes %s, which is only to be read", p.obj.Name)
		return []*State{st}
	}
	if v.k == kUndef {
		x.report("undefined", in, false, "writes a value that is not set")
	}
	if st.g != nil {
		return st.g.store(x, st, p.obj, p.e, v, int(n), in)
	}
	return []*State{st}
}

func (x *Interp) compare(st *State, in *Instr, a, b Val) []*State {
	if a.k == kUndef || b.k == kUndef {
		x.report("undefined", in, false, "compares a value that is not set")
		st.env[in.Res] = Val{k: kCond, w: 1, c: Cond{any: true}}
		return []*State{st}
	}
	if a.k == kCond || b.k == kCond {
		// truth values
		var out []*State
		for _, s := range x.ints(st, a, in) {
			for _, u := range x.ints(s.st, b, in) {
				out = append(out, x.compare(u.st, in, s.v, u.v)...)
			}
		}
		return out
	}
	set := func(st *State, c Cond) []*State {
		st.env[in.Res] = Val{k: kCond, w: 1, c: c}
		return []*State{st}
	}
	if a.obj != b.obj {
		if (a.obj == nil && a.e.isConst() && a.e.k == 0 || b.obj == nil && b.e.isConst() && b.e.k == 0) && (in.Pred == "eq" || in.Pred == "ne") {
			// no piece of memory is at address zero
			if in.Pred == "eq" {
				return set(st, Cond{e: konst(1)})
			}
			return set(st, Cond{e: konst(0)})
		}
		x.report("undecided", in, false, "compares addresses of different memory")
		return set(st, Cond{any: true})
	}
	addr := a.obj != nil || a.k == kPtr
	switch in.Pred {
	case "eq", "ne":
		var out []*State
		do := func(st *State, d Lin) {
			c := Cond{e: d, eq: true, neg: in.Pred == "ne"}
			if a.src != nil && b.src != nil && a.src.N == b.src.N {
				c.a, c.b = a.src, b.src
			}
			out = append(out, set(st, c)...)
		}
		if addr {
			do(st, a.e.sub(b.e))
			return out
		}
		if st.f.zero(a.e.sub(b.e)) {
			return set(st, Cond{e: konst(0), eq: true, neg: in.Pred == "ne"})
		}
		for _, s := range x.canon(st, a, false) {
			for _, u := range x.canon(s.st, b, false) {
				do(u.st, s.e.sub(u.e))
			}
		}
		return out
	}
	signed := in.Pred[0] == 's'
	pred := in.Pred[1:]
	le := func(st *State, a, b Lin) []*State {
		switch pred {
		case "lt":
			return set(st, Cond{e: a.sub(b).plus(1)})
		case "le":
			return set(st, Cond{e: a.sub(b)})
		case "gt":
			return set(st, Cond{e: b.sub(a).plus(1)})
		}
		return set(st, Cond{e: b.sub(a)})
	}
	if addr {
		return le(st, a.e, b.e)
	}
	var out []*State
	for _, s := range x.canon(st, a, signed) {
		for _, u := range x.canon(s.st, b, signed) {
			if a.w < 63 || signed {
				out = append(out, le(u.st, s.e, u.e)...)
				continue
			}
			// unsigned numbers of full size: what is below zero is huge
			for _, an := range []bool{false, true} {
				for _, bn := range []bool{false, true} {
					t := u.st.clone()
					if !t.f.assume(negIf(s.e, an)) || !t.f.assume(negIf(u.e, bn)) {
						continue
					}
					switch {
					case an == bn:
						out = append(out, le(t, s.e, u.e)...)
					case an:
						out = append(out, le(t, konst(1), konst(0))...)
					default:
						out = append(out, le(t, konst(0), konst(1))...)
					}
				}
			}
		}
	}
	return out
}

// negIf is the fact that e is below zero, or not.
func negIf(e Lin, neg bool) Lin {
	if neg {
		return e.plus(1)
	}
	return e.scale(-1)
}

func (x *Interp) arith(st *State, in *Instr, a, b Val) []*State {
	w := width(in.Type)
	if a.k == kCond && b.k == kCond && w == 1 {
		return x.logic(st, in, a, b)
	}
	if a.k == kUndef || b.k == kUndef {
		x.report("undefined", in, false, "calculates with a value that is not set")
		st.env[in.Res] = x.unknown(st, in.Type)
		return []*State{st}
	}
	if a.k != kInt || b.k != kInt {
		return x.opaque(st, in)
	}
	set := func(st *State, v Val) []*State {
		v.w = w
		v.k = kInt
		v.src = nil
		if v.e.large() && w < 63 {
			v = x.unknown(st, in.Type)
		}
		st.env[in.Res] = v
		return []*State{st}
	}
	any := func(st *State) []*State { return set(st, x.unknown(st, in.Type)) }
	switch in.Op {
	case "add":
		if a.obj != nil && b.obj != nil {
			return x.opaque(st, in)
		}
		r := Val{e: a.e.add(b.e), obj: a.obj}
		if b.obj != nil {
			r.obj = b.obj
		}
		return set(st, r)
	case "sub":
		if b.obj != nil && a.obj != b.obj {
			return x.opaque(st, in)
		}
		r := Val{e: a.e.sub(b.e), obj: a.obj}
		if b.obj != nil {
			r.obj = nil
		}
		return set(st, r)
	}
	if a.obj != nil || b.obj != nil {
		return x.opaque(st, in)
	}
	k, isK := b.e.k, b.e.isConst()
	if isK && w < 63 {
		k &= 1<<w - 1
	}
	switch in.Op {
	case "mul":
		if a.e.isConst() {
			a, b = b, a
			k, isK = b.e.k, true
		}
		if isK && k < 1<<31 && k > -1<<31 {
			return set(st, Val{e: a.e.scale(k)})
		}
		return any(st)
	case "shl":
		if isK && k < 32 {
			return set(st, Val{e: a.e.scale(1 << k)})
		}
		return any(st)
	case "lshr", "udiv", "urem":
		d := k
		if in.Op == "lshr" {
			if !isK || k > 40 {
				return any(st)
			}
			d = 1 << k
		}
		if !isK || d <= 0 {
			if in.Op != "lshr" && !isK {
				return x.opaque(st, in)
			}
			return any(st)
		}
		var out []*State
		for _, s := range x.canon(st, a, false) {
			if w >= 63 && !s.st.f.entails(s.e.scale(-1)) {
				neg := s.st.clone()
				if neg.f.assume(s.e.plus(1)) {
					out = append(out, any(neg)...)
				}
				if !s.st.f.assume(s.e.scale(-1)) {
					continue
				}
			}
			q := x.quot(s.st, s.e, d)
			if in.Op == "urem" {
				q = s.e.sub(q.scale(d))
			}
			out = append(out, set(s.st, Val{e: q})...)
		}
		return out
	case "and":
		if a.e.isConst() && !isK {
			a, b = b, a
			k, isK = b.e.k, true
			if w < 63 {
				k &= 1<<w - 1
			}
		}
		if isK && k >= 0 && k < 1<<40 && k&(k+1) == 0 {
			q := x.quot(st, a.e, k+1)
			return set(st, Val{e: a.e.sub(q.scale(k + 1))})
		}
		if isK && k >= 0 && k < 1<<40 {
			// some bits of it
			var out []*State
			for _, s := range x.canon(st, a, false) {
				r := x.fresh(s.st, 0, k)
				if s.st.f.entails(s.e.scale(-1)) {
					s.st.f.le = append(s.st.f.le, r.sub(s.e))
				}
				// a contiguous run of bits: bits i..j
				if t := k & -k; (k+t)&(k+t-1) == 0 {
					hi := x.quot(s.st, s.e, k+t)
					lo := x.quot(s.st, s.e, t)
					r = lo.scale(t).sub(hi.scale(k + t))
				}
				out = append(out, set(s.st, Val{e: r})...)
			}
			return out
		}
		return any(st)
	case "or", "xor":
		// without bits in common it is a sum
		for _, p := range [][2]Lin{{a.e, b.e}, {b.e, a.e}} {
			for _, d := range []int64{1 << 8, 1 << 16, 1 << 5, 1 << 3, 1 << 4, 1 << 6, 1 << 7, 1 << 10, 1 << 13, 1 << 24} {
				if st.f.entails(p[1].scale(-1)) && st.f.entails(p[1].plus(1-d)) && p[0].multiple(d) {
					return set(st, Val{e: p[0].add(p[1])})
				}
			}
		}
		return any(st)
	case "ashr":
		if isK && k < 40 {
			var out []*State
			for _, s := range x.canon(st, a, true) {
				out = append(out, set(s.st, Val{e: x.quot(s.st, s.e, 1<<k)})...)
			}
			return out
		}
		return any(st)
	}
	return x.opaque(st, in)
}

func (a Lin) multiple(d int64) bool {
	if a.k%d != 0 {
		return false
	}
	for _, c := range a.cs {
		if c%d != 0 {
			return false
		}
	}
	return true
}

// logic combines truth values.
func (x *Interp) logic(st *State, in *Instr, a, b Val) []*State {
	if in.Op == "xor" && b.c.e.isConst() && !b.c.any && !b.c.eq && !b.c.neg {
		v := a
		if b.c.e.k <= 0 { // true
			v.c.neg = !v.c.neg
			if v.c.any {
				v.c.neg = false
			}
		}
		st.env[in.Res] = v
		return []*State{st}
	}
	var out []*State
	put := func(st *State, t bool) {
		if st == nil {
			return
		}
		c := Cond{e: konst(1)}
		if t {
			c = Cond{e: konst(0)}
		}
		st.env[in.Res] = Val{k: kCond, w: 1, c: c}
		out = append(out, st)
	}
	ay, an := x.truth(st, a, in)
	for i, s := range []*State{ay, an} {
		if s == nil {
			continue
		}
		by, bn := x.truth(s, b, in)
		p := i == 0
		switch in.Op {
		case "and":
			put(by, p)
			put(bn, false)
		case "or":
			put(by, true)
			put(bn, p)
		case "xor":
			put(by, !p)
			put(bn, p)
		default:
			return x.opaque(st, in)
		}
	}
	return out
}

func (x *Interp) call(st *State, in *Instr) []*State {
	set := func(v Val) []*State {
		if in.Res != "" {
			st.env[in.Res] = v
		}
		return []*State{st}
	}
	name := in.Pred
	var args []Val
	for _, a := range in.Args {
		args = append(args, x.value(st, a))
	}
	switch {
	case strings.HasPrefix(name, "llvm.dbg"), strings.HasPrefix(name, "llvm.lifetime"):
		return []*State{st}
	case strings.HasPrefix(name, "llvm.expect"):
		return set(args[0])
	case strings.HasPrefix(name, "llvm.memcpy"), strings.HasPrefix(name, "llvm.memmove"), name == "memcpy", name == "memmove":
		return x.copy(st, in, args[0], args[1], args[2], !strings.Contains(name, "move"))
	case strings.HasPrefix(name, "llvm.memset"), name == "memset":
		return x.set(st, in, args[0], args[1], args[2])
	case name == "__errno_location":
		o := x.newObj("errno", konst(4))
		o.Type = "i32"
		o.Signed = true
		st.cells[o.ID] = x.unknown(st, "i32")
		return set(ptrVal(o, konst(0)))
	}
	for _, p := range []string{"umin", "umax", "smin", "smax"} {
		if strings.HasPrefix(name, "llvm."+p+".") && len(args) == 2 && args[0].k == kInt && args[1].k == kInt {
			var out []*State
			for _, a := range x.canon(st, args[0], p[0] == 's') {
				for _, b := range x.canon(a.st, args[1], p[0] == 's') {
					low, high := b.st.clone(), b.st
					if low.f.assume(a.e.sub(b.e)) { // a <= b
						low.env[in.Res] = intVal(args[0].w, a.e)
						if strings.HasSuffix(p, "max") {
							low.env[in.Res] = intVal(args[0].w, b.e)
						}
						out = append(out, low)
					}
					if high.f.assume(b.e.sub(a.e).plus(1)) {
						high.env[in.Res] = intVal(args[0].w, b.e)
						if strings.HasSuffix(p, "max") {
							high.env[in.Res] = intVal(args[0].w, a.e)
						}
						out = append(out, high)
					}
				}
			}
			return out
		}
	}
	g := x.m.Funcs[name]
	if g == nil || x.depth > 8 {
		return x.opaque(st, in)
	}
	env := st.env
	var out []*State
	for _, r := range x.Call(g, st.clone(), args) {
		back := make(map[string]Val, len(env)+1)
		for k, v := range env {
			back[k] = v
		}
		if in.Res != "" {
			back[in.Res] = r.v
		}
		r.st.env = back
		out = append(out, r.st)
	}
	return out
}

// sizes is the number of bytes an argument asks for.
func (x *Interp) sizes(st *State, v Val, in *Instr) (out []branch) {
	if v.k != kInt || v.obj != nil {
		x.report("undecided", in, false, "a number of bytes that cannot be followed")
		return nil
	}
	for _, b := range x.canon(st, v, false) {
		if !b.st.f.entails(b.e.scale(-1)) {
			x.report("access", in, false, "the number of bytes, %s, may be below zero", x.show(b.e))
			if !b.st.f.assume(b.e.scale(-1)) {
				continue
			}
		}
		out = append(out, b)
	}
	return out
}

func (x *Interp) copy(st *State, in *Instr, d, s, n Val, apart bool) []*State {
	var out []*State
	for _, b := range x.sizes(st, n, in) {
		if !x.access(b.st, in, "writes", d, b.e) || !x.access(b.st, in, "reads", s, b.e) {
			continue
		}
		if d.obj.Type != "" || s.obj.Type != "" {
			out = append(out, x.opaque(b.st, in)...)
			continue
		}
		if d.obj.Fixed {
			x.report("fixed", in, false, "writes %s, which is only to be read", d.obj.Name)
		}
		if apart && d.obj == s.obj && !b.st.f.entails(b.e) {
			if !b.st.f.entails(s.e.add(b.e).sub(d.e)) && !b.st.f.entails(d.e.add(b.e).sub(s.e)) {
				x.report("access", in, false, "copies %s bytes from offset %s to offset %s of %s, which may overlap", x.show(b.e), x.show(s.e), x.show(d.e), d.obj.Name)
			}
		}
		if in.Res != "" {
			b.st.env[in.Res] = d
		}
		if b.st.g != nil {
			out = append(out, b.st.g.move(x, b.st, d.obj, d.e, s.obj, s.e, b.e, in)...)
		} else {
			out = append(out, b.st)
		}
	}
	return out
}

func (x *Interp) set(st *State, in *Instr, d, v, n Val) []*State {
	var out []*State
	for _, b := range x.sizes(st, n, in) {
		if !x.access(b.st, in, "writes", d, b.e) {
			continue
		}
		if d.obj.Type != "" {
			out = append(out, x.opaque(b.st, in)...)
			continue
		}
		if d.obj.Fixed {
			x.report("fixed", in, false, "writes %s, which is only to be read", d.obj.Name)
		}
		if in.Res != "" {
			b.st.env[in.Res] = d
		}
		if b.st.g != nil {
			out = append(out, b.st.g.move(x, b.st, d.obj, d.e, nil, konst(0), b.e, in)...)
		} else {
			out = append(out, b.st)
		}
	}
	return out
}

// The setting in which a function is called.
type Setting struct {
	X    *Interp
	St   *State
	Args []Val
}

func NewSetting(m *Module) *Setting {
	return &Setting{X: NewInterp(m), St: &State{cells: map[int]Val{}, memo: map[string]int{}, env: map[string]Val{}}}
}

// Int adds an unknown integer argument of w bits.
func (s *Setting) Int(name string, w int) Lin {
	e := s.X.free(name)
	if w < 63 {
		s.St.f.assume(e.plus(-(1<<w - 1)))
		s.St.f.assume(e.scale(-1))
	}
	s.Args = append(s.Args, intVal(w, e))
	return e
}

// Const adds a constant argument.
func (s *Setting) Const(k int64, w int) { s.Args = append(s.Args, intVal(w, konst(k))) }

// Mem adds memory of an unknown size.
func (s *Setting) Mem(name string, fixed bool) *Obj {
	e := s.X.free("size of " + name)
	s.St.f.assume(e.scale(-1))
	o := s.X.newObj(name, e)
	o.Fixed = fixed
	s.Args = append(s.Args, ptrVal(o, konst(0)))
	return o
}

// AtMost adds that a <= b + k.
func (s *Setting) AtMost(a, b Lin, k int64) { s.St.f.assume(a.sub(b).plus(-k)) }

func Konst(k int64) Lin { return konst(k) }

// Width is the number of bits of an integer type.
func Width(t string) int { return width(t) }
