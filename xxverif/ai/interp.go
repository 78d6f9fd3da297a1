package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type OutKind int

const (
	Ret OutKind = iota
	Pan
	Exit  // the process terminates
	Stuck // the analysis gave up on this path
)

func (k OutKind) String() string { return [...]string{"return", "panic", "exit", "stuck"}[k] }

type Outcome struct {
	St   *State
	Kind OutKind
	Rets []*Term
	Val  *Term // panic value or reason
	Pos  token.Pos
}

// Ctx is a calling context.
type Ctx struct {
	Parent *Ctx
	Fn     *ssa.Function
	Path   string
	Depth  int
	Pos    token.Pos
}

type ModelFn func(c *CallCtx) []*Outcome

// CallCtx is what a model sees of one call.
type CallCtx struct {
	E    *Engine
	St   *State
	Args []*Term
	Fn   *ssa.Function
	Name string
	Sig  *types.Signature
	Pos  token.Pos
	Site string
	In   *ssa.Function
	Ctx  *Ctx
}

type Engine struct {
	Prog      *ssa.Program
	Mod       string // module path
	Models    map[string]ModelFn
	Override  map[*ssa.Function]ModelFn
	Invoke    func(c *CallCtx, recv *Term, m *types.Func) ([]*Outcome, bool)
	Closes    func(ch *Term) bool // whether receiving may find the channel closed
	DictInit  func(st *State, d, k *Term, kt types.Type) []DictAns
	ForkPanic bool                // explore the unwinding of operations that may panic
	DynPanic  func(fn *Term) bool // unknown functions whose panics are explored
	MaxDepth  int
	MaxSteps  int
	Trace     bool
	AllMem    bool // report accesses to memory allocated on the path, too

	Loops map[*Term]*LoopVar
	Stats *Stats
	Funcs map[*ssa.Function]int
	Unmod map[string]int // external functions treated as uninterpreted
	steps int
}

type Stats struct {
	Paths, Instrs, Calls, Loops, Oblig, Proved, Unrolled int
}

// DictAns is one possible initial answer of a dictionary read. Also seeds what
// is known of related dictionaries; Tag names the scenario for the key.
type DictAns struct {
	Present bool
	Val     *Term
	Assume  []*Term
	Also    []DictSeed
	Tag     string
}

type DictSeed struct {
	D, K    *Term
	Present bool
	Val     *Term
}

func NewEngine(prog *ssa.Program, mod string) *Engine {
	e := &Engine{Stats: &Stats{}, Prog: prog, Mod: mod, Models: map[string]ModelFn{}, Override: map[*ssa.Function]ModelFn{},
		Loops: map[*Term]*LoopVar{}, Funcs: map[*ssa.Function]int{}, Unmod: map[string]int{}, MaxDepth: 60, MaxSteps: 20000000}
	e.Models = stdModels
	return e
}

// With returns a copy of e with its own override table.
func (e *Engine) With() *Engine {
	c := *e
	c.Override = map[*ssa.Function]ModelFn{}
	for k, v := range e.Override {
		c.Override[k] = v
	}
	return &c
}

func (e *Engine) Internal(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return e.internalPath(f.Pkg.Pkg.Path())
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return e.internalPath(f.Object().Pkg().Path())
		}
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return e.Internal(fn.Origin())
	}
	return false
}

func (e *Engine) internalPath(p string) bool {
	return p == e.Mod || strings.HasPrefix(p, e.Mod+"/")
}

func (e *Engine) internalType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return true
		}
		return e.internalPath(n.Obj().Pkg().Path())
	}
	return true // anonymous
}

// ---- activation ----

type deferred struct {
	fn   *Term
	args []*Term
	call *ssa.CallCommon
	pos  token.Pos
}

type path struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []deferred
	rec    bool // recovered
}

func (p *path) clone() *path {
	return &path{st: p.st.Clone(), env: cp(p.env), defers: append([]deferred(nil), p.defers...), rec: p.rec}
}

type leaf struct {
	kind   int // 0 return, 1 panic, 2 exit(process), 3 back edge, 4 loop exit, 5 stuck
	p      *path
	rets   []*Term
	val    *Term
	b, pre *ssa.BasicBlock
	pos    token.Pos
}

type act struct {
	e       *Engine
	fn      *ssa.Function
	ctx     *Ctx
	isDefer bool // called directly by the unwinding machinery
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	outer  *loopCtx
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// NaturalLoops maps each loop header to its body (header included).
func NaturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if r, ok := loopCache[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := r[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					r[h] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	loopCache[fn] = r
	return r
}

// Call interprets fn on args in st.
func (e *Engine) Call(fn *ssa.Function, args, free []*Term, st *State, ctx *Ctx, asDefer bool) []*Outcome {
	depth := 0
	pth := fn.Name()
	if ctx != nil {
		depth = ctx.Depth + 1
		pth = ctx.Path
	}
	c := &Ctx{Parent: ctx, Fn: fn, Path: pth, Depth: depth}
	if depth > e.MaxDepth {
		return []*Outcome{{St: st, Kind: Stuck, Val: Str("call depth"), Pos: fn.Pos()}}
	}
	e.Funcs[fn]++
	e.Stats.Calls++
	x := &act{e: e, fn: fn, ctx: c, isDefer: asDefer, loops: NaturalLoops(fn)}
	p := &path{st: st, env: map[ssa.Value]*Term{}}
	for i, pr := range fn.Params {
		if i < len(args) {
			p.env[pr] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			p.env[fv] = free[i]
		}
	}
	leaves := x.run(p, fn.Blocks[0], nil, nil)
	var outs []*Outcome
	for _, l := range leaves {
		outs = append(outs, x.finish(l)...)
	}
	return outs
}

// finish turns a function leaf into outcomes, running deferred calls on panics.
func (x *act) finish(l leaf) []*Outcome {
	switch l.kind {
	case 0:
		return []*Outcome{{St: l.p.st, Kind: Ret, Rets: l.rets, Pos: l.pos}}
	case 2:
		return []*Outcome{{St: l.p.st, Kind: Exit, Val: l.val, Pos: l.pos}}
	case 1:
		if len(l.p.defers) == 0 {
			return []*Outcome{{St: l.p.st, Kind: Pan, Val: l.val, Pos: l.pos}}
		}
		var outs []*Outcome
		q := l.p
		save := q.st.panicking
		q.st.panicking = l.val
		for _, r := range x.unwind(q) {
			if r.kind == 2 || r.kind == 5 {
				outs = append(outs, x.finish(r)...)
				continue
			}
			if r.p.st.panicking == nil && r.kind != 1 {
				// recovered: resume in the recover block
				r.p.st.panicking = save
				if x.fn.Recover != nil {
					for _, l2 := range x.run(r.p, x.fn.Recover, nil, nil) {
						outs = append(outs, x.finish(l2)...)
					}
				} else {
					var rets []*Term
					res := x.fn.Signature.Results()
					for i := 0; i < res.Len(); i++ {
						rets = append(rets, x.e.Zero(res.At(i).Type()))
					}
					outs = append(outs, &Outcome{St: r.p.st, Kind: Ret, Rets: rets, Pos: l.pos})
				}
				continue
			}
			v := r.p.st.panicking
			if r.kind == 1 {
				v = r.val
			}
			r.p.st.panicking = save
			outs = append(outs, &Outcome{St: r.p.st, Kind: Pan, Val: v, Pos: l.pos})
		}
		return outs
	}
	return []*Outcome{{St: l.p.st, Kind: Stuck, Val: l.val, Pos: l.pos}}
}

// unwind runs all deferred calls of p; leaves have kind 0 (done), 1 (new panic), 2, 5.
func (x *act) unwind(p *path) []leaf {
	if len(p.defers) == 0 {
		return []leaf{{kind: 0, p: p}}
	}
	d := p.defers[len(p.defers)-1]
	p.defers = p.defers[:len(p.defers)-1]
	var out []leaf
	for _, o := range x.callCommon(p, d.call, d.fn, d.args, d.pos, "defer", true) {
		q := &path{st: o.St, env: p.env, defers: append([]deferred(nil), p.defers...)}
		switch o.Kind {
		case Ret:
			out = append(out, x.unwind(q)...)
		case Pan:
			q.st.panicking = o.Val
			out = append(out, x.unwind(q)...)
		case Exit:
			out = append(out, leaf{kind: 2, p: q, val: o.Val, pos: o.Pos})
		default:
			out = append(out, leaf{kind: 5, p: q, val: o.Val, pos: o.Pos})
		}
	}
	return out
}

func (x *act) run(p *path, b, pred *ssa.BasicBlock, lc *loopCtx) []leaf {
	if lc != nil {
		if b == lc.header {
			return []leaf{{kind: 3, p: p, b: b, pre: pred}}
		}
		if !lc.body[b] {
			return []leaf{{kind: 4, p: p, b: b, pre: pred}}
		}
	}
	if body, ok := x.loops[b]; ok {
		return x.runLoop(p, b, pred, body, lc)
	}
	return x.enter(p, b, pred, lc)
}

// enter evaluates the phis of b and executes it.
func (x *act) enter(p *path, b, pred *ssa.BasicBlock, lc *loopCtx) []leaf {
	x.phis(p, b, pred)
	return x.exec(p, b, 0, lc)
}

func (x *act) phis(p *path, b, pred *ssa.BasicBlock) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		for i, pr := range b.Preds {
			if pr == pred {
				vals = append(vals, x.val(p, ph.Edges[i]))
				break
			}
		}
	}
	for i, ph := range phis {
		p.env[ph] = vals[i]
	}
}

func (x *act) site(in ssa.Instruction) string {
	n := ""
	if v, ok := in.(ssa.Value); ok {
		n = v.Name()
	} else {
		n = fmt.Sprintf("i%d", in.Pos())
	}
	return x.ctx.Path + ":" + n
}

// exec runs b from instruction i.
func (x *act) exec(p *path, b *ssa.BasicBlock, i int, lc *loopCtx) []leaf {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.e.steps++
		x.e.Stats.Instrs++
		if x.e.steps > x.e.MaxSteps {
			return []leaf{{kind: 5, p: p, val: Str("step limit"), pos: in.Pos()}}
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return x.run(p, b.Succs[0], b, lc)
		case *ssa.If:
			c := p.st.Norm(x.val(p, in.Cond))
			switch p.st.Decide(c) {
			case 1:
				return x.run(p, b.Succs[0], b, lc)
			case 0:
				return x.run(p, b.Succs[1], b, lc)
			}
			q := p.clone()
			var ls []leaf
			if p.st.Assume(c, true) {
				ls = append(ls, x.run(p, b.Succs[0], b, lc)...)
			}
			if q.st.Assume(c, false) {
				ls = append(ls, x.run(q, b.Succs[1], b, lc)...)
			}
			return ls
		case *ssa.Return:
			var rets []*Term
			for _, r := range in.Results {
				rets = append(rets, p.st.Norm(x.val(p, r)))
			}
			x.e.Stats.Paths++
			return []leaf{{kind: 0, p: p, rets: rets, pos: in.Pos()}}
		case *ssa.Panic:
			v := x.val(p, in.X)
			p.st.Emit(&Event{Kind: "panic", Args: []*Term{v}, Pos: in.Pos(), Fn: x.fn})
			return []leaf{{kind: 1, p: p, val: v, pos: in.Pos()}}
		case *ssa.RunDefers:
			save := p.st.panicking
			ds := x.unwind(p)
			if len(ds) == 1 && ds[0].kind == 0 && ds[0].p.st.panicking == save {
				p = ds[0].p
				continue
			}
			var ls []leaf
			for _, d := range ds {
				switch {
				case d.kind != 0:
					ls = append(ls, d)
				case d.p.st.panicking != save:
					v := d.p.st.panicking
					d.p.st.panicking = save
					ls = append(ls, leaf{kind: 1, p: d.p, val: v})
				default:
					ls = append(ls, x.exec(d.p, b, i+1, lc)...)
				}
			}
			return ls
		case *ssa.Defer:
			fn, args := x.callee(p, &in.Call)
			p.defers = append(p.defers, deferred{fn: fn, args: args, call: &in.Call, pos: in.Pos()})
		case *ssa.Go:
			fn, args := x.callee(p, &in.Call)
			p.st.Emit(&Event{Kind: "go", Name: calleeName(&in.Call, fn), Args: x.e.resolveAll(p.st, append([]*Term{fn}, args...)), Raw: append([]*Term{fn}, args...), From: p.st.Clone(), Pos: in.Pos(), Fn: x.fn})
		default:
			outs := x.instr(p, in)
			if len(outs) == 1 && outs[0].kind == 0 {
				p = outs[0].p
				continue
			}
			var ls []leaf
			for _, o := range outs {
				if o.kind == 0 {
					ls = append(ls, x.exec(o.p, b, i+1, lc)...)
				} else {
					ls = append(ls, o)
				}
			}
			return ls
		}
	}
	return []leaf{{kind: 5, p: p, val: Str("fell off block")}}
}

func calleeName(c *ssa.CallCommon, fn *Term) string {
	if c.IsInvoke() {
		return "invoke " + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if fn != nil && fn.Op == OFunc && fn.Fn != nil {
		return fn.Fn.String()
	}
	return "dynamic"
}

// val evaluates an SSA operand.
func (x *act) val(p *path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return ConstTerm(v, x.e)
	case *ssa.Function:
		return mk(Term{Op: OFunc, Fn: v, T: v.Type()})
	case *ssa.Global:
		return mk(Term{Op: OGlobal, S: v.String(), T: v.Type()})
	case *ssa.Builtin:
		return mk(Term{Op: OFunc, S: "builtin " + v.Name()})
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	return Sym("undef:"+x.ctx.Path+":"+v.Name(), v.Type())
}

func ConstTerm(c *ssa.Const, e *Engine) *Term {
	if c.Value == nil {
		if c.Type() == nil {
			return Nil()
		}
		return e.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if isFloatType(c.Type()) {
			return mk(Term{Op: OFloat, S: c.Value.ExactString(), T: types.Typ[types.Float64]})
		}
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Int(n)
		}
		if n, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return Int(int64(n))
		}
	}
	return mk(Term{Op: OFloat, S: c.Value.ExactString()})
}

// Zero is the zero value of t.
func (e *Engine) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsFloat != 0:
			return mk(Term{Op: OFloat, S: "0", T: types.Typ[types.Float64]})
		}
		return Nil()
	case *types.Struct:
		if !e.internalType(t) {
			return Call("zero:"+typeKey(t), t)
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.Zero(u.Field(i).Type()))
		}
		return StructOf(t, fs...)
	case *types.Array:
		return e.zeroSeq(u.Elem(), Int(u.Len()))
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, e.Zero(u.At(i).Type()))
		}
		return Tuple(fs...)
	}
	return Nil()
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func (e *Engine) zeroSeq(elem types.Type, n *Term) *Term {
	if n.Op == OInt && n.K <= 64 {
		if isByteType(elem) {
			if n.K <= 0 {
				return Str("")
			}
			return Str(strings.Repeat("\x00", int(n.K)))
		}
		var ps []*Term
		for i := int64(0); i < n.K; i++ {
			ps = append(ps, Unit(e.Zero(elem)))
		}
		return Cat(ps...)
	}
	return Rep(e.Zero(elem), n)
}

// FieldOf selects field i of struct value v.
func FieldOf(v *Term, i int, ft types.Type) *Term {
	if v.Op == OStruct && i < len(v.Args) {
		return v.Args[i]
	}
	return Call("fld"+strconv.Itoa(i), ft, v)
}

// ---- memory ----

// AddrElem returns the type stored at addr, if known.
func AddrElem(addr *Term) types.Type {
	switch addr.Op {
	case OAlloc, OGlobal:
		if addr.T != nil {
			if p, ok := addr.T.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	case OField:
		st := AddrElem(addr.Args[0])
		if st == nil {
			return nil
		}
		if s, ok := st.Underlying().(*types.Struct); ok && int(addr.K) < s.NumFields() {
			return s.Field(int(addr.K)).Type()
		}
	case OIndex:
		st := addr.Args[0].T
		if addr.Args[0].Op == OAlloc {
			st = AddrElem(addr.Args[0])
		}
		if st == nil {
			return nil
		}
		switch u := st.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return a.Elem()
			}
		}
	case OSym, OCall, OElem:
		if addr.T != nil {
			if p, ok := addr.T.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	case OBox:
		return addr.Args[0].T
	}
	return nil
}

func (e *Engine) Load(st *State, addr *Term, t types.Type) *Term {
	addr = st.Norm(addr)
	if v, ok := st.Mem[addr]; ok {
		return v
	}
	if u, ok := t.Underlying().(*types.Struct); ok && e.internalType(t) {
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.Load(st, FieldAddr(addr, i), u.Field(i).Type()))
		}
		return StructOf(t, fs...)
	}
	switch addr.Op {
	case OIndex:
		return Elem(e.Arr(st, addr.Args[0]), addr.Args[1], t)
	case OField:
		b := addr.Args[0]
		if b.Op == OBox {
			return FieldOf(b.Args[0], int(addr.K), t)
		}
		if v, ok := st.Mem[b]; ok {
			return FieldOf(v, int(addr.K), t)
		}
		if b.Op == OIndex || b.Op == OField {
			bt := AddrElem(b)
			if b.Op == OIndex && bt != nil {
				return FieldOf(e.Load(st, b, opaqueType{bt}), int(addr.K), t)
			}
		}
		if root(b).Op == OAlloc {
			// zero-initialised fresh object
			return e.Zero(t)
		}
	case OBox:
		return addr.Args[0]
	case OAlloc:
		if _, isarr := t.Underlying().(*types.Array); !isarr {
			return e.Zero(t)
		}
		return e.Arr(st, addr)
	}
	if i := strings.LastIndex(addr.S, "."); addr.Op == OGlobal && i > 0 && types.Identical(t, errorType) && !e.internalPath(addr.S[:i]) {
		// a library's error
		return Sym("!init:"+addr.String(), t)
	}
	return Sym("init:"+addr.String(), t)
}

// opaqueType hides a struct type so that Load does not decompose it again.
type opaqueType struct{ types.Type }

func (o opaqueType) Underlying() types.Type { return types.NewInterfaceType(nil, nil) }

func root(a *Term) *Term {
	for a.Op == OField || a.Op == OIndex {
		a = a.Args[0]
	}
	return a
}

// Root strips field and index selections from an address.
func Root(a *Term) *Term { return root(a) }

func (e *Engine) Store(st *State, addr, v *Term, t types.Type) {
	addr = st.Norm(addr)
	if u, ok := t.Underlying().(*types.Struct); ok && e.internalType(t) {
		for i := 0; i < u.NumFields(); i++ {
			e.Store(st, FieldAddr(addr, i), FieldOf(v, i, u.Field(i).Type()), u.Field(i).Type())
		}
		return
	}
	if addr.Op == OIndex {
		a := addr.Args[0]
		st.Mem[a] = Upd(e.Arr(st, a), addr.Args[1], v, isByteType(t))
		return
	}
	st.Mem[addr] = v
}

// Arr is the content of an array object (an allocation, or a symbolic slice itself).
func (e *Engine) Arr(st *State, a *Term) *Term {
	if v, ok := st.Mem[a]; ok {
		return v
	}
	if a.Op == ONil {
		return Str("")
	}
	if a.Op == OAlloc {
		if t := AddrElem(a); t != nil {
			if arr, ok := t.Underlying().(*types.Array); ok {
				return e.zeroSeq(arr.Elem(), Int(arr.Len()))
			}
		}
	}
	if a.Op == OField || a.Op == OGlobal {
		if t := AddrElem(a); t != nil {
			if arr, ok := t.Underlying().(*types.Array); ok {
				if root(a).Op == OAlloc {
					return e.zeroSeq(arr.Elem(), Int(arr.Len()))
				}
				return Sym("init:"+a.String(), t)
			}
		}
	}
	return a
}

// Content is the sequence a slice or string value denotes.
func (e *Engine) Content(st *State, v *Term) *Term {
	v = st.Norm(v)
	switch v.Op {
	case OSlice:
		return SubSeq(e.Arr(st, v.Args[0]), v.Args[1], v.Args[2])
	case ONil:
		return Str("")
	}
	if c, ok := st.Mem[v]; ok {
		return c
	}
	return v
}

func (e *Engine) LenOf(st *State, v *Term) *Term {
	v = st.Norm(v)
	if v.Op == OSlice {
		return Sub(v.Args[2], v.Args[1])
	}
	return Len(e.Content(st, v))
}

// NewSlice allocates an array object holding content.
func (e *Engine) NewSlice(st *State, site string, content *Term) *Term {
	a := mk(Term{Op: OAlloc, S: st.Fresh("arr@"+site, nil).S})
	st.Mem[a] = content
	return mk(Term{Op: OSlice, Args: []*Term{a, Int(0), Len(content)}})
}

// Resolve replaces references to slices and fresh structs by their current content.
func (e *Engine) Resolve(st *State, t *Term) *Term {
	return e.resolve(st, t, 0)
}

func (e *Engine) resolveAll(st *State, ts []*Term) []*Term {
	r := make([]*Term, len(ts))
	for i, t := range ts {
		if t == nil {
			r[i] = Nil()
			continue
		}
		r[i] = e.Resolve(st, t)
	}
	return r
}

func (e *Engine) resolve(st *State, t *Term, d int) *Term {
	if d > 12 {
		return t
	}
	switch t.Op {
	case OSlice:
		return e.resolve(st, e.Content(st, t), d+1)
	case OAlloc:
		et := AddrElem(t)
		if et != nil {
			if u, ok := et.Underlying().(*types.Struct); ok && e.internalType(et) && hasCells(st, t, u) {
				v := e.Load(st, t, et)
				return mk(Term{Op: OBox, Args: []*Term{e.resolve(st, v, d+1)}})
			}
		}
		return t
	case OInt, OStr, OBool, ONil, OSym, OFunc, OGlobal, OFloat:
		return st.Norm(t)
	case OField, OIndex:
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = e.resolve(st, a, d+1)
		same = same && args[i] == a
	}
	if !same {
		t = rebuild(t, args)
	}
	return st.Norm(t)
}

func hasCells(st *State, a *Term, u *types.Struct) bool {
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := st.Mem[FieldAddr(a, i)]; ok {
			return true
		}
		if s2, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && hasCells(st, FieldAddr(a, i), s2) {
			return true
		}
	}
	return false
}

// ---- instructions ----

func one(p *path) []leaf { return []leaf{{kind: 0, p: p}} }

// oblige records the obligation that ok holds (a run-time check of the language).
func (x *act) oblige(p *path, ok *Term, what string, pos token.Pos, f func(p *path) []leaf) []leaf {
	x.e.Stats.Oblig++
	d := p.st.Decide(ok)
	if d == 1 {
		x.e.Stats.Proved++
		return f(p)
	}
	val := IfaceOf(runtimeErr, Call("runtime:"+what, nil))
	if d == 0 {
		p.st.Emit(&Event{Kind: "maypanic", Name: what, Args: []*Term{ok}, Pos: pos, Fn: x.fn})
		return []leaf{{kind: 1, p: p, val: val, pos: pos}}
	}
	var ls []leaf
	if x.e.ForkPanic {
		q := p.clone()
		if q.st.Assume(ok, false) {
			ls = append(ls, leaf{kind: 1, p: q, val: val, pos: pos})
		}
	}
	p.st.Emit(&Event{Kind: "maypanic", Name: what, Args: []*Term{ok}, Pos: pos, Fn: x.fn})
	if p.st.Assume(ok, true) {
		ls = append(ls, f(p)...)
	}
	return ls
}

var runtimeErr types.Type = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)

func (x *act) instr(p *path, in ssa.Instruction) []leaf {
	e := x.e
	st := p.st
	set := func(v ssa.Value, t *Term) []leaf {
		p.env[v] = t
		return one(p)
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		a := mk(Term{Op: OAlloc, S: st.Fresh(x.site(in)+"."+in.Comment, nil).S, T: in.Type()})
		// a re-executed allocation starts from zero
		for k := range st.Mem {
			if root(k) == a {
				delete(st.Mem, k)
			}
		}
		et := in.Type().Underlying().(*types.Pointer).Elem()
		e.Store(st, a, e.Zero(et), et)
		return set(in, a)
	case *ssa.UnOp:
		return x.unop(p, in)
	case *ssa.BinOp:
		a, b := st.Norm(x.val(p, in.X)), st.Norm(x.val(p, in.Y))
		if (in.Op == token.QUO || in.Op == token.REM) && IsIntType(in.Type()) {
			return x.oblige(p, Not(Eq(b, Int(0))), "division by zero", in.Pos(), func(p *path) []leaf {
				p.env[in] = e.binop(in.Op, a, b, in.X.Type(), in.Type())
				return one(p)
			})
		}
		return set(in, e.binop(in.Op, a, b, in.X.Type(), in.Type()))
	case *ssa.Store:
		addr := x.val(p, in.Addr)
		return x.nilCheck(p, addr, in.Pos(), func(p *path) []leaf {
			v := x.val(p, in.Val)
			e.Store(p.st, addr, v, in.Val.Type())
			if r := root(p.st.Norm(addr)); (r.Op != OAlloc || e.AllMem) && !selfStore(in) {
				p.st.Emit(&Event{Kind: "mem.store", Args: []*Term{p.st.Norm(addr), v}, Pos: in.Pos(), Fn: x.fn})
			}
			return one(p)
		})
	case *ssa.FieldAddr:
		b := x.val(p, in.X)
		return x.nilCheck(p, b, in.Pos(), func(p *path) []leaf {
			p.env[in] = FieldAddr(b, in.Field)
			return one(p)
		})
	case *ssa.Field:
		return set(in, FieldOf(x.val(p, in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		b, i := st.Norm(x.val(p, in.X)), st.Norm(x.val(p, in.Index))
		var n *Term
		var addr *Term
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			arr := pt.Elem().Underlying().(*types.Array)
			n, addr = Int(arr.Len()), IndexAddr(b, i)
		} else {
			n = e.LenOf(st, b)
			if b.Op == OSlice {
				addr = IndexAddr(b.Args[0], Add(b.Args[1], i))
			} else {
				addr = IndexAddr(b, i)
			}
		}
		return x.bounds(p, i, n, in.Pos(), func(p *path) []leaf { p.env[in] = addr; return one(p) })
	case *ssa.Index:
		b, i := st.Norm(x.val(p, in.X)), st.Norm(x.val(p, in.Index))
		n := e.LenOf(st, b)
		return x.bounds(p, i, n, in.Pos(), func(p *path) []leaf {
			p.env[in] = p.st.Norm(Elem(e.Content(p.st, b), i, in.Type()))
			return one(p)
		})
	case *ssa.Lookup:
		m, k := st.Norm(x.val(p, in.X)), st.Norm(x.val(p, in.Index))
		if isStringType(in.X.Type()) {
			return x.bounds(p, k, Len(m), in.Pos(), func(p *path) []leaf {
				p.env[in] = p.st.Norm(Elem(m, k, types.Typ[types.Uint8]))
				return one(p)
			})
		}
		mt := in.X.Type().Underlying().(*types.Map)
		var ls []leaf
		for _, r := range e.dictLoad(st, m, k, mt.Elem(), in.Pos(), x.fn) {
			q := &path{st: r.St, env: cp(p.env), defers: append([]deferred(nil), p.defers...)}
			v := r.Val
			if !r.Present {
				v = e.Zero(mt.Elem())
			}
			if in.CommaOk {
				v = Tuple(v, Bool(r.Present))
			}
			q.env[in] = v
			ls = append(ls, one(q)...)
		}
		return ls
	case *ssa.Slice:
		return x.slice(p, in)
	case *ssa.Extract:
		t := x.val(p, in.Tuple)
		if t.Op == OTuple && in.Index < len(t.Args) {
			return set(in, t.Args[in.Index])
		}
		return set(in, Call("ext"+strconv.Itoa(in.Index), in.Type(), t))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var src ssa.Value
		if c, ok := in.(*ssa.ChangeType); ok {
			src = c.X
		} else {
			src = in.(*ssa.ChangeInterface).X
		}
		return set(in.(ssa.Value), x.val(p, src))
	case *ssa.MakeInterface:
		return set(in, IfaceOf(in.X.Type(), x.val(p, in.X)))
	case *ssa.Convert:
		return set(in, x.convert(p, in))
	case *ssa.MultiConvert:
		return set(in, Call("mconv", in.Type(), x.val(p, in.X)))
	case *ssa.MakeClosure:
		var fs []*Term
		for _, b := range in.Bindings {
			fs = append(fs, x.val(p, b))
		}
		return set(in, mk(Term{Op: OFunc, Fn: in.Fn.(*ssa.Function), Args: fs}))
	case *ssa.MakeMap:
		a := mk(Term{Op: OAlloc, S: st.Fresh("map@"+x.site(in), nil).S, T: in.Type()})
		st.Dicts[a] = &Dict{fresh: true}
		return set(in, a)
	case *ssa.MakeChan:
		n := x.val(p, in.Size)
		a := mk(Term{Op: OAlloc, S: st.Fresh("chan@"+x.site(in), nil).S, T: in.Type()})
		return x.oblige(p, Le(Int(0), n), "negative channel size", in.Pos(), func(p *path) []leaf {
			p.st.Emit(&Event{Kind: "makechan", Args: []*Term{a, n}, Pos: in.Pos(), Fn: x.fn})
			p.st.Mem[Call("cap", nil, a)] = n
			p.env[in] = a
			return one(p)
		})
	case *ssa.MakeSlice:
		n := st.Norm(x.val(p, in.Len))
		return x.oblige(p, Le(Int(0), n), "negative slice length", in.Pos(), func(p *path) []leaf {
			et := in.Type().Underlying().(*types.Slice).Elem()
			p.st.Emit(&Event{Kind: "makeslice", Args: []*Term{n}, Pos: in.Pos(), Fn: x.fn})
			p.env[in] = e.NewSlice(p.st, x.site(in), e.zeroSeq(et, n))
			return one(p)
		})
	case *ssa.MapUpdate:
		m, k, v := st.Norm(x.val(p, in.Map)), st.Norm(x.val(p, in.Key)), x.val(p, in.Value)
		return x.oblige(p, Not(Eq(m, Nil())), "write to nil map", in.Pos(), func(p *path) []leaf {
			e.dictStore(p.st, m, k, v, in.Pos(), x.fn)
			return one(p)
		})
	case *ssa.Range:
		return set(in, Call("range", in.Type(), st.Norm(x.val(p, in.X))))
	case *ssa.Next:
		it := x.val(p, in.Iter)
		c := it.Args[0]
		q := p.clone()
		tt := in.Type().(*types.Tuple)
		q.env[in] = Tuple(Bool(false), e.Zero(safeType(tt.At(1).Type())), e.Zero(safeType(tt.At(2).Type())))
		q.st.Emit(&Event{Kind: "range.end", Args: []*Term{c}, Pos: in.Pos(), Fn: x.fn})
		if in.IsString {
			i := st.Fresh("idx@"+x.site(in), types.Typ[types.Int])
			r := Sym("rune@"+i.S, types.Typ[types.Int32])
			p.st.addLe(Scale(i, -1))
			p.st.addLe(AddK(Sub(i, Len(c)), 1))
			p.env[in] = Tuple(Bool(true), i, r)
			return []leaf{{kind: 0, p: p}, {kind: 0, p: q}}
		}
		var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
		if rv, ok := in.Iter.(*ssa.Range); ok {
			if mt, ok := rv.X.Type().Underlying().(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		k := st.Fresh("key@"+x.site(in), kt)
		v := e.elemVal(c, k, vt)
		e.dictKnow(p.st, c, k, v)
		p.st.Emit(&Event{Kind: "range.next", Args: []*Term{c, k, v}, Pos: in.Pos(), Fn: x.fn})
		p.env[in] = Tuple(Bool(true), k, v)
		return []leaf{{kind: 0, p: p}, {kind: 0, p: q}}
	case *ssa.TypeAssert:
		return x.typeAssert(p, in)
	case *ssa.Send:
		ch, v := st.Norm(x.val(p, in.Chan)), x.val(p, in.X)
		e.chanSend(p.st, ch, v, in.Pos(), x.fn)
		return one(p)
	case *ssa.Select:
		return x.sel(p, in)
	case *ssa.Call:
		fn, args := x.callee(p, &in.Call)
		outs := x.callCommon(p, &in.Call, fn, args, in.Pos(), x.site(in), false)
		var ls []leaf
		for i, o := range outs {
			q := p
			if len(outs) > 1 {
				q = &path{st: o.St, env: p.env, defers: p.defers}
				if i < len(outs)-1 {
					q.env = cp(p.env)
					q.defers = append([]deferred(nil), p.defers...)
				}
			}
			q.st = o.St
			switch o.Kind {
			case Ret:
				switch len(o.Rets) {
				case 0:
				case 1:
					q.env[in] = o.Rets[0]
				default:
					q.env[in] = Tuple(o.Rets...)
				}
				ls = append(ls, one(q)...)
			case Pan:
				ls = append(ls, leaf{kind: 1, p: q, val: o.Val, pos: o.Pos})
			case Exit:
				ls = append(ls, leaf{kind: 2, p: q, val: o.Val, pos: o.Pos})
			default:
				ls = append(ls, leaf{kind: 5, p: q, val: o.Val, pos: o.Pos})
			}
		}
		return ls
	}
	return []leaf{{kind: 5, p: p, val: Str(fmt.Sprintf("instruction %T", in)), pos: in.Pos()}}
}

func safeType(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}

func (x *act) nilCheck(p *path, a *Term, pos token.Pos, f func(p *path) []leaf) []leaf {
	a = p.st.Norm(a)
	switch a.Op {
	case OAlloc, OGlobal, OField, OIndex, OBox:
		return f(p)
	}
	return x.oblige(p, Not(Eq(a, Nil())), "nil dereference", pos, f)
}

func (x *act) bounds(p *path, i, n *Term, pos token.Pos, f func(p *path) []leaf) []leaf {
	return x.oblige(p, Le(Int(0), i), "index out of range", pos, func(p *path) []leaf {
		return x.oblige(p, Lt(i, n), "index out of range", pos, f)
	})
}

func (x *act) slice(p *path, in *ssa.Slice) []leaf {
	e, st := x.e, p.st
	v := st.Norm(x.val(p, in.X))
	var n *Term
	var arr, base *Term
	isStr := isStringType(in.X.Type())
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		a := pt.Elem().Underlying().(*types.Array)
		n, arr, base = Int(a.Len()), v, Int(0)
	} else if isStr {
		n = Len(v)
	} else {
		n = e.LenOf(st, v)
		if v.Op == OSlice {
			arr, base = v.Args[0], v.Args[1]
		} else {
			arr, base = v, Int(0)
		}
	}
	lo, hi := Int(0), n
	if in.Low != nil {
		lo = st.Norm(x.val(p, in.Low))
	}
	if in.High != nil {
		hi = st.Norm(x.val(p, in.High))
	}
	return x.oblige(p, Le(Int(0), lo), "slice bounds", in.Pos(), func(p *path) []leaf {
		return x.oblige(p, Le(lo, hi), "slice bounds", in.Pos(), func(p *path) []leaf {
			return x.oblige(p, Le(hi, n), "slice bounds", in.Pos(), func(p *path) []leaf {
				if isStr {
					p.env[in] = p.st.Norm(SubSeq(v, lo, hi))
				} else if v.Op == ONil {
					p.env[in] = v
				} else if in.Low == nil && in.High == nil && base.Op == OInt && arr == v && v.Op != OAlloc && !isPtr(in.X.Type()) {
					p.env[in] = v
				} else {
					p.env[in] = mk(Term{Op: OSlice, Args: []*Term{arr, Add(base, lo), Add(base, hi)}})
				}
				return one(p)
			})
		})
	})
}

// selfStore: returning a named result stores it into itself.
func selfStore(in *ssa.Store) bool {
	l, ok := in.Val.(*ssa.UnOp)
	return ok && l.Op == token.MUL && l.X == in.Addr
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (x *act) unop(p *path, in *ssa.UnOp) []leaf {
	e, st := x.e, p.st
	v := x.val(p, in.X)
	switch in.Op {
	case token.MUL:
		return x.nilCheck(p, v, in.Pos(), func(p *path) []leaf {
			r := p.st.Norm(e.Load(p.st, v, in.Type()))
			if rt := root(p.st.Norm(v)); rt.Op != OAlloc || e.AllMem {
				p.st.Emit(&Event{Kind: "mem.load", Args: []*Term{p.st.Norm(v), r}, Pos: in.Pos(), Fn: x.fn})
			}
			p.env[in] = r
			return one(p)
		})
	case token.NOT:
		p.env[in] = Not(st.Norm(v))
	case token.SUB:
		if IsIntType(in.Type()) {
			p.env[in] = Scale(v, -1)
		} else {
			p.env[in] = FNeg(v)
		}
	case token.XOR:
		p.env[in] = Sub(Int(-1), v)
	case token.ARROW:
		ch := st.Norm(v)
		var ls []leaf
		for _, r := range e.chanRecv(st, ch, in.CommaOk, in.Type(), x.site(in), in.Pos(), x.fn) {
			q := &path{st: r.St, env: cp(p.env), defers: append([]deferred(nil), p.defers...)}
			q.env[in] = r.Rets[0]
			ls = append(ls, one(q)...)
		}
		return ls
	default:
		p.env[in] = Call("un"+in.Op.String(), in.Type(), v)
	}
	return one(p)
}

func FNeg(v *Term) *Term {
	if v.Op == OFloat {
		if strings.HasPrefix(v.S, "-") {
			return mk(Term{Op: OFloat, S: v.S[1:], T: v.T})
		}
		return mk(Term{Op: OFloat, S: "-" + v.S, T: v.T})
	}
	if v.Is("fneg") {
		return v.Args[0]
	}
	return Call("fneg", types.Typ[types.Float64], v)
}

var noFacts = NewState()

func (e *Engine) binop(op token.Token, a, b *Term, ot, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	}
	switch {
	case isStringType(ot):
		switch op {
		case token.ADD:
			return Cat(a, b)
		}
		return Call("str"+op.String(), rt, a, b)
	case isFloatType(ot):
		switch op {
		case token.ADD, token.MUL:
			if a.ID > b.ID {
				a, b = b, a
			}
		case token.SUB:
			b = FNeg(b)
			if a.ID > b.ID {
				a, b = b, a
			}
			op = token.ADD
		case token.GTR:
			a, b, op = b, a, token.LSS
		case token.GEQ:
			a, b, op = b, a, token.LEQ
		}
		return Call("f"+op.String(), rt, a, b)
	}
	w, signed, ok := intInfo(ot)
	if !ok {
		return Call("op"+op.String(), rt, a, b)
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	fit := func(t *Term) *Term {
		if w < 32 {
			return Conv(t, types.Typ[types.Int64], rt)
		}
		if t.Op == OInt {
			return Conv(t, types.Typ[types.Int64], rt)
		}
		return t
	}
	// products of 32-bit numbers wrap unless their range shows otherwise
	fitMul := func(t *Term) *Term {
		if w == 32 && t.Op != OInt {
			lo, hi := 0.0, math.Pow(2, 32)-1
			if signed {
				lo, hi = -math.Pow(2, 31), math.Pow(2, 31)-1
			}
			if r := noFacts.rangeOf(t); r.lo < lo || r.hi > hi {
				return Conv(t, types.Typ[types.Int64], rt)
			}
		}
		return fit(t)
	}
	switch op {
	case token.ADD:
		return fit(Add(a, b))
	case token.SUB:
		return fit(Sub(a, b))
	case token.MUL:
		if b.Op == OInt {
			return fitMul(Scale(a, b.K))
		}
		if a.Op == OInt {
			return fitMul(Scale(b, a.K))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return Call("mul", rt, a, b)
	case token.QUO, token.REM:
		name := "div"
		if op == token.REM {
			name = "rem"
		}
		if !signed && b.Op == OInt && b.K > 0 && b.K&(b.K-1) == 0 {
			if av, ok := bitsOf(a); ok {
				sh := 0
				for k := b.K; k > 1; k >>= 1 {
					sh++
				}
				if op == token.REM {
					return fromBits(av.trunc(maxInt(sh, 0), false))
				}
				return fromBits(av.shr(sh))
			}
		}
		return callRules[name]([]*Term{a, b}, rt)
	case token.SHL:
		if b.Op == OInt && b.K >= 0 && b.K < 64 {
			if av, ok := bitsOf(a); ok && a.Op != OSym && (a.Op != OCall) {
				return fromBits(av.shl(int(b.K)).trunc(w, signed))
			}
			return fitMul(Scale(a, 1<<uint(b.K)))
		}
		return Call("shl", rt, a, b)
	case token.SHR:
		if b.Op == OInt && b.K >= 0 && b.K < 64 {
			if av, ok := bitsOf(a); ok {
				return fromBits(av.shr(int(b.K)))
			}
			return callRules["div"]([]*Term{a, Int(1 << uint(b.K))}, rt)
		}
		return Call("shr", rt, a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op]
		av, ok1 := bitsOf(a)
		bv, ok2 := bitsOf(b)
		if ok1 && ok2 {
			if r, ok := av.bitop(bv, name); ok {
				return fromBits(r)
			}
		}
		if op != token.AND_NOT && a.ID > b.ID {
			a, b = b, a
		}
		return Call(name, rt, a, b)
	}
	return Call("op"+op.String(), rt, a, b)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	callRules["div"] = func(a []*Term, t types.Type) *Term {
		if a[0].IsInt() && a[1].IsInt() && a[1].K != 0 {
			return Int(a[0].K / a[1].K)
		}
		if a[1].IsInt() && a[1].K == 1 {
			return a[0]
		}
		if a[1].IsInt() && a[0].Op == OLin && a[1].K != 0 {
			ok := a[0].K%a[1].K == 0
			for _, c := range a[0].Co {
				ok = ok && c%a[1].K == 0
			}
			if ok {
				l := linT{k: a[0].K / a[1].K, co: map[*Term]int64{}}
				for i, x := range a[0].Args {
					l.co[x] = a[0].Co[i] / a[1].K
				}
				return fromLin(l)
			}
		}
		return Call("div", t, a...)
	}
	callRules["rem"] = func(a []*Term, t types.Type) *Term {
		if a[0].IsInt() && a[1].IsInt() && a[1].K != 0 {
			return Int(a[0].K % a[1].K)
		}
		if a[1].IsInt() && a[0].Op == OLin && a[1].K != 0 {
			ok := a[0].K%a[1].K == 0
			for _, c := range a[0].Co {
				ok = ok && c%a[1].K == 0
			}
			if ok {
				return Int(0)
			}
		}
		return Call("rem", t, a...)
	}
}

func (x *act) convert(p *path, in *ssa.Convert) *Term {
	e, st := x.e, p.st
	v := st.Norm(x.val(p, in.X))
	ft, tt := in.X.Type(), in.Type()
	if IsIntType(ft) && IsIntType(tt) {
		c := Conv(v, ft, tt)
		if c.Op == OConv && c.Args[0] == v && st.fits(v, tt) {
			return v
		}
		return c
	}
	if IsIntType(ft) && isFloatType(tt) {
		if v.Op == OInt {
			return mk(Term{Op: OFloat, S: strconv.FormatInt(v.K, 10), T: types.Typ[types.Float64]})
		}
		_, s, _ := intInfo(ft)
		if s {
			return Call("i2f", types.Typ[types.Float64], v)
		}
		return Call("u2f", types.Typ[types.Float64], v)
	}
	if isFloatType(ft) && isFloatType(tt) {
		if b, ok := tt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			return Call("f32", tt, v)
		}
		return v
	}
	if isFloatType(ft) && IsIntType(tt) {
		return Call("f2i:"+typeKey(tt), tt, v)
	}
	if isStringType(tt) {
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			if isByteType(sl.Elem()) {
				return e.Content(st, v)
			}
			return Call("runes2str", tt, v)
		}
		if IsIntType(ft) {
			if v.Op == OInt {
				return Str(string(rune(v.K)))
			}
			return Call("rune2str", tt, v)
		}
		return v
	}
	if isStringType(ft) {
		if sl, ok := tt.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
			return e.NewSlice(st, x.site(in), v)
		}
		return Call("str2runes", tt, v)
	}
	return Call("convert:"+typeKey(tt), tt, v)
}

// FAdd is the floating-point sum of a and b.
func FAdd(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return Call("f+", types.Typ[types.Float64], a, b)
}

// I2F is the conversion of a signed integer to float64.
func I2F(x *Term) *Term { return Call("i2f", types.Typ[types.Float64], x) }

// IsT is the test that interface term v holds dynamic type t.
func IsT(v *Term, t types.Type) *Term {
	return mk(Term{Op: OIsT, T: t, Args: []*Term{v}})
}

// Unwrap is the concrete value of interface term v known to hold T.
func Unwrap(v *Term, t types.Type) *Term {
	if v.Op == OIface {
		return v.Args[0]
	}
	if types.IsInterface(t) {
		return v
	}
	if isPtr(t) {
		return Call("!unwrap:"+typeKey(t), t, v)
	}
	return Call("unwrap:"+typeKey(t), t, v)
}

func (x *act) typeAssert(p *path, in *ssa.TypeAssert) []leaf {
	v := p.st.Norm(x.val(p, in.X))
	c := mk(Term{Op: OIsT, T: in.AssertedType, Args: []*Term{v}})
	if v.Op == ONil {
		c = Bool(false)
	} else if types.IsInterface(in.AssertedType) && types.IsInterface(in.X.Type()) && in.AssertedType.Underlying().(*types.Interface).Empty() {
		c = Not(Eq(v, Nil()))
	}
	if !in.CommaOk {
		return x.oblige(p, c, "type assertion", in.Pos(), func(p *path) []leaf {
			p.env[in] = Unwrap(v, in.AssertedType)
			return one(p)
		})
	}
	var ls []leaf
	d := p.st.Decide(c)
	q := p
	if d != 0 {
		if d < 0 {
			q = p.clone()
		}
		if d == 1 || p.st.Assume(c, true) {
			p.env[in] = Tuple(Unwrap(p.st.Norm(v), in.AssertedType), Bool(true))
			ls = append(ls, one(p)...)
		}
	}
	if d != 1 {
		if d == 0 || q.st.Assume(c, false) {
			q.env[in] = Tuple(x.e.Zero(in.AssertedType), Bool(false))
			ls = append(ls, one(q)...)
		}
	}
	return ls
}

func (x *act) sel(p *path, in *ssa.Select) []leaf {
	e := x.e
	var ls []leaf
	tt := in.Type().(*types.Tuple)
	mkTuple := func(idx int, ok *Term, recvIdx int, val *Term) *Term {
		args := []*Term{Int(int64(idx)), ok}
		for i := 2; i < tt.Len(); i++ {
			if i-2 == recvIdx {
				args = append(args, val)
			} else {
				args = append(args, e.Zero(tt.At(i).Type()))
			}
		}
		return Tuple(args...)
	}
	var chans []*Term
	for _, s := range in.States {
		chans = append(chans, p.st.Norm(x.val(p, s.Chan)))
	}
	blk := Bool(in.Blocking)
	ri := 0
	any := false
	for i, s := range in.States {
		my := ri
		if s.Dir == types.RecvOnly {
			ri++
		}
		if chans[i].IsNil() {
			continue // never ready
		}
		any = true
		q := p.clone()
		q.st.Emit(&Event{Kind: "select", Args: append([]*Term{blk, chans[i]}, chans...), Pos: in.Pos(), Fn: x.fn})
		if s.Dir == types.SendOnly {
			e.chanSend(q.st, chans[i], x.val(q, s.Send), in.Pos(), x.fn)
			q.env[in] = mkTuple(i, Bool(false), -1, nil)
			ls = append(ls, one(q)...)
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		for _, r := range e.chanRecv(q.st, chans[i], true, types.NewTuple(types.NewVar(0, nil, "", et), types.NewVar(0, nil, "", types.Typ[types.Bool])), x.site(in)+"."+strconv.Itoa(i), in.Pos(), x.fn) {
			q2 := &path{st: r.St, env: cp(q.env), defers: append([]deferred(nil), q.defers...)}
			q2.env[in] = mkTuple(i, r.Rets[0].Args[1], my, r.Rets[0].Args[0])
			ls = append(ls, one(q2)...)
		}
	}
	if !in.Blocking {
		p.st.Emit(&Event{Kind: "select", Name: "default", Args: append([]*Term{blk, Nil()}, chans...), Pos: in.Pos(), Fn: x.fn})
		p.env[in] = mkTuple(-1, Bool(false), -1, nil)
		ls = append(ls, one(p)...)
	} else if !any {
		p.st.Emit(&Event{Kind: "block", Name: "select on nil channels", Pos: in.Pos(), Fn: x.fn})
	}
	return ls
}

// ---- calls ----

func (x *act) callee(p *path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, p.st.Norm(x.val(p, a)))
	}
	return p.st.Norm(x.val(p, c.Value)), args
}

func (x *act) callCommon(p *path, c *ssa.CallCommon, fn *Term, args []*Term, pos token.Pos, site string, asDefer bool) []*Outcome {
	e, st := x.e, p.st
	if site == "defer" {
		site = x.ctx.Path + ":defer" + strconv.Itoa(int(pos))
	}
	cc := &CallCtx{E: e, St: st, Args: args, Sig: c.Signature(), Pos: pos, Site: site, In: x.fn, Ctx: x.ctx}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(cc, b.Name(), c, asDefer)
	}
	if c.IsInvoke() {
		recv := fn
		cc.Args = append([]*Term{recv}, args...)
		return e.invoke(cc, recv, c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		var free []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			if fn.Op == OFunc {
				free = fn.Args
			}
		}
		return e.callFn(cc, f, free, asDefer)
	}
	if fn.Op == OFunc && fn.Fn != nil {
		return e.callFn(cc, fn.Fn, fn.Args, asDefer)
	}
	// unknown function value
	return x.e.unknownFn(cc, fn)
}

func (e *Engine) unknownFn(cc *CallCtx, fn *Term) []*Outcome {
	cc.Name = "dynamic"
	if d := cc.St.Decide(Eq(fn, Nil())); d != 0 {
		cc.St.Emit(&Event{Kind: "maypanic", Name: "call of nil function", Args: []*Term{fn}, Pos: cc.Pos, Fn: cc.In})
	}
	cc.St.Emit(&Event{Kind: "callfn", Args: e.resolveAll(cc.St, append([]*Term{fn}, cc.Args...)), Pos: cc.Pos, Fn: cc.In})
	var outs []*Outcome
	if e.DynPanic != nil && e.DynPanic(fn) {
		q := cc.St.Clone()
		outs = append(outs, &Outcome{St: q, Kind: Pan, Val: q.Fresh("dynpanic", nil), Pos: cc.Pos})
	}
	return append(outs, e.forkErr(cc, "dyn", nil)...)
}

// CallFn dispatches a call to a known function.
func (e *Engine) callFn(cc *CallCtx, f *ssa.Function, free []*Term, asDefer bool) []*Outcome {
	cc.Fn = f
	cc.Name = f.String()
	if f.Origin() != nil {
		cc.Name = f.Origin().String()
	}
	if m, ok := e.Override[f]; ok {
		return m(cc)
	}
	if m, ok := e.Models[cc.Name]; ok {
		return m(cc)
	}
	if strings.HasPrefix(f.Name(), "_Cfunc_") || strings.HasPrefix(f.Name(), "_cgo") {
		return modelCgo(cc)
	}
	if len(f.Blocks) > 0 && (e.Internal(f) || f.Synthetic != "" && f.Pkg == nil) {
		for c, n := cc.Ctx, 0; c != nil; c = c.Parent {
			if c.Fn == f {
				n++
				if n >= 1 {
					return e.recursive(cc)
				}
			}
		}
		return e.Call(f, cc.Args, free, cc.St, &Ctx{Parent: cc.Ctx, Fn: cc.Ctx.Fn, Path: cc.Site, Depth: cc.Ctx.Depth + 1, Pos: cc.Pos}, asDefer)
	}
	if m := prefixModel(cc.Name); m != nil {
		return m(cc)
	}
	e.Unmod[cc.Name]++
	return e.opaque(cc)
}

func (e *Engine) recursive(cc *CallCtx) []*Outcome {
	cc.St.Emit(&Event{Kind: "recurse", Name: cc.Name, Args: cc.Args, Pos: cc.Pos, Fn: cc.In})
	// the callee advances every stream it can reach
	for r, o := range cc.St.Off {
		cc.St.Off[r] = Add(o, cc.St.Fresh("rlen@"+cc.Site, types.Typ[types.Uint64]))
	}
	return e.forkErr(cc, "rec:"+cc.Fn.Name(), nil)
}

// opaque treats an external call as an uninterpreted function that may also
// write through the pointers it is given.
func (e *Engine) opaque(cc *CallCtx) []*Outcome {
	cc.St.Emit(&Event{Kind: "ext", Name: cc.Name, Args: e.resolveAll(cc.St, cc.Args), Pos: cc.Pos, Fn: cc.In})
	for _, a := range cc.Args {
		for a.Op == OIface {
			a = a.Args[0]
		}
		r := root(a)
		if a.Op == OSlice {
			r = a.Args[0]
		}
		if r.Op == OAlloc {
			for k := range cc.St.Mem {
				if root(k) == r {
					cc.St.Mem[k] = Sym("havoc:"+k.String()+"@"+cc.Site, AddrElem(k))
				}
			}
		}
	}
	return e.forkErr(cc, cc.Name, nil)
}

var errorType = types.Universe.Lookup("error").Type()

// forkErr returns fresh results; a trailing error result forks into success and failure.
func (e *Engine) forkErr(cc *CallCtx, name string, ok func(st *State) []*Term) []*Outcome {
	res := cc.Sig.Results()
	mkRes := func(st *State) []*Term {
		var rs []*Term
		for i := 0; i < res.Len(); i++ {
			if types.Identical(res.At(i).Type(), errorType) {
				rs = append(rs, Nil())
				continue
			}
			rs = append(rs, st.Fresh(fmt.Sprintf("%s#%d@%s", name, i, cc.Site), res.At(i).Type()))
		}
		return rs
	}
	n := res.Len()
	if n == 0 || !types.Identical(res.At(n-1).Type(), errorType) {
		var rs []*Term
		if ok != nil {
			rs = ok(cc.St)
		} else {
			rs = mkRes(cc.St)
		}
		return []*Outcome{{St: cc.St, Kind: Ret, Rets: rs}}
	}
	f := cc.St.Clone()
	var rs []*Term
	if ok != nil {
		rs = ok(cc.St)
	} else {
		rs = mkRes(cc.St)
	}
	cc.St.Emit(&Event{Kind: "ok", Name: name, Args: cc.Args, Res: rs, Pos: cc.Pos, Fn: cc.In, OK: true})
	fr := mkRes(f)
	er := f.Fresh("!err:"+name+"@"+cc.Site, errorType)
	fr[n-1] = er
	f.Emit(&Event{Kind: "fail", Name: name, Args: []*Term{er}, Res: fr, Pos: cc.Pos, Fn: cc.In})
	return []*Outcome{{St: cc.St, Kind: Ret, Rets: rs}, {St: f, Kind: Ret, Rets: fr}}
}

// ForkErr is forkErr for models outside this package.
func (e *Engine) ForkErr(cc *CallCtx, name string, ok func(st *State) []*Term) []*Outcome {
	return e.forkErr(cc, name, ok)
}

func (e *Engine) invoke(cc *CallCtx, recv *Term, m *types.Func) []*Outcome {
	st := cc.St
	recv = st.Norm(recv)
	cc.Args[0] = recv
	if recv.IsNil() {
		st.Emit(&Event{Kind: "maypanic", Name: "nil dereference", Args: []*Term{recv}, Pos: cc.Pos, Fn: cc.In})
		return []*Outcome{{St: st, Kind: Pan, Val: Str("nil interface"), Pos: cc.Pos}}
	}
	if t := st.TypeOf(recv); t != nil && types.NewMethodSet(t).Lookup(m.Pkg(), m.Name()) != nil {
		if f := e.Prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
			cc.Args[0] = Unwrap(recv, t)
			return e.callFn(cc, f, nil, false)
		}
	}
	cc.Name = m.FullName()
	if !nonNil(recv) {
		e.Stats.Oblig++
		if st.Decide(Eq(recv, Nil())) != 0 {
			st.Emit(&Event{Kind: "maypanic", Name: "method call on a possibly nil interface", Args: []*Term{Not(Eq(recv, Nil()))}, Pos: cc.Pos, Fn: cc.In})
			st.Assume(Eq(recv, Nil()), false)
		} else {
			e.Stats.Proved++
		}
	}
	if e.Invoke != nil {
		if o, ok := e.Invoke(cc, recv, m); ok {
			return o
		}
	}
	if o, ok := e.dictInvoke(cc, recv, m); ok {
		return o
	}
	return e.stdInvoke(cc, recv, m)
}

// Run calls fn as an entry point.
func (e *Engine) Run(fn *ssa.Function, args []*Term, st *State) []*Outcome {
	e.steps = 0
	return e.Call(fn, args, nil, st, &Ctx{Path: fn.Name(), Fn: nil}, false)
}

// RunClosure calls a function term as an entry point.
func (e *Engine) RunClosure(f *Term, args []*Term, st *State, site string) []*Outcome {
	if f.Op != OFunc || f.Fn == nil {
		return []*Outcome{{St: st, Kind: Stuck, Val: Str("unknown function")}}
	}
	cc := &CallCtx{E: e, St: st, Args: args, Sig: f.Fn.Signature, Site: site, In: f.Fn, Ctx: &Ctx{Path: site}}
	return e.callFn(cc, f.Fn, f.Args, false)
}

// Global is the location of a package-level variable.
func Global(g *ssa.Global) *Term { return mk(Term{Op: OGlobal, S: g.String(), T: g.Type()}) }
