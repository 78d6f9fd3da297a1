package check

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

// CW is the cache package seen through its roles: the dictionary of values, the
// dictionary of deadlines, the lock, the hash entry and the list entry. The
// roles are read off the behaviour of the exported commands, not off names of
// fields or helpers.
type CW struct {
	W     *World
	E     *ai.Engine
	T     *types.Named
	C     *ai.Term // the cache under analysis
	Base  *ai.State
	Field map[*ai.Term]int // symbolic root -> field of Cache
	Data  role
	Exp   role
	DT    types.Type // how a deadline is stored
	Now   *ai.Term
	HashT types.Type // dynamic type of hash values
	ListT types.Type
	HPath []int        // from a hash pointer to its dictionary
	Vals  []types.Type // types of value the data dictionary can hold
	FVals []types.Type // same for hash fields
	Ops   map[string]*ssa.Function
	Nil   *ai.Term // the values of the sentinel errors
	Wrong *ai.Term
	runs  map[string][]*Run
	errs  []string
}

// role locates a dictionary: field of Cache plus path below it.
type role struct {
	field  int
	suffix []int64
	d      *ai.Term // the dictionary in the initial state
}

// Run is one outcome of a command run from a scenario.
type Run struct {
	Op   string
	Scen string
	Args []*ai.Term
	O    *ai.Outcome
}

var cacheOps = map[string]string{
	"Set": "string", "SetNX": "string", "SetEX": "string", "PSetEX": "string", "Get": "string", "GetSet": "string",
	"StrLen": "string", "Append": "string", "SetRange": "string", "GetRange": "string", "Incr": "string", "IncrBy": "string",
	"IncrByFloat": "string", "Decr": "string", "DecrBy": "string", "MSet": "string", "MSetNX": "string", "MGet": "string",
	"Del": "key", "Flush": "key", "Exists": "key", "Type": "key", "PExpireAt": "key",
	"HSet": "hash", "HSetNX": "hash", "HExists": "hash", "HDel": "hash", "HLen": "hash", "HStrLen": "hash", "HIncrBy": "hash",
	"HIncrByFloat": "hash", "HMSet": "hash", "HMGet": "hash", "HKeys": "hash", "HVals": "hash", "HGetAll": "hash", "HGet": "hash",
	"RPush": "list",
}

// list commands the library declares but does not implement yet
var stubOps = map[string]bool{"LPush": true, "LPushX": true, "RPushX": true, "LPop": true, "RPop": true, "RPopLPush": true, "LRem": true,
	"LLen": true, "LIndex": true, "LInsert": true, "LSet": true, "LRange": true, "LTrim": true, "BLPop": true, "BRPop": true, "BRPopLPush": true}

var readOps = map[string]bool{"Get": true, "StrLen": true, "GetRange": true, "MGet": true, "Exists": true, "Type": true, "HGet": true,
	"HExists": true, "HLen": true, "HStrLen": true, "HMGet": true, "HKeys": true, "HVals": true, "HGetAll": true}

// commands whose first parameter is not one key
var multiOps = map[string]bool{"MSet": true, "MSetNX": true, "MGet": true, "Exists": true, "Flush": true}

func sortedOps(m map[string]*ssa.Function) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// symbolise replaces freshly built objects by arbitrary ones of the same type.
func symbolise(v *ai.Term, name string, t types.Type) *ai.Term {
	switch v.Op {
	case ai.OIface:
		in := symbolise(v.Args[0], name, v.T)
		return ai.IfaceOf(v.T, in)
	case ai.OAlloc:
		return ai.Sym("!"+name, t)
	}
	if _, ok := t.Underlying().(*types.Map); ok && !v.IsNil() {
		return ai.Sym("!"+name, t)
	}
	return v
}

func dictPath(d *ai.Term) (root *ai.Term, path []int64) {
	for d.Op == ai.OField {
		path = append([]int64{d.K}, path...)
		d = d.Args[0]
	}
	return d, path
}

func follow(root *ai.Term, path []int64) *ai.Term {
	for _, k := range path {
		root = ai.FieldAddr(root, int(k))
	}
	return root
}

func (w *World) newCW() (*CW, error) {
	cw := &CW{W: w, E: w.E.With(), Field: map[*ai.Term]int{}, Ops: map[string]*ssa.Function{}, runs: map[string][]*Run{}}
	cw.T = w.Type("cache", "Cache")
	newFn := w.Fn("cache", "New")
	if cw.T == nil || newFn == nil {
		return nil, fmt.Errorf("cache.Cache or cache.New not found")
	}
	su, ok := cw.T.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("cache.Cache is not a struct")
	}
	st0 := w.Init()
	var cst *ai.State
	var cptr *ai.Term
	for _, o := range cw.E.Run(newFn, nil, st0) {
		if o.Kind == ai.Ret && len(o.Rets) > 0 {
			cst, cptr = o.St, o.Rets[0]
		}
	}
	if cptr == nil {
		return nil, fmt.Errorf("cache.New has no normal outcome")
	}
	cw.C = ai.Sym("!cache", types.NewPointer(cw.T))
	cw.Base = w.Init()
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		v := cst.Norm(cw.E.Load(cst, ai.FieldAddr(cptr, i), ft))
		if v.Op == ai.OCall { // external struct held by value (a lock)
			continue
		}
		s := symbolise(v, fmt.Sprintf("cache.%d", i), ft)
		in := s
		for in.Op == ai.OIface {
			in = in.Args[0]
		}
		if in.Op == ai.OSym {
			cw.Field[in] = i
		}
		cw.E.Store(cw.Base, ai.FieldAddr(cw.C, i), s, ft)
	}
	for name := range cacheOps {
		if f := w.Method(cw.T, name); f != nil {
			cw.Ops[name] = f
		} else {
			cw.errs = append(cw.errs, "command "+name+" not found")
		}
	}
	// other exported commands are analysed for locking, panics and invariants too
	for _, f := range w.Methods(cw.T) {
		if !stubOps[f.Name()] && f.Name() != "Cron" {
			cw.Ops[f.Name()] = f
		}
	}
	if err := cw.discover(); err != nil {
		return nil, err
	}
	return cw, nil
}

func (cw *CW) roleOf(d *ai.Term) (role, bool) {
	r, p := dictPath(d)
	if i, ok := cw.Field[r]; ok {
		return role{i, p, d}, true
	}
	if r == cw.C && len(p) > 0 {
		return role{int(p[0]), p[1:], d}, true
	}
	return role{}, false
}

// Args builds symbolic arguments named after the parameters.
func (cw *CW) Args(f *ssa.Function) []*ai.Term {
	args := []*ai.Term{cw.C}
	for i := 1; i < len(f.Params); i++ {
		args = append(args, ai.Sym(fmt.Sprintf("arg%d", i), f.Params[i].Type()))
	}
	return args
}

func (cw *CW) discover() error {
	e := cw.E
	// deadlines: the one dictionary PEXPIREAT stores into
	run := func(name string) ([]*ai.Outcome, []*ai.Term) {
		f := cw.Ops[name]
		if f == nil {
			return nil, nil
		}
		args := cw.Args(f)
		return e.Run(f, args, cw.Base.Clone()), args
	}
	var os []*ai.Outcome
	for _, x := range []struct {
		op  string
		arg int
	}{{"PExpireAt", 2}, {"SetEX", 3}, {"PSetEX", 3}} {
		os, args := run(x.op)
		for _, o := range os {
			for _, ev := range flat(o.St.Events()) {
				if cw.DT == nil && ev.Kind == "dict.store" && ev.Args[2].Op == ai.OIface && ai.Contains(ev.Args[2], args[x.arg]) {
					if r, ok := cw.roleOf(ev.Args[0]); ok {
						cw.Exp = r
						cw.DT = ev.Args[2].T
					}
				}
			}
		}
	}
	if cw.DT == nil {
		return fmt.Errorf("no dictionary of deadlines: PExpireAt stores its timestamp nowhere")
	}
	cw.Now = ai.Sym("now", cw.DT)
	os, _ = run("Set")
	found := false
	for _, o := range os {
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "dict.store" && ev.Args[0] != cw.Exp.d && ev.Args[2].Op == ai.OIface {
				if r, ok := cw.roleOf(ev.Args[0]); ok {
					cw.Data = r
					found = true
				}
			}
		}
	}
	if !found {
		return fmt.Errorf("no dictionary of values: Set stores its value nowhere")
	}
	// hash and list entries
	for _, x := range []struct {
		ops []string
		typ string // consulted when no command creates an entry
		t   *types.Type
	}{{[]string{"HSet", "HSetNX", "HMSet", "HIncrBy"}, "hashEntry", &cw.HashT}, {[]string{"RPush"}, "ListEntry", &cw.ListT}} {
		for _, op := range x.ops {
			os, _ = run(op)
			for _, o := range os {
				for _, ev := range flat(o.St.Events()) {
					if *x.t == nil && ev.Kind == "dict.store" && ev.Args[0] == cw.Data.d && ev.Args[2].Op == ai.OIface && ev.Args[2].Args[0].Op == ai.OAlloc {
						*x.t = ev.Args[2].T
					}
				}
			}
		}
		if n := cw.W.Type("cache", x.typ); *x.t == nil && n != nil {
			*x.t = types.NewPointer(n)
		}
		if *x.t == nil {
			return fmt.Errorf("%s on an absent key stores no new entry", x.ops[0])
		}
	}
	os, _ = run("HSet")
	for _, o := range os {
		for _, ev := range flat(o.St.Events()) {
			if ev.Kind == "dict.store" {
				if _, ok := cw.roleOf(ev.Args[0]); !ok {
					r, p := dictPath(ev.Args[0])
					if r.Op == ai.OAlloc {
						cw.HPath = nil
						for _, k := range p {
							cw.HPath = append(cw.HPath, int(k))
						}
					}
				}
			}
		}
	}
	if g := cw.W.Global("cache", "ErrKeyNil"); g != nil {
		cw.Nil = cw.Base.Mem[ai.Global(g)]
	}
	if g := cw.W.Global("cache", "ErrWrongType"); g != nil {
		cw.Wrong = cw.Base.Mem[ai.Global(g)]
	}
	if cw.Nil == nil || cw.Wrong == nil {
		return fmt.Errorf("the sentinel errors ErrKeyNil and ErrWrongType are not initialised")
	}
	// reachable value types, to a fixpoint
	cw.Vals = []types.Type{types.Typ[types.String]}
	cw.FVals = []types.Type{types.Typ[types.String]}
	e.DictInit = cw.oracle
	for round := 0; ; round++ {
		nv, nf := len(cw.Vals), len(cw.FVals)
		cw.runs = map[string][]*Run{}
		for _, op := range sortedOps(cw.Ops) {
			for _, r := range cw.Runs(op) {
				for _, ev := range flat(r.O.St.Events()) {
					if ev.Kind != "dict.store" || ev.Args[2].Op != ai.OIface {
						continue
					}
					t := ev.Args[2].T
					if ev.Args[0] == cw.Data.d || cw.isData(r.O.St, ev.Args[0]) {
						cw.Vals = addType(cw.Vals, t)
					} else if cw.isHash(ev.Args[0]) {
						cw.FVals = addType(cw.FVals, t)
					}
				}
			}
		}
		if len(cw.Vals) == nv && len(cw.FVals) == nf {
			break
		}
		if round > 6 {
			return fmt.Errorf("the set of stored types does not stabilise")
		}
	}
	return nil
}

func addType(ts []types.Type, t types.Type) []types.Type {
	for _, x := range ts {
		if types.Identical(x, t) {
			return ts
		}
	}
	ts = append(ts, t)
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	return ts
}

// flat lists events including those of loop iterations.
func flat(evs []*ai.Event) []*ai.Event {
	var out []*ai.Event
	seen := map[*ai.LoopInfo]bool{}
	var w func(evs []*ai.Event)
	w = func(evs []*ai.Event) {
		for _, ev := range evs {
			out = append(out, ev)
			if ev.Loop != nil && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, b := range ev.Loop.Backs {
					w(b.Events)
				}
			}
		}
	}
	w(evs)
	return out
}

// loopsOf lists the loops of a path, nested ones included.
func loopsOf(evs []*ai.Event) []*ai.LoopInfo {
	var out []*ai.LoopInfo
	seen := map[*ai.LoopInfo]bool{}
	for _, ev := range flat(evs) {
		if ev.Loop != nil && !seen[ev.Loop] {
			seen[ev.Loop] = true
			out = append(out, ev.Loop)
		}
	}
	return out
}

func (cw *CW) isHash(d *ai.Term) bool {
	r, p := dictPath(d)
	if len(p) != len(cw.HPath) {
		return false
	}
	for i := range p {
		if int(p[i]) != cw.HPath[i] {
			return false
		}
	}
	return strings.HasPrefix(r.S, "!he:") || r.Op == ai.OAlloc && types.Identical(r.T, cw.HashT)
}

func (cw *CW) isData(st *ai.State, d *ai.Term) bool { return cw.cur(st, cw.Data) == d }

// cur is the dictionary now playing a role (FLUSH may have replaced it).
func (cw *CW) cur(st *ai.State, r role) *ai.Term {
	su := cw.T.Underlying().(*types.Struct)
	rt, _ := dictPath(r.d)
	if rt == cw.C {
		return r.d
	}
	v := st.Norm(cw.E.Load(st, ai.FieldAddr(cw.C, r.field), su.Field(r.field).Type()))
	for v.Op == ai.OIface {
		v = v.Args[0]
	}
	return follow(v, r.suffix)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// kindOf classifies a stored type.
func (cw *CW) kindOf(t types.Type) string {
	switch {
	case types.Identical(t, cw.HashT):
		return "hash"
	case types.Identical(t, cw.ListT):
		return "list"
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&(types.IsString|types.IsNumeric) != 0 {
		return "string"
	}
	return "other"
}

// oldVal is the arbitrary value of type t a key holds initially.
func (cw *CW) oldVal(k *ai.Term, t types.Type) *ai.Term {
	if types.Identical(t, cw.HashT) {
		return ai.IfaceOf(t, ai.Sym("!he:"+k.String(), t))
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return ai.IfaceOf(t, ai.Sym("!old:"+k.String(), t))
	}
	return ai.IfaceOf(t, ai.Sym("old:"+k.String(), t))
}

func (cw *CW) heDict(k *ai.Term) *ai.Term {
	d := ai.Sym("!he:"+k.String(), cw.HashT)
	for _, i := range cw.HPath {
		d = ai.FieldAddr(d, i)
	}
	return d
}

func (cw *CW) deadline(k *ai.Term) *ai.Term { return ai.Sym("deadline:"+k.String(), cw.DT) }

// scenarios enumerates what the cache may initially say about key k.
func (cw *CW) scenarios(k *ai.Term) []ai.DictAns {
	as := []ai.DictAns{{Tag: "absent", Also: []ai.DictSeed{{D: cw.Data.d, K: k}, {D: cw.Exp.d, K: k}}}}
	for _, t := range cw.Vals {
		v := cw.oldVal(k, t)
		dl := ai.IfaceOf(cw.DT, cw.deadline(k))
		as = append(as,
			ai.DictAns{Present: true, Val: v, Tag: "live:" + shortType(t), Also: []ai.DictSeed{{D: cw.Data.d, K: k, Present: true, Val: v}, {D: cw.Exp.d, K: k}}},
			ai.DictAns{Present: true, Val: v, Tag: "livettl:" + shortType(t), Assume: []*ai.Term{ai.Lt(cw.Now, cw.deadline(k))},
				Also: []ai.DictSeed{{D: cw.Data.d, K: k, Present: true, Val: v}, {D: cw.Exp.d, K: k, Present: true, Val: dl}}},
			ai.DictAns{Present: true, Val: v, Tag: "expired:" + shortType(t), Assume: []*ai.Term{ai.Lt(cw.deadline(k), cw.Now)},
				Also: []ai.DictSeed{{D: cw.Data.d, K: k, Present: true, Val: v}, {D: cw.Exp.d, K: k, Present: true, Val: dl}}})
	}
	return as
}

func strKey(k *ai.Term) *ai.Term {
	if k.Op == ai.OIface {
		return k
	}
	return nil
}

// oracle answers first reads of the dictionaries with every scenario.
func (cw *CW) oracle(st *ai.State, d, k *ai.Term, vt types.Type) []ai.DictAns {
	var isStr []*ai.Term
	if k.Op != ai.OIface {
		isStr = []*ai.Term{ai.IsT(k, types.Typ[types.String])}
	}
	if d == cw.Data.d || d == cw.Exp.d {
		var out []ai.DictAns
		allowed := cw.collected(st, k)
		for _, a := range cw.scenarios(k) {
			if allowed != nil && !allowed[a.Tag] {
				continue
			}
			present, v := a.Present, a.Val
			for _, s := range a.Also {
				if s.D == d {
					present, v = s.Present, s.Val
				}
			}
			a.Present, a.Val = present, v
			a.Assume = append(append([]*ai.Term{}, isStr...), a.Assume...)
			out = append(out, a)
		}
		return out
	}
	if cw.isHash(d) {
		out := []ai.DictAns{{Present: false, Tag: "nofield", Assume: isStr}}
		for _, t := range cw.FVals {
			out = append(out, ai.DictAns{Present: true, Tag: "field:" + shortType(t), Assume: isStr, Val: ai.IfaceOf(t, ai.Sym("fv:"+d.String()+":"+k.String(), t))})
		}
		return out
	}
	return nil
}

// collected: when k is an element of a collection filled by an earlier loop, the
// scenarios it can be in are those of the iterations that added it.
func (cw *CW) collected(st *ai.State, k *ai.Term) map[string]bool {
	x := k
	for x.Op == ai.OIface {
		x = x.Args[0]
	}
	if x.Op != ai.OElem {
		return nil
	}
	lv := cw.E.Loops[x.Args[0]]
	if lv == nil || lv.Init == nil || !(lv.Init.IsNil() || lv.Init.IsConstStr() && lv.Init.S == "") {
		return nil
	}
	allowed := map[string]bool{}
	for i, s := range lv.Steps {
		if s == lv.Sym {
			continue
		}
		if s.Op != ai.OCat || len(s.Args) != 2 || s.Args[0] != lv.Sym || s.Args[1].Op != ai.OUnit {
			return nil
		}
		it := lv.Loop.Backs[i].St
		tag := ""
		for key, tg := range it.Tags {
			in := key
			for in.Op == ai.OIface {
				in = in.Args[0]
			}
			el := it.Norm(s.Args[1].Args[0])
			for el.Op == ai.OIface {
				el = el.Args[0]
			}
			if el == in || el == it.Norm(ai.Unwrap(in, types.Typ[types.String])) {
				tag = tg
			}
		}
		if tag == "" {
			return nil
		}
		allowed[tag] = true
	}
	return allowed
}

func (cw *CW) seedState(base *ai.State, a ai.DictAns, k *ai.Term) *ai.State {
	st := base.Clone()
	for _, f := range a.Assume {
		if !st.Assume(f, true) {
			return nil
		}
	}
	for _, s := range a.Also {
		cw.E.SeedDict(st, s)
	}
	st.Tags[k] = a.Tag
	return st
}

// keyOf is the dictionary key of a single-key command.
func keyOf(args []*ai.Term) *ai.Term { return ai.IfaceOf(types.Typ[types.String], args[1]) }

func (cw *CW) singleKey(f *ssa.Function) bool {
	if len(f.Params) < 2 {
		return false
	}
	b, ok := f.Params[1].Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// Runs interprets a command from every scenario of its key.
func (cw *CW) Runs(op string) []*Run {
	if r, ok := cw.runs[op]; ok {
		return r
	}
	f := cw.Ops[op]
	var rs []*Run
	if f == nil {
		return nil
	}
	args := cw.Args(f)
	add := func(scen string, st *ai.State) {
		for _, o := range cw.E.Run(f, args, st) {
			rs = append(rs, &Run{Op: op, Scen: scen, Args: args, O: o})
		}
	}
	if cw.singleKey(f) {
		k := keyOf(args)
		for _, a := range cw.scenarios(k) {
			if st := cw.seedState(cw.Base, a, k); st != nil {
				add(a.Tag, st)
			}
		}
	} else {
		add("any", cw.Base.Clone())
	}
	cw.runs[op] = rs
	return rs
}

// RunOp interprets a command with given arguments from a given state.
func (cw *CW) RunOp(op string, st *ai.State, args ...*ai.Term) []*ai.Outcome {
	f := cw.Ops[op]
	if f == nil {
		return nil
	}
	s := st.Clone()
	s.Locks = map[*ai.Term]int{}
	return cw.E.Run(f, append([]*ai.Term{cw.C}, args...), s)
}

// Name describes an instance in reports.
func (r *Run) Name() string { return "cache.(*Cache)." + r.Op + " [" + r.Scen + "]" }

// point is a state at which the cache is compared with the specification: the
// end of a path or of a loop iteration.
type point struct {
	st    *ai.State
	where string
	out   *ai.Outcome // nil for iterations
	it    *ai.Iter
	loop  *ai.LoopInfo
	idx   int
}

func (cw *CW) points(r *Run) []point {
	ps := []point{{st: r.O.St, where: r.Name(), out: r.O}}
	for _, l := range loopsOf(r.O.St.Events()) {
		for i, b := range l.Backs {
			ps = append(ps, point{st: b.St, where: r.Name() + " loop iteration", it: b, loop: l, idx: i})
		}
	}
	return ps
}

type keyState struct {
	scen              string
	dKnown, dHas      bool
	dVal              *ai.Term
	eKnown, eHas      bool
	eVal              *ai.Term
	d0Has             bool
	d0Val             *ai.Term
	e0Has             bool
	e0Val             *ai.Term
	dictData, dictExp *ai.Term
}

// look reads what a state says about key k against its initial content.
func (cw *CW) look(st *ai.State, k *ai.Term) keyState {
	ks := keyState{scen: st.Tags[k]}
	ks.dictData, ks.dictExp = cw.cur(st, cw.Data), cw.cur(st, cw.Exp)
	ks.dKnown, ks.dHas, ks.dVal = st.DictCur(ks.dictData, k)
	ks.eKnown, ks.eHas, ks.eVal = st.DictCur(ks.dictExp, k)
	_, ks.d0Has, ks.d0Val = st.DictInit0(cw.Data.d, k)
	_, ks.e0Has, ks.e0Val = st.DictInit0(cw.Exp.d, k)
	return ks
}

func same(st *ai.State, a, b *ai.Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || st.Norm(a) == st.Norm(b)
}

// dataSame: the key's value is untouched; expSame: its deadline is.
func (k keyState) dataSame(st *ai.State) bool {
	return k.dKnown && k.dHas == k.d0Has && (!k.dHas || same(st, k.dVal, k.d0Val))
}
func (k keyState) expSame(st *ai.State) bool {
	return k.eKnown && k.eHas == k.e0Has && (!k.eHas || same(st, k.eVal, k.e0Val))
}

// gone: the key is absent, or an expired leftover nobody can see.
func (k keyState) gone(st *ai.State) bool {
	if k.dKnown && !k.dHas {
		return true
	}
	return strings.HasPrefix(k.scen, "expired") && k.dataSame(st) && k.expSame(st)
}

func (k keyState) String() string {
	f := func(has bool, v *ai.Term) string {
		if !has {
			return "absent"
		}
		if v == nil {
			return "unknown"
		}
		return v.String()
	}
	return fmt.Sprintf("value %s -> %s, deadline %s -> %s", f(k.d0Has, k.d0Val), f(k.dHas, k.dVal), f(k.e0Has, k.e0Val), f(k.eHas, k.eVal))
}

func live(scen string) bool { return strings.HasPrefix(scen, "live") }
func scenType(scen string) string {
	if i := strings.Index(scen, ":"); i >= 0 {
		return scen[i+1:]
	}
	return ""
}

// scenKind is the kind of value a scenario says the key holds.
func (cw *CW) scenKind(scen string) string {
	t := scenType(scen)
	if t == "" {
		return "none"
	}
	for _, x := range cw.Vals {
		if shortType(x) == t {
			return cw.kindOf(x)
		}
	}
	return "other"
}
