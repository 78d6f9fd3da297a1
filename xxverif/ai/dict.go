package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// DictRes is one possible answer of a dictionary read.
type DictRes struct {
	St      *State
	Present bool
	Val     *Term
}

func (e *Engine) dict(st *State, d *Term) *Dict {
	if x, ok := st.Dicts[d]; ok {
		return x
	}
	x := &Dict{}
	if root(d).Op == OAlloc {
		x.fresh = true
	}
	st.Dicts[d] = x
	return x
}

func (e *Engine) elemVal(d, k *Term, vt types.Type) *Term {
	return Call("val", vt, d, k)
}

func (e *Engine) dictKnow(st *State, d, k, v *Term) {
	x := e.dict(st, d)
	if find(x.cur, k) < 0 {
		x.cur = append(x.cur, dictEnt{k, true, v})
		if find(x.init, k) < 0 {
			x.init = append(x.init, dictEnt{k, true, v})
		}
	}
}

// dictLoad consults what is known of d[k], forking when nothing is.
func (e *Engine) dictLoad(st *State, d, k *Term, vt types.Type, pos token.Pos, fn *ssa.Function) []DictRes {
	if d.Op == ONil {
		return []DictRes{{st, false, Nil()}}
	}
	x := e.dict(st, d)
	emit := func(s *State, present bool, v *Term) DictRes {
		s.Emit(&Event{Kind: "dict.load", Args: []*Term{d, k, v}, Pos: pos, Fn: fn, OK: present})
		return DictRes{s, present, v}
	}
	if i := find(x.cur, k); i >= 0 {
		en := x.cur[i]
		if en.val != nil || !en.present {
			v := en.val
			if v == nil {
				v = Nil()
			}
			return []DictRes{emit(st, en.present, v)}
		}
		// unknown after a loop: fork without initial knowledge
		f := st.Clone()
		v := st.Fresh("dictval", vt)
		e.dict(st, d).cur[i].val = v
		fx := e.dict(f, d)
		fx.cur[i] = dictEnt{k, false, nil}
		return []DictRes{emit(st, true, v), emit(f, false, Nil())}
	}
	if x.fresh || x.cleared {
		x.cur = append(x.cur, dictEnt{k, false, nil})
		if x.fresh {
			x.init = append(x.init, dictEnt{k, false, nil})
		}
		return []DictRes{emit(st, false, Nil())}
	}
	var ans []DictAns
	if e.DictInit != nil {
		ans = e.DictInit(st, d, k, vt)
	}
	if ans == nil {
		ans = []DictAns{{Present: true, Val: e.elemVal(d, k, vt)}, {Present: false}}
	}
	var rs []DictRes
	for i, a := range ans {
		s := st
		if i < len(ans)-1 {
			s = st.Clone()
		}
		ok := true
		for _, f := range a.Assume {
			ok = ok && s.Assume(f, true)
		}
		if !ok {
			continue
		}
		v := a.Val
		e.seed(s, d, k, a)
		if v == nil {
			v = Nil()
		}
		rs = append(rs, emit(s, a.Present, v))
	}
	return rs
}

// seed records an oracle's answer (and what it says of related dictionaries)
// wherever nothing is known yet.
func (e *Engine) seed(s *State, d, k *Term, a DictAns) {
	e.SeedDict(s, DictSeed{d, k, a.Present, a.Val})
	for _, z := range a.Also {
		e.SeedDict(s, z)
	}
	if a.Tag != "" {
		s.Tags[k] = a.Tag
	}
}

// SeedDict fixes the initial content of a dictionary at one key.
func (e *Engine) SeedDict(s *State, z DictSeed) {
	y := e.dict(s, z.D)
	if find(y.init, z.K) < 0 {
		y.init = append(y.init, dictEnt{z.K, z.Present, z.Val})
	}
	if find(y.cur, z.K) < 0 && !y.cleared {
		y.cur = append(y.cur, dictEnt{z.K, z.Present, z.Val})
	}
}

func (e *Engine) count(st *State, d *Term, k int64) {
	c, ok := st.Count[d]
	if !ok {
		c = Int(0)
	}
	st.Count[d] = AddK(c, k)
}

func (e *Engine) dictSet(st *State, d, k *Term, present bool, v *Term) {
	x := e.dict(st, d)
	if i := find(x.cur, k); i >= 0 {
		if x.cur[i].present != present {
			if present {
				e.count(st, d, 1)
			} else {
				e.count(st, d, -1)
			}
		}
		x.cur[i] = dictEnt{k, present, v}
		return
	}
	x.cur = append(x.cur, dictEnt{k, present, v})
	if st.Count[d] == nil {
		st.Count[d] = Int(0)
	}
	// presence before this blind write is unknown
	st.Count[d] = Add(st.Count[d], Call("blind", types.Typ[types.Int], d, k, Bool(present)))
}

func (e *Engine) dictStore(st *State, d, k, v *Term, pos token.Pos, fn *ssa.Function) {
	e.dictSet(st, d, k, true, v)
	st.Emit(&Event{Kind: "dict.store", Args: []*Term{d, k, v, e.Resolve(st, v)}, Pos: pos, Fn: fn})
}

func (e *Engine) dictDelete(st *State, d, k *Term, pos token.Pos, fn *ssa.Function) {
	e.dictSet(st, d, k, false, nil)
	st.Emit(&Event{Kind: "dict.delete", Args: []*Term{d, k}, Pos: pos, Fn: fn})
}

// DictCur returns what the path knows of d[k] now: found, present, value.
func (s *State) DictCur(d, k *Term) (known, present bool, v *Term) {
	x, ok := s.Dicts[d]
	if !ok && root(d).Op == OAlloc {
		return true, false, nil // created on this path, never touched
	}
	if !ok {
		return false, false, nil
	}
	if i := find(x.cur, k); i >= 0 {
		return true, x.cur[i].present, x.cur[i].val
	}
	if x.fresh || x.cleared {
		return true, false, nil
	}
	return false, false, nil
}

// DictKeys lists the keys a path knows something about.
func (s *State) DictKeys(d *Term) []*Term {
	x, ok := s.Dicts[d]
	if !ok {
		return nil
	}
	var ks []*Term
	for _, c := range x.cur {
		ks = append(ks, c.key)
	}
	return ks
}

// DictInit0 returns what the path learnt about the initial content.
func (s *State) DictInit0(d, k *Term) (known, present bool, v *Term) {
	x, ok := s.Dicts[d]
	if !ok {
		return false, false, nil
	}
	if i := find(x.init, k); i >= 0 {
		return true, x.init[i].present, x.init[i].val
	}
	return false, false, nil
}

var emptyIface = types.NewInterfaceType(nil, nil)

func (e *Engine) unIface(st *State, k *Term) *Term {
	k = st.Norm(k)
	if k.Op == OIface {
		return k.Args[0]
	}
	return k
}

// dictOp performs a sync.Map style operation on dictionary d.
func (e *Engine) dictOp(cc *CallCtx, d *Term, op string, args []*Term) ([]*Outcome, bool) {
	st := cc.St
	d = st.Norm(d)
	ret := func(s *State, r ...*Term) *Outcome { return &Outcome{St: s, Kind: Ret, Rets: r} }
	key := func() *Term { return st.Norm(args[0]) }
	switch op {
	case "Load":
		var os []*Outcome
		for _, r := range e.dictLoad(st, d, key(), emptyIface, cc.Pos, cc.In) {
			os = append(os, ret(r.St, r.Val, Bool(r.Present)))
		}
		return os, true
	case "Store":
		e.dictStore(st, d, key(), st.Norm(args[1]), cc.Pos, cc.In)
		return []*Outcome{ret(st)}, true
	case "Swap":
		k := key()
		var os []*Outcome
		for _, r := range e.dictLoad(st, d, k, emptyIface, cc.Pos, cc.In) {
			e.dictStore(r.St, d, k, args[1], cc.Pos, cc.In)
			os = append(os, ret(r.St, r.Val, Bool(r.Present)))
		}
		return os, true
	case "Delete":
		k := key()
		var os []*Outcome
		// learn whether the key was there, so that the key count stays exact
		for _, r := range e.dictPeek(st, d, k) {
			e.dictDelete(r.St, d, k, cc.Pos, cc.In)
			os = append(os, ret(r.St))
		}
		return os, true
	case "LoadAndDelete":
		k := key()
		var os []*Outcome
		for _, r := range e.dictLoad(st, d, k, emptyIface, cc.Pos, cc.In) {
			if r.Present {
				e.dictDelete(r.St, d, k, cc.Pos, cc.In)
			}
			os = append(os, ret(r.St, r.Val, Bool(r.Present)))
		}
		return os, true
	case "LoadOrStore":
		k, v := key(), st.Norm(args[1])
		var os []*Outcome
		for _, r := range e.dictLoad(st, d, k, emptyIface, cc.Pos, cc.In) {
			if r.Present {
				os = append(os, ret(r.St, r.Val, Bool(true)))
				continue
			}
			e.dictStore(r.St, d, k, v, cc.Pos, cc.In)
			os = append(os, ret(r.St, v, Bool(false)))
		}
		return os, true
	case "Range":
		st.Emit(&Event{Kind: "dict.range", Args: []*Term{d}, Pos: cc.Pos, Fn: cc.In})
		f := args[0]
		return e.Iterate(cc, "range", d, func(s *State) []*Outcome {
			k := s.Fresh("key@"+cc.Site, emptyIface)
			v := Call("val", emptyIface, d, k)
			x := e.dict(s, d)
			x.cur = append(x.cur, dictEnt{k, true, v})
			x.init = append(x.init, dictEnt{k, true, v})
			if e.DictInit != nil {
				if as := e.DictInit(s, d, k, emptyIface); as != nil {
					var os []*Outcome
					for _, a := range as {
						if !a.Present {
							continue
						}
						s2 := s.Clone()
						ok := true
						for _, c := range a.Assume {
							ok = ok && s2.Assume(c, true)
						}
						if !ok {
							continue
						}
						y := e.dict(s2, d)
						i := find(y.cur, k)
						y.cur[i].val = a.Val
						y.init[find(y.init, k)].val = a.Val
						e.seed(s2, d, k, a)
						s2.Emit(&Event{Kind: "range.next", Args: []*Term{d, k, a.Val}, Pos: cc.Pos, Fn: cc.In})
						os = append(os, e.applyFn(cc, f, []*Term{k, a.Val}, s2)...)
					}
					return os
				}
			}
			s.Emit(&Event{Kind: "range.next", Args: []*Term{d, k, v}, Pos: cc.Pos, Fn: cc.In})
			return e.applyFn(cc, f, []*Term{k, v}, s)
		}), true
	case "Clear":
		x := e.dict(st, d)
		x.cur = nil
		x.cleared = true
		st.Emit(&Event{Kind: "dict.clear", Args: []*Term{d}, Pos: cc.Pos, Fn: cc.In})
		return []*Outcome{ret(st)}, true
	case "CompareAndSwap", "CompareAndDelete":
		return nil, false
	}
	return nil, false
}

// dictPeek resolves presence of k without emitting a read.
func (e *Engine) dictPeek(st *State, d, k *Term) []DictRes {
	save := st.ev
	rs := e.dictLoad(st, d, k, emptyIface, token.NoPos, nil)
	for _, r := range rs {
		r.St.ev = save
	}
	return rs
}

func (e *Engine) applyFn(cc *CallCtx, f *Term, args []*Term, s *State) []*Outcome {
	c2 := *cc
	c2.St = s
	c2.Args = args
	c2.Site = cc.Site + "/cb"
	if f.Op == OFunc && f.Fn != nil {
		c2.Sig = f.Fn.Signature
		return e.callFn(&c2, f.Fn, f.Args, false)
	}
	return e.unknownFn(&c2, f)
}

// dictInvoke recognises dictionary-shaped interfaces.
func (e *Engine) dictInvoke(cc *CallCtx, recv *Term, m *types.Func) ([]*Outcome, bool) {
	it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil, false
	}
	has := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		has[it.Method(i).Name()] = true
	}
	if !(has["Load"] && has["Store"] && has["Delete"]) {
		return nil, false
	}
	return e.dictOp(cc, recv, m.Name(), cc.Args[1:])
}
