package check

import (
	"go/types"
	"strings"

	"xxverif/ai"
)

func init() {
	registry["K07"] = checkK07
	registry["K08"] = checkK08
	registry["K09"] = checkK09
	registry["K10"] = checkK10
	registry["K11"] = checkK11
	registry["K12"] = checkK12
}

// lenCell finds the field of a hash that HLEN returns (path from the hash), or
// reports that HLEN counts the fields itself.
func (cw *CW) lenCell() (path []int64, t types.Type, counted bool, bad string) {
	counted = true
	for _, run := range cw.Runs("HLen") {
		if run.O.Kind != ai.Ret || !live(run.Scen) || cw.scenKind(run.Scen) != "hash" {
			continue
		}
		he := ai.Sym("!he:"+keyOf(run.Args).String(), cw.HashT)
		rets, err := cw.split(run)
		if !err.IsNil() || len(rets) != 1 {
			return nil, nil, false, "HLEN fails on a live hash"
		}
		// counting loop?
		c := false
		for _, l := range loopsOf(run.O.St.Events()) {
			if over(l) != cw.heDict(keyOf(run.Args)) {
				continue
			}
			for _, v := range l.Vars {
				if v.Sym != rets[0] || v.Init == nil || v.Init.String() != "0" {
					continue
				}
				c = true
				for i, s := range v.Steps {
					d := l.Backs[i].St.Norm(ai.Sub(s, v.Sym))
					c = c && d.IsInt() && d.K == 1
				}
			}
			for _, ev := range flat(run.O.St.Events()) {
				if ev.Kind == "range.break" {
					c = false
				}
			}
		}
		if c {
			continue
		}
		counted = false
		var find func(a *ai.Term, at types.Type, p []int64) bool
		find = func(a *ai.Term, at types.Type, p []int64) bool {
			if su, ok := at.Underlying().(*types.Struct); ok {
				for i := 0; i < su.NumFields(); i++ {
					if find(ai.FieldAddr(a, i), su.Field(i).Type(), append(append([]int64{}, p...), int64(i))) {
						return true
					}
				}
				return false
			}
			if !ai.IsIntType(at) {
				return false
			}
			if cw.E.Load(cw.Base.Clone(), a, at) == rets[0] {
				path, t = p, at
				return true
			}
			return false
		}
		if !find(he, cw.HashT.Underlying().(*types.Pointer).Elem(), nil) {
			return nil, nil, false, "HLEN returns " + rets[0].String() + ", which is neither a field of the hash nor a count of its fields"
		}
	}
	return
}

// hashesOf lists the hashes a path knows: those present before and new ones.
func (cw *CW) hashesOf(st *ai.State) []*ai.Term {
	var hs []*ai.Term
	seen := map[*ai.Term]bool{}
	add := func(v *ai.Term) {
		if v != nil && v.Op == ai.OIface && types.Identical(v.T, cw.HashT) && !seen[v.Args[0]] {
			seen[v.Args[0]] = true
			hs = append(hs, v.Args[0])
		}
	}
	d := cw.cur(st, cw.Data)
	for _, k := range st.DictKeys(d) {
		_, has, v := st.DictCur(d, k)
		if has {
			add(v)
		}
		_, has, v = st.DictInit0(cw.Data.d, k)
		if has {
			add(v)
		}
	}
	return hs
}

func countOf(st *ai.State, d *ai.Term) *ai.Term {
	if c := st.Count[d]; c != nil {
		return st.Norm(c)
	}
	return ai.Int(0)
}

func checkK07(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "The cell HLEN returns is identified; on every path of every command, and in every loop iteration, the change of that cell for each hash equals the change in the number of keys of its field dictionary (a ghost counter of the analysis), new hashes starting at zero. The counts HSET, HSETNX, HMSET and HDEL return equal that change."
	path, t, counted, bad := cw.lenCell()
	if !r.Check(bad == "", "HLEN", cw.name("HLen"), "%s", bad) {
		return
	}
	n := 0
	for _, op := range sortedOps(cw.Ops) {
		name := cw.name(op)
		cw.each(r, []string{op}, func(run *Run) {
			st := run.O.St
			if !counted {
				for _, he := range cw.hashesOf(st) {
					n++
					cell := follow(he, path)
					now := st.Norm(cw.E.Load(st.Clone(), cell, t))
					var was *ai.Term = ai.Int(0)
					if he.Op != ai.OAlloc {
						was = cw.E.Load(cw.Base.Clone(), cell, t)
					}
					cnt := countOf(st, cw.dictOfHash(he))
					r.Check(zero0(st, ai.Sub(ai.Ring(ai.Sub(now, was)), ai.Ring(cnt))), "length equals fields", name, "[%s] the length of %s goes from %s to %s while its number of fields changes by %s (path: %s)", run.Scen, he, was, now, cnt, facts(st))
				}
			}
			sign := int64(0)
			switch op {
			case "HSet", "HSetNX", "HMSet":
				sign = 1
			case "HDel":
				sign = -1
			}
			if sign == 0 {
				return
			}
			rets, err := cw.split(run)
			if !err.IsNil() || len(rets) != 1 {
				return
			}
			cnt := ai.Int(0)
			for _, he := range cw.hashesOf(st) {
				cnt = ai.Add(cnt, countOf(st, cw.dictOfHash(he)))
			}
			r.Check(zero0(st, ai.Sub(ai.Ring(rets[0]), ai.Scale(ai.Ring(cnt), sign))), "count returned", name, "[%s] returns %s while the number of fields changes by %s (path: %s)", run.Scen, rets[0], cnt, facts(st))
		})
	}
	if counted {
		r.Note("HLEN counts the fields itself")
		return
	}
	r.Floor("hashes examined", n, 100)
}

func (cw *CW) dictOfHash(he *ai.Term) *ai.Term {
	d := he
	for _, i := range cw.HPath {
		d = ai.FieldAddr(d, i)
	}
	return d
}

func isNumeric(t types.Type, float bool) bool {
	b, ok := t.(*types.Basic)
	return ok && (b.Info()&types.IsInteger != 0 || float && b.Info()&types.IsFloat != 0)
}

func (cw *CW) typeNamed(ts []types.Type, name string) types.Type {
	for _, t := range ts {
		if shortType(t) == name {
			return t
		}
	}
	return nil
}

func checkK08(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Each increment command is interpreted on every scenario: on success the result equals the previous number plus (minus) the amount (zero for an absent key or field), and GET (HGET) interpreted on the resulting state returns that result in decimal; on error nothing changes; on a live number of the matching kind it never errors."
	type inc struct {
		op    string
		float bool
		hash  bool
		amt   func(args []*ai.Term) *ai.Term
	}
	n := 0
	for _, x := range []inc{
		{"Incr", false, false, func([]*ai.Term) *ai.Term { return ai.Int(1) }},
		{"Decr", false, false, func([]*ai.Term) *ai.Term { return ai.Int(-1) }},
		{"IncrBy", false, false, func(a []*ai.Term) *ai.Term { return a[2] }},
		{"DecrBy", false, false, func(a []*ai.Term) *ai.Term { return ai.Scale(a[2], -1) }},
		{"IncrByFloat", true, false, func(a []*ai.Term) *ai.Term { return a[2] }},
		{"HIncrBy", false, true, func(a []*ai.Term) *ai.Term { return a[3] }},
		{"HIncrByFloat", true, true, func(a []*ai.Term) *ai.Term { return a[3] }},
	} {
		name := cw.name(x.op)
		cw.each(r, []string{x.op}, func(run *Run) {
			st := run.O.St
			rets, err := cw.split(run)
			if len(rets) != 1 {
				r.Fail("result", name, "no number is returned")
				return
			}
			// the previous number, if the scenario has one
			var old *ai.Term
			var oldT types.Type
			absent := !live(run.Scen)
			numeric := false
			ctx := run.Scen
			if x.hash {
				f := ai.IfaceOf(stringType, run.Args[2])
				if live(run.Scen) && cw.scenKind(run.Scen) == "hash" {
					tag := st.Tags[f]
					ctx += " " + tag
					if tag == "nofield" {
						absent = true
					} else if strings.HasPrefix(tag, "field:") {
						oldT = cw.typeNamed(cw.FVals, scenType(tag))
						old = cw.fieldSym(cw.heDict(keyOf(run.Args)), f, scenType(tag))
					}
				}
			} else if live(run.Scen) {
				oldT = cw.typeNamed(cw.Vals, scenType(run.Scen))
				old = cw.oldVal(keyOf(run.Args), oldT).Args[0]
			}
			if oldT != nil {
				numeric = isNumeric(oldT, x.float)
			}
			n++
			if !err.IsNil() {
				r.Check(!(numeric || absent), "increments numbers", name, "[%s] fails with %s (path: %s)", ctx, err, facts(st))
				cw.unchangedValue(r, name, run)
				return
			}
			if !absent && !numeric {
				// a number kept as text: only consistency is required
				if b, ok := oldT.(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					r.Fail("increments numbers", name, "[%s] succeeds on a value that is no number (path: %s)", ctx, facts(st))
					return
				}
			}
			amt := x.amt(run.Args)
			ret := rets[0]
			var want *ai.Term
			switch {
			case absent:
				want = amt
			case numeric && x.float:
				o := old
				if isNumeric(oldT, false) {
					o = ai.I2F(old)
				}
				want = ai.FAdd(o, amt)
			case numeric:
				want = ai.Add(old, amt)
			case decided(st, ai.Eq(old, ai.Str("")), true):
				want = amt
			default:
				// a number kept as text: the result is made of what the text says
				from := false
				ai.Walk(st.Norm(ret), func(t *ai.Term) bool {
					from = from || t == old
					return !from
				})
				if !from {
					r.Fail("increments numbers", name, "[%s] succeeds with %s, whatever the text holds (path: %s)", ctx, ret, facts(st))
					return
				}
			}
			if want != nil {
				same := st.Norm(ret) == st.Norm(want)
				if !same && !x.float {
					d := st.Norm(ai.Sub(ai.Ring(ret), ai.Ring(want)))
					same = d.IsInt() && d.K == 0
				}
				r.Check(same, "result", name, "[%s] returns %s instead of %s (path: %s)", ctx, ret, want, facts(st))
			}
			// what was stored reads back as the number returned
			var txt *ai.Term
			if x.float {
				txt = ai.Ftoa(ret, "102:-1:64")
			} else {
				txt = ai.Itoa(ret)
			}
			if x.hash {
				cw.readBack(r, "stored", name, "["+ctx+"]", st, "HGet", txt, run.Args[1], run.Args[2])
			} else {
				cw.readBack(r, "stored", name, "["+ctx+"]", st, "Get", txt, run.Args[1])
			}
		})
	}
	r.Floor("increment paths", n, 150)
}

// unchangedValue: after a refused increment no value differs (creating an empty
// hash for the key is invisible and allowed).
func (cw *CW) unchangedValue(r *Rep, name string, run *Run) {
	st := run.O.St
	for _, pt := range cw.points(run) {
		for _, kp := range cw.keyPoints(pt) {
			if live(kp.scen) {
				r.Check(kp.ks.dataSame(kp.st), "errors change nothing", name, "[%s] %s (path: %s)", kp.scen, kp.ks, facts(kp.st))
			}
		}
	}
	for _, ev := range flat(st.Events()) {
		if (ev.Kind == "dict.store" || ev.Kind == "dict.delete") && cw.isHash(ev.Args[0]) && ai.Root(ev.Args[0]).Op != ai.OAlloc {
			// allowed only if it puts back what was there
			d, k := ev.Args[0], ev.Args[1]
			_, h0, v0 := st.DictInit0(d, k)
			_, h1, v1 := st.DictCur(d, k)
			r.Check(h0 == h1 && (!h0 || same(st, v0, v1)), "errors change nothing", name, "[%s] a refused increment writes the field at %s (path: %s)", run.Scen, cw.W.Pos(ev.Pos), facts(st))
		}
	}
}

func checkK09(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "SETNX, MSETNX and HSETNX on every scenario: a live key (present field) keeps its value and deadline and is not counted; an absent or expired one reads back as the argument and is counted once."
	n := 0
	cw.each(r, []string{"SetNX"}, func(run *Run) {
		name := cw.name("SetNX")
		rets, err := cw.split(run)
		ks := cw.look(run.O.St, keyOf(run.Args))
		r.Check(err.IsNil(), "result", name, "[%s] fails with %s", run.Scen, err)
		n++
		if live(run.Scen) {
			r.Check(ks.dataSame(run.O.St) && ks.expSame(run.O.St), "live value kept", name, "[%s] %s (path: %s)", run.Scen, ks, facts(run.O.St))
			r.Check(len(rets) == 1 && rets[0].String() == "0", "count", name, "[%s] returns %v though nothing was stored", run.Scen, rets)
			return
		}
		cw.readBack(r, "absent stored", name, "["+run.Scen+"]", run.O.St, "Get", run.Args[2], run.Args[1])
		r.Check(len(rets) == 1 && rets[0].String() == "1", "count", name, "[%s] returns %v though the key was stored", run.Scen, rets)
	})
	cw.each(r, []string{"HSetNX"}, func(run *Run) {
		name := cw.name("HSetNX")
		rets, err := cw.split(run)
		st := run.O.St
		if live(run.Scen) && cw.scenKind(run.Scen) != "hash" {
			return
		}
		r.Check(err.IsNil(), "result", name, "[%s] fails with %s", run.Scen, err)
		n++
		f := ai.IfaceOf(stringType, run.Args[2])
		if live(run.Scen) && strings.HasPrefix(st.Tags[f], "field:") {
			d := cw.heDict(keyOf(run.Args))
			_, h0, v0 := st.DictInit0(d, f)
			k1, h1, v1 := st.DictCur(d, f)
			r.Check(k1 && h0 && h1 && same(st, v0, v1), "live value kept", name, "[%s %s] the field becomes %v (path: %s)", run.Scen, st.Tags[f], v1, facts(st))
			r.Check(len(rets) == 1 && rets[0].String() == "0", "count", name, "[%s] returns %v though nothing was stored", run.Scen, rets)
			return
		}
		cw.readBack(r, "absent stored", name, "["+run.Scen+"]", st, "HGet", run.Args[3], run.Args[1], run.Args[2])
		r.Check(len(rets) == 1 && rets[0].String() == "1", "count", name, "[%s] returns %v though the field was stored", run.Scen, rets)
	})
	cw.each(r, []string{"MSetNX"}, func(run *Run) {
		name := cw.name("MSetNX")
		rets, _ := cw.split(run)
		m := run.Args[1]
		if l := wholeLoop(r, name, run, m); l != nil {
			var cnt *ai.LoopVar
			for _, v := range l.Vars {
				if len(rets) == 1 && v.Sym == rets[0] {
					cnt = v
				}
			}
			r.Check(cnt != nil && cnt.Init != nil && cnt.Init.String() == "0", "count", name, "the result %v does not count the keys stored", rets)
			for i, it := range l.Backs {
				k, v := rangePair(it, m)
				if k == nil {
					r.Fail("undecided", name, "an iteration without key and value")
					continue
				}
				ki := ai.IfaceOf(stringType, k)
				tag := it.St.Tags[ki]
				n++
				ks := cw.look(it.St, ki)
				step := int64(1)
				if live(tag) {
					step = 0
					r.Check(ks.dataSame(it.St) && ks.expSame(it.St), "live value kept", name, "[%s] %s", tag, ks)
				} else if tag == "" {
					r.Fail("live value kept", name, "a key is written without looking whether it is present")
					continue
				} else {
					cw.readBack(r, "absent stored", name, "["+tag+"]", it.St, "Get", v, k)
				}
				if cnt != nil {
					d := it.St.Norm(ai.Sub(cnt.Steps[i], cnt.Sym))
					r.Check(d.IsInt() && d.K == step, "count", name, "[%s] the count grows by %s instead of %d", tag, d, step)
				}
			}
		}
	})
	r.Floor("paths and iterations", n, 60)
}

func checkK10(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Every path and loop iteration of every read command: each live key has the value and deadline it began with, no key appears, no field of a live hash and no memory reachable from the cache is written."
	n := 0
	cw.each(r, opsWhere(func(op, _ string) bool { return readOps[op] }), func(run *Run) {
		n++
		cw.unchanged(r, "read changes nothing", cw.name(run.Op), run)
	})
	r.Floor("read paths", n, 150)
}

func checkK11(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "HKEYS, HVALS and HGETALL on a live hash are one complete loop over its field dictionary in which every iteration adds exactly that field's name, value or both, starting from nothing; HMGET is one complete loop over the requested fields in which each iteration fills its own slot with HGET's value or the nil error. On an absent key the results are empty or all nil."
	ftext := cw.fieldText()
	n := 0
	for _, op := range []string{"HKeys", "HVals", "HGetAll"} {
		name := cw.name(op)
		cw.each(r, []string{op}, func(run *Run) {
			rets, err := cw.split(run)
			st := run.O.St
			if live(run.Scen) && cw.scenKind(run.Scen) != "hash" || len(rets) != 1 {
				return
			}
			n++
			if !r.Check(err.IsNil(), "no error", name, "[%s] fails with %s", run.Scen, err) {
				return
			}
			res := rets[0]
			if !live(run.Scen) {
				if op == "HGetAll" {
					r.Check(res.IsNil() || res.Op == ai.OAlloc && len(st.DictKeys(res)) == 0, "absent is empty", name, "[%s] returns %s", run.Scen, res)
				} else {
					l := st.Norm(cw.E.LenOf(st, res))
					r.Check(res.IsNil() || l.IsInt() && l.K == 0, "absent is empty", name, "[%s] returns %s", run.Scen, res)
				}
				return
			}
			d := cw.heDict(keyOf(run.Args))
			var loop *ai.LoopInfo
			loops := 0
			for _, l := range loopsOf(st.Events()) {
				if over(l) == d {
					loop = l
					loops++
				}
			}
			if !r.Check(loops == 1, "every field", name, "%d loops over the fields of the hash, not one", loops) {
				return
			}
			r.Check(wholeRange(st.Events(), loop), "every field", name, "the loop over the fields can stop early (path: %s)", facts(st))
			content := st.Norm(cw.E.Content(st, res))
			for i, it := range loop.Backs {
				k, v := nextPair(it, d)
				if k == nil {
					r.Fail("undecided", name, "an iteration without field and value")
					continue
				}
				n++
				name1 := it.St.Norm(ai.Unwrap(k, stringType))
				t := scenType(it.St.Tags[k])
				txt := cw.fieldTextAt(ftext, t, cw.fieldSym(d, k, t))
				if txt != nil {
					txt = it.St.Norm(txt)
				}
				_ = v
				if op == "HGetAll" {
					known, has, got := it.St.DictCur(res, name1)
					if !known {
						known, has, got = it.St.DictCur(res, ai.IfaceOf(stringType, name1))
					}
					r.Check(known && has && got != nil && txt != nil && it.St.Norm(got) == txt, "every field", name, "[%s] the result for a field becomes %v instead of %v", it.St.Tags[k], got, txt)
					stores := 0
					for _, ev := range it.Events {
						if (ev.Kind == "dict.store" || ev.Kind == "dict.delete") && ev.Args[0] == res {
							stores++
						}
					}
					r.Check(stores == 1, "every field", name, "an iteration writes %d entries to the result", stores)
					continue
				}
				want := name1
				if op == "HVals" {
					want = txt
				}
				ok := false
				var got *ai.Term
				for _, lv := range loop.Vars {
					if st.Norm(cw.E.Content(st, lv.Sym)) != content && lv.Sym != content {
						continue
					}
					got = it.St.Norm(lv.Steps[i])
					empty := lv.Init != nil && (lv.Init.IsNil() || lv.Init.IsConstStr() && lv.Init.S == "" || ai.Len(lv.Init).String() == "0")
					ok = empty && got.Op == ai.OCat && len(got.Args) == 2 && got.Args[0] == lv.Sym && got.Args[1].Op == ai.OUnit && want != nil && it.St.Norm(got.Args[1].Args[0]) == want
				}
				r.Check(ok, "every field", name, "[%s] an iteration turns the result into %v instead of adding %v", it.St.Tags[k], got, want)
			}
		})
	}
	cw.each(r, []string{"HMGet"}, func(run *Run) {
		name := cw.name("HMGet")
		rets, err := cw.split(run)
		st := run.O.St
		if live(run.Scen) && cw.scenKind(run.Scen) != "hash" || len(rets) != 1 {
			return
		}
		n++
		if !r.Check(err.IsNil(), "no error", name, "[%s] fails with %s", run.Scen, err) {
			return
		}
		fields := run.Args[2]
		loops := 0
		for _, l := range loopsOf(st.Events()) {
			idx := indexVar(l)
			if idx == nil {
				continue
			}
			loops++
			r.Check(finished(st, l, idx, ai.Len(fields)), "every slot", name, "[%s] the loop over the requested fields can stop early (path: %s)", run.Scen, facts(st))
			for i, it := range l.Backs {
				pos := cur(it.St, l, idx)
				f := ai.IfaceOf(stringType, it.St.Norm(cw.E.Load(it.St.Clone(), ai.IndexAddr(fields, pos), stringType)))
				tag := it.St.Tags[f]
				want := cw.Nil
				if live(run.Scen) {
					if tag == "" {
						r.Fail("every slot", name, "[%s] a slot is filled without looking up its field (iteration for position %s)", run.Scen, pos)
						continue
					}
					if t := scenType(tag); t != "" {
						x := cw.fieldTextAt(ftext, t, cw.fieldSym(cw.heDict(keyOf(run.Args)), f, t))
						if x != nil {
							want = it.St.Norm(ai.IfaceOf(stringType, x))
						}
					}
				}
				n++
				at, slot, ok := slotOf(l, i)
				r.Check(ok && slot == want && zero0(it.St, ai.Sub(at, pos), l), "every slot", name, "[%s %s] position %v receives %v instead of %v at %s", run.Scen, tag, at, slot, want, pos)
			}
			ln := st.Norm(cw.E.LenOf(st, rets[0]))
			r.Check(zero0(st, ai.Sub(ln, ai.Len(fields))) || grown(st, l, ln, idx), "every slot", name, "[%s] the result has %s slots", run.Scen, ln)
		}
		r.Check(loops == 1, "every slot", name, "%d loops over the requested fields, not one (path: %s)", loops, facts(st))
	})
	r.Floor("paths and iterations", n, 40)
}

// nextPair is the key and value of an iteration over dictionary d.
func nextPair(it *ai.Iter, d *ai.Term) (k, v *ai.Term) {
	for _, ev := range it.Events {
		if ev.Kind == "range.next" && ev.Args[0] == d {
			return ev.Args[1], ev.Args[2]
		}
	}
	return nil, nil
}

// counts: a variable of the program, or the position of one that loses its
// front.
func counts(v *ai.LoopVar) bool {
	return strings.HasPrefix(v.What, "phi") || strings.HasPrefix(v.What, "mem") || strings.HasPrefix(v.What, "pos:")
}

// indexVar is the counter of a loop: a number that starts at -1 or 0 and grows
// by one, the length of what grows from nothing by one element, or how far a
// number has been counted down.
func indexVar(l *ai.LoopInfo) *ai.LoopVar {
	for _, v := range l.Vars {
		if v.Init == nil || !v.Init.IsInt() || v.Init.K != 0 && v.Init.K != -1 || !ai.IsIntType(v.Sym.T) || !counts(v) {
			continue
		}
		ok := len(v.Steps) > 0
		for i, s := range v.Steps {
			d := l.Backs[i].St.Norm(ai.Sub(s, v.Sym))
			ok = ok && d.IsInt() && d.K == 1
		}
		if ok {
			return v
		}
	}
	for _, v := range l.Vars {
		if v.Sym.T == nil || v.Init == nil {
			continue
		}
		if _, ok := v.Sym.T.Underlying().(*types.Slice); !ok || ai.Len(v.Init).String() != "0" {
			continue
		}
		ok := len(v.Steps) > 0
		for i, s := range v.Steps {
			x := l.Backs[i].St.Norm(s)
			ok = ok && x.Op == ai.OCat && len(x.Args) == 2 && x.Args[0] == v.Sym && x.Args[1].Op == ai.OUnit
		}
		if ok {
			return &ai.LoopVar{Sym: ai.Len(v.Sym), Init: ai.Int(0), What: "len"}
		}
	}
	for _, v := range l.Vars {
		if v.Init == nil || !ai.IsIntType(v.Sym.T) || !counts(v) {
			continue
		}
		ok := len(v.Steps) > 0
		for i, s := range v.Steps {
			d := l.Backs[i].St.Norm(ai.Sub(s, v.Sym))
			ok = ok && d.IsInt() && d.K == -1
		}
		if ok {
			return &ai.LoopVar{Sym: ai.Sub(v.Init, v.Sym), Init: ai.Int(0), What: "down"}
		}
	}
	return nil
}

// cur is the position an iteration works on.
func cur(st *ai.State, l *ai.LoopInfo, idx *ai.LoopVar) *ai.Term {
	return ai.AddK(idx.Sym, -idx.Init.K)
}

// finished: when the path leaves the loop, every position below n was visited.
func finished(st *ai.State, l *ai.LoopInfo, idx *ai.LoopVar, n *ai.Term) bool {
	d := ai.Sub(n, ai.AddK(idx.Sym, -idx.Init.K))
	return st.EntailsLe0(d) || withInvariants(st).EntailsLe0(d)
}

// grown: the length follows the counter by an invariant and the loop finished.
func grown(st *ai.State, l *ai.LoopInfo, ln *ai.Term, idx *ai.LoopVar) bool {
	for i, v := range l.Vars {
		_ = i
		if ln != ai.Len(v.Sym) || v.Init == nil || ai.Len(v.Init).String() != "0" {
			continue
		}
		ok := true
		for j, s := range v.Steps {
			x := l.Backs[j].St.Norm(s)
			ok = ok && x.Op == ai.OCat && len(x.Args) == 2 && x.Args[0] == v.Sym && x.Args[1].Op == ai.OUnit
		}
		if ok {
			return true
		}
	}
	return false
}

func checkK12(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Every operation that can panic (index, slice, division, type assertion, nil dereference, explicit panic, allocation size) on every path of every exported command except the declared list stubs is proved safe from the path condition."
	paths := 0
	for _, op := range sortedOps(cw.Ops) {
		name := cw.name(op)
		for _, run := range cw.Runs(op) {
			paths++
			if run.O.Kind == ai.Stuck {
				cw.decided(r, run)
				continue
			}
			r.Check(run.O.Kind == ai.Ret, "no panic", name, "[%s] %s: %v at %s (path: %s)", run.Scen, run.O.Kind, run.O.Val, w.Pos(run.O.Pos), facts(run.O.St))
			evs, sts := withStates(run.O.St, run.O.St.Events())
			for i, ev := range evs {
				if ev.Kind == "makeslice" {
					n := sts[i].Norm(ev.Args[0])
					r.Check(lengthOnly(n) || sts[i].EntailsLe0(ai.AddK(n, -(1<<40))), "no panic", name, "[%s] the length %s of an allocation at %s has no bound (path: %s)", run.Scen, n, w.Pos(ev.Pos), facts(sts[i]))
				}
				if ev.Kind == "maypanic" || ev.Kind == "panic" {
					r.Fail("no panic", name, "[%s] %s at %s is not shown safe: %v (path: %s)", run.Scen, ev.Name, w.Pos(ev.Pos), ev.Args, facts(sts[i]))
				}
			}
		}
	}
	r.Floor("paths", paths, 1000)
	r.Floor("commands", len(cw.Ops), 38)
}

// lengthOnly: the number is built from lengths of existing data only.
func lengthOnly(n *ai.Term) bool {
	ok := true
	ai.Walk(n, func(t *ai.Term) bool {
		if t.Op == ai.OLen {
			return false
		}
		if t.Op == ai.OSym || t.Op == ai.OCall {
			ok = false
		}
		return ok
	})
	return ok
}
