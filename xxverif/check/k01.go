package check

import (
	"go/types"
	"strings"

	"xxverif/ai"
)

func init() { registry["K01"] = checkK01 }

// access is one access to state shared between goroutines.
type access struct {
	ev    *ai.Event
	where string // field path of a memory cell, or "dict"
	write bool
	st    *ai.State
}

// sharedRoot: the object is reachable from the cache before the command starts.
func (cw *CW) sharedRoot(a *ai.Term) bool {
	r := ai.Root(a)
	if r == cw.C || cw.Field[r] != 0 {
		return true
	}
	if _, ok := cw.Field[r]; ok {
		return true
	}
	return r.Op == ai.OSym && strings.HasPrefix(r.S, "!") || r.Op == ai.OCall && strings.HasPrefix(r.S, "!") || r.Op == ai.OGlobal
}

func cellPath(a *ai.Term) string {
	var p string
	for a.Op == ai.OField || a.Op == ai.OIndex {
		if a.Op == ai.OField {
			p = "." + itoa(int(a.K)) + p
		} else {
			p = "[]" + p
		}
		a = a.Args[0]
	}
	t := a.T
	if t == nil {
		return a.String() + p
	}
	if a.Op == ai.OGlobal {
		return a.String() + p
	}
	return shortType(t) + p
}

func itoa(i int) string { return ai.Int(int64(i)).String() }

func (cw *CW) shared(evs []*ai.Event, st *ai.State) []access {
	var as []access
	for _, ev := range evs {
		switch ev.Kind {
		case "dict.load", "dict.range":
			if cw.sharedRoot(ev.Args[0]) {
				as = append(as, access{ev, "dict", false, st})
			}
		case "dict.store", "dict.delete", "dict.clear":
			if cw.sharedRoot(ev.Args[0]) {
				as = append(as, access{ev, "dict", true, st})
			}
		case "mem.load", "mem.store":
			if cw.sharedRoot(ev.Args[0]) {
				as = append(as, access{ev, cellPath(ev.Args[0]), ev.Kind == "mem.store", st})
			}
		}
	}
	return as
}

// harmless: removing an entry that is expired or not there, from a dictionary
// that tolerates concurrent readers.
func (cw *CW) harmless(a access) bool {
	if a.ev.Kind != "dict.delete" {
		return false
	}
	d, k := a.ev.Args[0], a.ev.Args[1]
	if _, isMap := d.T.(*types.Map); isMap || d.Op == ai.OSym && d.T != nil && isMapType(d.T) {
		return false
	}
	if cw.isHash(d) {
		return false
	}
	tag := a.st.Tags[k]
	return tag == "absent" || strings.HasPrefix(tag, "expired")
}

func isMapType(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func heldLocks(s string) map[string]bool {
	m := map[string]bool{}
	if s == "" {
		return m
	}
	for _, x := range strings.Split(s, ",") {
		m[strings.TrimSuffix(strings.TrimSuffix(x, ":W"), ":R")] = strings.HasSuffix(x, ":W")
	}
	return m
}

type lockRun struct {
	name  string
	op    string
	st    *ai.State
	evs   []*ai.Event
	pass  bool // an iteration of a background loop
	outer bool // a complete command
}

// stateOf pairs the events of a path with the state that knows their tags.
func withStates(st *ai.State, evs []*ai.Event) (out []*ai.Event, sts []*ai.State) {
	seen := map[*ai.LoopInfo]bool{}
	var w func(st *ai.State, evs []*ai.Event)
	w = func(st *ai.State, evs []*ai.Event) {
		for _, ev := range evs {
			out = append(out, ev)
			sts = append(sts, st)
			if ev.Loop != nil && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, b := range ev.Loop.Backs {
					w(b.St, b.Events)
				}
			}
		}
	}
	w(st, evs)
	return
}

func checkK01(w *World, r *Rep) {
	cw := w.cache(r)
	if cw == nil {
		return
	}
	r.Explain = "Every abstract path of every exported cache command and of every pass of the background sweep, from every scenario of its keys (absent, live without/with deadline, expired; every reachable kind of value): each access to a dictionary or field reachable from the cache happens with the one common lock held, in write mode unless it only reads or drops an expired/absent key; one uninterrupted lock interval covers all accesses of a command; the lock is free on every way out; no acquisition while it is held."
	var runs []lockRun
	for _, op := range sortedOps(cw.Ops) {
		for _, run := range cw.Runs(op) {
			if run.O.Kind == ai.Stuck {
				cw.decided(r, run)
				continue
			}
			runs = append(runs, lockRun{cw.name(op), op, run.O.St, run.O.St.Events(), false, true})
			// goroutines a command starts
			for _, ev := range flat(run.O.St.Events()) {
				if ev.Kind == "go" {
					runs = append(runs, cw.background(r, ev, run.O.St, cw.name(op))...)
				}
			}
		}
	}
	sweeps := 0
	if f := w.Method(cw.T, "Cron"); f != nil {
		for _, o := range cw.E.Run(f, []*ai.Term{cw.C}, cw.Base.Clone()) {
			for _, ev := range flat(o.St.Events()) {
				if ev.Kind == "go" {
					bs := cw.background(r, ev, o.St, w.fnName(f))
					sweeps += len(bs)
					runs = append(runs, bs...)
				}
			}
		}
	}
	r.Floor("passes of the background sweep", sweeps, 1)
	// cells some command writes
	written := map[string]bool{}
	for _, x := range runs {
		evs, sts := withStates(x.st, x.evs)
		for i, ev := range evs {
			for _, a := range cw.shared([]*ai.Event{ev}, sts[i]) {
				if a.write {
					written[a.where] = true
				}
			}
		}
	}
	// the lock: the one held at the most accesses of written cells
	votes := map[string]int{}
	for _, x := range runs {
		for _, a := range cw.shared(flat(x.evs), x.st) {
			for l := range heldLocks(a.ev.Locks) {
				votes[l]++
			}
		}
	}
	lock := ""
	for l, n := range votes {
		if lock == "" || n > votes[lock] || n == votes[lock] && l < lock {
			lock = l
		}
	}
	r.Note("the cache's single lock is %s", lock)
	if !r.Check(lock != "", "lock", "cache.Cache", "no lock is held at any access") {
		return
	}
	ops := map[string]bool{}
	accs := 0
	for _, x := range runs {
		evs, sts := withStates(x.st, x.evs)
		epoch, first := 0, -1
		any := false
		for i, ev := range evs {
			switch ev.Kind {
			case "lock", "rlock":
				if ev.Args[0].String() == lock {
					epoch++
				}
			case "deadlock":
				r.Fail("self-deadlock", x.name, "acquires the lock while already holding it at %s", w.Pos(ev.Pos))
			case "badunlock":
				r.Fail("unlock", x.name, "releases a lock it does not hold in that mode at %s", w.Pos(ev.Pos))
			case "lock.imbalance":
				r.Fail("unlock", x.name, "a loop iteration ends with another lock state than it began with at %s", w.Pos(ev.Pos))
			}
			if ev.Kind == "recv" || ev.Kind == "send" || ev.Kind == "sleep" || ev.Kind == "select" || ev.Kind == "block" {
				_, held := heldLocks(ev.Locks)[lock]
				r.Check(!held, "blocking", x.name, "waits (%s) with the lock held at %s", ev.Kind, w.Pos(ev.Pos))
			}
			for _, a := range cw.shared([]*ai.Event{ev}, sts[i]) {
				if a.where != "dict" && !written[a.where] {
					continue
				}
				any = true
				accs++
				mode, held := heldLocks(ev.Locks)[lock]
				need := a.write && !cw.harmless(a)
				r.Check(held, "lock held", x.name, "%s at %s without the lock (path: %s)", describeAccess(a), w.Pos(ev.Pos), facts(sts[i]))
				if held && need {
					r.Check(mode, "write lock", x.name, "%s at %s with the lock held only for reading (path: %s)", describeAccess(a), w.Pos(ev.Pos), facts(sts[i]))
				}
				if first < 0 {
					first = epoch
				} else {
					r.Check(first == epoch, "one critical section", x.name, "the lock is released and taken again between accesses, at %s (path: %s)", w.Pos(ev.Pos), facts(sts[i]))
				}
			}
		}
		if any && x.outer {
			ops[x.op] = true
		}
		r.Check(x.st.Locks[lockTerm(x.evs, lock)] == 0, "released", x.name, "the lock is still held on a way out (path: %s)", facts(x.st))
	}
	r.Floor("commands with shared accesses", len(ops), 38)
	r.Floor("shared accesses", accs, 500)
}

func lockTerm(evs []*ai.Event, lock string) *ai.Term {
	for _, ev := range flat(evs) {
		if (ev.Kind == "lock" || ev.Kind == "rlock") && ev.Args[0].String() == lock {
			return ev.Args[0]
		}
	}
	return nil
}

func describeAccess(a access) string {
	if a.where == "dict" {
		return a.ev.Kind + " " + a.ev.Args[0].String()
	}
	return a.ev.Kind + " " + a.where
}

// background interprets a started goroutine; each pass of an endless loop is a
// run of its own.
func (cw *CW) background(r *Rep, ev *ai.Event, at *ai.State, name string) []lockRun {
	st := started(at)
	var out []lockRun
	for _, o := range cw.E.RunClosure(ev.Args[0], ev.Args[1:], st, "go@"+name) {
		if o.Kind == ai.Stuck {
			r.Fail("undecided", name, "the analysis cannot follow the goroutine: %v", o.Val)
			continue
		}
		n := name + " goroutine " + strings.ReplaceAll(ev.Name, cw.W.Mod+"/", "")
		if o.Kind == ai.Exit && o.Val == ai.Diverges {
			// the endless loop is the last one; what precedes it is one run
			es := o.St.Events()
			for i := len(es) - 1; i >= 0; i-- {
				if es[i].Loop != nil {
					pre := es[:i]
					out = append(out, lockRun{n, "", es[i].Loop.Entry, pre, false, false})
					for _, b := range es[i].Loop.Backs {
						out = append(out, lockRun{n + " pass", "", b.St, b.Events, true, false})
					}
					break
				}
			}
			continue
		}
		out = append(out, lockRun{n, "", o.St, o.St.Events(), false, false})
	}
	return out
}

// started is the state a goroutine begins in: the memory of its creator, none
// of its locks.
func started(at *ai.State) *ai.State {
	st := at.Clone()
	st.ClearEvents()
	st.Locks = map[*ai.Term]int{}
	return st
}
