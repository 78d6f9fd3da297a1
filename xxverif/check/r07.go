package check

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
)

func chanElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func checkR07(w *World, r *Rep) {
	r.Explain = "The constructor is followed on every path that succeeds, and each goroutine it starts from the state it leaves. Channels closed by a goroutine: one goroutine only closes them, once, as its last act on them, started after the loader has returned, and nobody else sends on them. The applying goroutine is started before the loader fills the channel, never sends on a channel it receives from, and in every iteration of its loop waits for something that can still come: after a receive that found the channel closed nothing is applied, and the next iteration does not receive from that channel. Every send on and close of a message channel in the program lies in the loader or in the reading goroutine."
	x, ok := w.pipeline(r)
	if !ok {
		return
	}
	w.net(r)
	loader := w.method(r, "redis", "Replication", "Load")
	good, appliers, closers := 0, 0, 0
	for _, o := range x.start() {
		if _, ok := x.success(o); !ok {
			continue
		}
		good++
		r.Paths++
		where := facts(o.St)
		ws := x.workers(o)
		// who closes what
		var closer *worker
		var closed types.Type
		for _, k := range ws {
			if k.does(func(ev *ai.Event) bool { return ev.Kind == "close" && isMsgChan(ev.Args[0]) }) {
				if r.Check(closer == nil, "closed at most once", k.name, "closes the message channel, as %s does", nameOfWorker(closer)) {
					closer = k
				}
			}
		}
		if closer != nil {
			closers++
			for _, s := range closer.segs {
				for _, ev := range flat(s.evs) {
					if ev.Kind == "close" && isMsgChan(ev.Args[0]) {
						closed = chanElem(ev.Args[0].T)
					}
				}
			}
			x.closesOnce(closer)
			for _, k := range ws {
				if k != closer {
					r.Check(!k.reads(), "nothing is sent after the close", k.name, "sends on the message channel, which %s closes", closer.name)
				}
			}
		}
		// the order of construction
		evs := flat(o.St.Events())
		at := func(f func(ev *ai.Event) bool) int {
			for i, ev := range evs {
				if f(ev) {
					return i
				}
			}
			return -1
		}
		load := at(func(ev *ai.Event) bool { return ev.Kind == "load" })
		if !r.Check(load >= 0, "order", w.place(x.f), "reports success without having loaded the snapshot (path: %s)", where) {
			continue
		}
		for i, ev := range evs {
			if ev.Kind == "load" && i != load {
				r.Fail("order", w.place(x.f), "loads the snapshot twice (path: %s)", where)
			}
			if closer != nil && i > load && ev.Kind == "send" && carries(ev) {
				r.Fail("nothing is sent after the close", w.place(x.f), "sends a message itself at %s (path: %s)", w.Pos(ev.Pos), where)
			}
		}
		before := false
		for _, k := range ws {
			i := at(func(ev *ai.Event) bool { return ev == k.ev })
			if k.reads() || k == closer {
				r.Check(i > load, "order", w.place(x.f), "the reading goroutine is started at %s, before the loader is done with the channel (path: %s)", w.Pos(k.ev.Pos), where)
			}
			if k.applies() && k != closer {
				before = before || i < load
			}
		}
		r.Check(before, "the loader can always go on", w.place(x.f), "no goroutine that applies messages runs while the snapshot is loaded: a snapshot larger than the channel blocks the loader for ever (path: %s)", where)
		// goroutines are started once each
		for _, l := range loopsOf(o.St.Events()) {
			for _, b := range l.Backs {
				for _, ev := range flat(b.Events) {
					r.Check(ev.Kind != "go", "closed at most once", w.place(x.f), "starts %s in a loop", ev.Name)
				}
			}
		}
		// the applier, knowing which channels may turn out closed
		save := x.e.Closes
		x.e.Closes = func(ch *ai.Term) bool {
			el := chanElem(ch.T)
			return el == nil || closed != nil && types.Identical(el, closed)
		}
		same := false
		for _, k := range x.workers(o) {
			if !k.applies() {
				continue
			}
			appliers++
			x.applier(k)
			// on the channel the loader fills
			for _, ch := range k.channels() {
				for _, ev := range evs {
					if ev.Kind == "load" {
						su := x.T.Underlying().(*types.Struct)
						for i := 0; i < su.NumFields(); i++ {
							if f := o.St.Norm(ai.FieldOf(ev.Args[1], i, su.Field(i).Type())); f == ch && isMsgChan(f) {
								same = true
							}
						}
					}
				}
			}
		}
		r.Check(same, "the loader can always go on", w.place(x.f), "the channel the loader fills is not the one messages are applied from (path: %s)", where)
		x.e.Closes = save
	}
	r.Floor("successful constructions", good, 1)
	r.Floor("applying goroutines", appliers, 1)
	r.Note("%d of %d constructions have a goroutine that closes the message channel", closers, good)
	w.msgChannelUsers(r, loader, x)
}

func isMsgChan(ch *ai.Term) bool {
	el := chanElem(ch.T)
	return el != nil && isReplMsg(el)
}

func nameOfWorker(k *worker) string {
	if k == nil {
		return "nobody"
	}
	return k.name
}

// channels lists what the worker receives messages from, before its loops.
func (k *worker) channels() (out []*ai.Term) {
	seen := map[*ai.Term]bool{}
	for _, s := range k.segs {
		for _, ev := range s.evs {
			if ev.Kind != "recv" || !carries(ev) {
				continue
			}
			ch := ev.Args[0]
			if s.loop != nil {
				for _, v := range s.loop.Vars {
					if v.Sym == ch && v.Init != nil {
						ch = s.loop.Entry.Norm(v.Init)
					}
				}
			}
			if !seen[ch] {
				seen[ch] = true
				out = append(out, ch)
			}
		}
	}
	return out
}

// closesOnce: a close is the worker's last act on the channel.
func (x *construct) closesOnce(k *worker) {
	r := x.r
	for _, s := range k.segs {
		n := 0
		for _, ev := range flat(s.evs) {
			switch {
			case ev.Kind == "close" && isMsgChan(ev.Args[0]):
				n++
				r.Check(n == 1, "closed at most once", k.name, "closes the message channel twice, the second time at %s (path: %s)", x.w.Pos(ev.Pos), facts(s.st))
			case ev.Kind == "send" && carries(ev):
				r.Check(n == 0, "nothing is sent after the close", k.name, "sends on the message channel at %s after closing it (path: %s)", x.w.Pos(ev.Pos), facts(s.st))
			}
		}
		r.Check(n == 0 || s.loop == nil || last(s.loop, s.back), "nothing is sent after the close", k.name, "closes the message channel and goes on (path: %s)", facts(s.st))
	}
	// a loop left after a close in one of its iterations has been refused above
}

// applier checks the goroutine that applies messages.
func (x *construct) applier(k *worker) {
	w, r := x.w, x.r
	drains := map[types.Type]bool{}
	for _, s := range k.segs {
		for _, ev := range s.evs {
			if ev.Kind == "recv" {
				if el := chanElem(ev.Args[0].T); el != nil {
					drains[el] = true
				}
			}
		}
	}
	for _, s := range k.segs {
		r.Paths++
		where := facts(s.st)
		ended := false
		waits := false
		var shut []*ai.Term
		for i, ev := range s.evs {
			switch ev.Kind {
			case "send":
				mine := false
				for el := range drains {
					if c := chanElem(ev.Args[0].T); c == nil || types.Identical(c, el) {
						mine = true
					}
				}
				polled := i > 0 && s.evs[i-1].Kind == "select" && s.evs[i-1].Args[0] == ai.Bool(false)
				r.Check(!mine || polled, "the applier does not wait for itself", k.name, "sends at %s on a channel that only it drains (path: %s)", w.Pos(ev.Pos), where)
			case "deadlock", "lock.imbalance":
				r.Fail("the applier does not wait for itself", k.name, "%s at %s (path: %s)", ev.Kind, w.Pos(ev.Pos), where)
			case "select":
				waits = waits || ev.Args[0] == ai.Bool(true)
			case "block", "sleep":
				waits = true
			case "recv":
				if prev := i - 1; !(prev >= 0 && s.evs[prev].Kind == "select") {
					waits = true
				}
				if carries(ev) {
					ended = !ev.OK
				}
				if !ev.OK {
					shut = append(shut, ev.Args[0])
				}
			case "handle", "apply":
				r.Check(!ended, "no phantom messages", k.name, "applies a message at %s that a closed channel made up (path: %s)", w.Pos(ev.Pos), where)
			}
			if ev.Loop != nil {
				waits = waits || waitsInside(ev.Loop)
			}
		}
		if s.loop == nil || last(s.loop, s.back) {
			continue
		}
		if over(s.loop) != nil || s.loop.Over != nil {
			continue
		}
		r.Check(waits || w.spins(s.loop) == nil, "the applier does not spin", k.name, "an iteration of the loop at %s waits for nothing (path: %s)", w.Pos(s.loop.Pos), where)
		m := map[*ai.Term]*ai.Term{}
		for _, v := range s.loop.Vars {
			if s.back < len(v.Steps) && v.Steps[s.back] != nil {
				m[v.Sym] = s.st.Norm(v.Steps[s.back])
			}
		}
		for _, ch := range shut {
			next := s.st.Norm(ai.Subst(ch, m))
			r.Check(next.IsNil(), "the applier does not spin", k.name, "after the channel was found closed the loop at %s goes on receiving from it (path: %s)", w.Pos(s.loop.Pos), where)
		}
	}
	// something must be waited for in the end
	for _, o := range k.outs {
		r.Check(o.Kind != ai.Pan, "the applier lives on", k.name, "panics with %s at %s (path: %s)", o.Val, w.Pos(o.Pos), facts(o.St))
	}
}

func waitsInside(l *ai.LoopInfo) bool {
	for _, b := range l.Backs {
		ok := false
		for _, ev := range b.Events {
			ok = ok || ev.Kind == "select" && ev.Args[0] == ai.Bool(true) || ev.Kind == "recv" || ev.Kind == "sleep"
		}
		if !ok {
			return false
		}
	}
	return true
}

// msgChannelUsers finds every send on and close of a message channel in the
// program.
func (w *World) msgChannelUsers(r *Rep, loader *ssa.Function, x *construct) {
	loading, reading := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var add func(set map[*ssa.Function]bool, f *ssa.Function)
	add = func(set map[*ssa.Function]bool, f *ssa.Function) {
		if f == nil || set[f] || !w.E.Internal(f) {
			return
		}
		set[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					add(set, c.Common().StaticCallee())
				}
			}
		}
		for _, g := range f.AnonFuncs {
			add(set, g)
		}
	}
	add(loading, loader)
	for _, o := range x.start() {
		if _, ok := x.success(o); ok {
			for _, k := range x.workers(o) {
				if k.reads() {
					add(reading, k.ev.Raw[0].Fn)
				}
			}
			break
		}
	}
	sends, closes := 0, 0
	for _, f := range w.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ch, what := ssa.Value(nil), ""
				switch in := in.(type) {
				case *ssa.Send:
					ch, what = in.Chan, "sends on"
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly {
							ch, what = s.Chan, "sends on"
						}
					}
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						ch, what = in.Common().Args[0], "closes"
					}
				}
				if ch == nil {
					continue
				}
				el := chanElem(ch.Type())
				if el == nil || !isReplMsg(el) {
					continue
				}
				if what == "closes" {
					closes++
				} else {
					sends++
				}
				if what == "closes" {
					r.Check(reading[f] && !loading[f], "one owner of the message channel", w.place(f), "closes a message channel at %s; only the reading goroutine may", w.Pos(in.Pos()))
					continue
				}
				r.Check(loading[f] || reading[f], "one owner of the message channel", w.place(f), "%s a message channel at %s; only the loader and the reading goroutine may", what, w.Pos(in.Pos()))
			}
		}
	}
	r.Floor("sends of messages", sends, 2)
	r.Note("%d closes of message channels", closes)
}
