package check

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"xxverif/ai"
	"xxverif/cir"
)

func init() {
	registry["Z01"] = checkZ01
	registry["M03"] = checkM03
}

// cPackages are the packages that call C functions.
func (w *World) cPackages() []string {
	seen := map[string]bool{}
	for rel, p := range w.Pkgs {
		for name := range p.Members {
			if strings.HasPrefix(name, "_Cfunc_") {
				seen[rel] = true
			}
		}
	}
	var out []string
	for rel := range seen {
		out = append(out, rel)
	}
	sort.Strings(out)
	return out
}

var (
	cgoLine   = regexp.MustCompile(`(?m)^\s*(?://)?\s*#cgo\s+(?:[^:\n]*\s)?(?:CFLAGS|CPPFLAGS):\s*(.*)$`)
	anyCgo    = regexp.MustCompile(`(?m)^\s*#cgo.*$`)
	importC   = regexp.MustCompile(`(?m)^import\s+"C"`)
	lineStart = regexp.MustCompile(`(?m)^//`)
)

// cModule loads the C code of a package as cgo compiles it.
func (w *World) cModule(rel string) (*cir.Module, error) {
	dir := filepath.Join(w.Dir, rel)
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var flags []string
	pre := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		at := importC.FindIndex(b)
		if at == nil {
			continue
		}
		head := strings.TrimRight(string(b[:at[0]]), " \t\n")
		text := ""
		if strings.HasSuffix(head, "*/") {
			if i := strings.LastIndex(head, "/*"); i >= 0 {
				text = head[i+2 : len(head)-2]
			}
		} else {
			ls := strings.Split(head, "\n")
			i := len(ls)
			for i > 0 && strings.HasPrefix(ls[i-1], "//") {
				i--
			}
			text = lineStart.ReplaceAllString(strings.Join(ls[i:], "\n"), "")
		}
		for _, m := range cgoLine.FindAllStringSubmatch(text, -1) {
			flags = append(flags, strings.Fields(strings.ReplaceAll(m[1], "${SRCDIR}", dir))...)
		}
		pre += anyCgo.ReplaceAllString(text, "") + "\n"
	}
	return cir.Load(dir, flags, pre)
}

// A cCall is a call of a C function on a path of a Go function.
type cCall struct {
	w   *World
	m   *cir.Module
	rel string
	fn  *ssa.Function // what the path belongs to
	st  *ai.State
	ev  *ai.Event
	f   *cir.Func
	mem []int // for each argument: 1 if it is memory
}

func (c *cCall) place() string { return c.w.place(c.fn) }

// callOf prepares a call; it tells why it cannot be followed.
func (w *World) callOf(m *cir.Module, rel string, fn *ssa.Function, st *ai.State, ev *ai.Event) (*cCall, string) {
	c := &cCall{w: w, m: m, rel: rel, fn: fn, st: st, ev: ev, f: m.Funcs[ev.Name]}
	if c.f == nil {
		return nil, fmt.Sprintf("the C function %s is not in the package", ev.Name)
	}
	if len(c.f.Params) != len(ev.Args) || len(ev.Res) != len(ev.Args) {
		return nil, fmt.Sprintf("%s is called with %d arguments", ev.Name, len(ev.Args))
	}
	arrays := map[*ai.Term]bool{}
	for i, a := range ev.Args {
		isMem := 0
		if c.f.Params[i].Type == "ptr" {
			p := ai.Pointed(a)
			if p == nil {
				return nil, fmt.Sprintf("argument %d of %s is a pointer to unknown memory", i+1, ev.Name)
			}
			if arrays[p.Args[0]] {
				return nil, fmt.Sprintf("%s is given the same memory twice", ev.Name)
			}
			arrays[p.Args[0]] = true
			isMem = 1
		}
		c.mem = append(c.mem, isMem)
	}
	return c, ""
}

// A relation between sizes and numbers given to a C function: a <= b + k,
// over their positions; -1 stands for zero.
type relation struct {
	a, b int
	k    int64
}

// relations are those that hold at the call.
func (c *cCall) relations() []relation {
	vals := make([]*ai.Term, len(c.ev.Args))
	for i := range vals {
		vals[i] = c.ev.Args[i]
		if c.mem[i] == 1 {
			vals[i] = ai.Len(c.ev.Res[i])
		}
		vals[i] = c.st.Norm(vals[i])
	}
	var out []relation
	for i, v := range vals {
		for k := int64(4); k >= 0; k-- {
			if c.st.ProvesLe0(ai.Sub(ai.Int(k), v)) {
				out = append(out, relation{-1, i, -k})
				break
			}
		}
		for j, u := range vals {
			if i == j {
				continue
			}
			if u == v || c.st.ProvesLe0(ai.Sub(v, u)) {
				out = append(out, relation{i, j, 0})
			}
		}
	}
	return out
}

// setting is the call as the C code sees it.
func (c *cCall) setting(rels []relation, in int) (*cir.Setting, []*cir.Obj, []cir.Lin) {
	s := cir.NewSetting(c.m)
	var objs []*cir.Obj
	var sizes []cir.Lin
	nth := 0
	for i, p := range c.f.Params {
		name := strings.TrimPrefix(p.Text, "%")
		if c.mem[i] == 1 {
			o := s.Mem(name, i == in)
			objs, sizes = append(objs, o), append(sizes, o.Size)
			nth++
			continue
		}
		objs = append(objs, nil)
		sizes = append(sizes, s.Int(name, cir.Width(p.Type)))
	}
	for _, r := range rels {
		a, b := cir.Konst(0), cir.Konst(0)
		if r.a >= 0 {
			a = sizes[r.a]
		}
		if r.b >= 0 {
			b = sizes[r.b]
		}
		s.AtMost(a, b, r.k)
	}
	return s, objs, sizes
}

// lastMem is the memory a function writes its result to: the last it is given.
func (c *cCall) lastMem() int {
	for i := len(c.mem) - 1; i >= 0; i-- {
		if c.mem[i] == 1 {
			return i
		}
	}
	return -1
}

// cCalls runs the exported functions of a package and gives the calls of C
// functions on their paths.
func (w *World) cCalls(r *Rep, rel string, m *cir.Module, each func(fn *ssa.Function, outs []*ai.Outcome, calls [][]*cCall)) {
	for _, f := range w.allFns() {
		if f.Pkg == nil || w.rel(f.Pkg.Pkg) != rel || f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
			continue
		}
		outs := w.run(r, f, w.symArgs(f), nil)
		var calls [][]*cCall
		for _, o := range outs {
			var cs []*cCall
			for _, ev := range flat(o.St.Events()) {
				if ev.Kind != "cgo" {
					continue
				}
				c, why := w.callOf(m, rel, f, o.St, ev)
				if r.Check(why == "", "undecided", w.place(f), "%s", why) {
					cs = append(cs, c)
				}
			}
			calls = append(calls, cs)
		}
		each(f, outs, calls)
	}
}

func checkZ01(w *World, r *Rep) {
	r.Explain = "Every C function of the packages that use cgo, in the settings in which the exported Go functions call it: for each call on each path of the Go functions, what is known there of the sizes of the buffers and the numbers passed. The C code is compiled to LLVM's intermediate representation with the package's own flags; every path is followed with linear facts about offsets and lengths, loops by inductive invariants (differences, bounds and sums of the variables they change, found by elimination). Every read and write must lie inside its memory, copies of memory must not overlap where that is not allowed, no unset variable may be used, and what is returned may not exceed the size of the output."
	n := 0
	for _, rel := range w.cPackages() {
		m, err := w.cModule(rel)
		if !r.Check(err == nil, "undecided", rel, "the C code cannot be loaded: %v", err) {
			continue
		}
		done := map[string]bool{}
		w.cCalls(r, rel, m, func(fn *ssa.Function, outs []*ai.Outcome, calls [][]*cCall) {
			for _, cs := range calls {
				for _, c := range cs {
					n++
					rels := c.relations()
					key := fmt.Sprint(c.ev.Name, c.mem, rels)
					if done[key] {
						continue
					}
					done[key] = true
					c.bounds(r, rels)
				}
			}
			for _, o := range outs {
				w.cPanics(r, fn, o)
			}
		})
	}
	r.Floor("calls of C functions", n, 2)
	w.decompressed(r, false)
}

// cPanics checks that the Go side of a call does not panic.
func (w *World) cPanics(r *Rep, fn *ssa.Function, o *ai.Outcome) {
	for _, ev := range flat(o.St.Events()) {
		if ev.Kind != "maypanic" || len(ev.Args) == 0 {
			continue
		}
		// what the C function returns is at most the size of its last buffer
		st := o.St.Clone()
		ok := false
		for _, c := range flat(st.Events()) {
			if c.Kind != "cgo" {
				continue
			}
			for i := len(c.Args) - 1; i >= 0; i-- {
				if ai.Pointed(c.Args[i]) == nil {
					continue
				}
				ret := ai.Call("cret:"+c.Name, nil, c.Args...)
				ai.Walk(ev.Args[0], func(t *ai.Term) bool {
					if t.Op == ai.OCall && t.S == ret.S && len(t.Args) == len(c.Args) && identical(t.Args, c.Args) {
						if !st.Assume(ai.Le(t, ai.Len(c.Res[i])), true) {
							ok = true
						}
					}
					return true
				})
				break
			}
		}
		ok = ok || st.Norm(ev.Args[0]) == ai.Bool(true) || !st.Assume(ev.Args[0], false)
		r.Check(ok, "panics", w.place(fn), "%s at %s is possible", ev.Name, w.Pos(ev.Pos))
	}
}

func identical(a, b []*ai.Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bounds follows the C function in one setting.
func (c *cCall) bounds(r *Rep, rels []relation) {
	in := -1
	for i, m := range c.mem {
		if m == 1 && i != c.lastMem() {
			in = i
		}
	}
	for {
		s, objs, _ := c.setting(rels, in)
		var limit *cir.Obj
		if l := c.lastMem(); l >= 0 {
			limit = objs[l]
		}
		s.X.Analyse(c.f, s.St, s.Args, limit)
		writes := false
		for _, p := range s.X.Reports() {
			writes = writes || p.Kind == "fixed"
		}
		if writes && in >= 0 {
			in = -1 // it may be written: what is read there can change
			continue
		}
		for _, p := range s.X.Reports() {
			c.tell(r, p)
		}
		r.Note("%s, called from %s: %d instructions on paths, %d loops, %d ends", c.ev.Name, c.place(), s.X.Steps(), s.X.Loops, s.X.Rets)
		r.Check(s.X.Rets > 0, "undecided", c.rel+"."+c.ev.Name, "no path of the function ends")
		return
	}
}

func (c *cCall) tell(r *Rep, p cir.Report) bool {
	rule := p.Kind
	if p.Line == 0 {
		p.Line = c.f.Line
	}
	return r.Check(p.Ok, rule, fmt.Sprintf("%s/%s:%d", c.rel, p.File, p.Line), "%s (as called from %s)", p.What, c.place())
}

// roles finds, for a call, the memory that holds text whole and the number
// that gives its length, and the other memory with its number.
func (c *cCall) roles(text *ai.Term) (in, inLen, out, outLen int, why string) {
	in, out = -1, -1
	ls := loopsOf(c.st.Events())
	for i, m := range c.mem {
		if m != 1 {
			continue
		}
		if in < 0 && sameBytes(c.st, ls, c.ev.Res[i], text) == "" {
			in = i
		} else if out < 0 {
			out = i
		} else {
			return 0, 0, 0, 0, fmt.Sprintf("%s is given more than an input and an output", c.ev.Name)
		}
	}
	if in < 0 || out < 0 {
		return 0, 0, 0, 0, fmt.Sprintf("%s is not given %s and room for the result", c.ev.Name, text)
	}
	next := func(i int) int {
		for j := i + 1; j < len(c.mem); j++ {
			if c.mem[j] == 0 {
				return j
			}
		}
		return -1
	}
	inLen, outLen = next(in), next(out)
	if inLen < 0 || outLen < 0 || inLen == outLen {
		return 0, 0, 0, 0, fmt.Sprintf("%s is not given the lengths of both buffers", c.ev.Name)
	}
	if !sameNumber(c.st, c.ev.Args[inLen], ai.Len(text)) {
		return 0, 0, 0, 0, fmt.Sprintf("%s is told an input of %s bytes", c.ev.Name, c.ev.Args[inLen])
	}
	return in, inLen, out, outLen, ""
}

// result is what the call returns, and what it leaves in the output.
func (c *cCall) result(out int) (n *ai.Term, text *ai.Term) {
	p := ai.Pointed(c.ev.Args[out])
	n = c.st.Norm(ai.Call("cret:"+c.ev.Name, nil, c.ev.Args...))
	return n, ai.Sym("cout:"+p.String(), stringType)
}

// decompressed checks what the decompressor's caller makes of it: data only
// if all of it was produced (and, for the whole, a failure only for a reason).
func (w *World) decompressed(r *Rep, whole bool) {
	const rel = "redis/lzf"
	f := w.Fn(rel, "DeCompress")
	if f == nil || len(f.Params) != 2 || f.Signature.Results().Len() != 2 {
		r.Fail("roles", rel+".DeCompress", "the decompressor is gone")
		return
	}
	m, err := w.cModule(rel)
	if err != nil {
		r.Fail("undecided", rel, "the C code cannot be loaded: %v", err)
		return
	}
	args := w.symArgs(f)
	text, length := args[0], args[1]
	name := w.place(f)
	data := 0
	done := map[string]bool{}
	for _, o := range w.run(r, f, args, nil) {
		if o.Kind != ai.Ret {
			r.Check(false, "decompress", name, "does not return (path: %s)", facts(o.St))
			continue
		}
		st := o.St
		var c *cCall
		n := 0
		for _, ev := range flat(st.Events()) {
			if ev.Kind == "cgo" {
				n++
				cc, why := w.callOf(m, rel, f, st, ev)
				if !r.Check(why == "" && n == 1, "undecided", name, "the call of the C function cannot be followed: %s", why) {
					continue
				}
				c = cc
			}
		}
		fails := !st.Norm(o.Rets[1]).IsNil()
		if c == nil {
			ok := fails
			r.Check(ok, "decompress", name, "returns %s without decompressing (path: %s)", o.Rets[0], facts(st))
			if whole {
				reason := atMost(st, ai.Len(text), ai.Int(0)) || atMost(st, length, ai.Int(0)) ||
					atMost(st, ai.Int(1<<32), ai.Len(text)) || atMost(st, ai.Int(1<<32), length)
				r.Check(reason, "refuses", name, "gives up without a reason (path: %s)", facts(st))
			}
			continue
		}
		in, inLen, out, outLen, why := c.roles(text)
		if !r.Check(why == "", "decompress", name, "%s (path: %s)", why, facts(st)) {
			continue
		}
		got, buf := c.result(out)
		if fails {
			if whole {
				s := st.Clone()
				r.Check(!s.Assume(ai.Eq(got, length), true) || !agreeNumber(s, got, length), "refuses", name, "fails though the C function returned the announced length (path: %s)", facts(st))
				r.Check(sameNumber(st, c.ev.Args[outLen], length), "refuses", name, "gives the C function room for %s bytes (path: %s)", c.ev.Args[outLen], facts(st))
			}
		} else {
			data++
			r.Check(sameNumber(st, got, length), "decompress", name, "returns data when the C function returned %s for the announced %s (path: %s)", got, length, facts(st))
			ls := loopsOf(st.Events())
			why := sameBytes(st, ls, o.Rets[0], ai.SubSeq(buf, ai.Int(0), length))
			r.Check(why == "", "decompress", name, "the data returned is not what was decompressed: %s (path: %s)", why, facts(st))
		}
		if !whole {
			continue
		}
		rels := c.relations()
		if key := fmt.Sprint(rels); !done[key] {
			done[key] = true
			s, objs, sizes := c.setting(rels, in)
			cir.NewDecode(s.X, s.St, objs[in], objs[out], sizes[inLen], sizes[outLen])
			s.X.Analyse(c.f, s.St, s.Args, objs[out])
			c.ghosts(r, s)
		}
	}
	r.Floor("paths that return data", data, 1)
}

// agreeNumber reports whether two numbers may be the same.
func agreeNumber(st *ai.State, a, b *ai.Term) bool {
	s := st.Clone()
	return s.Assume(ai.Le(a, b), true) && s.Assume(ai.Le(b, a), true)
}

// ghosts tells what a followed format came to.
func (c *cCall) ghosts(r *Rep, s *cir.Setting) {
	seen := map[string]int{}
	for _, p := range s.X.Reports() {
		if p.Kind == "ghost" || p.Kind == "undecided" || p.Kind == "fixed" {
			if p.Kind == "ghost" {
				p.Kind = "format"
			}
			if c.tell(r, p) {
				seen[p.What]++
			}
		}
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Note("%s: %s: %d times", c.ev.Name, k, seen[k])
	}
	r.Check(s.X.Rets > 0, "undecided", c.rel+"."+c.ev.Name, "no path of the function ends")
}

func checkM03(w *World, r *Rep) {
	r.Explain = "Compression: on every path of the C function the bytes written are followed as tokens of the format - each literal byte is the next byte of the input, each run is preceded by its length, each reference is at most 8192 back, lies inside what is covered and repeats bytes the path has compared - and a result is only returned when the tokens cover exactly the input. Decompression: on every path each token read is performed exactly (the bytes it stands for, from where it says, in order), success means that all the input was used and everything written is counted, and it gives up only if the token it is at is cut off, does not fit or points before the output. Both loops are followed by inductive invariants. The Go functions pass the whole input with its length, return what was compressed with the length the C function gave (or the input itself), and data exactly when the announced length was produced."
	const rel = "redis/lzf"
	f := w.Fn(rel, "Compress")
	if f == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
		r.Fail("roles", rel+".Compress", "the compressor is gone")
		return
	}
	m, err := w.cModule(rel)
	if err != nil {
		r.Fail("undecided", rel, "the C code cannot be loaded: %v", err)
		return
	}
	args := w.symArgs(f)
	text, name := args[0], w.place(f)
	done := map[string]bool{}
	some := 0
	for _, o := range w.run(r, f, args, nil) {
		if !r.Check(o.Kind == ai.Ret, "compress", name, "does not return (path: %s)", facts(o.St)) {
			continue
		}
		st := o.St
		ls := loopsOf(st.Events())
		var c *cCall
		n := 0
		for _, ev := range flat(st.Events()) {
			if ev.Kind == "cgo" {
				n++
				cc, why := w.callOf(m, rel, f, st, ev)
				if r.Check(why == "" && n == 1, "undecided", name, "the call of the C function cannot be followed: %s", why) {
					c = cc
				}
			}
		}
		if sameBytes(st, ls, o.Rets[0], text) == "" {
			r.Check(true, "compress", name, "")
			continue
		}
		if !r.Check(c != nil, "compress", name, "returns %s, neither the input nor anything compressed (path: %s)", o.Rets[0], facts(st)) {
			continue
		}
		in, inLen, out, outLen, why := c.roles(text)
		_ = outLen
		if !r.Check(why == "", "compress", name, "%s (path: %s)", why, facts(st)) {
			continue
		}
		some++
		got, buf := c.result(out)
		s0 := st.Clone()
		r.Check(!s0.Assume(ai.Le(got, ai.Int(0)), true) || !s0.Assume(ai.Eq(got, ai.Int(0)), true), "compress", name, "returns a result though the C function may have given up (path: %s)", facts(st))
		why = sameBytes(st, ls, o.Rets[0], ai.SubSeq(buf, ai.Int(0), got))
		r.Check(why == "", "compress", name, "does not return the %s bytes that were written: %s (path: %s)", got, why, facts(st))
		rels := c.relations()
		if key := fmt.Sprint(rels); !done[key] {
			done[key] = true
			s, objs, sizes := c.setting(rels, in)
			cir.NewEncode(s.X, s.St, objs[in], objs[out], sizes[inLen])
			s.X.Analyse(c.f, s.St, s.Args, objs[out])
			c.ghosts(r, s)
		}
	}
	r.Floor("paths that return something compressed", some, 1)
	w.decompressed(r, true)
}
