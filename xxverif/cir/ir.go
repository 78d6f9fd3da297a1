package cir

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A Module is the functions of the C files of one directory.
type Module struct {
	Funcs   map[string]*Func
	Globals map[string]string // the types of the global variables
	Files   []string
}

type Func struct {
	Name   string
	File   string
	Line   int
	Params []Operand // types and names
	Ret    string
	Blocks map[string]*Block
	Order  []string
	loops  map[string]*loop
	signed map[string]bool // variables used as signed numbers
	consts []int64
}

type Block struct {
	Name string
	Ins  []*Instr
}

type Operand struct {
	Type string
	Text string // %x, @x, a number, null, undef
}

type Instr struct {
	Res  string
	Op   string
	Type string
	Args []Operand
	Pred string // of a comparison
	// targets: branch (cases) or phi predecessors
	To    []string
	Cases []int64
	NSW   bool // arithmetic of signed numbers
	Line  int
	Text  string
}

// Load compiles the C files in dir.
// preamble is C code that stands elsewhere.
func Load(dir string, flags []string, preamble string) (*Module, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	m := &Module{Funcs: map[string]*Func{}, Globals: map[string]string{}}
	tmp, err := os.MkdirTemp("", "cir")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	if strings.TrimSpace(preamble) != "" {
		f := filepath.Join(tmp, "preamble.c")
		if err := os.WriteFile(f, []byte(preamble), 0o644); err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	for i, f := range files {
		flags := flags
		if filepath.Dir(f) == tmp {
			flags = append([]string{"-Dstatic=", "-Dinline="}, flags...)
		}
		out := filepath.Join(tmp, fmt.Sprintf("%d.ll", i))
		args := append([]string{"-S", "-g", "-emit-llvm", "-O0", "-fno-discard-value-names", "-w", "-I" + dir}, flags...)
		if b, err := exec.Command("clang", append(args, f, "-o", out)...).CombinedOutput(); err != nil {
			return nil, fmt.Errorf("%s: %v: %s", f, err, b)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return nil, err
		}
		if err := m.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
		m.Files = append(m.Files, filepath.Base(f))
	}
	return m, nil
}

var (
	reDefine = regexp.MustCompile(`^define .*?([a-z0-9]+) @([A-Za-z0-9_.$]+)\((.*)\) .*\{`)
	reGlobal = regexp.MustCompile(`^(@[A-Za-z0-9_.$]+) = .*?(?:global|constant) (.*)$`)
	reLabel  = regexp.MustCompile(`^([A-Za-z0-9_.$-]+):`)
	reLoc    = regexp.MustCompile(`^!(\d+) = !DILocation\(line: (\d+)`)
	reSub    = regexp.MustCompile(`^!(\d+) = distinct !DISubprogram\(.*line: (\d+)`)
	reDbg    = regexp.MustCompile(`!dbg !(\d+)`)
	reAttr   = regexp.MustCompile(`, (align \d+|!.*)$`)
)

func (m *Module) parse(file, text string) error {
	lines := strings.Split(text, "\n")
	locs := map[string]int{}
	for _, l := range lines {
		if x := reLoc.FindStringSubmatch(l); x != nil {
			locs[x[1]], _ = strconv.Atoi(x[2])
		}
		if x := reSub.FindStringSubmatch(l); x != nil {
			locs[x[1]], _ = strconv.Atoi(x[2])
		}
	}
	var f *Func
	var b *Block
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if f == nil {
			if x := reGlobal.FindStringSubmatch(l); x != nil {
				m.Globals[x[1]] = typed(x[2]).Type
			}
			if x := reDefine.FindStringSubmatch(l); x != nil {
				f = &Func{Name: x[2], File: file, Ret: x[1], Blocks: map[string]*Block{}}
				if d := reDbg.FindStringSubmatch(l); d != nil {
					f.Line = locs[d[1]]
				}
				for _, p := range strings.Split(x[3], ",") {
					w := strings.Fields(p)
					if len(w) < 2 {
						continue
					}
					f.Params = append(f.Params, Operand{w[0], w[len(w)-1]})
				}
				m.Funcs[f.Name] = f
				b = nil
			}
			continue
		}
		if l == "}" {
			f = nil
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if x := reLabel.FindStringSubmatch(l); x != nil {
			b = &Block{Name: x[1]}
			f.Blocks[b.Name] = b
			f.Order = append(f.Order, b.Name)
			continue
		}
		if b == nil {
			b = &Block{Name: "entry"}
			f.Blocks[b.Name] = b
			f.Order = append(f.Order, b.Name)
		}
		t := strings.TrimSpace(l)
		line := 0
		if d := reDbg.FindStringSubmatch(t); d != nil {
			line = locs[d[1]]
		}
		if strings.HasPrefix(t, "switch ") {
			for !strings.Contains(t, "]") && i+1 < len(lines) {
				i++
				t += " " + strings.TrimSpace(lines[i])
				if d := reDbg.FindStringSubmatch(lines[i]); d != nil {
					line = locs[d[1]]
				}
			}
		}
		for reAttr.MatchString(t) {
			t = reAttr.ReplaceAllString(t, "")
		}
		if j := strings.Index(t, " #"); j >= 0 {
			t = t[:j]
		}
		in := parseInstr(t)
		in.Line, in.Text = line, t
		b.Ins = append(b.Ins, in)
	}
	return nil
}

// operands splits at commas outside brackets.
func operands(s string) (out []string) {
	depth, from := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[from:i]))
				from = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[from:]); t != "" {
		out = append(out, t)
	}
	return out
}

// typed splits "type attributes value".
func typed(s string) Operand {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		if j := strings.Index(s, "]"); j >= 0 {
			w := strings.Fields(s[j+1:])
			o := Operand{Type: s[:j+1]}
			if len(w) > 0 {
				o.Text = w[len(w)-1]
			}
			return o
		}
	}
	w := strings.Fields(s)
	if len(w) == 0 {
		return Operand{}
	}
	if len(w) == 1 {
		return Operand{Type: w[0]}
	}
	return Operand{w[0], w[len(w)-1]}
}

func parseInstr(t string) *Instr {
	in := &Instr{Op: "unknown"}
	if j := strings.Index(t, " = "); j > 0 && strings.HasPrefix(t, "%") {
		in.Res = t[:j]
		t = t[j+3:]
	}
	w := strings.Fields(t)
	if len(w) == 0 {
		return in
	}
	op := w[0]
	rest := strings.TrimSpace(t[len(op):])
	flags := func(names ...string) {
		for again := true; again; {
			again = false
			for _, n := range names {
				if strings.HasPrefix(rest, n+" ") {
					in.NSW = in.NSW || n == "nsw"
					rest = strings.TrimSpace(rest[len(n):])
					again = true
				}
			}
		}
	}
	switch op {
	case "add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem":
		flags("nuw", "nsw", "exact", "disjoint")
		o := operands(rest)
		a := typed(o[0])
		in.Type = a.Type
		in.Args = []Operand{a, {a.Type, o[1]}}
	case "icmp":
		o := operands(rest)
		p := strings.Fields(o[0])
		in.Pred = p[0]
		a := typed(strings.Join(p[1:], " "))
		in.Type = a.Type
		in.Args = []Operand{a, {a.Type, o[1]}}
	case "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast":
		flags("nneg", "nuw", "nsw")
		j := strings.Index(rest, " to ")
		if j < 0 {
			return in
		}
		in.Args = []Operand{typed(rest[:j])}
		in.Type = strings.TrimSpace(rest[j+4:])
	case "alloca":
		o := operands(rest)
		in.Type = o[0]
		if len(o) > 1 {
			in.Args = []Operand{typed(o[1])}
		}
	case "load":
		flags("volatile")
		o := operands(rest)
		in.Type = o[0]
		in.Args = []Operand{typed(o[1])}
	case "store":
		flags("volatile")
		o := operands(rest)
		in.Args = []Operand{typed(o[0]), typed(o[1])}
	case "getelementptr":
		flags("inbounds", "nuw", "nusw")
		o := operands(rest)
		in.Type = o[0]
		for _, x := range o[1:] {
			in.Args = append(in.Args, typed(x))
		}
	case "phi":
		j := strings.Index(rest, "[")
		in.Type = strings.TrimSpace(rest[:j])
		for _, x := range operands(rest[j:]) {
			x = strings.Trim(x, "[] ")
			o := operands(x)
			in.Args = append(in.Args, Operand{in.Type, o[0]})
			in.To = append(in.To, strings.TrimPrefix(o[1], "%"))
		}
	case "select":
		for _, x := range operands(rest) {
			in.Args = append(in.Args, typed(x))
		}
		in.Type = in.Args[1].Type
	case "br":
		o := operands(rest)
		if len(o) == 1 {
			in.To = []string{strings.TrimPrefix(typed(o[0]).Text, "%")}
		} else {
			in.Args = []Operand{typed(o[0])}
			in.To = []string{strings.TrimPrefix(typed(o[1]).Text, "%"), strings.TrimPrefix(typed(o[2]).Text, "%")}
		}
	case "switch":
		j := strings.Index(rest, "[")
		o := operands(rest[:j])
		in.Args = []Operand{typed(o[0])}
		in.To = []string{strings.TrimPrefix(typed(o[1]).Text, "%")}
		body := strings.Trim(rest[j:], "[] ")
		for _, x := range regexp.MustCompile(`i\d+ (-?\d+), label %([^ ]+)`).FindAllStringSubmatch(body, -1) {
			k, _ := strconv.ParseInt(x[1], 10, 64)
			in.Cases = append(in.Cases, k)
			in.To = append(in.To, strings.TrimSuffix(x[2], "]"))
		}
	case "ret":
		in.Args = []Operand{typed(rest)}
	case "unreachable":
	case "call", "tail":
		x := regexp.MustCompile(`^(?:tail )?call .*?([a-z0-9]+) (?:\([^@]*\) )?@([A-Za-z0-9_.$]+)\((.*)\)$`).FindStringSubmatch(t)
		if x == nil {
			return in
		}
		op = "call"
		in.Type, in.Pred = x[1], x[2]
		if !strings.HasPrefix(in.Pred, "llvm.dbg") {
			for _, a := range operands(x[3]) {
				in.Args = append(in.Args, typed(a))
			}
		}
	default:
		return in
	}
	in.Op = op
	return in
}

// A loop is the blocks that can return to its head.
type loop struct {
	head  string
	body  map[string]bool
	inner bool // holds another loop
}

func (b *Block) succs() []string {
	if len(b.Ins) == 0 {
		return nil
	}
	return b.Ins[len(b.Ins)-1].To
}

// findLoops finds the natural loops of f.
func (f *Func) findLoops() {
	if f.loops != nil {
		return
	}
	f.loops = map[string]*loop{}
	preds := map[string][]string{}
	for _, n := range f.Order {
		for _, s := range f.Blocks[n].succs() {
			preds[s] = append(preds[s], n)
		}
	}
	// dominators
	all := map[string]bool{}
	for _, n := range f.Order {
		all[n] = true
	}
	dom := map[string]map[string]bool{}
	for i, n := range f.Order {
		if i == 0 {
			dom[n] = map[string]bool{n: true}
		} else {
			dom[n] = all
		}
	}
	for again := true; again; {
		again = false
		for _, n := range f.Order[1:] {
			var d map[string]bool
			for _, p := range preds[n] {
				if d == nil {
					d = map[string]bool{}
					for x := range dom[p] {
						d[x] = true
					}
				} else {
					for x := range d {
						if !dom[p][x] {
							delete(d, x)
						}
					}
				}
			}
			if d == nil {
				d = map[string]bool{}
			}
			d[n] = true
			if len(d) != len(dom[n]) {
				dom[n] = d
				again = true
			}
		}
	}
	for _, n := range f.Order {
		for _, h := range f.Blocks[n].succs() {
			if !dom[n][h] {
				continue
			}
			l := f.loops[h]
			if l == nil {
				l = &loop{head: h, body: map[string]bool{h: true}}
				f.loops[h] = l
			}
			var up func(x string)
			up = func(x string) {
				if !l.body[x] {
					l.body[x] = true
					for _, p := range preds[x] {
						up(p)
					}
				}
			}
			up(n)
		}
	}
	for _, l := range f.loops {
		for h := range f.loops {
			if h != l.head && l.body[h] {
				l.inner = true
			}
		}
	}
}

// classify finds the variables that hold signed numbers and the constants
// values are compared with.
func (f *Func) classify() {
	if f.signed != nil {
		return
	}
	f.signed = map[string]bool{}
	from := map[string]string{}
	seen := map[int64]bool{}
	konst := func(o Operand) {
		if k, err := strconv.ParseInt(o.Text, 10, 64); err == nil && k > -1<<33 && k < 1<<33 {
			for d := int64(-1); d <= 1; d++ {
				seen[k+d] = true
			}
		}
	}
	konst(Operand{Text: "0"})
	for _, n := range f.Order {
		for _, in := range f.Blocks[n].Ins {
			signed := in.Op == "sext" || in.Op == "ashr" || in.Op == "sdiv" || in.Op == "srem" || in.NSW || in.Op == "icmp" && strings.HasPrefix(in.Pred, "s")
			switch in.Op {
			case "load":
				from[in.Res] = in.Args[0].Text
			case "store":
				if from[in.Args[0].Text] == "nsw" {
					f.signed[in.Args[1].Text] = true
				}
			case "icmp", "select":
				for _, a := range in.Args {
					konst(a)
				}
			case "switch":
				lo, hi := int64(1)<<40, int64(-1)<<40
				for _, k := range in.Cases {
					lo, hi = min(lo, k), max(hi, k)
				}
				if lo <= hi {
					konst(Operand{Text: strconv.FormatInt(lo, 10)})
					konst(Operand{Text: strconv.FormatInt(hi, 10)})
				}
			}
			if signed && in.Op != "store" {
				for _, a := range in.Args {
					if p := from[a.Text]; p != "" && p != "nsw" {
						f.signed[p] = true
					}
				}
				if in.NSW && in.Res != "" {
					from[in.Res] = "nsw"
				}
			}
		}
	}
	for k := range seen {
		f.consts = append(f.consts, k)
	}
	sort.Slice(f.consts, func(i, j int) bool { return f.consts[i] < f.consts[j] })
}
