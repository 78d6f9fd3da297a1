// Package ai is a path-sensitive abstract interpreter for Go SSA form.
//
// Values are abstracted to hash-consed normal-form terms (value numbering):
// integers to linear forms and bit-provenance vectors, strings and slices to
// a sequence algebra, pointers to abstract locations.  Loops are summarised
// by a fixpoint with generalisation; nothing is executed and no solver is
// consulted.
package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OInt    Op = iota // K
	OStr              // S (a constant string, or the empty sequence)
	OBool             // K
	OFloat            // S
	ONil              // nil of any type
	OSym              // S, T
	OLin              // K + sum Co[i]*Args[i]
	OBits             // Bits over Args
	ONot              // bool
	OLe0              // Args[0] <= 0
	OEq               // Args[0] == Args[1]
	OIsT              // dynamic type of Args[0] is T
	OCat              // concatenation of sequences
	OUnit             // one-element sequence
	ORep              // Args[0] repeated Args[1] times
	OSub              // Args[0][Args[1]:Args[2]]
	OUpd              // Args[0] with [Args[1]] = Args[2]
	OElem             // Args[0][Args[1]]
	OLen              // len(Args[0])
	OCall             // uninterpreted pure function S of Args
	OConv             // value-changing integer conversion to T
	OIface            // interface holding Args[0] of dynamic type T
	OAlloc            // location S of type T
	OGlobal           // location S
	OField            // &Args[0].K
	OIndex            // &Args[0][Args[1]]
	OSlice            // slice over array object Args[0], from Args[1] to Args[2]
	OFunc             // Fn with bound Args
	OTuple            //
	OStruct           // T, Args
	OBox              // pointer to an immutable struct value Args[0]
)

type Term struct {
	ID   int
	Op   Op
	S    string
	K    int64
	Args []*Term
	Co   []int64
	Bits []Bit
	T    types.Type
	Fn   *ssa.Function
}

// Bit is a bit source: A<0 means the constant -1-A (0 or 1), otherwise bit N of Args[A].
type Bit struct {
	A int16
	N uint8
}

var (
	bit0 = Bit{A: -1}
	bit1 = Bit{A: -2}
)

type interner struct {
	m    map[string]*Term
	list []*Term
	tid  map[string]int
}

var in = &interner{m: map[string]*Term{}, tid: map[string]int{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.Op)))
	sb.WriteByte('|')
	sb.WriteString(t.S)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.K, 10))
	for i, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
		if t.Co != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(t.Co[i], 10))
		}
	}
	for _, b := range t.Bits {
		fmt.Fprintf(&sb, ";%d.%d", b.A, b.N)
	}
	switch t.Op {
	case OIsT, OConv, OIface, OStruct, OSym, OAlloc:
		sb.WriteByte('|')
		sb.WriteString(typeKey(t.T))
	case OFunc:
		if t.Fn != nil {
			fmt.Fprintf(&sb, "|%p", t.Fn)
		}
	}
	k := sb.String()
	if x, ok := in.m[k]; ok {
		if x.T == nil && t.T != nil {
			x.T = t.T
		}
		return x
	}
	x := new(Term)
	*x = t
	x.ID = len(in.list) + 1
	in.m[k] = x
	in.list = append(in.list, x)
	return x
}

func Int(k int64) *Term  { return mk(Term{Op: OInt, K: k}) }
func Str(s string) *Term { return mk(Term{Op: OStr, S: s}) }
func Nil() *Term         { return mk(Term{Op: ONil}) }
func Sym(s string, t types.Type) *Term {
	return mk(Term{Op: OSym, S: s, T: t})
}
func Bool(b bool) *Term {
	if b {
		return mk(Term{Op: OBool, K: 1})
	}
	return mk(Term{Op: OBool})
}
func Call(name string, t types.Type, args ...*Term) *Term {
	return mk(Term{Op: OCall, S: name, T: t, Args: args})
}
func Tuple(args ...*Term) *Term { return mk(Term{Op: OTuple, Args: args}) }
func IfaceOf(t types.Type, x *Term) *Term {
	if x.Op == OCall && len(x.Args) == 1 && (x.S == "unwrap:"+typeKey(t) || x.S == "!unwrap:"+typeKey(t)) {
		return x.Args[0] // unwrap terms exist only where the assertion held
	}
	return mk(Term{Op: OIface, T: t, Args: []*Term{x}})
}
func FieldAddr(p *Term, i int) *Term {
	return mk(Term{Op: OField, K: int64(i), Args: []*Term{p}})
}
func IndexAddr(p, i *Term) *Term { return mk(Term{Op: OIndex, Args: []*Term{p, i}}) }
func StructOf(t types.Type, fs ...*Term) *Term {
	return mk(Term{Op: OStruct, T: t, Args: fs})
}
func (t *Term) IsInt() bool         { return t.Op == OInt }
func (t *Term) IsConstStr() bool    { return t.Op == OStr }
func (t *Term) IsTrue() bool        { return t.Op == OBool && t.K == 1 }
func (t *Term) IsFalse() bool       { return t.Op == OBool && t.K == 0 }
func (t *Term) IsNil() bool         { return t.Op == ONil }
func (t *Term) Is(name string) bool { return t.Op == OCall && t.S == name }

// ---- integer types ----

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	if t == nil {
		return 0, false, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func IsIntType(t types.Type) bool { _, _, ok := intInfo(t); return ok }
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- linear forms ----

type linT struct {
	k  int64
	co map[*Term]int64
}

func toLin(t *Term) linT {
	switch t.Op {
	case OInt:
		return linT{k: t.K}
	case OLin:
		l := linT{k: t.K, co: make(map[*Term]int64, len(t.Args))}
		for i, a := range t.Args {
			l.co[a] = t.Co[i]
		}
		return l
	case OBits:
		// constant bits, and a common power of two, are linear
		tz, last := 64, t.Bits[63]
		var k uint64
		for i := 63; i >= 0; i-- {
			switch {
			case t.Bits[i].A >= 0:
				tz = i
			case t.Bits[i] == bit1:
				k |= 1 << uint(i)
			}
		}
		if last.A < 0 && (k != 0 || tz > 0 && tz < 63) {
			v, _ := bitsOf(t)
			for i := range v.b {
				if v.b[i] == bit1 {
					v.b[i] = bit0
				}
			}
			return linT{k: int64(k), co: map[*Term]int64{fromBits(v.shr(tz)): 1 << uint(tz)}}
		}
	}
	return linT{co: map[*Term]int64{t: 1}}
}

func (l linT) addTo(m linT, c int64) linT {
	r := linT{k: l.k + c*m.k, co: make(map[*Term]int64, len(l.co)+len(m.co))}
	for a, x := range l.co {
		r.co[a] = x
	}
	for a, x := range m.co {
		r.co[a] += c * x
		if r.co[a] == 0 {
			delete(r.co, a)
		}
	}
	return r
}

func (l linT) isConst() bool { return len(l.co) == 0 }

func fromLin(l linT) *Term {
	if len(l.co) == 0 {
		return Int(l.k)
	}
	// c*n*div(x,n) + c*rem(x,n) = c*x
	for a, c := range l.co {
		if a.Is("rem") && a.Args[1].IsInt() {
			d := Call("div", a.T, a.Args[0], a.Args[1])
			if l.co[d] != 0 && l.co[d] == c*a.Args[1].K {
				m := l.addTo(linT{co: map[*Term]int64{a: 1}}, -c).addTo(linT{co: map[*Term]int64{d: 1}}, -l.co[d])
				return fromLin(m.addTo(toLin(a.Args[0]), c))
			}
		}
	}
	if len(l.co) == 1 && l.k == 0 {
		for a, c := range l.co {
			if c == 1 {
				return a
			}
		}
	}
	atoms := make([]*Term, 0, len(l.co))
	for a := range l.co {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	co := make([]int64, len(atoms))
	byteOnly := true
	for i, a := range atoms {
		co[i] = l.co[a]
		if co[i] <= 0 || co[i]&(co[i]-1) != 0 || bitWidth(a) < 0 {
			byteOnly = false
		}
	}
	t := mk(Term{Op: OLin, K: l.k, Args: atoms, Co: co})
	if byteOnly && l.k == 0 {
		if v, ok := bitsOf(t); ok {
			return fromBits(v)
		}
	}
	return t
}

func Add(a, b *Term) *Term        { return fromLin(toLin(a).addTo(toLin(b), 1)) }
func Sub(a, b *Term) *Term        { return fromLin(toLin(a).addTo(toLin(b), -1)) }
func AddK(a *Term, k int64) *Term { return Add(a, Int(k)) }
func Scale(a *Term, c int64) *Term {
	return fromLin(linT{}.addTo(toLin(a), c))
}

// ---- bit vectors ----

type bitVec struct {
	atoms []*Term
	b     [64]Bit
}

func (v *bitVec) atom(t *Term) int16 {
	for i, a := range v.atoms {
		if a == t {
			return int16(i)
		}
	}
	v.atoms = append(v.atoms, t)
	return int16(len(v.atoms) - 1)
}

// bitWidth returns the number of significant bits of a non-negative term, -1 if unbounded.
func bitWidth(t *Term) int {
	switch t.Op {
	case OBits:
		for i := 63; i >= 0; i-- {
			if t.Bits[i] != bit0 {
				if i == 63 {
					return -1
				}
				return i + 1
			}
		}
		return 0
	case OInt:
		if t.K < 0 {
			return -1
		}
		n := 0
		for k := t.K; k > 0; k >>= 1 {
			n++
		}
		return n
	case OLin, OLen:
		return -1
	}
	if w, s, ok := intInfo(t.T); ok && !s && w < 64 {
		return w
	}
	return -1
}

func bitsOf(t *Term) (bitVec, bool) {
	var v bitVec
	for i := range v.b {
		v.b[i] = bit0
	}
	switch t.Op {
	case OInt:
		for i := 0; i < 64; i++ {
			if uint64(t.K)>>uint(i)&1 == 1 {
				v.b[i] = bit1
			}
		}
		return v, true
	case OBits:
		v.atoms = append(v.atoms, t.Args...)
		copy(v.b[:], t.Bits)
		return v, true
	case OLin:
		if t.K != 0 {
			kv, _ := bitsOf(Int(t.K))
			if t.K < 0 {
				return v, false
			}
			v = kv
		}
		for i, a := range t.Args {
			c := t.Co[i]
			if c <= 0 || c&(c-1) != 0 {
				return v, false
			}
			if bitWidth(a) < 0 {
				return v, false
			}
			av, ok := bitsOf(a)
			if !ok {
				return v, false
			}
			sh := 0
			for c > 1 {
				c >>= 1
				sh++
			}
			av = av.shl(sh)
			r, ok := v.orDisjoint(av)
			if !ok {
				return v, false
			}
			v = r
		}
		return v, true
	}
	w, signed, ok := intInfo(t.T)
	if !ok {
		return v, false
	}
	v.atoms = []*Term{t}
	for i := 0; i < 64; i++ {
		if i < w {
			v.b[i] = Bit{A: 0, N: uint8(i)}
		} else if signed {
			v.b[i] = Bit{A: 0, N: uint8(w - 1)}
		}
	}
	return v, true
}

func (v bitVec) shl(n int) bitVec {
	r := v
	for i := 63; i >= 0; i-- {
		if i >= n {
			r.b[i] = v.b[i-n]
		} else {
			r.b[i] = bit0
		}
	}
	return r
}

func (v bitVec) shr(n int) bitVec { // arithmetic on the 64-bit extension
	r := v
	for i := 0; i < 64; i++ {
		if i+n < 64 {
			r.b[i] = v.b[i+n]
		} else {
			r.b[i] = v.b[63]
		}
	}
	return r
}

func (v bitVec) trunc(w int, signed bool) bitVec {
	r := v
	for i := w; i < 64; i++ {
		if signed {
			r.b[i] = v.b[w-1]
		} else {
			r.b[i] = bit0
		}
	}
	return r
}

func (v bitVec) remap(o bitVec) (bitVec, bitVec) { // o rewritten over v's atoms
	r := o
	m := make([]int16, len(o.atoms))
	v.atoms = append([]*Term(nil), v.atoms...)
	for i, a := range o.atoms {
		m[i] = v.atom(a)
	}
	for i := range r.b {
		if r.b[i].A >= 0 {
			r.b[i].A = m[r.b[i].A]
		}
	}
	r.atoms = v.atoms
	return v, r
}

func (v bitVec) orDisjoint(o bitVec) (bitVec, bool) {
	v, o = v.remap(o)
	for i := range v.b {
		switch {
		case v.b[i] == bit0:
			v.b[i] = o.b[i]
		case o.b[i] == bit0:
		default:
			return v, false
		}
	}
	return v, true
}

func (v bitVec) bitop(o bitVec, op string) (bitVec, bool) {
	v, o = v.remap(o)
	for i := range v.b {
		a, b := v.b[i], o.b[i]
		switch op {
		case "and":
			switch {
			case a == bit0 || b == bit0:
				v.b[i] = bit0
			case a == bit1:
				v.b[i] = b
			case b == bit1 || a == b:
			default:
				return v, false
			}
		case "andnot":
			switch {
			case b == bit0:
			case b == bit1 || a == bit0 || a == b:
				v.b[i] = bit0
			default:
				return v, false
			}
		case "or":
			switch {
			case a == bit1 || b == bit1:
				v.b[i] = bit1
			case a == bit0:
				v.b[i] = b
			case b == bit0 || a == b:
			default:
				return v, false
			}
		case "xor":
			switch {
			case a == bit0:
				v.b[i] = b
			case b == bit0:
			case a == b:
				v.b[i] = bit0
			default:
				return v, false
			}
		}
	}
	return v, true
}

func fromBits(v bitVec) *Term {
	// constant?
	allc := true
	var k uint64
	for i := 0; i < 64; i++ {
		switch v.b[i] {
		case bit0:
		case bit1:
			k |= 1 << uint(i)
		default:
			allc = false
		}
	}
	if allc {
		return Int(int64(k))
	}
	// compact and order atoms
	used := map[int16]bool{}
	for _, b := range v.b {
		if b.A >= 0 {
			used[b.A] = true
		}
	}
	var idx []int16
	for a := range used {
		idx = append(idx, a)
	}
	sort.Slice(idx, func(i, j int) bool { return v.atoms[idx[i]].ID < v.atoms[idx[j]].ID })
	m := map[int16]int16{}
	var atoms []*Term
	for i, a := range idx {
		m[a] = int16(i)
		atoms = append(atoms, v.atoms[a])
	}
	bits := make([]Bit, 64)
	for i, b := range v.b {
		if b.A >= 0 {
			b.A = m[b.A]
		}
		bits[i] = b
	}
	if len(atoms) == 1 {
		if w, s, ok := intInfo(atoms[0].T); ok {
			whole := true
			for i := 0; i < 64 && whole; i++ {
				want := bit0
				if i < w {
					want = Bit{A: 0, N: uint8(i)}
				} else if s {
					want = Bit{A: 0, N: uint8(w - 1)}
				}
				whole = bits[i] == want
			}
			if whole {
				return atoms[0]
			}
		}
	}
	return mk(Term{Op: OBits, Args: atoms, Bits: bits})
}

// ByteWord builds the w-byte number whose i-th least significant byte is bs[i].
func ByteWord(bs []*Term) *Term {
	var v bitVec
	for i := range v.b {
		v.b[i] = bit0
	}
	for i, b := range bs {
		bv, ok := bitsOf(b)
		if !ok {
			return Call("word", types.Typ[types.Uint64], bs...)
		}
		bv = bv.trunc(8, false).shl(8 * i)
		v, _ = v.orDisjoint(bv)
	}
	return fromBits(v)
}

// Conv converts integer term x from type ft to type tt.
func Conv(x *Term, ft, tt types.Type) *Term {
	fw, fs, _ := intInfo(ft)
	tw, ts, ok := intInfo(tt)
	if !ok {
		return Call("conv:"+typeKey(tt), tt, x)
	}
	if x.Op == OInt {
		k := x.K
		if tw < 64 {
			u := uint64(k) & (1<<uint(tw) - 1)
			if ts && u>>(uint(tw)-1) == 1 {
				u |= ^uint64(0) << uint(tw)
			}
			k = int64(u)
		}
		return Int(k)
	}
	if (fs == ts && tw >= fw) || (!fs && tw > fw) {
		return x
	}
	if bw := bitWidth(x); bw >= 0 && (bw < tw || (bw == tw && !ts)) {
		return x
	}
	if v, ok := bitsOf(x); ok && x.Op != OSym && (x.Op == OBits || x.Op == OElem || bitWidth(x) >= 0) {
		return fromBits(v.trunc(tw, ts))
	}
	// 64-bit sign changes form a ring isomorphism: keep them visible but collapsible
	if x.Op == OConv {
		iw, _, _ := intInfo(x.T)
		if iw >= tw {
			// inner conversion keeps at least tw low bits
			return Conv(x.Args[0], convSrc(x.Args[0], tt), tt)
		}
	}
	if st := natural(x); st != nil {
		sw, ss, ok := intInfo(st)
		if ok && ((ss == ts && tw >= sw) || (!ss && tw > sw)) {
			return x
		}
	}
	return mk(Term{Op: OConv, T: tt, Args: []*Term{x}})
}

func natural(x *Term) types.Type {
	switch x.Op {
	case OSym, OElem, OCall, OConv:
		return x.T
	}
	return nil
}

func convSrc(x *Term, def types.Type) types.Type {
	if n := natural(x); n != nil && IsIntType(n) {
		return n
	}
	return types.Typ[types.Int64]
}

// Ring removes 64-bit sign conversions (identities modulo 2^64).
func Ring(t *Term) *Term {
	switch t.Op {
	case OConv:
		w, _, _ := intInfo(t.T)
		if w == 64 {
			return Ring(t.Args[0])
		}
	case OLin:
		l := linT{k: t.K}
		for i, a := range t.Args {
			l = l.addTo(toLin(Ring(a)), t.Co[i])
		}
		return fromLin(l)
	case OCall, OIface, OStruct, OTuple:
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = Ring(a)
			same = same && args[i] == a
		}
		if !same {
			u := *t
			u.Args = args
			return mk(u)
		}
	}
	return t
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.Op {
	case OBool:
		return Bool(a.K == 0)
	case ONot:
		return a.Args[0]
	case OLe0: // not(x<=0)  ==  1-x <= 0
		return Le0(Sub(Int(1), a.Args[0]))
	}
	return mk(Term{Op: ONot, Args: []*Term{a}})
}

func Le0(x *Term) *Term {
	if x.Op == OInt {
		return Bool(x.K <= 0)
	}
	return mk(Term{Op: OLe0, Args: []*Term{x}})
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(AddK(Sub(a, b), 1)) }

func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if isConst(a) && isConst(b) {
		return Bool(false)
	}
	if numeric(a) && numeric(b) {
		d := Sub(a, b)
		if d.Op == OInt {
			return Bool(d.K == 0)
		}
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.T, b.T) {
			return Bool(false)
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if nonNil(a) && b.Op == ONil || nonNil(b) && a.Op == ONil {
		return Bool(false)
	}
	if (a.Op == OAlloc || a.Op == OGlobal) && (b.Op == OAlloc || b.Op == OGlobal) {
		return Bool(false)
	}
	if a.Op == OStr && b.Op == OCat || b.Op == OStr && a.Op == OCat {
		if b.Op == OStr {
			a, b = b, a
		}
		// constant against concatenation: compare constant prefix
		if len(b.Args) > 0 && b.Args[0].Op == OStr && !strings.HasPrefix(a.S, b.Args[0].S) {
			return Bool(false)
		}
		if minLen(b) > int64(len(a.S)) {
			return Bool(false)
		}
	}
	// x == false / true
	if a.Op == OBool || b.Op == OBool {
		if a.Op == OBool {
			a, b = b, a
		}
		if b.K == 1 {
			return a
		}
		return Not(a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(Term{Op: OEq, Args: []*Term{a, b}})
}

func isConst(t *Term) bool {
	switch t.Op {
	case OInt, OStr, OBool, ONil, OFloat, OFunc:
		return true
	}
	return false
}

func numeric(t *Term) bool {
	switch t.Op {
	case OInt, OLin, OBits, OLen:
		return true
	case OSym, OElem, OCall, OConv:
		return t.T != nil && (IsIntType(t.T) || typeKey(t.T) == "time.Time")
	}
	return false
}

func nonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OGlobal, OField, OIndex, OIface, OSlice, OFunc, OBox, OStruct:
		return true
	case OSym:
		return strings.HasPrefix(t.S, "!")
	case OCall:
		return strings.HasPrefix(t.S, "!")
	}
	return false
}

// ---- sequences (strings and slice contents) ----

func Unit(x *Term) *Term {
	return mk(Term{Op: OUnit, Args: []*Term{x}})
}

// ByteUnit is a one-byte string.
func ByteUnit(x *Term) *Term {
	if x.Op == OInt {
		return Str(string([]byte{byte(x.K)}))
	}
	// s[i] as a one-byte string is s[i:i+1]
	if x.Op == OElem {
		return SubSeq(x.Args[0], x.Args[1], AddK(x.Args[1], 1))
	}
	return mk(Term{Op: OUnit, Args: []*Term{x}})
}

func Rep(x, n *Term) *Term {
	if n.Op == OInt && n.K <= 0 {
		return Str("")
	}
	return mk(Term{Op: ORep, Args: []*Term{x, n}})
}

func Cat(parts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		switch p.Op {
		case OCat:
			for _, q := range p.Args {
				push(q)
			}
			return
		case OStr:
			if p.S == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == OStr {
				out[n-1] = Str(out[n-1].S + p.S)
				return
			}
		case ONil:
			return
		case OSub:
			if n := len(out); n > 0 && out[n-1].Op == OSub && out[n-1].Args[0] == p.Args[0] && out[n-1].Args[2] == p.Args[1] {
				out[n-1] = SubSeq(p.Args[0], out[n-1].Args[1], p.Args[2])
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{Op: OCat, Args: out})
}

func Len(s *Term) *Term {
	switch s.Op {
	case OStr:
		return Int(int64(len(s.S)))
	case ONil:
		return Int(0)
	case OUnit:
		return Int(1)
	case OCat:
		r := Int(0)
		for _, p := range s.Args {
			r = Add(r, Len(p))
		}
		return r
	case ORep:
		return s.Args[1]
	case OSub:
		return Sub(s.Args[2], s.Args[1])
	case OUpd:
		return Len(s.Args[0])
	}
	return mk(Term{Op: OLen, Args: []*Term{s}, T: types.Typ[types.Int]})
}

func minLen(s *Term) int64 {
	l := toLin(Len(s))
	return l.k // every atom is a length, hence >= 0, with positive coefficient or unknown
}

func SubSeq(s, lo, hi *Term) *Term {
	if lo.Op == OInt && lo.K == 0 && hi == Len(s) {
		return s
	}
	if d := Sub(hi, lo); d.Op == OInt && d.K == 0 {
		return Str("")
	}
	switch s.Op {
	case OStr:
		if lo.Op == OInt && hi.Op == OInt && lo.K >= 0 && hi.K <= int64(len(s.S)) && lo.K <= hi.K {
			return Str(s.S[lo.K:hi.K])
		}
	case OSub:
		return SubSeq(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	case ORep:
		return Rep(s.Args[0], Sub(hi, lo))
	case OUpd:
		// outside the updated cell?
		if d := Sub(s.Args[1], lo); d.Op == OInt && d.K < 0 {
			return SubSeq(s.Args[0], lo, hi)
		}
		if d := Sub(s.Args[1], hi); d.Op == OInt && d.K >= 0 {
			return SubSeq(s.Args[0], lo, hi)
		}
	case OCat:
		off := Int(0)
		start, end := -1, -1
		var sOff, eOff *Term
		for i := 0; i <= len(s.Args); i++ {
			if start < 0 {
				if off == lo {
					start, sOff = i, Int(0)
				} else if i < len(s.Args) {
					d := Sub(lo, off)
					l := Len(s.Args[i])
					if d.Op == OInt && l.Op == OInt && d.K > 0 && d.K < l.K {
						start, sOff = i, d
					}
				}
			}
			if end < 0 {
				if off == hi {
					end, eOff = i, Int(0)
				} else if i < len(s.Args) {
					d := Sub(hi, off)
					l := Len(s.Args[i])
					if d.Op == OInt && l.Op == OInt && d.K > 0 && d.K < l.K {
						end, eOff = i, d
					}
				}
			}
			if i < len(s.Args) {
				off = Add(off, Len(s.Args[i]))
			}
		}
		if start >= 0 && end >= 0 && start <= end {
			var ps []*Term
			for i := start; i < len(s.Args) && i <= end; i++ {
				a, b := Int(0), Len(s.Args[i])
				if i == start {
					a = sOff
				}
				if i == end {
					b = eOff
				}
				ps = append(ps, SubSeq(s.Args[i], a, b))
			}
			return Cat(ps...)
		}
		// within one symbolic piece at the start or end of the sequence
		if len(s.Args) > 0 {
			if d := Sub(hi, Len(s.Args[0])); d.Op == OInt && d.K <= 0 {
				return SubSeq(s.Args[0], lo, hi)
			}
		}
	}
	return mk(Term{Op: OSub, Args: []*Term{s, lo, hi}})
}

func Elem(s, i *Term, et types.Type) *Term {
	switch s.Op {
	case OStr:
		if i.Op == OInt && i.K >= 0 && i.K < int64(len(s.S)) {
			return Int(int64(s.S[i.K]))
		}
	case OUnit:
		if i.Op == OInt && i.K == 0 {
			return s.Args[0]
		}
	case ORep:
		return s.Args[0]
	case OSub:
		return Elem(s.Args[0], Add(s.Args[1], i), et)
	case OUpd:
		d := Sub(i, s.Args[1])
		if d.Op == OInt {
			if d.K == 0 {
				return s.Args[2]
			}
			return Elem(s.Args[0], i, et)
		}
	case OCat:
		off := Int(0)
		for _, p := range s.Args {
			l := Len(p)
			d := Sub(i, off)
			if d.Op == OInt && l.Op == OInt && d.K >= 0 && d.K < l.K {
				return Elem(p, d, et)
			}
			off = Add(off, l)
		}
		// from the end
		end := Len(s)
		for k := len(s.Args) - 1; k >= 0; k-- {
			l := Len(s.Args[k])
			st := Sub(end, l)
			d := Sub(i, st)
			if d.Op == OInt && l.Op == OInt && d.K >= 0 && d.K < l.K {
				return Elem(s.Args[k], d, et)
			}
			end = st
		}
	}
	return mk(Term{Op: OElem, Args: []*Term{s, i}, T: et})
}

func Upd(s, i, v *Term, isByte bool) *Term {
	unit := func(x *Term) *Term {
		if isByte {
			return ByteUnit(x)
		}
		return Unit(x)
	}
	if l := Len(s); l.Op == OInt && i.Op == OInt && i.K >= 0 && i.K < l.K {
		return Cat(SubSeq(s, Int(0), i), unit(v), SubSeq(s, AddK(i, 1), l))
	}
	if s.Op == OCat && i.Op == OInt {
		off := int64(0)
		for k, p := range s.Args {
			l := Len(p)
			if l.Op != OInt {
				break
			}
			if i.K >= off && i.K < off+l.K {
				ps := append([]*Term(nil), s.Args[:k]...)
				ps = append(ps, Upd(p, Int(i.K-off), v, isByte))
				ps = append(ps, s.Args[k+1:]...)
				return Cat(ps...)
			}
			off += l.K
		}
	}
	if s.Op == OUpd && s.Args[1] == i {
		s = s.Args[0]
	}
	return mk(Term{Op: OUpd, Args: []*Term{s, i, v}})
}

// ---- printing ----

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	args := func() string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.String())
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case OInt:
		return strconv.FormatInt(t.K, 10)
	case OStr:
		return strconv.Quote(t.S)
	case OBool:
		return strconv.FormatBool(t.K == 1)
	case OFloat:
		return t.S
	case ONil:
		return "nil"
	case OSym:
		return t.S
	case OLin:
		var ss []string
		for i, a := range t.Args {
			switch t.Co[i] {
			case 1:
				ss = append(ss, a.String())
			case -1:
				ss = append(ss, "-"+a.String())
			default:
				ss = append(ss, fmt.Sprintf("%d*%s", t.Co[i], a))
			}
		}
		if t.K != 0 {
			ss = append(ss, strconv.FormatInt(t.K, 10))
		}
		return "(" + strings.Join(ss, "+") + ")"
	case OBits:
		var ss []string
		i := 0
		for i < 64 {
			b := t.Bits[i]
			j := i
			for j+1 < 64 {
				n := t.Bits[j+1]
				if b.A < 0 && n == b {
					j++
				} else if b.A >= 0 && n.A == b.A && n.N == b.N+uint8(j+1-i) {
					j++
				} else {
					break
				}
			}
			if b != bit0 {
				src := "1"
				if b.A >= 0 {
					src = fmt.Sprintf("%s.%d..%d", t.Args[b.A], b.N, int(b.N)+j-i)
				}
				ss = append(ss, fmt.Sprintf("[%d..%d]=%s", i, j, src))
			}
			i = j + 1
		}
		return "bits{" + strings.Join(ss, " ") + "}"
	case ONot:
		return "!" + t.Args[0].String()
	case OLe0:
		return t.Args[0].String() + "<=0"
	case OEq:
		return t.Args[0].String() + "==" + t.Args[1].String()
	case OIsT:
		return t.Args[0].String() + ".(" + shortType(t.T) + ")"
	case OCat:
		return "cat(" + args() + ")"
	case OUnit:
		return "[" + args() + "]"
	case ORep:
		return "rep(" + args() + ")"
	case OSub:
		return t.Args[0].String() + "[" + t.Args[1].String() + ":" + t.Args[2].String() + "]"
	case OUpd:
		return "upd(" + args() + ")"
	case OElem:
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case OLen:
		return "len(" + args() + ")"
	case OCall:
		return t.S + "(" + args() + ")"
	case OConv:
		return shortType(t.T) + "(" + args() + ")"
	case OIface:
		return "<" + shortType(t.T) + ">" + t.Args[0].String()
	case OAlloc:
		return "&" + t.S
	case OGlobal:
		return "&" + t.S
	case OField:
		return t.Args[0].String() + "." + strconv.FormatInt(t.K, 10)
	case OIndex:
		return "&" + t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case OSlice:
		return "slice(" + args() + ")"
	case OFunc:
		n := t.S
		if t.Fn != nil {
			n = t.Fn.String()
		}
		return "func " + n
	case OTuple:
		return "(" + args() + ")"
	case OStruct:
		return shortType(t.T) + "{" + args() + "}"
	case OBox:
		return "box(" + args() + ")"
	}
	return "?"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// Subst replaces every occurrence of the keys of m in t, renormalising.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = f(a)
			same = same && args[i] == a
		}
		r := t
		if !same {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OLin:
		l := linT{k: t.K}
		for i, a := range args {
			l = l.addTo(toLin(a), t.Co[i])
		}
		return fromLin(l)
	case OBits:
		var v bitVec
		for i := range v.b {
			v.b[i] = bit0
		}
		for i, b := range t.Bits {
			if b.A < 0 {
				v.b[i] = b
				continue
			}
			av, ok := bitsOf(args[b.A])
			if !ok {
				return mk(Term{Op: OCall, S: "bits?", Args: args, T: types.Typ[types.Int64]})
			}
			src := av.b[b.N]
			if src.A >= 0 {
				src.A = v.atom(av.atoms[src.A])
			}
			v.b[i] = src
		}
		return fromBits(v)
	case ONot:
		return Not(args[0])
	case OLe0:
		return Le0(args[0])
	case OEq:
		return Eq(args[0], args[1])
	case OCat:
		return Cat(args...)
	case OLen:
		return Len(args[0])
	case OSub:
		return SubSeq(args[0], args[1], args[2])
	case OElem:
		return Elem(args[0], args[1], t.T)
	case OUpd:
		return mk(Term{Op: OUpd, Args: args})
	case ORep:
		return Rep(args[0], args[1])
	case OConv:
		return Conv(args[0], convSrc(args[0], types.Typ[types.Int64]), t.T)
	case OCall:
		if f, ok := callRules[t.S]; ok {
			return f(args, t.T)
		}
	}
	u := *t
	u.Args = args
	return mk(u)
}

// callRules renormalise interpreted pure calls after substitution.
var callRules = map[string]func(args []*Term, t types.Type) *Term{}

// Walk visits t and its subterms.
func Walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

func Contains(t, x *Term) bool {
	found := false
	Walk(t, func(u *Term) bool {
		if u == x {
			found = true
		}
		return !found
	})
	return found
}

// LowBits is the number in the n lowest bits of x.
func LowBits(x *Term, n int) *Term {
	if x.Op == OInt {
		return Int(x.K & (1<<uint(n) - 1))
	}
	v, ok := bitsOf(x)
	if !ok {
		return Call("low", types.Typ[types.Uint64], x, Int(int64(n)))
	}
	return fromBits(v.trunc(n, false))
}

// ByteOf is the i-th least significant byte of x.
func ByteOf(x *Term, i int) *Term {
	if x.Op == OInt {
		return Int(x.K >> uint(8*i) & 255)
	}
	v, ok := bitsOf(x)
	if !ok {
		return Call("byteof", types.Typ[types.Byte], x, Int(int64(i)))
	}
	return fromBits(v.shr(8*i).trunc(8, false))
}

// SignedWord is the two's complement number whose i-th least significant byte
// is bs[i].
func SignedWord(bs []*Term) *Term {
	v, ok := bitsOf(ByteWord(bs))
	if !ok {
		return Call("sword", types.Typ[types.Int64], bs...)
	}
	return fromBits(v.trunc(8*len(bs), true))
}
