package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of a symbolic value.
type Op uint8

const (
	OConst   Op = iota // aux = exact constant; cv
	ONil               // nil of any type
	ONonNil            // marker used only as a fact
	OParam             // root parameter
	OGlobal            // address of a package-level variable
	OFunc              // function constant
	OClosure           // function + bindings
	OAlloc             // address of a local/heap allocation site
	OFAddr             // address of field: args[0], fld
	OIAddr             // address of element: args[0], args[1]
	OLoad              // initial contents of an address (optionally of a version)
	OField             // field of a struct value
	OElem              // element of an array value
	OCall              // result of an opaque call (site)
	OExt               // component of a tuple
	OBin               // binary operator
	ONot               // logical negation
	ONeg               // arithmetic negation / complement
	OPhi               // opaque induction value
	OLen
	OCap
	OSlice  // args base, lo, hi (nil when absent)
	OMake   // make(map/chan/slice) site
	OAppend // append(args...)
	OLookup // map lookup (m,k) at a site
	ORange  // range iterator
	ONext   // iteration tuple (site)
	ORecv   // channel receive (site)
	OAssert // type assertion
	OComp   // struct value with field overrides: args[0] base, then flds/vals
	OConv   // numeric conversion
	OFresh  // anything else, by site
	OStale  // value of an earlier execution of a site
	OZero   // zero value of a type
)

var opNames = [...]string{"const", "nil", "nonnil", "param", "global", "func", "closure", "alloc", "&field", "&elem", "load", "field", "elem", "call", "ext", "bin", "not", "neg", "phi", "len", "cap", "slice", "make", "append", "lookup", "range", "next", "recv", "assert", "comp", "conv", "fresh", "stale", "zero"}

// Val is an interned symbolic value.
type Val struct {
	id    int
	op    Op
	args  []*Val
	aux   string
	idx   int
	fld   *types.Var
	flds  []*types.Var
	fn    *ssa.Function
	typ   types.Type // static type; for interface values the dynamic type when known
	cv    constant.Value
	site  ssa.Instruction
	depth int
	sites map[*Val]bool // site-generated values contained in this value (incl. itself)
	// induction
	init, step *Val
	loopKey    string
}

func (v *Val) String() string {
	if v == nil {
		return "_"
	}
	switch v.op {
	case OConst:
		return v.cv.ExactString()
	case ONil:
		return "nil"
	case ONonNil:
		return "nonnil"
	case OParam:
		return v.aux
	case OGlobal:
		return "&" + v.aux
	case OFunc:
		return v.fn.String()
	case OClosure:
		return "closure " + v.fn.String()
	case OAlloc:
		return "&local:" + v.aux
	case OFAddr:
		return "&" + strings.TrimPrefix(v.args[0].String(), "&") + "." + v.fld.Name()
	case OIAddr:
		return "&" + strings.TrimPrefix(v.args[0].String(), "&") + "[" + v.args[1].String() + "]"
	case OLoad:
		return "*" + v.args[0].String()
	case OField:
		return v.args[0].String() + "." + v.fld.Name()
	case OBin:
		return "(" + v.args[0].String() + " " + v.aux + " " + v.args[1].String() + ")"
	case OExt:
		return v.args[0].String() + "#" + fmt.Sprint(v.idx)
	case OCall:
		return v.aux + "()"
	}
	var as []string
	for _, a := range v.args {
		as = append(as, a.String())
	}
	return opNames[v.op] + "(" + strings.Join(as, ",") + ")"
}

type interner struct {
	tab map[string]*Val
	n   int
}

func newInterner() *interner { return &interner{tab: map[string]*Val{}} }

func siteOp(op Op) bool {
	switch op {
	case OAlloc, OCall, OPhi, OMake, OLookup, ORange, ONext, ORecv, OFresh:
		return true
	}
	return false
}

func (in *interner) mk(v Val) *Val {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|", v.op, v.aux, v.idx)
	if v.fld != nil {
		fmt.Fprintf(&b, "%p", v.fld)
	}
	b.WriteByte('|')
	for _, f := range v.flds {
		fmt.Fprintf(&b, "%p,", f)
	}
	b.WriteByte('|')
	if v.fn != nil {
		fmt.Fprintf(&b, "%p", v.fn)
	}
	b.WriteByte('|')
	if v.op == OConst {
		b.WriteString(v.cv.ExactString())
	}
	for _, a := range v.args {
		if a == nil {
			b.WriteString("_,")
		} else {
			fmt.Fprintf(&b, "%d,", a.id)
		}
	}
	k := b.String()
	if o := in.tab[k]; o != nil {
		return o
	}
	in.n++
	n := v
	n.id = in.n
	for _, a := range v.args {
		if a == nil {
			continue
		}
		if a.depth+1 > n.depth {
			n.depth = a.depth + 1
		}
		for s := range a.sites {
			if n.sites == nil {
				n.sites = map[*Val]bool{}
			}
			n.sites[s] = true
		}
	}
	p := &n
	if siteOp(v.op) {
		if p.sites == nil {
			p.sites = map[*Val]bool{}
		}
		p.sites[p] = true
	}
	in.tab[k] = p
	return p
}

// mentions reports whether v contains site value s.
func (v *Val) mentions(s *Val) bool { return v != nil && v.sites[s] }

func (in *interner) constant(c constant.Value, t types.Type) *Val {
	if c == nil {
		return in.mk(Val{op: ONil, typ: t})
	}
	return in.mk(Val{op: OConst, cv: c, typ: t})
}
func (in *interner) boolean(b bool) *Val {
	return in.mk(Val{op: OConst, cv: constant.MakeBool(b), typ: types.Typ[types.Bool]})
}
func (in *interner) integer(i int64) *Val {
	return in.mk(Val{op: OConst, cv: constant.MakeInt64(i), typ: types.Typ[types.Int]})
}

func (v *Val) isConst() bool { return v != nil && v.op == OConst }
func (v *Val) constInt() (int64, bool) {
	if v == nil || v.op != OConst || v.cv.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.cv)
}
func (v *Val) boolConst() (bool, bool) {
	if v == nil || v.op != OConst || v.cv.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.cv), true
}

// not builds the canonical negation.
func (in *interner) not(v *Val) *Val {
	if b, ok := v.boolConst(); ok {
		return in.boolean(!b)
	}
	if v.op == ONot {
		return v.args[0]
	}
	return in.mk(Val{op: ONot, args: []*Val{v}, typ: v.typ})
}

// bin builds a canonical binary expression.
func (in *interner) bin(op token.Token, x, y *Val, t types.Type) *Val {
	if x.op == OConst && y.op == OConst {
		if r := foldBin(op, x.cv, y.cv, t); r != nil {
			return in.mk(Val{op: OConst, cv: r, typ: t})
		}
	}
	switch op {
	case token.NEQ:
		return in.not(in.bin(token.EQL, x, y, t))
	case token.GTR:
		return in.bin(token.LSS, y, x, t)
	case token.GEQ:
		return in.not(in.bin(token.LSS, x, y, t))
	case token.LEQ:
		return in.not(in.bin(token.LSS, y, x, t))
	case token.EQL, token.MUL, token.AND, token.OR, token.XOR:
		if x.op == OConst && y.op != OConst || (x.op != OConst) == (y.op != OConst) && x.id > y.id {
			x, y = y, x
		}
		if x.op == ONil {
			x, y = y, x
		}
	case token.ADD:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			if x.op == OConst && y.op != OConst || (x.op != OConst) == (y.op != OConst) && x.id > y.id {
				x, y = y, x
			}
		}
	}
	if op == token.EQL && y.op == OConst && y.cv.Kind() == constant.Bool {
		if constant.BoolVal(y.cv) {
			return x
		}
		return in.not(x)
	}
	if (op == token.ADD || op == token.SUB || op == token.OR || op == token.SHL || op == token.SHR) && y.op == OConst && y.cv.Kind() == constant.Int && constant.Sign(y.cv) == 0 {
		return x
	}
	return in.mk(Val{op: OBin, aux: op.String(), args: []*Val{x, y}, typ: t})
}

func foldBin(op token.Token, x, y constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(x, op, y))
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(y)
		if !ok || n > 64 {
			return nil
		}
		return constant.Shift(x, op, uint(n))
	case token.QUO:
		if constant.Sign(y) == 0 {
			return nil
		}
		if x.Kind() == constant.Int && y.Kind() == constant.Int {
			return constant.BinaryOp(x, token.QUO_ASSIGN, y)
		}
	case token.AND_NOT:
	}
	return constant.BinaryOp(x, op, y)
}

// Tag is one fact of the rule's automaton, optionally about a value.
type Tag struct {
	N string
	V *Val
}

func (t Tag) key() string {
	if t.V == nil {
		return t.N
	}
	return fmt.Sprintf("%s:%d", t.N, t.V.id)
}

// State is the abstract state along a path.
type State struct {
	tags  []Tag // sorted by key
	mem   map[*Val]*Val
	facts map[*Val]*Val
}

func newState() *State { return &State{mem: map[*Val]*Val{}, facts: map[*Val]*Val{}} }

func (s *State) clone() *State {
	n := &State{tags: append([]Tag(nil), s.tags...), mem: make(map[*Val]*Val, len(s.mem)), facts: make(map[*Val]*Val, len(s.facts))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

func (s *State) Has(n string) bool {
	for _, t := range s.tags {
		if t.N == n {
			return true
		}
	}
	return false
}
func (s *State) HasV(n string, v *Val) bool {
	for _, t := range s.tags {
		if t.N == n && t.V == v {
			return true
		}
	}
	return false
}
func (s *State) Find(n string) []*Val {
	var r []*Val
	for _, t := range s.tags {
		if t.N == n {
			r = append(r, t.V)
		}
	}
	return r
}
func (s *State) WithPrefix(p string) []Tag {
	var r []Tag
	for _, t := range s.tags {
		if strings.HasPrefix(t.N, p) {
			r = append(r, t)
		}
	}
	return r
}
func (s *State) Add(n string, v ...*Val) {
	t := Tag{N: n}
	if len(v) > 0 {
		t.V = v[0]
	}
	for _, o := range s.tags {
		if o == t {
			return
		}
	}
	s.tags = append(s.tags, t)
	s.sortTags()
}
func (s *State) sortTags() {
	sort.Slice(s.tags, func(i, j int) bool { return s.tags[i].key() < s.tags[j].key() })
}
func (s *State) Del(n string) {
	var r []Tag
	for _, t := range s.tags {
		if t.N != n {
			r = append(r, t)
		}
	}
	s.tags = r
}
func (s *State) DelV(n string, v *Val) {
	var r []Tag
	for _, t := range s.tags {
		if t.N != n || t.V != v {
			r = append(r, t)
		}
	}
	s.tags = r
}
func (s *State) DelPrefix(p string) {
	var r []Tag
	for _, t := range s.tags {
		if !strings.HasPrefix(t.N, p) {
			r = append(r, t)
		}
	}
	s.tags = r
}

func (s *State) tagKey() string {
	var b strings.Builder
	for _, t := range s.tags {
		b.WriteString(t.key())
		b.WriteByte(';')
	}
	return b.String()
}

func (s *State) key() string {
	var b strings.Builder
	b.WriteString(s.tagKey())
	b.WriteByte('|')
	b.WriteString(mapKey(s.mem))
	b.WriteByte('|')
	b.WriteString(mapKey(s.facts))
	return b.String()
}

func mapKey(m map[*Val]*Val) string {
	ks := make([]*Val, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d=%d,", k.id, m[k].id)
	}
	return b.String()
}
