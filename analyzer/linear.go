package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// linear evaluates functions in the domain of bit provenance: each bit of a
// number is an exclusive-or of input bits, a constant, or unknown. Lengths and
// loop counters are constants; memory is exact. Where a condition is not
// decided both outcomes are followed.
type linear struct {
	p       *Prog
	choices []bool // outcomes of undecided conditions: a prefix is fixed
	taken   int
	steps   int
	marks   []interface{}
	eqs     map[string]*lbool
	atoms   int
	ext     map[string]int
	globals map[*ssa.Global]*lobj
	seals   []lseal
	calls   func(l *linear, name string, in ssa.CallInstruction, args []lv) (lv, bool)
	decided map[interface{}]bool
	seen    map[*ssa.Function]bool
	bad     string // why the path ended
	badFn   *ssa.Function
}

type lseal struct{ nonce, pt, ct []lv }

type lv interface{}

// lbit: exclusive-or of atoms, with a constant.
type lbit struct {
	top bool
	one bool
	s   string
}

// lnum is a number; tab and ix when it was read from a table.
type lnum struct {
	b   [64]lbit
	tab []int64
	ix  *lnum
}

type lobj struct{ cells []lv }
type lptr struct {
	o *lobj
	i int
}
type lslice struct {
	o           *lobj
	off, n, cap int
}
type lstr struct{ cells []lv }
type ltuple struct{ vs []lv }
type lagg struct{ o *lobj }   // struct or array by value
type lerr struct{ state int } // 0 unknown, 1 nil, 2 not nil
type lopaque struct{ t types.Type }
type lbool struct{ known, v bool }
type lfn struct {
	f    *ssa.Function
	free []lv
}

type lstop struct{ why string }

func (l *linear) stop(format string, a ...interface{}) {
	panic(lstop{fmt.Sprintf(format, a...)})
}

func (l *linear) atom() string { l.atoms++; return fmt.Sprint(l.atoms) }

func lconst(k uint64) *lnum {
	n := &lnum{}
	for i := range n.b {
		n.b[i].one = k>>uint(i)&1 == 1
	}
	return n
}

// fresh: a number of unknown value with the given number of bits.
func (l *linear) fresh(bits int) *lnum {
	n := &lnum{}
	for i := 0; i < bits; i++ {
		n.b[i].s = l.atom()
	}
	return n
}

func (n *lnum) konst() (uint64, bool) {
	var k uint64
	for i, b := range n.b {
		if b.top || b.s != "" {
			return 0, false
		}
		if b.one {
			k |= 1 << uint(i)
		}
	}
	return k, true
}

func lxor(a, b lbit) lbit {
	if a.top || b.top {
		return lbit{top: true}
	}
	if a.s == "" || b.s == "" {
		return lbit{one: a.one != b.one, s: a.s + b.s}
	}
	m := map[string]bool{}
	for _, x := range append(strings.Split(a.s, ","), strings.Split(b.s, ",")...) {
		m[x] = !m[x]
	}
	var out []string
	for x, on := range m {
		if on {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return lbit{one: a.one != b.one, s: strings.Join(out, ",")}
}

func (b lbit) zero() bool { return !b.top && !b.one && b.s == "" }
func (b lbit) uno() bool  { return !b.top && b.one && b.s == "" }

// trunc: n as a number of type t.
func (n *lnum) trunc(t types.Type) *lnum {
	bits, uns := basicBits(t)
	if bits == 0 || bits >= 64 {
		return n
	}
	hi := lbit{}
	if !uns {
		hi = n.b[bits-1]
	}
	r := &lnum{b: n.b, tab: n.tab, ix: n.ix}
	for i := bits; i < 64; i++ {
		if r.b[i] != hi {
			if !n.b[i].zero() || !hi.zero() {
				r.b[i] = hi
			}
		}
	}
	if n.tab != nil {
		for _, k := range n.tab {
			if bits < 64 && k>>uint(bits) != 0 {
				r.tab, r.ix = nil, nil
				break
			}
		}
	}
	return r
}

func lsame(a, b lv) bool {
	x, ok1 := a.(*lnum)
	y, ok2 := b.(*lnum)
	if !ok1 || !ok2 {
		return a == b
	}
	if x == y {
		return true
	}
	if x.tab != nil && y.tab != nil {
		if !lsame(x.ix, y.ix) || len(x.tab) != len(y.tab) {
			return false
		}
		for i := range x.tab {
			if x.tab[i] != y.tab[i] {
				return false
			}
		}
		return true
	}
	for i := range x.b {
		if x.b[i].top || x.b[i] != y.b[i] {
			return false
		}
	}
	return true
}

func lsameAll(a, b []lv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !lsame(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (s *lslice) cells() []lv { return s.o.cells[s.off : s.off+s.n] }

// bytes makes a slice of n bytes of unknown values.
func (l *linear) bytes(n int) *lslice {
	o := &lobj{}
	for i := 0; i < n; i++ {
		o.cells = append(o.cells, l.fresh(8))
	}
	return &lslice{o, 0, n, n}
}

// unknown: a value of the type about which nothing is known.
func (l *linear) unknown(t types.Type) lv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return &lbool{}
		}
		if bits, uns := basicBits(t); bits > 0 {
			n := l.fresh(bits)
			if !uns {
				for i := bits; i < 64; i++ {
					n.b[i] = n.b[bits-1]
				}
			}
			return n
		}
	case *types.Tuple:
		tu := &ltuple{}
		for i := 0; i < u.Len(); i++ {
			tu.vs = append(tu.vs, l.unknown(u.At(i).Type()))
		}
		return tu
	case *types.Interface:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return &lerr{}
		}
	case *types.Struct:
		o := &lobj{}
		for i := 0; i < u.NumFields(); i++ {
			o.cells = append(o.cells, l.unknown(u.Field(i).Type()))
		}
		return &lagg{o}
	case *types.Array:
		if u.Len() <= 4096 {
			o := &lobj{}
			for i := int64(0); i < u.Len(); i++ {
				o.cells = append(o.cells, l.unknown(u.Elem()))
			}
			return &lagg{o}
		}
	}
	return &lopaque{t}
}

func (l *linear) zeroOf(t types.Type) lv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &lbool{true, false}
		case u.Info()&types.IsInteger != 0:
			return lconst(0)
		case u.Info()&types.IsString != 0:
			return &lstr{}
		}
	case *types.Interface:
		return &lerr{1}
	case *types.Slice:
		return &lslice{&lobj{}, 0, 0, 0}
	case *types.Struct:
		o := &lobj{}
		for i := 0; i < u.NumFields(); i++ {
			o.cells = append(o.cells, l.zeroOf(u.Field(i).Type()))
		}
		return &lagg{o}
	case *types.Array:
		o := &lobj{}
		for i := int64(0); i < u.Len() && i < 1<<16; i++ {
			o.cells = append(o.cells, l.zeroOf(u.Elem()))
		}
		return &lagg{o}
	}
	return &lopaque{t}
}

func lcopy(v lv) lv {
	a, ok := v.(*lagg)
	if !ok {
		return v
	}
	o := &lobj{}
	for _, c := range a.o.cells {
		o.cells = append(o.cells, lcopy(c))
	}
	return &lagg{o}
}

// decide an undecided condition.
func (l *linear) decide(key interface{}) bool {
	if v, ok := l.decided[key]; ok {
		return v
	}
	v := false
	if l.taken < len(l.choices) {
		v = l.choices[l.taken]
	} else {
		l.choices = append(l.choices, false)
	}
	l.taken++
	l.decided[key] = v
	return v
}

func (l *linear) truth(v lv) bool {
	b, ok := v.(*lbool)
	if !ok {
		return l.decide(v)
	}
	if b.known {
		return b.v
	}
	return l.decide(b)
}

type lresult struct {
	res  []lv
	bad  string
	prog *linear
}

// linearRun evaluates body on every combination of undecided conditions.
func (p *Prog) linearRun(body func(l *linear) []lv) (out []lresult) {
	var next []bool
	seen := map[*ssa.Function]bool{}
	for n := 0; n < 512; n++ {
		l := &linear{p: p, choices: next, globals: map[*ssa.Global]*lobj{}, decided: map[interface{}]bool{}, seen: seen}
		res := lresult{prog: l}
		func() {
			defer func() {
				if x := recover(); x != nil {
					s, ok := x.(lstop)
					if !ok {
						panic(x)
					}
					res.bad = s.why
				}
			}()
			res.res = body(l)
		}()
		out = append(out, res)
		// next combination
		next = append([]bool{}, l.choices[:l.taken]...)
		for len(next) > 0 && next[len(next)-1] {
			next = next[:len(next)-1]
		}
		if len(next) == 0 {
			return out
		}
		next[len(next)-1] = true
	}
	return append(out, lresult{bad: "too many combinations"})
}

type lframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]lv
	defers []*ssa.Defer
}

// run evaluates a function.
func (l *linear) run(fn *ssa.Function, args []lv, free []lv, depth int) []lv {
	if depth > 40 || len(fn.Blocks) == 0 {
		l.stop("cannot be followed into %s", fn.Name())
	}
	l.seen[fn] = true
	fr := &lframe{fn: fn, env: map[ssa.Value]lv{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		phis := map[ssa.Value]lv{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == prev {
					phis[ph] = l.val(fr, ph.Edges[i])
				}
			}
		}
		for k, v := range phis {
			fr.env[k] = v
		}
		var nb *ssa.BasicBlock
		for _, in := range b.Instrs {
			if l.steps++; l.steps > 400000 {
				l.stop("does not end")
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				nb = b.Succs[1]
				if l.truth(l.val(fr, in.Cond)) {
					nb = b.Succs[0]
				}
			case *ssa.Jump:
				nb = b.Succs[0]
			case *ssa.Return:
				var out []lv
				for _, r := range in.Results {
					out = append(out, lcopy(l.val(fr, r)))
				}
				return out
			case *ssa.Panic:
				l.stop("panics")
			case *ssa.Store:
				p, ok := l.val(fr, in.Addr).(*lptr)
				if !ok {
					continue
				}
				v := lcopy(l.val(fr, in.Val))
				if a, ok := v.(*lagg); ok && p.i < 0 {
					copy(p.o.cells, a.o.cells)
					continue
				}
				i := p.i
				if i < 0 {
					i = 0
				}
				if i < len(p.o.cells) {
					p.o.cells[i] = v
				}
			case *ssa.Defer:
				fr.defers = append(fr.defers, in)
			case *ssa.RunDefers:
				for i := len(fr.defers) - 1; i >= 0; i-- {
					l.call(fr, fr.defers[i], depth)
				}
			case *ssa.Go, *ssa.Send, *ssa.MapUpdate:
			case ssa.Value:
				fr.env[in] = l.eval(fr, in, depth)
			}
		}
		if nb == nil {
			l.stop("has no way on")
		}
		prev, b = b, nb
	}
}

func (l *linear) val(fr *lframe, v ssa.Value) lv {
	switch v := v.(type) {
	case *ssa.Const:
		return l.konst(v)
	case *ssa.Global:
		return &lptr{l.global(v), -1}
	case *ssa.Function:
		return &lfn{f: v}
	case *ssa.Builtin:
		return &lopaque{}
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	return &lopaque{v.Type()}
}

func (l *linear) konst(c *ssa.Const) lv {
	if c.Value == nil {
		return l.zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &lbool{true, constant.BoolVal(c.Value)}
	case constant.Int:
		if k, ok := constant.Int64Val(c.Value); ok {
			return lconst(uint64(k))
		}
		k, _ := constant.Uint64Val(c.Value)
		return lconst(k)
	case constant.String:
		s := &lstr{}
		for _, b := range []byte(constant.StringVal(c.Value)) {
			s.cells = append(s.cells, lconst(uint64(b)))
		}
		return s
	}
	return &lopaque{c.Type()}
}

// global: the object of a package variable, as the package's initialization leaves it.
func (l *linear) global(g *ssa.Global) *lobj {
	if o := l.globals[g]; o != nil {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	inModule := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	if !inModule {
		o := l.objOf(l.unknown(t))
		l.globals[g] = o
		return o
	}
	for _, m := range g.Pkg.Members {
		if x, ok := m.(*ssa.Global); ok {
			l.globals[x] = l.objOf(l.zeroOf(x.Type().(*types.Pointer).Elem()))
		}
	}
	if init := g.Pkg.Func("init"); init != nil {
		l.run(init, nil, nil, 0)
	}
	return l.globals[g]
}

// objOf: the object that holds a value of a variable.
func (l *linear) objOf(v lv) *lobj {
	if a, ok := v.(*lagg); ok {
		return a.o
	}
	return &lobj{cells: []lv{v}}
}

func (l *linear) load(a lv, t types.Type) lv {
	p, ok := a.(*lptr)
	if !ok {
		return l.unknown(t)
	}
	if p.i >= 0 {
		return lcopy(p.o.cells[p.i])
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return lcopy(&lagg{p.o})
	}
	if len(p.o.cells) == 0 {
		return l.unknown(t)
	}
	return p.o.cells[0]
}

func (l *linear) index(v lv) (int, bool) {
	n, ok := v.(*lnum)
	if !ok {
		return 0, false
	}
	k, ok := n.konst()
	return int(int64(k)), ok
}

// table: the number read from constant cells at an index.
func (l *linear) table(cells []lv, ix *lnum) lv {
	var tab []int64
	for _, c := range cells {
		n, ok := c.(*lnum)
		if !ok {
			return l.fresh(8)
		}
		k, ok := n.konst()
		if !ok {
			return l.fresh(8)
		}
		tab = append(tab, int64(k))
	}
	// what the index can be
	base, dom := ix, []int64(nil)
	if ix.tab != nil {
		base, dom = ix.ix, ix.tab
	} else {
		bits := 0
		for i := 63; i >= 0; i-- {
			if !ix.b[i].zero() {
				bits = i + 1
				break
			}
		}
		if bits > 12 {
			return l.fresh(8)
		}
		for i := int64(0); i < 1<<uint(bits); i++ {
			dom = append(dom, i)
		}
	}
	out := make([]int64, len(dom))
	same := true
	for i, d := range dom {
		if d < 0 || d >= int64(len(tab)) {
			l.stop("reads past the end of a table of %d", len(tab))
		}
		out[i] = tab[d]
		same = same && out[i] == int64(i)
	}
	if same {
		return base
	}
	n := &lnum{tab: out, ix: base}
	for i := 0; i < 8; i++ {
		n.b[i].top = true
	}
	return n
}

func (l *linear) element(cells []lv, idx lv, t types.Type) lv {
	if k, ok := l.index(idx); ok {
		if k < 0 || k >= len(cells) {
			l.stop("reads past the end: element %d of %d", k, len(cells))
		}
		return lcopy(cells[k])
	}
	if n, ok := idx.(*lnum); ok {
		return l.table(cells, n)
	}
	return l.unknown(t)
}

// lelem: address of an element not known to be a certain one.
type lelem struct {
	cells []lv
	ix    lv
}

func (l *linear) eval(fr *lframe, in ssa.Value, depth int) lv {
	switch in := in.(type) {
	case *ssa.Alloc:
		return &lptr{l.objOf(l.zeroOf(in.Type().(*types.Pointer).Elem())), -1}
	case *ssa.UnOp:
		x := l.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			if e, ok := x.(*lelem); ok {
				return l.element(e.cells, e.ix, in.Type())
			}
			return l.load(x, in.Type())
		case token.NOT:
			return &lbool{true, !l.truth(x)}
		case token.SUB, token.XOR:
			if n, ok := x.(*lnum); ok {
				if k, ok := n.konst(); ok {
					if in.Op == token.SUB {
						return lconst(-k).trunc(in.Type())
					}
					return lconst(^k).trunc(in.Type())
				}
				if in.Op == token.XOR {
					r := &lnum{}
					for i := range r.b {
						r.b[i] = lxor(n.b[i], lbit{one: true})
					}
					return r.trunc(in.Type())
				}
			}
		}
		return l.unknown(in.Type())
	case *ssa.BinOp:
		return l.binop(in, l.val(fr, in.X), l.val(fr, in.Y))
	case *ssa.Convert:
		return l.convert(l.val(fr, in.X), in.Type())
	case *ssa.ChangeType:
		return l.val(fr, in.X)
	case *ssa.ChangeInterface:
		return l.val(fr, in.X)
	case *ssa.MakeInterface:
		if types.Identical(in.Type(), types.Universe.Lookup("error").Type()) {
			return &lerr{2}
		}
		return l.val(fr, in.X)
	case *ssa.TypeAssert:
		if in.CommaOk {
			return l.unknown(in.Type())
		}
		return l.val(fr, in.X)
	case *ssa.Extract:
		if t, ok := l.val(fr, in.Tuple).(*ltuple); ok && in.Index < len(t.vs) {
			return t.vs[in.Index]
		}
		return l.unknown(in.Type())
	case *ssa.FieldAddr:
		p, ok := l.val(fr, in.X).(*lptr)
		if !ok {
			return &lopaque{in.Type()}
		}
		o := p.o
		if p.i >= 0 {
			o = l.objOf(p.o.cells[p.i])
		}
		if in.Field >= len(o.cells) {
			return &lopaque{in.Type()}
		}
		if a, ok := o.cells[in.Field].(*lagg); ok {
			return &lptr{a.o, -1}
		}
		return &lptr{o, in.Field}
	case *ssa.Field:
		if a, ok := l.val(fr, in.X).(*lagg); ok && in.Field < len(a.o.cells) {
			return lcopy(a.o.cells[in.Field])
		}
		return l.unknown(in.Type())
	case *ssa.IndexAddr:
		idx := l.val(fr, in.Index)
		var o *lobj
		off, n := 0, 0
		switch x := l.val(fr, in.X).(type) {
		case *lslice:
			o, off, n = x.o, x.off, x.n
		case *lptr:
			if x.i >= 0 {
				a, ok := x.o.cells[x.i].(*lagg)
				if !ok {
					return &lopaque{in.Type()}
				}
				o = a.o
			} else {
				o = x.o
			}
			n = len(o.cells)
		default:
			return &lopaque{in.Type()}
		}
		k, ok := l.index(idx)
		if !ok {
			return &lelem{o.cells[off : off+n], idx}
		}
		if k < 0 || k >= n {
			l.stop("element %d of %d", k, n)
		}
		if a, ok := o.cells[off+k].(*lagg); ok {
			return &lptr{a.o, -1}
		}
		return &lptr{o, off + k}
	case *ssa.Index:
		return l.lookup(l.val(fr, in.X), l.val(fr, in.Index), in.Type())
	case *ssa.Lookup:
		if in.CommaOk {
			return l.unknown(in.Type())
		}
		return l.lookup(l.val(fr, in.X), l.val(fr, in.Index), in.Type())
	case *ssa.Slice:
		return l.slice(fr, in)
	case *ssa.SliceToArrayPointer:
		return &lopaque{in.Type()}
	case *ssa.MakeSlice:
		n, ok := l.index(l.val(fr, in.Len))
		c, ok2 := l.index(l.val(fr, in.Cap))
		if !ok || !ok2 || n < 0 || c < n || c > 1<<16 {
			return &lopaque{in.Type()}
		}
		o := &lobj{}
		el := in.Type().Underlying().(*types.Slice).Elem()
		for i := 0; i < c; i++ {
			o.cells = append(o.cells, l.zeroOf(el))
		}
		return &lslice{o, 0, n, c}
	case *ssa.MakeClosure:
		f := &lfn{f: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.free = append(f.free, l.val(fr, b))
		}
		return f
	case *ssa.Call:
		return l.call(fr, in, depth)
	}
	return l.unknown(in.Type())
}

func (l *linear) lookup(x, idx lv, t types.Type) lv {
	switch x := x.(type) {
	case *lstr:
		return l.element(x.cells, idx, t)
	case *lagg:
		return l.element(x.o.cells, idx, t)
	}
	return l.unknown(t)
}

func (l *linear) slice(fr *lframe, in *ssa.Slice) lv {
	x := l.val(fr, in.X)
	bound := func(v ssa.Value, def int) (int, bool) {
		if v == nil {
			return def, true
		}
		return l.index(l.val(fr, v))
	}
	if s, ok := x.(*lstr); ok {
		lo, ok1 := bound(in.Low, 0)
		hi, ok2 := bound(in.High, len(s.cells))
		if !ok1 || !ok2 {
			return &lopaque{in.Type()}
		}
		if lo < 0 || hi < lo || hi > len(s.cells) {
			l.stop("is cut at %d:%d of %d", lo, hi, len(s.cells))
		}
		return &lstr{s.cells[lo:hi]}
	}
	var sl *lslice
	switch x := x.(type) {
	case *lslice:
		sl = x
	case *lptr:
		o := x.o
		if x.i >= 0 {
			a, ok := x.o.cells[x.i].(*lagg)
			if !ok {
				return &lopaque{in.Type()}
			}
			o = a.o
		}
		sl = &lslice{o, 0, len(o.cells), len(o.cells)}
	default:
		return &lopaque{in.Type()}
	}
	lo, ok1 := bound(in.Low, 0)
	hi, ok2 := bound(in.High, sl.n)
	mx, ok3 := bound(in.Max, sl.cap)
	if !ok1 || !ok2 || !ok3 {
		return &lopaque{in.Type()}
	}
	if lo < 0 || hi < lo || hi > mx || mx > sl.cap {
		l.stop("is cut at %d:%d of %d", lo, hi, sl.cap)
	}
	return &lslice{sl.o, sl.off + lo, hi - lo, mx - lo}
}

func (l *linear) convert(x lv, t types.Type) lv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := x.(*lslice); ok {
				return &lstr{append([]lv{}, s.cells()...)}
			}
			if s, ok := x.(*lstr); ok {
				return s
			}
			return &lopaque{t}
		}
		if n, ok := x.(*lnum); ok && u.Info()&types.IsInteger != 0 {
			return n.trunc(t)
		}
	case *types.Slice:
		if s, ok := x.(*lstr); ok {
			c := append([]lv{}, s.cells...)
			return &lslice{&lobj{c}, 0, len(c), len(c)}
		}
	}
	return l.unknown(t)
}

func (l *linear) nilState(x lv) (nilness int, key interface{}) {
	switch x := x.(type) {
	case *lerr:
		return x.state, x
	case *lslice:
		if x.cap > 0 {
			return 2, x
		}
		return 1, x
	case *lptr, *lfn, *lagg:
		return 2, x
	}
	return 0, x
}

func (l *linear) binop(in *ssa.BinOp, x, y lv) lv {
	a, ok1 := x.(*lnum)
	b, ok2 := y.(*lnum)
	if !ok1 || !ok2 {
		if in.Op != token.EQL && in.Op != token.NEQ {
			return l.unknown(in.Type())
		}
		p, ok1 := x.(*lbool)
		q, ok2 := y.(*lbool)
		if ok1 && ok2 && p.known && q.known {
			return &lbool{true, (p.v == q.v) == (in.Op == token.EQL)}
		}
		isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
		v := x
		if isNil(in.X) {
			v = y
		} else if !isNil(in.Y) {
			s, ok1 := x.(*lstr)
			u, ok2 := y.(*lstr)
			if ok1 && ok2 {
				if len(s.cells) != len(u.cells) {
					return &lbool{true, in.Op == token.NEQ}
				}
				if lsameAll(s.cells, u.cells) {
					return &lbool{true, in.Op == token.EQL}
				}
			}
			return &lbool{}
		}
		st, key := l.nilState(v)
		eq := st == 1
		if st == 0 {
			eq = l.decide(key)
		}
		return &lbool{true, eq == (in.Op == token.EQL)}
	}
	k, okA := a.konst()
	m, okB := b.konst()
	if okA && okB {
		return l.arith(in, k, m)
	}
	t := in.Type()
	if (in.Op == token.QUO || in.Op == token.REM) && okB && m == 0 {
		l.stop("divides by zero")
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		if lsame(a, b) {
			return &lbool{true, in.Op == token.EQL}
		}
		for i := range a.b {
			p, q := a.b[i], b.b[i]
			if !p.top && !q.top && p.s == q.s && p.one != q.one {
				return &lbool{true, in.Op == token.NEQ}
			}
		}
		e := l.equal(a, b)
		if in.Op == token.NEQ {
			return &lbool{true, !l.decide(e)}
		}
		return e
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.ADD:
		r := &lnum{}
		for i := range r.b {
			p, q := a.b[i], b.b[i]
			switch in.Op {
			case token.XOR:
				r.b[i] = lxor(p, q)
				continue
			case token.AND_NOT:
				q = lxor(q, lbit{one: true})
				fallthrough
			case token.AND:
				switch {
				case p.zero() || q.zero():
				case p.uno():
					r.b[i] = q
				case q.uno() || p == q:
					r.b[i] = p
				default:
					r.b[i] = lbit{top: true}
				}
			default:
				switch {
				case p.zero():
					r.b[i] = q
				case q.zero():
					r.b[i] = p
				case in.Op == token.OR && (p.uno() || q.uno()):
					r.b[i] = lbit{one: true}
				case in.Op == token.OR && p == q:
					r.b[i] = p
				case in.Op == token.ADD:
					return l.unknown(t)
				default:
					r.b[i] = lbit{top: true}
				}
			}
		}
		return r.trunc(t)
	case token.SHL, token.SHR:
		if !okB {
			return l.unknown(t)
		}
		r := &lnum{}
		bits, uns := basicBits(in.X.Type())
		_ = bits
		for i := range r.b {
			j := i - int(m)
			if in.Op == token.SHR {
				j = i + int(m)
			}
			if m > 64 {
				j = -1
			}
			if j >= 0 && j < 64 {
				r.b[i] = a.b[j]
			} else if in.Op == token.SHR && !uns {
				r.b[i] = a.b[63]
			}
		}
		return r.trunc(t)
	}
	return l.unknown(t)
}

func (l *linear) arith(in *ssa.BinOp, k, m uint64) lv {
	x, y := int64(k), int64(m)
	_, uns := basicBits(in.X.Type())
	var r uint64
	switch in.Op {
	case token.ADD:
		r = k + m
	case token.SUB:
		r = k - m
	case token.MUL:
		r = k * m
	case token.QUO, token.REM:
		if m == 0 {
			l.stop("divides by zero")
		}
		switch {
		case in.Op == token.QUO && uns:
			r = k / m
		case in.Op == token.QUO:
			r = uint64(x / y)
		case uns:
			r = k % m
		default:
			r = uint64(x % y)
		}
	case token.AND:
		r = k & m
	case token.OR:
		r = k | m
	case token.XOR:
		r = k ^ m
	case token.AND_NOT:
		r = k &^ m
	case token.SHL:
		if m < 64 {
			r = k << m
		}
	case token.SHR:
		if uns {
			if m < 64 {
				r = k >> m
			}
		} else {
			if m > 63 {
				m = 63
			}
			r = uint64(x >> m)
		}
	case token.EQL:
		return &lbool{true, k == m}
	case token.NEQ:
		return &lbool{true, k != m}
	case token.LSS:
		return &lbool{true, uns && k < m || !uns && x < y}
	case token.LEQ:
		return &lbool{true, uns && k <= m || !uns && x <= y}
	case token.GTR:
		return &lbool{true, uns && k > m || !uns && x > y}
	case token.GEQ:
		return &lbool{true, uns && k >= m || !uns && x >= y}
	default:
		return l.unknown(in.Type())
	}
	return lconst(r).trunc(in.Type())
}

// equal: the undecided condition that two numbers are the same.
func (l *linear) equal(a, b *lnum) *lbool {
	key := fmt.Sprint(a.b, b.b)
	if k := fmt.Sprint(b.b, a.b); k < key {
		key = k
	}
	if l.eqs == nil {
		l.eqs = map[string]*lbool{}
	}
	if l.eqs[key] == nil {
		l.eqs[key] = &lbool{}
	}
	return l.eqs[key]
}

// havoc forgets what a value refers to.
func (l *linear) havoc(v lv) {
	switch v := v.(type) {
	case *lslice:
		for i := range v.cells() {
			v.o.cells[v.off+i] = l.fresh(8)
		}
	case *lptr:
		for i := range v.o.cells {
			if _, ok := v.o.cells[i].(*lnum); ok {
				v.o.cells[i] = l.fresh(64)
			} else {
				v.o.cells[i] = &lopaque{}
			}
		}
	}
}

func (l *linear) call(fr *lframe, in ssa.CallInstruction, depth int) lv {
	cc := in.Common()
	var args []lv
	if cc.IsInvoke() {
		args = append(args, l.val(fr, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, l.val(fr, a))
	}
	var res types.Type = cc.Signature().Results()
	if cc.Signature().Results().Len() == 1 {
		res = cc.Signature().Results().At(0).Type()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return l.builtin(b.Name(), args, in)
	}
	wrap := func(out []lv) lv {
		if len(out) == 1 {
			return out[0]
		}
		return &ltuple{out}
	}
	name := ""
	var callee *ssa.Function
	var free []lv
	if cc.IsInvoke() {
		name = "(" + cc.Method.Name() + ")"
	} else {
		switch f := l.val(fr, cc.Value).(type) {
		case *lfn:
			callee, free = f.f, f.free
			name = fname(callee)
		}
	}
	if l.calls != nil {
		if v, ok := l.calls(l, name, in, args); ok {
			return v
		}
	}
	if callee != nil {
		if w, o, put, ok := byteOrder(name); ok {
			return l.order(int(w), o, put, args, res)
		}
		switch {
		case name == "errors.New" || name == "fmt.Errorf":
			return &lerr{2}
		case callee.Name() == "init" && callee.Synthetic != "" && callee.Pkg != fr.fn.Pkg:
			return &ltuple{}
		case callee.Blocks != nil && callee.Pkg != nil && strings.HasPrefix(callee.Pkg.Pkg.Path(), modPath):
			return wrap(l.run(callee, args, free, depth+1))
		}
	}
	switch name {
	case "(Overhead)":
		return lconst(16)
	case "(Seal)":
		dst, ok1 := args[1].(*lslice)
		nonce, ok2 := args[2].(*lslice)
		pt, ok3 := args[3].(*lslice)
		if ok1 && ok2 && ok3 {
			if nonce.n != 12 {
				l.stop("seals with a nonce of %d bytes", nonce.n)
			}
			ct := l.bytes(pt.n + 16)
			l.seals = append(l.seals, lseal{append([]lv{}, nonce.cells()...), append([]lv{}, pt.cells()...), append([]lv{}, ct.cells()...)})
			return l.appendTo(dst, ct.cells())
		}
	case "(Open)":
		dst, ok1 := args[1].(*lslice)
		nonce, ok2 := args[2].(*lslice)
		ct, ok3 := args[3].(*lslice)
		if ok1 && ok2 && ok3 {
			if nonce.n != 12 {
				l.stop("opens with a nonce of %d bytes", nonce.n)
			}
			for _, s := range l.seals {
				if lsameAll(s.nonce, nonce.cells()) && lsameAll(s.ct, ct.cells()) {
					return &ltuple{[]lv{l.appendTo(dst, s.pt), &lerr{1}}}
				}
			}
			return &ltuple{[]lv{&lslice{&lobj{}, 0, 0, 0}, &lerr{2}}}
		}
	}
	for _, a := range args {
		l.havoc(a)
	}
	return l.unknown(res)
}

// order models reads and writes of numbers in bytes.
func (l *linear) order(w int, o string, put bool, args []lv, res types.Type) lv {
	n := len(args)
	bi := n - 1
	if put {
		bi = n - 2
	}
	s, ok := args[bi].(*lslice)
	if !ok {
		return l.unknown(res)
	}
	if s.n < w {
		l.stop("needs %d bytes of %d", w, s.n)
	}
	at := func(i int) int { // byte of the number at position i
		if o == "BE" {
			return w - 1 - i
		}
		return i
	}
	if put {
		x, ok := args[n-1].(*lnum)
		for i := 0; i < w; i++ {
			c := l.fresh(8)
			if ok {
				c = &lnum{}
				copy(c.b[:8], x.b[at(i)*8:at(i)*8+8])
			}
			s.o.cells[s.off+i] = c
		}
		return &ltuple{}
	}
	r := &lnum{}
	for i := 0; i < w; i++ {
		c, ok := s.o.cells[s.off+i].(*lnum)
		if !ok {
			return l.unknown(res)
		}
		copy(r.b[at(i)*8:at(i)*8+8], c.b[:8])
	}
	return r
}

// appendTo: as append does, in place where there is room.
func (l *linear) appendTo(s *lslice, cells []lv) *lslice {
	cells = append([]lv{}, cells...)
	if s.n+len(cells) <= s.cap {
		copy(s.o.cells[s.off+s.n:], cells)
		return &lslice{s.o, s.off, s.n + len(cells), s.cap}
	}
	c := append(append([]lv{}, s.cells()...), cells...)
	return &lslice{&lobj{c}, 0, len(c), len(c)}
}

func (l *linear) builtin(name string, args []lv, in ssa.CallInstruction) lv {
	contents := func(v lv) ([]lv, bool) {
		switch v := v.(type) {
		case *lslice:
			return v.cells(), true
		case *lstr:
			return v.cells, true
		}
		return nil, false
	}
	switch name {
	case "len":
		if c, ok := contents(args[0]); ok {
			return lconst(uint64(len(c)))
		}
	case "cap":
		if s, ok := args[0].(*lslice); ok {
			return lconst(uint64(s.cap))
		}
	case "append":
		s, ok1 := args[0].(*lslice)
		c, ok2 := contents(args[1])
		if ok1 && ok2 {
			return l.appendTo(s, c)
		}
	case "copy":
		s, ok1 := args[0].(*lslice)
		c, ok2 := contents(args[1])
		if ok1 && ok2 {
			return lconst(uint64(copy(s.cells(), append([]lv{}, c...))))
		}
		l.havoc(args[0])
	}
	if v, ok := in.(ssa.Value); ok {
		return l.unknown(v.Type())
	}
	return &ltuple{}
}
