package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxNode identifies a chain of inlined call sites.
type ctxNode struct {
	id     int
	parent *ctxNode
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type deferred struct {
	site *ssa.Defer
	call callInfo
}

// frame is one activation of an inlined function.
type frame struct {
	fn     *ssa.Function
	ctx    *ctxNode
	env    map[ssa.Value]*Val
	binds  []*Val
	defers []deferred
	parent *frame
	cur    ssa.Instruction
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

// Exit is one way a function returned.
type Exit struct {
	st  *State
	res []*Val
}

// Ctx is what hooks see.
type Ctx struct {
	E  *Engine
	St *State
	fr *frame
	In ssa.Instruction
}

type callInfo struct {
	common *ssa.CallCommon
	callee *ssa.Function // resolved, nil for unknown
	name   string        // qualified name, "" when unknown; "builtin.x" for builtins
	args   []*Val        // receiver first
	binds  []*Val
	fnv    *Val
}

// CallCtx describes a call to a hook.
type CallCtx struct {
	*Ctx
	Name     string
	Callee   *ssa.Function
	Args     []*Val
	Res      *Val // opaque result
	Sig      *types.Signature
	Common   *ssa.CallCommon
	IsGo     bool
	IsDefer  bool
	outcomes []func(*State)
	handled  bool
	result   *Val
	noret    bool
	inline   int // 1 force inline, 2 force opaque
}

// Fork adds an outcome; when any was added each is explored separately.
func (c *CallCtx) Fork(f func(*State)) { c.outcomes = append(c.outcomes, f); c.handled = true }
func (c *CallCtx) SetResult(v *Val)    { c.result = v; c.handled = true }
func (c *CallCtx) Opaque()             { c.inline = 2 }
func (c *CallCtx) NoReturn()           { c.noret = true; c.handled = true }

// ErrRes is the error component of the call's result, nil when there is none.
func (c *CallCtx) ErrRes() *Val {
	r := c.Sig.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if isErrType(r.At(i).Type()) {
			if r.Len() == 1 {
				return c.Res
			}
			return c.E.ext(c.Res, i, r.At(i).Type())
		}
	}
	return nil
}

// ForkErr explores failure and success of a fallible call.
func (c *CallCtx) ForkErr(ok, fail func(*State)) {
	er := c.ErrRes()
	if er == nil {
		c.Fork(func(s *State) {
			if ok != nil {
				ok(s)
			}
		})
		return
	}
	c.Fork(func(s *State) {
		c.E.setFact(s, er, c.E.vNil)
		if ok != nil {
			ok(s)
		}
	})
	c.Fork(func(s *State) {
		c.E.setFact(s, er, c.E.vNonNil)
		if fail != nil {
			fail(s)
		}
	})
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// isErrType: error, or a pointer to a type that implements it.
func isErrType(t types.Type) bool {
	if t == nil {
		return false
	}
	if isErrorType(t) {
		return true
	}
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == "Error" {
			sg := m.Type().(*types.Signature)
			return sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), types.Typ[types.String])
		}
	}
	return false
}

// Hooks parameterise an analysis.
type Hooks struct {
	// Interesting marks an instruction that makes its function worth inlining.
	Interesting func(in ssa.Instruction) bool
	Call        func(c *CallCtx)
	Assume      func(c *Ctx, cond *Val, truth bool)
	Store       func(c *Ctx, addr, val *Val)
	Load        func(c *Ctx, addr *Val)
	MapRead     func(c *Ctx, m, k *Val)
	MapWrite    func(c *Ctx, m, k, v *Val)
	Range       func(c *Ctx, x *Val)
	Send        func(c *Ctx, ch, v *Val)
	Recv        func(c *Ctx, ch *Val)
	Index       func(c *Ctx, base, idx *Val, typ types.Type)
	Slice       func(c *Ctx, v *Val)
	Assert      func(c *Ctx, x *Val, t types.Type) // without a second result
	Return      func(c *Ctx, fn *ssa.Function, res []*Val) // every inlined function and the root
	Exit        func(c *Ctx, fn *ssa.Function, res []*Val) // root only
	Enter       func(c *Ctx, fn *ssa.Function, args []*Val)
	Back        func(c *Ctx, l *loop, fn *ssa.Function)
	LoopEnter   func(c *Ctx, l *loop, fn *ssa.Function)
	LoopExit    func(c *Ctx, l *loop, fn *ssa.Function)
	GoInline    func(c *CallCtx) bool
	KeepFact    func(v *Val) bool
	Panic       func(c *Ctx)
	NonNil      func(f *types.Var) bool // fields that are set before the object is used
	MaxDepth    int
	NoPrune     bool
	// Root arguments
	RootArg func(e *Engine, fn *ssa.Function, i int, p *ssa.Parameter) *Val
}

// Engine explores every path of a root function, with calls inlined.
type Engine struct {
	P        *Prog
	H        *Hooks
	in       *interner
	vNil     *Val
	vNonNil  *Val
	vTrue    *Val
	vFalse   *Val
	ctxs     map[string]*ctxNode
	relev    map[*ssa.Function]int
	steps    int
	maxSteps int
	over     bool
	reports  map[string]*Finding
	order    []string
	stack    []*frame
	inlined  map[*ssa.Function]bool
	calls    map[ssa.Instruction]bool
	paths    int
	recur    map[*ssa.Function]bool
	debug    bool
	hot      map[string]int
	siteCtx  map[*Val]*ctxNode
	fldTypes map[*types.Var][]types.Type
	leafs    map[*ssa.Function]bool
	widened  map[string]map[*Val]bool
	joins    int
	pred     *ssa.BasicBlock // the block control comes from, in LoopEnter and Back
}

// Finding is one report.
type Finding struct {
	Key   string
	Msg   string
	Where string
	Path  []string
}

func newEngine(p *Prog, h *Hooks) *Engine {
	e := &Engine{P: p, H: h, in: newInterner(), ctxs: map[string]*ctxNode{}, relev: map[*ssa.Function]int{}, maxSteps: 3000000,
		reports: map[string]*Finding{}, inlined: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{}, recur: map[*ssa.Function]bool{}}
	e.vNil = e.in.mk(Val{op: ONil})
	e.vNonNil = e.in.mk(Val{op: ONonNil})
	e.vTrue = e.in.boolean(true)
	e.vFalse = e.in.boolean(false)
	e.debug = os.Getenv("SA_DEBUG") != ""
	return e
}

// relevant: does fn or anything it calls contain an interesting instruction.
func (e *Engine) relevant(fn *ssa.Function) bool {
	if e.H.NoPrune || e.H.Interesting == nil {
		return true
	}
	if r, ok := e.relev[fn]; ok {
		return r == 1
	}
	set := e.P.reach(fn)
	res := 2
	for g := range set {
		if r, ok := e.relev[g]; ok && r == 1 {
			res = 1
			break
		}
		if e.selfInteresting(g) {
			res = 1
			break
		}
	}
	e.relev[fn] = res
	return res == 1
}

// leaf: a small function without loops that calls no module function but leaves.
func (e *Engine) leaf(g *ssa.Function, d int) bool {
	if d > 3 || len(g.Blocks) == 0 || len(g.Blocks) > 6 {
		return false
	}
	if r, ok := e.leafs[g]; ok {
		return r
	}
	if e.leafs == nil {
		e.leafs = map[*ssa.Function]bool{}
	}
	ok := len(e.P.loopsOf(g).loops) == 0
	n := 0
	for _, b := range g.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure:
				ok = false
			case *ssa.Call:
				if x.Call.IsInvoke() {
					ok = false
				} else if f := x.Call.StaticCallee(); f != nil && e.P.inModule(f) && !e.leaf(f, d+1) {
					ok = false
				}
			}
		}
	}
	ok = ok && n <= 80
	e.leafs[g] = ok
	return ok
}

func (e *Engine) selfInteresting(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if e.H.Interesting(in) {
				return true
			}
		}
	}
	return false
}

func dumpState(st *State) {
	for _, t := range st.tags {
		fmt.Fprintln(os.Stderr, "tag", t.N, t.V)
	}
	for k, v := range st.mem {
		fmt.Fprintln(os.Stderr, "mem", k, v)
	}
	for k, v := range st.facts {
		fmt.Fprintln(os.Stderr, "fact", k, v)
	}
}

func (c *Ctx) Report(key, format string, a ...interface{}) {
	c.E.report(c, key, fmt.Sprintf(format, a...))
}

func (e *Engine) report(c *Ctx, key, msg string) {
	if _, ok := e.reports[key]; ok {
		return
	}
	f := &Finding{Key: key, Msg: msg}
	if c != nil {
		f.Where = e.P.instrPos(c.In)
		for fr := c.fr; fr != nil; fr = fr.parent {
			f.Path = append([]string{fname(fr.fn) + " (" + e.P.instrPos(fr.cur) + ")"}, f.Path...)
		}
	}
	if os.Getenv("SA_STATE") != "" && c != nil {
		fmt.Fprintln(os.Stderr, "==", key)
		dumpState(c.St)
		for fr := c.fr; fr != nil; fr = fr.parent {
			for k, v := range fr.env {
				fmt.Fprintln(os.Stderr, "env", fname(fr.fn), k.Name(), v)
			}
		}
	}
	e.reports[key] = f
	e.order = append(e.order, key)
}

// Fn is the function the hook's instruction is in.
func (c *Ctx) Fn() *ssa.Function { return c.fr.fn }

// Pos prints the position of the current instruction.
func (c *Ctx) Pos() string { return c.E.P.instrPos(c.In) }

// Stack lists the inlined functions, innermost first.
func (c *Ctx) Stack() []*ssa.Function {
	var r []*ssa.Function
	for f := c.fr; f != nil; f = f.parent {
		r = append(r, f.fn)
	}
	return r
}

// InFn reports whether fn is on the inlining stack.
func (c *Ctx) InFn(fn *ssa.Function) bool {
	for f := c.fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) child(p *ctxNode, site ssa.Instruction, fn *ssa.Function) *ctxNode {
	pid, d := 0, 0
	if p != nil {
		pid, d = p.id, p.depth+1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, site, fn)
	if c := e.ctxs[k]; c != nil {
		return c
	}
	c := &ctxNode{id: len(e.ctxs) + 1, parent: p, site: site, fn: fn, depth: d}
	e.ctxs[k] = c
	return c
}

type siteInfo struct {
	ctx *ctxNode
	in  ssa.Instruction
}

func (e *Engine) site(fr *frame, in ssa.Instruction, op Op, aux string, t types.Type, args ...*Val) *Val {
	v := e.in.mk(Val{op: op, aux: fmt.Sprintf("%s@%d/%p", aux, fr.ctx.id, in), typ: t, args: args, site: in})
	if _, ok := e.siteCtx[v]; !ok {
		if e.siteCtx == nil {
			e.siteCtx = map[*Val]*ctxNode{}
		}
		e.siteCtx[v] = fr.ctx
	}
	return v
}

func (e *Engine) ext(t *Val, i int, typ types.Type) *Val {
	if t.op == OComp && t.fn == nil && len(t.flds) == 0 && t.aux == "tuple" && i < len(t.args) {
		return t.args[i]
	}
	return e.in.mk(Val{op: OExt, args: []*Val{t}, idx: i, typ: typ})
}

func (e *Engine) tuple(vs []*Val) *Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return e.in.mk(Val{op: OComp, aux: "tuple", args: vs})
}

func (e *Engine) zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.vFalse
		case u.Info()&types.IsNumeric != 0:
			return e.in.constant(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return e.in.constant(constant.MakeString(""), t)
		}
		return e.vNil
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return e.vNil
	}
	return e.in.mk(Val{op: OZero, aux: t.String(), typ: t})
}

// fieldOf selects a field of a struct value.
func (e *Engine) fieldOf(v *Val, f *types.Var) *Val {
	switch v.op {
	case OComp:
		for i, g := range v.flds {
			if g == f {
				return v.args[i+1]
			}
		}
		if len(v.args) > 0 && v.aux != "tuple" {
			return e.fieldOf(v.args[0], f)
		}
	case OZero:
		return e.zero(f.Type())
	case OLoad:
		a := e.in.mk(Val{op: OFAddr, args: []*Val{v.args[0]}, fld: f})
		args := append([]*Val{a}, v.args[1:]...)
		return e.in.mk(Val{op: OLoad, args: args, typ: f.Type()})
	}
	return e.in.mk(Val{op: OField, args: []*Val{v}, fld: f, typ: f.Type()})
}

func (e *Engine) faddr(b *Val, f *types.Var) *Val {
	return e.in.mk(Val{op: OFAddr, args: []*Val{b}, fld: f, typ: types.NewPointer(f.Type())})
}

func (e *Engine) wild(f *types.Var) *Val {
	return e.in.mk(Val{op: OFresh, aux: "wild", fld: f})
}

// load reads an address.
func (e *Engine) load(st *State, a *Val, t types.Type) *Val {
	if v, ok := st.mem[a]; ok {
		// whole value possibly with overrides below
		if structOf(t) != nil && !isPtr(t) {
			return e.compose(st, a, v, t)
		}
		return v
	}
	switch a.op {
	case OFAddr:
		// an enclosing struct value may be known
		if _, ok := e.enclosing(st, a); ok {
			b := e.load(st, a.args[0], derefT(a.args[0].typ, a.fld))
			if b != nil {
				r := e.fieldOf(b, a.fld)
				if structOf(t) != nil && !isPtr(t) {
					return e.compose(st, a, r, t)
				}
				return r
			}
		}
		if !e.P.isStable(a.fld) {
			if w, ok := st.mem[e.wild(a.fld)]; ok {
				return e.in.mk(Val{op: OLoad, args: []*Val{a, w}, typ: t})
			}
		}
	case OGlobal:
		if isErrType(t) {
			return e.in.mk(Val{op: OLoad, args: []*Val{a}, typ: t})
		}
	case OIAddr:
		if a.args[0].op == OAlloc {
			if v, ok := st.mem[a.args[0]]; ok {
				if v.op == OZero {
					return e.zero(t)
				}
			}
		}
	}
	base := e.in.mk(Val{op: OLoad, args: []*Val{a}, typ: t})
	if structOf(t) != nil && !isPtr(t) {
		return e.compose(st, a, base, t)
	}
	return base
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func derefT(t types.Type, f *types.Var) types.Type {
	if t == nil {
		return f.Type()
	}
	return deref(t)
}

// enclosing finds whether some prefix of address a has an explicit value.
func (e *Engine) enclosing(st *State, a *Val) (*Val, bool) {
	for b := a; b.op == OFAddr; {
		b = b.args[0]
		if _, ok := st.mem[b]; ok && (b.op == OAlloc || b.op == OFAddr || b.op == OIAddr || b.op == OParam && b.typ != nil && structOf(deref(b.typ)) != nil) {
			return b, true
		}
	}
	return nil, false
}

// compose applies field overrides stored below address a to value v.
func (e *Engine) compose(st *State, a, v *Val, t types.Type) *Val {
	s := structOf(t)
	if s == nil {
		return v
	}
	any := false
	for k := range st.mem {
		if k.op == OFAddr && under(k, a) {
			any = true
			break
		}
	}
	if !any {
		return v
	}
	var flds []*types.Var
	args := []*Val{v}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fa := e.faddr(a, f)
		var fv *Val
		if x, ok := st.mem[fa]; ok {
			fv = e.compose(st, fa, x, f.Type())
			if isPtr(f.Type()) {
				fv = x
			}
		} else if !isPtr(f.Type()) && structOf(f.Type()) != nil {
			x := e.compose(st, fa, e.fieldOf(v, f), f.Type())
			if x == e.fieldOf(v, f) {
				continue
			}
			fv = x
		} else {
			continue
		}
		flds = append(flds, f)
		args = append(args, fv)
	}
	if len(flds) == 0 {
		return v
	}
	return e.in.mk(Val{op: OComp, args: args, flds: flds, typ: t})
}

// under: is address k strictly below a.
func under(k, a *Val) bool {
	for k.op == OFAddr || k.op == OIAddr {
		k = k.args[0]
		if k == a {
			return true
		}
	}
	return false
}

func distinctBase(a, b *Val) bool {
	if a == b {
		return false
	}
	fresh := func(v *Val) bool { return v.op == OAlloc || v.op == OGlobal }
	if fresh(a) && fresh(b) {
		return true
	}
	if (a.op == OAlloc && (b.op == OParam || b.op == OLoad)) || (b.op == OAlloc && (a.op == OParam || a.op == OLoad)) {
		return true
	}
	return false
}

func addrRoot(a *Val) *Val {
	for a.op == OFAddr || a.op == OIAddr {
		a = a.args[0]
	}
	return a
}

// store writes an address.
func (e *Engine) store(st *State, a, v *Val) {
	for k := range st.mem {
		if k == a {
			continue
		}
		if under(k, a) {
			delete(st.mem, k)
			continue
		}
		switch a.op {
		case OFAddr:
			if k.op == OFAddr && k.fld == a.fld && k.args[0] != a.args[0] && !distinctBase(addrRoot(k), addrRoot(a)) {
				delete(st.mem, k)
				// unknown alias: drop to a havocked value
				st.mem[e.wild(a.fld)] = e.in.mk(Val{op: OFresh, aux: "alias", fld: a.fld})
			}
		case OIAddr:
			if k.op == OIAddr && k.args[0] == a.args[0] && k.args[1] != a.args[1] && !(k.args[1].op == OConst && a.args[1].op == OConst) {
				delete(st.mem, k)
			}
		}
	}
	st.mem[a] = v
}

func (e *Engine) havoc(st *State, m *modset, w *Val) {
	for k := range st.mem {
		if k.op == OFAddr && m.flds[k.fld] {
			delete(st.mem, k)
		}
	}
	for f := range m.flds {
		if !e.P.isStable(f) {
			st.mem[e.wild(f)] = w
		}
	}
	// fields of objects whose whole value is known
	var whole []*Val
	for k, v := range st.mem {
		if (k.op == OAlloc || k.op == OFAddr || k.op == OIAddr) && (v.op == OZero || v.op == OComp) && k.typ != nil && shared(k) {
			if t := structOf(deref(k.typ)); t != nil {
				for i := 0; i < t.NumFields(); i++ {
					if m.flds[t.Field(i)] {
						whole = append(whole, k)
						break
					}
				}
			}
		}
	}
	for _, k := range whole {
		t := structOf(deref(k.typ))
		for i := 0; i < t.NumFields(); i++ {
			if f := t.Field(i); m.flds[f] {
				st.mem[e.faddr(k, f)] = e.in.mk(Val{op: OField, args: []*Val{e.pair("havoc", w, k)}, fld: f, typ: f.Type()})
			}
		}
	}
}

// shared: may a callee reach the object.
func shared(a *Val) bool {
	for a.op == OFAddr || a.op == OIAddr {
		a = a.args[0]
	}
	if a.op != OAlloc {
		return true
	}
	al, ok := a.site.(*ssa.Alloc)
	return !ok || al.Heap
}

func (e *Engine) setFact(st *State, v, f *Val) {
	if v == nil || v.op == OConst || v.op == ONil {
		return
	}
	st.facts[v] = f
}

// nilness: 1 nil, 2 non-nil, 0 unknown
func (e *Engine) nilness(st *State, v *Val) int {
	switch v.op {
	case ONil:
		return 1
	case OConst, OAlloc, OFunc, OClosure, OGlobal, OFAddr, OIAddr, OMake, ONonNil, OComp, OSlice, OAppend:
		if v.op == OSlice || v.op == OAppend {
			break
		}
		return 2
	case OLoad:
		if v.args[0].op == OGlobal && isErrType(v.typ) {
			return 2
		}
		if e.H.NonNil != nil && v.args[0].op == OFAddr && e.H.NonNil(v.args[0].fld) {
			return 2
		}
	case OField:
		if e.H.NonNil != nil && e.H.NonNil(v.fld) {
			return 2
		}
	case OCall:
		if strings.HasPrefix(v.aux, "errors.New@") || strings.HasPrefix(v.aux, "fmt.Errorf@") {
			return 2
		}
	}
	switch f := st.facts[v]; {
	case f == nil:
		return 0
	case f.op == ONil:
		return 1
	case f.op == ONonNil || f.op == OConst:
		return 2
	case f.op == OLoad:
		return e.nilness(st, f)
	}
	return 0
}

// evalBool decides a condition: 1 true, 2 false, 0 unknown.
func (e *Engine) evalBool(st *State, c *Val) int {
	if b, ok := c.boolConst(); ok {
		if b {
			return 1
		}
		return 2
	}
	if c.op == ONot {
		switch e.evalBool(st, c.args[0]) {
		case 1:
			return 2
		case 2:
			return 1
		}
		return 0
	}
	if f := st.facts[c]; f != nil {
		if b, ok := f.boolConst(); ok {
			if b {
				return 1
			}
			return 2
		}
	}
	if c.op == OBin && c.aux == "==" {
		x, y := c.args[0], c.args[1]
		if x == y {
			return 1
		}
		if y.op == ONil {
			switch e.nilness(st, x) {
			case 1:
				return 1
			case 2:
				return 2
			}
			return 0
		}
		if e.nilness(st, x) == 1 && e.nilness(st, y) == 2 || e.nilness(st, x) == 2 && e.nilness(st, y) == 1 {
			return 2
		}
		if x.op == OLoad && x.args[0].op == OGlobal && y.op != OLoad {
			x, y = y, x
		}
		if f := st.facts[x]; f != nil {
			if f == y {
				return 1
			}
			if f.op == OConst && y.op == OConst && !constant.Compare(f.cv, token.EQL, y.cv) {
				return 2
			}
			if f.op == OLoad && y.op == OLoad && f.args[0].op == OGlobal && y.args[0].op == OGlobal && f != y {
				return 2
			}
		}
		if x.op == OLoad && y.op == OLoad && x.args[0].op == OGlobal && y.args[0].op == OGlobal && x != y && isErrType(x.typ) {
			return 2
		}
	}
	if c.op == OBin && c.aux == "<" && c.args[0] == c.args[1] {
		return 2
	}
	if c.op == OBin && (c.aux == "<" || c.aux == "==") {
		x, y := c.args[0], c.args[1]
		sub := func(v *Val) *Val {
			if f := st.facts[v]; f != nil && f.op == OConst {
				return f
			}
			return v
		}
		x2, y2 := sub(x), sub(y)
		if (x2 != x || y2 != y) && x2.op == OConst && y2.op == OConst {
			tok := token.LSS
			if c.aux == "==" {
				tok = token.EQL
			}
			if r := foldBin(tok, x2.cv, y2.cv, types.Typ[types.Bool]); r != nil {
				if constant.BoolVal(r) {
					return 1
				}
				return 2
			}
		}
		// nor do counters get below where they start
		if y.op == OConst {
			if lo, ok := lowest(x); ok {
				if n, exact := constant.Int64Val(constant.ToInt(y.cv)); exact && (c.aux == "<" && n <= lo || c.aux == "==" && n < lo) {
					return 2
				}
			}
		}
		// lengths are never negative
		if c.aux == "<" && (x.op == OLen) && y.op == OConst {
			if constant.Sign(y.cv) <= 0 {
				return 2
			}
		}
	}
	return 0
}

// lowest: the least value of a counter that only goes up.
func lowest(v *Val) (int64, bool) {
	if v.op == OBin && v.aux == "+" {
		if n, ok := v.args[1].constInt(); ok && n >= 0 {
			lo, ok := lowest(v.args[0])
			return lo + n, ok
		}
	}
	ph, ok := v.site.(*ssa.Phi)
	if v.op != OPhi || !ok {
		return 0, false
	}
	seen := map[ssa.Value]bool{}
	lo, some := int64(0), false
	var up func(x ssa.Value) bool
	up = func(x ssa.Value) bool {
		if x == ssa.Value(ph) || seen[x] {
			return true
		}
		seen[x] = true
		switch x := x.(type) {
		case *ssa.Const:
			n, ok := constOfSSA(x)
			if ok && (!some || n < lo) {
				lo, some = n, true
			}
			return ok
		case *ssa.BinOp:
			n, ok := constOfSSA(x.Y)
			return ok && n >= 0 && x.Op == token.ADD && x.X == ssa.Value(ph)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !up(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, e := range ph.Edges {
		if !up(e) {
			return 0, false
		}
	}
	return lo, some
}

// assume records a branch condition; false when it contradicts the state.
func (e *Engine) assume(c *Ctx, cond *Val, truth bool) bool {
	st := c.St
	if cond.op == ONot {
		return e.assume(c, cond.args[0], !truth)
	}
	switch e.evalBool(st, cond) {
	case 1:
		if !truth {
			return false
		}
	case 2:
		if truth {
			return false
		}
	}
	if cond.op == OBin && cond.aux == "==" {
		x, y := cond.args[0], cond.args[1]
		switch {
		case y.op == ONil:
			if truth {
				e.setFact(st, x, e.vNil)
			} else if f := st.facts[x]; f == nil || f.op == ONonNil {
				e.setFact(st, x, e.vNonNil)
			}
		case truth && y.op == OConst:
			e.setFact(st, x, y)
		case truth && y.op == OLoad && y.args[0].op == OGlobal:
			e.setFact(st, x, y)
		case truth && x.op == OLoad && x.args[0].op == OGlobal && isErrType(x.typ):
			e.setFact(st, y, x)
		}
	}
	if cond.op != OConst {
		if truth {
			st.facts[cond] = e.vTrue
		} else {
			st.facts[cond] = e.vFalse
		}
	}
	if e.H.Assume != nil {
		e.H.Assume(c, cond, truth)
	}
	return true
}

// loopContains: was site value s created inside loop l of the frame with context ctx.
func (e *Engine) loopContains(l *loop, fn *ssa.Function, ctx *ctxNode, s *Val) bool {
	c, in := e.siteCtx[s], s.site
	for c != nil && c != ctx {
		in = c.site
		c = c.parent
	}
	if c == nil || in == nil || in.Parent() != fn {
		return false
	}
	return l.blocks[in.Block()]
}

// rename marks values created in the loop body as belonging to an earlier iteration.
func (e *Engine) backEdge(fs *frame, st *State, l *loop) {
	memo := map[*Val]*Val{}
	touched := map[*Val]bool{}
	var ren func(v *Val) *Val
	ren = func(v *Val) *Val {
		if v == nil || len(v.sites) == 0 {
			return v
		}
		if r, ok := memo[v]; ok {
			return r
		}
		hit := false
		for s := range v.sites {
			if e.loopContains(l, fs.fn, fs.ctx, s) {
				hit = true
				break
			}
		}
		if !hit {
			memo[v] = v
			return v
		}
		var r *Val
		if v.op == OStale {
			if v.idx == 0 {
				r = e.in.mk(Val{op: OStale, idx: 1, args: v.args, typ: v.typ, fld: v.fld})
			} else {
				r = v
			}
			touched[r] = true
		} else if siteOp(v.op) && e.loopContains(l, fs.fn, fs.ctx, v) {
			r = e.in.mk(Val{op: OStale, args: []*Val{v}, typ: v.typ})
		} else {
			n := Val{op: v.op, aux: v.aux, idx: v.idx, fld: v.fld, flds: v.flds, fn: v.fn, typ: v.typ, cv: v.cv, site: v.site}
			for _, a := range v.args {
				n.args = append(n.args, ren(a))
			}
			r = e.in.mk(n)
			if c, ok := e.siteCtx[v]; ok {
				if _, ok := e.siteCtx[r]; !ok {
					e.siteCtx[r] = c
				}
			}
		}
		memo[v] = r
		return r
	}
	before := map[*Val]bool{}
	for _, v := range fs.env {
		before[v] = true
	}
	for k, v := range st.mem {
		before[k], before[v] = true, true
	}
	for _, t := range st.tags {
		if t.V != nil {
			before[t.V] = true
		}
	}
	for k, v := range fs.env {
		fs.env[k] = ren(v)
	}
	for i := range fs.defers {
		d := &fs.defers[i]
		na := make([]*Val, len(d.call.args))
		for j, a := range d.call.args {
			na[j] = ren(a)
		}
		d.call.args = na
	}
	nm := make(map[*Val]*Val, len(st.mem))
	for k, v := range st.mem {
		nm[ren(k)] = e.widen(fs, l, ren(k), ren(v))
	}
	st.mem = nm
	nf := make(map[*Val]*Val, len(st.facts))
	for k, v := range st.facts {
		nk := ren(k)
		if old, ok := nf[nk]; ok && old != v {
			delete(nf, nk)
			continue
		}
		nf[nk] = ren(v)
	}
	if len(touched) > 0 {
		// a value of two iterations ago stands for several: keep what is known of all of them
		present := map[*Val]bool{}
		see := func(v *Val) {
			v.contains(func(x *Val) bool {
				if x.op == OStale {
					present[x] = true
				}
				return false
			})
		}
		for v := range before {
			see(v)
		}
		for s := range touched {
			if present[s] && nf[s] != nil && st.facts[s] != nf[s] || nf[s] != nil && present[s] && st.facts[s] == nil {
				delete(nf, s)
			}
		}
	}
	st.facts = nf
	for i := range st.tags {
		st.tags[i].V = ren(st.tags[i].V)
	}
	st.dedup()
}

// widen replaces a number kept in memory that keeps changing around a loop.
func (e *Engine) widen(fs *frame, l *loop, a, v *Val) *Val {
	if v.op != OBin && v.op != OConst && v.op != OAppend && v.op != OSlice && v.op != OComp || v.typ == nil {
		return v
	}
	if b, ok := v.typ.Underlying().(*types.Basic); v.op <= OConst && (!ok || b.Info()&types.IsNumeric == 0) {
		return v
	}
	k := fmt.Sprintf("%d|%d|%d", fs.ctx.id, l.head.Index, a.id)
	if e.widened == nil {
		e.widened = map[string]map[*Val]bool{}
	}
	m := e.widened[k]
	if m == nil {
		m = map[*Val]bool{}
		e.widened[k] = m
	}
	if !m[v] && len(m) >= 2 {
		if w := e.widenFields(m, v, k); w != nil {
			return w
		}
		return e.in.mk(Val{op: OFresh, aux: "widen@" + k, fld: a.fld, typ: v.typ})
	}
	m[v] = true
	return v
}

// widenFields keeps the fields of a struct that are the same in all of its values.
func (e *Engine) widenFields(m map[*Val]bool, v *Val, k string) *Val {
	st, ok := v.typ.Underlying().(*types.Struct)
	if !ok || v.op != OComp || v.fn != nil || v.aux != "" {
		return nil
	}
	var flds []*types.Var
	args := []*Val{e.in.mk(Val{op: OFresh, aux: "widen@" + k, typ: v.typ})}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		x := e.fieldOf(v, f)
		same := true
		for o := range m {
			same = same && e.fieldOf(o, f) == x
		}
		if !same {
			continue
		}
		flds = append(flds, f)
		args = append(args, x)
	}
	if len(flds) == 0 {
		return nil
	}
	return e.in.mk(Val{op: OComp, args: args, flds: flds, typ: v.typ})
}

func (s *State) dedup() {
	s.sortTags()
	var r []Tag
	for i, t := range s.tags {
		if i > 0 && t == s.tags[i-1] {
			continue
		}
		r = append(r, t)
	}
	s.tags = r
}

// gc drops registers, memory and facts that can no longer matter.
func (e *Engine) gc(fs *frame, st *State, live map[ssa.Value]bool) {
	for k := range fs.env {
		if !live[k] {
			delete(fs.env, k)
		}
	}
	held := map[*Val]bool{}
	var mark func(v *Val)
	mark = func(v *Val) {
		if v == nil || held[v] {
			return
		}
		held[v] = true
		for _, a := range v.args {
			mark(a)
		}
	}
	direct := map[*Val]bool{}
	root := func(v *Val) {
		if v != nil {
			direct[v] = true
			mark(v)
		}
	}
	for f := fs; f != nil; f = f.parent {
		for _, v := range f.env {
			root(v)
		}
		for _, v := range f.binds {
			root(v)
		}
		for _, d := range f.defers {
			for _, a := range d.call.args {
				root(a)
			}
			for _, a := range d.call.binds {
				root(a)
			}
			root(d.call.fnv)
		}
	}
	for _, t := range st.tags {
		root(t.V)
	}
	// memory: an entry rooted at an unreachable allocation is dead
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			r := addrRoot(k)
			if r.op == OFresh && r.aux == "wild" {
				continue
			}
			if r.op == OFresh && r.aux == "chan" && !held[r.args[0]] {
				continue
			}
			if (r.op == OAlloc || len(r.sites) > 0 && r.aux != "chan") && !held[r] {
				continue
			}
			if !held[v] || !direct[v] {
				root(v)
				changed = true
			}
			mark(r)
		}
	}
	for k := range st.mem {
		r := addrRoot(k)
		if r.op == OFresh && r.aux == "wild" {
			continue
		}
		if (r.op == OAlloc || len(r.sites) > 0 && r.aux != "chan") && !held[r] || r.op == OFresh && r.aux == "chan" && !held[r.args[0]] {
			delete(st.mem, k)
		}
	}
	for k := range st.facts {
		if direct[k] || (k.op == ONot && direct[k.args[0]]) {
			continue
		}
		// components of live tuples
		if k.op == OExt && direct[k.args[0]] {
			continue
		}
		if e.H.KeepFact != nil && e.H.KeepFact(k) {
			continue
		}
		delete(st.facts, k)
	}
}

const maxValDepth = 24

func (e *Engine) limit(fr *frame, in ssa.Instruction, v *Val, t types.Type) *Val {
	if v.depth > maxValDepth {
		return e.site(fr, in, OFresh, "deep", t)
	}
	return v
}

func (e *Engine) eval(fr *frame, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.zero(v.Type())
		}
		return e.in.constant(v.Value, v.Type())
	case *ssa.Global:
		return e.in.mk(Val{op: OGlobal, aux: relGlobal(v), typ: v.Type()})
	case *ssa.Function:
		return e.in.mk(Val{op: OFunc, fn: v, typ: v.Type()})
	case *ssa.Builtin:
		return e.in.mk(Val{op: OFresh, aux: "builtin." + v.Name()})
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
		return e.in.mk(Val{op: OParam, aux: "free:" + v.Name(), typ: v.Type()})
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	// undefined on this path (should not happen)
	return e.in.mk(Val{op: OFresh, aux: fmt.Sprintf("undef/%d/%p", fr.ctx.id, v), typ: v.Type()})
}

func relGlobal(g *ssa.Global) string {
	if g.Pkg != nil {
		return relPath(g.Pkg.Pkg.Path()) + "." + g.Name()
	}
	return g.Name()
}

type item struct {
	b    *ssa.BasicBlock
	idx  int
	pred *ssa.BasicBlock
	fs   *frame
	st   *State
	acc  *acc // joined states
}

// worklist hands out the earliest block of the function first, so that all states of a block are seen before its successors.
type worklist struct {
	h     []item
	pr    []int
	order map[*ssa.BasicBlock]int
}

func (w *worklist) Len() int           { return len(w.h) }
func (w *worklist) Less(i, j int) bool { return w.pr[i] < w.pr[j] }
func (w *worklist) Swap(i, j int) {
	w.h[i], w.h[j] = w.h[j], w.h[i]
	w.pr[i], w.pr[j] = w.pr[j], w.pr[i]
}
func (w *worklist) Push(x interface{}) {
	w.h = append(w.h, x.(item))
	w.pr = append(w.pr, w.prio(x.(item)))
}
func (w *worklist) Pop() interface{} {
	n := len(w.h) - 1
	x := w.h[n]
	w.h, w.pr = w.h[:n], w.pr[:n]
	return x
}
func (w *worklist) prio(it item) int {
	p := w.order[it.b] * 2
	if it.acc != nil {
		p++
	}
	return p
}
func (w *worklist) add(it item) { heap.Push(w, it) }
func (w *worklist) next() item  { return heap.Pop(w).(item) }

// induction: is the phi at a loop header updated from its own value.
func (e *Engine) induction(ph *ssa.Phi, l *loop) bool {
	for i, pr := range ph.Block().Preds {
		if !l.blocks[pr] {
			continue
		}
		seen := map[ssa.Value]bool{}
		var dfs func(v ssa.Value, op bool) bool
		dfs = func(v ssa.Value, op bool) bool {
			if v == ph {
				return op
			}
			if seen[v] {
				return false
			}
			seen[v] = true
			in, ok := v.(ssa.Instruction)
			if !ok || in.Parent() != ph.Parent() || !l.blocks[in.Block()] {
				return false
			}
			switch x := v.(type) {
			case *ssa.Phi:
				for _, ed := range x.Edges {
					if dfs(ed, op) {
						return true
					}
				}
				return false
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
					return false
				}
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
				var ops [4]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil && dfs(*o, op) {
						return true
					}
				}
				return false
			case *ssa.Lookup, *ssa.Next, *ssa.Extract:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			}
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil && dfs(*o, true) {
					return true
				}
			}
			return false
		}
		if dfs(ph.Edges[i], false) {
			return true
		}
	}
	return false
}

// run explores fn from state st.
func (e *Engine) run(fn *ssa.Function, ctx *ctxNode, args, binds []*Val, st *State, parent *frame) []Exit {
	fr := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Val{}, binds: binds, parent: parent}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = e.in.mk(Val{op: OParam, aux: fmt.Sprintf("%s@%d", p.Name(), ctx.id), typ: p.Type()})
		}
	}
	e.inlined[fn] = true
	if e.H.Enter != nil {
		e.H.Enter(&Ctx{E: e, St: st, fr: fr, In: nil}, fn, args)
	}
	li := e.P.loopsOf(fn)
	live := e.P.liveIn(fn)
	visited := map[string]bool{}
	counts := map[string]int{}
	accs := map[string]*acc{}
	exitCount := map[string]int{}
	exitAcc := map[string]int{}
	exitSeen := map[string]bool{}
	var exits []Exit
	work := &worklist{order: li.order}
	work.add(item{b: fn.Blocks[0], fs: fr, st: st})
	for work.Len() > 0 {
		it := work.next()
		if e.over {
			return exits
		}
		fs, st := it.fs, it.st
		b := it.b
		idx := it.idx
		if it.acc != nil {
			it.acc.queued = false
			fs, st = it.acc.fs.clone(), it.acc.st.clone()
		} else if idx == 0 {
			// entering the block
			if it.pred != nil {
				pi := -1
				for i, p := range b.Preds {
					if p == it.pred {
						pi = i
					}
				}
				l := li.byHd[b]
				isBack := l != nil && l.blocks[it.pred]
				e.pred = it.pred
				if l != nil && !isBack && e.H.LoopEnter != nil {
					fs.cur = b.Instrs[0]
					e.H.LoopEnter(&Ctx{E: e, St: st, fr: fs, In: b.Instrs[0]}, l, fn)
				}
				if e.H.LoopExit != nil {
					for _, ll := range li.loops {
						if ll.blocks[it.pred] && !ll.blocks[b] {
							fs.cur = it.pred.Instrs[len(it.pred.Instrs)-1]
							e.H.LoopExit(&Ctx{E: e, St: st, fr: fs, In: fs.cur}, ll, fn)
						}
					}
				}
				type pv struct {
					p *ssa.Phi
					v *Val
				}
				var nv []pv
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					v := e.eval(fs, ph.Edges[pi])
					if l != nil && e.induction(ph, l) {
						iv := e.site(fs, ph, OPhi, ph.Comment, ph.Type())
						if isBack {
							if iv.step == nil {
								iv.step = v
							} else if iv.step != v {
								iv.step = e.vNonNil // several different steps
							}
						} else if iv.init == nil {
							iv.init = v
						} else if iv.init != v {
							iv.init = e.vNonNil
						}
						v = nil
					}
					nv = append(nv, pv{ph, v})
				}
				if isBack {
					if e.H.Back != nil {
						fs.cur = it.pred.Instrs[len(it.pred.Instrs)-1]
						e.H.Back(&Ctx{E: e, St: st, fr: fs, In: fs.cur}, l, fn)
					}
					for i, x := range nv {
						if x.v != nil {
							fs.env[tmpKey{i}.val()] = x.v
						}
					}
					e.backEdge(fs, st, l)
					for i, x := range nv {
						if x.v != nil {
							nv[i].v = fs.env[tmpKey{i}.val()]
							delete(fs.env, tmpKey{i}.val())
						}
					}
				}
				for _, x := range nv {
					if x.v == nil {
						x.v = e.site(fs, x.p, OPhi, x.p.Comment, x.p.Type())
					}
					fs.env[x.p] = x.v
				}
			}
			e.gc(fs, st, live[b])
			k := fmt.Sprintf("%d|%s|%s|%s", b.Index, envKey(fs.env), defKey(fs.defers), st.key())
			if visited[k] {
				continue
			}
			visited[k] = true
			// too many states with the same tags: continue with what they have in common
			tk := fmt.Sprintf("%d|%s|%s", b.Index, defKey(fs.defers), st.tagKey())
			counts[tk]++
			if counts[tk] > joinLimit {
				a := accs[tk]
				if a == nil {
					a = &acc{fs: fs, st: st}
					accs[tk] = a
				} else if !e.join(a, fs, st, b) {
					continue
				}
				e.joins++
				if !a.queued {
					a.queued = true
					work.add(item{b: b, acc: a})
				}
				continue
			}
			if e.debug {
				if e.hot == nil {
					e.hot = map[string]int{}
				}
				hk := fmt.Sprintf("%s#%d", fname(fn), b.Index)
				e.hot[hk]++
				if os.Getenv("SA_DEBUG") == hk && (e.hot[hk] == 300 || e.hot[hk] == 301) {
					fmt.Fprintln(os.Stderr, "----", hk)
					dumpState(st)
					for k, v := range fs.env {
						fmt.Fprintln(os.Stderr, "env", k.Name(), v)
					}
				}
			}
		}
		if idx == 0 {
			for idx < len(b.Instrs) {
				if _, ok := b.Instrs[idx].(*ssa.Phi); !ok {
					break
				}
				idx++
			}
		}
		e.exec(fs, st, b, idx, work, func(st *State, res []*Val) {
			for i, r := range res {
				res[i] = e.normRes(st, r)
			}
			k := st.key() + "#"
			for _, r := range res {
				k += fmt.Sprint(r.id, ",")
			}
			if exitSeen[k] {
				return
			}
			exitSeen[k] = true
			xk := st.tagKey() + "#"
			for _, r := range res {
				xk += fmt.Sprint(r.id, ",")
			}
			exitCount[xk]++
			if exitCount[xk] > joinLimit && parent != nil {
				e.joins++
				if i, ok := exitAcc[xk]; ok {
					e.joinState(exits[i].st, st, "exit/"+fname(fn))
					return
				}
				exitAcc[xk] = len(exits)
			}
			exits = append(exits, Exit{st, res})
		})
	}
	return exits
}

// acc is what the states that reached a block with the same tags have in common.
type acc struct {
	fs     *frame
	st     *State
	queued bool
}

var joinLimit = 40

// join weakens a to cover (fs, st) as well; false when it already did.
func (e *Engine) join(a *acc, fs *frame, st *State, b *ssa.BasicBlock) bool {
	changed := false
	for k, v := range a.fs.env {
		if w := fs.env[k]; w != v {
			j := e.in.mk(Val{op: OFresh, aux: fmt.Sprintf("join@%d/%d/%p", fs.ctx.id, b.Index, k), typ: k.Type()})
			nn := e.nilness(a.st, v) == 2 && w != nil && e.nilness(st, w) == 2
			if j != v {
				a.fs.env[k] = j
				changed = true
				if nn {
					a.st.facts[j] = e.vNonNil
					st.facts[j] = e.vNonNil
				}
			} else if !nn && a.st.facts[j] != nil {
				delete(a.st.facts, j)
				changed = true
			} else if nn {
				st.facts[j] = e.vNonNil
			}
		}
	}
	for k := range fs.env {
		if _, ok := a.fs.env[k]; !ok {
			a.fs.env[k] = e.in.mk(Val{op: OFresh, aux: fmt.Sprintf("join@%d/%d/%p", fs.ctx.id, b.Index, k), typ: k.Type()})
			changed = true
		}
	}
	return e.joinState(a.st, st, fmt.Sprintf("%d/%d", fs.ctx.id, b.Index)) || changed
}

func (e *Engine) joinState(a, st *State, where string) bool {
	changed := false
	mix := func(k *Val, typ types.Type) *Val {
		return e.in.mk(Val{op: OFresh, aux: "joinm@" + where, args: []*Val{k}, typ: typ})
	}
	for k, v := range a.mem {
		if w := st.mem[k]; w != v {
			j := mix(k, v.typ)
			nn := w != nil && e.nilness(a, v) == 2 && e.nilness(st, w) == 2
			if j != v {
				a.mem[k] = j
				changed = true
				if nn {
					a.facts[j] = e.vNonNil
					st.facts[j] = e.vNonNil
				}
			} else if !nn && a.facts[j] != nil {
				delete(a.facts, j)
				changed = true
			} else if nn {
				st.facts[j] = e.vNonNil
			}
		}
	}
	for k, f := range a.facts {
		if st.facts[k] == f {
			continue
		}
		if g := st.facts[k]; g != nil && e.nilness(st, k) == 2 && e.nilness(a, k) == 2 {
			if f != e.vNonNil {
				a.facts[k] = e.vNonNil
				changed = true
			}
			continue
		}
		delete(a.facts, k)
		changed = true
	}
	for k, v := range st.mem {
		if _, ok := a.mem[k]; !ok {
			a.mem[k] = mix(k, v.typ)
			changed = true
		}
	}
	return changed
}

// normRes simplifies a returned value by what is known about it.
func (e *Engine) normRes(st *State, r *Val) *Val {
	if f := st.facts[r]; f != nil && (f.op == ONil || f.op == OConst || f.op == OLoad) {
		return f
	}
	switch e.evalBoolSafe(st, r) {
	case 1:
		return e.vTrue
	case 2:
		return e.vFalse
	}
	return r
}

func (e *Engine) evalBoolSafe(st *State, r *Val) int {
	if r.typ == nil {
		return 0
	}
	if b, ok := r.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return 0
	}
	return e.evalBool(st, r)
}

// tmpKey gives unique pseudo registers for parallel phi assignment.
type tmpKey struct{ i int }

var tmpVals []ssa.Value

func (t tmpKey) val() ssa.Value {
	for len(tmpVals) <= t.i {
		tmpVals = append(tmpVals, ssa.NewConst(constant.MakeInt64(int64(len(tmpVals))), types.Typ[types.Int]))
	}
	return tmpVals[t.i]
}

func envKey(m map[ssa.Value]*Val) string {
	type kv struct {
		k string
		v int
	}
	ks := make([]kv, 0, len(m))
	for k, v := range m {
		ks = append(ks, kv{fmt.Sprintf("%p", k), v.id})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
	var b strings.Builder
	for _, x := range ks {
		fmt.Fprintf(&b, "%s=%d,", x.k, x.v)
	}
	return b.String()
}

func defKey(ds []deferred) string {
	var b strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&b, "%p(", d.site)
		for _, a := range d.call.args {
			fmt.Fprintf(&b, "%d,", a.id)
		}
		for _, a := range d.call.binds {
			fmt.Fprintf(&b, "%d,", a.id)
		}
		b.WriteString(")")
	}
	return b.String()
}
