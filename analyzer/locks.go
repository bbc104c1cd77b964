package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis: every module function is explored path by path with the calls
// of other functions left opaque; what it acquires, holds at calls, accesses
// and still holds when it returns is combined over the call graph.

type guardInfo struct {
	class  string // lock class
	lockF  *types.Var
	same   bool // the lock is a field of the object that holds the data
	write  bool // only writes need the lock
	except map[string]bool
	alts   map[string]bool // other lock classes that protect it as well
}

type heldLock struct {
	class string
	mode  byte // W, R
	base  *Val // object the lock is a field of
	val   *Val
	path  string
	onArg map[int]int // per argument of a call: 1 lock of that object, 2 certainly of another one
}

type argVal struct {
	path  string
	fresh bool
	root  int  // parameter of the caller it is reached from, -1 unknown
	exact bool // it is that parameter
}

type callRec struct {
	caller *ssa.Function
	callee *ssa.Function
	held   []heldLock
	args   []argVal
	site   ssa.Instruction
	isGo   bool
}

type need struct {
	class string
	mode  byte
	fld   *types.Var
	root  int  // parameter index of the owner's root (>=100: free variable), -1 unknown
	exact bool // the owner is that parameter itself
	same  bool // lock is in the owner
	site  ssa.Instruction
	fn    *ssa.Function // function of the access
}

type acquire struct {
	class string
	path  string
	mode  byte
	site  ssa.Instruction
	fn    *ssa.Function
}

type lockEdge struct {
	from, to string
	site     ssa.Instruction
	fn       *ssa.Function
	via      *ssa.Function
}

type lockAna struct {
	r        *Run
	P        *Prog
	guards   map[*types.Var]*guardInfo
	atomics  map[*types.Var]bool
	owner    map[*types.Var]string
	sems     map[*types.Var]bool
	escape   map[*types.Var]*types.Var // semaphore -> channel that ends the wait for it for good
	build    map[*ssa.Function]bool    // functions that only run while their receiver is being built
	wrappers map[*ssa.Function]bool
	calls    map[*ssa.Function][]*callRec // by callee
	callsBy  map[*ssa.Function][]*callRec // by caller
	seenCall map[string]bool
	needs    map[*ssa.Function]map[need]bool
	acq      map[*ssa.Function]map[string]acquire
	held     map[*ssa.Function]map[string]*Finding // held at exit, by class
	rel      map[*ssa.Function]map[string]*Finding // released without holding
	all      []lockEdge
	taking   map[string]ssa.Instruction
	refd     map[*ssa.Function]bool
	edges    map[string]lockEdge
	self     map[string]*Finding
	accesses int
	lockOps  int
	goes     map[*ssa.Function]ssa.Instruction
	taken    map[*ssa.Function]bool
	relBody  map[*ssa.Function]map[string]bool // classes released in the function or its closures
	acqBody  map[*ssa.Function]map[string]bool
}

func (la *lockAna) fieldName(f *types.Var) string {
	if n, ok := la.owner[f]; ok {
		return n
	}
	return f.Name()
}

// ownerMap names every struct field of the module.
func (p *Prog) ownerMap() map[*types.Var]string {
	m := map[*types.Var]string{}
	var paths []string
	for k := range p.byPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.byPath[path]
		sc := pk.Pkg.Scope()
		pre := path
		if pre == "" {
			pre = "unitdb"
		}
		var rec func(name string, t types.Type, d int)
		rec = func(name string, t types.Type, d int) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok || d > 4 {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if _, dup := m[f]; dup {
					continue
				}
				m[f] = name + "." + f.Name()
				if _, named := types.Unalias(f.Type()).(*types.Named); !named {
					if s, ok := f.Type().(*types.Struct); ok {
						rec(name+"."+f.Name(), s, d+1)
					}
				}
			}
		}
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok {
					rec(pre+"."+n, nt.Underlying(), 0)
				}
			case *types.Var:
				rec(pre+"."+n, o.Type(), 0)
			}
		}
	}
	return m
}

var lockMethods = map[string]string{
	"sync.Mutex.Lock": "+W", "sync.Mutex.Unlock": "-W",
	"sync.RWMutex.Lock": "+W", "sync.RWMutex.Unlock": "-W",
	"sync.RWMutex.RLock": "+R", "sync.RWMutex.RUnlock": "-R",
}

// lockOf resolves the class, base object and access path of a lock value.
func (la *lockAna) lockOf(v *Val) heldLock {
	h := heldLock{val: v, path: pathOf(v)}
	x := v
	for d := 0; d < 12 && x != nil; d++ {
		switch x.op {
		case OFAddr:
			h.class, h.base = la.fieldName(x.fld), x.args[0]
			return h
		case OField:
			h.class, h.base = la.fieldName(x.fld), x.args[0]
			return h
		case OLoad, OIAddr, OElem, OExt, OLookup, OStale:
			if len(x.args) == 0 {
				h.class = "?"
				return h
			}
			x = x.args[0]
			continue
		case OCall:
			n := x.aux
			if i := strings.Index(n, "@"); i >= 0 {
				n = n[:i]
			}
			h.class, h.base = "result of "+n, x
			return h
		case OGlobal:
			h.class, h.base = "global "+x.aux, x
			return h
		}
		break
	}
	h.class, h.base = "local "+fmt.Sprint(x), x
	return h
}

// pathOf is a textual access path from a parameter, "" when there is none.
func pathOf(v *Val) string {
	if v == nil {
		return ""
	}
	switch v.op {
	case OParam:
		return v.aux
	case OGlobal:
		return "global:" + v.aux
	case OFAddr, OField:
		if p := pathOf(v.args[0]); p != "" {
			return p + "." + v.fld.Name()
		}
	case OLoad:
		return pathOf(v.args[0])
	}
	return ""
}

// rootOf is the value an access path starts from.
func rootOf(v *Val) *Val {
	for d := 0; d < 40 && v != nil; d++ {
		switch v.op {
		case OFAddr, OField, OIAddr, OElem, OExt, OLookup, OLoad, OStale, OSlice, ONext, ORange, OAssert, OConv:
			if len(v.args) == 0 || v.args[0] == nil {
				return v
			}
			v = v.args[0]
		default:
			return v
		}
	}
	return v
}

// freshVal: rooted in an object this function allocated.
func freshVal(v *Val) bool {
	for d := 0; d < 40 && v != nil; d++ {
		switch v.op {
		case OAlloc, OMake, OComp, OZero, OConst, ONil, OAppend:
			return true
		case OLoad:
			if v.args[0].op == OAlloc {
				return false
			}
			v = v.args[0]
		case OFAddr, OField, OIAddr, OElem, OExt, OLookup, OSlice, ONext, ORange, OConv:
			if len(v.args) == 0 || v.args[0] == nil {
				return false
			}
			v = v.args[0]
		default:
			return false
		}
	}
	return false
}

// stripAlloc: a value loaded from a captured or spilled local.
func stripAlloc(v *Val) *Val {
	for v != nil && v.op == OLoad && v.args[0].op == OParam && strings.HasPrefix(v.args[0].aux, "free:") {
		v = v.args[0]
	}
	return v
}

func paramIndex(fn *ssa.Function, v *Val) int {
	v = stripAlloc(v)
	if v == nil || v.op != OParam {
		return -1
	}
	for i, p := range fn.Params {
		if p.Name() == v.aux {
			return i
		}
	}
	for i, f := range fn.FreeVars {
		if "free:"+f.Name() == v.aux {
			return 100 + i
		}
	}
	return -1
}

func (la *lockAna) heldIn(st *State) []heldLock {
	var r []heldLock
	for _, t := range st.tags {
		if strings.HasPrefix(t.N, "H|") {
			h := la.lockOf(t.V)
			parts := strings.SplitN(t.N, "|", 4)
			h.mode, h.class, h.path = parts[1][0], parts[2], parts[3]
			r = append(r, h)
		}
	}
	return r
}

func (la *lockAna) doAcquire(c *Ctx, root *ssa.Function, v *Val, mode byte) {
	la.lockOps++
	h := la.lockOf(v)
	for _, o := range la.heldIn(c.St) {
		same := o.val == v || h.path != "" && o.path == h.path
		if same {
			la.report(la.self, "self:"+fname(root)+":"+h.class, c, "%s takes %s while it already holds it", fname(root), h.class)
			continue
		}
		if os.Getenv("SA_DEBUG") == "nest" && o.class == h.class {
			fmt.Fprintln(os.Stderr, "nest", o.class, o.path, c.In, la.taking[o.class+"|"+o.path])
		}
		if o.class == h.class && la.inLoop(c.In) && la.taking[o.class+"|"+o.path] == c.In {
			continue // the same statement, for several objects one after the other
		}
		la.addEdge(o.class, h.class, c.In, root, nil)
	}
	if la.acq[root] == nil {
		la.acq[root] = map[string]acquire{}
	}
	la.acq[root][h.class+"|"+h.path] = acquire{h.class, h.path, mode, c.In, c.Fn()}
	c.St.Add("H|"+string(mode)+"|"+h.class+"|"+h.path, v)
	if k := h.class + "|" + h.path; la.taking[k] == nil || la.taking[k] == c.In {
		la.taking[k] = c.In
	} else {
		la.taking[k] = c.Fn().Blocks[0].Instrs[0] // several places
	}
}

func (la *lockAna) inLoop(in ssa.Instruction) bool {
	for _, l := range la.P.loopsOf(in.Parent()).loops {
		if l.blocks[in.Block()] {
			return true
		}
	}
	return false
}

func (la *lockAna) addEdge(from, to string, site ssa.Instruction, fn, via *ssa.Function) {
	for _, e := range la.all {
		if e.from == from && e.to == to && e.fn == fn {
			return
		}
	}
	la.all = append(la.all, lockEdge{from, to, site, fn, via})
}

func (la *lockAna) keepEdge(e lockEdge) {
	from, to, site, fn, via := e.from, e.to, e.site, e.fn, e.via
	k := from + " -> " + to
	if _, ok := la.edges[k]; !ok {
		la.edges[k] = lockEdge{from, to, site, fn, via}
	}
}

func (la *lockAna) doRelease(c *Ctx, root *ssa.Function, v *Val, mode byte) {
	la.lockOps++
	h := la.lockOf(v)
	if d, ok := c.In.(*ssa.Defer); ok && la.inLoop(d) {
		// one release for every time round the loop
		for _, t := range append([]Tag(nil), c.St.tags...) {
			if strings.HasPrefix(t.N, "H|"+string(mode)+"|"+h.class+"|") {
				c.St.DelV(t.N, t.V)
			}
		}
		return
	}
	var cls *Tag
	for i, t := range c.St.tags {
		if !strings.HasPrefix(t.N, "H|") {
			continue
		}
		parts := strings.SplitN(t.N, "|", 4)
		if parts[1][0] != mode {
			continue
		}
		if t.V == v || parts[2] == h.class && h.path != "" && parts[3] == h.path {
			c.St.DelV(t.N, t.V)
			return
		}
		if parts[2] == h.class {
			cls = &c.St.tags[i]
		}
	}
	if cls != nil {
		c.St.DelV(cls.N, cls.V)
		return
	}
	if la.rel[root] == nil {
		la.rel[root] = map[string]*Finding{}
	}
	if _, ok := la.rel[root][h.class]; !ok {
		la.rel[root][h.class] = &Finding{Key: "unheld:" + fname(root) + ":" + h.class, Msg: fname(root) + " releases " + h.class + " on a path where it does not hold it", Where: c.Pos()}
	}
}

func (la *lockAna) report(m map[string]*Finding, key string, c *Ctx, f string, a ...interface{}) {
	if _, ok := m[key]; !ok {
		m[key] = &Finding{Key: key, Msg: fmt.Sprintf(f, a...), Where: c.Pos()}
	}
}

// semField: the one-slot channel field a channel value was loaded from.
func (la *lockAna) semField(ch *Val) bool {
	if ch == nil {
		return false
	}
	if ch.op == OMake {
		return false
	}
	if ch.op == OLoad && ch.args[0].op == OFAddr {
		return la.sems[ch.args[0].fld]
	}
	return ch.op == OField && la.sems[ch.fld]
}

// escapeOf: the channel whose closing releases everybody waiting for the semaphore.
func (la *lockAna) escapeOf(class string) string {
	for s, e := range la.escape {
		if la.fieldName(s) == class {
			return la.fieldName(e)
		}
	}
	return ""
}

// targets: the functions of the module an interface call can run.
func (la *lockAna) targets(c *ssa.CallCommon, rv *Val, e *Engine) []*ssa.Function {
	var ts []*ssa.Function
	if rv != nil && e != nil {
		if rv.typ != nil && !types.IsInterface(rv.typ) {
			if f := la.P.methodOn(rv.typ, c.Method); f != nil {
				return []*ssa.Function{f}
			}
		}
		if rv.op == OLoad && rv.args[0].op == OFAddr {
			for _, t := range e.fieldDynTypes(rv.args[0].fld) {
				if f := la.P.methodOn(t, c.Method); f != nil {
					ts = append(ts, f)
				}
			}
			if len(ts) > 0 {
				return ts
			}
		}
	}
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return la.P.invokeTargets(c)
	}
	return nil
}

// findSems: fields of type chan struct{} with one slot that some function both fills and drains.
func (la *lockAna) findSems() {
	cap1 := map[*types.Var]bool{}
	la.escape = map[*types.Var]*types.Var{}
	use := map[*types.Var]map[*ssa.Function]int{}
	add := func(v ssa.Value, f *ssa.Function, bit int) {
		if fv := ssaField(v); fv != nil {
			for f.Parent() != nil {
				f = f.Parent()
			}
			if use[fv] == nil {
				use[fv] = map[*ssa.Function]int{}
			}
			use[fv][f] |= bit
		}
	}
	for _, f := range la.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if mc, ok := x.Val.(*ssa.MakeChan); ok {
						if k, ok := mc.Size.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
							if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
								if ct, ok := mc.Type().Underlying().(*types.Chan); ok {
									if s, ok := ct.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
										cap1[structOf(fa.X.Type()).Field(fa.Field)] = true
									}
								}
							}
						}
					}
				case *ssa.Send:
					add(x.Chan, f, 1)
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						add(x.X, f, 2)
					}
				case *ssa.Select:
					if len(x.States) == 2 && x.States[0].Dir != x.States[1].Dir {
						a, b := x.States[0].Chan, x.States[1].Chan
						if x.States[1].Dir == types.SendOnly {
							a, b = b, a
						}
						if sf, ef := ssaField(a), ssaField(b); sf != nil && ef != nil {
							la.escape[sf] = ef
						}
					}
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							add(s.Chan, f, 1)
						} else {
							add(s.Chan, f, 2)
						}
					}
				}
			}
		}
	}
	la.sems = map[*types.Var]bool{}
	for f := range cap1 {
		for _, bits := range use[f] {
			if bits == 3 {
				la.sems[f] = true
			}
		}
	}
}

// access records that a guarded field is read or written.
func (la *lockAna) access(c *Ctx, root *ssa.Function, addr *Val, mode byte) {
	// the innermost guarded field the address lies in
	x := addr
	for d := 0; d < 8 && x != nil; d++ {
		switch x.op {
		case OFAddr:
			if g := la.guards[x.fld]; g != nil {
				la.need(c, root, x, g, mode)
				return
			}
			x = x.args[0]
			continue
		case OIAddr:
			// element of a slice or array
			b := x.args[0]
			if b.op == OLoad {
				b = b.args[0]
			}
			if b.op == OSlice && b.args[0].op == OLoad {
				b = b.args[0].args[0]
			}
			x = b
			continue
		}
		return
	}
}

func (la *lockAna) need(c *Ctx, root *ssa.Function, fa *Val, g *guardInfo, mode byte) {
	if g.write && mode == 'R' {
		return
	}
	for f := c.fr; f != nil; f = f.parent {
		if g.except[fname(f.fn)] {
			return
		}
	}
	owner := fa.args[0]
	if freshVal(owner) {
		return
	}
	la.accesses++
	for _, h := range la.heldIn(c.St) {
		if g.alts[h.class] && (mode == 'R' || h.mode == 'W') {
			return
		}
		if h.class == g.class && (mode == 'R' || h.mode == 'W') {
			if !g.same || h.base == owner || pathOf(owner) != "" && pathOf(h.base) == pathOf(owner) || h.base == nil || !comparable2(h.base, owner) {
				return
			}
		}
	}
	n := need{class: g.class, mode: mode, fld: fa.fld, root: -1, same: g.same, site: c.In, fn: c.Fn()}
	rt := rootOf(owner)
	n.root = paramIndex(root, rt)
	n.exact = n.root >= 0 && stripAlloc(owner) == rt
	la.addNeed(root, n)
}

// comparable2: the two objects are certainly different ones (different field, element or parameter paths).
func comparable2(a, b *Val) bool {
	pa, pb := pathOf(a), pathOf(b)
	if pa != "" && pb != "" {
		return true
	}
	// results of different calls or lookups: may be the same object
	return a.op == b.op && (a.op == OParam || a.op == OAlloc)
}

func (la *lockAna) addNeed(fn *ssa.Function, n need) bool {
	if la.needs[fn] == nil {
		la.needs[fn] = map[need]bool{}
	}
	if la.needs[fn][n] {
		return false
	}
	la.needs[fn][n] = true
	return true
}

func (la *lockAna) hooks(root *ssa.Function) *Hooks {
	h := &Hooks{MaxDepth: 12}
	h.KeepFact = func(v *Val) bool { return v.typ != nil && isLockPtr(v.typ) }
	h.GoInline = func(c *CallCtx) bool { return false }
	h.RootArg = func(e *Engine, fn *ssa.Function, i int, p *ssa.Parameter) *Val { return nil }
	h.Call = func(c *CallCtx) {
		if op, ok := lockMethods[c.Name]; ok && len(c.Args) > 0 {
			if !c.IsGo {
				if op[0] == '+' {
					la.doAcquire(c.Ctx, root, c.Args[0], op[1])
				} else {
					la.doRelease(c.Ctx, root, c.Args[0], op[1])
				}
			}
			c.handled = true
			return
		}
		switch c.Name {
		case "builtin.delete":
			if len(c.Args) > 0 {
				la.mapAccess(c.Ctx, root, c.Args[0], 'W')
			}
			return
		case "builtin.close":
			if len(c.Args) > 0 && c.Args[0].op == OLoad && c.Args[0].args[0].op == OFAddr {
				c.St.Add("closed|"+la.fieldName(c.Args[0].args[0].fld), nil)
			}
			return
		case "builtin.len", "builtin.cap", "builtin.append", "builtin.copy":
			return
		case "sort.Slice", "sort.Sort", "sort.SliceStable":
			if len(c.Args) > 0 {
				a := c.Args[0]
				if a.op == OLoad {
					la.access(c.Ctx, root, a.args[0], 'W')
				}
			}
		}
		if strings.HasPrefix(c.Name, "builtin.") {
			return
		}
		var targets []*ssa.Function
		if c.Callee != nil {
			targets = append(targets, c.Callee)
		} else if c.Common.IsInvoke() {
			targets = la.targets(c.Common, c.Args[0], c.E)
		}
		held := la.heldIn(c.St)
		for _, t := range targets {
			if !la.P.inModule(t) || len(t.Blocks) == 0 {
				continue
			}
			if !c.IsGo && c.Callee != nil && la.inlines(c, root, t) {
				c.inline = 1
				continue
			}
			for i, a := range c.Args {
				if a.op == OFAddr && la.guards[a.fld] != nil && i < len(t.Params) {
					// the callee works on the field itself
					mode := byte('R')
					if la.writesThrough(t, i, 0) {
						mode = 'W'
					}
					la.access(c.Ctx, root, a, mode)
				}
			}
			la.addCall(&callRec{caller: root, callee: t, held: held, site: c.In, isGo: c.IsGo}, c.closureVal(t), c.Args, c.St)
			if c.Callee != nil {
				c.inline = 2
			}
		}
		// closures handed to a function are run by it
		ext := c.Callee == nil || !la.P.inModule(c.Callee)
		if !ext && c.inline == 2 || ext && c.Common.IsInvoke() {
			for _, a := range c.Args {
				if a.op == OClosure && la.P.inModule(a.fn) {
					la.addCall(&callRec{caller: root, callee: a.fn, held: held, site: c.In, isGo: c.IsGo}, a, nil, c.St)
				}
				if a.op == OFunc && la.P.inModule(a.fn) {
					la.addCall(&callRec{caller: root, callee: a.fn, held: held, site: c.In, isGo: c.IsGo}, a, nil, c.St)
				}
			}
		}
	}
	h.Store = func(c *Ctx, addr, val *Val) {
		la.access(c, root, addr, 'W')
		if addr.op == OFAddr && la.guards[addr.fld] != nil && val.op == OMake {
			// the old map is no longer shared
			c.St.Add("detached", c.E.load(c.St, addr, addr.fld.Type()))
		}
	}
	h.Load = func(c *Ctx, addr *Val) { la.access(c, root, addr, 'R') }
	h.MapRead = func(c *Ctx, m, k *Val) { la.mapAccess(c, root, m, 'R') }
	h.MapWrite = func(c *Ctx, m, k, v *Val) { la.mapAccess(c, root, m, 'W') }
	h.Range = func(c *Ctx, x *Val) { la.mapAccess(c, root, x, 'R') }
	h.Send = func(c *Ctx, ch, v *Val) {
		if la.semField(ch) {
			la.doAcquire(c, root, ch, 'W')
		}
	}
	h.Recv = func(c *Ctx, ch *Val) {
		if la.semField(ch) {
			la.doRelease(c, root, ch, 'W')
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		for _, t := range c.St.tags {
			if strings.HasPrefix(t.N, "H|") {
				cl := strings.SplitN(t.N, "|", 4)[2]
				if esc := la.escapeOf(cl); esc != "" && c.St.Has("closed|"+esc) {
					// whoever waits for it gives up: the object has been shut down
					continue
				}
				if la.held[root] == nil {
					la.held[root] = map[string]*Finding{}
				}
				if _, ok := la.held[root][cl]; !ok {
					la.held[root][cl] = &Finding{Key: "held:" + fname(root) + ":" + cl, Msg: fname(root) + " can return while it still holds " + cl, Where: c.Pos()}
				}
			}
		}
	}
	return h
}

func (la *lockAna) mapAccess(c *Ctx, root *ssa.Function, m *Val, mode byte) {
	if m != nil && m.op == OLoad && !c.St.HasV("detached", m) {
		la.access(c, root, m.args[0], mode)
	}
}

// writesThrough: the function changes what its parameter points to.
func (la *lockAna) writesThrough(fn *ssa.Function, i, d int) bool {
	if d > 3 {
		return true
	}
	var from func(v ssa.Value, n int) bool
	from = func(v ssa.Value, n int) bool {
		if n > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			return x == fn.Params[i]
		case *ssa.FieldAddr:
			return from(x.X, n+1)
		case *ssa.IndexAddr:
			return from(x.X, n+1)
		case *ssa.UnOp:
			return from(x.X, n+1)
		case *ssa.Slice:
			return from(x.X, n+1)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if from(x.Addr, 0) {
					return true
				}
			case *ssa.MapUpdate:
				if from(x.Map, 0) {
					return true
				}
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				for k, a := range x.Common().Args {
					if !from(a, 0) {
						continue
					}
					if g == nil {
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() != "copy" && bi.Name() != "delete" {
							continue
						}
						return true
					}
					if k < len(g.Params) && la.P.inModule(g) && la.writesThrough(g, k, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// inlines: functions analysed as part of their caller.
func (la *lockAna) inlines(c *CallCtx, root, t *ssa.Function) bool {
	if la.wrappers[t] {
		return true
	}
	if t.Parent() != nil && c.InFn(t.Parent()) && (c.IsDefer || true) {
		// closure of an enclosing function that is called here
		return true
	}
	return c.E.leaf(t, 0)
}

func (la *lockAna) addCall(cr *callRec, closure *Val, args []*Val, st *State) {
	if closure != nil && closure.op == OClosure {
		// captured variables
		args = nil
		for _, b := range closure.args {
			if b.op == OAlloc && st.mem[b] != nil {
				b = st.mem[b]
			}
			args = append(args, b)
		}
	}
	held := make([]heldLock, len(cr.held))
	copy(held, cr.held)
	for i := range held {
		held[i].onArg = map[int]int{}
		for k, a := range args {
			switch {
			case held[i].base == a || pathOf(a) != "" && pathOf(held[i].base) == pathOf(a):
				held[i].onArg[k] = 1
			case held[i].base != nil && comparable2(held[i].base, a):
				held[i].onArg[k] = 2
			}
		}
		held[i].base, held[i].val = nil, nil
	}
	cr.held = held
	for _, a := range args {
		rt := rootOf(a)
		av := argVal{path: pathOf(a), fresh: freshVal(a), root: paramIndex(cr.caller, rt)}
		if closure != nil && a.op == OAlloc {
			av.fresh = false
		}
		av.exact = av.root >= 0 && stripAlloc(a) == stripAlloc(rt)
		cr.args = append(cr.args, av)
	}
	la.record(cr)
}

func (la *lockAna) record(cr *callRec) {
	var ks []string
	for _, h := range cr.held {
		ks = append(ks, h.class+string(h.mode)+h.path+fmt.Sprint(h.onArg))
	}
	for _, a := range cr.args {
		ks = append(ks, fmt.Sprint(a))
	}
	sort.Strings(ks)
	k := fmt.Sprintf("%p|%p|%p|%v|%s", cr.caller, cr.callee, cr.site, cr.isGo, strings.Join(ks, ","))
	if la.seenCall[k] {
		return
	}
	la.seenCall[k] = true
	la.calls[cr.callee] = append(la.calls[cr.callee], cr)
	la.callsBy[cr.caller] = append(la.callsBy[cr.caller], cr)
	if cr.isGo {
		la.goes[cr.callee] = cr.site
	}
}

// argIndex maps a root index of the callee to an argument.
func (la *lockAna) argIndex(c *callRec, root int) int {
	if c.callee.Parent() != nil && root >= 100 {
		return root - 100
	}
	return root
}

// argFor finds the value bound to a root index.
func (la *lockAna) argFor(c *callRec, root int) (argVal, bool) {
	if c.callee.Parent() != nil && root < 100 {
		return argVal{}, false
	}
	i := la.argIndex(c, root)
	if i >= 0 && i < len(c.args) {
		return c.args[i], true
	}
	return argVal{}, false
}

// ssaPath is pathOf on the program itself.
func ssaPath(v ssa.Value) (path string, root ssa.Value, fresh bool) {
	for d := 0; d < 30; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x.Name() + path, x, false
		case *ssa.FreeVar:
			return "free:" + x.Name() + path, x, false
		case *ssa.Global:
			return "", x, false
		case *ssa.FieldAddr:
			path = "." + structOf(x.X.Type()).Field(x.Field).Name() + path
			v = x.X
		case *ssa.Field:
			path = "." + structOf(x.X.Type()).Field(x.Field).Name() + path
			v = x.X
		case *ssa.UnOp:
			if x.Op.String() != "*" {
				return "", nil, false
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a local variable with one assignment
				var one ssa.Value
				n := 0
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						one = st.Val
						n++
					}
				}
				if n != 1 {
					return "", nil, false
				}
				v = one
				continue
			}
			v = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Const:
			return "", nil, true
		case *ssa.IndexAddr:
			p, r, f := ssaPath(x.X)
			_ = p
			return "", r, f
		case *ssa.Lookup:
			_, r, f := ssaPath(x.X)
			return "", r, f
		case *ssa.Extract:
			v = x.Tuple
			path = ""
		case *ssa.ChangeType:
			v = x.X
		default:
			return "", nil, false
		}
	}
	return "", nil, false
}

// plain records the calls of a function that has no lock operation and no guarded access.
func (la *lockAna) plain(fn *ssa.Function) {
	arg := func(v ssa.Value) argVal {
		p, rt, fresh := ssaPath(v)
		a := argVal{path: p, fresh: fresh, root: -1}
		switch x := rt.(type) {
		case *ssa.Parameter:
			for i, q := range fn.Params {
				if q == x {
					a.root = i
				}
			}
			a.exact = p == x.Name()
		case *ssa.FreeVar:
			for i, q := range fn.FreeVars {
				if q == x {
					a.root = 100 + i
				}
			}
			a.exact = p == "free:"+x.Name()
		}
		return a
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			_, isGo := in.(*ssa.Go)
			ci, isCall := in.(ssa.CallInstruction)
			if isCall {
				c := ci.Common()
				var ts []*ssa.Function
				if c.IsInvoke() {
					ts = la.targets(c, nil, nil)
				} else if g := c.StaticCallee(); g != nil {
					ts = append(ts, g)
				}
				for _, t := range ts {
					if !la.P.inModule(t) || len(t.Blocks) == 0 || t.Parent() != nil {
						continue
					}
					var args []argVal
					if c.IsInvoke() {
						args = append(args, arg(c.Value))
					}
					for _, x := range c.Args {
						args = append(args, arg(x))
					}
					la.record(&callRec{caller: fn, callee: t, args: args, site: in, isGo: isGo})
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				var args []argVal
				for _, x := range mc.Bindings {
					if al, ok := x.(*ssa.Alloc); ok {
						var one ssa.Value
						n := 0
						for _, r := range *al.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == al {
								one = st.Val
								n++
							}
						}
						if n == 1 {
							args = append(args, arg(one))
						} else {
							args = append(args, argVal{root: -1})
						}
						continue
					}
					args = append(args, arg(x))
				}
				g := false
				for _, rf := range *mc.Referrers() {
					if _, ok := rf.(*ssa.Go); ok {
						g = true
					}
				}
				la.record(&callRec{caller: fn, callee: mc.Fn.(*ssa.Function), args: args, site: in, isGo: g})
			}
		}
	}
}

// touches: has a lock operation or guarded access in its own body, its inlined closures, leaves or helpers.
func (la *lockAna) touches(fn *ssa.Function, d int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, ok := lockMethods[staticName(ci.Common())]; ok {
					return true
				}
				if g := ci.Common().StaticCallee(); g != nil && d < 3 && la.P.inModule(g) && (la.wrappers[g] || len(g.Blocks) <= 6 && len(la.P.loopsOf(g).loops) == 0) && la.touches(g, d+1) {
					return true
				}
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				f := structOf(x.X.Type()).Field(x.Field)
				if la.guards[f] != nil || la.sems[f] {
					return true
				}
			case *ssa.Field:
				f := structOf(x.X.Type()).Field(x.Field)
				if la.guards[f] != nil || la.sems[f] {
					return true
				}
			case *ssa.MakeClosure:
				if d < 3 && la.touches(x.Fn.(*ssa.Function), d+1) {
					return true
				}
			}
		}
	}
	return false
}

func newLockAna(r *Run) *lockAna {
	la := &lockAna{r: r, P: r.P, guards: map[*types.Var]*guardInfo{}, owner: r.P.ownerMap(), wrappers: map[*ssa.Function]bool{}}
	la.findSems()
	la.relBody, la.acqBody = map[*ssa.Function]map[string]bool{}, map[*ssa.Function]map[string]bool{}
	return la
}

func (la *lockAna) reset() {
	la.calls, la.callsBy, la.seenCall = map[*ssa.Function][]*callRec{}, map[*ssa.Function][]*callRec{}, map[string]bool{}
	la.needs, la.acq = map[*ssa.Function]map[need]bool{}, map[*ssa.Function]map[string]acquire{}
	la.held, la.rel = map[*ssa.Function]map[string]*Finding{}, map[*ssa.Function]map[string]*Finding{}
	la.edges, la.self, la.goes = map[string]lockEdge{}, map[string]*Finding{}, map[*ssa.Function]ssa.Instruction{}
	la.accesses, la.lockOps, la.all = 0, 0, nil
	la.taking = map[string]ssa.Instruction{}
}

// roots: every module function that is not only ever run inside its enclosing function.
func (la *lockAna) roots() []*ssa.Function {
	return la.P.fns(func(f *ssa.Function) bool {
		if len(f.Blocks) == 0 || f.Synthetic != "" {
			return false
		}
		p := pkgOf(f)
		return !strings.HasPrefix(p, "examples") && !strings.HasPrefix(p, "benchmark") && p != "server/tools"
	})
}

// onlyInlined: closures whose every use is a direct call, defer, or hand-over to an external function in its parent.
func (la *lockAna) onlyInlined(f *ssa.Function) bool {
	if f.Parent() == nil || f.Referrers() == nil && true {
		if f.Parent() == nil {
			return false
		}
	}
	var mcs []ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				mcs = append(mcs, mc)
			}
			var ops [16]*ssa.Value
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, isGo := in.(*ssa.Go); !isGo && ci.Common().Value == f {
					mcs = append(mcs, nil)
				}
				for _, o := range in.Operands(ops[:0]) {
					if o != nil && *o == f && ci.Common().Value != f {
						return false
					}
				}
			}
		}
	}
	if len(mcs) == 0 {
		return false
	}
	for _, m := range mcs {
		if m == nil {
			continue
		}
		for _, r := range *m.Referrers() {
			ci, ok := r.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if _, isGo := r.(*ssa.Go); isGo || ci.Common().Value != m {
				return false
			}
		}
	}
	return true
}

func (la *lockAna) run() {
	for round := 0; round < 4; round++ {
		la.reset()
		for _, fn := range la.roots() {
			if la.onlyInlined(fn) {
				continue
			}
			if !la.touches(fn, 0) {
				la.plain(fn)
				continue
			}
			t := time.Now()
			if os.Getenv("SA_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "lock", fname(fn))
			}
			la.taking = map[string]ssa.Instruction{}
			e := newEngine(la.P, la.hooks(fn))
			e.maxSteps = 400000
			e.Run(fn, nil)
			la.r.collect(e, fn)
			if os.Getenv("SA_TIME") != "" && time.Since(t) > 200*time.Millisecond {
				fmt.Fprintf(os.Stderr, "%-50s %8d steps %v\n", fname(fn), e.steps, time.Since(t).Round(time.Millisecond))
			}
		}
		// functions that take or release a lock for their callers
		grew := false
		for _, fn := range la.roots() {
			if la.wrappers[fn] {
				continue
			}
			for cl := range la.held[fn] {
				if la.callersDo(fn, cl, la.rel) {
					la.wrappers[fn] = true
					grew = true
				}
			}
			for cl := range la.rel[fn] {
				if la.callersDo(fn, cl, la.held) {
					la.wrappers[fn] = true
					grew = true
				}
			}
		}
		if os.Getenv("SA_DEBUG") != "" {
			for w := range la.wrappers {
				fmt.Fprintln(os.Stderr, "wrapper", fname(w))
			}
		}
		if !grew {
			break
		}
	}
}

// callersDo: some function that calls fn has the complementary operation of the class.
func (la *lockAna) callersDo(fn *ssa.Function, cl string, m map[*ssa.Function]map[string]*Finding) bool {
	for _, g := range la.P.callers(fn) {
		for g.Parent() != nil && m[g] == nil {
			g = g.Parent()
		}
		if m[g] != nil && m[g][cl] != nil {
			return true
		}
		// a sibling helper called by the same caller completes it
		for _, h := range la.P.directCallees(g) {
			if h != fn && m[h] != nil && m[h][cl] != nil {
				return true
			}
		}
	}
	return false
}

// isEntry: can be called with no lock held by code outside the module or as a goroutine.
func (la *lockAna) isEntry(fn *ssa.Function) bool {
	if la.goes[fn] != nil {
		return true
	}
	if fn.Parent() == nil && isExported(fn) {
		p := pkgOf(fn)
		if !strings.HasPrefix(p, "server") {
			if rv := fn.Signature.Recv(); rv != nil {
				n := typeName(deref(rv.Type()))
				if i := strings.LastIndex(n, "."); i >= 0 {
					n = n[i+1:]
				}
				if n != "" && n[0] >= 'A' && n[0] <= 'Z' {
					return true
				}
			} else {
				return true
			}
		}
	}
	if fn.Parent() == nil && !isExported(fn) && fn.Name() != "main" && !strings.HasPrefix(fn.Name(), "init") && !la.referenced(fn) {
		return false // called by nobody, or in what its callers hold
	}
	if fn.Parent() != nil {
		return len(la.calls[fn]) == 0 && closureKept(fn)
	}
	return len(la.calls[fn]) == 0 && len(la.P.callers(fn)) == 0 && !la.wrappers[fn]
}

// closureKept: the closure outlives the call that makes it (returned, stored).
func closureKept(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeClosure:
				if x.Fn != fn {
					continue
				}
				for _, r := range *x.Referrers() {
					switch y := r.(type) {
					case *ssa.Return, *ssa.MakeInterface, *ssa.ChangeType, *ssa.MapUpdate:
						return true
					case *ssa.Store:
						if _, local := y.Addr.(*ssa.Alloc); !local {
							return true
						}
					}
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if v == fn {
						return true
					}
				}
			case *ssa.Store:
				if _, local := x.Addr.(*ssa.Alloc); x.Val == fn && !local {
					return true
				}
			}
		}
	}
	return false
}

// referenced: used as a value somewhere.
func (la *lockAna) referenced(fn *ssa.Function) bool {
	if la.refd == nil {
		la.refd = map[*ssa.Function]bool{}
		for _, f := range la.P.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [16]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						if o == nil || *o == nil {
							continue
						}
						g, ok := (*o).(*ssa.Function)
						if !ok {
							continue
						}
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == g {
							continue
						}
						la.refd[g] = true
						if strings.HasSuffix(g.Name(), "$bound") || strings.HasSuffix(g.Name(), "$thunk") {
							for _, h := range la.P.directCallees(g) {
								la.refd[h] = true
							}
						}
					}
				}
			}
		}
	}
	return la.refd[fn]
}

func (la *lockAna) propagate() {
	type item struct {
		fn *ssa.Function
		n  need
	}
	var work []item
	for fn, m := range la.needs {
		for n := range m {
			work = append(work, item{fn, n})
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for _, cr := range la.calls[it.fn] {
			if cr.isGo {
				continue
			}
			n := it.n
			arg, ok := argVal{}, false
			if n.root >= 0 {
				arg, ok = la.argFor(cr, n.root)
			}
			if ok && arg.fresh {
				continue
			}
			done := false
			for _, h := range cr.held {
				if g := la.guards[n.fld]; g != nil && g.alts[h.class] && (n.mode == 'R' || h.mode == 'W') {
					done = true
				}
				if h.class == n.class && (n.mode == 'R' || h.mode == 'W') {
					if !n.same || !n.exact || !ok || h.onArg[la.argIndex(cr, n.root)] != 2 {
						done = true
					}
				}
			}
			if done {
				continue
			}
			m := need{class: n.class, mode: n.mode, fld: n.fld, root: -1, same: n.same, site: n.site, fn: n.fn}
			if ok {
				m.root = arg.root
				m.exact = n.exact && arg.exact
			}
			if la.addNeed(cr.caller, m) {
				work = append(work, item{cr.caller, m})
			}
		}
	}
}

// closureVal: the closure value a call (or go statement) runs.
func (c *CallCtx) closureVal(t *ssa.Function) *Val {
	if t.Parent() == nil || c.Common.IsInvoke() {
		return nil
	}
	v := c.E.eval(c.fr, c.Common.Value)
	if v.op == OClosure {
		return v
	}
	return nil
}

// closeAcquires makes la.acq transitive, substituting parameter paths.
func (la *lockAna) closeAcquires() {
	for changed := true; changed; {
		changed = false
		for caller, crs := range la.callsBy {
			for _, cr := range crs {
				if cr.isGo {
					continue
				}
				for _, a := range la.acq[cr.callee] {
					p := la.substPath(cr, a.path)
					if strings.Count(p, ".") > 6 {
						p = ""
					}
					k := a.class + "|" + p
					if la.acq[caller] == nil {
						la.acq[caller] = map[string]acquire{}
					}
					if _, ok := la.acq[caller][k]; !ok {
						la.acq[caller][k] = acquire{a.class, p, a.mode, a.site, a.fn}
						changed = true
					}
				}
			}
		}
	}
}

// substPath rewrites a path of the callee in terms of the caller, "" when unknown.
func (la *lockAna) substPath(cr *callRec, p string) string {
	if p == "" || strings.HasPrefix(p, "global:") {
		return p
	}
	head, tail := p, ""
	if i := strings.Index(strings.TrimPrefix(p, "free:"), "."); i >= 0 {
		i += len(p) - len(strings.TrimPrefix(p, "free:"))
		head, tail = p[:i], p[i:]
	}
	if strings.HasPrefix(head, "free:") {
		for i, f := range cr.callee.FreeVars {
			if "free:"+f.Name() == head && i < len(cr.args) && cr.args[i].path != "" {
				return cr.args[i].path + tail
			}
		}
		return ""
	}
	for i, q := range cr.callee.Params {
		if q.Name() == head && i < len(cr.args) && cr.args[i].path != "" {
			return cr.args[i].path + tail
		}
	}
	return ""
}

// orderEdges adds the nestings that happen through calls.
func (la *lockAna) orderEdges() {
	la.closeAcquires()
	la.findBuild()
	for caller, crs := range la.callsBy {
		for _, cr := range crs {
			if cr.isGo {
				continue
			}
			for _, h := range cr.held {
				for _, a := range la.acq[cr.callee] {
					if a.class == h.class {
						p := la.substPath(cr, a.path)
						if p != "" && p == h.path {
							k := "self:" + fname(caller) + ":" + h.class
							if _, ok := la.self[k]; !ok {
								la.self[k] = &Finding{Key: k, Where: la.P.instrPos(cr.site), Msg: fmt.Sprintf("%s holds %s and calls %s, which takes it again (%s)", fname(caller), h.class, fname(cr.callee), la.P.instrPos(a.site))}
							}
							continue
						}
						if p != "" && h.path != "" {
							continue // a different object
						}
					}
					la.addEdge(h.class, a.class, cr.site, caller, cr.callee)
				}
			}
		}
	}
	for _, e := range la.all {
		if !la.build[e.fn] {
			la.keepEdge(e)
		}
	}
}

// findBuild: methods that are only called on an object its caller has just
// allocated (or from such a method, on the same object), and their closures. No
// other goroutine has the object yet, so what it nests cannot meet another order.
func (la *lockAna) findBuild() {
	la.build = map[*ssa.Function]bool{}
	for _, fn := range la.roots() {
		if fn.Parent() == nil && fn.Signature.Recv() != nil && !isExported(fn) && len(la.calls[fn]) > 0 && la.goes[fn] == nil {
			la.build[fn] = true
		} else if fn.Parent() != nil && la.goes[fn] == nil {
			la.build[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for fn := range la.build {
			ok := true
			if fn.Parent() != nil {
				ok = la.build[fn.Parent()]
			} else {
				for _, cr := range la.calls[fn] {
					if len(cr.args) == 0 || cr.isGo {
						ok = false
						break
					}
					a := cr.args[0]
					own := a.exact && a.root == 0
					if cr.caller.Parent() != nil {
						own = a.root >= 100
					}
					if !(a.fresh || own && la.build[cr.caller]) {
						ok = false
						break
					}
				}
			}
			if !ok {
				delete(la.build, fn)
				changed = true
			}
		}
	}
}
