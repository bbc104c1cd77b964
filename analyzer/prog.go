package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/unit-io/unitdb"

// Prog is the resolved program under analysis.
type Prog struct {
	dir     string
	fset    *token.FileSet
	pkgs    []*packages.Package
	ssa     *ssa.Program
	byPath  map[string]*ssa.Package
	tpkgs   map[string]*packages.Package
	funcs   []*ssa.Function // all functions with bodies in module packages, closures included
	named   []*types.Named
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	loops   map[*ssa.Function]*loopInfo
	mod     map[*ssa.Function]*modset
	callees map[*ssa.Function][]*ssa.Function
	stable  map[*types.Var]bool
	stInit  bool
	chaMemo map[string][]*ssa.Function
}

func loadProg(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir, Env: env, Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the packages of %s do not type-check: %s", dir, strings.Join(errs, "; "))
	}
	sp, spk := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{dir: dir, fset: cfg.Fset, pkgs: pkgs, ssa: sp, byPath: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.Function]*loopInfo{},
		mod: map[*ssa.Function]*modset{}, callees: map[*ssa.Function][]*ssa.Function{}, chaMemo: map[string][]*ssa.Function{}}
	for i, s := range spk {
		if s == nil {
			return nil, fmt.Errorf("no SSA for package %s", pkgs[i].PkgPath)
		}
		p.byPath[relPath(s.Pkg.Path())] = s
		p.tpkgs[relPath(s.Pkg.Path())] = pkgs[i]
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, s := range spk {
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				p.named = append(p.named, n)
				for i := 0; i < n.NumMethods(); i++ {
					add(sp.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return fname(p.funcs[i]) < fname(p.funcs[j]) })
	sort.Slice(p.named, func(i, j int) bool { return p.named[i].String() < p.named[j].String() })
	return p, nil
}

func relPath(path string) string {
	if path == modPath {
		return "unitdb"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// fname is the stable printable name of a function: package path relative to
// the module, receiver type, name.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + "$" + strings.TrimPrefix(strings.TrimPrefix(f.Name(), f.Parent().Name()), "$")
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = relPath(f.Pkg.Pkg.Path())
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = relPath(o.Pkg().Path())
	}
	if r := f.Signature.Recv(); r != nil {
		return pkg + "." + typeName(r.Type()) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return typeName(t.Elem())
	case *types.Named:
		return t.Obj().Name()
	}
	return t.String()
}

// qualType is pkg.Type for named types (pointers stripped).
func qualType(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return qualType(t.Elem())
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return relPath(t.Obj().Pkg().Path()) + "." + t.Obj().Name()
	}
	return t.String()
}

func (p *Prog) inModule(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		return p.byPath[relPath(g.Pkg.Pkg.Path())] == g.Pkg
	}
	// synthetic wrapper or bound method
	if o := g.Object(); o != nil && o.Pkg() != nil {
		_, ok := p.byPath[relPath(o.Pkg().Path())]
		return ok
	}
	return false
}

// calleeName is the qualified name of a called function, external or not.
func calleeName(f *ssa.Function) string { return fname(f) }

// fn finds a function: "unitdb.DB.Get", "wal.New". nil when absent.
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.funcs {
		if fname(f) == name && f.Parent() == nil {
			return f
		}
	}
	return nil
}

// fns lists functions satisfying pred.
func (p *Prog) fns(pred func(*ssa.Function) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.funcs {
		if pred(f) {
			r = append(r, f)
		}
	}
	return r
}

func (p *Prog) typ(pkg, name string) *types.Named {
	s := p.byPath[pkg]
	if s == nil {
		return nil
	}
	o := s.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// field finds a field of a named struct type.
func (p *Prog) field(pkg, typ, name string) *types.Var {
	n := p.typ(pkg, typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// exportedMethods lists the exported methods of *T with bodies.
func (p *Prog) exportedMethods(pkg, typ string) []*ssa.Function {
	n := p.typ(pkg, typ)
	if n == nil {
		return nil
	}
	var r []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Exported() {
			if f := p.ssa.FuncValue(m); f != nil && len(f.Blocks) > 0 {
				r = append(r, f)
			}
		}
	}
	return r
}

// invokeTargets resolves an interface method call to the module methods that can be its target.
func (p *Prog) invokeTargets(c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.chaMemo[k]; ok {
		return r
	}
	var r []*ssa.Function
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if types.Implements(t, iface) {
				if sel := p.ssa.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := p.ssa.MethodValue(sel); f != nil && p.inModule(f) {
						r = append(r, f)
					}
				}
				break
			}
		}
	}
	p.chaMemo[k] = r
	return r
}

// methodOn resolves a method on a known dynamic type.
func (p *Prog) methodOn(t types.Type, m *types.Func) *ssa.Function {
	if t == nil || types.IsInterface(t) {
		return nil
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

// directCallees lists module functions a function may call or create (closures), go and defer included.
func (p *Prog) directCallees(f *ssa.Function) []*ssa.Function {
	if r, ok := p.callees[f]; ok {
		return r
	}
	set := map[*ssa.Function]bool{}
	var r []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !set[g] && p.inModule(g) {
			set[g] = true
			r = append(r, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := ci.Common()
				if c.IsInvoke() {
					for _, g := range p.invokeTargets(c) {
						add(g)
					}
				} else if g := c.StaticCallee(); g != nil {
					add(g)
				}
			}
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				switch v := (*o).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		}
	}
	p.callees[f] = r
	return r
}

// reach is the set of module functions reachable from roots.
func (p *Prog) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	for _, r := range roots {
		if r != nil {
			st = append(st, r)
		}
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		st = append(st, p.directCallees(f)...)
	}
	return seen
}

type modset struct {
	flds map[*types.Var]bool
	ptr  bool // stores through a plain pointer
}

// modOf computes the fields a function may store, transitively.
func (p *Prog) modOf(f *ssa.Function) *modset {
	if m, ok := p.mod[f]; ok {
		return m
	}
	m := &modset{flds: map[*types.Var]bool{}}
	for g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					p.modAddr(s.Addr, m)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && len(c.Common().Args) > 0 && !strings.HasPrefix(g.Name(), "Load") {
						p.modAddr(c.Common().Args[0], m)
					}
				}
			}
		}
	}
	p.mod[f] = m
	return m
}

func (p *Prog) modAddr(a ssa.Value, m *modset) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		st := structOf(a.X.Type())
		m.flds[st.Field(a.Field)] = true
		p.modNested(st.Field(a.Field).Type(), m)
	case *ssa.IndexAddr:
		p.modAddr(a.X, m)
	case *ssa.Alloc:
		if a.Heap {
			m.ptr = true
		}
		p.modNested(deref(a.Type()), m)
	case *ssa.Global:
	default:
		m.ptr = true
		p.modNested(deref(a.Type()), m)
	}
}

// modNested: storing a whole struct overwrites its fields.
func (p *Prog) modNested(t types.Type, m *modset) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if !m.flds[st.Field(i)] {
			m.flds[st.Field(i)] = true
			p.modNested(st.Field(i).Type(), m)
		}
	}
}

// isStable reports whether a field is only ever set while its object is being built.
func (p *Prog) isStable(f *types.Var) bool {
	if !p.stInit {
		p.stInit = true
		p.stable = map[*types.Var]bool{}
		bad := map[*types.Var]bool{}
		var markNested func(t types.Type)
		markNested = func(t types.Type) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !bad[f] {
					bad[f] = true
					markNested(f.Type())
				}
			}
		}
		var freshBase func(v ssa.Value, n int) bool
		freshBase = func(v ssa.Value, n int) bool {
			if n > 6 {
				return false
			}
			switch v := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				return freshBase(v.X, n+1)
			case *ssa.UnOp:
				if v.Op == token.MUL {
					// load of a local variable that only holds fresh objects
					if a, ok := v.X.(*ssa.Alloc); ok {
						for _, r := range *a.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == a {
								if !freshBase(s.Val, n+1) {
									return false
								}
							}
						}
						return true
					}
				}
			case *ssa.Phi:
				for _, e := range v.Edges {
					if !freshBase(e, n+1) {
						return false
					}
				}
				return true
			}
			return false
		}
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						switch a := in.Addr.(type) {
						case *ssa.FieldAddr:
							if !freshBase(a.X, 0) {
								f := structOf(a.X.Type()).Field(a.Field)
								bad[f] = true
								markNested(f.Type())
							}
						case *ssa.Alloc, *ssa.Global:
						case *ssa.IndexAddr:
							if fa, ok := a.X.(*ssa.FieldAddr); ok && !freshBase(fa.X, 0) {
								bad[structOf(fa.X.Type()).Field(fa.Field)] = true
							}
							markNested(deref(in.Addr.Type()))
						default:
							markNested(deref(in.Addr.Type()))
						}
					case ssa.CallInstruction:
						// address of a field passed to a call: may be written
						for _, arg := range in.Common().Args {
							if fa, ok := arg.(*ssa.FieldAddr); ok {
								ft := structOf(fa.X.Type()).Field(fa.Field)
								if s := ft.Type().Underlying(); s != nil {
									if _, isStruct := s.(*types.Struct); !isStruct {
										bad[ft] = true
									}
								}
							}
						}
					}
				}
			}
		}
		for _, n := range p.named {
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if !bad[st.Field(i)] || isLockPtr(st.Field(i).Type()) {
					p.stable[st.Field(i)] = true
				}
			}
		}
	}
	return p.stable[f]
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	return strings.TrimPrefix(q.Filename, p.dir+"/") + ":" + fmt.Sprint(q.Line)
}

// instrPos finds the nearest valid position for an instruction.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		best := token.NoPos
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				best = o.Pos()
			}
			if o == in && best.IsValid() {
				break
			}
		}
		if best.IsValid() {
			return p.pos(best)
		}
		return p.pos(b.Parent().Pos())
	}
	return "?"
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopInfo struct {
	loops []*loop
	byHd  map[*ssa.BasicBlock]*loop
	order map[*ssa.BasicBlock]int // reverse postorder, loop bodies before what follows the loop
}

func (li *loopInfo) number(f *ssa.Function) {
	li.order = map[*ssa.BasicBlock]int{}
	depth := func(b, s *ssa.BasicBlock) int {
		n := 0
		for _, l := range li.loops {
			if l.blocks[b] && !l.blocks[s] {
				n++
			}
		}
		return n
	}
	seen := map[*ssa.BasicBlock]bool{}
	n := len(f.Blocks)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		// successors that leave most loops first
		sort.SliceStable(ss, func(i, j int) bool { return depth(b, ss[i]) > depth(b, ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		n--
		li.order[b] = n
	}
	dfs(f.Blocks[0])
	for _, b := range f.Blocks {
		if !seen[b] {
			dfs(b)
		}
	}
}

func (p *Prog) loopsOf(f *ssa.Function) *loopInfo {
	if l, ok := p.loops[f]; ok {
		return l
	}
	li := &loopInfo{byHd: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHd[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.byHd[s] = l
				li.loops = append(li.loops, l)
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	li.number(f)
	p.loops[f] = li
	return li
}

// liveIn computes the SSA registers live at the entry of each block.
func (p *Prog) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := p.live[f]; ok {
		return l
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
			}
			for _, s := range b.Succs {
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, x := range s.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(ph.Edges[pi]) {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					if _, ph := x.(*ssa.Phi); !ph {
						delete(live, v)
					}
				}
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range x.Operands(ops[:0]) {
					if o != nil && *o != nil && isReg(*o) {
						live[*o] = true
					}
				}
			}
			// a phi of b that is live inside b stays in live-in (it is defined on entry)
			for v := range live {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[f] = in
	return in
}

// alwaysSet: every store to the pointer field stores a new object.
func (p *Prog) alwaysSet(f *types.Var) bool {
	n := 0
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field) != f {
					continue
				}
				n++
				switch s.Val.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

// isLockPtr: a pointer to a mutex; it is set when the object is built and not changed while it is in use.
func isLockPtr(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n := qualType(pt.Elem())
	return n == "sync.Mutex" || n == "sync.RWMutex"
}
