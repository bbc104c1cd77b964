package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkC23
}

const (
	findBlock = "hash.Consistent.FindBlock"
	initCons  = "hash.InitConsistent"
)

// shards: a struct with tables whose element is selected by a consistent hash of the same struct.
type shards struct {
	r      *Run
	cons   map[*types.Var]bool       // fields that hold the hash
	tables map[*types.Var]*types.Var // table -> hash
	maps   map[*types.Var]*types.Var // tables that are maps
	size   map[*types.Var]int64      // hash -> number of shards
	idxFn  map[*ssa.Function]int
}

func checkC23(r *Run) {
	r.Rule("the index with which a shard is taken from a table is exactly what the consistent hash kept with the table selects for the key; any other access to a table goes over all its shards, from the first to the last")
	r.Rule("where a structure is made, each of its tables has at least as many shards as its hash selects from, and a shard is put into every place; neither the table nor the hash, nor the number of blocks of the hash, changes afterwards")
	r.Rule("the hash selects, for a key, a block below the number of blocks it was made with, and selecting changes nothing")
	r.Rule("what is stored in, looked up in or removed from the shard of a key has that key: window entries the topic hash, free offsets the offset")
	s := &shards{r: r, cons: map[*types.Var]bool{}, tables: map[*types.Var]*types.Var{}, maps: map[*types.Var]*types.Var{}, size: map[*types.Var]int64{}, idxFn: map[*ssa.Function]int{}}
	s.find()
	s.made()
	s.access()
	s.hashing()
	s.windows()
	s.offsets()
}

// selected: the result of the hash (through helpers that return it); the call.
func (s *shards) selected(v ssa.Value) *ssa.Call {
	c, ok := stripConvSSA(v).(*ssa.Call)
	if !ok {
		return nil
	}
	if staticName(c.Common()) == findBlock {
		return c
	}
	f := c.Call.StaticCallee()
	if f == nil || !s.r.P.inModule(f) || f.Signature.Results().Len() != 1 || s.idxFn[f] == 2 {
		return nil
	}
	s.idxFn[f] = 2
	var res *ssa.Call
	n := 0
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			x := rt.Results[0]
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				// a named result
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, rf := range *al.Referrers() {
						if st, ok := rf.(*ssa.Store); ok && st.Addr == al {
							x = st.Val
						}
					}
				}
			}
			if c := s.selected(x); c != nil {
				res = c
			} else {
				n = -100
			}
		}
	}
	delete(s.idxFn, f)
	if n < 1 {
		return nil
	}
	return res
}

// retSelected: a function that returns what the hash selects.
func (s *shards) retSelected(f *ssa.Function) bool {
	return f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type().Underlying() == types.Typ[types.Uint16]
}

func (s *shards) each(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range s.r.P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

// find finds the tables.
func (s *shards) find() {
	r := s.r
	s.each(func(fn *ssa.Function, in ssa.Instruction) {
		var x, idx ssa.Value
		isMap := false
		switch i := in.(type) {
		case *ssa.IndexAddr:
			x, idx = i.X, i.Index
		case *ssa.Lookup:
			x, idx, isMap = i.X, i.Index, true
		case *ssa.MapUpdate:
			x, idx, isMap = i.Map, i.Key, true
		default:
			return
		}
		c := s.selected(idx)
		if c == nil {
			return
		}
		t, h := ssaField(x), ssaField(c.Call.Args[0])
		if t == nil || h == nil {
			r.Violate("c23:unknown:"+fname(fn), r.P.instrPos(in), "a shard is taken from a table, or with a hash, that is not kept in a structure")
			return
		}
		r.Count("shards selected", 1)
		s.cons[h] = true
		m := s.tables
		if isMap {
			m = s.maps
		}
		if o := m[t]; o != nil && o != h {
			r.Violate("c23:two-hashes:"+t.Name(), r.P.instrPos(in), "shards of %s are selected with two different hashes", t.Name())
		}
		m[t] = h
		if !isMap && structWith(r, t) != structWith(r, h) {
			r.Violate("c23:other-hash:"+t.Name(), r.P.instrPos(in), "a shard of %s is selected with the hash of another structure", t.Name())
		}
	})
	for _, ci := range r.P.callsTo(findBlock) {
		if h := ssaField(ci.Common().Args[0]); h != nil {
			s.cons[h] = true
		}
		r.Count("hash calls", 1)
	}
	r.Need("shards selected", 1)
	for t, h := range s.tables {
		r.Sample("table %s is indexed by %s of %s", t.Name(), h.Name(), structWith(r, t))
	}
	// nothing else may be done with what the hash selects
	s.each(func(fn *ssa.Function, in ssa.Instruction) {
		if sl, ok := in.(*ssa.Slice); ok {
			if t := ssaField(sl.X); t != nil && s.tables[t] != nil && (sl.Low != nil || sl.High != nil || sl.Max != nil) {
				r.Violate("c23:part:"+t.Name(), r.P.instrPos(in), "a part of the shards of %s is used as if it were all of them", t.Name())
			}
		}
		if v, ok := in.(ssa.Value); ok {
			if bo, ok := in.(*ssa.BinOp); ok && bo.Op != token.EQL && bo.Op != token.NEQ && bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.GTR && bo.Op != token.GEQ && usesSelected(s, v, 0) {
				r.Violate("c23:computed:"+fname(fn), r.P.instrPos(in), "a shard is not the one that the hash selects")
			}
		}
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		if t := ssaField(ia.X); t != nil && s.tables[t] != nil && s.selected(ia.Index) == nil && usesSelected(s, ia.Index, 0) {
			r.Violate("c23:index:"+t.Name(), r.P.instrPos(in), "a shard of %s is not the one that the hash selects", t.Name())
		}
	})
}

func usesSelected(s *shards, v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	v = stripConvSSA(v)
	if s.selected(v) != nil {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return usesSelected(s, x.X, d+1) || usesSelected(s, x.Y, d+1)
	}
	return false
}

// structWith: the named struct the field belongs to.
func structWith(r *Run, f *types.Var) string {
	for fv, o := range r.P.ownerMap() {
		if fv == f {
			return o[:strings.LastIndex(o, ".")]
		}
	}
	return ""
}

// made: where the structures are made.
func (s *shards) made() {
	r := s.r
	p := r.P
	isTbl := func(f *types.Var) bool { return s.tables[f] != nil }
	mapType := map[string]*types.Var{}
	for f := range s.maps {
		mapType[f.Type().Underlying().String()] = f
	}
	roots := map[*ssa.Function]bool{}
	s.each(func(fn *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			f := structOf(fa.X.Type()).Field(fa.Field)
			if !s.cons[f] && !isTbl(f) && s.maps[f] == nil {
				return
			}
			if _, ok := fa.X.(*ssa.Alloc); !ok {
				if _, isP := fa.X.(*ssa.Parameter); isP && len(p.callers(fn)) > 0 {
					for _, g := range p.callers(fn) {
						roots[g] = true
					}
					return
				}
				r.Violate("c23:replaced:"+f.Name(), p.instrPos(in), "%s is replaced in a structure that is in use: shards selected before are not found any more", f.Name())
				return
			}
			roots[fn] = true
		case *ssa.MakeMap:
			if mapType[x.Type().Underlying().String()] != nil {
				roots[fn] = true
			}
		}
	})
	// climb where the sizes are parameters
	for i := 0; i < 3; i++ {
		for f := range roots {
			up := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci.Common()) == initCons {
						for _, a := range ci.Common().Args {
							if _, isP := stripConvSSA(a).(*ssa.Parameter); isP {
								up = true
							}
						}
					}
				}
			}
			if cs := p.callers(f); up && len(cs) > 0 {
				delete(roots, f)
				for _, g := range cs {
					roots[g] = true
				}
			}
		}
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sortFns(list)

	type sized struct {
		n   int64
		pos string
	}
	made := map[*types.Var]bool{}
	filledMaps := map[*types.Var][]sized{}
	mapField := func(v *Val) *types.Var {
		if v.typ != nil {
			return mapType[v.typ.Underlying().String()]
		}
		return nil
	}
	fills := func(l *loop) bool {
		var has func(in ssa.Instruction, d int) bool
		has = func(in ssa.Instruction, d int) bool {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				ia, ok := a.(*ssa.IndexAddr)
				if !ok {
					return false
				}
				if f := ssaField(ia.X); f != nil {
					return isTbl(f)
				}
				for t := range s.tables {
					if types.Identical(t.Type(), ia.X.Type()) {
						return true
					}
				}
			case *ssa.MapUpdate:
				return mapType[x.Map.Type().Underlying().String()] != nil
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && p.inModule(g) && d < 3 {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if has(in, d+1) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		return loopHas(l, func(in ssa.Instruction) bool { return has(in, 0) })
	}
	// makes: a function that makes a part of such a structure.
	makes := func(f *ssa.Function) bool {
		if p.reachesCall(f, initCons) {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeMap:
					if mapType[x.Type().Underlying().String()] != nil {
						return true
					}
				case *ssa.MapUpdate:
					if mapType[x.Map.Type().Underlying().String()] != nil {
						return true
					}
				case *ssa.Store:
					a := x.Addr
					for {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						if isTbl(structOf(fa.X.Type()).Field(fa.Field)) {
							return true
						}
						a = fa.X
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						for t := range s.tables {
							if types.Identical(t.Type(), ia.X.Type()) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			f := structOf(x.X.Type()).Field(x.Field)
			return isTbl(f) || s.cons[f]
		case *ssa.MakeMap:
			return mapType[x.Type().Underlying().String()] != nil
		case *ssa.MapUpdate:
			return mapType[x.Map.Type().Underlying().String()] != nil
		}
		return callIs(initCons)(in)
	}}
	h.Call = func(c *CallCtx) {
		if c.Name == initCons {
			c.Opaque()
			c.SetResult(c.E.pair("blocks", stripConv(c.Args[0])))
		} else if c.Callee != nil && p.inModule(c.Callee) && (!makes(c.Callee) || roots[c.Callee]) {
			c.Opaque()
			c.handled = true
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addrRoot(addr).op == OAlloc {
			switch {
			case s.cons[addr.fld]:
				c.St.Add("hash", c.E.pair("of:"+fieldKey(addr.fld), addr.args[0], v))
			case isTbl(addr.fld):
				c.St.Add("table", c.E.pair("of:"+fieldKey(addr.fld), addr.args[0], v))
			}
		}
		a := addr
		for a.op == OFAddr {
			a = a.args[0]
		}
		if a.op == OIAddr {
			c.St.Add("put", a.args[0])
			c.St.Add("putting", a.args[0])
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if v != nil && mapField(m) != nil {
			kk := stripConv(k)
			if _, isC := kk.constInt(); isC || kk.op == OPhi {
				c.St.Add("put", m)
				c.St.Add("putmap", m)
				c.St.Add("putting", m)
			}
		}
	}
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if fills(l) {
			c.St.Del("putting")
			c.St.Del("put")
			c.St.Del("hole")
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if fills(l) {
			if !c.St.Has("putting") {
				c.St.Add("hole")
			}
			c.St.Del("putting")
		}
	}
	h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
		if !fills(l) || c.In.Block() != l.head || c.St.Has("hole") {
			return
		}
		_, ph, y := countsLoop(l)
		n := countsDown(l)
		if ph == nil && n < 0 {
			return
		}
		if ph == nil {
		} else if k, ok := stripConv(c.E.eval(c.fr, y)).constInt(); ok {
			n = k
		} else if lengthOf(y, func(v ssa.Value) bool { return true }) {
			if lv := stripConv(c.E.eval(c.fr, y)); lv.op == OLen {
				n = tableLen(lv.args[0])
			}
		}
		if len(c.St.Find("put")) == 0 {
			c.St.Add("zero")
		}
		for _, t := range c.St.Find("put") {
			c.St.Add("filled", c.E.pair("filled", t, c.E.in.integer(n)))
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("zero") {
			return // no loop over shards ends before its first iteration
		}
		filled := func(v *Val) int64 {
			n := int64(-1)
			for _, f := range c.St.Find("filled") {
				if f.args[0] == v {
					if k, _ := f.args[1].constInt(); k > n {
						n = k
					}
				}
			}
			return n
		}
		blocks := map[*Val]int64{}
		for _, hv := range c.St.Find("hash") {
			f := fieldOfKey(s.cons, hv.aux)
			n := int64(-1)
			if hv.args[1].op == OComp && hv.args[1].aux == "pair:blocks" {
				n, _ = hv.args[1].args[0].constInt()
			} else if b := findPair(hv.args[1], "blocks"); b != nil {
				n, _ = b.args[0].constInt()
			}
			if n <= 0 {
				c.Report("c23:blocks", "the number of blocks of a hash is not a constant")
				continue
			}
			if n&0xffff == 0 {
				c.Report("c23:wraps", "a hash cannot be made with %d blocks", n)
			}
			blocks[hv.args[0]] = n
			if o, ok := s.size[f]; ok && o != n {
				c.Report("c23:two-sizes", "the same kind of structure is made with hashes of different size")
			}
			s.size[f] = n
			r.Count("hashes made", 1)
		}
		for _, tv := range c.St.Find("table") {
			t := fieldOfKey2(s.tables, tv.aux)
			if t == nil {
				continue
			}
			made[t] = true
			r.Count("tables made", 1)
			n, ok := blocks[tv.args[0]]
			if !ok {
				c.Report("c23:no-hash:"+t.Name(), "a table of shards is made without the hash that selects from it")
				continue
			}
			k := tableLen(tv.args[1])
			r.Sample("%s: %d shards, hash of %d blocks", t.Name(), k, n)
			if k < n {
				c.Report("c23:size:"+t.Name(), "the table %s has %d shards where its hash selects from %d", t.Name(), k, n)
			}
			if filled(tv.args[1]) < n {
				c.Report("c23:holes:"+t.Name(), "a shard is not put into every place of %s", t.Name())
			}
		}
		for _, m := range c.St.Find("putmap") {
			if f := mapField(m); f != nil {
				filledMaps[f] = append(filledMaps[f], sized{filled(m), c.Pos()})
			}
		}
	}
	r.Explore(h, list...)
	for t := range s.tables {
		if !made[t] {
			r.Violate("c23:not-made:"+t.Name(), "", "no place was found where the table %s is made", t.Name())
		}
	}
	r.Need("tables made", 1)
	// maps: every map of the kind is filled where it is made
	for t, hf := range s.maps {
		n := s.size[hf]
		makes := 0
		s.each(func(fn *ssa.Function, in ssa.Instruction) {
			if mm, ok := in.(*ssa.MakeMap); ok && mapType[mm.Type().Underlying().String()] == t {
				makes++
				r.Count("shard maps made", 1)
			}
		})
		for f, l := range filledMaps {
			if f != t && f.Type().Underlying().String() != t.Type().Underlying().String() {
				continue
			}
			for _, e := range l {
				if e.n < n {
					r.Violate("c23:map-holes:"+t.Name(), e.pos, "a shard is not put into the map %s for every block the hash can select", t.Name())
				}
			}
			if len(l) < makes {
				r.Violate("c23:map-empty:"+t.Name(), "", "a map %s is made without its shards", t.Name())
			}
		}
		if len(filledMaps) == 0 {
			r.Violate("c23:map-empty:"+t.Name(), "", "a map %s is made without its shards", t.Name())
		}
		s.each(func(fn *ssa.Function, in ssa.Instruction) {
			if isBuiltin("delete", func(ci ssa.CallInstruction) bool { f := ssaField(ci.Common().Args[0]); return f != nil && f == t })(in) {
				r.Violate("c23:map-delete:"+t.Name(), p.instrPos(in), "a shard is removed from the map %s", t.Name())
			}
		})
	}
}

func fieldKey(f *types.Var) string { return f.Pkg().Path() + "." + f.Name() + "@" + itoa(int(f.Pos())) }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func fieldOfKey(m map[*types.Var]bool, aux string) *types.Var {
	for f := range m {
		if aux == "pair:of:"+fieldKey(f) {
			return f
		}
	}
	return nil
}

func fieldOfKey2(m map[*types.Var]*types.Var, aux string) *types.Var {
	for f := range m {
		if aux == "pair:of:"+fieldKey(f) {
			return f
		}
	}
	return nil
}

func sortFns(fs []*ssa.Function) {
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fname(fs[j]) < fname(fs[i]) {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
}

// tableLen: the number of elements a table was made with.
func tableLen(v *Val) int64 {
	v = stripConv(v)
	switch v.op {
	case OMake:
		if len(v.args) > 0 {
			if n, ok := stripConv(v.args[0]).constInt(); ok {
				return n
			}
		}
	case OSlice:
		if v.args[0].op == OAlloc {
			if at, ok := deref(typOr(v.args[0])).Underlying().(*types.Array); ok {
				if v.args[2] == nil {
					return at.Len()
				}
				if n, ok := v.args[2].constInt(); ok {
					return n
				}
			}
		}
	}
	return -1
}

// countsLoop: a loop that counts from 0 in steps of one; its variable as used in the
// test, the phi, and the bound.
func countsLoop(l *loop) (ssa.Value, *ssa.Phi, ssa.Value) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, nil
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, nil
	}
	a, b := op.X, op.Y
	switch op.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		a, b = b, a
	default:
		return nil, nil, nil
	}
	x := stripConvSSA(a)
	first := int64(0)
	if s, ok := x.(*ssa.BinOp); ok && s.Op == token.ADD {
		if k, ok := constOfSSA(s.Y); !ok || k != 1 {
			return nil, nil, nil
		}
		x, first = s.X, -1
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || !countsUp(ph, l) {
		return nil, nil, nil
	}
	for i, e := range ph.Edges {
		if k, ok := constOfSSA(e); !l.blocks[ph.Block().Preds[i]] && (!ok || k != first) {
			return nil, nil, nil
		}
	}
	return stripConvSSA(a), ph, b
}

// countsDown: a loop that counts down in steps of one from a constant to 0; the number of iterations.
func countsDown(l *loop) int64 {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	a, b, tok := op.X, op.Y, op.Op
	if _, ok := constOfSSA(a); ok {
		a, b = b, a
		switch tok {
		case token.LSS:
			tok = token.GTR
		case token.LEQ:
			tok = token.GEQ
		}
	}
	k, ok := constOfSSA(b)
	ph, isPhi := stripConvSSA(a).(*ssa.Phi)
	if !ok || !isPhi || ph.Block() != l.head || !(tok == token.GEQ && k == 0 || tok == token.GTR && k == -1) {
		return -1
	}
	n := int64(-1)
	for i, e := range ph.Edges {
		if l.blocks[l.head.Preds[i]] {
			s, ok := e.(*ssa.BinOp)
			if !ok || s.X != ssa.Value(ph) {
				return -1
			}
			if d, ok := constOfSSA(s.Y); !ok || !(s.Op == token.SUB && d == 1 || s.Op == token.ADD && d == -1) {
				return -1
			}
			continue
		}
		d, ok := constOfSSA(e)
		if !ok || n >= 0 && n != d+1 {
			return -1
		}
		n = d + 1
	}
	return n
}

// access: accesses to tables that do not use the hash.
func (s *shards) access() {
	r := s.r
	p := r.P
	s.each(func(fn *ssa.Function, in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		t := ssaField(ia.X)
		if t == nil || s.tables[t] == nil || s.selected(ia.Index) != nil {
			return
		}
		r.Count("accesses to all shards", 1)
		if !s.overAll(fn, ia.Index, t, 0) {
			r.Violate("c23:not-all:"+t.Name()+":"+fname(fn), p.instrPos(in), "%s takes shards of %s that are neither selected by the hash nor all of them", fname(fn), t.Name())
		}
	})
	r.Need("accesses to all shards", 1)
}

// overAll: the index is the variable of a loop over the whole table.
func (s *shards) overAll(fn *ssa.Function, idx ssa.Value, t *types.Var, d int) bool {
	idx = stripConvSSA(idx)
	if pr, ok := idx.(*ssa.Parameter); ok && d < 3 {
		n, good := 0, true
		for i, q := range fn.Params {
			if q != pr {
				continue
			}
			for _, ci := range s.r.P.callsTo(fname(fn)) {
				n++
				good = good && (s.selected(ci.Common().Args[i]) != nil || s.overAll(ci.Parent(), ci.Common().Args[i], t, d+1))
			}
		}
		return n > 0 && good
	}
	for _, l := range s.r.P.loopsOf(fn).loops {
		v, ph, bound := countsLoop(l)
		if ph == nil || idx != v && idx != ssa.Value(ph) {
			continue
		}
		if lengthOf(bound, func(x ssa.Value) bool { return ssaField(x) == t }) {
			return true
		}
		if k, ok := constOfSSA(bound); ok && k == s.size[s.tables[t]] {
			return true
		}
		// another table of the same structure, of the same size
		if lengthOf(bound, func(x ssa.Value) bool { f := ssaField(x); return f != nil && s.tables[f] == s.tables[t] }) {
			return true
		}
		if pr, ok := stripConvSSA(bound).(*ssa.Parameter); ok {
			n, good := 0, true
			for i, q := range fn.Params {
				if q != pr {
					continue
				}
				for _, ci := range s.r.P.callsTo(fname(fn)) {
					n++
					k, ok := constOfSSA(ci.Common().Args[i])
					good = good && ok && k == s.size[s.tables[t]]
				}
			}
			return n > 0 && good
		}
	}
	return false
}

// hashing: the hash itself.
func (s *shards) hashing() {
	r := s.r
	p := r.P
	find := r.Fn(findBlock)
	ini := r.Fn(initCons)
	mod := r.Fn("hash.FastMod")
	a := r.Field("hash", "Consistent", "A")
	if find == nil || ini == nil || mod == nil || a == nil {
		return
	}
	own := map[*types.Var]bool{}
	for f, o := range p.ownerMap() {
		if o[:strings.LastIndex(o, ".")] == "hash.Consistent" {
			own[f] = true
		}
	}
	// selecting changes nothing and depends on the key and the hash only
	for g := range p.reach(find) {
		s.pure(g)
	}
	s.pure(find)
	// below the number of blocks
	h := &Hooks{Interesting: anyOf(callIs("hash.FastMod"), fieldUse(a))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == "hash.FastMod":
			c.Opaque()
			c.SetResult(c.E.pair("mod", stripConv(c.Args[1])))
			if len(c.Common.Args) > 0 {
				if cv, ok := c.Common.Args[0].(*ssa.Convert); !ok || !isBasicKind(cv.X.Type(), types.Uint32) {
					c.Report("c23:mod-arg", "a block is selected with more bits of the hash than the modulus is made for")
				}
			}
		case c.Callee != nil && p.inModule(c.Callee):
			c.Opaque()
			c.handled = true
		}
	}
	lenA := func(v *Val) bool { return isLenOf(func(x *Val) bool { return isFieldVal(x, a) })(v) }
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("selections", 1)
		v := stripConv(res[0])
		if v.op == OComp && v.aux == "pair:mod" {
			if m := stripConv(v.args[0]); lenA(m) || m.op == OLoad && m.args[0].op == OIAddr && isFieldVal(m.args[0].args[0], a) {
				return
			}
		}
		if v.op == OBin && v.aux == "%" && lenA(v.args[1]) {
			return
		}
		// the replacement of a removed block
		if v.op == OLoad && v.args[0].op == OIAddr && v.args[0].args[0].op == OLoad && own[v.args[0].args[0].args[0].fld] {
			return
		}
		if v.op == OFresh || v.op == OPhi || v.op == OStale {
			// after blocks were removed
			return
		}
		c.Report("c23:range", "the block selected for a key is not below the number of blocks")
	}
	r.Explore(h, find)
	r.Need("selections", 1)
	// the modulus
	h = &Hooks{NoPrune: true}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		v := stripConv(res[0])
		ok := false
		if v.op == OBin && v.aux == ">>" {
			n, isC := v.args[1].constInt()
			m := v.args[0]
			ok = isC && n == 32 && m.op == OBin && m.aux == "*" && m.args[0].op == OParam && m.args[1].op == OParam && m.args[0] != m.args[1]
		}
		if v.op == OBin && v.aux == "%" && v.args[1].op == OParam {
			ok = true
		}
		if !ok {
			c.Report("c23:modulus", "the modulus of a hash is not below the number of blocks")
		}
		r.Count("moduli", 1)
	}
	r.Explore(h, mod)
	// no block is removed from a hash in use
	s.each(func(fn *ssa.Function, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if ok && pkgOf(fn) != "hash" {
			if f := ci.Common().StaticCallee(); f != nil && pkgOf(f) == "hash" {
				if f.Signature.Recv() != nil && typeName(deref(f.Signature.Recv().Type())) == "Consistent" && f != find && s.writes(f) {
					r.Violate("c23:blocks-change:"+fname(fn), p.instrPos(in), "the blocks of a hash in use change: what was stored before is looked for in another shard")
				}
			}
		}
		// its fields are not changed from outside
		if st, ok := in.(*ssa.Store); ok && pkgOf(fn) != "hash" {
			x := st.Addr
			if ia, ok := x.(*ssa.IndexAddr); ok {
				if f := ssaField(ia.X); f != nil && own[f] {
					r.Violate("c23:blocks-change:"+fname(fn), p.instrPos(in), "the blocks of a hash are changed")
				}
			}
			if fa, ok := x.(*ssa.FieldAddr); ok && own[structOf(fa.X.Type()).Field(fa.Field)] {
				r.Violate("c23:blocks-change:"+fname(fn), p.instrPos(in), "the blocks of a hash are changed")
			}
		}
	})
	// a new hash has the number of blocks asked for
	h = &Hooks{Interesting: fieldUse(a)}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == a {
			c.St.Add("blocks", v)
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("new hashes", 1)
		for _, v := range c.St.Find("blocks") {
			if v.op == OMake && len(v.args) > 0 {
				if n := stripConv(v.args[0]); n.op == OParam && n.aux == fn.Params[0].Name() {
					return
				}
			}
		}
		c.Report("c23:new-blocks", "a new hash does not have the number of blocks asked for")
	}
	r.Explore(h, ini)
}

// writes: does the method change the hash.
func (s *shards) writes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.Alloc); !ok {
					return true
				}
			}
		}
	}
	return false
}

func (s *shards) pure(f *ssa.Function) {
	r := s.r
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					r.Violate("c23:select-writes:"+fname(f), r.P.instrPos(in), "selecting a shard changes the hash")
				}
			case *ssa.UnOp:
				if _, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
					r.Violate("c23:select-global:"+fname(f), r.P.instrPos(in), "the shard selected for a key depends on a package variable")
				}
			case ssa.CallInstruction:
				if f := x.Common().StaticCallee(); f == nil || !r.P.inModule(f) && pkgOf(f) != "math/bits" {
					if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
						r.Violate("c23:select-calls", r.P.instrPos(in), "the shard selected for a key depends on the outcome of %s", staticName(x.Common()))
					}
				}
			}
		}
	}
}

// keyed explores the functions that use the items of a shard, with the shard known by its key.
func (s *shards) keyed(items *types.Var, tbl *types.Var, extra *Hooks, check func(c *Ctx, shard, k *Val, write bool, v *Val)) {
	r := s.r
	p := r.P
	uses, selects := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	use := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return ssaField(x.X) == items
		case *ssa.MapUpdate:
			return ssaField(x.Map) == items
		}
		return isBuiltin("delete", func(ci ssa.CallInstruction) bool { return ssaField(ci.Common().Args[0]) == items })(in)
	}
	direct, takes := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	takes0 := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if use(in) {
					direct[f] = true
				}
				if ia, ok := in.(*ssa.IndexAddr); ok && ssaField(ia.X) == tbl {
					takes0[f] = true
				}
				if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci.Common()) == findBlock && s.retSelected(f) {
					takes0[f] = true
				}
			}
		}
	}
	for _, f := range p.funcs {
		fr := p.reach(f)
		for g := range direct {
			if g == f || fr[g] {
				uses[f] = true
			}
		}
		for g := range takes0 {
			if g == f || fr[g] {
				takes[f] = true
			}
		}
		if takes[f] && p.reachesCall(f, findBlock) {
			selects[f] = true
		}
	}
	var roots []*ssa.Function
	for f := range uses {
		if !selects[f] || pkgOf(f) != relPath(items.Pkg().Path()) {
			continue
		}
		inner := false
		for g := range p.reach(f) {
			inner = inner || g != f && uses[g] && selects[g]
		}
		if !inner {
			roots = append(roots, f)
		}
	}
	sortFns(roots)
	seen := map[ssa.Instruction]bool{}
	shardOf := func(v *Val) *Val {
		pr := findPair(v, "selected")
		if pr == nil {
			return nil
		}
		return pr.args[1]
	}
	h := &Hooks{Interesting: anyOf(use, callIs(findBlock), fieldUse(tbl))}
	if extra != nil {
		h.Assume = extra.Assume
		h.MaxDepth = extra.MaxDepth
		if extra.Interesting != nil {
			h.Interesting = anyOf(h.Interesting, extra.Interesting)
		}
	}
	h.Call = func(c *CallCtx) {
		if c.Name == findBlock {
			c.Opaque()
			c.SetResult(c.E.pair("selected", c.Args[0], stripConv(c.Args[1])))
		} else if c.Callee != nil && p.inModule(c.Callee) && !uses[c.Callee] && !takes[c.Callee] {
			c.Opaque()
			c.handled = true
		}
	}
	h.MapRead = func(c *Ctx, m, k *Val) {
		if isFieldVal(m, items) {
			seen[c.In] = true
			if sh := shardOf(m); sh != nil {
				check(c, sh, k, false, nil)
			}
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if isFieldVal(m, items) {
			seen[c.In] = true
			if sh := shardOf(m); sh != nil {
				check(c, sh, k, true, v)
			}
		}
	}
	r.Explore(h, roots...)
}

// windows: entries not yet synced.
func (s *shards) windows() {
	r := s.r
	entries := r.Field("unitdb", "_TimeWindow", "entries")
	tbl := r.Field("unitdb", "_WindowBlocks", "window")
	hash := r.Field("unitdb", "_Key", "topicHash")
	if entries == nil || tbl == nil || hash == nil {
		return
	}
	var ord order
	s.keyed(entries, tbl, &Hooks{Assume: ord.assume, Interesting: fieldUse(hash)}, func(c *Ctx, shard, k *Val, write bool, v *Val) {
		r.Count("window keys", 1)
		kh := stripConv(c.E.fieldOf(k, hash))
		if kh == shard || ord.has(c.St, "eq", isV(kh), isV(shard)) || ord.has(c.St, "eq", isV(shard), isV(kh)) {
			return
		}
		if isFieldVal(shard, hash) && fieldBase(shard) != nil && (fieldBase(shard) == k || k.op == OLoad && k.args[0] == fieldBase(shard)) {
			return
		}
		c.Report("c23:window-key", "window entries are stored, looked up or removed in a shard that is not the one of their topic")
	})
	r.Need("window keys", 1)
}

// offsets: what is known to be free.
func (s *shards) offsets() {
	r := s.r
	cache := r.Field("unitdb", "_FreeBlocks", "cache")
	tbl := r.Field("unitdb", "_Lease", "blocks")
	if cache == nil || tbl == nil {
		return
	}
	f := r.Fn("unitdb._Lease.freeBlock")
	if f == nil {
		return
	}
	s.keyed(cache, tbl, nil, func(c *Ctx, shard, k *Val, write bool, v *Val) {
		if !c.InFn(f) {
			return // an allocation takes space from any list
		}
		r.Count("free offsets", 1)
		if stripConv(k) != shard {
			c.Report("c23:free-key", "an offset is looked up in, or put on, a free list that is not its own")
		}
	})
	r.Need("free offsets", 1)
}
