package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = checkC18
}

type freeList struct {
	r                                   *Run
	fb, cache, boff, bsize, total, list *types.Var
	ord                                 order
	mine                                map[*ssa.Function]bool
}

func checkC18(r *Run) {
	r.Rule("a block is put on a free list only on a path on which the list was asked, under the same exclusive lock, whether the block is already free and it was not; it is then on the list with exactly the offset and size that were freed, known as free, and counted")
	r.Rule("an allocation returns the offset of the block its search found on the list; on the way the block was taken off the list, when its size is the one asked for, or shrunk at its front by exactly that size, is no longer known as free under the old offset, and the total went down by the size; otherwise nothing changed")
	r.Rule("merging: on every step a block that begins where the one before it ends adds its size to it and is forgotten, any other block is kept with its own offset and size; the list is replaced by what was kept")
	r.Rule("all lists are written, what is read is put on the lists, and the file is emptied and flushed once it was read; each list is changed only in freeing, allocating and merging, with its lock held exclusively")
	r.Rule("a deletion frees the region of an entry only after it was marked in the index as deleted and was not marked before; a rollback frees exactly the regions the sync had allocated; no other code frees")
	l := &freeList{r: r}
	l.fb = r.Field("unitdb", "_FreeBlocks", "fb")
	l.cache = r.Field("unitdb", "_FreeBlocks", "cache")
	l.boff = r.Field("unitdb", "_FreeBlock", "offset")
	l.bsize = r.Field("unitdb", "_FreeBlock", "size")
	l.total = r.Field("unitdb", "_Lease", "size")
	l.list = r.Field("unitdb", "_Lease", "blocks")
	if l.fb == nil || l.cache == nil || l.boff == nil || l.bsize == nil || l.total == nil || l.list == nil {
		return
	}
	free, alloc := r.Fn("unitdb._Lease.freeBlock"), r.Fn("unitdb._Lease.allocate")
	var merge *ssa.Function
	if merge = r.P.fn("unitdb._Lease.defrag"); merge == nil {
		merge = r.Fn("unitdb._FreeBlocks.defrag")
	}
	if free == nil || alloc == nil || merge == nil {
		return
	}
	l.freeing(free)
	l.allocating(alloc)
	l.merging(merge)
	l.others(free, alloc, merge)
	l.persisted()
	l.frees(free)
}

func (l *freeList) interesting() func(ssa.Instruction) bool {
	return anyOf(fieldUse(l.fb, l.cache, l.boff, l.bsize, l.total), callIs("sort.Search", "sort.Slice", "unitdb._Lease.freeBlocks", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock"),
		isBuiltin("copy", nil), isBuiltin("append", nil), isBuiltin("delete", nil), func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && atomicOp(staticName(ci.Common())) != ""
		})
}

// fresh: the list belongs to a value made in this function.
func (l *freeList) fresh(a *Val) bool { return addrRoot(a).op == OAlloc }

// locks handles the lock of a list; what was learned under it is forgotten when it is released.
func (l *freeList) locks(c *CallCtx, learned ...string) bool {
	switch c.Name {
	case "sync.RWMutex.Lock":
		c.Opaque()
		if a := c.Args[0]; a.op == OFAddr {
			c.St.Add("held", a.args[0])
		}
	case "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		c.Opaque()
		if a := c.Args[0]; a.op == OFAddr {
			c.St.DelV("held", a.args[0])
			for _, t := range learned {
				c.St.Del(t)
			}
		}
	case "sync.RWMutex.RLock":
		c.Opaque()
	default:
		return false
	}
	return true
}

// held: the list whose field (or an element of it) is at the address is locked exclusively.
func (l *freeList) held(c *Ctx, base *Val) bool {
	return c.St.HasV("held", base)
}

// listOf: the list that an address or a value belongs to.
func (l *freeList) listOf(v *Val) *Val {
	var res *Val
	v.contains(func(x *Val) bool {
		if x.op == OFAddr && (x.fld == l.fb || x.fld == l.cache) {
			res = x.args[0]
			return true
		}
		return false
	})
	return res
}

func (l *freeList) isParam(c *Ctx, v *Val, i int) bool {
	v = stripConv(v)
	p := c.root().fn.Params
	return v != nil && i < len(p) && v.op == OParam && v.aux == p[i].Name()
}

// freeing: freeBlock.
func (l *freeList) freeing(f *ssa.Function) {
	r := l.r
	h := &Hooks{Interesting: l.interesting()}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		m, k := cacheLookup(cond, l.cache)
		if m == nil {
			return
		}
		if truth {
			c.St.Add("is free", k)
		} else if c.St.HasV("asked", k) {
			c.St.Add("not free", k)
		}
	}
	h.MapRead = func(c *Ctx, m, k *Val) {
		if isFieldVal(m, l.cache) && l.held(c, l.listOf(m)) {
			c.St.Add("asked", k)
		}
	}
	h.Call = func(c *CallCtx) {
		switch {
		case l.locks(c, "not free", "is free", "asked"):
		case c.Name == "unitdb._Lease.freeBlocks":
			c.Opaque()
			c.SetResult(c.E.pair("list", c.Args[1]))
		case c.Name == "builtin.append":
			if !isFieldVal(c.Args[0], l.fb) || l.fresh(c.Args[0].args[0]) {
				return
			}
			for _, x := range c.varargs(c.Args[1]) {
				o, s := c.E.fieldOf(x, l.boff), c.E.fieldOf(x, l.bsize)
				if !l.isParam(c.Ctx, o, 1) || !l.isParam(c.Ctx, s, 2) {
					c.Report("c18:other", "another region than the one that was freed is put on the free list")
				}
				if c.St.Has("listed") {
					c.Report("c18:twice", "a region is put on the free list twice")
				}
				if !c.St.HasV("not free", o) && !hasConv(c.St, "not free", o) {
					c.Report("c18:unchecked", "a region is put on the free list without knowing, under the same lock, that it is not on it")
				}
				c.St.Add("listed", l.listOf(c.Args[0]))
			}
		case atomicOp(c.Name) != "" && isFAddr(c.Args[0], l.total):
			c.Opaque()
			if atomicOp(c.Name) == "Add" && l.isParam(c.Ctx, c.Args[1], 2) {
				c.St.Add("counted")
			} else if atomicOp(c.Name) != "Load" {
				c.Report("c18:count", "the total size of free blocks is not raised by the size that was freed")
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if isFAddr(addr, l.fb) && !l.fresh(addr) && v != nil {
			if !l.held(c, addr.args[0]) {
				c.Report("c18:lock", "a free list is changed without its exclusive lock")
			}
			c.St.Add("stored", addr.args[0])
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if !isFieldVal(m, l.cache) || l.fresh(m.args[0]) {
			return
		}
		if !l.held(c, l.listOf(m)) {
			c.Report("c18:lock", "what is known as free is changed without the exclusive lock of the list")
		}
		if b, ok := boolOf(v); ok && b && l.isParam(c, k, 1) {
			c.St.Add("known", l.listOf(m))
		} else {
			c.Report("c18:known", "another block than the one that was freed becomes known as free, or is forgotten")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("blocks freed", 1)
		done := []bool{c.St.Has("listed"), c.St.Has("stored"), c.St.Has("known"), c.St.Has("counted")}
		all, some := true, false
		for _, d := range done {
			all, some = all && d, some || d
		}
		if some && !all {
			c.Report("c18:half", "a block is freed only in part: on the list, known as free and counted must go together")
		}
		if !some && !c.St.Has("is free") && !c.St.Has("was free") {
			c.Report("c18:not-freed", "a block that is not free is not put on the free list")
		}
		ls, ss, ks := c.St.Find("listed"), c.St.Find("stored"), c.St.Find("known")
		if all && (ls[0] != ss[0] || ls[0] != ks[0]) {
			c.Report("c18:lists", "a block is put on one free list and known as free on another")
		}
	}
	// the lock is released before the exit is judged.
	assume := h.Assume
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		assume(c, cond, truth)
		if m, _ := cacheLookup(cond, l.cache); m != nil && truth {
			c.St.Add("was free")
		}
	}
	r.Explore(h, f)
	r.Need("blocks freed", 1)
}

func hasConv(st *State, tag string, v *Val) bool {
	for _, t := range st.Find(tag) {
		if stripConv(t) == stripConv(v) {
			return true
		}
	}
	return false
}

// cacheLookup: the condition asks the map of known free blocks.
func cacheLookup(cond *Val, cache *types.Var) (m, k *Val) {
	x := cond
	if x.op == OExt {
		x = x.args[0]
	}
	if x.op == OLookup && len(x.args) >= 2 && isFieldVal(x.args[0], cache) {
		return x.args[0], x.args[1]
	}
	return nil, nil
}

func boolOf(v *Val) (bool, bool) {
	if v == nil {
		return false, false
	}
	return v.boolConst()
}

// allocating: allocate.
func (l *freeList) allocating(f *ssa.Function) {
	r := l.r
	for g := range r.P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if callIs("sort.Search")(in) {
					mc, ok := in.(ssa.CallInstruction).Common().Args[1].(*ssa.MakeClosure)
					if !ok || !l.enough(mc.Fn.(*ssa.Function)) {
						r.Violate("c18:search", r.P.instrPos(in), "the search for a free block can find one that is smaller than what is asked for")
					}
				}
			}
		}
	}
	h := &Hooks{Interesting: l.interesting()}
	isOff := func(v *Val, i *Val) bool {
		v = stripConv(v)
		return v != nil && isFieldVal(v, l.boff) && v.contains(func(x *Val) bool { return x == i })
	}
	isSize := func(v *Val) bool { v = stripConv(v); return v != nil && isFieldVal(v, l.bsize) }
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		l.ord.assume(c, cond, truth)
		if cond.op != OBin {
			return
		}
		a, b := cond.args[0], cond.args[1]
		for k := 0; k < 2; k++ {
			if isSize(a) && l.isParam(c, b, 1) {
				switch {
				case cond.aux == "==" && truth:
					c.St.Add("exact")
				case cond.aux == "==":
					c.St.Add("bigger")
				case cond.aux == "<" && (k == 1) == truth: // size < block, or not block < size
					if truth {
						c.St.Add("bigger")
					}
					l.searched(c, a)
				case cond.aux == "<" && k == 1: // not bigger, and what was found is not smaller
					c.St.Add("exact")
				}
			}
			a, b = b, a
		}
	}
	h.Call = func(c *CallCtx) {
		switch {
		case l.locks(c, "found"):
		case c.Name == "unitdb._Lease.freeBlocks":
			c.Opaque()
			c.SetResult(c.E.pair("list", c.Args[1]))
		case c.Name == "sort.Search":
			c.Opaque()
			if !isLenOf(isF(l.fb))(c.Args[0]) {
				c.Report("c18:search-range", "the search for a free block does not cover the list")
			}
			n := c.E.pair("index found", c.Res)
			c.SetResult(n)
			c.St.Add("found", n)
			c.St.Add("was found", n)
		case c.Name == "builtin.copy":
			if len(c.Args) == 2 && l.tail(c.Args[0], 0) != nil && l.tail(c.Args[1], 1) == l.tail(c.Args[0], 0) {
				c.St.Add("shifted", l.tail(c.Args[0], 0))
			} else if l.listOf(c.Args[0]) != nil {
				c.Report("c18:shift", "the free list is changed in another way than by taking out the block that was found")
			}
		case c.Name == "builtin.append":
			a := c.Args
			if len(a) == 2 && a[0].op == OSlice && isFieldVal(a[0].args[0], l.fb) && a[0].args[2] != nil && (a[0].args[1] == nil || isInt(0)(a[0].args[1])) && l.tail(a[1], 1) == stripConv(a[0].args[2]) {
				c.St.Add("shifted", stripConv(a[0].args[2]))
				c.St.Add("cut")
			}
		case c.Name == "builtin.delete":
			if isFieldVal(c.Args[0], l.cache) {
				l.forget(c.Ctx, c.Args[0], c.Args[1], isOff)
			}
		case atomicOp(c.Name) != "" && isFAddr(c.Args[0], l.total):
			c.Opaque()
			switch atomicOp(c.Name) {
			case "Load":
			case "Add":
				if d := stripConv(c.Args[1]); negOf(d) != nil && l.isParam(c.Ctx, negOf(d), 1) {
					c.St.Add("counted")
					return
				}
				c.Report("c18:count", "the total size of free blocks is not lowered by the size that was allocated")
			default:
				c.Report("c18:count", "the total size of free blocks is not lowered by the size that was allocated")
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if v == nil {
			return
		}
		if isFAddr(addr, l.fb) {
			if !l.held(c, addr.args[0]) {
				c.Report("c18:lock", "a free list is changed without its exclusive lock")
			}
			sh := c.St.Find("shifted")
			ok := len(sh) > 0 && c.St.HasV("found", sh[0])
			if c.St.Has("cut") && v.op == OAppend {
				ok = ok && true
			} else {
				ok = ok && v.op == OSlice && isFieldVal(v.args[0], l.fb) && v.args[2] != nil && isLast(v.args[2], l.fb)
			}
			if !ok {
				c.Report("c18:removed", "the free list is changed in another way than by taking out the block that was found")
			}
			c.St.Add("removed")
			return
		}
		el := addr
		if el.op == OFAddr && (el.fld == l.boff || el.fld == l.bsize) {
			el = el.args[0]
		}
		if el.op != OIAddr || l.listOf(el) == nil {
			return
		}
		if !l.held(c, l.listOf(el)) {
			c.Report("c18:lock", "a free block is changed without the exclusive lock of its list")
		}
		i := stripConv(el.args[1])
		switch {
		case addr.op == OFAddr && addr.fld == l.boff:
			if !c.St.HasV("found", i) || !sumOf(v, func(x *Val) bool { return isOff(x, i) }, func(x *Val) bool { return l.isParam(c, x, 1) }, false) {
				c.Report("c18:shrunk", "a free block does not begin where the allocated region ends")
			}
			c.St.Add("moved")
		case addr.op == OFAddr && addr.fld == l.bsize:
			if !c.St.HasV("found", i) || !sumOf(v, isSize, func(x *Val) bool { return l.isParam(c, x, 1) }, true) {
				c.Report("c18:shrunk", "a free block is not smaller by exactly the allocated size")
			}
			c.St.Add("shrunk")
		case c.St.HasV("found", i):
			o, s := c.E.fieldOf(v, l.boff), c.E.fieldOf(v, l.bsize)
			if !sumOf(o, func(x *Val) bool { return isOff(x, i) }, func(x *Val) bool { return l.isParam(c, x, 1) }, false) || !sumOf(s, isSize, func(x *Val) bool { return l.isParam(c, x, 1) }, true) {
				if !v.contains(func(x *Val) bool { return x.op == OIAddr && isLast(x.args[1], l.fb) }) {
					c.Report("c18:shrunk", "a free block is replaced by something else than the rest of it")
				} else {
					c.St.Add("shifted", i) // the last one takes its place
				}
			} else {
				c.St.Add("moved")
				c.St.Add("shrunk")
			}
		case isLast(i, l.fb) && v.op == OZero:
		case c.St.Has("shifted") && isZeroBlock(c, v, l):
		default:
			c.Report("c18:changed", "another block of the free list than the one that was found is changed")
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if !isFieldVal(m, l.cache) || v == nil {
			if v == nil && isFieldVal(m, l.cache) {
				l.forget(c, m, k, isOff)
			}
			return
		}
		if !l.held(c, l.listOf(m)) {
			c.Report("c18:lock", "what is known as free is changed without the exclusive lock of the list")
		}
		if b, ok := boolOf(v); !ok || !b || !sumOf(k, func(x *Val) bool { return isFieldVal(x, l.boff) }, func(x *Val) bool { return l.isParam(c, x, 1) }, false) {
			c.Report("c18:known", "another block than the rest of the allocated one becomes known as free, or is forgotten")
		}
		c.St.Add("rest known")
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		removed, shrunk := c.St.Has("removed"), c.St.Has("moved") || c.St.Has("shrunk")
		if n, ok := res[0].constInt(); ok && n < 0 {
			r.Count("allocations refused", 1)
			if removed || shrunk || c.St.Has("counted") || c.St.Has("forgotten") {
				c.Report("c18:refused", "an allocation changes the free list although it returns no block")
			}
			return
		}
		r.Count("allocations", 1)
		ret := stripConv(res[0])
		if !isFieldVal(ret, l.boff) || !ret.contains(func(x *Val) bool { return x.aux == "pair:index found" || x.op == OPhi }) {
			c.Report("c18:returned", "an allocation returns something else than the offset of the block that was found")
		}
		switch {
		case removed == shrunk:
			c.Report("c18:not-taken", "an allocated region stays on the free list, or is taken off it twice")
		case removed && !c.St.Has("exact"):
			c.Report("c18:too-much", "a block is taken off the free list that is not known to have the allocated size")
		case shrunk && (!c.St.Has("moved") || !c.St.Has("shrunk") || !c.St.Has("rest known")):
			c.Report("c18:half-shrunk", "the rest of an allocated block keeps its old offset or size, or is not known as free")
		case shrunk && !c.St.Has("bigger"):
			c.Report("c18:empty-rest", "a block can be shrunk that is not known to be bigger than the allocated size")
		}
		if !c.St.Has("forgotten") {
			c.Report("c18:not-forgotten", "an allocated region is still known as free")
		}
		if !c.St.Has("counted") {
			c.Report("c18:not-counted", "the total size of free blocks is not lowered by an allocation")
		}
		inRange := func(v *Val) bool { return c.St.HasV("was found", v) }
		if !l.ord.has(c.St, "lt", inRange, isLenOf(isF(l.fb))) {
			c.Report("c18:range", "an allocation takes a block without knowing that one was found")
		}
	}
	r.Explore(h, f)
	r.Need("allocations", 1)
}

// searched: the block is known to be big enough, its index is one that was found.
func (l *freeList) searched(c *Ctx, size *Val) {
	size.contains(func(x *Val) bool {
		if x.op == OIAddr && l.listOf(x) != nil {
			c.St.Add("found", stripConv(x.args[1]))
			c.St.Add("was found", stripConv(x.args[1]))
		}
		return false
	})
}

// enough: the predicate of the search holds for blocks of at least the size.
func (l *freeList) enough(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		op, ok := ret.Results[0].(*ssa.BinOp)
		if !ok {
			return false
		}
		x, y := stripSSA(op.X), stripSSA(op.Y)
		switch op.Op {
		case token.GEQ:
		case token.LEQ:
			x, y = y, x
		default:
			return false
		}
		ld, ok := y.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		if _, ok := ld.X.(*ssa.FreeVar); !ok || ssaField(x) != l.bsize {
			return false
		}
	}
	return true
}

func (l *freeList) forget(c *Ctx, m, k *Val, isOff func(v, i *Val) bool) {
	if !l.held(c, l.listOf(m)) {
		c.Report("c18:lock", "what is known as free is changed without the exclusive lock of the list")
	}
	ok := false
	for _, i := range c.St.Find("found") {
		ok = ok || isOff(k, i)
	}
	if !ok {
		c.Report("c18:forgets-other", "another block than the one that is allocated is forgotten")
	}
	c.St.Add("forgotten")
}

// tail: v is fb[i+d:]; the i.
func (l *freeList) tail(v *Val, d int64) *Val {
	if v.op != OSlice || v.args[1] == nil || v.args[2] != nil || !isFieldVal(v.args[0], l.fb) {
		return nil
	}
	lo := stripConv(v.args[1])
	if d == 0 {
		return lo
	}
	if lo.op == OBin && lo.aux == "+" {
		if isInt(d)(lo.args[1]) {
			return stripConv(lo.args[0])
		}
		if isInt(d)(lo.args[0]) {
			return stripConv(lo.args[1])
		}
	}
	return nil
}

// isLast: v is len(fb)-1.
func isLast(v *Val, fb *types.Var) bool {
	v = stripConv(v)
	if v == nil || v.op != OBin || len(v.args) != 2 {
		return false
	}
	return isLenOf(isF(fb))(v.args[0]) && (v.aux == "-" && isInt(1)(v.args[1]) || v.aux == "+" && isInt(-1)(v.args[1])) || isLenOf(isF(fb))(v.args[1]) && v.aux == "+" && isInt(-1)(v.args[0])
}

func isZeroBlock(c *Ctx, v *Val, l *freeList) bool {
	o, s := c.E.fieldOf(v, l.boff), c.E.fieldOf(v, l.bsize)
	z := func(x *Val) bool { return x.op == OZero || isInt(0)(x) }
	return z(o) && z(s)
}

// negOf: v is -x; the x.
func negOf(v *Val) *Val {
	if v == nil {
		return nil
	}
	if v.op == ONeg {
		return stripConv(v.args[0])
	}
	if v.op == OBin && v.aux == "-" && isInt(0)(v.args[0]) {
		return stripConv(v.args[1])
	}
	return nil
}

// sumOf: v is a+b (or a-b).
func sumOf(v *Val, a, b func(*Val) bool, minus bool) bool {
	v = stripConv(v)
	if v == nil || v.op != OBin || len(v.args) != 2 {
		return false
	}
	x, y := stripConv(v.args[0]), stripConv(v.args[1])
	if minus {
		return v.aux == "-" && a(x) && b(y)
	}
	return v.aux == "+" && (a(x) && b(y) || a(y) && b(x))
}

// merging: defrag.
func (l *freeList) merging(f *ssa.Function) {
	r := l.r
	cmps := map[*ssa.Function]bool{}
	h := &Hooks{Interesting: l.interesting()}
	isOff := func(v *Val) bool { v = stripConv(v); return v != nil && isFieldVal(v, l.boff) }
	isSize := func(v *Val) bool { v = stripConv(v); return v != nil && isFieldVal(v, l.bsize) }
	moving := func(v *Val) bool { return v.op == OPhi || v.op == OFresh && strings.HasPrefix(v.aux, "widen@") }
	offLike := func(v *Val) bool { return isOff(v) || moving(stripConv(v)) }
	var sizeLike func(v *Val) bool
	sizeLike = func(v *Val) bool {
		v = stripConv(v)
		return isSize(v) || moving(v) || v.op == OBin && v.aux == "+" && sizeLike(v.args[0]) && sizeLike(v.args[1])
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "<" && !truth && c.St.Has("merging") {
			c.St.Del("bound")
			c.St.Add("bound", stripConv(cond.args[1]))
		}
		if cond.op != OBin || cond.aux != "==" {
			return
		}
		for k := 0; k < 2; k++ {
			if s := stripConv(cond.args[k]); isOff(cond.args[1-k]) && s.op == OBin && s.aux == "+" && (offLike(s.args[0]) && sizeLike(s.args[1]) || offLike(s.args[1]) && sizeLike(s.args[0])) {
				c.St.Del("adjacent")
				c.St.Del("apart")
				x, y := stripConv(s.args[0]), stripConv(s.args[1])
				if isSize(x) || isOff(y) || !isOff(x) && !isSize(y) && types.Identical(typOr(x), l.bsize.Type()) {
					x, y = y, x
				}
				c.St.Del("end of")
				c.St.Add("end of", c.E.pair("end", x, y))
				if truth {
					c.St.Add("adjacent", stripConv(cond.args[1-k]))
				} else {
					c.St.Add("apart", stripConv(cond.args[1-k]))
				}
			}
		}
	}
	h.Call = func(c *CallCtx) {
		switch {
		case l.locks(c):
		case c.Name == "sort.Slice":
			c.Opaque()
			if !c.St.Has("merging") && c.Args[0].contains(isF(l.fb)) {
				c.St.Add("sorted")
				if mc, ok := stripSSA(c.Common.Args[1]).(*ssa.MakeClosure); ok {
					cmps[mc.Fn.(*ssa.Function)] = true
				}
			}
		case c.Name == "builtin.append":
			x := c.varargs(c.Args[len(c.Args)-1])
			if len(x) != 1 || typeName(typOr(x[0])) != "_FreeBlock" && typeName(elemOf(c.Common.Args[0].Type())) != "_FreeBlock" {
				return
			}
			o, s := c.E.fieldOf(x[0], l.boff), c.E.fieldOf(x[0], l.bsize)
			if !offLike(o) || !sizeLike(s) {
				c.Report("c18:merged-block", "a merged block does not have the offset and size that were collected")
			}
			c.St.Add("kept")
			c.St.Add("kept last")
		case c.Name == "builtin.delete":
			if isFieldVal(c.Args[0], l.cache) {
				l.mergeForget(c.Ctx, c.Args[0], c.Args[1])
			}
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if isFieldVal(m, l.cache) && v == nil {
			l.mergeForget(c, m, k)
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		switch {
		case isFAddr(addr, l.fb) && v != nil:
			if !l.held(c, addr.args[0]) && c.root().fn == f && !l.receiverList(c, addr) {
				c.Report("c18:lock", "a free list is changed without its exclusive lock")
			}
			c.St.Add("replaced")
			if !c.St.Has("merging") || isFieldVal(v, l.fb) {
				c.Report("c18:merge-replaced", "a free list is replaced by something else than its merged blocks")
			}
			if !c.St.Has("kept last") {
				c.Report("c18:merge-last", "the last block is lost when free blocks are merged")
			}
		case addr.op == OFAddr && addr.fld == l.bsize && v != nil:
			if sumOf(v, isSize, isSize, false) {
				c.St.Add("grown")
			}
		}
	}
	isLoop := func(lp *loop, fn *ssa.Function) bool {
		return loopHas(lp, fieldUse(l.boff)) && loopHas(lp, fieldUse(l.bsize))
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("merging") && !c.St.Has("replaced") {
			c.Report("c18:merge-dropped", "free blocks are forgotten because they were merged, but the list is not replaced by the merged blocks")
		}
	}
	reset := func(c *Ctx) {
		for _, t := range []string{"adjacent", "apart", "kept", "grown", "forgot", "end of"} {
			c.St.Del(t)
		}
	}
	h.LoopEnter = func(c *Ctx, lp *loop, fn *ssa.Function) {
		if isLoop(lp, fn) {
			if !c.St.Has("sorted") {
				c.Report("c18:merge-unsorted", "free blocks are merged without being sorted")
			}
			c.St.Add("merging")
			reset(c)
		}
	}
	h.Back = func(c *Ctx, lp *loop, fn *ssa.Function) {
		if !isLoop(lp, fn) {
			return
		}
		r.Count("merge steps", 1)
		adj, apart := c.St.Find("adjacent"), c.St.Has("apart")
		grown := c.St.Has("grown")
		same, taken := true, true
		offCell, sizeCell := l.cells(lp)
		for _, e := range c.St.Find("end of") {
			o, z := e.args[0], e.args[1]
			no, nz := o, z
			if offCell != nil {
				no = stripConv(offCell(c))
			}
			if sizeCell != nil {
				nz = stripConv(sizeCell(c))
			}
			grown = grown || sumOf(nz, func(x *Val) bool { return x == z }, isSize, false)
			same = same && no == o
			taken = taken && isSize(nz) && nz != z && isOff(no) && no != o
		}
		switch {
		case len(adj) > 0:
			if !grown || !same || c.St.Has("kept") {
				c.Report("c18:merge-size", "a block that begins where the one before it ends does not add its size to it, or stays on the list")
			}
			if !c.St.HasV("forgot", adj[0]) {
				c.Report("c18:merge-known", "a block that was merged into another one is still known as free")
			}
		case apart:
			if !c.St.Has("kept") || !taken {
				c.Report("c18:merge-lost", "a block that does not touch the one before it can be lost when free blocks are merged")
			}
			if c.St.Has("forgot") {
				c.Report("c18:merge-forgot", "a block that stays on the list is no longer known as free")
			}
			if grown {
				c.Report("c18:merge-grown", "blocks that do not touch each other are merged")
			}
		default:
			c.Report("c18:merge-any", "free blocks are merged without knowing whether they touch")
		}
		reset(c)
		c.St.Del("kept last")
	}
	h.LoopExit = func(c *Ctx, lp *loop, fn *ssa.Function) {
		if isLoop(lp, fn) && (c.In.Block() != lp.head || !l.toTheEnd(c)) {
			c.Report("c18:merge-stops", "merging free blocks can end before the last one")
		}
	}
	if f.Name() == "defrag" && typeName(deref(f.Params[0].Type())) == "_Lease" {
		h.MaxDepth = 4
	}
	r.Explore(h, f)
	r.Need("merge steps", 1)
	for cmp := range cmps {
		r.ordering(cmp, false, "c18:merge-order", "free blocks are merged in another order than that of their offsets", l.boff)
	}
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Invalid]
}

// toTheEnd: the loop ended because the index reached the number of blocks.
func (l *freeList) toTheEnd(c *Ctx) bool {
	for _, b := range c.St.Find("bound") {
		
		if isLenOf(isF(l.fb))(b) {
			return true
		}
		if b.op == OLen && b.args[0].op == OSlice { // fb[1:]
			s := b.args[0]
			if isFieldVal(s.args[0], l.fb) && (s.args[1] == nil || isInt(0)(s.args[1]) || isInt(1)(s.args[1])) && (s.args[2] == nil || isLenOf(isF(l.fb))(s.args[2])) {
				return true
			}
		}
	}
	return false
}

// cells: where the offset and the size of the block that was collected so far are kept from one step to the next.
func (l *freeList) cells(lp *loop) (off, size func(c *Ctx) *Val) {
	cell := func(v ssa.Value) func(c *Ctx) *Val {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == lp.head {
				return func(c *Ctx) *Val { return c.phiFrom(x) }
			}
		case *ssa.UnOp:
			if root := stripAddr(x.X); x.Op == token.MUL && root != nil {
				return func(c *Ctx) *Val { return c.E.load(c.St, c.addrIn(x.X), x.Type()) }
			}
		}
		return nil
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			cmp, ok := in.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
				continue
			}
			for _, side := range []ssa.Value{cmp.X, cmp.Y} {
				sum, ok := stripConvSSA(side).(*ssa.BinOp)
				if !ok || sum.Op != token.ADD {
					continue
				}
				for _, v := range []ssa.Value{sum.X, sum.Y} {
					w := stripConvSSA(v)
					switch {
					case types.Identical(w.Type(), l.boff.Type()):
						off = cell(w)
					case types.Identical(w.Type(), l.bsize.Type()):
						size = cell(w)
					}
				}
			}
		}
	}
	return off, size
}

// addrIn: the address of a field of a local variable.
func (c *Ctx) addrIn(v ssa.Value) *Val {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return c.E.faddr(c.addrIn(fa.X), faField(fa))
	}
	return c.E.eval(c.fr, v)
}

// stripAddr: the local variable an address is in.
func stripAddr(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

func stripConvSSA(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// receiverList: the list is the receiver, its caller holds the lock (see C20).
func (l *freeList) receiverList(c *Ctx, addr *Val) bool {
	return addr.args[0] == c.recv()
}

func (l *freeList) mergeForget(c *Ctx, m, k *Val) {
	if !isFieldVal(stripConv(k), l.boff) {
		c.Report("c18:merge-forgets-other", "merging forgets something else than a block of the list")
		return
	}
	c.St.Add("forgot", stripConv(k))
}

// others: nothing else changes the lists.
func (l *freeList) others(known ...*ssa.Function) {
	r, p := l.r, l.r.P
	ok := p.reach(known...)
	for _, f := range known {
		ok[f] = true
	}
	for _, f := range p.funcs {
		if pkgOf(f) != "unitdb" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var base ssa.Value
				what := ""
				switch x := in.(type) {
				case *ssa.Store:
					if fa, k := x.Addr.(*ssa.FieldAddr); k && (faField(fa) == l.fb || faField(fa) == l.cache) {
						base, what = fa.X, "a free list"
					}
				case *ssa.MapUpdate:
					if ssaField(x.Map) == l.cache {
						base, what = l.baseOf(x.Map), "what is known as free"
					}
				}
				if base == nil {
					continue
				}
				r.Count("changes of free lists", 1)
				if _, fresh := stripSSA(base).(*ssa.Alloc); fresh || ok[f] {
					continue
				}
				if f.Name() == "UnmarshalBinary" && l.freshReceiver(f) {
					continue
				}
				r.Violate("c18:changed-elsewhere", p.instrPos(in), "%s is changed in %s, which neither frees, allocates nor merges blocks", what, fname(f))
			}
		}
	}
	r.Need("changes of free lists", 1)
}

func (l *freeList) baseOf(m ssa.Value) ssa.Value {
	if u, ok := stripSSA(m).(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	}
	return nil
}

// freshReceiver: every call decodes into a new list.
func (l *freeList) freshReceiver(f *ssa.Function) bool {
	for _, ci := range l.r.P.callSites(map[*ssa.Function]bool{f: true}) {
		_ = ci
	}
	n := 0
	for _, g := range l.r.P.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				n++
				if _, ok := stripSSA(ci.Common().Args[0]).(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return n > 0
}

// persisted: reading and writing the lists.
func (l *freeList) persisted() {
	r := l.r
	free := "unitdb._Lease.freeBlock"
	dec := "unitdb._FreeBlocks.UnmarshalBinary"
	trunc, flush := "unitdb._FileSet.Truncate", "unitdb._FileSet.Sync"
	_ = flush
	if f := r.Fn("unitdb._Lease.read"); f != nil {
		h := &Hooks{Interesting: anyOf(callIs(free, dec), fieldUse(l.fb, l.boff, l.bsize), fileCalls("ReadAt", "Truncate", "Sync", "WriteAt"))}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == free:
				c.Opaque()
				o, s := stripConv(c.Args[1]), stripConv(c.Args[2])
				if isFieldVal(o, l.boff) && isFieldVal(s, l.bsize) {
					c.St.Add("listed")
				} else {
					c.Report("c18:read-other", "another block than the one that was read is put on the free lists")
				}
			case c.Name == dec:
				c.Opaque()
				c.St.Add("decoded")
				c.E.store(c.St, c.E.faddr(c.Args[0], l.fb), c.E.pair("blocks read", c.Res))
				if c.ErrRes() != nil {
					c.ForkErr(nil, nil)
				}
			case isFileOp(c, "ReadAt"):
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("read") }, func(s *State) { s.Add("unread") })
			case isFileOp(c, "Truncate"):
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("emptied") }, nil)
			case isFileOp(c, "Sync"):
				c.Opaque()
				c.ForkErr(func(s *State) {
					if s.Has("emptied") {
						s.Add("flushed")
					}
				}, nil)
			}
		}
		isLoop := func(lp *loop, fn *ssa.Function) bool { return loopHas(lp, callIs(free)) }
		h.LoopEnter = func(c *Ctx, lp *loop, fn *ssa.Function) {
			if isLoop(lp, fn) {
				c.St.Add("listing")
				if !rangesField(lp, l.fb) {
					c.Report("c18:read-range", "the free lists are not filled with what was read")
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.mayBeSuccess(fn, res) {
				return
			}
			r.Count("free lists read", 1)
			if !c.St.Has("decoded") {
				if c.St.Has("unread") {
					return // there is nothing to read
				}
				c.Report("c18:not-read", "opening can succeed without reading the free blocks")
				return
			}
			if !c.St.Has("listing") {
				c.Report("c18:not-listed", "opening can succeed without putting the blocks that were read on the free lists")
			}
			if !c.St.Has("emptied") || !c.St.Has("flushed") {
				c.Report("c18:stale", "the written free blocks are still there after they were read: after a crash they would be free again")
			}
		}
		r.eachHooks(h, &each{name: "free blocks read", key: "c18:read-skipped", what: "a free block that was read can be left out", is: isLoop, done: []string{"listed"}})
		r.Explore(h, f)
		r.Need("free lists read", 1)
		r.Need("free blocks read", 1)
	}
	_ = trunc
	if f := r.Fn("unitdb._Lease.write"); f != nil {
		h := &Hooks{Interesting: anyOf(callIs("unitdb._FreeBlocks.MarshalBinary"), fieldUse(l.fb, l.list), fileCalls("WriteAt", "Truncate"), isBuiltin("append", nil))}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "unitdb._FreeBlocks.MarshalBinary":
				c.Opaque()
				if c.St.Has("collecting") && isAllocBase(c.Args[0]) {
					c.St.Add("encoded", c.Res)
				}
			case c.Name == "builtin.append":
				if len(c.Args) == 2 && isFieldVal(c.Args[1], l.fb) {
					c.St.Add("collected")
				}
			case isFileOp(c, "Truncate"):
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("emptied") }, nil)
			case isFileOp(c, "WriteAt"):
				c.Opaque()
				d, o := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
				c.ForkErr(func(s *State) {
					if s.HasV("encoded", d) && isInt(0)(o) {
						s.Add("written")
					}
				}, nil)
			}
		}
		isLoop := func(lp *loop, fn *ssa.Function) bool {
			return loopHas(lp, fieldUse(l.fb)) && loopHas(lp, isBuiltin("append", nil))
		}
		h.LoopEnter = func(c *Ctx, lp *loop, fn *ssa.Function) {
			if isLoop(lp, fn) {
				c.St.Add("collecting")
				if !rangesField(lp, l.list) && !countsTo(lp, "nShards", r) {
					c.Report("c18:write-range", "not all free lists are written")
				}
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op == OBin && cond.aux == "==" && truth && (isLenOf(isF(l.list))(cond.args[0]) || isLenOf(isF(l.list))(cond.args[1])) {
				c.St.Add("no lists")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.mayBeSuccess(fn, res) || c.St.Has("no lists") {
				return
			}
			r.Count("free lists written", 1)
			if !c.St.Has("collecting") || !c.St.Has("written") {
				c.Report("c18:not-written", "closing can succeed without writing the free lists")
			}
			if !c.St.Has("emptied") {
				c.Report("c18:not-emptied", "the free lists are written over those written before without removing them")
			}
		}
		r.eachHooks(h, &each{name: "free lists collected", key: "c18:write-skipped", what: "a free list can be left out when the free lists are written", is: isLoop, done: []string{"collected"}})
		r.Explore(h, f)
		r.Need("free lists written", 1)
		r.Need("free lists collected", 1)
	}
}

func isAllocBase(v *Val) bool { return addrRoot(stripConv(v)).op == OAlloc }

// countsTo: a counting loop that goes from 0 in steps of 1 up to the constant.
func countsTo(lp *loop, name string, r *Run) bool {
	want, ok := r.P.pkgConst("unitdb", name)
	if !ok {
		return false
	}
	iff, ok := lp.head.Instrs[len(lp.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok || op.Op != token.LSS {
		return false
	}
	n, ok := constOfSSA(op.Y)
	ph, isPhi := op.X.(*ssa.Phi)
	if !ok || n != want || !isPhi {
		return false
	}
	for i, e := range ph.Edges {
		if lp.blocks[ph.Block().Preds[i]] {
			inc, ok := e.(*ssa.BinOp)
			if !ok || inc.Op != token.ADD || inc.X != ssa.Value(ph) {
				return false
			}
			if k, ok := constOfSSA(inc.Y); !ok || k != 1 {
				return false
			}
		} else if k, ok := constOfSSA(e); !ok || k != 0 {
			return false
		}
	}
	return true
}

// fileCalls: calls of the named methods on files (also through embedded ones).
func fileCalls(names ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := staticName(ci.Common())
		for _, m := range names {
			if fileOpName(n, m) {
				return true
			}
		}
		return false
	}
}

func fileOpName(n, m string) bool {
	switch n {
	case "os.File." + m, "unitdb._File." + m, "unitdb._FileSet." + m:
		return true
	}
	return false
}

func isFileOp(c *CallCtx, m string) bool { return fileOpName(c.Name, m) }

// frees: who gives regions back.
func (l *freeList) frees(free *ssa.Function) {
	r, p := l.r, l.r.P
	name := "unitdb._Lease.freeBlock"
	leases := r.Field("unitdb", "_BlockWriter", "dataLeases")
	moff := r.Field("unitdb", "_IndexEntry", "msgOffset")
	eseq := r.Field("unitdb", "_IndexEntry", "seq")
	tsize := r.Field("unitdb", "_IndexEntry", "topicSize")
	del := r.Fn("unitdb.DB.delete")
	wdel := r.Fn("unitdb._BlockWriter.del")
	back := r.Fn("unitdb._BlockWriter.rollback")
	read := r.Fn("unitdb._Lease.read")
	if leases == nil || moff == nil || eseq == nil || tsize == nil || del == nil || wdel == nil || back == nil || read == nil {
		return
	}
	isFree := callIs(name)
	allowed := p.reach(del, back, read)
	allowed[del], allowed[back], allowed[read] = true, true, true
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !isFree(in) {
					continue
				}
				r.Count("calls that free", 1)
				r.sites[in] = true
				if f.Name() == "free" && len(p.callers(f)) == 0 {
					continue // nobody calls it
				}
				if !allowed[f] {
					r.Violate("c18:frees-elsewhere", p.instrPos(in), "%s frees a region that is neither that of a deleted entry nor one a failed sync had allocated", fname(f))
				}
			}
		}
	}
	r.Need("calls that free", 1)
	// a deletion
	var ord order
	h := &Hooks{Interesting: anyOf(callIs(name, "unitdb._BlockWriter.del", "unitdb._IndexEntry.mSize", "unitdb._BlockReader.readIndexBlock", "unitdb._Entry.mSize"), fieldUse(moff, eseq, tsize))}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.contains(isF(eseq)) {
			ord.assume(c, cond, truth)
		}
		if cond.op == OBin && cond.contains(isF(tsize)) {
			zero := cond.aux == "==" && truth && (isInt(0)(cond.args[0]) || isInt(0)(cond.args[1])) ||
				cond.aux == "<" && !truth && isInt(0)(cond.args[0]) || cond.aux == "<" && truth && isInt(1)(cond.args[1])
			if zero {
				c.St.Add("no topic")
			}
		}
	}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == wdel:
			c.Opaque()
			res := c.E.ext(c.Res, 0, c.Sig.Results().At(0).Type())
			er := c.ErrRes()
			c.Fork(func(s *State) { c.E.setFact(s, er, c.E.vNil); s.Add("deleted", res) })
			c.Fork(func(s *State) { c.E.setFact(s, er, c.E.vNonNil) })
		case c.Name == "unitdb._IndexEntry.mSize":
			c.Opaque()
			c.SetResult(c.E.pair("size of", c.Args[0]))
		case c.Callee == free:
			c.Opaque()
			r.Count("regions freed", 1)
			o, s := stripConv(c.Args[1]), stripConv(c.Args[2])
			var d *Val
			for _, x := range c.St.Find("deleted") {
				if o.op == OField && o.fld == moff && o.args[0] == x {
					d = x
				}
			}
			if d == nil {
				c.Report("c18:free-other", "a deletion frees a region that is not the one of the entry it has just marked as deleted")
			} else if s.aux != "pair:size of" || !s.contains(func(x *Val) bool { return x == d }) {
				c.Report("c18:free-size", "a deletion frees another size than that of the entry")
			}
			if d != nil && !ord.nonzero(c.St, c.E.fieldOf(d, eseq)) {
				c.Report("c18:free-none", "a deletion frees a region although there was no entry to delete")
			}
			if !c.St.Has("no topic") {
				c.Report("c18:free-topic", "a deletion frees a region that can hold the topic of other entries")
			}
			if c.St.Has("freed") {
				c.Report("c18:free-twice", "a deletion frees the region of its entry twice")
			}
			c.St.Add("freed")
		case c.Callee != nil && pkgOf(c.Callee) != "" && c.ErrRes() != nil && c.Callee.Parent() == nil && !p.reach(c.Callee)[free] && c.Callee != free:
			c.Opaque()
			c.ForkErr(nil, nil)
		}
	}
	r.Explore(h, del)
	r.Need("regions freed", 1)
	// marking
	const marked = "unitdb._IndexEntry.isDeleted"
	h = &Hooks{Interesting: anyOf(callIs(marked, "unitdb._BlockReader.readIndexBlock", "unitdb._IndexBlock.marshalBinary"), fieldUse(moff), fileCalls("WriteAt", "currSize"))}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "<" && cond.contains(isF(moff)) {
			if !truth && isInt(0)(cond.args[1]) || truth && isInt(-1)(cond.args[0]) {
				c.St.Add("not deleted")
			}
		}
	}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == marked:
			c.Opaque()
			res := c.Res
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(true)) })
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(false)); s.Add("not deleted") })
		case c.Name == "unitdb._BlockReader.readIndexBlock":
			c.Opaque()
			c.ForkErr(nil, nil)
		case isFileOp(c, "WriteAt"):
			c.Opaque()
			c.ForkErr(func(s *State) {
				if s.Has("marked") {
					s.Add("mark written")
				}
			}, nil)
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if isFAddr(addr, moff) && v != nil {
			v = stripConv(v)
			if v.op == ONeg && v.contains(isF(moff)) {
				c.St.Add("marked")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.mayBeSuccess(fn, res) {
			return
		}
		r.Count("entries marked", 1)
		x := c.E.fieldOf(res[0], moff)
		if x.op == OZero || isInt(0)(x) {
			if c.St.Has("marked") {
				c.Report("c18:marked-none", "an entry is marked as deleted but not returned, its region is lost")
			}
			return
		}
		if x.contains(func(v *Val) bool { return v.op == ONeg }) {
			c.Report("c18:marked-offset", "the region of a deleted entry is that of its marked offset")
		}
		if !c.St.Has("not deleted") {
			c.Report("c18:deleted-again", "an entry that is already deleted can be deleted again, which frees its region twice")
		}
		if !c.St.Has("mark written") {
			c.Report("c18:not-marked", "an entry can be deleted without being marked in the index")
		}
	}
	r.Explore(h, wdel)
	r.Need("entries marked", 1)
	// a rollback
	h = &Hooks{Interesting: anyOf(callIs(name), fieldUse(leases))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == free:
			c.Opaque()
			r.Count("leases given back", 1)
			k, v := stripConv(c.Args[1]), stripConv(c.Args[2])
			if !(nextOf(k) != nil && nextOf(k) == nextOf(v) && k != v) && !v.contains(func(x *Val) bool { return x.op == OLookup && x.args[1] == k }) {
				c.Report("c18:lease-other", "a rollback frees another region than the one that was allocated")
			}
		case isFileOp(c, "WriteAt"):
			c.Opaque()
			c.ForkErr(nil, nil)
		}
	}
	h.LoopEnter = func(c *Ctx, lp *loop, fn *ssa.Function) {
		if loopHas(lp, isFree) && !rangesField(lp, leases) {
			c.Report("c18:lease-range", "a rollback frees something else than what the sync had allocated")
		}
	}
	r.Explore(h, back)
	r.Need("leases given back", 1)
	// what a sync has allocated is forgotten once it is used.
	for _, n := range []string{"unitdb._BlockWriter.reset"} {
		f := r.Fn(n)
		if f == nil {
			continue
		}
		h := &Hooks{Interesting: fieldUse(leases)}
		h.Store = func(c *Ctx, addr, v *Val) {
			if isFAddr(addr, leases) && v != nil && v.op == OMake {
				c.St.Add("cleared")
			}
		}
		h.LoopEnter = func(c *Ctx, lp *loop, fn *ssa.Function) {
			if rangesField(lp, leases) && loopDeletes(lp, leases) {
				c.St.Add("cleared")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("leases cleared", 1)
			if !c.St.Has("cleared") {
				c.Report("c18:leases-kept", "what a sync has allocated is still given back by the next rollback")
			}
		}
		r.Explore(h, f)
	}
	r.Need("leases cleared", 1)
}

// nextOf: the iteration a key or value comes from.
func nextOf(v *Val) *Val {
	if v != nil && v.op == OExt && v.args[0].op == ONext {
		return v.args[0]
	}
	return nil
}
