package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = checkC27
}

const (
	cAppend = "unitdb._BlockWriter.append"
	cDel    = "unitdb._BlockWriter.del"
	cAtomic = "sync/atomic.AddUint64"
	cLoad   = "sync/atomic.LoadUint64"
)

// counting: the entry count is the number of entries in the data files.
type counting struct {
	r            *Run
	count, total *types.Var // entries of a sync, entries of the database
	seq          *types.Var
}

func checkC27(r *Run) {
	r.Rule("an entry is counted once after it was appended, and only then; every appended entry is counted")
	r.Rule("a sync adds the entries it counted once, before the header is written, takes them back if it fails, and counts from zero afterwards")
	r.Rule("deleting takes one entry from the count if an entry was deleted, and nothing otherwise")
	r.Rule("an entry is appended only after the block was searched for its sequence, completely and in vain, and the block in the file is read first; deleting an entry succeeds once")
	r.Rule("the count that is reported is the count of the database")
	k := &counting{r: r, count: r.Field("unitdb", "_SyncInfo", "count"), total: r.Field("unitdb", "_DBInfo", "count"), seq: r.Field("unitdb", "_IndexEntry", "seq")}
	r.Fn(cAppend)
	r.Fn(cDel)
	if len(r.vios) > 0 {
		return
	}
	k.stored()
	k.synced()
	k.deleted()
	k.once()
	k.gone()
	k.told()
}

// stored: the entries a sync appends.
func (k *counting) stored() {
	r, p := k.r, k.r.P
	appends := p.callReaches(cAppend)
	h := &Hooks{Interesting: anyOf(callIs(cAppend), fieldUse(k.count))}
	seen := map[ssa.Instruction]bool{}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case cAppend:
			c.Opaque()
			seen[c.In] = true
			r.Count("entries appended", 1)
			c.ForkErr(func(s *State) { s.Add("stored") }, func(s *State) { s.Add("failed"); s.Add("error", c.ErrRes()) })
		case "unitdb._SyncHandle.abort", "unitdb._SyncHandle.reset", "unitdb._SyncHandle.sync":
			c.Opaque()
			c.St.Del("counted")
		case "unitdb._Entry.UnmarshalBinary":
			c.Opaque()
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if !isFAddr(addr, k.count) {
			return
		}
		if isInt(0)(stripConv(v)) {
			return
		}
		r.Count("entries counted", 1)
		v = stripConv(v)
		one := v.op == OBin && v.aux == "+" && (isInt(1)(v.args[1]) && isField(stripConv(v.args[0]), k.count) || isInt(1)(v.args[0]) && isField(stripConv(v.args[1]), k.count))
		if !one {
			// (the value before may be known)
			one = v.op == OBin && v.aux == "+" && isInt(1)(v.args[1]) || v.op == OConst
		}
		if !one {
			x.Report("c27:step", "something else than one is added to the count for an entry: %s", v)
		}
		if !x.St.Has("stored") {
			x.Report("c27:not-stored", "an entry is counted that was not appended, or twice")
		}
		x.St.Del("stored")
		x.St.Add("counted")
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && cond.args[1].op == ONil && !truth && isErrType(cond.args[0].typ) {
			x.St.Add("seen error")
		}
	}
	uncounted := func(x *Ctx) {
		if x.St.Has("stored") && !x.St.Has("failed") {
			x.Report("c27:not-counted", "an entry is appended without being counted")
		}
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) {
		x.St.Del("seen error")
		if loopHas(l, appends) {
			uncounted(x)
			x.St.Del("stored")
			x.St.Del("failed")
			x.St.Del("error")
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if x.mayBeSuccess(fn, res) {
			uncounted(x)
		}
		if fn.Parent() != nil && (x.St.Has("seen error") || !x.mayBeSuccess(fn, res)) {
			return
		}
		if x.St.Has("counted") {
			x.Report("c27:kept", "%s can end with entries counted that the next sync counts again", fname(fn))
		}
	}
	syncs := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) == "unitdb" && p.reach(f)[r.Fn(cAppend)] && f != r.Fn(cAppend) {
			syncs[f] = true
		}
	}
	var roots, outer []*ssa.Function
	inside := map[*ssa.Function]bool{} // callbacks that append
	for f := range syncs {
		inner := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if callIs(cAppend)(in) {
					inner = false
				}
			}
		}
		if !inner {
			roots = append(roots, f)
			inside[f] = true
			for g := f.Parent(); g != nil; g = g.Parent() {
				if g.Parent() == nil {
					outer = append(outer, g)
				}
			}
		}
	}
	r.Explore(h, roots...)
	// who calls those: a callback that failed leaves what it counted
	is := callIs("unitdb._SyncHandle.abort", "unitdb._SyncHandle.reset", "unitdb._SyncHandle.sync")
	o := &Hooks{Interesting: is}
	o.Call = func(c *CallCtx) {
		if is(c.In) {
			c.Opaque()
			c.St.Del("counted")
			return
		}
		for _, a := range c.Args {
			if a.fn != nil && inside[a.fn] {
				c.Opaque()
				r.Count("runs of the callback", 1)
				c.ForkErr(nil, func(s *State) { s.Add("counted") })
				return
			}
		}
	}
	o.Exit = h.Exit
	r.Explore(o, outer...)
	if len(outer) > 0 {
		r.Need("runs of the callback", 1)
	}
	r.Need("entries appended", 2)
	r.Need("entries counted", 2)
	for _, ci := range p.callsTo(cAppend) {
		if !seen[ci] {
			r.Violate("c27:unseen", p.instrPos(ci), "an append of an entry that no explored path reaches")
		}
	}
}

// delta: what an atomic addition adds to the count of the database.
func (k *counting) delta(c *CallCtx) (v *Val, neg bool, ok bool) {
	if c.Name != cAtomic || !isFieldVal(c.Args[0], k.total) {
		return nil, false, false
	}
	v = stripConv(c.Args[1])
	for {
		switch {
		case v.op == ONeg && v.aux != "^":
			v, neg = stripConv(v.args[0]), !neg
			continue
		case v.op == OBin && v.aux == "-" && isInt(0)(v.args[0]):
			v, neg = stripConv(v.args[1]), !neg
			continue
		case v.op == ONeg && v.aux == "^" && stripConv(v.args[0]).op == OBin && stripConv(v.args[0]).aux == "-" && isInt(1)(stripConv(v.args[0]).args[1]):
			v, neg = stripConv(stripConv(v.args[0]).args[0]), !neg // ^(x-1)
			continue
		case v.op == ONeg && v.aux == "^" && isInt(0)(stripConv(v.args[0])):
			v, neg = c.E.in.integer(1), !neg // ^0
			continue
		}
		return v, neg, true
	}
}

// synced: the count of a sync goes into the count of the database.
func (k *counting) synced() {
	r, p := k.r, k.r.P
	f := r.Fn("unitdb._SyncHandle.sync")
	write := r.Fn("unitdb.DB.writeInfo")
	if f == nil || write == nil {
		return
	}
	h := &Hooks{Interesting: anyOf(fieldUse(k.count), callIs(cAtomic, "unitdb.DB.writeInfo", "unitdb._FileSet.sync"))}
	h.Call = func(c *CallCtx) {
		if v, neg, ok := k.delta(c); ok {
			r.Count("changes of the count", 1)
			if !isField(v, k.count) && v.op != OConst {
				c.Report("c27:amount", "a sync changes the count by something else than the entries it counted: %s", v)
			}
			switch {
			case isInt(0)(v):
				c.Report("c27:zeroed", "a sync changes the count after it began counting anew")
			case !neg && c.St.Has("added"):
				c.Report("c27:twice", "a sync adds its entries to the count twice")
			case neg && !c.St.Has("added"):
				c.Report("c27:taken", "a sync takes entries from the count that it did not add")
			case neg:
				c.St.Del("added")
			default:
				c.St.Add("added")
			}
			c.Opaque()
			return
		}
		switch {
		case c.Callee == write:
			c.Opaque()
			r.Count("headers written", 1)
			if !c.St.Has("added") {
				c.Report("c27:header", "a sync writes the header without its entries counted")
			}
			c.St.Add("tried")
			c.ForkErr(func(s *State) { s.Add("header") }, nil)
		case c.Name == "unitdb._FileSet.sync":
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("flushed") }, nil)
		case c.Callee != nil && p.inModule(c.Callee) && !c.IsGo && c.ErrRes() != nil && !p.reach(c.Callee)[write] && c.Callee.Parent() == nil && !k.touches(c.Callee):
			c.Opaque()
			c.St.Add("tried")
			c.ForkErr(nil, nil)
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if isFAddr(addr, k.count) {
			x.St.Del("zero")
			if isInt(0)(stripConv(v)) {
				x.St.Add("zero")
			}
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.St.Has("tried") && !x.St.Has("added") {
			return
		}
		r.Count("sync exits", 1)
		if !x.St.Has("zero") {
			x.Report("c27:not-reset", "a sync can end with its entries still counted for the next one")
		}
		if x.St.Has("flushed") && x.St.Has("header") {
			if !x.St.Has("added") {
				x.Report("c27:not-added", "a sync can succeed without adding its entries to the count")
			}
		} else if x.St.Has("added") {
			x.Report("c27:not-taken", "a sync that failed leaves its entries in the count")
		}
	}
	r.Explore(h, f)
	r.Need("changes of the count", 2)
	r.Need("headers written", 1)
	r.Need("sync exits", 4)
}

// touches: the function changes one of the counts.
func (k *counting) touches(f *ssa.Function) bool {
	use := fieldUse(k.count, k.total)
	for g := range k.r.P.reach(f) {
		if pkgOf(g) != "unitdb" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if use(in) {
					return true
				}
			}
		}
	}
	return false
}

// deleted: who deletes entries.
func (k *counting) deleted() {
	r, p := k.r, k.r.P
	del := r.Fn(cDel)
	h := &Hooks{Interesting: anyOf(callIs(cDel), fieldUse(k.total))}
	h.Call = func(c *CallCtx) {
		if v, neg, ok := k.delta(c); ok {
			r.Count("entries taken", 1)
			c.Opaque()
			one := neg && isInt(1)(v)
			if v.op == OConst && !neg {
				i := constant.ToInt(v.cv)
				if u, ok := constant.Uint64Val(i); ok && u == ^uint64(0) {
					one = true
				}
				if s, ok := constant.Int64Val(i); ok && s == -1 {
					one = true
				}
			}
			switch {
			case !one:
				c.Report("c27:one", "deleting an entry changes the count by something else than one")
			case !c.St.Has("deleted"):
				c.Report("c27:nothing", "an entry is taken from the count although none was deleted, or twice")
			}
			c.St.Del("deleted")
			return
		}
		if c.Callee == del {
			c.Opaque()
			r.Count("deletions", 1)
			e := c.E.ext(c.Res, 0, c.Sig.Results().At(0).Type())
			sq := c.E.fieldOf(e, k.seq)
			c.ForkErr(func(s *State) { s.Add("asked", sq) }, nil)
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		is := func(v *Val) bool {
			v = stripConv(v)
			if x.St.HasV("asked", v) {
				return true
			}
			return isField(v, k.seq)
		}
		if !x.St.Has("asked") {
			return
		}
		none, some := false, false
		if v, ok := eqConst(cond, 0); ok && is(v) {
			none, some = truth, !truth
		}
		if cond.op == OBin && cond.aux == "<" && isInt(0)(cond.args[0]) && is(cond.args[1]) {
			none, some = !truth, truth
		}
		if none {
			x.St.Del("asked")
		}
		if some {
			x.St.Del("asked")
			x.St.Add("deleted")
		}
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) { x.St.Del("asked") }
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("deleting exits", 1)
		if x.St.Has("deleted") || x.St.Has("asked") && x.mayBeSuccess(fn, res) {
			x.Report("c27:not-taken-del:"+fname(fn), "%s can delete an entry without taking it from the count", fname(fn))
		}
	}
	var roots []*ssa.Function
	for _, ci := range p.callsTo(cDel) {
		roots = append(roots, ci.Parent())
	}
	// the caller may be the one that counts
	for i := 0; i < len(roots); i++ {
		if !k.counts(roots[i]) {
			if cs := p.callers(roots[i]); len(cs) > 0 {
				roots = append(append(roots[:i:i], roots[i+1:]...), cs...)
				i--
			}
			if len(roots) > 50 {
				break
			}
		}
	}
	r.Explore(h, roots...)
	r.Need("deletions", 1)
	r.Need("entries taken", 1)
}

func (k *counting) counts(f *ssa.Function) bool {
	use := fieldUse(k.total)
	for g := range k.r.P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if use(in) {
					return true
				}
			}
		}
	}
	return false
}

// once: an entry that is in its block is not appended.
func (k *counting) once() {
	r := k.r
	f := r.Fn(cAppend)
	entries, used := r.Field("unitdb", "_IndexBlock", "entries"), r.Field("unitdb", "_IndexBlock", "entryIdx")
	blocks, last := r.Field("unitdb", "_BlockWriter", "indexBlocks"), r.Field("unitdb", "_BlockWriter", "blockIdx")
	read := r.Fn("unitdb._BlockReader.readIndexBlock")
	if f == nil || entries == nil || used == nil || blocks == nil || last == nil || read == nil {
		return
	}
	uses := fieldUse(used)
	var bounded func(v ssa.Value, d int) bool
	bounded = func(v ssa.Value, d int) bool {
		if d > 5 {
			return false
		}
		switch x := stripConvSSA(v).(type) {
		case *ssa.UnOp:
			in, ok := x.X.(ssa.Instruction)
			return ok && uses(in)
		case *ssa.Field:
			return uses(x)
		case *ssa.Parameter:
			return true
		case *ssa.Const:
			at, ok := entries.Type().Underlying().(*types.Array)
			n, okc := constOfSSA(x)
			return ok && okc && n == at.Len()
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if s, ok := x.Call.Args[0].(*ssa.Slice); ok {
					return s.Low == nil && (s.High == nil || bounded(s.High, d+1))
				}
				return true
			}
		}
		return false
	}
	comparesSeq := func(in ssa.Instruction) bool {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op.String() != "==" && b.Op.String() != "!=" {
			return false
		}
		t, ok := b.X.Type().Underlying().(*types.Basic)
		return ok && t.Kind() == types.Uint64
	}
	inEntries := func(a *Val) bool {
		for a != nil && (a.op == OFAddr || a.op == OIAddr) {
			if a.op == OIAddr && a.args[0].op == OFAddr && a.args[0].fld == entries {
				return true
			}
			a = a.args[0]
		}
		return false
	}
	of := func(v *Val) bool { // the sequence of an entry of the block
		v = stripConv(v)
		return v != nil && v.contains(func(y *Val) bool {
			return y.op == OFAddr && y.fld == entries || y.op == OField && y.fld == entries || y.op == OElem
		})
	}
	h := &Hooks{Interesting: anyOf(fieldUse(entries, blocks), callIs("unitdb._BlockReader.readIndexBlock"))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == read:
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("read") }, nil)
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if m, ok := lookupOK(cond); ok && isFieldVal(m, blocks) {
			x.St.Del("missing")
			if !truth {
				x.St.Add("missing")
			}
			return
		}
		if cond.op != OBin {
			return
		}
		switch cond.aux {
		case "==":
			a, b := cond.args[0], cond.args[1]
			if truth && (of(a) != of(b)) && stripConv(a).op != OConst && stripConv(b).op != OConst && (seqOf(k, a) || seqOf(k, b)) {
				x.St.Add("there")
			}
			if !truth && (of(a) != of(b)) && (seqOf(k, a) || seqOf(k, b)) {
				x.St.Add("compared")
			}
		case "<": // block index below that of the last block of the file
			if isField(stripConv(cond.args[1]), last) && !truth {
				x.St.Add("beyond")
			}
			if isField(stripConv(cond.args[0]), last) && truth {
				x.St.Add("beyond")
			}
		}
	}
	h.LoopEnter = func(x *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, comparesSeq) {
			x.St.Del("searched")
			x.St.Del("compared")
			x.St.Del("passed over")
		}
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, comparesSeq) {
			if !x.St.Has("compared") {
				x.St.Add("passed over")
			}
			x.St.Del("compared")
		}
	}
	h.LoopExit = func(x *Ctx, l *loop, fn *ssa.Function) {
		if x.In.Block() == l.head && loopHas(l, comparesSeq) && !x.St.Has("passed over") {
			if _, _, b := countsLoop(l); b != nil && bounded(b, 0) {
				x.St.Add("searched")
			}
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if !inEntries(addr) {
			return
		}
		if v != nil && v.contains(func(v *Val) bool { return v.op == OCall }) && !v.contains(func(v *Val) bool { return v.op == OParam }) {
			return // read from the file
		}
		r.Count("entries put into blocks", 1)
		if x.St.Has("there") {
			x.Report("c27:again", "an entry is appended although one with its sequence is there")
		}
		if !x.St.Has("searched") {
			x.Report("c27:unsearched", "an entry is appended without a complete search for its sequence")
		}
		if x.St.Has("missing") && !x.St.Has("beyond") && !x.St.Has("read") {
			x.Report("c27:unread", "an entry is appended to a block of the file that was not read")
		}
	}
	r.Explore(h, f)
	r.Need("entries put into blocks", 1)
}

func seqOf(k *counting, v *Val) bool {
	v = stripConv(v)
	return v != nil && (v.op == OLoad && v.args[0].op == OFAddr && v.args[0].fld == k.seq || v.op == OField && v.fld == k.seq || v.op == OParam)
}

// gone: an entry is deleted once.
func (k *counting) gone() {
	r := k.r
	f := r.Fn(cDel)
	isDel := r.Fn("unitdb._IndexEntry.isDeleted")
	if f == nil || isDel == nil {
		return
	}
	h := &Hooks{Interesting: callIs("unitdb._IndexEntry.isDeleted")}
	h.Call = func(c *CallCtx) {
		if c.Callee == isDel {
			c.Opaque()
			r.Count("deleted marks looked at", 1)
			res := c.Res
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vFalse); s.Add("live") })
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vTrue) })
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.mayBeSuccess(fn, res) || len(res) == 0 {
			return
		}
		sq := x.E.fieldOf(res[0], k.seq)
		if sq != nil && (sq.op == OZero || isInt(0)(sq)) {
			return
		}
		r.Count("entries reported deleted", 1)
		if !x.St.Has("live") {
			x.Report("c27:deleted-again", "an entry that is deleted already is reported as deleted again")
		}
	}
	r.Explore(h, f)
	r.Need("entries reported deleted", 1)
}

// told: the count that is reported.
func (k *counting) told() {
	r := k.r
	f := r.Fn("unitdb.DB.Count")
	if f == nil {
		return
	}
	h := &Hooks{}
	h.Call = func(c *CallCtx) {
		if c.Name == cLoad && isFieldVal(c.Args[0], k.total) {
			c.St.Add("count", c.Res)
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("counts reported", 1)
		if len(res) != 1 || !x.St.HasV("count", stripConv(res[0])) && !isField(stripConv(res[0]), k.total) {
			x.Report("c27:reported", "the count that is reported is not that of the database")
		}
	}
	r.Explore(h, f)
	r.Need("counts reported", 1)
}
