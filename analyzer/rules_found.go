package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = checkC28
}

// C28: a query finds every live entry within its limit.
func checkC28(r *Run) {
	r.Rule("a query looks at all topics that match and takes every window entry it gets for each")
	r.Rule("an entry of the window that is deleted, not readable or of another contract is made up for by looking further; the next part of the window entries begins where the last one ended")
	r.Rule("a query ends with fewer items than its limit only if there were fewer window entries than it asked for")
	r.Rule("an entry is read from the file only if it is not in memory")
	win := r.Field("unitdb", "_InternalQuery", "winEntries")
	get, look, items, read := r.Fn("unitdb.DB.Get"), r.Fn("unitdb.DB.lookup"), r.Fn("unitdb.DB.readItems"), r.Fn("unitdb.DB.readEntry")
	tw := r.Fn("unitdb._TimeWindowBucket.lookup")
	if win == nil || get == nil || look == nil || items == nil || read == nil || tw == nil {
		return
	}
	foundTopics(r, look, tw, win)
	foundSkipped(r, items, read, win)
	foundEnough(r, get, look, win)
	foundMemory(r, read)
}

func foundTopics(r *Run, look, tw *ssa.Function, win *types.Var) {
	p := r.P
	calls := p.callReaches(fname(tw))
	h := &Hooks{Interesting: anyOf(fieldUse(win), calls)}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == tw:
			c.Opaque()
			r.Count("topics looked up", 1)
			c.ForkErr(func(s *State) { s.Add("looked") }, func(s *State) { s.Add("failed") })
		case c.Name == "unitdb._Trie.lookup":
			c.Opaque()
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if isFAddr(addr, win) && v != nil && stripConv(v).op == OAppend {
			x.St.Add("taken")
		}
	}
	isAppend := isBuiltin("append", nil)
	r.eachHooks(h,
		&each{name: "topic iterations", key: "c28:topic", what: "a topic that matches the query can be passed over", is: loopIs(nil, calls), done: []string{"looked"}, stop: []string{"failed"}},
		&each{name: "window entry iterations", key: "c28:entry", what: "a window entry that was found can be left out of the query", is: func(l *loop, fn *ssa.Function) bool {
			return loopHas(l, isAppend) && !loopHas(l, calls)
		}, done: []string{"taken"}, stop: []string{"failed"}})
	r.Explore(h, look)
	r.Need("topics looked up", 1)
	r.Need("topic iterations", 1)
}

func foundSkipped(r *Run, items, read *ssa.Function, win *types.Var) {
	p := r.P
	// paging
	for _, b := range items.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Slice)
			if !ok || s.Low == nil || s.High == nil {
				continue
			}
			lo, ok1 := s.Low.(*ssa.Phi)
			if !ok1 || !fromField(s.X, win) {
				continue
			}
			var l *loop
			for _, x := range p.loopsOf(items).loops {
				if x.head == lo.Block() {
					l = x
				}
			}
			if l == nil {
				continue
			}
			r.Count("parts of the window entries", 1)
			var ends func(v ssa.Value, d int) bool
			ends = func(v ssa.Value, d int) bool {
				if v == s.High {
					return true
				}
				ph, ok := v.(*ssa.Phi)
				if !ok || ph == lo || d > 4 {
					return false
				}
				for _, e := range ph.Edges {
					if !ends(e, d+1) {
						return false
					}
				}
				return true
			}
			for i, e := range lo.Edges {
				if l.blocks[lo.Block().Preds[i]] {
					if !ends(e, 0) {
						r.Violate("c28:part", p.instrPos(s), "the next part of the window entries does not begin where the last one ended")
					}
				} else if n, ok := constOfSSA(e); !ok || n != 0 {
					r.Violate("c28:first", p.instrPos(s), "the first part of the window entries does not begin with the first one")
				}
			}
		}
	}
	// what is passed over is made up for
	counted := false
	for f := range p.reach(items) {
		if f != items && f.Parent() != items {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if t, ok := deref(a.Type()).Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
						counted = true
					}
				}
			}
		}
	}
	if !counted {
		return // (not kept in memory)
	}
	calls := p.callReaches(fname(read))
	h := &Hooks{Interesting: anyOf(calls, callIs("message.ID.EvalPrefix"))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == read:
			c.Opaque()
			r.Count("entries read", 1)
			c.ForkErr(nil, func(s *State) { s.Add("passed over") })
		case c.Name == "message.ID.EvalPrefix":
			c.Opaque()
			res := c.Res
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vTrue) })
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vFalse); s.Add("passed over") })
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		v = stripConv(v)
		if addr.op == OAlloc && v != nil && (v.op == OBin && v.aux == "+" && isInt(1)(v.args[1]) || v.op == OConst && !isInt(0)(v)) {
			x.St.Add("made up")
		}
	}
	h.LoopEnter = func(x *Ctx, l *loop, fn *ssa.Function) {
		x.St.Del("passed over")
		x.St.Del("made up")
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, p.callReachesAny(fname(read))) {
			r.Count("reading iterations", 1)
			if x.St.Has("passed over") && !x.St.Has("made up") {
				x.Report("c28:passed-over", "an entry that is passed over is not made up for")
			}
		}
		x.St.Del("passed over")
		x.St.Del("made up")
	}
	r.Explore(h, items)
	r.Need("entries read", 1)
}

// callReachesAny: a call, of a closure too, from which the function is reached.
func (p *Prog) callReachesAny(name string) func(ssa.Instruction) bool {
	is := p.callReaches(name)
	return func(in ssa.Instruction) bool {
		if is(in) {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Fn.(*ssa.Function).Blocks {
				for _, x := range b.Instrs {
					if is(x) {
						return true
					}
				}
			}
		}
		return false
	}
}

func fromField(v ssa.Value, f *types.Var) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	in, ok := u.X.(ssa.Instruction)
	return ok && fieldUse(f)(in)
}

func foundEnough(r *Run, get, look *ssa.Function, win *types.Var) {
	items := r.Fn("unitdb.DB.readItems")
	h := &Hooks{Interesting: callIs(fname(look), fname(items))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == look:
			c.Opaque()
			r.Count("lookups", 1)
			c.St.Del("enough")
			c.St.Del("asked")
			c.ForkErr(func(s *State) { s.Add("asked", stripConv(c.Args[2])) }, nil)
		case c.Callee == items:
			c.Opaque()
			c.St.Del("enough")
			c.ForkErr(func(s *State) { s.Add("read") }, nil)
		case c.Name == "unitdb.Query.parse":
			c.Opaque()
		}
	}
	isWin := func(v *Val) bool { return v.op == OLen && isFieldVal(v.args[0], win) }
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if cond.op != OBin || len(cond.args) != 2 {
			return
		}
		a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
		switch cond.aux {
		case "<":
			if isWin(a) && truth && x.St.HasV("asked", b) {
				x.St.Add("enough") // there are no more
			}
			if a.op == OLen && !isWin(a) && !truth && b.op != OConst {
				x.St.Add("enough") // as many as were asked for
			}
		case "==":
			if truth && (a.op == OLen && !isWin(a) && b.op != OConst || b.op == OLen && !isWin(b) && a.op != OConst) {
				x.St.Add("enough")
			}
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.mayBeSuccess(fn, res) {
			return
		}
		r.Count("queries answered", 1)
		if !x.St.Has("enough") {
			x.Report("c28:few", "a query can end with fewer items than its limit although there may be more window entries")
		}
	}
	r.Explore(h, get)
	r.Need("lookups", 1)
	r.Need("queries answered", 1)
}

func foundMemory(r *Run, read *ssa.Function) {
	const mem, file = "memdb.DB.Get", "unitdb._BlockReader.readEntry"
	r.Fn(mem)
	r.Fn(file)
	h := &Hooks{Interesting: callIs(mem, file)}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case mem:
			c.Opaque()
			r.Count("entries looked for in memory", 1)
			data, er := c.E.ext(c.Res, 0, nil), c.ErrRes()
			c.Fork(func(s *State) { c.E.setFact(s, data, c.E.vNonNil); c.E.setFact(s, er, c.E.vNil); s.Add("in memory") })
			c.Fork(func(s *State) { c.E.setFact(s, data, c.E.vNil); c.E.setFact(s, er, c.E.vNil); s.Add("asked") })
			c.Fork(func(s *State) { c.E.setFact(s, data, c.E.vNil); c.E.setFact(s, er, c.E.vNonNil); s.Add("asked") })
		case file:
			c.Opaque()
			r.Count("entries looked for in the file", 1)
			if c.St.Has("in memory") {
				c.Report("c28:memory", "an entry that is in memory can be looked for in the file only")
			} else if !c.St.Has("asked") {
				c.Report("c28:order", "an entry is looked for in the file before memory")
			}
		case "unitdb._Entry.UnmarshalBinary":
			c.Opaque()
		}
	}
	r.Explore(h, read)
	r.Need("entries looked for in memory", 1)
	r.Need("entries looked for in the file", 1)
}
