package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = checkC19
}

// atomicOp names an operation of sync/atomic on a number.
func atomicOp(n string) string {
	if !strings.HasPrefix(n, "sync/atomic.") {
		return ""
	}
	m := n[strings.LastIndex(n, ".")+1:]
	for _, k := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap", "And", "Or"} {
		if strings.HasPrefix(m, k) {
			return k
		}
	}
	return ""
}

func isFAddr(v *Val, f *types.Var) bool { return v != nil && v.op == OFAddr && v.fld == f }

func checkC19(r *Run) {
	p := r.P
	r.Rule("the counter of sequence numbers is changed only by atomic operations that move it forward: an addition of a positive constant, or a compare-and-swap to a number known to be greater than the one compared, repeated until it succeeds or the counter is known to be high enough")
	r.Rule("the sequence number an entry is stored with is the result of such an addition or comes from a given message ID, and is known not to be zero; new message IDs carry the result of an addition")
	r.Rule("the header is written with the counter of the database whenever a sync succeeds and on close, is initialised only when its file is empty, and opening takes the counter from the header and raises it above every recovered number")
	seq := r.Field("unitdb", "_DBInfo", "sequence")
	info := r.Field("unitdb", "_DB", "dbInfo")
	eseq := r.Field("unitdb", "_Entry", "seq")
	if seq == nil || info == nil || eseq == nil {
		return
	}
	r.counterUses(seq, info)
	isSeqOp := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && atomicOp(staticName(ci.Common())) != ""
	}
	var ord order
	atomics := func(c *CallCtx) bool {
		op := atomicOp(c.Name)
		if op == "" || len(c.Args) == 0 || !isFAddr(c.Args[0], seq) {
			return false
		}
		c.Opaque()
		switch op {
		case "Load":
			c.SetResult(c.E.pair("seq now", c.Res))
		case "Add":
			r.Count("numbers taken", 1)
			c.SetResult(c.E.pair("seq new", c.Res))
		}
		return true
	}
	// compare-and-swap
	casFns := p.fns(func(f *ssa.Function) bool {
		if pkgOf(f) != "unitdb" {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if ok && atomicOp(staticName(ci.Common())) == "CompareAndSwap" {
					if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && faField(fa) == seq {
						return true
					}
				}
			}
		}
		return false
	})
	for _, f := range casFns {
		h := &Hooks{Interesting: isSeqOp}
		h.Call = func(c *CallCtx) {
			if atomics(c) {
				if atomicOp(c.Name) == "Load" {
					c.St.Del("ge")
					c.St.Del("lt")
					c.St.Del("eq")
					c.St.Del("ne")
				}
				if atomicOp(c.Name) != "CompareAndSwap" {
					return
				}
				r.Count("compare-and-swaps", 1)
				old, nw := c.Args[1], c.Args[2]
				if !ord.has(c.St, "lt", isV(old), isV(nw)) {
					c.Report("c19:cas-back", "the counter of sequence numbers is set to a number that is not known to be greater")
				}
				if old.aux != "pair:seq now" {
					c.Report("c19:cas-old", "the counter of sequence numbers is compared with something else than what was read from it")
				}
				res := c.Res
				c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(true)); s.Add("raised", nw) })
				c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(false)) })
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) { ord.assume(c, cond, truth) }
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("raises", 1)
			if c.St.Has("raised") {
				return
			}
			now := func(v *Val) bool { return v.aux == "pair:seq now" }
			par := func(v *Val) bool { return v.op == OParam }
			if !ord.atMost(c.St, par, now) {
				c.Report("c19:not-raised", "%s returns without having raised the counter of sequence numbers or seen that it is high enough", fname(fn))
			}
		}
		r.Explore(h, f)
	}
	// numbers given to entries
	if f := r.Fn("unitdb.DB.setEntry"); f != nil {
		h := &Hooks{Interesting: anyOf(isSeqOp, fieldUse(eseq), callIs("message.ID.Sequence", "message.NewID"))}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			ord.assume(c, cond, truth)
		}
		h.Call = func(c *CallCtx) {
			switch {
			case atomics(c):
			case c.Name == "message.ID.Sequence":
				c.Opaque()
				c.SetResult(c.E.pair("seq given", c.Args[0]))
			case c.Name == "message.NewID":
				c.Opaque()
				c.SetResult(c.E.pair("id of", c.Args[0]))
				if c.Args[0].aux != "pair:seq new" {
					c.Report("c19:id", "a new message ID does not carry a new sequence number")
				}
			case c.Name == "unitdb.DB.parseTopic" || c.Name == "unitdb._Entry.MarshalBinary":
				c.Opaque()
				c.ForkErr(nil, nil)
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if isFAddr(addr, eseq) && v != nil {
				r.Count("numbers given", 1)
				if v.aux != "pair:seq new" && v.aux != "pair:seq given" {
					c.Report("c19:number", "an entry is given a number that is neither new nor that of its ID")
				}
				c.St.Del("given")
				c.St.Add("given", v)
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.mayBeSuccess(fn, res) {
				return
			}
			r.Count("entries packed", 1)
			g := c.St.Find("given")
			if len(g) == 0 {
				c.Report("c19:no-number", "an entry can be packed without a sequence number")
			}
			for _, v := range g {
				if !ord.nonzero(c.St, v) {
					c.Report("c19:zero", "an entry can be packed with sequence number zero")
				}
			}
		}
		r.Explore(h, f)
		r.Need("numbers given", 1)
		r.Need("entries packed", 1)
	}
	for _, f := range p.entries("unitdb") {
		if f.Name() != "NewID" {
			continue
		}
		h := &Hooks{Interesting: anyOf(isSeqOp, callIs("message.NewID"))}
		h.Call = func(c *CallCtx) {
			switch {
			case atomics(c):
			case c.Name == "message.NewID":
				c.Opaque()
				r.Count("new message IDs", 1)
				if c.Args[0].aux != "pair:seq new" {
					c.Report("c19:id", "a new message ID does not carry a new sequence number")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("new message IDs", 1)
	r.noZeroEntry()
	r.headerCounter(seq, info, atomics)
}

// counterUses: who touches the counter, and how.
func (r *Run) counterUses(seq, info *types.Var) {
	p := r.P
	local := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Parameter:
			return typeName(deref(x.Type())) == "_DBInfo"
		}
		return false
	}
	for _, f := range p.funcs {
		if pkgOf(f) != "unitdb" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && faField(fa) == seq && !local(fa.X) {
					for _, ref := range *fa.Referrers() {
						switch x := ref.(type) {
						case *ssa.DebugRef:
						case ssa.CallInstruction:
							r.Count("uses of the counter", 1)
							r.sites[x] = true
							switch op := atomicOp(staticName(x.Common())); op {
							case "Load":
							case "CompareAndSwap": // judged where it happens
							case "Add":
								args := x.Common().Args
								if d, ok := constOfSSA(args[len(args)-1]); !ok || d < 1 {
									r.Violate("c19:add", p.instrPos(x), "the counter of sequence numbers is not moved forward by a positive constant (in %s)", fname(f))
								}
							default:
								r.Violate("c19:use", p.instrPos(x), "the counter of sequence numbers is not used with an atomic operation that keeps or raises it (in %s)", fname(f))
							}
						case *ssa.UnOp:
							r.Violate("c19:load", p.instrPos(x), "the counter of sequence numbers is read without an atomic operation (in %s)", fname(f))
						default:
							r.Violate("c19:store", p.instrPos(ref), "the counter of sequence numbers is changed without an atomic operation (in %s)", fname(f))
						}
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && faField(fa) == info {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue // a database that is being made
					}
					for _, ref := range *fa.Referrers() {
						switch x := ref.(type) {
						case *ssa.Store:
							if x.Addr == fa {
								r.Violate("c19:header-replaced", p.instrPos(x), "the header of an open database is replaced with its counter (in %s)", fname(f))
							}
						case ssa.CallInstruction, *ssa.MakeInterface:
							r.Violate("c19:header-given", p.instrPos(ref), "the header of an open database is given away to be changed (in %s)", fname(f))
						}
					}
				}
			}
		}
	}
	r.Need("uses of the counter", 1)
}

// noZeroEntry: the index never gets an entry without a number.
func (r *Run) noZeroEntry() {
	f := r.Fn("unitdb._BlockWriter.append")
	ents := r.Field("unitdb", "_IndexBlock", "entries")
	iseq := r.Field("unitdb", "_IndexEntry", "seq")
	if f == nil || ents == nil || iseq == nil {
		return
	}
	var ord order
	h := &Hooks{Interesting: anyOf(fieldUse(ents, iseq))}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		ord.assume(c, cond, truth)
	}
	h.Call = func(c *CallCtx) {
		if c.Callee != nil && c.Callee != f && c.Callee.Parent() == nil {
			c.Opaque()
			if c.ErrRes() != nil {
				c.ForkErr(nil, nil)
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if v == nil || addr.op != OIAddr || typeName(typOr(v)) != "_IndexEntry" && typeName(elemType2(addr)) != "_IndexEntry" {
			return
		}
		x := c.E.fieldOf(v, iseq)
		r.Count("entries indexed", 1)
		if !ord.nonzero(c.St, x) {
			c.Report("c19:zero-indexed", "an entry can be written to the index without a sequence number")
		}
	}
	r.Explore(h, f)
	r.Need("entries indexed", 1)
}

func elemType2(addr *Val) types.Type {
	if t := elemType(addr); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func (r *Run) headerCounter(seq, info *types.Var, atomics func(c *CallCtx) bool) {
	p := r.P
	isSeqOp := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && atomicOp(staticName(ci.Common())) != ""
	}
	const writeHdr = "unitdb._File.writeMarshalableAt"
	headerOf := func(c *CallCtx) *Val {
		v := c.Args[1]
		for v.op == OConv {
			v = v.args[0]
		}
		if v.op == OAlloc || v.op == OFAddr {
			return c.E.load(c.St, c.E.faddr(v, seq), seq.Type())
		}
		return c.E.fieldOf(v, seq)
	}
	var ord order
	// the header is written with the counter
	for _, f := range p.funcs {
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				direct = direct || callIs(writeHdr)(in)
			}
		}
		if !direct {
			continue
		}
		h := &Hooks{Interesting: anyOf(isSeqOp, callIs(writeHdr, "unitdb._File.currSize", "unitdb._File.Size", "unitdb._File.readUnmarshalableAt"), fieldUse(seq))}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			ord.assume(c, cond, truth)
		}
		h.Call = func(c *CallCtx) {
			switch {
			case atomics(c):
			case c.Name == "unitdb._File.readUnmarshalableAt":
				c.Opaque()
				c.E.store(c.St, c.Args[1], c.E.pair("header read"))
				c.ForkErr(nil, nil)
			case c.Name == "unitdb._File.currSize" || c.Name == "unitdb._File.Size":
				c.Opaque()
				c.SetResult(c.E.pair("size", c.Args[0]))
			case c.Name == writeHdr:
				c.Opaque()
				r.Count("headers written", 1)
				x := headerOf(c)
				size := func(v *Val) bool { return v.aux == "pair:size" }
				fresh := ord.atMost(c.St, size, isInt(0))
				if x == nil || stripConv(x).aux != "pair:seq now" && !(fresh && x.contains(func(v *Val) bool { return v.op == OZero || isInt(0)(v) })) {
					c.Report("c19:header", "the header is written without the counter of sequence numbers")
				}
				if n, ok := c.Args[len(c.Args)-1].constInt(); !ok || n != 0 {
					c.Report("c19:header-place", "the header is written to another place than the start of its file")
				}
				c.ForkErr(nil, nil)
			case c.Callee != nil && c.Callee.Parent() == nil && pkgOf(c.Callee) != "":
				if c.ErrRes() != nil && c.Callee != f {
					c.Opaque()
					c.ForkErr(nil, nil)
				}
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			// the database that is made: its header, whole or by field.
			if isFAddr(addr, info) {
				c.St.Add("made", addr)
			} else if addr.op == OFAddr && isFAddr(addr.args[0], info) {
				c.St.Add("made", addr.args[0])
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.mayBeSuccess(fn, res) {
				return
			}
			for _, a := range c.St.Find("made") {
				r.Count("headers taken over", 1)
				if x := c.E.load(c.St, c.E.faddr(a, seq), seq.Type()); findPair(x, "header read") == nil || !isFieldVal(x, seq) {
					c.Report("c19:not-restored", "a database is opened with another sequence number than that of its header")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("headers written", 1)
	r.Need("headers taken over", 1)
	// when it is written
	for _, n := range []string{"unitdb._SyncHandle.sync", "unitdb.DB.close"} {
		f := r.Fn(n)
		if f == nil {
			continue
		}
		n := n
		h := &Hooks{Interesting: callIs(writeHdr, "unitdb.DB.setClosed")}
		up := r.P.field("unitdb", "_SyncInfo", "upperSeq")
		if up != nil {
			h.Interesting = anyOf(h.Interesting, fieldUse(up))
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if up != nil && truth && cond.op == OBin && cond.aux == "==" && (isFieldVal(cond.args[0], up) && isInt(0)(cond.args[1]) || isFieldVal(cond.args[1], up) && isInt(0)(cond.args[0])) {
				c.St.Add("nothing")
			}
		}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case writeHdr:
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("written") }, func(s *State) { s.Add("tried") })
			case "unitdb.DB.setClosed":
				c.Opaque()
				res := c.Res
				c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(true)); s.Add("closing") })
				c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(false)) })
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if n == "unitdb.DB.close" {
				if c.St.Has("closing") {
					r.Count("closes", 1)
					if !c.St.Has("written") && !c.St.Has("tried") {
						c.Report("c19:close", "the database can be closed without writing the counter of sequence numbers")
					}
				}
				return
			}
			if !c.mayBeSuccess(fn, res) || c.St.Has("nothing") {
				return
			}
			r.Count("syncs", 1)
			if !c.St.Has("written") {
				c.Report("c19:sync", "a sync can succeed without writing the counter of sequence numbers")
			}
		}
		r.Explore(h, f)
	}
	r.Need("closes", 1)
	r.Need("syncs", 1)
	// recovered numbers
	f := r.Fn("unitdb.DB.recoverLog")
	if f == nil {
		return
	}
	h := &Hooks{Interesting: callIs("unitdb.DB.raiseSeq", "memdb.DB.Keys", "unitdb._SyncHandle.startSync", "memdb.DB.All")}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "memdb.DB.Keys":
			c.Opaque()
			c.St.Add("keys", c.Res)
		case "unitdb.DB.raiseSeq":
			c.Opaque()
			if c.Args[1].contains(func(v *Val) bool { return c.St.HasV("keys", v) }) {
				c.St.Add("raised")
			}
			if elementOf(maxOf(c.Common.Args[1]), callIs("memdb.DB.Keys")) {
				c.St.Add("raising")
				r.Count("recovered numbers", 1)
			}
		case "unitdb._SyncHandle.startSync", "memdb.DB.All", "unitdb._SyncHandle.recoverWindowBlocks", "unitdb._SyncHandle.sync", "unitdb._SyncHandle.abort":
			c.Opaque()
			c.ForkErr(nil, nil)
		}
	}
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, p.callReaches("unitdb.DB.raiseSeq")) {
			c.St.Add("raising")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.mayBeSuccess(fn, res) && !c.St.Has("raising") {
			c.Report("c19:not-recovered", "recovery can succeed without raising the counter above the recovered numbers")
		}
	}
	r.eachHooks(h, &each{name: "recovered numbers", key: "c19:number-skipped", what: "a recovered number can be left out when the counter is raised", is: loopIs(nil, callIs("unitdb.DB.raiseSeq")), done: []string{"raised"}})
	r.Explore(h, f)
	r.Need("recovered numbers", 1)
}

// maxOf: v is the greatest of the values a loop goes over; the value of one iteration.
func maxOf(v ssa.Value) ssa.Value {
	head, ok := stripSSA(v).(*ssa.Phi)
	if !ok {
		return nil
	}
	// x is taken over from a block that is entered only where it is greater.
	taken := func(m *ssa.Phi) ssa.Value {
		var r ssa.Value
		for i, x := range m.Edges {
			if x == ssa.Value(head) || x == ssa.Value(m) {
				continue
			}
			if _, ok := x.(*ssa.Const); ok && m == head {
				continue
			}
			from := m.Block().Preds[i]
			if len(from.Preds) != 1 {
				return nil
			}
			br, ok := from.Preds[0].Instrs[len(from.Preds[0].Instrs)-1].(*ssa.If)
			if !ok || from.Preds[0].Succs[0] != from {
				return nil
			}
			op, ok := br.Cond.(*ssa.BinOp)
			if !ok {
				return nil
			}
			switch op.Op {
			case token.GTR, token.GEQ:
				if op.X == x && op.Y == ssa.Value(head) {
					r = x
					continue
				}
			case token.LSS, token.LEQ:
				if op.Y == x && op.X == ssa.Value(head) {
					r = x
					continue
				}
			}
			return nil
		}
		return r
	}
	if x := taken(head); x != nil {
		return x
	}
	for _, e := range head.Edges {
		if m, ok := e.(*ssa.Phi); ok && m != head {
			if x := taken(m); x != nil {
				return x
			}
		}
	}
	return nil
}

// elementOf: v is an element of what a call that satisfies pred returned.
func elementOf(v ssa.Value, pred func(ssa.Instruction) bool) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	call, ok := stripSSA(ia.X).(*ssa.Call)
	return ok && pred(call)
}
