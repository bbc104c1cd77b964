package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = checkC25
}

// chain: the window blocks of a topic and the offset its newest one is found at.
type chain struct {
	r                                               *Run
	blocks, windowIdx                               *types.Var
	topic, entries, next, count, dirty              *types.Var
	seq, exp                                        *types.Var
	rdOff, rdIdx                                    *types.Var
	tHash, tOff                                     *types.Var
	offsets, complete, summary, nodeTopics          *types.Var
	append, read, get, set, add, unique, sync, iter *ssa.Function
	size, perBlock                                  int64
	ord                                             order
}

const winOffset = "unitdb.winBlockOffset"

func checkC25(r *Run) {
	r.Rule("appending to a topic goes on with the block at the offset the topic has, read from the file unless it is in the writer already, or with a new block when the topic has none; every entry is put behind the last one of a block that is not full; when a block is full it is kept in the writer, and the block begun instead links to it; the offset that is returned is that of the block that was written last")
	r.Rule("a sync and a recovery append to a topic at the offset the topic has, and keep the offset that is returned for the same topic; a sync that succeeds makes every offset that was kept the offset of its topic")
	r.Rule("the topic index keeps what it is told: setting an offset changes that of the topic with the same hash, getting one returns it, and a topic that is known is not added again")
	r.Rule("on open blocks are visited from the first to the last one, each with its own topic and offset, and each becomes the offset of its topic")
	r.Rule("a lookup reads what is in memory before the offset of the topic, reads the block at that offset and then each block the one before links to, takes all entries of every block of the topic, and ends early only when it has enough or the block is too old")
	c := &chain{r: r}
	c.blocks, c.windowIdx = r.Field("unitdb", "_WindowWriter", "winBlocks"), r.Field("unitdb", "_WindowWriter", "windowIdx")
	c.topic, c.entries = r.Field("unitdb", "_WinBlock", "topicHash"), r.Field("unitdb", "_WinBlock", "entries")
	c.next, c.count = r.Field("unitdb", "_WinBlock", "next"), r.Field("unitdb", "_WinBlock", "entryIdx")
	c.dirty = r.Field("unitdb", "_WinBlock", "dirty")
	c.seq, c.exp = winFields(r)
	c.rdOff, c.rdIdx = r.Field("unitdb", "_WindowReader", "offset"), r.Field("unitdb", "_WindowReader", "windowIdx")
	c.tHash, c.tOff = r.Field("unitdb", "_Topic", "hash"), r.Field("unitdb", "_Topic", "offset")
	c.offsets, c.complete = r.Field("unitdb", "_SyncHandle", "topicOffsets"), r.Field("unitdb", "_SyncInfo", "syncComplete")
	c.summary, c.nodeTopics = r.Field("unitdb", "_TopicTrie", "summary"), r.Field("unitdb", "_Node", "topics")
	c.append, c.read = r.Fn("unitdb._WindowWriter.append"), r.Fn("unitdb._WindowReader.readWindowBlock")
	c.get, c.set, c.add = r.Fn("unitdb._Trie.getOffset"), r.Fn("unitdb._Trie.setOffset"), r.Fn("unitdb._Trie.add")
	c.unique, c.sync = r.Fn("unitdb._Topics.addUnique"), r.Fn("unitdb._SyncHandle.sync")
	c.iter = r.Fn("unitdb._WindowReader.blockIterator")
	size, ok1 := r.P.pkgConst("unitdb", "blockSize")
	per, ok2 := r.P.pkgConst("unitdb", "entriesPerWindowBlock")
	if len(r.vios) > 0 || !ok1 || !ok2 {
		return
	}
	c.size, c.perBlock = size, per
	c.appending()
	c.keeping()
	c.syncing()
	c.indexing()
	c.loading()
	c.looking()
}

// offsetOf: v is the offset of a block; its index.
func (c *chain) offsetOf(v *Val) *Val {
	v = stripConv(v)
	if v == nil {
		return nil
	}
	if v.op == OComp && v.aux == "pair:offset" {
		return stripConv(v.args[0])
	}
	if v.op == OBin && v.aux == "*" {
		for k := 0; k < 2; k++ {
			if isInt(c.size)(stripConv(v.args[k])) {
				return stripConv(v.args[1-k])
			}
		}
	}
	return nil
}

func (c *chain) winOffset(cc *CallCtx) bool {
	if cc.Name != winOffset {
		return false
	}
	cc.Opaque()
	cc.SetResult(cc.E.pair("offset", cc.Args[0]))
	return true
}

func (c *chain) param(x *Ctx, v *Val, i int) bool {
	v = stripConv(v)
	p := x.root().fn.Params
	return v != nil && i < len(p) && v.op == OParam && v.aux == p[i].Name()
}

// entryAddr: the element of a block's entries that an address is in.
func (c *chain) entryAddr(a *Val) *Val {
	for a != nil && a.op == OFAddr && (a.fld == c.seq || a.fld == c.exp) {
		a = a.args[0]
	}
	if a != nil && a.op == OIAddr && a.args[0].op == OFAddr && a.args[0].fld == c.entries {
		return a
	}
	return nil
}

func (c *chain) appending() {
	r := c.r
	f := c.append
	isEntryStore := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		a := st.Addr
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
		}
		ia, ok := a.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		fa, ok := ia.X.(*ssa.FieldAddr)
		return ok && faField(fa) == c.entries
	}
	h := &Hooks{Interesting: anyOf(fieldUse(c.blocks, c.windowIdx, c.topic, c.entries, c.next, c.count, c.seq, c.exp), isEntryStore, callIs(winOffset, "unitdb._WindowReader.readWindowBlock", "unitdb._WinBlock.validation"))}
	h.Call = func(cc *CallCtx) {
		switch {
		case c.winOffset(cc):
		case cc.Callee == c.read:
			cc.Opaque()
			off := cc.E.load(cc.St, cc.E.faddr(cc.Args[0], c.rdOff), c.rdOff.Type())
			own := c.param(cc.Ctx, off, 2) || c.offsetOf(off) != nil && cc.St.HasV("cur", c.offsetOf(off))
			if !own {
				cc.Report("c25:read-other", "another block than the one at the offset of the topic is read to append to it")
			}
			cc.ForkErr(func(s *State) { s.Add("read") }, func(s *State) { s.Add("unread") })
		case cc.Name == "unitdb._WinBlock.validation":
			cc.Opaque()
			cc.ForkErr(nil, func(s *State) { s.Add("unread") })
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		c.ord.assume(x, cond, truth)
		if m, ok := lookupOK(cond); ok && isFieldVal(m, c.blocks) {
			if truth {
				x.St.Add("present")
			} else {
				x.St.Add("absent")
			}
		}
		if cond.op == OBin && (cond.aux == "==" || cond.aux == "<") {
			a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
			switch {
			case isInt(c.perBlock)(b) && cond.aux == "==" && !truth, isInt(c.perBlock)(b) && cond.aux == "<" && truth:
				x.St.Add("room", a)
			case isInt(c.perBlock)(a) && cond.aux == "==" && !truth:
				x.St.Add("room", b)
			case isInt(c.perBlock-1)(a) && cond.aux == "<" && !truth: // not 334 < count
				x.St.Add("room", b)
			case isInt(c.perBlock)(b) && cond.aux == "==" && truth, isInt(c.perBlock)(b) && cond.aux == "<" && !truth,
				isInt(c.perBlock)(a) && cond.aux == "==" && truth, isInt(c.perBlock-1)(a) && cond.aux == "<" && truth:
				x.St.Add("full")
			}
			if v, ok := eqConst(cond, 0); ok && isFieldVal(stripConv(v), c.seq) && truth {
				x.St.Add("none")
			}
			if cond.aux == "<" && !truth && isInt(0)(a) && isFieldVal(b, c.seq) {
				x.St.Add("none")
			}
		}
	}
	h.MapRead = func(x *Ctx, m, k *Val) {
		if isFieldVal(m, c.blocks) && !x.St.Has("begun") {
			c.begin(x, stripConv(k))
		}
	}
	h.MapWrite = func(x *Ctx, m, k, v *Val) {
		if !isFieldVal(m, c.blocks) {
			return
		}
		if v == nil {
			x.Report("c25:dropped", "a window block is dropped while entries are appended")
			return
		}
		r.Count("window blocks kept", 1)
		if !x.St.HasV("cur", stripConv(k)) {
			x.Report("c25:key", "a window block is kept under an index that is not its own")
		}
		t := x.E.fieldOf(v, c.topic)
		if !c.param(x, t, 1) && !c.ord.has(x.St, "eq", isV(t), func(y *Val) bool { return c.param(x, y, 1) }) && !c.ord.has(x.St, "eq", func(y *Val) bool { return c.param(x, y, 1) }, isV(t)) {
			x.Report("c25:topic", "a window block is kept that does not carry the topic that was appended to")
		}
		x.St.Del("pending")
		x.St.Add("kept")
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if v == nil {
			return
		}
		if isFAddr(addr, c.windowIdx) {
			if !sumOf(v, isF(c.windowIdx), isInt(1), false) && !(stripConv(v).op == OBin && stripConv(v).aux == "+" && isInt(1)(stripConv(v).args[1])) {
				x.Report("c25:index", "a new window block does not take the next index")
			}
			if x.St.Has("pending") || x.St.Has("full") && !x.St.Has("kept") && x.St.Has("grown") {
				x.Report("c25:lost-block", "a new window block is begun before the one that is full is kept")
			}
			x.St.Del("prev")
			for _, k := range x.St.Find("cur") {
				x.St.Add("prev", k)
			}
			x.St.Del("cur")
			x.St.Add("cur", stripConv(v))
			return
		}
		el := c.entryAddr(addr)
		if el == nil {
			if isFAddr(addr, c.count) && v.op != OZero && !isInt(0)(v) {
				ok := false
				for _, i := range x.St.Find("stored at") {
					ok = ok || sumOf(v, isV(i), isInt(1), false) || constSum(v, i)
				}
				if !ok {
					x.Report("c25:count", "the number of entries of a window block does not go up by one with each entry")
				}
				x.St.Add("counted")
			}
			return
		}
		b := el.args[0].args[0]
		i := stripConv(el.args[1])
		r.Count("window entries appended", 1)
		n := stripConv(x.E.load(x.St, x.E.faddr(b, c.count), c.count.Type()))
		if n != i {
			x.Report("c25:place", "an entry is not put behind the last one of its window block")
		}
		// its own sequence and expiry
		for _, fl := range []*types.Var{c.seq, c.exp} {
			w := v
			if addr.op == OFAddr && addr != el {
				if addr.fld != fl {
					continue
				}
			} else {
				w = x.E.fieldOf(v, fl)
			}
			if !isFieldVal(stripConv(w), fl) || !w.contains(func(y *Val) bool { return c.param(x, y, 3) }) {
				x.Report("c25:entry", "what is put into a window block is not the entry that was appended")
			}
		}
		room := x.St.HasV("room", i)
		if k, ok := i.constInt(); ok && k < c.perBlock || i.op == OZero {
			room = !x.St.Has("full")
		}
		if x.St.Has("full") && !room {
			nx := x.E.load(x.St, x.E.faddr(b, c.next), c.next.Type())
			if c.offsetOf(nx) == nil || !x.St.HasV("prev", c.offsetOf(nx)) {
				x.Report("c25:link", "a new window block does not link to the block that is full")
			}
			if !isInt(0)(n) && n.op != OZero {
				x.Report("c25:overflow", "an entry is put into a window block that is full")
			}
		} else if !room {
			x.Report("c25:full", "an entry is put into a window block without knowing that there is room")
		}
		if !x.St.Has("cur") {
			x.Report("c25:no-block", "an entry is appended to no block")
		}
		c.started(x)
		x.St.Add("pending")
		x.St.Del("kept")
		x.St.Add("stored at", i)
		x.St.Add("grown")
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, isEntryStore) }
	h.LoopEnter = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			if v := rangedOver(l); v == nil || !c.param(x, x.E.eval(x.fr, v), 3) {
				x.Report("c25:range", "not all entries are appended")
			}
			x.St.Add("appending")
		}
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			if x.St.Has("stored at") && !x.St.Has("counted") {
				x.Report("c25:uncounted", "an entry is put into a window block without counting it")
			}
			for _, t := range []string{"room", "full", "stored at", "counted", "prev", "grown", "kept"} {
				x.St.Del(t)
			}
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.mayBeSuccess(fn, res) {
			return
		}
		r.Count("appends to topics", 1)
		if x.St.Has("unread") {
			x.Report("c25:unread", "appending to a topic can succeed although its newest block could not be read")
		}
		c.started(x)
		if x.St.Has("pending") {
			x.Report("c25:unkept", "the block that was appended to last is not kept")
		}
		if k := c.offsetOf(res[0]); k == nil || !x.St.HasV("cur", k) {
			x.Report("c25:returned", "appending returns another offset than that of the newest block")
		}
		if !x.St.Has("appending") {
			x.Report("c25:nothing", "appending can succeed without appending the entries")
		}
	}
	r.eachHooks(h, &each{name: "entries considered", key: "c25:skipped", what: "an entry can be left out when entries are appended to a topic", is: isLoop, done: []string{"counted once", "none"}})
	// the loop obligations are checked before the tags of the iteration are forgotten
	st := h.Store
	h.Store = func(x *Ctx, addr, v *Val) {
		st(x, addr, v)
		if x.St.Has("counted") {
			x.St.Add("counted once")
		}
	}
	r.Explore(h, f)
	r.Need("window entries appended", 1)
	r.Need("window blocks kept", 1)
	r.Need("appends to topics", 1)
}

// constSum: both are numbers and v is i+1.
func constSum(v, i *Val) bool {
	a, ok1 := stripConv(v).constInt()
	b, ok2 := stripConv(i).constInt()
	if !ok2 && i.op == OZero {
		b, ok2 = 0, true
	}
	return ok1 && ok2 && a == b+1
}

// begin: the block under the index is the one to go on with.
func (c *chain) begin(x *Ctx, k *Val) {
	x.St.Add("begun")
	if c.offZero(x) {
		if !x.St.HasV("cur", k) {
			x.Report("c25:first", "the first window block of a topic is not a new one")
		}
		return
	}
	ok := k.op == OBin && k.aux == "/" && c.param(x, k.args[0], 2) && isInt(c.size)(stripConv(k.args[1]))
	if !ok {
		x.Report("c25:start", "the block that is appended to is not the one at the offset of the topic")
	}
	x.St.Del("cur")
	x.St.Add("cur", k)
}

func (c *chain) offZero(x *Ctx) bool {
	off := func(v *Val) bool { return c.param(x, v, 2) }
	return c.ord.has(x.St, "eq", off, isInt(0)) || c.ord.has(x.St, "eq", isInt(0), off) || c.ord.has(x.St, "ge", isInt(0), off) || c.ord.has(x.St, "lt", off, isInt(1))
}

// started: the block at hand is the newest of the topic.
func (c *chain) started(x *Ctx) {
	if c.offZero(x) {
		if !x.St.Has("cur") {
			x.Report("c25:first", "the first window block of a topic is not a new one")
		}
		return
	}
	if x.St.Has("read") || x.St.Has("present") {
		return
	}
	beyond := c.ord.has(x.St, "lt", isF(c.windowIdx), func(v *Val) bool { return v.contains(func(y *Val) bool { return c.param(x, y, 2) }) })
	if !beyond {
		x.Report("c25:restarted", "a topic that has window blocks is continued with an empty block that does not link to them")
	}
}

// keeping: where entries are appended to topics.
func (c *chain) keeping() {
	r, p := c.r, c.r.P
	isApp := callIs("unitdb._WindowWriter.append")
	leads := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g == c.append || g != nil && p.reach(g)[c.append]
	}
	isLoop := func(l *loop, fn *ssa.Function) bool {
		v := rangedOver(l)
		if v == nil || !loopHas(l, leads) {
			return false
		}
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && isWinEntries(m.Elem())
	}
	roots := p.fns(func(f *ssa.Function) bool {
		for _, l := range p.loopsOf(f).loops {
			if isLoop(l, f) {
				return true
			}
		}
		return false
	})
	h := &Hooks{Interesting: anyOf(isApp, callIs("unitdb._Trie.getOffset"), fieldUse(c.offsets), mapUpdate(nil))}
	h.Call = func(cc *CallCtx) {
		switch {
		case cc.Callee == c.get:
			cc.Opaque()
			off, ok := cc.E.ext(cc.Res, 0, c.tOff.Type()), cc.E.ext(cc.Res, 1, types.Typ[types.Bool])
			hash := cc.Args[1]
			cc.Fork(func(s *State) {
				cc.E.setFact(s, ok, cc.E.vTrue)
				s.Del("offset")
				s.Add("offset", cc.E.pair("offset of", off, hash))
			})
			cc.Fork(func(s *State) { cc.E.setFact(s, ok, cc.E.vFalse); s.Del("offset"); s.Add("unknown") })
		case cc.Callee == c.append:
			cc.Opaque()
			r.Count("appends", 1)
			hash, off, es := cc.Args[1], cc.Args[2], cc.Args[3]
			if !cc.St.HasV("offset", cc.E.pair("offset of", off, hash)) {
				cc.Report("c25:append-at", "entries are appended to a topic at another offset than the one it has")
			}
			own := nextOf(es) != nil && nextOf(es) == nextOf(hash)
			if es.op == OExt && es.args[0].op == OLookup {
				es = es.args[0]
			}
			own = own || es.op == OLookup && es.args[1] == hash
			if !own {
				cc.Report("c25:append-other", "the entries of another topic are appended")
			}
			res := cc.E.ext(cc.Res, 0, c.tOff.Type())
			cc.ForkErr(func(s *State) { s.Add("appended", cc.E.pair("at", hash, res)) }, func(s *State) { s.Add("failed") })
		case cc.Callee != nil && cc.Callee.Blocks != nil && !cc.IsGo && cc.ErrRes() != nil && cc.Callee.Parent() == nil && !p.reach(cc.Callee)[c.append]:
			cc.Opaque()
			cc.ForkErr(nil, nil)
		}
	}
	h.MapWrite = func(x *Ctx, m, k, v *Val) {
		if !isFieldVal(m, c.offsets) {
			return
		}
		if v == nil || !x.St.HasV("appended", x.E.pair("at", k, v)) {
			x.Report("c25:kept-other", "the offset kept for a topic is not the one its entries were appended at")
			return
		}
		x.St.Add("recorded")
		x.St.Del("appended")
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if x.St.Has("appended") && x.mayBeSuccess(fn, res) {
			x.Report("c25:not-kept", "the new offset of a topic is not kept")
		}
		if x.St.Has("failed") && x.mayBeSuccess(fn, res) {
			x.Report("c25:append-failed", "failing to append the entries of a topic goes unnoticed")
		}
		x.St.Del("recorded")
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			if x.St.Has("appended") {
				x.Report("c25:not-kept", "the new offset of a topic is not kept")
			}
			if x.St.Has("unknown") {
				x.Report("c25:unknown", "the entries of a topic that is not in the topic index are dropped")
			}
			x.St.Del("appended")
			x.St.Del("offset")
			x.St.Del("unknown")
		}
	}
	r.eachHooks(h, &each{name: "topics appended to", key: "c25:topic-skipped", what: "a topic can be left out when entries are appended", is: isLoop, done: []string{"recorded"}, stop: []string{"failed", "unknown"}})
	r.Explore(h, roots...)
	r.Need("appends", 1)
	r.Need("topics appended to", 1)
}

// syncing: what a successful sync does with the offsets that were kept.
func (c *chain) syncing() {
	r, p := c.r, c.r.P
	isSet := callIs("unitdb._Trie.setOffset")
	h := &Hooks{Interesting: anyOf(isSet, fieldUse(c.offsets, c.complete, c.tHash, c.tOff))}
	h.Call = func(cc *CallCtx) {
		switch {
		case cc.Callee == c.set:
			cc.Opaque()
			k, v := stripConv(cc.E.fieldOf(cc.Args[1], c.tHash)), stripConv(cc.E.fieldOf(cc.Args[1], c.tOff))
			if nextOf(k) == nil || nextOf(k) != nextOf(v) || k.idx == v.idx {
				if !(v.op == OLookup && v.args[1] == k && isFieldVal(v.args[0], c.offsets)) {
					cc.Report("c25:set-other", "the offset that is set for a topic is not the one that was kept for it")
				}
			}
			r.Count("offsets set", 1)
			cc.St.Add("set")
		case cc.Callee != nil && cc.Callee.Blocks != nil && cc.Callee.Parent() == nil && cc.ErrRes() != nil && !p.reach(cc.Callee)[c.set]:
			cc.Opaque()
			cc.ForkErr(nil, nil)
		}
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, isSet) }
	h.LoopEnter = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			if !rangesField(l, c.offsets) {
				x.Report("c25:set-range", "not all offsets that were kept are set")
			}
			x.St.Add("setting")
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if isFAddr(addr, c.complete) {
			if b, ok := boolOf(v); ok && b {
				x.St.Add("complete")
				if !x.St.Has("setting") {
					x.Report("c25:not-set", "a sync is complete before the new offsets of its topics are set")
				}
			}
		}
	}
	r.eachHooks(h, &each{name: "kept offsets", key: "c25:set-skipped", what: "the new offset of a topic can be left unset by a sync", is: isLoop, done: []string{"set"}})
	r.Explore(h, c.sync)
	r.Need("offsets set", 1)
	r.Need("kept offsets", 1)
}

// indexing: the topic index.
func (c *chain) indexing() {
	r := c.r
	topicIs := func(cond *Val, pred func(a, b *Val) bool) bool {
		return cond.op == OBin && cond.aux == "==" && (pred(stripConv(cond.args[0]), stripConv(cond.args[1])) || pred(stripConv(cond.args[1]), stripConv(cond.args[0])))
	}
	inElem := func(v *Val) *Val { // the element of a slice a value or address is in
		var el *Val
		v.contains(func(y *Val) bool {
			if el == nil && y.op == OIAddr {
				el = y
			}
			return false
		})
		return el
	}
	// addUnique
	h := &Hooks{Interesting: anyOf(fieldUse(c.tHash, c.tOff), func(in ssa.Instruction) bool { return isBuiltin("append", nil)(in) })}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if truth && topicIs(cond, func(a, b *Val) bool {
			return isFieldVal(a, c.tHash) && inElem(a) != nil && isFieldVal(b, c.tHash) && b.contains(func(y *Val) bool { return c.param(x, y, 1) })
		}) {
			x.St.Add("same", inElem(cond).args[1])
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		el := inElem(addr)
		if addr.op == OFAddr && addr.fld == c.tOff && v != nil && el != nil {
			if isFieldVal(stripConv(v), c.tOff) && c.param(x, fieldBase(stripConv(v)), 1) && hasConv(x.St, "same", el.args[1]) {
				x.St.Add("updated")
			} else {
				x.Report("c25:update-other", "the offset of another topic is changed, or to something else")
			}
		}
		if el != nil && addr == el && v != nil && addrRoot(addr).op != OAlloc {
			if c.param(x, v, 1) && hasConv(x.St, "same", el.args[1]) {
				x.St.Add("updated")
			}
		}
	}
	h.Call = func(cc *CallCtx) {
		if cc.Name == "builtin.append" {
			vs := cc.varargs(cc.Args[1])
			if len(vs) == 1 && (c.param(cc.Ctx, vs[0], 1) || vs[0].contains(func(y *Val) bool { return c.param(cc.Ctx, y, 1) })) {
				cc.St.Add("updated")
			}
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("topics put into a set", 1)
		if !x.St.Has("updated") {
			x.Report("c25:not-updated", "a topic that is put into a set does not get its new offset")
		}
	}
	r.Explore(h, c.unique)
	r.Need("topics put into a set", 1)
	// setOffset, add
	for _, f := range []*ssa.Function{c.set, c.add} {
		f := f
		h := &Hooks{Interesting: anyOf(callIs("unitdb._Topics.addUnique"), fieldUse(c.summary, c.nodeTopics), mapUpdate(nil))}
		known := func(x *Ctx, k *Val) bool {
			k = stripConv(k)
			return k != nil && isFieldVal(k, c.tHash) && c.param(x, fieldBase(k), 1)
		}
		h.Assume = func(x *Ctx, cond *Val, truth bool) {
			if m, ok := lookupOK(cond); ok && isFieldVal(m, c.summary) && known(x, cond.args[0].args[1]) {
				if truth {
					x.St.Add("known")
				} else {
					x.St.Add("unknown")
				}
			}
		}
		h.Call = func(cc *CallCtx) {
			if cc.Callee != c.unique {
				return
			}
			cc.Opaque()
			if !c.param(cc.Ctx, cc.Args[1], 1) {
				cc.Report("c25:topic-other", "another topic than the one that was given is put into the topic index")
			}
			node := cc.Args[0]
			if fa, ok := stripSSA(cc.Common.Args[0]).(*ssa.FieldAddr); ok && faField(fa) == c.nodeTopics && !isFAddr(node, c.nodeTopics) {
				node = cc.E.faddr(cc.E.eval(cc.fr, fa.X), c.nodeTopics)
			}
			if !isFAddr(node, c.nodeTopics) {
				cc.Report("c25:topic-place", "a topic is not put into a node of the topic index")
				return
			}
			cc.St.Add("put", node.args[0])
			if f == c.add && !cc.St.Has("unknown") {
				cc.Report("c25:added-again", "adding a topic that is known can replace its offset")
			}
			if f == c.set {
				n := node.args[0]
				if !(n.op == OExt && n.args[0].op == OLookup || n.op == OLookup) || !n.contains(func(y *Val) bool { return isFieldVal(y, c.summary) }) {
					cc.Report("c25:set-node", "an offset is set in another node than that of the topic")
				}
			}
		}
		h.MapWrite = func(x *Ctx, m, k, v *Val) {
			if !isFieldVal(m, c.summary) {
				return
			}
			if v == nil || !known(x, k) {
				x.Report("c25:summary", "the topic index forgets a topic or keeps it under another hash")
				return
			}
			x.St.Add("indexed", v)
		}
		h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("changes of the topic index", 1)
			puts, ix := x.St.Find("put"), x.St.Find("indexed")
			if f == c.set {
				if x.St.Has("known") != (len(puts) > 0) {
					x.Report("c25:set-lost", "the offset of a topic that is known is not set")
				}
				if b, ok := boolOf(res[0]); (!ok && x.St.facts[res[0]] == nil || ok && b) && len(puts) == 0 {
					x.Report("c25:set-claimed", "an offset that was not set is reported as set")
				}
				return
			}
			if x.St.Has("known") {
				return
			}
			if len(puts) == 0 || len(ix) == 0 || puts[0] != ix[0] {
				x.Report("c25:add-lost", "a topic that is added is not put into the node that is kept for its hash")
			}
		}
		r.Explore(h, f)
	}
	r.Need("changes of the topic index", 1)
	// getOffset
	h = &Hooks{Interesting: anyOf(fieldUse(c.summary, c.nodeTopics, c.tHash, c.tOff))}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if topicIs(cond, func(a, b *Val) bool { return isFieldVal(a, c.tHash) && inElem(a) != nil && c.param(x, b, 1) }) {
			if truth {
				x.St.Add("same", inElem(cond).args[1])
			} else {
				x.St.Add("looked")
			}
		}
		if m, ok := lookupOK(cond); ok && isFieldVal(m, c.summary) && c.param(x, cond.args[0].args[1], 1) && truth {
			x.St.Add("known")
		}
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, fieldUse(c.tHash)) }
	h.LoopEnter = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			x.St.Add("searched")
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("offsets asked for", 1)
		if b, ok := boolOf(res[1]); ok && !b || x.St.facts[res[1]] == x.E.vFalse {
			if x.St.Has("same") || x.St.Has("known") && !x.St.Has("searched") {
				x.Report("c25:get-lost", "the offset of a topic that is known is not returned")
			}
			return
		}
		el := inElem(res[0])
		if !isFieldVal(stripConv(res[0]), c.tOff) || el == nil || !hasConv(x.St, "same", el.args[1]) {
			x.Report("c25:get-other", "the offset that is returned is not that of the topic")
		}
	}
	r.eachHooks(h, &each{name: "topics searched", key: "c25:search", what: "a topic can be left out when an offset is looked for", is: isLoop, done: []string{"looked"}, stop: []string{"same"}})
	r.Explore(h, c.get)
	r.Need("offsets asked for", 1)
}

// fieldBase: the struct (or its address) a field value is taken from.
func fieldBase(v *Val) *Val {
	switch v.op {
	case OLoad:
		return v.args[0].args[0]
	case OField, OFAddr:
		return v.args[0]
	}
	return nil
}

// loading: the offsets of topics when the database is opened.
func (c *chain) loading() {
	r, p := c.r, c.r.P
	load := r.Fn("unitdb.DB.loadTrie")
	topic := r.Fn("unitdb.DB.loadTopic")
	if load == nil || topic == nil {
		return
	}
	var cbs []*ssa.Function
	reach := p.reach(load)
	reach[load] = true
	for _, f := range p.funcs {
		if !reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == c.iter {
					if g := funcOf(ci.Common().Args[1]); g != nil {
						cbs = append(cbs, g)
					}
				}
			}
		}
	}
	h := &Hooks{Interesting: callIs("unitdb._Trie.setOffset", "unitdb._Trie.add", "unitdb.DB.loadTopic")}
	h.Call = func(cc *CallCtx) {
		own := func(t *Val) {
			k, v := stripConv(cc.E.fieldOf(t, c.tHash)), stripConv(cc.E.fieldOf(t, c.tOff))
			if !(c.cbParam(cc.Ctx, k, 1) && c.cbParam(cc.Ctx, v, 2)) {
				cc.Report("c25:load-other", "a topic gets the offset of another topic's block on open")
			}
		}
		switch cc.Callee {
		case c.set:
			cc.Opaque()
			own(cc.Args[1])
			res := cc.Res
			cc.Fork(func(s *State) { cc.E.setFact(s, res, cc.E.vTrue); s.Add("set") })
			cc.Fork(func(s *State) { cc.E.setFact(s, res, cc.E.vFalse); s.Add("new") })
		case c.add:
			cc.Opaque()
			own(cc.Args[1])
			res := cc.Res
			cc.Fork(func(s *State) { cc.E.setFact(s, res, cc.E.vTrue); s.Add("set") })
			cc.Fork(func(s *State) {
				cc.E.setFact(s, res, cc.E.vFalse)
				if s.Has("new") {
					s.Add("set")
				} else {
					s.Add("refused")
				}
			})
		case topic:
			cc.Opaque()
			t := cc.E.ext(cc.Res, 0, cc.Sig.Results().At(0).Type())
			er := cc.ErrRes()
			cc.Fork(func(s *State) { cc.E.setFact(s, er, cc.E.vNil); cc.E.setFact(s, t, cc.E.vNonNil) })
			cc.Fork(func(s *State) {
				cc.E.setFact(s, er, cc.E.vNil)
				cc.E.setFact(s, t, cc.E.vNil)
				s.Add("no topic")
			})
			cc.Fork(func(s *State) { cc.E.setFact(s, er, cc.E.vNonNil) })
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.mayBeSuccess(fn, res) {
			return
		}
		r.Count("blocks loaded", 1)
		if !x.St.Has("set") && !(x.St.Has("no topic") && x.St.Has("new")) {
			x.Report("c25:load-lost", "the offset of a topic is not that of its newest block after opening")
		}
		if b, ok := boolOf(res[0]); !ok || b {
			x.Report("c25:load-stops", "opening can leave out window blocks")
		}
	}
	if len(cbs) == 0 {
		r.Violate("anchor:loadTrie", "", "no function that is called for window blocks on open was found")
		return
	}
	r.Explore(h, cbs...)
	r.Need("blocks loaded", 1)

	// the iterator
	h = &Hooks{Interesting: anyOf(callsParam, callIs(winOffset, "unitdb._WindowReader.readWindowBlock"), fieldUse(c.rdOff, c.rdIdx, c.entries, c.count))}
	h.Call = func(cc *CallCtx) {
		switch {
		case c.winOffset(cc):
		case cc.Callee == c.read:
			cc.Opaque()
			off := cc.E.load(cc.St, cc.E.faddr(cc.Args[0], c.rdOff), c.rdOff.Type())
			i := c.offsetOf(off)
			if i == nil || i.op != OPhi && !isInt(0)(i) {
				cc.Report("c25:iter-index", "window blocks are not read one after the other")
			}
			cc.St.Del("block")
			b := cc.E.ext(cc.Res, 0, cc.Sig.Results().At(0).Type())
			cc.ForkErr(func(s *State) { s.Add("block", cc.E.pair("at", off, b)) }, func(s *State) { s.Add("unread") })
		case cc.Callee == nil && len(cc.Args) == 3:
			var at *Val
			for _, b := range cc.St.Find("block") {
				at = b
			}
			if at == nil || stripConv(cc.Args[2]) != stripConv(at.args[0]) || !isFieldVal(stripConv(cc.Args[1]), c.topic) || !cc.Args[1].contains(func(y *Val) bool { return y == at.args[1] }) {
				cc.Report("c25:iter-args", "a window block is visited with the topic or offset of another block")
			} else if es := cc.Args[0]; es.op != OSlice || es.args[1] != nil && !isInt(0)(es.args[1]) || es.args[2] == nil || !isF(c.count)(es.args[2]) {
				cc.Report("c25:iter-entries", "a window block is visited without all of its entries")
			}
			r.Count("blocks visited", 1)
			cc.Opaque()
			cc.St.Add("visited")
			stop := cc.E.ext(cc.Res, 0, types.Typ[types.Bool])
			er := cc.ErrRes()
			cc.Fork(func(s *State) { cc.E.setFact(s, er, cc.E.vNil); cc.E.setFact(s, stop, cc.E.vFalse) })
			cc.Fork(func(s *State) { cc.E.setFact(s, er, cc.E.vNil); cc.E.setFact(s, stop, cc.E.vTrue); s.Add("told") })
			cc.Fork(func(s *State) { cc.E.setFact(s, er, cc.E.vNonNil); s.Add("told") })
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if v, ok := eqConst(cond, 0); ok && truth && isFieldVal(stripConv(v), c.count) {
			x.St.Add("empty")
		}
		c.ord.assume(x, cond, truth)
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, callsParam) }
	h.LoopExit = func(x *Ctx, l *loop, fn *ssa.Function) {
		if !isLoop(l, fn) || x.In.Block() != l.head {
			return
		}
		idx := func(v *Val) bool { return v.op == OPhi || isInt(0)(v) }
		if !c.ord.has(x.St, "lt", isF(c.rdIdx), idx) && !c.ord.has(x.St, "ge", idx, isF(c.rdIdx)) && !c.ord.has(x.St, "eq", idx, isF(c.rdIdx)) {
			x.Report("c25:iter-ends", "visiting window blocks can end before the last one")
		}
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			for _, t := range []string{"lt", "ge", "eq", "ne", "block"} {
				x.St.Del(t)
			}
			n := 0
			for _, in := range l.head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					n++
					if !countsUp(ph, l) {
						x.Report("c25:iter-step", "window blocks are not visited one after the other from the first one")
					}
				}
			}
			if n == 0 {
				x.Report("c25:iter-step", "window blocks are not visited one after the other from the first one")
			}
		}
	}
	r.eachHooks(h, &each{name: "blocks iterated", key: "c25:iter-skipped", what: "a window block can be left out when window blocks are visited", is: isLoop, done: []string{"visited", "empty"}, stop: []string{"unread", "told"}})
	r.Explore(h, c.iter)
	r.Need("blocks visited", 1)
}

func (c *chain) cbParam(x *Ctx, v *Val, i int) bool { return c.param(x, v, i) }

// countsUp: the variable goes from 0 in steps of one, on every way around the loop.
func countsUp(ph *ssa.Phi, l *loop) bool {
	var step func(v ssa.Value, depth int) bool
	step = func(v ssa.Value, depth int) bool {
		if depth > 4 {
			return false
		}
		switch x := stripConvSSA(v).(type) {
		case *ssa.BinOp:
			k, ok := constOfSSA(x.Y)
			return x.Op == token.ADD && x.X == ssa.Value(ph) && ok && k == 1
		case *ssa.Phi:
			if x == ph {
				return false
			}
			for _, e := range x.Edges {
				if !step(e, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] {
			if !step(e, 0) {
				return false
			}
		} else if k, ok := constOfSSA(e); !ok || k > 0 {
			return false
		}
	}
	return true
}

// looking: lookups follow the links.
func (c *chain) looking() {
	r := c.r
	f := r.Fn("unitdb._TimeWindowBucket.lookup")
	mem := r.Fn("unitdb._TimeWindowBucket.ilookup")
	live := r.Fn("unitdb._TimeWindowBucket.addLive")
	dbLookup := r.Fn("unitdb.DB.lookup")
	find := r.Fn("unitdb._Trie.lookup")
	if f == nil || mem == nil || live == nil || dbLookup == nil || find == nil {
		return
	}
	h := &Hooks{Interesting: anyOf(callIs("unitdb._TimeWindowBucket.ilookup", "unitdb._TimeWindowBucket.addLive", "unitdb._Trie.getOffset", "unitdb._WindowReader.readWindowBlock", "unitdb._WinBlock.cutoff", "unitdb._FileSet.getFile", "unitdb._File.Size"), fieldUse(c.next, c.topic, c.entries, c.count, c.rdOff))}
	h.Call = func(cc *CallCtx) {
		switch {
		case cc.Callee == mem:
			cc.Opaque()
			if cc.St.Has("offset") {
				cc.Report("c25:order", "the offset of a topic is read before the entries in memory: entries synced in between are missed")
			}
			cc.St.Add("memory")
		case cc.Callee == live:
			cc.Opaque()
			for _, b := range cc.St.Find("block") {
				es := cc.Args[2]
				if es.op == OSlice && es.contains(func(y *Val) bool { return y == b }) && (es.args[1] == nil || isInt(0)(es.args[1])) && es.args[2] != nil && isF(c.count)(es.args[2]) {
					cc.St.Add("taken", b)
					return
				}
			}
			if cc.St.Has("block") {
				cc.Report("c25:partial", "a lookup takes only a part of the entries of a window block")
			}
		case cc.Callee == c.get:
			cc.Opaque()
			if !cc.St.Has("memory") {
				cc.Report("c25:order", "the offset of a topic is read before the entries in memory: entries synced in between are missed")
			}
			off, ok := cc.E.ext(cc.Res, 0, c.tOff.Type()), cc.E.ext(cc.Res, 1, types.Typ[types.Bool])
			if !c.param(cc.Ctx, cc.Args[1], 3) {
				cc.Report("c25:look-other", "a lookup reads the offset of another topic")
			}
			cc.Fork(func(s *State) { cc.E.setFact(s, ok, cc.E.vTrue); s.Add("offset", off) })
			cc.Fork(func(s *State) { cc.E.setFact(s, ok, cc.E.vFalse); s.Add("end") })
		case cc.Callee == c.read:
			cc.Opaque()
			off := stripConv(cc.E.load(cc.St, cc.E.faddr(cc.Args[0], c.rdOff), c.rdOff.Type()))
			ok := false
			if bs := cc.St.Find("block"); len(bs) > 0 {
				ok = isFieldVal(off, c.next) && off.contains(func(y *Val) bool { return y == bs[0] })
				if !cc.St.HasV("taken", bs[0]) {
					cc.Report("c25:block-skipped", "a lookup goes to the next window block without taking the entries of the one before")
				}
			} else {
				ok = cc.St.HasV("offset", off)
			}
			if !ok {
				cc.Report("c25:follow", "a lookup reads another window block than the newest one of the topic or the one that the block before links to")
			}
			r.Count("blocks looked at", 1)
			cc.St.Del("block")
			cc.St.Del("taken")
			b := cc.E.ext(cc.Res, 0, cc.Sig.Results().At(0).Type())
			cc.ForkErr(func(s *State) { s.Add("block", b) }, nil)
		case cc.Name == "unitdb._WinBlock.cutoff":
			cc.Opaque()
			res := cc.Res
			cc.Fork(func(s *State) { cc.E.setFact(s, res, cc.E.vTrue); s.Add("end") })
			cc.Fork(func(s *State) { cc.E.setFact(s, res, cc.E.vFalse) })
		case cc.Name == "unitdb._FileSet.getFile":
			cc.Opaque()
			cc.ForkErr(nil, nil)
		case cc.Name == "unitdb._File.Size":
			cc.Opaque()
			cc.SetResult(cc.E.pair("size", cc.Args...))
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		c.ord.assume(x, cond, truth)
		if cond.op != OBin {
			return
		}
		a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
		for k := 0; k < 2; k++ {
			switch {
			case cond.aux == "==" && isFieldVal(a, c.next) && isInt(0)(b) && truth:
				x.St.Add("end")
			case cond.aux == "<" && k == 1 && isFieldVal(a, c.next) && isInt(0)(b) && !truth: // not 0 < next
				x.St.Add("end")
			case cond.aux == "==" && isFieldVal(a, c.topic) && c.param(x, b, 3) && !truth:
				x.St.Add("end")
			case cond.aux == "<" && k == 0 && a.op == OLen && c.param(x, b, 5) && !truth:
				x.St.Add("end") // enough
			case cond.aux == "==" && findPair(a, "size") != nil && isInt(0)(b) && truth:
				x.St.Add("end")
			case cond.aux == "<" && k == 1 && a == findPair(a, "size") && isInt(0)(b) && !truth:
				x.St.Add("end")
			}
			a, b = b, a
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.mayBeSuccess(fn, res) {
			return
		}
		r.Count("lookups", 1)
		if !x.St.Has("memory") {
			x.Report("c25:no-memory", "a lookup does not look at the entries in memory")
		}
		if !x.St.Has("end") {
			x.Report("c25:ends-early", "a lookup can end although it has not enough entries and the topic has further window blocks")
		}
	}
	r.Explore(h, f)
	r.Need("lookups", 1)
	r.Need("blocks looked at", 1)
	// all topics of a query
	isLook := callIs("unitdb._TimeWindowBucket.lookup")
	h = &Hooks{Interesting: anyOf(isLook, callIs("unitdb._Trie.lookup"), fieldUse(c.tHash))}
	h.Call = func(cc *CallCtx) {
		switch cc.Callee {
		case find:
			cc.Opaque()
			cc.St.Add("topics", cc.Res)
		case f:
			cc.Opaque()
			hash := stripConv(cc.Args[3])
			ok := false
			for _, t := range cc.St.Find("topics") {
				ok = ok || isFieldVal(hash, c.tHash) && hash.contains(func(y *Val) bool { return y == t })
			}
			if !ok {
				cc.Report("c25:query-topic", "a query looks up something else than a topic that matches it")
			}
			cc.ForkErr(func(s *State) { s.Add("looked up") }, func(s *State) { s.Add("failed") })
		}
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, isLook) }
	h.LoopEnter = func(x *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			v := rangedOver(l)
			if v == nil || !x.St.HasV("topics", x.E.eval(x.fr, v)) {
				x.Report("c25:query-range", "a query does not look up all topics that match it")
			}
		}
	}
	r.eachHooks(h, &each{name: "topics of queries", key: "c25:query-skipped", what: "a topic that matches a query can be left out", is: isLoop, done: []string{"looked up"}, stop: []string{"failed"}})
	r.Explore(h, dbLookup)
	r.Need("topics of queries", 1)
}
