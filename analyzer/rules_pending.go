package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = checkC26
}

// pending: entries that were put are found until they are synced.
type pending struct {
	r                                           *Run
	entries                                     *types.Var // of the windows in memory
	time, topic                                 *types.Var // of their keys
	hash, seq, size, cut                        *types.Var
	add, shard, mem, live, release, cutoff, put *ssa.Function
	ord                                         order
}

func checkC26(r *Run) {
	r.Rule("grouping: a list kept in a map for a key is only replaced by one that begins with it, or put there when the key is known to be absent")
	r.Rule("what is recorded in the window is the entry that was given, under its topic and time block, in the shard of the topic; storing an entry succeeds only after it was recorded, with the time block it was stored in, and after its topic was indexed if it is a new one")
	r.Rule("a query visits every time block of its topic that is recorded")
	r.Rule("what a sync releases was recorded before it began looking at the pending entries, is released for the time block that was synced only, and grouped under its own time block")
	r.Rule("an old block ends the search only if it is full (has a cutoff) and older than the cutoff of the query")
	k := &pending{r: r}
	k.entries = r.Field("unitdb", "_TimeWindow", "entries")
	k.time, k.topic = r.Field("unitdb", "_Key", "timeID"), r.Field("unitdb", "_Key", "topicHash")
	k.hash, k.seq, k.size = r.Field("unitdb", "_Entry", "topicHash"), r.Field("unitdb", "_Entry", "seq"), r.Field("unitdb", "_Entry", "topicSize")
	k.cut = r.Field("unitdb", "_WinBlock", "cutoffTime")
	k.add, k.shard = r.Fn("unitdb._TimeWindowBucket.add"), r.Fn("unitdb._WindowBlocks.getWindowBlock")
	k.mem, k.live = r.Fn("unitdb._TimeWindowBucket.ilookup"), r.Fn("unitdb._TimeWindowBucket.addLive")
	k.release, k.cutoff = r.Fn("unitdb._TimeWindowBucket.release"), r.Fn("unitdb._WinBlock.cutoff")
	if len(r.vios) > 0 {
		return
	}
	k.grouping()
	k.recording()
	k.storing()
	k.visiting()
	k.releasing()
	k.old()
}

func isListMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return !ok || b.Kind() != types.Byte
}

// grouping: lists kept in maps do not lose elements.
func (k *pending) grouping() {
	r := k.r
	isUp := mapUpdate(func(m *ssa.MapUpdate) bool { return isListMap(m.Map.Type()) })
	h := &Hooks{Interesting: isUp}
	same := func(a, b *Val) bool { return stripConv(a) == stripConv(b) }
	absent := func(x *Ctx, m, key *Val) *Val { return x.E.pair("absent", stripConv(m), stripConv(key)) }
	old := func(x *Ctx, v, m, key *Val) bool { // v begins with what is kept
		for v != nil {
			v = stripConv(v)
			switch {
			case v.op == OAppend && len(v.args) > 0:
				v = v.args[0]
				continue
			case v.op == OLookup:
				return same(v.args[0], m) && same(v.args[1], key)
			case v.op == OExt && v.args[0].op == OLookup:
				return v.idx == 0 && same(v.args[0].args[0], m) && same(v.args[0].args[1], key)
			case nextOf(v) != nil:
				return nextOf(v) == nextOf(stripConv(key))
			}
			return x.St.HasV("copied", v)
		}
		return false
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if m, ok := lookupOK(cond); ok && !truth {
			x.St.Add("absent", absent(x, m, cond.args[0].args[1]))
		}
		if cond.op == OBin && cond.aux == "==" {
			for i := 0; i < 2; i++ {
				a, b := cond.args[i], cond.args[1-i]
				if a.op == OLen {
					a = a.args[0]
				} else if b.op != ONil {
					continue
				}
				if truth && (b.op == ONil || isInt(0)(b)) && a.op == OLookup {
					x.St.Add("absent", absent(x, a.args[0], a.args[1]))
				}
			}
		}
		if cond.op == OBin && cond.aux == "<" && !truth && isInt(0)(cond.args[0]) && cond.args[1].op == OLen && cond.args[1].args[0].op == OLookup {
			l := cond.args[1].args[0]
			x.St.Add("absent", absent(x, l.args[0], l.args[1]))
		}
	}
	h.Call = func(c *CallCtx) {
		if c.Name == "builtin.copy" && c.Args[1].contains(func(v *Val) bool { return v.op == OLookup }) {
			c.St.Add("copied", stripConv(c.Args[0]))
		}
		if c.Name == "builtin.append" && c.Res != nil && len(c.Args) == 2 && c.Args[0].op == OSlice && c.Args[1].contains(func(v *Val) bool { return v.op == OLookup }) {
			c.St.Add("copied", c.Res)
		}
	}
	h.MapWrite = func(x *Ctx, m, key, v *Val) {
		up, ok := x.In.(*ssa.MapUpdate)
		if !ok || v == nil || !isListMap(up.Map.Type()) {
			return
		}
		r.Count("lists kept", 1)
		if old(x, v, m, key) {
			return
		}
		if x.St.HasV("absent", absent(x, m, key)) {
			return
		}
		x.Report("c26:replaced:"+fname(x.In.Parent()), "the list kept for a key can be replaced by one without its elements in %s", fname(x.In.Parent()))
	}
	for _, f := range r.P.funcs {
		if pk := pkgOf(f); pk != "unitdb" && pk != "memdb" && pk != "wal" {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				has = has || isUp(in)
			}
		}
		if has {
			r.Explore(h, f)
		}
	}
	r.Need("lists kept", 6)
}


// recording: what add puts into the window.
func (k *pending) recording() {
	r := k.r
	f := k.add
	h := &Hooks{Interesting: anyOf(fieldUse(k.entries), callIs("unitdb._WindowBlocks.getWindowBlock"))}
	par := func(v *Val, i int) bool {
		v = stripConv(v)
		return v != nil && v.op == OParam && v.aux == f.Params[i].Name()
	}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == k.shard:
			c.Opaque()
			if par(c.Args[1], 2) {
				c.St.Add("shard", c.Res)
			}
		}
	}
	h.MapWrite = func(x *Ctx, m, key, v *Val) {
		if !isFieldVal(m, k.entries) || v == nil {
			return
		}
		r.Count("entries recorded", 1)
		own := false
		for _, s := range x.St.Find("shard") {
			own = own || m.contains(func(y *Val) bool { return y == s })
		}
		if !own {
			x.Report("c26:shard", "an entry is recorded in another shard than the one of its topic")
		}
		whole := func(v *Val, i int) bool { return v.op == OParam && par(v, i) }
		if !whole(x.E.fieldOf(key, k.time), 1) || !whole(x.E.fieldOf(key, k.topic), 2) {
			x.Report("c26:key", "an entry is recorded under another topic or time block than its own")
		}
		with := false
		for _, w := range x.lastOf(v) {
			with = with || par(w, 3)
		}
		if !with {
			x.Report("c26:other", "what is recorded is not the entry that was given")
		} else {
			x.St.Add("recorded")
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if len(res) == 1 {
			if b, ok := boolOf(res[0]); ok && !b || x.St.facts[res[0]] == x.E.vFalse {
				return
			}
		}
		r.Count("recording exits", 1)
		if !x.St.Has("recorded") {
			x.Report("c26:unrecorded", "an entry can be reported as recorded without having been")
		}
	}
	r.Explore(h, f)
	r.Need("entries recorded", 1)
	r.Need("recording exits", 1)
}

// storing: an entry that is stored is recorded.
func (k *pending) storing() {
	r, p := k.r, k.r.P
	const dbPut, bPut, tid, newWE, trieAdd, newTopic = "memdb.DB.Put", "memdb.Batch.Put", "memdb.Batch.TimeID", "unitdb.newWinEntry", "unitdb._Trie.add", "unitdb.newTopic"
	isAdd := callIs("unitdb._TimeWindowBucket.add")
	stores := callIs(dbPut, bPut)
	base := func(v *Val, fl *types.Var) *Val { // the entry a field is of
		v = stripConv(v)
		switch {
		case v == nil:
		case v.op == OLoad && v.args[0].op == OFAddr && v.args[0].fld == fl:
			return v.args[0].args[0]
		case v.op == OField && v.fld == fl:
			return v.args[0]
		}
		return nil
	}
	h := &Hooks{Interesting: anyOf(isAdd, stores, callIs(trieAdd, tid))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == dbPut:
			c.Opaque()
			t, b := c.E.ext(c.Res, 0, types.Typ[types.Int64]), base(c.Args[1], k.seq)
			if b == nil {
				return // not an entry
			}
			r.Count("entries stored", 1)
			c.ForkErr(func(s *State) {
				s.Add("stored")
				s.Add("block", stripConv(t))
				s.Add("entry", b)
			}, func(s *State) { s.Add("failed") })
		case c.Name == bPut:
			c.Opaque()
			b := base(c.Args[1], k.seq)
			if b == nil {
				return
			}
			r.Count("entries stored", 1)
			c.ForkErr(func(s *State) {
				s.Add("stored")
				s.Add("entry", b)
			}, func(s *State) { s.Add("failed") })
		case c.Name == tid:
			c.Opaque()
			c.St.Add("block", c.Res)
		case c.Name == "unitdb._Entry.UnmarshalBinary":
			c.Opaque()
		case c.Name == newWE:
			c.SetResult(c.E.pair("window entry", c.Args...))
		case c.Name == newTopic:
			c.SetResult(c.E.pair("topic", c.Args...))
		case c.Name == trieAdd:
			c.Opaque()
			c.St.Add("indexed")
		case c.Callee == k.add:
			c.Opaque()
			r.Count("entries to record", 1)
			we := stripConv(c.Args[3])
			var b *Val
			if we.op == OComp && we.aux == "pair:window entry" {
				b = base(we.args[0], k.seq)
			}
			if t := base(c.Args[2], k.hash); b == nil || t != b {
				c.Report("c26:mixed:"+fname(c.In.Parent()), "an entry is recorded under another topic than its own")
			}
			if es := c.St.Find("entry"); len(es) > 0 && b != nil {
				own := false
				for _, e := range es {
					own = own || e == b
				}
				if !own {
					c.Report("c26:another:"+fname(c.In.Parent()), "another entry is recorded than the one that was stored")
				}
			}
			if t := stripConv(c.Args[1]); !c.St.HasV("block", t) {
				c.Report("c26:time:"+fname(c.In.Parent()), "an entry is recorded under another time block than the one it was stored in")
			}
			res := c.Res
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vTrue); s.Add("recorded") })
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vFalse); s.Add("failed") })
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if v, ok := eqConst(cond, 0); ok && truth && isFieldVal(stripConv(v), k.size) {
			x.St.Add("known topic")
		}
		if cond.op == OBin && cond.aux == "<" && !truth && isInt(0)(cond.args[0]) && isFieldVal(stripConv(cond.args[1]), k.size) {
			x.St.Add("known topic")
		}
	}
	told := func(x *Ctx, fn *ssa.Function) {
		r.Count("storing exits", 1)
		if !x.St.Has("recorded") {
			x.Report("c26:not-recorded:"+fname(fn), "%s can store an entry without recording it in the window", fname(fn))
		}
		if !x.St.Has("indexed") && !x.St.Has("known topic") {
			x.Report("c26:not-indexed:"+fname(fn), "%s can store an entry of a new topic without adding the topic to the index", fname(fn))
		}
	}
	h.Back = func(x *Ctx, l *loop, fn *ssa.Function) { // the next entry
		if x.St.Has("stored") && !x.St.Has("failed") {
			told(x, fn)
			for _, t := range []string{"stored", "recorded", "indexed", "known topic", "entry"} {
				x.St.Del(t)
			}
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.mayBeSuccess(fn, res) {
			return
		}
		if x.St.Has("failed") {
			x.Report("c26:not-told:"+fname(fn), "%s can report success although an entry could not be stored or recorded", fname(fn))
			return
		}
		if x.St.Has("stored") || x.St.Has("recorded") {
			told(x, fn)
		}
	}
	roots, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] {
			return
		}
		seen[f] = true
		cs := p.callers(f)
		if isExported(f) || len(cs) == 0 {
			roots[f] = true
			return
		}
		for _, c := range cs { // a helper
			up(c)
		}
	}
	for _, f := range p.funcs {
		if pkgOf(f) == "unitdb" && fnReaches2(f, isAdd) {
			up(f)
		}
	}
	for f := range roots {
		r.Explore(h, f)
	}
	r.Need("entries stored", 2)
	r.Need("entries to record", 2)
	r.Need("storing exits", 2)
}

// fnReaches2: the function itself, not its closures or callees, has such an instruction.
func fnReaches2(f *ssa.Function, is func(ssa.Instruction) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
	}
	return false
}

// visiting: a query looks at every time block.
func (k *pending) visiting() {
	r := k.r
	f := k.mem
	h := &Hooks{Interesting: anyOf(fieldUse(k.entries), callIs("unitdb._WindowBlocks.getWindowBlock", "unitdb._TimeWindowBucket.addLive"))}
	par := func(v *Val, i int) bool {
		v = stripConv(v)
		return v != nil && v.op == OParam && v.aux == f.Params[i].Name()
	}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == k.shard:
			c.Opaque()
			if !par(c.Args[1], 1) {
				c.Report("c26:look-shard", "a query looks into another shard than the one of its topic")
			}
		case c.Callee == k.live:
			c.Opaque()
			es := stripConv(c.Args[2])
			if es.op == OSlice {
				c.Report("c26:look-part", "a query looks at a part of the entries of a time block only")
			}
			if es.op == OLookup && nextOf(stripConv(es.args[1])) != nil || nextOf(es) != nil {
				c.St.Add("looked at")
			}
		}
	}
	h.Assume = func(x *Ctx, cond *Val, truth bool) {
		if cond.op != OBin || cond.aux != "==" || truth {
			return
		}
		a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
		for i := 0; i < 2; i++ {
			if par(b, 1) && isFieldVal(a, k.topic) && a.contains(func(y *Val) bool { return nextOf(y) != nil }) {
				x.St.Add("other topic")
			}
			a, b = b, a
		}
	}
	is := func(l *loop, fn *ssa.Function) bool { return rangesField(l, k.entries) }
	r.eachHooks(h, &each{name: "time blocks looked at", key: "c26:time-block-skipped", what: "a query can leave out a time block of its topic", is: is, done: []string{"looked at", "other topic"}})
	r.Explore(h, f)
	r.Need("time blocks looked at", 1)
}

// releasing: what a sync takes out of the window.
func (k *pending) releasing() {
	r, p := k.r, k.r.P
	// the list
	h := &Hooks{Interesting: anyOf(fieldUse(k.entries), mapUpdate(nil))}
	listed := func(x *Ctx, key, v *Val) bool {
		key = stripConv(key)
		if !isFieldVal(key, k.time) {
			return false
		}
		b := fieldBase(key)
		for _, w := range x.lastOf(v) {
			if stripConv(w) == stripConv(b) {
				return true
			}
		}
		return false
	}
	h.MapWrite = func(x *Ctx, m, key, v *Val) {
		if v == nil {
			if isFieldVal(m, k.entries) {
				x.Report("c26:early-release", "entries are released before they were synced")
			}
			return
		}
		up, ok := x.In.(*ssa.MapUpdate)
		if !ok || !isListMap(up.Map.Type()) {
			return
		}
		r.Count("keys listed for release", 1)
		if !listed(x, key, v) {
			x.Report("c26:list", "a recorded key is listed for release under another time block than its own, or another is listed")
		}
	}
	r.Explore(h, k.release)
	r.Need("keys listed for release", 1)

	// the release
	for _, a := range k.release.AnonFuncs {
		a := a
		if len(a.Params) != 1 {
			continue
		}
		h := &Hooks{Interesting: mapUpdate(nil)}
		h.MapWrite = func(x *Ctx, m, key, v *Val) {
			if !isFieldVal(m, k.entries) {
				return
			}
			r.Count("keys released", 1)
			ok := v == nil && key.contains(func(y *Val) bool {
				return y.op == OLookup && stripConv(y.args[1]).op == OParam && stripConv(y.args[1]).aux == a.Params[0].Name()
			})
			if !ok {
				x.Report("c26:release", "a key is released that is not listed for the time block that was synced")
			}
		}
		h.Interesting = anyOf(fieldUse(k.entries))
		r.Explore(h, a)
	}
	r.Need("keys released", 1)

	// when
	iter := "memdb.DB.BlockIterator"
	sh := &Hooks{Interesting: callIs("unitdb._TimeWindowBucket.release", iter)}
	sh.Call = func(c *CallCtx) {
		switch {
		case c.Callee == k.release:
			c.Opaque()
			c.St.Add("listed")
		case c.Name == iter:
			c.Opaque()
			r.Count("syncs of pending entries", 1)
			if !c.St.Has("listed") {
				c.Report("c26:listed-late", "the keys to release are listed after a sync began looking at the pending entries: entries put in between are released without having been synced")
			}
			c.ForkErr(nil, nil)
		}
	}
	users := map[*ssa.Function]bool{}
	for _, ci := range p.callsTo("unitdb._TimeWindowBucket.release") {
		f := ci.Parent()
		for f.Parent() != nil {
			f = f.Parent()
		}
		users[f] = true
	}
	for f := range users {
		r.Explore(sh, f)
		for _, g := range f.AnonFuncs {
			if fnReaches2(g, callIs("unitdb._TimeWindowBucket.release")) {
				r.Violate("c26:listed-late", r.P.pos(g.Pos()), "the keys to release are listed while a sync is looking at the pending entries")
			}
		}
	}
	r.Need("syncs of pending entries", 1)
}

// old: when a block is too old.
func (k *pending) old() {
	r := k.r
	f := k.cutoff
	h := &Hooks{Interesting: func(ssa.Instruction) bool { return true }}
	h.Assume = func(x *Ctx, cond *Val, truth bool) { k.ord.assume(x, cond, truth) }
	cut := func(v *Val) bool {
		v = stripConv(v)
		return v.op == OParam && v.aux == f.Params[1].Name()
	}
	own := isF(k.cut)
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("cutoff outcomes", 1)
		v := res[0]
		if b, ok := boolOf(v); ok && !b || x.St.facts[v] == x.E.vFalse {
			return
		}
		less := k.ord.has(x.St, "lt", own, cut)
		set := k.ord.has(x.St, "ne", own, isInt(0)) || k.ord.has(x.St, "ne", isInt(0), own) || k.ord.has(x.St, "lt", isInt(0), own)
		if v.op == OBin && v.aux == "<" {
			a, b := stripConv(v.args[0]), stripConv(v.args[1])
			less = less || own(a) && cut(b)
			set = set || isInt(0)(a) && own(b)
		}
		if v.op == ONot {
			if z, ok := eqConst(v.args[0], 0); ok && own(stripConv(z)) {
				set = true
			}
		}
		if !set {
			x.Report("c26:not-full", "a search can end at a window block that has no cutoff")
		}
		if !less {
			x.Report("c26:not-old", "a search can end at a window block that is not older than the cutoff of the query")
		}
	}
	r.Explore(h, f)
	r.Need("cutoff outcomes", 1)
}

// lastOf are the elements a list was last extended by, or made of.
func (c *Ctx) lastOf(v *Val) []*Val {
	if v = stripConv(v); v.op == OAppend && len(v.args) == 2 {
		return c.varargs(v.args[1])
	}
	return c.varargs(v)
}
