package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = checkC24
}

func checkC24(r *Run) {
	r.Rule("a batch run by a function: while the function runs the batch is managed; when it returned an error the batch is aborted, its completion signalled once, and the error returned; when it succeeded the batch is committed once and the outcome of the commit returned")
	r.Rule("commit signals completion exactly once and aborts the batch on every way out, and succeeds only when the batch was written and the log of the batch committed; abort releases every block the batch has written or is writing and does nothing when the batch is complete")
	r.Rule("writing a batch goes over every entry of the batch in the order in which they were added and applies each: a put goes to memory and into the time window under the number of the entry, a delete to the database")
	r.Rule("an operation that adds to a batch adds exactly one entry when it succeeds, none when it fails, and marks deletions as such")
	for _, pkg := range []string{"unitdb", "memdb"} {
		r.batchManaged(pkg)
		r.batchCommit(pkg)
	}
	r.Need("batch functions", 1)
	r.Need("commits", 1)
	r.memBatchWrite()
	r.batchAborts()
	r.batchApplies()
	r.batchAdds()
}

func isClose(f *types.Var) func(in ssa.Instruction) bool {
	return isBuiltin("close", func(ci ssa.CallInstruction) bool { return ssaField(ci.Common().Args[0]) == f })
}

// batchManaged: DB.Batch of both packages.
func (r *Run) batchManaged(pkg string) {
	f := r.Fn(pkg + ".DB.Batch")
	done := r.Field(pkg, "Batch", "commitComplete")
	managed := r.Field(pkg, "Batch", "managed")
	if f == nil || done == nil || managed == nil {
		return
	}
	commit, abort := pkg+".Batch.Commit", pkg+".Batch.Abort"
	h := &Hooks{Interesting: anyOf(callsParam, callIs(commit, abort), isBuiltin("close", nil), fieldUse(managed))}
	isManaged := func(c *CallCtx, b *Val, want bool) bool {
		v := c.E.load(c.St, c.E.faddr(b, managed), managed.Type())
		k := c.E.evalBool(c.St, v)
		return k == 1 && want || k == 2 && !want
	}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == commit:
			c.Opaque()
			if !c.St.Has("fn ok") || c.St.Has("committed") || c.St.Has("aborted") {
				c.Report("c24:commit", "a batch is committed although its function did not succeed, or twice")
			}
			if !isManaged(c, c.Args[0], false) {
				c.Report("c24:still-managed", "a batch is committed while it is still managed")
			}
			c.St.Add("committed")
			c.St.Add("signalled")
			c.ForkErr(func(s *State) { s.Add("commit ok") }, nil)
		case c.Name == abort:
			c.Opaque()
			if !c.St.Has("fn failed") || c.St.Has("aborted") {
				c.Report("c24:abort", "a batch is aborted although its function did not fail, or twice")
			}
			if !isManaged(c, c.Args[0], false) {
				c.Report("c24:still-managed", "a batch is aborted while it is still managed")
			}
			c.St.Add("aborted")
			if c.ErrRes() != nil {
				c.ForkErr(nil, nil)
			}
		case c.Name == "builtin.close":
			c.Opaque()
			if isFieldVal(c.Args[0], done) {
				if c.St.Has("signalled") {
					c.Report("c24:twice", "the completion of a batch is signalled twice")
				}
				c.St.Add("signalled")
			}
		case c.Callee == nil && len(c.Args) == 2 && typeName(deref(c.Common.Args[0].Type())) == "Batch":
			c.Opaque()
			r.Count("batch functions", 1)
			if !isManaged(c, c.Args[0], true) {
				c.Report("c24:not-managed", "the function of a batch is run with a batch it can commit or abort itself")
			}
			ch := c.Args[1]
			for ch.op == OConv {
				ch = ch.args[0]
			}
			if !isFieldVal(ch, done) {
				c.Report("c24:channel", "the function of a batch does not get the channel on which completion is signalled")
			}
			er := c.ErrRes()
			c.ForkErr(func(s *State) { s.Add("fn ok") }, func(s *State) { s.Add("fn failed", er) })
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		ev, _ := c.errValue(fn, res)
		failed := c.St.Find("fn failed")
		switch {
		case len(failed) > 0:
			r.Count("batch functions", 1)
			if !c.St.Has("aborted") {
				c.Report("c24:not-aborted", "a batch whose function failed is not aborted")
			}
			if !c.St.Has("signalled") {
				c.Report("c24:not-signalled", "the completion of a batch whose function failed is not signalled")
			}
			if ev != failed[0] {
				c.Report("c24:error", "a batch does not return the error of its function")
			}
		case c.St.Has("fn ok"):
			r.Count("batch functions", 1)
			if !c.St.Has("committed") {
				c.Report("c24:not-committed", "a batch whose function succeeded is not committed")
			} else if c.mayBeSuccess(fn, res) != c.St.Has("commit ok") {
				c.Report("c24:outcome", "a batch does not return the outcome of its commit")
			}
		default:
			if c.mayBeSuccess(fn, res) {
				c.Report("c24:not-run", "a batch can succeed without running its function")
			}
		}
	}
	r.Explore(h, f)
}

// batchCommit: Batch.Commit of both packages.
func (r *Run) batchCommit(pkg string) {
	f := r.Fn(pkg + ".Batch.Commit")
	done := r.Field(pkg, "Batch", "commitComplete")
	if f == nil || done == nil {
		return
	}
	write, abort := pkg+".Batch.Write", pkg+".Batch.Abort"
	h := &Hooks{Interesting: anyOf(callIs(write, abort, "memdb.Batch.Commit", "memdb._TimeMark.add", "memdb._TimeMark.release"), isBuiltin("close", nil))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Callee == f:
		case c.Name == write:
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("written") }, nil)
		case c.Name == "memdb.Batch.Commit":
			c.Opaque()
			if !c.St.Has("written") {
				c.Report("c24:commit-early", "the log of a batch is committed before the entries of the batch are written")
			}
			c.ForkErr(func(s *State) { s.Add("log committed") }, nil)
		case c.Name == abort:
			c.Opaque()
			if c.St.Has("aborted") {
				c.Report("c24:aborted-twice", "a batch is aborted twice when it is committed")
			}
			c.St.Add("aborted")
			if c.ErrRes() != nil {
				c.ForkErr(nil, nil)
			}
		case c.Name == "memdb._TimeMark.add":
			c.Opaque()
			c.St.Add("added", c.Args[1])
		case c.Name == "memdb._TimeMark.release":
			c.Opaque()
			if c.St.HasV("added", c.Args[1]) {
				c.St.Add("marked")
			}
		case c.Name == "builtin.close":
			c.Opaque()
			if isFieldVal(c.Args[0], done) {
				if c.St.Has("signalled") {
					c.Report("c24:twice", "the completion of a batch is signalled twice")
				}
				c.St.Add("signalled")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("commits", 1)
		if !c.St.Has("signalled") {
			c.Report("c24:not-signalled", "a commit can return without signalling completion")
		}
		if !c.St.Has("aborted") {
			c.Report("c24:not-aborted", "a commit can return without cleaning up the batch")
		}
		if !c.mayBeSuccess(fn, res) {
			return
		}
		if !c.St.Has("written") {
			c.Report("c24:not-written", "a commit can succeed although the batch was not written")
		}
		if pkg == "unitdb" && !c.St.Has("log committed") {
			c.Report("c24:log", "a commit can succeed although the log of the batch was not committed")
		}
		if pkg == "memdb" && !c.St.Has("marking") {
			c.Report("c24:not-marked", "a commit can succeed without marking the blocks of the batch as committed")
		}
	}
	if pkg == "memdb" {
		group := r.Field("memdb", "Batch", "batchGroup")
		marks := callIs("memdb._TimeMark.release")
		h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			if loopHas(l, r.P.callReaches("memdb._TimeMark.release")) && rangesField(l, group) {
				c.St.Add("marking")
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) { c.St.Del("added") }
		r.eachHooks(h, &each{name: "blocks committed", key: "c24:mark-skipped", what: "a block of the batch can be left out when the batch is marked as committed", is: loopIs(nil, marks), done: []string{"marked"}})
	}
	r.Explore(h, f)
	if pkg == "memdb" {
		r.Need("blocks committed", 1)
	}
}

// memBatchWrite: a batch that is written becomes part of its group.
func (r *Run) memBatchWrite() {
	f := r.Fn("memdb.Batch.Write")
	group := r.Field("memdb", "Batch", "batchGroup")
	blog := r.Field("memdb", "Batch", "tinyLog")
	id := r.Field("memdb", "_TinyLog", "_TimeID")
	if f == nil || group == nil || blog == nil || id == nil {
		return
	}
	wait := "memdb._TinyLogManager.writeWait"
	h := &Hooks{Interesting: anyOf(callIs(wait, "memdb.DB.addTimeBlock"), fieldUse(group, blog, id))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == wait:
			c.Opaque()
			t := c.E.load(c.St, c.E.faddr(c.Args[1], id), id.Type())
			if !isFieldVal(c.Args[1], blog) {
				c.Report("c24:other-log", "a batch writes another log than its own")
			}
			c.ForkErr(func(s *State) { s.Add("written", t) }, func(s *State) { s.Add("failed", t) })
		case c.Name == "memdb.DB.addTimeBlock":
			c.Opaque()
			c.St.Add("block", c.Args[1])
		case strings.HasPrefix(c.Name, "memdb.DB.") && c.ErrRes() != nil:
			c.Opaque()
			c.ForkErr(nil, nil)
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if v == nil {
			return
		}
		if isFAddr(addr, group) {
			c.St.Add("grouped", v)
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		cur := c.E.load(c.St, c.E.faddr(c.E.load(c.St, c.E.faddr(c.recv(), blog), blog.Type()), id), id.Type())
		for _, t := range c.St.Find("written") {
			r.Count("blocks written", 1)
			ok := false
			for _, g := range c.St.Find("grouped") {
				ok = ok || g.contains(func(v *Val) bool { return v == t })
				if g.op == OAppend || g.aux == "append" {
					ok = ok || g.contains(func(v *Val) bool { return v == t })
				}
			}
			if !ok {
				for _, e := range c.St.Find("appended") {
					ok = ok || e == t
				}
			}
			if !ok {
				c.Report("c24:not-grouped", "a block that the batch has written does not become part of the batch")
			}
			if cur == t {
				c.Report("c24:same-log", "a batch goes on with a log that is already written")
			}
			if !c.St.HasV("block", cur) {
				c.Report("c24:no-block", "a batch goes on with a log without a block for its entries")
			}
		}
		for _, t := range c.St.Find("failed") {
			if c.mayBeSuccess(fn, res) {
				c.Report("c24:write-failed", "a batch reports success although its log was not written")
			}
			if cur != t {
				c.Report("c24:lost-block", "the entries of a batch whose log was not written are no longer part of the batch")
			}
		}
	}
	base := h.Call
	h.Call = func(c *CallCtx) {
		if c.Name == "builtin.append" && len(c.Args) == 2 {
			for _, x := range c.varargs(c.Args[1]) {
				c.St.Add("appended", x)
			}
			return
		}
		base(c)
	}
	inter := h.Interesting
	h.Interesting = anyOf(inter, isBuiltin("append", nil))
	r.Explore(h, f)
	r.Need("blocks written", 1)
}

// batchAborts: an aborted batch gives up all that it has written.
func (r *Run) batchAborts() {
	f := r.Fn("memdb.Batch.Abort")
	group := r.Field("memdb", "Batch", "batchGroup")
	blog := r.Field("memdb", "Batch", "tinyLog")
	id := r.Field("memdb", "_TinyLog", "_TimeID")
	bdb := r.Field("memdb", "Batch", "db")
	if f == nil || group == nil || blog == nil || id == nil || bdb == nil {
		return
	}
	release := "memdb.DB.releaseLog"
	own := func(v *Val) bool { return v.contains(func(x *Val) bool { return isFieldVal(x, id) }) }
	h := &Hooks{Interesting: anyOf(callIs(release), fieldUse(group, blog, id, bdb), isBuiltin("append", nil))}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case release:
			c.Opaque()
			c.St.Add("released", c.Args[1])
			c.St.Add("released one")
			if own(c.Args[1]) && !c.St.Has("in loop") {
				c.St.Add("own released")
			}
			c.ForkErr(nil, nil)
		case "builtin.append":
			for _, x := range c.varargs(c.Args[len(c.Args)-1]) {
				if own(x) {
					c.St.Add("own appended")
				}
			}
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && truth && (isFieldVal(cond.args[0], bdb) || isFieldVal(cond.args[1], bdb)) {
			c.St.Add("complete")
		}
	}
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, r.P.callReaches(release)) {
			c.St.Add("in loop")
			if rangesField(l, group) || overGroup(l, group) {
				c.St.Add("releasing")
				if c.St.Has("own appended") {
					c.St.Add("own released")
				}
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("complete") {
			return
		}
		r.Count("aborts", 1)
		if !c.St.Has("releasing") || !c.St.Has("own released") {
			c.Report("c24:not-released", "an aborted batch can keep what it has written")
		}
		if v := c.E.load(c.St, c.E.faddr(c.recv(), bdb), bdb.Type()); c.E.nilness(c.St, v) != 1 {
			c.Report("c24:not-complete", "an aborted batch is not marked as complete")
		}
	}
	r.eachHooks(h, &each{name: "blocks released", key: "c24:release-skipped", what: "a block of an aborted batch can be left out when its blocks are released", is: loopIs(nil, callIs(release)), done: []string{"released one"}})
	back := h.Back
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) { back(c, l, fn); c.St.Del("released") }
	exit := h.LoopExit
	h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) { exit(c, l, fn); c.St.Del("in loop") }
	r.Explore(h, f)
	r.Need("aborts", 1)
	r.Need("blocks released", 1)
	// the batch of the database, with that of memory: nothing is used after it was given up.
	a := r.Fn("unitdb.Batch.Abort")
	c0 := r.Fn("unitdb.Batch.Commit")
	mem := r.Field("unitdb", "Batch", "mem")
	if a == nil || c0 == nil || mem == nil {
		return
	}
	for _, root := range []*ssa.Function{a, c0} {
		h := &Hooks{Interesting: anyOf(callIs("memdb.Batch.Abort", "memdb.Batch.Commit", release, "unitdb.Batch.Write", "memdb.Batch.Write"), fieldUse(bdb))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case release:
				c.Opaque()
				if c.E.nilness(c.St, c.Args[0]) == 1 {
					c.Report("c24:nil", "a batch that is complete is aborted again and uses what it no longer has")
				}
				c.ForkErr(nil, nil)
			case "unitdb.Batch.Write", "memdb.Batch.Write":
				c.Opaque()
				c.ForkErr(nil, nil)
			case "memdb._TimeMark.add", "memdb._TimeMark.release":
				c.Opaque()
			case "memdb.Batch.Abort":
				c.St.Add("mem aborted")
				c.inline = 1
			case "memdb.Batch.Commit":
				c.inline = 1
			}
		}
		h.Load = func(c *Ctx, addr *Val) {
			if addr.op == OFAddr && c.E.nilness(c.St, addr.args[0]) == 1 {
				c.Report("c24:nil", "a batch that is complete is aborted again and uses what it no longer has")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("batch ends", 1)
			if !c.St.Has("mem aborted") {
				c.Report("c24:mem-kept", "a batch ends without giving up what it wrote to memory")
			}
		}
		r.Explore(h, root)
	}
	r.Need("batch ends", 1)
}

// overGroup: the loop goes over a slice that the group was appended into.
func overGroup(l *loop, group *types.Var) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if call, ok := stripSSA(ia.X).(*ssa.Call); ok && isBuiltin("append", nil)(call) {
				for _, a := range call.Call.Args {
					if ssaField(stripSSA(a)) == group {
						return true
					}
				}
			}
		}
	}
	return false
}

// batchApplies: every entry of the batch is applied.
func (r *Run) batchApplies() {
	w := r.Fn("unitdb.Batch.Write")
	index := r.Field("unitdb", "Batch", "index")
	delFlag := r.Field("unitdb", "_BatchIndex", "delFlag")
	eseq := r.Field("unitdb", "_Entry", "seq")
	ehash := r.Field("unitdb", "_Entry", "topicHash")
	eexp := r.Field("unitdb", "_Entry", "expiresAt")
	etopic := r.Field("unitdb", "_Entry", "topicSize")
	if w == nil || index == nil || delFlag == nil || eseq == nil || ehash == nil || eexp == nil || etopic == nil {
		return
	}
	const put, del, add, win, test, mw = "memdb.Batch.Put", "unitdb.DB.delete", "unitdb._TimeWindowBucket.add", "unitdb.newWinEntry", "unitdb.Filter.Test", "memdb.Batch.Write"
	dec := "unitdb._Entry.UnmarshalBinary"
	names := []string{put, del, add, win, test, mw, dec, "unitdb._Trie.add", "memdb.Batch.TimeID", "github.com/unit-io/bpool.Buffer.Slice", "message.Topic.Unmarshal", "unitdb.DB.ok"}
	var ord order
	h := &Hooks{Interesting: anyOf(callIs(names...), callsParam, fieldUse(index, delFlag, eseq, etopic))}
	flag := func(c *Ctx, v *Val) bool { return v.contains(func(x *Val) bool { return isFieldVal(x, delFlag) }) }
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if isFieldVal(cond, delFlag) || cond.op == OBin && cond.aux == "==" && (flag(c, cond)) {
			if truth {
				c.St.Add("deletion")
			} else {
				c.St.Add("insertion")
			}
		}
		switch {
		case cond.aux == "pair:topics" && !truth:
		case cond.op == OBin && cond.aux == "==" && truth && (isFieldVal(stripConv(cond.args[0]), etopic) && isInt(0)(cond.args[1]) || isFieldVal(stripConv(cond.args[1]), etopic) && isInt(0)(cond.args[0])):
			c.St.Add("no topic")
		case cond.op == OBin && cond.aux == "<" && !truth && isInt(0)(cond.args[0]) && isFieldVal(stripConv(cond.args[1]), etopic):
			c.St.Add("no topic")
		}
		if cond.op == OBin && cond.aux == "==" && truth && (isFieldVal(stripConv(cond.args[0]), eseq) || isFieldVal(stripConv(cond.args[1]), eseq)) {
			c.St.Add("no number") // there is no such entry
			c.St.Add("applied")
		}
		if cond.op == OBin && (isLenOf(isF(index))(cond.args[0]) && isInt(0)(cond.args[1]) || isLenOf(isF(index))(cond.args[1]) && isInt(0)(cond.args[0])) {
			ord.assume(c, cond, truth)
		}
	}
	fail := func(s *State) { s.Add("failing") }
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.DB.ok":
			c.Opaque()
			c.ForkErr(nil, fail)
		case "memdb.Batch.TimeID":
			c.Opaque()
			c.SetResult(c.E.pair("time of batch", c.Res))
		case "github.com/unit-io/bpool.Buffer.Slice":
			c.Opaque()
			c.ForkErr(nil, fail)
		case "message.Topic.Unmarshal":
			c.Opaque()
			c.ForkErr(nil, fail)
		case dec:
			c.Opaque()
			c.E.store(c.St, c.Args[0], c.E.pair("entry", c.Args[1]))
			c.ForkErr(nil, fail)
		case win:
			c.Opaque()
			c.SetResult(c.E.pair("window entry", c.Args[0], c.Args[1]))
		case "unitdb._Trie.add":
			c.Opaque()
			c.St.Add("topic known")
		case test:
			c.Opaque()
			seq := c.Args[1]
			res := c.Res
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(true)) })
			c.Fork(func(s *State) {
				c.E.setFact(s, res, c.E.in.boolean(false))
				if s.Has("deletion") && isFieldVal(seq, eseq) {
					s.Add("applied")
				}
			})
		case del:
			c.Opaque()
			if !c.St.Has("deletion") {
				c.Report("c24:put-deletes", "an entry that was put into the batch is deleted")
			}
			if !isFieldVal(c.Args[1], ehash) || !isFieldVal(c.Args[2], eseq) {
				c.Report("c24:deletes-other", "a batch deletes another entry than the one that was added to it")
			}
			c.ForkErr(func(s *State) { s.Add("applied") }, fail)
		case put:
			c.Opaque()
			if !c.St.Has("insertion") && !c.St.Has("no number") {
				c.Report("c24:delete-puts", "an entry that the batch is to delete is stored")
			}
			if !isFieldVal(c.Args[1], eseq) {
				c.Report("c24:put-other", "a batch stores an entry under another number")
			}
			c.ForkErr(func(s *State) { s.Add("stored") }, fail)
		case add:
			c.Opaque()
			we := c.Args[3]
			if c.Args[1].aux != "pair:time of batch" || !isFieldVal(c.Args[2], ehash) || we.aux != "pair:window entry" || !isFieldVal(we.args[0], eseq) || !isFieldVal(we.args[1], eexp) {
				c.Report("c24:window", "the window entry of a batch entry is not that of the entry, its topic and the block of the batch")
			}
			if !c.St.Has("stored") {
				c.Report("c24:window-early", "a batch entry is added to the time window before it is stored")
			}
			res := c.Res
			c.Fork(func(s *State) {
				c.E.setFact(s, res, c.E.in.boolean(true))
				if s.Has("topic known") || s.Has("no topic") {
					s.Add("applied")
				} else {
					s.Add("no trie")
				}
			})
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.in.boolean(false)); s.Add("refused"); s.Add("failing") })
		case mw:
			c.Opaque()
			if !c.St.Has("applying") {
				c.Report("c24:early", "the log of a batch is written before its entries are applied")
			}
			c.ForkErr(func(s *State) { s.Add("log written") }, fail)
		}
	}
	drop := []string{"deletion", "insertion", "no topic", "topic known", "stored", "no trie", "no number"}
	clear := func(c *Ctx) {
		for _, d := range drop {
			c.St.Del(d)
		}
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, r.P.callReaches(del)) || loopHas(l, callIs(del)) }
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			c.St.Add("applying")
			if !rangesField(l, index) {
				c.Report("c24:range", "a batch does not go over the entries that were added to it")
			}
			clear(c)
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			clear(c)
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.mayBeSuccess(fn, res) {
			return
		}
		r.Count("batches written", 1)
		if ord.atMost(c.St, isLenOf(isF(index)), isInt(0)) {
			return
		}
		if c.St.Has("refused") {
			c.Report("c24:refused", "a batch can be written although the time window refused an entry")
		}
		if !c.St.Has("applying") || !c.St.Has("log written") {
			c.Report("c24:not-applied", "a batch can be written without applying its entries or without its log")
		}
	}
	r.eachHooks(h, &each{name: "batch entries", key: "c24:entry-skipped", what: "an entry of a batch can be left out when the batch is written", is: isLoop, done: []string{"applied"}, stop: []string{"failing"}})
	r.Explore(h, w)
	r.Need("batch entries", 1)
	r.Need("batches written", 1)
}

// batchAdds: puts and deletes add one entry.
func (r *Run) batchAdds() {
	index := r.Field("unitdb", "Batch", "index")
	size := r.Field("unitdb", "Batch", "size")
	delFlag := r.Field("unitdb", "_BatchIndex", "delFlag")
	off := r.Field("unitdb", "_BatchIndex", "offset")
	if index == nil || size == nil || delFlag == nil || off == nil {
		return
	}
	for n, want := range map[string]bool{"unitdb.Batch.PutEntry": false, "unitdb.Batch.DeleteEntry": true} {
		f := r.Fn(n)
		if f == nil {
			continue
		}
		h := &Hooks{Interesting: anyOf(fieldUse(index, size, delFlag), callIs("unitdb.DB.setEntry", "github.com/unit-io/bpool.Buffer.Write", "unitdb.DB.ok"), isBuiltin("append", nil))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "unitdb.DB.setEntry", "unitdb.DB.ok":
				c.Opaque()
				c.ForkErr(nil, nil)
			case "github.com/unit-io/bpool.Buffer.Write":
				c.Opaque()
				c.ForkErr(nil, nil)
			case "builtin.append":
				if !isFieldVal(c.Args[0], index) {
					return
				}
				xs := c.varargs(c.Args[1])
				if len(xs) != 1 || c.St.Has("added") {
					c.Report("c24:added-twice", "%s adds more than one entry to the batch", fname(f))
				}
				for _, x := range xs {
					c.St.Add("added")
					d := c.E.fieldOf(x, delFlag)
					if t := c.E.evalBool(c.St, d); t == 1 != want || t == 0 {
						c.Report("c24:kind", "%s adds an entry of the wrong kind to the batch", fname(f))
					}
					if !isFieldVal(c.E.fieldOf(x, off), size) {
						c.Report("c24:place", "an entry of a batch is not found where it was written")
					}
				}
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if isFAddr(addr, index) && v != nil {
				c.St.Add("kept")
			}
			if isFAddr(addr, size) && v != nil {
				c.St.Add("sized")
				if v.op != OBin || v.aux != token.ADD.String() || !v.contains(isF(size)) {
					c.Report("c24:size", "the size of a batch does not grow by what was added")
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("additions", 1)
			ok := c.mayBeSuccess(fn, res)
			all := c.St.Has("added") && c.St.Has("kept") && c.St.Has("sized")
			some := c.St.Has("added") || c.St.Has("kept") || c.St.Has("sized")
			switch {
			case ok && !all:
				c.Report("c24:not-added", "%s can succeed without adding the entry to the batch", fname(f))
			case !ok && some:
				c.Report("c24:added-failed", "%s can fail although the entry was added to the batch", fname(f))
			}
		}
		r.Explore(h, f)
	}
	r.Need("additions", 1)
}

// recv: the receiver of the root function.
func (c *Ctx) recv() *Val {
	p := c.root().fn.Params[0]
	return c.E.in.mk(Val{op: OParam, aux: p.Name(), typ: p.Type()})
}
