package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = checkC06
}

func checkC06(r *Run) {
	p := r.P
	r.Rule("opening the log without reset lists every log file in its directory and keeps that list; opening the in-memory store without reset replays it; opening the database runs recovery after topics and free space were loaded and before it returns, and each of them fails when a step fails")
	r.Rule("for-all loops: every listed log is read and handed to the callback, every record of it is put in memory or noted as deleted, every noted deletion is applied, every recovered block is handed to the database, each of its entries is appended to the blocks and to a window, every pending window is written")
	r.Rule("every recovered sequence number raises the database's sequence before recovery succeeds")

	// A. the log
	reset := r.Field("wal", "Options", "Reset")
	recovered := r.Field("wal", "WAL", "recoveredTimeIDs")
	if f := r.Fn("wal.New"); f != nil && reset != nil && recovered != nil {
		h := &Hooks{Interesting: anyOf(callIs("wal._FileStore.all", "wal._FileStore.reset"), fieldUse(reset))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "wal._FileStore.all":
				c.Opaque()
				e := c.E
				res := e.ext(c.Res, 0, c.Sig.Results().At(0).Type())
				c.ForkErr(func(s *State) { s.Add("listed", res) }, func(s *State) { s.Add("failed") })
			case "wal._FileStore.reset":
				c.Opaque()
				if !c.St.Has("reset") {
					c.Report("c06:wal-reset", "opening the log can remove pending logs although no reset was asked for")
				}
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			case "wal.openFile":
				c.Opaque()
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			}
		}
		h.Store = func(c *Ctx, addr, val *Val) {
			if addr.op == OFAddr && addr.fld == recovered && c.St.HasV("listed", val) {
				c.St.Add("kept")
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if truth && isField(cond, reset) {
				c.St.Add("reset")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("log open exits", 1)
			if !c.mayBeSuccess(fn, res) {
				return
			}
			if c.St.Has("failed") {
				c.Report("c06:wal-open-failure", "opening the log reports success although a step of it failed")
			}
			if !c.St.Has("reset") && !c.St.Has("kept") {
				c.Report("c06:wal-not-listed", "opening the log can succeed without listing the logs that are pending")
			}
		}
		r.Explore(h, f)
		r.Need("log open exits", 1)
	}

	// B. the list is complete
	if f := r.Fn("wal._FileStore.all"); f != nil {
		is := isBuiltin("append", nil)
		h := &Hooks{Interesting: is}
		h.Call = func(c *CallCtx) {
			switch n := c.Name; {
			case n == "builtin.append":
				c.St.Add("appended")
			case n == "strings.HasSuffix", strings.HasSuffix(n, "FileInfo.IsDir"), strings.HasSuffix(n, "DirEntry.IsDir"):
				c.St.Add("nametest", c.Res)
			case n == "strconv.ParseInt":
				c.ForkErr(nil, func(s *State) { s.Add("skip") })
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if c.St.HasV("nametest", cond) || strings.HasPrefix(cond.aux, "strings.HasSuffix") || strings.HasPrefix(cond.aux, "pure:strings.HasSuffix") {
				dir := strings.Contains(cond.aux, "IsDir")
				if truth == dir {
					c.St.Add("skip")
				}
			}
			if cond.op == OBin && cond.aux == "==" && !truth && isString(cond.args[0]) {
				c.St.Add("skip")
			}
		}
		r.eachHooks(h, &each{name: "directory entries", key: "c06:log-skipped", what: "a pending log file can be left out when the directory is listed",
			is: loopIs(f, is), done: []string{"appended", "skip"}})
		r.Explore(h, f)
		r.Need("directory entries", 1)
	}

	// C. every log is read and handed over
	if f := r.Fn("wal.Reader.Iterator"); f != nil {
		h := &Hooks{Interesting: anyOf(callsParam, callIs("wal._FileStore.read"))}
		ranged := false
		h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			if rangesField(l, recovered) && loopHas(l, callsParam) {
				ranged = true
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "wal._FileStore.read":
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("read") }, func(s *State) { s.Add("failed") })
			case callsParam(c.In):
				if !c.St.Has("read") {
					c.Report("c06:log-unread", "a log is handed over without having been read")
				}
				c.forkStop(func(s *State) { s.Add("handed") }, func(s *State) { s.Add("stopped") }, func(s *State) { s.Add("failed") })
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if c.St.Has("failed") && c.mayBeSuccess(fn, res) {
				c.Report("c06:iterate-failure", "reading the pending logs reports success although one could not be read or processed")
			}
		}
		r.eachHooks(h, &each{name: "log iterations", key: "c06:log-not-handed", what: "a listed log can be left out of recovery", is: loopIs(f, callsParam), done: []string{"handed", "read"}, stop: []string{"stopped", "failed"}})
		r.Explore(h, f)
		r.Need("log iterations", 1)
		if !ranged {
			r.Violate("c06:log-list", p.pos(f.Pos()), "reading the pending logs does not go through the list made when the log was opened")
		}
	}

	// D. memdb.Open
	noLog := r.Field("memdb", "_Options", "logResetFlag")
	if f := r.Fn("memdb.Open"); f != nil && noLog != nil {
		h := &Hooks{Interesting: anyOf(callIs("memdb.DB.startRecovery", "wal.New"), fieldUse(noLog))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "memdb.DB.startRecovery":
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("recovered") }, func(s *State) { s.Add("failed") })
			case "wal.New":
				c.Opaque()
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if truth && isField(cond, noLog) {
				c.St.Add("reset")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("store open exits", 1)
			if !c.mayBeSuccess(fn, res) {
				return
			}
			if c.St.Has("failed") {
				c.Report("c06:memdb-open-failure", "opening the in-memory store reports success although the log could not be opened or replayed")
			} else if !c.St.Has("recovered") && !c.St.Has("reset") {
				c.Report("c06:memdb-not-recovered", "opening the in-memory store can succeed without replaying the log")
			}
		}
		r.Explore(h, f)
		r.Need("store open exits", 1)
	}

	memdbRecovery(r)
	dbRecovery(r)
}

func isString(v *Val) bool {
	t := v.typ
	if t == nil {
		return len(v.strConsts()) > 0
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mapElem(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func memdbRecovery(r *Run) {
	p := r.P
	f := r.Fn("memdb.DB.startRecovery")
	records := r.Field("memdb", "_Block", "records")
	timeRefs := r.Field("memdb", "_Block", "timeRefs")
	if f == nil || records == nil || timeRefs == nil {
		return
	}
	isBytesMap := func(t types.Type) bool {
		e := mapElem(t)
		return e != nil && e.String() == "[]byte"
	}
	isKeysMap := func(t types.Type) bool {
		e := mapElem(t)
		return e != nil && e.String() == "[]uint64"
	}
	// the functions that replay a log: they call Reader.Next
	replayFns := map[*ssa.Function]bool{}
	for _, ci := range p.callsTo("wal.Reader.Next") {
		if pkgOf(ci.Parent()) == "memdb" {
			g := ci.Parent()
			replayFns[g] = true
		}
	}
	next := callIs("wal.Reader.Next")
	keep := mapUpdate(func(m *ssa.MapUpdate) bool { return isBytesMap(m.Map.Type()) || isKeysMap(m.Map.Type()) })
	put := callIs("memdb._Block.put")
	h := &Hooks{Interesting: anyOf(next, keep, put, callIs("encoding/binary.littleEndian.Uint32", "wal.Reader.Count"))}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "wal.Reader.Next":
			c.Opaque()
			e := c.E
			ok := e.ext(c.Res, 1, types.Typ[types.Bool])
			er := c.ErrRes()
			c.Fork(func(s *State) {
				e.setFact(s, ok, e.vTrue)
				e.setFact(s, er, e.vNil)
				s.Add("next")
			})
			c.Fork(func(s *State) {
				e.setFact(s, ok, e.vFalse)
				e.setFact(s, er, e.vNil)
				s.Add("end")
			})
			c.Fork(func(s *State) {
				e.setFact(s, er, e.vNonNil)
				s.Add("failed:next")
			})
		case "memdb._Block.put":
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("put") }, func(s *State) { s.Add("failed:put") })
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if v == nil {
			return
		}
		if mu, ok := c.In.(*ssa.MapUpdate); ok && keep(mu) {
			c.St.Add("noted")
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "<" && cond.contains(func(v *Val) bool { return v.op == OLen }) {
			if (cond.args[0].op == OLen) == truth {
				c.St.Add("short")
			}
		}
		if !truth {
			if x, ok := eqConst(cond, 1); ok && x.op != OLen {
				c.St.Add("not1")
			}
			if x, ok := eqConst(cond, 0); ok && x.op != OLen {
				c.St.Add("not0")
				if c.St.Has("not1") {
					c.St.Add("neither")
				}
			}
		}
	}
	h.Store = func(c *Ctx, addr, val *Val) {
		if addr.op == OFAddr && addr.fld == timeRefs {
			c.St.Add("ref")
		}
	}
	reported := map[string]bool{}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		for _, t := range c.St.WithPrefix("failed:") {
			if c.mayBeSuccess(fn, res) && !reported[t.N] {
				c.Report("c06:replay-failure:"+t.N[7:], "replaying a log reports success although a record could not be read or put in memory")
			}
		}
	}
	parse := func(l *loop, fn *ssa.Function) bool {
		return loopHas(l, keep) && !loopHas(l, next) && !loopHas(l, put)
	}
	r.eachHooks(h,
		&each{name: "record groups", key: "c06:records-skipped", what: "a group of records of a log can be left out of recovery", is: func(l *loop, fn *ssa.Function) bool {
			return loopHas(l, p.callReaches("wal.Reader.Next")) && !rangesFieldOf(l)
		}, done: []string{"next"}, stop: []string{"end", "failed:next", "failed:put"}},
		&each{name: "records", key: "c06:record-skipped", what: "a record read from a log can be left out: neither kept nor noted as deleted", is: parse, done: []string{"noted", "short", "neither", "not0", "not1"}[:3]},
		&each{name: "recovered keys", key: "c06:key-not-put", what: "a recovered record can be left out of the memory block", is: func(l *loop, fn *ssa.Function) bool {
			return loopHas(l, p.callReaches("memdb._Block.put")) && !loopHas(l, p.callReaches("wal.Reader.Next"))
		}, done: []string{"put"}, stop: []string{"failed:put"}})
	back := h.Back
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, p.callReaches("wal.Reader.Next")) && !rangesFieldOf(l) {
			r.Count("log references", 1)
			if !c.St.Has("ref") && len(c.St.WithPrefix("failed")) == 0 && !c.St.Has("end") {
				c.Report("c06:log-reference", "a recovered block does not keep the log its entries came from: the log is never removed after the entries were synced")
			}
			c.St.Del("ref")
		}
		back(c, l, fn)
		c.St.Del("not0")
		c.St.Del("not1")
	}
	h.Interesting = anyOf(h.Interesting, fieldUse(timeRefs))
	for g := range replayFns {
		r.Explore(h, g)
	}
	r.Need("record groups", 1)
	r.Need("records", 1)
	r.Need("recovered keys", 1)

	// deletions are applied
	del := anyOf(callIs("memdb.DB.delete"), isBuiltin("delete", func(ci ssa.CallInstruction) bool { return ssaField(ci.Common().Args[0]) == records }))
	dh := &Hooks{Interesting: anyOf(del, callIs("wal.Reader.Iterator"))}
	dh.Call = func(c *CallCtx) {
		switch c.Name {
		case "wal.Reader.Iterator", "wal.WAL.NewReader":
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("ok:" + c.Name) }, func(s *State) { s.Add("failed") })
		case "memdb.DB.delete":
			c.Opaque()
			c.St.Add("deleted")
			c.ForkErr(nil, func(s *State) { s.Add("delfailed") })
		case "memdb.DB.drop":
			c.Opaque()
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case "builtin.delete":
			if isField(c.Args[0], records) {
				c.St.Add("deleted")
			}
		}
	}
	keysLoop := func(l *loop, fn *ssa.Function) bool {
		return loopHas(l, anyOf(del, p.callReaches("memdb.DB.delete"))) && rangedOver(l) != nil
	}
	inner := func(l *loop, fn *ssa.Function) bool {
		v := rangedOver(l)
		return keysLoop(l, fn) && v != nil && !isMapType(v.Type())
	}
	outer := false
	dh.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if v := rangedOver(l); v != nil && isKeysMap(v.Type()) && keysLoop(l, fn) {
			outer = true
			c.St.Add("applied")
		}
	}
	dh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if x, ok := eqConst(cond, 0); ok && truth && isLenVal(x) && x.args[0].typ != nil && isKeysMap(x.args[0].typ) {
			c.St.Add("applied") // nothing was deleted
		}
	}
	dh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.mayBeSuccess(fn, res) {
			return
		}
		if c.St.Has("failed") {
			c.Report("c06:recovery-failure", "replaying the log reports success although a step failed")
		}
		if !c.St.Has("ok:wal.Reader.Iterator") {
			c.Report("c06:no-replay", "recovery can succeed without reading the pending logs")
		}
		if !c.St.Has("applied") {
			c.Report("c06:deletes-not-applied", "recovery can succeed without applying the deletions found in the logs")
		}
	}
	r.eachHooks(dh, &each{name: "deletions", key: "c06:delete-skipped", what: "a deletion found in a log can be left out", is: inner, done: []string{"deleted"}, stop: []string{"failed", "delfailed"}})
	r.eachHooks(dh, &each{name: "deletion groups", key: "c06:delete-group", what: "deletions of a time block can be left out", is: func(l *loop, fn *ssa.Function) bool {
		v := rangedOver(l)
		return v != nil && isKeysMap(v.Type()) && keysLoop(l, fn)
	}, done: []string{"innerloop"}, stop: []string{"failed", "delfailed"}})
	le := dh.LoopEnter
	dh.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		le(c, l, fn)
		if inner(l, fn) {
			c.St.Add("innerloop")
		}
	}
	r.Explore(dh, f)
	_ = outer
	r.Need("deletions", 1)
	r.Need("deletion groups", 1)

	// every recovered block is handed over
	blocks := r.Field("memdb", "DB", "timeBlocks")
	released := r.Field("memdb", "_TimeMark", "releasedRecords")
	if g := r.Fn("memdb.DB.All"); g != nil && blocks != nil && released != nil {
		h := &Hooks{Interesting: anyOf(callsParam, fieldUse(blocks, released))}
		h.Call = func(c *CallCtx) {
			switch {
			case callsParam(c.In):
				c.forkStop(func(s *State) { s.Add("handed") }, func(s *State) { s.Add("stopped") }, func(s *State) { s.Add("stopped") })
			case c.Name == "builtin.append":
				c.St.Add("collected")
			}
		}
		delFlag := p.field("memdb", "_Key", "delFlag")
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if m, ok := lookupOK(cond); ok && !truth && isField(m, blocks) {
				c.St.Add("gone")
			}
			if x, ok := eqConst(cond, 0); ok {
				if truth && isLenVal(x) {
					c.St.Add("gone")
				}
				if !truth && isField(x, delFlag) {
					c.St.Add("marker")
				}
			}
		}
		loops := map[*types.Var]bool{}
		h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			for _, fl := range []*types.Var{records, released} {
				if rangesField(l, fl) {
					loops[fl] = true
				}
			}
		}
		over := func(fl *types.Var) func(l *loop, fn *ssa.Function) bool {
			return func(l *loop, fn *ssa.Function) bool { return rangesField(l, fl) }
		}
		r.eachHooks(h,
			&each{name: "recovered blocks", key: "c06:block-skipped", what: "a recovered block can be left out when the blocks are handed to the database", is: loopIs(nil, callsParam), done: []string{"handed", "gone"}, stop: []string{"stopped"}},
			&each{name: "keys collected", key: "c06:key-not-collected", what: "an entry of a recovered block can be left out when the block is handed over", is: over(records), done: []string{"collected", "marker"}},
			&each{name: "released time IDs", key: "c06:timeid-skipped", what: "a committed time ID can be left out when all blocks are handed over", is: over(released), done: []string{"collected"}})
		r.Explore(h, g)
		if !loops[records] || !loops[released] {
			r.Violate("c06:all-scope", p.pos(g.Pos()), "handing over the recovered blocks does not go through all committed time IDs and all records")
		}
		r.Need("recovered blocks", 1)
		r.Need("keys collected", 1)
		r.Need("released time IDs", 1)
	}
}

func isLenVal(v *Val) bool { return v != nil && v.op == OLen }

func isMapType(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// rangesFieldOf: does the loop range over a field.
func rangesFieldOf(l *loop) bool {
	v := rangedOver(l)
	return v != nil && ssaField(v) != nil
}

func dbRecovery(r *Run) {
	p := r.P
	// order of opening
	steps := []string{"unitdb.DB.loadTrie", "unitdb._Lease.read", "unitdb.DB.recoverLog"}
	set := map[string]bool{"memdb.Open": true, "unitdb.DB.startSyncer": true, "unitdb.DB.startExpirer": true}
	for _, s := range steps {
		set[s] = true
	}
	if f := r.Fn("unitdb.Open"); f != nil {
		h := &Hooks{Interesting: calleeIn(set)}
		h.Call = func(c *CallCtx) {
			n := c.Name
			if n == "unitdb.newFile" || n == "unitdb.createLockFile" || n == "github.com/unit-io/unitdb/crypto.New" || n == "crypto.New" || strings.HasSuffix(n, ".writeMarshalableAt") || strings.HasSuffix(n, ".readUnmarshalableAt") || n == "unitdb._File.extend" {
				c.Opaque()
				c.ForkErr(nil, func(s *State) { s.Add("failed:" + shortOp(n)) })
				return
			}
			if !set[n] {
				return
			}
			c.Opaque()
			switch n {
			case "unitdb.DB.recoverLog":
				for _, s := range steps[:2] {
					if !c.St.Has("ok:" + s) {
						c.Report("c06:recover-before:"+s, "logs are recovered before %s succeeded", s)
					}
				}
			case "unitdb.DB.startSyncer", "unitdb.DB.startExpirer":
				if !c.St.Has("ok:unitdb.DB.recoverLog") {
					c.Report("c06:background-before-recovery", "background work starts before recovery finished")
				}
			}
			c.ForkErr(func(s *State) { s.Add("ok:" + n) }, func(s *State) { s.Add("failed:" + n) })
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("open exits", 1)
			if !c.mayBeSuccess(fn, res) {
				return
			}
			for _, t := range c.St.WithPrefix("failed:") {
				c.Report("c06:open-failure:"+t.N[7:], "open returns a database although %s failed", t.N[7:])
			}
			for _, s := range append(steps, "memdb.Open") {
				if !c.St.Has("ok:"+s) && !c.St.Has("failed:"+s) {
					c.Report("c06:open-without:"+s, "open can return a database without running %s", s)
				}
			}
		}
		r.Explore(h, f)
		r.Need("open exits", 1)
	}
	// recoverLog runs the recovery; the recovery raises the sequence, goes through all blocks, writes the pending windows and syncs
	if f := r.Fn("unitdb.DB.recoverLog"); f != nil {
		rec := []string{"memdb.DB.All", "unitdb._SyncHandle.startSync", "unitdb._SyncHandle.recoverWindowBlocks", "unitdb._SyncHandle.sync", "unitdb.DB.raiseSeq", "memdb.DB.Keys"}
		is := callIs(rec...)
		keys := callIs("unitdb.DB.raiseSeq")
		h := &Hooks{Interesting: is}
		h.Call = func(c *CallCtx) {
			n := c.Name
			switch n {
			case "memdb.DB.Keys":
				c.Opaque()
				c.St.Add("keys", c.Res)
				c.St.Add("kept")
			case "unitdb.DB.raiseSeq":
				c.Opaque()
				if c.Args[1].contains(func(v *Val) bool { return c.St.HasV("keys", v) }) {
					c.St.Add("raised")
				}
				if c.St.Has("kept") {
					c.St.Add("raising") // to a maximum found before, which C19 decides
				}
			case "unitdb._SyncHandle.abort":
				c.Opaque()
				c.ForkErr(nil, nil)
			case "memdb.DB.All", "unitdb._SyncHandle.startSync", "unitdb._SyncHandle.recoverWindowBlocks", "unitdb._SyncHandle.sync":
				c.Opaque()
				if n == "unitdb._SyncHandle.sync" && !c.St.Has("ok:unitdb._SyncHandle.recoverWindowBlocks") {
					c.Report("c06:sync-before-pending", "recovery syncs before the windows that were set aside are written")
				}
				if n == "unitdb._SyncHandle.recoverWindowBlocks" && !c.St.Has("ok:memdb.DB.All") {
					c.Report("c06:pending-before-all", "the windows that were set aside are written before all blocks were recovered")
				}
				c.ForkErr(func(s *State) { s.Add("ok:" + n) }, func(s *State) { s.Add("failed:" + n) })
			}
		}
		h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			if loopHas(l, p.callReaches("unitdb.DB.raiseSeq")) {
				c.St.Add("raising")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("recovery exits", 1)
			if !c.mayBeSuccess(fn, res) {
				return
			}
			for _, t := range c.St.WithPrefix("failed:") {
				c.Report("c06:recover-failure:"+t.N[7:], "recovery reports success although %s failed", t.N[7:])
			}
			for _, n := range rec[:4] {
				if !c.St.Has("ok:"+n) && !c.St.Has("failed:"+n) {
					c.Report("c06:recover-without:"+n, "recovery can report success without %s", n)
				}
			}
			if !c.St.Has("raising") {
				c.Report("c06:sequence-not-raised", "recovery can report success without raising the sequence above the recovered ones")
			}
		}
		r.eachHooks(h, &each{name: "recovered sequences", key: "c06:sequence-skipped", what: "a recovered sequence can be left out when the database's sequence is raised", is: loopIs(nil, keys), done: []string{"raised"}})
		r.Explore(h, f)
		r.Need("recovery exits", 1)
	}

	// every entry of a recovered or synced block is appended and gets a window entry
	appendB, appendW := "unitdb._BlockWriter.append", "unitdb._WindowWriter.append"
	winMap := func(t types.Type) bool {
		e := mapElem(t)
		return e != nil && typeName(e) == "_WindowEntries"
	}
	isEntry := func(l *loop, fn *ssa.Function) bool { return loopHas(l, p.callReaches(appendB)) }
	winUpd := mapUpdate(func(m *ssa.MapUpdate) bool { return winMap(m.Map.Type()) })
	delWin := isBuiltin("delete", func(ci ssa.CallInstruction) bool { return winMap(ci.Common().Args[0].Type()) })
	recWin := p.callReaches(appendW)
	h := &Hooks{Interesting: anyOf(callIs(appendB, appendW, "unitdb._SyncHandle.sync", "unitdb._SyncHandle.recoverWindowBlocks", "memdb.DB.Lookup", "unitdb._Trie.getOffset", "unitdb._Trie.setOffset", "unitdb._BlockReader.readTopic", "message.Topic.Unmarshal", "unitdb._Entry.UnmarshalBinary", "memdb.DB.Free"), winUpd, delWin)}
	h.Call = func(c *CallCtx) {
		n := c.Name
		switch n {
		case appendB:
			c.Opaque()
			e := c.E
			er := c.ErrRes()
			exist := p.fnGlobal("unitdb", "errEntryExist")
			c.Fork(func(s *State) { e.setFact(s, er, e.vNil); s.Add("appended") })
			c.Fork(func(s *State) {
				e.setFact(s, er, e.load(s, e.in.mk(Val{op: OGlobal, aux: relGlobal(exist), typ: exist.Type()}), exist.Type().(*types.Pointer).Elem()))
				s.Add("exists")
			})
			c.Fork(func(s *State) { e.setFact(s, er, e.vNonNil); s.Add("failed") })
		case appendW:
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("window") }, func(s *State) { s.Add("failed") })
		case "memdb.DB.Lookup":
			c.ForkErr(nil, func(s *State) { s.Add("unread") })
		case "unitdb._SyncHandle.sync":
			c.Opaque()
			if !c.St.Has("windows") {
				c.Report("c06:sync-before-windows", "a block is synced before the window entries of its topics were appended")
			}
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case "unitdb._SyncHandle.recoverWindowBlocks":
			c.Opaque()
			c.St.Add("windows")
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case "unitdb._BlockReader.readTopic", "message.Topic.Unmarshal", "unitdb._Entry.UnmarshalBinary":
			c.Opaque()
			c.ForkErr(nil, func(s *State) {
				s.Add("failed")
				if n == "unitdb._Entry.UnmarshalBinary" {
					s.Add("unread")
				}
			})
		case "memdb.DB.Free":
			c.Opaque()
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case "builtin.delete":
			if delWin(c.In) && !c.St.Has("aside") {
				c.Report("c06:window-dropped", "the window entries of a topic are dropped instead of being set aside")
			}
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if mu, ok := c.In.(*ssa.MapUpdate); ok && winMap(mu.Map.Type()) && v != nil {
			c.St.Add("windowed")
			c.St.Add("aside")
		}
	}
	// missing data: nil
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && truth && cond.args[1].op == ONil && strings.HasPrefix(cond.args[0].String(), "") {
			if x := cond.args[0]; x.op == OExt && x.args[0].op == OCall && strings.HasPrefix(x.args[0].aux, "memdb.DB.Lookup@") && !isErrorType(x.typ) {
				c.St.Add("unread")
			}
		}
	}
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, recWin) {
			c.St.Add("windows")
		}
	}
	r.eachHooks(h,
		&each{name: "block entries", key: "c06:entry-skipped", what: "an entry of a block can be left out of the index or of its topic's window", is: isEntry, done: []string{"windowed", "exists", "unread", "failed"}, stop: []string{"failed"}},
		&each{name: "topic windows", key: "c06:window-skipped", what: "the window entries of a topic can be left out", is: func(l *loop, fn *ssa.Function) bool { return loopHas(l, recWin) && !isEntry(l, fn) }, done: []string{"window", "failed"}, stop: []string{"failed", "lost"}})
	bk := h.Back
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if isEntry(l, fn) && c.St.Has("windowed") && !c.St.Has("appended") {
			c.Report("c06:entry-not-stored", "an entry gets a window entry without having been stored in a block")
		}
		bk(c, l, fn)
		c.St.Del("appended")
		c.St.Del("aside")
		c.St.Del("windowed")
	}
	// an unknown topic ends the window loop with an error
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("failed") && c.mayBeSuccess(fn, res) {
			c.Report("c06:block-failure", "processing a block reports success although a step failed")
		}
	}
	call := h.Call
	h.Call = func(c *CallCtx) {
		if c.Name == "unitdb._Trie.getOffset" || c.Name == "unitdb._Trie.setOffset" {
			c.Opaque()
			e := c.E
			sig := c.Sig.Results()
			ok := c.Res
			if sig.Len() > 1 {
				ok = e.ext(c.Res, sig.Len()-1, types.Typ[types.Bool])
			}
			c.Fork(func(s *State) { e.setFact(s, ok, e.vTrue) })
			c.Fork(func(s *State) { e.setFact(s, ok, e.vFalse); s.Add("lost") })
			return
		}
		call(c)
	}
	seen := map[*ssa.Function]bool{}
	for _, n := range []string{appendB, appendW} {
		for _, ci := range p.callsTo(n) {
			if g := ci.Parent(); !seen[g] {
				seen[g] = true
				r.Explore(h, g)
			}
		}
	}
	r.Need("block entries", 1)
	r.Need("topic windows", 1)
}
