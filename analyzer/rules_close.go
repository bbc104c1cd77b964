package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = checkC12
	checks["C13"] = checkC13
}

const (
	unlockIface = "unitdb._LockFile.unlock"
	unlockUnix  = "unitdb._UnixFileLock.unlock"
)

// fileOpeners: steps of open that read, create or change files of the database directory or start work that does.
var fileOpeners = []string{"unitdb.newFile", "memdb.Open", "unitdb.DB.loadTrie", "unitdb._Lease.read", "unitdb.DB.recoverLog",
	"unitdb._FileSet.extend", "unitdb._FileSet.writeMarshalableAt", "unitdb._FileSet.readUnmarshalableAt",
	"unitdb._File.extend", "unitdb._File.writeMarshalableAt", "unitdb._File.readUnmarshalableAt",
	"unitdb.DB.writeInfo", "unitdb._Lease.write", "os.OpenFile", "os.Create", "os.Open"}

// checkC12: the directory lock.
func checkC12(r *Run) {
	r.Rule("open takes the lock before any step that opens, reads or writes a file of the database; it succeeds only with the lock held, and gives it back exactly once on every failing path, after closing the in-memory store and before no background work was started")
	r.Rule("the lock is granted only after a non-blocking exclusive lock of the file succeeded and the file was found to be the one in the directory; a refused lock closes the file; giving it back removes the file first and closes it whatever happens")
	r.Rule("only open (when failing) and close give the lock back, close on every path and as the last step")
	// A. Open
	if f := r.Fn("unitdb.Open"); f != nil {
		names := append([]string{"unitdb.createLockFile", "unitdb.newLockFile", unlockIface, unlockUnix, "unitdb.DB.startSyncer", "unitdb.DB.startExpirer", "memdb.DB.Close", "unitdb._FileSet.close"}, fileOpeners...)
		is := map[string]bool{}
		for _, n := range fileOpeners {
			is[n] = true
		}
		h := &Hooks{Interesting: callIs(names...)}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "unitdb.createLockFile":
				c.Opaque()
				r.Count("lock steps", 1)
				c.ForkErr(func(s *State) { s.Add("locked") }, nil)
			case c.Name == unlockIface || c.Name == unlockUnix:
				c.Opaque()
				c.handled = true
				r.Count("lock steps", 1)
				if !c.St.Has("locked") {
					c.Report("c12:open-unlock-twice", "open gives the lock back when it does not hold it")
				}
				if c.St.Has("mem") {
					c.Report("c12:open-mem-left", "a failed open gives the lock back while the in-memory store it opened still runs")
				}
				if c.St.Has("background") {
					c.Report("c12:open-background-left", "a failed open gives the lock back while background work runs")
				}
				c.St.Del("locked")
			case is[c.Name]:
				c.Opaque()
				r.Count("file steps of open", 1)
				if !c.St.Has("locked") {
					c.Report("c12:unlocked:"+c.Name, "open reaches %s on a path where it does not hold the lock of the directory", c.Name)
				}
				mem := c.Name == "memdb.Open"
				c.ForkErr(func(s *State) {
					if mem {
						s.Add("mem")
					}
				}, nil)
			case c.Name == "memdb.DB.Close":
				c.Opaque()
				c.handled = true
				c.St.Del("mem")
			case c.Name == "unitdb._FileSet.close":
				c.Opaque()
				c.handled = true
			case c.Name == "unitdb.DB.startSyncer" || c.Name == "unitdb.DB.startExpirer":
				c.Opaque()
				c.handled = true
				c.St.Add("background")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("open exits", 1)
			if c.mayBeSuccess(fn, res) {
				if !c.St.Has("locked") {
					c.Report("c12:open-without-lock", "open can succeed without holding the lock of the directory")
				}
				r.Count("open successes", 1)
			} else if c.St.Has("locked") {
				c.Report("c12:open-stays-locked", "open can fail and leave the directory locked")
			}
		}
		r.Explore(h, f)
		r.Need("open exits", 5)
		r.Need("open successes", 1)
		r.Need("file steps of open", 3)
	}
	// B. createLockFile reports what newLockFile reports
	closeNames := []string{"os.File.Close", "syscall.Close"}
	if f := r.Fn("unitdb.createLockFile"); f != nil {
		h := &Hooks{Interesting: callIs(append([]string{"syscall.Flock", "os.SameFile", "os.OpenFile", "os.Create", "os.Open", "os.Stat", "os.Lstat", "os.File.Stat"}, closeNames...)...)}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "os.OpenFile", "os.Create", "os.Open":
				c.ForkErr(func(s *State) { s.Del("closed") }, nil)
			case "syscall.Flock":
				r.Count("flock calls", 1)
				how, ok := c.Args[1].constInt()
				if !ok || how&2 == 0 {
					c.Report("c12:not-exclusive", "the lock file is not locked exclusively")
				}
				if !ok || how&4 == 0 {
					c.Report("c12:blocks", "opening a database that is in use waits instead of failing")
				}
				c.ForkErr(func(s *State) { s.Add("flocked") }, nil)
			case "os.SameFile":
				res := c.Res
				c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vTrue); s.Add("same") })
				c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vFalse) })
			case "os.File.Close", "syscall.Close":
				c.handled = true
				c.St.Del("flocked")
				c.St.Del("same")
			case "unitdb.newLockFile":
				// another attempt: it is held to the same rule.
				if c.InFn(r.P.fn("unitdb.newLockFile")) {
					if c.St.Has("flocked") {
						c.Report("c12:retry-keeps", "taking the lock is tried again while a stale file is still held")
					}
					c.Opaque()
					c.ForkErr(func(s *State) { s.Add("flocked"); s.Add("same") }, nil)
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("lock exits", 1)
			if c.mayBeSuccess(fn, res) {
				if !c.St.Has("flocked") {
					c.Report("c12:not-locked", "taking the lock of the directory can succeed without locking the file")
				} else if !c.St.Has("same") {
					c.Report("c12:stale-file", "taking the lock can succeed on a file that is no longer the lock file of the directory")
				}
			} else if c.St.Has("flocked") {
				c.Report("c12:lock-failure-keeps", "taking the lock can fail and keep the file locked")
			}
		}
		r.Explore(h, f)
		r.Need("flock calls", 1)
		r.Need("lock exits", 1)
	}
	// C. unlock
	if f := r.Fn(unlockUnix); f != nil {
		h := &Hooks{Interesting: callIs(append([]string{"os.Remove", "syscall.Flock"}, closeNames...)...)}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "os.Remove":
				if c.St.Has("closed") {
					c.Report("c12:removed-after", "the lock file is removed after the lock was released, when it can already be the lock of another process")
				}
				c.ForkErr(func(s *State) { s.Add("removed") }, func(s *State) { s.Add("failed") })
			case "os.File.Close", "syscall.Close", "syscall.Flock":
				c.ForkErr(func(s *State) { s.Add("closed") }, func(s *State) { s.Add("closed"); s.Add("failed") })
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("unlock exits", 1)
			if !c.St.Has("closed") {
				c.Report("c12:unlock-keeps", "giving the lock back can leave it held")
			}
			if c.St.Has("failed") && c.mayBeSuccess(fn, res) {
				c.Report("c12:unlock-hides", "giving the lock back reports success although a step failed")
			}
		}
		r.Explore(h, f)
		r.Need("unlock exits", 1)
	}
	// D. close gives it back; nothing else does
	if f := r.Fn("unitdb.DB.Close"); f != nil {
		steps := closeSteps(r)
		h := &Hooks{Interesting: steps.interesting}
		h.Call = func(c *CallCtx) {
			if c.Name == unlockIface || c.Name == unlockUnix {
				r.Count("unlocks of close", 1)
				if c.St.Has("did unlock") {
					c.Report("c12:close-unlock-twice", "close gives the lock back twice")
				}
				for _, s := range []string{"close the in-memory store", "write the header", "write the free space", "close the files"} {
					if !c.St.Has("did " + s) {
						c.Report("c12:close-order:"+s, "close gives the lock back before it has tried to %s", s)
					}
				}
			} else if c.St.Has("did unlock") && steps.of(c) != "" {
				c.Report("c12:after-unlock", "close does %s after giving the lock back", c.Name)
			}
			steps.call(c)
		}
		h.Store = steps.store
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if c.St.Has("closing") {
				r.Count("closes", 1)
				if !c.St.Has("did unlock") {
					c.Report("c12:close-keeps", "close can leave the directory locked")
				}
			}
		}
		r.Explore(h, f)
		r.Need("closes", 1)
	}
	allowed := map[string]bool{}
	for _, n := range []string{"unitdb.Open", "unitdb.DB.Close"} {
		if f := r.P.fn(n); f != nil {
			for g := range r.P.reach(f) {
				allowed[fname(g)] = true
			}
			allowed[n] = true
		}
	}
	for _, f := range r.P.fns(func(f *ssa.Function) bool { return pkgOf(f) == "unitdb" }) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if ok && staticName(ci.Common()) == unlockIface {
					r.Count("unlock sites", 1)
					if !allowed[fname(f)] {
						r.Violate("c12:unlock-site:"+fname(f), r.P.pos(in.Pos()), "%s gives the lock of the directory back", fname(f))
					}
				}
			}
		}
	}
	r.Need("unlock sites", 1)
}

// teardown is the vocabulary of the close sequence.
type teardown struct {
	step   map[string]string
	closed map[*types.Var]bool
	signal *types.Var
	syncC  *types.Var
	waitW  *types.Var
}

func closeSteps(r *Run) *teardown {
	t := &teardown{step: map[string]string{
		"memdb.DB.Close":          "close the in-memory store",
		"unitdb.DB.writeInfo":     "write the header",
		"unitdb._Lease.write":     "write the free space",
		"unitdb._FileSet.close":   "close the files",
		unlockIface:               "unlock",
		unlockUnix:                "unlock",
		"unitdb.DB.sync":          "write to the files",
		"unitdb._FileSet.sync":    "write to the files",
		"unitdb._SyncHandle.sync": "write to the files",
		"unitdb._SyncHandle.Sync": "write to the files",
	}}
	t.closed = map[*types.Var]bool{r.Field("unitdb", "_DB", "closed"): true}
	t.signal = r.Field("unitdb", "_DB", "closeC")
	t.syncC = r.Field("unitdb", "_DB", "syncLockC")
	t.waitW = r.Field("unitdb", "_DB", "closeW")
	return t
}

func (t *teardown) interesting(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if ok {
		n := staticName(ci.Common())
		if t.step[n] != "" || n == "builtin.close" || n == "sync.WaitGroup.Wait" || strings.HasPrefix(n, "sync/atomic.CompareAndSwap") {
			return true
		}
	}
	if fa, ok := in.(*ssa.FieldAddr); ok {
		f := structOf(fa.X.Type()).Field(fa.Field)
		return t.closed[f] || f == t.signal || f == t.syncC
	}
	return false
}

func (t *teardown) of(c *CallCtx) string { return t.step[c.Name] }

func isFieldVal(v *Val, f *types.Var) bool {
	return v.op == OLoad && v.args[0].op == OFAddr && v.args[0].fld == f || v.op == OFAddr && v.fld == f || v.op == OField && v.fld == f
}

func (t *teardown) call(c *CallCtx) {
	if c.Name == "builtin.close" && isFieldVal(c.Args[0], t.signal) {
		c.handled = true
		c.St.Add("signalled")
		return
	}
	if c.Name == "sync.WaitGroup.Wait" && !c.IsGo && isFieldVal(c.Args[0], t.waitW) {
		c.handled = true
		c.St.Add("waited")
		return
	}
	if s := t.step[c.Name]; s != "" {
		c.Opaque()
		if c.IsGo {
			return
		}
		c.ForkErr(func(st *State) { st.Add("did " + s) }, func(st *State) { st.Add("did " + s); st.Add("failed") })
	}
}

func (t *teardown) store(c *Ctx, addr, v *Val) {
	if addr.op == OFAddr && t.closed[addr.fld] {
		c.St.Add("closing")
	}
}

// checkC13: the order of closing.
func checkC13(r *Run) {
	r.Rule("close of the database: mark closed, signal, acquire the sync lock and keep it, wait for the wait group; only then close the in-memory store, write header and free list (after the store is closed), close the files last of these; every step is done on every path and a failed step is reported")
	r.Rule("close of the in-memory store stops the log manager and waits for it before closing the log; close of the log waits for pending writes before closing its store; the log manager writes the last log, hands every received log on, and ends only when its queue is closed and empty")
	r.Rule("every other acquisition of the sync lock gives up when close was signalled, so no work starts while or after close holds it")
	p := r.P
	// A. DB.Close
	if f := r.Fn("unitdb.DB.Close"); f != nil {
		t := closeSteps(r)
		h := &Hooks{Interesting: t.interesting}
		before := map[string][]string{
			"close the in-memory store": {"signalled", "excluded", "waited"},
			"write the header":          {"signalled", "excluded", "waited", "did close the in-memory store"},
			"write the free space":      {"signalled", "excluded", "waited", "did close the in-memory store"},
			"close the files":           {"signalled", "excluded", "waited", "did close the in-memory store", "did write the header", "did write the free space"},
			"unlock":                    {"did close the files"},
		}
		h.Call = func(c *CallCtx) {
			if s := t.of(c); s != "" {
				r.Count("close steps", 1)
				for _, b := range before[s] {
					if !c.St.Has(b) {
						c.Report("c13:order:"+s+":"+b, "close can %s before %s", s, map[string]string{"signalled": "background work was signalled", "excluded": "a running sync was excluded", "waited": "background work has ended"}[b]+strings.TrimPrefix(b, map[bool]string{true: "", false: b}[strings.HasPrefix(b, "did ")]))
					}
				}
				if s != "unlock" && c.St.Has("did close the files") && s != "close the in-memory store" {
					c.Report("c13:after:"+s, "close does %s after the files are closed", s)
				}
			}
			t.call(c)
		}
		h.Send = func(c *Ctx, ch, v *Val) {
			if isFieldVal(ch, t.syncC) {
				c.St.Add("excluded")
				if !c.St.Has("signalled") {
					c.Report("c13:signal-late", "close waits for a running sync before it signalled background work to stop")
				}
			}
		}
		h.Recv = func(c *Ctx, ch *Val) {
			if isFieldVal(ch, t.syncC) {
				c.St.Del("excluded")
			}
		}
		h.Store = t.store
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.St.Has("closing") {
				return
			}
			r.Count("closes", 1)
			for _, s := range []string{"close the in-memory store", "write the header", "write the free space", "close the files", "unlock"} {
				if !c.St.Has("did " + s) {
					c.Report("c13:skipped:"+s, "close can end without having tried to %s", s)
				}
			}
			if c.St.Has("failed") && c.mayBeSuccess(fn, res) {
				c.Report("c13:hidden", "close can report success although a step failed")
			}
		}
		r.Explore(h, f)
		r.Need("closes", 1)
		r.Need("close steps", 1)
	}
	// B. sync lock acquisitions elsewhere give up when close was signalled
	syncC, signal := p.field("unitdb", "_DB", "syncLockC"), p.field("unitdb", "_DB", "closeC")
	before := map[string]bool{}
	if f := r.Fn("unitdb.DB.Close"); f != nil {
		for g := range p.reach(f) {
			before[fname(g)] = true
		}
		before[fname(f)] = true
	}
	// work done by open before it returns can't meet a close
	late := map[string]bool{}
	for _, f := range append(r.methodsOf("unitdb.DB", "unitdb.Batch"), r.Fn("unitdb.DB.startSyncer"), r.Fn("unitdb.DB.startExpirer")) {
		if f == nil {
			continue
		}
		late[fname(f)] = true
		for g := range p.reach(f) {
			late[fname(g)] = true
		}
	}
	loads := func(v ssa.Value, f *types.Var) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && structOf(fa.X.Type()).Field(fa.Field) == f
	}
	for _, f := range p.fns(func(f *ssa.Function) bool { return pkgOf(f) == "unitdb" }) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if loads(x.Chan, syncC) {
						r.Count("sync lock sites", 1)
						if late[fname(f)] && !before[fname(f)] {
							r.Violate("c13:no-giveup:"+fname(f), p.pos(in.Pos()), "%s waits for the sync lock without giving up when the database is closed, which keeps the lock", fname(f))
						}
					}
				case *ssa.Select:
					mine, gives := false, !x.Blocking
					for _, s := range x.States {
						if s.Dir == types.SendOnly && loads(s.Chan, syncC) {
							mine = true
						}
						if s.Dir == types.RecvOnly && loads(s.Chan, signal) {
							gives = true
						}
					}
					if mine {
						r.Count("sync lock sites", 1)
						if !gives {
							r.Violate("c13:no-giveup:"+fname(f), p.pos(in.Pos()), "%s waits for the sync lock without giving up when the database is closed, which keeps the lock", fname(f))
						}
					}
				}
			}
		}
	}
	r.Need("sync lock sites", 1)
	// C. the in-memory store
	stop := r.Field("memdb", "_TinyLogManager", "stop")
	stopWg := r.Field("memdb", "_TinyLogManager", "stopWg")
	memClosed := r.Field("memdb", "_DB", "closed")
	if f := r.Fn("memdb.DB.Close"); f != nil {
		is := callIs("wal.WAL.Close", "io.Closer.Close", "builtin.close", "sync.Once.Do", "sync.WaitGroup.Wait", "sync/atomic.CompareAndSwapUint32")
		h := &Hooks{Interesting: anyOf(is, fieldUse(memClosed))}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == memClosed {
				c.St.Add("closing")
			}
		}
		h.NonNil = func(f *types.Var) bool { return f == p.field("memdb", "_DB", "closer") }
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "sync.Once.Do":
				c.St.Add("onceDone")
			case c.Name == "builtin.close" && isFieldVal(c.Args[0], stop):
				c.St.Add("stopped")
				c.handled = true
				r.Count("stops", 1)
			case c.Name == "sync.WaitGroup.Wait" && !c.IsGo && isFieldVal(c.Args[0], stopWg):
				c.handled = true
				if !c.St.Has("stopped") && !c.St.Has("onceDone") {
					c.Report("c13:mem-wait", "closing the in-memory store waits for the log manager without having stopped it")
				}
				c.St.Add("waited")
			case c.Name == "wal.WAL.Close" || c.Name == "io.Closer.Close":
				r.Count("log closes", 1)
				if !c.St.Has("waited") {
					c.Report("c13:mem-order", "the log is closed before the last entries were written to it")
				}
				c.Opaque()
				c.ForkErr(func(s *State) { s.Add("log closed") }, func(s *State) { s.Add("log closed"); s.Add("failed") })
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.St.Has("closing") {
				return
			}
			r.Count("in-memory closes", 1)
			if !c.St.Has("log closed") {
				c.Report("c13:mem-log-open", "closing the in-memory store can leave its log open")
			}
			if !c.St.Has("waited") {
				c.Report("c13:mem-not-flushed", "closing the in-memory store can end before the last entries were written to the log")
			}
			if c.St.Has("failed") && c.mayBeSuccess(fn, res) {
				c.Report("c13:mem-hidden", "closing the in-memory store can report success although closing the log failed")
			}
		}
		r.Explore(h, f)
		r.Need("in-memory closes", 1)
		r.Need("log closes", 1)
		r.Need("stops", 1)
	}
	// D. the log
	wg := r.Field("wal", "WAL", "wg")
	if f := r.Fn("wal.WAL.Close"); f != nil {
		h := &Hooks{Interesting: callIs("wal._FileStore.close", "sync.WaitGroup.Wait")}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "sync.WaitGroup.Wait" && !c.IsGo && isFieldVal(c.Args[0], wg):
				c.handled = true
				c.St.Add("waited")
			case c.Name == "wal._FileStore.close":
				c.handled = true
				c.Opaque()
				r.Count("log store closes", 1)
				if !c.St.Has("waited") {
					c.Report("c13:wal-order", "the log store is closed before pending log writes have ended")
				}
			}
		}
		r.Explore(h, f)
		r.Need("log store closes", 1)
	}
	c13Loops(r, stop)
}

// c13Loops: the log manager loses no log on its way to the WAL.
func c13Loops(r *Run, stop *types.Var) {
	p := r.P
	writeQ := r.Field("memdb", "_TinyLogManager", "writeQueue")
	logQ := r.Field("memdb", "_TinyLogManager", "logQueue")
	closedF := r.Field("memdb", "_TinyLogManager", "closed")
	writers := r.Field("memdb", "_TinyLogManager", "writers")
	stopWg := r.Field("memdb", "_TinyLogManager", "stopWg")
	cur := r.Field("memdb", "_TinyLogManager", "tinyLog")
	if writeQ == nil || logQ == nil || closedF == nil || writers == nil || cur == nil {
		return
	}
	// received logs are passed on
	pass := func(name string, from *types.Var, doneCall string, doneSend *types.Var) {
		f := r.Fn(name)
		if f == nil {
			return
		}
		h := &Hooks{}
		isSel := func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				return x.Op.String() == "<-"
			case *ssa.Send:
				return true
			}
			return false
		}
		h.Interesting = anyOf(isSel, callIs(doneCall, "builtin.close", "sync.WaitGroup.Done"))
		h.Recv = func(c *Ctx, ch *Val) {
			if isFieldVal(ch, from) {
				r.Count("logs received", 1)
				if c.St.Has("pending") {
					c.Report("c13:dropped:"+name, "%s can receive a log and go on without passing the previous one on", name)
				}
				c.St.Add("pending")
			}
			if isFieldVal(ch, stop) {
				c.St.Add("stop seen")
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op == OFresh && strings.HasPrefix(cond.aux, "ok") && !truth {
				c.St.Del("pending")
				c.St.Add("drained")
			}
			if cond.op == OBin && cond.aux == "==" && truth {
				x, y := cond.args[0], cond.args[1]
				if x.op == ONil {
					x, y = y, x
				}
				if y.op == ONil && x.op == ORecv {
					c.St.Del("pending")
				}
			}
		}
		h.Send = func(c *Ctx, ch, v *Val) {
			if doneSend != nil && isFieldVal(ch, doneSend) {
				r.Count("logs passed on", 1)
				if v.op != ORecv {
					c.Report("c13:other:"+name, "%s passes on something other than the log it received", name)
				}
				c.St.Del("pending")
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case doneCall != "" && c.Name == doneCall:
				r.Count("logs passed on", 1)
				c.Opaque()
				if a := c.Args[len(c.Args)-1]; a.op != ORecv {
					c.Report("c13:other:"+name, "%s passes on something other than the log it received", name)
				}
				c.St.Del("pending")
				c.ForkErr(nil, nil)
			case c.Name == "builtin.close" && doneSend != nil && isFieldVal(c.Args[0], doneSend):
				c.handled = true
				if !c.St.Has("drained") {
					c.Report("c13:closes-early:"+name, "%s closes the queue before all logs were passed on", name)
				}
				c.St.Add("next closed")
			case c.Name == "sync.WaitGroup.Done" && isFieldVal(c.Args[0], stopWg):
				c.handled = true
				c.St.Add("done")
				if c.St.Has("pending") || !c.St.Has("drained") {
					c.Report("c13:done-early:"+name, "%s can report that it has ended before all logs were passed on", name)
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("log manager exits", 1)
			if c.St.Has("pending") || !c.St.Has("drained") {
				c.Report("c13:ends-early:"+name, "%s can end before all logs were passed on", name)
			}
			if !c.St.Has("done") {
				c.Report("c13:never-done:"+name, "%s can end without telling close that it has", name)
			}
			if doneSend != nil && !c.St.Has("next closed") {
				c.Report("c13:not-closed:"+name, "%s can end without closing the queue it feeds", name)
			}
		}
		r.Explore(h, f)
	}
	pass("memdb._TinyLogManager.commitLoop", logQ, "memdb.DB.tinyCommit", nil)
	pass("memdb._TinyLogManager.dispatch", writeQ, "", logQ)
	r.Need("logs received", 1)
	r.Need("logs passed on", 1)
	r.Need("log manager exits", 1)
	// the log that is replaced, and the last one, are written
	if f := r.Fn("memdb._TinyLogManager.writeLoop"); f != nil {
		sendIs := func(in ssa.Instruction) bool { _, ok := in.(*ssa.Send); return ok }
		h := &Hooks{Interesting: anyOf(sendIs, callIs("memdb._TinyLogManager.newTinyLog", "builtin.close", "sync.WaitGroup.Wait"), fieldUse(cur), fieldUse(closedF))}
		addrOf := map[*Val]bool{}
		h.Load = func(c *Ctx, addr *Val) {
			if addr.op == OFAddr && addr.fld == cur {
				addrOf[addr] = true
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == closedF && v == c.E.vTrue {
				c.St.Add("refusing")
			}
		}
		h.KeepFact = func(v *Val) bool { return v.op == OLoad && v.args[0].op == OFAddr && v.args[0].fld == cur }
		h.Recv = func(c *Ctx, ch *Val) {
			if isFieldVal(ch, stop) {
				c.St.Add("stopping")
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "memdb._TinyLogManager.newTinyLog":
				c.handled = true
				c.Opaque()
				r.Count("logs replaced", 1)
				if c.St.Has("owed") {
					c.Report("c13:replaced-twice", "a log is replaced before the one replaced earlier was queued")
				}
				a := c.E.faddr(c.Args[0], cur)
				c.St.Add("owed", c.E.load(c.St, a, cur.Type()))
				c.E.store(c.St, a, c.E.site(c.fr, c.In, OFresh, "new log", cur.Type()))
			case c.Name == "sync.WaitGroup.Wait" && !c.IsGo && isFieldVal(c.Args[0], writers):
				c.handled = true
				if c.St.Has("refusing") {
					c.St.Add("writers gone")
				}
			case c.Name == "builtin.close" && isFieldVal(c.Args[0], writeQ):
				c.handled = true
				r.Count("queue closes", 1)
				if !c.St.Has("writers gone") {
					c.Report("c13:close-in-use", "the write queue is closed while batches can still be sending to it")
				}
				if !c.St.Has("last queued") {
					c.Report("c13:last-lost", "the write queue is closed before the last log was queued")
				}
				c.St.Add("queue closed")
			}
		}
		h.Send = func(c *Ctx, ch, v *Val) {
			if !isFieldVal(ch, writeQ) {
				return
			}
			r.Count("logs queued", 1)
			if c.St.Has("owed") {
				if c.St.HasV("owed", v) {
					c.St.Del("owed")
				} else {
					c.Report("c13:queued-other", "the log that was replaced is not the one that is queued")
					c.St.Del("owed")
				}
			} else if c.St.Has("stopping") {
				for a := range addrOf {
					if c.E.load(c.St, a, cur.Type()) == v {
						c.St.Add("last queued")
					}
				}
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			if c.St.Has("owed") {
				c.Report("c13:replaced-lost", "a log can be replaced without being queued")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("write loop exits", 1)
			if !c.St.Has("queue closed") {
				c.Report("c13:queue-open", "the write loop can end without closing its queue, close would wait forever")
			}
			if !c.St.Has("last queued") {
				c.Report("c13:last-lost", "the write loop can end without queueing the last log")
			}
		}
		r.Explore(h, f)
		r.Need("logs replaced", 1)
		r.Need("queue closes", 1)
		r.Need("write loop exits", 1)
	}
	_ = p
}
