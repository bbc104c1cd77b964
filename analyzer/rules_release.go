package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// loopHas: is one of the instructions of the loop selected.
func loopHas(l *loop, pred func(ssa.Instruction) bool) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	return false
}

// callReaches: instructions that call one of the named functions, also through module functions.
func (p *Prog) callReaches(names ...string) func(ssa.Instruction) bool {
	is := callIs(names...)
	memo := map[*ssa.Function]bool{}
	return func(in ssa.Instruction) bool {
		if is(in) {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		if g == nil || !p.inModule(g) {
			return false
		}
		v, ok := memo[g]
		if !ok {
			v = p.reachesCall(g, names...)
			memo[g] = v
		}
		return v
	}
}

// isEmptySlice: a value known to have length zero.
func isEmptySlice(v *Val) bool {
	switch v.op {
	case ONil:
		return true
	case OSlice:
		if v.args[2] != nil {
			k, ok := v.args[2].constInt()
			return ok && k == 0
		}
	case OMake:
		if len(v.args) > 0 {
			k, ok := v.args[0].constInt()
			return ok && k == 0
		}
	}
	return false
}

func checkC03(r *Run) {
	p := r.P
	r.Rule("only the log store removes files, and only log files, reached from its release and reset operations, at open only when a reset was asked for; the lock file is the one other removal")
	r.Rule("the release of a log is requested only for the log references kept with a memory block: by the explicit free, by an abort whose committed entries were detached first, or for a block found to be empty")
	r.Rule("a log reference is attached to a block only for a log that was written successfully or is being replayed")
	r.Rule("the database frees a memory block only after every entry of it was handed to the writers and a sync in which every step succeeded, on every path of the sync and recovery callbacks")

	// who may remove files
	removals := []string{"os.Remove", "os.RemoveAll", "os.Truncate", "syscall.Unlink", "golang.org/x/sys/unix.Unlink"}
	lock := p.typ("unitdb", "_LockFile")
	var lockI *types.Interface
	if lock != nil {
		lockI, _ = lock.Underlying().(*types.Interface)
	}
	sufs := logSuffixes(p)
	for _, ci := range p.callsTo(removals...) {
		pk := pkgOf(ci.Parent())
		n := staticName(ci.Common())
		switch pk {
		case "wal":
			r.Count("file removals", 1)
			if n != "os.Remove" {
				r.Violate("c03:removal:"+fname(ci.Parent()), p.instrPos(ci), "%s removes files with %s; only single logs may be removed", fname(ci.Parent()), n)
			}
		case "unitdb", "memdb":
			r.Count("file removals", 1)
			top := ci.Parent()
			for top.Parent() != nil {
				top = top.Parent()
			}
			rv := top.Signature.Recv()
			if n == "os.Remove" && rv != nil && lockI != nil && types.Implements(rv.Type(), lockI) {
				continue
			}
			r.Violate("c03:removal:"+fname(ci.Parent()), p.instrPos(ci), "%s removes files; only the log store removes logs", fname(ci.Parent()))
		}
	}
	for _, f := range p.entries("wal") {
		if !entryExported(f) || !p.reachesCall(f, removals...) {
			continue
		}
		n := fname(f)
		r.Count("log store operations that remove", 1)
		reset := r.Field("wal", "Options", "Reset")
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			if callIs(removals...)(in) {
				return true
			}
			fa, ok := in.(*ssa.FieldAddr)
			return ok && structOf(fa.X.Type()).Field(fa.Field) == reset
		}}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if isField(cond, reset) && truth {
				c.St.Add("reset")
			}
		}
		h.Call = func(c *CallCtx) {
			if c.Name != "os.Remove" {
				return
			}
			r.Count("removal paths", 1)
			name := c.Args[0]
			if fin, known := finalName(name, sufs); !fin || !known {
				c.Report("c03:removed-name:"+n, "%s removes a file whose name is not recognised as the name of a log", n)
			}
			switch n {
			case "wal.WAL.SignalLogApplied":
				own := name.contains(func(v *Val) bool {
					return v.op == OParam && v.typ != nil && types.Identical(v.typ.Underlying(), types.Typ[types.Int64])
				})
				if !own {
					c.Report("c03:removed-other", "%s removes another log than the one that was applied", n)
				}
			case "wal.WAL.Reset":
			case "wal.New":
				if !c.St.Has("reset") {
					c.Report("c03:removed-at-open", "opening the log removes logs although no reset was asked for")
				}
			default:
				c.Report("c03:removed-by:"+n, "%s removes a log; only the release of an applied log and a reset may", n)
			}
		}
		r.Explore(h, f)
	}
	r.Need("log store operations that remove", 1)
	r.Need("removal paths", 1)
	for _, ci := range p.callsTo("wal.WAL.Reset") {
		if pk := pkgOf(ci.Parent()); pk == "memdb" || pk == "unitdb" {
			r.Violate("c03:reset-call:"+fname(ci.Parent()), p.instrPos(ci), "%s removes all logs", fname(ci.Parent()))
		}
	}
	for _, ci := range p.callsTo("wal.WAL.SignalLogApplied") {
		r.Count("release requests", 1)
		if pk := pkgOf(ci.Parent()); pk != "memdb" && pk != "wal" {
			r.Violate("c03:release-call:"+fname(ci.Parent()), p.instrPos(ci), "%s releases a log directly", fname(ci.Parent()))
		}
	}

	releasePaths(r)
	freePaths(r)
}

// releasePaths: when memdb asks the log store to release a log.
func releasePaths(r *Run) {
	p := r.P
	timeRefs := r.Field("memdb", "_Block", "timeRefs")
	count := r.Field("memdb", "_Block", "count")
	records := r.Field("memdb", "_Block", "records")
	group := r.Field("memdb", "Batch", "batchGroup")
	blog := r.Field("memdb", "Batch", "tinyLog")
	released := r.Field("memdb", "_TimeMark", "releasedRecords")
	logID := r.Field("memdb", "_TinyLog", "_TimeID")
	logRef := r.Field("memdb", "_TinyLog", "id")
	recovered := r.Field("wal", "WAL", "recoveredTimeIDs")
	if recovered == nil || timeRefs == nil || count == nil || records == nil || group == nil || blog == nil || released == nil || logID == nil {
		return
	}
	set := map[*types.Var]bool{}
	for _, n := range []string{"Batch", "_TinyLogManager"} {
		if f := p.field("memdb", n, "tinyLog"); f != nil {
			set[f] = p.alwaysSet(f)
		}
	}
	calls := callIs("wal.WAL.SignalLogApplied", "wal.Writer.SignalInitWrite", "wal.Reader.Iterator")
	h := &Hooks{NonNil: func(f *types.Var) bool { return set[f] }}
	h.Interesting = func(in ssa.Instruction) bool {
		if calls(in) {
			return true
		}
		switch x := in.(type) {
		case *ssa.FieldAddr:
			return structOf(x.X.Type()).Field(x.Field) == logID || structOf(x.X.Type()).Field(x.Field) == logRef
		case *ssa.MapUpdate:
			return mapField(x.Map) == released
		case *ssa.Send:
			return isPtrTo(x.X.Type(), "_TinyLog")
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				f := structOf(fa.X.Type()).Field(fa.Field)
				return f == timeRefs || f == group || f == blog
			}
		}
		return false
	}
	rootName, goroot := "", false
	h.Call = func(c *CallCtx) {
		e := c.E
		switch c.Name {
		case "wal.Writer.SignalInitWrite":
			id := c.Args[1]
			c.forkChanErr(func(s *State) { s.Add("logged", id) }, nil)
		case "wal.Reader.Iterator":
			// the callback is run for each log
		case "wal.WAL.SignalLogApplied":
			r.Count("release paths", 1)
			id := c.Args[1]
			if !id.contains(func(v *Val) bool { return isField(v, timeRefs) }) {
				c.Report("c03:released-id", "a log is released that is not one of the logs of the block")
			}
			empty := c.St.Has("empty")
			switch {
			case rootName == "memdb.DB.Free" && !goroot:
			case empty && c.St.Has("older"):
			case empty && rootName == "memdb.Open":
			case c.St.Has("marked"):
				if !c.St.Has("detached") || !c.St.Has("fresh-log") {
					c.Report("c03:released-committed", "logs of entries that were just committed are released: the batch still holds them when it is aborted")
				}
			case strings.HasPrefix(rootName, "memdb.Batch.") || rootName == "memdb.DB.Batch":
			default:
				c.Report("c03:released:"+rootName, "%s releases a log of a block that is not known to be empty and older than the current block", rootName)
			}
			c.ForkErr(nil, nil)
		}
		_ = e
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op != OBin {
			return
		}
		x, y := cond.args[0], cond.args[1]
		zero := func(v *Val) bool { k, ok := v.constInt(); return ok && k == 0 }
		isCount := func(v *Val) bool {
			return v.contains(func(v *Val) bool { return isField(v, count) })
		}
		switch {
		case cond.aux == "==" && truth && (isCount(x) && zero(y) || isCount(y) && zero(x)):
			c.St.Add("empty")
		case cond.aux == "<" && !truth && zero(x) && isCount(y):
			c.St.Add("empty") // count <= 0
		case cond.aux == "==" && !truth && (isCount(x) && zero(y)):
			c.St.Del("empty")
		case emptyCondOf(cond, truth, func(v *Val) bool {
			return v.contains(func(v *Val) bool { return isField(v, records) })
		}):
			c.St.Add("empty")
		}
		// the block is older than the one that is being filled
		cur := func(v *Val) bool {
			return v.contains(func(v *Val) bool { return isField(v, logID) })
		}
		if cond.aux == "<" && truth && cur(y) && !cur(x) {
			c.St.Add("older")
		}
	}
	h.Store = func(c *Ctx, addr, val *Val) {
		if addr.op != OFAddr {
			return
		}
		switch addr.fld {
		case group:
			if isEmptySlice(val) {
				c.St.Add("detached")
			} else {
				c.St.Del("detached")
			}
		case blog:
			if val.op == OAlloc {
				c.St.Add("fresh-log")
			}
		case timeRefs:
			if addrRoot(addr).op == OAlloc && isEmptySlice(val) || val.op == ONil {
				return
			}
			r.Count("log references attached", 1)
			if val.op != OAppend {
				c.Report("c03:attached-form", "cannot decide which log is attached to a block")
				return
			}
			for _, el := range c.appended(val) {
				el := stripConv(el)
				ok := false
				for _, id := range c.St.Find("logged") {
					ok = ok || stripConv(id) == el
				}
				// the log is being replayed
				ok = ok || el.contains(func(v *Val) bool { return isField(v, recovered) })
				if !ok {
					c.Report("c03:attached-id:"+fname(c.Fn()), "a block is given the reference of a log that was not written successfully on this path: the log of its entries is never or wrongly released")
				}
			}
		}
	}
	h.Send = func(c *Ctx, ch, v *Val) {
		if v.typ != nil && isPtrTo(v.typ, "_TinyLog") {
			c.St.Del("fresh-log")
		}
	}
	h.Recv = func(c *Ctx, ch *Val) {
		if ch.typ != nil && chanOfLog(ch.typ, func(t types.Type) bool { return isPtrTo(t, "_TinyLog") }) {
			c.St.Del("logged")
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if isField(m, released) && v != nil {
			c.St.Add("marked")
			c.St.Del("detached")
		}
	}
	for _, f := range p.entries("memdb") {
		rootName = fname(f)
		r.Explore(h, f)
	}
	goroot = true
	for _, f := range p.goTargets("memdb") {
		rootName = fname(f)
		r.Explore(h, f)
	}
	r.Need("release paths", 1)
	r.Need("log references attached", 1)
}

// appended lists the elements an append adds.
func (c *Ctx) appended(v *Val) []*Val {
	var r []*Val
	for _, a := range v.args[1:] {
		if a.op == OSlice && a.args[0].op == OAlloc {
			if at, ok := deref(a.args[0].typ).Underlying().(*types.Array); ok && at.Len() <= 8 {
				for i := int64(0); i < at.Len(); i++ {
					r = append(r, c.E.load(c.St, c.E.in.mk(Val{op: OIAddr, args: []*Val{a.args[0], c.E.in.integer(i)}}), at.Elem()))
				}
				continue
			}
		}
		r = append(r, a)
	}
	return r
}

func stripConv(v *Val) *Val {
	for v != nil && v.op == OConv {
		v = v.args[0]
	}
	return v
}

// freePaths: when the database lets memdb release its logs.
func freePaths(r *Run) {
	p := r.P
	steps := map[string]bool{
		"unitdb._WindowWriter.append": true, "unitdb._WindowWriter.write": true, "unitdb._BlockWriter.append": true, "unitdb._BlockWriter.extend": true,
		"unitdb._BlockWriter.write": true, "unitdb.DB.writeInfo": true, "unitdb._FileSet.sync": true, "memdb.DB.Lookup": true, "unitdb._Entry.UnmarshalBinary": true,
		"unitdb._BlockReader.readTopic": true, "message.Topic.Unmarshal": true,
	}
	for n := range steps {
		if !strings.Contains(n, "Unmarshal") && !strings.Contains(n, "readTopic") {
			r.Fn(n)
		}
	}
	is := calleeIn(steps, memOps)
	must := []string{"unitdb._WindowWriter.write", "unitdb._BlockWriter.write", "unitdb._FileSet.sync"}
	appends := p.callReaches("unitdb._BlockWriter.append")
	h := &Hooks{}
	h.Interesting = is
	h.Call = func(c *CallCtx) {
		e := c.E
		n := c.Name
		if n == "memdb.DB.Free" {
			r.Count("frees", 1)
			for _, t := range c.St.WithPrefix("failed:") {
				c.Report("c03:free-after-failure:"+t.N[7:], "a memory block and its logs are released although %s failed", t.N[7:])
			}
			for _, m := range must {
				if c.St.Has("nothing") {
					break
				}
				if !c.St.Has("ok:" + m) {
					c.Report("c03:free-unsynced:"+m, "a memory block and its logs are released although %s did not run successfully on this path", m)
				}
			}
			c.Opaque()
			c.ForkErr(nil, nil)
			return
		}
		if memOps[n] {
			if n != "memdb.DB.Lookup" {
				return
			}
		}
		if !steps[n] {
			return
		}
		c.Opaque()
		if c.ErrRes() == nil {
			return
		}
		c.ForkErr(func(s *State) {
			s.Add("ok:" + n)
			if n == "unitdb._BlockWriter.append" {
				s.Add("appended")
				s.Del("ok:unitdb._BlockWriter.write")
				s.Del("ok:unitdb._FileSet.sync")
			}
			if n == "unitdb._WindowWriter.append" {
				s.Add("windowed")
			}
			if n == "memdb.DB.Lookup" {
				e.setFact(s, e.ext(c.Res, 0, nil), e.vNonNil)
			}
			if n == "unitdb._BlockWriter.write" || n == "unitdb._WindowWriter.write" {
				s.Del("ok:unitdb._FileSet.sync")
			}
		}, func(s *State) {
			s.Add("failed:"+n, c.ErrRes())
		})
	}
	exist := p.fnGlobal("unitdb", "errEntryExist")
	if exist == nil {
		r.Violate("anchor:errEntryExist", "", "errEntryExist not found")
	}
	upper := r.Field("unitdb", "_SyncInfo", "upperSeq")
	h.Store = func(c *Ctx, addr, val *Val) {
		if addr.op == OFAddr && addr.fld == upper {
			c.St.Add("upper", val)
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "<" && !truth && isField(cond.args[0], upper) {
			c.St.Add("upper", cond.args[0]) // already covers the entries of the block
		}
		if cond.op == OBin && cond.aux == "==" && truth {
			if k, ok := cond.args[1].constInt(); ok && k == 0 && c.St.HasV("upper", cond.args[0]) {
				c.St.Add("nothing") // an entry has no zero sequence
			}
		}
		for _, t := range c.St.WithPrefix("failed:unitdb._BlockWriter.append") {
			if t.V == nil {
				continue
			}
			if k := c.St.facts[t.V]; k != nil && k.op == OLoad && k.args[0].op == OGlobal && k.args[0].aux == "unitdb.errEntryExist" {
				c.St.Del(t.N)
				c.St.Add("appended")
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, appends) {
			r.Count("entry loop iterations", 1)
			if !c.St.Has("appended") && len(c.St.WithPrefix("failed:")) == 0 {
				c.Report("c03:entry-skipped:"+fname(fn), "an entry of a memory block can be skipped without being handed to the writers and without a failure; its log is released with the block")
			}
			c.St.Del("appended")
		}
	}
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, appends) {
			c.St.Del("appended")
		}
	}
	n := 0
	done := map[*ssa.Function]bool{}
	for _, ci := range p.callsTo("memdb.DB.Free") {
		f := ci.Parent()
		if pkgOf(f) != "unitdb" {
			continue
		}
		// up to the function that is called from outside or as a callback
		for f.Parent() == nil && !isExported(f) {
			cs := p.callers(f)
			if len(cs) != 1 {
				break
			}
			f = cs[0]
		}
		if done[f] {
			continue
		}
		done[f] = true
		n++
		r.Explore(h, f)
	}
	r.Count("functions that free", n)
	r.Need("functions that free", 1)
	r.Need("frees", 1)
	r.Need("entry loop iterations", 1)
}
