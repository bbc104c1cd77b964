package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = checkC02
}

// isField: is v the contents of field f of something.
func isField(v *Val, f *types.Var) bool {
	return v != nil && f != nil && (v.op == OLoad && v.args[0].op == OFAddr && v.args[0].fld == f || v.op == OField && v.fld == f)
}

// fieldOwner: the address of the object whose field v was loaded from.
func fieldOwner(v *Val) *Val {
	if v.op == OLoad && v.args[0].op == OFAddr {
		return v.args[0].args[0]
	}
	return nil
}

// goTargets lists the functions a package starts as goroutines.
func (p *Prog) goTargets(pkg string) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	var r []*ssa.Function
	for _, f := range p.funcs {
		if pkgOf(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var t *ssa.Function
				if c := g.Call.StaticCallee(); c != nil {
					t = c
				} else if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					t = mc.Fn.(*ssa.Function)
				}
				if t != nil && p.inModule(t) && !set[t] {
					set[t] = true
					r = append(r, t)
				}
			}
		}
	}
	return r
}

func isPtrTo(t types.Type, name string) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(t) == name
}

// forkChanErr: the call returns a channel that delivers an error.
func (c *CallCtx) forkChanErr(ok, fail func(*State)) {
	e := c.E
	cell := e.chanCell(c.Res)
	ev := e.in.mk(Val{op: OFresh, aux: "chanerr", args: []*Val{c.Res}, typ: types.Universe.Lookup("error").Type()})
	c.Fork(func(s *State) {
		s.mem[cell] = e.vNil
		if ok != nil {
			ok(s)
		}
	})
	c.Fork(func(s *State) {
		s.mem[cell] = ev
		e.setFact(s, ev, e.vNonNil)
		if fail != nil {
			fail(s)
		}
	})
}

const bufSlice = "github.com/unit-io/bpool.Buffer.Slice"
const bufWrite = "github.com/unit-io/bpool.Buffer.Write"

func checkC02(r *Run) {
	p := r.P
	r.Rule("time mark release (map write to the released records) only after a successful log write on the path, or when there is nothing to write, or when the entry was read back from a log; never for a managed log")
	r.Rule("the result of a log write is stored in the log before its done channel is closed, which happens exactly once per log")
	r.Rule("a caller that queued a log waits for it and reports its error")
	r.Rule("log writer: success only after the log got its final name (or nothing to write); append: success only after both buffer writes")
	r.Rule("the written position of a block only moves after its log write succeeded and to the end of the data that was written")
	released := r.Field("memdb", "_TimeMark", "releasedRecords")
	managed := r.Field("memdb", "_TinyLog", "managed")
	doneF := r.Field("memdb", "_TinyLog", "doneChan")
	errF := r.Field("memdb", "_TinyLog", "err")
	lastOff := r.Field("memdb", "_Block", "lastOffset")
	records := r.Field("memdb", "_Block", "records")
	timeBlocks := r.Field("memdb", "DB", "timeBlocks")
	if released == nil || managed == nil || doneF == nil || errF == nil || lastOff == nil || records == nil || timeBlocks == nil {
		return
	}
	isLog := func(t types.Type) bool { return isPtrTo(t, "_TinyLog") }
	goroot := false
	set := map[*types.Var]bool{}
	for _, n := range []string{"Batch", "_TinyLogManager"} {
		if f := p.field("memdb", n, "tinyLog"); f != nil {
			set[f] = p.alwaysSet(f)
		}
	}
	h := &Hooks{NonNil: func(f *types.Var) bool { return set[f] }}
	walCalls := callIs("wal.Writer.SignalInitWrite", "wal.Writer.Append", "wal.Reader.Next")
	h.Interesting = func(in ssa.Instruction) bool {
		if walCalls(in) {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return mapField(x.Map) == released
		case *ssa.Lookup:
			return mapField(x.X) == timeBlocks
		case *ssa.Send:
			return isLog(x.X.Type())
		case *ssa.UnOp:
			return x.Op.String() == "<-" && mapField(x.X) == doneF
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if ok {
				f := structOf(fa.X.Type()).Field(fa.Field)
				return f == lastOff || f == errF
			}
		}
		return false
	}
	h.Call = func(c *CallCtx) {
		e := c.E
		switch c.Name {
		case "wal.Writer.SignalInitWrite":
			r.Count("log write requests", 1)
			w := c.Args[0]
			if !c.St.HasV("appended", w) {
				c.Report("c02:write-without-data", "a log is written without the block's entries having been appended to it")
			}
			c.forkChanErr(func(s *State) { s.Add("wal-ok"); s.Add("walres", e.vNil) }, func(s *State) { s.Add("wal-fail") })
		case "wal.Writer.Append":
			w, data := c.Args[0], c.Args[1]
			var hi *Val
			for _, s := range c.St.Find("slice") {
				if s.args[0] == data {
					hi = s.args[2]
					if !isField(s.args[1], lastOff) {
						c.Report("c02:append-start", "the data handed to the log does not start at the block's last written position")
					}
				}
			}
			if hi == nil {
				c.Report("c02:append-data", "cannot decide that the data handed to the log are the block's unwritten entries")
			}
			c.forkChanErr(func(s *State) {
				s.Add("appended", w)
				if hi != nil {
					s.Add("written-to", hi)
				}
			}, func(s *State) { s.Add("wal-fail") })
		case bufSlice:
			res := e.ext(c.Res, 0, nil)
			lo, hi := c.Args[1], c.Args[2]
			c.ForkErr(func(s *State) { s.Add("slice", e.pair("slice", res, lo, hi)) }, nil)
		case "wal.Reader.Next":
			ok, er := e.ext(c.Res, 1, nil), e.ext(c.Res, 2, nil)
			c.Fork(func(s *State) { s.facts[ok] = e.vTrue; e.setFact(s, er, e.vNil); s.Add("replayed") })
			c.Fork(func(s *State) { s.facts[ok] = e.vFalse; e.setFact(s, er, e.vNil); s.Del("replayed") })
			c.Fork(func(s *State) { s.facts[ok] = e.vFalse; e.setFact(s, er, e.vNonNil); s.Del("replayed") })
		case "builtin.close":
			if !isField(c.Args[0], doneF) {
				if c.Args[0].typ != nil {
					if mapFieldVal(c.Args[0]) == doneF {
						r.Count("log completions", 1)
					}
				}
				return
			}
			r.Count("log completions", 1)
			l := fieldOwner(c.Args[0])
			if c.St.HasV("done", l) {
				c.Report("c02:double-close", "the done channel of a log is closed twice on this path")
			}
			c.St.Add("done", l)
			ev := e.load(c.St, e.faddr(l, errF), errF.Type())
			if c.St.Has("wal-fail") && e.nilness(c.St, ev) != 2 {
				c.Report("c02:failure-not-recorded", "a log is completed after its write failed without recording the error, so the waiting commit reports success")
			}
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		nothing := false
		switch {
		case isField(cond, managed):
			if truth {
				c.St.Del("unmanaged")
				c.St.Add("managed")
			} else {
				c.St.Add("unmanaged")
			}
		case cond.op == OExt && cond.args[0].op == OLookup && len(cond.args[0].args) > 0 && isField(cond.args[0].args[0], timeBlocks) && !truth:
			nothing = true
		case cond.op == OBin && cond.aux == "==" && cond.args[1].op == ONil && isField(cond.args[0], records) && truth:
			nothing = true
		case emptyCond(cond, truth):
			nothing = true
		}
		if nothing {
			c.St.Add("nothing")
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if !isField(m, released) || v == nil {
			return
		}
		r.Count("commit marks", 1)
		acked, ackBad := 0, false
		for _, a := range c.St.Find("ackv") {
			if c.E.nilness(c.St, a) == 1 {
				acked++
			} else {
				ackBad = true
			}
		}
		switch {
		case c.St.Has("wal-fail"):
			c.Report("c02:mark-after-failure:"+fname(c.Fn()), "entries are marked as committed although their log write failed")
		case ackBad:
			c.Report("c02:mark-unacked", "entries are marked as committed although the log write they waited for did not succeed")
		case c.St.Has("wal-ok") || c.St.Has("nothing") || c.St.Has("replayed") || acked > 0:
		default:
			c.Report("c02:mark-unwritten:"+fname(c.Fn()), "entries are marked as committed without a successful log write on this path")
		}
		if goroot && !c.St.Has("unmanaged") {
			c.Report("c02:mark-managed", "the commit loop marks entries of a managed batch as committed before the batch is")
		}
	}
	h.Store = func(c *Ctx, addr, val *Val) {
		if addr.op == OFAddr && addr.fld == lastOff && addrRoot(addr).op != OAlloc {
			r.Count("written position updates", 1)
			if !c.St.Has("wal-ok") || c.St.Has("wal-fail") {
				c.Report("c02:position-before-write", "the written position of a block moves before its log write succeeded; entries would be skipped by the next write")
			}
			if !c.St.HasV("written-to", val) {
				c.Report("c02:position-value", "the written position of a block is not the end of the data that was handed to the log")
			}
		}
	}
	h.Send = func(c *Ctx, ch, v *Val) {
		if v.typ == nil || !isLog(v.typ) {
			return
		}
		r.Count("logs queued", 1)
		c.St.Add("sent", v)
		if c.St.HasV("acked", v) {
			c.Report("c02:requeued", "a log whose done channel is already closed is queued again")
		}
	}
	h.Recv = func(c *Ctx, ch *Val) {
		if isField(ch, doneF) {
			l := fieldOwner(ch)
			if !c.St.HasV("sent", l) {
				return
			}
			ev := c.E.site(c.fr, c.In, OFresh, "acked", errF.Type())
			c.E.store(c.St, c.E.faddr(l, errF), ev)
			c.St.DelV("sent", l)
			c.St.Add("acked", l)
			c.St.Add("ackv", ev)
			return
		}
		if ct, ok := ch.typ.(*types.Chan); ok && isLog(ct.Elem()) || ch.typ != nil && chanOfLog(ch.typ, isLog) {
			// next job: what is known belongs to the previous one
			c.St.Del("wal-ok")
			c.St.Del("wal-fail")
			c.St.Del("nothing")
			c.St.Del("unmanaged")
			c.St.Del("managed")
			c.St.Del("done")
			c.St.Del("appended")
			c.St.Del("slice")
			c.St.Del("written-to")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if goroot {
			return
		}
		ev, has := c.errValue(fn, res)
		if !has || ev == nil {
			return
		}
		if c.E.nilness(c.St, ev) == 2 {
			return
		}
		for range c.St.Find("sent") {
			r.Count("waits checked", 1)
			c.Report("c02:no-wait:"+fname(fn), "%s can report success for a log it queued without waiting for its write", fname(fn))
		}
		for _, a := range c.St.Find("ackv") {
			r.Count("waits checked", 1)
			if ev != a && c.E.nilness(c.St, a) != 1 {
				c.Report("c02:ack-dropped:"+fname(fn), "%s can report success although the log write it waited for failed", fname(fn))
			}
		}
	}
	roots := p.entries("memdb")
	r.Explore(h, roots...)
	goroot = true
	gts := p.goTargets("memdb")
	r.Explore(h, gts...)
	r.Count("goroutines", len(gts))
	r.Need("commit marks", 1)
	r.Need("log write requests", 1)
	r.Need("log completions", 1)
	r.Need("logs queued", 1)
	r.Need("waits checked", 1)
	r.Need("written position updates", 1)
	r.Need("goroutines", 1)

	// log writer
	logSize := r.Field("wal", "Writer", "logSize")
	sufs := logSuffixes(p)
	wh := &Hooks{Interesting: callIs("os.Rename", bufWrite)}
	wh.Call = func(c *CallCtx) {
		switch c.Name {
		case "os.Rename":
			if fin, _ := finalName(c.Args[1], sufs); fin {
				c.ForkErr(func(s *State) { s.Add("visible") }, func(s *State) { s.Add("failed") })
			}
		case bufWrite:
			d := c.Args[1]
			c.ForkErr(func(s *State) { s.Add("buffered", d) }, func(s *State) { s.Add("failed") })
		}
	}
	wh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && isField(cond.args[0], logSize) && truth {
			if k, ok := cond.args[1].constInt(); ok && k == 0 {
				c.St.Add("nothing")
			}
		}
		if emptyCond(cond, truth) {
			c.St.Add("nothing")
		}
	}
	var name string
	wh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		ev, has := c.errValue(fn, res)
		if !has {
			r.Violate("c02:anchor-"+name, "", "%s no longer reports an error", name)
			return
		}
		if ev != nil && c.E.nilness(c.St, ev) == 2 {
			return
		}
		r.Count("writer successes", 1)
		if c.St.Has("failed") {
			c.Report("c02:"+name+":failed", "%s can report success although a step failed", name)
		}
		if c.St.Has("nothing") {
			return
		}
		if name == "SignalInitWrite" && !c.St.Has("visible") {
			c.Report("c02:"+name+":not-written", "%s can report success although the log did not get its final name", name)
		}
		if name == "Append" {
			ok := false
			for _, d := range c.St.Find("buffered") {
				ok = ok || d.op == OParam
			}
			if !ok {
				c.Report("c02:"+name+":not-buffered", "%s can report success although the data were not put in the log's buffer", name)
			}
		}
	}
	for _, n := range []string{"SignalInitWrite", "Append"} {
		name = n
		if f := r.Fn("wal.Writer." + n); f != nil {
			r.Explore(wh, f)
		}
	}
	r.Need("writer successes", 1)

	// batches of the database
	uh := &Hooks{Interesting: callIs("memdb.Batch.Write", "memdb.Batch.Commit")}
	idx := r.Field("unitdb", "Batch", "index")
	uh.Call = func(c *CallCtx) {
		switch c.Name {
		case "memdb.Batch.Write":
			c.ForkErr(func(s *State) { s.Add("write-ok") }, func(s *State) { s.Add("failed") })
		case "memdb.Batch.Commit":
			c.ForkErr(func(s *State) { s.Add("commit-ok") }, func(s *State) { s.Add("failed") })
		}
	}
	uh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if emptyCondOf(cond, truth, func(v *Val) bool { return isField(v, idx) }) {
			c.St.Add("nothing")
		}
	}
	uh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		ev, has := c.errValue(fn, res)
		if !has || ev == nil || c.E.nilness(c.St, ev) == 2 {
			return
		}
		r.Count("batch successes", 1)
		if c.St.Has("failed") {
			c.Report("c02:batch-failed:"+fname(fn), "%s can report success although writing the batch to the log failed", fname(fn))
		}
		n := fname(fn)
		if n == "unitdb.Batch.Write" {
			if !c.St.Has("write-ok") && !c.St.Has("nothing") {
				c.Report("c02:batch-unwritten:"+n, "%s can report success without writing the batch to the log", n)
			}
		} else if !c.St.Has("commit-ok") {
			c.Report("c02:batch-uncommitted:"+n, "%s can report success without a successful commit of the log", n)
		}
	}
	for _, n := range []string{"unitdb.Batch.Write", "unitdb.Batch.Commit", "unitdb.DB.Batch"} {
		if f := r.Fn(n); f != nil {
			r.Explore(uh, f)
		}
	}
	r.Need("batch successes", 1)
}

// chanOfLog: is t a channel of logs.
func chanOfLog(t types.Type, isLog func(types.Type) bool) bool {
	ct, ok := t.Underlying().(*types.Chan)
	return ok && isLog(ct.Elem())
}

// emptyCond: does assuming cond==truth mean that some length is zero.
func emptyCond(cond *Val, truth bool) bool { return emptyCondOf(cond, truth, nil) }

func emptyCondOf(cond *Val, truth bool, of func(*Val) bool) bool {
	if cond.op != OBin {
		return false
	}
	x, y := cond.args[0], cond.args[1]
	isLen := func(v *Val) bool { return v.op == OLen && (of == nil || of(v.args[0])) }
	switch cond.aux {
	case "==":
		if k, ok := y.constInt(); ok && isLen(x) {
			return k == 0 && truth
		}
	case "<":
		if k, ok := y.constInt(); ok && isLen(x) {
			return k <= 1 && truth
		}
		if k, ok := x.constInt(); ok && isLen(y) {
			return k <= 0 && !truth // !(0 < len)
		}
	}
	return false
}

// mapField: the field a map or channel operand was loaded from.
func mapField(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return structOf(fa.X.Type()).Field(fa.Field)
}

func mapFieldVal(v *Val) *types.Var {
	if v.op == OLoad && v.args[0].op == OFAddr {
		return v.args[0].fld
	}
	return nil
}
