package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkC04
	checks["C05"] = checkC05
}

// rangedOver: the value a loop ranges over (map, slice), nil when it is no range loop.
func rangedOver(l *loop) ssa.Value {
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return rg.X
			}
		}
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return c.Call.Args[0]
			}
		}
	}
	return nil
}

// rangesField: does the loop range over the field.
func rangesField(l *loop, f *types.Var) bool {
	v := rangedOver(l)
	if v == nil {
		return false
	}
	// a part of it is not all of it.
	for {
		sl, ok := v.(*ssa.Slice)
		if !ok {
			break
		}
		if k, ok := constOfSSA2(sl.Low); sl.Low != nil && !(ok && k == 0) || sl.High != nil {
			return false
		}
		v = sl.X
	}
	return ssaField(v) == f
}

func constOfSSA2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constOfSSA(v)
}

// ssaField: the field a value was loaded from.
func ssaField(v ssa.Value) *types.Var { return ssaFieldN(v, 0) }

func ssaFieldN(v ssa.Value, depth int) *types.Var {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return structOf(fa.X.Type()).Field(fa.Field)
			}
			// a local copy of the field
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						if f := ssaFieldN(st.Val, depth+1); f != nil {
							return f
						}
					}
				}
			}
		}
	case *ssa.Field:
		return structOf(x.X.Type()).Field(x.Field)
	case *ssa.Slice:
		return ssaFieldN(x.X, depth+1)
	case *ssa.ChangeType:
		return ssaFieldN(x.X, depth+1)
	}
	return nil
}

// fieldUse: instructions that take the address of or read one of the fields.
func fieldUse(fs ...*types.Var) func(ssa.Instruction) bool {
	set := map[*types.Var]bool{}
	for _, f := range fs {
		if f != nil {
			set[f] = true
		}
	}
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			return set[structOf(x.X.Type()).Field(x.Field)]
		case *ssa.Field:
			return set[structOf(x.X.Type()).Field(x.Field)]
		}
		return false
	}
}

func anyOf(ps ...func(ssa.Instruction) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		for _, p := range ps {
			if p(in) {
				return true
			}
		}
		return false
	}
}

var syncSteps = []string{"unitdb._BlockWriter.extend", "unitdb._WindowWriter.write", "unitdb._BlockWriter.write", "unitdb.DB.writeInfo", "unitdb._FileSet.sync"}

func checkC04(r *Run) {
	p := r.P
	r.Rule("a sync is marked complete, or reports success, only on paths on which the index was extended, window entries, data and index blocks were written, the header was written after the entry count was updated, and after all of them every data file was flushed, each step successful")
	r.Rule("flushing visits every file of every file set; every file set that open creates is in the list that is flushed")
	r.Rule("the writers write every dirty window and index block and the whole data buffer before it is reset")
	complete := r.Field("unitdb", "_SyncInfo", "syncComplete")
	upper := r.Field("unitdb", "_SyncInfo", "upperSeq")
	if complete == nil || upper == nil {
		return
	}
	for _, n := range syncSteps {
		r.Fn(n)
	}
	step := map[string]bool{}
	for _, n := range syncSteps {
		step[n] = true
	}
	storesComplete := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && structOf(fa.X.Type()).Field(fa.Field) == complete
	}
	h := &Hooks{Interesting: anyOf(calleeIn(step), storesComplete, callIs("unitdb.DB.incount", "unitdb.DB.decount"))}
	check := func(c *Ctx, what string) {
		if c.St.Has("nothing") {
			return
		}
		for _, t := range c.St.WithPrefix("failed:") {
			c.Report("c04:"+what+":failed:"+t.N[7:], "a sync %s although %s failed", what, t.N[7:])
		}
		for _, n := range syncSteps {
			if !c.St.Has("ok:" + n) {
				c.Report("c04:"+what+":"+n, "a sync %s although %s did not run successfully after the steps before it", what, n)
			}
		}
	}
	h.Call = func(c *CallCtx) {
		n := c.Name
		switch {
		case n == "unitdb.DB.incount":
			c.St.Add("counted")
			c.St.Del("ok:unitdb.DB.writeInfo")
		case step[n]:
			r.Count("sync steps", 1)
			if n == "unitdb.DB.writeInfo" && !c.St.Has("counted") {
				c.Report("c04:header-before-count", "the header is written before the entry count was updated")
			}
			c.Opaque()
			c.ForkErr(func(s *State) {
				if n != "unitdb._FileSet.sync" {
					s.Del("ok:unitdb._FileSet.sync") // written after the flush
				}
				s.Add("ok:" + n)
			}, func(s *State) { s.Add("failed:" + n) })
		}
	}
	h.Store = func(c *Ctx, addr, val *Val) {
		if addr.op == OFAddr && addr.fld == complete {
			if val == c.E.vFalse {
				return
			}
			r.Count("sync completions", 1)
			check(c, "is marked complete")
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && truth && isField(cond.args[0], upper) {
			if k, ok := cond.args[1].constInt(); ok && k == 0 {
				c.St.Add("nothing")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if fname(fn) != "unitdb._SyncHandle.sync" {
			return
		}
		ev, has := c.errValue(fn, res)
		if !has || ev != nil && c.E.nilness(c.St, ev) == 2 {
			return
		}
		r.Count("sync successes", 1)
		check(c, "reports success")
	}
	roots := map[*ssa.Function]bool{}
	if f := r.Fn("unitdb._SyncHandle.sync"); f != nil {
		roots[f] = true
		r.Explore(h, f)
	}
	for _, f := range p.funcs {
		if pkgOf(f) != "unitdb" || r.funcs[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if storesComplete(in) && !isFalse(in.(*ssa.Store).Val) && !roots[f] {
					roots[f] = true
					r.Explore(h, f)
				}
			}
		}
	}
	r.Need("sync completions", 1)
	r.Need("sync successes", 1)
	r.Need("sync steps", 1)

	// the public operation reports what the sync did
	ph := &Hooks{Interesting: callIs("unitdb._SyncHandle.Sync", "unitdb._SyncHandle.startSync")}
	ph.Call = func(c *CallCtx) {
		n := c.Name
		if n == "unitdb._SyncHandle.Sync" || n == "unitdb._SyncHandle.startSync" {
			c.Opaque()
			if n == "unitdb._SyncHandle.Sync" && !c.St.Has("ok:unitdb._SyncHandle.startSync") {
				c.Report("c04:sync-unprepared", "a sync is run without fresh writers: blocks of an earlier, failed sync would be taken for written ones")
			}
			c.ForkErr(func(s *State) { s.Add("ok:" + n) }, func(s *State) { s.Add("failed:" + n) })
		}
	}
	ph.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		ev, has := c.errValue(fn, res)
		if !has || ev != nil && c.E.nilness(c.St, ev) == 2 {
			return
		}
		r.Count("public sync successes", 1)
		if !c.St.Has("ok:unitdb._SyncHandle.Sync") || len(c.St.WithPrefix("failed:")) > 0 {
			c.Report("c04:public-success", "%s can report success without a successful sync", fname(fn))
		}
	}
	if f := r.Fn("unitdb.DB.Sync"); f != nil {
		r.Explore(ph, f)
	}
	r.Need("public sync successes", 1)

	// flush visits every file
	list := r.Field("unitdb", "_FileSet", "list")
	fileMap := r.Field("unitdb", "_FileSet", "fileMap")
	if f := r.Fn("unitdb._FileSet.sync"); f != nil && list != nil && fileMap != nil {
		fh := &Hooks{Interesting: callIs("os.File.Sync")}
		fsync := p.callReaches("os.File.Sync")
		fh.Call = func(c *CallCtx) {
			if c.Name == "os.File.Sync" {
				c.ForkErr(func(s *State) { s.Add("flushed") }, func(s *State) { s.Add("failed") })
			}
		}
		seen := map[*types.Var]bool{}
		fh.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			if !loopHas(l, fsync) {
				return
			}
			if v := rangedOver(l); v != nil {
				if fl := ssaField(v); fl != nil {
					seen[fl] = true
				}
			}
			c.St.Del("flushed")
		}
		fh.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			if v := rangedOver(l); v == nil || ssaField(v) != fileMap || !loopHas(l, fsync) {
				return
			}
			r.Count("flush iterations", 1)
			if !c.St.Has("flushed") && !c.St.Has("failed") {
				c.Report("c04:file-not-flushed", "a data file can be left out when the files are flushed")
			}
			c.St.Del("flushed")
		}
		fh.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if loopHas(l, fsync) && c.In.Block() != l.head && !c.St.Has("failed") {
				c.Report("c04:flush-stops", "flushing the files can stop before the last one without a failure")
			}
		}
		fh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			ev, _ := c.errValue(fn, res)
			if c.St.Has("failed") && (ev == nil || c.E.nilness(c.St, ev) != 2) {
				c.Report("c04:flush-failure-lost", "a failure to flush a file is not reported")
			}
		}
		r.Explore(fh, f)
		if !seen[list] || !seen[fileMap] {
			r.Violate("c04:flush-scope", "", "flushing does not range over all files of all file sets")
		}
		r.Need("flush iterations", 1)
	}
	// every file set that is created is in the list
	creators := p.callsTo("unitdb.newFile")
	for _, ci := range creators {
		if pkgOf(ci.Parent()) != "unitdb" {
			continue
		}
		r.Count("file sets created", 1)
		if !flowsToField(ci.Value(), list) {
			r.Violate("c04:fileset-not-listed:"+fileTypeOf(ci), p.instrPos(ci), "the file set created here is not in the list of files that a sync flushes")
		}
	}
	r.Need("file sets created", 1)

	writerCoverage(r)
}

// fileTypeOf names the file type constant passed to newFile.
func fileTypeOf(ci ssa.CallInstruction) string {
	for _, a := range ci.Common().Args {
		if typeName(a.Type()) == "_FileDesc" {
			if u, ok := a.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, rf := range *al.Referrers() {
						if fa, ok := rf.(*ssa.FieldAddr); ok {
							for _, r2 := range *fa.Referrers() {
								if st, ok := r2.(*ssa.Store); ok {
									if c, ok := st.Val.(*ssa.Const); ok {
										return c.Value.String()
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return "?"
}

// flowsToField follows a value flow insensitively through locals of its function to a store into the field.
func flowsToField(v ssa.Value, f *types.Var) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Extract:
				if x.Index == 0 && rec(x) {
					return true
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				a := x.Addr
				if fa, ok := a.(*ssa.FieldAddr); ok {
					if structOf(fa.X.Type()).Field(fa.Field) == f {
						return true
					}
					continue
				}
				if ia, ok := a.(*ssa.IndexAddr); ok {
					a = ia.X
				}
				if rec(a) {
					return true
				}
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.UnOp:
				if u, ok := in.(*ssa.UnOp); ok && u.Op != token.MUL {
					continue
				}
				if rec(in.(ssa.Value)) {
					return true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && rec(x) {
					return true
				}
			case *ssa.IndexAddr:
				// element of a slice that holds the value
			}
		}
		return false
	}
	return rec(v)
}

// writerCoverage: every dirty block is written.
func writerCoverage(r *Run) {
	type w struct {
		fn, typ, blocks, elem string
	}
	for _, x := range []w{{"unitdb._WindowWriter.write", "_WindowWriter", "winBlocks", "_WinBlock"}, {"unitdb._BlockWriter.write", "_BlockWriter", "indexBlocks", "_IndexBlock"}} {
		f := r.Fn(x.fn)
		blocks := r.Field("unitdb", x.typ, x.blocks)
		leased := r.Field("unitdb", x.elem, "leased")
		dirty := r.Field("unitdb", x.elem, "dirty")
		if f == nil || blocks == nil || leased == nil || dirty == nil {
			continue
		}
		h := &Hooks{Interesting: anyOf(callIs("os.File.WriteAt", bufWrite), fieldUse(leased, dirty))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "os.File.WriteAt":
				c.ForkErr(func(s *State) { s.Add("handled"); s.Add("put") }, func(s *State) { s.Add("failed") })
			case bufWrite:
				c.ForkErr(func(s *State) { s.Add("put") }, func(s *State) { s.Add("failed") })
			case "builtin.append":
				if v, ok := c.In.(ssa.Value); ok && v.Type().String() == "[]int32" {
					c.St.Add("handled")
				}
			case bufSlice:
				if _, fixed := c.Args[1].constInt(); fixed && c.St.Has("sliced") {
					c.Report("c04:range-start:"+x.typ, "blocks of a range are taken from where an earlier range begins in the buffer")
				}
				c.ForkErr(func(s *State) { s.Add("sliced") }, func(s *State) { s.Add("failed") })
			case "github.com/unit-io/bpool.Buffer.Reset":
				c.St.Del("sliced")
			case "unitdb.blockRange":
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			case "unitdb._IndexBlock.validation":
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			case "unitdb.saveBlocks":
				c.Opaque()
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			t := "F"
			if truth {
				t = "T"
			}
			if isField(cond, leased) {
				c.St.Add("leased" + t)
			}
			if isField(cond, dirty) {
				c.St.Add("dirty" + t)
			}
		}
		// skips[leased] of each loop
		type cov struct{ skip [2]bool }
		covs := map[*loop]*cov{}
		reset := func(c *Ctx) {
			for _, t := range []string{"handled", "put", "leasedT", "leasedF", "dirtyT", "dirtyF"} {
				c.St.Del(t)
			}
		}
		h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			if rangesField(l, blocks) {
				if covs[l] == nil {
					covs[l] = &cov{}
				}
			}
			reset(c)
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			if cv := covs[l]; cv != nil {
				if !c.St.Has("handled") && !c.St.Has("failed") && !c.St.Has("dirtyF") {
					if !c.St.Has("leasedF") {
						cv.skip[1] = true
					}
					if !c.St.Has("leasedT") {
						cv.skip[0] = true
					}
				}
				reset(c)
				return
			}
			// the loops over the collected block numbers write what they visit
			if loopHas(l, r.P.callReaches("os.File.WriteAt", bufWrite)) && fn == f {
				r.Count("block write iterations", 1)
				if !c.St.Has("put") && !c.St.Has("failed") {
					c.Report("c04:block-not-written:"+x.typ, "a dirty block that was selected for writing can be left out in %s", fname(fn))
				}
				if !loopHas(l, callIs(bufWrite)) || loopHas(l, r.P.callReaches("os.File.WriteAt")) {
					if !c.St.Has("handled") && !c.St.Has("failed") {
						c.Report("c04:block-not-written:"+x.typ, "blocks that were collected can be left out of the write to the file in %s", fname(fn))
					}
				} else {
					c.St.Del("put")
					return
				}
				reset(c)
			}
		}
		h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if c.In.Block() != l.head && !c.St.Has("failed") && (covs[l] != nil || loopHas(l, r.P.callReaches("os.File.WriteAt", bufWrite))) {
				c.Report("c04:write-stops:"+x.typ, "writing the blocks can stop before the last one without a failure")
			}
			// a loop from the first to the last block of a range includes the last one
			if loopHas(l, callIs(bufWrite)) && rangedOver(l) == nil {
				r.Count("block ranges", 1)
				if !inclusiveRange(l) {
					c.Report("c04:range-end:"+x.typ, "the loop over a range of blocks does not include the last block of the range")
				}
			}
		}
		r.Explore(h, f)
		for _, L := range []int{0, 1} {
			ok := false
			for _, cv := range covs {
				ok = ok || !cv.skip[L]
			}
			r.Count("block states covered", 1)
			if !ok {
				which := "new"
				if L == 1 {
					which = "already stored"
				}
				r.Violate("c04:dirty-skipped:"+x.typ+":"+which, r.P.pos(f.Pos()), "%s can leave out dirty %s blocks", x.fn, which)
			}
		}
		r.Count("loops over "+x.blocks, len(covs))
		r.Need("loops over "+x.blocks, 1)
	}
	dirtyMarks(r)
	// the whole data buffer is written before it is reset
	f := r.Fn("unitdb._BlockWriter.write")
	buf := r.Field("unitdb", "_BlockWriter", "buffer")
	dataF := r.Field("unitdb", "_BlockWriter", "dataFile")
	if f == nil || buf == nil || dataF == nil {
		return
	}
	const bufReset, bufBytes = "github.com/unit-io/bpool.Buffer.Reset", "github.com/unit-io/bpool.Buffer.Bytes"
	h := &Hooks{Interesting: callIs("os.File.WriteAt", bufReset, bufWrite)}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "os.File.WriteAt":
			d := c.Args[1]
			onData := c.Args[0].contains(func(v *Val) bool { return v.op == OFAddr && v.fld == dataF || isField(v, dataF) })
			whole := d.op == OCall && strings.HasPrefix(d.aux, bufBytes+"@")
			c.ForkErr(func(s *State) {
				if whole && onData {
					s.Add("data")
				}
			}, func(s *State) { s.Add("failed") })
		case "unitdb.saveBlocks", "unitdb.blockRange", "unitdb._IndexBlock.validation":
			c.Opaque()
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case bufReset:
			r.Count("buffer resets", 1)
			if !c.St.Has("data") {
				c.Report("c04:data-reset", "the data buffer is reset before it was written to the data file")
			}
		case bufWrite:
			if !c.St.Has("data") {
				c.Report("c04:data-mixed", "index blocks are put in the buffer before the data in it were written")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		ev, _ := c.errValue(fn, res)
		if ev != nil && c.E.nilness(c.St, ev) == 2 {
			return
		}
		r.Count("data write successes", 1)
		if !c.St.Has("data") {
			c.Report("c04:data-unwritten", "%s can report success without having written the data buffer", fname(fn))
		}
	}
	r.Explore(h, f)
	r.Need("buffer resets", 1)
	r.Need("data write successes", 1)
}

// dirtyMarks: a block that got an entry is marked for writing before it is kept.
func dirtyMarks(r *Run) {
	for _, x := range []struct{ fn, typ, blocks, elem string }{{"unitdb._WindowWriter.append", "_WindowWriter", "winBlocks", "_WinBlock"}, {"unitdb._BlockWriter.append", "_BlockWriter", "indexBlocks", "_IndexBlock"}} {
		f := r.Fn(x.fn)
		blocks, entries, dirty := r.Field("unitdb", x.typ, x.blocks), r.Field("unitdb", x.elem, "entries"), r.Field("unitdb", x.elem, "dirty")
		if f == nil || blocks == nil || entries == nil || dirty == nil {
			continue
		}
		h := &Hooks{Interesting: fieldUse(blocks, entries, dirty)}
		inEntries := func(a *Val) bool {
			for a != nil && (a.op == OFAddr || a.op == OIAddr) {
				if a.op == OIAddr && a.args[0].op == OFAddr && a.args[0].fld == entries {
					return true
				}
				a = a.args[0]
			}
			return false
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			switch {
			case isFAddr(addr, dirty):
				c.St.DelV("marked", addrRoot(addr))
				if b, ok := boolOf(v); ok && b {
					c.St.Add("marked", addrRoot(addr))
					c.St.DelV("unmarked", addrRoot(addr))
				}
			case inEntries(addr):
				// (not an entry decoded from the file)
				b := addrRoot(addr)
				if b.op != OAlloc || b.typ == nil || !strings.HasSuffix(qualType(b.typ), "unitdb."+x.elem) || v != nil && v.contains(func(v *Val) bool { return v.op == OCall && strings.Contains(v.String(), "littleEndian") }) {
					return
				}
				if !c.St.HasV("marked", addrRoot(addr)) {
					c.St.Add("unmarked", addrRoot(addr))
				}
			case addr.op == OAlloc && v != nil && v.typ != nil && qualType(v.typ) == "unitdb."+x.elem:
				c.St.DelV("marked", addr)
				c.St.DelV("unmarked", addr)
				if b, ok := boolOf(c.E.fieldOf(v, dirty)); ok && b {
					c.St.Add("marked", addr)
				}
			}
		}
		h.MapWrite = func(c *Ctx, m, k, v *Val) {
			if !isFieldVal(m, blocks) || v == nil {
				return
			}
			r.Count("blocks kept", 1)
			if c.St.Has("unmarked") {
				c.Report("c04:unmarked:"+x.typ, "a block that got an entry can be kept without being marked for writing")
			}
		}
		r.Explore(h, f)
	}
	r.Need("blocks kept", 2)
}

// inclusiveRange: the loop runs as long as its counter is not above the limit (<=, not <), and the limit is not reduced.
func isFalse(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "false"
}

func inclusiveRange(l *loop) bool {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	_, lp := b.X.(*ssa.Phi)
	_, rp := b.Y.(*ssa.Phi)
	stay := l.blocks[l.head.Succs[0]]
	lim := b.Y
	op := b.Op
	if rp && !lp {
		lim = b.X
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	if !stay {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
	}
	plus := false
	if cv, ok := lim.(*ssa.Convert); ok {
		lim = cv.X
	}
	if bb, ok := lim.(*ssa.BinOp); ok {
		if k, ok := bb.Y.(*ssa.Const); ok {
			if bb.Op != token.ADD || k.Int64() != 1 {
				return false
			}
			plus = true
		}
	}
	return op == token.LEQ && !plus || op == token.LSS && plus
}

func checkC05(r *Run) {
	p := r.P
	r.Rule("every way out of a sync that did not complete runs the rollback: no topic offset changed and none left to change, both writers aborted, the completion flag cleared before it; the entry count is lowered again by what it was raised by")
	r.Rule("aborting a writer, on every path, truncates each of its files to the size recorded before the sync and writes back every saved block and gives back every lease, whatever step of it fails")
	r.Rule("a stored block is overwritten only after it was saved; every allocated lease is recorded; the recorded sizes change only when a writer is created or reset, to the current file size")
	r.Rule("the callback of a sync reports every failed step, and the sync then aborts and reports it")
	complete := r.Field("unitdb", "_SyncInfo", "syncComplete")
	offsets := r.Field("unitdb", "_SyncHandle", "topicOffsets")
	upper := r.Field("unitdb", "_SyncInfo", "upperSeq")
	if complete == nil || offsets == nil || upper == nil {
		return
	}
	step := map[string]bool{}
	for _, n := range syncSteps {
		step[n] = true
	}
	// sync()
	h := &Hooks{Interesting: anyOf(calleeIn(step), callIs("unitdb._WindowWriter.abort", "unitdb._BlockWriter.abort", "unitdb.DB.incount", "unitdb.DB.decount", "unitdb._Trie.setOffset"), fieldUse(complete), fieldUse(offsets))}
	aborts := map[string]bool{"unitdb._WindowWriter.abort": true, "unitdb._BlockWriter.abort": true}
	h.Call = func(c *CallCtx) {
		n := c.Name
		switch {
		case n == "unitdb.DB.incount":
			c.St.Add("raised", stripConv(c.Args[1]))
		case n == "unitdb.DB.decount":
			c.St.DelV("raised", stripConv(c.Args[1]))
		case n == "unitdb._Trie.setOffset":
			c.Opaque()
			r.Count("offset changes during a sync", 1)
			c.St.Add("changed")
		case n == "builtin.clear" && len(c.Args) == 1 && isField(c.Args[0], offsets):
			c.St.Add("dropped")
		case step[n]:
			c.Opaque()
			changed := c.St.Has("changed")
			c.ForkErr(nil, func(s *State) { s.Add("failed:" + n) })
			if changed {
				c.Report("c05:offset-early:"+n, "topic offsets are changed before %s is known to have succeeded, a failed sync leaves topics without their entries", n)
			}
		case aborts[n]:
			r.Count("writer aborts reached", 1)
			c.Opaque()
			c.St.Add("did:" + n)
			c.ForkErr(nil, nil)
		case strings.HasSuffix(n, "Writer.reset"):
			if len(c.St.WithPrefix("failed:")) > 0 && (!c.St.Has("did:unitdb._WindowWriter.abort") || !c.St.Has("did:unitdb._BlockWriter.abort")) {
				c.Report("c05:reset-before-abort", "the sizes recorded before the sync are replaced before the files were rolled back")
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == offsets {
			c.St.Add("dropped")
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if isField(m, offsets) && v == nil {
			c.St.Add("dropped")
		}
	}
	h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
		if rangesField(l, offsets) && loopDeletes(l, offsets) {
			c.St.Add("dropped")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if len(c.St.WithPrefix("failed:")) == 0 {
			return
		}
		r.Count("failed sync exits", 1)
		f := c.St.WithPrefix("failed:")[0].N[7:]
		ev, _ := c.errValue(fn, res)
		if ev == nil || c.E.nilness(c.St, ev) != 2 {
			c.Report("c05:unreported:"+f, "a sync in which %s failed can report success", f)
		}
		for _, a := range []string{"unitdb._WindowWriter.abort", "unitdb._BlockWriter.abort"} {
			if !c.St.Has("did:" + a) {
				c.Report("c05:no-abort:"+f+":"+a, "a sync in which %s failed is not rolled back with %s", f, a)
			}
		}
		if !c.St.Has("dropped") {
			c.Report("c05:offsets-kept:"+f, "topic offsets of a sync in which %s failed are kept and used by a later sync", f)
		}
		if c.St.Has("raised") {
			c.Report("c05:count-kept:"+f, "the entry count stays raised although %s failed", f)
		}
	}
	if f := r.Fn("unitdb._SyncHandle.sync"); f != nil {
		r.Explore(h, f)
	}
	r.Need("failed sync exits", 1)
	r.Need("writer aborts reached", 1)
	r.Need("offset changes during a sync", 1)

	// no offset changes before the sync of its block succeeded
	earlyOffsets(r)

	// the operations around the callbacks
	mh := &Hooks{Interesting: anyOf(callIs("memdb.DB.BlockIterator", "memdb.DB.All", "unitdb._WindowWriter.abort", "unitdb._BlockWriter.abort"), fieldUse(complete))}
	mh.Call = func(c *CallCtx) {
		n := c.Name
		switch {
		case n == "memdb.DB.BlockIterator" || n == "memdb.DB.All":
			c.Opaque()
			// the callback may fail at any point: the flag is unknown
			c.ForkErr(nil, func(s *State) { s.Add("failed:" + n) })
		case n == "unitdb._SyncHandle.sync":
			c.Opaque()
			c.ForkErr(nil, nil)
		case n == "unitdb._SyncHandle.recoverWindowBlocks" || n == "unitdb._SyncHandle.startSync":
			c.Opaque()
			c.ForkErr(nil, nil)
		case aborts[n]:
			c.Opaque()
			c.St.Add("did:" + n)
			c.ForkErr(nil, nil)
		}
	}
	mh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if len(c.St.WithPrefix("failed:")) == 0 {
			return
		}
		r.Count("failed iteration exits", 1)
		ev, _ := c.errValue(fn, res)
		if ev == nil || c.E.nilness(c.St, ev) != 2 {
			c.Report("c05:iteration-unreported:"+fname(fn), "%s can report success although processing the pending blocks failed", fname(fn))
		}
		for _, a := range []string{"unitdb._WindowWriter.abort", "unitdb._BlockWriter.abort"} {
			if !c.St.Has("did:" + a) {
				c.Report("c05:iteration-no-abort:"+fname(fn)+":"+a, "%s does not roll back with %s although processing the pending blocks failed", fname(fn), a)
			}
		}
	}
	for _, n := range []string{"unitdb._SyncHandle.Sync", "unitdb._SyncHandle.startRecovery"} {
		if f := r.Fn(n); f != nil {
			r.Explore(mh, f)
		}
	}
	r.Need("failed iteration exits", 1)

	// callbacks report failures
	cb := map[string]bool{"unitdb._SyncHandle.sync": true, "unitdb._WindowWriter.append": true, "unitdb._BlockWriter.append": true, "memdb.DB.Lookup": true, "unitdb._Entry.UnmarshalBinary": true}
	ch := &Hooks{Interesting: calleeIn(cb)}
	ch.Call = func(c *CallCtx) {
		if !cb[c.Name] {
			return
		}
		n := c.Name
		c.Opaque()
		er := c.ErrRes()
		c.ForkErr(func(s *State) {
			if n == "memdb.DB.Lookup" {
				c.E.setFact(s, c.E.ext(c.Res, 0, nil), c.E.vNonNil)
			}
		}, func(s *State) { s.Add("failed:"+n, er) })
	}
	ch.Assume = func(c *Ctx, cond *Val, truth bool) {
		for _, t := range c.St.WithPrefix("failed:unitdb._BlockWriter.append") {
			if t.V == nil {
				continue
			}
			if k := c.St.facts[t.V]; k != nil && k.op == OLoad && k.args[0].op == OGlobal && k.args[0].aux == "unitdb.errEntryExist" {
				c.St.Del(t.N)
			}
		}
	}
	ch.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		fs := c.St.WithPrefix("failed:")
		if len(fs) == 0 {
			return
		}
		r.Count("failed callback exits", 1)
		ev, _ := c.errValue(fn, res)
		if ev == nil || c.E.nilness(c.St, ev) != 2 {
			c.Report("c05:callback-unreported:"+fs[0].N[7:], "processing a pending block can report success although %s failed", fs[0].N[7:])
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, ci := range p.callsTo("unitdb._SyncHandle.sync") {
		f := ci.Parent()
		if f.Parent() != nil && !seen[f] {
			seen[f] = true
			r.Explore(ch, f)
		}
	}
	r.Need("failed callback exits", 1)

	// aborting the writers
	type want struct {
		fn, typ string
		files   [][2]string // file field, recorded size field
		maps    []string    // what is ranged over
	}
	for _, w := range []want{
		{"unitdb._WindowWriter.abort", "_WindowWriter", [][2]string{{"winFile", "offset"}}, []string{"undo"}},
		{"unitdb._BlockWriter.abort", "_BlockWriter", [][2]string{{"indexFile", "indexOffset"}, {"dataFile", "dataOffset"}}, []string{"undo", "dataLeases"}},
	} {
		f := r.Fn(w.fn)
		if f == nil {
			continue
		}
		undo := r.Field("unitdb", w.typ, "undo")
		leases := p.field("unitdb", w.typ, "dataLeases")
		wh := &Hooks{Interesting: callIs("os.File.Truncate", "os.File.WriteAt", "unitdb._Lease.freeBlock", "unitdb._Lease.free")}
		rangeOf := func(l *loop) string {
			for _, m := range w.maps {
				if rangesField(l, p.field("unitdb", w.typ, m)) {
					return m
				}
			}
			return ""
		}
		wh.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
			if m := rangeOf(l); m != "" {
				c.St.Add("ranged:" + m)
				c.St.Del("handled")
			}
		}
		wh.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			if m := rangeOf(l); m != "" {
				r.Count("rollback iterations", 1)
				if !c.St.Has("handled") && !c.St.Has("failed") {
					c.Report("c05:rollback-skips:"+w.typ+"."+m, "the rollback can leave out an element of %s", m)
				}
				c.St.Del("handled")
			}
		}
		wh.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if m := rangeOf(l); m != "" && c.In.Block() != l.head && !c.St.Has("failed") {
				c.Report("c05:rollback-stops:"+w.typ+"."+m, "the rollback can stop before the last element of %s", m)
			}
		}
		wh.Call = func(c *CallCtx) {
			switch c.Name {
			case "os.File.Truncate":
				for _, fo := range w.files {
					ff, of := p.field("unitdb", w.typ, fo[0]), p.field("unitdb", w.typ, fo[1])
					if c.Args[0].contains(func(v *Val) bool { return isField(v, ff) }) {
						if !isField(c.Args[1], of) {
							c.Report("c05:truncate-size:"+w.typ+"."+fo[0], "the rollback does not truncate %s to its size before the sync", fo[0])
						}
						c.St.Add("truncated:" + fo[0])
					}
				}
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			case "os.File.WriteAt":
				// the saved bytes go back to their offset
				d, off := c.Args[1], c.Args[2]
				fromUndo := d.contains(func(v *Val) bool { return v.op == ONext }) && off.contains(func(v *Val) bool { return v.op == ONext })
				if !fromUndo {
					c.Report("c05:rollback-bytes:"+w.typ, "the rollback writes other bytes than the saved ones")
				}
				c.ForkErr(func(s *State) { s.Add("handled") }, func(s *State) { s.Add("failed") })
			case "unitdb._Lease.freeBlock", "unitdb._Lease.free":
				c.Opaque()
				c.St.Add("handled")
			}
		}
		wh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("abort exits", 1)
			for _, fo := range w.files {
				if !c.St.Has("truncated:" + fo[0]) {
					c.Report("c05:not-truncated:"+w.typ+"."+fo[0], "aborting %s can leave %s at its new size", w.typ, fo[0])
				}
			}
			for _, m := range w.maps {
				if !c.St.Has("ranged:" + m) {
					c.Report("c05:not-rolled-back:"+w.typ+"."+m, "aborting %s can leave out the rollback of %s", w.typ, m)
				}
			}
			if c.St.Has("failed") {
				if ev, has := c.errValue(fn, res); !has || ev == nil || c.E.nilness(c.St, ev) != 2 {
					c.Report("c05:abort-unreported:"+w.typ, "a failed rollback is not reported")
				}
			}
		}
		r.Explore(wh, f)
		_ = undo
		_ = leases
	}
	r.Need("rollback iterations", 1)
	r.Need("abort exits", 1)

	// recorded sizes
	recorded := map[*types.Var]string{}
	for _, x := range [][2]string{{"_WindowWriter", "offset"}, {"_BlockWriter", "indexOffset"}, {"_BlockWriter", "dataOffset"}} {
		if f := r.Field("unitdb", x[0], x[1]); f != nil {
			recorded[f] = x[0] + "." + x[1]
		}
	}
	for _, f := range p.funcs {
		if pkgOf(f) != "unitdb" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := recorded[structOf(fa.X.Type()).Field(fa.Field)]
				if n == "" {
					continue
				}
				r.Count("recorded size updates", 1)
				ok = false
				if c, isc := st.Val.(*ssa.Call); isc {
					s := staticName(c.Common())
					ok = s == "unitdb._File.currSize" || s == "unitdb._File.Size"
				}
				if ld := ssaField(st.Val); ld != nil && recorded[ld] != "" {
					ok = true
				}
				if !ok {
					r.Violate("c05:recorded-size:"+n+":"+fname(f), p.instrPos(in), "the file size %s to return to on rollback is set to something other than the current file size", n)
				}
				if p.reachedFrom(f, "unitdb._WindowWriter.append", "unitdb._WindowWriter.write", "unitdb._BlockWriter.append", "unitdb._BlockWriter.write", "unitdb._BlockWriter.extend", "unitdb._WindowWriter.abort", "unitdb._BlockWriter.abort") {
					r.Violate("c05:recorded-size-during:"+n+":"+fname(f), p.instrPos(in), "the file size %s to return to on rollback changes while a sync writes", n)
				}
			}
		}
	}
	r.Need("recorded size updates", 1)

	// saved before overwritten
	sh := &Hooks{Interesting: callIs("os.File.WriteAt", "unitdb._Lease.allocate")}
	leasesF := r.Field("unitdb", "_BlockWriter", "dataLeases")
	dataF := r.Field("unitdb", "_BlockWriter", "dataFile")
	sh.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.saveBlocks":
			c.Opaque()
			file, start := c.Args[0], c.Args[2]
			lim := c.Args[4]
			if !isField(lim, p.field("unitdb", "_WindowWriter", "offset")) && !isField(lim, p.field("unitdb", "_BlockWriter", "indexOffset")) {
				c.Report("c05:save-limit", "the blocks to save are not bounded by the file size before the sync")
			}
			e := c.E
			end := c.Args[3]
			c.ForkErr(func(s *State) { s.Add("saved", e.pair("saved", file, start, end)) }, nil)
		case "unitdb._Lease.allocate":
			c.Opaque()
			c.St.Add("leased", c.Res)
		case "os.File.WriteAt":
			r.Count("block writes", 1)
			f, d, off := c.Args[0], c.Args[1], c.Args[2]
			if f.contains(func(v *Val) bool { return isField(v, dataF) }) {
				c.ForkErr(nil, nil)
				return
			}
			ok := false
			for _, s := range c.St.Find("saved") {
				e := c.E
				if f.contains(func(v *Val) bool { return v == s.args[0] }) && s.args[1] == off {
					end := s.args[2]
					l := lenOf(e, d)
					if end.contains(func(v *Val) bool { return v == l || v.op == OLen && v.args[0] == d }) {
						ok = true
					}
				}
			}
			if !ok {
				c.Report("c05:overwrite-unsaved:"+fname(c.Fn()), "a block is overwritten during a sync without the blocks it covers having been saved for the rollback")
			}
			c.ForkErr(nil, nil)
		case "unitdb.blockRange", "unitdb._IndexBlock.validation", bufSlice, bufWrite:
			c.ForkErr(nil, nil)
		}
	}
	sh.MapWrite = func(c *Ctx, m, k, v *Val) {
		if isField(m, leasesF) && v != nil {
			c.St.Add("recorded", k)
		}
	}
	sh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && truth {
			if k, ok := cond.args[1].constInt(); ok && k == -1 && c.St.HasV("leased", cond.args[0]) {
				c.St.DelV("leased", cond.args[0])
			}
		}
		// off < 0 is no space, too
		if cond.op == OBin && cond.aux == "<" && truth {
			if k, ok := cond.args[1].constInt(); ok && k == 0 && c.St.HasV("leased", cond.args[0]) {
				c.St.DelV("leased", cond.args[0])
			}
		}
	}
	sh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		for _, l := range c.St.Find("leased") {
			r.Count("leases checked", 1)
			if !c.St.HasV("recorded", l) {
				c.Report("c05:lease-unrecorded", "space allocated for an entry is not recorded on every path and is not given back when the sync is rolled back")
			}
		}
	}
	for _, n := range []string{"unitdb._WindowWriter.write", "unitdb._BlockWriter.write", "unitdb._WindowWriter.append", "unitdb._BlockWriter.append", "unitdb._BlockWriter.extend"} {
		if f := r.Fn(n); f != nil {
			r.Explore(sh, f)
		}
	}
	r.Need("block writes", 1)
	r.Need("leases checked", 1)

	// saving covers every block in the span
	if f := r.Fn("unitdb.saveBlocks"); f != nil {
		vh := &Hooks{Interesting: callIs("os.File.ReadAt")}
		vh.Call = func(c *CallCtx) {
			if c.Name == "os.File.ReadAt" {
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			}
		}
		vh.MapRead = func(c *Ctx, m, k *Val) {}
		vh.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op == OExt && cond.args[0].op == OLookup && truth {
				c.St.Add("kept") // saved before
			}
		}
		vh.MapWrite = func(c *Ctx, m, k, v *Val) {
			if v != nil && m.op == OParam {
				c.St.Add("kept")
			}
		}
		vh.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			r.Count("save iterations", 1)
			if !c.St.Has("kept") {
				c.Report("c05:save-skips", "saving the blocks that are overwritten can leave one out")
			}
			c.St.Del("kept")
		}
		r.Explore(vh, f)
		r.Need("save iterations", 1)
	}
}

// reachedFrom: is f reachable from one of the named functions.
func (p *Prog) reachedFrom(f *ssa.Function, names ...string) bool {
	for _, n := range names {
		if g := p.fn(n); g != nil {
			if g == f || p.reach(g)[f] {
				return true
			}
		}
	}
	return false
}

// earlyOffsets: while the blocks of a sync are prepared no topic offset changes before they are synced.
func earlyOffsets(r *Run) {
	p := r.P
	h := &Hooks{Interesting: callIs("unitdb._Trie.setOffset", "unitdb._SyncHandle.sync", "unitdb._WindowWriter.append")}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb._WindowWriter.append":
			c.Opaque()
			c.St.Del("synced")
			c.ForkErr(func(s *State) { s.Add("appended") }, nil)
		case "unitdb._SyncHandle.sync":
			c.Opaque()
			c.ForkErr(func(s *State) { s.Add("synced") }, nil)
		case "unitdb._Trie.setOffset":
			c.Opaque()
			if c.St.Has("appended") && !c.St.Has("synced") {
				c.Report("c05:offset-early:append", "a topic offset is changed before the blocks of the sync are written, a failed sync leaves the topic without its entries")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) { r.Count("block preparation exits", 1) }
	seen := map[*ssa.Function]bool{}
	for _, ci := range p.callsTo("unitdb._WindowWriter.append") {
		if f := ci.Parent(); !seen[f] {
			seen[f] = true
			r.Explore(h, f)
		}
	}
	r.Need("block preparation exits", 1)
}

// loopDeletes: the loop deletes from the map held in the field.
func loopDeletes(l *loop, f *types.Var) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" && ssaField(ci.Common().Args[0]) == f {
					return true
				}
			}
		}
	}
	return false
}
