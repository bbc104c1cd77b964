package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
	checks["C10"] = checkC10
	checks["C11"] = checkC11
}

// bounds keeps what the path knows about the size of named things.
type bounds struct {
	fields map[*types.Var]string // field -> name
	other  func(c *Ctx, v *Val) string
}

// nameOf: which tracked thing has this length operand.
func (b *bounds) nameOf(c *Ctx, v *Val) string {
	if v == nil {
		return ""
	}
	for v.op == OConv && len(v.args) > 0 {
		v = v.args[0]
	}
	if v.op != OLen {
		if b.other != nil {
			return b.other(c, v)
		}
		return ""
	}
	x := v.args[0]
	return b.of(c, x)
}

// of: the tracked field whose contents x is.
func (b *bounds) of(c *Ctx, x *Val) string {
	for x.op == OConv && len(x.args) > 0 {
		x = x.args[0]
	}
	if x.op == OLoad && x.args[0].op == OFAddr {
		return b.fields[x.args[0].fld]
	}
	if x.op == OField {
		return b.fields[x.fld]
	}
	for k, v := range c.St.mem {
		if k.op == OFAddr && v == x && b.fields[k.fld] != "" {
			return b.fields[k.fld]
		}
	}
	return ""
}

func (b *bounds) get(st *State, n string) (lo, hi int64) {
	lo, hi = 0, 1<<62
	for _, t := range st.tags {
		if strings.HasPrefix(t.N, "bound|"+n+"|") {
			p := strings.Split(t.N, "|")
			lo, _ = strconv.ParseInt(p[2], 10, 64)
			hi, _ = strconv.ParseInt(p[3], 10, 64)
		}
	}
	return
}

func (b *bounds) set(st *State, n string, lo, hi int64) {
	l, h := b.get(st, n)
	if lo < l {
		lo = l
	}
	if hi > h {
		hi = h
	}
	st.Del(fmt.Sprintf("bound|%s|%d|%d", n, l, h))
	st.Add(fmt.Sprintf("bound|%s|%d|%d", n, lo, hi), nil)
}

// assume narrows the bounds by a branch condition.
func (b *bounds) assume(c *Ctx, cond *Val, truth bool) {
	if cond.op != OBin || len(cond.args) != 2 {
		return
	}
	x, y := cond.args[0], cond.args[1]
	ci := func(v *Val) (int64, bool) {
		if v.op != OConst {
			return 0, false
		}
		return constant.Int64Val(constant.ToInt(v.cv))
	}
	nx, ny := b.nameOf(c, x), b.nameOf(c, y)
	cx, okx := int64(0), false
	cy, oky := int64(0), false
	if x.op == OConst && x.cv.Kind() == constant.Int {
		cx, okx = ci(x)
	}
	if y.op == OConst && y.cv.Kind() == constant.Int {
		cy, oky = ci(y)
	}
	const inf = 1 << 62
	switch {
	case cond.aux == "<" && nx != "" && oky:
		if truth {
			b.set(c.St, nx, 0, cy-1)
		} else {
			b.set(c.St, nx, cy, inf)
		}
	case cond.aux == "<" && ny != "" && okx:
		if truth {
			b.set(c.St, ny, cx+1, inf)
		} else {
			b.set(c.St, ny, 0, cx)
		}
	case cond.aux == "==" && (nx != "" && oky || ny != "" && okx):
		n, k := nx, cy
		if !oky {
			n, k = ny, cx
		}
		if truth {
			b.set(c.St, n, k, k)
		} else if lo, _ := b.get(c.St, n); lo == k {
			b.set(c.St, n, k+1, inf)
		}
	}
}

// pkgConst is the value of an integer constant of a package.
func (p *Prog) pkgConst(pkg, name string) (int64, bool) {
	pk := p.byPath[pkg]
	if pk == nil {
		return 0, false
	}
	o, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(o.Val()))
}

// methodsOf lists the exported methods of a type.
func (r *Run) methodsOf(names ...string) []*ssa.Function {
	return r.P.fns(func(f *ssa.Function) bool {
		if !isExported(f) {
			return false
		}
		for _, n := range names {
			if strings.HasPrefix(fname(f), n+".") && f.Signature.Recv() != nil {
				return true
			}
		}
		return false
	})
}

func fieldIn(fs map[*types.Var]bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			return fs[structOf(x.X.Type()).Field(x.Field)]
		case *ssa.Field:
			return fs[structOf(x.X.Type()).Field(x.Field)]
		}
		return false
	}
}

// checkC09: nothing is changed for a request that is not valid.
func checkC09(r *Run) {
	r.Rule("on every path of every public operation that reaches a change of the store (memory block, topic trie, time window, block files, pending batch) or a lookup, the path has established: topic not empty and within the limit; for puts payload not empty and within the limit, and a given ID complete; for deletes an ID of full size; the parsed topic valid")
	p := r.P
	maxT, ok1 := p.pkgConst("unitdb", "maxTopicLength")
	maxV, ok2 := p.pkgConst("unitdb", "maxValueLength")
	if !ok1 || !ok2 {
		r.Violate("anchor:limits", "", "limits of topic and payload not found")
		return
	}
	if maxT > 1<<16 {
		r.Violate("limit:topic", "", "the topic limit %d is larger than a topic can be stored", maxT)
	}
	if maxV > 1<<32-1 {
		r.Violate("limit:value", "", "the payload limit %d does not fit the stored size", maxV)
	}
	b := &bounds{fields: map[*types.Var]string{}}
	fs := map[*types.Var]bool{}
	for _, x := range [][3]string{{"unitdb", "Entry", "Topic"}, {"unitdb", "Entry", "Payload"}, {"unitdb", "Entry", "ID"}, {"unitdb", "Query", "Topic"}, {"message", "Topic", "Topic"}, {"message", "Topic", "Parts"}, {"message", "Topic", "TopicType"}} {
		f := r.Field(x[0], x[1], x[2])
		if f == nil {
			return
		}
		fs[f] = true
		n := x[2]
		if x[0] == "message" {
			n = "parsed " + n
		}
		b.fields[f] = n
	}
	typeF := p.field("message", "Topic", "TopicType")
	inv, okInv := p.pkgConst("message", "TopicInvalid")
	if !okInv {
		r.Violate("anchor:TopicInvalid", "", "message.TopicInvalid not found")
		return
	}
	sinks := map[string]string{
		"memdb.DB.Put": "store", "memdb.DB.Delete": "delete", "memdb.Batch.Put": "batch write", "memdb.Batch.Delete": "batch write",
		"unitdb._Trie.add": "topic", "unitdb._TimeWindowBucket.add": "time window", "unitdb._BlockWriter.del": "index", "unitdb._Lease.freeBlock": "free list",
		"unitdb._Trie.lookup": "query", "unitdb._TimeWindowBucket.lookup": "query",
		"github.com/unit-io/bpool.Buffer.Write": "batch buffer",
	}
	opaque := map[string]bool{"unitdb._Trie.getOffset": true, "unitdb.Filter.Test": true, "unitdb.Filter.Append": true}
	isSink := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && sinks[staticName(ci.Common())] != ""
	}
	interesting := fieldIn(fs)
	h := &Hooks{Interesting: func(in ssa.Instruction) bool { return isSink(in) || interesting(in) }}
	h.KeepFact = func(v *Val) bool { return v.op == OLoad && v.args[0].op == OFAddr && fs[v.args[0].fld] }
	kind := ""
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		b.assume(c, cond, truth)
		if cond.op == OBin && cond.aux == "==" {
			x, y := cond.args[0], cond.args[1]
			if x.op == OConst {
				x, y = y, x
			}
			if (x.op == OLoad && x.args[0].op == OFAddr && x.args[0].fld == typeF || x.op == OField && x.fld == typeF) && y.op == OConst {
				if k, ok := constant.Int64Val(y.cv); ok && k == inv && !truth {
					c.St.Add("valid", nil)
				} else if ok && k != inv && truth {
					c.St.Add("valid", nil)
				}
			}
			if y.op == ONil && truth && b.of(c, x) == "ID" {
				c.St.Add("no ID", nil)
			}
		}
	}
	idF := p.field("unitdb", "Entry", "ID")
	h.Load = func(c *Ctx, addr *Val) {
		if addr.op == OFAddr && addr.fld == idF && c.E.nilness(c.St, c.E.load(c.St, addr, idF.Type())) == 1 {
			c.St.Add("no ID", nil)
		}
	}
	idSize := int64(0)
	if f := r.Fn("message.ID.Size"); f != nil {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
					if k, ok := rt.Results[0].(*ssa.Const); ok {
						idSize = k.Int64()
					}
				}
			}
		}
	}
	h.Call = func(c *CallCtx) {
		if strings.HasPrefix(c.Name, "message.Topic.") || strings.HasPrefix(c.Name, "message.") && c.Name != "message.ID.Size" && !strings.HasSuffix(c.Name, ".Size") {
			if c.Name == "message.Topic.ParseKey" || c.Name == "message.Topic.Parse" {
				c.St.Del("valid")
			}
			c.inline = 2
			return
		}
		if opaque[c.Name] {
			c.inline = 2
			return
		}
		s := sinks[c.Name]
		if s == "" {
			return
		}
		c.handled = true
		c.inline = 2
		r.Count("changes reached", 1)
		need := func(ok bool, what string) {
			r.Count("preconditions", 1)
			if !ok {
				c.Report("c09:"+kind+":"+what+":"+s, "a %s request reaches a change of the %s (%s) on a path where it is not certain that %s", kind, s, c.Name, what)
			}
		}
		lo, hi := b.get(c.St, "Topic")
		need(lo >= 1, "the topic is not empty")
		need(hi <= maxT, "the topic is within the size limit")
		need(c.St.Has("valid"), "the topic is valid")
		lo, _ = b.get(c.St, "parsed Topic")
		need(lo >= 1, "the topic part of the key is not empty")
		switch kind {
		case "put":
			lo, hi = b.get(c.St, "Payload")
			need(lo >= 1, "the payload is not empty")
			need(hi <= maxV, "the payload is within the size limit")
			_, hi = b.get(c.St, "parsed Parts")
			need(hi <= 255, "the number of topic parts can be stored")
			lo, hi = b.get(c.St, "ID")
			need(c.St.Has("no ID") || idSize > 0 && lo >= idSize, "a given ID is complete")
		case "delete":
			lo, hi = b.get(c.St, "ID")
			need(lo >= 1, "an ID is given")
			// (an ID that is not empty is not nil either.)
			need(lo >= idSize || lo >= 1 && c.St.Has("no ID"), "the ID is complete")
		}
		c.ForkErr(nil, nil)
	}
	for _, k := range []struct {
		kind  string
		roots []string
	}{
		{"put", []string{"unitdb.DB.PutEntry", "unitdb.DB.Put", "unitdb.Batch.PutEntry", "unitdb.Batch.Put"}},
		{"delete", []string{"unitdb.DB.DeleteEntry", "unitdb.DB.Delete", "unitdb.Batch.DeleteEntry", "unitdb.Batch.Delete"}},
		{"query", []string{"unitdb.DB.Get"}},
	} {
		kind = k.kind
		for _, n := range k.roots {
			before := r.counts["changes reached"]
			r.Explore(h, r.Fn(n))
			if r.counts["changes reached"] == before {
				r.Violate("anchor:"+n, "", "no change of the store is reached from %s", n)
			}
		}
	}
	r.Need("changes reached", 1)
}

// checkC10: nothing is read or written after close.
func checkC10(r *Run) {
	r.Rule("on every path of every public operation of the database, the in-memory store and the log that reaches memory blocks, log files or data files, the path has established that the object is not closed (closed flag read as zero, or the log store found open)")
	r.Rule("close reports success and releases resources only on the path on which its compare-and-swap closed the object")
	p := r.P
	closedF, openF := map[*types.Var]bool{}, map[*types.Var]bool{}
	for _, x := range [][3]string{{"unitdb", "_DB", "closed"}, {"memdb", "_DB", "closed"}, {"wal", "WAL", "closed"}} {
		if f := r.Field(x[0], x[1], x[2]); f != nil {
			closedF[f] = true
		}
	}
	if f := r.Field("wal", "_FileStore", "opened"); f != nil {
		openF[f] = true
	}
	all := map[*types.Var]bool{}
	for f := range closedF {
		all[f] = true
	}
	for f := range openF {
		all[f] = true
	}
	fieldRead := fieldIn(all)
	run := func(what string, roots []*ssa.Function, sinks []string, opaque []string, except map[string]bool) {
		is := callIs(sinks...)
		op := map[string]bool{}
		for _, o := range opaque {
			op[o] = true
		}
		snk := map[string]bool{}
		for _, s := range sinks {
			snk[s] = true
		}
		var root *ssa.Function
		h := &Hooks{Interesting: func(in ssa.Instruction) bool { return is(in) || fieldRead(in) }}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op == OBin && cond.aux == "==" {
				x, y := cond.args[0], cond.args[1]
				if x.op == OConst {
					x, y = y, x
				}
				if x.op == OLoad && x.args[0].op == OFAddr && closedF[x.args[0].fld] && y.op == OConst {
					if constant.Sign(y.cv) == 0 && truth || constant.Sign(y.cv) != 0 && !truth {
						c.St.Add("open", nil)
					}
				}
			}
			isClosed := func(x *Val) bool { return x.op == OLoad && x.args[0].op == OFAddr && closedF[x.args[0].fld] }
			if cond.op == OBin && cond.aux == "<" {
				x, y := cond.args[0], cond.args[1]
				if isClosed(y) && x.op == OConst && constant.Sign(x.cv) == 0 && !truth || isClosed(x) && y.op == OConst && constant.Compare(y.cv, token.EQL, constant.MakeInt64(1)) && truth {
					c.St.Add("open", nil)
				}
			}
			if cond.op == OLoad && cond.args[0].op == OFAddr && openF[cond.args[0].fld] && truth {
				c.St.Add("open", nil)
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && closedF[addr.fld] {
				c.St.Add("closing", nil)
			}
		}
		h.Call = func(c *CallCtx) {
			if op[c.Name] {
				c.inline = 2
				return
			}
			if !snk[c.Name] {
				return
			}
			c.handled = true
			c.inline = 2
			r.Count("accesses reached", 1)
			isClose := root.Name() == "Close"
			ok := c.St.Has("open")
			if isClose {
				ok = c.St.Has("closing")
			}
			if !ok {
				c.Report("c10:"+fname(root)+":"+c.Name, "%s reaches %s on a path where it is not certain that the %s is open", fname(root), c.Name, what)
			}
			c.ForkErr(nil, nil)
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if fn.Name() != "Close" {
				return
			}
			r.Count("close exits", 1)
			if !c.St.Has("closing") && c.mayBeSuccess(fn, res) {
				c.Report("c10:twice:"+fname(fn), "%s can report success although it did not close the %s itself", fname(fn), what)
			}
		}
		for _, f := range roots {
			if except[fname(f)] {
				continue
			}
			if f.Name() != "Close" && !p.reachesCall(f, sinks...) {
				continue
			}
			root = f
			r.Count("operations", 1)
			r.Sample("%s", fname(f))
			r.Explore(h, f)
		}
	}
	run("database", r.methodsOf("unitdb.DB", "unitdb.Batch"),
		[]string{"memdb.DB.Put", "memdb.DB.Get", "memdb.DB.Delete", "memdb.Batch.Put", "memdb.Batch.Write", "memdb.DB.Lookup", "memdb.DB.BlockIterator", "memdb.DB.Close", "unitdb._Trie.add", "unitdb._Trie.lookup", "unitdb._TimeWindowBucket.add", "unitdb._TimeWindowBucket.lookup", "unitdb._BlockWriter.del", "unitdb._SyncHandle.Sync", "unitdb._SyncHandle.startSync", "unitdb._FileSet.close", "unitdb._Lease.write", "unitdb.DB.writeInfo", "unitdb._BlockReader.readMessage", "unitdb._BlockReader.readEntry", "github.com/unit-io/bpool.Buffer.Write"},
		[]string{"unitdb._SyncHandle.finish", "unitdb.DB.sync", "message.Topic.Parse", "message.Topic.ParseKey", "memdb.Batch.Commit", "memdb.Batch.Abort", "unitdb.DB.setEntry", "unitdb.Filter.Test"}, nil)
	run("in-memory store", r.methodsOf("memdb.DB", "memdb.Batch"),
		[]string{"memdb._Block.put", "memdb._Block.get", "memdb._Block.delete", "memdb._TinyLogManager.writeWait", "github.com/unit-io/bpool.Buffer.Slice", "wal.WAL.NewWriter", "wal.WAL.Close"},
		nil, map[string]bool{"memdb.DB.All": true})
	run("log", r.methodsOf("wal.WAL", "wal.Writer", "wal.Reader"),
		[]string{"os.Remove", "os.RemoveAll", "os.Create", "os.Rename", "os.Open", "os.OpenFile", "io/ioutil.ReadDir", "os.ReadDir"},
		nil, nil)
	r.Need("operations", 4)
	r.Need("accesses reached", 8)
	r.Need("close exits", 1)
}

// checkC11: an immutable database deletes nothing.
func checkC11(r *Run) {
	r.Rule("on every path of every public operation that removes an entry (from memory blocks, the index, the free list or the entry count) or adds a deletion to a batch, the path has read the immutable flag as false; paths on which it is true report an error")
	p := r.P
	imm := r.Field("unitdb", "_Flags", "immutable")
	delF := r.Field("unitdb", "_BatchIndex", "delFlag")
	if imm == nil || delF == nil {
		return
	}
	sinks := map[string]string{"memdb.DB.Delete": "deletes from the memory store", "memdb.Batch.Delete": "deletes from the memory store", "unitdb._BlockWriter.del": "deletes from the index", "unitdb._Lease.freeBlock": "frees space", "unitdb._Lease.free": "frees space", "unitdb.DB.decount": "lowers the entry count"}
	var names []string
	for n := range sinks {
		names = append(names, n)
	}
	is := callIs(names...)
	immRead := fieldIn(map[*types.Var]bool{imm: true, delF: true})
	var root *ssa.Function
	h := &Hooks{Interesting: func(in ssa.Instruction) bool { return is(in) || immRead(in) }}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if (cond.op == OLoad && cond.args[0].op == OFAddr && cond.args[0].fld == imm) || cond.op == OField && cond.fld == imm {
			if truth {
				c.St.Add("immutable", nil)
			} else {
				c.St.Add("mutable", nil)
			}
		}
	}
	check := func(c *Ctx, what string) {
		r.Count("removals reached", 1)
		if !c.St.Has("mutable") {
			c.Report("c11:"+fname(root)+":"+what, "%s %s on a path that has not established that the database is mutable", fname(root), what)
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == delF && v == c.E.vTrue {
			check(c, "adds a deletion to the batch")
		}
	}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.DB.sync", "unitdb._SyncHandle.Sync", "unitdb._SyncHandle.startSync", "unitdb._SyncHandle.finish":
			c.inline = 2
			c.handled = true
			c.ForkErr(nil, nil)
			return
		}
		if w := sinks[c.Name]; w != "" {
			check(c.Ctx, w)
			c.handled = true
			c.inline = 2
			c.ForkErr(nil, nil)
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("immutable") {
			r.Count("refusals", 1)
			if c.mayBeSuccess(fn, res) {
				c.Report("c11:refused:"+fname(fn), "%s can report success for a delete request although the database is immutable", fname(fn))
			}
		}
	}
	for _, f := range r.methodsOf("unitdb.DB", "unitdb.Batch") {
		if f.Name() == "Sync" || !(p.reachesCall(f, names...) || strings.Contains(f.Name(), "Delete")) {
			continue
		}
		root = f
		r.Count("operations", 1)
		r.Sample("%s", fname(f))
		r.Explore(h, f)
	}
	r.Need("operations", 1)
	r.Need("removals reached", 1)
	r.Need("refusals", 1)
}
