package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

// resultErr: does a signature report an error (directly or on a channel).
func resultErr(s *types.Signature) bool {
	for i := 0; i < s.Results().Len(); i++ {
		t := s.Results().At(i).Type()
		if isErrorType(t) {
			return true
		}
		if ch, ok := t.Underlying().(*types.Chan); ok && isErrorType(ch.Elem()) {
			return true
		}
	}
	return false
}

func chanErrOnly(s *types.Signature) bool {
	for i := 0; i < s.Results().Len(); i++ {
		if isErrorType(s.Results().At(i).Type()) {
			return false
		}
	}
	return resultErr(s)
}

// sentinel errors that are an answer, not a failure.
var answers = map[string]bool{
	"unitdb.errEntryExist": true, "unitdb.errEntryDoesNotExist": true, "unitdb.errMsgIDDeleted": true, "unitdb.errEntryInvalid": true, "memdb.errEntryDoesNotExist": true, "io.EOF": true, "io.ErrUnexpectedEOF": true,
}

// callbackErr: a call through a function value that returns an error.
func callbackErr(c *ssa.CallCommon) bool {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	return resultErr(c.Signature())
}

// fallible computes the module functions of the packages that can fail because of storage and report an error.
func (p *Prog) fallible(pkgs map[string]bool, isOp func(ssa.Instruction) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	hasOp := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			if hasOp[f] || !pkgs[pkgOf(f)] {
				continue
			}
			op := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					if isOp(in) || callbackErr(ci.Common()) {
						op = true
					}
					if g := ci.Common().StaticCallee(); g != nil && hasOp[g] {
						op = true
					}
					if ci.Common().IsInvoke() {
						for _, g := range p.invokeTargets(ci.Common()) {
							op = op || hasOp[g]
						}
					}
				}
			}
			if op {
				hasOp[f] = true
				changed = true
			}
		}
	}
	for f := range hasOp {
		if resultErr(f.Signature) {
			r[f] = true
		}
	}
	return r
}

// resultUnused: nobody looks at the result of a call.
func resultUnused(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	return ok && len(*v.Referrers()) == 0
}

// cleanup gives memory back after the outcome of an operation was decided.
var cleanup = map[string]bool{"memdb.Batch.Abort": true, "unitdb.Batch.Abort": true}

// advisory reads speed up an answer and fall back to a conservative one.
var advisory = map[string]bool{"unitdb.Filter.getFilterBlock": true}

// entryExported: an exported function, or an exported method of an exported type.
func entryExported(f *ssa.Function) bool {
	if !isExported(f) {
		return false
	}
	rv := f.Signature.Recv()
	if rv == nil {
		return true
	}
	t := rv.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

func checkC08(r *Run) {
	p := r.P
	r.Rule("modular error propagation: in every function of unitdb, memdb and wal that reports errors, when one storage call (file, log, memory block, or a function that makes such calls) fails, every exit reached on that path returns a non-nil error; an error compared equal to one of the answers " + "(entry exists / does not exist, end of file) is not a failure")
	pkgs := map[string]bool{"unitdb": true, "memdb": true, "wal": true}
	isOp := calleeIn(fileOps, bufOps)
	fall := p.fallible(pkgs, isOp)
	interesting := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if isOp(in) || callbackErr(ci.Common()) {
			return true
		}
		g := ci.Common().StaticCallee()
		return g != nil && fall[g]
	}
	var root *ssa.Function
	h := &Hooks{Interesting: interesting}
	h.Call = func(c *CallCtx) {
		if c.IsGo {
			c.Opaque()
			return
		}
		op := fileOps[c.Name] || bufOps[c.Name]
		name := shortOp(c.Name)
		if !op && c.Callee != nil && fall[c.Callee] && c.Callee != root {
			op = true
			c.Opaque()
		}
		if !op && c.Callee == root {
			c.Opaque()
			op = true
		}
		if !op && c.Callee == nil && c.Common != nil && callbackErr(c.Common) {
			op, name = true, "callback"
		}
		if !op || !resultErr(c.Sig) {
			return
		}
		if c.Name == "os.File.Close" && c.IsDefer {
			return // released after use; data were written and flushed before
		}
		if c.Name == "os.File.Close" && resultUnused(c.In) {
			return // the file was only read or locked, or a failure is already being reported
		}
		if cleanup[c.Name] && !strings.Contains(fname(root), ".Abort") {
			return // gives back memory after the outcome was decided
		}
		if advisory[c.Name] || fname(root) == "unitdb.Filter.getFilterBlock" && memOps[c.Name] {
			return // the filter answers "maybe" when its block cannot be read
		}
		r.Count("fallible calls explored", 1)
		pos := name + " in " + fname(c.Fn())
		e := c.E
		if chanErrOnly(c.Sig) {
			if c.St.Has("failed") {
				c.forkChanErr(nil, nil)
				c.outcomes = c.outcomes[:1]
				return
			}
			c.forkChanErr(nil, func(s *State) {
				s.Add("failed", s.mem[e.chanCell(c.Res)])
				s.Add("at:" + pos)
			})
			return
		}
		ok := func(s *State) {
			if rs := c.Sig.Results(); rs.Len() == 2 {
				if _, ok := rs.At(0).Type().Underlying().(*types.Slice); ok {
					e.setFact(s, e.ext(c.Res, 0, rs.At(0).Type()), e.vNonNil)
				}
			}
		}
		if c.St.Has("failed") {
			c.ForkErr(ok, nil)
			c.outcomes = c.outcomes[:1]
			return
		}
		er := c.ErrRes()
		c.ForkErr(ok, func(s *State) {
			s.Add("failed", er)
			s.Add("at:" + pos)
		})
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		// the failure is one of the answers
		for _, f := range c.St.Find("failed") {
			if f == nil {
				continue
			}
			if k := c.St.facts[f]; k != nil && k.op == OLoad && k.args[0].op == OGlobal && answers[k.args[0].aux] {
				c.St.Del("failed")
				c.St.DelPrefix("at:")
			}
		}
		// os.IsNotExist(err), os.IsExist(err)
		if truth && cond.op == OCall && (strings.HasPrefix(cond.aux, "os.IsNotExist@") || strings.HasPrefix(cond.aux, "os.IsExist@") || strings.HasPrefix(cond.aux, "errors.Is@")) {
			c.St.Del("failed")
			c.St.DelPrefix("at:")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.St.Has("failed") {
			return
		}
		r.Count("exits with a failure", 1)
		ev, _ := c.errValue(fn, res)
		if ev != nil && c.E.nilness(c.St, ev) == 2 {
			return
		}
		for _, t := range c.St.WithPrefix("at:") {
			c.Report("c08:"+fname(fn)+":"+strings.TrimPrefix(t.N, "at:"), "%s can return without an error although %s failed", fname(fn), strings.TrimPrefix(t.N, "at:"))
		}
	}
	live := map[*ssa.Function]bool{}
	for pk := range pkgs {
		for _, f := range p.entries(pk) {
			if entryExported(f) {
				for g := range p.reach(f) {
					live[g] = true
				}
			}
		}
	}
	for _, f := range p.funcs {
		if fall[f] && live[f] {
			root = f
			r.Explore(h, f)
			r.Count("functions checked", 1)
		}
	}
	r.Need("functions checked", 20)
	r.Need("fallible calls explored", 50)
	r.Need("exits with a failure", 33)
}
