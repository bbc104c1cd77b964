package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// each is a for-all obligation on a loop: an iteration that ends must have done
// something (or met a condition under which there is nothing to do), and the
// loop may be left early only after a failure or when told to stop.
type each struct {
	name string // counter name
	key  string
	what string
	is   func(l *loop, fn *ssa.Function) bool
	done []string // tags: any of them settles an iteration
	stop []string // tags that permit leaving early
	only bool     // only the iteration rule
}

// eachHooks adds the loop obligations to h.
func (r *Run) eachHooks(h *Hooks, es ...*each) {
	enter, back, exit := h.LoopEnter, h.Back, h.LoopExit
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if enter != nil {
			enter(c, l, fn)
		}
		for _, e := range es {
			if e.is(l, fn) {
				for _, d := range e.done {
					c.St.Del(d)
				}
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if back != nil {
			back(c, l, fn)
		}
		for _, e := range es {
			if e.is(l, fn) {
				r.Count(e.name, 1)
				ok := false
				for _, d := range e.done {
					ok = ok || c.St.Has(d)
				}
				for _, d := range e.stop {
					ok = ok || c.St.Has(d)
				}
				if !ok {
					c.Report(e.key, "%s", e.what)
				}
				for _, d := range e.done {
					c.St.Del(d)
				}
			}
		}
	}
	h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
		if exit != nil {
			exit(c, l, fn)
		}
		for _, e := range es {
			if !e.only && c.In.Block() != l.head && e.is(l, fn) {
				ok := false
				for _, d := range e.stop {
					ok = ok || c.St.Has(d)
				}
				if !ok {
					c.Report(e.key+":stops", "%s: the loop can end before the last one", e.what)
				}
			}
		}
	}
}

// loopIs identifies loops by an instruction they contain, in one function (or any when f is nil).
func loopIs(f *ssa.Function, pred func(ssa.Instruction) bool) func(l *loop, fn *ssa.Function) bool {
	return func(l *loop, fn *ssa.Function) bool {
		return (f == nil || f == fn) && loopHas(l, pred)
	}
}

// callsParam: a call of a function parameter or captured function value.
func callsParam(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() {
		return false
	}
	switch ci.Common().Value.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	return false
}

// isBuiltin: an append/delete/... call.
func isBuiltin(name string, pred func(ci ssa.CallInstruction) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		b, ok := ci.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == name && (pred == nil || pred(ci))
	}
}

// mapWriteTo: an update of a map of the type.
func mapUpdate(pred func(m *ssa.MapUpdate) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		m, ok := in.(*ssa.MapUpdate)
		return ok && (pred == nil || pred(m))
	}
}

// forkStop models a call of a callback (stop bool, err error): go on, stop, or fail.
func (c *CallCtx) forkStop(goOn, stop, fail func(*State)) {
	e := c.E
	sig := c.Sig
	er := c.ErrRes()
	var flag *Val
	for i := 0; i < sig.Results().Len(); i++ {
		if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			flag = e.ext(c.Res, i, sig.Results().At(i).Type())
			if sig.Results().Len() == 1 {
				flag = c.Res
			}
		}
	}
	set := func(s *State, stopv *Val, errv *Val) {
		if flag != nil {
			e.setFact(s, flag, stopv)
		}
		if er != nil {
			e.setFact(s, er, errv)
		}
	}
	run := func(f func(*State), s *State) {
		if f != nil {
			f(s)
		}
	}
	c.Fork(func(s *State) { set(s, e.vFalse, e.vNil); run(goOn, s) })
	if flag != nil {
		c.Fork(func(s *State) { set(s, e.vTrue, e.vNil); run(stop, s) })
	}
	if er != nil {
		c.Fork(func(s *State) {
			e.setFact(s, er, e.vNonNil)
			run(fail, s)
		})
	}
}

// lookupOK: is the condition the "found" flag of a map lookup; also returns the map.
func lookupOK(cond *Val) (*Val, bool) {
	if cond.op == OExt && cond.args[0].op == OLookup {
		return cond.args[0].args[0], true
	}
	return nil, false
}

// eqZero: cond is "x == 0".
func eqConst(cond *Val, k int64) (*Val, bool) {
	if cond.op == OBin && cond.aux == token.EQL.String() {
		if v, ok := cond.args[1].constInt(); ok && v == k {
			return cond.args[0], true
		}
		if v, ok := cond.args[0].constInt(); ok && v == k {
			return cond.args[1], true
		}
	}
	return nil, false
}

// failedExit: the function does not report an error on this exit.
func (c *Ctx) mayBeSuccess(fn *ssa.Function, res []*Val) bool {
	ev, has := c.errValue(fn, res)
	if !has {
		return true
	}
	return ev == nil || c.E.nilness(c.St, ev) != 2
}
