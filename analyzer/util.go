package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pair relates two values.
func (e *Engine) pair(n string, vs ...*Val) *Val {
	return e.in.mk(Val{op: OComp, aux: "pair:" + n, args: vs})
}

// contains: does some part of v satisfy pred.
func (v *Val) contains(pred func(*Val) bool) bool {
	if v == nil {
		return false
	}
	seen := map[*Val]bool{}
	var rec func(v *Val) bool
	rec = func(v *Val) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if pred(v) {
			return true
		}
		for _, a := range v.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// strConsts lists the string constants inside v.
func (v *Val) strConsts() []string {
	var r []string
	v.contains(func(x *Val) bool {
		if x.op == OConst && x.cv.Kind() == constant.String {
			r = append(r, constant.StringVal(x.cv))
		}
		return false
	})
	return r
}

// errValue is the error a function reports: its error result, or the error
// sent on the channel it returns.
func (c *Ctx) errValue(fn *ssa.Function, res []*Val) (*Val, bool) {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		t := rs.At(i).Type()
		if isErrType(t) && i < len(res) {
			return res[i], true
		}
		if ch, ok := t.Underlying().(*types.Chan); ok && isErrorType(ch.Elem()) && i < len(res) {
			if v := c.St.mem[c.E.chanCell(res[i])]; v != nil {
				return c.E.normRes(c.St, v), true
			}
			return nil, true
		}
	}
	return nil, false
}

// callsTo lists all call instructions in module functions whose static callee has the name.
func (p *Prog) callsTo(names ...string) []ssa.CallInstruction {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	var r []ssa.CallInstruction
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && set[staticName(ci.Common())] {
					r = append(r, ci)
				}
			}
		}
	}
	return r
}

// staticName is the qualified name of a call's static callee or interface method.
func staticName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return qualType(c.Value.Type()) + "." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	return ""
}

// callIs makes an Interesting predicate from callee names (exact) .
func callIs(names ...string) func(ssa.Instruction) bool {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && set[staticName(ci.Common())]
	}
}

// pkgOf is the module relative package of a function, closures included.
func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return relPath(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return relPath(o.Pkg().Path())
	}
	return ""
}

func isExported(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		return true
	}
	return true
}

// entries lists exported functions and methods of a package, also methods of unexported types.
func (p *Prog) entries(pkg string) []*ssa.Function {
	return p.fns(func(f *ssa.Function) bool {
		return pkgOf(f) == pkg && isExported(f) && !strings.HasPrefix(f.Name(), "init")
	})
}

// reachesCall: can f reach one of the named calls.
func (p *Prog) reachesCall(f *ssa.Function, names ...string) bool {
	is := callIs(names...)
	for g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					return true
				}
			}
		}
	}
	return false
}

// fnGlobal is a package level variable.
func (p *Prog) fnGlobal(pkg, name string) *ssa.Global {
	for _, f := range p.funcs {
		if pkgOf(f) == pkg && f.Pkg != nil {
			if g, ok := f.Pkg.Members[name].(*ssa.Global); ok {
				return g
			}
			return nil
		}
	}
	return nil
}

// callers lists the module functions that call f.
func (p *Prog) callers(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, g := range p.funcs {
		for _, h := range p.directCallees(g) {
			if h == f {
				r = append(r, g)
				break
			}
		}
	}
	return r
}
