package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) step() bool {
	e.steps++
	if e.steps > e.maxSteps {
		e.over = true
	}
	return !e.over
}

func (e *Engine) exec(fs *frame, st *State, b *ssa.BasicBlock, idx int, work *worklist, ret func(*State, []*Val)) {
	for ; idx < len(b.Instrs); idx++ {
		if !e.step() {
			return
		}
		in := b.Instrs[idx]
		fs.cur = in
		c := &Ctx{E: e, St: st, fr: fs, In: in}
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			a := e.site(fs, x, OAlloc, x.Comment, x.Type())
			for k := range st.mem {
				if k == a || under(k, a) {
					delete(st.mem, k)
				}
			}
			st.mem[a] = e.zero(deref(x.Type()))
			fs.env[x] = a
		case *ssa.UnOp:
			v := e.eval(fs, x.X)
			switch x.Op {
			case token.MUL:
				if e.H.Load != nil {
					e.H.Load(c, v)
				}
				fs.env[x] = e.limit(fs, x, e.load(st, v, x.Type()), x.Type())
			case token.NOT:
				fs.env[x] = e.in.not(v)
			case token.ARROW:
				if e.H.Recv != nil {
					e.H.Recv(c, v)
				}
				r, ok := st.mem[e.chanCell(v)]
				if !ok {
					t := x.Type()
					if x.CommaOk {
						t = x.Type().(*types.Tuple).At(0).Type()
					}
					r = e.site(fs, x, ORecv, "recv", t, v)
				}
				if x.CommaOk {
					fs.env[x] = e.in.mk(Val{op: OComp, aux: "tuple", args: []*Val{r, e.site(fs, x, OFresh, "ok", types.Typ[types.Bool])}})
				} else {
					fs.env[x] = r
				}
			default:
				fs.env[x] = e.limit(fs, x, e.in.mk(Val{op: ONeg, aux: x.Op.String(), args: []*Val{v}, typ: x.Type()}), x.Type())
			}
		case *ssa.BinOp:
			fs.env[x] = e.limit(fs, x, e.in.bin(x.Op, e.eval(fs, x.X), e.eval(fs, x.Y), x.Type()), x.Type())
		case *ssa.ChangeType:
			fs.env[x] = e.eval(fs, x.X)
		case *ssa.ChangeInterface:
			fs.env[x] = e.eval(fs, x.X)
		case *ssa.MakeInterface:
			v := e.eval(fs, x.X)
			if v.typ == nil || types.IsInterface(v.typ) {
				v = e.in.mk(Val{op: OConv, aux: "iface:" + x.X.Type().String(), args: []*Val{v}, typ: x.X.Type()})
			}
			fs.env[x] = v
		case *ssa.SliceToArrayPointer:
			fs.env[x] = e.eval(fs, x.X)
		case *ssa.Convert:
			fs.env[x] = e.limit(fs, x, e.convert(e.eval(fs, x.X), x.X.Type(), x.Type()), x.Type())
		case *ssa.MultiConvert:
			fs.env[x] = e.eval(fs, x.X)
		case *ssa.FieldAddr:
			v := e.eval(fs, x.X)
			fs.env[x] = e.limit(fs, x, e.faddr(v, structOf(x.X.Type()).Field(x.Field)), x.Type())
		case *ssa.Field:
			fs.env[x] = e.fieldOf(e.eval(fs, x.X), structOf(x.X.Type()).Field(x.Field))
		case *ssa.IndexAddr:
			bv, iv := e.eval(fs, x.X), e.eval(fs, x.Index)
			if e.H.Index != nil {
				e.H.Index(c, bv, iv, x.X.Type())
			}
			fs.env[x] = e.limit(fs, x, e.in.mk(Val{op: OIAddr, args: []*Val{bv, iv}, typ: x.Type()}), x.Type())
		case *ssa.Index:
			bv, iv := e.eval(fs, x.X), e.eval(fs, x.Index)
			if e.H.Index != nil {
				e.H.Index(c, bv, iv, x.X.Type())
			}
			if bv.op == OZero {
				fs.env[x] = e.zero(x.Type())
			} else {
				fs.env[x] = e.limit(fs, x, e.in.mk(Val{op: OElem, args: []*Val{bv, iv}, typ: x.Type()}), x.Type())
			}
		case *ssa.Slice:
			bv := e.eval(fs, x.X)
			var lo, hi *Val
			if x.Low != nil {
				lo = e.eval(fs, x.Low)
				if n, ok := lo.constInt(); ok && n == 0 {
					lo = nil
				}
			}
			if x.High != nil {
				hi = e.eval(fs, x.High)
			}
			if lo == nil && hi == nil {
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					fs.env[x] = bv
					break
				}
			}
			v := e.limit(fs, x, e.in.mk(Val{op: OSlice, args: []*Val{bv, lo, hi}, typ: x.Type()}), x.Type())
			fs.env[x] = v
			if e.H.Slice != nil {
				e.H.Slice(c, v)
			}
		case *ssa.MakeMap:
			fs.env[x] = e.site(fs, x, OMake, "map", x.Type())
		case *ssa.MakeChan:
			fs.env[x] = e.site(fs, x, OMake, "chan", x.Type(), e.eval(fs, x.Size))
		case *ssa.MakeSlice:
			v := e.site(fs, x, OMake, "slice", x.Type(), e.eval(fs, x.Len))
			fs.env[x] = v
			if e.H.Slice != nil {
				e.H.Slice(c, v)
			}
		case *ssa.Lookup:
			m, k := e.eval(fs, x.X), e.eval(fs, x.Index)
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
				if e.H.Index != nil {
					e.H.Index(c, m, k, x.X.Type())
				}
				fs.env[x] = e.in.mk(Val{op: OElem, args: []*Val{m, k}, typ: x.Type()})
				break
			}
			if e.H.MapRead != nil {
				e.H.MapRead(c, m, k)
			}
			fs.env[x] = e.site(fs, x, OLookup, "lookup", x.Type(), m, k)
		case *ssa.MapUpdate:
			m, k, v := e.eval(fs, x.Map), e.eval(fs, x.Key), e.eval(fs, x.Value)
			if e.H.MapWrite != nil {
				e.H.MapWrite(c, m, k, v)
			}
		case *ssa.Range:
			v := e.eval(fs, x.X)
			if e.H.Range != nil {
				e.H.Range(c, v)
			}
			fs.env[x] = e.site(fs, x, ORange, "range", x.Type(), v)
		case *ssa.Next:
			fs.env[x] = e.site(fs, x, ONext, "next", x.Type(), e.eval(fs, x.Iter))
			if e.H.Range != nil && !x.IsString {
				e.H.Range(c, e.eval(fs, x.Iter).args[0])
			}
		case *ssa.TypeAssert:
			v := e.eval(fs, x.X)
			r := v
			if v.typ == nil || types.IsInterface(v.typ) {
				if !types.IsInterface(x.AssertedType) {
					r = e.in.mk(Val{op: OAssert, aux: x.AssertedType.String(), args: []*Val{v}, typ: x.AssertedType})
				}
			}
			if x.CommaOk {
				fs.env[x] = e.in.mk(Val{op: OComp, aux: "tuple", args: []*Val{r, e.site(fs, x, OFresh, "assertok", types.Typ[types.Bool], v)}})
			} else {
				if e.H.Assert != nil {
					e.H.Assert(c, v, x.AssertedType)
				}
				fs.env[x] = r
			}
		case *ssa.Extract:
			v := e.eval(fs, x.Tuple)
			fs.env[x] = e.ext(v, x.Index, x.Type())
		case *ssa.MakeClosure:
			var bs []*Val
			for _, bnd := range x.Bindings {
				bs = append(bs, e.eval(fs, bnd))
			}
			fs.env[x] = e.in.mk(Val{op: OClosure, fn: x.Fn.(*ssa.Function), args: bs, typ: x.Type()})
		case *ssa.Store:
			a, v := e.eval(fs, x.Addr), e.eval(fs, x.Val)
			if e.H.Store != nil {
				e.H.Store(c, a, v)
			}
			e.store(st, a, v)
		case *ssa.Send:
			ch, v := e.eval(fs, x.Chan), e.eval(fs, x.X)
			if e.H.Send != nil {
				e.H.Send(c, ch, v)
			}
			st.mem[e.chanCell(ch)] = v
		case *ssa.Select:
			e.selectInstr(fs, st, x, func(st2 *State, tup *Val) {
				f2 := fs.clone()
				f2.env[x] = tup
				work.add(item{b: b, idx: idx + 1, fs: f2, st: st2})
			})
			return
		case *ssa.Call:
			ci := e.resolve(fs, st, x.Common())
			exits := e.call(fs, st, x, ci, false, false)
			if len(exits) == 1 {
				st = exits[0].st
				fs.env[x] = e.tuple(exits[0].res)
				continue
			}
			for _, ex := range exits {
				f2 := fs.clone()
				f2.env[x] = e.tuple(ex.res)
				work.add(item{b: b, idx: idx + 1, fs: f2, st: ex.st})
			}
			return
		case *ssa.Defer:
			ci := e.resolve(fs, st, x.Common())
			found := false
			for i := range fs.defers {
				if fs.defers[i].site == x {
					fs.defers[i].call = ci
					found = true
				}
			}
			if !found {
				fs.defers = append(fs.defers, deferred{x, ci})
			}
		case *ssa.Go:
			ci := e.resolve(fs, st, x.Common())
			exits := e.call(fs, st, x, ci, true, false)
			if len(exits) == 1 {
				st = exits[0].st
				continue
			}
			for _, ex := range exits {
				work.add(item{b: b, idx: idx + 1, fs: fs.clone(), st: ex.st})
			}
			return
		case *ssa.RunDefers:
			ds := fs.defers
			fs.defers = nil
			states := []*State{st}
			for i := len(ds) - 1; i >= 0; i-- {
				var next []*State
				seen := map[string]bool{}
				for _, s := range states {
					f2 := fs.clone()
					f2.defers = ds[:i]
					f2.cur = ds[i].site
					for _, ex := range e.call(f2, s, ds[i].site, ds[i].call, false, true) {
						k := ex.st.key()
						if !seen[k] {
							seen[k] = true
							next = append(next, ex.st)
						}
					}
				}
				states = next
			}
			if len(states) == 1 {
				st = states[0]
				continue
			}
			for _, s := range states {
				work.add(item{b: b, idx: idx + 1, fs: fs.clone(), st: s})
			}
			return
		case *ssa.If:
			cond := e.eval(fs, x.Cond)
			st2, fs2 := st.clone(), fs.clone()
			if e.assume(c, cond, true) {
				work.add(item{b: b.Succs[0], pred: b, fs: fs, st: st})
			}
			c2 := &Ctx{E: e, St: st2, fr: fs2, In: in}
			if e.assume(c2, cond, false) {
				work.add(item{b: b.Succs[1], pred: b, fs: fs2, st: st2})
			}
			return
		case *ssa.Jump:
			work.add(item{b: b.Succs[0], pred: b, fs: fs, st: st})
			return
		case *ssa.Return:
			var res []*Val
			for _, r := range x.Results {
				res = append(res, e.normRes(st, e.eval(fs, r)))
			}
			if e.H.Return != nil {
				e.H.Return(c, fs.fn, res)
			}
			if fs.parent == nil {
				e.paths++
				if e.H.Exit != nil {
					e.H.Exit(c, fs.fn, res)
				}
			}
			// keep only what the results and the callers can see
			fs.env = map[ssa.Value]*Val{}
			live := map[ssa.Value]bool{}
			for i, r := range res {
				fs.env[tmpKey{i}.val()] = r
				live[tmpKey{i}.val()] = true
			}
			fs.binds = nil
			e.gc(fs, st, live)
			ret(st, res)
			return
		case *ssa.Panic:
			if e.H.Panic != nil {
				e.H.Panic(c)
			}
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				fs.env[v] = e.site(fs, in, OFresh, fmt.Sprintf("%T", in), v.Type())
			}
		}
	}
}

func (e *Engine) chanCell(ch *Val) *Val {
	return e.in.mk(Val{op: OFresh, aux: "chan", args: []*Val{ch}})
}

func (e *Engine) convert(v *Val, from, to types.Type) *Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		if v.op == OConst {
			return e.in.constant(v.cv, to)
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if bsize(tb) < bsize(fb) {
				return e.in.mk(Val{op: OConv, aux: tb.Name(), args: []*Val{v}, typ: to})
			}
			return v
		}
		return e.in.mk(Val{op: OConv, aux: tb.Name(), args: []*Val{v}, typ: to})
	}
	return v
}

func bsize(b *types.Basic) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(b)
}

func (e *Engine) selectInstr(fs *frame, st *State, x *ssa.Select, cont func(*State, *Val)) {
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	n := len(x.States)
	if !x.Blocking {
		n++
	}
	for i := 0; i < n; i++ {
		s2 := st.clone()
		idx := int64(i)
		if i == len(x.States) {
			idx = -1
		}
		args := []*Val{e.in.constant(constInt(idx), types.Typ[types.Int]), e.site(fs, x, OFresh, "ok", types.Typ[types.Bool])}
		r := 0
		c := &Ctx{E: e, St: s2, fr: fs, In: x}
		for j, ss := range x.States {
			ch := e.eval(fs, ss.Chan)
			if ss.Dir == types.RecvOnly {
				if j == i && e.H.Recv != nil {
					e.H.Recv(c, ch)
				}
				v := s2.mem[e.chanCell(ch)]
				if v == nil || j != i {
					v = e.site(fs, x, ORecv, fmt.Sprintf("recv%d", r), ss.Chan.Type().Underlying().(*types.Chan).Elem(), ch)
				}
				args = append(args, v)
				r++
			} else if j == i {
				v := e.eval(fs, ss.Send)
				if e.H.Send != nil {
					e.H.Send(c, ch, v)
				}
				s2.mem[e.chanCell(ch)] = v
			}
		}
		cont(s2, e.in.mk(Val{op: OComp, aux: "tuple", args: args}))
	}
}

// resolve evaluates the callee and arguments of a call.
func (e *Engine) resolve(fs *frame, st *State, c *ssa.CallCommon) callInfo {
	ci := callInfo{common: c}
	if c.IsInvoke() {
		rv := e.eval(fs, c.Value)
		ci.args = append(ci.args, rv)
		ci.name = qualType(c.Value.Type()) + "." + c.Method.Name()
		if rv.typ != nil && !types.IsInterface(rv.typ) {
			if f := e.P.methodOn(rv.typ, c.Method); f != nil {
				ci.callee = f
			}
		}
		if ci.callee == nil {
			var ts []*ssa.Function
			if rv.op == OLoad && rv.args[0].op == OFAddr {
				for _, t := range e.fieldDynTypes(rv.args[0].fld) {
					if f := e.P.methodOn(t, c.Method); f != nil {
						ts = append(ts, f)
					}
				}
			}
			if len(ts) == 0 {
				if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
					ts = e.P.invokeTargets(c)
				}
			}
			if len(ts) == 1 {
				ci.callee = ts[0]
			}
		}
		if ci.callee != nil && e.P.inModule(ci.callee) {
			ci.name = fname(ci.callee)
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.name = "builtin." + b.Name()
	} else {
		fv := e.eval(fs, c.Value)
		ci.fnv = fv
		switch fv.op {
		case OFunc:
			ci.callee = fv.fn
		case OClosure:
			ci.callee = fv.fn
			ci.binds = fv.args
		}
		if ci.callee != nil {
			ci.name = calleeName(ci.callee)
		}
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, e.eval(fs, a))
	}
	return ci
}

// fieldDynTypes: concrete types ever stored in an interface-typed field.
func (e *Engine) fieldDynTypes(f *types.Var) []types.Type {
	if e.fldTypes == nil {
		e.fldTypes = map[*types.Var][]types.Type{}
		unknown := map[*types.Var]bool{}
		for _, fn := range e.P.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					fld := structOf(fa.X.Type()).Field(fa.Field)
					if !types.IsInterface(fld.Type()) {
						continue
					}
					switch v := s.Val.(type) {
					case *ssa.MakeInterface:
						dup := false
						for _, t := range e.fldTypes[fld] {
							if types.Identical(t, v.X.Type()) {
								dup = true
							}
						}
						if !dup {
							e.fldTypes[fld] = append(e.fldTypes[fld], v.X.Type())
						}
					case *ssa.Const:
					default:
						unknown[fld] = true
					}
				}
			}
		}
		for f := range unknown {
			delete(e.fldTypes, f)
		}
	}
	return e.fldTypes[f]
}

func sigOf(ci callInfo) *types.Signature {
	return ci.common.Signature()
}

// call explores a call and returns its outcomes.
func (e *Engine) call(fs *frame, st *State, in ssa.Instruction, ci callInfo, isGo, isDefer bool) []Exit {
	e.calls[in] = true
	sig := sigOf(ci)
	var resT types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		resT = sig.Results().At(0).Type()
	}
	name := ci.name
	res := e.site(fs, in, OCall, name, resT)
	one := func(v *Val) []Exit { return []Exit{{st, e.untuple(v, sig)}} }
	if strings.HasPrefix(name, "builtin.") {
		cc := &CallCtx{Ctx: &Ctx{E: e, St: st, fr: fs, In: in}, Name: name, Args: ci.args, Res: res, Sig: sig, Common: ci.common, IsGo: isGo, IsDefer: isDefer}
		if e.H.Call != nil {
			e.H.Call(cc)
			if cc.noret {
				return nil
			}
		}
		return one(e.builtin(fs, st, in, name[8:], ci.args, sig, res))
	}
	cc := &CallCtx{Ctx: &Ctx{E: e, St: st, fr: fs, In: in}, Name: name, Callee: ci.callee, Args: ci.args, Res: res, Sig: sig, Common: ci.common, IsGo: isGo, IsDefer: isDefer}
	if e.H.Call != nil {
		e.H.Call(cc)
	}
	if cc.noret {
		return nil
	}
	if cc.handled {
		r := res
		if cc.result != nil {
			r = cc.result
		}
		if len(cc.outcomes) == 0 {
			return one(r)
		}
		var out []Exit
		for i, f := range cc.outcomes {
			s2 := st
			if i < len(cc.outcomes)-1 {
				s2 = st.clone()
			}
			_ = i
			out = append(out, Exit{s2, nil})
			_ = f
		}
		for i, f := range cc.outcomes {
			f(out[i].st)
			rv := e.untuple(r, sig)
			for j := range rv {
				rv[j] = e.normRes(out[i].st, rv[j])
			}
			out[i].res = rv
		}
		return out
	}
	callee := ci.callee
	inMod := callee != nil && e.P.inModule(callee)
	if isGo {
		if !inMod || !e.goInline(cc, ci, st) {
			return one(res)
		}
	}
	if inMod && cc.inline != 2 {
		want := cc.inline == 1 || e.relevant(callee) || e.leaf(callee, 0)
		if !want {
			for _, a := range ci.args {
				if a.op == OClosure && e.relevant(a.fn) {
					want = true
				}
			}
		}
		rec := 0
		for f := fs; f != nil; f = f.parent {
			if f.fn == callee {
				rec++
			}
		}
		maxd := e.H.MaxDepth
		if maxd == 0 {
			maxd = 40
		}
		if want && rec < 1 && fs.ctx.depth < maxd {
			ctx := e.child(fs.ctx, in, callee)
			exits := e.run(callee, ctx, ci.args, ci.binds, st, fs)
			if isGo {
				for i := range exits {
					exits[i].res = nil
				}
			}
			return exits
		}
		if want {
			e.recur[callee] = true
		}
		e.havoc(st, e.P.modOf(callee), e.in.mk(Val{op: OFresh, aux: fmt.Sprintf("havoc@%d/%p", fs.ctx.id, in)}))
		e.havocArgs(fs, st, in, ci.args, true)
		return one(res)
	}
	// external or unknown
	if v, ok := e.external(fs, st, in, name, ci, sig, res); ok {
		return v
	}
	// function values handed to unknown code may be run
	var cl []*Val
	for _, a := range ci.args {
		if a.op == OClosure && e.P.inModule(a.fn) && e.relevant(a.fn) {
			cl = append(cl, a)
		}
	}
	e.havocArgs(fs, st, in, ci.args, false)
	out := one(res)
	for _, a := range cl {
		ctx := e.child(fs.ctx, in, a.fn)
		for _, ex := range e.run(a.fn, ctx, nil, a.args, st.clone(), fs) {
			out = append(out, Exit{ex.st, e.untuple(res, sig)})
		}
	}
	return out
}

func (e *Engine) untuple(v *Val, sig *types.Signature) []*Val {
	n := sig.Results().Len()
	switch n {
	case 0:
		return []*Val{v}
	case 1:
		return []*Val{v}
	}
	var r []*Val
	for i := 0; i < n; i++ {
		r = append(r, e.ext(v, i, sig.Results().At(i).Type()))
	}
	return r
}

// goInline: does the spawned function deliver a result on a channel its spawner made.
func (e *Engine) goInline(c *CallCtx, ci callInfo, st *State) bool {
	if e.H.GoInline != nil {
		return e.H.GoInline(c)
	}
	sends := false
	for _, b := range ci.callee.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Send); ok {
				sends = true
			}
		}
	}
	if !sends {
		return false
	}
	for _, a := range append(append([]*Val(nil), ci.args...), ci.binds...) {
		if a.op == OMake {
			return true
		}
		if v, ok := st.mem[a]; ok && v.op == OMake && strings.HasPrefix(v.aux, "chan") {
			return true
		}
	}
	return false
}

func (e *Engine) havocArgs(fs *frame, st *State, in ssa.Instruction, args []*Val, ptrOnly bool) {
	for i, a := range args {
		if a == nil {
			continue
		}
		if a.op == OSlice {
			a = a.args[0]
		}
		switch a.op {
		case OAlloc, OFAddr, OIAddr:
			if _, isStruct := derefTyp(a).(*types.Struct); isStruct && ptrOnly {
				continue // fields are covered by the modification set
			}
			hit := false
			for k := range st.mem {
				if k == a || under(k, a) {
					delete(st.mem, k)
					hit = true
				}
			}
			_ = hit
			st.mem[a] = e.site(fs, in, OFresh, fmt.Sprintf("out%d", i), nil)
		}
	}
}

func derefTyp(a *Val) types.Type {
	if a.typ == nil {
		return nil
	}
	return deref(a.typ).Underlying()
}

func (e *Engine) builtin(fs *frame, st *State, in ssa.Instruction, name string, args []*Val, sig *types.Signature, res *Val) *Val {
	switch name {
	case "len", "cap":
		op := OLen
		if name == "cap" {
			op = OCap
		}
		a := args[0]
		if a.op == OConst || a.op == ONil {
			if a.op == ONil {
				return e.in.integer(0)
			}
		}
		if name == "len" {
			switch a.op {
			case OMake:
				if len(a.args) > 0 && strings.HasPrefix(a.aux, "slice") {
					return a.args[0]
				}
			case OSlice:
				if a.args[2] != nil {
					if a.args[1] == nil {
						return a.args[2]
					}
					return e.in.bin(token.SUB, a.args[2], a.args[1], types.Typ[types.Int])
				}
				if at, ok := deref(typOr(a.args[0])).Underlying().(*types.Array); ok && a.args[1] == nil {
					return e.in.integer(at.Len())
				}
			}
			if a.typ != nil {
				if at, ok := deref(a.typ).Underlying().(*types.Array); ok {
					return e.in.integer(at.Len())
				}
			}
		}
		return e.in.mk(Val{op: op, args: []*Val{a}, typ: types.Typ[types.Int]})
	case "append":
		return e.limit(fs, in, e.in.mk(Val{op: OAppend, args: append([]*Val(nil), args...), typ: sig.Results().At(0).Type()}), nil)
	case "delete":
		if e.H.MapWrite != nil {
			e.H.MapWrite(&Ctx{E: e, St: st, fr: fs, In: in}, args[0], args[1], nil)
		}
	case "recover":
		return e.vNil
	case "min", "max":
		return e.limit(fs, in, e.in.mk(Val{op: OFresh, aux: name, args: args, typ: res.typ}), nil)
	}
	return res
}

func typOr(v *Val) types.Type {
	if v == nil || v.typ == nil {
		return types.Typ[types.Invalid]
	}
	return v.typ
}

// external models library calls whose effect the engine knows.
func (e *Engine) external(fs *frame, st *State, in ssa.Instruction, name string, ci callInfo, sig *types.Signature, res *Val) ([]Exit, bool) {
	one := func(v *Val) ([]Exit, bool) { return []Exit{{st, e.untuple(v, sig)}}, true }
	c := &Ctx{E: e, St: st, fr: fs, In: in}
	if strings.HasPrefix(name, "sync/atomic.") {
		op := name[len("sync/atomic."):]
		a := ci.args
		switch {
		case strings.HasPrefix(op, "Load"):
			return one(e.load(st, a[0], sig.Results().At(0).Type()))
		case strings.HasPrefix(op, "Store"):
			if e.H.Store != nil {
				e.H.Store(c, a[0], a[1])
			}
			e.store(st, a[0], a[1])
			return one(res)
		case strings.HasPrefix(op, "Add"), strings.HasPrefix(op, "Swap"):
			if e.H.Store != nil {
				e.H.Store(c, a[0], res)
			}
			e.store(st, a[0], res)
			return one(res)
		case strings.HasPrefix(op, "CompareAndSwap"):
			s2 := st.clone()
			if e.H.Store != nil {
				e.H.Store(&Ctx{E: e, St: s2, fr: fs, In: in}, a[0], a[2])
			}
			e.store(s2, a[0], a[2])
			return []Exit{{st, []*Val{e.vFalse}}, {s2, []*Val{e.vTrue}}}, true
		}
	}
	if pureCall(name) {
		var as []*Val
		for _, a := range ci.args {
			if a.op == OSlice && a.args[0].op == OAlloc && a.args[1] == nil && a.args[2] == nil {
				// variadic arguments
				arr := a.args[0]
				if at, ok := deref(typOr(arr)).Underlying().(*types.Array); ok {
					for i := int64(0); i < at.Len(); i++ {
						ea := e.in.mk(Val{op: OIAddr, args: []*Val{arr, e.in.integer(i)}})
						if v, ok := st.mem[ea]; ok {
							as = append(as, v)
						}
					}
					continue
				}
			}
			as = append(as, a)
		}
		return one(e.limit(fs, in, e.in.mk(Val{op: OFresh, aux: "pure:" + name, args: as, typ: res.typ}), res.typ))
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		st.facts[res] = e.vNonNil
		return one(res)
	case "sync.Once.Do":
		if len(ci.args) == 2 && (ci.args[1].op == OClosure || ci.args[1].op == OFunc) && e.P.inModule(ci.args[1].fn) && e.relevant(ci.args[1].fn) {
			out := []Exit{{st.clone(), []*Val{res}}}
			ctx := e.child(fs.ctx, in, ci.args[1].fn)
			for _, ex := range e.run(ci.args[1].fn, ctx, nil, ci.args[1].args, st, fs) {
				out = append(out, Exit{ex.st, []*Val{res}})
			}
			return out, true
		}
		return one(res)
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit":
		return nil, true
	}
	if strings.HasPrefix(name, "sync.") {
		return one(res)
	}
	return nil, false
}

// Run analyses one root.
func (e *Engine) Run(fn *ssa.Function, st *State) []Exit {
	if st == nil {
		st = newState()
	}
	ctx := e.child(nil, nil, fn)
	var args []*Val
	for i, p := range fn.Params {
		var v *Val
		if e.H.RootArg != nil {
			v = e.H.RootArg(e, fn, i, p)
		}
		if v == nil {
			v = e.in.mk(Val{op: OParam, aux: p.Name(), typ: p.Type()})
		}
		args = append(args, v)
	}
	var binds []*Val
	for _, f := range fn.FreeVars {
		binds = append(binds, e.in.mk(Val{op: OParam, aux: "free:" + f.Name(), typ: f.Type()}))
	}
	return e.run(fn, ctx, args, binds, st, nil)
}

// pureCall: the result is a function of the arguments.
func pureCall(name string) bool {
	switch name {
	case "path.Join", "path/filepath.Join", "path.Base", "path/filepath.Base", "path.Dir", "path/filepath.Dir":
		return true
	}
	return strings.HasPrefix(name, "strconv.Format") || strings.HasPrefix(name, "strconv.Itoa") || strings.HasPrefix(name, "fmt.Sprint") ||
		name == "strings.TrimSuffix" || name == "strings.TrimPrefix" || name == "strings.HasSuffix" || name == "strings.HasPrefix" ||
		strings.HasPrefix(name, "math/bits.")
}

func constInt(i int64) constant.Value { return constant.MakeInt64(i) }
