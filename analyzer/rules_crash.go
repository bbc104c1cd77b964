package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["S03"] = checkS03 }

const netPkg = "server/internal/net"

func checkS03(r *Run) {
	r.Rule("memory is allocated for a length that was read from a connection only after the length was found to be at most a constant, and not negative; or it is not allocated before the data has come")
	r.Rule("a packet, or a value of a table, is taken for one type only where the path knows that it has that type: from its Type(), which only that type answers, or from a test of the type")
	r.Rule("the methods of a client ID, which read its bytes, are called on the ID of the connection only where the path knows that it has one, and on the result of decoding only where that succeeded")
	r.Rule("the length of stored session data is tested before it is read")
	r.Rule("in the domain of bit provenance, for texts of each length up to a bound: no function that takes text from a client reads or cuts it past its end, and the size of a parsed topic is at most the length of its text")
	k := &crash{r: r}
	k.reader()
	k.asserts()
	k.connected()
	k.texts()
}

type crash struct {
	r        *Run
	clientID *types.Var
	makers   map[string]bool
	needs    map[*ssa.Function]int // 1 no, or being looked at; 2 yes
}

// ---- the frame reader

// nonNeg: the value cannot be negative.
func (p *Prog) nonNeg(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && constant.Sign(v.Value) >= 0
	case *ssa.Convert:
		bits, uns := basicBits(v.X.Type())
		to, toUns := basicBits(v.Type())
		if toUns || uns && bits < to {
			return true
		}
		return to >= bits && p.nonNeg(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && !p.nonNeg(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy"
		}
		return p.nonNegRes(v.Call.StaticCallee(), 0, depth)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return p.nonNegRes(c.Call.StaticCallee(), v.Index, depth)
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.MUL, token.QUO, token.OR, token.SHR:
			return p.nonNeg(v.X, depth+1) && p.nonNeg(v.Y, depth+1)
		case token.AND:
			return p.nonNeg(v.X, depth+1) || p.nonNeg(v.Y, depth+1)
		case token.REM:
			return p.nonNeg(v.X, depth+1)
		}
	}
	_, uns := basicBits(v.Type())
	return uns
}

func (p *Prog) nonNegRes(f *ssa.Function, i, depth int) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !p.nonNeg(ret.Results[i], depth+1) {
			return false
		}
	}
	return true
}

// known: a size made of constants and lengths of what there is.
func knownSize(v *Val) bool {
	v = stripConv(v)
	switch v.op {
	case OConst, OLen, OCap:
		return true
	case OBin:
		for _, a := range v.args {
			if !knownSize(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (k *crash) reader() {
	r, p := k.r, k.r.P
	f := r.Fn(netPkg + ".Read")
	if f == nil {
		return
	}
	o := order{}
	grows := map[string]int{"bytes.Buffer.Grow": 1, "bytes.Repeat": 1, "strings.Repeat": 1, "slices.Grow": 1, "strings.Builder.Grow": 1, "bufio.NewReaderSize": 1}
	sized := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.MakeSlice:
			_, c := in.Len.(*ssa.Const)
			return !c
		case ssa.CallInstruction:
			_, ok := grows[staticName(in.Common())]
			return ok || staticName(in.Common()) == "io.ReadFull" || staticName(in.Common()) == "io.CopyN"
		}
		return false
	}
	h := &Hooks{Interesting: sized, MaxDepth: 12}
	h.Assume = func(c *Ctx, cond *Val, truth bool) { o.assume(c, cond, truth) }
	judge := func(c *Ctx, n *Val, how string, at ssa.Value) {
		if n == nil || knownSize(n) {
			return
		}
		r.Count("sizes from the connection", 1)
		limit := func(x *Val) bool {
			m, ok := stripConv(x).constInt()
			return ok && m > 0 && m <= 1<<26
		}
		if !o.atMost(c.St, isV(n), limit) && !(n.typ != nil && smallType(n.typ)) {
			c.Report("s03:size:"+c.Fn().Name(), "%s: memory is %s for a length read from the connection that is not bounded", c.Fn().Name(), how)
		}
		low := func(x *Val) bool { m, ok := stripConv(x).constInt(); return ok && m >= -1 }
		zero := func(x *Val) bool { m, ok := stripConv(x).constInt(); return ok && m >= 0 }
		if !o.atMost(c.St, zero, isV(n)) && !o.has(c.St, "lt", low, isV(n)) && !(at != nil && p.nonNeg(at, 0)) && !k.madeNonNeg(n) {
			c.Report("s03:negative:"+c.Fn().Name(), "%s: memory is %s for a length read from the connection that can be negative", c.Fn().Name(), how)
		}
	}
	h.Slice = func(c *Ctx, v *Val) {
		if v.op == OMake {
			var at ssa.Value
			if m, ok := v.site.(*ssa.MakeSlice); ok {
				at = m.Len
			}
			judge(c, v.args[0], "allocated", at)
		}
	}
	h.Call = func(c *CallCtx) {
		if i, ok := grows[c.Name]; ok && i < len(c.Args) {
			c.Opaque()
			judge(c.Ctx, c.Args[i], "allocated", nil)
		}
		if c.Name == "io.ReadFull" || c.Name == "io.CopyN" {
			c.Opaque()
			r.Count("reads of the connection", 1)
			c.ForkErr(nil, nil)
		}
	}
	r.Explore(h, f)
	r.Need("reads of the connection", 1)
}

func smallType(t types.Type) bool {
	bits, uns := basicBits(t)
	return bits > 0 && (bits <= 16 || uns && bits <= 16)
}

func (k *crash) madeNonNeg(n *Val) bool {
	if n.typ == nil {
		return false
	}
	if bits, uns := basicBits(n.typ); uns && bits > 0 {
		return true
	}
	for v := n; v != nil; {
		if s, ok := v.site.(ssa.Value); ok && k.r.P.nonNeg(s, 0) && types.Identical(s.Type(), n.typ) {
			return true
		}
		// one result of a call
		if c, ok := v.site.(*ssa.Call); ok && v != n {
			f := c.Call.StaticCallee()
			if f != nil {
				ok := true
				for i := 0; i < f.Signature.Results().Len(); i++ {
					if types.Identical(f.Signature.Results().At(i).Type(), n.typ) {
						ok = ok && k.r.P.nonNegRes(f, i, 0)
					}
				}
				if ok {
					return true
				}
			}
		}
		if (v.op == OComp || v.op == OConv) && len(v.args) > 0 {
			v = v.args[0]
		} else {
			v = nil
		}
	}
	return false
}

// ---- values of one type taken for another

// answers: what the Type method of each kind of packet returns.
func (k *crash) answers() map[string]int64 {
	out := map[string]int64{}
	var pack *types.Interface
	if pk := k.r.P.byPath[netPkg]; pk != nil {
		if o := pk.Pkg.Scope().Lookup("MessagePack"); o != nil {
			pack, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	packed := map[string]bool{} // types that are sent or received
	for _, f := range k.r.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok && typeName(m.Type()) == "MessagePack" {
					packed[deref(m.X.Type()).String()] = true
				}
			}
		}
	}
	for _, f := range k.r.P.funcs {
		if f.Signature.Recv() != nil && !packed[deref(f.Signature.Recv().Type()).String()] {
			continue
		}
		if pack == nil || f.Signature.Recv() != nil && !types.Implements(types.NewPointer(deref(f.Signature.Recv().Type())), pack) {
			continue
		}
		if f.Name() != "Type" || f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		n := int64(-1)
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			c, ok := ret.Results[0].(*ssa.Const)
			v, exact := int64(0), false
			if ok && c.Value != nil {
				v, exact = constant.Int64Val(c.Value)
			}
			if !exact || n >= 0 && n != v {
				n = -2
				break
			}
			n = v
		}
		out[deref(f.Signature.Recv().Type()).String()] = n
	}
	return out
}

func (k *crash) asserts() {
	r, p := k.r, k.r.P
	ans := k.answers()
	unchecked := func(in ssa.Instruction) bool {
		t, ok := in.(*ssa.TypeAssert)
		if !ok || t.CommaOk {
			return false
		}
		n, ok := types.Unalias(t.X.Type()).(*types.Named)
		return ok && n.Obj().Name() == "MessagePack" && !types.IsInterface(t.AssertedType)
	}
	has := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if unchecked(in) {
					return true
				}
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	var work []*ssa.Function
	need := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if strings.HasPrefix(pkgOf(f), "server/internal") && has(f) {
			work = append(work, f)
			need[f] = true
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		upward := false
		h := &Hooks{Interesting: unchecked, MaxDepth: 12}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if x, t := assertOK(cond); x != nil && truth {
				c.St.Add("is:"+t.String(), x)
			}
			if cond.op != OBin || cond.aux != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				n, ok := stripConv(cond.args[1-i]).constInt()
				x := stripConv(cond.args[i])
				if !ok {
					continue
				}
				if x.op == OComp && x.aux == "pair:type" && truth {
					c.St.Add(fmt.Sprintf("type:%d", n), x.args[0])
				}
			}
		}
		h.Call = func(c *CallCtx) {
			if c.Common.IsInvoke() && c.Common.Method.Name() == "Type" && len(c.Args) > 0 {
				c.Opaque()
				x := c.Args[0]
				if x.typ != nil && !types.IsInterface(x.typ) {
					if n, ok := ans[deref(x.typ).String()]; ok && n >= 0 {
						c.SetResult(c.E.in.constant(constant.MakeInt64(n), c.Sig.Results().At(0).Type()))
						return
					}
				}
				c.SetResult(c.E.pair("type", x))
				return
			}
			if c.Callee == nil || !need[c.Callee] {
				c.Opaque()
				c.handled = true
			}
		}
		h.Assert = func(c *Ctx, x *Val, t types.Type) {
			r.Count("types taken for granted", 1)
			if _, ok := t.Underlying().(*types.Pointer); !ok && types.IsInterface(t) {
				return
			}
			if x.typ != nil && !types.IsInterface(x.typ) {
				if !types.Identical(x.typ, t) {
					c.Report("s03:type:"+c.Fn().Name()+":"+typeName(t), "%s takes a %s for a %s", c.Fn().Name(), typeName(x.typ), typeName(t))
				}
				return
			}
			if c.St.HasV("is:"+t.String(), x) {
				return
			}
			if n, ok := ans[deref(t).String()]; ok && n >= 0 && c.St.HasV(fmt.Sprintf("type:%d", n), x) {
				for u, m := range ans {
					if u != deref(t).String() && m != -1 && (m == n || m == -2) {
						c.Report("s03:answers:"+typeName(t), "a %s says that it is of the same type as a %s", u[strings.LastIndex(u, ".")+1:], typeName(t))
					}
				}
				return
			}
			if x.op == OParam && !isExported(f) && len(p.callers(f)) > 0 {
				upward = true
				return
			}
			c.Report("s03:type:"+c.Fn().Name()+":"+typeName(t), "%s takes a packet for a %s without knowing its type", c.Fn().Name(), typeName(t))
		}
		r.Explore(h, f)
		if upward {
			need[f] = true
			for _, g := range p.callers(f) {
				work = append(work, g)
			}
		}
	}
	r.Need("types taken for granted", 1)
	// values of tables
	k.tables()
}

// tables: what is kept in a sync.Map has the type it is taken for.
func (k *crash) tables() {
	r, p := k.r, k.r.P
	type use struct {
		fld *types.Var
		t   types.Type
		in  ssa.Instruction
	}
	fieldOf := func(v ssa.Value) *types.Var {
		if a, ok := v.(*ssa.FieldAddr); ok {
			return structOf(a.X.Type()).Field(a.Field)
		}
		return ssaField(v)
	}
	var loads, puts []use
	for _, f := range p.funcs {
		if !strings.HasPrefix(pkgOf(f), "server/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if t, ok := in.(*ssa.TypeAssert); ok && !t.CommaOk {
					x := t.X
					if e, ok := x.(*ssa.Extract); ok {
						x = e.Tuple
					}
					c, ok := x.(*ssa.Call)
					if ok && strings.HasPrefix(staticName(c.Common()), "sync.Map.") {
						loads = append(loads, use{fieldOf(c.Call.Args[0]), t.AssertedType, in})
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				switch n := staticName(ci.Common()); n {
				case "sync.Map.Store", "sync.Map.LoadOrStore", "sync.Map.Swap":
					a := ci.Common().Args
					m, ok := a[2].(*ssa.MakeInterface)
					u := use{fieldOf(a[0]), nil, in}
					if ok {
						u.t = m.X.Type()
					}
					puts = append(puts, u)
				}
			}
		}
	}
	for _, l := range loads {
		r.Count("values of tables taken for granted", 1)
		for _, s := range puts {
			if s.fld == l.fld && l.fld != nil && (s.t == nil || !types.Identical(s.t, l.t)) {
				r.Violate("s03:table:"+l.fld.Name(), p.instrPos(l.in), "a value of the table %s is taken for a %s, but something else is kept at %s", l.fld.Name(), l.t, p.instrPos(s.in))
			}
		}
	}
}

// ---- what only a completed connect sets up

func (k *crash) connected() {
	r, p := k.r, k.r.P
	k.clientID = r.Field(srvPkg, "_Conn", "clientID")
	f := r.Fn(srvPkg + "._Conn.handler")
	if k.clientID == nil || f == nil {
		return
	}
	k.makers, k.needs = map[string]bool{}, map[*ssa.Function]int{}
	for _, g := range p.funcs {
		if pkgOf(g) == uidPkg && g.Signature.Recv() == nil && g.Signature.Results().Len() > 0 && typeName(g.Signature.Results().At(0).Type()) == "ID" {
			k.makers[fname(g)] = true
		}
	}
	k.idUse(f, true)
	r.Need("client IDs read", 3)
	r.Need("clients connected", 1)
}

// idUse: f reads the ID of its connection without knowing that it has one.
func (k *crash) idUse(f *ssa.Function, top bool) bool {
	switch k.needs[f] {
	case 1:
		return false
	case 2:
		return true
	}
	k.needs[f] = 1
	r, clientID := k.r, k.clientID
	if pkgOf(f) != srvPkg || f.Signature.Recv() == nil || typeName(deref(recvType(f))) != "_Conn" || len(f.Blocks) == 0 || !top && recovers(f) {
		return false
	}
	idCall := func(n string) bool { return strings.HasPrefix(n, uidPkg+".ID.") }
	is := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := staticName(ci.Common())
		if idCall(n) || k.makers[n] || n == stPkg+".SessionStore.Get" {
			return true
		}
		g := ci.Common().StaticCallee()
		return g != nil && k.idUse(g, false)
	}
	own := func(v *Val) bool { v = stripConv(v); return v.op == OParam && len(f.Params) > 0 && v.aux == f.Params[0].Name() }
	h := &Hooks{Interesting: anyOf(is, fieldUse(clientID)), MaxDepth: 12}
	o := order{}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		o.assume(c, cond, truth)
		note := func(x *Val) {
			c.St.Add("an ID", x)
			if isFieldVal(x, clientID) {
				c.St.Add("connected")
			}
		}
		if n, v := constCmp(cond); v != nil && v.op == OComp && v.aux == "pair:type" {
			t := fmt.Sprintf("type:%d", n)
			switch {
			case truth && c.St.Has("not"+t):
				c.St.Add("impossible")
			case truth:
				for _, x := range c.St.WithPrefix("type:") {
					if x.N != t {
						c.St.Add("impossible")
					}
				}
				c.St.Add(t)
			case c.St.Has(t):
				c.St.Add("impossible")
			default:
				c.St.Add("not" + t)
			}
		}
		if cond.op != OBin || len(cond.args) != 2 {
			return
		}
		a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
		isID := func(v *Val) bool { return v.typ != nil && typeName(v.typ) == "ID" || isFieldVal(v, clientID) || findPair(v, "made") != nil }
		switch cond.aux {
		case "==":
			for _, x := range [][2]*Val{{a, b}, {b, a}} {
				if x[1] == c.E.vNil && isID(x[0]) && !truth {
					note(x[0])
				}
				if n, ok := x[1].constInt(); ok && x[0].op == OLen && isID(x[0].args[0]) && (n == 0) != truth {
					note(x[0].args[0])
				}
			}
		case "<":
			if n, ok := a.constInt(); ok && b.op == OLen && isID(b.args[0]) && truth && n >= 0 {
				note(b.args[0])
			}
			if n, ok := b.constInt(); ok && a.op == OLen && isID(a.args[0]) && !truth && n >= 1 {
				note(a.args[0])
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == clientID {
			r.Count("clients connected", 1)
			c.St.DelPrefix("connected")
			if m := findPair(v, "made"); m != nil && !c.St.HasV("no ID", m) || c.St.HasV("an ID", v) {
				c.St.Add("connected")
			}
		}
	}
	unknown := func(c *Ctx, format string, a ...interface{}) {
		if c.St.Has("connected") || c.St.Has("impossible") {
			return
		}
		if !top {
			k.needs[f] = 2
			return
		}
		c.Report("s03:not-connected:"+fmt.Sprint(a[0]), format, a...)
	}
	h.Call = func(c *CallCtx) {
		switch {
		case idCall(c.Name):
			c.Opaque()
			c.handled = true
			x := stripConv(c.Args[0])
			r.Count("client IDs read", 1)
			switch m := findPair(x, "made"); {
			case isFieldVal(x, clientID) && own(fieldBase(x)):
				unknown(c.Ctx, "%s reads the client ID of a connection that may have none", c.Fn().Name())
			case x == c.E.vNil, m != nil && c.St.HasV("no ID", m) && !c.St.HasV("an ID", x):
				c.Report("s03:no-id:"+c.Fn().Name(), "%s reads a client ID where there is none", c.Fn().Name())
			}
		case k.makers[c.Name]:
			c.Opaque()
			c.SetResult(c.E.pair("made", append([]*Val{c.Res}, c.Args...)...))
			m := c.result
			if c.ErrRes() != nil {
				er := c.E.ext(m, c.Sig.Results().Len()-1, nil)
				id := c.E.ext(m, 0, nil)
				c.Fork(func(s *State) { c.E.setFact(s, er, c.E.vNil); c.E.setFact(s, id, c.E.vNonNil); s.DelV("no ID", m) })
				c.Fork(func(s *State) { c.E.setFact(s, er, c.E.vNonNil); c.E.setFact(s, id, c.E.vNil); s.Add("no ID", m) })
			}
		case c.Name == stPkg+".SessionStore.Get":
			c.Opaque()
			c.derived("session", nil, nil)
		case c.Common.IsInvoke() && c.Common.Method.Name() == "Type" && len(c.Args) > 0:
			c.Opaque()
			c.SetResult(c.E.pair("type", c.Args[0]))
		case c.readsBytes():
			src := c.Args[len(c.Args)-1]
			if w, _, _, _ := byteOrder(c.Name); findPair(src, "session") != nil && !(src.op == OSlice && src.args[2] != nil) {
				k.longEnough(c.Ctx, o, src, w)
			}
		case c.Callee != nil && k.idUse(c.Callee, false):
			c.Opaque()
			c.handled = true
			if len(c.Args) > 0 && own(c.Args[0]) {
				unknown(c.Ctx, "%s asks for %s, which reads the client ID, on a connection that may have none", c.Fn().Name(), c.Callee.Name())
			}
		case c.Callee == nil || recovers(c.Callee) || !strings.HasPrefix(pkgOf(c.Callee), "server/internal") || pkgOf(c.Callee) == uidPkg || pkgOf(c.Callee) == stPkg:
			c.Opaque()
			c.handled = true
		}
	}
	h.Slice = func(c *Ctx, v *Val) {
		if v.op == OSlice && findPair(v.args[0], "session") != nil && v.args[2] != nil {
			if n, ok := v.args[2].constInt(); ok {
				k.longEnough(c, o, v.args[0], n)
			}
		}
	}
	r.Explore(h, f)
	return k.needs[f] == 2
}

// longEnough: the path knows that the data has n bytes.
func (k *crash) longEnough(c *Ctx, o order, src *Val, n int64) {
	k.r.Count("reads of session data", 1)
	ln := func(x *Val) bool { x = stripConv(x); return x.op == OLen && stripConv(x.args[0]) == stripConv(src) }
	least := func(m int64) func(*Val) bool {
		return func(x *Val) bool { v, ok := stripConv(x).constInt(); return ok && v >= m }
	}
	if o.atMost(c.St, least(n), ln) || o.has(c.St, "lt", least(n-1), ln) {
		return
	}
	c.Report("s03:session-length", "stored session data is read without knowing that it is long enough")
}

// ---- texts

// fields models strings.FieldsFunc and others that cut a text at bytes a predicate tells.
func textCalls(l *linear, name string, ci ssa.CallInstruction, args []lv) (lv, bool) {
	str := func(i int) []lv {
		if i < len(args) {
			switch s := args[i].(type) {
			case *lstr:
				return s.cells
			case *lslice:
				return s.cells()
			}
		}
		return nil
	}
	// pred: the byte is one of those looked for
	same := func(c lv, sep lv) bool {
		a, ok1 := c.(*lnum)
		b, ok2 := sep.(*lnum)
		if !ok1 || !ok2 {
			return l.decide(c)
		}
		x, okA := a.konst()
		y, okB := b.konst()
		if okA && okB {
			return x == y
		}
		return l.decide(l.equal(a, b))
	}
	list := func(parts [][]lv) lv {
		o := &lobj{}
		for _, p := range parts {
			o.cells = append(o.cells, &lstr{p})
		}
		return &lslice{o, 0, len(parts), len(parts)}
	}
	switch name {
	case "strings.FieldsFunc":
		f, ok := args[1].(*lfn)
		if _, isStr := args[0].(*lstr); !ok || !isStr {
			return nil, false
		}
		var parts [][]lv
		var cur []lv
		for _, c := range str(0) {
			cut := false
			n, ok := c.(*lnum)
			if ok {
				cut = l.truth(l.run(f.f, bound(f, n), f.free, 1)[0])
			} else {
				cut = l.decide(c)
			}
			if cut {
				if len(cur) > 0 {
					parts = append(parts, cur)
				}
				cur = nil
			} else {
				cur = append(cur, c)
			}
		}
		if len(cur) > 0 {
			parts = append(parts, cur)
		}
		return list(parts), true
	case "strings.Split", "strings.SplitN":
		sep := str(1)
		if len(sep) != 1 {
			return nil, false
		}
		max := -1
		if name == "strings.SplitN" {
			n, ok := l.index(args[2])
			if !ok {
				return nil, false
			}
			if n == 0 {
				return &lslice{&lobj{}, 0, 0, 0}, true
			}
			max = n
		}
		parts := [][]lv{nil}
		for _, c := range str(0) {
			if (max < 0 || len(parts) < max) && same(c, sep[0]) {
				parts = append(parts, nil)
			} else {
				parts[len(parts)-1] = append(parts[len(parts)-1], c)
			}
		}
		return list(parts), true
	case "strings.Cut":
		if sep := str(1); len(sep) == 1 {
			s := str(0)
			for i, c := range s {
				if same(c, sep[0]) {
					return &ltuple{[]lv{&lstr{s[:i]}, &lstr{s[i+1:]}, &lbool{true, true}}}, true
				}
			}
			return &ltuple{[]lv{&lstr{s}, &lstr{nil}, &lbool{true, false}}}, true
		}
	case "strings.IndexByte", "strings.IndexRune", "bytes.IndexByte":
		for i, c := range str(0) {
			if same(c, args[1]) {
				return lconst(uint64(i)), true
			}
		}
		return lconst(^uint64(0)), true
	case "strings.Index":
		if sep := str(1); len(sep) == 1 {
			for i, c := range str(0) {
				if same(c, sep[0]) {
					return lconst(uint64(i)), true
				}
			}
			return lconst(^uint64(0)), true
		}
	}
	return nil, false
}

// bound: the arguments of a function value of one argument.
func bound(f *lfn, n lv) []lv {
	if len(f.f.Params) == 1 {
		return []lv{n}
	}
	out := make([]lv, len(f.f.Params))
	for i := range out {
		out[i] = &lopaque{}
	}
	if len(out) > 0 {
		out[len(out)-1] = n
	}
	return out
}

// outOfRange: the reason why a path ended is one of those that stop the program.
func outOfRange(why string) bool {
	return strings.HasPrefix(why, "element ") || strings.HasPrefix(why, "reads past") || strings.HasPrefix(why, "is cut at") || strings.HasPrefix(why, "divides by zero") || why == "panics" || strings.HasPrefix(why, "needs ")
}

func (k *crash) texts() {
	r, p := k.r, k.r.P
	topicT := r.Field(secPkg, "Topic", "Topic")
	size := r.Field(secPkg, "Topic", "Size")
	parse := r.Fn(secPkg + ".ParseKey")
	if topicT == nil || size == nil || parse == nil {
		return
	}
	st := structOf(parse.Signature.Results().At(0).Type())
	ti, si := -1, -1
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch st.Field(i) {
		case topicT:
			ti = i
		case size:
			si = i
		}
	}
	run := func(f *ssa.Function, n int, body func(l *linear) []lv, judge func(x lresult)) {
		if f == nil {
			return
		}
		for _, x := range p.linearRun(func(l *linear) []lv { l.calls = textCalls; return body(l) }) {
			r.Count("paths evaluated", 1)
			if outOfRange(x.bad) {
				r.Violate("s03:text:"+fname(f), p.pos(f.Pos()), "%s given a text of %d bytes: %s", fname(f), n, x.bad)
			} else if x.bad == "" && judge != nil {
				judge(x)
			}
		}
		r.Count("lengths of text", 1)
	}
	str := func(l *linear, n int) lv { return &lstr{l.bytes(n).cells()} }
	for n := 0; n <= 6; n++ {
		n := n
		run(parse, n, func(l *linear) []lv { return l.run(parse, []lv{str(l, n)}, nil, 0) }, func(x lresult) {
			t, ok := x.res[0].(*lptr)
			if !ok || ti < 0 || si < 0 || t.i >= 0 || len(t.o.cells) <= ti || len(t.o.cells) <= si {
				return
			}
			s, ok1 := t.o.cells[ti].(*lstr)
			z, ok2 := t.o.cells[si].(*lnum)
			if !ok2 {
				return
			}
			m, ok3 := z.konst()
			ln := 0
			if ok1 {
				ln = len(s.cells)
			} else if _, opaque := t.o.cells[ti].(*lopaque); opaque {
				return
			}
			if ok3 {
				r.Count("topics parsed", 1)
				if int64(m) < 0 || int64(m) > int64(ln) {
					r.Violate("s03:size-of-topic", p.pos(parse.Pos()), "the size of a topic can be %d, its text has %d bytes: the request handlers cut the text at the size", int64(m), ln)
				}
			}
		})
	}
	r.Need("topics parsed", 3)
	salt := r.Fn("server/internal/pkg/hash.WithSalt")
	access := r.Fn("server/internal/types.KeyGenRequest.Access")
	dec, gen := r.Fn(secPkg+".DecodeKey"), r.Fn(secPkg+".GenerateKey")
	uidDec, newMAC := r.Fn(uidPkg+".Decode"), r.Fn(macPkg+".New")
	for _, n := range append(lengthsTo(64), 250) {
		n := n
		if salt != nil && n < 130 {
			run(salt, n, func(l *linear) []lv { return l.run(salt, []lv{l.bytes(n), l.unknown(salt.Params[1].Type())}, nil, 0) }, nil)
		}
		if dec != nil {
			run(dec, n, func(l *linear) []lv { return l.run(dec, []lv{str(l, n)}, nil, 0) }, nil)
		}
		if uidDec != nil && newMAC != nil {
			run(uidDec, n, func(l *linear) []lv {
				res := l.run(newMAC, []lv{l.bytes(32)}, nil, 0)
				if st := isErr(res); st == 2 || st == 0 && !l.decide(res[1]) {
					return nil
				}
				return l.run(uidDec, []lv{l.bytes(n), res[0]}, nil, 0)
			}, nil)
		}
	}
	if access != nil {
		for n := 0; n <= 3; n++ {
			n := n
			run(access, n, func(l *linear) []lv {
				req := l.zeroOf(elemOrSelf(access.Params[0].Type()))
				a, ok := req.(*lagg)
				if !ok {
					return nil
				}
				for i := range a.o.cells {
					if _, ok := a.o.cells[i].(*lstr); ok {
						a.o.cells[i] = str(l, n)
					}
				}
				if _, ok := access.Params[0].Type().Underlying().(*types.Pointer); ok {
					return l.run(access, []lv{&lptr{a.o, -1}}, nil, 0)
				}
				return l.run(access, []lv{a}, nil, 0)
			}, nil)
		}
	}
	if gen != nil {
		// parts of a topic, with as many separators
		sep, _ := p.pkgConst(secPkg, "TopicSeparator")
		for _, n := range []int{0, 1, 2, 3, 22, 23, 24, 25, 40} {
			n := n
			run(gen, n, func(l *linear) []lv {
				s := &lstr{}
				for i := 0; i < n; i++ {
					s.cells = append(s.cells, lconst('a'), lconst(uint64(sep)))
				}
				return l.run(gen, []lv{l.unknown(gen.Params[0].Type()), s, l.unknown(gen.Params[2].Type())}, nil, 0)
			}, nil)
		}
	}
	r.Need("lengths of text", 100)
}

func elemOrSelf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// recovers: a panic does not leave the function.
func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				g = mc.Fn.(*ssa.Function)
			}
			is := isBuiltin("recover", nil)
			for i := 0; g != nil && i < len(g.Blocks); i++ {
				for _, x := range g.Blocks[i].Instrs {
					if is(x) {
						return true
					}
				}
			}
		}
	}
	return false
}
