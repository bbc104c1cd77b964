package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Layouts: where a codec puts each field in the bytes it makes or is given. Positions are linear in the
// number of the iteration of the loops around them; the values of loop variables come from the induction
// values of the engine. Loops with an unknown number of iterations are taken to have symN iterations.

const symN = 3

type lin struct {
	c     int64
	atoms map[*Val]int64
	bad   bool
}

func (l *lin) add(o lin, k int64) {
	l.c += o.c * k
	l.bad = l.bad || o.bad
	for a, n := range o.atoms {
		if l.atoms == nil {
			l.atoms = map[*Val]int64{}
		}
		l.atoms[a] += n * k
		if l.atoms[a] == 0 {
			delete(l.atoms, a)
		}
	}
}

func (l lin) String() string {
	var s []string
	for a, n := range l.atoms {
		s = append(s, fmt.Sprintf("%d*%s", n, a))
	}
	sort.Strings(s)
	return fmt.Sprint(l.c, s)
}

type access struct {
	v      *Val // slice or element address
	width  int64
	order  string
	val    *Val // what is written, or what the read is kept in
	role   *types.Var
	guards []*Val // comparisons known: pair(eq|ne, a, b)
	heads  map[*ssa.BasicBlock]bool
	at     string
	index  *Val // index of the element the field is of
}

type codec struct {
	r      *Run
	e      *Engine
	name   string
	dec    bool
	list   []access
	seen   map[string]bool
	trips  map[*ssa.BasicBlock]*Val // number of iterations
	trip0  map[*ssa.BasicBlock]int64
	res    []*Val
	base   map[*Val]int64 // position of buffers read from a file
	ix     *Val
	alias  map[*Val][]*types.Var   // fields set to a value
	consts map[*types.Var][]access // fields set to a constant
	reads  []access
	ends   map[*Val]*Val // end of buffers that were cut from another
}

func (k *codec) iter(h *ssa.BasicBlock) *Val {
	return k.e.in.mk(Val{op: OComp, aux: fmt.Sprintf("pair:iter@%p", h)})
}

// lin is v as a sum.
func (k *codec) lin(v *Val) lin { return k.linN(v, 0) }

func (k *codec) linN(v *Val, n int) lin {
	if n > 40 || v == nil {
		return lin{bad: true}
	}
	v = stripConv(v)
	if c, ok := v.constInt(); ok {
		return lin{c: c}
	}
	if v.op == OBin {
		a := k.linN(v.args[0], n+1)
		b := k.linN(v.args[1], n+1)
		switch v.aux {
		case "+":
			a.add(b, 1)
			return a
		case "-":
			a.add(b, -1)
			return a
		case "*":
			if len(b.atoms) > 0 {
				a, b = b, a
			}
			if len(b.atoms) == 0 {
				var r lin
				r.add(a, b.c)
				return r
			}
		case "<<":
			if len(b.atoms) == 0 && b.c < 30 {
				var r lin
				r.add(a, 1<<uint(b.c))
				return r
			}
		}
	}
	if v.op == OPhi && v.init != nil && v.init != k.e.vNonNil && v.step != nil && v.step != k.e.vNonNil {
		if _, isSlice := typOr(v).Underlying().(*types.Slice); !isSlice {
			st := k.flat(v.step).minus(v)
			if d, ok := st.only(); ok {
				r := k.linN(v.init, n+1)
				r.add(lin{atoms: map[*Val]int64{k.iter(v.site.Block()): 1}}, d)
				return r
			}
		}
	}
	return lin{atoms: map[*Val]int64{v: 1}}
}

func (l lin) minus(a *Val) lin {
	var r lin
	r.add(l, 1)
	r.add(lin{atoms: map[*Val]int64{a: 1}}, -1)
	return r
}

func (l lin) only() (int64, bool) { return l.c, len(l.atoms) == 0 && !l.bad }

// stepOf avoids expanding the phi inside of its own step.
func (k *codec) pos(v *Val, n int) (*Val, lin) {
	if n > 40 || v == nil {
		return nil, lin{bad: true}
	}
	v = stripConv(v)
	switch v.op {
	case OSlice:
		root, p := k.pos(v.args[0], n+1)
		if v.args[1] != nil {
			p.add(k.lin(v.args[1]), 1)
		}
		return root, p
	case OIAddr:
		root, p := k.pos(v.args[0], n+1)
		p.add(k.lin(v.args[1]), 1)
		return root, p
	case OPhi:
		if v.init != nil && v.init != k.e.vNonNil && v.step != nil && v.step != k.e.vNonNil {
			root, p := k.pos(v.init, n+1)
			s := v.step
			d := lin{}
			for s != v && s.op == OSlice {
				if s.args[1] != nil {
					d.add(k.lin(s.args[1]), 1)
				}
				s = s.args[0]
			}
			if c, ok := d.only(); ok && s == v {
				p.add(lin{atoms: map[*Val]int64{k.iter(v.site.Block()): 1}}, c)
				return root, p
			}
		}
		return v, lin{bad: true}
	}
	if b, ok := k.base[v]; ok {
		return nil, lin{c: b}
	}
	if v.op == OComp && v.aux == "pair:buf" {
		return v.args[0], k.lin(v.args[1])
	}
	return v, lin{}
}

// eval gives the value of a position for numbers of iterations; loops that were left count all of theirs.
func (k *codec) positions(a access) (off []int64, ok bool) {
	_, p := k.pos(a.v, 0)
	return k.spread(p, a.heads)
}

func (k *codec) spread(p lin, heads map[*ssa.BasicBlock]bool) (off []int64, ok bool) {
	if p.bad {
		return nil, false
	}
	off = []int64{p.c}
	for at, n := range p.atoms {
		if !strings.HasPrefix(at.aux, "pair:iter@") {
			if at.op == OLen || at.op == OParam || at.op == OLoad {
				// a length that is not known
				for i := range off {
					off[i] += n * symN
				}
				continue
			}
			return nil, false
		}
		var h *ssa.BasicBlock
		for b := range k.trips {
			if k.iter(b) == at {
				h = b
			}
		}
		trip := int64(symN)
		if h != nil {
			trip = k.trip(h)
		}
		if h != nil && heads[h] || h == nil {
			var nx []int64
			for _, o := range off {
				for i := int64(0); i < trip; i++ {
					nx = append(nx, o+n*i)
				}
			}
			off = nx
		} else {
			for i := range off {
				off[i] += n * trip
			}
		}
	}
	return off, true
}

func (k *codec) trip(h *ssa.BasicBlock) int64 {
	l := k.lin(k.trips[h])
	if c, ok := l.only(); ok {
		return c + k.trip0[h]
	}
	return symN
}

func (k *codec) inHeads(c *Ctx) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for f := c.fr; f != nil; f = f.parent {
		var b *ssa.BasicBlock
		if f == c.fr && c.In != nil {
			b = c.In.Block()
		} else if f.cur != nil {
			b = f.cur.Block()
		}
		for _, l := range k.r.P.loopsOf(f.fn).loops {
			if b != nil && l.blocks[b] {
				m[l.head] = true
			}
		}
	}
	return m
}

func (k *codec) note(c *Ctx, v *Val, width int64, order string, val *Val, role *types.Var) {
	var gs []*Val
	for _, n := range []string{"eq", "ne"} {
		gs = append(gs, c.St.Find(n)...)
	}
	a := access{v: v, width: width, order: order, val: val, role: role, guards: gs, heads: k.inHeads(c), at: c.Pos(), index: k.ix}
	key := fmt.Sprint(v.id, width, order, role, len(gs))
	if val != nil {
		key += fmt.Sprint(val.id)
	}
	for _, g := range gs {
		key += fmt.Sprint(",", g.id)
	}
	if k.seen[key] {
		return
	}
	k.seen[key] = true
	k.list = append(k.list, a)
}

func byteOrder(n string) (width int64, order string, put, ok bool) {
	if !strings.HasPrefix(n, "encoding/binary.") {
		return
	}
	i := strings.LastIndex(n, ".")
	m := n[i+1:]
	order = "LE"
	if strings.Contains(strings.ToLower(n[:i]), "bigendian") {
		order = "BE"
	}
	put = strings.HasPrefix(m, "Put")
	switch strings.TrimPrefix(m, "Put") {
	case "Uint16":
		width = 2
	case "Uint32":
		width = 4
	case "Uint64":
		width = 8
	default:
		return 0, "", false, false
	}
	return width, order, put, true
}

func isByte(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// readAtoms: what of v was read from the bytes.
func readAtoms(v *Val) []*Val {
	var as []*Val
	seen := map[*Val]bool{}
	var rec func(x *Val)
	rec = func(x *Val) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OComp && strings.HasPrefix(x.aux, "pair:rd:") || x.op == OLoad && x.args[0].op == OIAddr && isByte(x.typ) || x.op == OElem && isByte(x.typ) {
			as = append(as, x)
			return
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(v)
	return as
}

// readOf gives the bytes a read atom is about.
func readOf(x *Val) (v *Val, width int64, order string) {
	if x.op == OComp {
		p := strings.Split(x.aux, ":")
		fmt.Sscan(p[2], &width)
		return x.args[0], width, p[3]
	}
	return x.args[0], 1, "LE"
}

// layoutOf explores a codec.
func (r *Run) layoutOf(f *ssa.Function, dec bool, extra *Hooks) *codec {
	k := &codec{r: r, name: fname(f), dec: dec, seen: map[string]bool{}, trips: map[*ssa.BasicBlock]*Val{}, trip0: map[*ssa.BasicBlock]int64{}, base: map[*Val]int64{}, alias: map[*Val][]*types.Var{}, consts: map[*types.Var][]access{}}
	var ord order
	h := &Hooks{Interesting: func(ssa.Instruction) bool { return true }}
	if extra != nil {
		*h = *extra
		if h.Interesting == nil {
			h.Interesting = func(ssa.Instruction) bool { return true }
		}
	}
	user := h.Call
	fieldsOf := func(c *Ctx, v *Val, t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			x := c.E.fieldOf(v, st.Field(i))
			if as := readAtoms(x); len(as) > 0 {
				k.note(c, as[0], 0, "", x, st.Field(i))
			}
		}
	}
	h.Call = func(c *CallCtx) {
		k.e = c.E
		if w, o, put, ok := byteOrder(c.Name); ok {
			c.Opaque()
			n := len(c.Args)
			if put {
				c.handled = true
				if !dec {
					k.note(c.Ctx, c.Args[n-2], w, o, c.Args[n-1], nil)
				}
				return
			}
			rd := c.E.pair(fmt.Sprintf("rd:%d:%s", w, o), c.Args[n-1])
			k.reads = append(k.reads, access{v: c.Args[n-1], width: w, order: o, val: rd, at: c.Pos()})
			c.SetResult(rd)
			return
		}
		switch c.Name {
		case "bytes.NewBuffer", "bytes.NewReader":
			c.Opaque()
			cur := c.E.pair("cursor", c.Args[0])
			c.SetResult(cur)
			c.St.Del("cur")
			c.St.Add("cur", c.E.pair("at", cur, c.E.in.integer(0)))
			return
		case "bytes.Buffer.Next":
			c.Opaque()
			for _, t := range c.St.Find("cur") {
				if t.args[0] != c.Args[0] {
					continue
				}
				at := t.args[1]
				nx := c.E.in.bin(token.ADD, at, c.Args[1], types.Typ[types.Int])
				c.SetResult(c.E.in.mk(Val{op: OSlice, args: []*Val{t.args[0].args[0], at, nx}, typ: c.Sig.Results().At(0).Type()}))
				c.St.Del("cur")
				c.St.Add("cur", c.E.pair("at", t.args[0], nx))
			}
			return
		case "bytes.Buffer.Len":
			c.Opaque()
			return
		case "builtin.copy":
			dst, src := c.Args[0], c.Args[1]
			if !dec {
				if n, ok := k.sliceLen(dst); ok {
					k.note(c.Ctx, dst, n, "copy", src, nil)
				}
			} else if fl := fieldBytes(dst); fl != nil {
				if n, ok := k.sliceLen(src); ok {
					k.note(c.Ctx, c.E.pair(fmt.Sprintf("rd:%d:copy", n), src), 0, "", c.E.pair(fmt.Sprintf("rd:%d:copy", n), src), fl)
				}
			}
		case "builtin.append":
			if dec {
				if t, ok := c.Common.Args[0].Type().Underlying().(*types.Slice); ok {
					for _, x := range c.varargs(c.Args[1]) {
						fieldsOf(c.Ctx, x, t.Elem())
					}
				}
			}
		}
		if user != nil {
			user(c)
		}
	}
	// the cursor moves by the same amount in each round of a loop
	ule := h.LoopEnter
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		k.e = c.E
		if ule != nil {
			ule(c, l, fn)
		}
		for _, t := range c.St.Find("cur") {
			ph := c.E.in.mk(Val{op: OPhi, aux: fmt.Sprintf("cursor@%p", l.head), typ: types.Typ[types.Int], site: l.head.Instrs[0]})
			ph.init = t.args[1]
			c.St.DelV("cur", t)
			c.St.Add("cur", c.E.pair("at", t.args[0], ph))
		}
	}
	ub := h.Back
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		k.e = c.E
		if ub != nil {
			ub(c, l, fn)
		}
		for _, t := range c.St.Find("cur") {
			ph := c.E.in.mk(Val{op: OPhi, aux: fmt.Sprintf("cursor@%p", l.head), typ: types.Typ[types.Int], site: l.head.Instrs[0]})
			if ph.step == nil {
				ph.step = t.args[1]
			} else if ph.step != t.args[1] {
				ph.step = c.E.vNonNil
			}
			c.St.DelV("cur", t)
			c.St.Add("cur", c.E.pair("at", t.args[0], ph))
		}
		for _, n := range []string{"eq", "ne", "lt", "ge"} {
			c.St.Del(n)
		}
	}
	ua := h.Assume
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		k.e = c.E
		if ua != nil {
			ua(c, cond, truth)
		}
		if cond.op == OBin && cond.aux == "==" {
			ord.assume(c, cond, truth)
		}
		if cond.op == OBin && cond.aux == "<" && c.fr.cur != nil {
			k.tripOf(c, cond)
		}
	}
	us := h.Store
	h.Store = func(c *Ctx, addr, v *Val) {
		k.e = c.E
		if us != nil {
			us(c, addr, v)
		}
		if v == nil {
			return
		}
		if addr.op == OFAddr && !dec {
			k.alias[stripConv(v)] = append(k.alias[stripConv(v)], addr.fld)
		}
		if addr.op == OFAddr && dec && v.op == OConst {
			var gs []*Val
			for _, n := range []string{"eq", "ne"} {
				gs = append(gs, c.St.Find(n)...)
			}
			k.consts[addr.fld] = append(k.consts[addr.fld], access{val: v, guards: gs})
		}
		if !dec {
			if addr.op == OIAddr && isByte(elemType(addr)) && addr.args[0].op != OFAddr {
				k.note(c, addr, 1, "LE", v, nil)
			}
			return
		}
		if addr.op == OFAddr {
			if as := readAtoms(v); len(as) > 0 {
				if _, ok := addr.fld.Type().Underlying().(*types.Struct); !ok {
					k.ix = indexOf(addr)
					k.note(c, as[0], 0, "", v, addr.fld)
					k.ix = nil
					return
				}
			}
		}
		if v.typ != nil {
			fieldsOf(c, v, v.typ)
		}
	}
	ux := h.Exit
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		k.e = c.E
		if ux != nil {
			ux(c, fn, res)
		}
		if len(res) > 0 {
			k.res = append(k.res, res[0])
		}
	}
	r.Explore(h, f)
	return k
}

// sliceLen: the length of a slice expression with both ends, or of a whole array.
func (k *codec) sliceLen(v *Val) (int64, bool) {
	v = stripConv(v)
	if v.op != OSlice {
		return 0, false
	}
	if v.args[2] == nil {
		t := v.args[0].typ
		if t == nil {
			return 0, false
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				n := at.Len()
				if v.args[1] != nil {
					if lo, ok := v.args[1].constInt(); ok {
						return n - lo, true
					}
					return 0, false
				}
				return n, true
			}
		}
		return 0, false
	}
	d := k.lin(v.args[2])
	if v.args[1] != nil {
		d.add(k.lin(v.args[1]), -1)
	}
	return d.only()
}

// fieldBytes: the array field a slice is of.
func fieldBytes(v *Val) *types.Var {
	for v != nil && v.op == OSlice {
		v = v.args[0]
	}
	if v != nil && v.op == OFAddr {
		return v.fld
	}
	return nil
}

func elemType(addr *Val) types.Type {
	if addr.typ != nil {
		if p, ok := addr.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	if t := addr.args[0].typ; t != nil {
		switch t := t.Underlying().(type) {
		case *types.Slice:
			return t.Elem()
		case *types.Pointer:
			if a, ok := t.Elem().Underlying().(*types.Array); ok {
				return a.Elem()
			}
		}
	}
	return nil
}

// tripOf learns how often a loop runs from the comparison that ends it.
func (k *codec) tripOf(c *Ctx, cond *Val) {
	a, b := k.lin(cond.args[0]), k.lin(cond.args[1])
	phi := func(v *Val) *Val {
		var p *Val
		v.contains(func(x *Val) bool {
			if x.op == OPhi && x.site != nil && p == nil {
				p = x
			}
			return false
		})
		return p
	}
	_, _ = a, b
	for i, s := range cond.args {
		p := phi(s)
		if p == nil || phi(cond.args[1-i]) != nil {
			continue
		}
		h := p.site.Block()
		if _, ok := k.trips[h]; ok {
			continue
		}
		// s = p + off
		off := k.flat(s).minus(p)
		d, ok := off.only()
		if !ok || p.init == nil {
			continue
		}
		in, ok := k.lin(p.init).only()
		if !ok {
			continue
		}
		if i == 0 { // p+d < N goes on
			k.trips[h] = cond.args[1]
			k.trip0[h] = -in - d
		} else { // N < p+d ends
			k.trips[h] = cond.args[0]
			k.trip0[h] = 1 - in - d
		}
	}
}

// flat is v as a sum without expanding loop variables.
func (k *codec) flat(v *Val) lin {
	v = stripConv(v)
	if c, ok := v.constInt(); ok {
		return lin{c: c}
	}
	if v.op == OBin && (v.aux == "+" || v.aux == "-") {
		a, b := k.flat(v.args[0]), k.flat(v.args[1])
		if v.aux == "+" {
			a.add(b, 1)
		} else {
			a.add(b, -1)
		}
		return a
	}
	return lin{atoms: map[*Val]int64{v: 1}}
}
