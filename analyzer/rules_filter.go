package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = checkC22
}

type bloom struct {
	r             *Run
	bits, keys, m *types.Var
	pos           map[string]string // word and bit that adding sets, as functions of the hash
}

func checkC22(r *Run) {
	r.Rule("adding a key goes over all its hashes and sets, for each, one bit of the filter; testing answers no only when a bit is not set that adding the same key sets: word and bit are the same functions of the hash")
	r.Rule("the hashes of a key depend on the key and on the fixed keys of the filter only; those, the size and the table of the filter are set when it is made, and a bit that is set stays set")
	r.Rule("keys and bits are written and read back in the same order and byte order, into tables of the size the filter was made with")
	r.Rule("a memory lookup takes a negative answer as final only from the filter of the shard of the key, to which every key put into memory, also by recovery, is added before the put succeeds; an answer of a snapshot decides nothing")
	r.Rule("the sequence of every entry that is synced or recovered is added to the filter of the database, which answers no only when a filter block said so")
	b := &bloom{r: r}
	b.bits = r.Field("filter", "Filter", "bits")
	b.keys = r.Field("filter", "Filter", "keys")
	b.m = r.Field("filter", "Filter", "m")
	if b.bits == nil || b.keys == nil || b.m == nil {
		return
	}
	b.adding()
	b.testing()
	b.state()
	b.serial()
	b.memdb()
	b.database()
}

// canon writes a value as a function of the hash "x" and the size "m"; "" when it is something else.
func (b *bloom) canon(v *Val) string {
	if v == nil {
		return ""
	}
	if n, ok := v.constInt(); ok {
		return fmt.Sprint(n)
	}
	switch v.op {
	case OConv:
		t, ok := typOr(v).Underlying().(*types.Basic)
		s := b.canon(v.args[0])
		if s == "" {
			return ""
		}
		if ok {
			switch t.Kind() {
			case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
				return s
			}
		}
		return fmt.Sprintf("%s(%s)", typOr(v), s)
	case OLoad:
		a := v.args[0]
		if a.op == OFAddr && a.fld == b.m {
			return "m"
		}
		if a.op == OIAddr && a.args[0].op != OAlloc {
			base := a.args[0]
			if isFieldVal(base, b.keys) {
				return "key"
			}
			if base.contains(func(x *Val) bool { return x.op == OComp && strings.HasPrefix(x.aux, "pair:hashes") }) {
				return "x"
			}
		}
		return ""
	case OField:
		if v.fld == b.m {
			return "m"
		}
	case OParam:
		return "h"
	case OLen:
		if isFieldVal(v.args[0], b.bits) {
			return "len(bits)"
		}
	case OBin:
		x, y := b.canon(v.args[0]), b.canon(v.args[1])
		if x == "" || y == "" {
			return ""
		}
		op := v.aux
		if n, ok := v.args[1].constInt(); ok {
			switch {
			case op == ">>" && n >= 0 && n < 62:
				op, y = "/", fmt.Sprint(int64(1)<<uint(n))
			case op == "&" && n > 0 && n&(n+1) == 0:
				op, y = "%", fmt.Sprint(n+1)
			}
		}
		if n, ok := v.args[0].constInt(); ok && op == "&" && n > 0 && n&(n+1) == 0 {
			op, x, y = "%", y, fmt.Sprint(n+1)
		}
		if op == "^" && (x == "h" && y == "key" || x == "key" && y == "h") {
			return "x"
		}
		if op == "%" && strings.HasSuffix(x, "%"+y+")") {
			return x
		}
		if (op == "+" || op == "*" || op == "^" || op == "&" || op == "|") && x > y {
			x, y = y, x
		}
		return "(" + x + op + y + ")"
	}
	return ""
}

// inRange: the word is one of the table's.
func inRange(word string) bool {
	return strings.Contains(word, "(x%m)") && word == "((x%m)/64)" || strings.HasSuffix(word, "%len(bits))")
}

func (b *bloom) interesting(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		ia, ok := x.Addr.(*ssa.IndexAddr)
		return ok && ssaField(ia.X) == b.bits
	case ssa.CallInstruction:
		return b.isHash(x.Common().StaticCallee())
	}
	return fieldUse(b.bits, b.keys)(in)
}

// isHash: a function that computes the hashes of a key.
func (b *bloom) isHash(f *ssa.Function) bool {
	if f == nil || f.Signature.Results().Len() != 1 || pkgOf(f) != "filter" {
		return false
	}
	s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Basic)
	return ok && e.Kind() == types.Uint64
}

func (b *bloom) hashCall(c *CallCtx) bool {
	if c.Callee == nil || !b.isHash(c.Callee) {
		return false
	}
	c.Opaque()
	var as []*Val
	key := false
	for _, a := range c.Args {
		as = append(as, a)
		if wholeKey(a) {
			key = true
		}
	}
	if !key {
		c.Report("c22:hash-of", "hashes are computed of something else than the key")
	}
	c.SetResult(c.E.pair("hashes", as...))
	b.r.Count("hash uses", 1)
	b.pure(c.Callee)
	return true
}

// wholeKey: the key that was passed, all of it.
func wholeKey(v *Val) bool {
	for v != nil && v.op == OConv {
		if b, ok := typOr(v).Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 && b.Kind() != types.Int64 {
			return false
		}
		v = v.args[0]
	}
	return v != nil && v.op == OParam && !ptrTyp(v.typ)
}

func ptrTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// pure: the hashes depend on the arguments and the keys of the filter only.
func (b *bloom) pure(f *ssa.Function) {
	r := b.r
	for g := range r.P.reach(f) {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if fv := structOf(x.X.Type()).Field(x.Field); fv != b.keys && fv != b.m {
						r.Violate("c22:hash-state:"+fv.Name(), r.P.instrPos(in), "the hashes of a key depend on %s, which can change between adding and testing", fv.Name())
					}
				case *ssa.UnOp:
					if _, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
						r.Violate("c22:hash-global", r.P.instrPos(in), "the hashes of a key depend on a package variable")
					}
				case ssa.CallInstruction:
					if _, ok := x.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					if cal := x.Common().StaticCallee(); cal == nil || !r.P.inModule(cal) {
						n := staticName(x.Common())
						if strings.HasPrefix(n, "math/bits.") || strings.HasPrefix(n, "encoding/binary.") {
							continue
						}
						r.Violate("c22:hash-call", r.P.instrPos(in), "the hashes of a key depend on the outcome of %s", n)
					}
				}
			}
		}
	}
}

// bitMask: 1 << bit.
func (b *bloom) bitMask(v *Val) string {
	v = stripConv(v)
	if v.op == OBin && v.aux == "<<" {
		if n, ok := v.args[0].constInt(); ok && n == 1 {
			return b.canon(v.args[1])
		}
	}
	return ""
}

// bitsAt: a word of the table; its index.
func (b *bloom) bitsAt(v *Val) (*Val, bool) {
	v = stripConv(v)
	if v.op == OLoad && v.args[0].op == OIAddr && isFieldVal(v.args[0].args[0], b.bits) {
		return v.args[0].args[1], true
	}
	return nil, false
}

// allOf: the loop goes over all elements of a list that satisfies the predicate.
func allOf(l *loop, of func(ssa.Value) bool) bool {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := stripConvSSA(op.X), stripConvSSA(op.Y)
	switch op.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		x, y = y, x
	default:
		return false
	}
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD {
		if k, ok := constOfSSA(a.Y); ok && k == 1 {
			x = a.X
			if ph, ok := x.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					if k, ok := constOfSSA(e); !l.blocks[ph.Block().Preds[i]] && (!ok || k != -1) {
						return false
					}
				}
			}
		} else {
			return false
		}
	}
	ph, ok := x.(*ssa.Phi)
	return ok && countsUp(ph, l) && lengthOf(y, of)
}

// lengthOf: the length of a list that satisfies the predicate.
func lengthOf(v ssa.Value, of func(ssa.Value) bool) bool {
	c, ok := stripConvSSA(v).(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && of(c.Call.Args[0])
}

// adding: Filter.Add.
func (b *bloom) adding() {
	r := b.r
	b.pos = map[string]string{}
	isList := func(v ssa.Value) bool {
		if ssaField(v) == b.keys {
			return true
		}
		if c, ok := v.(*ssa.Call); ok && b.isHash(c.Call.StaticCallee()) {
			return true
		}
		p, ok := v.(*ssa.Parameter) // of a helper
		return ok && isSliceOf(p.Type(), "uint64")
	}
	isLoop := func(l *loop, fn *ssa.Function) bool {
		return loopHas(l, func(in ssa.Instruction) bool {
			if st, ok := in.(*ssa.Store); ok {
				ia, ok := st.Addr.(*ssa.IndexAddr)
				return ok && ssaField(ia.X) == b.bits
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() == nil {
				return false
			}
			for g := range r.P.reach(ci.Common().StaticCallee()) {
				for _, blk := range g.Blocks {
					for _, in := range blk.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ssaField(ia.X) == b.bits {
								return true
							}
						}
					}
				}
			}
			return false
		})
	}
	for _, n := range []string{"filter.Filter.Add", "filter.Generator.Append"} {
		f := r.Fn(n)
		if f == nil {
			continue
		}
		h := &Hooks{Interesting: b.interesting, Call: func(c *CallCtx) { b.hashCall(c) }}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op != OIAddr || !isFieldVal(addr.args[0], b.bits) {
				return
			}
			r.Count("bits set", 1)
			word := b.canon(addr.args[1])
			x := stripConv(v)
			bit := ""
			if x.op == OBin && x.aux == "|" {
				for i := 0; i < 2; i++ {
					if w, ok := b.bitsAt(x.args[i]); ok && w == addr.args[1] {
						bit = b.bitMask(x.args[1-i])
					}
				}
			}
			switch {
			case bit == "":
				c.Report("c22:clears", "a word of the filter is not the old word with one more bit")
				return
			case !strings.Contains(word, "x") || !strings.Contains(bit, "x"):
				c.Report("c22:set-what", "the bit set by adding a key does not follow from its hash")
				return
			case !inRange(word):
				c.Report("c22:range", "the word in which a bit is set need not be in the table of the filter")
			}
			b.pos[word+" "+bit] = c.Pos()
			r.Sample("adding sets bit %s of word %s", bit, word)
			c.St.Add("set")
		}
		h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if isLoop(l, fn) && c.In.Block() == l.head {
				if !allOf(l, isList) {
					c.Report("c22:not-all", "adding a key does not go over all its hashes")
				}
				c.St.Add("all")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("additions", 1)
			if !c.St.Has("all") {
				c.Report("c22:not-added", "adding a key can return without having set its bits")
			}
		}
		r.eachHooks(h, &each{name: "hashes added", key: "c22:not-set", what: "no bit is set for a hash of a key that is added", is: isLoop, done: []string{"set"}})
		r.Explore(h, f)
	}
	r.Need("additions", 1)
	r.Need("bits set", 1)
	r.Need("hashes added", 1)
}

// testing: Filter.Test and what forwards to it.
func (b *bloom) testing() {
	r := b.r
	for _, n := range []string{"filter.Filter.Test", "filter.Generator.Test", "filter.Block.Test"} {
		f := r.Fn(n)
		if f == nil {
			continue
		}
		h := &Hooks{Interesting: b.interesting, Call: func(c *CallCtx) { b.hashCall(c) }}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op != OBin {
				return
			}
			x, y := stripConv(cond.args[0]), stripConv(cond.args[1])
			if cond.aux == "<" {
				// 0 < bits&mask
				if n, ok := x.constInt(); !ok || n != 0 {
					return
				}
				x, y, truth = y, x, !truth
			} else if cond.aux != "==" {
				return
			}
			if _, ok := x.constInt(); ok {
				x, y = y, x
			}
			if k, ok := y.constInt(); ok && k == 1 {
				// the bit itself is compared to 1
				truth = !truth
			} else if !ok || k != 0 {
				// bits&mask == mask
				if b.bitMask(y) == "" || x.op != OBin || x.aux != "&" || x.args[0] != y && x.args[1] != y {
					return
				}
				truth = !truth
			}
			if !truth || x.op != OBin || x.aux != "&" {
				return
			}
			for i := 0; i < 2; i++ {
				a, o := stripConv(x.args[i]), stripConv(x.args[1-i])
				if w, ok := b.bitsAt(a); ok {
					if bit := b.bitMask(o); bit != "" {
						if k, isC := y.constInt(); !isC || k == 0 {
							b.absent(c, w, bit)
						}
					}
				}
				if k, ok := o.constInt(); ok && k == 1 && a.op == OBin && a.aux == ">>" {
					if w, ok := b.bitsAt(a.args[0]); ok {
						if bit := b.canon(a.args[1]); bit != "" {
							b.absent(c, w, bit)
						}
					}
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("answers", 1)
			if c.E.evalBool(c.St, res[0]) == 1 {
				return
			}
			if !c.St.Has("absent") {
				c.Report("c22:negative", "testing a key can answer no although no bit is missing that adding the key sets")
			}
		}
		r.Explore(h, f)
	}
	r.Need("answers", 1)
	r.Need("bits tested", 1)
}

func (b *bloom) absent(c *Ctx, word *Val, bit string) {
	w := b.canon(word)
	b.r.Count("bits tested", 1)
	b.r.Sample("testing looks at bit %s of word %s", bit, w)
	if b.pos[w+" "+bit] == "" {
		c.Report("c22:position", "testing looks at a bit that adding the same key does not set")
		return
	}
	c.St.Add("absent")
}

// state: what may change in a filter.
func (b *bloom) state() {
	r := b.r
	fixed := map[*types.Var]bool{b.bits: true, b.keys: true, b.m: true}
	if g := r.P.field("filter", "Generator", "filter"); g != nil {
		fixed[g] = true
	}
	if g := r.P.field("filter", "Block", "filter"); g != nil {
		fixed[g] = true
	}
	add := r.P.fn("filter.Filter.Add")
	adds := map[*ssa.Function]bool{add: true}
	if add != nil {
		for g := range r.P.reach(add) {
			adds[g] = true
		}
	}
	for _, f := range r.P.funcs {
		if pkgOf(f) != "filter" {
			continue
		}
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						fv := structOf(a.X.Type()).Field(a.Field)
						if fixed[fv] {
							r.Count("fields set", 1)
							if !freshSSA(a.X) {
								r.Violate("c22:changes:"+fv.Name(), r.P.instrPos(in), "%s of a filter in use is replaced, keys added before can be forgotten", fv.Name())
							}
						}
					case *ssa.IndexAddr:
						fv := ssaField(a.X)
						if fv == b.keys || fv == b.bits && !adds[f] {
							r.Violate("c22:element:"+fv.Name(), r.P.instrPos(in), "an element of %s of a filter is changed outside of adding a key", fv.Name())
						}
					}
				case ssa.CallInstruction:
					n := staticName(x.Common())
					for i, a := range x.Common().Args {
						fv := ssaField(stripIface(a))
						if fv != b.keys && fv != b.bits {
							continue
						}
						switch {
						case n == "builtin.len" || n == "builtin.cap" || n == "encoding/binary.Write" || n == "encoding/binary.Size" || n == "builtin.copy" && i == 1 || n == "encoding/binary.Append":
						case n == "builtin.append" && i > 0:
						default:
							if c := x.Common().StaticCallee(); c != nil && r.P.inModule(c) {
								continue
							}
							r.Violate("c22:passed:"+fv.Name(), r.P.instrPos(in), "%s of a filter in use is passed to %s, which can change it", fv.Name(), n)
						}
					}
				}
			}
		}
	}
	r.Need("fields set", 1)
}

// freshSSA: an object made in the same function.
func freshSSA(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// serial: what is written is what is read.
func (b *bloom) serial() {
	r := b.r
	write := r.Fn("filter.Filter.Bytes")
	if write == nil {
		return
	}
	var wrote []string
	order := func(v *Val) string { return stripConv(v).String() }
	h := &Hooks{Interesting: anyOf(callIs("encoding/binary.Write"), fieldUse(b.bits, b.keys))}
	h.Call = func(c *CallCtx) {
		if c.Name != "encoding/binary.Write" {
			return
		}
		c.Opaque()
		what := ""
		switch {
		case c.Args[2].contains(isF(b.keys)) && isFieldVal(stripIfaceVal(c.Args[2]), b.keys):
			what = "keys"
		case isFieldVal(stripIfaceVal(c.Args[2]), b.bits):
			what = "bits"
		default:
			c.Report("c22:written", "something else than the keys and the bits of a filter is written")
		}
		c.St.Add("wrote", c.E.pair(fmt.Sprintf("%d %s %s", len(c.St.Find("wrote")), what, order(c.Args[1]))))
		c.SetResult(c.E.vNil)
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("filters written", 1)
		var seq []string
		for i := 0; i < 8; i++ {
			for _, v := range c.St.Find("wrote") {
				if s := strings.TrimPrefix(v.aux, "pair:"); strings.HasPrefix(s, fmt.Sprint(i)+" ") {
					seq = append(seq, s[2:])
				}
			}
		}
		if wrote != nil && strings.Join(wrote, ";") != strings.Join(seq, ";") {
			c.Report("c22:written", "a filter is not always written the same way")
		}
		wrote = seq
	}
	r.Explore(h, write)
	if len(wrote) != 2 {
		r.Violate("c22:written", r.P.pos(write.Pos()), "a filter is not written as its keys and its bits, each once")
		return
	}
	r.Sample("a filter is written as %s", strings.Join(wrote, ", "))

	// constructors
	sizes := map[string]string{}
	sizeOf := func(c *Ctx, v *Val) string {
		v = stripIfaceVal(v)
		if v.op == OSlice {
			return ""
		}
		if v.op != OMake {
			return ""
		}
		if len(v.args) == 0 {
			return ""
		}
		return canonSize(v.args[0])
	}
	for _, f := range r.P.funcs {
		if pkgOf(f) != "filter" || f.Parent() != nil {
			continue
		}
		sets := false
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == b.bits {
						sets = true
					}
				}
			}
		}
		if !sets {
			continue
		}
		// the function that makes it, or one that calls it with what was read
		h := &Hooks{Interesting: anyOf(callIs("encoding/binary.Read"), fieldUse(b.bits, b.keys))}
		h.Call = func(c *CallCtx) {
			if c.Name != "encoding/binary.Read" {
				return
			}
			c.Opaque()
			r.Count("tables read", 1)
			c.St.Add("read", c.E.pair(fmt.Sprintf("read %d %s", len(c.St.Find("read")), order(c.Args[1])), stripIfaceVal(c.Args[2])))
			if c.Args[0].contains(func(x *Val) bool { return x.op == OGlobal }) {
				c.St.Add("random")
			}
			c.SetResult(c.E.vNil)
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if len(res) != 1 || c.E.nilness(c.St, res[0]) == 1 || stripConv(res[0]).op == ONil {
				return
			}
			r.Count("filters made", 1)
			keys := c.E.load(c.St, c.E.faddr(res[0], b.keys), b.keys.Type())
			bits := c.E.load(c.St, c.E.faddr(res[0], b.bits), b.bits.Type())
			m := c.E.load(c.St, c.E.faddr(res[0], b.m), b.m.Type())
			ks, bs := sizeOf(c, keys), sizeOf(c, bits)
			ms := canonSize(m)
			if ks == "" || bs == "" {
				c.Report("c22:tables", "the tables of a new filter are not made for it")
				return
			}
			if bs != "(("+ms+"+63)/64)" && bs != "(("+ms+"/64)+1)" && bs != "((63+"+ms+")/64)" && bs != "(1+("+ms+"/64))" {
				c.Report("c22:table-size", "the table of a new filter need not have room for as many bits as the filter counts with")
			}
			if ms == "" || strings.Contains(ms, "(") {
				c.Report("c22:size", "the size of a new filter is not the one asked for")
			}
			for k, s := range map[string]string{"keys": ks, "bits": bs, "m": ms} {
				if o, ok := sizes[k]; ok && o != s {
					c.Report("c22:sizes", "a new filter and one that is read back do not have tables of the same size")
				}
				sizes[k] = s
			}
			if c.St.Has("random") {
				return
			}
			var got []string
			for i := 0; i < 8; i++ {
				for _, v := range c.St.Find("read") {
					s := strings.TrimPrefix(v.aux, "pair:read ")
					if !strings.HasPrefix(s, fmt.Sprint(i)+" ") {
						continue
					}
					what := ""
					switch v.args[0] {
					case keys:
						what = "keys"
					case bits:
						what = "bits"
					}
					got = append(got, what+" "+s[2:])
				}
			}
			r.Count("filters read", 1)
			if strings.Join(got, ";") != strings.Join(wrote, ";") {
				c.Report("c22:read-order", "the keys and bits of a filter are not read back in the order, or byte order, in which they are written")
			}
		}
		r.Explore(h, f)
	}
	r.Need("filters made", 1)
	r.Need("filters read", 1)

	// all filters have the same sizes
	var first []string
	for _, f := range []string{"filter.newFilter", "filter.newFilterFromBytes"} {
		fn := r.Fn(f)
		for _, ci := range r.P.callsTo(f) {
			if strings.HasSuffix(r.P.pos(ci.Pos()), "_test.go") || fn == nil {
				continue
			}
			var as []string
			for i, a := range ci.Common().Args {
				if n := fn.Params[i].Name(); n == "m" || n == "k" || isBasicKind(a.Type(), types.Uint64) {
					k, ok := constOfSSA(a)
					if !ok {
						if pr, isP := a.(*ssa.Parameter); isP {
							as = append(as, "param "+pr.Name())
							continue
						}
						r.Violate("c22:not-constant", r.P.instrPos(ci), "the size of a filter is not a constant: it can be read back with another one")
					}
					as = append(as, fmt.Sprint(k))
				}
			}
			r.Count("filters sized", 1)
			if first != nil && strings.Join(first, ",") != strings.Join(as, ",") {
				r.Violate("c22:constants", r.P.instrPos(ci), "filters are made with different sizes (%s and %s)", strings.Join(first, ","), strings.Join(as, ","))
			}
			first = as
		}
	}
	r.Need("filters sized", 1)
}

func isBasicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func stripIfaceVal(v *Val) *Val {
	for v != nil && (v.op == OConv || v.op == OAssert) {
		v = v.args[0]
	}
	return v
}

// canonSize writes a size as an expression over parameters.
func canonSize(v *Val) string {
	v = stripConv(v)
	if n, ok := v.constInt(); ok {
		return fmt.Sprint(n)
	}
	switch v.op {
	case OParam:
		return v.aux
	case OBin:
		x, y := canonSize(v.args[0]), canonSize(v.args[1])
		op := v.aux
		if x == "" || y == "" {
			return ""
		}
		if n, ok := v.args[1].constInt(); ok && op == ">>" && n >= 0 && n < 62 {
			op, y = "/", fmt.Sprint(int64(1)<<uint(n))
		}
		return "(" + x + op + y + ")"
	}
	return ""
}

const (
	genTest   = "filter.Generator.Test"
	genAppend = "filter.Generator.Append"
	blkTest   = "filter.Block.Test"
)

// memdb: the filters of the memory store.
func (b *bloom) memdb() {
	r := b.r
	p := r.P
	fil := r.Field("memdb", "_TimeFilter", "filter")
	recs := r.Field("memdb", "_TimeFilter", "timeRecords")
	table := r.Field("memdb", "DB", "timeFilters")
	if fil == nil || recs == nil || table == nil {
		return
	}
	put := r.Fn("memdb._Block.put")
	if put == nil {
		return
	}
	// isShard: the filter of the shard of the key in the table of the store.
	isShard := func(v, key *Val) bool {
		v = stripConv(v)
		if !isFieldVal(v, fil) {
			return false
		}
		base := fieldBase(v)
		if base == nil {
			return false
		}
		if base.op == OExt {
			base = base.args[0]
		}
		if base.op != OLookup || !isFieldVal(base.args[0], table) {
			return false
		}
		bk := findPair(base.args[1], "shard")
		return bk != nil && bk.args[0] == key
	}
	common := func(c *CallCtx) bool {
		switch c.Name {
		case "memdb.DB.blockKey":
			c.Opaque()
			c.SetResult(c.E.pair("shard", stripConv(c.Args[1])))
		case "memdb.iKey":
			c.Opaque()
			c.SetResult(c.E.pair("ikey", c.Args...))
		default:
			return false
		}
		return true
	}

	// negative answers
	n := 0
	for _, ci := range p.callsTo(genTest, blkTest) {
		f := ci.Parent()
		if pkgOf(f) != "memdb" {
			continue
		}
		n++
		roots := []*ssa.Function{f}
		if boolResult(f) {
			roots = p.callers(f)
		}
		for _, root := range roots {
			h := &Hooks{Interesting: anyOf(callIs(genTest, blkTest, "memdb.DB.blockKey"), fieldUse(fil, table))}
			h.Call = func(c *CallCtx) {
				switch {
				case common(c):
				case c.Name == genTest || c.Name == blkTest:
					c.Opaque()
					key := stripConv(c.Args[1])
					good := c.Name == genTest && isShard(c.Args[0], key)
					c.Fork(func(s *State) { c.E.setFact(s, c.Res, c.E.vTrue) })
					c.Fork(func(s *State) {
						c.E.setFact(s, c.Res, c.E.vFalse)
						if !good {
							s.Add("wrong filter")
						}
					})
					r.Count("answers used", 1)
				}
			}
			h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
				if c.St.Has("wrong filter") {
					c.Report("c22:wrong-filter", "a lookup in memory trusts the negative answer of a filter that does not cover all records of the key")
				}
			}
			r.Explore(h, root)
		}
	}
	r.Need("answers used", 1)

	// puts
	appends := map[*ssa.Function]bool{}
	puts := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) != "memdb" || f == put {
			continue
		}
		fr := p.reach(f)
		if fr[put] {
			puts[f] = true
		}
		for _, ci := range p.callSites(fr) {
			if staticName(ci.Common()) == genAppend {
				appends[f] = true
			}
		}
	}
	var roots []*ssa.Function
	for f := range puts {
		if !appends[f] {
			continue
		}
		inner := false
		for g := range p.reach(f) {
			if g != f && puts[g] && appends[g] {
				inner = true
			}
		}
		if !inner {
			roots = append(roots, f)
		}
	}
	seen := map[ssa.Instruction]bool{}
	h := &Hooks{Interesting: anyOf(callIs("memdb._Block.put", genAppend, "memdb.DB.blockKey", "memdb.iKey"), fieldUse(fil, table, recs))}
	h.Call = func(c *CallCtx) {
		switch {
		case common(c):
		case c.Name == "memdb._Block.put":
			c.Opaque()
			seen[c.In] = true
			ik := findPair(c.Args[1], "ikey")
			if ik == nil || len(ik.args) < 2 {
				c.Report("c22:put-key", "a record is put into memory under a key that is not made of the key of the entry")
				return
			}
			if c.E.evalBool(c.St, ik.args[0]) == 1 {
				c.ForkErr(nil, nil)
				return
			}
			key := stripConv(ik.args[1])
			r.Count("puts", 1)
			c.ForkErr(func(s *State) {
				s.Add("put", key)
				if s.HasV("added", key) {
					s.DelV("put", key)
				}
			}, nil)
		case c.Name == genAppend:
			c.Opaque()
			key := stripConv(c.Args[1])
			c.handled = true
			r.Count("keys added", 1)
			if !isShard(c.Args[0], key) {
				c.Report("c22:added-elsewhere", "a key that is put into memory is not added to the filter of its shard")
				return
			}
			if !c.St.HasV("noted", key) {
				c.St.Add("unnoted", key)
			}
			c.St.Add("added", key)
			c.St.DelV("put", key)
		}
	}
	h.MapWrite = func(c *Ctx, m, k, v *Val) {
		if v != nil && isFieldVal(m, recs) {
			c.St.Add("noted all")
			if base := fieldBase(m); base != nil {
				b.noteShard(c, base, table)
			}
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		m, ok := lookupOK(cond)
		if !ok {
			return
		}
		lk := cond.args[0]
		switch {
		case isFieldVal(m, table) && !truth:
			if bk := findPair(lk.args[1], "shard"); bk != nil {
				c.St.DelV("put", bk.args[0])
				c.St.Add("added", bk.args[0])
			}
		case isFieldVal(m, recs) && truth:
			if base := fieldBase(m); base != nil {
				b.noteShard(c, base, table)
			}
		}
	}
	isLoop := func(l *loop, fn *ssa.Function) bool { return loopHas(l, p.callReaches("memdb._Block.put")) }
	h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			c.St.Del("added")
			c.St.Del("noted")
		}
	}
	check := func(c *Ctx) {
		if c.St.Has("put") {
			c.Report("c22:not-added-put", "a key is put into memory without adding it to the filter of its shard: it is looked up in vain")
		}
		for _, k := range c.St.Find("unnoted") {
			if !c.St.HasV("noted", k) {
				c.Report("c22:not-noted", "a key is added to the filter of its shard without noting the time record in which it is looked for")
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if isLoop(l, fn) {
			check(c)
			c.St.Del("put")
			c.St.Del("unnoted")
			c.St.Del("added")
			c.St.Del("noted")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if _, has := c.errValue(fn, res); !has || c.mayBeSuccess(fn, res) {
			check(c)
		}
	}
	r.Explore(h, roots...)
	r.Need("puts", 1)
	r.Need("keys added", 1)
	for _, ci := range p.callsTo("memdb._Block.put") {
		if seen[ci] {
			continue
		}
		if as := ci.Common().Args; len(as) > 1 {
			if k, ok := stripSSA(as[1]).(*ssa.Call); ok && staticName(k.Common()) == "memdb.iKey" {
				if fl, ok := k.Call.Args[0].(*ssa.Const); ok && fl.Value != nil && fl.Value.String() == "true" {
					continue
				}
			}
		}
		r.Violate("c22:put-without-filter", p.instrPos(ci), "a record is put into memory by code that never adds its key to a filter")
	}
}

// noteShard: the shard of a key knows the time record.
func (b *bloom) noteShard(c *Ctx, base *Val, table *types.Var) {
	if base.op == OExt {
		base = base.args[0]
	}
	if base.op != OLookup || !isFieldVal(base.args[0], table) {
		return
	}
	if bk := findPair(base.args[1], "shard"); bk != nil {
		c.St.Add("noted", bk.args[0])
	}
}

func boolResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && isBasicKind(rs.At(0).Type(), types.Bool)
}

// database: the filter of the database.
func (b *bloom) database() {
	r := b.r
	p := r.P
	test, app := r.Fn("unitdb.Filter.Test"), r.Fn("unitdb.Filter.Append")
	if test == nil || app == nil {
		return
	}
	h := &Hooks{Interesting: callIs(genTest, blkTest, "unitdb.Filter.getFilterBlock")}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.Filter.getFilterBlock":
			c.Opaque()
			c.handled = true
		case genTest, blkTest:
			c.Opaque()
			key := stripConv(c.Args[1])
			right := key.op == OParam && len(c.root().fn.Params) > 1 && key.aux == c.root().fn.Params[1].Name()
			c.Fork(func(s *State) { c.E.setFact(s, c.Res, c.E.vTrue) })
			c.Fork(func(s *State) {
				c.E.setFact(s, c.Res, c.E.vFalse)
				if right {
					s.Add("absent")
				}
			})
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("database answers", 1)
		if c.E.evalBool(c.St, res[0]) != 1 && !c.St.Has("absent") {
			c.Report("c22:db-negative", "the filter of the database can answer no although no filter block said so")
		}
	}
	r.Explore(h, test)
	r.Need("database answers", 1)

	h = &Hooks{Interesting: callIs(genAppend)}
	h.Call = func(c *CallCtx) {
		if c.Name == genAppend {
			c.Opaque()
			c.handled = true
			if k := stripConv(c.Args[1]); k.op == OParam && k.aux == c.root().fn.Params[1].Name() {
				c.St.Add("added")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("database additions", 1)
		if !c.St.Has("added") {
			c.Report("c22:db-append", "an entry added to the filter of the database is not added to its filter block")
		}
	}
	r.Explore(h, app)
	r.Need("database additions", 1)

	// synced and recovered entries
	bw := r.Fn("unitdb._BlockWriter.append")
	seqs := []*types.Var{r.Field("unitdb", "_IndexEntry", "seq"), r.Field("unitdb", "_Entry", "seq"), p.field("unitdb", "_WinEntry", "sequence")}
	if bw == nil {
		return
	}
	fits := func(v *Val) bool {
		v = stripConv(v)
		if v.op == OConst {
			return false
		}
		for _, f := range seqs {
			if f != nil && isFieldVal(v, f) {
				return true
			}
		}
		return v.contains(func(x *Val) bool { return x.op == OIAddr || x.op == OPhi || x.op == ONext || x.op == OParam }) && !v.contains(func(x *Val) bool {
			return x.op == OFAddr && r.ownedBy(x.fld, "unitdb", "_Entry")
		})
	}
	appends := map[*ssa.Function]bool{}
	syncs := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) != "unitdb" {
			continue
		}
		fr := p.reach(f)
		if fr[bw] {
			syncs[f] = true
		}
		if fr[app] {
			appends[f] = true
		}
	}
	var roots []*ssa.Function
	for f := range syncs {
		if !appends[f] {
			continue
		}
		inner := false
		for g := range p.reach(f) {
			if g != f && syncs[g] && appends[g] {
				inner = true
			}
		}
		if !inner {
			roots = append(roots, f)
		}
	}
	written := map[ssa.Instruction]bool{}
	h = &Hooks{Interesting: anyOf(callIs("unitdb._BlockWriter.append", "unitdb.Filter.Append", "unitdb._Entry.UnmarshalBinary"))}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb._Entry.UnmarshalBinary":
			c.Opaque()
		case "unitdb._BlockWriter.append":
			c.Opaque()
			written[c.In] = true
			r.Count("entries written", 1)
			c.ForkErr(func(s *State) { s.Add("written") }, nil)
		case "unitdb.Filter.Append":
			c.Opaque()
			c.handled = true
			if !fits(c.Args[1]) {
				c.Report("c22:db-what", "what is added to the filter of the database is not the sequence of the entry: %s", c.Args[1])
			}
			c.St.Del("written")
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if loopHas(l, p.callReaches("unitdb._BlockWriter.append")) && c.St.Has("written") {
			c.Report("c22:db-not-added", "an entry is written to the database without adding its sequence to the filter")
		}
		c.St.Del("written")
	}
	r.Explore(h, roots...)
	r.Need("entries written", 1)
	for _, ci := range p.callsTo("unitdb._BlockWriter.append") {
		if !written[ci] {
			r.Violate("c22:db-never-added", p.instrPos(ci), "entries are written to the database by code that never adds a sequence to the filter")
		}
	}
}
