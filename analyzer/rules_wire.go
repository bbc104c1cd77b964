package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S01"] = checkS01
}

const (
	pbMarshal   = "github.com/golang/protobuf/proto.Marshal"
	pbUnmarshal = "github.com/golang/protobuf/proto.Unmarshal"
	utpPkg      = "server/utp"
	pbPkg       = "server/proto"
)

// wire: the client protocol.
type wire struct {
	r        *Run
	types    map[string]*wireType
	header   *wireType
	hdr      map[string]*types.Var // fields of the fixed header
	pack     *ssa.Function
	appended map[*Val]*Val // what is appended: the list its element was taken from
	kinds    []ctlKind
	all      bool // the header of control messages copies kind and direction
}

type wireType struct {
	name     string
	t        *types.Named
	enc, dec *ssa.Function
	kind     int64                             // what Type() returns, -1 when none
	rel      [2]map[*types.Var]map[string]bool // proto field -> own field, encoder and decoder
	lists    [2]map[*types.Var]bool            // lists of the target struct
	headed   bool
	ctl      bool
}

type ctlKind struct{ mt, fc, head int64 }

func checkS01(r *Run) {
	r.Rule("on every path the encoder of a message fills each field of the wire message from one field of the message, through no narrower type, and the decoder fills that very field from it; the elements of a list are all converted, one by one, in the same way")
	r.Rule("a header carries the type of the message and the length of exactly the body that follows; the header of a control message carries its kind and direction for every combination that is sent")
	r.Rule("a reader decodes the whole body into the message whose type is in the header, or into a control message exactly when the header says so, and accepts every type that an encoder writes")
	r.Rule("an encoder is chosen by the type of the message, for every type that is sent; lengths are written and read in groups of the same number of bits")
	w := &wire{r: r, appended: map[*Val]*Val{}, types: map[string]*wireType{}, hdr: map[string]*types.Var{}}
	for _, n := range []string{"MessageType", "FlowControl", "MessageLength"} {
		w.hdr[n] = r.Field(utpPkg, "FixedHeader", n)
		if w.hdr[n] == nil {
			return
		}
	}
	w.find()
	var names []string
	for n := range w.types {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w.encodes(w.types[n])
		w.decodes(w.types[n])
		w.agree(w.types[n])
	}
	r.Need("messages with encoder and decoder", 1)
	r.Need("wire fields", 10)
	w.controls()
	w.reader(names)
	for _, n := range sortedKeys(w.encoder()) {
		if w.types[n] != nil {
			w.info(w.types[n])
		}
	}
	w.lengths()
}

// find finds the messages.
func (w *wire) find() {
	p := w.r.P
	for _, f := range p.funcs {
		if pkgOf(f) != utpPkg || f.Signature.Recv() == nil {
			continue
		}
		n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
		if !ok || !(f.Name() == "ToBinary" || f.Name() == "FromBinary" || f.Name() == "Type" || p.reachesCall(f, pbMarshal)) {
			continue
		}
		name := n.Obj().Name()
		t := w.types[name]
		if t == nil {
			t = &wireType{name: name, t: n, kind: -1, rel: [2]map[*types.Var]map[string]bool{{}, {}}, lists: [2]map[*types.Var]bool{{}, {}}}
			w.types[name] = t
		}
		switch {
		case f.Name() == "FromBinary":
			t.dec = f
		case f.Name() == "Type":
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					if k, ok := constOfSSA(rt.Results[0]); ok {
						t.kind = k
					}
				}
			}
		case f.Name() == "ToBinary" || name == "FixedHeader" && f.Signature.Results().Len() > 0:
			t.enc = f
		}
		for i := 0; i < structOf(n).NumFields(); i++ {
			if fn := structOf(n).Field(i).Name(); name != "FixedHeader" && fn == "FlowControl" {
				t.ctl = true
			}
		}
	}
	w.header = w.types["FixedHeader"]
	for n, t := range w.types {
		if t.enc == nil || t.dec == nil {
			w.r.Violate("s01:no-codec:"+n, "", "%s has no encoder or no decoder", n)
			delete(w.types, n)
			continue
		}
		w.r.Count("messages with encoder and decoder", 1)
	}
	if w.header != nil {
		w.pack = w.header.enc
	}
}

// own: the struct a field belongs to, as package and name.
func (w *wire) own(f *types.Var) (pkg, typ string) {
	o := w.r.P.ownerMap()[f]
	if i := strings.LastIndex(o, "."); i > 0 {
		o = o[:i]
	}
	if i := strings.LastIndex(o, "."); i > 0 {
		return o[:i], o[i+1:]
	}
	return "", o
}

func structFields(t types.Type) []*types.Var {
	var fs []*types.Var
	if st := structOf(deref(t)); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Exported() && !strings.HasPrefix(st.Field(i).Name(), "XXX_") {
				fs = append(fs, st.Field(i))
			}
		}
	}
	return fs
}

// listElem: the struct of a list of pointers to structs (or of structs) of the package.
func listElem(t types.Type, pkg string) *types.Named {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	n, ok := deref(s.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || relPath(n.Obj().Pkg().Path()) != pkg {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func (w *wire) isWireField(in ssa.Instruction) bool {
	var st *types.Struct
	var n int
	switch x := in.(type) {
	case *ssa.FieldAddr:
		st, n = structOf(x.X.Type()), x.Field
	case *ssa.Field:
		st, n = structOf(x.X.Type()), x.Field
	default:
		return false
	}
	f := st.Field(n)
	if f.Pkg() == nil {
		return false
	}
	k := relPath(f.Pkg().Path())
	return (k == utpPkg || k == pbPkg) && f.Exported()
}

// wide: no conversion of the value is to a type of fewer bits.
func wide(v *Val, bits int) bool {
	for ; v != nil && v.op == OConv; v = v.args[0] {
		if b, _ := basicBits(typOr(v)); b != 0 && b < bits {
			return false
		}
	}
	return true
}

// width of a basic type in bits; 0 for others.
func basicBits(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Uint8:
		return 8, true
	case types.Int16:
		return 16, false
	case types.Uint16:
		return 16, true
	case types.Int32:
		return 32, false
	case types.Uint32:
		return 32, true
	case types.Int, types.Int64:
		return 64, false
	case types.Uint, types.Uint64:
		return 64, true
	}
	return 0, false
}

// source: the field a value was taken from, through conversions that lose nothing
// of a value of the own field.
func (w *wire) source(v *Val, own int) (*types.Var, *Val) {
	for v != nil && v.op == OConv {
		if b, _ := basicBits(typOr(v)); b != 0 && own != 0 && b < own {
			return nil, nil
		}
		v = v.args[0]
	}
	switch {
	case v == nil:
	case v.op == OLoad && v.args[0].op == OFAddr:
		return v.args[0].fld, v.args[0].args[0]
	case v.op == OField:
		return v.fld, v.args[0]
	}
	return nil, nil
}

// relate compares the fields of dst (an address) with those of a source struct in pkg.
func (w *wire) relate(c *Ctx, t *wireType, side int, dst *Val, typ types.Type, srcPkg string, base func(*Val) bool, skip func(*types.Var) bool) {
	r := w.r
	for _, f := range structFields(typ) {
		if skip != nil && skip(f) {
			continue
		}
		v := c.E.load(c.St, c.E.faddr(dst, f), f.Type())
		note := func(pb *types.Var, own *types.Var) {
			m := t.rel[side]
			if m[pb] == nil {
				m[pb] = map[string]bool{}
			}
			_, on := w.own(own)
			m[pb][on+"."+own.Name()] = true
		}
		bad := func(why string) {
			what := "encoded"
			if side == 1 {
				what = "decoded"
			}
			c.Report("s01:field:"+t.name+"."+f.Name(), "%s of %s is not "+what+" from one field of it: "+why, f.Name(), t.name)
		}
		srcList := utpPkg
		dstPkg := pbPkg
		if side == 1 {
			srcList, dstPkg = pbPkg, utpPkg
		}
		if listElem(f.Type(), dstPkg) != nil {
			// a list
			if v.op == ONil || v.op == OZero {
				if !c.St.Has("none left") {
					bad("the list is left out")
				}
				continue
			}
			var src *Val
			t.lists[side][f] = true
			ap := v
			if v.op == OPhi && v.step != nil {
				ap = v.step
			}
			if ap.op == OAppend && len(ap.args) == 2 && (ap.args[0] == v || ap.args[0].op == ONil || ap.args[0].op == OZero) {
				src = w.appended[ap.args[1]]
			} else {
				for _, e := range c.St.Find("elems") {
					if e.args[0] == v {
						src = e.args[1]
						if n := stripConv(v.args[0]); v.op != OMake || n.op != OLen || n.args[0] != src {
							bad("the list has another length")
						}
					}
				}
			}
			if src == nil {
				if c.St.Has("none left") {
					continue
				}
				bad("it is not the list of the converted elements")
				continue
			}
			sf, sb := w.source(src, 0)
			if sf == nil || !base(sb) || listElem(sf.Type(), srcList) == nil {
				bad("the list is not taken from the message")
				continue
			}
			r.Count("wire fields", 1)
			if side == 0 {
				note(f, sf)
			} else {
				note(sf, f)
			}
			continue
		}
		ownBits, _ := basicBits(f.Type())
		sf, sb := w.source(v, 0)
		if sf == nil || !base(sb) {
			bad("its value comes from elsewhere")
			continue
		}
		if p, _ := w.own(sf); p != srcPkg {
			bad("its value comes from elsewhere")
			continue
		}
		if side == 0 {
			ownBits, _ = basicBits(sf.Type())
		}
		if x, _ := w.source(v, ownBits); x == nil && ownBits != 64 || ownBits == 64 && !wide(v, 32) {
			bad("it goes through a narrower type")
			continue
		}
		r.Count("wire fields", 1)
		if side == 0 {
			if b, _ := basicBits(f.Type()); b != 0 && b < ownBits && f.Name() != "MessageLength" {
				bad("the type on the wire is narrower")
			}
			note(f, sf)
		} else {
			note(sf, f)
		}
	}
}

// elements adds the rule for the elements of lists.
func (w *wire) elements(h *Hooks, t *wireType, side int) {
	dstPkg, srcPkg := pbPkg, utpPkg
	if side == 1 {
		dstPkg, srcPkg = utpPkg, pbPkg
	}
	elem := func(c *Ctx, e *Val, et types.Type) *Val {
		var src *Val
		if e.op != OAlloc {
			c.Report("s01:element:"+t.name, "an element of a list of %s is not converted", t.name)
			return nil
		}
		if !c.freshInLoop(e) {
			c.Report("s01:element-shared:"+t.name, "the elements of a list of %s share one value", t.name)
		}
		w.relate(c, t, side, e, et, srcPkg, func(b *Val) bool {
			b = stripConv(b)
			if b.op == OLoad && b.args[0].op == OIAddr {
				src = b.args[0].args[0]
				return true
			}
			if b.op == OIAddr {
				src = b.args[0]
				return true
			}
			return false
		}, nil)
		c.St.Add("element")
		return src
	}
	old := h.Call
	h.Call = func(c *CallCtx) {
		if c.Name == "builtin.append" {
			n := listElem(c.Common.Args[0].Type(), dstPkg)
			if n == nil {
				return
			}
			for _, e := range c.varargs(c.Args[1]) {
				src := elem(c.Ctx, e, n)
				if src != nil && len(c.Args) == 2 {
					if o := w.appended[c.Args[1]]; o != nil && o != src {
						c.Report("s01:element:"+t.name, "a list of %s is made of elements of several lists", t.name)
					}
					w.appended[c.Args[1]] = src
					c.St.Add("added", src)
				}
			}
			return
		}
		old(c)
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op != OIAddr || addr.args[0].op == OAlloc {
			return
		}
		st, ok := c.In.(*ssa.Store)
		if !ok {
			return
		}
		n, ok := deref(st.Val.Type()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || relPath(n.Obj().Pkg().Path()) != dstPkg || v.op != OAlloc {
			return
		}
		if src := elem(c, v, n); src != nil {
			c.St.Add("elems", c.E.pair("elems", addr.args[0], src))
		}
	}
	isLoop := func(l *loop, fn *ssa.Function) bool {
		return loopHas(l, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Store:
				_, ia := x.Addr.(*ssa.IndexAddr)
				n, ok := deref(x.Val.Type()).(*types.Named)
				if al, isA := addrBase(x.Addr).(*ssa.Alloc); isA && al.Comment == "varargs" {
					return false
				}
				return ia && ok && n.Obj().Pkg() != nil && relPath(n.Obj().Pkg().Path()) == dstPkg
			}
			return isBuiltin("append", func(ci ssa.CallInstruction) bool { return listElem(ci.Common().Args[0].Type(), dstPkg) != nil })(in)
		})
	}
	exit := h.LoopExit
	h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
		if exit != nil {
			exit(c, l, fn)
		}
		if isLoop(l, fn) {
			c.St.Add("none left")
			v, ph, _ := countsLoop(l)
			if !allOf(l, func(x ssa.Value) bool { return listElem(x.Type(), srcPkg) != nil }) {
				c.Report("s01:loop:"+t.name, "the elements of a list of %s are not all converted", t.name)
			}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && listElem(ia.X.Type(), srcPkg) != nil {
						if i := stripConvSSA(ia.Index); ph == nil || i != v && i != ssa.Value(ph) {
							c.Report("s01:index:"+t.name, "an element of a list of %s is not the one converted in its turn", t.name)
						}
					}
				}
			}
		}
	}
	w.r.eachHooks(h, &each{name: "elements converted", key: "s01:element-skipped:" + t.name, what: "an element of a list can be left out", is: isLoop, done: []string{"element"}})
}

// freshInLoop: a is allocated anew each time the innermost loop comes to the current instruction.
func (c *Ctx) freshInLoop(a *Val) bool {
	if a.site == nil {
		return true
	}
	type at struct {
		ctx *ctxNode
		in  ssa.Instruction
	}
	chain := func(ctx *ctxNode, in ssa.Instruction) (r []at) {
		for ctx != nil && in != nil {
			r = append(r, at{ctx, in})
			in, ctx = ctx.site, ctx.parent
		}
		return
	}
	as := chain(c.E.siteCtx[a], a.site)
	for _, u := range chain(c.fr.ctx, c.In) {
		for _, d := range as {
			if d.ctx != u.ctx {
				continue
			}
			var in *loop
			for _, l := range c.E.P.loopsOf(u.in.Parent()).loops {
				if l.blocks[u.in.Block()] && (in == nil || len(l.blocks) < len(in.blocks)) {
					in = l
				}
			}
			return in == nil || in.blocks[d.in.Block()]
		}
	}
	return true
}

func addrBase(v ssa.Value) ssa.Value {
	if ia, ok := v.(*ssa.IndexAddr); ok {
		return ia.X
	}
	return v
}

func (w *wire) interesting(in ssa.Instruction) bool {
	return callIs(pbMarshal, pbUnmarshal)(in) || w.isWireField(in) || isBuiltin("append", nil)(in)
}

// encodes: the encoder of a message.
func (w *wire) encodes(t *wireType) {
	r := w.r
	recv := func(b *Val) bool { return b.op == OParam || b.op == OLoad && b.args[0].op == OParam }
	h := &Hooks{Interesting: anyOf(w.interesting, callIs("bytes.Buffer.Write", fname(w.pack)))}
	var ord order
	h.Assume = ord.assume
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == pbMarshal:
			m := c.Args[0]
			r.Count("encodings", 1)
			w.relate(c.Ctx, t, 0, m, elemType(m), utpPkg, recv, nil)
			c.Opaque()
			c.derived("raw", func(s *State) { s.Add("encoded") }, func(s *State) { s.Add("failed") })
		case c.Callee != nil && c.Callee == w.pack && t != w.header:
			c.Opaque()
			a := c.Args[0]
			get := func(n string) *Val { return stripConv(c.E.load(c.St, c.E.faddr(a, w.hdr[n]), w.hdr[n].Type())) }
			if a.op != OAlloc && a.op != OParam {
				get = func(n string) *Val { return stripConv(c.E.fieldOf(a, w.hdr[n])) }
			}
			c.SetResult(c.E.pair("head", get("MessageType"), get("FlowControl"), get("MessageLength")))
		case c.Name == "bytes.Buffer.Write" || c.Name == "bytes.Buffer.WriteString":
			c.Opaque()
			c.St.Add("wrote", c.E.pair("wrote", c.Args[0], c.Args[1]))
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case c.Callee != nil && fname(c.Callee) == utpPkg+".encodeLength":
			c.Opaque()
			c.SetResult(c.E.pair("size", stripConv(c.Args[0])))
		case c.Callee != nil && pkgOf(c.Callee) == pbPkg:
			c.Opaque()
			c.handled = true
		}
	}
	w.elements(h, t, 0)
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("failed") || !c.mayBeSuccess(fn, res) {
			return
		}
		if !c.St.Has("encoded") {
			c.Report("s01:not-encoded:"+t.name, "%s can be written without its fields", t.name)
			return
		}
		head := findPair(res[0], "head")
		var body, size *Val
		n := 0
		for _, x := range c.St.Find("wrote") {
			if x.args[1].op == OComp && x.args[1].aux == "pair:size" {
				size = x.args[1].args[0]
				continue
			}
			n++
			body = findPair(x.args[1], "raw")
		}
		if body == nil || n != 1 {
			c.Report("s01:body:"+t.name, "what is written for %s is not its encoded fields", t.name)
			return
		}
		if t == w.header {
			if size == nil || size.op != OLen || findPair(size.args[0], "raw") != body {
				c.Report("s01:header-size", "a header is not preceded by its length")
			}
			return
		}
		if head == nil {
			return
		}
		t.headed = true
		r.Count("headers written", 1)
		mt, fc, ln := head.args[0], head.args[1], head.args[2]
		if !(ln.op == OLen && findPair(ln.args[0], "raw") == body) {
			if !(t.ctl && isInt(0)(ln) && isInt(0)(fc) && isInt(0)(mt)) {
				c.Report("s01:length:"+t.name, "the header of %s does not carry the length of its body", t.name)
			}
		}
		if !t.ctl {
			if !isInt(t.kind)(mt) {
				c.Report("s01:type:"+t.name, "the header of %s carries the type of another message", t.name)
			}
			if !isInt(0)(fc) {
				c.Report("s01:direction:"+t.name, "the header of %s marks it as a control message", t.name)
			}
			return
		}
		k := ctlKind{-1, -1, -1}
		known := func(name string) int64 {
			for _, e := range c.St.Find("eq") {
				for i := 0; i < 2; i++ {
					if f, b := w.source(e.args[i], 0); f != nil && f.Name() == name && recv(b) {
						if n, ok := e.args[1-i].constInt(); ok {
							return n
						}
					}
				}
			}
			return -1
		}
		isOwn := func(v *Val, name string) bool {
			f, b := w.source(v, 0)
			return f != nil && f.Name() == name && recv(b)
		}
		if isOwn(mt, "MessageType") && isOwn(fc, "FlowControl") {
			w.all = true
			return
		}
		k.mt, k.fc = known("MessageType"), known("FlowControl")
		k.head, _ = mt.constInt()
		f, isC := fc.constInt()
		if isC && f == 0 && isInt(0)(mt) {
			return // not a combination that is known
		}
		if isOwn(mt, "MessageType") {
			k.head = -2
		}
		if !(isOwn(fc, "FlowControl") || isC && f == k.fc) {
			c.Report("s01:ctl-direction", "the header of a control message does not carry its direction")
		}
		if k.head != -2 && k.mt >= 0 && k.head != k.mt {
			c.Report("s01:ctl-type", "the header of a control message does not carry its kind")
		}
		w.kinds = append(w.kinds, k)
	}
	r.Explore(h, t.enc)
}

// decodes: the decoder of a message.
func (w *wire) decodes(t *wireType) {
	r := w.r
	h := &Hooks{Interesting: w.interesting}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == pbUnmarshal:
			m := c.Args[1]
			r.Count("decodings", 1)
			c.Opaque()
			data := c.Args[0]
			if t != w.header && !(data.op == OParam) {
				c.Report("s01:data:"+t.name, "%s is decoded from something else than what was read", t.name)
			}
			if m.op != OAlloc {
				c.Report("s01:into:"+t.name, "%s is decoded into something that is not new", t.name)
				return
			}
			c.E.store(c.St, m, c.E.in.mk(Val{op: OFresh, aux: "message", typ: elemType(m)}))
			c.ForkErr(func(s *State) { s.Add("decoded") }, func(s *State) { s.Add("decoded"); s.Add("malformed") })
		case c.Callee != nil && pkgOf(c.Callee) == pbPkg && strings.HasPrefix(c.Callee.Name(), "Get"):
			// a getter reads its field
			for _, f := range structFields(deref(c.Callee.Signature.Recv().Type())) {
				if "Get"+f.Name() == c.Callee.Name() {
					c.Opaque()
					if m := c.Args[0]; m.op == OAlloc {
						c.SetResult(c.E.load(c.St, c.E.faddr(m, f), f.Type()))
					} else {
						c.SetResult(c.E.load(c.St, c.E.faddr(m, f), f.Type()))
					}
				}
			}
		case c.Callee != nil && pkgOf(c.Callee) == utpPkg && c.Callee.Name() == "decodeLength", c.Name == "io.ReadFull":
			c.Opaque()
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case c.Callee != nil && pkgOf(c.Callee) == pbPkg:
			c.Opaque()
			c.handled = true
		}
	}
	w.elements(h, t, 1)
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("failed") || !c.mayBeSuccess(fn, res) {
			return
		}
		if !c.St.Has("decoded") {
			c.Report("s01:not-decoded:"+t.name, "%s can be accepted without being decoded", t.name)
			return
		}
		if c.St.Has("malformed") && (t == w.header || c.St.Has("returned")) {
			return
		}
		if c.St.Has("malformed") {
			return
		}
		recv := c.E.eval(c.fr, fn.Params[0])
		isMsg := func(b *Val) bool { return b.op == OFresh && b.aux == "message" }
		// fields that are not on the wire
		skip := func(f *types.Var) bool {
			if t.ctl {
				switch f.Name() {
				case "MessageType", "FlowControl":
					v := c.E.load(c.St, c.E.faddr(recv, f), f.Type())
					sf, b := w.source(v, 0)
					if sf != w.hdr[f.Name()] || b.op != OParam && !(b.op == OLoad && b.args[0].op == OParam) && b.op != OAlloc {
						c.Report("s01:ctl:"+f.Name(), "%s of a control message is not the one in the header", f.Name())
					}
					return true
				}
			}
			v := c.E.load(c.St, c.E.faddr(recv, f), f.Type())
			sf, b := w.source(v, 0)
			return sf == f && b == recv && !w.encoded(t, f)
		}
		w.relate(c, t, 1, recv, t.t, pbPkg, isMsg, skip)
	}
	r.Explore(h, t.dec)
}

// encoded: the encoder puts the field on the wire.
func (w *wire) encoded(t *wireType, f *types.Var) bool {
	_, on := w.own(f)
	for _, m := range t.rel[0] {
		if m[on+"."+f.Name()] {
			return true
		}
	}
	return false
}

// agree: encoder and decoder are inverse.
func (w *wire) agree(t *wireType) {
	r := w.r
	back := map[string]*types.Var{}
	for pb, own := range t.rel[0] {
		if len(own) != 1 {
			r.Violate("s01:ambiguous:"+t.name+"."+pb.Name(), "", "%s of %s is encoded from different fields on different paths", pb.Name(), t.name)
		}
		for o := range own {
			if q := back[o]; q != nil && q != pb {
				r.Violate("s01:twice:"+t.name+"."+o, "", "%s of %s is written to two fields", o, t.name)
			}
			back[o] = pb
			d := t.rel[1][pb]
			if len(d) != 1 || !d[o] {
				r.Violate("s01:mismatch:"+t.name+"."+pb.Name(), "", "%s of %s is encoded from %s and decoded into %s", pb.Name(), t.name, o, strings.Join(sortedKeys(d), ", "))
			} else {
				r.Count("fields restored", 1)
				r.Sample("%s: %s <-> %s", t.name, o, pb.Name())
			}
		}
	}
	for pb := range t.lists[0] {
		if t.rel[0][pb] == nil {
			r.Violate("s01:list:"+t.name+"."+pb.Name(), "", "%s of %s is not made of the elements of a list of it", pb.Name(), t.name)
		}
	}
	for pb := range t.rel[1] {
		if t.rel[0][pb] == nil {
			r.Violate("s01:mismatch:"+t.name+"."+pb.Name(), "", "%s of %s is decoded but not encoded", pb.Name(), t.name)
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// controls: every kind of control message that is sent has a header.
func (w *wire) controls() {
	r := w.r
	var ctl *wireType
	for _, t := range w.types {
		if t.ctl {
			ctl = t
		}
	}
	if ctl == nil {
		r.Violate("anchor:control messages", "", "no control message found")
		return
	}
	for _, f := range r.P.funcs {
		if pkgOf(f) == utpPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || deref(al.Type()) != types.Type(ctl.t) {
					continue
				}
				k := ctlKind{-1, -1, -1}
				n := 0
				for _, rf := range *al.Referrers() {
					fa, ok := rf.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, st := range *fa.Referrers() {
						if s, ok := st.(*ssa.Store); ok && s.Addr == fa {
							v, isC := constOfSSA(s.Val)
							if !isC {
								continue
							}
							switch structOf(al.Type()).Field(fa.Field).Name() {
							case "MessageType":
								k.mt = v
								n++
							case "FlowControl":
								k.fc = v
								n++
							}
						}
					}
				}
				if n == 0 {
					continue
				}
				r.Count("control messages made", 1)
				if w.all {
					continue
				}
				good := false
				for _, o := range w.kinds {
					if o.fc == k.fc && (o.mt == k.mt || o.mt == -1) && (o.head == k.mt || o.head == -2) {
						good = true
					}
				}
				if !good {
					r.Violate("s01:no-header:"+fname(f), r.P.instrPos(in), "a control message of this kind and direction is sent with a header that does not say so")
				}
			}
		}
	}
	r.Need("control messages made", 1)
}

// reader: messages are decoded by the type in the header.
func (w *wire) reader(names []string) {
	r := w.r
	f := r.Fn("server/internal/net.Read")
	if f == nil {
		return
	}
	var ord order
	h := &Hooks{Interesting: anyOf(w.isWireField, makesPack, callIs(fname(w.header.dec), "io.CopyN", "io.ReadFull", "bytes.Buffer.Bytes"))}
	h.Assume = ord.assume
	mtOf := func(v *Val) bool {
		f, b := w.source(v, 0)
		return f == w.hdr["MessageType"] && (b.op == OFresh && b.aux == "header")
	}
	fcOf := func(v *Val) bool {
		f, b := w.source(v, 0)
		return f == w.hdr["FlowControl"] && (b.op == OFresh && b.aux == "header")
	}
	lnOf := func(v *Val) bool {
		f, b := w.source(v, 32)
		return f == w.hdr["MessageLength"] && (b.op == OFresh && b.aux == "header")
	}
	seen := map[int64]bool{}
	ctl := false
	h.Call = func(c *CallCtx) {
		name := c.Name
		if c.Common.IsInvoke() && c.Common.Method.Name() == "FromBinary" {
			name = "FromBinary"
		} else if c.Callee != nil && c.Callee.Name() == "FromBinary" && c.Callee != w.header.dec {
			name = "FromBinary"
		}
		switch {
		case c.Callee != nil && c.Callee == w.header.dec:
			c.Opaque()
			a := c.Args[0]
			c.E.store(c.St, a, c.E.in.mk(Val{op: OFresh, aux: "header", typ: elemType(a)}))
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case name == "io.CopyN":
			c.Opaque()
			if lnOf(c.Args[2]) {
				c.St.Add("copied", c.Args[0])
			}
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case name == "bytes.Buffer.Bytes":
			c.Opaque()
			if c.St.HasV("copied", c.Args[0]) {
				c.SetResult(c.E.pair("body", c.Args[0]))
			}
		case name == "io.ReadFull" || name == "io.ReadAtLeast":
			c.Opaque()
			b := c.Args[1]
			if b.op == OMake && len(b.args) > 0 && lnOf(b.args[0]) {
				c.St.Add("read", b)
			}
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		case name == "FromBinary":
			c.Opaque()
			c.handled = true
			data := c.Args[len(c.Args)-1]
			if !(data.op == OComp && data.aux == "pair:body") && !c.St.HasV("read", data) {
				c.Report("s01:read-body", "a message is decoded from something else than the body that follows its header")
			}
			if a := c.Args[len(c.Args)-2]; !(a.op == OFresh && a.aux == "header") {
				c.Report("s01:read-header", "a message is decoded with another header")
			}
			c.St.Add("decoded", c.Args[0])
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("failed") || !c.mayBeSuccess(fn, res) {
			return
		}
		r.Count("messages read", 1)
		m := res[0]
		if m.op != OAlloc {
			c.Report("s01:read-what", "a message that is read is not a new message")
			return
		}
		n, ok := deref(typOr(m)).(*types.Named)
		if !ok || w.types[n.Obj().Name()] == nil || relPath(n.Obj().Pkg().Path()) != utpPkg {
			c.Report("s01:read-what", "a message that is read is not a message of the protocol")
			return
		}
		t := w.types[n.Obj().Name()]
		if !c.St.HasV("decoded", m) {
			c.Report("s01:read-undecoded:"+t.name, "%s is read without its body", t.name)
		}
		none := ord.has(c.St, "eq", fcOf, isInt(0)) || ord.has(c.St, "eq", isInt(0), fcOf) || ord.has(c.St, "ge", isInt(0), fcOf) || ord.has(c.St, "lt", fcOf, isInt(1))
		some := ord.has(c.St, "ne", fcOf, isInt(0)) || ord.has(c.St, "ne", isInt(0), fcOf) || ord.has(c.St, "lt", isInt(0), fcOf) || ord.has(c.St, "ge", fcOf, isInt(1))
		if t.ctl {
			if !some {
				c.Report("s01:read-ctl", "a message that is not a control message can be read as one")
			}
			ctl = true
			return
		}
		if !none {
			c.Report("s01:read-not-ctl:"+t.name, "a control message can be read as %s", t.name)
		}
		if !(ord.has(c.St, "eq", mtOf, isInt(t.kind)) || ord.has(c.St, "eq", isInt(t.kind), mtOf)) {
			c.Report("s01:read-type:"+t.name, "%s is read for a header of another type", t.name)
		}
		seen[t.kind] = true
	}
	r.Explore(h, f)
	if !ctl {
		r.Violate("s01:not-read:ControlMessage", "", "control messages are not read")
	}
	for _, n := range names {
		if t := w.types[n]; t.headed && !t.ctl && !seen[t.kind] {
			r.Violate("s01:not-read:"+n, r.P.pos(f.Pos()), "%s can be written but is not read", n)
		}
	}
	r.Need("messages read", 1)
}

// encoder: the encoder is the one of the message.
func (w *wire) encoder() (out map[string]bool) {
	r := w.r
	out = map[string]bool{}
	f := r.Fn("server/internal/net.Encode")
	if f == nil {
		return out
	}
	var ord order
	enc := map[string]bool{}
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Name() == "ToBinary")
	}}
	h.Assume = ord.assume
	h.Call = func(c *CallCtx) {
		name := ""
		if c.Common.IsInvoke() {
			name = c.Common.Method.Name()
		} else if c.Callee != nil {
			name = c.Callee.Name()
		}
		switch name {
		case "Type":
			c.Opaque()
			c.SetResult(c.E.pair("type", c.Args[0]))
		case "ToBinary":
			c.Opaque()
			c.St.Add("encoded")
			if c.Common.IsInvoke() {
				enc["*"] = true
			} else if n, ok := deref(c.Callee.Signature.Recv().Type()).(*types.Named); ok {
				t := w.types[n.Obj().Name()]
				isT := func(v *Val) bool { return findPair(v, "type") != nil }
				if t != nil && (ord.has(c.St, "eq", isT, isInt(t.kind)) || ord.has(c.St, "eq", isInt(t.kind), isT)) {
					enc[t.name] = true
				} else if t != nil && !c.St.Has("eq") {
					enc[t.name] = true // chosen by a type switch
				} else if t != nil {
					c.Report("s01:encode-type:"+t.name, "%s is encoded for a message of another type", t.name)
				}
			}
			c.derived("bytes", nil, func(s *State) { s.Add("failed") })
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if c.St.Has("failed") || !c.mayBeSuccess(fn, res) {
			return
		}
		r.Count("messages encoded", 1)
		if !c.St.Has("encoded") || findPair(res[0], "bytes") == nil {
			c.Report("s01:encode-nothing", "a message can be encoded as nothing")
		}
	}
	r.Explore(h, f)
	seen := map[ssa.Value]bool{}
	for _, g := range r.P.funcs {
		if k := pkgOf(g); !strings.HasPrefix(k, "server/internal") || g == f {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || qualType(mi.Type()) != "server/internal/net.MessagePack" || !w.sent(mi, f, seen, 0) {
					continue
				}
				if n, ok := deref(mi.X.Type()).(*types.Named); ok {
					r.Count("messages sent", 1)
					out[n.Obj().Name()] = true
					if w.types[n.Obj().Name()] != nil && !enc["*"] && !enc[n.Obj().Name()] {
						r.Violate("s01:not-encoded:"+n.Obj().Name(), r.P.instrPos(in), "%s is sent but cannot be encoded", n.Obj().Name())
					}
				}
			}
		}
	}
	r.Need("messages sent", 1)
	return out
}

// lengths: groups of bits of a length.
func (w *wire) lengths() {
	r := w.r
	p := r.P
	enc, dec := p.fn(utpPkg+".encodeLength"), p.fn(utpPkg+".decodeLength")
	if enc == nil || dec == nil {
		return // the length is written in another way
	}
	if p.reachesCall(enc, "encoding/binary.PutUvarint") || p.reachesCall(enc, "encoding/binary.AppendUvarint") {
		if !p.reachesCall(dec, "encoding/binary.ReadUvarint") && !p.reachesCall(dec, "encoding/binary.Uvarint") {
			r.Violate("s01:length-code", p.pos(dec.Pos()), "a length is not read as it is written")
		}
		return
	}
	type code struct{ group, flag int64 }
	var e, d code
	set := func(f *ssa.Function, v *int64, n int64, what string) {
		if *v != 0 && *v != n {
			r.Violate("s01:length-code:"+f.Name(), p.pos(f.Pos()), "%s uses different %s", fname(f), what)
		}
		*v = n
	}
	konst := func(x *ssa.BinOp) (int64, bool) {
		if k, ok := constOfSSA(x.Y); ok {
			return k, true
		}
		if x.Op == token.AND || x.Op == token.OR || x.Op == token.MUL || x.Op == token.ADD {
			return constOfSSA(x.X)
		}
		return 0, false
	}
	each := func(f *ssa.Function, g func(x *ssa.BinOp)) {
		fs := []*ssa.Function{f}
		for q := range p.reach(f) {
			if q != f && pkgOf(q) == utpPkg {
				fs = append(fs, q)
			}
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.BinOp); ok {
						g(x)
					}
				}
			}
		}
	}
	each(enc, func(x *ssa.BinOp) {
		k, ok := konst(x)
		if !ok {
			return
		}
		switch x.Op {
		case token.REM, token.QUO:
			set(enc, &e.group, k, "groups")
		case token.AND:
			set(enc, &e.group, k+1, "groups")
		case token.SHR:
			set(enc, &e.group, 1<<uint(k), "groups")
		case token.OR:
			set(enc, &e.flag, k, "flags")
		case token.ADD:
			if k >= 64 {
				set(enc, &e.flag, k, "flags")
			}
		}
	})
	each(dec, func(x *ssa.BinOp) {
		k, ok := konst(x)
		if !ok {
			return
		}
		switch x.Op {
		case token.AND:
			tested := false
			for _, rf := range *x.Referrers() {
				if o, ok := rf.(*ssa.BinOp); ok && (o.Op == token.EQL || o.Op == token.NEQ) {
					tested = true
				}
			}
			if tested {
				set(dec, &d.flag, k, "flags")
			} else {
				set(dec, &d.group, k+1, "groups")
			}
		case token.ADD:
			if _, ok := x.X.(*ssa.Phi); ok {
				set(dec, &d.group, 1<<uint(k), "groups")
			}
		case token.GEQ, token.LSS:
			if k == 128 {
				set(dec, &d.flag, 128, "flags")
			}
		case token.MUL:
			set(dec, &d.group, k, "groups")
		}
	})
	r.Count("length codes", 1)
	if e != d || e.group != e.flag || e.group == 0 {
		r.Violate("s01:length-code", p.pos(dec.Pos()), "a length is written in groups of %d with flag %d and read in groups of %d with flag %d", e.group, e.flag, d.group, d.flag)
	}
	// the flag is set exactly when a group follows
	base := func(x *Val) *Val {
		for x.op == OConv || x.op == OBin && (x.aux == "|" || x.aux == "+") {
			x = x.args[0]
		}
		return x
	}
	h := &Hooks{}
	var ord order
	h.Assume = ord.assume
	h.Call = func(c *CallCtx) {
		if c.Name == "builtin.append" {
			for _, v := range c.varargs(c.Args[1]) {
				flag := v.contains(func(x *Val) bool {
					return x.op == OBin && (x.aux == "|" || x.aux == "+") && (isInt(e.flag)(x.args[0]) || isInt(e.flag)(x.args[1]))
				})
				more := false
				rest := func(x *Val) bool { return x.op == OBin && (x.aux == "/" || x.aux == ">>") }
				if ord.has(c.St, "lt", isInt(0), rest) || ord.has(c.St, "ne", rest, isInt(0)) || ord.has(c.St, "ne", isInt(0), rest) || ord.has(c.St, "ge", rest, isInt(1)) {
					more = true
				}
				low := func(x *Val) bool { return base(x) == base(v) }
				if ord.has(c.St, "ge", low, isInt(e.flag)) {
					more = true
				}
				if flag != more {
					c.Report("s01:length-flag", "a group of a length is not marked as followed by another exactly when it is")
				}
				r.Count("length groups", 1)
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		for _, k := range []string{"eq", "ne", "lt", "ge"} {
			c.St.Del(k)
		}
	}
	r.Explore(h, enc)
}

// sent: the message reaches a channel or the encoder.
func (w *wire) sent(v ssa.Value, enc *ssa.Function, seen map[ssa.Value]bool, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, rf := range *v.Referrers() {
		switch x := rf.(type) {
		case *ssa.Send:
			if x.X == v {
				return true
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Send == v {
					return true
				}
			}
		case *ssa.Phi:
			if !seen[x] {
				seen[x] = true
				ok := w.sent(x, enc, seen, depth+1)
				delete(seen, x)
				if ok {
					return true
				}
			}
		case *ssa.ChangeInterface:
			if w.sent(x, enc, seen, depth+1) {
				return true
			}
		case ssa.CallInstruction:
			g := x.Common().StaticCallee()
			if g == nil {
				continue
			}
			if _, par := v.(*ssa.Parameter); g == enc && !par {
				return true
			}
			for i, a := range x.Common().Args {
				if a == v && i < len(g.Params) && strings.HasPrefix(pkgOf(g), "server/") && w.sent(g.Params[i], enc, seen, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// makesPack: a message becomes a message of any type.
func makesPack(in ssa.Instruction) bool {
	mi, ok := in.(*ssa.MakeInterface)
	return ok && qualType(mi.Type()) == "server/internal/net.MessagePack"
}

// info: a message is known under its own ID and delivery mode.
func (w *wire) info(t *wireType) {
	r := w.r
	f := r.P.fn(utpPkg + "." + t.name + ".Info")
	if f == nil || t.name == "FixedHeader" {
		return
	}
	h := &Hooks{Interesting: w.isWireField}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		for _, n := range []string{"MessageID", "DeliveryMode"} {
			var own, in *types.Var
			for _, g := range structFields(t.t) {
				if g.Name() == n {
					own = g
				}
			}
			for _, g := range structFields(fn.Signature.Results().At(0).Type()) {
				if g.Name() == n {
					in = g
				}
			}
			if own == nil || in == nil {
				continue
			}
			r.Count("parts of infos", 1)
			if sf, b := w.source(c.E.fieldOf(res[0], in), 0); sf != own || b.op != OParam && !(b.op == OLoad && b.args[0].op == OParam) {
				c.Report("s01:info:"+t.name+"."+n, "the "+n+" by which %s is known is not its own", t.name)
			}
		}
	}
	r.Explore(h, f)
}
