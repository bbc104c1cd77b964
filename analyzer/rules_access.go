package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S02"] = checkS02
}

const (
	srvPkg = "server/internal"
	secPkg = "server/internal/message/security"
	uidPkg = "server/internal/pkg/uid"
	stPkg  = "server/internal/store"
)

// vetting: what a request handler has established about a topic.
type vetting struct {
	r                         *Run
	key, topic, size, kind    *types.Var // of security.Topic
	clientID, insecure        *types.Var // of _Conn
	read, write, invalid      int64
	sinks                     map[string]int64 // permission needed
	seen                      map[ssa.Instruction]bool
	parse, decode, valid, con string
}

func checkS02(r *Run) {
	r.Rule("a message is stored or published, a topic subscribed, unsubscribed or its history read, only on paths on which the topic was parsed and is valid, its key was decoded, grants the permission the request needs and is valid for the contract of the client and that very topic, unless the client connected without keys; a wildcard key does not publish")
	r.Rule("a request that is refused for any of these reasons is reported to the client or ends the connection, and nothing else is done for it")
	r.Rule("a key grants a permission only when all its bits are set; it is valid for a topic only if it holds the hash of that topic, or of all topics, made with the contract; it is a wildcard key unless its strict bit is set")
	r.Rule("keys are made for the contract of the client, client IDs only for a primary client from its own; a connection gets a client ID only from an ID that was decoded or is known")
	a := &vetting{r: r, seen: map[ssa.Instruction]bool{}}
	a.key, a.topic, a.size, a.kind = r.Field(secPkg, "Topic", "Key"), r.Field(secPkg, "Topic", "Topic"), r.Field(secPkg, "Topic", "Size"), r.Field(secPkg, "Topic", "TopicType")
	a.clientID, a.insecure = r.Field(srvPkg, "_Conn", "clientID"), r.Field(srvPkg, "_Conn", "insecure")
	if a.key == nil || a.topic == nil || a.size == nil || a.kind == nil || a.clientID == nil || a.insecure == nil {
		return
	}
	for _, k := range []struct {
		n string
		v *int64
	}{{"AllowRead", &a.read}, {"AllowWrite", &a.write}, {"TopicInvalid", &a.invalid}} {
		v, ok := r.P.pkgConst(secPkg, k.n)
		if !ok {
			r.Violate("anchor:"+k.n, "", "constant %s not found", k.n)
			return
		}
		*k.v = v
	}
	a.parse, a.decode, a.valid, a.con = secPkg+".ParseKey", secPkg+".DecodeKey", secPkg+".Key.ValidateTopic", uidPkg+".ID.Contract"
	a.sinks = map[string]int64{stPkg + ".MessageStore.Put": a.write, srvPkg + "._Conn.publish": a.write,
		stPkg + ".MessageStore.Get": a.read, srvPkg + "._Conn.subscribe": a.read, srvPkg + "._Conn.unsubscribe": a.read}
	a.handler()
	a.validate()
}

// ofTopic: the topic v is the text of (whole or without options).
func (a *vetting) ofTopic(v *Val, cut bool) *Val {
	if v.op == OSlice {
		if lo := v.args[1]; lo != nil && !isInt(0)(lo) || len(v.args) > 3 && v.args[3] != nil {
			return nil
		}
		t := a.ofTopic(v.args[0], false)
		if t == nil || v.args[2] != nil && !(isFieldVal(v.args[2], a.size) && fieldBase(v.args[2]) == t) {
			return nil
		}
		return t
	}
	if isFieldVal(v, a.topic) {
		return fieldBase(v)
	}
	return nil
}

// contract: the contract of the client of the connection.
func (a *vetting) contract(v *Val) bool {
	v = stripConv(v)
	return v.op == OComp && v.aux == "pair:contract" && isFieldVal(v.args[0], a.clientID)
}

// keyOf: the topic whose key was decoded into v.
func (a *vetting) keyOf(v *Val) *Val {
	k := findPair(v, "key")
	if k == nil || len(k.args) != 1 || !isFieldVal(k.args[0], a.key) {
		return nil
	}
	return fieldBase(k.args[0])
}

func (a *vetting) handler() {
	r := a.r
	f := r.Fn(srvPkg + "._Conn.handler")
	if f == nil {
		return
	}
	known := []string{a.parse, a.decode, a.valid, a.con, secPkg + ".Key.Permissions"}
	quiet := []string{srvPkg + "._Conn.sendPack", srvPkg + "._Conn.SendMessage", srvPkg + "._Conn.newBatchManager", srvPkg + "._Conn.resume", srvPkg + "._Conn.storeInbound", srvPkg + "._Conn.storeOutbound", srvPkg + "._Conn.sendClientID",
		srvPkg + "._Conn.clientDisconnect", stPkg + ".SessionStore.Get", stPkg + ".SessionStore.Put", stPkg + ".MessageLog.Reset", stPkg + ".MessageLog.Get", stPkg + ".MessageLog.Delete"}
	ids := []string{uidPkg + ".Decode", uidPkg + ".CachedClientID", uidPkg + ".NewClientID", uidPkg + ".NewSecondaryClientID", uidPkg + ".ID.IsPrimary", uidPkg + ".ID.Encode", secPkg + ".GenerateKey", "sync.Map.Load", "sync.Map.LoadOrStore"}
	is := callIs(append(append(append([]string{srvPkg + "._Conn.notifyError"}, known...), quiet...), ids...)...)
	isSink := map[string]bool{}
	for n := range a.sinks {
		isSink[n] = true
	}
	used := fieldUse(a.key, a.topic, a.size, a.kind, a.clientID, a.insecure)
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok && isSink[staticName(ci.Common())] || is(in) {
			return true
		}
		return used(in)
	}}
	silent := opaque(quiet...)
	h.Call = func(c *CallCtx) {
		e := c.E
		switch c.Name {
		case a.parse:
			c.Opaque()
			c.handled = true
			r.Count("topics parsed", 1)
		case a.decode:
			c.Opaque()
			c.derived("key", nil, func(s *State) { s.Add("refused") })
		case a.con:
			c.Opaque()
			c.derived("contract", nil, nil)
		case secPkg + ".Key.Permissions":
			c.Opaque()
			c.SetResult(e.pair("perms", c.Args...))
		case a.valid:
			c.Opaque()
			r.Count("topics validated", 1)
			t := a.keyOf(c.Args[0])
			good := t != nil && a.contract(c.Args[1]) && a.ofTopic(c.Args[2], true) == t
			if !good {
				c.Report("s02:validated-other", "a key is validated for something else than the contract of the client and the topic it came with")
			}
			ok, wild := e.ext(c.Res, 0, types.Typ[types.Bool]), e.ext(c.Res, 1, types.Typ[types.Bool])
			c.Fork(func(s *State) {
				e.setFact(s, ok, e.vTrue)
				e.setFact(s, wild, e.vFalse)
				if good {
					s.Add("valid", t)
					s.Add("strict", t)
				}
			})
			c.Fork(func(s *State) {
				e.setFact(s, ok, e.vTrue)
				e.setFact(s, wild, e.vTrue)
				if good {
					s.Add("valid", t)
				}
			})
			for _, w := range []*Val{e.vTrue, e.vFalse} {
				w := w
				c.Fork(func(s *State) {
					e.setFact(s, ok, e.vFalse)
					e.setFact(s, wild, w)
					s.Add("refused")
				})
			}
		case srvPkg + "._Conn.notifyError":
			c.Opaque()
			c.handled = true
			c.St.Del("refused")
		case uidPkg + ".NewSecondaryClientID":
			c.Opaque()
			r.Count("client IDs issued", 1)
			if !c.St.Has("primary") {
				c.Report("s02:client-id-not-primary", "a client ID is issued to a client that is not a primary one")
			}
			if !isFieldVal(c.Args[0], a.clientID) {
				c.Report("s02:client-id-of-other", "the client ID issued is not made from the client's own")
			}
			c.ForkErr(nil, nil)
		case uidPkg + ".ID.IsPrimary":
			c.Opaque()
			c.SetResult(e.pair("primary", c.Args...))
		case secPkg + ".GenerateKey":
			c.Opaque()
			r.Count("keys issued", 1)
			if !a.contract(c.Args[0]) {
				c.Report("s02:key-of-other", "a key is made for another contract than the client's")
			}
			c.ForkErr(nil, nil)
		case uidPkg + ".Decode":
			c.Opaque()
			c.derived("decoded", nil, nil)
		case uidPkg + ".CachedClientID":
			c.Opaque()
			if k := findPair(c.Args[0], "known"); k == nil || !c.St.HasV("found", k) {
				c.Report("s02:unknown-client", "a client ID is taken for a known one without having been found")
			}
			c.derived("cached", nil, nil)
		case uidPkg + ".NewClientID":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "sync.Map.Load":
			c.Opaque()
			v := e.pair("known", c.Args...)
			res := e.tuple([]*Val{v, c.E.ext(c.Res, 1, types.Typ[types.Bool])})
			c.SetResult(res)
			c.Fork(func(s *State) { e.setFact(s, e.ext(res, 1, nil), e.vTrue); s.Add("found", v) })
			c.Fork(func(s *State) { e.setFact(s, e.ext(res, 1, nil), e.vFalse) })
		case "sync.Map.LoadOrStore":
			c.Opaque()
			c.handled = true
			// only what was decoded becomes known
			id := findPair(c.Args[1], "encoded")
			con := stripIfaceVal(c.Args[2])
			d := func(v *Val) bool { return findPair(v, "decoded") != nil }
			if !(id != nil && d(id) || c.St.Has("decoded-ok")) || !(con.op == OComp && con.aux == "pair:contract" && d(con)) {
				c.Report("s02:known-undecoded", "a client ID becomes known without having been decoded, or with another contract")
			}
		case uidPkg + ".ID.Encode":
			c.Opaque()
			c.SetResult(e.pair("encoded", c.Args...))
		default:
			if isSink[c.Name] {
				c.Opaque()
				c.handled = true
				a.sink(c)
				if c.ErrRes() != nil && !c.IsGo {
					c.ForkErr(nil, func(s *State) { s.Add("refused") })
				}
				return
			}
			if silent(c) {
				c.handled = true
				if c.ErrRes() != nil && !c.IsGo {
					c.ForkErr(nil, nil)
				}
			}
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if isFieldVal(cond, a.insecure) && truth {
			c.St.Add("insecure")
		}
		if k, v := constCmp(cond); v != nil && isFieldVal(v, a.kind) {
			if (k == a.invalid) == truth {
				c.St.Add("refused")
			} else if k == a.invalid {
				c.St.Add("parsed", fieldBase(v))
			}
		}
		if cond.op == OComp && cond.aux == "pair:primary" && truth && isFieldVal(cond.args[0], a.clientID) {
			c.St.Add("primary")
		}
		a.granted(c, cond, truth)
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == a.clientID {
			r.Count("clients connected", 1)
			if d, k := findPair(v, "decoded"), findPair(v, "cached"); d == nil && k == nil {
				c.Report("s02:connected-without-id", "a connection gets a client ID that was neither decoded nor known")
			}
		}
	}
	refusedAt := func(c *Ctx, what string) {
		if c.St.Has("refused") {
			c.Report("s02:refused-silently:"+what, "a request that was refused is neither reported to the client nor ends the connection")
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if fn == f {
			refusedAt(c, "loop")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("request exits", 1)
		if c.mayBeSuccess(fn, res) {
			refusedAt(c, "exit")
		}
	}
	r.Explore(h, f)
	r.Need("topics parsed", 1)
	r.Need("topics validated", 1)
	r.Need("permission checks", 1)
	r.Need("requests vetted", 2)
	r.Need("clients connected", 1)
	// nothing else serves requests
	for _, g := range r.P.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if ok && isSink[staticName(ci.Common())] && !a.seen[in] && strings.HasPrefix(pkgOf(g), srvPkg) {
					r.Violate("s02:unvetted:"+fname(g), r.P.instrPos(in), "%s is reached without going through the request handler's checks", staticName(ci.Common()))
				}
			}
		}
	}
}

// constCmp: cond is v == k.
func constCmp(cond *Val) (int64, *Val) {
	if cond.op == OBin && cond.aux == "==" {
		if k, ok := cond.args[1].constInt(); ok {
			return k, cond.args[0]
		}
		if k, ok := cond.args[0].constInt(); ok {
			return k, cond.args[1]
		}
	}
	return 0, nil
}

func keyPerms(v *Val) bool {
	v = stripConv(v)
	return v.op == OComp && v.aux == "pair:perms"
}

// granted notes the permissions a condition establishes.
func (a *vetting) granted(c *Ctx, cond *Val, truth bool) {
	mask := func(v *Val) (*Val, int64) {
		v = stripConv(v)
		if v.op != OBin || v.aux != "&" && v.aux != "|" && v.aux != "&^" || v.aux == "&^" && stripConv(v.args[0]).op != OConst {
			return nil, 0
		}
		for i := range v.args {
			if k, ok := stripConv(v.args[i]).constInt(); ok {
				if p := stripConv(v.args[1-i]); p.op == OComp && p.aux == "pair:perms" {
					return a.keyOf(p), k
				}
			}
		}
		return nil, 0
	}
	if cond.op != OBin {
		return
	}
	var t *Val
	var m int64
	holds := false
	single := func(m int64) bool { return m != 0 && m&(m-1) == 0 }
	switch cond.aux {
	case "==":
		k, v := constCmp(cond)
		if v == nil {
			for i := range cond.args { // p|m == p
				o := stripConv(cond.args[i])
				if t, m = mask(o); t != nil && o.aux == "|" && keyPerms(cond.args[1-i]) && a.keyOf(cond.args[1-i]) == t {
					holds = truth
					break
				}
				t = nil
			}
			break
		}
		if t, m = mask(v); t == nil {
			return
		}
		if o := stripConv(v).aux; o == "|" {
			return
		} else if o == "&^" {
			holds = k == 0 && truth
			break
		}
		holds = truth && k == m && m != 0 || !truth && k == 0 && single(m)
	case "<":
		if k, ok := cond.args[0].constInt(); ok && k == 0 {
			if t, m = mask(cond.args[1]); t == nil {
				return
			}
			holds = truth && single(m)
		}
	}
	if t == nil {
		return
	}
	a.r.Count("permission checks", 1)
	if !holds {
		c.St.Add("refused")
		return
	}
	for b := int64(1); b <= m; b <<= 1 {
		if m&b != 0 {
			c.St.Add("perm:"+constant.MakeInt64(b).ExactString(), t)
		}
	}
}

// sink: a request is carried out.
func (a *vetting) sink(c *CallCtx) {
	need := a.sinks[c.Name]
	a.seen[c.In] = true
	a.r.Count("requests vetted", 1)
	n := c.Name[strings.LastIndex(c.Name, ".")+1:]
	var t *Val
	for _, x := range c.Args {
		if b := a.ofTopic(x, false); b != nil {
			t = b
		} else if typeName(typOr(x)) == "Topic" && x.op != OFAddr {
			t = x
		}
	}
	if strings.HasPrefix(c.Name, stPkg) && !a.contract(c.Args[1]) {
		c.Report("s02:contract:"+n, "%s is called with another contract than the client's", n)
	}
	if t == nil {
		c.Report("s02:topic:"+n, "%s is called with something else than the topic of the request", n)
		return
	}
	if !c.St.HasV("parsed", t) {
		c.Report("s02:unparsed:"+n, "%s is reached for a topic that may be invalid", n)
	}
	if c.St.Has("insecure") {
		return
	}
	if !c.St.HasV("perm:"+constant.MakeInt64(need).ExactString(), t) {
		c.Report("s02:permission:"+n, "%s is reached without the key of the topic having been found to grant the permission it needs", n)
	}
	if !c.St.HasV("valid", t) {
		c.Report("s02:not-validated:"+n, "%s is reached without the key having been validated for the topic", n)
	}
	if need == a.write && !c.St.HasV("strict", t) {
		c.Report("s02:wildcard:"+n, "%s is reached with a wildcard key", n)
	}
}

// readsBytes models a read of a number from bytes.
func (c *CallCtx) readsBytes() bool {
	w, o, put, ok := byteOrder(c.Name)
	if !ok || put {
		return false
	}
	c.Opaque()
	c.SetResult(c.E.pair(fmt.Sprintf("rd:%d:%s", w, o), c.Args[len(c.Args)-1]))
	return true
}

// bit is where one bit of a term comes from.
type bit struct {
	kind byte // 0 zero, 1 one, 's' bit n of byte i of the source, '?' unknown
	i, n int64
}

// bitsOf: the provenance of the bits of v; src tells the byte of the source an atom is.
func bitsOf(v *Val, src func(*Val) (int64, bool)) []bit {
	const w = 64
	r := make([]bit, w)
	top := func() []bit {
		for i := range r {
			r[i] = bit{kind: '?'}
		}
		n, _ := basicBits(typOr(v))
		for i := n; n > 0 && i < w; i++ {
			r[i] = bit{}
		}
		return r
	}
	cut := func(b []bit, t types.Type) []bit {
		n, uns := basicBits(t)
		if n == 0 {
			return b
		}
		c := append([]bit{}, b...)
		for i := n; i < w; i++ {
			c[i] = bit{}
			if !uns && c[n-1].kind != 0 {
				c[i] = bit{kind: '?'}
			}
		}
		return c
	}
	if i, ok := src(v); ok {
		k := int64(8)
		if b, _ := basicBits(typOr(v)); b > 8 {
			k = int64(b)
		}
		for n := int64(0); n < k; n++ {
			r[n] = bit{'s', i, n}
		}
		return r
	}
	if v.op == OComp && strings.HasPrefix(v.aux, "pair:rd:") {
		x, width, order := readOf(v)
		for k := int64(0); k < width; k++ {
			o := k
			if order == "BE" {
				o = width - 1 - k
			}
			if i, ok := srcAt(x, o, src); ok {
				for n := int64(0); n < 8; n++ {
					r[k*8+n] = bit{'s', i, n}
				}
			} else {
				return top()
			}
		}
		return r
	}
	switch v.op {
	case OConst:
		if k, ok := constant.Uint64Val(constant.ToInt(v.cv)); ok && v.cv.Kind() == constant.Int {
			for i := 0; i < w; i++ {
				r[i] = bit{kind: byte(k >> uint(i) & 1)}
			}
			return r
		}
	case OConv:
		return cut(bitsOf(v.args[0], src), v.typ)
	case OBin:
		switch v.aux {
		case "|", "&", "^", "+":
			a, b := bitsOf(v.args[0], src), bitsOf(v.args[1], src)
			for i := range r {
				x, y := a[i], b[i]
				if x.kind == 0 || x.kind == 1 {
					x, y = y, x
				}
				switch {
				case v.aux == "&" && y.kind == 0:
				case v.aux == "&" && y.kind == 1, v.aux != "&" && y.kind == 0:
					r[i] = x
				case v.aux == "|" && y.kind == 1:
					r[i] = y
				case x == y && x.kind == 's' && (v.aux == "&" || v.aux == "|"):
					r[i] = x
				default:
					if v.aux == "+" {
						return top() // carries
					}
					r[i] = bit{kind: '?'}
				}
			}
			return cut(r, typOr(v))
		case "<<", ">>":
			k, ok := stripConv(v.args[1]).constInt()
			if !ok || k < 0 {
				return top()
			}
			a := bitsOf(v.args[0], src)
			for i := range r {
				j := i - int(k)
				if v.aux == ">>" {
					j = i + int(k)
				}
				if j >= 0 && j < w {
					r[i] = a[j]
				}
			}
			return cut(r, typOr(v))
		}
	}
	return top()
}

// srcAt: byte o of the bytes v refers to.
func srcAt(v *Val, o int64, src func(*Val) (int64, bool)) (int64, bool) {
	if v.op == OSlice {
		if v.args[1] != nil {
			k, ok := v.args[1].constInt()
			if !ok {
				return 0, false
			}
			o += k
		}
		return srcAt(v.args[0], o, src)
	}
	if v.op == OParam {
		return o, true
	}
	return 0, false
}

// only: the single bit of the source in b when all others are zero.
func onlyBit(b []bit) (bit, bool) {
	var r bit
	for _, x := range b {
		if x.kind != 0 {
			if r.kind != 0 {
				return bit{}, false
			}
			r = x
		}
	}
	return r, r.kind == 's'
}

// validate: what a key is valid for.
func (a *vetting) validate() {
	r := a.r
	f := r.Fn(a.valid)
	if f == nil {
		return
	}
	h := &Hooks{Interesting: callIs("server/internal/pkg/hash.WithSalt")}
	h.Call = func(c *CallCtx) {
		c.readsBytes()
		if c.Name == "server/internal/pkg/hash.WithSalt" {
			c.Opaque()
			c.derived("hash", nil, nil)
		}
	}
	param := func(v *Val, i int) bool { return v.op == OParam && v.aux == f.Params[i].Name() }
	src := func(v *Val) (int64, bool) {
		if v.op == OLoad && v.args[0].op == OIAddr && param(v.args[0].args[0], 0) {
			return v.args[0].args[1].constInt()
		}
		return 0, false
	}
	target := func(v *Val) bool {
		b := bitsOf(v, src)
		for i, x := range b {
			if i < 32 && x != (bit{'s', 7 - int64(i)/8, int64(i) % 8}) || i >= 32 && x.kind != 0 {
				return false
			}
		}
		return true
	}
	path := func(v *Val) bool {
		n := 0
		for i, x := range bitsOf(v, src) {
			if x.kind == 's' && x == (bit{'s', 3 - int64(i)/8, int64(i) % 8}) {
				n++
			} else if x.kind != 0 {
				return false
			}
		}
		return n == 24
	}
	// match: 1 the topic's hash, 2 the hash of all topics
	match := func(cond *Val) int {
		if cond.op != OBin || cond.aux != "==" {
			return 0
		}
		for i := range cond.args {
			hv := stripConv(cond.args[1-i])
			if hv.op != OComp || hv.aux != "pair:hash" || !target(cond.args[i]) || !param(stripConv(hv.args[1]), 1) {
				continue
			}
			t := stripConv(hv.args[0])
			if param(t, 2) {
				return 1
			}
			if s := t.strConsts(); len(s) == 1 && s[0] == "..." {
				return 2
			}
		}
		return 0
	}
	strict := func(cond *Val) (flag, ok bool) { // cond is (strict bit == 0)
		k, v := constCmp(cond)
		if v == nil {
			return false, false
		}
		b, one := onlyBit(bitsOf(v, src))
		if !one || b != (bit{'s', 1, 7}) {
			return false, false
		}
		return k == 0, true
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		switch match(cond) {
		case 1:
			if truth {
				c.St.Add("matched")
			}
		case 2:
			if truth {
				c.St.Add("all")
			}
		}
		if k, v := constCmp(cond); v != nil && k == 0 && path(v) && truth {
			c.St.Add("no path")
		}
		if z, ok := strict(cond); ok && z != truth {
			c.St.Add("strict")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("validations", 1)
		ok, wild := c.E.normRes(c.St, res[0]), c.E.normRes(c.St, res[1])
		switch b, isC := ok.boolConst(); {
		case isC && !b:
		case isC && (c.St.Has("matched") || c.St.Has("all") && c.St.Has("no path")):
		case !isC && match(ok) == 1:
		case !isC && match(ok) == 2 && c.St.Has("no path"):
		default:
			c.Report("s02:valid-without-match", "a key can be valid for a topic whose hash, made with the contract, it does not hold")
		}
		neg := wild.op == ONot
		w := wild
		if neg {
			w = wild.args[0]
		}
		switch b, isC := wild.boolConst(); {
		case isC && (b || c.St.Has("strict")):
		case !isC:
			if z, ok := strict(w); ok && z != neg {
				break
			}
			fallthrough
		default:
			c.Report("s02:wildcard-taken-strict", "a key without the strict bit can be taken for one that is no wildcard")
		}
	}
	r.Explore(h, f)
	r.Need("validations", 1)
}
