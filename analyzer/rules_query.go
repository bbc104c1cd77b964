package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = checkC15
}

// order keeps the comparisons made on a path.
type order struct{}

func (order) assume(c *Ctx, cond *Val, truth bool) {
	if cond.op != OBin || len(cond.args) != 2 {
		return
	}
	a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
	switch cond.aux {
	case "<":
		if truth {
			c.St.Add("lt", c.E.pair("lt", a, b))
		} else {
			c.St.Add("ge", c.E.pair("ge", a, b))
		}
	case "==":
		if truth {
			c.St.Add("eq", c.E.pair("eq", a, b))
		} else {
			c.St.Add("ne", c.E.pair("ne", a, b))
		}
	}
}

// has: is there a comparison of the kind whose sides satisfy the predicates.
func (order) has(st *State, kind string, pa, pb func(*Val) bool) bool {
	for _, t := range st.Find(kind) {
		if pa(t.args[0]) && pb(t.args[1]) {
			return true
		}
	}
	return false
}

// atMost: the path knows a <= b.
func (o order) atMost(st *State, a, b func(*Val) bool) bool {
	return o.has(st, "ge", b, a) || o.has(st, "lt", a, b) || o.has(st, "eq", a, b) || o.has(st, "eq", b, a)
}

// nonzero: the path knows that the unsigned v is not zero.
func (o order) nonzero(st *State, v *Val) bool {
	return o.has(st, "ne", isV(v), isInt(0)) || o.has(st, "ne", isInt(0), isV(v)) ||
		o.has(st, "lt", isInt(0), isV(v)) || o.has(st, "ge", isV(v), isInt(1))
}

func isV(v *Val) func(*Val) bool {
	v = stripConv(v)
	return func(x *Val) bool { return stripConv(x) == v }
}
func isF(f *types.Var) func(*Val) bool {
	return func(x *Val) bool { return isFieldVal(stripConv(x), f) }
}
func isLenOf(pred func(*Val) bool) func(*Val) bool {
	return func(x *Val) bool { x = stripConv(x); return x.op == OLen && pred(x.args[0]) }
}
func isInt(k int64) func(*Val) bool {
	return func(x *Val) bool { n, ok := x.constInt(); return ok && n == k }
}

// varargs: the elements of a variadic argument.
func (c *Ctx) varargs(v *Val) []*Val {
	if v == nil || v.op != OSlice || v.args[0].op != OAlloc {
		return nil
	}
	var as []*Val
	if at, ok := deref(typOr(v.args[0])).Underlying().(*types.Array); ok {
		for i := int64(0); i < at.Len(); i++ {
			ea := c.E.in.mk(Val{op: OIAddr, args: []*Val{v.args[0], c.E.in.integer(i)}})
			as = append(as, c.E.load(c.St, ea, at.Elem()))
		}
	}
	return as
}

func isSliceOf(t types.Type, name string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && qualType(s.Elem()) == name
}

func isByteSlices(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s2, ok := s.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s2.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// appendsTo: an append to a slice of the named element type.
func appendsTo(pred func(t types.Type) bool) func(ssa.Instruction) bool {
	return isBuiltin("append", func(ci ssa.CallInstruction) bool { return pred(ci.Common().Args[0].Type()) })
}

// derived models a call as a value that contains its arguments.
func (c *CallCtx) derived(name string, ok, fail func(*State)) {
	c.SetResult(c.E.pair(name, c.Args...))
	er := c.ErrRes()
	if er == nil {
		return
	}
	if c.Sig.Results().Len() == 1 {
		er = c.result
	} else {
		er = c.E.ext(c.result, c.Sig.Results().Len()-1, nil)
	}
	c.Fork(func(s *State) {
		c.E.setFact(s, er, c.E.vNil)
		if ok != nil {
			ok(s)
		}
	})
	c.Fork(func(s *State) {
		c.E.setFact(s, er, c.E.vNonNil)
		if fail != nil {
			fail(s)
		}
	})
}

// pairArg finds the pair with the name inside v.
func findPair(v *Val, name string) *Val {
	var r *Val
	v.contains(func(x *Val) bool {
		if r == nil && x.op == OComp && x.aux == "pair:"+name {
			r = x
		}
		return false
	})
	return r
}

// getSteps are the calls of a query that are taken as they are.
var getReads = map[string]bool{"unitdb.DB.readEntry": true, "unitdb._BlockReader.readMessage": true, "unitdb.DB.lookup": true}

func checkC15(r *Run) {
	r.Rule("the time limit of a query is the parsed duration before now, and is set when the topic asks for it")
	r.Rule("an item is added to the result of a query only on paths on which the contract stored with that very message was compared with the contract of the query, with the recency limit of the query")
	r.Rule("the comparison yields true only if bytes 4..8 of the ID equal the contract and, when a recency limit is set, the time in bytes 0..4 is not older")
	r.Rule("the ID stored with an entry carries the contract of the entry; topics are hashed with the contract on put, query and delete")
	contract := r.Field("unitdb", "Query", "Contract")
	cutoff := r.Field("unitdb", "_InternalQuery", "cutoff")
	if contract == nil || cutoff == nil {
		return
	}
	// items
	h := &Hooks{Interesting: anyOf(callIs("message.ID.EvalPrefix", "unitdb._BlockReader.readMessage"), appendsTo(isByteSlices), fieldUse(contract, cutoff))}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.Query.parse", "unitdb.DB.ok", "unitdb.DB.lookup":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "unitdb.DB.readEntry":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "unitdb._BlockReader.readMessage":
			c.derived("msg", nil, nil)
			c.Count(r, "messages read")
		case "message.ID.EvalPrefix":
			c.Opaque()
			id, res := c.Args[0], c.Res
			okArgs := isFieldVal(stripConv(c.Args[1]), contract) && isFieldVal(stripConv(c.Args[2]), cutoff)
			if !okArgs {
				c.Report("c15:compared-with", "the contract or time stored with a message is not compared with those of the query")
			}
			m := findPair(id, "msg")
			c.Fork(func(s *State) {
				c.E.setFact(s, res, c.E.vTrue)
				if m != nil {
					s.Add("checked", m)
				}
			})
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vFalse) })
		case "crypto.MAC.Decrypt":
			c.derived("dec", nil, nil)
		case "github.com/golang/snappy.Decode":
			c.derived("dec", nil, nil)
		case "builtin.append":
			if !isByteSlices(c.Common.Args[0].Type()) {
				return
			}
			for _, x := range c.varargs(c.Args[1]) {
				r.Count("items returned", 1)
				m := findPair(x, "msg")
				if m == nil {
					c.Report("c15:unknown-item", "something that was not read from a stored message is added to the result")
				} else if !c.St.HasV("checked", m) {
					c.Report("c15:unchecked", "the payload of a message is returned without comparing the contract stored with it")
				}
			}
		}
	}
	if f := r.Fn("unitdb.DB.Get"); f != nil {
		r.Explore(h, f)
	}
	r.Need("items returned", 1)
	r.Need("messages read", 1)

	// the comparison
	var ord order
	eh := &Hooks{}
	isID := func(lo int64) func(*Val) bool {
		return func(x *Val) bool {
			x = stripConv(x)
			return x.contains(func(y *Val) bool { return y.op == OSlice && y.args[1] != nil && isInt(lo)(y.args[1]) }) || x.contains(func(y *Val) bool {
				return y.op == OSlice && lo == 0 && y.args[1] == nil && y.args[2] != nil && isInt(4)(y.args[2])
			})
		}
	}
	eh.Interesting = func(ssa.Instruction) bool { return true }
	eh.Call = func(c *CallCtx) {
		if strings.HasPrefix(c.Name, "encoding/binary.") || strings.HasPrefix(c.Name, "uid.") {
			c.SetResult(c.E.pair(c.Name[strings.LastIndex(c.Name, ".")+1:], c.Args...))
		}
	}
	eh.Assume = func(c *Ctx, cond *Val, truth bool) { ord.assume(c, cond, truth) }
	eh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("comparison outcomes", 1)
		v := res[0]
		if v == c.E.vFalse || c.St.facts[v] == c.E.vFalse {
			return
		}
		eq := func(x *Val) bool {
			if x.op != OBin || x.aux != "==" {
				return false
			}
			a, b := stripConv(x.args[0]), stripConv(x.args[1])
			for _, q := range [][2]*Val{{a, b}, {b, a}} {
				if q[0].op == OParam && q[0].aux == fn.Params[1].Name() && isID(4)(q[1]) && findPair(q[1], "Uint32") != nil {
					return true
				}
			}
			return false
		}
		is := func(k string) bool {
			return ord.has(c.St, k, func(x *Val) bool { return x.op == OParam && x.aux == fn.Params[1].Name() }, isID(4)) || ord.has(c.St, k, isID(4), func(x *Val) bool { return x.op == OParam && x.aux == fn.Params[1].Name() })
		}
		if !eq(v) && !is("eq") {
			c.Report("c15:contract-not-compared", "a message is accepted without comparing bytes 4..8 of its ID with the contract")
		}
		cut := func(x *Val) bool { return x.op == OParam && x.aux == fn.Params[2].Name() }
		if ord.atMost(c.St, cut, isInt(0)) || ord.atMost(c.St, cut, isInt(1)) && ord.has(c.St, "ge", isInt(0), cut) {
			return
		}
		tm := func(x *Val) bool { return findPair(x, "Time") != nil && isID(0)(x) }
		late := ord.atMost(c.St, cut, tm) || v.op == ONot && v.args[0].op == OBin && v.args[0].aux == "<" && tm(v.args[0].args[0]) && cut(v.args[0].args[1])
		if !late {
			c.Report("c15:cutoff-not-compared", "a message is accepted without comparing the time in its ID with the recency limit of the query")
		}
	}
	if f := r.Fn("message.ID.EvalPrefix"); f != nil {
		r.Explore(eh, f)
	}
	r.Need("comparison outcomes", 1)
	hashed(r)
	contractCode(r)
	recency(r)
}

// hashed: topics and IDs are made with the contract of the request.
func hashed(r *Run) {
	ec := r.Field("unitdb", "Entry", "Contract")
	qc := r.Field("unitdb", "Query", "Contract")
	th := r.Field("unitdb", "_Entry", "topicHash")
	if ec == nil || qc == nil || th == nil {
		return
	}
	own := func(x *Ctx, v *Val) bool {
		v = stripConv(v)
		if isFieldVal(v, ec) || isFieldVal(v, qc) {
			return true
		}
		if v.op == OParam {
			return true
		}
		n, ok := v.constInt()
		return ok && n == 3376684800 && x.St.Has("default")
	}
	h := &Hooks{Interesting: anyOf(callIs("message.Topic.AddContract", "message.Topic.GetHash", "message.Topic.Parse", "message.ID.SetContract", "unitdb.DB.parseTopic", "message.ID.Prefix", "unitdb._Trie.lookup", "unitdb._Trie.getOffset"), fieldUse(ec, qc, th))}
	h.Call = func(c *CallCtx) {
		n := c.Name
		switch n {
		case "message.Topic.Parse", "message.Topic.AddContract", "message.Topic.GetHash":
			c.Opaque()
			r.Count("uses of the contract", 1)
			if !own(c.Ctx, c.Args[1]) {
				c.Report("c15:other-contract:"+n[len("message.Topic."):], "a topic is parsed or hashed with something else than the contract of the request")
			}
			if n == "message.Topic.AddContract" {
				c.St.Add("added", c.Args[0])
			}
			if n == "message.Topic.GetHash" {
				if !c.St.HasV("added", c.Args[0]) {
					c.Report("c15:hash-without-contract", "a topic is hashed before the contract was added to it")
				}
				c.SetResult(c.E.pair("hash", c.Args...))
			}
		case "message.ID.SetContract":
			c.Opaque()
			r.Count("IDs given a contract", 1)
			if !own(c.Ctx, c.Args[1]) {
				c.Report("c15:id-contract", "the ID of a message is given something else than the contract of the request")
			}
			c.handled = true
			c.E.store(c.St, c.Args[0], c.E.pair("cid", c.Args[1]))
		case "message.ID.Prefix":
			c.Opaque()
			r.Count("IDs stored", 1)
			if findPair(c.Args[0], "cid") == nil {
				c.Report("c15:id-without-contract", "the ID stored with an entry was not given the contract of the entry")
			}
		case "unitdb._Trie.lookup":
			c.Opaque()
			if len(c.St.Find("added")) == 0 {
				c.Report("c15:query-without-contract", "topics are looked up with parts that do not carry the contract of the query")
			}
			c.NoReturn()
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if v, ok := eqConst(cond, 0); ok && truth && (isFieldVal(stripConv(v), ec) || isFieldVal(stripConv(v), qc)) {
			c.St.Add("default")
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == th && !strings.HasSuffix(fname(c.Fn()), ".UnmarshalBinary") {
			r.Count("topic hashes of entries", 1)
			if v == nil || findPair(v, "hash") == nil {
				c.Report("c15:stored-hash", "the topic hash of an entry is not the hash of its topic with the contract")
			}
		}
	}
	for _, n := range []string{"unitdb.DB.setEntry", "unitdb.DB.Get", "unitdb.DB.DeleteEntry"} {
		if f := r.Fn(n); f != nil {
			r.Explore(h, f)
		}
	}
	r.Need("uses of the contract", 1)
	r.Need("IDs given a contract", 1)
	r.Need("IDs stored", 1)
	r.Need("topic hashes of entries", 1)
}

// contractCode: the functions that put the contract into IDs and hashes use the one they are given.
func contractCode(r *Run) {
	all := func(ssa.Instruction) bool { return true }
	// every part of a topic is hashed with the contract
	h := &Hooks{Interesting: callIs("hash.WithSalt")}
	h.Call = func(c *CallCtx) {
		if c.Name == "hash.WithSalt" {
			r.Count("topic parts hashed", 1)
			if v := stripConv(c.Args[1]); v.op != OParam {
				c.Report("c15:part-salt", "a part of a topic is hashed without the contract it was parsed for")
			}
		}
	}
	if f := r.Fn("message.Topic.Parse"); f != nil {
		r.Explore(h, f)
	}
	r.Need("topic parts hashed", 1)
	// the hash of a topic depends on the contract
	gh := &Hooks{Interesting: all}
	gh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("topic hashes made", 1)
		if !res[0].contains(func(x *Val) bool { return x.op == OParam && x.aux == fn.Params[1].Name() }) {
			c.Report("c15:hash-contract", "the hash of a topic does not depend on the contract")
		}
	}
	if f := r.Fn("message.Topic.GetHash"); f != nil {
		r.Explore(gh, f)
	}
	r.Need("topic hashes made", 1)
	// the contract of an ID
	sh := &Hooks{Interesting: all}
	sh.Call = func(c *CallCtx) {
		switch {
		case strings.HasPrefix(c.Name, "encoding/binary.") && strings.HasSuffix(c.Name, "PutUint32"):
			a := c.Args[len(c.Args)-2]
			if a.op == OSlice && a.args[1] != nil && isInt(4)(a.args[1]) && stripConv(c.Args[len(c.Args)-1]).op == OParam {
				c.St.Add("written", a.args[0])
			}
		case c.Name == "builtin.copy":
			a := c.Args[0]
			whole := true
			for _, s := range c.Args[:2] {
				if s.op == OSlice && s.args[1] != nil && !isInt(0)(s.args[1]) {
					whole = false
				}
			}
			if a.op == OSlice {
				a = a.args[0]
			}
			for _, w := range c.St.Find("written") {
				if w == a {
					c.Report("c15:contract-overwritten", "the contract put into an ID is overwritten")
				}
			}
			if whole {
				c.St.Add("copied", a)
			}
		}
	}
	sh.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OParam {
			v = stripConv(v)
			if c.St.HasV("written", v) && c.St.HasV("copied", v) {
				c.St.Add("ok")
			} else {
				c.St.Del("ok")
			}
		}
	}
	sh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("contracts set", 1)
		inPlace := len(c.St.Find("written")) > 0 && len(c.St.Find("copied")) == 0
		for _, w := range c.St.Find("written") {
			inPlace = inPlace && w.contains(func(v *Val) bool { return v.op == OParam && v.aux == fn.Params[0].Name() })
		}
		if !c.St.Has("ok") && !inPlace {
			c.Report("c15:set-contract", "setting the contract of an ID does not replace bytes 4..8 of it by the contract")
		}
	}
	if f := r.Fn("message.ID.SetContract"); f != nil {
		r.Explore(sh, f)
	}
	r.Need("contracts set", 1)
	for _, n := range [][3]string{{"unitdb.Query.WithContract", "Query", "Contract"}, {"unitdb.Entry.WithContract", "Entry", "Contract"}} {
		r.setter(n[0], n[1], n[2], "c15")
	}
}

// setter: a With function stores its argument in the field.
func (r *Run) setter(fn, typ, field, key string) {
	f := r.Fn(fn)
	fld := r.Field("unitdb", typ, field)
	if f == nil || fld == nil {
		return
	}
	h := &Hooks{Interesting: func(ssa.Instruction) bool { return true }}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == fld {
			c.St.Del("set")
			if v := stripConv(v); v != nil && v.contains(func(x *Val) bool { return x.op == OParam && x.aux == f.Params[1].Name() }) {
				c.St.Add("set")
			}
		}
	}
	h.Exit = func(c *Ctx, g *ssa.Function, res []*Val) {
		r.Count("setters", 1)
		if !c.St.Has("set") {
			c.Report(key+":setter:"+fn, "%s does not keep what it is given", fn)
		}
	}
	r.Explore(h, f)
}

// Count counts an obligation at a call.
func (c *CallCtx) Count(r *Run, n string) { r.Count(n, 1) }

var _ = token.LSS
