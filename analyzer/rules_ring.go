package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S08"] = checkS08
}

const ringPkg = "server/internal/pkg/hash"

// rings: requests routed between the nodes of a cluster, and the ring they are routed with.
type rings struct {
	r                                  *Run
	reqSig, reqGone, reqConn           *types.Var
	sessConn, sessClient               *types.Var
	sig, ring, nodes, self             *types.Var
	connID, clientID, stop             *types.Var
	fails, limit, active               *types.Var
	pingSig, pingNodes, pingC          *types.Var
	pingTerm, term, name               *types.Var
	call, forward, route, rehash, hand string
	get, add                           string
	carry                              []*types.Var // messages in a forwarded request
	flag                               map[*types.Var]*types.Var
}

func checkS08(r *Run) {
	r.Rule("a request of another node is handed to a connection, or makes one, only when the signature it carries was found equal to the signature of the node's own ring; another request that is not the end of a connection is rejected; the connection gets the ID and the client ID of the request")
	r.Rule("a request that was rejected is an error for the node that forwarded it; every request forwarded carries the signature of the own ring and its message is marked as forwarded; only messages not marked as forwarded whose contract belongs to another node are forwarded, to the node the ring names")
	r.Rule("a node is asked for its ring again whenever one is found dead or alive again: the leader then builds the ring from the nodes that are alive and itself and remembers them for its pings")
	r.Rule("a ring is used only after the nodes given were added to it; a ping of the leader with another signature makes a follower build its ring from the nodes of the ping, at the latest at the second such ping")
	k := &rings{r: r, call: srvPkg + ".ClusterNode.call", forward: srvPkg + ".ClusterNode.forward", route: srvPkg + ".Cluster.routeToContract", rehash: srvPkg + ".Cluster.rehash",
		hand: srvPkg + "._Conn.handler", get: ringPkg + ".Ring.Get", add: ringPkg + ".Ring.Add", flag: map[*types.Var]*types.Var{}}
	for _, f := range []struct {
		v            **types.Var
		pkg, typ, fl string
	}{{&k.reqSig, srvPkg, "ClusterReq", "Signature"}, {&k.reqGone, srvPkg, "ClusterReq", "ConnGone"}, {&k.reqConn, srvPkg, "ClusterReq", "Conn"},
		{&k.sessConn, srvPkg, "ClusterSess", "ConnID"}, {&k.sessClient, srvPkg, "ClusterSess", "ClientID"}, {&k.sig, ringPkg, "Ring", "signature"}, {&k.ring, srvPkg, "Cluster", "ring"},
		{&k.nodes, srvPkg, "Cluster", "nodes"}, {&k.self, srvPkg, "Cluster", "thisNodeName"}, {&k.connID, srvPkg, "_Conn", "connID"}, {&k.clientID, srvPkg, "_Conn", "clientID"},
		{&k.stop, srvPkg, "_Conn", "stop"}, {&k.fails, srvPkg, "ClusterNode", "failCount"}, {&k.limit, srvPkg, "clusterFailover", "nodeFailCountLimit"}, {&k.active, srvPkg, "clusterFailover", "activeNodes"},
		{&k.pingSig, srvPkg, "ClusterPing", "Signature"}, {&k.pingNodes, srvPkg, "ClusterPing", "Nodes"}, {&k.pingC, srvPkg, "clusterFailover", "leaderPing"},
		{&k.pingTerm, srvPkg, "ClusterPing", "Term"}, {&k.term, srvPkg, "clusterFailover", "term"}, {&k.name, srvPkg, "ClusterNode", "name"}} {
		if *f.v = r.Field(f.pkg, f.typ, f.fl); *f.v == nil {
			return
		}
	}
	for _, n := range []string{k.call, k.forward, k.route, k.rehash, k.hand, k.get, k.add} {
		if r.Fn(n) == nil {
			return
		}
	}
	// the messages a request can carry
	req := structOf(r.Fn(k.forward).Params[1].Type())
	for i := 0; i < req.NumFields(); i++ {
		if s := structOf(req.Field(i).Type()); s != nil {
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == "IsForwarded" {
					k.carry = append(k.carry, req.Field(i))
					k.flag[req.Field(i)] = s.Field(j)
				}
			}
		}
	}
	r.Count("kinds of messages forwarded", len(k.carry))
	r.Need("kinds of messages forwarded", 3)
	k.master()
	k.forwarding()
	k.routing()
	k.pings()
	k.follow()
	k.rebuild()
}

func isReq(t types.Type) bool { return typeName(deref(t)) == "ClusterReq" }

// master: what a node does with a request of another node.
func (k *rings) master() {
	r, p := k.r, k.r.P
	base := anyOf(fieldUse(k.reqSig, k.reqGone, k.sig, k.connID, k.clientID), callIs(k.hand, srvPkg+"._Service.newRpcConn"))
	sameSig := func(c *Ctx) bool {
		return order{}.has(c.St, "eq", isF(k.reqSig), isF(k.sig)) || order{}.has(c.St, "eq", isF(k.sig), isF(k.reqSig))
	}
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg || f.Parent() != nil || len(f.Params) != 3 || !isReq(f.Params[1].Type()) || typeName(deref(recvType(f))) != "Cluster" {
			continue
		}
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			if base(in) {
				return true
			}
			_, ok := in.(*ssa.Send)
			return ok
		}}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op == OBin && (isFieldVal(cond.args[0], k.reqSig) || isFieldVal(cond.args[1], k.reqSig)) {
				order{}.assume(c, cond, truth)
			}
			if isFieldVal(cond, k.reqGone) {
				if truth {
					c.St.Add("gone")
				} else {
					c.St.Add("not gone")
				}
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OParam && addr.aux == f.Params[2].Name() {
				c.St.Del("rejected")
				if v.op == OConst && v.cv != nil && v.cv.Kind() == constant.Bool && constant.BoolVal(v.cv) {
					c.St.Add("rejected")
				}
			}
		}
		h.Send = func(c *Ctx, ch, v *Val) {
			if isFieldVal(ch, k.stop) && !c.St.Has("gone") {
				c.Report("s08:stopped", "a connection is stopped although the request does not say that it is gone")
			}
		}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case k.hand:
				r.Count("requests handed over", 1)
				if !sameSig(c.Ctx) {
					c.Report("s08:signature", "a request of another node is served although its ring was not found equal to the own one")
				}
				get := func(fld *types.Var) *Val { return c.E.load(c.St, c.E.faddr(c.Args[0], fld), fld.Type()) }
				if !isFieldVal(get(k.connID), k.sessConn) || !isFieldVal(get(k.clientID), k.sessClient) {
					c.Report("s08:identity", "a request of another node is served for another connection or client than the one it names")
				}
				c.St.Add("served")
				c.handled = true
				c.Opaque()
			case srvPkg + "._Service.newRpcConn":
				r.Count("connections made", 1)
				if !sameSig(c.Ctx) {
					c.Report("s08:signature-conn", "a connection is made for a request of another node although its ring was not found equal to the own one")
				}
				c.handled = true
				c.Opaque()
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" {
					c.handled = true
					c.Opaque()
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("ends of requests", 1)
			if c.St.Has("gone") || sameSig(c) {
				return
			}
			if !c.St.Has("rejected") && c.mayBeSuccess(fn, res) {
				c.Report("s08:not-rejected", "a request from a node with another ring is not rejected")
			}
		}
		r.Explore(h, f)
	}
	r.Need("requests handed over", 3)
	r.Need("connections made", 1)
	r.Need("ends of requests", 2)
}

// forwarding: the answer of the other node, and what every request carries.
func (k *rings) forwarding() {
	r, p := k.r, k.r.P
	toMaster := func(cc *ssa.CallCommon) bool {
		for _, a := range cc.Args {
			if s, ok := constOfString(a); ok && s == "Cluster.Master" {
				return true
			}
		}
		return false
	}
	base := anyOf(fieldUse(k.reqSig, k.reqGone, k.sig), callIs(k.call, k.forward, k.get))
	for _, f := range p.funcs {
		makes, sends := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && isReq(a.Type()) {
					makes = true
				}
				if ci, ok := in.(ssa.CallInstruction); ok && toMaster(ci.Common()) {
					sends = true
				}
			}
		}
		if !makes && !sends {
			continue
		}
		h := &Hooks{Interesting: base}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if c.St.HasV("answer", cond) && !truth {
				c.St.Add("accepted", cond)
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == k.call || c.Name == srvPkg+".ClusterNode.callAsync" || strings.HasPrefix(c.Name, "net/rpc."):
				c.Opaque()
				if s, ok := strVal(c.Args[1]); !ok || s != "Cluster.Master" {
					return
				}
				r.Count("requests sent", 1)
				k.carries(c.Ctx, stripIfaceVal(c.Args[2]))
				to := stripIfaceVal(c.Args[3])
				answer := c.E.in.mk(Val{op: OFresh, aux: "rejected", typ: types.Typ[types.Bool]})
				c.E.store(c.St, to, answer)
				c.St.Add("answer", answer)
				c.ForkErr(nil, nil)
			case c.Name == k.get:
				c.Opaque()
				c.handled = true
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" {
					c.handled = true
					c.Opaque()
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.mayBeSuccess(fn, res) {
				return
			}
			for _, a := range c.St.Find("answer") {
				r.Count("answers looked at", 1)
				if !c.St.HasV("accepted", a) {
					c.Report("s08:rejected", "a request that another node rejected is taken as served")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("requests sent", 4)
	r.Need("answers looked at", 1)
}

// carries: a request composed here has the signature of the own ring and messages marked as forwarded.
func (k *rings) carries(c *Ctx, req *Val) {
	if req.op == OParam {
		return
	}
	get := func(base *Val, fld *types.Var) *Val { return c.E.load(c.St, c.E.faddr(base, fld), fld.Type()) }
	if c.E.evalBool(c.St, get(req, k.reqGone)) == 1 {
		return
	}
	s := get(req, k.reqSig)
	if !isFieldVal(s, k.sig) || !s.contains(func(x *Val) bool { return x.fld == k.ring }) {
		c.Report("s08:request-signature", "a request is forwarded without the signature of the own ring")
	}
	for _, fld := range k.carry {
		m := get(req, fld)
		if m.op == OZero || m.op == ONil || c.E.nilness(c.St, m) == 1 {
			continue
		}
		k.r.Count("messages forwarded", 1)
		if c.E.evalBool(c.St, get(m, k.flag[fld])) != 1 {
			c.Report("s08:not-marked:"+fld.Name(), "a message is forwarded without being marked as forwarded")
		}
	}
}

// routing: what is forwarded, and where to.
func (k *rings) routing() {
	r, p := k.r, k.r.P
	for _, f := range p.funcs {
		if !calls(f, k.route) {
			continue
		}
		var fwd []*types.Var
		for _, v := range k.flag {
			fwd = append(fwd, v)
		}
		h := &Hooks{Interesting: anyOf(fieldUse(append(fwd, k.self)...), callIs(k.route, k.get))}
		remote := func(c *Ctx, cond *Val, truth bool) {
			if cond.fld != nil && !truth {
				c.St.Add("new", cond)
			}
			if cond.op != OBin || cond.aux != "==" {
				return
			}
			for i := range cond.args {
				if isFieldVal(cond.args[i], k.self) && findPair(cond.args[1-i], "owner") != nil && !truth {
					c.St.Add("remote")
				}
			}
		}
		h.Assume = remote
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == k.get:
				c.Opaque()
				c.SetResult(c.E.pair("owner", c.Args...))
			case c.Name == k.route:
				c.Opaque()
				r.Count("messages routed", 1)
				m := stripIfaceVal(c.Args[1])
				ok := false
				for _, fl := range fwd {
					if s := structOf(deref(typOr(m))); s != nil {
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i) == fl {
								ok = c.St.HasV("new", c.E.load(c.St, c.E.faddr(m, fl), fl.Type()))
							}
						}
					}
				}
				if !ok {
					c.Report("s08:forwarded-again:"+f.Name(), "a message is forwarded that is not known to be new to the cluster")
				}
				if !c.St.Has("remote") {
					c.Report("s08:not-remote:"+f.Name(), "a message is forwarded although its contract is not known to belong to another node")
				}
				c.ForkErr(nil, nil)
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" {
					c.handled = true
					c.Opaque()
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("messages routed", 3)
	// the node a request goes to
	if f := r.Fn(k.route); f != nil {
		h := &Hooks{Interesting: anyOf(fieldUse(k.self, k.nodes), callIs(k.forward, k.get))}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == k.get:
				c.Opaque()
				c.SetResult(c.E.pair("owner", c.Args...))
			case c.Name == k.forward:
				c.Opaque()
				r.Count("targets", 1)
				n := c.Args[0]
				for n.op == OExt {
					n = n.args[0]
				}
				if n.op != OLookup || !isFieldVal(n.args[0], k.nodes) || findPair(n.args[1], "owner") == nil {
					c.Report("s08:target", "a request is forwarded to another node than the one the ring names for it")
				}
				c.ForkErr(nil, nil)
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" {
					c.handled = true
					c.Opaque()
				}
			}
		}
		r.Explore(h, f)
		r.Need("targets", 3)
	}
}

// pings: the leader finds out which nodes are alive.
func (k *rings) pings() {
	r, p := k.r, k.r.P
	names := isBuiltin("append", func(ci ssa.CallInstruction) bool {
		s, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), types.Typ[types.String])
	})
	for _, f := range p.funcs {
		isPinger := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci.Common()) == k.call {
					for _, a := range ci.Common().Args {
						if s, ok := constOfString(a); ok && s == "Cluster.Ping" {
							isPinger = true
						}
					}
				}
			}
		}
		if !isPinger {
			continue
		}
		ord := order{}
		lim := isF(k.limit)
		h := &Hooks{Interesting: anyOf(fieldUse(k.fails, k.limit, k.active), callIs(k.call, k.rehash), names)}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.contains(isF(k.limit)) {
				ord.assume(c, cond, truth)
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == k.call:
				c.Opaque()
				n := c.Args[0]
				was := c.E.load(c.St, c.E.faddr(n, k.fails), k.fails.Type())
				for _, t := range []string{"failed", "answers"} {
					c.St.Del(t)
				}
				c.St.Del("node")
				c.St.Add("node", n)
				c.ForkErr(func(s *State) { s.Add("answers", was) }, func(s *State) { s.Add("failed", was) })
			case c.Name == k.rehash:
				c.Opaque()
				c.handled = true
				r.Count("rings rebuilt", 1)
				c.St.Add("rehashed")
				a := c.Args[1]
				if fa := c.St.Find("members"); len(fa) > 0 && fa[len(fa)-1] != a {
					c.Report("s08:members", "the ring is built from other nodes than those the pings name")
				}
			case c.Name == "builtin.append":
				for _, e := range c.varargs(c.Args[1]) {
					if isFieldVal(e, k.name) {
						c.St.Add("listed", fieldBase(e))
						n := c.E.load(c.St, c.E.faddr(fieldBase(e), k.fails), k.fails.Type())
						r.Count("nodes listed", 1)
						if !ord.has(c.St, "lt", isV(n), lim) {
							c.Report("s08:dead-listed", "a node that may be dead is listed as alive")
						}
					}
					if isFieldVal(e, k.self) {
						c.St.Add("self listed")
					}
				}
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" || pkgOf(c.Callee) == ringPkg {
					c.handled = true
					c.Opaque()
				}
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == k.active && addr.args[0].op != OAlloc {
				c.St.Del("members")
				c.St.Add("members", v)
				if !c.St.Has("self listed") {
					c.Report("s08:self", "the leader does not list itself")
				}
			}
		}
		flags := map[*ssa.Phi]bool{}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			set, maySet := c.St.Has("rehashed"), false
			var phs []*ssa.Phi
			for _, in := range l.head.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					if isBasicKind(ph.Type(), types.Bool) && c.E.evalBool(c.St, c.phiFrom(ph)) == 1 {
						set = true
						phs = append(phs, ph)
					} else if v := c.phiFrom(ph); isBasicKind(ph.Type(), types.Bool) && v.contains(lim) {
						// set when the comparison holds: what is left is the case where it does not
						if v.op == ONot {
							ord.assume(c, v.args[0], true)
						} else {
							ord.assume(c, v, false)
						}
						maySet = true
					}
				}
			}
			for _, n := range c.St.Find("node") {
				now := c.E.load(c.St, c.E.faddr(n, k.fails), k.fails.Type())
				for _, was := range c.St.Find("failed") {
					r.Count("failed pings", 1)
					up := now.op == OBin && now.aux == "+" && (isV(was)(now.args[0]) && isInt(1)(now.args[1]) || isV(was)(now.args[1]) && isInt(1)(now.args[0]))
					if !up {
						c.Report("s08:failures-not-counted", "a failed ping is not counted")
					}
					if !set && !ord.has(c.St, "ne", isV(now), lim) && !ord.has(c.St, "ne", lim, isV(now)) && !ord.has(c.St, "lt", isV(now), lim) && !ord.has(c.St, "lt", lim, isV(now)) {
						c.Report("s08:death-unnoticed", "a node that failed too often does not change the ring")
					}
				}
				for _, was := range c.St.Find("answers") {
					r.Count("answered pings", 1)
					if n, ok := now.constInt(); !(ok && n == 0) && now.op != OZero {
						c.Report("s08:failures-kept", "failures are still counted although the node answered")
					}
					if !set && !ord.has(c.St, "lt", isV(was), lim) {
						c.Report("s08:recovery-unnoticed", "a node that is alive again does not change the ring")
					}
				}
			}
			if len(c.St.Find("failed"))+len(c.St.Find("answers")) > 0 {
				for _, ph := range phs {
					flags[ph] = true
				}
				for _, in := range l.head.Instrs { // a flag once set stays
					if ph, ok := in.(*ssa.Phi); ok && isBasicKind(ph.Type(), types.Bool) && c.E.evalBool(c.St, c.E.eval(c.fr, ph)) == 1 && c.E.evalBool(c.St, c.phiFrom(ph)) != 1 && !c.St.Has("rehashed") {
						c.Report("s08:forgotten", "that the ring is to change is forgotten with the next node")
					}
				}
				if set && !maySet {
					c.St.Add("to rehash")
				}
			} else if loopHas(l, names) && len(c.St.Find("listed")) == 0 && !ord.has(c.St, "ge", isF(k.fails), lim) {
				c.Report("s08:alive-not-listed", "a node that is alive is not listed")
			}
			for _, t := range []string{"node", "failed", "answers", "lt", "ge", "eq", "ne", "listed"} {
				c.St.Del(t)
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("rounds of pings", 1)
			if c.St.Has("to rehash") && (!c.St.Has("rehashed") || len(c.St.Find("members")) == 0) {
				c.Report("s08:not-rebuilt", "the ring is not rebuilt, or not told to others, although nodes died or are alive again")
			}
		}
		r.Explore(h, f)
	}
	r.Need("failed pings", 1)
	r.Need("answered pings", 1)
	r.Need("rings rebuilt", 1)
	r.Need("nodes listed", 1)
	r.Need("rounds of pings", 1)
}

// follow: a follower takes over the ring of its leader.
func (k *rings) follow() {
	r, p := k.r, k.r.P
	f := r.Fn(srvPkg + ".Cluster.run")
	if f == nil {
		return
	}
	h := &Hooks{Interesting: anyOf(fieldUse(k.pingSig, k.pingTerm, k.sig), callIs(k.rehash))}
	ord := order{}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && (isFieldVal(cond.args[0], k.pingSig) || isFieldVal(cond.args[1], k.pingSig)) {
			ord.assume(c, cond, truth)
		}
		if (cond.op == OPhi || cond.op == OFresh) && !truth {
			c.St.Add("off", cond)
		} else if cond.op == OPhi || cond.op == OFresh {
			c.St.Add("on", cond)
		}
		if cond.op == OBin && cond.aux == "<" && truth && isFieldVal(cond.args[0], k.pingTerm) && c.St.Has("ping") {
			c.St.Add("stale")
		}
	}
	h.Recv = func(c *Ctx, ch *Val) {
		if isFieldVal(ch, k.pingC) {
			c.St.Add("ping")
			for _, l := range c.E.P.loopsOf(c.In.Parent()).loops {
				for _, in := range l.head.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && l.blocks[c.In.Block()] && isBasicKind(ph.Type(), types.Bool) {
						c.St.Add("was "+ph.Name(), c.E.eval(c.fr, ph))
					}
				}
			}
		}
	}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == k.rehash:
			c.Opaque()
			c.handled = true
			if !c.St.Has("ping") {
				return
			}
			c.St.Add("rehashed")
			r.Count("rings taken over", 1)
			if !isFieldVal(c.Args[1], k.pingNodes) {
				c.Report("s08:other-nodes", "a ring is built from other nodes than those of the ping")
			}
		default:
			if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" || calls(c.Callee, k.call) || calls(c.Callee, srvPkg+".ClusterNode.callAsync") {
				c.handled = true
				c.Opaque()
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if !c.St.Has("ping") {
			return
		}
		if !c.St.Has("stale") {
			r.Count("pings followed", 1)
			same := ord.has(c.St, "eq", isF(k.pingSig), isF(k.sig)) || ord.has(c.St, "eq", isF(k.sig), isF(k.pingSig))
			noted := false
			for _, in := range l.head.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && isBasicKind(ph.Type(), types.Bool) {
					now, was := c.E.evalBool(c.St, c.phiFrom(ph)), c.E.vNil
					for _, w := range c.St.Find("was " + ph.Name()) {
						was = w
					}
					if now == 1 && (c.St.HasV("off", was) || c.E.evalBool(c.St, was) == 2) || now == 2 && (c.St.HasV("on", was) || c.E.evalBool(c.St, was) == 1) {
						noted = true
					}
				}
			}
			if !same && !c.St.Has("rehashed") && !noted {
				c.Report("s08:not-followed", "a ping with another ring neither changes the ring nor is noted for the next one")
			}
		}
		for _, t := range []string{"ping", "stale", "rehashed", "eq", "ne", "on", "off"} {
			c.St.Del(t)
		}
		c.St.DelPrefix("was ")
	}
	r.Explore(h, f)
	r.Need("rings taken over", 1)
	r.Need("pings followed", 2)
}

// rebuild: a ring in use has the nodes it was asked for.
func (k *rings) rebuild() {
	r, p := k.r, k.r.P
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg {
			continue
		}
		stores := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == k.ring {
						stores = true
					}
				}
			}
		}
		if !stores {
			continue
		}
		var list *ssa.Parameter
		for _, q := range f.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.String]) {
				list = q
			}
		}
		names := isBuiltin("append", func(ci ssa.CallInstruction) bool {
			s, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), types.Typ[types.String])
		})
		h := &Hooks{Interesting: anyOf(fieldUse(k.ring), callIs(k.add), names)}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if list == nil || cond.op != OBin || !truth {
				return
			}
			for i := range cond.args {
				x, y := stripConv(cond.args[i]), cond.args[1-i]
				if x.op == OLen {
					x = x.args[0]
				}
				if n, ok := y.constInt(); x.op == OParam && x.aux == list.Name() && (y.op == ONil || ok && n == 0) && cond.aux == "==" {
					c.St.Add("none")
				}
			}
		}
		isList := func(v *Val) bool { return list != nil && v.op == OParam && v.aux == list.Name() }
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case "builtin.append":
				if isList(c.Args[1]) || isList(c.Args[0]) {
					c.St.Add("given")
				}
				for _, e := range c.varargs(c.Args[1]) {
					if isFieldVal(e, k.name) {
						c.St.Add("all")
					}
					if isFieldVal(e, k.self) {
						c.St.Add("self")
					}
				}
			case k.add:
				c.Opaque()
				c.handled = true
				r.Count("nodes added", 1)
				if isList(c.Args[1]) {
					c.St.Add("given")
				}
				c.St.Add("added", c.Args[0])
				if !c.St.Has("given") && !(c.St.Has("none") && c.St.Has("self")) {
					c.Report("s08:ring-nodes", "a ring is built without the nodes given")
				}
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == ringPkg {
					c.Opaque()
					c.handled = true
				}
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			if loopHas(l, names) && !c.St.Has("all") && !c.St.Has("given") {
				c.Report("s08:ring-left-out", "a node is left out of the ring")
			}
			c.St.Del("all")
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == k.ring {
				r.Count("rings put in use", 1)
				if !c.St.HasV("added", v) {
					c.Report("s08:empty-ring", "a ring is used before nodes are added to it")
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {}
		r.Explore(h, f)
	}
	r.Need("rings put in use", 1)
	r.Need("nodes added", 1)
}
