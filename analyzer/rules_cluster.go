package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S07"] = checkS07
}

// election: the terms, votes and leader of a cluster node.
type election struct {
	r                       *Run
	term, leader            *types.Var
	reqTerm, reqNode        *types.Var
	pingTerm, pingLeader    *types.Var
	result, resTerm         *types.Var
	voteReq, voteResp       *types.Var
	voteC, pingC            *types.Var
	self, nodes             *types.Var
	call, callAsync, sendPs string
}

func checkS07(r *Run) {
	r.Rule("the term of a node never goes down; it is raised by one to lead an election, and otherwise set to the term of a request or ping that is not older")
	r.Rule("a vote is granted only when the term of the request was compared with the term of the node and is newer, the term was then set to it and the leader forgotten; every request is answered, with the term of the node after the vote")
	r.Rule("a node makes itself leader only if the votes counted, its own and one for each reply that grants it, are more than half of all nodes, for every number of nodes; the votes are asked for in the term just raised, for this node, and each reply has its own place")
	r.Rule("a ping that is not older makes its sender the leader in its term, an older one changes nothing; only a leader sends pings, with its own name and term")
	k := &election{r: r, call: srvPkg + ".ClusterNode.call", callAsync: srvPkg + ".ClusterNode.callAsync"}
	fs := []struct {
		v       **types.Var
		typ, fl string
	}{{&k.term, "clusterFailover", "term"}, {&k.leader, "clusterFailover", "leader"}, {&k.reqTerm, "ClusterVoteRequest", "Term"}, {&k.reqNode, "ClusterVoteRequest", "Node"},
		{&k.pingTerm, "ClusterPing", "Term"}, {&k.pingLeader, "ClusterPing", "Leader"}, {&k.result, "ClusterVoteResponse", "Result"}, {&k.resTerm, "ClusterVoteResponse", "Term"},
		{&k.voteReq, "ClusterVote", "req"}, {&k.voteResp, "ClusterVote", "resp"}, {&k.voteC, "clusterFailover", "electionVote"}, {&k.pingC, "clusterFailover", "leaderPing"},
		{&k.self, "Cluster", "thisNodeName"}, {&k.nodes, "Cluster", "nodes"}}
	for _, f := range fs {
		if *f.v = r.Field(srvPkg, f.typ, f.fl); *f.v == nil {
			return
		}
	}
	k.explore()
	k.vote()
}

// number of a term in the number of other nodes and the votes counted.
func (k *election) number(v *Val, n, votes int64) (int64, bool) {
	switch v.op {
	case OConst:
		if v.cv != nil && v.cv.Kind() == constant.Int {
			return v.constInt()
		}
	case OConv:
		return k.number(v.args[0], n, votes)
	case OLen:
		if isFieldVal(stripConv(v.args[0]), k.nodes) {
			return n, true
		}
	case OPhi:
		return votes, true
	case OBin:
		a, ok := k.number(v.args[0], n, votes)
		b, ok2 := k.number(v.args[1], n, votes)
		if !ok || !ok2 {
			return 0, false
		}
		switch v.aux {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b != 0 {
				return a / b, true
			}
		case "%":
			if b != 0 {
				return a % b, true
			}
		case "<<":
			if b >= 0 && b < 32 {
				return a << uint(b), true
			}
		case ">>":
			if b >= 0 && b < 32 {
				return a >> uint(b), true
			}
		}
	}
	return 0, false
}

// phis: the counters in v.
func valPhis(v *Val) []*ssa.Phi {
	var ps []*ssa.Phi
	v.contains(func(x *Val) bool {
		if x.op == OPhi {
			if p, ok := x.site.(*ssa.Phi); ok {
				ps = append(ps, p)
			}
		}
		return false
	})
	return ps
}

// majority: the comparisons on the path leave only counts of more than half of all nodes; also returns the counter.
func (k *election) majority(st *State) (*ssa.Phi, bool) {
	counters := map[*ssa.Phi]bool{}
	for _, kind := range []string{"cond", "not"} {
		for _, t := range st.Find(kind) {
			for _, p := range valPhis(t) {
				counters[p] = true
			}
		}
	}
	for p := range counters {
		ok := true
		any := false
		for n := int64(0); n < 40 && ok; n++ {
			for v := int64(-2); v <= n+3 && ok; v++ {
				possible := true
				for _, kind := range []string{"cond", "not"} {
					for _, t := range st.Find(kind) {
						ps := valPhis(t)
						if len(ps) == 0 || len(ps) > 1 || ps[0] != p {
							continue
						}
						a, aok := k.number(t.args[0], n, v)
						b, bok := k.number(t.args[1], n, v)
						if !aok || !bok {
							continue
						}
						any = true
						h := a < b
						if t.aux == "==" {
							h = a == b
						}
						possible = possible && h == (kind == "cond")
					}
				}
				if possible && 2*v <= n+1 {
					ok = false
				}
			}
		}
		if ok && any {
			return p, true
		}
	}
	return nil, false
}

func (k *election) explore() {
	r, p := k.r, k.r.P
	used := fieldUse(k.term, k.leader, k.reqTerm, k.pingTerm, k.pingLeader, k.result, k.resTerm, k.voteC, k.pingC)
	base := callIs(k.call, k.callAsync)
	is := func(in ssa.Instruction) bool {
		if base(in) || used(in) {
			return true
		}
		switch in.(type) {
		case *ssa.Send, *ssa.Select:
			return in.Parent().Pkg != nil && pkgOf(in.Parent()) == srvPkg && typeName(deref(recvType(in.Parent()))) == "Cluster"
		}
		return false
	}
	round := func(l *loop, fn *ssa.Function) bool {
		return loopHas(l, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.RecvOnly && ssaField(s.Chan) == k.voteC {
						return true
					}
				}
			case *ssa.UnOp:
				return ssaField(x.X) == k.voteC && x.Op.String() == "<-"
			}
			return false
		})
	}
	seen := map[ssa.Instruction]bool{}
	counters := map[*ssa.Phi]bool{}
	acts := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				f := structOf(fa.X.Type()).Field(fa.Field)
				_, fresh := stripSSA(fa.X).(*ssa.Alloc)
				return (f == k.term || f == k.leader) && !fresh
			}
		case *ssa.Send:
			return typeName(x.X.Type()) == "ClusterVoteResponse"
		case ssa.CallInstruction:
			n := staticName(x.Common())
			if n == k.call || n == k.callAsync {
				for _, a := range x.Common().Args {
					if v, ok := constOfString(a); ok && (v == "Cluster.Ping" || v == "Cluster.Vote") {
						return true
					}
				}
			}
		}
		return false
	}
	// the first pass finds out what counts the votes, the second looks at how it counts
	for pass := 0; pass < 2; pass++ {
		pass := pass
		explore := func(f *ssa.Function) {
			h := &Hooks{Interesting: is}
			cur := func(c *Ctx, fld *types.Var, any *Val) *Val {
				return c.E.load(c.St, c.E.faddr(any, fld), fld.Type())
			}
			fo := func(c *Ctx) *Val { // the failover state the path works on
				for _, t := range c.St.Find("fo") {
					return t
				}
				return nil
			}
			related := func(v *Val) bool {
				return isFieldVal(v, k.pingTerm) || isFieldVal(v, k.reqTerm)
			}
			// notOlder / newer: known relation of a term t to the term v of the node.
			newer := func(c *Ctx, v, t *Val) bool { return order{}.has(c.St, "lt", isV(v), isV(t)) }
			notOlder := func(c *Ctx, v, t *Val) bool {
				return newer(c, v, t) || order{}.has(c.St, "ge", isV(t), isV(v)) || order{}.has(c.St, "eq", isV(t), isV(v)) || order{}.has(c.St, "eq", isV(v), isV(t))
			}
			h.Assume = func(c *Ctx, cond *Val, truth bool) {
				if cond.op == OBin && len(cond.args) == 2 {
					a, b := cond.args[0], cond.args[1]
					if related(a) || related(b) || isFieldVal(a, k.self) || isFieldVal(b, k.self) || isFieldVal(a, k.pingLeader) || isFieldVal(b, k.pingLeader) {
						order{}.assume(c, cond, truth)
					}
					if fb := fo(c); fb != nil && c.St.Has("pinged") {
						for i := range cond.args {
							if isFieldVal(cond.args[i], k.pingTerm) && cond.args[1-i] == cur(c, k.term, fb) {
								c.St.Add("ping", cond.args[i])
							}
						}
					}
					if len(valPhis(cond)) > 0 && (cond.aux == "<" || cond.aux == "==") {
						if truth {
							c.St.Add("cond", cond)
						} else {
							c.St.Add("not", cond)
						}
					}
				}
				if isFieldVal(cond, k.result) && truth {
					c.St.Add("granted by reply")
				}
			}
			at := func(c *Ctx, addr *Val) {
				if addr.op == OFAddr && (addr.fld == k.term || addr.fld == k.leader) && fo(c) != addr.args[0] {
					c.St.Del("fo")
					c.St.Add("fo", addr.args[0])
				}
			}
			h.Load = at
			h.Store = func(c *Ctx, addr, v *Val) {
				if addr.op != OFAddr || addr.args[0].op == OAlloc {
					return
				}
				at(c, addr)
				switch addr.fld {
				case k.term:
					seen[c.In] = true
					r.Count("changes of the term", 1)
					old := c.E.load(c.St, addr, k.term.Type())
					raised := false
					if v.op == OBin && v.aux == "+" {
						for i := range v.args {
							if n, ok := v.args[1-i].constInt(); ok && n > 0 && v.args[i] == old {
								raised = true
							}
						}
					}
					switch {
					case raised:
						c.St.Add("candidate", v)
					case isFieldVal(v, k.reqTerm) && newer(c, old, v):
						c.St.Add("may vote", fieldBase(v))
					case related(v) && notOlder(c, old, v):
					default:
						c.Report("s07:term:"+f.Name(), "the term of a node is set to something that is not known to be newer")
					}
					c.St.Del("leader forgotten")
				case k.leader:
					seen[c.In] = true
					r.Count("changes of the leader", 1)
					switch {
					case isStr(v, ""):
						c.St.Add("leader forgotten")
						c.St.Del("leader of ping")
					case isFieldVal(v, k.pingLeader):
						c.St.Add("leader of ping", fieldBase(v))
						c.St.Del("leader forgotten")
					case isFieldVal(v, k.self):
						c.St.Del("leader forgotten")
						if ph, ok := k.majority(c.St); !ok {
							c.Report("s07:no-majority", "a node makes itself leader without votes from more than half of all nodes")
						} else {
							counters[ph] = true
						}
						if len(c.St.Find("candidate")) == 0 {
							c.Report("s07:leads-old-term", "a node makes itself leader in a term it did not raise")
						}
					default:
						c.Report("s07:leader:"+f.Name(), "the leader is set to something that is neither this node after an election nor the sender of a ping")
					}
				}
			}
			h.Recv = func(c *Ctx, ch *Val) {
				switch {
				case isFieldVal(ch, k.voteC):
					c.St.Add("asked for a vote")
				case isFieldVal(ch, k.pingC):
					c.St.Add("pinged")
				}
			}
			h.Send = func(c *Ctx, ch, v *Val) {
				if typeName(typOr(v)) != "ClusterVoteResponse" && !isFieldVal(ch, k.voteResp) {
					return
				}
				seen[c.In] = true
				r.Count("votes", 1)
				c.St.Add("answered")
				yes := c.E.fieldOf(v, k.result)
				tv := c.E.fieldOf(v, k.resTerm)
				now := (*Val)(nil)
				if b := fo(c); b != nil {
					now = cur(c, k.term, b)
				}
				if now == nil || tv != now {
					c.Report("s07:answer-term", "the answer to a request for a vote does not carry the term of the node after the vote")
				}
				if n := c.E.evalBool(c.St, yes); n == 0 && yes.op == OConst {
					return
				} else if no(c, yes) {
					return
				}
				ok := false
				for _, q := range c.St.Find("may vote") {
					if !isFieldVal(ch, k.voteResp) {
						continue
					}
					// the request came with the channel that is answered
					same := isFieldVal(q, k.voteReq) && fieldBase(q) == fieldBase(ch)
					t := now
					if same && t != nil && isFieldVal(t, k.reqTerm) && fieldBase(t) == q {
						ok = true
					}
				}
				if !ok {
					c.Report("s07:vote", "a vote is granted although the term of the request was not found to be newer than that of the node and then taken over")
				}
				if b := fo(c); b == nil || !isStr(cur(c, k.leader, b), "") {
					c.Report("s07:vote-keeps-leader", "a vote is granted although the node still has a leader")
				}
				c.St.Del("may vote")
			}
			h.Call = func(c *CallCtx) {
				if acts(c.In) {
					seen[c.In] = true
				}
				switch c.Name {
				case k.call, k.callAsync:
					c.Opaque()
					c.handled = true
					proc := ""
					if s, ok := strVal(c.Args[1]); ok {
						proc = s
					}
					b := fo(c.Ctx)
					req := stripIfaceVal(c.Args[2])
					get := func(fld *types.Var) *Val { return c.E.load(c.St, c.E.faddr(req, fld), fld.Type()) }
					switch proc {
					case "Cluster.Vote":
						r.Count("requests for votes", 1)
						t := get(k.reqTerm)
						if b == nil || t != cur(c.Ctx, k.term, b) || !c.St.HasV("candidate", t) {
							c.Report("s07:request-term", "votes are asked for in another term than the one the node just raised")
						}
						if !isFieldVal(get(k.reqNode), k.self) {
							c.Report("s07:request-node", "votes are asked for another node")
						}
						if b == nil || !isStr(cur(c.Ctx, k.leader, b), "") {
							c.Report("s07:candidate-keeps-leader", "votes are asked for while the node still has a leader")
						}
						if pass == 0 {
							k.ownReply(c.Ctx, c.Common.Args[3])
						}
					case "Cluster.Ping":
						r.Count("pings", 1)
						if b == nil || get(k.pingTerm) != cur(c.Ctx, k.term, b) || !isFieldVal(get(k.pingLeader), k.self) {
							c.Report("s07:ping", "a ping does not carry the name and the term of the node that leads")
						}
						if !c.St.Has("leads") {
							lead := false
							if b != nil {
								l := cur(c.Ctx, k.leader, b)
								self := func(v *Val) bool { return isFieldVal(v, k.self) }
								lead = order{}.has(c.St, "eq", isV(l), self) || order{}.has(c.St, "eq", self, isV(l)) || isFieldVal(l, k.self)
							}
							if !lead {
								c.Report("s07:ping-not-leader", "a node that is not known to be the leader sends pings")
							}
							c.St.Add("leads")
						}
					}
				default:
					if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" || pkgOf(c.Callee) == "server/internal/pkg/hash" {
						c.Opaque()
						c.handled = true
					} else if c.Name == srvPkg+".Cluster.rehash" {
						c.Opaque()
						c.handled = true
						c.St.Add("rehashed")
					}
				}
			}
			done := func(c *Ctx) {
				if c.St.Has("asked for a vote") && !c.St.Has("answered") {
					c.Report("s07:not-answered", "a request for a vote is not answered")
				}
				if !c.St.Has("pinged") {
					return
				}
				r.Count("pings handled", 1)
				b := fo(c)
				if b == nil {
					c.Report("s07:ping-not-compared", "a ping is taken without looking at the term")
					return
				}
				// the ping that was compared
				var t *Val
				older := false
				for _, x := range c.St.Find("ping") {
					t = x
				}
				for _, x := range c.St.Find("lt") {
					older = older || t != nil && x.args[0] == t
				}
				changed := len(c.St.Find("leader of ping")) > 0
				if older {
					if changed || c.St.Has("rehashed") {
						c.Report("s07:stale-ping", "a ping from an older term changes the leader or the ring")
					}
					return
				}
				if t == nil {
					c.Report("s07:ping-not-compared", "a ping is taken without looking at its term")
					return
				}
				now := cur(c, k.term, b)
				ge := order{}.has(c.St, "ge", isV(now), isV(t)) || order{}.has(c.St, "eq", isV(now), isV(t)) || order{}.has(c.St, "eq", isV(t), isV(now))
				if now != t && !(ge && notOlder(c, now, t)) {
					c.Report("s07:ping-term", "the term of a ping that is not older is not taken over")
				}
				l := cur(c, k.leader, b)
				isL := func(v *Val) bool { return isFieldVal(v, k.pingLeader) && fieldBase(v) == fieldBase(t) }
				if !isL(l) && !order.has(order{}, c.St, "eq", isV(l), isL) && !order.has(order{}, c.St, "eq", isL, isV(l)) {
					c.Report("s07:ping-leader", "the sender of a ping that is not older does not become the leader")
				}
			}
			h.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
				for _, in := range l.head.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && counters[ph] && pass == 1 {
						r.Count("vote counts", 1)
						if n, ok := c.phiFrom(ph).constInt(); !ok || n > 1 {
							c.Report("s07:votes-start", "the count of votes does not start with the node's own")
						}
					}
				}
			}
			h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
				for _, in := range l.head.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok || !counters[ph] || pass == 0 {
						continue
					}
					nv := c.phiFrom(ph)
					same := nv.op == OPhi && nv.site == ph
					n, isC := nv.constInt()
					switch {
					case same, isC && n <= 1:
					case nv.op == OBin && nv.aux == "+" && c.St.Has("granted by reply"):
						one := false
						for i := range nv.args {
							if n, ok := nv.args[1-i].constInt(); ok && n <= 1 && nv.args[i].op == OPhi && nv.args[i].site == ph {
								one = true
							}
						}
						if !one {
							c.Report("s07:votes-counted", "a reply counts for more than one vote: %s", nv)
						}
					default:
						c.Report("s07:votes-counted", "something else than a reply that grants the vote is counted as a vote: %s", nv)
					}
				}
				for _, t := range []string{"granted by reply", "cond", "not"} {
					c.St.Del(t)
				}
				if round(l, fn) {
					done(c)
					if b := fo(c); b != nil {
						for _, fld := range []*types.Var{k.term, k.leader} {
							c.E.store(c.St, c.E.faddr(b, fld), c.E.in.mk(Val{op: OFresh, aux: "round", fld: fld, typ: fld.Type()}))
						}
					}
					for _, t := range []string{"asked for a vote", "answered", "pinged", "may vote", "leader of ping", "leader forgotten", "rehashed", "ping", "candidate", "lt", "ge", "eq", "ne", "leads"} {
						c.St.Del(t)
					}
				}
			}
			h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
				r.Count("exits", 1)
				if len(c.St.Find("candidate")) > 0 || !c.St.Has("asked for a vote") {
					return
				}
				done(c)
			}
			r.Explore(h, f)
		}
		if f := r.Fn(srvPkg + ".Cluster.run"); f != nil {
			explore(f)
		}
		for _, f := range p.funcs {
			if pkgOf(f) != srvPkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if acts(in) && !seen[in] {
						explore(f)
					}
				}
			}
		}
	}
	r.Need("changes of the term", 3)
	r.Need("changes of the leader", 3)
	r.Need("votes", 2)
	r.Need("requests for votes", 1)
	r.Need("pings", 1)
	r.Need("pings handled", 1)
	r.Need("vote counts", 1)
}

// no: the vote is known to be refused.
func no(c *Ctx, v *Val) bool {
	if v.op == OZero {
		return true
	}
	if v.op == OConst && v.cv != nil && v.cv.Kind() == constant.Bool {
		return !constant.BoolVal(v.cv)
	}
	return c.E.evalBool(c.St, v) == 2
}

// ownReply: the place of a reply is made for each request.
func (k *election) ownReply(c *Ctx, v ssa.Value) {
	a, ok := stripIface(v).(*ssa.Alloc)
	in := c.In
	if ok {
		for _, l := range c.E.P.loopsOf(in.Parent()).loops {
			if l.blocks[in.Block()] && !l.blocks[a.Block()] {
				ok = false
			}
		}
	}
	if !ok {
		c.Report("s07:shared-reply", "the replies to several requests for votes share one place")
	}
}

// vote: the answer given to a candidate is the one given to its own request.
func (k *election) vote() {
	r, p := k.r, k.r.P
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg || len(f.Params) != 3 || typeName(deref(f.Params[2].Type())) != "ClusterVoteResponse" || f.Parent() != nil {
			continue
		}
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				return x.Op.String() == "<-"
			}
			return false
		}}
		h.Call = func(c *CallCtx) {}
		h.Send = func(c *Ctx, ch, v *Val) {
			if !isFieldVal(ch, k.voteC) {
				return
			}
			q := c.E.load(c.St, c.E.faddr(v, k.voteReq), k.voteReq.Type())
			if q.op != OParam || q.aux != f.Params[1].Name() {
				c.Report("s07:vote-request", "the node is asked to vote on another request than the one received")
			}
			c.St.Add("reply", c.E.load(c.St, c.E.faddr(v, k.voteResp), k.voteResp.Type()))
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("answers to candidates", 1)
			told := true
			to := c.E.in.mk(Val{op: OParam, aux: f.Params[2].Name(), typ: f.Params[2].Type()})
			for _, fld := range []*types.Var{k.result, k.resTerm} {
				x := c.E.load(c.St, c.E.faddr(to, fld), fld.Type())
				if !isFieldVal(x, fld) || fieldBase(x).op != ORecv || !c.St.HasV("reply", fieldBase(x).args[0]) {
					told = false
				}
			}
			if c.mayBeSuccess(fn, res) && !told {
				c.Report("s07:vote-answer", "a candidate is told something else than the answer to its own request")
			}
		}
		r.Explore(h, f)
	}
	r.Need("answers to candidates", 1)
}

// recvType is the type of the receiver of a function, or nothing.
func recvType(f *ssa.Function) types.Type {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() != nil {
		return f.Signature.Recv().Type()
	}
	return types.Typ[types.Invalid]
}

// strVal: the string v is.
func strVal(v *Val) (string, bool) {
	if v.op == OConst && v.cv != nil && v.cv.Kind() == constant.String {
		return constant.StringVal(v.cv), true
	}
	return "", false
}

func isStr(v *Val, s string) bool {
	x, ok := strVal(v)
	return ok && x == s || s == "" && v.op == OZero
}

func constOfString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}
