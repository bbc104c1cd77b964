package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S09"] = checkS09
}

// reply: what a client is told about its requests.
type reply struct {
	r                                *Run
	notify, pack, send, put, connect string
	ack, pub, flow                   int64
	msgID, flowFld, typeFld, errID   *types.Var // of control messages; of errors
	code, errCode                    *types.Var // of the answer to connect; of errors
	pubID, clientID                  *types.Var
}

func checkS09(r *Run) {
	r.Rule("modular error propagation: in every function of the request handler, the store and its adapter that reports errors, when a step that can fail (a request handler, a read or write of a store, a subscription, a key that does not decode, a message that cannot be read or encoded) fails, every exit reached on that path returns an error")
	r.Rule("the handler of requests reports each failed step to the client, with the failure and the message ID of the request, before the next one or its end, or ends the connection by returning an error; a message asked for that is not in the log is such a failure")
	r.Rule("a publish is acknowledged once, with its own message ID, and only after every message of it was stored, none skipped")
	r.Rule("the answer to a connect request carries the code of the failure, or 0; a connection gets no client ID from a request that failed; the answer is sent in any case")
	r.Rule("an error notice and the answer to an API request are sent on every path; the answer to an API request that failed is an error")
	k := &reply{r: r, notify: srvPkg + "._Conn.notifyError", pack: srvPkg + "._Conn.sendPack", send: srvPkg + "._Conn.SendMessage", put: stPkg + ".MessageStore.Put", connect: srvPkg + "._Conn.onConnect"}
	for _, c := range []struct {
		n string
		v *int64
	}{{"ACKNOWLEDGE", &k.ack}, {"PUBLISH", &k.pub}} {
		v, ok := r.P.pkgConst("server/utp", c.n)
		if !ok {
			r.Violate("anchor:"+c.n, "", "constant %s not found", c.n)
			return
		}
		*c.v = v
	}
	for _, f := range []struct {
		v            **types.Var
		pkg, typ, fl string
	}{{&k.msgID, "server/utp", "ControlMessage", "MessageID"}, {&k.flowFld, "server/utp", "ControlMessage", "FlowControl"}, {&k.typeFld, "server/utp", "ControlMessage", "MessageType"},
		{&k.errID, "server/internal/types", "Error", "ID"}, {&k.errCode, "server/internal/types", "Error", "ReturnCode"}, {&k.code, "server/utp", "ConnectAcknowledge", "ReturnCode"},
		{&k.pubID, "server/utp", "Publish", "MessageID"}, {&k.clientID, srvPkg, "_Conn", "clientID"}} {
		if *f.v = r.Field(f.pkg, f.typ, f.fl); *f.v == nil {
			return
		}
	}
	for _, n := range []string{k.notify, k.pack, k.send, k.put, k.connect} {
		if r.Fn(n) == nil {
			return
		}
	}
	k.propagated()
	k.handler()
	k.published()
	k.notices()
}

// step: can the call fail in a way the client has to know about.
func (k *reply) step(c *CallCtx) bool {
	if c.IsGo || c.Sig == nil || c.Common == nil || c.ErrRes() == nil {
		return false
	}
	return k.stepName(c.Common, c.Callee)
}

func (k *reply) stepName(common *ssa.CallCommon, f *ssa.Function) bool {
	n := staticName(common)
	if common.IsInvoke() {
		return strings.HasSuffix(qualType(common.Value.Type()), ".Adapter") && strings.HasPrefix(qualType(common.Value.Type()), "server/internal/")
	}
	if f == nil || !resultsErr(f.Signature) {
		return false
	}
	for _, p := range []string{stPkg + ".MessageStore.", stPkg + ".SubscriptionStore.", "unitdb.DB.", "memdb.DB."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	switch n {
	case secPkg + ".DecodeKey", secPkg + ".GenerateKey", "server/internal/net.Read", "server/internal/net.Encode":
		return true
	}
	return strings.HasPrefix(n, srvPkg+"._Conn.") || strings.HasPrefix(n, srvPkg+".Cluster.") || strings.HasPrefix(n, srvPkg+"._Cluster.")
}

func resultsErr(s *types.Signature) bool {
	for i := 0; i < s.Results().Len(); i++ {
		if isErrType(s.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func (k *reply) stepInstr(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	return ok && k.stepName(ci.Common(), ci.Common().StaticCallee())
}

// propagated: a failed step is reported by the function it is taken in.
func (k *reply) propagated() {
	r, p := k.r, k.r.P
	h := &Hooks{Interesting: k.stepInstr}
	said := opaque(k.send, k.notify, srvPkg+"._Conn.onSpecialRequest", srvPkg+"._Conn.sendClientID", stPkg+".MessageLog.PersistOutbound", stPkg+".MessageLog.PersistInbound")
	closeC := r.Field(srvPkg, "_Conn", "closeC")
	h.Call = func(c *CallCtx) {
		if c.IsGo {
			c.Opaque()
			return
		}
		if said(c) {
			c.handled = true
			return
		}
		if !k.step(c) {
			return
		}
		c.Opaque()
		r.Count("steps", 1)
		name := shortOp(c.Name)
		c.ForkErr(nil, func(s *State) { s.Add("failed"); s.Add("at:" + name) })
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.St.Has("failed") {
			return
		}
		r.Count("exits with a failure", 1)
		if !c.mayBeSuccess(fn, res) {
			return
		}
		ev, _ := c.errValue(fn, res)
		if ev != nil && k.isError(ev) {
			return
		}
		for _, t := range c.St.WithPrefix("at:") {
			n := strings.TrimPrefix(t.N, "at:")
			c.Report("s09:dropped:"+fname(fn)+":"+n, "%s can return without an error although %s failed", fname(fn), n)
		}
	}
	for _, f := range p.funcs {
		if !resultsErr(f.Signature) || f.Parent() != nil {
			continue
		}
		n := fname(f)
		conn := strings.HasPrefix(n, srvPkg+"._Conn.") && n != srvPkg+"._Conn.handler"
		st := strings.HasPrefix(n, stPkg+".MessageStore.") || strings.HasPrefix(n, stPkg+".SubscriptionStore.")
		ad := strings.HasPrefix(n, "server/internal/db/") && strings.Contains(n, ".adapter.")
		if !conn && !st && !ad || strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Open") {
			continue
		}
		ends := fnReaches(f, closes(closeC), 0)
		for _, g := range waitedFor(f) {
			if len(p.callers(g)) == 1 && strings.HasPrefix(fname(g), srvPkg+"._Conn.") && fnReaches(g, closes(closeC), 0) {
				ends = true // the part of it that stops the goroutines
			}
		}
		if !fnReaches(f, k.stepInstr, 3) || ends {
			continue // the latter ends the connection, there is nobody to tell
		}
		r.Count("functions checked", 1)
		r.Explore(h, f)
	}
	r.Need("functions checked", 8)
	r.Need("steps", 12)
	r.Need("exits with a failure", 12)
}

// fnReaches: the function, or one it calls, has such an instruction.
func fnReaches(f *ssa.Function, is func(ssa.Instruction) bool, depth int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
	}
	if depth > 0 {
		for _, g := range waitedFor(f) {
			if strings.HasPrefix(pkgOf(g), "server/") && fnReaches(g, is, depth-1) {
				return true
			}
		}
	}
	return false
}

// isError: one of the errors there are.
func (k *reply) isError(v *Val) bool {
	v = stripConv(stripIfaceVal(v))
	return v.op == OLoad && v.args[0].op == OGlobal && isErrType(typOr(v)) || v.op == OAlloc
}

// handler: what is reported to the client.
func (k *reply) handler() {
	r := k.r
	f := r.Fn(srvPkg + "._Conn.handler")
	if f == nil {
		return
	}
	logGet := stPkg + ".MessageLog.Get"
	toBin := "server/utp.ConnectAcknowledge.ToBinary"
	is := callIs(k.notify, k.pack, k.connect, logGet, toBin)
	isStep := func(in ssa.Instruction) bool { return k.stepInstr(in) || is(in) }
	silent := opaque(srvPkg+"._Conn.newBatchManager", srvPkg+"._Conn.resume", srvPkg+"._Conn.storeInbound", srvPkg+"._Conn.storeOutbound", srvPkg+"._Conn.sendClientID", srvPkg+"._Conn.clientDisconnect",
		stPkg+".SessionStore.Get", stPkg+".SessionStore.Put", stPkg+".MessageLog.Reset", stPkg+".MessageLog.PersistOutbound", stPkg+".MessageLog.PersistInbound", k.send)
	h := &Hooks{Interesting: anyOf(isStep, fieldUse(k.clientID, k.code))}
	ids := func(v *Val) bool { // the message ID of the request
		v = stripConv(v)
		fld := ""
		if v.op == OLoad && v.args[0].op == OFAddr {
			fld = v.args[0].fld.Name()
		} else if v.op == OField {
			fld = v.fld.Name()
		}
		return fld == "MessageID" && v.contains(func(x *Val) bool { return x.op == OParam && x.aux == f.Params[1].Name() }) ||
			v.op == OComp && v.aux == "pair:request ID"
	}
	h.Call = func(c *CallCtx) {
		e := c.E
		switch c.Name {
		case k.notify:
			c.Opaque()
			c.handled = true
			r.Count("failures reported", 1)
			if !ids(c.Args[2]) {
				c.Report("s09:reported-for-other", "a failure is reported for another message ID than the request's")
			}
			if c.St.Has("failed") && !c.St.HasV("failed", c.Args[1]) {
				c.Report("s09:reported-other", "what is reported to the client is not the failure of its request")
			}
			if er := c.Args[1]; e.nilness(c.St, er) == 1 {
				c.Report("s09:reported-nothing", "a failure is reported that there is not")
			}
			c.St.Del("failed")
		case k.connect:
			c.Opaque()
			r.Count("connects", 1)
			er := c.ErrRes()
			c.ForkErr(func(s *State) { s.Add("connecting") }, func(s *State) {
				s.Add("connecting")
				s.Add("failed", er)
				s.Add("connect failed", er)
			})
		case toBin:
			c.Opaque()
			r.Count("connect answers", 1)
			v := stripConv(e.fieldOf(c.Args[0], k.code))
			if c.Args[0].op == OAlloc {
				v = stripConv(e.load(c.St, e.faddr(c.Args[0], k.code), k.code.Type()))
			}
			if c.St.Has("connect failed") {
				if v == nil || !(isFieldVal(v, k.errCode) && c.St.HasV("connect failed", fieldBase(v))) {
					c.Report("s09:connect-code", "a connect request that failed is not answered with the code of its failure")
				}
			} else if n, ok := v.constInt(); !ok || n != 0 {
				c.Report("s09:connect-code-ok", "a connect request that succeeded is answered with a failure code")
			}
			c.ForkErr(func(s *State) { s.Add("answer made") }, func(s *State) { s.Add("failed", c.ErrRes()) })
		case k.pack:
			c.Opaque()
			c.handled = true
			if c.St.Has("answer made") {
				c.St.Add("answered")
			}
		case logGet:
			c.Opaque()
			r.Count("messages asked for", 1)
			res := c.Res
			c.Fork(func(s *State) { e.setFact(s, res, e.vNonNil) })
			c.Fork(func(s *State) { e.setFact(s, res, e.vNil); s.Add("failed", res) })
		default:
			if silent(c) {
				c.handled = true
				if c.ErrRes() != nil {
					c.ForkErr(nil, nil)
				}
				return
			}
			if k.step(c) {
				c.Opaque()
				r.Count("request steps", 1)
				if c.St.Has("failed") {
					c.Report("s09:not-reported", "a step of a request that failed is not reported before the next")
				}
				er := c.ErrRes()
				c.ForkErr(nil, func(s *State) { s.Add("failed", er) })
			} else if c.IsGo {
				c.Opaque()
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == k.clientID {
			r.Count("client IDs set", 1)
			if c.St.Has("connect failed") {
				c.Report("s09:connected-after-failure", "a connection gets a client ID from a connect request that failed")
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if c.St.Has("failed") {
			c.Report("s09:not-reported", "a step of a request that failed is not reported before the next")
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("request exits", 1)
		if c.St.Has("connecting") && !c.St.Has("answered") && (c.mayBeSuccess(fn, res) || c.St.Has("answer made")) {
			c.Report("s09:connect-not-answered", "a connect request is not answered")
		}
		if !c.St.Has("failed") || !c.mayBeSuccess(fn, res) {
			return
		}
		ev, _ := c.errValue(fn, res)
		if ev != nil && k.isError(ev) {
			return
		}
		c.Report("s09:not-reported", "a request can end without its failure being reported to the client or ending the connection")
	}
	r.Explore(h, f)
	r.Need("failures reported", 1)
	r.Need("connects", 1)
	r.Need("connect answers", 1)
	r.Need("messages asked for", 1)
	r.Need("request steps", 1)
	r.Need("client IDs set", 1)
}

// published: when a publish is acknowledged.
func (k *reply) published() {
	r := k.r
	special := srvPkg + "._Conn.onSpecialRequest"
	putIn := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if staticName(ci.Common()) == k.put {
			return true
		}
		if _, ok := in.(*ssa.Go); ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && strings.HasPrefix(pkgOf(g), "server/") && fnReaches(g, callIs(k.put), 2)
	}
	for _, f := range r.P.funcs {
		if pkgOf(f) != srvPkg || f.Parent() != nil || !fnReaches(f, callIs(k.put), 2) || fname(f) == srvPkg+"._Conn.handler" {
			continue
		}
		has := false // takes a whole publish request
		for _, p := range f.Params {
			has = has || strings.HasSuffix(p.Type().String(), "utp.Publish")
		}
		if !has {
			continue
		}
		f := f
		h := &Hooks{Interesting: anyOf(k.stepInstr, callIs(k.put, k.pack, special), fieldUse(k.msgID, k.flowFld, k.typeFld, k.pubID))}
		h.Call = func(c *CallCtx) {
			if c.IsGo {
				c.Opaque()
				return
			}
			switch c.Name {
			case k.put:
				c.Opaque()
				r.Count("messages stored", 1)
				if c.St.Has("acknowledged") {
					c.Report("s09:acknowledged-early", "a publish is acknowledged before all its messages are stored")
				}
				c.ForkErr(func(s *State) { s.Add("stored") }, func(s *State) { s.Add("failed") })
			case special:
				c.Opaque()
				c.handled = true
				c.St.Add("special")
			case k.pack:
				c.Opaque()
				c.handled = true
				get := func(fld *types.Var) *Val {
					m := stripIfaceVal(c.Args[1])
					v := c.E.fieldOf(m, fld)
					if m.op == OAlloc {
						v = c.E.load(c.St, c.E.faddr(m, fld), fld.Type())
					}
					return stripConv(v)
				}
				if n, ok := get(k.flowFld).constInt(); !ok || n != k.ack {
					return
				}
				r.Count("publishes acknowledged", 1)
				if c.St.Has("acknowledged") {
					c.Report("s09:acknowledged-twice", "a publish is acknowledged twice")
				}
				if c.St.Has("failed") {
					c.Report("s09:acknowledged-failed", "a publish is acknowledged although a message of it was not stored")
				}
				if !isFieldVal(get(k.msgID), k.pubID) {
					c.Report("s09:acknowledged-other", "a publish is acknowledged with another message ID than its own")
				}
				if c.St.Has("left early") && !c.St.Has("special") {
					c.Report("s09:not-stored:stops", "a publish is acknowledged though not all of its messages were looked at")
				}
				c.St.Add("acknowledged")
			default:
				if f == c.Callee {
					return
				}
				if k.step(c) && !fnReaches(c.Callee, callIs(k.put, k.pack), 2) {
					c.Opaque()
					c.ForkErr(nil, func(s *State) { s.Add("failed") })
				}
			}
		}
		r.eachHooks(h, &each{name: "messages of a publish", key: "s09:not-stored", what: "a message of a publish can be passed over without being stored", is: loopIs(nil, putIn), done: []string{"stored", "failed", "special"}, only: true})
		h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if c.In.Block() != l.head && loopHas(l, putIn) {
				c.St.Add("left early")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if c.mayBeSuccess(fn, res) && c.St.Has("failed") {
				if ev, _ := c.errValue(fn, res); ev != nil && k.isError(ev) {
					return
				}
				c.Report("s09:publish-failed", "a publish succeeds although a message of it was not stored")
			}
		}
		r.Explore(h, f)
	}
	r.Need("messages stored", 1)
	r.Need("messages of a publish", 1)
	r.Need("publishes acknowledged", 1)
}

// notices: what is sent to the client in any case.
func (k *reply) notices() {
	r := k.r
	const marshal = "encoding/json.Marshal"
	for _, n := range []string{k.notify, srvPkg + "._Conn.onSpecialRequest"} {
		f := r.Fn(n)
		if f == nil {
			continue
		}
		h := &Hooks{Interesting: anyOf(callIs(marshal, k.send), fieldUse(k.errID))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case marshal:
				c.Opaque()
				v := stripIfaceVal(c.Args[0])
				if n == k.notify {
					id := c.E.load(c.St, c.E.faddr(v, k.errID), k.errID.Type())
					if id == nil || !id.contains(func(x *Val) bool { return x.op == OParam && x.aux == f.Params[2].Name() }) {
						c.Report("s09:notice-without-id", "an error notice does not carry the message ID it is for")
					}
					if !(v.op == OParam && v.aux == f.Params[1].Name()) && v.op != OAlloc {
						c.Report("s09:notice-of-other", "an error notice is made of something else than the error")
					}
				}
				c.derived("json", nil, func(s *State) { s.Add("sent") })
			case k.send:
				c.Opaque()
				c.handled = true
				r.Count("notices", 1)
				c.St.Add("sent")
			default:
				if c.Callee != nil && c.Callee.Parent() == nil && strings.HasPrefix(c.Name, srvPkg+"._Conn.on") {
					c.Opaque()
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if fn == f && !c.St.Has("sent") {
				c.Report("s09:notice-not-sent:"+n, "%s can end without anything being sent to the client", n)
			}
		}
		r.Explore(h, f)
	}
	r.Need("notices", 2)
	// API requests
	for _, f := range r.P.funcs {
		s := f.Signature.Results()
		if pkgOf(f) != srvPkg || f.Signature.Recv() == nil || s.Len() != 2 || f.Parent() != nil {
			continue
		}
		if _, ok := s.At(0).Type().Underlying().(*types.Interface); !ok {
			continue
		}
		if b, ok := s.At(1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		f := f
		fails := func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && resultsErr(ci.Common().Signature())
		}
		h := &Hooks{Interesting: fails}
		h.Call = func(c *CallCtx) {
			if c.IsGo || c.IsDefer || c.ErrRes() == nil || strings.Contains(c.Name, "zerolog") {
				return
			}
			c.Opaque()
			r.Count("API steps", 1)
			c.ForkErr(nil, func(s *State) { s.Add("failed") })
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("API answers", 1)
			ok := c.E.normRes(c.St, res[1])
			b, isC := ok.boolConst()
			err := strings.HasSuffix(typOr(stripIfaceVal(res[0])).String(), "types.Error")
			if c.St.Has("failed") && (!isC || b || !err) {
				c.Report("s09:api-failed:"+fname(fn), "%s answers a request that failed with something else than an error", fname(fn))
			}
		}
		r.Explore(h, f)
	}
	r.Need("API answers", 2)
	r.Need("API steps", 2)
}
