package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S05"] = checkS05
}

// connRules: how a connection ends.
type connRules struct {
	r                                *Run
	closed, closeC, closeW, socket   *types.Var
	connID, clientID, clnode, bm     *types.Var
	stopC, stopW                     *types.Var // of connections of other nodes; of batches
	bmStop                           *types.Var
	statID, statTopic                *types.Var
	table                            *types.Var
	add, get, remove, del, all       string
	contract, bmClose, isReady       string
	end                              *ssa.Function
	enders                           map[string]bool // functions that end the connection, or find it ended
	reach                            map[string]bool // functions that wait for its goroutines
	loops                            map[*ssa.Function]string
}

func checkS05(r *Run) {
	r.Rule("ending a connection is done once, by who changes the closed mark from 0 to 1; then its goroutines are told and waited for, every subscription counted is removed from the store with its own ID and topic for the contract of the client, the connection is taken out of the table under its own ID, and its batches are stopped; the socket is closed in any case")
	r.Rule("each goroutine of a connection looks at the closing channel in every round and stops when it is closed; when it stops because of an error it ends the connection, after having said that it is gone; as many goroutines are announced as say so")
	r.Rule("a goroutine that serves a connection of another node takes it out of the table and removes its subscriptions when it stops; a request to disconnect ends the connection")
	r.Rule("the table holds each connection under its own ID; a connection gets its client ID and its batches only while it has none")
	k := &connRules{r: r, add: srvPkg + "._ConnCache.add", get: srvPkg + "._ConnCache.get", remove: srvPkg + "._ConnCache.delete", del: stPkg + ".SubscriptionStore.Delete", all: msgPkg + ".Stats.All",
		contract: uidPkg + ".ID.Contract", bmClose: srvPkg + ".batchManager.close", enders: map[string]bool{}, reach: map[string]bool{}, loops: map[*ssa.Function]string{}}
	for _, f := range []struct {
		v            **types.Var
		pkg, typ, fl string
	}{{&k.closed, srvPkg, "_Conn", "closed"}, {&k.closeC, srvPkg, "_Conn", "closeC"}, {&k.closeW, srvPkg, "_Conn", "closeW"}, {&k.socket, srvPkg, "_Conn", "socket"},
		{&k.connID, srvPkg, "_Conn", "connID"}, {&k.clientID, srvPkg, "_Conn", "clientID"}, {&k.clnode, srvPkg, "_Conn", "clnode"}, {&k.bm, srvPkg, "_Conn", "batchManager"},
		{&k.stopC, srvPkg, "_Conn", "stop"}, {&k.stopW, srvPkg, "batchManager", "stopWg"}, {&k.bmStop, srvPkg, "batchManager", "stop"},
		{&k.statID, msgPkg, "Stat", "ID"}, {&k.statTopic, msgPkg, "Stat", "Topic"}, {&k.table, srvPkg, "_ConnCache", "connections"}} {
		if *f.v = r.Field(f.pkg, f.typ, f.fl); *f.v == nil {
			return
		}
	}
	for _, n := range []string{k.add, k.get, k.remove, k.del, k.all, k.contract, k.bmClose} {
		if r.Fn(n) == nil {
			return
		}
	}
	if !k.find() {
		return
	}
	k.ending()
	k.others()
	k.goroutines()
	k.disconnect()
	k.tableRules()
	k.once()
	k.batches()
	k.listing()
}

// closes: the instruction closes the channel kept in the field.
func closes(fld *types.Var) func(ssa.Instruction) bool {
	return isBuiltin("close", func(ci ssa.CallInstruction) bool {
		return ssaField(ci.Common().Args[0]) == fld
	})
}

// waitOp: operation of the wait group kept in the field.
func waitOp(c *CallCtx, fld *types.Var) string {
	if strings.HasPrefix(c.Name, "sync.WaitGroup.") && len(c.Args) > 0 && isFieldVal(c.Args[0], fld) {
		return strings.TrimPrefix(c.Name, "sync.WaitGroup.")
	}
	return ""
}

// syncCallees: functions of the package a function calls and waits for.
func syncCallees(f *ssa.Function) (res []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var common *ssa.CallCommon
			switch x := in.(type) {
			case *ssa.Call:
				common = x.Common()
			case *ssa.Defer:
				common = x.Common()
			default:
				continue
			}
			if t := common.StaticCallee(); t != nil {
				res = append(res, t)
			} else if mc, ok := common.Value.(*ssa.MakeClosure); ok {
				res = append(res, mc.Fn.(*ssa.Function))
			}
		}
	}
	return
}

// waitedFor: the same, through function literals.
func waitedFor(f *ssa.Function) (res []*ssa.Function) {
	for _, t := range syncCallees(f) {
		res = append(res, t)
		if t.Parent() != nil {
			res = append(res, waitedFor(t)...)
		}
	}
	return
}

func syncReach(f *ssa.Function, pred func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	for _, t := range syncCallees(f) {
		if pkgOf(t) == srvPkg && syncReach(t, pred, seen) {
			return true
		}
	}
	return false
}

// find: the function that ends a connection is the innermost one that closes the channel its goroutines listen to and looks at the closed mark.
func (k *connRules) find() bool {
	r, p := k.r, k.r.P
	tells, marks := closes(k.closeC), fieldUse(k.closed)
	cand := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) == srvPkg && f.Parent() == nil && syncReach(f, tells, map[*ssa.Function]bool{}) && syncReach(f, marks, map[*ssa.Function]bool{}) {
			cand[f] = true
		}
	}
	for _, f := range p.funcs {
		if !cand[f] {
			continue
		}
		inner := true
		seen := map[*ssa.Function]bool{f: true}
		for work := []*ssa.Function{f}; len(work) > 0; work = work[1:] {
			for _, t := range syncCallees(work[0]) {
				if !seen[t] && pkgOf(t) == srvPkg {
					seen[t] = true
					work = append(work, t)
					inner = inner && !cand[t]
				}
			}
		}
		if inner {
			if k.end != nil {
				r.Violate("s05:several-ends", "", "connections are ended by several functions: %s and %s", fname(k.end), fname(f))
				return false
			}
			k.end = f
		}
	}
	if k.end == nil {
		r.Violate("s05:no-end", "", "no function tells the goroutines of a connection to stop")
		return false
	}
	r.Sample("connections are ended by %s", fname(k.end))
	k.enders[fname(k.end)], k.reach[fname(k.end)] = true, true
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			if pkgOf(f) != srvPkg || k.reach[fname(f)] || f.Parent() != nil {
				continue
			}
			for _, t := range waitedFor(f) {
				if k.reach[fname(t)] {
					k.reach[fname(f)], changed = true, true
					if len(p.loopsOf(f).loops) == 0 && k.enders[fname(t)] {
						k.enders[fname(f)] = true
					}
				}
			}
		}
	}
	return true
}

func (k *connRules) own(v *Val) bool {
	v = stripConv(v)
	return v.op == OComp && v.aux == "pair:contract" && isFieldVal(v.args[0], k.clientID)
}

// statOf: the entry of the list of subscriptions a value was taken from.
func (k *connRules) statOf(v *Val, fld *types.Var) *Val {
	v = stripConv(v)
	if !isFieldVal(v, fld) {
		return nil
	}
	b := fieldBase(v)
	if b == nil || findPair(b, "subs") == nil {
		return nil
	}
	return b
}

// removing adds the obligations on removing all subscriptions.
func (k *connRules) removing(h *Hooks, where string) {
	r := k.r
	call := h.Call
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case k.all:
			c.Opaque()
			c.SetResult(c.E.pair("subs", c.Args...))
			c.St.Add("listed")
			return
		case k.contract:
			c.Opaque()
			c.derived("contract", nil, nil)
			return
		case k.del:
			c.Opaque()
			c.handled = true
			r.Count("subscriptions removed", 1)
			id, topic := k.statOf(c.Args[2], k.statID), k.statOf(c.Args[3], k.statTopic)
			if id == nil {
				c.Report("s05:removed-id:"+where, "a subscription is removed with another ID than the one it was counted with")
			}
			if topic == nil || topic != id {
				c.Report("s05:removed-topic:"+where, "a subscription is removed for another topic than the one it was counted for")
			}
			if !k.own(c.Args[1]) {
				c.Report("s05:removed-contract:"+where, "a subscription is removed for another contract than the one of the client")
			}
			if where == "end" && !c.St.Has("waited") {
				c.Report("s05:removed-early", "the subscriptions of a connection are removed while its goroutines may still add some")
			}
			c.St.Add("gone")
			return
		}
		call(c)
	}
	dels := callIs(k.del)
	var reaches func(in ssa.Instruction, depth int) bool
	reaches = func(in ssa.Instruction, depth int) bool {
		if dels(in) {
			return true
		}
		if ci, ok := in.(ssa.CallInstruction); ok && depth < 3 {
			if t := ci.Common().StaticCallee(); t != nil && pkgOf(t) == srvPkg {
				for _, b := range t.Blocks {
					for _, x := range b.Instrs {
						if reaches(x, depth+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	is := func(l *loop, fn *ssa.Function) bool {
		return loopHas(l, func(in ssa.Instruction) bool { return reaches(in, 0) }) && len(l.head.Succs) > 1
	}
	r.eachHooks(h, &each{name: "subscriptions", key: "s05:not-removed:" + where, what: "a subscription of a connection that ends is not removed", is: is, done: []string{"gone"}})
	exit := h.LoopExit
	h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
		exit(c, l, fn)
		if is(l, fn) && c.In.Block() == l.head && c.St.Has("listed") {
			c.St.Add("removed")
		}
	}
}

// ending: what the end of a connection consists of.
func (k *connRules) ending() {
	r := k.r
	h := &Hooks{Interesting: anyOf(fieldUse(k.closed, k.closeC, k.clnode), callIs(k.all, k.del, k.contract, k.remove, k.bmClose, "sync/atomic.CompareAndSwapUint32", "sync.WaitGroup.Wait", "net.Conn.Close"), closes(k.closeC))}
	const won = "won"
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OComp && cond.aux == "pair:cas" && truth {
			c.St.Add(won)
		}
		if cond.op == OBin && cond.aux == "==" {
			for i := 0; i < 2; i++ {
				if isFieldVal(cond.args[i], k.clnode) && !truth {
					c.St.Add("of another node")
				}
			}
		}
	}
	effect := func(c *Ctx, what string) {
		if !c.St.Has(won) {
			c.Report("s05:unwon:"+what, "%s although the connection may have been ended before", what)
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == k.closed {
			c.Report("s05:mark", "the closed mark is changed in a way that several can do")
		}
	}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "sync/atomic.CompareAndSwapUint32":
			c.Opaque()
			if o, ok := c.Args[1].constInt(); ok && o == 0 && isFieldVal(c.Args[0], k.closed) {
				if n, ok := c.Args[2].constInt(); ok && n != 0 {
					c.SetResult(c.E.pair("cas", c.Args...))
					return
				}
			}
			c.handled = true
			return
		case "builtin.close":
			if isFieldVal(c.Args[0], k.closeC) {
				effect(c.Ctx, "goroutines are told to stop")
				c.St.Add("told")
			}
			return
		case "sync.WaitGroup.Wait":
			c.Opaque()
			c.handled = true
			if isFieldVal(c.Args[0], k.closeW) {
				if !c.St.Has("told") {
					c.Report("s05:wait", "the end of the goroutines of a connection is waited for before they are told to stop")
				}
				c.St.Add("waited")
			}
			return
		case k.remove:
			c.Opaque()
			c.handled = true
			effect(c.Ctx, "the connection is taken out of the table")
			if !isFieldVal(stripConv(c.Args[1]), k.connID) {
				c.Report("s05:other-removed", "another connection is taken out of the table")
			}
			c.St.Add("out of the table")
			return
		case k.bmClose:
			c.Opaque()
			c.handled = true
			effect(c.Ctx, "batches are stopped")
			if isFieldVal(c.Args[0], k.bm) {
				c.St.Add("batches stopped")
			}
			return
		case "net.Conn.Close":
			c.Opaque()
			c.handled = true
			if isFieldVal(c.Args[0], k.socket) {
				c.St.Add("socket closed")
			}
			return
		}
		if c.Callee == nil || pkgOf(c.Callee) != srvPkg || strings.Contains(c.Name, ".Cluster.") {
			c.Opaque()
			c.handled = true
		}
	}
	k.removing(h, "end")
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("ways to end", 1)
		if !c.St.Has("socket closed") {
			c.Report("s05:socket", "the end of a connection leaves its socket open")
		}
		if !c.St.Has(won) {
			return
		}
		for _, t := range [][2]string{{"told", "the goroutines of a connection that ends are not told to stop"}, {"waited", "the goroutines of a connection that ends are not waited for"},
			{"out of the table", "a connection that ended stays in the table"}, {"batches stopped", "the batches of a connection that ended are not stopped"}} {
			if !c.St.Has(t[0]) {
				c.Report("s05:not-"+strings.ReplaceAll(t[0], " ", "-"), "%s", t[1])
			}
		}
		if !c.St.Has("removed") && !c.St.Has("of another node") {
			c.Report("s05:subscriptions-left", "a connection can end without its subscriptions being removed")
		}
	}
	r.Explore(h, k.end)
	r.Need("ways to end", 2)
}

// closedMark: reading the closed mark.
func (k *connRules) closedMark(c *CallCtx) bool {
	if c.Name == "sync/atomic.LoadUint32" && isFieldVal(c.Args[0], k.closed) {
		c.Opaque()
		c.SetResult(c.E.pair("closed"))
		return true
	}
	return false
}

func (k *connRules) assumeClosed(c *Ctx, cond *Val, truth bool) {
	is := func(v *Val) bool { return v.op == OComp && v.aux == "pair:closed" }
	if cond.op != OBin {
		return
	}
	for i := 0; i < 2; i++ {
		o := cond.args[1-i]
		if n, ok := o.constInt(); ok && is(cond.args[i]) {
			switch {
			case cond.aux == "==" && n == 0 && !truth, cond.aux == "==" && n != 0 && truth:
				c.St.Add("already")
			case cond.aux == "<" && i == 1 && n == 0 && truth: // 0 < closed
				c.St.Add("already")
			case cond.aux == "<" && i == 0 && n == 1 && !truth:
				c.St.Add("already")
			}
		}
	}
}

// others: functions that end a connection for someone else.
func (k *connRules) others() {
	r, p := k.r, k.r.P
	for _, f := range p.funcs {
		if f == k.end || !k.enders[fname(f)] {
			continue
		}
		h := &Hooks{Interesting: anyOf(fieldUse(k.closed), callIs(keysOf(k.enders)...), callIs("sync/atomic.LoadUint32"))}
		h.Assume = func(c *Ctx, cond *Val, truth bool) { k.assumeClosed(c, cond, truth) }
		h.Call = func(c *CallCtx) {
			if k.closedMark(c) {
				return
			}
			if k.enders[c.Name] {
				c.Opaque()
				c.handled = true
				c.St.Add("ended")
				return
			}
			if c.Callee == nil || pkgOf(c.Callee) != srvPkg {
				c.Opaque()
				c.handled = true
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("ways through functions that end connections", 1)
			if !c.St.Has("ended") && !c.St.Has("already") {
				c.Report("s05:not-ended:"+f.Name(), "%s can return without having ended a connection that is not known to be closed", f.Name())
			}
		}
		r.Explore(h, f)
	}
}

func keysOf(m map[string]bool) (res []string) {
	for n := range m {
		res = append(res, n)
	}
	return
}

// spawned: functions of the package that are started as goroutines, and who starts them.
func (k *connRules) spawned() map[*ssa.Function][]*ssa.Function {
	res := map[*ssa.Function][]*ssa.Function{}
	for _, f := range k.r.P.funcs {
		if pkgOf(f) != srvPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					t := g.Common().StaticCallee()
					if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
						t = mc.Fn.(*ssa.Function)
					}
					if t != nil && pkgOf(t) == srvPkg {
						res[t] = append(res[t], f)
					}
				}
			}
		}
	}
	return res
}

// watches: a select or receive that notices that the channel in the field is closed.
func watches(fld *types.Var) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && ssaField(s.Chan) == fld {
					return true
				}
			}
		case *ssa.UnOp:
			return ssaField(x.X) == fld && x.CommaOk
		}
		return false
	}
}

// notices: looks, itself or in a function it calls, whether the connection is closing, not only while it sends.
func (k *connRules) notices(in ssa.Instruction) bool {
	looks := func(in ssa.Instruction) bool {
		if s, ok := in.(*ssa.Select); ok {
			for _, st := range s.States {
				if st.Dir == types.SendOnly {
					return false
				}
			}
		}
		return watches(k.closeC)(in)
	}
	if looks(in) {
		return true
	}
	if ci, ok := in.(*ssa.Call); ok {
		if t := ci.Common().StaticCallee(); t != nil && pkgOf(t) == srvPkg {
			return syncReach(t, looks, map[*ssa.Function]bool{})
		}
	}
	return false
}

func (k *connRules) goroutines() {
	r, p := k.r, k.r.P
	gos := k.spawned()
	uses := func(f *ssa.Function, op string, fld *types.Var) bool {
		return syncReach(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || staticName(ci.Common()) != "sync.WaitGroup."+op || len(ci.Common().Args) == 0 {
				return false
			}
			a, ok := stripSSA(ci.Common().Args[0]).(*ssa.FieldAddr)
			return ok && structOf(a.X.Type()).Field(a.Field) == fld
		}, map[*ssa.Function]bool{})
	}
	reads := func(f *ssa.Function) bool { return calls(f, "server/internal/net.Read") || syncReach(f, callIs("server/internal/net.Read"), map[*ssa.Function]bool{}) }
	writes := func(f *ssa.Function) bool { return syncReach(f, callIs("net.Conn.Write"), map[*ssa.Function]bool{}) }
	for _, f := range p.funcs {
		if len(gos[f]) == 0 || len(p.loopsOf(f).loops) == 0 || f.Signature.Recv() == nil || typeName(deref(recvType(f))) != "_Conn" {
			continue
		}
		if syncReach(f, watches(k.stopC), map[*ssa.Function]bool{}) {
			k.remote(f)
			continue
		}
		kind := ""
		switch {
		case reads(f):
			kind = "reads"
		case writes(f):
			kind = "writes"
		}
		if kind == "" {
			continue
		}
		k.loops[f] = kind
		r.Count("goroutines of connections", 1)
		if !uses(f, "Done", k.closeW) {
			r.Violate("s05:no-done:"+f.Name(), p.pos(f.Pos()), "%s does not say that it is gone", f.Name())
		}
		for _, l := range p.loopsOf(f).loops {
			if !loopHas(l, k.notices) && loopHas(l, func(in ssa.Instruction) bool {
				_, sel := in.(*ssa.Select)
				return sel || callIs("server/internal/net.Read")(in)
			}) {
				r.Violate("s05:deaf:"+f.Name(), p.pos(f.Pos()), "%s does not look at the closing channel in each round", f.Name())
			}
		}
		k.loop(f)
	}
	r.Need("goroutines of connections", 2)
	// who starts them
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci.Common()) == srvPkg+"._Service.newConn" {
					k.starting(f, ci)
				}
			}
		}
	}
	r.Need("connections started", 1)
}

// starting: a new connection is served.
func (k *connRules) starting(f *ssa.Function, at ssa.CallInstruction) {
	r := k.r
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if _, ok := in.(*ssa.Go); ok {
			return true
		}
		return callIs("sync.WaitGroup.Add", srvPkg+"._Service.newConn")(in)
	}}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == srvPkg+"._Service.newConn":
			c.Opaque()
			v := c.E.pair("conn", c.Args...)
			c.SetResult(v)
			c.St.Add("made")
		case waitOp(c, k.closeW) == "Add":
			c.Opaque()
			c.handled = true
			if n, ok := c.Args[1].constInt(); !ok || n < 1 || n > 8 || c.St.Has("started") {
				c.Report("s05:announced", "the goroutines of a connection are not announced before they are started")
			} else {
				for i := int64(0); i < n; i++ {
					m := 0
					for c.St.Has("announced " + string(rune('a'+m))) {
						m++
					}
					c.St.Add("announced " + string(rune('a'+m)))
				}
			}
		case c.IsGo && c.Callee != nil && k.loops[c.Callee] != "":
			c.Opaque()
			c.handled = true
			if c.Args[0].op != OComp || c.Args[0].aux != "pair:conn" {
				return
			}
			if c.St.Has(k.loops[c.Callee]) {
				c.Report("s05:started-twice", "%s is started twice for a connection", c.Callee.Name())
			}
			c.St.Add(k.loops[c.Callee])
			m := len(c.St.WithPrefix("announced "))
			s := 0
			for _, x := range []string{"reads", "writes"} {
				if c.St.Has(x) {
					s++
				}
			}
			if m < s {
				c.Report("s05:unannounced", "a goroutine of a connection is started before it is announced")
			}
		default:
			if c.Callee == nil || pkgOf(c.Callee) != srvPkg {
				c.Opaque()
				c.handled = true
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.St.Has("made") {
			return
		}
		r.Count("connections started", 1)
		if !c.St.Has("reads") || !c.St.Has("writes") {
			c.Report("s05:unserved", "a connection is registered without goroutines that read and write")
		}
		if len(c.St.WithPrefix("announced ")) != 2 {
			c.Report("s05:announced-number", "more or fewer goroutines of a connection are announced than started")
		}
	}
	r.Explore(h, f)
}

// loop: a goroutine of a connection.
func (k *connRules) loop(f *ssa.Function) {
	r := k.r
	reach := callIs(keysOf(k.reach)...)
	h := &Hooks{Interesting: anyOf(reach, fieldUse(k.closeC), callIs("sync.WaitGroup.Done", "context.Context.Done", "sync/atomic.LoadUint32"))}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		k.assumeClosed(c, cond, truth)
		if !truth && (cond.op == OFresh && strings.Contains(cond.aux, "ok") || cond.op == OExt) {
			c.St.Add("channel closed")
		}
	}
	h.Recv = func(c *Ctx, ch *Val) {
		if s, ok := c.In.(*ssa.Select); ok {
			for _, st := range s.States {
				if st.Dir == types.SendOnly { // gives up sending
					return
				}
			}
		}
		if isFieldVal(ch, k.closeC) || ch.op == OComp && ch.aux == "pair:over" {
			c.St.Add("told")
		}
	}
	h.Call = func(c *CallCtx) {
		if k.closedMark(c) {
			return
		}
		switch {
		case c.Name == "context.Context.Done":
			c.Opaque()
			c.SetResult(c.E.pair("over"))
		case waitOp(c, k.closeW) == "Done":
			c.Opaque()
			c.handled = true
			if c.St.Has("said") {
				c.Report("s05:done-twice:"+f.Name(), "%s says twice that it is gone", f.Name())
			}
			c.St.Add("said")
		case k.enders[c.Name] || k.reach[c.Name]:
			c.Opaque()
			c.handled = true
			if c.IsGo {
				if k.enders[c.Name] {
					c.St.Add("ended")
				}
				return
			}
			if !c.St.Has("said") {
				c.Report("s05:waits-for-itself:"+f.Name(), "%s ends the connection before it said that it is gone: the end waits for it", f.Name())
			}
			if k.enders[c.Name] {
				c.St.Add("ended")
			}
		default:
			if c.Callee == nil || c.Callee.Parent() == nil && !syncReach(c.Callee, anyOf(reach, watches(k.closeC), callIs("sync.WaitGroup.Done")), map[*ssa.Function]bool{}) {
				c.Opaque()
			}
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if c.St.Has("told") {
			c.Report("s05:goes-on:"+f.Name(), "%s goes on after it was told to stop", f.Name())
		}
		c.St.Del("channel closed")
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("ends of goroutines", 1)
		if !c.St.Has("said") {
			c.Report("s05:not-said:"+f.Name(), "%s can stop without saying so: the end of the connection waits for ever", f.Name())
		}
		if c.St.Has("told") || c.St.Has("ended") || c.St.Has("already") || c.St.Has("channel closed") {
			return
		}
		c.Report("s05:lost:"+f.Name(), "%s can stop, without having been told to, without ending the connection", f.Name())
	}
	r.Explore(h, f)
	r.Need("ends of goroutines", 3)
}

// remote: a goroutine that serves a connection of another node.
func (k *connRules) remote(f *ssa.Function) {
	r := k.r
	r.Count("goroutines of connections of other nodes", 1)
	h := &Hooks{Interesting: anyOf(fieldUse(k.stopC), callIs(k.all, k.del, k.contract, k.remove))}
	h.Recv = func(c *Ctx, ch *Val) {
		if isFieldVal(ch, k.stopC) {
			c.St.Add("told")
		}
	}
	h.Call = func(c *CallCtx) {
		if c.Name == k.remove {
			c.Opaque()
			c.handled = true
			if !isFieldVal(stripConv(c.Args[1]), k.connID) {
				c.Report("s05:other-removed", "another connection is taken out of the table")
			}
			c.St.Add("out of the table")
			return
		}
		if c.Callee == nil || c.Callee.Parent() == nil && !syncReach(c.Callee, callIs(k.all, k.del, k.remove), map[*ssa.Function]bool{}) {
			c.Opaque()
		}
	}
	h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if fn == f && c.St.Has("told") {
			c.Report("s05:goes-on:"+f.Name(), "%s goes on after it was told to stop", f.Name())
		}
	}
	k.removing(h, "remote")
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("ends of goroutines", 1)
		if !c.St.Has("out of the table") {
			c.Report("s05:remote-table", "a connection of another node that ended stays in the table")
		}
		if !c.St.Has("removed") {
			c.Report("s05:remote-subscriptions", "a connection of another node can end without its subscriptions being removed")
		}
	}
	r.Explore(h, f)
}

// disconnect: the handler of requests ends the connection when asked to.
func (k *connRules) disconnect() {
	r, p := k.r, k.r.P
	typ, ok := p.pkgConst(utpPkg, "DISCONNECT")
	if !ok {
		r.Violate("anchor", "", "utp.DISCONNECT not found")
		return
	}
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg || f.Parent() != nil || !dispatches(f) {
			continue
		}
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && (k.reach[staticName(ci.Common())] || ci.Common().IsInvoke() && ci.Common().Method.Name() == "Type")
		}}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if n, v := constCmp(cond); v != nil && v.op == OComp && v.aux == "pair:type" {
				if n == typ && truth {
					c.St.Add("asked")
				} else if truth && c.St.Has("asked") {
					c.St.Add("impossible")
				} else if n == typ || truth {
					c.St.Add("not asked")
				}
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Common.IsInvoke() && c.Common.Method.Name() == "Type":
				c.Opaque()
				c.SetResult(c.E.pair("type", c.Args[0]))
			case k.enders[c.Name]:
				c.Opaque()
				c.handled = true
				if !c.IsGo {
					c.Report("s05:waits-for-itself:"+f.Name(), "%s ends the connection itself: the end waits for the goroutine that runs it", f.Name())
				}
				c.St.Add("ended")
			default:
				c.Opaque()
				c.handled = true
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !c.St.Has("asked") || c.St.Has("not asked") || c.St.Has("impossible") {
				return
			}
			r.Count("ways to handle a request to disconnect", 1)
			if !c.St.Has("ended") && c.mayBeSuccess(fn, res) {
				c.Report("s05:disconnect", "a client that asks to be disconnected stays connected")
			}
		}
		r.Explore(h, f)
	}
	r.Need("ways to handle a request to disconnect", 1)
}

// dispatches: the function takes a packet and looks at its type.
func dispatches(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || typeName(deref(recvType(f))) != "_Conn" || len(f.Params) != 2 || typeName(f.Params[1].Type()) != "MessagePack" {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Type" && c.Common().Value == f.Params[1] {
				return true
			}
		}
	}
	return false
}

// tableRules: the table of connections.
func (k *connRules) tableRules() {
	r, p := k.r, k.r.P
	touched := map[string]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg || f.Parent() != nil || f.Signature.Recv() == nil || typeName(deref(recvType(f))) != "_ConnCache" {
			continue
		}
		f := f
		name := fname(f)
		h := &Hooks{Interesting: anyOf(fieldUse(k.table), func(in ssa.Instruction) bool {
			switch in.(type) {
			case *ssa.Lookup, *ssa.MapUpdate:
				return true
			}
			return isBuiltin("delete", nil)(in)
		})}
		h.MapWrite = func(c *Ctx, m, key, v *Val) {
			if !isFieldVal(m, k.table) {
				return
			}
			key = stripConv(key)
			if v == nil {
				if name != k.remove || key.op != OParam || key.aux != f.Params[1].Name() {
					c.Report("s05:table-delete", "%s takes another connection out of the table than the one it was given", f.Name())
				}
				c.St.Add("changed")
				return
			}
			if name != k.add {
				c.Report("s05:table-set:"+f.Name(), "%s enters a connection in the table", f.Name())
			}
			if !isFieldVal(key, k.connID) || stripConv(v) != fieldBase(key) {
				c.Report("s05:table-key", "a connection is entered in the table under something else than its own ID")
			}
			c.St.Add("changed")
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == k.table && addr.args[0].op != OAlloc {
				c.Report("s05:table-replaced", "the table of connections is replaced")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if name != k.add && name != k.remove {
				return
			}
			r.Count("changes of the table", 1)
			touched[name] = true
			if !c.St.Has("changed") {
				c.Report("s05:table-unchanged:"+f.Name(), "%s can leave the table as it was", f.Name())
			}
		}
		if name == k.get {
			h.MapRead = func(c *Ctx, m, key *Val) {
				if isFieldVal(m, k.table) {
					c.St.Add("read", stripConv(key))
				}
			}
			h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
				r.Count("lookups in the table", 1)
				ok := false
				for _, t := range c.St.Find("read") {
					ok = ok || t.op == OParam
				}
				if !ok {
					c.Report("s05:table-get", "a connection is looked up under another ID than the one asked for")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("changes of the table", 2)
	r.Need("lookups in the table", 1)
	// every connection that is made is entered
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg {
			continue
		}
		makes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap && typeName(deref(a.Type())) == "_Conn" {
					makes = true
				}
			}
		}
		if !makes {
			continue
		}
		h := &Hooks{Interesting: callIs(k.add)}
		h.Call = func(c *CallCtx) {
			if c.Name == k.add {
				c.Opaque()
				c.handled = true
				c.St.Add("entered", c.Args[1])
				return
			}
			if c.Callee == nil || pkgOf(c.Callee) != srvPkg {
				c.Opaque()
				c.handled = true
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("connections made", 1)
			for _, v := range res {
				if typeName(deref(typOr(v))) == "_Conn" && !c.St.HasV("entered", v) {
					c.Report("s05:not-entered:"+f.Name(), "%s makes a connection without entering it in the table", f.Name())
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("connections made", 2)
}

// once: the ID of a client and its batches are set once; the ID a connection is registered under does not change.
func (k *connRules) once() {
	r, p := k.r, k.r.P
	foreign := func(b *Val) bool { // a connection that was not just made
		return b != nil && b.op != OAlloc
	}
	setsBatches := map[string]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) == srvPkg && setsField(f, k.bm) {
			setsBatches[fname(f)] = true
		}
	}
	names := keysOf(setsBatches)
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg || f.Parent() != nil || !setsField(f, k.clientID) && !setsField(f, k.connID) && !callsAny(f, names) {
			continue
		}
		f := f
		h := &Hooks{Interesting: anyOf(fieldUse(k.clientID, k.connID), callIs(k.get, srvPkg+"._Service.newRpcConn"), callIs(names...))}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if cond.op == OBin && cond.aux == "<" { // 0 < len, len < 1
				z, _ := cond.args[0].constInt()
				if x := stripConv(cond.args[1]); !truth && cond.args[0].op == OConst && z == 0 && x.op == OLen && isFieldVal(x.args[0], k.clientID) {
					c.St.Add("new", fieldBase(x.args[0]))
				}
				if x := stripConv(cond.args[0]); truth && x.op == OLen && isInt(1)(cond.args[1]) && isFieldVal(x.args[0], k.clientID) {
					c.St.Add("new", fieldBase(x.args[0]))
				}
			}
			if cond.op != OBin || cond.aux != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				x := stripConv(cond.args[i])
				if isFieldVal(x, k.clientID) && truth {
					c.St.Add("new", fieldBase(x))
				}
				if n, ok := cond.args[1-i].constInt(); ok && n == 0 && truth && x.op == OLen && isFieldVal(x.args[0], k.clientID) {
					c.St.Add("new", fieldBase(x.args[0]))
				}
			}
		}
		// known: the connection was found, or made, for the request the value is taken from
		known := func(b *Val) *Val {
			for _, n := range []string{"cached", "proxied"} {
				if t := findPair(b, n); t != nil {
					return t
				}
			}
			return nil
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op != OFAddr || !foreign(addr.args[0]) {
				return
			}
			b := addr.args[0]
			switch addr.fld {
			case k.connID:
				r.Count("IDs of connections set", 1)
				ok := false
				if t := known(b); t != nil {
					for _, a := range t.args {
						ok = ok || stripConv(a) == stripConv(v)
					}
				}
				if !ok {
					c.Report("s05:connid-changed:"+f.Name(), "%s changes the ID a connection is registered under", f.Name())
				}
			case k.clientID:
				r.Count("client IDs set", 1)
				if t := known(b); t != nil && fromSame(t, v) {
					return
				}
				if !c.St.HasV("new", b) {
					c.Report("s05:client-replaced:"+f.Name(), "%s can replace the ID of a client that is connected: its subscriptions are left behind", f.Name())
				}
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == k.get:
				c.Opaque()
				c.SetResult(c.E.pair("cached", c.Args...))
			case c.Name == srvPkg+"._Service.newRpcConn":
				c.Opaque()
				c.SetResult(c.E.pair("proxied", c.Args...))
			case setsBatches[c.Name]:
				c.Opaque()
				c.handled = true
				r.Count("batches set up", 1)
				if !c.St.HasV("new", c.Args[0]) {
					c.Report("s05:batches-replaced:"+f.Name(), "%s can replace the batches of a client that is connected: they are never stopped", f.Name())
				}
			default:
				if c.Callee == nil || pkgOf(c.Callee) != srvPkg || dispatches(c.Callee) || !setsField(c.Callee, k.clientID) && !setsField(c.Callee, k.connID) && !callsAny(c.Callee, names) {
					c.Opaque()
					c.handled = true
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("client IDs set", 1)
	r.Need("batches set up", 1)
}

// fromSame: v was read from the same request as what the connection was looked up, or made, with.
func fromSame(t, v *Val) bool {
	base := func(x *Val) *Val {
		x = stripConv(x)
		for {
			b := fieldBase(x)
			if b == nil {
				return x
			}
			x = b
		}
	}
	for _, a := range t.args {
		if base(a) == base(v) && base(v).op == OParam {
			return true
		}
	}
	return false
}

func setsField(f *ssa.Function, fld *types.Var) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.FieldAddr); ok && structOf(a.X.Type()).Field(a.Field) == fld {
					return true
				}
			}
		}
	}
	return false
}

func callsAny(f *ssa.Function, names []string) bool {
	for _, n := range names {
		if calls(f, n) {
			return true
		}
	}
	return false
}

// batches: the goroutines behind the batches of a connection stop.
func (k *connRules) batches() {
	r, p := k.r, k.r.P
	gos := k.spawned()
	chanOf := func(v *Val) *types.Var {
		if v.op == OLoad {
			v = v.args[0]
		}
		if v.op == OField || v.op == OFAddr {
			return v.fld
		}
		return nil
	}
	closed := map[*types.Var]bool{}
	var listens []*ssa.Function
	for _, f := range p.funcs {
		if len(gos[f]) == 0 || f.Signature.Recv() == nil || typeName(deref(recvType(f))) != "batchManager" {
			continue
		}
		listens = append(listens, f)
	}
	says := map[*ssa.Function]bool{}
	for _, f := range listens {
		f := f
		r.Count("goroutines of batches", 1)
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				return x.Op.String() == "<-"
			}
			return anyOf(callIs("sync.WaitGroup.Done"), isBuiltin("close", nil), fieldUse(k.bmStop))(in)
		}}
		says[f] = syncReach(f, callIs("sync.WaitGroup.Done"), map[*ssa.Function]bool{})
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if !truth && (cond.op == OFresh && strings.Contains(cond.aux, "ok") || cond.op == OExt) {
				c.St.Add("drained")
			}
		}
		h.Recv = func(c *Ctx, ch *Val) {
			if isFieldVal(ch, k.bmStop) {
				c.St.Add("told")
			}
		}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "builtin.close":
				if fl := chanOf(c.Args[0]); fl != nil {
					closed[fl] = true
					c.St.Add("closed " + fl.Name())
				}
			case waitOp(c, k.stopW) == "Done":
				c.Opaque()
				c.handled = true
				if c.St.Has("said") {
					c.Report("s05:batch-done-twice:"+f.Name(), "%s says twice that it is gone", f.Name())
				}
				c.St.Add("said")
			default:
				if c.Callee == nil || !p.inModule(c.Callee) || pkgOf(c.Callee) != srvPkg {
					c.Opaque()
					c.handled = true
				}
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			if fn == f {
				c.St.Del("drained")
				if !says[f] && c.St.Has("told") && loopHas(l, watches(k.bmStop)) {
					c.Report("s05:batch-goes-on:"+f.Name(), "%s goes on after it was told to stop", f.Name())
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("ends of goroutines of batches", 1)
			if says[f] && !c.St.Has("said") {
				c.Report("s05:batch-not-said:"+f.Name(), "%s can stop without saying so: the end of the connection waits for ever", f.Name())
			}
			if !c.St.Has("told") && !c.St.Has("drained") {
				c.Report("s05:batch-lost:"+f.Name(), "%s can stop without having been told to", f.Name())
			}
			for _, t := range closesOf(f) {
				if !c.St.Has("closed " + t.Name()) {
					c.Report("s05:batch-channel:"+f.Name(), "%s can stop without closing %s: the goroutine that reads it never stops", f.Name(), t.Name())
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("goroutines of batches", 3)
	// who waits for a channel to be closed gets it closed
	for _, f := range listens {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op.String() != "<-" || !u.CommaOk {
					continue
				}
				if fl := ssaField(u.X); fl != nil && !closed[fl] {
					r.Violate("s05:never-closed:"+fl.Name(), p.instrPos(in), "%s waits for %s to be closed, which no goroutine does", f.Name(), fl.Name())
				}
			}
		}
	}
	// stopping
	h := &Hooks{Interesting: anyOf(callIs("sync.WaitGroup.Wait", "sync.Once.Do"), isBuiltin("close", nil), fieldUse(k.bmStop))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == "sync.Once.Do":
			c.St.Add("already")
		case c.Name == "builtin.close" && isFieldVal(c.Args[0], k.bmStop):
			c.St.Add("told")
			r.Count("batches told to stop", 1)
		case waitOp(c, k.stopW) == "Wait":
			c.Opaque()
			c.handled = true
			if !c.St.Has("told") && !c.St.Has("already") {
				c.Report("s05:batch-wait", "the goroutines of batches are waited for before they are told to stop")
			}
			c.St.Add("waited")
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op == OBin && cond.aux == "==" && truth {
			for i := 0; i < 2; i++ {
				if cond.args[i].op == OParam && cond.args[1-i].op == ONil {
					c.St.Add("none")
				}
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("ways to stop batches", 1)
		if !c.St.Has("waited") && !c.St.Has("none") {
			c.Report("s05:batch-not-stopped", "stopping the batches of a connection can leave their goroutines running")
		}
	}
	if f := p.fn(k.bmClose); f != nil {
		r.Explore(h, f)
		r.Need("ways to stop batches", 1)
		r.Need("batches told to stop", 1)
	}
	// as many goroutines are announced as say that they are gone
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg {
			continue
		}
		started, added := 0, int64(0)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					if t := ci.Common().StaticCallee(); t != nil && says[t] {
						started++
					}
				}
				if staticName(ci.Common()) == "sync.WaitGroup.Add" && len(ci.Common().Args) == 2 {
					if a, ok := stripSSA(ci.Common().Args[0]).(*ssa.FieldAddr); ok && structOf(a.X.Type()).Field(a.Field) == k.stopW {
						n, ok := constOfSSA(ci.Common().Args[1])
						if !ok {
							n = 1 << 20
						}
						added += n
					}
				}
			}
		}
		if started > 0 && int64(started) != added {
			r.Violate("s05:batch-announced", p.pos(f.Pos()), "%s announces %d goroutines of batches and starts %d", f.Name(), added, started)
		}
	}
}

// closesOf: channels kept in fields that the function closes somewhere.
func closesOf(f *ssa.Function) (res []*types.Var) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && isBuiltin("close", nil)(in) {
				if fl := ssaField(ci.Common().Args[0]); fl != nil {
					res = append(res, fl)
				}
			}
		}
	}
	return
}

// listing: every subscription that is counted is listed.
func (k *connRules) listing() {
	r := k.r
	f := r.Fn(k.all)
	stats := r.Field(msgPkg, "Stats", "stats")
	if f == nil || stats == nil {
		return
	}
	adds := func(in ssa.Instruction) bool {
		if isBuiltin("append", nil)(in) {
			return true
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		_, ok = s.Addr.(*ssa.IndexAddr)
		return ok
	}
	h := &Hooks{Interesting: anyOf(adds, fieldUse(stats), func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Range)
		return ok
	})}
	entry := func(v *Val) bool {
		return v.contains(func(x *Val) bool { return isFieldVal(x, stats) }) || typeName(deref(typOr(v))) == "Stat" || v.op == OSlice || v.op == OComp
	}
	h.Call = func(c *CallCtx) {
		if c.Name == "builtin.append" && len(c.Args) > 1 && entry(c.Args[1]) {
			c.St.Add("listed")
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		st, ok := c.In.(*ssa.Store)
		if !ok {
			return
		}
		if ia, ok := st.Addr.(*ssa.IndexAddr); ok && typeName(st.Val.Type()) == "Stat" {
			if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				c.St.Add("listed")
			}
		}
	}
	overStats := func(l *loop, fn *ssa.Function) bool {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.Next); ok {
					if rg, ok := n.Iter.(*ssa.Range); ok && ssaField(rg.X) == stats {
						return true
					}
				}
			}
		}
		return false
	}
	r.eachHooks(h, &each{name: "subscriptions listed", key: "s05:not-listed", what: "a subscription that is counted is not listed for the end of the connection", is: overStats, done: []string{"listed"}})
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("lists of subscriptions", 1)
	}
	r.Explore(h, f)
	r.Need("subscriptions listed", 1)
}
