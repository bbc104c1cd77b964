package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S06"] = checkS06
}

// subsRules: the subscriptions of a connection.
type subsRules struct {
	r                                          *Run
	topic, size                                *types.Var
	connID, clientID                           *types.Var
	mode, delay, asked                         *types.Var // what a client asks for
	dMode, dDelay                              *types.Var // what a message is delivered with
	stats, statID, statTopic, counter          *types.Var
	inc, dec, exist, all, put, get, del, newID string
	contract, cached, parse, route             string
	keys                                       map[string]bool
	written, read                              map[string]string
}

func checkS06(r *Run) {
	r.Rule("a subscription is counted for its whole topic, and stored, with the ID it was counted with, for the contract of the client and the topic, when it is the first one; when that fails it is not counted any more and the failure is returned")
	r.Rule("when the last use of a subscription ends it is removed with the ID it was stored with, for the same contract and topic; when that fails it is counted again and the failure is returned")
	r.Rule("both happen under the lock of the connection; what is stored are the delivery mode, the ID of the connection and the delay, and the fields are read back from where they were written")
	r.Rule("counting: the first use makes the entry with the ID and topic given and says so, no other does; the last use removes the entry, says so and returns the ID, no other does")
	r.Rule("the store keeps subscriptions under a contract of their own, the same for storing, reading and removing; ID, topic, contract and payload reach the database unchanged and its errors are returned")
	m := msgPkg + ".Stats."
	st := stPkg + ".SubscriptionStore."
	k := &subsRules{r: r, inc: m + "Increment", dec: m + "Decrement", exist: m + "Exist", all: m + "All", put: st + "Put", get: st + "Get", del: st + "Delete", newID: st + "NewID",
		contract: uidPkg + ".ID.Contract", cached: srvPkg + "._ConnCache.get", parse: secPkg + ".ParseKey", route: srvPkg + ".Cluster.routeToContract", keys: map[string]bool{}, written: map[string]string{}, read: map[string]string{}}
	for _, f := range []struct {
		v            **types.Var
		pkg, typ, fl string
	}{{&k.topic, secPkg, "Topic", "Topic"}, {&k.size, secPkg, "Topic", "Size"}, {&k.connID, srvPkg, "_Conn", "connID"}, {&k.clientID, srvPkg, "_Conn", "clientID"},
		{&k.mode, utpPkg, "Subscription", "DeliveryMode"}, {&k.delay, utpPkg, "Subscription", "Delay"}, {&k.asked, utpPkg, "Subscription", "Topic"}, {&k.dMode, msgPkg, "Message", "DeliveryMode"}, {&k.dDelay, msgPkg, "Message", "Delay"},
		{&k.stats, msgPkg, "Stats", "stats"}, {&k.statID, msgPkg, "Stat", "ID"}, {&k.statTopic, msgPkg, "Stat", "Topic"}, {&k.counter, msgPkg, "Stat", "Counter"}} {
		if *f.v = r.Field(f.pkg, f.typ, f.fl); *f.v == nil {
			return
		}
	}
	for _, n := range []string{k.inc, k.dec, k.all, k.put, k.get, k.del, k.newID, k.contract, k.parse} {
		if r.Fn(n) == nil {
			return
		}
	}
	k.users()
	k.callers()
	k.reader()
	k.counting()
	k.store()
	k.adapter()
	if len(k.keys) > 1 {
		r.Violate("s06:keys", "", "a subscription is counted under one key and looked up under another: %v", k.keys)
	}
	for n, w := range k.written {
		if g, ok := k.read[n]; ok && g != w {
			r.Violate("s06:format:"+n, "", "the %s of a subscription is written to %s but read from %s", n, w, g)
		} else if !ok {
			r.Violate("s06:unread:"+n, "", "the %s of a subscription is not read back", n)
		}
	}
}

// topicOf: v is the text of a topic; returns the topic.
func (k *subsRules) topicOf(v *Val) *Val {
	v = stripConv(v)
	if v.op == OSlice {
		if v.args[1] != nil {
			if n, ok := v.args[1].constInt(); !ok || n != 0 {
				return nil
			}
		}
		b := stripConv(v.args[0])
		if v.args[2] != nil && (!isFieldVal(stripConv(v.args[2]), k.size) || !isFieldVal(b, k.topic) || fieldBase(stripConv(v.args[2])) != fieldBase(b)) {
			return nil
		}
		v = b
	}
	if isFieldVal(v, k.topic) {
		return fieldBase(v)
	}
	return nil
}

// key writes a key as a term over the topic.
func (k *subsRules) key(v *Val, t *Val) string {
	if x := k.topicOf(v); x != nil && x == t {
		return "topic"
	}
	v = stripConv(v)
	if v.op == OBin {
		return "(" + k.key(v.args[0], t) + v.aux + k.key(v.args[1], t) + ")"
	}
	if v.op == OConst {
		return v.String()
	}
	return strings.ReplaceAll(v.String(), t.String(), "T")
}

// own: the contract of the client of this connection.
func (k *subsRules) own(v *Val) bool {
	v = stripConv(v)
	return v.op == OComp && v.aux == "pair:contract" && isFieldVal(v.args[0], k.clientID)
}

func (k *subsRules) lock(c *CallCtx) bool {
	switch c.Name {
	case "sync.Mutex.Lock":
		c.Opaque()
		c.handled = true
		if k.connLock(c) {
			c.St.Add("locked")
		}
		return true
	case "sync.Mutex.Unlock":
		c.Opaque()
		c.handled = true
		if k.connLock(c) {
			c.St.Del("locked")
		}
		return true
	}
	return false
}

func (k *subsRules) connLock(c *CallCtx) bool {
	v := c.Args[0]
	return typeName(deref(typOr(v))) == "_Conn" || v.op == OFAddr && typeName(deref(typOr(v.args[0]))) == "_Conn"
}

func (k *subsRules) rest(c *CallCtx) {
	if c.Callee == nil || !k.r.P.inModule(c.Callee) || pkgOf(c.Callee) == "server/internal/pkg/log" || c.Name == k.route || c.Name == srvPkg+".Cluster.isRemoteContract" || strings.Contains(pkgOf(c.Callee), "metrics") {
		c.Opaque()
		c.handled = true
		if c.Name == k.route {
			c.ForkErr(func(s *State) { s.Add("routed") }, nil)
		}
	}
}

// users: what subscribing and unsubscribing do.
func (k *subsRules) users() {
	r, p := k.r, k.r.P
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg || f.Parent() != nil || !(calls(f, k.inc) || calls(f, k.dec) || calls(f, k.put)) {
			continue
		}
		h := &Hooks{Interesting: anyOf(callIs(k.inc, k.dec, k.exist, k.put, k.del, k.newID, k.contract, k.route, srvPkg+".Cluster.isRemoteContract", "sync.Mutex.Lock", "sync.Mutex.Unlock"), fieldUse(k.topic, k.mode, k.delay, k.connID), func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, _, _, ok = byteOrder(staticName(ci.Common()))
			return ok
		})}
		one := func(c *Ctx, tag string) *Val {
			for _, t := range c.St.Find(tag) {
				return t
			}
			return nil
		}
		note := func(c *CallCtx, kind string) *Val {
			t := k.topicOf(c.Args[1])
			if t == nil {
				c.Report("s06:counted-topic:"+f.Name(), "a subscription is counted for something else than its topic")
				return nil
			}
			ks := k.key(c.Args[2], t)
			k.keys[ks] = true
			if !strings.Contains(ks, "topic") {
				c.Report("s06:counted-key:"+f.Name(), "a subscription is counted under a key without its topic")
			}
			if !c.St.Has("locked") {
				c.Report("s06:unlocked:"+f.Name(), "subscriptions are changed without the lock of the connection")
			}
			c.St.Del(kind + " topic")
			c.St.Add(kind+" topic", t)
			return t
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if truth && c.St.HasV("inc", cond) {
				c.St.Add("first")
			} else if !truth && c.St.HasV("inc", cond) {
				c.St.Add("not first")
			}
			if cond.op == OExt && c.St.HasV("dec", cond.args[0]) {
				if truth {
					c.St.Add("last")
				} else {
					c.St.Add("not last")
				}
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) { c.byteStored(addr, v) }
		h.Call = func(c *CallCtx) {
			if c.bytesPut() || k.lock(c) {
				return
			}
			switch c.Name {
			case k.inc:
				c.Opaque()
				r.Count("subscriptions counted", 1)
				note(c, "inc")
				if d := one(c.Ctx, "undone del"); d != nil { // counted again after it could not be removed
					if t := one(c.Ctx, "dec topic"); t == nil || k.topicOf(c.Args[1]) != t || c.Args[3] != d {
						c.Report("s06:counted-again", "a subscription that could not be removed is counted again with another ID or topic")
					}
					c.St.Add("restored")
					c.handled = true
					return
				}
				v := c.E.pair("inc", c.Args...)
				c.SetResult(v)
				c.St.Add("inc", v)
				c.St.Add("inc id", c.Args[3])
			case k.dec:
				c.Opaque()
				r.Count("subscriptions given up", 1)
				note(c, "dec")
				if c.St.Has("put failed") {
					if one(c.Ctx, "inc topic") == nil || k.topicOf(c.Args[1]) != one(c.Ctx, "inc topic") {
						c.Report("s06:uncounted-other", "another subscription than the one that could not be stored is given up")
					}
					c.St.Add("restored")
					c.handled = true
					return
				}
				v := c.E.pair("dec", c.Args...)
				c.SetResult(v)
				c.St.Add("dec", v)
			case k.put:
				c.Opaque()
				r.Count("subscriptions stored", 1)
				if !c.St.Has("locked") {
					c.Report("s06:unlocked:"+f.Name(), "subscriptions are changed without the lock of the connection")
				}
				if !c.St.Has("first") {
					c.Report("s06:stored-again", "a subscription is stored that is not known to be the first one for its topic")
				}
				if c.Args[2] != one(c.Ctx, "inc id") {
					c.Report("s06:stored-id", "a subscription is stored with another ID than it is counted with")
				}
				if t := one(c.Ctx, "inc topic"); t == nil || k.topicOf(c.Args[3]) != t {
					c.Report("s06:stored-topic", "a subscription is stored for another topic than it is counted for")
				}
				if !k.own(c.Args[1]) {
					c.Report("s06:stored-contract", "a subscription is stored for another contract than the one of the client")
				}
				for n, fld := range map[string]*types.Var{"delivery mode": k.mode, "connection": k.connID, "delay": k.delay} {
					at := ""
					for w := int64(8); w >= 1; w /= 2 {
						for lo := int64(0); lo < 24; lo++ {
							if at == "" && c.bytesAre(c.Args[4], lo, w, isF(fld)) {
								at = fmt.Sprintf("%d bytes at %d", w, lo)
								if bits, _ := basicBits(fld.Type()); int64(bits) > 8*w && !strings.HasSuffix(fld.Name(), "Mode") {
									c.Report("s06:stored-part", "only a part of the %s of a subscription is stored", n)
								}
							}
						}
					}
					if at == "" {
						c.Report("s06:stored-payload", "the %s of a subscription is not stored", n)
					} else if old, ok := k.written[n]; ok && old != at {
						c.Report("s06:stored-differently", "the %s of a subscription is stored in several places", n)
					}
					k.written[n] = at
				}
				c.ForkErr(func(s *State) { s.Add("put") }, func(s *State) { s.Add("put failed") })
			case k.del:
				c.Opaque()
				r.Count("subscriptions removed", 1)
				if !c.St.Has("locked") {
					c.Report("s06:unlocked:"+f.Name(), "subscriptions are changed without the lock of the connection")
				}
				if !c.St.Has("last") {
					c.Report("s06:removed-early", "a subscription is removed that is not known to be used no more")
				}
				if d := one(c.Ctx, "dec"); d == nil || c.Args[2].op != OExt || c.Args[2].args[0] != d {
					c.Report("s06:removed-id", "a subscription is removed with another ID than it was stored with")
				}
				if t := one(c.Ctx, "dec topic"); t == nil || k.topicOf(c.Args[3]) != t {
					c.Report("s06:removed-topic", "a subscription is removed for another topic than it was counted for")
				}
				if !k.own(c.Args[1]) {
					c.Report("s06:removed-contract", "a subscription is removed for another contract than the one of the client")
				}
				id := c.Args[2]
				c.ForkErr(func(s *State) { s.Add("del") }, func(s *State) { s.Add("undone del", id) })
			case k.newID:
				c.Opaque()
				c.derived("newID", nil, nil)
			case k.contract:
				c.Opaque()
				c.derived("contract", nil, nil)
			case k.exist:
				c.Opaque()
				c.handled = true
				if t := k.anyTopic(c.Args[1]); t != nil {
					k.keys[k.key(c.Args[1], t)] = true
				}
			default:
				k.rest(c)
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("ends", 1)
			failed := c.St.Has("put failed") || len(c.St.Find("undone del")) > 0
			ok := c.mayBeSuccess(fn, res)
			if failed && ok {
				c.Report("s06:failure-hidden:"+f.Name(), "a subscription that could not be stored or removed is reported as done")
			}
			if failed && !c.St.Has("restored") {
				c.Report("s06:not-restored:"+f.Name(), "the count of a subscription that could not be stored or removed is not restored")
			}
			if !ok {
				return
			}
			if calls(f, k.put) {
				if !c.St.Has("routed") && len(c.St.Find("inc")) == 0 {
					c.Report("s06:not-counted", "subscribing succeeds without counting the subscription")
				}
				if len(c.St.Find("inc")) > 0 && !c.St.Has("not first") && !c.St.Has("put") {
					c.Report("s06:not-stored", "the first subscription for a topic is not stored")
				}
			} else if calls(f, k.dec) {
				if len(c.St.Find("dec")) == 0 {
					c.Report("s06:not-given-up", "unsubscribing succeeds without giving the subscription up")
				} else if !c.St.Has("not last") && !c.St.Has("del") {
					c.Report("s06:not-removed", "a subscription that is used no more is not removed")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("subscriptions counted", 2)
	r.Need("subscriptions given up", 2)
	r.Need("subscriptions stored", 1)
	r.Need("subscriptions removed", 1)
}

func (k *subsRules) anyTopic(v *Val) (t *Val) {
	v.contains(func(x *Val) bool {
		if isFieldVal(x, k.topic) {
			t = fieldBase(x)
		}
		return false
	})
	return t
}

// callers: what is subscribed to is the topic of the request, and failures are reported.
func (k *subsRules) callers() {
	r, p := k.r, k.r.P
	users := map[string]bool{}
	for _, f := range p.funcs {
		if pkgOf(f) == srvPkg && f.Parent() == nil && (calls(f, k.inc) || calls(f, k.dec)) {
			users[fname(f)] = true
		}
	}
	subTopic := func(v *Val) *Val { // the subscription a topic comes from
		if pr := findPair(v, "parsed"); pr != nil {
			x := stripConv(pr.args[0])
			if isFieldVal(x, k.asked) {
				return fieldBase(x)
			}
		}
		return nil
	}
	for _, f := range p.funcs {
		if pkgOf(f) != srvPkg {
			continue
		}
		found := false
		for n := range users {
			found = found || calls(f, n) && !users[fname(f)]
		}
		if !found {
			continue
		}
		var names []string
		for n := range users {
			names = append(names, n)
		}
		h := &Hooks{Interesting: callIs(append(names, k.parse)...)}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == k.parse:
				c.Opaque()
				c.SetResult(c.E.pair("parsed", c.Args...))
			case users[c.Name]:
				c.Opaque()
				r.Count("requests carried out", 1)
				var from *Val
				for _, a := range c.Args[1:] {
					if s := subTopic(a); s != nil {
						from = s
					}
				}
				if from == nil {
					c.Report("s06:other-topic", "a request is carried out for another topic than the one the client sent")
				}
				for _, a := range c.Args[1:] {
					if typeName(deref(typOr(a))) == "Subscription" && a != from && from != nil {
						c.Report("s06:other-subscription", "a request is carried out with the topic of one subscription and the options of another")
					}
				}
				c.ForkErr(nil, func(s *State) { s.Add("failed") })
			case c.Callee != nil && pkgOf(c.Callee) == srvPkg && p.reachesCall(c.Callee, append(names, k.parse)...):
				// a helper that parses the topic
			default:
				c.Opaque()
				c.handled = true
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if c.St.Has("failed") && c.mayBeSuccess(fn, res) {
				c.Report("s06:caller-hides:"+f.Name(), "a failure to subscribe or unsubscribe is not returned")
			}
		}
		r.Explore(h, f)
	}
	r.Need("requests carried out", 2)
}

// at: where in the bytes of a subscription a value is read from.
func (k *subsRules) at(v *Val) string {
	v = stripConv(v)
	if v.op == OComp && strings.HasPrefix(v.aux, "pair:rd:") {
		x, w, o := readOf(v)
		if _, off, ok := sliceAt(x); ok && (o == "LE" || w == 1) {
			return fmt.Sprintf("%d bytes at %d", w, off)
		}
		return "elsewhere"
	}
	var idx *Val
	switch {
	case v.op == OLoad && v.args[0].op == OIAddr:
		idx = v.args[0]
	}
	if idx != nil {
		if _, off, ok := sliceAt(idx.args[0]); ok {
			if i, ok := idx.args[1].constInt(); ok {
				return fmt.Sprintf("1 bytes at %d", off+i)
			}
		}
	}
	return ""
}

// reader: where the fields of a subscription are read from.
func (k *subsRules) reader() {
	r, p := k.r, k.r.P
	for _, f := range p.funcs {
		if !calls(f, k.get) || pkgOf(f) != srvPkg {
			continue
		}
		h := &Hooks{Interesting: anyOf(callIs(k.get, k.cached, k.contract, srvPkg+"._Conn.SendMessage"), fieldUse(k.dMode, k.dDelay), func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, _, _, ok = byteOrder(staticName(ci.Common()))
			return ok
		})}
		from := func(v *Val) bool { return v.contains(func(x *Val) bool { return x.op == OComp && x.aux == "pair:subs" }) }
		note := func(c *Ctx, n string, v *Val) {
			a := k.at(v)
			if a == "" || !from(v) {
				return
			}
			r.Count("fields read back", 1)
			if old, ok := k.read[n]; ok && old != a {
				c.Report("s06:read-differently", "the %s of a subscription is read from several places", n)
			}
			k.read[n] = a
		}
		h.Call = func(c *CallCtx) {
			if c.readsBytes() {
				return
			}
			switch c.Name {
			case k.get:
				c.Opaque()
				r.Count("subscriptions looked up", 1)
				if !k.own(c.Args[1]) {
					c.Report("s06:read-contract", "subscriptions are looked up for another contract than the one of the client")
				}
				if k.topicOf(c.Args[2]) == nil {
					c.Report("s06:read-topic", "subscriptions are looked up for something else than the topic published to")
				}
				c.derived("subs", nil, nil)
			case k.contract:
				c.Opaque()
				c.derived("contract", nil, nil)
			case k.cached:
				c.Opaque()
				c.handled = true
				note(c.Ctx, "connection", c.Args[1])
			default:
				if c.Name == srvPkg+"._Conn.SendMessage" {
					c.Opaque()
					c.handled = true
					return
				}
				k.rest(c)
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == k.dMode {
				note(c, "delivery mode", v)
			}
			if addr.op == OFAddr && addr.fld == k.dDelay {
				note(c, "delay", v)
			}
		}
		r.Explore(h, f)
	}
	r.Need("subscriptions looked up", 1)
	r.Need("fields read back", 3)
}

// num evaluates a term over the counter before the change.
func (k *subsRules) num(v *Val, p int64) (int64, bool) {
	v = stripConv(v)
	if n, ok := v.constInt(); ok {
		return n, true
	}
	if isFieldVal(v, k.counter) {
		return p, true
	}
	if v.op == OBin {
		a, ok := k.num(v.args[0], p)
		b, ok2 := k.num(v.args[1], p)
		if ok && ok2 {
			switch v.aux {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			}
		}
	}
	return 0, false
}

func (k *subsRules) truth(v *Val, p int64) (bool, bool) {
	switch {
	case v.op == OConst && v.cv != nil && v.cv.Kind() == constant.Bool:
		return constant.BoolVal(v.cv), true
	case v.op == OZero:
		return false, true
	case v.op == ONot:
		b, ok := k.truth(v.args[0], p)
		return !b, ok
	case v.op == OBin && (v.aux == "==" || v.aux == "<"):
		a, ok := k.num(v.args[0], p)
		b, ok2 := k.num(v.args[1], p)
		if v.aux == "==" {
			return a == b, ok && ok2
		}
		return a < b, ok && ok2
	}
	return false, false
}

// counting: how the uses of a subscription are counted.
func (k *subsRules) counting() {
	r := k.r
	for _, n := range []string{k.inc, k.dec} {
		n := n
		f := r.Fn(n)
		if f == nil {
			return
		}
		param := func(c *Ctx, i int) *Val {
			q := f.Params[i]
			return c.E.in.mk(Val{op: OParam, aux: q.Name(), typ: q.Type()})
		}
		h := &Hooks{Interesting: anyOf(fieldUse(k.stats, k.counter, k.statID, k.statTopic))}
		h.Call = func(c *CallCtx) {}
		h.MapRead = func(c *Ctx, m, key *Val) {
			if isFieldVal(m, k.stats) && key != param(c, 2) {
				c.Report("s06:count-key", "the count is looked up under another key than the one given")
			}
		}
		h.MapWrite = func(c *Ctx, m, key, v *Val) {
			if !isFieldVal(m, k.stats) {
				return
			}
			if key != param(c, 2) {
				c.Report("s06:count-key", "the count is kept under another key than the one given")
			}
			if v == nil {
				c.St.Add("deleted")
			} else {
				c.St.Add("kept", v)
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if m, ok := lookupOK(cond); ok && isFieldVal(m, k.stats) {
				if truth {
					c.St.Add("exists")
				} else {
					c.St.Add("new")
				}
			}
			if cond.op == OBin {
				for i := range cond.args {
					if x := cond.args[i]; cond.args[1-i].op == ONil && typeName(deref(typOr(x))) == "Stat" {
						if truth {
							c.St.Add("new")
						} else {
							c.St.Add("exists")
						}
					}
				}
			}
			if cond.contains(isF(k.counter)) {
				if truth {
					c.St.Add("cond", cond)
				} else {
					c.St.Add("not", cond)
				}
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == k.counter {
				c.St.Del("count")
				c.St.Add("count", v)
			}
			if addr.op == OFAddr && (addr.fld == k.statID || addr.fld == k.statTopic) && addr.args[0].op != OAlloc {
				c.Report("s06:count-changed", "the ID or topic of a subscription in use is changed")
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if len(res) == 0 {
				return
			}
			r.Count("counts", 1)
			if c.St.Has("new") {
				t, ok := k.truth(res[0], 0)
				if n == k.dec {
					if !ok || t {
						c.Report("s06:count-none", "a subscription that does not exist is said to have been given up")
					}
					return
				}
				if !ok || !t {
					c.Report("s06:count-first", "the first use of a subscription is not said to be the first")
				}
				good := false
				for _, v := range c.St.Find("kept") {
					get := func(fld *types.Var) *Val { return c.E.load(c.St, c.E.faddr(v, fld), fld.Type()) }
					cnt, okc := k.num(get(k.counter), 0)
					good = good || get(k.statID) == param(c, 3) && get(k.statTopic) == param(c, 1) && okc && cnt == 1
				}
				if !good {
					c.Report("s06:count-made", "a new subscription is not kept with the ID and topic given and one use")
				}
				return
			}
			if !c.St.Has("exists") {
				c.Report("s06:count-unchecked", "whether a subscription is in use already is not looked up")
				return
			}
			for p := int64(1); p < 6; p++ {
				possible := true
				for _, kind := range []string{"cond", "not"} {
					for _, t := range c.St.Find(kind) {
						if b, ok := k.truth(t, p); ok {
							possible = possible && b == (kind == "cond")
						}
					}
				}
				if !possible {
					continue
				}
				r.Count("changes of a count", 1)
				want := p + 1
				if n == k.dec {
					want = p - 1
				}
				cnt, okc := int64(0), false
				for _, v := range c.St.Find("count") {
					cnt, okc = k.num(v, p)
				}
				t, ok := k.truth(res[0], p)
				if n == k.inc {
					if !okc || cnt != want || c.St.Has("deleted") {
						c.Report("s06:count-up", "another use of a subscription does not raise its count by one")
					}
					if !ok || t {
						c.Report("s06:count-again", "another use of a subscription is said to be the first")
					}
					continue
				}
				if c.St.Has("deleted") != (want == 0) || want > 0 && (!okc || cnt != want) {
					c.Report("s06:count-down", "giving up a subscription does not lower its count by one, or removes it before its last use ends")
				}
				if !ok || t != (want == 0) {
					c.Report("s06:count-last", "the end of the last use of a subscription is not told from others")
				}
				if want == 0 && !isFieldVal(res[1], k.statID) {
					c.Report("s06:count-id", "the ID of a subscription used no more is not returned")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("counts", 3)
	r.Need("changes of a count", 4)
}

// store: the layer between connections and the storage adapter.
func (k *subsRules) store() {
	r := k.r
	contracts := map[string]string{}
	ad := adpPkg + "."
	visit := func(fn, method, kind string, args func(c *CallCtx, par func(string) *Val) bool) {
		f := r.Fn(fn)
		if f == nil {
			return
		}
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke()
		}}
		h.Call = func(c *CallCtx) {
			if adapterCall(c) != ad+method {
				return
			}
			c.Opaque()
			r.Count("storage calls", 1)
			par := func(t string) *Val {
				for _, q := range f.Params {
					if strings.HasSuffix(q.Type().String(), t) {
						return c.E.in.mk(Val{op: OParam, aux: q.Name(), typ: q.Type()})
					}
				}
				return nil
			}
			cv := c.Args[1]
			own := par("uint32")
			if own == nil || !cv.contains(func(x *Val) bool { return x == own }) {
				c.Report("s06:store-contract:"+fn, "the contract is not passed to the storage")
			} else {
				contracts[kind] = strings.ReplaceAll(cv.String(), own.String(), "C")
			}
			if !args(c, par) {
				c.Report("s06:store-args:"+fn, "the storage is given something else than what was asked for")
			}
			c.derived("stored", nil, func(s *State) { s.Add("failed") })
			c.St.Add("called")
		}
		h.Exit = func(c *Ctx, g *ssa.Function, res []*Val) {
			if c.mayBeSuccess(g, res) && (!c.St.Has("called") || c.St.Has("failed")) {
				c.Report("s06:store-error:"+fn, "a failure of the storage is not returned, or it is not asked")
			}
		}
		r.Explore(h, f)
	}
	msg := stPkg + ".MessageStore."
	str := "string"
	visit(k.put, "PutWithID", "put", func(c *CallCtx, par func(string) *Val) bool {
		f := r.Fn(k.put)
		p := func(i int) *Val {
			return c.E.in.mk(Val{op: OParam, aux: f.Params[i].Name(), typ: f.Params[i].Type()})
		}
		return c.Args[2] == p(2) && stripConv(c.Args[3]) == par(str) && c.Args[4] == p(4) && isStr(c.Args[5], "")
	})
	visit(k.del, "Delete", "delete", func(c *CallCtx, par func(string) *Val) bool { return c.Args[2] == par("[]byte") && stripConv(c.Args[3]) == par(str) })
	visit(k.get, "Get", "get", func(c *CallCtx, par func(string) *Val) bool { return stripConv(c.Args[2]) == par(str) && isStr(c.Args[3], "") })
	visit(msg+"Put", "Put", "message", func(c *CallCtx, par func(string) *Val) bool {
		f := r.Fn(msg + "Put")
		p := func(i int) *Val {
			return c.E.in.mk(Val{op: OParam, aux: f.Params[i].Name(), typ: f.Params[i].Type()})
		}
		return c.Args[2] == p(2) && c.Args[3] == p(3) && c.Args[4] == p(4)
	})
	visit(msg+"Get", "Get", "message read", func(c *CallCtx, par func(string) *Val) bool {
		f := r.Fn(msg + "Get")
		p := func(i int) *Val {
			return c.E.in.mk(Val{op: OParam, aux: f.Params[i].Name(), typ: f.Params[i].Type()})
		}
		return c.Args[2] == p(2) && c.Args[3] == p(3)
	})
	if a := contracts["put"]; a != contracts["get"] || a != contracts["delete"] {
		r.Violate("s06:store-contracts", "", "subscriptions are stored, read and removed under different contracts: %v", contracts)
	}
	if contracts["message"] != contracts["message read"] || contracts["message"] == contracts["put"] {
		r.Violate("s06:store-mixed", "", "messages are not stored and read under one contract of their own: %v", contracts)
	}
	r.Need("storage calls", 5)
}

// adapter: what reaches the database.
func (k *subsRules) adapter() {
	r := k.r
	pkg := "server/internal/db/unitdb"
	type what struct {
		fn, db, typ string
		topic, con  int
		payload, id int
	}
	db := map[string]string{"DB.PutEntry": "Entry", "DB.DeleteEntry": "Entry", "DB.Get": "Query"}
	for _, w := range []what{{"Put", "DB.PutEntry", "Entry", 2, 1, 3, -1}, {"PutWithID", "DB.PutEntry", "Entry", 3, 1, 4, 2}, {"Delete", "DB.DeleteEntry", "Entry", 3, 1, -1, 2}, {"Get", "DB.Get", "Query", 2, 1, -1, -1}} {
		w := w
		f := r.Fn(pkg + ".adapter." + w.fn)
		if f == nil {
			return
		}
		flds := map[string]*types.Var{}
		for _, n := range []string{"Topic", "Contract"} {
			flds[n] = r.Field("unitdb", w.typ, n)
		}
		if w.payload >= 0 {
			flds["Payload"] = r.Field("unitdb", w.typ, "Payload")
		}
		if w.id >= 0 {
			flds["ID"] = r.Field("unitdb", w.typ, "ID")
		}
		var all []*types.Var
		for _, v := range flds {
			if v == nil {
				return
			}
			all = append(all, v)
		}
		want := map[string]int{"Topic": w.topic, "Contract": w.con, "Payload": w.payload, "ID": w.id}
		h := &Hooks{Interesting: anyOf(fieldUse(all...), callIs("unitdb."+w.db))}
		h.Call = func(c *CallCtx) {
			if typ, ok := db[strings.TrimPrefix(c.Name, "unitdb.")]; ok {
				c.Opaque()
				r.Count("database calls", 1)
				if c.Name != "unitdb."+w.db || typ != w.typ {
					c.Report("s06:adapter-call:"+w.fn, "the database is asked for something else")
				}
				for n, fld := range flds {
					q := f.Params[want[n]]
					v := stripConv(c.E.load(c.St, c.E.faddr(c.Args[1], fld), fld.Type()))
					if v.op != OParam || v.aux != q.Name() {
						c.Report("s06:adapter-field:"+w.fn+":"+n, "the %s does not reach the database as it was given", n)
					}
				}
				c.St.Add("called")
				c.derived("done", nil, func(s *State) { s.Add("failed") })
				return
			}
			if c.Callee == nil || !r.P.inModule(c.Callee) {
				c.Opaque()
				c.handled = true
			}
		}
		h.Exit = func(c *Ctx, g *ssa.Function, res []*Val) {
			if c.mayBeSuccess(g, res) && (!c.St.Has("called") || c.St.Has("failed")) {
				c.Report("s06:adapter-error:"+w.fn, "a failure of the database is not returned, or it is not asked")
			}
		}
		r.Explore(h, f)
	}
	r.Need("database calls", 4)
}
