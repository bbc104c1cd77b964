package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S04"] = checkS04
}

const (
	adpPkg   = "server/internal/db.Adapter"
	packPkg  = "server/internal/net.MessagePack"
	logStore = stPkg + ".MessageLog"
)

// delivery: stored messages.
type delivery struct {
	r                             *Run
	utpID, ctlID, ctlFlow, ctlTyp *types.Var
	infoID                        *types.Var
	mode, msgMode                 *types.Var
	sessID, clientID, pubC        *types.Var
	clean                         *types.Var
	k                             map[string]int64
}

func checkS04(r *Run) {
	r.Rule("a message is stored, looked up and removed under the key made of its ID and the session, nothing else; the keys of a session are those whose session part is its ID")
	r.Rule("every message that may have to be sent again is stored before it is handed over for sending or the client is told of it, for the connection it is sent to; each subscriber that is connected is handed the message or told of it")
	r.Rule("a stored message is removed only when the receipt for its ID came, and then before the exchange is completed; when a session is resumed each of its messages is announced, and only what is no message is removed; all of them only for a client that asks for a clean session")
	r.Rule("a published message is acknowledged only after each of its parts was stored; a session keeps the ID its messages are stored under")
	d := &delivery{r: r, k: map[string]int64{}}
	fs := []struct {
		v            **types.Var
		pkg, typ, fl string
	}{{&d.utpID, utpPkg, "Publish", "MessageID"}, {&d.ctlID, utpPkg, "ControlMessage", "MessageID"}, {&d.ctlFlow, utpPkg, "ControlMessage", "FlowControl"}, {&d.ctlTyp, utpPkg, "ControlMessage", "MessageType"},
		{&d.infoID, utpPkg, "Info", "MessageID"}, {&d.mode, utpPkg, "Publish", "DeliveryMode"}, {&d.msgMode, msgPkg, "Message", "DeliveryMode"},
		{&d.sessID, srvPkg, "_Conn", "sessID"}, {&d.clientID, srvPkg, "_Conn", "clientID"}, {&d.pubC, srvPkg, "_Conn", "pub"}, {&d.clean, utpPkg, "Connect", "CleanSessFlag"}}
	for _, f := range fs {
		if *f.v = r.Field(f.pkg, f.typ, f.fl); *f.v == nil {
			return
		}
	}
	for _, n := range []string{"NOTIFY", "RECEIVE", "RECEIPT", "COMPLETE", "ACKNOWLEDGE", "PUBLISH", "FLOWCONTROL", "CONNECT"} {
		v, ok := r.P.pkgConst(utpPkg, n)
		if !ok {
			r.Violate("anchor:"+n, "", "constant %s not found", n)
			return
		}
		d.k[n] = v
	}
	d.log()
	d.users()
	d.adapter()
}

// msgKey: is v the key of (message ID, session).
func (d *delivery) msgKey(v *Val, id, sess func(*Val) bool) bool {
	src := func(x *Val) (int64, bool) {
		switch {
		case id(x):
			return 1, true
		case sess(x):
			return 2, true
		}
		return 0, false
	}
	for i, b := range bitsOf(v, src) {
		switch {
		case i < 32:
			if b != (bit{'s', 2, int64(i)}) {
				return false
			}
		case i < 48:
			if b != (bit{'s', 1, int64(i - 32)}) {
				return false
			}
		default:
			if b.kind != 0 {
				return false
			}
		}
	}
	return true
}

// calls: does f itself call the function.
func calls(f *ssa.Function, name string) bool {
	is := callIs(name)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
	}
	return false
}

// assertOK: cond tells whether a value has a type.
func assertOK(cond *Val) (*Val, types.Type) {
	if cond.op == OFresh && strings.HasPrefix(cond.aux, "assertok@") {
		if t, ok := cond.site.(*ssa.TypeAssert); ok {
			return cond.args[0], t.AssertedType
		}
	}
	return nil, nil
}

// low: the low half of the key is compared with the prefix.
func (d *delivery) low(cond *Val, prefix func(*Val) bool) *Val {
	if cond.op != OBin || cond.aux != "==" {
		return nil
	}
	for i := range cond.args {
		if !prefix(stripConv(cond.args[i])) {
			continue
		}
		var key *Val
		src := func(x *Val) (int64, bool) {
			if n, _ := basicBits(typOr(x)); n == 64 && x.op != OBin && x.op != OConv && x.op != OConst {
				key = x
				return 1, true
			}
			return 0, false
		}
		ok := true
		for j, b := range bitsOf(cond.args[1-i], src) {
			ok = ok && (j < 32 && b == bit{'s', 1, int64(j)} || j >= 32 && b.kind == 0)
		}
		if ok && key != nil {
			return key
		}
	}
	return nil
}

// adapterCall: the name of a call, methods of the storage adapter by their interface.
func adapterCall(c *CallCtx) string {
	if c.Common.IsInvoke() {
		if n := staticName(c.Common); strings.HasPrefix(n, adpPkg+".") {
			return n
		}
	}
	return c.Name
}

// log: the message log of the store.
func (d *delivery) log() {
	r, p := d.r, d.r.P
	names := []string{adpPkg + ".PutMessage", adpPkg + ".GetMessage", adpPkg + ".DeleteMessage", adpPkg + ".Keys", packPkg + ".Info", packPkg + ".Type", "server/internal/net.Encode", "server/internal/net.Read", "bytes.Buffer.Bytes", "bytes.NewReader", "bytes.NewBuffer"}
	is := callIs(names...)
	used := fieldUse(d.ctlFlow, d.ctlID, d.utpID)
	for _, f := range p.funcs {
		if pkgOf(f) != stPkg || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "MessageLog" || !isExported(f) {
			continue
		}
		f := f
		name := f.Name()
		param := func(i int) func(*Val) bool {
			return func(v *Val) bool { return v.op == OParam && i < len(f.Params) && v.aux == f.Params[i].Name() }
		}
		msg := param(2)
		h := &Hooks{Interesting: func(in ssa.Instruction) bool { return is(in) || used(in) || isBuiltin("append", nil)(in) }}
		h.Call = func(c *CallCtx) {
			e := c.E
			keyOK := func(k *Val) bool {
				switch name {
				case "PersistOutbound", "PersistInbound":
					return d.msgKey(k, func(v *Val) bool {
						switch {
						case isFieldVal(v, d.infoID):
							b := fieldBase(v) // the message Info was asked of stands for the result
							if b.op == OComp && b.aux == "pair:info" {
								b = b.args[0]
							}
							return msg(b) || b.op == OAssert && msg(b.args[0])
						case isFieldVal(v, d.ctlID), isFieldVal(v, d.utpID):
							b := fieldBase(v)
							return b.op == OAssert && msg(b.args[0])
						}
						return false
					}, param(1))
				case "Reset":
					return c.St.HasV("match", k)
				}
				return param(1)(k)
			}
			switch adapterCall(c) {
			case packPkg + ".Info":
				c.Opaque()
				c.SetResult(e.in.mk(Val{op: OComp, aux: "pair:info", args: c.Args, typ: c.Sig.Results().At(0).Type()}))
			case packPkg + ".Type":
				c.Opaque()
				c.SetResult(e.pair("type", c.Args...))
			case "server/internal/net.Encode":
				c.Opaque()
				c.derived("encoded", nil, func(s *State) { s.Add("not encoded") })
			case "bytes.Buffer.Bytes":
				c.Opaque()
				v := c.Args[0]
				if b := e.load(c.St, v, elemType(v)); b != nil {
					v = b
				}
				c.SetResult(e.pair("bytes", v))
			case "bytes.NewReader", "bytes.NewBuffer":
				c.Opaque()
				c.SetResult(e.pair("reader", c.Args...))
			case "server/internal/net.Read":
				c.Opaque()
				c.derived("read", nil, func(s *State) { s.Add("unreadable") })
			case adpPkg + ".PutMessage":
				c.Opaque()
				r.Count("messages stored", 1)
				if !keyOK(c.Args[1]) {
					c.Report("s04:put-key:"+name, "a message is stored under something else than its ID and the session: %s", c.Args[1])
				}
				if m := findPair(c.Args[2], "encoded"); m == nil || !msg(m.args[0]) && !(m.args[0].op == OAssert && msg(m.args[0].args[0])) {
					c.Report("s04:put-other:"+name, "what is stored for a message is not the message")
				}
				switch {
				case name == "PersistOutbound" && c.St.Has("publish"):
				case name == "PersistInbound" && c.St.Has("flow:RECEIPT"):
				default:
					c.Report("s04:put-kind:"+name, "something else than a message, or a receipt that came, is stored under the key of a message")
				}
				c.St.Add("put")
				c.ForkErr(nil, nil)
			case adpPkg + ".DeleteMessage":
				c.Opaque()
				r.Count("messages removed", 1)
				if !keyOK(c.Args[1]) {
					c.Report("s04:delete-key:"+name, "what is removed is not the message with the ID, or key, that was given")
				}
				if name == "PersistOutbound" && !c.St.Has("flow:COMPLETE") || name == "PersistInbound" || name == "Get" || name == "Keys" {
					c.Report("s04:delete-kind:"+name, "a stored message is removed although its exchange is not completed")
				}
				c.St.Add("deleted", c.Args[1])
				c.St.Add("done")
				c.ForkErr(nil, nil)
			case adpPkg + ".GetMessage":
				c.Opaque()
				r.Count("messages looked up", 1)
				if !keyOK(c.Args[1]) {
					c.Report("s04:get-key:"+name, "a message is looked up under another key than the one given")
				}
				c.derived("raw", nil, func(s *State) { s.Add("unreadable") })
			case adpPkg + ".Keys":
				c.Opaque()
				c.SetResult(e.pair("keys", c.Res))
			case "builtin.append":
				if name == "Keys" && len(c.Args) > 1 {
					for _, x := range c.varargs(c.Args[1]) {
						if !c.St.HasV("match", x) {
							c.Report("s04:key-of-other", "the keys of a session can include that of another session")
						}
						c.St.Add("done")
					}
				}
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if v, t := assertOK(cond); v != nil && msg(v) && typeName(deref(t)) == "Publish" {
				if truth {
					c.St.Add("publish")
				} else {
					c.St.Add("no publish")
				}
			}
			if k, v := constCmp(cond); v != nil {
				if v.op == OComp && v.aux == "pair:type" {
					if k == d.k["PUBLISH"] {
						if truth {
							c.St.Add("publish")
						} else {
							c.St.Add("no publish")
						}
					}
					if !truth && k == d.k["FLOWCONTROL"] {
						c.St.Add("no control")
					}
				}
				if isFieldVal(v, d.ctlFlow) {
					for _, n := range []string{"RECEIPT", "COMPLETE"} {
						if k == d.k[n] {
							if truth {
								c.St.Add("flow:" + n)
							} else {
								c.St.Add("not flow:" + n)
							}
						}
					}
				}
			}
			if key := d.low(cond, param(1)); key != nil {
				if truth {
					c.St.Add("match", key)
				} else {
					c.St.Add("done")
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("log exits", 1)
			switch name {
			case "PersistOutbound":
				if c.St.Has("publish") && !c.St.Has("put") && !c.St.Has("not encoded") {
					c.Report("s04:not-stored", "a message that is sent is not stored")
				}
				if c.St.Has("flow:COMPLETE") && len(c.St.Find("deleted")) == 0 {
					c.Report("s04:not-removed", "a message whose exchange is completed stays stored")
				}
				if !c.St.Has("publish") && !c.St.Has("no publish") && !c.St.Has("flow:COMPLETE") {
					c.Report("s04:not-looked-at", "a message can be passed over when it is to be stored")
				}
				if !c.St.Has("publish") && !c.St.Has("flow:COMPLETE") && !c.St.Has("not flow:COMPLETE") && !c.St.Has("no control") {
					c.Report("s04:complete-ignored", "the completion of an exchange can be passed over")
				}
			case "PersistInbound":
			case "Keys", "Reset":
				if !c.St.Has("went through all") {
					c.Report("s04:keys-left:"+name, "%s can return without having looked at all keys", name)
				}
			case "Delete":
				if len(c.St.Find("deleted")) == 0 {
					c.Report("s04:not-deleted", "a message that is to be removed stays stored")
				}
			case "Get":
				v := res[0]
				if v.op == ONil {
					if !c.St.Has("unreadable") && !c.St.Has("absent") && c.St.Has("got") {
						c.Report("s04:not-found", "a stored message is not found")
					}
					return
				}
				if rd := findPair(v, "read"); rd == nil || findPair(rd, "raw") == nil || c.St.Has("unreadable") {
					c.Report("s04:get-other", "what is found for a key is not what is stored under it")
				}
			}
		}
		if name == "Keys" || name == "Reset" {
			isKeys := loopIs(nil, func(in ssa.Instruction) bool {
				return isBuiltin("append", nil)(in) || callIs(adpPkg+".DeleteMessage")(in)
			})
			what := "a key of the session can be left out"
			h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
				if c.In.Block() == l.head {
					c.St.Add("went through all")
				}
			}
			r.eachHooks(h, &each{name: "keys of a session", key: "s04:key-left:" + name, what: what, is: isKeys, done: []string{"done"}})
		}
		r.Explore(h, f)
	}
	r.Need("messages stored", 1)
	r.Need("messages removed", 1)
	r.Need("messages looked up", 1)
	r.Need("keys of a session", 1)
}


// bytesPut models the writing of a number to bytes: a tag for each byte.
func (c *CallCtx) bytesPut() bool {
	w, o, put, ok := byteOrder(c.Name)
	if !ok || !put {
		return false
	}
	c.Opaque()
	c.handled = true
	n := len(c.Args)
	base, off, ok := sliceAt(c.Args[n-2])
	if !ok {
		return true
	}
	for i := int64(0); i < w; i++ {
		k := i
		if o == "BE" {
			k = w - 1 - i
		}
		c.noteByte(base, off+i, c.Args[n-1], k)
	}
	return true
}

// noteByte: byte n of base is byte k of v.
func (c *Ctx) noteByte(base *Val, n int64, v *Val, k int64) {
	tag := fmt.Sprintf("byte %d", n)
	for _, t := range c.St.Find(tag) {
		if t.args[0] == base {
			c.St.DelV(tag, t)
		}
	}
	c.St.Add(tag, c.E.pair("byte", base, v, c.E.in.integer(k)))
}

// byteStored: a store of a single byte.
func (c *Ctx) byteStored(addr, v *Val) {
	if addr.op != OIAddr {
		return
	}
	if b, off, ok := sliceAt(addr.args[0]); ok {
		if i, ok := addr.args[1].constInt(); ok {
			c.noteByte(b, off+i, v, 0)
		}
	}
}

// byteAt: what byte n of the bytes b was set to.
func (c *Ctx) byteAt(b *Val, n int64) (*Val, int64) {
	base, off, ok := sliceAt(b)
	if !ok {
		return nil, 0
	}
	for _, t := range c.St.Find(fmt.Sprintf("byte %d", off+n)) {
		if t.args[0] == base {
			k, _ := t.args[2].constInt()
			return t.args[1], k
		}
	}
	return nil, 0
}

// bytesAre: the bytes lo.. of b hold the number v.
func (c *Ctx) bytesAre(b *Val, lo, w int64, is func(*Val) bool) bool {
	for i := int64(0); i < w; i++ {
		v, k := c.byteAt(b, lo+i)
		if v == nil || k != i || !is(v) {
			return false
		}
	}
	return true
}

// sliceAt: the bytes a slice with a fixed start is part of.
func sliceAt(v *Val) (base *Val, off int64, ok bool) {
	for v.op == OSlice {
		if v.args[1] != nil {
			k, ok := v.args[1].constInt()
			if !ok {
				return nil, 0, false
			}
			off += k
		}
		v = v.args[0]
	}
	return v, off, true
}

// isType: is m a value of the type, behind an interface or not.
func isType(m *Val, name string) bool {
	return typeName(typOr(m)) == name || typeName(typOr(stripIfaceVal(m))) == name
}

// users: who stores, sends and removes messages.
func (d *delivery) users() {
	r, p := d.r, d.r.P
	const (
		log     = stPkg + ".MessageLog."
		send    = srvPkg + "._Conn.SendMessage"
		pack    = srvPkg + "._Conn.sendPack"
		persist = log + "PersistOutbound"
		inbound = log + "PersistInbound"
		stored  = stPkg + ".MessageStore.Put"
		sget    = stPkg + ".SessionStore.Get"
		sput    = stPkg + ".SessionStore.Put"
		cached  = srvPkg + "._ConnCache.get"
		next    = msgPkg + ".MessageIds.NextID"
		epoch   = "server/internal/pkg/uid.ID.Epoch"
		subsGet = stPkg + ".SubscriptionStore.Get"
	)
	base := callIs(send, pack, persist, inbound, stored, sget, sput, cached, next, epoch, subsGet, log+"Get", log+"Keys", log+"Delete", log+"Reset", srvPkg+"._Conn.storeOutbound", srvPkg+"._Conn.storeInbound", packPkg+".Info", packPkg+".Type", srvPkg+"._Conn.publish")
	used := fieldUse(d.utpID, d.ctlID, d.ctlFlow, d.ctlTyp, d.mode, d.msgMode, d.pubC, d.clean)
	is := func(in ssa.Instruction) bool {
		if base(in) || used(in) {
			return true
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == d.sessID {
				return true
			}
		}
		ci, ok := in.(ssa.CallInstruction)
		if ok = ok && pkgOf(in.Parent()) == srvPkg && !calls(in.Parent(), stPkg+".SubscriptionStore.Put"); ok {
			_, _, _, ok = byteOrder(staticName(ci.Common()))
		}
		return ok
	}
	sends := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case ssa.CallInstruction:
			switch staticName(x.Common()) {
			case persist, inbound, stored, log + "Get", log + "Delete", log + "Reset", sput:
				return true
			}
		case *ssa.Send:
			return ssaField(x.Chan) == d.pubC
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && ssaField(s.Chan) == d.pubC {
					return true
				}
			}
		}
		return false
	}
	seen := map[ssa.Instruction]bool{}
	explore := func(f *ssa.Function) {
		own := fname(f)
		h := &Hooks{Interesting: is}
		// numbers keep their identity through conversions that keep their bits
		num := func(v *Val) *Val { return stripConv(v) }
		idIn := func(c *Ctx, m *Val, fl *types.Var) *Val {
			return num(c.E.load(c.St, c.E.faddr(stripIfaceVal(m), fl), fl.Type()))
		}
		isStored := func(c *Ctx, conn, id *Val) bool {
			for _, t := range c.St.Find("stored") {
				if t.args[0] == conn && t.args[1] == id {
					return true
				}
			}
			return false
		}
		// logged: the message of the log an ID was taken from.
		logged := func(id *Val) *Val {
			if isFieldVal(id, d.utpID) {
				return findPair(fieldBase(id), "logged")
			}
			return nil
		}
		h.Send = func(c *Ctx, ch, v *Val) {
			if !isFieldVal(ch, d.pubC) {
				return
			}
			seen[c.In] = true
			r.Count("messages handed over for sending", 1)
			if !isStored(c, fieldBase(ch), idIn(c, v, d.utpID)) {
				c.Report("s04:sent-unstored:"+own, "a message is handed over for sending although it was not stored before for that connection under its ID")
			}
		}
		handed := func(c *Ctx, conn *Val) {
			if v := findPair(conn, "conn"); v != nil {
				c.St.Add("handed")
			}
		}
		reqKey := func(c *Ctx, k, conn *Val) bool {
			return d.msgKey(k, func(v *Val) bool { return isFieldVal(v, d.ctlID) }, func(v *Val) bool { return isFieldVal(v, d.sessID) && fieldBase(v) == conn })
		}
		store := func(c *Ctx, conn, m *Val, at string) {
			m = stripIfaceVal(m)
			switch typeName(typOr(m)) {
			case "Publish":
				r.Count("messages stored before they are sent", 1)
				c.St.Add("stored", c.E.pair("key", conn, idIn(c, m, d.utpID)))
			case "ControlMessage":
				fl := c.E.load(c.St, c.E.faddr(m, d.ctlFlow), d.ctlFlow.Type())
				if n, ok := fl.constInt(); !ok || n == d.k["COMPLETE"] {
					id := idIn(c, m, d.ctlID)
					r.Count("exchanges completed", 1)
					if !ok || !isFieldVal(id, d.ctlID) || !c.St.HasV("receipt", fieldBase(id)) {
						c.Report("s04:removed-early:"+own, "a stored message is removed although no receipt for its ID came")
					}
					c.St.Add("completed", id)
				}
			default:
				if own == srvPkg+"._Conn.storeOutbound" && m.op == OParam {
					return // the callers answer for it
				}
				c.Report("s04:stored-what:"+own, "it is not known what is stored: %s", typOr(m))
			}
		}
		h.Call = func(c *CallCtx) {
			e := c.E
			if sends(c.In) {
				seen[c.In] = true
			}
			if c.bytesPut() || c.readsBytes() {
				return
			}
			recv := func() *Val { return c.Args[0] }
			switch c.Name {
			case own:
				return
			case next:
				c.Opaque()
				c.SetResult(e.pair("next", c.Args[0], c.Res))
			case epoch:
				c.Opaque()
				c.SetResult(e.pair("epoch", c.Args...))
			case cached:
				c.Opaque()
				v := e.pair("conn", c.Args[1], c.Res)
				c.SetResult(v)
				c.Fork(func(s *State) { e.setFact(s, v, e.vNonNil) })
				c.Fork(func(s *State) { e.setFact(s, v, e.vNil); s.Add("gone") })
			case packPkg + ".Type":
				c.Opaque()
				c.SetResult(e.pair("type", c.Args...))
			case packPkg + ".Info":
				c.Opaque()
				c.SetResult(e.in.mk(Val{op: OComp, aux: "pair:info", args: c.Args, typ: c.Sig.Results().At(0).Type()}))
			case subsGet:
				c.Opaque()
				c.derived("subs", nil, nil)
			case srvPkg + "._Conn.publish":
				c.Opaque()
				c.handled = true
			case send:
				c.Opaque()
				c.handled = true
				handed(c.Ctx, recv())
			case pack:
				c.Opaque()
				c.handled = true
				conn, m := recv(), stripIfaceVal(c.Args[1])
				if n := findPair(m, "logged"); n != nil {
					r.Count("stored messages sent", 1)
					if !reqKey(c.Ctx, n.args[1], conn) {
						c.Report("s04:other-message", "the message that is sent is not the one stored under the ID that was asked for and the session of the connection")
					}
					return
				}
				switch typeName(typOr(m)) {
				case "Publish":
					if !isStored(c.Ctx, conn, idIn(c.Ctx, m, d.utpID)) {
						c.Report("s04:sent-unstored:"+own, "a message is handed over for sending although it was not stored before for that connection under its ID")
					}
				case "ControlMessage":
					fl := e.load(c.St, e.faddr(m, d.ctlFlow), d.ctlFlow.Type())
					ty := e.load(c.St, e.faddr(m, d.ctlTyp), d.ctlTyp.Type())
					id := idIn(c.Ctx, m, d.ctlID)
					n, ok := fl.constInt()
					tn, tok := ty.constInt()
					switch {
					case !ok || !tok:
					case n == d.k["NOTIFY"]:
						r.Count("messages announced", 1)
						if l := logged(id); l != nil {
							c.St.Add("dealt with", l)
						} else if !isStored(c.Ctx, conn, id) {
							c.Report("s04:announced-unstored:"+own, "a client is told of a message that was not stored before for that connection under its ID")
						}
						handed(c.Ctx, conn)
					case n == d.k["COMPLETE"]:
						if !c.St.HasV("completed", id) {
							c.Report("s04:completed-early", "an exchange is completed before its stored message was removed")
						}
						c.St.Add("told complete")
					case n == d.k["ACKNOWLEDGE"] && tn == d.k["PUBLISH"]:
						r.Count("publish requests acknowledged", 1)
						if c.St.Has("not stored") || c.St.Has("left early") {
							c.Report("s04:acknowledged-unstored", "a published message is acknowledged although not all of its parts were stored")
						}
						if !isFieldVal(id, d.utpID) || findPair(id, "logged") != nil {
							c.Report("s04:acknowledged-other", "what is acknowledged is not the ID of the message that was published")
						}
					}
				}
			case srvPkg + "._Conn.storeOutbound":
				c.Opaque()
				c.handled = true
				store(c.Ctx, recv(), c.Args[1], own)
			case srvPkg + "._Conn.storeInbound":
				c.Opaque()
				c.handled = true
			case persist:
				c.Opaque()
				c.handled = true
				b := stripConv(c.Args[1])
				if !isFieldVal(b, d.sessID) {
					c.Report("s04:stored-for:"+own, "a message is stored, or removed, for something else than the session of a connection")
					return
				}
				store(c.Ctx, fieldBase(b), c.Args[2], own)
			case inbound:
				c.Opaque()
				c.handled = true
				if b := stripConv(c.Args[1]); !isFieldVal(b, d.sessID) {
					c.Report("s04:inbound-for:"+own, "a receipt is stored for something else than the session of a connection")
				}
			case stored:
				c.Opaque()
				r.Count("published messages stored", 1)
				c.ForkErr(func(s *State) { s.Add("put") }, func(s *State) { s.Add("not stored") })
			case log + "Get":
				c.Opaque()
				v := e.in.mk(Val{op: OComp, aux: "pair:logged", args: c.Args, typ: c.Res.typ})
				c.SetResult(v)
				c.Fork(func(s *State) { e.setFact(s, v, e.vNonNil) })
				c.Fork(func(s *State) { e.setFact(s, v, e.vNil); s.Add("dealt with", v) })
			case log + "Keys":
				c.Opaque()
				c.SetResult(e.pair("keys", c.Args...))
				c.St.Add("resumed", stripConv(c.Args[1]))
			case log + "Delete":
				c.Opaque()
				c.handled = true
				ok := false
				for _, m := range c.St.Find("no message") {
					ok = ok || m.args[1] == c.Args[1]
				}
				if !ok {
					c.Report("s04:dropped-message", "something is removed from the log without being known to be no message")
				}
				for _, m := range c.St.Find("no message") {
					if m.args[1] == c.Args[1] {
						c.St.Add("dealt with", m)
					}
				}
			case log + "Reset":
				c.Opaque()
				c.handled = true
				r.Count("sessions reset", 1)
				if !c.St.Has("clean") {
					c.Report("s04:reset-kept-session", "the messages of a session are dropped although the client did not ask for a clean session")
				}
				c.St.Add("reset", stripConv(c.Args[1]))
			case sget:
				c.Opaque()
				c.St.Add("session key", num(c.Args[1]))
				c.derived("session", func(s *State) { s.Add("found") }, nil)
			case sput:
				c.Opaque()
				r.Count("sessions stored", 1)
				ok := false
				for i := int64(0); i < 1; i++ {
					v, _ := c.byteAt(c.Args[2], 0)
					if v != nil && c.bytesAre(c.Args[2], 0, 4, func(x *Val) bool { return x == v }) {
						c.St.Add("session kept", e.pair("kept", num(c.Args[1]), num(v)))
						ok = true
					}
				}
				if !ok {
					c.Report("s04:session-format", "what is stored for a session is not its ID in its first four bytes")
				}
				c.ForkErr(nil, nil)
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if truth && cond.op == OBin && cond.aux == "==" && findPair(cond, "epoch") != nil {
				c.St.Add("eq", cond)
			}
			if truth && isFieldVal(cond, d.clean) {
				c.St.Add("clean")
			}
			if v, t := assertOK(cond); v != nil && !truth && typeName(t) == "Publish" && findPair(v, "logged") != nil {
				c.St.Add("no message", findPair(v, "logged"))
			}
			k, v := constCmp(cond)
			if v == nil {
				return
			}
			if isFieldVal(v, d.ctlFlow) && truth && k == d.k["RECEIPT"] {
				c.St.Add("receipt", fieldBase(v))
			}
			if t := v; t.op == OComp && t.aux == "pair:type" && findPair(t, "logged") != nil && truth != (k == d.k["PUBLISH"]) {
				c.St.Add("no message", findPair(t, "logged"))
			}
			if n, uns := basicBits(typOr(v)); n == 8 && uns && !truth && k >= 0 && k <= 2 && v.op != OComp {
				tag := fmt.Sprintf("not mode %d", k)
				c.St.Add(tag, v)
				if c.St.HasV("not mode 0", v) && c.St.HasV("not mode 1", v) && c.St.HasV("not mode 2", v) {
					c.St.Add("no mode")
				}
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("exits with messages", 1)
			for _, b := range c.St.Find("receipt") {
				if !c.St.Has("told complete") {
					c.Report("s04:not-completed", "a receipt came but the client is not told that the exchange is complete: %s", b)
				}
			}
			keys := c.St.Find("session key")
			if len(keys) == 0 {
				return
			}
			r.Count("sessions looked up", 1)
			cur := num(c.E.load(c.St, c.E.faddr(c.E.in.mk(Val{op: OParam, aux: f.Params[0].Name(), typ: f.Params[0].Type()}), d.sessID), d.sessID.Type()))
			has := func(k func(*Val) bool) bool {
				for _, t := range c.St.Find("session kept") {
					if k(t.args[0]) && t.args[1] == cur {
						return true
					}
				}
				return false
			}
			isEpoch := func(v *Val) bool {
				if findPair(v, "epoch") != nil {
					return true
				}
				for _, t := range c.St.Find("eq") {
					for i := range t.args {
						if num(t.args[i]) == v && findPair(t.args[1-i], "epoch") != nil {
							return true
						}
					}
				}
				return false
			}
			if !has(func(v *Val) bool { return v == keys[0] }) {
				c.Report("s04:session-lost", "the session is not stored, with the ID its messages are stored under, under the key it is looked up with: %s", cur)
			}
			if !has(isEpoch) {
				c.Report("s04:session-lost-client", "the session is not stored, with the ID its messages are stored under, under the key of the client: %s", cur)
			}
			if c.St.Has("found") {
				if rd := findPair(cur, "session"); rd != nil {
					ok := false
					for _, v := range c.St.Find("reset") {
						ok = ok || v == cur
					}
					// the keys of the session were gone through
					for _, v := range c.St.Find("resumed") {
						ok = ok || v == cur
					}
					if !ok {
						c.Report("s04:not-resumed", "the messages of a session that was found are neither announced nor dropped")
					}
				}
			}
		}
		isLog := loopIs(nil, callIs(log+"Get"))
		isFan := loopIs(nil, callIs(cached))
		isPut := loopIs(nil, callIs(stored))
		r.eachHooks(h,
			&each{name: "stored messages looked at", key: "s04:not-announced", what: "a stored message of a session that is resumed can be left out", is: isLog, done: []string{"dealt with"}},
			&each{name: "subscribers looked at", key: "s04:not-handed", what: "a subscriber can be left out when a message is published", is: isFan, done: []string{"handed", "gone", "no mode"}},
			&each{name: "parts of a published message", key: "s04:part-not-stored", what: "a part of a published message can be left out", is: isPut, done: []string{"put"}, only: true})
		exit := h.LoopExit
		h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if isPut(l, fn) && c.In.Block() != l.head {
				c.St.Add("left early")
			}
			exit(c, l, fn)
		}
		r.Explore(h, f)
	}
	for _, n := range []string{"_Conn.handler", "_Conn.publish", "_Conn.SendMessage", "_Conn.resume", "batchManager.publish"} {
		if f := r.Fn(srvPkg + "." + n); f != nil {
			explore(f)
		}
	}
	for _, f := range p.funcs {
		if !strings.HasPrefix(pkgOf(f), srvPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sends(in) && !seen[in] {
					explore(f)
				}
			}
		}
	}
	r.Need("messages handed over for sending", 1)
	r.Need("messages stored before they are sent", 2)
	r.Need("messages announced", 1)
	r.Need("stored messages sent", 1)
	r.Need("exchanges completed", 1)
	r.Need("published messages stored", 1)
	r.Need("publish requests acknowledged", 1)
	r.Need("stored messages looked at", 1)
	r.Need("subscribers looked at", 1)
	r.Need("sessions stored", 1)
	r.Need("sessions looked up", 1)
}

// adapter: the message half of the storage adapter passes on what it is given.
func (d *delivery) adapter() {
	r, p := d.r, d.r.P
	for name, op := range map[string]string{"PutMessage": "Put", "GetMessage": "Get", "DeleteMessage": "Delete", "Keys": "Keys"} {
		name, target := name, "memdb.DB."+op
		for _, f := range p.funcs {
			if pkgOf(f) != "server/internal/db/unitdb" || f.Name() != name || f.Signature.Recv() == nil {
				continue
			}
			f := f
			h := &Hooks{Interesting: callIs(target)}
			h.Call = func(c *CallCtx) {
				if c.Name != target {
					return
				}
				c.Opaque()
				r.Count("calls passed on to the store", 1)
				for i := 1; i < len(f.Params); i++ {
					if a := c.Args[i]; a.op != OParam || a.aux != f.Params[i].Name() {
						c.Report("s04:adapter-args:"+name, "%s does not pass on the key and payload it is given", name)
					}
				}
				c.St.Add("passed on")
				if c.Sig.Results().Len() == 1 && c.ErrRes() != nil {
					c.ForkErr(nil, func(s *State) { s.Add("failed") })
				} else {
					c.derived("stored", nil, func(s *State) { s.Add("failed") })
				}
			}
			h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
				ev, has := c.errValue(fn, res)
				switch {
				case !c.St.Has("passed on"):
					c.Report("s04:adapter-dropped:"+name, "%s can return without doing what it is asked for", name)
				case has && c.St.Has("failed") && c.mayBeSuccess(fn, res):
					c.Report("s04:adapter-failure:"+name, "%s reports success although the store failed", name)
				case has && !c.St.Has("failed") && ev != nil && c.E.nilness(c.St, ev) != 1:
					c.Report("s04:adapter-refused:"+name, "%s reports a failure although the store succeeded", name)
				case (name == "GetMessage" || name == "Keys") && !c.St.Has("failed") && findPair(res[0], "stored") == nil:
					c.Report("s04:adapter-result:"+name, "%s does not return what the store returned", name)
				}
			}
			r.Explore(h, f)
		}
	}
	r.Need("calls passed on to the store", 4)
}
