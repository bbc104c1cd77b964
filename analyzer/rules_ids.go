package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S10"] = checkS10
}

const msgPkg = "server/internal/message"

// idRules: message IDs of a connection.
type idRules struct {
	r                  *Run
	id, resume, index  *types.Var
	mids               *types.Var // of _Conn
	utpID, msgID       *types.Var
	ctlID, ctlFlow     *types.Var
	pubMode, msgMode   *types.Var
	next, free, resumf string
	assumed            map[*Val]bool
}

func checkS10(r *Run) {
	r.Rule("an ID is handed out only if it was found in neither of the tables of IDs in use, or after all IDs were tried; it lies in the range the wire has room for, and is entered in a table before it is returned")
	r.Rule("an ID leaves the tables only by being freed, which removes it from both; the tables are never replaced; a resumed ID enters one of them")
	r.Rule("an ID is freed when the receipt for it came, after its stored message was given up, and for a message that needs no receipt once it was handed over for sending - and then it is freed")
	r.Rule("the ID of every message that is stored for or sent to a connection was handed out by that connection; the ID of a stored message is reserved before the client is told of it")
	k := &idRules{r: r}
	k.id, k.resume, k.index = r.Field(msgPkg, "MessageIds", "id"), r.Field(msgPkg, "MessageIds", "resume"), r.Field(msgPkg, "MessageIds", "index")
	k.mids = r.Field(srvPkg, "_Conn", "MessageIds")
	k.utpID, k.msgID = r.Field(utpPkg, "Publish", "MessageID"), r.Field(msgPkg, "Message", "MessageID")
	k.ctlID, k.ctlFlow = r.Field(utpPkg, "ControlMessage", "MessageID"), r.Field(utpPkg, "ControlMessage", "FlowControl")
	k.pubMode, k.msgMode = r.Field(utpPkg, "Publish", "DeliveryMode"), r.Field(msgPkg, "Message", "DeliveryMode")
	if k.id == nil || k.resume == nil || k.index == nil || k.mids == nil || k.utpID == nil || k.msgID == nil || k.ctlID == nil || k.ctlFlow == nil || k.pubMode == nil || k.msgMode == nil {
		return
	}
	k.next, k.free, k.resumf = msgPkg+".MessageIds.NextID", msgPkg+".MessageIds.FreeID", msgPkg+".MessageIds.ResumeID"
	k.tables()
	k.users()
}

// bounds of an ID; stored IDs are in 0..65535.
func (k *idRules) rng(st *State, v *Val) (lo, hi int64) {
	const inf = int64(1) << 40
	lo, hi = -inf, inf
	switch v.op {
	case OConst:
		if c, ok := v.constInt(); ok {
			return c, c
		}
	case OConv:
		lo, hi = k.rng(st, v.args[0])
		if n, uns := basicBits(v.typ); n > 0 && uns && n < 40 && (lo < 0 || hi >= 1<<uint(n)) {
			lo, hi = 0, 1<<uint(n)-1
		}
	case OLoad:
		if isFieldVal(v, k.id) {
			lo, hi = 0, 65535
		}
	case OField:
		if v.fld == k.id {
			lo, hi = 0, 65535
		}
	case OFresh:
		if v.fld == k.id { // any value the field gets in a loop: checked at the end of each round
			lo, hi = 1, 65535
		}
	case OStale:
		lo, hi = 0, 65535 // what the field held in the round before: checked at the end of that round
	case OPhi:
		if v.init == nil || v.step == nil {
			break
		}
		if k.assumed[v] {
			return 0, 65535
		}
		if k.assumed == nil {
			k.assumed = map[*Val]bool{}
		}
		k.assumed[v] = true
		lo, hi = k.rng(st, v.step)
		il, ih := k.rng(st, v.init)
		delete(k.assumed, v)
		if lo < 0 || hi > 65535 || il < 0 || ih > 65535 {
			return -inf, inf
		}
		if st.Has("round") {
			break
		}
		if il < lo {
			lo = il
		}
		if ih > hi {
			hi = ih
		}
	case OBin:
		al, ah := k.rng(st, v.args[0])
		bl, bh := k.rng(st, v.args[1])
		switch v.aux {
		case "+":
			lo, hi = al+bl, ah+bh
		case "-":
			lo, hi = al-bh, ah-bl
		case "%":
			if al >= 0 && bl == bh && bl > 0 {
				lo, hi = 0, bl-1
				if ah < hi {
					hi = ah
				}
			}
		case "&":
			if bl == bh && bl >= 0 {
				lo, hi = 0, bl
			}
		}
	}
	for _, t := range st.Find("lt") {
		if c, ok := t.args[1].constInt(); ok && t.args[0] == v && c-1 < hi {
			hi = c - 1
		}
		if c, ok := t.args[0].constInt(); ok && t.args[1] == v && c+1 > lo {
			lo = c + 1
		}
	}
	for _, t := range st.Find("ge") {
		if c, ok := t.args[1].constInt(); ok && t.args[0] == v && c > lo {
			lo = c
		}
		if c, ok := t.args[0].constInt(); ok && t.args[1] == v && c < hi {
			hi = c
		}
	}
	for _, t := range st.Find("ne") {
		if c, ok := t.args[1].constInt(); ok && t.args[0] == v {
			if c == lo {
				lo++
			}
			if c == hi {
				hi--
			}
		}
	}
	return
}

// tables: the allocator.
func (k *idRules) tables() {
	r, p := k.r, k.r.P
	recv := func(v *Val) *types.Var {
		switch {
		case isFieldVal(v, k.resume):
			return k.resume
		case isFieldVal(v, k.index):
			return k.index
		}
		return nil
	}
	used := fieldUse(k.id, k.resume, k.index)
	is := func(in ssa.Instruction) bool {
		if used(in) {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate, *ssa.Lookup:
			return true
		case ssa.CallInstruction:
			return staticName(x.Common()) == "builtin.delete"
		}
		return false
	}
	n := 0
	for _, f := range p.entries(msgPkg) {
		if f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "MessageIds" {
			continue
		}
		f := f
		n++
		name := fname(f)
		h := &Hooks{Interesting: is}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			order{}.assume(c, cond, truth)
			m, ok := lookupOK(cond)
			if !ok {
				return
			}
			if fl := recv(m); fl != nil && !truth {
				c.St.Add("not in "+fl.Name(), stripConv(cond.args[0].args[1]))
			}
		}
		h.LoopExit = func(c *Ctx, l *loop, fn *ssa.Function) {
			if c.In.Block() == l.head {
				if _, _, b := countsLoop(l); b != nil {
					if v, ok := constOfSSA(stripConvSSA(b)); ok && v > 0 && !c.St.Has("round") {
						c.St.Add("impossible") // there is a first round
					} else if ok && v >= 65535 {
						c.St.Add("exhausted")
					}
				}
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			c.St.Add("round")
			recvV := c.E.eval(c.fr, fn.Params[0])
			if fn.Signature.Recv() != nil && typeName(fn.Signature.Recv().Type()) == "MessageIds" {
				k.idStored(c, c.E.load(c.St, c.E.faddr(recvV, k.id), k.id.Type()), 1)
			}
			for _, n := range []string{"not in resume", "not in index"} {
				c.St.Del(n)
			}
		}
		h.MapWrite = func(c *Ctx, m, key, v *Val) {
			fl := recv(m)
			if fl == nil {
				return
			}
			key = stripConv(key)
			if v == nil {
				if name != k.free {
					c.Report("s10:dropped:"+f.Name(), "%s takes an ID out of the tables of IDs in use", f.Name())
				}
				c.St.Add("gone from "+fl.Name(), key)
				return
			}
			if c.St.Has("impossible") {
				return
			}
			c.St.Add("entered", key)
			switch name {
			case k.next:
				r.Count("IDs entered", 1)
				if !(c.St.HasV("not in resume", key) && c.St.HasV("not in index", key)) && !c.St.Has("exhausted") {
					c.Report("s10:id-in-use", "an ID can be handed out although it was not found to be free in both tables")
				}
				if lo, hi := k.rng(c.St, key); lo < 1 || hi > 65535 {
					c.Report("s10:id-range", "an ID that is handed out can be 0 or need more than 16 bits: %s", key)
				}
			case k.resumf:
			default:
				c.Report("s10:entered:"+f.Name(), "%s enters an ID in the tables of IDs in use", f.Name())
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && (addr.fld == k.resume || addr.fld == k.index) {
				c.Report("s10:table-replaced:"+f.Name(), "%s replaces a table of IDs in use", f.Name())
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if c.St.Has("impossible") {
				return
			}
			r.Count("allocator exits", 1)
			recvV := c.E.eval(c.fr, fn.Params[0])
			k.idStored(c, c.E.load(c.St, c.E.faddr(recvV, k.id), k.id.Type()), 0)
			switch name {
			case k.next:
				if !c.St.HasV("entered", stripConv(res[0])) {
					c.Report("s10:not-entered", "an ID is handed out without being entered in a table of IDs in use")
				}
			case k.resumf, k.free:
				id := func(v *Val) bool { return v.op == OParam && v.aux == fn.Params[1].Name() }
				has := func(n string) bool {
					for _, v := range c.St.Find(n) {
						if id(v) {
							return true
						}
					}
					return false
				}
				if name == k.resumf && !has("entered") {
					c.Report("s10:not-resumed", "an ID that is resumed is not entered in a table of IDs in use")
				}
				if name == k.free && !(has("gone from resume") || has("not in resume")) || name == k.free && !(has("gone from index") || has("not in index")) {
					c.Report("s10:not-freed", "an ID that is freed stays in a table of IDs in use")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("IDs entered", 1)
	r.Need("allocator exits", 3)
	// nothing else touches the tables
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fl := structOf(fa.X.Type()).Field(fa.Field)
				if fl != k.resume && fl != k.index && fl != k.mids {
					continue
				}
				if _, fresh := stripSSA(fa.X).(*ssa.Alloc); !fresh {
					r.Violate("s10:tables-replaced:"+fname(f), p.instrPos(in), "%s replaces the tables of IDs in use of a connection", fname(f))
				}
			}
		}
	}
}

// idStored: the last ID handed out stays within its range.
func (k *idRules) idStored(c *Ctx, v *Val, min int64) {
	if v.op == OLoad || v.op == OField {
		return // as it was
	}
	if lo, hi := k.rng(c.St, v); lo < min || hi > 65535 {
		c.Report("s10:id-field-range", "the last ID that was handed out can leave its range %s", v)
	}
}

// ssaConn: the connection whose IDs v refers to.
func (k *idRules) connOf(v *Val) *Val {
	if v.op == OFAddr && v.fld == k.mids {
		return v.args[0]
	}
	return nil
}

// users: who is handed out IDs and who frees them.
func (k *idRules) users() {
	r, p := k.r, k.r.P
	send := srvPkg + "._Conn.SendMessage"
	pack := srvPkg + "._Conn.sendPack"
	persist := stPkg + ".MessageLog.PersistOutbound"
	receipt, _ := p.pkgConst(utpPkg, "RECEIPT")
	notify, _ := p.pkgConst(utpPkg, "NOTIFY")
	complete, _ := p.pkgConst(utpPkg, "COMPLETE")
	sessID := r.Field(srvPkg, "_Conn", "sessID")
	pubC := r.Field(srvPkg, "_Conn", "pub")
	if sessID == nil || pubC == nil {
		return
	}
	base := callIs(k.next, k.free, k.resumf, send, pack, persist, stPkg+".MessageLog.Get", stPkg+".MessageLog.Keys", stPkg+".MessageLog.Delete", srvPkg+"._Conn.storeOutbound", srvPkg+"._Conn.storeInbound", stPkg+".MessageLog.PersistInbound")
	used := fieldUse(k.utpID, k.msgID, k.ctlID, k.ctlFlow, k.pubMode, k.msgMode, pubC)
	is := func(in ssa.Instruction) bool { return base(in) || used(in) }
	sends := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case ssa.CallInstruction:
			switch staticName(x.Common()) {
			case k.next, k.free, k.resumf, send, persist:
				return true
			}
		case *ssa.Send:
			return ssaField(x.Chan) == pubC
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && ssaField(s.Chan) == pubC {
					return true
				}
			}
		}
		return false
	}
	seen := map[ssa.Instruction]bool{}
	explore := func(f *ssa.Function) {
		own := fname(f)
		h := &Hooks{Interesting: is}
		num := func(v *Val) *Val { return stripConv(v) }
		// owner: the connection that handed out or reserved the ID.
		owner := func(st *State, id *Val) []*Val {
			if id.op == OComp && id.aux == "pair:next" {
				return []*Val{k.connOf(id.args[0])}
			}
			var cs []*Val
			for _, t := range st.Find("reserved") {
				if t.args[1] == id {
					cs = append(cs, k.connOf(t.args[0]))
				}
			}
			return cs
		}
		vet := func(c *Ctx, conn, id *Val, what string) {
			r.Count("IDs of messages", 1)
			if id.op == OLoad && isFieldVal(id, k.msgID) && id.args[0].args[0].op == OParam && own == send {
				return // the callers answer for it
			}
			for _, o := range owner(c.St, id) {
				if o == conn {
					return
				}
			}
			c.Report("s10:other-id:"+what, "a message is %s a connection with an ID that the connection has neither handed out nor reserved", what)
		}
		idIn := func(c *Ctx, m *Val, fl *types.Var) *Val {
			return num(c.E.load(c.St, c.E.faddr(m, fl), fl.Type()))
		}
		handed := func(c *Ctx, ch, v *Val) {
			seen[c.In] = true
			if !isFieldVal(ch, pubC) {
				return
			}
			id := idIn(c, v, k.utpID)
			vet(c, fieldBase(ch), id, "sent to")
			c.St.Add("handed", id)
		}
		h.Send = handed
		h.Call = func(c *CallCtx) {
			e := c.E
			if sends(c.In) {
				seen[c.In] = true
			}
			switch c.Name {
			case k.next:
				c.Opaque()
				r.Count("IDs handed out", 1)
				c.handled = true
				// distinct for each call
				v := e.pair("next", c.Args[0], c.Res)
				c.SetResult(v)
			case k.resumf:
				c.Opaque()
				c.handled = true
				c.St.Add("reserved", e.pair("res", c.Args[0], num(c.Args[1])))
			case k.free:
				c.Opaque()
				c.handled = true
				r.Count("IDs freed", 1)
				id := num(c.Args[1])
				ok := c.St.HasV("handed", id) && c.St.Has("express")
				if isFieldVal(id, k.ctlID) && c.St.HasV("receipt", fieldBase(id)) {
					ok = true
					if !c.St.HasV("given up", id) {
						c.Report("s10:freed-while-stored", "an ID is freed before the message stored under it was given up")
					}
				}
				if !ok {
					c.Report("s10:freed-in-use", "an ID is freed although neither the receipt for it came nor it is the one of a message that was sent and needs none")
				}
				c.St.Add("freed", id)
			case pack:
				c.Opaque()
				if own == pack {
					c.inline = 1
					return
				}
				m := c.Args[1]
				if typeName(typOr(m)) == "ControlMessage" {
					fl := e.load(c.St, e.faddr(m, k.ctlFlow), k.ctlFlow.Type())
					if n, ok := fl.constInt(); ok && n == notify {
						vet(c.Ctx, c.Args[0], idIn(c.Ctx, m, k.ctlID), "announced to")
					}
				}
				c.handled = true
			case persist, srvPkg + "._Conn.storeOutbound":
				if c.Name == own {
					c.inline = 1
					return
				}
				c.Opaque()
				c.handled = true
				m := c.Args[len(c.Args)-1]
				switch typeName(typOr(m)) {
				case "Publish":
					conn := c.Args[0]
					if c.Name == persist {
						b := stripConv(c.Args[1])
						if !isFieldVal(b, sessID) {
							c.Report("s10:other-session", "a message is stored for something else than the session of a connection")
							return
						}
						conn = fieldBase(b)
					}
					vet(c.Ctx, conn, idIn(c.Ctx, m, k.utpID), "stored for")
				case "ControlMessage":
					fl := e.load(c.St, e.faddr(m, k.ctlFlow), k.ctlFlow.Type())
					if n, ok := fl.constInt(); ok && n == complete {
						c.St.Add("given up", idIn(c.Ctx, m, k.ctlID))
					}
				}
			case send:
				if own == send {
					c.inline = 1
					return
				}
				c.Opaque()
				c.handled = true
				if m := c.Args[1]; m.op == OAlloc {
					id := idIn(c.Ctx, m, k.msgID)
					if n, ok := id.constInt(); !ok || n != 0 {
						if id.op != OZero {
							vet(c.Ctx, c.Args[0], id, "given to")
						}
					}
				}
			case srvPkg + "._Conn.storeInbound", stPkg + ".MessageLog.PersistInbound", stPkg + ".MessageLog.Get", stPkg + ".MessageLog.Keys", stPkg + ".MessageLog.Delete":
				c.Opaque()
				c.handled = true
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) {
			if v, ok := eqConst(cond, 0); ok && (isFieldVal(v, k.pubMode) || isFieldVal(v, k.msgMode)) {
				if truth {
					c.St.Add("express")
				} else {
					c.St.Add("exchange")
				}
			}
			if cond.op == OBin && cond.aux == "<" && isInt(0)(cond.args[0]) && (isFieldVal(cond.args[1], k.pubMode) || isFieldVal(cond.args[1], k.msgMode)) {
				if truth {
					c.St.Add("exchange")
				} else {
					c.St.Add("express")
				}
			}
			if v, ok := eqConst(cond, receipt); ok && truth && isFieldVal(v, k.ctlFlow) {
				c.St.Add("receipt", fieldBase(v))
			}
		}
		h.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
			for _, n := range []string{"express", "exchange", "handed", "freed", "receipt", "given up", "reserved"} {
				c.St.Del(n)
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("exits with IDs", 1)
			if own == send {
				for _, id := range c.St.Find("handed") {
					if !c.St.Has("exchange") && !c.St.HasV("freed", id) {
						c.Report("s10:express-kept", "the ID of a message that needs no receipt is not freed after the message was sent")
					}
				}
			}
			for _, b := range c.St.Find("receipt") {
				ok := false
				for _, id := range c.St.Find("freed") {
					ok = ok || isFieldVal(id, k.ctlID) && fieldBase(id) == b
				}
				if !ok {
					c.Report("s10:receipt-kept", "the ID of a message whose receipt came is not freed")
				}
			}
		}
		r.Explore(h, f)
	}
	for _, n := range []string{"_Conn.handler", "_Conn.publish", "_Conn.SendMessage", "_Conn.resume", "batchManager.publish"} {
		if f := r.Fn(srvPkg + "." + n); f != nil {
			explore(f)
		}
	}
	// the rest
	for _, f := range p.funcs {
		if !strings.HasPrefix(pkgOf(f), srvPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sends(in) && !seen[in] {
					explore(f)
				}
			}
		}
	}
	r.Need("IDs handed out", 1)
	r.Need("IDs freed", 1)
	r.Need("IDs of messages", 2)
}
