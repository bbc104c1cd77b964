package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = checkC14
}

func checkC14(r *Run) {
	r.Rule("where an entry is made, the payload reaches the stored bytes only through MAC.Encrypt on every path on which the database or the entry asks for encryption, and unencrypted only on paths on which neither does; the flag byte stored with the ID says which, after the ID is copied")
	r.Rule("a batch asks for encryption of its entries when the batch or the database does")
	r.Rule("the encryption setting of the database is only ever raised, is raised when opened with it after the header was read, and is written with the header")
	r.Rule("a query returns the payload of a marked message only from a successful decryption of that message, and of an unmarked message without decrypting it")
	r.Rule("MAC.Decrypt returns data only after Open succeeded and never writes to its input; MAC.Encrypt cuts its input only where it is known to be long enough, and seals all that is not kept in the epoch")
	if r.storedEncrypted() {
		r.encryptionSetting()
		r.readDecrypted()
		r.macRules("crypto")
	}
}

func (r *Run) storedEncrypted() bool {
	dbEnc := r.Field("unitdb", "_DBInfo", "encryption")
	eEnc := r.Field("unitdb", "Entry", "Encryption")
	payload := r.Field("unitdb", "Entry", "Payload")
	cache := r.Field("unitdb", "_Entry", "cache")
	bEnc := r.Field("unitdb", "_BatchOptions", "encryption")
	if dbEnc == nil || eEnc == nil || payload == nil || cache == nil || bEnc == nil {
		return false
	}
	es, _ := r.P.pkgConst("unitdb", "entrySize")
	is, _ := r.P.pkgConst("unitdb", "idSize")
	naked := func(v *Val) bool {
		// the payload outside of an encryption
		var rec func(x *Val) bool
		seen := map[*Val]bool{}
		rec = func(x *Val) bool {
			if x == nil || seen[x] {
				return false
			}
			seen[x] = true
			if x.op == OComp && x.aux == "pair:cipher" {
				return false
			}
			if isFieldVal(x, payload) {
				return true
			}
			for _, a := range x.args {
				if rec(a) {
					return true
				}
			}
			return false
		}
		return rec(v)
	}
	hasPayload := func(v *Val) bool { return v.contains(func(x *Val) bool { return isFieldVal(x, payload) }) }
	h := &Hooks{Interesting: anyOf(fieldUse(dbEnc, eEnc, payload, cache), callIs("crypto.MAC.Encrypt", "github.com/golang/snappy.Encode", "message.ID.Prefix"), isBuiltin("copy", nil))}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.DB.parseTopic":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "github.com/golang/snappy.Encode":
			c.Opaque()
			c.SetResult(c.E.pair("packed", c.Args[1]))
		case "crypto.MAC.Encrypt":
			c.Opaque()
			r.Count("encryptions", 1)
			c.SetResult(c.E.pair("cipher", c.Args[2]))
		case "message.ID.Prefix":
			c.Opaque()
			c.SetResult(c.E.pair("prefix", c.Args[0]))
		case "builtin.copy", "builtin.append":
			src := c.Args[1]
			if findPair(src, "prefix") != nil {
				c.St.DelPrefix("flag")
			}
			if !hasPayload(src) {
				return
			}
			r.Count("payloads stored", 1)
			if naked(src) {
				c.St.Add("stored plain")
			} else {
				c.St.Add("stored cipher")
			}
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op != OIAddr || addr.args[0].op != OMake && !addr.args[0].contains(func(x *Val) bool { return isFieldVal(x, cache) }) {
			return
		}
		n, ok := addr.args[1].constInt()
		if ok && n == es+is-1 {
			c.St.DelPrefix("flag")
			switch k, ok := stripConv(v).constInt(); {
			case ok && k == 1:
				c.St.Add("flag 1")
			case ok && k == 0:
				c.St.Add("flag 0")
			}
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		x := cond
		if x.op == OBin && x.aux == "==" {
			a, b := stripConv(x.args[0]), stripConv(x.args[1])
			if !isFieldVal(a, dbEnc) {
				a, b = b, a
			}
			if isFieldVal(a, dbEnc) {
				if n, ok := b.constInt(); ok && (n == 1) == truth {
					c.St.Add("db asks")
				} else if ok {
					c.St.Add("db does not")
				}
			}
			return
		}
		if isFieldVal(x, eEnc) {
			if truth {
				c.St.Add("entry asks")
			} else {
				c.St.Add("entry does not")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.mayBeSuccess(fn, res) {
			return
		}
		r.Count("entries made", 1)
		st := c.St
		enc := st.Has("db asks") || st.Has("entry asks")
		plain := st.Has("db does not") && st.Has("entry does not")
		switch {
		case !enc && !plain:
			if !st.Has("stored cipher") || st.Has("stored plain") {
				c.Report("c14:undecided", "a payload is stored unencrypted without knowing that neither the database nor the entry asks for encryption")
			}
		case enc && st.Has("stored plain"):
			c.Report("c14:plain-stored", "a payload is stored unencrypted though encryption is asked for")
		case enc && !st.Has("flag 1"):
			c.Report("c14:not-marked", "an encrypted entry is not marked as encrypted")
		case plain && st.Has("stored cipher") && !st.Has("flag 1"), plain && st.Has("stored plain") && st.Has("flag 1"):
			c.Report("c14:mark-wrong", "the mark of an entry does not say whether its payload is encrypted")
		case plain && st.Has("stored plain") && !st.Has("flag 0"):
			c.Report("c14:mark-missing", "the mark of an unencrypted entry is not cleared, its last byte of the ID is taken for the mark")
		}
	}
	if f := r.Fn("unitdb.DB.setEntry"); f != nil {
		r.Explore(h, f)
	}
	r.Need("encryptions", 1)
	r.Need("payloads stored", 1)
	r.Need("entries made", 1)

	// batch
	bh := &Hooks{Interesting: anyOf(fieldUse(eEnc, bEnc), callIs("unitdb.DB.setEntry"))}
	bh.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.DB.ok":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "unitdb.DB.setEntry":
			c.Opaque()
			r.Count("entries made in a batch", 1)
			v := c.E.load(c.St, c.E.faddr(c.Args[1], eEnc), eEnc.Type())
			is := func(x *Val) bool { return x == c.E.vTrue || c.St.facts[x] == c.E.vTrue }
			if !is(v) && !isFieldVal(v, bEnc) && !c.St.Has("batch does not") {
				c.Report("c14:batch", "an entry of a batch is made without the encryption the batch asks for")
			}
			c.ForkErr(nil, nil)
		}
	}
	bh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if isFieldVal(cond, bEnc) && !truth {
			c.St.Add("batch does not")
		}
	}
	if f := r.Fn("unitdb.Batch.PutEntry"); f != nil {
		r.Explore(bh, f)
	}
	r.Need("entries made in a batch", 1)
	// what asks for encryption
	for n, fld := range map[string]*types.Var{"unitdb.WithEncryption": r.Field("unitdb", "_Flags", "encryption"), "unitdb.WithBatchEncryption": bEnc, "unitdb.Entry.WithEncryption": eEnc} {
		f := r.Fn(n)
		if f == nil || fld == nil {
			continue
		}
		if len(f.AnonFuncs) == 1 {
			f = f.AnonFuncs[0]
		}
		oh := &Hooks{Interesting: fieldUse(fld)}
		fld := fld
		oh.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == fld {
				c.St.Del("on")
				if v == c.E.vTrue {
					c.St.Add("on")
				}
			}
		}
		n := n
		oh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			r.Count("settings", 1)
			if !c.St.Has("on") {
				c.Report("c14:setting:"+n, "%s does not turn encryption on", n)
			}
		}
		r.Explore(oh, f)
	}
	r.Need("settings", 1)
	return true
}

func (r *Run) encryptionSetting() {
	p := r.P
	dbEnc := r.Field("unitdb", "_DBInfo", "encryption")
	opt := r.Field("unitdb", "_Flags", "encryption")
	if dbEnc == nil || opt == nil {
		return
	}
	// stores
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field) != dbEnc {
					continue
				}
				r.Count("changes of the setting", 1)
				r.sites[in] = true
				if k, ok := constOfSSA(st.Val); ok && k == 1 {
					continue
				}
				if ssaField(stripSSA(st.Val)) == dbEnc {
					continue
				}
				if fname(f) == "unitdb._DBInfo.UnmarshalBinary" {
					continue
				}
				r.Violate("c14:setting-lowered:"+fname(f), p.pos(st.Pos()), "the encryption setting of the database is set to something else than on, or the one kept (in %s)", fname(f))
			}
		}
	}
	r.Need("changes of the setting", 1)
	// open
	h := &Hooks{Interesting: fieldUse(dbEnc, opt)}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if isFieldVal(cond, opt) {
			if truth {
				c.St.Add("asked")
			} else {
				c.St.Add("not asked")
			}
		}
	}
	h.Call = func(c *CallCtx) {
		if c.Name == "unitdb.DB.loadTrie" || c.Name == "unitdb.DB.recoverLog" || c.Name == "unitdb.DB.startSyncer" || c.Name == "unitdb.DB.startExpirer" {
			c.Opaque()
			if c.ErrRes() != nil {
				c.ForkErr(nil, nil)
			}
			return
		}
		if c.Name == "unitdb._File.readUnmarshalableAt" || c.Name == "unitdb._File.unmarshalAt" {
			c.Opaque()
			c.St.Del("raised")
			c.E.store(c.St, c.Args[1], c.E.pair("header read"))
			c.ForkErr(nil, nil)
		}
	}
	h.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == dbEnc {
			if n, ok := v.constInt(); ok && n == 1 {
				c.St.Add("raised")
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if !c.mayBeSuccess(fn, res) {
			return
		}
		r.Count("opens", 1)
		if !c.St.Has("raised") && !c.St.Has("not asked") {
			c.Report("c14:not-raised", "the database opens with encryption asked for without its setting being raised")
		}
	}
	if f := r.optReader(opt); f != nil {
		r.Explore(h, f)
	}
	r.Need("opens", 1)
	// header
	wh := &Hooks{Interesting: anyOf(fieldUse(dbEnc), callIs("unitdb._File.writeMarshalableAt"))}
	wh.Call = func(c *CallCtx) {
		if c.Name != "unitdb._File.writeMarshalableAt" {
			return
		}
		c.Opaque()
		r.Count("headers written", 1)
		v := c.Args[1]
		for v.op == OConv {
			v = v.args[0]
		}
		x := c.E.fieldOf(v, dbEnc)
		if v.op == OAlloc {
			x = c.E.load(c.St, c.E.faddr(v, dbEnc), dbEnc.Type())
		}
		if x == nil || !isFieldVal(stripConv(x), dbEnc) {
			c.Report("c14:not-persisted", "the header is written without the encryption setting of the database")
		}
		c.ForkErr(nil, nil)
	}
	if f := r.Fn("unitdb.DB.writeInfo"); f != nil {
		r.Explore(wh, f)
	}
	r.Need("headers written", 1)
}

// optReader is the function that reads an option of open.
func (r *Run) optReader(opt *types.Var) *ssa.Function {
	for _, f := range r.P.funcs {
		if f.Signature.Results().Len() != 2 || f.Name() == "Open" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fieldUse(opt)(in) {
					return f
				}
			}
		}
	}
	return r.Fn("unitdb.openLocked")
}

func (r *Run) readDecrypted() {
	is, _ := r.P.pkgConst("unitdb", "idSize")
	h := &Hooks{Interesting: anyOf(callIs("unitdb._BlockReader.readMessage", "crypto.MAC.Decrypt", "github.com/golang/snappy.Decode", "message.ID.EvalPrefix"), appendsTo(isByteSlices))}
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.Query.parse", "unitdb.DB.ok", "unitdb.DB.lookup", "unitdb.DB.readEntry":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "unitdb._BlockReader.readMessage":
			c.derived("msg", nil, nil)
			c.St.DelV("marked", c.result)
			c.St.DelV("unmarked", c.result)
		case "message.ID.EvalPrefix":
			c.Opaque()
		case "crypto.MAC.Decrypt":
			r.Count("decryptions", 1)
			m := findPair(c.Args[2], "msg")
			if d := c.Args[1]; findPair(d, "msg") != nil {
				c.Report("c14:decrypt-in-place", "a message is decrypted into the stored bytes")
			}
			if m == nil || !c.St.HasV("marked", m) {
				c.Report("c14:decrypt-unmarked", "a message is decrypted that is not known to be marked as encrypted")
			}
			c.St.Del("authentic")
			c.derived("plain", func(s *State) { s.Add("authentic", c.result) }, nil)
		case "github.com/golang/snappy.Decode":
			c.derived("unpacked", nil, nil)
		case "builtin.append":
			if !isByteSlices(c.Common.Args[0].Type()) {
				return
			}
			for _, x := range c.varargs(c.Args[1]) {
				m := findPair(x, "msg")
				if m == nil {
					continue
				}
				r.Count("payloads returned", 1)
				pl := findPair(x, "plain")
				switch {
				case c.St.HasV("marked", m) && pl == nil:
					c.Report("c14:returned-encrypted", "the payload of a message marked as encrypted is returned without decrypting it")
				case !c.St.HasV("marked", m) && !c.St.HasV("unmarked", m) && pl == nil:
					c.Report("c14:mark-ignored", "a payload is returned without looking at the mark of its message")
				case pl != nil:
					if !c.St.HasV("authentic", pl) {
						c.Report("c14:unauthenticated", "a payload is returned that failed to decrypt")
					}
				}
				if findPair(x, "unpacked") == nil {
					c.Report("c14:packed", "a payload is returned as it is stored, not as it was put")
				}
			}
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.op != OBin || cond.aux != "==" {
			return
		}
		a, b := stripConv(cond.args[0]), stripConv(cond.args[1])
		if a.op == OConst {
			a, b = b, a
		}
		n, ok := b.constInt()
		if !ok {
			return
		}
		m := findPair(a, "msg")
		if m == nil {
			return
		}
		// the last byte of the ID
		at := a.contains(func(x *Val) bool {
			if x.op != OIAddr && x.op != OElem {
				return false
			}
			k, ok := x.args[1].constInt()
			return ok && k == is-1 && x.args[0].contains(func(y *Val) bool { return y.op == OExt && y.idx == 0 && y.args[0] == m })
		})
		if !at {
			return
		}
		if n == 1 && truth || n == 0 && !truth {
			c.St.Add("marked", m)
		} else if n == 1 && !truth || n == 0 && truth {
			c.St.Add("unmarked", m)
		}
	}
	if f := r.Fn("unitdb.DB.Get"); f != nil {
		r.Explore(h, f)
	}
	r.Need("decryptions", 1)
	r.Need("payloads returned", 1)
}

// macRules: authenticated encryption in the package.
func (r *Run) macRules(pkg string) {
	p := r.P
	var ord order
	all := func(ssa.Instruction) bool { return true }
	root := func(v *Val) *Val {
		for v != nil && (v.op == OSlice || v.op == OConv) {
			v = v.args[0]
		}
		return v
	}
	isSrc := func(fn *ssa.Function, v *Val) bool {
		v = root(v)
		return v != nil && v.op == OParam && v.aux == fn.Params[2].Name()
	}
	for _, dec := range []bool{false, true} {
		name := pkg + ".MAC.Encrypt"
		if dec {
			name = pkg + ".MAC.Decrypt"
		}
		f := r.Fn(name)
		if f == nil {
			continue
		}
		dec := dec
		h := &Hooks{Interesting: all}
		h.Call = func(c *CallCtx) {
			switch {
			case c.Name == "builtin.copy":
				if isSrc(f, c.Args[0]) {
					c.Report("c14:input-changed:"+name, "%s writes to its input", name)
				}
				if isSrc(f, c.Args[1]) {
					if x := c.Args[1]; x.op == OParam || x.args[1] == nil || isInt(0)(x.args[1]) {
						c.St.Add("kept", c.Res)
					}
				}
			case c.Name == "builtin.append":
				if isSrc(f, c.Args[0]) {
					c.Report("c14:input-changed:"+name, "%s appends to its input", name)
				}
				if isSrc(f, c.Args[1]) {
					c.St.Add("appended", c.Args[1])
				}
				if findPair(c.Args[1], "opened") != nil {
					c.St.Add("out", findPair(c.Args[1], "opened"))
				}
			case c.Common.IsInvoke() && c.Common.Method.Name() == "Overhead":
				c.Opaque()
			case c.Common.IsInvoke() && c.Common.Method.Name() == "Seal":
				c.Opaque()
				r.Count("seals", 1)
				n := len(c.Args)
				pt := c.Args[n-2]
				if isSrc(f, c.Args[n-4]) {
					c.Report("c14:input-changed:"+name, "%s writes to its input", name)
				}
				whole := pt.op == OParam || pt.op == OSlice && isSrc(f, pt) && pt.args[2] == nil && (pt.args[1] == nil || isInt(0)(pt.args[1]) || c.St.HasV("kept", stripConv(pt.args[1])) || c.keptAll(f, pt.args[1]))
				if !whole {
					c.Report("c14:seal-part", "what is sealed and kept in the epoch is not all of the input")
				}
				c.SetResult(c.E.pair("sealed", c.Args...))
			case c.Common.IsInvoke() && c.Common.Method.Name() == "Open":
				c.Opaque()
				r.Count("opened", 1)
				n := len(c.Args)
				if isSrc(f, c.Args[n-4]) {
					c.Report("c14:input-changed:"+name, "%s decrypts into its input", name)
				}
				c.derived("opened", func(s *State) { s.Add("authentic", c.result) }, func(s *State) { s.DelV("authentic", c.result) })
			}
		}
		h.Store = func(c *Ctx, addr, v *Val) {
			if addr.op == OIAddr && isSrc(f, addr.args[0]) {
				c.Report("c14:input-changed:"+name, "%s writes to its input", name)
			}
		}
		h.Assume = func(c *Ctx, cond *Val, truth bool) { ord.assume(c, cond, truth) }
		bounded := func(c *Ctx, k *Val) bool {
			if k == nil || isInt(0)(k) || c.St.HasV("kept", stripConv(k)) {
				return true
			}
			lenSrc := func(x *Val) bool { x = stripConv(x); return x.op == OLen && isSrc(f, x.args[0]) }
			if lenSrc(k) || ord.atMost(c.St, isV(k), lenSrc) {
				return true
			}
			n, ok := k.constInt()
			if !ok {
				return false
			}
			ok = false
			for _, kind := range []string{"ge", "lt", "eq"} {
				for _, t := range c.St.Find(kind) {
					a, b := t.args[0], t.args[1]
					if kind == "ge" && lenSrc(a) {
						// len(src) >= b
						m, isC := b.constInt()
						ok = ok || isC && m >= n || b.op == OBin && b.aux == "+" && (isIntAtLeast(b.args[0], n) || isIntAtLeast(b.args[1], n)) || b.contains(func(x *Val) bool {
							return x.op == OBin && x.aux == "+" && (isIntAtLeast(x.args[0], n) || isIntAtLeast(x.args[1], n))
						})
					}
					if kind == "lt" && lenSrc(b) {
						m, isC := a.constInt()
						ok = ok || isC && m+1 >= n
					}
				}
			}
			return ok
		}
		h.Slice = func(c *Ctx, v *Val) {
			if v.op != OSlice || !isSrc(f, v.args[0]) || c.Fn() != f {
				return
			}
			r.Count("cuts of the input", 1)
			for _, k := range v.args[1:] {
				if !dec && pkg == "crypto" && !bounded(c, k) {
					c.Report("c14:cut-short:"+name, "%s cuts its input where it may be shorter", name)
				}
				if dec && !bounded(c, k) && !c.lenChecked(f) {
					c.Report("c14:cut-short:"+name, "%s cuts its input without checking its length", name)
				}
			}
		}
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			if !dec {
				r.Count("encryption exits", 1)
				if findPair(res[0], "sealed") == nil {
					c.Report("c14:not-sealed", "%s returns something that was not sealed", name)
				}
				return
			}
			if !c.mayBeSuccess(fn, res) {
				return
			}
			r.Count("decryption exits", 1)
			ok := false
			for _, m := range c.St.Find("out") {
				ok = ok || c.St.HasV("authentic", m)
			}
			if m := findPair(res[0], "opened"); m != nil && c.St.HasV("authentic", m) {
				ok = true
			}
			if !ok {
				c.Report("c14:open-ignored", "%s succeeds with data that was not authenticated", name)
			}
		}
		r.Explore(h, f)
	}
	r.Need("seals", 1)
	r.Need("opened", 1)
	r.Need("decryption exits", 1)
	_ = p
}

func isIntAtLeast(v *Val, n int64) bool {
	m, ok := stripConv(v).constInt()
	return ok && m >= n
}

// lenChecked: the length of the input was compared with the overhead of the encryption.
func (c *Ctx) lenChecked(f *ssa.Function) bool {
	for _, k := range []string{"ge", "lt"} {
		for _, t := range c.St.Find(k) {
			for _, a := range t.args {
				if a.op == OLen && a.args[0].op == OParam && a.args[0].aux == f.Params[2].Name() {
					return true
				}
			}
		}
	}
	return false
}

// keptAll: the number of bytes kept in the epoch.
func (c *Ctx) keptAll(f *ssa.Function, k *Val) bool {
	k = stripConv(k)
	for _, t := range c.St.Find("kept") {
		if stripConv(t) == k {
			return true
		}
	}
	// all of it where the input is long enough
	n, ok := k.constInt()
	if !ok || n != 4 {
		return false
	}
	for _, t := range c.St.Find("appended") {
		if t.op == OSlice && (t.args[1] == nil || isInt(0)(t.args[1])) && t.args[2] != nil && isInt(4)(t.args[2]) {
			return true
		}
	}
	return len(c.St.Find("kept")) > 0
}

func constOfSSA(v ssa.Value) (int64, bool) {
	if k, ok := stripSSA(v).(*ssa.Const); ok && k.Value != nil {
		return k.Int64(), true
	}
	return 0, false
}
