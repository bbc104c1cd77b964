package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = checkC16
	checks["C17"] = checkC17
}

const winEntry = "unitdb._WinEntry"

func isWinEntries(t types.Type) bool { return isSliceOf(t, winEntry) }

// winFields are the fields of window entries.
func winFields(r *Run) (seq, exp *types.Var) {
	return r.Field("unitdb", "_WinEntry", "sequence"), r.Field("unitdb", "_WinEntry", "expiresAt")
}

// queryWindow explores what a query reads of the windows; add is called for every entry added.
func queryWindow(r *Run, h *Hooks, add func(c *CallCtx, we *Val)) {
	call := h.Call
	h.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb._WinEntry.isExpired":
			c.Opaque()
			we, res := c.Args[0], c.Res
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vTrue); s.Add("expired", we) })
			c.Fork(func(s *State) { c.E.setFact(s, res, c.E.vFalse); s.Add("live", we) })
			return
		case "unitdb._ExpiryWindowBucket.addExpiry":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "unitdb._WindowReader.readWindowBlock":
			c.derived("block", nil, nil)
		case "builtin.append":
			if isWinEntries(c.Common.Args[0].Type()) && add != nil {
				vs := c.varargs(c.Args[1])
				if vs == nil {
					c.Report("window:wholesale", "window entries are added to the result of a query without looking at each")
				}
				for _, v := range vs {
					add(c, v)
				}
			}
		}
		if call != nil {
			call(c)
		}
	}
	h.Interesting = anyOf(h.Interesting, callIs("unitdb._WinEntry.isExpired", "unitdb._WindowReader.readWindowBlock", "unitdb._Trie.getOffset"), appendsTo(isWinEntries))
}

func checkC16(r *Run) {
	p := r.P
	r.Rule("every window entry added to what a query returns was found not to be expired on that path, in memory and in every block of the window file")
	r.Rule("expired means that an expiry is set and is not after the present second")
	r.Rule("the expiry of an entry is what its window entry is made with wherever one is made, together with the sequence of the same entry, and is what the entry was given")
	r.Rule("a time to live becomes an absolute time, in seconds")
	r.Rule("the expiry of a topic is now plus the parsed duration, or plus the number times a second")
	ttlTime(r)
	seq, exp := winFields(r)
	if seq == nil || exp == nil {
		return
	}
	h := &Hooks{}
	h.Interesting = callIs("unitdb._WinEntry.isExpired")
	queryWindow(r, h, func(c *CallCtx, we *Val) {
		r.Count("entries added to results", 1)
		if !c.St.HasV("live", we) {
			c.Report("c16:expired-returned", "a window entry is added to the result of a query without knowing that it has not expired")
		}
	})
	r.Explore(h, addRoots(r)...)
	r.Need("entries added to results", 1)

	// isExpired
	var ord order
	eh := &Hooks{Interesting: func(ssa.Instruction) bool { return true }}
	eh.Call = func(c *CallCtx) {
		switch c.Name {
		case "time.Now":
			c.SetResult(c.E.pair("now"))
		case "time.Time.Unix":
			c.SetResult(c.E.pair("unix", c.Args[0]))
		case "time.Time.UnixNano", "time.Time.UnixMilli", "time.Time.Add":
			c.SetResult(c.E.pair("other", c.Args[0]))
		}
	}
	eh.Assume = func(c *Ctx, cond *Val, truth bool) { ord.assume(c, cond, truth) }
	isNow := func(x *Val) bool {
		x = stripConv(x)
		return x.op == OComp && x.aux == "pair:unix" && x.args[0].aux == "pair:now"
	}
	eh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("expiry test outcomes", 1)
		v := res[0]
		// v may be an expression: true iff expiresAt <= now, i.e. !(now < expiresAt)
		yes, no := false, false
		switch {
		case v == c.E.vTrue || c.St.facts[v] == c.E.vTrue:
			yes = true
		case v == c.E.vFalse || c.St.facts[v] == c.E.vFalse:
			no = true
		case v.op == ONot && v.args[0].op == OBin && v.args[0].aux == "<" && isNow(v.args[0].args[0]) && isF(exp)(v.args[0].args[1]):
			if !ord.has(c.St, "ne", isF(exp), isInt(0)) && !ord.has(c.St, "ne", isInt(0), isF(exp)) && !ord.has(c.St, "lt", isInt(0), isF(exp)) {
				c.Report("c16:never-set", "an entry without expiry is taken as expired")
			}
			return
		default:
			c.Report("c16:expiry-test", "the expiry test does not compare the expiry with the present time")
			return
		}
		zero := ord.has(c.St, "eq", isF(exp), isInt(0)) || ord.has(c.St, "eq", isInt(0), isF(exp)) || ord.has(c.St, "ge", isInt(0), isF(exp))
		late := ord.has(c.St, "lt", isNow, isF(exp))
		if yes && (zero || late || !ord.atMost(c.St, isF(exp), isNow)) {
			c.Report("c16:not-expired", "an entry that has not expired can be taken as expired")
		}
		if no && !zero && !late {
			c.Report("c16:still-valid", "an entry whose expiry has passed can be taken as not expired")
		}
	}
	if f := r.Fn("unitdb._WinEntry.isExpired"); f != nil {
		r.Explore(eh, f)
	}
	r.Need("expiry test outcomes", 1)

	// the expiry is carried along
	eseq, eexp := r.Field("unitdb", "_Entry", "seq"), r.Field("unitdb", "_Entry", "expiresAt")
	eAt := r.Field("unitdb", "Entry", "ExpiresAt")
	iseq := r.Field("unitdb", "_IndexEntry", "seq")
	if eseq == nil || eexp == nil || eAt == nil || iseq == nil {
		return
	}
	// where window entries are made: the second argument is the expiry of the entry
	for _, ci := range p.callsTo("unitdb.newWinEntry") {
		r.Count("window entries made", 1)
		r.sites[ci] = true
		a := ci.Common().Args
		f := ssaField(stripSSA(a[1]))
		if f != eexp && f != exp {
			r.Violate("c16:expiry-lost:"+fname(ci.Parent()), p.pos(ci.Pos()), "a window entry is made with something else than the expiry of the entry (in %s)", fname(ci.Parent()))
			continue
		}
		g := ssaField(stripSSA(a[0]))
		if g == eseq && !sameBase(a[0], a[1]) {
			r.Violate("c16:expiry-other:"+fname(ci.Parent()), p.pos(ci.Pos()), "a window entry is made with the expiry of another entry (in %s)", fname(ci.Parent()))
		}
	}
	nh := &Hooks{Interesting: fieldUse(seq, exp)}
	nh.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		x := c.E.fieldOf(res[0], exp)
		if stripConv(x) != c.E.eval(c.fr, fn.Params[1]) {
			c.Report("c16:not-kept", "a window entry does not keep the expiry it is made with")
		}
	}
	nh.RootArg = func(e *Engine, fn *ssa.Function, i int, pm *ssa.Parameter) *Val {
		if i == 1 {
			return e.in.mk(Val{op: OField, args: []*Val{e.in.mk(Val{op: OParam, aux: "entry"})}, fld: eexp, typ: pm.Type()})
		}
		return nil
	}
	if f := r.Fn("unitdb.newWinEntry"); f != nil {
		r.Explore(nh, f)
	}
	r.Need("window entries made", 1)

	// blocks keep the expiry of the entries put into them
	bh := &Hooks{Interesting: fieldUse(seq, exp)}
	bh.Call = func(c *CallCtx) {
		if c.Name == "unitdb._WindowReader.readWindowBlock" {
			c.derived("block", nil, nil)
		}
	}
	entries := r.Field("unitdb", "_WinBlock", "entries")
	bh.Store = func(c *Ctx, addr, v *Val) {
		check := func(x *Val) {
			r.Count("entries put into blocks", 1)
			x = stripConv(x)
			if !isFieldVal(x, exp) {
				c.Report("c16:block-expiry", "a window entry is put into a block without its expiry")
			}
		}
		if addr.op == OIAddr && addr.args[0].op == OFAddr && addr.args[0].fld == entries {
			check(c.E.fieldOf(v, exp))
		}
	}
	if f := r.Fn("unitdb._WindowWriter.append"); f != nil {
		r.Explore(bh, f)
	}
	r.Need("entries put into blocks", 1)

	// the entry gets the expiry it was given
	sh := &Hooks{Interesting: anyOf(fieldUse(eexp, eAt), callIs("unitdb._Entry.MarshalBinary"))}
	sh.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb.DB.parseTopic":
			c.Opaque()
			c.SetResult(c.E.pair("parsed"))
			c.ForkErr(nil, nil)
		case "unitdb._Entry.MarshalBinary":
			c.Opaque()
			r.Count("entries encoded", 1)
			e := c.Args[0]
			var x *Val
			if e.op == OAlloc || e.op == OFAddr || e.op == OParam {
				x = c.E.load(c.St, c.E.faddr(e, eexp), eexp.Type())
			} else {
				x = c.E.fieldOf(e, eexp)
			}
			if v := stripConv(x); v == nil || !v.contains(isF(eAt)) && !v.contains(func(y *Val) bool { return y.op == OExt && y.idx == 1 && y.args[0].aux == "pair:parsed" }) {
				c.Report("c16:entry-expiry", "an entry is stored with something else than the expiry it was given")
			}
		}
	}
	if f := r.Fn("unitdb.DB.setEntry"); f != nil {
		r.Explore(sh, f)
	}
	r.Need("entries encoded", 1)

	// time to live
	th := &Hooks{Interesting: func(ssa.Instruction) bool { return true }}
	th.Call = func(c *CallCtx) {
		switch c.Name {
		case "time.Now":
			c.SetResult(c.E.pair("now"))
		case "time.Time.Add":
			if c.Args[0].aux == "pair:now" {
				c.SetResult(c.E.pair("later", c.Args[1]))
			}
		case "time.Time.Unix":
			c.SetResult(c.E.pair("unix", c.Args[0]))
		case "time.Time.UnixNano", "time.Time.UnixMilli":
			c.SetResult(c.E.pair("other", c.Args[0]))
		case "time.ParseDuration":
			c.derived("dur", nil, nil)
		case "message.Topic.getOption", "strconv.ParseInt":
			c.Opaque()
		}
	}
	isAbs := func(v *Val) bool {
		v = stripConv(v)
		return v != nil && v.op == OComp && v.aux == "pair:unix" && v.args[0].aux == "pair:later"
	}
	ttl := func(c *Ctx, v *Val) {
		r.Count("times to live", 1)
		if !isAbs(v) {
			c.Report("c16:relative:"+fname(c.Fn()), "a time to live does not become an absolute time in seconds")
			return
		}
		d := stripConv(v).args[0].args[0]
		if findPair(d, "dur") == nil && d.op == OBin {
			// a number of seconds
			sec := false
			for _, a := range d.args {
				if n, ok := stripConv(a).constInt(); ok && d.aux == "*" && n == 1000000000 {
					sec = true
				}
			}
			if !sec {
				c.Report("c16:unit:"+fname(c.Fn()), "a number of seconds to live is not taken as seconds")
			}
		}
	}
	th.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		if fn.Signature.Results().Len() == 2 {
			ttl(c, res[0])
		}
	}
	th.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == eAt {
			ttl(c, v)
		}
	}
	if f := r.Fn("message.Topic.TTL"); f != nil {
		r.Explore(th, f)
	}
	if f := r.Fn("unitdb.Entry.WithTTL"); f != nil {
		r.Explore(th, f)
	}
	r.Need("times to live", 1)
}

func stripSSA(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// sameBase: are two field reads of the same object.
func sameBase(a, b ssa.Value) bool {
	base := func(v ssa.Value) ssa.Value {
		v = stripSSA(v)
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if y, ok := x.X.(*ssa.FieldAddr); ok {
				return y.X
			}
			return x.X
		case *ssa.Field:
			if u, ok := x.X.(*ssa.UnOp); ok {
				return u.X
			}
			return x.X
		}
		return v
	}
	x, y := base(a), base(b)
	return x == y
}

func checkC17(r *Run) {
	p := r.P
	_ = p
	r.Rule("the limit of a query is between one and the configured maximum whenever entries are looked up")
	r.Rule("entries are read from highest to lowest sequence: they are sorted after the last one was added and before the first is read, by a comparison that orders by descending sequence, and read in that order; what is cut off in memory is cut off after sorting")
	r.Rule("the entries read first are at most as many as the limit, and a further round reads at most as many as were left out before")
	r.Rule("each entry is added once: entries found in memory are not added again from the file, and a query starts without the entries of the last one")
	limit := r.Field("unitdb", "Query", "Limit")
	max := r.Field("unitdb", "_QueryOptions", "maxQueryLimit")
	def := r.Field("unitdb", "_QueryOptions", "defaultQueryLimit")
	wins := r.Field("unitdb", "_InternalQuery", "winEntries")
	qseq := r.Field("unitdb", "_Query", "seq")
	seq, _ := winFields(r)
	if limit == nil || max == nil || def == nil || wins == nil || qseq == nil || seq == nil {
		return
	}
	var ord order
	// limit
	h := &Hooks{Interesting: anyOf(fieldUse(limit, max, def), callIs("unitdb._Trie.lookup"))}
	h.Call = func(c *CallCtx) {
		switch {
		case c.Name == "unitdb._Trie.lookup":
			r.Count("lookups", 1)
			v := c.E.load(c.St, c.E.faddr(c.E.eval(c.root(), c.root().fn.Params[1]), limit), limit.Type())
			if !isF(max)(v) && !ord.atMost(c.St, isV(v), isF(max)) {
				c.Report("c17:limit-above", "entries are looked up with a limit that may be above the configured maximum")
			}
			if !isF(max)(v) && !isF(def)(v) && !ord.has(c.St, "lt", isInt(0), isV(v)) && !ord.has(c.St, "ge", isV(v), isInt(1)) {
				c.Report("c17:limit-below", "entries are looked up with a limit that may not be positive")
			}
			c.NoReturn()
		case strings.HasPrefix(c.Name, "message."):
			c.Opaque()
		}
	}
	h.Assume = func(c *Ctx, cond *Val, truth bool) { ord.assume(c, cond, truth) }
	if f := r.Fn("unitdb.DB.Get"); f != nil {
		r.Explore(h, f)
	}
	r.Need("lookups", 1)

	// order of reading
	less := map[*ssa.Function]bool{}
	isSort := func(n string) bool { return n == "sort.Slice" || n == "sort.SliceStable" }
	isWin := func(v *Val) bool {
		v = stripConv(v)
		for v != nil && v.op == OSlice {
			v = v.args[0]
		}
		return v != nil && (isFieldVal(v, wins) || v.typ != nil && isSliceOf(v.typ, "unitdb._Query"))
	}
	rh := &Hooks{Interesting: anyOf(callIs("sort.Slice", "sort.SliceStable", "unitdb.DB.readEntry", "unitdb.DB.lookup"), fieldUse(wins))}
	rh.Call = func(c *CallCtx) {
		switch {
		case isSort(c.Name):
			if isWin(c.Args[0]) {
				c.St.Add("sorted")
				if f := c.Args[1]; (f.op == OClosure || f.op == OFunc) && f.fn != nil {
					less[f.fn] = true
				}
			}
		case c.Name == "unitdb.DB.lookup":
			c.Opaque()
			c.St.Del("sorted")
			c.ForkErr(nil, nil)
		case c.Name == "unitdb.Query.parse":
			c.Opaque()
			c.ForkErr(nil, nil)
		case c.Name == "unitdb.DB.readEntry":
			c.Opaque()
			r.Count("entries read", 1)
			if !c.St.Has("sorted") {
				c.Report("c17:unsorted", "entries are read that were not sorted by sequence since they were looked up")
			}
			c.St.Add("reading")
			c.ForkErr(nil, nil)
		case c.Name == "unitdb._BlockReader.readMessage", c.Name == "crypto.MAC.Decrypt", c.Name == "github.com/golang/snappy.Decode":
			c.Opaque()
			c.ForkErr(nil, nil)
		}
	}
	lenWin := isLenOf(func(x *Val) bool { return isFieldVal(stripConv(x), wins) })
	rh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if cond.aux == "<" && cond.contains(func(x *Val) bool { return isF(limit)(x) || lenWin(x) }) {
			ord.assume(c, cond, truth)
		}
	}
	extra := func(v *Val) bool {
		v = stripConv(v)
		return v.op != OLen && !v.contains(isF(limit)) && !v.contains(lenWin)
	}
	rh.LoopEnter = func(c *Ctx, l *loop, fn *ssa.Function) {
		for _, ph := range highBounds(l) {
			r.Count("rounds of reading", 1)
			v := stripConv(c.phiFrom(ph))
			if !isF(limit)(v) && !ord.atMost(c.St, isV(v), isF(limit)) {
				c.Report("c17:too-many", "more entries may be read than the limit of the query allows")
			}
		}
	}
	rh.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		for _, ph := range highBounds(l) {
			r.Count("further rounds", 1)
			v, old := stripConv(c.phiFrom(ph)), c.E.eval(c.fr, ph)
			ok := v.op == OBin && v.aux == "+" && (v.args[0] == old && extra(v.args[1]) || v.args[1] == old && extra(v.args[0]))
			if lenWin(v) {
				ok = ord.atMost(c.St, isV(v), func(x *Val) bool {
					x = stripConv(x)
					return x.op == OBin && x.aux == "+" && (extra(x.args[0]) || extra(x.args[1]))
				})
			}
			if !ok {
				c.Report("c17:too-many-more", "a further round of reading may read more entries than were left out before")
			}
		}
		for _, k := range []string{"lt", "ge", "eq", "ne"} {
			c.St.Del(k)
		}
	}
	rh.Store = func(c *Ctx, addr, v *Val) {
		if addr.op == OFAddr && addr.fld == wins {
			c.St.Del("sorted")
		}
	}
	rh.Slice = func(c *Ctx, v *Val) {
		if v.op != OSlice || v.args[2] == nil || !isWin(v) {
			return
		}
		if in, ok := c.In.(*ssa.Slice); ok {
			if _, ok := in.High.(*ssa.Phi); ok {
				return // checked where the loop is entered
			}
		}
		r.Count("rounds of reading", 1)
		hi := stripConv(v.args[2])
		if c.St.Has("reading") {
			return
		}
		ok := isF(limit)(hi) || ord.atMost(c.St, isV(hi), isF(limit))
		if !ok {
			c.Report("c17:too-many", "more entries may be read than the limit of the query allows")
		}
	}
	r.Explore(rh, readRoots(r, isSort)...)
	r.Need("entries read", 1)
	r.Need("rounds of reading", 1)

	// the comparison
	for f := range less {
		r.descending(f, qseq, seq)
	}
	r.Need("comparisons", 1)

	// the window
	first := r.counts["comparisons"]
	wless := map[*ssa.Function]bool{}
	wh := &Hooks{Interesting: callIs("sort.Slice", "sort.SliceStable")}
	wh.Call = nil
	wh.Assume = func(c *Ctx, cond *Val, truth bool) {
		if m, ok := seenLookup(cond); ok {
			if truth {
				c.St.Add("seen", m)
			} else {
				c.St.Add("new", m)
			}
		}
	}
	wh.MapWrite = func(c *Ctx, m, k, v *Val) {
		if v == c.E.vTrue || v != nil && v.op != OConst {
			c.St.Add("noted", c.E.pair("noted", m, k))
		}
	}
	queryWindow(r, wh, func(c *CallCtx, we *Val) {
		r.Count("entries added", 1)
		s := c.E.fieldOf(we, seq)
		ok := false
		for _, t := range c.St.Find("new") {
			if stripConv(t.args[1]) != stripConv(s) {
				continue
			}
			c.St.Add("map", t.args[0])
			for _, u := range c.St.Find("noted") {
				ok = ok || u.args[0] == t.args[0] && stripConv(u.args[1]) == stripConv(s)
			}
			c.St.Add("pending", t)
		}
		_ = ok
		if len(c.St.Find("pending")) == 0 {
			c.Report("c17:twice", "a window entry is added to the result of a query without knowing that it was not added before: entries are in memory and in the file while a sync is in progress")
		}
		if len(c.St.Find("map")) > 1 {
			c.Report("c17:twice-maps", "what was added from memory is not known when entries are added from the file")
		}
	})
	wb := wh.Back
	wh.Back = func(c *Ctx, l *loop, fn *ssa.Function) {
		if wb != nil {
			wb(c, l, fn)
		}
		if len(c.St.Find("pending")) > 0 {
			for _, t := range c.St.Find("pending") {
				ok := false
				for _, u := range c.St.Find("noted") {
					ok = ok || u.args[0] == t.args[0] && stripConv(u.args[1]) == stripConv(t.args[1])
				}
				if !ok {
					c.Report("c17:not-noted", "a window entry is added to the result of a query without noting that it was added")
				}
			}
		}
		c.St.Del("pending")
		c.St.Del("new")
		c.St.Del("seen")
		c.St.Del("noted")
	}
	roots := addRoots(r)
	r.Explore(wh, roots...)
	isRoot := map[string]bool{}
	for _, f := range roots {
		isRoot[fname(f)] = true
	}
	// what is known to be added is shared by all of a lookup, and cuts come after sorting
	ch := &Hooks{Interesting: anyOf(callIs("sort.Slice", "sort.SliceStable"), calleeIn(isRoot), func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.Slice)
		return ok && isWinEntries(x.X.Type())
	})}
	ch.Call = func(c *CallCtx) {
		switch {
		case isSort(c.Name):
			if len(c.Common.Args) > 0 {
				if v := c.Common.Args[0]; isWinEntries(stripIface(v).Type()) {
					c.St.Add("sorted")
					if f := c.Args[1]; (f.op == OClosure || f.op == OFunc) && f.fn != nil {
						wless[f.fn] = true
					}
				}
			}
		case isRoot[c.Name] && c.Callee != nil && !reachesAny(p, c.Callee, isSort):
			c.Opaque()
			c.St.Del("sorted")
			for i, a := range c.Args {
				if a == nil || a.typ == nil {
					continue
				}
				if _, ok := a.typ.Underlying().(*types.Map); ok {
					c.St.Add("map", a)
					_ = i
				}
			}
			if len(c.St.Find("map")) > 1 {
				c.Report("c17:twice-maps", "what was added from memory is not known when entries are added from the file")
			}
		case c.Name == "unitdb._WindowReader.readWindowBlock":
			c.derived("block", nil, nil)
		case c.Name == "builtin.append" && isWinEntries(c.Common.Args[0].Type()):
			c.St.Del("sorted")
		}
	}
	ch.Slice = func(c *Ctx, v *Val) {
		x, ok := c.In.(*ssa.Slice)
		if !ok || !isWinEntries(x.X.Type()) || x.Low == nil && x.High == nil {
			return
		}
		if v.args[1] != nil && !isInt(0)(v.args[1]) {
			r.Count("cuts in memory", 1)
			c.Report("c17:cut-front", "the newest entries found in memory are cut off")
			return
		}
		if x.High == nil {
			return
		}
		r.Count("cuts in memory", 1)
		if !c.St.Has("sorted") {
			c.Report("c17:cut-unsorted", "entries found in memory are cut off before they are sorted by sequence")
		}
	}
	if f := r.Fn("unitdb._TimeWindowBucket.lookup"); f != nil {
		r.Explore(ch, f)
	}
	for f := range wless {
		r.descending(f, qseq, seq)
	}
	r.Need("entries added", 1)
	r.Need("cuts in memory", 1)
	r.Need("comparisons", first+1)

	// a query does not start with the entries of the last one
	fresh := &Hooks{Interesting: fieldUse(wins)}
	fresh.Call = func(c *CallCtx) {
		switch c.Name {
		case "unitdb._TimeWindowBucket.lookup", "unitdb.Query.parse":
			c.Opaque()
			c.ForkErr(nil, nil)
		case "unitdb.DB.readItems", "unitdb.DB.readEntry":
			c.Opaque()
		}
	}
	fresh.Store = func(c *Ctx, addr, v *Val) {
		if addr.op != OFAddr || addr.fld != wins || v == nil {
			return
		}
		r.Count("changes of the entries of a query", 1)
		if v.op == OAppend {
			if !c.St.Has("reset") {
				c.Report("c17:kept", "the entries of a query are added to those of an earlier use of the query")
			}
			return
		}
		if v.op == OSlice && !(v.args[2] != nil && isInt(0)(v.args[2])) {
			return
		}
		c.St.Add("reset")
	}
	if f := r.Fn("unitdb.DB.lookup"); f != nil {
		r.Explore(fresh, f)
	}
	r.Need("changes of the entries of a query", 1)
}

// seenLookup: the condition asks a map[uint64] whether it has the key, by value or by presence.
func seenLookup(cond *Val) (*Val, bool) {
	v := cond
	if v.op == OExt {
		v = v.args[0]
	}
	if v.op == OLookup {
		return v, true
	}
	return nil, false
}

// constOf is the constant a value is.
func (c *Ctx) constOf(v *Val) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return v.constInt()
}

// root is the frame of the root function.
func (c *Ctx) root() *frame {
	f := c.fr
	for f.parent != nil {
		f = f.parent
	}
	return f
}

// descending: the comparison orders by descending sequence.
func (r *Run) descending(f *ssa.Function, fields ...*types.Var) {
	r.ordering(f, true, "c17:comparison:"+fname(f), "the comparison used for sorting does not order entries by descending sequence", fields...)
}

// ordering: the comparison orders by the field, descending or ascending.
func (r *Run) ordering(f *ssa.Function, desc bool, key, what string, fields ...*types.Var) {
	is := func(v *Val, p string) bool {
		v = stripConv(v)
		ok := false
		for _, fl := range fields {
			ok = ok || isFieldVal(v, fl)
		}
		return ok && v.contains(func(x *Val) bool { return x.op == OParam && x.aux == p })
	}
	var ord order
	h := &Hooks{Interesting: func(ssa.Instruction) bool { return true }}
	h.Assume = func(c *Ctx, cond *Val, truth bool) { ord.assume(c, cond, truth) }
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		r.Count("comparisons", 1)
		n := len(fn.Params)
		i, j := fn.Params[n-2].Name(), fn.Params[n-1].Name()
		if !desc {
			i, j = j, i
		}
		v := res[0]
		pi := func(x *Val) bool { return is(x, i) && !is(x, j) }
		pj := func(x *Val) bool { return is(x, j) && !is(x, i) }
		ok := v.op == OBin && v.aux == "<" && pj(v.args[0]) && pi(v.args[1]) ||
			v.op == ONot && v.args[0].op == OBin && v.args[0].aux == "<" && pi(v.args[0].args[0]) && pj(v.args[0].args[1]) ||
			v.op == OConst && constant.BoolVal(v.cv) && ord.has(c.St, "lt", pj, pi) ||
			v.op == OConst && !constant.BoolVal(v.cv) && (ord.has(c.St, "ge", pj, pi) || ord.has(c.St, "lt", pi, pj))
		if !ok {
			c.Report(key, "%s", what)
		}
	}
	r.Explore(h, f)
}

// stripIface: the value put into an interface.
func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return stripSSA(v)
		}
	}
}

// highBounds: the loop variables that bound what is read of the entries of a query.
func highBounds(l *loop) []*ssa.Phi {
	var r []*ssa.Phi
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Slice); ok && s.High != nil && isSliceOf(s.X.Type(), "unitdb._Query") {
				if ph, ok := s.High.(*ssa.Phi); ok && ph.Block() == l.head {
					r = append(r, ph)
				}
			}
		}
	}
	return r
}

// phiFrom: the value a phi gets on the edge just taken.
func (c *Ctx) phiFrom(ph *ssa.Phi) *Val {
	for i, p := range ph.Block().Preds {
		if p == c.E.pred {
			return c.E.eval(c.fr, ph.Edges[i])
		}
	}
	return nil
}

// readRoots: the functions that sort the entries of a query and read them, none of what they call does both.
func readRoots(r *Run, isSort func(string) bool) []*ssa.Function {
	p := r.P
	get := r.Fn("unitdb.DB.Get")
	read := r.Fn("unitdb.DB.readEntry")
	if get == nil || read == nil {
		return nil
	}
	both := map[*ssa.Function]bool{}
	reach := p.reach(get)
	for _, f := range p.funcs {
		if f == read || f != get && !reach[f] {
			continue
		}
		if fr := p.reach(f); fr[read] {
			for _, ci := range p.callSites(fr) {
				if a := ci.Common().Args; isSort(staticName(ci.Common())) && isSliceOf(stripIface(a[0]).Type(), "unitdb._Query") {
					both[f] = true
				}
			}
		}
	}
	var roots []*ssa.Function
	for f := range both {
		least := true
		for g := range both {
			least = least && (g == f || !p.reach(f)[g])
		}
		if least {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.Violate("c17:unsorted", "", "no function sorts the entries of a query before reading them")
	}
	return roots
}

// callSites: the call sites of the functions.
func (p *Prog) callSites(fs map[*ssa.Function]bool) []ssa.CallInstruction {
	var cs []ssa.CallInstruction
	for f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cs = append(cs, ci)
				}
			}
		}
	}
	return cs
}

// addRoots: the functions a lookup reaches that add window entries one by one;
// where the entry is a parameter of such a function, its callers.
func addRoots(r *Run) []*ssa.Function {
	p := r.P
	look := r.Fn("unitdb._TimeWindowBucket.lookup")
	if look == nil {
		return nil
	}
	reach := p.reach(look)
	app := appendsTo(isWinEntries)
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] || !(f == look || reach[f]) {
			return
		}
		seen[f] = true
		up := false
		for _, pm := range f.Params {
			up = up || qualType(pm.Type()) == winEntry
		}
		if up {
			for _, g := range p.callers(f) {
				add(g)
			}
			return
		}
		roots = append(roots, f)
	}
	for _, f := range p.funcs {
		if f != look && !reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if app(in) {
					add(f)
				}
			}
		}
	}
	if len(roots) == 0 {
		r.Violate("anchor:window entries added", "", "no function was found that adds window entries to what a query returns")
	}
	return roots
}

// reachesAny: does f reach a call whose name satisfies the predicate.
func reachesAny(p *Prog, f *ssa.Function, is func(string) bool) bool {
	for g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && is(staticName(ci.Common())) {
					return true
				}
			}
		}
	}
	return false
}
