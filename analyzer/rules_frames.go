package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frames: records with a length in front, and how those are cut out again.

type fplace struct {
	width int64
	order string
	val   *Val
	at    string
}

type frameWrite struct {
	x, pos *Val
	at     string
	buf    *Val
}

type recFrame struct {
	name    string
	base    *Val
	places  map[int64]fplace
	payload *Val
	head    int64 // where the payload begins
	lenAt   int64
	lenC    int64 // what is added to the length of the payload
}

// recordHooks keeps track of what is written to and cut from buffers.
type recorder struct {
	writes  []frameWrite
	total   []*Val
	ext     []*Val
	adv     map[*types.Var][][2]*Val // old and new value of counted fields
	mapped  []*Val
	copies  []frameWrite
	useArgs []frameUse
	keyed   []keyedUse
}

type keyedUse struct {
	key, v *Val
	guards []*Val
	at     string
}

type frameUse struct {
	what string
	idx  int
	v    *Val
	at   string
	st   *State
}

func isBufCall(n string, m string) bool {
	return strings.HasSuffix(n, "."+m) && (strings.Contains(n, "bpool.") || strings.Contains(n, "_File.") || strings.Contains(n, "os.File"))
}

func (r *Run) record(f *ssa.Function, calls func(ssa.Instruction) bool, extra func(c *CallCtx, rec *recorder), exitRes bool) (*codec, *recorder) {
	rec := &recorder{adv: map[*types.Var][][2]*Val{}}
	var k *codec
	h := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case ssa.CallInstruction:
				n := staticName(x.Common())
				if strings.HasPrefix(n, "encoding/binary.") || n == "builtin.copy" || isBufCall(n, "WriteAt") || isBufCall(n, "Write") || isBufCall(n, "Slice") || isBufCall(n, "slice") || isBufCall(n, "Extend") {
					return true
				}
				return calls != nil && calls(in)
			case *ssa.MapUpdate:
				return true
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					return isByte(x.Val.Type()) && ia != nil
				}
				_, ok := x.Addr.(*ssa.FieldAddr)
				return ok
			}
			return false
		},
		Call: func(c *CallCtx) {
			n := len(c.Args)
			switch {
			case isBufCall(c.Name, "WriteAt"):
				c.Opaque()
				rec.writes = append(rec.writes, frameWrite{c.Args[n-2], c.Args[n-1], c.Pos(), c.Args[0]})
				c.ForkErr(nil, nil)
				return
			case isBufCall(c.Name, "Write"):
				c.Opaque()
				x := c.Args[n-1]
				cur := c.E.pair("cursor0", c.Args[0])
				for _, t := range c.St.Find("wcur") {
					if t.args[0] == c.Args[0] {
						cur = t.args[1]
						c.St.DelV("wcur", t)
					}
				}
				rec.writes = append(rec.writes, frameWrite{x, cur, c.Pos(), c.Args[0]})
				ln := c.E.in.mk(Val{op: OLen, args: []*Val{x}, typ: types.Typ[types.Int]})
				if w, ok := (&codec{e: c.E}).sliceLen(x); ok {
					ln = c.E.in.integer(w)
				}
				nx := c.E.in.bin(token.ADD, cur, ln, types.Typ[types.Int])
				b := c.Args[0]
				c.ForkErr(func(s *State) { s.Add("wcur", c.E.pair("wc", b, nx)) }, nil)
				return
			case isBufCall(c.Name, "Extend"):
				c.Opaque()
				rec.total = append(rec.total, c.Args[n-1])
				rec.ext = append(rec.ext, c.E.ext(c.Res, 0, c.Sig.Results().At(0).Type()))
				c.ForkErr(nil, nil)
				return
			case isBufCall(c.Name, "Slice"), isBufCall(c.Name, "slice"):
				c.Opaque()
				v := c.E.pair("buf", c.Args[0], c.Args[n-2], c.Args[n-1])
				c.SetResult(c.E.tuple([]*Val{v, c.ErrRes()}))
				c.ForkErr(nil, nil)
				return
			case c.Name == "builtin.copy":
				rec.copies = append(rec.copies, frameWrite{c.Args[1], c.Args[0], c.Pos(), nil})
			}
			if extra != nil {
				extra(c, rec)
			}
		},
		Store: func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && v != nil {
				if b, ok := addr.fld.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					rec.adv[addr.fld] = append(rec.adv[addr.fld], [2]*Val{c.E.load(c.St, addr, addr.fld.Type()), v})
				}
			}
		},
		MapWrite: func(c *Ctx, m, key, v *Val) {
			if v != nil {
				rec.mapped = append(rec.mapped, v)
				if isByteSlice(v) {
					rec.useArgs = append(rec.useArgs, frameUse{"map", 0, v, c.Pos(), c.St})
					var gs []*Val
					for _, n := range []string{"eq", "ne"} {
						gs = append(gs, c.St.Find(n)...)
					}
					rec.keyed = append(rec.keyed, keyedUse{key, v, gs, c.Pos()})
				}
			}
		},
	}
	if exitRes {
		h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
			for i, x := range res {
				if t, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok && isByte(t.Elem()) {
					rec.useArgs = append(rec.useArgs, frameUse{"return", i, x, c.Pos(), c.St})
				}
			}
		}
	}
	k = r.layoutOf(f, false, h)
	return k, rec
}

func isByteSlice(v *Val) bool {
	if v.op == OComp && v.aux == "pair:buf" {
		return true
	}
	if v.typ == nil {
		return v.op == OSlice && isByteSlice(v.args[0])
	}
	s, ok := v.typ.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// extra is what a record takes more than its length says.
func (f *recFrame) rest() int64 { return f.head - f.lenC }

func (l lin) sub(o lin) lin {
	var r lin
	r.add(l, 1)
	r.add(o, -1)
	return r
}

// endOf is the position at which a piece of a buffer ends.
func (k *codec) endOf(v *Val, n int) (lin, bool) {
	v = stripConv(v)
	if n > 40 {
		return lin{}, false
	}
	if v.op == OSlice {
		if v.args[2] == nil {
			return k.endOf(v.args[0], n+1)
		}
		_, p := k.pos(v.args[0], 0)
		p.add(k.lin(v.args[2]), 1)
		return p, true
	}
	if v.op == OComp && v.aux == "pair:buf" {
		return k.lin(v.args[2]), true
	}
	return lin{}, false
}

func (l lin) read() *Val {
	for a, n := range l.atoms {
		if n == 1 && a.op == OComp && strings.HasPrefix(a.aux, "pair:rd:") {
			return a
		}
	}
	return nil
}

// encFrame is the frame a function writes.
func (r *Run) encFrame(key, what string, k *codec, rec *recorder, at string) *recFrame {
	f := &recFrame{name: what, places: map[int64]fplace{}, lenAt: -1, head: -1}
	if k.e == nil || len(rec.writes) == 0 {
		r.Violate(key+":none", at, "%s writes no record", what)
		return nil
	}
	bad := ""
	put := func(o int64, p fplace) {
		if q, ok := f.places[o]; ok && (q.width != p.width || q.order != p.order) {
			bad = p.at
		}
		f.places[o] = p
	}
	pay := func(x *Val, o int64, at string) {
		if f.payload != nil && (f.payload != x || f.head != o) {
			r.Violate(key+":payload", at, "%s writes more than one payload into a record", what)
		}
		f.payload, f.head = x, o
	}
	for _, w := range rec.writes {
		p := k.lin(w.pos)
		for a, n := range p.atoms {
			if n == 1 && (a.op == OComp && a.aux == "pair:cursor0" || len(rec.ext) > 0 && a == rec.ext[0]) {
				if f.base != nil && f.base != a {
					r.Violate(key+":base", w.at, "%s writes parts of a record to different places", what)
					return nil
				}
				f.base = a
			}
		}
		if f.base == nil {
			r.Violate(key+":base", w.at, "%s writes a record to a place that was not set apart for it", what)
			return nil
		}
		c, ok := p.minus(f.base).only()
		if !ok {
			r.Violate(key+":position", w.at, "the position of a part of the record written by %s is not fixed", what)
			return nil
		}
		root, start := k.pos(w.x, 0)
		n := 0
		for _, a := range k.list {
			rt, _ := k.pos(a.v, 0)
			if rt != root || root == nil || root.op != OAlloc && root.op != OMake {
				continue
			}
			offs, ok := k.positions(a)
			s, ok2 := start.only()
			if !ok || !ok2 {
				r.Violate(key+":position", a.at, "the position of a field of the record written by %s is not fixed", what)
				return nil
			}
			for _, o := range offs {
				put(c+o-s, fplace{a.width, a.order, a.val, a.at})
			}
			n++
		}
		for _, cp := range rec.copies {
			if rt, l := k.pos(cp.pos, 0); rt == root && root != nil && (root.op == OAlloc || root.op == OMake) {
				if o, ok := l.sub(start).only(); ok {
					pay(cp.x, c+o, cp.at)
					n++
				}
			}
		}
		if n == 0 {
			pay(w.x, c, w.at)
		}
	}
	if f.payload == nil {
		r.Violate(key+":payload", at, "%s writes no payload into the record", what)
		return nil
	}
	var offs []int64
	for o, p := range f.places {
		offs = append(offs, o)
		l := k.lin(p.val)
		if len(l.atoms) == 1 {
			for a, n := range l.atoms {
				if a.op == OLen && a.args[0] == f.payload && n == 1 {
					f.lenAt, f.lenC = o, l.c
					if p.width < 4 {
						r.Violate(key+":length-width", p.at, "%s writes the length of a record in %d bytes", what, p.width)
					}
				}
			}
		}
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	for i, o := range offs {
		end := f.head
		if i+1 < len(offs) {
			end = offs[i+1]
		}
		if o < 0 || o+f.places[o].width > end || bad != "" {
			r.Violate(key+":overlap", f.places[o].at, "%s writes overlapping parts of a record", what)
			return nil
		}
	}
	if f.lenAt < 0 {
		r.Violate(key+":length", at, "%s does not write the length of the payload into the record", what)
		return nil
	}
	for _, t := range rec.total {
		l := k.lin(t)
		d := l.minus(k.e.in.mk(Val{op: OLen, args: []*Val{f.payload}, typ: types.Typ[types.Int]}))
		for a := range l.atoms {
			if a.op == OLen && a.args[0] == f.payload {
				d = l.minus(a)
			}
		}
		if c, ok := d.only(); !ok || c != f.head {
			r.Violate(key+":room", at, "%s sets apart room that does not fit the record", what)
		}
	}
	r.Count("record fields written", len(offs)+1)
	return f
}

// counted: a field that counts the bytes written grows by the size of the record.
func (f *recFrame) counted(r *Run, key string, k *codec, rec *recorder, names ...string) {
	for fld, ps := range rec.adv {
		is := false
		for _, n := range names {
			is = is || fld.Name() == n
		}
		if !is {
			continue
		}
		for _, p := range ps {
			d := k.lin(p[1]).sub(k.lin(p[0]))
			ok := false
			for a, n := range d.atoms {
				if a.op == OLen && a.args[0] == f.payload && n == 1 && len(d.atoms) == 1 && d.c == f.head {
					ok = true
				}
			}
			r.Count("record counters", 1)
			if !ok {
				r.Violate(key+":counter:"+fld.Name(), r.P.pos(r.Fn(k.name).Pos()), "%s does not add the size of the record to %s", f.name, fld.Name())
			}
		}
	}
}

// readFrame: the pieces a function cuts out are those of the frame.
func (f *recFrame) reads(r *Run, key, what string, k *codec, rec *recorder) (bases []lin, found int) {
	lens := map[*Val]lin{}
	var order []*Val
	base := func(v *Val) (lin, bool) { // base of the record the length v is of
		b, ok := lens[v]
		if !ok {
			_, p := k.pos(v.args[0], 0)
			p.c -= f.lenAt
			b = p
			lens[v] = b
			order = append(order, v)
		}
		return b, !b.bad
	}
	seen := map[string]bool{}
	say := func(k, at, fm string, as ...any) {
		if !seen[k+at] {
			seen[k+at] = true
			r.Violate(k, at, fm, as...)
		}
	}
	for _, u := range rec.useArgs {
		root, start := k.pos(u.v, 0)
		end, ok := k.endOf(u.v, 0)
		if !ok || root == nil {
			continue
		}
		rd := end.read()
		if rd == nil {
			continue
		}
		b, ok := base(rd)
		if !ok {
			continue
		}
		found++
		bases = append(bases, b)
		if c, ok := start.sub(b).only(); !ok || c != f.head {
			say(key+":payload-start", u.at, "%s takes the payload from another position than %s wrote it to", what, f.name)
		}
		if c, ok := end.sub(b).minus(rd).only(); !ok || c != f.rest() {
			say(key+":payload-end", u.at, "the payload %s takes does not end where the record written by %s ends", what, f.name)
		}
	}
	for _, u := range rec.useArgs {
		if end, ok := k.endOf(u.v, 0); ok && end.read() != nil {
			base(end.read())
		}
	}
	for _, a := range k.reads {
		_, p := k.pos(a.v, 0)
		for _, rd := range order {
			c, ok := p.sub(lens[rd]).only()
			if !ok {
				continue
			}
			if c >= f.head {
				continue
			}
			pl, ok := f.places[c]
			r.Count("record fields read", 1)
			if !ok || pl.width != a.width || pl.order != a.order {
				say(key+":field", a.at, "%s reads %d bytes (%s) at %d of a record, %s wrote no such field there", what, a.width, a.order, c, f.name)
			}
		}
	}
	return bases, found
}

// fieldAt: v was read from the field at position at of the record with the base.
func (f *recFrame) fieldAt(k *codec, v *Val, b lin) (int64, bool) {
	v = stripConv(v)
	as := readAtoms(v)
	if len(as) != 1 || as[0] != v {
		return 0, false
	}
	x, _, _ := readOf(v)
	_, p := k.pos(x, 0)
	return p.sub(b).only2()
}

func (l lin) only2() (int64, bool) { return l.only() }

func (r *Run) frames() {
	r.memFrames()
	r.walFrames()
	r.entryFrames(r.batchFrames())
}

func (r *Run) memFrames() {
	putFn := r.Fn("memdb._Block.put")
	if putFn == nil {
		return
	}
	k, rec := r.record(putFn, nil, nil, false)
	f := r.encFrame("c07:mem-record", "memdb._Block.put", k, rec, r.P.pos(putFn.Pos()))
	if f == nil {
		return
	}
	for _, v := range rec.mapped {
		if d, ok := k.lin(v).minus(f.base).only(); !ok || d != 0 {
			r.Violate("c07:mem-record:offset", r.P.pos(putFn.Pos()), "the offset kept for a key is not where its record was written")
		}
	}
	keyFld, delFld := r.Field("memdb", "_Key", "key"), r.Field("memdb", "_Key", "delFlag")
	keyAt, flagAt := int64(-1), int64(-1)
	for o, p := range f.places {
		if p.val == nil {
			continue
		}
		if isFieldVal(stripConv(p.val), keyFld) {
			keyAt = o
			if p.width != 8 {
				r.Violate("c07:mem-record:key-cut", p.at, "the key of a record is cut")
			}
		}
		if isFieldVal(stripConv(p.val), delFld) {
			flagAt = o
		}
	}
	if keyAt < 0 || flagAt < 0 {
		r.Violate("c07:mem-record:key", r.P.pos(putFn.Pos()), "memdb._Block.put does not write key and deleted flag of a record")
		return
	}
	// records that are marked as deleted
	deleted := int64(1)
	if del := r.Fn("memdb._Block.delete"); del != nil {
		dk, drec := r.record(del, nil, nil, false)
		n := 0
		for _, w := range drec.writes {
			p := dk.lin(w.pos)
			root, start := dk.pos(w.x, 0)
			for _, a := range dk.list {
				if rt, _ := dk.pos(a.v, 0); rt != root {
					continue
				}
				offs, ok := dk.positions(a)
				if !ok {
					continue
				}
				s, _ := start.only()
				for _, o := range offs {
					n++
					at := p.c + o - s
					q, ok := f.places[at]
					r.Count("record fields rewritten", 1)
					if !ok || q.width != a.width || q.order != a.order || at == f.lenAt {
						r.Violate("c07:mem-record:delete-field", a.at, "marking a record as deleted writes %d bytes at %d of it, where no such field is", a.width, at)
						continue
					}
					if at == flagAt {
						if c, ok := stripConv(a.val).constInt(); ok {
							deleted = c
						}
					}
					if at == keyAt {
						if v := stripConv(a.val); v.op == OConst {
							r.Violate("c07:mem-record:delete-key", a.at, "marking a record as deleted changes its key")
						}
					}
				}
			}
		}
		if n == 0 {
			r.Violate("c07:mem-record:delete", r.P.pos(del.Pos()), "a deleted record is not marked")
		}
	}
	// tombstones
	var tomb []access
	var tombK *codec
	if mv := r.Fn("memdb.DB.move"); mv != nil {
		h := &Hooks{Interesting: anyOf(callIs("memdb._Block.put"), func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && strings.HasPrefix(staticName(ci.Common()), "encoding/binary.")
		}), Call: func(c *CallCtx) {
			if c.Name == "memdb._Block.put" {
				c.Opaque()
				c.ForkErr(nil, nil)
			}
		}}
		tombK = r.layoutOf(mv, false, h)
		tomb = tombK.list
	}
	for _, n := range []string{"memdb.DB.Get", "memdb.DB.Lookup"} {
		fn := r.Fn(n)
		if fn == nil {
			continue
		}
		gk, grec := r.record(fn, nil, nil, true)
		_, found := f.reads(r, "c07:mem-record", n, gk, grec)
		r.Count("record readers", found)
		if found == 0 {
			r.Violate("c07:mem-record:unread", r.P.pos(fn.Pos()), "%s does not return the payload of a record, cut by its length", n)
		}
	}
	rcv := r.Fn("memdb.DB.startRecovery")
	if rcv == nil {
		return
	}
	type mw struct {
		key    *Val
		guards []*Val
		at     string
	}
	var delKeys []mw
	// the function that is run for each log
	for _, ci := range r.P.callsTo("wal.Reader.Iterator") {
		if pkgOf(ci.Parent()) != "memdb" {
			continue
		}
		g := funcOf(ci.Common().Args[len(ci.Common().Args)-1])
		if g == nil {
			continue
		}
		h := func(c *CallCtx, rec *recorder) {
			switch c.Name {
			case "wal.Reader.Next", "wal.Reader.Count", "memdb._Block.put", "memdb._TimeMark.add", "memdb._TimeMark.release":
				c.Opaque()
				if c.Name == "wal.Reader.Next" {
					c.ForkErr(nil, nil)
				}
			case "builtin.append":
				for _, x := range c.varargs(c.Args[1]) {
					if as := readAtoms(x); len(as) > 0 {
						var gs []*Val
						for _, n := range []string{"eq", "ne"} {
							gs = append(gs, c.St.Find(n)...)
						}
						delKeys = append(delKeys, mw{x, gs, c.Pos()})
					}
				}
			}
		}
		var gk *codec
		var grec *recorder
		gk, grec = r.record(g, callIs("wal.Reader.Next", "wal.Reader.Count", "memdb._Block.put", "builtin.append"), h, false)
		bases, found := f.reads(r, "c07:mem-record", fname(g), gk, grec)
		r.Count("record readers", found)
		if found == 0 {
			r.Violate("c07:mem-record:unread", r.P.pos(g.Pos()), "recovery does not take the payloads of the records of a log, cut by their length")
			continue
		}
		for _, u := range grec.keyed {
			for _, b := range bases {
				if _, st := gk.pos(u.v, 0); st.bad {
					continue
				}
				if at, ok := f.fieldAt(gk, u.key, b); !ok || at != keyAt {
					r.Violate("c07:mem-record:recovered-key", u.at, "recovery keeps a record under something else than its key")
				}
				if !f.flagKnown(gk, u.guards, b, flagAt, deleted, false) {
					r.Violate("c07:mem-record:recovered-deleted", u.at, "recovery takes a record without having seen that it is not marked as deleted")
				}
				break
			}
		}
		for _, d := range delKeys {
			for _, b := range bases {
				if at, ok := f.fieldAt(gk, d.key, b); ok && at == keyAt && !f.flagKnown(gk, d.guards, b, flagAt, deleted, true) {
					r.Violate("c07:mem-record:recovered-delete", d.at, "recovery deletes the key of a record that is not marked as deleted")
				}
				break
			}
		}
		// next record
		for _, b := range bases {
			for a, n := range b.atoms {
				if a.op != OPhi || n != 1 || a.step == nil || a.step == gk.e.vNonNil {
					continue
				}
				d := gk.flat(a.step).minus(a)
				rd := d.read()
				if rd == nil {
					r.Violate("c07:mem-record:next", r.P.pos(g.Pos()), "recovery does not go on with the next record of a log by the length of the record")
					continue
				}
				if c, ok := d.minus(rd).only(); !ok || c != f.rest() {
					r.Violate("c07:mem-record:next", r.P.pos(g.Pos()), "recovery does not go on at the end of the record")
				}
				r.Count("records walked", 1)
			}
		}
		// what tombstones hold
		for _, a := range gk.reads {
			_, p := gk.pos(a.v, 0)
			for _, b := range bases {
				c, ok := p.sub(b).only()
				if !ok || c < f.head {
					continue
				}
				match := len(tomb) == 0
				for _, t := range tomb {
					if offs, ok := tombK.positions(t); ok && len(offs) == 1 && offs[0] == c-f.head && t.width == a.width && t.order == a.order {
						match = true
					}
				}
				r.Count("tombstone fields", 1)
				if !match {
					r.Violate("c07:tombstone", a.at, "recovery reads from a deleted entry what was not written there")
				}
				break
			}
		}
	}
}

// flagKnown: the deleted flag of the record at base was compared.
func (f *recFrame) flagKnown(k *codec, guards []*Val, b lin, flagAt, deleted int64, is bool) bool {
	for _, g := range guards {
		for i, x := range g.args[:2] {
			c, ok := stripConv(g.args[1-i]).constInt()
			if !ok {
				continue
			}
			if at, ok := f.fieldAt(k, x, b); !ok || at != flagAt {
				continue
			}
			eq := g.aux == "pair:eq"
			if is && (eq && c == deleted) || !is && (eq && c != deleted || !eq && c == deleted) {
				return true
			}
		}
	}
	return false
}

func (r *Run) walFrames() {
	w := r.Fn("wal.Writer.append")
	if w == nil {
		return
	}
	k, rec := r.record(w, nil, nil, false)
	f := r.encFrame("c07:log-record", "wal.Writer.append", k, rec, r.P.pos(w.Pos()))
	if f == nil {
		return
	}
	f.counted(r, "c07:log-record", k, rec, "logSize")
	nx := r.Fn("wal.Reader.Next")
	if nx == nil {
		return
	}
	nk, nrec := r.record(nx, nil, nil, true)
	_, found := f.reads(r, "c07:log-record", "wal.Reader.Next", nk, nrec)
	if found == 0 {
		r.Violate("c07:log-record:unread", r.P.pos(nx.Pos()), "wal.Reader.Next does not return the payload of a record, cut by its length")
	}
	off := r.Field("wal", "Reader", "offset")
	moved := 0
	for _, p := range nrec.adv[off] {
		d := nk.lin(p[1]).sub(nk.lin(p[0]))
		rd := d.read()
		ok := false
		if rd != nil {
			c, o := d.minus(rd).only()
			ok = o && c == f.rest()
		}
		moved++
		if !ok {
			r.Violate("c07:log-record:next", r.P.pos(nx.Pos()), "wal.Reader.Next does not go on at the end of the record it returned")
		}
	}
	r.Count("records walked", moved)
	if moved == 0 {
		r.Violate("c07:log-record:next", r.P.pos(nx.Pos()), "wal.Reader.Next does not go on to the next record")
	}
}

// funcOf is the function a function value is known to be.
func funcOf(v ssa.Value) *ssa.Function {
	switch x := stripSSA(v).(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}

func opaque(names ...string) func(c *CallCtx) bool {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return func(c *CallCtx) bool {
		if !set[c.Name] {
			return false
		}
		c.Opaque()
		return true
	}
}

// batchFrames: entries of a batch are kept in its buffer until the batch is written.
func (r *Run) batchFrames() (topics []batchTopic) {
	size, offset := r.Field("unitdb", "Batch", "size"), r.Field("unitdb", "_BatchIndex", "offset")
	if size == nil || offset == nil {
		return nil
	}
	op := opaque("unitdb.DB.setEntry", "unitdb.DB.ok", "unitdb.Entry.reset")
	var f *recFrame
	for _, n := range []string{"unitdb.Batch.PutEntry", "unitdb.Batch.DeleteEntry"} {
		fn := r.Fn(n)
		if fn == nil {
			return nil
		}
		k, rec := r.record(fn, nil, func(c *CallCtx, rec *recorder) { op(c) }, false)
		g := r.encFrame("c07:batch-record", n, k, rec, r.P.pos(fn.Pos()))
		if g == nil {
			return nil
		}
		g.counted(r, "c07:batch-record", k, rec, "size")
		if len(rec.adv[size]) == 0 {
			r.Violate("c07:batch-record:counter:size", r.P.pos(fn.Pos()), "%s does not count the bytes it wrote", n)
		}
		if len(rec.adv[offset]) == 0 {
			r.Violate("c07:batch-record:offset", r.P.pos(fn.Pos()), "%s does not keep where it wrote the record", n)
		}
		for _, p := range rec.adv[offset] {
			if !isFieldVal(stripConv(p[1]), size) {
				r.Violate("c07:batch-record:offset", r.P.pos(fn.Pos()), "%s keeps another offset than the end of the records before", n)
			}
		}
		if f != nil {
			same := f.head == g.head && f.lenAt == g.lenAt && f.lenC == g.lenC && len(f.places) == len(g.places)
			for o, p := range f.places {
				same = same && g.places[o].width == p.width && g.places[o].order == p.order
			}
			if !same {
				r.Violate("c07:batch-record:differ", r.P.pos(fn.Pos()), "entries to put and entries to delete are written to the batch with different layouts")
			}
		}
		f = g
	}
	w := r.Fn("unitdb.Batch.Write")
	if w == nil || f == nil {
		return nil
	}
	op = opaque("unitdb.DB.ok", "unitdb.DB.delete", "unitdb.Batch.reset", "unitdb.Batch.len", "unitdb.Filter.Test", "memdb.Batch.TimeID", "memdb.Batch.Write", "unitdb._Trie.add", "unitdb._TimeWindowBucket.add", "unitdb.newTopic")
	var headers, raw []frameUse
	isCalls := callIs("memdb.Batch.Put", "unitdb._Entry.UnmarshalBinary", "message.Topic.Unmarshal")
	k, rec := r.record(w, isCalls, func(c *CallCtx, rec *recorder) {
		switch {
		case op(c):
		case c.Name == "memdb.Batch.Put":
			c.Opaque()
			rec.useArgs = append(rec.useArgs, frameUse{"put", 0, c.Args[len(c.Args)-1], c.Pos(), c.St})
			c.ForkErr(nil, nil)
		case c.Name == "message.Topic.Unmarshal":
			c.Opaque()
			raw = append(raw, frameUse{"topic", 0, c.Args[len(c.Args)-1], c.Pos(), c.St})
			c.ForkErr(nil, nil)
		case c.Name == "unitdb._Entry.UnmarshalBinary":
			c.Opaque()
			headers = append(headers, frameUse{"header", 0, c.Args[len(c.Args)-1], c.Pos(), c.St})
		}
	}, false)
	bases, found := f.reads(r, "c07:batch-record", "unitdb.Batch.Write", k, rec)
	if found == 0 {
		r.Violate("c07:batch-record:unread", r.P.pos(w.Pos()), "unitdb.Batch.Write does not put the entries of its buffer, cut by their length")
		return nil
	}
	for _, u := range raw {
		_, start := k.pos(u.v, 0)
		end, has := k.endOf(u.v, 0)
		b := bases[0]
		b.c += f.head
		topics = append(topics, batchTopic{k, start.sub(b), end.sub(b), has, u.at})
	}
	for _, u := range headers {
		for _, b := range bases {
			_, start := k.pos(u.v, 0)
			r.Count("headers of batch records", 1)
			if c, ok := start.sub(b).only(); !ok || c != f.head {
				r.Violate("c07:batch-record:header", u.at, "the header of an entry of the batch is not read from the start of the entry")
			}
			break
		}
	}
	for _, b := range bases {
		ok := false
		for a, n := range b.atoms {
			ok = ok || n == 1 && len(b.atoms) == 1 && b.c == 0 && isFieldVal(a, offset)
		}
		if !ok {
			r.Violate("c07:batch-record:base", r.P.pos(w.Pos()), "the entries of a batch are not read from the offsets that were kept for them")
		}
	}
	return topics
}

// entryFrames: the parts of a packed entry, and those of it that go to the data file.
type batchTopic struct {
	k          *codec
	start, end lin // in the entry
	has        bool
	at         string
}

func (r *Run) entryFrames(topics []batchTopic) {
	ts, vs := r.Field("unitdb", "_Entry", "topicSize"), r.Field("unitdb", "_Entry", "valueSize")
	its, ivs := r.Field("unitdb", "_IndexEntry", "topicSize"), r.Field("unitdb", "_IndexEntry", "valueSize")
	msgOff, icache, ecache := r.Field("unitdb", "_IndexEntry", "msgOffset"), r.Field("unitdb", "_IndexEntry", "cache"), r.Field("unitdb", "_Entry", "cache")
	set, marshal, prefix := r.Fn("unitdb.DB.setEntry"), r.Fn("unitdb._Entry.MarshalBinary"), r.Fn("message.ID.Prefix")
	if ts == nil || vs == nil || its == nil || ivs == nil || msgOff == nil || icache == nil || ecache == nil || set == nil || marshal == nil || prefix == nil {
		return
	}
	sizeOf := func(fn *ssa.Function) (int64, bool) {
		k := r.layoutOf(fn, false, nil)
		for _, x := range k.res {
			root, _ := k.pos(x, 0)
			if root != nil && root.op == OMake && len(root.args) > 0 {
				return k.lin(root.args[0]).only()
			}
			if root != nil && root.op == OAlloc {
				if p, ok := typOr(root).Underlying().(*types.Pointer); ok {
					if at, ok := p.Elem().Underlying().(*types.Array); ok {
						return at.Len(), true
					}
				}
			}
		}
		return 0, false
	}
	hdr, ok1 := sizeOf(marshal)
	pre, ok2 := sizeOf(prefix)
	if !ok1 || !ok2 {
		r.Violate("c07:packed:sizes", r.P.pos(set.Pos()), "the size of an entry header or of a message ID prefix is not fixed")
		return
	}
	type piece struct {
		c, t, v int64
		ok      bool
	}
	// a position as constant, topic sizes and value sizes
	role := func(k *codec, v *Val, f *types.Var) bool {
		for _, x := range k.alias[v] {
			if x == f {
				return true
			}
		}
		return isFieldVal(v, f)
	}
	norm := func(k *codec, l lin) piece {
		p := piece{c: l.c, ok: !l.bad}
		for a, n := range l.atoms {
			switch {
			case role(k, a, ts) || isFieldVal(a, its):
				p.t += n
			case role(k, a, vs) || isFieldVal(a, ivs):
				p.v += n
			default:
				p.ok = false
			}
		}
		return p
	}
	op := opaque("unitdb.DB.parseTopic", "message.Topic.AddContract", "message.Topic.GetHash", "message.Topic.Marshal", "unitdb._Trie.getOffset", "unitdb.DB.nextSeq", "message.ID.Sequence", "message.ID.Size", "message.NewID", "message.ID.SetContract", "message.ID.SetContract", "github.com/golang/snappy.Encode", "crypto.MAC.Encrypt")
	var mk *Val
	k, rec := r.record(set, callIs("unitdb._Entry.MarshalBinary", "message.ID.Prefix"), func(c *CallCtx, rec *recorder) {
		switch {
		case op(c):
			if c.ErrRes() != nil {
				c.ForkErr(nil, nil)
			}
		case c.Name == "unitdb._Entry.MarshalBinary":
			c.Opaque()
			c.SetResult(c.E.tuple([]*Val{c.E.pair("header"), c.E.vNil}))
		case c.Name == "message.ID.Prefix":
			c.Opaque()
			c.SetResult(c.E.pair("prefix", c.Args[0]))
		}
	}, false)
	at := r.P.pos(set.Pos())
	hAt, pAt, fAt := int64(-1), int64(-1), int64(-1)
	var topicAt, valAt []piece
	var val *Val
	for _, cp := range rec.copies {
		root, l := k.pos(cp.pos, 0)
		if root == nil || root.op != OMake {
			continue
		}
		mk = root
		p := norm(k, l)
		switch {
		case cp.x.op == OComp && cp.x.aux == "pair:header":
			hAt = p.c
			if !p.ok || p.t != 0 || p.v != 0 {
				hAt = -2
			}
		case findPair(cp.x, "prefix") != nil:
			pAt = p.c
			if !p.ok || p.t != 0 || p.v != 0 {
				pAt = -2
			}
		default:
			isTopic := false
			for _, f := range k.alias[k.lenAtom(cp.x)] {
				isTopic = isTopic || f == ts
				if f == vs {
					valAt = append(valAt, p)
					val = cp.x
				}
			}
			if isTopic {
				topicAt = append(topicAt, p)
			}
		}
	}
	for _, a := range k.list {
		if root, l := k.pos(a.v, 0); root != nil && root == mk && a.width == 1 {
			if c, ok := l.only(); ok {
				fAt = c
			}
		}
	}
	if mk == nil || val == nil || len(topicAt) == 0 || hAt < 0 || pAt < 0 || fAt < 0 {
		r.Violate("c07:packed:parts", at, "unitdb.DB.setEntry does not pack header, ID, encryption flag, topic and value of an entry at fixed positions")
		return
	}
	T := topicAt[0]
	r.Count("parts of a packed entry", 5)
	if hAt != 0 || pAt < hAt+hdr || fAt < pAt+pre || T.c < fAt+1 || T.t != 0 || T.v != 0 || !T.ok {
		r.Violate("c07:packed:overlap", at, "the parts of a packed entry overlap")
	}
	for _, v := range valAt {
		if !v.ok || v.c != T.c || v.v != 0 || v.t != 0 && v.t != 1 {
			r.Violate("c07:packed:value", at, "the value of a packed entry is not written right behind the topic")
		}
	}
	if p := norm(k, k.lin(mk.args[0])); !p.ok || p.c != T.c || p.v != 1 {
		r.Violate("c07:packed:size", at, "the size of a packed entry is not that of its parts")
	}
	body := hAt + hdr // what is kept in the data file begins here
	isBuf := func(v *Val) bool { return v != nil && v.op == OComp && v.aux == "pair:buf" }
	// where x begins in a packed entry
	type extent struct {
		start, end piece
		open       bool
		ok         bool
	}
	extOf := func(k *codec, x *Val, batchHead int64) extent {
		root, s := k.pos(x, 0)
		end, has := k.endOf(x, 0)
		shift := int64(0)
		v := x
		for v.op == OSlice || v.op == OConv {
			v = v.args[0]
		}
		switch {
		case isBuf(v): // cut from a buffer or from the data file
			b := lin{}
			if fb, ok := r.fileBase(k, v, msgOff); ok {
				b = fb
				shift = body
			} else {
				return extent{}
			}
			s = s.sub(b)
			if has {
				end = end.sub(b)
			}
		case root != nil && isFieldVal(root, icache):
			shift = body
		}
		e := extent{start: norm(k, s), open: !has, ok: true}
		e.start.c += shift
		if has {
			e.end = norm(k, end)
			e.end.c += shift
		}
		return e
	}
	isTopic := func(e extent) bool {
		return e.ok && e.start.ok && e.start.c == T.c && e.start.t == 0 && e.start.v == 0 && !e.open && e.end.ok && e.end.c == T.c && e.end.t == 1 && e.end.v == 0
	}
	isValue := func(e extent) bool {
		return e.ok && e.start.ok && e.start.c == T.c && e.start.t == 1 && e.start.v == 0 && (e.open || e.end.ok && e.end.c == T.c && e.end.t == 1 && e.end.v == 1)
	}
	isID := func(e extent) bool {
		return e.ok && e.start.ok && e.start.c == pAt && e.start.t == 0 && e.start.v == 0 && !e.open && e.end.ok && e.end.c >= fAt+1 && e.end.c <= T.c && e.end.t == 0 && e.end.v == 0
	}
	for _, t := range topics {
		r.Count("pieces of entries", 1)
		if !isTopic(extent{start: norm(t.k, t.start), end: norm(t.k, t.end), open: !t.has, ok: true}) {
			r.Violate("c07:packed:topic", t.at, "a topic is not decoded from where it is packed into the entry")
		}
	}
	// mSize
	if ms := r.Fn("unitdb._IndexEntry.mSize"); ms != nil {
		mkk := r.layoutOf(ms, false, nil)
		for _, x := range mkk.res {
			p := norm(mkk, mkk.lin(x))
			r.Count("sizes of stored messages", 1)
			if !p.ok || p.c != T.c-body || p.t != 1 || p.v != 1 {
				r.Violate("c07:packed:stored-size", r.P.pos(ms.Pos()), "the size of a stored message is not the size of what is written to the data file for it")
			}
		}
	}
	if rm := r.Fn("unitdb._BlockReader.readMessage"); rm != nil {
		gk, grec := r.record(rm, callIs("unitdb._IndexEntry.mSize"), nil, true)
		n := 0
		for _, u := range grec.useArgs {
			if u.what != "return" || u.v.op == ONil {
				continue
			}
			e := extOf(gk, u.v, 0)
			n++
			r.Count("pieces of entries", 1)
			if u.idx == 0 && !isID(e) {
				r.Violate("c07:packed:read-id", u.at, "readMessage does not return the ID of the message with its encryption flag")
			}
			if u.idx == 1 && !isValue(e) {
				r.Violate("c07:packed:read-value", u.at, "readMessage does not return the whole value of the message")
			}
		}
		if n < 2 {
			r.Violate("c07:packed:read-none", r.P.pos(rm.Pos()), "readMessage returns no message")
		}
	}
	if rt := r.Fn("unitdb._BlockReader.readTopic"); rt != nil {
		gk, grec := r.record(rt, callIs("unitdb._IndexEntry.isDeleted"), nil, true)
		n := 0
		for _, u := range grec.useArgs {
			if u.what != "return" || u.v.op == ONil {
				continue
			}
			n++
			r.Count("pieces of entries", 1)
			if !isTopic(extOf(gk, u.v, 0)) {
				r.Violate("c07:packed:read-topic", u.at, "readTopic does not return the topic of the entry")
			}
		}
		if n == 0 {
			r.Violate("c07:packed:read-none", r.P.pos(rt.Pos()), "readTopic returns no topic")
		}
	}
	// the flag in the ID
	for _, ci := range r.P.callsTo("unitdb._BlockReader.readMessage") {
		v := ci.Value()
		if v == nil || v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			ex, ok := ref.(*ssa.Extract)
			if !ok || ex.Index != 0 || ex.Referrers() == nil {
				continue
			}
			for _, rr := range *ex.Referrers() {
				ia, ok := rr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				n, ok := constOfSSA(ia.Index)
				if !ok {
					continue
				}
				r.Count("pieces of entries", 1)
				if n != fAt-pAt {
					r.Violate("c07:packed:read-flag", r.P.instrPos(ia), "the encryption flag is not read from where it is written")
				}
			}
		}
	}
	// headers, caches and topics taken from entries in memory
	fromMem := callIs("memdb.DB.Get", "memdb.DB.Lookup")
	takes := anyOf(callIs("unitdb._Entry.UnmarshalBinary", "message.Topic.Unmarshal"), func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && faField(fa) == icache
	})
	for _, fn := range r.P.fns(func(f *ssa.Function) bool {
		if pkgOf(f) != "unitdb" {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if takes(in) {
					return true
				}
			}
		}
		return false
	}) {
		fn := fn
		gk := (*codec)(nil)
		type use struct {
			what string
			v    *Val
			at   string
		}
		var uses []use
		h := &Hooks{Interesting: anyOf(takes, fromMem), MaxDepth: 3, Call: func(c *CallCtx) {
			switch c.Name {
			case "unitdb._Entry.UnmarshalBinary", "message.Topic.Unmarshal":
				c.Opaque()
				uses = append(uses, use{c.Name, c.Args[len(c.Args)-1], c.Pos()})
			case "memdb.DB.Get", "memdb.DB.Lookup":
				c.Opaque()
				c.ForkErr(nil, nil)
			case "github.com/unit-io/bpool.Buffer.Slice":
				c.Opaque()
				c.SetResult(c.E.tuple([]*Val{c.E.pair("buf", c.Args[0], c.Args[1], c.Args[2]), c.ErrRes()}))
				c.ForkErr(nil, nil)
			default:
				if c.Callee != nil && c.Callee.Parent() == nil && c.Callee != fn {
					c.Opaque()
				}
			}
		}, Store: func(c *Ctx, addr, v *Val) {
			if addr.op == OFAddr && addr.fld == icache && v != nil {
				uses = append(uses, use{"cache", v, c.Pos()})
			}
		}}
		gk = r.layoutOf(fn, false, h)
		for _, u := range uses {
			v := u.v
			for v.op == OSlice || v.op == OConv {
				v = v.args[0]
			}
			if v.op == OParam || v.op == ONil || isBuf(v) || v.op == OLoad && v.args[0].op != OFAddr {
				continue
			}
			call := v
			if call.op == OExt {
				call = call.args[0]
			}
			switch u.what {
			case "unitdb._Entry.UnmarshalBinary":
				e := extOf(gk, u.v, 0)
				r.Count("pieces of entries", 1)
				if !e.start.ok || e.start.c != 0 || e.start.t != 0 || !e.open && (e.end.c < hdr || e.end.t+e.end.v != 0) {
					r.Violate("c07:packed:header", u.at, "the header of an entry is not read from the start of the entry")
				}
			case "cache":
				if !strings.Contains(call.aux, "memdb.") {
					continue
				}
				e := extOf(gk, u.v, 0)
				r.Count("pieces of entries", 1)
				if !e.start.ok || e.start.c != body || e.start.t != 0 || e.start.v != 0 || !e.open {
					r.Violate("c07:packed:cache", u.at, "what is kept of an entry for the data file does not begin behind its header")
				}
			case "message.Topic.Unmarshal":
				if call.op == OCall && !strings.Contains(call.aux, "memdb.") {
					continue // read with readTopic
				}
				r.Count("pieces of entries", 1)
				if !isTopic(extOf(gk, u.v, 0)) {
					r.Violate("c07:packed:topic", u.at, "a topic is not decoded from where it is packed into the entry")
				}
			}
		}
	}
	r.indexEntries()
}

func (k *codec) lenAtom(x *Val) *Val {
	for v := range k.alias {
		if v.op == OLen && v.args[0] == x {
			return v
		}
	}
	return nil
}

// fileBase: the offset of the message a piece of the data file belongs to.
func (r *Run) fileBase(k *codec, v *Val, msgOff *types.Var) (lin, bool) {
	l := k.lin(v.args[1])
	for a, n := range l.atoms {
		x := a
		for x.op == ONeg {
			x = x.args[0]
		}
		if n == 1 && isFieldVal(x, msgOff) {
			return lin{atoms: map[*Val]int64{a: 1}}, true
		}
	}
	return lin{}, false
}

// indexEntries: an index entry made from an entry has the sizes of that entry.
func (r *Run) indexEntries() {
	cache := r.Field("unitdb", "_IndexEntry", "cache")
	want := []string{"seq", "topicSize", "valueSize"}
	for _, fn := range r.P.fns(func(f *ssa.Function) bool { return pkgOf(f) == "unitdb" }) {
		made := map[ssa.Value]map[string]bool{}
		has := map[ssa.Value]ssa.Instruction{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !r.ownedBy(faField(fa), "unitdb", "_IndexEntry") {
					continue
				}
				f := faField(fa)
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					continue
				}
				if made[fa.X] == nil {
					made[fa.X] = map[string]bool{}
				}
				made[fa.X][f.Name()] = true
				if f == cache {
					has[fa.X] = in
				}
				src := ssaSourceField(st.Val)
				if src != nil && r.ownedBy(src, "unitdb", "_Entry") {
					r.Count("fields of index entries", 1)
					if src.Name() != f.Name() {
						r.Violate("c07:index-entry:"+f.Name(), r.P.instrPos(in), "%s of an index entry is set to %s of the entry", f.Name(), src.Name())
					}
				}
			}
		}
		for a, in := range has {
			for _, n := range want {
				if !made[a][n] {
					r.Violate("c07:index-entry:missing:"+n, r.P.instrPos(in), "an index entry is made from an entry without its %s", n)
				}
			}
		}
	}
}

func (r *Run) ownedBy(f *types.Var, pkg, typ string) bool {
	return f != nil && r.P.field(pkg, typ, f.Name()) == f
}

// ssaSourceField is the field a value is loaded from.
func ssaSourceField(v ssa.Value) *types.Var {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return faField(fa)
			}
		case *ssa.Field:
			return ssaField(x)
		}
		return nil
	}
}

func faField(fa *ssa.FieldAddr) *types.Var { return structOf(fa.X.Type()).Field(fa.Field) }

// idLayout: the parts of a message ID.
func (r *Run) idLayout() {
	nid, setc, seq, pre, eval := r.Fn("message.NewID"), r.Fn("message.ID.SetContract"), r.Fn("message.ID.Sequence"), r.Fn("message.ID.Prefix"), r.Fn("message.ID.EvalPrefix")
	tm := r.Fn("uid.Time")
	if nid == nil || setc == nil || seq == nil || pre == nil || eval == nil || tm == nil {
		return
	}
	where := func(f *ssa.Function) string { return r.P.pos(f.Pos()) }
	k := r.layoutOf(nid, false, &Hooks{Call: func(c *CallCtx) {
		if c.Name == "uid.NewApoch" {
			c.Opaque()
			c.SetResult(c.E.pair("epoch"))
		}
	}})
	var contractAt, seqAt, epochAt = access{}, access{}, access{}
	off := func(k *codec, a access) int64 {
		if a.v == nil {
			return -1
		}
		if o, ok := k.positions(a); ok && len(o) == 1 {
			return o[0]
		}
		return -1
	}
	used := map[int64]bool{}
	for _, a := range k.list {
		o := off(k, a)
		for i := o; i < o+a.width; i++ {
			if used[i] {
				r.Violate("c07:id:overlap", a.at, "parts of a message ID overlap")
			}
			used[i] = true
		}
		switch v := stripConv(a.val); {
		case v.op == OParam:
			seqAt = a
		case findPair(v, "epoch") != nil:
			epochAt = a
		default:
			contractAt = a
		}
	}
	if seqAt.width != 8 || epochAt.width != 4 || contractAt.width != 4 {
		r.Violate("c07:id:parts", where(nid), "a new message ID does not have time, contract and whole sequence number")
		return
	}
	r.Count("parts of a message ID", 3)
	sk := r.layoutOf(setc, false, nil)
	n := 0
	for _, a := range sk.list {
		if v := stripConv(a.val); v.op == OParam {
			n++
			if off(sk, a) != off(k, contractAt) || a.width != contractAt.width || a.order != contractAt.order {
				r.Violate("c07:id:contract", a.at, "SetContract does not write the contract where NewID does")
			}
		}
	}
	if n == 0 {
		r.Violate("c07:id:contract", where(setc), "SetContract does not write the contract")
	}
	qk := r.layoutOf(seq, false, nil)
	n = 0
	for _, x := range qk.res {
		as := readAtoms(x)
		for _, a := range as {
			v, w, o := readOf(a)
			_, l := qk.pos(v, 0)
			c, ok := l.only()
			n++
			if !ok || c != off(k, seqAt) || w != 8 || o != seqAt.order {
				r.Violate("c07:id:sequence", where(seq), "Sequence does not read the sequence number NewID wrote")
			}
		}
	}
	if n != 1 {
		r.Violate("c07:id:sequence", where(seq), "Sequence does not return the sequence number of the ID")
	}
	// the prefix has time and contract
	var pres []frameWrite
	pk := r.layoutOf(pre, false, &Hooks{Call: func(c *CallCtx) {
		if c.Name == "builtin.copy" {
			pres = append(pres, frameWrite{c.Args[1], c.Args[0], c.Pos(), nil})
		}
	}})
	for _, cp := range pres {
		_, d := pk.pos(cp.pos, 0)
		_, s := pk.pos(cp.x, 0)
		end, ok := pk.endOf(cp.x, 0)
		e, ok2 := end.only()
		dc, ok3 := d.only()
		sc, ok4 := s.only()
		r.Count("prefixes", 1)
		if !ok3 || !ok4 || dc != sc || ok && ok2 && (e < off(k, contractAt)+4 || e < off(k, epochAt)+4) || sc > off(k, epochAt) || sc > off(k, contractAt) {
			r.Violate("c07:id:prefix", cp.at, "the prefix of a message ID does not have its time and contract at their places")
		}
	}
	// what queries compare
	var times []*Val
	ek := r.layoutOf(eval, false, &Hooks{Call: func(c *CallCtx) {
		if c.Name == "uid.Time" {
			c.Opaque()
			times = append(times, c.Args[0])
		}
	}})
	n = 0
	for _, a := range ek.reads {
		_, l := ek.pos(a.v, 0)
		c, ok := l.only()
		n++
		if !ok || c != off(k, contractAt) || a.width != contractAt.width || a.order != contractAt.order {
			r.Violate("c07:id:eval", a.at, "the contract a query compares is not where it is in the ID")
		}
	}
	if n == 0 {
		r.Violate("c07:id:eval", where(eval), "EvalPrefix does not read the contract of the ID")
	}
	for _, x := range times {
		_, l := ek.pos(x, 0)
		if c, ok := l.only(); !ok || c != off(k, epochAt) {
			r.Violate("c07:id:time", where(eval), "the time a query compares is not where it is in the ID")
		}
	}
	tk := r.layoutOf(tm, false, nil)
	for _, a := range tk.reads {
		_, l := tk.pos(a.v, 0)
		if c, ok := l.only(); !ok || c != 0 || a.width != epochAt.width || a.order != epochAt.order {
			r.Violate("c07:id:time", a.at, "the time of a message ID is not read as it is written")
		}
	}
}
