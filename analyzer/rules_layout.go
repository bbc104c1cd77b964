package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = checkC07
}

type codecPair struct {
	enc, dec string
	keep     []string // fields that must be kept
	key      string
}

func checkC07(r *Run) {
	r.Rule("for every pair of functions that encode and decode a record: the layouts extracted from both, with loops summarised by their induction variables, agree on position, width and byte order of every field; what is decoded into a field is the inverse of what was encoded from it; no two fields overlap, none lies outside the buffer, no value is cut, and every field that must survive is in the layout")
	r.Rule("records with a length in front (memory block, log, batch): the function that writes a record puts length, fields and payload into disjoint parts of the room set apart; every reader cuts the payload from where it was written to where the record ends, reads every field with the position, width and byte order it was written with, and goes on at the end of the record; recovery keeps entries under their key and only when not marked as deleted")
	r.Rule("a packed entry is header, ID prefix, encryption flag, topic and value at disjoint positions; every piece cut from an entry (header, cache, topic, ID, value, flag) begins and ends at the boundaries the packing function used; the parts of a message ID are written and read at the same places")
	pairs := []codecPair{
		{"unitdb._Entry.MarshalBinary", "unitdb._Entry.UnmarshalBinary", []string{"seq", "topicSize", "valueSize", "expiresAt", "topicHash"}, "entry"},
		{"unitdb._DBInfo.MarshalBinary", "unitdb._DBInfo.UnmarshalBinary", []string{"signature", "version", "encryption", "sequence", "count"}, "header"},
		{"unitdb._IndexBlock.marshalBinary", "unitdb._IndexBlock.unmarshalBinary", []string{"seq", "topicSize", "valueSize", "msgOffset", "entryIdx"}, "index block"},
		{"unitdb._WinBlock.marshalBinary", "unitdb._WinBlock.unmarshalBinary", []string{"sequence", "expiresAt", "cutoffTime", "topicHash", "next", "entryIdx"}, "window block"},
		{"unitdb._FreeBlocks.MarshalBinary", "unitdb._Lease.read", []string{"offset", "size"}, "free list"},
		{"wal._LogInfo.MarshalBinary", "wal._LogInfo.UnmarshalBinary", []string{"version", "timeID", "count", "size"}, "log header"},
		{"message.Topic.Marshal", "message.Topic.Unmarshal", []string{"Depth", "Hash", "Wildchars"}, "topic"},
	}
	for _, p := range pairs {
		enc, dec := r.Fn(p.enc), r.Fn(p.dec)
		if enc == nil || dec == nil {
			continue
		}
		x := &Hooks{}
		if p.key == "free list" {
			x.Interesting = func(in ssa.Instruction) bool {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := staticName(ci.Common())
					return strings.HasPrefix(n, "encoding/binary.") || strings.HasSuffix(n, "ReadAt") || strings.HasPrefix(n, "builtin.")
				}
				return isBuiltin("append", nil)(in)
			}
		}
		k := r.layoutOf(enc, false, nil)
		d := r.layoutDec(dec, x)
		r.compareLayouts(p, k, d)
	}
	r.Need("fields compared", 8)
	r.frames()
	r.idLayout()
}

// layoutDec extracts a decoder; buffers it reads from a file have the position they were read from.
func (r *Run) layoutDec(f *ssa.Function, x *Hooks) *codec {
	var k *codec
	base := map[*Val]int64{}
	call := x.Call
	x.Call = func(c *CallCtx) {
		switch {
		case strings.HasSuffix(c.Name, ".ReadAt") || c.Common.IsInvoke() && c.Common.Method.Name() == "ReadAt":
			n := len(c.Args)
			if off, ok := c.Args[n-1].constInt(); ok {
				v := c.Args[n-2]
				for v.op == OSlice {
					v = v.args[0]
				}
				base[v] = off
			}
			c.Opaque()
			c.ForkErr(nil, nil)
		case c.Name == "unitdb._Lease.freeBlock":
			c.Opaque()
		}
		if call != nil {
			call(c)
		}
	}
	k = r.layoutOf(f, true, x)
	for v, o := range base {
		k.base[v] = o
	}
	return k
}

type encAlt struct {
	a access
	l lin
}
type encPlace struct {
	off   int64
	width int64
	order string
	alts  []encAlt
}

func (r *Run) compareLayouts(p codecPair, enc, dec *codec) {
	key := "c07:" + p.key
	where := func(c *codec) string { return r.P.pos(r.Fn(c.name).Pos()) }
	if enc.e == nil || dec.e == nil {
		r.Violate(key+":none", "", "no layout was found in %s or %s", p.enc, p.dec)
		return
	}
	places := map[int64]*encPlace{}
	var roots = map[*Val]bool{}
	returned := map[*Val]bool{}
	for _, x := range enc.res {
		root, _ := enc.pos(x, 0)
		returned[root] = true
	}
	for _, a := range enc.list {
		root, _ := enc.pos(a.v, 0)
		if root != nil && root.op == OAlloc && !returned[root] {
			continue // a scratch buffer
		}
		offs, ok := enc.positions(a)
		if !ok {
			r.Violate(key+":position", a.at, "the position of a field written by %s is not fixed", p.enc)
			return
		}
		roots[root] = true
		for _, o := range offs {
			pl := places[o]
			if pl == nil {
				pl = &encPlace{off: o, width: a.width, order: a.order}
				places[o] = pl
			}
			if pl.width != a.width || pl.order != a.order {
				r.Violate(key+":overlap", a.at, "%s writes fields of different form to position %d", p.enc, o)
				return
			}
			pl.alts = append(pl.alts, encAlt{a, enc.lin(a.val)})
		}
	}
	if len(roots) != 1 {
		r.Violate(key+":buffers", where(enc), "%s does not write its fields to one buffer", p.enc)
		return
	}
	// no overlap, inside of the buffer
	var offs []int64
	for o := range places {
		offs = append(offs, o)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	for i, o := range offs {
		if i+1 < len(offs) && o+places[o].width > offs[i+1] {
			r.Violate(key+":overlap", places[o].alts[0].a.at, "%s writes overlapping fields at %d and %d", p.enc, o, offs[i+1])
		}
	}
	for root := range roots {
		if root != nil && root.op == OAlloc && len(offs) > 0 {
			last := places[offs[len(offs)-1]]
			if p, ok := typOr(root).Underlying().(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok && last.off+last.width > at.Len() {
					r.Violate(key+":outside", last.alts[0].a.at, "%s writes a field outside of its buffer of %d bytes", enc.name, at.Len())
				}
			}
		}
		if root != nil && root.op == OMake && len(root.args) > 0 && len(offs) > 0 {
			last := places[offs[len(offs)-1]]
			if sz, ok := enc.spread(enc.lin(root.args[0]), nil); ok && len(sz) == 1 && enc.isConstLin(root.args[0]) && last.off+last.width > sz[0] {
				r.Violate(key+":outside", last.alts[0].a.at, "%s writes a field outside of its buffer of %d bytes", p.enc, sz[0])
			}
		}
		for _, x := range enc.res {
			if rt, l := enc.pos(x, 0); rt == root {
				if c, ok := l.only(); !ok || c != 0 {
					r.Violate(key+":returned", where(enc), "%s does not return the record from its start", p.enc)
				}
			} else {
				r.Violate(key+":returned", where(enc), "%s does not return the record it wrote", p.enc)
			}
		}
	}
	// decoder
	decoded := map[*types.Var]bool{}
	placeOf := func(at *Val, a access) ([]int64, int64, string, bool) {
		v, w, o := readOf(at)
		if v.op == OComp && strings.HasPrefix(v.aux, "pair:rd:") { // a copy
			v, w, o = readOf(v)
		}
		_, l := dec.pos(v, 0)
		offs, ok := dec.spread(l, a.heads)
		return offs, w, o, ok
	}
	type want struct {
		pl *encPlace
		f  *types.Var
	}
	got := map[want][]access{}
	atomOf := map[string]*Val{}
	for _, a := range dec.list {
		as := readAtoms(a.val)
		primary := false
		var seenAt []string
		for _, at := range as {
			offs, w, o, ok := placeOf(at, a)
			if !ok {
				r.Violate(key+":read-position", a.at, "the position from which %s reads %s is not fixed", p.dec, a.role.Name())
				continue
			}
			okAll := true
			holds := true
			for _, off := range offs {
				pl := places[off]
				if pl == nil || pl.width != w || pl.order != o {
					okAll = false
					seenAt = append(seenAt, fmt.Sprint(off))
					break
				}
				has := false
				for _, e := range pl.alts {
					has = has || enc.hasField(e.l, a.role)
				}
				holds = holds && has
			}
			if !okAll {
				r.Violate(key+":moved", a.at, "%s reads %s from a position, width or byte order with which nothing is written there by %s (position %s)", p.dec, a.role.Name(), p.enc, strings.Join(seenAt, " "))
				return
			}
			if holds {
				primary = true
				for _, off := range offs {
					got[want{places[off], a.role}] = append(got[want{places[off], a.role}], a)
					atomOf[fmt.Sprint(off, a.role, a.val.id)] = at
				}
			}
		}
		if primary {
			decoded[a.role] = true
			r.Count("fields compared", 1)
		} else if !dec.helper(a) {
			r.Violate(key+":mixed-up", a.at, "%s reads %s from where %s writes another field", p.dec, a.role.Name(), p.enc)
		}
	}
	// the inverse
	reported := map[string]bool{}
	fail := func(k, at, f string, as ...any) {
		if !reported[k] {
			reported[k] = true
			r.Violate(k, at, f, as...)
		}
	}
	encOff := func(v *Val) (int64, bool) { // where v is written as it is
		for _, o := range offs {
			for _, e := range places[o].alts {
				if stripConv(e.a.val) == v {
					return o, true
				}
			}
		}
		return 0, false
	}
	alone := map[*encPlace]*types.Var{} // places read into a field of their own
	for w, das := range got {
		for _, d := range das {
			if len(dec.lin(d.val).atoms) == 1 {
				alone[w.pl] = w.f
			}
		}
	}
	for w, das := range got {
		if f := alone[w.pl]; f != nil && f != w.f {
			continue // used to decode another field
		}
		var konst []int64
		nEnc := 0
		for _, e := range w.pl.alts {
			if c, ok := e.l.only(); ok {
				konst = append(konst, c)
				if !enc.guarded(e.a, func(v *Val) bool { return enc.isRole(v, w.f) }, c, true) {
					fail(key+":constant", e.a.at, "%s writes %d for %s whatever it is", p.enc, c, w.f.Name())
				}
				continue
			}
			nEnc++
			ok := false
			for _, d := range das {
				at := atomOf[fmt.Sprint(w.pl.off, w.f, d.val.id)]
				dl := dec.lin(d.val)
				if dl.bad || e.l.bad || dl.atoms[at] != 1 {
					continue
				}
				rest := map[int64]int64{}
				bad := false
				for a, n := range dl.atoms {
					if a == at {
						continue
					}
					if as := readAtoms(a); len(as) == 1 && as[0] == a {
						if o, _, _, ok := placeOf(a, d); ok && len(o) == 1 {
							rest[o[0]] += n
							continue
						}
					}
					bad = true
				}
				if bad {
					continue
				}
				for a, n := range e.l.atoms {
					if n != 1 || !enc.isRole(a, w.f) {
						continue
					}
					er := map[int64]int64{}
					eb := false
					for b, m := range e.l.atoms {
						if b == a {
							continue
						}
						if o, ok := encOff(b); ok {
							er[o] += m
						} else {
							eb = true
						}
					}
					if eb || len(er) != len(rest) || e.l.c+dl.c != 0 {
						continue
					}
					same := true
					for o, m := range er {
						same = same && rest[o] == -m
					}
					if !same {
						continue
					}
					if !enc.sameIndex(dec, a, e.a, d) {
						continue
					}
					ok = true
				}
				if ok && len(e.l.atoms) == 1 {
					if n := enc.lossy(e.a.val, w.f, w.pl.width); n != "" {
						fail(key+":cut", e.a.at, "%s cuts %s: %s", p.enc, w.f.Name(), n)
					}
					if n := dec.lossy(d.val, w.f, 8); n != "" {
						fail(key+":cut-read", d.at, "%s cuts %s: %s", p.dec, w.f.Name(), n)
					}
				}
				if ok && len(konst) > 0 && len(e.l.atoms) > 1 {
					for _, c := range konst {
						if !dec.guarded(d, func(v *Val) bool { return stripConv(v) == at }, c, false) {
							ok = false
						}
					}
				}
				if ok {
					break
				}
			}
			if !ok {
				fail(key+":not-inverse", das[0].at, "what %s reads into %s is not what %s wrote of it", p.dec, w.f.Name(), p.enc)
			}
		}
		for _, c := range konst {
			ok := false
			for _, d := range das {
				dl := dec.lin(d.val)
				at := atomOf[fmt.Sprint(w.pl.off, w.f, d.val.id)]
				ok = ok || len(dl.atoms) == 1 && dl.atoms[at] == 1 && dl.c == 0 && (nEnc == 0 || enc.plainAlt(w.pl) || dec.guarded(d, func(v *Val) bool { return stripConv(v) == at }, c, true))
			}
			for _, d := range dec.zeroed(w.f) {
				ok = ok || dec.guarded(d, func(v *Val) bool { return len(readAtoms(v)) > 0 }, c, true)
			}
			if !ok {
				fail(key+":constant-lost", das[0].at, "%s writes %d for %s, %s does not read it back", p.enc, c, w.f.Name(), p.dec)
			}
		}
	}
	for _, n := range p.keep {
		found := false
		for f := range decoded {
			found = found || f.Name() == n
		}
		if !found {
			r.Violate(key+":lost:"+n, where(dec), "%s is not written by %s and read by %s any more", n, p.enc, p.dec)
		}
	}
	r.repeats(p, enc, dec, places, placeOf)
}

// repeats: where the number of elements is itself in the record, the decoder reads as many as were written.
func (r *Run) repeats(p codecPair, enc, dec *codec, places map[int64]*encPlace, placeOf func(*Val, access) ([]int64, int64, string, bool)) {
	for _, n := range dec.trips {
		l := dec.lin(n)
		if _, ok := l.only(); ok {
			continue
		}
		as := readAtoms(n)
		if len(as) != 1 {
			continue
		}
		offs, _, _, ok := placeOf(as[0], access{})
		if !ok || len(offs) != 1 {
			continue
		}
		pl := places[offs[0]]
		if pl == nil {
			r.Violate("c07:"+p.key+":count", "", "%s reads the number of elements from where none is written", p.dec)
			continue
		}
		r.Count("element counts", 1)
		for _, m := range enc.trips {
			el := enc.lin(m)
			if _, ok := el.only(); ok {
				continue
			}
			for _, e := range pl.alts {
				d := enc.lin(e.a.val)
				if d.bad || len(d.atoms) != 1 {
					continue
				}
				if p.key == "topic" {
					continue // depth and number of parts are kept apart
				}
				d.add(el, -1)
				if c, ok := d.only(); !ok || c != 0 || l.c != 0 {
					r.Violate("c07:"+p.key+":count", e.a.at, "the number of elements written by %s is not the number read by %s", p.enc, p.dec)
				}
			}
		}
	}
}

func (k *codec) isConstLin(v *Val) bool {
	_, ok := k.lin(v).only()
	return ok
}

// isRole: v is the field, or a value the field was set to before it was written.
func (k *codec) isRole(v *Val, f *types.Var) bool {
	v = stripConv(v)
	if isFieldVal(v, f) {
		return true
	}
	if fieldBytes(v) == f {
		return true
	}
	if v.op == OLen || v.op == OSlice {
		return false
	}
	for _, x := range k.alias[v] {
		if x == f {
			return true
		}
	}
	return false
}

func (k *codec) hasField(l lin, f *types.Var) bool {
	for a := range l.atoms {
		if k.isRole(a, f) {
			return true
		}
	}
	return len(l.atoms) == 0 && !l.bad
}

// guarded: the access happens only where the value is (or is not) c.
func (k *codec) guarded(a access, is func(*Val) bool, c int64, eq bool) bool {
	kind := "pair:ne"
	if eq {
		kind = "pair:eq"
	}
	for _, g := range a.guards {
		if g.aux != kind {
			continue
		}
		x, y := g.args[0], g.args[1]
		if isInt(c)(x) {
			x, y = y, x
		}
		if isInt(c)(y) && is(x) {
			return true
		}
	}
	return false
}

// helper: a field that is only kept to decode others is decoded from its own place.
func (k *codec) helper(a access) bool { return false }

// zeroed: stores of constants to the field.
func (k *codec) zeroed(f *types.Var) []access { return k.consts[f] }

// plainAlt: the place is also written as it is.
func (k *codec) plainAlt(p *encPlace) bool {
	for _, e := range p.alts {
		if len(e.l.atoms) == 1 && e.l.c == 0 {
			return true
		}
	}
	return false
}

// sameIndex: elements of arrays are read back to the index they were written from.
func (k *codec) sameIndex(d *codec, atom *Val, ea access, da access) bool {
	ei, di := indexOf(atom), da.index
	if ei == nil || di == nil {
		return true
	}
	x, ok := k.spread(k.lin(ei), ea.heads)
	y, ok2 := d.spread(d.lin(di), da.heads)
	if !ok || !ok2 || len(x) != len(y) {
		return !ok || !ok2
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func indexOf(v *Val) *Val {
	var ix *Val
	v.contains(func(x *Val) bool {
		if ix == nil && (x.op == OIAddr || x.op == OElem && len(x.args) > 1) {
			ix = x.args[1]
		}
		return false
	})
	return ix
}

var sizes = types.SizesFor("gc", "amd64")

// lossy says where a value is cut on its way.
func (k *codec) lossy(v *Val, f *types.Var, width int64) string {
	switch f.Type().Underlying().(type) {
	case *types.Basic:
	case *types.Array:
		if n := sizes.Sizeof(f.Type()); n > width && width != 8 {
			return fmt.Sprintf("%d of %d bytes", width, n)
		}
		return ""
	default:
		return ""
	}
	size := sizes.Sizeof(f.Type())
	if width < size {
		return fmt.Sprintf("%d of %d bytes", width, size)
	}
	for x := v; x != nil && x.op == OConv; x = x.args[0] {
		if b, ok := typOr(x).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n := sizes.Sizeof(b); n < size {
				return fmt.Sprintf("converted to %s", b)
			}
		}
	}
	return ""
}
