package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S11"] = checkS11
}

const macPkg = "server/internal/pkg/crypto"

// codes: client IDs and topic keys as bytes and text.
type codes struct {
	r               *Run
	none, master    int64
	idLen, keyLen   int // bytes
	idText, keyText int // characters
	fns             map[*ssa.Function]bool
}

func checkS11(r *Run) {
	r.Rule("in the domain of bit provenance, what a getter of a client ID or key reads is bit by bit what its setter wrote, and no setter changes what another getter reads")
	r.Rule("what decoding makes of the text that encoding makes of a client ID or a key is bit by bit that ID or key: the alphabet, the table for decoding, the shifts, the mask, the encryption and its nonce all undo each other")
	r.Rule("a text of another length than the encoder makes, or whose bytes were not made by the encryption, is rejected with an error, and never read past its end")
	r.Rule("a generated key has the permissions and target it was generated with; a new ID is primary; a secondary or known ID is not, has no permissions and has the contract it is made for")
	r.Rule("an ID becomes known only if it was decoded and is not primary, under its own complete text, with its own contract; and is looked up by the complete text given")
	r.Rule("MAC.Decrypt returns data only after Open succeeded and never writes to its input")
	k := &codes{r: r, fns: map[*ssa.Function]bool{}}
	con := func(pkg, n string) int64 {
		v, ok := r.P.pkgConst(pkg, n)
		if !ok {
			r.Violate("anchor:"+pkg+"."+n, "", "constant %s.%s not found", pkg, n)
		}
		return v
	}
	k.none, k.master = con(uidPkg, "AllowNone"), con(uidPkg, "AllowMaster")
	k.idLen, k.keyLen = int(con(uidPkg, "rawLen")), int(con(secPkg, "rawLen"))
	if k.idLen <= 0 || k.keyLen <= 0 || k.idLen > 256 || k.keyLen > 256 {
		return
	}
	k.fields(uidPkg+".ID", k.idLen, [][2]string{{"SetEpoch", "Epoch"}, {"SetPrimary", "Primary"}, {"SetPermissions", "Permissions"}, {"SetContract", "Contract"}})
	k.fields(secPkg+".Key", k.keyLen, [][2]string{{"SetPermissions", "Permissions"}})
	k.keys()
	k.ids()
	k.target()
	k.known()
	r.macRules(macPkg)
	r.Count("functions evaluated", len(k.fns))
	r.Need("functions evaluated", 10)
}

// eval evaluates body on all combinations of undecided conditions and judges each.
func (k *codes) eval(body func(l *linear) []lv, judge func(x lresult)) {
	for _, x := range k.r.P.linearRun(body) {
		k.r.Count("paths evaluated", 1)
		if x.prog != nil {
			for f := range x.prog.seen {
				k.fns[f] = true
			}
		}
		judge(x)
	}
}

// same: the low bits of a are those of b and the others zero.
func sameBits(a lv, b lv, bits int) bool {
	x, ok1 := a.(*lnum)
	y, ok2 := b.(*lnum)
	if !ok1 || !ok2 {
		return false
	}
	for i := range x.b {
		if i < bits && (x.b[i].top || x.b[i] != y.b[i]) || i >= bits && !x.b[i].zero() {
			return false
		}
	}
	return true
}

func isErr(res []lv) (state int) {
	if len(res) == 0 {
		return 0
	}
	e, ok := res[len(res)-1].(*lerr)
	if !ok {
		return 0
	}
	return e.state
}

func (k *codes) pos(f *ssa.Function) string { return k.r.P.pos(f.Pos()) }

// fields: setters and getters.
func (k *codes) fields(typ string, n int, pairs [][2]string) {
	r := k.r
	for _, pr := range pairs {
		set, get := r.Fn(typ+"."+pr[0]), r.Fn(typ+"."+pr[1])
		if set == nil || get == nil {
			continue
		}
		bits, _ := basicBits(set.Params[1].Type())
		if strings.Contains(pr[0], "Permissions") {
			bits = 8 // all there are
		}
		var others []*ssa.Function
		for _, o := range pairs {
			if o != pr {
				if f := r.Fn(typ + "." + o[1]); f != nil {
					others = append(others, f)
				}
			}
		}
		var val lv
		var before, after []lv
		k.eval(func(l *linear) []lv {
			id := l.bytes(n)
			val = l.unknown(set.Params[1].Type())
			before, after = nil, nil
			for _, o := range others {
				before = append(before, l.run(o, []lv{id}, nil, 0)[0])
			}
			l.run(set, []lv{id, val}, nil, 0)
			res := l.run(get, []lv{id}, nil, 0)
			for _, o := range others {
				after = append(after, l.run(o, []lv{id}, nil, 0)[0])
			}
			return res
		}, func(x lresult) {
			r.Count("fields", 1)
			if x.bad != "" {
				r.Violate("s11:field:"+typ+"."+pr[1], k.pos(set), "%s and %s: %s", pr[0], pr[1], x.bad)
				return
			}
			if !sameBits(x.res[0], val, bits) {
				r.Violate("s11:field:"+typ+"."+pr[1], k.pos(get), "%s.%s does not read what %s wrote", typ, pr[1], pr[0])
			}
			for i := range others {
				if !sameBits(after[i], before[i], 64) {
					r.Violate("s11:field-overlap:"+typ+"."+pr[0], k.pos(set), "%s.%s changes what %s reads", typ, pr[0], others[i].Name())
				}
			}
		})
	}
	r.Need("fields", len(pairs))
}

func (k *codes) text(v lv) ([]lv, bool) {
	s, ok := v.(*lstr)
	if !ok {
		return nil, false
	}
	return s.cells, true
}

// keys: topic keys.
func (k *codes) keys() {
	r := k.r
	enc, dec, gen, perms := r.Fn(secPkg+".Key.Encode"), r.Fn(secPkg+".DecodeKey"), r.Fn(secPkg+".GenerateKey"), r.Fn(secPkg+".Key.Permissions")
	if enc == nil || dec == nil || gen == nil || perms == nil {
		return
	}
	var in []lv
	k.eval(func(l *linear) []lv {
		key := l.bytes(k.keyLen)
		in = append([]lv{}, key.cells()...)
		t := l.run(enc, []lv{key}, nil, 0)
		if c, ok := k.text(t[0]); ok {
			k.keyText = len(c)
		}
		return l.run(dec, t, nil, 0)
	}, func(x lresult) {
		r.Count("keys decoded", 1)
		k.roundTrip(dec, "key", x, in)
	})
	// generated
	var want []lv
	k.eval(func(l *linear) []lv {
		want = nil
		l.calls = func(l *linear, name string, ci ssa.CallInstruction, args []lv) (lv, bool) {
			if name != secPkg+".Key.SetTarget" {
				return nil, false
			}
			s, ok := args[0].(*lslice)
			if !ok || s.n < 8 {
				return nil, false
			}
			if args[1] != lv(l.marks[0]) || args[2] != lv(l.marks[1]) {
				return &lerr{2}, true // for something else
			}
			want = nil
			for i := 1; i < 8; i++ {
				s.o.cells[s.off+i] = l.fresh(8)
				want = append(want, s.o.cells[s.off+i])
			}
			e := &lerr{}
			if !l.decide(e) {
				return &lerr{2}, true
			}
			return &lerr{1}, true
		}
		contract, topic, perm := l.unknown(gen.Params[0].Type()), lv(&lopaque{}), l.unknown(gen.Params[2].Type())
		l.marks = []interface{}{contract, topic}
		res := l.run(gen, []lv{contract, topic, perm}, nil, 0)
		if isErr(res) != 1 {
			return []lv{&lbool{}, res[1]}
		}
		key := l.run(dec, res[:1], nil, 0)
		if isErr(key) != 1 {
			l.stop("does not decode")
		}
		return []lv{&lbool{}, res[1], key[0], perm, l.run(perms, key[:1], nil, 0)[0]}
	}, func(x lresult) {
		if x.bad != "" {
			r.Violate("s11:generated", k.pos(gen), "a generated key: %s", x.bad)
			return
		}
		if isErr(x.res[:2]) != 1 {
			r.Count("keys not generated", 1)
			return
		}
		r.Count("keys generated", 1)
		if !sameBits(x.res[4], x.res[3], 8) {
			r.Violate("s11:generated-permissions", k.pos(gen), "a generated key does not have the permissions it is generated with")
		}
		s, ok := x.res[2].(*lslice)
		if !ok || s.n < 8 || len(want) != 7 || !lsameAll(s.cells()[1:8], want) {
			r.Violate("s11:generated-target", k.pos(gen), "a generated key does not have the target it is generated for")
		}
	})
	r.Need("keys decoded", 1)
	r.Need("keys generated", 1)
	k.lengths(dec, k.keyText, true, func(l *linear, n int) []lv { return []lv{&lstr{l.bytes(n).cells()}} })
}

func (k *codes) roundTrip(dec *ssa.Function, what string, x lresult, in []lv) {
	r := k.r
	switch {
	case x.bad != "":
		r.Violate("s11:round-trip:"+what, k.pos(dec), "encoding and decoding of a %s: %s", what, x.bad)
	case isErr(x.res) != 1:
		r.Violate("s11:round-trip:"+what, k.pos(dec), "an encoded %s can be rejected", what)
	default:
		s, ok := x.res[0].(*lslice)
		if !ok || s.n != len(in) {
			r.Violate("s11:round-trip:"+what, k.pos(dec), "an encoded %s decodes to another number of bytes", what)
			return
		}
		for i := range in {
			if !sameBits(s.cells()[i], in[i], 8) {
				r.Violate(fmt.Sprintf("s11:round-trip:%s:%d", what, i), k.pos(dec), "byte %d of an encoded %s does not decode to what it was", i, what)
			}
		}
	}
}

// lengths: texts of other lengths, and with bytes of unknown origin.
func (k *codes) lengths(dec *ssa.Function, chars int, exact bool, args func(l *linear, n int) []lv) {
	r := k.r
	if chars == 0 {
		r.Violate("s11:text:"+fname(dec), k.pos(dec), "the length of the text %s takes is not known", fname(dec))
		return
	}
	for _, n := range lengthsTo(chars) {
		n := n
		k.eval(func(l *linear) []lv { return l.run(dec, args(l, n), nil, 0) }, func(x lresult) {
			r.Count("lengths", 1)
			if x.bad != "" {
				r.Violate("s11:length:"+fname(dec), k.pos(dec), "%s given a text of %d characters: %s", fname(dec), n, x.bad)
			} else if isErr(x.res) != 2 && (n < chars || exact && n > chars) {
				r.Violate("s11:length:"+fname(dec), k.pos(dec), "%s takes a text of %d characters", fname(dec), n)
			} else if isErr(x.res) != 2 && !exact {
				r.Violate("s11:not-authentic:"+fname(dec), k.pos(dec), "%s takes a text that was not made by the encryption", fname(dec))
			}
		})
	}
}

func lengthsTo(n int) (out []int) {
	for i := 0; i <= n+16; i++ {
		out = append(out, i)
	}
	return append(out, 127, 128, 255, 256, 1024)
}

// ids: client IDs.
func (k *codes) ids() {
	r := k.r
	fn := func(n string) *ssa.Function { return r.Fn(uidPkg + "." + n) }
	enc, dec := fn("ID.Encode"), fn("Decode")
	perms, con, prim := fn("ID.Permissions"), fn("ID.Contract"), fn("ID.IsPrimary")
	newID, second, known := fn("NewClientID"), fn("NewSecondaryClientID"), fn("CachedClientID")
	newMAC := r.Fn(macPkg + ".New")
	if enc == nil || dec == nil || perms == nil || con == nil || prim == nil || newID == nil || second == nil || known == nil || newMAC == nil {
		return
	}
	mac := func(l *linear) lv {
		res := l.run(newMAC, []lv{l.bytes(32)}, nil, 0)
		if st := isErr(res); st == 2 || st == 0 && !l.decide(res[1]) {
			return nil // no MAC
		}
		return res[0]
	}
	var in []lv
	k.eval(func(l *linear) []lv {
		m := mac(l)
		if m == nil {
			return nil
		}
		id := l.bytes(k.idLen)
		in = append([]lv{}, id.cells()...)
		t := l.run(enc, []lv{id, m}, nil, 0)
		c, ok := k.text(t[0])
		if !ok {
			l.stop("is not a text")
		}
		k.idText = len(c)
		return l.run(dec, []lv{l.convert(t[0], dec.Params[0].Type()), m}, nil, 0)
	}, func(x lresult) {
		if x.bad == "" && x.res == nil {
			return
		}
		r.Count("IDs decoded", 1)
		k.roundTrip(dec, "client ID", x, in)
	})
	r.Need("IDs decoded", 1)
	k.eval(func(l *linear) []lv { // by another key
		m, o := mac(l), mac(l)
		if m == nil || o == nil {
			return nil
		}
		t := l.run(enc, []lv{l.bytes(k.idLen), m}, nil, 0)
		return l.run(dec, []lv{l.convert(t[0], dec.Params[0].Type()), o}, nil, 0)
	}, func(x lresult) {
		if x.res != nil && isErr(x.res) != 2 {
			r.Violate("s11:other-key", k.pos(dec), "an ID made with another secret is taken")
		}
	})
	k.lengths(dec, k.idText, false, func(l *linear, n int) []lv {
		m := mac(l)
		if m == nil {
			l.choices[0] = true
			l.decided = map[interface{}]bool{}
			l.taken = 0
			m = mac(l)
		}
		return []lv{l.bytes(n), m}
	})

	made := func(f *ssa.Function, primary bool, contract func(l *linear, arg lv) lv, arg func(l *linear) lv) {
		k.eval(func(l *linear) []lv {
			a := arg(l)
			var want lv
			if contract != nil {
				want = contract(l, a)
			}
			res := l.run(f, []lv{a}, nil, 0)
			if isErr(res) != 1 {
				return []lv{res[1]}
			}
			if s, ok := res[0].(*lslice); !ok || s.n != k.idLen {
				l.stop("has the wrong length")
			}
			id := res[:1]
			return []lv{res[1], l.run(perms, id, nil, 0)[0], l.run(prim, id, nil, 0)[0], l.run(con, id, nil, 0)[0], want}
		}, func(x lresult) {
			if x.bad != "" {
				r.Violate("s11:made:"+fname(f), k.pos(f), "%s: %s", fname(f), x.bad)
				return
			}
			if isErr(x.res[:1]) != 1 {
				return
			}
			r.Count("IDs made", 1)
			p, ok := x.res[1].(*lnum)
			var v uint64
			if ok {
				v, ok = p.konst()
			}
			want := k.none
			if primary {
				want = k.master
			}
			if !ok || v != uint64(want) {
				r.Violate("s11:made-permissions:"+fname(f), k.pos(f), "an ID made by %s does not have the permissions of its kind", fname(f))
			}
			if b, ok := x.res[2].(*lbool); !ok || !b.known || b.v != primary {
				r.Violate("s11:made-kind:"+fname(f), k.pos(f), "an ID made by %s is not known by IsPrimary for what it is", fname(f))
			}
			if contract != nil && !sameBits(x.res[3], x.res[4], 32) {
				r.Violate("s11:made-contract:"+fname(f), k.pos(f), "an ID made by %s has another contract than it is made for", fname(f))
			}
		})
	}
	made(newID, true, nil, func(l *linear) lv { return l.unknown(newID.Params[0].Type()) })
	made(second, false, func(l *linear, a lv) lv { return l.run(con, []lv{a}, nil, 0)[0] }, func(l *linear) lv { return l.bytes(k.idLen) })
	made(known, false, func(l *linear, a lv) lv { return a }, func(l *linear) lv { return l.unknown(known.Params[0].Type()) })
	r.Need("IDs made", 3)
}

// target: a key is valid for the topic it is made for, and a wildcard key exactly
// when the topic ends in "..." or a part of it in "*".
func (k *codes) target() {
	r := k.r
	f, valid, perms := r.Fn(secPkg+".Key.SetTarget"), r.Fn(secPkg+".Key.ValidateTopic"), r.Fn(secPkg+".Key.Permissions")
	if f == nil || valid == nil || perms == nil {
		return
	}
	for _, n := range []int{0, 1, 2, 3, 23, 24} {
		n := n
		var topic *lstr
		var parts []*lstr
		var all *lbool
		k.eval(func(l *linear) []lv {
			topic, parts, all = &lstr{l.bytes(40).cells()}, nil, &lbool{}
			list := &lobj{}
			for i := 0; i < n; i++ {
				p := &lstr{l.bytes(5).cells()}
				parts = append(parts, p)
				list.cells = append(list.cells, lv(p))
			}
			star := l.konst(ssaInt('*')).(*lnum)
			last := func(p *lstr) *lbool { return l.equal(p.cells[4].(*lnum), star) }
			if n > 3 { // only the last may be one
				for _, p := range parts[:n-1] {
					l.decided[last(p)] = false
				}
			}
			type hash struct {
				of       *lslice
				contract lv
				h        lv
			}
			var hashes []hash
			l.calls = func(l *linear, name string, ci ssa.CallInstruction, args []lv) (lv, bool) {
				sig := ci.Common().Signature()
				switch {
				case name == "server/internal/pkg/hash.WithSalt":
					s, ok := args[0].(*lslice)
					if !ok {
						return nil, false
					}
					for _, h := range hashes {
						if lsameAll(h.of.cells(), s.cells()) && lsame(h.contract, args[1]) {
							return h.h, true
						}
					}
					h := hash{s, args[1], l.unknown(sig.Results().At(0).Type())}
					hashes = append(hashes, h)
					return h.h, true
				case strings.HasPrefix(name, "strings.") && sig.Results().Len() == 1:
					s, ok := args[0].(*lstr)
					if !ok {
						return nil, false
					}
					if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok && lsameAll(s.cells, topic.cells) {
						return &lslice{list, 0, n, n}, true
					}
					if len(args) != 2 || !strings.HasPrefix(name, "strings.HasSuffix") && name != "strings.Contains" {
						return nil, false
					}
					x, ok := args[1].(*lstr)
					if !ok {
						return nil, false
					}
					text := ""
					for _, c := range x.cells {
						b, _ := c.(*lnum).konst()
						text += string(rune(b))
					}
					for _, p := range parts {
						if lsameAll(p.cells, s.cells) {
							switch {
							case text == "*":
								return &lbool{true, l.decide(last(p))}, true
							case strings.Contains(text, "."):
								return &lbool{true, false}, true // a part has none
							}
						}
					}
					if lsameAll(s.cells, topic.cells) && text == "..." {
						return &lbool{true, l.decide(all)}, true
					}
				}
				return nil, false
			}
			key := l.bytes(k.keyLen)
			contract := l.unknown(f.Params[1].Type())
			before := l.run(perms, []lv{key}, nil, 0)[0]
			res := l.run(f, []lv{key, contract, topic}, nil, 0)
			kept := sameBits(l.run(perms, []lv{key}, nil, 0)[0], before, 64)
			if isErr(res) != 1 {
				return []lv{res[0]}
			}
			v := l.run(valid, []lv{key, contract, topic}, nil, 0)
			wild := l.truth(v[1])
			seen, asked := false, true
			note := func(b *lbool) {
				d, ok := l.decided[b]
				seen = seen || d
				asked = asked && ok
			}
			note(all)
			for _, p := range parts {
				note(last(p))
			}
			return []lv{res[0], &lbool{true, l.truth(v[0])}, &lbool{true, wild == seen && (seen || asked)}, &lbool{true, kept}}
		}, func(x lresult) {
			if x.bad != "" {
				r.Violate("s11:target", k.pos(f), "the target of a key for a topic of %d parts: %s", n, x.bad)
				return
			}
			r.Count("targets compared", 1)
			if isErr(x.res[:1]) != 1 {
				if n <= 23 {
					r.Violate("s11:target-refused", k.pos(f), "a topic of %d parts is refused as the target of a key", n)
				}
				return
			}
			if !x.res[3].(*lbool).v {
				r.Violate("s11:target-permissions", k.pos(f), "setting the target of a key changes its permissions")
			}
			if !x.res[1].(*lbool).v {
				r.Violate("s11:target-invalid", k.pos(f), "a key is not valid for the topic it is made for (of %d parts)", n)
			}
			if !x.res[2].(*lbool).v {
				r.Violate("s11:target-wildcard", k.pos(f), "a key for a topic of %d parts is not taken for a wildcard key exactly when the topic is a wildcard", n)
			}
		})
	}
	r.Need("targets compared", 10)
}

func ssaInt(k int64) *ssa.Const { return ssa.NewConst(constant.MakeInt64(k), types.Typ[types.Uint8]) }

// known: the IDs that are known by their text.
func (k *codes) known() {
	r, p := k.r, k.r.P
	isDecode := callIs(uidPkg + ".Decode")
	for _, f := range p.funcs {
		if f.Pkg == nil || relPath(f.Pkg.Pkg.Path()) != srvPkg || !calls(f, uidPkg+".Decode") {
			continue
		}
		f := f
		textOf := func(v *Val) bool { // the complete text given
			v = stripConv(stripIfaceVal(v))
			return v.op == OParam && v.typ != nil && isBytes(v.typ)
		}
		h := &Hooks{Interesting: anyOf(isDecode, callIs("sync.Map.Load", "sync.Map.LoadOrStore", "sync.Map.Store", "sync.Map.Swap", uidPkg+".ID.IsPrimary", uidPkg+".ID.Encode", uidPkg+".ID.Contract", uidPkg+".CachedClientID", uidPkg+".NewClientID"))}
		h.Call = func(c *CallCtx) {
			switch c.Name {
			case uidPkg + ".Decode":
				c.Opaque()
				r.Count("texts decoded", 1)
				if !textOf(c.Args[0]) {
					c.Report("s11:decoded-part", "what is decoded is not the complete text given")
				}
				c.derived("decoded", func(s *State) { s.Add("decoded", c.result) }, func(s *State) {})
			case uidPkg + ".NewClientID", uidPkg + ".CachedClientID":
				c.Opaque()
				if c.Name == uidPkg+".CachedClientID" {
					r.Count("IDs of a known contract", 1)
					if findPair(c.Args[0], "looked up") == nil {
						c.Report("s11:known-contract", "an ID is made for another contract than the one known for the text")
					}
				}
				c.ForkErr(nil, nil)
			case uidPkg + ".ID.Encode":
				c.Opaque()
				c.SetResult(c.E.pair("text", c.Args[0]))
			case uidPkg + ".ID.Contract":
				c.Opaque()
				c.SetResult(c.E.pair("contract", c.Args[0]))
			case uidPkg + ".ID.IsPrimary":
				c.Opaque()
				id := c.Args[0]
				res := c.Res
				c.Fork(func(st *State) { c.E.setFact(st, res, c.E.vTrue) })
				c.Fork(func(st *State) { c.E.setFact(st, res, c.E.vFalse); st.Add("not primary", id) })
			case "sync.Map.Load":
				c.Opaque()
				r.Count("texts looked up", 1)
				if !textOf(c.Args[1]) {
					c.Report("s11:looked-up-part", "an ID is looked up by something else than the complete text given")
				}
				c.SetResult(c.E.pair("looked up", c.Args[1]))
			case "sync.Map.LoadOrStore", "sync.Map.Store", "sync.Map.Swap":
				c.Opaque()
				r.Count("IDs made known", 1)
				key, val := stripConv(stripIfaceVal(c.Args[1])), stripConv(stripIfaceVal(c.Args[2]))
				d := findPair(val, "contract")
				if d == nil || !c.St.HasV("decoded", findPair(d, "decoded")) {
					c.Report("s11:known-undecoded", "what becomes known is not the contract of an ID that was decoded")
					return
				}
				id := d.args[0]
				if t := findPair(key, "text"); !(t != nil && key == t && t.args[0] == id) && !textOf(key) {
					c.Report("s11:known-text", "an ID becomes known under something else than its own text")
				}
				if !c.St.HasV("not primary", id) {
					c.Report("s11:known-primary", "an ID becomes known that may be primary")
				}
			}
		}
		r.Explore(h, f)
	}
	r.Need("texts decoded", 1)
	r.Need("texts looked up", 1)
	r.Need("IDs made known", 1)
}

func isBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}
