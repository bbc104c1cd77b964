package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// clock models the calls that make points in time.
type clock struct{ r *Run }

func (k clock) call(c *CallCtx) bool {
	switch c.Name {
	case "time.Now":
		c.SetResult(c.E.pair("now"))
	case "time.Time.Add":
		c.SetResult(c.E.pair("add", c.Args[0], c.Args[1]))
	case "time.Time.Unix":
		c.SetResult(c.E.pair("unix", c.Args[0]))
	case "time.ParseDuration":
		c.Opaque()
		c.St.Add("duration", c.E.pair("duration", c.E.ext(c.Res, 0, types.Typ[types.Int64]), c.Args[0]))
	default:
		return false
	}
	return true
}

func isPair(v *Val, n string) bool { return v != nil && v.op == OComp && v.aux == "pair:"+n }

// duration: the value is a parsed duration; of what.
func (k clock) duration(x *Ctx, v *Val) *Val {
	v = stripConv(v)
	for _, d := range x.St.Find("duration") {
		if sameResult(d.args[0], v) {
			return d.args[1]
		}
	}
	return nil
}

func sameResult(a, b *Val) bool {
	return a == b || a != nil && b != nil && a.op == OExt && b.op == OExt && a.args[0] == b.args[0] && a.idx == b.idx
}

// moment: now plus or minus a duration.
func moment(v *Val) (d *Val, before bool, ok bool) {
	v = stripConv(v)
	if !isPair(v, "add") || !isPair(stripConv(v.args[0]), "now") {
		return nil, false, false
	}
	d = stripConv(v.args[1])
	for {
		switch {
		case d.op == ONeg && d.aux == "-":
			d, before = stripConv(d.args[0]), !before
			continue
		case d.op == OBin && d.aux == "-" && isInt(0)(d.args[0]):
			d, before = stripConv(d.args[1]), !before
			continue
		case d.op == OBin && d.aux == "*" && isInt(-1)(d.args[1]):
			d, before = stripConv(d.args[0]), !before
			continue
		}
		return d, before, true
	}
}

// recency: the time limit of a query is the duration that was asked for before now.
func recency(r *Run) {
	k := clock{r}
	cut := r.Field("unitdb", "_InternalQuery", "cutoff")
	last, opt := r.Fn("message.Topic.Last"), r.Fn("message.Topic.getOption")
	parse, with := r.Fn("unitdb.Query.parse"), r.Fn("unitdb.Query.WithLast")
	if cut == nil || last == nil || opt == nil || parse == nil || with == nil {
		return
	}
	h := &Hooks{Interesting: anyOf(fieldUse(cut), callIs("message.Topic.Last", "time.ParseDuration", "time.Time.Unix", "time.Time.Add"))}
	h.Call = func(c *CallCtx) {
		if k.call(c) {
			return
		}
		switch {
		case c.Callee == last:
			c.Opaque()
			t, ok := c.E.ext(c.Res, 0, nil), c.E.ext(c.Res, 2, types.Typ[types.Bool])
			c.Fork(func(s *State) { c.E.setFact(s, ok, c.E.vTrue); s.Add("asked", t) })
			c.Fork(func(s *State) { c.E.setFact(s, ok, c.E.vFalse) })
		case c.Name == "message.Topic.ParseKey" || c.Name == "message.Topic.Parse" || c.Name == "message.Topic.AddContract":
			c.Opaque()
		}
	}
	h.Store = func(x *Ctx, addr, v *Val) {
		if !isFAddr(addr, cut) || v == nil || isInt(0)(stripConv(v)) {
			return
		}
		r.Count("time limits set", 1)
		v = stripConv(v)
		if isPair(v, "unix") {
			t := stripConv(v.args[0])
			for _, a := range x.St.Find("asked") {
				if sameResult(a, t) {
					x.St.Add("limited")
					return
				}
			}
			if d, before, ok := moment(t); ok && before && k.duration(x, d) != nil {
				x.St.Add("limited")
				return
			}
		}
		x.Report("c15:limit", "the time limit of a query is not the duration that was asked for before now")
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if fn == parse && x.mayBeSuccess(fn, res) && x.St.Has("asked") && !x.St.Has("limited") {
			x.Report("c15:no-limit", "the time limit a topic asks for can be left out of the query")
		}
	}
	r.Explore(h, parse, with)
	r.Need("time limits set", 2)
	// what the topic says
	l := &Hooks{Interesting: callIs("time.ParseDuration", "time.Time.Add")}
	l.Call = func(c *CallCtx) {
		if !k.call(c) && c.Callee == opt {
			c.Opaque()
			c.St.Add("option", c.E.ext(c.Res, 0, nil))
		}
	}
	l.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if !x.St.Has("duration") || len(res) != 3 {
			return
		}
		r.Count("time limits of topics", 1)
		if d, before, ok := moment(res[0]); !ok || !before || k.duration(x, d) == nil {
			x.Report("c15:topic-limit", "the time limit a topic asks for is not its duration before now")
		}
	}
	r.Explore(l, last)
	r.Need("time limits of topics", 1)
}

// expiry: the ttl of a topic is a point in time after now.
func ttlTime(r *Run) {
	k := clock{r}
	f, opt := r.Fn("message.Topic.TTL"), r.Fn("message.Topic.getOption")
	if f == nil || opt == nil {
		return
	}
	h := &Hooks{Interesting: callIs("time.ParseDuration", "time.Time.Add")}
	h.Call = func(c *CallCtx) {
		if !k.call(c) && c.Callee == opt {
			c.Opaque()
			c.St.Add("seconds", c.E.ext(c.Res, 1, nil))
		}
	}
	h.Exit = func(x *Ctx, fn *ssa.Function, res []*Val) {
		if len(res) != 2 || isInt(0)(stripConv(res[0])) {
			return
		}
		r.Count("expiry times of topics", 1)
		v := stripConv(res[0])
		if isPair(v, "unix") {
			if d, before, ok := moment(v.args[0]); ok && !before {
				if k.duration(x, d) != nil {
					return
				}
				if d.op == OBin && d.aux == "*" {
					for i := 0; i < 2; i++ {
						s := stripConv(d.args[i])
						for _, o := range x.St.Find("seconds") {
							if sameResult(o, s) && isInt(1000000000)(stripConv(d.args[1-i])) {
								return
							}
						}
					}
				}
			}
		}
		x.Report("c16:ttl", "the expiry of a topic is not the time to live it asks for after now: %s", v)
	}
	r.Explore(h, f)
	r.Need("expiry times of topics", 2)
}
