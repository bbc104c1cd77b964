package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
}

// logSuffixes: the file name suffixes that the log store accepts as logs.
func logSuffixes(p *Prog) []string {
	set := map[string]bool{}
	for _, ci := range p.callsTo("strings.HasSuffix", "strings.TrimSuffix", "strings.CutSuffix", "path.Ext", "path/filepath.Ext", "path/filepath.Glob", "path.Match", "path/filepath.Match") {
		if pkgOf(ci.Parent()) != "wal" {
			continue
		}
		for _, a := range ci.Common().Args {
			if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				set[strings.TrimLeft(constant.StringVal(c.Value), "*")] = true
			}
		}
	}
	var r []string
	for s := range set {
		if s != "" {
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

// finalName: can path value v name a log (or is it unknown).
func finalName(v *Val, sufs []string) (isFinal, known bool) {
	cs := v.strConsts()
	var ext []string
	for _, c := range cs {
		if strings.Contains(c, ".") || strings.ContainsAny(c, "/%") == false && c != "" {
			ext = append(ext, c)
		}
	}
	if len(ext) == 0 {
		return true, false
	}
	for _, c := range ext {
		for _, s := range sufs {
			if strings.HasSuffix(c, s) || strings.HasSuffix(s, c) && c != "" {
				return true, true
			}
		}
	}
	return false, true
}

var fileWriteFuncs = []string{"os.File.Write", "os.File.WriteAt", "os.File.WriteString", "os.File.Truncate", "os.File.ReadFrom"}

func checkC01(r *Run) {
	r.Rule("typestate of each file the log store creates, on every path of every exported function of package wal: created under a temporary name, header at offset 0 and the writer's whole buffer behind it written, Sync after the last write, Close, all successful, only then Rename to a name with the log suffix; a failed step makes the operation report an error; no other creation, writing or renaming of a log name in the store packages")
	p := r.P
	sufs := logSuffixes(p)
	r.Count("log suffix", len(sufs))
	r.Need("log suffix", 1)
	r.Sample("log suffixes: %v", sufs)
	visitedRen := map[ssa.Instruction]bool{}
	writeIs := callIs(fileWriteFuncs...)
	h := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			return callIs("os.Create", "os.OpenFile", "os.Rename", "os.Link", "os.Symlink", "os.File.Sync", "os.File.Close", "os.WriteFile", "io/ioutil.WriteFile", "encoding/binary.littleEndian.PutUint32")(in) || writeIs(in)
		},
	}
	fail := func(what string) func(*State) {
		return func(s *State) { s.Add("failed:" + what) }
	}
	dead := func(s *State) { s.Add("failed:rename") }
	_ = dead
	h.Call = func(c *CallCtx) {
		e := c.E
		switch c.Name {
		case "os.Create", "os.OpenFile":
			if c.Name == "os.OpenFile" && !mayCreate(c.Args[1]) {
				return
			}
			r.Count("file creations", 1)
			if fin, known := finalName(c.Args[0], sufs); fin {
				if known {
					c.Report("c01:create-final:"+fname(c.Fn()), "%s creates a file directly under a log name in %s; a crash during the write leaves an incomplete log", c.Name, fname(c.Fn()))
				} else {
					c.Report("c01:create-unknown:"+fname(c.Fn()), "cannot decide that the name created here is not a log name")
				}
			}
			file := e.ext(c.Res, 0, nil)
			path := c.Args[0]
			c.ForkErr(func(s *State) { s.Add("file", e.pair("file", file, path)) }, fail("create"))
		case "os.WriteFile", "io/ioutil.WriteFile":
			if fin, _ := finalName(c.Args[0], sufs); fin {
				c.Report("c01:create-final:"+fname(c.Fn()), "a log is written directly under its final name")
			}
			c.ForkErr(nil, fail("write"))
		case "os.File.Sync":
			f := c.Args[0]
			r.Count("flush", 1)
			c.ForkErr(func(s *State) { s.Add("synced", f) }, fail("flush"))
		case "os.File.Close":
			f := c.Args[0]
			own := false
			for _, pr := range c.St.Find("file") {
				own = own || pr.args[0] == f
			}
			if own {
				c.ForkErr(func(s *State) { s.Add("closed", f) }, fail("close"))
			}
		case "os.Rename", "os.Link", "os.Symlink":
			visitedRen[c.In] = true
			if fin, _ := finalName(c.Args[1], sufs); !fin {
				return // moves a log out of the way
			}
			r.Count("renames to a log name", 1)
			var file *Val
			for _, pr := range c.St.Find("file") {
				if pr.args[1] == c.Args[0] {
					file = pr.args[0]
				}
			}
			if file == nil {
				c.Report("c01:rename-source:"+fname(c.Fn()), "a file becomes a log although it is not the file that was just written")
			} else {
				for _, t := range c.St.WithPrefix("failed:") {
					c.Report("c01:rename-after-failure:"+t.N, "a log becomes visible although step %q failed", t.N[7:])
				}
				if !c.St.HasV("header", file) {
					c.Report("c01:no-header", "a log becomes visible before its header was written at offset 0")
				}
				if !c.St.HasV("payload", file) {
					c.Report("c01:no-payload", "a log becomes visible before the writer's whole buffer was written behind the header")
				}
				if !c.St.HasV("synced", file) {
					c.Report("c01:no-flush", "a log becomes visible although it was not flushed after its last write")
				}
				if !c.St.HasV("closed", file) {
					c.Report("c01:no-close", "a log becomes visible before its file was closed")
				}
			}
			src := c.Args[0]
			c.ForkErr(func(s *State) {
				s.Add("visible")
				for _, pr := range s.Find("file") {
					if pr.args[1] == src {
						s.Add("final", pr.args[0])
					}
				}
			}, fail("rename"))
		default:
			for _, n := range fileWriteFuncs {
				if c.Name != n {
					continue
				}
				f := c.Args[0]
				c.St.DelV("synced", f)
				if c.St.HasV("final", f) {
					c.Report("c01:write-final:"+fname(c.Fn()), "a file is written after it got its final name")
				}
				r.Count("log writes", 1)
				kind := ""
				if n == "os.File.WriteAt" || n == "os.File.Write" {
					data := c.Args[1]
					whole := data.op == OCall && strings.HasPrefix(data.aux, "github.com/unit-io/bpool.Buffer.Bytes@")
					off := ""
					if n == "os.File.WriteAt" {
						if k, ok := c.Args[2].constInt(); ok && k == 0 {
							off = "start"
						} else {
							for _, pr := range c.St.Find("hdrlen") {
								if pr.args[0] == f && sameLen(e, pr.args[1], c.Args[2]) {
									off = "behind"
								}
							}
						}
					} else if c.St.HasV("header", f) {
						off = "behind"
					} else {
						off = "start"
					}
					switch {
					case off == "start" && !whole:
						kind = "header"
					case off == "behind" && whole:
						kind = "payload"
					case off == "behind" && data.contains(func(v *Val) bool { return v.op == OSlice }):
						kind = ""
					}
					if kind == "header" {
						l := lenOf(e, data)
						c.St.Add("hdrlen", e.pair("hdrlen", f, l))
					}
				}
				k := kind
				c.ForkErr(func(s *State) {
					if k != "" {
						s.Add(k, f)
					}
				}, fail("write"))
			}
		}
	}
	h.Exit = func(c *Ctx, fn *ssa.Function, res []*Val) {
		fs := c.St.WithPrefix("failed:")
		if len(fs) == 0 {
			return
		}
		ev, has := c.errValue(fn, res)
		if !has {
			return
		}
		r.Count("exits with a failed step", 1)
		if ev == nil || c.E.nilness(c.St, ev) != 2 {
			c.Report("c01:unreported:"+fname(fn)+":"+fs[0].N, "%s can report success although step %q of writing the log failed", fname(fn), fs[0].N[7:])
		}
	}
	var roots []*ssa.Function
	for _, f := range p.entries("wal") {
		if p.reachesCall(f, "os.Rename", "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile") {
			roots = append(roots, f)
		}
	}
	r.Explore(h, roots...)
	r.Need("renames to a log name", 1)
	r.Need("file creations", 1)
	r.Need("flush", 1)
	r.Need("log writes", 1)
	r.Need("exits with a failed step", 1)
	// every rename of the store packages was judged
	for _, ci := range p.callsTo("os.Rename", "os.Link", "os.Symlink") {
		switch pkgOf(ci.Parent()) {
		case "wal":
			r.Count("rename sites", 1)
			if !visitedRen[ci] && !r.funcs[ci.Parent()] {
				r.Violate("c01:unreached-rename:"+fname(ci.Parent()), p.instrPos(ci), "a rename in package wal is not reached from any exported function: it was not judged")
			}
		case "unitdb", "memdb":
			r.Violate("c01:foreign-rename:"+fname(ci.Parent()), p.instrPos(ci), "only the log store may move files of the store")
		}
	}
}

// mayCreate: do constant open flags include O_CREATE or a write mode.
func mayCreate(flags *Val) bool {
	k, ok := flags.constInt()
	return !ok || k&(0x40|0x1|0x2) != 0
}

func lenOf(e *Engine, v *Val) *Val {
	switch v.op {
	case OMake:
		if len(v.args) > 0 {
			return v.args[0]
		}
	case OSlice:
		if v.args[2] != nil && v.args[1] == nil {
			return v.args[2]
		}
		if v.args[2] == nil && v.args[1] == nil && v.args[0].typ != nil {
			if at, ok := deref(v.args[0].typ).Underlying().(*types.Array); ok {
				return e.in.integer(at.Len())
			}
		}
	}
	return e.in.mk(Val{op: OLen, args: []*Val{v}})
}

func sameLen(e *Engine, a, b *Val) bool {
	if a == b {
		return true
	}
	x, ok1 := a.constInt()
	y, ok2 := b.constInt()
	return ok1 && ok2 && x == y
}
