package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = checkC20
	checks["C21"] = checkC21
}

// checkC21: locks are released on every way out and nested in a consistent order.
func checkC21(r *Run) {
	r.Rule("on every path of every function each lock or one-slot semaphore it took (its own helpers for taking and releasing included) has been released when it returns")
	r.Rule("no function takes, itself or through calls, a lock it already holds; no lock is released that is not held")
	r.Rule("the nesting of lock classes, over the call graph, has no cycle")
	la := newLockAna(r)
	la.run()
	la.orderEdges()
	r.Count("lock operations", la.lockOps)
	r.Count("functions that take a lock", len(la.acq))
	r.Count("lock order edges", len(la.edges))
	r.Need("lock operations", 50)
	r.Need("lock order edges", 1)
	for _, fn := range la.roots() {
		if la.wrappers[fn] {
			continue
		}
		for _, f := range la.held[fn] {
			r.add(f)
		}
		for _, f := range la.rel[fn] {
			r.add(f)
		}
	}
	for _, f := range la.self {
		r.add(f)
	}
	// cycles
	succ := map[string][]string{}
	for _, e := range la.edges {
		succ[e.from] = append(succ[e.from], e.to)
		r.Sample("%s -> %s (%s)", e.from, e.to, fname(e.fn))
	}
	var nodes []string
	for n := range succ {
		sort.Strings(succ[n])
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	reach := func(from, to string) []string {
		prev := map[string]string{from: ""}
		q := []string{from}
		for len(q) > 0 {
			n := q[0]
			q = q[1:]
			for _, m := range succ[n] {
				if m == to {
					p := []string{to, n}
					for x := n; prev[x] != ""; x = prev[x] {
						p = append(p, prev[x])
					}
					for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
						p[i], p[j] = p[j], p[i]
					}
					return p
				}
				if _, ok := prev[m]; !ok {
					prev[m] = n
					q = append(q, m)
				}
			}
		}
		return nil
	}
	seen := map[string]bool{}
	for _, n := range nodes {
		if p := reach(n, n); p != nil {
			ms := append([]string(nil), p[:len(p)-1]...)
			sort.Strings(ms)
			k := strings.Join(ms, " ")
			if seen[k] {
				continue
			}
			seen[k] = true
			var d []string
			where := ""
			for i := 0; i+1 < len(p); i++ {
				e := la.edges[p[i]+" -> "+p[i+1]]
				s := fmt.Sprintf("%s holds %s at %s and takes %s", fname(e.fn), e.from, r.P.instrPos(e.site), e.to)
				if e.via != nil {
					s += " through " + fname(e.via)
				}
				d = append(d, s)
				where = r.P.instrPos(e.site)
			}
			r.Violate("order:"+k, where, "locks are nested in both orders: %s", strings.Join(d, "; "))
		}
	}
	if os.Getenv("SA_DEBUG") != "" {
		for _, e := range la.edges {
			via := ""
			if e.via != nil {
				via = fname(e.via)
			}
			fmt.Fprintln(os.Stderr, "edge", e.from, "->", e.to, fname(e.fn), via, r.P.instrPos(e.site))
		}
	}
}

type guardRow struct {
	pkg, typ string
	fields   []string
	lock     string // field of the same struct, or "pkg|Type.field" of another
	write    bool
	except   []string
	alts     []string // locks of other objects that protect it as well
}

var guardTable = []guardRow{
	{"unitdb", "_TopicTrie", []string{"summary", "root"}, "unitdb|_Trie.RWMutex", false, nil, nil},
	{"unitdb", "_Node", []string{"children", "topics"}, "unitdb|_Trie.RWMutex", false, nil, nil},
	{"unitdb", "_TimeWindow", []string{"entries"}, "mu", false, nil, nil},
	{"unitdb", "_ExpiryWindow", []string{"windows"}, "mu", false, nil, nil},
	{"unitdb", "_FreeBlocks", []string{"fb", "cache"}, "RWMutex", false, nil, nil},
	{"unitdb", "_FileSet", []string{"fileMap"}, "mu", false, nil, nil},
	{"filter", "Filter", []string{"bits", "n"}, "lock", false, nil, nil},
	{"memdb", "DB", []string{"timeBlocks"}, "mu", false, nil, nil},
	{"memdb", "_DB", []string{"timeRef"}, "memdb|DB.mu", false, nil, nil},
	{"memdb", "_TimeFilter", []string{"timeRecords"}, "RWMutex", false, nil, []string{"memdb._QueryManager.Mutex"}},
	{"memdb", "_Block", []string{"records", "count", "data", "timeRefs", "lastOffset"}, "RWMutex", false, nil, nil},
	{"memdb", "_QueryManager", []string{"timeRcord", "timeFilters", "timeBlocks", "cutoff", "limit"}, "Mutex", false, nil, nil},
	{"memdb", "_TimeMark", []string{"records", "releasedRecords"}, "RWMutex", false, nil, nil},
	{"memdb", "_TinyLogManager", []string{"closed"}, "mu", false, nil, nil},
	{"memdb", "_TinyLogManager", []string{"tinyLog"}, "mu", false, []string{"memdb._TinyLogManager.writeLoop"}, nil},
	{"memdb", "_TinyLog", []string{"id"}, "mu", false, nil, nil},
	{"wal", "_FileStore", []string{"opened"}, "RWMutex", false, []string{"wal._FileStore.all", "wal._FileStore.open"}, nil},
	{"metrics", "StandardMetrics", []string{"metrics"}, "mutex", false, nil, nil},
	{"server/internal/pkg/metrics", "StandardMetrics", []string{"metrics"}, "mutex", false, nil, nil},
	{"server/internal/pkg/stats", "transport", []string{"buf", "bufSize"}, "bufLock", false, nil, nil},
	{"unitdb", "_Leases", []string{"ls"}, "RWMutex", false, nil, nil},
	{"memdb", "_TinyLog", []string{"_TimeID"}, "mu", false, nil, nil},
	{"server/internal", "_ConnCache", []string{"connections"}, "RWMutex", false, nil, nil},
	{"server/internal", "batchManager", []string{"batchGroup", "stopped"}, "mu", false, nil, nil},
	{"server/internal", "ClusterNode", []string{"reconnecting"}, "lock", false, nil, nil},
	{"server/internal/message", "MessageIds", []string{"id", "resume", "index"}, "RWMutex", false, nil, nil},
	{"server/internal/message", "Stats", []string{"stats"}, "Mutex", false, nil, nil},
}

// checkC20: guarded fields are accessed under their lock.
func checkC20(r *Run) {
	r.Rule("every load, store, map operation and element access of a guarded field happens on every path with its lock held (write mode for changes), in the function or in every caller")
	r.Rule("a field that is accessed through sync/atomic anywhere is accessed through it everywhere after construction")
	la := newLockAna(r)
	for _, g := range guardTable {
		for _, fn := range g.fields {
			f := r.Field(g.pkg, g.typ, fn)
			if f == nil {
				continue
			}
			gi := &guardInfo{write: g.write, except: map[string]bool{}, alts: map[string]bool{}}
			for _, x := range g.except {
				gi.except[x] = true
			}
			for _, x := range g.alts {
				gi.alts[x] = true
			}
			lp, lt, lf := g.pkg, g.typ, g.lock
			if i := strings.Index(g.lock, "|"); i >= 0 {
				lp = g.lock[:i]
				j := strings.Index(g.lock, ".")
				lt, lf = g.lock[i+1:j], g.lock[j+1:]
			} else {
				gi.same = true
			}
			gi.lockF = r.Field(lp, lt, lf)
			if gi.lockF == nil {
				continue
			}
			gi.class = la.fieldName(gi.lockF)
			la.guards[f] = gi
		}
	}
	la.run()
	la.propagate()
	r.Count("guarded fields", len(la.guards))
	r.Count("guarded accesses", la.accesses)
	r.Need("guarded accesses", 50)
	la.findBuild()
	la.atomicFields()
	n := 0
	for _, fn := range la.roots() {
		if !la.isEntry(fn) {
			continue
		}
		n++
		for nd := range la.needs[fn] {
			what := "reads"
			if nd.mode == 'W' {
				what = "changes"
			}
			r.Violate("unguarded:"+fname(nd.fn)+":"+la.fieldName(nd.fld)+":"+string(nd.mode), r.P.instrPos(nd.site),
				"%s %s %s without %s when reached from %s", fname(nd.fn), what, la.fieldName(nd.fld), nd.class, la.entryName(fn))
		}
	}
	r.Count("entry points", n)
}

func (la *lockAna) entryName(fn *ssa.Function) string {
	if la.goes[fn] != nil {
		return fname(fn) + " (goroutine)"
	}
	return fname(fn)
}

// atomicFields: a field that is accessed atomically anywhere is accessed so
// everywhere, except while its object is being built.
func (la *lockAna) atomicFields() {
	atom := map[*types.Var]string{}
	type acc struct {
		f     *types.Var
		in    ssa.Instruction
		write bool
		base  ssa.Value
	}
	var plain []acc
	isAtomic := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && strings.HasPrefix(staticName(ci.Common()), "sync/atomic.")
	}
	for _, fn := range la.roots() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := structOf(fa.X.Type()).Field(fa.Field)
				for _, rf := range *fa.Referrers() {
					switch x := rf.(type) {
					case *ssa.Store:
						if x.Addr == fa {
							plain = append(plain, acc{f, x, true, fa.X})
						}
					case *ssa.UnOp:
						plain = append(plain, acc{f, x, false, fa.X})
					default:
						if isAtomic(rf) {
							atom[f] = la.P.instrPos(rf)
						}
					}
				}
			}
		}
	}
	la.r.Count("fields accessed atomically", len(atom))
	la.r.Need("fields accessed atomically", 1)
	for _, a := range plain {
		if atom[a.f] == "" {
			continue
		}
		la.r.Count("plain accesses of atomic fields", 1)
		fn := a.in.Parent()
		if _, _, fresh := ssaPath(a.base); fresh || la.build[fn] || fn.Name() == "UnmarshalBinary" {
			continue
		}
		what := "reads"
		if a.write {
			what = "writes"
		}
		la.r.Violate("atomic:"+fname(fn)+":"+la.fieldName(a.f), la.P.instrPos(a.in), "%s %s %s without sync/atomic, which is used for it at %s", fname(fn), what, la.fieldName(a.f), atom[a.f])
	}
}
