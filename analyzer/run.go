package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one execution of the check of one property.
type Run struct {
	P       *Prog
	ID      string
	tier    string
	vios    []*Finding
	seen    map[string]bool
	counts  map[string]int
	rules   []string
	funcs   map[*ssa.Function]bool
	sites   map[ssa.Instruction]bool
	samples []string
	steps   int
	paths   int
	notes   []string
}

func newRun(p *Prog, id, tier string) *Run {
	return &Run{P: p, ID: id, tier: tier, seen: map[string]bool{}, counts: map[string]int{}, funcs: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}}
}

// Rule names a rule that this run applies.
func (r *Run) Rule(s string) { r.rules = append(r.rules, s) }

func (r *Run) add(f *Finding) {
	if r.seen[f.Key] {
		return
	}
	r.seen[f.Key] = true
	r.vios = append(r.vios, f)
}

// Violate reports a violated obligation.
func (r *Run) Violate(key, where, format string, a ...interface{}) {
	r.add(&Finding{Key: key, Where: where, Msg: fmt.Sprintf(format, a...)})
}

// Count records a measured instance of an obligation.
func (r *Run) Count(name string, n int) { r.counts[name] += n }

// Sample keeps a few concrete instances for the evidence.
func (r *Run) Sample(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, o := range r.samples {
		if o == s {
			return
		}
	}
	if len(r.samples) < 40 {
		r.samples = append(r.samples, s)
	}
}

// Need fails the run when fewer instances were found than there must be.
func (r *Run) Need(name string, min int) {
	if r.counts[name] < min {
		r.Violate("anchor:"+name, "", "only %d instances of %q were found where at least %d must exist: the construct the rule is about is gone or no longer recognised", r.counts[name], name, min)
	}
}

// Fn resolves a function the rule needs.
func (r *Run) Fn(name string) *ssa.Function {
	f := r.P.fn(name)
	if f == nil {
		r.Violate("anchor:"+name, "", "function %s not found", name)
	}
	return f
}

// Field resolves a struct field the rule needs.
func (r *Run) Field(pkg, typ, name string) *types.Var {
	f := r.P.field(pkg, typ, name)
	if f == nil {
		r.Violate("anchor:"+pkg+"."+typ+"."+name, "", "field %s.%s.%s not found", pkg, typ, name)
	}
	return f
}

// Explore runs an engine over roots and collects what it found.
func (r *Run) Explore(h *Hooks, roots ...*ssa.Function) *Engine {
	return r.ExploreFrom(h, nil, roots...)
}

func (r *Run) ExploreFrom(h *Hooks, init func(e *Engine, fn *ssa.Function) *State, roots ...*ssa.Function) *Engine {
	var last *Engine
	for _, fn := range roots {
		if fn == nil {
			continue
		}
		e := newEngine(r.P, h)
		var st *State
		if init != nil {
			st = init(e, fn)
		}
		t := time.Now()
		e.Run(fn, st)
		r.collect(e, fn)
		if os.Getenv("SA_TIME") != "" {
			fmt.Fprintf(os.Stderr, "%-50s %8d steps %6d paths %3d fns %d joins %v\n", fname(fn), e.steps, e.paths, len(e.inlined), e.joins, time.Since(t).Round(time.Millisecond))
		}
		if e.debug {
			var ks []string
			for k := range e.hot {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return e.hot[ks[i]] > e.hot[ks[j]] })
			for i := 0; i < len(ks) && i < 12; i++ {
				fmt.Fprintf(os.Stderr, "   hot %s %d\n", ks[i], e.hot[ks[i]])
			}
		}
		last = e
	}
	return last
}

func (r *Run) collect(e *Engine, fn *ssa.Function) {
	r.steps += e.steps
	r.paths += e.paths
	for f := range e.inlined {
		r.funcs[f] = true
	}
	for c := range e.calls {
		r.sites[c] = true
	}
	if e.over {
		r.Violate("undecided:"+fname(fn), "", "exploration of %s was cut off after %d steps", fname(fn), e.steps)
	}
	for _, k := range e.order {
		r.add(e.reports[k])
	}
}

// finish writes the evidence, prints the outcome and returns the exit code.
func (r *Run) finish(t0 time.Time) int {
	known := knownFindings(r.ID)
	sort.SliceStable(r.vios, func(i, j int) bool { return r.vios[i].Key < r.vios[j].Key })
	var viol, kn []*Finding
	for _, f := range r.vios {
		if _, ok := known[f.Key]; ok {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}
	var fl []string
	for f := range r.funcs {
		fl = append(fl, fname(f))
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"explanation":         "Static analysis of the type-checked SSA program of /repo's working tree; nothing was executed. Rules: " + strings.Join(r.rules, " | "),
		"functions_explored":  len(fl),
		"function_names":      fl,
		"call_sites":          len(r.sites),
		"root_exits":          r.paths,
		"instructions":        r.steps,
		"obligations_matched": r.counts,
		"samples":             r.samples,
		"functions_loaded":    len(r.P.funcs),
		"packages_loaded":     len(r.P.pkgs),
	}
	var vl []string
	for _, f := range viol {
		vl = append(vl, f.Key+" "+f.Where+": "+f.Msg)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	if len(vl) > 0 {
		cov["violation_list"] = vl
	}
	root := verifRoot()
	os.MkdirAll(filepath.Join(root, "evidence"), 0777)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", r.ID+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	rep := filepath.Join(root, "evidence", r.ID+".violations.txt")
	os.Remove(rep)
	fmt.Printf("%s: %d functions, %d call sites, %d exits, %d instructions; obligations %v\n", r.ID, len(fl), len(r.sites), r.paths, r.steps, r.counts)
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, known[f.Key], f.Where)
	}
	if len(viol) == 0 {
		return 0
	}
	var out strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&out, "%s\n  at %s\n  %s\n", f.Key, f.Where, f.Msg)
		for _, p := range f.Path {
			fmt.Fprintf(&out, "    via %s\n", p)
		}
	}
	os.WriteFile(rep, []byte(out.String()), 0666)
	fmt.Print(out.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rep)
	return 1
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// knownFindings reads "known: property=<id> key=<key> -- <what fails>" lines.
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known_findings"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		i := strings.Index(rest, " -- ")
		if i < 0 {
			continue
		}
		m[rest[:i]] = rest[i+4:]
	}
	return m
}
