package main

// The checks: many seeded runs per property, judged, minimised and reported.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type property struct {
	id      string
	bins    []string // driver-build-db combinations
	gen     func(e *engine, p *pool, r *rand.Rand, i int) *Case
	quick   int // number of runs
	deep    int
	faults  string
	rule    string
	level   string
	note    []string
	confirm func(c *Case) *Case // a longer run that must fail as well, or nil
	special func(e *engine, prop *property, seed int64, tier string, work string) int
}

func plainGen(f genFunc) func(e *engine, p *pool, r *rand.Rand, i int) *Case {
	return func(e *engine, p *pool, r *rand.Rand, i int) *Case { return f(p, r) }
}

var libBins = []string{"vsimlib-plain-small", "vsimlib-instr-small", "vsimlib-race-small"}

const ruleRun = "A run is one fresh process executing a seeded plan (license sets, texts, tasks, operations, memory modes) under one seeded schedule policy and fault plan. A run is non-trivial if at least two operations of its plan completed and were compared with the oracle; runs are distinct if plan and realised schedule (hash over every scheduling decision) differ."

var properties = []*property{
	{id: "C01", bins: append([]string{"vsimlib-plain-full", "vsimlib-instr-full"}, libBins...), gen: withFull("C01", 24, 3000, genC01), quick: 3000, deep: 40000, level: "exploration"},
	{id: "C02", bins: append([]string{"vsimlib-plain-full", "vsimlib-instr-full"}, libBins...), gen: withFull("C02", 16, 1500, genC02), quick: 1500, deep: 20000, level: "exploration"},
	{id: "C03", bins: append([]string{"vsimlib-plain-full"}, libBins...), gen: withFull("C03", 60, 3000, genC03), quick: 3000, deep: 40000, level: "exploration"},
	{id: "C04", bins: append([]string{"vsimlib-plain-full"}, libBins...), gen: withFull("C04", 30, 3000, genC04), quick: 3000, deep: 40000, level: "exploration"},
	{id: "C05", bins: append([]string{"vsimlib-plain-full"}, libBins...), gen: withFull("C05", 40, 1500, genC05), quick: 1500, deep: 20000, level: "exploration"},
	{id: "C06", bins: libBins, gen: plainGen(genC06), quick: 3000, deep: 40000, level: "exploration"},
	{id: "C07", bins: libBins, gen: func(e *engine, p *pool, r *rand.Rand, i int) *Case { return genC07(p, r, e.names) }, quick: 1500, deep: 20000, level: "fault_enumeration"},
	{id: "C08", bins: []string{"vsimdict-plain-small", "vsimdict-race-small"}, gen: plainGen(genC08), quick: 3000, deep: 40000, level: "exploration"},
	{id: "C14", bins: append([]string{"vsimold-plain-small", "vsimold-instr-small", "vsimdict-plain-small", "vsimdict-instr-small", "vsimlib-plain-full"}, libBins...), gen: plainGen(genC14), quick: 400, deep: 6000, level: "exploration", confirm: longer},
	{id: "C15", bins: append([]string{"vsimlib-cost-small", "vsimdict-cost-small", "vsimdict-instr-small", "vsimdict-plain-small"}, libBins[:2]...), gen: plainGen(genC15), quick: 2400, deep: 20000, level: "exploration", confirm: longer},
	{id: "C10", special: genCheck, level: "exploration"},
	{id: "C11", special: genCheck, level: "fault_enumeration"},
	{id: "C12", special: genCheck, level: "fault_enumeration"},
	{id: "C13", special: genCheck, level: "fault_enumeration"},
	{id: "C09", bins: []string{"vsimold-plain-small", "vsimold-race-small"}, gen: plainGen(genC09), quick: 3000, deep: 40000, level: "exploration"},
}

func findProperty(id string) *property {
	for _, p := range properties {
		if p.id == id {
			return p
		}
	}
	die("no check for property %q", id)
	return nil
}

func mix(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return int64(x >> 1)
}

func (e *engine) pool(prop string, seed int64, thorough bool) *pool {
	c := newCorpus(verifDir, rand.New(rand.NewSource(mix(seed, "pool", prop))))
	c.repo(repoDir)
	return newPool(c, thorough)
}

// stats gathers what the runs covered.
type stats struct {
	mu         sync.Mutex
	runs       int
	nontrivial int
	distinct   map[uint64]bool
	scheds     map[uint64]bool
	ops        int
	compared   int
	steps      uint64
	switches   uint64
	blocks     uint64
	stalls     uint64
	jumps      uint64
	clock      int64
	counts     map[string]int
	sites      map[string][]byte
	rechecked  int
	samples    []string
}

func newStats() *stats {
	return &stats{distinct: map[uint64]bool{}, scheds: map[uint64]bool{}, counts: map[string]int{}, sites: map[string][]byte{}}
}

func (s *stats) add(i int, c *Case, o *outcome) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.counts["build "+c.Build]++
	s.counts["database "+c.DB]++
	if c.Fault != "" {
		for _, f := range strings.Split(c.Fault, ";") {
			s.counts["database damage "+strings.Split(f, ":")[1]]++
		}
	}
	h := fnv.New64a()
	js, _ := json.Marshal(c.Plan.Phases)
	h.Write(js)
	nops := 0
	for pi := range c.Plan.Phases {
		ph := &c.Plan.Phases[pi]
		s.counts["policy "+polNames[ph.Policy.Kind]]++
		if ph.Policy.Stall >= 0 {
			s.counts["stalled task"]++
		}
		if ph.GC {
			s.counts["garbage collection between phases"]++
		}
		if ph.Clock != 0 {
			s.counts["clock jump"]++
		}
		if ph.Policy.NowStep != 0 {
			s.counts["clock goes on at every reading"]++
		}
		if ph.Skew != 0 {
			s.counts["wall clock step"]++
		}
		for _, ops := range ph.Tasks {
			for _, op := range ops {
				nops++
				if op.K == "grow" {
					nops++ // a series of calls, never one
				}
				if op.R > 0 {
					nops += op.R
					s.counts["repeated call"]++
				}
				if op.K == "scan" && op.M != "" {
					s.counts["text memory "+op.M]++
				}
				s.counts["operation "+op.K]++
			}
		}
	}
	s.ops += nops
	if nops >= 2 {
		s.nontrivial++
	}
	if o.res != nil {
		for _, pr := range o.res.Phases {
			s.steps += pr.Steps
			s.switches += pr.Switches
			s.blocks += pr.Blocks
			s.stalls += pr.Stalls
			s.jumps += pr.Jumps
			s.clock += pr.Clock - 1<<42
			fmt.Fprintf(h, "%x ", pr.Hash)
			if pr.NTasks > 1 {
				s.scheds[pr.Hash] = true
			}
			for _, t := range pr.Tasks {
				for _, x := range t {
					if strings.HasPrefix(x.Out, "PANIC") {
						s.counts["operation that panicked"]++
					}
				}
			}
		}
		for k, n := range o.res.Counts {
			s.counts[k] += n
		}
		m, _ := base64.StdEncoding.DecodeString(o.res.SiteMap)
		u := s.sites[c.Driver]
		if len(u) < len(m) {
			u = append(u, make([]byte, len(m)-len(u))...)
		}
		for j := range m {
			u[j] |= m[j]
		}
		s.sites[c.Driver] = u
	}
	if nops >= 2 {
		s.distinct[h.Sum64()] = true
	}
	if i < 3 {
		d := c.clone()
		js, _ := json.Marshal(d.Plan.Phases)
		if len(js) > 1500 {
			js = append(js[:1500], "..."...)
		}
		s.samples = append(s.samples, fmt.Sprintf("run %d: driver %s build %s db %s rtseed %d dbfault %q texts %d license sets %d phases %s", i, c.Driver, c.Build, c.DB, c.RTSeed, c.Fault, len(c.Plan.Texts), len(c.Plan.Specs), js))
		sort.Strings(s.samples)
	}
}

type found struct {
	i int
	c *Case
	v *Violation
}

// gencase is run i of the property: a pure function of its arguments.
func (e *engine) gencase(prop *property, p *pool, seed int64, i int) *Case {
	r := rand.New(rand.NewSource(mix(seed, prop.id, i)))
	c := prop.gen(e, p, r, i)
	return c
}

func check(id string, seed int64, tier, work string) int {
	prop := findProperty(id)
	if prop.special != nil {
		return prop.special(nil, prop, seed, tier, work)
	}
	known := loadKnown(id)
	e := newEngine(work)
	e.need(prop.bins...)
	p := e.pool(id, seed, tier == "thorough")
	n, guard := prop.quick, 300*time.Second
	if tier == "thorough" {
		n, guard = prop.deep, 2*time.Hour
	}
	st := newStats()
	var mu sync.Mutex
	var first *found
	knownHit := map[string]string{}
	start := time.Now()
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return first != nil || time.Since(start) > guard
	}
	e.r.each(n, stop, func(i int) {
		c := e.gencase(prop, p, seed, i)
		out := e.r.run(c)
		if out.as != nil {
			c = out.as
		}
		vs := e.o.judge(c, out)
		st.add(i, c, out)
		if i%25 == 0 && len(vs) == 0 { // determinism is checked all along
			again := e.r.run(c)
			if d := sameOutcome(out, again); d != "" {
				die("run %d is not deterministic: %s", i, d)
			}
			st.mu.Lock()
			st.rechecked++
			st.mu.Unlock()
		}
		if len(vs) > 0 && prop.confirm != nil {
			if d := prop.confirm(c); d != nil && (vs[0].Class == "growth" || vs[0].Class == "slowing") {
				c, vs = d, nil
				if out := e.r.run(c); out != nil {
					vs = e.o.judge(c, out)
				}
			}
		}
		for _, v := range vs {
			if k := known.match(v); k != "" {
				mu.Lock()
				knownHit[k] = v.Detail
				mu.Unlock()
				continue
			}
			mu.Lock()
			if first == nil || i < first.i {
				first = &found{i, c, v}
			}
			mu.Unlock()
			break
		}
	})
	logf("%d runs, %d steps, %d oracle evaluations in %.1fs", st.runs, st.steps, e.o.evals, time.Since(start).Seconds())
	wall := time.Since(start)
	for _, k := range known.list {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	code := 0
	nv := 0
	if first != nil {
		logf("violation in run %d: %v", first.i, first.v)
		rp := minimise(e.o, id, seed, first.i, first.c, first.v, 120*time.Second)
		f := writeReplay(verifDir, rp)
		logf("minimised in %d runs: %v", rp.Tries, rp.Violation)
		for _, s := range rp.Schedule {
			logf("  %s", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		code, nv = 1, 1
	}
	e.evidence(prop, st, seed, tier, n, wall, nv)
	return code
}

// steady is r without the heap sizes, which vary by a few objects of the runtime.
func (r *Result) steady() *Result {
	if r == nil {
		return nil
	}
	s := *r
	s.Phases = append([]PhaseResult(nil), r.Phases...)
	for i := range s.Phases {
		s.Phases[i].HeapBytes, s.Phases[i].HeapObj = 0, 0
		s.Phases[i].Cost = 0
		ts := append([][]OpResult(nil), s.Phases[i].Tasks...)
		for j := range ts {
			ts[j] = append([]OpResult(nil), ts[j]...)
			for k := range ts[j] {
				ts[j][k].Cost = nil
			}
		}
		s.Phases[i].Tasks = ts
	}
	return &s
}

// sameOutcome compares everything two runs of one case report.
func sameOutcome(a, b *outcome) string {
	if a.exit != b.exit {
		return fmt.Sprintf("exit %d and %d", a.exit, b.exit)
	}
	x, _ := json.Marshal(a.res.steady())
	y, _ := json.Marshal(b.res.steady())
	if string(x) != string(y) {
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		lo := i - 80
		if lo < 0 {
			lo = 0
		}
		return fmt.Sprintf("%s and %s", clip(string(x[lo:])), clip(string(y[lo:])))
	}
	return ""
}

func popcount(b []byte) int {
	n := 0
	for _, x := range b {
		for ; x != 0; x &= x - 1 {
			n++
		}
	}
	return n
}

func (e *engine) evidence(prop *property, st *stats, seed int64, tier string, asked int, wall time.Duration, nv int) {
	cov := map[string]interface{}{
		"evaluations":                          st.runs,
		"distinct_nontrivial":                  len(st.distinct),
		"rule":                                 ruleRun,
		"samples":                              st.samples,
		"runs_requested":                       asked,
		"runs_per_hour":                        int(float64(st.runs) / wall.Hours()),
		"seeds_per_hour":                       int(float64(st.runs) / wall.Hours()),
		"operations":                           st.ops,
		"scheduling_steps":                     st.steps,
		"preemptive_switches":                  st.switches,
		"blocking_switches":                    st.blocks,
		"steps_tasks_were_stalled":             st.stalls,
		"timer_jumps":                          st.jumps,
		"distinct_interleavings":               len(st.scheds),
		"interleaving_measure":                 "hash over every scheduling decision (task, position, next task) of a phase with at least two tasks",
		"simulated_seconds":                    float64(st.clock) / 1e9,
		"events":                               st.counts,
		"oracle_evaluations":                   e.o.evals,
		"runs_repeated_to_confirm_determinism": st.rechecked,
		"real_components":                      "all code of /repo that the driver links (statement-instrumented in builds instr and race), Go standard library, memory, garbage collector, race detector (build race)",
		"simulated_components":                 "goroutine scheduler choices, clock and timers, runtime random numbers (map iteration, select), the memory holding texts, stored bytes of the built-in database (seam around its string literals)",
		"stubs":                                "built-in database reduced to " + strings.Join(smallIDs[:3], ", ") + " in runs with database small",
	}
	sites := map[string]string{}
	for d, m := range st.sites {
		sites[d] = fmt.Sprintf("%d of %d", popcount(m), len(e.sites[d]))
		if os.Getenv("VSIM_UNREACHED") != "" {
			for i, x := range e.sites[d] {
				if i/8 >= len(m) || m[i/8]>>(i%8)&1 == 0 {
					fmt.Fprintf(os.Stderr, "UNREACHED %s %s:%d\n", d, x.File, x.Line)
				}
			}
		}
	}
	cov["instrumented_statements_reached"] = sites
	writeEvidence(prop, cov, seed, tier, wall, nv)
}

func writeEvidence(prop *property, cov map[string]interface{}, seed int64, tier string, wall time.Duration, nv int) {
	ev := map[string]interface{}{
		"property":    prop.id,
		"tier":        tier,
		"seed":        seed,
		"level":       prop.level,
		"coverage":    cov,
		"assumptions": append([]string{"scheduling points are statement boundaries of /repo code and blocking operations; memory is sequentially consistent between them, weaker orders are covered by the race detector", "the toolchain's race detector and runtime are correct"}, prop.note...),
		"wall_s":      wall.Seconds(),
		"violations":  nv,
	}
	data, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0777))
	must(os.WriteFile(filepath.Join(verifDir, "evidence", prop.id+".json"), append(data, '\n'), 0666))
}

// Known findings: lines "known: property=<id> class=<class> key=<substring> <description>".
type knownList struct {
	list []string
	pats [][2]string
}

func loadKnown(id string) *knownList {
	k := new(knownList)
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if os.IsNotExist(err) {
		return k
	}
	must(err)
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" ")
		f := strings.SplitN(l, " ", 2)
		if len(f) != 2 || !strings.HasPrefix(f[0], "key=") {
			die("known_findings.txt: bad line %q", l)
		}
		k.pats = append(k.pats, [2]string{strings.TrimPrefix(f[0], "key="), f[1]})
		k.list = append(k.list, f[1])
	}
	return k
}

// match returns the description of the known finding that v is, or "".
func (k *knownList) match(v *Violation) string {
	for _, p := range k.pats {
		if v.Key != "" && v.Key == p[0] {
			return p[1]
		}
	}
	return ""
}

// replay runs a replay file again and reports whether it fails as recorded.
func replay(file, work string) int {
	data, err := os.ReadFile(file)
	must(err)
	rp := new(Replay)
	must(json.Unmarshal(data, rp))
	prop := findProperty(rp.Property)
	var vs []*Violation
	if rp.Gen != nil {
		vs = replayGen(rp, work)
	} else {
		e := newEngine(work)
		e.need(rp.Case.Driver+"-"+rp.Case.Build+"-"+rp.Case.DB, rp.Case.Driver+"-plain-"+rp.Case.DB)
		vs = e.o.judge(rp.Case, e.r.run(rp.Case))
	}
	for _, v := range vs {
		logf("%v", v)
		if v.Class == rp.Violation.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.id, file)
			return 1
		}
	}
	logf("replay does not fail on this tree")
	return 0
}

// determinism runs n cases of a property three times, at different loads, and compares everything.
func determinism(id string, seed int64, n int, work string) int {
	switch id {
	case "C10", "C11", "C12", "C13":
		return genDeterminism(id, seed, n, work)
	}
	prop := findProperty(id)
	e := newEngine(work)
	e.need(prop.bins...)
	p := e.pool(id, seed, false)
	outs := make([]*outcome, n)
	e.r.each(n, nil, func(i int) { outs[i] = e.r.run(e.gencase(prop, p, seed, i)) })
	bad := 0
	var mu sync.Mutex
	for _, workers := range []int{1, 3, 16} {
		e.r.sem = make(chan struct{}, workers)
		m := n
		if workers == 1 {
			m = n / 4
		}
		e.r.each(m, nil, func(i int) {
			o := e.r.run(e.gencase(prop, p, seed, i))
			if d := sameOutcome(outs[i], o); d != "" {
				mu.Lock()
				bad++
				if bad < 5 {
					logf("run %d differs at %d workers: %s", i, workers, d)
				}
				mu.Unlock()
			}
		})
		logf("%d runs repeated with %d workers, %d differences", m, workers, bad)
	}
	// The schedule must not depend on race instrumentation either.
	diff := 0
	e.r.each(n/4, nil, func(i int) {
		c := e.gencase(prop, p, seed, i)
		if c.Build != "race" || e.r.bins[c.Driver+"-instr-"+c.DB] == "" {
			return
		}
		c.Build = "instr"
		o := e.r.run(c)
		if outs[i].res == nil || o.res == nil {
			return
		}
		for j := range o.res.Phases {
			if o.res.Phases[j].Hash != outs[i].res.Phases[j].Hash {
				mu.Lock()
				diff++
				mu.Unlock()
			}
		}
	})
	logf("race and instr builds: %d schedules differ", diff)
	if bad > 0 {
		return 1
	}
	return 0
}
