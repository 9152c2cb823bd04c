package main

// The checks of the generator programs: every single fault at every file
// system call of fixed inputs, then seeded histories with several faults.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

func (g *genSim) shipped() []byte {
	return g.memo.get("shipped", func() interface{} { return readRepo("data.gen.go") }).([]byte)
}

var benignModes = []string{"shuffle", "shuffle small", "shuffle small unknown", "intr=3", "short=2", "short=1 intr=4", "shuffle small intr=5 short=3", "unknown small", "shuffle unknown intr=2 short=1"}

func genPolicyOf(r *rand.Rand) [3]uint64 {
	switch r.Intn(4) {
	case 0:
		return [3]uint64{polRandom, uint64(1 + r.Intn(20))}
	case 1:
		return [3]uint64{polSites, uint64(1 + r.Intn(50))}
	case 2:
		return [3]uint64{polRobin, uint64(1 + r.Intn(100))}
	}
	return [3]uint64{polSerial, 1}
}

// fixture is fixture number i of a property: the case without faults.
func (g *genSim) fixture(prop string, r *rand.Rand) *GenCase {
	c := &GenCase{}
	var args []string
	switch prop {
	case "C10", "C11":
		c.Prog = "gen_data"
		c.Files = fixData(r, r.Intn(8) == 0)
		if r.Intn(6) == 0 {
			args = []string{"-o", "other.gen.go"}
			if d, ok := c.Files["data.gen.go"]; ok {
				c.Files["other.gen.go"] = d
			}
		}
	default:
		o := fixOpts{n: 1 + r.Intn(4), bad: r.Intn(2) == 0}
		if prop == "C13" && r.Intn(20) == 0 || prop == "C12" && r.Intn(60) == 0 {
			o.n = 8 + r.Intn(30)
		}
		o.twice = prop == "C12" && r.Intn(12) == 0
		if r.Intn(3) == 0 {
			args = append(args, "-f")
		}
		if r.Intn(3) == 0 {
			c.Prog = "getcc"
			c.Files, c.Items = fixCC(r, o)
		} else {
			c.Prog = "getspdx"
			c.Files, c.Items = fixSpdx(r, o)
		}
		if c.Prog == "getspdx" && r.Intn(3) == 0 {
			args = append(args, "all")
		} else {
			for _, j := range r.Perm(len(c.Items)) {
				args = append(args, c.Items[j].Arg)
			}
			if r.Intn(6) == 0 && len(args) > 1 && args[0] != "-f" {
				args = append(args, args[0])
			}
		}
	}
	c.Runs = []GenRun{plainRun(args...)}
	return c
}

// writeOffsets are the interesting places to tear a write of the output of
// gen_data: the ends of raw strings, where a cut may leave a valid file.
func writeOffsets(data string, n int, r *rand.Rand, dense bool) []int {
	set := map[int]bool{0: true, 1: true, n / 2: true, n - 1: true, n - 2: true}
	for i := 0; i < len(data) && i < n; i++ {
		if data[i] == '`' && i > len(data)*3/4 {
			set[i+1] = true
		}
	}
	if dense {
		for k := 0; k < 20; k++ {
			set[r.Intn(n+1)] = true
		}
	}
	var l []int
	for o := range set {
		if o >= 0 && o < n {
			l = append(l, o)
		}
	}
	sort.Ints(l)
	for len(l) > 40 {
		k := r.Intn(len(l))
		l = append(l[:k], l[k+1:]...)
	}
	return l
}

// cases builds the list of cases of a check. The seed decides everything.
func (g *genSim) cases(prop string, seed int64, tier string) (list []func() *GenCase, enumerated int) {
	thorough := tier == "thorough"
	add := func(f func() *GenCase) { list = append(list, f) }
	if prop == "C10" {
		n := 9000
		nrepo := 12
		if thorough {
			n, nrepo = 40000, 400
		}
		for i := 0; i < n+nrepo; i++ {
			i := i
			add(func() *GenCase {
				r := rand.New(rand.NewSource(mix(seed, prop, i)))
				var c *GenCase
				if i%500 == 499 {
					c = fixLots(r)
				} else if i < nrepo {
					c = &GenCase{Prog: "gen_data", Base: "repo", Files: map[string][]byte{}}
					if i%3 == 1 {
						c.Files["data.gen.go"] = g.shipped()
					}
					c.Runs = []GenRun{plainRun()}
				} else {
					c = g.fixture(prop, r)
				}
				args := c.Runs[0].Args
				c.Runs = nil
				for k := 1 + r.Intn(3); k > 0; k-- {
					run := plainRun(args...)
					run.Mode = benignModes[r.Intn(len(benignModes))]
					run.Seed, run.RTSeed = r.Uint64()>>20, r.Uint64()>>20
					run.Policy = genPolicyOf(r)
					c.Runs = append(c.Runs, run)
				}
				return c
			})
		}
		return list, 0
	}
	nfix, nrand := 12, 1500
	if prop == "C11" {
		nfix, nrand = 20, 4000
	}
	if thorough {
		nfix, nrand = 150, 30000
	}
	var mu sync.Mutex
	per := make([][]func() *GenCase, nfix)
	parallel(nfix, func(j int) {
		r := rand.New(rand.NewSource(mix(seed, prop, "fixture", j)))
		c := g.fixture(prop, r)
		switch {
		case prop == "C11" && j%10 == 3:
			c.Files["licenses/MIT.lre"] = []byte("{{Type \"Strange\"}} words")
		case prop == "C11" && j%10 == 7:
			c.Files["licenses/MIT.lre"] = []byte(fixProse(r, 10) + "\xff")
		}
		mode := []string{"", "small", "short=2 intr=3", "small shuffle unknown"}[j%4]
		c.Runs[0].Mode = mode
		o := g.once(c)[0]
		args := c.Runs[0].Args
		var l []func() *GenCase
		one := func(f func(run *GenRun)) {
			d := c.clone()
			run := plainRun(args...)
			run.Mode = mode
			f(&run)
			d.Runs = []GenRun{run, plainRun(args...)}
			l = append(l, func() *GenCase { return d })
		}
		for _, cl := range o.calls {
			var offs []int
			if cl.op == "write" && c.Prog == "gen_data" {
				offs = writeOffsets(o.after[outFile(args)], cl.n, r, thorough)
			}
			for _, f := range faultsFor(cl, offs) {
				f := f
				one(func(run *GenRun) { run.Faults = []GenFault{f} })
			}
		}
		total := 0
		for _, cl := range o.calls {
			if cl.op == "write" && cl.n > 0 {
				for _, b := range []int{total, total + 1, total + cl.n/2, total + cl.n - 1} {
					b := b
					one(func(run *GenRun) { run.Full = b })
				}
				total += cl.n
			}
		}
		if c.Prog != "gen_data" {
			for _, w := range []string{"fail", "kill", "missing"} {
				w := w
				one(func(run *GenRun) { run.Go = w })
			}
		}
		mu.Lock()
		per[j] = l
		mu.Unlock()
	})
	for _, l := range per {
		list = append(list, l...)
	}
	enumerated = len(list)
	if prop == "C13" {
		n := 8
		if thorough {
			n = 60
		}
		for i := 0; i < n; i++ {
			i := i
			add(func() *GenCase { return fixMany(rand.New(rand.NewSource(mix(seed, prop, "many", i))), i) })
		}
	}
	for i := 0; i < nrand; i++ {
		i := i
		add(func() *GenCase {
			r := rand.New(rand.NewSource(mix(seed, prop, "random", i)))
			c := g.fixture(prop, r)
			if prop == "C11" && i%300 == 299 {
				c = fixLots(r)
			}
			mode := ""
			if r.Intn(2) == 0 {
				mode = benignModes[r.Intn(len(benignModes))]
			}
			c.Runs[0].Mode = mode
			c.Runs[0].Seed = r.Uint64() >> 20
			o := g.exec(c)[0]
			args, rseed := c.Runs[0].Args, c.Runs[0].Seed
			c.Runs = nil
			for k := 1 + r.Intn(3); k > 0; k-- {
				run := plainRun(args...)
				run.RTSeed, run.Seed = r.Uint64()>>20, r.Uint64()>>20
				run.Policy = genPolicyOf(r)
				run.Mode = mode
				if r.Intn(2) == 0 {
					run.Seed = rseed
				}
				nf := []int{0, 1, 1, 2, 3}[r.Intn(5)]
				for ; nf > 0 && len(o.calls) > 0; nf-- {
					cl := o.calls[r.Intn(len(o.calls))]
					var offs []int
					if cl.op == "write" && cl.n > 0 {
						offs = []int{r.Intn(cl.n), r.Intn(cl.n)}
					}
					fs := faultsFor(cl, offs)
					f := fs[r.Intn(len(fs))]
					f.K += r.Intn(3) - 1
					if f.K > 0 {
						run.Faults = append(run.Faults, f)
					}
				}
				if r.Intn(10) == 0 {
					run.Full = r.Intn(3000)
				}
				if c.Prog != "gen_data" {
					run.Go = []string{"ok", "ok", "ok", "fail", "kill", "missing"}[r.Intn(6)]
				}
				c.Runs = append(c.Runs, run)
			}
			c.Runs = append(c.Runs, plainRun(args...))
			return c
		})
	}
	return list, enumerated
}

// fixLots has very many pattern files, or a very large one.
func fixLots(r *rand.Rand) *GenCase {
	c := &GenCase{Prog: "gen_data", Files: fixData(r, false), Runs: []GenRun{plainRun()}}
	if r.Intn(3) == 0 {
		c.Files["licenses/Large-1.0.lre"] = []byte(strings.Repeat(fixProse(r, 3000)+"\n", 4+r.Intn(60)) + "the end\n")
		return c
	}
	for i := 300 + r.Intn(2000); i > 0; i-- {
		c.Files[fmt.Sprintf("licenses/Lots-%d.%d.lre", i/10, i%10)] = []byte(fmt.Sprintf("lots of licenses and this is number %d\n", i))
	}
	return c
}

// fixMany has as many items that fail for the same reason as no exit status can tell.
func fixMany(r *rand.Rand, i int) *GenCase {
	good := r.Intn(3)
	o := fixOpts{n: 256*(1+r.Intn(2)) + good, good: good}
	c := &GenCase{}
	var args []string
	if i%3 == 2 {
		c.Prog = "getcc"
		o.fail = []int{2, 3, 4, 5, 7}[r.Intn(5)]
		c.Files, c.Items = fixCC(r, o)
	} else {
		c.Prog = "getspdx"
		o.fail = []int{1, 3, 4, 5, 5, 6}[r.Intn(6)]
		c.Files, c.Items = fixSpdx(r, o)
	}
	for _, j := range r.Perm(len(c.Items)) {
		args = append(args, c.Items[j].Arg)
	}
	if c.Prog == "getspdx" && o.fail != 5 && r.Intn(2) == 0 {
		args = []string{"all"}
	}
	c.Runs = []GenRun{plainRun(args...), plainRun(args...)}
	return c
}

func parallel(n int, f func(i int)) {
	r := &runner{sem: make(chan struct{}, 8)}
	r.each(n, nil, f)
}

// genDeterminism runs n histories of a property twice, at different loads.
func genDeterminism(id string, seed int64, n int, work string) int {
	g := newGenSim(work)
	g.need("gen_data", "getspdx", "getcc")
	list, _ := g.cases(id, seed, "quick")
	at := func(i int) *GenCase { return list[i*(len(list)-1)/n]() }
	outs := make([][]*GenOut, n)
	(&runner{sem: make(chan struct{}, 16)}).each(n, nil, func(i int) { outs[i] = g.exec(at(i)) })
	bad := 0
	var mu sync.Mutex
	(&runner{sem: make(chan struct{}, 3)}).each(n, nil, func(i int) {
		if d := sameGen(outs[i], g.exec(at(i))); d != "" {
			mu.Lock()
			defer mu.Unlock()
			bad++
			logf("history %d differs: %s", i, d)
		}
	})
	logf("%d histories repeated, %d differences", n, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func genCheck(_ *engine, prop *property, seed int64, tier, work string) int {
	known := loadKnown(prop.id)
	g := newGenSim(work)
	if prop.id == "C10" || prop.id == "C11" {
		g.need("gen_data")
	} else {
		g.need("getspdx", "getcc")
	}
	start := time.Now()
	guard := 300 * time.Second
	if tier == "thorough" {
		guard = 2 * time.Hour
	}
	list, enumerated := g.cases(prop.id, seed, tier)
	var mu sync.Mutex
	counts := make(map[string]int)
	distinct := make(map[uint64]bool)
	traces := make(map[uint64]bool)
	var samples []string
	type hit struct {
		i int
		c *GenCase
		v *Violation
	}
	var first *hit
	done, calls, nontrivial, again := 0, 0, 0, 0
	r := &runner{sem: make(chan struct{}, 8)}
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return first != nil || time.Since(start) > guard
	}
	r.each(len(list), stop, func(i int) {
		c := list[i]()
		outs := g.exec(c)
		vs := g.judgeGen(prop.id, c, outs)
		if i%25 == 0 && len(vs) == 0 {
			if d := sameGen(outs, g.exec(c)); d != "" {
				die("case %d is not deterministic: %s", i, d)
			}
			mu.Lock()
			again++
			mu.Unlock()
		}
		js, _ := json.Marshal(c)
		mu.Lock()
		defer mu.Unlock()
		done++
		hit1, h := false, fnv.New64a()
		for k, o := range outs {
			calls += len(o.calls)
			if len(o.injected()) > 0 || c.Runs[k].Mode != "" || c.Runs[k].Go != "ok" {
				hit1 = true
			}
			if o.exit == -1 {
				counts["process killed by the simulator"]++
			} else if o.exit == 0 {
				counts["run that reported success"]++
			} else {
				counts["run that reported failure"]++
			}
			if c.Prog != "gen_data" {
				counts["go generate: "+c.Runs[k].Go]++
			}
			if strings.Contains(c.Runs[k].Mode, "shuffle") {
				counts["directory listed in another order"]++
			}
			if strings.Contains(c.Runs[k].Mode, "unknown") {
				counts["directory entries without a type"]++
			}
			ht := fnv.New64a()
			for _, cl := range o.calls {
				if cl.inj != "" {
					counts["injected "+cl.inj+" at "+cl.op]++
				}
				fmt.Fprintf(ht, "%s %s %d %s %s\n", cl.op, cl.path, cl.n, cl.errno, cl.inj)
			}
			fmt.Fprintf(ht, "%d", o.exit)
			traces[ht.Sum64()] = true
		}
		counts["program "+c.Prog]++
		h.Write(js)
		if hit1 {
			nontrivial++
			distinct[h.Sum64()] = true
		}
		if i < 2 || i == enumerated+1 {
			d := c.clone()
			d.Files = nil
			js, _ := json.Marshal(d)
			samples = append(samples, fmt.Sprintf("case %d: %d files, %s", i, len(c.Files), clip(string(js))))
			sort.Strings(samples)
		}
		for _, v := range vs {
			if k := known.match(v); k != "" {
				continue
			}
			if first == nil || i < first.i {
				first = &hit{i, c, v}
			}
			break
		}
	})
	wall := time.Since(start)
	logf("%d histories (%d of %d single faults enumerated), %d runs, %d file system calls in %.1fs", done, min(done, enumerated), enumerated, g.nruns, calls, wall.Seconds())
	for _, k := range known.list {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop.id, k)
	}
	code, nv := 0, 0
	if first != nil {
		logf("violation in case %d: %v", first.i, first.v)
		c, v, tries := g.minimise(prop.id, first.c, first.v)
		rp := &Replay{Property: prop.id, Seed: seed, Run: first.i, Violation: v, Gen: c, Tries: tries}
		for k := range c.Runs {
			rp.Schedule = append(rp.Schedule, describeRun(k, &c.Runs[k]))
		}
		f := writeReplay(verifDir, rp)
		logf("minimised in %d runs: %v", tries, v)
		for _, s := range rp.Schedule {
			logf("  %s", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.id, f)
		code, nv = 1, 1
	}
	cov := map[string]interface{}{
		"evaluations":                          done,
		"distinct_nontrivial":                  len(distinct),
		"rule":                                 "A case is a history of runs of the real program over one scratch tree; it is non-trivial if a fault, a disturbance of directory order, interruptions or partial transfers, or a failing go command took effect in it; cases are distinct if inputs, arguments or fault plans differ.",
		"samples":                              samples,
		"cases_planned":                        len(list),
		"single_faults_enumerated":             min(done, enumerated),
		"single_faults_total":                  enumerated,
		"program_runs":                         g.nruns,
		"runs_per_hour":                        int(float64(g.nruns) / wall.Hours()),
		"seeds_per_hour":                       int(float64(done) / wall.Hours()),
		"file_system_calls":                    calls,
		"events":                               counts,
		"distinct_interleavings":               len(traces),
		"interleaving_measure":                 "hash over all file system calls of a run with their results and injected faults",
		"simulated_seconds":                    0.0,
		"runs_repeated_to_confirm_determinism": again,
		"real_components":                      "the generator programs of /repo (statement-instrumented) with the package licensecheck, Go standard library, a real directory tree in scratch space, process creation",
		"simulated_components":                 "results and order of every file system call below the scratch root, death of the process at any of them, goroutine scheduling, runtime random numbers, clock",
		"stubs":                                "the go command that an importer runs at its end (records its call; succeeds, fails, is killed or is missing)",
	}
	writeEvidence(prop, cov, seed, tier, wall, nv)
	return code
}

func describeRun(k int, r *GenRun) string {
	s := fmt.Sprintf("run %d: args %q", k, r.Args)
	for _, f := range r.Faults {
		s += fmt.Sprintf("; call %d: %s", f.K, faultNames[f.Kind])
		if f.Err != 0 {
			s += fmt.Sprintf(" errno %d", f.Err)
		}
		if f.N != 0 {
			s += fmt.Sprintf(" after %d bytes", f.N)
		}
	}
	if r.Full >= 0 {
		s += fmt.Sprintf("; disk full after %d bytes", r.Full)
	}
	if r.Mode != "" {
		s += "; " + r.Mode
	}
	if r.Go != "ok" {
		s += "; go command: " + r.Go
	}
	return s
}

func sameGen(a, b []*GenOut) string {
	for i := range a {
		if a[i].exit != b[i].exit {
			return fmt.Sprintf("run %d: exit %d and %d", i, a[i].exit, b[i].exit)
		}
		if len(a[i].calls) != len(b[i].calls) {
			return fmt.Sprintf("run %d: %d and %d calls", i, len(a[i].calls), len(b[i].calls))
		}
		for j := range a[i].calls {
			if a[i].calls[j] != b[i].calls[j] {
				return fmt.Sprintf("run %d: call %v and %v", i, a[i].calls[j], b[i].calls[j])
			}
		}
		for _, f := range sortedKeys(a[i].after, b[i].after) {
			if a[i].after[f] != b[i].after[f] {
				return fmt.Sprintf("run %d: file %s differs", i, f)
			}
		}
	}
	return ""
}

// minimise makes the case smaller while the same class of violation stays.
func (g *genSim) minimise(prop string, c *GenCase, v *Violation) (*GenCase, *Violation, int) {
	tries := 0
	deadline := time.Now().Add(60 * time.Second)
	fails := func(d *GenCase) *Violation {
		tries++
		for _, x := range g.judgeGen(prop, d, g.exec(d)) {
			if x.Class == v.Class {
				return x
			}
		}
		return nil
	}
	late := func() bool { return time.Now().After(deadline) }
	try := func(d *GenCase) bool {
		if late() {
			return false
		}
		if x := fails(d); x != nil {
			c, v = d, x
			return true
		}
		return false
	}
	for again := true; again && !late(); {
		again = false
		for i := len(c.Runs) - 1; i >= 0 && len(c.Runs) > 1; i-- {
			d := c.clone()
			d.Runs = append(d.Runs[:i], d.Runs[i+1:]...)
			again = try(d) || again
		}
		for i := range c.Runs {
			for j := len(c.Runs[i].Faults) - 1; j >= 0; j-- {
				d := c.clone()
				d.Runs[i].Faults = append(d.Runs[i].Faults[:j], d.Runs[i].Faults[j+1:]...)
				again = try(d) || again
			}
			if c.Runs[i].Full >= 0 {
				d := c.clone()
				d.Runs[i].Full = -1
				again = try(d) || again
			}
			if c.Runs[i].Go != "ok" {
				d := c.clone()
				d.Runs[i].Go = "ok"
				again = try(d) || again
			}
			for _, w := range strings.Fields(c.Runs[i].Mode) {
				d := c.clone()
				d.Runs[i].Mode = strings.Join(strings.Fields(strings.Replace(" "+d.Runs[i].Mode+" ", " "+w+" ", " ", 1)), " ")
				again = try(d) || again
			}
			if c.Runs[i].Policy != [3]uint64{} {
				d := c.clone()
				d.Runs[i].Policy = [3]uint64{}
				again = try(d) || again
			}
		}
		var names []string
		for f := range c.Files {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			if c.Prog != "gen_data" && strings.HasPrefix(f, "licenses/_") {
				continue
			}
			d := c.clone()
			delete(d.Files, f)
			again = try(d) || again
		}
		for i := len(c.Items) - 1; i >= 0 && len(c.Items) > 1; i-- {
			d := c.clone()
			it := d.Items[i]
			d.Items = append(d.Items[:i], d.Items[i+1:]...)
			for _, s := range it.Sources {
				delete(d.Files, s)
			}
			for k := range d.Runs {
				var args []string
				for _, a := range d.Runs[k].Args {
					if a != it.Arg {
						args = append(args, a)
					}
				}
				d.Runs[k].Args = args
			}
			again = try(d) || again
		}
	}
	return c, v, tries
}

// replayGen runs the case of a replay file.
func replayGen(rp *Replay, work string) []*Violation {
	g := newGenSim(work)
	g.need(rp.Gen.Prog)
	return g.judgeGen(rp.Property, rp.Gen, g.exec(rp.Gen))
}
