package main

// The oracle: the same operation alone in a fresh process of the
// uninstrumented build; and the judgement of a finished run against it.

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

type oracle struct {
	r      *runner
	mu     sync.Mutex
	cache  map[[32]byte]*oracleEntry
	evals  int
	plains map[[32]byte]*plainSet
	lists  map[string]string // see shipped
	alone  []*Violation      // violations visible without any history at all
}

type oracleEntry struct {
	once sync.Once
	out  string
}

func newOracle(r *runner) *oracle {
	return &oracle{r: r, cache: make(map[[32]byte]*oracleEntry)}
}

// ask runs a one-task plan and returns the outcome of its last operation.
func (o *oracle) ask(c *Case, what string) string {
	key, err := json.Marshal(c)
	must(err)
	h := sha256.Sum256(append(key, what...))
	o.mu.Lock()
	e := o.cache[h]
	if e == nil {
		e = new(oracleEntry)
		o.cache[h] = e
		o.evals++
	}
	o.mu.Unlock()
	e.once.Do(func() {
		out := o.r.run(c)
		if v := crashed(out); v != nil {
			e.out = "CRASH: " + v.String()
			return
		}
		ops := out.res.Phases[len(out.res.Phases)-1].Tasks[0]
		e.out = ops[len(ops)-1].Out
		for _, x := range ops {
			if x.Bad != "" {
				e.out += " BAD: " + x.Bad
			}
		}
		for _, x := range out.res.Pre {
			if x.Bad != "" {
				e.out += " BAD: " + x.Bad
			}
		}
	})
	return e.out
}

// source says where a scanner comes from.
type source struct {
	kind string // builtin, list, spec
	spec []License
}

func (o *oracle) solo(c *Case) *Case {
	return &Case{Driver: c.Driver, Build: "plain", DB: c.DB, RTSeed: 1, Fault: c.Fault}
}

// soloSpec is as solo, for what has nothing to do with the built-in database:
// there it is undamaged.
func (o *oracle) soloSpec(c *Case) *Case {
	q := o.solo(c)
	q.Fault = ""
	return q
}

// shipped is the digest of the licenses that data.gen.go and urls.go list,
// read without the package's help; or "" if they cannot be read that way.
func (o *oracle) shipped(db string) string {
	o.mu.Lock()
	defer o.mu.Unlock()
	if w, ok := o.lists[db]; ok {
		return w
	}
	if o.lists == nil {
		o.lists = make(map[string]string)
	}
	o.lists[db] = ""
	src, err := os.ReadFile(filepath.Join(repoDir, "data.gen.go"))
	if err != nil {
		return ""
	}
	list, err := parseDB(string(src))
	if err != nil {
		logf("data.gen.go: %v", err)
		return ""
	}
	if db == "small" {
		var l []dbEntry
		for _, e := range list {
			for _, id := range smallIDs[:3] {
				if e.ID == id {
					l = append(l, e)
				}
			}
		}
		if len(l) > 0 {
			list = l
		}
	}
	urls := urlEntries(repoDir)
	if len(urls) == 0 {
		return ""
	}
	types := make(map[string]string)
	var sum uint64
	add := func(id, typ, lre, url string) {
		t := []string{"Unknown"}
		if typ != "" {
			t = strings.Split(typ, "|")
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%q %q %q %q", id, t, lre, url)
		sum += h.Sum64()
	}
	for _, e := range list {
		types[e.ID] = e.Type
		add(e.ID, e.Type, e.LRE, "")
	}
	for _, u := range urls {
		add(u[0], types[u[0]], "", u[1])
	}
	o.lists[db] = fmt.Sprintf(" content %x", sum)
	return o.lists[db]
}

// urlEntries lists ID and URL of the license URLs in the package's source.
func urlEntries(dir string) (l [][2]string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, name := range files {
		if b := filepath.Base(name); strings.HasSuffix(b, "_test.go") || b == "gen_data.go" || b == "data.gen.go" {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			c, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			f := make(map[string]string)
			for _, e := range c.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				k, ok := kv.Key.(*ast.Ident)
				v, err := constString(kv.Value)
				if !ok || err != nil {
					return true
				}
				f[k.Name] = v
			}
			if len(f) == 2 && f["ID"] != "" && f["URL"] != "" {
				l = append(l, [2]string{f["ID"], f["URL"]})
			}
			return true
		})
	}
	return l
}

// plainWrong tells what is wrong with a scan that a model can predict.
func (o *oracle) plainWrong(spec []License, text []byte, out string) string {
	key, _ := json.Marshal(spec)
	h := sha256.Sum256(key)
	o.mu.Lock()
	s, ok := o.plains[h]
	if !ok {
		s = plainOf(spec)
		if o.plains == nil {
			o.plains = make(map[[32]byte]*plainSet)
		}
		o.plains[h] = s
	}
	o.mu.Unlock()
	if s == nil {
		return ""
	}
	return s.wrong(text, out)
}

func onePhase(ops ...Op) []Phase {
	return []Phase{{Policy: Policy{Kind: polSerial, Stall: -1}, Tasks: [][]Op{ops}}}
}

// normalOrder moves entries that have only a URL behind the others: the
// order of the two kinds must not matter.
func normalOrder(spec []License) []License {
	var a, b []License
	for _, l := range spec {
		if len(l.LRE) > 0 {
			a = append(a, l)
		} else {
			b = append(b, l)
		}
	}
	return append(a, b...)
}

func (o *oracle) buildOut(c *Case, s source) string {
	q := o.solo(c)
	if s.kind == "list" {
		q.Plan.Phases = onePhase(Op{K: "buildlist"})
	} else {
		q = o.soloSpec(c)
		q.Plan.Specs = [][]License{s.spec}
		q.Plan.Phases = onePhase(Op{K: "build"})
	}
	return o.ask(q, "build")
}

func (o *oracle) scanOut(c *Case, s source, text []byte, w string) string {
	q := o.solo(c)
	q.Plan.Texts = [][]byte{text}
	scan := Op{K: "scan", S: -10, M: "exact", W: w}
	switch s.kind {
	case "builtin":
		scan.S = -1
		q.Plan.Phases = onePhase(scan)
	case "list":
		q.Plan.Phases = onePhase(Op{K: "buildlist"}, scan)
	default:
		q = o.soloSpec(c)
		q.Plan.Texts = [][]byte{text}
		q.Plan.Specs = [][]License{s.spec}
		if c.Driver == "vsimold" {
			q.Plan.Specs = [][]License{normalOrder(s.spec)}
		}
		q.Plan.Phases = onePhase(Op{K: "build"}, scan)
	}
	return o.ask(q, "scan")
}

// sweepOut is the outcome of the sweep with its calls in another order.
func (o *oracle) sweepOut(c *Case, op Op) string {
	q := o.solo(c)
	q.Plan.Texts = c.Plan.Texts
	q.Plan.Specs = c.Plan.Specs
	var mode string
	var lo, order uint64
	var fresh, kind int
	fmt.Sscan(op.W, &mode, &lo, &order, &fresh, &kind)
	if order == 1 {
		order = 0
	} else {
		order = 1
	}
	op.W = fmt.Sprintf("%s %d %d 0 %d", mode, lo, order, kind)
	var ops []Op
	if op.S >= 0 {
		q.Plan.Shared = []int{c.Plan.Shared[op.S]}
		op.S = 0
	}
	q.Plan.Phases = onePhase(append(ops, op)...)
	return o.ask(q, "sweep")
}

func (o *oracle) typeOut(c *Case, op Op) string {
	q := o.solo(c)
	q.Plan.Phases = onePhase(op)
	q.DB, q.Fault = "small", ""
	return o.ask(q, "type")
}

func (o *oracle) listOut(c *Case) string {
	q := o.solo(c)
	q.Plan.Phases = onePhase(Op{K: "list"})
	return o.ask(q, "list")
}

func (o *oracle) dictOut(c *Case, op Op, spec []License, text []byte) string {
	q := o.solo(c)
	q.Plan.Texts = [][]byte{text}
	op.T = 0
	if op.S >= 0 {
		op.S = 0
		q.Plan.Specs = [][]License{spec}
		q.Plan.Shared = []int{0}
	}
	q.Plan.Phases = onePhase(op)
	return o.ask(q, "dict")
}

func (o *oracle) dictPre(c *Case, spec []License) string {
	q := o.solo(c)
	q.Plan.Specs = [][]License{spec}
	q.Plan.Shared = []int{0}
	q.Plan.Phases = onePhase(Op{K: "words", S: 0})
	key, _ := json.Marshal(q)
	h := sha256.Sum256(append(key, "pre"...))
	o.mu.Lock()
	e := o.cache[h]
	if e == nil {
		e = new(oracleEntry)
		o.cache[h] = e
		o.evals++
	}
	o.mu.Unlock()
	e.once.Do(func() {
		out := o.r.run(q)
		if v := crashed(out); v != nil {
			e.out = "CRASH: " + v.String()
			return
		}
		e.out = out.res.Pre[0].Out
	})
	return e.out
}

var matchRE = regexp.MustCompile(`("(?:[^"\\]|\\.)*")/(\d+)\[`)

// foreign reports a match that does not belong to the set.
func foreign(out string, spec []License) string {
	for _, m := range matchRE.FindAllStringSubmatch(out, -1) {
		id, _ := strconv.Unquote(m[1])
		ok := false
		for _, l := range spec {
			if l.ID == id && strconv.Itoa(l.Type) == m[2] {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("match %s of type %s is not in the license set", m[1], m[2])
		}
	}
	return ""
}

// judge compares a run with the oracle. Violations are in a fixed order.
func (o *oracle) judge(c *Case, out *outcome) []*Violation {
	if out == nil {
		return nil // given up
	}
	if v := crashed(out); v != nil {
		return []*Violation{v}
	}
	var vs []*Violation
	add := func(class, where, format string, args ...interface{}) {
		vs = append(vs, &Violation{Class: class, Where: where, Detail: fmt.Sprintf(format, args...)})
	}
	expect := func(where, got, want string, what string) {
		if got != want {
			add("mismatch", where, "%s: got %s, alone in a fresh process %s", what, clip(got), clip(want))
		}
	}
	p := &c.Plan
	for i, s := range p.Shared {
		got := out.res.Pre[i]
		where := fmt.Sprintf("construction of shared %d", i)
		if got.Bad != "" {
			add("invariant", where, "%s", got.Bad)
		}
		if c.Driver == "vsimdict" {
			expect(where, got.Out, o.dictPre(c, p.Specs[s]), "building")
		} else {
			expect(where, got.Out, o.buildOut(c, source{kind: "spec", spec: p.Specs[s]}), "building")
		}
	}
	for pi := range p.Phases {
		ph, pr := &p.Phases[pi], &out.res.Phases[pi]
		for ti, ops := range ph.Tasks {
			slots := make(map[int]source)
			for oi, op := range ops {
				got := pr.Tasks[ti][oi]
				where := fmt.Sprintf("phase %d task %d operation %d (%s)", pi, ti, oi, op.K)
				if got.Bad != "" {
					add("invariant", where, "%s", got.Bad)
				}
				if strings.HasPrefix(got.Out, "FAULT") {
					add("memory", where, "%s in memory mode %s", got.Out, op.M)
					continue
				}
				if op.K == "grow" {
					if strings.HasPrefix(got.Out, "PANIC") {
						add("crash", where, "%s", clip(got.Out))
					}
					if d := superlinear(got.Cost); d != "" {
						add("superlinear", where, "%s", d)
					}
					continue
				}
				if op.K == "sweep" {
					if !c.NoOracle {
						expect(where, got.Out, o.sweepOut(c, op), "many calls")
					}
					continue
				}
				if c.Driver == "vsimdict" {
					switch op.K {
					case "match1", "matchm":
						expect(where, got.Out, o.dictOut(c, op, p.Specs[p.Shared[op.S]], p.Texts[op.T]), "matching")
					}
					continue
				}
				switch op.K {
				case "type":
					expect(where, got.Out, o.typeOut(c, op), "license types")
				case "list":
					expect(where, got.Out, o.listOut(c), "listing")
					if i := strings.Index(got.Out, " content "); i >= 0 && c.Fault == "" {
						if w := o.shipped(c.DB); w != "" && w != got.Out[i:] {
							add("content", where, "BuiltinLicenses does not return the licenses of data.gen.go and urls.go: their digest is%s, that of the list%s", w, got.Out[i:])
						}
					}
				case "build":
					s := source{kind: "spec", spec: p.Specs[op.T]}
					expect(where, got.Out, o.buildOut(c, s), "building")
					slots[op.S] = s
				case "buildlist":
					s := source{kind: "list"}
					expect(where, got.Out, o.buildOut(c, s), "building from the built-in list")
					slots[op.S] = s
				case "drop":
					delete(slots, op.S)
				case "scan":
					if op.S == -2 || op.S == -3 {
						continue
					}
					var s source
					switch {
					case op.S == -1:
						s = source{kind: "builtin"}
					case op.S <= -10:
						var ok bool
						if s, ok = slots[-10-op.S]; !ok {
							continue
						}
					default:
						s = source{kind: "spec", spec: p.Specs[p.Shared[op.S]]}
					}
					want := o.scanOut(c, s, p.Texts[op.T], op.W)
					if c.Fault != "" && s.kind == "builtin" && strings.HasPrefix(got.Out, "PANIC") && strings.HasPrefix(want, "PANIC") {
						got.Out = want // loud either way; the message may differ
					}
					expect(where, got.Out, want, "scanning with "+s.kind)
					o.judgeAlone(c, s, want, got.Out, where, op, add)
				}
			}
		}
		for _, b := range pr.Bad {
			add("invariant", fmt.Sprintf("end of phase %d", pi), "%s", b)
		}
		if pr.Goroutines > 1 {
			add("leak", fmt.Sprintf("end of phase %d", pi), "%d goroutines left behind", pr.Goroutines-1)
		}
	}
	if c.Once && len(vs) == 0 && len(p.Phases[0].Tasks) > 1 {
		d := c.clone()
		d.Once = false
		d.Build = "instr"
		d.Plan.Phases = d.Plan.Phases[:1]
		d.Plan.Phases[0].Policy = Policy{Kind: polSerial, Stall: -1, Budget: hangSteps}
		if r := o.r.run(d); crashed(r) == nil && r != nil {
			got, want := out.res.Phases[0].Steps, r.res.Phases[0].Steps
			if os.Getenv("VSIM_HEAP") != "" {
				fmt.Fprintf(os.Stderr, "ONCE %d %d %.3f\n", got, want, float64(got)/float64(want))
			}
			if got > want+want/10+2000 {
				add("repeated", "phase 0", "overlapping calls executed %d statements, the same calls one after the other %d: what is to be done once is done repeatedly", got, want)
			}
		}
	}
	if v := growth(c, out); v != nil {
		vs = append(vs, v)
	}
	if v := slowing(c, out); v != nil {
		vs = append(vs, v)
	}
	return vs
}

// superlinear judges what calls on texts of doubling size cost.
func superlinear(cost []uint64) string {
	n := len(cost) / 3
	if n < 4 {
		return ""
	}
	for j, what := range []string{"", "statements and bytes", "bytes allocated"} {
		a, b, c := float64(cost[3*(n-3)+j]), float64(cost[3*(n-2)+j]), float64(cost[3*(n-1)+j])
		if os.Getenv("VSIM_HEAP") != "" {
			fmt.Fprintf(os.Stderr, "GROW %d %.0f %.2f %.2f\n", j, c, b/a, c/b)
		}
		if j == 0 || c < 4<<20 || b < 2.6*a || c < 2.6*b {
			continue
		}
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%d: %d", cost[3*i], cost[3*i+j]))
		}
		return fmt.Sprintf("the work of a call (%s, by the size of the text) grows faster than the text: %s", what, strings.Join(l, ", "))
	}
	return ""
}

// slowing judges the work of phases that make equally many calls of the same kind.
func slowing(c *Case, out *outcome) *Violation {
	var l []float64
	for i, ph := range c.Plan.Phases {
		if ph.Cost {
			l = append(l, float64(out.res.Phases[i].Cost))
		}
	}
	if os.Getenv("VSIM_HEAP") != "" && len(l) > 0 {
		fmt.Fprintln(os.Stderr, "COST", c.Driver, c.Plan.Phases[0].Tasks, l)
	}
	n := len(l)
	if n < 4 || l[n-1] < 1.3*l[1] {
		return nil
	}
	for i := 2; i < n; i++ {
		if l[i] < l[i-1]*1.02 {
			return nil
		}
	}
	return &Violation{Class: "slowing", Where: "history", Detail: fmt.Sprintf("phases of equally many calls take ever more work: %.0f", l)}
}

// growth judges the retained memory after the phases that measure it: phases
// with 1, 1, 2 and 4 shares of the calls, all on different inputs. Memory must
// not keep growing in proportion to the calls.
func growth(c *Case, out *outcome) *Violation {
	var h []int64
	var n []int64
	for i, ph := range c.Plan.Phases {
		if !ph.Heap {
			continue
		}
		h = append(h, int64(out.res.Phases[i].HeapBytes))
		var k int64
		for _, t := range ph.Tasks {
			for _, op := range t {
				k += int64(1 + op.R)
				if op.K == "sweep" {
					k += int64(op.N) - 1
				}
			}
		}
		n = append(n, k)
	}
	m := len(h)
	if m < 4 {
		return nil
	}
	if os.Getenv("VSIM_HEAP") != "" {
		fmt.Fprintln(os.Stderr, "HEAP", c.Driver, c.DB, c.Build, c.Plan.Phases[0].Tasks, n, h)
	}
	late, lateN := h[m-1]-h[m-2], n[m-1]
	early, earlyN := h[m-2]-h[0], n[m-2]+n[m-3]
	if late < 2*lateN || late < 6<<10 || early < earlyN || early < 4500 {
		return nil
	}
	return &Violation{Class: "growth", Where: "retained memory", Detail: fmt.Sprintf("after %v calls on new inputs the heap holds %v bytes: the last %d calls left %.1f bytes each", cumulate(n), h, lateN, float64(late)/float64(lateN))}
}

func cumulate(n []int64) []int64 {
	out := append([]int64(nil), n...)
	for i := 1; i < len(out); i++ {
		out[i] += out[i-1]
	}
	return out
}

// judgeAlone checks what must hold even for an operation alone.
func (o *oracle) judgeAlone(c *Case, s source, want, got, where string, op Op, add func(class, where, format string, args ...interface{})) {
	text := c.Plan.Texts[op.T]
	if c.Driver == "vsimlib" {
		switch s.kind {
		case "spec", "list":
			b := o.buildOut(c, s)
			if b == "ok" && (strings.HasPrefix(want, "PANIC") || strings.HasPrefix(want, "FAULT") || strings.HasPrefix(want, "no ")) {
				add("unusable", where, "NewScanner succeeded but its scanner gives %s", clip(want))
			}
			if s.kind == "spec" {
				if f := foreign(want, s.spec); f != "" {
					add("invariant", where, "%s", f)
				}
				if b == "ok" {
					if d := o.plainWrong(s.spec, text, want); d != "" {
						add("model", where, "the scanner does not recognise the set it was given: %s; it gives %s", d, clip(want))
					}
				} else if plainOf(s.spec) != nil {
					add("model", where, "a set without fault is rejected: %s", b)
				}
			}
		case "builtin":
			// The built-in scanner is the scanner of the built-in list, or fails loudly.
			l := source{kind: "list"}
			if b := o.buildOut(c, l); b == "ok" {
				if w := o.scanOut(c, l, text, op.W); w != want {
					add("mismatch", where, "alone, the built-in scanner gives %s, a scanner built from its list %s", clip(want), clip(w))
				}
			} else if !strings.HasPrefix(want, "PANIC") {
				add("failopen", where, "the built-in database gives %s, but Scan returned %s", clip(b), clip(want))
			}
		}
	}
	if c.Driver == "vsimold" && s.kind == "spec" {
		if strings.HasPrefix(want, "PANIC") || strings.HasPrefix(want, "CRASH") {
			add("unusable", where, "checker of a reordered set gives %s", clip(want))
		}
		if d := plainOldWrong(s.spec, text, op.W, want); d != "" {
			add("model", where, "the checker does not recognise the set it was given: %s; it gives %s", d, clip(want))
		}
	}
}

func clip(s string) string {
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

var _ = bytes.Equal
