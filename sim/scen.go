package main

// Workload generation: what is run, on what, under which schedule and faults.

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"
)

type pool struct {
	texts   [][]byte // small texts in families
	big     [][]byte // large texts
	specs   [][]License
	bad     [][]License
	olds    [][]License
	oldNear []medium // plain legacy sets and sets with blanks
	dicts   [][]License
	words   []string
	long    []string // very long ones
	builtin [][]byte // texts made for the built-in database
	full    [][]byte // texts for the whole built-in database
	medium  []medium
	huge    []medium // plain sets of very many licenses or words
	tiny    [][]byte // texts to be scanned again and again
	nears   []medium // sets of words that are easily confused
}

// A medium is a license set of real patterns with texts that match some of them.
type medium struct {
	spec  []License
	texts [][]byte
}

func newPool(c *corpus, thorough bool) *pool {
	p := new(pool)
	nt, ns, nb := 150, 14, 40
	if thorough {
		nt, ns, nb = 500, 40, 120
	}
	p.texts = append(p.texts, nil, []byte(" \n"), []byte("x"))
	p.texts = append(p.texts, c.families(nt, false)...)
	for i := 0; i < nt/8; i++ { // odd things, in company
		var b bytes.Buffer
		for k := 1 + c.r.Intn(12); k > 0; k-- {
			b.WriteString(pick(c.r, filler))
			if c.r.Intn(4) == 0 {
				b.WriteString(pick(c.r, synthText[pick(c.r, synthNames())]))
			}
		}
		b.WriteString(pick(c.r, []string{"", "{#x", "[a](http://b", "<a", "<a b", "&#x4", "&#4", "&co", "&copy;", "http", "https:/", "Copyright", "wor-", "\xc3", "{#", "]("}))
		p.texts = append(p.texts, b.Bytes())
	}
	for _, x := range []string{"https://example.org/licenses/by/3.0/us/extra\n", "https://example.org/licenses/by/3.0/us\n", "https://example.org/licenses/by/3.0\n"} {
		p.texts = append(p.texts, []byte(x))
	}
	p.big = append(p.big, c.big(9000), c.big(70000))
	p.big = append(p.big, c.confuse(p.big[0]))
	for i := 0; i < ns; i++ {
		p.specs = append(p.specs, c.spec())
	}
	for i := 0; i < nb; i++ {
		p.bad = append(p.bad, c.damage(p.specs[c.r.Intn(len(p.specs))]))
	}
	for i, x := range oddPatterns {
		if i%2 == c.r.Intn(2) || thorough {
			l := append([]License(nil), p.specs[c.r.Intn(ns)]...)
			k := c.r.Intn(len(l) + 1)
			p.bad = append(p.bad, append(l[:k:k], append([]License{{ID: "Odd", Type: 2, LRE: []byte(x)}}, l[k:]...)...))
		}
	}
	p.bad = append(p.bad, nil, []License{synthURL[0]}, []License{{ID: "X", LRE: []byte("one")}}, []License{{ID: "X", LRE: []byte("//** nothing **//")}})
	// Texts for the built-in database: its own licenses, whole, cut, joined, decorated.
	for _, n := range []string{"ISC.t1", "ISC.t2", "0BSD.t1", "WTFPL.t1", "WTFPL.t2"} {
		t := c.real[n]
		p.builtin = append(p.builtin, t, c.confuse(t), c.confuse(t))
	}
	a, b := c.real["ISC.t1"], c.real["WTFPL.t1"]
	p.builtin = append(p.builtin,
		bytes.Join([][]byte{a, b}, []byte("\n")), bytes.Join([][]byte{b, a}, []byte("\n")),
		append(append([]byte("https://creativecommons.org/licenses/by/4.0/\n"), a...), "http://www.apache.org/licenses/LICENSE-2.0\n"...),
		append([]byte("Copyright 2020 Someone\n\n"), b...), a[:len(a)/2], nil,
		[]byte("see https://creativecommons.org/licenses/by-sa/3.0/us/ for more\n"))
	nf, nm := 24, 6
	if thorough {
		nf, nm = 150, 20
	}
	p.full = append(c.fullTexts(nf), nil, p.builtin[0])
	for i := 0; i < nm; i++ {
		l, t := c.medium(5 + c.r.Intn(20))
		p.medium = append(p.medium, medium{l, t})
	}
	for i := 0; i < 2*nm; i++ {
		l, t := c.near(2 + c.r.Intn(5))
		p.nears = append(p.nears, medium{l, t})
		if i%3 == 0 { // the same names and lengths, other words
			var o []License
			for _, x := range l {
				x.LRE = bytes.Replace(bytes.Replace(x.LRE, []byte("always so"), []byte("never ere"), 1), []byte("limitat"), []byte("restrict"), -1)
				o = append(o, x)
			}
			p.nears = append(p.nears, medium{o, append([][]byte{bytes.Replace(t[0], []byte("always so"), []byte("never ere"), -1)}, t...)})
		}
	}
	for i := 0; i < nm+2; i++ {
		l, t := c.plain(1+c.r.Intn(9), 12)
		if i == 0 {
			l, t = c.plain(30+c.r.Intn(90), 40)
		}
		p.nears = append(p.nears, medium{l, t})
	}
	for i := 0; i < 2*nm; i++ {
		p.nears = append(p.nears, c.collide()...)
		p.oldNear = append(p.oldNear, c.collideOld())
	}
	for i := 0; i < 2*nm; i++ {
		p.nears = append(p.nears, c.runes())
		p.oldNear = append(p.oldNear, c.runesOld())
	}
	// Very many licenses; very many words.
	l, t := c.plain(300+c.r.Intn(400), 20)
	p.huge = append(p.huge, medium{l, t})
	l, t = c.plainWith(60, 1200, 66000)
	p.huge = append(p.huge, medium{l, t})
	// Legacy license sets: every mix and order of text and URL entries.
	for i := 0; i < ns+3; i++ {
		var l []License
		for _, n := range synthNames() {
			if c.r.Intn(2) == 0 {
				l = append(l, License{ID: n, LRE: []byte(pick(c.r, synthText[n]) + pick(c.r, filler) + pick(c.r, synthText[n]))})
			}
		}
		if c.r.Intn(2) == 0 {
			l = append(l, License{ID: "ISC", LRE: c.real["ISC.t1"]}, License{ID: "WTFPL", LRE: c.real["WTFPL.t1"], URL: "www.wtfpl.net/txt/copying"})
		}
		for _, u := range synthURL {
			if c.r.Intn(3) > 0 {
				l = append(l, License{ID: u.ID, URL: u.URL})
			}
		}
		c.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		p.olds = append(p.olds, l)
	}
	var real []License
	for _, n := range c.names {
		if i := strings.LastIndex(n, "."); i > 0 && strings.HasSuffix(n, ".t1") {
			real = append(real, License{ID: n[:i], LRE: c.real[n]})
		}
	}
	for _, u := range synthURL {
		i := c.r.Intn(len(real) + 1)
		real = append(real[:i], append([]License{{ID: u.ID, URL: u.URL}}, real[i:]...)...)
	}
	p.olds = append(p.olds, real)
	for i := 0; i < ns+6; i++ {
		l, t := c.plainOld(1 + c.r.Intn(8))
		p.oldNear = append(p.oldNear, medium{l, t})
		if i%2 == 0 {
			l, t = c.blankOld(1 + c.r.Intn(5))
			p.oldNear = append(p.oldNear, medium{l, t})
		}
	}
	for i := 0; i < ns; i++ {
		var l []License
		for _, x := range p.specs[i] {
			if len(x.LRE) > 0 {
				l = append(l, x)
			}
		}
		if i%3 == 2 {
			l = c.damage(l)
		}
		p.dicts = append(p.dicts, l)
	}
	for i := 0; i < ns/2; i++ {
		p.dicts = append(p.dicts, c.damage(c.damage(p.dicts[c.r.Intn(ns)])))
	}
	for i := 0; i < ns/2; i++ {
		m := p.nears[c.r.Intn(len(p.nears))]
		var l []License
		for _, x := range m.spec {
			if len(x.LRE) > 0 {
				l = append(l, x)
			}
		}
		p.dicts = append(p.dicts, l)
		k := c.r.Intn(len(m.texts) - 3)
		p.texts = append(p.texts, m.texts[k:k+4]...)
	}
	seen := map[string]bool{}
	for _, t := range append(append([][]byte{}, p.texts...), p.builtin...) {
		for _, w := range strings.Fields(strings.ToLower(string(t))) {
			if !seen[w] && len(w) < 20 {
				seen[w] = true
				p.words = append(p.words, w)
			}
		}
	}
	p.tiny = [][]byte{nil, nil, []byte("\n"), []byte("()\n"), []byte("x"), []byte("some words\n"), []byte("copyright"), []byte("http\n"), []byte("https://example.org/licenses/widget"), []byte("no URL but http\n"),
		[]byte("https://example.org/licenses/widget/us"), []byte("https://creativecommons.org/licenses/by/4.0"), []byte("https://example.org/\n"), []byte("\xff")}
	for _, t := range p.texts {
		if len(t) < 300 {
			p.tiny = append(p.tiny, t)
		}
	}
	for k := 0; k < 3; k++ { // long words that begin, end or go on alike
		var t, lre bytes.Buffer
		for i := 0; i < 6; i++ {
			s := pick(c.r, longStems())
			for j := 0; j < 3; j++ {
				w := c.vary(s, j == 2)
				p.long = append(p.long, w)
				t.WriteString(w + pick(c.r, []string{" ", "\n", "-", " of the "}))
				if j < 2 && len(s) < 1100 {
					lre.WriteString(w + []string{" ", "\n", " and "}[j])
				}
			}
		}
		p.texts = append(p.texts, t.Bytes())
		p.dicts = append(p.dicts, []License{{ID: "Long", LRE: lre.Bytes()}, {ID: "Short", LRE: []byte("the sprocket")}})
	}
	for i := 0; i < 3; i++ {
		p.long = append(p.long, strings.Repeat("w", 1<<16)+"xyz"[i:], strings.Repeat("w", 65535+i))
	}
	p.words = append(p.words, "", "a", "copyright", "http", "\xff", "é")
	return p
}

// A caseBuilder interns texts and license sets.
type caseBuilder struct {
	c     *Case
	r     *rand.Rand
	texts map[string]int
	specs map[string]int
}

func newCase(r *rand.Rand, driver, build string) *caseBuilder {
	return &caseBuilder{c: &Case{Driver: driver, Build: build, DB: "small", RTSeed: uint64(r.Intn(1 << 20))}, r: r, texts: map[string]int{}, specs: map[string]int{}}
}

func (b *caseBuilder) text(t []byte) int {
	i, ok := b.texts[string(t)]
	if !ok {
		i = len(b.c.Plan.Texts)
		b.texts[string(t)] = i
		b.c.Plan.Texts = append(b.c.Plan.Texts, t)
	}
	return i
}

func (b *caseBuilder) spec(s []License) int {
	k := fmt.Sprintf("%q", s)
	i, ok := b.specs[k]
	if !ok {
		i = len(b.c.Plan.Specs)
		b.specs[k] = i
		b.c.Plan.Specs = append(b.c.Plan.Specs, s)
	}
	return i
}

func (b *caseBuilder) share(s []License) int {
	b.c.Plan.Shared = append(b.c.Plan.Shared, b.spec(s))
	return len(b.c.Plan.Shared) - 1
}

func (b *caseBuilder) phase(pol Policy, tasks ...[]Op) *Phase {
	b.c.Plan.Phases = append(b.c.Plan.Phases, Phase{Policy: pol, Tasks: tasks})
	return &b.c.Plan.Phases[len(b.c.Plan.Phases)-1]
}

func logUniform(r *rand.Rand, lo, hi float64) uint64 {
	return uint64(math.Exp(math.Log(lo) + r.Float64()*(math.Log(hi)-math.Log(lo))))
}

// genPolicy draws a schedule policy for n tasks of about est steps in all.
func genPolicy(r *rand.Rand, n int, est float64) Policy {
	p := Policy{Seed: r.Uint64() >> 1, Stall: -1, ClockStep: []int64{0, 100, 1000, 1000000}[r.Intn(4)], NowStep: nowStep(r), Budget: hangSteps}
	switch x := r.Intn(100); {
	case x < 35:
		p.Kind = polRandom
		p.K = []uint32{1, 2, 3, 7, 20, 100, 1000, 20000}[r.Intn(8)]
	case x < 62:
		p.Kind = polPCT
		for d := 1 + r.Intn(6); d > 0; d-- {
			p.Points = append(p.Points, logUniform(r, 1, est))
		}
		for i := range p.Points {
			for j := 0; j < i; j++ {
				if p.Points[i] < p.Points[j] {
					p.Points[i], p.Points[j] = p.Points[j], p.Points[i]
				}
			}
		}
	case x < 84:
		p.Kind = polSites
		p.Mod = []uint32{2, 5, 20, 60}[r.Intn(4)]
		p.K = []uint32{50, 1000, 1 << 30}[r.Intn(3)]
	case x < 94:
		p.Kind = polRobin
		p.K = []uint32{1, 2, 5, 31, 333, 5000}[r.Intn(6)]
	default:
		p.Kind = polSerial
	}
	if n > 1 && r.Intn(4) == 0 {
		p.Stall = r.Intn(n)
		p.StallLo = logUniform(r, 1, est)
		p.StallHi = p.StallLo + logUniform(r, 10, est*2)
	}
	return p
}

// nowStep is by how much time goes on whenever the clock is read.
func nowStep(r *rand.Rand) int64 { return []int64{0, 0, 1e6, 1e9, 60e9, 86400e9}[r.Intn(6)] }

// calm is serial, with a clock of some speed.
func calm(r *rand.Rand) Policy {
	p := serial()
	p.ClockStep, p.NowStep = []int64{0, 1000, 100000, 1e7}[r.Intn(4)], nowStep(r)
	return p
}

func serial() Policy { return Policy{Kind: polSerial, Stall: -1, Budget: 1 << 40, ClockStep: 1000} }

var memModes = []string{"", "exact", "shared", "sharedro", "ro", "rofill", "reuse", "reuseclean"}

// order is the order of a sweep over n numbers, n a power of two.
func (b *caseBuilder) order(n int) uint64 {
	return []uint64{0, 1, uint64(b.r.Intn(n)) | 1, uint64(b.r.Intn(n)) | 1}[b.r.Intn(4)]
}

func (b *caseBuilder) memMode() string { return memModes[b.r.Intn(len(memModes))] }

// some draws k texts so that several are from one family or equal.
func some(r *rand.Rand, l [][]byte, k int) [][]byte {
	var out [][]byte
	i := r.Intn(len(l))
	for len(out) < k {
		switch r.Intn(3) {
		case 0:
			i = r.Intn(len(l))
		case 1:
			i = (i + 1) % len(l)
		}
		out = append(out, l[i])
	}
	return out
}

// burst is the same call again and again; most is the size of all texts.
func (b *caseBuilder) burst(p *pool, s, most int) Op {
	r := b.r
	t := p.tiny[r.Intn(len(p.tiny))]
	n := int(logUniform(r, 2, 5000))
	if n > most/(len(t)+20) {
		n = most / (len(t) + 20)
	}
	return Op{K: "scan", S: s, T: b.text(t), M: b.memMode(), R: n}
}

// genWrap has two rows of calls with so many others between them that what
// counts calls in 8 or 16 bits takes those of the second row for the first.
func genWrap(drv string, p *pool, r *rand.Rand) *Case {
	b := newCase(r, drv, "plain")
	var from [][]byte
	var spec []License
	kind := "scan"
	switch drv {
	case "vsimlib":
		spec, from = p.anySpec(r)
	case "vsimold":
		m := p.oldNear[r.Intn(len(p.oldNear))]
		spec, from = m.spec, m.texts
	case "vsimdict":
		m := p.nears[r.Intn(len(p.nears))]
		for _, l := range m.spec {
			if len(l.LRE) > 0 {
				spec = append(spec, l)
			}
		}
		from = m.texts
		kind = []string{"matchm", "matchm", "match1", "split"}[r.Intn(4)]
	}
	b.share(spec)
	s := 0
	if drv == "vsimlib" && r.Intn(8) == 0 {
		s, from = -1, p.builtin
	}
	pattern := 0
	if len(spec) > 0 {
		pattern = r.Intn(len(spec))
	}
	scan := func(t []byte) Op {
		op := Op{K: kind, S: s, T: b.text(t)}
		switch drv {
		case "vsimdict":
			op.N = pattern
		case "vsimold":
			op.M, op.W = b.memMode(), "1 1 1"
		default:
			op.M = b.memMode()
		}
		return op
	}
	var first, second []Op
	co := &corpus{r: r}
	for _, t := range some(r, from, 1+r.Intn(5)) {
		first = append(first, scan(t))
		switch r.Intn(3) {
		case 0:
			t = co.confuse(t)
		case 1:
			t = from[r.Intn(len(from))]
		default: // as many words of no license
			if n := len(strings.Fields(string(t))); n < 500 {
				t = []byte(strings.Repeat("lorem ", n))
			}
		}
		second = append(second, scan(t))
	}
	r.Shuffle(len(second), func(i, j int) { second[i], second[j] = second[j], second[i] })
	mod := 1 << 16
	if r.Intn(4) == 0 {
		mod = 1 << 8
	}
	op := scan([][]byte{[]byte("x"), []byte("x"), nil, []byte("copyright"), []byte("some words\n"), []byte("http://x.org/y")}[r.Intn(6)])
	op.M, op.R = "", mod-len(first)-1+[]int{0, 0, 0, 1, -1, 2}[r.Intn(6)]
	ops := append(append(first, op), second...)
	if r.Intn(3) == 0 {
		ops = append(append(ops, op), first...)
	}
	b.phase(calm(r), ops)
	return b.c
}

type genFunc func(p *pool, r *rand.Rand) *Case

// genFull runs on the whole built-in database. What precedes is the first use.
func genFull(prop string, p *pool, r *rand.Rand) *Case {
	b := newCase(r, "vsimlib", "plain")
	b.c.DB = "full"
	text := func() int { return b.text(p.full[r.Intn(len(p.full))]) }
	scan := func() Op {
		return Op{K: "scan", S: -1, T: text(), M: b.memMode(), N: []int{0, 0, 1, 2, 3}[r.Intn(5)]}
	}
	serialOps := func(n int) []Op {
		var ops []Op
		built := false
		for j := 0; j < n; j++ {
			switch x := r.Intn(40); {
			case x == 0 || prop == "C05" && x < 8:
				ops = append(ops, Op{K: "list", N: r.Intn(2)})
			case (x == 1 && prop != "C01" || prop == "C05" && x < 12) && !built:
				built = true
				ops = append(ops, Op{K: "buildlist", S: 0, N: r.Intn(2)})
			case x == 39:
				ops = append(ops, sweep(-1, 64, "scan", uint64(r.Intn(1000)), b.order(64), r.Intn(4) == 0))
			case x < 4:
				m := p.medium[r.Intn(len(p.medium))]
				ops = append(ops, Op{K: "build", S: 1, T: b.spec(m.spec), N: r.Intn(2)}, Op{K: "scan", S: -11, T: b.text(m.texts[r.Intn(len(m.texts))]), M: b.memMode()})
			case x < 16 && built:
				op := scan()
				op.S = -10
				ops = append(ops, op)
			default:
				ops = append(ops, scan())
			}
		}
		return ops
	}
	conc := func(n int) {
		var tasks [][]Op
		for i := 0; i < n; i++ {
			var ops []Op
			for j := 1 + r.Intn(3); j > 0; j-- {
				ops = append(ops, scan())
			}
			if r.Intn(8) == 0 {
				ops = append(ops, Op{K: "list", N: r.Intn(2)})
			}
			tasks = append(tasks, ops)
		}
		pol := genPolicy(r, n, 400000)
		pol.Budget = hangSteps
		b.phase(pol, tasks...)
	}
	switch prop {
	case "C01": // used before, then by many
		b.c.Build = "instr"
		b.phase(calm(r), []Op{scan()})
		conc(2 + r.Intn(4))
		if r.Intn(2) == 0 {
			conc(2 + r.Intn(4))
		}
	case "C02": // first used by many
		b.c.Build = "instr"
		conc(2 + r.Intn(4))
		conc(2)
	default:
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.phase(calm(r), serialOps(3+r.Intn(30))).GC = r.Intn(3) == 0
		}
	}
	return b.c
}

// withFull makes the last n of the quick runs, and some later ones, use the
// whole database: what a cheaper run shows need not be found by a dear one.
func withFull(prop string, n, quick int, f genFunc) func(e *engine, p *pool, r *rand.Rand, i int) *Case {
	return func(e *engine, p *pool, r *rand.Rand, i int) *Case {
		if i >= quick-n && i < quick || i >= 3000 && i%100 == 0 {
			return genFull(prop, p, r)
		}
		return f(p, r)
	}
}

// hugeOps build a scanner from very many licenses or words and use it.
func (b *caseBuilder) hugeOps(p *pool) []Op {
	r := b.r
	m := p.huge[r.Intn(len(p.huge))]
	ops := []Op{{K: "build", S: 2, T: b.spec(m.spec), N: r.Intn(2)}}
	for k := 1 + r.Intn(4); k > 0; k-- {
		ops = append(ops, Op{K: "scan", S: -12, T: b.text(m.texts[r.Intn(len(m.texts))]), M: b.memMode()})
	}
	return ops
}

// anySpec is a license set, now and then a large one, and texts for it.
func (p *pool) anySpec(r *rand.Rand) ([]License, [][]byte) {
	if r.Intn(8) == 0 {
		m := p.medium[r.Intn(len(p.medium))]
		return m.spec, m.texts
	}
	if r.Intn(4) == 0 {
		m := p.nears[r.Intn(len(p.nears))]
		return m.spec, m.texts
	}
	return p.specs[r.Intn(len(p.specs))], p.texts
}

// ---- C01 ------------------------------------------------------------------

// genMarathon has thousands of short calls go by while others are under way.
func genMarathon(p *pool, r *rand.Rand) *Case {
	b := newCase(r, "vsimlib", "race")
	spec, from := p.anySpec(r)
	b.share(spec)
	var short [][]byte
	for _, t := range append(append([][]byte{[]byte("some words\n"), []byte("copyright")}, p.tiny...), from...) {
		if len(t) > 0 && len(t) < 40 {
			short = append(short, t)
		}
	}
	tasks := [][]Op{nil}
	for _, t := range some(r, from, 1+r.Intn(3)) {
		tasks[0] = append(tasks[0], Op{K: "scan", S: 0, T: b.text(t), M: b.memMode(), N: r.Intn(4)})
	}
	nt := 1 + r.Intn(2)
	for i := 0; i < nt; i++ {
		tasks = append(tasks, []Op{{K: "scan", S: 0, T: b.text(short[r.Intn(len(short))]), M: b.memMode(), R: int(logUniform(r, 1000, 9000)) / nt}})
	}
	pol := genPolicy(r, len(tasks), 3e6)
	if pol.Kind == polRandom || pol.Kind == polRobin { // fewer switches
		pol.K += 1000
	}
	b.phase(pol, tasks...)
	return b.c
}

func genC01(p *pool, r *rand.Rand) *Case {
	if r.Intn(25) == 0 {
		return genMarathon(p, r)
	}
	b := newCase(r, "vsimlib", "race")
	if r.Intn(5) == 0 {
		b.c.Build = "instr"
	}
	ns := 1 + r.Intn(2)
	from := p.texts
	for i := 0; i < ns; i++ {
		spec, ts := p.anySpec(r)
		b.share(spec)
		if r.Intn(2) == 0 {
			from = ts
		}
	}
	builtin := r.Intn(3) == 0
	if builtin && r.Intn(2) == 0 { // already used before
		b.phase(calm(r), []Op{{K: "scan", S: -1, T: b.text([]byte("warm up"))}})
	}
	nt := 2 + r.Intn(4)
	if r.Intn(8) == 0 {
		nt = 6 + r.Intn(6)
	}
	texts := some(r, from, 1+r.Intn(5))
	if r.Intn(12) == 0 {
		texts = append(texts, p.big[r.Intn(len(p.big))])
	}
	var tasks [][]Op
	for i := 0; i < nt; i++ {
		var ops []Op
		for j := 1 + r.Intn(4); j > 0; j-- {
			t := texts[r.Intn(len(texts))]
			switch x := r.Intn(22); {
			case x == 20:
				ops = append(ops, b.burst(p, r.Intn(ns), 4000))
			case x == 21 && builtin:
				ops = append(ops, b.burst(p, -1, 4000))
			case x == 0:
				ops = append(ops, Op{K: "list", N: r.Intn(2)})
			case x == 2:
				ops = append(ops, Op{K: "type", S: r.Intn(1 << 9), T: r.Intn(1 << 9)})
			case x == 3 && len(t) < 3000:
				b.text(t)
				ops = append(ops, sweep(r.Intn(ns), 1<<uint(r.Intn(4)), "scan", uint64(r.Intn(64)), 0, r.Intn(4) == 0))
			case x == 1:
				ops = append(ops, Op{K: "build", S: 0, T: b.spec(p.specs[r.Intn(len(p.specs))]), N: r.Intn(2)},
					Op{K: "scan", S: -10, T: b.text(t), M: b.memMode()})
			case x < 6 && builtin:
				ops = append(ops, Op{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))]), M: b.memMode(), N: r.Intn(4)})
			default:
				ops = append(ops, Op{K: "scan", S: r.Intn(ns), T: b.text(t), M: b.memMode(), N: r.Intn(4)})
			}
		}
		tasks = append(tasks, ops)
	}
	b.phase(genPolicy(r, nt, 100000), tasks...)
	return b.c
}

// ---- C02 ------------------------------------------------------------------

func genC02(p *pool, r *rand.Rand) *Case {
	b := newCase(r, "vsimlib", "race")
	if r.Intn(4) == 0 {
		b.c.Build = "instr"
	}
	nt := 2 + r.Intn(5)
	var tasks [][]Op
	for i := 0; i < nt; i++ {
		var ops []Op
		switch r.Intn(8) {
		case 0:
			ops = append(ops, Op{K: "list", N: r.Intn(2)})
		case 1:
			ops = append(ops, Op{K: "buildlist", S: 0, N: r.Intn(2)}, Op{K: "scan", S: -10, T: b.text(p.builtin[r.Intn(len(p.builtin))])})
		case 2:
			ops = append(ops, Op{K: "build", S: 0, T: b.spec(p.specs[r.Intn(len(p.specs))])}, Op{K: "scan", S: -10, T: b.text(p.texts[r.Intn(len(p.texts))])})
		}
		if r.Intn(10) > 0 || i < 2 {
			for j := 1 + r.Intn(3); j > 0; j-- {
				ops = append(ops, Op{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))]), M: b.memMode()})
			}
		}
		tasks = append(tasks, ops)
	}
	b.phase(genPolicy(r, nt, 600000), tasks...)
	b.c.Once = r.Intn(3) == 0
	if r.Intn(3) == 0 { // and once more when it is initialised
		b.phase(genPolicy(r, 2, 20000),
			[]Op{{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))])}},
			[]Op{{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))])}})
	}
	return b.c
}

// ---- C03 ------------------------------------------------------------------

func (b *caseBuilder) histOp(p *pool, ns int, texts [][]byte) []Op {
	r := b.r
	t := b.text(texts[r.Intn(len(texts))])
	scan := Op{K: "scan", S: r.Intn(ns), T: t, M: b.memMode(), N: []int{0, 0, 0, 1, 2, 3}[r.Intn(6)]}
	most := 150000
	if b.c.Build != "plain" {
		most = 3000
	}
	switch x := r.Intn(60); {
	case x == 59 && b.c.Build == "plain":
		n := 1 << uint(3+r.Intn(7))
		mode := []string{"scan", "scan", "mixed"}[r.Intn(3)]
		if mode == "mixed" && n > 64 {
			n = 64
		}
		sc := r.Intn(ns)
		if r.Intn(3) == 0 {
			sc = -1
		}
		return []Op{sweep(sc, n, mode, uint64(r.Intn(1000))*8, b.order(n), r.Intn(8) == 0)}
	case x == 56 && b.c.Build == "plain" && r.Intn(40) == 0:
		return b.hugeOps(p)
	case x == 58:
		return []Op{b.burst(p, r.Intn(ns), most), scan}
	case x == 57:
		if r.Intn(2) == 0 {
			return []Op{b.burst(p, -10-r.Intn(2), most)}
		}
		scan.S, scan.T = -1, b.text(p.builtin[r.Intn(len(p.builtin))])
		return []Op{b.burst(p, -1, most), scan}
	case x < 12:
		scan.S = -1
		scan.T = b.text(p.builtin[r.Intn(len(p.builtin))])
	case x == 12:
		return []Op{{K: "list", N: r.Intn(2)}}
	case x == 13:
		return []Op{{K: "build", S: r.Intn(2), T: b.spec(p.specs[r.Intn(len(p.specs))]), N: r.Intn(2)}}
	case x == 14:
		return []Op{{K: "build", S: 3, T: b.spec(p.bad[r.Intn(len(p.bad))]), N: r.Intn(2)}}
	case x == 15:
		return []Op{{K: "scan", S: -2 - r.Intn(2), T: t}} // panics
	case x == 16:
		return []Op{{K: "buildlist", S: r.Intn(2), N: r.Intn(2)}}
	case x == 17:
		scan.T = b.text(p.big[r.Intn(len(p.big))])
	case x < 24:
		scan.S = -10 - r.Intn(2)
	case x < 28: // twice the same
		return []Op{scan, scan}
	}
	return []Op{scan}
}

func genC03(p *pool, r *rand.Rand) *Case {
	if r.Intn(60) == 0 {
		return genWrap("vsimlib", p, r)
	}
	b := newCase(r, "vsimlib", "plain")
	if r.Intn(6) == 0 {
		b.c.Build = "instr"
	}
	ns := 1 + r.Intn(3)
	texts := p.texts
	for i := 0; i < ns; i++ {
		spec, ts := p.anySpec(r)
		b.share(spec)
		if len(ts) < len(p.texts) {
			if len(texts) == len(p.texts) && r.Intn(2) == 0 {
				texts = some(r, p.texts, 6)
			}
			texts = append(ts[:len(ts):len(ts)], texts...)
		}
	}
	if r.Intn(2) == 0 {
		texts = some(r, texts, 2+r.Intn(6))
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := 1 + int(logUniform(r, 2, 150))
		if b.c.Build == "instr" && n > 20 {
			n = 20
		}
		var ops []Op
		for len(ops) < n {
			ops = append(ops, b.histOp(p, ns, texts)...)
		}
		ph := b.phase(calm(r), ops)
		ph.GC = r.Intn(2) == 0
		ph.Clock = []int64{0, 0, 1e9, 3600e9, 1e15}[r.Intn(5)]
		ph.Skew = []int64{0, 0, -3600e9, 3600e9}[r.Intn(4)]
	}
	return b.c
}

// ---- C04 ------------------------------------------------------------------

func genC04(p *pool, r *rand.Rand) *Case {
	b := newCase(r, "vsimlib", "race")
	if r.Intn(3) == 0 {
		b.c.Build = "plain"
	}
	ns := 1 + r.Intn(2)
	from := p.texts
	for i := 0; i < ns; i++ {
		spec, ts := p.anySpec(r)
		b.share(spec)
		if r.Intn(2) == 0 {
			from = ts
		}
	}
	modes := []string{"", "ro", "rofill", "reuse", "reuseclean", "sharedro", "shared"}
	gen := func(n int, texts [][]byte) []Op {
		var ops []Op
		mode := modes[r.Intn(len(modes))]
		for j := 0; j < n; j++ {
			if r.Intn(3) == 0 {
				mode = modes[r.Intn(len(modes))]
			}
			op := Op{K: "scan", S: r.Intn(ns), T: b.text(texts[r.Intn(len(texts))]), M: mode, N: r.Intn(4)}
			if r.Intn(10) == 0 {
				op.T = b.text(p.tiny[r.Intn(len(p.tiny))])
			}
			if r.Intn(6) == 0 {
				op.S, op.T = -1, b.text(p.builtin[r.Intn(len(p.builtin))])
			}
			ops = append(ops, op)
		}
		return ops
	}
	texts := some(r, from, 2+r.Intn(6))
	if r.Intn(4) == 0 {
		texts = append(texts, p.big[r.Intn(len(p.big))])
	}
	if b.c.Build == "plain" {
		for k := 1 + r.Intn(3); k > 0; k-- {
			ph := b.phase(calm(r), gen(5+r.Intn(80), texts))
			ph.GC = r.Intn(2) == 0
		}
		return b.c
	}
	nt := 1 + r.Intn(4)
	var tasks [][]Op
	for i := 0; i < nt; i++ {
		tasks = append(tasks, gen(1+r.Intn(5), texts))
	}
	b.phase(genPolicy(r, nt, 100000), tasks...)
	if r.Intn(2) == 0 {
		b.phase(calm(r), gen(3, texts)).GC = r.Intn(2) == 0
	}
	return b.c
}

// ---- C05 ------------------------------------------------------------------

func genC05(p *pool, r *rand.Rand) *Case {
	b := newCase(r, "vsimlib", "race")
	conc := r.Intn(2) == 0
	if !conc {
		b.c.Build = "plain"
	}
	ops := func(n int) []Op {
		var ops []Op
		built := false
		for j := 0; j < n; j++ {
			t := b.text(p.builtin[r.Intn(len(p.builtin))])
			switch x := r.Intn(10); {
			case x < 3:
				ops = append(ops, Op{K: "list", N: r.Intn(2)})
			case x < 5 && (!built || !conc):
				built = true
				ops = append(ops, Op{K: "buildlist", S: 0, N: r.Intn(2)})
			case x < 8:
				ops = append(ops, Op{K: "scan", S: -1, T: t, M: b.memMode(), N: r.Intn(4)})
			default:
				if built {
					ops = append(ops, Op{K: "scan", S: -10, T: t, M: b.memMode(), N: r.Intn(4)})
				} else {
					ops = append(ops, Op{K: "list", N: 1})
				}
			}
		}
		return ops
	}
	if conc {
		nt := 2 + r.Intn(3)
		var tasks [][]Op
		for i := 0; i < nt; i++ {
			tasks = append(tasks, ops(1+r.Intn(4)))
		}
		b.phase(genPolicy(r, nt, 600000), tasks...)
	} else {
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.phase(calm(r), ops(2+r.Intn(25))).GC = r.Intn(2) == 0
		}
	}
	return b.c
}

// ---- C06 ------------------------------------------------------------------

func genC06(p *pool, r *rand.Rand) *Case {
	b := newCase(r, "vsimlib", "race")
	conc := r.Intn(5) < 3
	if !conc {
		b.c.Build = "plain"
	}
	b.share(p.specs[r.Intn(len(p.specs))])
	all := append(append([][]License{}, p.specs...), p.bad...)
	set := []([]License){all[r.Intn(len(all))], p.specs[r.Intn(len(p.specs))], p.bad[r.Intn(len(p.bad))]}
	texts := p.texts
	if r.Intn(8) == 0 {
		m := p.medium[r.Intn(len(p.medium))]
		set = append(set, m.spec)
		texts = append(m.texts[:len(m.texts):len(m.texts)], p.texts[:10]...)
	} else if r.Intn(6) == 0 {
		k := r.Intn(len(p.nears))
		texts = p.texts[:10:10]
		for _, m := range []medium{p.nears[k], p.nears[(k+1)%len(p.nears)]} {
			set = append(set, m.spec)
			texts = append(texts, m.texts...)
		}
	}
	ops := func(n int) []Op {
		var ops []Op
		for j := 0; j < n; j++ {
			slot := r.Intn(3)
			s := set[r.Intn(len(set))]
			if !conc && r.Intn(3) == 0 {
				s = all[r.Intn(len(all))]
			}
			ops = append(ops, Op{K: "build", S: slot, T: b.spec(s), N: r.Intn(2)})
			for k := r.Intn(3); k > 0; k-- {
				ops = append(ops, Op{K: "scan", S: -10 - slot, T: b.text(texts[r.Intn(len(texts))]), M: b.memMode()})
			}
			if r.Intn(3) == 0 {
				ops = append(ops, Op{K: "scan", S: 0, T: b.text(texts[r.Intn(len(texts))])})
			}
			if r.Intn(3) == 0 {
				ops = append(ops, Op{K: "scan", S: -10 - r.Intn(3), T: b.text(texts[r.Intn(len(texts))])})
			}
			if r.Intn(12) == 0 {
				ops = append(ops, Op{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))])})
			}
			if !conc && r.Intn(100) == 0 {
				ops = append(ops, b.hugeOps(p)...)
			}
			if r.Intn(12) == 0 && len(b.c.Plan.Texts) > 0 {
				n := 1 << uint(r.Intn(2))
				if !conc {
					n <<= 4
				}
				ops = append(ops, sweep(0, n, []string{"build", "bad", "mixed"}[r.Intn(3)], uint64(r.Intn(1000)), b.order(n), r.Intn(4) == 0))
			}
		}
		return ops
	}
	if conc {
		nt := 2 + r.Intn(3)
		var tasks [][]Op
		for i := 0; i < nt; i++ {
			tasks = append(tasks, ops(1+r.Intn(2)))
		}
		b.phase(genPolicy(r, nt, 300000), tasks...)
	} else {
		for k := 1 + r.Intn(2); k > 0; k-- {
			b.phase(calm(r), ops(3+r.Intn(15))).GC = r.Intn(2) == 0
		}
	}
	return b.c
}

// ---- C07 ------------------------------------------------------------------

func genC07(p *pool, r *rand.Rand, names []string) *Case {
	b := newCase(r, "vsimlib", "race")
	switch r.Intn(4) {
	case 0:
		b.c.Build = "instr"
	case 1:
		b.c.Build = "plain"
	}
	modes := []string{"trunc", "trunc", "lost", "tail", "flip", "zero", "swap", "paren", "paren", "wild", "wild"}
	var fs []string
	nf := 1
	if r.Intn(5) == 0 {
		nf = 2
	}
	for i := 0; i < nf; i++ {
		fs = append(fs, fmt.Sprintf("%s:%s:%d:%d", names[r.Intn(len(names))], modes[r.Intn(len(modes))], r.Intn(1200), r.Intn(8)))
	}
	if r.Intn(20) == 0 { // nothing at all survived
		fs = nil
		for _, n := range names {
			fs = append(fs, n+":lost:0")
		}
	}
	b.c.Fault = strings.Join(fs, ";")
	nt := 1 + r.Intn(4)
	gen := func() []Op {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			switch x := r.Intn(10); {
			case x == 0:
				ops = append(ops, Op{K: "list", N: r.Intn(2)})
			case x == 1:
				ops = append(ops, Op{K: "build", S: 0, T: b.spec(p.specs[r.Intn(len(p.specs))])}, Op{K: "scan", S: -10, T: b.text(p.texts[r.Intn(len(p.texts))])})
			case x == 2:
				ops = append(ops, Op{K: "buildlist", S: 1}, Op{K: "scan", S: -11, T: b.text(p.builtin[r.Intn(len(p.builtin))])})
			default:
				ops = append(ops, Op{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))]), M: b.memMode()})
			}
		}
		return ops
	}
	var tasks [][]Op
	for i := 0; i < nt; i++ {
		tasks = append(tasks, gen())
	}
	b.phase(genPolicy(r, nt, 600000), tasks...)
	b.phase(genPolicy(r, 2, 20000), gen(), []Op{{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))])}}).GC = r.Intn(2) == 0
	return b.c
}

// ---- C08 ------------------------------------------------------------------

func genC08(p *pool, r *rand.Rand) *Case {
	if r.Intn(80) == 0 {
		return genWrap("vsimdict", p, r)
	}
	b := newCase(r, "vsimdict", "race")
	conc := r.Intn(3) > 0
	if !conc {
		b.c.Build = "plain"
	}
	nd := 1 + r.Intn(2)
	var np []int
	from := p.texts
	if !conc && r.Intn(60) == 0 {
		m := p.huge[r.Intn(len(p.huge))]
		var s []License
		for _, l := range m.spec {
			if len(l.LRE) > 0 {
				s = append(s, l)
			}
		}
		b.share(s)
		np = append(np, len(s))
		nd++
		from = append(p.texts[:50:50], m.texts...)
	}
	for i := len(np); i < nd; i++ {
		s := p.dicts[r.Intn(len(p.dicts))]
		if r.Intn(8) == 0 {
			m := p.medium[r.Intn(len(p.medium))]
			s, from = nil, m.texts
			for _, l := range m.spec {
				if len(l.LRE) > 0 {
					s = append(s, l)
				}
			}
		}
		b.share(s)
		np = append(np, len(s))
	}
	twin, own := "", -1
	word := func() (w string) {
		if twin != "" && r.Intn(2) == 0 {
			w, twin = twin, ""
			return w
		}
		switch r.Intn(12) {
		case 0, 1:
			return p.long[r.Intn(len(p.long))]
		case 2, 3, 4:
			w = twins[r.Intn(len(twins))][r.Intn(2)]
			twin = twinOf(w)
			return w
		}
		return p.words[r.Intn(len(p.words))]
	}
	text := func() int {
		if r.Intn(3) == 0 {
			return b.text(p.builtin[r.Intn(len(p.builtin))])
		}
		return b.text(from[r.Intn(len(from))])
	}
	hot := r.Intn(8)
	gen := func(n int) []Op {
		var ops []Op
		for j := 0; j < n; j++ {
			d := r.Intn(nd)
			switch x := r.Intn(15); {
			case x == 14:
				if len(b.c.Plan.Texts) > 0 {
					n := 1 << uint(r.Intn(3))
					if !conc {
						n <<= 4
					}
					ops = append(ops, sweep(d, n, []string{"split", "lookup", "match1", "matchm", "parse", "mixed"}[r.Intn(6)], uint64(r.Intn(1000)), b.order(n), r.Intn(4) == 0))
				}
			case x == 0:
				ops = append(ops, Op{K: "lookup", S: d, W: word()})
			case x == 1:
				ops = append(ops, Op{K: "words", S: d})
			case x < 4:
				ops = append(ops, Op{K: "split", S: d, T: text()})
			case x < 7:
				ops = append(ops, Op{K: "matchm", S: d, T: text()})
			case x < 11:
				n := hot
				if r.Intn(3) == 0 {
					n = r.Intn(8)
				}
				ops = append(ops, Op{K: "match1", S: d, T: text(), N: n % (np[d] + 1)})
			default: // vocabularies of the task's own
				if twin == "" {
					own = -1 - r.Intn(2)
				}
				switch r.Intn(8) {
				case 0, 1:
					ops = append(ops, Op{K: "insert", S: own, W: word()})
				case 5:
					ops = append(ops, Op{K: "ownset", S: own})
				case 6:
					n := r.Intn(8)
					ops = append(ops, Op{K: "ownmatch", S: own, T: text(), N: n})
					if r.Intn(2) == 0 { // between, the vocabulary grows
						t := text()
						ops = append(ops, Op{K: "insertsplit", S: own, T: t}, Op{K: "ownmatch", S: own, T: t, N: n})
					}
				case 2:
					ops = append(ops, Op{K: "insertsplit", S: own, T: text()})
				case 3:
					ops = append(ops, Op{K: "split", S: own, T: text()})
				case 4:
					ops = append(ops, Op{K: "lookup", S: own, W: word()})
				default:
					l := p.dicts[r.Intn(len(p.dicts))]
					if r.Intn(3) == 0 {
						ops = append(ops, Op{K: "parse", S: own, T: b.text([]byte(pick(r, oddPatterns)))})
					} else if len(l) > 0 {
						ops = append(ops, Op{K: "parse", S: own, T: b.text(l[r.Intn(len(l))].LRE)})
					}
					switch r.Intn(4) {
					case 0:
						ops = append(ops, Op{K: "words", S: own})
					case 1, 2:
						ops = append(ops, Op{K: "ownset", S: own})
					}
				}
			}
		}
		return ops
	}
	if conc {
		nt := 2 + r.Intn(4)
		var tasks [][]Op
		for i := 0; i < nt; i++ {
			tasks = append(tasks, gen(1+r.Intn(5)))
		}
		b.phase(genPolicy(r, nt, 100000), tasks...)
	} else {
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.phase(calm(r), gen(5+r.Intn(80))).GC = r.Intn(2) == 0
		}
	}
	return b.c
}

// ---- C09 ------------------------------------------------------------------

func genC09(p *pool, r *rand.Rand) *Case {
	if r.Intn(100) == 0 {
		return genWrap("vsimold", p, r)
	}
	b := newCase(r, "vsimold", "race")
	conc := r.Intn(2) == 0
	if !conc {
		b.c.Build = "plain"
	}
	ns := 1 + r.Intn(3)
	var plain [][]byte
	for i := 0; i < ns; i++ {
		if r.Intn(3) == 0 {
			m := p.oldNear[r.Intn(len(p.oldNear))]
			b.share(m.spec)
			plain = append(plain, some(r, m.texts, 3+r.Intn(5))...)
			continue
		}
		b.share(p.olds[r.Intn(len(p.olds))])
	}
	texts := some(r, append(append([][]byte{}, p.texts...), p.builtin...), 3+r.Intn(5))
	texts = append(texts, plain...)
	co := &corpus{r: r}
	for _, l := range b.c.Plan.Specs { // texts that these checkers know, whole and with gaps
		if len(l) > 0 {
			if t := l[r.Intn(len(l))].LRE; len(t) > 0 {
				texts = append(texts, t, append([]byte("https://example.org/licenses/widget\n"), t...), []byte(co.gap(string(t), 1+r.Intn(2))), co.confuse(t))
			}
		}
	}
	opts := []string{"", "10 40 8"}
	for k := 1 + r.Intn(3); k > 0; k-- {
		opts = append(opts, fmt.Sprint([]int{0, 0, 2, 3, 9, 10, 11, 20}[r.Intn(8)], []int{0, 0, 5, 39, 40, 60, 90, 100}[r.Intn(8)], []int{0, 0, 1, 2, 7, 8, 9, 25, 60}[r.Intn(9)]))
	}
	gen := func(n int) []Op {
		var ops []Op
		for j := 0; j < n; j++ {
			t := b.text(texts[r.Intn(len(texts))])
			w := opts[r.Intn(len(opts))]
			switch x := r.Intn(20); {
			case x == 0:
				ops = append(ops, Op{K: "list"})
			case x == 19:
				n := 1 << uint(r.Intn(3))
				if !conc {
					n <<= 4
				}
				ops = append(ops, sweep(r.Intn(ns), n, []string{"scan", "scan", "mixed"}[r.Intn(3)], uint64(r.Intn(1000)), b.order(n), r.Intn(4) == 0))
			case x == 18:
				op := b.burst(p, r.Intn(ns), 1000)
				if !conc {
					op = b.burst(p, r.Intn(ns), 60000)
				}
				op.W = w
				ops = append(ops, op)
			case x < 4:
				spec := p.olds[r.Intn(len(p.olds))]
				if r.Intn(2) == 0 {
					m := p.oldNear[r.Intn(len(p.oldNear))]
					spec, t = m.spec, b.text(m.texts[r.Intn(len(m.texts))])
				}
				ops = append(ops, Op{K: "build", S: 0, T: b.spec(spec), N: r.Intn(2)},
					Op{K: "scan", S: -10, T: t, M: b.memMode(), W: w})
			default:
				ops = append(ops, Op{K: "scan", S: r.Intn(ns), T: t, M: b.memMode(), N: r.Intn(4), W: w})
			}
		}
		return ops
	}
	if conc {
		nt := 2 + r.Intn(4)
		var tasks [][]Op
		for i := 0; i < nt; i++ {
			tasks = append(tasks, gen(1+r.Intn(4)))
		}
		b.phase(genPolicy(r, nt, 100000), tasks...)
	} else {
		for k := 1 + r.Intn(3); k > 0; k-- {
			b.phase(calm(r), gen(5+r.Intn(60))).GC = r.Intn(2) == 0
		}
	}
	return b.c
}

// ---- C14 ------------------------------------------------------------------

// sweepOf is a serial sweep whose inputs all differ in the same way: kind 1–13.
func sweepOf(kind, s, n int, mode string, lo uint64) Op {
	return Op{K: "sweep", S: s, N: n, W: fmt.Sprintf("%s %d 0 0 %d", mode, lo, kind)}
}

func sweep(s, n int, mode string, lo, order uint64, fresh bool) Op {
	f := 0
	if fresh {
		f = 1
	}
	return Op{K: "sweep", S: s, N: n, W: fmt.Sprintf("%s %d %d %d", mode, lo, order, f)}
}

// genC14 makes the same kind of calls on ever new inputs and measures what
// memory is retained, after 1, 2, 4 and 8 shares of them.
func genC14(p *pool, r *rand.Rand) *Case {
	drv := []string{"vsimlib", "vsimlib", "vsimlib", "vsimlib", "vsimdict", "vsimold"}[r.Intn(6)]
	conc := r.Intn(4) == 0
	build := "plain"
	if conc {
		build = "instr"
	}
	b := newCase(r, drv, build)
	b.c.NoOracle = true
	texts := some(r, p.texts, 2+r.Intn(5))
	modes := map[string]int{"scan": 4096, "build": 64, "bad": 128, "list": 1024, "zero": 512, "type": 4096, "mixed": 128, "buildlist": 32}
	scanner := -1 // the built-in one
	switch drv {
	case "vsimlib":
		if r.Intn(3) > 0 {
			spec, ts := p.anySpec(r)
			b.share(spec)
			if len(ts) < len(p.texts) && r.Intn(2) == 0 {
				texts = some(r, ts, 2)
				modes["scan"] = 512
			}
			scanner = 0
		} else {
			texts = append(texts, some(r, p.builtin, 3)...)
			if !conc && r.Intn(6) == 0 {
				b.c.DB = "full"
				texts = some(r, p.full, 4)
				modes = map[string]int{"scan": 512, "list": 64, "zero": 512}
			}
		}
	case "vsimdict":
		modes = map[string]int{"split": 2048, "lookup": 8192, "match1": 2048, "matchm": 2048, "parse": 64, "mixed": 128}
		b.share(p.dicts[r.Intn(len(p.dicts))])
		scanner = 0
	case "vsimold":
		modes = map[string]int{"scan": 512, "build": 64, "mixed": 128, "list": 256}
		b.share(p.olds[r.Intn(len(p.olds)-1)])
		scanner = 0
	}
	for _, t := range texts {
		b.text(t)
	}
	if len(b.c.Plan.Specs) == 0 {
		b.spec(p.specs[r.Intn(len(p.specs))])
	}
	var names []string
	for _, m := range []string{"scan", "build", "bad", "list", "zero", "type", "mixed", "buildlist", "split", "lookup", "match1", "matchm", "parse"} {
		if modes[m] > 0 {
			names = append(names, m)
		}
	}
	nt := 1
	if conc {
		nt = 2 + r.Intn(2)
	}
	type col struct {
		mode  string
		fresh bool
		kind  int
	}
	var cols [][]col
	for i := 0; i < nt; i++ {
		var l []col
		for j := 1 + r.Intn(2); j > 0; j-- {
			c := col{mode: names[r.Intn(len(names))], fresh: r.Intn(6) == 0}
			if r.Intn(3) == 0 {
				c.kind = newKinds[r.Intn(len(newKinds))]
			}
			l = append(l, c)
		}
		cols = append(cols, l)
	}
	lo := uint64(r.Intn(1 << 30))
	est := 100000.0
	pol := genPolicy(r, nt, est)
	for _, k := range []int{1, 1, 2, 4} {
		var tasks [][]Op
		for _, l := range cols {
			var ops []Op
			for _, c := range l {
				n := modes[c.mode]
				if conc {
					n /= 32
				}
				op := sweep(scanner, n*k, c.mode, lo, 0, c.fresh)
				op.W += fmt.Sprint(" ", c.kind)
				ops = append(ops, op)
				lo += uint64(n * k)
			}
			tasks = append(tasks, ops)
		}
		ph := b.phase(serial(), tasks...)
		ph.Heap = true
		if conc {
			ph.Policy = pol
			pol.Seed++
		}
	}
	return b.c
}

// longer is a run of C14 with many more calls, by which growth that has an end
// is told from growth that has none.
func longer(c *Case) *Case {
	d := c.clone()
	d.Long = true
	next := uint64(1) << 40
	for p := range d.Plan.Phases {
		for _, ops := range d.Plan.Phases[p].Tasks {
			for i := range ops {
				var mode string
				var lo, order uint64
				var fresh, kind int
				fmt.Sscan(ops[i].W, &mode, &lo, &order, &fresh, &kind)
				ops[i].N *= 4
				ops[i].W = fmt.Sprintf("%s %d %d %d %d", mode, next, order, fresh, kind)
				next += uint64(ops[i].N)
			}
		}
	}
	return d
}

// ---- C15 ------------------------------------------------------------------

// Tokens of which texts are made whose cost is measured.
var tokens = []string{"{#", "](#", "](http://", "](https://", "](", "[", "<a", "<", ">", "<br>", "&a", "&#1", "&ldquo;", "&", ";", "((", "))", "(", ")", "[a](http://x", "{#a}", "{", "}",
	"http://a.com/", "https://creativecommons.org/licenses/by/4.0/", "https://creativecommons.org/licenses/by/", "http://www.apache.org/licenses/LICENSE-2.0", "https://example.org/licenses/widget", "www.", "://", "http", "//", "/",
	"copyright ", "Copyright (c) 2020 x\n", "©", "(c) ", "(c)", "notice(s) ", "(s)", "é", "\xff", "\xe2\x80", "ſ", "\u0301", "\u200b", "\u2019", "-", "--", "\n", "\r\n", "\t", " ", "  ", "a", "a ", "the ", "of the ", "1", "1.", "a. ", "* ", "# ", "> ", "// ", "\"", "'", "_", "_a", "+", "C++ ", "x.y", ".", ",", "all rights reserved ", "\x00", "A", "aB", "license ", "licence ", "permission is hereby granted "}

func (b *caseBuilder) growUnit(p *pool, texts [][]byte, known []string) string {
	r := b.r
	piece := func() string {
		if len(known) > 0 && r.Intn(5) == 0 {
			return known[r.Intn(len(known))]
		}
		switch r.Intn(12) {
		case 0:
			t := texts[r.Intn(len(texts))]
			if len(t) == 0 {
				return "x"
			}
			i := r.Intn(len(t))
			j := i + 1 + r.Intn(60)
			if j > len(t) {
				j = len(t)
			}
			return string(t[i:j])
		case 1:
			w := p.words[r.Intn(len(p.words))]
			if r.Intn(2) == 0 {
				w += " "
			}
			return w
		case 2:
			return strings.Repeat(tokens[r.Intn(len(tokens))], 1+r.Intn(5))
		}
		return tokens[r.Intn(len(tokens))]
	}
	s := ""
	for k := []int{1, 1, 1, 2, 2, 3, 4, 6}[r.Intn(8)]; k > 0; k-- {
		s += piece()
	}
	if len(known) > 0 && r.Intn(6) == 0 {
		s = known[r.Intn(len(known))]
	} else if r.Intn(15) == 0 {
		s = string(texts[r.Intn(len(texts))])
	}
	if s == "" || len(s) > 4000 {
		s = "x "
	}
	return s
}

// genC15 measures what calls cost, or suspends one task for good.
func genC15(p *pool, r *rand.Rand) *Case {
	switch x := r.Intn(100); {
	case x < 40:
		return genGrow(p, r)
	case x < 50:
		return genSlow(p, r)
	}
	return genBlocked(p, r)
}

// genGrow: texts of doubling size.
func genGrow(p *pool, r *rand.Rand) *Case {
	drv := []string{"vsimlib", "vsimlib", "vsimdict"}[r.Intn(3)]
	b := newCase(r, drv, "cost")
	b.c.NoOracle = true
	op := Op{K: "grow", S: -1}
	texts := p.texts
	var known []string // what the set knows
	know := func(spec []License) {
		for _, l := range spec {
			if l.URL != "" {
				known = append(known, "http://"+l.URL+"\n", "https://"+l.URL+" ", "<https://"+l.URL+"/>")
			}
		}
		for i := 0; i < 4; i++ {
			if t := texts[r.Intn(len(texts))]; len(t) > 0 && len(t) < 3000 {
				known = append(known, string(t))
			}
		}
	}
	if drv == "vsimdict" {
		b.share(p.dicts[r.Intn(len(p.dicts))])
		op.S, op.M, op.N = 0, []string{"split", "insertsplit", "match1", "match1", "matchm"}[r.Intn(5)], r.Intn(8)
	} else if r.Intn(3) > 0 {
		b.share(p.specs[r.Intn(len(p.specs))])
		op.S = 0
		know(b.c.Plan.Specs[0])
	} else {
		texts = p.builtin
		know([]License{{URL: "creativecommons.org/licenses/by/4.0"}, {URL: "www.apache.org/licenses/LICENSE-2.0"}})
	}
	short := func() []byte {
		switch r.Intn(6) {
		case 0:
			return []byte(b.growUnit(p, texts, known))
		case 1:
			return texts[r.Intn(len(texts))]
		}
		return nil
	}
	op.T = b.text(short())
	op.W = fmt.Sprint(b.text([]byte(b.growUnit(p, texts, known))), " ", b.text(short()), " ", 1<<uint(17+r.Intn(2)))
	b.phase(serial(), []Op{op})
	b.c.Long = true
	return b.c
}

// genSlow: equally many calls on new inputs, again and again.
var newKinds = []int{1, 2, 3, 3, 4, 4, 8, 13, 13, 14}

func genSlow(p *pool, r *rand.Rand) *Case {
	drv := []string{"vsimlib", "vsimlib", "vsimlib", "vsimdict"}[r.Intn(4)]
	b := newCase(r, drv, "cost")
	b.c.NoOracle = true
	modes := map[string]int{"scan": 512, "build": 8, "bad": 16, "list": 512, "zero": 512, "type": 512}
	s := -1
	if drv == "vsimdict" {
		modes = map[string]int{"split": 512, "lookup": 1024, "match1": 512, "matchm": 512, "parse": 16}
		b.share(p.dicts[r.Intn(len(p.dicts))])
		s = 0
	} else if r.Intn(3) > 0 {
		b.share(p.specs[r.Intn(len(p.specs))])
		s = 0
	}
	limit := []int{60, 300, 1500}[r.Intn(3)]
	for _, t := range some(r, p.texts, 2+r.Intn(9)) {
		if len(t) < limit {
			b.text(t)
		}
	}
	b.text([]byte("some words\n"))
	b.spec(p.specs[r.Intn(len(p.specs))])
	var names []string
	for _, m := range []string{"scan", "build", "bad", "list", "zero", "type", "split", "lookup", "match1", "matchm", "parse"} {
		if modes[m] > 0 {
			names = append(names, m)
		}
	}
	mode := names[r.Intn(len(names))]
	if r.Intn(2) == 0 {
		mode = names[0]
	}
	lo := uint64(r.Intn(1 << 30))
	kind := 0
	if mode == names[0] && r.Intn(3) > 0 { // always the same kind of novelty, in next to nothing else
		kind = newKinds[r.Intn(len(newKinds))]
		modes[mode] *= 4
		b.c.Plan.Texts = b.c.Plan.Texts[:0]
		b.texts = make(map[string]int)
		b.text([]byte("some words\n"))
		if t := p.texts[r.Intn(len(p.texts))]; len(t) < 150 && r.Intn(2) == 0 {
			b.text(t)
		}
	}
	for k := 0; k < 6; k++ {
		b.phase(serial(), []Op{sweepOf(kind, s, modes[mode], mode, lo)}).Cost = true
		lo += uint64(modes[mode])
	}
	b.c.Long = true
	return b.c
}

// genBlocked suspends one task somewhere in the middle of its calls until all
// others have finished.
func genBlocked(p *pool, r *rand.Rand) *Case {
	drv := []string{"vsimlib", "vsimlib", "vsimdict"}[r.Intn(3)]
	b := newCase(r, drv, "instr")
	ns := 1 + r.Intn(2)
	texts := some(r, p.texts, 2+r.Intn(5))
	np := 1
	for i := 0; i < ns; i++ {
		if drv == "vsimdict" {
			s := p.dicts[r.Intn(len(p.dicts))]
			b.share(s)
			if i == 0 || len(s) < np {
				np = len(s)
			}
			continue
		}
		spec, ts := p.anySpec(r)
		b.share(spec)
		if len(ts) < len(p.texts) {
			texts = append(texts, some(r, ts, 2)...)
		}
	}
	if np == 0 {
		np = 1
	}
	cold := drv == "vsimlib" && r.Intn(4) == 0 // the suspended task makes the first use of the built-in scanner
	op := func(first bool) []Op {
		t := b.text(texts[r.Intn(len(texts))])
		if drv == "vsimdict" {
			switch r.Intn(8) {
			case 0:
				return []Op{{K: "lookup", S: r.Intn(ns), W: p.words[r.Intn(len(p.words))]}}
			case 1:
				return []Op{{K: "words", S: r.Intn(ns)}}
			case 2:
				return []Op{{K: "split", S: r.Intn(ns), T: t}}
			case 3, 4:
				return []Op{{K: "match1", S: r.Intn(ns), T: t, N: r.Intn(np)}}
			case 5:
				l := p.dicts[r.Intn(len(p.dicts))]
				if len(l) > 0 {
					return []Op{{K: "parse", S: -1, T: b.text(l[r.Intn(len(l))].LRE)}, {K: "insertsplit", S: -1, T: t}}
				}
			}
			return []Op{{K: "matchm", S: r.Intn(ns), T: t}}
		}
		x := r.Intn(16)
		switch {
		case x == 0:
			return []Op{{K: "list", N: r.Intn(2)}}
		case x == 1:
			return []Op{{K: "build", S: 0, T: b.spec(p.specs[r.Intn(len(p.specs))])}, {K: "scan", S: -10, T: t}}
		case x == 2:
			return []Op{{K: "build", S: 3, T: b.spec(p.bad[r.Intn(len(p.bad))])}}
		case x == 3:
			return []Op{{K: "type", S: r.Intn(1 << 9), T: r.Intn(1 << 9)}}
		case x == 4:
			return []Op{{K: "scan", S: -2 - r.Intn(2), T: t}} // panics
		case x < 9 && (!cold || first):
			return []Op{{K: "scan", S: -1, T: b.text(p.builtin[r.Intn(len(p.builtin))]), M: b.memMode()}}
		case x == 9 && !cold:
			return []Op{{K: "buildlist", S: 1}}
		}
		return []Op{{K: "scan", S: r.Intn(ns), T: t, M: b.memMode(), N: r.Intn(4)}}
	}
	var warm []Op
	if drv == "vsimdict" {
		for i := 0; i < ns; i++ {
			for j := 0; j < np; j++ {
				warm = append(warm, Op{K: "match1", S: i, T: b.text(texts[0]), N: j})
			}
		}
	} else if !cold {
		warm = append(warm, Op{K: "scan", S: -1, T: b.text([]byte("warm up"))})
	}
	if len(warm) > 0 {
		b.phase(serial(), warm)
	}
	nt := 2 + r.Intn(4)
	var tasks [][]Op
	stall, many := r.Intn(nt), -1
	var short []int
	if r.Intn(3) == 0 {
		many = r.Intn(nt)
		short = append(short, b.text([]byte("some words\n")), b.text([]byte("see http://example.org/x\n")))
		for _, t := range texts {
			if len(t) > 0 && len(t) < 60 {
				short = append(short, b.text(t))
			}
		}
	}
	for i := 0; i < nt; i++ {
		var ops []Op
		for j := 1 + r.Intn(4); j > 0; j-- {
			ops = append(ops, op(i == stall)...)
		}
		if i == stall && cold {
			ops = append([]Op{{K: "scan", S: -1, T: b.text(p.builtin[0])}}, ops...)
		}
		if i != stall && i == many { // very many calls, of which few are long
			t := short[r.Intn(len(short))]
			if drv == "vsimdict" {
				for k := 100 + r.Intn(500); k > 0; k-- {
					ops = append(ops, Op{K: "matchm", S: r.Intn(ns), T: t}, Op{K: "split", S: r.Intn(ns), T: t}, Op{K: "match1", S: r.Intn(ns), T: t, N: r.Intn(np)})
				}
			} else {
				for k := 0; k < ns; k++ {
					ops = append(ops, Op{K: "scan", S: k, T: t, R: 64 + r.Intn(2000)})
				}
				if !cold && r.Intn(2) == 0 {
					ops = append(ops, Op{K: "scan", S: -1, T: t, R: 64 + r.Intn(2000)})
				}
			}
		}
		tasks = append(tasks, ops)
	}
	est := 30000.0
	if cold {
		est = 300000
	}
	pol := genPolicy(r, nt, est)
	// Numbers are given in queue order, in which the last task comes first.
	pol.Stall, pol.StallLo, pol.StallHi, pol.Hard = (stall+1)%nt, logUniform(r, 1, est), 1<<62, true
	if pol.Kind == polSerial && r.Intn(2) == 0 {
		pol.Kind, pol.K = polRandom, 20
	}
	b.phase(pol, tasks...)
	return b.c
}
