package main

// Command line: vsim check PROPERTY | vsim replay FILE | vsim determinism [N] | vsim warm

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var t00 = time.Now()

func logf(format string, args ...interface{}) {
	fmt.Printf("[%6.1fs] %s\n", time.Since(t00).Seconds(), fmt.Sprintf(format, args...))
}

var (
	repoDir  = envOr("VSIM_REPO", "/repo")
	verifDir = envOr("VSIM_VERIF", "/verif")
)

func envOr(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY | replay FILE | determinism PROPERTY N | warm")
		os.Exit(2)
	}
	os.Exit(run())
}

func run() (code int) {
	work, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(sysErr); ok {
				fmt.Fprintln(os.Stderr, "ERROR:", s.msg)
				code = 2
				return
			}
			os.RemoveAll(work)
			panic(e)
		}
	}()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED=%q: %v", s, err)
		}
		seed = n
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	switch os.Args[1] {
	case "check":
		prop := os.Args[2]
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		logf("property %s seed %d tier %s", prop, seed, tier)
		return check(prop, seed, tier, work)
	case "replay":
		return replay(os.Args[2], work)
	case "determinism":
		n, err := strconv.Atoi(os.Args[3])
		must(err)
		return determinism(os.Args[2], seed, n, work)
	case "warm":
		e := newEngine(work)
		e.need("vsimlib-race-small", "vsimlib-plain-small")
		return 0
	}
	die("unknown command %q", os.Args[1])
	return 2
}

// An engine builds what is needed and runs it.
type engine struct {
	b     *builder
	r     *runner
	o     *oracle
	small string // overlay file of the reduced database, seam included
	full  string // overlay file of the whole database, seam included
	names []string
	sites map[string][]site // by driver
}

// The reduced database: few, short licenses, so that first use is cheap enough to repeat thousands of times.
var smallIDs = []string{"ISC", "0BSD", "WTFPL", "BSD-Source-Code", "FSFAP", "JSON"}

func newEngine(work string) *engine {
	e := &engine{b: newBuilder(repoDir, verifDir, work), r: newRunner(work)}
	e.o = newOracle(e.r)
	keep := make(map[string]bool)
	for _, id := range smallIDs[:3] {
		keep[id] = true
	}
	e.small, e.names = e.b.smallDB(keep, "small")
	e.full, _ = e.b.smallDB(nil, "full")
	e.sites = make(map[string][]site)
	e.r.need = func(k string) { e.build(k) }
	return e
}

// need builds the given driver-build-database combinations.
func (e *engine) need(keys ...string) {
	e.r.mu.Lock()
	defer e.r.mu.Unlock()
	e.build(keys...)
}

// build is need with the lock held.
func (e *engine) build(keys ...string) {
	std := e.b.stdOverlay()
	h := make(map[string]string)
	e.b.harnessOverlay(h)
	for _, k := range keys {
		if e.r.bins[k] != "" {
			continue
		}
		p := strings.Split(k, "-")
		driver, build, db := p[0], p[1], p[2]
		base := map[string]string{filepath.Join(repoDir, "data.gen.go"): e.small}
		if db == "full" {
			base = map[string]string{filepath.Join(repoDir, "data.gen.go"): e.full}
		}
		ov := merge(std, base, h)
		if build == "cost" {
			ov = merge(ov, e.b.costOverlay())
		}
		if build != "plain" {
			root := "."
			if driver == "vsimold" {
				root = "./old"
			}
			in := make(map[string]string)
			sites := e.b.instrumentOverlay(in, base, k, e.b.depDirs(root)...)
			if s := e.sites[driver]; s != nil && len(s) != len(sites) {
				die("instrumentation differs between builds")
			}
			e.sites[driver] = sites
			ov = merge(ov, in)
		}
		e.r.bins[k] = e.b.goBuild(buildSpec{out: k, pkg: "./internal/" + driver, overlay: ov, race: build == "race"})
	}
	e.r.nsites = make(map[string]int)
	for d, s := range e.sites {
		e.r.nsites[d] = len(s)
	}
}
