package main

// Running cases: one fresh process per case.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type outcome struct {
	exit   int
	stderr string
	res    *Result
	wall   time.Duration
	as     *Case // the case that was run in place of one that hangs
}

type runner struct {
	work   string
	bins   map[string]string // driver/build/db to binary
	nsites map[string]int
	n      int64
	sem    chan struct{}

	mu   sync.Mutex
	need func(key string) // builds a missing binary

	recFile string // record schedules here, for minimisation
}

func newRunner(work string) *runner {
	dir := filepath.Join(work, "runs")
	must(os.MkdirAll(dir, 0777))
	return &runner{work: dir, bins: make(map[string]string), sem: make(chan struct{}, runtime.NumCPU())}
}

func (r *runner) bin(c *Case) string {
	k := c.Driver + "-" + c.Build + "-" + c.DB
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bins[k] == "" && r.need != nil {
		r.need(k)
	}
	b, ok := r.bins[k]
	if !ok {
		die("no binary %s", k)
	}
	return b
}

func (r *runner) sites(driver string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nsites[driver]
}

// Runs take seconds at most. One that takes longer than hangLimit is done
// again with every statement counted, so that the verdict does not depend on
// the speed of the machine: it hangs if it executes more than hangSteps.
const (
	hangLimit = 60 * time.Second
	wallLimit = 300 * time.Second
	longLimit = 400 * time.Second
	hangSteps = 1000000000
)

// counted is the case with a step budget.
func counted(c *Case) *Case {
	d := c.clone()
	if d.Build == "plain" {
		d.Build = "instr"
	}
	for i := range d.Plan.Phases {
		if pol := &d.Plan.Phases[i].Policy; pol.Budget == 0 || pol.Budget > hangSteps {
			pol.Budget = hangSteps
		}
	}
	return d
}

func isCounted(c *Case) bool {
	ok := c.Build != "plain"
	for _, ph := range c.Plan.Phases {
		ok = ok && ph.Policy.Budget > 0 && ph.Policy.Budget <= hangSteps
	}
	return ok
}

func (r *runner) run(c *Case) *outcome {
	limit := wallLimit
	if c.Long {
		limit = longLimit
	} else if !isCounted(c) {
		limit = hangLimit
	}
	if o := r.try(c, limit); o != nil {
		return o
	}
	if limit == longLimit {
		logf("a long run takes more than %v: given up", limit)
		return nil
	}
	if limit == wallLimit {
		die("watchdog: a simulated run took more than %v", limit)
	}
	logf("a run takes more than %v; counting its steps", limit)
	d := counted(c)
	if o := r.try(d, wallLimit); o == nil {
		die("watchdog: a simulated run took more than %v", wallLimit)
	} else if o.exit == 68 {
		o.as = d
		return o
	}
	if o := r.try(c, wallLimit); o != nil {
		return o
	}
	die("watchdog: a simulated run took more than %v", wallLimit)
	return nil
}

// try runs the case; nil if it does not finish within the limit.
func (r *runner) try(c *Case, limit time.Duration) *outcome {
	id := atomic.AddInt64(&r.n, 1)
	planF := filepath.Join(r.work, fmt.Sprintf("p%d.json", id))
	resF := filepath.Join(r.work, fmt.Sprintf("r%d.json", id))
	defer os.Remove(planF)
	defer os.Remove(resF)
	p := c.Plan
	bin := r.bin(c)
	p.Sites = r.sites(c.Driver)
	data, err := json.Marshal(&p)
	must(err)
	must(os.WriteFile(planF, data, 0666))
	cmd := exec.Command(bin, planF, resF)
	cmd.Dir = r.work
	cmd.Env = []string{
		"GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=1500MiB", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3",
		fmt.Sprintf("VSIM_RTSEED=%d", c.RTSeed),
		"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=" + r.work,
	}
	if c.Build != "race" {
		cmd.Env = append(cmd.Env, "VSIM_RLIMIT=1")
	}
	if c.Fault != "" {
		cmd.Env = append(cmd.Env, "VSIM_DBFAULT="+c.Fault)
	}
	if r.recFile != "" {
		cmd.Env = append(cmd.Env, "VSIM_REC="+r.recFile)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		die("starting run: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := new(outcome)
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return nil
	}
	o.wall = time.Since(t0)
	o.exit = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		if ws.Signal() == syscall.SIGKILL {
			die("a simulated run was killed from outside")
		}
		o.exit = 128 + int(ws.Signal())
	}
	o.stderr = stderr.String()
	if o.exit == 0 {
		data, err := os.ReadFile(resF)
		must(err)
		o.res = new(Result)
		must(json.Unmarshal(data, o.res))
	} else if o.exit == 3 {
		die("harness trouble: %s", o.stderr)
	}
	return o
}

// each runs f for 0..n-1 on all cores; it stops handing out work after a stop.
func (r *runner) each(n int, stop func() bool, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	var mu sync.Mutex
	var fail interface{}
	for w := 0; w < cap(r.sem); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					if fail == nil {
						fail = e
					}
					mu.Unlock()
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				mu.Lock()
				f0 := fail
				mu.Unlock()
				if i >= n || f0 != nil || stop != nil && stop() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	if fail != nil {
		panic(fail)
	}
}

// A Violation is a property broken in one run.
type Violation struct {
	Class  string `json:"class"` // race, deadlock, livelock, crash, mismatch, invariant, leak
	Where  string `json:"where"` // where in the run
	Detail string `json:"detail"`
	Key    string `json:"key,omitempty"` // identifies the failing input or call site, for known findings
}

func (v *Violation) String() string { return v.Class + " at " + v.Where + ": " + v.Detail }

// crashed judges a run that did not finish.
func crashed(o *outcome) *Violation {
	switch o.exit {
	case 0:
		return nil
	case 66:
		return &Violation{Class: "race", Where: raceWhere(o.stderr), Detail: head(o.stderr, 60)}
	case 67:
		return &Violation{Class: "deadlock", Where: "run", Detail: head(o.stderr, 40)}
	case 68:
		return &Violation{Class: "livelock", Where: "run", Detail: head(o.stderr, 20)}
	case 69:
		return &Violation{Class: "leak", Where: "run", Detail: "more than 500 goroutines: " + head(o.stderr, 5)}
	}
	if o.exit == 70 {
		return &Violation{Class: "blocked", Where: "run", Detail: head(o.stderr, 40)}
	}
	return &Violation{Class: "crash", Where: "process", Detail: fmt.Sprintf("exit %d: %s", o.exit, head(o.stderr, 60))}
}

func raceWhere(s string) string {
	var fn []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.Contains(l, " at 0x") && strings.Contains(l, "by ") && i+1 < len(lines) {
			fn = append(fn, strings.TrimSpace(lines[i+1]))
		}
	}
	return strings.Join(fn, " / ")
}

func head(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}
