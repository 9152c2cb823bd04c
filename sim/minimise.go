package main

// Minimisation of a failing case, and replay files.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

type minimiser struct {
	o        *oracle
	class    string
	deadline time.Time
	tries    int
}

func (m *minimiser) fails(c *Case) *Violation {
	m.tries++
	for _, v := range m.o.judge(c, m.o.r.run(c)) {
		if v.Class == m.class {
			return v
		}
	}
	return nil
}

func (m *minimiser) late() bool { return time.Now().After(m.deadline) }

// reseeds returns c with a few other schedules of the same kind.
func (m *minimiser) failsSomehow(c *Case) *Case {
	if m.fails(c) != nil {
		return c
	}
	if c.Build == "plain" {
		return nil
	}
	conc := false
	for _, ph := range c.Plan.Phases {
		conc = conc || len(ph.Tasks) > 1
	}
	if !conc {
		return nil
	}
	for k := uint64(1); k <= 6 && !m.late(); k++ {
		d := c.clone()
		for i := range d.Plan.Phases {
			pol := &d.Plan.Phases[i].Policy
			pol.Seed = pol.Seed*6364136223846793005 + k
			if k > 3 {
				pol.Kind, pol.K = polRandom, []uint32{1, 3, 50}[k-4]
			}
		}
		if m.fails(d) != nil {
			return d
		}
	}
	return nil
}

// shrinkGrowth removes the same operation from every phase.
func (m *minimiser) shrinkGrowth(c *Case) *Case {
	for t := len(c.Plan.Phases[0].Tasks) - 1; t >= 0; t-- {
		for i := len(c.Plan.Phases[0].Tasks[t]) - 1; i >= 0 && !m.late(); i-- {
			d := c.clone()
			for p := range d.Plan.Phases {
				ops := d.Plan.Phases[p].Tasks[t]
				d.Plan.Phases[p].Tasks[t] = append(append([]Op{}, ops[:i]...), ops[i+1:]...)
			}
			if m.fails(d) != nil {
				c = d
			}
		}
	}
	return c
}

func (m *minimiser) shrink(c *Case) *Case {
	if m.class == "growth" || m.class == "slowing" {
		return m.shrinkGrowth(c)
	}
	// Phases.
	for i := len(c.Plan.Phases) - 1; i >= 0 && len(c.Plan.Phases) > 1 && !m.late(); i-- {
		d := c.clone()
		d.Plan.Phases = append(d.Plan.Phases[:i], d.Plan.Phases[i+1:]...)
		if d = m.failsSomehow(d); d != nil {
			c = d
		}
	}
	for again := true; again && !m.late(); {
		again = false
		// Tasks.
		for p := range c.Plan.Phases {
			for i := len(c.Plan.Phases[p].Tasks) - 1; i >= 0 && len(c.Plan.Phases[p].Tasks) > 1 && !m.late(); i-- {
				d := c.clone()
				ts := d.Plan.Phases[p].Tasks
				d.Plan.Phases[p].Tasks = append(append([][]Op{}, ts[:i]...), ts[i+1:]...)
				if d.Plan.Phases[p].Policy.Stall >= len(d.Plan.Phases[p].Tasks) {
					d.Plan.Phases[p].Policy.Stall = -1
				}
				if d = m.failsSomehow(d); d != nil {
					c, again = d, true
				}
			}
		}
		// Operations, in halving chunks.
		for p := range c.Plan.Phases {
			for t := range c.Plan.Phases[p].Tasks {
				for n := (len(c.Plan.Phases[p].Tasks[t]) + 1) / 2; n >= 1; n /= 2 {
					for i := 0; i < len(c.Plan.Phases[p].Tasks[t]) && !m.late(); {
						ops := c.Plan.Phases[p].Tasks[t]
						if len(ops) <= 1 {
							break
						}
						j := i + n
						if j > len(ops) {
							j = len(ops)
						}
						d := c.clone()
						d.Plan.Phases[p].Tasks[t] = append(append([]Op{}, ops[:i]...), ops[j:]...)
						if d = m.failsSomehow(d); d != nil {
							c, again = d, true
						} else {
							i = j
						}
					}
				}
			}
		}
		// Simpler operations and circumstances.
		for p := range c.Plan.Phases {
			ph := c.Plan.Phases[p]
			if ph.GC || ph.Clock != 0 || ph.Skew != 0 {
				d := c.clone()
				d.Plan.Phases[p].GC, d.Plan.Phases[p].Clock, d.Plan.Phases[p].Skew = false, 0, 0
				if d = m.failsSomehow(d); d != nil {
					c = d
				}
			}
			for t := range c.Plan.Phases[p].Tasks {
				for i := range c.Plan.Phases[p].Tasks[t] {
					op := c.Plan.Phases[p].Tasks[t][i]
					if (op.M == "exact" || op.M == "") && op.N == 0 || op.K != "scan" || m.late() {
						continue
					}
					d := c.clone()
					d.Plan.Phases[p].Tasks[t][i].M = "exact"
					d.Plan.Phases[p].Tasks[t][i].N = 0
					if m.fails(d) != nil {
						c = d
					}
				}
			}
		}
	}
	// Fewer repetitions.
	for p := range c.Plan.Phases {
		for t := range c.Plan.Phases[p].Tasks {
			for i := range c.Plan.Phases[p].Tasks[t] {
				for c.Plan.Phases[p].Tasks[t][i].R > 0 && !m.late() {
					d := c.clone()
					d.Plan.Phases[p].Tasks[t][i].R /= 2
					if m.fails(d) == nil {
						break
					}
					c = d
				}
			}
		}
	}
	// Shorter sweeps.
	for p := range c.Plan.Phases {
		for t := range c.Plan.Phases[p].Tasks {
			for i := range c.Plan.Phases[p].Tasks[t] {
				for c.Plan.Phases[p].Tasks[t][i].K == "sweep" && c.Plan.Phases[p].Tasks[t][i].N > 1 && !m.late() {
					op := c.Plan.Phases[p].Tasks[t][i]
					var mode string
					var lo, order uint64
					var fresh, kind int
					fmt.Sscan(op.W, &mode, &lo, &order, &fresh, &kind)
					half := false
					for _, at := range []uint64{lo, lo + uint64(op.N/2)} {
						d := c.clone()
						n := &d.Plan.Phases[p].Tasks[t][i]
						n.N, n.W = op.N/2, fmt.Sprintf("%s %d %d %d %d", mode, at, order, fresh, kind)
						if m.fails(d) != nil {
							c, half = d, true
							break
						}
					}
					if !half {
						break
					}
				}
			}
		}
	}
	// Texts and license sets that are no longer used.
	ut, us := map[int]bool{}, map[int]bool{}
	for _, s := range c.Plan.Shared {
		us[s] = true
	}
	for _, ph := range c.Plan.Phases {
		for _, ops := range ph.Tasks {
			for _, op := range ops {
				if op.K == "sweep" {
					return c // uses everything
				}
				if op.K == "build" {
					us[op.T] = true
				} else if op.K != "type" {
					ut[op.T] = true
				}
			}
		}
	}
	d := c.clone()
	for i := range d.Plan.Texts {
		if !ut[i] {
			d.Plan.Texts[i] = nil
		}
	}
	for i := range d.Plan.Specs {
		if !us[i] {
			d.Plan.Specs[i] = nil
		}
	}
	if m.fails(d) != nil {
		c = d
	}
	return c
}

// schedules runs c once more and returns the schedule of every phase reached.
func (m *minimiser) schedules(c *Case) [][]uint64 {
	f := filepath.Join(m.o.r.work, fmt.Sprintf("rec-%d", os.Getpid()))
	m.o.r.recFile = f
	m.o.r.run(c)
	m.o.r.recFile = ""
	var out [][]uint64
	for i := range c.Plan.Phases {
		name := fmt.Sprintf("%s.%d", f, i)
		data, err := os.ReadFile(name)
		os.Remove(name)
		if err != nil || len(data) < 8 {
			break
		}
		n := int(binary.LittleEndian.Uint64(data))
		var l []uint64
		for j := 1; j <= n && (j+1)*8 <= len(data); j++ {
			l = append(l, binary.LittleEndian.Uint64(data[j*8:]))
		}
		out = append(out, l)
	}
	return out
}

// pinned replaces the seeded policies by the recorded switches.
func pinned(c *Case, scheds [][]uint64) *Case {
	d := c.clone()
	for i := range d.Plan.Phases {
		pol := &d.Plan.Phases[i].Policy
		np := Policy{Seed: pol.Seed, Kind: polReplay, Stall: -1, Budget: pol.Budget, ClockStep: pol.ClockStep, NowStep: pol.NowStep}
		if i < len(scheds) {
			for _, e := range scheds[i] {
				if e>>62 != 2 {
					np.Replay = append(np.Replay, e)
				} else {
					np.Replay = append(np.Replay, e)
				}
			}
		}
		d.Plan.Phases[i].Policy = np
	}
	return d
}

// shrinkSchedule removes switches while the violation stays.
func (m *minimiser) shrinkSchedule(c *Case) *Case {
	for p := range c.Plan.Phases {
		for n := (len(c.Plan.Phases[p].Policy.Replay) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(c.Plan.Phases[p].Policy.Replay) && !m.late(); {
				l := c.Plan.Phases[p].Policy.Replay
				j := i + n
				if j > len(l) {
					j = len(l)
				}
				d := c.clone()
				d.Plan.Phases[p].Policy.Replay = append(append([]uint64{}, l[:i]...), l[j:]...)
				if m.fails(d) != nil {
					c = d
				} else {
					i = j
				}
			}
		}
	}
	return c
}

// A Replay is the replay file of a violation.
type Replay struct {
	Property  string     `json:"property"`
	Seed      int64      `json:"verif_seed"`
	Run       int        `json:"run"`
	Violation *Violation `json:"violation"`
	Schedule  []string   `json:"schedule,omitempty"`
	Case      *Case      `json:"case,omitempty"`
	Gen       *GenCase   `json:"gen,omitempty"`
	Original  *Case      `json:"original,omitempty"`
	Tries     int        `json:"minimisation_runs"`
}

func describe(c *Case) []string {
	var out []string
	for p, ph := range c.Plan.Phases {
		for _, e := range ph.Policy.Replay {
			kind, task, at, to := e>>62, e>>53&511, e<<11>>20, e&511
			switch kind {
			case 0:
				out = append(out, fmt.Sprintf("phase %d: task %d after its step %d is preempted by task %d", p, task, at, to))
			case 1:
				out = append(out, fmt.Sprintf("phase %d: task %d stops (stop %d), task %d goes on", p, task, at, to))
			case 2:
				out = append(out, fmt.Sprintf("phase %d: task %d starts", p, to))
			}
			if len(out) > 200 {
				return append(out, "...")
			}
		}
	}
	return out
}

func minimise(o *oracle, prop string, seed int64, run int, c *Case, v *Violation, limit time.Duration) *Replay {
	m := &minimiser{o: o, class: v.Class, deadline: time.Now().Add(limit)}
	orig := c
	again := false
	start := time.Now()
	for i := 0; i < 5 && !again; i++ {
		again = m.fails(c) != nil
	}
	if time.Since(start) > 4*time.Second { // a case for which few attempts are affordable
		m.deadline = start.Add(limit / 3)
	}
	if !again {
		die("violation does not repeat: %v", v)
	}
	c = m.shrink(c)
	if c.Build != "plain" && m.class != "blocked" && m.class != "superlinear" && m.class != "slowing" {
		if d := pinned(c, m.schedules(c)); m.fails(d) != nil {
			c = m.shrinkSchedule(d)
		} else {
			logf("recorded schedule does not fail; keeping the seeded one")
		}
	}
	v2 := m.fails(c)
	if v2 == nil {
		c, v2 = orig, v
	}
	return &Replay{Property: prop, Seed: seed, Run: run, Violation: v2, Schedule: describe(c), Case: c, Original: orig, Tries: m.tries}
}

func writeReplay(verif string, rp *Replay) string {
	dir := filepath.Join(verif, "replays")
	must(os.MkdirAll(dir, 0777))
	data, err := json.MarshalIndent(rp, "", " ")
	must(err)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", rp.Property, rp.Seed, rp.Run))
	must(os.WriteFile(f, append(data, '\n'), 0666))
	return f
}
