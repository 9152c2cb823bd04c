package main

// The plan format shared with the harness (harness/vsimcore).

type License struct {
	ID   string `json:"id,omitempty"`
	Type int    `json:"type,omitempty"`
	LRE  []byte `json:"lre,omitempty"`
	URL  string `json:"url,omitempty"`
}

type Op struct {
	K string `json:"k"`
	S int    `json:"s"`
	T int    `json:"t"`
	M string `json:"m,omitempty"`
	N int    `json:"n,omitempty"`
	W string `json:"w,omitempty"`
	R int    `json:"r,omitempty"`
}

type Policy struct {
	Seed      uint64   `json:"seed"`
	Kind      int      `json:"kind"`
	K         uint32   `json:"k,omitempty"`
	Mod       uint32   `json:"mod,omitempty"`
	Points    []uint64 `json:"points,omitempty"`
	Stall     int      `json:"stall"`
	StallLo   uint64   `json:"stall_lo,omitempty"`
	StallHi   uint64   `json:"stall_hi,omitempty"`
	Hard      bool     `json:"hard,omitempty"`
	Budget    uint64   `json:"budget,omitempty"`
	ClockStep int64    `json:"clock_step,omitempty"`
	NowStep   int64    `json:"now_step,omitempty"`
	Replay    []uint64 `json:"replay,omitempty"`
}

const (
	polSerial = iota
	polRandom
	polPCT
	polSites
	polRobin
	polReplay
)

var polNames = []string{"serial", "random", "pct", "sites", "robin", "replay"}

type Phase struct {
	Policy Policy `json:"policy"`
	Tasks  [][]Op `json:"tasks"`
	GC     bool   `json:"gc,omitempty"`
	Heap   bool   `json:"heap,omitempty"`
	Cost   bool   `json:"cost,omitempty"` // the work of the phase is compared with that of others
	Clock  int64  `json:"clock,omitempty"`
	Skew   int64  `json:"skew,omitempty"`
}

type Plan struct {
	Specs  [][]License `json:"specs,omitempty"`
	Texts  [][]byte    `json:"texts,omitempty"`
	Shared []int       `json:"shared,omitempty"`
	Phases []Phase     `json:"phases"`
	Sites  int         `json:"sites,omitempty"`
}

type OpResult struct {
	Out string `json:"o"`
	Bad string `json:"b,omitempty"`
	Inv uint64 `json:"i"`
	Ret uint64 `json:"r"`

	Cost []uint64 `json:"c,omitempty"`
}

type PhaseResult struct {
	Tasks      [][]OpResult `json:"tasks"`
	Bad        []string     `json:"bad,omitempty"`
	Steps      uint64       `json:"steps"`
	Cost       uint64       `json:"cost,omitempty"`
	Switches   uint64       `json:"switches"`
	Blocks     uint64       `json:"blocks"`
	Hash       uint64       `json:"hash"`
	Stalls     uint64       `json:"stalls"`
	Jumps      uint64       `json:"jumps"`
	NTasks     int          `json:"ntasks"`
	MaxQ       int          `json:"maxq"`
	Clock      int64        `json:"clock"`
	SchedN     int          `json:"schedn"`
	Goroutines int          `json:"goroutines"`
	HeapObj    uint64       `json:"heapobj,omitempty"`
	HeapBytes  uint64       `json:"heapbytes,omitempty"`
}

type Result struct {
	Pre      []OpResult     `json:"pre,omitempty"`
	Phases   []PhaseResult  `json:"phases"`
	SitesHit int            `json:"siteshit"`
	SiteMap  string         `json:"sitemap,omitempty"` // base64 bit map of reached statements
	Counts   map[string]int `json:"counts,omitempty"`
}

// A Case is one simulated run: everything the run depends on.
type Case struct {
	Driver string `json:"driver"` // vsimlib, vsimdict, vsimold
	Build  string `json:"build"`  // plain, instr, race
	DB     string `json:"db"`     // small, full
	RTSeed uint64 `json:"rtseed"`
	Fault  string `json:"dbfault,omitempty"`
	// NoOracle is set if only the invariants of the run itself are judged.
	NoOracle bool `json:"no_oracle,omitempty"`

	// Once is set if the calls of the first phase together do the same work
	// however they overlap: what they need once is done once.
	Once bool `json:"once,omitempty"`

	// The run is long; whether it hangs is not judged.
	Long bool `json:"long,omitempty"`
	Plan Plan `json:"plan"`
}

func (c *Case) clone() *Case {
	d := *c
	d.Plan.Shared = append([]int(nil), c.Plan.Shared...)
	d.Plan.Specs = append([][]License(nil), c.Plan.Specs...)
	d.Plan.Texts = append([][]byte(nil), c.Plan.Texts...)
	d.Plan.Phases = append([]Phase(nil), c.Plan.Phases...)
	for i := range d.Plan.Phases {
		ts := d.Plan.Phases[i].Tasks
		nt := make([][]Op, len(ts))
		for j := range ts {
			nt[j] = append([]Op(nil), ts[j]...)
		}
		d.Plan.Phases[i].Tasks = nt
	}
	return &d
}
