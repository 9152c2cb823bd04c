package main

// Simulation of the generator programs (gen_data.go, licenses/getspdx.go,
// licenses/getcc.go): the real program, rebuilt from /repo, runs in a scratch
// tree behind the file system seam of package syscall. A case is a history of
// runs over one tree, each with its own faults; its last run is free of them.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// A GenFault is one injected fault.
type GenFault struct {
	K    int    `json:"k"` // number of the file system call
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
	Err  int    `json:"errno,omitempty"`
}

var faultNames = map[string]string{
	"e": "error", "p": "persistent error", "s": "short transfer", "t": "torn write then error",
	"b": "killed before a call", "a": "killed after a call", "c": "killed in the middle of a write", "l": "data lost at close",
}

// A GenRun is one execution of the program.
type GenRun struct {
	Args   []string   `json:"args,omitempty"`
	Faults []GenFault `json:"faults,omitempty"`
	Full   int        `json:"full"` // bytes of disk space left, -1 for no limit
	Mode   string     `json:"mode,omitempty"`
	Seed   uint64     `json:"seed,omitempty"`
	RTSeed uint64     `json:"rtseed,omitempty"`
	Policy [3]uint64  `json:"policy,omitempty"`
	Go     string     `json:"go,omitempty"` // what the go command does: ok, fail, kill, missing
}

// A GenItem is one license an importer is asked for.
type GenItem struct {
	Arg     string   `json:"arg"`
	ID      string   `json:"id"`
	Sources []string `json:"sources"`
	Skip    bool     `json:"skip,omitempty"` // deprecated, or one of those never imported
	Bad     bool     `json:"bad,omitempty"`  // cannot be imported
}

// A GenCase is a history.
type GenCase struct {
	Prog  string            `json:"prog"`
	Base  string            `json:"base,omitempty"` // "repo": the pattern files of the repository
	Files map[string][]byte `json:"files,omitempty"`
	Items []GenItem         `json:"items,omitempty"`
	Runs  []GenRun          `json:"runs"`
}

func (g *GenCase) clone() *GenCase {
	h := *g
	h.Files = make(map[string][]byte)
	for k, v := range g.Files {
		h.Files[k] = v
	}
	h.Items = append([]GenItem(nil), g.Items...)
	h.Runs = append([]GenRun(nil), g.Runs...)
	for i := range h.Runs {
		h.Runs[i].Faults = append([]GenFault(nil), g.Runs[i].Faults...)
		h.Runs[i].Args = append([]string(nil), g.Runs[i].Args...)
	}
	return &h
}

type genCall struct {
	k        int
	op, path string
	n        int
	errno    string
	inj      string
}

type goCall struct{ dir, args, sum string }

// A GenOut is what one run did.
type GenOut struct {
	exit   int // -1: killed by the simulator
	calls  []genCall
	gos    []goCall
	after  map[string]string
	stderr string
}

// injected lists the calls that a fault visible to the program hit.
func (o *GenOut) injected() []genCall {
	var l []genCall
	for _, c := range o.calls {
		if c.inj != "" && c.inj != "short" && c.inj != "interrupt" {
			l = append(l, c)
		}
	}
	return l
}

type genSim struct {
	b     *builder
	work  string
	bins  map[string]string
	path  string
	n     int64
	nruns int64
	repo  map[string][]byte
	sites map[string]int

	memo *memo
}

var genSrc = map[string]string{
	"gen_data": "gen_data.go",
	"getspdx":  "licenses/getspdx.go",
	"getcc":    "licenses/getcc.go",
}

func newGenSim(work string) *genSim {
	g := &genSim{b: newBuilder(repoDir, verifDir, work), work: filepath.Join(work, "gen"), bins: make(map[string]string), sites: make(map[string]int), memo: newMemo()}
	must(os.MkdirAll(g.work, 0777))
	g.path = filepath.Join(work, "bin")
	must(os.MkdirAll(g.path, 0777))
	must(os.WriteFile(filepath.Join(g.path, "go"), []byte("#!/bin/sh\n"+
		"echo stub go: \"$@\"\n"+
		"printf '%s\\t%s\\t%s\\n' \"$PWD\" \"$*\" \"$(cat licenses/*.lre 2>/dev/null | cksum)\" >>\"$VSIM_GOLOG\"\n"+
		"case $VSIM_GO in fail) echo stub go: failing >&2; exit 3;; kill) kill -9 $$;; esac\nexit 0\n"), 0777))
	return g
}

func (g *genSim) need(progs ...string) {
	for _, p := range progs {
		if g.bins[p] != "" {
			continue
		}
		rel := genSrc[p]
		src, err := os.ReadFile(filepath.Join(repoDir, rel))
		must(err)
		var sites []site
		out, err := instrument(rel, renameMain(rel, src), &sites)
		must(err)
		g.sites[p] = len(sites)
		shim := filepath.Join(filepath.Dir(filepath.Join(repoDir, rel)), "zz_vsim_shim.go")
		ov := merge(g.b.stdOverlay(), map[string]string{
			filepath.Join(repoDir, rel): g.b.write("gensrc/"+rel, out),
			shim:                        filepath.Join(verifDir, "harness/gen/shim.go.txt"),
		})
		if triv := filepath.Join(repoDir, "data.gen.go.triv"); p == "gen_data" {
			// As go generate does.
			if _, err := os.Stat(triv); err == nil {
				ov[filepath.Join(repoDir, "data.gen.go")] = triv
			}
		}
		g.bins[p] = g.b.goBuild(buildSpec{out: p, files: []string{filepath.Join(repoDir, rel), shim}, overlay: ov})
	}
}

// renameMain renames the function main.
func renameMain(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	must(err)
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			o := fset.Position(fd.Name.Pos()).Offset
			return []byte(string(src[:o]) + "vsimMain" + string(src[o+4:]))
		}
	}
	die("%s has no function main", name)
	return nil
}

func (g *genSim) repoFiles() map[string][]byte {
	if g.repo == nil {
		m := make(map[string][]byte)
		list, err := filepath.Glob(filepath.Join(repoDir, "licenses", "*.lre"))
		must(err)
		for _, f := range list {
			data, err := os.ReadFile(f)
			must(err)
			m["licenses/"+filepath.Base(f)] = data
		}
		g.repo = m
	}
	return g.repo
}

func (g *genSim) files(c *GenCase) map[string][]byte {
	if c.Base != "repo" {
		return c.Files
	}
	m := make(map[string][]byte)
	for k, v := range g.repoFiles() {
		m[k] = v
	}
	for k, v := range c.Files {
		m[k] = v
	}
	return m
}

var genDirs = map[string][]string{
	"gen_data": {"licenses"},
	"getspdx":  {"licenses/_spdx/json/details", "licenses/_spdx/text", "testdata/licenses"},
	"getcc":    {"licenses/_spdx/text", "licenses/_cc/docroot/legalcode", "testdata/licenses"},
}

const genWall = 300 * time.Second

// exec carries out the history and returns what each run did.
func (g *genSim) exec(c *GenCase) []*GenOut {
	id := atomic.AddInt64(&g.n, 1)
	root := filepath.Join(g.work, fmt.Sprintf("s%d", id))
	defer os.RemoveAll(root)
	for _, d := range genDirs[c.Prog] {
		must(os.MkdirAll(filepath.Join(root, d), 0777))
	}
	for f, data := range g.files(c) {
		p := filepath.Join(root, f)
		if _, err := os.Stat(filepath.Dir(p)); err != nil {
			must(os.MkdirAll(filepath.Dir(p), 0777))
		}
		h := fnv.New32a()
		fmt.Fprintf(h, "%s %d ", f, len(data))
		h.Write(data)
		if h.Sum32()>>16%9 == 0 {
			// Some are elsewhere, behind a symbolic link.
			must(os.MkdirAll(filepath.Join(root, "linked"), 0777))
			to := filepath.Join(root, "linked", strings.ReplaceAll(f, "/", "~"))
			rel, err := filepath.Rel(filepath.Dir(p), to)
			must(err)
			must(os.Symlink(rel, p))
		}
		must(os.WriteFile(p, data, 0666))
		// Files are older and newer than each other, in every combination.
		t := time.Unix(1600000000+int64(h.Sum32()%100000000), 0)
		must(os.Chtimes(p, t, t))
		// And anybody's or only their owner's.
		must(os.Chmod(p, []os.FileMode{0644, 0644, 0600, 0640, 0664, 0755, 0700}[h.Sum32()>>8%7]))
	}
	var outs []*GenOut
	for i := range c.Runs {
		outs = append(outs, g.run(c, &c.Runs[i], root, id))
	}
	return outs
}

func (g *genSim) run(c *GenCase, r *GenRun, root string, id int64) *GenOut {
	atomic.AddInt64(&g.nruns, 1)
	cwd := root
	if c.Prog != "gen_data" {
		cwd = filepath.Join(root, "licenses")
	}
	base := filepath.Join(g.work, fmt.Sprintf("x%d", id))
	trace, golog := base+".trace", base+".go"
	defer os.Remove(trace)
	defer os.Remove(golog)
	// Below the root: what a program does there may fail as well.
	must(os.MkdirAll(filepath.Join(root, "tmp"), 0777))
	hook := fmt.Sprintf("root=%s cwd=%s trace=%s seed=%d %s", root, cwd, trace, r.Seed, r.Mode)
	if r.Full >= 0 {
		hook += fmt.Sprintf(" full=%d", r.Full)
	}
	for _, f := range r.Faults {
		hook += fmt.Sprintf(" %d:%s:%d:%d", f.K, f.Kind, f.N, f.Err)
	}
	path := g.path + ":/usr/bin:/bin"
	if r.Go == "missing" {
		path = "/nonexistent"
	}
	cmd := exec.Command(g.bins[c.Prog], r.Args...)
	cmd.Dir = cwd
	cmd.Env = []string{
		"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all",
		fmt.Sprintf("VSIM_RTSEED=%d", r.RTSeed), "VSIM_HOOK=" + hook,
		fmt.Sprintf("VSIM_POLICY=%d %d %d 3", r.Seed, r.Policy[0], max(r.Policy[1], 1)),
		"VSIM_GO=" + r.Go, "VSIM_GOLOG=" + golog,
		"PATH=" + path, "HOME=/nonexistent", "TMPDIR=" + root + "/tmp",
	}
	// The rest of the environment is nobody's business.
	cmd.Env = append(cmd.Env, [][]string{
		nil,
		{"LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Tokyo", "USER=alice", "LOGNAME=alice", "HOSTNAME=host1"},
		{"LANG=C", "TZ=America/New_York", "USER=root", "SOURCE_DATE_EPOCH=1", "PWD=" + cwd, "CI=true"},
		{"GOFLAGS=-v", "GOPATH=/nonexistent/go", "GOOS=windows", "GOFILE=x.go", "GOPACKAGE=x", "TERM=dumb", "DEBUG=1", "VERBOSE=1"},
	}[r.RTSeed%4]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		die("starting %s: %v", c.Prog, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(genWall):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		die("watchdog: a simulated run of %s took more than %v", c.Prog, genWall)
	}
	o := &GenOut{exit: cmd.ProcessState.ExitCode(), stderr: stderr.String()}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		o.exit = 128 + int(ws.Signal())
	}
	if o.exit == 93 {
		die("hook: %s", o.stderr)
	}
	data, err := os.ReadFile(trace)
	must(err)
	crash := false
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Split(l, "\t")
		if len(f) < 6 {
			continue
		}
		k, _ := strconv.Atoi(f[0])
		n, _ := strconv.Atoi(f[3])
		cl := genCall{k, f[1], f[2], n, f[4], f[5]}
		crash = crash || strings.HasPrefix(cl.inj, "crash")
		o.calls = append(o.calls, cl)
	}
	if o.exit == 128+9 {
		if !crash {
			die("%s was killed from outside", c.Prog)
		}
		o.exit = -1
	}
	if data, err := os.ReadFile(golog); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			f := strings.Split(l, "\t")
			if len(f) == 3 {
				rel, err := filepath.Rel(root, f[0])
				if err != nil {
					rel = f[0]
				}
				o.gos = append(o.gos, goCall{rel, f[1], f[2]})
			}
		}
	}
	o.after = snapshot(root)
	return o
}

func snapshot(root string) map[string]string {
	m := make(map[string]string)
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(root, p)
		switch {
		case rel == "tmp" || rel == "linked":
			return filepath.SkipDir
		case info.IsDir():
		case info.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "symlink to " + l
			if data, err := os.ReadFile(p); err == nil {
				m[rel] = string(data)
			}
		default:
			data, err := os.ReadFile(p)
			must(err)
			m[rel] = string(data)
		}
		return nil
	})
	return m
}

// lreSum is what the stub go command computes over the pattern files.
func lreSum(m map[string]string) string {
	var names []string
	for f := range m {
		if filepath.Dir(f) == "licenses" && strings.HasSuffix(f, ".lre") && filepath.Base(f)[0] != '.' {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	var all bytes.Buffer
	for _, f := range names {
		all.WriteString(m[f])
	}
	return cksum(all.Bytes())
}

// cksum is the POSIX cksum utility.
func cksum(data []byte) string {
	var crc uint32
	step := func(b byte) {
		crc ^= uint32(b) << 24
		for i := 0; i < 8; i++ {
			if crc&(1<<31) != 0 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	for _, b := range data {
		step(b)
	}
	for n := len(data); n > 0; n >>= 8 {
		step(byte(n))
	}
	return fmt.Sprintf("%d %d", ^crc, len(data))
}

// faultsFor lists the single faults that can hit a call.
func faultsFor(c genCall, offsets []int) []GenFault {
	const (
		EACCES = int(syscall.EACCES)
		EIO    = int(syscall.EIO)
		ENOSPC = int(syscall.ENOSPC)
		EMFILE = int(syscall.EMFILE)
		EROFS  = int(syscall.EROFS)
	)
	k := c.k
	l := []GenFault{{K: k, Kind: "b"}, {K: k, Kind: "a"}}
	errs := func(kind string, es ...int) {
		for _, e := range es {
			l = append(l, GenFault{K: k, Kind: kind, Err: e})
		}
	}
	switch c.op {
	case "open":
		errs("e", EIO, EACCES, EMFILE)
		errs("p", EACCES)
	case "create":
		errs("e", EIO, EACCES, ENOSPC, EROFS)
	case "read":
		errs("e", EIO)
		l = append(l, GenFault{K: k, Kind: "s", N: 1})
	case "write":
		errs("e", EIO, ENOSPC)
		n := c.n
		if offsets == nil {
			offsets = []int{0, 1, n / 2, n - 1}
		}
		for _, o := range offsets {
			if o < 0 || o >= n && n > 0 {
				continue
			}
			l = append(l, GenFault{K: k, Kind: "t", N: o, Err: EIO}, GenFault{K: k, Kind: "c", N: o})
			if o > 0 {
				l = append(l, GenFault{K: k, Kind: "s", N: o})
			}
		}
	case "close":
		errs("e", EIO)
		l = append(l, GenFault{K: k, Kind: "l", N: 0, Err: EIO}, GenFault{K: k, Kind: "l", N: 40, Err: ENOSPC})
	case "stat":
		errs("e", EIO, EACCES)
		errs("p", EIO)
	case "fstat", "fsync", "fchmod", "ftruncate":
		errs("e", EIO)
	case "readdir":
		errs("e", EIO)
		l = append(l, GenFault{K: k, Kind: "s", N: 1}, GenFault{K: k, Kind: "s", N: 2})
	default: // rename, unlink, mkdir, link, ...
		errs("e", EIO, EACCES)
	}
	return l
}

func readRepo(name string) []byte {
	data, err := os.ReadFile(filepath.Join(repoDir, name))
	must(err)
	return data
}
