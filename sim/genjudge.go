package main

// Judging histories of generator runs.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func (g *genSim) key(c *GenCase) string {
	data, err := json.Marshal(c)
	must(err)
	h := sha256.Sum256(data)
	return hex.EncodeToString(h[:])
}

// once carries out a case at most once.
func (g *genSim) once(c *GenCase) []*GenOut {
	return g.memo.get("exec "+g.key(c), func() interface{} { return g.exec(c) }).([]*GenOut)
}

func plainRun(args ...string) GenRun { return GenRun{Args: args, Full: -1, Go: "ok", RTSeed: 1} }

type genVerdict struct{ vs []*Violation }

func (v *genVerdict) add(class, where, format string, args ...interface{}) {
	v.vs = append(v.vs, &Violation{Class: class, Where: where, Detail: fmt.Sprintf(format, args...)})
}

// judgeGen returns the violations of the property in the history.
func (g *genSim) judgeGen(prop string, c *GenCase, outs []*GenOut) []*Violation {
	v := new(genVerdict)
	if c.Prog == "gen_data" {
		g.judgeData(prop, c, outs, v)
	} else {
		g.judgeImport(prop, c, outs, v)
	}
	return v.vs
}

func outFile(args []string) string {
	for i, a := range args {
		if a == "-o" && i+1 < len(args) {
			return args[i+1]
		}
	}
	return "data.gen.go"
}

// canonical is the output for the pattern files alone: fault-free, nothing there before.
func (g *genSim) canonical(c *GenCase) *GenOut {
	q := &GenCase{Prog: c.Prog, Base: c.Base, Files: make(map[string][]byte), Runs: []GenRun{plainRun()}}
	for f, data := range c.Files {
		if strings.HasPrefix(f, "licenses/") {
			q.Files[f] = data
		}
	}
	return g.once(q)[0]
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-30, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("lengths %d and %d, at byte %d %q and %q", len(a), len(b), i, cut(a), cut(b))
}

func (g *genSim) judgeData(prop string, c *GenCase, outs []*GenOut, v *genVerdict) {
	files := g.files(c)
	canon := g.canonical(c)
	want, ok := canon.after["data.gen.go"]
	model, merr := dbModel(files)
	if c.Base == "repo" && merr != nil {
		v.add("model", "pattern files", "the repository's pattern files do not make a database: %v", merr)
		return
	}
	if merr == nil && canon.exit != 0 {
		merr = awkward(model)
	}
	if merr == nil {
		if canon.exit != 0 || !ok {
			v.add("exit", "fault-free run", "exit %d for good pattern files: %s", canon.exit, clip(canon.stderr))
			return
		}
		got, err := parseDB(want)
		if err != nil {
			v.add("output", "fault-free run", "output does not compile: %v", err)
			return
		}
		if d := sameDB(got, model, false); d != "" {
			v.add("output", "fault-free run", "output is not the database of the pattern files: %s", d)
			return
		}
	} else if canon.exit == 0 {
		v.add("exit", "fault-free run", "exit 0 although the pattern files are faulty (%v)", merr)
		return
	}
	if prop == "C10" && c.Base == "repo" {
		ship := string(g.shipped())
		got, err := parseDB(ship)
		if err != nil {
			v.add("output", "shipped database", "data.gen.go: %v", err)
		} else if d := sameDB(got, model, true); d != "" {
			v.add("output", "shipped database", "data.gen.go is not the database of licenses/*.lre: %s", d)
		}
	}
	before := make(map[string]string)
	for f, data := range files {
		before[f] = string(data)
	}
	for i, o := range outs {
		r := &c.Runs[i]
		where := fmt.Sprintf("run %d", i)
		name := outFile(r.Args)
		got, there := o.after[name]
		prev, had := before[name]
		faulty := len(o.injected()) > 0
		if o.exit == 67 || o.exit == 68 {
			v.add("hang", where, "the generator does not finish: %s", clip(o.stderr))
			return
		}
		// Only files that were there from the start: a killed run may leave
		// temporary files, with which later runs may do as they like.
		for f, data := range files {
			if f == name {
				continue
			}
			if now, ok := o.after[f]; !ok || now != string(data) {
				v.add("changed", where, "file %s was changed or removed", f)
				return
			}
		}
		for f := range o.after {
			if _, ok := before[f]; !ok && strings.HasSuffix(f, ".lre") {
				v.add("changed", where, "pattern file %s was created", f)
				return
			}
		}
		right := there && merr == nil && got == want
		switch {
		case !faulty && merr == nil && o.exit != 0:
			v.add("exit", where, "exit %d without a fault: %s", o.exit, clip(o.stderr))
		case !faulty && merr == nil && !right:
			v.add("output", where, "output differs from that of the same files listed in order, in an undisturbed run: %s", firstDiff(got, want))
		case o.exit == 0 && merr != nil:
			v.add("exit", where, "exit 0 although the pattern files are faulty")
		case o.exit == 0 && !right:
			v.add("exit0", where, "exit 0, but the output is not the complete database (%s): %s", faultList(o), firstDiff(got, want))
		case o.exit != 0 && !right:
			if there && had && got == prev || !there && !had {
				break
			}
			if there {
				if l, err := parseDB(got); err == nil && len(l) > 0 && (merr != nil || sameDB(l, model, false) != "") {
					v.add("leftover", where, "exit %d left a file that compiles and is neither the old nor the new database (%s): %s", o.exit, faultList(o), firstDiff(got, want))
				}
			} else if !faulty {
				v.add("leftover", where, "the old output is gone")
			}
		}
		if len(v.vs) > 0 {
			return
		}
		before = o.after
	}
}

func faultList(o *GenOut) string {
	var l []string
	for _, c := range o.injected() {
		l = append(l, fmt.Sprintf("call %d %s %s: %s %s", c.k, c.op, c.path, c.inj, c.errno))
	}
	return strings.Join(l, "; ")
}

// solo is what importing one item alone does, undisturbed, in a tree with nothing but its sources.
func (g *genSim) solo(c *GenCase, it *GenItem) *GenOut {
	q := &GenCase{Prog: c.Prog, Files: make(map[string][]byte), Runs: []GenRun{plainRun(it.Arg)}}
	if c.Prog == "getcc" {
		q.Files["licenses/_spdx/README"] = []byte("x")
		q.Files["licenses/_cc/README"] = []byte("x")
	}
	for _, s := range it.Sources {
		if data, ok := c.Files[s]; ok {
			q.Files[s] = data
		}
	}
	return g.once(q)[0]
}

// checkSolo compares the undisturbed import of one item with its sources.
func (g *genSim) checkSolo(c *GenCase, it *GenItem) (class, d string) {
	o := g.solo(c, it)
	lre, txt, t1 := products(it.ID)
	if it.Bad {
		if o.exit == 0 {
			return "exit0", "exit 0, but it cannot be imported"
		}
		if data, ok := o.after[lre]; ok {
			return "half", fmt.Sprintf("the import fails and leaves a pattern file (%d bytes)", len(data))
		}
		return "", ""
	}
	if c.Prog == "getcc" && o.exit != 0 {
		return "", "" // not every page can be converted
	}
	if o.exit != 0 {
		return "exit", fmt.Sprintf("exit %d without any fault: %s", o.exit, clip(o.stderr))
	}
	if it.Skip {
		for _, f := range []string{lre, txt, t1} {
			if _, ok := o.after[f]; ok {
				return "exit0", f + " is written although the item is to be skipped"
			}
		}
		return "", ""
	}
	var want string
	for _, s := range it.Sources[1:] {
		if data, ok := c.Files[s]; ok {
			want = string(data)
			break
		}
	}
	if got, ok := o.after[txt]; !ok || got != want {
		return "exit0", fmt.Sprintf("exit 0, but %s is %s: %s", txt, how(ok), firstDiff(got, want))
	}
	if got, ok := o.after[t1]; !ok || !strings.HasSuffix(got, want) || !strings.Contains(strings.TrimSuffix(got, want), it.ID) {
		return "exit0", fmt.Sprintf("exit 0, but %s does not expect %s in its text: %s", t1, it.ID, firstDiff(got, want))
	}
	got, ok := o.after[lre]
	if !ok {
		return "exit0", "exit 0, but " + lre + " is missing"
	}
	if w := missingWord(got, sourceWords(c.Prog, c.Files[it.Sources[0]])); w != "" {
		return "half", fmt.Sprintf("%s lacks words of its source, from %q on", lre, w)
	}
	return "", ""
}

var (
	genTagRE  = regexp.MustCompile(`<[^<>]*>`)
	spdxTagRE = regexp.MustCompile(`(?s)<<.*?>>`)
	genWordRE = regexp.MustCompile(`[A-Za-z0-9]+`)
)

// sourceWords lists words of the source of a pattern, in order, that the pattern must have.
func sourceWords(prog string, src []byte) []string {
	text, tag := string(src), genTagRE
	if prog == "getspdx" {
		var info struct {
			Name, StandardLicenseTemplate string
			SeeAlso                       []string
		}
		if json.Unmarshal(src, &info) != nil {
			return nil
		}
		text = info.Name + "\n" + strings.Join(info.SeeAlso, "\n") + "\n" + info.StandardLicenseTemplate
		tag = spdxTagRE
	} else if i := strings.Index(text, "<p>"); i >= 0 {
		text = text[i:]
	}
	return genWordRE.FindAllString(tag.ReplaceAllString(text, " "), -1)
}

func missingWord(text string, words []string) string {
	have := genWordRE.FindAllString(text, -1)
	i := 0
	for _, w := range words {
		for i < len(have) && have[i] != w {
			i++
		}
		if i == len(have) {
			return w
		}
		i++
	}
	return ""
}

func parseArgs(args []string) (force bool, names []string) {
	for _, a := range args {
		if a == "-f" {
			force = true
		} else {
			names = append(names, a)
		}
	}
	return
}

// products lists the files that belong to an item.
func products(id string) (lre, txt, t1 string) {
	return "licenses/" + id + ".lre", "testdata/licenses/" + id + ".txt", "testdata/" + id + ".t1"
}

func (g *genSim) judgeImport(prop string, c *GenCase, outs []*GenOut, v *genVerdict) {
	before := make(map[string]string)
	for f, data := range c.Files {
		before[f] = string(data)
	}
	first := before
	disturbed := false
	for i, o := range outs {
		r := &c.Runs[i]
		where := fmt.Sprintf("run %d", i)
		force, names := parseArgs(r.Args)
		all := len(names) == 1 && names[0] == "all"
		req := make(map[string]*GenItem) // by ID
		same := make(map[string]int)     // how many have the ID
		var order []*GenItem
		for j := range c.Items {
			it := &c.Items[j]
			_, hasJSON := c.Files[it.Sources[0]]
			if all && !hasJSON {
				continue
			}
			for _, n := range names {
				if all || n == it.Arg {
					req[it.ID] = it
					same[it.ID]++
					order = append(order, it)
					break
				}
			}
		}
		for _, it := range order {
			class, d := g.checkSolo(c, it)
			if d != "" && (class == "half") == (prop == "C12") {
				v.add(class, "fault-free import of one item", "%s: %s", it.Arg, d)
				return
			}
		}
		inj := o.injected()
		if o.exit == 67 || o.exit == 68 {
			v.add("hang", where, "the importer does not finish: %s", clip(o.stderr))
			return
		}

		// C12: nothing that exists is harmed, no half pattern.
		if prop == "C12" {
			for id, n := range same {
				if n == 1 {
					continue
				}
				// What one item made is there when the next of this name comes.
				lre, _, t1 := products(id)
				made := make(map[string]int)
				for _, cl := range o.calls {
					if cl.op == "rename" && cl.errno == "" {
						made[cl.path]++
					}
				}
				if made[lre] > 1 && !force {
					v.add("changed", where, "pattern file %s was made and then replaced, in one run without -f", lre)
				}
				if made[t1] > 1 {
					v.add("changed", where, "expectation file %s was made and then replaced, in one run", t1)
				}
			}
			if len(v.vs) > 0 {
				return
			}
			for _, f := range sortedKeys(before, o.after) {
				old, had := before[f]
				now, there := o.after[f]
				if _, initial := c.Files[f]; had && !initial && !(strings.HasSuffix(f, ".lre") || strings.HasSuffix(f, ".t1") || strings.HasSuffix(f, ".txt")) {
					continue // a temporary file that an earlier run left
				}
				if had && there && old == now {
					continue
				}
				dir, base := filepath.Dir(f), filepath.Base(f)
				switch {
				case strings.HasPrefix(f, "licenses/_"):
					v.add("changed", where, "source file %s was changed", f)
				case dir == "licenses" && strings.HasSuffix(f, ".lre"):
					it := req[strings.TrimSuffix(base, ".lre")]
					good := false
					for _, it := range order {
						if want := g.solo(c, it).after[f]; strings.TrimSuffix(base, ".lre") == it.ID && there && want != "" && now == want {
							good = true
						}
					}
					if had && !force {
						v.add("changed", where, "pattern file %s existed and was %s (%s)", f, how(there), faultList(o))
					} else if had && !there {
						v.add("changed", where, "pattern file %s was removed (%s)", f, faultList(o))
					} else if !good {
						v.add("half", where, "pattern file %s is not a complete import (%s): %s", f, faultList(o), firstDiff(now, soloOf(g, c, it, f)))
					}
				case dir == "testdata" && had:
					v.add("changed", where, "expectation file %s existed and was %s (%s)", f, how(there), faultList(o))
				case dir == "testdata/licenses" && had:
					if req[strings.TrimSuffix(base, ".txt")] == nil {
						v.add("changed", where, "file %s of another item was %s (%s)", f, how(there), faultList(o))
					}
				case had:
					v.add("changed", where, "file %s was %s (%s)", f, how(there), faultList(o))
				}
				if len(v.vs) > 0 {
					return
				}
			}
		}

		if prop == "C13" {
			// Success means that everything is there.
			if o.exit == 0 {
				for _, it := range order {
					lre, txt, t1 := products(it.ID)
					if _, ok := before[lre]; ok && !force {
						continue
					}
					s := g.solo(c, it)
					if s.exit != 0 {
						v.add("exit0", where, "exit 0, but %s cannot be imported", it.Arg)
						return
					}
					for _, f := range []string{lre, txt, t1} {
						want, ok := s.after[f]
						if !ok {
							continue
						}
						if old, had := before[f]; had && f == t1 {
							want = old
						}
						if got, there := o.after[f]; !there || got != want {
							v.add("exit0", where, "exit 0, but %s is missing or wrong (%s)", f, faultList(o))
							return
						}
					}
				}
				if r.Go != "ok" {
					v.add("exit0", where, "exit 0, but the regeneration step did not succeed (go: %s)", r.Go)
					return
				}
				if n := len(o.gos); n == 0 {
					v.add("exit0", where, "exit 0, but go generate was not run")
					return
				} else if l := o.gos[n-1]; l.dir != "." || !strings.Contains(" "+l.args+" ", " generate ") {
					v.add("exit0", where, "exit 0, but the regeneration step was %q in %s", l.args, l.dir)
					return
				} else if l.sum != lreSum(o.after) {
					v.add("exit0", where, "exit 0, but go generate ran before the pattern files were there")
					return
				}
			}
			// Items without a fault of their own are not affected.
			if o.exit != -1 {
				hit := make(map[string]bool)
				everyone := false
				for _, cl := range inj {
					id := owner(c, cl.path)
					if id == "" || cl.inj == "full" {
						everyone = true
					}
					hit[id] = true
				}
				for _, it := range order {
					lre, txt, t1 := products(it.ID)
					if _, ok := before[lre]; ok && !force || everyone || hit[it.ID] {
						continue
					}
					s := g.solo(c, it)
					if s.exit != 0 {
						if o.exit == 0 {
							v.add("exit0", where, "exit 0, but %s cannot be imported", it.Arg)
							return
						}
						continue
					}
					for _, f := range []string{lre, txt, t1} {
						want, ok := s.after[f]
						if !ok {
							continue
						}
						if old, had := before[f]; had && f == t1 {
							want = old
						}
						if got, there := o.after[f]; !there || got != want {
							v.add("independent", where, "%s is %s: %s (%s)", f, how(there), firstDiff(got, want), faultList(o))
							return
						}
					}
				}
			}
			// Without faults, in a good environment, all goes well.
			if len(inj) == 0 && r.Go == "ok" && o.exit != 0 && o.exit != -1 {
				good := true
				for _, it := range order {
					good = good && g.solo(c, it).exit == 0
				}
				if good && len(order) > 0 {
					v.add("exit", where, "exit %d although nothing went wrong: %s", o.exit, clip(o.stderr))
					return
				}
			}
		}

		// C12: running it again without faults finishes the job.
		if prop == "C12" && disturbed && len(inj) == 0 && sameArgs(c, i) && r.Mode == "" {
			q := &GenCase{Prog: c.Prog, Files: c.Files, Items: c.Items, Runs: []GenRun{plainRun(r.Args...)}}
			ref := g.once(q)[0]
			for _, f := range sortedKeys(ref.after, o.after) {
				if !(strings.HasSuffix(f, ".lre") || strings.HasSuffix(f, ".t1") || strings.HasSuffix(f, ".txt")) {
					continue
				}
				if same[strings.TrimSuffix(filepath.Base(f), filepath.Ext(f))] > 1 {
					continue // another one of this name may have been the first
				}
				a, ok1 := ref.after[f]
				b, ok2 := o.after[f]
				if ok1 != ok2 || a != b {
					v.add("unfinished", where, "running again after the failure does not finish the job: %s %s instead of what an undisturbed run gives: %s (failure: %s)", f, how(ok2), firstDiff(b, a), faultList(outs[0]))
					return
				}
			}
			if ref.exit == 0 && o.exit != 0 && r.Go == "ok" {
				v.add("unfinished", where, "running again after the failure fails: exit %d: %s", o.exit, clip(o.stderr))
				return
			}
		}
		disturbed = disturbed || len(inj) > 0 || r.Go != "ok"
		before = o.after
	}
	_ = first
}

// sameArgs reports whether all runs up to i were asked for the same.
func sameArgs(c *GenCase, i int) bool {
	for j := 0; j < i; j++ {
		if strings.Join(c.Runs[j].Args, " ") != strings.Join(c.Runs[i].Args, " ") {
			return false
		}
	}
	return true
}

func soloOf(g *genSim, c *GenCase, it *GenItem, f string) string {
	if it == nil {
		return ""
	}
	return g.solo(c, it).after[f]
}

func how(there bool) string {
	if there {
		return "changed"
	}
	return "missing"
}

// owner finds the item a path belongs to.
func owner(c *GenCase, path string) string {
	base := filepath.Base(path)
	best := ""
	for _, it := range c.Items {
		match := base == it.ID || strings.HasPrefix(base, it.ID+".")
		for _, s := range it.Sources {
			match = match || s == path
		}
		if match && len(it.ID) > len(best) {
			best = it.ID
		}
	}
	return best
}

func sortedKeys(ms ...map[string]string) []string {
	seen := make(map[string]bool)
	var l []string
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				l = append(l, k)
			}
		}
	}
	sort.Strings(l)
	return l
}
