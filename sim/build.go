package main

// Building the system under test: /repo's working tree plus, through a build
// overlay, the deterministic runtime, the instrumented sources and the harness
// main packages. Nothing in /repo is written.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

const module = "github.com/google/licensecheck"

type sysErr struct{ msg string }

func (e sysErr) Error() string { return e.msg }

// die reports trouble of the check itself (never a violation).
func die(format string, args ...interface{}) {
	panic(sysErr{fmt.Sprintf(format, args...)})
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type builder struct {
	repo, verif, work string
	goroot            string
	env               []string
	std               map[string]string // overlay of the standard library
}

func newBuilder(repo, verif, work string) *builder {
	b := &builder{repo: repo, verif: verif, work: work}
	b.env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=1")
	if os.Getenv("GOCACHE") == "" {
		home := os.Getenv("HOME")
		if home == "" {
			home = "/root"
			b.env = append(b.env, "HOME=/root")
		}
		b.env = append(b.env, "GOCACHE="+home+"/.cache/go-build")
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	b.goroot = strings.TrimSpace(string(out))
	return b
}

func (b *builder) write(name string, data []byte) string {
	p := filepath.Join(b.work, name)
	must(os.MkdirAll(filepath.Dir(p), 0777))
	must(os.WriteFile(p, data, 0666))
	return p
}

type sub struct{ old, new string }

func (b *builder) patchStd(rep map[string]string, file string, subs ...sub) {
	p := filepath.Join(b.goroot, "src", file)
	data, err := os.ReadFile(p)
	must(err)
	s := string(data)
	for _, x := range subs {
		if strings.Count(s, x.old) != 1 {
			die("toolchain source %s: expected exactly one %q", file, x.old)
		}
		s = strings.Replace(s, x.old, x.new, 1)
	}
	rep[p] = b.write("std/"+strings.ReplaceAll(file, "/", "_"), []byte(s))
}

// stdOverlay is the deterministic runtime.
func (b *builder) stdOverlay() map[string]string {
	if b.std != nil {
		return b.std
	}
	rep := make(map[string]string)
	b.patchStd(rep, "runtime/proc.go",
		sub{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		sub{`const randomizeScheduler = raceenabled`, `const randomizeScheduler = false`},
		sub{"\t// Check the global runnable queue once in a while to ensure fairness.\n\t// Otherwise two goroutines can completely occupy the local runqueue\n\t// by constantly respawning each other.\n\tif pp.schedtick%61",
			"\tif vsimOn {\n\t\tif gp := vsimPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t\tif gcBlackenEnabled == 0 {\n\t\t\tvsimIdle(pollUntil)\n\t\t\tgoto top\n\t\t}\n\t}\n\n" +
				"\t// Check the global runnable queue once in a while to ensure fairness.\n\tif pp.schedtick%61"})
	b.patchStd(rep, "runtime/rand.go",
		sub{"\tglobalRand.state.Init(*seed)\n", "\tvsimRandInit(seed)\n\tglobalRand.state.Init(*seed)\n"},
		sub{"\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif vsimRandOn {\n\t\treturn vsimMix(&vsimRandState)\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"})
	b.patchStd(rep, "runtime/debug.go",
		sub{"\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\treturn ret\n", "\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\tif vsimProcs > 0 {\n\t\t\treturn vsimProcs\n\t\t}\n\t\treturn ret\n"},
		sub{"func NumCPU() int {\n", "func NumCPU() int {\n\tif vsimProcs > 0 {\n\t\treturn vsimProcs\n\t}\n"})
	b.patchStd(rep, "runtime/select.go", sub{"cheaprandn(uint32(norder + 1))", "randn(uint32(norder + 1))"})
	b.patchStd(rep, "runtime/time_nofake.go", sub{"\treturn nanotime1()", "\tif vsimOn {\n\t\treturn vsimClock\n\t}\n\treturn nanotime1()"})
	b.patchStd(rep, "runtime/timeasm.go", sub{"(linux && amd64))", "(linux && amd64 && vsimnever))"})
	b.patchStd(rep, "runtime/timestub.go",
		sub{"//go:build !faketime && !windows && !(linux && amd64)", "//go:build !faketime && !windows"},
		sub{"\tsec, nsec = walltime()\n\treturn sec, nsec, nanotime()", "\treturn vsimTimeNow()"})
	b.patchStd(rep, "runtime/time_linux_amd64.s", sub{"//go:build !faketime", "//go:build vsimnever"})
	// The file system seam.
	var subs []sub
	for _, f := range []string{"openat", "Close", "read", "pread", "write", "pwrite", "fstatat", "Fstat", "Ftruncate", "Fsync", "Fchmod", "unlinkat", "Mkdirat", "Truncate", "fchmodat", "faccessat", "faccessat2", "symlinkat", "linkat", "Renameat", "Seek", "Getdents"} {
		subs = append(subs, sub{"\nfunc " + f + "(", "\nfunc vsim" + strings.ToUpper(f[:1]) + f[1:] + "("})
	}
	b.patchStd(rep, "syscall/zsyscall_linux_amd64.go", subs...)
	rep[filepath.Join(b.goroot, "src/syscall/vsim_hook.go")] = filepath.Join(b.verif, "harness/sys/hook.go.txt")
	b.patchStd(rep, "internal/syscall/unix/copy_file_range_unix.go",
		sub{"\tr1, _, errno := syscall.Syscall6(copyFileRangeTrap,", "\tif syscall.VsimHooked() {\n\t\treturn 0, syscall.ENOSYS\n\t}\n\tr1, _, errno := syscall.Syscall6(copyFileRangeTrap,"})
	b.patchStd(rep, "internal/syscall/unix/at.go",
		sub{"func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif syscall.VsimHooked() {\n\t\treturn syscall.VsimUnlinkat(dirfd, path, flags)\n\t}\n"},
		sub{"func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif syscall.VsimHooked() {\n\t\treturn syscall.Openat(dirfd, path, flags, perm)\n\t}\n"})
	rep[filepath.Join(b.goroot, "src/runtime/vsim.go")] = filepath.Join(b.verif, "harness/rt/vsim.go.txt")
	b.std = rep
	return rep
}

// A site is one instrumented statement.
type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
}

// costOverlay makes the work done inside the standard library count: its
// statements, the bytes its assembly looks at, and all memory moved.
func (b *builder) costOverlay() map[string]string {
	rep := make(map[string]string)
	b.patchStd(rep, "runtime/memmove_amd64.s",
		sub{"\tMOVQ\tAX, DI\n\tMOVQ\tBX, SI\n\tMOVQ\tCX, BX\n", "\tADDQ\tCX, runtime·vsimMoved(SB)\n\tMOVQ\tAX, DI\n\tMOVQ\tBX, SI\n\tMOVQ\tCX, BX\n"})
	leaf := regexp.MustCompile(`\b(bytealg|stringslite)\.(IndexByteString|IndexByte|IndexString|Index|CountString|Count|LastIndexByteString|LastIndexByte|LastIndexRabinKarp|IndexRabinKarp|Cut)\(`)
	for _, pkg := range []string{"strings", "bytes", "regexp", "sort"} {
		dir := filepath.Join(b.goroot, "src", pkg)
		cmd := exec.Command("go", "list", "-f", `{{join .GoFiles "\n"}}`, pkg)
		cmd.Env = b.env
		out, err := cmd.Output()
		must(err)
		used := make(map[string]bool)
		for _, f := range strings.Fields(string(out)) {
			src, err := os.ReadFile(filepath.Join(dir, f))
			must(err)
			for _, m := range leaf.FindAllSubmatch(src, -1) {
				used[string(m[1])+string(m[2])] = true
			}
			src = leaf.ReplaceAll(src, []byte("vsim$1$2("))
			for _, imp := range []string{"bytealg", "stringslite"} {
				if bytes.Contains(src, []byte(`"internal/`+imp+`"`)) && !bytes.Contains(src, []byte(imp+".")) {
					src = bytes.Replace(src, []byte(`"internal/`+imp+`"`), []byte(`_ "internal/`+imp+`"`), 1)
				}
			}
			src, err = instrumentWith(f, src, new([]site), func(int) string { return "vsimrt.VsimTick();" })
			if err != nil {
				die("instrumenting %s/%s: %v", pkg, f, err)
			}
			rep[filepath.Join(dir, f)] = b.write("std/cost_"+pkg+"_"+f, src)
		}
		if len(used) == 0 {
			continue
		}
		var names []string
		for n := range used {
			names = append(names, n)
		}
		sort.Strings(names)
		var w bytes.Buffer
		fmt.Fprintf(&w, "package %s\n\nimport (\n\t\"runtime\"\n", pkg)
		for _, imp := range []string{"bytealg", "stringslite"} {
			for _, n := range names {
				if strings.HasPrefix(n, imp) {
					fmt.Fprintf(&w, "\t\"internal/%s\"\n", imp)
					break
				}
			}
		}
		w.WriteString(")\n\n")
		for _, n := range names {
			imp := "bytealg"
			if strings.HasPrefix(n, "stringslite") {
				imp = "stringslite"
			}
			fn := strings.TrimPrefix(n, imp)
			arg := "s []byte"
			if imp == "stringslite" || strings.HasSuffix(fn, "String") || pkg == "strings" {
				arg = "s string"
			}
			sep := "c byte"
			switch fn {
			case "Index", "IndexString", "LastIndexRabinKarp", "IndexRabinKarp", "Cut":
				sep = strings.Replace(arg, "s ", "c ", 1)
			}
			cost := "vsimAt(i, len(s))"
			switch {
			case strings.HasPrefix(fn, "Last"):
				cost = "len(s) - i"
			case strings.HasPrefix(fn, "Count"):
				cost = "len(s)"
			}
			if fn == "Cut" {
				fmt.Fprintf(&w, "func vsim%s(%s, %s) (string, string, bool) {\n\ta, b, ok := %s.%s(s, c)\n\truntime.VsimBytes(len(a))\n\treturn a, b, ok\n}\n\n", n, arg, sep, imp, fn)
				continue
			}
			fmt.Fprintf(&w, "func vsim%s(%s, %s) int {\n\ti := %s.%s(s, c)\n\truntime.VsimBytes(%s)\n\treturn i\n}\n\n", n, arg, sep, imp, fn, cost)
		}
		w.WriteString("func vsimAt(i, n int) int {\n\tif i < 0 {\n\t\treturn n\n\t}\n\treturn i\n}\n")
		rep[filepath.Join(dir, "vsim_cost.go")] = b.write("std/cost_"+pkg+"_leafs.go", w.Bytes())
	}
	return rep
}

// instrument returns src with a scheduling point before every statement.
func instrument(name string, src []byte, sites *[]site) ([]byte, error) {
	return instrumentWith(name, src, sites, func(i int) string { return fmt.Sprintf("vsimrt.VsimY(%d);", i) })
}

func instrumentWith(name string, src []byte, sites *[]site, stmt func(site int) string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	type ins struct {
		off int
		txt string
	}
	var list []ins
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			p := tf.Offset(s.Pos())
			list = append(list, ins{p, stmt(len(*sites))})
			*sites = append(*sites, site{name, tf.Line(s.Pos())})
		}
	}
	n0 := len(*sites)
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Doc != nil {
				for _, c := range n.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						return false
					}
				}
			}
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				add(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				add(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				add(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(n.List)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				list = append(list, ins{tf.Offset(n.Body.Lbrace) + 1, stmt(len(*sites))})
				*sites = append(*sites, site{name, tf.Line(n.Pos())})
			}
		}
		return true
	})
	if len(*sites) == n0 {
		return src, nil
	}
	list = append(list, ins{tf.Offset(f.Name.End()), `; import vsimrt "runtime"`})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out bytes.Buffer
	last := 0
	for _, x := range list {
		out.Write(src[last:x.off])
		out.WriteString(x.txt)
		last = x.off
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

// goFiles lists the buildable non-test files of a package directory of /repo.
func (b *builder) goFiles(dir string) []string {
	cmd := exec.Command("go", "list", "-f", `{{join .GoFiles "\n"}}`, "./"+dir)
	cmd.Dir = b.repo
	cmd.Env = b.env
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list %s: %v\n%s", dir, err, stderr.String())
	}
	var list []string
	for _, f := range strings.Fields(string(out)) {
		list = append(list, filepath.Join(dir, f))
	}
	return list
}

// depDirs lists the directories of the packages of /repo that root is made of.
func (b *builder) depDirs(root string) []string {
	cmd := exec.Command("go", "list", "-deps", "-f", `{{if not .Standard}}{{.Dir}}{{end}}`, root)
	cmd.Dir = b.repo
	cmd.Env = b.env
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list -deps %s: %v\n%s", root, err, stderr.String())
	}
	var list []string
	for _, d := range strings.Fields(string(out)) {
		rel, err := filepath.Rel(b.repo, d)
		if err == nil && !strings.HasPrefix(rel, "..") {
			list = append(list, rel)
		}
	}
	sort.Strings(list)
	return list
}

// instrumentOverlay instruments the given package directories.
func (b *builder) instrumentOverlay(rep map[string]string, base map[string]string, label string, dirs ...string) []site {
	var sites []site
	for _, dir := range dirs {
		for _, f := range b.goFiles(dir) {
			p := filepath.Join(b.repo, f)
			srcPath := p
			if q, ok := base[p]; ok {
				srcPath = q
			}
			src, err := os.ReadFile(srcPath)
			must(err)
			if filepath.Base(f) == "data.gen.go" {
				if srcPath != p {
					rep[p] = srcPath
				}
				continue
			}
			out, err := instrument(f, src, &sites)
			if err != nil {
				die("instrumenting %s: %v", f, err)
			}
			rep[p] = b.write("src-"+label+"/"+f, out)
		}
	}
	return sites
}

var dbLine = regexp.MustCompile(`(?m)^\t\{ID: "([^"]*)",.*\},\n`)

// smallDB writes a copy of the built-in database reduced to the given licenses
// with every pattern passed through the fault seam vsimlit.S.
func (b *builder) smallDB(keep map[string]bool, label string) (overlayFile string, names []string) {
	p := filepath.Join(b.repo, "data.gen.go")
	src, err := os.ReadFile(p)
	must(err)
	if keep != nil {
		n := 0
		small := dbLine.ReplaceAllFunc(src, func(m []byte) []byte {
			if keep[string(dbLine.FindSubmatch(m)[1])] {
				n++
				return m
			}
			return nil
		})
		if n > 0 {
			src = small
		} else {
			logf("data.gen.go: none of the wanted licenses in the database; using all of it")
		}
	}
	used := make(map[string]bool)
	for _, m := range regexp.MustCompile(`LRE: (\w+)`).FindAllSubmatch(src, -1) {
		used[string(m[1])] = true
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, src, 0)
	must(err)
	tf := fset.File(f.Pos())
	var out bytes.Buffer
	last := 0
	emit := func(to int) { out.Write(src[last:to]); last = to }
	emit(tf.Offset(f.Name.End()))
	out.WriteString(`; import "` + module + `/internal/vsimlit"`)
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.CONST && g.Tok != token.VAR || g.Lparen.IsValid() || len(g.Specs) != 1 {
			continue
		}
		v := g.Specs[0].(*ast.ValueSpec)
		if len(v.Names) != 1 || len(v.Values) != 1 {
			continue
		}
		if _, ok := v.Values[0].(*ast.BasicLit); !ok {
			continue
		}
		if !used[v.Names[0].Name] {
			emit(tf.Offset(g.Pos()))
			last = tf.Offset(g.End())
			continue
		}
		emit(tf.Offset(g.Pos()))
		names = append(names, v.Names[0].Name)
		out.WriteString("var")
		last = tf.Offset(g.Pos()) + len(g.Tok.String())
		emit(tf.Offset(v.Values[0].Pos()))
		fmt.Fprintf(&out, "vsimlit.S(%q, ", v.Names[0].Name)
		emit(tf.Offset(v.Values[0].End()))
		out.WriteString(")")
	}
	emit(len(src))
	return b.write(label+"/data.gen.go", out.Bytes()), names
}

// harnessOverlay adds the harness packages inside the module.
func (b *builder) harnessOverlay(rep map[string]string) {
	root := filepath.Join(b.verif, "harness")
	dirs, err := os.ReadDir(root)
	must(err)
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "rt" || d.Name() == "sys" || d.Name() == "gen" {
			continue
		}
		files, err := filepath.Glob(filepath.Join(root, d.Name(), "*.go.txt"))
		must(err)
		for _, f := range files {
			if d.Name() == "match" && !b.hasMethod("internal/match", "match") {
				alt := b.write("match_stub.go", []byte("package match\n\nfunc (re *LRE) VsimMatch(text string) bool {\n\tm, err := NewMultiLRE([]*LRE{re})\n\treturn err == nil && len(m.Match(text).List) > 0\n}\n"))
				rep[filepath.Join(b.repo, "internal/match/vsim_export.go")] = alt
				continue
			}
			rep[filepath.Join(b.repo, "internal", d.Name(), strings.TrimSuffix(filepath.Base(f), ".txt"))] = f
		}
	}
}

// hasMethod reports whether the package has a method name(string) bool of LRE.
func (b *builder) hasMethod(dir, name string) bool {
	for _, f := range b.goFiles(dir) {
		af, err := parser.ParseFile(token.NewFileSet(), filepath.Join(b.repo, f), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name && fd.Recv != nil && len(fd.Recv.List) == 1 {
				if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
					if id, ok := st.X.(*ast.Ident); ok && id.Name == "LRE" && fd.Type.Results != nil && len(fd.Type.Results.List) == 1 {
						return true
					}
				}
			}
		}
	}
	return false
}

type buildSpec struct {
	out     string
	pkg     string // ./internal/x, or a file list for the generators
	files   []string
	race    bool
	overlay map[string]string
	tags    string
}

func (b *builder) goBuild(s buildSpec) string {
	js, err := json.Marshal(map[string]interface{}{"Replace": s.overlay})
	must(err)
	ov := b.write("overlay-"+s.out+".json", js)
	bin := filepath.Join(b.work, s.out)
	args := []string{"build", "-overlay", ov, "-o", bin}
	if s.race {
		args = append(args, "-race")
	}
	if s.tags != "" {
		args = append(args, "-tags", s.tags)
	}
	if s.files != nil {
		args = append(args, s.files...)
	} else {
		args = append(args, s.pkg)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = b.repo
	cmd.Env = b.env
	t0 := time.Now()
	out, err := cmd.CombinedOutput()
	if err != nil {
		die("build of %s failed: %v\n%s", s.out, err, out)
	}
	logf("built %s in %.1fs", s.out, time.Since(t0).Seconds())
	return bin
}

func merge(ms ...map[string]string) map[string]string {
	r := make(map[string]string)
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}
