package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"verifmc/instr"
	"verifmc/lib"
)

type g06Job struct {
	Name, Dir, Out string
	Args           []string
	Depth          int
}

// g06Tmpl uses everything of the template's input whose order could vary.
const g06Tmpl = `{{.Import "\"os\"" "fmt" "errors"}}

var _, _, _ = os.Args, fmt.Sprint(), errors.New

` + lib.Dump + `
// imports {{toJson .Imports}}
{{range $k, $v := .Vars}}// {{$k}}={{$v}}
{{end}}`

// g06File renders one source file of the fixture.
func g06File(name, imp string, svc string) string {
	b := "package svc\n\n"
	typ := "int"
	switch imp {
	case "x":
		b += "import \"scr/x/ty\"\n\n"
		typ = "ty.T"
	case "y":
		b += "import ty \"scr/y/ty\"\n\n"
		typ = "*ty.T"
	case "dot":
		b += "import . \"scr/z/dot\"\n\n"
		typ = "DotT"
	case "xy":
		b += "import (\n\t\"scr/x/ty\"\n\tother \"scr/y/ty\"\n)\n\n"
		typ = "map[ty.T]other.T"
	}
	up := strings.ToUpper(name)
	b += "type Loc" + up + " struct{ V " + typ + " }\n\n"
	b += "// In" + up + " is embedded.\ntype In" + up + " interface {\n\tDo" + up + "(a " + typ + ", l Loc" + up + ") (err error)\n\tShared" + "(v int) (w string)\n}\n\n"
	return b + svc
}

func g06Fixture(m *lib.Mod, root string, pos int, imps [3]string, embed string, ext bool) {
	names := []string{"a", "b", "c"}
	svc := "// Svc is decorated.\ntype Svc interface {\n\tOwn(a LocA, b *LocB, c ...LocC)\n"
	for _, e := range embed {
		svc += "\tIn" + string(e) + "\n"
	}
	if ext {
		svc += "\tExt\n"
	}
	svc += "}\n"
	for i, n := range names {
		s := ""
		if i == pos {
			s = svc
		}
		m.Write(root+"/svc/"+n+".go", strings.ReplaceAll(g06File(n, imps[i], s), "package svc\n", "package svc\n"))
	}
	if ext {
		m.Write(root+"/svc/d.go", "package svc\n\nimport (\n\t\"scr/ext\"\n\t\"scr/ext2/ext2\"\n)\n\n// Ext is from elsewhere.\ntype Ext interface {\n\text.Out\n\text2.Out\n}\n")
	}
}

func g06Common(m *lib.Mod) {
	m.Write("x/ty/t.go", "package ty\n\ntype T struct{ X int }\n")
	m.Write("y/ty/t.go", "package ty\n\ntype T struct{ Y string }\n")
	m.Write("z/dot/t.go", "package dot\n\ntype DotT struct{ Z bool }\n")
	m.Write("ext/a.go", "package ext\n\nimport \"scr/x/ty\"\n\ntype Mid interface{ FromMid(ty.T) Here }\n")
	m.Write("ext/b.go", "package ext\n\nimport tx \"scr/x/ty\"\n\n// Out is embedded elsewhere.\ntype Out interface {\n\tMid\n\tFromOut(a tx.T, h ...Here) error\n}\n")
	m.Write("ext/c.go", "package ext\n\ntype Here struct{}\n")
	m.Write("ext2/ext2/a.go", "package ext2\n\nimport \"time\"\n\n// Out is embedded elsewhere.\ntype Out interface {\n\tWhen(time.Time) Dur\n}\n")
	m.Write("ext2/ext2/b.go", "package ext2\n\nimport \"time\"\n\ntype Dur = time.Duration\n")
	m.Write("dump.tmpl", g06Tmpl)
}

// g06Orders explores the iteration orders of the instrumented generator.
func g06Orders(r *lib.Run) {
	src := filepath.Join(r.Tmp, "ordered")
	hd := filepath.Join(r.Verif, "harness", "maporder")
	const path = "github.com/hexdigest/gowrap"
	var pats []string
	for _, p := range strings.Fields(r.Must(r.Repo, "go", "list", "-deps", ".", "./loader")) {
		if p == path || strings.HasPrefix(p, path+"/") {
			pats = append(pats, p)
		}
	}
	sites, err := instr.MapOrder(r.Repo, pats, func(p *packages.Package) string {
		return filepath.Join(src, strings.TrimPrefix(p.PkgPath, path))
	})
	if err != nil {
		r.Fatal("instrument: %v", err)
	}
	r.Set("map_iterations_in_source", sites)
	lib.Write(filepath.Join(src, "go.mod"), lib.Read(filepath.Join(r.Repo, "go.mod"))+"\nrequire vrt v0.0.0\nreplace vrt => "+filepath.Join(hd, "vrt")+"\n")
	lib.Write(filepath.Join(src, "go.sum"), lib.Read(filepath.Join(r.Repo, "go.sum")))
	lib.Write(filepath.Join(src, "cmd", "order", "main.go"), lib.Read(filepath.Join(hd, "main", "main.go")))
	lib.Write(filepath.Join(src, "cmd", "gocache", "main.go"), lib.Read(filepath.Join(hd, "gocache", "main.go")))
	bin := filepath.Join(r.Tmp, "order")
	r.Must(src, "go", "build", "-mod=mod", "-buildvcs=false", "-o", bin, "./cmd/order")
	fake := filepath.Join(r.Tmp, "gobin")
	os.MkdirAll(fake, 0o755)
	r.Must(src, "go", "build", "-mod=mod", "-buildvcs=false", "-o", filepath.Join(fake, "go"), "./cmd/gocache")
	realGo := strings.TrimSpace(r.Must(src, "go", "env", "GOROOT")) + "/bin/go"

	m := r.NewMod("omod", "scr", "")
	g06Common(m)
	var jobs []g06Job
	forms := []string{"none", "x", "y", "dot", "xy"}
	embeds := []string{"", "A", "ABC", "CBA", "BC"}
	depth := 1
	if r.Thorough() {
		depth = 2
	}
	for pos := 0; pos < 3; pos++ {
		for i, f1 := range forms {
			for j, f2 := range forms {
				for k, f3 := range forms {
					for e, em := range embeds {
						for x := 0; x < 2; x++ {
							n := i + 3*j + 7*k + 2*e + 5*x + pos
							if !r.Thorough() && n%23 != 0 || r.Thorough() && n%3 != 0 {
								continue
							}
							root := fmt.Sprintf("o%d", len(jobs))
							g06Fixture(m, root, pos, [3]string{f1, f2, f3}, em, x == 1)
							out := []string{"dec/dec.go", "svc/dec.go"}[n/2%2]
							d := depth
							if r.Thorough() && n%4 != 0 {
								d = 1
							}
							jobs = append(jobs, g06Job{Name: fmt.Sprintf("Svc in file %d, imports %s/%s/%s, embedding %q, external %d, output %s", pos+1, f1, f2, f3, em, x, out), Dir: filepath.Join(m.Dir, root), Out: filepath.Join(m.Dir, root, out),
								Args: []string{"-p", "./svc", "-i", "Svc", "-t", filepath.Join(m.Dir, "dump.tmpl"), "-o", out, "-v", "b=1", "-v", "a=2", "-v", "c"}, Depth: d})
						}
					}
				}
			}
		}
	}
	// hosted templates and generics
	ents, _ := os.ReadDir(filepath.Join(r.Repo, "templates"))
	for i, t := range ents {
		root := fmt.Sprintf("h%d", i)
		g06Fixture(m, root, i%3, [3]string{"x", "none", "x"}, "ABC", true)
		out := []string{"dec/dec.go", "svc/dec.go"}[i%2]
		jobs = append(jobs, g06Job{Name: "hosted template " + t.Name(), Dir: filepath.Join(m.Dir, root), Out: filepath.Join(m.Dir, root, out), Args: []string{"-p", "./svc", "-i", "Svc", "-t", filepath.Join(r.Repo, "templates", t.Name()), "-o", out}, Depth: 1})
	}
	for i, inst := range []string{"P1[A]\n\tP2[A, B]", "P2[B, A]\n\tP1[LocG]", "Deep[A, map[string]B]", "P1[ty.T]\n\tDeep[B, ty.T]"} {
		root := fmt.Sprintf("g%d", i)
		m.Write(root+"/svc/a.go", "package svc\n\nimport \"scr/x/ty\"\n\ntype LocG struct{ T ty.T }\n\ntype P1[K any] interface{ One(K, ty.T) LocG }\n")
		m.Write(root+"/svc/b.go", "package svc\n\ntype P2[K any, V any] interface {\n\tTwo(K, ...V) LocG\n}\n")
		m.Write(root+"/svc/c.go", "package svc\n\nimport \"scr/x/ty\"\n\nvar _ ty.T\n\ntype Svc[A any, B comparable] interface {\n\t"+inst+"\n}\n")
		m.Write(root+"/svc/d.go", "package svc\n\nimport ty \"scr/y/ty\"\n\ntype Deep[K any, V any] interface {\n\tP2[V, K]\n\tThree(func(K) *V) ty.T\n}\n")
		out := []string{"dec/dec.go", "svc/dec.go"}[i%2]
		jobs = append(jobs, g06Job{Name: fmt.Sprintf("generic %d %s", i, strings.ReplaceAll(inst, "\n\t", "; ")), Dir: filepath.Join(m.Dir, root), Out: filepath.Join(m.Dir, root, out), Args: []string{"-p", "./svc", "-i", "Svc", "-t", filepath.Join(m.Dir, "dump.tmpl"), "-o", out}, Depth: depth})
	}
	// packages of one name in the files of one package, embedded by the selector
	for i, v := range [][3]string{{"\"scr/x/same\"", "\"scr/y/same\"", "same"}, {"\"scr/x/same\"", "al \"scr/y/same\"", "al"}, {"\"scr/y/same\"", "\"scr/go-same\"", "same"}, {"s1 \"scr/x/same\"", "\"scr/y/same\"", "same"}, {"\"scr/go-same\"", "same \"scr/x/same\"", "same"}} {
		for pos := 0; pos < 2; pos++ {
			root := fmt.Sprintf("s%d-%d", i, pos)
			for k, n := range []string{"x/same", "y/same", "go-same"} {
				m.Write(n+"/s.go", fmt.Sprintf("package same\n\ntype I interface{ From%d() T }\n\ntype T struct{ F%d int }\n", k, k))
			}
			name := func(spec string) string {
				if f := strings.Fields(spec); len(f) > 1 {
					return f[0]
				}
				return "same"
			}
			m.Write(root+"/svc/a.go", "package svc\n\nimport "+v[pos]+"\n\ntype Other interface{ "+name(v[pos])+".I }\n")
			m.Write(root+"/svc/b.go", "package svc\n\nimport "+v[1-pos]+"\n\ntype Svc interface {\n\t"+name(v[1-pos])+".I\n\tOther\n\tM("+name(v[1-pos])+".T)\n}\n")
			out := "dec/dec.go"
			jobs = append(jobs, g06Job{Name: fmt.Sprintf("same package names %d %d", i, pos), Dir: filepath.Join(m.Dir, root), Out: filepath.Join(m.Dir, root, out), Args: []string{"-p", "./svc", "-i", "Svc", "-t", filepath.Join(m.Dir, "dump.tmpl"), "-o", out}, Depth: 2})
		}
	}
	for _, j := range jobs {
		os.MkdirAll(filepath.Dir(j.Out), 0o755)
	}
	cache := filepath.Join(r.Tmp, "gocache")
	os.MkdirAll(cache, 0o755)
	env := append(os.Environ(), "PATH="+fake+":"+os.Getenv("PATH"), "GWV_GO="+realGo, "GWV_GOCACHE="+cache)
	shards := 64
	done := 0
	lib.Parallel(shards, func(s int) {
		var mine []g06Job
		for i, j := range jobs {
			if i%shards == s {
				mine = append(mine, j)
			}
		}
		if len(mine) == 0 {
			return
		}
		left := r.Left().Seconds() * 0.7
		res := lib.Cmd(r.Tmp, env, lib.JSON(mine), r.Left()+time.Minute, bin, fmt.Sprint(left))
		sc := bufio.NewScanner(strings.NewReader(res.Out))
		sc.Buffer(nil, 1<<26)
		n := 0
		for sc.Scan() {
			var o struct {
				Name, Msg, A, B, Err string
				Plan                 map[string]string
				Runs, Ranges, Perms  int
				Incomplete           bool
			}
			if json.Unmarshal(sc.Bytes(), &o) != nil {
				break
			}
			n++
			r.Count(o.Runs, o.Runs, o.Runs)
			r.Validate(o.Runs)
			r.Add("map_iterations", o.Ranges)
			r.Add("orders", o.Perms)
			if o.Err != "" {
				r.Add("refused", 1)
			}
			if o.Incomplete {
				r.NotExhaustive("time")
			}
			if o.Msg != "" {
				r.Violate("order "+firstN(o.Name, 60), fmt.Sprintf("%s: the result depends on the order of map iterations (%s %s): %s", o.Name, o.Msg, lib.JSON(o.Plan), g06Diff(o.A, o.B)), map[string]any{"case": o.Name, "plan": o.Plan, "sorted": o.A, "other": o.B})
			}
			if n == 1 && s%8 == 0 {
				r.Sample(map[string]any{"case": o.Name, "runs": o.Runs, "iterations": o.Ranges, "refused": o.Err})
			}
		}
		if n != len(mine) {
			r.Fatal("order harness stopped after %d of %d: %s", n, len(mine), firstN(res.Err, 2000))
		}
		done += n
	})
	r.Set("order_cases", len(jobs))
}

// g06Files compares runs that differ in what must not matter: excluded files, earlier outputs, repetition, environment.
func g06Files(r *lib.Run) {
	gw := r.BuildGowrap()
	m := r.NewMod("fmod", "scr", gw)
	g06Common(m)
	m.Write("other.tmpl", "import (\n\t\"fmt\"\n\trnd \"math/rand\"\n)\n\ntype Loc struct{}\n\ntype OtherDecorator struct{ Svc {{.Interface.Type}} }\n\nfunc init() { fmt.Println(rnd.Int()) }\n")
	m.Write("missing.tmpl", "type X{{.Vars.N}} struct{ b {{.Interface.Type}} }\n\nfunc (x X{{.Vars.N}}) R() (int, string) { return rand.Int(), fmt.Sprint(strconv.Itoa(1)) }\n")
	tm := func(t string) string {
		if strings.HasSuffix(t, ".tmpl") {
			return filepath.Join(m.Dir, t)
		}
		return filepath.Join(r.Repo, "templates", t)
	}
	type cfg struct {
		name, src, iface, tmpl, out string
		vars                        []string
	}
	// fixtures: a source package with siblings, a destination with siblings
	fixture := func(root, version string) {
		sig := map[string]string{"": "Do(ctx context.Context, a ty.T, l LocB) (n int, err error)\n\tClose()", "fewer": "Close()", "changed": "Do(a string, l ...LocB) (n bool)\n\tClose() error\n\tGone(ty.T)", "renamed": "Do(c context.Context, b ty.T, m LocB) (k int, e error)\n\tClose()"}[version]
		imp := ""
		if strings.Contains(sig, "context.") {
			imp += "\t\"context\"\n"
		}
		if strings.Contains(sig, "ty.") {
			imp += "\t\"scr/x/ty\"\n"
		}
		m.Write(root+"/svc/a.go", "package svc\n\nimport (\n"+imp+")\n\n// Svc is decorated.\ntype Svc interface {\n\t"+sig+"\n\tInB\n\text.Out\n}\n")
		m.Write(root+"/svc/a.go", strings.Replace(lib.Read(filepath.Join(m.Dir, root, "svc", "a.go")), "import (\n", "import (\n\t\"scr/ext\"\n", 1))
		m.Write(root+"/svc/b.go", "package svc\n\nimport ty \"scr/y/ty\"\n\ntype LocB struct{ T ty.T }\n\n// InB is embedded.\ntype InB interface{ FromB(LocB) (s string) }\n")
		m.Write(root+"/dst/d.go", "package dst\n\nimport rand \"crypto/rand\"\n\nvar Reader = rand.Reader\n")
	}
	cfgs := []cfg{
		{"dump/dst", "svc", "Svc", "dump.tmpl", "dst/dec.go", nil}, {"dump/svc", "svc", "Svc", "dump.tmpl", "svc/dec.go", []string{"b=2", "a=1"}}, {"dump/new", "svc", "Svc", "dump.tmpl", "fresh/dec.go", nil},
		{"fallback/dst", "svc", "Svc", "fallback", "dst/dec.go", nil}, {"log/svc", "svc", "Svc", "log", "svc/dec.go", nil}, {"retry/new", "svc", "Svc", "retry", "fresh/dec.go", []string{"DecoratorName=Again"}},
		{"missing imports/dst", "svc", "Svc", "missing.tmpl", "dst/dec.go", []string{"N=1"}}, {"missing imports/svc", "svc", "Svc", "missing.tmpl", "svc/dec.go", []string{"N=1"}},
		{"ext/dst", "../ext", "Out", "dump.tmpl", "dst/dec.go", nil},
	}
	gen := func(root string, c cfg, env []string) (string, bool) {
		os.MkdirAll(filepath.Join(m.Dir, root), 0o755)
		args := []string{"gen", "-p", "./" + c.src, "-i", c.iface, "-t", tm(c.tmpl), "-o", c.out}
		if strings.HasPrefix(c.src, "..") {
			args[2] = "scr/ext"
		}
		for _, v := range c.vars {
			args = append(args, "-v", v)
		}
		res := lib.Cmd(filepath.Join(m.Dir, root), env, "", 2*time.Minute, gw, args...)
		r.Count(1, 1, 1)
		r.Validate(1)
		if res.Code != 0 {
			return res.Err, false
		}
		t := strings.ReplaceAll(lib.Read(filepath.Join(m.Dir, root, c.out)), "scr/"+root+"/", "scr/root/")
		return t, true
	}
	// the reference result of every configuration; directory names do not occur in the output
	ref := make([]string, len(cfgs))
	for i, c := range cfgs {
		root := fmt.Sprintf("r%d", i)
		fixture(root, "")
		t, ok := gen(root, c, nil)
		if !ok {
			r.Violate("refused "+c.name, fmt.Sprintf("%s: an ordinary interface is refused: %s", c.name, t), c.name)
			return
		}
		ref[i] = t
	}
	type variant struct {
		key, desc string
		cfg       int
		prep      func(root string) bool // false: not applicable
		env       []string
	}
	var vs []variant
	// excluded files
	excl := []struct{ name, pre string }{
		{"zz.go", "//go:build ignore\n\n"}, {"aa.go", "//go:build windows && plan9\n\n"}, {"old.go", "// +build ignore\n\n"}, {"both.go", "//go:build !linux\n// +build !linux\n\n"},
		{"zz_windows.go", ""}, {"aa_arm64.go", ""}, {"b_js_wasm.go", ""}, {"tag.go", "// comment\n\n//go:build sometag\n\n"}, {"ver.go", "//go:build !go1.1\n\n"}, {"_under.go", ""}, {".dot.go", ""},
		{"dec.go.bak", ""}, {"testdata/x.go", ""}, {"sub/x.go", ""},
	}
	contents := []struct{ name, text string }{
		{"same names", "package PKG\n\nimport ty \"scr/y/ty\"\n\ntype Svc interface{ Wrong(ty.T) }\n\ntype LocB map[string]ty.T\n\ntype InB interface{ WrongB(LocB) }\n\ntype Out interface{ WrongOut() }\n\ntype Mid interface{ WrongMid() }\n\ntype Here int\n"},
		{"other package", "package main\n\nimport \"fmt\"\n\ntype Svc int\n\nfunc main() { fmt.Println(Svc(1)) }\n"},
		{"broken", "package PKG\n\ntype Svc interface {\n"},
		{"no package", "garbage <<<\n"},
		{"unknown imports", "package PKG\n\nimport (\n\t\"scr/nowhere\"\n\trand \"math/rand/v2\"\n\t\"text/template\"\n)\n\nvar _, _, _ = nowhere.X, rand.Int, template.New\n"},
	}
	for ci := range cfgs {
		for ei, e := range excl {
			for ti, t := range contents {
				for di, d := range []string{"svc", "dst", "ext", "fresh"} {
					c := cfgs[ci]
					if strings.Contains(e.name, "/") && t.name != "same names" && t.name != "broken" {
						continue
					}
					relevant := d == "svc" || d == filepath.Dir(c.out) || d == "ext"
					if !relevant || d == "svc" && strings.HasPrefix(c.src, "..") || !r.Thorough() && ci > 1 && (ci+ei+ti+di)%5 != 0 {
						continue
					}
					pre := e.pre
					vs = append(vs, variant{fmt.Sprintf("excluded %s %s", e.name, t.name), fmt.Sprintf("an excluded file %s/%s (%s, %q)", d, e.name, t.name, strings.TrimSpace(pre)), ci, func(root string) bool {
						dir := root + "/" + d
						if d == "ext" {
							return false // handled below: shared
						}
						m.Write(dir+"/"+e.name, pre+strings.ReplaceAll(t.text, "PKG", d))
						return true
					}, nil})
				}
			}
		}
	}
	// earlier outputs
	type step struct {
		name string
		do   func(root string, c cfg)
	}
	steps := []step{
		{"the same", func(root string, c cfg) { gen(root, c, nil) }},
		{"older interface with fewer methods", func(root string, c cfg) { fixture(root, "fewer"); gen(root, c, nil); fixture(root, "") }},
		{"older interface with other signatures", func(root string, c cfg) { fixture(root, "changed"); gen(root, c, nil); fixture(root, "") }},
		{"older interface with other names", func(root string, c cfg) { fixture(root, "renamed"); gen(root, c, nil); fixture(root, "") }},
		{"another template", func(root string, c cfg) { c.tmpl, c.vars = "fallback", nil; gen(root, c, nil) }},
		{"a template with its own types", func(root string, c cfg) { c.tmpl, c.vars = "other.tmpl", nil; gen(root, c, nil) }},
		{"another name", func(root string, c cfg) { c.vars = []string{"DecoratorName=Former", "N=2"}; gen(root, c, nil) }},
		{"another interface", func(root string, c cfg) { c.src, c.iface = "../ext", "Out"; gen(root, c, nil) }},
		{"missing imports", func(root string, c cfg) { c.tmpl, c.vars = "missing.tmpl", []string{"N=3"}; gen(root, c, nil) }},
	}
	for ci := range cfgs {
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) > 0 {
				hist := append([]int{}, h...)
				var names []string
				for _, s := range hist {
					names = append(names, steps[s].name)
				}
				vs = append(vs, variant{"history " + steps[hist[len(hist)-1]].name, "earlier versions of the output (" + strings.Join(names, ", then ") + ")", ci, func(root string) bool {
					for _, s := range hist {
						steps[s].do(root, cfgs[ci])
					}
					return true
				}, nil})
			}
			max := 1
			if ci%2 == 0 && len(h) == 1 && h[0]%3 == ci%3 {
				max = 2
			}
			if r.Thorough() {
				max = 2
				if ci < 2 {
					max = 3
				}
			}
			if len(h) < max {
				for s := range steps {
					rec(append(h, s))
				}
			}
		}
		rec(nil)
		// repetition and environment
		for k := 0; k < 3; k++ {
			vs = append(vs, variant{"repeated", "another run", ci, func(string) bool { return true }, nil})
		}
		for _, env := range [][]string{{"TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"}, {"USER=someone", "HOSTNAME=elsewhere"}, {"GOMAXPROCS=1"}, {"GODEBUG=madvdontneed=1", "GOGC=5"}} {
			vs = append(vs, variant{"environment " + env[0], "environment " + strings.Join(env, " "), ci, func(string) bool { return true }, append(os.Environ(), env...)})
		}
		vs = append(vs, variant{"file times", "files of another age", ci, func(root string) bool {
			filepath.Walk(filepath.Join(m.Dir, root), func(p string, fi os.FileInfo, err error) error {
				if err == nil {
					os.Chtimes(p, time.Unix(1e9, 0), time.Unix(1e9, 0))
				}
				return nil
			})
			return true
		}, nil})
	}
	lib.Parallel(len(vs), func(k int) {
		v := vs[k]
		if r.Left() < 0 {
			r.NotExhaustive("time")
			return
		}
		root := fmt.Sprintf("rv%d", k)
		fixture(root, "")
		if !v.prep(root) {
			return
		}
		c := cfgs[v.cfg]
		t, ok := gen(root, c, v.env)
		if !ok {
			r.Violate(v.key+" "+c.name, fmt.Sprintf("%s: with %s generation fails: %s", c.name, v.desc, t), map[string]any{"case": c.name, "variant": v.desc})
		} else if t != ref[v.cfg] {
			if strings.HasSuffix(v.key, "unknown imports") && strings.HasPrefix(c.name, "missing imports") {
				r.Violate("unimported name guessed from an excluded sibling", fmt.Sprintf("%s: the template does not import a package it uses and the import is guessed from %s: %s", c.name, v.desc, g06Diff(ref[v.cfg], t)), map[string]any{"case": c.name, "variant": v.desc, "want": ref[v.cfg], "got": t})
				return
			}
			r.Violate(v.key+" "+c.name, fmt.Sprintf("%s: with %s the output differs: %s", c.name, v.desc, g06Diff(ref[v.cfg], t)), map[string]any{"case": c.name, "variant": v.desc, "want": ref[v.cfg], "got": t})
		}
		os.RemoveAll(filepath.Join(m.Dir, root))
	})
	r.Set("file_variants", len(vs))
	// names that several standard packages have and the template does not import
	for _, u := range [][2]string{{"template", "HTMLEscapeString(\"\")"}, {"rand", "Int()"}, {"scanner", "Scanner{}"}, {"pprof", "Profile"}, {"heap", "Init"}, {"user", "Current"}} {
		m.Write("amb/"+u[0]+".tmpl", "type XX struct{ b {{.Interface.Type}} }\n\nvar _ = "+u[0]+"."+u[1]+"\n")
		c := cfg{"unimported " + u[0], "svc", "Svc", "amb/" + u[0] + ".tmpl", "dst/dec.go", nil}
		first, ok0 := "", false
		for k := 0; k < 16; k++ {
			root := fmt.Sprintf("ru%s%d", u[0], k)
			fixture(root, "")
			t, ok := gen(root, c, nil)
			if !ok {
				t = ""
			}
			if k == 0 {
				first, ok0 = t, ok
			} else if ok != ok0 || t != first {
				r.Violate("unimported standard name "+u[0], fmt.Sprintf("a template uses %s.%s and does not import it: runs differ: %s", u[0], u[1], g06Diff(first, t)), map[string]any{"template": u, "one": first, "other": t})
				break
			}
		}
	}
	// excluded files of a package that is only embedded from
	n := 0
	for _, e := range excl {
		for _, t := range contents {
			if strings.Contains(e.name, "/") && t.name != "same names" {
				continue
			}
			p := filepath.Join(m.Dir, "ext", e.name)
			lib.Write(p, e.pre+strings.ReplaceAll(t.text, "PKG", "ext"))
			for _, ci := range []int{0, 1, len(cfgs) - 1} {
				c := cfgs[ci]
				root := fmt.Sprintf("re%d", n)
				n++
				fixture(root, "")
				got, ok := gen(root, c, nil)
				desc := fmt.Sprintf("an excluded file ext/%s (%s)", e.name, t.name)
				if !ok {
					r.Violate(fmt.Sprintf("excluded %s %s", e.name, t.name)+" "+c.name, fmt.Sprintf("%s: with %s generation fails: %s", c.name, desc, got), map[string]any{"case": c.name, "variant": desc})
				} else if got != ref[ci] {
					r.Violate(fmt.Sprintf("excluded %s %s", e.name, t.name)+" "+c.name, fmt.Sprintf("%s: with %s the output differs: %s", c.name, desc, g06Diff(ref[ci], got)), map[string]any{"case": c.name, "variant": desc, "want": ref[ci], "got": got})
				}
				os.RemoveAll(filepath.Join(m.Dir, root))
			}
			os.Remove(p)
			if strings.Contains(e.name, "/") {
				os.RemoveAll(filepath.Dir(p))
			}
		}
	}
}

// g06Diff shows the first line that differs.
func g06Diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d %q is missing", i+1, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is %q or %q", i+1, firstN(x[i], 200), firstN(y[i], 200))
		}
	}
	if len(y) > len(x) {
		return fmt.Sprintf("line %d %q is added", len(x)+1, y[len(x)])
	}
	return "no difference"
}

func init() {
	checks["G06"] = check{"model_checking", func(r *lib.Run) {
		g06Files(r)
		if os.Getenv("G06F") == "" {
			g06Orders(r)
		}
		r.Set("bounds", "every single map iteration of the generator in every order (up to 4 keys; beyond: reverse, rotations, swaps), all reversed, all rotated (thorough: pairs of iterations), for packages of 3-5 files over every listed mix of imports, embeddings and placements; excluded files: every exclusion x content x directory; regeneration: every history of up to 2 (3 thorough) earlier generations of the same output, repeated runs and unrelated environment")
	}}
}
