// Drives the generator library: every history of making generators, from
// options that share what a caller may share, and generating with them.
// Reports violations and counts as JSON lines.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"text/template"

	"golang.org/x/tools/go/packages"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/pkg"
)

var out = json.NewEncoder(os.Stdout)

func bad(key, f string, a ...any) {
	out.Encode(map[string]any{"Key": key, "Msg": fmt.Sprintf(f, a...)})
}

const header = `package {{.Package.Name}}
// of {{.SourcePackage.PkgPath}} {{.SourcePackage.Name}}, {{.Options.InterfaceName}} to {{.Options.OutputFile}}, vars {{.Vars}}, own {{.Options.HeaderVars}}, imports {{len .Options.Imports}}
`

const body = `{{.Import "errors"}}
// {{tag}} {{.Vars}}
{{range .Imports}}// import {{.}}
{{end}}
{{$g := .Interface.Generics}}
type D{{tag}}{{$g.Types}} struct { B {{.Interface.Type}}{{$g.Params}} }

{{range .Interface.Methods}}
func (d D{{tag}}{{$g.Params}}) {{.Declaration}} {
	{{.Pass "d.B."}}
}
{{end}}
var _{{tag}} = errors.New("{{.Interface.Name}}")
`

// shared is what the options of one history have in common.
type shared struct {
	imports []string
	vars    map[string]interface{}
	inst    *packages.Package
	funcs   map[string]template.FuncMap
}

var loaded *packages.Package

func newShared() *shared {
	s := &shared{imports: make([]string, 1, 16), vars: map[string]interface{}{"k": "v", "b": true}, funcs: map[string]template.FuncMap{}}
	s.imports[0] = `str "strings"`
	if loaded == nil {
		p, err := pkg.Load("./src")
		if err != nil {
			panic(err)
		}
		loaded = p
	}
	//the check after every step sees to it that it never changes
	s.inst = loaded
	return s
}

func (s *shared) tag(t string) template.FuncMap {
	if s.funcs[t] == nil {
		s.funcs[t] = template.FuncMap{"tag": func() string { return t }}
	}
	return s.funcs[t]
}

type optSet struct {
	name  string
	fails string // "new", "gen" or ""
	f     func(*shared) generator.Options
}

var sets = []optSet{
	{"path", "", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "A", SourcePackage: "./src", OutputFile: "dst/x.go", HeaderTemplate: header, BodyTemplate: body, Vars: s.vars, Imports: s.imports, Funcs: s.tag("P")}
	}},
	{"instance", "", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "B", SourcePackageInstance: s.inst, OutputFile: "dst/y.go", HeaderTemplate: header, BodyTemplate: body, Vars: s.vars, Imports: s.imports, Funcs: s.tag("I"), HeaderVars: map[string]interface{}{"h": 1}}
	}},
	{"own package, local prefix", "", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "G", SourcePackageInstance: s.inst, OutputFile: "./src/z.go", HeaderTemplate: header, BodyTemplate: body, LocalPrefix: "scr", Imports: s.imports, Funcs: s.tag("O")}
	}},
	{"alias", "", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "A", SourcePackage: "./src", SourcePackageAlias: "zz", OutputFile: "dst/x.go", HeaderTemplate: header, BodyTemplate: body, Vars: s.vars, Imports: s.imports[:0], Funcs: s.tag("P")}
	}},
	{"no interface", "new", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "Nope", SourcePackageInstance: s.inst, OutputFile: "dst/x.go", HeaderTemplate: header, BodyTemplate: body, Vars: s.vars, Imports: s.imports, Funcs: s.tag("P")}
	}},
	{"template fails", "gen", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "B", SourcePackageInstance: s.inst, OutputFile: "dst/x.go", HeaderTemplate: header, BodyTemplate: body + "{{.Nope}}", Vars: s.vars, Imports: s.imports, LocalPrefix: "scr", Funcs: s.tag("P")}
	}},
	{"not Go", "gen", func(s *shared) generator.Options {
		return generator.Options{InterfaceName: "B", SourcePackage: "scr/src", OutputFile: "dst/x.go", HeaderTemplate: header, BodyTemplate: body + "}", Imports: s.imports, LocalPrefix: "scr/oth", Funcs: s.tag("P")}
	}},
}

type failing struct {
	n, left int
	wrote   bytes.Buffer
}

var errWriter = errors.New("this writer is full")

func (f *failing) Write(p []byte) (int, error) {
	f.n++
	if len(p) > f.left {
		n := f.left
		f.wrote.Write(p[:n])
		f.left = 0
		return n, errWriter
	}
	f.left -= len(p)
	f.wrote.Write(p)
	return len(p), nil
}

// op is one step of a history.
type op struct {
	New  int // index into sets, or -1
	Gen  int // index of the generator made
	Fail int // -1, or the bytes the writer takes
}

func (o op) String() string {
	switch {
	case o.New >= 0:
		return "new(" + sets[o.New].name + ")"
	case o.Fail >= 0:
		return fmt.Sprintf("generate #%d into a writer taking %d bytes", o.Gen, o.Fail)
	}
	return fmt.Sprintf("generate #%d", o.Gen)
}

func show(h []op) string {
	var o []string
	for _, x := range h {
		o = append(o, x.String())
	}
	return strings.Join(o, "; ")
}

var want = make([]string, len(sets))
var steps int

// replay runs one history from a fresh set of shared things.
func replay(h []op) {
	s := newShared()
	imports0, vars0 := s.imports[0], fmt.Sprint(s.vars)
	inst0, _ := json.Marshal(s.inst)
	type live struct {
		set int
		g   *generator.Generator
	}
	var gs []live
	for i, o := range h {
		steps++
		desc := show(h[:i+1])
		if o.New >= 0 {
			g, err := generator.NewGenerator(sets[o.New].f(s))
			switch {
			case (err != nil) != (sets[o.New].fails == "new"):
				bad("new", "%s: %v", desc, err)
				return
			case err != nil && g != nil:
				bad("new", "%s: a generator and the error %v", desc, err)
			case err == nil:
				gs = append(gs, live{o.New, g})
			}
		} else {
			l := gs[o.Gen]
			var buf bytes.Buffer
			var w io.Writer = &buf
			var fw *failing
			if o.Fail >= 0 {
				fw = &failing{left: o.Fail}
				w = fw
			}
			err := l.g.Generate(w)
			switch fails := sets[l.set].fails == "gen"; {
			case fails && err == nil:
				bad("generate", "%s: no error", desc)
			case fails && fw != nil && fw.n > 0, fails && buf.Len() > 0:
				bad("partial output", "%s: fails with %v after writing %q", desc, err, buf.String())
			case fails:
			case fw != nil && !errors.Is(err, errWriter):
				bad("writer's error", "%s: the writer fails, Generate returns %v", desc, err)
			case fw != nil && !strings.HasPrefix(want[l.set], fw.wrote.String()):
				bad("independent", "%s: writes %q, which is not how a generator on its own begins: %q", desc, fw.wrote.String(), want[l.set])
			case fw != nil:
			case err != nil:
				bad("generate", "%s: %v", desc, err)
			case buf.String() != want[l.set]:
				bad("independent", "%s: writes\n%s\na generator on its own writes\n%s", desc, buf.String(), want[l.set])
			}
		}
		inst1, _ := json.Marshal(s.inst)
		if len(s.imports) != 1 || s.imports[0] != imports0 || fmt.Sprint(s.vars) != vars0 || !reflect.DeepEqual(inst0, inst1) {
			bad("options", "%s: the caller's options have changed: imports %q, vars %v, package %s", desc, s.imports, s.vars, inst1)
		}
	}
}

// histories lists every history of up to depth steps; only those that cannot be extended are returned.
func histories(depth, maxLive int, ok func([]op) bool) [][]op {
	var res [][]op
	var rec func(h []op, live int)
	rec = func(h []op, live int) {
		if len(h) == depth {
			if ok == nil || ok(h) {
				res = append(res, append([]op{}, h...))
			}
			return
		}
		if live < maxLive {
			for i, s := range sets {
				n := live
				if s.fails != "new" {
					n++
				}
				rec(append(h, op{i, 0, -1}), n)
			}
		}
		for j := 0; j < live; j++ {
			rec(append(h, op{-1, j, -1}), live)
			rec(append(h, op{-1, j, 10}), live)
		}
	}
	rec(nil, 0)
	return res
}

// tours: n generators are made, then each of them generates, in every order.
func tours(n int) [][]op {
	var orders [][]int
	var perm func(p []int, used int)
	perm = func(p []int, used int) {
		if len(p) == n {
			orders = append(orders, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				perm(append(p, i), used|1<<i)
			}
		}
	}
	perm(nil, 0)
	var res [][]op
	var rec func(h []op)
	rec = func(h []op) {
		if len(h) == n {
			for _, o := range orders {
				t := append([]op{}, h...)
				for _, g := range o {
					t = append(t, op{-1, g, -1})
				}
				res = append(res, t)
			}
			return
		}
		for i, s := range sets {
			if s.fails == "" {
				rec(append(h, op{i, 0, -1}))
			}
		}
	}
	rec(nil)
	return res
}

func one(i int) string {
	g, err := generator.NewGenerator(sets[i].f(newShared()))
	if err != nil {
		return ""
	}
	var b bytes.Buffer
	if g.Generate(&b) != nil {
		return ""
	}
	return b.String()
}

func main() {
	dir := flag.String("dir", "", "scratch module")
	thorough := flag.Bool("thorough", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.Int("one", -1, "write what one set of options gives in a process of its own")
	flag.Parse()
	if err := os.Chdir(*dir); err != nil {
		panic(err)
	}
	os.Setenv("PWD", *dir)
	if *only >= 0 {
		os.Stdout.WriteString(one(*only))
		return
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for i, s := range sets {
		b, err := exec.Command(self, "-dir", *dir, "-one", fmt.Sprint(i)).Output()
		if err != nil {
			bad("crash", "%s on its own: %v", s.name, err)
			return
		}
		want[i] = string(b)
		if s.fails == "" && want[i] == "" {
			bad("on its own", "%s fails", s.name)
		}
	}
	if *shard == 0 {
		single()
	}
	depth, tour := 3, 2
	if *thorough {
		depth, tour = 4, 3
	}
	hs := append(histories(depth, 3, nil), tours(tour)...)
	if !*thorough {
		// three generators, in the order made and reversed
		for i, h := range tours(3) {
			if i%6 == 0 || i%6 == 5 {
				hs = append(hs, h)
			}
		}
	}
	n := 0
	for i, h := range hs {
		if i%*shards == *shard {
			replay(h)
			n++
		}
	}
	out.Encode(map[string]any{"Runs": n, "Steps": steps})
}

// single: what a single generator has to give whatever way its options are put.
func single() {
	gen := func(f func(*generator.Options)) (string, error) {
		o := sets[0].f(newShared())
		f(&o)
		g, err := generator.NewGenerator(o)
		if err != nil {
			return "", err
		}
		var b bytes.Buffer
		err = g.Generate(&b)
		steps++
		return b.String(), err
	}
	inst, err := pkg.Load("./src")
	if err != nil {
		panic(err)
	}
	wd, _ := os.Getwd()
	for _, i := range []string{"A", "B", "G"} {
		for _, dst := range []string{"dst/x.go", "src/x.go", "new/x.go", "./dst/x.go"} {
			for _, lp := range []string{"", "scr"} {
				base, err := gen(func(o *generator.Options) { o.InterfaceName, o.OutputFile, o.LocalPrefix = i, dst, lp })
				if err != nil {
					bad("single", "%s to %s: %v", i, dst, err)
					continue
				}
				desc := fmt.Sprintf("%s to %s, prefix %q", i, dst, lp)
				same := func(what string, f func(*generator.Options)) {
					got, err := gen(func(o *generator.Options) { o.InterfaceName, o.OutputFile, o.LocalPrefix = i, dst, lp; f(o) })
					if err != nil || got != base {
						bad(what, "%s: %v\n%s\ninstead of\n%s", desc, err, got, base)
					}
				}
				same("preloaded package", func(o *generator.Options) { o.SourcePackageInstance = inst; o.SourcePackage = "" })
				same("preloaded package before path", func(o *generator.Options) { o.SourcePackageInstance = inst; o.SourcePackage = "./oth" })
				same("path of the package", func(o *generator.Options) { o.SourcePackage = "scr/src" })
				same("directory of the package", func(o *generator.Options) { o.SourcePackage = filepath.Join(wd, "src") })
				// the caller's name for the source package replaces the default one everywhere, or nowhere if none is needed
				for _, alias := range []string{"zz", "src", "oth2", "_source", "__x"} {
					got, err := gen(func(o *generator.Options) {
						o.InterfaceName, o.OutputFile, o.LocalPrefix = i, dst, lp
						o.SourcePackageAlias = alias
					})
					if exp := strings.ReplaceAll(base, "_sourceSrc", alias); err != nil || got != exp {
						bad("alias", "%s, called %s: %v\n%s\ninstead of\n%s", desc, alias, err, got, exp)
					}
				}
			}
		}
	}
	// every point at which a writer can fail
	for i, s := range sets {
		if s.fails != "" {
			continue
		}
		for n := 0; n < len(want[i]); n += 1 + len(want[i])/200 {
			o := s.f(newSharedOnce())
			g, err := generator.NewGenerator(o)
			if err != nil {
				bad("new", "%s: %v", s.name, err)
				break
			}
			for ; n < len(want[i]); n += 1 + len(want[i])/200 {
				f := &failing{left: n}
				err := g.Generate(f)
				steps++
				if !errors.Is(err, errWriter) || f.wrote.String() != want[i][:n] {
					bad("writer's error", "%s: the writer fails after %d bytes: error %v, %q written", s.name, n, err, f.wrote.String())
				}
			}
		}
	}
}

var once *shared

func newSharedOnce() *shared {
	if once == nil {
		once = newShared()
	}
	return once
}
