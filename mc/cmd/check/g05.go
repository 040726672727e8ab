package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verifmc/lib"
)

// g05Deps lists what the hosted templates need.
var g05Deps = []string{"context", "time", "errors", "fmt", "strings", "io", "log", "sync", "sync/atomic", "encoding/json", "net/http", "net/url", "os",
	"github.com/opentracing/opentracing-go", "github.com/opentracing/opentracing-go/ext", "github.com/opentracing/opentracing-go/log",
	"github.com/prometheus/client_golang/prometheus", "github.com/prometheus/client_golang/prometheus/promauto",
	"github.com/sirupsen/logrus", "github.com/twitchtv/twirp", "go.elastic.co/apm/v2", "go.opencensus.io/trace",
	"google.golang.org/grpc/codes", "google.golang.org/grpc/status",
	"go.opentelemetry.io/otel", "go.opentelemetry.io/otel/codes", "go.opentelemetry.io/otel/attribute", "go.opentelemetry.io/otel/trace"}

// g05Case is one generation.
type g05Case struct {
	group string
	key   string // identifies the case within the group
	tmpl  string
	files map[string]string // extra files of the module, relative to the case's directory (@@ = the directory's import path)
	src   string            // source package directory
	iface string
	out   string // output file
	vars  []string
	more  [][]string // further generations before: template, interface, output, vars...
	// how an error in a method of the generated type is called; nil: not attributed
	method func(name string) string
	short  func(tmpl, what string) string // names the failure regardless of where it shows
	mayErr bool                           // the run may refuse
	real   bool                           // src is an import path of the standard library
}

func init() {
	checks["G05"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		m := r.NewMod("mod", "scr", gw)
		mf := filepath.Join(r.Verif, "harness", "decor", "mod")
		m.Write("go.mod", strings.ReplaceAll(lib.Read(mf+"/go.mod.in"), "VERIF", r.Verif))
		m.Write("go.sum", lib.Read(mf+"/go.sum.in"))
		m.Exports(m.Dir, g05Deps...)
		var tmpls []string
		ents, err := os.ReadDir(filepath.Join(r.Repo, "templates"))
		if err != nil {
			r.Fatal("%v", err)
		}
		for _, e := range ents {
			tmpls = append(tmpls, e.Name())
		}

		// shapes
		type shape struct{ ctx, err, params, results string }
		var matrix []string
		for _, ctx := range []string{"", "context.Context", "ctx context.Context", "c context.Context", "_ context.Context"} {
			for _, e := range []string{"", "error", "err error", "e error", "_ error"} {
				for _, ps := range [][]string{nil, {"int"}, {"a int", "b *string"}, {"int", "...string"}, {"a, b int", "c1 ...interface{}"}, {"_ int", "_ []byte"}, {"m map[string]func(int) error"}} {
					for _, rs := range [][]string{nil, {"int"}, {"x *int", "y []string"}, {"map[string]int", "chan int", "func() error"}, {"_ int"}} {
						p, ok1 := joinNamed(ctx, ps, true)
						q, ok2 := joinNamed(e, rs, false)
						if !ok1 || !ok2 {
							continue
						}
						matrix = append(matrix, "("+p+") ("+q+")")
					}
				}
			}
		}
		iface := func(name string, sigs []string, ctxAlias string) string {
			b := "type " + name + " interface {\n"
			for i, s := range sigs {
				b += fmt.Sprintf("\tM%d%s\n", i, strings.ReplaceAll(s, "context.", ctxAlias+"."))
			}
			return b + "}\n"
		}
		uses := func(s, what string) string {
			if strings.Contains(s, what) {
				return what
			}
			return ""
		}
		source := func(pkg, body string) string {
			imp := ""
			if uses(body, "context.") != "" {
				imp = "import \"context\"\n\n"
			}
			return "package " + pkg + "\n\n" + imp + body
		}

		var cases []g05Case
		add := func(c g05Case) { cases = append(cases, c) }
		byIndex := func(names []string) func(string) string {
			return func(n string) string {
				if i, err := strconv.Atoi(strings.TrimPrefix(n, "M")); err == nil && i < len(names) {
					return names[i]
				}
				return n
			}
		}

		// A: every shape, every placement, every name
		for _, t := range tmpls {
			for _, pl := range []string{"same", "new", "existing", "existing other name", "existing main", "existing namesake"} {
				for _, dn := range []string{"", "Custom", "custom"} {
					c := g05Case{group: "shapes", key: pl + " " + dn, tmpl: t, src: "svc", iface: "Svc", out: "dst/dec.go", method: byIndex(matrix)}
					c.files = map[string]string{"svc/a.go": source("svc", iface("Svc", matrix, "context"))}
					switch pl {
					case "same":
						c.out = "svc/dec.go"
					case "existing":
						c.files["dst/other.go"] = "package dst\n\nimport \"time\"\n\ntype Other struct{ T time.Time }\n"
					case "existing other name":
						c.files["dst/other.go"] = "package elsewhere\n\nimport (\n\tctx \"context\"\n\t\"fmt\"\n)\n\nfunc Other(c ctx.Context) { fmt.Println(c) }\n"
					case "existing main":
						c.files["dst/other.go"] = "package main\n\nfunc main() {}\n"
					case "existing namesake":
						c.files["dst/other.go"] = "package svc\n\ntype Svc2 struct{}\n"
					}
					if dn != "" {
						c.vars = []string{"DecoratorName=" + dn}
					}
					add(c)
				}
			}
		}
		// B: single methods and pairs of methods of each class
		var classes []string
		for _, ctx := range []string{"", "ctx context.Context"} {
			for _, e := range []string{"", "err error"} {
				for _, ps := range [][]string{nil, {"a int"}, {"a int", "b ...string"}} {
					for _, rs := range [][]string{nil, {"x int"}} {
						p, _ := joinNamed(ctx, ps, true)
						q, _ := joinNamed(e, rs, false)
						classes = append(classes, "("+p+") ("+q+")")
					}
				}
			}
		}
		for _, t := range tmpls {
			for i, a := range classes {
				for k := -1; k < i; k++ {
					sigs := []string{a}
					if k >= 0 {
						sigs = append(sigs, classes[k])
					}
					if k >= 0 && !r.Thorough() {
						continue
					}
					for _, out := range []string{"svc/dec.go", "dst/dec.go"} {
						if k >= 0 && out == "svc/dec.go" {
							continue
						}
						add(g05Case{group: "subsets", key: strings.Join(sigs, "; "), tmpl: t, src: "svc", iface: "Svc", out: out,
							files: map[string]string{"svc/a.go": source("svc", iface("Svc", sigs, "context"))}})
					}
				}
			}
		}
		// F: several decorators in one package
		two := "type Svc interface {\n\tDo(ctx context.Context, a int) (x int, err error)\n\tNone()\n}\n\ntype Two interface {\n\tDo(ctx context.Context, a ...string) (err error)\n\tGet() int\n}\n"
		for i, t := range tmpls {
			for _, out := range []string{"svc", "dst"} {
				add(g05Case{group: "two interfaces", key: out, tmpl: t, src: "svc", iface: "Two", out: out + "/two.go", files: map[string]string{"svc/a.go": source("svc", two)},
					more: [][]string{{t, "Svc", out + "/one.go"}}})
				for k, t2 := range tmpls {
					if k == i || !r.Thorough() && (k-i+len(tmpls))%len(tmpls) > 2 {
						continue
					}
					add(g05Case{group: "two templates", key: t2 + " " + out, tmpl: t, src: "svc", iface: "Svc", out: out + "/two.go", files: map[string]string{"svc/a.go": source("svc", two)},
						vars: []string{"DecoratorName=SecondDecorator"}, more: [][]string{{t2, "Svc", out + "/one.go", "DecoratorName=FirstDecorator"}}})
				}
			}
		}
		// E: names of interfaces and methods
		for _, t := range tmpls {
			for _, n := range []string{"I", "Interface", "Ünïcode", "Time", "Error", "Errors", "Context", "String", "Config", "Option", "Log", "Base", "Pool", "low", "log", "time", "context", "errors", "d", "base"} {
				for _, out := range []string{"svc", "dst"} {
					if out == "dst" && !token.IsExported(n) || n == "context" {
						continue
					}
					add(g05Case{group: "interface names", key: n + " " + out, tmpl: t, src: "svc", iface: n, out: out + "/dec.go",
						files: map[string]string{"svc/a.go": source("svc", "type "+n+" interface {\n\tDo(ctx context.Context, a int) (x int, err error)\n\tNone()\n}\n")}})
				}
			}
			for _, n := range []string{"Close", "String", "Error", "New", "Lock", "Unlock", "Validate", "Base", "Svc", "Svcs", "Do", "DoTimeout", "Config", "Pool", "Ünï", "M_", "SvcWithLog", "NewSvcWithLog"} {
				for _, in := range []string{"Svc", "same"} {
					if in == "same" {
						in = n
					}
					add(g05Case{group: "method names", key: in + "." + n, tmpl: t, short: func(tmpl, _ string) string {
						if in == n {
							return "method names " + tmpl + " interface and method share a name"
						}
						return "method names " + tmpl + " " + in + "." + n
					}, src: "svc", iface: in, out: "dst/dec.go",
						files: map[string]string{"svc/a.go": source("svc", "type "+in+" interface {\n\t"+n+"(ctx context.Context, a int) (x int, err error)\n\tOther()\n}\n")}})
				}
			}
		}
		// D: imports of the declaring file
		for _, t := range tmpls {
			for _, a := range []string{"time", "errors", "context", "fmt", "strings", "io", "log", "sync", "atomic", "json", "opentracing", "prometheus", "promauto", "logrus", "twirp", "apm", "trace", "codes", "grpc_codes", "grpc_status", "otel", "attribute", "svc", "dst", "ctx", "err", "p"} {
				if !r.Thorough() && a != "dst" && a != "svc" && a != "err" && !regexp.MustCompile(`\b`+a+`\b`).MatchString(lib.Read(filepath.Join(r.Repo, "templates", t))) {
					continue
				}
				use := "type Svc interface {\n\tDo(ctx CTX.Context, a A.T) (x *A.T, err error)\n\tPlain(a ...A.T) (err error)\n\tNone()\n}\n"
				std := "context"
				ctxImp := "\t\"context\"\n"
				if a == "context" {
					std, ctxImp = "stdctx", "\tstdctx \"context\"\n"
				}
				use = strings.ReplaceAll(strings.ReplaceAll(use, "CTX", std), "A.", a+".")
				for _, out := range []string{"svc", "dst"} {
					add(g05Case{group: "alias", key: a + " " + out, tmpl: t, src: "svc", iface: "Svc", out: out + "/dec.go",
						files: map[string]string{"ty/a.go": "package ty\n\ntype T struct{ X int }\n", "svc/a.go": "package svc\n\nimport (\n" + ctxImp + "\t" + a + " \"@@/ty\"\n)\n\n" + use}})
					if a[0] != '_' {
						add(g05Case{group: "package", key: a + " " + out, tmpl: t, src: "svc", iface: "Svc", out: out + "/dec.go",
							files: map[string]string{"ty/" + a + "/a.go": "package " + a + "\n\ntype T struct{ X int }\n", "svc/a.go": "package svc\n\nimport (\n" + ctxImp + "\t\"@@/ty/" + a + "\"\n)\n\n" + use}})
					}
				}
				if a[0] != '_' {
					for _, out := range []string{a, "dst"} {
						if a == "dst" && out == "dst" {
							continue
						}
						add(g05Case{group: "source package", key: a + " " + filepath.Base(out), tmpl: t, src: a, iface: "Svc", out: out + "/dec.go",
							files: map[string]string{a + "/a.go": "package " + a + "\n\nimport (\n\tcontext \"context\"\n)\n\ntype T int\n\ntype Svc interface {\n\tDo(ctx context.Context, a T) (x *T, err error)\n\tNone(...T)\n}\n"}})
					}
				}
			}
			for _, d := range [][3]string{{"renamed time", "tm \"time\"", "tm.Duration"}, {"dot time", ". \"time\"", "Duration"},
				{"plain time", "\"time\"", "time.Duration"}, {"renamed errors", "E \"net/url\"", "*E.URL"}, {"twice", "\"time\"\n\ttm \"time\"", "func(time.Time) tm.Duration"}, {"log", "\"log\"", "*log.Logger"}, {"renamed io", "strings \"io\"", "strings.Reader"}} {
				for i, ctx := range []string{"context", "stdctx", "ctx", "time2"} {
					if !r.Thorough() && i > 1 {
						continue
					}
					imp := ctx + " \"context\"\n\t" + d[1]
					body := "package svc\n\nimport (\n\t" + imp + "\n)\n\ntype Svc interface {\n\tDo(ctx " + ctx + ".Context, a " + d[2] + ") (x " + d[2] + ", err error)\n\tPlain(a ..." + d[2] + ") (err error)\n\tNone()\n}\n"
					for _, out := range []string{"svc", "dst"} {
						add(g05Case{group: "std alias", key: d[0] + " " + ctx + " " + out, tmpl: t, src: "svc", iface: "Svc", out: out + "/dec.go", files: map[string]string{"svc/a.go": body}})
					}
				}
			}
		}
		// G: the interfaces of the standard library
		m.Exports(m.Dir, "std")
		ru := m.NewUniverse()
		reals := 0
		for _, p := range strings.Fields(r.Must(m.Dir, "go", "list", "-f", "{{if ne .Name \"main\"}}{{.ImportPath}}{{end}}", "std")) {
			if p == "unsafe" || strings.Contains("/"+p+"/", "/internal/") || strings.HasPrefix(p, "vendor/") {
				continue
			}
			pk, err := ru.Import(p)
			if err != nil {
				r.Fatal("%s: %v", p, err)
			}
			for _, n := range pk.Scope().Names() {
				o, ok := pk.Scope().Lookup(n).(*types.TypeName)
				if !ok || !o.Exported() {
					continue
				}
				it, ok := o.Type().Underlying().(*types.Interface)
				if nt, isNamed := types.Unalias(o.Type()).(*types.Named); !ok || !it.IsMethodSet() || it.NumMethods() == 0 || isNamed && nt.TypeParams().Len() > 0 {
					continue
				}
				pkgs, hidden, names := map[string]string{}, map[string]bool{}, map[string]bool{}
				clash := false
				for i := 0; i < it.NumMethods(); i++ {
					g01Named(it.Method(i).Type(), map[types.Type]bool{}, pkgs, hidden)
					if !it.Method(i).Exported() {
						hidden["method"] = true
					}
				}
				for _, n := range pkgs {
					clash = clash || names[n]
					names[n] = true
				}
				if len(hidden) > 0 || clash {
					continue
				}
				for i, t := range tmpls {
					if r.Thorough() || (i+reals)%9 == 0 {
						c := g05Case{group: "real", key: p + "." + n, tmpl: t, src: p, real: true, iface: n, out: "dst/dec.go"}
						if o, _, _ := types.LookupFieldOrMethod(it, false, pk, n); o != nil {
							c.short = func(tmpl, _ string) string { return "method names " + tmpl + " interface and method share a name" }
						}
						add(c)
					}
				}
				reals++
			}
		}
		run := func(cs []g05Case) map[int]string {
			var mu sync.Mutex
			texts := map[int]string{}
			lib.Parallel(len(cs), func(k int) {
				if r.Left() < 0 {
					r.NotExhaustive("time")
					return
				}
				c := cs[k]
				mu.Lock()
				r.Add("cases", 1)
				mu.Unlock()
				root := fmt.Sprintf("%s%d", strings.ReplaceAll(c.group, " ", ""), k)
				for p, s := range c.files {
					m.Write(root+"/"+p, strings.ReplaceAll(s, "@@", "scr/"+root))
				}
				desc := fmt.Sprintf("template %s, %s %s", c.tmpl, c.group, c.key)
				gen := func(tmpl, iface, out string, vars []string) (lib.CmdResult, []string) {
					args := []string{"-g", "-p", g05Src(c, root), "-i", iface, "-t", filepath.Join(r.Repo, "templates", tmpl), "-o", root + "/" + out}
					for _, v := range vars {
						args = append(args, "-v", v)
					}
					return m.Gen(args...), args
				}
				for _, g := range c.more {
					if res, args := gen(g[0], g[1], g[2], g[3:]); res.Code != 0 {
						r.Violate(c.group+" refused "+c.tmpl+" "+c.key, fmt.Sprintf("%s: %v: %s", desc, args, res.Err), args)
						return
					}
				}
				res, args := gen(c.tmpl, c.iface, c.out, c.vars)
				r.Count(1, 1, 0)
				if res.Code != 0 {
					if !c.mayErr {
						r.Violate(c.group+" refused "+c.tmpl+" "+c.key, fmt.Sprintf("%s: an ordinary interface is refused: %s", desc, res.Err), args)
					}
					return
				}
				u := m.NewUniverse()
				text := lib.Read(filepath.Join(m.Dir, root, c.out))
				mu.Lock()
				texts[k] = text
				mu.Unlock()
				l := u.Load(root + "/" + filepath.Dir(c.out))
				if l.Err != nil {
					r.Violate(c.group+" "+c.tmpl+" "+c.key, fmt.Sprintf("%s: the output does not compile: %v", desc, l.Err), map[string]any{"args": args, "generated": text})
					return
				}
				seen := map[string]bool{}
				for _, e := range l.Errs {
					key := c.group + " " + c.tmpl + " " + c.key
					what := ""
					if c.method != nil {
						if f := l.FuncAt(e.Pos); f != "" {
							what = c.method(f)
							key += " " + what
						}
					}
					if c.short != nil {
						key = c.short(c.tmpl, what)
					}
					if seen[key] {
						continue
					}
					seen[key] = true
					r.Violate(key, fmt.Sprintf("%s %s: the output does not compile: %s: %s", desc, what, u.Fset.Position(e.Pos), e.Msg), map[string]any{"args": args, "generated": text})
				}
				if len(l.Errs) > 0 {
					return
				}
				var want *types.Interface
				if c.real {
					pk, err := u.Import(c.src)
					if err != nil {
						r.Fatal("%v", err)
					}
					want, _ = pk.Scope().Lookup(c.iface).Type().Underlying().(*types.Interface)
				} else {
					sl := u.Load(root + "/" + c.src)
					in := sl.Named(c.iface)
					if in == nil {
						r.Fatal("%s: no %s: %v", desc, c.iface, sl.FirstErr())
					}
					want, _ = in.Underlying().(*types.Interface)
				}
				ok := false
				var names []string
				for _, n := range l.Pkg.Scope().Names() {
					fn, isFn := l.Pkg.Scope().Lookup(n).(*types.Func)
					if !isFn || !strings.HasPrefix(n, "New") || !strings.HasSuffix(u.Fset.Position(fn.Pos()).Filename, filepath.Base(c.out)) {
						continue
					}
					res := fn.Type().(*types.Signature).Results()
					if res.Len() == 0 {
						continue
					}
					names = append(names, n)
					t := res.At(0).Type()
					if types.Implements(t, want) && !types.IsInterface(t) {
						ok = true
						if len(c.vars) > 0 && strings.HasPrefix(c.vars[0], "DecoratorName=") && !strings.HasSuffix(types.TypeString(t, func(*types.Package) string { return "" }), c.vars[0][14:]) {
							r.Violate(c.group+" name "+c.tmpl, fmt.Sprintf("%s: the decorator is called %s", desc, t), map[string]any{"args": args, "generated": text})
						}
					}
				}
				if !ok {
					key := c.group + " implements " + c.tmpl + " " + c.key
					if c.short != nil && c.real {
						key = c.short(c.tmpl, "")
					}
					r.Violate(key, fmt.Sprintf("%s: no constructor of the output (%v) returns a type that implements the interface", desc, names), map[string]any{"args": args, "generated": text})
				}
				r.Validate(1)
				if k%211 == 0 {
					r.Sample(desc)
				}
				os.RemoveAll(filepath.Join(m.Dir, root))
			})
			return texts
		}
		run(cases)
		// C: names of parameters and results: everything predeclared and every plain identifier the templates used when
		// this list was written
		idents := map[string]map[string]bool{}
		for _, t := range tmpls {
			ids := map[string]bool{}
			for _, n := range strings.Fields(g05Names) {
				ids[n] = true
			}
			for _, n := range types.Universe.Names() {
				ids[n] = true
			}
			for _, n := range []string{"ctx", "err", "svc", "Svc", "dst", "s", "i", "p", "url", "json", "context"} {
				ids[n] = true
			}
			idents[t] = ids
		}
		var ncases []g05Case
		for t, ids := range idents {
			var l []string
			for id := range ids {
				l = append(l, id)
			}
			sort.Strings(l)
			for _, role := range []struct{ name, sig string }{
				{"parameter", "(ctx context.Context, X int) (y string, err error)"},
				{"parameter without context", "(X ...int) (y int, err error)"},
				{"parameter, nothing else", "(X bool)"},
				{"result", "(ctx context.Context, a int) (X string, err error)"},
				{"result without error", "(ctx context.Context, a ...string) (X int)"},
				{"context", "(X context.Context, a int) (y string, err error)"},
				{"error", "(ctx context.Context, a int) (y string, X error)"},
				{"second error", "(ctx context.Context, a error) (X error, err error)"},
				{"second context", "(ctx context.Context, X context.Context) (err error)"},
			} {
				var sigs, used []string
				for _, id := range l {
					// the role's other names
					if n := " " + strings.NewReplacer("(", " ", ",", " ").Replace(role.sig); strings.Contains(n, " "+id+" ") {
						continue
					}
					sigs = append(sigs, strings.ReplaceAll(role.sig, "X", id))
					used = append(used, id)
				}
				for _, out := range []string{"dst/dec.go", "svc/dec.go"} {
					body := iface("Svc", sigs, "context")
					ncases = append(ncases, g05Case{group: "names", key: role.name + " " + filepath.Dir(out), tmpl: t, src: "svc", iface: "Svc", out: out,
						files: map[string]string{"svc/a.go": source("svc", body)}, method: byIndex(used),
						short: func(tmpl, what string) string { return "names " + tmpl + " " + what }})
				}
			}
		}
		run(ncases)
		_ = shape{}
	}}
}

// joinNamed puts a leading context or a trailing error next to other
// parameters when both are named or both are not.
func joinNamed(one string, rest []string, first bool) (string, bool) {
	named := func(s string) bool {
		f := strings.Fields(s)
		return len(f) > 1 && !strings.HasPrefix(s, "map[") && !strings.HasPrefix(s, "chan ") && !strings.HasPrefix(s, "func(")
	}
	if one != "" {
		for _, x := range rest {
			if named(x) != named(one) {
				return "", false
			}
		}
		if first {
			rest = append([]string{one}, rest...)
		} else {
			rest = append(append([]string{}, rest...), one)
		}
	}
	return strings.Join(rest, ", "), true
}

func g05Src(c g05Case, root string) string {
	if c.real {
		return c.src
	}
	return "./" + root + "/" + c.src
}
