package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
	"sync"

	"verifmc/lib"
)

const g01Ext = `package %s

type T struct{ A int }

func (T) Do() {}

type I interface{ Do() }

type G[X any] struct{ V X }

type G2[X, Y any] struct {
	V X
	W Y
}

type F func(T) T

const N = 5

const Name = "four"

var Vals [7]T

type lower struct{}

var _ lower
`

// the declaring package; the interface goes to another file
const g01Types = `package src

type Loc struct{ A int }

type LocI interface{ LM(Loc) Loc }

type LG[X any] struct{ V X }

type LG2[X, Y any] struct {
	V X
	W Y
}

type Fn func(Loc) Loc

type Al = Loc

const N = 4
const K = 2
const Typed Size = 3

type Size int

type size int

var Arr [3]Loc

const Name = "name"

var St struct{ Arr [2]int }

type lower struct{ A int }

type LC[X comparable] struct{ V X }

type num interface{ ~int | ~string }

type lg[X any] struct{ V X }

const n = 6

type Num interface{ ~int | ~string }
`

const g01Imports = `
	"context"
	"io"
	"time"
	"scr/ext"
	al "scr/aliased"
	"scr/go-other"
`

// leaves are the named and predeclared types; the second list needs no import and goes everywhere.
var g01Leaves = []string{"int", "string", "error", "any", "interface{}", "Loc", "LocI", "Fn", "Al", "ext.T", "ext.I", "ext.F", "al.T", "other.T", "context.Context", "time.Duration",
	"LG[int]", "LG[Loc]", "LG2[string, *Loc]", "ext.G[Loc]", "ext.G[ext.T]", "al.G2[Loc, other.T]", "struct{}", "func()", "io.Reader", "LC[string]"}

var g01Ctors = []string{"*%s", "[]%s", "[3]%s", "[N]%s", "[ext.N]%s", "[K*N+1]%s", "[0x10]%s", "['a']%s", "map[string]%s", "map[Loc]%s", "chan %s", "<-chan %s", "chan<- %s", "chan (%s)", "<-chan (%s)", "chan<- (%s)", "(%s)",
	"func(%s)", "func() %s", "func(%s) %s", "func(a %s, b ...%s) (r %s, err error)", "func(a, b %s) (x, y %s)", "func(...%s)", "func(_ int, _ %s)",
	"struct{ F %s }", "struct{ F, G %s; H int }", "struct{ F %s `json:\"f,omitempty\"` }", "struct{ F int \"x:\\\"y\\\"\"; G %s }", "struct{ F %s \"a`b\"; G %s `a:\"\\n\"` }", "struct{ F %s \"\" }", "struct{ F %s \"\\n\\x00é\\\\ %%d\" }", "interface{ M(%s) %s }", "interface{ LocI; M(%s) }", "interface{ M(a int, _ ...%s) }", "interface { ext.I; X() (int, %s) }",
	"LG[%s]", "LG2[%s, int]", "LG2[int, %s]", "ext.G[%s]", "al.G2[%s, Loc]", "LG[LG[%s]]"}

func apply(c, x string) string { return strings.ReplaceAll(c, "%s", x) }

// usable says whether the composed type is valid Go at all.
func usable(t string) bool { return t != "" }

// a package that declares types under predeclared and unusual names
const g01Odd = `package src

type any struct{ A int }

type error interface{ E() }

type string int

type byte struct{ B int }

type _x struct{}

type x_Y struct{}

type état struct{}

type Ça struct{}

type 世 struct{}

type Ωm[X interface{}] struct{ V X }

type ǆ struct{}

type ǅa struct{}
`

type g01Method struct {
	key, sig string
	mustFail bool
	mayFail  bool
}

// g01Batch generates one interface and compares every method.
type g01 struct {
	r     *lib.Run
	m     *lib.Mod
	mu    sync.Mutex
	found int
	types string // of the source package
}

func (g *g01) source(name string, generics string, ms []g01Method) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package src\n\nimport (%s)\n\nvar _ context.Context\nvar _ time.Duration\nvar _ ext.T\nvar _ al.T\nvar _ other.T\nvar _ io.Reader\n\ntype %s%s interface {\n", g01Imports, name, generics)
	for i, m := range ms {
		fmt.Fprintf(&b, "\tM%d%s\n", i, m.sig)
	}
	b.WriteString("}\n")
	return b.String()
}

// batch reports every method whose rendering is wrong; mode is same or cross.
func (g *g01) batch(id, generics string, ms []g01Method, same bool) {
	if len(ms) == 0 || g.r.Left() < 0 {
		if len(ms) > 0 {
			g.r.NotExhaustive("time")
		}
		return
	}
	sdir := "b" + id + "/src"
	g.m.Write(sdir+"/types.go", g.types)
	g.m.Write(sdir+"/iface.go", g.source("Svc", generics, ms))
	ddir := "b" + id + "/dst"
	mode := "cross"
	if same {
		ddir, mode = sdir, "same"
	}
	res := g.m.Gen("-g", "-p", "./"+sdir, "-i", "Svc", "-t", "dump.tmpl", "-o", ddir+"/dec.go")
	fail := func(m g01Method, what string) {
		g.mu.Lock()
		g.found++
		g.mu.Unlock()
		g.r.Violate(mode+" "+generics+m.key, fmt.Sprintf("interface method %s%s (%s package output): %s", "M", m.sig, mode, what), map[string]any{"method": m.sig, "mode": mode, "type parameters": generics})
	}
	if res.Code != 0 {
		if len(ms) == 1 {
			if !ms[0].mustFail && !ms[0].mayFail {
				fail(ms[0], "generation failed: "+strings.TrimSpace(res.Err))
			}
			return
		}
		g.mu.Lock()
		enough := g.found >= 6
		g.mu.Unlock()
		if enough {
			return
		}
		h := len(ms) / 2
		g.batch(id+"a", generics, ms[:h], same)
		g.batch(id+"b", generics, ms[h:], same)
		return
	}
	u := g.m.NewUniverse()
	src := u.Load(sdir)
	dst := u.Load(ddir)
	if dst.Err != nil {
		fail(ms[0], "the generated file cannot be read: "+dst.Err.Error())
		return
	}
	iface := src.Named("Svc")
	dec := dst.Named("Dec")
	if iface == nil || dec == nil {
		g.r.Fatal("no Svc or Dec in %s: %s", id, src.FirstErr())
	}
	errs := map[string]string{}
	for _, e := range dst.Errs {
		n := dst.FuncAt(e.Pos)
		if n == "" {
			n = "?"
		}
		if errs[n] == "" {
			errs[n] = e.Msg
		}
	}
	if iface.TypeParams().Len() > 0 {
		// compare both under the same type arguments
		var targs []types.Type
		for i := 0; i < iface.TypeParams().Len(); i++ {
			targs = append(targs, iface.TypeParams().At(i))
		}
		if dec.TypeParams().Len() != iface.TypeParams().Len() {
			fail(ms[0], "the type parameters of the generated type differ from the interface's")
			return
		}
		inst, err := types.Instantiate(nil, dec, targs, true)
		if err != nil {
			fail(ms[0], "the generated type cannot be instantiated like the interface: "+err.Error())
			return
		}
		dec = inst.(*types.Named)
	}
	it := iface.Underlying().(*types.Interface)
	if it.NumMethods() != len(ms) {
		g.r.Fatal("%s: %d methods, wrote %d (%s)", id, it.NumMethods(), len(ms), src.FirstErr())
	}
	bad := 0
	for i, m := range ms {
		name := fmt.Sprintf("M%d", i)
		if m.mustFail {
			fail(m, "generation succeeded although the method mentions a type that cannot be named there: "+u.FuncText(dst, name))
			continue
		}
		if e := errs[name]; e != "" {
			bad++
			if bad < 4 {
				fail(m, "rendered as\n"+u.FuncText(dst, name)+"\nwhich does not compile: "+e)
			}
			continue
		}
		var want, got *types.Func
		for k := 0; k < it.NumMethods(); k++ {
			if it.Method(k).Name() == name {
				want = it.Method(k)
			}
		}
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(dec), true, dst.Pkg, name); o != nil {
			got, _ = o.(*types.Func)
		}
		if got == nil {
			fail(m, "not rendered at all")
			continue
		}
		if !types.Identical(want.Type(), got.Type()) {
			bad++
			if bad < 4 {
				fail(m, fmt.Sprintf("rendered as %s, which is another type than %s", got.Type(), want.Type()))
			}
		}
	}
	if e := errs["?"]; e != "" && bad == 0 {
		fail(ms[0], "the generated file does not compile: "+e)
	}
	g.r.Count(len(ms), len(ms), 0)
	g.r.Validate(len(ms))
	g.r.Add("method_signatures_compared", len(ms))
	g.r.Sample(fmt.Sprintf("%s %s%s", mode, generics, ms[0].sig))
}

// valid filters out texts that are not valid Go types in the source package (say, a non-comparable map key).
func (g *g01) valid(id, generics string, ms []g01Method) []g01Method {
	sdir := "v" + id + "/src"
	g.m.Write(sdir+"/types.go", g.types)
	g.m.Write(sdir+"/iface.go", g.source("Svc", generics, ms))
	u := g.m.NewUniverse()
	l := u.Load(sdir)
	if l.Err != nil {
		g.r.Fatal("%s: %v", id, l.Err)
	}
	bad := map[int]bool{}
	lines := map[int]int{}
	for _, f := range l.Files {
		ast.Inspect(f, func(x ast.Node) bool {
			if t, ok := x.(*ast.TypeSpec); ok && t.Name.Name == "Svc" {
				for i, m := range t.Type.(*ast.InterfaceType).Methods.List {
					lines[u.Fset.Position(m.Pos()).Line] = i
				}
			}
			return true
		})
	}
	for _, e := range l.Errs {
		p := u.Fset.Position(e.Pos)
		if i, ok := lines[p.Line]; ok && strings.HasSuffix(p.Filename, "iface.go") {
			bad[i] = true
		} else {
			g.r.Fatal("%s: %s", id, e.Error())
		}
	}
	var out []g01Method
	for i, m := range ms {
		if !bad[i] {
			out = append(out, m)
		}
	}
	return out
}

func init() {
	checks["G01"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		m := r.NewMod("m", "scr", gw)
		m.Exports(m.Dir, "context", "time", "io")
		m.Write("dump.tmpl", lib.Dump)
		m.Write("ext/ext.go", fmt.Sprintf(g01Ext, "ext"))
		m.Write("aliased/x.go", fmt.Sprintf(g01Ext, "unaliased"))
		m.Write("go-other/x.go", fmt.Sprintf(g01Ext, "other"))
		lib.Write(r.Tmp+"/dump.tmpl", lib.Dump)
		g01Real(r, gw)
		g := &g01{r: r, m: m, types: g01Types}
		odd := &g01{r: r, m: m, types: g01Odd}

		var types1, types2, types3 []string
		for _, c := range g01Ctors {
			for _, l := range g01Leaves {
				types1 = append(types1, apply(c, l))
			}
		}
		few := []string{"Loc", "ext.T", "LG[Loc]", "int", "al.G2[Loc, other.T]"}
		if r.Thorough() {
			few = g01Leaves
		}
		for _, c := range g01Ctors {
			for _, d := range g01Ctors {
				for _, l := range few {
					types2 = append(types2, apply(c, apply(d, l)))
				}
			}
		}
		c3 := []string{"*%s", "[]%s", "[N]%s", "map[string]%s", "<-chan %s", "chan<- %s", "chan (%s)", "func(%s) %s", "func(a int, b ...%s)", "struct{ F %s `a:\"b\"` }", "interface{ M(%s) }", "LG[%s]", "ext.G[%s]"}
		for _, a := range c3 {
			for _, b := range c3 {
				for _, c := range c3 {
					l := []string{"Loc"}
					if r.Thorough() {
						l = []string{"Loc", "al.T", "int"}
					}
					for _, l := range l {
						types3 = append(types3, apply(a, apply(b, apply(c, l))))
					}
				}
			}
		}
		// chains: one or two constructors applied over and over
		deep := 6
		if r.Thorough() {
			deep = 16
		}
		double := func(c string) bool { return strings.Count(c, "%s") > 1 }
		for i, a := range g01Ctors {
			for j, b := range g01Ctors {
				if !r.Thorough() && i != j && (i*5+j)%7 != 0 || !r.Thorough() && strings.HasPrefix(a, "LG[LG") {
					continue
				}
				for ni, n := range []int{deep / 2, deep} {
					if (double(a) || double(b)) && n > 6 {
						n = 3 + 2*ni
					}
					t := few[(i+j)%len(few)]
					for k := 0; k < n; k++ {
						t = apply([]string{a, b}[k%2], t)
					}
					if len(t) < 20000 {
						types3 = append(types3, t)
					}
				}
			}
		}
		var ms []g01Method
		for i, t := range append(append(append(append([]string{}, g01Leaves...), types1...), types2...), types3...) {
			switch {
			case i < len(g01Leaves)+len(types1):
				ms = append(ms, g01Method{key: "(p " + t + ") " + t, sig: "(p " + t + ") " + t})
				ms = append(ms, g01Method{key: "(" + t + ") (r " + t + ", err error)", sig: "(" + t + ") (r " + t + ", err error)"})
				ms = append(ms, g01Method{key: "variadic " + t, sig: "(a int, p ..." + t + ")"})
				ms = append(ms, g01Method{key: "group " + t, sig: "(ctx context.Context, a, b " + t + ") (" + t + ", error)"})
				ms = append(ms, g01Method{key: "anonymous variadic " + t, sig: "(..." + t + ") (x, y " + t + ")"})
			case i%2 == 0:
				ms = append(ms, g01Method{key: t, sig: "(p " + t + ") " + t})
			default:
				ms = append(ms, g01Method{key: t, sig: "(" + t + ") (r " + t + ")"})
			}
		}
		const per = 1500
		type job struct {
			id, generics string
			ms           []g01Method
			same         bool
			odd          bool
		}
		var jobs []job
		for i := 0; i < len(ms); i += per {
			c := ms[i:min(i+per, len(ms))]
			jobs = append(jobs, job{fmt.Sprintf("%dc", i), "", c, false, false}, job{fmt.Sprintf("%ds", i), "", c, true, false})
		}
		// type parameters
		tp := []string{"T", "*T", "LG[T]", "LG2[K, T]", "ext.G[T]", "map[K]T", "func(T) K", "Loc", "ext.T"}
		for gi, generics := range []string{"[T any, K comparable]", "[K comparable, T fmtStringer]", "[K ~int | ~string, T any]", "[T, K Num]", "[T interface{ ~int }, K comparable]"} {
			if strings.Contains(generics, "fmtStringer") {
				generics = "[K comparable, T ext.I]"
			}
			var gm []g01Method
			for _, t := range tp {
				for _, c := range g01Ctors {
					x := apply(c, t)
					gm = append(gm, g01Method{key: x, sig: "(p " + x + ") (K, " + x + ")"})
				}
				gm = append(gm, g01Method{key: t, sig: "(" + t + ", ..." + t + ") T"})
			}
			for _, same := range []bool{false, true} {
				jobs = append(jobs, job{fmt.Sprintf("g%d%v", gi, same), generics, gm, same, false})
			}
		}
		// array lengths: constant expressions
		atoms := []string{"3", "N", "K", "ext.N", "al.N", "0b11", "1_0", "len(\"abc\")", "int(N)", "'\\x03'", "Typed", "Size(K)", "(N)", "5.0", "0x1p2", "2i*-2i"}
		var consts []string
		for _, a := range atoms {
			for _, u := range []string{"%s", "(%s)", "-(-%s)", "+%s", "^(^%s)", "- -%s", "((%s))", "int(%s)", "uint8(%s)", "(int)(%s)", "len([...]string{%s: \"x\"})"} {
				consts = append(consts, apply(u, a))
			}
		}
		ops := []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&^"}
		for _, a := range atoms {
			for _, b := range atoms {
				for _, o := range ops {
					consts = append(consts, a+o+b, a+" "+o+" "+b)
				}
			}
		}
		for _, o := range ops {
			for _, q := range ops {
				for _, a := range [][3]string{{"7", "N", "K"}, {"ext.N", "K", "1"}, {"N", "1", "ext.N"}, {"9", "K", "K"}, {"K", "7", "N"}} {
					for _, f := range []string{"%s " + o + " %s " + q + " %s", "(%s " + o + " %s) " + q + " %s", "%s " + o + " (%s " + q + " %s)", "%s " + o + " -(%s " + q + " -%s)", "int(%s " + o + " %s) " + q + " len([%s]int{})"} {
						if o == "%" || q == "%" {
							f = strings.ReplaceAll(f, "% ", "%% ")
						}
						consts = append(consts, fmt.Sprintf(f, a[0], a[1], a[2]))
					}
				}
			}
		}
		var cm []g01Method
		for i, c := range consts {
			t := "[" + c + "]Loc"
			if i%3 == 0 {
				t = "map[[" + c + "]int]*[" + c + "]ext.T"
			}
			cm = append(cm, g01Method{key: "constant " + c, sig: "(p " + t + ")"})
		}
		jobs = append(jobs, job{"constc", "", cm, false, false}, job{"consts", "", cm, true, false})
		for i, c := range []string{"n", "n+1", "1+n", "-(-n)", "(n)", "int(n)", "N*(K+n)", "size(3)", "int(size(3))", "len(\"abc\")-n", "ext.N*n", "Size(n)", "n<<1", "(n*2)+N", "^(^n)"} {
			jobs = append(jobs, job{fmt.Sprintf("cu%d", i), "", []g01Method{{key: "unexported constant " + c, sig: "(p [" + c + "]int)", mustFail: true}}, false, false},
				job{fmt.Sprintf("cs%d", i), "", []g01Method{{key: "unexported constant " + c, sig: "(p [" + c + "]int)"}}, true, false})
		}
		// what is rarely written there may be refused for another package
		for i, c := range []string{"len([N]int{})", "len([3]Loc{})", "len([...]Loc{{}, {}})", "len(Arr)", "cap(Arr)", "len(St.Arr)", "len((*[4]Loc)(nil))", "len([2]struct{ A Loc }{})", "len([...]Size{K: 1})", "len([K + 1]ext.T{})", "len([...]map[string]Loc{nil, nil})", "len(ext.Vals)", "cap([N]func(Loc){})", "len([2][N]Loc{}[0])", "len(struct{ A [K]Loc }{}.A)", "len([...]string{N: \"\"})", "min(N, K)", "max(N, 3, ext.N)", "real(N)", "int(real(3 + 2i))", "len(\"a\" + \"bc\")", "len(Name)", "len(Name + \"x\")", "len(ext.Name)"} {
			for _, same := range []bool{false, true} {
				jobs = append(jobs, job{fmt.Sprintf("cm%d%v", i, same), "", []g01Method{{key: "constant " + c, sig: "(p [" + c + "]int)", mayFail: !same}}, same, false})
			}
		}
		// types that cannot be named from another package
		for i, c := range append([]string{"%s"}, g01Ctors...) {
			for k, low := range []string{"lower", "lg[int]", "LG[lower]", "struct{ f int }", "interface{ m() }"} {
				if k > 2 && (strings.Contains(c, "json") || !r.Thorough() && i%4 != 0) {
					continue
				}
				t := apply(c, low)
				jobs = append(jobs, job{fmt.Sprintf("u%d_%dp", i, k), "", []g01Method{{key: "unexported (p " + t + ")", sig: "(p " + t + ")", mustFail: true}}, false, false})
				if k < 1 || r.Thorough() {
					jobs = append(jobs, job{fmt.Sprintf("u%d_%dr", i, k), "", []g01Method{{key: "unexported () (a int, r " + t + ")", sig: "() (a int, r " + t + ")", mustFail: true}}, false, false})
				}
				if r.Thorough() || i == 0 {
					jobs = append(jobs, job{fmt.Sprintf("u%d_%ds", i, k), "", []g01Method{{key: "(p " + t + ") " + t, sig: "(p " + t + ") " + t}}, true, false})
				}
				if r.Thorough() {
					for j, d := range g01Ctors {
						t := apply(d, t)
						jobs = append(jobs, job{fmt.Sprintf("u%d_%d_%dp", i, k, j), "", []g01Method{{key: "unexported (p " + t + ")", sig: "(p " + t + ")", mustFail: true}}, false, false})
					}
				}
			}
		}
		// predeclared names that the package declares itself; exported and unexported names in other scripts
		oddC := []string{"%s", "*%s", "[]%s", "map[int]%s", "chan<- %s", "func(%s) int", "struct{ F %s }", "interface{ M(%s) }", "ext.G[%s]", "Ωm[%s]"}
		var oddOK, oddSame []g01Method
		for i, c := range oddC {
			for _, l := range []string{"any", "error", "string", "byte", "_x", "x_Y", "état", "世", "ǆ", "ǅa"} {
				t := apply(c, l)
				for _, sig := range []string{"(p " + t + ")", "(" + t + ", int) (" + t + ")", "(int) (r " + t + ", p int)"} {
					oddSame = append(oddSame, g01Method{key: "odd " + sig, sig: sig})
					if i == 0 || r.Thorough() {
						jobs = append(jobs, job{fmt.Sprintf("o%d", len(jobs)), "", []g01Method{{key: "odd " + sig, sig: sig, mustFail: true}}, false, true})
					}
				}
			}
			for _, l := range []string{"Ça", "Ωm[int]", "Ωm[Ça]", "int", "float64", "ext.T"} {
				t := apply(c, l)
				oddOK = append(oddOK, g01Method{key: "odd " + t, sig: "(p " + t + ") " + t})
			}
		}
		jobs = append(jobs, job{"oddok", "", oddOK, false, true}, job{"oddsame", "", append(oddSame, oddOK...), true, true})
		lib.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			g := g
			if j.odd {
				g = odd
			}
			j.ms = g.valid(j.id, j.generics, j.ms)
			g.batch(j.id, j.generics, j.ms, j.same)
		})
		r.Set("bounds", fmt.Sprintf("%d type expressions: %d named/predeclared leaves, all %d constructors over them, all pairs of constructors over %d leaves, all triples of %d constructors, chains of one or two constructors up to %d deep; each as parameter, result or variadic, named and anonymous; same-package and cross-package output; 5 type parameter lists; unexported types at every constructor position; every exported interface of the standard library (thorough: and of the modules the repository depends on)", len(types1)+len(types2)+len(types3)+len(g01Leaves), len(g01Leaves), len(g01Ctors), len(few), len(c3), deep))
	}}
}
