package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verifmc/lib"
)

// g04Type is a type as the source writes it ("Loc" is declared next to the interface) and as another package does.
type g04Type struct{ decl, use string }

func g04T(l ...string) []g04Type {
	var out []g04Type
	for _, s := range l {
		out = append(out, g04Type{s, regexp.MustCompile(`\bLoc`).ReplaceAllString(s, "svc.Loc")})
	}
	return out
}

// g04Method is one method of the enumerated interfaces.
type g04Method struct {
	name           string
	params         []g04Type
	results        []g04Type
	pnames, rnames []string // nil: anonymous
	group          bool     // neighbours of one type share their declaration
	doc            []string // lines before
	comment        string   // line comment
}

func (m g04Method) list(ts []g04Type, ns []string) string {
	var o []string
	for i := 0; i < len(ts); i++ {
		if ns == nil {
			o = append(o, ts[i].decl)
			continue
		}
		n := ns[i]
		for m.group && i+1 < len(ts) && ts[i+1].decl == ts[i].decl && !strings.HasPrefix(ts[i].decl, "...") {
			i++
			n += ", " + ns[i]
		}
		o = append(o, n+" "+ts[i].decl)
	}
	return strings.Join(o, ", ")
}

func (m g04Method) decl() string {
	s := m.name + "(" + m.list(m.params, m.pnames) + ")"
	if len(m.results) > 0 {
		if r := m.list(m.results, m.rnames); len(m.results) == 1 && m.rnames == nil {
			s += " " + r
		} else {
			s += " (" + r + ")"
		}
	}
	return s
}

// kept lists the names the documentation lets a user rely on: everything but blanks, the context, the error and
// names that would clash with those or with generated ones.
func (m g04Method) kept(ts []g04Type, ns []string, results bool) []string {
	out := make([]string, len(ts))
	for i, n := range ns {
		special := n == "_" || n == "ctx" || n == "err" || regexp.MustCompile(`^[a-z]+\d$`).MatchString(n)
		if results && i == len(ts)-1 && ts[i].decl == "error" || !results && i == 0 && strings.HasSuffix(ts[i].decl, ".Context") {
			special = true
		}
		if !special {
			out[i] = n
		}
	}
	return out
}

// g04Prod lists every sequence of min to max types.
func g04Prod(ts []g04Type, min, max int) [][]g04Type {
	var out [][]g04Type
	var rec func(p []g04Type)
	rec = func(p []g04Type) {
		if len(p) >= min {
			out = append(out, append([]g04Type{}, p...))
		}
		if len(p) < max {
			for _, t := range ts {
				rec(append(p, t))
			}
		}
	}
	rec(nil)
	return out
}

// g04Base renders the implementation and the table of a unit.
func g04Base(pkgs []string, ms map[string][]g04Method, modes []string) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"context\"\n\t\"reflect\"\n\t\"unsafe\"\n\t\"scr/ty\"\n")
	for _, p := range pkgs {
		fmt.Fprintf(&b, "\tsvc_%s \"scr/%s\"\n", p, p)
		for _, m := range modes {
			if m == "cross" {
				fmt.Fprintf(&b, "\tdec_%s \"scr/%s/dec\"\n", p, p)
			}
		}
	}
	b.WriteString(")\n\nvar (\n\t_ context.Context\n\t_ ty.T\n\t_ unsafe.Pointer\n)\n\n")
	use := func(p string, t g04Type) string { return strings.ReplaceAll(t.use, "svc.Loc", "svc_"+p+".Loc") }
	for _, p := range pkgs {
		fmt.Fprintf(&b, "type base_%s struct{}\n\n", p)
		for _, m := range ms[p] {
			var ps, as, rt, rs []string
			for i, t := range m.params {
				ps = append(ps, fmt.Sprintf("p%d %s", i, use(p, t)))
				as = append(as, fmt.Sprintf("p%d", i))
			}
			for i, t := range m.results {
				rt = append(rt, use(p, t))
				rs = append(rs, fmt.Sprintf("as[%s](r[%d])", use(p, t), i))
			}
			lhs := "r := "
			if len(rt) == 0 {
				lhs = ""
			}
			fmt.Fprintf(&b, "func (base_%s) %s(%s) (%s) {\n\t%sdo(%q, []any{%s})\n\treturn %s\n}\n\n", p, m.name, strings.Join(ps, ", "), strings.Join(rt, ", "), lhs, m.name, strings.Join(as, ", "), strings.Join(rs, ", "))
		}
	}
	b.WriteString("func units() (out []unit) {\n")
	inst := func(p string) string {
		if strings.HasPrefix(p, "g") {
			return "[ty.T, string, int]"
		}
		return ""
	}
	for _, p := range pkgs {
		fmt.Fprintf(&b, "\t{\n\t\tn := map[string][2][]string{\n")
		for _, m := range ms[p] {
			fmt.Fprintf(&b, "\t\t\t%q: {{%s}, {%s}},\n", m.name, lib.Strings(m.kept(m.params, m.pnames, false)), lib.Strings(m.kept(m.results, m.rnames, true)))
		}
		b.WriteString("\t\t}\n")
		for _, m := range modes {
			at := "svc_" + p
			if m == "cross" {
				at = "dec_" + p
			}
			fmt.Fprintf(&b, "\t\t{\n\t\t\tu := unit{pkg: %q, iface: reflect.TypeFor[svc_%s.Svc%s](), names: n}\n\t\t\tfor _, d := range %s.HelpersSvc%s(base_%s{}) {\n\t\t\t\tu.decs = append(u.decs, d)\n\t\t\t}\n\t\t\tout = append(out, u)\n\t\t}\n", p+" "+m, p, inst(p), at, inst(p), p)
		}
		b.WriteString("\t}\n")
	}
	b.WriteString("\treturn\n}\n")
	return b.String()
}

const g04Ty = `// Package ty holds the types the interfaces mention.
package ty

type T struct{ ID int }

type I interface{ M() int }

type G[K any] struct{ V K }

type F func(a int, b ...string) error
`

const g04Loc = `
type Loc struct{ ID int }

type LocF func(...int) LocI

type LocI interface{ M() int }
`

func g04Source(ms []g04Method) string {
	var b strings.Builder
	all := ""
	for _, m := range ms {
		all += m.decl() + "\n"
	}
	b.WriteString("package svc\n\nimport (\n")
	for _, i := range []string{"context", "unsafe", "scr/ty"} {
		if regexp.MustCompile(`\b` + filepath.Base(i) + `\.`).MatchString(all) {
			fmt.Fprintf(&b, "\t%q\n", i)
		}
	}
	b.WriteString(")\n" + g04Loc + "\n// Svc is decorated.\ntype Svc interface {\n")
	for _, m := range ms {
		for _, d := range m.doc {
			b.WriteString("\t" + d + "\n")
		}
		b.WriteString("\t" + m.decl())
		if m.comment != "" {
			b.WriteString(" " + m.comment)
		}
		b.WriteString("\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// g04Space is the enumerated set of methods.
func g04Space(thorough bool) []g04Method {
	var out []g04Method
	add := func(m g04Method) {
		m.name = fmt.Sprintf("M%d", len(out))
		out = append(out, m)
	}
	nameList := func(n int, l string) []string { return strings.Split(l, " ")[:n] }
	style := func(m g04Method, i int) g04Method {
		if i%2 == 1 && len(m.params) > 0 {
			m.pnames = nameList(len(m.params), "alpha beta gamma delta")
		}
		if i%3 == 1 && len(m.results) > 0 {
			m.rnames = nameList(len(m.results), "uno due tre quattro")
		}
		m.group = i%5 < 2
		return m
	}
	// every parameter list x result lists
	pt, rt := g04T("int", "string", "*ty.T", "func(int, ...string) error", "interface{}"), g04T("int", "string", "error", "*ty.T", "func()")
	vt := g04T("...int", "...*ty.T", "...func(...int) int")
	params := g04Prod(pt, 0, 3)
	for _, p := range g04Prod(pt, 0, 2) {
		for _, v := range vt {
			params = append(params, append(append([]g04Type{}, p...), v))
		}
	}
	results := g04Prod(rt, 0, 3)
	k := 0
	for i, p := range params {
		for j, q := range results {
			if !thorough && len(p)+len(q) > 2 && (i*7+j)%61 != 0 {
				continue
			}
			if thorough && len(p)+len(q) > 4 && (i*7+j)%11 != 0 {
				continue
			}
			add(style(g04Method{params: p, results: q}, k))
			k++
		}
	}
	// every kind of type in every role
	wide := g04T("bool", "float64", "[]byte", "[2]int", "map[string]int", "chan int", "<-chan error", "chan<- ty.T", "struct{ A int; B string }", "struct{}", "ty.T", "**ty.T", "ty.I", "ty.F", "ty.G[int]", "*ty.G[map[string]ty.T]", "Loc", "*Loc", "[]Loc", "LocF", "LocI", "map[Loc][]*Loc", "func() (int, error)", "func(a, b int) (c string)", "func(context.Context, ...ty.T) (Loc, error)", "interface{ M() int }", "any", "error", "context.Context", "[]interface{}", "[]func(...Loc)", "unsafe.Pointer", "rune", "complex128")
	for i, t := range wide {
		v := g04Type{"..." + t.decl, "..." + t.use}
		o := wide[(i*5+3)%len(wide)]
		for s := 0; s < 6; s++ {
			add(style(g04Method{params: []g04Type{t}}, s))
			add(style(g04Method{results: []g04Type{t}}, s))
			add(style(g04Method{params: []g04Type{v}}, s))
			add(style(g04Method{params: []g04Type{o, t, t}, results: []g04Type{t, t, o}}, s))
			add(style(g04Method{params: []g04Type{t, o, v}, results: []g04Type{o, t}}, s))
		}
		if thorough {
			for j, o := range wide {
				add(style(g04Method{params: []g04Type{t, o}, results: []g04Type{o, t}}, i+j))
				add(style(g04Method{params: []g04Type{t, {"..." + o.decl, "..." + o.use}}, results: []g04Type{o, t, t}}, i+j))
			}
		}
	}
	// long lists
	long := []int{5, 8, 11, 12, 21}
	if thorough {
		long = []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 21, 26, 27, 33, 64, 101}
	}
	for _, n := range long {
		for k := 0; k < 8; k++ {
			var p, q []g04Type
			var pn, rn []string
			for i := 0; i < n; i++ {
				x, y := pt[0], rt[1]
				if k >= 4 {
					x, y = pt[(i*3+k)%len(pt)], rt[(i*2+k)%len(rt)]
				}
				p, q = append(p, x), append(q, y)
				pn, rn = append(pn, fmt.Sprintf("in%c%c", 'a'+i/26, 'a'+i%26)), append(rn, fmt.Sprintf("out%c%c", 'a'+i/26, 'a'+i%26))
			}
			m := g04Method{params: p, results: q, group: k%2 == 0}
			if k%4 > 1 {
				m.params[n-1] = vt[n%len(vt)]
				m.results[n-1] = rt[2]
			}
			if k == 1 || k == 3 || k == 6 {
				m.pnames = pn
			}
			if k == 2 || k == 3 || k == 5 {
				m.rnames = rn
			}
			if k == 7 {
				m.results = nil
			}
			add(m)
		}
	}
	// names that meet those the generator chooses
	alpha := []string{"_", "a", "err", "ctx", "i1", "s1", "e1", "c1"}
	var lists [][]string
	for n := 1; n <= 3; n++ {
		for _, w := range nameWords(alpha, n) {
			lists = append(lists, w)
		}
	}
	lists = append([][]string{nil}, lists...)
	first := g04T("int", "context.Context", "error")
	last := g04T("int", "error")
	mid := g04T("string", "error", "int")
	k = 0
	for i, pl := range lists {
		for j, rl := range lists {
			if len(pl)+len(rl) == 0 || clash(pl, rl) || !thorough && (len(pl) > 1 && len(rl) > 1 || len(pl)+len(rl) > 3) || thorough && len(pl)+len(rl) > 4 {
				continue
			}
			if thorough && len(pl)+len(rl) == 4 && (i*7+j)%13 != 0 {
				continue
			}
			for _, f := range first {
				if len(pl) == 0 && f.decl != "int" {
					continue
				}
				for _, l := range last {
					if len(rl) == 0 && l.decl != "int" {
						continue
					}
					if len(pl)+len(rl) > 2 && k%3 != 0 {
						k++
						continue
					}
					k++
					m := g04Method{pnames: pl, rnames: rl, group: k%2 == 0}
					for x := range pl {
						if x == 0 {
							m.params = append(m.params, f)
						} else {
							m.params = append(m.params, mid[(k+x)%3])
						}
					}
					for x := range rl {
						if x == len(rl)-1 {
							m.results = append(m.results, l)
						} else {
							m.results = append(m.results, mid[(k+x+1)%3])
						}
					}
					// the same with the other list anonymous
					if len(rl) == 0 && k%2 == 0 {
						m.results = []g04Type{mid[k%3], l}
					}
					if len(pl) == 0 && k%2 == 0 {
						m.params = []g04Type{f, mid[k%3]}
					}
					add(m)
				}
			}
		}
	}
	return out
}

// nameWords lists the n-letter words in which only "_" occurs twice.
func nameWords(alpha []string, n int) [][]string {
	out := [][]string{{}}
	for ; n > 0; n-- {
		var next [][]string
		for _, w := range out {
			for _, a := range alpha {
				if a == "_" || !contains(w, a) {
					next = append(next, append(append([]string{}, w...), a))
				}
			}
		}
		out = next
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func clash(a, b []string) bool {
	for _, x := range a {
		if x != "_" && contains(b, x) {
			return true
		}
	}
	return false
}

func init() {
	checks["G04"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		tmpl := filepath.Join(r.Verif, "harness", "helpers", "helpers.tmpl")
		space := g04Space(r.Thorough())
		// shards of one program, several interfaces each
		per := 300
		var pkgs []string
		ms := map[string][]g04Method{}
		for i := 0; i < len(space); i += per {
			p := fmt.Sprintf("u%d", len(pkgs))
			pkgs = append(pkgs, p)
			ms[p] = space[i:min(i+per, len(space))]
		}
		var gen []g04Method
		gt := []g04Type{{"A", "ty.T"}, {"B", "string"}, {"C", "int"}, {"*A", "*ty.T"}, {"[]B", "[]string"}, {"map[B]A", "map[string]ty.T"}, {"func(A, ...B) (C, error)", "func(ty.T, ...string) (int, error)"}, {"ty.G[A]", "ty.G[ty.T]"}, {"chan C", "chan int"}, {"int", "int"}}
		for i, p := range g04Prod(gt, 1, 2) {
			for v := 0; v < 3; v++ {
				m := g04Method{name: fmt.Sprintf("G%d", len(gen)), params: p, results: p}
				if v == 1 {
					l := p[len(p)-1]
					m.params = append(append([]g04Type{}, p[:len(p)-1]...), g04Type{"..." + l.decl, "..." + l.use})
					m.results = p[:len(p)-1]
				}
				if v == 2 {
					m.results = nil
				}
				if i%2 == 0 {
					m.pnames = []string{"x", "y"}[:len(m.params)]
				}
				gen = append(gen, m)
			}
		}
		pkgs = append(pkgs, "g0")
		ms["g0"] = gen
		shards := 8
		lib.Parallel(shards, func(s int) {
			var mine []string
			for i, p := range pkgs {
				if i%shards == s {
					mine = append(mine, p)
				}
			}
			if len(mine) > 0 {
				g04Shard(r, gw, tmpl, fmt.Sprintf("s%d", s), mine, ms)
			}
		})
		g04Docs(r, gw, r.Thorough())
		g04Shadow(r, gw, tmpl)
		h := filepath.Join(r.Tmp, "docharness")
		if b := lib.Cmd(filepath.Join(r.Verif, "mc"), nil, "", 5*time.Minute, "go", "build", "-buildvcs=false", "-o", h, "./cmd/docharness"); b.Code != 0 {
			r.NotExhaustive("the generator's constructors have other signatures: " + firstN(b.Err, 300))
		} else {
			var o struct {
				Problems []string
				N        int
			}
			if res := lib.Cmd(r.Tmp, nil, "", 5*time.Minute, h); json.Unmarshal([]byte(res.Out), &o) != nil {
				r.Violate("comments api", "NewMethod: "+firstN(res.Err, 600), nil)
			}
			for _, p := range o.Problems {
				r.Violate("comments api "+p, p, nil)
			}
			r.Count(o.N, o.N, o.N)
		}
		r.Set("methods", len(space)+len(gen))
		r.Set("bounds", fmt.Sprintf("%d methods (every list of up to 3 parameters x results over 5 types and 3 variadics, full product up to total length %d; 34 further types in every role; every list of up to %d names over blanks, plain names and the names the generator itself picks x context/error), each rendered by six decorators covering every helper in the interface's package and another one, compiled, and run with every arity and zero/non-zero values; an interface with three type parameters; documentation comments: every layout x four declaration kinds", len(space), map[bool]int{false: 2, true: 4}[r.Thorough()], map[bool]int{false: 3, true: 4}[r.Thorough()]))
	}}
}

var g04Line = regexp.MustCompile(`(\S+\.go):(\d+):\d+: (.*)`)

func g04Shard(r *lib.Run, gw, tmpl, name string, pkgs []string, ms map[string][]g04Method) {
	mod := r.NewMod("g04-"+name, "scr", gw)
	mod.Write("ty/ty.go", g04Ty)
	mod.Write("rec/rec.go", lib.Read(filepath.Join(r.Verif, "harness", "helpers", "rec", "rec.go")))
	mod.Write("main.go", lib.Read(filepath.Join(r.Verif, "harness", "helpers", "main.go")))
	mod.Write("base.go", g04Base(pkgs, ms, []string{"cross", "same"}))
	decls := map[string]string{}
	for _, p := range pkgs {
		src := g04Source(ms[p])
		if strings.HasPrefix(p, "g") {
			src = strings.Replace(src, "type Svc interface", "type Svc[A any, B comparable, C ~int | ~string] interface", 1)
		}
		mod.Write(p+"/svc.go", src)
		for _, m := range ms[p] {
			decls[p+"."+m.name] = m.decl()
		}
		for _, out := range []string{p + "/dec/dec.go", p + "/dec.go"} {
			res := mod.Gen("-g", "-p", "./"+p, "-i", "Svc", "-t", tmpl, "-o", out)
			if res.Code != 0 {
				r.Violate("gen", fmt.Sprintf("gowrap gen failed on an interface of %d ordinary methods: %s", len(ms[p]), firstN(res.Err, 600)), map[string]any{"source": lib.Read(filepath.Join(mod.Dir, p, "svc.go"))})
				return
			}
		}
	}
	bin := filepath.Join(mod.Dir, "run.bin")
	if b := lib.Cmd(mod.Dir, nil, "", 10*time.Minute, "go", "build", "-gcflags=-e", "-o", bin, "."); b.Code != 0 {
		n := 0
		seen := map[string]bool{}
		for _, x := range g04Line.FindAllStringSubmatch(b.Out+b.Err, -1) {
			f := filepath.Join(mod.Dir, x[1])
			d := g04FuncAt(f, x[2])
			id := strings.SplitN(x[1], "/", 2)[0] + "." + d
			if seen[id] || n > 10 {
				continue
			}
			seen[id] = true
			n++
			r.Violate("compile "+decls[strings.TrimSuffix(id, "()")], fmt.Sprintf("what the helpers render for %s does not compile: %s", decls[id], x[3]), map[string]any{"method": decls[id], "file": x[1], "error": x[0]})
		}
		if n == 0 {
			r.Violate("compile", "what the helpers render does not compile: "+firstN(b.Out+b.Err, 800), nil)
		}
		return
	}
	res := lib.Cmd(mod.Dir, nil, "", 10*time.Minute, bin)
	var o struct {
		Problems []struct{ Method, Helper, Msg string }
		Calls    int
	}
	if res.Code != 0 || json.Unmarshal([]byte(res.Out), &o) != nil {
		r.Fatal("helper harness %s: %d %s", name, res.Code, firstN(res.Err, 2000))
	}
	for _, p := range o.Problems {
		d := decls[regexp.MustCompile(` \w+\.`).ReplaceAllString(p.Method, ".")]
		r.Violate("run "+p.Helper+" "+d, fmt.Sprintf("%s of %s (%s): %s", p.Helper, d, p.Method, p.Msg), map[string]any{"method": d, "in": p.Method})
	}
	r.Count(o.Calls, o.Calls, o.Calls)
	r.Validate(o.Calls)
	if len(pkgs) > 0 {
		m := ms[pkgs[0]][len(ms[pkgs[0]])-1]
		r.Sample(map[string]any{"method": m.decl(), "calls": o.Calls})
	}
}

// g04FuncAt names the method around a line of a generated file.
func g04FuncAt(file, line string) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, 0)
	if err != nil {
		return "?"
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			var l int
			fmt.Sscan(line, &l)
			if fs.Position(fd.Pos()).Line <= l && l <= fs.Position(fd.End()).Line {
				return fd.Name.Name
			}
		}
	}
	return "?"
}

// g04Metas reads what the template was told about each method.
func g04Metas(text string) map[string]struct{ Doc, Comment []string } {
	out := map[string]struct{ Doc, Comment []string }{}
	for _, l := range strings.Split(text, "\n") {
		if s, ok := strings.CutPrefix(l, "// @meta "); ok {
			var m struct {
				Name         string
				Doc, Comment []string
			}
			if json.Unmarshal([]byte(s), &m) == nil {
				out[m.Name] = struct{ Doc, Comment []string }{m.Doc, m.Comment}
			}
		}
	}
	return out
}

// g04Docs: comments reach the template as they are written.
func g04Docs(r *lib.Run, gw string, thorough bool) {
	docs := [][]string{nil, {"// one"}, {"// one", "// two"}, {"//", "// after empty"}, {"/* block */"}, {"/* long", "", "\tblock */"}, {"// a", "/* b */"}, {"/* a */ /* b */"},
		{"//go:noinline"}, {"//nolint:all // x"}, {"// quotes \" ` \\ % {{.}} \t tab"}, {"// ünï 世界 \U0001F600"}, {"// trailing  space"}, {"//"}, {"/**/"}, {"// detached", "", "// attached"}, {"// detached", ""}, {"// @gowrap:x", "// +build no"}, {"// Deprecated: no", "//", "//\tcode()", "//", "// # Title"}, {"/*x*/", "// y", "/* z", "*/"}}
	comments := []string{"", "// c", "/* c */", "/* c */ // d", "//nolint", "// \"`\\%", "//"}
	var ms []g04Method
	want := map[string][2][]string{}
	for _, d := range docs {
		for _, c := range comments {
			m := g04Method{name: fmt.Sprintf("D%d", len(ms)), doc: d, comment: c}
			if len(ms)%3 == 1 {
				m.params, m.pnames = g04T("int"), []string{"a"}
			}
			ms = append(ms, m)
			want[m.name] = [2][]string{g04Doc(d), g04Comment(c)}
		}
	}
	// in the order given, and reversed: a comment must not move to a neighbour
	for rev := 0; rev < 2; rev++ {
		list := append([]g04Method{}, ms...)
		if rev == 1 {
			for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
				list[i], list[j] = list[j], list[i]
			}
		}
		src := g04Source(list)
		mod := r.NewMod(fmt.Sprintf("g04-docs%d", rev), "scr", gw)
		mod.Write("ty/ty.go", g04Ty)
		src = strings.Replace(src, "package svc", "package own", 1)
		mod.Write("own/svc.go", src)
		mod.Write("other/svc.go", "package other\n\nimport \"scr/own\"\n\n// Svc embeds.\ntype Svc interface {\n\t// not a method's\n\town.Svc // neither\n\tX() // x\n}\n")
		mod.Write("alias/svc.go", "package alias\n\nimport \"scr/own\"\n\n// Svc is an alias.\ntype Svc = own.Svc\n")
		mod.Write("local/a.go", strings.Replace(src, "type Svc ", "type inner ", 1))
		mod.Write("local/b.go", "package own\n\n// Svc embeds.\ntype Svc interface {\n\tinner // not a method's\n}\n")
		mod.Write("grouped/svc.go", strings.Replace(src, "// Svc is decorated.\ntype Svc interface {", "// group\ntype (\n\t// Svc doc.\n\tSvc interface {", 1)+")\n")
		for _, v := range []string{"own", "other", "alias", "local", "grouped"} {
			for _, out := range []string{"gen" + v + "/dec.go", v + "/dec_gen.go"} {
				mod.Write("dump.tmpl", lib.Dump)
				res := mod.Gen("-g", "-p", "./"+v, "-i", "Svc", "-t", "dump.tmpl", "-o", out)
				key := fmt.Sprintf("docs %s", v)
				if res.Code != 0 {
					r.Violate(key+" gen", fmt.Sprintf("gowrap gen failed on an interface with comments (%s): %s", v, firstN(res.Err, 600)), map[string]any{"source": src})
					continue
				}
				got := g04Metas(lib.Read(filepath.Join(mod.Dir, out)))
				var names []string
				for n := range want {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					w, g := want[n], got[n]
					r.Count(1, 1, 1)
					if lib.JSON(w[0]) != lib.JSON(orNil(g.Doc)) {
						r.Violate(key+" doc", fmt.Sprintf("the documentation of method %s declared with %q reaches the template as %q (%s)", n, w[0], g.Doc, v), map[string]any{"want": w, "got": g})
					}
					if lib.JSON(w[1]) != lib.JSON(orNil(g.Comment)) {
						r.Violate(key+" comment", fmt.Sprintf("the line comment of method %s, %q, reaches the template as %q (%s)", n, w[1], g.Comment, v), map[string]any{"want": w, "got": g})
					}
				}
				r.Validate(len(names))
			}
		}
	}
}

func orNil(l []string) []string {
	if len(l) == 0 {
		return nil
	}
	return l
}

// g04Doc splits documentation into comments: those after the last empty line, as Go associates them.
func g04Doc(lines []string) []string {
	var out []string
	block := false
	for _, l := range lines {
		if block {
			out[len(out)-1] += "\n\t" + l
			block = !strings.Contains(l, "*/")
			continue
		}
		if l == "" {
			out = nil
			continue
		}
		if strings.HasPrefix(l, "//") {
			out = append(out, l)
			continue
		}
		for strings.HasPrefix(l, "/*") {
			a, b, ok := strings.Cut(l, "*/")
			if !ok {
				out = append(out, l)
				block = true
				break
			}
			out = append(out, a+"*/")
			l = strings.TrimSpace(b)
		}
	}
	return out
}

func g04Comment(c string) []string {
	var out []string
	for strings.HasPrefix(c, "/*") {
		a, b, _ := strings.Cut(c, "*/")
		out = append(out, a+"*/")
		c = strings.TrimSpace(b)
	}
	if c != "" {
		out = append(out, c)
	}
	return out
}

// g04Shadow: parameters named like something the helpers mention.
func g04Shadow(r *lib.Run, gw, tmpl string) {
	type sc struct {
		what string
		m    g04Method
	}
	var l []sc
	for _, n := range []string{"string", "interface", "any", "ty", "int", "error", "svc"} {
		if n == "interface" {
			continue
		}
		for _, role := range []string{"param", "result"} {
			for _, t := range []string{"string", "int", "error", "*ty.T", "Loc"} {
				m := g04Method{params: g04T("int"), pnames: []string{"a"}, results: g04T("int"), rnames: []string{"b"}}
				if role == "param" {
					m.params, m.pnames = append(g04T(t), m.params...), []string{n, "a"}
				} else {
					m.results, m.rnames = append(g04T(t), m.results...), []string{n, "b"}
				}
				l = append(l, sc{fmt.Sprintf("%s named %s", role, n), m})
			}
		}
	}
	mod := r.NewMod("g04-shadow", "scr", gw)
	mod.Write("ty/ty.go", g04Ty)
	mod.Write("rec/rec.go", lib.Read(filepath.Join(r.Verif, "harness", "helpers", "rec", "rec.go")))
	mod.Exports(r.Repo, "context", "unsafe", "fmt")
	lib.Parallel(len(l), func(i int) {
		m := l[i].m
		m.name = "M"
		p := fmt.Sprintf("x%d", i)
		mod.Write(p+"/svc.go", g04Source([]g04Method{m}))
		res := mod.Gen("-g", "-p", "./"+p, "-i", "Svc", "-t", tmpl, "-o", p+"/dec/dec.go")
		if res.Code != 0 {
			r.Violate("shadow gen "+l[i].what, fmt.Sprintf("gowrap gen failed for %s: %s", m.decl(), firstN(res.Err, 400)), nil)
			return
		}
		u := mod.NewUniverse()
		r.Count(1, 1, 1)
		if e := u.Load(p + "/dec").FirstErr(); e != "" {
			r.Violate("shadow "+l[i].what+": "+e, fmt.Sprintf("what the helpers render for %s does not compile: %s", m.decl(), e), map[string]any{"method": m.decl()})
		}
	})
}
