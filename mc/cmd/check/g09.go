package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/lib"
)

// g09 feeds the real command sources and templates that are not right.
type g09 struct {
	r *lib.Run
	m *lib.Mod
	n atomic.Int64
}

// gen runs the command and judges how it ends; it returns the exit code.
func (g *g09) gen(kind, what, out string, args ...string) int {
	// an endless descent must not take the machine with it
	res := lib.Cmd(g.m.Dir, nil, "", time.Minute, "bash", append([]string{"-c", `ulimit -v 4000000; exec "$@"`, "bash", g.m.GW, "gen"}, args...)...)
	g.r.Count(1, 1, 0)
	g.n.Add(1)
	rep := map[string]any{"args": args, "input": what, "exit": res.Code, "stderr": firstN(res.Err, 3000)}
	_, err := os.Stat(filepath.Join(g.m.Dir, out))
	switch {
	case res.TimedOut:
		g.r.Violate(kind+": does not end", what, rep)
	case strings.Contains(res.Err, "goroutine ") || res.Code != 0 && res.Code != 1:
		g.r.Violate(kind+": crash", fmt.Sprintf("exit %d for %s", res.Code, what), rep)
	case res.Code == 1 && strings.TrimSpace(res.Err) == "":
		g.r.Violate(kind+": no diagnostic", what, rep)
	case res.Code == 1 && (err == nil || res.Out != ""):
		g.r.Violate(kind+": leaves something", what, rep)
	case res.Code == 0 && err != nil:
		g.r.Violate(kind+": success without output", what, rep)
	case res.Code == 0:
		if _, err := parser.ParseFile(token.NewFileSet(), filepath.Join(g.m.Dir, out), nil, 0); err != nil {
			g.r.Violate(kind+": output does not parse", fmt.Sprintf("%v for %s", err, what), rep)
		}
	}
	return res.Code
}

// cycles: types that are made of themselves have no method set, so they have to be refused.
func (g *g09) cycles() {
	type job struct {
		kinds   []int // embeds, alias, defined; the same, generic
		entered bool  // Svc is not on the cycle
		files   bool  // one file per type
		same    bool
	}
	var jobs []job
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 6
		}
		for c := 0; c < total; c++ {
			var ks []int
			for i, x := 0, c; i < n; i, x = i+1, x/6 {
				ks = append(ks, x%6)
			}
			if g.r.Thorough() || n < 3 {
				for b := 0; b < 8; b++ {
					jobs = append(jobs, job{ks, b&1 > 0, b&2 > 0, b&4 > 0})
				}
			} else {
				jobs = append(jobs, job{ks, c%2 > 0, c/2%2 > 0, c/4%2 > 0})
			}
		}
	}
	lib.Parallel(len(jobs), func(k int) {
		if g.r.Violated() {
			return // a descent takes its time
		}
		j := jobs[k]
		id := fmt.Sprintf("cyc%d", k)
		name := func(i int) string {
			i %= len(j.kinds)
			if i == 0 && !j.entered {
				return "Svc"
			}
			return fmt.Sprintf("T%d", i)
		}
		var decls []string
		if j.entered {
			arg := ""
			if j.kinds[0] > 2 {
				arg = "[int]"
			}
			decls = append(decls, []string{"type Svc interface {\nM()\nT0" + arg + "\n}", "type Svc T0" + arg, "type Svc = T0" + arg}[k/8%3])
		}
		for i, kind := range j.kinds {
			ref := name(i + 1)
			if j.kinds[(i+1)%len(j.kinds)] > 2 {
				if kind > 2 {
					ref += "[[]X]"
				} else {
					ref += "[int]"
				}
			}
			par := ""
			if kind > 2 {
				par = "[X any]"
			}
			switch kind % 3 {
			case 0:
				decls = append(decls, fmt.Sprintf("type %s%s interface {\nM%d()\n%s\n}", name(i), par, i, ref))
			case 1:
				decls = append(decls, fmt.Sprintf("type %s%s = %s", name(i), par, ref))
			case 2:
				decls = append(decls, fmt.Sprintf("type %s%s %s", name(i), par, ref))
			}
		}
		if j.files {
			for i, d := range decls {
				g.m.Write(fmt.Sprintf("%s/src/f%d.go", id, i), "package src\n\n"+d+"\n")
			}
		} else {
			g.m.Write(id+"/src/f.go", "package src\n\n"+strings.Join(decls, "\n\n")+"\n")
		}
		out := id + "/dst/dec.go"
		if j.same {
			out = id + "/src/dec.go"
		}
		code := g.gen("cycle", strings.Join(decls, "\n"), out, "-g", "-p", "./"+id+"/src", "-i", "Svc", "-t", "dump.tmpl", "-o", out)
		if code == 0 {
			g.r.Violate("cycle: accepted", "generation succeeded for\n"+strings.Join(decls, "\n"), map[string]any{"source": decls})
		}
		os.RemoveAll(filepath.Join(g.m.Dir, id))
	})
}

var g09Leaves = []string{"int", "T", "G", "ext.T", "ext.G", "ext.Nope", "nope.T", "Nope", "1", `"s"`, "X", "_", "C", "x", "f()", "any", "error", "comparable", "unsafe.Pointer", "a.b.c", "ext.C", "ext.x", "nil", "struct{}", "interface{}", "func()", "-1", "'a'", "1.5", "iota", "T.A", "x.A", "(*T)(nil)", "[]int{1}", "func(){}", "len(x)", "make(chan int)", "x[0]", "x[:]", "x.(T)", "&x", "<-x", "!x"}

var g09Cons = []string{"%s", "*%s", "(%s)", "[]%s", "[%s]int", "[...]%s", "[3]%s", "map[%s]int", "map[int]%s", "chan %s", "<-chan %s", "...%s", "%s[int]", "%s[int, T]", "G[%s]", "ext.G[%s]", "G[int][%s]", "func(%s)", "func(%s) %s", "func(...%s)", "struct{ %s }", "struct{ A %s }", "struct{ *%s }", "interface{ %s }", "interface{ M() %s }", "interface{ ~%s }", "~%s", "%s | int", "int | ~%s", "%s.A", "%s.A.B", "(%s, int)", "_ %s", "a, b %s", "a %s, b", "%s{}", "%s(1)", "[len([%s]int{})]int", "[unsafe.Sizeof(%s{})]int", "[C + %s]int", "[1 << %s]int", "[T(%s)]int", "[ext.F(%s)]int"}

var g09Places = []string{"type Svc interface { M(%s) }", "type Svc interface { M() %s }", "type Svc interface { M(...%s) }", "type Svc interface { M() (%s) }", "type Svc interface { M(a %s) }", "type Svc interface { %s }", "type Svc interface { M(); %s }", "type Svc interface { N(int, %s) (%s, error) }", "type Svc %s", "type Svc = %s", "type Svc[K %s] interface{ M(K) }", "type Svc[K, L %s] interface{ M(K, L) }", "type Svc[K interface{ %s }] interface{ M(K) }", "type Svc interface { E }\ntype E %s"}

const g09Rest = `package src

import "scr/ext"
import "unsafe"

type T struct{ A int }
type G[P any] struct{ V P }

const C = 3

var x [4]T

type X interface{ XM(T) }

func f() int { return 1 }

var _ unsafe.Pointer
var _ ext.T

`

// sources: declarations built without regard to what Go allows.
func (g *g09) sources() {
	var jobs []string
	for pi, p := range g09Places {
		for ci, c := range g09Cons {
			for li, l := range g09Leaves {
				if !g.r.Thorough() && (pi+ci+li)%5 != 0 && pi != 5 && pi != 6 {
					continue
				}
				jobs = append(jobs, strings.ReplaceAll(p, "%s", strings.ReplaceAll(c, "%s", l)))
			}
		}
	}
	lib.Parallel(len(jobs), func(k int) {
		if g.r.Left() < 30*time.Second {
			g.r.NotExhaustive("time")
			return
		}
		id := fmt.Sprintf("s%d", k)
		g.m.Write(id+"/src/a.go", g09Rest+jobs[k]+"\n")
		out := id + "/dst/x.go"
		if k%3 == 0 {
			out = id + "/src/x.go"
		}
		g.gen("source", jobs[k], out, "-g", "-p", "./"+id+"/src", "-i", "Svc", "-t", "dump.tmpl", "-o", out)
		os.RemoveAll(filepath.Join(g.m.Dir, id))
	})
	g.r.Set("declarations", len(jobs))
}

// files: what a source directory may hold.
func (g *g09) files() {
	const good = "package src\n\ntype Svc interface{ M() }\n"
	frags := map[string]string{
		"good":          good,
		"empty":         "",
		"blank":         "\n\n",
		"comment":       "// package src\n",
		"clause":        "package src",
		"bom":           "\ufeff" + good,
		"bom inside":    "package src\n\ufeff\ntype Z int\n",
		"crlf":          strings.ReplaceAll(good, "\n", "\r\n"),
		"nul":           good + "\x00",
		"nul comment":   good + "// \x00\n",
		"invalid utf-8": good + "// \xff\xfe\nvar \xff int\n",
		"cut":           good[:len(good)-6],
		"cut string":    "package src\n\nvar s = \"abc\n",
		"cut comment":   "package src\n\n/* abc\n",
		"cut raw":       "package src\n\nvar s = `abc\n",
		"other package": "package other\n\ntype Svc interface{ Wrong() }\n",
		"test package":  "package src_test\n\ntype Svc interface{ Wrong() }\n",
		"main":          "package main\n\nfunc main() {}\n",
		"documentation": "package documentation\n",
		"duplicate":     "package src\n\ntype Svc interface{ M2() }\n",
		"missing":       "package src\n\nimport \"scr/missing\"\n\nvar _ missing.T\n",
		"bad import":    "package src\n\nimport \"\"\n",
		"bad path":      "package src\n\nimport \"a b\"\n",
		"relative":      "package src\n\nimport \"./x\"\n",
		"self":          "package src\n\nimport \"scr/SELF/src\"\n\nvar _ src.Svc\n",
		"C":             "package src\n\nimport \"C\"\n",
		"unused":        "package src\n\nimport \"fmt\"\n",
		"late import":   "package src\n\nvar a int\n\nimport \"fmt\"\n",
		"type error":    "package src\n\nvar a int = \"x\"\n",
		"undefined":     "package src\n\nvar a = undefined\n",
		"ignored":       "//go:build ignore\n\npackage ignored\n\ntype Svc interface{ Wrong() }\n",
		"bad build":     "//go:build &&\n\npackage src\n",
		"embed":         "package src\n\nimport _ \"embed\"\n\n//go:embed nothing\nvar s string\n",
		"line":          "//line /nowhere/x.go:1\npackage src\n\n//line :0\ntype Z int\n",
		"deep":          "package src\n\nvar v = " + strings.Repeat("(", 500) + "1" + strings.Repeat(")", 500) + "\n",
		"deep type":     "package src\n\ntype Z " + strings.Repeat("[]", 3000) + "int\n",
		"too deep":      "package src\n\nvar v = " + strings.Repeat("(", 200000) + "1" + strings.Repeat(")", 200000) + "\n",
		"deep method":   "package src\n\ntype Z interface{ M(" + strings.Repeat("func(", 400) + strings.Repeat(")", 400) + ") }\n",
	}
	var names []string
	for n := range frags {
		names = append(names, n)
	}
	fileNames := []string{"a.go", "a_test.go", "_a.go", ".a.go", "a.txt", "a_windows.go"}
	type job struct{ fa, a, b string }
	var jobs []job
	for _, a := range names {
		for _, f := range fileNames {
			jobs = append(jobs, job{f, a, ""}, job{f, a, "good"})
		}
		for _, b := range names {
			if g.r.Thorough() || a < b {
				jobs = append(jobs, job{"a.go", a, b})
			}
		}
	}
	lib.Parallel(len(jobs), func(k int) {
		if g.r.Left() < 30*time.Second {
			g.r.NotExhaustive("time")
			return
		}
		j := jobs[k]
		id := fmt.Sprintf("f%d", k)
		g.m.Write(id+"/src/"+j.fa, strings.ReplaceAll(frags[j.a], "SELF", id))
		if j.b != "" {
			g.m.Write(id+"/src/b.go", strings.ReplaceAll(frags[j.b], "SELF", id))
		}
		out := id + "/dst/x.go"
		if k%2 == 0 {
			out = id + "/src/x.go"
		}
		what := fmt.Sprintf("%s is %q, b.go is %q", j.fa, j.a, j.b)
		code := g.gen("files", what, out, "-g", "-p", "./"+id+"/src", "-i", "Svc", "-t", "dump.tmpl", "-o", out)
		if code == 0 && (j.b == "good" || j.fa == "a.go" && j.a == "good") {
			if b := lib.Read(filepath.Join(g.m.Dir, out)); strings.Contains(b, "Wrong") {
				g.r.Violate("files: wrong package", "an interface of another package or an ignored file is used: "+what, map[string]any{"output": b})
			}
		}
		os.RemoveAll(filepath.Join(g.m.Dir, id))
	})
	g.r.Set("source_directories", len(jobs))
}

// g09Decls lists the tokens of what is declared apart from imports.
func g09Decls(src string) ([]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var s scanner.Scanner
	file := fset.AddFile("", -1, len(src))
	s.Init(file, []byte(src), nil, 0)
	skip := func(off int) bool {
		if off <= int(f.Name.End()-f.FileStart) {
			return true
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && off >= int(d.Pos()-f.FileStart) && off < int(d.End()-f.FileStart) {
				return true
			}
		}
		return false
	}
	var out []string
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return out, nil
		}
		if tok != token.SEMICOLON && !skip(file.Offset(pos)) {
			out = append(out, tok.String()+" "+lit)
		}
	}
}

var g09Frags = []string{`import "fmt"`, `import "strings"`, `import ("fmt")`, "import (\n\t\"fmt\"\n\n\t\"strings\"\n)", `import ("fmt"; "strings")`, "import (", ")", `import _ "fmt"`, `import . "fmt"`, `import f "fmt"`, `import "scr/ext"`, "/* c */", "// c", "\n", ";", `"`, "`", "\r\n", "\x00", "\ufeff", "type A int", "var _ = fmt.Sprint", "var _ ext.T", "package x", "//line a.go:1", "func (", "}", `{{template "none"}}`, `{{.Nope}}`, `{{define "r"}}{{template "r"}}{{end}}{{template "r"}}`, `{{fail "no"}}`, `{{index .Interface.Methods "Nope" 1}}`, `{{repeat -1 "x"}}`, `{{first ""}}`, `{{`, `}}`, `{{range}}`, `{{(index .Interface.Methods "M").ReturnStruct ""}}`, `{{(index .Interface.Methods "Nope").Declaration}}`, `{{.Import "" " " "\""}}`, `{{break}}`, `import "C"`, `import ()`, `import "unsafe"; import "fmt" // c`, "const c = `\r`", "{{/* c */}}", "\xff", "func init() { fmt.Print() }"}

// templates: what a template may be made of.
func (g *g09) templates() {
	g.m.Write("tsrc/a.go", "package tsrc\n\nimport \"scr/ext\"\n\ntype Svc interface{ M(ext.T) error }\n")
	var jobs []string
	three := map[int]bool{0: true, 3: true, 5: true, 6: true, 8: true, 10: true, 11: true, 12: true, 17: true, 20: true, 21: true, 22: true}
	for i, a := range g09Frags {
		jobs = append(jobs, a)
		for j, b := range g09Frags {
			jobs = append(jobs, a+"\n"+b)
			if g.r.Thorough() {
				jobs = append(jobs, a+b)
			}
			for k, c := range g09Frags {
				if three[i] && three[j] && three[k] && (g.r.Thorough() || (i+j+k)%3 == 0) {
					jobs = append(jobs, a+"\n"+b+"\n"+c)
				}
			}
		}
	}
	lib.Parallel(len(jobs), func(k int) {
		if g.r.Left() < 20*time.Second {
			g.r.NotExhaustive("time")
			return
		}
		id := fmt.Sprintf("t%d", k)
		g.m.Write(id+"/t", jobs[k])
		out := id + "/x.go"
		args := []string{"-g", "-p", "./tsrc", "-i", "Svc", "-t", id + "/t", "-o", out}
		if k%2 == 0 {
			args = append(args, "-l", "scr,fmt")
		}
		code := g.gen("template", fmt.Sprintf("%q", jobs[k]), out, args...)
		if code == 0 && !strings.Contains(jobs[k], "{{") {
			want, werr := g09Decls("package x\n" + jobs[k])
			got, gerr := g09Decls(lib.Read(filepath.Join(g.m.Dir, out)))
			if werr == nil && gerr == nil && strings.Join(want, "\n") != strings.Join(got, "\n") {
				g.r.Violate("template: rewritten", fmt.Sprintf("the template %q declares %q, the output %q", jobs[k], want, got), nil)
			}
		}
		os.RemoveAll(filepath.Join(g.m.Dir, id))
	})
	g.r.Set("templates", len(jobs))
}

func init() {
	checks["G09"] = check{"model_checking", func(r *lib.Run) {
		m := r.NewMod("m", "scr", r.BuildGowrap())
		m.Write("dump.tmpl", lib.Dump)
		m.Write("ext/e.go", "package ext\n\ntype T struct{ A int }\n\ntype G[P any] struct{ V P }\n\nconst C = 2\n\nvar x int\n\nfunc F(int) int { return 1 }\n")
		g := &g09{r: r, m: m}
		g.files()
		g.templates()
		g.sources()
		if !r.Violated() {
			g.cycles()
		}
		r.Validate(int(g.n.Load()))
		r.Sample(g09Places[0])
		r.Set("bounds", fmt.Sprintf("%d places x %d constructors x %d operands put together without regard to what Go allows (quick: a fifth, all as interface elements); all cycles of up to 3 types of 6 kinds; %d kinds of files in pairs and under 6 kinds of names; templates of up to 2 of %d fragments and 3 of 12", len(g09Places), len(g09Cons), len(g09Leaves), 38, len(g09Frags)))
	}}
}
