package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verifmc/lib"
)

const c07Tmpl = `{{range $k, $v := .Vars}}// @var {{printf "%q" $k}} {{printf "%T" $v}} {{printf "%q" (print $v)}}
{{end}}// @unset {{default "dflt" .Vars.unset}} {{hasKey .Vars "unset"}} {{if .Vars.unset}}yes{{else}}no{{end}} {{len .Vars}}
`

// c07Expect is the documented meaning of a list of -v arguments.
func c07Expect(args []string) map[string]string {
	out := map[string]string{}
	for _, a := range args {
		if n, v, ok := strings.Cut(a, "="); ok {
			out[n] = "string " + v
		} else {
			out[a] = "bool true"
		}
	}
	return out
}

func c07Read(b []byte) (map[string]string, string, error) {
	out := map[string]string{}
	unset := ""
	for _, l := range strings.Split(string(b), "\n") {
		if x, ok := strings.CutPrefix(l, "// @unset "); ok {
			unset = x
		}
		x, ok := strings.CutPrefix(l, "// @var ")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(x)
		if err != nil {
			return nil, "", err
		}
		name, _ := strconv.Unquote(q)
		typ, rest, _ := strings.Cut(strings.TrimPrefix(x[len(q):], " "), " ")
		val, err := strconv.Unquote(rest)
		if err != nil {
			return nil, "", err
		}
		out[name] = typ + " " + val
	}
	return out, unset, nil
}

func c07Diff(want, got map[string]string) string {
	var d []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			d = append(d, fmt.Sprintf("%q (%q) is missing", k, v))
		} else if g != v {
			d = append(d, fmt.Sprintf("%q is %q, must be %q", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%q (%q) was never given", k, v))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func init() {
	checks["C07"] = check{"model_checking", func(r *lib.Run) {
		m := r.NewMod("m", "scr", r.BuildGowrap())
		m.Exports(m.Dir, "context", "time", "io", "sort")
		m.Write("src/a.go", "package src\n\ntype Svc interface{ M() }\n")
		m.Write("t.tmpl", c07Tmpl)
		run := func(id string, args []string, style int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			base := []string{"-g", "-p", "./src", "-i", "Svc", "-t", "t.tmpl", "-o", "o" + id + "/x.go"}
			var vs []string
			for _, a := range args {
				switch style % 3 {
				case 0:
					vs = append(vs, "-v", a)
				case 1:
					vs = append(vs, "-v="+a)
				case 2:
					vs = append(vs, "--v", a)
				}
			}
			full := append(append([]string{}, base...), vs...)
			if style%2 == 1 {
				full = append(append([]string{}, vs...), base...)
			}
			res := m.Gen(full...)
			r.Count(len(args), len(args), 0)
			if res.Code != 0 {
				r.Violate("failed", fmt.Sprintf("gen failed with %.200q: %.300s", args, res.Err), args)
				return
			}
			b, err := os.ReadFile(filepath.Join(m.Dir, "o"+id, "x.go"))
			if err != nil {
				r.Fatal("%v", err)
			}
			got, unset, err := c07Read(b)
			if err != nil {
				r.Fatal("%v", err)
			}
			want := c07Expect(args)
			if d := c07Diff(want, got); d != "" {
				r.Violate("vars", fmt.Sprintf("arguments %.200q: %.600s", args, d), args)
			}
			if w := fmt.Sprintf("dflt false no %d", len(want)); unset != w {
				r.Violate("unset", fmt.Sprintf("arguments %.200q: a variable that was not given is seen as %q", args, unset), args)
			}
			r.Validate(1)
			r.Sample(fmt.Sprintf("%.120q", args))
		}
		// 1. every value text, many variables at once under distinct names
		alpha := []string{"a", "=", " ", "\"", "$", "-", "\n", "%", "\\"}
		k := 4
		if r.Thorough() {
			k = 5
		}
		var texts []string
		texts = append(texts, words(alpha, k)...)
		texts = append(texts, words([]string{"=", "\xff", "é", "'", ",", "`", "{", "\t"}, 3)...)
		for _, w := range []string{"true", "false", "True", "FALSE", "t", "yes", "on", "0", "1", "-1", "007", "0x1F", "1e3", "1.50", "null", "nil", "<nil>", "NaN", "[]", "[1 2]", "{}", "{\"k\":1}", "3s", "2006-01-02", "@file", "$HOME", "${HOME}", "~", "*", "é", "A\u0301", "a,b", "a;b", "a b", "'a'", "\"a\"", "`a`", "{{.Vars}}", "<a>&amp;", "http://x?y=z&w"} {
			texts = append(texts, "="+w, "="+w+"=", " ="+w, "= "+w)
		}
		const per = 800
		nb := (len(texts) + per - 1) / per
		lib.Parallel(nb, func(b int) {
			var args []string
			for i, t := range texts[b*per : min(len(texts), (b+1)*per)] {
				args = append(args, fmt.Sprintf("n%d%s", i, t))
			}
			run(fmt.Sprintf("t%d", b), args, b)
		})
		// 2. every short list over arguments that repeat, shadow and nest names
		al := []string{"a", "a=", "a=1", "b=a=1", "=x", "", "a b", "a=\"q r\"", "a=true", "a=false"}
		d := 3
		if r.Thorough() {
			d = 4
			al = append(al, "-g", "a=-v")
		}
		lists := [][]string{{}}
		last := [][]string{{}}
		for i := 0; i < d; i++ {
			var next [][]string
			for _, l := range last {
				for _, a := range al {
					next = append(next, append(append([]string{}, l...), a))
				}
			}
			lists = append(lists, next...)
			last = next
		}
		lib.Parallel(len(lists), func(i int) {
			run(fmt.Sprintf("l%d", i), lists[i], i)
		})
		// 3. what the template is told about the interface
		c07Interfaces(r, m)
		r.Set("bounds", fmt.Sprintf("all value texts up to length %d over %d characters (and up to 3 over 8 more), all lists of up to %d of %d arguments in three flag spellings before and after the other flags; 3 interface names x 10 type parameter lists x 3 package names x 7 output places; 21 constraint constructors over 7 leaves, as one of several and as the only type parameter, blank parameters, and over 3 leaves another package cannot name; (the source directory, a new one, existing ones of another name, of the same name, main, with only a test)", k, len(alpha), d, len(al)))
	}}
}

const c07IfaceTmpl = `
// @iface {{printf "%q %q %q %q" .Interface.Name .Interface.Type .Interface.Generics.Types .Interface.Generics.Params}}
// @imports {{range .Imports}}{{printf "%q " .}}{{end}}
type Use{{.Interface.Generics.Types}} struct{ F {{.Interface.Type}}{{.Interface.Generics.Params}} }
{{range .Interface.Methods}}
func (Use{{$.Interface.Generics.Params}}) {{.Declaration}} { panic(0) }
{{end}}
`

func c07Interfaces(r *lib.Run, m *lib.Mod) {
	m.Write("i.tmpl", c07IfaceTmpl)
	m.Write("al/x.go", "package al\n\ntype T int\n\ntype C interface{ ~uint | ~uint16 }\n\ntype G[X any] interface{ ~[]X }\n\ntype G2[X any] struct{ V X }\n")
	type c struct {
		name, gen, params, pkg, dir, out string
		refuse                           bool
	}
	var cs []c
	for _, name := range []string{"Svc", "Größe", "S_1"} {
		for _, g := range [][2]string{{"", ""}, {"[T any]", "[T]"}, {"[K comparable, V any]", "[K, V]"}, {"[A, B interface{ ~int | ~string }]", "[A, B]"}, {"[A ~int | ~string | ~bool, B any]", "[A, B]"}, {"[A int | ~uint8 | string | []byte, B comparable, C interface{ ~[]A | ~map[string]A }]", "[A, B, C]"}, {"[A Con, B interface{ Con; String() string }, P interface{ *A | ~*B }]", "[A, B, P]"}, {"[A al.C | ~float64, B GCon[A], C tm.Duration | int]", "[A, B, C]"}, {"[E any, S ~[]E, M ~map[string]S, F ~func(E, ...S) (x M)]", "[E, S, M, F]"}, {"[A interface{ ~int | ~int8; comparable }, B ~chan<- A | ~chan A, C [3]A | [4]A]", "[A, B, C]"}} {
			for _, p := range []string{"same", "other", "upper_Case"} {
				for _, o := range []string{"same", "new", "existing", "namesake", "existing namesake", "main", "tests"} {
					cs = append(cs, c{name, g[0], g[1], p, "", o, false})
				}
			}
		}
	}
	// every constraint constructor over every leaf, several at a time; those another package cannot write, one at a time
	forms := []string{"interface{ %s }", "[]%s", "~[]%s", "*%s", "~map[string]%s", "~func(%s, ...%s) (r %s)", "~chan<- %s", "[N]%s", "~[N + 1]%s", "~struct{ F %s }", "interface{ Do(%s) *%s }", "interface{ ~[]%s; Do(a, b int) []%s }", "interface{ interface{ Do(x ...%s) } }", "GCon[%s]", "al.G[%s]", "GCon[al.G2[%s]]", "int | ~[]%s", "~[]%s | ~[2]%s | *%s", "(%s)", "~[](%s)", "interface{ GCon[%s] | ~string }"}
	leaf := func(f, t string) string { return strings.ReplaceAll(f, "%s", t) }
	var valid []string
	for i, f := range forms {
		for _, t := range []string{"Loc", "al.T", "A", "error", "[]Loc", "Gn[Loc]", "tm.Duration"} {
			if f == "(%s)" && t != "Loc" && t != "al.T" || i == 0 && t == "A" {
				continue
			}
			valid = append(valid, leaf(f, t))
		}
	}
	for i := 0; i < len(valid); i += 4 {
		gen, params := "[A any", "[A"
		for k, v := range valid[i:min(i+4, len(valid))] {
			gen += fmt.Sprintf(", P%d %s", k, v)
			params += fmt.Sprintf(", P%d", k)
		}
		for _, o := range []string{"same", "new", "existing namesake"} {
			cs = append(cs, c{"Svc", gen + "]", params + "]", "other", "", o, false})
		}
	}
	for _, g := range [][2]string{{"[A *Loc,]", "[A]"}, {"[A *Loc | ~int,]", "[A]"}, {"[A (Con),]", "[A]"}, {"[A (al.C),]", "[A]"}, {"[A *al.T, B *A]", "[A, B]"}, {"[_ any]", "[_]"}, {"[A any, _ GCon[A]]", "[A, _]"}} {
		cs = append(cs, c{"Svc", g[0], g[1], "other", "", "new", false}, c{"Svc", g[0], g[1], "other", "", "same", false})
	}
	for i, f := range forms {
		for j, t := range []string{"Loc", "al.T", "Gn[Loc]", "error"} {
			if f != "(%s)" && (r.Thorough() || (i+j)%2 == 0) {
				cs = append(cs, c{"Svc", "[A " + leaf(f, t) + ",]", "[A]", "other", "", []string{"new", "same"}[i%2], false})
			}
		}
	}
	for i, f := range forms {
		for j, t := range []string{"lower", "Gn[lower]", "[n]int"} {
			for k, g := range [][2]string{{"[A C]", "[A]"}, {"[A any, B C]", "[A, B]"}, {"[A, B C]", "[A, B]"}, {"[A C, B any]", "[A, B]"}} {
				if (f == "(%s)" || f == "*%s") && k == 0 || (i+j+k)%3 != 0 && !r.Thorough() {
					continue
				}
				gen := strings.ReplaceAll(g[0], "C", leaf(f, t))
				cs = append(cs, c{"Svc", gen, g[1], "other", "", "new", true}, c{"Svc", gen, g[1], "other", "", "same", false})
			}
		}
	}
	lib.Parallel(len(cs), func(i int) {
		x := cs[i]
		dir := fmt.Sprintf("i%d/same", i)
		imp := []string{"\"context\"", "tm \"time\"", "\"scr/al\"", "\"io\""}
		s := "package " + x.pkg + "\n\nimport (\n\t" + strings.Join(imp, "\n\t") + "\n)\n\nvar _ io.Reader\n\ntype " + x.name + x.gen + " interface {\n\tM(context.Context, tm.Duration, al.T)\n}\n\ntype " + x.name + "2 interface{ Wrong() }\n\ntype Con interface{ ~int | ~string }\n\ntype GCon[X any] interface{ ~[]X | ~[2]X }\n\ntype Loc struct{ B int }\n\ntype Gn[X any] struct{ V X }\n\ntype lower struct{ C int }\n\nconst N, n = 4, 5\n"
		m.Write(dir+"/a.go", s)
		m.Write(dir+"/b.go", "package "+x.pkg+"\n\nimport tm \"sort\"\n\nvar _ tm.Interface\n\ntype Other interface{ Wrong2() }\n")
		out := dir
		if x.out != "same" {
			out = fmt.Sprintf("i%d/out", i)
			switch x.out {
			case "existing":
				m.Write(out+"/e.go", "package realname\n\ntype Keep int\n")
			case "namesake": // a directory of the source package's name
				out = fmt.Sprintf("i%d/deep/%s", i, x.pkg)
			case "existing namesake":
				m.Write(out+"/e.go", "package "+x.pkg+"\n\ntype Keep int\n\ntype T struct{ A int }\n")
			case "main":
				m.Write(out+"/e.go", "package main\n\nfunc main() {}\n")
			case "tests":
				m.Write(out+"/e_test.go", "package realname_test\n\ntype Keep int\n")
			}
		}
		res := m.Gen("-g", "-p", "./"+dir, "-i", x.name, "-t", "i.tmpl", "-o", out+"/x.go")
		key := fmt.Sprintf("interface %s%s of package %s, output %s", x.name, x.gen, x.pkg, x.out)
		r.Count(1, 1, 0)
		r.Validate(1)
		if x.refuse {
			if res.Code == 0 {
				r.Violate(key, key+": gen succeeded although the constraint cannot be written in another package", x)
			}
			return
		}
		if res.Code != 0 {
			r.Violate(key, key+": gen failed: "+res.Err, x)
			return
		}
		u := m.NewUniverse()
		l := u.Load(out)
		src := u.Load(dir)
		if e := src.FirstErr(); e != "" && x.out != "same" {
			r.Fatal("%s: %s", key, e)
		}
		use := l.Named("Use")
		if l.FirstErr() != "" || use == nil {
			r.Violate(key, key+": the file does not compile: "+l.FirstErr(), x)
			return
		}
		if want := map[string]string{"same": x.pkg, "new": "out", "existing": "realname", "namesake": x.pkg, "existing namesake": x.pkg, "main": "main", "tests": "realname"}[x.out]; l.Pkg.Name() != want {
			r.Violate(key, key+": package "+l.Pkg.Name()+", must be "+want, x)
		}
		f := use.Underlying().(*types.Struct).Field(0).Type()
		n, _ := f.(*types.Named)
		iface := src.Named(x.name)
		if n == nil || n.Origin().Obj() != iface.Obj() {
			r.Violate(key, key+": the qualified type names "+f.String(), x)
		}
		if n != nil {
			// the type parameters have the same constraints
			have, want := use.TypeParams(), iface.TypeParams()
			if have.Len() != want.Len() {
				r.Violate(key, fmt.Sprintf("%s: %d type parameters, must be %d", key, have.Len(), want.Len()), x)
			} else {
				full := func(p *types.Package) string { return p.Path() }
				for i := 0; i < want.Len(); i++ {
					h, w := have.At(i).Constraint(), want.At(i).Constraint()
					if types.Identical(h, w) || types.Identical(h.Underlying(), w.Underlying()) && (h.Underlying() == h) == (w.Underlying() == w) {
						continue
					}
					if a, b := types.TypeString(h, full), types.TypeString(w, full); a != b {
						r.Violate(key, fmt.Sprintf("%s: the constraint of %s is %s, must be %s", key, want.At(i).Obj().Name(), a, b), x)
					}
				}
			}
		}
		for line := range strings.SplitSeq(string(l.Src["x.go"]), "\n") {
			if v, ok := strings.CutPrefix(line, "// @iface "); ok {
				params := x.params // a blank one has to have some name there
				if strings.Contains(params, "_") {
					params = v[strings.LastIndexByte(v, '[') : len(v)-1]
				}
				if !strings.HasPrefix(v, strconv.Quote(x.name)+" ") || !strings.HasSuffix(v, " "+strconv.Quote(params)) {
					r.Violate(key, key+": the template is told "+v, x)
				}
				if x.out == "same" && !strings.HasPrefix(v, strconv.Quote(x.name)+" "+strconv.Quote(x.name)+" ") {
					r.Violate(key, key+": the template is told "+v, x)
				}
			}
			if v, ok := strings.CutPrefix(line, "// @imports "); ok {
				for _, w := range imp {
					if !strings.Contains(v, strings.Trim(strconv.Quote(w), "\"")+"\"") {
						r.Violate(key, key+": import "+w+" of the interface's file is not among "+v, x)
					}
				}
				if strings.Contains(v, "sort") {
					r.Violate(key, key+": an import of another file is among "+v, x)
				}
			}
		}
	})
}
