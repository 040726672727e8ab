package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"verifmc/lib"
)

// g07Imp is an import declaration the source file may have.
type g07Imp struct {
	spec string // as written
	name string // the name in effect ("." and "_" included)
	path string
	use  string // a type through it
	keep string // something in the file that uses it, for the compiler
}

var g07Imps = []g07Imp{
	{`"context"`, "context", "context", "context.Context", "var _ context.Context"},
	{`"time"`, "time", "time", "time.Duration", "var _ time.Duration"},
	{`tm "time"`, "tm", "time", "tm.Duration", "var _ tm.Duration"},
	{`"scr/ext"`, "ext", "scr/ext", "ext.T", "var _ ext.T"},
	{`al "scr/aliased"`, "al", "scr/aliased", "al.T", "var _ al.T"},
	{`"scr/go-other"`, "other", "scr/go-other", "other.T", "var _ other.T"},
	{`"scr/v2mod/v2"`, "v2mod", "scr/v2mod/v2", "v2mod.T", "var _ v2mod.T"},
	{`sync "scr/mysync"`, "sync", "scr/mysync", "sync.T", "var _ sync.T"},
	{`ext2 "scr/ext"`, "ext2", "scr/ext", "ext2.T", "var _ ext2.T"},
	{`. "scr/dot"`, ".", "scr/dot", "DotT", "var _ DotT"},
	{`_ "scr/blank"`, "_", "scr/blank", "", ""},
	{"`io`", "io", "io", "io.Reader", "var _ io.Reader"},
}

// g07Specs parses an import section.
func g07Specs(src string) (specs []*ast.ImportSpec, f *ast.File, fs *token.FileSet, err error) {
	fs = token.NewFileSet()
	f, err = parser.ParseFile(fs, "x.go", src, parser.ImportsOnly|parser.ParseComments)
	if err == nil {
		specs = f.Imports
	}
	return
}

func g07Key(s *ast.ImportSpec) string {
	p, _ := strconv.Unquote(s.Path.Value)
	if s.Name != nil {
		return s.Name.Name + " " + p
	}
	return p
}

func init() {
	checks["G07"] = check{"model_checking", func(r *lib.Run) {
		m := r.NewMod("m", "scr", r.BuildGowrap())
		m.Exports(m.Dir, "context", "time", "io", "sync", "strings", "errors", "fmt", "bytes")
		for p, n := range map[string]string{"ext": "ext", "aliased": "unaliased", "go-other": "other", "v2mod/v2": "v2mod", "mysync": "mysync", "blank": "blank"} {
			m.Write(p+"/x.go", "package "+n+"\n\ntype T struct{ A int }\n")
		}
		m.Write("dot/x.go", "package dot\n\ntype DotT struct{ A int }\n")
		src := func(imps []g07Imp, used []bool) string {
			var b strings.Builder
			b.WriteString("package src\n\nimport (\n")
			for _, i := range imps {
				fmt.Fprintf(&b, "\t%s\n", i.spec)
			}
			b.WriteString(")\n\n")
			for _, i := range imps {
				b.WriteString(i.keep + "\n")
			}
			b.WriteString("\ntype Loc struct{}\n\ntype Svc interface {\n\tBase(int) (Loc, error)\n")
			for k, i := range imps {
				if used == nil || used[k] {
					if i.use != "" {
						fmt.Fprintf(&b, "\tM%d(p %s) ([]%s, error)\n", k, i.use, i.use)
					}
				}
			}
			b.WriteString("}\n")
			return b.String()
		}
		clash := func(imps []g07Imp) bool {
			seen := map[string]bool{}
			for _, i := range imps {
				if i.name != "_" && i.name != "." && seen[i.name] {
					return true
				}
				seen[i.name] = true
			}
			return false
		}

		// the helper
		helperSets := [][]g07Imp{nil, {g07Imps[0]}, {g07Imps[0], g07Imps[4], g07Imps[5]}, {g07Imps[11], g07Imps[2]}, {g07Imps[9], g07Imps[10], g07Imps[1]}}
		args := []string{"", " ", "\t\n", "context", `"context"`, `"context`, `context"`, " context ", "\t\"context\"\n", "io", `"time"`, "scr/ext", `scr/aliased"`, "a.b/c-d/v2"}
		depth := 3
		if r.Thorough() {
			depth = 4
		}
		lists := [][]string{{}}
		last := lists
		for d := 0; d < depth; d++ {
			var next [][]string
			for _, l := range last {
				for _, a := range args {
					next = append(next, append(append([]string{}, l...), a))
				}
			}
			lists = append(lists, next...)
			last = next
		}
		// long lists, and a source with many imports
		var many []g07Imp
		for i := 0; i < 40; i++ {
			p := fmt.Sprintf("scr/many/m%d", (i*17)%40)
			n := fmt.Sprintf("m%d", (i*17)%40)
			m.Write(strings.TrimPrefix(p, "scr/")+"/x.go", "package "+n+"\n\ntype T struct{ A int }\n")
			im := g07Imp{strconv.Quote(p), n, p, n + ".T", "var _ " + n + ".T"}
			if i%4 == 1 {
				a := fmt.Sprintf("r%d", i*7%40)
				im = g07Imp{a + " " + strconv.Quote(p), a, p, a + ".T", "var _ " + a + ".T"}
			}
			many = append(many, im)
		}
		helperSets = append(helperSets, many)
		for _, n := range []int{5, 8, 12, 13, 20, 33, 64, 100} {
			for k := 0; k < 8; k++ {
				var l []string
				for i := 0; i < n; i++ {
					j := []int{i, n - i, (i * 7) % n, i % 3}[k%4]
					a := fmt.Sprintf("x.org/p%d", j)
					if k >= 4 && i%3 == 0 {
						a = strconv.Quote(a)
					}
					if k >= 4 && i%5 == 0 {
						a = ""
					}
					if k >= 4 && i%7 == 0 {
						a = many[i%40].path
					}
					l = append(l, a)
				}
				lists = append(lists, l)
			}
		}
		const per = 8000
		type hjob struct {
			set, from int
			cross     bool
		}
		var hj []hjob
		for s := range helperSets {
			for f := 0; f < len(lists); f += per {
				hj = append(hj, hjob{s, f, true}, hjob{s, f, false})
			}
		}
		lib.Parallel(len(hj), func(k int) {
			j := hj[k]
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			batch := lists[j.from:min(len(lists), j.from+per)]
			dir := fmt.Sprintf("h%d", k)
			m.Write(dir+"/src/a.go", src(helperSets[j.set], nil))
			var t strings.Builder
			for _, l := range batch {
				t.WriteString("// @ {{$.Import")
				for _, a := range l {
					t.WriteString(" " + strconv.Quote(a))
				}
				t.WriteString(" | printf \"%q\"}}\n")
			}
			m.Write(dir+"/t.tmpl", t.String())
			out := dir + "/dst/x.go"
			if !j.cross {
				out = dir + "/src/x.go"
			}
			res := m.Gen("-g", "-p", "./"+dir+"/src", "-i", "Svc", "-t", dir+"/t.tmpl", "-o", out)
			if res.Code != 0 {
				e := res.Err
				if len(e) > 300 {
					e = e[len(e)-300:]
				}
				r.Violate("helper fails", "the import helper failed for one of its argument lists: "+e, e)
				return
			}
			b := lib.Read(m.Dir + "/" + out)
			i := 0
			for _, line := range strings.Split(b, "\n") {
				q, ok := strings.CutPrefix(line, "// @ ")
				if !ok {
					continue
				}
				text, err := strconv.Unquote(q)
				if err != nil {
					r.Fatal("%q", line)
				}
				l := batch[i]
				i++
				want := map[string]bool{}
				if j.cross {
					want["_sourceSrc scr/"+dir+"/src"] = true
				}
				for _, im := range helperSets[j.set] {
					switch {
					case im.name == "_":
					case im.name == "." || strings.Contains(im.spec, " "):
						want[im.name+" "+im.path] = true
					default:
						want[im.path] = true
					}
				}
				for _, a := range l {
					if p := strings.Trim(strings.TrimSpace(a), `"`); p != "" {
						want[p] = true
					}
				}
				bad := func(f string, x ...any) {
					r.Violate("helper", fmt.Sprintf("Import%q with the source imports %v: ", l, helperSets[j.set])+fmt.Sprintf(f, x...)+": "+text, map[string]any{"arguments": l, "output": text})
				}
				specs, f, _, err := g07Specs("package x\n" + text)
				if err != nil {
					bad("not an import declaration (%v)", err)
					continue
				}
				if len(f.Decls) != 1 {
					bad("%d declarations", len(f.Decls))
				}
				got := map[string]bool{}
				var order []string
				for _, s := range specs {
					key := g07Key(s)
					if got[key] {
						bad("%s is listed twice", key)
					}
					if !want[key] {
						bad("%s is not among the imports", key)
					}
					got[key] = true
					e := s.Path.Value
					if s.Name != nil {
						e = s.Name.Name + " " + e
					}
					order = append(order, e)
				}
				for w := range want {
					if !got[w] {
						bad("%s is missing", w)
					}
				}
				if !sort.StringsAreSorted(order) {
					bad("not in sorted order")
				}
			}
			if i != len(batch) {
				r.Fatal("%d of %d", i, len(batch))
			}
			r.Count(len(batch), len(batch), 0)
			r.Validate(len(batch))
		})
		r.Set("argument_lists", len(lists)*len(hj)/max(1, (len(lists)+per-1)/per))

		// the generated file
		templates := []string{
			lib.Dump,
			`{{$.Import "strings" "\"errors" "context"}}` + lib.Dump + "\nvar _ = strings.ToUpper\nvar _ = errors.New\nvar _ context.Context\n",
			lib.Dump + "\nvar _ = strings.ToUpper\nvar _ = errors.New\nvar _ bytes.Buffer\n",
			"import \"fmt\"\n\nimport (\n\t\"errors\"\n\tbuf \"bytes\"\n)\n" + lib.Dump + "\nvar _ = fmt.Sprint\nvar _ buf.Buffer\n",
		}
		for i, t := range templates {
			m.Write(fmt.Sprintf("t%d.tmpl", i), t)
		}
		prefixes := []string{"", "scr", "scr/ext,scr/aliased", "nomatch", "scr/,io"}
		type job struct {
			imps   []g07Imp
			used   []bool
			cross  bool
			tmpl   int
			prefix string
		}
		var jobs []job
		maxSet := 2
		if r.Thorough() {
			maxSet = 3
		}
		var sets [][]int
		var grow func(at int, s []int)
		grow = func(at int, s []int) {
			sets = append(sets, append([]int{}, s...))
			if len(s) == maxSet {
				return
			}
			for i := at; i < len(g07Imps); i++ {
				grow(i+1, append(s, i))
			}
		}
		grow(0, nil)
		// larger sets: everything compatible
		sets = append(sets, []int{0, 1, 3, 4, 5, 6}, []int{2, 4, 5, 7, 8, 9, 10, 11}, []int{0, 2, 3, 8, 9, 11})
		for _, n := range []int{12, 13, 25, 40} {
			for k := 0; k < 6; k++ {
				used := make([]bool, n)
				for i := range used {
					used[i] = k == 0 || k == 1 && i%2 == 0 || k == 2 && i == n-1 || k == 3 && i%5 != 0 || k == 4 && i > n/2
				}
				jobs = append(jobs, job{many[:n], used, k%2 == 0, (n + k) % len(templates), append(prefixes, "scr/many/m1", "scr/many")[(n+k)%(len(prefixes)+2)]})
			}
		}
		for si, s := range sets {
			var imps []g07Imp
			for _, i := range s {
				imps = append(imps, g07Imps[i])
			}
			if clash(imps) {
				continue
			}
			for mask := 0; mask < 1<<len(s); mask++ {
				if len(s) > 3 && mask != 0 && mask != 1<<len(s)-1 && mask != 0x15 && mask != 0x2a {
					continue
				}
				var used []bool
				for k := range s {
					used = append(used, mask&(1<<k) != 0)
				}
				for c := 0; c < 2; c++ {
					jobs = append(jobs, job{imps, used, c == 0, (si + mask) % len(templates), prefixes[(si+mask+c)%len(prefixes)]})
					if r.Thorough() || len(s) > 3 || len(s) == 1 {
						for t := range templates {
							for _, p := range prefixes {
								jobs = append(jobs, job{imps, used, c == 0, t, p})
							}
						}
					} else {
						jobs = append(jobs, job{imps, used, c == 0, (si + mask + 1) % len(templates), prefixes[(si+mask+c+2)%len(prefixes)]})
					}
				}
			}
		}
		lib.Parallel(len(jobs), func(k int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			j := jobs[k]
			dir := fmt.Sprintf("f%d", k)
			sdir, ddir := dir+"/src", dir+"/dst"
			if !j.cross {
				ddir = sdir
			}
			s := src(j.imps, j.used)
			m.Write(sdir+"/a.go", s)
			desc := fmt.Sprintf("imports %v used %v, output %s, template %d, local prefix %q", j.imps, j.used, map[bool]string{true: "elsewhere", false: "in the same package"}[j.cross], j.tmpl, j.prefix)
			a := []string{"-g", "-p", "./" + sdir, "-i", "Svc", "-t", fmt.Sprintf("t%d.tmpl", j.tmpl), "-o", ddir + "/x.go"}
			if j.prefix != "" {
				a = append(a, "-l", j.prefix)
			}
			res := m.Gen(a...)
			out := ""
			bad := func(key, f string, x ...any) {
				r.Violate(key, desc+": "+fmt.Sprintf(f, x...)+"\n"+out, map[string]any{"source": s, "arguments": a, "output": out})
			}
			if res.Code != 0 {
				bad("generation fails", "generation fails: %s", res.Err)
				return
			}
			out = lib.Read(m.Dir + "/" + ddir + "/x.go")
			u := m.NewUniverse()
			l := u.Load(ddir)
			if l.Err != nil || len(l.Errs) > 0 {
				bad("compile", "does not compile: %s", l.FirstErr())
				return
			}
			isrc := u.Load(sdir)
			if len(isrc.Errs) > 0 || isrc.Err != nil {
				r.Fatal("%s: invalid source: %s", desc, isrc.FirstErr())
			}
			iface, dec := isrc.Named("Svc"), l.Named("Dec")
			if !types.Implements(types.NewPointer(dec), iface.Underlying().(*types.Interface)) {
				bad("implements", "the generated type does not implement the interface")
			}
			specs, f, fs, err := g07Specs(out)
			if err != nil {
				r.Fatal("%v", err)
			}
			usedPk := map[string]bool{}
			for _, af := range l.Files {
				if !strings.HasSuffix(u.Fset.Position(af.Pos()).Filename, "/x.go") {
					continue
				}
				for id, o := range l.Info.Uses {
					if pn, ok := o.(*types.PkgName); ok && af.Pos() <= id.Pos() && id.Pos() <= af.End() {
						usedPk[pn.Name()+" "+pn.Imported().Path()] = true
					}
				}
			}
			seen := map[string]bool{}
			for _, sp := range specs {
				p, _ := strconv.Unquote(sp.Path.Value)
				key := g07Key(sp)
				if seen[key] {
					bad("twice", "%s is imported twice", key)
				}
				seen[key] = true
				if sp.Name != nil && sp.Name.Name == "_" {
					bad("blank", "a blank import of %s is carried over", p)
				}
			}
			// the names the interface's file gives are the ones in use
			for k, i := range j.imps {
				if j.used[k] && i.use != "" && i.name != "." && !usedPk[i.name+" "+i.path] {
					bad("name", "package %s is not used by the name %s", i.path, i.name)
				}
			}
			_ = f
			// groups: those with a local prefix stand alone, after all others
			if j.prefix != "" {
				local := func(p string) bool {
					for _, x := range strings.Split(j.prefix, ",") {
						if strings.HasPrefix(p, x) || strings.TrimSuffix(x, "/") == p {
							return true
						}
					}
					return false
				}
				for _, d := range f.Decls {
					gd, ok := d.(*ast.GenDecl)
					if !ok {
						continue
					}
					was := false
					line := 0
					for n, sp := range gd.Specs {
						is := sp.(*ast.ImportSpec)
						p, _ := strconv.Unquote(is.Path.Value)
						at := fs.Position(is.Pos()).Line
						if was && !local(p) {
							bad("group", "%s follows an import with the local prefix", p)
						}
						if n > 0 && local(p) && !was && at != line+2 {
							bad("group", "%s is not separated from the other imports", p)
						}
						if n > 0 && local(p) && was && at != line+1 {
							bad("group", "%s is separated from the other local imports", p)
						}
						was, line = local(p), at
					}
				}
			}
			if bytes.Contains([]byte(out), []byte("import (\n)")) {
				bad("empty", "an empty import declaration is left")
			}
			r.Count(1, 1, 0)
			r.Validate(1)
			if k%97 == 0 {
				r.Sample(desc)
			}
		})
		r.Set("files", len(jobs))
		r.Set("bounds", fmt.Sprintf("import helper: all argument lists up to length %d over %d arguments and 64 lists of 5 to 100 x %d source import sets x same/other package; generated files: all sets of up to %d of %d import forms (plain, renamed, name unlike the path, versioned, standard name for another package, two names for one package, dot, blank, raw string) with every used/unused split, 3 larger sets and the first 12, 13, 25 and 40 of 40 packages, same/other package, 4 templates, 5 local prefixes", depth, len(args), len(helperSets), maxSet, len(g07Imps)))
	}}
}
