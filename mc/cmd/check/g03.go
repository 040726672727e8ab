package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verifmc/lib"
)

// metaParam and metaMethod are what a template is told about a method.
type metaParam struct {
	Doc, Comment []string
	Name, Type   string
	Variadic     bool
}

type metaMethod struct {
	Doc, Comment                 []string
	Name                         string
	Params, Results              []metaParam
	ReturnsError, AcceptsContext bool
}

// readMeta collects the @meta lines of a generated file.
func readMeta(src []byte) (map[string]metaMethod, error) {
	out := map[string]metaMethod{}
	for _, l := range strings.Split(string(src), "\n") {
		if j, ok := strings.CutPrefix(l, "// @meta "); ok {
			var m metaMethod
			if err := json.Unmarshal([]byte(j), &m); err != nil {
				return nil, err
			}
			out[m.Name] = m
		}
	}
	return out, nil
}

type g03Var struct{ name, typ string } // name "" means the list is anonymous

// grouped: neighbours of one type share it.
type g03Method struct {
	params, results []g03Var
	grouped         bool
}

func g03List(vs []g03Var) string { return g03Render(vs, false) }

func g03Render(vs []g03Var, grouped bool) string {
	var o []string
	for i, v := range vs {
		if grouped && i+1 < len(vs) && v.name != "" && vs[i+1].typ == v.typ {
			o = append(o, v.name)
			continue
		}
		o = append(o, strings.TrimSpace(v.name+" "+v.typ))
	}
	return "(" + strings.Join(o, ", ") + ")"
}

func (m g03Method) String() string {
	return g03Render(m.params, m.grouped) + " " + g03Render(m.results, m.grouped)
}

// valid: Go forbids a repeated name other than the blank.
func (m g03Method) valid() bool {
	seen := map[string]bool{}
	for _, v := range append(append([]g03Var{}, m.params...), m.results...) {
		if v.name != "" && v.name != "_" && seen[v.name] {
			return false
		}
		seen[v.name] = true
	}
	return true
}

// lists enumerates all lists of exactly n variables, named or not; last may be variadic.
func g03Lists(n int, names, typs []string, named, variadic bool) [][]g03Var {
	out := [][]g03Var{{}}
	for i := 0; i < n; i++ {
		var next [][]g03Var
		ns := []string{""}
		if named {
			ns = names
		}
		for _, l := range out {
			for _, nm := range ns {
				ts := typs
				if variadic && i == n-1 {
					ts = append(append([]string{}, typs...), "...string")
				}
			ty:
				for _, t := range ts {
					for _, v := range l {
						if nm != "" && nm != "_" && v.name == nm {
							continue ty
						}
					}
					next = append(next, append(append([]g03Var{}, l...), g03Var{nm, t}))
				}
			}
		}
		out = next
	}
	return out
}

func g03Compare(m g03Method, got metaMethod) string {
	if len(got.Params) != len(m.params) || len(got.Results) != len(m.results) {
		return "another number of parameters or results"
	}
	seen := map[string]bool{}
	var final []string
	for _, p := range append(append([]metaParam{}, got.Params...), got.Results...) {
		if !token.IsIdentifier(p.Name) || p.Name == "_" {
			return fmt.Sprintf("name %q is not usable", p.Name)
		}
		if seen[p.Name] {
			return fmt.Sprintf("name %q is used twice", p.Name)
		}
		seen[p.Name] = true
		final = append(final, p.Name)
	}
	isErr := len(m.results) > 0 && m.results[len(m.results)-1].typ == "error"
	isCtx := len(m.params) > 0 && (m.params[0].typ == "context.Context" || m.params[0].typ == "ext.Context")
	selFirst := len(m.params) > 0 && strings.Contains(m.params[0].typ, ".") && strings.Trim(m.params[0].typ, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") == "."
	if got.ReturnsError != isErr {
		return fmt.Sprintf("ReturnsError is %v", got.ReturnsError)
	}
	if got.AcceptsContext != isCtx {
		return fmt.Sprintf("AcceptsContext is %v", got.AcceptsContext)
	}
	if isErr && final[len(final)-1] != "err" {
		return "the trailing error is called " + final[len(final)-1]
	}
	if isCtx && final[0] != "ctx" {
		return "the leading context is called " + final[0]
	}
	for i, p := range got.Params {
		if p.Variadic != strings.HasPrefix(m.params[i].typ, "...") {
			return fmt.Sprintf("parameter %d: Variadic is %v", i, p.Variadic)
		}
	}
	if isCtx {
		// the name the context would have had without being renamed ctx is taken as well
		if n := m.params[0].name; n == "" || n == "_" || n == "ctx" || (n == "err" && len(m.results) > 0) {
			seen["c1"] = true
		}
	}
	for i, v := range append(append([]g03Var{}, m.params...), m.results...) {
		if v.name == "" || v.name == "_" || final[i] == v.name {
			continue
		}
		if (isErr && i == len(final)-1) || (isCtx && i == 0) {
			continue
		}
		reserved := (v.name == "err" && len(m.results) > 0) || (v.name == "ctx" && selFirst)
		if !seen[v.name] && !reserved {
			return fmt.Sprintf("%s is renamed %s although nothing else has that name", v.name, final[i])
		}
	}
	return ""
}

func init() {
	checks["G03"] = check{"model_checking", func(r *lib.Run) {
		m := r.NewMod("m", "scr", r.BuildGowrap())
		m.Exports(m.Dir, "context", "time")
		m.Write("dump.tmpl", lib.Dump)
		m.Write("ext/e.go", "package ext\n\ntype BuildContext struct{}\ntype Context struct{}\ntype ContextX int\ntype Ctx int\ntype Error int\ntype G[T any] struct{ V T }\n")
		names := []string{"a", "_", "err", "ctx", "s1", "s2", "c1", "e1"}
		few := []string{"_", "err", "ctx", "s1"}
		typs := []string{"string", "error", "context.Context", "time.Duration"}
		var params, results [][]g03Var
		for n := 0; n <= 3; n++ {
			params = append(params, g03Lists(n, nil, append(typs, "*Ünï", "[]String", "map[string]ünt"), false, true)...)
			if n < 3 {
				results = append(results, g03Lists(n, nil, append(typs, "ünt"), false, false)...)
			}
		}
		for n := 1; n <= 2; n++ {
			params = append(params, g03Lists(n, names, typs[:3], true, true)...)
			results = append(results, g03Lists(n, names, typs[:3], true, false)...)
		}
		// types that merely resemble a context or an error
		likeCtx := []string{"ext.BuildContext", "ext.Context", "ext.ContextX", "ext.Ctx", "*context.Context", "[]context.Context", "...context.Context", "Context", "func(context.Context)", "context.CancelFunc", "ext.G[context.Context]", "map[string]context.Context", "(context.Context)"}
		likeErr := []string{"*error", "[]error", "Error", "errorx", "func() error", "interface{ error }", "ext.Error", "map[string]error", "chan error", "ext.G[error]"}
		var likeP, likeR [][]g03Var
		for _, t := range likeCtx {
			for _, n := range []string{"", "a", "ctx", "_"} {
				likeP = append(likeP, []g03Var{{n, t}})
				if !strings.HasPrefix(t, "...") {
					n2 := map[string]string{"": "", "a": "ctx", "ctx": "a", "_": "_"}[n]
					likeP = append(likeP, []g03Var{{n, t}, {n2, "context.Context"}}, []g03Var{{n, t}, {n2, "string"}})
				}
				if n != "" {
					likeP = append(likeP, []g03Var{{"b", "int"}, {n, t}})
				}
			}
		}
		for _, t := range likeErr {
			for _, n := range []string{"", "a", "err", "_"} {
				likeR = append(likeR, []g03Var{{n, t}})
				n2 := map[string]string{"": "", "a": "err", "err": "a", "_": "_"}[n]
				likeR = append(likeR, []g03Var{{n, t}, {n2, "error"}}, []g03Var{{n2, "error"}, {n, t}})
			}
		}
		params = append(params, g03Lists(3, few, []string{"string", "context.Context"}, true, true)...)
		results = append(results, g03Lists(3, few, []string{"string", "error"}, true, false)...)
		pick := func(all [][]g03Var, sigs ...string) (out [][]g03Var) {
			for _, s := range sigs {
				n := len(out)
				for _, l := range all {
					if g03List(l) == s {
						out = append(out, l)
						break
					}
				}
				if len(out) == n {
					r.Fatal("no list %s", s)
				}
			}
			return
		}
		fewP := pick(params, "()", "(string)", "(context.Context)", "(context.Context, error)", "(time.Duration, string)", "(a string)", "(_ string)", "(err string)", "(ctx string)", "(s1 string)", "(ctx context.Context, err error)", "(a context.Context, ctx string)", "(_ context.Context, _ ...string)", "(e1 error)", "(string, string, ...string)", "(err context.Context, ctx error)")
		fewR := pick(results, "()", "(string)", "(error)", "(string, error)", "(error, string)", "(context.Context)", "(error, error)", "(a string)", "(err string)", "(ctx error)", "(_ string, _ error)", "(err string, a error)", "(s1 string)", "(ctx string, err error)", "(_ error, err string)", "(e1 error, s1 error)", "(s2 string, s1 error)")
		var ms []g03Method
		add := func(ps, rs [][]g03Var) {
			for _, p := range ps {
				for _, q := range rs {
					mm := g03Method{params: p, results: q}
					if !mm.valid() {
						continue
					}
					ms = append(ms, mm)
					if g := (g03Method{p, q, true}); g.String() != mm.String() {
						ms = append(ms, g)
					}
				}
			}
		}
		if r.Thorough() {
			add(params, append(fewR, g03Lists(1, names, typs, true, false)...))
			add(fewP, results)
			var p2, r2 [][]g03Var
			for _, l := range params {
				if len(l) <= 2 && (len(l) < 2 || l[0].typ != l[1].typ) {
					p2 = append(p2, l)
				}
			}
			for _, l := range results {
				if len(l) == 2 && l[0].name != "" || len(l) == 1 {
					r2 = append(r2, l)
				}
			}
			add(p2, r2)
		} else {
			add(params, fewR)
			add(fewP, results)
		}
		// types with dots in them that are not variadic
		var likeV [][]g03Var
		for _, t := range []string{"func(...string)", "[]func(...int) error", "map[string]func(int, ...string)", "struct{ F func(...int) }", "interface{ M(...int) }", "chan func(...int)", "*func(...int)", "ext.G[func(...int)]", "...func(...int)", "...ext.G[time.Duration]", "...error", "...context.Context"} {
			for _, n := range []string{"", "a", "_", "err"} {
				n2 := map[string]string{"": "", "a": "b", "_": "_", "err": "ctx"}[n]
				likeV = append(likeV, []g03Var{{n, t}}, []g03Var{{n2, "context.Context"}, {n, t}})
				if !strings.HasPrefix(t, "...") {
					likeV = append(likeV, []g03Var{{n, t}, {n2, t}}, []g03Var{{n, t}, {n2, "...string"}})
				}
			}
		}
		add(likeV, fewR)
		add(likeP, fewR)
		add(fewP, likeR)
		add(likeP, likeR)
		// long lists: of one type, of several, and with names that meet the generated ones late
		top := 24
		if r.Thorough() {
			top = 130
		}
		var longP, longR [][]g03Var
		for n := 4; n <= top; n++ {
			for k := 0; k < 6; k++ {
				var p, q []g03Var
				for i := 0; i < n; i++ {
					t, nm := "string", ""
					if k%2 == 1 {
						t = typs[(i*i+k)%len(typs)]
					}
					switch {
					case k == 2 || k == 3:
						nm = fmt.Sprintf("s%d", n-i)
						if i%3 == 0 {
							nm = "_"
						}
					case k == 4:
						nm = "_"
					case k == 5 && i%2 == 0:
						nm = fmt.Sprintf("e%d", i)
					case k == 5:
						nm = fmt.Sprintf("s%d", i*5)
					}
					p = append(p, g03Var{nm, t})
					if nm != "" && nm != "_" {
						nm = strings.ToUpper(nm[:1]) + nm[1:]
					}
					q = append(q, g03Var{nm, t})
				}
				longP, longR = append(longP, p), append(longR, q)
				if n%4 == 0 {
					v := append([]g03Var{}, p...)
					v[n-1].typ = "...string"
					longP = append(longP, v)
				}
			}
		}
		add(longP, pick(results, "()", "(error)", "(string, error)", "(_ string, _ error)", "(s1 string)", "(err string)"))
		add(pick(params, "()", "(context.Context)", "(string)", "(s1 string)", "(string, string, ...string)", "(_ string)"), longR)
		for i, p := range longP {
			if q := longR[(i*13+5)%len(longR)]; i%3 == 0 {
				add([][]g03Var{p}, [][]g03Var{q})
			}
		}
		const per = 1000
		n := (len(ms) + per - 1) / per
		lib.Parallel(n, func(b int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			batch := ms[b*per : min(len(ms), (b+1)*per)]
			var s strings.Builder
			s.WriteString("package src\n\nimport (\n\t\"context\"\n\t\"time\"\n\n\t\"scr/ext\"\n)\n\nvar _ context.Context\nvar _ time.Duration\nvar _ ext.Error\n\ntype Context interface{}\ntype Error int\ntype errorx int\n\ntype Ünï int\ntype ünt int\ntype String string\n\ntype Svc interface {\n")
			for i, x := range batch {
				fmt.Fprintf(&s, "\tM%d%s\n", i, x)
			}
			s.WriteString("}\n")
			dir := fmt.Sprintf("b%d", b)
			m.Write(dir+"/iface.go", s.String())
			res := m.Gen("-g", "-p", "./"+dir, "-i", "Svc", "-t", "dump.tmpl", "-o", dir+"/dec.go")
			if res.Code != 0 {
				r.Violate("generation failed", fmt.Sprintf("methods such as %s: %s", batch[0], res.Err), batch[0].String())
				return
			}
			u := m.NewUniverse()
			l := u.Load(dir)
			if l.Err != nil {
				r.Violate("unreadable", l.Err.Error(), batch[0].String())
				return
			}
			meta, err := readMeta(l.Src["dec.go"])
			if err != nil {
				r.Fatal("meta: %v", err)
			}
			it := l.Named("Svc").Underlying().(*types.Interface)
			if it.NumMethods() != len(batch) {
				r.Fatal("invalid batch: %s", l.FirstErr())
			}
			for i, x := range batch {
				got, ok := meta[fmt.Sprintf("M%d", i)]
				if !ok {
					r.Violate(x.String(), "not given to the template", x.String())
					continue
				}
				if d := g03Compare(x, got); d != "" {
					r.Violate(x.String(), fmt.Sprintf("method %s: %s; the template is told %s", x, d, lib.JSON(got)), map[string]any{"signature": x.String(), "told": got})
				}
			}
			if len(l.Errs) > 0 {
				r.Violate("compile", "the generated file does not compile: "+l.FirstErr()+" in "+u.FuncText(l, l.FuncAt(l.Errs[0].Pos)), l.FirstErr())
			}
			r.Count(len(batch), len(batch), 0)
			r.Validate(len(batch))
			r.Sample(batch[0].String())
		})
		r.Set("methods", len(ms))
		r.Set("bounds", fmt.Sprintf("%d parameter lists (up to 3; anonymous over 7 types, named over %d names x 3 types, and variadics) and %d result lists (up to 3), combined as all x %d and %d x all; lists of 4 to %d variables in 6 naming styles", len(params), len(names), len(results), len(fewR), len(fewP), top))
	}}
}
