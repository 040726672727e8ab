package lib

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"verifmc/instr"
)

// Shape is one method of the interface the decorators are generated from.
type Shape struct {
	Name    string
	Ctx     string   // name of a leading context parameter, "_" for anonymous, "" for none
	Params  []string // types; a leading "..." makes the last one variadic
	Results []string // types, without the error
	Err     string   // name of a trailing error result, "_" for anonymous, "" for none
	PNames  []string // empty: anonymous
	RNames  []string
	Doc     string
}

// Decl renders the method as it is written in the interface.
func (s Shape) Decl() string {
	var ps, rs []string
	name := func(n, t string, list []string) string {
		if len(list) == 0 {
			return t
		}
		return n + " " + t
	}
	anonP := len(s.PNames) == 0
	if s.Ctx != "" {
		if anonP && len(s.Params) > 0 || s.Ctx == "_" && len(s.Params) == 0 {
			ps = append(ps, "context.Context")
		} else {
			ps = append(ps, s.Ctx+" context.Context")
		}
	}
	for i, t := range s.Params {
		n := ""
		if !anonP {
			n = s.PNames[i]
		}
		ps = append(ps, name(n, t, s.PNames))
	}
	for i, t := range s.Results {
		n := ""
		if len(s.RNames) > 0 {
			n = s.RNames[i]
		}
		rs = append(rs, name(n, t, s.RNames))
	}
	if s.Err != "" {
		if len(s.RNames) == 0 && len(s.Results) > 0 || s.Err == "_" {
			rs = append(rs, "error")
		} else {
			rs = append(rs, s.Err+" error")
		}
	}
	out := s.Name + "(" + strings.Join(ps, ", ") + ")"
	if len(rs) > 0 {
		out += " (" + strings.Join(rs, ", ") + ")"
	}
	return out
}

// Variadic reports whether the last parameter is.
func (s Shape) Variadic() bool {
	return len(s.Params) > 0 && strings.HasPrefix(s.Params[len(s.Params)-1], "...")
}

// Interface renders the declaring file.
func Interface(pkg, name string, shapes []Shape) string {
	var b strings.Builder
	ctx, ty := false, false
	for _, s := range shapes {
		ctx = ctx || s.Ctx != ""
		ty = ty || strings.Contains(s.Decl(), "ty.")
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n", pkg)
	if ctx {
		b.WriteString("\t\"context\"\n")
	}
	if ty {
		b.WriteString("\t\"scr/ty\"\n")
	}
	fmt.Fprintf(&b, ")\n\n// %s is decorated.\ntype %s interface {\n", name, name)
	for _, s := range shapes {
		if s.Doc != "" {
			fmt.Fprintf(&b, "\t// %s\n", s.Doc)
		}
		fmt.Fprintf(&b, "\t%s\n", s.Decl())
	}
	fmt.Fprintf(&b, "}\n\n// UserStore is the same under another name.\ntype UserStore interface{ %s }\n", name)
	return b.String()
}

// Decor is one generated decorator.
type Decor struct {
	Template string
	Vars     []string // -v values
	ID       string   // package directory; default Template
	Ctor     string   // Go expression of type func(svc.Svc) svc.Svc; P is the generated package, T the interface there
	Iface    string   // interface name, default Svc (the other one declared is UserStore)
	Modes    []string // default: those of the spec
	Doc      string   // free text passed to the harness
}

func (d Decor) id() string {
	if d.ID != "" {
		return d.ID
	}
	return d.Template
}

func (d Decor) modes(def []string) []string {
	if len(d.Modes) > 0 {
		return d.Modes
	}
	return def
}

func (d Decor) iface() string {
	if d.Iface != "" {
		return d.Iface
	}
	return "Svc"
}

// baseSource renders the scripted implementation and the static call table.
func baseSource(decs []Decor, defModes []string, shapes []Shape, ctxImport string, imports []string) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"scr/svc\"\n\t\"scr/ty\"\n")
	for _, d := range decs {
		for _, m := range d.modes(defModes) {
			fmt.Fprintf(&b, "\t%s_%s \"scr/%s/%s\"\n", m, d.id(), m, d.id())
		}
	}
	for _, i := range imports {
		b.WriteString("\t" + i + "\n")
	}
	b.WriteString("\tctxpkg " + fmt.Sprintf("%q", ctxImport) + "\n)\n\ntype Ctx = ctxpkg.Context\n\nvar _ ty.T\n\n")
	b.WriteString("type Base struct{ do func(i int, ctx Ctx, args []any) []any }\n\n")
	for i, s := range shapes {
		var ps, as []string
		c := "nil"
		if s.Ctx != "" {
			ps = append(ps, "ctx Ctx")
			c = "ctx"
		}
		for k, t := range s.Params {
			ps = append(ps, fmt.Sprintf("p%d %s", k, t))
			as = append(as, fmt.Sprintf("p%d", k))
		}
		rts := append([]string{}, s.Results...)
		if s.Err != "" {
			rts = append(rts, "error")
		}
		fmt.Fprintf(&b, "func (b *Base) %s(%s) (%s) {\n", s.Name, strings.Join(ps, ", "), strings.Join(rts, ", "))
		var rs []string
		for k, t := range rts {
			rs = append(rs, fmt.Sprintf("as[%s](r[%d])", t, k))
		}
		lhs := "r := "
		if len(rts) == 0 {
			lhs = ""
		}
		fmt.Fprintf(&b, "\t%sb.do(%d, %s, []any{%s})\n\treturn %s\n}\n\n", lhs, i, c, strings.Join(as, ", "), strings.Join(rs, ", "))
	}
	b.WriteString("var shapes = []Shape{\n")
	q := func(l []string) string {
		var o []string
		for _, x := range l {
			o = append(o, fmt.Sprintf("%q", x))
		}
		return "[]string{" + strings.Join(o, ", ") + "}"
	}
	for _, s := range shapes {
		var as []string
		if s.Ctx != "" {
			as = append(as, "ctx")
		}
		for k, t := range s.Params {
			if strings.HasPrefix(t, "...") {
				as = append(as, fmt.Sprintf("as[[]%s](a[%d])...", t[3:], k))
			} else {
				as = append(as, fmt.Sprintf("as[%s](a[%d])", t, k))
			}
		}
		rts := append([]string{}, s.Results...)
		if s.Err != "" {
			rts = append(rts, "error")
		}
		var rs []string
		for k := range rts {
			rs = append(rs, fmt.Sprintf("r%d", k))
		}
		lhs := ""
		if len(rs) > 0 {
			lhs = strings.Join(rs, ", ") + " := "
		}
		fmt.Fprintf(&b, "\t{Name: %q, Ctx: %v, Err: %v, Variadic: %v, Params: %s, Results: %s, PNames: %s, Call: func(s svc.Svc, ctx Ctx, a []any) []any {\n\t\t%ss.%s(%s)\n\t\treturn []any{%s}\n\t}},\n",
			s.Name, s.Ctx != "", s.Err != "", s.Variadic(), q(s.Params), q(s.Results), q(s.PNames), lhs, s.Name, strings.Join(as, ", "), strings.Join(rs, ", "))
	}
	b.WriteString("}\n\nvar decs = []Dec{\n")
	for _, d := range decs {
		for _, m := range d.modes(defModes) {
			p := m + "_" + d.id()
			t := p
			if m == "cross" {
				t = "svc"
			}
			ctor := strings.ReplaceAll(strings.ReplaceAll(d.Ctor, "P.", p+"."), "T.", t+".")
			fmt.Fprintf(&b, "\t{ID: %q, Template: %q, Mode: %q, Doc: %q, Reset: %s.VrtReset, New: %s},\n", d.id(), d.Template, m, d.Doc, p, ctor)
		}
	}
	b.WriteString("}\n")
	return b.String()
}

// DecorSpec describes one program built from generated decorators.
type DecorSpec struct {
	Decs    []Decor
	Modes   []string // "cross", "same"
	Shapes  []Shape
	Model   bool // contexts on the controlled runtime
	Dir     string
	Imports []string // extra imports of the generated main file
	Extra   []string // further harness directories
	TyExtra string   // extra declarations in package ty
}

const tySource = `// Package ty holds the types the interface mentions.
package ty

// T is passed by pointer.
type T struct{ ID int }
`

// decorModule writes the module file of a scratch module.
func (r *Run) decorModule(dir string) {
	m := filepath.Join(r.Verif, "harness", "decor", "mod")
	gm, err := os.ReadFile(filepath.Join(m, "go.mod.in"))
	if err != nil {
		r.Fatal("%v", err)
	}
	gs, err := os.ReadFile(filepath.Join(m, "go.sum.in"))
	if err != nil {
		r.Fatal("%v", err)
	}
	Write(filepath.Join(dir, "go.mod"), strings.ReplaceAll(string(gm), "VERIF", r.Verif))
	Write(filepath.Join(dir, "go.sum"), string(gs))
}

// BuildDecor generates every decorator, instruments it and builds the
// harness; "" means a violation has been recorded.
func (r *Run) BuildDecor(sp DecorSpec) string {
	gw := r.BuildGowrap()
	src := filepath.Join(r.Tmp, "src-"+cname(sp))
	out := filepath.Join(r.Tmp, "bld-"+cname(sp))
	r.decorModule(src)
	r.decorModule(out)
	Write(filepath.Join(src, "ty", "ty.go"), tySource+sp.TyExtra)
	Write(filepath.Join(out, "ty", "ty.go"), tySource+sp.TyExtra)
	Write(filepath.Join(src, "svc", "iface.go"), Interface("svc", "Svc", sp.Shapes))
	type job struct {
		d    Decor
		mode string
	}
	var jobs []job
	for _, d := range sp.Decs {
		for _, m := range d.modes(sp.Modes) {
			if m == "same" {
				Write(filepath.Join(src, "same", d.id(), "iface.go"), Interface("svc", "Svc", sp.Shapes))
			}
			jobs = append(jobs, job{d, m})
		}
	}
	bad := false
	Parallel(len(jobs), func(i int) {
		j := jobs[i]
		dir := j.mode + "/" + j.d.id()
		p := "./svc"
		if j.mode == "same" {
			p = "./" + dir
		}
		args := []string{"gen", "-g", "-p", p, "-i", j.d.iface(), "-t", filepath.Join(r.Repo, "templates", j.d.Template), "-o", dir + "/dec.go"}
		for _, v := range j.d.Vars {
			args = append(args, "-v", strings.ReplaceAll(v, "{mode}", j.mode))
		}
		res := Cmd(src, nil, "", 2*time.Minute, gw, args...)
		if res.Code != 0 {
			r.Violate("gen "+dir, fmt.Sprintf("gowrap %s failed: %s", strings.Join(args, " "), res.Err), map[string]any{"args": args})
			bad = true
		}
	})
	if bad {
		return ""
	}
	pats := []string{"./svc"}
	for _, j := range jobs {
		pats = append(pats, "./"+j.mode+"/"+j.d.id())
	}
	err := instr.Packages(src, pats, nil, instr.Options{Context: sp.Model, Races: true}, func(p *packages.Package) string {
		return filepath.Join(out, strings.TrimPrefix(p.PkgPath, "scr/"))
	})
	var ce *instr.CompileError
	if errors.As(err, &ce) {
		gen, _ := os.ReadFile(filepath.Join(src, strings.TrimPrefix(ce.Pkg, "scr/"), "dec.go"))
		r.Violate("compile "+strings.TrimPrefix(ce.Pkg, "scr/"), "the generated decorator "+ce.Error(), map[string]any{"generated": string(gen)})
		return ""
	}
	if err != nil {
		r.Fatal("instrument: %v", err)
	}
	ctxImport := "context"
	if sp.Model {
		ctxImport = "vrt/vctx"
	}
	Write(filepath.Join(out, "gen_base.go"), baseSource(sp.Decs, sp.Modes, sp.Shapes, ctxImport, sp.Imports))
	cd := "ctxreal"
	if sp.Model {
		cd = "ctxmodel"
	}
	for _, d := range append([]string{"core", cd, sp.Dir}, sp.Extra...) {
		fs, err := filepath.Glob(filepath.Join(r.Verif, "harness", "decor", d, "*.go"))
		if err != nil || len(fs) == 0 {
			r.Fatal("no harness %s", d)
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				r.Fatal("%v", err)
			}
			Write(filepath.Join(out, d+"_"+filepath.Base(f)), string(b))
		}
	}
	bin := filepath.Join(r.Tmp, "harness-"+cname(sp))
	b := Cmd(out, nil, "", 10*time.Minute, "go", "build", "-o", bin, ".")
	if b.Code != 0 {
		r.Violate("api "+sp.Dir, "a decorator does not implement the interface or no longer offers the documented constructor: "+b.Out+b.Err, nil)
		return ""
	}
	return bin
}

func cname(sp DecorSpec) string {
	if sp.Model {
		return sp.Dir + "m"
	}
	return sp.Dir
}

// RunDecor builds and explores.
func (r *Run) RunDecor(sp DecorSpec) {
	bin := r.BuildDecor(sp)
	if bin == "" {
		return
	}
	for _, d := range sp.Decs {
		r.Add("generated_decorators", len(d.modes(sp.Modes)))
	}
	r.Set("interface_methods", len(sp.Shapes))
	r.explore(bin, cname(sp))
}
