// Package instr rewrites Go source onto the controlled runtime (vrt): every
// goroutine, channel operation, lock, atomic, timer and context becomes a
// visible operation, and accesses to shared memory are reported for race
// detection.
package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Options selects what is rewritten.
type Options struct {
	Context bool // package context -> vctx
	Races   bool // report accesses to shared variables
	// MapsOnly leaves everything but map iteration alone.
	MapsOnly bool
}

var vtimeNames = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true,
	"NewTimer": true, "NewTicker": true, "Tick": true, "Timer": true, "Ticker": true}

type rw struct {
	pkg   *packages.Package
	info  *types.Info
	fset  *token.FileSet
	opt   Options
	file  *ast.File
	funcs []ast.Node                // enclosing function stack
	owner map[types.Object]ast.Node // local variable -> declaring function
	capt  map[types.Object]bool
	used  map[string]bool // support packages needed
	errs  []string
	tmp   int
	named [][]types.Object // captured named results per enclosing function
}

// Package loads the package in dir and writes its instrumented form to out.
func Package(dir, out string, env []string, opt Options) error {
	return Packages(dir, []string{"."}, env, opt, func(*packages.Package) string { return out })
}

// Packages instruments every package matched by the patterns; place names the
// output directory of each.
func Packages(dir string, patterns []string, env []string, opt Options, place func(p *packages.Package) string) error {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedCompiledGoFiles | packages.NeedExportFile,
		Dir: dir, Env: env}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	if len(ps) == 0 {
		return fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return &CompileError{p.PkgPath, p.Errors[0].Error()}
		}
		if err := Loaded(p, place(p), opt); err != nil {
			return err
		}
	}
	return nil
}

// CompileError is a type error in the package to be instrumented.
type CompileError struct{ Pkg, Msg string }

func (e *CompileError) Error() string { return "does not compile: " + e.Msg }

// Loaded instruments an already loaded package.
func Loaded(p *packages.Package, out string, opt Options) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	var resets []string
	for i, f := range p.Syntax {
		r := &rw{pkg: p, info: p.TypesInfo, fset: p.Fset, opt: opt, file: f, used: map[string]bool{}, owner: map[types.Object]ast.Node{}, capt: map[types.Object]bool{}}
		name := filepath.Base(p.Fset.Position(f.Pos()).Filename)
		src, reset, err := r.run(i)
		if err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		if reset != "" {
			resets = append(resets, reset)
		}
		if err := os.WriteFile(filepath.Join(out, name), src, 0o644); err != nil {
			return err
		}
	}
	if !opt.MapsOnly {
		b := "package " + p.Name + "\n\n// VrtReset restores the package-level variables.\nfunc VrtReset() {\n"
		for _, r := range resets {
			b += "\t" + r + "()\n"
		}
		b += "}\n"
		return os.WriteFile(filepath.Join(out, "vrt_reset.go"), []byte(b), 0o644)
	}
	return nil
}

func (r *rw) bad(n ast.Node, f string, a ...any) {
	r.errs = append(r.errs, fmt.Sprintf("%s: unsupported: %s", r.fset.Position(n.Pos()), fmt.Sprintf(f, a...)))
}

func (r *rw) run(idx int) ([]byte, string, error) {
	r.captures()
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.funcDecl(d)
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				r.genDecl(d)
			}
		}
	}
	if len(r.errs) > 0 {
		return nil, "", fmt.Errorf("%s", strings.Join(r.errs, "; "))
	}
	reset := ""
	if !r.opt.MapsOnly {
		reset = r.resetFunc(idx)
	}
	r.imports()
	r.file.Comments = nil
	for _, d := range r.file.Decls {
		stripDoc(d)
	}
	r.file.Doc = nil
	var buf bytes.Buffer
	if err := format.Node(&buf, token.NewFileSet(), r.file); err != nil {
		return nil, "", err
	}
	return buf.Bytes(), reset, nil
}

func stripDoc(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

// resetFunc appends a function that reinitialises package-level variables.
func (r *rw) resetFunc(idx int) string {
	var stmts []ast.Stmt
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			blank := true
			var lhs []ast.Expr
			for _, n := range v.Names {
				if n.Name != "_" {
					blank = false
				}
				lhs = append(lhs, ast.NewIdent(n.Name))
			}
			if blank {
				continue
			}
			if len(v.Values) > 0 {
				stmts = append(stmts, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: v.Values})
			} else {
				for _, l := range lhs {
					z := ast.NewIdent("_vrtz")
					stmts = append(stmts, &ast.BlockStmt{List: []ast.Stmt{
						&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{z}, Type: v.Type}}}},
						&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{z}},
					}})
				}
			}
		}
	}
	if len(stmts) == 0 {
		return ""
	}
	name := fmt.Sprintf("vrtReset%d", idx)
	r.file.Decls = append(r.file.Decls, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: stmts}})
	return name
}

func (r *rw) imports() {
	var decls []ast.Decl
	spec := func(name, path string) ast.Spec {
		s := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
		if name != "" {
			s.Name = ast.NewIdent(name)
		}
		return s
	}
	g := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	keep := []ast.Decl{}
	for _, d := range r.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			keep = append(keep, d)
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if !r.opt.MapsOnly {
				def := func(n string) string {
					if name != "" {
						return name
					}
					return n
				}
				switch path {
				case "context":
					if r.opt.Context {
						g.Specs = append(g.Specs, spec(def("context"), "vrt/vctx"))
						continue
					}
				case "sync":
					g.Specs = append(g.Specs, spec(def("sync"), "vrt/vsync"))
					continue
				case "sync/atomic":
					g.Specs = append(g.Specs, spec(def("atomic"), "vrt/vatomic"))
					continue
				case "time":
					if name != "." && name != "_" {
						keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
							Type: &ast.SelectorExpr{X: ast.NewIdent(def("time")), Sel: ast.NewIdent("Duration")}}}})
					}
				case "runtime":
					if name != "." && name != "_" {
						keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
							Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(def("runtime")), Sel: ast.NewIdent("GC")}}}}})
					}
				}
			}
			g.Specs = append(g.Specs, spec(name, path))
		}
	}
	if r.used["vrt"] {
		g.Specs = append(g.Specs, spec("vrt_", "vrt"))
	}
	if r.used["vtime"] {
		g.Specs = append(g.Specs, spec("vtime_", "vrt/vtime"))
	}
	if len(g.Specs) > 0 {
		decls = append(decls, g)
	}
	r.file.Decls = append(decls, keep...)
}

// captures finds local variables used in a function literal other than the
// function that declares them.
func (r *rw) captures() {
	if !r.opt.Races || r.opt.MapsOnly {
		return
	}
	var stack []ast.Node
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncDecl:
				if m == n {
					return true
				}
			case *ast.FuncLit:
				if m == n {
					return true
				}
				stack = append(stack, m)
				visit(m)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o := r.info.Defs[m]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() && len(stack) > 0 {
						r.owner[o] = stack[len(stack)-1]
					}
				}
			}
			return true
		})
	}
	for pass := 0; pass < 2; pass++ {
		for _, d := range r.file.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if pass == 0 {
				stack = []ast.Node{f}
				visit(f)
				continue
			}
			var st []ast.Node
			var walk func(n ast.Node)
			walk = func(n ast.Node) {
				st = append(st, n)
				ast.Inspect(n, func(m ast.Node) bool {
					if fl, ok := m.(*ast.FuncLit); ok && m != n {
						walk(fl)
						return false
					}
					if id, ok := m.(*ast.Ident); ok {
						if o := r.info.Uses[id]; o != nil {
							if w, ok := r.owner[o]; ok && w != st[len(st)-1] {
								r.capt[o] = true
							}
						}
					}
					return true
				})
				st = st[:len(st)-1]
			}
			walk(f)
		}
	}
}

func (r *rw) funcDecl(d *ast.FuncDecl) {
	if d.Recv != nil {
		r.fields(d.Recv)
	}
	r.funcType(d.Type)
	if d.Body == nil {
		return
	}
	r.enter(d, d.Type)
	d.Body = r.block(d.Body)
	r.leave()
}

func (r *rw) enter(n ast.Node, t *ast.FuncType) {
	r.funcs = append(r.funcs, n)
	var nr []types.Object
	if t.Results != nil {
		for _, f := range t.Results.List {
			for _, id := range f.Names {
				if o := r.info.Defs[id]; o != nil && r.capt[o] {
					nr = append(nr, o)
				}
			}
		}
	}
	r.named = append(r.named, nr)
}
func (r *rw) leave() {
	r.funcs = r.funcs[:len(r.funcs)-1]
	r.named = r.named[:len(r.named)-1]
}

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Type = r.typ(s.Type)
			if len(s.Names) == 2 && len(s.Values) == 1 {
				s.Values[0] = r.commaOk(s.Values[0])
				continue
			}
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				r.fields(s.TypeParams)
			}
			if _, ok := s.Type.(*ast.ChanType); ok && !r.opt.MapsOnly && s.Assign == 0 {
				s.Assign = 1 // a defined channel type becomes an alias of the controlled one
			}
			s.Type = r.typ(s.Type)
		}
	}
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.typ(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rw) vrt(name string) ast.Expr {
	r.used["vrt"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vrt_"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func sel(x ast.Expr, name string) ast.Expr {
	return &ast.SelectorExpr{X: paren(x), Sel: ast.NewIdent(name)}
}
func paren(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.ParenExpr, *ast.IndexExpr:
		return x
	}
	return &ast.ParenExpr{X: x}
}

func (r *rw) typ(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

func (r *rw) isChan(e ast.Expr) bool {
	if r.opt.MapsOnly {
		return false
	}
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rw) where(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}
}

func isPkg(info *types.Info, e ast.Expr) (string, bool) {
	id, ok := e.(*ast.Ident)
	if !ok {
		return "", false
	}
	pn, ok := info.Uses[id].(*types.PkgName)
	if !ok {
		return "", false
	}
	return pn.Imported().Path(), true
}

// shared reports whether e denotes memory other threads may reach.
func (r *rw) shared(e ast.Expr) bool {
	if !r.opt.Races || r.opt.MapsOnly {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok || v.IsField() || e.Name == "_" {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
		return r.capt[v]
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil {
			_, ok := r.info.Uses[e.Sel].(*types.Var)
			return ok // package-level variable of another package
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		if _, ok := s.Recv().Underlying().(*types.Pointer); ok {
			return true
		}
		return r.shared(e.X) // field of a struct variable
	case *ast.StarExpr:
		tv := r.info.Types[e]
		return tv.IsValue()
	case *ast.IndexExpr:
		tv, ok := r.info.Types[e.X]
		if !ok || !tv.IsValue() {
			return false
		}
		switch u := tv.Type.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return r.shared(e.X)
		}
	}
	return false
}

// place rewrites e as a storage location without recording an access to it.
func (r *rw) place(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.place(x.X)}
	case *ast.Ident:
		return r.ident(x)
	case *ast.SelectorExpr:
		if _, ok := isPkg(r.info, x.X); ok {
			return r.selPkg(x)
		}
		s := r.info.Selections[x]
		if s == nil {
			return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: paren(r.base(x.X, s.Recv())), Sel: x.Sel}
	case *ast.IndexExpr:
		tv := r.info.Types[x.X]
		if tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Array); ok {
				return &ast.IndexExpr{X: paren(r.place(x.X)), Index: r.expr(x.Index)}
			}
		}
		return &ast.IndexExpr{X: paren(r.expr(x.X)), Index: r.expr(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(x.X)}
	case *ast.CompositeLit:
		return r.expr(x)
	}
	return r.expr(e)
}

// base rewrites the operand of a field selection.
func (r *rw) base(e ast.Expr, recv types.Type) ast.Expr {
	if _, ok := recv.Underlying().(*types.Pointer); ok {
		return r.expr(e)
	}
	return r.place(e)
}

func (r *rw) ident(x *ast.Ident) ast.Expr {
	if o := r.info.Uses[x]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "time" && o.Parent() == o.Pkg().Scope() && vtimeNames[x.Name] && !r.opt.MapsOnly {
		r.used["vtime"] = true
		return &ast.SelectorExpr{X: ast.NewIdent("vtime_"), Sel: ast.NewIdent(x.Name)}
	}
	return x
}

func (r *rw) selPkg(x *ast.SelectorExpr) ast.Expr {
	p, _ := isPkg(r.info, x.X)
	if r.opt.MapsOnly {
		return x
	}
	if p == "time" && vtimeNames[x.Sel.Name] {
		r.used["vtime"] = true
		return &ast.SelectorExpr{X: ast.NewIdent("vtime_"), Sel: x.Sel}
	}
	if p == "runtime" && x.Sel.Name == "Gosched" {
		return r.vrt("Gosched")
	}
	return x
}

func (r *rw) read(orig, place ast.Expr) ast.Expr {
	if !r.shared(orig) || !addressable(r.info, orig) {
		return place
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vrt("R"), &ast.UnaryExpr{Op: token.AND, X: place}, r.where(orig))}}
}

func addressable(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.Addressable()
}

func (r *rw) lhs(e ast.Expr) ast.Expr {
	if id, ok := e.(*ast.Ident); ok && (id.Name == "_" || r.info.Defs[id] != nil) {
		return e
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		if tv := r.info.Types[ix.X]; tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Map); ok {
				m := r.expr(ix.X)
				if r.opt.Races && !r.opt.MapsOnly {
					m = call(r.vrt("MW"), m, r.where(e))
				}
				return &ast.IndexExpr{X: paren(m), Index: r.expr(ix.Index)}
			}
		}
	}
	p := r.place(e)
	if !r.shared(e) || !addressable(r.info, e) {
		return p
	}
	return &ast.StarExpr{X: call(r.vrt("W"), &ast.UnaryExpr{Op: token.AND, X: p}, r.where(e))}
}

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	for i := range l {
		l[i] = r.expr(l[i])
	}
	return l
}

// commaOk rewrites the right side of a two-value form.
func (r *rw) commaOk(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.commaOk(p.X)
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW && !r.opt.MapsOnly {
		return call(sel(r.expr(u.X), "Recv2"))
	}
	return r.expr(e)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		if _, ok := r.info.Uses[x].(*types.Var); ok {
			return r.read(x, r.ident(x))
		}
		return r.ident(x)
	case *ast.BasicLit:
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.enter(x, x.Type)
		x.Body = r.block(x.Body)
		r.leave()
		return x
	case *ast.CompositeLit:
		isStruct := false
		if tv, ok := r.info.Types[x]; ok && tv.Type != nil {
			t := tv.Type.Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			_, isStruct = t.(*types.Struct)
		}
		x.Type = r.typ(x.Type)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			x.Elts[i] = r.expr(el)
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if _, ok := isPkg(r.info, x.X); ok {
			return r.read(x, r.selPkg(x))
		}
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		if s.Kind() == types.FieldVal {
			return r.read(x, r.place(x))
		}
		if s.Kind() == types.MethodVal {
			// a pointer method on an addressable value only takes its address
			fn := s.Obj().(*types.Func)
			rt := fn.Type().(*types.Signature).Recv()
			if rt != nil {
				_, ptr := rt.Type().(*types.Pointer)
				_, recvPtr := s.Recv().Underlying().(*types.Pointer)
				if ptr && !recvPtr {
					x.X = paren(r.place(x.X))
					return x
				}
			}
		}
		x.X = paren(r.expr(x.X))
		return x
	case *ast.IndexExpr:
		tv := r.info.Types[x.X]
		if tv.IsValue() && tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Map); ok {
				m := r.expr(x.X)
				if r.opt.Races && !r.opt.MapsOnly {
					m = call(r.vrt("MR"), m, r.where(x))
				}
				x.X, x.Index = paren(m), r.expr(x.Index)
				return x
			}
			return r.read(x, r.place(x))
		}
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		tv := r.info.Types[x.X]
		if tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Array); ok {
				x.X = paren(r.place(x.X))
			} else {
				x.X = paren(r.expr(x.X))
			}
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X, x.Type = paren(r.expr(x.X)), r.typ(x.Type)
		return x
	case *ast.CallExpr:
		return r.call(x)
	case *ast.StarExpr:
		if tv := r.info.Types[x]; tv.IsValue() {
			return r.read(x, r.place(x))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !r.opt.MapsOnly {
			return call(sel(r.expr(x.X), "Recv"))
		}
		if x.Op == token.AND {
			x.X = r.place(x.X)
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.ArrayType:
		x.Len, x.Elt = r.expr(x.Len), r.typ(x.Elt)
		return x
	case *ast.StructType:
		r.fields(x.Fields)
		return x
	case *ast.FuncType:
		r.funcType(x)
		return x
	case *ast.InterfaceType:
		r.fields(x.Methods)
		return x
	case *ast.MapType:
		x.Key, x.Value = r.typ(x.Key), r.typ(x.Value)
		return x
	case *ast.ChanType:
		if r.opt.MapsOnly {
			x.Value = r.typ(x.Value)
			return x
		}
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.vrt("Chan"), Index: r.typ(x.Value)}}
	}
	r.bad(e, "%T", e)
	return e
}

func (r *rw) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if id, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	switch b := r.builtin(x.Fun); b {
	case "make":
		if r.isChan(x.Args[0]) {
			var el ast.Expr
			switch t := x.Args[0].(type) {
			case *ast.ChanType:
				el = r.typ(t.Value)
			default:
				// a named channel type: infer the element from its controlled alias
				a := []ast.Expr{call(r.vrt("ElemOf"), &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{r.typ(t)}})}
				for _, y := range x.Args[1:] {
					a = append(a, call(ast.NewIdent("int"), r.expr(y)))
				}
				return call(r.vrt("MakeLike"), a...)
			}
			c := call(&ast.IndexExpr{X: r.vrt("MakeChan"), Index: el})
			for _, y := range x.Args[1:] {
				c.Args = append(c.Args, call(ast.NewIdent("int"), r.expr(y)))
			}
			return c
		}
	case "close":
		if r.isChan(x.Args[0]) {
			return call(sel(r.expr(x.Args[0]), "Close"))
		}
	case "len", "cap":
		if r.isChan(x.Args[0]) {
			n := "Len"
			if b == "cap" {
				n = "Cap"
			}
			return call(sel(r.expr(x.Args[0]), n))
		}
	case "delete":
		if r.opt.Races && !r.opt.MapsOnly {
			x.Args[0] = call(r.vrt("MW"), r.expr(x.Args[0]), r.where(x))
			x.Args[1] = r.expr(x.Args[1])
			return x
		}
	case "new":
		x.Args[0] = r.typ(x.Args[0])
		return x
	}
	x.Fun = r.expr(x.Fun)
	if p, ok := x.Fun.(*ast.StarExpr); ok {
		x.Fun = &ast.ParenExpr{X: p}
	}
	r.exprs(x.Args)
	return x
}

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("_vrt%s%d", p, r.tmp))
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return x
	case *ast.DeclStmt:
		r.genDecl(x.Decl.(*ast.GenDecl))
		return x
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
		return x
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return x
	case *ast.SendStmt:
		if r.opt.MapsOnly {
			x.Chan, x.Value = r.expr(x.Chan), r.expr(x.Value)
			return x
		}
		return &ast.ExprStmt{X: call(sel(r.expr(x.Chan), "Send"), r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.lhs(x.X)
		if _, ok := x.X.(*ast.StarExpr); ok {
			x.X = &ast.ParenExpr{X: x.X}
		}
		return x
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.commaOk(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
		if x.Tok == token.DEFINE {
			// redeclared captured variables are plain writes the shadow does not see; acceptable
			return x
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.lhs(x.Lhs[i])
		}
		return x
	case *ast.GoStmt:
		if r.opt.MapsOnly {
			x.Call = r.call(x.Call).(*ast.CallExpr)
			return x
		}
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.call(x.Call)
		if p, ok := c.(*ast.CallExpr); ok {
			x.Call = p
		} else {
			r.bad(x, "deferred %T", c)
		}
		return x
	case *ast.ReturnStmt:
		x.Results = r.exprs(x.Results)
		nr := r.named[len(r.named)-1]
		if len(nr) == 0 {
			return x
		}
		b := &ast.BlockStmt{}
		for _, o := range nr {
			n := "R"
			if len(x.Results) > 0 {
				n = "W"
			}
			b.List = append(b.List, &ast.ExprStmt{X: call(r.vrt(n), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(o.Name())}, r.where(x))})
		}
		b.List = append(b.List, x)
		return b
	case *ast.BlockStmt:
		return r.block(x)
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Body = r.block(x.Body)
		x.Else = r.stmt(x.Else)
		return x
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Tag = r.expr(x.Tag)
		x.Body = r.block(x.Body)
		return x
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = paren(r.expr(ta.X))
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = paren(r.expr(ta.X))
		}
		x.Body = r.block(x.Body)
		return x
	case *ast.SelectStmt:
		if r.opt.MapsOnly {
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				cc.Body = r.stmts(cc.Body)
			}
			return x
		}
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post)
		x.Body = r.block(x.Body)
		return x
	case *ast.RangeStmt:
		tv := r.info.Types[x.X]
		ch := r.isChan(x.X)
		isMap := false
		if tv.Type != nil {
			_, isMap = tv.Type.Underlying().(*types.Map)
		}
		x.X = r.expr(x.X)
		switch {
		case ch:
			x.X = call(sel(x.X, "All"))
			if x.Key == nil {
				x.Key, x.Tok = ast.NewIdent("_"), token.ASSIGN
			}
		case isMap:
			if r.opt.Races && !r.opt.MapsOnly {
				x.X = call(r.vrt("MR"), x.X, r.where(s))
			}
			x.X = call(r.vrt("MapRange"), x.X)
			if x.Key == nil {
				x.Key, x.Tok = ast.NewIdent("_"), token.ASSIGN
			}
		}
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				x.Key = r.lhs(x.Key)
			}
			if x.Value != nil {
				x.Value = r.lhs(x.Value)
			}
		}
		x.Body = r.block(x.Body)
		return x
	}
	r.bad(s, "%T", s)
	return s
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	pos := r.fset.Position(x.Pos())
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("go@%s:%d", filepath.Base(pos.Filename), pos.Line))}
	lit, isLit := x.Call.Fun.(*ast.FuncLit)
	if isLit && len(x.Call.Args) == 0 {
		f := r.expr(lit).(*ast.FuncLit)
		if f.Type.Results == nil || len(f.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(r.vrt("GoNamed"), name, f)}
		}
		return &ast.ExprStmt{X: call(r.vrt("GoNamed"), name, wrap(call(f)))}
	}
	b := &ast.BlockStmt{}
	var fun ast.Expr
	args := append([]ast.Expr(nil), x.Call.Args...)
	isBuiltin := r.builtin(x.Call.Fun) != ""
	// operands are evaluated by the go statement itself
	consts := make([]bool, len(args))
	for i, a := range args {
		tv := r.info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil() || tv.IsType()
	}
	ce := r.call(x.Call)
	c, ok := ce.(*ast.CallExpr)
	if !ok {
		r.bad(x, "go %T", ce)
		return x
	}
	if isBuiltin {
		return &ast.ExprStmt{X: call(r.vrt("GoNamed"), name, wrap(c))}
	}
	fun = c.Fun
	if !isLit {
		id := r.fresh("f")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = id
	}
	na := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if i < len(consts) && consts[i] {
			na[i] = a
			continue
		}
		id := r.fresh("a")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		na[i] = id
	}
	b.List = append(b.List, &ast.ExprStmt{X: call(r.vrt("GoNamed"), name, wrap(&ast.CallExpr{Fun: fun, Args: na, Ellipsis: c.Ellipsis}))})
	return b
}

func wrap(c ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var init ast.AssignStmt
	init.Tok = token.DEFINE
	selCall := call(r.vrt("Select"))
	hasDef := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = true
			clause.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, clause)
			continue
		}
		id := r.fresh("c")
		idx := len(init.Lhs)
		clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		var pre []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u := e.(*ast.UnaryExpr)
			return call(sel(r.expr(u.X), "RecvCase"))
		}
		var rhs ast.Expr
		switch k := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = call(sel(r.expr(k.Chan), "SendCase"), r.expr(k.Value))
		case *ast.ExprStmt:
			rhs = recv(k.X)
		case *ast.AssignStmt:
			rhs = recv(k.Rhs[0])
			a := &ast.AssignStmt{Tok: k.Tok}
			for i, l := range k.Lhs {
				if k.Tok == token.ASSIGN {
					l = r.lhs(l)
				}
				a.Lhs = append(a.Lhs, l)
				f := "Val"
				if i == 1 {
					f = "Ok"
				}
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(f)})
			}
			pre = append(pre, a)
		}
		init.Lhs = append(init.Lhs, id)
		init.Rhs = append(init.Rhs, rhs)
		selCall.Args = append(selCall.Args, ast.NewIdent(id.Name))
		clause.Body = append(pre, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	d := "false"
	if hasDef {
		d = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vrt: unreachable"`})}}})
	}
	selCall.Args = append([]ast.Expr{ast.NewIdent(d)}, selCall.Args...)
	if len(init.Lhs) > 0 {
		sw.Init = &init
	}
	sw.Tag = selCall
	return sw
}
