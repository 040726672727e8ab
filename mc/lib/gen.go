package lib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Mod is a scratch module that source packages are written to and decorators
// are generated into by the real command.
type Mod struct {
	R    *Run
	Dir  string
	Name string
	GW   string // the gowrap binary
	mu   sync.Mutex
	exp  map[string]string // export data files by import path
}

// NewMod makes a module of the given name without dependencies.
func (r *Run) NewMod(dir, name, gw string) *Mod {
	m := &Mod{R: r, Dir: filepath.Join(r.Tmp, dir), Name: name, GW: gw}
	Write(filepath.Join(m.Dir, "go.mod"), "module "+name+"\n\ngo 1.24\n")
	return m
}

// Write writes a file of the module.
func (m *Mod) Write(path, content string) { Write(filepath.Join(m.Dir, path), content) }

// Gen runs gowrap gen in the module's root.
func (m *Mod) Gen(args ...string) CmdResult {
	m.R.Add("generator_runs", 1)
	return Cmd(m.Dir, nil, "", 2*time.Minute, m.GW, append([]string{"gen"}, args...)...)
}

// Exports lists the export data of packages (and what they import); dir is where go list runs.
func (m *Mod) Exports(dir string, pats ...string) {
	out := m.R.Must(dir, "go", append([]string{"list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}"}, pats...)...)
	if m.exp == nil {
		m.exp = map[string]string{}
	}
	for _, l := range strings.Split(out, "\n") {
		if p, f, ok := strings.Cut(l, "="); ok {
			m.exp[p] = f
		}
	}
}

// Loaded is a type-checked package.
type Loaded struct {
	Pkg   *types.Package
	Files []*ast.File
	Names []string
	Info  *types.Info
	Errs  []types.Error
	Err   error // reading or parsing failed
	Src   map[string][]byte
}

// FirstErr describes the first problem.
func (l *Loaded) FirstErr() string {
	if l.Err != nil {
		return l.Err.Error()
	}
	if len(l.Errs) > 0 {
		return l.Errs[0].Msg
	}
	return ""
}

// Universe type-checks the packages of a module from source and takes all
// others from export data, so that type identity is Go's own.
type Universe struct {
	m    *Mod
	Fset *token.FileSet
	pk   map[string]*Loaded
	std  types.Importer
}

// NewUniverse makes an empty one; it is for one goroutine.
func (m *Mod) NewUniverse() *Universe {
	u := &Universe{m: m, Fset: token.NewFileSet(), pk: map[string]*Loaded{}}
	u.std = importer.ForCompiler(u.Fset, "gc", func(path string) (io.ReadCloser, error) {
		m.mu.Lock()
		f, ok := m.exp[path]
		m.mu.Unlock()
		if !ok {
			return nil, fmt.Errorf("package %s is not among the dependencies", path)
		}
		return os.Open(f)
	})
	return u
}

// Import implements types.Importer.
func (u *Universe) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == u.m.Name || strings.HasPrefix(path, u.m.Name+"/") {
		l := u.Load(strings.TrimPrefix(strings.TrimPrefix(path, u.m.Name), "/"))
		if l.Pkg == nil {
			return nil, fmt.Errorf("cannot load %s: %v", path, l.Err)
		}
		return l.Pkg, nil
	}
	return u.std.Import(path)
}

// Load type-checks the package in a directory of the module.
func (u *Universe) Load(rel string) *Loaded {
	if l, ok := u.pk[rel]; ok {
		return l
	}
	l := &Loaded{Src: map[string][]byte{}}
	u.pk[rel] = l
	dir := filepath.Join(u.m.Dir, rel)
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		l.Err = err
		return l
	}
	sort.Strings(bp.GoFiles)
	for _, f := range bp.GoFiles {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			l.Err = err
			return l
		}
		af, err := parser.ParseFile(u.Fset, filepath.Join(dir, f), b, parser.ParseComments)
		if err != nil {
			l.Err = err
			return l
		}
		l.Files = append(l.Files, af)
		l.Names = append(l.Names, f)
		l.Src[f] = b
	}
	l.Info = &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	c := types.Config{Importer: u, GoVersion: "go1.24", Error: func(err error) {
		if te, ok := err.(types.Error); ok {
			l.Errs = append(l.Errs, te)
		} else {
			l.Err = err
		}
	}}
	path := u.m.Name
	if rel != "" && rel != "." {
		path += "/" + filepath.ToSlash(rel)
	}
	l.Pkg, _ = c.Check(path, u.Fset, l.Files, l.Info)
	return l
}

// Named finds a defined type.
func (l *Loaded) Named(name string) *types.Named {
	if l.Pkg == nil {
		return nil
	}
	o := l.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// FuncAt names the function declaration that contains a position, or "".
func (l *Loaded) FuncAt(pos token.Pos) string {
	for _, f := range l.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= pos && pos <= fd.End() {
				return fd.Name.Name
			}
		}
	}
	return ""
}

// Lines gives the source text of a function.
func (u *Universe) FuncText(l *Loaded, name string) string {
	for i, f := range l.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name && fd.Recv != nil {
				b := l.Src[l.Names[i]]
				s, e := u.Fset.Position(fd.Pos()).Offset, u.Fset.Position(fd.End()).Offset
				if i := bytes.IndexByte(b[s:e], '{'); i > 0 {
					return string(bytes.TrimSpace(b[s:e]))
				}
			}
		}
	}
	return ""
}

// Dump is a template that delegates every method and writes down, as JSON in a
// comment, everything it was told about each.
const Dump = `
type Dec{{.Interface.Generics.Types}} struct{ b {{.Interface.Type}}{{.Interface.Generics.Params}} }

// @iface {{.Interface.Name | toJson}} {{.Interface.Type | toJson}} {{.Interface.Generics.Types | toJson}} {{.Interface.Generics.Params | toJson}}
{{range $n, $m := .Interface.Methods}}
// @meta {{toJson $m}}
func (recv__ *Dec{{$.Interface.Generics.Params}}) {{$m.Declaration}} {
	{{$m.Pass "recv__.b."}}
}
{{end}}
`

// Strings renders a list of Go string literals.
func Strings(l []string) string {
	var o []string
	for _, x := range l {
		o = append(o, fmt.Sprintf("%q", x))
	}
	return strings.Join(o, ", ")
}

// JSON renders a value on one line.
func JSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// Read gives a file's content, or "".
func Read(path string) string {
	b, _ := os.ReadFile(path)
	return string(b)
}
