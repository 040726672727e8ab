package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifmc/lib"
)

// g01Named lists what a type is made of: names that need qualification and names that no other package can write.
func g01Named(t types.Type, seen map[types.Type]bool, pkgs map[string]string, hidden map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	obj := func(o *types.TypeName, args *types.TypeList) {
		if o.Pkg() != nil {
			pkgs[o.Pkg().Path()] = o.Pkg().Name()
			if !o.Exported() {
				hidden[o.Pkg().Name()+"."+o.Name()] = true
			}
		}
		for i := 0; i < args.Len(); i++ {
			g01Named(args.At(i), seen, pkgs, hidden)
		}
	}
	switch x := t.(type) {
	case *types.Alias:
		obj(x.Obj(), x.TypeArgs())
	case *types.Named:
		obj(x.Obj(), x.TypeArgs())
	case *types.Pointer:
		g01Named(x.Elem(), seen, pkgs, hidden)
	case *types.Slice:
		g01Named(x.Elem(), seen, pkgs, hidden)
	case *types.Array:
		g01Named(x.Elem(), seen, pkgs, hidden)
	case *types.Chan:
		g01Named(x.Elem(), seen, pkgs, hidden)
	case *types.Map:
		g01Named(x.Key(), seen, pkgs, hidden)
		g01Named(x.Elem(), seen, pkgs, hidden)
	case *types.Signature:
		g01Named(x.Params(), seen, pkgs, hidden)
		g01Named(x.Results(), seen, pkgs, hidden)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			g01Named(x.At(i).Type(), seen, pkgs, hidden)
		}
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if !x.Field(i).Exported() {
				hidden["field "+x.Field(i).Name()] = true
			}
			g01Named(x.Field(i).Type(), seen, pkgs, hidden)
		}
	case *types.Interface:
		for i := 0; i < x.NumMethods(); i++ {
			if !x.Method(i).Exported() {
				hidden["method "+x.Method(i).Name()] = true
			}
			g01Named(x.Method(i).Type(), seen, pkgs, hidden)
		}
	}
}

// g01Real generates a decorator for every exported interface of the standard library (and, thorough, of the
// modules the repository itself depends on) and compares the method sets.
func g01Real(r *lib.Run, gw string) {
	m := r.NewMod("real", "scr", gw)
	pats := []string{"std"}
	if r.Thorough() {
		mod := lib.Read(filepath.Join(r.Repo, "go.mod"))
		lib.Write(filepath.Join(m.Dir, "go.mod"), strings.Replace(mod, "module github.com/hexdigest/gowrap", "module scr", 1))
		lib.Write(filepath.Join(m.Dir, "go.sum"), lib.Read(filepath.Join(r.Repo, "go.sum")))
		lib.Write(filepath.Join(m.Dir, "tools.go"), "package scr\n\nimport (\n\t_ \"github.com/Masterminds/sprig/v3\"\n\t_ \"github.com/gojuno/minimock/v3\"\n\t_ \"github.com/pkg/errors\"\n\t_ \"github.com/stretchr/testify/assert\"\n\t_ \"golang.org/x/text/cases\"\n\t_ \"golang.org/x/tools/go/packages\"\n\t_ \"golang.org/x/tools/imports\"\n)\n")
		pats = append(pats, ".")
	}
	m.Exports(m.Dir, pats...)
	var paths []string
	for _, l := range strings.Fields(r.Must(m.Dir, "go", append([]string{"list", "-deps", "-f", "{{if ne .Name \"main\"}}{{.ImportPath}}{{end}}"}, pats...)...)) {
		if l != "unsafe" && l != "scr" && !strings.Contains("/"+l+"/", "/internal/") && !strings.HasPrefix(l, "vendor/") {
			paths = append(paths, l)
		}
	}
	type job struct{ path, name string }
	var jobs []job
	u := m.NewUniverse()
	for _, p := range paths {
		pk, err := u.Import(p)
		if err != nil {
			r.Fatal("%s: %v", p, err)
		}
		for _, n := range pk.Scope().Names() {
			o, ok := pk.Scope().Lookup(n).(*types.TypeName)
			if !ok || !o.Exported() {
				continue
			}
			if it, ok := o.Type().Underlying().(*types.Interface); ok && it.IsMethodSet() && it.NumMethods() > 0 {
				jobs = append(jobs, job{p, n})
			}
		}
	}
	lib.Parallel(len(jobs), func(k int) {
		j := jobs[k]
		if r.Left() < 0 {
			r.NotExhaustive("time")
			return
		}
		dir := fmt.Sprintf("r%d", k)
		res := m.Gen("-g", "-p", j.path, "-i", j.name, "-t", "../dump.tmpl", "-o", dir+"/dec.go")
		u := m.NewUniverse()
		pk, err := u.Import(j.path)
		if err != nil {
			r.Fatal("%v", err)
		}
		tn := pk.Scope().Lookup(j.name).(*types.TypeName)
		it := tn.Type().Underlying().(*types.Interface)
		key := "real " + j.path + "." + j.name
		bad := func(f string, a ...any) {
			r.Violate(key, fmt.Sprintf("%s.%s: ", j.path, j.name)+fmt.Sprintf(f, a...), map[string]any{"package": j.path, "interface": j.name, "stderr": res.Err, "file": lib.Read(filepath.Join(m.Dir, dir, "dec.go"))})
		}
		pkgs, hidden := map[string]string{}, map[string]bool{}
		for i := 0; i < it.NumMethods(); i++ {
			if !it.Method(i).Exported() {
				hidden["method "+it.Method(i).Name()] = true
			}
			g01Named(it.Method(i).Type(), map[types.Type]bool{}, pkgs, hidden)
		}
		names := map[string]int{}
		for _, n := range pkgs {
			names[n]++
		}
		two := false
		for _, n := range names {
			two = two || n > 1
		}
		r.Count(1, 1, 0)
		r.Validate(1)
		if len(hidden) > 0 {
			if res.Code == 0 {
				bad("generation succeeded although no other package can write %v", hidden)
			}
			return
		}
		if res.Code != 0 {
			if !two {
				bad("generation failed: %s", strings.TrimSpace(res.Err))
			}
			return
		}
		l := u.Load(dir)
		if l.Err != nil || len(l.Errs) > 0 {
			bad("the generated file does not compile: %s", l.FirstErr())
			return
		}
		dec := l.Named("Dec")
		if n, ok := types.Unalias(tn.Type()).(*types.Named); ok && n.TypeParams().Len() > 0 {
			if dec.TypeParams().Len() != n.TypeParams().Len() {
				bad("the type parameters differ")
				return
			}
			var targs []types.Type
			for i := 0; i < n.TypeParams().Len(); i++ {
				targs = append(targs, n.TypeParams().At(i))
			}
			inst, err := types.Instantiate(nil, dec, targs, true)
			if err != nil {
				bad("the type parameters differ: %v", err)
				return
			}
			dec = inst.(*types.Named)
		}
		want := map[string]*types.Func{}
		for i := 0; i < it.NumMethods(); i++ {
			want[it.Method(i).Name()] = it.Method(i)
		}
		var diffs []string
		for i := 0; i < dec.NumMethods(); i++ {
			f := dec.Method(i)
			w := want[f.Name()]
			delete(want, f.Name())
			if w == nil {
				diffs = append(diffs, "invented "+f.Name())
			} else if !types.Identical(w.Type(), f.Type()) {
				diffs = append(diffs, fmt.Sprintf("%s is %s, must be %s", f.Name(), f.Type(), w.Type()))
			}
		}
		for n := range want {
			diffs = append(diffs, "dropped "+n)
		}
		sort.Strings(diffs)
		if len(diffs) > 0 {
			bad("%s", strings.Join(diffs, "; "))
		}
		r.Add("real_interfaces_compared", 1)
		os.RemoveAll(filepath.Join(m.Dir, dir))
	})
	r.Set("real_interfaces", len(jobs))
}
