package instr

import (
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/packages"
)

// MapOrder copies packages with every iteration over a map replaced by one whose order package vrt chooses; it tells
// how many there are.
func MapOrder(dir string, patterns []string, place func(p *packages.Package) string) (sites []string, err error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedCompiledGoFiles | packages.NeedEmbedFiles, Dir: dir}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, &CompileError{p.PkgPath, p.Errors[0].Error()}
		}
		out := place(p)
		if err := os.MkdirAll(out, 0o755); err != nil {
			return nil, err
		}
		for _, f := range p.EmbedFiles {
			rel, err := filepath.Rel(filepath.Dir(p.GoFiles[0]), f)
			if err != nil {
				return nil, err
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			os.MkdirAll(filepath.Dir(filepath.Join(out, rel)), 0o755)
			if err := os.WriteFile(filepath.Join(out, rel), b, 0o644); err != nil {
				return nil, err
			}
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Package).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			type edit struct {
				at   int
				del  int
				text string
				seq  int
			}
			var edits []edit
			off := func(n ast.Node, end bool) int {
				if end {
					return p.Fset.Position(n.End()).Offset
				}
				return p.Fset.Position(n.Pos()).Offset
			}
			keep := map[string]bool{}
			used := false
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.RangeStmt:
					if t := p.TypesInfo.TypeOf(n.X); t != nil {
						if _, ok := t.Underlying().(*types.Map); ok {
							used = true
							edits = append(edits, edit{at: off(n.X, false), text: "vrt_.MapRange(", seq: len(edits)}, edit{at: off(n.X, true), text: ")", seq: -len(edits)})
							sites = append(sites, p.Fset.Position(n.Pos()).String())
						}
					}
				case *ast.SelectorExpr:
					id, ok := n.X.(*ast.Ident)
					if !ok {
						return true
					}
					pn, ok := p.TypesInfo.Uses[id].(*types.PkgName)
					if !ok || pn.Imported().Path() != "maps" {
						return true
					}
					if r := map[string]string{"Keys": "MapKeys", "Values": "MapValues", "All": "MapRange"}[n.Sel.Name]; r != "" {
						used = true
						keep[id.Name] = true
						edits = append(edits, edit{at: off(n, false), del: off(n, true) - off(n, false), text: "vrt_." + r, seq: len(edits)})
						sites = append(sites, p.Fset.Position(n.Pos()).String())
					}
				}
				return true
			})
			if used {
				edits = append(edits, edit{at: off(f.Name, true), text: "; import vrt_ \"vrt\""})
			}
			tail := ""
			for k := range keep {
				tail += "\nvar _ = " + k + ".Keys[map[int]int]\n"
			}
			sort.SliceStable(edits, func(i, j int) bool {
				if edits[i].at != edits[j].at {
					return edits[i].at < edits[j].at
				}
				return edits[i].seq < edits[j].seq
			})
			var res []byte
			last := 0
			for _, e := range edits {
				res = append(res, src[last:e.at]...)
				res = append(res, e.text...)
				last = e.at + e.del
			}
			res = append(append(res, src[last:]...), tail...)
			if err := os.WriteFile(filepath.Join(out, filepath.Base(name)), res, 0o644); err != nil {
				return nil, err
			}
		}
	}
	return sites, nil
}
