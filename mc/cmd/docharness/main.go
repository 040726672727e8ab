// Hands methods and parameters with every combination of comments to the generator's constructors.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"reflect"

	"github.com/hexdigest/gowrap/generator"
)

type types struct{}

func (types) PrintType(n ast.Node) (string, error) {
	if id, ok := n.(*ast.Ident); ok {
		return id.Name, nil
	}
	if e, ok := n.(*ast.Ellipsis); ok {
		return "..." + e.Elt.(*ast.Ident).Name, nil
	}
	return "", fmt.Errorf("unexpected %T", n)
}

func group(l []string) *ast.CommentGroup {
	if l == nil {
		return nil
	}
	g := &ast.CommentGroup{}
	for _, s := range l {
		g.List = append(g.List, &ast.Comment{Text: s})
	}
	return g
}

func eq(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

func main() {
	texts := [][]string{nil, {}, {"// a"}, {"/* b */", "// a  "}, {"//x", "//x", "/* \n\ty */"}}
	names := [][]string{nil, {"p"}, {"_"}, {"p", "q"}, {"ctx"}, {"err"}}
	var problems []string
	n := 0
	bad := func(f string, a ...any) {
		if len(problems) < 10 {
			problems = append(problems, fmt.Sprintf(f, a...))
		}
	}
	mk := func(ns, doc, com []string, typ ast.Expr) *ast.Field {
		f := &ast.Field{Doc: group(doc), Comment: group(com), Type: typ}
		for _, s := range ns {
			f.Names = append(f.Names, ast.NewIdent(s))
		}
		return f
	}
	for _, pn := range names {
		for _, rn := range names {
			for _, pd := range texts {
				for _, pc := range texts {
					for _, rd := range texts {
						for _, rc := range texts {
							for _, md := range texts[:3] {
								for _, mc := range [][]string{nil, {"// m"}} {
									n++
									var pt ast.Expr = ast.NewIdent("int")
									if n%2 == 0 && len(pn) < 2 {
										pt = &ast.Ellipsis{Elt: ast.NewIdent("string")}
									}
									ft := &ast.FuncType{
										Params:  &ast.FieldList{List: []*ast.Field{mk(nil, nil, nil, ast.NewIdent("bool")), mk(pn, pd, pc, pt)}},
										Results: &ast.FieldList{List: []*ast.Field{mk(rn, rd, rc, ast.NewIdent("int")), mk(nil, pd, rc, ast.NewIdent("error"))}},
									}
									m, err := generator.NewMethod("M", &ast.Field{Doc: group(md), Comment: group(mc), Type: ft}, types{}, nil, nil)
									if err != nil {
										bad("NewMethod: %v", err)
										continue
									}
									if !eq(m.Doc, md) || !eq(m.Comment, mc) {
										bad("method declared with %q and %q has Doc %q Comment %q", md, mc, m.Doc, m.Comment)
									}
									one := func(what string, got generator.ParamsSlice, at, k int, d, c []string) {
										for i := at; i < at+k; i++ {
											if i >= len(got) {
												bad("%s %d is missing", what, i)
												return
											}
											if !eq(got[i].Doc, d) || !eq(got[i].Comment, c) {
												bad("%s %d declared with %q and %q has Doc %q Comment %q", what, i, d, c, got[i].Doc, got[i].Comment)
											}
										}
									}
									one("parameter", m.Params, 0, 1, nil, nil)
									one("parameter", m.Params, 1, max(1, len(pn)), pd, pc)
									one("result", m.Results, 0, max(1, len(rn)), rd, rc)
									one("result", m.Results, max(1, len(rn)), 1, pd, rc)
								}
							}
						}
					}
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"problems": problems, "n": n})
}
