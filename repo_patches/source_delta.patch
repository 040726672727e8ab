From 05205092646f09e1323edfe61126931960f25fff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 01/34] fix: fallback: compile and fall back for error methods
 without a context

---
 templates/fallback | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index fbd321c..981c447 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -91,16 +91,22 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
               {{end -}}
               }
           }
-        {{else}}
-          {{if $method.HasResults}}_res := {{end}} <- _ch
-          {{- if $method.ReturnsError}}
+        {{else if $method.ReturnsError}}
+          for {
+            _res := <- _ch
             if _res.err == nil {
               {{ $method.ReturnStruct "_res" }}
             }
+            _next <- struct{}{}
             _errorsList = append(_errorsList, _res.err.Error())
-          {{else}}
-            {{ $method.ReturnStruct "_res" }}
-          {{end -}}
+            if len(_errorsList) == len(_d.implementations) {
+              err = errors.New(strings.Join(_errorsList, ";"))
+              return
+            }
+          }
+        {{else}}
+          {{if $method.HasResults}}_res := {{end}} <- _ch
+          {{ $method.ReturnStruct "_res" }}
         {{end}}
   }
 {{end}}
-- 
2.43.0


From be33fd8f23e2740d52ae966f09211e7b3bf13bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 02/34] fix: fallback: never drop a result of a method without
 a context

---
 templates/fallback | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fallback b/templates/fallback
index 981c447..c477f2d 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -23,7 +23,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, 0)
+      var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
-- 
2.43.0


From 04688dc8589c79a806588f0f824e8a2c4a397076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 03/34] fix: fallback: stop starting implementations once the
 call has returned

---
 templates/fallback | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/fallback b/templates/fallback
index c477f2d..ce0cea3 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -28,6 +28,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
       defer _ticker.Stop()
+      var _done = make(chan struct{})
+      defer close(_done)
 
       {{- if $method.AcceptsContext}}
         ctx, _cancelFunc := context.WithCancel(ctx)
@@ -61,6 +63,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             select {
               case <-_next:
               case <-_ticker.C:
+              case <-_done:
+                return
             }
           }
         }
-- 
2.43.0


From a420869c57f974d7939f79c9065ef6126f834d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 04/34] fix: robinpool: keep the order when the call counter
 passes 2^32

---
 templates/robinpool | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/templates/robinpool b/templates/robinpool
index e56d602..f911a5e 100644
--- a/templates/robinpool
+++ b/templates/robinpool
@@ -7,9 +7,9 @@ import (
 
 // {{$decorator}} implements {{.Interface.Type}} that uses pool of {{.Interface.Type}}
 type {{$decorator}} struct {
+  counter uint64 // goes first to be 64-bit aligned on 32-bit platforms
   pool []{{.Interface.Type}}
-  poolSize uint32
-  counter uint32
+  poolSize uint64
 }
 
 // New{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -19,7 +19,7 @@ func New{{$decorator}}(pool ...{{.Interface.Type}}) (*{{$decorator}}, error) {
     return nil, errors.New("empty pool")
   }
   
-  return &{{$decorator}}{pool: pool, poolSize: uint32(len(pool))}, nil
+  return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}, nil
 }
 
 // MustNew{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -29,13 +29,13 @@ func MustNew{{$decorator}}(pool ...{{.Interface.Type}}) *{{$decorator}} {
     panic("empty pool")
   }
   
-  return &{{$decorator}}{pool: pool, poolSize: uint32(len(pool))}
+  return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}
 }
 
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d *{{$decorator}}) {{$method.Declaration}} {
-    _counter := atomic.AddUint32(&_d.counter, 1)
+    _counter := atomic.AddUint64(&_d.counter, 1)
     {{ $method.Pass "_d.pool[_counter % _d.poolSize]." }}
   }
 {{end}}
-- 
2.43.0


From e3f5de050d6f082ce6af82bb254104db6dfbe0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 05/34] fix: elasticapm: give the option type its own name when
 DecoratorName is set

---
 templates/elasticapm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index c29f78a..18ee226 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -4,7 +4,7 @@ import (
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
-{{ $decorator_option := (or .Vars.DecoratorName (printf "%sAPMTracingOption" .Interface.Name)) }}
+{{ $decorator_option := (printf "%sOption" $decorator) }}
 {{ $component := (or .Vars.ComponentName (printf "%s" (down .Interface.Name))) }}
 
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
-- 
2.43.0


From aa2dd1f7af1dcb206d1db09277d201349bf3d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 06/34] fix: elasticapm: implement the methods that take no
 context

---
 templates/elasticapm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templates/elasticapm b/templates/elasticapm
index 18ee226..3e043f7 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -79,5 +79,10 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
         {{ end }}
         {{$method.Pass "_d.base."}}
     }
+  {{else}}
+    // {{$method.Name}} implements {{$.Interface.Type}}
+    func (_d {{$decorator}}) {{$method.Declaration}} {
+        {{$method.Pass "_d.base."}}
+    }
   {{end}}
 {{end}}
-- 
2.43.0


From 9c7afb9545fef4d6715270928c063427d6d71492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 07/34] fix: printer: keep the identity of the printed type

Struct tags were dropped, constants in array lengths and types inside interface
literals and parentheses were not qualified with the source package name, and literals
with unexported fields or methods were printed to another package where they denote a
different type.
---
 printer/printer.go | 164 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 163 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index c98bf05..bce614e 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/printer"
 	"go/token"
+	"go/types"
 	"strings"
 
 	"github.com/pkg/errors"
@@ -71,6 +72,14 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGeneric(t)
 	case *ast.IndexListExpr:
 		return p.printGenericList(t)
+	case *ast.ParenExpr:
+		return p.printParen(t)
+	case *ast.InterfaceType:
+		return p.printInterface(t)
+	case *ast.UnaryExpr:
+		return p.printUnary(t)
+	case *ast.BinaryExpr:
+		return p.printBinary(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -83,7 +92,7 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 		return "", err
 	}
 
-	l, err := p.Print(a.Len)
+	l, err := p.printArrayLen(a.Len)
 	if err != nil {
 		return "", err
 	}
@@ -91,6 +100,50 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 	return "[" + l + "]" + sliceType, nil
 }
 
+// printArrayLen prints a constant expression, identifiers that are neither predeclared
+// nor selected from another package are the constants of the source package
+func (p *Printer) printArrayLen(e ast.Expr) (string, error) {
+	switch t := e.(type) {
+	case *ast.Ident:
+		if types.Universe.Lookup(t.Name) != nil || len(p.typesPrefix) == 0 {
+			return p.Print(t)
+		}
+		if !t.IsExported() {
+			return "", errors.Wrap(errUnexportedConst, t.Name)
+		}
+		return p.typesPrefix + "." + t.Name, nil
+	case *ast.ParenExpr:
+		x, err := p.printArrayLen(t.X)
+		return "(" + x + ")", err
+	case *ast.UnaryExpr:
+		x, err := p.printArrayLen(t.X)
+		return t.Op.String() + x, err
+	case *ast.BinaryExpr:
+		x, err := p.printArrayLen(t.X)
+		if err != nil {
+			return "", err
+		}
+		y, err := p.printArrayLen(t.Y)
+		return x + " " + t.Op.String() + " " + y, err
+	case *ast.CallExpr:
+		fun, err := p.printArrayLen(t.Fun)
+		if err != nil {
+			return "", err
+		}
+		args := make([]string, 0, len(t.Args))
+		for _, arg := range t.Args {
+			a, err := p.printArrayLen(arg)
+			if err != nil {
+				return "", err
+			}
+			args = append(args, a)
+		}
+		return fun + "(" + strings.Join(args, ", ") + ")", nil
+	}
+
+	return p.Print(e)
+}
+
 var chanTypes = map[ast.ChanDir]string{
 	ast.SEND | ast.RECV: "chan ",
 	ast.SEND:            "chan<- ",
@@ -132,6 +185,8 @@ func (p *Printer) printMap(mt *ast.MapType) (string, error) {
 }
 
 var errUnexportedType = errors.New("unexported type")
+var errUnexportedMember = errors.New("unexported field or method")
+var errUnexportedConst = errors.New("unexported constant")
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 	for _, ts := range p.types {
@@ -207,9 +262,112 @@ func (p *Printer) printStruct(s *ast.StructType) (string, error) {
 		return "", err
 	}
 
+	if s.Fields != nil {
+		for _, field := range s.Fields.List {
+			names := field.Names
+			if names == nil {
+				names = embeddedFieldName(field.Type)
+			}
+			if err := p.checkMembers(names); err != nil {
+				return "", err
+			}
+		}
+	}
+
 	return "struct{\n" + strings.Join(fields, "\n") + "\n}", nil
 }
 
+func (p *Printer) printParen(pe *ast.ParenExpr) (string, error) {
+	x, err := p.PrintType(pe.X)
+	if err != nil {
+		return "", err
+	}
+
+	return "(" + x + ")", nil
+}
+
+func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
+	if it.Methods == nil || len(it.Methods.List) == 0 {
+		return "interface{}", nil
+	}
+
+	elems := make([]string, 0, len(it.Methods.List))
+	for _, field := range it.Methods.List {
+		t, err := p.PrintType(field.Type)
+		if err != nil {
+			return "", err
+		}
+
+		if err := p.checkMembers(field.Names); err != nil {
+			return "", err
+		}
+
+		if _, ok := field.Type.(*ast.FuncType); ok && len(field.Names) > 0 {
+			t = field.Names[0].Name + strings.TrimPrefix(t, "func")
+		}
+		elems = append(elems, t)
+	}
+
+	return "interface{\n" + strings.Join(elems, "\n") + "\n}", nil
+}
+
+// printUnary prints an approximation element of a constraint, i.e. ~string
+func (p *Printer) printUnary(e *ast.UnaryExpr) (string, error) {
+	x, err := p.PrintType(e.X)
+	if err != nil {
+		return "", err
+	}
+
+	return e.Op.String() + x, nil
+}
+
+// printBinary prints a union element of a constraint, i.e. int | string
+func (p *Printer) printBinary(e *ast.BinaryExpr) (string, error) {
+	x, err := p.PrintType(e.X)
+	if err != nil {
+		return "", err
+	}
+
+	y, err := p.PrintType(e.Y)
+	if err != nil {
+		return "", err
+	}
+
+	return x + " " + e.Op.String() + " " + y, nil
+}
+
+// checkMembers returns an error if a type literal that is going to be printed to another
+// package has an unexported field or method, because there it would denote a different type
+func (p *Printer) checkMembers(names []*ast.Ident) error {
+	if len(p.typesPrefix) == 0 {
+		return nil
+	}
+
+	for _, name := range names {
+		if !name.IsExported() {
+			return errors.Wrap(errUnexportedMember, name.Name)
+		}
+	}
+
+	return nil
+}
+
+// embeddedFieldName returns the name of the field that embeds type e to a struct
+func embeddedFieldName(e ast.Expr) []*ast.Ident {
+	switch t := e.(type) {
+	case *ast.Ident:
+		return []*ast.Ident{t}
+	case *ast.StarExpr:
+		return embeddedFieldName(t.X)
+	case *ast.IndexExpr:
+		return embeddedFieldName(t.X)
+	case *ast.IndexListExpr:
+		return embeddedFieldName(t.X)
+	}
+
+	return nil
+}
+
 func (p *Printer) printVariadicParam(e *ast.Ellipsis) (string, error) {
 	sliceType, err := p.PrintType(e.Elt)
 	if err != nil {
@@ -237,6 +395,10 @@ func (p *Printer) fieldList(fl *ast.FieldList) ([]string, error) {
 			return nil, err
 		}
 
+		if param.Tag != nil {
+			paramType += " " + param.Tag.Value
+		}
+
 		params = append(params, strings.Join(names, ", ")+" "+paramType)
 	}
 
-- 
2.43.0


From d1ae5b9fa18d29dbe09950772df4f051c4a833f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 08/34] fix: generics: print every kind of a type parameter
 constraint

Constraints that are literals, generic types or approximations of literals were
rendered as an empty string. Type parameters that shadow a type of the source package
were qualified, unexported constraints were printed to another package.
---
 generator/generator.go | 44 ++++++++++++++++++++++++++++++++++++++++++
 generator/generics.go  |  8 +++++---
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c94e826..488090b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -347,6 +347,11 @@ func findTarget(input processInput) (output processOutput, err error) {
 		return processOutput{}, errors.Wrap(errTargetNotFound, input.targetName)
 	}
 
+	types = visibleTypes(ts, types)
+	if err := checkConstraints(ts, types, input); err != nil {
+		return processOutput{}, err
+	}
+
 	output.imports = imports
 	output.genericTypes = buildGenericTypesFromSpec(ts, types, input.astPackage.Name)
 	output.methods, err = findMethods(ts, targetProcessInput{
@@ -363,6 +368,45 @@ func findTarget(input processInput) (output processOutput, err error) {
 	return
 }
 
+// visibleTypes returns the types that are not shadowed by the type parameters of ts
+func visibleTypes(ts *ast.TypeSpec, types []*ast.TypeSpec) []*ast.TypeSpec {
+	if ts.TypeParams == nil {
+		return types
+	}
+
+	params := map[string]bool{}
+	for _, field := range ts.TypeParams.List {
+		for _, name := range field.Names {
+			params[name.Name] = true
+		}
+	}
+
+	result := make([]*ast.TypeSpec, 0, len(types))
+	for _, t := range types {
+		if !params[t.Name.Name] {
+			result = append(result, t)
+		}
+	}
+
+	return result
+}
+
+// checkConstraints returns an error if the constraints of the type parameters can't be used in the destination package
+func checkConstraints(ts *ast.TypeSpec, types []*ast.TypeSpec, input processInput) error {
+	if ts.TypeParams == nil {
+		return nil
+	}
+
+	pr := printer.New(input.fileSet, types, input.astPackage.Name)
+	for _, field := range ts.TypeParams.List {
+		if _, err := pr.PrintType(field.Type); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods methodsList, err error) {
 	switch t := selectedType.Type.(type) {
 	case *ast.InterfaceType:
diff --git a/generator/generics.go b/generator/generics.go
index 7d22c27..ba0cbd5 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -4,6 +4,8 @@ import (
 	"go/ast"
 	"go/token"
 	"strings"
+
+	"github.com/hexdigest/gowrap/printer"
 )
 
 const (
@@ -125,12 +127,12 @@ func parseGenericType(exprPart ast.Expr, allTypes []*ast.TypeSpec, typesPrefix s
 		part = expr.X.(*ast.Ident).Name + "." + expr.Sel.Name
 	case *ast.UnaryExpr:
 		if expr.Op == token.TILDE {
-			if id, ok := expr.X.(*ast.Ident); ok {
-				part = "~" + id.Name
-			}
+			part = "~" + parseGenericType(expr.X, allTypes, typesPrefix)
 		}
 	case *ast.BinaryExpr:
 		part = parseBinaryExpr(expr, allTypes, typesPrefix)
+	default:
+		part, _ = printer.New(token.NewFileSet(), allTypes, typesPrefix).PrintType(expr)
 	}
 
 	return
-- 
2.43.0


From 3ac3eab4694e7877141e7189e6f4fb17a2ee773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 09/34] fix: pkg: ignore the files excluded by build
 constraints

Interfaces and types declared in such files are not a part of the package.
---
 pkg/package.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/package.go b/pkg/package.go
index 73f1548..a4dd84c 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io/fs"
 	"path/filepath"
 
 	"golang.org/x/tools/go/packages"
@@ -37,10 +38,18 @@ func Load(path string) (*packages.Package, error) {
 }
 
 // AST returns package's abstract syntax tree
-func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
+func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 	dir := Dir(p)
 
-	pkgs, err := parser.ParseDir(fs, dir, nil, parser.DeclarationErrors|parser.ParseComments)
+	ignored := make(map[string]bool, len(p.IgnoredFiles))
+	for _, f := range p.IgnoredFiles {
+		ignored[filepath.Base(f)] = true
+	}
+
+	//files excluded by build constraints are not a part of the package
+	filter := func(fi fs.FileInfo) bool { return !ignored[fi.Name()] }
+
+	pkgs, err := parser.ParseDir(fset, dir, filter, parser.DeclarationErrors|parser.ParseComments)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 89a060a5b279707100f5c2a5a22503992c3aa256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 10/34] fix: generator: blank parameter names, empty result
 lists, non-ASCII type names

Blank parameters were rendered as _ and passed by the name, an empty result list
crashed the generator and names derived from non-ASCII type names were invalid.
---
 generator/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/types.go b/generator/types.go
index 1fa0eee..8b77eb5 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -90,7 +90,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 	usedNames := map[string]bool{}
 
 	//Always name the last return parameter as an "err" if it's of type "error"
-	if f.Results != nil {
+	if f.Results != nil && len(f.Results.List) > 0 {
 		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
 		m.ReturnsError = ok && ident.Name == "error"
 		usedNames["err"] = true
@@ -128,7 +128,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Param, error) {
 	typ := fi.Type
-	if name == "" || usedNames[name] {
+	if name == "" || name == "_" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
 	}
 
@@ -212,7 +212,7 @@ func typePrefix(e ast.Expr) string {
 	case *ast.FuncType:
 		return "f"
 	case *ast.Ident:
-		return strings.ToLower(t.Name[0:1])
+		return strings.ToLower(string([]rune(t.Name)[0:1]))
 	}
 
 	return "p"
-- 
2.43.0


From 1b2f4e33573ff6370674121d8a6ebac59ddfbc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 11/34] fix: generator: complete method sets of embedded
 interfaces

Embedded aliases, defined types, literals, error and instances of generic interfaces
were dropped or refused, type arguments were substituted only when they were the whole
type of a parameter, unresolved names were ignored, and the imports of the files
declaring embedded interfaces were not carried over.
---
 generator/generator.go | 195 +++++++++++++++++++++--------------------
 generator/generics.go  |  17 ++++
 generator/imports.go   | 178 +++++++++++++++++++++++++++++++++++++
 printer/printer.go     |  30 +++++++
 4 files changed, 326 insertions(+), 94 deletions(-)
 create mode 100644 generator/imports.go

diff --git a/generator/generator.go b/generator/generator.go
index 488090b..0085f1a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -142,6 +142,9 @@ type processInput struct {
 	astPackage     *pkg.Package
 	targetName     string
 	genericParams  genericParams
+	usedImports    *usedImports
+	//typeParams of the target hide the types of the same name
+	typeParams *ast.FieldList
 }
 
 type targetProcessInput struct {
@@ -224,11 +227,13 @@ func NewGenerator(options Options) (*Generator, error) {
 		options.Imports = append(options.Imports, srcPackageAST.Name+` "`+srcPackage.PkgPath+`"`)
 	}
 
+	usedImports := &usedImports{}
 	output, err := findTarget(processInput{
 		fileSet:        fs,
 		currentPackage: srcPackage,
 		astPackage:     srcPackageAST,
 		targetName:     options.InterfaceName,
+		usedImports:    usedImports,
 	})
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to parse interface declaration")
@@ -244,6 +249,11 @@ func NewGenerator(options Options) (*Generator, error) {
 		}
 	}
 
+	output.imports, err = usedImports.merge(output.imports, srcPackage)
+	if err != nil {
+		return nil, err
+	}
+
 	options.Imports = append(options.Imports, makeImports(output.imports)...)
 
 	genericTypes, genericParams := output.genericTypes.buildVars()
@@ -348,6 +358,7 @@ func findTarget(input processInput) (output processOutput, err error) {
 	}
 
 	types = visibleTypes(ts, types)
+	input.typeParams = ts.TypeParams
 	if err := checkConstraints(ts, types, input); err != nil {
 		return processOutput{}, err
 	}
@@ -415,6 +426,10 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return methodsList{}, err
 		}
 	case *ast.SelectorExpr:
+		if input.currentPackage != nil {
+			return processSelector(t, input)
+		}
+
 		ident, ok := t.X.(*ast.Ident)
 		if !ok {
 			return
@@ -424,11 +439,13 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 		return getMethods(t, srcPackagePath)
 	case *ast.Ident:
 		if t.Obj == nil {
-			return
+			return processIdent(t, input, true)
 		}
 		if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
 			return findMethods(ts, input)
 		}
+	case *ast.IndexExpr, *ast.IndexListExpr, *ast.ParenExpr:
+		return processEmbedded(t, printer.New(input.fileSet, input.types, input.typesPrefix), input)
 	}
 
 	return
@@ -511,81 +528,37 @@ func typeSpecs(f *ast.File) []*ast.TypeSpec {
 	return result
 }
 
-func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (param genericParam, methods methodsList, err error) {
-	param.Name, err = pr.PrintType(t)
-	if err != nil {
-		return
-	}
-
-	switch v := t.(type) {
-	case *ast.SelectorExpr:
-		methods, err = processSelector(v, input)
-		return
-
-	case *ast.Ident:
-		methods, err = processIdent(v, input, checkInterface)
-		return
-	}
-	return
-}
-
-func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (genericParam genericParam, embeddedMethods methodsList, err error) {
-	var x ast.Expr
-	var hasGenericsParams bool
-	var genericParams genericParams
-
+func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput) (methodsList, error) {
+	var args []ast.Expr
 	switch v := t.(type) {
+	case *ast.ParenExpr:
+		return processEmbedded(v.X, pr, input)
+	case *ast.InterfaceType:
+		return processInterface(v, input)
 	case *ast.IndexExpr:
-		x = v.X
-		hasGenericsParams = true
-		//	Don't check if embedded interface's generic params are also interfaces, e.g. given the interface:
-		//		type SomeInterface {
-		//	      EmbeddedGenericInterface[Bar]
-		//		}
-		//	we won't be checking if Bar is also an interface
-		genericParam, _, err = processEmbedded(v.Index, pr, input, false)
-		if err != nil {
-			return
-		}
-		if genericParam.Name != "" {
-			genericParams = append(genericParams, genericParam)
-		}
-
+		t, args = v.X, []ast.Expr{v.Index}
 	case *ast.IndexListExpr:
-		x = v.X
-		hasGenericsParams = true
-
-		if v.Indices != nil {
-			for _, index := range v.Indices {
-				//	Don't check if embedded interface's generic params are also interfaces, e.g. given the interface:
-				//		type SomeInterface {
-				//	      EmbeddedGenericInterface[Bar]
-				//		}
-				//	we won't be checking if Bar is also an interface
-				genericParam, _, err = processEmbedded(index, pr, input, false)
-				if err != nil {
-					return
-				}
-				if genericParam.Name != "" {
-					genericParams = append(genericParams, genericParam)
-				}
-			}
-		}
-	default:
-		x = v
+		t, args = v.X, v.Indices
 	}
 
-	input.genericParams = genericParams
-	genericParam, embeddedMethods, err = getEmbeddedMethods(x, pr, input, checkInterface)
-	if err != nil {
-		return
+	input.genericParams = nil
+	for _, arg := range args {
+		name, err := pr.PrintType(arg)
+		if err != nil {
+			return nil, err
+		}
+		input.genericParams = append(input.genericParams, genericParam{Name: name})
+		input.addUsedImports(arg)
 	}
 
-	if hasGenericsParams {
-		genericParam.Params = genericParams
+	switch v := t.(type) {
+	case *ast.SelectorExpr:
+		return processSelector(v, input)
+	case *ast.Ident:
+		return processIdent(v, input, true)
 	}
 
-	return
+	return nil, errNotAnInterface
 }
 
 func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (methods methodsList, err error) {
@@ -596,6 +569,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 	methods = make(methodsList, len(it.Methods.List))
 
 	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix)
+	pr.SetTypeArgs(targetInput.genericTypes.args(targetInput.genericParams))
+	pr.SetTypeParams(targetInput.typeParams)
 
 	for _, field := range it.Methods.List {
 		var embeddedMethods methodsList
@@ -605,14 +580,15 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.FuncType:
 			var method *Method
 
-			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
+			method, err = NewMethod(field.Names[0].Name, field, pr, nil, nil)
 			if err == nil {
+				targetInput.addUsedImports(v)
 				methods[field.Names[0].Name] = *method
 				continue
 			}
 
 		default:
-			_, embeddedMethods, err = processEmbedded(v, pr, targetInput, true)
+			embeddedMethods, err = processEmbedded(v, pr, targetInput)
 		}
 
 		if err != nil {
@@ -653,9 +629,27 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		astPackage:     astPkg,
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
+		usedImports:    input.usedImports,
 	})
+	if err != nil {
+		return nil, err
+	}
 
-	return output.methods, err
+	if output.methods == nil {
+		return nil, errors.Wrapf(errNotAnInterface, "%s.%s", packageSelector, selectedName)
+	}
+
+	for _, m := range output.methods {
+		if !ast.IsExported(m.Name) {
+			return nil, errors.Wrapf(errUnexportedMethod, "%s of %s.%s", m.Name, packageSelector, selectedName)
+		}
+
+		if strings.Contains(m.Signature(), p.Name+".") {
+			input.usedImports.add(p.Name, p.PkgPath, packageImport(p))
+		}
+	}
+
+	return output.methods, nil
 }
 
 // mergeMethods merges two methods list. Retains overlapping methods from the
@@ -680,31 +674,46 @@ func mergeMethods(methods, embeddedMethods methodsList) (methodsList, error) {
 var errNotAnInterface = errors.New("embedded type is not an interface")
 
 func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (methodsList, error) {
-	var embeddedInterface *ast.InterfaceType
-	var genericsTypes genericTypes
+	if input.astPackage != nil {
+		_, input.imports, input.types = iterateFiles(input.astPackage, i.Name)
+	}
+
 	for _, t := range input.types {
-		if t.Name.Name == i.Name {
-			var ok bool
-			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
-			if ok {
-				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
-				break
-			}
+		if t.Name.Name != i.Name {
+			continue
+		}
 
-			if !checkInterface {
-				break
-			}
+		input.types = visibleTypes(t, input.types)
+		input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
+
+		switch v := t.Type.(type) {
+		case *ast.InterfaceType:
+			return processInterface(v, input)
+		case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.IndexListExpr, *ast.ParenExpr:
+			pr := printer.New(input.fileSet, input.types, input.typesPrefix)
+			pr.SetTypeArgs(input.genericTypes.args(input.genericParams))
+			pr.SetTypeParams(input.typeParams)
+
+			return processEmbedded(v, pr, input)
+		}
 
+		if checkInterface {
 			return nil, errors.Wrap(errNotAnInterface, t.Name.Name)
 		}
+
+		return nil, nil
 	}
 
-	if embeddedInterface == nil {
+	switch {
+	case !checkInterface:
 		return nil, nil
+	case i.Name == "any":
+		return methodsList{}, nil
+	case i.Name == "error":
+		return methodsList{"Error": Method{Name: "Error", Params: ParamsSlice{}, Results: ParamsSlice{{Name: "s1", Type: "string"}}}}, nil
 	}
 
-	input.genericTypes = genericsTypes
-	return processInterface(embeddedInterface, input)
+	return nil, errors.Wrap(errNotAnInterface, i.Name)
 }
 
 var errUnknownSelector = errors.New("unknown selector")
@@ -716,6 +725,12 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 		}
 	}
 
+	for _, i := range imports {
+		if p, ok := currentPackage.Imports[unquote(i.Path.Value)]; ok && i.Name == nil && p.Name == name {
+			return unquote(i.Path.Value), nil
+		}
+	}
+
 	for path, pkg := range currentPackage.Imports {
 		if pkg.Name == name {
 			return path, nil
@@ -726,13 +741,5 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 }
 
 func unquote(s string) string {
-	if s[0] == '"' {
-		s = s[1:]
-	}
-
-	if s[len(s)-1] == '"' {
-		s = s[0 : len(s)-1]
-	}
-
-	return s
+	return strings.Trim(s, "\"`")
 }
diff --git a/generator/generics.go b/generator/generics.go
index ba0cbd5..e9d2537 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -80,6 +80,23 @@ func (g genericTypes) buildVars() (string, string) {
 	return buildGenericsWithBrackets(types), buildGenericsWithBrackets(params)
 }
 
+// args returns type arguments keyed by the names of the type parameters they stand for
+func (g genericTypes) args(params genericParams) map[string]string {
+	args := map[string]string{}
+
+	i := 0
+	for _, genType := range g {
+		for _, name := range genType.Names {
+			if i < len(params) {
+				args[name] = params[i].String()
+			}
+			i++
+		}
+	}
+
+	return args
+}
+
 func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, typesPrefix string) (types genericTypes) {
 	if ts.TypeParams == nil {
 		return
diff --git a/generator/imports.go b/generator/imports.go
new file mode 100644
index 0000000..6428ee5
--- /dev/null
+++ b/generator/imports.go
@@ -0,0 +1,178 @@
+package generator
+
+import (
+	"go/ast"
+	"go/token"
+	"path"
+	"sort"
+	"strconv"
+
+	"github.com/pkg/errors"
+	"golang.org/x/tools/go/packages"
+
+	"github.com/hexdigest/gowrap/pkg"
+)
+
+// usedImports are the imports required by the signatures of the methods. Embedded
+// interfaces may be declared in the files that have imports of their own.
+type usedImports struct {
+	names []string
+	paths map[string]string
+	specs map[string]*ast.ImportSpec
+	dots  map[string]*ast.ImportSpec
+	err   error
+}
+
+var errImportConflict = errors.New("signatures refer to different packages by the same name")
+
+func (u *usedImports) add(name, importPath string, spec *ast.ImportSpec) {
+	if u == nil {
+		return
+	}
+
+	if used, ok := u.paths[name]; ok {
+		if used != importPath && u.err == nil {
+			u.err = errors.Wrapf(errImportConflict, "%s: %s, %s", name, used, importPath)
+		}
+		return
+	}
+
+	if u.paths == nil {
+		u.paths = map[string]string{}
+		u.specs = map[string]*ast.ImportSpec{}
+	}
+
+	u.names = append(u.names, name)
+	u.paths[name] = importPath
+	u.specs[name] = spec
+}
+
+// merge adds missing imports to the ones of the file with the target interface and
+// removes the ones having a name that belongs to another package in the signatures
+func (u *usedImports) merge(imports []*ast.ImportSpec, p *packages.Package) ([]*ast.ImportSpec, error) {
+	if u.err != nil {
+		return nil, u.err
+	}
+
+	result := make([]*ast.ImportSpec, 0, len(imports)+len(u.names))
+	present := map[string]bool{}
+
+	for _, spec := range imports {
+		name, importPath := importName(spec, p), unquote(spec.Path.Value)
+		if name == "_" || name == "." {
+			continue
+		}
+
+		if used, ok := u.paths[name]; ok {
+			if used != importPath {
+				continue
+			}
+			present[name] = true
+		}
+
+		result = append(result, spec)
+	}
+
+	for _, name := range u.names {
+		if !present[name] {
+			result = append(result, u.specs[name])
+		}
+	}
+
+	dots := make([]string, 0, len(u.dots))
+	for importPath := range u.dots {
+		dots = append(dots, importPath)
+	}
+	sort.Strings(dots)
+
+	for _, importPath := range dots {
+		result = append(result, u.dots[importPath])
+	}
+
+	return result, nil
+}
+
+func (u *usedImports) addDot(importPath string, spec *ast.ImportSpec) {
+	if u == nil {
+		return
+	}
+
+	if u.dots == nil {
+		u.dots = map[string]*ast.ImportSpec{}
+	}
+
+	u.dots[importPath] = spec
+}
+
+// addUsedImports records imports of the packages which types are mentioned in the node
+func (input targetProcessInput) addUsedImports(node ast.Node) {
+	if input.currentPackage == nil {
+		return
+	}
+
+	ast.Inspect(node, func(n ast.Node) bool {
+		switch t := n.(type) {
+		case *ast.SelectorExpr:
+			for _, spec := range input.imports {
+				name := importName(spec, input.currentPackage)
+				if ident, ok := t.X.(*ast.Ident); ok && name == ident.Name {
+					input.usedImports.add(name, unquote(spec.Path.Value), spec)
+				}
+			}
+			return false
+		case *ast.Ident:
+			input.addDotImport(t.Name)
+		}
+
+		return true
+	})
+}
+
+// addDotImport records the import that makes the type visible without a package selector
+func (input targetProcessInput) addDotImport(typeName string) {
+	for _, t := range input.types {
+		if t.Name.Name == typeName {
+			return
+		}
+	}
+
+	for _, spec := range input.imports {
+		imported, ok := input.currentPackage.Imports[unquote(spec.Path.Value)]
+		if !ok || spec.Name == nil || spec.Name.Name != "." {
+			continue
+		}
+
+		p, err := pkg.AST(token.NewFileSet(), imported)
+		if err != nil {
+			continue
+		}
+
+		if ts, _, _ := iterateFiles(p, typeName); ts != nil {
+			input.usedImports.addDot(imported.PkgPath, spec)
+		}
+	}
+}
+
+// importName returns the name that import declaration gives to the package
+func importName(spec *ast.ImportSpec, p *packages.Package) string {
+	if spec.Name != nil {
+		return spec.Name.Name
+	}
+
+	importPath := unquote(spec.Path.Value)
+	if imported, ok := p.Imports[importPath]; ok {
+		return imported.Name
+	}
+
+	return path.Base(importPath)
+}
+
+// packageImport returns import declaration of the package
+func packageImport(p *packages.Package) *ast.ImportSpec {
+	spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p.PkgPath)}}
+	if path.Base(p.PkgPath) != p.Name {
+		spec.Name = ast.NewIdent(p.Name)
+	}
+
+	return spec
+}
diff --git a/printer/printer.go b/printer/printer.go
index bce614e..3e9fb9b 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -16,6 +16,8 @@ type Printer struct {
 	fs          *token.FileSet
 	types       []*ast.TypeSpec
 	typesPrefix string
+	typeArgs    map[string]string
+	typeParams  map[string]bool
 	buf         *bytes.Buffer
 }
 
@@ -32,6 +34,25 @@ func New(fs *token.FileSet, typeSpecs []*ast.TypeSpec, typesPrefix string) *Prin
 	}
 }
 
+// SetTypeArgs makes Printer print the given arguments in place of the type parameters they are keyed by
+func (p *Printer) SetTypeArgs(args map[string]string) {
+	p.typeArgs = args
+}
+
+// SetTypeParams makes Printer refuse to print the types that are hidden by the given type parameters
+func (p *Printer) SetTypeParams(params *ast.FieldList) {
+	if params == nil {
+		return
+	}
+
+	p.typeParams = map[string]bool{}
+	for _, field := range params.List {
+		for _, name := range field.Names {
+			p.typeParams[name.Name] = true
+		}
+	}
+}
+
 // Print prints AST node as is
 func (p *Printer) Print(node ast.Node) (string, error) {
 	if node == nil {
@@ -185,10 +206,15 @@ func (p *Printer) printMap(mt *ast.MapType) (string, error) {
 }
 
 var errUnexportedType = errors.New("unexported type")
+var errHiddenType = errors.New("type is hidden by a type parameter")
 var errUnexportedMember = errors.New("unexported field or method")
 var errUnexportedConst = errors.New("unexported constant")
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
+	if arg, ok := p.typeArgs[i.Name]; ok {
+		return arg, nil
+	}
+
 	for _, ts := range p.types {
 
 		if i.Name == ts.Name.Name {
@@ -202,6 +228,10 @@ func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 				return p.typesPrefix + "." + i.Name, nil
 			}
 
+			if p.typeParams[i.Name] {
+				return "", errors.Wrap(errHiddenType, i.Name)
+			}
+
 			return i.Name, nil
 		}
 	}
-- 
2.43.0


From c9a20aef1fcbb3c85018bb23b61dc4823cc1cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 12/34] fix: upFirst, downFirst: keep invalid UTF-8; snake: no
 second underscore

upFirst and downFirst panicked on strings starting with an invalid byte. snake doubled
existing underscores, put underscores after punctuation and ignored case boundaries
of non-ASCII letters.
---
 cmd_generate.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 5ab5220..686b744 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/pkg/errors"
@@ -278,21 +279,23 @@ func init() {
 }
 
 func upFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToUpper(v)) + s[len(string(v)):]
+	v, size := utf8.DecodeRuneInString(s)
+	if v == utf8.RuneError {
+		return s
 	}
-	return ""
+	return string(unicode.ToUpper(v)) + s[size:]
 }
 
 func downFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToLower(v)) + s[len(string(v)):]
+	v, size := utf8.DecodeRuneInString(s)
+	if v == utf8.RuneError {
+		return s
 	}
-	return ""
+	return string(unicode.ToLower(v)) + s[size:]
 }
 
-var matchFirstCap = regexp.MustCompile("(.)([A-Z][a-z]+)")
-var matchAllCap = regexp.MustCompile("([a-z0-9])([A-Z])")
+var matchFirstCap = regexp.MustCompile(`([\p{Lu}\p{Ll}\p{Nd}])(\p{Lu}\p{Ll}+)`)
+var matchAllCap = regexp.MustCompile(`([\p{Ll}\p{Nd}])(\p{Lu})`)
 
 func toSnakeCase(str string) string {
 	result := matchFirstCap.ReplaceAllString(str, "${1}_${2}")
-- 
2.43.0


From 2b1831ca87c27aa8b71dea3309037547d0fdcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:38 +0000
Subject: [PATCH 13/34] fix: gowrap: usage instead of a panic for --; print
 error texts verbatim; exit 1 when the help cannot be written

---
 cmd/gowrap/gowrap.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index a59d991..bde1c44 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -19,13 +18,6 @@ func init() {
 }
 
 func main() {
-	if len(os.Args) < 2 {
-		if err := gowrap.Usage(os.Stderr); err != nil {
-			die(1, err.Error())
-		}
-		os.Exit(2)
-	}
-
 	flag.CommandLine.Usage = func() {
 		die(2, "Run 'gowrap help' for usage.")
 	}
@@ -33,9 +25,19 @@ func main() {
 	flag.Parse()
 	args := flag.Args()
 
+	if len(args) == 0 {
+		if err := gowrap.Usage(os.Stderr); err != nil {
+			die(1, "%s", err)
+		}
+		os.Exit(2)
+	}
+
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-			die(2, err.Error())
+			if _, ok := err.(gowrap.CommandLineError); ok {
+				die(2, "%s", err)
+			}
+			die(1, "%s", err)
 		}
 		return
 	}
@@ -49,7 +51,7 @@ func main() {
 		if _, ok := err.(gowrap.CommandLineError); ok {
 			die(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
 		}
-		die(1, err.Error())
+		die(1, "%s", err)
 	}
 }
 
@@ -62,7 +64,7 @@ func die(exitCode int, format string, args ...interface{}) {
 
 func help(args []string, w io.Writer) error {
 	if len(args) > 1 {
-		return errors.New("usage: gowrap help [command]\n\nToo many arguments given")
+		return gowrap.CommandLineError("usage: gowrap help [command]\n\nToo many arguments given")
 	}
 
 	if len(args) == 0 {
@@ -71,7 +73,7 @@ func help(args []string, w io.Writer) error {
 
 	command := gowrap.GetCommand(args[0])
 	if command == nil {
-		return fmt.Errorf("gowrap: unknown command %q\nRun 'gowrap help' for usage", args[0])
+		return gowrap.CommandLineError(fmt.Sprintf("gowrap: unknown command %q\nRun 'gowrap help' for usage", args[0]))
 	}
 
 	if _, err := fmt.Fprintf(w, "Usage: gowrap %s %s\n", args[0], command.UsageLine()); err != nil {
-- 
2.43.0


From d11591852d6509509b23f0340b057e9ea3690164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:38 +0000
Subject: [PATCH 14/34] fix: template list: report write errors

---
 cmd_template.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd_template.go b/cmd_template.go
index e67ddb8..862434a 100644
--- a/cmd_template.go
+++ b/cmd_template.go
@@ -72,9 +72,14 @@ func (gc *TemplateCommand) list(w io.Writer) error {
 		return errNoTemplatesFound
 	}
 
-	fmt.Fprintln(w, "List of available remote templates:")
+	if _, err := fmt.Fprintln(w, "List of available remote templates:"); err != nil {
+		return err
+	}
+
 	for _, t := range templates {
-		fmt.Fprintf(w, "  %s\n", t)
+		if _, err := fmt.Fprintf(w, "  %s\n", t); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From a094b430e8596e3167118300c9416acf62e02e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:55 +0000
Subject: [PATCH 15/34] fix: generator, printer: names that start with a title
 case letter are unexported

---
 generator/generator.go | 2 +-
 printer/printer.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 0085f1a..656c5bb 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -244,7 +244,7 @@ func NewGenerator(options Options) (*Generator, error) {
 	}
 
 	for _, m := range output.methods {
-		if srcPackageAST.Name != "" && []rune(m.Name)[0] == []rune(strings.ToLower(m.Name))[0] {
+		if srcPackageAST.Name != "" && !ast.IsExported(m.Name) {
 			return nil, errors.Wrap(errUnexportedMethod, m.Name)
 		}
 	}
diff --git a/printer/printer.go b/printer/printer.go
index 3e9fb9b..df90255 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -222,7 +222,7 @@ func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 				//destination file is in another package
 				//if the found type matches one of the types declared in a source package and
 				//this type is unexported
-				if []rune(ts.Name.Name)[0] == []rune(strings.ToLower(ts.Name.Name))[0] {
+				if !ts.Name.IsExported() {
 					return "", errors.Wrap(errUnexportedType, ts.Name.Name)
 				}
 				return p.typesPrefix + "." + i.Name, nil
-- 
2.43.0


From cc880422575247e07a9d48dc9f6669f8d134a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 16/34] fix: generator: ignore blank arguments of the import
 helper

---
 generator/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 656c5bb..31a7f2b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -55,12 +55,12 @@ func (t TemplateInputs) Import(imports ...string) string {
 	}
 
 	for _, i := range imports {
+		i = strings.TrimSpace(i)
+
 		if len(i) == 0 {
 			continue
 		}
 
-		i = strings.TrimSpace(i)
-
 		if i[len(i)-1] != '"' {
 			i += `"`
 		}
-- 
2.43.0


From c9c79d590d9b0e27eeab7fefca60c3beada60302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 17/34] fix: generator: list imports written as raw strings
 once

---
 generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 31a7f2b..51e4aea 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -279,7 +280,7 @@ func makeImports(imports []*ast.ImportSpec) []string {
 		if im.Name != nil {
 			name = im.Name.Name
 		}
-		result[i] = name + " " + im.Path.Value
+		result[i] = name + " " + strconv.Quote(unquote(im.Path.Value))
 	}
 
 	return result
-- 
2.43.0


From c0d7bf24929362af3bb21b3baeba5edcfa4e2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 18/34] fix: generator: group and deduplicate the imports of
 the header and the template together

---
 generator/generator.go |  5 ++++
 generator/imports.go   | 53 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 51e4aea..3c22aed 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -346,6 +346,11 @@ func (g Generator) Generate(w io.Writer) error {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
 
+	processedSource, err = regroupImports(g.Options.OutputFile, processedSource, g.localPrefix != "")
+	if err != nil {
+		return errors.Wrap(err, "failed to group imports")
+	}
+
 	_, err = w.Write(processedSource)
 	return err
 }
diff --git a/generator/imports.go b/generator/imports.go
index 6428ee5..6ea4fbd 100644
--- a/generator/imports.go
+++ b/generator/imports.go
@@ -1,7 +1,9 @@
 package generator
 
 import (
+	"bytes"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"path"
 	"sort"
@@ -9,6 +11,7 @@ import (
 
 	"github.com/pkg/errors"
 	"golang.org/x/tools/go/packages"
+	"golang.org/x/tools/imports"
 
 	"github.com/hexdigest/gowrap/pkg"
 )
@@ -176,3 +179,53 @@ func packageImport(p *packages.Package) *ast.ImportSpec {
 
 	return spec
 }
+
+// regroupImports sorts the imports of the header and of the template as one group when it is requested or when
+// there are duplicates, otherwise imports that were sorted separately may be repeated and the ones with the
+// local prefix may be followed by others
+func regroupImports(fileName string, source []byte, force bool) ([]byte, error) {
+	fset := token.NewFileSet()
+	f, err := parser.ParseFile(fset, fileName, source, parser.ImportsOnly|parser.ParseComments)
+	if err != nil {
+		return nil, err
+	}
+
+	if !force && !hasDuplicates(f.Imports) {
+		return source, nil
+	}
+
+	for _, decl := range f.Decls {
+		if gd, ok := decl.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && gd.Lparen.IsValid() {
+			start, end := fset.Position(gd.Lparen).Offset, fset.Position(gd.Rparen).Offset
+
+			result := append([]byte{}, source[:start]...)
+			for _, line := range bytes.SplitAfter(source[start:end], []byte("\n")) {
+				if len(bytes.TrimSpace(line)) > 0 {
+					result = append(result, line...)
+				}
+			}
+			result = append(result, source[end:]...)
+
+			return imports.Process(fileName, result, &imports.Options{Comments: true, TabIndent: true, TabWidth: 8, FormatOnly: true})
+		}
+	}
+
+	return source, nil
+}
+
+func hasDuplicates(specs []*ast.ImportSpec) bool {
+	seen := map[string]bool{}
+	for _, spec := range specs {
+		key := spec.Path.Value
+		if spec.Name != nil {
+			key = spec.Name.Name + " " + key
+		}
+
+		if seen[key] {
+			return true
+		}
+		seen[key] = true
+	}
+
+	return false
+}
-- 
2.43.0


From 5601a688458e9d49e09cc0ae398dc149c46b3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 19/34] fix: gen: quote go:generate arguments; keep http://
 template URLs

---
 cmd_generate.go | 50 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 686b744..891843f 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
@@ -131,8 +132,9 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 		HeaderTemplate: headerTemplate,
 		HeaderVars: map[string]interface{}{
 			"DisableGoGenerate": gc.noGenerate,
-			"OutputFileName":    filepath.Base(gc.outputFile),
+			"OutputFileName":    generateArg(filepath.Base(gc.outputFile)),
 			"VarsArgs":          varsToArgs(gc.vars),
+			"LocalPrefix":       quoteGenerateArg(gc.localPrefix),
 		},
 		Vars:        gc.vars.toMap(),
 		LocalPrefix: gc.localPrefix,
@@ -154,7 +156,11 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 
 	options.SourcePackage = sourcePackage.PkgPath
 	options.SourcePackageInstance = sourcePackage // Pass the loaded package
-	options.BodyTemplate, options.HeaderVars["Template"], err = gc.loadTemplate(outputFileDir)
+
+	body, url, err := gc.loadTemplate(outputFileDir)
+	options.BodyTemplate = body
+	options.HeaderVars["Template"] = commentText(url)
+	options.HeaderVars["TemplateArg"] = generateArg(url)
 
 	return &options, err
 }
@@ -172,7 +178,7 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 		return "", "", errors.Wrap(err, "failed to load template")
 	}
 
-	if !strings.HasPrefix(url, "https://") {
+	if !strings.HasPrefix(url, "https://") && !strings.HasPrefix(url, "http://") {
 		templatePath, err := gc.filepath.Abs(url)
 		if err != nil {
 			return "", "", err
@@ -256,15 +262,47 @@ func varsToArgs(v vars) string {
 	for _, vf := range v {
 		switch typedValue := vf.value.(type) {
 		case string:
-			ss = append(ss, vf.name+"="+typedValue)
+			ss = append(ss, generateArg(vf.name+"="+typedValue))
 		case bool:
-			ss = append(ss, vf.name)
+			ss = append(ss, generateArg(vf.name))
 		}
 	}
 
 	return " -v " + strings.Join(ss, " -v ")
 }
 
+// generateArg returns s written as a single word of go:generate directive
+func generateArg(s string) string {
+	if s == "" || s[0] == '"' || !isPlain(s) || strings.Contains(s, " ") {
+		return quoteGenerateArg(s)
+	}
+
+	return escapeDollars(s)
+}
+
+// quoteGenerateArg returns s written as a quoted word of go:generate directive
+func quoteGenerateArg(s string) string {
+	return escapeDollars(strconv.Quote(s))
+}
+
+// escapeDollars prevents go generate from expanding environment variables
+func escapeDollars(s string) string {
+	return strings.ReplaceAll(s, "$", "${DOLLAR}")
+}
+
+// commentText returns s in the form that doesn't break a line comment
+func commentText(s string) string {
+	if isPlain(s) {
+		return s
+	}
+
+	return strconv.Quote(s)
+}
+
+func isPlain(s string) bool {
+	return utf8.ValidString(s) && strings.IndexFunc(s, func(r rune) bool { return !unicode.IsPrint(r) }) < 0
+}
+
 var helperFuncs template.FuncMap
 
 func init() {
@@ -310,7 +348,7 @@ const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
 package {{.Package.Name}}
 
 {{if (not .Options.HeaderVars.DisableGoGenerate)}}
-//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.Template}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
+//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.TemplateArg}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l {{.Options.HeaderVars.LocalPrefix}}
 {{end}}
 import(
 {{range $import := .Options.Imports}}{{$import}}
-- 
2.43.0


From 66e64c4c1cfefb169b95aa89a1a3c34dc98e67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 20/34] fix: generator: name the destination package after the
 working directory too

---
 generator/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 3c22aed..9106636 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -299,7 +299,13 @@ func loadDestinationPackage(path string) (*packages.Package, error) {
 var errNoPackageName = errors.New("failed to determine the destination package name")
 
 func makePackage(path string) (*packages.Package, error) {
-	name := filepath.Base(path)
+	//the working directory has a name too
+	absPath, err := filepath.Abs(path)
+	if err != nil {
+		return nil, err
+	}
+
+	name := filepath.Base(absPath)
 	if name == string(filepath.Separator) || name == "." {
 		return nil, errNoPackageName
 	}
-- 
2.43.0


From fe23afe04dee66b195b4f2152bd18a0c563a57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 21/34] fix: gen, template copy: leave the output as it was
 when writing fails

---
 cmd_generate.go |  2 +-
 cmd_template.go |  2 +-
 write_file.go   | 59 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 61 insertions(+), 2 deletions(-)
 create mode 100644 write_file.go

diff --git a/cmd_generate.go b/cmd_generate.go
index 891843f..a5e8817 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -45,7 +45,7 @@ func NewGenerateCommand(l remoteTemplateLoader) *GenerateCommand {
 			Rel:       filepath.Rel,
 			Abs:       filepath.Abs,
 			Dir:       filepath.Dir,
-			WriteFile: os.WriteFile,
+			WriteFile: writeFile,
 		},
 	}
 
diff --git a/cmd_template.go b/cmd_template.go
index 862434a..fc0aa71 100644
--- a/cmd_template.go
+++ b/cmd_template.go
@@ -55,7 +55,7 @@ func (gc *TemplateCommand) Run(args []string, w io.Writer) error {
 	case "list":
 		return gc.list(w)
 	case "copy":
-		return gc.fetch(w, os.WriteFile, args[1:])
+		return gc.fetch(w, writeFile, args[1:])
 	}
 	return errUnknownSubcommand
 }
diff --git a/write_file.go b/write_file.go
new file mode 100644
index 0000000..3eda3e0
--- /dev/null
+++ b/write_file.go
@@ -0,0 +1,59 @@
+package gowrap
+
+import (
+	"os"
+	"path/filepath"
+	"strconv"
+)
+
+// writeFile does the same as os.WriteFile but if it fails the named file is left as it was
+func writeFile(name string, data []byte, perm os.FileMode) error {
+	path := name
+	if resolved, err := filepath.EvalSymlinks(name); err == nil {
+		path = resolved
+	}
+
+	fi, err := os.Lstat(path)
+	exists := err == nil
+	if exists {
+		if !fi.Mode().IsRegular() {
+			return os.WriteFile(name, data, perm)
+		}
+
+		//it has to be writable though it's going to be replaced
+		f, err := os.OpenFile(path, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		f.Close()
+	}
+
+	tmpPath := filepath.Join(filepath.Dir(path), ".gowrap"+strconv.Itoa(os.Getpid())+".tmp")
+
+	tmp, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		if exists && !os.IsPermission(err) {
+			return err
+		}
+		return os.WriteFile(name, data, perm)
+	}
+
+	_, err = tmp.Write(data)
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil && exists {
+		err = os.Chmod(tmpPath, fi.Mode().Perm())
+	}
+
+	if err == nil {
+		err = os.Rename(tmpPath, path)
+	}
+
+	if err != nil {
+		os.Remove(tmpPath)
+	}
+
+	return err
+}
-- 
2.43.0


From 0363c4afa81f4e95c9799657d66d0c1787f6160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 22/34] fix: loader: return no contents along with an error

---
 loader/loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader/loader.go b/loader/loader.go
index 71c735e..59ce1c8 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -108,6 +108,9 @@ func (l Loader) get(url string) (b []byte, err error) {
 		if closeErr := resp.Body.Close(); closeErr != nil {
 			err = closeErr
 		}
+		if err != nil {
+			b = b[:0]
+		}
 	}()
 
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From ef6f0c5506d24b451e53f9f5d91fb9bc1142efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 23/34] fix: loader: don't fetch a template when its commit is
 unknown

---
 loader/loader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loader/loader.go b/loader/loader.go
index 59ce1c8..d3b47ce 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -146,6 +146,10 @@ func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
 		return nil, "", errTemplateNotFound
 	}
 
+	if commits[0].SHA == "" {
+		return nil, "", errors.New("failed to decode commit info: no SHA")
+	}
+
 	url := fmt.Sprintf(urlFormatRaw, commits[0].SHA, templateName)
 
 	contents, err := l.get(url)
-- 
2.43.0


From c9138f8ebd1cbb07ea014716de06ecfc12fcaa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 24/34] fix: loader: escape names of hosted templates in URLs

---
 loader/loader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index d3b47ce..9bd21df 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	neturl "net/url"
 	"os"
 	"path/filepath"
 	"strings"
@@ -132,7 +133,7 @@ func (l Loader) absGitPath(path string) (string, error) {
 var errTemplateNotFound = errors.New("remote template not found")
 
 func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
-	body, err := l.get(fmt.Sprintf(urlFormatCommits, templateName))
+	body, err := l.get(fmt.Sprintf(urlFormatCommits, neturl.QueryEscape(templateName)))
 	if err != nil {
 		return nil, "", err
 	}
@@ -150,7 +151,7 @@ func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
 		return nil, "", errors.New("failed to decode commit info: no SHA")
 	}
 
-	url := fmt.Sprintf(urlFormatRaw, commits[0].SHA, templateName)
+	url := fmt.Sprintf(urlFormatRaw, commits[0].SHA, (&neturl.URL{Path: templateName}).EscapedPath())
 
 	contents, err := l.get(url)
 	if err != nil {
-- 
2.43.0


From 5125d5e3e004bc13cf2741cf691e212e58ba78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 25/34] fix: loader: keep spaces at the end of the git root's
 name

---
 loader/gitpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/gitpath.go b/loader/gitpath.go
index f63c1e2..d380a77 100644
--- a/loader/gitpath.go
+++ b/loader/gitpath.go
@@ -11,5 +11,5 @@ func gitRootPath() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(path)), nil
+	return strings.TrimSuffix(string(path), "\n"), nil
 }
-- 
2.43.0


From 76e6dbdddd3203e9a457ad36882773c846f8c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 26/34] fix: templates: import packages under names that cannot
 clash with the source's

The hosted templates imported time, errors, context and others under their
plain names; a parameter, an import alias or a source package of that name made
the generated file uncompilable. Same for a few local names of the templates.
---
 templates/circuitbreaker | 22 +++++++++++-----------
 templates/elasticapm     | 31 ++++++++++++++++---------------
 templates/fallback       | 25 +++++++++++++------------
 templates/grpc_validate  |  6 +++---
 templates/log            | 12 ++++++------
 templates/logrus         | 15 +++++++--------
 templates/opencensus     | 14 +++++++-------
 templates/opentelemetry  | 20 +++++++++-----------
 templates/opentracing    | 12 ++++++------
 templates/prometheus     | 16 ++++++++--------
 templates/ratelimit      | 12 ++++++------
 templates/retry          |  8 ++++----
 templates/robinpool      |  8 ++++----
 templates/timeout        | 12 ++++++------
 templates/twirp_error    | 14 ++++++++------
 templates/twirp_validate |  4 ++--
 16 files changed, 116 insertions(+), 115 deletions(-)

diff --git a/templates/circuitbreaker b/templates/circuitbreaker
index 9a0f153..51798e4 100644
--- a/templates/circuitbreaker
+++ b/templates/circuitbreaker
@@ -1,7 +1,7 @@
 import (
-	"errors"
-	"sync"
-	"time"
+  _errors "errors"
+  _sync "sync"
+  _time "time"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithCircuitBreaker" .Interface.Name)) }}
@@ -10,17 +10,17 @@ import (
 type {{$decorator}} struct {
   {{.Interface.Type}}
 
-  _lock sync.RWMutex
+  _lock _sync.RWMutex
   _maxConsecutiveErrors int
   _consecutiveErrors int
-  _openInterval time.Duration
-  _closesAt *time.Time
+  _openInterval _time.Duration
+  _closesAt *_time.Time
   _ignoreErrors []error
 }
 
 // New{{$decorator}} breakes a circuit after consecutiveErrors of errors and closes the circuit again after openInterval of time.
 // If, after openInterval, the first method call results in error we open and close again.
-func New{{$decorator}}(base {{.Interface.Type}}, consecutiveErrors int, openInterval time.Duration, ignoreErrors ...error) (*{{$decorator}}) {
+func New{{$decorator}}(base {{.Interface.Type}}, consecutiveErrors int, openInterval _time.Duration, ignoreErrors ...error) (*{{$decorator}}) {
   return &{{$decorator}}{
     {{.Interface.Name}}: base, 
     _maxConsecutiveErrors: consecutiveErrors,
@@ -35,9 +35,9 @@ func New{{$decorator}}(base {{.Interface.Type}}, consecutiveErrors int, openInte
     func (_d *{{$decorator}}) {{$method.Declaration}} {
       _d._lock.RLock()
 
-      if _d._closesAt != nil && _d._closesAt.After(time.Now()) {
+      if _d._closesAt != nil && _d._closesAt.After(_time.Now()) {
         _d._lock.RUnlock()
-        err = errors.New("{{$decorator}}: circuit is open")
+        err = _errors.New("{{$decorator}}: circuit is open")
         return
       }
       _d._lock.RUnlock()
@@ -53,7 +53,7 @@ func New{{$decorator}}(base {{.Interface.Type}}, consecutiveErrors int, openInte
       }
 
       for _, _e := range _d._ignoreErrors {
-        if errors.Is(err, _e) {
+        if _errors.Is(err, _e) {
           _d._consecutiveErrors = 0
           _d._closesAt = nil
           return
@@ -63,7 +63,7 @@ func New{{$decorator}}(base {{.Interface.Type}}, consecutiveErrors int, openInte
       _d._consecutiveErrors++
 
       if _d._consecutiveErrors >= _d._maxConsecutiveErrors {
-        closesAt := time.Now().Add(_d._openInterval)
+        closesAt := _time.Now().Add(_d._openInterval)
         _d._closesAt = &closesAt
       }
 
diff --git a/templates/elasticapm b/templates/elasticapm
index 3e043f7..3f3227f 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -1,6 +1,7 @@
 import (
-	"context"
-	"go.elastic.co/apm/v2"
+  _context "context"
+
+  _apm "go.elastic.co/apm/v2"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
@@ -11,10 +12,10 @@ import (
 // with go.elastic.co/apm/v2
 type {{$decorator}} struct {
     base         {{.Interface.Type}}
-	startSpan    func(ctx context.Context, name, spanType string) (*apm.Span, context.Context)
-	endSpan      func(span *apm.Span)
-	setLabel 	 func(span *apm.Span, key string, value interface{})
-	captureError func(ctx context.Context, err error)
+	startSpan    func(ctx _context.Context, name, spanType string) (*_apm.Span, _context.Context)
+	endSpan      func(span *_apm.Span)
+	setLabel 	 func(span *_apm.Span, key string, value interface{})
+	captureError func(ctx _context.Context, err error)
 	spanType     string
 }
 
@@ -22,7 +23,7 @@ type {{$decorator_option}} func (v *{{$decorator}})
 
 func {{$decorator}}WithUsingSetLabel() {{$decorator_option}} {
 	return func(v *{{$decorator}}) {
-		v.setLabel = func(span *apm.Span, key string, value interface{}) {
+		v.setLabel = func(span *_apm.Span, key string, value interface{}) {
 			span.SpanData.Context.SetLabel(key, value)
 		}
 	}
@@ -38,14 +39,14 @@ func {{$decorator}}WithSpanType(spanType string) {{$decorator_option}} {
 func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {{$decorator}} {
     r := {{$decorator}} {
         base: base,
-  		startSpan: apm.StartSpan,
-  		endSpan: func(span *apm.Span) {
+  		startSpan: _apm.StartSpan,
+  		endSpan: func(span *_apm.Span) {
   		    span.End()
   		},
-  		setLabel: func(span *apm.Span, key string, value interface{}) {
+  		setLabel: func(span *_apm.Span, key string, value interface{}) {
         },
-  		captureError: func(ctx context.Context, err error) {
-  			apm.CaptureError(ctx, err).Send()
+  		captureError: func(ctx _context.Context, err error) {
+  			_apm.CaptureError(ctx, err).Send()
   		},
   		spanType: "{{ $component }}",
     }
@@ -62,18 +63,18 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
         {{- if $method.AcceptsContext }}
-            span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
+            _span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
             defer func() {
                 {{- if $method.ReturnsError -}}
                     if err != nil {
                         _d.captureError(ctx, err)
                     }
                 {{- end }}
-                _d.endSpan(span)
+                _d.endSpan(_span)
             }()
             {{- range $param := $method.Params -}}
                 {{- if not (eq $param.Name "ctx") -}}
-                    _d.setLabel(span, "{{ (snake $param.Name) }}", {{ $param.Name }})
+                    _d.setLabel(_span, "{{ (snake $param.Name) }}", {{ $param.Name }})
                 {{- end}}
             {{ end }}
         {{ end }}
diff --git a/templates/fallback b/templates/fallback
index ce0cea3..46ca29f 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -1,8 +1,9 @@
 import (
-	"errors"
-	"fmt"
-	"strings"
-	"time"
+  _context "context"
+  _errors "errors"
+  _fmt "fmt"
+  _strings "strings"
+  _time "time"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithFallback" .Interface.Name)) }}
@@ -10,12 +11,12 @@ import (
 // {{$decorator}} implements {{.Interface.Type}} interface wrapped with Prometheus metrics
 type {{$decorator}} struct {
   implementations []{{.Interface.Type}}
-  interval time.Duration
+  interval _time.Duration
 }
 
 // New{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of {{.Interface.Type}}
 // which calls all implementations concurrently with given interval and returns first non-error response.
-func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$decorator}} {
+func New{{$decorator}}(interval _time.Duration, impls ...{{.Interface.Type}}) {{$decorator}} {
   return {{$decorator}}{implementations: impls, interval: interval}
 }
 
@@ -26,13 +27,13 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
       var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
-      var _ticker = time.NewTicker(_d.interval)
+      var _ticker = _time.NewTicker(_d.interval)
       defer _ticker.Stop()
       var _done = make(chan struct{})
       defer close(_done)
 
       {{- if $method.AcceptsContext}}
-        ctx, _cancelFunc := context.WithCancel(ctx)
+        ctx, _cancelFunc := _context.WithCancel(ctx)
         defer _cancelFunc()
       {{end}}
 
@@ -42,7 +43,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             {{if $method.HasResults}}{{$method.ResultsNames}} := {{end}}_impl.{{$method.Call}}
             {{- if $method.ReturnsError}}
               if err != nil {
-                err = fmt.Errorf("%T: %v", _impl, err)
+                err = _fmt.Errorf("%T: %v", _impl, err)
               }
             {{end}}
 
@@ -81,7 +82,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
                   _next <- struct{}{}
                   _errorsList = append(_errorsList, _res.err.Error())
                   if len(_errorsList) == len(_d.implementations) {
-                    err =  errors.New(strings.Join(_errorsList, ";"))
+                    err =  _errors.New(_strings.Join(_errorsList, ";"))
                     return
                   }
                 {{else}}
@@ -89,7 +90,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
                 {{end -}}
               {{if $method.AcceptsContext}}case <-ctx.Done():
                 {{if $method.ReturnsError}}
-                  err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
+                  err = _fmt.Errorf("%w: %s", ctx.Err(), _strings.Join(_errorsList, ";"))
                 {{end}}
                 return
               {{end -}}
@@ -104,7 +105,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             _next <- struct{}{}
             _errorsList = append(_errorsList, _res.err.Error())
             if len(_errorsList) == len(_d.implementations) {
-              err = errors.New(strings.Join(_errorsList, ";"))
+              err = _errors.New(_strings.Join(_errorsList, ";"))
               return
             }
           }
diff --git a/templates/grpc_validate b/templates/grpc_validate
index 27ce5de..f17f3cf 100644
--- a/templates/grpc_validate
+++ b/templates/grpc_validate
@@ -1,6 +1,6 @@
 import (
-  grpc_codes "google.golang.org/grpc/codes"
-  grpc_status "google.golang.org/grpc/status"
+  _codes "google.golang.org/grpc/codes"
+  _status "google.golang.org/grpc/status"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithGRPCValidation" .Interface.Name)) }}
@@ -25,7 +25,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
       {{- if not ( and $method.AcceptsContext (eq $param.Name "ctx")) -}}
         if _v, _ok := interface{}({{$param.Name}}).(interface{ Validate() error}); _ok {
           if err = _v.Validate(); err != nil {
-            err = grpc_status.Error(grpc_codes.InvalidArgument, err.Error())
+            err = _status.Error(_codes.InvalidArgument, err.Error())
             return
           }
         }
diff --git a/templates/log b/templates/log
index e882fab..208f912 100644
--- a/templates/log
+++ b/templates/log
@@ -1,22 +1,22 @@
 import (
-  "io"
-  "log"
+  _io "io"
+  _log "log"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithLog" .Interface.Name)) }}
 
 // {{$decorator}} implements {{.Interface.Type}} that is instrumented with logging
 type {{$decorator}} struct {
-  _stdlog, _errlog *log.Logger
+  _stdlog, _errlog *_log.Logger
   _base {{.Interface.Type}}
 }
 
 // New{{$decorator}} instruments an implementation of the {{.Interface.Type}} with simple logging
-func New{{$decorator}}(base {{.Interface.Type}}, stdout, stderr io.Writer) {{$decorator}} {
+func New{{$decorator}}(base {{.Interface.Type}}, stdout, stderr _io.Writer) {{$decorator}} {
   return {{$decorator}}{
     _base: base, 
-    _stdlog: log.New(stdout, "", log.LstdFlags),
-    _errlog: log.New(stderr, "", log.LstdFlags),
+    _stdlog: _log.New(stdout, "", _log.LstdFlags),
+    _errlog: _log.New(stderr, "", _log.LstdFlags),
   }
 }
 
diff --git a/templates/logrus b/templates/logrus
index d37e139..77c9863 100644
--- a/templates/logrus
+++ b/templates/logrus
@@ -1,18 +1,17 @@
 import (
-  "io"
-  "github.com/sirupsen/logrus"
+  _logrus "github.com/sirupsen/logrus"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithLogrus" .Interface.Name)) }}
 
 // {{$decorator}} implements {{.Interface.Type}} that is instrumented with logrus logger
 type {{$decorator}} struct {
-  _log *logrus.Entry
+  _log *_logrus.Entry
   _base {{.Interface.Type}}
 }
 
 // New{{$decorator}} instruments an implementation of the {{.Interface.Type}} with simple logging
-func New{{$decorator}}(base {{.Interface.Type}}, log *logrus.Entry) {{$decorator}} {
+func New{{$decorator}}(base {{.Interface.Type}}, log *_logrus.Entry) {{$decorator}} {
   return {{$decorator}}{
     _base: base,
     _log: log,
@@ -23,7 +22,7 @@ func New{{$decorator}}(base {{.Interface.Type}}, log *logrus.Entry) {{$decorator
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       {{- if $method.HasParams}}
-        _d._log.WithFields(logrus.Fields({{$method.ParamsMap}})).Debug("{{$decorator}}: calling {{$method.Name}}")
+        _d._log.WithFields(_logrus.Fields({{$method.ParamsMap}})).Debug("{{$decorator}}: calling {{$method.Name}}")
       {{else}}
         _d._log.Debug("{{$decorator}}: calling {{$method.Name}}")
       {{end -}}
@@ -31,12 +30,12 @@ func New{{$decorator}}(base {{.Interface.Type}}, log *logrus.Entry) {{$decorator
         {{- if $method.HasResults}}
           {{- if $method.ReturnsError}}
             if err != nil {
-              _d._log.WithFields(logrus.Fields({{$method.ResultsMap}})).Error("{{$decorator}}: method {{$method.Name}} returned an error" )
+              _d._log.WithFields(_logrus.Fields({{$method.ResultsMap}})).Error("{{$decorator}}: method {{$method.Name}} returned an error" )
             } else {
-              _d._log.WithFields(logrus.Fields({{$method.ResultsMap}})).Debug("{{$decorator}}: method {{$method.Name}} finished")
+              _d._log.WithFields(_logrus.Fields({{$method.ResultsMap}})).Debug("{{$decorator}}: method {{$method.Name}} finished")
             }
           {{else}}
-            _d._log.WithFields(logrus.Fields({{$method.ResultsMap}})).Debug("{{$decorator}}: method {{$method.Name}} finished")
+            _d._log.WithFields(_logrus.Fields({{$method.ResultsMap}})).Debug("{{$decorator}}: method {{$method.Name}} finished")
           {{end -}}
         {{else}}
           _d._log.Debug("{{$decorator}}: {{$method.Name}} finished")
diff --git a/templates/opencensus b/templates/opencensus
index 3115d48..eb8a8ee 100644
--- a/templates/opencensus
+++ b/templates/opencensus
@@ -1,5 +1,5 @@
 import (
-	"go.opencensus.io/trace"
+  _trace "go.opencensus.io/trace"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithTracing" .Interface.Name)) }}
@@ -8,11 +8,11 @@ import (
 type {{$decorator}} struct {
   {{.Interface.Type}}
   _instance string
-  _spanDecorator func(span *trace.Span, params, results map[string]interface{})
+  _spanDecorator func(span *_trace.Span, params, results map[string]interface{})
 }
 
 // New{{$decorator}} returns {{$decorator}}
-func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator ...func(span *trace.Span, params, results map[string]interface{})) {{$decorator}} {
+func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator ...func(span *_trace.Span, params, results map[string]interface{})) {{$decorator}} {
   d := {{$decorator}} {
     {{.Interface.Name}}: base,
     _instance: instance,
@@ -29,15 +29,15 @@ func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator
   {{if $method.AcceptsContext}}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
-      ctx, _span := trace.StartSpan(ctx, _d._instance + ".{{$.Interface.Type}}.{{$method.Name}}")
+      ctx, _span := _trace.StartSpan(ctx, _d._instance + ".{{$.Interface.Type}}.{{$method.Name}}")
       defer func() { 
         if _d._spanDecorator != nil {
           _d._spanDecorator(_span, {{$method.ParamsMap}}, {{$method.ResultsMap}})
         }{{- if $method.ReturnsError}} else if err != nil {
           _span.AddAttributes(
-            trace.BoolAttribute("error", true),
-            trace.StringAttribute("event", "error"),
-            trace.StringAttribute("message", err.Error()),
+            _trace.BoolAttribute("error", true),
+            _trace.StringAttribute("event", "error"),
+            _trace.StringAttribute("message", err.Error()),
           )
         }
         {{end}}
diff --git a/templates/opentelemetry b/templates/opentelemetry
index 142330a..14153a1 100644
--- a/templates/opentelemetry
+++ b/templates/opentelemetry
@@ -1,10 +1,8 @@
 import (
-    "context"
-
-    _codes "go.opentelemetry.io/otel/codes"
-    "go.opentelemetry.io/otel"
-    "go.opentelemetry.io/otel/attribute"
-    "go.opentelemetry.io/otel/trace"
+  _otel "go.opentelemetry.io/otel"
+  _attribute "go.opentelemetry.io/otel/attribute"
+  _codes "go.opentelemetry.io/otel/codes"
+  _trace "go.opentelemetry.io/otel/trace"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithTracing" .Interface.Name)) }}
@@ -14,11 +12,11 @@ import (
 type {{$decorator}} struct {
   {{.Interface.Type}}
   _instance string
-  _spanDecorator func(span trace.Span, params, results map[string]interface{})
+  _spanDecorator func(span _trace.Span, params, results map[string]interface{})
 }
 
 // New{{$decorator}} returns {{$decorator}}
-func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator ...func(span trace.Span, params, results map[string]interface{})) {{$decorator}} {
+func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator ...func(span _trace.Span, params, results map[string]interface{})) {{$decorator}} {
   d := {{$decorator}} {
     {{.Interface.Name}}: base,
     _instance: instance,
@@ -35,7 +33,7 @@ func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator
   {{if $method.AcceptsContext}}
     // {{$method.Name}} implements {{$.Interface.Name}}
 func (_d {{$decorator}}) {{$method.Declaration}} {
-  ctx, _span := otel.Tracer(_d._instance).Start(ctx, "{{$spanNameType}}.{{$method.Name}}")
+  ctx, _span := _otel.Tracer(_d._instance).Start(ctx, "{{$spanNameType}}.{{$method.Name}}")
   defer func() {
     if _d._spanDecorator != nil {
       _d._spanDecorator(_span, {{$method.ParamsMap}}, {{$method.ResultsMap}})
@@ -43,8 +41,8 @@ func (_d {{$decorator}}) {{$method.Declaration}} {
       _span.RecordError(err)
       _span.SetStatus(_codes.Error, err.Error())
       _span.SetAttributes(
-        attribute.String("event", "error"),
-        attribute.String("message", err.Error()),
+        _attribute.String("event", "error"),
+        _attribute.String("message", err.Error()),
       )
     }
     {{end}}
diff --git a/templates/opentracing b/templates/opentracing
index c451ab8..0c73f24 100644
--- a/templates/opentracing
+++ b/templates/opentracing
@@ -1,7 +1,7 @@
 import (
-	opentracing "github.com/opentracing/opentracing-go"
-	_ext "github.com/opentracing/opentracing-go/ext"
-	_log "github.com/opentracing/opentracing-go/log"
+  _opentracing "github.com/opentracing/opentracing-go"
+  _ext "github.com/opentracing/opentracing-go/ext"
+  _log "github.com/opentracing/opentracing-go/log"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithTracing" .Interface.Name)) }}
@@ -10,11 +10,11 @@ import (
 type {{$decorator}} struct {
   {{.Interface.Type}}
   _instance string
-  _spanDecorator func(span opentracing.Span, params, results map[string]interface{})
+  _spanDecorator func(span _opentracing.Span, params, results map[string]interface{})
 }
 
 // New{{$decorator}} returns {{$decorator}}
-func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator ...func(span opentracing.Span, params, results map[string]interface{})) {{$decorator}} {
+func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator ...func(span _opentracing.Span, params, results map[string]interface{})) {{$decorator}} {
   d := {{$decorator}} {
     {{.Interface.Name}}: base,
     _instance: instance,
@@ -31,7 +31,7 @@ func New{{$decorator}} (base {{.Interface.Type}}, instance string, spanDecorator
   {{if $method.AcceptsContext}}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
-      _span, ctx := opentracing.StartSpanFromContext(ctx, _d._instance + ".{{$.Interface.Type}}.{{$method.Name}}")
+      _span, ctx := _opentracing.StartSpanFromContext(ctx, _d._instance + ".{{$.Interface.Type}}.{{$method.Name}}")
       defer func() { 
         if _d._spanDecorator != nil {
           _d._spanDecorator(_span, {{$method.ParamsMap}}, {{$method.ResultsMap}})
diff --git a/templates/prometheus b/templates/prometheus
index 9787d80..70248ea 100644
--- a/templates/prometheus
+++ b/templates/prometheus
@@ -1,8 +1,8 @@
 import (
-  "time"
+  _time "time"
 
-  "github.com/prometheus/client_golang/prometheus"
-  "github.com/prometheus/client_golang/prometheus/promauto"
+  _prometheus "github.com/prometheus/client_golang/prometheus"
+  _promauto "github.com/prometheus/client_golang/prometheus/promauto"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithPrometheus" .Interface.Name)) }}
@@ -15,11 +15,11 @@ type {{$decorator}} struct {
   instanceName string
 }
 
-var {{down .Interface.Name}}DurationSummaryVec = promauto.NewSummaryVec(
-  prometheus.SummaryOpts{
+var {{down .Interface.Name}}DurationSummaryVec = _promauto.NewSummaryVec(
+  _prometheus.SummaryOpts{
     Name: "{{$metric_name}}",
     Help: "{{ down .Interface.Name }} runtime duration and result",
-    MaxAge: time.Minute,
+    MaxAge: _time.Minute,
     Objectives: map[float64]float64{0.5: 0.05, 0.9: 0.01, 0.99: 0.001},
   },
   []string{"instance_name", "method", "result"})
@@ -35,7 +35,7 @@ func New{{$decorator}}(base {{.Interface.Type}}, instanceName string) {{$decorat
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
-      _since := time.Now()
+      _since := _time.Now()
       defer func() {
         result := "ok"
         {{- if $method.ReturnsError}}
@@ -43,7 +43,7 @@ func New{{$decorator}}(base {{.Interface.Type}}, instanceName string) {{$decorat
             result = "error"
           }
         {{end}}
-        {{down $.Interface.Name}}DurationSummaryVec.WithLabelValues(_d.instanceName, "{{$method.Name}}", result).Observe(time.Since(_since).Seconds())
+        {{down $.Interface.Name}}DurationSummaryVec.WithLabelValues(_d.instanceName, "{{$method.Name}}", result).Observe(_time.Since(_since).Seconds())
       }()
     {{$method.Pass "_d.base."}}
   }
diff --git a/templates/ratelimit b/templates/ratelimit
index 9967fdf..99cd7bd 100644
--- a/templates/ratelimit
+++ b/templates/ratelimit
@@ -1,31 +1,31 @@
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithRateLimit" .Interface.Name)) }}
 
 import (
-  "time"
+  _time "time"
 )
 
 // {{$decorator}} implements {{.Interface.Type}}
 type {{$decorator}} struct {
   _base {{.Interface.Type}}
-  _ticks chan time.Time
+  _ticks chan _time.Time
 }
 
 // New{{$decorator}} instruments an implementation of the {{.Interface.Type}} with rate limiting
 func New{{$decorator}}(base {{.Interface.Type}}, burst int, rps float64) *{{$decorator}} {
   d := &{{$decorator}}{
     _base: base,
-    _ticks: make(chan time.Time, burst),
+    _ticks: make(chan _time.Time, burst),
   }
 
-  now := time.Now()
+  now := _time.Now()
   for i := 0; i < burst; i++ {
     d._ticks <- now 
   }
 
-  delay := time.Duration(float64(time.Second) / rps)
+  delay := _time.Duration(float64(_time.Second) / rps)
 
   go func() {
-    for t := range time.Tick(delay) {
+    for t := range _time.Tick(delay) {
       d._ticks <- t
     }
   }()
diff --git a/templates/retry b/templates/retry
index bec64cf..af6323b 100644
--- a/templates/retry
+++ b/templates/retry
@@ -1,5 +1,5 @@
 import(
-  "time"
+  _time "time"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithRetry" .Interface.Name)) }}
@@ -8,11 +8,11 @@ import(
 type {{$decorator}} struct {
   {{.Interface.Type}}
   _retryCount int
-  _retryInterval time.Duration
+  _retryInterval _time.Duration
 }
 
 // New{{$decorator}} returns {{$decorator}}
-func New{{$decorator}} (base {{.Interface.Type}}, retryCount int, retryInterval time.Duration) {{$decorator}} {
+func New{{$decorator}} (base {{.Interface.Type}}, retryCount int, retryInterval _time.Duration) {{$decorator}} {
   return {{$decorator}} {
     {{.Interface.Name}}: base,
     _retryCount: retryCount,
@@ -28,7 +28,7 @@ func New{{$decorator}} (base {{.Interface.Type}}, retryCount int, retryInterval
       if err == nil || _d._retryCount < 1 {
         return
       }
-      _ticker:= time.NewTicker(_d._retryInterval)
+      _ticker:= _time.NewTicker(_d._retryInterval)
       defer _ticker.Stop()
       for _i := 0; _i < _d._retryCount && err != nil; _i++ {
         {{- if $method.AcceptsContext}}
diff --git a/templates/robinpool b/templates/robinpool
index f911a5e..c7b753c 100644
--- a/templates/robinpool
+++ b/templates/robinpool
@@ -1,6 +1,6 @@
 import (
-	"sync/atomic"
-	"errors"
+  _errors "errors"
+  _atomic "sync/atomic"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sRoundRobinPool" .Interface.Name)) }}
@@ -16,7 +16,7 @@ type {{$decorator}} struct {
 // that picks one of the given implementations using Round-robin algorithm and delegates method call to it
 func New{{$decorator}}(pool ...{{.Interface.Type}}) (*{{$decorator}}, error) {
   if len(pool) == 0 {
-    return nil, errors.New("empty pool")
+    return nil, _errors.New("empty pool")
   }
   
   return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}, nil
@@ -35,7 +35,7 @@ func MustNew{{$decorator}}(pool ...{{.Interface.Type}}) *{{$decorator}} {
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d *{{$decorator}}) {{$method.Declaration}} {
-    _counter := atomic.AddUint64(&_d.counter, 1)
+    _counter := _atomic.AddUint64(&_d.counter, 1)
     {{ $method.Pass "_d.pool[_counter % _d.poolSize]." }}
   }
 {{end}}
diff --git a/templates/timeout b/templates/timeout
index ed84503..bfe69a2 100644
--- a/templates/timeout
+++ b/templates/timeout
@@ -1,6 +1,6 @@
 import (
-  "context"
-  "time"
+  _context "context"
+  _time "time"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithTimeout" .Interface.Name)) }}
@@ -13,7 +13,7 @@ type {{$decorator}} struct {
 
 type {{$decorator}}Config struct {
   {{range $method := .Interface.Methods}}
-    {{if $method.AcceptsContext}}{{$method.Name}}Timeout time.Duration{{ end }}
+    {{if $method.AcceptsContext}}{{$method.Name}}Timeout _time.Duration{{ end }}
   {{end}}
 }
 
@@ -29,10 +29,10 @@ func New{{$decorator}} (base {{.Interface.Type}}, config {{$decorator}}Config) {
   {{if $method.AcceptsContext  }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
-      var cancelFunc func()
+      var _cancelFunc func()
       if _d.config.{{$method.Name}}Timeout > 0 {
-        ctx, cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
-        defer cancelFunc()
+        ctx, _cancelFunc = _context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
+        defer _cancelFunc()
       }
       {{$method.Pass (printf "_d.%s." $.Interface.Name) }}
     }
diff --git a/templates/twirp_error b/templates/twirp_error
index 067befa..414ba7e 100644
--- a/templates/twirp_error
+++ b/templates/twirp_error
@@ -1,5 +1,7 @@
 import (
-  "github.com/twitchtv/twirp"
+  _json "encoding/json"
+
+  _twirp "github.com/twitchtv/twirp"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithTwirpError" .Interface.Name)) }}
@@ -22,7 +24,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
     {{- if $method.ReturnsError}}
       {{range $param := $method.Params}}
         {{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}
-          defer injectRequestDataToError({{$param.Name}} ,&err)
+          defer _inject{{$decorator}}RequestData({{$param.Name}} ,&err)
         {{end}}
       {{end}}
     {{end}}
@@ -30,15 +32,15 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
   }
 {{end}}
 
-func injectRequestDataToError(req interface{}, perr *error) {
+func _inject{{$decorator}}RequestData(req interface{}, perr *error) {
 	err := *perr
 	if err != nil {
-		twerr, ok := err.(twirp.Error)
+		twerr, ok := err.(_twirp.Error)
 		if !ok {
-			twerr = twirp.InternalErrorWith(err)
+			twerr = _twirp.InternalErrorWith(err)
 		}
 
-		jsonReq, _ := json.Marshal(req)
+		jsonReq, _ := _json.Marshal(req)
 		*perr = twerr.WithMeta("request", string(jsonReq))
 	}
 }
diff --git a/templates/twirp_validate b/templates/twirp_validate
index ab54238..014d546 100644
--- a/templates/twirp_validate
+++ b/templates/twirp_validate
@@ -1,5 +1,5 @@
 import (
-  "github.com/twitchtv/twirp"
+  _twirp "github.com/twitchtv/twirp"
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sWithTwirpValidation" .Interface.Name)) }}
@@ -24,7 +24,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
         {{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}
           if _v, _ok := interface{}({{$param.Name}}).(interface{ Validate() error}); _ok {
             if err = _v.Validate(); err != nil {
-              err = twirp.NewError(twirp.InvalidArgument, err.Error())
+              err = _twirp.NewError(_twirp.InvalidArgument, err.Error())
               return
             }
           }
-- 
2.43.0


From c12df17b0f5f33fbe0c56bc579ca51bd35e60f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 27/34] fix: pkg: skip files the go tool ignores by their name
 (leading _ or .)

---
 pkg/package.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/package.go b/pkg/package.go
index a4dd84c..625a6e4 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -7,6 +7,7 @@ import (
 	"go/token"
 	"io/fs"
 	"path/filepath"
+	"strings"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -46,8 +47,12 @@ func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 		ignored[filepath.Base(f)] = true
 	}
 
-	//files excluded by build constraints are not a part of the package
-	filter := func(fi fs.FileInfo) bool { return !ignored[fi.Name()] }
+	//files excluded by build constraints and files the go tool ignores by their
+	//name are not a part of the package
+	filter := func(fi fs.FileInfo) bool {
+		name := fi.Name()
+		return !ignored[name] && !strings.HasPrefix(name, "_") && !strings.HasPrefix(name, ".")
+	}
 
 	pkgs, err := parser.ParseDir(fset, dir, filter, parser.DeclarationErrors|parser.ParseComments)
 	if err != nil {
-- 
2.43.0


From 7fd2ae134efa0d2b55c0fbe1c017e82a7f4d5d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 28/34] fix: gen: name the template so that it is found through
 symbolic links

---
 cmd_generate.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index a5e8817..68e578a 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -43,7 +43,7 @@ func NewGenerateCommand(l remoteTemplateLoader) *GenerateCommand {
 		loader: loader{fileReader: os.ReadFile, remoteLoader: l},
 		filepath: fs{
 			Rel:       filepath.Rel,
-			Abs:       filepath.Abs,
+			Abs:       absPath,
 			Dir:       filepath.Dir,
 			WriteFile: writeFile,
 		},
@@ -140,7 +140,7 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 		LocalPrefix: gc.localPrefix,
 	}
 
-	outputFileDir, err := gc.filepath.Abs(gc.filepath.Dir(gc.outputFile))
+	outputFile, err := gc.filepath.Abs(gc.outputFile)
 	if err != nil {
 		return nil, err
 	}
@@ -157,7 +157,7 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 	options.SourcePackage = sourcePackage.PkgPath
 	options.SourcePackageInstance = sourcePackage // Pass the loaded package
 
-	body, url, err := gc.loadTemplate(outputFileDir)
+	body, url, err := gc.loadTemplate(gc.filepath.Dir(outputFile))
 	options.BodyTemplate = body
 	options.HeaderVars["Template"] = commentText(url)
 	options.HeaderVars["TemplateArg"] = generateArg(url)
@@ -207,6 +207,35 @@ func (l loader) Load(template string) (tmpl []byte, url string, err error) {
 	return tmpl, template, err
 }
 
+// absPath returns the absolute path of a file with no symbolic links among its directories,
+// so that a relative path from one of them to another leads to the same file from wherever it's used
+func absPath(path string) (string, error) {
+	const separator = string(filepath.Separator)
+
+	if !filepath.IsAbs(path) {
+		wd, err := os.Getwd()
+		if err != nil {
+			return "", err
+		}
+		path = wd + separator + path
+	}
+
+	dir, name := filepath.Split(path)
+	for {
+		realDir, err := filepath.EvalSymlinks(dir)
+		if err == nil {
+			return filepath.Join(realDir, name), nil
+		}
+
+		//the last of the directories may not exist yet
+		parent, base := filepath.Split(strings.TrimRight(dir, separator))
+		if base == "" {
+			return filepath.Clean(path), nil
+		}
+		dir, name = parent, filepath.Join(base, name)
+	}
+}
+
 type templateLoader interface {
 	Load(path string) (tmpl []byte, url string, err error)
 }
-- 
2.43.0


From 05c3d9701b4882a5165e4cdfea86e0e47100616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 29/34] fix: generator: substitute the type arguments in types
 made from instances of generic types

A generic alias or a generic type defined from an instance (type A[X any] = G[*X])
that is embedded from another package gave methods that mention X.
---
 generator/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 9106636..085befa 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -457,7 +457,11 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return findMethods(ts, input)
 		}
 	case *ast.IndexExpr, *ast.IndexListExpr, *ast.ParenExpr:
-		return processEmbedded(t, printer.New(input.fileSet, input.types, input.typesPrefix), input)
+		pr := printer.New(input.fileSet, input.types, input.typesPrefix)
+		pr.SetTypeArgs(input.genericTypes.args(input.genericParams))
+		pr.SetTypeParams(input.typeParams)
+
+		return processEmbedded(t, pr, input)
 	}
 
 	return
-- 
2.43.0


From a11235481c2856c16542faa2bd0c190c37a82d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 30/34] fix: printer: qualify the types and constants inside
 array lengths that contain literals, conversions and selectors

---
 printer/printer.go | 54 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index df90255..10a2808 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -126,6 +126,9 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 func (p *Printer) printArrayLen(e ast.Expr) (string, error) {
 	switch t := e.(type) {
 	case *ast.Ident:
+		if _, ok := p.typeArgs[t.Name]; ok || p.typeParams[t.Name] {
+			return p.PrintType(t)
+		}
 		if types.Universe.Lookup(t.Name) != nil || len(p.typesPrefix) == 0 {
 			return p.Print(t)
 		}
@@ -138,7 +141,7 @@ func (p *Printer) printArrayLen(e ast.Expr) (string, error) {
 		return "(" + x + ")", err
 	case *ast.UnaryExpr:
 		x, err := p.printArrayLen(t.X)
-		return t.Op.String() + x, err
+		return t.Op.String() + " " + x, err
 	case *ast.BinaryExpr:
 		x, err := p.printArrayLen(t.X)
 		if err != nil {
@@ -160,11 +163,59 @@ func (p *Printer) printArrayLen(e ast.Expr) (string, error) {
 			args = append(args, a)
 		}
 		return fun + "(" + strings.Join(args, ", ") + ")", nil
+	case *ast.IndexExpr:
+		x, err := p.printArrayLen(t.X)
+		if err != nil {
+			return "", err
+		}
+		index, err := p.printArrayLen(t.Index)
+		return x + "[" + index + "]", err
+	case *ast.SelectorExpr:
+		if id, ok := t.X.(*ast.Ident); ok && id.Obj == nil {
+			return p.Print(t) //selected from another package
+		}
+		x, err := p.printArrayLen(t.X)
+		return x + "." + t.Sel.Name, err
+	case *ast.CompositeLit:
+		return p.printCompositeLit(t)
+	case *ast.StarExpr, *ast.ArrayType, *ast.StructType, *ast.MapType, *ast.ChanType, *ast.FuncType, *ast.InterfaceType, *ast.IndexListExpr:
+		return p.PrintType(t)
 	}
 
 	return p.Print(e)
 }
 
+func (p *Printer) printCompositeLit(c *ast.CompositeLit) (string, error) {
+	literalType, err := p.printArrayLen(c.Type)
+	if err != nil {
+		return "", err
+	}
+	_, isArray := c.Type.(*ast.ArrayType)
+
+	elements := make([]string, 0, len(c.Elts))
+	for _, e := range c.Elts {
+		key := ""
+		if kv, ok := e.(*ast.KeyValueExpr); ok {
+			if _, ok := kv.Key.(*ast.Ident); ok && !isArray {
+				//it's either the name of a field or a constant
+				return "", errUnsupportedLen
+			}
+			if key, err = p.printArrayLen(kv.Key); err != nil {
+				return "", err
+			}
+			key, e = key+": ", kv.Value
+		}
+
+		value, err := p.printArrayLen(e)
+		if err != nil {
+			return "", err
+		}
+		elements = append(elements, key+value)
+	}
+
+	return literalType + "{" + strings.Join(elements, ", ") + "}", nil
+}
+
 var chanTypes = map[ast.ChanDir]string{
 	ast.SEND | ast.RECV: "chan ",
 	ast.SEND:            "chan<- ",
@@ -209,6 +260,7 @@ var errUnexportedType = errors.New("unexported type")
 var errHiddenType = errors.New("type is hidden by a type parameter")
 var errUnexportedMember = errors.New("unexported field or method")
 var errUnexportedConst = errors.New("unexported constant")
+var errUnsupportedLen = errors.New("unsupported array length")
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 	if arg, ok := p.typeArgs[i.Name]; ok {
-- 
2.43.0


From f181f9862db6c6dac6dc3e4ba0f2831c655d302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 31/34] fix: generator: blank type parameters and a sole type
 parameter with a constraint that reads as an array length

---
 generator/generics.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generator/generics.go b/generator/generics.go
index e9d2537..69944e0 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	"github.com/hexdigest/gowrap/printer"
@@ -77,6 +78,11 @@ func (g genericTypes) buildVars() (string, string) {
 		}
 	}
 
+	if len(g) == 1 && len(g[0].Names) == 1 && (strings.HasPrefix(g[0].Type, "*") || strings.HasPrefix(g[0].Type, "(")) {
+		//otherwise it reads as an array length
+		types += ","
+	}
+
 	return buildGenericsWithBrackets(types), buildGenericsWithBrackets(params)
 }
 
@@ -102,6 +108,7 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 		return
 	}
 
+	blanks := 0
 	for _, param := range ts.TypeParams.List {
 		if param == nil {
 			continue
@@ -112,7 +119,13 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 		var paramNames []string
 		for _, name := range param.Names {
 			if name != nil {
-				paramNames = append(paramNames, name.Name)
+				paramName := name.Name
+				if paramName == "_" {
+					//otherwise it can't be passed as a type argument
+					blanks++
+					paramName = "_T" + strconv.Itoa(blanks)
+				}
+				paramNames = append(paramNames, paramName)
 			}
 		}
 		types = append(types, genericType{
-- 
2.43.0


From 932f64da7cc7dc1fc64ed9b0e2f9d6ef9e00516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 32/34] fix: generator: don't share the caller's slice of
 imports between generators

---
 generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 085befa..0c12e0b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -185,6 +185,9 @@ func NewGenerator(options Options) (*Generator, error) {
 		options.Vars = make(map[string]interface{})
 	}
 
+	//the caller may use the same slice for other generators
+	options.Imports = append([]string(nil), options.Imports...)
+
 	fs := token.NewFileSet()
 
 	var srcPackage *packages.Package
-- 
2.43.0


From 2875de0ba056d1df6714cec1060a5f0cffd31b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 33/34] fix: generator: refuse types that are made of
 themselves

---
 generator/generator.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 0c12e0b..3b0072a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -146,6 +146,27 @@ type processInput struct {
 	usedImports    *usedImports
 	//typeParams of the target hide the types of the same name
 	typeParams *ast.FieldList
+	//visiting are the types that are made of the one being processed
+	visiting []string
+}
+
+var errRecursiveType = errors.New("invalid recursive type")
+
+// visit returns an error if the type is being processed already
+func (i *processInput) visit(name string) error {
+	if i.currentPackage != nil {
+		name = i.currentPackage.PkgPath + "." + name
+	}
+
+	for _, v := range i.visiting {
+		if v == name {
+			return errors.Wrap(errRecursiveType, name)
+		}
+	}
+
+	i.visiting = append(i.visiting[:len(i.visiting):len(i.visiting)], name)
+
+	return nil
 }
 
 type targetProcessInput struct {
@@ -434,6 +455,12 @@ func checkConstraints(ts *ast.TypeSpec, types []*ast.TypeSpec, input processInpu
 }
 
 func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods methodsList, err error) {
+	if selectedType.Name != nil {
+		if err := input.visit(selectedType.Name.Name); err != nil {
+			return nil, err
+		}
+	}
+
 	switch t := selectedType.Type.(type) {
 	case *ast.InterfaceType:
 		methods, err = processInterface(t, input)
@@ -649,6 +676,7 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
 		usedImports:    input.usedImports,
+		visiting:       input.visiting,
 	})
 	if err != nil {
 		return nil, err
@@ -702,6 +730,10 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 			continue
 		}
 
+		if err := input.visit(i.Name); err != nil {
+			return nil, err
+		}
+
 		input.types = visibleTypes(t, input.types)
 		input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
 
-- 
2.43.0


From 6cef671ebf348adce8df6d93a6c20ec13f7cb764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 34/34] fix: generator: refuse function types embedded in
 interfaces

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 3b0072a..8113e58 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -624,6 +624,10 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 		switch v := field.Type.(type) {
 		case *ast.FuncType:
+			if len(field.Names) == 0 {
+				return nil, errNotAnInterface
+			}
+
 			var method *Method
 
 			method, err = NewMethod(field.Names[0].Name, field, pr, nil, nil)
-- 
2.43.0

