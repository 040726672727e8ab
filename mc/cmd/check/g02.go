package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"verifmc/lib"
)

// the foreign package interfaces are taken from; it has imports of its own
const g02Ext = `package %s

import (
	tt "time"

	oth "scr/go-other"
)

type T struct{ A int }

type Plain interface {
	EP(a T, b ...*T) (T, error)
}

type Uses interface {
	EU(a oth.T, d tt.Duration) (oth.G[T], error)
}

type Gen[X any] interface {
	EG(a X, b []X) (map[string]X, T)
}

type Gen2[X, Y any] interface {
	EG2(X, Y) func(X, ...Y) T
}

type Nest interface {
	Plain
	EN()
}

type GenNest[X any] interface {
	Gen[*X]
	EGN(X)
}

type GenSwap[X, Y any] interface {
	Gen2[Y, X]
	ES(X) Y
}

type Alias = Plain
type Def Plain
type DefNest Nest

type base interface {
	EB(T)
}

type OnBase interface {
	base
	EOB()
}

type Unexp interface {
	hidden()
	EX()
}

type Struct struct{ A int }

type GS[X any] struct{ V X }

type GenAlias[X any] = Gen[*X]

type GenDef[Y any] Gen[map[string]Y]

type SwapAlias[Y, X any] = Gen2[X, []Y]

type SwapDef[Y, X any] Gen2[func(X), Y]

type ParenAlias[Z any] = (Gen[Z])

type ChainAlias[Z any] = GenAlias[[]Z]

type PlainAlias[Z any] = Plain

type NestAlias[Z any] interface {
	SwapAlias[Z, T]
	EN2(Z)
}

type Map[Z any] = map[string]GS[Z]
`

// what every source package declares besides the interface under test
const g02Local = `package %s

type Loc struct{ A int }

type LG[X any] struct{ V X }

type Same interface {
	SA(a Loc) (*Loc, error)
	SB(...Loc)
}

type Gn[X any] interface {
	GA(a X, _ []X) map[string]X
}

type Gn2[X, Y any] interface {
	GB(X, Y) (x LG[X], y func(Y) X)
}

type GnNest[Y any] interface {
	Gn[[]Y]
	GC(a Y)
}

type GnSwap[X, Y any] interface {
	Gn2[Y, X]
	GD(X) Y
}

type GnShadow[Loc any] interface {
	GE(a Loc, b Same) []Loc
}

type Over interface {
	SA(a Loc) (*Loc, error)
	OV()
}

type Diamond interface {
	Same
	Over
}

type LAlias = Same

type LDef Same

type low interface {
	LW(Loc)
}

type LHidden interface {
	hiddenL(a ...Loc) Loc
	Shown2()
}

type GnHidden[X any] interface {
	hiddenG(X, Loc) X
}

type OnLow interface {
	low
	OL() error
}

type GnAlias[Y any] = Gn[map[string]Y]

type GnDef[Y any] Gn[func(Y) Loc]

type GnSwapAlias[Y, X any] = Gn2[[]X, Y]

type GnSwapDef[Y, X any] GnSwap[X, *Y]

type GnChain[X any] GnAlias[[]X]

type LMap[Z any] = map[string]LG[Z]

type Lit interface {
	interface{ LI(a, b Loc) }
}
`

// a second file with other imports
const g02Second = `package %s

import (
	al "scr/go-other"
	thing "scr/ext"
)

type Second interface {
	SE(a thing.T, b Loc) error
}

type SecondEmb interface {
	thing.Plain
	SEE()
}

type Clash interface {
	CL(a al.T)
}

type SecondDef thing.Nest

type SecondAlias = thing.Nest

type SecondGenAlias[X any] = thing.Gen2[X, thing.GS[X]]

type SecondGenDef[Y, X any] thing.SwapAlias[[]X, Y]

type SecondGen[X any] interface {
	thing.Gen2[X, thing.T]
	SG(X) thing.GS[X]
}
`

type g02Elem struct {
	text string
	al   int    // which package its file calls al: 1 aliased, 2 go-other
	may  string // generation may fail for this reason
	must string // generation must fail for this reason
}

var g02Elems = []g02Elem{
	{text: "OwnA(a Loc, b ext.T) (LG[Loc], error)"},
	{text: "OwnB(x ...al.T)", al: 1},
	{text: "SA(a Loc) (r *Loc, err error)"}, {text: "hidden(a Loc, b ...ext.T) (*Loc, error)"}, {text: "LHidden"}, {text: "interface{ hidden2() Loc; Shown() }"},
	{text: "Same"}, {text: "Over"}, {text: "Diamond"}, {text: "LAlias"}, {text: "LDef"}, {text: "low"}, {text: "OnLow"}, {text: "Lit"},
	{text: "Second"}, {text: "SecondEmb"}, {text: "Clash", al: 2}, {text: "SecondDef"}, {text: "SecondAlias"}, {text: "SecondGen[Loc]"}, {text: "SecondGen[al.T]", al: 1},
	{text: "Gn[int]"}, {text: "Gn[Loc]"}, {text: "Gn[[]*ext.T]"}, {text: "Gn2[ext.T, Loc]"}, {text: "Gn2[LG[Loc], map[string]al.T]", al: 1}, {text: "GnNest[Loc]"}, {text: "GnSwap[Loc, ext.T]"}, {text: "GnShadow[ext.T]"}, {text: "Gn[interface{ M(Loc) }]"}, {text: "Gn[func(Loc) ext.T]"},
	{text: "ext.Plain"}, {text: "ext.Uses"}, {text: "ext.Gen[Loc]"}, {text: "ext.Gen[ext.T]"}, {text: "ext.Gen2[Loc, ext.GS[Loc]]"}, {text: "ext.Nest"}, {text: "ext.GenNest[Loc]"}, {text: "ext.GenSwap[Loc, ext.T]"}, {text: "ext.Alias"}, {text: "ext.Def"}, {text: "ext.DefNest"}, {text: "ext.OnBase"},
	{text: "al.Plain", al: 1}, {text: "AL.Plain"}, {text: "EXT.Gen[AL.T]"}, {text: "al.Gen[Loc]", al: 1},
	{text: "GnAlias[Loc]"}, {text: "GnDef[ext.T]"}, {text: "GnSwapAlias[Loc, int]"}, {text: "GnSwapDef[Loc, *ext.T]"}, {text: "GnChain[Loc]"}, {text: "SecondGenAlias[Loc]"}, {text: "SecondGenDef[Loc, string]"},
	{text: "ext.GenAlias[Loc]"}, {text: "ext.GenDef[ext.T]"}, {text: "ext.SwapAlias[Loc, int]"}, {text: "ext.SwapDef[Loc, *ext.T]"}, {text: "ext.ParenAlias[Loc]"}, {text: "ext.ChainAlias[Loc]"}, {text: "ext.PlainAlias[Loc]"}, {text: "ext.NestAlias[Loc]"}, {text: "OwnM(a LMap[Loc], b ...ext.Map[*Loc])"},
	{text: "error"}, {text: "any"}, {text: "fmt.Stringer"}, {text: "io.ReadWriter"}, {text: "context.Context"}, {text: "sort.Interface"},
	{text: "interface{ IA(Loc) ext.T }"}, {text: "interface{ Same; ext.Plain; IB() }"}, {text: "(Same)"},
	{text: "ext.Unexp", must: "ext.Unexp has an unexported method"},
	{text: "Int", may: "dot import"}, {text: "DM(a DotUsed, b []DotUsed)"},
}

// elements that mention a type parameter X of the enclosing declaration
var g02GElems = []g02Elem{
	{text: "XM(a X, b []X, c map[string]X, f func(...X) ext.T) struct{ F X }"},
	{text: "Gn[X]"}, {text: "Gn[[]X]"}, {text: "Gn2[X, Loc]"}, {text: "Gn2[Loc, LG[X]]"}, {text: "GnNest[*X]"}, {text: "GnSwap[X, Loc]"}, {text: "GnShadow[X]"}, {text: "SecondGen[X]"},
	{text: "ext.Gen[X]"}, {text: "ext.Gen2[Loc, X]"}, {text: "ext.GenNest[X]"}, {text: "ext.GenSwap[X, ext.T]"}, {text: "al.Gen[func(X) Loc]", al: 1},
	{text: "GnAlias[X]"}, {text: "GnDef[[]X]"}, {text: "GnSwapAlias[X, int]"}, {text: "GnSwapDef[Loc, X]"}, {text: "GnChain[X]"}, {text: "SecondGenAlias[X]"}, {text: "SecondGenDef[*X, string]"},
	{text: "ext.GenAlias[X]"}, {text: "ext.GenDef[[]X]"}, {text: "ext.SwapAlias[X, Loc]"}, {text: "ext.SwapDef[Loc, X]"}, {text: "ext.ParenAlias[X]"}, {text: "ext.ChainAlias[X]"}, {text: "ext.NestAlias[X]"}, {text: "OwnM(a LMap[X], b ...ext.Map[*X])"},
	{text: "Same"}, {text: "ext.Plain"}, {text: "hidden(a X) (Loc, error)"}, {text: "GnHidden[X]"},
}

// forms say how the body reaches the interface Svc. LOCAL is the same package, MID another one.
type g02Form struct {
	name, file string // iface.go's declarations
	other      string // declarations in another file of the package
	mid        string // declarations of the package mid
	svc        string // the type Svc is compared as (type arguments)
	generic    bool   // the body may mention X
	add        int    // extra methods
}

var g02Forms = []g02Form{
	{name: "body", file: "type Svc interface {\nBODY\n}"},
	{name: "embedded, same file", file: "type Svc interface {\nMid\nOwn()\n}\ntype Mid interface {\nBODY\n}"},
	{name: "embedded, other file", file: "type Svc interface {\nMid\n}", other: "type Mid interface {\nBODY\n}"},
	{name: "defined from same file", file: "type Mid interface {\nBODY\n}\ntype Svc Mid"},
	{name: "defined from other file", file: "type Svc Mid", other: "type Mid interface {\nBODY\n}"},
	{name: "alias of same file", file: "type Mid interface {\nBODY\n}\ntype Svc = Mid"},
	{name: "alias of other file", file: "type Svc = Mid", other: "type Mid interface {\nBODY\n}"},
	{name: "embedded, other package", file: "type Svc interface {\nmid.Mid\nOwn(a Loc, b mid.Loc)\n}", mid: "type Mid interface {\nBODY\n}"},
	{name: "defined from other package", file: "type Svc mid.Mid", mid: "type Mid interface {\nBODY\n}"},
	{name: "alias of other package", file: "type Svc = mid.Mid", mid: "type Mid interface {\nBODY\n}"},
	{name: "two packages deep", file: "type Svc interface {\nMid\nOwn()\n}", other: "type Mid interface {\nmid.Mid\n}", mid: "type Mid interface {\nBODY\n}"},
	{name: "interface literal", file: "type Svc interface {\ninterface {\nBODY\n}\nOwn()\n}"},
	{name: "literal of other package", file: "type Svc interface {\nmid.Mid\n}", mid: "type Mid interface {\ninterface {\nBODY\n}\n}"},
	{name: "generic target", generic: true, file: "type Svc[X any] interface {\nBODY\n}"},
	{name: "generic embedded", generic: true, file: "type Svc interface {\nMidG[Loc]\nOwn()\n}\ntype MidG[X any] interface {\nBODY\n}"},
	{name: "generic embedded, other file", generic: true, file: "type Svc interface {\nMidG[[]ext.T]\n}", other: "type MidG[X any] interface {\nBODY\n}"},
	{name: "generic embedded with a shadowing parameter", generic: true, file: "type Svc[Y any, Loc any] interface {\nMidG[[]Loc]\nOwn(Y, Loc)\n}\ntype MidG[X any] interface {\nBODY\n}"},
	{name: "generic embedded with a shadowing parameter in a group", generic: true, file: "type Svc[Y, Loc any] interface {\nMidG[[]Loc]\nOwn(Y, Loc)\n}\ntype MidG[X any] interface {\nBODY\n}"},
	{name: "generic embedded, other package", generic: true, file: "type Svc interface {\nmid.MidG[Loc]\nOwn()\n}", mid: "type MidG[X any] interface {\nBODY\n}"},
	{name: "generic in generic", generic: true, file: "type Svc[Y, X any] interface {\nMidG[map[string]Y]\nOwn(X) Y\n}\ntype MidG[X any] interface {\nBODY\n}"},
	{name: "generic in generic, other package", generic: true, file: "type Svc[Y, X any] interface {\nmid.MidG[func(X) Y]\n}", mid: "type MidG[X any] interface {\nBODY\n}"},
	{name: "swapped parameters", generic: true, file: "type Svc[X, Y any] interface {\nMidG[Y, X]\n}\ntype MidG[X, Y any] interface {\nBODY\nSw(X, Y)\n}"},
	{name: "defined from an instance", generic: true, file: "type MidG[X any] interface {\nBODY\n}\ntype Svc MidG[Loc]"},
	{name: "defined from an instance with two arguments", generic: true, file: "type Svc MidG[Loc, ext.T]", other: "type MidG[Y, X any] interface {\nBODY\nSw(X, Y)\n}"},
	{name: "defined from an instance with two arguments, other package", generic: true, file: "type Svc[A any] mid.MidG[[]A, Loc]", mid: "type MidG[Y, X any] interface {\nBODY\nSw(X, Y)\n}"},
	{name: "defined in parentheses", file: "type Svc (Mid)", other: "type Mid interface {\nBODY\n}"},
	{name: "alias in parentheses, other package", generic: true, file: "type Svc = (((mid.MidG[*Loc])))", mid: "type MidG[X any] interface {\nBODY\n}"},
	{name: "literal in parentheses", file: "type Svc (interface {\nBODY\nOwn(Loc)\n})"},
	{name: "alias of another package's alias", file: "type Svc = mid.Al", mid: "type Al = (Mid)\ntype Mid interface {\nBODY\n}"},
	{name: "alias of an instance, other package", generic: true, file: "type Svc = mid.MidG[Loc]", mid: "type MidG[X any] interface {\nBODY\n}"},
	{name: "generic alias", generic: true, file: "type MidG[X any] interface {\nBODY\n}\ntype Svc[X any] = MidG[[]X]"},
	{name: "generic alias, other package", generic: true, file: "type Svc[Y, X any] = mid.MidG[map[string]X]", mid: "type MidG[X any] interface {\nBODY\n}"},
	{name: "generic defined type, other package", generic: true, file: "type Svc[X any] mid.MidG[*X]", mid: "type MidG[X any] interface {\nBODY\n}"},
	{name: "embedded generic alias", generic: true, file: "type Svc interface {\nMidA[Loc]\nOwn()\n}\ntype MidA[Y any] = MidG[[]Y]", other: "type MidG[X any] interface {\nBODY\n}"},
	{name: "embedded generic alias, other package", generic: true, file: "type Svc[Z any] interface {\nmid.MidA[Z]\n}", mid: "type MidG[X any] interface {\nBODY\n}\ntype MidA[Y any] = MidG[[]Y]"},
	{name: "embedded generic defined type, other package", generic: true, file: "type Svc[Z any] interface {\nmid.MidD[Z, Loc]\n}", mid: "type MidG[X any] interface {\nBODY\n}\ntype MidD[X, Y any] MidG[func(Y) X]"},
	{name: "embedded defined instance", generic: true, file: "type Svc interface {\nMid\nOwn()\n}\ntype MidG[X any] interface {\nBODY\n}\ntype Mid MidG[ext.T]"},
}

const g02Imports = "import (\n\t\"context\"\n\t\"fmt\"\n\t\"io\"\n\t\"sort\"\n\t\"scr/ext\"\n\tAL \"scr/namesake\"\n\tEXT \"scr/namesake\"\n\tal \"scr/aliased\"\n\t. \"scr/dot\"\n%s)\n\nvar _ context.Context\nvar _ fmt.Stringer\nvar _ io.Reader\nvar _ sort.Interface\nvar _ ext.T\nvar _ al.T\nvar _ AL.T\nvar _ EXT.T\nvar _ DotUsed\n"

const g02Chain = 12

// chain writes packages p0, p1, ... each of which builds its interfaces on those of the one before.
func (g *g02) chain() {
	for k := 0; k < g02Chain; k++ {
		own := fmt.Sprintf("\tC%d(a T, b []T) (*T, error)\n", k)
		gown := fmt.Sprintf("\tCG%d(X, T) []X\n", k)
		imp, nx := "", ""
		if k > 0 {
			nx = fmt.Sprintf("%s%d", []string{"p", "nx", "T"}[k%3], k-1)
			switch k % 3 {
			case 0:
				imp = fmt.Sprintf("import \"scr/chain/p%d\"\n\n", k-1)
			default:
				imp = fmt.Sprintf("import %s \"scr/chain/p%d\"\n\n", nx, k-1)
			}
			own += fmt.Sprintf("\tD%d(T, %s.T)\n\t%s.I\n", k, nx, nx)
			gown += fmt.Sprintf("\t%s.G[%s]\n", nx, []string{"[]X", "T", "map[string]X", nx + ".T", "X"}[k%5])
		}
		head := fmt.Sprintf("package p%d\n\n", k)
		dir := fmt.Sprintf("chain/p%d", k)
		g.m.Write(dir+"/b.go", head+"type T struct{ A int }\n")
		switch k % 4 {
		case 0:
			g.m.Write(dir+"/a.go", head+imp+"type I interface {\n"+own+"}\n\ntype G[X any] interface {\n"+gown+"}\n")
		case 1:
			g.m.Write(dir+"/c.go", head+imp+"type J interface {\n"+own+"}\n\ntype H[X any] interface {\n"+gown+"}\n")
			g.m.Write(dir+"/a.go", head+"type I interface{ J }\n\ntype G[X any] interface{ H[X] }\n")
		case 2:
			g.m.Write(dir+"/c.go", head+imp+"type J interface {\n"+own+"}\n\ntype H[X any] interface {\n"+gown+"}\n")
			g.m.Write(dir+"/a.go", head+"type I J\n\ntype G[Y any] interface{ H[Y] }\n")
		case 3:
			g.m.Write(dir+"/a.go", head+imp+"type j interface {\n"+own+"}\n\ntype I = j\n\ntype h[X any] interface {\n"+gown+"}\n\ntype G[X any] interface{ interface{ h[X] } }\n")
		}
	}
}

type g02 struct {
	r  *lib.Run
	m  *lib.Mod
	mu sync.Mutex
}

// write makes one source package; body belongs to one of its files.
func (g *g02) write(dir, pkg, file, other, midPath string) {
	imp := func(text string) string {
		x := ""
		for k := 0; k < g02Chain; k++ {
			if strings.Contains(text, fmt.Sprintf("c%d.", k)) {
				x += fmt.Sprintf("\tc%d \"scr/chain/p%d\"\n", k, k)
			}
		}
		if strings.Contains(text, "mid.") {
			x += "\tmid \"" + midPath + "\"\n"
		}
		return fmt.Sprintf(g02Imports, x)
	}
	g.m.Write(dir+"/local.go", fmt.Sprintf(g02Local, pkg))
	g.m.Write(dir+"/second.go", fmt.Sprintf(g02Second, pkg))
	if file != "" {
		g.m.Write(dir+"/iface.go", "package "+pkg+"\n\n"+imp(file)+"\n"+file+"\n")
	}
	if other != "" {
		g.m.Write(dir+"/aother.go", "package "+pkg+"\n\n"+imp(other)+"\n"+other+"\n")
	}
}

func (g *g02) run(id string, form g02Form, es []g02Elem, same bool) {
	if g.r.Left() < 0 {
		g.r.NotExhaustive("time")
		return
	}
	var texts []string
	als := map[int]bool{}
	may, must := "", ""
	for _, e := range es {
		texts = append(texts, e.text)
		if e.al > 0 {
			als[e.al] = true
		}
		if e.may != "" {
			may = e.may
		}
		if e.must != "" {
			must = e.must
		}
	}
	if strings.Contains(form.name, "shadowing") && same {
		may = "type parameter Loc hides type Loc"
	}
	if len(als) > 1 {
		may = "one name for two packages"
	}
	body := strings.Join(texts, "\n")
	sub := func(s string) string { return strings.ReplaceAll(s, "BODY", body) }
	sdir, mdir, ddir := id+"/src", id+"/mid", id+"/dst"
	if form.mid != "" {
		g.write(mdir, "mid", sub(form.mid), "", "")
		if als[2] || als[1] { // the packages that mid's files call al
			may = "one name for two packages"
		}
	}
	g.write(sdir, "src", sub(form.file), sub(form.other), "scr/"+mdir)
	mode := "cross"
	if same {
		ddir, mode = sdir, "same"
	}
	key := mode + ", " + form.name + ": " + strings.Join(texts, "; ")
	u := g.m.NewUniverse()
	src := u.Load(sdir)
	if src.Err != nil {
		g.r.Fatal("%s: %v", key, src.Err)
	}
	if len(src.Errs) > 0 || (form.mid != "" && len(u.Load(mdir).Errs) > 0) {
		g.r.Add("invalid_interfaces_skipped", 1)
		if len(es) < 2 && !strings.Contains(form.name, "package") && !strings.Contains(src.FirstErr(), "X") {
			g.r.Fatal("%s: %s", key, src.FirstErr())
		}
		return
	}
	tn, _ := src.Pkg.Scope().Lookup("Svc").(*types.TypeName)
	named, _ := types.Unalias(tn.Type()).(*types.Named)
	if named == nil {
		g.r.Fatal("%s: Svc is %s", key, tn.Type())
	}
	it := named.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if f := it.Method(i); !f.Exported() && !(same && f.Pkg() == src.Pkg) {
			must = "unexported method " + it.Method(i).Name()
		}
	}
	if it.NumMethods() == 0 {
		must = "no methods"
	}
	res := g.m.Gen("-g", "-p", "./"+sdir, "-i", "Svc", "-t", "dump.tmpl", "-o", ddir+"/dec.go")
	g.r.Count(1, 1, 0)
	g.r.Validate(1)
	info := map[string]any{"elements": texts, "form": form.name, "mode": mode, "source": sub(form.file), "other file": sub(form.other), "package mid": sub(form.mid)}
	if res.Code != 0 {
		if must == "" && may == "" {
			g.r.Violate(key, "generation failed for an interface: "+strings.TrimSpace(res.Err), info)
		}
		if must != "" {
			g.r.Add("refused", 1)
		}
		return
	}
	if must != "" {
		g.r.Violate(key, "generation succeeded although "+must, info)
		return
	}
	u = g.m.NewUniverse()
	src, dst := u.Load(sdir), u.Load(ddir)
	dec := dst.Named("Dec")
	if dec == nil {
		g.r.Violate(key, "the generated file cannot be read: "+dst.FirstErr(), info)
		return
	}
	tn = src.Pkg.Scope().Lookup("Svc").(*types.TypeName)
	named = types.Unalias(tn.Type()).(*types.Named)
	it = named.Underlying().(*types.Interface)
	params := named.TypeParams()
	if a, ok := tn.Type().(*types.Alias); ok {
		params = a.TypeParams()
	}
	if n := params.Len(); n > 0 {
		var targs []types.Type
		for i := 0; i < n; i++ {
			targs = append(targs, params.At(i))
		}
		inst, err := types.Instantiate(nil, dec, targs, false)
		if err != nil {
			g.r.Violate(key, "the generated type has other type parameters: "+err.Error(), info)
			return
		}
		dec = inst.(*types.Named)
	}
	want := map[string]*types.Func{}
	for i := 0; i < it.NumMethods(); i++ {
		want[it.Method(i).Name()] = it.Method(i)
	}
	var diffs []string
	for i := 0; i < dec.NumMethods(); i++ {
		f := dec.Method(i)
		w := want[f.Name()]
		delete(want, f.Name())
		if w == nil {
			diffs = append(diffs, "invented "+f.Name())
		} else if !types.Identical(w.Type(), f.Type()) {
			diffs = append(diffs, fmt.Sprintf("%s is %s, must be %s", f.Name(), f.Type(), w.Type()))
		}
	}
	for n := range want {
		diffs = append(diffs, "dropped "+n)
	}
	if len(diffs) == 0 && dst.FirstErr() != "" {
		diffs = append(diffs, "the file does not compile: "+dst.FirstErr())
	}
	if len(diffs) > 0 {
		g.r.Violate(key, "methods given to the template differ from the interface's: "+strings.Join(diffs, "; "), info)
	}
	g.r.Add("method_sets_compared", 1)
	g.r.Sample(key)
}

func init() {
	checks["G02"] = check{"model_checking", func(r *lib.Run) {
		m := r.NewMod("m", "scr", r.BuildGowrap())
		m.Exports(m.Dir, "context", "fmt", "io", "sort", "time")
		m.Write("dump.tmpl", lib.Dump)
		m.Write("ext/ext.go", fmt.Sprintf(g02Ext, "ext"))
		m.Write("aliased/x.go", strings.ReplaceAll(fmt.Sprintf(g02Ext, "unaliased"), "\tE", "\tA"))
		m.Write("namesake/x.go", strings.ReplaceAll(fmt.Sprintf(g02Ext, "unnamed"), "\tE", "\tZ"))
		m.Write("go-other/x.go", "package other\n\ntype T struct{ A int }\n\ntype G[X any] struct{ V X }\n")
		m.Write("dot/x.go", "package dot\n\ntype DotUsed int\n\ntype Int interface{ DI() }\n")
		g := &g02{r: r, m: m}
		type job struct {
			form g02Form
			es   []g02Elem
			same bool
		}
		var jobs []job
		for fi, f := range g02Forms {
			els := g02Elems
			if f.generic {
				els = g02GElems
			}
			for i, e := range els {
				for _, same := range []bool{false, true} {
					if fi == 0 || r.Thorough() || ((i+fi)%2 == 0) == same {
						jobs = append(jobs, job{f, []g02Elem{e}, same})
					}
				}
			}
			// pairs, in both orders
			if !r.Thorough() {
				if fi > 0 && f.name != "generic embedded" {
					continue
				}
				if fi == 0 {
					els = nil
					for _, t := range strings.Split("OwnB(x ...al.T)|SA(a Loc) (r *Loc, err error)|Same|Over|Diamond|LDef|OnLow|SecondEmb|Clash|SecondGen[Loc]|Gn[[]*ext.T]|GnSwap[Loc, ext.T]|ext.Plain|ext.Uses|ext.GenNest[Loc]|ext.OnBase|al.Plain|error|context.Context|interface{ Same; ext.Plain; IB() }|ext.Unexp|DM(a DotUsed, b []DotUsed)", "|") {
						n := len(els)
						for _, e := range g02Elems {
							if e.text == t {
								els = append(els, e)
							}
						}
						if len(els) != n+1 {
							r.Fatal("no element %q", t)
						}
					}
				}
			}
			for i, a := range els {
				for j, b := range els {
					if i == j {
						continue
					}
					if r.Thorough() {
						jobs = append(jobs, job{f, []g02Elem{a, b}, true})
						if fi == 0 || f.name == "embedded, other package" || f.name == "generic embedded" {
							jobs = append(jobs, job{f, []g02Elem{a, b}, false})
						}
					} else if f.generic || j > i {
						jobs = append(jobs, job{f, []g02Elem{a, b}, (i+j)%2 == 0})
					}
				}
			}
		}
		// deep and wide
		g.chain()
		for k := 0; k < g02Chain; k++ {
			for i, f := range []g02Form{
				{file: fmt.Sprintf("type Svc interface {\nOwn()\nc%d.I\n}", k)},
				{file: fmt.Sprintf("type Svc c%d.I", k)},
				{file: fmt.Sprintf("type Svc = c%d.I", k)},
				{file: fmt.Sprintf("type Svc interface {\nc%d.G[Loc]\nOwn(c%d.T)\n}", k, k)},
				{file: fmt.Sprintf("type Svc[X any] interface {\nc%d.G[[]X]\n}", k)},
				{file: "type Svc interface {\nMid\n}", other: fmt.Sprintf("type Mid interface {\nc%d.I\nc%d.G[*c%d.T]\n}", k, k, k)},
				{file: fmt.Sprintf("type Svc interface {\nc%d.I\nc%d.I\nc0.G[Loc]\n}", k, (k*5+3)%g02Chain)},
			} {
				f.name = fmt.Sprintf("chain %d, %d", k, i)
				jobs = append(jobs, job{f, []g02Elem{{}}, (k+i)%2 == 0})
				if r.Thorough() {
					jobs = append(jobs, job{f, []g02Elem{{}}, (k+i)%2 == 1})
				}
			}
		}
		for _, n := range []int{1, 2, 5, 12, 13, 40, 300} {
			lines := map[string]string{}
			decl := ""
			add := func(form, f string, a ...any) { lines[form] += fmt.Sprintf(f+"\n", a...) }
			for i := 0; i < n; i++ {
				add("methods", "W%d(a%d Loc, _ ext.T) (Loc, error)", i, i)
				add("many embedded", "E%d", i)
				add("many instances", "EG[[%d]Loc]", i)
				decl += fmt.Sprintf("type E%d interface {\nWE%d(a Loc, b ...ext.T) []Loc\n", i, i)
				if i > 0 {
					decl += fmt.Sprintf("E%d\n", (i-1)/2) // shared by two
				}
				if i > 2 && i < 20 {
					decl += fmt.Sprintf("E%d\n", i-2)
				}
				decl += "}\n"
			}
			for j, f := range []g02Form{
				{name: "many methods", file: "type Svc interface {\n" + lines["methods"] + "}"},
				{name: "many embedded", file: "type Svc interface {\n" + lines["many embedded"] + "}", other: decl},
				{name: "many embedded, other package", file: "type Svc interface {\nmid.All\n}", mid: "type All interface {\n" + lines["many embedded"] + "}\n" + decl},
				{name: "last of many", file: fmt.Sprintf("type Svc interface {\nE%d\n}\n", n-1) + decl},
			} {
				f.name += fmt.Sprintf(" (%d)", n)
				for _, same := range []bool{false, true} {
					if r.Thorough() || (j%2 == 0) == same || n < 20 {
						jobs = append(jobs, job{f, []g02Elem{{}}, same})
					}
				}
			}
		}
		// every form gets its share early, pairs come last
		nth := map[string]int{}
		rank := make([]int, len(jobs))
		order := make([]int, len(jobs))
		for i, j := range jobs {
			n := nth[j.form.name]
			nth[j.form.name]++
			rank[i], order[i] = len(j.es)*100000+n, i
		}
		sort.SliceStable(order, func(a, b int) bool { return rank[order[a]] < rank[order[b]] })
		sorted := make([]job, len(jobs))
		for i, o := range order {
			sorted[i] = jobs[o]
		}
		jobs = sorted
		// names that are no interfaces, or that cannot be resolved
		for k, d := range []string{"type Svc struct{ A int }", "type Svc int", "type Svc func()", "type Svc []Same", "type Svc map[string]Same", "type Svc *Same", "type Svc interface{}", "type Svc = any", "type Svc ext.Struct", "type Svc = ext.Struct", "type Svc Loc", "type Svc = Loc",
			"type Svc interface{ ~int }", "type Svc interface{ int | string; M() }", "type Svc interface{ comparable }", "type Svc interface{ comparable; M() }", "type Svc interface{ M(); Missing }", "type Svc interface{ M(); ext.Missing }", "type Svc interface{ M(); missing.I }", "type Svc interface{ M(); Loc }", "type Svc interface{ M(); ext.T }", "type Svc interface{ M(); Gn[Loc, Loc2] }x",
			"type Other interface{ M() }", "var Svc Same", "func Svc() {}", "const Svc = 1", "type Svc = missing.I", "type Svc missing.I", "type Svc Missing", "type Svc interface{ M(); *Same }", "type Svc interface{ M(); []Same }", "type Svc interface{ M(); map[string]Same }"} {
			if strings.HasSuffix(d, "x") {
				continue
			}
			for _, same := range []bool{false, true} {
				id := fmt.Sprintf("n%d%v", k, same)
				g.write(id+"/src", "src", d, "", "")
				out := id + "/dst/dec.go"
				if same {
					out = id + "/src/dec.go"
				}
				res := m.Gen("-g", "-p", "./"+id+"/src", "-i", "Svc", "-t", "dump.tmpl", "-o", out)
				r.Count(1, 1, 0)
				if res.Code == 0 {
					r.Violate("no interface: "+d, fmt.Sprintf("generation succeeded for %q", d), map[string]any{"source": d, "same package": same})
				}
				if strings.Contains(res.Err, "goroutine ") {
					r.Violate("crash: "+d, "the generator crashed for "+d, map[string]any{"source": d, "stderr": res.Err})
				}
			}
		}
		lib.Parallel(len(jobs), func(i int) {
			g.run(fmt.Sprintf("c%d", i), jobs[i].form, jobs[i].es, jobs[i].same)
		})
		r.Set("bounds", fmt.Sprintf("%d kinds of interface elements (%d mentioning a type parameter) in %d forms of reaching the target; %s; chains of up to 12 packages, up to 300 methods and embedded interfaces; 31 declarations that are no usable interface", len(g02Elems)+len(g02GElems), len(g02GElems), len(g02Forms), map[bool]string{false: "every element in every form (the output package alternating), pairs of 22 elements directly and of all generic elements through a generic embedded interface", true: "every element in every form and both output packages, all ordered pairs in every form"}[r.Thorough()]))
	}}
}
