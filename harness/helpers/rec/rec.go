// Package rec collects what the generated decorators observed.
package rec

// Obs is one observation made inside a decorated method.
type Obs struct {
	Kind, Method string
	Struct       any
	Names        []string
	Vals         []any
	Map          map[string]interface{}
	HasP, HasR   bool
	PN, RN       string
}

// Log is what was observed since it was last emptied.
var Log []Obs

func Has(m string, p, r bool, pn, rn string) {
	Log = append(Log, Obs{Kind: "has", Method: m, HasP: p, HasR: r, PN: pn, RN: rn})
}

func Params(m string, s any, names []string, vals ...any) {
	Log = append(Log, Obs{Kind: "params", Method: m, Struct: s, Names: names, Vals: vals})
}

func Ptrs(m string, s any, vals ...any) {
	Log = append(Log, Obs{Kind: "ptrs", Method: m, Struct: s, Vals: vals})
}

func Results(m string, s any, names []string) {
	Log = append(Log, Obs{Kind: "results", Method: m, Struct: s, Names: names})
}

func Map(m, kind string, v map[string]interface{}, names []string) {
	Log = append(Log, Obs{Kind: kind + " map", Method: m, Map: v, Names: names})
}
