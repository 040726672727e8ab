// Runs every generated helper decorator on every method and compares what it does with what the method's type says.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"scr/rec"
)

// do is what the implementation does.
var do func(m string, args []any) []any

func as[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// unit is one interface with its decorators.
type unit struct {
	pkg   string
	iface reflect.Type
	decs  []any
	names map[string][2][]string // method -> given parameter and result names ("" anonymous)
}

var kinds = []string{"Pass", "Call", "Signature", "ParamsStruct/ReturnStruct", "ParamPtrsStruct", "ParamsMap/ResultsMap"}

type tagErr struct{ tag int }

func (e *tagErr) Error() string { return fmt.Sprint("e", e.tag) }

// M makes it implement the interfaces of package ty.
func (e *tagErr) M() int { return e.tag }

type key struct{}

// mk makes a value of the type that tells the tag.
func mk(t reflect.Type, tag int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int32, reflect.Int64:
		v.SetInt(int64(tag))
	case reflect.Uint, reflect.Uint8, reflect.Uint64:
		v.SetUint(uint64(tag))
	case reflect.Float64:
		v.SetFloat(float64(tag))
	case reflect.Complex128:
		v.SetComplex(complex(float64(tag), 1))
	case reflect.Bool:
		v.SetBool(tag%2 == 0)
	case reflect.String:
		v.SetString(fmt.Sprint("v", tag))
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(mk(t.Elem(), tag))
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 1, 1))
		v.Index(0).Set(mk(t.Elem(), tag))
	case reflect.Array:
		v.Index(0).Set(mk(t.Elem(), tag))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(mk(t.Key(), tag), mk(t.Elem(), tag))
	case reflect.Chan:
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 1).Convert(t))
	case reflect.Struct:
		if t.NumField() > 0 {
			v.Field(0).Set(mk(t.Field(0).Type, tag))
		}
	case reflect.Func:
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			called = tag
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, reflect.Zero(t.Out(i)))
			}
			return out
		}))
	case reflect.Interface:
		if t == reflect.TypeFor[context.Context]() {
			v.Set(reflect.ValueOf(context.WithValue(context.Background(), key{}, tag)))
		} else {
			v.Set(reflect.ValueOf(&tagErr{tag}))
		}
	case reflect.UnsafePointer:
	default:
		panic("no maker for " + t.String())
	}
	return v
}

var called int

// same reports whether both are the very same value.
func same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Slice:
		return x.Len() == y.Len() && x.IsNil() == y.IsNil() && x.Pointer() == y.Pointer()
	case reflect.Map, reflect.Pointer, reflect.Chan:
		return x.Pointer() == y.Pointer()
	case reflect.Func:
		if x.IsNil() || y.IsNil() {
			return x.IsNil() && y.IsNil()
		}
		var got [2]int
		for i, f := range []reflect.Value{x, y} {
			var in []reflect.Value
			for k := 0; k < f.Type().NumIn(); k++ {
				in = append(in, reflect.Zero(f.Type().In(k)))
			}
			called = -1
			if f.Type().IsVariadic() {
				f.CallSlice(in)
			} else {
				f.Call(in)
			}
			got[i] = called
		}
		return got[0] == got[1]
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !same(x.Field(i).Interface(), y.Field(i).Interface()) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func sameAll(a, b []any) int {
	if len(a) != len(b) {
		return len(a)
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return i
		}
	}
	return -1
}

type problem struct{ Method, Helper, Msg string }

var (
	problems []problem
	calls    int
	seen     = map[string]bool{}
)

func main() {
	for _, u := range units() {
		for mi := 0; mi < u.iface.NumMethod(); mi++ {
			m := u.iface.Method(mi)
			for k, d := range u.decs {
				for _, arity := range arities(m.Type) {
					for _, zero := range []bool{false, true} {
						try(u, m, k, d, arity, zero)
					}
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"problems": problems, "calls": calls})
}

func arities(t reflect.Type) []int {
	if t.IsVariadic() {
		return []int{-1, 0, 1, 2}
	}
	return []int{0}
}

func try(u unit, m reflect.Method, k int, d any, arity int, zero bool) {
	calls++
	t := m.Type
	report := func(f string, a ...any) {
		id := u.pkg + m.Name + kinds[k]
		if !seen[id] && len(problems) < 60 {
			seen[id] = true
			problems = append(problems, problem{u.pkg + "." + m.Name, kinds[k], fmt.Sprintf(f, a...)})
		}
	}
	var in []reflect.Value
	var args, results []any
	for i := 0; i < t.NumIn(); i++ {
		v := reflect.Zero(t.In(i))
		if t.IsVariadic() && i == t.NumIn()-1 {
			if arity >= 0 {
				v = reflect.MakeSlice(t.In(i), arity, arity)
				for j := 0; j < arity; j++ {
					v.Index(j).Set(mk(t.In(i).Elem(), 11+10*i+j))
				}
			}
		} else if !zero {
			v = mk(t.In(i), 11+10*i)
		}
		in = append(in, v)
		args = append(args, v.Interface())
	}
	for i := 0; i < t.NumOut(); i++ {
		v := reflect.Zero(t.Out(i))
		if !zero {
			v = mk(t.Out(i), 61+10*i)
		}
		results = append(results, v.Interface())
	}
	n := 0
	do = func(name string, a []any) []any {
		n++
		if name != m.Name {
			report("%s was called on the implementation", name)
		}
		if i := sameAll(a, args); i >= 0 {
			report("argument %d reached the implementation as %v, not %v", i, at(a, i), at(args, i))
		}
		return results
	}
	rec.Log = nil
	var out []reflect.Value
	func() {
		defer func() {
			if p := recover(); p != nil {
				report("panic: %v", p)
			}
		}()
		f := reflect.ValueOf(d).MethodByName(m.Name)
		if t.IsVariadic() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
	}()
	if n != 1 {
		report("the implementation was called %d times", n)
		return
	}
	var got []any
	for _, v := range out {
		got = append(got, v.Interface())
	}
	if i := sameAll(got, results); i >= 0 {
		report("result %d reached the caller as %v, not %v", i, at(got, i), at(results, i))
	}
	want := map[int][]string{1: {"has"}, 3: {"params", "results"}, 4: {"ptrs"}, 5: {"params map", "results map"}}[k]
	var kindsSeen []string
	for _, o := range rec.Log {
		kindsSeen = append(kindsSeen, o.Kind)
		check(u, m, o, args, results, report)
	}
	if !reflect.DeepEqual(want, kindsSeen) {
		report("observed %v", kindsSeen)
	}
}

func at(l []any, i int) any {
	if i < len(l) {
		return fmt.Sprintf("%T %v", l[i], l[i])
	}
	return "nothing"
}

func check(u unit, m reflect.Method, o rec.Obs, args, results []any, report func(string, ...any)) {
	t := m.Type
	if o.Method != m.Name {
		report("method rendered as %s", o.Method)
	}
	given := u.names[m.Name]
	names := func(what string, got, given []string, n int) {
		if len(got) != n {
			report("%s names %q for %d", what, got, n)
			return
		}
		dup := map[string]bool{}
		for i, g := range got {
			if g == "" || g == "_" || dup[g] {
				report("%s names %q", what, got)
			}
			dup[g] = true
			if given != nil && given[i] != "" && g != given[i] {
				report("%s %s is rendered as %s", what, given[i], g)
			}
		}
	}
	split := func(s string) []string {
		if s == "" {
			return nil
		}
		return strings.Split(s, ", ")
	}
	fields := func(what string, in bool, ptr bool, names []string) {
		st := reflect.TypeOf(o.Struct)
		n, f := t.NumIn(), t.In
		if !in {
			n, f = t.NumOut(), t.Out
		}
		if st.NumField() != n {
			report("%s has %d fields for %d", what, st.NumField(), n)
			return
		}
		for i := 0; i < n; i++ {
			w := f(i)
			if ptr {
				w = reflect.PointerTo(w)
			}
			if st.Field(i).Type != w {
				report("field %d of %s has type %s, not %s", i, what, st.Field(i).Type, w)
			}
			if names != nil && st.Field(i).Name != names[i] {
				report("field %d of %s is called %s, not %s", i, what, st.Field(i).Name, names[i])
			}
		}
	}
	switch o.Kind {
	case "has":
		if o.HasP != (t.NumIn() > 0) || o.HasR != (t.NumOut() > 0) {
			report("HasParams %v HasResults %v", o.HasP, o.HasR)
		}
		names("parameter", split(o.PN), given[0], t.NumIn())
		names("result", split(o.RN), given[1], t.NumOut())
	case "params":
		names("parameter", o.Names, given[0], t.NumIn())
		fields("ParamsStruct", true, false, o.Names)
		if i := sameAll(o.Vals, args); i >= 0 {
			report("field %d of ParamsStruct holds %v, not %v", i, at(o.Vals, i), at(args, i))
		}
	case "ptrs":
		fields("ParamPtrsStruct", true, true, nil)
		if i := sameAll(o.Vals, args); i >= 0 {
			report("field %d of ParamPtrsStruct points to %v, not %v", i, at(o.Vals, i), at(args, i))
		}
	case "results":
		names("result", o.Names, given[1], t.NumOut())
		fields("ResultsStruct", false, false, o.Names)
	case "params map", "results map":
		l := args
		g := given[0]
		if o.Kind == "results map" {
			l, g = results, given[1]
		}
		names("map key", o.Names, g, len(l))
		if len(o.Map) != len(l) {
			report("%s has %d keys for %d", o.Kind, len(o.Map), len(l))
			return
		}
		for i, n := range o.Names {
			v, ok := o.Map[n]
			if !ok {
				report("%s has no key %s", o.Kind, n)
			} else if !same(v, l[i]) {
				report("%s binds %s to %v, not %v", o.Kind, n, v, l[i])
			}
		}
	}
}
