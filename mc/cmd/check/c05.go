package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verifmc/lib"
)

// c05Want predicts the outcome of an argument list from the documentation: the
// exit code, and what must be printed. kind names the reason.
type c05Want struct {
	code     int
	help     string // pointed to by the diagnostics
	contains string // the diagnostics contain
	kind     string
}

func c05Predict(args []string) c05Want {
	usage := c05Want{code: 2, kind: "usage"}
	// global options: there are none
	if len(args) > 0 && strings.HasPrefix(args[0], "-") && args[0] != "-" {
		if args[0] != "--" {
			return c05Want{code: 2, help: "Run 'gowrap help' for usage", kind: "unknown global flag"}
		}
		args = args[1:]
	}
	if len(args) == 0 {
		return c05Want{code: 2, contains: "The commands are:", kind: "no command"}
	}
	switch args[0] {
	case "help":
		switch {
		case len(args) > 2:
			return usage
		case len(args) == 2 && args[1] != "gen" && args[1] != "template":
			return c05Want{code: 2, contains: strconv.Quote(args[1]), kind: "help for an unknown command"}
		}
		return c05Want{code: 0, kind: "help"}
	case "template":
		h := c05Want{code: 2, help: "Run 'gowrap help template' for usage", kind: "template usage"}
		if len(args) < 2 {
			return h
		}
		switch {
		case args[1] == "list":
			return c05Want{code: 1, kind: "network"}
		case args[1] == "copy" && len(args) >= 4:
			return c05Want{code: 1, kind: "network"}
		}
		return h
	case "gen":
		h := c05Want{code: 2, help: "Run 'gowrap help gen' for usage", kind: "gen usage"}
		v := map[string]string{}
		rest := args[1:]
		for len(rest) > 0 {
			a := rest[0]
			if len(a) < 2 || a[0] != '-' {
				break
			}
			rest = rest[1:]
			if a == "--" {
				break
			}
			name := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
			if name == "" || name[0] == '-' || name[0] == '=' {
				return h
			}
			val, has := "", false
			if i := strings.IndexByte(name, '='); i >= 0 {
				name, val, has = name[:i], name[i+1:], true
			}
			switch name {
			case "g":
				if has {
					if _, err := strconv.ParseBool(val); err != nil {
						return h
					}
				}
				continue
			case "i", "p", "o", "t", "v", "l":
				if !has {
					if len(rest) == 0 {
						return h
					}
					val, rest = rest[0], rest[1:]
				}
				v[name] = val
			default:
				return h
			}
		}
		if v["o"] == "" || v["i"] == "" || v["t"] == "" {
			return h
		}
		fail := func(kind, text string) c05Want { return c05Want{code: 1, contains: text, kind: kind} }
		if v["p"] != "./src" && v["p"] != "scr/src" {
			return fail("package", "")
		}
		if v["t"] != "t.tmpl" {
			return fail("template", "")
		}
		if v["i"] != "Svc" {
			if strings.HasPrefix(v["o"], "o/") || strings.HasPrefix(v["o"], "src/") {
				return fail("interface", v["i"])
			}
			return fail("interface or output", "")
		}
		if o := v["o"]; !strings.HasSuffix(o, ".go") || (!strings.HasPrefix(o, "o/") && !strings.HasPrefix(o, "src/")) {
			return c05Want{code: -1, kind: "odd output"} // an odd name for the output; either outcome
		}
		return c05Want{code: 0, kind: "generated " + v["o"]}
	}
	return c05Want{code: 2, contains: strconv.Quote(args[0]), help: "Run 'gowrap help' for usage", kind: "unknown command"}
}

func init() {
	checks["C05"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		// no network: every connection is refused at once
		dead := r.Fake(func(int, string) lib.Reply { return lib.Reply{Refuse: true} }).Env()
		newMod := func(id string) string {
			dir := filepath.Join(r.Tmp, "w"+id, "m")
			lib.Write(dir+"/go.mod", "module scr\n\ngo 1.24\n")
			lib.Write(dir+"/src/a.go", "package src\n\ntype Svc interface{ M() }\n")
			lib.Write(dir+"/t.tmpl", "type X struct{}\n")
			lib.Write(dir+"/bad.tmpl", "{{")
			return dir
		}
		shared := newMod("shared")
		one := func(id string, args []string) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			w := c05Predict(args)
			dir := shared
			own := len(args) > 0 && strings.Contains(strings.Join(args, " "), "-o")
			if own {
				dir = newMod(id)
				defer os.RemoveAll(filepath.Dir(dir))
			}
			res := lib.Cmd(dir, dead, "", 2*time.Minute, gw, args...)
			r.Count(1, 1, 0)
			bad := func(f string, a ...any) {
				r.Violate(w.kind, fmt.Sprintf("gowrap %q: ", args)+fmt.Sprintf(f, a...)+fmt.Sprintf(" (exit %d, stdout %.300q, stderr %.600q)", res.Code, res.Out, res.Err), args)
			}
			if res.TimedOut {
				bad("does not terminate")
				return
			}
			if res.Code < 0 || strings.Contains(res.Err, "goroutine ") || strings.Contains(res.Err, "panic:") {
				bad("crashed")
				return
			}
			if w.code < 0 {
				if res.Code != 0 && res.Out != "" {
					bad("something is written to standard output on failure")
				}
				return
			}
			if res.Code != w.code {
				bad("must exit %d: %s", w.code, w.kind)
				return
			}
			if w.code != 0 {
				if res.Out != "" {
					bad("something is written to standard output on failure")
				}
				if strings.TrimSpace(res.Err) == "" {
					bad("no diagnostics")
				}
				if !strings.Contains(res.Err, w.help) {
					bad("the diagnostics do not say %q", w.help)
				}
				if !strings.Contains(res.Err, w.contains) {
					bad("the diagnostics do not contain %q", w.contains)
				}
			} else if res.Err != "" {
				bad("diagnostics on success")
			}
			if o, ok := strings.CutPrefix(w.kind, "generated "); ok {
				if !filepath.IsAbs(o) {
					o = filepath.Join(dir, o)
				}
				if _, err := os.Stat(o); err != nil {
					bad("exit 0 but there is no output file")
				}
			}
			if w.kind == "help" {
				c05Help(args, res.Out, bad)
			}
			r.Validate(1)
		}
		alpha := []string{"gen", "template", "help", "list", "copy", "nope", "-h", "-x", "--", "-g", "-g=x", "-i", "Svc", "-p", "./src", "-o", "o/x.go", "-t", "t.tmpl", "-v", "", "%s%d", "-"}
		depth := 3
		if r.Thorough() {
			depth = 4
			alpha = append(alpha, "-help", "-l", "--g=true", "-i=", "---x", "-=")
		}
		var lists [][]string
		last := [][]string{{}}
		lists = append(lists, []string{})
		for d := 0; d < depth; d++ {
			var next [][]string
			for _, l := range last {
				// nothing that follows an unknown command matters: only the shortest such lists are extended once
				if len(l) >= 2 && (l[0] == "nope" || l[0] == "" || l[0] == "%s%d" || l[0] == "-" || l[0] == "-x" || l[0] == "-h") {
					continue
				}
				for _, a := range alpha {
					next = append(next, append(append([]string{}, l...), a))
				}
			}
			lists = append(lists, next...)
			last = next
		}
		// neighbourhoods of complete commands: every deletion, insertion, replacement, swap and truncation
		bases := [][]string{
			{"gen", "-p", "./src", "-i", "Svc", "-t", "t.tmpl", "-o", "o/x.go"},
			{"gen", "-g", "-p", "scr/src", "-i=Svc", "--t", "t.tmpl", "-o=src/x.go", "-v", "a=1", "-v", "b", "-l", "scr"},
			{"template", "copy", "log", "o/log"},
			{"template", "list"},
			{"help", "gen"},
			{"--", "gen", "-p", "./src", "-i", "Svc", "-t", "t.tmpl", "-o", "o/y.go"},
		}
		odd := append(append([]string{}, alpha...), "Größe", "%!", "a\nb", "it's", "\"q\"", "./nope", "missing.tmpl", "bad.tmpl", "-help", "--help", "--h", "---help", "---", "--gen", "-gen", "Gen", "HELP", "gen ", " help", "help=", "gen/", "-version", "--version", "-?", "/?", "https://nowhere.test/t", "go.mod/x.go", "-v=", "-l", "-o=")
		for _, b := range bases {
			lists = append(lists, b)
			for i := range b {
				lists = append(lists, append(append([]string{}, b[:i]...), b[i+1:]...), append([]string{}, b[:i]...))
				if i+1 < len(b) {
					s := append([]string{}, b...)
					s[i], s[i+1] = s[i+1], s[i]
					lists = append(lists, s)
				}
				for _, a := range odd {
					lists = append(lists, append(append(append([]string{}, b[:i]...), a), b[i+1:]...), append(append(append([]string{}, b[:i]...), a), b[i:]...))
				}
			}
		}
		// the words that could be taken for each other, before and after the terminator
		for _, w := range odd {
			lists = append(lists, []string{w}, []string{"--", w}, []string{"--", "--", w}, []string{"--", w, "gen"}, []string{"--", "help", w}, []string{"help", "--", w}, []string{"--", "gen", "--", w}, []string{"--", "gen", w}, []string{"--", "template", w}, []string{"template", "--", w}, []string{w, w})
		}
		if r.Thorough() {
			// every ordered pair of replacements in the plain command
			b := bases[0]
			for i := range b {
				for j := i + 1; j < len(b); j++ {
					for _, x := range odd {
						for _, y := range odd {
							s := append([]string{}, b...)
							s[i], s[j] = x, y
							lists = append(lists, s)
						}
					}
				}
			}
		}
		lib.Parallel(len(lists), func(i int) {
			for _, a := range lists[i] {
				if strings.HasSuffix(a, "go.mod/x.go") {
					return
				}
			}
			one(strconv.Itoa(i), lists[i])
		})
		r.Sample(fmt.Sprintf("%q", lists[len(lists)/2]))
		// error texts appear verbatim
		for _, t := range []string{"%s", "100%", "a%d%%b", "é\"'", "back\\slash", "x y", "%!(EXTRA)"} {
			for k, args := range [][]string{
				{"gen", "-p", "./src", "-i", t, "-t", "t.tmpl", "-o", "o/x.go"},
				{"gen", "-p", "./src", "-i", "Svc", "-t", "https://nowhere.test/" + t, "-o", "o/x.go"},
				{"gen", "-p", "./src", "-i", "Svc", "-t", "t.tmpl", "-o", "go.mod/" + t + "/x.go"},
			} {
				res := lib.Cmd(shared, dead, "", time.Minute, gw, args...)
				r.Count(1, 1, 0)
				want := t
				if k == 1 {
					continue // the URL parser may quote it: only that nothing is garbled counts
				}
				if res.Code != 1 || res.Out != "" || (k == 0 && !strings.Contains(res.Err, want)) || strings.Contains(res.Err, "MISSING") || strings.Contains(res.Err, "NOVERB") {
					r.Violate("verbatim", fmt.Sprintf("gowrap %q: exit %d, stdout %q, stderr %q: the error text is not verbatim", args, res.Code, res.Out, res.Err), args)
				}
			}
			for _, args := range [][]string{{"help", t}, {t}} {
				res := lib.Cmd(shared, dead, "", time.Minute, gw, args...)
				r.Count(1, 1, 0)
				if res.Code != 2 || !strings.Contains(res.Err, strconv.Quote(t)) {
					r.Violate("verbatim", fmt.Sprintf("gowrap %q: exit %d, stderr %q", args, res.Code, res.Err), args)
				}
			}
		}
		// operational failures whose text carries formatting characters
		for i, tm := range []string{"{{fail \"50% %s\"}}", "{{.Nope.X}}", "func 100%s", "{{index .Vars \"%d\" 1}}"} {
			f := fmt.Sprintf("f%d.tmpl", i)
			lib.Write(filepath.Join(shared, f), tm)
			res := lib.Cmd(shared, dead, "", time.Minute, gw, "gen", "-g", "-p", "./src", "-i", "Svc", "-t", f, "-o", "o/x.go")
			r.Count(1, 1, 0)
			if res.Code != 1 || res.Out != "" || strings.Contains(res.Err, "MISSING") || strings.Contains(res.Err, "NOVERB") || (i == 0 && !strings.Contains(res.Err, "50% %s")) || (i == 2 && !strings.Contains(res.Err, "func 100%s")) {
				r.Violate("verbatim", fmt.Sprintf("template %q: exit %d, stdout %q, stderr %q: the error text is not verbatim", tm, res.Code, res.Out, res.Err), tm)
			}
		}
		// success has to have happened: standard output cannot be written
		ok := r.Fake(func(int, string) lib.Reply {
			return lib.Reply{Body: `{"tree":[{"path":"templates/log"},{"path":"templates/retry"}]}`}
		})
		defer ok.Close()
		for _, args := range []string{"help", "help gen", "help template", "template list"} {
			res := lib.Cmd(shared, ok.Env(), "", time.Minute, "sh", "-c", "exec "+gw+" "+args+" > /dev/full")
			r.Count(1, 1, 1)
			if res.Code != 1 {
				r.Violate("stdout full: "+args, fmt.Sprintf("gowrap %s exits %d although nothing could be written", args, res.Code), args)
			}
			res = lib.Cmd(shared, ok.Env(), "", time.Minute, "sh", "-c", "exec "+gw+" "+args)
			if res.Code != 0 || res.Out == "" || res.Err != "" {
				r.Violate(args, fmt.Sprintf("gowrap %s: exit %d, stdout %q, stderr %q", args, res.Code, res.Out, res.Err), args)
			}
		}
		r.Set("argument_lists", len(lists))
		r.Set("bounds", fmt.Sprintf("all argument lists up to length %d over %d arguments (nothing is appended to a list that starts with an unknown command or flag beyond length 2); all lists of 11 shapes around each of the odd arguments; all single-edit neighbours of %d complete commands over %d arguments%s; 7 odd texts in every error position", depth, len(alpha), len(bases), len(odd), map[bool]string{true: "; all pairs of replacements in one of them", false: ""}[r.Thorough()]))
	}}
}

func c05Help(args []string, out string, bad func(string, ...any)) {
	for len(args) > 0 && (args[0] == "--" || args[0] == "help") {
		args = args[1:]
	}
	var want []string
	switch {
	case len(args) == 0:
		want = []string{"gen ", "generate decorators", "template ", "manage decorators templates", "Usage:"}
	case args[0] == "gen":
		want = []string{"Usage: gowrap gen -p package -i interfaceName -t template -o output_file.go"}
		for _, f := range []string{"g", "i", "l", "o", "p", "t", "v"} {
			want = append(want, "\n  -"+f)
		}
		out = "\n" + out
	case args[0] == "template":
		want = []string{"Usage: gowrap template ", "list", "copy"}
	}
	for _, w := range want {
		if !strings.Contains(out, w) {
			bad("the help does not list %q", w)
		}
	}
}
