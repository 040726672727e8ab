package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verifmc/lib"
)

// c01Split is go generate's parsing of a directive, from its documentation:
// words separated by blanks, double-quoted ones unquoted as Go strings, then
// $NAME and ${NAME} replaced.
func c01Split(line string) ([]string, error) {
	line, ok := strings.CutPrefix(line, "//go:generate ")
	if !ok {
		return nil, fmt.Errorf("no directive")
	}
	var words []string
	for {
		line = strings.TrimLeft(line, " \t")
		if line == "" {
			break
		}
		var w string
		if line[0] == '"' {
			q, err := strconv.QuotedPrefix(line)
			if err != nil {
				return nil, err
			}
			w, _ = strconv.Unquote(q)
			line = line[len(q):]
			if line != "" && line[0] != ' ' && line[0] != '\t' {
				return nil, fmt.Errorf("no blank after a quoted word")
			}
		} else {
			i := strings.IndexAny(line, " \t")
			if i < 0 {
				i = len(line)
			}
			w, line = line[:i], line[i:]
		}
		words = append(words, os.Expand(w, func(n string) string {
			if n == "DOLLAR" {
				return "$"
			}
			return ""
		}))
	}
	return words, nil
}

type c01Case struct {
	cwd, pkg, iface, tmpl, out string
	vars                       []string
	local                      *string
	noGen                      bool
	// expectations
	wantTmpl string // in the header
	wantPkg  string // import path in the directive
	dstName  string
	linked   string // the template's real path, where symbolic links give it several names
}

func (c c01Case) args() []string {
	var a []string
	if c.noGen {
		a = append(a, "-g")
	}
	if c.pkg != "" {
		a = append(a, "-p", c.pkg)
	}
	a = append(a, "-i", c.iface, "-t", c.tmpl, "-o", c.out)
	for _, v := range c.vars {
		a = append(a, "-v", v)
	}
	if c.local != nil {
		a = append(a, "-l", *c.local)
	}
	return a
}

const c01Tmpl = `import (
	"strings"
	"scr/ext"
	"errors"
)

type {{.Vars.T__ | default (printf "X%s" (.Interface.Name))}}_T struct{ b {{.Interface.Type}} }

var _ = strings.ToUpper
var _ = errors.New
var _ ext.T
{{range $k, $v := .Vars}}
// @ {{printf "%q %T %q" $k $v (toString $v)}}
{{end}}
`

var c01Gen = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)

func init() {
	checks["C01"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		bin := filepath.Join(r.Tmp, "bin")
		os.MkdirAll(bin, 0o755)
		if err := os.Symlink(gw, filepath.Join(bin, "gowrap")); err != nil {
			r.Fatal("%v", err)
		}
		body := c01Tmpl
		net := r.Fake(func(_ int, url string) lib.Reply {
			switch {
			case strings.Contains(url, "api.github.com") && strings.Contains(url, "commits"):
				return lib.Reply{Body: `[{"sha":"0123abc"}]`}
			case strings.Contains(url, "tmpl.test"), strings.Contains(url, "raw.githubusercontent.com"):
				return lib.Reply{Body: body}
			}
			return lib.Reply{Status: 404}
		})
		defer net.Close()
		env := append(net.Env(), "PATH="+bin+":"+os.Getenv("PATH"), "HOME="+os.Getenv("HOME"))

		newMod := func(id string) string {
			dir := filepath.Join(r.Tmp, "g"+id, "m")
			w := func(p, s string) { lib.Write(filepath.Join(dir, p), s) }
			w("go.mod", "module scr\n\ngo 1.24\n")
			w("src/a.go", "package src\n\ntype Svc interface{ M(a int) error }\n\ntype Größe interface{ N() }\n")
			w("go-other/a.go", "package other\n\ntype Svc interface{ M(a int) error }\n")
			w("main/a.go", "package main\n\ntype Svc interface{ M(a int) error }\n\nfunc main() {}\n")
			w("ext/e.go", "package ext\n\ntype T int\n")
			w("have/h.go", "package named\n\ntype Svc interface{ M() }\n")
			w(".hid/h.go", "package hidden\n")
			w("_und/deep/h.go", "package under\n")
			w("testdata/h.go", "package td\n")
			w("..dots/h.go", "package dots\n")
			w("onlytest/h_test.go", "package onlytest\n")
			w("a.go", "package root\n\ntype Svc interface{ M(a int) error }\n")
			w("sub/a.go", "package sub\n\ntype Svc interface{ M(a int) error }\n")
			for _, t := range []string{"t.tmpl", "tm/u.tmpl", "tm/dir with space/a b.tmpl", "tm/$HOME.tmpl", "tm/${X}$.tmpl", "tm/\"q\".tmpl", "\"q", "tm/it's.tmpl", "tm/back\\slash.tmpl", "tm/é世.tmpl", "tm/a=b.tmpl", "tm/tab\there", "tm/nl\nx.tmpl", "tm/cr\rx", "tm/bad\xff.tmpl", "tm/\ufeffbom", "tm/nb\u00a0sp", "-x", "src/s.tmpl", "dst/log", "noext", "sub/t.tmpl", "%s.tmpl", "{{.}}.tmpl", "https:/x.tmpl"} {
				w(t, body)
			}
			// symbolic links to directories
			w("sub/deep/keep", "")
			w("sub/deep/t.tmpl", body)
			w("../outside/keep", "")
			for l, to := range map[string]string{"lnk": "sub/deep", "flat": "sub", "away": "../outside", "tl": "tm", "tdeep": "sub/deep", "cwd": "sub/deep"} {
				if err := os.Symlink(to, filepath.Join(dir, l)); err != nil {
					r.Fatal("%v", err)
				}
			}
			return dir
		}
		// one run: generate, check the header, run the directive, compare
		one := func(id string, dir string, c c01Case) (outPath string, first []byte, ok bool) {
			cwd := filepath.Join(dir, c.cwd)
			args := c.args()
			desc := fmt.Sprintf("in %q: gowrap gen %q", c.cwd, args)
			bad := func(key, f string, a ...any) {
				r.Violate(key, desc+": "+fmt.Sprintf(f, a...), map[string]any{"cwd": c.cwd, "args": args, "file": string(first)})
			}
			res := lib.Cmd(cwd, env, "", 2*time.Minute, gw, append([]string{"gen"}, args...)...)
			r.Count(1, 1, 0)
			if res.Code != 0 {
				bad("fails", "exit %d: %s", res.Code, res.Err)
				return
			}
			outPath = c.out
			if !filepath.IsAbs(outPath) {
				outPath = filepath.Join(cwd, c.out)
			}
			first, err := os.ReadFile(outPath)
			if err != nil {
				bad("fails", "no output")
				return
			}
			lines := strings.Split(string(first), "\n")
			if !c01Gen.MatchString(lines[0]) {
				bad("header", "the first line %q does not mark the file as generated", lines[0])
			}
			if p, ok := strings.CutPrefix(strings.Join(lines[1:min(2, len(lines))], ""), "// template: "); ok && c.linked != "" && p == filepath.Clean(p) && !filepath.IsAbs(p) {
				a, e1 := os.Stat(filepath.Dir(outPath) + "/" + p)
				b, e2 := os.Stat(c.linked)
				if e1 == nil && e2 == nil && os.SameFile(a, b) {
					c.wantTmpl = p
				}
			}
			if want := "// template: " + c.wantTmpl; len(lines) < 2 || lines[1] != want {
				bad("header", "the second line must be %q: %q", want, lines[1])
			}
			var dirs []string
			pk := ""
			for _, l := range lines {
				if strings.HasPrefix(l, "//go:generate") {
					dirs = append(dirs, l)
				}
				if p, ok := strings.CutPrefix(l, "package "); ok && pk == "" {
					pk = p
				}
			}
			if pk != c.dstName {
				bad("package", "the package clause names %s, must be %s", pk, c.dstName)
			}
			if c.noGen {
				if len(dirs) > 0 {
					bad("-g", "there is a directive: %s", dirs[0])
				}
				r.Validate(1)
				return outPath, first, false
			}
			if len(dirs) != 1 {
				bad("directives", "%d directives", len(dirs))
				return outPath, first, false
			}
			words, err := c01Split(dirs[0])
			if err != nil {
				bad("directive", "%s: %v", dirs[0], err)
				return outPath, first, false
			}
			// the directive says the same as the command
			wantT := c.wantTmpl
			if u, err := strconv.Unquote(wantT); err == nil && strings.HasPrefix(wantT, "\"") && !strings.HasPrefix(c.tmpl, "\"") {
				wantT = u
			}
			got := c01Flags(words)
			want := map[string][]string{"p": {c.wantPkg}, "i": {c.iface}, "t": {wantT}, "o": {filepath.Base(c.out)}, "v": c.vars, "l": {""}}
			if c.local != nil {
				want["l"] = []string{*c.local}
			}
			if len(words) < 2 || filepath.Base(words[0]) != "gowrap" || words[1] != "gen" {
				bad("directive", "not a gen command: %q", words)
			}
			for k, w := range want {
				g := got[k]
				if k == "l" && len(g) == 0 {
					g = []string{""}
				}
				if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
					bad("directive -"+k, "the directive %s has -%s %q, must be %q", dirs[0], k, g, w)
				}
			}
			if g := got["?"]; len(g) > 0 {
				bad("directive", "%s has %q in addition", dirs[0], g)
			}
			return outPath, first, true
		}
		// regenerate with the go command and compare; files holds the expected bytes by path
		regen := func(dir, pk string, files map[string][]byte, descs map[string]string) {
			for p, b := range files {
				os.WriteFile(p, append(append([]byte{}, b...), "\n// stale\n"...), 0o644)
			}
			what := "."
			for p := range files {
				if strings.HasSuffix(p, "_windows.go") {
					what = filepath.Base(p) // not part of the package here
				}
			}
			for len(files) > 0 {
				res := lib.Cmd(filepath.Join(dir, pk), env, "", 5*time.Minute, "go", "generate", what)
				r.Add("go_generate_runs", 1)
				if res.Code == 0 {
					break
				}
				hit := false
				for p := range files {
					if strings.Contains(res.Err, filepath.Base(p)+":") {
						key := "go generate fails"
						if strings.Contains(res.Err, "directive too long") && len(files[p]) > 4096 {
							key = "directive of 4096 bytes or more"
						}
						r.Violate(key, descs[p]+": go generate: "+res.Err, map[string]any{"file": string(files[p]), "error": res.Err})
						delete(files, p)
						os.Remove(p)
						hit = true
						break
					}
				}
				if !hit {
					r.Fatal("go generate: %s", res.Err)
				}
			}
			for p, b := range files {
				now, _ := os.ReadFile(p)
				if bytes.HasSuffix(now, []byte("// stale\n")) {
					r.Violate("not regenerated", descs[p]+": go generate leaves the file alone", map[string]any{"file": string(b)})
				} else if !bytes.Equal(now, b) {
					r.Violate("differs", fmt.Sprintf("%s: the regenerated file differs from the first one\n%s\n---\n%s", descs[p], b, now), map[string]any{"first": string(b), "second": string(now)})
				}
				r.Validate(1)
			}
		}
		str := func(s string) *string { return &s }

		// part 1: places; each case in its own module
		type place struct{ cwd, pkg, want string }
		places := []place{{"", "./src", "scr/src"}, {"", "scr/src", "scr/src"}, {"sub", "../src", "scr/src"}, {"", "", "scr"}, {"sub", "", "scr/sub"}, {"", "./go-other", "scr/go-other"}, {"sub", "scr/src/", "scr/src"}, {"", "ABS/src", "scr/src"}, {"", ".", "scr"}, {"src", "./", "scr/src"}}
		type outp struct{ out, name string }
		outs := []outp{{"ROOT/src/x.go", "src"}, {"ROOT/dst/x.go", "dst"}, {"ROOT/dst/new/deep/x.go", "deep"}, {"ROOT/have/x.go", "named"}, {"ROOT/main/x.go", "main"}, {"ROOT/dst/odd name.go", "dst"}, {"ROOT/dst/$y.go", "dst"}, {"ROOT/x.go", "root"}, {"ABS/dst/x.go", "dst"}, {"ROOT/dst/../dst/./x.go", "dst"}, {"ROOT/dst/x_test.go", "dst"}, {"ROOT/go-other/x.go", "other"}, {"ROOT/dst/é.go", "dst"}, {"ROOT/dst/-x.go", "dst"}, {"ROOT/dst/x_windows.go", "dst"}, {"ROOT/.hid/x.go", "hidden"}, {"ROOT/_und/deep/x.go", "under"}, {"ROOT/testdata/x.go", "td"}, {"ROOT/..dots/x.go", "dots"}, {"ROOT/lnk/x.go", "lnk"}, {"ROOT/flat/x.go", "sub"}, {"ROOT/away/x.go", "away"}, {"ROOT/lnk/new/er/x.go", "er"}, {"ABS/lnk/x.go", "lnk"}}
		tmpls := []string{"ROOT/t.tmpl", "ROOT/tm/u.tmpl", "ROOT/tm/dir with space/a b.tmpl", "ROOT/tm/$HOME.tmpl", "ROOT/tm/${X}$.tmpl", "ROOT/tm/\"q\".tmpl", "ROOT/\"q", "ROOT/tm/it's.tmpl", "ROOT/tm/back\\slash.tmpl", "ROOT/tm/é世.tmpl", "ROOT/tm/a=b.tmpl", "ROOT/tm/tab\there", "ROOT/tm/nl\nx.tmpl", "ROOT/tm/cr\rx", "ROOT/tm/bad\xff.tmpl", "ROOT/tm/\ufeffbom", "ROOT/tm/nb\u00a0sp", "ROOT/-x", "ROOT/src/s.tmpl", "ROOT/dst/log", "ROOT/noext", "ROOT/%s.tmpl", "ROOT/{{.}}.tmpl", "ROOT/tl/u.tmpl", "ROOT/tdeep/t.tmpl", "ROOT/lnk/../t.tmpl", "ABS/t.tmpl", "ABS/tm/dir with space/a b.tmpl", "ROOT/tm/../t.tmpl",
			"https://tmpl.test/t", "http://tmpl.test/t", "https://tmpl.test/a%20b?c=$d&e=\"f\"#g", "http://tmpl.test/${HOME}?q='x'", "circuitbreaker", "file://ROOT/t.tmpl"}
		var cases []c01Case
		mk := func(p place, o outp, t string, vs []string, l *string, g bool) {
			iface := "Svc"
			if p.want == "scr/src" && len(cases)%7 == 3 {
				iface = "Größe"
			}
			cases = append(cases, c01Case{cwd: p.cwd, pkg: p.pkg, iface: iface, tmpl: t, out: o.out, vars: vs, local: l, noGen: g, wantPkg: p.want, dstName: o.name})
		}
		for pi, p := range places {
			for oi, o := range outs {
				for ti, t := range tmpls {
					if o.name == "sub" && p.want == "scr/sub" {
						continue // one directory under two import paths
					}
					few := pi == 0 || oi == 1 && ti < 3 || ti == 0 || (pi+oi+ti)%17 == 0
					if pi == 0 && oi > 2 && ti > 2 && (oi+ti)%5 != 0 {
						few = false
					}
					if r.Thorough() || few {
						mk(p, o, t, nil, nil, false)
					}
				}
			}
		}
		for _, l := range []string{"", "scr", "scr/ext", "a b", "q\"", "$", "${HOME}", "a,b", "'", "é", "\\", "\t", "x\ny", "\xff", "scr/", "scr/ext/", "/", "//", "scr,", ",scr", " scr", "scr ", "-x", "--", "scr=", "a=1", "SCR", "./scr", "scr,scr", "scr, scr/ext", "`", "scr/.", "%s", "true"} {
			mk(places[0], outs[1], "ROOT/t.tmpl", nil, str(l), false)
			mk(places[2], outs[0], tmpls[2], []string{"a=1", "b"}, str(l), false)
			mk(places[0], outs[1], "ROOT/t.tmpl", []string{"a=1"}, str(l), true)
		}
		for _, o := range []outp{{"x.go", "cwd"}, {"new/x.go", "new"}, {"./x.go", "cwd"}, {"ABS/dst/x.go", "dst"}} {
			for _, t := range []string{"../t.tmpl", "t.tmpl", "ABS/t.tmpl", "ABS/tl/u.tmpl", "./../deep/t.tmpl"} {
				mk(place{"cwd", "scr/src", "scr/src"}, o, t, nil, nil, false)
			}
		}
		for i := range tmpls {
			mk(places[i%len(places)], outs[i%len(outs)], tmpls[i], []string{"x=y"}, nil, true)
		}
		lib.Parallel(len(cases), func(k int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			c := cases[k]
			id := strconv.Itoa(k)
			dir := newMod(id)
			defer os.RemoveAll(filepath.Dir(dir))
			root := "."
			if c.cwd != "" {
				root = ".."
			}
			sub := func(s string) string {
				s = strings.Replace(s, "ABS", dir, 1)
				s = strings.Replace(s, "ROOT/", root+"/", 1)
				if c.cwd == "" && !strings.Contains(s, "-") {
					s = strings.TrimPrefix(s, "./") // both spellings occur
				}
				return s
			}
			c.out = sub(c.out)
			if c.pkg != "./src" && c.pkg != "./go-other" && c.pkg != "./" {
				c.pkg = sub(c.pkg)
			}
			rawT := c.tmpl
			c.tmpl = sub(c.tmpl)
			// the name the header must give
			switch {
			case strings.HasPrefix(rawT, "http"):
				c.wantTmpl = rawT
			case rawT == "circuitbreaker":
				c.wantTmpl = "https://raw.githubusercontent.com/hexdigest/gowrap/0123abc/templates/circuitbreaker"
			default:
				tp := strings.TrimPrefix(c.tmpl, "file://")
				if !filepath.IsAbs(tp) {
					tp = filepath.Join(dir, c.cwd, tp)
				}
				op := c.out
				if !filepath.IsAbs(op) {
					op = filepath.Join(dir, c.cwd, op)
				}
				// relative to where the file really is
				at, err := filepath.EvalSymlinks(dir)
				if err != nil {
					r.Fatal("%v", err)
				}
				real := func(p string) string {
					d, n := filepath.Split(p)
					for {
						if e, err := filepath.EvalSymlinks(d); err == nil {
							return filepath.Join(e, n)
						}
						up, b := filepath.Split(strings.TrimSuffix(d, "/"))
						d, n = up, filepath.Join(b, n)
					}
				}
				raw := strings.TrimPrefix(c.tmpl, "file://")
				if !filepath.IsAbs(raw) {
					raw = at + "/" + c.cwd + "/" + raw
				}
				rel, err := filepath.Rel(filepath.Dir(real(op)), real(raw))
				if err != nil {
					r.Fatal("%v", err)
				}
				c.wantTmpl = rel
				if regexp.MustCompile(`\b(lnk|flat|away|tl|tdeep|cwd)\b`).MatchString(c.cwd + " " + c.out + " " + c.tmpl) {
					c.linked = real(raw)
				}
				if strings.ContainsAny(rel, "\n\r\t\xff\ufeff\u00a0") {
					c.wantTmpl = strconv.Quote(rel)
				}
			}
			out, first, ok := one(id, dir, c)
			if !ok {
				return
			}
			rel, _ := filepath.Rel(dir, filepath.Dir(out))
			regen(dir, rel, map[string][]byte{out: first}, map[string]string{out: fmt.Sprintf("in %q: gowrap gen %q", c.cwd, c.args())})
			if k%61 == 0 {
				r.Sample(fmt.Sprintf("%q", c.args()))
			}
		})

		// part 2: variables; many files per package
		alpha := []string{"a=1", "a=", "b", "a", "a=x y", "c=\"q\"", "\"c", "a=$HOME", "$b", "a=${X}$$", "a=\\n\\", "a='", "a==b", "=v", "", "a=é世", "a=t\tt", "a=1\n2", "-x=1", "-v", "a=\xff", " a = 1 ", "a=${DOLLAR}", "a=`", "a=\u2028", "a=-l \"x\"", "a=true"}
		var lists [][]string
		lists = append(lists, nil)
		for _, a := range alpha {
			lists = append(lists, []string{a})
			for _, b := range alpha {
				lists = append(lists, []string{a, b})
				if r.Thorough() {
					for _, c := range alpha {
						lists = append(lists, []string{a, b, c})
					}
				}
			}
		}
		if !r.Thorough() {
			for i, a := range alpha {
				lists = append(lists, []string{"a=0", a, "a=2"}, []string{a, "b", alpha[(i*5+3)%len(alpha)]})
			}
		}
		// many variables, long values
		for _, n := range []int{4, 5, 9, 10, 11, 12, 26, 60} {
			for k := 0; k < 3; k++ {
				var l []string
				for i := 0; i < n; i++ {
					switch {
					case k == 0:
						l = append(l, fmt.Sprintf("v%d=%d", n-i, i))
					case k == 1 && i%3 == 0:
						l = append(l, fmt.Sprintf("b%d", i))
					case k == 1:
						l = append(l, alpha[i%len(alpha)])
					default:
						l = append(l, fmt.Sprintf("v%d=%s", i%4, strings.Repeat("x ", i%13)))
					}
				}
				lists = append(lists, l)
			}
		}
		for _, n := range []int{60, 100, 255, 256, 257, 1000, 1024, 3500} {
			lists = append(lists, []string{"a=" + strings.Repeat("x", n)}, []string{"a=" + strings.Repeat("y z ", n/4), "b"}, []string{strings.Repeat("n", n) + "=1"}, []string{"a=" + strings.Repeat("\"", n/3)}, []string{"a=" + strings.Repeat("$", n/12)})
		}
		lists = append(lists, []string{"a=" + strings.Repeat("x", 5000)})
		const per = 40
		n := (len(lists) + per - 1) / per
		lib.Parallel(n, func(k int) {
			dir := newMod("v" + strconv.Itoa(k))
			defer os.RemoveAll(filepath.Dir(dir))
			files, descs := map[string][]byte{}, map[string]string{}
			for i, l := range lists[k*per : min(len(lists), (k+1)*per)] {
				if r.Left() < 0 {
					r.NotExhaustive("time")
					return
				}
				var lp *string
				if i%3 == 1 {
					lp = str("scr")
				}
				c := c01Case{pkg: "./src", iface: "Svc", tmpl: "t.tmpl", out: fmt.Sprintf("dst/x%d.go", i), vars: l, local: lp, wantTmpl: "../t.tmpl", wantPkg: "scr/src", dstName: "dst"}
				out, first, ok := one("", dir, c)
				if ok {
					files[out], descs[out] = first, fmt.Sprintf("gowrap gen %q", c.args())
				}
				// the values seen by the template
				want := map[string]string{}
				for _, v := range l {
					name, val, has := strings.Cut(v, "=")
					if has {
						want[name] = fmt.Sprintf("// @ %q string %q", name, val)
					} else {
						want[name] = fmt.Sprintf("// @ %q bool %q", name, "true")
					}
				}
				for _, w := range want {
					if len(first) > 0 && !bytes.Contains(first, []byte(w+"\n")) {
						r.Violate("value", fmt.Sprintf("gowrap gen %q: the template does not see %s", c.args(), w), c.args())
					}
				}
			}
			regen(dir, "dst", files, descs)
		})
		r.Set("variable_lists", len(lists))
		r.Set("places", len(cases))
		r.Set("bounds", fmt.Sprintf("%d of %d x %d x %d combinations of package reference and working directory, output and template (local, absolute, odd names, http(s) URL, hosted, file://), 34 local prefixes, -g; all lists of up to %d of %d -v arguments (quick: 2 and selected 3), 24 of 4 to 60, and names and values up to 3500 bytes (go generate reads at most 4095 bytes per line: known finding); every directive parsed and run by the real go generate and the regenerated bytes compared", len(cases), len(places), len(outs), len(tmpls), 3, len(alpha)))
	}}
}

// c01Flags reads the flags of a gen command as package flag does.
func c01Flags(words []string) map[string][]string {
	out := map[string][]string{}
	if len(words) < 2 {
		return out
	}
	rest := words[2:]
	for len(rest) > 0 {
		a := rest[0]
		rest = rest[1:]
		name := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		if !strings.HasPrefix(a, "-") || name == "" {
			out["?"] = append(out["?"], a)
			continue
		}
		if n, v, ok := strings.Cut(name, "="); ok {
			out[n] = append(out[n], v)
			continue
		}
		if name == "g" || len(rest) == 0 {
			out["?"] = append(out["?"], a)
			continue
		}
		out[name] = append(out[name], rest[0])
		rest = rest[1:]
	}
	return out
}
