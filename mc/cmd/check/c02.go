package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/lib"
)

// c02Tree describes every file below a directory: kind, permissions, contents.
func c02Tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		fi, err := d.Info()
		if err != nil {
			return nil
		}
		s := fi.Mode().String()
		switch {
		case fi.Mode()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %d %x", len(b), sha256.Sum256(b))
		}
		out[rel] = s
		return nil
	})
	return out
}

// c02Diff lists what changed, apart from the given path and from new directories.
func c02Diff(a, b map[string]string, except string) []string {
	var out []string
	for p, s := range a {
		if p != except && b[p] != s {
			out = append(out, fmt.Sprintf("%s: %s became %q", p, s, b[p]))
		}
	}
	for p, s := range b {
		if _, ok := a[p]; !ok && p != except && !strings.HasPrefix(s, "d") {
			out = append(out, fmt.Sprintf("%s appeared: %s", p, s))
		}
	}
	sort.Strings(out)
	return out
}

// asUser runs a command without privileges and with a limit on the size of the files it writes (-1: none).
func c02Cmd(dir string, env []string, user bool, limit int, name string, args ...string) lib.CmdResult {
	if limit >= 0 {
		// the soft limit only: the go command that is run by gowrap lifts it
		args = append([]string{"--fsize=" + strconv.Itoa(limit) + ":", name}, args...)
		name = "prlimit"
	}
	if !user {
		return lib.Cmd(dir, env, "", 2*time.Minute, name, args...)
	}
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(env[:len(env):len(env)], "PWD="+dir)
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	r := lib.CmdResult{Out: o.String(), Err: e.String()}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		} else {
			r.Err += err.Error()
		}
	}
	return r
}

func init() {
	checks["C02"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		os.Chmod(r.Tmp, 0o755)
		os.Chmod(filepath.Dir(gw), 0o755)
		realGo, err := exec.LookPath("go")
		if err != nil {
			r.Fatal("%v", err)
		}
		bin := filepath.Join(r.Tmp, "bin")
		lib.Write(filepath.Join(bin, "go"), "#!/bin/bash\nulimit -S -f unlimited\nexec "+realGo+" \"$@\"\n")
		os.Chmod(bin+"/go", 0o755)
		os.Chmod(bin, 0o755)
		net := r.Fake(func(int, string) lib.Reply { return lib.Reply{Status: 500} })
		defer net.Close()
		var base []string
		for _, e := range append(os.Environ(), net.Env()...) {
			if !strings.HasPrefix(e, "GOCACHE=") && !strings.HasPrefix(e, "HOME=") && !strings.HasPrefix(e, "PATH=") && !strings.HasPrefix(e, "XDG_") && !strings.HasPrefix(e, "GOPATH=") && !strings.HasPrefix(e, "GOMODCACHE=") {
				base = append(base, e)
			}
		}
		envOf := func(name string) []string {
			cache := filepath.Join(r.Tmp, name)
			os.MkdirAll(cache, 0o777)
			os.Chmod(cache, 0o777)
			return append(base[:len(base):len(base)], "PATH="+bin+":"+os.Getenv("PATH"), "GOCACHE="+cache, "HOME="+cache, "GOPATH="+cache+"/gopath", "GOMODCACHE="+cache+"/mod")
		}
		env, userEnv := envOf("cache"), envOf("cacheuser")

		pad := strings.Repeat("// padding padding padding padding padding padding padding\n", 40)
		files := map[string]string{
			"go.mod":         "module scr\n\ngo 1.24\n",
			"src/a.go":       "package src\n\ntype Svc interface{ M(a int) error }\n\ntype Empty interface{}\n\ntype S struct{}\n\ntype Unex interface{ m() }\n\ntype Low interface{ M(lower) }\n\ntype lower int\n",
			"broken/a.go":    "package broken\n\nfunc {\n",
			"two/a.go":       "package two\n\ntype Svc interface{ M(a Missing.T) }\n",
			"long.tmpl":      "type X{{.Interface.Name}} struct{}\n\n" + pad,
			"short.tmpl":     "type Y{{.Interface.Name}} struct{}\n",
			"mid.tmpl":       "type Z{{.Interface.Name}} struct{}\n\n" + pad[:len(pad)/2],
			"parse.tmpl":     "type X struct{}\n{{if}}\n",
			"func.tmpl":      "{{nosuchfunction 1}}\n",
			"early.tmpl":     "{{fail \"early\"}}\n" + pad,
			"late.tmpl":      pad + "type X struct{}\n{{range .Interface.Methods}}{{.Nope}}{{end}}\n",
			"afterwrite.tmp": "x",
			"notgo.tmpl":     pad + "func func func\n",
			"notgo2.tmpl":    "type X struct{}\n" + pad + "\"unterminated\n",
			"pkg.tmpl":       "package again\n",
		}
		newMod := func(id string) string {
			dir := filepath.Join(r.Tmp, "w"+id, "m")
			for p, c := range files {
				lib.Write(filepath.Join(dir, p), c)
			}
			os.MkdirAll(filepath.Join(dir, "unreadable.tmpl"), 0o755)
			return dir
		}
		gen := func(tmpl, iface, p, out string) []string {
			return []string{"gen", "-p", p, "-i", iface, "-t", tmpl, "-o", out}
		}
		// the complete outputs, from clean modules
		want := map[string][]byte{}
		for _, t := range []string{"long.tmpl", "short.tmpl", "mid.tmpl"} {
			dir := newMod("ref" + t)
			res := c02Cmd(dir, env, false, -1, gw, gen(t, "Svc", "./src", "dst/x.go")...)
			b, err := os.ReadFile(dir + "/dst/x.go")
			if res.Code != 0 || err != nil || !strings.Contains(string(b), "Svc struct{}") {
				r.Fatal("reference run: %d %s", res.Code, res.Err)
			}
			want[t] = b
		}
		full := len(want["long.tmpl"])

		type stage struct {
			name string
			args func(out string) []string
			ok   string // the template whose output is expected on success
		}
		g := func(t, i, p string) func(string) []string {
			return func(o string) []string { return gen(t, i, p, o) }
		}
		stages := []stage{
			{"ok long", g("long.tmpl", "Svc", "./src"), "long.tmpl"},
			{"ok short", g("short.tmpl", "Svc", "./src"), "short.tmpl"},
			{"no template", func(o string) []string { return []string{"gen", "-p", "./src", "-i", "Svc", "-o", o} }, ""},
			{"unknown flag", func(o string) []string {
				return []string{"gen", "-o", o, "-p", "./src", "-i", "Svc", "-t", "long.tmpl", "-z"}
			}, ""},
			{"no package", g("long.tmpl", "Svc", "./nope"), ""},
			{"broken package", g("long.tmpl", "Svc", "./broken"), ""},
			{"template missing", g("nope.tmpl", "Svc", "./src"), ""},
			{"template is a directory", g("unreadable.tmpl", "Svc", "./src"), ""},
			{"template url fails", g("https://nope.test/t", "Svc", "./src"), ""},
			{"parse error", g("parse.tmpl", "Svc", "./src"), ""},
			{"unknown function", g("func.tmpl", "Svc", "./src"), ""},
			{"early execution error", g("early.tmpl", "Svc", "./src"), ""},
			{"late execution error", g("late.tmpl", "Svc", "./src"), ""},
			{"not Go", g("notgo.tmpl", "Svc", "./src"), ""},
			{"not Go at the end", g("notgo2.tmpl", "Svc", "./src"), ""},
			{"package clause twice", g("pkg.tmpl", "Svc", "./src"), ""},
			{"no interface", g("long.tmpl", "Nope", "./src"), ""},
			{"not an interface", g("long.tmpl", "S", "./src"), ""},
			{"empty interface", g("long.tmpl", "Empty", "./src"), ""},
			{"unexported method", g("long.tmpl", "Unex", "./src"), ""},
			{"unexported type", g("long.tmpl", "Low", "./src"), ""},
		}
		type prior struct {
			name   string
			out    string // relative to the module
			set    func(dir string)
			cannot bool   // no run can succeed
			user   bool   // without privileges
			how    string // "up": from another directory of the module; "abs": the output is absolute
		}
		put := func(p, c string, m os.FileMode) func(string) {
			return func(dir string) {
				lib.Write(filepath.Join(dir, p), c)
				os.Chmod(filepath.Join(dir, p), m)
			}
		}
		open := func(dir string) {
			os.Chmod(filepath.Dir(dir), 0o777)
			filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
				if err == nil && d.IsDir() {
					os.Chmod(p, 0o777)
				}
				return nil
			})
		}
		priors := []prior{
			{"absent", "dst/x.go", func(string) {}, false, false, ""},
			{"absent, parents too", "dst/a/b/dst/x.go", func(string) {}, false, false, ""},
			{"empty", "dst/x.go", put("dst/x.go", "", 0o644), false, false, ""},
			{"shorter", "dst/x.go", put("dst/x.go", "package dst\n", 0o644), false, false, ""},
			{"longer", "dst/x.go", put("dst/x.go", "package dst\n"+strings.Repeat(pad, 3), 0o600), false, false, ""},
			{"not Go", "dst/x.go", put("dst/x.go", "\x00\xff rubbish {{", 0o640), false, false, ""},
			{"next to others", "dst/x.go", func(d string) {
				put("dst/x.go", "package dst\n\ntype Old int\n", 0o755)(d)
				put("dst/y.go", "package dst\n\ntype Other int\n", 0o644)(d)
				put("dst/x.go.tmp", "mine", 0o644)(d)
				put("dst/.x.go", "mine", 0o644)(d)
			}, false, false, ""},
			{"no suffix", "dst/out", put("dst/out", "text", 0o644), false, false, ""},
			{"link", "dst/x.go", func(d string) {
				put("real/y", "package dst\n"+pad, 0o644)(d)
				os.MkdirAll(d+"/dst", 0o755)
				os.Symlink("../real/y", d+"/dst/x.go")
			}, false, false, ""},
			{"directory", "dst/x.go", func(d string) { os.MkdirAll(d+"/dst/x.go", 0o755) }, true, false, ""},
			{"parent is a file", "dst/x.go", put("dst", "file", 0o644), true, false, ""},
			{"grandparent is a file", "dst/dst/x.go", put("dst", "file", 0o644), true, false, ""},
			{"absent, unprivileged", "dst/x.go", open, false, true, ""},
			{"present, unprivileged", "dst/x.go", func(d string) { put("dst/x.go", "package dst\n"+pad, 0o666)(d); open(d) }, false, true, ""},
			{"read-only", "dst/x.go", func(d string) { put("dst/x.go", "package dst\n"+pad, 0o444)(d); open(d) }, true, true, ""},
			{"directory read-only", "dst/x.go", func(d string) { os.MkdirAll(d+"/dst", 0o755) }, true, true, ""},
			{"parent cannot be made", "dst/dst/x.go", func(d string) { os.MkdirAll(d+"/dst", 0o755) }, true, true, ""},
			{"directory unreadable", "dst/x.go", func(d string) { open(d); os.MkdirAll(d+"/dst", 0o755); os.Chmod(d+"/dst", 0) }, true, true, ""},
			{"absent, outside the working directory", "dst/x.go", func(string) {}, false, false, "up"},
			{"absent, outside the working directory, parents too", "dst/a/b/dst/x.go", func(string) {}, false, false, "up"},
			{"present, outside the working directory", "dst/x.go", put("dst/x.go", "package dst\n"+strings.Repeat(pad, 3), 0o600), false, false, "up"},
			{"directory, outside the working directory", "dst/x.go", func(d string) { os.MkdirAll(d+"/dst/x.go", 0o755) }, true, false, "up"},
			{"absent, absolute", "dst/x.go", func(string) {}, false, false, "abs"},
			{"absent, absolute, parents too", "dst/a/b/dst/x.go", func(string) {}, false, false, "abs"},
			{"present, absolute", "dst/x.go", put("dst/x.go", "package dst\n"+pad, 0o600), false, false, "abs"},
			{"parent is a file, absolute", "dst/x.go", put("dst", "file", 0o644), true, false, "abs"},
		}
		// can we drop privileges?
		if res := c02Cmd(r.Tmp, env, true, -1, "true"); res.Code != 0 {
			r.NotExhaustive("cannot run commands as an unprivileged user: " + res.Err)
			var p []prior
			for _, x := range priors {
				if !x.user {
					p = append(p, x)
				}
			}
			priors = p
		}
		type job struct {
			st    stage
			pr    prior
			limit int
		}
		var jobs []job
		for _, p := range priors {
			for _, s := range stages {
				jobs = append(jobs, job{s, p, -1})
			}
		}
		step := 97
		if r.Thorough() {
			step = 7
		}
		for pi, p := range priors {
			if p.cannot {
				continue
			}
			lim := map[int]bool{0: true, 1: true, 512: true, 1024: true, 2048: true, full - 1: true, full: true, full + 99: true}
			if p.name == "no suffix" || pi < 7 || r.Thorough() {
				for n := 0; n <= full+step; n += step {
					lim[n] = true
				}
			}
			for n := range lim {
				jobs = append(jobs, job{stages[0], p, n})
			}
		}
		lib.Parallel(len(jobs), func(k int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			j := jobs[k]
			dir := newMod(strconv.Itoa(k))
			defer os.RemoveAll(filepath.Dir(dir))
			j.pr.set(dir)
			defer os.Chmod(dir+"/dst", 0o755)
			cwd, arg := dir, j.pr.out
			if j.pr.how == "up" {
				cwd = dir + "/sub/dir"
				os.MkdirAll(cwd, 0o755)
				arg = "../../" + arg
			} else if j.pr.how == "abs" {
				arg = dir + "/" + arg
			}
			before := c02Tree(dir)
			args := j.st.args(arg)
			if j.pr.how == "up" {
				for i, a := range args {
					if strings.HasPrefix(a, "./") || strings.HasSuffix(a, ".tmpl") {
						args[i] = "../../" + a
					}
				}
			}
			e := env
			if j.pr.user {
				e = userEnv
			}
			res := c02Cmd(cwd, e, j.pr.user, j.limit, gw, args...)
			after := c02Tree(dir)
			r.Count(1, 1, 0)
			desc := fmt.Sprintf("output %s, %s", j.pr.name, j.st.name)
			if j.limit >= 0 {
				desc += fmt.Sprintf(", files limited to %d bytes (the output has about %d)", j.limit, full)
			}
			bad := func(key, f string, a ...any) {
				r.Violate(key, desc+": "+fmt.Sprintf(f, a...), map[string]any{"args": args, "exit": res.Code, "stderr": res.Err, "before": before[j.pr.out], "after": after[j.pr.out]})
			}
			out := j.pr.out
			if d := c02Diff(before, after, out); len(d) > 0 {
				if j.pr.name == "link" {
					// the file behind the link is the output
					var o []string
					for _, x := range d {
						if !strings.HasPrefix(x, "real/y:") || res.Code != 0 {
							o = append(o, x)
						}
					}
					d = o
				}
				if len(d) > 0 {
					bad("other files", "exit %d; other files changed: %s", res.Code, strings.Join(d, "; "))
				}
			}
			// the complete output: the header names the template and the output relative to each other
			w := want[j.st.ok]
			w = bytes.ReplaceAll(w, []byte("../"+j.st.ok), []byte(strings.Repeat("../", strings.Count(out, "/"))+j.st.ok))
			w = bytes.ReplaceAll(w, []byte("-o x.go"), []byte("-o "+filepath.Base(out)))
			must := ""
			switch {
			case j.st.ok == "" || j.pr.cannot:
				must = "fail"
			case j.limit < 0 || j.limit >= len(w):
				must = "succeed"
			default:
				must = "fail"
			}
			if must == "fail" && res.Code == 0 {
				bad("exit 0 on failure", "the run must fail, but it exits 0")
			}
			if must == "succeed" && res.Code != 0 {
				bad("fails", "the run must succeed, but it exits %d: %s", res.Code, res.Err)
			}
			if res.Code != 0 {
				if strings.TrimSpace(res.Err) == "" {
					bad("silent", "the failure is not reported")
				}
				if before[out] != after[out] {
					bad("output changed", "the run fails (exit %d, %s), but the output path changed from %q to %q", res.Code, strings.TrimSpace(res.Err), before[out], after[out])
				}
			} else {
				got, _ := os.ReadFile(filepath.Join(dir, out))
				if !bytes.Equal(got, w) {
					bad("incomplete", "the run exits 0 but the output holds %d bytes that are not the complete generated source (%d bytes)", len(got), len(w))
				}
			}
			r.Validate(1)
			if k%37 == 0 {
				r.Sample(desc)
			}
		})

		// histories of runs over one output
		type ev struct {
			stage int
			limit int
		}
		events := []ev{{0, -1}, {1, -1}, {12, -1}, {14, -1}, {0, full / 2}, {0, full - 1}, {8, -1}}
		depth := 3
		if r.Thorough() {
			depth = 4
		}
		var hist [][]ev
		last := [][]ev{{}}
		for d := 0; d < depth; d++ {
			var next [][]ev
			for _, h := range last {
				for _, e := range events {
					next = append(next, append(append([]ev{}, h...), e))
				}
			}
			last = next
		}
		hist = last
		lib.Parallel(len(hist), func(k int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			dir := newMod("h" + strconv.Itoa(k))
			defer os.RemoveAll(filepath.Dir(dir))
			var cur []byte
			var names []string
			for _, e := range hist[k] {
				s := stages[e.stage]
				names = append(names, fmt.Sprintf("%s/%d", s.name, e.limit))
				before := c02Tree(dir)
				res := c02Cmd(dir, env, false, e.limit, gw, s.args("dst/x.go")...)
				r.Count(1, 1, 0)
				if s.ok != "" && e.limit < 0 {
					cur = want[s.ok]
					if res.Code != 0 {
						r.Violate("history fails", fmt.Sprintf("after %v: exit %d: %s", names, res.Code, res.Err), names)
						return
					}
				} else if res.Code == 0 {
					r.Violate("history succeeds", fmt.Sprintf("after %v: exit 0", names), names)
					return
				}
				if d := c02Diff(before, c02Tree(dir), "dst/x.go"); len(d) > 0 {
					r.Violate("history other files", fmt.Sprintf("after %v: %v", names, d), names)
				}
				got, err := os.ReadFile(dir + "/dst/x.go")
				if (cur == nil) != os.IsNotExist(err) || !bytes.Equal(got, cur) {
					r.Violate("history output", fmt.Sprintf("after %v: the output holds %d bytes, must hold the %d bytes of the last success", names, len(got), len(cur)), names)
					return
				}
			}
			r.Validate(1)
		})
		r.Set("runs_with_faults", len(jobs))
		r.Set("histories", len(hist))
		r.Set("bounds", fmt.Sprintf("%d stages (2 successes, 19 kinds of failure) x %d prior states of the output; file size limits from 0 to the full output (%d bytes) every %d bytes and at the boundaries, for each prior state that can be written; all histories of length %d over %d kinds of run", len(stages), len(priors), full, step, depth, len(events)))
	}}
}
