package main

import (
	"fmt"
	"io/fs"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/lib"
)

// hostedRepo answers like the hosted repository: a commit per file, raw contents by commit.
type hostedRepo map[string]string // template name -> contents

func hostedSHA(name string) string { return fmt.Sprintf("%040x", len(name)*7919+int(name[0])) }

func (h hostedRepo) reply(raw string) lib.Reply {
	u, err := url.Parse(raw)
	if err != nil {
		return lib.Reply{Status: 400}
	}
	switch u.Host {
	case "api.github.com":
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil {
			return lib.Reply{Status: 400}
		}
		name := strings.TrimPrefix(q.Get("path"), "templates/")
		if _, ok := h[name]; !ok || name == q.Get("path") {
			return lib.Reply{Body: "[]"}
		}
		return lib.Reply{Body: `[{"sha":"` + hostedSHA(name) + `","commit":{"message":"x"}},{"sha":"0000"}]`}
	case "raw.githubusercontent.com":
		for name, c := range h {
			if u.Path == "/hexdigest/gowrap/"+hostedSHA(name)+"/templates/"+name && u.RawQuery == "" {
				return lib.Reply{Body: c}
			}
		}
	}
	return lib.Reply{Status: 404}
}

func init() {
	checks["C03"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()
		os.Chmod(r.Tmp, 0o755)
		git, err := exec.LookPath("git")
		if err != nil {
			r.Fatal("no git: %v", err)
		}
		var base []string
		for _, e := range os.Environ() {
			k, _, _ := strings.Cut(e, "=")
			if k != "GOCACHE" && k != "HOME" && k != "PATH" && !strings.HasPrefix(k, "XDG_") && k != "GOPATH" && k != "GOMODCACHE" && !strings.HasPrefix(k, "GIT_") {
				base = append(base, e)
			}
		}
		goBin, _ := exec.LookPath("go")
		nogit := filepath.Join(r.Tmp, "nogit")
		lib.Write(nogit+"/go", "#!/bin/sh\nexec "+goBin+" \"$@\"\n")
		os.Chmod(nogit+"/go", 0o755)
		envOf := func(cacheName, path string) []string {
			c := filepath.Join(r.Tmp, cacheName)
			os.MkdirAll(c, 0o777)
			os.Chmod(c, 0o777)
			return append(base[:len(base):len(base)], "PATH="+path, "GOCACHE="+c, "HOME="+c, "GOPATH="+c+"/gopath", "GOMODCACHE="+c+"/mod", "GIT_CONFIG_NOSYSTEM=1", "GOFLAGS=-mod=mod -buildvcs=false")
		}
		text := func(what string) string { return "const M = \"" + what + "\"\n" }
		big := "const M = \"local\" // " + strings.Repeat("0123456789", 20000) + "\n"

		type job struct {
			cmd    string // gen or copy
			scheme string // "", "file://", "url"
			ref    string // path or URL
			local  string
			git    string // none, here, above, nested, trailing, nogit
			root   string // state at the checkout's root
			hosted string // present, absent, broken, refuse
		}
		var jobs []job
		locals := []string{"missing", "present", "empty", "big", "directory", "link", "dangling", "loop", "unreadable", "parent unreadable", "parent is a file", "link to directory"}
		refs := []string{"tmpl", "./tmpl", "sub/tmpl", "../up/tmpl", "ABS", "a b#c?d&e=%20+;é", "go", "fallback", " tmpl ", "T%41Mpl", "$HOME/~tmpl"}
		for _, ref := range refs {
			for _, l := range locals {
				for _, h := range []string{"present", "absent", "broken", "refuse"} {
					for _, g := range []string{"none", "above"} {
						if g == "above" && h != "present" {
							continue
						}
						jobs = append(jobs, job{"gen", "", ref, l, g, "present", h})
						if l == "missing" || l == "present" || r.Thorough() {
							jobs = append(jobs, job{"copy", "", ref, l, g, "present", h})
						}
					}
				}
			}
		}
		for _, u := range []string{"https://h.test/t", "http://h.test/t", "https://h.test/a/b?x=y&z=%20", "http://h.test/file://tmpl"} {
			for _, l := range []string{"missing", "present", "directory", "unreadable"} {
				for _, h := range []string{"present", "absent", "refuse"} {
					jobs = append(jobs, job{"gen", "url", u, l, "above", "present", h}, job{"copy", "url", u, l, "above", "present", h})
				}
			}
		}
		for _, ref := range []string{"tmpl", "./tmpl", "sub/tmpl", "../up/tmpl", "ABS", "a b#c?d%20é", "go", " tmpl\t", "t+%41M", "~/$HOME"} {
			for _, l := range locals {
				for _, g := range []string{"none", "here", "above", "nested", "trailing", "linked", "nogit"} {
					for _, rt := range []string{"missing", "present", "directory", "unreadable", "link"} {
						if (g == "none" || g == "here" || g == "nested" || g == "nogit") && rt != "missing" {
							continue
						}
						if !r.Thorough() && l != "missing" && (g != "above" && g != "here" || rt != "present" && rt != "missing") {
							continue
						}
						jobs = append(jobs, job{"gen", "file://", ref, l, g, rt, "present"}, job{"copy", "file://", ref, l, g, rt, "present"})
					}
				}
			}
		}

		userOK := c02Cmd(r.Tmp, base, true, -1, "true").Code == 0
		if !userOK {
			r.NotExhaustive("cannot run commands as an unprivileged user")
		}
		normal := filepath.Dir(goBin) + ":" + os.Getenv("PATH")
		env, userEnv, nogitEnv := envOf("cache", normal), envOf("cacheuser", normal), envOf("cachenogit", nogit)

		var mu sync.Mutex
		kinds := map[string]int{}
		lib.Parallel(len(jobs), func(k int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			j := jobs[k]
			top := filepath.Join(r.Tmp, "j"+strconv.Itoa(k))
			defer func() {
				filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
					if d != nil && d.IsDir() {
						os.Chmod(p, 0o755)
					}
					return nil
				})
				os.RemoveAll(top)
			}()
			checkout := filepath.Join(top, "o", "co")
			if j.git == "trailing" {
				checkout += " "
			}
			w := filepath.Join(checkout, "w")
			lib.Write(w+"/go.mod", "module scr\n\ngo 1.24\n")
			lib.Write(w+"/src/a.go", "package src\n\ntype Svc interface{ M(a int) error }\n")
			gitroot := ""
			initGit := func(dir string) {
				if res := lib.Cmd(dir, env, "", time.Minute, git, "init", "-q", "."); res.Code != 0 {
					r.Fatal("git init: %s", res.Err)
				}
				gitroot = dir
			}
			cwd := w
			switch j.git {
			case "here":
				initGit(w)
			case "above", "trailing", "nogit":
				initGit(checkout)
			case "nested":
				initGit(checkout)
				initGit(w)
			case "linked":
				// the working directory is reached through a link from elsewhere
				initGit(checkout)
				os.Symlink(w, filepath.Join(top, "elsewhere"))
				cwd = filepath.Join(top, "elsewhere")
			}
			if j.git == "nogit" {
				gitroot = ""
			}
			ref := j.ref
			path := ref
			if ref == "ABS" {
				path = filepath.Join(top, "abs", "tmpl")
				ref = path
			}
			if j.scheme == "file://" {
				ref = "file://" + path
			}
			at := func(root string) string {
				if filepath.IsAbs(path) && root == w {
					return path
				}
				return filepath.Join(root, path)
			}
			user := false
			place := func(p, state, content string) {
				if state != "missing" {
					os.MkdirAll(filepath.Dir(p), 0o755)
				}
				switch state {
				case "present":
					lib.Write(p, content)
				case "empty":
					lib.Write(p, "")
				case "big":
					lib.Write(p, big)
				case "directory":
					os.MkdirAll(p, 0o755)
				case "link":
					lib.Write(filepath.Join(top, "target", filepath.Base(filepath.Dir(p))), content)
					os.Symlink(filepath.Join(top, "target", filepath.Base(filepath.Dir(p))), p)
				case "link to directory":
					os.MkdirAll(filepath.Join(top, "target"), 0o755)
					os.Symlink(filepath.Join(top, "target"), p)
				case "dangling":
					os.Symlink("nowhere", p)
				case "loop":
					os.Symlink(filepath.Base(p), p)
				case "unreadable":
					lib.Write(p, content)
					os.Chmod(p, 0)
					user = true
				case "parent unreadable":
					lib.Write(p, content)
					os.Chmod(filepath.Dir(p), 0)
					user = true
				case "parent is a file":
					os.RemoveAll(filepath.Dir(p))
					lib.Write(filepath.Dir(p), "x")
				}
			}
			if j.local == "parent unreadable" || j.local == "parent is a file" {
				// only where the parent is a directory of the template's own
				if filepath.Dir(at(w)) == w || j.scheme == "url" {
					return
				}
			}
			if gitroot != "" && gitroot != w && j.scheme == "file://" {
				place(at(gitroot), j.root, text("gitroot"))
			}
			local := j.local
			place(at(w), local, text("local"))
			if user && !userOK {
				return
			}
			// files whose names are close to the reference are never what it means
			if j.scheme != "url" && local != "parent is a file" && local != "parent unreadable" {
				unesc, err := url.PathUnescape(path)
				if err != nil {
					unesc = path
				}
				plus, err := url.QueryUnescape(path)
				if err != nil {
					plus = path
				}
				roots := []string{w}
				if gitroot != "" && gitroot != w {
					roots = append(roots, gitroot)
				}
				for _, near := range []string{strings.TrimSpace(path), unesc, plus, strings.ToLower(path), path + ".tmpl", path + ".txt", os.ExpandEnv(path), url.PathEscape(path), "templates/" + path, "templates/" + strings.ToLower(path), strings.TrimPrefix(path, "~/")} {
					for _, root := range roots {
						p := filepath.Join(root, near)
						if _, err := os.Lstat(p); err != nil && near != path && near != "" && !filepath.IsAbs(near) && p != at(root) && p != at(w) {
							lib.Write(p, text("decoy"))
						}
					}
				}
			}
			dst := filepath.Join(top, "dst")
			os.MkdirAll(dst, 0o777)
			os.Chmod(dst, 0o777)

			hosted := hostedRepo{}
			if j.hosted == "present" || j.hosted == "broken" {
				hosted[ref] = text("hosted")
			}
			net := r.Fake(func(n int, u string) lib.Reply {
				switch {
				case j.hosted == "refuse":
					return lib.Reply{Refuse: true}
				case j.scheme == "url":
					if j.hosted == "absent" {
						return lib.Reply{Status: 404, Body: text("not found")}
					}
					return lib.Reply{Body: text("url")}
				case j.hosted == "broken" && strings.Contains(u, "raw."):
					return lib.Reply{Status: 503, Body: text("unavailable")}
				}
				return hosted.reply(u)
			})
			defer net.Close()
			e := env
			switch {
			case user:
				e = userEnv
			case j.git == "nogit":
				e = nogitEnv
			}
			e = append(e[:len(e):len(e)], netVars(net)...)
			if user {
				// git refuses checkouts of other users unless told otherwise
				e = append(e, "GIT_CONFIG_COUNT=1", "GIT_CONFIG_KEY_0=safe.directory", "GIT_CONFIG_VALUE_0=*")
			}
			args := []string{"gen", "-p", "./src", "-i", "Svc", "-t", ref, "-o", filepath.Join(dst, "x.go")}
			out := filepath.Join(dst, "x.go")
			if j.cmd == "copy" {
				args = []string{"template", "copy", ref, filepath.Join(dst, "t")}
				out = filepath.Join(dst, "t")
			}
			res := c02Cmd(cwd, e, user, -1, gw, args...)
			reqs := net.Requests()

			// the model: what must be used ("" for an error), which requests may be made
			read := func(state, content string) (exists bool, got string, ok bool) {
				switch state {
				case "present", "link":
					return true, content, true
				case "empty":
					return true, "", true
				case "big":
					return true, big, true
				case "missing", "dangling":
					return false, "", false
				}
				return true, "", false
			}
			want, ok, wantReqs, either := "", false, 0, false
			remote := func() {
				switch j.scheme {
				case "url":
					wantReqs = 1
					want, ok = text("url"), j.hosted == "present"
				case "file://":
					ex, got, o := read(local, text("local"))
					if ex || local == "missing" && gitroot == w || gitroot == "" && !ex {
						want, ok = got, o
						break
					}
					_, want, ok = read(j.root, text("gitroot"))
					if gitroot == w {
						want, ok = "", false
					}
				default:
					wantReqs = 2
					want, ok = text("hosted"), j.hosted == "present"
					if j.hosted == "absent" || j.hosted == "refuse" {
						wantReqs = 1
					}
				}
			}
			if local == "parent is a file" {
				// neither an existing file nor cleanly missing
				either = true
			}
			openLocal := local
			if j.scheme == "file://" {
				openLocal = "missing" // "file:" is no directory here
			}
			if ex, got, o := read(openLocal, text("local")); j.cmd == "gen" && ex {
				want, ok, wantReqs = got, o, 0
			} else {
				remote()
			}
			desc := fmt.Sprintf("%s %s: local %s, git %s, root %s, remote %s", j.cmd, j.scheme+j.ref, j.local, j.git, j.root, j.hosted)
			mu.Lock()
			kinds[fmt.Sprintf("%s %s ok=%v requests=%d", j.cmd, j.scheme, ok, wantReqs)]++
			mu.Unlock()
			r.Count(1, 1+len(reqs), 0)
			rep := map[string]any{"args": args, "exit": res.Code, "stdout": res.Out, "stderr": res.Err, "requests": reqs}
			got, rerr := os.ReadFile(out)
			if !either {
				if ok != (res.Code == 0) {
					r.Violate("outcome "+j.cmd, fmt.Sprintf("%s: must succeed: %v, exit %d: %s", desc, ok, res.Code, res.Err), rep)
				}
				if len(reqs) != wantReqs {
					r.Violate("requests "+j.cmd, fmt.Sprintf("%s: %d requests expected, made %v", desc, wantReqs, reqs), rep)
				}
			}
			if j.scheme == "file://" && len(reqs) > 0 {
				r.Violate("fetch for file", fmt.Sprintf("%s: made %v", desc, reqs), rep)
			}
			for _, q := range reqs {
				if j.scheme == "url" && q != ref {
					r.Violate("url fetched", fmt.Sprintf("%s: fetched %s", desc, q), rep)
				}
			}
			if res.Code != 0 {
				if rerr == nil {
					r.Violate("output on failure", fmt.Sprintf("%s: exit %d, but the output exists: %q", desc, res.Code, got), rep)
				}
			} else if j.cmd == "copy" {
				if ok && string(got) != want {
					r.Violate("copied bytes", fmt.Sprintf("%s: copied %q, must be %q", desc, got, want), rep)
				}
			} else if ok {
				i := strings.Index(string(got), "\npackage dst")
				if i < 0 || want != "" && !strings.Contains(string(got[i:]), strings.TrimSpace(want)) || want == "" && strings.Contains(string(got), "const M") {
					r.Violate("template used", fmt.Sprintf("%s: must use %q, generated %q", desc, want, got), rep)
				}
			}
			r.Validate(1)
			if k%177 == 0 {
				r.Sample(desc)
			}
		})

		// the bytes, from every source
		contents := map[string]string{
			"all bytes":      allBytes(),
			"crlf":           "const A = 1\r\nconst B = `x\r\ny`\r\n",
			"no newline":     "const A = 1",
			"spaces":         " \t\n\n  const A = 1  \t\n\n\n",
			"bom":            "\ufeffconst A = 1\n",
			"actions":        "{{/* c */}}\n{{- $x := \"a  b\" -}}\nconst A = \"{{$x}}\"\n{{/* é日本 */}}// é日本\u00a0\u200b\n",
			"percent":        "// %s %d %% 100%\nconst A = \"%v\"\n",
			"html":           "const A = \"<a href='x'>&amp;</a>\"\n",
			"import":         "import \"fmt\"\n\nvar A = fmt.Sprint(1)\n",
			"broken":         "{{if",
			"empty":          "",
			"4096":           "const A = \"" + strings.Repeat("x", 4096-13) + "\"\n",
			"large":          "const A = \"" + strings.Repeat("0123456789", 120000) + "\"\n",
			"nul":            "const A = 1 // \x00\n",
			"invalid utf8":   "const A = 1 // \xff\xfe\n",
			"looks like url": "https://h.test/other\n",
			"looks gzipped":  "\x1f\x8b\x08\x00\x00\x00\x00\x00",
		}
		var cn []string
		for n := range contents {
			cn = append(cn, n)
		}
		type bjob struct{ name, source, cmd string }
		var bj []bjob
		for _, n := range cn {
			for _, s := range []string{"https", "http", "file", "gitroot", "hosted"} {
				bj = append(bj, bjob{n, s, "copy"})
			}
			bj = append(bj, bjob{n, "all", "gen"})
		}
		lib.Parallel(len(bj), func(k int) {
			j := bj[k]
			body := contents[j.name]
			top := filepath.Join(r.Tmp, "b"+strconv.Itoa(k))
			defer os.RemoveAll(top)
			w := filepath.Join(top, "w")
			lib.Write(w+"/go.mod", "module scr\n\ngo 1.24\n")
			lib.Write(w+"/src/a.go", "package src\n\ntype Svc interface{ M(a int) error }\n")
			lib.Cmd(top, env, "", time.Minute, git, "init", "-q", ".")
			net := r.Fake(func(n int, u string) lib.Reply {
				if strings.Contains(u, "h.test") {
					return lib.Reply{Body: body, Header: "Content-Type: text/html; charset=latin1\r\n"}
				}
				return hostedRepo{"name": body}.reply(u)
			})
			defer net.Close()
			e := append(env[:len(env):len(env)], netVars(net)...)
			ref := map[string]string{"https": "https://h.test/x", "http": "http://h.test/x", "file": "file://t1/x", "gitroot": "file://t2/x", "hosted": "name", "local": "t1/x"}
			lib.Write(w+"/t1/x", body)
			lib.Write(top+"/t2/x", body)
			if j.cmd == "copy" {
				res := lib.Cmd(w, e, "", time.Minute, gw, "template", "copy", ref[j.source], "dst")
				r.Count(1, 1, 0)
				got, _ := os.ReadFile(w + "/dst")
				if res.Code != 0 || string(got) != body {
					r.Violate("copied bytes", fmt.Sprintf("copying %q from %s: exit %d %s, %d bytes copied, served %d", j.name, j.source, res.Code, res.Err, len(got), len(body)), j)
				}
				r.Validate(1)
				return
			}
			// the same text from every source generates the same
			var first string
			var firstOK bool
			for i, s := range []string{"local", "https", "http", "file", "gitroot", "hosted"} {
				os.RemoveAll(w + "/dst")
				res := lib.Cmd(w, e, "", time.Minute, gw, "gen", "-g", "-p", "./src", "-i", "Svc", "-t", ref[s], "-o", "dst/x.go")
				r.Count(1, 1, 0)
				got, _ := os.ReadFile(w + "/dst/x.go")
				out := strings.ReplaceAll(string(got), ref[s], "")
				if i := strings.Index(out, "\npackage dst"); i >= 0 {
					out = out[i:]
				}
				if i == 0 {
					first, firstOK = out, res.Code == 0
				} else if out != first || firstOK != (res.Code == 0) {
					r.Violate("generated from other sources", fmt.Sprintf("template %q from %s: exit %d %s; differs from the output for the same local file (%v):\n%s\n---\n%s", j.name, s, res.Code, res.Err, firstOK, firstN(out, 2000), firstN(first, 2000)), j)
				}
			}
			r.Validate(1)
		})
		r.Set("resolutions", len(jobs))
		r.Set("outcomes", kinds)
		r.Set("contents", len(bj))
		r.Set("bounds", "gen and copy x 8 plain references, 4 URLs, 7 file references x 12 local states x 7 git situations x 5 states at the checkout's root x 4 states of the remote (quick: the git and root states other than the main ones only with the local file missing); 17 contents x every source")
	}}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func allBytes() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}

// netVars are the variables of the stand-in network alone.
func netVars(f *lib.FakeNet) []string {
	var out []string
	for _, e := range f.Env() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "HTTP_PROXY", "HTTPS_PROXY", "SSL_CERT_FILE", "SSL_CERT_DIR":
			out = append(out, e)
		}
	}
	return out
}
