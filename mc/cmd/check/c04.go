package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verifmc/lib"
)

type netOutcome struct {
	name string
	f    func(body string) lib.Reply
	must int // 1: the body counts, -1: an error, 0: either
}

func netOutcomes(thorough bool) []netOutcome {
	gz := func(s string) string {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write([]byte(s))
		w.Close()
		return b.String()
	}
	out := []netOutcome{
		{"whole", func(b string) lib.Reply { return lib.Reply{Body: b} }, 1},
		{"chunked", func(b string) lib.Reply { return lib.Reply{Body: b, Declare: -2} }, 1},
		{"until close", func(b string) lib.Reply { return lib.Reply{Body: b, Declare: -1} }, 1},
		{"gzipped", func(b string) lib.Reply {
			return lib.Reply{Body: gz(b), Header: "Content-Encoding: gzip\r\n"}
		}, 1},
		{"gzipped, cut", func(b string) lib.Reply {
			g := gz(b)
			return lib.Reply{Body: g[:len(g)-9], Header: "Content-Encoding: gzip\r\n"}
		}, -1},
		{"gzipped, cut in the checksum", func(b string) lib.Reply {
			g := gz(b)
			return lib.Reply{Body: g[:len(g)-1], Header: "Content-Encoding: gzip\r\n"}
		}, -1},
		{"gzipped, corrupted", func(b string) lib.Reply {
			g := []byte(gz(b))
			g[len(g)-6] ^= 1
			return lib.Reply{Body: string(g), Header: "Content-Encoding: gzip\r\n"}
		}, -1},
		{"not gzipped", func(b string) lib.Reply {
			return lib.Reply{Body: b, Header: "Content-Encoding: gzip\r\n"}
		}, -1},
		{"refused", func(b string) lib.Reply { return lib.Reply{Refuse: true} }, -1},
		{"not HTTP", func(b string) lib.Reply { return lib.Reply{Garbage: true} }, -1},
		{"one byte missing", func(b string) lib.Reply { return lib.Reply{Body: b, Declare: len(b) + 1} }, -1},
		{"chunked, no end", func(b string) lib.Reply { return lib.Reply{Body: b, Declare: -2, Cut: len(b) + 1} }, -1},
		{"partial content", func(b string) lib.Reply {
			return lib.Reply{Status: 206, Body: b[:len(b)/2], Header: "Content-Range: bytes 0-3/9\r\n"}
		}, -1},
		{"no content", func(b string) lib.Reply { return lib.Reply{Status: 204} }, -1},
		{"redirected", func(b string) lib.Reply {
			return lib.Reply{Status: 302, Body: "see other", Header: "Location: https://redirected.test/x\r\n"}
		}, 1},
		{"redirected to nowhere", func(b string) lib.Reply {
			return lib.Reply{Status: 302, Body: b, Header: "Location: https://nowhere.test/x\r\n"}
		}, -1},
		{"redirected for ever", func(b string) lib.Reply {
			return lib.Reply{Status: 302, Body: b, Header: "Location: https://loop.test/x\r\n"}
		}, -1},
		{"redirect without location", func(b string) lib.Reply { return lib.Reply{Status: 302, Body: b} }, -1},
		{"odd header", func(b string) lib.Reply { return lib.Reply{Body: b, Header: "X: y\r\nBad Header\r\n"} }, -1},
	}
	for _, st := range []int{300, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503, 599} {
		out = append(out, netOutcome{fmt.Sprint("status ", st), func(b string) lib.Reply {
			if st == 304 {
				return lib.Reply{Status: st, Body: ""}
			}
			return lib.Reply{Status: st, Body: b}
		}, -1})
	}
	steps := 3
	if thorough {
		steps = 12
	}
	for i := 0; i < steps; i++ {
		out = append(out,
			netOutcome{fmt.Sprintf("cut at %d/%d", i, steps), func(b string) lib.Reply { return lib.Reply{Body: b, Cut: len(b)*i/steps + 1} }, -1},
			netOutcome{fmt.Sprintf("chunked, cut at %d/%d", i, steps), func(b string) lib.Reply { return lib.Reply{Body: b, Declare: -2, Cut: len(b)*i/steps + 1} }, -1})
	}
	return out
}

func init() {
	checks["C04"] = check{"model_checking", func(r *lib.Run) {
		gw := r.BuildGowrap()

		// the loader and the template command in process, over scripted responses
		h := filepath.Join(r.Tmp, "loadharness")
		r.Must(filepath.Join(r.Verif, "mc"), "go", "build", "-buildvcs=false", "-o", h, "./cmd/loadharness")
		scratch := filepath.Join(r.Tmp, "copies")
		os.MkdirAll(scratch, 0o755)
		args := []string{"-dir", scratch}
		if r.Thorough() {
			args = append(args, "-thorough")
		}
		res := lib.Cmd(r.Tmp, nil, "", r.Left(), h, args...)
		sc := bufio.NewScanner(strings.NewReader(res.Out))
		sc.Buffer(nil, 1<<24)
		done := false
		for sc.Scan() {
			var v struct {
				Key, Msg            string
				Runs, Steps, Copies int
			}
			json.Unmarshal(sc.Bytes(), &v)
			if v.Key != "" {
				r.Violate("scripted: "+v.Key, v.Msg, nil)
			}
			if v.Runs > 0 {
				done = true
				r.Count(v.Runs, v.Steps, 0)
				r.Validate(v.Runs)
				r.Set("scripted_runs", v.Runs)
				r.Set("scripted_copies", v.Copies)
			}
		}
		if !done {
			if strings.Contains(res.Err, "panic:") || strings.Contains(res.Err, "fatal error:") {
				r.Violate("scripted: crash", firstN(res.Err, 3000), nil)
			} else {
				r.Fatal("harness: exit %d %s", res.Code, res.Err)
			}
		}

		// the real command over a stand-in network
		outs := netOutcomes(r.Thorough())
		text := "const M = \"served\"\n\n// " + strings.Repeat("0123456789", 30) + "\n"
		commits := `[{"sha":"c0ffee00"},{"sha":"00000000"}]`
		tree := `{"sha":"x","tree":[{"path":"README.md"},{"path":"templates"},{"path":"templates/a"},{"path":"templates/sub/b"}],"truncated":false}`
		type job struct {
			op   string
			a, b netOutcome // answers to the first and second request
			old  bool
		}
		var jobs []job
		none := netOutcome{must: 1}
		for _, o := range outs {
			for _, old := range []bool{false, true} {
				for _, op := range []string{"copy https://h.test/t", "copy http://h.test/t", "gen https://h.test/t", "gen http://h.test/t"} {
					jobs = append(jobs, job{op, none, o, old})
				}
				for _, op := range []string{"copy name", "gen name"} {
					jobs = append(jobs, job{op, outs[0], o, old})
					if o.name != "whole" {
						jobs = append(jobs, job{op, o, outs[0], old})
					}
				}
			}
			jobs = append(jobs, job{"list", o, none, false})
			for i, p := range outs {
				if r.Thorough() || o.must > 0 || p.must > 0 && i%2 == 0 {
					jobs = append(jobs, job{"copy name", o, p, true})
				}
			}
		}
		lib.Parallel(len(jobs), func(k int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			j := jobs[k]
			w := filepath.Join(r.Tmp, "w"+strconv.Itoa(k))
			defer os.RemoveAll(w)
			os.MkdirAll(w, 0o755)
			cmd, ref, _ := strings.Cut(j.op, " ")
			served := map[string]int{}
			net := r.Fake(func(n int, u string) lib.Reply {
				body, o := text, j.b
				switch {
				case strings.HasPrefix(u, "https://api.github.com/repos/hexdigest/gowrap/commits?"):
					body, o = commits, j.a
				case strings.HasPrefix(u, "https://api.github.com/"):
					body, o = tree, j.a
				case u == "https://redirected.test/x":
					// whichever request is being redirected
					if cmd == "list" {
						return lib.Reply{Body: tree}
					}
					if served["raw"] == 0 && ref == "name" && j.a.name == "redirected" && served["commits"] == 0 {
						served["commits"]++
						return lib.Reply{Body: commits}
					}
					return lib.Reply{Body: text}
				case u == "https://loop.test/x":
					return lib.Reply{Status: 302, Body: text, Header: "Location: https://loop.test/x\r\n"}
				case u == "https://nowhere.test/x":
					return lib.Reply{Status: 404, Body: text}
				case strings.HasPrefix(u, "https://raw.githubusercontent.com/"):
					if u != "https://raw.githubusercontent.com/hexdigest/gowrap/c0ffee00/templates/name" {
						return lib.Reply{Status: 404}
					}
				}
				return o.f(body)
			})
			defer net.Close()
			out, args := "", []string{}
			const oldText = "package dst\n\nconst Old = 1\n"
			switch cmd {
			case "copy":
				out, args = "dst", []string{"template", "copy", ref, "dst"}
			case "gen":
				lib.Write(w+"/go.mod", "module scr\n\ngo 1.24\n")
				lib.Write(w+"/src/a.go", "package src\n\ntype Svc interface{ M() }\n")
				out, args = "dst/x.go", []string{"gen", "-p", "./src", "-i", "Svc", "-t", ref, "-o", "dst/x.go"}
			case "list":
				args = []string{"template", "list"}
			}
			if j.old {
				lib.Write(filepath.Join(w, out), oldText)
			}
			before := c02Tree(w)
			res := lib.Cmd(w, net.Env(), "", 2*time.Minute, gw, args...)
			reqs := net.Requests()
			must := min(j.a.must, j.b.must)
			desc := fmt.Sprintf("%s: ", j.op)
			if j.a.name != "" {
				desc += "first " + j.a.name + " "
			}
			if j.b.name != "" {
				desc += "template " + j.b.name
			}
			rep := map[string]any{"args": args, "exit": res.Code, "stdout": res.Out, "stderr": res.Err, "requests": reqs}
			r.Count(1, len(reqs), 0)
			got := ""
			if out != "" {
				got = lib.Read(filepath.Join(w, out))
			}
			bad := func(key, f string, a ...any) {
				r.Violate("network: "+key, desc+": "+fmt.Sprintf(f, a...), rep)
			}
			if res.TimedOut {
				bad("hangs", "does not end")
				return
			}
			if must > 0 && res.Code != 0 {
				bad("fails", "exit %d: %s", res.Code, res.Err)
			}
			if must < 0 && res.Code == 0 {
				bad("accepted", "exit 0, stdout %q, output %q", res.Out, got)
			}
			switch {
			case res.Code != 0:
				if d := c02Diff(before, c02Tree(w), ""); len(d) > 0 {
					bad("files on failure", "exit %d (%s), but %v", res.Code, strings.TrimSpace(res.Err), d)
				}
				if res.Out != "" || strings.TrimSpace(res.Err) == "" {
					bad("report", "exit %d with output %q and error %q", res.Code, res.Out, res.Err)
				}
			case cmd == "copy":
				if got != text {
					bad("content", "copied %q, served %q", got, text)
				}
				u := ref
				if ref == "name" {
					u = "https://raw.githubusercontent.com/hexdigest/gowrap/c0ffee00/templates/name"
				}
				if !strings.Contains(res.Out, u) {
					bad("url", "the URL %s is not reported: %q", u, res.Out)
				}
			case cmd == "gen":
				if !strings.Contains(got, strings.TrimSpace(text)) {
					bad("content", "generated %q, template %q", got, text)
				}
			case cmd == "list":
				if !strings.HasSuffix(res.Out, ":\n  a\n  sub/b\n") {
					bad("content", "listed %q", res.Out)
				}
			}
			r.Validate(1)
			if k%97 == 0 {
				r.Sample(desc)
			}
		})

		// the TLS side: certificates of an unknown authority
		net := r.Fake(func(int, string) lib.Reply { return lib.Reply{Body: text} })
		defer net.Close()
		var env []string
		for _, e := range net.Env() {
			if !strings.HasPrefix(e, "SSL_CERT_FILE=") {
				env = append(env, e)
			}
		}
		env = append(env, "SSL_CERT_FILE=/dev/null")
		for _, ref := range []string{"https://h.test/t", "name"} {
			res := lib.Cmd(r.Tmp, env, "", time.Minute, gw, "template", "copy", ref, "tlsdst")
			if _, err := os.Stat(r.Tmp + "/tlsdst"); res.Code == 0 || err == nil {
				r.Violate("network: untrusted", "copying "+ref+" from a server without a trusted certificate succeeds", nil)
			}
			r.Count(1, 1, 0)
		}
		r.Set("network_runs", len(jobs))
		r.Set("bounds", fmt.Sprintf("in process: every delivery of bodies of 0..5 bytes (thorough 8) in pieces, with an error of 5 kinds at every point, close errors, %d statuses, every truncation of the JSON answers, both requests at fault; the real command: %d network outcomes for each request of copy, gen and list, with and without a previous output", 39, len(outs)))
	}}
}
