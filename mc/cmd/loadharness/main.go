// Drives the loader and the template command over every scripted sequence of
// HTTP outcomes; reports the first violations and counts as JSON lines.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/hexdigest/gowrap"
	"github.com/hexdigest/gowrap/loader"
)

// reply is one scripted HTTP outcome.
type reply struct {
	name   string
	doErr  bool
	status int
	body   string
	chunks []int // lengths of the reads that deliver the body
	with   bool  // the last read carries the end
	end    error // io.EOF or the read error
	zero   bool  // empty reads in between
	close  bool  // Close fails
	noLen  bool  // no ContentLength
}

func (r reply) clean() bool { return !r.doErr && r.status == 200 && r.end == io.EOF }

type rbody struct {
	r      reply
	i      int
	off    int
	z      bool
	closes int
	after  bool
}

func (b *rbody) Read(p []byte) (int, error) {
	if b.closes > 0 {
		b.after = true
		return 0, errors.New("read after close")
	}
	if b.r.zero && !b.z {
		b.z = true
		return 0, nil
	}
	b.z = false
	if b.i == len(b.r.chunks) {
		return 0, b.r.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	want := b.r.chunks[b.i]
	n := min(want, len(p))
	copy(p, b.r.body[b.off:b.off+n])
	b.off += n
	if n == want {
		b.i++
	} else {
		b.r.chunks[b.i] -= n
	}
	if b.i == len(b.r.chunks) && b.r.with {
		return n, b.r.end
	}
	return n, nil
}

func (b *rbody) Close() error {
	b.closes++
	if b.r.close {
		return errors.New("close failed")
	}
	return nil
}

type client struct {
	script []reply
	urls   []string
	meths  []string
	bodies []*rbody
	over   bool
}

func (c *client) Do(req *http.Request) (*http.Response, error) {
	n := len(c.urls)
	c.urls = append(c.urls, req.URL.String())
	c.meths = append(c.meths, req.Method)
	if n >= len(c.script) {
		c.over = true
		return nil, errors.New("unexpected request")
	}
	r := c.script[n]
	if r.doErr {
		return nil, errors.New("transport error")
	}
	r.chunks = append([]int{}, r.chunks...)
	b := &rbody{r: r}
	c.bodies = append(c.bodies, b)
	l := int64(len(r.body))
	if r.noLen {
		l = -1
	}
	return &http.Response{StatusCode: r.status, Status: fmt.Sprint(r.status, " ", http.StatusText(r.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, ContentLength: l, Request: req}, nil
}

var (
	runs, steps int
	seen        = map[string]int{}
)

func bad(key, format string, a ...any) {
	seen[key]++
	if seen[key] > 1 {
		return
	}
	b, _ := json.Marshal(map[string]string{"key": key, "msg": fmt.Sprintf(format, a...)})
	fmt.Println(string(b))
}

func (c *client) check(desc string, max int) {
	runs++
	steps += len(c.urls)
	for _, b := range c.bodies {
		if b.closes != 1 {
			bad("body closed once", "%s: the body of a response was closed %d times", desc, b.closes)
		}
		if b.after {
			bad("read after close", "%s: a body was read after it was closed", desc)
		}
	}
	for _, m := range c.meths {
		if m != "GET" {
			bad("method", "%s: %s request", desc, m)
		}
	}
	if len(c.urls) > max || c.over {
		bad("requests", "%s: requests %v, expected at most %d", desc, c.urls, max)
	}
}

// splits lists every way of delivering n bytes.
func splits(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for f := 1; f <= n; f++ {
		for _, r := range splits(n - f) {
			out = append(out, append([]int{f}, r...))
		}
	}
	return out
}

var readErrs = []error{io.ErrUnexpectedEOF, errors.New("reset"), fmt.Errorf("wrapped: %w", io.EOF), context.Canceled, io.ErrClosedPipe}

// deliveries lists the outcomes of one response.
func deliveries(body string, statuses []int, all bool) []reply {
	out := []reply{{name: "transport error", doErr: true}}
	for _, st := range statuses {
		for _, cl := range []bool{false, true} {
			for cut := 0; cut <= len(body); cut++ {
				var part [][]int
				if all || cut == 0 {
					part = splits(cut)
				} else {
					part = [][]int{{cut}}
					one := make([]int, cut)
					for i := range one {
						one[i] = 1
					}
					if cut > 1 {
						part = append(part, one, []int{1, cut - 1}, []int{cut - 1, 1})
					}
				}
				if cut < len(body) && !all && cut > 3 && cut < len(body)-3 && cut%5 != 0 {
					continue
				}
				for _, ch := range part {
					for _, with := range []bool{false, true} {
						if with && len(ch) == 0 {
							continue
						}
						for _, zero := range []bool{false, true} {
							if zero && !all && len(ch) > 2 {
								continue
							}
							base := reply{status: st, body: body, chunks: ch, with: with, zero: zero, close: cl, noLen: zero}
							if cut == len(body) {
								r := base
								r.end = io.EOF
								out = append(out, r)
							}
							for _, e := range readErrs {
								r := base
								r.end = e
								out = append(out, r)
							}
						}
					}
				}
			}
		}
	}
	for i := range out {
		r := &out[i]
		if r.name == "" {
			r.name = fmt.Sprintf("status %d, %d bytes read as %v then %v (with the last: %v), close error %v", r.status, len(r.body), r.chunks, r.end, r.with, r.close)
		}
	}
	return out
}

// whole delivers a body at once.
func whole(status int, body string) reply {
	r := reply{name: fmt.Sprintf("%d %q", status, body), status: status, body: body, end: io.EOF}
	if len(body) > 0 {
		r.chunks = []int{len(body)}
	}
	return r
}

// verdict compares what came back with what was served. must: 1 success, -1 failure, 0 either.
func verdict(desc string, got []byte, err error, want string, must int) {
	if err != nil {
		if must > 0 {
			bad("fails", "%s: fails with %v", desc, err)
		}
		if len(got) > 0 {
			bad("content with an error", "%s: returns the error %v together with the content %q", desc, err, got)
		}
		return
	}
	if must < 0 {
		bad("accepted", "%s: returns %q without an error", desc, got)
		return
	}
	if string(got) != want {
		bad("content", "%s: returns %q, served %q", desc, got, want)
	}
}

func mustOf(r reply) int {
	switch {
	case r.doErr || r.end != io.EOF:
		return -1
	case r.status == 200 && !r.close:
		return 1
	case r.status == 200:
		return 0
	case r.status >= 200 && r.status < 300 && r.status != 206 && r.status != 204 && r.status != 205:
		return 0
	}
	return -1
}

func and(a, b int) int { return min(a, b) }

var dir string

type prior struct {
	name  string
	set   func(p string)
	after func(p string) string
}

func snapshot(p string) string {
	fi, err := os.Lstat(p)
	if err != nil {
		return "absent"
	}
	b, _ := os.ReadFile(p)
	return fi.Mode().String() + " " + string(b)
}

var copies int

// copyTo runs template copy over the same script.
func copyTo(desc, ref string, script []reply, want string, must, max int, wantURL func(string) bool) {
	for _, old := range []string{"", "old template\n"} {
		copies++
		d := filepath.Join(dir, fmt.Sprint(copies))
		os.MkdirAll(d, 0o755)
		dst := filepath.Join(d, "dst")
		if old != "" {
			os.WriteFile(dst, []byte(old), 0o640)
		}
		before := snapshot(dst)
		c := &client{script: script}
		var w bytes.Buffer
		err := gowrap.NewTemplateCommand(loader.New(c)).Run([]string{"copy", ref, dst}, &w)
		c.check("copy: "+desc, max)
		if err != nil {
			if must > 0 {
				bad("copy fails", "%s: %v", desc, err)
			}
			if snapshot(dst) != before {
				bad("copy touches the destination", "%s: the copy fails with %v, but the destination changed from %q to %q", desc, err, before, snapshot(dst))
			}
		} else {
			got, _ := os.ReadFile(dst)
			if must < 0 {
				bad("copy accepted", "%s: the copy succeeds and writes %q", desc, got)
			} else if string(got) != want {
				bad("copy content", "%s: the copy writes %q, served %q", desc, got, want)
			}
			found := false
			for _, f := range strings.Fields(w.String()) {
				found = found || wantURL(f)
			}
			if !found {
				bad("copy url", "%s: the URL of the template is not reported: %q", desc, w.String())
			}
		}
		l, _ := os.ReadDir(d)
		for _, e := range l {
			if e.Name() != "dst" {
				bad("copy leaves files", "%s: %s is left behind", desc, e.Name())
			}
		}
		os.RemoveAll(d)
	}
}

// failing accepts n bytes; the write that would accept more fails, those after it fail too or, if
// the failure is transient, do not.
type failing struct {
	n              int
	transient, hit bool
	got            bytes.Buffer
}

func (f *failing) Write(p []byte) (int, error) {
	if left := f.n - f.got.Len(); (!f.hit || !f.transient) && len(p) > left {
		f.hit = true
		f.n = f.got.Len() + left
		f.got.Write(p[:left])
		return left, errors.New("write failed")
	}
	return f.got.Write(p)
}

func main() {
	thorough := flag.Bool("thorough", false, "")
	flag.StringVar(&dir, "dir", "", "")
	flag.Parse()

	statuses := []int{200, 404}
	odd := []int{100, 101, 199, 201, 202, 203, 204, 205, 206, 207, 226, 299, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 408, 410, 416, 418, 429, 451, 499, 500, 501, 502, 503, 504, 599, 0, -1, 999}
	n := 5
	if *thorough {
		n = 8
	}

	// URLs
	for _, ref := range []string{"https://h.test/t", "http://h.test/t?x=1&y=%20#frag"} {
		for l := 0; l <= n; l++ {
			body := "tmpl\x00\xff\n!"[:l]
			for _, r := range deliveries(body, statuses, true) {
				desc := ref + ": " + r.name
				c := &client{script: []reply{r}}
				got, u, err := loader.New(c).Load(ref)
				c.check(desc, 1)
				verdict(desc, got, err, body, mustOf(r))
				if err == nil && u != ref {
					bad("url", "%s: reported URL %q", desc, u)
				}
				if len(c.urls) > 0 && strings.SplitN(c.urls[0], "#", 2)[0] != strings.SplitN(ref, "#", 2)[0] {
					bad("url fetched", "%s: fetched %v", desc, c.urls)
				}
				if l <= 2 || *thorough && l <= 4 {
					copyTo(desc, ref, []reply{r}, body, mustOf(r), 1, func(s string) bool { return s == ref })
				}
			}
		}
		for _, st := range odd {
			for _, b := range []string{"", "tmpl"} {
				r := whole(st, b)
				desc := ref + ": " + r.name
				c := &client{script: []reply{r}}
				got, _, err := loader.New(c).Load(ref)
				c.check(desc, 1)
				verdict(desc, got, err, b, mustOf(r))
				copyTo(desc, ref, []reply{r}, b, mustOf(r), 1, func(s string) bool { return s == ref })
			}
		}
		// sizes around the buffers
		for _, size := range []int{511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 32769, 65537, 1 << 20} {
			body := strings.Repeat("0123456789abcdef", size/16+1)[:size]
			for _, step := range []int{1, 7, 511, 512, 513, 4096, size} {
				if step < 500 && size > 5000 {
					continue
				}
				for _, e := range []error{io.EOF, io.ErrUnexpectedEOF} {
					for _, cut := range []int{size, size - 1, size / 2} {
						if e == io.EOF && cut != size {
							continue
						}
						for _, with := range []bool{false, true} {
							r := reply{status: 200, body: body, end: e, with: with}
							for o := 0; o < cut; o += step {
								r.chunks = append(r.chunks, min(step, cut-o))
							}
							desc := fmt.Sprintf("%s: %d of %d bytes in pieces of %d then %v", ref, cut, size, step, e)
							c := &client{script: []reply{r}}
							got, _, err := loader.New(c).Load(ref)
							c.check(desc, 1)
							if err == nil && string(got) != body {
								bad("content", "%s: %d bytes returned", desc, len(got))
							}
							verdict(desc, nil, err, "", map[bool]int{true: 0, false: mustOf(r)}[mustOf(r) > 0 && err == nil])
						}
					}
				}
			}
		}
	}
	// URLs that cannot be requested
	for _, ref := range []string{"https://[::1", "http://h.test:port/", "https://h.test/%zz", "http://\x7f/", "https://"} {
		c := &client{script: []reply{{doErr: true}}}
		got, _, err := loader.New(c).Load(ref)
		c.check(ref, 1)
		verdict(ref, got, err, "", -1)
	}

	// hosted templates
	type commits struct {
		json string
		sha  string // "" must fail
	}
	good := []commits{
		{`[{"sha":"c0ffee"}]`, "c0ffee"},
		{`[{"sha":"c0ffee"},{"sha":"beef"}]`, "c0ffee"},
		{" \n[ {\"commit\":{\"sha\":\"no\",\"tree\":{\"sha\":\"no\"}},\"sha\" : \"c0ffee\",\"parents\":[{\"sha\":\"no\"}]} ]\n", "c0ffee"},
	}
	malformed := []string{"", " ", "[]", "null", "{}", "0", `""`, `"c0ffee"`, `["c0ffee"]`, `[0]`, `[null]`, `[{}]`, `[[]]`, `[{"sha":""}]`, `[{"sha":null}]`, `[{"sha":1}]`, `[{"sha":{}}]`, `[{"sha":["c0ffee"]}]`,
		`{"sha":"c0ffee"}`, `{"message":"API rate limit exceeded"}`, `[{"sha":"c0ffee"}]x`, `[{"sha":"c0ffee"}][]`, `x[{"sha":"c0ffee"}]`, "\xef\xbb\xbf" + `[{"sha":"c0ffee"}]`, `[{'sha':'c0ffee'}]`, `[{"sha":"c0ffee"},]`, "<html>", "c0ffee", "[{\"sha\":\"c0ff\nee\"}]"}
	names := []string{"log", "sub/log", "a b", "a#b", "a?b", "a&b", "a%20b", "a+b", "é", "a=b", "a;b", "a%", "a/b c", "log#x", "log?x=y", "log&path=templates/b"}
	isCommits := func(s, name string) bool {
		u, err := url.Parse(s)
		if err != nil || u.Scheme != "https" || u.Host != "api.github.com" || u.Path != "/repos/hexdigest/gowrap/commits" || u.Fragment != "" {
			return false
		}
		q, err := url.ParseQuery(u.RawQuery)
		return err == nil && len(q["path"]) == 1 && q["path"][0] == "templates/"+name && len(q["per_page"]) <= 1 && (len(q["per_page"]) == 0 || q["per_page"][0] != "0") && len(q["page"]) == 0
	}
	isRaw := func(s, name, sha string) bool {
		u, err := url.Parse(s)
		return err == nil && u.Scheme == "https" && u.Host == "raw.githubusercontent.com" && u.Path == "/hexdigest/gowrap/"+sha+"/templates/"+name && u.RawQuery == "" && u.Fragment == ""
	}
	hosted := func(name string, script []reply, sha, body string, must int) {
		desc := fmt.Sprintf("hosted template %q:", name)
		for _, r := range script {
			desc += " [" + r.name + "]"
		}
		c := &client{script: script}
		got, u, err := loader.New(c).Load(name)
		c.check(desc, 2)
		verdict(desc, got, err, body, must)
		if len(c.urls) == 0 || !isCommits(c.urls[0], name) {
			bad("commits request", "%s: first request %v", desc, c.urls)
		}
		if len(c.urls) > 1 {
			if sha == "" {
				bad("fetched without a commit", "%s: requests %v", desc, c.urls)
			} else if !isRaw(c.urls[1], name, sha) {
				bad("raw request", "%s: second request %v", desc, c.urls[1])
			}
		}
		if err == nil && !isRaw(u, name, sha) {
			bad("pinned url", "%s: reported URL %q", desc, u)
		}
	}
	firsts := func(c commits) []reply { return deliveries(c.json, statuses, false) }
	tmpl := "type T"
	shaIf := func(r reply, sha string) string {
		if mustOf(r) < 0 {
			return ""
		}
		return sha
	}
	for _, name := range names {
		for gi, g := range good {
			for _, second := range deliveries(tmpl[:3], statuses, true) {
				hosted(name, []reply{whole(200, g.json), second}, g.sha, tmpl[:3], mustOf(second))
			}
			if name != "log" && gi > 0 {
				continue
			}
			for _, first := range firsts(g) {
				hosted(name, []reply{first, whole(200, tmpl)}, shaIf(first, g.sha), tmpl, mustOf(first))
			}
			for cut := 0; cut < len(strings.TrimSpace(g.json)); cut++ {
				// served short with a success status
				hosted(name, []reply{whole(200, g.json[:cut]), whole(200, tmpl)}, "", tmpl, -1)
			}
			for _, st := range odd {
				hosted(name, []reply{whole(st, g.json), whole(200, tmpl)}, shaIf(whole(st, ""), g.sha), tmpl, mustOf(whole(st, "")))
				hosted(name, []reply{whole(200, g.json), whole(st, tmpl)}, g.sha, tmpl, mustOf(whole(st, "")))
			}
		}
		for _, m := range malformed {
			hosted(name, []reply{whole(200, m), whole(200, tmpl)}, "", tmpl, -1)
		}
		if !strings.ContainsAny(name, " ") {
			g := good[0]
			raw := func(s string) bool { return isRaw(s, name, g.sha) }
			for _, second := range deliveries(tmpl[:2], statuses, true) {
				copyTo("hosted "+name+": "+second.name, name, []reply{whole(200, g.json), second}, tmpl[:2], mustOf(second), 2, raw)
			}
			for _, m := range malformed {
				copyTo(fmt.Sprintf("hosted %s: commits %q", name, m), name, []reply{whole(200, m), whole(200, tmpl)}, tmpl, -1, 2, raw)
			}
			if name == "log" {
				for _, first := range firsts(g) {
					copyTo("hosted "+name+": "+first.name, name, []reply{first, whole(200, tmpl)}, tmpl, mustOf(first), 2, raw)
				}
			}
		}
	}
	// both requests at fault
	small := deliveries(`[{"sha":"c0ffee"}]`, statuses, false)
	second := deliveries("ty", statuses, true)
	for i, a := range small {
		if !*thorough && i%7 != 0 && mustOf(a) < 0 {
			continue
		}
		for _, b := range second {
			m := and(mustOf(a), mustOf(b))
			hosted("log", []reply{a, b}, shaIf(a, "c0ffee"), "ty", m)
		}
	}

	// list
	type tree struct {
		json string
		want []string // nil: must fail
	}
	paths := []string{"templates/a", "templates", "templates/", "templates/sub/x", "templatesx/a", "x/templates/a", "templates/templates/b", "README.md", "", "a", "templates/é b"}
	treeJSON := func(l []string) tree {
		type leaf struct {
			Mode string `json:"mode"`
			Path string `json:"path"`
		}
		ls := []leaf{}
		var want []string
		for _, p := range l {
			ls = append(ls, leaf{"100644", p})
			if n, ok := strings.CutPrefix(p, "templates/"); ok && n != "" {
				want = append(want, n)
			}
		}
		b, _ := json.Marshal(map[string]any{"sha": "x", "tree": ls, "truncated": false})
		return tree{string(b), want}
	}
	trees := []tree{treeJSON(nil)}
	for _, a := range paths {
		trees = append(trees, treeJSON([]string{a}))
		for _, b := range paths {
			trees = append(trees, treeJSON([]string{a, b}))
			for _, c := range paths {
				trees = append(trees, treeJSON([]string{a, b, c}))
			}
		}
	}
	list := func(r reply, t tree, must int) {
		desc := "list: " + r.name
		c := &client{script: []reply{r}}
		got, err := loader.New(c).List()
		c.check(desc, 1)
		wrong := func() bool { return strings.Join(got, "\n") != strings.Join(t.want, "\n") }
		switch {
		case err != nil && must > 0:
			bad("list fails", "%s: %v", desc, err)
		case err != nil && len(got) > 0:
			bad("list with an error", "%s: %v with names %q", desc, err, got)
		case err == nil && must < 0 && len(got) > 0:
			bad("list accepted", "%s: names %q", desc, got)
		case err == nil && must >= 0 && wrong():
			bad("list names", "%s: names %q, served %q", desc, got, t.want)
		}
		for _, u := range c.urls {
			if u != "https://api.github.com/repos/hexdigest/gowrap/git/trees/master?recursive=1" {
				bad("list request", "%s: request %s", desc, u)
			}
		}
		c = &client{script: []reply{r}}
		var w bytes.Buffer
		err = gowrap.NewTemplateCommand(loader.New(c)).Run([]string{"list"}, &w)
		c.check("template "+desc, 1)
		m := must
		if len(t.want) == 0 {
			m = min(m, 0)
		}
		switch {
		case err != nil && m > 0:
			bad("template list fails", "%s: %v", desc, err)
		case err != nil && w.Len() > 0:
			bad("template list prints and fails", "%s: %v after %q", desc, err, w.String())
		case err == nil && must < 0:
			bad("template list accepted", "%s: prints %q", desc, w.String())
		case err == nil:
			var lines []string
			for _, l := range strings.Split(w.String(), "\n") {
				if s, ok := strings.CutPrefix(l, "  "); ok {
					lines = append(lines, s)
				}
			}
			if strings.Join(lines, "\n") != strings.Join(t.want, "\n") {
				bad("template list names", "%s: prints %q, served %q", desc, w.String(), t.want)
			}
			if m > 0 {
				for k, at := 0, 0; k < w.Len(); k++ {
					// the first and the second byte of every line and the last one
					if k != at && k != at+1 && k != w.Len()-1 {
						continue
					}
					if n := bytes.IndexByte(w.Bytes()[k:], '\n'); k != at && n >= 0 {
						at = k + n + 1
					}
					for _, transient := range []bool{false, true} {
						c = &client{script: []reply{r}}
						f := &failing{n: k, transient: transient}
						if err := gowrap.NewTemplateCommand(loader.New(c)).Run([]string{"list"}, f); err == nil && f.got.String() != w.String() {
							bad("template list unwritable", "%s: the write of byte %d fails (transient=%v), but the command succeeds", desc, k, transient)
						}
						c.check("list", 1)
					}
				}
			}
		}
	}
	for i, t := range trees {
		list(whole(200, t.json), t, 1)
		if i < 40 {
			for cut := 0; cut < len(t.json); cut++ {
				list(whole(200, t.json[:cut]), t, -1)
			}
		}
	}
	for _, st := range odd {
		list(whole(st, trees[1].json), trees[1], mustOf(whole(st, "")))
	}
	for _, r := range deliveries(trees[1].json, statuses, false) {
		list(r, trees[1], mustOf(r))
	}
	for _, m := range []string{"", " ", "[", "x", `{"tree":{}}`, `{"tree":"x"}`, `{"tree":[1]}`, `{"tree":["templates/a"]}`, `{"tree":[{"path":1}]}`, `{"tree":[{"path":"templates/a"},{"path":2}]}`, `[{"path":"templates/a"}]`, trees[1].json + "x", "x" + trees[1].json} {
		list(whole(200, m), tree{m, nil}, -1)
	}
	for _, m := range []string{"{}", `{"tree":null}`, `{"tree":[]}`, `{"tree":[null]}`, "null", `{"message":"x"}`} {
		list(whole(200, m), tree{m, nil}, 0)
	}

	b, _ := json.Marshal(map[string]int{"runs": runs, "steps": steps, "copies": copies})
	fmt.Println(string(b))
}
