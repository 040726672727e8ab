package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unicode"
	"unicode/utf8"

	"github.com/Masterminds/sprig/v3"

	"verifmc/lib"
)

// what each helper must do, written down independently of the implementation
func mapRunes(s string, f func(rune) rune) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(f(r))
	}
	return b.String()
}

func firstRune(s string, f func(rune) rune) string {
	r, n := utf8.DecodeRuneInString(s)
	if n == 0 || (r == utf8.RuneError && n == 1) {
		return s
	}
	return string(f(r)) + s[n:]
}

func snakeOf(s string) string {
	rs := []rune(s)
	var b strings.Builder
	low := func(r rune) bool { return unicode.IsLower(r) || unicode.IsDigit(r) }
	for i, r := range rs {
		if i > 0 && unicode.IsUpper(r) {
			if low(rs[i-1]) || (unicode.IsUpper(rs[i-1]) && i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
				b.WriteByte('_')
			}
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

// words over an alphabet, shortest first
func words(alpha []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// sprigCalls lists every call of a function of the sprig library with up to n arguments of an alphabet
// that succeeds, and what it gives.
func sprigCalls(n int) (calls, want []string, funcs int) {
	own := map[string]bool{"up": true, "down": true, "upFirst": true, "downFirst": true, "replace": true, "snake": true}
	// these depend on time, chance or the machine, or take long
	skip := regexp.MustCompile(`(?i)^(now|date|ago|htmlDate|dateInZone|unixEpoch|toDate|mustToDate|mustDate|rand|uuid|gen|env|expandenv|htpasswd|bcrypt|derivePassword|encryptAES|decryptAES|getHostByName|shuffle|buildCustomCert|duration|os)`)
	fm := sprig.TxtFuncMap()
	var names []string
	for name := range fm {
		if !own[name] {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	args := []string{`""`, `"aB c"`, `"a,b"`, `3`, `true`, `(list 1 "b" 2)`, `(dict "aB c" 1)`}
	var lists []string
	var rec func(p string, d int)
	rec = func(p string, d int) {
		lists = append(lists, p)
		if d < n {
			for _, a := range args {
				rec(p+" "+a, d+1)
			}
		}
	}
	rec("", 0)
	for _, name := range names {
		funcs++
		if skip.MatchString(name) {
			// it is there
			calls = append(calls, `{{if false}}{{`+name+`}}{{end}}{{"there"}}`)
			want = append(want, "there")
			continue
		}
		for _, l := range lists {
			call := "{{" + name + l + ` | printf "%v"}}`
			t, err := template.New("").Funcs(fm).Parse(call)
			if err != nil {
				continue
			}
			var b strings.Builder
			if t.Execute(&b, nil) != nil || strings.Contains(b.String(), "0xc0") || b.Len() > 500 {
				continue
			}
			calls = append(calls, "{{"+name+l+` | printf "%v" | quote}}`)
			want = append(want, b.String())
		}
	}
	return calls, want, funcs
}

// library: the functions of sprig are there and give what they give.
func c06Library(r *lib.Run, m *lib.Mod) {
	n := 2
	if r.Thorough() {
		n = 3
	}
	calls, want, funcs := sprigCalls(n)
	const per = 400
	nb := (len(calls) + per - 1) / per
	lib.Parallel(nb, func(b int) {
		batch := calls[b*per : min(len(calls), (b+1)*per)]
		run := func(cs []string, name string) ([]string, string) {
			var t strings.Builder
			for i, c := range cs {
				if strings.HasPrefix(c, "{{if") {
					c = strings.Replace(c, `{{"there"}}`, `{{"there" | quote}}`, 1)
				}
				fmt.Fprintf(&t, "// @%d %s\n", i, c)
			}
			m.Write(name+".tmpl", t.String())
			out := name + "/x.go"
			res := m.Gen("-g", "-p", "./src", "-i", "Svc", "-t", name+".tmpl", "-o", out)
			if res.Code != 0 {
				return nil, res.Err
			}
			var got []string
			for _, l := range strings.Split(lib.Read(filepath.Join(m.Dir, out)), "\n") {
				if l, ok := strings.CutPrefix(l, fmt.Sprintf("// @%d ", len(got))); ok {
					u, err := strconv.Unquote(l)
					if err != nil {
						u = l
					}
					got = append(got, u)
				}
			}
			return got, ""
		}
		got, e := run(batch, fmt.Sprintf("lib%d", b))
		if e != "" {
			for i, c := range batch {
				if _, e := run([]string{c}, fmt.Sprintf("lib%d_%d", b, i)); e != "" {
					r.Violate("sprig", fmt.Sprintf("%s fails: %s", c, firstN(e, 500)), c)
					return
				}
			}
			r.Fatal("only together: %s", firstN(e, 500))
		}
		if len(got) != len(batch) {
			r.Fatal("%d of %d results", len(got), len(batch))
		}
		for i, g := range got {
			if g != want[b*per+i] {
				r.Violate("sprig", fmt.Sprintf("%s gives %q, in the sprig library %q", batch[i], g, want[b*per+i]), batch[i])
			}
		}
		r.Count(len(batch), len(batch), 0)
		r.Validate(len(batch))
	})
	r.Set("library_functions", funcs)
	r.Set("library_calls", len(calls))
}

func init() {
	checks["C06"] = check{"model_checking", func(r *lib.Run) {
		m := r.NewMod("m", "scr", r.BuildGowrap())
		m.Write("src/a.go", "package src\n\ntype Svc interface{ M() }\n")
		// every word over alphabets chosen so that each kind of boundary, width change and oddity occurs
		n, n2, n3 := 6, 5, 4
		if r.Thorough() {
			n, n2, n3 = 8, 7, 6
		}
		var all []string
		all = append(all, words([]string{"a", "b", "A", "B", "1", "_"}, n)...)
		all = append(all, words([]string{"a", "A", "é", "É", "ı", "-", " "}, n2)...)
		all = append(all, words([]string{"\xff", "\xc3", "a", "A", "ß", "ǅ", "\ufffd", "世"}, n3)...)
		// every letter that has a case, in every position that matters
		top := rune(0x20000)
		ctx := []string{"%", "%a", "a%", "A%", "%A", "A%b", "1%"}
		for c := rune(1); c < top; c++ {
			if unicode.IsUpper(c) || unicode.IsLower(c) || unicode.IsTitle(c) || unicode.ToUpper(c) != c || unicode.ToLower(c) != c || unicode.IsDigit(c) {
				for _, x := range ctx {
					all = append(all, strings.Replace(x, "%", string(c), 1))
				}
			}
		}
		// long strings
		for _, w := range []string{"a", "A", "aB", "ABc", "é1", "_a", "Ab_"} {
			for k := 8; k <= 200; k += 1 + k/8 {
				all = append(all, strings.Repeat(w, k))
			}
		}
		type rep struct{ s, from, to string }
		var reps []rep
		rn := 5
		if r.Thorough() {
			rn = 7
		}
		for _, s := range words([]string{"a", "b", "."}, rn) {
			for _, p := range [][2]string{{"a", "b"}, {"a", ""}, {"aa", "a"}, {"ab", "ba"}, {".", "_"}, {"", "-"}, {"b", "bb"}, {"z", "a"}} {
				reps = append(reps, rep{s, p[0], p[1]})
			}
		}
		for k := 1; k <= 300; k++ {
			reps = append(reps, rep{strings.Repeat("a", k), "a", "b"}, rep{strings.Repeat("ab", k), "ab", ""}, rep{strings.Repeat("x-", k), "-", "--"})
		}
		const per = 25000
		nb := (len(all) + per - 1) / per
		lib.Parallel(nb+1, func(b int) {
			if r.Left() < 0 {
				r.NotExhaustive("time")
				return
			}
			var t strings.Builder
			t.WriteString("package x\n")
			t.Reset()
			var batch []string
			if b < nb {
				batch = all[b*per : min(len(all), (b+1)*per)]
				fmt.Fprintf(&t, "{{range splitList \"|\" %s}}// @ {{printf \"%%q %%q %%q %%q %%q\" (up .) (down .) (upFirst .) (downFirst .) (snake .)}}\n{{end}}\n", strconv.Quote(strings.Join(batch, "|")))
			} else {
				for _, x := range reps {
					fmt.Fprintf(&t, "// @ {{replace %q %q %q | printf \"%%q\"}}\n", x.s, x.from, x.to)
				}
			}
			tmpl := fmt.Sprintf("t%d.tmpl", b)
			m.Write(tmpl, t.String())
			res := m.Gen("-g", "-p", "./src", "-i", "Svc", "-t", tmpl, "-o", fmt.Sprintf("o%d/x.go", b))
			if res.Code != 0 {
				e := res.Err
				if len(e) > 400 {
					e = e[:200] + " ... " + e[len(e)-200:]
				}
				r.Violate("a helper failed", "a text helper failed for a string: "+e, e)
				return
			}
			f, err := os.Open(filepath.Join(m.Dir, fmt.Sprintf("o%d/x.go", b)))
			if err != nil {
				r.Fatal("%v", err)
			}
			defer f.Close()
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<20)
			i := 0
			for sc.Scan() {
				l, ok := strings.CutPrefix(sc.Text(), "// @ ")
				if !ok {
					continue
				}
				var got []string
				for l != "" {
					q, err := strconv.QuotedPrefix(l)
					if err != nil {
						r.Fatal("line %q", sc.Text())
					}
					u, _ := strconv.Unquote(q)
					got = append(got, u)
					l = strings.TrimPrefix(l[len(q):], " ")
				}
				if b == nb {
					x := reps[i]
					if want := strings.Join(strings.Split(x.s, x.from), x.to); x.from != "" && got[0] != want {
						r.Violate("replace", fmt.Sprintf("replace %q %q %q gives %q, must be %q", x.s, x.from, x.to, got[0], want), x)
					}
					i++
					continue
				}
				s := batch[i]
				i++
				want := []string{mapRunes(s, unicode.ToUpper), mapRunes(s, unicode.ToLower), firstRune(s, unicode.ToUpper), firstRune(s, unicode.ToLower), snakeOf(s)}
				for k, name := range []string{"up", "down", "upFirst", "downFirst", "snake"} {
					if !utf8.ValidString(s) && (k < 2 || k == 4) {
						continue // the case mapping of invalid UTF-8 is left open; it must not fail
					}
					if got[k] != want[k] {
						r.Violate(name, fmt.Sprintf("%s %q gives %q, must be %q", name, s, got[k], want[k]), map[string]string{"helper": name, "string": s, "got": got[k], "want": want[k]})
					}
				}
				if w := snakeOf(s); w == s && utf8.ValidString(s) && got[4] != s {
					r.Violate("snake", fmt.Sprintf("snake %q gives %q", s, got[4]), s)
				}
			}
			total := len(batch)
			if b == nb {
				total = len(reps)
			}
			if i != total {
				r.Fatal("batch %d: %d of %d lines", b, i, total)
			}
			r.Count(total, total*5, 0)
			r.Validate(total)
			r.Sample(fmt.Sprintf("batch of %d strings", total))
		})
		c06Library(r, m)
		r.Set("strings", len(all))
		r.Set("bounds", fmt.Sprintf("all strings up to length %d over {a,b,A,B,1,_}, %d over {a,A,é,É,ı,-,space}, %d over {invalid bytes, a, A, ß, ǅ, U+FFFD, 世}; every code point with a case below U+20000 and every decimal digit in 7 contexts; 7 words repeated up to 200 times; replace: all strings up to length %d over {a,b,.} with 8 pairs, up to 300 occurrences", n, n2, n3, rn))
	}}
}
