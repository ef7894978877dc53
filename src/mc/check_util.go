package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/util"
)

// ---- U01: tokens, joins and splits ----

func init() {
	register(&checkDef{id: "U01",
		desc: "tokens of every short text against its basic words and every similar text; joins of every short list with every separator; splits of every short text by many expressions and limits, against plain rules",
		run:  runU01})
}

func runU01(c *Ctx) {
	atoms := []string{"世", "界", "a", "B", "é", "É", "1", " ", "，", "\xff", "\xe4\xb8", "😀", "カ", "\x00"}
	opts := []Opts{{}, {AlphaNum: true}, {Alpha: true}, {Num: true}}
	n := 3
	if c.thorough {
		n = 4
	}
	for _, a := range atoms {
		for oi, o := range opts {
			a, o := a, o
			c.Unit(fmt.Sprintf("tokens %v %s", o, q(a)), func() {
				hmmCustomOnce(0)
				seg := newSeg(o)
				texts(atoms, 0, n-1, func(s string) {
					t := a + s
					c.Case(func() string { return fmt.Sprintf("options %v token %s", o, q(t)) }, func() {
						for _, low := range []bool{true, false} {
							gse.ToLower = low
							tok := seg.ToToken(t, 2.5, "tag")
							bare := seg.ToToken(t, 0)
							gse.ToLower = true
							want := strings.Join(refWords(t, o, low), "")
							c.Trans(2)
							if tok.Text() != want || tok.Freq() != 2.5 || tok.Pos() != "tag" || len(tok.Segments()) != 0 {
								c.Failf("the token has %q %v %q, want %q 2.5 tag", tok.Text(), tok.Freq(), tok.Pos(), want)
							}
							if bare.Text() != want || bare.Freq() != 0 || bare.Pos() != "" {
								c.Failf("without a part of speech the token has %q %v %q", bare.Text(), bare.Freq(), bare.Pos())
							}
							for _, x := range similar(want) {
								if tok.Equals(x) != (x == want) {
									c.Failf("the token %q equals %q: %v", want, x, tok.Equals(x))
								}
							}
							if tok.Text() != want {
								c.Failf("comparing changed the token to %q", tok.Text())
							}
							c.State(want)
						}
					})
				})
			})
			if oi > 0 && !c.thorough && len(a) > 1 {
				break
			}
		}
	}
	// joins
	parts := []string{"", "a", "世", "\xff", "bc", " "}
	m := 6
	if c.thorough {
		m = 7
	}
	for _, a := range parts {
		for _, b := range parts {
			a, b := a, b
			c.Unit("joins "+q(a+"|"+b), func() {
				seg := newSeg(Opts{})
				skip := newSeg(Opts{})
				skip.SkipPos = true
				join := func(l []string) {
					c.Case(func() string { return fmt.Sprintf("list %q", l) }, func() {
						var ts []gse.Text
						var ps []gse.SegPos
						var tagged []string
						for i, w := range l {
							ts = append(ts, gse.Text(w))
							p := parts[(i*2+1)%len(parts)]
							ps = append(ps, gse.SegPos{Text: w, Pos: p})
							tagged = append(tagged, w+"/"+p)
						}
						c.Trans(1)
						if g := gse.Join(ts); g != strings.Join(l, "") {
							c.Failf("Join gives %q", g)
						}
						for i := range ts {
							if string(ts[i]) != l[i] {
								c.Failf("Join changed its input")
							}
						}
						cmp := func(what, got, want string) {
							if got != want {
								c.Failf("%s gives %q want %q", what, got, want)
							}
						}
						cmp("CutStr", seg.CutStr(l), strings.Join(l, " "))
						cmp("PosStr", seg.PosStr(ps), strings.Join(tagged, " "))
						cmp("PosStr with SkipPos", skip.PosStr(ps), strings.Join(l, " "))
						for _, sep := range []string{"", "a", ", ", "世", "/"} {
							cmp("CutStr with "+q(sep), seg.CutStr(l, sep), strings.Join(l, sep))
							cmp("PosStr with "+q(sep), seg.PosStr(ps, sep), strings.Join(tagged, sep))
							cmp("PosStr with SkipPos and "+q(sep), skip.PosStr(ps, sep), strings.Join(l, sep))
						}
						c.State(fmt.Sprint(l))
					})
				}
				if a == "" && b == "" {
					join(nil)
				}
				if b == "" {
					join([]string{a})
				}
				sequences(parts, 0, m-2, func(s []string) { join(append([]string{a, b}, s...)) })
				for _, k := range []int{15, 16, 17, 63, 64, 65, 255, 257, 1025} {
					l := make([]string, k)
					for i := range l {
						l[i] = []string{a, b, "世", "x"}[i*i%7%4]
					}
					join(l)
				}
			})
		}
	}
	// splits
	exprs := []string{"a", "(a)", "", "()", "a*", "(a*)", "a+", "(a+)", "世", "(世|a)", "[ab]+", "([ab]+)", "^a", "(^a)", "b$", "(b$)", "ab|a", "(a)(b)", "(?:ab)", "(?P<x>世b?)", ".", "(.)", "b?", `\s`, `(\s+)`, "(?s).*", "((?s).*)", "^", "$", "(\xef\xbf\xbd)", "a(b)?", "x", "(x)", `\b`}
	at := []string{"a", "b", "世", " ", "\xff"}
	ln := 6
	if c.thorough {
		ln = 8
	}
	for _, e := range exprs {
		re := regexp.MustCompile(e)
		group := re.NumSubexp() > 0
		for _, a := range at {
			a := a
			c.Unit("split by "+q(e)+" "+q(a), func() {
				one := func(s string) {
					c.Case(func() string { return fmt.Sprintf("split %q by %q", s, e) }, func() {
						for _, k := range []int{-1, 0, 1, 2, 3, 4, 100} {
							got := util.RegexpSplit(re, s, k)
							c.Trans(1)
							if !group {
								if want := re.Split(s, k); !eqStrs(got, want) {
									c.Failf("limit %d: gives %q want %q", k, got, want)
								}
								continue
							}
							if k == 0 {
								if len(got) != 0 {
									c.Failf("limit 0 gives %q", got)
								}
								continue
							}
							if strings.Join(got, "") != s {
								c.Failf("limit %d: %q loses text of %q", k, got, s)
							}
							if k < 0 {
								// every match is listed, in order
								i := 0
								for _, w := range re.FindAllString(s, -1) {
									for i < len(got) && got[i] != w {
										i++
									}
									if i == len(got) {
										c.Failf("%q does not list the matches %q", got, re.FindAllString(s, -1))
										break
									}
									i++
								}
								c.State(fmt.Sprint(got))
							}
						}
						if len(re.FindAllString(s, -1)) > 0 {
							c.Outcome("split")
						} else {
							c.Outcome("no match")
						}
					})
				}
				if a == at[0] {
					one("")
				}
				texts(at, 0, ln-1, func(s string) { one(a + s) })
				for _, k := range []int{31, 33, 64, 65, 127, 129, 256, 257, 1000} {
					one(pump(a+"b", k))
					one(pump("世"+a, k) + "b")
				}
			})
		}
	}
}

// similar lists texts near s: itself, shorter, longer and changed ones.
func similar(s string) []string {
	r := []string{s, "", s + "a", "a" + s, s + s, strings.ToUpper(s), s + "\x00"}
	for i := 0; i < len(s); i++ {
		r = append(r, s[:i], s[i:], s[:i]+s[i+1:], s[:i]+string([]byte{s[i] ^ 1})+s[i+1:], s[:i]+string([]byte{s[i] ^ 0x20})+s[i+1:])
	}
	return r
}
