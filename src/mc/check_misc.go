package main

import (
	"bufio"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"vmc.local/rt"
)

func init() {
	register(&checkDef{id: "A01",
		desc: "FindAllOccs of every short text and list of words against a plain search; Analyze of every cut of every short text, and of lists of other words, with and without the text: offsets, frequencies, tags",
		run:  runA01})
	register(&checkDef{id: "A02",
		desc: "SuggestFreq of every word and split of a word over small dictionaries against the probability of its parts; the word is kept whole after adding it with the suggested frequency",
		run:  runA02})
	register(&checkDef{id: "R01",
		desc: "every sequence of reading operations to a depth: the dictionary, options, models and package variables, the inputs and all earlier results are left as they were, and each operation gives what it gives alone, under every explored order of map iteration",
		run:  runR01})
	register(&checkDef{id: "X01",
		desc: "every reading operation on every text over representative atoms (also invalid encodings and zero bytes) and on long periodic texts, over dictionaries from empty to odd ones and all option sets: ends without a panic within a step bound that grows with the text",
		run:  runX01})
}

// ---- A01 ----

func refOccs(data, s string) (r []int) {
	end := len(data)
	for {
		k := -1
		for i := end - len(s); i >= 0; i-- {
			if data[i:i+len(s)] == s {
				k = i
				break
			}
		}
		if k < 0 {
			return
		}
		r = append(r, k)
		end = k
	}
}

func runA01(c *Ctx) {
	words := []string{"", "a", "aa", "ab", "世", "世a", "b", "\xff", "a世a"}
	atoms := []string{"a", "b", "世", "\xff"}
	n := 6
	if c.thorough {
		n = 8
	}
	for _, a := range atoms {
		for _, b := range atoms {
			p := a + b
			c.Unit("occurrences "+q(p), func() {
				texts(atoms, 0, n-2, func(s string) {
					t := p + s
					c.Case(func() string { return "text " + q(t) }, func() {
						in := roomy(t)
						got := gse.FindAllOccs(in, words)
						c.Trans(1)
						if !roomyIs(in, t) {
							c.Failf("the input was changed")
						}
						for _, w := range words[1:] {
							want := refOccs(t, w)
							if fmt.Sprint(got[w]) != fmt.Sprint(want) {
								c.Failf("occurrences of %q are %v want %v", w, got[w], want)
							}
						}
						for k := range got {
							if k != "" && !strings.Contains(t, k) {
								c.Failf("occurrences of %q, which is not there", k)
							}
						}
						if len(got[""]) != 0 {
							c.Failf("occurrences of nothing: %v", got[""])
						}
						c.State(fmt.Sprint(got))
					})
				})
			})
		}
	}
	c.Unit("occurrences of one or none", func() {
		for _, t := range []string{"", "a", "世"} {
			for _, ws := range [][]string{nil, {""}, {"a"}, {"世"}, {"世a"}} {
				t, ws := t, ws
				c.Case(func() string { return fmt.Sprintf("text %q words %q", t, ws) }, func() {
					got := gse.FindAllOccs([]byte(t), ws)
					for _, w := range ws {
						if w != "" && fmt.Sprint(got[w]) != fmt.Sprint(refOccs(t, w)) {
							c.Failf("gives %v", got)
						}
					}
				})
			}
		}
	})
	dict := []Ent{{"甲乙", 8, "n"}, {"甲", 4, "m"}, {"乙ab", 6, "v"}, {"ab", 3, "eng"}, {"é世", 2, "x"}}
	check := func(seg *gse.Segmenter, toks []string, t1 string, low bool, d *refDict) {
		in := append([]string(nil), toks...)
		got := seg.Analyze(in, t1)
		c.Trans(1)
		common := func(got []gse.AnalyzeToken) bool {
			if len(got) != len(toks) {
				c.Failf("Analyze gives %d tokens for %d", len(got), len(toks))
				return false
			}
			for i, g := range got {
				f, p, _ := d.find(toks[i])
				if g.Position != i || g.Text != toks[i] || g.Freq != f || g.Pos != p {
					c.Failf("token %d is %+v, want %q %v %q", i, g, toks[i], f, p)
					return false
				}
			}
			return true
		}
		if !eqStrs(in, toks) {
			c.Failf("the input was changed")
		}
		if !common(got) {
			return
		}
		if t1 != "" {
			lt := t1
			if low {
				lt = strings.ToLower(t1)
			}
			occ := map[string]int{}
			used := map[string]map[int]bool{}
			for i, w := range toks {
				if w == "" || !strings.Contains(lt, w) {
					continue
				}
				g := got[i]
				if g.Start < 0 || g.End > len(lt) || g.Start > g.End || lt[g.Start:g.End] != w {
					c.Failf("token %d %q is said to be at %d..%d of %q", i, w, g.Start, g.End, lt)
					return
				}
				occ[w]++
				if used[w] == nil {
					used[w] = map[int]bool{}
				}
				used[w][g.Start] = true
			}
			for w, k := range occ {
				if m := len(refOccs(lt, w)); m < k {
					k = m
				}
				if len(used[w]) < k {
					c.Failf("the occurrences of %q are given the same place: %+v", w, got)
				}
			}
			c.Outcome("with the text")
			return
		}
		for k := 0; k < 3; k++ {
			if k == 1 {
				got = seg.Analyze(in, "", true)
				if !common(got) {
					return
				}
			}
			if k == 2 {
				// asked for with false: either of the two, but one of them
				by := dump(got)
				got = seg.Analyze(in, "", false)
				if dump(got) != by && dump(got) != dump(seg.Analyze(in, "")) {
					c.Failf("with false Analyze gives %+v, neither bytes nor characters", got)
				}
				break
			}
			at := 0
			for i, w := range toks {
				ln := len(w)
				if k == 1 {
					ln = len([]rune(w))
				}
				if got[i].Start != at || got[i].End != at+ln {
					c.Failf("token %d %q (runes %v) is at %d..%d, want %d..%d", i, w, k == 1, got[i].Start, got[i].End, at, at+ln)
					return
				}
				at += ln
			}
		}
		c.Outcome("without the text")
	}
	at := []string{"甲", "乙", "a", "B", "é", "É", "，", " ", "\xff", "世"}
	m := 4
	if c.thorough {
		m = 5
	}
	for _, low := range []bool{true, false} {
		for _, a := range at {
			for _, b := range at {
				low, p := low, a+b
				c.Unit(fmt.Sprintf("analyze lower=%v %q", low, p), func() {
					gse.ToLower = low
					defer func() { gse.ToLower = true }()
					hmmCustomOnce(0)
					seg := buildSeg(Opts{}, dict)
					d := refDictOf(Opts{}, dict, low)
					texts(at, 0, m-2, func(s string) {
						t := p + s
						c.Case(func() string { return fmt.Sprintf("lower=%v text %q", low, t) }, func() {
							for h := 0; h < 4; h++ {
								var toks []string
								switch h {
								case 0:
									toks = seg.Cut(t)
								case 1:
									toks = seg.Cut(t, false)
								case 2:
									toks = seg.Cut(t, true)
								case 3:
									toks = seg.CutSearch(t)
								}
								check(seg, toks, t, low, d)
								check(seg, toks, "", low, d)
								if c.curBad {
									c.Failf("tokens %q", toks)
									return
								}
								c.State(fmt.Sprint(toks))
							}
						})
					})
				})
			}
		}
	}
	lists := []string{"甲", "ab", "", "甲乙", "no", "é世", "\xff"}
	c.Unit("lists", func() {
		seg := buildSeg(Opts{}, dict)
		d := refDictOf(Opts{}, dict, true)
		m := 4
		if c.thorough {
			m = 6
		}
		sequences(lists, 0, m, func(p []string) {
			toks := append([]string(nil), p...)
			for _, t := range []string{"", "甲ab甲乙 é世", "ab", "甲甲甲甲", strings.Join(toks, ""), strings.Join(toks, " ")} {
				t := t
				c.Case(func() string { return fmt.Sprintf("tokens %q text %q", toks, t) }, func() { check(seg, toks, t, true, d) })
			}
		})
	})
	// long lists and texts, many occurrences
	for _, p := range [][]string{{"甲"}, {"ab", "甲"}, {"甲", "甲乙", "no"}, {"", "ab"}, {"é世", "\xff", "甲乙", "甲"}, {"aa", "a"}} {
		p := p
		c.Unit(fmt.Sprintf("long lists %q", p), func() {
			seg := buildSeg(Opts{}, dict)
			d := refDictOf(Opts{}, dict, true)
			for _, k := range []int{5, 9, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1025} {
				toks := make([]string, k)
				for i := range toks {
					toks[i] = p[i%len(p)]
				}
				for ti, t := range []string{"", strings.Join(toks, ""), strings.Join(toks[:k/2+1], " "), strings.Join(toks, ""+strings.Repeat("世", 40))} {
					t := t
					c.Case(func() string { return fmt.Sprintf("list of %d tokens of %q, text %d", k, p, ti) }, func() {
						check(seg, toks, t, true, d)
						got := gse.FindAllOccs([]byte(t), p)
						for _, w := range p {
							if w != "" && fmt.Sprint(got[w]) != fmt.Sprint(refOccs(t, w)) {
								c.Failf("occurrences of %q are %v", w, got[w])
							}
						}
					})
				}
			}
		})
	}
}

// ---- A02 ----

func runA02(c *Ctx) {
	univ := []string{"甲乙", "甲", "乙", "甲乙丙", "乙丙"}
	lv := []float64{0.5, 1, 5, 300, 1e6, 7e10}
	words := allTexts([]string{"甲", "乙", "丙"}, 1, 4)
	if !c.thorough {
		words = allTexts([]string{"甲", "乙", "丙"}, 1, 3)
	}
	words = append(words, "甲a", "ab", "a", "甲乙a丙", "1")
	run := func(name string, es []Ent, words []string) {
		c.Unit(name, func() {
			seg := buildSeg(Opts{}, es)
			d := refDictOf(Opts{}, es, true)
			// prob gives the number of times the parts are expected next to each other
			parts := func(ws []string) float64 {
				p := 1.0
				for _, w := range ws {
					if f, _, ok := d.find(w); ok {
						p *= f
					}
					p /= d.total
				}
				return p * d.total
			}
			okFloor := func(got, p float64) bool {
				return got == math.Floor(p*(1-1e-11)) || got == math.Floor(p*(1+1e-11)) || got == math.Floor(p)
			}
			c.Case(func() string { return fmt.Sprintf("dictionary %s no words", entsStr(es)) }, func() {
				c.Trans(1)
				if g := seg.SuggestFreq(); g != 0 {
					c.Failf("SuggestFreq of no words gives %v", g)
				}
			})
			for _, w := range words {
				w := w
				c.Case(func() string { return fmt.Sprintf("dictionary %s word %q", entsStr(es), w) }, func() {
					got := seg.SuggestFreq(w)
					c.Trans(1)
					p := parts(seg.Cut(w, false))
					have := 1.0
					if f, _, ok := d.find(w); ok {
						have = f
					}
					if !(got == have && have >= math.Floor(p*(1-1e-11))+1 || okFloor(got-1, p) && got >= have) {
						c.Failf("SuggestFreq gives %v, the parts are expected %v times, the word has %v", got, p, have)
					}
					// splits of the word
					rs := []rune(w)
					for _, cut := range splits(len(rs)) {
						var ps []string
						st := 0
						for i := 1; i <= len(rs); i++ {
							if i == len(rs) || cut(i-1) {
								ps = append(ps, string(rs[st:i]))
								st = i
							}
						}
						g := seg.SuggestFreq(ps...)
						c.Trans(1)
						x := parts(ps)
						whole := 0.0
						if f, _, ok := d.find(w); ok {
							whole = f
						}
						if !(g == whole && whole <= math.Floor(x*(1+1e-11)) || okFloor(g, x) && g <= whole) {
							c.Failf("SuggestFreq(%q) gives %v, the parts are expected %v times, the whole has %v", ps, g, x, whole)
						}
					}
					c.State(fmt.Sprint(got))
					// with this frequency the word is kept whole
					s2 := buildSeg(Opts{}, es)
					if _, ok := d.m[w]; ok {
						s2.ReAddToken(w, got, "n")
						c.Outcome("word known")
					} else {
						s2.AddToken(w, got, "n")
						c.Outcome("word new")
					}
					if p > 1e11 {
						c.Outcome("too many to tell by floats")
						return
					}
					if out := s2.Cut(w, false); len(out) != 1 || out[0] != w {
						c.Failf("with the suggested frequency %v Cut(%q, false) gives %q", got, w, out)
					}
				})
			}
		})
	}
	product(len(lv)+1, len(univ), func(dg []int) {
		var es []Ent
		for i, k := range dg {
			if k > 0 {
				es = append(es, Ent{univ[i], lv[k-1], "n"})
			}
		}
		if len(es) == 0 {
			return
		}
		run(fmt.Sprint("dictionary ", dg), es, words)
	})
	// long words: their parts are common words
	var long []string
	for n := 4; n <= 70; n++ {
		for _, p := range []string{"甲", "甲乙", "丙甲甲", "甲丁"} {
			long = append(long, strings.Repeat(p, n)[:3*n])
		}
	}
	for _, big := range []float64{5, 300, 1e6, 1e9} {
		for _, es := range [][]Ent{
			{{"甲", big, "n"}},
			{{"甲", big, "n"}, {"乙", 3, "n"}},
			{{"甲", big, "n"}, {"乙", big, "n"}, {"甲乙", big / 2, "n"}},
			{{"甲甲", big, "n"}, {"甲", 4, "n"}, {"丙甲", 9, "n"}},
			{{"甲", big, "n"}, {strings.Repeat("甲", 9), 7, "n"}, {strings.Repeat("甲", 20), 70, "n"}},
			{{"甲", big, "n"}, {strings.Repeat("甲乙", 9), big, "n"}, {strings.Repeat("甲乙", 20), 70, "n"}},
		} {
			run(fmt.Sprint("long words, dictionary ", entsStr(es)), es, long)
		}
	}
}

// splits gives the splits of n characters: all of them for small n, else
// those in parts of the same size and those in two.
func splits(n int) (r []func(i int) bool) {
	if n <= 6 {
		for m := 1; m < 1<<(n-1); m++ {
			m := m
			r = append(r, func(i int) bool { return m>>i&1 == 1 })
		}
		return
	}
	for k := 1; k < n; k++ {
		k := k
		r = append(r, func(i int) bool { return (i+1)%k == 0 })
		if k > n/2 {
			r = append(r, func(i int) bool { return i+1 == n-k })
		}
	}
	return
}

// ---- R01 ----

func rEnvs() []func() *env {
	ents := []Ent{{"世界", 8, "n"}, {"世", 4, "nz"}, {"甲乙", 6, "n"}, {"甲乙丙", 3, "v"}, {"国人", 5, "n"}, {"go", 4, "eng"}, {"的", 30, "u"}, {"カナ", 6, "j"}, {"乙丙", 7, "n"}}
	return []func() *env{
		func() *env { return newEnv(Opts{}, ents, []string{"的", " ", "，"}) },
		func() *env { return newEnv(Opts{AlphaNum: true}, ents, []string{"的"}) },
		func() *env {
			e := newEnv(Opts{}, ents, nil)
			e.seg.RemoveToken("甲乙")
			e.seg.AddToken("丙丁", 9, "w")
			e.seg.NotStop = true
			e.seg.SkipPos = true
			return wrapEnv(e.seg)
		},
	}
}

func runR01(c *Ctx) {
	ts := []string{"世界甲乙丙，的国人 go1.5", "甲乙丙丁カナ", "", "的 É<b>世</b>７7é\xff", "国人世界国人甲乙世界Go go的的", "中国人民的了在㐀㐁中㐂甲乙㐀"}
	envs := rEnvs()
	hashOf := func(e *env) (uint64, map[string]uint64) { return deepHash(e), globalsHash() }
	type key struct {
		op, ti int
	}
	for ei := range envs {
		for ti := range ts {
			ei, ti := ei, ti
			t := ts[ti]
			// alone gives the result of an operation on a fresh environment
			alone := make([]string, len(readOps))
			fresh := func() {
				for i, o := range readOps {
					if alone[i] == "" {
						alone[i] = dump(o.f(envs[ei](), t))
					}
				}
			}
			for a := range readOps {
				a := a
				c.Unit(fmt.Sprintf("env %d text %d first %s", ei, ti, readOps[a].name), func() {
					hmmCustom(0)
					customLoaded = 0
					fresh()
					e := envs[ei]()
					h0, g0 := hashOf(e)
					// every second operation, on the same environment, to the end
					for b := range readOps {
						b := b
						c.Case(func() string {
							return fmt.Sprintf("env %d: %s, then %s of %q", ei, readOps[a].name, readOps[b].name, t)
						}, func() {
							r1 := readOps[a].f(e, t)
							d1 := dump(r1)
							r2 := readOps[b].f(e, t)
							c.Trans(2)
							if d1 != alone[a] {
								c.Failf("%s gives %s, alone %s", readOps[a].name, d1, alone[a])
							}
							if d := dump(r2); d != alone[b] {
								c.Failf("%s gives %s, alone %s", readOps[b].name, d, alone[b])
							}
							if d := dump(r1); d != d1 {
								c.Failf("%s changed the earlier result of %s from %s to %s", readOps[b].name, readOps[a].name, d1, d)
							}
							h1, g1 := hashOf(e)
							if h1 != h0 {
								c.Failf("the state of the segmenters changed")
							}
							if df := diffHash(g0, g1); len(df) > 0 {
								c.Failf("package variables changed: %v", df)
							}
							c.State(readOps[a].name, readOps[b].name, fmt.Sprint(ei, ti))
						})
					}
				})
				// depth three over some texts
				if !(ei == 0 && ti == 0) && !c.thorough {
					continue
				}
				c.Unit(fmt.Sprintf("env %d text %d three from %s", ei, ti, readOps[a].name), func() {
					hmmCustom(0)
					customLoaded = 0
					fresh()
					e := envs[ei]()
					h0, g0 := hashOf(e)
					for b := range readOps {
						if b%4 != a%4 && !c.thorough {
							continue
						}
						b := b
						c.Case(func() string {
							return fmt.Sprintf("env %d: %s, %s, then every operation of %q", ei, readOps[a].name, readOps[b].name, t)
						}, func() {
							r1 := readOps[a].f(e, t)
							d1 := dump(r1)
							r2 := readOps[b].f(e, t)
							d2 := dump(r2)
							for k, o := range readOps {
								c.Trans(1)
								if d := dump(o.f(e, t)); d != alone[k] {
									c.Failf("%s gives %s, alone %s", o.name, d, alone[k])
									return
								}
								if k%8 == 7 && (dump(r1) != d1 || dump(r2) != d2) {
									c.Failf("an earlier result changed by %s", o.name)
									return
								}
							}
							if dump(r1) != d1 || dump(r2) != d2 {
								c.Failf("an earlier result changed")
							}
							h1, g1 := hashOf(e)
							if df := diffHash(g0, g1); h1 != h0 || len(df) > 0 {
								c.Failf("the state changed: %v", df)
							}
						})
					}
				})
			}
		}
	}
	// orders of map iteration
	for ei := range envs {
		for ti := range ts {
			ei, ti := ei, ti
			c.Unit(fmt.Sprintf("map orders env %d text %d", ei, ti), func() {
				hmmCustom(0)
				customLoaded = 0
				e := envs[ei]()
				for _, o := range readOps {
					o := o
					c.Case(func() string { return fmt.Sprintf("map orders of %s of %q", o.name, ts[ti]) }, func() {
						first := ""
						orders(c, true, 60, func(name string) {
							c.Trans(1)
							g := dump(o.f(e, ts[ti]))
							if first == "" {
								first = g
							} else if g != first {
								c.Failf("order %s gives %s, before %s", name, g, first)
							}
						})
					})
				}
			})
		}
	}
	_ = sort.Strings
}

// ---- X01 ----

// edgeRunes lists the first and last characters of the ranges of the
// Unicode tables and those next to them.
func edgeRunes(all bool) (rs []rune) {
	seen := map[rune]bool{}
	add := func(r rune) {
		if utf8.ValidRune(r) && !seen[r] {
			seen[r] = true
			rs = append(rs, r)
		}
	}
	for _, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		for name, t := range m {
			if !all && len(name) == 1 {
				continue
			}
			edge := func(lo, hi rune) {
				add(lo)
				add(hi)
				if all {
					add(lo - 1)
					add(hi + 1)
					add((lo + hi) / 2)
				}
			}
			for _, x := range t.R16 {
				edge(rune(x.Lo), rune(x.Hi))
			}
			for _, x := range t.R32 {
				edge(rune(x.Lo), rune(x.Hi))
			}
		}
	}
	for r := rune(0); r <= unicode.MaxRune; r += 1021 {
		add(r)
	}
	for r := rune(0x1f000); r < 0x1fb00; r++ {
		add(r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return
}

func runX01(c *Ctx) {
	odd := []Ent{{"\xff", 3, "b"}, {"a\xff世", 4, "b"}, {"é", 2, "l"}, {"世界", 8, "n"}, {"界世", 1, "q"}, {"😀世", 5, "e"}, {" ", 6, "sp"}, {"\n", 2, "nl"}, {"ab", 0, "z"}, {"カ", 3, "j"}, {"カカ", 3, "j"}, {"世カ世", 9, "j"}}
	kinds := []struct {
		name string
		make func() *env
	}{
		{"empty", func() *env { return newEnv(Opts{}, nil, nil) }},
		{"small", rEnvs()[0]},
		{"odd", func() *env { return newEnv(Opts{}, odd, []string{"", " ", "\xff"}) }},
		{"odd AlphaNum", func() *env { return newEnv(Opts{AlphaNum: true}, odd, []string{"", " ", "\xff"}) }},
		{"odd Alpha", func() *env { return newEnv(Opts{Alpha: true}, odd, nil) }},
		{"odd Num", func() *env { return newEnv(Opts{Num: true, AlphaNum: true}, odd, nil) }},
		{"removed", func() *env {
			e := newEnv(Opts{}, odd, nil)
			for _, x := range odd {
				e.seg.RemoveToken(x.Text)
			}
			return e
		}},
		{"uncalculated", func() *env {
			s := newSeg(Opts{})
			for _, x := range odd {
				s.AddToken(x.Text, x.Freq, x.Pos)
			}
			return wrapEnv(s)
		}},
		{"odd frequencies", func() *env {
			s := newSeg(Opts{})
			for i, w := range []string{"世界", "界世", "世", "a", "ab", "カカ", "，", "7", "é", "世界世", "a世"} {
				s.AddToken(w, []float64{-3, math.NaN(), math.Inf(1), 0, -0.5, math.Inf(-1), 5e-324, 1e308, math.MaxFloat64}[i%9], "n")
			}
			s.CalcToken()
			return wrapEnv(s)
		}},
		{"negative frequencies", func() *env {
			s := newSeg(Opts{AlphaNum: true})
			for i, w := range []string{"世界", "界世", "世", "a", "ab", "カカ", "，", "7", "é", "世界世", "a世"} {
				s.AddToken(w, float64(i*i%7-5), "v")
			}
			s.CalcToken()
			return wrapEnv(s)
		}},
		{"no dictionary", func() *env { return wrapEnv(&gse.Segmenter{SkipLog: true}) }},
		{"emptied", func() *env {
			s := buildSeg(Opts{AlphaNum: true}, odd)
			s.LoadStopArr([]string{"", "世"})
			s.Empty()
			return wrapEnv(s)
		}},
		{"zero values", func() *env {
			return &env{seg: &gse.Segmenter{SkipLog: true}, pos: &pos.Segmenter{}, tags: &idf.TagExtracter{},
				rank: &idf.TextRanker{}, stop: &idf.StopWord{}, idf: idf.NewIdf()}
		}},
		{"no IDF dictionary", func() *env {
			e := newEnv(Opts{}, odd, nil)
			e.tags = &idf.TagExtracter{}
			e.tags.WithGse(*e.seg)
			return e
		}},
	}
	perText := func(e *env, kname, t string, model int) {
		for _, o := range readOps {
			o := o
			bound := uint64(3_000_000 + 60_000*len(t))
			c.budget = bound
			c.Case(func() string { return fmt.Sprintf("%s: %s of %s", kname, o.name, q(t)) }, func() {
				r := o.f(e, t)
				c.Trans(1)
				if c.kase%7 == 0 {
					c.State(o.name, dump(r))
				}
			})
			c.budget = 50_000_000
		}
	}
	hmm.LoadModel()
	n := 2
	for ki, k := range kinds {
		for _, a := range append([]string{""}, richAtoms...) {
			ki, k, a := ki, k, a
			c.Unit(fmt.Sprintf("%s %q", k.name, a), func() {
				if ki%2 == 0 {
					hmmCustom(ki / 2 % nCustom)
				} else {
					hmm.LoadModel()
				}
				customLoaded = -1
				e := k.make()
				if a == "" {
					perText(e, k.name, "", 0)
					return
				}
				texts(richAtoms, 0, n-1, func(s string) { perText(e, k.name, a+s, 0) })
				if c.thorough || ki < 3 {
					core := coreAtoms
					if !c.thorough {
						core = []string{"a", "世", "\xff", " ", "，", "界"}
					}
					texts(core, 2, 2, func(s string) { perText(e, k.name, a+s, 0) })
				}
			})
		}
		for _, p := range []string{"a", "世", "\xff", " ", "，", "7", "é", "世界", "a世", "<b>", "カ", "😀", "a ", "1.", "\x00", "世\n"} {
			ki, k, p := ki, k, p
			c.Unit(fmt.Sprintf("%s pump %q", k.name, p), func() {
				if ki%2 == 0 {
					hmmCustom(ki / 2 % nCustom)
				} else {
					hmm.LoadModel()
				}
				customLoaded = -1
				e := k.make()
				for _, m := range pumpLens {
					if m > 260 && !c.thorough || m > 1100 {
						break
					}
					if m < 4 || m > 40 && !c.thorough && m%2 == 0 && m != 64 && m != 128 && m != 256 {
						continue
					}
					perText(e, k.name, pump(p, m), 0)
				}
			})
		}
	}
	// characters of every kind: the ends of all ranges of the tables
	rs := edgeRunes(c.thorough)
	const part = 400
	for i := 0; i < len(rs); i += part {
		i := i
		c.Unit(fmt.Sprintf("characters from %U", rs[i]), func() {
			hmmCustom(0)
			customLoaded = -1
			e := kinds[1].make()
			for _, r := range rs[i:min(i+part, len(rs))] {
				switch r % 3 {
				case 0:
					perText(e, "small", string(r), 0)
				case 1:
					perText(e, "small", "世"+string(r), 0)
				case 2:
					perText(e, "small", string(r)+"a"+string(r), 0)
				}
			}
		})
	}
	// changing operations with odd arguments
	c.Unit("changes", func() {
		ts := append(allTexts(richAtoms, 0, 1), allTexts(coreAtoms, 2, 2)...)
		for _, o := range allOpts {
			for _, t := range ts {
				t, o := t, o
				c.Case(func() string { return fmt.Sprintf("changes with %q options %v", t, o) }, func() {
					s := newSeg(o)
					s.AddToken("世界", 8, "n")
					s.AddToken(t, 0, "")
					s.AddToken(t, 5)
					s.AddTokenForce(t+"a", 3, "n")
					s.RemoveToken(t)
					s.RemoveToken(t)
					s.ReAddToken(t+"a", 7, "v")
					s.ReAddToken("none"+t, 7, "v")
					s.CalcToken()
					s.AddStop(t)
					s.AddStopArr(t, t)
					s.RemoveStop(t)
					s.LoadStopStr(t)
					s.EmptyStop()
					s.RemoveStop(t)
					s.LoadDictStr(t)
					s.LoadDictStr(t + " 8 n")
					s.LoadDictStr(t + " " + t + "\n" + t)
					s.LoadDictMap([]map[string]string{nil, {"text": t}, {"text": t, "freq": t}, {"text": t, "freq": "8", "pos": t}, {"freq": "9", "pos": "n"}})
					s.SuggestFreq()
					gse.FindAllOccs([]byte(t), nil)
					s.Trim(nil)
					s.TrimPos(nil)
					s.Stop(nil)
					s.CutStr(nil)
					s.PosStr(nil)
					s.Analyze(nil, t)
					s.Empty()
					s.Segment([]byte(t))
					s.Slice(t, true)
					for _, h := range []bool{true, false} {
						s.Cut(t, h)
						s.CutSearch(t, h)
					}
					s.CutAll(t)
					s.Find(t)
					s.Value(t)
					s.SuggestFreq()
					s.SuggestFreq(t)
					s.SuggestFreq(t, t)
					s.RemoveToken(t)
					s.ReAddToken(t, 3, "n")
					s.CalcToken()
					s.Dictionary().NumTokens()
					s.Cut(t, false)
					s.Empty()
					s.AddToken(t, 3)
					s.Cut(t, true)
					s.Empty()
					s.AddTokenForce(t, 3, "n")
					s.Slice(t)
					s.Empty()
					s.Reader(bufio.NewReader(strings.NewReader(t + " 7 n\n")))
					s.CalcToken()
					s.Slice(t)
					s.Empty()
					s.LoadDictMap([]map[string]string{{"text": t, "freq": "8"}})
					s.Slice(t)
					s.Empty()
					s.LoadDictStr("世界 8 n")
					s.Cut(t+"世界", false)
					c.Trans(60)
				})
			}
		}
	})
	// every operation as the first one, and as the second, of zero values
	type zop struct {
		name string
		f    func(e *env, t string)
	}
	zops := []zop{
		{"AddToken", func(e *env, t string) { e.seg.AddToken(t, 3, "n") }},
		{"AddTokenForce", func(e *env, t string) { e.seg.AddTokenForce(t, 3, "n") }},
		{"RemoveToken", func(e *env, t string) { e.seg.RemoveToken(t) }},
		{"ReAddToken", func(e *env, t string) { e.seg.ReAddToken(t, 5, "v") }},
		{"CalcToken", func(e *env, t string) { e.seg.CalcToken() }},
		{"Empty", func(e *env, t string) { e.seg.Empty() }},
		{"Init", func(e *env, t string) { e.seg.Init() }},
		{"LoadDictStr", func(e *env, t string) { e.seg.LoadDictStr(t + " 8 n\n") }},
		{"LoadDictMap", func(e *env, t string) { e.seg.LoadDictMap([]map[string]string{{"text": t, "freq": "8"}}) }},
		{"Reader", func(e *env, t string) { e.seg.Reader(bufio.NewReader(strings.NewReader(t + " 7 n\n"))) }},
		{"LoadStopStr", func(e *env, t string) { e.seg.LoadStopStr(t) }},
		{"LoadStopArr", func(e *env, t string) { e.seg.LoadStopArr([]string{t}) }},
		{"AddStop", func(e *env, t string) { e.seg.AddStop(t) }},
		{"AddStopArr", func(e *env, t string) { e.seg.AddStopArr(t, t) }},
		{"RemoveStop", func(e *env, t string) { e.seg.RemoveStop(t) }},
		{"EmptyStop", func(e *env, t string) { e.seg.EmptyStop() }},
		{"LoadModel", func(e *env, t string) { e.seg.LoadModel() }},
		{"pos.WithGse", func(e *env, t string) { e.pos.WithGse(*e.seg) }},
		{"tags.WithGse", func(e *env, t string) { e.tags.WithGse(*e.seg) }},
		{"tags.LoadIdfStr", func(e *env, t string) { e.tags.LoadIdfStr(t + " 2.5 n\n") }},
		{"rank.WithGse", func(e *env, t string) { e.rank.WithGse(*e.seg) }},
		{"stop.AddStop", func(e *env, t string) { e.stop.AddStop(t) }},
		{"stop.RemoveStop", func(e *env, t string) { e.stop.RemoveStop(t) }},
		{"idf.AddToken", func(e *env, t string) { e.idf.AddToken(t, 2.5, "n") }},
	}
	ts := []string{"", " ", "世", "世界", "a", "a世", "ab c", "\xff", "，", "1"}
	for _, a := range zops {
		a := a
		c.Unit("first "+a.name, func() {
			for _, b := range zops {
				for ti, t := range ts {
					a, b, t, ti := a, b, t, ti
					c.Case(func() string {
						return fmt.Sprintf("zero values, %s and %s of %q, then all of the others", a.name, b.name, t)
					}, func() {
						e := &env{seg: &gse.Segmenter{SkipLog: true}, pos: &pos.Segmenter{}, tags: &idf.TagExtracter{},
							rank: &idf.TextRanker{}, stop: &idf.StopWord{}, idf: &idf.Idf{}}
						if ti%2 == 0 {
							e.idf = idf.NewIdf()
						}
						a.f(e, t)
						b.f(e, t)
						c.Trans(2 + 2*len(readOps))
						for _, o := range readOps {
							o.f(e, t)
							o.f(e, t+"世界")
						}
					})
				}
			}
		})
	}
	_ = rt.P
}
