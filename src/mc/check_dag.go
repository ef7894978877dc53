package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"vmc.local/rt"
)

// ---- D01 D02 D03 D04: the modes over the word graph ----

func init() {
	register(&checkDef{id: "D01",
		desc: "Cut(text, false) and CutDAGNoHMM against an independent search of the most probable routes: all dictionaries over small universes with frequencies 0, small and large, words that begin other words, all short texts over representative atoms, periodic and long texts, lower-casing on and off; any most probable route is accepted",
		run:  func(c *Ctx) { dagSpace(c, dagNoHMM) }})
	register(&checkDef{id: "D02",
		desc: "CutAll lists exactly the words of two or more characters at every position and the remaining characters, over the space of D01",
		run:  func(c *Ctx) { dagSpace(c, dagFull) }})
	register(&checkDef{id: "D03",
		desc: "CutSearch(text, hmm) lists, for every word of Cut(text, hmm), the two and three character dictionary words inside it and then the word; over the space of D01 with long words, HMM on and off, custom models",
		run:  func(c *Ctx) { hmmCustom(0); dagSpace(c, dagSearch) }})
	register(&checkDef{id: "D04",
		desc: "Cut(text, true) and CutDAG against most probable routes whose runs of single characters are cut by an independent HMM oracle (any optimal state path), custom models and user regexps, over the space of D01",
		run:  func(c *Ctx) { dagSpace(c, dagHMM) }})
}

// dagCase holds what every case of a dictionary shares.
type dagCase struct {
	seg   *gse.Segmenter
	d     *refDict
	g     *refDag
	name  string
	long  bool
	low   bool
	big   bool // very long texts
	model hmmModel
}

func dagSpace(c *Ctx, f func(c *Ctx, dc *dagCase, rs []rune, text string)) {
	c.budget = 1_000_000_000
	run := func(name string, ents []Ent, ts []string, low, long bool, after func(seg *gse.Segmenter, d *refDict)) {
		es := append([]Ent(nil), ents...)
		c.Unit(fmt.Sprintf("%s lower=%v", name, low), func() {
			gse.ToLower = low
			defer func() { gse.ToLower = true }()
			dc := &dagCase{seg: buildSeg(Opts{}, es), d: refDictOf(Opts{}, es, low), low: low, long: long, big: strings.HasPrefix(name, "very")}
			if after != nil {
				after(dc.seg, dc.d)
			}
			dc.g = newRefDag(dc.d)
			dc.model = hmmCustom(c.unit % nCustom)
			dc.name = entsStr(es)
			each := func(ts []string, how int) {
				for _, text := range ts {
					text := text
					c.Case(func() string {
						return fmt.Sprintf("dictionary %s (history %d) lower=%v model %d text %s", dc.name, how, low, c.unit%nCustom, q(text))
					}, func() {
						t := text
						if low {
							t = strings.ToLower(text)
						}
						f(c, dc, []rune(t), text)
					})
				}
			}
			each(ts, 0)
			if long || len(es) > 12 || after != nil {
				return
			}
			short := shortTexts(ts, 60)
			for how := 1; how < nHow; how++ {
				dc.seg = buildHow(Opts{}, es, how)
				each(short, how)
			}
		})
	}
	for _, fam := range segFamilies(c.thorough, true) {
		i := 0
		fam.dicts(func(ents []Ent) {
			i++
			long := fam.name == "pump" || fam.name == "big" || fam.name == "nest"
			ts := fam.texts
			if long {
				ts = nil
				for _, t := range fam.texts {
					if len(t) <= 1600 || c.thorough && len(t) < 8000 {
						ts = append(ts, t)
					}
				}
			}
			run(fmt.Sprintf("%s #%d", fam.name, i), ents, ts, true, long, nil)
			if fam.name == "rich" || fam.name == "mixed" && i%27 == 26 {
				run(fmt.Sprintf("%s #%d", fam.name, i), ents, ts, false, long, nil)
			}
		})
	}
	// frequencies of zero and below one, words that begin words, words of capitals
	lv := []float64{0, 0.25, 1, 3, 4000}
	univ := []string{"甲乙", "甲", "甲乙丙", "丙丁", "乙丙丁"}
	ts := allTexts([]string{"甲", "乙", "丙", "丁"}, 1, 4)
	product(len(lv)+1, len(univ), func(d []int) {
		var es []Ent
		for i, k := range d {
			if k > 0 {
				es = append(es, Ent{univ[i], lv[k-1], "t"})
			}
		}
		run(fmt.Sprint("levels ", d), es, ts, true, false, nil)
	})
	cap := []Ent{{"É", 4, "a"}, {"é", 3, "b"}, {"Go", 9, "c"}, {"go世", 7, "d"}, {"世Go", 30, "e"}, {"K1", 8, "f"}, {"İ", 5, "g"}, {"\ufffd世", 6, "h"}, {"\xff世", 5, "i"}, {"ẞ世", 4, "j"}, {"я", 3, "k"}, {"ЯЯ", 3, "l"}, {"яя", 5, "m"}, {"a", 2, "n"}, {"ab", 40, "o"}, {"b世", 9, "p"}}
	tc := allTexts([]string{"É", "é", "G", "o", "世", "K", "K", "1", "İ", "\xff", "ẞ", "Я", "я", "a", "b", " "}, 1, 3)
	for _, low := range []bool{true, false} {
		run("capitals", cap, tc, low, false, nil)
	}
	// words removed again and added again
	run("removed", univEnts(univ, 5), ts, true, false, func(seg *gse.Segmenter, d *refDict) {
		seg.RemoveToken("甲乙丙")
		d.remove("甲乙丙", Opts{}, true)
		seg.ReAddToken("丙丁", 900, "n")
		d.remove("丙丁", Opts{}, true)
		d.add(Ent{"丙丁", 900, "n"}, Opts{}, true)
	})
	// words that join, leave or change without a recalculation: the routes are
	// over the dictionary as it stands
	for fi, fr := range []float64{0.5, 3, 5000, 1e7, 1 << 40} {
		product(3, len(univ), func(d []int) {
			var first, later []Ent
			for i, k := range d {
				switch k {
				case 1:
					first = append(first, Ent{univ[i], float64(2 + 3*i), "t"})
				case 2:
					later = append(later, Ent{univ[i], fr, "u"})
				}
			}
			if len(later) == 0 || len(first) == 0 && fi > 0 {
				return
			}
			run(fmt.Sprint("later ", fr, d), first, ts, true, false, func(seg *gse.Segmenter, d *refDict) {
				useSeg(seg, first)
				for _, e := range later {
					seg.AddToken(e.Text, e.Freq, e.Pos)
					d.add(e, Opts{}, true)
				}
				if fi == 1 && len(first) > 0 {
					seg.RemoveToken(first[0].Text)
					d.remove(first[0].Text, Opts{}, true)
				}
			})
		})
	}
	// dictionaries whose words are one or two basic words of many characters
	lat := pump("abcde", 130)
	for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129} {
		var tl []string
		for _, w := range []string{lat[:n], lat[:n-1], lat[:n+1], lat[n : 2*n]} {
			tl = append(tl, w, "x"+w, w+"x", w+w, "甲"+w+"乙", w+" "+w, strings.ToUpper(w))
		}
		es := []Ent{{lat[:n], 5, "l"}, {lat[n : 2*n], 90, "m"}}
		run(fmt.Sprint("latin ", n), es, tl, true, n > 20, nil)
		if n > 2 {
			run(fmt.Sprint("latin nested ", n), append(es, Ent{lat[:n-1], 30, "o"}, Ent{lat[:n/2+1], 3, "p"}), tl, true, n > 20, nil)
		}
		run(fmt.Sprint("latin pair ", n), []Ent{{lat[:n] + " " + lat[:n], 5, "l"}}, tl, true, n > 20, nil)
	}
	// long words with one or two words inside, at every place
	for n := 4; n <= 13; n++ {
		w := []rune(nestText[:3*n])
		texts := []string{string(w), "龙" + string(w), string(w) + "龙", string(w) + string(w), string(w[1:]), string(w[:n-1]), string(w) + " x1"}
		for ln := 1; ln <= 5 && ln < n; ln++ {
			for at := 0; at+ln <= n; at++ {
				if n > 8 && !c.thorough && (ln == 1 || ln == 5) {
					continue
				}
				in := string(w[at : at+ln])
				for k, es := range [][]Ent{
					{{string(w), 900, "w"}, {in, 5, "i"}},
					{{string(w), 900, "w"}, {in, 5, "i"}, {string(w[n-at-ln : n-at]), 7, "j"}, {string(w[at : at+min(ln+1, n-at)]), 8, "k"}},
					{{in, 5, "i"}, {string(w[max(0, at-2) : at+1]), 4, "l"}},
				} {
					run(fmt.Sprintf("inner %d %d %d %d", n, ln, at, k), es, texts, true, true, nil)
				}
			}
		}
	}
	// very long texts, at every place of the words
	for _, n := range []int{999, 1000, 1001, 1024, 1025, 1026, 1500, 2000, 2048, 2049, 2050, 4096, 4097, 4098, 5001, 8193, 10002, 16385, 32769, 65538} {
		for k, es := range [][]Ent{
			{{"甲乙丙", 9, "a"}, {"丁子", 5, "b"}, {"乙", 2, "c"}, {"丙丁", 1, "d"}},
			{{"甲乙丙丁", 90, "a"}, {"子丑", 5, "b"}, {"丁子", 60, "c"}, {"go", 7, "d"}},
		} {
			var tl []string
			for pre := 0; pre < 5; pre++ {
				t := strings.Repeat("龙", pre) + strings.Repeat([]string{"甲乙丙丁子", "甲乙丙丁子丑go，"}[k], n/5+2)
				tl = append(tl, string([]rune(t)[:n]))
				if n > 5001 {
					break
				}
			}
			run(fmt.Sprint("very long ", n, k), es, tl, true, true, nil)
		}
	}
	// three symbol words of every overlap
	ov := allTexts([]string{"子", "丑"}, 2, 4)
	for i := range ov {
		for j := i + 1; j < len(ov); j++ {
			run(fmt.Sprintf("pairs %s %s", ov[i], ov[j]), []Ent{{ov[i], 7, "a"}, {ov[j], 7, "b"}, {"子", 2, "c"}}, allTexts([]string{"子", "丑"}, 1, 7), true, false, nil)
		}
	}
}

func univEnts(u []string, f float64) (r []Ent) {
	for _, w := range u {
		r = append(r, Ent{w, f, "t"})
	}
	return
}

func dagNoHMM(c *Ctx, dc *dagCase, rs []rune, text string) {
	_, _ = rs, text
	es := dc.g.edges(rs)
	opt, _ := optimal(es)
	got := dc.seg.Cut(text, false)
	c.Trans(2)
	if !matchNoHMM(rs, opt, got) {
		c.Failf("Cut(false) gives %s, no most probable route does", q(got))
		return
	}
	if g2 := dc.seg.CutDAGNoHMM(text); !eqStrs(g2, got) {
		c.Failf("CutDAGNoHMM gives %s and Cut(false) %s", q(g2), q(got))
	}
	routeOutcome(c, rs, got)
	c.State(strings.Join(got, "\x01"))
}

func routeOutcome(c *Ctx, rs []rune, got []string) {
	if len(got) < len(rs) {
		c.Outcome("words joined")
	} else {
		c.Outcome("single characters")
	}
}

func dagFull(c *Ctx, dc *dagCase, rs []rune, text string) {
	want := refFull(dc.g.edges(rs), rs)
	got := dc.seg.CutAll(text)
	c.Trans(1)
	if !eqStrs(got, want) {
		c.Failf("CutAll gives %s want %s", q(got), q(want))
	}
	routeOutcome(c, rs, got)
	c.State(strings.Join(got, "\x01"))
}

func dagSearch(c *Ctx, dc *dagCase, rs []rune, text string) {
	for _, h := range []bool{false, true} {
		if h && len(rs) > 600 && !dc.big {
			continue
		}
		base := dc.seg.Cut(text, h)
		want := refGrams(dc.d, base)
		got := dc.seg.CutSearch(text, h)
		c.Trans(2)
		if !eqStrs(got, want) {
			c.Failf("CutSearch(%v) gives %s want %s", h, q(got), q(want))
			return
		}
		if len(got) > len(base) {
			c.Outcome("parts listed")
		} else {
			c.Outcome("no parts")
		}
		c.State(strings.Join(got, "\x01"))
	}
}

var dagRegs = []struct{ skip, cut *regexp.Regexp }{
	{regexp.MustCompile(`[a-z]+`), nil},
	{regexp.MustCompile(`\d`), regexp.MustCompile(`[甲乙子]+`)},
	{regexp.MustCompile(`x*`), regexp.MustCompile(`丙?`)},
}

func dagHMM(c *Ctx, dc *dagCase, rs []rune, text string) {
	if len(rs) > 600 && !c.thorough && !dc.big {
		return
	}
	es := dc.g.edges(rs)
	opt, _ := optimal(es)
	got := dc.seg.Cut(text, true)
	c.Trans(2)
	okCut := func(buf string, g []string) bool { return hmmCutOK(dc.model, buf, g) }
	if !matchHMM(rs, opt, got, dc.g, okCut) {
		c.Failf("Cut(true) gives %s, no most probable route with an optimal HMM cut does", q(got))
		return
	}
	if g2 := dc.seg.CutDAG(text); !eqStrs(g2, got) {
		c.Failf("CutDAG gives %s and Cut(true) %s", q(g2), q(got))
	}
	if len(rs) <= 5 {
		for i, r := range dagRegs {
			if len(rs) > 3 && i == 0 {
				continue
			}
			args := []*regexp.Regexp{r.skip}
			if r.cut != nil {
				args = append(args, r.cut)
			}
			g3 := dc.seg.CutDAG(text, args...)
			c.Trans(1)
			if !matchHMM(rs, opt, g3, dc.g, func(buf string, g []string) bool {
				return hmmBlocksOK(dc.model, regBlocks(buf, r.skip, r.cut), g)
			}) {
				c.Failf("CutDAG with regexps %d gives %s", i, q(g3))
				return
			}
		}
	}
	routeOutcome(c, rs, got)
	c.State(strings.Join(got, "\x01"))
}

// ---- HMM models ----

const nCustom = 4

// hmmCustom installs one of the custom models and returns it; 3 is a model
// with few emissions.
func hmmCustom(i int) hmmModel {
	m := customModel(i)
	hmm.LoadModel(m['B'], m['E'], m['M'], m['S'])
	return m
}

func customModel(i int) hmmModel {
	m := hmmModel{'B': {}, 'E': {}, 'M': {}, 'S': {}}
	chars := []rune("甲乙丙丁子丑世界")
	for k, r := range chars {
		switch i {
		case 0:
			m['B'][r] = -1 - float64(k%3)*2.25
			m['E'][r] = -2 + float64(k%2)*1.5
			m['M'][r] = -4.5 - float64(k)
			m['S'][r] = -3 - float64((k*3)%5)
		case 1:
			m['S'][r] = -1 - float64(k)/4
			m['B'][r] = -6.5
			m['E'][r] = -6.25 - float64(k%3)
		case 2:
			m['M'][r] = -0.5
			if k%2 == 0 {
				m['B'][r] = -1.25
			} else {
				m['E'][r] = -1.75
			}
			m['S'][r] = -9
		case 3:
			if k%3 == 0 {
				m['B'][r] = -2.5
			} else if k%3 == 1 {
				m['S'][r] = -2
			}
		}
	}
	return m
}

// defaultModel is the model the package loads, from the registry of its
// variables; nil if it cannot be found.
func defaultModel() hmmModel {
	hmm.LoadModel()
	p, ok := rt.Lookup("github.com/go-ego/gse/hmm", "probEmit").(*map[byte]map[rune]float64)
	if !ok || p == nil {
		return nil
	}
	m := hmmModel{}
	for k, v := range *p {
		m[k] = map[rune]float64{}
		for r, x := range v {
			m[k][r] = x
		}
	}
	return m
}

// regBlocks splits a text for the HMM cutter with user regexps.
func regBlocks(s string, skip, cut *regexp.Regexp) (out []hmmBlock) {
	find := func(re *regexp.Regexp, s string) []int {
		l := re.FindStringIndex(s)
		if l == nil || l[0] == l[1] {
			return nil
		}
		return l
	}
	if cut == nil {
		cut = regexp.MustCompile(`\p{Han}+`)
	}
	if skip == nil {
		skip = regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
	}
	for len(s) > 0 {
		a, b := find(cut, s), find(skip, s)
		n := len(s)
		switch {
		case a != nil && a[0] == 0:
			out = append(out, hmmBlock{s[:a[1]], true})
			s = s[a[1]:]
			continue
		case b != nil && b[0] == 0:
			n = b[1]
		default:
			if a != nil {
				n = a[0]
			}
			if b != nil && b[0] < n {
				n = b[0]
			}
		}
		out = append(out, hmmBlock{s[:n], false})
		s = s[n:]
	}
	return
}
