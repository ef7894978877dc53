package main

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"vmc.local/rt"
)

// ---- H01: HMM cut ----

func init() {
	register(&checkDef{id: "H01",
		desc: "HMM cut: blocks and optimal state paths against an independent oracle, exhaustive over all emission tables of two and three characters at several levels, the default model over characters of its tables, user regexps including ones that match the empty text; Viterbi against the enumeration of all state paths; loading the default model restores it",
		run:  runH01})
}

func allPathsBest(m hmmModel, rs []rune) float64 {
	best := math.Inf(-1)
	product(4, len(rs), func(d []int) {
		p := make([]byte, len(d))
		for i, k := range d {
			p[i] = hmmStates[k]
		}
		if p[len(p)-1] != 'E' && p[len(p)-1] != 'S' {
			return
		}
		if v := hmmPathValue(m, rs, p); v > best {
			best = v
		}
	})
	return best
}

func runH01(c *Ctx) {
	var seg gse.Segmenter
	checkCut := func(m hmmModel, text string) {
		got := hmm.Cut(text)
		c.Trans(1)
		if !hmmCutOK(m, text, got) {
			c.Failf("Cut gives %s, not the blocks of the text cut by an optimal state path", q(got))
			return
		}
		if strings.Join(got, "") != text {
			c.Failf("Cut loses text: %s", q(got))
		}
		if g2 := seg.HMMCut(text); !eqStrs(g2, got) {
			c.Failf("HMMCut of the segmenter gives %s, Cut %s", q(g2), q(got))
		}
		c.State(strings.Join(got, "\x01"))
		if len(got) > 1 {
			c.Outcome("several words")
		} else {
			c.Outcome("one word")
		}
	}
	checkViterbi := func(m hmmModel, rs []rune, brute bool) {
		v, path := hmm.Viterbi(rs, []byte{'B', 'M', 'E', 'S'})
		c.Trans(1)
		best, _ := hmmBest(m, rs)
		if brute {
			if b2 := allPathsBest(m, rs); !near(b2, best, 1e-12) {
				panic("oracle: dynamic programme and enumeration differ")
			}
		}
		if len(path) != len(rs) {
			c.Failf("Viterbi path has %d states for %d characters", len(path), len(rs))
			return
		}
		val := hmmPathValue(m, rs, path)
		if !near(v, best, 1e-11) || !near(val, best, 1e-11) {
			c.Failf("Viterbi value %v of path %s (worth %v), the best path is worth %v", v, path, val, best)
		}
	}
	c.Unit("no characters", func() {
		c.Case(func() string { return "Viterbi of no characters" }, func() {
			for i := 0; i < 2; i++ {
				if _, path := hmm.Viterbi(nil, []byte{'B', 'M', 'E', 'S'}); len(path) != 0 {
					c.Failf("Viterbi of no characters gives %q", path)
				}
				if l := hmm.Cut(""); len(l) != 0 {
					c.Failf("the cut of the empty text gives %q", l)
				}
				c.Trans(2)
				hmm.LoadModel()
			}
		})
	})
	sweep := func(name string, chars []rune, levels []float64, maxLen int, split int) {
		// the first `split` digits name the unit
		nd := 4 * len(chars)
		ts := allTexts(strs(chars), 1, maxLen)
		product(len(levels)+1, split, func(hd []int) {
			head := append([]int(nil), hd...)
			c.Unit(fmt.Sprintf("%s %v", name, head), func() {
				product(len(levels)+1, nd-split, func(tl []int) {
					d := append(append([]int(nil), head...), tl...)
					m := hmmModel{'B': {}, 'E': {}, 'M': {}, 'S': {}}
					for i, k := range d {
						if k > 0 {
							m[hmmStates[i%4]][chars[i/4]] = levels[k-1]
						}
					}
					hmm.LoadModel(m['B'], m['E'], m['M'], m['S'])
					c.Case(func() string { return fmt.Sprintf("model %v, all texts of %q to length %d", d, string(chars), maxLen) }, func() {
						for _, t := range ts {
							checkCut(m, t)
							if len([]rune(t)) <= 4 {
								checkViterbi(m, []rune(t), len([]rune(t)) <= 3 && d[0] == 1)
							}
							if c.curBad {
								c.Failf("text %q", t)
								return
							}
						}
					})
				})
			})
		})
	}
	sweep("two", []rune("甲乙"), []float64{-1, -8.5}, 6, 3)
	sweep("three", []rune("甲乙丙"), []float64{-2.5}, 4, 4)
	sweep("one", []rune("甲"), []float64{0, -0.7, -3, -40, -3.14e100}, 6, 2)
	if c.thorough {
		sweep("two+", []rune("甲乙"), []float64{-1, -2, -8.5}, 5, 4)
		sweep("three+", []rune("甲乙丙"), []float64{-2.5}, 5, 5)
	}
	// blocks
	atoms := []string{"世", "界", "a", "Z", "1", "7", ".", " ", "，", "カ", "é", "\xff", "\n", "𠀀", "〇", "²", "々"}
	nb := 4
	if c.thorough {
		nb = 5
	}
	for i := 0; i < nCustom; i++ {
		for _, a := range append([]string{""}, atoms...) {
			i, a := i, a
			c.Unit(fmt.Sprintf("blocks model %d %q", i, a), func() {
				m := hmmCustom(i)
				if a == "" {
					c.Case(func() string { return "empty text" }, func() { checkCut(m, "") })
					return
				}
				texts(atoms, 0, nb-1, func(s string) {
					t := a + s
					c.Case(func() string { return fmt.Sprintf("custom model %d text %q", i, t) }, func() { checkCut(m, t) })
				})
			})
		}
	}
	// user regexps
	skips := []string{``, `x*`, `a?`, `[a-z]+`, `\d+`, `(\d+\.\d+|[a-zA-Z0-9]+)`, `^a`, `1$`, `世+`, `[^世]`}
	cuts := []string{``, `b*`, `世*`, `\p{Han}+`, `[世a]+`, `.`, `界$`, `^世`}
	for _, sk := range skips {
		for _, ct := range append([]string{"-"}, cuts...) {
			sk, ct := sk, ct
			c.Unit(fmt.Sprintf("regexps %q %q", sk, ct), func() {
				m := hmmCustom(0)
				rs := regexp.MustCompile(sk)
				args := []*regexp.Regexp{rs}
				var rc *regexp.Regexp
				if ct != "-" {
					rc = regexp.MustCompile(ct)
					args = append(args, rc)
				}
				texts([]string{"世", "界", "a", "b", "1", ".", " "}, 0, 4, func(t string) {
					c.Case(func() string { return fmt.Sprintf("regexps %q %q text %q", sk, ct, t) }, func() {
						got := hmm.Cut(t, args...)
						c.Trans(2)
						if !hmmBlocksOK(m, regBlocks(t, rs, rc), got) {
							c.Failf("Cut gives %s", q(got))
						}
						if g2 := seg.HMMCut(t, args...); !eqStrs(g2, got) {
							c.Failf("HMMCut gives %s, Cut %s", q(g2), q(got))
						}
					})
				})
			})
		}
	}
	// the default model
	chars := []string{"的", "一", "国", "人", "们", "在", "丕", "囖", "龘", "𠀀"}
	nd := 4
	if c.thorough {
		nd = 5
	}
	c.Unit("default model restored", func() {
		m := defaultModel()
		ts := allTexts(chars, 1, 3)
		var first []string
		for _, t := range ts {
			first = append(first, strings.Join(hmm.Cut(t), "|"))
		}
		for i := 0; i < nCustom; i++ {
			for _, how := range []string{"LoadModel()", "segmenter LoadModel()", "one map", "three maps", "Init"} {
				i, how := i, how
				c.Case(func() string { return fmt.Sprintf("custom model %d, then %s", i, how) }, func() {
					cm := hmmCustom(i)
					for _, t := range ts[:60] {
						checkCut(cm, t)
					}
					switch how {
					case "LoadModel()":
						hmm.LoadModel()
					case "segmenter LoadModel()":
						seg.LoadModel()
					case "one map":
						hmm.LoadModel(cm['B'])
					case "three maps":
						hmm.LoadModel(cm['B'], cm['E'], cm['M'])
					case "Init":
						var s gse.Segmenter
						s.Init()
					}
					for k, t := range ts {
						if got := strings.Join(hmm.Cut(t), "|"); got != first[k] {
							c.Failf("text %q is cut %q, before %q", t, got, first[k])
							return
						}
					}
					c.Trans(2 * len(ts))
					if m != nil {
						for _, t := range ts[:40] {
							checkCut(m, t)
						}
					}
				})
			}
		}
		// models with missing tables
		for mask := 0; mask < 16; mask++ {
			for _, how := range []string{"empty", "nil", "one entry"} {
				if how != "empty" && mask != 0 && mask != 7 && mask != 14 && !c.thorough {
					continue
				}
				mask, how := mask, how
				c.Case(func() string {
					return fmt.Sprintf("model with tables %04b, the others %s, then LoadModel()", mask, how)
				}, func() {
					cm := customModel(0)
					for k, st := range hmmStates {
						if mask>>k&1 == 0 {
							cm[st] = nil
							if how != "nil" {
								cm[st] = map[rune]float64{}
							}
							if how == "one entry" {
								cm[st]['甲'] = -1
							}
						}
					}
					hmm.LoadModel(cm['B'], cm['E'], cm['M'], cm['S'])
					for _, t := range ts[:20] {
						checkCut(cm, t)
					}
					for _, t := range []string{"甲乙", "甲乙丙", "丙丙甲乙"} {
						checkCut(cm, t)
					}
					hmm.LoadModel()
					for k, t := range ts {
						if k%7 == mask%7 {
							if got := strings.Join(hmm.Cut(t), "|"); got != first[k] {
								c.Failf("text %q is cut %q, before %q", t, got, first[k])
								return
							}
						}
					}
				})
			}
		}
		// a segmenter told not to load the model leaves the user's alone
		c.Case(func() string { return "NotLoadHMM keeps the user's model" }, func() {
			cm := hmmCustom(1)
			s := &gse.Segmenter{NotLoadHMM: true, SkipLog: true}
			s.LoadDictStr("世界 5 n\n")
			for _, t := range ts {
				checkCut(cm, t)
			}
			s2 := hmmModel(cm)
			got := s.HMMCutMod("甲乙丙", s2['B'], s2['E'], s2['M'], s2['S'])
			if !hmmCutOK(cm, "甲乙丙", got) {
				c.Failf("HMMCutMod gives %s", q(got))
			}
			cm = customModel(2)
			got = s.HMMCutMod("甲乙丙丁", cm['B'], cm['E'], cm['M'], cm['S'])
			if !hmmCutOK(cm, "甲乙丙丁", got) {
				c.Failf("HMMCutMod with another model gives %s", q(got))
			}
		})
	})
	for _, a := range chars {
		a := a
		c.Unit("default model "+a, func() {
			m := defaultModel()
			if m == nil {
				c.Outcome("default model table not found")
				return
			}
			texts(chars, 0, nd-1, func(s string) {
				c.Case(func() string { return "default model text " + a + s }, func() {
					checkCut(m, a+s)
					if len([]rune(s)) <= 2 {
						checkViterbi(m, []rune(a+s), true)
					}
				})
			})
		})
	}
	for _, p := range []string{"的", "一国", "人们在", "龘", "国a", "的，人 1.5"} {
		p := p
		c.Unit("default model long "+p, func() {
			m := defaultModel()
			if m == nil {
				return
			}
			for _, n := range pumpLens {
				if n > 520 && !c.thorough || n > 2100 {
					break
				}
				n := n
				c.Case(func() string { return fmt.Sprintf("default model %q repeated %d times", p, n) }, func() { checkCut(m, pump(p, n)) })
			}
		})
	}
	for i := 0; i < nCustom; i++ {
		for _, p := range []string{"甲", "丙", "甲乙丙", "乙丁", "丙a丁"} {
			i, p := i, p
			c.Unit(fmt.Sprintf("model %d long %s", i, p), func() {
				m := hmmCustom(i)
				for _, n := range pumpLens {
					if n > 2100 {
						break
					}
					n := n
					for _, fr := range []string{"", "甲乙", "丁甲"} {
						t := pump(p, n)
						if fr != "" {
							rs := []rune(fr)
							t = string(rs[0]) + t + string(rs[1])
						}
						c.Case(func() string { return fmt.Sprintf("model %d, %q repeated %d times within %q", i, p, n, fr) }, func() { checkCut(m, t) })
					}
				}
			})
		}
	}
	// every Han code point alone and in the middle, in blocks of the code space
	for lo := rune(0x2e80); lo < 0x30000; lo += 0x400 {
		lo := lo
		c.Unit(fmt.Sprintf("default model %U", lo), func() {
			m := defaultModel()
			if m == nil {
				return
			}
			for r := lo; r < lo+0x400; r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				t := "人" + string(r) + "的" + string(r)
				c.Case(func() string { return "default model text " + t }, func() { checkCut(m, t) })
			}
		})
	}
	_ = rt.Steps
}

func strs(rs []rune) (r []string) {
	for _, x := range rs {
		r = append(r, string(x))
	}
	return
}
