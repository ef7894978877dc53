package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
)

// ---- S02: word splitting ----

func init() {
	register(&checkDef{id: "S02",
		desc: "SplitTextToWords against the plain splitting rule: all sequences of representative atoms (every class of byte and rune) up to a length, every Unicode code point and every pair of bytes in context, periodic texts around size thresholds; all 8 option sets, lower-casing on and off",
		run:  runS02})
}

func runS02(c *Ctx) {
	cfgs := []struct {
		o   Opts
		low bool
	}{}
	for _, o := range allOpts {
		for _, l := range []bool{true, false} {
			cfgs = append(cfgs, struct {
				o   Opts
				low bool
			}{o, l})
		}
	}
	segs := make([]*gse.Segmenter, len(cfgs))
	for i := range cfgs {
		segs[i] = &gse.Segmenter{AlphaNum: cfgs[i].o.AlphaNum, Alpha: cfgs[i].o.Alpha, Num: cfgs[i].o.Num}
	}
	one := func(s string, which []int) {
		c.Case(func() string { return "text " + q(s) }, func() {
			for _, i := range which {
				gse.ToLower = cfgs[i].low
				in := roomy(s)
				got := segs[i].SplitTextToWords(in)
				gse.ToLower = true
				want := refWords(s, cfgs[i].o, cfgs[i].low)
				c.Trans(1)
				if len(got) != len(want) {
					c.Failf("options %v lower=%v: got %s want %s", cfgs[i].o, cfgs[i].low, q(got), q(want))
					return
				}
				for k := range got {
					if string(got[k]) != want[k] {
						c.Failf("options %v lower=%v: word %d: got %s want %s", cfgs[i].o, cfgs[i].low, k, q(got), q(want))
						return
					}
				}
				if !roomyIs(in, s) {
					c.Failf("the input bytes were changed to %s", q(in))
				}
				if i == 0 {
					w2 := gse.SplitWords(in)
					if len(w2) != len(want) {
						c.Failf("SplitWords differs")
					}
				}
				c.State(fmt.Sprint(i), strings.Join(want, "|"))
			}
		})
	}
	all := make([]int, len(cfgs))
	for i := range all {
		all[i] = i
	}
	defs := []int{0, 2, 4, 8} // default, AlphaNum, Alpha, Num
	n := 3
	core := 4
	if c.thorough {
		core = 5
	}
	for _, a := range append([]string{""}, richAtoms...) {
		a := a
		c.Unit("start "+q(a), func() {
			if a == "" {
				one("", all)
				return
			}
			texts(richAtoms, 0, n-1, func(s string) { one(a+s, all) })
		})
	}
	for _, a := range coreAtoms {
		for _, b := range coreAtoms {
			p := a + b
			c.Unit("core "+q(p), func() {
				texts(coreAtoms, 2, core-2+1, func(s string) { one(p+s, all) })
			})
		}
	}
	// every code point
	const chunk = 1 << 13
	for lo := rune(0); lo <= unicode.MaxRune; lo += chunk {
		lo := lo
		c.Unit(fmt.Sprintf("code points %U", lo), func() {
			for r := lo; r < lo+chunk && r <= unicode.MaxRune; r++ {
				if r >= 0xD800 && r < 0xE000 {
					continue
				}
				s := string(r)
				w := defs
				if r < 0x3000 {
					w = all
				}
				one("aB"+s+"9", w)
				if r < 0x3000 || c.thorough {
					one(s, w)
					one(s+s+" "+s, w)
				}
			}
		})
	}
	for x := 0; x < 256; x++ {
		x := x
		c.Unit(fmt.Sprintf("bytes %02x", x), func() {
			for y := 0; y < 256; y++ {
				one(string([]byte{byte(x), byte(y)}), all)
				one("a"+string([]byte{byte(x), byte(y)})+"A", defs)
			}
		})
	}
	pats := []string{"a", "Z9", "世", "aB世", "é", "，", "カa", "a ", "😀x", "\xff", "\xffa", "\x00", "世 a1", "٣b"}
	for _, p := range pats {
		p := p
		c.Unit("pump "+q(p), func() {
			for _, k := range pumpLens {
				if len(p)*k > 16000 {
					break
				}
				one(pump(p, k), all)
				one("x"+pump(p, k)+"Y", defs)
				one("，"+pump(p, k)+"。", defs)
			}
		})
	}
}

// ---- S01 S03 S04: the space of (options, dictionary, text) ----

type segFamily struct {
	name  string
	opts  []Opts
	dicts func(f func(ents []Ent))
	texts []string
}

// segFamilies enumerates dictionaries and texts. zero adds entries of
// frequency zero (used where no path cost is involved).
// small keeps the texts shorter, for checks that do much per text.
func segFamilies(thorough, small bool) []segFamily {
	cut := func(n int) int {
		if small && !thorough {
			return n - 1
		}
		return n
	}
	var fs []segFamily
	none := []Opts{{}}
	// A: all frequency assignments over small word universes, one-rune words
	univ := func(name string, words []string, levels []float64, ts []string, opts []Opts) segFamily {
		return segFamily{name, opts, func(f func([]Ent)) {
			product(len(levels)+1, len(words), func(d []int) {
				var es []Ent
				for i, k := range d {
					if k > 0 {
						es = append(es, Ent{words[i], levels[k-1], fmt.Sprintf("t%d", i)})
					}
				}
				f(es)
			})
		}, ts}
	}
	lv := []float64{3, 1000}
	t6 := allTexts([]string{"甲", "乙", "丙", "丁"}, 1, cut(5))
	if thorough {
		t6 = allTexts([]string{"甲", "乙", "丙", "丁"}, 1, 6)
	}
	fs = append(fs, univ("han", []string{"甲", "甲乙", "乙丙", "甲乙丙", "丙甲", "乙"}, lv, t6, none))
	fs = append(fs, univ("overlap", []string{"甲甲", "甲甲甲", "乙甲", "甲乙甲", "甲甲乙", "乙"}, lv, allTexts([]string{"甲", "乙"}, 1, cut(8)), none))
	fs = append(fs, univ("long", []string{"甲乙丙丁", "甲乙丙丁甲", "丙丁甲乙", "乙丙丁甲乙丙", "甲乙", "丙丁"}, lv, periodic([]string{"甲", "乙", "丙", "丁"}, 2, 14), none))
	mixed := []string{"go", " ", "世", "カ", ".", "GO", "é1"}
	tm := allTexts(mixed, 1, cut(4))
	if thorough {
		tm = allTexts(mixed, 1, 5)
	}
	fs = append(fs, univ("mixed", []string{"go", "go世", "カ世", "go go", "世.", "カ", "é1"}, []float64{5, 400}, tm, []Opts{{}}))
	fs = append(fs, univ("mixedopts", []string{"go", "g", "o世", "go go", "世カ"}, []float64{5, 400}, allTexts([]string{"g", "o", "世", "カ", "G", " "}, 1, cut(4)), []Opts{{AlphaNum: true}, {Alpha: true}, {Num: true}, {AlphaNum: true, Num: true}}))
	fs = append(fs, univ("digits", []string{"12", "1", "1世", "2 1", "世1"}, []float64{5, 400}, allTexts([]string{"1", "2", "世", " ", "²"}, 1, 4), []Opts{{}, {Num: true}, {AlphaNum: true}}))
	// frequencies over many magnitudes, ties, single entries
	fs = append(fs, univ("levels", []string{"甲", "甲乙", "乙", "甲乙丙"}, []float64{1, 2, 16, 1 << 20, 1e9}, allTexts([]string{"甲", "乙", "丙"}, 1, 5), none))
	fs = append(fs, univ("fractions", []string{"甲", "甲乙", "乙", "乙丙", "丙", "甲乙丙"}, []float64{0.5, 1.4, 2, 2.9}, allTexts([]string{"甲", "乙", "丙"}, 1, 3), none))
	fs = append(fs, univ("close", []string{"甲乙", "乙丙", "丙丁", "甲乙丙", "丁"}, []float64{100, 100.4, 100.9, 101}, allTexts([]string{"甲", "乙", "丙", "丁"}, 3, 4), none))
	fs = append(fs, univ("bytes", []string{"\xff", "\xff世", "世\xe4\xb8", "😀", "é"}, []float64{2, 77}, allTexts([]string{"\xff", "世", "\xe4\xb8", "😀", "é", "x"}, 1, cut(4)), none))
	// unknown words against the price of 32: exactly at, below and above it
	fs = append(fs, segFamily{"price", none, func(f func([]Ent)) {
		for _, p := range []float64{30, 31, 32, 33, 34, 62, 64, 66, 95, 96, 97, 127, 129} {
			f([]Ent{{"丁丁丁", math.Pow(2, p), "big"}, {"甲乙", 1, "a"}, {"乙丙", 1, "b"}, {"甲乙丙", 1, "c"}, {"丙", 1, "d"}})
			f([]Ent{{"丁丁丁", math.Pow(2, p), "big"}, {"甲", 1, "a"}, {"甲乙丙", 1, "c"}})
		}
	}, allTexts([]string{"甲", "乙", "丙", "戊"}, 1, 5)})
	// fixed rich dictionaries, rich texts, periodic long texts
	rich := []Ent{
		{"世", 50, "n"}, {"世界", 90, "n"}, {"カー", 30, "jp"}, {"の", 20, "p"}, {"한국", 15, "kr"}, {"go", 12, "en"}, {"go lang", 9, "en"},
		{"c++", 7, "en"}, {"😀", 3, "emo"}, {"a世", 4, "m"}, {"，", 60, "w"}, {"１", 2, "m"}, {"new york city", 22, "ns"}, {"世界の世界", 2, "x1"},
		{"п", 5, "ru"}, {"是", 8, "v"}, {"世界カー世界", 11, "l"}, {"no 1", 6, "o"}, {"カ", 2, "k"}, {"界", 2, "q"}, {"²", 3, "sup"},
	}
	richTexts := allTexts([]string{"世", "界", "カ", "ー", "の", "go", " ", "lang", "c", "+", "，", "1", "no", "new", "york", "city", "GO", "й", "п", "é", "😀", "\xff", "²", "１"}, 1, cut(3))
	fs = append(fs, segFamily{"rich", allOpts, func(f func([]Ent)) { f(nil); f(rich[:1]); f(rich); f(rich[5:]) }, richTexts})
	var long []string
	for _, p := range []string{"世", "世界", "甲世", "go ", "a世", "カー", "new york city ", "世界の", "😀，", "x\xff", "aB", "世界カー世界"} {
		for _, n := range pumpLens {
			if n*len([]rune(p)) <= 2100 || thorough && n*len([]rune(p)) <= 5200 {
				long = append(long, pump(p, n))
				if n > 3 && n < 300 {
					long = append(long, "甲"+pump(p, n)+"是", "界"+pump(p, n))
				}
			}
		}
	}
	fs = append(fs, segFamily{"pump", []Opts{{}, {AlphaNum: true}}, func(f func([]Ent)) { f(nil); f(rich) }, long})
	// texts beyond sixteen bits of bytes and of words
	if !small {
		fs = append(fs, segFamily{"huge", none, func(f func([]Ent)) { f(rich) }, []string{pump("世界", 11000), pump("go 世", 20000), pump("new york city ", 5000), pump("x", 66000), pump("，", 66000)}})
	}
	// parts that begin or end with kana
	fs = append(fs, univ("kana", []string{"カ甲", "甲カ", "乙丙", "カ甲乙丙", "甲カ乙丙", "乙丙カ甲", "カ"}, []float64{5, 400}, allTexts([]string{"カ", "甲", "乙", "丙"}, 1, 4), none))
	// words of four words, some of their joins words as well; each Han, kana or mixed
	leafs := [][]string{{"甲乙", "カナ", "カ乙", "甲ナ", "go甲"}, {"丙丁", "キニ", "キ丁", "丙ニ", "go"}, {"戊己", "クヌ", "ク己", "戊ヌ", "7"}, {"庚辛", "ケネ", "ケ辛", "庚ネ", "ネ"}}
	treeTexts := func(d []int) (r []string) {
		l := ""
		for i, k := range d {
			l += leafs[i][k]
		}
		return []string{l, l + "甲", "カ" + l}
	}
	for k0 := range leafs[0] {
		k0 := k0
		product(len(leafs[1]), 3, func(d []int) {
			dd := []int{k0, d[0], d[1], d[2]}
			ts := treeTexts(dd)
			fs = append(fs, segFamily{fmt.Sprint("tree ", dd), none, func(f func([]Ent)) {
				w := func(i, j int) (r string) {
					for k := i; k < j; k++ {
						r += leafs[k][dd[k]]
					}
					return
				}
				for m := 0; m < 32; m++ {
					var es []Ent
					for i := 0; i < 4; i++ {
						es = append(es, Ent{w(i, i+1), 9, fmt.Sprint("l", i)})
					}
					for i, ij := range [][2]int{{0, 2}, {2, 4}, {1, 3}, {0, 3}, {1, 4}} {
						if m&(1<<i) != 0 {
							es = append(es, Ent{w(ij[0], ij[1]), 3 + float64(i), fmt.Sprint("j", i)})
						}
					}
					f(append(es, Ent{w(0, 4), 3, "w"}))
				}
			}, ts})
		})
	}
	// chains of words, each a part of the next: many words at one place, deep nesting
	fs = append(fs, segFamily{"nest", none, func(f func([]Ent)) {
		for _, n := range []int{3, 6, 9, 17, 33, 40, 70} {
			for step := 1; step <= 3; step++ {
				for _, fr := range []float64{7, 1000} {
					var pre, suf, both []Ent
					w := []rune(nestText[:n*step*3])
					for k := step; k <= len(w); k += step {
						pre = append(pre, Ent{string(w[:k]), fr + float64(k%3), fmt.Sprint("p", k%5)})
						suf = append(suf, Ent{string(w[len(w)-k:]), fr + float64(k%3), fmt.Sprint("s", k%5)})
					}
					for k := step; 2*k <= len(w); k += step {
						both = append(both, Ent{string(w[k : len(w)-k+1]), fr, fmt.Sprint("b", k%5)})
					}
					f(pre)
					f(suf)
					f(both)
				}
			}
		}
	}, func() (r []string) {
		w := []rune(nestText)
		for _, n := range []int{1, 2, 3, 5, 6, 8, 9, 12, 15, 16, 17, 18, 24, 30, 32, 33, 34, 40, 51, 64, 70, 99, 120, 140, 210} {
			r = append(r, string(w[:n]), string(w[:n])+"龙"+string(w[:n/2]))
			for _, m := range []int{9, 17, 33, 40, 70, 140, 210} {
				if n < m {
					r = append(r, string(w[m-n:m]), string(w[m-n:m])+string(w[:n]), string(w[n:m]))
				}
			}
		}
		return
	}()})
	// dictionaries of many entries, long entries
	fs = append(fs, segFamily{"big", none, func(f func([]Ent)) {
		for _, n := range []int{100, 127, 128, 255, 256, 257, 300, 1000, 1024, 3000} {
			var es []Ent
			for i := 0; i < n; i++ {
				es = append(es, Ent{bigWord(i), float64(2 + i%97), fmt.Sprintf("b%d", i%7)})
			}
			f(es)
		}
		for _, n := range []int{5, 8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257, 400} {
			if small && n > 17 {
				break // the parts of parts are more than can be listed
			}
			f([]Ent{{pump("甲", n), 50, "long"}, {pump("乙丙", n), 9, "long2"}, {"甲甲", 5, "s"}, {"丙乙", 40, "s2"}, {"乙", 3, "s3"}})
		}
	}, func() []string {
		var r []string
		for i := 0; i < 3000; i += 7 {
			r = append(r, bigWord(i)+bigWord(i*3+1)+"甲"+bigWord(i/2))
		}
		for _, n := range pumpLens {
			if n <= 520 {
				r = append(r, pump("甲", n), pump("乙丙", n), "乙"+pump("甲", n)+"丙乙", pump("甲", n)+pump("乙丙", n/2))
			}
		}
		return r
	}()})
	return fs
}

// nestText is a text of distinct characters.
var nestText = func() string {
	var r []rune
	for i := 0; i < 240; i++ {
		r = append(r, rune(0x5000+i*7))
	}
	return string(r)
}()

// bigWord enumerates distinct words over a wide alphabet.
func bigWord(i int) string {
	a := rune(0x4e00 + i*37%911)
	b := rune(0x5200 + i*101%1723)
	switch i % 5 {
	case 0:
		return string([]rune{a, b})
	case 1:
		return string([]rune{b, a, b + 1})
	case 2:
		return fmt.Sprintf("w%d", i)
	case 3:
		return string([]rune{a, 'x', b})
	}
	return string([]rune{a, b, a + 3, b + 5})
}

// periodic lists texts made of a short pattern repeated to each length.
func periodic(atoms []string, lo, hi int) (r []string) {
	seen := map[string]bool{}
	for p := 1; p <= 4; p++ {
		sequences(atoms, p, p, func(parts []string) {
			for n := lo; n <= hi; n++ {
				s := ""
				for i := 0; i < n; i++ {
					s += parts[i%p]
				}
				if !seen[s] {
					seen[s] = true
					r = append(r, s)
				}
			}
		})
	}
	return
}

// segSpace runs f on every (family, options, dictionary); the texts of the
// family are iterated by f. Small dictionaries are also built along other
// histories (how), for some of the texts.
func segSpace(c *Ctx, small bool, f func(o Opts, ents []Ent, texts []string, how int)) {
	for _, fam := range segFamilies(c.thorough, small) {
		for _, o := range fam.opts {
			i := 0
			fam.dicts(func(ents []Ent) {
				i++
				name := fmt.Sprintf("%s %v #%d", fam.name, o, i)
				es := ents
				c.Unit(name, func() {
					f(o, es, fam.texts, 0)
					if len(es) > 12 || fam.name == "pump" || fam.name == "big" || fam.name == "nest" {
						return
					}
					ts := shortTexts(fam.texts, 60)
					for how := 1; how < nHow; how++ {
						f(o, es, ts, how)
					}
				})
			})
		}
	}
}

func entsStr(ents []Ent) string {
	if len(ents) > 24 {
		return fmt.Sprintf("%d entries", len(ents))
	}
	return fmt.Sprint(ents)
}

func init() {
	register(&checkDef{id: "S01",
		desc: "segments of every text tile it: consecutive offsets from 0 to the length, each token's text is the bytes of its range (Latin words in lower case); all dictionaries of small universes with frequencies 0, small and large, all texts over representative atoms, all options, periodic texts over size thresholds, dictionaries not yet recalculated",
		run:  runS01})
	register(&checkDef{id: "S03",
		desc: "the path of every segmentation costs no more than any other (independent dynamic programme over all tokens), dictionary tokens carry frequency and tag of their entry, unknown words have frequency 1 and tag x",
		run:  runS03})
	register(&checkDef{id: "S04",
		desc: "search listing: sub-segments of every token are its least cost division into shorter words; Slice, String, Pos and Cut/CutSearch list the same words, each whole word after its listed parts",
		run:  runS04})
}

// checkTiles verifies the offsets; returns the tokens' texts.
func checkTiles(c *Ctx, what, text string, words []string, segs []gse.Segment) bool {
	at := 0
	w := 0
	for i := range segs {
		s := &segs[i]
		t := s.Token()
		if t == nil {
			c.Failf("%s: segment %d has no token", what, i)
			return false
		}
		if s.Start() != at || s.End() <= s.Start() || s.End() > len(text) {
			c.Failf("%s: segment %d is [%d,%d), the one before ends at %d, the text has %d bytes", what, i, s.Start(), s.End(), at, len(text))
			return false
		}
		// the token must be whole words
		want := ""
		n := 0
		for w < len(words) && n < s.End()-s.Start() {
			want += words[w]
			n += len(words[w])
			w++
		}
		if n != s.End()-s.Start() || t.Text() != want {
			c.Failf("%s: segment %d [%d,%d) has text %q, the text there is %q", what, i, s.Start(), s.End(), t.Text(), want)
			return false
		}
		if !t.Equals(want) {
			c.Failf("%s: token %q does not equal its text", what, want)
			return false
		}
		at = s.End()
	}
	if at != len(text) {
		c.Failf("%s: the segments end at %d of %d bytes", what, at, len(text))
		return false
	}
	return true
}

func runS01(c *Ctx) {
	how := 0
	one := func(seg *gse.Segmenter, o Opts, ents []Ent, text string, low bool) {
		c.Case(func() string {
			return fmt.Sprintf("options %v dictionary %s (history %d) text %s lower=%v", o, entsStr(ents), how, q(text), low)
		}, func() {
			gse.ToLower = low
			defer func() { gse.ToLower = true }()
			words := refWords(text, o, low)
			in := roomy(text)
			segs := seg.Segment(in)
			c.Trans(2)
			if text == "" {
				if len(segs) != 0 {
					c.Failf("segments of the empty text")
				}
				return
			}
			if !checkTiles(c, "Segment", text, words, segs) {
				return
			}
			s2 := seg.ModeSegment(in, true)
			if !checkTiles(c, "ModeSegment(search)", text, words, s2) {
				return
			}
			if !roomyIs(in, text) {
				c.Failf("the text was changed, or what lies behind it")
			}
			var sb strings.Builder
			for i := range segs {
				sb.WriteString(segs[i].Token().Text())
				sb.WriteByte(1)
			}
			c.State(sb.String())
			if len(segs) > 1 {
				c.Outcome("several segments")
			} else {
				c.Outcome("one segment")
			}
		})
	}
	segSpace(c, false, func(o Opts, ents []Ent, ts []string, h int) {
		how = h
		defer func() { how = 0 }()
		seg := buildHow(o, ents, h)
		for _, t := range ts {
			one(seg, o, ents, t, true)
		}
	})
	// frequencies of zero, tiny and huge; tokens added and not yet recalculated
	univ := []string{"甲", "甲乙", "乙丙", "go", "go甲"}
	freqs := []float64{0, 1e-300, 1, 1e18}
	ts := allTexts([]string{"甲", "乙", "丙", "go", " "}, 1, 4)
	product(len(freqs)+1, len(univ), func(d []int) {
		dd := append([]int(nil), d...)
		c.Unit(fmt.Sprint("freqs ", dd), func() {
			var es []Ent
			for i, k := range dd {
				if k > 0 {
					es = append(es, Ent{univ[i], freqs[k-1], "t"})
				}
			}
			seg := buildSeg(Opts{}, es)
			for _, t := range ts {
				one(seg, Opts{}, es, t, true)
			}
			// last entry not recalculated, then one removed without recalculation
			for i := range es {
				seg := newSeg(Opts{})
				for j := range es {
					if j != i {
						seg.AddToken(es[j].Text, es[j].Freq, es[j].Pos)
					}
				}
				seg.CalcToken()
				seg.AddToken(es[i].Text, es[i].Freq, es[i].Pos)
				for k := 0; k < len(ts); k += 3 {
					one(seg, Opts{}, es, ts[k], true)
				}
				seg.RemoveToken(es[i].Text)
				for k := 1; k < len(ts); k += 3 {
					one(seg, Opts{}, es, ts[k], true)
				}
			}
		})
	})
	// representative atoms, all options, lower casing on and off
	rich := []Ent{{"世", 5, "n"}, {"a世", 3, "m"}, {"a", 2, "l"}, {"カー", 9, "k"}, {"😀 ", 4, "e"}, {"z0", 8, "zz"}, {"， ", 2, "w"}, {"é", 6, "f"}, {"\xff", 3, "b"}, {"世\u0301", 4, "c"}}
	for _, o := range allOpts {
		for _, low := range []bool{true, false} {
			o, low := o, low
			for _, a := range richAtoms {
				a := a
				c.Unit(fmt.Sprintf("atoms %v %v %q", o, low, a), func() {
					gse.ToLower = low
					seg := buildSeg(o, rich)
					gse.ToLower = true
					n := 2
					texts(richAtoms, 0, n, func(s string) {
						if o == (Opts{}) || len(s) < 9 || c.thorough {
							one(seg, o, rich, a+s, low)
						}
					})
				})
			}
		}
	}
	c.Unit("empty text", func() { one(buildSeg(Opts{}, rich), Opts{}, rich, "", true) })
}

// pathCost verifies tokens against the dictionary and sums their costs.
func pathCost(c *Ctx, what string, p *refPaths, words []string, segs []gse.Segment) (float64, bool) {
	w := 0
	cost := 0.0
	for i := range segs {
		t := segs[i].Token()
		text := t.Text()
		n := 0
		w0 := w
		for w < len(words) && n < len(text) {
			n += len(words[w])
			w++
		}
		if n != len(text) || strings.Join(words[w0:w], "") != text {
			c.Failf("%s: token %q does not match the words %q", what, text, words[w0:w])
			return 0, false
		}
		e, ok := p.d.m[text]
		if ok {
			cost += p.cost[text]
			if t.Freq() != e.Freq || t.Pos() != e.Pos {
				c.Failf("%s: token %q has frequency %v and tag %q, its entry %v and %q", what, text, t.Freq(), t.Pos(), e.Freq, e.Pos)
				return 0, false
			}
			continue
		}
		if w-w0 != 1 {
			c.Failf("%s: token %q of several words is not in the dictionary", what, text)
			return 0, false
		}
		if t.Freq() != 1 || t.Pos() != "x" {
			c.Failf("%s: unknown word %q has frequency %v and tag %q", what, text, t.Freq(), t.Pos())
			return 0, false
		}
		if len(t.Segments()) != 0 {
			c.Failf("%s: unknown word %q has sub-segments", what, text)
			return 0, false
		}
		cost += pseudoDistance
	}
	return cost, true
}

func runS03(c *Ctx) {
	segSpace(c, false, func(o Opts, ents []Ent, ts []string, how int) {
		seg := buildHow(o, ents, how)
		d := refDictOf(o, ents, true)
		p := newRefPaths(d)
		for _, text := range ts {
			text := text
			c.Case(func() string {
				return fmt.Sprintf("options %v dictionary %s (history %d) text %s", o, entsStr(ents), how, q(text))
			}, func() {
				words := refWords(text, o, true)
				segs := seg.Segment([]byte(text))
				c.Trans(1)
				cost, ok := pathCost(c, "Segment", p, words, segs)
				if !ok {
					return
				}
				best := p.best(words, false)
				if cost > best+tolPath(best, len(words)) {
					var got []string
					for i := range segs {
						got = append(got, segs[i].Token().Text())
					}
					c.Failf("segments %s cost %v, the least cost is %v", q(got), cost, best)
				}
				c.State(fmt.Sprintf("%.6g %d", best, len(segs)), text[:minI(len(text), 40)])
				if len(segs) < len(words) {
					c.Outcome("words joined")
				} else {
					c.Outcome("no word joined")
				}
			})
		}
	})
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func isKana(s string) bool {
	for _, r := range s {
		if unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r) {
			return true
		}
	}
	return false
}

// refList lists a token for search: its parts from the first one on that has
// parts of its own (or, for words of kana, from the first one on), each listed the
// same way, then the token.
func refList(t *gse.Token, words func(string) []string) (texts, poss []string) {
	on := false
	for _, s := range t.Segments() {
		st := s.Token()
		first := words(st.Text())
		if len(st.Segments()) > 1 || len(first) > 0 && isKana(first[0]) {
			on = true
		}
		if on {
			a, b := refList(st, words)
			texts = append(texts, a...)
			poss = append(poss, b...)
		}
	}
	return append(texts, t.Text()), append(poss, t.Pos())
}

func runS04(c *Ctx) {
	segSpace(c, true, func(o Opts, ents []Ent, ts []string, how int) {
		seg := buildHow(o, ents, how)
		d := refDictOf(o, ents, true)
		p := newRefPaths(d)
		words := func(s string) []string { return refWords(s, o, true) }
		// the division of every dictionary token
		for i := range seg.Dict.Tokens {
			t := &seg.Dict.Tokens[i]
			if e, ok := d.m[t.Text()]; !ok || e.Freq != t.Freq() || e.Pos != t.Pos() {
				if how < 3 {
					c.Case(func() string { return fmt.Sprintf("dictionary %s (history %d)", entsStr(ents), how) }, func() {
						c.Failf("token %q is no entry", t.Text())
					})
				}
				continue // removed or replaced
			}
			c.Case(func() string {
				return fmt.Sprintf("options %v dictionary %s (history %d) token %q", o, entsStr(ents), how, t.Text())
			}, func() {
				ws := words(t.Text())
				c.Trans(1)
				if len(ws) == 1 {
					if len(t.Segments()) != 0 {
						c.Failf("a single word has sub-segments")
					}
					return
				}
				// rebuild the full division: single kana words are left out
				cost := 0.0
				w, at := 0, 0
				k := 0
				subs := t.Segments()
				for w < len(ws) {
					if k < len(subs) && subs[k].Start() == at {
						st := subs[k].Token()
						text := st.Text()
						n := 0
						w0 := w
						for w < len(ws) && n < len(text) {
							n += len(ws[w])
							w++
						}
						if n != len(text) || strings.Join(ws[w0:w], "") != text || subs[k].End() != at+n {
							c.Failf("sub-segment %q [%d,%d) does not match the words at %d", text, subs[k].Start(), subs[k].End(), at)
							return
						}
						if w-w0 == len(ws) {
							c.Failf("the token is a sub-segment of itself")
							return
						}
						e, ok := d.m[text]
						switch {
						case ok && (st.Pos() != e.Pos || st.Freq() != e.Freq):
							c.Failf("sub-segment %q has tag %q", text, st.Pos())
							return
						case ok:
							cost += p.cost[text]
						case w-w0 == 1 && st.Pos() == "x" && st.Freq() == 1:
							cost += pseudoDistance
						default:
							c.Failf("sub-segment %q is not a word", text)
							return
						}
						if w-w0 == 1 && isKana(ws[w0]) {
							c.Failf("the kana %q is listed", text)
							return
						}
						at += n
						k++
						continue
					}
					// a word that is not listed must be a single kana word
					if !isKana(ws[w]) {
						c.Failf("the word %q at %d is missing in the sub-segments", ws[w], at)
						return
					}
					if e, ok := d.m[ws[w]]; ok {
						_ = e
						cost += p.cost[ws[w]]
					} else {
						cost += pseudoDistance
					}
					at += len(ws[w])
					w++
				}
				if k != len(subs) {
					c.Failf("%d sub-segments, only %d fit", len(subs), k)
					return
				}
				best := p.best(ws, true)
				if cost > best+tolPath(best, len(ws)) {
					c.Failf("the sub-segments cost %v, the least cost is %v", cost, best)
				}
				c.Outcome("token division")
			})
		}
		noPos := *seg
		noPos.SkipPos = true
		for _, text := range ts {
			text := text
			c.Case(func() string {
				return fmt.Sprintf("options %v dictionary %s (history %d) text %s", o, entsStr(ents), how, q(text))
			}, func() {
				segs := seg.Segment([]byte(text))
				var plain, plainPos, full, fullPos []string
				for i := range segs {
					t := segs[i].Token()
					plain = append(plain, t.Text())
					plainPos = append(plainPos, t.Pos())
					a, b := refList(t, words)
					full = append(full, a...)
					fullPos = append(fullPos, b...)
				}
				str := func(a, b []string) string {
					var sb strings.Builder
					for i := range a {
						sb.WriteString(a[i] + "/" + b[i] + " ")
					}
					return sb.String()
				}
				cmp := func(what string, got, want []string) {
					if !eqStrs(got, want) {
						c.Failf("%s: got %s want %s", what, q(got), q(want))
					}
				}
				c.Trans(10)
				cmp("Slice", seg.Slice(text), plain)
				cmp("Slice(false)", seg.Slice(text, false), plain)
				cmp("Cut", seg.Cut(text), plain)
				cmp("Slice(search)", seg.Slice(text, true), full)
				cmp("CutSearch", seg.CutSearch(text), full)
				if got, want := seg.String(text), str(plain, plainPos); got != want {
					c.Failf("String: got %q want %q", got, want)
				}
				if got, want := seg.String(text, true), str(full, fullPos); got != want {
					c.Failf("String(search): got %q want %q", got, want)
				}
				pos := func(what string, got []gse.SegPos, a, b []string) {
					var g1, g2 []string
					for _, x := range got {
						g1 = append(g1, x.Text)
						g2 = append(g2, x.Pos)
					}
					cmp(what+" texts", g1, a)
					cmp(what+" tags", g2, b)
				}
				pos("Pos", seg.Pos(text), plain, plainPos)
				pos("Pos(search)", seg.Pos(text, true), full, fullPos)
				cmp("ToSlice of ModeSegment", gse.ToSlice(seg.ModeSegment([]byte(text), true), true), full)
				// joining helpers
				if got := seg.CutStr(plain, "|"); got != strings.Join(plain, "|") {
					c.Failf("CutStr: got %q", got)
				}
				if got := seg.CutStr(plain); got != strings.Join(plain, " ") {
					c.Failf("CutStr: got %q", got)
				}
				var ps []string
				for i := range plain {
					ps = append(ps, plain[i]+"/"+plainPos[i])
				}
				if got := seg.PosStr(seg.Pos(text)); got != strings.Join(ps, " ") {
					c.Failf("PosStr: got %q want %q", got, strings.Join(ps, " "))
				}
				if got := noPos.PosStr(noPos.Pos(text), "-"); got != strings.Join(plain, "-") {
					c.Failf("PosStr with SkipPos: got %q", got)
				}
				if len(full) > len(plain) {
					c.Outcome("parts listed")
				}
				c.State(strings.Join(full, "\x01"))
			})
		}
	})
	_ = utf8.RuneError
}
