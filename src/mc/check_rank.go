package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/segment"
	"vmc.local/rt"
)

func init() {
	register(&checkDef{id: "K02",
		desc: "TF-IDF tags of every text over a set of pieces, for every small IDF dictionary through every way of loading it, every number of tags and every explored order of map iteration, against counts times weights; IDF lookups, median, stop words",
		run:  runK02})
	register(&checkDef{id: "K03",
		desc: "TextRank of every text over a set of tagged pieces against an independent ranking of the co-occurrence graph, for every number of keywords and every set of tags; the same result under every explored order of map iteration",
		run:  runK03})
}

type rankCase struct {
	words map[string]float64
}

// sameRank compares a full result with the expected weights.
func sameRank(c *Ctx, what string, got segment.Segments, want map[string]float64, tol float64) {
	if len(got) != len(want) {
		c.Failf("%s: %d words, want %d: %v, %v", what, len(got), len(want), got, want)
		return
	}
	seen := map[string]bool{}
	for i, g := range got {
		w, ok := want[g.Text]
		if !ok || seen[g.Text] {
			c.Failf("%s: word %q not expected: %v want %v", what, g.Text, got, want)
			return
		}
		seen[g.Text] = true
		if g.GetText() != g.Text || !(g.GetWeight() == g.Weight || g.Weight != g.Weight) {
			c.Failf("%s: GetText gives %q, GetWeight %v of %v", what, g.GetText(), g.GetWeight(), g)
			return
		}
		if !(near(g.Weight, w, tol) || math.IsNaN(w) && math.IsNaN(g.Weight)) {
			c.Failf("%s: weight of %q is %v want %v", what, g.Text, g.Weight, w)
			return
		}
		if i > 0 && got[i-1].Weight < g.Weight {
			c.Failf("%s: not in decreasing order: %v", what, got)
			return
		}
	}
}

// orders runs f under every explored order of map iteration: sorted,
// reversed, as they come, and with each single loop permuted in every way
// (small maps) or reversed and rotated (larger ones).
func orders(c *Ctx, deep bool, max int, f func(name string)) {
	defer rt.SetOrder(rt.Native, nil)
	var sizes []int
	rt.SetOrder(rt.Chosen, func(n int) []int { sizes = append(sizes, n); return nil })
	f("sorted")
	rt.SetOrder(rt.Reversed, nil)
	f("reversed")
	rt.SetOrder(rt.Native, nil)
	f("native")
	if !deep {
		return
	}
	if len(sizes) > max {
		sizes = sizes[:max]
	}
	for i, n := range sizes {
		var ps [][]int
		if n <= 4 {
			ps = permutations(n)[1:]
		} else {
			rev, rot := make([]int, n), make([]int, n)
			for k := range rev {
				rev[k] = n - 1 - k
				rot[k] = (k + n/2) % n
			}
			ps = [][]int{rev, rot}
		}
		for _, p := range ps {
			at := 0
			i, p := i, p
			rt.SetOrder(rt.Chosen, func(m int) []int {
				at++
				if at-1 == i && m == len(p) {
					return p
				}
				return nil
			})
			f(fmt.Sprintf("loop %d in order %v", i, p))
			if c.curBad {
				return
			}
		}
	}
}

func runK02(c *Ctx) {
	dict := []Ent{{"世界", 8, "n"}, {"甲乙", 6, "n"}, {"国人", 5, "n"}, {"go", 4, "eng"}, {"的", 30, "u"}, {"甲乙丙", 3, "n"}}
	stops := []string{"国人", "go"}
	idfWords := []string{"世界", "甲乙", "甲乙丙", "go", "unused"}
	weights := []float64{0, 0.75, 6, 11.25}
	pieces := []string{"世界", "甲乙", "丙", " ", "go", "the", "国人", "，", "的", "lang"}
	type idfCase struct {
		ents []Ent
		how  int
	}
	var cases []idfCase
	product(len(weights), len(idfWords), func(d []int) {
		var es []Ent
		for i, k := range d {
			if k > 0 {
				es = append(es, Ent{idfWords[i], weights[k], "n"})
			}
		}
		for how := 0; how < 4; how++ {
			if how > 0 && !(d[0] == d[1] || d[2] == d[3]) {
				continue
			}
			cases = append(cases, idfCase{es, how})
		}
		if len(es) == 0 {
			cases = append(cases, idfCase{nil, 4}) // no IDF dictionary
		}
	})
	n := 3
	if c.thorough {
		n = 4
	}
	ts := allTexts(pieces, 0, 2)
	big := allTexts(pieces, n, n)
	defStops := map[string]bool{}
	for k, v := range idf.StopWordMap {
		defStops[k] = v
	}
	runK02Big(c, dict)
	runK02Long(c)
	for ci, ic := range cases {
		ci, ic := ci, ic
		c.Unit(fmt.Sprintf("idf %d", ci), func() {
			restore := func() {
				for k := range idf.StopWordMap {
					delete(idf.StopWordMap, k)
				}
				for k, v := range defStops {
					idf.StopWordMap[k] = v
				}
			}
			restore()
			defer restore()
			hmmCustomOnce(0)
			seg := buildSeg(Opts{}, dict)
			t := &idf.TagExtracter{}
			t.WithGse(*seg)
			d := newRefDict()
			var text string
			for _, e := range ic.ents {
				text += fmt.Sprintf("%s %v %s\n", e.Text, e.Freq, e.Pos)
				d.add(e, Opts{}, true)
			}
			var ws []float64
			for _, e := range ic.ents {
				ws = append(ws, e.Freq)
			}
			sort.Float64s(ws)
			median := 0.0
			if len(ws) > 0 {
				median = ws[len(ws)/2]
			}
			sw := map[string]bool{}
			for k := range defStops {
				sw[k] = true
			}
			var err error
			switch ic.how {
			case 0:
				err = t.LoadIdfStr(text)
			case 1:
				p := filepath.Join(c.scratch, "idf.txt")
				os.WriteFile(p, []byte(text), 0o644)
				err = t.LoadIdf(p)
			case 2:
				t.Idf = idf.NewIdf()
				for _, e := range ic.ents {
					if er := t.Idf.AddToken(e.Text, e.Freq, e.Pos); er != nil {
						err = er
					}
				}
			case 3:
				err = t.LoadIdfStr(text)
				p := filepath.Join(c.scratch, "stops.txt")
				os.WriteFile(p, []byte(strings.Join(stops, "\n")+"\n"), 0o644)
				if er := t.LoadStopWords(p); er != nil {
					err = er
				}
				for _, s := range stops {
					sw[s] = true
				}
			}
			if err != nil {
				c.Case(func() string { return "loading" }, func() { c.Failf("loading gives error %v", err) })
				return
			}
			c.Case(func() string { return fmt.Sprintf("idf %s how %d lookups", entsStr(ic.ents), ic.how) }, func() {
				if ic.how == 4 {
					return
				}
				for _, w := range append([]string{"世", "甲", "g", "none", ""}, idfWords...) {
					wf, wp, wok := d.find(w)
					f, p, ok := t.Idf.Freq(w)
					if f != wf || p != wp || ok != wok {
						c.Failf("Freq(%q) gives %v %q %v want %v %q %v", w, f, p, ok, wf, wp, wok)
					}
				}
				if t.Idf.NumTokens() != len(d.order) || !near(t.Idf.TotalFreq(), d.total, 1e-12) {
					c.Failf("NumTokens %d TotalFreq %v", t.Idf.NumTokens(), t.Idf.TotalFreq())
				}
				st := idf.NewStopWord()
				// a stop word dictionary of its own
				for k := 0; k < 5; k++ {
					own := map[string]bool{}
					for w := range defStops {
						own[w] = true
					}
					switch k {
					case 4:
						// of no words, but those of a file
						st = &idf.StopWord{}
						for w := range own {
							delete(own, w)
						}
						p := filepath.Join(c.scratch, "own.txt")
						os.WriteFile(p, []byte("go\n国人"), 0o644)
						if err := st.LoadDict(p); err != nil {
							c.Failf("StopWord.LoadDict: %v", err)
						}
						own["go"], own["国人"] = true, true
					case 3:
						// of no words, but the one it is given
						st = &idf.StopWord{}
						for w := range own {
							if st.IsStopWord(w) {
								c.Failf("IsStopWord(%q) of the zero value", w)
							}
							delete(own, w)
						}
						st.RemoveStop("the")
						st.AddStop("世界")
						own["世界"] = true
					case 1:
						st.AddStop("世界")
						st.RemoveStop("the")
						own["世界"] = true
						delete(own, "the")
					case 2:
						st = idf.NewStopWord()
						p := filepath.Join(c.scratch, "own.txt")
						os.WriteFile(p, []byte("世界\n国人\n"), 0o644)
						if err := st.LoadDict(p); err != nil {
							c.Failf("StopWord.LoadDict: %v", err)
						}
						own["世界"], own["国人"] = true, true
					}
					for _, w := range []string{"the", "of", "go", "国人", "世界", "", "The"} {
						if st.IsStopWord(w) != own[w] {
							c.Failf("step %d: IsStopWord(%q) gives %v", k, w, !own[w])
						}
					}
				}
				for w, v := range idf.StopWordMap {
					if !v || !defStops[w] {
						c.Failf("%q is in the default stop words", w)
					}
				}
			})
			all := ts
			if ci%16 == 0 {
				all = append(append([]string(nil), ts...), big...)
			}
			for ti, text := range all {
				text := text
				c.Case(func() string {
					return fmt.Sprintf("idf %s loaded by way %d, text %q", entsStr(ic.ents), ic.how, text)
				}, func() {
					cnt := map[string]float64{}
					total := 0.0
					for _, w := range seg.Cut(text, true) {
						w = strings.TrimSpace(w)
						if utf8.RuneCountInString(w) < 2 || sw[w] {
							continue
						}
						cnt[w]++
						total++
					}
					want := map[string]float64{}
					for w, k := range cnt {
						f := median
						if e, ok := d.m[w]; ok && e.Freq > 0 {
							f = e.Freq
							c.Outcome("word with a weight")
						} else {
							c.Outcome("word with the median")
						}
						want[w] = f * k / total
					}
					first := ""
					orders(c, ti%37 == 5, 40, func(name string) {
						full := t.ExtractTags(text, 100)
						c.Trans(1)
						sameRank(c, "order "+name, full, want, 1e-12)
						if first == "" {
							first = dump(full)
						} else if g := dump(full); g != first {
							c.Failf("order %s gives %s, before %s", name, g, first)
						}
					})
					full := t.ExtractTags(text, 100)
					for k := -1; k <= len(want)+1; k++ {
						w := full
						if k < len(w) {
							w = w[:max(k, 0)]
						}
						c.Trans(1)
						if g := t.ExtractTags(text, k); dump(g) != dump(w) && len(g)+len(w) > 0 {
							c.Failf("%d tags: %v, of all: %v", k, g, full)
						}
					}
					c.State(first)
				})
			}
		})
	}
}

// runK02Big loads IDF dictionaries of many words in every way and in several
// orders, also with words listed twice, and in pieces.
func runK02Big(c *Ctx, dict []Ent) {
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 256, 257, 1000, 1001} {
		n := n
		c.Unit(fmt.Sprintf("idf of %d words", n), func() {
			hmmCustomOnce(0)
			seg := buildSeg(Opts{}, dict)
			for _, step := range []int{1, 7, 11, 13} {
				for twice := 0; twice < 2; twice++ {
					var es []Ent
					for i := 0; i < n; i++ {
						es = append(es, Ent{fmt.Sprintf("w%dx", i*3+i*step%n), 1 + float64(i*step%n)*0.75, "n"})
					}
					if n > 3 {
						es[1].Text = "世界"
						es[n-1].Text = "甲乙"
					}
					d := newRefDict()
					for _, e := range es {
						d.add(e, Opts{}, true)
					}
					if twice == 1 {
						for i := 0; i < n; i += 2 {
							es = append(es, Ent{es[i].Text, 900 + float64(i), "v"})
						}
					}
					var ws []float64
					for _, w := range d.order {
						ws = append(ws, d.m[w].Freq)
					}
					sort.Float64s(ws)
					median := ws[len(ws)/2]
					line := func(es []Ent) string {
						var sb strings.Builder
						for _, e := range es {
							fmt.Fprintf(&sb, "%s %v %s\n", e.Text, e.Freq, e.Pos)
						}
						return sb.String()
					}
					for how := 0; how < 5; how++ {
						how := how
						c.Case(func() string {
							return fmt.Sprintf("idf of %d words in order %d, words twice %d, loaded by way %d", n, step, twice, how)
						}, func() {
							t := &idf.TagExtracter{}
							t.WithGse(*seg)
							var err error
							file := func(i int, es []Ent) string {
								p := filepath.Join(c.scratch, fmt.Sprintf("idfbig%d.txt", i))
								os.WriteFile(p, []byte(line(es)), 0o644)
								return p
							}
							add := func(es []Ent) {
								for _, e := range es {
									if er := t.Idf.AddToken(e.Text, e.Freq, e.Pos); er != nil {
										err = er
									}
								}
							}
							h := len(es) / 3
							switch how {
							case 0:
								err = t.LoadIdfStr(line(es))
							case 1:
								err = t.LoadIdf(file(0, es))
							case 2:
								t.Idf = idf.NewIdf()
								add(es)
							case 3:
								err = t.LoadIdf(file(1, es[:h]) + "," + file(2, es[h:]))
							case 4:
								t.LoadIdfStr(line(es[:h]))
								add(es[h:])
							}
							if err != nil {
								c.Failf("loading gives %v", err)
							}
							if t.Idf.NumTokens() != len(d.order) || !near(t.Idf.TotalFreq(), d.total, 1e-12) {
								c.Failf("%d words, total %v, want %d, %v", t.Idf.NumTokens(), t.Idf.TotalFreq(), len(d.order), d.total)
							}
							for _, text := range []string{"世界甲乙国人，甲乙", "国人", "甲乙", "世界国人lang"} {
								cnt := map[string]float64{}
								total := 0.0
								for _, w := range seg.Cut(text, true) {
									if w = strings.TrimSpace(w); utf8.RuneCountInString(w) < 2 || idf.StopWordMap[w] {
										continue
									}
									cnt[w]++
									total++
								}
								want := map[string]float64{}
								for w, k := range cnt {
									f := median
									if e, ok := d.m[w]; ok && e.Freq > 0 {
										f = e.Freq
									}
									want[w] = f * k / total
								}
								got := t.ExtractTags(text, 50)
								c.Trans(1)
								sameRank(c, "text "+q(text), got, want, 1e-12)
								c.State(dump(got))
							}
						})
					}
				}
			}
		})
	}
}

// manyWords gives n words of two to four characters which do not share any.
func manyWords(n int) (ws []string) {
	r := rune(0x4e00)
	for i := 0; i < n; i++ {
		w := ""
		for k := 0; k < 2+i%3; k++ {
			w += string(r)
			r++
		}
		ws = append(ws, w)
	}
	return
}

// runK02Long extracts tags from texts of many distinct words, from one to
// several hundred, and from texts with words of many lengths.
func runK02Long(c *Ctx) {
	const max = 320
	words := manyWords(max)
	var dict []Ent
	for i, w := range words {
		dict = append(dict, Ent{w, float64(5 + i), "n"})
	}
	one := func(t *idf.TagExtracter, text string, ws []string, idfs map[string]float64, median float64, ks []int) {
		c.Case(func() string { return fmt.Sprintf("text of %d words %q", len(ws), text) }, func() {
			cnt := map[string]float64{}
			for _, w := range ws {
				cnt[w]++
			}
			want := map[string]float64{}
			for w, k := range cnt {
				f, ok := idfs[w]
				if !ok {
					f = median
				}
				want[w] = f * k / float64(len(ws))
			}
			first := ""
			full := t.ExtractTags(text, 100000)
			orders(c, false, 0, func(name string) {
				got := t.ExtractTags(text, 100000)
				c.Trans(1)
				sameRank(c, "order "+name, got, want, 1e-12)
				if first == "" {
					first = dump(got)
				} else if dump(got) != first {
					c.Failf("order %s gives %v, before %s", name, got, first)
				}
			})
			for _, k := range ks {
				w := full
				if k < len(w) {
					w = w[:k]
				}
				c.Trans(1)
				if g := t.ExtractTags(text, k); dump(g) != dump(w) && len(g)+len(w) > 0 {
					c.Failf("%d tags: %v, of all: %v", k, g, full)
				}
			}
			c.State(first)
		})
	}
	load := func() (*idf.TagExtracter, map[string]float64, float64) {
		hmmCustomOnce(0)
		t := &idf.TagExtracter{}
		t.WithGse(*buildSeg(Opts{}, dict))
		idfs := map[string]float64{}
		var sb strings.Builder
		var ws []float64
		for i := 0; i < max; i += 2 {
			f := 1 + float64(i*7%31)*0.5
			fmt.Fprintf(&sb, "%s %v n\n", words[i], f)
			idfs[words[i]] = f
			ws = append(ws, f)
		}
		idfs["lang"] = 3.25
		ws = append(ws, 3.25)
		sb.WriteString("lang 3.25 n\n")
		if err := t.LoadIdfStr(sb.String()); err != nil {
			c.Failf("loading gives %v", err)
		}
		sort.Float64s(ws)
		return t, idfs, ws[len(ws)/2]
	}
	var ns []int
	for n := 1; n <= 70; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, max)
	for _, n := range ns {
		n := n
		c.Unit(fmt.Sprintf("text of %d words", n), func() {
			t, idfs, median := load()
			for mode := 0; mode < 5; mode++ {
				var ws []string
				for i := 0; i < n; i++ {
					k := 1
					switch mode {
					case 1:
						k = 1 + i%3
					case 2:
						k = 1 + (n-i)%4
					case 4:
						k = 1 + i/20
						if n > 100 {
							k = 1
						}
					}
					for ; k > 0; k-- {
						ws = append(ws, words[i])
					}
				}
				switch mode {
				case 2: // from the end
					for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
						ws[i], ws[j] = ws[j], ws[i]
					}
				case 3: // the same sequence twice
					ws = append(ws, ws...)
				}
				ks := []int{0, 1, 2, 5, 9, 10, 11, 12, 19, 20, 21, 50, n - 1, n, n + 1}
				for _, sep := range []string{"", "，", " "} {
					one(t, strings.Join(ws, sep), ws, idfs, median, ks)
				}
			}
		})
	}
	// words of any length: a run of letters is one word
	c.Unit("words of many lengths", func() {
		t, idfs, median := load()
		for _, n := range []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097} {
			a, b := strings.Repeat("k", n), strings.Repeat("k", n-1)+"z"
			for _, ws := range [][]string{{a}, {a, b}, {a, b, a}, {words[0], a, words[1], b}, {b, words[2], "lang", words[2]}} {
				text := ""
				for i, w := range ws {
					if i > 0 {
						text += "，"
					}
					text += w
				}
				one(t, text, ws, idfs, median, []int{0, 1, 2, 3})
			}
		}
	})
}

// refRank is TextRank over pairs of allowed words within a window of five.
func refRank(words [][2]string, allow map[string]bool) map[string]float64 {
	type pair struct{ a, b string }
	cnt := map[pair]float64{}
	for i := range words {
		if !allow[words[i][1]] {
			continue
		}
		for j := i + 1; j < i+5 && j < len(words); j++ {
			if allow[words[j][1]] {
				cnt[pair{words[i][0], words[j][0]}]++
			}
		}
	}
	adj := map[string][]pair{} // a: neighbour, b: unused
	wgt := map[string][]float64{}
	var ks []pair
	for p := range cnt {
		ks = append(ks, p)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].a < ks[j].a || ks[i].a == ks[j].a && ks[i].b < ks[j].b })
	for _, p := range ks {
		adj[p.a] = append(adj[p.a], pair{a: p.b})
		wgt[p.a] = append(wgt[p.a], cnt[p])
		adj[p.b] = append(adj[p.b], pair{a: p.a})
		wgt[p.b] = append(wgt[p.b], cnt[p])
	}
	var nodes []string
	for n := range adj {
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	ws, out := map[string]float64{}, map[string]float64{}
	for _, n := range nodes {
		ws[n] = 1 / float64(len(nodes))
		for _, w := range wgt[n] {
			out[n] += w
		}
	}
	for it := 0; it < 10; it++ {
		for _, n := range nodes {
			s := 0.0
			for k, e := range adj[n] {
				s += wgt[n][k] / out[e.a] * ws[e.a]
			}
			ws[n] = 0.15 + 0.85*s
		}
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, w := range ws {
		lo, hi = math.Min(lo, w), math.Max(hi, w)
	}
	for n, w := range ws {
		ws[n] = (w - lo/10) / (hi - lo/10)
	}
	return ws
}

func runK03(c *Ctx) {
	dict := []Ent{{"世界", 800, "n"}, {"甲乙", 600, "v"}, {"国人", 500, "vn"}, {"地方", 400, "ns"}, {"的", 300, "uj"}, {"跑步", 700, "a"}, {"吃饭", 100, "n"}}
	pieces := []string{"世界", "甲乙", "国人", "的", "，", "地方", "跑步", "吃饭", "龙", "go"}
	seg := buildSeg(Opts{}, dict)
	r := &idf.TextRanker{}
	r.WithGse(*seg)
	ps := wrapPos(seg)
	sets := [][]string{{"ns", "n", "vn", "v"}, {"n"}, {"uj", "a", "x"}, {}, {"eng", "n", "v"}}
	one := func(text string, deep bool) {
		c.Case(func() string { return "text " + q(text) }, func() {
			var words [][2]string
			for _, w := range ps.Cut(text, true) {
				words = append(words, [2]string{w.Text, w.Pos})
			}
			for si, set := range sets {
				allow := map[string]bool{}
				for _, s := range set {
					allow[s] = true
				}
				want := refRank(words, allow)
				first := ""
				call := func(k int) segment.Segments {
					c.Trans(1)
					if si == 0 {
						return r.TextRank(text, k)
					}
					return r.TextRankWithPOS(text, k, set)
				}
				run := func(name string) {
					full := call(0)
					sameRank(c, fmt.Sprintf("tags %v order %s", set, name), full, want, 1e-9)
					if first == "" {
						first = dump(full)
					} else if g := dump(full); g != first {
						c.Failf("tags %v: order %s gives %s, before %s", set, name, g, first)
					}
				}
				if deep && si == 0 {
					orders(c, true, 150, run)
				} else if si == 0 || deep {
					orders(c, false, 0, run)
				} else {
					run("native")
				}
				if c.curBad {
					return
				}
				full := call(0)
				for k := 1; k <= len(want)+1; k++ {
					w := full
					if k < len(w) {
						w = w[:k]
					}
					if g := call(k); dump(g) != dump(w) {
						c.Failf("tags %v: %d words: %v, of all: %v", set, k, g, full)
					}
				}
				c.State(first)
				c.Outcome(fmt.Sprintf("%d words", min(len(want), 6)))
			}
		})
	}
	// pieces between, and texts of more of fewer pieces
	for _, fam := range [][]string{{"世界", "甲乙", " ", "的"}, {"世界", "国人", "\n", "，"}, {"吃饭", "go", "地方", "7"}} {
		m := 7
		if c.thorough {
			m = 9
		}
		for _, a := range fam {
			for _, b := range fam {
				p := a + b
				c.Unit("few "+q(p)+q(fam[2]), func() {
					i := 0
					texts(fam, 0, m-2, func(s string) {
						i++
						one(p+s, i%501 == 3)
					})
				})
			}
		}
	}
	n := 4
	if c.thorough {
		n = 5
	}
	pieces = append(pieces, " ", "7", "\xff")
	for _, a := range pieces {
		for _, b := range pieces {
			p := a + b
			c.Unit("text "+p, func() {
				i := 0
				texts(pieces, 0, n-2, func(s string) {
					i++
					one(p+s, i%101 == 3)
				})
			})
		}
	}
	c.Unit("others", func() {
		one("", true)
		for _, a := range pieces {
			one(a, true)
		}
	})
	// many distinct words
	words := manyWords(105)
	var wdict []Ent
	for i, w := range words {
		wdict = append(wdict, Ent{w, float64(5 + i), []string{"n", "v", "n", "uj", "vn"}[i%5]})
	}
	for n := 1; n <= len(words); n++ {
		n := n
		c.Unit(fmt.Sprintf("%d distinct words", n), func() {
			old, oldR, oldP := seg, r, ps
			defer func() { seg, r, ps = old, oldR, oldP }()
			seg = buildSeg(Opts{}, wdict)
			r = &idf.TextRanker{}
			r.WithGse(*seg)
			ps = wrapPos(seg)
			for mode := 0; mode < 3; mode++ {
				t := ""
				for i := 0; i < n; i++ {
					switch mode {
					case 0:
						t += words[i]
					case 1:
						t += words[i] + words[n-1-i]
					case 2:
						t += words[i] + words[i*i%n] + "，"
					}
				}
				one(t, false)
			}
		})
	}
	// longer texts: rotations of all words, repeated
	for k := 1; k <= 40; k++ {
		k := k
		c.Unit(fmt.Sprintf("long %d", k), func() {
			for step := 1; step < 7; step++ {
				t := ""
				for i := 0; i < k*4; i++ {
					t += pieces[(i*step+i/5)%len(pieces)]
				}
				one(t, k < 4)
			}
		})
	}
}
