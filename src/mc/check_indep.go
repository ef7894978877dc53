package main

import (
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"vmc.local/rt"
)

// ---- C03: objects built separately are independent ----

func init() {
	register(&checkDef{id: "C03",
		desc: "objects that are alike in sizes and totals, one after the other and in turns, each against the reference for its own entries; pairs of histories (build, load, change, use), each on objects of its own: every order of their steps, and as two threads every schedule with one preemption at every statement, each step gives what it gives alone and so does an object that takes no part; race detector",
		run:  runC03seq, race: runC03})
}

// a script makes objects of its own and lists the steps on them.
type script struct {
	name string
	make func() []func() interface{}
}

func quietSeg() *gse.Segmenter { return &gse.Segmenter{SkipLog: true, NotLoadHMM: true} }

// scripts lists the histories. The extracters are built before the steps
// begin: that loads the default HMM model, which all share (H02).
func scripts(c *Ctx, kind string) []script {
	short := kind == "short"
	file := func(name, text string) string {
		p := filepath.Join(c.scratch, name)
		os.WriteFile(p, []byte(text), 0o644)
		return p
	}
	dictA := file("c03a.txt", "世界 9 n\n世 3 v\n甲乙 4 n\n")
	dictB := file("c03b.txt", "甲乙丙 40 b\n乙丙 30 b\n界甲 90 b\n")
	stopA := file("c03s.txt", "甲乙\n界\n")
	text := "世界甲乙丙"
	if short {
		text = "甲乙丙"
	}
	tagText := "世界甲乙，丙丁"
	rankText := "世界甲乙丙丁世界"
	if short {
		tagText, rankText = "甲乙世界", "世界甲乙"
	}
	cuts := func(s *gse.Segmenter) func() interface{} {
		return func() interface{} {
			if short {
				return []string{dump(s.Cut(text)), dump(s.Cut("甲乙", false))}
			}
			return []string{dump(s.Cut(text)), dump(s.Cut(text, false)), dump(s.CutAll(text)), dump(s.Slice(text, true))}
		}
	}
	find := func(s *gse.Segmenter) func() interface{} {
		return func() interface{} {
			f, p, ok := s.Find("甲乙")
			return []interface{}{f, p, ok, s.Dict.NumTokens(), s.Dict.TotalFreq()}
		}
	}
	str := func(d string) func() []func() interface{} {
		return func() []func() interface{} {
			s := quietSeg()
			return []func() interface{}{
				func() interface{} { return s.LoadDictStr(d) },
				cuts(s),
				func() interface{} { s.AddToken("丙", 5, "q"); s.CalcToken(); return dump(s.Cut(text, false)) },
				find(s),
			}
		}
	}
	extracter := func(weights string) *idf.TagExtracter {
		s := quietSeg()
		s.LoadDictStr("世界 9 n\n甲乙 4 n\n丙丁 7 n\n")
		t := &idf.TagExtracter{}
		t.WithGse(*s)
		t.LoadIdfStr(weights)
		hmmCustom(0)
		return t
	}
	tags := func(t *idf.TagExtracter) func() interface{} {
		return func() interface{} { return dump(t.ExtractTags(tagText, 9)) }
	}
	// enough entries for tables to grow and for sizes beyond a byte
	big := func(seed int) string {
		var sb strings.Builder
		for i := 0; i < 700; i++ {
			fmt.Fprintf(&sb, "%s %d b%d\n", bigWord(i*2+seed), 3+(i+seed)%50, (i+seed)%9)
		}
		fmt.Fprintf(&sb, "%s %d long%d\n", pump("甲乙", 40+seed), 9, seed)
		return sb.String()
	}
	bigText := func(seed int) (s string) {
		for i := 0; i < 60; i++ {
			s += bigWord(i*22 + seed)
		}
		return s + pump("甲乙", 60)
	}
	// one step each: the race detector remembers only the last accesses of a
	// thread
	bigScript := func(step string, seed int) script {
		d, t := big(seed), bigText(seed)
		p := file(fmt.Sprint("c03big", seed), d)
		return script{fmt.Sprint("big ", step, " ", seed), func() []func() interface{} {
			s := quietSeg()
			if step == "cut" || step == "change" {
				s.LoadDictStr(d)
			}
			fs := map[string]func() interface{}{
				"string": func() interface{} { return s.LoadDictStr(d) },
				"file":   func() interface{} { return s.LoadDict(p) },
				"cut": func() interface{} {
					return fmt.Sprint(len(s.Cut(t)), len(s.Cut(t, false)), s.Dict.TotalFreq(), crc32.ChecksumIEEE([]byte(dump(s.Slice(t, true))+dump(s.CutAll(t)))))
				},
				"stop": func() interface{} {
					s.AddStop(t)
					err := s.LoadStopStr(strings.ReplaceAll(d, " ", "\n"))
					return fmt.Sprint(err, len(s.StopWordMap))
				},
				"stop file": func() interface{} { return fmt.Sprint(s.LoadStop(p), len(s.StopWordMap)) },
				"change": func() interface{} {
					err := s.RemoveToken(bigWord(2 + seed))
					s.AddTokenForce("子丑", 9, "z")
					return fmt.Sprint(err, len(s.Cut(t)))
				},
			}
			return []func() interface{}{fs[step]}
		}}
	}
	if kind == "big" {
		var r []script
		for _, step := range []string{"string", "file", "cut", "stop", "stop file", "change"} {
			r = append(r, bigScript(step, 0), bigScript(step, 1))
		}
		return r
	}
	return []script{
		{"string A", str("世界 9 n\n世 3 v\n甲乙 4 n\n")},
		{"string B", str("甲乙丙 40 b\n乙丙 30 b\n界甲 90 b\n")},
		{"file", func() []func() interface{} {
			s := quietSeg()
			return []func() interface{}{
				func() interface{} { return s.LoadDict(dictA) },
				cuts(s),
				func() interface{} { return s.LoadDict(dictB) },
				cuts(s),
			}
		}},
		{"changes", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("甲乙 4 n\n世界 8 n\n")
			return []func() interface{}{
				func() interface{} { return s.AddToken("丙世", 50, "z") },
				func() interface{} { return s.RemoveToken("甲乙") },
				find(s),
				func() interface{} { return s.ReAddToken("世界", 600, "r") },
				cuts(s),
			}
		}},
		{"empty", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("甲乙 4 n\n世界 8 n\n")
			return []func() interface{}{
				cuts(s),
				func() interface{} { return s.Empty() },
				func() interface{} { return s.LoadDictStr("乙丙 6 e\n") },
				cuts(s),
			}
		}},
		{"maps", func() []func() interface{} {
			s := quietSeg()
			return []func() interface{}{
				func() interface{} {
					return s.LoadDictMap([]map[string]string{{"text": "世界甲", "freq": "70", "pos": "m"}, {"text": "甲乙", "freq": "3", "pos": ""}})
				},
				cuts(s), find(s),
			}
		}},
		{"missing file", func() []func() interface{} {
			s := quietSeg()
			return []func() interface{}{
				func() interface{} { return s.LoadDict(dictA+"none") != nil },
				func() interface{} { return s.LoadStop(dictA+"none") != nil },
				func() interface{} { return s.LoadDict(dictA) },
				cuts(s),
			}
		}},
		{"stop words", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("甲乙 4 n\n世界 8 n\n")
			is := func() interface{} {
				var r []bool
				for _, w := range []string{"世", "界", "甲乙", " ", "x"} {
					r = append(r, s.IsStop(w))
				}
				return []interface{}{r, s.Trim([]string{"世", "甲乙", "，", "界"}), s.CutStop("世 界甲乙")}
			}
			return []func() interface{}{
				func() interface{} { s.LoadStopArr([]string{"世", "x"}); return is() },
				func() interface{} { return s.LoadStop(stopA) },
				is,
				func() interface{} { s.AddStop(" "); s.RemoveStop("世"); return s.LoadStopStr("界\n世\n") },
				is,
				func() interface{} { s.EmptyStop(); return is() },
			}
		}},
		{"other stop words", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("甲乙 4 n\n世 8 n\n")
			is := func() interface{} {
				return []interface{}{s.IsStop("世"), s.IsStop("甲乙"), s.IsStop(" "), s.IsStop("界"), s.CutStop("世 界甲乙")}
			}
			return []func() interface{}{
				is,
				func() interface{} { s.AddStopArr("甲乙", "丙"); return is() },
				func() interface{} { return s.LoadStopEmbed("界\n世") },
				is,
			}
		}},
		{"first stop words", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("甲乙 4 n\n世 8 n\n")
			is := func() interface{} {
				return []interface{}{s.IsStop("世"), s.IsStop("甲乙"), s.IsStop(" "), s.IsStop("丙"), s.IsStop("界"), s.CutStop("世 界甲乙")}
			}
			return []func() interface{}{
				func() interface{} { s.AddStop("界"); return is() },
				func() interface{} { s.RemoveStop("甲乙"); return is() },
				is,
			}
		}},
		{"tagger", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("世界 8 n\n甲乙 4 v\n")
			p := &pos.Segmenter{}
			return []func() interface{}{
				func() interface{} { p.WithGse(*s); return nil },
				func() interface{} { return dump(p.Cut(text, true)) },
				func() interface{} { s.AddToken("丙", 7, "w"); return dump(p.Cut(text)) },
				func() interface{} { return dump(p.Trim(p.Cut("世界，甲乙", false))) },
			}
		}},
		{"extracter", func() []func() interface{} {
			t := extracter("世界 3.5 n\n甲乙 6 n\n")
			return []func() interface{}{
				tags(t),
				func() interface{} { return t.LoadStopWords(stopA) },
				tags(t),
				func() interface{} { return t.Idf.AddToken("丙丁", 9, "n") },
				tags(t),
			}
		}},
		{"other extracter", func() []func() interface{} {
			t := extracter("世界 30 n\n丙丁 4 n\n")
			return []func() interface{}{
				func() interface{} { return t.Idf.AddToken("甲乙", 2, "n") },
				tags(t),
				tags(t),
				func() interface{} { f, p, ok := t.Idf.Freq("甲乙"); return []interface{}{f, p, ok} },
			}
		}},
		{"stop dictionary", func() []func() interface{} {
			var st *idf.StopWord
			is := func() interface{} {
				return []bool{st.IsStopWord("the"), st.IsStopWord("甲乙"), st.IsStopWord("界"), st.IsStopWord("of"), st.IsStopWord("世界")}
			}
			return []func() interface{}{
				func() interface{} { st = idf.NewStopWord(); return is() },
				func() interface{} { st.AddStop("世界"); st.RemoveStop("of"); return is() },
				func() interface{} { return st.LoadDict(stopA) },
				is,
			}
		}},
		{"ranker", func() []func() interface{} {
			s := quietSeg()
			s.LoadDictStr("世界 8 n\n甲乙 4 v\n丙丁 9 n\n")
			r := &idf.TextRanker{}
			return []func() interface{}{
				func() interface{} { r.WithGse(*s); return dump(r.TextRank(rankText, 3)) },
				func() interface{} { return dump(r.TextRankWithPOS(rankText, 5, []string{"n"})) },
				func() interface{} { return dump(r.TextRank("世界甲乙", 3)) },
			}
		}},
		{"filters", func() []func() interface{} {
			return []func() interface{}{
				func() interface{} { return gse.FilterHtml("<b>世</b>x") },
				func() interface{} { return []string{gse.FilterSymbol("a,世"), gse.FilterEmoji("a😀")} },
				func() interface{} { return gse.FilterLang("a世1", "Han") },
				func() interface{} { return []interface{}{gse.SplitNum("a12b"), hmm.Cut("甲乙1a")} },
			}
		}},
	}
}

func dumpRes(r interface{}) string {
	if s, ok := r.(string); ok {
		return s
	}
	if l, ok := r.([]string); ok {
		return fmt.Sprintf("%q", l)
	}
	return dump(r)
}

func aloneResults(s script) (r []string) {
	for _, f := range s.make() {
		r = append(r, dumpRes(f()))
	}
	return
}

// runC03seq: every order of the steps of two histories.
func runC03seq(c *Ctx) {
	runC03alike(c)
	var ss []script
	var alone [][]string
	prepare := func() {
		if ss == nil {
			hmmCustom(0)
			ss = scripts(c, "")
			for _, s := range ss {
				alone = append(alone, aloneResults(s))
			}
		}
	}
	hmmCustom(0)
	n := len(scripts(c, ""))
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			a, b := a, b
			c.Unit(fmt.Sprintf("histories %d %d", a, b), func() {
				hmmCustom(0)
				prepare()
				var order []int
				var rec func(i, j int)
				rec = func(i, j int) {
					if i == len(alone[a]) && j == len(alone[b]) {
						c.Case(func() string { return fmt.Sprintf("%s | %s in order %v", ss[a].name, ss[b].name, order) }, func() {
							third := ss[(a+b)%len(ss)]
							w := third.make()
							wi := 0
							fs := [][]func() interface{}{ss[a].make(), ss[b].make()}
							at := [2]int{}
							for k, o := range order {
								which := []int{a, b}[o]
								got := dumpRes(fs[o][at[o]]())
								c.Trans(1)
								if got != alone[which][at[o]] {
									c.Failf("step %d of %q gives %s, alone %s", at[o], ss[which].name, got, alone[which][at[o]])
									return
								}
								at[o]++
								// a third history between the two
								if k%2 == 1 && wi < len(w) {
									if g := dumpRes(w[wi]()); g != alone[(a+b)%len(ss)][wi] {
										c.Failf("step %d of %q gives %s, alone %s", wi, third.name, g, alone[(a+b)%len(ss)][wi])
										return
									}
									wi++
								}
							}
							c.State(fmt.Sprint(a, b, order))
						})
						return
					}
					if i < len(alone[a]) {
						order = append(order, 0)
						rec(i+1, j)
						order = order[:len(order)-1]
					}
					if j < len(alone[b]) {
						order = append(order, 1)
						rec(i, j+1)
						order = order[:len(order)-1]
					}
				}
				rec(0, 0)
			})
		}
	}
}

// runC03alike builds objects that are alike (the same words, sizes and totals,
// other frequencies, tags, weights and stop words) one after the other and in
// turns, and judges each against the reference for its own entries.
func runC03alike(c *Ctx) {
	words := []string{"甲", "甲乙", "乙丙", "丙"}
	fr := []float64{2, 8, 32, 128}
	texts := []string{"甲乙丙", "乙丙甲乙", "甲乙丙丙甲", "丙乙丙"}
	var perms [][]int
	product(4, 4, func(d []int) {
		seen := 0
		for _, k := range d {
			seen |= 1 << k
		}
		if seen == 15 {
			perms = append(perms, append([]int(nil), d...))
		}
	})
	dictOf := func(k int) []Ent {
		// by the numbers of the words, all in another order of words, and tags
		p, o := perms[k%24], perms[(k/24*7+k)%24]
		var es []Ent
		for _, i := range o {
			es = append(es, Ent{words[i], fr[p[i]], fmt.Sprint("t", p[(i+k/24)%4])})
		}
		return es
	}
	probes := probesOf(words, []string{"甲乙丙", "乙甲"})
	type obj struct {
		es   []Ent
		seg  *gse.Segmenter
		pos  *pos.Segmenter
		tags *idf.TagExtracter
		stop string
		d    *refDict
	}
	build := func(k, how int) *obj {
		o := &obj{es: dictOf(k)}
		o.d = refDictOf(Opts{}, o.es, true)
		o.seg = buildHow(Opts{}, o.es, how)
		o.stop = words[k%4]
		o.seg.LoadStopArr([]string{o.stop})
		o.pos = &pos.Segmenter{}
		o.pos.WithGse(*o.seg)
		o.tags = &idf.TagExtracter{}
		o.tags.WithGse(*o.seg)
		t := ""
		for _, e := range o.es {
			t += fmt.Sprintf("%s %v %s\n", e.Text, e.Freq/16, e.Pos)
		}
		if err := o.tags.LoadIdfStr(t); err != nil {
			c.Failf("LoadIdfStr: %v", err)
		}
		return o
	}
	judge := func(o *obj) {
		compareDict(c, o.seg, o.d, probes, texts, false, Opts{})
		p := newRefPaths(o.d)
		g := newRefDag(o.d)
		for _, t := range texts {
			ws := refWords(t, Opts{}, true)
			segs := o.seg.Segment([]byte(t))
			if cost, ok := pathCost(c, "Segment", p, ws, segs); ok {
				if best := p.best(ws, false); cost > best+tolPath(best, len(ws)) {
					c.Failf("Segment(%q) costs %v, the least is %v", t, cost, best)
				}
			}
			rs := []rune(t)
			es := g.edges(rs)
			opt, _ := optimal(es)
			if got := o.seg.Cut(t, false); !matchNoHMM(rs, opt, got) {
				c.Failf("Cut(%q) gives %s, no most probable route does", t, q(got))
			}
			if got, want := o.seg.CutAll(t), refFull(es, rs); !eqStrs(got, want) {
				c.Failf("CutAll(%q) gives %s want %s", t, q(got), q(want))
			}
			for _, x := range o.pos.Cut(t) {
				if e, ok := o.d.m[x.Text]; ok && e.Pos != x.Pos || !ok && x.Pos != "x" {
					c.Failf("pos.Cut(%q) gives %q the tag %q", t, x.Text, x.Pos)
				}
			}
			c.Trans(5)
		}
		for _, w := range words {
			e := o.d.m[w]
			f, ps, ok := o.tags.Idf.Freq(w)
			// the loader gives single characters frequency 2
			if want := e.Freq / 16; len([]rune(w)) > 1 && (!ok || f != want || ps != e.Pos) {
				c.Failf("Idf.Freq(%q) gives %v %q %v", w, f, ps, ok)
			}
			if o.seg.IsStop(w) != (w == o.stop) {
				c.Failf("IsStop(%q) is %v, the stop word is %q", w, o.seg.IsStop(w), o.stop)
			}
			if len([]rune(w)) > 1 {
				if r := o.tags.ExtractTags(w, 3); len(r) == 1 && (r[0].Text != w || !near(r[0].Weight, e.Freq/16, 1e-12)) {
					c.Failf("ExtractTags(%q) gives %v, the weight is %v", w, r, e.Freq/16)
				}
			}
			c.Trans(3)
		}
	}
	hmmCustom(0)
	for k := range perms {
		for _, step := range []int{1, 5, 7, 11} {
			k, step := k, step
			c.Unit(fmt.Sprintf("alike from %d step %d", k, step), func() {
				hmmCustom(0)
				var last *obj
				for n := 0; n < 48; n++ {
					a := k + n*step
					c.Case(func() string {
						return fmt.Sprintf("alike from %d step %d, number %d: %v, before %v", k, step, n, dictOf(a), dictOf(a-step+24*step))
					}, func() {
						o := build(a, n%3)
						if last != nil && n%2 == 1 {
							judge(last)
						}
						judge(o)
						if last != nil {
							judge(last)
						}
						last = o
						c.State(fmt.Sprint(o.es, n%3))
					})
				}
			})
		}
	}
}

// runC03: the histories as two threads.
func runC03(c *Ctx) {
	resetVars()
	hmmCustom(0)
	ss := scripts(c, "short")
	var alone []string
	for _, s := range ss {
		alone = append(alone, fmt.Sprint(aloneResults(s)))
	}
	two := func(ss []script, alone []string, a, b, k int) {
		c.Unit(fmt.Sprintf("%s | %s, %d preemptions", ss[a].name, ss[b].name, k), func() {
			explore(c, conc{
				name:   fmt.Sprintf("%s | %s", ss[a].name, ss[b].name),
				budget: 40_000_000,
				setup: func() []func() interface{} {
					hmmCustom(0)
					for _, o := range []int{a, b} {
						if alone[o] == "" {
							alone[o] = fmt.Sprint(aloneResults(ss[o]))
						}
					}
					var r []func() interface{}
					for _, s := range []script{ss[a], ss[b]} {
						fs := s.make()
						r = append(r, func() interface{} {
							var l []string
							for _, f := range fs {
								l = append(l, dumpRes(f()))
							}
							return fmt.Sprint(l)
						})
					}
					return r
				},
				judge: func(c *Ctx, res []interface{}, r rt.Result) {
					for i, o := range []int{a, b} {
						if res[i] != alone[o] {
							c.Failf("%s gives %v, alone %s", ss[o].name, res[i], alone[o])
						}
					}
					if r.Switches > 0 {
						c.Outcome("preempted")
					}
					c.State(fmt.Sprint(a, b))
				},
			}, k)
		})
	}
	bigs := scripts(c, "big")
	bigAlone := make([]string, len(bigs))
	ext := 0
	for i, s := range ss {
		if s.name == "extracter" {
			ext = i
		}
	}
	for k := 0; k <= 2; k++ {
		if k == 2 && !c.thorough {
			break
		}
		for a := 0; k == 0 && a < len(bigs); a++ {
			for b := a; b < len(bigs); b++ {
				two(bigs, bigAlone, a, b, 0)
			}
		}
		for a := range ss {
			for b := a; b < len(ss); b++ {
				a, b := a, b
				if k == 2 && a != b {
					continue
				}
				if k == 1 && a != b && b != a+1 && (a*3+b*5)%7 > 1 && !c.thorough && !(a == ext && b == ext+2) {
					continue
				}
				// the extracters take long to build
				if slow := func(i int) bool { return i == ext || i == ext+1 }; k == 1 && !c.thorough && (slow(a) || slow(b)) && !(slow(a) && b == ext+2) && !(a == ext && b == ext+1) {
					continue
				}
				two(ss, alone, a, b, k)
			}
		}
	}
}
