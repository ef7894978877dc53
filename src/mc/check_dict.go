package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
)

// ---- T01 T05: histories of a dictionary ----

func init() {
	register(&checkDef{id: "T01",
		desc: "every history of adding, removing and replacing words to a depth, from empty, small and large dictionaries, against a map: lookups of every word, beginning and extension, lookups along texts, results of the operations, total frequency, number of words",
		run:  runT01})
	register(&checkDef{id: "T05",
		desc: "after every such history and recalculation, every segmentation mode gives what a fresh dictionary with the same entries gives",
		run:  runT05})
}

type dictOp struct {
	kind int // 0 add 1 remove 2 replace 3 add and recalculate 4 recalculate
	e    Ent
}

func (o dictOp) String() string {
	switch o.kind {
	case 0:
		return "add " + o.e.String()
	case 1:
		return fmt.Sprintf("remove %q", o.e.Text)
	case 2:
		return "replace " + o.e.String()
	case 3:
		return "addforce " + o.e.String()
	}
	return "recalculate"
}

// do runs the operation on both; it reports a difference of the results.
func (o dictOp) do(c *Ctx, seg *gse.Segmenter, d *refDict, opt Opts) {
	c.Trans(1)
	var err error
	want := true // no error expected
	var pos []string
	if o.e.Pos != "" {
		pos = append(pos, o.e.Pos)
	}
	key := strings.Join(refWords(o.e.Text, opt, true), "")
	switch o.kind {
	case 0, 3:
		_, had := d.m[key]
		added := d.add(o.e, opt, true)
		want = added || had
		if o.kind == 0 {
			err = seg.AddToken(o.e.Text, o.e.Freq, pos...)
		} else {
			err = seg.AddTokenForce(o.e.Text, o.e.Freq, pos...)
		}
	case 1:
		want = d.remove(o.e.Text, opt, true)
		err = seg.RemoveToken(o.e.Text)
	case 2:
		want = d.remove(o.e.Text, opt, true)
		if want {
			d.add(o.e, opt, true)
		}
		err = seg.ReAddToken(o.e.Text, o.e.Freq, pos...)
	case 4:
		seg.CalcToken()
	}
	if (err == nil) != want {
		c.Failf("%v: error %v, expected an error: %v", o, err, !want)
	}
}

// compareDict checks every observable of the dictionary.
func compareDict(c *Ctx, seg *gse.Segmenter, d *refDict, probes []string, texts []string, removed bool, opt Opts) {
	for _, p := range probes {
		wf, wp, wok := d.find(p)
		f, pos, ok := seg.Find(p)
		c.Trans(2)
		if f != wf || pos != wp || ok != wok {
			c.Failf("Find(%q) gives %v %q %v want %v %q %v", p, f, pos, ok, wf, wp, wok)
			return
		}
		_, isWord := d.m[p]
		v, _, err := seg.Value(p)
		if (err == nil) != isWord {
			c.Failf("Value(%q) gives error %v, the text is a word: %v", p, err, isWord)
			return
		}
		if isWord {
			t := seg.Dict.Tokens[v]
			if t.Text() != p || t.Freq() != wf || t.Pos() != wp {
				c.Failf("Value(%q) names the token %q %v %q", p, t.Text(), t.Freq(), t.Pos())
				return
			}
		}
	}
	for _, text := range texts {
		ws := refWords(text, opt, true)
		var in []gse.Text
		for _, w := range ws {
			in = append(in, gse.Text(w))
		}
		toks := make([]*gse.Token, len(ws)+1)
		n := seg.Dict.LookupTokens(in, toks)
		c.Trans(1)
		k := 0
		pre := ""
		for _, w := range ws {
			pre += w
			e, ok := d.m[pre]
			if !ok {
				continue
			}
			if k >= n || toks[k].Text() != pre || toks[k].Freq() != e.Freq || toks[k].Pos() != e.Pos {
				got := "nothing"
				if k < n {
					got = toks[k].Text()
				}
				c.Failf("LookupTokens(%q): entry %d is %q, want %q", ws, k, got, pre)
				return
			}
			k++
		}
		if k != n {
			c.Failf("LookupTokens(%q) finds %d words, want %d", ws, n, k)
			return
		}
	}
	if got := seg.Dict.TotalFreq(); !near(got, d.total, 1e-12) {
		c.Failf("total frequency %v want %v", got, d.total)
	}
	if seg.Dictionary() != seg.Dict {
		c.Failf("Dictionary is another one")
	}
	maxLen := 0
	for _, w := range d.order {
		if n := len(refWords(w, opt, true)); n > maxLen {
			maxLen = n
		}
	}
	if !removed {
		if n := seg.Dict.NumTokens(); n != len(d.order) {
			c.Failf("NumTokens %d want %d", n, len(d.order))
		}
		if n := seg.Dict.MaxTokenLen(); n != maxLen {
			c.Failf("MaxTokenLen %d want %d", n, maxLen)
		}
	} else if n := seg.Dict.MaxTokenLen(); n < maxLen {
		c.Failf("MaxTokenLen %d, there is a word of %d", n, maxLen)
	}
}

// probesOf lists the words, all their beginnings and extensions.
func probesOf(words []string, ext []string) (r []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	add("")
	for _, w := range words {
		for i := 1; i <= len(w); i++ {
			add(w[:i])
		}
		for _, e := range ext {
			add(w + e)
		}
	}
	for _, e := range ext {
		add(e)
	}
	return
}

type startState struct {
	name string
	ents []Ent
}

func dictStarts(big bool) []startState {
	var many []Ent
	for i := 0; i < 900; i++ {
		many = append(many, Ent{bigWord(i), float64(1 + i%64), "m"})
	}
	// words over all byte values at one node, so that the node is moved around
	var bytesAt []Ent
	for i := 1; i < 256; i++ {
		bytesAt = append(bytesAt, Ent{"q" + string([]byte{0xff}) + string([]byte{byte(i)}) + "z", float64(1 + i%8), "y"})
	}
	r := []startState{
		{"empty", nil},
		{"one", []Ent{{"甲乙", 8, "o"}}},
		{"prefixes", []Ent{{"甲", 4, "a"}, {"甲乙丙", 2, "b"}, {"乙丙丁", 16, "c"}, {"ab", 32, "d"}}},
		{"longer", []Ent{{"甲乙丙丁戊", 4, "l"}, {"abab", 2, "m"}, {"甲a", 8, "n"}}},
	}
	if big {
		r = append(r, startState{"900 words", many}, startState{"300 words", many[:300]}, startState{"255 byte values", bytesAt})
	}
	return r
}

func histOps(kinds []int, words []Ent) (ops []dictOp) {
	for _, k := range kinds {
		if k == 4 {
			ops = append(ops, dictOp{kind: 4})
			continue
		}
		for _, w := range words {
			e := w
			if k == 2 {
				e.Freq = e.Freq*2 + 1
				e.Pos += "r"
			}
			ops = append(ops, dictOp{k, e})
		}
	}
	return
}

// histories enumerates start states and operation sequences of exactly the
// given depth (shorter ones are their prefixes and compared on the way).
func histories(c *Ctx, tag string, starts []startState, ops []dictOp, depth, split int, opt Opts, f func(st startState, seq []dictOp)) {
	for _, st := range starts {
		st := st
		product(len(ops), split, func(hd []int) {
			head := append([]int(nil), hd...)
			c.Unit(fmt.Sprintf("%s options %v start %s first %v", tag, opt, st.name, head), func() {
				product(len(ops), depth-split, func(tl []int) {
					seq := make([]dictOp, 0, depth)
					for _, k := range head {
						seq = append(seq, ops[k])
					}
					for _, k := range tl {
						seq = append(seq, ops[k])
					}
					f(st, seq)
				})
			})
		})
	}
}

func runT01(c *Ctx) {
	words := []Ent{{"甲", 3, "a"}, {"甲乙", 5, "b"}, {"甲乙丙", 7, "c"}, {"ab", 11, "d"}, {"甲Ab", 13, "e"}}
	wtexts := []string{"甲", "甲乙", "甲乙丙", "ab", "甲ab", "乙丙丁", "甲乙丙丁戊", "abab", "甲a"}
	probes := probesOf(wtexts, []string{"", "丁", "a", "x", "\xff", "\x00", "a\x00b", "\x00甲", "甲\x00", "AB", "乙"})
	texts := []string{"甲乙丙丁", "ab甲", "甲Ab 甲", "甲\x00乙", "乙丙", "甲乙x", "\x00", "甲乙丙丁戊", "abab甲"}
	texts = append(texts, allTexts([]string{"甲", "乙", "丙", "ab"}, 1, 3)...)
	run := func(tag string, starts []startState, ops []dictOp, depth, split int, opt Opts, each bool) {
		histories(c, tag, starts, ops, depth, split, opt, func(st startState, seq []dictOp) {
			c.Case(func() string { return fmt.Sprintf("start %s %v", st.name, seq) }, func() {
				seg := newSeg(opt)
				d := newRefDict()
				for _, e := range st.ents {
					seg.AddToken(e.Text, e.Freq, e.Pos)
					d.add(e, opt, true)
				}
				removed := false
				for i, o := range seq {
					o.do(c, seg, d, opt)
					removed = removed || o.kind == 1 || o.kind == 2
					if c.curBad {
						c.Failf("after %v", seq[:i+1])
						return
					}
					if each || i == len(seq)-1 {
						compareDict(c, seg, d, probes, texts, removed, opt)
					}
					if c.curBad {
						c.Failf("after %v", seq[:i+1])
						return
					}
				}
				c.State(st.name, fmt.Sprint(d.order), fmt.Sprint(d.total))
				if removed {
					c.Outcome("with removal")
				} else {
					c.Outcome("only adding")
				}
			})
		})
	}
	depth := 4
	if c.thorough {
		depth = 5
	}
	ops := histOps([]int{0, 1, 2}, words)
	run("all", dictStarts(false), ops, depth, 2, Opts{}, false)
	run("big", dictStarts(true)[4:], ops, depth-2, 1, Opts{}, true)
	// odd words: empty, with a zero byte, of capitals, of invalid bytes, very long
	odd := []Ent{{"", 3, "a"}, {"\x00", 4, "b"}, {"甲\x00乙", 5, "c"}, {"AB", 6, "d"}, {"ab", 7, "e"}, {"\xff\xfe", 8, "f"}, {"é", 9, "g"}, {"É", 10, "h"}, {"甲\xff", 0, "i"}}
	oddProbes := probesOf([]string{"ab", "AB", "甲\x00乙", "\xff\xfe", "é", "É", "甲\xff"}, []string{"\x00", "x", "\xff"})
	run2 := func(tag string, words []Ent, kinds []int, depth int, opt Opts, probes, texts []string, starts []startState) {
		old, oldT := probes, texts
		_ = old
		histories(c, tag, starts, histOps(kinds, words), depth, 1, opt, func(st startState, seq []dictOp) {
			c.Case(func() string { return fmt.Sprintf("start %s %v", st.name, seq) }, func() {
				seg := newSeg(opt)
				d := newRefDict()
				for _, e := range st.ents {
					seg.AddToken(e.Text, e.Freq, e.Pos)
					d.add(e, opt, true)
				}
				removed := false
				for _, o := range seq {
					o.do(c, seg, d, opt)
					removed = removed || o.kind == 1 || o.kind == 2
				}
				compareDict(c, seg, d, probes, oldT, removed, opt)
				c.State(tag, fmt.Sprint(d.order), fmt.Sprint(d.total))
			})
		})
	}
	for _, o := range []Opts{{}, {AlphaNum: true}, {Alpha: true}} {
		run2("odd", odd, []int{0, 1, 2}, 3, o, oddProbes, []string{"ab\x00", "AB", "\xff\xfeab", "甲\xff", "éÉ"}, dictStarts(false)[:1])
	}
	// through the dictionary of the tagger
	var tagOps []dictOp
	for _, o := range histOps([]int{0, 1}, append(words, odd[2], odd[3])) {
		tagOps = append(tagOps, o)
	}
	histories(c, "pos.Dict", dictStarts(false)[:2], tagOps, depth-1, 1, Opts{}, func(st startState, seq []dictOp) {
		c.Case(func() string { return fmt.Sprintf("pos.Dict, start %s %v", st.name, seq) }, func() {
			pd := &pos.Dict{Seg: *buildSeg(Opts{}, st.ents)}
			d := newRefDict()
			for _, e := range st.ents {
				d.add(e, Opts{}, true)
			}
			removed := false
			for _, o := range seq {
				c.Trans(1)
				if o.kind == 1 {
					removed = true
					in := d.remove(o.e.Text, Opts{}, true)
					if err := pd.RemoveToken(o.e.Text); (err == nil) != in {
						c.Failf("%v gives error %v", o, err)
					}
					continue
				}
				if err := pd.AddToken(o.e.Text, o.e.Freq, o.e.Pos); (err != nil) != strings.Contains(o.e.Text, "\x00") {
					c.Failf("%v gives error %v", o, err)
				}
				d.add(o.e, Opts{}, true)
			}
			for _, w := range probes {
				c.Trans(2)
				wf, wp, wok := d.find(w)
				if f, p, ok := pd.Freq(w); f != wf || p != wp || ok != wok {
					c.Failf("Freq(%q) gives %v %q %v, want %v %q %v", w, f, p, ok, wf, wp, wok)
				}
				e, in := d.m[w]
				if p, ok := pd.Pos(w); p != e.Pos || ok != in {
					c.Failf("Pos(%q) gives %q %v, want %q %v", w, p, ok, e.Pos, in)
				}
			}
			compareDict(c, &pd.Seg, d, probes, texts[:9], removed, Opts{})
			c.State("pos.Dict", fmt.Sprint(d.order))
		})
	})
	// words that part at every byte: deep chains of beginnings
	var chain []Ent
	var chainW []string
	w := ""
	for i, r := range "aé世b\xff😀c" {
		w += string(r)
		chain = append(chain, Ent{w, float64(i + 1), "t"})
		chainW = append(chainW, w)
	}
	run2("chain", chain, []int{0, 1}, 4, Opts{}, probesOf(chainW, []string{"x"}), chainW, dictStarts(false)[:1])
	// entries of equal and of no part of speech, of equal and of no frequency
	var plain []dictOp
	for _, w := range []string{"甲乙", "ab"} {
		for _, f := range []float64{0, 5, 9} {
			for _, p := range []string{"", "n"} {
				plain = append(plain, dictOp{0, Ent{w, f, p}}, dictOp{2, Ent{w, f, p}})
			}
		}
		plain = append(plain, dictOp{1, Ent{w, 0, ""}})
	}
	run("plain", dictStarts(false)[:2], plain, depth-1, 1, Opts{}, false)
	// frequencies of every size
	var sizes []dictOp
	for i, f := range []float64{16777217, 1<<40 + 1, 0.0009765625, 1.0 / 3, 1e15, 123456789} {
		sizes = append(sizes, dictOp{0, Ent{[]string{"甲乙", "甲", "ab"}[i%3], f, "t"}}, dictOp{2, Ent{[]string{"甲", "ab", "甲乙"}[i%3], f, "r"}})
	}
	sizes = append(sizes, dictOp{1, Ent{"甲乙", 0, ""}}, dictOp{1, Ent{"甲", 0, ""}})
	run("sizes", dictStarts(false)[:2], sizes, depth-1, 1, Opts{}, false)
	// many words of which each begins the next one
	nested := func(seg *gse.Segmenter, d *refDict, p string, n int) (ws []string) {
		for i := 1; i <= n; i++ {
			e := Ent{pump(p, i), float64(i), "t"}
			seg.AddToken(e.Text, e.Freq, e.Pos)
			d.add(e, Opts{}, true)
			ws = append(ws, e.Text)
		}
		return
	}
	for _, p := range []string{"甲", "甲乙", "é，", "\xff世"} {
		for _, n := range pumpLens {
			if n > 300 || n > 150 && len([]rune(p)) > 1 {
				break
			}
			p, n := p, n
			c.Unit(fmt.Sprintf("nested %q %d", p, n), func() {
				c.Case(func() string { return fmt.Sprintf("%d words, each begins the next, of %q", n, p) }, func() {
					seg := newSeg(Opts{})
					d := newRefDict()
					ws := nested(seg, d, p, n)
					long := []string{ws[n-1], pump(p, n+3), "x" + ws[n-1], ws[n-1] + "x"}
					compareDict(c, seg, d, append(long, ws...), long, false, Opts{})
					for k := n / 2; k >= 1; k /= 2 {
						w := pump(p, k)
						dictOp{1, Ent{w, 0, ""}}.do(c, seg, d, Opts{})
						compareDict(c, seg, d, append(long, ws...), long, true, Opts{})
					}
				})
			})
		}
	}
	// long histories: many words added, every one removed in an order, added again
	for _, n := range []int{1, 2, 3, 10, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000} {
		for mode := 0; mode < 6; mode++ {
			n, mode := n, mode
			c.Unit(fmt.Sprintf("long %d order %d", n, mode), func() {
				c.Case(func() string { return fmt.Sprintf("%d words, removed in order %d, added again", n, mode) }, func() {
					seg := newSeg(Opts{})
					d := newRefDict()
					var ws []string
					for i := 0; i < n; i++ {
						e := Ent{bigWord(i), float64(1 + i%32), "a"}
						if _, ok := d.m[e.Text]; !ok {
							ws = append(ws, e.Text)
						}
						dictOp{0, e}.do(c, seg, d, Opts{})
					}
					pr := probesOf(ws, nil)
					compareDict(c, seg, d, pr, ws, false, Opts{})
					order := make([]int, len(ws))
					for i := range order {
						switch mode % 3 {
						case 0:
							order[i] = i
						case 1:
							order[i] = len(ws) - 1 - i
						case 2:
							order[i] = i * 7 % len(ws)
						}
					}
					if mode%3 == 2 && len(ws)%7 == 0 {
						for i := range order {
							order[i] = i ^ 1
							if order[i] >= len(ws) {
								order[i] = i
							}
						}
					}
					for k, i := range order {
						if mode >= 3 && k%2 == 1 {
							continue
						}
						dictOp{1, Ent{Text: ws[i]}}.do(c, seg, d, Opts{})
						if k == len(order)/2 {
							compareDict(c, seg, d, pr, ws, true, Opts{})
						}
					}
					compareDict(c, seg, d, pr, ws, true, Opts{})
					for _, i := range order {
						dictOp{0, Ent{ws[i], 64, "z"}}.do(c, seg, d, Opts{})
					}
					compareDict(c, seg, d, pr, ws, true, Opts{})
				})
			})
		}
	}
}

func runT05(c *Ctx) {
	words := []Ent{{"甲", 4, "a"}, {"甲乙", 16, "b"}, {"乙丙", 64, "c"}, {"甲乙丙", 2, "d"}, {"丙a", 8, "e"}}
	texts := allTexts([]string{"甲", "乙", "丙", "a"}, 1, 4)
	if !c.thorough {
		texts = append(allTexts([]string{"甲", "乙", "丙", "a"}, 1, 3), "甲乙丙a", "甲乙丙甲", "乙丙a乙", "丙甲乙丙", "甲甲乙丙a丙a")
	}
	names := map[string]bool{"Segment": true, "StringSearch": true, "CutFalse": true, "CutTrue": true, "CutAll": true, "CutSearchFalse": true, "SuggestFreq": true, "pos.CutTrue": true, "PosSearch": true}
	var ops []readOp
	for _, o := range readOps {
		if names[o.name] {
			ops = append(ops, o)
		}
	}
	fresh := map[string][]string{}
	run := func(tag string, starts []startState, dops []dictOp, depth, split int) {
		histories(c, tag, starts, dops, depth, split, Opts{}, func(st startState, seq []dictOp) {
			c.Case(func() string { return fmt.Sprintf("start %s %v", st.name, seq) }, func() {
				hmmCustomOnce(0)
				seg := newSeg(Opts{})
				d := newRefDict()
				for _, e := range st.ents {
					seg.AddToken(e.Text, e.Freq, e.Pos)
					d.add(e, Opts{}, true)
				}
				for _, o := range seq {
					o.do(c, seg, d, Opts{})
				}
				seg.CalcToken()
				if len(d.order) == 0 {
					c.Outcome("empty dictionary")
				}
				key := st.name
				for _, w := range sortedStrs(d.order) {
					key += "|" + d.m[w].String()
				}
				want, ok := fresh[key]
				if !ok {
					var es []Ent
					for _, w := range sortedStrs(d.order) {
						es = append(es, d.m[w])
					}
					fe := &env{seg: buildSeg(Opts{}, es)}
					fe.pos = wrapPos(fe.seg)
					for _, t := range texts {
						for _, o := range ops {
							want = append(want, dump(o.f(fe, t)))
						}
					}
					if len(fresh) < 20000 {
						fresh[key] = want
					}
				}
				e := &env{seg: seg}
				e.pos = wrapPos(seg)
				i := 0
				for _, t := range texts {
					for _, o := range ops {
						c.Trans(1)
						if got := dump(o.f(e, t)); got != want[i] {
							c.Failf("%s of %q gives %s, with a fresh dictionary of %v %s", o.name, t, got, d.order, want[i])
							return
						}
						i++
					}
				}
				c.State(key)
				c.Outcome(fmt.Sprintf("%d entries", len(d.order)))
			})
		})
	}
	depth := 3
	ops1 := histOps([]int{0, 1, 2, 3}, words)
	if c.thorough {
		run("all", dictStarts(false), ops1, depth+1, 2)
	} else {
		run("all", dictStarts(false), ops1, depth, 2)
	}
	run("removals", []startState{{"all words", append(words[:5:5], Ent{"乙", 32, "f"}, Ent{"丙", 4, "g"}, Ent{"a", 128, "h"})}}, histOps([]int{1, 4}, append(words[:5:5], Ent{"乙", 32, "f"}, Ent{"丙", 4, "g"}, Ent{"a", 128, "h"})), depth+1, 1)
}

func wrapPos(seg *gse.Segmenter) *pos.Segmenter {
	p := &pos.Segmenter{}
	p.WithGse(*seg)
	return p
}

var customLoaded = -1

// hmmCustomOnce loads the model if it was not the last one loaded by it.
func hmmCustomOnce(i int) hmmModel {
	if customLoaded != i {
		customLoaded = i
		return hmmCustom(i)
	}
	return customModel(i)
}

func sortedStrs(s []string) []string {
	r := append([]string(nil), s...)
	sort.Strings(r)
	return r
}
