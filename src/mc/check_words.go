package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
	"vmc.local/rt"
)

func init() {
	register(&checkDef{id: "W01",
		desc: "every history of loading, adding, removing and emptying stop words of one and of two segmenters to a depth against a set; the filters on every short list of words",
		run:  runW01})
	register(&checkDef{id: "W02",
		desc: "every trimming operation on every list of short words over representative runes, with stop words on and off, against its plain rule; the cutting versions against cutting and then trimming; inputs left alone",
		run:  runW02})
	register(&checkDef{id: "W03",
		desc: "every text filter and splitter on every code point and every short text over representative atoms, markup and digits, against its plain rule",
		run:  runW03})
}

// ---- W01 ----

func runW01(c *Ctx) {
	dir := c.scratch
	put := func(name, text string) string {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
		return p
	}
	f1, f2, f3 := put("s1.txt", "的\nab\n\n了"), put("s2.txt", "甲乙\r\nab\r\n"), put("s3.txt", "")
	put("data/dict/zh/stop_word.txt", "默认\n的\n")
	put("data/dict/zh/stop_tokens.txt", "令牌\n，\n")
	missing := filepath.Join(dir, "none.txt")
	type op struct {
		name string
		do   func(s *gse.Segmenter) error
		add  []string
		del  []string
		kind int // 0 add/remove, 1 empty, 2 fails
	}
	ops := []op{
		{"LoadStopArr", func(s *gse.Segmenter) error { s.LoadStopArr([]string{"的", "甲乙"}); return nil }, []string{"的", "甲乙"}, nil, 0},
		{"AddStop", func(s *gse.Segmenter) error { s.AddStop("了"); return nil }, []string{"了"}, nil, 0},
		{"RemoveStop 的", func(s *gse.Segmenter) error { s.RemoveStop("的"); return nil }, nil, []string{"的"}, 0},
		{"EmptyStop", func(s *gse.Segmenter) error { return s.EmptyStop() }, nil, nil, 1},
		{"LoadStopStr", func(s *gse.Segmenter) error { return s.LoadStopStr(" ab \n\n\t了\r\n甲 乙") }, []string{"ab", "了", "甲 乙"}, nil, 0},
		{"LoadStop(s1)", func(s *gse.Segmenter) error { return s.LoadStop(f1) }, []string{"的", "ab", "了"}, nil, 0},
		{"AddStopArr", func(s *gse.Segmenter) error { s.AddStopArr("ab", "，"); return nil }, []string{"ab", "，"}, nil, 0},
		{"RemoveStop 甲乙", func(s *gse.Segmenter) error { s.RemoveStop("甲乙"); return nil }, nil, []string{"甲乙"}, 0},
		{"LoadStop(missing)", func(s *gse.Segmenter) error { return s.LoadStop(missing) }, nil, nil, 2},
		{"LoadStop(s2, s1)", func(s *gse.Segmenter) error { return s.LoadStop(f2 + ", " + f1) }, []string{"的", "ab", "了", "甲乙"}, nil, 0},
		{"LoadStop(empty)", func(s *gse.Segmenter) error { return s.LoadStop(f3) }, nil, nil, 0},
		{"LoadStop()", func(s *gse.Segmenter) error { return s.LoadStop() }, []string{"默认", "的"}, nil, 0},
		{"LoadStop(zh)", func(s *gse.Segmenter) error { return s.LoadStop("zh") }, []string{"令牌", "，"}, nil, 0},
		{"LoadStop(zh, s2)", func(s *gse.Segmenter) error { return s.LoadStop("zh, " + f2) }, []string{"令牌", "，", "甲乙", "ab"}, nil, 0},
		{"AddStopArr(spaces)", func(s *gse.Segmenter) error { s.AddStopArr("的 ", "AB", " ab ", " "); return nil }, []string{"的 ", "AB", " ab ", " "}, nil, 0},
		{"RemoveStop 的+space", func(s *gse.Segmenter) error { s.RemoveStop("的 "); return nil }, nil, []string{"的 "}, 0},
		{"RemoveStop AB", func(s *gse.Segmenter) error { s.RemoveStop("AB"); return nil }, nil, []string{"AB"}, 0},
		{"RemoveStop ab", func(s *gse.Segmenter) error { s.RemoveStop("ab"); return nil }, nil, []string{"ab"}, 0},
		{"RemoveStop space", func(s *gse.Segmenter) error { s.RemoveStop(" "); return nil }, nil, []string{" "}, 0},
		{"AddStopArr()", func(s *gse.Segmenter) error { s.AddStopArr(); return nil }, nil, nil, 0},
		{"LoadStopEmbed(words)", func(s *gse.Segmenter) error { return s.LoadStopEmbed("的\n令牌") }, []string{"的", "令牌"}, nil, 0},
		{"LoadStopEmbed(list)", func(s *gse.Segmenter) error { return s.LoadStopEmbed("的, 令牌") }, []string{"的", "令牌"}, nil, 0},
	}
	if sd, ok := rt.Lookup("github.com/go-ego/gse", "stopDict").(*string); ok && sd != nil {
		*sd = "内置\n了\n"
		ops = append(ops,
			op{"LoadStopEmbed()", func(s *gse.Segmenter) error { return s.LoadStopEmbed() }, []string{"内置", "了"}, nil, 0},
			op{"LoadStopEmbed(zh, 的)", func(s *gse.Segmenter) error { return s.LoadStopEmbed("zh, 的") }, []string{"内置", "了", "的"}, nil, 0})
	}
	words := []string{"的", "了", "ab", "甲乙", "甲", "", " ", "，", "默认", "令牌", "内置", "甲 乙", "AB", " ab ", "甲 乙 ", "\r", "ab\r", "甲乙\r", "的 "}
	list := append(append([]string{}, words...), "的", "甲乙", "x")
	newS := func() *gse.Segmenter {
		s := buildSeg(Opts{}, []Ent{{"甲乙", 8, "n"}, {"的", 2, "u"}, {"了", 2, "u"}})
		s.DictPath = filepath.Join(dir, "x")
		return s
	}
	base := newS()
	apply := func(s *gse.Segmenter, m map[string]bool, o op) map[string]bool {
		err := o.do(s)
		c.Trans(1)
		if (err != nil) != (o.kind == 2) {
			c.Failf("%s gives error %v", o.name, err)
		}
		if o.kind == 1 {
			return map[string]bool{}
		}
		for _, w := range o.add {
			m[w] = true
		}
		for _, w := range o.del {
			delete(m, w)
		}
		return m
	}
	filter := func(m map[string]bool, l []string) (r []string) {
		for _, w := range l {
			if w != "" && !m[w] {
				r = append(r, w)
			}
		}
		return
	}
	text := "的ab甲乙，了ab 甲"
	compare := func(s *gse.Segmenter, m map[string]bool) {
		for _, w := range words {
			if s.IsStop(w) != m[w] {
				c.Failf("IsStop(%q) gives %v", w, !m[w])
				return
			}
		}
		in := append([]string(nil), list...)
		c.Trans(4)
		if g, w := s.Stop(in), filter(m, list); !eqStrs(g, w) {
			c.Failf("Stop gives %q want %q", g, w)
		}
		if !eqStrs(in, list) {
			c.Failf("Stop changed its input to %q", in)
		}
		if g, w := s.CutStop(text), filter(m, base.Cut(text)); !eqStrs(g, w) {
			c.Failf("CutStop gives %q want %q", g, w)
		}
		if g, w := s.CutStop(text, false), filter(m, base.Cut(text, false)); !eqStrs(g, w) {
			c.Failf("CutStop(false) gives %q want %q", g, w)
		}
		if g, w := s.Trim([]string{"的", "ab", "甲乙"}), filter(m, []string{"的", "ab", "甲乙"}); !eqStrs(g, w) {
			c.Failf("Trim gives %q want %q", g, w)
		}
		c.State(fmt.Sprint(m))
	}
	glob := dump(gse.StopWordMap)
	hist := func(tag string, ops []op, depth, split int) {
		product(len(ops), split, func(h []int) {
			head := append([]int(nil), h...)
			c.Unit(fmt.Sprintf("%s %v", tag, head), func() {
				for n := 0; n <= depth-split; n++ {
					product(len(ops), n, func(d []int) {
						seq := append(append([]int(nil), head...), d...)
						c.Case(func() string {
							var names []string
							for _, k := range seq {
								names = append(names, ops[k].name)
							}
							return strings.Join(names, ", ")
						}, func() {
							s := *base
							s.StopWordMap = nil
							m := map[string]bool{}
							for _, k := range seq {
								m = apply(&s, m, ops[k])
							}
							compare(&s, m)
							if g := dump(gse.StopWordMap); g != glob {
								c.Failf("the package's default stop words became %s", g)
							}
							if len(m) == 0 {
								c.Outcome("no stop words")
							} else {
								c.Outcome("stop words")
							}
						})
					})
				}
			})
		})
	}
	depth := 4
	if c.thorough {
		depth = 5
	}
	hist("core", ops[:9], depth, 1)
	hist("all", ops, depth-1, 1)
	// a copy keeps its words when the original is emptied and filled anew
	for a := range ops {
		a := a
		c.Unit(fmt.Sprintf("copy %d", a), func() {
			product(len(ops), 2, func(d []int) {
				seq := append([]int{a}, d...)
				c.Case(func() string {
					return fmt.Sprintf("%s, copy, EmptyStop, %s, %s", ops[a].name, ops[seq[1]].name, ops[seq[2]].name)
				}, func() {
					s := newShallow(base)
					m := apply(s, map[string]bool{}, ops[a])
					cp := *s
					keep := map[string]bool{}
					for w := range m {
						keep[w] = true
					}
					if err := s.EmptyStop(); err != nil {
						c.Failf("EmptyStop: %v", err)
					}
					n := map[string]bool{}
					for _, k := range seq[1:] {
						n = apply(s, n, ops[k])
					}
					compare(s, n)
					compare(&cp, keep)
				})
			})
		})
	}
	// many and long stop words
	bigStops(c, put)
	// two segmenters
	two := ops[:9]
	for a := 0; a < 2*len(two); a++ {
		a := a
		c.Unit(fmt.Sprintf("two %d", a), func() {
			product(2*len(two), depth-1, func(d []int) {
				seq := append([]int{a}, d...)
				c.Case(func() string {
					var names []string
					for _, k := range seq {
						names = append(names, fmt.Sprintf("%d:%s", k%2, two[k/2].name))
					}
					return strings.Join(names, ", ")
				}, func() {
					s := []*gse.Segmenter{newShallow(base), newShallow(base)}
					m := []map[string]bool{{}, {}}
					for _, k := range seq {
						m[k%2] = apply(s[k%2], m[k%2], two[k/2])
					}
					compare(s[0], m[0])
					compare(s[1], m[1])
				})
			})
		})
	}
}

// bigStops loads lists of many stop words, and long ones, in every way.
func bigStops(c *Ctx, put func(name, text string) string) {
	type way struct {
		name string
		load func(s *gse.Segmenter, ws []string) error
	}
	part := func(ws []string, i, n int) []string { return ws[len(ws)*i/n : len(ws)*(i+1)/n] }
	lines := func(ws []string) string { return strings.Join(ws, "\n") + "\n" }
	ways := []way{
		{"LoadStopArr", func(s *gse.Segmenter, ws []string) error { s.LoadStopArr(ws); return nil }},
		{"AddStopArr", func(s *gse.Segmenter, ws []string) error { s.AddStopArr(ws...); return nil }},
		{"AddStop", func(s *gse.Segmenter, ws []string) error {
			for _, w := range ws {
				s.AddStop(w)
			}
			return nil
		}},
		{"LoadStopStr", func(s *gse.Segmenter, ws []string) error { return s.LoadStopStr(lines(ws)) }},
		{"LoadStopStr without the last line break", func(s *gse.Segmenter, ws []string) error { return s.LoadStopStr(strings.Join(ws, "\r\n")) }},
		{"LoadStopEmbed", func(s *gse.Segmenter, ws []string) error { return s.LoadStopEmbed(lines(ws)) }},
		{"LoadStopEmbed of a list", func(s *gse.Segmenter, ws []string) error {
			var l []string
			for i := 0; i < 5; i++ {
				l = append(l, strings.Join(part(ws, i, 5), "\n"))
			}
			return s.LoadStopEmbed(strings.Join(l, ", "))
		}},
		{"LoadStop", func(s *gse.Segmenter, ws []string) error { return s.LoadStop(put("big.txt", lines(ws))) }},
		{"LoadStop of CRLF", func(s *gse.Segmenter, ws []string) error {
			return s.LoadStop(put("big.txt", strings.Join(ws, "\r\n")))
		}},
		{"LoadStop of twelve files", func(s *gse.Segmenter, ws []string) error {
			var l []string
			for i := 0; i < 12; i++ {
				l = append(l, put(fmt.Sprintf("big%d.txt", i), lines(part(ws, i, 12))))
			}
			return s.LoadStop(strings.Join(l, ", "))
		}},
	}
	one := func(name string, ws []string) {
		for _, wy := range ways {
			wy := wy
			c.Case(func() string { return fmt.Sprintf("%s by %s", name, wy.name) }, func() {
				s := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
				if err := wy.load(s, ws); err != nil {
					c.Failf("error %v", err)
				}
				c.Trans(len(ws))
				m := map[string]bool{}
				for _, w := range ws {
					m[w] = true
				}
				check := func(when string) {
					for _, w := range ws {
						for _, x := range []string{w, w + "x", "x" + w, w[:len(w)-1], w[1:]} {
							if s.IsStop(x) != m[x] {
								c.Failf("%s: IsStop of %q gives %v", when, x, !m[x])
								return
							}
						}
					}
					var l, want []string
					for i, w := range ws {
						l = append(l, w, "龙"+fmt.Sprint(i))
						if !m[w] {
							want = append(want, w)
						}
						want = append(want, "龙"+fmt.Sprint(i))
					}
					if got := s.Stop(l); !eqStrs(got, want) {
						c.Failf("%s: Stop of %d words gives %d words, want %d", when, len(l), len(got), len(want))
					}
				}
				check("loaded")
				for i, w := range ws {
					if i%3 == 1 {
						s.RemoveStop(w)
						delete(m, w)
					}
				}
				check("every third removed")
				for i, w := range ws {
					if i%2 == 1 {
						s.AddStop(w)
						m[w] = true
					}
				}
				check("every second added")
				c.State(fmt.Sprint(len(ws), len(m)))
			})
		}
	}
	for _, n := range []int{12, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 513, 1000, 1023, 1025, 2048, 4096, 4097, 5000} {
		n := n
		c.Unit(fmt.Sprintf("%d stop words", n), func() {
			var ws []string
			for i := 0; i < n; i++ {
				ws = append(ws, fmt.Sprintf("词%d", i*7)+strings.Repeat("甲", i%5))
			}
			one(fmt.Sprintf("%d stop words", n), ws)
		})
	}
	for _, n := range []int{9, 10, 16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4090, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 40000, 65530} {
		n := n
		c.Unit(fmt.Sprintf("stop words of %d bytes", n), func() {
			one(fmt.Sprintf("stop words of %d bytes", n), []string{"的", strings.Repeat("k", n), "了", strings.Repeat("z", n-1), strings.Repeat("甲", n/3), "ab"})
		})
	}
}

func sortedInts(m map[int]bool) (r []int) {
	for i := range m {
		r = append(r, i)
	}
	sort.Ints(r)
	return
}

func newShallow(b *gse.Segmenter) *gse.Segmenter {
	s := *b
	s.StopWordMap = nil
	return &s
}

// ---- W02 ----

func refSymbol(r rune) bool { return unicode.IsSymbol(r) || unicode.IsSpace(r) || unicode.IsPunct(r) }

func refNoSymbol(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if !refSymbol(r) {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func firstRune(s string) rune { r, _ := utf8.DecodeRuneInString(s); return r }

func runW02(c *Ctx) {
	atoms := richAtoms
	stops := []string{"的", "a", "ab", "世", "，", "世a"}
	mk := func(notStop bool) *gse.Segmenter {
		s := buildSeg(Opts{}, []Ent{{"世a", 8, "n"}, {"的", 2, "u"}, {"世世", 16, "v"}, {"a", 4, "x"}, {"，", 2, "w"}})
		s.LoadStopArr(stops)
		s.NotStop = notStop
		return s
	}
	segs := []*gse.Segmenter{mk(false), mk(true)}
	var ps []*pos.Segmenter
	for _, s := range segs {
		ps = append(ps, wrapPos(s))
	}
	isStop := func(w string) bool {
		for _, s := range stops {
			if s == w {
				return true
			}
		}
		return false
	}
	tags := []string{"n", "v", "", "x"}
	lists := func(ws []string) {
		c.Case(func() string { return "words " + q(ws) }, func() {
			var sp []gse.SegPos
			for i, w := range ws {
				sp = append(sp, gse.SegPos{Text: w, Pos: tags[(i+len(w))%4]})
			}
			in := append([]string(nil), ws...)
			inSp := append([]gse.SegPos(nil), sp...)
			for k, s := range segs {
				var wPunct, wTrim, wSym []string
				var wTrimPos, wPosPunct, wPosPunct2 []gse.SegPos
				for i, w := range ws {
					any := false
					for _, r := range w {
						if !unicode.IsSpace(r) && !unicode.IsPunct(r) {
							any = true
						}
					}
					if any {
						wPunct = append(wPunct, w)
					}
					f := refNoSymbol(w)
					if f != "" {
						wSym = append(wSym, f)
						if k == 1 || !isStop(f) {
							wTrim = append(wTrim, f)
							wTrimPos = append(wTrimPos, sp[i])
						}
					}
					if w != "" && !unicode.IsSpace(firstRune(w)) && !unicode.IsPunct(firstRune(w)) {
						wPosPunct2 = append(wPosPunct2, sp[i])
						if k == 1 || !isStop(w) {
							wPosPunct = append(wPosPunct, sp[i])
						}
					}
				}
				cmp := func(name string, g, w []string) {
					c.Trans(1)
					if !eqStrs(g, w) {
						c.Failf("%s (NotStop=%v) gives %s want %s", name, k == 1, q(g), q(w))
					}
				}
				cmpP := func(name string, g, w []gse.SegPos) {
					c.Trans(1)
					if len(g) != len(w) || len(g) > 0 && !reflect.DeepEqual(g, w) {
						c.Failf("%s (NotStop=%v) gives %s want %s", name, k == 1, q(g), q(w))
					}
				}
				cmp("TrimPunct", s.TrimPunct(ws), wPunct)
				cmp("Trim", s.Trim(ws), wTrim)
				cmp("TrimSymbol", s.TrimSymbol(ws), wSym)
				cmpP("TrimPos", s.TrimPos(sp), wTrimPos)
				cmpP("TrimPosPunct", s.TrimPosPunct(sp), wPosPunct)
				cmpP("pos.Trim", ps[k].Trim(sp), wTrimPos)
				cmpP("pos.TrimPunct", ps[k].TrimPunct(sp), wPosPunct2)
				c.State(strings.Join(wPunct, "\x01"), strings.Join(wTrim, "\x01"), fmt.Sprint(k))
				if len(wTrim) < len(ws) {
					c.Outcome("words dropped")
				} else {
					c.Outcome("all kept")
				}
			}
			for _, ts := range [][]string{nil, {"n"}, {"v", "n"}, {""}, {"q"}, {"n", "n"}, {"x", "", "v", "n"}} {
				var w []gse.SegPos
				for _, x := range sp {
					drop := false
					for _, t := range ts {
						drop = drop || t == x.Pos
					}
					if !drop {
						w = append(w, x)
					}
				}
				for i, g := range [][]gse.SegPos{segs[0].TrimWithPos(sp, ts...), ps[0].TrimWithPos(sp, ts...)} {
					c.Trans(1)
					if len(g) != len(w) || len(g) > 0 && !reflect.DeepEqual(g, w) {
						c.Failf("TrimWithPos (%d) with %q gives %s want %s", i, ts, q(g), q(w))
					}
				}
			}
			if !eqStrs(in, ws) || !reflect.DeepEqual(inSp, sp) {
				c.Failf("an operation changed its input to %s %s", q(ws), q(sp))
			}
		})
	}
	n := 2
	if c.thorough {
		n = 3
	}
	for _, a := range append([]string{""}, atoms...) {
		a := a
		c.Unit("word "+q(a), func() {
			texts(atoms, 0, n-1, func(s string) {
				lists([]string{a + s})
				lists([]string{"x", a + s, "，"})
			})
			if a == "" {
				return
			}
			core := []string{"", "a", "，", " ", "世", "²", "+", "😀", "\xff", "的", "世a", "，a", "a，", "+a", "的，"}
			sequences(core, 0, 2, func(p []string) { lists(append([]string{a}, p...)) })
		})
	}
	// long words: one character of another kind at any place
	c.Unit("long words", func() {
		fill := []string{"，", " ", "世", "+", "a", "😀"}
		odd := []string{"，", "世", "\u3000", "²", "的", "\xff", "€"}
		for _, f := range fill {
			for _, o := range odd {
				for _, n := range pumpLens {
					if n > 300 {
						break
					}
					at := map[int]bool{0: true, n / 2: true, n - 1: true, n: true}
					if n <= 34 {
						for i := 0; i <= n; i++ {
							at[i] = true
						}
					}
					for _, i := range sortedInts(at) {
						w := pump(f, i) + o + pump(f, n-i)
						lists([]string{w})
						if n <= 34 {
							lists([]string{"a", w, "，"})
						}
					}
				}
			}
		}
		// long lists
		for _, n := range pumpLens {
			if n > 300 {
				break
			}
			for _, p := range [][]string{{"，"}, {"世", "，"}, {"a"}, {"世a", "的", " b"}, {"", "世世"}} {
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, p[i%len(p)])
				}
				lists(l)
				lists(append(l, "x"))
			}
		}
	})
	words := []string{"", "a", "，", "的", "世a", "+", "，，", " b"}
	for i := range words {
		i := i
		c.Unit("lists "+q(words[i]), func() {
			lists(nil)
			sequences(words, 0, n+1, func(p []string) { lists(append([]string{words[i]}, p...)) })
		})
	}
	for lo := rune(0); lo <= unicode.MaxRune; lo += 1 << 14 {
		lo := lo
		c.Unit(fmt.Sprintf("code points %U", lo), func() {
			for r := lo; r < lo+1<<14; r++ {
				if r >= 0xD800 && r < 0xE000 {
					continue
				}
				lists([]string{string(r), "，" + string(r)})
			}
		})
	}
	// cutting versions
	cut := func(text string) {
		c.Case(func() string { return "text " + q(text) }, func() {
			hmmCustomOnce(0)
			for k, s := range segs {
				cmp := func(name string, g, w []string) {
					c.Trans(2)
					if !eqStrs(g, w) {
						c.Failf("%s (NotStop=%v) gives %s want %s", name, k == 1, q(g), q(w))
					}
				}
				for h := 0; h < 3; h++ {
					var hm []bool
					if h > 0 {
						hm = []bool{h == 2}
					}
					words := s.Cut(text, hm...)
					cmp("CutTrim", s.CutTrim(text, hm...), s.Trim(words))
					html := s.TrimSymbol(s.Cut(gse.FilterHtml(text), hm...))
					cmp("CutTrimHtml", s.CutTrimHtml(text, hm...), html)
					cmp("CutTrimHtmls", []string{s.CutTrimHtmls(text, hm...)}, []string{strings.Join(html, " ")})
				}
				u := s.TrimSymbol(s.Cut(gse.SplitNums(text)))
				cmp("CutUrl", s.CutUrl(text), u)
				cmp("CutUrls", []string{s.CutUrls(text)}, []string{strings.Join(u, " ")})
				u = s.TrimSymbol(s.Cut(text))
				cmp("CutUrl(num)", s.CutUrl(text, true), u)
				cmp("CutUrls(num)", []string{s.CutUrls(text, true)}, []string{strings.Join(u, " ")})
				for _, search := range []bool{false, true} {
					for _, ts := range [][]string{nil, {"n"}, {"u", "x"}} {
						w := s.TrimPos(s.TrimWithPos(s.Pos(text, search), ts...))
						g := s.PosTrim(text, search, ts...)
						c.Trans(3)
						if len(g) != len(w) || len(g) > 0 && !reflect.DeepEqual(g, w) {
							c.Failf("PosTrim(%v, %q) gives %s want %s", search, ts, q(g), q(w))
						}
						var tw []string
						for _, x := range w {
							tw = append(tw, x.Text)
						}
						cmp("PosTrimArr", s.PosTrimArr(text, search, ts...), tw)
						cmp("PosTrimStr", []string{s.PosTrimStr(text, search, ts...)}, []string{strings.Join(tw, " ")})
					}
				}
			}
		})
	}
	catoms := []string{"世", "a", "的", "，", " ", "7", "<b>", "/", "\xff", "+"}
	for _, a := range catoms {
		a := a
		c.Unit("cut "+q(a), func() { texts(catoms, 0, n, func(s string) { cut(a + s) }) })
	}
}

// ---- W03 ----

// refHTML removes <...> whose inner text ends in a word character, a bar, an
// equals sign or a double quote.
func refHTML(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '<' {
			if j := strings.IndexByte(s[i:], '>'); j > 1 {
				e := s[i+j-1]
				if e == '_' || e == '|' || e == '=' || e == '"' || e < 0x80 && asciiAlnum(rune(e)) {
					i += j + 1
					continue
				}
			}
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}

func refSplitNum(s string) (r []string) {
	start := 0
	for i := 1; i <= len(s); i++ {
		d := func(b byte) bool { return b >= '0' && b <= '9' }
		if i == len(s) || d(s[i]) != d(s[i-1]) {
			r = append(r, s[start:i])
			start = i
		}
	}
	return
}

func runW03(c *Ctx) {
	langs := []string{"Han", "Latin", "Common", "Hiragana", "Arabic"}
	one := func(s string) {
		c.Case(func() string { return "text " + q(s) }, func() {
			var emoji, runes strings.Builder
			var each []string
			jp := false
			for _, r := range s {
				if r <= 0xFFFF {
					emoji.WriteRune(r)
				}
				each = append(each, string(r))
				runes.WriteString(string(r) + " ")
				jp = jp || unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r)
			}
			cmp := func(name, g, w string) {
				c.Trans(1)
				if g != w {
					c.Failf("%s gives %s want %s", name, q(g), q(w))
				}
			}
			cmp("FilterEmoji", gse.FilterEmoji(s), emoji.String())
			cmp("FilterSymbol", gse.FilterSymbol(s), refNoSymbol(s))
			cmp("FilterHtml", gse.FilterHtml(s), refHTML(s))
			cmp("RangeText", gse.RangeText(s), runes.String())
			if g := gse.Range(s); !eqStrs(g, each) {
				c.Failf("Range gives %s want %s", q(g), q(each))
			}
			nums := refSplitNum(s)
			if g := gse.SplitNum(s); !eqStrs(g, nums) {
				c.Failf("SplitNum gives %s want %s", q(g), q(nums))
			}
			cmp("SplitNums", gse.SplitNums(s), strings.Join(nums, " "))
			for _, l := range langs {
				w := ""
				for _, r := range s {
					if unicode.IsLetter(r) || unicode.Is(unicode.Scripts[l], r) {
						w += string(r)
					}
				}
				cmp("FilterLang "+l, gse.FilterLang(s, l), w)
			}
			if g := gse.IsJp(s); g != jp {
				c.Failf("IsJp gives %v", g)
			}
			c.State(emoji.String(), refNoSymbol(s))
			if len(refHTML(s)) != len(s) {
				c.Outcome("markup removed")
			} else {
				c.Outcome("no markup removed")
			}
		})
	}
	n := 2
	if c.thorough {
		n = 3
	}
	for _, a := range append([]string{""}, richAtoms...) {
		a := a
		c.Unit("text "+q(a), func() { texts(richAtoms, 0, n-1, func(s string) { one(a + s) }) })
	}
	for lo := rune(0); lo <= unicode.MaxRune; lo += 1 << 14 {
		lo := lo
		c.Unit(fmt.Sprintf("code points %U", lo), func() {
			for r := lo; r < lo+1<<14; r++ {
				if r >= 0xD800 && r < 0xE000 {
					continue
				}
				one("a" + string(r) + "1")
			}
		})
	}
	html := []string{"<", ">", "a", "b=", "\"", "/", " ", "世", "|", "1", "!"}
	for _, a := range html {
		for _, b := range html {
			p := a + b
			c.Unit("markup "+q(p), func() { texts(html, 0, n+1, func(s string) { one(p + s) }) })
		}
	}
	nums := []string{"1", "90", "a", ".", "世", "٣", "\xff", "\n"}
	for _, a := range nums {
		a := a
		c.Unit("numbers "+q(a), func() { texts(nums, 0, n+2, func(s string) { one(a + s) }) })
	}
	c.Unit("bytes", func() {
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				one(string([]byte{byte(x), byte(y)}))
			}
		}
	})
	for _, p := range []string{"a", "1", "世", "<a>", "<", "a1", "😀", "\xff", "，"} {
		p := p
		c.Unit("pump "+q(p), func() {
			for _, k := range pumpLens {
				one(pump(p, k))
				if k <= 600 {
					one("<b>" + pump(p, k) + ">7")
				}
			}
		})
	}
}
