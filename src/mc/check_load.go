package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"vmc.local/rt"
)

func init() {
	register(&checkDef{id: "T02",
		desc: "every dictionary document of well-formed lines up to a length, in both formats, every line ending, through every loader (string, file, reader with several buffer and chunk sizes, maps, word by word) and every loading option; the dictionary against the listed entries and the segmentation against word by word loading; documents around buffer sizes",
		run:  runT02})
	register(&checkDef{id: "T03",
		desc: "every point of failure of the source of every dictionary document up to a length, every kind of failure and chunking, buffer sizes, both formats; missing files and directories for every loader of files, also of stop words, tags and ranks; every set of default files that are there",
		run:  runT03})
	register(&checkDef{id: "T04",
		desc: "every history of loads, empties, changes and failing loads of one and of two segmenters to a depth against a map; every history of loading into tagger, extracter and ranker; every list of file names",
		run:  runT04})
}

// ---- reference of the formats ----

type docLine struct {
	text, freq, pos string
	n               int // fields
}

func (l docLine) render(sep string) string {
	switch l.n {
	case 0:
		return ""
	case 1:
		return l.text
	case 2:
		return l.text + sep + " " + l.freq
	}
	return l.text + sep + " " + l.freq + sep + " " + l.pos
}

type loadCfg struct {
	sep      string
	noFreq   bool
	min      float64
	textFreq string
	opts     Opts
	logs     bool // SkipLog off, MoreLog on
}

func (f loadCfg) String() string {
	r := fmt.Sprintf("sep=%q LoadNoFreq=%v MinTokenFreq=%v TextFreq=%q %v", f.sep, f.noFreq, f.min, f.textFreq, f.opts)
	if f.logs {
		r += " with all logs"
	}
	return r
}

func (f loadCfg) seg() *gse.Segmenter {
	return &gse.Segmenter{SkipLog: !f.logs, MoreLog: f.logs, NotLoadHMM: true, DictSep: f.sep, LoadNoFreq: f.noFreq, MinTokenFreq: f.min,
		TextFreq: f.textFreq, AlphaNum: f.opts.AlphaNum, Alpha: f.opts.Alpha, Num: f.opts.Num}
}

// entry gives the dictionary entry a line stands for.
func (f loadCfg) entry(l docLine) (Ent, bool) {
	ft := l.freq
	if l.n == 0 {
		return Ent{}, false
	}
	if l.n == 1 {
		if !f.noFreq {
			return Ent{}, false
		}
		ft = f.textFreq
		if ft == "" {
			ft = "2.0"
		}
	}
	min := f.min
	if min == 0 {
		min = 2
	}
	x, err := strconv.ParseFloat(ft, 64)
	if err != nil || x < min {
		return Ent{}, false
	}
	if len([]rune(l.text)) < 2 {
		x = 2
	}
	p := ""
	if l.n > 2 {
		p = l.pos
	}
	return Ent{l.text, x, p}, true
}

func (f loadCfg) dict(lines []docLine) *refDict {
	d := newRefDict()
	for _, l := range lines {
		if e, ok := f.entry(l); ok {
			d.add(e, f.opts, true)
		}
	}
	return d
}

func refEnts(d *refDict) (es []Ent) {
	for _, w := range d.order {
		es = append(es, d.m[w])
	}
	return
}

func docText(lines []docLine, sep, end string, last bool) string {
	var sb strings.Builder
	for i, l := range lines {
		sb.WriteString(l.render(sep))
		if i < len(lines)-1 || last {
			sb.WriteString(end)
		}
	}
	return sb.String()
}

func docMaps(lines []docLine) (r []map[string]string) {
	for _, l := range lines {
		m := map[string]string{}
		if l.n > 0 {
			m["text"] = l.text
		}
		if l.n > 1 {
			m["freq"] = l.freq
		}
		if l.n > 2 {
			m["pos"] = l.pos
		}
		r = append(r, m)
	}
	return
}

type loader struct {
	name string
	file bool
	load func(c *Ctx, s *gse.Segmenter, text string, lines []docLine, f loadCfg) error
}

func readerLoader(name string, size int, wrap func(io.Reader) io.Reader) loader {
	return loader{name, false, func(c *Ctx, s *gse.Segmenter, text string, lines []docLine, f loadCfg) error {
		s.Dict = gse.NewDict()
		s.Load = true
		s.Init()
		err := s.Reader(bufio.NewReaderSize(wrap(strings.NewReader(text)), size))
		s.CalcToken()
		return err
	}}
}

var loaders = []loader{
	{"LoadDictStr", false, func(c *Ctx, s *gse.Segmenter, text string, lines []docLine, f loadCfg) error {
		return s.LoadDictStr(text)
	}},
	{"LoadDictMap", false, func(c *Ctx, s *gse.Segmenter, text string, lines []docLine, f loadCfg) error {
		return s.LoadDictMap(docMaps(lines))
	}},
	readerLoader("Reader", 4096, func(r io.Reader) io.Reader { return r }),
	readerLoader("Reader of single bytes", 16, iotest.OneByteReader),
	readerLoader("Reader with the end in the last chunk", 16, iotest.DataErrReader),
	readerLoader("Reader of halves", 32, iotest.HalfReader),
	{"LoadDict", true, func(c *Ctx, s *gse.Segmenter, text string, lines []docLine, f loadCfg) error {
		p := filepath.Join(c.scratch, "dict.txt")
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
		return s.LoadDict(p)
	}},
	{"Read", true, func(c *Ctx, s *gse.Segmenter, text string, lines []docLine, f loadCfg) error {
		s.Dict = gse.NewDict()
		s.Load = true
		s.Init()
		p := filepath.Join(c.scratch, "dict.txt")
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
		err := s.Read(p)
		s.CalcToken()
		return err
	}},
}

func lineAlphabet(texts, freqs, poss []string) (r []docLine) {
	r = append(r, docLine{})
	for _, t := range texts {
		r = append(r, docLine{text: t, n: 1})
		for _, f := range freqs {
			r = append(r, docLine{text: t, freq: f, n: 2})
			for _, p := range poss {
				r = append(r, docLine{text: t, freq: f, pos: p, n: 3})
			}
		}
	}
	return
}

// sameWords compares the listed words only.
func sameWords(c *Ctx, s *gse.Segmenter, d *refDict) {
	if n := s.Dict.NumTokens(); n != len(d.order) {
		c.Failf("%d words, want %d", n, len(d.order))
		return
	}
	for _, w := range d.order {
		e := d.m[w]
		c.Trans(1)
		if f, p, ok := s.Find(w); f != e.Freq || p != e.Pos || !ok {
			c.Failf("Find(%q) gives %v %q %v want %v", w, f, p, ok, e)
			return
		}
	}
	if got := s.Dict.TotalFreq(); !near(got, d.total, 1e-12) {
		c.Failf("total frequency %v want %v", got, d.total)
	}
}

func runT02(c *Ctx) {
	segTexts := []string{"甲乙丙ab", "甲Ab世甲", "ab cd"}
	probes := probesOf([]string{"甲乙", "ab世", "ab cd", "Ab世"}, []string{"x", " ", "\n", "\r", ","})
	fresh := map[string]string{}
	check := func(ld loader, f loadCfg, text string, lines []docLine, want *refDict, segs bool) {
		s := f.seg()
		err := ld.load(c, s, text, lines, f)
		c.Trans(1)
		if err != nil {
			c.Failf("%s gives error %v", ld.name, err)
			return
		}
		if ld.name == "LoadDictStr" || segs && len(lines) < 2 {
			compareDict(c, s, want, probes, segTexts, false, f.opts)
		} else {
			sameWords(c, s, want)
		}
		if c.curBad {
			c.Failf("loaded by %s", ld.name)
			return
		}
		if segs && len(want.order) > 0 {
			key := fmt.Sprint(f.opts, refEnts(want))
			w, ok := fresh[key]
			if !ok {
				o := buildSeg(f.opts, refEnts(want))
				for _, t := range segTexts {
					w += dump(o.Slice(t)) + dump(o.String(t, true))
				}
				fresh[key] = w
			}
			g := ""
			for _, t := range segTexts {
				g += dump(s.Slice(t)) + dump(s.String(t, true))
			}
			c.Trans(2 * len(segTexts))
			if g != w {
				c.Failf("%s: segmentation %s, word by word loading gives %s", ld.name, g, w)
			}
		}
		c.State(f.String(), fmt.Sprint(refEnts(want)))
	}
	doc := func(f loadCfg, lines []docLine, ends []string, lasts []bool, files bool) {
		want := f.dict(lines)
		for _, end := range ends {
			for _, last := range lasts {
				text := docText(lines, f.sep, end, last)
				c.Case(func() string { return fmt.Sprintf("%v document %q", f, text) }, func() {
					for i, ld := range loaders {
						if ld.file && !files {
							continue
						}
						if ld.name == "LoadDictMap" && (end != "\n" || !last) {
							continue
						}
						check(ld, f, text, lines, want, i == 0 || i == 1 || i == 2 || i == 6)
						if c.curBad {
							return
						}
					}
				})
				if len(want.order) == 0 {
					c.Outcome("nothing loaded")
				} else {
					c.Outcome("words loaded")
				}
			}
		}
	}
	big := lineAlphabet([]string{"甲", "甲乙", "Ab世", "𠀀", "é"}, []string{"8", "1", "2.5", "x", "1e2"}, []string{"n", "vn"})
	if !c.thorough {
		big = lineAlphabet([]string{"甲", "甲乙", "Ab世", "𠀀", "é"}, []string{"8", "1", "2.5", "x"}, []string{"n"})
	}
	small := lineAlphabet([]string{"甲", "甲乙"}, []string{"8", "1"}, []string{"n"})
	var cfgs []loadCfg
	for _, sep := range []string{"", ","} {
		for _, nf := range []bool{false, true} {
			cfgs = append(cfgs,
				loadCfg{sep: sep, noFreq: nf},
				loadCfg{sep: sep, noFreq: nf, min: 5, textFreq: "7", logs: true},
				loadCfg{sep: sep, noFreq: nf, min: 0.5, textFreq: "1.5"},
				loadCfg{sep: sep, noFreq: nf, textFreq: "1"},
				loadCfg{sep: sep, noFreq: nf, opts: Opts{AlphaNum: true}})
		}
	}
	ends := []string{"\n", "\r\n"}
	for _, f := range cfgs {
		f := f
		al := big
		if f.sep != "" {
			al = append(append([]docLine(nil), big...), lineAlphabet([]string{"ab cd"}, []string{"8", "x", ""}, []string{"n"})[1:]...)
		}
		c.Unit(fmt.Sprintf("short %v", f), func() {
			doc(f, nil, ends, []bool{false}, true)
			for _, a := range al {
				doc(f, []docLine{a}, ends, []bool{true, false}, true)
			}
		})
		for i := range al {
			i := i
			c.Unit(fmt.Sprintf("pairs %v %d", f, i), func() {
				for _, b := range al {
					doc(f, []docLine{al[i], b}, ends, []bool{true, false}, false)
				}
			})
		}
		for i := range small {
			i := i
			c.Unit(fmt.Sprintf("triples %v %d", f, i), func() {
				depth := 2
				if c.thorough {
					depth = 3
				}
				product(len(small), depth, func(d []int) {
					ls := []docLine{small[i]}
					for _, k := range d {
						ls = append(ls, small[k])
					}
					doc(f, ls, ends, []bool{true, false}, false)
				})
			})
		}
	}
	// the ways to write a frequency, by themselves and after another line
	for _, f := range cfgs {
		f := f
		c.Unit(fmt.Sprintf("frequencies %v", f), func() {
			for _, ft := range []string{"1e3", "1E3", "2.5e2", "+5", "-5", "007", "5.", ".5e2", "16777217", "9007199254740991", "123456789012", "1e15", "0", "0.0", "3.0000001", "1,5", "5x", "2.0", "1.999999", "2", "4.99", "5", "5.01", "0.5", "0.49"} {
				for _, n := range []int{2, 3} {
					for _, w := range []string{"甲乙", "Ab世"} {
						l := docLine{text: w, freq: ft, pos: "n", n: n}
						doc(f, []docLine{l}, ends, []bool{true, false}, false)
						doc(f, []docLine{{text: "丙丁", freq: "8", pos: "v", n: 3}, l}, ends[:1], []bool{true, false}, false)
						doc(f, []docLine{l, {text: w, freq: "9", pos: "v", n: 3}}, ends[:1], []bool{true}, false)
					}
				}
			}
		})
	}
	// lines around the buffer sizes of readers
	for _, sep := range []string{"", ","} {
		for _, base := range []int{16, 64, 4096, 8192, 65536} {
			sep, base := sep, base
			c.Unit(fmt.Sprintf("offsets %q %d", sep, base), func() {
				f := loadCfg{sep: sep}
				for pad := base - 20; pad < base+6; pad++ {
					if pad < 6 {
						continue
					}
					ls := []docLine{{text: strings.Repeat("b", pad-4-2*len(sep)), freq: "9", pos: "p", n: 3}, {text: "甲乙", freq: "8", pos: "n", n: 3}, {text: "Ab世", freq: "12", n: 2}}
					doc(f, ls, ends, []bool{true, false}, true)
				}
			})
		}
	}
	for _, sep := range []string{"", ","} {
		for _, n := range []int{10, 100, 1000, 3000} {
			sep, n := sep, n
			c.Unit(fmt.Sprintf("long %q %d", sep, n), func() {
				f := loadCfg{sep: sep}
				var ls []docLine
				for i := 0; i < n; i++ {
					l := docLine{text: bigWord(i % (n*3/4 + 1)), freq: strconv.Itoa(1 + i%50), pos: "p" + strconv.Itoa(i%7), n: 2 + i%2}
					if i%97 == 5 {
						l.n = 1
					}
					if i%101 == 7 {
						l = docLine{}
					}
					ls = append(ls, l)
				}
				doc(f, ls, ends, []bool{true, false}, true)
			})
		}
	}
}

// ---- T03 ----

var errSource = errors.New("the source fails")

// badReader gives data[:at] in chunks and then fails for good.
type badReader struct {
	data   string
	at     int
	chunk  int // bytes per read, 0: all
	zeros  bool
	err    error
	joined bool // the error comes with the last data
	pos    int
	tick   int
}

func (r *badReader) Read(p []byte) (int, error) {
	rt.P()
	if r.pos >= r.at {
		if r.err == nil {
			return 0, nil
		}
		return 0, r.err
	}
	r.tick++
	if r.zeros && r.tick%2 == 0 {
		return 0, nil
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if n > r.at-r.pos {
		n = r.at - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.joined && r.pos == r.at {
		return n, r.err
	}
	return n, nil
}

func runT03(c *Ctx) {
	type kind struct {
		name   string
		err    error
		joined bool
	}
	kinds := []kind{
		{"error", errSource, false}, {"error with the last data", errSource, true},
		{"unexpected end", io.ErrUnexpectedEOF, false}, {"unexpected end with the last data", io.ErrUnexpectedEOF, true},
		{"closed", os.ErrClosed, false}, {"empty reads for ever", nil, false},
	}
	al := []docLine{{}, {text: "甲乙", n: 1}, {text: "甲乙", freq: "8", n: 2}, {text: "ab世", freq: "12", pos: "n", n: 3}, {text: "乙", freq: "16", pos: "v", n: 3}, {text: "丙甲", freq: "x", pos: "v", n: 3}}
	pick := func(at, n int) bool { return true }
	one := func(sep string, lines []docLine, end string) {
		for _, nf := range []bool{false, true} {
			f := loadCfg{sep: sep, noFreq: nf, logs: nf}
			text := docText(lines, sep, end, true)
			for at := 0; at <= len(text); at++ {
				if !pick(at, len(text)) {
					continue
				}
				// lines read completely
				full := 0
				for p, k := 0, 0; k < len(lines); k++ {
					p += len(lines[k].render(sep)) + len(end)
					if p <= at {
						full = k + 1
					}
				}
				all := f.dict(lines[:full])
				most := f.dict(lines[:max(full-1, 0)])
				for _, k := range kinds {
					for _, ch := range []struct {
						chunk, buf int
						zeros      bool
					}{{0, 4096, false}, {1, 16, false}, {3, 16, false}, {5, 64, true}, {0, 16, true}} {
						at, k, ch := at, k, ch
						if len(lines) > 2 && !c.thorough && (ch.chunk == 3 || ch.zeros) {
							continue
						}
						if len(lines) >= 500 && ch.chunk == 1 {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("%v document %q fails (%s) after %d bytes, chunks of %d, buffer %d, empty reads %v", f, text, k.name, at, ch.chunk, ch.buf, ch.zeros)
						}, func() {
							s := f.seg()
							s.Dict = gse.NewDict()
							s.Load = true
							s.Init()
							err := s.Reader(bufio.NewReaderSize(&badReader{data: text, at: at, chunk: ch.chunk, zeros: ch.zeros, err: k.err, joined: k.joined}, ch.buf))
							c.Trans(1)
							if err == nil {
								c.Failf("the failure is not reported")
							}
							for i := range s.Dict.Tokens {
								t := &s.Dict.Tokens[i]
								e, ok := all.m[t.Text()]
								if !ok || e.Freq != t.Freq() || e.Pos != t.Pos() {
									c.Failf("word %q %v %q does not come from a line read completely", t.Text(), t.Freq(), t.Pos())
								}
							}
							for _, w := range most.order {
								fr, p, ok := s.Find(w)
								if e := most.m[w]; !ok || fr != e.Freq || p != e.Pos {
									c.Failf("word %q of a line well before the failure gives %v %q %v", w, fr, p, ok)
								}
							}
							c.State(sep, fmt.Sprint(len(s.Dict.Tokens)), fmt.Sprint(all.order))
						})
					}
				}
				if full == len(lines) {
					c.Outcome("fails after the last line")
				} else {
					c.Outcome("fails earlier")
				}
			}
		}
	}
	for _, sep := range []string{"", ","} {
		for _, end := range []string{"\n", "\r\n"} {
			for i := range al {
				sep, end, i := sep, end, i
				c.Unit(fmt.Sprintf("sep %q end %q first %d", sep, end, i), func() {
					one(sep, []docLine{al[i]}, end)
					for j := range al {
						one(sep, []docLine{al[i], al[j]}, end)
						if end == "\n" && (c.thorough || i != j) {
							for k := range al {
								one(sep, []docLine{al[i], al[j], al[k]}, end)
							}
						}
					}
				})
			}
		}
	}
	// documents of many lines, failing anywhere or around the sizes of buffers
	for _, n := range []int{12, 40, 500, 1200, 9000} {
		for _, sep := range []string{"", ","} {
			n, sep := n, sep
			if n == 9000 && sep == "" && !c.thorough {
				continue
			}
			c.Unit(fmt.Sprintf("%d lines sep %q", n, sep), func() {
				var ls []docLine
				for i := 0; i < n; i++ {
					l := docLine{text: bigWord(i), freq: strconv.Itoa(2 + i%50), pos: "p" + strconv.Itoa(i%7), n: 2 + i%2}
					if i%37 == 5 {
						l.n = 1
					}
					ls = append(ls, l)
				}
				if n >= 500 {
					old := pick
					defer func() { pick = old }()
					pick = func(at, size int) bool {
						for _, b := range []int{1024, 4096, 8192, 65536} {
							if d := (at + 3) % b; at > b-9 && d < 6 && (n == 500 || at/b < 2 || b == 65536) {
								return true
							}
						}
						return at > size-4
					}
				}
				end := "\n"
				if n == 40 {
					end = "\r\n"
				}
				one(sep, ls, end)
			})
		}
	}
	// files
	c.Unit("files", func() {
		dir := c.scratch
		good := filepath.Join(dir, "good.txt")
		stop := filepath.Join(dir, "stop.txt")
		long := filepath.Join(dir, "long.txt")
		os.WriteFile(good, []byte("甲乙 8 n\n乙丙 4 v\n"), 0o644)
		os.WriteFile(stop, []byte("的\n了\n"), 0o644)
		os.WriteFile(long, []byte("的\n"+strings.Repeat("字", 30000)+"\n了\n"), 0o644)
		missing := filepath.Join(dir, "missing.txt")
		isdir := filepath.Join(dir, "isdir")
		os.Mkdir(isdir, 0o755)
		below := filepath.Join(good, "x.txt")
		for _, sep := range []string{"", ","} {
			for _, bad := range []string{missing, isdir, below} {
				lists := []string{bad, good + "," + bad, good + ", " + bad, bad + ", " + good, bad + "," + good, good + "," + bad + "," + good}
				for _, l := range lists {
					l, sep := l, sep
					c.Case(func() string { return fmt.Sprintf("LoadDict(%q) DictSep %q", l, sep) }, func() {
						s := loadCfg{sep: sep}.seg()
						c.Trans(2)
						if err := s.LoadDict(l); err == nil {
							c.Failf("LoadDict(%q) reports no error", l)
						}
						if _, err := gse.New(l); err == nil {
							c.Failf("New(%q) reports no error", l)
						}
					})
				}
				bad := bad
				c.Case(func() string { return "Read " + bad }, func() {
					s := newSeg(Opts{})
					s.DictSep = sep
					if err := s.Read(bad); err == nil {
						c.Failf("Read reports no error")
					}
				})
			}
		}
		for _, bad := range []string{missing, isdir, below, long} {
			for _, l := range []string{bad, stop + ", " + bad, bad + ", " + stop} {
				l := l
				c.Case(func() string { return fmt.Sprintf("LoadStop(%q)", l) }, func() {
					s := newSeg(Opts{})
					c.Trans(1)
					err := s.LoadStop(l)
					if bad == long {
						// a line of any length: either it is loaded or the failure is reported
						if err == nil && !(s.IsStop(strings.Repeat("字", 30000)) && s.IsStop("了")) {
							c.Failf("LoadStop reports no error and has not loaded everything")
						}
						return
					}
					if err == nil {
						c.Failf("LoadStop reports no error")
					}
				})
			}
		}
		// the loaders of the other parts
		parts := map[string]func(l ...string) error{
			"StopWord.LoadDict":            func(l ...string) error { return idf.NewStopWord().LoadDict(l...) },
			"zero StopWord.LoadDict":       func(l ...string) error { return new(idf.StopWord).LoadDict(l...) },
			"TagExtracter.LoadDict":        func(l ...string) error { return new(idf.TagExtracter).LoadDict(l...) },
			"TagExtracter.LoadIdf":         func(l ...string) error { return new(idf.TagExtracter).LoadIdf(l...) },
			"TagExtracter.LoadStopWords":   func(l ...string) error { return new(idf.TagExtracter).LoadStopWords(l...) },
			"Idf.LoadDict":                 func(l ...string) error { return idf.NewIdf().LoadDict(l...) },
			"TextRanker.LoadDict":          func(l ...string) error { return new(idf.TextRanker).LoadDict(l...) },
			"pos.Segmenter.LoadDict":       func(l ...string) error { return new(pos.Segmenter).LoadDict(l...) },
			"Segmenter.LoadStop with logs": func(l ...string) error { return new(gse.Segmenter).LoadStop(l...) },
		}
		for name, load := range parts {
			name, load := name, load
			ok := good
			if strings.Contains(name, "Stop") {
				ok = stop
			}
			c.Case(func() string { return fmt.Sprintf("%s(%q)", name, ok) }, func() {
				c.Trans(1)
				if err := load(ok); err != nil {
					c.Failf("error %v", err)
				}
			})
			for _, bad := range []string{missing, isdir, below} {
				for _, l := range []string{bad, ok + ", " + bad, bad + ", " + ok} {
					l := l
					c.Case(func() string { return fmt.Sprintf("%s(%q)", name, l) }, func() {
						c.Trans(1)
						if err := load(l); err == nil {
							c.Failf("no error")
						}
					})
				}
			}
		}
		// what is loaded without a name: every set of files that are there
		zh := filepath.Join(dir, "data", "dict", "zh")
		jp := filepath.Join(dir, "data", "dict", "jp")
		os.MkdirAll(zh, 0o755)
		os.MkdirAll(jp, 0o755)
		files := []string{filepath.Join(zh, "s_1.txt"), filepath.Join(zh, "t_1.txt"), filepath.Join(jp, "dict.txt"), filepath.Join(zh, "stop_word.txt"), filepath.Join(zh, "stop_tokens.txt")}
		type call struct {
			name string
			need []int
			load func(s *gse.Segmenter) error
		}
		calls := []call{
			{"LoadDict()", []int{0, 1}, func(s *gse.Segmenter) error { return s.LoadDict() }},
			{"LoadDict(zh)", []int{0, 1}, func(s *gse.Segmenter) error { return s.LoadDict("zh") }},
			{"LoadDict(zh_s)", []int{0}, func(s *gse.Segmenter) error { return s.LoadDict("zh_s") }},
			{"LoadDict(zh_t)", []int{1}, func(s *gse.Segmenter) error { return s.LoadDict("zh_t") }},
			{"LoadDict(jp)", []int{2}, func(s *gse.Segmenter) error { return s.LoadDict("jp") }},
			{"LoadDict(ja, zh_t)", []int{1, 2}, func(s *gse.Segmenter) error { return s.LoadDict("ja, zh_t") }},
			{"LoadStop()", []int{3}, func(s *gse.Segmenter) error { return s.LoadStop() }},
			{"LoadStop(zh)", []int{4}, func(s *gse.Segmenter) error { return s.LoadStop("zh") }},
		}
		for set := 0; set < 1<<len(files); set++ {
			for asDir := 0; asDir < 2; asDir++ {
				set, asDir := set, asDir
				for i, f := range files {
					os.RemoveAll(f)
					switch {
					case set>>i&1 == 1:
						os.WriteFile(f, []byte(fmt.Sprintf("甲乙%d 8 n\n", i)), 0o644)
					case asDir == 1:
						os.Mkdir(f, 0o755)
					}
				}
				for _, k := range calls {
					for _, logs := range []bool{false, true} {
						k, logs := k, logs
						c.Case(func() string {
							return fmt.Sprintf("%s with files %05b, directories for the others %v, logs %v", k.name, set, asDir == 1, logs)
						}, func() {
							s := loadCfg{logs: logs}.seg()
							s.DictPath = filepath.Join(dir, "x")
							err := k.load(s)
							c.Trans(1)
							want := true
							for _, n := range k.need {
								want = want && set>>n&1 == 1
							}
							if want != (err == nil) {
								c.Failf("error %v", err)
								return
							}
							for _, n := range k.need {
								if w := fmt.Sprintf("甲乙%d", n); want {
									if _, _, ok := s.Find(w); n < 3 && !ok || n >= 3 && !s.IsStop(w+" 8 n") {
										c.Failf("%q is not in", w)
									}
								}
							}
							c.State(k.name, fmt.Sprint(set))
						})
					}
				}
			}
		}
		for _, f := range files {
			os.RemoveAll(f)
		}
	})
}

// ---- T04 ----

type lifeOp struct {
	name string
	do   func(s *gse.Segmenter) error
	ents []Ent
	kind int // 0 load, 1 empty, 2 fails, 3 add word, 4 remove word, 5 read without calculating
}

func lifeOps(dir string) []lifeOp {
	put := func(name, text string) string {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
		return p
	}
	eA := []Ent{{"甲乙", 8, "a"}, {"乙丙", 64, "a"}, {"甲", 2, "a"}}
	eB := []Ent{{"甲乙", 256, "b"}, {"甲乙丙", 16, "b"}}
	eS := []Ent{{"甲乙", 32, "s"}, {"乙", 2, "s"}}
	eT := []Ent{{"丙甲", 128, "t"}, {"甲乙", 4, "t"}}
	eJ := []Ent{{"カナ", 16, "j"}, {"丙", 2, "j"}}
	eL := []Ent{{"甲丙", 4, "l"}, {"乙丙", 8, "l"}}
	eM := []Ent{{"丙乙", 16, "m"}, {"甲乙", 2, "m"}, {"丙", 2, "m"}}
	str := func(es []Ent) string {
		r := ""
		for _, e := range es {
			r += fmt.Sprintf("%s %v %s\n", e.Text, e.Freq, e.Pos)
		}
		return r
	}
	fa, fb := put("a.txt", str(eA)), put("b.txt", str(eB))
	put("data/dict/zh/s_1.txt", str(eS))
	put("data/dict/zh/t_1.txt", str(eT))
	put("data/dict/jp/dict.txt", str(eJ))
	cat := func(l ...[]Ent) (r []Ent) {
		for _, x := range l {
			r = append(r, x...)
		}
		return
	}
	var ms []map[string]string
	for _, e := range eM {
		ms = append(ms, map[string]string{"text": e.Text, "freq": fmt.Sprint(e.Freq), "pos": e.Pos})
	}
	return []lifeOp{
		{"LoadDictStr", func(s *gse.Segmenter) error { return s.LoadDictStr(str(eL)) }, eL, 0},
		{"LoadDictMap", func(s *gse.Segmenter) error { return s.LoadDictMap(ms) }, eM, 0},
		{"LoadDict(a)", func(s *gse.Segmenter) error { return s.LoadDict(fa) }, eA, 0},
		{"LoadDict(b)", func(s *gse.Segmenter) error { return s.LoadDict(fb) }, eB, 0},
		{"Empty", func(s *gse.Segmenter) error { return s.Empty() }, nil, 1},
		{"AddToken", func(s *gse.Segmenter) error { return s.AddToken("乙甲", 32, "w") }, []Ent{{"乙甲", 32, "w"}}, 3},
		{"RemoveToken", func(s *gse.Segmenter) error { return s.RemoveToken("甲乙") }, nil, 4},
		{"LoadDict(missing)", func(s *gse.Segmenter) error { return s.LoadDict(filepath.Join(dir, "none.txt")) }, nil, 2},
		{"LoadDict(a,b)", func(s *gse.Segmenter) error { return s.LoadDict(fa + "," + fb) }, cat(eA, eB), 0},
		{"LoadDict(b, a)", func(s *gse.Segmenter) error { return s.LoadDict(fb + ", " + fa) }, cat(eB, eA), 0},
		{"LoadDict(zh_s)", func(s *gse.Segmenter) error { return s.LoadDict("zh_s") }, eS, 0},
		{"LoadDict(zh_t, a)", func(s *gse.Segmenter) error { return s.LoadDict("zh_t, " + fa) }, cat(eT, eA), 0},
		{"LoadDict(jp)", func(s *gse.Segmenter) error { return s.LoadDict("jp") }, eJ, 0},
		{"LoadDict(ja)", func(s *gse.Segmenter) error { return s.LoadDict("ja") }, eJ, 0},
		{"LoadDict()", func(s *gse.Segmenter) error { return s.LoadDict() }, cat(eS, eT), 0},
		{"Read(a)", func(s *gse.Segmenter) error { return s.Read(fa) }, eA, 5},
		{"Reader(l)", func(s *gse.Segmenter) error { return s.Reader(bufio.NewReader(strings.NewReader(str(eL)))) }, eL, 5},
	}
}

func runT04(c *Ctx) {
	ops := lifeOps(c.scratch)
	texts := []string{"甲乙丙甲乙", "乙丙乙甲丙甲丙", "カナ甲"}
	probes := probesOf([]string{"甲乙丙", "乙丙", "丙甲", "丙乙", "甲丙", "乙甲", "カナ"}, nil)
	fresh := map[string]string{}
	outOf := func(s *gse.Segmenter) string {
		r := ""
		for _, t := range texts {
			r += dump(s.Slice(t)) + s.String(t, true) + dump(s.Cut(t, false)) + dump(s.CutAll(t))
		}
		return r
	}
	type st struct {
		s *gse.Segmenter
		d *refDict
	}
	// of each dictionary: its paths are up to date, a word was removed
	type flags struct{ calc, removed bool }
	fl := map[*refDict]flags{}
	newSt := func() *st {
		return &st{s: &gse.Segmenter{SkipLog: true, NotLoadHMM: true, DictPath: filepath.Join(c.scratch, "x")}}
	}
	apply := func(x *st, o lifeOp) bool {
		c.Trans(1)
		err := o.do(x.s)
		switch o.kind {
		case 0:
			if x.d == nil {
				x.d = newRefDict()
			}
			for _, e := range o.ents {
				x.d.add(e, Opts{}, true)
			}
			fl[x.d] = flags{true, fl[x.d].removed}
		case 1:
			x.d = nil
		case 2:
			if err == nil {
				c.Failf("%s gives no error", o.name)
			}
			if x.d == nil {
				x.d = newRefDict()
			}
			return true
		case 3, 5:
			if o.kind == 5 && err != nil {
				c.Failf("%s gives error %v", o.name, err)
			}
			if x.d == nil {
				x.d = newRefDict()
			}
			for _, e := range o.ents {
				x.d.add(e, Opts{}, true)
			}
			fl[x.d] = flags{false, fl[x.d].removed}
			return true
		case 4:
			if x.d == nil {
				if err == nil {
					c.Failf("%s without a dictionary gives no error", o.name)
				}
				c.Outcome("removed without a dictionary")
				return true
			}
			x.d.remove("甲乙", Opts{}, true)
			fl[x.d] = flags{false, true}
			return true
		}
		if err != nil {
			c.Failf("%s gives error %v", o.name, err)
		}
		return true
	}
	compare := func(x *st) {
		if x.d == nil {
			for _, t := range texts {
				if n := len(x.s.Segment([]byte(t))); n != 0 {
					c.Failf("without a dictionary Segment(%q) gives %d segments", t, n)
				}
				if n := len(x.s.Slice(t, true)) + len(x.s.Cut(t)) + len(x.s.Pos(t)); n != 0 {
					c.Failf("without a dictionary there are %d words in %q", n, t)
				}
				for _, l := range [][]string{x.s.Cut(t, false), x.s.Cut(t, true), x.s.CutDAG(t), x.s.CutDAGNoHMM(t)} {
					if g := strings.Join(l, ""); g != t {
						c.Failf("without a dictionary %q is cut into %q", t, l)
					}
				}
				x.s.CutAll(t)
				x.s.CalcToken()
			}
			for _, w := range probes {
				if f, p, ok := x.s.Find(w); ok || f != 0 || p != "" {
					c.Failf("without a dictionary Find(%q) gives %v %q %v", w, f, p, ok)
				}
				if _, _, err := x.s.Value(w); err == nil {
					c.Failf("without a dictionary Value(%q) gives no error", w)
				}
			}
			return
		}
		compareDict(c, x.s, x.d, probes, texts, fl[x.d].removed, Opts{})
		if c.curBad || len(x.d.order) == 0 {
			return
		}
		if !fl[x.d].calc {
			x.s.CalcToken()
		}
		var es []Ent
		for _, w := range sortedStrs(x.d.order) {
			es = append(es, x.d.m[w])
		}
		key := fmt.Sprint(es)
		w, ok := fresh[key]
		if !ok {
			w = outOf(buildSeg(Opts{}, es))
			fresh[key] = w
		}
		if g := outOf(x.s); g != w {
			c.Failf("segmentation %s, a fresh dictionary of %v gives %s", g, es, w)
		}
		c.State(key)
	}
	run := func(tag string, ops []lifeOp, depth int) {
		for a := range ops {
			for b := range ops {
				a, b := a, b
				c.Unit(fmt.Sprintf("%s %s %s", tag, ops[a].name, ops[b].name), func() {
					for n := 0; n <= depth-2; n++ {
						product(len(ops), n, func(d []int) {
							seq := append([]int{a, b}, d...)
							var names []string
							for _, k := range seq {
								names = append(names, ops[k].name)
							}
							c.Case(func() string { return strings.Join(names, ", ") }, func() {
								x := newSt()
								fl = map[*refDict]flags{}
								for i, k := range seq {
									if !apply(x, ops[k]) {
										return
									}
									if i == 0 && n == 0 {
										compare(x)
									}
								}
								compare(x)
								if x.d == nil {
									c.Outcome("ends empty")
								} else {
									c.Outcome("ends with a dictionary")
								}
							})
						})
						if c.stopped {
							return
						}
					}
				})
			}
		}
	}
	depth := 5
	if c.thorough {
		depth = 6
	}
	run("core", ops[:8], depth+depth/6)
	run("files", ops, depth-1)
	// two segmenters: operations on one leave the other alone, a copy of a
	// segmenter shares the dictionary it had
	two := ops[:8]
	n2 := 2*len(two) + 2
	name2 := func(k int) string {
		if k >= 2*len(two) {
			return fmt.Sprintf("%d: copy of the other", k%2)
		}
		return fmt.Sprintf("%d: %s", k%2, two[k/2].name)
	}
	for a := 0; a < n2; a++ {
		a := a
		c.Unit("two, first "+name2(a), func() {
			product(n2, depth-2, func(d []int) {
				seq := append([]int{a}, d...)
				c.Case(func() string {
					var names []string
					for _, k := range seq {
						names = append(names, name2(k))
					}
					return "two segmenters " + strings.Join(names, ", ")
				}, func() {
					fl = map[*refDict]flags{}
					xs := []*st{newSt(), newSt()}
					// give both a start
					apply(xs[0], ops[2])
					apply(xs[1], ops[3])
					for _, k := range seq {
						if k >= 2*len(two) {
							cp := *xs[1-k%2].s
							xs[k%2] = &st{&cp, xs[1-k%2].d}
							continue
						}
						apply(xs[k%2], two[k/2])
					}
					compare(xs[0])
					compare(xs[1])
				})
			})
		})
	}
	// New
	c.Unit("new", func() {
		fa := filepath.Join(c.scratch, "a.txt")
		fb := filepath.Join(c.scratch, "b.txt")
		for _, args := range [][]string{{fa}, {fa, "alpha"}, {fa + "," + fb, "alpha"}, {fb + ", " + fa}, {fa, "other"}} {
			args := args
			c.Case(func() string { return fmt.Sprint("New", args) }, func() {
				s, err := gse.New(args...)
				c.Trans(1)
				if err != nil {
					c.Failf("error %v", err)
				}
				al := len(args) > 1 && args[1] == "alpha"
				if s.AlphaNum != al {
					c.Failf("AlphaNum %v", s.AlphaNum)
				}
				d := newRefDict()
				var es []Ent
				switch {
				case args[0] == fa:
					es = ops[2].ents
				case strings.HasPrefix(args[0], fa):
					es = ops[8].ents
				default:
					es = ops[9].ents
				}
				for _, e := range es {
					d.add(e, Opts{AlphaNum: al}, true)
				}
				compareDict(c, &s, d, probes, texts, false, Opts{AlphaNum: al})
				if g, w := outOf(&s), outOf(buildSeg(Opts{AlphaNum: al}, es)); g != w {
					c.Failf("segmentation %s want %s", g, w)
				}
				if got := s.Slice("ab1"); len(got) != map[bool]int{true: 3, false: 1}[al] {
					c.Failf("Slice(ab1) gives %q", got)
				}
			})
		}
	})
	// embedded dictionaries, set to small ones
	get := func(n string) *string {
		p, _ := rt.Lookup("github.com/go-ego/gse", n).(*string)
		return p
	}
	zs, zt, ja := get("zhS"), get("zhT"), get("ja")
	c.Unit("embedded", func() {
		if zs == nil || zt == nil || ja == nil {
			c.Outcome("no embedded variables found")
			return
		}
		os_, ot, oj := *zs, *zt, *ja
		defer func() { *zs, *zt, *ja = os_, ot, oj }()
		*zs, *zt, *ja = "甲乙 32 s\n乙 2 s\n", "丙甲 128 t\n甲乙 4 t\n", "カナ 16 j\n丙 2 j\n"
		eS := ops[10].ents
		eT := []Ent{{"丙甲", 128, "t"}, {"甲乙", 4, "t"}}
		eJ := ops[12].ents
		mine := "丁乙 8 m\n丙甲 16 m\n"
		eMine := []Ent{{"丁乙", 8, "m"}, {"丙甲", 16, "m"}}
		cat := func(l ...[]Ent) (r []Ent) {
			for _, x := range l {
				r = append(r, x...)
			}
			return
		}
		cases := []struct {
			args []string
			es   []Ent
			al   bool
		}{
			{nil, cat(eS, eT), false}, {[]string{"zh"}, cat(eS, eT), false}, {[]string{"zh_s"}, eS, false}, {[]string{"zh_t"}, eT, false},
			{[]string{"ja"}, eJ, false}, {[]string{mine}, eMine, false}, {[]string{"zh, " + mine}, cat(eS, eT, eMine), false},
			{[]string{"zh_s, " + mine}, cat(eS, eMine), false}, {[]string{"zh_t, " + mine}, cat(eT, eMine), false},
			{[]string{"zh, 丁丙 4 x, 丁甲 32 y"}, cat(eS, eT, []Ent{{"丁丙", 4, "x"}, {"丁甲", 32, "y"}}), false},
			{[]string{"丁丙 4 x, 丁甲 32 y"}, []Ent{{"丁丙", 4, "x"}, {"丁甲", 32, "y"}}, false},
			{[]string{"zh", "alpha"}, cat(eS, eT), true}, {[]string{"ja", "en"}, eJ, true}, {[]string{mine, "alpha"}, eMine, true}, {[]string{"zh_s", "x"}, eS, false},
		}
		// every list of a few dictionaries
		lists := []struct {
			text string
			es   []Ent
		}{
			{"丁丙 4 x", []Ent{{"丁丙", 4, "x"}}},
			{"丁丙 4 x\n丁甲 32 y", []Ent{{"丁丙", 4, "x"}, {"丁甲", 32, "y"}}},
			{"丁甲 8 w\n", []Ent{{"丁甲", 8, "w"}}},
			{"甲乙 16 v\n丁 2 z\n", []Ent{{"甲乙", 16, "v"}, {"丁", 2, "z"}}},
			{"", nil},
		}
		firsts := []struct {
			text string
			es   []Ent
		}{{"", nil}, {"zh, ", cat(eS, eT)}, {"zh_s, ", eS}, {"zh_t, ", eT}}
		for _, f := range firsts {
			for n := 1; n <= 3; n++ {
				product(len(lists), n, func(dg []int) {
					arg := f.text
					es := cat(f.es)
					for i, k := range dg {
						if i > 0 {
							arg += ", "
						}
						arg += lists[k].text
						es = cat(es, lists[k].es)
					}
					if len(es) == 0 || arg == "" {
						return
					}
					k := struct {
						args []string
						es   []Ent
						al   bool
					}{[]string{arg}, es, false}
					cases = append(cases, k)
					if len(dg) == 2 {
						k.args, k.al = []string{arg, "alpha"}, true
						cases = append(cases, k)
					}
				})
			}
		}
		for _, k := range cases {
			k := k
			for _, pre := range []bool{false, true} {
				pre := pre
				c.Case(func() string { return fmt.Sprintf("embedded %q, after other words: %v", k.args, pre) }, func() {
					var s gse.Segmenter
					var err error
					d := newRefDict()
					if pre {
						s = *newSeg(Opts{})
						s.LoadDictStr("甲乙 1024 first\n丁 3 f\n")
						d.add(Ent{"甲乙", 1024, "first"}, Opts{}, true)
						d.add(Ent{"丁", 2, "f"}, Opts{}, true)
						err = s.LoadDictEmbed(k.args...)
					} else {
						s, err = gse.NewEmbed(k.args...)
						if s.AlphaNum != k.al {
							c.Failf("AlphaNum %v", s.AlphaNum)
						}
					}
					c.Trans(1)
					if err != nil {
						c.Failf("error %v", err)
					}
					for _, e := range k.es {
						d.add(e, Opts{}, true)
					}
					compareDict(c, &s, d, append(probes, "丁乙", "丁"), texts, false, Opts{})
					if g, w := outOf(&s), outOf(buildSeg(Opts{}, refEnts(d))); g != w {
						c.Failf("segmentation %s want %s", g, w)
					}
				})
			}
		}
	})
	// the loaders of the tagger, the extracter and the ranker: every history
	// of loading against one segmenter with the words loaded
	loads := []lifeOp{ops[2], ops[3], ops[8], ops[9], ops[7]}
	args := []string{filepath.Join(c.scratch, "a.txt"), filepath.Join(c.scratch, "b.txt"), filepath.Join(c.scratch, "a.txt") + "," + filepath.Join(c.scratch, "b.txt"), filepath.Join(c.scratch, "b.txt") + ", " + filepath.Join(c.scratch, "a.txt"), filepath.Join(c.scratch, "none.txt")}
	for a := range loads {
		a := a
		c.Unit("parts "+loads[a].name, func() {
			for n := 0; n < 3; n++ {
				product(len(loads), n, func(dg []int) {
					seq := append([]int{a}, dg...)
					c.Case(func() string {
						var l []string
						for _, k := range seq {
							l = append(l, loads[k].name)
						}
						return "tagger, extracter and ranker: " + strings.Join(l, ", ")
					}, func() {
						d := newRefDict()
						var p, pw pos.Segmenter
						var t, tw idf.TagExtracter
						var r, rw idf.TextRanker
						for _, k := range seq {
							for i, err := range []error{p.LoadDict(args[k]), t.LoadDict(args[k]), r.LoadDict(args[k])} {
								c.Trans(1)
								if (err == nil) != (loads[k].kind == 0) {
									c.Failf("%s of part %d: error %v", loads[k].name, i, err)
								}
							}
							for _, e := range loads[k].ents {
								d.add(e, Opts{}, true)
							}
						}
						one := buildSeg(Opts{}, refEnts(d))
						pw.WithGse(*one)
						tw.WithGse(*one)
						rw.WithGse(*one)
						const w = "甲乙 3 n\n乙丙 5 n\n甲乙丙 7 n\n"
						t.LoadIdfStr(w)
						tw.LoadIdfStr(w)
						for _, text := range append(texts, "甲乙丙 ab甲乙", "甲，乙丙") {
							for _, hmm := range []bool{false, true} {
								if g, w := dump(p.Cut(text, hmm)), dump(pw.Cut(text, hmm)); g != w {
									c.Failf("tags of %q, HMM %v: %s, with the segmenter %s", text, hmm, g, w)
								}
							}
							if g, w := dump(t.ExtractTags(text, 9)), dump(tw.ExtractTags(text, 9)); g != w {
								c.Failf("tags extracted of %q: %s, with the segmenter %s", text, g, w)
							}
							al := []string{"a", "b", "x"}
							if g, w := dump(r.TextRankWithPOS(text, 9, al)), dump(rw.TextRankWithPOS(text, 9, al)); g != w {
								c.Failf("ranks of %q: %s, with the segmenter %s", text, g, w)
							}
							c.Trans(8)
						}
						c.State(fmt.Sprint(refEnts(d)))
					})
				})
			}
		})
	}
	// many files at once
	c.Unit("many files", func() {
		for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 32, 33, 64, 65, 100, 128} {
			for _, sep := range []string{",", ", "} {
				n, sep := n, sep
				c.Case(func() string { return fmt.Sprintf("%d files separated by %q", n, sep) }, func() {
					d := newRefDict()
					var l []string
					for i := 0; i < n; i++ {
						p := filepath.Join(c.scratch, fmt.Sprintf("many%d.txt", i))
						a, b := Ent{bigWord(i * 5), float64(3 + i), "a"}, Ent{"甲乙", float64(9 + i), fmt.Sprint("p", i)}
						os.WriteFile(p, []byte(fmt.Sprintf("%s %v %s\n%s %v %s\n", b.Text, b.Freq, b.Pos, a.Text, a.Freq, a.Pos)), 0o644)
						d.add(b, Opts{}, true)
						d.add(a, Opts{}, true)
						l = append(l, p)
					}
					s := newSt().s
					c.Trans(2)
					if err := s.LoadDict(strings.Join(l, sep)); err != nil {
						c.Failf("error %v", err)
					}
					sameWords(c, s, d)
					s2, err := gse.New(strings.Join(l, sep))
					if err != nil {
						c.Failf("New: error %v", err)
					}
					sameWords(c, &s2, d)
					c.State(fmt.Sprint(n))
				})
			}
		}
	})
	// lists of names
	names := []string{"zh", "zh_s", "zh_t", "ja", "jp", "en", "ko", "ti", "x.txt", "d/甲.txt", ""}
	// names that are nearly those of languages
	near := []string{"zh.txt", "zh_user.txt", "zhs", "zh_s.txt", "./zh_t", "dir/zh", "japan.txt", "jp/x", "jap", "korea.txt", "ko/x", "kok", "title.txt", "tin", "english.txt", "en_US", "en.txt", "EN", "ZH", "Ja", "zh-s", "zh_st", "e", "z"}
	for k, names := range [][]string{names, near, append([]string{"zh", "ja", "en"}, near[:8]...), append([]string{"ko", "zh_s", ""}, near[8:]...)} {
		names, n := names, 3
		if k == 1 {
			n = 2
		}
		c.Unit(fmt.Sprintf("names %d", k), func() {
			sequences(names, 1, n, func(p []string) {
				for _, sep := range []string{",", ", "} {
					if len(p) == 1 && sep == ", " {
						continue
					}
					arg := strings.Join(p, sep)
					c.Case(func() string { return fmt.Sprintf("DictPaths(%q)", arg) }, func() {
						got := gse.DictPaths("DIR", arg)
						c.Trans(1)
						var want [][]string
						for _, n := range p {
							switch n {
							case "zh":
								want = append(want, []string{"DIR/dict/zh/s_1.txt", "DIR/dict/zh/t_1.txt"})
							case "zh_s":
								want = append(want, []string{"DIR/dict/zh/s_1.txt"})
							case "zh_t":
								want = append(want, []string{"DIR/dict/zh/t_1.txt"})
							case "ja", "jp":
								want = append(want, []string{"DIR/dict/jp/dict.txt"})
							case "en", "ko", "ti", "":
							default:
								want = append(want, []string{n})
							}
						}
						k := 0
						for _, w := range want {
							if k+len(w) > len(got) || !eqStrs(sortedStrs(got[k:k+len(w)]), w) {
								c.Failf("gives %q", got)
								return
							}
							k += len(w)
						}
						if k != len(got) {
							c.Failf("gives %q", got)
						}
						c.State(got...)
					})
				}
			})
		})
	}
}
