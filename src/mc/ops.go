package main

import (
	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
)

// env is a set of loaded objects that share one dictionary.
type env struct {
	seg  *gse.Segmenter
	pos  *pos.Segmenter
	tags *idf.TagExtracter
	rank *idf.TextRanker
	stop *idf.StopWord
	idf  *idf.Idf
}

func newEnv(o Opts, ents []Ent, stops []string) *env {
	e := &env{seg: buildSeg(o, ents)}
	if stops != nil {
		e.seg.LoadStopArr(stops)
	}
	return wrapEnv(e.seg)
}

func wrapEnv(seg *gse.Segmenter) *env {
	e := &env{seg: seg}
	e.pos = &pos.Segmenter{}
	e.pos.WithGse(*seg)
	e.tags = &idf.TagExtracter{}
	e.tags.WithGse(*seg)
	e.tags.LoadIdfStr("世界 3.5 n\ngo 6.25 n\n甲乙 4.5 n\n国人 2.25 n\nlang 9\n")
	e.rank = &idf.TextRanker{}
	e.rank.WithGse(*seg)
	e.stop = idf.NewStopWord()
	e.idf = e.tags.Idf
	return e
}

type readOp struct {
	name string
	f    func(e *env, s string) interface{}
}

// roomy gives the bytes of s as the beginning of a larger buffer.
func roomy(s string) []byte {
	b := make([]byte, len(s)+6)
	copy(b, s)
	copy(b[len(s):], "behind")
	return b[:len(s)]
}

// roomyIs reports whether the buffer is as roomy made it.
func roomyIs(b []byte, s string) bool {
	return string(b) == s && string(b[:len(s)+6][len(s):]) == "behind"
}

// withBytes calls f with a part of a larger buffer, which has to stay as it is.
func withBytes(s string, f func(b []byte) interface{}) interface{} {
	b := roomy(s)
	r := f(b)
	if !roomyIs(b, s) {
		panic("the input was changed, or what lies behind it")
	}
	return r
}

// withList does the same for a list of words.
func withList(s string, f func(l []string) interface{}) interface{} {
	w := wordsOf(s)
	b := append(append([]string(nil), w...), "behind", "it")
	r := f(b[:len(w)])
	if !eqStrs(b, append(append([]string(nil), w...), "behind", "it")) {
		panic("the list was changed, or what lies behind it")
	}
	return r
}

// withPos does the same for a list of tagged words.
func withPos(s string, f func(l []gse.SegPos) interface{}) interface{} {
	w := posOf(s)
	b := append(append([]gse.SegPos(nil), w...), gse.SegPos{Text: "behind"}, gse.SegPos{Pos: "it"})
	r := f(b[:len(w)])
	for i, x := range append(append([]gse.SegPos(nil), w...), gse.SegPos{Text: "behind"}, gse.SegPos{Pos: "it"}) {
		if b[i] != x {
			panic("the list was changed, or what lies behind it")
		}
	}
	return r
}

type segOut struct {
	Start, End int
	Text, Pos  string
	Freq       float64
	Subs       int
}

func outSegs(segs []gse.Segment) (r []segOut) {
	for i := range segs {
		t := segs[i].Token()
		r = append(r, segOut{segs[i].Start(), segs[i].End(), t.Text(), t.Pos(), t.Freq(), len(t.Segments())})
	}
	return
}

func wordsOf(s string) []string {
	var r []string
	rs := []rune(s)
	for i := 0; i < len(rs); i += 2 {
		j := i + 2
		if j > len(rs) {
			j = len(rs)
		}
		r = append(r, string(rs[i:j]))
	}
	return append(r, "", s)
}

func posOf(s string) (r []gse.SegPos) {
	for i, w := range wordsOf(s) {
		r = append(r, gse.SegPos{Text: w, Pos: []string{"n", "v", "x", ""}[i%4]})
	}
	return
}

type findOut struct {
	F  float64
	P  string
	Ok bool
}

var readOps = []readOp{
	{"Segment", func(e *env, s string) interface{} {
		return withBytes(s, func(b []byte) interface{} { return outSegs(e.seg.Segment(b)) })
	}},
	{"ModeSegment", func(e *env, s string) interface{} {
		return withBytes(s, func(b []byte) interface{} { return outSegs(e.seg.ModeSegment(b, true)) })
	}},
	{"Slice", func(e *env, s string) interface{} { return e.seg.Slice(s) }},
	{"SliceSearch", func(e *env, s string) interface{} { return e.seg.Slice(s, true) }},
	{"String", func(e *env, s string) interface{} { return e.seg.String(s) }},
	{"StringSearch", func(e *env, s string) interface{} { return e.seg.String(s, true) }},
	{"Pos", func(e *env, s string) interface{} { return e.seg.Pos(s) }},
	{"PosSearch", func(e *env, s string) interface{} { return e.seg.Pos(s, true) }},
	{"Cut", func(e *env, s string) interface{} { return e.seg.Cut(s) }},
	{"CutFalse", func(e *env, s string) interface{} { return e.seg.Cut(s, false) }},
	{"CutTrue", func(e *env, s string) interface{} { return e.seg.Cut(s, true) }},
	{"CutSearch", func(e *env, s string) interface{} { return e.seg.CutSearch(s) }},
	{"CutSearchFalse", func(e *env, s string) interface{} { return e.seg.CutSearch(s, false) }},
	{"CutSearchTrue", func(e *env, s string) interface{} { return e.seg.CutSearch(s, true) }},
	{"CutAll", func(e *env, s string) interface{} { return e.seg.CutAll(s) }},
	{"CutDAG", func(e *env, s string) interface{} { return e.seg.CutDAG(s) }},
	{"CutDAGNoHMM", func(e *env, s string) interface{} { return e.seg.CutDAGNoHMM(s) }},
	{"HMMCut", func(e *env, s string) interface{} { return e.seg.HMMCut(s) }},
	{"hmm.Cut", func(e *env, s string) interface{} { return hmm.Cut(s) }},
	{"hmm.Viterbi", func(e *env, s string) interface{} {
		p, st := hmm.Viterbi([]rune(s), []byte{'B', 'M', 'E', 'S'})
		return []interface{}{p, string(st)}
	}},
	{"Find", func(e *env, s string) interface{} {
		var r []findOut
		for _, w := range wordsOf(s) {
			f, p, ok := e.seg.Find(w)
			r = append(r, findOut{f, p, ok})
		}
		return r
	}},
	{"Value", func(e *env, s string) interface{} {
		v, id, err := e.seg.Value(s)
		return []interface{}{v, id, err}
	}},
	{"Analyze", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.Analyze(l, s) })
	}},
	{"AnalyzeNoText", func(e *env, s string) interface{} { return e.seg.Analyze(e.seg.Cut(s), "") }},
	{"AnalyzeRunes", func(e *env, s string) interface{} { return e.seg.Analyze(e.seg.Cut(s), "", true) }},
	{"SuggestFreq", func(e *env, s string) interface{} { return e.seg.SuggestFreq(s) }},
	{"SuggestFreqParts", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.SuggestFreq(l...) })
	}},
	{"SplitTextToWords", func(e *env, s string) interface{} {
		return withBytes(s, func(b []byte) interface{} { return e.seg.SplitTextToWords(b) })
	}},
	{"SplitWords", func(e *env, s string) interface{} {
		return withBytes(s, func(b []byte) interface{} { return gse.SplitWords(b) })
	}},
	{"ToToken", func(e *env, s string) interface{} { t := e.seg.ToToken(s, 3, "n"); return t.Text() }},
	{"Lookup", func(e *env, s string) interface{} {
		if e.seg.Dict == nil {
			return nil
		}
		toks := make([]*gse.Token, e.seg.Dict.MaxTokenLen()+len(s)+1)
		n := e.seg.Dict.LookupTokens(e.seg.SplitTextToWords([]byte(s)), toks)
		var r []string
		for _, t := range toks[:n] {
			r = append(r, t.Text())
		}
		return r
	}},
	{"Stop", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.Stop(l) })
	}},
	{"IsStop", func(e *env, s string) interface{} { return e.seg.IsStop(s) }},
	{"CutStop", func(e *env, s string) interface{} { return e.seg.CutStop(s) }},
	{"CutStopTrue", func(e *env, s string) interface{} { return e.seg.CutStop(s, true) }},
	{"CutTrim", func(e *env, s string) interface{} { return e.seg.CutTrim(s) }},
	{"CutTrimFalse", func(e *env, s string) interface{} { return e.seg.CutTrim(s, false) }},
	{"Trim", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.Trim(l) })
	}},
	{"TrimPunct", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.TrimPunct(l) })
	}},
	{"TrimSymbol", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.TrimSymbol(l) })
	}},
	{"TrimPos", func(e *env, s string) interface{} {
		return withPos(s, func(l []gse.SegPos) interface{} { return e.seg.TrimPos(l) })
	}},
	{"TrimPosPunct", func(e *env, s string) interface{} {
		return withPos(s, func(l []gse.SegPos) interface{} { return e.seg.TrimPosPunct(l) })
	}},
	{"TrimWithPos", func(e *env, s string) interface{} {
		return withPos(s, func(l []gse.SegPos) interface{} { return e.seg.TrimWithPos(l, "n", "x") })
	}},
	{"PosTrim", func(e *env, s string) interface{} { return e.seg.PosTrim(s, true, "x") }},
	{"PosTrimArr", func(e *env, s string) interface{} { return e.seg.PosTrimArr(s, false, "x", "n") }},
	{"PosTrimStr", func(e *env, s string) interface{} { return e.seg.PosTrimStr(s, false) }},
	{"CutTrimHtml", func(e *env, s string) interface{} { return e.seg.CutTrimHtml(s) }},
	{"CutTrimHtmls", func(e *env, s string) interface{} { return e.seg.CutTrimHtmls(s, true) }},
	{"CutUrl", func(e *env, s string) interface{} { return e.seg.CutUrl(s) }},
	{"CutUrls", func(e *env, s string) interface{} { return e.seg.CutUrls(s, true) }},
	{"Filters", func(e *env, s string) interface{} {
		return []string{gse.FilterEmoji(s), gse.FilterSymbol(s), gse.FilterHtml(s), gse.FilterLang(s, "Han"), gse.SplitNums(s), gse.RangeText(s)}
	}},
	{"Splits", func(e *env, s string) interface{} { return [][]string{gse.SplitNum(s), gse.Range(s)} }},
	{"FindAllOccs", func(e *env, s string) interface{} {
		return withBytes(s, func(b []byte) interface{} {
			return withList(s, func(l []string) interface{} { return gse.FindAllOccs(b, l) })
		})
	}},
	{"CutStr", func(e *env, s string) interface{} {
		return withList(s, func(l []string) interface{} { return e.seg.CutStr(l, ", ") })
	}},
	{"PosStr", func(e *env, s string) interface{} {
		return withPos(s, func(l []gse.SegPos) interface{} { return e.seg.PosStr(l) })
	}},
	{"Dictionary", func(e *env, s string) interface{} {
		d := e.seg.Dictionary()
		return []interface{}{d.NumTokens(), d.TotalFreq(), d.MaxTokenLen()}
	}},
	{"IsJp", func(e *env, s string) interface{} { return gse.IsJp(s) }},
	{"pos.Cut", func(e *env, s string) interface{} { return e.pos.Cut(s) }},
	{"pos.CutTrue", func(e *env, s string) interface{} { return e.pos.Cut(s, true) }},
	{"pos.Trims", func(e *env, s string) interface{} {
		return withPos(s, func(p []gse.SegPos) interface{} {
			return [][]gse.SegPos{e.pos.Trim(p), e.pos.TrimPunct(p), e.pos.TrimWithPos(p, "v", "n")}
		})
	}},
	{"ExtractTags", func(e *env, s string) interface{} { return e.tags.ExtractTags(s, 5) }},
	{"ExtractNoTags", func(e *env, s string) interface{} {
		return []interface{}{e.tags.ExtractTags(s, 0), e.tags.ExtractTags(s, -2), e.rank.TextRank(s, -2)}
	}},
	{"TextRank", func(e *env, s string) interface{} { return e.rank.TextRank(s, 5) }},
	{"TextRankWithPOS", func(e *env, s string) interface{} {
		l := []string{"n", "x", "eng", "v"}
		r := e.rank.TextRankWithPOS(s, 3, l[:3])
		if !eqStrs(l, []string{"n", "x", "eng", "v"}) {
			panic("the list of tags was changed")
		}
		return r
	}},
	{"StopWord", func(e *env, s string) interface{} { return e.stop.IsStopWord(s) }},
	{"IdfFreq", func(e *env, s string) interface{} {
		f, p, ok := e.idf.Freq(s)
		return []interface{}{findOut{f, p, ok}, e.idf.NumTokens(), e.idf.TotalFreq()}
	}},
}
