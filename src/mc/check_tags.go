package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"
	"vmc.local/rt"
)

// ---- K01: cutting with tags ----

func init() {
	register(&checkDef{id: "K01",
		desc: "pos Cut with and without HMM: concatenation, pieces and tags against an independent search of the best routes and of the best HMM state paths (any best one accepted), over small dictionaries with all short texts over representative atoms, every Han character in context, and every pair of chosen characters",
		run:  runK01})
}

type posTables struct {
	tab        map[rune][]uint16
	emit       map[uint16]map[rune]float64
	start      map[uint16]float64
	trans      map[uint16]map[uint16]float64
	all        []uint16
	names      []string
	minf, inf_ float64
}

// loadPosTables copies the model of the package through the registry of its
// variables; nil if it is not there under these names.
func loadPosTables() *posTables {
	get := func(n string) reflect.Value {
		p := rt.Lookup("github.com/go-ego/gse/hmm/pos", n)
		if p == nil {
			return reflect.Value{}
		}
		return reflect.ValueOf(p).Elem()
	}
	t := &posTables{tab: map[rune][]uint16{}, emit: map[uint16]map[rune]float64{}, start: map[uint16]float64{}, trans: map[uint16]map[uint16]float64{}}
	a, b, s, tr, nm := get("charStateTab"), get("probEmit"), get("probStart"), get("probTrans"), get("poss")
	for _, v := range []reflect.Value{a, b, s, tr} {
		if !v.IsValid() || v.Kind() != reflect.Map || v.Len() == 0 {
			return nil
		}
	}
	if !nm.IsValid() || nm.Kind() != reflect.Slice {
		return nil
	}
	for _, k := range a.MapKeys() {
		e := a.MapIndex(k)
		var l []uint16
		for i := 0; i < e.Len(); i++ {
			l = append(l, uint16(e.Index(i).Uint()))
		}
		t.tab[rune(k.Int())] = l
	}
	for _, k := range b.MapKeys() {
		m := map[rune]float64{}
		e := b.MapIndex(k)
		for _, r := range e.MapKeys() {
			m[rune(r.Int())] = e.MapIndex(r).Float()
		}
		t.emit[uint16(k.Uint())] = m
	}
	for _, k := range s.MapKeys() {
		t.start[uint16(k.Uint())] = s.MapIndex(k).Float()
	}
	for _, k := range tr.MapKeys() {
		m := map[uint16]float64{}
		e := tr.MapIndex(k)
		for _, r := range e.MapKeys() {
			m[uint16(r.Uint())] = e.MapIndex(r).Float()
		}
		t.trans[uint16(k.Uint())] = m
		t.all = append(t.all, uint16(k.Uint()))
	}
	for i := 0; i < nm.Len(); i++ {
		t.names = append(t.names, nm.Index(i).String())
	}
	return t
}

func (t *posTables) e(y uint16, r rune) float64 {
	if v, ok := t.emit[y][r]; ok {
		return v
	}
	return hmmMin
}

func (t *posTables) tr(a, b uint16) float64 {
	if v, ok := t.trans[a][b]; ok {
		return v
	}
	return math.Inf(-1)
}

// sets lists the states considered at each character: those of the character
// that can follow, else all that can follow, else all.
func (t *posTables) sets(rs []rune) [][]uint16 {
	out := make([][]uint16, len(rs))
	of := func(r rune) []uint16 {
		if l, ok := t.tab[r]; ok {
			return l
		}
		return t.all
	}
	out[0] = of(rs[0])
	for i := 1; i < len(rs); i++ {
		next := map[uint16]bool{}
		for _, x := range out[i-1] {
			for y := range t.trans[x] {
				next[y] = true
			}
		}
		for _, y := range of(rs[i]) {
			if next[y] {
				out[i] = append(out[i], y)
			}
		}
		if len(out[i]) == 0 {
			for y := range next {
				out[i] = append(out[i], y)
			}
		}
		if len(out[i]) == 0 {
			out[i] = t.all
		}
	}
	return out
}

// value is the best value over the paths whose labels ok accepts.
func (t *posTables) value(rs []rune, sets [][]uint16, ok func(i int, y uint16) bool) float64 {
	cur := map[uint16]float64{}
	for _, y := range sets[0] {
		if ok(0, y) {
			cur[y] = t.e(y, rs[0]) + t.start[y]
		}
	}
	for i := 1; i < len(rs); i++ {
		nxt := map[uint16]float64{}
		for _, y := range sets[i] {
			if !ok(i, y) {
				continue
			}
			first := true
			em := t.e(y, rs[i])
			for x, v := range cur {
				if len(t.trans[x]) == 0 {
					continue
				}
				if w := v + t.tr(x, y) + em; first || w > nxt[y] {
					nxt[y] = w
					first = false
				}
			}
		}
		cur = nxt
	}
	best := math.Inf(-1)
	for _, v := range cur {
		if v > best {
			best = v
		}
	}
	return best
}

// okRun reports whether got is the reading of a best path over a run of Han characters.
func (t *posTables) okRun(run string, got []gse.SegPos) bool {
	rs := []rune(run)
	at := 0
	begins := make([]int, len(rs)) // piece of each character
	ends := make([]int, len(got))
	starts := make([]int, len(got))
	for k, g := range got {
		n := utf8.RuneCountInString(g.Text)
		if n == 0 || at+n > len(rs) || string(rs[at:at+n]) != g.Text {
			return false
		}
		starts[k] = at
		for i := at; i < at+n; i++ {
			begins[i] = k
		}
		at += n
		ends[k] = at - 1
	}
	if at != len(rs) {
		return false
	}
	sets := t.sets(rs)
	best := t.value(rs, sets, func(int, uint16) bool { return true })
	name := func(y uint16) string {
		if int(y%100) < len(t.names) {
			return t.names[y%100]
		}
		return "?"
	}
	closed := func(i int, y uint16) bool {
		k := begins[i]
		switch y / 100 {
		case 4: // S
			return starts[k] == i && ends[k] == i && name(y) == got[k].Pos
		case 2: // E
			return ends[k] == i && (starts[k] < i || i == 0) && name(y) == got[k].Pos
		case 1: // B
			return starts[k] == i && ends[k] > i
		}
		return ends[k] > i && (starts[k] < i || i == 0)
	}
	fit := t.value(rs, sets, closed)
	// the last piece may lie after the last end
	last := len(got) - 1
	open := t.value(rs, sets, func(i int, y uint16) bool {
		if i < starts[last] {
			return closed(i, y)
		}
		if i == starts[last] && name(y) != got[last].Pos {
			return false
		}
		return y/100 != 4 && y/100 != 2
	})
	tol := 1e-12 * (1 + math.Abs(best))
	return math.Max(fit, open) >= best-tol || math.IsInf(best, -1)
}

func posInner(r rune) bool {
	return isHan(r) || asciiAlnum(r) || r == '+' || r == '#' || r == '&' || r == '.' || r == '_'
}

type posCase struct {
	d  *refDict
	g  *refDag
	t  *posTables
	ho bool
}

func (p *posCase) tag(w string) string {
	if e, ok := p.d.m[w]; ok {
		return e.Pos
	}
	return "x"
}

// detailOK checks a run of single characters that is no word.
func (p *posCase) detailOK(buf []rune, got []gse.SegPos) bool {
	o := 0
	for i := 0; i < len(buf); {
		j := i
		if isHan(buf[i]) {
			for j < len(buf) && isHan(buf[j]) {
				j++
			}
			n, k := 0, o
			for k < len(got) && n < j-i {
				n += utf8.RuneCountInString(got[k].Text)
				k++
			}
			if n != j-i {
				return false
			}
			if p.t != nil {
				if !p.t.okRun(string(buf[i:j]), got[o:k]) {
					return false
				}
			} else {
				var sb strings.Builder
				for _, g := range got[o:k] {
					sb.WriteString(g.Text)
				}
				if sb.String() != string(buf[i:j]) {
					return false
				}
			}
			o, i = k, j
			continue
		}
		num := func(r rune) bool { return r == '.' || r >= '0' && r <= '9' }
		w := "x"
		if num(buf[i]) {
			for j < len(buf) && num(buf[j]) {
				j++
			}
			w = "m"
		} else {
			for j < len(buf) && !num(buf[j]) && !isHan(buf[j]) {
				if asciiAlnum(buf[j]) {
					w = "eng"
				}
				j++
			}
		}
		if o >= len(got) || got[o].Text != string(buf[i:j]) || got[o].Pos != w {
			return false
		}
		o++
		i = j
	}
	return o == len(got)
}

// blockOK reports whether got comes from a best route over a block.
func (p *posCase) blockOK(rs []rune, got []gse.SegPos, hmm bool) bool {
	opt, _ := optimal(p.g.edges(rs))
	type st struct{ x, b, o int }
	seen := map[st]bool{}
	n := len(rs)
	flush := func(b, x, o int) int {
		if b == x {
			return o
		}
		buf := rs[b:x]
		if !hmm {
			if o < len(got) && got[o].Text == string(buf) && got[o].Pos == "eng" {
				return o + 1
			}
			return -1
		}
		k, ln := o, 0
		for k < len(got) && ln < len(buf) {
			ln += utf8.RuneCountInString(got[k].Text)
			k++
		}
		if ln != len(buf) {
			return -1
		}
		e, isWord := p.d.m[string(buf)]
		if len(buf) == 1 || isWord && e.Freq != 0 {
			if k-o != len(buf) {
				return -1
			}
			for i, r := range buf {
				if got[o+i].Text != string(r) || got[o+i].Pos != p.tag(string(r)) {
					return -1
				}
			}
			return k
		}
		if p.detailOK(buf, got[o:k]) {
			return k
		}
		return -1
	}
	var rec func(x, b, o int) bool
	rec = func(x, b, o int) bool {
		k := st{x, b, o}
		if seen[k] {
			return false
		}
		seen[k] = true
		if x == n {
			return flush(b, x, o) == len(got)
		}
		for _, y := range opt[x] {
			if y == x+1 && (hmm || asciiAlnum(rs[x])) {
				if rec(y, b, o) {
					return true
				}
				continue
			}
			oo := flush(b, x, o)
			if oo < 0 || oo >= len(got) || got[oo].Text != string(rs[x:y]) || got[oo].Pos != p.tag(string(rs[x:y])) {
				continue
			}
			if rec(y, y, oo+1) {
				return true
			}
		}
		return false
	}
	return rec(0, 0, 0)
}

// cutOK checks a whole output.
func (p *posCase) cutOK(text string, got []gse.SegPos, hmm bool) string {
	var sb strings.Builder
	for _, g := range got {
		sb.WriteString(g.Text)
	}
	rs := []rune(text)
	if sb.String() != string(rs) {
		return "the pieces do not join to the text"
	}
	o := 0
	for i := 0; i < len(rs); {
		if posInner(rs[i]) {
			j := i
			for j < len(rs) && posInner(rs[j]) {
				j++
			}
			k, n := o, 0
			for k < len(got) && n < j-i {
				n += utf8.RuneCountInString(got[k].Text)
				k++
			}
			if n != j-i {
				return fmt.Sprintf("no piece ends after %q", string(rs[i:j]))
			}
			if !p.blockOK(rs[i:j], got[o:k], hmm) {
				return fmt.Sprintf("%q is cut to %s, no best route gives that", string(rs[i:j]), q(got[o:k]))
			}
			o, i = k, j
			continue
		}
		w := string(rs[i])
		if rs[i] == '\r' && i+1 < len(rs) && rs[i+1] == '\n' {
			w = "\r\n"
		}
		if o >= len(got) || got[o].Text != w || got[o].Pos != "x" {
			return fmt.Sprintf("piece %d is not %q with tag x", o, w)
		}
		o++
		i += len([]rune(w))
	}
	return ""
}

func runK01(c *Ctx) {
	c.budget = 1_000_000_000
	tables := loadPosTables()
	if tables == nil {
		c.Outcome("the tables of the model were not found: HMM parts checked for joining only")
	}
	check := func(pc *posCase, ps *pos.Segmenter, text string) {
		for _, h := range []bool{false, true} {
			got := ps.Cut(text, h)
			c.Trans(1)
			if m := pc.cutOK(text, got, h); m != "" {
				c.Failf("Cut(%v) gives %s: %s", h, q(got), m)
				return
			}
			if !h {
				if g := ps.Cut(text); dump(g) != dump(got) {
					c.Failf("Cut without the option gives %s, with false %s", q(g), q(got))
				}
				if len(got) < len([]rune(text)) {
					c.Outcome("joined")
				} else {
					c.Outcome("single characters")
				}
			}
			c.State(dump(got))
		}
	}
	runHow := func(name string, ents []Ent, ts []string, build func() (*pos.Segmenter, *refDict)) {
		es := append([]Ent(nil), ents...)
		c.Unit(name, func() {
			if build == nil {
				build = func() (*pos.Segmenter, *refDict) {
					return wrapPos(buildSeg(Opts{}, es)), refDictOf(Opts{}, es, true)
				}
			}
			ps, d := build()
			pc := &posCase{d: d, t: tables}
			pc.g = newRefDag(pc.d)
			pc.g.logT = 0
			for _, t := range ts {
				t := t
				c.Case(func() string { return name + ": dictionary " + entsStr(es) + " text " + q(t) }, func() { check(pc, ps, t) })
			}
		})
	}
	run := func(name string, ents []Ent, ts []string) { runHow(name, ents, ts, nil) }
	// entries with and without a part of speech, joined, changed and taken away
	// before and after the tagger got the segmenter
	tagged := []string{"甲", "乙", "甲乙", "乙甲", "甲乙丙"}
	tagTexts := allTexts([]string{"甲", "乙", "丙", "a"}, 1, 4)
	product(4, len(tagged), func(d []int) {
		var es []Ent
		for i, k := range d {
			if k > 0 {
				es = append(es, Ent{tagged[i], []float64{2, 900}[k&1], []string{"", "n", fmt.Sprint("t", i)}[k-1]})
			}
		}
		name := fmt.Sprint("tags ", d)
		sum := 0
		for _, k := range d {
			sum += k
		}
		if sum%3 != 0 && !c.thorough {
			run(name, es, tagTexts[:120])
			return
		}
		run(name, es, tagTexts)
		runHow(name+" in pieces", es, tagTexts[:120], func() (*pos.Segmenter, *refDict) {
			h := len(es) / 2
			seg := buildSeg(Opts{}, es[:h])
			ps := wrapPos(seg)
			for _, t := range tagTexts[:40] {
				ps.Cut(t, true)
				ps.Cut(t)
			}
			rd := refDictOf(Opts{}, es[:h], true)
			for _, e := range es[h:] {
				if e.Pos == "" {
					seg.AddToken(e.Text, e.Freq)
				} else {
					seg.AddToken(e.Text, e.Freq, e.Pos)
				}
				rd.add(e, Opts{}, true)
			}
			if h > 0 {
				seg.RemoveToken(es[0].Text)
				rd.remove(es[0].Text, Opts{}, true)
			}
			if h > 1 {
				seg.ReAddToken(es[1].Text, 77, "again")
				rd.remove(es[1].Text, Opts{}, true)
				rd.add(Ent{es[1].Text, 77, "again"}, Opts{}, true)
			}
			return ps, rd
		})
		runHow(name+" from a file", es, tagTexts[:40], func() (*pos.Segmenter, *refDict) {
			p := filepath.Join(c.scratch, "pos.txt")
			var sb strings.Builder
			for _, e := range es {
				sb.WriteString(strings.TrimSuffix(fmt.Sprintf("%s %v %s", e.Text, e.Freq, e.Pos), " ") + "\n")
			}
			os.WriteFile(p, []byte(sb.String()), 0o644)
			defer os.Remove(p)
			ps := &pos.Segmenter{}
			ps.WithGse(*newSeg(Opts{}))
			if err := ps.LoadDict(p); err != nil {
				c.Failf("LoadDict: %v", err)
			}
			rd := newRefDict()
			for _, e := range es {
				if len([]rune(e.Text)) == 1 {
					e.Freq = 2 // as the loader has it
				}
				rd.add(e, Opts{}, true)
			}
			return ps, rd
		})
	})
	// dictionaries
	univ := []Ent{{"世界", 0, "n"}, {"世", 0, "nz"}, {"世界大", 0, "nr"}, {"大国", 0, ""}, {"界大国", 0, "vn"}}
	lv := []float64{0, 0.25, 1, 3, 4000}
	if !c.thorough {
		lv = []float64{0, 0.25, 4000}
	}
	at := []string{"世", "界", "大", "国"}
	n := 4
	ts := allTexts(at, 1, n)
	ts = append(ts, "世界a大国", "a世1.5界", "世 界大国，世界", "世界+国.7")
	product(len(lv)+1, len(univ), func(d []int) {
		if !c.thorough {
			z := 0
			for _, k := range d {
				if k > 0 {
					z++
				}
			}
			if z > 3 {
				return
			}
		}
		var es []Ent
		for i, k := range d {
			if k > 0 {
				e := univ[i]
				e.Freq = lv[k-1]
				es = append(es, e)
			}
		}
		run(fmt.Sprint("levels ", d), es, ts)
	})
	mixed := []Ent{{"世界", 8, "n"}, {"世a", 4, "nz"}, {"a", 3, "q"}, {"ab", 9, "w"}, {"1.5", 7, "mm"}, {"é世", 6, "l"}, {"界", 2, "k"}, {"+", 5, "sym"}, {"，", 4, "pt"}, {"c++", 30, "lang"}, {"\n", 2, "nl"}, {"界世", 1, "zz"}}
	rich := []string{"世", "界", "国", "a", "b", "B", "1", ".", "+", "_", "&", "，", " ", "\n", "\r", "é", "の", "😀", "\xff", "\x00", "[", "]", "𠀀", "٣", "-", "c"}
	ln := 3
	if c.thorough {
		ln = 4
	}
	for _, a := range rich {
		run("rich "+q(a), mixed, func() (r []string) {
			texts(rich, 0, ln-1, func(s string) { r = append(r, a+s) })
			return
		}())
	}
	tab := map[rune][]uint16{}
	if tables != nil {
		tab = tables.tab
	}
	// every Han character next to others
	small := []Ent{{"世界", 8, "n"}, {"的", 5, "uj"}}
	for lo := rune(0x2E80); lo < 0x32000; lo += 0x400 {
		var l []string
		for r := lo; r < lo+0x400; r++ {
			if !isHan(r) {
				continue
			}
			s := string(r)
			if _, ok := tab[r]; ok || c.thorough {
				l = append(l, s, s+s, "人"+s, s+"人", "人"+s+"人", s+"世界", "一"+s+"一"+s)
			} else if r&7 == 1 {
				l = append(l, s, s+"人")
			} else {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			continue
		}
		run(fmt.Sprintf("Han %U", lo), small, l)
	}
	// sequences of chosen characters, among them rare ones and one outside the tables
	chosen := []string{"人", "一", "的", "龘", "㐀", "中", "鎵"}
	ml := 4
	if c.thorough {
		ml = 6
	}
	for _, a := range chosen {
		run("chosen "+a, small, func() (r []string) {
			texts(chosen, 0, ml-1, func(s string) { r = append(r, a+s) })
			return
		}())
	}
	// long words and many words
	for _, n := range []int{5, 8, 9, 16, 17, 24, 25, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257} {
		var l []string
		for _, k := range []int{n, 2*n + 1} {
			if n > 100 && k > n {
				break
			}
			l = append(l, pump("甲", k), pump("乙丙", k), "乙"+pump("甲", k)+"丙乙", pump("甲", k)+pump("乙丙", k/2), pump("c+", k)+"人")
		}
		run(fmt.Sprint("long words ", n), []Ent{{pump("甲", n), 50, "long"}, {pump("乙丙", n), 9, "long2"}, {pump("c+", n), 11, "lang"}, {"甲甲", 0.5, "s"}, {"丙乙", 0.25, "s2"}, {"乙", 3, "s3"}}, l)
	}
	for _, n := range []int{100, 255, 256, 257, 1000, 3000} {
		var es []Ent
		for i := 0; i < n; i++ {
			es = append(es, Ent{bigWord(i), float64(2 + i%97), fmt.Sprintf("b%d", i%300)})
		}
		var l []string
		for i := 0; i < n; i += 7 {
			l = append(l, bigWord(i), bigWord(i)+bigWord(i*3+1)+"甲"+bigWord(i/2))
		}
		run(fmt.Sprint("many words ", n), es, l)
	}
	run("very long texts", []Ent{{"世界", 8, "n"}, {"世", 5, "nz"}, {"界世世", 9, "x1"}}, []string{pump("世界", 999), "界" + pump("世界", 1001), pump("世界，", 2050), pump("世界世 ", 4097), pump("世", 5000)})
	for _, p := range []string{"人", "世界", "a", "1.", "，", "人a", "的", "龘"} {
		var l []string
		for _, k := range pumpLens {
			if k > 300 && !c.thorough || k > 1025 || p == "龘" && k > 40 {
				break
			}
			l = append(l, pump(p, k), "世界"+pump(p, k)+"7")
		}
		run("pump "+q(p), small, l)
	}
}

func entTags(es []Ent) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return strings.Join(s, " ")
}
