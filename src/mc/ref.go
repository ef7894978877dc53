package main

// Reference models: deliberately plain restatements of what each operation is
// documented to do, sharing no code with the implementation.

import (
	"math"
	"strings"
	"unicode"
	"unicode/utf8"
)

// refLow lowers ASCII letters only.
func refLow(s string) string {
	b := []byte(s)
	for i := range b {
		if 'A' <= b[i] && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// refWords splits a text into words: runs of letters and numbers of one or
// two bytes are one word in lower case, everything else is one word per rune
// (an invalid byte is a rune of its own).
func refWords(s string, o Opts, lower bool) []string {
	var out []string
	low := func(x string) string {
		if lower {
			return refLow(x)
		}
		return x
	}
	type piece struct {
		s     string
		latin bool
	}
	var ps []piece
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		lat := n <= 2 && (unicode.IsLetter(r) && !o.Alpha || unicode.IsNumber(r) && !o.Num)
		ps = append(ps, piece{s[i : i+n], lat})
		i += n
	}
	for i := 0; i < len(ps); {
		if !ps[i].latin {
			out = append(out, ps[i].s)
			i++
			continue
		}
		if o.AlphaNum {
			out = append(out, low(ps[i].s))
			i++
			continue
		}
		j := i
		run := ""
		for j < len(ps) && ps[j].latin {
			run += ps[j].s
			j++
		}
		out = append(out, low(run))
		i = j
	}
	return out
}

// refDict is a dictionary: the first entry of a word wins, empty words and
// words with a zero byte are refused.
type refDict struct {
	m     map[string]Ent
	order []string
	total float64
	adds  int
}

func newRefDict() *refDict { return &refDict{m: map[string]Ent{}} }

// add takes the text as written; its words are split and lowered.
func (d *refDict) add(e Ent, o Opts, lower bool) bool {
	k := strings.Join(refWords(e.Text, o, lower), "")
	if k == "" || strings.IndexByte(k, 0) >= 0 {
		return false
	}
	if _, ok := d.m[k]; ok {
		return false
	}
	d.m[k] = Ent{k, e.Freq, e.Pos}
	d.order = append(d.order, k)
	d.total += e.Freq
	d.adds++
	return true
}

func (d *refDict) remove(text string, o Opts, lower bool) bool {
	k := strings.Join(refWords(text, o, lower), "")
	e, ok := d.m[k]
	if !ok {
		return false
	}
	delete(d.m, k)
	for i, w := range d.order {
		if w == k {
			d.order = append(append([]string(nil), d.order[:i]...), d.order[i+1:]...)
			break
		}
	}
	d.total -= e.Freq
	return true
}

func refDictOf(o Opts, ents []Ent, lower bool) *refDict {
	d := newRefDict()
	for _, e := range ents {
		d.add(e, o, lower)
	}
	return d
}

// find is the documented lookup: a word gives its entry, the beginning of a
// word is found with no frequency.
func (d *refDict) find(s string) (float64, string, bool) {
	if s == "" {
		return 0, "", false
	}
	if e, ok := d.m[s]; ok {
		return e.Freq, e.Pos, true
	}
	for w := range d.m {
		if strings.HasPrefix(w, s) {
			return 0, "", true
		}
	}
	return 0, "", false
}

// ---- shortest path segmentation ----

const pseudoDistance = 32

type refPaths struct {
	d    *refDict
	logT float64
	cost map[string]float64
	maxB int
}

func newRefPaths(d *refDict) *refPaths {
	p := &refPaths{d: d, logT: math.Log2(d.total), cost: map[string]float64{}}
	for k, e := range d.m {
		p.cost[k] = p.logT - math.Log2(e.Freq)
		if len(k) > p.maxB {
			p.maxB = len(k)
		}
	}
	return p
}

// best returns the least cost of segmenting words; with exclude the token
// covering all the words is not allowed.
func (p *refPaths) best(words []string, exclude bool) float64 {
	n := len(words)
	best := make([]float64, n+1)
	for i := 1; i <= n; i++ {
		best[i] = math.Inf(1)
	}
	for i := 0; i < n; i++ {
		single := false
		k := ""
		for j := i; j < n; j++ {
			k += words[j]
			if len(k) > p.maxB {
				break
			}
			if c, ok := p.cost[k]; ok {
				if j == i {
					single = true
				}
				if exclude && i == 0 && j == n-1 {
					continue
				}
				if best[i]+c < best[j+1] {
					best[j+1] = best[i] + c
				}
			}
		}
		if !single && best[i]+pseudoDistance < best[i+1] {
			best[i+1] = best[i] + pseudoDistance
		}
	}
	return best[n]
}

// tolPath is the rounding allowed between two path costs: the implementation
// adds single precision numbers.
func tolPath(cost float64, n int) float64 {
	return 1e-4 + math.Abs(cost)*float64(n+2)*1.3e-7
}

// ---- DAG modes ----

type refDag struct {
	d    *refDict
	logT float64
	maxB int
}

func newRefDag(d *refDict) *refDag {
	g := &refDag{d: d, logT: math.Log(d.total)}
	for k := range d.m {
		if len(k) > g.maxB {
			g.maxB = len(k)
		}
	}
	return g
}

type dagEdge struct {
	to int // exclusive end
	w  float64
}

// edges lists the words with a positive frequency that start at each rune,
// or the rune alone if there is none.
func (g *refDag) edges(rs []rune) [][]dagEdge {
	out := make([][]dagEdge, len(rs))
	for i := range rs {
		k := ""
		for j := i; j < len(rs); j++ {
			k += string(rs[j])
			if len(k) > g.maxB {
				break
			}
			if e, ok := g.d.m[k]; ok && e.Freq > 0 {
				out[i] = append(out[i], dagEdge{j + 1, math.Log(e.Freq) - g.logT})
			}
		}
		if len(out[i]) == 0 {
			out[i] = []dagEdge{{i + 1, -g.logT}}
		}
	}
	return out
}

// optimal marks the edges that lie on a most probable route (from each
// position on): opt[i] lists the ends reachable by a best edge.
func optimal(es [][]dagEdge) (opt [][]int, best []float64) {
	n := len(es)
	best = make([]float64, n+1)
	opt = make([][]int, n)
	for i := n - 1; i >= 0; i-- {
		best[i] = math.Inf(-1)
		first := true
		for _, e := range es[i] {
			v := e.w + best[e.to]
			if first || v > best[i] {
				best[i] = v
				first = false
			}
		}
		for _, e := range es[i] {
			v := e.w + best[e.to]
			if v == best[i] || math.Abs(v-best[i]) <= 1e-9*(1+math.Abs(best[i])) {
				opt[i] = append(opt[i], e.to)
			}
		}
	}
	return
}

func asciiAlnum(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

// matchNoHMM reports whether out is what some most probable route gives when
// consecutive single ASCII letters and digits are joined.
func matchNoHMM(rs []rune, opt [][]int, out []string) bool {
	type st struct{ x, b, o int }
	seen := map[st]bool{}
	n := len(rs)
	var rec func(x, b, o int) bool // x position, b start of the pending run (x if none), o next output
	rec = func(x, b, o int) bool {
		k := st{x, b, o}
		if seen[k] {
			return false
		}
		seen[k] = true
		if x == n {
			if b < x {
				if o >= len(out) || out[o] != string(rs[b:x]) {
					return false
				}
				o++
			}
			return o == len(out)
		}
		for _, y := range opt[x] {
			if y == x+1 && asciiAlnum(rs[x]) {
				if rec(y, b, o) {
					return true
				}
				continue
			}
			oo := o
			if b < x {
				if oo >= len(out) || out[oo] != string(rs[b:x]) {
					continue
				}
				oo++
			}
			if oo >= len(out) || out[oo] != string(rs[x:y]) {
				continue
			}
			if rec(y, y, oo+1) {
				return true
			}
		}
		return false
	}
	return rec(0, 0, 0)
}

// matchHMM reports whether out is what some most probable route gives when
// runs of single runes are handed to cut.
func matchHMM(rs []rune, opt [][]int, out []string, g *refDag, okCut func(buf string, got []string) bool) bool {
	type st struct{ x, b, o int }
	seen := map[st]bool{}
	n := len(rs)
	// flush accepts the outputs for the pending run rs[b:x] starting at out[o]; returns the next o or -1
	flush := func(b, x, o int) int {
		if b == x {
			return o
		}
		buf := string(rs[b:x])
		// outputs covering buf
		p := o
		ln := 0
		for p < len(out) && ln < len(buf) {
			ln += len(out[p])
			p++
		}
		if ln != len(buf) {
			return -1
		}
		got := out[o:p]
		if x-b == 1 {
			if len(got) == 1 && got[0] == buf {
				return p
			}
			return -1
		}
		if e, ok := g.d.m[buf]; ok && e.Freq != 0 {
			if len(got) != x-b {
				return -1
			}
			for i := b; i < x; i++ {
				if got[i-b] != string(rs[i]) {
					return -1
				}
			}
			return p
		}
		if okCut(buf, got) {
			return p
		}
		return -1
	}
	var rec func(x, b, o int) bool
	rec = func(x, b, o int) bool {
		k := st{x, b, o}
		if seen[k] {
			return false
		}
		seen[k] = true
		if x == n {
			return flush(b, x, o) == len(out)
		}
		for _, y := range opt[x] {
			if y == x+1 {
				if rec(y, b, o) {
					return true
				}
				continue
			}
			oo := flush(b, x, o)
			if oo < 0 || oo >= len(out) || out[oo] != string(rs[x:y]) {
				continue
			}
			if rec(y, y, oo+1) {
				return true
			}
		}
		return false
	}
	return rec(0, 0, 0)
}

// refFull is the full mode: every dictionary word of two or more runes, in
// order of its start, and the runes no word covers.
func refFull(es [][]dagEdge, rs []rune) []string {
	var out []string
	covered := -1
	for i := range es {
		if len(es[i]) == 1 && i > covered {
			out = append(out, string(rs[i:es[i][0].to]))
			covered = es[i][0].to - 1
			continue
		}
		for _, e := range es[i] {
			if e.to > i+1 {
				out = append(out, string(rs[i:e.to]))
				covered = e.to - 1
			}
		}
	}
	return out
}

// refGrams expands words for search: the two and three rune dictionary words
// inside each longer word, then the word.
func refGrams(d *refDict, words []string) []string {
	var out []string
	for _, w := range words {
		rs := []rune(w)
		for n := 2; n <= 3; n++ {
			if len(rs) <= n {
				continue
			}
			for i := 0; i+n <= len(rs); i++ {
				g := string(rs[i : i+n])
				if e, ok := d.m[g]; ok && e.Freq > 0 {
					out = append(out, g)
				}
			}
		}
		out = append(out, w)
	}
	return out
}

// ---- HMM ----

type hmmModel map[byte]map[rune]float64

const hmmMin = -3.14e100

var hmmTrans = map[byte]map[byte]float64{
	'B': {'E': -0.510825623765990, 'M': -0.916290731874155},
	'E': {'B': -0.5897149736854513, 'S': -0.8085250474669937},
	'M': {'E': -0.33344856811948514, 'M': -1.2603623820268226},
	'S': {'B': -0.7211965654669841, 'S': -0.6658631448798212},
}

var hmmStart = map[byte]float64{'B': -0.26268660809250016, 'E': hmmMin, 'M': hmmMin, 'S': -1.4652633398537678}

func (m hmmModel) emit(s byte, r rune) float64 {
	if p, ok := m[s][r]; ok {
		return p
	}
	return hmmMin
}

// forbidden transitions are not explored by the model
func hmmAllowed(a, b byte) bool { _, ok := hmmTrans[a][b]; return ok }

var hmmStates = []byte{'B', 'E', 'M', 'S'}

// hmmBest computes the greatest path value and, per position and state, the best value.
func hmmBest(m hmmModel, rs []rune) (best float64, v []map[byte]float64) {
	v = make([]map[byte]float64, len(rs))
	for t, r := range rs {
		v[t] = map[byte]float64{}
		for _, s := range hmmStates {
			if t == 0 {
				v[t][s] = m.emit(s, r) + hmmStart[s]
				continue
			}
			b := math.Inf(-1)
			for _, p := range hmmStates {
				if hmmAllowed(p, s) {
					if x := v[t-1][p] + hmmTrans[p][s] + m.emit(s, r); x > b {
						b = x
					}
				}
			}
			v[t][s] = b
		}
	}
	last := v[len(rs)-1]
	return math.Max(last['E'], last['S']), v
}

// hmmPathValue evaluates one path, or -Inf if it uses a forbidden transition.
func hmmPathValue(m hmmModel, rs []rune, path []byte) float64 {
	x := m.emit(path[0], rs[0]) + hmmStart[path[0]]
	for t := 1; t < len(rs); t++ {
		if !hmmAllowed(path[t-1], path[t]) {
			return math.Inf(-1)
		}
		x = x + hmmTrans[path[t-1]][path[t]] + m.emit(path[t], rs[t])
	}
	return x
}

// hmmOK reports whether got is the cut of an optimal path over the run.
func hmmOK(m hmmModel, run string, got []string) bool {
	rs := []rune(run)
	if strings.Join(got, "") != run {
		return false
	}
	best, v := hmmBest(m, rs)
	// ends[i]: a piece of got ends after rune i
	ends := make([]bool, len(rs))
	starts := make([]bool, len(rs))
	at := 0
	for _, g := range got {
		n := len([]rune(g))
		if n == 0 {
			return false
		}
		starts[at] = true
		at += n
		ends[at-1] = true
	}
	// labels fitting the pieces: single rune S, or E at the very start; B..E with M inside
	fits := func(i int, s byte) bool {
		switch s {
		case 'S':
			return starts[i] && ends[i]
		case 'B':
			return starts[i] && !ends[i]
		case 'M':
			return !ends[i] && (!starts[i] || i == 0)
		case 'E':
			return ends[i] && (!starts[i] || i == 0)
		}
		return false
	}
	tol := 1e-12 * (1 + math.Abs(best))
	_ = v
	cur := map[byte]float64{}
	for t, r := range rs {
		nxt := map[byte]float64{}
		for _, s := range hmmStates {
			if !fits(t, s) {
				continue
			}
			if t == 0 {
				nxt[s] = m.emit(s, r) + hmmStart[s]
				continue
			}
			b := math.Inf(-1)
			for p, x := range cur {
				if hmmAllowed(p, s) {
					if y := x + hmmTrans[p][s] + m.emit(s, r); y > b {
						b = y
					}
				}
			}
			if !math.IsInf(b, -1) {
				nxt[s] = b
			}
		}
		cur = nxt
	}
	bestFit := math.Inf(-1)
	for _, s := range []byte{'E', 'S'} {
		if x, ok := cur[s]; ok && x > bestFit {
			bestFit = x
		}
	}
	return bestFit >= best-tol
}

// block of the HMM cutter
type hmmBlock struct {
	text string
	han  bool
}

func isHan(r rune) bool { return unicode.Is(unicode.Han, r) }

// refBlocks splits a text for the HMM cutter: runs of Han characters, ASCII
// letter and digit runs (decimals kept together), and what lies between.
func refBlocks(s string) (out []hmmBlock) {
	i := 0
	alnumAt := func(p int) int { // length of the match at p, 0 if none
		d := p
		for d < len(s) && s[d] >= '0' && s[d] <= '9' {
			d++
		}
		if d > p && d+1 < len(s) && s[d] == '.' && s[d+1] >= '0' && s[d+1] <= '9' {
			e := d + 1
			for e < len(s) && s[e] >= '0' && s[e] <= '9' {
				e++
			}
			return e - p
		}
		e := p
		for e < len(s) && s[e] < 0x80 && asciiAlnum(rune(s[e])) {
			e++
		}
		return e - p
	}
	hanAt := func(p int) int {
		e := p
		for e < len(s) {
			r, n := utf8.DecodeRuneInString(s[e:])
			if !isHan(r) {
				break
			}
			e += n
		}
		return e - p
	}
	for i < len(s) {
		if n := hanAt(i); n > 0 {
			out = append(out, hmmBlock{s[i : i+n], true})
			i += n
			continue
		}
		if n := alnumAt(i); n > 0 {
			out = append(out, hmmBlock{s[i : i+n], false})
			i += n
			continue
		}
		j := i
		for j < len(s) && hanAt(j) == 0 && alnumAt(j) == 0 {
			_, n := utf8.DecodeRuneInString(s[j:])
			j += n
		}
		out = append(out, hmmBlock{s[i:j], false})
		i = j
	}
	return
}

// hmmCutOK reports whether got is a correct HMM cut of text.
func hmmCutOK(m hmmModel, text string, got []string) bool {
	return hmmBlocksOK(m, refBlocks(text), got)
}

func hmmBlocksOK(m hmmModel, blocks []hmmBlock, got []string) bool {
	o := 0
	for _, b := range blocks {
		if !b.han {
			if o >= len(got) || got[o] != b.text {
				return false
			}
			o++
			continue
		}
		p, ln := o, 0
		for p < len(got) && ln < len(b.text) {
			ln += len(got[p])
			p++
		}
		if ln != len(b.text) || !hmmOK(m, b.text, got[o:p]) {
			return false
		}
		o = p
	}
	return o == len(got)
}
