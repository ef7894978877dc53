package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"vmc.local/rt"
)

// Ent is a dictionary entry given to the code under test.
type Ent struct {
	Text string
	Freq float64
	Pos  string
}

func (e Ent) String() string { return fmt.Sprintf("%q:%v/%s", e.Text, e.Freq, e.Pos) }

// Opts are the word splitting options.
type Opts struct{ AlphaNum, Alpha, Num bool }

func (o Opts) String() string {
	s := ""
	if o.AlphaNum {
		s += "AlphaNum "
	}
	if o.Alpha {
		s += "Alpha "
	}
	if o.Num {
		s += "Num "
	}
	if s == "" {
		s = "none "
	}
	return s[:len(s)-1]
}

var allOpts = func() (r []Opts) {
	for i := 0; i < 8; i++ {
		r = append(r, Opts{i&1 != 0, i&2 != 0, i&4 != 0})
	}
	return
}()

// newSeg makes an empty quiet segmenter.
func newSeg(o Opts) *gse.Segmenter {
	s := &gse.Segmenter{SkipLog: true, NotLoadHMM: true, AlphaNum: o.AlphaNum, Alpha: o.Alpha, Num: o.Num}
	s.Dict = gse.NewDict()
	s.Load = true
	s.Init()
	return s
}

// buildSeg adds the entries in order and calculates the paths.
func buildSeg(o Opts, ents []Ent) *gse.Segmenter {
	s := newSeg(o)
	for _, e := range ents {
		s.AddToken(e.Text, e.Freq, e.Pos)
	}
	s.CalcToken()
	return s
}

// buildHow builds the same dictionary along another history.
func buildHow(o Opts, ents []Ent, how int) *gse.Segmenter {
	switch how {
	case 0:
		return buildSeg(o, ents)
	case 1:
		// one by one, recalculated each time
		s := newSeg(o)
		for _, e := range ents {
			s.AddTokenForce(e.Text, e.Freq, e.Pos)
		}
		return s
	case 2:
		// in two halves, used in between
		s := newSeg(o)
		h := len(ents) / 2
		for _, e := range ents[h:] {
			s.AddToken(e.Text, e.Freq, e.Pos)
		}
		s.CalcToken()
		useSeg(s, ents)
		for _, e := range ents[:h] {
			s.AddToken(e.Text, e.Freq, e.Pos)
		}
		s.CalcToken()
		return s
	}
	// with other entries, used, then replaced and removed
	s := newSeg(o)
	has := map[string]bool{}
	for i, e := range ents {
		s.AddToken(e.Text, e.Freq*float64(i+2)+5, "old")
		has[string(joinWords(s.SplitTextToWords([]byte(e.Text))))] = true
	}
	var extra []string
	for i, e := range ents {
		if i > 0 {
			w := ents[i-1].Text + e.Text
			k := string(joinWords(s.SplitTextToWords([]byte(w))))
			if !has[k] {
				has[k] = true
				extra = append(extra, w)
				s.AddToken(w, 70000, "old")
			}
		}
	}
	s.CalcToken()
	useSeg(s, ents)
	for _, w := range extra {
		s.RemoveToken(w)
	}
	// the first entry of a text counts, as when they are added
	seen := map[string]bool{}
	for _, e := range ents {
		k := string(joinWords(s.SplitTextToWords([]byte(e.Text))))
		if !seen[k] {
			seen[k] = true
			s.ReAddToken(e.Text, e.Freq, e.Pos)
		}
	}
	s.CalcToken()
	return s
}

func joinWords(ws []gse.Text) (r []byte) {
	for _, w := range ws {
		r = append(r, w...)
	}
	return
}

// useSeg runs every mode on texts of the entries' words.
func useSeg(s *gse.Segmenter, ents []Ent) {
	for i, e := range ents {
		for _, t := range []string{e.Text, e.Text + ents[(i+1)%len(ents)].Text} {
			s.Slice(t)
			s.Slice(t, true)
			s.Cut(t, false)
			s.Cut(t, true)
			s.CutAll(t)
			s.CutSearch(t, false)
			s.Pos(t, true)
			s.Find(t)
		}
	}
}

// shortTexts are the texts for dictionaries that came about along a history.
func shortTexts(ts []string, n int) (r []string) {
	for _, t := range ts {
		if len([]rune(t)) <= 3 || len(r) < n/2 {
			r = append(r, t)
		}
		if len(r) >= n {
			break
		}
	}
	return
}

const nHow = 4

// ---- rune alphabets ----

// richAtoms are representatives of every class of input the code distinguishes.
var richAtoms = []string{
	"a", "Z", "0", " ", ".", "\n", "\x00", "_", "+",
	"é", "É", "Я", "İ", "²", "½", "·", "×", "\u0301", "ع", "٣",
	"世", "の", "カ", "ー", "한", "，", "　", "Ａ", "①", "Ⅷ", "ẞ", "K", "\u200d", "\ufffd", "〇",
	"😀", "𠀀", "𝐀", "𝟗",
	"\x80", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xc0\x80", "\xf0\x9f\x98",
}

// coreAtoms is a smaller set for longer texts.
var coreAtoms = []string{"a", "B", "7", " ", "-", "é", "²", "世", "カ", "한", "，", "😀", "\xff", "\xe4\xb8", "\x00"}

// sequences calls f for every sequence over atoms of length lo..hi, shortest first.
func sequences(atoms []string, lo, hi int, f func(parts []string)) {
	for n := lo; n <= hi; n++ {
		idx := make([]int, n)
		parts := make([]string, n)
		for {
			for i, k := range idx {
				parts[i] = atoms[k]
			}
			f(parts)
			i := n - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(atoms) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

func texts(atoms []string, lo, hi int, f func(s string)) {
	sequences(atoms, lo, hi, func(p []string) { f(strings.Join(p, "")) })
}

// allTexts lists the texts.
func allTexts(atoms []string, lo, hi int) (r []string) {
	texts(atoms, lo, hi, func(s string) { r = append(r, s) })
	return
}

// pumpLens are repetition counts around the thresholds implementations like to use.
var pumpLens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 24, 30, 31, 32, 33, 34, 40, 42, 43, 47, 48, 50, 51, 63, 64, 65, 66, 80, 85, 86, 96, 99, 100, 101, 102, 127, 128, 129, 130, 150, 170, 171, 199, 200, 201, 255, 256, 257, 258, 300, 333, 341, 342, 400, 500, 511, 512, 513, 600, 682, 683, 768, 999, 1000, 1001, 1023, 1024, 1025, 1366, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000}

func pump(pat string, n int) string { return strings.Repeat(pat, n) }

// product calls f with every assignment of k digits below base.
func product(base, k int, f func(d []int)) {
	d := make([]int, k)
	for {
		f(d)
		i := k - 1
		for ; i >= 0; i-- {
			d[i]++
			if d[i] < base {
				break
			}
			d[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// permutations of 0..n-1 in lexicographic order
func permutations(n int) (r [][]int) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for {
		r = append(r, append([]int(nil), p...))
		i := n - 2
		for i >= 0 && p[i] > p[i+1] {
			i--
		}
		if i < 0 {
			return
		}
		j := n - 1
		for p[j] < p[i] {
			j--
		}
		p[i], p[j] = p[j], p[i]
		for a, b := i+1, n-1; a < b; a, b = a+1, b-1 {
			p[a], p[b] = p[b], p[a]
		}
	}
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func q(s interface{}) string {
	out := fmt.Sprintf("%q", s)
	if len(out) > 600 {
		out = out[:600] + "..."
	}
	return out
}

func near(a, b, rel float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= rel*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// validRunes replaces every invalid byte by U+FFFD, as a conversion to runes does.
func validRunes(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}

// ---- deep hash of arbitrary values (unexported fields included) ----

type hasher struct {
	h    uint64
	seen map[uintptr]bool
	n    int
}

func (h *hasher) add(x uint64) {
	h.h ^= x
	h.h *= 0x100000001b3
	h.h ^= h.h >> 29
	h.n++
}

func (h *hasher) str(s string) {
	h.add(uint64(len(s)))
	for i := 0; i < len(s); i++ {
		h.h ^= uint64(s[i])
		h.h *= 0x100000001b3
	}
	h.n++
}

// deepHash identifies the observable content of a value: pointers are
// followed, capacity beyond length is ignored, nil and empty differ.
func deepHash(v interface{}) uint64 {
	h := &hasher{h: 14695981039346656037, seen: map[uintptr]bool{}}
	h.walk(reflect.ValueOf(v))
	return h.h
}

func (h *hasher) walk(v reflect.Value) {
	if !v.IsValid() {
		h.add(1)
		return
	}
	h.add(uint64(v.Kind()) + 7)
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.add(3)
		} else {
			h.add(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.add(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		c := v.Complex()
		h.add(math.Float64bits(real(c)))
		h.add(math.Float64bits(imag(c)))
	case reflect.String:
		h.str(v.String())
	case reflect.Slice:
		if v.IsNil() {
			h.add(11)
			return
		}
		h.add(uint64(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			h.str(string(b))
			return
		}
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			h.add(12)
			return
		}
		var sum, xor uint64
		for _, k := range v.MapKeys() {
			e := &hasher{h: 1099511628211, seen: h.seen}
			e.walk(k)
			e.walk(v.MapIndex(k))
			sum += e.h
			xor ^= e.h * 31
		}
		h.add(uint64(v.Len()))
		h.add(sum)
		h.add(xor)
	case reflect.Ptr:
		if v.IsNil() {
			h.add(13)
			return
		}
		p := v.Pointer()
		if h.seen[p] {
			h.add(14)
			return
		}
		h.seen[p] = true
		h.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			h.add(15)
			return
		}
		h.walk(v.Elem())
	case reflect.Struct:
		t := v.Type()
		switch t.String() {
		case "regexp.Regexp":
			// caches inside are not state of the code under test
			h.add(16)
			return
		}
		if strings.HasPrefix(t.PkgPath(), "vmc.local/rt") || t.PkgPath() == "sync" || t.PkgPath() == "sync/atomic" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			h.walk(v.Field(i))
		}
	default: // chan, func, unsafe pointer: identity only
		if v.Kind() == reflect.Func || v.Kind() == reflect.Chan || v.Kind() == reflect.UnsafePointer {
			if v.IsNil() {
				h.add(17)
			} else {
				h.add(18)
			}
		}
	}
}

// globalsHash hashes the package-level variables of the code under test,
// except tables of more than limit entries (checked by length only).
func globalsHash(pkgs ...string) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range rt.Vars() {
		ok := len(pkgs) == 0
		for _, p := range pkgs {
			if v.Pkg == p {
				ok = true
			}
		}
		if !ok {
			continue
		}
		e := reflect.ValueOf(v.Ptr).Elem()
		name := v.Pkg + "." + v.Name
		if big(e) {
			r[name] = uint64(e.Len())
			continue
		}
		r[name] = deepHash(v.Ptr)
	}
	return r
}

func big(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map, reflect.Slice, reflect.Array:
		if v.Len() > 64 {
			return true
		}
		if v.Kind() == reflect.Map {
			for _, k := range v.MapKeys() {
				e := v.MapIndex(k)
				if e.Kind() == reflect.Map && e.Len() > 64 {
					return true
				}
			}
		}
	}
	return false
}

func diffHash(a, b map[string]uint64) (r []string) {
	for k, v := range a {
		if b[k] != v {
			r = append(r, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

// ---- reflection based copies ----

// dump renders any result for comparison.
func dump(v interface{}) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		sb.WriteString("~")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if m := v.MethodByName("Error"); v.Kind() != reflect.Interface && m.IsValid() && v.CanInterface() {
		if e, ok := v.Interface().(error); ok {
			if v.Kind() == reflect.Ptr && v.IsNil() {
				sb.WriteString("nil")
				return
			}
			sb.WriteString("err(" + e.Error() + ")")
			return
		}
	}
	switch v.Kind() {
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			sb.WriteString(strconv.Quote(string(v.Bytes())))
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			dumpTo(sb, v.Index(i), depth+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := dumpKey(k)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		sb.WriteString("{")
		for _, k := range ks {
			sb.WriteString(k + ":")
			dumpTo(sb, m[k], depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpTo(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			dumpTo(sb, v.Field(i), depth+1)
		}
		sb.WriteString("}")
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	default:
		sb.WriteString(v.Kind().String())
	}
}

func dumpKey(k reflect.Value) string {
	var sb strings.Builder
	dumpTo(&sb, k, 0)
	return sb.String()
}
