package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"encoding/json"
	"flag"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/vmcserver"
	"vmc.local/rt"
)

func init() {
	register(&checkDef{id: "C01",
		desc: "every pair of read operations on one shared segmenter as two threads, every schedule with one preemption at every step (two preemptions on a subset), results equal to those alone; the race detector sees only the synchronisation of the code under test",
		race: runC01})
	register(&checkDef{id: "H02",
		desc: "loading an HMM model while other threads cut: every pair of writer and reader, every schedule with up to two preemptions, each result equal to that of one model, no race, no deadlock",
		race: runH02})
	register(&checkDef{id: "C02",
		desc: "the handlers of the server: every pair of requests from a set as two threads, every schedule with one preemption (two for adds), every answer equals that of some serial order, no added word lost, no race, no deadlock; sequences of requests against a reference",
		run:  runC02seq, race: runC02})
}

var concEnts = []Ent{{"世界", 90, "n"}, {"世", 50, "v"}, {"カー", 30, "jp"}, {"go", 12, "n"}, {"go世", 9, "v"}, {"甲乙", 7, "n"}, {"甲乙丙丁", 4, "v"}, {"丙丁", 6, "n"}, {"lang", 5, "eng"}}

func runC01(c *Ctx) {
	resetVars()
	hmmCustom(0)
	ents := concEnts
	e := newEnv(Opts{}, ents, []string{"世", " "})
	bare := func() *env { return newEnv(Opts{}, ents, nil) }
	pair := func(text string, alone []string, a, b int, k int, shared *env, mk func() *env) {
		shown := text
		if len(text) > 60 {
			shown = fmt.Sprintf("%s... (%d bytes)", text[:20], len(text))
		}
		kind := ""
		if mk != nil {
			kind = "without stop words, "
		}
		c.Unit(fmt.Sprintf("%s | %s on %q, %s%d preemptions", readOps[a].name, readOps[b].name, shown, kind, k), func() {
			explore(c, conc{
				name:   fmt.Sprintf("%s | %s on %q", readOps[a].name, readOps[b].name, shown),
				budget: 3_000_000 + 10_000*uint64(len(text)),
				setup: func() []func() interface{} {
					for _, o := range []int{a, b} {
						if alone[o] == "" {
							alone[o] = dump(readOps[o].f(e, text))
						}
					}
					e := shared
					if e == nil {
						resetVars()
						hmmCustom(0)
						if mk != nil {
							e = mk()
						} else {
							e = newEnv(Opts{}, ents, []string{"世", " "})
						}
					}
					return []func() interface{}{
						func() interface{} { return dump(readOps[a].f(e, text)) },
						func() interface{} { return dump(readOps[b].f(e, text)) },
					}
				},
				judge: func(c *Ctx, res []interface{}, r rt.Result) {
					for i, o := range []int{a, b} {
						if res[i] != alone[o] {
							c.Failf("%s gives %v, alone %s", readOps[o].name, res[i], alone[o])
						}
					}
					if r.Switches > 0 {
						c.Outcome("preempted")
					} else {
						c.Outcome("not preempted")
					}
					c.State(fmt.Sprint(a, b, res[0], res[1]))
				},
			}, k)
		})
	}
	// different texts, several operations in a row, and what holds afterwards
	series := func(a, b int, ta, tb string, fresh bool) {
		env0 := newEnv(Opts{}, ents, []string{"世", " "})
		want := [2][2]string{}
		for i, o := range []int{a, b} {
			for j, t := range []string{ta, tb} {
				want[i][j] = dump(readOps[o].f(env0, t))
			}
		}
		kind := ""
		if fresh {
			kind = ", new segmenter"
		}
		name := fmt.Sprintf("%s %q | %s %q %q %q%s", readOps[a].name, ta, readOps[b].name, tb, ta, tb, kind)
		c.Unit("series "+name, func() {
			var cur *env
			explore(c, conc{
				name: name,
				setup: func() []func() interface{} {
					cur = env0
					if fresh {
						resetVars()
						hmmCustom(0)
						cur = newEnv(Opts{}, ents, []string{"世", " "})
					}
					e := cur
					return []func() interface{}{
						func() interface{} { return dump(readOps[a].f(e, ta)) },
						func() interface{} {
							return []string{dump(readOps[b].f(e, tb)), dump(readOps[b].f(e, ta)), dump(readOps[b].f(e, tb))}
						},
					}
				},
				judge: func(c *Ctx, res []interface{}, r rt.Result) {
					if res[0] != want[0][0] {
						c.Failf("%s of %q gives %v, alone %s", readOps[a].name, ta, res[0], want[0][0])
					}
					l, ok := res[1].([]string)
					if !ok {
						c.Failf("%s: %v", readOps[b].name, res[1])
						return
					}
					for i, w := range []string{want[1][1], want[1][0], want[1][1]} {
						if l[i] != w {
							c.Failf("%s number %d gives %s, alone %s", readOps[b].name, i, l[i], w)
						}
					}
					for i, o := range []int{a, b} {
						for j, t := range []string{ta, tb} {
							if g := dump(readOps[o].f(cur, t)); g != want[i][j] {
								c.Failf("afterwards %s of %q gives %s, alone %s", readOps[o].name, t, g, want[i][j])
							}
						}
					}
					if r.Switches > 0 {
						c.Outcome("preempted")
					}
				},
			}, 1)
		})
	}
	for a := range readOps {
		series(a, a, "世", "<b>乙", false)
	}
	for _, t := range []struct {
		text  string
		k     int
		fresh bool // a fresh environment per execution: the first use may fill something in
		same  bool
		bare  bool // without stop words
	}{
		{"甲乙丙丁x Go世", 0, true, false, false},
		{"世x的", 0, true, false, true},
		{"中国人民甲乙的了", 0, false, false, false},
		{"甲x", 1, true, true, false},
		{"甲x", 1, true, true, true},
		{"甲乙x", 1, false, false, false},
		{"甲乙丙丁x Go世", 1, false, true, false},
		{"甲x", 2, false, true, false},
	} {
		if t.k == 2 && !c.thorough {
			continue
		}
		alone := make([]string, len(readOps))
		for i, op := range readOps {
			if t.bare {
				alone[i] = dump(op.f(bare(), t.text))
			} else {
				alone[i] = dump(op.f(e, t.text))
			}
		}
		var mk func() *env
		if t.bare {
			mk = bare
		}
		for a := range readOps {
			for b := a; b < len(readOps); b++ {
				if t.same && a != b {
					continue
				}
				if t.fresh {
					pair(t.text, alone, a, b, t.k, nil, mk)
				} else {
					pair(t.text, alone, a, b, t.k, e, nil)
				}
			}
		}
	}
	for a := range readOps {
		series(a, a, "甲x", "世", true)
	}
	// long texts, one thread after the other: what is kept only for long ones
	for _, text := range []string{pump("甲乙丙丁x Go世", 8), pump("甲乙丙丁x Go世", 33), pump("甲乙1世的 ", 180), pump("甲乙1世的中<b> ", 300)} {
		for a := range readOps {
			alone := make([]string, len(readOps))
			pair(text, alone, a, a, 0, e, nil)
		}
	}
}

func runH02(c *Ctx) {
	ents := concEnts
	// the last one has two blocks that the models cut in different ways
	texts := []string{"甲乙丁", "甲x世丁", "甲乙丁x甲乙丁"}
	type wr struct {
		name string
		f    func()
		to   int // model after it, -1 the default
	}
	custom := func(i int) func() {
		return func() {
			m := customModel(i)
			hmm.LoadModel(m['B'], m['E'], m['M'], m['S'])
		}
	}
	writers := []wr{
		{"LoadModel 1", custom(1), 1},
		{"LoadModel 2", custom(2), 2},
		{"segmenter LoadModel 1", func() {
			m := customModel(1)
			(&gse.Segmenter{}).LoadModel(m['B'], m['E'], m['M'], m['S'])
		}, 1},
		{"default", func() { hmm.LoadModel() }, -1},
		{"segmenter LoadModel", func() { (&gse.Segmenter{}).LoadModel() }, -1},
		{"Init", func() { (&gse.Segmenter{}).Init() }, -1},
		{"LoadDictStr", func() { s := &gse.Segmenter{SkipLog: true}; s.LoadDictStr("世界 3 n\n") }, -1},
		{"HMMCutMod", func() {
			m := customModel(2)
			(&gse.Segmenter{}).HMMCutMod("甲", m['B'], m['E'], m['M'], m['S'])
		}, 2},
	}
	seg := buildSeg(Opts{}, ents)
	e := wrapEnv(seg)
	readers := []readOp{
		{"hmm.Cut", func(e *env, s string) interface{} { return hmm.Cut(s) }},
		{"HMMCut", func(e *env, s string) interface{} { return e.seg.HMMCut(s) }},
		{"Cut(true)", func(e *env, s string) interface{} { return e.seg.Cut(s, true) }},
		{"CutSearch(true)", func(e *env, s string) interface{} { return e.seg.CutSearch(s, true) }},
		{"Viterbi", func(e *env, s string) interface{} {
			_, p := hmm.Viterbi([]rune("甲乙世"), []byte{'B', 'M', 'E', 'S'})
			return string(p)
		}},
		{"ExtractTags", func(e *env, s string) interface{} { return e.tags.ExtractTags(s, 4) }},
	}
	set := func(m int) {
		if m < 0 {
			hmm.LoadModel()
		} else {
			custom(m)()
		}
	}
	for _, w := range writers {
		for _, rd := range readers {
			for ti, text := range texts {
				for _, start := range []int{0, 3, -1} {
					w, rd, text, start := w, rd, text, start
					slow := w.to == -1 || start == -1 // the default model takes long to load
					if start == -1 && w.to == -1 || ti >= 1 && slow || start == 3 && slow || ti == 2 && rd.name == "ExtractTags" {
						continue
					}
					k := 1
					if c.thorough || ti == 0 && start == 0 && (w.name == "LoadModel 1" || w.name == "default") {
						k = 2
					}
					if k == 2 && !c.thorough && rd.name != "hmm.Cut" && rd.name != "Cut(true)" {
						k = 1
					}
					if k == 2 && rd.name == "ExtractTags" {
						k = 1
					}
					if k == 2 && w.to == -1 && !c.thorough {
						k = 1
					}
					if k == 2 {
						text = "甲乙"
					}
					c.Unit(fmt.Sprintf("%s | %s, start %d, %d preemptions", w.name, rd.name, start, k), func() {
						set(w.to)
						after := dump(rd.f(e, text))
						set(start)
						before := dump(rd.f(e, text))
						explore(c, conc{
							name: fmt.Sprintf("%s | %s on %q, model %d", w.name, rd.name, text, start),
							setup: func() []func() interface{} {
								set(start)
								return []func() interface{}{
									func() interface{} { w.f(); return nil },
									func() interface{} { return dump(rd.f(e, text)) },
								}
							},
							judge: func(c *Ctx, res []interface{}, r rt.Result) {
								if res[0] != nil {
									c.Failf("%s: %v", w.name, res[0])
								}
								switch {
								case res[1] == after && after != before:
									c.Outcome("new model")
								case res[1] == before && after != before:
									c.Outcome("old model")
								case res[1] == before:
									c.Outcome("models agree")
								case rd.name == "Cut(true)" || rd.name == "CutSearch(true)" || rd.name == "ExtractTags":
									// several runs of the text may be cut by different models
									if !mixedCutOK(res[1], before, after) {
										c.Failf("%s gives %v, with the model before %s, after %s", rd.name, res[1], before, after)
									}
								default:
									c.Failf("%s gives %v, with the model before %s, after %s", rd.name, res[1], before, after)
								}
								if r.Switches > 0 {
									c.Outcome("preempted")
								}
								// the model is the writer's at the end
								if got := dump(rd.f(e, text)); got != after {
									c.Failf("afterwards %s gives %s, want %s", rd.name, got, after)
								}
								c.State(w.name, rd.name, text, fmt.Sprint(res[1]))
							},
						}, k)
					})
				}
			}
		}
	}
	// two writers: the model afterwards is one of the two
	for i := range writers {
		for j := range writers {
			if writers[i].to == writers[j].to {
				continue
			}
			i, j := i, j
			text := "甲乙丙丁世界"
			c.Unit(fmt.Sprintf("%s | %s", writers[i].name, writers[j].name), func() {
				set(writers[i].to)
				a := dump(hmm.Cut(text))
				set(writers[j].to)
				b := dump(hmm.Cut(text))
				explore(c, conc{
					name: fmt.Sprintf("%s | %s", writers[i].name, writers[j].name),
					setup: func() []func() interface{} {
						set(0)
						return []func() interface{}{
							func() interface{} { writers[i].f(); return nil },
							func() interface{} { writers[j].f(); return nil },
						}
					},
					judge: func(c *Ctx, res []interface{}, r rt.Result) {
						if res[0] != nil || res[1] != nil {
							c.Failf("%v %v", res[0], res[1])
						}
						if got := dump(hmm.Cut(text)); got != a && got != b {
							c.Failf("afterwards the text is cut %s, with one model %s, with the other %s", got, a, b)
						}
					},
				}, 1)
			})
		}
	}
}

// mixedCutOK: the two texts of H02 have one run for the HMM each, so a mixed
// result is never right.
func mixedCutOK(got interface{}, a, b string) bool { return got == a || got == b }

// ---- C02: the server ----

var (
	serverReady bool
	serverMux   *http.ServeMux
	serverVars  []reflect.Value // copies of the initial values
	serverPtrs  []reflect.Value
)

const serverDict = "世界 90 n\n世 50 v\ngo 12 n\n甲乙 7 n\n甲乙丙丁 4 v\n丙丁 6 n\n"

var serverEnts = []Ent{{"世界", 90, "n"}, {"世", 2, "v"}, {"go", 12, "n"}, {"甲乙", 7, "n"}, {"甲乙丙丁", 4, "v"}, {"丙丁", 6, "n"}}

// serverStart runs the main function of the server with the port it cannot
// listen on, so that it returns after the handlers are registered.
func serverStart(c *Ctx, useHMM bool) {
	if !serverReady {
		serverReady = true
		for _, v := range rt.Vars() {
			if !strings.HasSuffix(v.Pkg, "tools/server") {
				continue
			}
			e := reflect.ValueOf(v.Ptr).Elem()
			if e.Kind() == reflect.Ptr {
				if e.IsNil() || e.Type().Elem().Kind() != reflect.Struct {
					continue // flags
				}
				e = e.Elem()
			}
			cp := reflect.New(e.Type()).Elem()
			cp.Set(e)
			serverPtrs = append(serverPtrs, e)
			serverVars = append(serverVars, cp)
		}
		p := filepath.Join(c.scratch, "dict.txt")
		os.WriteFile(p, []byte(serverDict), 0o644)
		flag.Set("port", "-1")
		flag.Set("dict", p)
		flag.Set("static_folder", c.scratch)
	}
	flag.Set("hmm", fmt.Sprint(useHMM))
	for i, e := range serverPtrs {
		e.Set(serverVars[i])
		if s, ok := e.Addr().Interface().(*gse.Segmenter); ok {
			s.NotLoadHMM = true
			s.SkipLog = true
		}
	}
	http.DefaultServeMux = http.NewServeMux()
	serverMux = http.DefaultServeMux
	args := os.Args
	os.Args = os.Args[:1]
	vmcserver.Main()
	os.Args = args
	if c.part == "race" {
		runtime.GOMAXPROCS(1)
	}
}

type request struct {
	path, query string
	post        bool
}

func (r request) String() string {
	if len(r.query) > 200 {
		return fmt.Sprintf("%s?%s... (%d bytes, post %v)", r.path, r.query[:200], len(r.query), r.post)
	}
	if r.post {
		return r.path + " with " + r.query
	}
	return r.path + "?" + r.query
}

func postReq(text string) request {
	return request{"/json", url.Values{"text": {text}}.Encode(), true}
}

func addReq(text, freq, pos string) request {
	return request{"/add", url.Values{"text": {text}, "freq": {freq}, "pos": {pos}}.Encode(), false}
}

func jsonReq(text string) request {
	return request{"/json", url.Values{"text": {text}}.Encode(), false}
}

// handler resolves the handler before the threads run.
func handler(r request) func() interface{} {
	req := httptest.NewRequest("GET", r.path+"?"+r.query, nil)
	if r.post {
		req = httptest.NewRequest("POST", r.path, strings.NewReader(r.query))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	h, _ := serverMux.Handler(req)
	return func() interface{} {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		return fmt.Sprintf("%d %s %s", w.Code, w.Header().Get("Content-Type"), w.Body.String())
	}
}

var serverReqs = []request{
	jsonReq("甲乙丙丁go世"), jsonReq("丙丁甲"), addReq("丁go", "500", "nz"), addReq("乙丙", "900", "vn"), addReq("丁go", "3", "x"),
}

// serial gives the answers and final state of requests made one after another.
func serial(c *Ctx, useHMM bool, rs []request, probe []request) (ans []string, final string) {
	serverStart(c, useHMM)
	for _, r := range rs {
		ans = append(ans, handler(r)().(string))
	}
	for _, r := range probe {
		final += handler(r)().(string) + "\n"
	}
	return
}

func runC02(c *Ctx) {
	probe := []request{jsonReq("甲乙丙丁go世"), jsonReq("丙丁go乙丙"), jsonReq("世丁")}
	for _, useHMM := range []bool{false, true} {
		for a := range serverReqs {
			for b := a; b < len(serverReqs); b++ {
				useHMM, a, b := useHMM, a, b
				ra, rb := serverReqs[a], serverReqs[b]
				k := 1
				if c.thorough {
					k = 2
				}
				c.Unit(fmt.Sprintf("hmm=%v %v | %v, %d preemptions", useHMM, ra, rb, k), func() {
					hmmCustom(0)
					a1, f1 := serial(c, useHMM, []request{ra, rb}, probe)
					a2, f2 := serial(c, useHMM, []request{rb, ra}, probe)
					explore(c, conc{
						name: fmt.Sprintf("hmm=%v %v | %v", useHMM, ra, rb),
						setup: func() []func() interface{} {
							serverStart(c, useHMM)
							return []func() interface{}{handler(ra), handler(rb)}
						},
						judge: func(c *Ctx, res []interface{}, r rt.Result) {
							final := ""
							for _, p := range probe {
								final += handler(p)().(string) + "\n"
							}
							ok := res[0] == a1[0] && res[1] == a1[1] && final == f1 ||
								res[0] == a2[1] && res[1] == a2[0] && final == f2
							if !ok {
								c.Failf("answers %v and %v, afterwards %q; one after the other %v %q, or %v %q", res[0], res[1], final, a1, f1, a2, f2)
							}
							if r.Switches > 0 {
								c.Outcome("preempted")
							}
							c.State(ra.String(), rb.String(), fmt.Sprint(res[0], res[1], final))
						},
					}, k)
				})
			}
		}
	}
}

// runC02seq checks sequences of requests against a segmenter of its own.
func runC02seq(c *Ctx) {
	reqs := []request{
		jsonReq("甲乙丙丁go世"), jsonReq(""), jsonReq("丁go\"\\<>&\n"), jsonReq("GO \xff世界"),
		addReq("丁go", "500", "nz"), addReq("乙丙", "900", "vn"), addReq("甲乙", "77", "a"), addReq("", "5", "n"), addReq("x y", "2", ""),
		addReq("世丁", "nonsense", "n"), {"/json", "", false}, {"/add", "", false},
		postReq("甲乙丙丁go世界"), postReq(""),
	}
	n := 3
	if c.thorough {
		n = 4
	}
	type tok struct {
		text, pos string
	}
	c.budget = 2_000_000_000
	one := func(useHMM bool, seq []request) {
		serverStart(c, useHMM)
		ref := buildSeg(Opts{}, serverEnts)
		for _, r := range seq {
			got := handler(r)().(string)
			c.Trans(1)
			v, _ := url.ParseQuery(r.query)
			text := v.Get("text")
			want := ""
			if r.path == "/add" {
				f := 0.0
				fmt.Sscanf(v.Get("freq"), "%g", &f)
				ref.AddToken(text, f, v.Get("pos"))
				ref.CalcToken()
				want = `200 application/json {"code":200,"text":"ok"}`
			} else if useHMM {
				want = "200 application/json " + jsonOf(map[string]interface{}{"Seg": ref.Cut(text, true)})
			} else {
				l := []interface{}{}
				for _, s := range ref.Pos(text) {
					l = append(l, map[string]interface{}{"text": s.Text, "pos": s.Pos})
				}
				want = "200 application/json " + jsonOf(map[string]interface{}{"segments": l, "err": nil})
			}
			if !sameAnswer(got, want) {
				c.Failf("request %v gives %q want %q", r, got, want)
				return
			}
			c.State(want)
			c.Outcome(r.path)
		}
	}
	for _, useHMM := range []bool{false, true} {
		for first := range reqs {
			useHMM, first := useHMM, first
			c.Unit(fmt.Sprintf("hmm=%v first %v", useHMM, reqs[first]), func() {
				hmmCustom(0)
				product(len(reqs), n-1, func(d []int) {
					seq := []request{reqs[first]}
					for _, k := range d {
						seq = append(seq, reqs[k])
					}
					c.Case(func() string { return fmt.Sprintf("hmm=%v %v", useHMM, seq) }, func() { one(useHMM, seq) })
				})
			})
		}
		useHMM := useHMM
		c.Unit(fmt.Sprintf("hmm=%v characters", useHMM), func() {
			hmmCustom(0)
			for _, a := range richAtoms {
				a := a
				for _, b := range []string{"", "世界", "go", "&x=1", "\"", "</b>", "%41", "+"} {
					seq := []request{jsonReq(a + b), postReq(b + a), addReq(a+b, "9", a), jsonReq(b + a + b)}
					c.Case(func() string { return fmt.Sprintf("hmm=%v %v", useHMM, seq) }, func() { one(useHMM, seq) })
				}
			}
		})
		// long texts and many requests
		c.Unit(fmt.Sprintf("hmm=%v long texts", useHMM), func() {
			hmmCustom(0)
			for _, n := range pumpLens {
				for _, p := range []string{"甲乙丙丁go世", "世"} {
					t := pump(p, n)
					if len(t) > 20000 && n != 5000 || n == 5000 && useHMM {
						continue
					}
					seq := []request{jsonReq(t), postReq(t), jsonReq("世界")}
					c.Case(func() string { return fmt.Sprintf("hmm=%v %v", useHMM, seq) }, func() { one(useHMM, seq) })
				}
			}
		})
		c.Unit(fmt.Sprintf("hmm=%v many requests", useHMM), func() {
			hmmCustom(0)
			for _, n := range []int{5, 10, 17, 33, 65, 101, 129, 257, 520} {
				var seq []request
				for i := 0; i < n; i++ {
					seq = append(seq, addReq(bigWord(i), fmt.Sprint(1+i%90), fmt.Sprint("p", i%7)))
					switch i % 3 {
					case 0:
						seq = append(seq, jsonReq(bigWord(i)+bigWord(i/2)))
					case 1:
						seq = append(seq, postReq(bigWord(i+1)+bigWord(i-1)))
					}
				}
				c.Case(func() string { return fmt.Sprintf("hmm=%v %d words added", useHMM, n) }, func() { one(useHMM, seq) })
			}
		})
	}
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// sameAnswer compares two answers whose bodies are JSON.
func sameAnswer(a, b string) bool {
	if a == b {
		return true
	}
	pa, ba, ok1 := strings.Cut(a, "{")
	pb, bb, ok2 := strings.Cut(b, "{")
	if !ok1 || !ok2 || pa != pb {
		return false
	}
	var x, y interface{}
	if json.Unmarshal([]byte("{"+ba), &x) != nil || json.Unmarshal([]byte("{"+bb), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}
