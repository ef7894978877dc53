package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"vmc.local/rt"
)

// A check enumerates cases grouped in units. Units are claimed dynamically by
// the shard processes; the numbering of units and cases is deterministic, so
// that (unit, case) is a replayable name of one execution.

type checkDef struct {
	id     string
	desc   string // one line: what is enumerated and compared
	run    func(c *Ctx)
	race   func(c *Ctx) // part that runs in the race-detector build, may be nil
	assume []string
}

var checks = map[string]*checkDef{}

func register(d *checkDef) { checks[d.id] = d }

type violation struct {
	Part string `json:"part"`
	Unit int    `json:"unit"`
	Case int    `json:"case"`
	Key  string `json:"key"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
	// the shard that found it, and the units it takes to run before it if it
	// does not fail alone
	Index   int   `json:"index"`
	History []int `json:"history,omitempty"`
}

type shardOut struct {
	Evals      int64
	Trans      int64
	Traces     int64
	Units      int64
	Exhaustive bool
	Samples    []string
	Viol       []violation
	Outcomes   map[string]int64
	MaxSteps   uint64
}

const maxUnits = 1 << 22

type Ctx struct {
	id, tier  string
	thorough  bool
	part      string
	claims    []byte
	journal   []byte
	unit      int
	kase      int
	onlyUnit  int
	history   map[int]bool // units to run before onlyUnit
	index     int
	onlyCase  int
	deadline  time.Time
	expired   bool
	out       shardOut
	states    map[uint64]struct{}
	stopped   bool
	budget    uint64
	sampleMod int
	verbose   bool
	scratch   string
	curMsg    []string
	curKey    string
	curBad    bool
	curDesc   func() string
	unitName  string
}

const stateCap = 4 << 20

// Unit runs f if this shard claims the unit.
func (c *Ctx) Unit(name string, f func()) {
	c.unit++
	c.kase = 0
	if c.stopped {
		return
	}
	if c.onlyUnit > 0 {
		if c.unit != c.onlyUnit && !c.history[c.unit] {
			return
		}
	} else {
		if c.Expired() {
			return
		}
		if c.unit >= maxUnits {
			panic("too many units")
		}
		w := (*uint32)(unsafe.Pointer(&c.claims[(c.unit&^3)&(maxUnits-1)]))
		sh := uint(8 * (c.unit & 3))
		for {
			old := atomic.LoadUint32(w)
			if old>>sh&0xff != 0 {
				return
			}
			if atomic.CompareAndSwapUint32(w, old, old|uint32(c.index+1)<<sh) {
				break
			}
		}
	}
	c.out.Units++
	c.unitName = name
	if f := os.Getenv("VMC_TIMES"); f != "" {
		// times of the units, for tuning
		t0, n0 := time.Now(), c.out.Evals
		defer func() {
			if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(w, "%8.3f %d %s\n", time.Since(t0).Seconds(), c.out.Evals-n0, name)
				w.Close()
			}
		}()
	}
	func() {
		// building the start state of a unit must not fail either
		c.mark()
		rt.Begin(2_000_000_000)
		defer rt.End()
		defer func() {
			if r := recover(); r != nil {
				if c.onlyCase > 0 && c.verbose {
					fmt.Printf("unit %q panicked: %v\n%s\n", name, r, debug.Stack())
				}
				c.record(fmt.Sprintf("panic outside a case: %v", r), name, "unit "+name)
			}
		}()
		f()
	}()
}

func (c *Ctx) Expired() bool {
	if c.onlyUnit > 0 {
		return false
	}
	if !c.expired && time.Now().After(c.deadline) {
		c.expired = true
	}
	return c.expired
}

func (c *Ctx) mark() {
	atomic.StoreUint64((*uint64)(unsafe.Pointer(&c.journal[0])), uint64(c.unit))
	atomic.StoreUint64((*uint64)(unsafe.Pointer(&c.journal[8])), uint64(c.kase))
	atomic.AddUint64((*uint64)(unsafe.Pointer(&c.journal[16])), 1)
}

// note writes a short description to the journal, to name the case if the process dies.
func (c *Ctx) note(s string) {
	if len(s) > 3000 {
		s = s[:3000]
	}
	binary.LittleEndian.PutUint32(c.journal[24:], uint32(len(s)))
	copy(c.journal[32:], s)
}

// Case evaluates one case; f reports through c.Failf.
func (c *Ctx) Case(desc func() string, f func()) {
	c.kase++
	if c.stopped {
		return
	}
	if c.onlyCase > 0 && c.kase != c.onlyCase && (c.history == nil || c.unit == c.onlyUnit && c.kase > c.onlyCase) {
		return
	}
	if c.kase&255 == 0 && c.Expired() {
		return
	}
	c.mark()
	c.out.Evals++
	c.curBad = false
	c.curMsg = c.curMsg[:0]
	c.curKey = ""
	c.curDesc = desc
	steps := c.guard(f)
	if steps > c.out.MaxSteps {
		c.out.MaxSteps = steps
	}
	if c.curBad {
		d := desc()
		k := c.curKey
		if k == "" {
			k = d
		}
		c.record(strings.Join(c.curMsg, "; "), k, d)
		return
	}
	c.out.Traces++
	if len(c.out.Samples) < 3 && (c.kase == 1 || c.kase%997 == 0) {
		d := desc()
		if len(d) > 400 {
			d = d[:400] + "..."
		}
		c.out.Samples = append(c.out.Samples, d)
	}
}

func (c *Ctx) guard(f func()) (steps uint64) {
	rt.Begin(c.budget)
	defer func() {
		steps = rt.End()
		rt.Begin(2_000_000_000) // unit level budget continues
		if r := recover(); r != nil {
			if h, ok := r.(rt.Hang); ok {
				c.Failf("does not terminate: more than %d steps", h.Steps)
				return
			}
			if c.verbose {
				fmt.Printf("%s\n", debug.Stack())
			}
			c.Failf("panic: %v", r)
		}
	}()
	f()
	return
}

// Failf records that the current case violates the property.
func (c *Ctx) Failf(f string, a ...interface{}) {
	c.curBad = true
	if len(c.curMsg) < 4 {
		m := fmt.Sprintf(f, a...)
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		c.curMsg = append(c.curMsg, m)
	}
}

// Key names the failing input for the known-findings file.
func (c *Ctx) Key(k string) { c.curKey = k }

func (c *Ctx) record(msg, key, desc string) {
	if len(desc) > 4000 {
		desc = desc[:4000] + "..."
	}
	if c.unitName != "" {
		desc = "[" + c.unitName + "] " + desc
	}
	known := isKnown(c.id, key)
	n := 0
	for _, v := range c.out.Viol {
		if !isKnown(c.id, v.Key) {
			n++
		}
	}
	c.out.Viol = append(c.out.Viol, violation{c.part, c.unit, c.kase, key, desc, msg, c.index, nil})
	if c.verbose {
		fmt.Printf("FAILS property=%s unit=%d case=%d\n  case: %s\n  %s\n", c.id, c.unit, c.kase, desc, msg)
	}
	if !known && n >= 4 {
		c.stopped = true
	}
	if len(c.out.Viol) > 2000 {
		c.stopped = true
	}
}

// State adds an observed state or outcome to the set of distinct ones.
func (c *Ctx) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0xff, 0})
	}
	c.StateHash(h.Sum64())
}

func (c *Ctx) StateHash(h uint64) {
	if len(c.states) < stateCap {
		c.states[h] = struct{}{}
	}
}

// Trans counts operations executed on the implementation.
func (c *Ctx) Trans(n int) { c.out.Trans += int64(n) }

// Outcome counts a class of outcome (vacuity guard).
func (c *Ctx) Outcome(k string) {
	if c.out.Outcomes == nil {
		c.out.Outcomes = map[string]int64{}
	}
	c.out.Outcomes[k]++
}

// ---- known findings ----

type finding struct{ id, key, text string }

var findings []finding

func loadFindings() {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=ID key=<quoted> <what fails>
		f := strings.TrimPrefix(l, "known: ")
		var id string
		if i := strings.Index(f, " "); i > 0 && strings.HasPrefix(f, "property=") {
			id = f[len("property="):i]
			f = f[i+1:]
		}
		if strings.HasPrefix(f, "key=") {
			q, err := strconv.QuotedPrefix(f[4:])
			if err == nil {
				k, _ := strconv.Unquote(q)
				findings = append(findings, finding{id, k, strings.TrimSpace(f[4+len(q):])})
			}
		}
	}
}

func isKnown(id, key string) bool {
	for _, f := range findings {
		if f.id == id && f.key == key {
			return true
		}
	}
	return false
}

// ---- processes ----

var (
	verifDir  = "/verif"
	fCheck    = flag.String("check", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fShard    = flag.String("shard", "", "internal: directory of the run")
	fIndex    = flag.Int("index", 0, "internal: shard number")
	fPart     = flag.String("part", "main", "internal: main or race")
	fUnit     = flag.Int("unit", 0, "replay: unit")
	fCase     = flag.Int("case", 0, "replay: case")
	fReplay   = flag.String("replay", "", "replay a violation file")
	fShards   = flag.Int("shards", 0, "number of shard processes")
	fDeadline = flag.Int("deadline", 0, "seconds")
	fRaceBin  = flag.String("racebin", "", "race build of this program")
	fHistory  = flag.String("history", "", "internal: units to run before the unit")
	fList     = flag.Bool("list", false, "list checks")
)

func mmapFile(path string, size int) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if st, _ := f.Stat(); st.Size() < int64(size) {
		if err := f.Truncate(int64(size)); err != nil {
			panic(err)
		}
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

func main() {
	flag.Parse()
	if d := os.Getenv("VMC_VERIF"); d != "" {
		verifDir = d
	}
	loadFindings()
	if *fList {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].race != nil, checks[id].run != nil, checks[id].desc)
		}
		return
	}
	if *fReplay != "" {
		replay()
		return
	}
	d := checks[*fCheck]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *fCheck)
		os.Exit(2)
	}
	if *fShard != "" {
		shardMain(d)
		return
	}
	os.Exit(parent(d))
}

func replay() {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Property, Tier string
		V              violation
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	dir, _ := os.MkdirTemp("", "vmcreplay")
	defer os.RemoveAll(dir)
	bin, _ := os.Executable()
	if r.V.Part == "race" {
		bin = *fRaceBin
	}
	out, code := runOnly(bin, dir, r.Property, r.Tier, r.V, true)
	fmt.Print(out)
	fmt.Println("replay exit code", code)
	if code != 0 {
		os.Exit(1)
	}
}

func shardMain(d *checkDef) {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	dir := *fShard
	c := &Ctx{id: d.id, tier: *fTier, thorough: *fTier == "thorough", part: *fPart,
		onlyUnit: *fUnit, onlyCase: *fCase, states: map[uint64]struct{}{}, budget: 50_000_000}
	c.deadline = time.Now().Add(time.Duration(*fDeadline) * time.Second)
	c.index = *fIndex
	if *fHistory != "" {
		c.history = map[int]bool{}
		for _, u := range strings.Split(*fHistory, ",") {
			k, _ := strconv.Atoi(u)
			c.history[k] = true
		}
	}
	c.verbose = c.onlyUnit > 0
	c.scratch = filepath.Join(dir, fmt.Sprintf("scratch%s%d", *fPart, *fIndex))
	os.MkdirAll(c.scratch, 0o755)
	c.claims = mmapFile(filepath.Join(dir, "claims."+*fPart), maxUnits)
	c.journal = mmapFile(filepath.Join(dir, fmt.Sprintf("journal.%s.%d", *fPart, *fIndex)), 4096)
	if *fPart == "race" {
		runtime.GOMAXPROCS(1)
		d.race(c)
	} else {
		if runtime.NumCPU() > 1 {
			runtime.GOMAXPROCS(2)
		}
		debug.SetGCPercent(400)
		d.run(c)
	}
	c.out.Exhaustive = !c.expired && !c.stopped
	if c.onlyUnit > 0 {
		if len(c.out.Viol) > 0 {
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	f, _ := os.Create(filepath.Join(dir, fmt.Sprintf("states.%s.%d", *fPart, *fIndex)))
	w := bufio.NewWriterSize(f, 1<<20)
	var b8 [8]byte
	for h := range c.states {
		binary.LittleEndian.PutUint64(b8[:], h)
		w.Write(b8[:])
	}
	w.Flush()
	f.Close()
	b, err := json.Marshal(c.out)
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("out.%s.%d", *fPart, *fIndex)), b, 0o644)
}

func shardEnv(part string) []string {
	env := os.Environ()
	if part == "race" {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66 history_size=7 atexit_sleep_ms=0")
	}
	env = append(env, "GOTRACEBACK=single")
	return env
}

// run one case alone
func runOnly(bin, dir, id, tier string, v violation, show bool) (string, int) {
	cmd := exec.Command(bin, "-check", id, "-tier", tier, "-shard", dir, "-index", "99", "-part", v.Part,
		"-unit", strconv.Itoa(v.Unit), "-case", strconv.Itoa(v.Case), "-deadline", "3600")
	limit := 120 * time.Second
	if len(v.History) > 0 {
		limit = 400 * time.Second
		var us []string
		for _, u := range v.History {
			us = append(us, strconv.Itoa(u))
		}
		cmd.Args = append(cmd.Args, "-history", strings.Join(us, ","))
	}
	cmd.Env = shardEnv(v.Part)
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return err.Error(), -1
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return sb.String(), cmd.ProcessState.ExitCode()
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		if len(v.History) > 0 {
			return sb.String() + "\nnot done in time, killed\n", 0
		}
		return sb.String() + "\nno progress for 120 s, killed\n", 124
	}
}

// unitsOf lists the units the shard of a violation ran, up to its own.
func unitsOf(dir string, v violation) (us []int) {
	b, err := os.ReadFile(filepath.Join(dir, "claims."+v.Part))
	if err != nil {
		return []int{v.Unit}
	}
	for u := 1; u <= v.Unit && u < len(b); u++ {
		if int(b[u]) == v.Index+1 {
			us = append(us, u)
		}
	}
	return
}

func parent(d *checkDef) int {
	t0 := time.Now()
	n := *fShards
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	dl := *fDeadline
	if dl == 0 {
		dl = 420
		if *fTier == "thorough" {
			dl = 700
		}
	}
	os.MkdirAll(filepath.Join(verifDir, "build"), 0o755)
	dir, err := os.MkdirTemp(filepath.Join(verifDir, "build"), "run-"+d.id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	total := shardOut{Exhaustive: true, Outcomes: map[string]int64{}}
	states := map[uint64]struct{}{}
	var viol []violation
	perPart := map[string]map[string]int64{}
	for _, part := range []string{"main", "race"} {
		bin := self
		if part == "main" && d.run == nil || part == "race" && d.race == nil {
			continue
		}
		if part == "race" {
			bin = *fRaceBin
			if bin == "" {
				fmt.Fprintln(os.Stderr, "race build missing")
				return 2
			}
		}
		left := dl - int(time.Since(t0).Seconds())
		if left < 20 {
			left = 20
		}
		if d.run != nil && d.race != nil && part == "main" {
			left /= 2
		}
		outs, vs := runShards(bin, dir, d.id, part, n, left)
		viol = append(viol, vs...)
		var pe, pt, ptr int64
		for _, o := range outs {
			if o == nil {
				total.Exhaustive = false
				continue
			}
			pe += o.Evals
			pt += o.Trans
			ptr += o.Traces
			total.Units += o.Units
			total.Exhaustive = total.Exhaustive && o.Exhaustive
			if len(total.Samples) < 8 {
				total.Samples = append(total.Samples, o.Samples...)
			}
			viol = append(viol, o.Viol...)
			for k, v := range o.Outcomes {
				total.Outcomes[k] += v
			}
			if o.MaxSteps > total.MaxSteps {
				total.MaxSteps = o.MaxSteps
			}
		}
		total.Evals += pe
		total.Trans += pt
		total.Traces += ptr
		perPart[part] = map[string]int64{"executions": pe, "operations": pt}
		for i := 0; i < n; i++ {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states.%s.%d", part, i)))
			if err != nil {
				continue
			}
			for j := 0; j+8 <= len(b); j += 8 {
				states[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
	}
	sort.Slice(viol, func(i, j int) bool {
		a, b := viol[i], viol[j]
		if a.Part != b.Part {
			return a.Part < b.Part
		}
		if a.Unit != b.Unit {
			return a.Unit < b.Unit
		}
		return a.Case < b.Case
	})
	// confirm and report
	code := 0
	reported := 0
	var unconfirmed []violation
	knownSeen := map[string]bool{}
	historyTried := false
	for _, v := range viol {
		if isKnown(d.id, v.Key) {
			if !knownSeen[v.Key] {
				knownSeen[v.Key] = true
			}
			continue
		}
		if reported >= 3 {
			break
		}
		bin := self
		if v.Part == "race" {
			bin = *fRaceBin
		}
		again := 0
		tries := 5
		for i := 0; i < tries; i++ {
			if _, c := runOnly(bin, dir, d.id, *fTier, v, false); c != 0 {
				again++
				if again == 3 {
					tries = i + 1
					break
				}
			} else if i == 4 && again == 0 && tries == 5 {
				tries = 25
			}
		}
		if again == 0 && !historyTried {
			// does it take what ran before in the process?
			for _, full := range []bool{false, true} {
				v.History = []int{v.Unit}
				if full {
					v.History = unitsOf(dir, v)
				}
				left := 760 - time.Since(t0).Seconds()
				if left < 410 && full {
					break
				}
				if _, c := runOnly(bin, dir, d.id, *fTier, v, false); c != 0 {
					again, tries = 1, 1
					break
				}
			}
			historyTried = again == 0
		}
		if again == 0 {
			v.History = nil
			unconfirmed = append(unconfirmed, v)
			continue
		}
		rdir := filepath.Join(verifDir, "build", "replay")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", d.id, v.Part, v.Unit, v.Case))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": d.id, "tier": *fTier, "v": v,
			"reproduced": fmt.Sprintf("%d of %d", again, tries),
			"how":        "./run.sh " + d.id + " " + *fTier + " -replay " + rp}, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("%s: %s\n    %s\n", d.id, short(v.Desc, 700), short(v.Msg, 900))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, rp)
		reported++
		code = 1
	}
	for _, f := range findings {
		if f.id == d.id && knownSeen[f.key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.id, f.text)
		}
	}
	for i, u := range unconfirmed {
		if i < 5 {
			fmt.Printf("not reproduced, not reported: %s: %s\n", short(u.Desc, 300), short(u.Msg, 300))
		}
		total.Exhaustive = false
	}
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   total.Trans,
		"traces_validated_against_impl": total.Traces,
		"evaluations":                   total.Evals,
		"units":                         total.Units,
		"exhaustive":                    total.Exhaustive,
		"samples":                       total.Samples,
		"outcomes":                      total.Outcomes,
		"max_steps_of_a_case":           total.MaxSteps,
		"parts":                         perPart,
		"rule":                          d.desc,
	}
	ev := map[string]interface{}{
		"property": d.id, "tier": *fTier, "seed": 1, "level": "model_checking",
		"coverage": cov, "assumptions": d.assume, "wall_s": time.Since(t0).Seconds(), "violations": reported,
	}
	if d.assume == nil {
		ev["assumptions"] = []string{}
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		ev["seed"] = s
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", d.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d distinct states, %d operations, exhaustive=%v, violations=%d, %.1fs\n",
		d.id, *fTier, total.Evals, len(states), total.Trans, total.Exhaustive, reported, time.Since(t0).Seconds())
	return code
}

func runShards(bin, dir, id, part string, n, deadline int) ([]*shardOut, []violation) {
	outs := make([]*shardOut, n)
	var mu sync.Mutex
	var vs []violation
	mmapFile(filepath.Join(dir, "claims."+part), maxUnits)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			jn := mmapFile(filepath.Join(dir, fmt.Sprintf("journal.%s.%d", part, i)), 4096)
			defer syscall.Munmap(jn)
			cmd := exec.Command(bin, "-check", id, "-tier", *fTier, "-shard", dir, "-index", strconv.Itoa(i), "-part", part, "-deadline", strconv.Itoa(deadline))
			cmd.Env = shardEnv(part)
			var sb tailBuf
			cmd.Stdout = &sb
			cmd.Stderr = &sb
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			last, lastAt := uint64(0), time.Now()
			stalled := false
			var werr error
		loop:
			for {
				select {
				case werr = <-done:
					break loop
				case <-time.After(time.Second):
					k := atomic.LoadUint64((*uint64)(unsafe.Pointer(&jn[16])))
					if k != last {
						last, lastAt = k, time.Now()
					} else if time.Since(lastAt) > 240*time.Second && !stalled {
						stalled = true
						cmd.Process.Kill()
					}
				}
			}
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%s.%d", part, i)))
			if werr == nil && err == nil {
				o := new(shardOut)
				if json.Unmarshal(b, o) == nil {
					outs[i] = o
					return
				}
			}
			u := int(atomic.LoadUint64((*uint64)(unsafe.Pointer(&jn[0]))))
			k := int(atomic.LoadUint64((*uint64)(unsafe.Pointer(&jn[8]))))
			ln := int(binary.LittleEndian.Uint32(jn[24:]))
			note := ""
			if ln > 0 && ln <= 3000 {
				note = string(jn[32 : 32+ln])
			}
			msg := "process died: " + sb.String()
			if stalled {
				msg = "no progress for 240 s: " + sb.String()
			}
			mu.Lock()
			vs = append(vs, violation{part, u, k, fmt.Sprintf("unit %d case %d", u, k), fmt.Sprintf("unit %d case %d %s", u, k, note), msg, i, nil})
			mu.Unlock()
		}()
	}
	wg.Wait()
	return outs, vs
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
		if len(t.b) > 6000 {
			t.b = t.b[:6000]
		}
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
