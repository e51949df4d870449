package vsched

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Scenario is one bounded system whose executions are enumerated.
type Scenario struct {
	Name    string
	Cfg     Config
	Body    func(x *X)
	MaxCost int // deviations explored in the quick tier
	Deep    int // deviations explored in the thorough tier (0: MaxCost+1)
	Split   int // leading deviations that decide which worker owns a subtree (default 1)
	// Allow says whether an outcome other than OK is acceptable (nil: none is, except Killed).
	Allow func(x *X, o Outcome, msg string) bool
	// Thorough scenarios run in the thorough tier only.
	Thorough bool
	// Whole scenarios enumerate cases inside a single execution and are split by X.Mine.
	Whole bool
	// Scenarios with a deviation bound are explored under either default order (Config.Recent), unless
	// One is set. Recent is the other order's quick bound, if it is not MaxCost.
	One    bool
	Recent int
}

// Property is a check.
type Property struct {
	ID        string
	Scenarios []Scenario
	// Params describes the bounds for the evidence.
	Bounds      string
	Assumptions []string
	QuickSec    float64
	DeepSec     float64
}

// X is what a scenario's body reports to.
type X struct {
	P       *Property
	S       *Scenario
	Tier    string
	fail    string
	obs     uint64
	hasObs  bool
	Cases   int64
	States  int64
	worker  int
	workers int
	mineSeq int
	cut     bool // out of time
	samples []string
	known   []string
	cur     string
}

type stop struct{}

// Failf reports a violation and ends the execution.
func (x *X) Failf(f string, a ...interface{}) {
	if x.fail == "" {
		x.fail = fmt.Sprintf(f, a...)
	}
	if Active() {
		finish(Killed, "violation")
	}
}

// Check is Failf unless ok.
func (x *X) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		x.Failf(f, a...)
	}
}

// Observe adds to the execution's fingerprint.
func (x *X) Observe(f string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", x.obs)
	fmt.Fprintf(h, f, a...)
	x.obs = h.Sum64()
	x.hasObs = true
}

// Sample keeps a written-out case for the evidence.
func (x *X) Sample(f string, a ...interface{}) {
	if len(x.samples) < 4 {
		x.samples = append(x.samples, fmt.Sprintf(f, a...))
	}
}

// Case counts one enumerated case; desc (kept only for reporting) says which.
func (x *X) Case() { x.Cases++ }

// Mine splits an enumeration over the workers: call once per item.
func (x *X) Mine() bool {
	x.Alive()
	if !wholeUntil.IsZero() && time.Now().After(wholeUntil) {
		x.cut = true
		return false
	}
	x.mineSeq++
	return (x.mineSeq-1)%x.workers == x.worker
}

// Alive tells that an enumeration goes on: it does not hang, and each case has the whole allowance of loop iterations.
func (x *X) Alive() {
	progress++
	ticks = 0
}

// wholeUntil ends enumerations within one execution.
var wholeUntil time.Time

// Deep says whether this is the thorough tier.
func (x *X) Deep() bool { return x.Tier == "thorough" }

type node struct {
	devs []dev
	cost int
}

type scStat struct {
	Name      string
	Execs     int64
	Levels    []int64 // executions per number of deviations
	Complete  int     // all executions with at most this many deviations were run (-1: none)
	Pending   int64
	Nodes     int64
	Steps     int64
	Cases     int64
	States    int64
	MaxSteps  int
	Obs       map[uint64]struct{} `json:"-"`
	ObsList   []uint64
	Nondet    int64
	Samples   []string
	Exhausted bool
}

type workerOut struct {
	Violation *Violation
	Stats     []*scStat
	Err       string
}

// Violation as reported and replayed.
type Violation struct {
	Property string
	Scenario string
	Message  string
	Devs     []dev
	Outcome  string
	Tier     string
	Worker   int
	Workers  int
	Log      []string
}

func runScenario(p *Property, s *Scenario, tier string, ds []dev, withLog bool, w, ws int) (*X, *Result) {
	x := &X{P: p, S: s, Tier: tier, worker: w, workers: ws}
	res := RunOne(s.Cfg, ds, withLog, func() { s.Body(x) })
	if x.fail == "" && res.Outcome != OK && res.Outcome != Killed {
		if s.Allow == nil || !s.Allow(x, res.Outcome, res.Msg) {
			x.fail = res.Outcome.String() + ": " + res.Msg
		}
	}
	if res.Diverged && x.fail == "" {
		x.fail = ""
	}
	return x, res
}

func hashDevs(ds []dev) uint64 {
	h := fnv.New64a()
	for _, d := range ds {
		fmt.Fprintf(h, "%d:%d,", d.Pos, d.Val)
	}
	return h.Sum64()
}

func worker(p *Property, tier string, w, ws int, deadline time.Time, enc *json.Encoder) {
	type front struct {
		levels [][]node
	}
	var stats []*scStat
	fronts := make([]*front, len(p.Scenarios))
	maxc := make([]int, len(p.Scenarios))
	top := 0
	for i := range p.Scenarios {
		s := &p.Scenarios[i]
		st := &scStat{Name: s.Name, Obs: map[uint64]struct{}{}, Complete: -1}
		stats = append(stats, st)
		maxc[i] = s.MaxCost
		if tier == "thorough" {
			maxc[i] = s.Deep
			if s.Deep == 0 {
				maxc[i] = s.MaxCost + 1
			}
			if s.MaxCost == 0 && s.Deep == 0 {
				maxc[i] = 0
			}
		}
		if s.Thorough && tier != "thorough" {
			fronts[i] = &front{levels: make([][]node, maxc[i]+1)}
			continue
		}
		fronts[i] = &front{levels: make([][]node, maxc[i]+1)}
		fronts[i].levels[0] = []node{{}}
		if maxc[i] > top {
			top = maxc[i]
		}
	}
	report := func(v *Violation) {
		for _, st := range stats {
			st.fin()
		}
		enc.Encode(workerOut{Violation: v, Stats: stats})
	}
	count := 0
	timeout := false
	wholeUntil = deadline
	pendCap := 3000000
	pend := 0
	for L := 0; L <= top && !timeout; L++ {
		for live := true; live && !timeout; {
			live = false
			for i := range p.Scenarios {
				s := &p.Scenarios[i]
				if L > maxc[i] {
					continue
				}
				st := stats[i]
				split := s.Split
				if split == 0 {
					split = 1
					if maxc[i] >= 2 {
						split = 2
					}
				}
				batch := 0
				for len(fronts[i].levels[L]) > 0 {
					l := fronts[i].levels[L]
					nd := l[len(l)-1]
					fronts[i].levels[L] = l[:len(l)-1]
					owner := w
					if !s.Whole {
						k := len(nd.devs)
						if k > split {
							k = split
						}
						owner = int(hashDevs(nd.devs[:k]) % uint64(ws))
						if len(nd.devs) >= split && owner != w {
							continue
						}
					}
					x, res := runScenario(p, s, tier, nd.devs, false, w, ws)
					count++
					batch++
					if x.fail != "" {
						if res.Outcome == Hang {
							report(&Violation{Property: p.ID, Scenario: s.Name, Message: x.fail, Devs: nd.devs, Outcome: res.Outcome.String(), Tier: tier, Worker: w, Workers: ws})
							os.Exit(0)
						}
						// confirm that the failure replays
						okc := 0
						for r := 0; r < 3; r++ {
							y, _ := runScenario(p, s, tier, nd.devs, false, w, ws)
							if y.fail != "" {
								okc++
							}
						}
						if okc == 3 {
							y, r2 := runScenario(p, s, tier, nd.devs, true, w, ws)
							report(&Violation{Property: p.ID, Scenario: s.Name, Message: y.fail, Devs: nd.devs, Outcome: r2.Outcome.String(), Tier: tier, Worker: w, Workers: ws, Log: r2.Log})
							return
						}
						st.Nondet++
						st.Samples = append(st.Samples, "not reproducible: "+x.fail)
						continue
					}
					mine := s.Whole || owner == w
					tr := append([]choiceRec{}, res.trace...)
					if mine {
						st.Execs++
						for len(st.Levels) <= nd.cost {
							st.Levels = append(st.Levels, 0)
						}
						st.Levels[nd.cost]++
						st.Steps += int64(res.Steps)
						st.Cases += x.Cases
						if x.cut {
							timeout = true
							st.Pending++
						}
						st.States += x.States
						if res.Steps > st.MaxSteps {
							st.MaxSteps = res.Steps
						}
						if x.hasObs && len(st.Obs) < 200000 {
							st.Obs[x.obs] = struct{}{}
						}
						for _, sm := range x.samples {
							if len(st.Samples) < 3 {
								st.Samples = append(st.Samples, sm)
							}
						}
						if count%97 == 5 {
							y, r2 := runScenario(p, s, tier, nd.devs, false, w, ws)
							if y.obs != x.obs || len(r2.trace) != len(tr) || y.fail != "" {
								st.Nondet++
							}
						}
					}
					if res.Diverged {
						st.Nondet++
						continue
					}
					from := 0
					if k := len(nd.devs); k > 0 {
						from = nd.devs[k-1].Pos + 1
					}
					if mine {
						st.Nodes += int64(len(tr)-from) + 1
					}
					for pos := from; pos < len(tr); pos++ {
						c := nd.cost + int(tr[pos].cost)
						if c > maxc[i] {
							continue
						}
						for v := 1; v < int(tr[pos].n); v++ {
							ch := node{devs: append(append(make([]dev, 0, len(nd.devs)+1), nd.devs...), dev{pos, v}), cost: c}
							if !s.Whole && len(ch.devs) == split && int(hashDevs(ch.devs)%uint64(ws)) != w {
								continue
							}
							if c > L {
								if pend >= pendCap {
									st.Pending++
									continue
								}
								pend++
							}
							fronts[i].levels[c] = append(fronts[i].levels[c], ch)
						}
					}
					if batch >= 64 {
						break
					}
					if count%16 == 0 && time.Now().After(deadline) {
						timeout = true
						break
					}
				}
				if len(fronts[i].levels[L]) > 0 {
					live = true
				} else if st.Complete < L && st.Pending == 0 && !timeout {
					st.Complete = L
				}
				if time.Now().After(deadline) {
					timeout = true
				}
				if timeout {
					break
				}
			}
		}
	}
	for i, st := range stats {
		left := st.Pending
		for _, l := range fronts[i].levels {
			left += int64(len(l))
		}
		st.Pending = left
		st.Exhausted = left == 0
		if p.Scenarios[i].Thorough && tier != "thorough" {
			st.Name = ""
		}
	}
	report(nil)
}

func (st *scStat) fin() {
	for o := range st.Obs {
		st.ObsList = append(st.ObsList, o)
		if len(st.ObsList) >= 20000 {
			break
		}
	}
}

// Main runs a property's check and never returns.
func Main(props []*Property) {
	prop := flag.String("prop", "", "")
	workerIdx := flag.Int("worker", -1, "")
	of := flag.Int("of", 1, "")
	ms := flag.Int64("ms", 0, "")
	tier := flag.String("tier", "quick", "")
	evid := flag.String("evidence", "", "")
	replay := flag.String("replay", "", "")
	replayDir := flag.String("replaydir", "", "")
	level := flag.String("level", "model_checking", "")
	only := flag.String("scenario", "", "")
	secs := flag.Float64("secs", 0, "")
	knownFile := flag.String("known", "", "")
	flag.Parse()
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	var p *Property
	for _, q := range props {
		if q.ID == *prop {
			p = q
		}
	}
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *only != "" {
		var l []Scenario
		for _, s := range p.Scenarios {
			if strings.Contains(s.Name, *only) {
				l = append(l, s)
			}
		}
		p.Scenarios = l
	}
	if *replay != "" {
		doReplay(p, *replay)
		return
	}
	if *workerIdx >= 0 {
		if f, err := os.Create(os.Getenv("VSCHED_CPUPROFILE")); err == nil {
			pprof.StartCPUProfile(f)
			time.AfterFunc(20*time.Second, pprof.StopCPUProfile)
		}
		worker(p, *tier, *workerIdx, *of, time.Now().Add(time.Duration(*ms)*time.Millisecond), json.NewEncoder(os.Stdout))
		os.Exit(0)
	}
	start := time.Now()
	sec := p.QuickSec
	if sec == 0 {
		sec = 10
	}
	if *tier == "thorough" {
		sec = p.DeepSec
		if sec == 0 {
			sec = 300
		}
	}
	if *secs > 0 {
		sec = *secs
	}
	W := runtime.NumCPU()
	if W > 8 {
		W = 8
	}
	if W < 2 {
		W = 2
	}
	outs := make([]*workerOut, W)
	errs := make([]string, W)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cmds := make([]*exec.Cmd, W)
	stopAll := false
	for i := 0; i < W; i++ {
		args := []string{"-prop", p.ID, "-worker", strconv.Itoa(i), "-of", strconv.Itoa(W), "-ms", strconv.FormatInt(int64(sec*1000), 10), "-tier", *tier}
		if *only != "" {
			args = append(args, "-scenario", *only)
		}
		c := exec.Command(os.Args[0], args...)
		c.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB")
		so, _ := c.StdoutPipe()
		var eb strings.Builder
		c.Stderr = &eb
		cmds[i] = c
		if err := c.Start(); err != nil {
			fmt.Println("cannot start worker:", err)
			os.Exit(2)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var wo workerOut
			err := json.NewDecoder(bufio.NewReaderSize(so, 1<<20)).Decode(&wo)
			if err == nil {
				outs[i] = &wo
				if wo.Violation != nil {
					mu.Lock()
					stopAll = true
					for j, d := range cmds {
						if j != i && d != nil && d.Process != nil {
							d.Process.Kill()
						}
					}
					mu.Unlock()
				}
			}
			c.Wait()
			if err != nil {
				mu.Lock()
				if !stopAll {
					e := eb.String()
					if len(e) > 4000 {
						e = e[:4000]
					}
					errs[i] = fmt.Sprintf("worker %d: %v\n%s", i, err, e)
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	var viol *Violation
	merged := map[string]*scStat{}
	var order []string
	obs := map[string]map[uint64]struct{}{}
	for _, o := range outs {
		if o == nil {
			continue
		}
		if o.Violation != nil && viol == nil {
			viol = o.Violation
		}
		for _, st := range o.Stats {
			if st.Name == "" {
				continue
			}
			m := merged[st.Name]
			if m == nil {
				m = &scStat{Name: st.Name, Complete: st.Complete, Exhausted: true}
				merged[st.Name] = m
				obs[st.Name] = map[uint64]struct{}{}
				order = append(order, st.Name)
			}
			m.Execs += st.Execs
			m.Nodes += st.Nodes
			m.Steps += st.Steps
			m.Cases += st.Cases
			m.States += st.States
			m.Nondet += st.Nondet
			m.Pending += st.Pending
			m.Exhausted = m.Exhausted && st.Exhausted
			if st.Complete < m.Complete {
				m.Complete = st.Complete
			}
			if st.MaxSteps > m.MaxSteps {
				m.MaxSteps = st.MaxSteps
			}
			for i, n := range st.Levels {
				for len(m.Levels) <= i {
					m.Levels = append(m.Levels, 0)
				}
				m.Levels[i] += n
			}
			for _, h := range st.ObsList {
				obs[st.Name][h] = struct{}{}
			}
			if len(m.Samples) < 3 {
				m.Samples = append(m.Samples, st.Samples...)
				if len(m.Samples) > 3 {
					m.Samples = m.Samples[:3]
				}
			}
		}
	}
	code := 0
	var infra []string
	for _, e := range errs {
		if e != "" {
			infra = append(infra, e)
		}
	}
	for _, e := range infra {
		if viol == nil && (strings.Contains(e, "stack overflow") || strings.Contains(e, "out of memory") || strings.Contains(e, "makeslice: len out of range")) {
			viol = &Violation{Property: p.ID, Scenario: "(worker died)", Message: "the code under test ended the process: " + e, Tier: *tier}
			infra = nil
		}
	}
	if viol == nil && len(infra) > 0 {
		// A worker that dies of a Go runtime error died inside the code under test or the machinery.
		fmt.Println("CHECK ERROR:", strings.Join(infra, "\n"))
		code = 2
	}
	if viol != nil {
		dir := *replayDir
		os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, p.ID+".json")
		if len(viol.Log) > 4000 {
			viol.Log = viol.Log[len(viol.Log)-4000:]
		}
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(f, b, 0644)
		fmt.Printf("scenario %s, %d deviation(s) %v: %s\n", viol.Scenario, len(viol.Devs), viol.Devs, viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		code = 1
	}
	var states, trans, traces, nondet, cases int64
	exh := viol == nil && len(infra) == 0
	type scOut struct {
		Name           string  `json:"scenario"`
		Execs          int64   `json:"executions"`
		Levels         []int64 `json:"executions_by_deviations"`
		Complete       int     `json:"complete_up_to_deviations"`
		Pending        int64   `json:"unexplored_frontier"`
		Nodes          int64   `json:"decision_nodes"`
		Steps          int64   `json:"steps"`
		Cases          int64   `json:"enumerated_cases,omitempty"`
		Outcomes       int     `json:"distinct_observations"`
		LongestSteps   int     `json:"longest_execution_steps"`
		Irreproducible int64   `json:"irreproducible,omitempty"`
	}
	var scs []scOut
	var samples []string
	for _, n := range order {
		m := merged[n]
		states += m.Nodes + m.States
		trans += m.Steps
		traces += m.Execs
		if m.Cases > 0 {
			cases += m.Cases
		}
		nondet += m.Nondet
		exh = exh && m.Exhausted
		scs = append(scs, scOut{m.Name, m.Execs, m.Levels, m.Complete, m.Pending, m.Nodes, m.Steps, m.Cases, len(obs[n]), m.MaxSteps, m.Nondet})
		for _, s := range m.Samples {
			if len(samples) < 12 {
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				samples = append(samples, m.Name+": "+s)
			}
		}
	}
	for _, o := range order {
		if len(samples) < 12 {
			m := merged[o]
			samples = append(samples, fmt.Sprintf("%s: %d executions of the real code, longest %d steps, %d distinct final observations", o, m.Execs, m.MaxSteps, len(obs[o])))
		}
	}
	if nondet > 0 {
		fmt.Printf("note: %d irreproducible executions\n", nondet)
	}
	sort.SliceStable(scs, func(i, j int) bool { return false })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   trans + cases,
		"traces_validated_against_impl": traces + cases,
		"samples":                       samples,
		"exhaustive":                    exh,
		"bounds":                        p.Bounds,
		"scenarios":                     scs,
		"definitions":                   "states: distinct nodes of the decision tree (scheduler, timer, fault, input choices) plus distinct reference-model states/inputs enumerated; transitions: scheduling steps executed plus enumerated cases applied; traces_validated_against_impl: complete executions of the real (instrumented) code plus enumerated cases run on it. exhaustive: every decision tree was completely enumerated up to its deviation bound in this run.",
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        *tier,
		"seed":        seed,
		"level":       *level,
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  map[bool]int{true: 1, false: 0}[viol != nil],
	}
	if *evid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evid), 0755)
		os.WriteFile(*evid, b, 0644)
	}
	_ = knownFile
	fmt.Printf("%s %s: %d executions, %d decision nodes, %d steps, %d cases, exhaustive=%v, %.1fs\n", p.ID, *tier, traces, states, trans, cases, exh, time.Since(start).Seconds())
	for _, s := range scs {
		fmt.Printf("  %-40s execs=%d levels=%v complete<=%d left=%d cases=%d obs=%d maxsteps=%d\n", s.Name, s.Execs, s.Levels, s.Complete, s.Pending, s.Cases, s.Outcomes, s.LongestSteps)
	}
	os.Exit(code)
}

func doReplay(p *Property, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for i := range p.Scenarios {
		s := &p.Scenarios[i]
		if s.Name != v.Scenario {
			continue
		}
		x, res := runScenario(p, s, v.Tier, v.Devs, true, v.Worker, v.Workers)
		for _, l := range res.Log {
			fmt.Println(l)
		}
		fmt.Println("outcome:", res.Outcome, res.Msg)
		if x.fail != "" {
			fmt.Println("VIOLATION property=" + p.ID + " replay=" + file + "\n" + x.fail)
			os.Exit(1)
		}
		fmt.Println("held")
		os.Exit(0)
	}
	fmt.Println("no such scenario")
	os.Exit(2)
}
