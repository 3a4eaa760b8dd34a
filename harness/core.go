//go:build go1.21

// Command simbin runs simulated executions of pa-m/sklearn and judges the properties of
// /verif/properties.jsonl. It is compiled together with a rewritten copy of the library in which
// every goroutine, channel, lock, clock, CPU count, map iteration and file read is under the
// control of verifsim.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"verifsim"

	xrand "golang.org/x/exp/rand"
)

// Scenario is one family of cases of a property.
type Scenario struct {
	Name   string
	Weight int
	Race   bool // data races are violations here (race build only)
	Leak   bool // goroutines left behind are violations here
	F      func(c *C)
}

// Prop is a property with its scenarios.
type Prop struct {
	ID    string
	Scens []*Scenario
}

var props = map[string]*Prop{}

func register(id string, scens ...*Scenario) {
	p := props[id]
	if p == nil {
		p = &Prop{ID: id}
		props[id] = p
	}
	for _, s := range scens {
		if s.Weight == 0 {
			s.Weight = 1
		}
		p.Scens = append(p.Scens, s)
	}
}

// abandoned ends a case that decides nothing.
type abandoned struct{}

// Violation is what a check raises.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// RunSpec describes one simulated run of a case, enough to repeat it.
type RunSpec struct {
	Name      string              `json:"name"`
	Cfg       verifsim.Config     `json:"cfg"`
	Decisions []verifsim.Decision `json:"decisions"`
	Hash      uint64              `json:"hash"`
	Steps     int64               `json:"steps"`
	Note      string              `json:"note,omitempty"`
}

// CaseFile is a replay file.
type CaseFile struct {
	Property   string    `json:"property"`
	Scenario   string    `json:"scenario"`
	VerifSeed  uint64    `json:"verif_seed"`
	Index      int64     `json:"index"`
	Race       bool      `json:"race_build"`
	Class      string    `json:"class"`
	Msg        string    `json:"message"`
	Minimised  bool      `json:"minimised"`
	OrigDecs   int       `json:"decisions_before_minimisation"`
	Runs       []RunSpec `json:"runs"`
	RangeStart int64     `json:"range_start,omitempty"` // replay needs the cases from here on in one process
	RangeStep  int64     `json:"range_step,omitempty"`
	NeedRange  bool      `json:"need_range,omitempty"`
}

// Stats of a worker.
type Stats struct {
	Cases      int64            `json:"cases"`
	Runs       int64            `json:"runs"`
	RefRuns    int64            `json:"reference_runs"`
	NonTrivial int64            `json:"nontrivial_runs"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Tasks      int64            `json:"tasks"`
	SimNS      int64            `json:"sim_ns"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Strategies map[string]int64 `json:"strategies"`
	CPUs       map[string]int64 `json:"cpus"`
	Scenarios  map[string]int64 `json:"scenarios"`
	Checks     int64            `json:"checks"`
	Samples    []string         `json:"samples"`
	Hashes     []uint64         `json:"hashes"`
	LogHash    uint64           `json:"log_hash"`
	ScenMS     map[string]int64 `json:"scenario_ms"`
	hashes     map[uint64]bool
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Strategies: map[string]int64{}, CPUs: map[string]int64{}, Scenarios: map[string]int64{}, ScenMS: map[string]int64{}, hashes: map[uint64]bool{}}
}

// C is a case being executed.
type C struct {
	prop   *Prop
	scen   *Scenario
	R      *Rng // inputs
	S      *Rng // schedules and faults
	G      uint64
	st     *Stats
	replay *CaseFile
	rec    []RunSpec
	desc   []string
	MaxSt  int64
	Late   func() interface{} // results which must not change once the call has returned
	Spins  bool               // the subject may train for any number of rounds: running out of steps decides nothing
	// knobs for swarm configuration
	NoCPU   int // fixed CPU count if > 0
	Clock   bool
	CPUs    []int
	MaxQ    int64
	raceLog func() string
	trace   bool
	Race    bool
}

// Desc adds a line describing the case's inputs.
func (c *C) Desc(f string, a ...interface{}) { c.desc = append(c.desc, fmt.Sprintf(f, a...)) }

// Probe counts that a condition of interest was met.
func (c *C) Probe(name string) { c.st.Probes[name]++ }

// Fail raises a violation.
func (c *C) Fail(class, f string, a ...interface{}) {
	panic(&Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
}

// Check raises a violation unless ok.
func (c *C) Check(ok bool, class, f string, a ...interface{}) {
	c.st.Checks++
	if !ok {
		c.Fail(class, f, a...)
	}
}

var knownFindings = strings.Split(os.Getenv("VERIF_KNOWN"), ",")

// Known notes a violation that is listed as a known finding, and raises any other.
func (c *C) Known(key, class, f string, a ...interface{}) {
	for _, k := range knownFindings {
		if k == key {
			c.st.Checks++
			c.Probe("known finding " + key)
			return
		}
	}
	c.Fail(class, f, a...)
}

// RefCfg is the sequential single-CPU configuration.
func (c *C) RefCfg() verifsim.Config {
	return verifsim.Config{Strategy: verifsim.SSeq, NumCPU: 1, MaxSteps: c.MaxSt, Wall0: 1600000000e9}
}

var cpuChoices = []int{1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 12, 16, 32}

// SimCfg draws a swarm configuration.
func (c *C) SimCfg() verifsim.Config {
	s := c.S
	cfg := verifsim.Config{Seed: s.U64(), MaxSteps: c.MaxSt}
	cfg.NumCPU = cpuChoices[s.Intn(len(cpuChoices))]
	if len(c.CPUs) > 0 {
		cfg.NumCPU = c.CPUs[s.Intn(len(c.CPUs))]
	}
	if c.NoCPU > 0 {
		cfg.NumCPU = c.NoCPU
	}
	cfg.MaxProcs = cfg.NumCPU
	if s.Intn(5) == 0 {
		cfg.MaxProcs = 1 + s.Intn(8)
	}
	switch x := s.Intn(20); {
	case x < 9:
		cfg.Strategy = verifsim.SRandom
	case x < 13:
		cfg.Strategy = verifsim.SPCT
	case x < 15:
		cfg.Strategy = verifsim.SStarve
	case x < 17:
		cfg.Strategy = verifsim.SOps
	case x < 19:
		cfg.Strategy = verifsim.SLast
	default:
		cfg.Strategy = verifsim.SSeq
	}
	qs := []int64{1, 2, 3, 5, 10, 30, 100, 300, 1000, 5000}
	cfg.MeanQ = qs[s.Intn(len(qs))]
	if c.MaxQ > 0 && cfg.MeanQ > c.MaxQ {
		cfg.MeanQ = c.MaxQ
	}
	if n := c.lastSteps(); n > 0 {
		if q := n / 60000; cfg.MeanQ < q { // keep the number of switches affordable
			cfg.MeanQ = q
		}
	}
	cfg.POp = []int{0, 16, 64, 128, 230}[s.Intn(5)]
	cfg.D = 1 + s.Intn(6)
	cfg.Horizon = []int64{100, 1000, 10000, 100000}[s.Intn(4)]
	if n := c.lastSteps(); n > 0 && s.Intn(3) > 0 {
		cfg.Horizon = 1 + n*int64(1+s.Intn(8))/8
	}
	cfg.Victim = s.Intn(6)
	cfg.Tick = []int64{1, 50, 1000, 1000000}[s.Intn(4)]
	cfg.Wall0 = 1600000000e9 + int64(s.Intn(1000000))*1e9
	if s.Intn(2) == 0 {
		cfg.PMap = 256
	}
	if s.Intn(3) == 0 || c.Clock {
		cfg.PClock = []int{0, 32, 128, 256}[s.Intn(4)]
		cfg.PStall = []int{0, 16, 256}[s.Intn(3)]
	}
	if s.Intn(4) == 0 {
		cfg.PPool = 64
	}
	return cfg
}

func (c *C) lastSteps() int64 {
	if len(c.rec) == 0 {
		return 0
	}
	return c.rec[len(c.rec)-1].Steps
}

// Ref runs f in the sequential configuration and requires a normal end.
func (c *C) Ref(name string, f func()) *verifsim.Result {
	c.st.RefRuns++
	return c.judge(name, c.Run(name, c.RefCfg(), f))
}

// Sim runs f under a drawn configuration and requires a normal end.
func (c *C) Sim(name string, f func()) *verifsim.Result {
	return c.judge(name, c.Run(name, c.SimCfg(), f))
}

// SimWith runs f under the given configuration and requires a normal end.
func (c *C) SimWith(name string, cfg verifsim.Config, f func()) *verifsim.Result {
	return c.judge(name, c.Run(name, cfg, f))
}

func (c *C) judge(name string, res *verifsim.Result) *verifsim.Result {
	if o := res.Outcome(); o != "" {
		class := "panic"
		switch {
		case res.Deadlock != "":
			class = "deadlock"
		case res.StepLimit:
			if c.Spins {
				c.Probe("too many rounds")
				panic(abandoned{})
			}
			class = "no-termination"
		}
		if len(o) > 3000 {
			o = o[:3000]
		}
		c.Fail(class, "run %q: %s", name, o)
	}
	if c.scen.Race && res.Races > 0 {
		c.Fail("data-race", "run %q: %d data race(s)\n%s", name, res.Races, c.raceLog())
	}
	if c.scen.Leak && len(res.Leaked) > 0 {
		c.Fail("goroutine-leak", "run %q: %d goroutine(s) still alive after the call returned and everything else stopped: %s", name, len(res.Leaked), strings.Join(res.Leaked, "; "))
	}
	return res
}

// Run performs one simulated run; abnormal ends are left to the caller.
func (c *C) Run(name string, cfg verifsim.Config, f func()) *verifsim.Result {
	i := len(c.rec)
	if c.replay != nil && i < len(c.replay.Runs) {
		cfg = c.replay.Runs[i].Cfg
		cfg.Replay = true
		cfg.Decisions = c.replay.Runs[i].Decisions
		cfg.Trace = c.trace
	}
	xrand.Seed(c.G)
	rand.Seed(int64(c.G >> 1))
	g, kept := f, []Leaf(nil)
	if c.Late != nil {
		g = func() {
			f()
			kept = Dump(c.Late())
		}
	}
	res := verifsim.Run(cfg, g)
	if c.Late != nil && res.Outcome() == "" {
		if diff := DiffLeaves(kept, Dump(c.Late()), 0); diff != "" {
			defer c.Fail("changed-after-return", "run %q: a result changed after the call had returned: %s", name, diff)
		}
	}
	rc := cfg
	rc.Decisions = nil
	rc.Replay = false
	rc.Trace = false
	c.rec = append(c.rec, RunSpec{Name: name, Cfg: rc, Decisions: res.Decisions, Hash: res.Hash, Steps: res.Steps})
	st := c.st
	st.Runs++
	st.Steps += res.Steps
	st.Switches += res.Switches
	st.Tasks += int64(res.Tasks)
	st.SimNS += res.SimTime
	nf := int64(0)
	for k, n := range res.Faults {
		if n > 0 {
			st.Faults[verifsim.KindNames()[k]] += n
			nf += n
		}
	}
	for k, n := range res.IOFaults {
		if n > 0 {
			st.Faults["io:"+verifsim.IOFaultNames[k]] += n
		}
	}
	st.Strategies[verifsim.StrategyNames[cfg.Strategy]]++
	st.CPUs[fmt.Sprint(cfg.NumCPU)]++
	if nf > 0 {
		st.NonTrivial++
		if len(st.hashes) < 400000 {
			st.hashes[res.Hash] = true
		}
	}
	st.LogHash = mix64(st.LogHash ^ res.Hash ^ uint64(res.Steps)<<32 ^ uint64(res.Switches))
	if v, ok := res.PanicVal.(*Violation); ok {
		panic(v)
	}
	return res
}

func caseSeed(verifSeed uint64, prop string, index int64) uint64 {
	h := mix64(verifSeed + 0x1234567)
	for _, b := range []byte(prop) {
		h = mix64(h ^ uint64(b))
	}
	return mix64(h ^ uint64(index)*0x9e3779b97f4a7c15)
}

func pickScenario(p *Prop, seed uint64, index int64, only string) *Scenario {
	// scenarios take turns according to their weights, so that even a short batch visits each
	var order []*Scenario
	for _, s := range p.Scens {
		if only != "" && s.Name != only {
			continue
		}
		for k := 0; k < s.Weight; k++ {
			order = append(order, s)
		}
	}
	if len(order) == 0 {
		return nil
	}
	n := int64(len(order))
	// a fixed pseudo-random permutation per round of n cases
	round := index / n
	perm := NewRng(mix64(seed ^ uint64(round)*7919)).Perm(int(n))
	return order[perm[index%n]]
}

// runCase executes a case and returns its violation, if any.
func runCase(p *Prop, verifSeed uint64, index int64, only string, st *Stats, replay *CaseFile, trace bool, raceLog func() string) (v *Violation, c *C) {
	seed := caseSeed(verifSeed, p.ID, index)
	scen := pickScenario(p, verifSeed, index, only)
	if scen == nil {
		fatal("no scenario %q in %s", only, p.ID)
	}
	c = &C{prop: p, scen: scen, R: NewRng(seed), S: NewRng(seed ^ 0x5ced), G: mix64(seed ^ 77), st: st, replay: replay, MaxSt: 100e6, raceLog: raceLog, trace: trace, Race: verifsim.RaceEnabled}
	st.Cases++
	st.Scenarios[scen.Name]++
	defer func() {
		r := recover()
		if _, ok := r.(abandoned); ok {
			return
		}
		if r == nil {
			if len(st.Samples) < 3 && len(c.desc) > 0 {
				st.Samples = append(st.Samples, fmt.Sprintf("%s/%s case %d: %s; runs: %s", p.ID, scen.Name, index, strings.Join(c.desc, "; "), c.runSummary()))
			}
			return
		}
		if vv, ok := r.(*Violation); ok {
			v = vv
			return
		}
		v = &Violation{Class: "malformed-result", Msg: fmt.Sprintf("judging the result failed: %v\n%s", r, string(debug.Stack()))}
	}()
	t0 := time.Now()
	scen.F(c)
	st.ScenMS[scen.Name] += time.Since(t0).Milliseconds()
	return nil, c
}

func (c *C) runSummary() string {
	var b []string
	for i, r := range c.rec {
		if i == 4 {
			b = append(b, fmt.Sprintf("... %d runs", len(c.rec)))
			break
		}
		b = append(b, fmt.Sprintf("%s[%s cpu=%d steps=%d decisions=%d hash=%016x]", r.Name, verifsim.StrategyNames[r.Cfg.Strategy], r.Cfg.NumCPU, r.Steps, len(r.Decisions), r.Hash))
	}
	return strings.Join(b, " ")
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("json: %v", err)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("write: %v", err)
	}
}

func scenNames(p *Prop) (out []string) {
	for _, s := range p.Scens {
		out = append(out, s.Name)
	}
	sort.Strings(out)
	return
}
