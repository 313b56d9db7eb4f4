// Package harness runs simulated histories: it generates cases from seeds, executes them under the
// simulator, searches over seeds in worker processes, minimises what fails and writes replay files.
package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/tdewolff/font/zzverif/fontgen"
	simos "github.com/tdewolff/font/zzverif/simos"
	simrand "github.com/tdewolff/font/zzverif/simrand"
	"github.com/tdewolff/font/zzverif/simrt"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

// Op is one operation of a history.
type Op struct {
	K string
	A []int  `json:",omitempty"`
	S string `json:",omitempty"`
}

func (o Op) String() string { return fmt.Sprintf("%s%v%s", o.K, o.A, o.S) }

// Arg returns the i-th argument or 0.
func (o Op) Arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Clock is the simulated wall clock of a case, all in seconds.
type Clock struct {
	Start int64   `json:",omitempty"`
	Step  int64   `json:",omitempty"`
	Jumps []int64 `json:",omitempty"`
}

// Case is everything that decides a run.
type Case struct {
	Prop    string
	Seed    uint64
	Mode    string         `json:",omitempty"`
	Fonts   []fontgen.Spec `json:",omitempty"`
	Ops     []Op           `json:",omitempty"`
	Threads [][]Op         `json:",omitempty"`
	Sched   simrt.Sched
	Faults  simos.Plan
	Clock   Clock
	MapMode int            `json:",omitempty"`
	MapSeed uint64         `json:",omitempty"`
	P       map[string]int `json:",omitempty"`
	Prefix  []uint64       `json:",omitempty"` // seeds to execute first in the same process
	Tier    string         `json:",omitempty"`
	Class   string         `json:",omitempty"` // of the violation it reproduces
	Message string         `json:",omitempty"`
}

func (c *Case) Clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

// Prop is one checked property.
type Prop interface {
	ID() string
	Gen(r *simrt.Rand, c *Case) // fills in the case
	Exec(c *Case, e *Env)
}

// Info says how a property is searched.
type Info struct {
	Quick, Thorough int // number of seeds
	Batch           int // seeds per process
	Rule            string
	Real, Stub      []string
	Assumptions     []string
}

type Violation struct{ Class, Msg string }

// Env is the execution of one case.
type Env struct {
	Case       *Case
	Viol       *Violation
	Probes     map[string]int
	Fired      map[string]int
	Nontrivial bool
	Verbose    bool
	hash       uint64
	Events     int
	Steps      uint64
	SchedHash  uint64
	Switches   int
	SimSpan    time.Duration
	ClockReads int
	trace      []simrt.Switch
	traced     bool
	faults     []simos.Fault
	faulted    bool
	start      time.Time
}

// Fail records a violation; the first one counts.
func (e *Env) Fail(class, format string, a ...interface{}) {
	if e.Viol == nil {
		e.Viol = &Violation{class, fmt.Sprintf(format, a...)}
		e.Event("violation %s", class)
	}
}

func (e *Env) Failed() bool { return e.Viol != nil }

func (e *Env) Probe(name string)         { e.Probes[name]++ }
func (e *Env) ProbeN(name string, n int) { e.Probes[name] += n }

// Event adds to the log of the run, whose hash shows that a run repeats exactly.
func (e *Env) Event(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		e.hash = (e.hash ^ uint64(s[i])) * 0x100000001b3
	}
	e.hash = (e.hash ^ 10) * 0x100000001b3
	e.Events++
	if e.Verbose {
		fmt.Fprintln(os.Stderr, "  |", s)
	}
}

// Outcome is how a call under the simulator ended.
type Outcome struct {
	Kind  string // "", "panic", "hang", "deadlock", "crash", "exit", "blocked"
	Msg   string
	Site  string
	Code  int
	Stack string
}

func (o Outcome) OK() bool { return o.Kind == "" }

// Class names the failure for minimisation and reports.
func (o Outcome) Class() string {
	if o.Site != "" {
		return o.Kind + " in " + o.Site
	}
	return o.Kind
}

func outcome(p *simrt.Panic) Outcome {
	if p == nil {
		return Outcome{}
	}
	o := Outcome{Stack: string(p.Stack), Site: site(string(p.Stack))}
	switch v := p.Value.(type) {
	case simrt.Hang:
		o.Kind, o.Msg = "hang", v.Error()
	case simrt.Deadlock:
		o.Kind, o.Msg, o.Site = "deadlock", v.Error(), ""
	case simos.Crash:
		o.Kind, o.Msg, o.Site = "crash", v.Error(), ""
	case simos.ExitPanic:
		o.Kind, o.Msg, o.Code, o.Site = "exit", v.Error(), v.Code, ""
	case simos.Blocked:
		o.Kind, o.Msg, o.Site = "blocked", v.Error(), ""
	default:
		o.Kind, o.Msg = "panic", fmt.Sprint(p.Value)
	}
	return o
}

// site finds the innermost function of the system under test on the stack of a panic.
func site(stack string) string {
	for _, line := range strings.Split(stack, "\n") {
		for _, pre := range []string{"github.com/tdewolff/font.", "main."} {
			if strings.HasPrefix(line, pre) {
				f := strings.TrimPrefix(line, pre)
				if i := strings.LastIndexByte(f, '('); i > 0 {
					f = f[:i]
				}
				if strings.HasPrefix(f, "main") || strings.HasPrefix(f, "zz") && f != "zzMain" {
					continue
				}
				f = strings.NewReplacer("(", "", ")", "", "*", "").Replace(f)
				if i := strings.Index(f, ".func"); i > 0 {
					f = f[:i]
				}
				return f
			}
		}
	}
	return ""
}

// Do runs fn as the only thread of the simulated process, bounded to limit scheduling points.
func (e *Env) Do(limit uint64, fn func()) Outcome {
	simrt.Reset(limit)
	res := simrt.RunThreads(simrt.Sched{Seed: simrt.Mix(e.Case.Seed, 3), Mean: 1 << 40}, []func(){fn})
	e.Steps += simrt.Steps()
	simrt.Reset(1 << 50) // calls of the harness itself are not bounded
	return outcome(res[0])
}

// Quietly runs an oracle's calls into the system under test, without a step bound.
func (e *Env) Quietly(fn func()) Outcome {
	simrt.Reset(1 << 50)
	res := simrt.RunThreads(simrt.Sched{Seed: 1, Mean: 1 << 40}, []func(){fn})
	return outcome(res[0])
}

// Concurrently runs the functions under the case's schedule.
func (e *Env) Concurrently(limit uint64, fns []func()) []Outcome {
	simrt.Reset(limit)
	res := simrt.RunThreads(e.Case.Sched, fns)
	e.Steps += simrt.Steps()
	e.SchedHash = (e.SchedHash ^ simrt.SchedHash()) * 0x100000001b3
	tr := simrt.Trace()
	simrt.Reset(1 << 50)
	e.Switches += len(tr)
	if !e.traced {
		e.trace, e.traced = tr, true
	}
	outs := make([]Outcome, len(res))
	for i, p := range res {
		outs[i] = outcome(p)
	}
	return outs
}

// InstallDisk makes d the disk of the run and starts the case's faults.
func (e *Env) InstallDisk(d *simos.Disk) { simos.Install(d, e.Case.Faults) }

// EndFaults stops injection and accounts for what fired.
func (e *Env) EndFaults() {
	d := simos.D
	if !d.Armed {
		return
	}
	for _, f := range d.Fired {
		e.Fired[f.Kind]++
	}
	if !e.faulted {
		e.faults, e.faulted = append([]simos.Fault(nil), d.Fired...), true
	}
	d.Armed = false
}

var repoFiles = map[string][]byte{}

// RepoDir is where the real fonts are read from.
var RepoDir = func() string {
	if s := os.Getenv("VERIF_REPO"); s != "" {
		return s
	}
	return "/repo"
}()

// File returns a resource file of the repository.
func File(name string) []byte {
	if b, ok := repoFiles[name]; ok {
		return b
	}
	b, err := os.ReadFile(filepath.Join(RepoDir, "resources", name))
	if err != nil {
		panic("harness: " + err.Error())
	}
	repoFiles[name] = b
	return b
}

// ResetHooks restore package state of the system under test before a run.
var ResetHooks []func()

// Execute runs one case from a clean state.
func Execute(p Prop, c *Case, verbose bool) (e *Env) {
	e = &Env{Case: c, Probes: map[string]int{}, Fired: map[string]int{}, hash: 0xcbf29ce484222325, Verbose: verbose}
	for _, f := range ResetHooks {
		f()
	}
	simrt.Reset(1 << 50)
	simrt.SetMapOrder(c.MapMode, c.MapSeed)
	simrand.SimSeed(c.Seed)
	jumps := make([]time.Duration, len(c.Clock.Jumps))
	for i, j := range c.Clock.Jumps {
		jumps[i] = time.Duration(j) * time.Second
	}
	start := time.Unix(c.Clock.Start, 0).UTC()
	simtime.SetClock(start, time.Duration(c.Clock.Step)*time.Second, jumps)
	simos.Install(simos.NewDisk(), simos.Plan{})
	simos.D.Armed = false
	defer func() {
		if r := recover(); r != nil {
			// a panic of the harness itself: never a verdict
			fmt.Fprintf(os.Stderr, "HARNESS PANIC in %s seed %d: %v\n%s\n", c.Prop, c.Seed, r, debug.Stack())
			os.Exit(2)
		}
	}()
	p.Exec(c, e)
	e.SimSpan = simtime.Clock.Now.Sub(start)
	if e.SimSpan < 0 {
		e.SimSpan = -e.SimSpan
	}
	e.ClockReads = simtime.Clock.Reads
	e.hash ^= e.SchedHash * 31
	return e
}

// Recorded returns the case with every decision of the run written out.
func (e *Env) Recorded() *Case {
	c := e.Case.Clone()
	if e.traced {
		c.Sched.Fixed, c.Sched.List = true, e.trace
	}
	if e.faulted {
		c.Faults.Fixed, c.Faults.List = true, e.faults
	}
	if e.Viol != nil {
		c.Class, c.Message = e.Viol.Class, e.Viol.Msg
	}
	return c
}

// Generate makes the case of a seed.
func Generate(p Prop, seed uint64, tier string) *Case {
	c := &Case{Prop: p.ID(), Seed: seed, P: map[string]int{}, Tier: tier}
	r := simrt.NewRand(simrt.Mix(seed, 0x51))
	c.Sched = simrt.Sched{Seed: r.U64(), Mean: []int{3, 10, 40, 150, 600, 3000}[r.Intn(6)], WBias: []int{0, 64, 256, 600}[r.Intn(4)]}
	c.Faults.Seed = r.U64()
	c.MapMode, c.MapSeed = r.Intn(4), r.U64()
	c.Clock = RandomClock(r)
	p.Gen(r, c)
	return c
}

// RandomClock draws a wall clock: slow, fast, standing still, jumping either way, near the edges.
func RandomClock(r *simrt.Rand) Clock {
	c := Clock{Start: []int64{0, 1, 86399, 951782400, 1700000000, 2147483647, 2147483648, 4294967296, 1 << 33}[r.Intn(9)]}
	c.Start += int64(r.Intn(100000))
	c.Step = []int64{0, 1, 61, 86400 * 40}[r.Intn(4)]
	if r.Bool(40) {
		for i := 0; i < 1+r.Intn(4); i++ {
			j := int64(r.Intn(200000)) - 100000
			if r.Bool(20) {
				j *= 5000
			}
			c.Jumps = append(c.Jumps, j)
		}
		// the clock never shows a time before 1970
		var low, sum int64
		for _, j := range c.Jumps {
			sum += j
			if sum < low {
				low = sum
			}
		}
		if c.Start+low < 0 {
			c.Start -= low
		}
	}
	return c
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
