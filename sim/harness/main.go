package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/tdewolff/font/zzverif/simrt"
)

// Result is what a worker reports about a run.
type Result struct {
	Start      bool `json:",omitempty"`
	Seed       uint64
	Viol       *Violation     `json:",omitempty"`
	Case       *Case          `json:",omitempty"`
	Probes     map[string]int `json:",omitempty"`
	Fired      map[string]int `json:",omitempty"`
	Hash       uint64
	Sched      uint64 `json:",omitempty"`
	Switches   int    `json:",omitempty"`
	Steps      uint64
	Events     int
	SimSpan    int64  `json:",omitempty"` // seconds
	ClockReads int    `json:",omitempty"`
	MapIters   uint64 `json:",omitempty"`
	Nontrivial bool   `json:",omitempty"`
	Died       string `json:",omitempty"` // the worker process died: its last words
}

func result(e *Env, withCase bool) *Result {
	r := &Result{Seed: e.Case.Seed, Viol: e.Viol, Probes: e.Probes, Fired: e.Fired, Hash: e.hash, Sched: e.SchedHash,
		Switches: e.Switches, Steps: e.Steps, Events: e.Events, SimSpan: int64(e.SimSpan / time.Second), ClockReads: e.ClockReads,
		MapIters: simrt.MapIterations(), Nontrivial: e.Nontrivial}
	if e.Viol != nil || withCase {
		r.Case = e.Recorded()
	}
	return r
}

type entry struct {
	prop Prop
	info Info
}

// Main runs a simulation binary.
func Main(props map[string]Prop, infos map[string]Info) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check|batch|serve|replay|gen PROPERTY ...")
		os.Exit(2)
	}
	mode, id := os.Args[1], os.Args[2]
	if mode == "replay" {
		os.Exit(replayMain(props, os.Args[2]))
	}
	p, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	info := infos[id]
	switch mode {
	case "batch": // batch PROP TIER FIRST COUNT
		limitMemory()
		first, _ := strconv.ParseUint(os.Args[4], 10, 64)
		count, _ := strconv.ParseUint(os.Args[5], 10, 64)
		w := bufio.NewWriterSize(os.Stdout, 1<<16)
		enc := json.NewEncoder(w)
		for s := first; s < first+count; s++ {
			enc.Encode(&Result{Start: true, Seed: s})
			w.Flush()
			e := Execute(p, Generate(p, s, os.Args[3]), false)
			enc.Encode(result(e, false))
			w.Flush()
			if e.Viol != nil {
				break // the process may be in any state now
			}
		}
	case "serve":
		limitMemory()
		dec := json.NewDecoder(os.Stdin)
		enc := json.NewEncoder(os.Stdout)
		for {
			c := &Case{}
			if err := dec.Decode(c); err != nil {
				return
			}
			for _, s := range c.Prefix {
				Execute(p, Generate(p, s, c.Tier), false)
			}
			enc.Encode(result(Execute(p, c, false), true))
		}
	case "gen":
		s, _ := strconv.ParseUint(os.Args[3], 10, 64)
		tier := "quick"
		if len(os.Args) > 4 {
			tier = os.Args[4]
		}
		b, _ := json.MarshalIndent(Generate(p, s, tier), "", " ")
		fmt.Println(string(b))
	case "run": // run PROP SEED [TIER]: one seed, verbosely
		s, _ := strconv.ParseUint(os.Args[3], 10, 64)
		tier := "quick"
		if len(os.Args) > 4 {
			tier = os.Args[4]
		}
		limitMemory()
		e := Execute(p, Generate(p, s, tier), true)
		b, _ := json.MarshalIndent(result(e, false), "", " ")
		fmt.Println(string(b))
	case "survey": // survey PROP FIRST COUNT: all kinds of violations, without verdict (development)
		limitMemory()
		first, _ := strconv.ParseUint(os.Args[3], 10, 64)
		count, _ := strconv.ParseUint(os.Args[4], 10, 64)
		for s := first; s < first+count; s++ {
			fmt.Fprintln(os.Stderr, s)
			if e := Execute(p, Generate(p, s, "quick"), false); e.Viol != nil {
				fmt.Println(e.Viol.Class, "#", s)
			}
		}
	case "check":
		os.Exit((&supervisor{p: p, info: info}).check())
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

// limitMemory makes a runaway allocation end this process, not the machine.
func limitMemory() {
	if !simrt.RaceBuild {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.GOMAXPROCS(2)
}

func env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

type supervisor struct {
	p        Prop
	info     Info
	tier     string
	seed     uint64
	deadline time.Time
	known    []knownFinding
	mu       sync.Mutex
}

type knownFinding struct{ class, file, text string }

func (s *supervisor) cmd(args ...string) *exec.Cmd {
	c := exec.Command(os.Args[0], args...)
	c.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=/dev/null")
	return c
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

// runBatch executes seeds in a fresh process. A process that dies condemns the seed it was running.
func (s *supervisor) runBatch(first, count uint64, stop func() bool) (res []*Result, err error) {
	var done uint64
	for done < count && !stop() {
		cmd := s.cmd("batch", s.p.ID(), s.tier, fmt.Sprint(first+done), fmt.Sprint(count-done))
		var errOut tail
		cmd.Stderr = &errOut
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		lines := make(chan *Result)
		go func() {
			dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
			for {
				r := &Result{}
				if dec.Decode(r) != nil {
					close(lines)
					return
				}
				lines <- r
			}
		}()
		running, hasRunning, killed, reason := uint64(0), false, false, ""
		watchdog := time.Duration(env("VERIF_WATCHDOG", 90)) * time.Second
		timer := time.NewTimer(watchdog)
		tick := time.NewTicker(200 * time.Millisecond)
	loop:
		for {
			select {
			case r, ok := <-lines:
				if !ok {
					break loop
				}
				timer.Reset(watchdog)
				if r.Start {
					running, hasRunning = r.Seed, true
				} else {
					hasRunning = false
					done = r.Seed - first + 1
					res = append(res, r)
				}
			case <-timer.C:
				killed, reason = true, "hang"
				cmd.Process.Kill()
			case <-tick.C:
				if stop() && !killed {
					killed, reason = true, "stopped"
					cmd.Process.Kill()
				}
			}
		}
		tick.Stop()
		werr := cmd.Wait()
		if reason == "stopped" {
			return res, nil
		}
		if cmd.ProcessState.ExitCode() == 2 && strings.Contains(string(errOut.b), "HARNESS PANIC") {
			return res, fmt.Errorf("%s", errOut.b)
		}
		if n := len(res); n > 0 && res[n-1].Viol != nil && !hasRunning {
			return res, nil
		}
		if hasRunning {
			r := &Result{Seed: running, Case: Generate(s.p, running, s.tier)}
			r.Viol = &Violation{Class: died(string(errOut.b), reason), Msg: lastWords(string(errOut.b), reason)}
			r.Case.Class, r.Case.Message = r.Viol.Class, r.Viol.Msg
			return append(res, r), nil
		}
		if werr != nil && done < count {
			return res, fmt.Errorf("worker: %v\n%s", werr, errOut.b)
		}
	}
	return res, nil
}

func died(stderr, reason string) string {
	if reason == "hang" {
		return "hang (wall clock)"
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return "process died: " + strings.TrimPrefix(l, "fatal error: ")
		}
	}
	return "process died"
}

func lastWords(stderr, reason string) string {
	if reason == "hang" {
		return "the run did not end within the wall clock bound"
	}
	if len(stderr) > 1500 {
		stderr = stderr[:1500]
	}
	return stderr
}

// server executes single cases for the minimiser.
type server struct {
	s   *supervisor
	cmd *exec.Cmd
	enc *json.Encoder
	out chan *Result
	err *tail
}

func (v *server) run(c *Case, timeout time.Duration) *Result {
	if v.cmd == nil {
		v.cmd = v.s.cmd("serve", v.s.p.ID())
		v.err = &tail{}
		v.cmd.Stderr = v.err
		in, _ := v.cmd.StdinPipe()
		out, _ := v.cmd.StdoutPipe()
		if v.cmd.Start() != nil {
			v.cmd = nil
			return nil
		}
		v.enc = json.NewEncoder(in)
		ch := make(chan *Result)
		v.out = ch
		go func() {
			dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
			for {
				r := &Result{}
				if dec.Decode(r) != nil {
					close(ch)
					return
				}
				ch <- r
			}
		}()
	}
	v.enc.Encode(c)
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case r, ok := <-v.out:
		if ok {
			return r
		}
		v.cmd.Wait()
		words := string(v.err.b)
		v.cmd = nil
		if strings.Contains(words, "HARNESS PANIC") {
			return nil
		}
		return &Result{Seed: c.Seed, Case: c.Clone(), Viol: &Violation{died(words, ""), lastWords(words, "")}}
	case <-t.C:
		v.close()
		return &Result{Seed: c.Seed, Case: c.Clone(), Viol: &Violation{died("", "hang"), lastWords("", "hang")}}
	}
}

func (v *server) close() {
	if v.cmd != nil {
		v.cmd.Process.Kill()
		v.cmd.Wait()
		v.cmd = nil
	}
}

// fresh executes a case in a process of its own.
func (s *supervisor) fresh(c *Case) *Result {
	v := &server{s: s}
	defer v.close()
	return v.run(c, time.Duration(env("VERIF_WATCHDOG", 90))*time.Second)
}

func (s *supervisor) loadKnown() error {
	file := os.Getenv("VERIF_KNOWN")
	if file == "" {
		return nil
	}
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil
	} else if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=ID class="..." case=FILE text
		if !strings.HasPrefix(l, "known: property="+s.p.ID()+" ") {
			continue
		}
		k := knownFinding{text: l[len("known: property="+s.p.ID()+" "):]}
		if i := strings.Index(l, `class="`); i >= 0 {
			k.class = l[i+7:]
			k.class = k.class[:strings.IndexByte(k.class, '"')]
		}
		if i := strings.Index(l, "case="); i >= 0 {
			k.file = strings.Fields(l[i+5:])[0]
			k.text = strings.TrimSpace(l[i+5+len(k.file):])
		}
		s.known = append(s.known, k)
	}
	return nil
}

func (s *supervisor) isKnown(r *Result) bool {
	for _, k := range s.known {
		if k.class == r.Viol.Class {
			return true
		}
	}
	return false
}

func (s *supervisor) check() int {
	begin := time.Now()
	s.tier = os.Getenv("VERIF_TIER")
	if s.tier != "thorough" {
		s.tier = "quick"
	}
	s.seed = uint64(env("VERIF_SEED", 1))
	n := s.info.Quick
	budget := env("VERIF_BUDGET", 300)
	if s.tier == "thorough" {
		n = s.info.Thorough
		budget = env("VERIF_BUDGET", 700)
	}
	n = env("VERIF_RUNS", n)
	s.deadline = begin.Add(time.Duration(budget) * time.Second)
	id := s.p.ID()
	if err := s.loadKnown(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	knownSeen := 0
	for _, k := range s.known {
		c, err := readCase(filepath.Join(filepath.Dir(os.Getenv("VERIF_KNOWN")), k.file))
		if err != nil {
			fmt.Fprintln(os.Stderr, "known finding:", err)
			return 2
		}
		if r := s.fresh(c); r != nil && r.Viol != nil && r.Viol.Class == k.class {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
			knownSeen++
		} else {
			fmt.Printf("note: the known finding %q of %s no longer fails\n", k.text, id)
		}
	}

	// seeds of this VERIF_SEED
	base := s.seed * 10000000
	batch := s.info.Batch
	if batch == 0 {
		batch = 40
	}
	nb := (n + batch - 1) / batch
	results := make([][]*Result, nb)
	errs := make([]error, nb)
	lowest := nb // lowest batch with a violation
	next := 0
	var wg sync.WaitGroup
	workers := env("VERIF_WORKERS", runtime.NumCPU())
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				s.mu.Lock()
				b := next
				if b >= nb || b > lowest || time.Now().After(s.deadline) {
					s.mu.Unlock()
					return
				}
				next++
				s.mu.Unlock()
				cnt := batch
				if (b+1)*batch > n {
					cnt = n - b*batch
				}
				stop := func() bool {
					s.mu.Lock()
					defer s.mu.Unlock()
					return b > lowest || time.Now().After(s.deadline)
				}
				var res []*Result
				var err error
				first := base + uint64(b*batch)
				for len(res) < cnt && !stop() {
					var part []*Result
					part, err = s.runBatch(first+uint64(len(res)), uint64(cnt-len(res)), stop)
					res = append(res, part...)
					if err != nil || len(part) == 0 {
						break
					}
					if v := part[len(part)-1].Viol; v != nil && !s.isKnown(part[len(part)-1]) {
						break
					}
				}
				s.mu.Lock()
				results[b], errs[b] = res, err
				if len(res) > 0 && res[len(res)-1].Viol != nil && !s.isKnown(res[len(res)-1]) && b < lowest {
					lowest = b
				}
				s.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var all []*Result
	var bad *Result
	badBatch := 0
	for b := range results {
		if errs[b] != nil {
			fmt.Fprintf(os.Stderr, "%s: simulation error: %v\n", id, errs[b])
			return 2
		}
		for _, r := range results[b] {
			all = append(all, r)
			if r.Viol != nil && !s.isKnown(r) && bad == nil {
				bad, badBatch = r, b
			}
		}
	}
	if len(all) == 0 {
		fmt.Fprintln(os.Stderr, id+": no run completed")
		return 2
	}
	searchWall := time.Since(begin)

	// determinism: repeat the first runs in other processes, one run per process
	repeated, differing := 0, 0
	if bad == nil {
		k := env("VERIF_REPEAT", 24)
		var pick []*Result
		for i := 0; i < len(all) && len(pick) < k; i += 1 + len(all)/k {
			pick = append(pick, all[i])
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, workers)
		for _, r := range pick {
			wg.Add(1)
			go func(r *Result) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				res, err := s.runBatch(r.Seed, 1, func() bool { return false })
				mu.Lock()
				defer mu.Unlock()
				if err == nil && len(res) == 1 {
					repeated++
					if res[0].Hash != r.Hash || res[0].Events != r.Events || res[0].Sched != r.Sched || (res[0].Viol == nil) != (r.Viol == nil) {
						differing++
						fmt.Fprintf(os.Stderr, "seed %d is not repeatable: hash %x/%x events %d/%d\n", r.Seed, r.Hash, res[0].Hash, r.Events, res[0].Events)
					}
				}
			}(r)
		}
		wg.Wait()
	}

	code := 0
	var replayPath, line string
	var viols []map[string]interface{}
	if bad != nil {
		final := s.settle(bad, base+uint64(badBatch*batch))
		if final == nil {
			fmt.Fprintf(os.Stderr, "%s: seed %d reported %q but the run cannot be reproduced: %s\n", id, bad.Seed, bad.Viol.Class, bad.Viol.Msg)
			return 2
		}
		dir := os.Getenv("VERIF_REPLAYS")
		if dir == "" {
			dir = "replays"
		}
		os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, bad.Seed))
		b, _ := json.MarshalIndent(final, "", " ")
		if err := os.WriteFile(replayPath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("violation of %s (seed %d): %s\n%s\n", id, bad.Seed, final.Class, final.Message)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", id, replayPath)
		viols = append(viols, map[string]interface{}{"seed": bad.Seed, "class": final.Class, "message": final.Message, "replay": replayPath})
		code = 1
	} else if differing > 0 {
		fmt.Fprintf(os.Stderr, "%s: %d of %d repeated runs differed: the simulation is not deterministic\n", id, differing, repeated)
		code = 2
	}
	if err := s.evidence(all, begin, searchWall, repeated, differing, knownSeen, viols, n); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if line != "" {
		fmt.Println(line)
	} else if code == 0 {
		fmt.Printf("ok %s: %d runs, %d known findings, %.1f s\n", id, len(all), knownSeen, time.Since(begin).Seconds())
	}
	return code
}

// settle minimises a violating run and confirms the result in a fresh process.
func (s *supervisor) settle(bad *Result, batchFirst uint64) *Case {
	orig := bad.Case
	class := bad.Viol.Class
	ok := func(c *Case) *Case {
		r := s.fresh(c)
		if r != nil && r.Viol != nil && r.Viol.Class == class {
			c = c.Clone()
			c.Class, c.Message = r.Viol.Class, r.Viol.Msg
			return c
		}
		return nil
	}
	conf := ok(orig)
	if conf == nil {
		// regenerated from its seed rather than from its recording
		if c := ok(Generate(s.p, bad.Seed, s.tier)); c != nil {
			conf = c
		}
	}
	if conf == nil {
		// the state of the process mattered: replay what ran before it as well
		c := orig.Clone()
		for x := batchFirst; x < bad.Seed; x++ {
			c.Prefix = append(c.Prefix, x)
		}
		c.Tier = s.tier
		conf = ok(c)
		if conf != nil {
			for len(conf.Prefix) > 1 { // shorten from the front
				c := conf.Clone()
				c.Prefix = c.Prefix[(len(c.Prefix)+1)/2:]
				if x := ok(c); x != nil {
					conf = x
				} else {
					break
				}
			}
		}
		return conf
	}
	if os.Getenv("VERIF_NOMIN") != "" {
		return conf
	}
	m := s.minimise(conf, class)
	if x := ok(m); x != nil {
		return x
	}
	return conf
}

func readCase(file string) (*Case, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	c := &Case{}
	return c, json.Unmarshal(b, c)
}

func replayMain(props map[string]Prop, file string) int {
	c, err := readCase(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[c.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "this binary does not simulate", c.Prop)
		return 2
	}
	if os.Getenv("VERIF_REPLAY_CHILD") == "" {
		s := &supervisor{p: p}
		cmd := s.cmd("replay", file)
		cmd.Env = append(cmd.Env, "VERIF_REPLAY_CHILD=1")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err == nil {
			return 0
		}
		if code != 1 {
			fmt.Println("the process died during the replay")
		}
		if code == 1 || c.Class == "" || strings.HasPrefix(c.Class, "process died") {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, file)
			return 1
		}
		return 2
	}
	limitMemory()
	for _, s := range c.Prefix {
		Execute(p, Generate(p, s, c.Tier), false)
	}
	e := Execute(p, c, true)
	if e.Viol != nil {
		fmt.Printf("violation of %s: %s\n%s\n", c.Prop, e.Viol.Class, e.Viol.Msg)
		return 1
	}
	fmt.Printf("%s held in this run\n", c.Prop)
	return 0
}

func (s *supervisor) evidence(all []*Result, begin time.Time, search time.Duration, repeated, differing, known int, viols []map[string]interface{}, planned int) error {
	file := os.Getenv("VERIF_EVIDENCE")
	if file == "" {
		return nil
	}
	probes, fired := map[string]int{}, map[string]int{}
	hashes, scheds := map[uint64]bool{}, map[uint64]bool{}
	var steps, iters uint64
	var switches, reads, events, nontrivial, faulty, faultless, total int
	var span int64
	var samples []interface{}
	for _, r := range all {
		for k, v := range r.Probes {
			probes[k] += v
		}
		nf := 0
		for k, v := range r.Fired {
			fired[k] += v
			nf += v
		}
		total += nf
		if nf > 0 {
			faulty++
		} else {
			faultless++
		}
		if r.Nontrivial && !hashes[r.Hash] {
			hashes[r.Hash] = true
			nontrivial++
		}
		if r.Sched != 0 {
			scheds[r.Sched] = true
		}
		steps += r.Steps
		iters += r.MapIters
		switches += r.Switches
		reads += r.ClockReads
		events += r.Events
		span += r.SimSpan
	}
	for i := 0; i < len(all) && len(samples) < 3; i += 1 + len(all)/3 {
		samples = append(samples, Generate(s.p, all[i].Seed, s.tier))
	}
	cov := map[string]interface{}{
		"evaluations":              len(all),
		"distinct_nontrivial":      nontrivial,
		"rule":                     s.info.Rule + " A run counts as distinct by the hash of its event log and schedule.",
		"samples":                  samples,
		"seeds_planned":            planned,
		"seeds_per_hour":           int(float64(len(all)) / search.Hours()),
		"first_seed":               s.seed * 10000000,
		"runs_with_faults":         faulty,
		"runs_without_faults":      faultless,
		"faults_fired":             fired,
		"faults_fired_total":       total,
		"probes":                   probes,
		"scheduling_points":        steps,
		"context_switches":         switches,
		"distinct_interleavings":   len(scheds),
		"map_iterations_permuted":  iters,
		"simulated_seconds":        span,
		"clock_readings":           reads,
		"events_logged":            events,
		"repeated_for_determinism": repeated,
		"repeats_differing":        differing,
		"known_findings_seen":      known,
		"real_components":          s.info.Real,
		"stubbed_components":       s.info.Stub,
	}
	ev := map[string]interface{}{
		"property": s.p.ID(), "tier": s.tier, "seed": s.seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(begin).Seconds(),
		"assumptions": s.info.Assumptions,
	}
	if len(viols) > 0 {
		ev["violations"] = len(viols)
		ev["violation_details"] = viols
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(file), 0o755)
	return os.WriteFile(file, append(b, '\n'), 0o644)
}
