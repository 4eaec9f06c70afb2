package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one generated scenario: a project and one or more simulated
// executions of bab, the later ones on what the earlier ones left on disk.
type Case struct {
	Prop  string            `json:"prop"`
	Kind  string            `json:"kind,omitempty"`
	Index int               `json:"index"`
	Proj  *Project          `json:"proj,omitempty"`
	Root  string            `json:"root,omitempty"`
	Steps []*Step           `json:"steps"`
	P     map[string]int64  `json:"p,omitempty"`
	S     map[string]string `json:"s,omitempty"`
	Trace []string          `json:"trace_hash,omitempty"`
	Class string            `json:"class,omitempty"`
	Msg   string            `json:"msg,omitempty"`
}

// Step is one simulated execution.
type Step struct {
	Sim    Sim      `json:"sim"`
	Fresh  bool     `json:"fresh,omitempty"` // do not carry the file system over
	Extra  []SFile  `json:"extra,omitempty"` // files in addition to base and project
	NoProj bool     `json:"no_proj,omitempty"`
	Gap    int64    `json:"gap,omitempty"` // ns between the previous step's end and this start
	Tag    []string `json:"tag,omitempty"` // what the check has to know about it
}

const baseWall = 1_700_000_000_000_000_000

func baseFiles() []SFile {
	fs := []SFile{
		{Path: "/bin/sh", Kind: "f", Mode: 0o755, Content: "x"},
		{Path: "/usr/bin", Kind: "d", Mode: 0o755},
		{Path: "/dev/null", Kind: "c", Mode: 0o666, Content: "null"},
		{Path: "/dev/tty", Kind: "c", Mode: 0o666, Content: "tty"},
		{Path: "/tmp", Kind: "d", Mode: 0o1777},
		{Path: "/home/u", Kind: "d", Mode: 0o755},
		{Path: "/home/u/.cache", Kind: "d", Mode: 0o755},
	}
	for _, d := range baseDirs {
		fs = append(fs, SFile{Path: d, Kind: "d", Mode: 0o755})
	}
	for _, l := range baseLinks {
		fs = append(fs, SFile{Path: l[0], Kind: "l", Mode: 0o777, Content: BStr(l[1])})
	}
	return fs
}

func baseDirSet() map[string]bool {
	m := map[string]bool{"/": true, "/tmp": true, "/home/u": true, "/srv": true, "/home": true}
	for _, d := range baseDirs {
		m[d] = true
	}
	m[projDir+"/here"], m[projDir+"/here/deep"], m["/srv/link"] = true, true, true
	return m
}

func baseEnv() []string {
	return []string{"HOME=/home/u", "PATH=/usr/bin:/bin", "PWD=" + projDir, "LANG=C.UTF-8"}
}

// newSim is an execution with nothing attached to a terminal and the update
// check switched off.
func newSim(r *rng, args ...string) Sim {
	s := Sim{Args: args, Env: append(baseEnv(), "BAB_NO_UPDATE_CHECK=1"), Cwd: projDir,
		FDs:      []SFD{{FD: 0, Kind: "null"}, {FD: 1, Kind: "sink", Label: "stdout", Cap: -1}, {FD: 2, Kind: "sink", Label: "stderr", Cap: -1}},
		PipeCap:  pickOf(r, []int{4096, 65536, 64, 16}),
		ReadMode: r.n(3), StartWall: baseWall, MaxTicks: 3_000_000, MaxSim: 4 * 3600e9}
	s.Sched = newSched(r)
	if r.p(1, 3) {
		s.LatP, s.LatMax = r.in(1, 400), int64(r.in(1, 2000))*1000
	}
	return s
}

func newSched(r *rng) Sched {
	s := Sched{Seed: r.u64(), Rand: r.u64()}
	switch r.n(10) {
	case 0:
		s.Policy = 3
	case 1, 2, 3:
		s.Policy = 2
	default:
		s.Policy = 1
	}
	s.YieldP = pickOf(r, []int{50, 300, 1000, 3000, 10000})
	return s
}

func carryFS(r *Result) []SFile {
	var out []SFile
	for i := range r.Events {
		e := &r.Events[i]
		switch e.Name {
		case "fsfile":
			out = append(out, SFile{Path: e.S(0), Kind: "f", Mode: int(e.I(1)), Mtime: e.I(2), Content: BStr(e.S(3))})
		case "fsdir":
			out = append(out, SFile{Path: e.S(0), Kind: "d", Mode: int(e.I(1)), Mtime: e.I(2)})
		case "fslink":
			out = append(out, SFile{Path: e.S(0), Kind: "l", Mode: 0o777, Content: BStr(e.S(3))})
		}
	}
	return out
}

// babfile is the name of the project's main file.
func (c *Case) babfile() string {
	if n := c.S["babfile"]; n != "" {
		return n
	}
	return "Babfile.yml"
}

// prepare fills in what the steps take from the project and from each other.
func (c *Case) prepare(k int, prev *Result) *Sim {
	st := c.Steps[k]
	s := st.Sim
	var files []SFile
	if k == 0 || st.Fresh || prev == nil {
		files = append(files, baseFiles()...)
		if c.Proj != nil && !st.NoProj {
			own := c.Proj.files(projDir, c.babfile())
			if to := c.S["babfile-link"]; to != "" {
				own = append(own, SFile{Path: own[0].Path, Kind: "l", Mode: 0o777, Content: BStr(to)})
				own[0].Path = to
			}
			files = append(files, own...)
		}
	} else {
		files = append(files, baseFiles()[2:4]...)
		files = append(files, carryFS(prev)...)
		s.StartWall = prev.wallEnd + st.Gap
	}
	files = append(files, st.Extra...)
	s.Files = append(files, s.Files...)
	if c.Proj != nil {
		s.Programs = append(append([]SProgram{}, s.Programs...), c.Proj.programs()...)
	}
	return &s
}

func (c *Case) run(w *worker) ([]*Result, error) {
	var out []*Result
	var prev *Result
	for k := range c.Steps {
		s := c.prepare(k, prev)
		r := w.run(s)
		if r.EngineErr != "" {
			return out, fmt.Errorf("step %d: %s", k, r.EngineErr)
		}
		r.wallEnd = s.StartWall + r.SimNow
		out = append(out, r)
		prev = r
	}
	return out, nil
}

func (r *Result) traceHash() uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	addI := func(v int64) {
		for k := 0; k < 8; k++ {
			h ^= uint64(byte(v >> (8 * k)))
			h *= 1099511628211
		}
	}
	for i := range r.Events {
		e := &r.Events[i]
		addI(e.T)
		add(e.Name)
		for _, a := range e.A {
			switch v := a.(type) {
			case int64:
				addI(v)
			case string:
				add(v)
			}
		}
	}
	addI(int64(r.Exit))
	return h
}

// interleaving identifies the order of the visible events, times aside.
func (r *Result) interleaving() uint64 {
	h := uint64(14695981039346656037)
	for i := range r.Events {
		e := &r.Events[i]
		switch e.Name {
		case "fsfile", "fsdir", "fslink", "final":
			continue
		}
		h = (h ^ hashStr(e.Name)) * 1099511628211
		if len(e.A) > 1 {
			h = (h ^ hashStr(e.S(1)) ^ uint64(e.I(0))) * 1099511628211
		}
	}
	return h
}

// Prop is one property and the machinery that decides it.
type Prop struct {
	ID       string
	Gen      func(r *rng, thorough bool) *Case
	Check    func(c *Case, rs []*Result) *Violation
	Quick    int // cases
	Thorough int
	Rule     string
	Real     string
	Stub     string
	Inst     bool // about install.sh, see props_install.go
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Finding is a recorded defect of the program, identified by what fails.
type Finding struct {
	Property string
	Status   string
	Match    string // a violation's class or a prefix of it
	What     string
}

// loadFindings reads known-findings.txt. Its lines are
//
//	known: property=<id> match=<class> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// and only the known ones have an effect.
func loadFindings(verif string) []Finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		m, what, _ := strings.Cut(strings.TrimPrefix(rest, "match="), " ")
		out = append(out, Finding{Property: id, Status: "known", Match: m, What: what})
	}
	return out
}

type engine struct {
	verif, repo string
	bin         string
	tier        string
	seed        uint64
	prop        *Prop
	known       []Finding
	workers     int
	deadline    time.Time
	start       time.Time
	limit       int

	mu       sync.Mutex
	st       stats
	found    *foundCase
	knownHit map[string]int
	engErr   error
	engErrs  int
}

type foundCase struct {
	c *Case
	v *Violation
}

type stats struct {
	Cases, Runs   int
	Steps, Ticks  uint64
	Switches      uint64
	SimNs         int64
	Preempt       int
	Kinds         [8]uint64
	Faults        map[string]int
	Events        map[string]int
	Net           map[string]int
	Exits         map[string]int
	Probes        map[string]int
	Inter         map[uint64]bool
	NonTrivial    map[uint64]bool
	Spawns        int
	Redo, RedoBad int
	Samples       []any
	Policies      map[string]int
}

func newStats() stats {
	return stats{Faults: map[string]int{}, Events: map[string]int{}, Net: map[string]int{}, Exits: map[string]int{}, Probes: map[string]int{}, Inter: map[uint64]bool{}, NonTrivial: map[uint64]bool{}, Policies: map[string]int{}}
}

var actNames = []string{"signal", "tty-input", "tty-hangup", "stdin", "stdin-eof", "clock-jump", "resize", "write-file", "remove-file", "kill-process", "crash", "rename", "mkdir", "stall", "drop"}
var faNames = []string{"errno", "short", "delay", "crash", "power-loss"}
var netNames = []string{"reply", "auto", "dns-failure", "refused", "black-hole", "reset", "tls-failure"}
var polNames = []string{"replay", "uniform", "pct", "fifo"}

func (st *stats) add(c *Case, rs []*Result) {
	st.Cases++
	var h uint64 = 7
	nontrivial := false
	for k, r := range rs {
		st.Runs++
		st.Steps += r.Steps
		st.Ticks += r.Ticks
		st.Switches += r.Switches
		st.SimNs += r.SimNow
		st.Policies[polNames[c.Steps[k].Sim.Sched.Policy]]++
		st.Exits[fmt.Sprint(r.Exit)]++
		ih := r.interleaving()
		st.Inter[ih] = true
		h = h*31 + ih
		if len(r.Dev) > 0 {
			st.Preempt++
		}
		for i := range r.Events {
			e := &r.Events[i]
			switch e.Name {
			case "spawn":
				st.Spawns++
			case "fault-fired":
				st.Faults[faultName(e)]++
				nontrivial = true
			case "event":
				if a := int(e.I(0)); a >= 0 && a < len(actNames) {
					n := actNames[a]
					if a == acCrash {
						n = "crash"
						if e.I(1) != 0 {
							n = "power-loss"
						}
					}
					if a == acSignal {
						n = fmt.Sprintf("signal-%d", e.I(1))
					}
					st.Events[n]++
				}
				nontrivial = true
			case "netreq":
				st.Net["request"]++
			case "netkind":
				if a := int(e.I(1)); a >= 0 && a < len(netNames) {
					st.Net[netNames[a]]++
				}
			case "rv-timeout":
				st.Probes["rendezvous timed out"]++
			case "spawnfail":
				st.Probes["command could not be started"]++
			}
		}
		for k, n := range r.Probes {
			st.Probes[k] += n
		}
		if len(r.Dev) > 0 {
			nontrivial = true
		}
	}
	if nontrivial {
		st.NonTrivial[h] = true
	}
}

func faultName(e *Ev) string {
	n := e.S(0)
	if a := int(e.I(2)); n != "sink" && a >= 0 && a < len(faNames) {
		n += ":" + faNames[a]
	}
	return n
}

func (e *engine) matchKnown(v *Violation) *Finding {
	for i := range e.known {
		f := &e.known[i]
		if f.Status == "known" && f.Property == e.prop.ID && f.Match != "" && strings.HasPrefix(v.Class, f.Match) {
			return f
		}
	}
	return nil
}

func (e *engine) gen(i int) *Case {
	r := newRng(mix(mix(e.seed, hashStr(e.prop.ID)), uint64(i)))
	c := e.prop.Gen(r, e.tier == "thorough")
	c.Prop = e.prop.ID
	c.Index = i
	return c
}

// search runs the cases, in parallel, and keeps the violation of the lowest
// index.
func (e *engine) search() {
	total := e.limit
	var next int64 = -1
	var stop int64 = int64(total)
	var wg sync.WaitGroup
	for k := 0; k < e.workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := newWorker(e.bin)
			if err != nil {
				e.fail(err)
				return
			}
			defer w.close()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= atomic.LoadInt64(&stop) || time.Now().After(e.deadline) {
					return
				}
				c := e.gen(int(i))
				rs, err := c.run(w)
				if err != nil {
					e.fail(fmt.Errorf("case %d: %w", i, err))
					if e.engErrs > 20 {
						return
					}
					continue
				}
				v := e.prop.Check(c, rs)
				redoBad := false
				redo := i%97 == 0
				if redo {
					rs2, err := c.run(w)
					redoBad = err != nil || len(rs2) != len(rs)
					for k := range rs2 {
						if !redoBad && rs2[k].traceHash() != rs[k].traceHash() {
							redoBad = true
						}
					}
				}
				e.mu.Lock()
				e.st.add(c, rs)
				if redo {
					e.st.Redo++
					if redoBad {
						e.st.RedoBad++
					}
				}
				if len(e.st.Samples) < 3 {
					e.st.Samples = addSample(e.st.Samples, sampleOf(c, rs))
				}
				if v != nil {
					if f := e.matchKnown(v); f != nil {
						e.knownHit[f.What]++
					} else if e.found == nil || e.found.c.Index > c.Index {
						e.found = &foundCase{c, v}
						atomic.StoreInt64(&stop, i)
					}
				}
				e.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func (e *engine) fail(err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.engErrs++
	if e.engErr == nil {
		e.engErr = err
	}
}

// addSample leaves out what is too large to read.
func addSample(l []any, x any) []any {
	if b, err := json.Marshal(x); err != nil || len(b) > 32<<10 {
		return l
	}
	return append(l, x)
}

func sampleOf(c *Case, rs []*Result) any {
	m := map[string]any{"index": c.Index, "kind": c.Kind}
	if c.Proj != nil {
		m["babfile"] = c.Proj.render()
	}
	var steps []any
	for k, r := range rs {
		s := &c.Steps[k].Sim
		var evs []string
		for i := range r.Events {
			ev := &r.Events[i]
			switch ev.Name {
			case "fsfile", "fsdir", "fslink", "ttymode", "sigenable":
				continue
			}
			if len(evs) < 40 {
				x := ev.String()
				if len(x) > 200 {
					x = x[:200]
				}
				evs = append(evs, x)
			}
		}
		steps = append(steps, map[string]any{"args": s.Args, "policy": polNames[s.Sched.Policy], "seed": s.Sched.Seed, "faults": s.Faults, "events": s.Events, "net": s.Net, "exit": r.Exit, "scheduling_steps": r.Steps, "deviations": len(r.Dev) / 2, "sim_us": r.SimNow / 1000, "first_events": evs})
	}
	m["executions"] = steps
	return m
}

// check is the whole life of one check command; the result is the exit status.
func (e *engine) check() int {
	if e.prop.Inst {
		return e.instCheck()
	}
	e.start = time.Now()
	e.st = newStats()
	e.knownHit = map[string]int{}
	e.workers = max(2, runtime.NumCPU())
	e.known = loadFindings(e.verif)
	dir, err := os.MkdirTemp("", "babsim-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	if e.bin == "" {
		e.bin = filepath.Join(dir, "bab-sim")
		yields, err := buildSim(dir, e.verif, e.repo, e.bin)
		if err != nil {
			fmt.Println("error: building the simulator:", err)
			return 2
		}
		fmt.Printf("built the simulated bab (%d yield points) in %.1f s\n", yields, time.Since(e.start).Seconds())
	}
	t0 := time.Now()
	e.limit = e.prop.Quick
	budget := 45 * time.Second
	if e.tier == "thorough" {
		e.limit = e.prop.Thorough
		budget = 600 * time.Second
	}
	if s := os.Getenv("BABSIM_CASES"); s != "" {
		fmt.Sscan(s, &e.limit)
	}
	e.deadline = t0.Add(budget)
	e.search()
	searchWall := time.Since(t0)
	code := 0
	if e.found != nil {
		w, err := newWorker(e.bin)
		if err != nil {
			fmt.Println("error:", err)
			return 2
		}
		defer w.close()
		c, v := e.found.c, e.found.v
		if os.Getenv("BABSIM_RAW") == "" {
			c, v, err = e.minimise(w, c, v)
		}
		if err != nil {
			fmt.Println("error: minimising:", err)
			return 2
		}
		p, err := e.saveReplay(c, v)
		if err != nil {
			fmt.Println("error:", err)
			return 2
		}
		fmt.Printf("case %d (seed %d): %s: %s\n", e.found.c.Index, e.seed, v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop.ID, p)
		code = 1
	} else if e.engErr != nil {
		fmt.Printf("error: the machinery failed on %d cases: %v\n", e.engErrs, e.engErr)
		code = 2
	} else if e.st.RedoBad > 0 {
		fmt.Printf("error: %d of %d repeated executions differed\n", e.st.RedoBad, e.st.Redo)
		code = 2
	} else if e.st.Cases < min(e.limit, 200) {
		fmt.Printf("error: only %d of %d cases were run in the time allowed\n", e.st.Cases, e.limit)
		code = 2
	}
	for _, f := range e.known {
		if f.Status == "known" && f.Property == e.prop.ID && code != 2 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop.ID, f.What)
		}
	}
	if err := e.writeEvidence(searchWall, code); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d executions, %d distinct interleavings, %.0f s simulated, %.1f s wall\n", e.prop.ID, e.tier, e.st.Cases, e.st.Runs, len(e.st.Inter), float64(e.st.SimNs)/1e9, time.Since(e.start).Seconds())
	return code
}

func (e *engine) saveReplay(c *Case, v *Violation) (string, error) {
	dir := filepath.Join(e.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	name := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, v.Class)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", e.prop.ID, name, e.seed))
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(p, b, 0o644)
}

func (e *engine) writeEvidence(wall time.Duration, code int) error {
	st := &e.st
	hours := wall.Hours()
	cov := map[string]any{
		"evaluations":            st.Runs,
		"distinct_nontrivial":    len(st.NonTrivial),
		"rule":                   e.prop.Rule + " Non-trivial: at least one scheduling decision departed from the default order or at least one fault or event fired; distinct: by the hash of the order of visible events.",
		"samples":                st.Samples,
		"cases":                  st.Cases,
		"runs_per_hour":          int(float64(st.Runs) / hours),
		"seeds_per_hour":         int(float64(st.Cases) / hours),
		"search_wall_s":          wall.Seconds(),
		"simulated_seconds":      float64(st.SimNs) / 1e9,
		"scheduling_steps":       st.Steps,
		"yield_points_passed":    st.Ticks,
		"thread_switches":        st.Switches,
		"distinct_interleavings": len(st.Inter),
		"interleaving_measure":   "hash of the sequence of (event kind, process or descriptor) over all externally visible events of one execution, times excluded",
		"runs_with_preemptions":  st.Preempt,
		"policies":               st.Policies,
		"faults_fired":           st.Faults,
		"events_fired":           st.Events,
		"network":                st.Net,
		"exit_statuses":          st.Exits,
		"processes_started":      st.Spawns,
		"probes":                 st.Probes,
		"determinism_rechecks":   st.Redo,
		"determinism_failures":   st.RedoBad,
		"real_components":        e.prop.Real,
		"stubbed_components":     e.prop.Stub,
	}
	return e.saveEvidence(cov, code, []string{
		"preemption happens only at the inserted yield points (every statement of bab itself, every blocking or system operation of its libraries)",
		"the simulated kernel follows Linux for the calls bab makes; a shell command is a script of writes, reads, sleeps, signals and an exit status",
	})
}

func (e *engine) saveEvidence(cov map[string]any, code int, assumptions []string) error {
	viols := 0
	if code == 1 {
		viols = 1
	}
	ev := map[string]any{
		"property": e.prop.ID, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov,
		"assumptions": assumptions,
		"wall_s":      time.Since(e.start).Seconds(), "violations": viols,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(e.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return writeWhole(filepath.Join(dir, e.prop.ID+".json"), append(b, '\n'))
}

// writeWhole puts a file in place complete and on disk, or not at all.
func writeWhole(path string, b []byte) error {
	f, err := os.CreateTemp(filepath.Dir(path), "."+filepath.Base(path)+".*")
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	err = errors.Join(err, f.Chmod(0o644), f.Sync(), f.Close())
	if err == nil {
		err = os.Rename(f.Name(), path)
	}
	if err != nil {
		_ = os.Remove(f.Name())
	}
	return err
}

// endings every scenario shares ---------------------------------------------------

// abnormal reports hangs, crashes and budget overruns.
func abnormal(id string, rs []*Result) *Violation {
	for k, r := range rs {
		if v := abnormal1(id, r); v != nil {
			v.Step = k
			return v
		}
	}
	return nil
}

func abnormal1(id string, r *Result) *Violation {
	switch {
	case r.Exit == exitDeadlock:
		return viol(id+"/hang", "bab never ends: everything is blocked (t=%dus)\n%s", r.SimNow/1000, clip(r.Stderr, 3000))
	case r.Exit == exitBudget || r.Exit == exitOverflow:
		return viol(id+"/hang", "bab does not end within the step or time budget (t=%dus, %d ticks)\n%s", r.SimNow/1000, r.Ticks, clip(r.Stderr, 3000))
	case r.panicked():
		return viol(id+"/panic", "bab crashed: %s", clip(r.Stderr, 3000))
	case strings.Contains(r.ttyOutput(), "Caught panic") || strings.Contains(r.output("stderr"), "Caught panic"):
		return viol(id+"/panic", "bab crashed inside the terminal program")
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedCounts(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(p, " ")
}

var _ = path.Join
