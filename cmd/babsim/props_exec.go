package main

import "fmt"

const realAll = "bab's own packages, cobra, charm log, lipgloss, bubbletea, huh, yaml, os/exec, os/signal, context, sync, os, syscall wrappers and the Go runtime, all compiled from their sources"
const stubAll = "the kernel below the system calls (file system, pipes, terminal, processes, signals, clock), the shell and every command it runs (scripts), the HTTP transport, and the choice of which goroutine runs next"

func baseOpts(r *rng) GenOpts {
	// swarm: each feature is off in a good part of the cases
	f := func(p int) int {
		if r.p(1, 3) {
			return 0
		}
		return p
	}
	return GenOpts{MaxTasks: r.in(1, 7), MaxItems: r.in(1, 4), Par: f(30), ParMax: r.in(2, 5), TaskRef: f(35), Share: f(40), Deps: f(50),
		When: f(20), Plat: f(10), Fail: f(15), Limit: f(50), Logs: f(15), Prompts: f(10), Flags: f(30), Dirs: f(30), Envs: f(40), Vars: f(40),
		Includes: f(20), Lines: r.n(4), Sleep: f(50), Labels: f(40), NoColor: f(20)}
}

func genExec(r *rng, o GenOpts) *Case {
	g := &gen{r: r, o: o}
	p := g.project()
	if !o.NoShare && r.p(1, 3) {
		g.commonNeeds(p)
	}
	root := p.Tasks[0].Name
	c := &Case{Proj: p, Root: root, P: map[string]int64{}, S: map[string]string{}}
	c.Steps = []*Step{{Sim: newSim(r, root)}}
	return c
}

// commonNeeds gives tasks that are items of one block dependencies in common,
// first, last or in between.
func (g *gen) commonNeeds(p *Project) {
	r := g.r
	for _, in := range p.Includes {
		if in.P != nil && !in.Shared {
			g.commonNeeds(in.P)
		}
	}
	by := map[string]*MTask{}
	for _, t := range p.Tasks {
		by[t.Name] = t
	}
	for _, t := range p.Tasks {
		for _, b := range t.Run {
			if b.Kind != kParallel {
				continue
			}
			var ts []*MTask
			for _, it := range b.Items {
				if x := by[it.Task]; it.Kind == kTask && x != nil {
					ts = append(ts, x)
				}
			}
			if len(ts) < 2 || r.p(1, 2) {
				continue
			}
			var needs []string
			for k := r.in(1, 3); k > 0; k-- {
				n := &MTask{Name: fmt.Sprint("need", len(p.Tasks)), Desc: "needed", Run: []*Item{g.cmd(gvars)}}
				p.Tasks = append(p.Tasks, n)
				needs = append(needs, n.Name)
			}
			for _, x := range ts {
				for _, n := range needs {
					if !has(x.Deps, n) && r.p(2, 3) {
						i := pickOf(r, []int{0, r.n(len(x.Deps) + 1), len(x.Deps)})
						x.Deps = append(x.Deps[:i:i], append([]string{n}, x.Deps[i:]...)...)
					}
				}
			}
		}
	}
}

// place varies where bab runs, how its Babfile is called and found, and how the
// task is named.
func place(r *rng, c *Case) {
	s := &c.Steps[0].Sim
	names := []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}
	if r.p(1, 2) {
		c.S["babfile"] = r.pick(names...)
	}
	name := c.babfile()
	if r.p(1, 5) {
		// kept elsewhere; what it says is still about the directory of the link
		c.S["babfile-link"] = r.pick("/srv/data/shared.yml", "/srv/"+name)
	}
	decoy := BStr("tasks:\n  t0:\n    run:\n      - cmd: k999z decoy\n")
	if r.p(1, 2) {
		// further up: not looked at
		c.Steps[0].Extra = append(c.Steps[0].Extra, SFile{Path: "/home/u/" + r.pick(names...), Kind: "f", Mode: 0o644, Content: decoy})
	}
	for i, n := range names {
		if n == name && i+1 < len(names) && r.p(1, 4) {
			// beside it, under a name that comes after its own
			c.Steps[0].Extra = append(c.Steps[0].Extra, SFile{Path: projDir + "/" + r.pick(names[i+1:]...), Kind: "f", Mode: 0o644, Content: decoy})
		}
	}
	if callFrom(r, s, name) && r.p(1, 2) {
		c.Steps[0].Extra = append(c.Steps[0].Extra, SFile{Path: s.Cwd + "/" + r.pick(names...), Kind: "f", Mode: 0o644, Content: decoy})
	}
	if r.p(1, 10) {
		s.Args = append([]string{r.pick("-v", "--verbose")}, s.Args...)
	}
	if t := c.Proj.Tasks[0]; len(t.Aliases) > 0 && r.p(2, 3) {
		c.Root = r.pick(t.Aliases...)
		for i, a := range s.Args {
			if a == t.Name {
				s.Args[i] = c.Root
			}
		}
	}
}

// callFrom draws the directory bab runs in and how it is told of the Babfile. It
// reports whether another Babfile may lie in that directory.
func callFrom(r *rng, s *Sim, name string) bool {
	decoy := false
	cwd := projDir
	switch r.n(6) {
	case 0:
		cwd = projDir + r.pick("/sub", "/sub/deep")
	case 1:
		cwd = "/srv/data"
		s.Args = append([]string{r.pick("-b", "--babfile"), projDir + "/" + name}, s.Args...)
	case 2:
		cwd = projDir + "/sub"
		s.Args = append(s.Args, "--babfile="+r.pick("../", "./../", "deep/../../")+name)
		decoy = true
	case 3:
		cwd = "/home/u"
		s.Args = append(s.Args, "-b", r.pick("proj/", "p/")+name)
	case 4:
		cwd = r.pick(projDir, projDir, "/home/u/p", "/home/u/p/sub")
	}
	s.Cwd = cwd
	for i, kv := range s.Env {
		if kv == "PWD="+projDir {
			s.Env[i] = "PWD=" + cwd
		}
	}
	return decoy
}

// spawnFaults makes a few process creations fail.
func spawnFaults(r *rng, s *Sim) {
	for k := r.n(3); k > 0; k-- {
		s.Faults = append(s.Faults, SFault{Class: "spawn", Nth: int64(r.n(6)), Count: 1, Act: faErrno, Arg: int64(pickOf(r, []int{11, 12, 2, 13, 24}))})
	}
}

// judge compares one execution with the reference model.
func judge(id string, c *Case, r *Result) (*Exec, *Violation) {
	h := newHistory(r, c.Proj)
	x := newExec(c.Proj, h, baseDirSet())
	for _, e := range r.all("fault-fired") {
		if e.S(0) == "pipe" || e.S(0) == "open" && e.S(1) == "/dev/null" {
			x.Lost++
		}
	}
	ok := x.run(c.Root)
	if v := x.checkSets(id); v != nil {
		return x, v
	}
	if len(h.Other) > 0 {
		return x, viol(id+"/foreign", "a process was started that no command of the project stands for: %q", h.Other[0].S(2))
	}
	if v := x.checkLogs(id); v != nil {
		return x, v
	}
	if v := x.checkOrder(c.Root, id+"/order"); v != nil {
		return x, v
	}
	want := 0
	if !ok {
		want = 1
	}
	if r.Exit != want {
		return x, viol(id+"/status", "exit status %d, want %d; stderr: %s", r.Exit, want, clip(stripANSI(r.output("stderr")), 500))
	}
	return x, nil
}

// sharedOpts is a project in which parallel items need the same tasks.
func sharedOpts(r *rng) GenOpts {
	o := baseOpts(r)
	o.MaxTasks = r.in(3, 9)
	o.Par, o.ParMax, o.TaskRef, o.Share, o.Deps = r.in(25, 60), r.in(2, 6), r.in(30, 60), r.in(40, 95), r.in(30, 80)
	o.Sleep = r.in(20, 90)
	return o
}

func parOpts(r *rng) GenOpts {
	o := baseOpts(r)
	o.MaxTasks = r.in(1, 6)
	o.Par, o.ParMax = r.in(40, 80), r.in(2, 8)
	o.Sleep = r.in(20, 90)
	return o
}

func init() {
	register(&Prop{ID: "C01", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project (1-7 tasks, dependencies, nested task references, parallel blocks, conditions, platforms, includes, logs, prompts with defaults), the outcomes of its commands (success, failing status, death by signal, failing process creation) and one seeded schedule.",
		Gen: func(r *rng, th bool) *Case {
			o := baseOpts(r)
			o.Slow = 20
			o.Rich = pickOf(r, []int{0, 0, 10, 40})
			if th && r.p(1, 2) {
				o.MaxTasks, o.MaxItems = r.in(5, 14), r.in(2, 6)
			}
			c := genExec(r, o)
			if r.p(1, 2) {
				place(r, c)
			}
			if r.p(1, 3) {
				spawnFaults(r, &c.Steps[0].Sim)
			}
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C01", rs); v != nil {
				return v
			}
			_, v := judge("C01", c, rs[0])
			return v
		}})

	register(&Prop{ID: "C02", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project of 3-9 tasks in which parallel items, dependencies and task references lead to the same tasks along many paths, some of whose commands fail or take time, and one seeded schedule.",
		Gen: func(r *rng, th bool) *Case {
			o := sharedOpts(r)
			o.Slow = 20
			if th && r.p(1, 2) {
				o.MaxTasks = r.in(6, 16)
			}
			c := genExec(r, o)
			if r.p(1, 4) {
				spawnFaults(r, &c.Steps[0].Sim)
			}
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C02", rs); v != nil {
				return v
			}
			_, v := judge("C02", c, rs[0])
			return v
		}})

	register(&Prop{ID: "C03", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project rich in parallel blocks of 2-8 items, nested through tasks, with failing and dying commands, conditions, limits, failing process and pipe creation, slow system calls, and one seeded schedule.",
		Gen: func(r *rng, th bool) *Case {
			o := parOpts(r)
			o.Slow = 20
			o.Fail = r.in(0, 45)
			if th && r.p(1, 2) {
				o.ParMax = r.in(4, 14)
			}
			c := genExec(r, o)
			s := &c.Steps[0].Sim
			if r.p(1, 3) {
				spawnFaults(r, s)
			}
			if r.p(1, 5) {
				s.Faults = append(s.Faults, SFault{Class: "pipe", Nth: int64(r.n(8)), Count: int64(r.in(1, 2)), Act: faErrno, Arg: int64(pickOf(r, []int{24, 23}))})
			}
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C03", rs); v != nil {
				return v
			}
			_, v := judge("C03", c, rs[0])
			return v
		}})

	register(&Prop{ID: "C04", Quick: 30000, Thorough: 600000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project with parallel blocks of 2-40 items, nested through tasks, with and without a limit, in a terminal's live display or not, in which some of the items (as many as may run together, wherever they stand) or all of them in turn have to meet before any goes on, and one seeded schedule.",
		Gen:  genLimit, Check: checkLimit})

	register(&Prop{ID: "C06", Quick: 30000, Thorough: 600000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project whose parallel items write lines (long ones up to 200 KiB, split ones, blank ones, without a final newline, with escape sequences, with carriage returns, non-ASCII, from processes left in the background) to both streams through pipes of 16 B to 64 KiB with partial reads, short writes and slow consumers, and one seeded schedule.",
		Gen: func(r *rng, th bool) *Case {
			o := parOpts(r)
			o.Lines = r.in(1, 8)
			o.Long, o.Odd = pickOf(r, []int{0, 10, 40}), pickOf(r, []int{0, 10, 40})
			o.Modes = []string{"", "interleaved", "grouped", "tabs"}
			o.Slow = 20
			if r.p(1, 5) {
				o.Flags = 120
			}
			c := genExec(r, o)
			endLines(c.Proj)
			s := &c.Steps[0].Sim
			if r.p(1, 8) {
				s.Args = append([]string{r.pick("-v", "--verbose")}, s.Args...)
			}
			if r.p(1, 3) {
				s.PipeCap = 65536 // what several processes write to it stays whole
				lateLines(r, c.Proj)
			} else if r.p(1, 5) {
				hugeLines(r, c.Proj, s.PipeCap)
				s.MaxTicks = 40_000_000
			}
			if r.p(1, 4) {
				s.Faults = append(s.Faults, SFault{Class: "write", Sub: r.pick("stdout", "stderr"), Nth: int64(r.n(6)), Count: int64(r.in(1, 4)), Act: faShort, Arg: int64(r.in(1, 9))})
			}
			if r.p(1, 4) {
				s.Faults = append(s.Faults, SFault{Class: "write", Sub: r.pick("stdout", "stderr"), Nth: int64(r.n(6)), Count: int64(r.in(1, 4)), Act: faDelay, Arg: int64(r.in(1, 50)) * 1_000_000})
			}
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C06", rs); v != nil {
				return v
			}
			x, v := judge("C06", c, rs[0])
			if v != nil {
				return v
			}
			return x.checkOutput("C06", c.Root)
		}})

	register(&Prop{ID: "C08", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project with variables, environments, working directories and prompts set at every level (files, included files, tasks, items), parallel items that share tasks, and one seeded schedule.",
		Gen: func(r *rng, th bool) *Case {
			o := parOpts(r)
			o.Par = r.in(0, 60)
			o.Rich = pickOf(r, []int{0, 10, 40})
			o.Vars, o.Envs, o.Dirs, o.Prompts, o.Includes = r.in(30, 100), r.in(20, 100), r.in(0, 100), r.in(0, 40), r.in(0, 70)
			c := genExec(r, o)
			if r.p(1, 2) {
				place(r, c)
			}
			s := &c.Steps[0].Sim
			if r.p(1, 2) {
				s.Env = append(s.Env, "OVER=outer", "KEEP=this one=with equals", "TENV=outer")
			}
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C08", rs); v != nil {
				return v
			}
			x, v := judge("C08", c, rs[0])
			if v != nil {
				return v
			}
			return x.checkContext("C08", c.Steps[0].Sim.Env)
		}})
}

// genLimit makes blocks whose items meet.
func genLimit(r *rng, th bool) *Case {
	nt, nb := 0, 0
	ntok := 0
	tty := r.p(1, 6)
	big := !tty && r.p(1, 12)
	patience := int64(600e9)
	if tty {
		patience = 20e9
	}
	p := &Project{Vars: []KV{{"v1", "a"}}}
	var block func(depth int) *Item
	cmd := func(rv string, n int) *Item {
		ntok++
		it := &Item{Kind: kCmd, Tok: fmt.Sprintf("k%dz", ntok)}
		it.Ops = append(it.Ops, SOp{Op: "v", A: int64(n), B: patience, S: BStr(rv)})
		if r.p(2, 3) {
			it.Ops = append(it.Ops, SOp{Op: "s", A: int64(r.in(1, 300)) * 100_000})
		}
		if r.p(1, 8) {
			it.Ops = append(it.Ops, SOp{Op: "o", A: 1, S: BStr(it.Tok + ".1.1\n")})
		}
		if r.p(1, 8) {
			it.Ops = append(it.Ops, SOp{Op: "x", A: 1})
		}
		return it
	}
	plain := func() *Item {
		ntok++
		return &Item{Kind: kCmd, Tok: fmt.Sprintf("k%dz", ntok), Ops: []SOp{{Op: "s", A: int64(r.in(1, 100)) * 100_000}}}
	}
	block = func(depth int) *Item {
		nb++
		rv := fmt.Sprintf("b%d", nb)
		m := r.in(2, 6)
		if th {
			m = r.in(2, 9)
		}
		if big && depth == 0 {
			m = r.in(10, 40)
		}
		it := &Item{Kind: kParallel}
		if tty {
			it.Mode = r.pick("grouped", "tabs")
		}
		skip := make([]int, m)
		live := 0
		for k := range skip {
			skip[k] = r.n(8)
			if skip[k] > 1 {
				live++
			}
		}
		if r.p(2, 3) {
			it.Limit = r.in(1, m+1)
		}
		meet := live
		if it.Limit > 0 && it.Limit < meet {
			meet = it.Limit
		}
		// either all items meet, in turns if need be, or only some, wherever they stand
		chosen := map[int]bool{}
		if r.p(1, 2) {
			n := r.in(1, max(1, meet))
			order := make([]int, m)
			for k := range order {
				order[k] = k
			}
			r.shuffle(m, func(i, j int) { order[i], order[j] = order[j], order[i] })
			for _, k := range order {
				if skip[k] > 1 && len(chosen) < n {
					chosen[k] = true
				}
			}
			meet = len(chosen)
		} else {
			for k := range skip {
				chosen[k] = true
			}
		}
		for k := 0; k < m; k++ {
			var c *Item
			cmd := cmd
			if !chosen[k] {
				cmd = func(string, int) *Item { return plain() }
			}
			if depth < 2 && r.p(1, 4) && (!big || nb < 6) {
				nt++
				t := &MTask{Name: fmt.Sprintf("s%d", nt), Desc: "d"}
				p.Tasks = append(p.Tasks, t)
				if r.p(1, 3) {
					nt++
					d := &MTask{Name: fmt.Sprintf("s%d", nt), Desc: "d", Run: []*Item{plain()}}
					p.Tasks = append(p.Tasks, d)
					t.Deps = append(t.Deps, d.Name)
				}
				x := cmd(rv, meet)
				t.Run = append(t.Run, x)
				if r.p(1, 2) {
					t.Run = append(t.Run, block(depth+1))
				}
				if r.p(1, 2) {
					t.Run = append(t.Run, plain())
				}
				c = &Item{Kind: kTask, Task: t.Name}
			} else {
				c = cmd(rv, meet)
			}
			switch skip[k] {
			case 0:
				c.When = &Cond{Var: "v1", Op: "!=", Val: "a"}
			case 1:
				c.Platforms = []string{"windows"}
			}
			it.Items = append(it.Items, c)
		}
		return it
	}
	root := &MTask{Name: "t0", Desc: "d"}
	for k := r.in(1, 2); k > 0; k-- {
		root.Run = append(root.Run, block(0))
	}
	p.Tasks = append([]*MTask{root}, p.Tasks...)
	if r.p(1, 4) { // the blocks stand in an included file
		ref := &Item{Kind: kTask, Task: "in:t0"}
		p = &Project{Tasks: []*MTask{{Name: "t0", Desc: "d", Run: []*Item{ref}}},
			Includes: []*Include{{NS: "in", File: r.pick("", "sub/") + "in.yml", P: p}}}
		if r.p(1, 3) {
			p.Tasks[0].Run, p.Tasks[0].Deps = []*Item{plain()}, []string{"in:t0"}
		}
	}
	c := &Case{Proj: p, Root: "t0", P: map[string]int64{}, S: map[string]string{"fixed": "1"}}
	if tty {
		c.S["fixed-events"] = "1"
		c.Steps = []*Step{{Sim: ttySim(r, "t0")}}
	} else {
		c.Steps = []*Step{{Sim: newSim(r, "t0")}}
	}
	return c
}

func checkLimit(c *Case, rs []*Result) *Violation {
	if v := abnormal("C04", rs); v != nil {
		return v
	}
	r := rs[0]
	x, v := judge("C04", c, r)
	if v != nil {
		return v
	}
	if v := x.checkConcurrency("C04", c.Root); v != nil {
		return v
	}
	return nil
}

// checkConcurrency judges how many items of each block ran at a time.
func (x *Exec) checkConcurrency(class, root string) *Violation {
	r := x.H.R
	refs := x.refs(root)
	for _, name := range sortedKeys(refs) {
		ft := x.F.Tasks[name]
		if ft == nil {
			continue
		}
		for bi, it := range ft.T.Run {
			if it.Kind != kParallel {
				continue
			}
			owner := map[string]int{}
			for k, ch := range it.Items {
				m := map[string]bool{}
				if ch.Kind == kTask {
					// the dependencies of the item's task come before the block
					if ct := x.F.Tasks[ft.NS+ch.Task]; ct != nil && refs[ct.Name] == 1 {
						for _, ri := range ct.T.Run {
							x.own(ct, ri, refs, m)
						}
					}
				} else {
					x.own(ft, ch, refs, m)
				}
				for t := range m {
					owner[t] = k
				}
			}
			last := map[int]int64{}
			for t, k := range owner {
				if o := x.H.Cmd[t]; o != nil && o.End != nil && o.End.Seq > last[k] {
					last[k] = o.End.Seq
				}
			}
			active := map[int]bool{}
			for i := range r.Events {
				e := &r.Events[i]
				if e.Name != "spawn" && e.Name != "procend" {
					continue
				}
				k, ok := owner[e.S(1)]
				if !ok {
					continue
				}
				active[k] = true
				if e.Name == "procend" && e.Seq >= last[k] {
					delete(active, k)
				}
				if it.Limit > 0 && len(active) > it.Limit {
					return viol(class+"/exceeded", "task %s, run item %d: %d items of the block run at t=%dus, the limit is %d", name, bi+1, len(active), e.T/1000, it.Limit)
				}
			}
		}
	}
	if e := r.first("rv-timeout"); e != nil && len(r.all("spawnfail")) == 0 {
		return viol(class+"/starved", "command %s waited in vain for the other items of its block: only %d ran together", e.S(1), e.I(3))
	}
	return nil
}
