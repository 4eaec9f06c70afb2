package main

import "strings"

// slower stretches the sleeps of every command.
func slower(p *Project, f int64) {
	p.walkItems(func(_ *MTask, it, _ *Item) {
		for i := range it.Ops {
			if it.Ops[i].Op == "s" {
				it.Ops[i].A *= f
			}
		}
	})
}

// genScene is a run in a terminal: prompts, a block with a live display, or the
// task picker.
func genScene(r *rng, th bool) *Case {
	switch r.n(5) {
	case 0, 1:
		c := genPrompts(r, th)
		if r.p(1, 8) {
			// a terminal that only knows lines
			s := &c.Steps[0].Sim
			s.Env = append(s.Env, "TERM=dumb")
		}
		return c
	case 2:
		return genPick(r, th)
	}
	return genBlockTTY(r, th)
}

func genBlockTTY(r *rng, th bool) *Case {
	o := parOpts(r)
	o.Lines = r.in(0, 8)
	o.Logs, o.Prompts = 0, 0
	o.Fail = pickOf(r, []int{0, 0, 10})
	o.Limit = pickOf(r, []int{0, 50, 90})
	o.MaxItems = r.in(1, 4)
	o.Long, o.Odd = pickOf(r, []int{0, 10, 40}), pickOf(r, []int{0, 10, 40})
	o.Modes = []string{"grouped", "tabs", "grouped", "tabs", "interleaved"}
	g := &gen{r: r, o: o}
	p := g.project()
	endLines(p)
	slower(p, pickOf(r, []int64{1, 10, 100}))
	c := &Case{Proj: p, Root: p.Tasks[0].Name, S: map[string]string{"fixed-events": "1"}, P: map[string]int64{}}
	s := ttySim(r, c.Root)
	redirected(r, &s)
	if r.p(1, 5) {
		// ctrl+c in the very moment something ends
		var toks []string
		p.walkItems(func(_ *MTask, it, par *Item) {
			if it.Kind == kCmd {
				toks = append(toks, it.Tok)
				if par != nil && par.Limit == 0 && r.p(1, 2) {
					par.Limit = 1
				}
				if n := len(it.Ops); n == 0 || it.Ops[n-1].Op == "o" {
					it.Ops = append(it.Ops, SOp{Op: "s", A: int64(r.in(20, 300)) * msec})
				}
			}
		})
		if len(toks) > 0 {
			s.Events = append(s.Events, SEvent{Trig: trEnd, TS: pickOf(r, toks), Act: acTTYInput, S: "\x03"})
		}
	}
	s.Events = append(s.Events, SEvent{Trig: trTime, TA: 60 * sec, Act: acTTYInput, S: "\x03"}, SEvent{Trig: trTime, TA: 80 * sec, Act: acSignal, A: 15})
	c.Steps = []*Step{{Sim: s}}
	return c
}

// genPick is a run of the task picker.
func genPick(r *rng, th bool) *Case {
	o := baseOpts(r)
	o.Par, o.Prompts, o.Logs = 0, 0, 0
	o.MaxTasks = r.in(1, 9)
	g := &gen{r: r, o: o}
	p := g.project()
	c := &Case{Proj: p, Root: "", S: map[string]string{"fixed": "1", "fixed-events": "1"}, P: map[string]int64{}}
	s := ttySim(r)
	at := int64(r.in(1, 400)) * msec
	for k := r.n(8); k > 0; k-- {
		s.Events = append(s.Events, SEvent{Trig: trTime, TA: at, Act: acTTYInput, S: BStr(r.pick(kUp, kDown, "t", "0", "1", "a", kBack, "\x15", "\x0e", "\x10"))})
		at += int64(r.in(1, 120)) * msec
	}
	s.Events = append(s.Events, SEvent{Trig: trTime, TA: at, Act: acTTYInput, S: BStr(r.pick("\r", "\r", "\x1b", "\x03"))})
	s.Events = append(s.Events, SEvent{Trig: trTime, TA: 60 * sec, Act: acTTYInput, S: "\x03"}, SEvent{Trig: trTime, TA: 80 * sec, Act: acSignal, A: 15})
	c.Steps = []*Step{{Sim: s}}
	return c
}

func init() {
	register(&Prop{ID: "C15", Quick: 22000, Thorough: 200000, Real: realAll, Stub: stubAll,
		Rule: "A case is a run in a terminal (prompts of all types, live parallel displays, the task picker), with ctrl+c, SIGINT or SIGTERM at a random system call, process start or end, mode change, piece of output or instant, resizes, failing or short terminal reads, and one seeded schedule.",
		Gen: func(r *rng, th bool) *Case {
			c := genScene(r, th)
			s := &c.Steps[0].Sim
			for k := r.n(3); k > 0; k-- {
				ev := SEvent{Act: acSignal, A: int64(pickOf(r, []int{2, 15}))}
				if r.p(1, 2) {
					ev = SEvent{Act: acTTYInput, S: "\x03"}
					if r.p(1, 3) {
						s.Events = append(s.Events, someTrigger(r, c.Proj, ev))
						continue
					}
				} else if r.p(1, 3) {
					ev = SEvent{Act: acResize, A: int64(r.in(1, 200)), B: int64(r.in(1, 60))}
				}
				s.Events = append(s.Events, termTrigger(r, c.Proj, ev))
			}
			switch r.n(8) {
			case 0, 1:
				leaves(r, s)
			case 2:
				toldAt(r, s)
			}
			if c.Proj != nil && r.p(1, 6) {
				// commands that change the terminal's mode, and do not always change it back
				c.Proj.walkItems(func(_ *MTask, it, par *Item) {
					if it.Kind == kCmd && par == nil && r.p(1, 2) {
						ops := []SOp{{Op: "i", A: 22}, {Op: "t", A: 1}}
						if r.p(1, 3) {
							ops = append(ops, SOp{Op: "s", A: int64(r.in(1, 100)) * msec}, SOp{Op: "t", A: 0})
						}
						it.Ops = append(ops, it.Ops...)
					}
				})
			}
			if r.p(1, 6) {
				s.Faults = append(s.Faults, SFault{Class: "read", Sub: "tty", Nth: int64(r.n(6)), Count: 1, Act: faErrno, Arg: int64(pickOf(r, []int{4, 5, 11}))})
			}
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			dumb := has(c.Steps[0].Sim.Env, "TERM=dumb")
			if v := abnormal("C15", rs); v != nil {
				if dumb && v.Class == "C15/panic" && strings.Contains(v.Msg, "RunAccessible") {
					v.Class = "C15/dumb-panic"
				}
				return v
			}
			r := rs[0]
			if v := checkTerminal("C15", r); v != nil {
				return v
			}
			v := checkStop("C15", c, r)
			if v != nil && dumb && v.Class == "C15/late-exit" {
				v.Class = "C15/dumb-late-exit"
			}
			return v
		}})
}

// leaves has the user type the first few keys only, up to what ends the run at
// the latest.
func leaves(r *rng, s *Sim) {
	stay := r.n(6)
	var evs []SEvent
	for _, e := range s.Events {
		if e.Act == acTTYInput && e.Trig == trOutput && e.S != "\x03" {
			if stay--; stay < 0 {
				continue
			}
		}
		evs = append(evs, e)
	}
	s.Events = evs
}

// toldAt has bab told to stop while one of the forms is open: the user typed a
// part of the entry and nothing more.
func toldAt(r *rng, s *Sim) {
	var texts []string
	for _, e := range s.Events {
		if e.Act == acTTYInput && e.Trig == trOutput && strings.Contains(e.TS, "ask") && !has(texts, e.TS) {
			texts = append(texts, e.TS)
		}
	}
	if len(texts) == 0 {
		return
	}
	at := pickOf(r, texts)
	keep := r.n(3)
	var evs []SEvent
	open := true
	for _, e := range s.Events {
		if e.Act == acTTYInput && e.Trig == trOutput {
			if e.TS == at {
				open = false
				e.S = BStr(strings.TrimRight(string(e.S), "\r\x03"))
				if keep--; keep < 0 || e.S == "" {
					continue
				}
			} else if !open {
				continue
			}
		}
		evs = append(evs, e)
	}
	s.Events = append(evs, SEvent{Trig: trOutput, TS: at, Delay: pickOf(r, []int64{0, msec, 20 * msec, 200 * msec, sec, 4 * sec}), Act: acSignal, A: int64(pickOf(r, []int{2, 15}))})
}

// termTrigger draws a moment of a run in a terminal.
func termTrigger(r *rng, p *Project, ev SEvent) SEvent {
	switch r.n(6) {
	case 0:
		ev.Trig, ev.TA = trRaw, int64(r.n(3))
		ev.Delay = pickOf(r, []int64{0, 0, msec, 20 * msec})
	case 1:
		ev.Trig, ev.TS, ev.TA = trOutput, r.pick("\x1b[", "\x1b[?25l", "\x1b[?25h", "\x1b[?2004h", "\x1b[?2004l", "\x1b[K", "Parallel", "ask", "\x1b[?1049h", "\x1b[?1049l"), int64(r.n(4))
		ev.Delay = pickOf(r, []int64{0, 0, msec, 20 * msec, 200 * msec})
	case 2:
		ev.Trig, ev.TA = trTime, int64(r.in(0, 2000))*msec
	case 3:
		ev.Trig, ev.TA = trKop, int64(r.in(1, 1500))
	default:
		return someTrigger(r, p, ev)
	}
	return ev
}

// stopEvent finds the first thing that tells bab to stop: a signal, or ctrl+c
// typed into a live display while a command of its block is running.
func stopEvent(h *History) *Ev {
	raw := false
	var since int64
	broken := h.R.first("fault-fired") != nil // then what is typed may never be read
	for i := range h.R.Events {
		e := &h.R.Events[i]
		switch e.Name {
		case "sigself":
			if e.I(0) == 2 || e.I(0) == 15 {
				return e
			}
		case "ttymode":
			if was := raw; true {
				raw = e.I(3)&1 == 0 // ISIG
				if raw && !was {
					since = e.T
				}
			}
		case "ttyin":
			if broken || !raw || e.S(0) != "\x03" || e.T < since+20*msec {
				continue
			}
			for _, o := range h.Order {
				if o.Start != nil && o.Start.T < e.T && (o.End == nil || o.End.T > e.T || o.End.Seq > e.Seq) {
					return e
				}
			}
		}
	}
	return nil
}

// checkStop judges that what tells bab to stop ends it soon, that nothing starts
// afterwards and that nothing is left running.
func checkStop(id string, c *Case, r *Result) *Violation {
	h := newHistory(r, c.Proj)
	stop := stopEvent(h)
	if stop == nil {
		return nil
	}
	return checkStopAt(id, c, r, h, stop)
}

func checkStopAt(id string, c *Case, r *Result, h *History, stop *Ev) *Violation {
	end := r.first("exit")
	if end == nil { // a second signal
		if end = r.first("exit-signal"); end != nil && end.T > stop.T+2*sec {
			return viol(id+"/late-exit", "bab was told to stop at t=%dus and was still running when a second signal killed it at t=%dus", stop.T/1000, end.T/1000)
		}
		return nil
	}
	if end.T > stop.T+2*sec {
		return viol(id+"/late-exit", "bab was told to stop at t=%dus and ended only at t=%dus", stop.T/1000, end.T/1000)
	}
	for _, e := range r.all("spawn") {
		if e.T > stop.T {
			return viol(id+"/late-start", "a command was started at t=%dus although bab was told to stop at t=%dus", e.T/1000, stop.T/1000)
		}
	}
	for _, tok := range sortedKeys(h.Cmd) {
		if o := h.Cmd[tok]; o.Start != nil && o.End == nil {
			return viol(id+"/survivor", "command %s is still running when bab has ended", tok)
		}
	}
	if c.Root == "" || r.first("fault-fired") != nil || r.first("tty-hangup") != nil { // then the end of a prompt is not to be seen
		return nil
	}
	x := newExec(c.Proj, h, baseDirSet())
	x.Cut = true
	x.run(c.Root)
	for _, tok := range sortedKeys(h.Cmd) {
		if o := h.Cmd[tok]; o.N > 0 && !x.Must[tok] && !x.May[tok] {
			return viol(id+"/forbidden", "bab was told to stop at t=%dus (event %d), and command %s was started although what precedes it had not succeeded", stop.T/1000, stop.Seq, tok)
		}
	}
	return x.checkGivenUp(id, c.Root, r, h, stop)
}

// checkGivenUp wants an execution that was given up while commands were running, and
// in which nothing had gone wrong, to count as no failure, by whatever means bab was
// told to stop.
func (x *Exec) checkGivenUp(id, root string, r *Result, h *History, stop *Ev) *Violation {
	if stop.Name != "ttyin" {
		return nil
	}
	prompts := false
	x.F.Root.walkItems(func(_ *MTask, it, _ *Item) { prompts = prompts || it.Kind == kPrompt })
	running := false
	for _, o := range h.Cmd {
		if o.Start == nil {
			continue
		}
		if o.End == nil || o.End.Seq > stop.Seq && o.End.I(3) == 9 {
			running = true
		}
		if o.End != nil && o.End.I(2) != 0 && o.End.I(3) != 9 {
			return nil
		}
	}
	if prompts || !running {
		return nil
	}
	// left alone, it would have succeeded
	if x := newExec(x.F.Root, newHistory(&Result{}, x.F.Root), baseDirSet()); !x.run(root) {
		return nil
	}
	r.probe("given up in a display", 1)
	if r.Exit == 0 {
		return nil
	}
	return viol(id+"/given-up", "ctrl+c ended the live display at t=%dus while commands were running and none had failed, but bab exits with status %d", stop.T/1000, r.Exit)
}
