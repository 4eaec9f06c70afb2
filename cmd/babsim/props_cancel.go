package main

import "strings"

const hour = int64(3600e9)

// stubborn makes some commands hard to get rid of: they ignore signals, take
// forever and leave background processes behind. It reports whether any was
// changed.
func stubborn(r *rng, p *Project, ign, long, back int) {
	p.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind != kCmd {
			return
		}
		var pre []SOp
		if r.p(ign, 100) {
			pre = append(pre, SOp{Op: "i", A: 2}, SOp{Op: "i", A: 15}, SOp{Op: "i", A: 1})
		}
		if r.p(back, 100) {
			for k := r.in(1, 2); k > 0; k-- {
				b := SOp{Op: "b", S: BStr(it.Tok + "b" + string(rune('0'+k)))}
				if r.p(1, 2) {
					b.Sub = append(b.Sub, SOp{Op: "c", A: 1}, SOp{Op: "c", A: 2})
				}
				if r.p(1, 3) {
					b.Sub = append(b.Sub, SOp{Op: "i", A: 2}, SOp{Op: "i", A: 15})
				}
				switch r.n(3) {
				case 0:
					b.Sub = append(b.Sub, SOp{Op: "h"})
				case 1:
					b.Sub = append(b.Sub, SOp{Op: "s", A: int64(r.in(1, 100)) * 1_000_000})
				case 2:
					b.Sub = append(b.Sub, SOp{Op: "s", A: int64(r.in(1, 60)) * 60e9})
				}
				pre = append(pre, b)
			}
		}
		it.Ops = append(pre, it.Ops...)
		if r.p(long, 100) {
			op := SOp{Op: "h"}
			if r.p(1, 2) {
				op = SOp{Op: "s", A: int64(r.in(1, 60)) * 60e9}
			}
			// before the exit status, if there is one
			n := len(it.Ops)
			if n > 0 && (it.Ops[n-1].Op == "x" || it.Ops[n-1].Op == "k") {
				it.Ops = append(it.Ops[:n-1:n-1], op, it.Ops[n-1])
			} else {
				it.Ops = append(it.Ops, op)
			}
		}
	})
}

// someTrigger draws a moment of the run.
func someTrigger(r *rng, p *Project, ev SEvent) SEvent {
	var toks []string
	p.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind == kCmd {
			toks = append(toks, it.Tok)
		}
	})
	k := r.n(5)
	if len(toks) == 0 && k < 3 {
		k = 3
	}
	switch k {
	case 0, 1:
		ev.Trig, ev.TS = trSpawn, pickOf(r, toks)
		if r.p(1, 2) {
			ev.Delay = int64(r.in(1, 300)) * 100_000
		}
	case 2:
		ev.Trig, ev.TS = trEnd, pickOf(r, toks)
		if r.p(1, 3) {
			ev.Delay = int64(r.in(1, 100)) * 100_000
		}
	case 3:
		ev.Trig, ev.TA = trKop, int64(r.in(1, 400))
	case 4:
		ev.Trig, ev.TA = trTime, int64(r.in(0, 400))*100_000
	}
	return ev
}

func genCancel(r *rng, th bool) *Case {
	var o GenOpts
	if r.p(1, 3) {
		o = sharedOpts(r)
	} else {
		o = parOpts(r)
		o.Par = r.in(0, 80)
	}
	if th && r.p(1, 2) {
		o.MaxTasks, o.ParMax = r.in(3, 10), r.in(3, 10)
	}
	o.Sleep = r.in(30, 100)
	o.Fail = pickOf(r, []int{0, 0, 10, 25})
	o.StdinRead = 0
	c := genExec(r, o)
	stubborn(r, c.Proj, pickOf(r, []int{0, 30, 80}), pickOf(r, []int{0, 20, 60}), pickOf(r, []int{0, 0, 20, 50}))
	s := &c.Steps[0].Sim
	s.LatP, s.LatMax = 0, 0
	s.KillDelay = pickOf(r, []int64{0, 1_000_000, 30_000_000})
	sig := SEvent{Act: acSignal, A: int64(pickOf(r, []int{2, 15}))}
	s.Events = append(s.Events, someTrigger(r, c.Proj, sig), SEvent{Trig: trTime, TA: 2 * hour, Act: acSignal, A: 2})
	c.S["fixed-events"] = "1"
	return c
}

// checkCancel judges a run that was cancelled at the event stop.
func (x *Exec) checkCancel(id string, r *Result, stop *Ev, killDelay int64) *Violation {
	end := r.first("exit")
	if end == nil {
		end = r.first("exit-signal")
	}
	if end == nil {
		return nil
	}
	if limit := stop.T + 2*killDelay + 100_000_000; end.T > limit {
		return viol(id+"/late-exit", "bab was told to stop at t=%dus and ended only at t=%dus", stop.T/1000, end.T/1000)
	}
	for i := range r.Events {
		e := &r.Events[i]
		if e.Name == "spawn" && e.T > stop.T {
			return viol(id+"/late-start", "command %s was started at t=%dus although bab was told to stop at t=%dus", e.S(1), e.T/1000, stop.T/1000)
		}
	}
	for _, tok := range sortedKeys(x.H.Cmd) {
		if o := x.H.Cmd[tok]; o.N > 1 {
			return viol(id+"/repeated", "command %s was started %d times", tok, o.N)
		} else if o.N > 0 && !x.Must[tok] && !x.May[tok] {
			return viol(id+"/forbidden", "command %s was started although what precedes it had not succeeded", tok)
		}
	}
	// nothing of what was still running may survive
	for _, a := range r.all("alive") {
		tok, pgid := a.S(1), a.I(3)
		var o *Obs
		for _, t := range sortedKeys(x.H.Cmd) {
			if c := x.H.Cmd[t]; c.Start != nil && c.Start.I(6) == pgid {
				o = c
			}
		}
		if o == nil {
			continue
		}
		switch {
		case o.End == nil:
			return viol(id+"/survivor", "command %s is still running when bab has ended (process %d)", tok, a.I(0))
		case o.End.T > stop.T || o.End.Seq > stop.Seq && o.End.I(3) == 9 && scriptExit(x.ops(o.Tok)) != 128+9:
			return viol(id+"/survivor", "process %d (%s) of the group of command %s, which was running when bab was told to stop, is alive when bab has ended", a.I(0), tok, o.Tok)
		case o.End.T < stop.T && strings.Contains(o.Start.S(5), "pipe") && x.holdsPipe(o.Tok, tok):
			return viol(id+"/survivor", "process %d (%s) of the group of command %s, on whose output bab was waiting when it was told to stop, is alive when bab has ended", a.I(0), tok, o.Tok)
		}
	}
	return nil
}

// checkEarlier wants a failure that came well before the signal to be reported.
// Within nested blocks the error that counts is the first to leave the inner block,
// which may be the cancellation.
func (x *Exec) checkEarlier(id string, r *Result, stop *Ev) *Violation {
	blocks := 0
	x.F.Root.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind == kParallel {
			blocks++
		}
	})
	end := r.first("exit")
	if blocks > 1 || end == nil {
		return nil
	}
	for _, tok := range sortedKeys(x.H.Cmd) {
		o := x.H.Cmd[tok]
		if o.Start == nil || o.End == nil || o.End.I(2) == 0 || o.End.T > stop.T-100_000_000 {
			continue
		}
		held := false
		for _, op := range x.ops(tok) {
			held = held || op.Op == "b"
		}
		if held {
			continue // bab waits for the output
		}
		r.probe("failures before the signal", 1)
		if r.Exit != 1 {
			return viol(id+"/status", "command %s had failed at t=%dus, before bab was told to stop at t=%dus, but bab exits with status %d", tok, o.End.T/1000, stop.T/1000, r.Exit)
		}
	}
	return nil
}

func (x *Exec) ops(tok string) []SOp {
	var ops []SOp
	x.F.Root.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Tok == tok {
			ops = it.Ops
		}
	})
	return ops
}

// holdsPipe says whether a background process keeps its command's output open.
func (x *Exec) holdsPipe(tok, child string) bool {
	for _, o := range x.ops(tok) {
		if o.Op == "b" && string(o.S) == child {
			return !(len(o.Sub) > 0 && o.Sub[0].Op == "c")
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "C05", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project whose commands take time, ignore signals, hang or leave background processes (with and without holding the output open), SIGINT or SIGTERM at a random system call, process start, process end or instant, processes that take up to 30 ms to die, and one seeded schedule.",
		Gen:  genCancel,
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C05", rs); v != nil {
				return v
			}
			r := rs[0]
			stop := r.first("sigself")
			if stop == nil {
				return nil
			}
			if all := r.all("sigself"); len(all) > 1 && all[1].T-stop.T < 1e9 {
				return nil // a second signal ends bab at once
			}
			h := newHistory(r, c.Proj)
			x := newExec(c.Proj, h, baseDirSet())
			x.Cut = true
			x.run(c.Root)
			if v := x.checkCancel("C05", r, stop, c.Steps[0].Sim.KillDelay); v != nil {
				return v
			}
			return x.checkEarlier("C05", r, stop)
		}})
}
