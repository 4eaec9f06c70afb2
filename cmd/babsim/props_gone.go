package main

import "strings"

// genGone makes a run that loses its terminal or the reader of its output.
func genGone(r *rng, th bool) *Case {
	kind := r.pick("hup", "hup", "hup", "nohup", "tty", "tty", "tty", "pipe", "pipe", "pipe")
	if kind == "tty" {
		c := genScene(r, th)
		s := &c.Steps[0].Sim
		var env []string
		for _, e := range s.Env {
			if e != "TERM=dumb" {
				env = append(env, e)
			}
		}
		s.Env = env
		hang := termTrigger(r, c.Proj, SEvent{Act: acTTYHangup})
		s.Events = append(s.Events, hang)
		if r.p(1, 2) {
			hang.Act, hang.A = acSignal, 1
			hang.Delay += pickOf(r, []int64{0, 1000, 50_000, 500_000, 5 * msec})
			s.Events = append(s.Events, hang)
		}
		c.Steps[0].Tag = []string{kind}
		return c
	}
	var o GenOpts
	if r.p(1, 3) {
		o = sharedOpts(r)
	} else {
		o = parOpts(r)
		o.Par = r.in(0, 90)
	}
	if th && r.p(1, 2) {
		o.MaxTasks, o.ParMax = r.in(3, 10), r.in(3, 10)
	}
	o.Sleep = r.in(30, 100)
	o.Fail = pickOf(r, []int{0, 0, 10})
	o.StdinRead = 0
	c := genExec(r, o)
	s := &c.Steps[0].Sim
	c.S["fixed-events"] = "1"
	c.Steps[0].Tag = []string{kind}
	switch kind {
	case "hup", "nohup":
		hup := someTrigger(r, c.Proj, SEvent{Act: acSignal, A: 1})
		s.Events = append(s.Events, hup)
		if r.p(1, 2) {
			hup.Delay += pickOf(r, []int64{0, 0, 1000, 20_000, 200_000, 5 * msec})
			s.Events = append(s.Events, hup)
		}
		if kind == "nohup" {
			s.Ignore = 1 << 1
			break
		}
		s.LatP, s.LatMax = 0, 0
		s.KillDelay = pickOf(r, []int64{0, 1_000_000, 30_000_000})
		stubborn(r, c.Proj, pickOf(r, []int{0, 30, 80}), pickOf(r, []int{0, 20, 60}), pickOf(r, []int{0, 0, 20, 50}))
		s.Events = append(s.Events, SEvent{Trig: trTime, TA: 2 * hour, Act: acSignal, A: 2})
	case "pipe":
		endLines(c.Proj)
		o := r.n(3)
		for k := 1; k <= 2; k++ {
			if o == 2 || o == k-1 {
				s.FDs[k].Cap, s.FDs[k].Flags = r.n(600), 32
			}
		}
		if r.p(1, 2) {
			slower(c.Proj, pickOf(r, []int64{10, 1000}))
		}
	}
	return c
}

// killedLate says whether SIGHUP ended bab by itself when bab had begun to
// watch signals or had started a command.
func killedLate(r *Result) bool {
	late := false
	for i := range r.Events {
		switch e := &r.Events[i]; e.Name {
		case "sigenable", "spawn":
			late = true
		case "exit-signal":
			return late && e.I(0) == 1
		}
	}
	return false
}

func checkGone(c *Case, rs []*Result) *Violation {
	const id = "C20"
	if v := abnormal(id, rs); v != nil {
		return v
	}
	r := rs[0]
	if len(c.Steps[0].Tag) == 0 {
		return nil
	}
	switch c.Steps[0].Tag[0] {
	case "nohup":
		_, v := judge(id, c, r)
		return v
	case "tty":
		h := newHistory(r, c.Proj)
		if killedLate(r) {
			return viol(id+"/killed", "the terminal's hangup kills bab")
		}
		stop := r.first("tty-hangup")
		if stop == nil {
			return nil
		}
		if s := stopEvent(h); s != nil && s.Seq < stop.Seq && s.T != stop.T {
			return nil
		}
		r.probe("hangups of the terminal", 1)
		return checkStopAt(id, c, r, h, stop)
	case "hup":
		stop := r.first("sigself")
		if stop == nil {
			return nil
		}
		h := newHistory(r, c.Proj)
		x := newExec(c.Proj, h, baseDirSet())
		x.Cut = true
		x.run(c.Root)
		r.probe("SIGHUP", 1)
		if killedLate(r) {
			return viol(id+"/killed", "SIGHUP kills bab")
		}
		return x.checkCancel(id, r, stop, c.Steps[0].Sim.KillDelay)
	}
	// the reader is gone
	lost := false
	for _, e := range r.all("fault-fired") {
		lost = lost || e.S(0) == "sink"
	}
	if !lost {
		_, v := judge(id, c, r)
		return v
	}
	r.probe("broken pipes", 1)
	h := newHistory(r, c.Proj)
	x := newExec(c.Proj, h, baseDirSet())
	x.run(c.Root)
	for _, tok := range sortedKeys(h.Cmd) {
		switch o := h.Cmd[tok]; {
		case o.N > 1:
			return viol(id+"/repeated", "command %s was started %d times", tok, o.N)
		case o.N > 0 && !x.Must[tok] && !x.May[tok]:
			return viol(id+"/forbidden", "command %s was started although what precedes it had not succeeded", tok)
		case o.Start != nil && o.End == nil:
			return viol(id+"/survivor", "command %s is still running when bab has ended because nobody reads its output", tok)
		}
	}
	if e := r.first("exit-signal"); e != nil && e.I(0) != 13 {
		return viol(id+"/killed", "bab ends by signal %d", e.I(0))
	}
	// what an item of a block wrote and nobody got
	if r.Exit == 0 {
		reach, _ := x.reaches(c.Root)
		for it, qs := range reach {
			o := h.Cmd[it.Tok]
			if it.Kind != kCmd || o == nil || o.Start == nil {
				continue
			}
			shown := true
			for _, q := range qs {
				shown = shown && q.Shown && len(q.Chain) > 0
			}
			for fd := 1; fd <= 2 && shown; fd++ {
				if d := strings.Split(o.Start.S(5), ","); fd >= len(d) || !strings.HasPrefix(d[fd], "pipe") {
					continue
				}
				for _, l := range written(r, it.Tok, fd) {
					if strings.HasPrefix(l, it.Tok+".") && !strings.Contains(r.output([]string{"", "stdout", "stderr"}[fd]), l+"\n") {
						return viol(id+"/lost", "bab ends with status 0 although nobody got line %q of command %s", clip(l, 100), it.Tok)
					}
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C20", Quick: 20000, Thorough: 600000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project whose commands take time, ignore signals or leave background processes, with SIGHUP once or twice (or ignored from the start, as under nohup), a terminal that hangs up during prompts, live displays and the picker, or a reader of stdout or stderr that goes away after any number of bytes, at a random system call, process start or end, mode change, piece of output or instant, and one seeded schedule.",
		Gen:  genGone, Check: checkGone})
}
