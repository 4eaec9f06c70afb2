package main

import "strings"

// genDeliver makes parallel blocks whose output bab cannot always pass on.
func genDeliver(r *rng, th bool) *Case {
	if r.p(1, 12) {
		return genListing(r)
	}
	o := parOpts(r)
	o.Par = r.in(50, 90)
	o.Lines = r.in(1, 6)
	o.Logs = pickOf(r, []int{0, 10, 30})
	o.Odd = pickOf(r, []int{0, 20, 70})
	o.Long = pickOf(r, []int{0, 10, 40})
	o.Flags = pickOf(r, []int{0, 0, 20})
	o.Fail = pickOf(r, []int{0, 0, 10})
	o.Modes = []string{"", "interleaved", "grouped", "tabs"}
	if th && r.p(1, 2) {
		o.MaxTasks, o.ParMax = r.in(3, 10), r.in(3, 10)
	}
	c := genExec(r, o)
	endLines(c.Proj)
	s := &c.Steps[0].Sim
	errs := []int{28, 5, 27, 122, 110}
	switch r.n(4) {
	case 0:
		// the disk is full from some point on
		k := r.in(1, 2)
		s.FDs[k].Cap, s.FDs[k].Flags = r.n(400), pickOf(r, errs)
	default:
		for k := r.in(1, 2); k > 0; k-- {
			s.Faults = append(s.Faults, SFault{Class: "write", Sub: r.pick("stdout", "stdout", "stderr"), Nth: int64(r.n(8)), Count: int64(pickOf(r, []int{1, 1, 2, 50})), Act: faErrno, Arg: int64(pickOf(r, errs))})
		}
	}
	if r.p(1, 4) {
		s.Faults = append(s.Faults, SFault{Class: "write", Sub: r.pick("stdout", "stderr"), Nth: int64(r.n(6)), Count: int64(r.in(1, 4)), Act: faShort, Arg: int64(r.in(1, 9))})
	}
	return c
}

// genListing asks for the list of tasks on an output that fails, and then again on
// one that does not.
func genListing(r *rng) *Case {
	o := baseOpts(r)
	o.Words = true
	o.MaxTasks = r.in(1, 12)
	o.Includes = pickOf(r, []int{0, 30, 80})
	g := &gen{r: r, o: o}
	c := &Case{Proj: g.project(), P: map[string]int64{"list": 1}, S: map[string]string{}}
	args := []string{r.pick("-l", "--list")}
	if r.p(1, 6) {
		args = []string{r.pick("-c", "--completion"), r.pick("bash", "zsh", "fish", "powershell")}
	}
	a := newSim(r, args...)
	b := a
	if r.p(1, 2) {
		a.FDs = append([]SFD{}, a.FDs...)
		a.FDs[1].Cap, a.FDs[1].Flags = r.n(300), pickOf(r, []int{28, 5, 27, 122, 110})
	} else {
		a.Faults = append(a.Faults, SFault{Class: "write", Sub: "stdout", Nth: int64(r.n(8)), Count: int64(pickOf(r, []int{1, 1, 2, 50})), Act: pickOf(r, []int{faErrno, faErrno, faShort}), Arg: int64(pickOf(r, []int{5, 28}))})
	}
	c.Steps = []*Step{{Sim: a}, {Sim: b}}
	return c
}

func checkListing(id string, rs []*Result) *Violation {
	if len(rs) < 2 {
		return nil
	}
	a, b := rs[0].output("stdout"), rs[1].output("stdout")
	if rs[1].Exit != 0 {
		return nil
	}
	if a != b && rs[0].Exit == 0 {
		return viol(id+"/cut", "%d of %d bytes of the list were written, and bab ends with status 0", len(a), len(b))
	}
	if a != b {
		rs[0].probe("lists that were cut", 1)
	}
	if a == b && rs[0].first("fault-fired") == nil && rs[0].Exit != 0 {
		return viol(id+"/status", "the whole list was written, exit status %d", rs[0].Exit)
	}
	return nil
}

func checkDeliver(c *Case, rs []*Result) *Violation {
	const id = "C19"
	if v := abnormal(id, rs); v != nil {
		return v
	}
	if c.P["list"] != 0 {
		return checkListing(id, rs)
	}
	r := rs[0]
	lost := r.first("fault-fired") != nil
	for _, e := range r.all("fault-fired") {
		if e.S(0) == "write" && e.I(2) == faErrno {
			lost = true
		}
	}
	if !lost {
		x, v := judge(id, c, r)
		if v == nil {
			v = x.checkOutput(id, c.Root)
		}
		return v
	}
	h := newHistory(r, c.Proj)
	x := newExec(c.Proj, h, baseDirSet())
	x.run(c.Root)
	for _, tok := range sortedKeys(h.Cmd) {
		if o := h.Cmd[tok]; o.N > 1 {
			return viol(id+"/repeated", "command %s was started %d times", tok, o.N)
		} else if o.N > 0 && !x.Must[tok] && !x.May[tok] {
			return viol(id+"/forbidden", "command %s was started although what precedes it had not succeeded", tok)
		}
	}
	if e := r.first("alive"); e != nil {
		return viol(id+"/survivor", "process %d (%s) is alive when bab has ended", e.I(0), e.S(1))
	}
	if r.Exit != 0 && r.Exit != 1 {
		return viol(id+"/status", "exit status %d", r.Exit)
	}
	reach, _ := x.reaches(c.Root)
	for fd := 1; fd <= 2; fd++ {
		var raw strings.Builder
		for _, e := range r.all("out") {
			if e.S(0) == []string{"", "stdout", "stderr"}[fd] && e.I(1) == simPid {
				raw.WriteString(e.S(2))
			}
		}
		ls := strings.Split(raw.String(), "\n")
		for i := range ls {
			ls[i] = plainText(ls[i])
		}
		owed, seen := 0, strings.Join(ls, "\n")
		for it, qs := range reach {
			if it.Kind == kLog && fd == 1 && r.Exit == 0 && x.Must[it.Tok] {
				inside := true
				for _, q := range qs {
					inside = inside && len(q.Chain) > 0
				}
				if inside && !strings.Contains(raw.String(), it.Tok+" ") {
					return viol(id+"/lost", "bab ends with status 0 although what log item %s says could not be delivered", it.Tok)
				}
			}
			o := h.Cmd[it.Tok]
			if it.Kind != kCmd || o == nil || o.Start == nil {
				continue
			}
			if d := strings.Split(o.Start.S(5), ","); fd >= len(d) || !strings.HasPrefix(d[fd], "pipe") {
				continue
			}
			shown := true
			for _, q := range qs {
				shown = shown && q.Shown && len(q.Chain) > 0
			}
			if !shown {
				continue
			}
			// a message of bab's own may be cut, so lines need not begin where they should
			owed += len(written(r, it.Tok, fd))
			for _, l := range written(r, it.Tok, fd) {
				if !strings.HasPrefix(l, it.Tok+".") || strings.Contains(seen, l+"\n") {
					continue
				}
				if r.Exit == 0 {
					return viol(id+"/lost", "bab ends with status 0 although line %q of command %s could not be delivered to descriptor %d", clip(l, 100), it.Tok, fd)
				}
				r.probe("losses that made bab fail", 1)
			}
		}
		if n := strings.Count(raw.String(), "\n"); r.Exit == 0 && n < owed {
			return viol(id+"/lost", "bab ends with status 0 although the commands wrote %d lines to descriptor %d and only %d were delivered", owed, fd, n)
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C19", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project rich in parallel blocks whose items write lines, a full disk or failing and short writes on bab's stdout or stderr at any point, and one seeded schedule.",
		Gen:  genDeliver, Check: checkDeliver})
}
