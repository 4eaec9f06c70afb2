package main

import (
	"fmt"
	"sort"
	"strings"
)

const stdinFile = "/srv/data/input.txt"

// genStdin makes a project whose commands read their standard input, and an
// input that is there at once or arrives in pieces.
func genStdin(r *rng, th bool) *Case {
	o := baseOpts(r)
	if th && r.p(1, 2) {
		o.MaxTasks, o.MaxItems = r.in(4, 12), r.in(2, 6)
	}
	o.Par = pickOf(r, []int{0, 0, 20, 40})
	o.Prompts = pickOf(r, []int{0, 0, 25})
	o.Sleep = pickOf(r, []int{0, 30, 80})
	kind := r.n(20)
	if kind >= 18 {
		o.Prompts = 0 // nobody is there to answer
	}
	c := genExec(r, o)
	s := &c.Steps[0].Sim
	p := r.in(20, 90)
	var toks []string
	c.Proj.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind != kCmd {
			return
		}
		toks = append(toks, it.Tok)
		for k := r.n(3); k > 0 && r.p(p, 100); k-- {
			op := SOp{Op: "r"}
			if r.p(1, 6) {
				op.A = 1
			}
			at := 0
			if r.p(1, 2) {
				at = r.n(len(it.Ops) + 1)
			}
			it.Ops = append(it.Ops[:at:at], append([]SOp{op}, it.Ops[at:]...)...)
		}
	})
	var text string
	for k := r.n(12); k > 0; k-- {
		l := r.pick("", "y", "a line", "é漢", "\x00\xff\x1b[A", "  spaced  ", strings.Repeat("long ", r.in(1, 200)))
		text += fmt.Sprintf("%d %s\n", k, l)
	}
	if r.p(1, 3) {
		text += "no newline at the end"
	}
	switch {
	case kind < 12:
		s.FDs[0] = SFD{FD: 0, Kind: "stdin"}
		if r.p(1, 2) {
			s.Stdin = BStr(text)
			s.StdinHold = r.p(1, 2)
		} else {
			s.StdinHold = true
			at := int64(0)
			for text != "" {
				n := r.in(1, max(1, min(len(text), 40)))
				at += int64(r.n(60)) * 100_000
				s.Events = append(s.Events, SEvent{Trig: trTime, TA: at, Act: acStdin, S: BStr(text[:n])})
				text = text[n:]
				at++
			}
		}
		if s.StdinHold {
			s.Events = append(s.Events, SEvent{Trig: trTime, TA: 600 * sec, Act: acStdinEOF})
		}
	case kind < 16:
		s.FDs[0] = SFD{FD: 0, Kind: "file", Label: "stdin", Path: stdinFile}
		c.Steps[0].Extra = append(c.Steps[0].Extra, SFile{Path: stdinFile, Kind: "f", Mode: 0o644, Content: BStr(text)})
	case kind < 17:
		s.FDs[0] = SFD{FD: 0, Kind: "closed"}
	case kind < 18:
	default:
		s.FDs[0] = SFD{FD: 0, Kind: "tty"}
		s.Cols, s.Rows = 80, 24
		s.Env = append(s.Env, "TERM=xterm-256color")
		c.Proj.walkItems(func(_ *MTask, it, _ *Item) {
			if it.Kind == kCmd && r.p(1, 2) {
				s.Events = append(s.Events, SEvent{Trig: trSpawn, TS: it.Tok, Delay: int64(r.n(20)) * msec, Act: acTTYInput, S: "typed " + BStr(it.Tok) + "\r"})
			}
		})
	}
	if r.p(1, 4) {
		spawnFaults(r, s)
	}
	if r.p(1, 6) {
		s.Faults = append(s.Faults, SFault{Class: "open", Sub: "/dev/null", Nth: int64(r.n(5)), Count: int64(r.in(1, 2)), Act: faErrno, Arg: int64(pickOf(r, []int{24, 23}))})
	}
	c.S["fixed-events"] = "1"
	return c
}

// stdinText is everything that ever arrives at bab's standard input.
func stdinText(st *Step) (string, bool) {
	s := &st.Sim
	switch fd := s.FDs[0]; fd.Kind {
	case "stdin":
		t := string(s.Stdin)
		var ev []SEvent
		for _, e := range s.Events {
			if e.Act == acStdin {
				ev = append(ev, e)
			}
		}
		sort.SliceStable(ev, func(i, j int) bool { return ev[i].TA < ev[j].TA })
		for _, e := range ev {
			t += string(e.S)
		}
		return t, true
	case "file":
		for _, f := range st.Extra {
			if f.Path == fd.Path {
				return string(f.Content), true
			}
		}
	case "tty":
		return "", false
	}
	return "", true
}

func checkStdin(c *Case, rs []*Result) *Violation {
	const id = "C12"
	r := rs[0]
	st := c.Steps[0]
	h := newHistory(r, c.Proj)
	byPid := map[int64]string{}
	for _, tok := range sortedKeys(h.Cmd) {
		for _, pid := range h.Cmd[tok].Pids {
			byPid[pid] = tok
		}
	}
	for _, e := range r.all("sigttin") {
		if tok := byPid[e.I(0)]; tok != "" {
			return viol(id+"/terminal-stopped", "command %s is stopped (SIGTTIN) when it reads from the terminal", tok)
		}
	}
	if v := abnormal(id, rs); v != nil {
		return v
	}
	x, v := judge(id, c, r)
	if v != nil {
		return v
	}
	if e := r.first("stdinread"); e != nil {
		return viol(id+"/taken", "bab itself took %q from its standard input", clip(e.S(0), 100))
	}
	for _, tok := range sortedKeys(h.Cmd) {
		if o := h.Cmd[tok]; o.Start != nil && strings.Contains(o.Start.S(5), "leak") {
			return viol(id+"/leak", "command %s was given descriptors of bab's: %s", tok, o.Start.S(5))
		}
	}
	in, known := stdinText(st)
	items, _ := x.reaches(c.Root)
	type ctx struct{ own, none bool }
	of := map[string]ctx{}
	for it, qs := range items {
		if it.Kind != kCmd {
			continue
		}
		var k ctx
		for _, q := range qs {
			switch {
			case len(q.Chain) > 0:
				k.none = true
			case q.Shown:
				k.own = true
			default:
				k.own, k.none = true, true
			}
		}
		of[it.Tok] = k
	}
	next := map[string]int{}
	pos := 0
	var last int64
	for i := range r.Events {
		e := &r.Events[i]
		switch e.Name {
		case "procend":
			last = e.T
		case "procread":
			tok := byPid[e.I(0)]
			if tok == "" {
				continue
			}
			all := false
			for n, k := 0, 0; k < len(x.ops(tok)); k++ {
				if op := x.ops(tok)[k]; op.Op == "r" {
					if n == next[tok] {
						all = op.A == 1
					}
					n++
				}
			}
			next[tok]++
			got := e.S(2)
			if e.I(3) != 0 {
				return viol(id+"/unreadable", "command %s cannot read its standard input: error %d", tok, e.I(3))
			}
			k := of[tok]
			if !known {
				if got != "" && !k.own {
					return viol(id+"/foreign-input", "command %s inside a parallel block read %q", tok, clip(got, 100))
				}
				continue
			}
			rest := in[pos:]
			want := rest
			if j := strings.IndexByte(rest, '\n'); j >= 0 && !all {
				want = rest[:j+1]
			}
			switch {
			case k.own && got == want:
				pos += len(got)
				r.probe("reads of bab's own input", 1)
			case k.none && got == "":
				r.probe("reads of an empty input", 1)
			case !k.own:
				return viol(id+"/foreign-input", "command %s inside a parallel block read %q instead of nothing", tok, clip(got, 100))
			default:
				return viol(id+"/wrong-input", "command %s read %q, but %q is what comes next on bab's standard input", tok, clip(got, 100), clip(want, 100))
			}
		}
	}
	if e := r.first("exit"); e != nil && st.Sim.StdinHold && e.T-last > 10*sec {
		return viol(id+"/waits-for-input", "bab ended at t=%dms although its last command had ended at t=%dms: it waited for its input to end", e.T/1e6, last/1e6)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C12", Quick: 40000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project whose commands read lines or everything from their standard input, inside and outside parallel blocks, while bab's own input is a pipe (filled at once or piecemeal, ended or held open), a file, a terminal, empty or closed; failing process creation and failing opens; one seeded schedule.",
		Gen:  genStdin, Check: checkStdin})
}
