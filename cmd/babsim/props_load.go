package main

import (
	"path"
	"strings"
)

const otherTok = "k900z"

// genLoad makes an execution whose reading of the project meets faults.
func genLoad(r *rng, th bool) *Case {
	o := baseOpts(r)
	o.Includes = pickOf(r, []int{0, 40, 90})
	if th && r.p(1, 3) {
		o.MaxTasks, o.MaxItems = r.in(5, 14), r.in(2, 6)
	}
	c := genExec(r, o)
	s := &c.Steps[0].Sim
	if r.p(3, 4) {
		place(r, c)
	}
	mode := r.pick("run", "run", "run", "dry", "list", "validate", "complete")
	flag := map[string]string{"dry": "-n", "list": "--list", "validate": "--validate"}[mode]
	switch mode {
	case "complete":
		s.Args = append([]string{"__complete"}, s.Args...)
		for i, a := range s.Args {
			if a == c.Root { // the word to complete goes last
				s.Args = append(append(s.Args[:i:i], s.Args[i+1:]...), "")
				break
			}
		}
	case "run":
	default:
		s.Args = append(s.Args, flag)
	}
	if mode != "run" {
		s.LatP = 0
	}
	if r.p(3, 4) {
		for k := r.in(1, 3); k > 0; k-- {
			f := SFault{Nth: int64(r.n(6)), Count: int64(pickOf(r, []int{1, 1, 2, 3, 100})), Act: faErrno}
			errs := []int{5, 13, 12, 23, 24, 40, 4, 4}
			switch r.n(6) {
			case 0, 1:
				f.Class, f.Sub = "read", r.pick("/proj/", "/proj/", ".yml")
				errs = []int{5, 5, 12, 4, 4, 116}
			case 2:
				f.Class, f.Sub = "read", "/proj/"
				f.Act, f.Arg = pickOf(r, []int{faShort, faDelay}), int64(r.in(1, 40))
				if f.Act == faDelay {
					f.Arg *= msec
				}
				f.Count = int64(r.in(1, 60))
			case 3:
				f.Class, f.Sub = "open", r.pick("/proj/", ".yml", "abfile")
			case 4:
				f.Class, f.Sub = "stat", r.pick("abfile", "/proj/Babfile", "/proj/babfile")
				f.Nth = int64(r.n(8))
			case 5:
				f.Class, f.Sub = r.pick("fstat", "getcwd"), ""
				if f.Class == "fstat" {
					f.Sub = "/proj/"
				}
			}
			if f.Act == faErrno {
				f.Arg = int64(pickOf(r, errs))
				if f.Arg == 4 && f.Count > 3 {
					f.Count = 3
				}
			}
			s.Faults = append(s.Faults, f)
		}
	}
	if mode == "run" && r.p(1, 4) {
		// the file is replaced by another version, whole, while bab starts
		c.Steps[0].Extra = append(c.Steps[0].Extra, SFile{Path: projDir + "/new", Kind: "f", Mode: 0o644,
			Content: BStr("tasks:\n  " + q(c.Root) + ":\n    run:\n      - cmd: " + otherTok + " new\n")})
		e := SEvent{Trig: trKop, TA: int64(r.n(150)), Act: acRename, S: projDir + "/new", S2: BStr(projDir + "/" + c.babfile())}
		if r.p(1, 2) {
			e.Trig, e.TS, e.TA = trFS, r.pick("open", "stat", "read", "close", "fstat"), int64(r.n(6))
		}
		s.Events = append(s.Events, e)
	}
	c.Steps[0].Tag = []string{mode}
	if mode != "run" {
		clean := &Step{Sim: clone(*s), Fresh: true, Extra: c.Steps[0].Extra}
		clean.Sim.Faults = nil
		c.Steps = append(c.Steps, clean)
	}
	c.S["fixed-events"] = "1"
	return c
}

func checkLoad(c *Case, rs []*Result) *Violation {
	const id = "C18"
	if v := abnormal(id, rs); v != nil {
		return v
	}
	r := rs[0]
	if len(c.Steps[0].Tag) == 0 {
		return nil
	}
	mode := c.Steps[0].Tag[0]
	var failed []string // files that could not be read
	other := false      // a directory could not be looked at
	for _, e := range r.all("fault-fired") {
		if e.I(2) != faErrno || e.I(3) == 4 {
			continue
		}
		// only files: the directories below are where commands run
		if b := strings.ToLower(path.Base(e.S(1))); e.S(0) == "getcwd" || strings.Contains(b, "babfile") || strings.Contains(b, ".y") {
			failed = append(failed, e.S(1))
		} else {
			other = true
		}
	}
	refused := func() *Violation {
		if r.Exit != 1 && !(mode == "complete" && r.Exit == 0) {
			return viol(id+"/status", "%q could not be read: exit status %d", failed[0], r.Exit)
		}
		if e := r.first("spawn"); e != nil {
			return viol(id+"/ran", "%q could not be read, and yet %q was run", failed[0], e.S(2))
		}
		if out := r.output("stdout"); out != "" && (mode != "complete" || strings.TrimSpace(strings.SplitN(out, ":", 2)[0]) != "") {
			return viol(id+"/output", "%q could not be read, and yet bab printed %q", failed[0], clip(out, 300))
		}
		err := stripANSI(r.output("stderr"))
		if mode != "complete" && !strings.Contains(err, "ERRO") {
			return viol(id+"/silent", "%q could not be read, and bab says nothing: %q", failed[0], clip(err, 300))
		}
		named := mode == "complete"
		for _, f := range failed {
			named = named || strings.Contains(err, path.Base(f))
		}
		if !named {
			return viol(id+"/unnamed", "%q could not be read, but the message is %q", failed, clip(err, 300))
		}
		return nil
	}
	if mode != "run" {
		if len(rs) < 2 {
			return nil
		}
		if len(failed) > 0 && (r.Exit != rs[1].Exit || r.output("stdout") != rs[1].output("stdout") || r.output("stderr") != rs[1].output("stderr")) {
			return refused()
		}
		if len(failed) == 0 && !other && (r.Exit != rs[1].Exit || r.output("stdout") != rs[1].output("stdout") || r.output("stderr") != rs[1].output("stderr")) {
			return viol(id+"/changed", "slow, short or interrupted calls change what bab says:\nexit %d, %q\n%q\ninstead of\nexit %d, %q\n%q", r.Exit,
				clip(r.output("stdout"), 400), clip(r.output("stderr"), 400), rs[1].Exit, clip(rs[1].output("stdout"), 400), clip(rs[1].output("stderr"), 400))
		}
		return nil
	}
	x, v := judge(id, c, r)
	if v == nil {
		v = x.checkContext(id, c.Steps[0].Sim.Env)
	}
	if v == nil {
		r.probe("complete project run", 1)
		return nil
	}
	for _, e := range r.all("event") {
		if e.I(0) != acRename {
			continue
		}
		// the new version, and nothing but it
		sp := r.all("spawn")
		if len(sp) == 1 && has(wordsOf(sp[0].S(2)), otherTok) && r.Exit == 0 && sp[0].S(3) == path.Clean(projDir) {
			r.probe("replaced version run", 1)
			return nil
		}
	}
	if len(failed) > 0 {
		if w := refused(); w != nil {
			return w
		}
		r.probe("refused", 1)
		return nil
	}
	if other && r.Exit == 1 {
		return nil
	}
	return v
}

func init() {
	register(&Prop{ID: "C18", Quick: 30000, Thorough: 800000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project with included files, other Babfiles further up, a mode (run, dry run, list, validate, completion), failing, interrupted, short and slow calls while the files are looked for, opened and read, or the replacement of the main file at any moment, and one seeded schedule.",
		Gen:  genLoad, Check: checkLoad})
}
