package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// Violation is one way a property failed in one simulated run.
type Violation struct {
	Class string // stable identification of what failed
	Step  int
	Msg   string
}

func viol(class, format string, a ...any) *Violation {
	return &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
}

// Obs is what the history says about one command.
type Obs struct {
	Tok      string
	N        int // executions
	Start    *Ev
	End      *Ev
	Fail     *Ev // could not be started
	Pids     []int64
	Timeouts int
}

func (o *Obs) ok() bool {
	return o.Start != nil && o.End != nil && o.End.I(2) == 0 && o.End.I(3) == 0
}

// History indexes a trace by command.
type History struct {
	R      *Result
	Cmd    map[string]*Obs
	Order  []*Obs
	Other  []*Ev // processes that belong to no command of the project
	Logs   map[string]*Ev
	Cancel *Ev // first signal or key press that cancels
}

func wordsOf(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_')
	})
}

func newHistory(r *Result, p *Project) *History {
	h := &History{R: r, Cmd: map[string]*Obs{}, Logs: map[string]*Ev{}}
	logs := map[string]bool{}
	if p != nil {
		p.walkItems(func(_ *MTask, it, _ *Item) {
			switch it.Kind {
			case kCmd:
				h.Cmd[it.Tok] = &Obs{Tok: it.Tok}
			case kLog:
				logs[it.Tok] = true
			}
		})
	}
	type pending struct {
		at   *Ev
		text string
	}
	open := map[string]*pending{}
	note := func(l *pending) {
		for _, w := range wordsOf(stripANSI(l.text)) {
			if logs[w] && h.Logs[w] == nil {
				h.Logs[w] = l.at
			}
		}
	}
	byPid := map[int64]*Obs{}
	for i := range r.Events {
		e := &r.Events[i]
		switch e.Name {
		case "spawn":
			o := h.Cmd[e.S(1)]
			if o == nil {
				h.Other = append(h.Other, e)
				continue
			}
			o.N++
			o.Pids = append(o.Pids, e.I(0))
			byPid[e.I(0)] = o
			if o.Start == nil {
				o.Start = e
				h.Order = append(h.Order, o)
			}
		case "spawnfail":
			for _, w := range wordsOf(e.S(0)) {
				if o := h.Cmd[w]; o != nil {
					o.N++
					if o.Fail == nil {
						o.Fail = e
						h.Order = append(h.Order, o)
					}
					break
				}
			}
		case "procend":
			if o := byPid[e.I(0)]; o != nil && o.End == nil {
				o.End = e
			}
		case "rv-timeout":
			if o := byPid[e.I(0)]; o != nil {
				o.Timeouts++
			}
		case "out", "ttyout":
			if len(logs) > 0 {
				// a line may be written in pieces; it counts from the first
				key := e.Name + e.S(0) + fmt.Sprint(e.I(1))
				if e.Name == "ttyout" {
					key = e.Name + fmt.Sprint(e.I(0))
				}
				for _, part := range strings.SplitAfter(e.S(2), "\n") {
					if part == "" {
						continue
					}
					if open[key] == nil {
						open[key] = &pending{at: e}
					}
					open[key].text += part
					if strings.HasSuffix(part, "\n") {
						note(open[key])
						delete(open, key)
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(open) {
		note(open[k])
	}
	return h
}

// reference model -----------------------------------------------------------------

// Exec is the reference interpreter: given how each command ended in a history
// it says which commands had to run, which could, and what the whole run's
// outcome is.
type Exec struct {
	F    *Flat
	H    *History
	Dirs map[string]bool
	ok   map[string]bool
	mark map[string]int
	Must map[string]bool // tokens of commands and logs
	May  map[string]bool
	Ctx  map[string]*CmdCtx

	Cut     bool           // the run was cancelled: a command that never started did not succeed
	Lost    int            // commands that could not be started for want of a pipe
	applied map[*Item]bool // items that were reached and apply
	deps    map[string]int // dependencies that were reached
}

// CmdCtx says how one command is to be run.
type CmdCtx struct {
	FT   *FTask
	It   *Item
	Text string
	Dir  string
	Env  map[string]string
	Par  *Item // parallel block it is a direct child of
}

func newExec(p *Project, h *History, dirs map[string]bool) *Exec {
	for _, f := range p.files(projDir, "Babfile.yml") {
		for d := path.Dir(f.Path); !dirs[d]; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	return &Exec{F: p.flatten(projDir), H: h, Dirs: dirs, ok: map[string]bool{}, mark: map[string]int{},
		Must: map[string]bool{}, May: map[string]bool{}, Ctx: map[string]*CmdCtx{},
		applied: map[*Item]bool{}, deps: map[string]int{}}
}

// run interprets the named task and reports whether the run succeeds.
func (x *Exec) run(name string) bool {
	if a, ok := x.F.Aliases[name]; ok {
		name = a
	}
	x.task(name, 2)
	return x.taskOK(name)
}

func (x *Exec) taskOK(name string) bool {
	if r, ok := x.ok[name]; ok {
		return r
	}
	r := x.task(name, 0)
	x.ok[name] = r
	return r
}

// task interprets one task. level 0 only computes the outcome, 1 notes that its
// commands may run, 2 that they must.
func (x *Exec) task(name string, level int) bool {
	ft := x.F.Tasks[name]
	if ft == nil {
		return false
	}
	if level > 0 {
		if x.mark[name] >= level {
			return x.taskOK(name)
		}
		x.mark[name] = level
	}
	t := ft.T
	if t.When != nil && !t.When.eval(x.F.vars(ft)) {
		return true
	}
	for i, d := range ft.Deps {
		if level > 0 {
			x.deps[name] = max(x.deps[name], i+1)
			x.task(d, level)
		}
		if !x.taskOK(d) {
			return false
		}
	}
	if len(t.Run) == 0 {
		return true
	}
	vars := x.F.vars(ft)
	env := x.F.env(ft, vars)
	executed, skipped := 0, 0
	for _, it := range t.Run {
		if !onPlatform(it.Platforms) {
			continue
		}
		if it.When != nil && !it.When.eval(vars) {
			skipped++
			continue
		}
		if level > 0 {
			x.applied[it] = true
		}
		switch it.Kind {
		case kPrompt:
			v, ok := it.answer()
			if !ok {
				return false
			}
			vars[it.Var] = v
		case kParallel:
			if !x.parallel(ft, it, vars, env, level) {
				return false
			}
		default:
			if !x.item(ft, it, vars, env, nil, level) {
				return false
			}
		}
		executed++
	}
	return executed > 0 || skipped > 0
}

func (x *Exec) parallel(ft *FTask, it *Item, vars, env map[string]string, level int) bool {
	ok := true
	// dependencies of the block's tasks come first; when one fails the block
	// fails and none of its items starts
	for _, c := range it.Items {
		if c.Kind != kTask || !x.applies(c, vars) {
			continue
		}
		ct := x.F.Tasks[ft.NS+c.Task]
		if ct == nil {
			return false
		}
		if ct.T.When != nil && !ct.T.When.eval(x.F.vars(ct)) {
			continue
		}
		for _, d := range ct.Deps {
			if level > 0 {
				lv := level
				if !ok {
					lv = 1 // after a failing one the others are left open
				}
				x.task(d, lv)
			}
			if !x.taskOK(d) {
				ok = false
			}
		}
	}
	if !ok {
		return false
	}
	for _, c := range it.Items {
		if !x.applies(c, vars) {
			continue
		}
		if level > 0 {
			x.applied[c] = true
		}
		if !x.item(ft, c, vars, env, it, level) {
			ok = false
		}
	}
	return ok
}

// answer is what a prompt yields without a terminal, or the planned answer.
func (it *Item) answer() (string, bool) {
	if it.Aborted {
		return "", false
	}
	if it.Answered {
		return it.Answer, true
	}
	switch it.PType {
	case "confirm":
		if it.Default == "" {
			return "", false
		}
		switch strings.ToLower(it.Default) {
		case "true", "yes", "y", "1":
			return "true", true
		}
		return "false", true
	case "multiselect":
		if len(it.Defaults) == 0 {
			return "", false
		}
		return strings.Join(it.Defaults, ","), true
	case "password":
		return "", false
	}
	return it.Default, it.Default != ""
}

func (x *Exec) applies(it *Item, vars map[string]string) bool {
	return onPlatform(it.Platforms) && (it.When == nil || it.When.eval(vars))
}

func (x *Exec) note(tok string, level int) {
	switch level {
	case 1:
		x.May[tok] = true
	case 2:
		x.Must[tok] = true
	}
}

func (x *Exec) item(ft *FTask, it *Item, vars, env map[string]string, par *Item, level int) bool {
	switch it.Kind {
	case kTask:
		if level > 0 {
			x.task(ft.NS+it.Task, level)
		}
		return x.taskOK(ft.NS + it.Task)
	case kLog:
		x.note(it.Tok, level)
		return true
	case kCmd:
		dir := x.F.dir(ft, it, vars)
		if level > 0 {
			e := map[string]string{}
			for k, v := range env {
				e[k] = v
			}
			for _, kv := range it.Env {
				e[kv.K] = interp(kv.V, mapLook(vars))
			}
			x.Ctx[it.Tok] = &CmdCtx{FT: ft, It: it, Text: interp(it.cmdText(), mapLook(vars)), Dir: dir, Env: e, Par: par}
		}
		if !x.Dirs[dir] {
			return false
		}
		o := x.H.Cmd[it.Tok]
		if x.Lost > 0 && (o == nil || o.N == 0) {
			return false
		}
		x.note(it.Tok, level)
		if o == nil || o.N == 0 {
			return !x.Cut && scriptExit(it.Ops) == 0
		}
		return o.ok()
	}
	return false
}

// structure ------------------------------------------------------------------------

// tokens lists the commands an item needs, tasks it refers to included.
func (x *Exec) closure(ft *FTask, it *Item, into map[string]bool, seen map[string]bool) {
	if !x.applied[it] {
		return
	}
	switch it.Kind {
	case kCmd, kLog:
		into[it.Tok] = true
	case kTask:
		x.taskClosure(ft.NS+it.Task, into, seen)
	case kParallel:
		for _, c := range it.Items {
			x.closure(ft, c, into, seen)
		}
	}
}

func (x *Exec) taskClosure(name string, into map[string]bool, seen map[string]bool) {
	if seen[name] {
		return
	}
	seen[name] = true
	ft := x.F.Tasks[name]
	if ft == nil {
		return
	}
	for _, d := range ft.Deps[:x.deps[name]] {
		x.taskClosure(d, into, seen)
	}
	for _, it := range ft.T.Run {
		x.closure(ft, it, into, seen)
	}
}

// refs counts how often each task is referred to from the tasks reachable from
// root.
func (x *Exec) refs(root string) map[string]int {
	n := map[string]int{root: 1}
	var visit func(name string)
	seen := map[string]bool{}
	visit = func(name string) {
		if seen[name] {
			return
		}
		seen[name] = true
		ft := x.F.Tasks[name]
		if ft == nil {
			return
		}
		for _, d := range ft.Deps {
			n[d]++
			visit(d)
		}
		var rec func(items []*Item)
		rec = func(items []*Item) {
			for _, it := range items {
				if it.Kind == kTask {
					n[ft.NS+it.Task]++
					visit(ft.NS + it.Task)
				}
				rec(it.Items)
			}
		}
		rec(ft.T.Run)
	}
	visit(root)
	return n
}

// own lists the commands that only this item can start.
func (x *Exec) own(ft *FTask, it *Item, refs map[string]int, into map[string]bool) {
	switch it.Kind {
	case kCmd, kLog:
		into[it.Tok] = true
	case kTask:
		x.taskOwn(ft.NS+it.Task, refs, into)
	case kParallel:
		for _, c := range it.Items {
			x.own(ft, c, refs, into)
		}
	}
}

func (x *Exec) taskOwn(name string, refs map[string]int, into map[string]bool) {
	if refs[name] != 1 {
		return
	}
	ft := x.F.Tasks[name]
	if ft == nil {
		return
	}
	for _, d := range ft.Deps {
		x.taskOwn(d, refs, into)
	}
	for _, it := range ft.T.Run {
		x.own(ft, it, refs, into)
	}
}

// orderPair says that every command of Before has to be over before any command
// of After starts.
type orderPair struct {
	Task          string
	What          string
	Before, After map[string]bool
}

func (x *Exec) orders(root string) []orderPair {
	refs := x.refs(root)
	var out []orderPair
	for _, name := range sortedKeys(refs) {
		ft := x.F.Tasks[name]
		if ft == nil {
			continue
		}
		type step struct {
			what     string
			all, own map[string]bool
		}
		var steps []step
		for _, d := range ft.Deps {
			s := step{"dependency " + d, map[string]bool{}, map[string]bool{}}
			x.taskClosure(d, s.all, map[string]bool{})
			x.taskOwn(d, refs, s.own)
			steps = append(steps, s)
		}
		for i, it := range ft.T.Run {
			s := step{fmt.Sprintf("run item %d", i+1), map[string]bool{}, map[string]bool{}}
			x.closure(ft, it, s.all, map[string]bool{})
			x.own(ft, it, refs, s.own)
			steps = append(steps, s)
		}
		for j := 1; j < len(steps); j++ {
			if len(steps[j].own) == 0 {
				continue
			}
			for i := 0; i < j; i++ {
				out = append(out, orderPair{name, steps[i].what + " before " + steps[j].what, steps[i].all, steps[j].own})
			}
		}
	}
	return out
}

// checkOrder judges the history against the order the project asks for.
func (x *Exec) checkOrder(root, class string) *Violation {
	for _, p := range x.orders(root) {
		for _, b := range sortedKeys(p.Before) {
			for _, a := range sortedKeys(p.After) {
				bo, ao := x.H.Cmd[b], x.H.Cmd[a]
				if bo == nil || ao == nil || ao.Start == nil {
					// logs have one instant only
					le, ok := x.H.Logs[a]
					if ok && ao == nil && bo != nil && bo.Start != nil && (bo.End == nil || bo.End.Seq > le.Seq) {
						return viol(class, "task %s (%s): log %s was written (event %d) before command %s had ended", p.Task, p.What, a, le.Seq, b)
					}
					if lb, ok := x.H.Logs[b]; ok && bo == nil && ao != nil && ao.Start != nil && lb.Seq > ao.Start.Seq {
						return viol(class, "task %s (%s): log %s was written (event %d) after command %s had started", p.Task, p.What, b, lb.Seq, a)
					}
					continue
				}
				if bo.Start == nil {
					continue
				}
				if bo.End == nil || bo.End.Seq > ao.Start.Seq {
					return viol(class, "task %s (%s): command %s started (event %d, t=%dus) while %s, started at event %d, had not ended", p.Task, p.What, a, ao.Start.Seq, ao.Start.T/1000, b, bo.Start.Seq)
				}
			}
		}
	}
	return nil
}

// checkSets judges which commands ran.
func (x *Exec) checkSets(class string) *Violation {
	for _, tok := range sortedKeys(x.H.Cmd) {
		o := x.H.Cmd[tok]
		switch {
		case o.N > 1:
			return viol(class+"/repeated", "command %s was started %d times", tok, o.N)
		case o.N == 0 && x.Must[tok]:
			return viol(class+"/missing", "command %s was never started", tok)
		case o.N > 0 && !x.Must[tok] && !x.May[tok]:
			return viol(class+"/forbidden", "command %s was started although what precedes it failed or it does not apply", tok)
		}
	}
	return nil
}

// checkLogs judges which log items were written.
func (x *Exec) checkLogs(class string) *Violation {
	var v *Violation
	x.F.Root.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind != kLog || v != nil || it.Level == "debug" {
			return
		}
		_, seen := x.H.Logs[it.Tok]
		if seen && !x.Must[it.Tok] && !x.May[it.Tok] {
			v = viol(class+"/forbidden-log", "log item %s was written although what precedes it failed or it does not apply", it.Tok)
		}
		if !seen && x.Must[it.Tok] {
			v = viol(class+"/missing-log", "log item %s was never written", it.Tok)
		}
	})
	return v
}

// checkContext judges how each command was started.
func (x *Exec) checkContext(class string, base []string) *Violation {
	for _, tok := range sortedKeys(x.H.Cmd) {
		o := x.H.Cmd[tok]
		c := x.Ctx[tok]
		if o.Start == nil || c == nil {
			continue
		}
		argv := strings.Split(o.Start.S(2), "\x1f")
		if len(argv) != 3 || argv[1] != "-c" || argv[2] != c.Text {
			return viol(class+"/text", "command %s ran as %q, want text %q", tok, argv, c.Text)
		}
		if o.Start.S(3) != physical(c.Dir) {
			return viol(class+"/dir", "command %s ran in %s, want %s", tok, o.Start.S(3), c.Dir)
		}
		got := map[string]string{}
		for _, kv := range strings.Split(o.Start.S(4), "\x00") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				got[k] = v // the last one wins, as in execve'd shells
			}
		}
		want := map[string]string{}
		for _, kv := range base {
			if k, v, ok := strings.Cut(kv, "="); ok {
				want[k] = v
			}
		}
		for k, v := range c.Env {
			want[k] = v
		}
		for _, k := range sortedKeys(want) {
			if k == "PWD" {
				continue // the shell sets it itself
			}
			if _, own := c.Env[k]; !own && (k == "TERM" || k == "NO_COLOR" || k == "FORCE_COLOR") {
				continue // bab may set these for commands whose output it relays
			}
			if g, ok := got[k]; !ok || g != want[k] {
				return viol(class+"/env", "command %s saw %s=%q (present %v), want %q", tok, k, g, ok, want[k])
			}
		}
		for _, k := range sortedKeys(got) {
			if _, ok := want[k]; ok {
				continue
			}
			switch k {
			case "FORCE_COLOR", "TERM", "NO_COLOR", "PWD":
				continue
			}
			return viol(class+"/env-extra", "command %s saw %s=%q, which nothing defines for it", tok, k, got[k])
		}
	}
	return nil
}

func scriptExit(ops []SOp) int64 {
	for _, o := range ops {
		if o.Op == "x" {
			return o.A
		}
		if o.Op == "k" {
			return 128 + o.A
		}
	}
	return 0
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
