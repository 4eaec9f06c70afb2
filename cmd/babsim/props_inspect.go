package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
)

// wouldDo is one line of a dry run.
type wouldDo struct {
	kind string
	word string // token of the command or log, or name
	text string
	dir  string
}

// dryRun interprets the named task the way a dry run describes it: with its
// dependencies, but not into the tasks and blocks among its run items.
func (f *Flat) dryRun(name string, dirs map[string]bool) (out []wouldDo, ok bool) {
	seen := map[string]bool{}
	var task func(name string) bool
	task = func(name string) bool {
		ft := f.Tasks[name]
		if ft == nil {
			return false
		}
		if r, had := seen[name]; had {
			return r
		}
		seen[name] = true
		if ft.T.When != nil && !ft.T.When.eval(f.vars(ft)) {
			return true
		}
		for _, d := range ft.Deps {
			if !task(d) {
				seen[name] = false
				return false
			}
		}
		vars := f.vars(ft)
		n := 0
		for _, it := range ft.T.Run {
			if !onPlatform(it.Platforms) {
				continue
			}
			n++
			if it.When != nil && !it.When.eval(vars) {
				continue
			}
			switch it.Kind {
			case kCmd:
				dir := f.dir(ft, it, vars)
				if !dirs[dir] {
					seen[name] = false
					return false
				}
				out = append(out, wouldDo{"run", it.Tok, interp(it.cmdText(), mapLook(vars)), dir})
			case kLog:
				out = append(out, wouldDo{"log", it.Tok, interp(it.cmdText(), mapLook(vars)), ""})
			case kTask:
				out = append(out, wouldDo{"run task", "", ft.NS + it.Task, ""})
			case kParallel:
				out = append(out, wouldDo{"run parallel", "", "", ""})
			case kPrompt:
				out = append(out, wouldDo{"prompt", it.Var, it.Msg, ""})
				v, ok := it.answer()
				if !ok {
					v = "<" + it.Var + ">"
				}
				vars[it.Var] = v
			}
		}
		if n == 0 && len(ft.T.Run) > 0 {
			seen[name] = false
			return false
		}
		return true
	}
	if a, is := f.Aliases[name]; is {
		name = a
	}
	ok = task(name)
	return out, ok
}

var wouldRE = regexp.MustCompile(`INFO Would (run task|run parallel|run|log|prompt)\b`)
var nextRE = regexp.MustCompile(`(?m)^(WARN|ERRO|DEBU|INFO) `)

// bare leaves out everything that depends on how a value is quoted.
func bare(s string) string {
	return strings.NewReplacer("\\n", "", "\\t", "", "\\", "", "\"", "", " ", "", "\n", "", "\r", "", "\t", "", "│", "", "'", "").Replace(s)
}

func said(text string) (out []wouldDo) {
	text = strings.ReplaceAll(stripANSI(text), "\r\n", "\n")
	m := wouldRE.FindAllStringSubmatchIndex(text, -1)
	for i, x := range m {
		end := len(text)
		if i+1 < len(m) {
			end = m[i+1][0]
		}
		body := text[x[1]:end]
		if j := nextRE.FindStringIndex(body); j != nil {
			body = body[:j[0]]
		}
		out = append(out, wouldDo{kind: text[x[2]:x[3]], text: body})
	}
	return out
}

func (w wouldDo) String() string { return strings.TrimSpace(w.kind + " " + w.word + " " + w.text) }

// matches compares what was said with what had to be said.
func (w wouldDo) matches(s wouldDo) bool {
	if w.kind != s.kind {
		return false
	}
	if w.word != "" && !has(wordsOf(s.text), w.word) {
		return false
	}
	b := bare(s.text)
	if w.kind == "run task" && !strings.HasSuffix(b, "="+bare(w.text)) {
		return false
	}
	if !strings.Contains(b, bare(w.text)) {
		return false
	}
	if w.dir == "" {
		return true
	}
	for _, d := range namesOf(w.dir) {
		if strings.HasSuffix(b, "dir="+bare(d)) {
			return true
		}
	}
	return false
}

// namesOf lists what a directory may be called: bab may have come to it by
// another name of the project's directory.
func namesOf(dir string) []string {
	out := []string{dir}
	for _, l := range baseLinks {
		if rest, ok := strings.CutPrefix(dir, l[2]); ok && (rest == "" || rest[0] == '/') {
			out = append(out, l[0]+rest)
		}
	}
	return out
}

// listing is what --list shows, one line per node of the tree of names.
func (f *Flat) listing() []string {
	type node struct {
		kids map[string]*node
		ft   *FTask
	}
	root := &node{kids: map[string]*node{}}
	for n, ft := range f.Tasks {
		cur := root
		for _, part := range strings.Split(n, ":") {
			if cur.kids[part] == nil {
				cur.kids[part] = &node{kids: map[string]*node{}}
			}
			cur = cur.kids[part]
		}
		cur.ft = ft
	}
	var out []string
	var walk func(n *node, depth int)
	walk = func(n *node, depth int) {
		for _, k := range sortedKeys(n.kids) {
			c := n.kids[k]
			s := fmt.Sprint(depth, " ", k)
			if c.ft != nil {
				var al []string
				for _, a := range c.ft.T.Aliases {
					al = append(al, c.ft.NS+a)
				}
				if len(al) > 0 {
					s += " (" + strings.Join(al, ", ") + ")"
				}
				s += " " + c.ft.T.Desc
			}
			out = append(out, strings.Join(strings.Fields(s), " "))
			walk(c, depth+1)
		}
	}
	walk(root, 0)
	return out
}

// readListing undoes the drawing of the tree.
func readListing(s string) []string {
	var out []string
	for _, l := range strings.Split(strings.TrimRight(stripANSI(s), "\n"), "\n") {
		l = strings.TrimRight(l, "\r")
		rest := strings.TrimLeft(l, "│├└─ \u00a0")
		depth := len([]rune(strings.TrimSuffix(l, rest))) / 4
		out = append(out, strings.Join(strings.Fields(fmt.Sprint(depth, " ", rest)), " "))
	}
	return out
}

// completions is what a shell is offered for a word that begins with pre.
func (f *Flat) completions(pre string, desc bool) []string {
	var out []string
	add := func(n, d string) {
		if !strings.HasPrefix(n, pre) {
			return
		}
		if desc && d != "" {
			n += "\t" + d
		}
		out = append(out, n)
	}
	for n, ft := range f.Tasks {
		add(n, ft.T.Desc)
	}
	for a, n := range f.Aliases {
		if d := f.Tasks[n].T.Desc; d != "" {
			add(a, d+" (alias)")
		} else {
			add(a, "alias for "+n)
		}
	}
	sort.Strings(out)
	return out
}

func trimLines(s string) []string {
	var out []string
	for _, l := range strings.Split(strings.ReplaceAll(s, "\r\n", "\n"), "\n") {
		if l = strings.TrimRight(l, " \t"); l != "" {
			out = append(out, l)
		}
	}
	return out
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func genInspect(r *rng, th bool) *Case {
	o := baseOpts(r)
	o.Words = r.p(1, 2)
	o.Rich = pickOf(r, []int{0, 0, 10, 40})
	o.Prompts = pickOf(r, []int{0, 10, 30})
	o.Includes = pickOf(r, []int{0, 30, 80})
	if th && r.p(1, 3) {
		o.MaxTasks, o.MaxItems = r.in(5, 14), r.in(2, 6)
	}
	g := &gen{r: r, o: o}
	p := g.project()
	oneLine(p)
	c := &Case{Proj: p, Root: p.Tasks[0].Name, S: map[string]string{}, P: map[string]int64{}}
	if r.p(1, 2) {
		c.S["babfile"] = r.pick("Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml")
	}
	f := p.flatten(projDir)
	// prompts nobody could answer without a terminal
	p.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind == kPrompt && r.p(1, 2) {
			it.Default, it.Defaults = "", nil
			if r.p(1, 4) {
				it.PType, it.Options = "password", nil
			}
		}
	})
	n := r.in(1, 3)
	for k := 0; k < n; k++ {
		root := pickOf(r, f.Names)
		if k == 0 && r.p(1, 2) {
			root = c.Root
		}
		if ft := f.Tasks[root]; len(ft.T.Aliases) > 0 && r.p(1, 3) {
			root = ft.NS + r.pick(ft.T.Aliases...)
		}
		mode := r.pick("dry", "dry", "dry", "list", "validate", "complete", "help", "version", "script", "none", "unknown")
		var args []string
		word := ""
		switch mode {
		case "dry":
			args = []string{root, r.pick("-n", "--dry-run")}
			if r.p(1, 2) {
				args[0], args[1] = args[1], args[0]
			}
		case "list":
			args = []string{r.pick("-l", "--list")}
		case "validate":
			args = []string{"--validate"}
		case "complete":
			word = r.pick("", root, string([]rune(root)[:1]), "zzz", "in:")
			args = []string{r.pick("__complete", "__completeNoDesc"), word}
		case "help":
			args = []string{r.pick("-h", "--help")}
		case "version":
			args = []string{"--version"}
		case "script":
			args = []string{r.pick("-c", "--completion"), r.pick("bash", "zsh", "fish", "powershell", "tcsh")}
		case "unknown":
			root = "no-such-task"
			args = []string{root}
		}
		// what comes with it changes nothing
		switch mode {
		case "list", "validate", "help", "version", "script":
			if r.p(1, 3) {
				args = append(args, root)
			}
			if r.p(1, 4) {
				args = append(args, "-n")
			}
		case "dry", "unknown":
			if r.p(1, 6) {
				args = append(args, "extra")
			}
		}
		var s Sim
		if mode != "none" && mode != "complete" && r.p(1, 4) {
			s = ttySim(r, args...)
		} else {
			s = newSim(r, args...)
		}
		st := &Step{Sim: s, Gap: sec}
		if mode != "complete" && r.p(1, 2) {
			callFrom(r, &st.Sim, c.babfile())
		}
		if r.p(1, 8) {
			st.Sim.Events = append(st.Sim.Events, SEvent{Trig: pickOf(r, []int{trKop, trTick}), TA: int64(r.n(400)), Act: acSignal, A: int64(pickOf(r, []int{2, 15}))})
		}
		c.Steps = append(c.Steps, st)
		st.Tag = []string{mode, root, word}
	}
	return c
}

// oneLine makes every description a single line.
func oneLine(p *Project) {
	for _, t := range p.Tasks {
		t.Desc = strings.Join(strings.Fields(t.Desc), " ")
	}
	for _, in := range p.Includes {
		oneLine(in.P)
	}
}

func checkInspect(c *Case, rs []*Result) *Violation {
	if v := abnormal("C14", rs); v != nil {
		return v
	}
	f := c.Proj.flatten(projDir)
	for k, r := range rs {
		if v := inspectStep(c, f, k, r); v != nil {
			v.Step = k
			return v
		}
	}
	// nothing has changed on disk
	last := rs[len(rs)-1]
	if last.first("exit") == nil {
		return nil
	}
	now := map[string]string{}
	for _, x := range carryFS(last) {
		if x.Kind == "f" {
			now[x.Path] = string(x.Content)
		}
	}
	was := map[string]string{}
	for _, x := range c.prepare(0, nil).Files {
		if x.Kind == "f" {
			was[path.Clean(x.Path)] = string(x.Content)
		}
	}
	for _, n := range sortedKeys(was) {
		if v, there := now[n]; !there || v != was[n] {
			return viol("C14/disk", "looking changed the file %s", n)
		}
	}
	for _, n := range sortedKeys(now) {
		if _, there := was[n]; !there {
			return viol("C14/disk", "looking created the file %s", n)
		}
	}
	return nil
}

func inspectStep(c *Case, f *Flat, k int, r *Result) *Violation {
	tag := c.Steps[k].Tag
	mode, root, word := tag[0], tag[1], tag[2]
	r.probe("mode "+mode, 1)
	sim := &c.Steps[k].Sim
	for _, n := range []string{"spawn", "spawnfail"} {
		if e := r.first(n); e != nil {
			return viol("C14/ran", "bab %q (%s) started a process: %v", sim.Args, mode, e)
		}
	}
	for _, e := range r.all("ttymode") {
		if mode != "none" && e.I(3)&1 == 0 {
			return viol("C14/asked", "bab %q (%s) put the terminal into raw mode", sim.Args, mode)
		}
	}
	out, err := r.output("stdout"), r.output("stderr")
	if sim.Cols > 0 {
		out = r.ttyOutput()
		err = out
	}
	cut := false
	for _, e := range r.all("event") {
		cut = cut || e.I(0) == acSignal
	}
	if cut {
		r.probe("signalled", 1)
	}
	want, what := 0, ""
	exp := []wouldDo{}
	switch mode {
	case "dry":
		var ok bool
		exp, ok = f.dryRun(root, newExec(c.Proj, newHistory(r, c.Proj), baseDirSet()).Dirs)
		if !ok {
			want = 1
		}
		got := said(err)
		if ok && !cut && r.Exit != 0 {
			return viol("C14/dry-failed", "the dry run of %s fails: %s", root, clip(stripANSI(err), 500))
		}
		for i, g := range got {
			if i >= len(exp) {
				return viol("C14/dry-extra", "the dry run of %s says it would do more than the task does: %v", root, g)
			}
			if !exp[i].matches(g) {
				return viol("C14/dry-differs", "the dry run of %s tells at place %d: %v; the task would: %v (in %s)", root, i+1, g, exp[i], exp[i].dir)
			}
		}
		if len(got) < len(exp) && !cut {
			return viol("C14/dry-missing", "the dry run of %s does not tell that it would: %v", root, exp[len(got)])
		}
		r.probe("lines of dry runs", len(got))
		what = "of a dry run"
	case "list":
		if !cut {
			if g, w := readListing(out), f.listing(); sim.Cols > 0 {
				// a terminal may have been asked something before
				if len(g) < len(w) || !sameLines(g[len(g)-len(w)+1:], w[1:]) || !strings.HasSuffix(g[len(g)-len(w)], strings.TrimPrefix(w[0], "0 ")) {
					return viol("C14/list", "--list shows\n%s\nwant\n%s", strings.Join(g, "\n"), strings.Join(w, "\n"))
				}
			} else if !sameLines(g, w) {
				return viol("C14/list", "--list shows\n%s\nwant\n%s", strings.Join(g, "\n"), strings.Join(w, "\n"))
			}
		}
		what = "of --list"
	case "validate":
		if t := fmt.Sprintf("tasks=%d\n", len(f.Tasks)); !cut && !strings.Contains(strings.ReplaceAll(stripANSI(err), "\r", ""), t) {
			return viol("C14/validate", "--validate says %q, want %s", clip(stripANSI(err), 300), t)
		}
		what = "of --validate"
	case "complete":
		w := f.completions(word, sim.Args[0] == "__complete")
		w = append(w, ":4")
		if g := trimLines(out); !cut && !sameLines(g, w) {
			return viol("C14/complete", "completion of %q offers %q, want %q", word, g, w)
		}
		what = "of a completion"
	case "help", "version", "script":
		if strings.TrimSpace(stripANSI(out)) == "" && !cut && !has(sim.Args, "tcsh") {
			return viol("C14/silent", "bab %q says nothing", sim.Args)
		}
		if has(sim.Args, "tcsh") {
			want = 1
		}
		what = "of " + mode
	case "none", "unknown":
		want = 1
		what = "without a task to run"
	}
	if r.Exit != want && !cut {
		return viol("C14/status", "exit status %d %s (%q), want %d; stderr: %s", r.Exit, what, sim.Args, want, clip(stripANSI(err), 500))
	}
	return nil
}

func init() {
	register(&Prop{ID: "C14", Quick: 30000, Thorough: 500000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project and one to three executions that only look at it (dry run of a task or alias, --list, --validate, completion of a prefix, completion scripts, help, version, no task, unknown task), with further arguments, from any directory, with or without a terminal, some told to stop at a random moment, each with one seeded schedule.",
		Gen:  genInspect, Check: checkInspect})
}
