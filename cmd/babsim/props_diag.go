package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// mistake is one thing wrong with a project.
type mistake struct {
	text string // how it is named
	file string // where it is written
	word string // what stands there
}

// refsOf lists what a task refers to, in order.
func (f *Flat) refsOf(ft *FTask) (deps, items []string) {
	var rec func(its []*Item)
	rec = func(its []*Item) {
		for _, it := range its {
			if it.Kind == kTask {
				items = append(items, ft.NS+it.Task)
			}
			rec(it.Items)
		}
	}
	rec(ft.T.Run)
	return ft.Deps, items
}

// mistakes finds what makes the project invalid, cycles apart.
func (f *Flat) mistakes(main string) []mistake {
	var out []mistake
	claims := map[string][]*FTask{}
	for _, n := range f.Names {
		ft := f.Tasks[n]
		file := ft.File
		if file == "" {
			file = main
		}
		deps, items := f.refsOf(ft)
		for _, d := range append(append([]string{}, deps...), items...) {
			if f.Tasks[d] == nil {
				out = append(out, mistake{fmt.Sprintf("task %q not found", d), file, strings.TrimPrefix(d, ft.NS)})
			}
		}
		for _, a := range ft.T.Aliases {
			full := ft.NS + a
			if f.Tasks[full] != nil {
				out = append(out, mistake{fmt.Sprintf("alias %q for task %q conflicts", full, n), file, ft.T.Name})
				continue
			}
			claims[full] = append(claims[full], ft)
		}
	}
	for _, a := range sortedKeys(claims) {
		for range claims[a][1:] {
			out = append(out, mistake{text: fmt.Sprintf("alias %q for task", a)})
		}
	}
	return out
}

// graph is who refers to whom.
func (f *Flat) graph() map[string]map[string]bool {
	g := map[string]map[string]bool{}
	for _, n := range f.Names {
		g[n] = map[string]bool{}
		deps, items := f.refsOf(f.Tasks[n])
		for _, d := range append(append([]string{}, deps...), items...) {
			if f.Tasks[d] != nil {
				g[n][d] = true
			}
		}
	}
	return g
}

// knots are the sets of tasks that lead to one another.
func knots(g map[string]map[string]bool) [][]string {
	reach := map[string]map[string]bool{}
	for n := range g {
		r := map[string]bool{}
		todo := []string{n}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			for m := range g[x] {
				if !r[m] {
					r[m] = true
					todo = append(todo, m)
				}
			}
		}
		reach[n] = r
	}
	var out [][]string
	in := map[string]bool{}
	for _, n := range sortedKeys(g) {
		if in[n] || !reach[n][n] {
			continue
		}
		var k []string
		for _, m := range sortedKeys(g) {
			if reach[n][m] && reach[m][n] {
				k = append(k, m)
				in[m] = true
			}
		}
		out = append(out, k)
	}
	return out
}

var placeRE = regexp.MustCompile(`^ERRO (\S+?):(\d+): `)
var aliasRE = regexp.MustCompile(`alias "([^"]*)" for task "([^"]*)" already defined by task "([^"]*)" at line (\d+)`)
var foundRE = regexp.MustCompile(`task "[^"]*" not found`)
var conflictRE = regexp.MustCompile(`alias "[^"]*" for task "[^"]*" conflicts`)

func tally(ss []string) string {
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

// checkMistakes compares the messages with what is wrong.
func (f *Flat) checkMistakes(c *Case, sim *Sim, errText string) *Violation {
	main := projDir + "/" + c.babfile()
	texts := map[string][]string{}
	for _, x := range c.Proj.files(projDir, c.babfile()) {
		texts[x.Path] = strings.Split(string(x.Content), "\n")
	}
	var wantFound, wantConf, wantDup, gotFound, gotConf, gotDup []string
	ms := f.mistakes(main)
	for _, m := range ms {
		switch {
		case strings.Contains(m.text, "not found"):
			wantFound = append(wantFound, m.text)
		case strings.Contains(m.text, "conflicts"):
			wantConf = append(wantConf, m.text)
		default:
			wantDup = append(wantDup, m.text)
		}
	}
	g := f.graph()
	ks := knots(g)
	hit := make([]bool, len(ks))
	for _, l := range strings.Split(stripANSI(errText), "\n") {
		if !strings.HasPrefix(l, "ERRO ") {
			continue
		}
		said := ""
		if m := foundRE.FindString(l); m != "" {
			said = m
			gotFound = append(gotFound, m)
		} else if m := conflictRE.FindString(l); m != "" {
			said = m
			gotConf = append(gotConf, m)
		} else if m := aliasRE.FindStringSubmatch(l); m != nil {
			gotDup = append(gotDup, fmt.Sprintf("alias %q for task", m[1]))
			a, b := f.Tasks[m[2]], f.Tasks[m[3]]
			if a == nil || b == nil || !has(a.T.Aliases, strings.TrimPrefix(m[1], a.NS)) || !has(b.T.Aliases, strings.TrimPrefix(m[1], b.NS)) {
				return viol("C13/untrue", "not so: %s", l)
			}
			if v := standsAt(sim, l, texts, []mistake{{file: fileOf(a, main), word: a.T.Name}}); v != nil {
				return v
			}
			n, _ := strconv.Atoi(m[4])
			if t := texts[fileOf(b, main)]; n < 1 || n > len(t) || !near(t, n, b.T.Name) {
				return viol("C13/place", "the other task is not at line %d: %s", n, l)
			}
		} else if _, chain, ok := strings.Cut(l, "circular dependency: "); ok {
			names := strings.Split(chain, " → ")
			last := names[len(names)-1]
			for i := 0; i+1 < len(names); i++ {
				if !g[names[i]][names[i+1]] {
					return viol("C13/untrue", "%s does not lead to %s: %s", names[i], names[i+1], l)
				}
			}
			if !has(names[:len(names)-1], last) {
				return viol("C13/untrue", "no circle: %s", l)
			}
			for i, k := range ks {
				hit[i] = hit[i] || has(k, last)
			}
		} else {
			return viol("C13/odd", "unexpected message: %s", l)
		}
		if said != "" {
			var at []mistake
			for _, m := range ms {
				if m.text == said {
					at = append(at, m)
				}
			}
			if len(at) == 0 {
				return viol("C13/untrue", "not so: %s", l)
			}
			if v := standsAt(sim, l, texts, at); v != nil {
				return v
			}
		}
	}
	for _, p := range [][2]string{{tally(gotFound), tally(wantFound)}, {tally(gotConf), tally(wantConf)}, {tally(gotDup), tally(wantDup)}} {
		if p[0] != p[1] {
			return viol("C13/unnamed", "bab names [%s], wrong is [%s]", p[0], p[1])
		}
	}
	for i := range ks {
		if !hit[i] {
			return viol("C13/unnamed", "the circle among %v is not named", ks[i])
		}
	}
	return nil
}

func fileOf(ft *FTask, main string) string {
	if ft.File == "" {
		return main
	}
	return ft.File
}

// near looks for the word on a line or the one before (a mapping begins on the
// line after its key).
func near(text []string, n int, word string) bool {
	return strings.Contains(text[n-1], q(word)) || n > 1 && strings.Contains(text[n-2], q(word))
}

// standsAt tells whether the message points to one of the places.
func standsAt(sim *Sim, l string, texts map[string][]string, at []mistake) *Violation {
	m := placeRE.FindStringSubmatch(l)
	if m == nil {
		return viol("C13/place", "the message points nowhere: %s", l)
	}
	file := m[1]
	if !path.IsAbs(file) {
		file = path.Join(sim.Cwd, file)
	}
	file = physical(file)
	n, _ := strconv.Atoi(m[2])
	for _, a := range at {
		if t := texts[file]; a.file == file && n >= 1 && n <= len(t) && near(t, n, a.word) {
			return nil
		}
	}
	return viol("C13/place", "nothing of the kind is there: %s", l)
}

var undefRE = regexp.MustCompile(`(?m)^ERRO (.*?)undefined variable: (\w+)`)

// placeOfVar checks where a message says that an undefined variable is used.
func (c *Case) placeOfVar(sim *Sim, errText string) *Violation {
	m := undefRE.FindStringSubmatch(stripANSI(errText))
	if m == nil {
		return nil
	}
	l := m[0]
	for _, x := range c.Proj.files(projDir, c.babfile()) {
		name, i := "", -1
		for _, dir := range []string{projDir, "/home/u/p"} {
			name = dir + strings.TrimPrefix(x.Path, projDir)
			if rel, ok := strings.CutPrefix(name, sim.Cwd+"/"); ok {
				name = rel
			}
			if i = strings.Index(m[1], name+":"); i >= 0 {
				break
			}
		}
		if i < 0 || i > 0 && m[1][i-1] != ' ' {
			continue
		}
		text := strings.Split(string(x.Content), "\n")
		num, _, _ := strings.Cut(m[1][i+len(name)+1:], ":")
		n, err := strconv.Atoi(num)
		if err != nil {
			continue
		}
		if n < 1 || n > len(text) {
			return viol("C13/place", "no such line: %s", l)
		}
		if m[2] == "gone9" && !strings.Contains(text[n-1], m[2]) {
			return viol("C13/place", "no %s on that line: %s", m[2], l)
		}
	}
	return nil
}

// fileOfProject finds where an included project is written.
func fileOfProject(p, q *Project, or string) string {
	for _, ft := range p.flatten(projDir).Tasks {
		if ft.Chain[len(ft.Chain)-1] == q {
			return ft.File
		}
	}
	return or
}

// chainOf takes the names out of "a → b → a" at the end of a line.
func chainOf(l, after string) []string {
	_, chain, ok := strings.Cut(l, after)
	if !ok {
		return nil
	}
	return strings.Split(chain, " → ")
}

// closed says whether a chain comes back to where it began, by steps that exist.
func closed(chain []string, leads func(a, b string) bool) bool {
	for i := 0; i+1 < len(chain); i++ {
		if !leads(chain[i], chain[i+1]) {
			return false
		}
	}
	return len(chain) > 1 && chain[0] == chain[len(chain)-1]
}

// trueOfFiles checks what the messages say about included files that cannot be
// used: only what is so.
func (c *Case) trueOfFiles(errText string) *Violation {
	main := projDir + "/" + c.babfile()
	edges := map[[2]string]bool{}
	known := map[string]bool{}
	for _, x := range c.Proj.files(projDir, c.babfile()) {
		known[x.Path] = true
	}
	var broken []string
	var rec func(p *Project, file string)
	rec = func(p *Project, file string) {
		for _, in := range p.Includes {
			f := path.Join(path.Dir(file), in.File)
			edges[[2]string{path.Base(file), path.Base(f)}] = true
			if in.P != nil {
				rec(in.P, f)
			} else if !known[f] {
				broken = append(broken, path.Base(f))
			}
		}
	}
	rec(c.Proj, main)
	for _, l := range strings.Split(stripANSI(errText), "\n") {
		if !strings.HasPrefix(l, "ERRO ") {
			continue
		}
		if chain := chainOf(l, "circular include: "); chain != nil {
			if !closed(chain, func(a, b string) bool { return edges[[2]string{a, b}] }) {
				return viol("C13/untrue", "the files do not include one another like that: %s", l)
			}
			continue
		}
		named := false
		for _, b := range broken {
			named = named || strings.Contains(l, b)
		}
		if !named {
			return viol("C13/unnamed", "the message names none of the files that cannot be used (%v): %s", broken, l)
		}
	}
	return nil
}

// trueOfVars does the same for variables.
func (c *Case) trueOfVars(errText string) *Violation {
	edges := map[[2]string]bool{}
	add := func(kvs []KV) {
		for _, kv := range kvs {
			for _, m := range useRE.FindAllStringSubmatch(kv.V, -1) {
				edges[[2]string{kv.K, m[1]}] = true
			}
		}
	}
	var rec func(p *Project)
	rec = func(p *Project) {
		add(p.Vars)
		for _, t := range p.Tasks {
			add(t.Vars)
		}
		for _, in := range p.Includes {
			rec(in.P)
		}
	}
	rec(c.Proj)
	for _, l := range strings.Split(stripANSI(errText), "\n") {
		if !strings.HasPrefix(l, "ERRO ") {
			continue
		}
		if chain := chainOf(l, "circular variable reference: "); chain != nil {
			if !closed(chain, func(a, b string) bool { return edges[[2]string{a, b}] }) {
				return viol("C13/untrue", "the variables do not refer to one another like that: %s", l)
			}
		} else if m := undefRE.FindStringSubmatch(l); m != nil && !strings.HasPrefix(m[2], "gone") {
			return viol("C13/untrue", "%s is defined: %s", m[2], l)
		}
	}
	return nil
}

var useRE = regexp.MustCompile(`\$\{\{\s*(\w+)\s*\}\}`)

func genDiag(r *rng, th bool) *Case {
	o := baseOpts(r)
	o.Fail, o.Rich, o.Dirs = 0, 0, 0
	o.Includes = pickOf(r, []int{0, 50, 100})
	o.MaxTasks = r.in(2, 9)
	if th && r.p(1, 3) {
		o.MaxTasks = r.in(5, 16)
	}
	kind := r.pick("refs", "refs", "refs", "load", "vars", "none")
	if kind == "vars" || kind == "none" {
		o.Par = 0
	}
	if kind == "vars" {
		o.Prompts = 0
	}
	g := &gen{r: r, o: o}
	p := g.project()
	c := &Case{Proj: p, Root: p.Tasks[0].Name, S: map[string]string{"kind": kind}, P: map[string]int64{}}
	var projs []*Project
	var collect func(p *Project)
	collect = func(p *Project) {
		projs = append(projs, p)
		for _, in := range p.Includes {
			if !in.Shared {
				collect(in.P)
			}
		}
	}
	collect(p)
	if r.p(1, 2) {
		c.S["babfile"] = r.pick("Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml")
	}
	var extra []SFile
	switch kind {
	case "refs":
		aliases := r.p(1, 5) // mostly those
		circles := !aliases && r.p(1, 4)
		k := r.in(1, 5)
		if circles {
			k = r.in(3, 9)
		}
		for ; k > 0; k-- {
			q := pickOf(r, projs)
			t := pickOf(r, q.Tasks)
			other := pickOf(r, q.Tasks)
			name := pickOf(r, []string{fmt.Sprint("nosuch", r.n(3)), "t", "t00", "zz:x", "in:t9"})
			what := r.n(6)
			if aliases {
				what = r.in(4, 5)
			} else if circles {
				what = r.in(1, 3)
			}
			switch what {
			case 0:
				t.Deps = append(t.Deps, name)
			case 1, 2:
				it := &Item{Kind: kTask, Task: name}
				if circles || r.p(1, 2) {
					it.Task = other.Name // leads somewhere, perhaps in a circle
				}
				if len(t.Run) > 0 && r.p(1, 2) {
					if b := t.Run[r.n(len(t.Run))]; b.Kind == kParallel {
						i := r.n(len(b.Items) + 1)
						b.Items = append(b.Items[:i:i], append([]*Item{it}, b.Items[i:]...)...)
						break
					}
				}
				i := r.n(len(t.Run) + 1)
				t.Run = append(t.Run[:i:i], append([]*Item{it}, t.Run[i:]...)...)
			case 3:
				if !has(t.Deps, other.Name) {
					i := r.n(len(t.Deps) + 1)
					t.Deps = append(t.Deps[:i:i], append([]string{other.Name}, t.Deps[i:]...)...)
				}
			case 4:
				al := fmt.Sprint("dup", r.n(2))
				addAlias(r, t, al)
				if ns, o := below(r, p, q); o != nil && r.p(1, 2) {
					addAlias(r, o, al) // of a task in an included file, which is
					addAlias(r, t, ns+al)
				} else {
					addAlias(r, other, al)
				}
			case 5:
				if ns, o := below(r, p, q); o != nil && r.p(1, 2) {
					addAlias(r, t, ns+o.Name)
				} else {
					addAlias(r, t, other.Name)
				}
			}
		}
	case "load":
		c.S["fixed"] = "1"
		for k := r.in(1, 3); k > 0; k-- {
			q := pickOf(r, projs)
			ns := fmt.Sprint("bad", k, r.pick("", "x"))
			dir := projDir // of the file q
			for _, ft := range p.flatten(projDir).Tasks {
				if ft.Chain[len(ft.Chain)-1] == q {
					dir = ft.Dir
				}
			}
			in := &Include{NS: ns, File: ns + ".yml"}
			switch r.n(5) {
			case 4: // leads to another, and so on, and then back to one of those
				n := r.in(1, 7)
				back := r.n(n)
				for at, i := in, 0; i < n; i++ {
					at.P = &Project{Tasks: []*MTask{{Name: "a", Run: []*Item{{Kind: kCmd, Tok: fmt.Sprintf("k%dz", 910+10*k+i)}}}}}
					next := &Include{NS: "x", File: fmt.Sprintf("%s-%d.yml", ns, i)}
					if i == n-1 {
						next.File = ns + ".yml"
						if back > 0 {
							next.File = fmt.Sprintf("%s-%d.yml", ns, back-1)
						}
					}
					at.P.Includes = append(at.P.Includes, next)
					at = next
				}
			case 0: // not there
				in.File = r.pick("missing/", "sub/", "") + "gone.yml"
			case 1: // leads back
				to := projDir + "/" + c.babfile()
				if r.p(1, 2) { // to itself or what includes it
					for _, ft := range p.flatten(projDir).Tasks {
						if ft.Chain[len(ft.Chain)-1] == q && ft.File != "" {
							to = ft.File
							if i := len(ft.Chain) - 2; i > 0 && r.p(1, 2) {
								to = fileOfProject(p, ft.Chain[i], to)
							}
							break
						}
					}
				}
				in.File = strings.Repeat("../", strings.Count(dir, "/")) + to[1:]
			case 2: // no Babfile
				extra = append(extra, SFile{Path: dir + "/" + in.File, Kind: "f", Mode: 0o644, Content: BStr(r.pick("tasks: [", "", "a\tb: {", "tasks:\n  x: 7\n", "tasks:\n  x:\n    run: nope\n"))})
			case 3: // a name it would add exists
				in.File = ns + ".yml"
				extra = append(extra, SFile{Path: dir + "/" + in.File, Kind: "f", Mode: 0o644, Content: "tasks:\n  a:\n    run:\n      - cmd: echo\n  b:\n    run:\n      - cmd: echo\n"})
				two := []*MTask{{Name: ns + ":a", Run: []*Item{{Kind: kCmd, Tok: "k900z"}}}, {Name: ns + ":b", Run: []*Item{{Kind: kCmd, Tok: "k901z"}}}}
				switch r.n(4) {
				case 0:
					two = two[:1]
				case 1:
					two = two[1:]
				}
				at := r.n(len(q.Tasks) + 1)
				q.Tasks = append(q.Tasks[:at:at], append(two, q.Tasks[at:]...)...)
			}
			q.Includes = append(q.Includes, in)
		}
	case "vars":
		c.S["fixed"] = "1"
		q := pickOf(r, projs)
		t := q.Tasks[0]
		for n, ft := range p.flatten(projDir).Tasks {
			if ft.T == t {
				c.Root = n
			}
		}
		t.Run = append([]*Item{{Kind: kCmd, Tok: "k900z"}}, t.Run...)
		if r.p(1, 3) {
			t.Run[0].Text = "${{ gone9 }}"
		}
		for k := r.in(1, 4); k > 0; k-- {
			kvs := pickOf(r, []*[]KV{&p.Vars, &t.Vars, &t.Env, &t.Run[0].Env, &p.Env, &q.Vars, &q.Env})
			isEnv := kvs == &t.Env || kvs == &p.Env || kvs == &q.Env || kvs == &t.Run[0].Env
			a, b := fmt.Sprint("XA", k), fmt.Sprint("XB", k)
			if isEnv || r.p(1, 2) {
				*kvs = append(*kvs, KV{a, "x ${{ gone" + fmt.Sprint(r.n(4)) + " }}"})
			} else if r.p(1, 3) {
				*kvs = append(*kvs, KV{a, "${{ " + a + " }}"})
			} else {
				*kvs = append(*kvs, KV{a, "${{ " + b + " }}"}, KV{b, "${{ " + a + " }}"})
			}
			r.shuffle(len(*kvs), func(i, j int) { (*kvs)[i], (*kvs)[j] = (*kvs)[j], (*kvs)[i] })
		}
	}
	mode := r.pick("run", "run", "dry", "list", "validate", "none")
	args := map[string][]string{"run": {c.Root}, "dry": {"-n", c.Root}, "list": {"--list"}, "validate": {"--validate"}, "none": nil}[mode]
	if kind == "none" || kind == "vars" {
		if mode == "none" {
			mode = "run"
			args = []string{c.Root}
		}
		if r.p(1, 4) {
			args = append([]string{"-v"}, args...)
		}
	}
	c.S["mode"] = mode
	s := newSim(r, args...)
	if r.p(1, 2) {
		callFrom(r, &s, c.babfile())
	}
	two := s
	two.Sched = newSched(r)
	two.LatP, two.LatMax = r.n(300), int64(r.in(1, 2000))*1000
	if kind == "none" {
		two.LatP, two.LatMax = s.LatP, s.LatMax
	}
	c.Steps = []*Step{{Sim: s, Extra: extra}, {Sim: two, Extra: extra, Fresh: true}}
	return c
}

func addAlias(r *rng, t *MTask, al string) {
	if !has(t.Aliases, al) {
		i := r.n(len(t.Aliases) + 1)
		t.Aliases = append(t.Aliases[:i:i], append([]string{al}, t.Aliases[i:]...)...)
	}
}

// below picks a task of a file that q includes, and the name q knows that file by.
func below(r *rng, p, q *Project) (string, *MTask) {
	f := p.flatten(projDir)
	var cand []*FTask
	var ns []string
	for _, n := range f.Names {
		ft := f.Tasks[n]
		for i := 0; i+1 < len(ft.Chain); i++ {
			if ft.Chain[i] == q && !strings.HasPrefix(ft.T.Name, "common") { // that is included twice
				above := strings.Join(strings.SplitAfter(ft.NS, ":")[:i], "")
				cand, ns = append(cand, ft), append(ns, strings.TrimPrefix(ft.NS, above))
			}
		}
	}
	if len(cand) == 0 {
		return "", nil
	}
	i := r.n(len(cand))
	return ns[i], cand[i].T
}

func starts(r *Result) []string {
	var out []string
	for _, e := range r.all("spawn") {
		out = append(out, e.S(1))
	}
	return out
}

func checkDiag(c *Case, rs []*Result) *Violation {
	if v := abnormal("C13", rs); v != nil {
		return v
	}
	f := c.Proj.flatten(projDir)
	kind, mode := c.S["kind"], c.S["mode"]
	bad := false
	switch kind {
	case "refs":
		bad = len(f.mistakes("")) > 0 || len(knots(f.graph())) > 0
	case "load":
		bad = true
	case "vars":
		bad = mode == "run" || mode == "dry"
	}
	for k, r := range rs {
		out, err := r.output("stdout"), r.output("stderr")
		fail := func(v *Violation) *Violation { v.Step = k; return v }
		if bad {
			r.probe("refused "+kind, 1)
			if r.Exit != 1 {
				return fail(viol("C13/accepted", "exit status %d although the project is wrong (%s): %s", r.Exit, kind, clip(stripANSI(err), 500)))
			}
			if kind != "vars" && (len(starts(r)) > 0 || r.first("spawnfail") != nil) {
				return fail(viol("C13/ran", "a command ran although the project is wrong (%s)", kind))
			}
			if !strings.Contains(stripANSI(err), "ERRO ") {
				return fail(viol("C13/unnamed", "bab fails without a word: %q", err))
			}
		} else if kind == "refs" && strings.Contains(stripANSI(err), "circular") {
			return fail(viol("C13/untrue", "nothing is wrong, but: %s", clip(stripANSI(err), 500)))
		}
		if kind == "refs" && bad {
			if v := f.checkMistakes(c, &c.Steps[k].Sim, err); v != nil {
				return fail(v)
			}
		}
		if kind == "load" {
			if v := c.trueOfFiles(err); v != nil {
				return fail(v)
			}
		}
		if kind == "vars" {
			if v := c.trueOfVars(err); v != nil {
				return fail(v)
			}
			if v := c.placeOfVar(&c.Steps[k].Sim, err); v != nil {
				return fail(v)
			}
		}
		if k == 0 || (kind == "refs" && !bad) {
			continue
		}
		if o := rs[0]; o.Exit != r.Exit {
			return fail(viol("C13/verdict", "exit status %d or %d, depending on the schedule", o.Exit, r.Exit))
		} else if a := o.output("stderr"); a != err {
			return fail(viol("C13/messages", "messages depend on the schedule:\n%s\nor\n%s", clip(stripANSI(a), 1500), clip(stripANSI(err), 1500)))
		} else if a := o.output("stdout"); a != out {
			return fail(viol("C13/messages", "output depends on the schedule:\n%s\nor\n%s", clip(a, 1500), clip(out, 1500)))
		} else if a, b := starts(o), starts(r); !sameLines(a, b) {
			return fail(viol("C13/commands", "the commands depend on the schedule: %v or %v", a, b))
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C13", Quick: 25000, Thorough: 400000, Real: realAll, Stub: stubAll,
		Rule: "A case is a random project, mostly with one to five mistakes (references to tasks that do not exist, circles through dependencies, run items and parallel blocks, conflicting aliases, included files that are missing, malformed, circular or collide, undefined and circular variables), which is run, dry-run, listed or validated twice under two different seeded schedules (order of maps included).",
		Gen:  genDiag, Check: checkDiag})
}
