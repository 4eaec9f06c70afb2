package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// GenOpts switches features of the generated projects on and off. Each check
// sets ceilings and every case draws its own subset below them (swarm style).
type GenOpts struct {
	MaxTasks  int
	MaxItems  int
	Par       int // percent of run items that are parallel blocks
	ParMax    int // children per block
	TaskRef   int // percent of run items that refer to tasks
	Share     int // percent chance that a reference reuses a referenced task
	Deps      int
	When      int
	Plat      int
	Fail      int // percent of commands that fail
	Limit     int // percent of blocks with a limit
	Logs      int
	Prompts   int
	Flags     int
	Dirs      int
	Envs      int
	Vars      int
	Includes  int
	Lines     int  // max output lines per command
	Long      int  // percent of lines that exceed a pipe
	Odd       int  // percent of lines with unusual bytes
	Whole     bool // no write ends within an escape sequence
	Sleep     int  // percent of commands that take time
	Slow      int  // percent of projects whose commands take seconds instead of milliseconds
	Modes     []string
	RV        bool // all children of a block meet (rendezvous)
	Labels    int
	NoColor   int
	StdinRead int
	Words     bool // names of tasks look like words
	Rich      int  // percent of values, names and conditions that are unusual
	NoShare   bool // no task is referred to twice
}

type gen struct {
	r     *rng
	o     GenOpts
	ntok  int
	nvar  int
	names []string
	refd  map[string]bool
	lines int
	scale int64  // of all sleeps
	path  string // namespaces leading to this file
}

func (g *gen) tok() string {
	g.ntok++
	return fmt.Sprintf("k%dz", g.ntok)
}

var baseDirs = []string{projDir, projDir + "/sub", projDir + "/sub/deep", "/srv/data"}

// baseLinks are directories' other names: link, target, the directory itself.
var baseLinks = [][3]string{{projDir + "/here", "sub", projDir + "/sub"}, {"/srv/link", projDir + "/sub/deep", projDir + "/sub/deep"}, {"/home/u/p", "proj", projDir}}

// physical is the directory a name of one stands for.
func physical(dir string) string {
	for _, l := range baseLinks {
		if dir == l[0] || strings.HasPrefix(dir, l[0]+"/") {
			return l[2] + dir[len(l[0]):]
		}
	}
	return dir
}

var gvars = []string{"v1", "v2", "v3"}

func (g *gen) value() string {
	if g.r.p(g.o.Rich, 100) {
		return pickOf(g.r, oddValues)
	}
	return g.r.pick("a", "b", "true", "false", "x1", "a", "b", "")
}

// oddValues neither begin nor end with a blank or a quote.
var oddValues = []string{"two words", "a==b", "x!=y", "it's", `say "hi" now`, "é漢", "FALSE", "False", "0", "no", "1.50", "~", "null", "#x", "a: b", "- a", "$HOME", "$$", "{{ v1 }}", "$ {{ v1 }}", "a\\b", "*", "%d%s", "one\ntwo", "-n", "`id`", "$(id)", "a,b", "[x]", "{y}", "@z", "!w", "&a", "|", ">"}

func (g *gen) cond(vars []string) *Cond {
	r := g.r
	c := &Cond{Var: pickOf(r, vars)}
	switch r.n(3) {
	case 1:
		c.Op, c.Val = "==", g.value()
	case 2:
		c.Op, c.Val = "!=", g.value()
	}
	if strings.ContainsAny(c.Val, "'\"\n") {
		c.Val = "x"
	}
	if c.Op != "" && r.p(1, 5) {
		// nearly the same
		c.Val = r.pick(strings.ToUpper(c.Val), strings.ToTitle(c.Val), c.Val+" ", " "+c.Val, "0"+c.Val, c.Val+"0")
	}
	if r.p(g.o.Rich, 100) {
		c.DQ = r.p(1, 2)
		c.Gap = r.pick("", "||", "|   |")
		if r.p(1, 2) {
			c.Pre, c.Post = r.pick("", "p-", "a"), r.pick("", "-q", "b")
		}
		if r.p(1, 6) {
			c.Var = r.pick("env.HOME", "env.LANG", "env.NOPE")
		}
		if c.Op != "" && r.p(1, 3) {
			c.Val = c.Pre + r.pick("a", "b", "x1") + c.Post
		}
	}
	return c
}

// ref text to a variable
func (g *gen) use(v string) string {
	if g.r.p(g.o.Rich, 100) {
		return g.r.pick("${{"+v+"}}", "${{  "+v+" }}", "${{ "+v+" }}${{ "+v+" }}", "$${{ "+v+" }}", "$$${{ "+v+" }}", "${{ env.HOME }}", "<${{ env.NOPE }}>", "${{ "+v+" }}")
	}
	return "${{ " + v + " }}"
}

// project draws one project whose root task is the first one.
func (g *gen) project() *Project {
	o := g.o
	r := g.r
	p := &Project{}
	if g.scale == 0 {
		g.scale = 1
		if r.p(o.Slow, 100) {
			g.scale = int64(pickOf(r, []int{50, 1000, 1000, 10000}))
		}
	}
	for _, v := range gvars {
		p.Vars = append(p.Vars, KV{v, g.value()})
	}
	if o.Dirs > 0 {
		p.Vars = append(p.Vars, KV{"dsub", "sub"}, KV{"dabs", "/srv/data"})
	}
	if r.p(o.Rich, 100) {
		// values that build on one another, in any order
		p.Vars = append(p.Vars, KV{"c1", "<" + g.use("c2") + ">"}, KV{"c2", g.use("v1") + r.pick("", "+", "$${{ c1 }}", "$${{ c2 }}")}, KV{"c0", g.use("c1") + g.use("c2")})
		r.shuffle(len(p.Vars), func(i, j int) { p.Vars[i], p.Vars[j] = p.Vars[j], p.Vars[i] })
	}
	if r.p(o.Envs, 100) {
		p.Env = append(p.Env, KV{"GLOB", "g" + r.pick("1", g.use("v1"))}, KV{"OVER", "glob"})
	}
	if r.p(o.Flags, 300) {
		p.Silent = bp(r.p(1, 2))
	}
	if r.p(o.Flags, 300) {
		p.Output = bp(r.p(1, 2))
	}
	if r.p(o.Dirs, 300) {
		p.Dir = r.pick("sub", "here", "/srv/link", "/srv/data", "./sub/deep", "${{ dsub }}", "${{ dabs }}")
	}
	n := r.in(1, max(1, o.MaxTasks))
	ninc := 0
	if o.Includes > 0 && r.p(o.Includes, 100) {
		ninc = r.in(1, 2)
	}
	var inc []string
	taken := map[string]bool{}
	for i := 0; i < ninc; i++ {
		ns := []string{"in", "ex"}[i]
		sub := &gen{r: r, o: o, ntok: g.ntok, lines: g.lines, path: g.path + ns, scale: g.scale}
		sub.o.Includes = 0
		if r.p(1, 3) {
			sub.o.Includes = o.Includes / 2
		}
		sub.o.MaxTasks = 3
		ip := sub.project()
		g.ntok = sub.ntok
		g.lines = sub.lines
		p.Includes = append(p.Includes, &Include{NS: ns, File: r.pick("sub/", "sub/deep/", "") + g.path + ns + ".yml", P: ip})
		for _, t := range ip.Tasks {
			inc = append(inc, ns+":"+t.Name)
		}
		for n := range sub.refd {
			taken[ns+":"+n] = true
		}
	}
	if ninc > 0 && r.p(1, 4) {
		inc = append(inc, g.twice(p)...)
	}
	for i := 0; i < n; i++ {
		g.names = append(g.names, g.name(i))
	}
	g.refd = map[string]bool{}
	if o.NoShare {
		g.refd = taken
	}
	for i := 0; i < n; i++ {
		p.Tasks = append(p.Tasks, g.task(i, n, inc))
	}
	return p
}

// twice adds a file that is included twice: by p under two names, or by p and a
// file p includes.
func (g *gen) twice(p *Project) []string {
	r := g.r
	shared := &Project{Tasks: []*MTask{{Name: "common", Run: []*Item{{Kind: kCmd, Tok: g.tok(), Platforms: []string{"windows"}}}}}}
	if r.p(1, 2) { // and leads to another
		shared.Tasks = append(shared.Tasks, &MTask{Name: "common2", Run: []*Item{{Kind: kCmd, Tok: g.tok(), Platforms: []string{"windows"}}}})
		if t := shared.Tasks[0]; r.p(1, 2) {
			t.Deps = []string{"common2"}
		} else {
			t.Run = append(t.Run, &Item{Kind: kTask, Task: "common2"})
		}
	}
	for i, t := range shared.Tasks {
		for k := r.n(4); k > 0; k-- {
			t.Aliases = append(t.Aliases, fmt.Sprintf("c%d%d", i, k))
		}
	}
	in := func(ns, file string) *Include {
		return &Include{NS: ns, File: file, P: clone(shared), Shared: true}
	}
	dir, file := r.pick("", "sub/", "lib/"), "common"+g.path+".yml"
	refs := []string{"co:common"}
	if r.p(1, 3) {
		p.Includes = append(p.Includes, in("co2", "./"+dir+file))
		refs = append(refs, "co2:common")
	} else {
		by := pickOf(r, p.Includes)
		by.P.Includes = append(by.P.Includes, in("cx", strings.Repeat("../", strings.Count(by.File, "/"))+dir+file))
		refs = append(refs, by.NS+":cx:common")
	}
	p.Includes = append(p.Includes, in("co", dir+file))
	if r.p(1, 2) {
		p.Includes[0], p.Includes[len(p.Includes)-1] = p.Includes[len(p.Includes)-1], p.Includes[0]
	}
	return refs
}

var nameWords = []string{"build", "test", "lint", "deploy", "deploy-staging", "dev", "Docker", "db_migrate", "db_reset", "release", "e2e", "größe", "t", "tt", "tests", "clean.all", "rebuild", "_setup", "_", "10", "true"}

func (g *gen) name(i int) string {
	if !g.o.Words {
		return fmt.Sprintf("t%d", i)
	}
	for {
		n := g.r.pick(nameWords...)
		if g.r.p(1, 4) {
			n += g.r.pick("-", ".", "_", "") + g.r.pick("x", "fast", "Ci", "v2")
		}
		if !has(g.names, n) {
			return n
		}
	}
}

// ref picks a task that is declared later, or an included one.
func (g *gen) ref(i, n int, inc []string) string {
	var cand, fresh []string
	for j := i + 1; j < n; j++ {
		cand = append(cand, g.names[j])
	}
	cand = append(cand, inc...)
	if len(cand) == 0 {
		return ""
	}
	for _, c := range cand {
		if !g.refd[c] {
			fresh = append(fresh, c)
		}
	}
	var s string
	if len(fresh) == 0 && g.o.NoShare {
		return ""
	}
	if len(fresh) == 0 || g.r.p(g.o.Share, 100) {
		s = pickOf(g.r, cand)
	} else {
		s = pickOf(g.r, fresh)
	}
	g.refd[s] = true
	return s
}

func (g *gen) task(i, n int, inc []string) *MTask {
	r, o := g.r, g.o
	t := &MTask{Name: g.names[i], Desc: "task " + g.names[i]}
	if o.Words {
		if r.p(1, 2) {
			t.Desc = r.pick("", "", "what it does", "first line\nsecond line\n", "with\ttab", "ünï", strings.Repeat("long ", 40))
		}
		for k := r.n(3); k > 0; k-- {
			t.Aliases = append(t.Aliases, fmt.Sprintf("%s%d%d", r.pick("b", "de", "T", "al-", "ß"), i, k))
		}
	} else if r.p(1, 4) {
		t.Aliases = append(t.Aliases, "al"+t.Name)
		if r.p(1, 3) {
			t.Aliases = append(t.Aliases, "zz"+t.Name)
		}
	}
	vars := append([]string{}, gvars...)
	if r.p(o.Rich, 200) {
		t.Vars = append(t.Vars, KV{"d1", "(" + g.use("d2") + ")"}, KV{"d2", g.use("v2")})
		vars = append(vars, "d1", "d2")
	}
	if r.p(o.Vars, 100) {
		for k := r.in(1, 2); k > 0; k-- {
			g.nvar++
			v := fmt.Sprintf("wt%d_%d", i, g.nvar)
			t.Vars = append(t.Vars, KV{v, r.pick(g.value(), "${{ v1 }}", "p${{ v2 }}q")})
			vars = append(vars, v)
		}
		if r.p(1, 3) {
			t.Vars = append(t.Vars, KV{"v3", g.value()})
		}
	}
	if r.p(o.Envs, 100) {
		t.Env = append(t.Env, KV{"TENV", r.pick("t", "${{ v1 }}", "${{ v3 }}")})
		if r.p(1, 2) {
			t.Env = append(t.Env, KV{"OVER", t.Name})
		}
		t.Env = g.oddEnv(t.Env, vars)
	}
	if r.p(o.Flags, 200) {
		t.Silent = bp(r.p(1, 2))
	}
	if r.p(o.Flags, 200) {
		t.Output = bp(r.p(1, 2))
	}
	if r.p(o.Dirs, 200) {
		t.Dir = r.pick("sub", "here", "/srv/link", "/srv/data", "./sub/deep/..", "${{ dsub }}", "${{ dabs }}", "${{ env.HOME }}/proj")
	}
	if i > 0 && r.p(o.When, 150) {
		t.When = g.cond(vars)
	}
	if r.p(o.Deps, 100) {
		for k := r.in(1, 3); k > 0; k-- {
			if d := g.ref(i, n, inc); d != "" && !has(t.Deps, d) {
				t.Deps = append(t.Deps, d)
			}
		}
	}
	ni := r.in(1, max(1, o.MaxItems))
	if len(t.Deps) > 0 && r.p(1, 10) {
		ni = 0
	}
	for k := 0; k < ni; k++ {
		it := g.item(i, n, inc, vars, true)
		t.Run = append(t.Run, it)
		if it.Kind == kPrompt && !has(vars, it.Var) && it.When == nil && len(it.Platforms) == 0 {
			vars = append(vars, it.Var)
		}
	}
	return t
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (g *gen) item(i, n int, inc, vars []string, top bool) *Item {
	r, o := g.r, g.o
	var it *Item
	x := r.n(100)
	switch {
	case top && x < o.Par:
		it = g.block(i, n, inc, vars)
	case x < o.Par+o.TaskRef:
		s := g.ref(i, n, inc)
		if s == "" {
			it = g.cmd(vars)
		} else {
			it = &Item{Kind: kTask, Task: s}
			if r.p(o.Flags, 300) {
				it.Silent = bp(r.p(1, 2))
			}
			if r.p(o.Flags, 300) {
				it.Output = bp(r.p(1, 2))
			}
		}
	case x < o.Par+o.TaskRef+o.Logs:
		it = &Item{Kind: kLog, Tok: g.tok(), Text: "said " + r.pick("this", "${{ "+pickOf(r, vars)+" }}"), Level: r.pick("", "info", "warn", "error")}
	case top && x < o.Par+o.TaskRef+o.Logs+o.Prompts:
		it = &Item{Kind: kPrompt, Msg: "ask?", Var: r.pick("pa", "pb", "v1", "v2")}
		switch r.n(4) {
		case 0:
			it.PType, it.Default = "confirm", r.pick("true", "false")
		case 1:
			it.PType, it.Default = "input", r.pick("in1", "in2")
		case 2:
			it.PType, it.Options, it.Default = "select", []string{"s1", "s2"}, r.pick("s1", "s2")
		case 3:
			it.PType, it.Options, it.Defaults = "multiselect", []string{"m1", "m2", "m3"}, []string{"m1", "m3"}
		}
	default:
		it = g.cmd(vars)
	}
	if r.p(o.When, 100) {
		it.When = g.cond(vars)
	}
	if r.p(o.Plat, 100) {
		it.Platforms = pickOf(r, [][]string{{"linux"}, {"darwin"}, {"windows", "linux"}, {"windows"}})
	}
	return it
}

func (g *gen) block(i, n int, inc, vars []string) *Item {
	r, o := g.r, g.o
	it := &Item{Kind: kParallel}
	m := r.in(2, max(2, o.ParMax))
	for k := 0; k < m; k++ {
		c := g.item(i, n, inc, vars, false)
		if r.p(o.Labels, 100) {
			c.Label = r.pick("one", "deux", "three long label", "x", "ünï")
		}
		it.Items = append(it.Items, c)
	}
	if r.p(o.Limit, 100) {
		it.Limit = r.in(1, m+1)
	}
	if len(o.Modes) > 0 {
		it.Mode = pickOf(r, o.Modes)
	}
	if r.p(o.NoColor, 100) {
		it.Color = bp(false)
	}
	if r.p(o.Flags, 300) {
		it.Silent = bp(r.p(1, 2))
	}
	if r.p(o.Flags, 300) {
		it.Output = bp(r.p(1, 2))
	}
	return it
}

func (g *gen) cmd(vars []string) *Item {
	r, o := g.r, g.o
	it := &Item{Kind: kCmd, Tok: g.tok()}
	if r.p(o.Vars, 60) {
		it.Text = r.pick("a ${{ "+pickOf(r, vars)+" }} b", "${{ "+pickOf(r, vars)+" }}", "lit", "q=\"1 2\"")
		if r.p(o.Rich, 100) {
			it.Text = r.pick("", "x ", "a\nb ") + g.use(pickOf(r, vars)) + r.pick("", " # c", "\n  c\n", "; done", " | cat")
			if r.p(1, 3) {
				it.Text += g.value()
			}
		}
		it.Text = strings.TrimRight(it.Text, " \n")
	}
	if r.p(o.Envs, 200) {
		it.Env = append(it.Env, KV{"CENV", it.Tok})
		if r.p(1, 2) {
			it.Env = append(it.Env, KV{"OVER", g.use(pickOf(r, vars))})
		}
		it.Env = g.oddEnv(it.Env, vars)
	}
	if r.p(o.Dirs, 200) {
		it.Dir = r.pick("sub", "here", "here/deep", "/srv/link", "sub/deep", "/srv/data", ".", "${{ dsub }}/deep", "${{ dabs }}", "..")
	}
	if r.p(o.Flags, 200) {
		it.Silent = bp(r.p(1, 2))
	}
	if r.p(o.Flags, 200) {
		it.Output = bp(r.p(1, 2))
	}
	fail := r.p(o.Fail, 100)
	it.Ops = g.script(it.Tok, fail)
	return it
}

// oddEnv adds variables that mean something to bab or the shell.
func (g *gen) oddEnv(env []KV, vars []string) []KV {
	if !g.r.p(g.o.Rich, 100) {
		return env
	}
	k := g.r.pick("FORCE_COLOR", "NO_COLOR", "TERM", "HOME", "PATH", "LANG", "CI", "lower_case", "SHELL")
	return append(env, KV{k, g.r.pick("0", "1", "", "dumb", g.use(pickOf(g.r, vars)), g.value())})
}

func (g *gen) script(tok string, fail bool) []SOp {
	r, o := g.r, g.o
	var ops []SOp
	if r.p(o.StdinRead, 100) {
		ops = append(ops, SOp{Op: "r"})
	}
	nl := 0
	if o.Lines > 0 {
		nl = r.n(o.Lines + 1)
	}
	sleepy := r.p(o.Sleep, 100)
	seq := 0
	var carry [3]string
	for k := 0; k < nl; k++ {
		if sleepy && r.p(1, 3) {
			ops = append(ops, SOp{Op: "s", A: int64(r.in(1, 50)) * 100_000 * g.scale})
		}
		fd := 1
		if r.p(1, 3) {
			fd = 2
		}
		seq++
		line := fmt.Sprintf("%s.%d.%d", tok, fd, seq)
		switch {
		case r.p(o.Long, 100):
			for n := r.in(1, 60); n > 0; n-- {
				line += fmt.Sprintf(" %s-%d", tok, n)
			}
		case r.p(o.Odd, 100):
			switch r.n(9) {
			case 0:
				line = r.pick("50%\r100%\r", "gone\r", "\r", "\x1b[2K\r", tok+".1.0\r") + line
			case 1:
				line = r.pick("", "  ", "\r", "\t", "\x1b[31m\x1b[0m", "\x1b[0m ", "\x07") + "\n" + line
			case 2:
				line += r.pick(" \x07bell", " \x1b]0;title\x07 t", " \x1b]8;;http://x\x1b\\t\x1b]8;;\x1b\\", " \x1b(B!", " \x1b[32m✔ größe\x1b[0m", " \x1b[2K\x1b[1G!")
			default:
				line += r.pick(" \x1b[31mred\x1b[0m", " é漢字", " tab\tx", "\r", "\r\r", " \x1b[1mb", "")
			}
		}
		line += "\n"
		if k == nl-1 && r.p(1, 4) {
			line = line[:len(line)-1] // last line without a newline
			line = strings.TrimRight(line, "\r")
		} else if k == nl-1 && r.p(o.Odd, 200) {
			line += r.pick(" ", "   ", "\t", "\x1b[0m", "\x1b[31m \x1b[0m", "done\r") // and an unfinished one of blanks
		}
		// split the write at an arbitrary byte, holding the rest back
		line = carry[fd] + line
		carry[fd] = ""
		mid := false // the write has ended within a character, which nothing else may come into
		if r.p(1, 4) && len(line) > 2 && !(o.Whole && strings.Contains(line, "\x1b")) {
			cut := r.in(1, len(line)-1)
			mid = o.Whole && !utf8.RuneStart(line[cut])
			ops = append(ops, SOp{Op: "o", A: int64(fd), S: BStr(line[:cut])})
			if sleepy && r.p(1, 2) {
				ops = append(ops, SOp{Op: "s", A: int64(r.in(1, 30)) * 100_000 * g.scale})
			}
			line = line[cut:]
		}
		if r.p(1, 6) && k < nl-1 && !mid {
			carry[fd] = line
			continue
		}
		ops = append(ops, SOp{Op: "o", A: int64(fd), S: BStr(line)})
	}
	for fd := 1; fd <= 2; fd++ {
		if carry[fd] != "" {
			ops = append(ops, SOp{Op: "o", A: int64(fd), S: BStr(carry[fd])})
		}
	}
	if r.p(o.Sleep, 200) {
		ops = append(ops, SOp{Op: "s", A: int64(r.in(1, 200)) * 100_000 * g.scale})
	}
	if fail {
		if r.p(1, 5) {
			ops = append(ops, SOp{Op: "k", A: int64(pickOf(r, []int{9, 15, 11, 9, 15, 11, 1, 2, 3, 6, 8, 13, 14, 24, 25, 31}))})
		} else {
			ops = append(ops, SOp{Op: "x", A: int64(pickOf(r, []int{1, 2, 3, 126, 127, 255, 1, 2, 124, 128, 130, 137, 141, 143, r.in(1, 255)}))})
		}
	}
	return ops
}

// endLines ends the last line of every command whose stream another command of
// the same parallel item may continue: what follows an unfinished line within
// one item belongs to the same line, as it would on a terminal.
func endLines(p *Project) {
	refs := map[string]int{} // uses other than as a parallel item
	kids := map[string]int{}
	var walkFile func(p *Project, ns string)
	walkFile = func(p *Project, ns string) {
		var walk func(it *Item, direct bool)
		walk = func(it *Item, direct bool) {
			if it.Kind == kTask {
				if direct {
					kids[ns+it.Task]++
				} else {
					refs[ns+it.Task]++
				}
			}
			for _, ch := range it.Items {
				walk(ch, true)
			}
		}
		for _, t := range p.Tasks {
			for _, d := range t.Deps {
				refs[ns+d]++
			}
			for _, it := range t.Run {
				walk(it, false)
			}
		}
		for _, in := range p.Includes {
			walkFile(in.P, ns+in.NS+":")
		}
	}
	walkFile(p, "")
	var fix func(p *Project, ns string)
	fix = func(p *Project, ns string) {
		for _, t := range p.Tasks {
			alone := len(t.Run) == 1 && len(t.Deps) == 0 && refs[ns+t.Name] == 0
			for _, it := range t.Run {
				if it.Kind == kCmd && !alone {
					endScript(it)
				}
			}
		}
		for _, in := range p.Includes {
			fix(in.P, ns+in.NS+":")
		}
	}
	fix(p, "")
}

func endScript(it *Item) {
	for fd := int64(1); fd <= 2; fd++ {
		for i := len(it.Ops) - 1; i >= 0; i-- {
			op := &it.Ops[i]
			if op.Op == "o" && op.A == fd {
				if op.S != "" && op.S[len(op.S)-1] != '\n' {
					op.S += "\n"
				}
				break
			}
		}
	}
}

// lateLines makes commands leave processes behind that write more after a while.
func lateLines(r *rng, p *Project) {
	p.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind != kCmd || !r.p(1, 3) {
			return
		}
		b := SOp{Op: "b", S: BStr(it.Tok + "b")}
		for k := r.in(1, 3); k > 0; k-- {
			b.Sub = append(b.Sub, SOp{Op: "s", A: int64(r.in(1, 100)) * pickOf(r, []int64{1_000_000, 1_000_000, 300_000_000})})
			fd := r.in(1, 2)
			b.Sub = append(b.Sub, SOp{Op: "o", A: int64(fd), S: BStr(fmt.Sprintf("%s.%d.%d\n", it.Tok, fd, 100-k))})
		}
		endScript(it)
		it.Ops = append([]SOp{b}, it.Ops...)
	})
}

// hugeLines makes a few lines far longer than any buffer.
func hugeLines(r *rng, p *Project, pipe int) {
	n := []int{2_000, 5_000, 9_000}
	if pipe >= 4096 {
		n = append(n, 33_000, 66_000, 130_000, 200_000)
	}
	left := r.in(1, 2)
	p.walkItems(func(_ *MTask, it, _ *Item) {
		for i := range it.Ops {
			op := &it.Ops[i]
			if op.Op == "o" && left > 0 && len(op.S) > 4 && r.p(1, 4) {
				k := strings.LastIndexByte(string(op.S[:len(op.S)-1]), '.')
				if k > 0 {
					left--
					op.S = op.S[:k] + BStr(strings.Repeat("0", pickOf(r, n))) + op.S[k:]
				}
			}
		}
	})
}
