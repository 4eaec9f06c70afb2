package main

import (
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// ttySim is an execution in a terminal.
func ttySim(r *rng, args ...string) Sim {
	s := newSim(r, args...)
	s.FDs = []SFD{{FD: 0, Kind: "tty"}, {FD: 1, Kind: "tty"}, {FD: 2, Kind: "tty"}}
	s.Cols, s.Rows = pickOf(r, []int{80, 80, 80, 120, 40, 200}), pickOf(r, []int{24, 24, 24, 50, 10})
	s.Env = append(s.Env, "TERM="+r.pick("xterm-256color", "xterm-256color", "xterm-kitty", "screen-256color", "tmux-256color", "xterm-ghostty", "vt100", "linux", "alacritty"))
	if r.p(1, 4) {
		s.Env = append(s.Env, "COLORTERM=truecolor")
	}
	if r.p(1, 8) {
		s.Env = append(s.Env, r.pick("NO_COLOR=1", "SSH_TTY=/dev/pts/3", "TERM_PROGRAM=Apple_Terminal", "TMUX=/tmp/x,1,0"))
	}
	s.LatP, s.LatMax = 0, 0
	for k := int64(0); k < 3; k++ {
		// every terminal tells the cursor's position
		s.Events = append(s.Events, SEvent{Trig: trOutput, TS: "\x1b[6n", TA: k, Act: acTTYInput, S: "\x1b[1;1R"})
	}
	if r.p(1, 3) {
		// a terminal that answers what it is asked
		d := pickOf(r, []int64{0, msec, 30 * msec, 300 * msec})
		ans := func(q, a string) {
			s.Events = append(s.Events, SEvent{Trig: trOutput, TS: q, Delay: d, Act: acTTYInput, S: BStr(a)})
		}
		ans("\x1b[?2026$p", "\x1b[?2026;"+r.pick("0", "2")+"$y")
		ans("\x1b[?2027$p", "\x1b[?2027;"+r.pick("0", "2", "3")+"$y")
		ans("\x1b]11;?", "\x1b]11;rgb:1e1e/1e1e/2e2e\x1b\\")
		if r.p(1, 2) {
			ans("\x1b[?1004h", "\x1b[I")
		}
	}
	s.MaxSim = 10 * 60 * sec
	s.MaxTicks = 20_000_000
	return s
}

// throughPicker has the user find the task with the picker, where no other
// contains its name.
func throughPicker(r *rng, c *Case, s *Sim) {
	s.Args = nil
	at := int64(r.in(50, 200)) * msec
	for _, k := range []string{c.Root, "\r"} {
		s.Events = append(s.Events, SEvent{Trig: trOutput, TS: "bab.sh", Delay: at, Act: acTTYInput, S: BStr(k)})
		at += int64(r.in(1, 200)) * msec
	}
}

// redirected sometimes sends bab's standard output elsewhere; what is interactive
// uses the standard error.
func redirected(r *rng, s *Sim) {
	if r.p(1, 5) {
		s.FDs[1] = SFD{FD: 1, Kind: r.pick("sink", "sink", "null"), Label: "stdout", Cap: -1}
	}
}

// promptPlan is what a user types at a prompt.
type promptPlan struct {
	keys   string
	answer string
}

const (
	kUp    = "\x1b[A"
	kDown  = "\x1b[B"
	kRight = "\x1b[C"
	kLeft  = "\x1b[D"
	kBack  = "\x7f"
)

// planPrompt draws what the user types at a prompt; the answer it must yield is
// computed alongside. The last key submits.
func planPrompt(r *rng, it *Item) (parts []promptPlan) {
	switch it.PType {
	case "confirm":
		v := false
		switch strings.ToLower(it.Default) {
		case "true", "yes", "y", "1":
			v = true
		}
		keys := ""
		for k := r.n(4); k > 0; k-- {
			keys += r.pick(kLeft, kRight, "h", "l")
			v = !v
		}
		switch r.n(4) {
		case 0:
			keys, v = keys+r.pick("y", "Y"), true
		case 1:
			keys, v = keys+r.pick("n", "N"), false
		default:
			keys += "\r"
		}
		return []promptPlan{{keys, strconv.FormatBool(v)}}
	case "input":
		val, keys := editLine(r, it.Default, func(s string) bool { return it.Validate == "" || regexp.MustCompile(it.Validate).MatchString(s) }, func() string {
			w := r.pick("abc", "xy", "zed", "q", "v1", "dev", "prod")
			if strings.Contains(it.Validate, "0-9") && r.p(1, 2) {
				w = "v1"
			}
			return w
		}, func() string {
			return r.pick("A B", "é9", "-1", "x y", "ümlaut", "v", "1.20", "$HOME", "${{ x", "'", "\"")
		})
		return []promptPlan{{keys, val}}
	case "number":
		val, keys := editLine(r, it.Default, func(s string) bool {
			if s == "" {
				return it.Default != ""
			}
			n, err := strconv.Atoi(s)
			return err == nil && (it.Min == nil || n >= *it.Min) && (it.Max == nil || n <= *it.Max)
		}, func() string {
			lo, hi := -60, 60
			if it.Min != nil {
				lo = *it.Min
			}
			if it.Max != nil {
				hi = *it.Max
			}
			if r.p(1, 2) {
				return fmt.Sprint(pickOf(r, []int{lo, hi, min(lo+1, hi), max(hi-1, lo)}))
			}
			return fmt.Sprint(r.in(lo, hi))
		}, func() string {
			if it.Min != nil && r.p(2, 5) {
				return fmt.Sprint(*it.Min - 1)
			}
			if it.Max != nil && r.p(3, 4) {
				return fmt.Sprint(*it.Max + 1)
			}
			return r.pick("x", "99", "-5", "1.5", "0", "007", "+4", "1e3", "0x1f", "99999999999999999999", "1 2", "-", "٣", " 7", "7 ", " ")
		})
		return []promptPlan{{keys, val}}
	case "password":
		val, keys := editLine(r, "", func(string) bool { return true }, func() string { return "S" + fmt.Sprint(100000+r.n(900000)) + "S" }, func() string { return r.pick("pW", " ", "é", "$x") })
		out := []promptPlan{{keys, val}}
		if it.Confirm {
			k := ""
			if r.p(1, 3) {
				w := "wr0ng"
				if v := []rune(val); len(v) > 0 {
					switch i := r.n(len(v)); r.n(5) {
					case 0: // as long
						v = slices.Clone(v)
						v[i] = pickOf(r, []rune("Zz9"))
						w = string(v)
					case 1:
						w = string(v[:i])
					case 2:
						w = val + "x"
					case 3:
						w = strings.ToLower(val)
					}
				}
				if w != val {
					k = w + "\r" + strings.Repeat(kBack, len([]rune(w)))
				}
			}
			out = append(out, promptPlan{k + val + "\r", val})
		}
		return out
	case "select":
		pos := 0
		for i, o := range it.Options {
			if o == it.Default {
				pos = i
			}
		}
		n := len(it.Options)
		keys := ""
		for k := r.n(6); k > 0; k-- {
			switch r.n(6) {
			case 0, 1:
				keys += r.pick(kDown, "j")
				pos = (pos + 1) % n
			case 2, 3:
				keys += r.pick(kUp, "k")
				pos = (pos - 1 + n) % n
			case 4:
				keys += "g"
				pos = 0
			case 5:
				keys += "G"
				pos = n - 1
			}
		}
		return []promptPlan{{keys + "\r", it.Options[pos]}}
	case "multiselect":
		sel := make([]bool, len(it.Options))
		for i, o := range it.Options {
			sel[i] = has(it.Defaults, o)
		}
		n := len(sel)
		pos, keys := 0, ""
		count := func() int {
			c := 0
			for _, s := range sel {
				if s {
					c++
				}
			}
			return c
		}
		valid := func() bool {
			return (it.Min == nil || count() >= *it.Min) && (it.Max == nil || count() <= *it.Max)
		}
		// huh starts on the first chosen option
		for i := n - 1; i >= 0; i-- {
			if sel[i] {
				pos = i
			}
		}
		for k := 0; k < 40; k++ {
			if k > 1 && r.p(1, 4) && valid() {
				break
			}
			switch r.n(5) {
			case 0, 1:
				keys += r.pick(kDown, "j")
				pos = min(pos+1, n-1)
			case 2:
				keys += r.pick(kUp, "k")
				pos = max(pos-1, 0)
			case 3:
				keys += r.pick("x", " ")
				sel[pos] = !sel[pos]
			case 4:
				if !valid() && r.p(1, 2) {
					keys += "\r" // refused
				} else {
					keys += r.pick("x", " ")
					sel[pos] = !sel[pos]
				}
			}
		}
		if !valid() {
			return nil
		}
		var chosen []string
		for i, o := range it.Options {
			if sel[i] {
				chosen = append(chosen, o)
			}
		}
		return []promptPlan{{keys + "\r", strings.Join(chosen, ",")}}
	}
	return nil
}

// editLine types into a line that starts with init until it is valid.
func editLine(r *rng, init string, valid func(string) bool, good, bad func() string) (val, keys string) {
	v := []rune(init)
	cur := len(v)
	ins := func(s string) {
		keys += s
		w := append([]rune{}, v[:cur]...)
		w = append(w, []rune(s)...)
		cur += len([]rune(s))
		v = append(w, v[cur-len([]rune(s)):]...)
	}
	if r.p(1, 2) {
		// something that is refused, first
		keys += "\x05" + strings.Repeat(kBack, len(v))
		v, cur = nil, 0
		if ins(bad()); !valid(string(v)) {
			keys += "\r"
		}
		if r.p(1, 2) {
			keys += strings.Repeat(kBack, len(v))
			v, cur = nil, 0
		}
	}
	for k := r.n(4); k > 0; k-- {
		switch r.n(7) {
		case 0, 1:
			ins(good())
		case 2:
			ins(bad())
		case 3:
			keys += kBack
			if cur > 0 {
				v = append(append([]rune{}, v[:cur-1]...), v[cur:]...)
				cur--
			}
		case 4:
			keys += r.pick(kLeft, "\x02")
			cur = max(0, cur-1)
		case 5:
			keys += r.pick(kRight, "\x06")
			cur = min(len(v), cur+1)
		case 6:
			if !valid(string(v)) {
				keys += "\r" // refused
			}
		}
	}
	if !valid(string(v)) {
		// start over
		keys += "\x05" + strings.Repeat(kBack, len(v))
		v, cur = nil, 0
		for range 40 {
			ins(good())
			if valid(string(v)) {
				break
			}
			keys += strings.Repeat(kBack, len(v))
			v, cur = nil, 0
		}
	}
	return string(v), keys + "\r"
}

// typeKeys makes the user type keys once text appears on the screen.
func typeKeys(r *rng, s *Sim, text, keys string) {
	d := pickOf(r, []int64{0, 0, msec, 20 * msec, 200 * msec, 700 * msec})
	ev := func(at int64, k string) {
		s.Events = append(s.Events, SEvent{Trig: trOutput, TS: text, Delay: at, Act: acTTYInput, S: BStr(k)})
	}
	if r.p(1, 2) {
		ev(d, keys)
		return
	}
	gap := pickOf(r, []int64{msec, 5 * msec, 17 * msec, 80 * msec})
	for _, k := range splitKeys(keys) {
		d += gap
		ev(d, k)
	}
}

// splitKeys divides input into single keys.
func splitKeys(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		n := 1
		switch {
		case s[i] == 0x1b && i+2 < len(s) && s[i+1] == '[':
			n = 3
		case s[i] >= 0xc0:
			for i+n < len(s) && s[i+n]&0xc0 == 0x80 {
				n++
			}
		}
		out = append(out, s[i:i+n])
		i += n
	}
	return out
}

// promptsOf walks the prompts of a project.
func promptsOf(p *Project) []*Item {
	var out []*Item
	p.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind == kPrompt {
			out = append(out, it)
		}
	})
	return out
}

// fancyPrompts gives every prompt a message of its own, a random type and limits.
func fancyPrompts(r *rng, p *Project, rows int) {
	// the prompt must fit on the screen
	many := func(ns ...int) []int { return slices.DeleteFunc(ns, func(n int) bool { return n > 6 && n+6 > rows }) }
	odd := []string{""}
	if r.p(1, 4) {
		odd = []string{"", "", " ", " two ", "é", ",", "$", "#", "'"}
	}
	for i, it := range promptsOf(p) {
		it.Msg = fmt.Sprintf("ask%d?", i)
		it.Default, it.Defaults, it.Options, it.Min, it.Max, it.Validate, it.Confirm = "", nil, nil, nil, nil, "", false
		switch it.PType = r.pick("confirm", "input", "select", "multiselect", "password", "number"); it.PType {
		case "confirm":
			it.Default = r.pick("", "true", "false", "yes", "no", "y", "1", "TRUE", "Yes", "0", "n")
		case "input":
			it.Default = r.pick("", "", "abc", "in put")
			if r.p(1, 3) {
				it.Validate = r.pick("^[a-z]+$", "^[a-z]+$", "^v[0-9]+$", "[0-9]", "^(abc|dev|v.*)?$", "^.{2,3}$", `^[^\s"'$]*$`, "(?i)^P|q$")
				it.Default = r.pick("", "abc", "v2")
			}
		case "number":
			it.Default = r.pick("", "5", "4")
			if r.p(1, 2) {
				a, b := pickOf(r, []int{1, 0, 0, -3, 5, -50}), pickOf(r, []int{60, 5, 0})
				if b < a || r.p(1, 2) {
					b = a + r.n(8)
				}
				if it.Min = &a; r.p(1, 4) {
					it.Min = nil
				}
				if it.Max = &b; r.p(1, 4) {
					it.Max = nil
				}
			}
		case "select":
			for k := pickOf(r, many(1, 2, 3, 4, 6, 17)); k > 0; k-- {
				it.Options = append(it.Options, pickOf(r, odd)+fmt.Sprintf("opt%d", k)+pickOf(r, odd))
			}
			if r.p(1, 2) {
				it.Default = r.pick(it.Options...)
			}
		case "multiselect":
			for k := pickOf(r, many(1, 2, 3, 4, 5, 14)); k > 0; k-- {
				o := pickOf(r, odd) + fmt.Sprintf("m%d", k) + pickOf(r, odd)
				it.Options = append(it.Options, o)
				if r.p(1, 3) {
					it.Defaults = append(it.Defaults, o)
				}
			}
			if r.p(1, 3) {
				a := r.in(0, len(it.Options))
				b := r.in(a, len(it.Options))
				it.Min = &a
				if b > 0 {
					it.Max = &b
				}
			}
		case "password":
			it.Confirm = r.p(1, 2)
		}
	}
}

// useAnswers makes the item that follows a prompt say what was answered.
func useAnswers(r *rng, p *Project) {
	done := map[*MTask]bool{}
	p.walkItems(func(t *MTask, _, _ *Item) {
		if done[t] {
			return
		}
		done[t] = true
		for i, it := range t.Run {
			if it.Kind != kPrompt || it.When != nil || len(it.Platforms) > 0 || r.p(1, 5) {
				continue
			}
			for _, u := range t.Run[i+1:] {
				if u.Kind == kCmd || u.Kind == kLog {
					u.Text = strings.TrimSpace(u.Text + " a=${{ " + it.Var + " }}")
					break
				}
			}
		}
	})
}

// throughVars has variables stand for parts of the prompts' texts.
func throughVars(r *rng, p *Project) {
	done := map[*MTask]bool{}
	p.walkItems(func(t *MTask, it, _ *Item) {
		if it.Kind != kPrompt {
			return
		}
		vs := []KV{{"pask", "ask"}, {"popt", "opt"}, {"pm", "m"}, {"pin", "in put"}}
		if !done[t] {
			done[t] = true
			t.Vars = append(t.Vars, vs...)
			if r.p(1, 2) { // before or after those it has
				t.Vars = append(slices.Clone(vs), t.Vars[:len(t.Vars)-len(vs)]...)
			}
		}
		it.Via = vs
	})
}

func genPrompts(r *rng, th bool) *Case {
	o := GenOpts{MaxTasks: r.in(1, 3), MaxItems: r.in(2, 5), TaskRef: 15, Deps: 20, Lines: 2, Logs: 10, Fail: pickOf(r, []int{0, 5}), Prompts: 45, When: pickOf(r, []int{0, 20}), Vars: 60, Plat: pickOf(r, []int{0, 10})}
	if r.p(1, 4) { // with live displays in between
		o.TaskRef, o.Par, o.ParMax, o.Sleep = 0, 25, 4, 50
		o.Modes = []string{"grouped", "tabs", "grouped", "tabs", "interleaved"}
	}
	g := &gen{r: r, o: o}
	p := g.project()
	for _, t := range p.Tasks {
		for _, b := range t.Run {
			// only commands: a display and a prompt at once would compete for the
			// terminal, and log items go to the display
			b.Items = slices.DeleteFunc(b.Items, func(it *Item) bool { return it.Kind != kCmd })
		}
		t.Run = slices.DeleteFunc(t.Run, func(it *Item) bool { return it.Kind == kParallel && len(it.Items) == 0 })
		if len(t.Run) == 0 {
			t.Run = []*Item{g.cmd(gvars)}
		}
	}
	c := &Case{Proj: p, Root: p.Tasks[0].Name, S: map[string]string{"fixed": "1", "fixed-events": "1"}, P: map[string]int64{}}
	s := ttySim(r, c.Root)
	if r.p(1, 6) {
		throughPicker(r, c, &s)
	} else {
		redirected(r, &s)
	}
	fancyPrompts(r, p, s.Rows)
	useAnswers(r, p)
	if r.p(1, 3) {
		throughVars(r, p)
	}
	ps := promptsOf(p)
	stop := -1
	if len(ps) > 0 && r.p(1, 3) {
		stop = r.n(len(ps))
	}
	for i, it := range ps {
		plan := planPrompt(r, it)
		if plan == nil {
			stop = i
			plan = []promptPlan{{"", ""}}
		}
		if it.PType == "password" {
			for k, pl := range plan {
				c.S[fmt.Sprintf("secret%d.%d", i, k)] = pl.answer
			}
		}
		it.Answered, it.Answer = true, plan[len(plan)-1].answer
		for k, pl := range plan {
			text := it.Msg
			if k == 1 {
				text = "Confirm " + it.Msg
			}
			keys := pl.keys
			if i == stop && (k == len(plan)-1 || r.p(1, 2)) {
				it.Aborted = true
				ks := splitKeys(keys)
				if len(ks) > 0 {
					ks = ks[:r.n(len(ks))] // without the key that submits
				}
				keys = strings.Join(ks, "") + "\x03"
				typeKeys(r, &s, text, keys)
				break
			}
			typeKeys(r, &s, text, keys)
		}
	}
	s.Events = append(s.Events, SEvent{Trig: trTime, TA: 60 * sec, Act: acTTYInput, S: "\x03"}, SEvent{Trig: trTime, TA: 80 * sec, Act: acSignal, A: 15})
	c.Steps = []*Step{{Sim: s}}
	return c
}

// checkTerminal judges the state a terminal is left in.
func checkTerminal(id string, r *Result) *Violation {
	if r.first("exit") == nil {
		return nil
	}
	hung := r.first("tty-hangup") != nil
	if f := r.first("ttyfinal"); f != nil && !hung {
		if f.I(0) != 0x4500 || f.I(1) != 0x5 || f.I(3) != 0x8a3b {
			return viol(id+"/mode", "bab left the terminal in another mode: iflag %#x oflag %#x lflag %#x", f.I(0), f.I(1), f.I(3))
		}
	}
	if hung {
		return nil
	}
	on := map[string]bool{"25": true, "7": true}
	kitty, modify, region := 0, "", ""
	out := r.ttyOutput()
	for i := 0; i+2 < len(out); i++ {
		if out[i] != 0x1b || out[i+1] != '[' {
			continue
		}
		j := i + 2
		for j < len(out) && (out[j] < 0x40 || out[j] > 0x7e) {
			j++
		}
		if j == len(out) {
			break // a command's own
		}
		arg := out[i+2 : j]
		switch {
		case (out[j] == 'h' || out[j] == 'l') && strings.HasPrefix(arg, "?"):
			for _, n := range strings.Split(arg[1:], ";") {
				on[n] = out[j] == 'h'
			}
		case out[j] == 'u' && strings.HasPrefix(arg, ">"):
			kitty++
		case out[j] == 'u' && strings.HasPrefix(arg, "<"):
			kitty--
		case out[j] == 'u' && strings.HasPrefix(arg, "="):
			if v, _, _ := strings.Cut(arg[1:], ";"); v == "0" {
				kitty = 0
			} else {
				kitty = 1
			}
		case out[j] == 'm' && strings.HasPrefix(arg, ">4"):
			modify = arg
		case out[j] == 'r':
			region = arg
		}
		i = j
	}
	var left []string
	for _, n := range sortedKeys(on) {
		def := n == "25" || n == "7"
		if on[n] != def {
			left = append(left, "?"+n)
		}
	}
	if kitty > 0 {
		left = append(left, "keyboard protocol")
	}
	if modify != "" && modify != ">4" && modify != ">4;0" && modify != ">4m" {
		left = append(left, "modifyOtherKeys "+modify)
	}
	if region != "" && !strings.HasPrefix(region, "1;") {
		left = append(left, "scroll region "+region)
	}
	sort.Strings(left)
	if len(left) > 0 {
		return viol(id+"/display", "bab left the terminal's display modes changed: %s", strings.Join(left, ", "))
	}
	return nil
}

func init() {
	register(&Prop{ID: "C16", Quick: 12000, Thorough: 200000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project with 0-15 prompts of all types (defaults, limits, patterns, confirmation), a terminal of random type and size that may answer queries, a user who types a random but valid sequence of editing keys (refused entries included) in random chunks and at random delays or aborts with ctrl+c, and a seeded schedule.",
		Gen:  genPrompts,
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C16", rs); v != nil {
				return v
			}
			if rs[0].SimNow >= 55*sec {
				return viol("C16/stuck", "bab still waits although every prompt has been answered")
			}
			x, v := judge("C16", c, rs[0])
			if v == nil {
				v = x.checkContext("C16", c.Steps[0].Sim.Env)
			}
			if v == nil {
				v = checkTerminal("C16", rs[0])
			}
			if v == nil {
				v = checkSecret("C16", c, rs[0])
			}
			return v
		}})
}

var anyToken = regexp.MustCompile(`k[0-9]+z`)

// checkSecret looks for passwords on the screen while they are asked for, and in
// what bab says otherwise.
func checkSecret(id string, c *Case, r *Result) *Violation {
	for i, it := range promptsOf(c.Proj) {
		for k := range 2 {
			secret := c.S[fmt.Sprintf("secret%d.%d", i, k)]
			if len(secret) < 6 {
				continue
			}
			title := it.Msg
			if k == 1 {
				title = "Confirm " + it.Msg
			}
			for _, e := range r.Events {
				if e.Name != "ttyout" || e.I(0) != 4242 || has(c.Steps[0].Sim.Args, "-v") {
					continue
				}
				for _, l := range strings.Split(stripANSI(e.S(2)), "\n") {
					// the echo of a command that uses it shows it
					if strings.Contains(l, secret) && !anyToken.MatchString(l) {
						return viol(id+"/told", "bab tells the password %q: %q", secret, l)
					}
				}
			}
			v := newVT(c.Steps[0].Sim.Cols, c.Steps[0].Sim.Rows)
			raw, asked := false, false
			for j := range r.Events {
				e := &r.Events[j]
				switch e.Name {
				case "ttymode":
					raw = e.I(3)&1 == 0
					if !raw && asked {
						asked = false
						r.probe("passwords asked for", 1)
					}
				case "ttyecho":
					v.echo(e.S(0))
				case "ttyout":
					v.write(e.S(2), e.I(1) != 0)
					if !raw {
						continue
					}
					all := strings.Join(v.screen(), "\n")
					asked = asked || strings.Contains(all, title)
					if asked && strings.Contains(all, secret) {
						return viol(id+"/shown", "the password %q is on the screen while it is typed (event %d):\n%s", secret, e.Seq, all)
					}
				}
			}
		}
	}
	return nil
}
