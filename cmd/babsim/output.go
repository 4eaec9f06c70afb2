package main

import (
	"fmt"
	"regexp"
	"strings"
)

// RCtx is one way in which a command can be reached: the labels of the parallel
// items around it and the overrides that are in force there. A task that
// several items need runs once, under whichever of them comes first, so a
// command may have several.
type RCtx struct {
	Chain   []string
	ovS     *bool
	ovO     *bool
	NoColor bool
	Loose   bool // escape sequences need not be removed: runs before the block's items
}

func (c RCtx) key() string {
	f := func(b *bool) string {
		if b == nil {
			return "-"
		}
		return fmt.Sprint(*b)
	}
	return strings.Join(c.Chain, "\x00") + "|" + f(c.ovS) + f(c.ovO) + fmt.Sprint(c.NoColor, c.Loose)
}

// Reach is a command in one such context.
type Reach struct {
	Chain   []string
	Shown   bool
	Silent  bool
	NoColor bool
	Loose   bool // escape sequences need not be removed: runs before the block's items
	FT      *FTask
}

func (it *Item) label(ns string) string {
	if it.Label != "" {
		return it.Label
	}
	s := it.cmdText()
	if it.Kind == kTask {
		return ns + it.Task
	}
	r := []rune(s)
	if len(r) > 20 {
		r = r[:20]
	}
	return string(r)
}

func first(bs ...*bool) *bool {
	for _, b := range bs {
		if b != nil {
			return b
		}
	}
	return nil
}

func getSilent(p *Project) *bool { return p.Silent }
func getOutput(p *Project) *bool { return p.Output }

// reaches lists, per command or log item, every context it can be reached in.
func (x *Exec) reaches(root string) (items map[*Item][]Reach, tasks map[string][]Reach) {
	items = map[*Item][]Reach{}
	tasks = map[string][]Reach{}
	seen := map[string]bool{}
	var visit func(name string, c RCtx)
	visit = func(name string, c RCtx) {
		k := name + "\x01" + c.key()
		ft := x.F.Tasks[name]
		if seen[k] || ft == nil {
			return
		}
		seen[k] = true
		tasks[name] = append(tasks[name], Reach{Chain: c.Chain, NoColor: c.NoColor, Loose: c.Loose, FT: ft,
			Silent: x.F.flag(ft, nil, c.ovS, getSilent, ft.T.Silent, false)})
		for _, d := range ft.Deps {
			visit(d, RCtx{Chain: c.Chain, NoColor: c.NoColor, Loose: c.Loose})
		}
		var one func(it *Item, c RCtx)
		one = func(it *Item, c RCtx) {
			switch it.Kind {
			case kTask:
				c.ovS, c.ovO = first(it.Silent, c.ovS), first(it.Output, c.ovO)
				visit(ft.NS+it.Task, c)
			case kParallel:
				c.ovS, c.ovO = first(it.Silent, c.ovS), first(it.Output, c.ovO)
				outer := c.NoColor
				c.NoColor = c.NoColor || it.Color != nil && !*it.Color
				for _, ch := range it.Items {
					if ch.Kind == kTask {
						if ct := x.F.Tasks[ft.NS+ch.Task]; ct != nil {
							for _, d := range ct.Deps {
								cd := c // resolved before the items start
								cd.Loose = c.Loose || c.NoColor && !outer
								visit(d, cd)
							}
						}
					}
					cc := c
					cc.Loose = false
					cc.Chain = append(append([]string{}, c.Chain...), ch.label(ft.NS))
					one(ch, cc)
				}
			case kCmd, kLog:
				items[it] = append(items[it], Reach{Chain: c.Chain, NoColor: c.NoColor, Loose: c.Loose, FT: ft,
					Shown:  x.F.flag(ft, it.Output, c.ovO, getOutput, ft.T.Output, true),
					Silent: x.F.flag(ft, it.Silent, c.ovS, getSilent, ft.T.Silent, false)})
			}
		}
		for _, it := range ft.T.Run {
			one(it, c)
		}
	}
	if a, ok := x.F.Aliases[root]; ok {
		root = a
	}
	visit(root, RCtx{})
	return items, tasks
}

// oline is one line bab itself wrote.
type oline struct {
	chain []string
	text  string // without escape sequences
	raw   string
	used  bool
}

// splitPrefix takes the "[label] " prefixes off a line, as many as known labels
// allow.
func splitPrefix(s string, labels map[string]bool) (chain []string, rest string) {
	for strings.HasPrefix(s, "[") {
		found := false
		for i := 1; i < len(s); i++ {
			if strings.HasPrefix(s[i:], "] ") {
				l := strings.TrimRight(s[1:i], " ")
				if labels[l] {
					chain = append(chain, l)
					s = s[i+2:]
					found = true
				}
				break
			}
		}
		if !found {
			break
		}
	}
	return chain, s
}

// babLines is the text bab wrote to one of its outputs, by lines.
func babLines(r *Result, label string, labels map[string]bool) (lines []*oline, unfinished string) {
	var b strings.Builder
	for i := range r.Events {
		e := &r.Events[i]
		if e.Name == "out" && e.S(0) == label && e.I(1) == simPid {
			b.WriteString(e.S(2))
		}
	}
	s := b.String()
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return lines, s
		}
		raw := s[:i]
		s = s[i+1:]
		c, t := splitPrefix(plainText(raw), labels)
		lines = append(lines, &oline{chain: c, text: t, raw: raw})
	}
}

// shownLine is how one line of a command's output is to appear.
func shownLine(s string) string {
	s = strings.TrimRight(s, "\r")
	if i := strings.LastIndexByte(s, '\r'); i >= 0 {
		s = s[i+1:]
	}
	return plainText(s)
}

// plainText is s without escape sequences and control characters.
func plainText(s string) string {
	s = stripANSI(s)
	ctl := func(r rune) bool { return r < 0x20 && r != '\t' }
	if !strings.ContainsFunc(s, ctl) {
		return s
	}
	return strings.Map(func(r rune) rune {
		if ctl(r) {
			return -1
		}
		return r
	}, s)
}

// written is what a command wrote to one of its descriptors, by lines.
func written(r *Result, tok string, fd int) []string {
	var b strings.Builder
	for i := range r.Events {
		e := &r.Events[i]
		if e.Name == "pout" && (e.S(1) == tok || e.S(1) == tok+"b") && e.I(2) == int64(fd) {
			b.WriteString(e.S(3))
		}
	}
	if b.Len() == 0 {
		return nil
	}
	s := b.String()
	var out []string
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			if s != "" {
				out = append(out, shownLine(s))
			}
			return out
		}
		out = append(out, shownLine(s[:i]))
		s = s[i+1:]
	}
}

var lineMark = regexp.MustCompile(`k[0-9]+z\.[12]\.[0-9]+`)

func sameChain(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

// checkOutput judges everything bab relayed: each line of each piped command
// once, whole, in order, under its own labels, on its own stream.
func (x *Exec) checkOutput(class, root string) *Violation {
	r := x.H.R
	reach, tasks := x.reaches(root)
	labels := map[string]bool{}
	byTok := map[string]*Item{}
	for it, rs := range reach {
		byTok[it.Tok] = it
		for _, q := range rs {
			for _, l := range q.Chain {
				labels[strings.TrimRight(l, " ")] = true
			}
		}
	}
	norm := func(c []string) []string {
		var o []string
		for _, l := range c {
			o = append(o, strings.TrimRight(l, " "))
		}
		return o
	}
	outs := map[int][]*oline{}
	blanks := map[string]int{}
	mayBlank := map[string]bool{}
	for fd, name := range map[int]string{1: "stdout", 2: "stderr"} {
		ls, rest := babLines(r, name, labels)
		if rest != "" && lineMark.MatchString(rest) {
			return viol(class+"/unterminated", "the last line on %s is not ended: %q", name, rest)
		}
		outs[fd] = ls
	}
	for _, tok := range sortedKeys(byTok) {
		it := byTok[tok]
		o := x.H.Cmd[tok]
		if it.Kind != kCmd || o == nil || o.Start == nil {
			continue
		}
		desc := strings.Split(o.Start.S(5), ",")
		for len(desc) < 3 {
			desc = append(desc, "")
		}
		var found map[int][]*oline
		found = map[int][]*oline{}
		for fd := 1; fd <= 2; fd++ {
			for _, l := range outs[fd] {
				if strings.HasPrefix(l.text, tok+".") {
					found[fd] = append(found[fd], l)
				}
			}
		}
		// one of the contexts has to explain everything about the command
		var why []string
		okc := false
		for _, q := range reach[it] {
			w := x.explains(q, o, desc, found, outs[2])
			if w == "" {
				okc = true
				break
			}
			why = append(why, fmt.Sprintf("as part of %q (shown %v, silent %v): %s", q.Chain, q.Shown, q.Silent, w))
		}
		if !okc {
			return viol(class+"/output", "command %s (descriptors %v): %s", tok, desc, strings.Join(why, "; "))
		}
		for fd := 1; fd <= 2; fd++ {
			for _, l := range found[fd] {
				l.used = true
			}
			if strings.HasPrefix(desc[fd], "pipe") {
				for _, s := range written(r, tok, fd) {
					if !strings.HasPrefix(s, tok+".") {
						for _, q := range reach[it] {
							k := fmt.Sprintf("%d %q %q", fd, norm(q.Chain), s)
							if len(reach[it]) > 1 || !q.Shown {
								mayBlank[k] = true
							} else {
								blanks[k]++
							}
						}
					}
				}
			}
		}
	}
	logs := func(l string) bool {
		for _, t := range anyToken.FindAllString(l, -1) {
			if it := byTok[t]; it != nil && it.Kind == kLog {
				return true
			}
		}
		return false
	}
	for fd := 1; fd <= 2; fd++ {
		got := map[string]int{}
		for _, l := range outs[fd] {
			if l.used {
				continue
			}
			k := fmt.Sprintf("%d %q %q", fd, l.chain, l.text)
			if _, ok := blanks[k]; ok || mayBlank[k] {
				got[k]++
				continue
			}
			if lineMark.MatchString(l.text) && !strings.HasPrefix(l.text, "$ ") && !strings.Contains(l.text, "ERRO") {
				return viol(class+"/stray", "line %q on descriptor %d is not what any command wrote", l.raw, fd)
			}
			if fd == 1 && strings.TrimSpace(l.text) != "" && !logs(l.text) {
				return viol(class+"/stray", "line %q on stdout is not what any command wrote", l.raw)
			}
			if strings.TrimSpace(l.text) == "" && len(l.chain) > 0 {
				got[k]++
			}
		}
		for k := range got {
			if _, ok := blanks[k]; !ok && !mayBlank[k] {
				return viol(class+"/blank", "lines %s that no command wrote", k)
			}
		}
		for _, k := range sortedKeys(blanks) {
			if !mayBlank[k] && strings.HasPrefix(k, fmt.Sprint(fd)) && got[k] != blanks[k] {
				return viol(class+"/blank", "%d lines %s, want %d", got[k], k, blanks[k])
			}
		}
	}
	// each started task announces itself once unless it is silent
	_ = tasks
	return nil
}

// explains says why the history of a command does not fit a context, or "".
func (x *Exec) explains(q Reach, o *Obs, desc []string, found map[int][]*oline, errl []*oline) string {
	var chain []string
	for _, l := range q.Chain {
		chain = append(chain, strings.TrimRight(l, " "))
	}
	piped := len(q.Chain) > 0
	for fd := 1; fd <= 2; fd++ {
		name := []string{"", "stdout", "stderr"}[fd]
		if !piped && q.Shown {
			if desc[fd] != "sink:"+name {
				return fmt.Sprintf("descriptor %d is %s, not bab's own", fd, desc[fd])
			}
			if len(found[fd]) > 0 {
				return "bab relayed output of a command that has bab's own descriptor"
			}
			continue
		}
		if strings.HasPrefix(desc[fd], "sink") {
			return fmt.Sprintf("descriptor %d is bab's own", fd)
		}
		if !q.Shown {
			if len(found[fd]) > 0 {
				return fmt.Sprintf("hidden output was shown: %q", found[fd][0].raw)
			}
			continue
		}
		var want []string
		for _, s := range written(x.H.R, o.Tok, fd) {
			if strings.HasPrefix(s, o.Tok+".") {
				want = append(want, s)
			}
		}
		for i, l := range found[fd] {
			if i >= len(want) {
				return fmt.Sprintf("extra line %q on %s", l.raw, name)
			}
			if l.text != want[i] {
				return fmt.Sprintf("line %d on %s is %q, want %q", i+1, name, l.text, want[i])
			}
			if !sameChain(l.chain, chain) {
				return fmt.Sprintf("line %q on %s is labelled %q, want %q", l.raw, name, l.chain, chain)
			}
		}
		if len(found[fd]) < len(want) {
			return fmt.Sprintf("line %q on %s is missing (%d of %d lines there)", want[len(found[fd])], name, len(found[fd]), len(want))
		}
	}
	// the echo of the command itself
	c := x.Ctx[o.Tok]
	if c == nil {
		return ""
	}
	n := 0
	for _, l := range errl {
		if l.text == "$ "+c.Text {
			n++
			if !sameChain(l.chain, chain) {
				return fmt.Sprintf("the echo %q is labelled %q, want %q", l.raw, l.chain, chain)
			}
		}
	}
	want := 1
	if q.Silent {
		want = 0
	}
	if n != want {
		return fmt.Sprintf("the command was echoed %d times, want %d", n, want)
	}
	// colour settings of relayed commands
	env := map[string]string{}
	for _, kv := range strings.Split(o.Start.S(4), "\x00") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			env[k] = v
		}
	}
	_, own1 := x.Ctx[o.Tok].Env["NO_COLOR"]
	_, own2 := x.Ctx[o.Tok].Env["FORCE_COLOR"]
	_, own3 := x.Ctx[o.Tok].Env["TERM"]
	if piped && q.Shown && !own1 && !own2 && !own3 {
		if q.NoColor && (env["NO_COLOR"] != "1" || env["TERM"] != "dumb") || !q.NoColor && env["FORCE_COLOR"] != "1" {
			return fmt.Sprintf("colour settings do not fit (no colour %v): NO_COLOR=%q TERM=%q FORCE_COLOR=%q", q.NoColor, env["NO_COLOR"], env["TERM"], env["FORCE_COLOR"])
		}
		if q.NoColor && !q.Loose {
			for fd := 1; fd <= 2; fd++ {
				for _, l := range found[fd] {
					if i := strings.Index(l.raw, o.Tok+"."); i >= 0 && strings.Contains(l.raw[i:], "\x1b") {
						return fmt.Sprintf("escape sequences are left in %q although colours are off", l.raw)
					}
				}
			}
		}
	}
	return ""
}
