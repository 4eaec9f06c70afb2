package main

import (
	"fmt"
	"strings"
)

// The live display of a parallel block, as the reference model sees it: what
// each item has said and done by an instant of the history.

type dStep struct {
	kind   string // text, cmd, block, inter, fail
	text   string // text; for cmd the echo, if any
	tok    string
	shown  bool
	block  *dBlock
	silent bool
}

// fails says that the step fails whatever the commands do.
func (s *dStep) fails() bool {
	if s.block != nil && len(s.block.toks) == 0 {
		for _, it := range s.block.items {
			for k := range it.steps {
				if it.steps[k].fails() {
					return true
				}
			}
		}
	}
	return s.kind == "fail"
}

type dItem struct {
	label string
	steps []dStep
	toks  []string
}

type dBlock struct {
	mode   string
	limit  int
	silent bool
	items  []*dItem
	toks   []string
	vague  bool // its display cannot be predicted in full
}

type dBuild struct {
	x     *Exec
	roots []*dBlock
	refs  map[string]int
	again int // tasks met that are referred to more than once
}

func (d *dBuild) silent(ft *FTask, it, ov *bool) bool {
	return d.x.F.flag(ft, it, ov, getSilent, ft.T.Silent, false)
}

// task lists what running a task puts on the display of the item it belongs to.
// Outside of a live display only the blocks that open one are collected.
func (d *dBuild) task(name string, ovS, ovO *bool, pre, inTUI, plain bool) []dStep {
	x := d.x
	ft := x.F.Tasks[name]
	if ft == nil || ft.T.When != nil && !ft.T.When.eval(x.F.vars(ft)) {
		return nil
	}
	if d.refs[name] > 1 {
		d.again++ // runs once, wherever it comes first
	}
	var out []dStep
	if !d.silent(ft, nil, ovS) {
		out = append(out, dStep{kind: "text", text: "▶ " + name + "\n"})
	}
	if !pre {
		for _, dep := range ft.Deps {
			out = append(out, d.task(dep, nil, nil, false, inTUI, plain)...)
		}
	}
	vars := x.F.vars(ft)
	executed, skipped := 0, 0
	for _, it := range ft.T.Run {
		if !onPlatform(it.Platforms) {
			continue
		}
		if it.When != nil && !it.When.eval(vars) {
			skipped++
			continue
		}
		executed++
		if it.Kind == kParallel {
			out = append(out, d.parallel(ft, it, vars, ovS, ovO, inTUI, plain)...)
		} else {
			out = append(out, d.item(ft, it, vars, ovS, ovO, false, inTUI, plain)...)
		}
	}
	if executed == 0 && skipped == 0 && len(ft.T.Run) > 0 {
		out = append(out, dStep{kind: "fail"})
	}
	return out
}

func (d *dBuild) item(ft *FTask, it *Item, vars map[string]string, ovS, ovO *bool, pre, inTUI, plain bool) []dStep {
	switch it.Kind {
	case kTask:
		return d.task(ft.NS+it.Task, first(it.Silent, ovS), first(it.Output, ovO), pre, inTUI, plain)
	case kLog:
		lv := it.Level
		if lv == "" {
			lv = "info"
		}
		return []dStep{{kind: "text", tok: it.Tok, text: strings.ToUpper(lv) + " " + interp(it.cmdText(), mapLook(vars)) + "\n"}}
	case kCmd:
		s := dStep{kind: "cmd", tok: it.Tok, shown: d.x.F.flag(ft, it.Output, ovO, getOutput, ft.T.Output, true)}
		if !d.silent(ft, it.Silent, ovS) {
			s.text = "$ " + interp(it.cmdText(), mapLook(vars)) + "\n"
		}
		return []dStep{s}
	}
	return nil
}

func (d *dBuild) parallel(ft *FTask, it *Item, vars map[string]string, ovS, ovO *bool, inTUI, plain bool) []dStep {
	x := d.x
	b := &dBlock{mode: it.Mode, limit: it.Limit}
	ovS, ovO = first(it.Silent, ovS), first(it.Output, ovO)
	b.silent = d.silent(ft, nil, ovS)
	var out []dStep
	again := d.again
	live := !plain && (it.Mode == "grouped" || it.Mode == "tabs")
	for _, c := range it.Items {
		if !x.applies(c, vars) {
			continue
		}
		if ct := x.F.Tasks[ft.NS+c.Task]; c.Kind == kTask && ct != nil && (ct.T.When == nil || ct.T.When.eval(x.F.vars(ct))) {
			for _, dep := range ct.Deps {
				out = append(out, d.task(dep, ovS, ovO, false, inTUI, plain)...)
			}
		}
	}
	if live && !inTUI {
		d.roots = append(d.roots, b)
	}
	for _, c := range it.Items {
		if !x.applies(c, vars) {
			continue
		}
		di := &dItem{label: c.label(ft.NS)}
		di.steps = d.item(ft, c, vars, ovS, ovO, true, live, plain || !live)
		for k, s := range di.steps {
			if s.kind == "inter" {
				b.vague = true
			}
			if s.fails() {
				di.steps = di.steps[:k+1]
				break
			}
			switch s.kind {
			case "cmd":
				di.toks = append(di.toks, s.tok)
			case "block":
				di.toks = append(di.toks, s.block.toks...)
				b.vague = b.vague || s.block.vague
			case "inter":
				di.toks = append(di.toks, s.block.toks...)
			}
		}
		if len(di.toks) == 0 && b.limit > 0 {
			b.vague = true // it may have had its turn already
		}
		b.toks = append(b.toks, di.toks...)
		b.items = append(b.items, di)
	}
	b.vague = b.vague || d.again > again
	if len(b.items) == 0 {
		if live && !inTUI {
			d.roots = d.roots[:len(d.roots)-1]
		}
		return nil
	}
	kind := "inter"
	if live {
		kind = "block"
	}
	return append(out, dStep{kind: kind, block: b})
}

type dState struct {
	lines        []string
	live         *dBlock
	started      bool
	done, failed bool
	partial      string
}

func (s *dState) emit(text string) {
	s.partial += text
	for {
		i := strings.IndexByte(s.partial, '\n')
		if i < 0 {
			return
		}
		s.lines = append(s.lines, displayLine(s.partial[:i]))
		s.partial = s.partial[i+1:]
	}
}

func displayLine(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0xfffd {
			return -1
		}
		return r
	}, shownLine(s))
}

func startedBy(h *History, toks []string, seq int64) bool {
	for _, t := range toks {
		if o := h.Cmd[t]; o != nil && o.Start != nil && o.Start.Seq < seq {
			return true
		}
	}
	return false
}

func activeAt(h *History, toks []string, seq int64) bool {
	for _, t := range toks {
		if o := h.Cmd[t]; o != nil && o.Start != nil && o.Start.Seq < seq && (o.End == nil || o.End.Seq >= seq) {
			return true
		}
	}
	return false
}

// state is what the item has come to before event seq.
func (di *dItem) state(h *History, seq int64) dState {
	var s dState
	if len(di.toks) > 0 && !startedBy(h, di.toks, seq) {
		return s
	}
	s.started = true
	end := func(failed bool) dState {
		s.done, s.failed = true, failed
		if s.partial != "" {
			s.emit("\n")
		}
		return s
	}
	for _, st := range di.steps {
		switch st.kind {
		case "text":
			s.emit(st.text)
		case "fail":
			return end(true)
		case "cmd":
			o := h.Cmd[st.tok]
			if o == nil || o.Start == nil || o.Start.Seq >= seq {
				return s
			}
			s.emit(st.text)
			if st.shown {
				for i := range h.R.Events {
					e := &h.R.Events[i]
					if e.Seq >= seq {
						break
					}
					if e.Name == "pout" && e.S(1) == st.tok {
						s.emit(e.S(3))
					}
				}
			}
			if o.End == nil || o.End.Seq >= seq {
				return s
			}
			if !o.ok() {
				return end(true)
			}
		case "block", "inter":
			if st.kind == "block" {
				s.lines = nil
			}
			if activeAt(h, st.block.toks, seq) {
				if st.kind == "block" {
					s.live = st.block
				}
				return s
			}
			failed := false
			for _, c := range st.block.items {
				cs := c.state(h, seq)
				if !cs.done {
					return s
				}
				failed = failed || cs.failed
			}
			if st.kind == "block" && !st.block.silent {
				s.emit(st.block.summary(h, seq) + "\n")
			}
			if failed {
				return end(true)
			}
		}
	}
	return end(false)
}

func (b *dBlock) summary(h *History, seq int64) string {
	var p []string
	for _, it := range b.items {
		s := it.state(h, seq)
		p = append(p, it.label+" "+s.icon())
	}
	return "● Parallel [" + strings.Join(p, "  ") + "]"
}

func (s dState) icon() string {
	switch {
	case s.done && s.failed:
		return "✗"
	case s.done:
		return "✓"
	case !s.started:
		return "∙"
	}
	return "◦"
}

// grouped is the frame of a block in grouped mode.
func (b *dBlock) grouped(h *History, seq int64, cols int) []string {
	var out []string
	add := func(s string) { out = append(out, strings.TrimRight(cutWidth(s, cols), " ")) }
	var kids func(b *dBlock, indent string)
	kids = func(b *dBlock, indent string) {
		for _, it := range b.items {
			s := it.state(h, seq)
			l := s.icon() + " " + it.label
			snip := ""
			for _, t := range tail(s.lines, 5) {
				if strings.TrimSpace(t) != "" {
					snip = t
				}
			}
			room := cols - textWidth(indent) - textWidth(l) - 2
			if snip != "" && room > 0 && !(s.done && !s.failed) && s.live == nil {
				if textWidth(snip) > room {
					snip = cutWidth(snip, room-1) + "…"
				}
				l += "  " + snip
			}
			add(indent + l)
			if s.live != nil {
				kids(s.live, indent+"  ")
			}
		}
	}
	for _, it := range b.items {
		s := it.state(h, seq)
		add("┌─ " + it.label + " " + s.icon())
		if s.live != nil {
			kids(s.live, "│  ")
		} else {
			ls := tail(s.lines, 5)
			for _, t := range ls {
				add("│  " + cutWidth(t, cols-3))
			}
			if n := len(ls); !s.done && n > 0 {
				for ; n < 5; n++ {
					add("│")
				}
			}
		}
		add("└")
	}
	return out
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// tabs is the screen of a block in tabs mode; a line that ends in \x00 stands
// for any that begins with it.
func (b *dBlock) tabs(h *History, seq int64, cols, rows, active int) (head string, body []string) {
	for _, it := range b.items {
		s := it.state(h, seq)
		head += "│ " + s.icon() + " " + it.label + " │"
	}
	head = strings.TrimRight(cutWidth(head, cols), " ")
	if active < 0 {
		return head, nil
	}
	w, hgt := max(1, cols-2), max(1, rows-4)
	s := b.items[active].state(h, seq)
	switch {
	case s.live != nil:
		for _, it := range s.live.items {
			cs := it.state(h, seq)
			l := cs.icon() + " " + it.label
			switch n := len(cs.lines); {
			case cs.done && cs.failed:
				l += "\x00"
			case n > 0 && cs.live == nil && strings.TrimSpace(cs.lines[n-1]) != "":
				l += "  " + cs.lines[n-1]
			}
			body = append(body, l)
		}
	case len(s.lines) == 0 && s.done:
		body = []string{"\x00"}
	case len(s.lines) == 0 && s.started:
		body = []string{"Running…"}
	case len(s.lines) == 0:
		body = []string{"Waiting…"}
	default:
		body = append(body, s.lines...)
	}
	body = tail(body, hgt)
	for i, l := range body {
		body[i] = strings.TrimRight(cutWidth(l, w), " ")
		if strings.HasSuffix(l, "\x00") && !strings.HasSuffix(body[i], "\x00") {
			body[i] += "\x00"
		}
	}
	for len(body) < hgt {
		body = append(body, "")
	}
	return head, body
}

// checkDisplay judges what the user saw at every moment at which nothing was
// going on, and what was left on the terminal in the end.
func (x *Exec) checkDisplay(id string, c *Case, r *Result) *Violation {
	h := x.H
	d := &dBuild{x: x, refs: x.refs(c.Root)}
	root := c.Root
	if a, ok := x.F.Aliases[root]; ok {
		root = a
	}
	steps := d.task(root, nil, nil, false, false, false)
	if d.again > 0 {
		r.probe("displays that cannot be predicted", 1)
		return nil
	}
	s := c.Steps[0].Sim
	v := newVT(s.Cols, s.Rows)
	cols, rows := s.Cols, s.Rows
	const quiet = 250 * msec
	var last, rawT int64
	raw, dirty, vagueTab, stopped, scrolled := false, false, false, false, false
	active := 0
	var cur *dBlock
	looks := 0
	for i := range r.Events {
		e := &r.Events[i]
		act := false
		switch e.Name {
		case "spawn", "procend", "pout", "pouterr", "ttyin", "event", "kill", "sig", "sigself", "procread", "fault-fired", "ttymode":
			act = true
		case "ttyout":
			act = e.I(0) != simPid
		}
		if act {
			if e.T-last >= quiet && !stopped {
				var b *dBlock
				for _, k := range d.roots {
					if activeAt(h, k.toks, e.Seq) {
						b = k
					}
				}
				if b != nil && !b.vague {
					tab := active
					if b != cur {
						tab = 0
					}
					if vagueTab || scrolled && b == cur {
						tab = -1
					}
					if w := look(v, b, h, e.Seq, cols, rows, tab, dirty); w != "" {
						return viol(id+"/display", "at t=%dus (event %d), %s\nscreen:\n%s", last/1000, e.Seq, w, strings.Join(v.screen(), "\n"))
					}
					looks++
				}
			}
			last = e.T
		}
		switch e.Name {
		case "spawn":
			for _, k := range d.roots {
				if k != cur && has(k.toks, e.S(1)) {
					cur, active, scrolled = k, 0, false
				}
			}
		case "ttyout":
			v.write(e.S(2), e.I(1) != 0)
		case "ttyecho":
			v.echo(e.S(0))
		case "ttymode":
			was := raw
			raw = e.I(3)&1 == 0
			if raw && !was {
				rawT = e.T
			}
		case "event":
			if e.I(0) == acResize {
				cols, rows = int(e.I(1)), int(e.I(2))
				dirty = dirty || !v.inAlt
				v.resize(cols, rows)
			}
		case "sigself":
			if e.I(0) == 2 || e.I(0) == 15 {
				stopped = true
			}
		case "ttyin":
			for _, k := range splitKeys(e.S(0)) {
				n := 0
				switch k {
				case "\t":
					n = 1
				case "\x1b[Z":
					n = -1
				case "\x03":
					stopped = true
				case kUp, kDown, "k", "u", "b":
					scrolled = true // until the user turns to another tab
				}
				if n == 0 {
					continue
				}
				scrolled = false
				if cur == nil || !raw || e.T < rawT+50*msec || !activeAt(h, cur.toks, e.Seq) {
					vagueTab = true
				} else if m := len(cur.items); m > 0 {
					active = (active + n + m) % m
				}
			}
		}
	}
	for k, n := range v.unknown {
		return viol("sim/terminal", "the display uses a sequence the terminal does not know: %q (%d times)", k, n)
	}
	r.probe("displays compared", looks)
	if dirty || r.first("exit") == nil {
		return nil
	}
	// what each block came to is told below its display
	var got []string
	for _, l := range v.transcript() {
		if strings.HasPrefix(l, "● Parallel [") {
			got = append(got, l)
		}
	}
	end := int64(1) << 60
	n := 0
	for _, b := range d.roots {
		if b.silent || !startedBy(h, b.toks, end) {
			if !b.silent && n < len(got) && got[n] == b.summary(h, end) {
				n++ // none of its items runs a command
			}
			continue
		}
		want := b.summary(h, end)
		if n >= len(got) {
			return viol(id+"/summary", "the summary %q is missing", want)
		}
		if w := x.summaryFits(b, got[n], stopped); w != "" {
			return viol(id+"/summary", "the summary is %q, but %s", got[n], w)
		}
		n++
	}
	if n < len(got) {
		return viol(id+"/summary", "the summary %q stands for no block that ran", got[n])
	}
	if stopped {
		return nil
	}
	// bab itself speaks again once a display is gone
	text := strings.Join(v.transcript(), "")
	rest := text
	find := func(s string) bool {
		i := strings.Index(rest, s)
		if i >= 0 {
			rest = rest[i+len(s):]
		}
		return i >= 0
	}
	if failed := x.spoken(steps, h, find, r); failed != "" {
		return viol(id+"/unsaid", "the line of the log item %q is missing below", failed)
	}
	if e := r.first("exit"); e.I(0) != 0 && !strings.Contains(text, "ERRO") {
		return viol(id+"/unsaid", "bab exits with status %d without a word", e.I(0))
	}
	return nil
}

// spoken looks for the log items that were reached outside of displays, in
// their order, and returns the first that is missing.
func (x *Exec) spoken(steps []dStep, h *History, find func(string) bool, r *Result) string {
	const end = int64(1) << 60
	for k := range steps {
		st := &steps[k]
		switch st.kind {
		case "fail":
			return ""
		case "text":
			if st.tok != "" && !strings.HasPrefix(st.text, "DEBUG") {
				r.probe("log lines between displays", 1)
				if !find(st.tok) {
					return st.tok
				}
			}
		case "cmd":
			if o := h.Cmd[st.tok]; o == nil || o.End == nil || !o.ok() {
				return ""
			}
		default:
			for _, it := range st.block.items {
				if s := it.state(h, end); !s.done || s.failed {
					return ""
				}
			}
		}
	}
	return ""
}

// summaryFits says what is wrong with the summary of a block, or "".
func (x *Exec) summaryFits(b *dBlock, got string, stopped bool) string {
	rest := strings.TrimPrefix(got, "● Parallel [")
	for i, it := range b.items {
		if i > 0 {
			if !strings.HasPrefix(rest, "  ") {
				return "items are missing"
			}
			rest = rest[2:]
		}
		r, ok := strings.CutPrefix(rest, it.label+" ")
		if !ok {
			return fmt.Sprintf("item %d is %q", i+1, it.label)
		}
		s := it.state(x.H, 1<<60)
		icon := ""
		for _, c := range []string{"✓", "✗", "⊘"} {
			if t, ok := strings.CutPrefix(r, c); ok {
				icon, r = c, t
			}
		}
		rest = r
		if icon == "" {
			return fmt.Sprintf("item %q has no result", it.label)
		}
		want := s.icon()
		switch {
		case s.done && !s.failed && icon != want && !stopped:
			return fmt.Sprintf("item %q succeeded", it.label)
		case s.done && s.failed && icon != want && !stopped:
			return fmt.Sprintf("item %q failed", it.label)
		case !s.done && !stopped && icon == "✓":
			return fmt.Sprintf("item %q was never finished", it.label)
		case stopped && icon == "✓" && (!s.done || s.failed):
			return fmt.Sprintf("item %q did not succeed", it.label)
		}
	}
	if rest != "]" {
		return "it has other items too"
	}
	return ""
}

// look compares the screen with the frame the block must show, and says what is
// different.
func look(v *vt, b *dBlock, h *History, seq int64, cols, rows, tab int, dirty bool) string {
	scr := v.screen()
	if b.mode == "tabs" {
		if !v.inAlt {
			return "the display of the block is not on the screen"
		}
		head, body := b.tabs(h, seq, cols, rows, tab)
		if scr[1] != head {
			return fmt.Sprintf("the tabs are\n%s, want\n%s", scr[1], head)
		}
		for i, w := range body {
			if 3+i >= len(scr)-1 {
				break
			}
			l := strings.TrimSuffix(strings.TrimPrefix(scr[3+i], "│"), "│")
			l = strings.TrimRight(l, " ")
			if p, ok := strings.CutSuffix(w, "\x00"); ok && strings.HasPrefix(l, p) {
				continue
			}
			if l != w {
				return fmt.Sprintf("line %d of the tab of item %q is\n%s, want\n%s", i+1, b.items[tab].label, l, w)
			}
		}
		return ""
	}
	if dirty {
		return ""
	}
	want := tail(b.grouped(h, seq, cols), rows)
	n := len(scr)
	for n > 0 && scr[n-1] == "" {
		n--
	}
	if n < len(want) {
		return "the display is incomplete, want\n" + strings.Join(want, "\n")
	}
	for i, w := range want {
		if l := scr[n-len(want)+i]; l != w {
			return fmt.Sprintf("line %d of the display is\n%s\nwant\n%s\nin\n%s", i+1, l, w, strings.Join(want, "\n"))
		}
	}
	return ""
}

// grow adds items to one of the project's blocks: more of them than one digit
// can number, or blocks within blocks within blocks.
func (g *gen) grow(p *Project) bool {
	r := g.r
	var in *Item
	p.walkItems(func(_ *MTask, it, _ *Item) {
		if it.Kind == kParallel && it.Mode != "interleaved" && (in == nil || r.p(1, 3)) {
			in = it
		}
	})
	if in == nil || len(p.Tasks) == 0 {
		return false
	}
	own := false // the block must be in the main file for what it refers to
	for _, t := range p.Tasks {
		for _, it := range t.Run {
			own = own || it == in
		}
	}
	if !own {
		return false
	}
	more := 0
	var tower func(depth int) *Item
	tower = func(depth int) *Item {
		more++
		t := &MTask{Name: fmt.Sprintf("more%d", more), Run: []*Item{{Kind: kParallel, Mode: in.Mode}}}
		p.Tasks = append(p.Tasks, t)
		b := t.Run[0]
		for k := r.in(1, 3); k > 0; k-- {
			b.Items = append(b.Items, g.cmd(gvars))
		}
		if depth > 1 {
			b.Items = append(b.Items, tower(depth-1))
			k := r.n(len(b.Items))
			b.Items[k], b.Items[len(b.Items)-1] = b.Items[len(b.Items)-1], b.Items[k]
		}
		if r.p(1, 2) {
			t.Run = append(t.Run, g.cmd(gvars))
		}
		return &Item{Kind: kTask, Task: t.Name}
	}
	if r.p(1, 2) {
		for len(in.Items) < r.in(11, 14) {
			in.Items = append(in.Items, g.cmd(gvars))
		}
		in.Items[pickOf(r, []int{1, 1, 1, 0, 2})] = tower(r.in(1, 2))
	} else {
		in.Items[r.n(len(in.Items))] = tower(r.in(3, 4))
	}
	return true
}

// genDisplay is a run whose live displays come to rest now and then.
func genDisplay(r *rng, th bool) *Case {
	o := parOpts(r)
	o.Lines = r.in(0, 8)
	o.Share, o.NoShare = 0, true
	o.Prompts, o.Dirs = 0, 0
	o.Deps = pickOf(r, []int{0, 20, 50})
	o.Fail = pickOf(r, []int{0, 0, 10, 30})
	o.Limit = pickOf(r, []int{0, 50, 90})
	o.MaxItems = r.in(1, 4)
	o.TaskRef = r.in(10, 60)
	o.Long, o.Odd = pickOf(r, []int{0, 10, 40}), pickOf(r, []int{0, 10, 40})
	o.Sleep, o.Whole = 100, true
	o.Modes = []string{"grouped", "tabs"}
	if r.p(1, 6) {
		o.Modes = append(o.Modes, "interleaved")
	}
	g := &gen{r: r, o: o}
	p := g.project()
	tall := r.p(1, 4) && g.grow(p)
	endLines(p)
	p.walkItems(func(_ *MTask, it, _ *Item) {
		for i := range it.Ops {
			it.Ops[i].S = BStr(strings.ReplaceAll(string(it.Ops[i].S), "\t", " "))
			if it.Ops[i].Op == "s" {
				it.Ops[i].A = it.Ops[i].A*pickOf(r, []int64{20, 60}) + int64(r.n(300))*msec
			}
		}
	})
	c := &Case{Proj: p, Root: p.Tasks[0].Name, S: map[string]string{"fixed-events": "1"}, P: map[string]int64{}}
	s := ttySim(r, c.Root)
	if len(p.Includes) == 0 && r.p(1, 8) {
		throughPicker(r, c, &s)
	} else {
		redirected(r, &s)
	}
	if tall {
		s.Rows = r.in(50, 100)
	}
	if r.p(1, 6) {
		s.Rows = pickOf(r, []int{s.Rows, r.in(8, 12)})
		for k := r.in(1, 4); k > 0; k-- {
			s.Events = append(s.Events, SEvent{Trig: trTime, TA: int64(r.in(500, 6000)) * msec, Act: acTTYInput, S: BStr(r.pick(kUp, "k", "u", "b", kDown, "\t"))})
		}
	}
	if r.p(1, 2) {
		for k := r.n(6); k > 0; k-- {
			s.Events = append(s.Events, SEvent{Trig: trTime, TA: int64(r.in(500, 6000)) * msec, Act: acTTYInput, S: BStr(r.pick("\t", "\t", "\x1b[Z", "\t\t"))})
		}
	}
	if r.p(1, 4) {
		s.Events = append(s.Events, SEvent{Trig: trTime, TA: int64(r.in(300, 6000)) * msec, Act: acResize, A: int64(r.in(30, 140)), B: int64(r.in(8, 50))})
	}
	if r.p(1, 6) {
		s.Events = append(s.Events, SEvent{Trig: trTime, TA: int64(r.in(300, 6000)) * msec, Act: acTTYInput, S: "\x03"})
	}
	c.Steps = []*Step{{Sim: s}}
	return c
}

func init() {
	register(&Prop{ID: "C07", Quick: 8000, Thorough: 150000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project with parallel blocks in grouped and tabs mode, nested through tasks, run in a terminal of random type and size that may answer queries and be resized, whose user changes tabs and may press ctrl+c, with commands that pause between writes, and one seeded schedule.",
		Gen:  genDisplay,
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C07", rs); v != nil {
				return v
			}
			r := rs[0]
			h := newHistory(r, c.Proj)
			x := newExec(c.Proj, h, baseDirSet())
			x.run(c.Root)
			return x.checkDisplay("C07", c, r)
		}})
}
