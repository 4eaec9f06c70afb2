package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode"
)

// pickModel is what the picker has understood of the keys typed so far.
type pickModel struct {
	f       *Flat
	names   []string // all tasks in the order of their names
	q       []rune
	pos     int
	cur     int
	seen    map[string]map[int]string // per query: task at each position, where known
	ended   bool
	longest string          // the longest query so far
	narrow  int             // the fewest columns so far
	run     bool            // ended by enter
	match   map[string]bool // the tasks that match the query
}

func newPickModel(f *Flat) *pickModel {
	m := &pickModel{f: f, names: append([]string{}, f.Names...), seen: map[string]map[int]string{}}
	slices.Sort(m.names)
	m.changed()
	return m
}

// changed looks for the tasks that match the new query.
func (m *pickModel) changed() {
	m.cur = 0
	m.match = map[string]bool{}
	for _, n := range m.names {
		ok := subsequence(m.q, n)
		for _, a := range m.aliases(n) {
			ok = ok || subsequence(m.q, a)
		}
		if ok {
			m.match[n] = true
		}
	}
	m.order()
}

func (m *pickModel) aliases(n string) []string {
	ft := m.f.Tasks[n]
	var out []string
	for _, a := range ft.T.Aliases {
		out = append(out, ft.NS+a)
	}
	return out
}

// order is what is known of the positions of the matching tasks.
func (m *pickModel) order() map[int]string {
	q := string(m.q)
	if m.seen[q] == nil {
		k := map[int]string{}
		if q == "" {
			for i, n := range m.names {
				k[i] = n
			}
		}
		for n := range m.match {
			if len(m.match) == 1 || q != "" && has(m.aliases(n), q) {
				k[0] = n
			}
		}
		m.seen[q] = k
	}
	return m.seen[q]
}

func subsequence(q []rune, s string) bool {
	i := 0
	for _, c := range s {
		if i < len(q) && strings.EqualFold(string(c), string(q[i])) {
			i++
		}
	}
	return i == len(q)
}

func (m *pickModel) insert(s string) {
	for _, c := range s {
		switch {
		case c == '\r' || c == '\n' || c == '\t':
			c = ' '
		case unicode.IsControl(c):
			continue
		}
		if len(m.q) < 100 {
			m.q = slices.Insert(m.q, m.pos, c)
			m.pos++
		}
	}
}

func (m *pickModel) key(k string) {
	if m.ended {
		return
	}
	was := string(m.q)
	switch k {
	case "\r":
		m.ended, m.run = true, true
		return
	case "\x1b", "\x03":
		m.ended = true
		return
	case kUp, "\x10":
		m.cur = max(0, m.cur-1)
		return
	case kDown, "\x0e":
		m.cur = max(0, min(m.cur+1, len(m.match)-1))
		return
	case kLeft, "\x02":
		m.pos = max(0, m.pos-1)
	case kRight, "\x06":
		m.pos = min(len(m.q), m.pos+1)
	case "\x01", "\x1b[H":
		m.pos = 0
	case "\x05", "\x1b[F":
		m.pos = len(m.q)
	case "\x0b":
		m.q = m.q[:m.pos]
	case "\x15":
		m.q, m.pos = nil, 0
		m.changed()
		return
	case kBack, "\x08":
		if m.pos > 0 {
			m.q = slices.Delete(slices.Clone(m.q), m.pos-1, m.pos)
			m.pos--
		}
	case "\x1b[3~", "\x04":
		if m.pos < len(m.q) {
			m.q = slices.Delete(slices.Clone(m.q), m.pos, m.pos+1)
		}
	default:
		if p, ok := strings.CutPrefix(k, "\x1b[200~"); ok {
			m.insert(strings.TrimSuffix(p, "\x1b[201~"))
		} else if k[0] >= 0x20 && k[0] != 0x7f {
			m.insert(k)
		}
	}
	if string(m.q) != was {
		if len(m.q) > len(m.longest) {
			m.longest = string(m.q)
		}
		m.changed()
	}
}

// pickKeys divides what is typed into keys; what a terminal answers by itself is
// left out.
func pickKeys(s string) []string {
	var out []string
	for len(s) > 0 {
		n := 1
		switch {
		case strings.HasPrefix(s, "\x1b[200~"):
			if i := strings.Index(s, "\x1b[201~"); i >= 0 {
				n = i + 6
			} else {
				n = len(s)
			}
		case strings.HasPrefix(s, "\x1b]"):
			if i := strings.Index(s, "\x1b\\"); i >= 0 {
				n = i + 2
			} else {
				n = len(s)
			}
		case strings.HasPrefix(s, "\x1b[") && len(s) > 2:
			n = 3
			for n < len(s) && (s[n-1] < 0x40 || n == 2) {
				n++
			}
		case s[0] >= 0xc0:
			for n < len(s) && s[n]&0xc0 == 0x80 {
				n++
			}
		}
		k := s[:n]
		s = s[n:]
		if k[0] == 0x1b && len(k) > 2 && k[2] != '2' && !has([]string{kUp, kDown, kLeft, kRight, "\x1b[H", "\x1b[F", "\x1b[3~"}, k) {
			continue
		}
		out = append(out, k)
	}
	return out
}

// row is how a task is listed.
func (m *pickModel) row(n string, sel bool) string {
	s := "  "
	if sel {
		s = "│ "
	}
	s += n
	if a := m.aliases(n); len(a) > 0 {
		s += " (" + strings.Join(a, ", ") + ")"
	}
	if d := strings.Join(strings.Fields(m.f.Tasks[n].T.Desc), " "); d != "" {
		s += "  " + d
	}
	return s
}

// stands says whether a line of the screen shows row; spacing does not count, and
// what does not fit is cut off.
func stands(line, row string, cols int, dirty bool) bool {
	a, b := strings.Join(strings.Fields(line), " "), strings.Join(strings.Fields(row), " ")
	return a == b || textWidth(line) >= cols-2 && strings.HasPrefix(b, a) || dirty && strings.HasPrefix(a, b) || line == strings.TrimRight(cutWidth(row, cols), " ")
}

// look compares the screen with what has been typed, and says what is wrong.
func (m *pickModel) look(v *vt, cols, rows int, dirty bool) string {
	scr := v.screen()
	if !v.inAlt {
		return "the picker is not on the screen"
	}
	q := string(m.q)
	if textWidth(m.longest) < min(m.narrow, 54)-6 { // else the line may be scrolled
		if want := strings.TrimRight("> "+q, " "); scr[1] != want {
			return fmt.Sprintf("the input line is %q, want %q", scr[1], want)
		}
	}
	count := fmt.Sprintf(" %d/%d ", len(m.match), len(m.names))
	if len(count)+12 <= cols && !strings.Contains(scr[2], count) {
		return fmt.Sprintf("the separator %q does not tell %q", scr[2], count)
	}
	body := scr[3:]
	for len(body) > 0 && body[len(body)-1] == "" {
		body = body[:len(body)-1]
	}
	if len(m.match) == 0 {
		if len(body) != 1 && !dirty || !strings.HasPrefix(body[0], strings.TrimRight(cutWidth("  No matching tasks :(", cols), " ")) {
			return fmt.Sprintf("no task matches %q, but the list is\n%s", q, strings.Join(body, "\n"))
		}
		return ""
	}
	if n := min(len(m.match), rows-4); len(body) != n {
		return fmt.Sprintf("%d tasks are listed, want %d", len(body), n)
	}
	sel := -1
	for i, l := range body {
		if strings.HasPrefix(l, "│") {
			if sel >= 0 {
				return "two tasks are highlighted"
			}
			sel = i
		}
	}
	if sel < 0 {
		return "no task is highlighted"
	}
	known := m.order()
	for i, l := range body {
		at := m.cur + i - sel
		var fit []string
		for _, n := range m.names {
			if m.match[n] && stands(l, m.row(n, i == sel), cols, dirty) {
				fit = append(fit, n)
			}
		}
		if len(fit) == 0 {
			return fmt.Sprintf("the line %q stands for no task that matches %q", l, q)
		}
		if at < 0 || at >= len(m.match) {
			return fmt.Sprintf("position %d of %d is highlighted as number %d of the screen", m.cur+1, len(m.match), sel+1)
		}
		if w, ok := known[at]; ok && !has(fit, w) {
			return fmt.Sprintf("the task at position %d is %q, want %q", at+1, fit[0], w)
		}
		for p, w := range known {
			if p != at && len(fit) == 1 && w == fit[0] {
				return fmt.Sprintf("the task %q is listed at positions %d and %d", w, p+1, at+1)
			}
		}
		if len(fit) == 1 {
			known[at] = fit[0]
		}
	}
	return ""
}

func (m *pickModel) check(id string, c *Case, r *Result) *Violation {
	s := c.Steps[0].Sim
	v := newVT(s.Cols, s.Rows)
	cols, rows := s.Cols, s.Rows
	m.narrow = cols
	var last, rawT, endT int64
	raw, wasRaw, forced, dirty := false, false, false, false
	looks := 0
	for i := range r.Events {
		e := &r.Events[i]
		act := false
		switch e.Name {
		case "ttyin", "event", "sig", "sigself", "ttymode", "fault-fired":
			act = true
		}
		if act {
			if raw && e.T-last >= 250*msec && !m.ended && !forced && rows >= 5 && m.narrow >= 20 {
				if w := m.look(v, cols, rows, dirty); w != "" {
					return viol(id+"/screen", "at t=%dus (event %d), with %q typed, %s\nscreen:\n%s", last/1000, e.Seq, string(m.q), w, strings.Join(v.screen(), "\n"))
				}
				looks++
			}
			last = e.T
		}
		switch e.Name {
		case "ttyout":
			v.write(e.S(2), e.I(1) != 0)
		case "ttyecho":
			v.echo(e.S(0))
		case "ttymode":
			was := raw
			raw = e.I(3)&1 == 0
			wasRaw = wasRaw || raw
			if raw && !was {
				rawT = e.T
			}
		case "event":
			if e.I(0) == acResize {
				cols, rows = int(e.I(1)), int(e.I(2))
				v.resize(cols, rows)
				m.narrow = min(m.narrow, cols)
				dirty = true // the renderer may leave remains at the end of a line
			}
		case "sigself":
			if e.I(0) == 2 || e.I(0) == 15 {
				forced = true
			}
		case "ttyin":
			keys := pickKeys(e.S(0))
			if len(keys) == 0 || m.ended {
				continue
			}
			if !raw || e.T < rawT+20*msec {
				return nil // typed before the picker could read it
			}
			for _, k := range keys {
				m.key(k)
			}
			if m.ended {
				endT = e.T
			}
		}
	}
	for k, n := range v.unknown {
		return viol("sim/terminal", "the picker uses a sequence the terminal does not know: %q (%d times)", k, n)
	}
	r.probe("screens compared", looks)
	if forced || r.first("exit") == nil {
		return nil
	}
	if !wasRaw {
		return viol(id+"/no-picker", "started without a task on a terminal bab shows no picker; exit status %d, output %q", r.Exit, clip(r.ttyOutput(), 600))
	}
	if !m.ended {
		return viol(id+"/closed", "the picker closed by itself, exit status %d", r.Exit)
	}
	var could []string
	if m.run && len(m.match) > 0 {
		if n, ok := m.order()[m.cur]; ok {
			could = []string{n}
			r.probe("choices that were seen", 1)
		} else {
			// its place in the list was never seen
			could = sortedKeys(m.match)
			r.probe("choices among tasks whose order was not seen", 1)
		}
	} else {
		if e := r.first("spawn"); e != nil {
			return viol(id+"/unasked", "no task was chosen (query %q), but %q was run", string(m.q), e.S(2))
		}
		if r.Exit != 0 {
			return viol(id+"/status", "no task was chosen, exit status %d, want 0", r.Exit)
		}
		if e := r.first("exit"); !m.run && e.T-endT > 5*sec {
			return viol(id+"/stays", "the user left the picker at t=%dus, but bab ended only at t=%dus", endT/1000, e.T/1000)
		}
		r.probe("left without a choice", 1)
		return nil
	}
	if c.P["dry"] != 0 {
		if e := r.first("spawn"); e != nil {
			return viol(id+"/dry-run", "%q was run by a dry run", e.S(2))
		}
		return nil
	}
	var bad *Violation
	for _, n := range could {
		cc := *c
		cc.Root = n
		_, w := judge(id, &cc, r)
		if w == nil {
			return nil
		}
		if bad == nil {
			bad = w
			bad.Msg = fmt.Sprintf("with %q typed and position %d highlighted, enter runs %q: %s", string(m.q), m.cur+1, n, w.Msg)
		}
	}
	return bad
}

// genPicker is a user who looks for a task and runs it.
func genPicker(r *rng, th bool) *Case {
	o := baseOpts(r)
	o.Par, o.Prompts, o.Logs = 0, 0, 0
	o.Words = true
	o.MaxTasks = pickOf(r, []int{1, 4, 9, 30})
	o.MaxItems = r.in(1, 2)
	o.Includes = pickOf(r, []int{0, 30, 80})
	g := &gen{r: r, o: o}
	p := g.project()
	c := &Case{Proj: p, Root: "", S: map[string]string{"fixed": "1", "fixed-events": "1"}, P: map[string]int64{}}
	s := ttySim(r)
	if r.p(1, 12) {
		c.P["dry"] = 1
		s.Args = []string{"-n"}
	}
	var extra []SFile
	if r.p(1, 6) {
		// the file is named, and one that would be found lies nearer
		s.Args = append(s.Args, r.pick("-b", "--babfile"), projDir+"/"+c.babfile())
		s.Cwd = "/srv/data"
		for i, kv := range s.Env {
			if kv == "PWD="+projDir {
				s.Env[i] = "PWD=" + s.Cwd
			}
		}
		var b strings.Builder
		b.WriteString("tasks:\n")
		for i, t := range p.Tasks {
			fmt.Fprintf(&b, "  %s:\n    run:\n      - cmd: k%dz decoy\n", q(t.Name), 900+i)
		}
		extra = append(extra, SFile{Path: "/srv/data/Babfile", Kind: "f", Mode: 0o644, Content: BStr(b.String())})
	}
	if r.p(1, 4) {
		s.Rows = pickOf(r, []int{5, 6, 8, 10})
	}
	if r.p(1, 12) {
		s.Cols = r.in(1, 30)
	}
	f := p.flatten(projDir)
	at := int64(r.in(25, 400)) * msec
	ev := func(k string) {
		s.Events = append(s.Events, SEvent{Trig: trOutput, TS: "bab.sh", Delay: at, Act: acTTYInput, S: BStr(k)})
	}
	word := func() string {
		n := pickOf(r, f.Names)
		if ft := f.Tasks[n]; len(ft.T.Aliases) > 0 && r.p(1, 3) {
			n = ft.NS + r.pick(ft.T.Aliases...)
		}
		w := []rune(n)
		switch r.n(5) {
		case 0:
			return n
		case 1:
			return string(w[:r.in(1, len(w))])
		case 2:
			return strings.ToUpper(string(w[r.n(len(w)):]))
		}
		out := ""
		for _, c := range w {
			if r.p(1, 2) {
				out += string(c)
			}
		}
		return out
	}
	gap := pickOf(r, []int64{msec, 20 * msec, 120 * msec, 400 * msec})
	for k := r.n(10); k > 0; k-- {
		t := ""
		switch r.n(12) {
		case 0, 1, 2:
			t = strings.Repeat(r.pick(kDown, kDown, "\x0e", kUp, "\x10"), r.in(1, 6))
		case 3, 4, 5:
			t = word()
		case 6:
			t = r.pick("\x15", "\x01", "\x05", "\x0b", kLeft, kRight, "\x1b[3~", "\x1b[H", "\x1b[F", "\x02", "\x06", "\x04")
		case 7:
			t = strings.Repeat(kBack, r.in(1, 4))
		case 8:
			t = r.pick("q", "z", " ", "?", ":", "é", "\t", "\x1b[200~"+word()+"\x1b[201~", "\x1b[200~"+word()+"\n\x1b[201~")
		case 9:
			s.Events = append(s.Events, SEvent{Trig: trOutput, TS: "bab.sh", Delay: at, Act: acResize, A: int64(pickOf(r, []int{r.in(20, 140), r.in(20, 140), r.in(1, 30)})), B: int64(r.in(4, 40))})
		default:
			t = r.pick(kDown, kUp)
		}
		if t != "" {
			if r.p(1, 2) {
				ev(t)
			} else {
				for _, k := range pickKeys(t) {
					ev(k)
					at += gap
				}
			}
		}
		at += gap + pickOf(r, []int64{0, msec, 300 * msec})
	}
	if r.p(2, 3) {
		at += 300 * msec
	}
	ev(r.pick("\r", "\r", "\r", "\r", "\x1b", "\x03"))
	s.Events = append(s.Events, SEvent{Trig: trTime, TA: 60 * sec, Act: acTTYInput, S: "\x03"}, SEvent{Trig: trTime, TA: 80 * sec, Act: acSignal, A: 15})
	c.Steps = []*Step{{Sim: s, Extra: extra}}
	return c
}

func init() {
	register(&Prop{ID: "C17", Quick: 8000, Thorough: 150000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project (included files, aliases, descriptions of any form) started without a task in a terminal of random type and size that may answer queries and be resized, whose user searches, edits the search, moves the highlight and ends with enter, escape or ctrl+c, in chunks of any size and with any delays, and one seeded schedule.",
		Gen:  genPicker,
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C17", rs); v != nil {
				return v
			}
			return newPickModel(c.Proj.flatten(projDir)).check("C17", c, rs[0])
		}})
}
