package main

import (
	"encoding/json"
	"fmt"
	"time"
)

// violates runs the case and returns its violation when it is of the class.
func (e *engine) violates(w *worker, c *Case, class string) (*Violation, []*Result) {
	rs, err := c.run(w)
	if err != nil {
		return nil, nil
	}
	v := e.prop.Check(c, rs)
	if v != nil && v.Class == class && e.matchKnown(v) == nil {
		return v, rs
	}
	return nil, rs
}

// tries looks for a schedule under which the reduced case still fails.
func (e *engine) tries(w *worker, c *Case, class string, n int, until time.Time) *Violation {
	if v, _ := e.violates(w, c, class); v != nil {
		return v
	}
	r := newRng(hashStr(class) ^ uint64(c.Index))
	for k := 0; k < n && time.Now().Before(until); k++ {
		old := make([]Sched, len(c.Steps))
		for i, s := range c.Steps {
			old[i] = s.Sim.Sched
			if k == 0 {
				s.Sim.Sched = Sched{Policy: 3}
			} else {
				s.Sim.Sched = newSched(r)
			}
		}
		if v, _ := e.violates(w, c, class); v != nil {
			return v
		}
		for i, s := range c.Steps {
			s.Sim.Sched = old[i]
		}
	}
	return nil
}

// minimise reduces the case while a violation of the same class remains, then
// fixes the schedule and reduces that.
func (e *engine) minimise(w *worker, c *Case, v *Violation) (*Case, *Violation, error) {
	until := time.Now().Add(60 * time.Second)
	class := v.Class
	cur := clone(c)
	if v2, rs := e.violates(w, cur, class); v2 == nil {
		msg := "nothing"
		if len(rs) > 0 {
			if x := e.prop.Check(cur, rs); x != nil {
				msg = x.Class + ": " + x.Msg
			}
		}
		return nil, nil, fmt.Errorf("case %d does not fail again: first %s: %s, then %s", c.Index, v.Class, v.Msg, msg)
	}
	for changed := true; changed && time.Now().Before(until); {
		changed = false
		n := countReductions(cur)
		for k := 0; k < n && time.Now().Before(until); k++ {
			cand := clone(cur)
			if !reduce(cand, k) {
				continue
			}
			if x := e.tries(w, cand, class, 12, until); x != nil {
				cur, changed = cand, true
				n = countReductions(cur)
				k--
			}
		}
	}
	// pin the schedule
	until = time.Now().Add(40 * time.Second)
	vv, rs := e.violates(w, cur, class)
	if vv == nil {
		return nil, nil, fmt.Errorf("the reduced case does not fail again")
	}
	pinned := clone(cur)
	for i := range pinned.Steps {
		pinned.Steps[i].Sim.Sched.Dev = rs[i].Dev
		pinned.Steps[i].Sim.Sched.Policy = 0
	}
	if x, _ := e.violates(w, pinned, class); x != nil {
		cur = pinned
		vv = x
		for i := range cur.Steps {
			cur = e.ddmin(w, cur, i, class, until)
		}
	}
	vv, rs = e.violates(w, cur, class)
	if vv == nil {
		return nil, nil, fmt.Errorf("the reduced schedule does not fail again")
	}
	cur.Trace = nil
	for _, r := range rs {
		cur.Trace = append(cur.Trace, fmt.Sprintf("%016x", r.traceHash()))
	}
	cur.Class, cur.Msg = vv.Class, vv.Msg
	return cur, vv, nil
}

func (e *engine) ddmin(w *worker, c *Case, step int, class string, until time.Time) *Case {
	dev := c.Steps[step].Sim.Sched.Dev
	n := len(dev) / 2
	chunk := (n + 1) / 2
	for chunk >= 1 && time.Now().Before(until) {
		removed := false
		for at := 0; at < len(dev)/2 && time.Now().Before(until); {
			end := min(at+chunk, len(dev)/2)
			nd := append(append([]uint64{}, dev[:at*2]...), dev[end*2:]...)
			cand := clone(c)
			cand.Steps[step].Sim.Sched.Dev = nd
			if v, _ := e.violates(w, cand, class); v != nil {
				dev = nd
				c = cand
				removed = true
			} else {
				at = end
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk = (chunk + 1) / 2
		}
	}
	return c
}

// reductions -------------------------------------------------------------------

// reduce applies the k-th reduction; false means there is none at k.
func reduce(c *Case, k int) bool {
	n := 0
	did := false
	visit(c, func(apply func()) {
		if n == k {
			apply()
			did = true
		}
		n++
	})
	return did
}

func countReductions(c *Case) int {
	n := 0
	visit(clone(c), func(func()) { n++ })
	return n
}

func del[T any](s *[]T, i int) func() {
	return func() { *s = append(append([]T{}, (*s)[:i]...), (*s)[i+1:]...) }
}

// visit offers every single-step reduction of the case. apply functions change
// the case in place; only one is applied per visit.
func visit(c *Case, offer func(apply func())) {
	if len(c.Steps) > 1 {
		for i := range c.Steps {
			offer(del(&c.Steps, i))
		}
	}
	if c.Proj != nil && c.S["fixed"] == "" {
		visitProject(c, c.Proj, true, offer)
	}
	for _, s := range c.Steps {
		m := &s.Sim
		for i := range m.Faults {
			offer(del(&m.Faults, i))
		}
		if c.S["fixed-events"] == "" {
			for i := range m.Events {
				offer(del(&m.Events, i))
			}
		}
		if m.LatP != 0 {
			offer(func() { m.LatP, m.LatMax = 0, 0 })
		}
		if m.ReadMode != 0 {
			offer(func() { m.ReadMode = 0 })
		}
		if m.PipeCap != 65536 {
			offer(func() { m.PipeCap = 65536 })
		}
		for i := range m.Faults {
			if m.Faults[i].Nth > 0 {
				offer(func() { m.Faults[i].Nth /= 2 })
				offer(func() { m.Faults[i].Nth-- })
			}
			if m.Faults[i].Count > 1 {
				offer(func() { m.Faults[i].Count = 1 })
			}
		}
		for i := range m.Net {
			for j := range m.Net[i].Chunks {
				if len(m.Net[i].Chunks) > 1 {
					offer(del(&m.Net[i].Chunks, j))
				}
			}
		}
	}
}

func visitProject(c *Case, p *Project, root bool, offer func(apply func())) {
	for i, t := range p.Tasks {
		if root && t.Name == c.Root {
			continue
		}
		if len(p.Tasks) > 1 {
			offer(func() {
				name := t.Name
				del(&p.Tasks, i)()
				dropRefs(p, name)
			})
		}
	}
	for i, in := range p.Includes {
		offer(func() {
			ns := in.NS
			del(&p.Includes, i)()
			dropNS(p, ns+":")
		})
		if !in.Shared {
			visitProject(c, in.P, false, offer)
		}
	}
	if p.Silent != nil {
		offer(func() { p.Silent = nil })
	}
	if p.Output != nil {
		offer(func() { p.Output = nil })
	}
	if p.Dir != "" {
		offer(func() { p.Dir = "" })
	}
	if len(p.Env) > 0 {
		offer(func() { p.Env = nil })
	}
	for _, t := range p.Tasks {
		for i := range t.Run {
			offer(del(&t.Run, i))
		}
		for i := range t.Deps {
			offer(del(&t.Deps, i))
		}
		if len(t.Aliases) > 0 {
			offer(func() { t.Aliases = nil })
		}
		if len(t.Env) > 0 {
			offer(func() { t.Env = nil })
		}
		if t.Silent != nil {
			offer(func() { t.Silent = nil })
		}
		if t.Output != nil {
			offer(func() { t.Output = nil })
		}
		if t.Dir != "" {
			offer(func() { t.Dir = "" })
		}
		if t.When != nil {
			offer(func() { t.When = nil })
		}
		visitItems(&t.Run, offer)
	}
}

func visitItems(items *[]*Item, offer func(apply func())) {
	for i, it := range *items {
		if it.Kind == kParallel {
			for j := range it.Items {
				if len(it.Items) > 1 {
					offer(del(&it.Items, j))
				}
			}
			if len(it.Items) == 1 {
				offer(func() { (*items)[i] = it.Items[0]; it.Items[0].Label = "" })
			}
			visitItems(&it.Items, offer)
		}
		if it.When != nil {
			offer(func() { it.When = nil })
		}
		if len(it.Platforms) > 0 {
			offer(func() { it.Platforms = nil })
		}
		if len(it.Env) > 0 {
			offer(func() { it.Env = nil })
		}
		if it.Dir != "" {
			offer(func() { it.Dir = "" })
		}
		if it.Silent != nil {
			offer(func() { it.Silent = nil })
		}
		if it.Output != nil {
			offer(func() { it.Output = nil })
		}
		if it.Label != "" {
			offer(func() { it.Label = "" })
		}
		if it.Limit != 0 {
			offer(func() { it.Limit = 0 })
		}
		if it.Color != nil {
			offer(func() { it.Color = nil })
		}
		if it.Kind == kCmd && it.Text != "" {
			offer(func() { it.Text = "" })
		}
		for j := range it.Ops {
			offer(del(&it.Ops, j))
		}
	}
}

func dropRefs(p *Project, name string) { dropIf(p, func(s string) bool { return s == name }) }
func dropNS(p *Project, ns string) {
	dropIf(p, func(s string) bool { return len(s) > len(ns) && s[:len(ns)] == ns })
}

func dropIf(p *Project, gone func(string) bool) {
	for _, t := range p.Tasks {
		var d []string
		for _, x := range t.Deps {
			if !gone(x) {
				d = append(d, x)
			}
		}
		t.Deps = d
		var rec func(items []*Item) []*Item
		rec = func(items []*Item) []*Item {
			var out []*Item
			for _, it := range items {
				if it.Kind == kTask && gone(it.Task) {
					continue
				}
				if it.Kind == kParallel {
					it.Items = rec(it.Items)
					if len(it.Items) == 0 {
						continue
					}
				}
				out = append(out, it)
			}
			return out
		}
		t.Run = rec(t.Run)
	}
}

// replay runs a saved case again and says whether it fails the same way.
func (e *engine) replay(file []byte) (*Case, *Violation, []*Result, bool, error) {
	var c Case
	if err := json.Unmarshal(file, &c); err != nil {
		return nil, nil, nil, false, err
	}
	w, err := newWorker(e.bin)
	if err != nil {
		return nil, nil, nil, false, err
	}
	defer w.close()
	rs, err := c.run(w)
	if err != nil {
		return &c, nil, rs, false, err
	}
	same := len(rs) == len(c.Trace)
	for i := range c.Trace {
		if same && fmt.Sprintf("%016x", rs[i].traceHash()) != c.Trace[i] {
			same = false
		}
	}
	return &c, e.prop.Check(&c, rs), rs, same, nil
}
