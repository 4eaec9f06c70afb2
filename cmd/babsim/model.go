package main

import (
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"
)

// Project is the abstract form of a Babfile (and the files it includes). The
// Babfile text is rendered from it and the reference model interprets it.
type Project struct {
	Vars     []KV       `json:"vars,omitempty"`
	Env      []KV       `json:"env,omitempty"`
	Silent   *bool      `json:"silent,omitempty"`
	Output   *bool      `json:"output,omitempty"`
	Dir      string     `json:"dir,omitempty"`
	Includes []*Include `json:"includes,omitempty"`
	Tasks    []*MTask   `json:"tasks,omitempty"`
	Raw      string     `json:"raw,omitempty"` // text used instead of a rendering
}

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Include struct {
	NS   string   `json:"ns"`
	File string   `json:"file"`
	P    *Project `json:"p"` // nil: not part of the project

	Shared bool `json:"shared,omitempty"` // the file is included in more than one place
}

type MTask struct {
	Name    string   `json:"name"`
	Desc    string   `json:"desc,omitempty"`
	Aliases []string `json:"aliases,omitempty"`
	Vars    []KV     `json:"vars,omitempty"`
	Env     []KV     `json:"env,omitempty"`
	Silent  *bool    `json:"silent,omitempty"`
	Output  *bool    `json:"output,omitempty"`
	Dir     string   `json:"dir,omitempty"`
	When    *Cond    `json:"when,omitempty"`
	Deps    []string `json:"deps,omitempty"`
	Run     []*Item  `json:"run,omitempty"`
}

// Cond is a `when` expression with a known meaning.
type Cond struct {
	Var  string `json:"var"`
	Op   string `json:"op,omitempty"` // "", "==", "!="
	Val  string `json:"val,omitempty"`
	Pre  string `json:"pre,omitempty"` // text around the reference
	Post string `json:"post,omitempty"`
	DQ   bool   `json:"dq,omitempty"`
	Gap  string `json:"gap,omitempty"` // spacing, if unusual
}

func (c *Cond) String() string {
	s := c.Pre + "${{ " + c.Var + " }}" + c.Post
	gap, q := " ", "'"
	if c.Gap != "" {
		gap = strings.Trim(c.Gap, "|")
	}
	if c.DQ {
		q = "\""
	}
	if c.Op != "" {
		s += gap + c.Op + gap + q + c.Val + q
	}
	return s
}

func (c *Cond) eval(vars map[string]string) bool {
	v := strings.TrimSpace(c.Pre + mapLook(vars)(c.Var) + c.Post)
	switch c.Op {
	case "==":
		return v == c.Val
	case "!=":
		return v != c.Val
	}
	return v != "" && !strings.EqualFold(v, "false")
}

const (
	kCmd      = "cmd"
	kTask     = "task"
	kLog      = "log"
	kPrompt   = "prompt"
	kParallel = "parallel"
)

type Item struct {
	Kind      string   `json:"kind"`
	Tok       string   `json:"tok,omitempty"`  // cmd: unique first word; log: unique word
	Text      string   `json:"text,omitempty"` // cmd or log text after the token
	Ops       []SOp    `json:"ops,omitempty"`
	Task      string   `json:"task,omitempty"`
	Level     string   `json:"level,omitempty"`
	Dir       string   `json:"dir,omitempty"`
	Env       []KV     `json:"env,omitempty"`
	Silent    *bool    `json:"silent,omitempty"`
	Output    *bool    `json:"output,omitempty"`
	Platforms []string `json:"platforms,omitempty"`
	When      *Cond    `json:"when,omitempty"`
	Label     string   `json:"label,omitempty"`
	Items     []*Item  `json:"items,omitempty"`
	Mode      string   `json:"mode,omitempty"`
	Limit     int      `json:"limit,omitempty"`
	Color     *bool    `json:"color,omitempty"`

	Var      string   `json:"var,omitempty"` // prompt
	PType    string   `json:"ptype,omitempty"`
	Msg      string   `json:"msg,omitempty"`
	Default  string   `json:"default,omitempty"`
	Defaults []string `json:"defaults,omitempty"`
	Options  []string `json:"options,omitempty"`
	Min      *int     `json:"min,omitempty"`
	Max      *int     `json:"max,omitempty"`
	Validate string   `json:"validate,omitempty"`
	Confirm  bool     `json:"confirm,omitempty"`
	Answer   string   `json:"answer,omitempty"` // the value the model expects when it is answered
	Answered bool     `json:"answered,omitempty"`
	Aborted  bool     `json:"aborted,omitempty"`
	Via      []KV     `json:"via,omitempty"` // variables that stand for parts of the prompt's texts
}

// via is a text of a prompt as the file has it.
func (it *Item) via(s string) string {
	for _, kv := range it.Via {
		if i := strings.Index(s, kv.V); i >= 0 && !strings.Contains(s, "${{") && (i == 0 || s[i-1] != '$') {
			s = strings.Replace(s, kv.V, "${{ "+kv.K+" }}", 1)
		}
	}
	return s
}

func (it *Item) vias(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, it.via(s))
	}
	return out
}

func (it *Item) cmdText() string {
	if it.Text == "" {
		return it.Tok
	}
	return it.Tok + " " + it.Text
}

func clone[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var r T
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

func bp(b bool) *bool { return &b }

// rendering ------------------------------------------------------------------

type yw struct{ b strings.Builder }

func (w *yw) line(ind int, format string, a ...any) {
	w.b.WriteString(strings.Repeat("  ", ind))
	fmt.Fprintf(&w.b, format, a...)
	w.b.WriteByte('\n')
}

func q(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString("\\n")
		case r == '\t':
			b.WriteString("\\t")
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, "\\x%02x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func qs(ss []string) string {
	var p []string
	for _, s := range ss {
		p = append(p, q(s))
	}
	return "[" + strings.Join(p, ", ") + "]"
}

func (w *yw) kvs(ind int, key string, kvs []KV) {
	if len(kvs) == 0 {
		return
	}
	w.line(ind, "%s:", key)
	for _, kv := range kvs {
		w.line(ind+1, "%s: %s", kv.K, q(kv.V))
	}
}

func (w *yw) flags(ind int, silent, output *bool) {
	if silent != nil {
		w.line(ind, "silent: %v", *silent)
	}
	if output != nil {
		w.line(ind, "output: %v", *output)
	}
}

func (p *Project) render() string {
	if p.Raw != "" {
		return p.Raw
	}
	w := &yw{}
	w.kvs(0, "vars", p.Vars)
	w.kvs(0, "env", p.Env)
	w.flags(0, p.Silent, p.Output)
	if p.Dir != "" {
		w.line(0, "dir: %s", q(p.Dir))
	}
	if len(p.Includes) > 0 {
		w.line(0, "includes:")
		for _, in := range p.Includes {
			w.line(1, "%s:", in.NS)
			w.line(2, "babfile: %s", q(in.File))
		}
	}
	w.line(0, "tasks:")
	for _, t := range p.Tasks {
		w.line(1, "%s:", q(t.Name))
		w.line(2, "desc: %s", q(t.Desc))
		if len(t.Aliases) == 1 {
			w.line(2, "alias: %s", q(t.Aliases[0]))
		} else if n := len(t.Aliases); n > 2 && len(t.Name)%2 == 0 {
			w.line(2, "alias: %s", q(t.Aliases[0]))
			w.line(2, "aliases: %s", qs(t.Aliases[1:]))
		} else if n > 1 {
			w.line(2, "aliases: %s", qs(t.Aliases))
		}
		w.kvs(2, "vars", t.Vars)
		w.kvs(2, "env", t.Env)
		w.flags(2, t.Silent, t.Output)
		if t.Dir != "" {
			w.line(2, "dir: %s", q(t.Dir))
		}
		if t.When != nil {
			w.line(2, "when: %s", q(t.When.String()))
		}
		if len(t.Deps) > 0 {
			w.line(2, "deps: %s", qs(t.Deps))
		}
		if len(t.Run) > 0 {
			w.line(2, "run:")
			for _, it := range t.Run {
				w.item(3, it)
			}
		}
	}
	return w.b.String()
}

func (w *yw) item(ind int, it *Item) {
	switch it.Kind {
	case kCmd:
		w.line(ind, "- cmd: %s", q(it.cmdText()))
	case kTask:
		w.line(ind, "- task: %s", q(it.Task))
	case kLog:
		w.line(ind, "- log: %s", q(it.cmdText()))
		if it.Level != "" {
			w.line(ind+1, "level: %s", it.Level)
		}
	case kPrompt:
		w.line(ind, "- prompt: %s", it.Var)
		w.line(ind+1, "type: %s", it.PType)
		w.line(ind+1, "message: %s", q(it.via(it.Msg)))
		if it.Default != "" {
			switch it.PType {
			case "confirm", "number":
				w.line(ind+1, "default: %s", it.Default)
			default:
				w.line(ind+1, "default: %s", q(it.via(it.Default)))
			}
		}
		if len(it.Defaults) > 0 {
			w.line(ind+1, "defaults: %s", qs(it.vias(it.Defaults)))
		}
		if len(it.Options) > 0 {
			w.line(ind+1, "options: %s", qs(it.vias(it.Options)))
		}
		if it.Min != nil {
			w.line(ind+1, "min: %d", *it.Min)
		}
		if it.Max != nil {
			w.line(ind+1, "max: %d", *it.Max)
		}
		if it.Validate != "" {
			w.line(ind+1, "validate: %s", q(it.Validate))
		}
		if it.Confirm {
			w.line(ind+1, "confirm: true")
		}
	case kParallel:
		w.line(ind, "- parallel:")
		for _, c := range it.Items {
			w.item(ind+2, c)
		}
		if it.Mode != "" {
			w.line(ind+1, "mode: %s", it.Mode)
		}
		if it.Limit > 0 {
			w.line(ind+1, "limit: %d", it.Limit)
		}
		if it.Color != nil {
			w.line(ind+1, "color: %v", *it.Color)
		}
	}
	if it.Label != "" {
		w.line(ind+1, "label: %s", q(it.Label))
	}
	if it.Dir != "" {
		w.line(ind+1, "dir: %s", q(it.Dir))
	}
	w.kvs(ind+1, "env", it.Env)
	w.flags(ind+1, it.Silent, it.Output)
	if len(it.Platforms) > 0 {
		w.line(ind+1, "platforms: %s", qs(it.Platforms))
	}
	if it.When != nil {
		w.line(ind+1, "when: %s", q(it.When.String()))
	}
}

const projDir = "/home/u/proj"

// files renders every Babfile of the project.
func (p *Project) files(dir, name string) []SFile {
	out := []SFile{{Path: path.Join(dir, name), Kind: "f", Mode: 0o644, Content: BStr(p.render())}}
	for _, in := range p.Includes {
		if in.P == nil {
			continue
		}
		fp := path.Join(dir, in.File)
		for _, f := range in.P.files(path.Dir(fp), path.Base(fp)) {
			if !slices.ContainsFunc(out, func(g SFile) bool { return g.Path == f.Path }) {
				out = append(out, f)
			}
		}
	}
	return out
}

// walkItems visits every run item, nested ones included.
func (p *Project) walkItems(f func(t *MTask, it *Item, parent *Item)) {
	for _, t := range p.Tasks {
		var rec func(items []*Item, parent *Item)
		rec = func(items []*Item, parent *Item) {
			for _, it := range items {
				f(t, it, parent)
				rec(it.Items, it)
			}
		}
		rec(t.Run, nil)
	}
	for _, in := range p.Includes {
		if in.P == nil {
			continue
		}
		in.P.walkItems(f)
	}
}

func (p *Project) programs() []SProgram {
	var out []SProgram
	p.walkItems(func(t *MTask, it, _ *Item) {
		if it.Kind == kCmd && it.Tok != "" {
			out = append(out, SProgram{Token: it.Tok, Ops: it.Ops})
		}
	})
	return out
}

// flat view -------------------------------------------------------------------

// FTask is one task after includes are resolved: names carry their namespace
// and the settings of every file on the way from the root apply to it.
type FTask struct {
	Name  string
	T     *MTask
	Chain []*Project // from the root file to the file it is written in
	Dir   string     // directory of the file it is written in
	NS    string
	Deps  []string
	File  string // the file it is written in; empty for the main one
}

type Flat struct {
	Root    *Project
	Tasks   map[string]*FTask
	Names   []string
	Aliases map[string]string
	Globals map[string]string
}

func (p *Project) flatten(dir string) *Flat {
	f := &Flat{Root: p, Tasks: map[string]*FTask{}, Aliases: map[string]string{}}
	f.Globals = resolveVars(nil, p.Vars)
	var rec func(p *Project, dir, ns, file string, chain []*Project)
	rec = func(p *Project, dir, ns, file string, chain []*Project) {
		chain = append(append([]*Project{}, chain...), p)
		for _, t := range p.Tasks {
			ft := &FTask{Name: ns + t.Name, T: t, Chain: chain, Dir: dir, NS: ns, File: file}
			for _, d := range t.Deps {
				ft.Deps = append(ft.Deps, ns+d)
			}
			f.Tasks[ft.Name] = ft
			f.Names = append(f.Names, ft.Name)
			for _, a := range t.Aliases {
				f.Aliases[ns+a] = ft.Name
			}
		}
		for _, in := range p.Includes {
			if in.P == nil {
				continue
			}
			fp := path.Join(dir, in.File)
			rec(in.P, path.Dir(fp), ns+in.NS+":", fp, chain)
		}
	}
	rec(p, dir, "", "", nil)
	sort.Strings(f.Names)
	return f
}

// interp substitutes ${{ name }} and ${{ env.NAME }}; $${{ stands for ${{.
func interp(s string, look func(string) string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "${{")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		if i > 0 && s[i-1] == '$' {
			b.WriteString(s[:i-1] + "${{")
			s = s[i+3:]
			continue
		}
		j := strings.Index(s[i:], "}}")
		if j < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		b.WriteString(look(strings.TrimSpace(s[i+3 : i+j])))
		s = s[i+j+2:]
	}
}

func mapLook(m map[string]string) func(string) string {
	return func(k string) string {
		if n, ok := strings.CutPrefix(k, "env."); ok {
			for _, kv := range baseEnv() {
				if v, ok := strings.CutPrefix(kv, n+"="); ok {
					return v
				}
			}
			return ""
		}
		return m[k]
	}
}

// resolveVars lays own over parent, references inside own resolved.
func resolveVars(parent map[string]string, own []KV) map[string]string {
	raw := map[string]string{}
	for _, kv := range own {
		raw[kv.K] = kv.V
	}
	out := map[string]string{}
	for k, v := range parent {
		if _, ok := raw[k]; !ok {
			out[k] = v
		}
	}
	busy := map[string]bool{}
	var get func(k string) string
	get = func(k string) string {
		if strings.HasPrefix(k, "env.") {
			return mapLook(nil)(k)
		}
		if v, ok := out[k]; ok {
			return v
		}
		r, ok := raw[k]
		if !ok || busy[k] {
			return parent[k]
		}
		busy[k] = true
		v := interp(r, get)
		out[k] = v
		return v
	}
	for k := range raw {
		get(k)
	}
	return out
}

// vars is what the task's items see before any prompt.
func (f *Flat) vars(ft *FTask) map[string]string {
	var own []KV
	for _, p := range ft.Chain[1:] {
		own = append(own, p.Vars...)
	}
	own = append(own, ft.T.Vars...)
	return resolveVars(f.Globals, own)
}

// env is the task's environment: outer files first, the task last.
func (f *Flat) env(ft *FTask, vars map[string]string) map[string]string {
	m := map[string]string{}
	for _, p := range ft.Chain {
		for _, kv := range p.Env {
			m[kv.K] = interp(kv.V, mapLook(vars))
		}
	}
	for _, kv := range ft.T.Env {
		m[kv.K] = interp(kv.V, mapLook(vars))
	}
	return m
}

// dir is the working directory of a command of the task.
func (f *Flat) dir(ft *FTask, it *Item, vars map[string]string) string {
	d := it.Dir
	if d == "" {
		d = ft.T.Dir
	}
	for i := len(ft.Chain) - 1; i >= 0 && d == ""; i-- {
		d = ft.Chain[i].Dir
	}
	if d == "" {
		return ft.Dir
	}
	d = interp(d, mapLook(vars))
	if !path.IsAbs(d) {
		d = path.Join(ft.Dir, d)
	}
	return path.Clean(d)
}

func (f *Flat) flag(ft *FTask, item, over *bool, get func(*Project) *bool, task *bool, def bool) bool {
	for _, v := range []*bool{item, over, task} {
		if v != nil {
			return *v
		}
	}
	for i := len(ft.Chain) - 1; i >= 0; i-- {
		if v := get(ft.Chain[i]); v != nil {
			return *v
		}
	}
	return def
}

func onPlatform(p []string) bool {
	if len(p) == 0 {
		return true
	}
	for _, x := range p {
		if x == "linux" {
			return true
		}
	}
	return false
}
