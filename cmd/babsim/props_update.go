package main

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"
)

const (
	msec = int64(1_000_000)
	sec  = int64(1_000_000_000)
	day  = 24 * hour
)

const releaseURL = "https://api.github.com/repos/bab-sh/bab/releases/latest"

// versions bab may hear of or be, in order; those of a negative rank are none
var versions = []struct {
	v    string
	rank int
}{
	{"v1.0.1", 6}, {"1.2.0", 9}, {"v2.0.0", 10}, {"v10.0.0", 11}, {"v1.1.0-beta", 7},
	{"v1.0.0", 4}, {"1.0.0", 4}, {"0.9.9", 1}, {"v0.10.0", 2}, {"v1.0.0-rc1", 3},
	{"garbage", -1}, {"v1.0.0+build", 4}, {"1.2.0-rc1", 8}, {"v1.0.1+b2", 6},
}

func rankOf(v string) int {
	for _, x := range versions {
		if x.v == v {
			return x.rank
		}
	}
	return -1
}

// isNewerVersion tells whether v is newer than the version that runs.
func isNewerVersion(v, than string) bool {
	a, b := rankOf(v), rankOf(than)
	return a >= 0 && b >= 0 && a > b
}

// version is the one bab believes to be.
func (s *Sim) version() string {
	if s.Version == "" {
		return "1.0.0"
	}
	return s.Version
}

func cacheDirOf(env []string) string {
	home, xdg := "", ""
	for _, kv := range env {
		if v, ok := strings.CutPrefix(kv, "HOME="); ok {
			home = v
		}
		if v, ok := strings.CutPrefix(kv, "XDG_CACHE_HOME="); ok {
			xdg = v
		}
	}
	if xdg != "" {
		return xdg + "/bab"
	}
	return home + "/.cache/bab"
}

const cacheName = "/update-check.json"

func record(at int64, ver, etag string) string {
	b, _ := json.Marshal(map[string]any{"checked_at": time.Unix(0, at).UTC(), "latest_version": ver, "etag": etag})
	return string(b)
}

// cacheState is what a cache file means to a bab that reads it at some instant.
type cacheState struct {
	present   bool
	raw       string
	usable    bool
	ver, etag string
	at        int64
}

func readCache(present bool, raw string, now int64) cacheState {
	c := cacheState{present: present, raw: raw}
	if !present {
		return c
	}
	var f struct {
		At   time.Time `json:"checked_at"`
		Ver  string    `json:"latest_version"`
		ETag string    `json:"etag"`
	}
	if json.Unmarshal([]byte(raw), &f) != nil || f.Ver == "" || f.At.After(time.Unix(0, now)) {
		return c
	}
	c.usable, c.ver, c.etag, c.at = true, f.Ver, f.ETag, f.At.UnixNano()
	return c
}

func fileIn(fs []SFile, p string) (string, bool) {
	for _, f := range fs {
		if f.Path == p && f.Kind == "f" {
			return string(f.Content), true
		}
	}
	return "", false
}

// updateEnabled tells whether the environment allows the update check.
func updateEnabled(env []string, version string) bool {
	on := version != "dev"
	for _, kv := range env {
		switch kv {
		case "BAB_NO_UPDATE_CHECK=1", "CI=true", "CI=1":
			on = false
		}
	}
	return on
}

func genReply(r *rng, slow bool) SReply {
	rep := SReply{Status: 200}
	ver := pickOf(r, versions).v
	if r.p(2, 3) {
		ver = versions[r.n(5)].v
	}
	body := fmt.Sprintf(`{"url":"x","tag_name":"%s","name":"n"}`, ver)
	if r.p(2, 3) {
		rep.ETag = r.pick(`"e1"`, `W/"e2"`, `"e3"`)
	}
	switch r.n(20) {
	case 0:
		rep.Kind = nrDNS
	case 1:
		rep.Kind = nrRefused
	case 2:
		rep.Kind = nrBlack
	case 3:
		rep.Kind = nrReset
	case 4:
		rep.Kind = nrTLS
	case 5:
		rep.Status = pickOf(r, []int{403, 404, 429, 500, 503})
	case 6:
		rep.Status = pickOf(r, []int{301, 302, 307, 308})
		rep.Hdr = []string{"Location", "https://example.com/elsewhere"}
	case 7:
		rep.Status = 304
		body = ""
	case 8:
		body = r.pick(`{"tag_name":""}`, `{}`, `[]`, `null`, `{"tag_name":5}`, `<html>`, ``, `{"tag_name":"v2.0.0"`, "\x00\x01", `{"message":"rate limited"}`)
	case 9:
		body = `{"pad":"` + strings.Repeat("x", 1<<20) + `","tag_name":"v2.0.0"}`
	case 10:
		body = body[:r.n(len(body))]
		rep.End = pickOf(r, []int{neReset, neHang, neEOF})
	case 11:
		rep.End = pickOf(r, []int{neReset, neHang})
	case 12, 13, 14:
		rep.Kind = nrAuto
	case 15:
		// much more than is needed, before or after what is
		pad := strings.Repeat("x", pickOf(r, []int{3000, 5000, 20000, 70000, 400000}))
		if r.p(1, 2) {
			body = `{"body":"` + pad + `",` + body[1:]
		} else {
			body = body[:len(body)-1] + `,"body":"` + pad + `"}`
		}
	}
	for len(body) > 0 {
		n := len(body)
		if n < 10000 && r.p(1, 2) {
			n = r.in(1, n)
		}
		ch := SChunk{Data: BStr(body[:n])}
		if slow && r.p(1, 5) {
			ch.Delay = pickOf(r, []int64{msec, sec, 4 * sec, 6 * sec, 60 * sec})
		}
		rep.Chunks = append(rep.Chunks, ch)
		body = body[n:]
	}
	if slow && r.p(1, 2) {
		rep.Delay = pickOf(r, []int64{msec, 100 * msec, sec, 4900 * msec, 5100 * msec, 30 * sec, 600 * sec})
	}
	return rep
}

// replyRecord is the version and tag a reply conveys to a client that reads at
// most one MiB of it.
func replyRecord(rep *SReply) (ver, etag string, ok bool) {
	if rep.Kind != nrReply && rep.Kind != nrAuto || rep.Status != 200 {
		return
	}
	var b strings.Builder
	for _, c := range rep.Chunks {
		b.WriteString(string(c.Data))
	}
	s := b.String()
	if len(s) > 1<<20 {
		s = s[:1<<20]
	}
	var f struct {
		Tag string `json:"tag_name"`
	}
	if json.NewDecoder(strings.NewReader(s)).Decode(&f) != nil || f.Tag == "" {
		return
	}
	return f.Tag, rep.ETag, true
}

func genCacheFile(r *rng, dir string, now int64) []SFile {
	p := dir + cacheName
	mk := func(s string) []SFile {
		return []SFile{{Path: dir, Kind: "d", Mode: 0o755}, {Path: p, Kind: "f", Mode: 0o600, Mtime: now - hour, Content: BStr(s)}}
	}
	ver := pickOf(r, versions).v
	etag := r.pick(`"e1"`, `W/"e2"`, "")
	switch r.n(12) {
	case 0, 1:
		return nil
	case 2, 3:
		return mk(record(now-pickOf(r, []int64{0, sec, hour, day - sec}), ver, etag))
	case 4, 5, 6:
		return mk(record(now-pickOf(r, []int64{day, day + sec, 30 * day, 4000 * day}), ver, etag))
	case 7:
		return mk(record(now+pickOf(r, []int64{sec, hour, 400 * day}), ver, etag))
	case 8:
		return mk(r.pick("", "{", "null", "[]", "garbage\x00", `{"checked_at":"x"}`, `{"latest_version":"v9.9.9"`, `{"latest_version":"v9.9.9","etag":7}`, `{"latest_version":"v9.9.9","checked_at":"soon"}`, record(now-hour, "", etag)))
	case 9:
		s := record(now-hour, ver, etag)
		return mk(s[:r.n(len(s))])
	case 10:
		return []SFile{{Path: p, Kind: "d", Mode: 0o755}}
	}
	return []SFile{{Path: dir, Kind: "d", Mode: 0o755}}
}

// leftovers puts other files into the cache directory.
func leftovers(r *rng, dir string, now int64) []SFile {
	var fs []SFile
	for k := r.n(4); k > 0; k-- {
		age := pickOf(r, []int64{0, 59 * 60 * sec, hour + sec, 30 * day, -hour})
		n := r.pick("update-check-123.tmp", "update-check-9.tmp", "update-check-.tmp", "update-check-notes.txt", "other.tmp", "xupdate-check-1.tmp", "update-check-7.tmp.bak")
		if _, dup := fileIn(fs, dir+"/"+n); dup {
			continue
		}
		fs = append(fs, SFile{Path: dir + "/" + n, Kind: "f", Mode: 0o600, Mtime: now - age, Content: BStr(n)})
	}
	if r.p(1, 8) {
		fs = append(fs, SFile{Path: dir + "/update-check-dir.tmp", Kind: "d", Mode: 0o755, Mtime: now - 30*day})
	}
	return fs
}

// smallProject is a project whose commands take the given time altogether, one
// after another.
func smallProject(r *rng, total int64, par bool) *Project {
	o := GenOpts{MaxTasks: r.in(1, 3), MaxItems: 2, TaskRef: 30, Deps: 30, Lines: 2, Logs: 10, Fail: 10}
	if par {
		o.Par, o.ParMax = 30, 3
	}
	g := &gen{r: r, o: o}
	p := g.project()
	if total > 0 {
		tok := g.tok()
		p.Tasks[0].Run = append([]*Item{{Kind: kCmd, Tok: tok, Ops: []SOp{{Op: "s", A: total}}}}, p.Tasks[0].Run...)
	}
	return p
}

type updOpts struct {
	faults bool // file system faults
	crash  bool
	other  bool // other processes change the cache meanwhile
	long   int  // percent of executions that take long
	slow   bool // slow network
	gapBig bool
}

func genUpdate(r *rng, th bool, o updOpts) *Case {
	total := int64(0)
	if r.p(o.long, 100) {
		total = pickOf(r, []int64{10 * msec, sec, 6 * sec, 20 * sec})
	}
	p := smallProject(r, total, r.p(1, 3))
	c := &Case{Proj: p, Root: p.Tasks[0].Name, P: map[string]int64{"total": total}, S: map[string]string{}}
	n := r.in(1, 3)
	if th {
		n = r.in(1, 5)
	}
	env := baseEnv()
	if r.p(1, 5) {
		env = append(env, "XDG_CACHE_HOME=/home/u/xc")
	}
	dir := cacheDirOf(env)
	ver := ""
	for k := 0; k < n; k++ {
		s := newSim(r, c.Root)
		if (k == 0 || o.gapBig) && r.p(1, 3) {
			// another build of bab, or an upgrade meanwhile
			ver = r.pick(pickOf(r, versions).v, pickOf(r, versions).v, "1.2.0-rc1", "0.9.9", "dev", "nightly")
		}
		s.Version = ver
		s.Env = append([]string{}, env...)
		if r.p(1, 6) {
			s.Env = append(s.Env, r.pick("BAB_NO_UPDATE_CHECK=1", "BAB_NO_UPDATE_CHECK=0", "BAB_NO_UPDATE_CHECK=", "CI=true", "CI=1", "CI=false", "CI=yes"))
		}
		s.LatP, s.LatMax = 0, 0
		s.Net = []SReply{genReply(r, o.slow)}
		if r.p(1, 2) {
			s.Net = append(s.Net, genReply(r, o.slow))
		}
		st := &Step{Sim: s}
		if k == 0 {
			st.Extra = genCacheFile(r, dir, s.StartWall)
			if r.p(1, 2) {
				st.Extra = append(st.Extra, leftovers(r, dir, s.StartWall)...)
			}
		} else {
			st.Gap = pickOf(r, []int64{0, sec, hour, day - 30*sec, day - sec, day, day + hour, 400 * day, -sec, -day})
		}
		if o.faults {
			for q := r.n(4); q > 0; q-- {
				f := SFault{Class: r.pick("open", "open", "write", "fsync", "rename", "close", "unlink", "mkdir", "getdents", "fstat", "read", "stat"), Sub: r.pick("/bab", "update-check", ".tmp"),
					Nth: int64(r.n(4)), Count: pickOf(r, []int64{1, 1, 100}), Act: faErrno, Arg: int64(pickOf(r, []int{5, 28, 13, 30, 122, 24, 2, 17, 4}))}
				if f.Class == "write" && r.p(1, 2) {
					f.Act, f.Arg = faShort, int64(r.in(1, 40))
				}
				if r.p(1, 6) {
					f.Act, f.Arg = faDelay, int64(r.in(1, 2000))*msec
				}
				if f.Class == "close" || f.Class == "fstat" && f.Act == faErrno && f.Arg == 4 {
					f.Arg = 5
				}
				st.Sim.Faults = append(st.Sim.Faults, f)
			}
		}
		if o.crash && r.p(2, 3) {
			act := pickOf(r, []int{faCrash, faPower, faPower})
			if r.p(1, 4) {
				st.Sim.Faults = append(st.Sim.Faults, SFault{Class: "rename", Sub: "/bab", Count: 100, Act: faErrno, Arg: int64(pickOf(r, []int{5, 13, 16, 18, 28}))})
			}
			if r.p(1, 2) {
				st.Sim.Faults = append(st.Sim.Faults, SFault{Class: r.pick("write", "fsync", "rename", "close", "open", "unlink", "mkdir", "getdents"), Sub: "/bab", Nth: int64(r.n(3)), Count: 1, Act: act})
			} else {
				st.Sim.Events = append(st.Sim.Events, SEvent{Trig: trKop, TA: int64(r.in(5, 120)), Act: acCrash, A: int64(act - faCrash)})
			}
		}
		if o.other {
			for q := r.n(3); q > 0; q-- {
				e := SEvent{Trig: trFS, TS: r.pick("open", "write", "fsync", "rename", "close", "getdents", "fstat"), TA: int64(r.n(6))}
				switch r.n(4) {
				case 0:
					e.Act, e.S = acRemove, BStr(dir+cacheName)
				default:
					e.Act, e.S, e.S2 = acWriteFile, BStr(dir+cacheName), BStr(record(s.StartWall-pickOf(r, []int64{0, hour, 2 * day}), pickOf(r, versions).v, r.pick(`"o1"`, "")))
				}
				st.Sim.Events = append(st.Sim.Events, e)
			}
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

// updStep is one execution as the reference sees it.
type updStep struct {
	k       int
	r       *Result
	sim     *Sim
	dir     string
	files   []SFile // at the start
	enabled bool
	start   int64 // wall clock
	end     int64
	before  cacheState // as read at the start
	legit   []cacheState
}

func updSteps(c *Case, rs []*Result) []*updStep {
	var out []*updStep
	var prev *Result
	for k, r := range rs {
		s := c.prepare(k, prev)
		u := &updStep{k: k, r: r, sim: s, dir: cacheDirOf(s.Env), files: s.Files, enabled: updateEnabled(s.Env, s.version()), start: s.StartWall, end: s.StartWall + r.SimNow}
		raw, ok := fileIn(s.Files, u.dir+cacheName)
		u.before = readCache(ok, raw, u.start)
		// what a refresh may store
		for _, e := range r.all("netresp") {
			id := int(e.I(0))
			if len(s.Net) == 0 {
				continue
			}
			rep := &s.Net[min(id, len(s.Net)-1)]
			if e.I(1) == 304 {
				// whichever record was there when the request was made
				for _, b := range u.known() {
					u.legit = append(u.legit, cacheState{ver: b.ver, etag: b.etag, at: u.start + e.T})
				}
				continue
			}
			if ver, etag, ok := replyRecord(rep); ok {
				u.legit = append(u.legit, cacheState{ver: ver, etag: etag, at: u.start + e.T})
			}
		}
		out = append(out, u)
		prev = r
	}
	return out
}

// known lists the records bab may have found when it asked.
func (u *updStep) known() []cacheState {
	var out []cacheState
	if u.before.present {
		// its time may have come meanwhile
		if b := readCache(true, u.before.raw, u.end); b.usable {
			out = append(out, b)
		}
	}
	for _, e := range u.r.all("event") {
		if e.I(0) != acWriteFile {
			continue
		}
		for _, x := range u.sim.Events {
			if x.Act == acWriteFile {
				if b := readCache(true, string(x.S2), u.end); b.usable {
					out = append(out, b)
				}
			}
		}
		break
	}
	return out
}

// checkCache judges the cache file an execution leaves.
func (u *updStep) checkCache(id string) *Violation {
	raw, present := "", false
	for _, e := range u.r.all("fsfile") {
		if e.S(0) == u.dir+cacheName {
			raw, present = e.S(3), true
		}
	}
	for _, e := range u.r.all("fsdir") {
		if e.S(0) == u.dir+cacheName {
			return nil // it was a directory before
		}
	}
	if present == u.before.present && raw == u.before.raw {
		return nil
	}
	removed := false
	for _, e := range u.r.all("event") {
		switch e.I(0) {
		case acRemove:
			removed = true
		case acWriteFile:
			for _, x := range u.sim.Events {
				if x.Act == acWriteFile && string(x.S2) == raw && present {
					return nil
				}
			}
		}
	}
	if !present {
		if removed {
			return nil
		}
		return viol(id+"/lost", "the cache file of the update check is gone; before it held %q", u.before.raw)
	}
	c := readCache(true, raw, u.end+sec)
	if !c.usable {
		return viol(id+"/torn", "the cache file of the update check holds %q, which is no complete record", clip(raw, 300))
	}
	var why []string
	for _, l := range u.legit {
		if l.ver == c.ver && l.etag == c.etag {
			if c.at < l.at || c.at > u.end {
				why = append(why, fmt.Sprintf("its time %s is outside %s..%s", time.Unix(0, c.at).UTC(), time.Unix(0, l.at).UTC(), time.Unix(0, u.end).UTC()))
				continue
			}
			return nil
		}
		why = append(why, fmt.Sprintf("a reply said version %q, tag %q", l.ver, l.etag))
	}
	return viol(id+"/invented", "the cache file of the update check holds %q, which no reply justifies (%s)", clip(raw, 300), strings.Join(why, "; "))
}

// checkNeighbours judges what became of the other files in the cache directory.
func (u *updStep) checkNeighbours(id string) *Violation {
	after := map[string]bool{}
	for _, n := range []string{"fsfile", "fsdir"} {
		for _, e := range u.r.all(n) {
			after[e.S(0)] = true
		}
	}
	stored := false
	for _, e := range u.r.all("fs") {
		if e.S(0) == "rename" && strings.HasPrefix(e.S(1), u.dir+"/") {
			stored = true
		}
	}
	for _, f := range u.files {
		if path.Dir(f.Path) != u.dir || f.Path == u.dir+cacheName {
			continue
		}
		n := path.Base(f.Path)
		temp := f.Kind == "f" && strings.HasPrefix(n, "update-check-") && strings.HasSuffix(n, ".tmp")
		old := temp && u.end-f.Mtime > hour // at the latest when it ended
		if !after[f.Path] && !(temp && old) {
			return viol(id+"/removed", "%s, %d s old, was removed from the cache directory", n, (u.end-f.Mtime)/sec)
		}
		if after[f.Path] && stored && temp && u.start-f.Mtime > hour && len(u.r.all("fault-fired")) == 0 {
			return viol(id+"/litter", "%s, left %d s ago by an interrupted update check, is still in the cache directory after a new record was stored", n, (u.start-f.Mtime)/sec)
		}
	}
	// nothing new besides the record may stay when bab had time to finish
	if u.r.first("exit") != nil {
		if u.settled() {
			had := map[string]bool{}
			for _, f := range u.files {
				had[f.Path] = true
			}
			for _, p := range sortedKeys(after) {
				if path.Dir(p) == u.dir && !had[p] && p != u.dir+cacheName && !u.fired("unlink") {
					return viol(id+"/leak", "%s was left in the cache directory", path.Base(p))
				}
			}
		}
	}
	return nil
}

func (u *updStep) fired(class string) bool {
	for _, e := range u.r.all("fault-fired") {
		if e.S(0) == class {
			return true
		}
	}
	return false
}

// settled says that bab went on for a good while after the server had answered.
func (u *updStep) settled() bool {
	end := u.r.first("exit")
	if end == nil {
		return false
	}
	reqs := u.r.all("netreq")
	if len(reqs) == 0 {
		return false
	}
	last := reqs[len(reqs)-1].T
	// everything the network does is over or given up after five seconds
	slow := int64(0)
	for _, f := range u.sim.Faults {
		if f.Act == faDelay {
			slow += f.Arg * f.Count
		}
	}
	return end.T > last+5*sec+100*msec+slow
}

func (u *updStep) notices() []string {
	var out []string
	for _, l := range strings.Split(stripANSI(u.r.output("stderr")), "\n") {
		if strings.Contains(l, "new version of bab is available") {
			out = append(out, l)
		}
	}
	return out
}

// checkNotice judges the announcement of a new version.
func (u *updStep) checkNotice(id string) *Violation {
	if u.r.first("exit") == nil {
		return nil
	}
	got := u.notices()
	if len(got) > 1 {
		return viol(id+"/notice", "the new version was announced %d times", len(got))
	}
	if !u.enabled {
		if len(got) > 0 {
			return viol(id+"/notice", "a new version was announced although the update check is switched off: %q", got[0])
		}
		return nil
	}
	// what could be in the cache at the end
	states := append([]cacheState{}, u.legit...)
	for i := range states {
		states[i].usable = true
	}
	b := u.before
	if b.present {
		b = readCache(true, b.raw, u.end) // its time may have come meanwhile
	}
	states = append(states, b)
	var want []string
	for _, s := range states {
		if !s.usable || !isNewerVersion(s.ver, u.sim.version()) {
			if len(got) == 0 {
				return nil
			}
			want = append(want, "none")
			continue
		}
		if len(got) == 1 {
			f := strings.Fields(got[0])
			has := func(x string) bool {
				for _, w := range f {
					if w == x {
						return true
					}
				}
				return false
			}
			if has("latest="+s.ver) && has("current="+u.sim.version()) {
				return nil
			}
		}
		want = append(want, s.ver)
	}
	return viol(id+"/notice", "announced: %q; it should be one of %q", got, want)
}

// checkRequests judges when and how bab asks.
func (u *updStep) checkRequests(id string) *Violation {
	reqs := u.r.all("netreq")
	if !u.enabled {
		if len(reqs) > 0 {
			return viol(id+"/request", "bab asked for the latest version although the update check is switched off")
		}
		return nil
	}
	if len(reqs) > 1 {
		return viol(id+"/request", "bab made %d requests in one execution", len(reqs))
	}
	fresh := u.before.usable && u.start-u.before.at < day
	if fresh && len(reqs) > 0 {
		return viol(id+"/request", "bab asked again although the last check was %d s ago", (u.start-u.before.at)/sec)
	}
	end := u.r.first("exit")
	if end == nil {
		return nil
	}
	if !fresh && len(reqs) == 0 && end.T > sec {
		return viol(id+"/no-request", "bab ran for %d ms without asking for the latest version although no recent answer is known", end.T/msec)
	}
	for _, q := range reqs {
		if q.S(1) != "GET" || q.S(2) != releaseURL {
			return viol(id+"/request", "unexpected request %s %s", q.S(1), q.S(2))
		}
		want := ""
		if u.before.usable {
			want = u.before.etag
		}
		if q.S(3) != want {
			return viol(id+"/etag", "the request is conditional on %q, want %q", q.S(3), want)
		}
		if lim := q.T + 5*sec + 10*msec; end.T > lim {
			over := false
			for i := range u.r.Events {
				e := &u.r.Events[i]
				if (e.Name == "netclose" || e.Name == "netdone") && e.I(0) == q.I(0) && e.T <= lim {
					over = true
				}
			}
			if !over {
				return viol(id+"/timeout", "the request made at t=%dms is still open after 5 s", q.T/msec)
			}
		}
	}
	return u.checkStored(id)
}

// checkStored: when there is time and nothing fails, the answer is stored.
func (u *updStep) checkStored(id string) *Violation {
	reqs := u.r.all("netreq")
	if len(reqs) == 1 && u.settled() && len(u.r.all("fault-fired")) == 0 {
		rep := &u.sim.Net[0]
		var took int64 = rep.Delay
		for _, ch := range rep.Chunks {
			took += ch.Delay
		}
		raw, _ := "", false
		for _, e := range u.r.all("fsfile") {
			if e.S(0) == u.dir+cacheName {
				raw = e.S(3)
			}
		}
		blocked := false
		for _, f := range u.files {
			if f.Path == u.dir+cacheName && f.Kind == "d" {
				blocked = true
			}
		}
		ver, etag, ok := replyRecord(rep)
		ok = ok && rep.End == neEOF // what comes after the record need not be awaited
		is304 := false
		for _, e := range u.r.all("netresp") {
			if e.I(1) == 304 {
				is304 = true
			}
		}
		if is304 && u.before.usable {
			ver, etag, ok = u.before.ver, u.before.etag, true
		} else if is304 {
			ok = false
		}
		if ok && !blocked && took < 4*sec {
			c := readCache(true, raw, u.end)
			if !c.usable || c.ver != ver || c.etag != etag || c.at < u.start {
				return viol(id+"/not-stored", "the server said version %q (tag %q) in time, but the cache holds %q", ver, etag, clip(raw, 200))
			}
		}
	}
	return nil
}

// crashed says that an execution ended by an injected crash.
func crashed(r *Result) bool { return r.Exit == exitCrash }

var noticeText = regexp.MustCompile(`WARN A new version of bab is available latest=\S+ current=\S+\n`)

func lineSet(s string) []string {
	s = noticeText.ReplaceAllString(stripANSI(s), "")
	out := strings.Split(s, "\n")
	sort.Strings(out)
	return out
}

func init() {
	register(&Prop{ID: "C09", Quick: 30000, Thorough: 600000, Real: realAll, Stub: stubAll,
		Rule: "A case is 1-5 consecutive executions on one file system, with random initial cache files and leftovers, random server behaviour, clock gaps, failing, short and slow file operations in the cache directory, crashes and power losses at random operations (unforced data lost or torn), other processes that replace or remove the cache file meanwhile, and seeded schedules.",
		Gen: func(r *rng, th bool) *Case {
			return genUpdate(r, th, updOpts{faults: r.p(1, 2), crash: r.p(2, 3), other: r.p(1, 4), long: 70, gapBig: true})
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C09", rs); v != nil {
				return v
			}
			for _, u := range updSteps(c, rs) {
				v := u.checkCache("C09")
				if v == nil && !crashed(u.r) {
					v = u.checkNeighbours("C09")
				}
				if v == nil && !crashed(u.r) && u.enabled && len(u.r.all("event")) == 0 {
					v = u.checkStored("C09")
				}
				if v != nil {
					v.Step = u.k
					return v
				}
			}
			return nil
		}})

	register(&Prop{ID: "C10", Quick: 20000, Thorough: 400000, Real: realAll, Stub: stubAll,
		Rule: "A case is a project run with the update check on, under any server behaviour (no answer, slow, reset, malformed, oversized), any cache file and failing or slow file operations in the cache directory, and the same project run with the check off; both with seeded schedules.",
		Gen: func(r *rng, th bool) *Case {
			c := genUpdate(r, th, updOpts{faults: r.p(2, 3), long: 30, slow: true})
			if r.p(1, 5) {
				// what bab itself writes, on either stream
				c.S["mode"] = r.pick("list", "dry", "validate", "version", "help", "script", "words")
				s := &c.Steps[0].Sim
				s.Args = map[string][]string{"list": {"--list"}, "dry": {"-n", c.Root}, "validate": {"--validate"}, "version": {"--version"},
					"help": {"--help"}, "script": {"-c", r.pick("bash", "zsh", "fish", "powershell")}, "words": {"__complete", ""}}[c.S["mode"]]
				if s.Args[0] != "--version" && s.Args[0] != "--help" && r.p(1, 3) {
					s.Args = append([]string{"-v"}, s.Args...)
				}
			}
			var steps []*Step
			for _, st := range c.Steps[:1] {
				twin := *st
				twin.Sim.Env = append(append([]string{}, st.Sim.Env...), "BAB_NO_UPDATE_CHECK=1")
				twin.Sim.Faults, twin.Sim.Net = nil, nil
				twin.Sim.Sched = newSched(r)
				twin.Fresh = true
				steps = append(steps, st, &twin)
			}
			c.Steps = steps
			return c
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if len(rs) < 2 {
				return nil
			}
			if v := abnormal("C10", rs); v != nil {
				return v
			}
			slow := int64(0)
			for _, e := range rs[0].all("fault-fired") {
				if e.I(2) == faDelay {
					slow += e.I(3)
				}
			}
			for k, r := range rs {
				if strings.Contains(r.output("stdout"), "new version of bab") {
					return viol("C10/stdout", "the announcement of a new version is mixed with bab's output: %q", clip(r.output("stdout"), 400))
				}
				if c.S["mode"] != "" {
					continue
				}
				x, v := judge("C10", c, r)
				if v == nil {
					v = x.checkContext("C10", c.Steps[k].Sim.Env)
				}
				if v != nil {
					v.Step = k
					return v
				}
			}
			if rs[0].Exit != rs[1].Exit {
				return viol("C10/status", "exit status %d with the update check, %d without", rs[0].Exit, rs[1].Exit)
			}
			e0, e1 := rs[0].first("exit"), rs[1].first("exit")
			if e0 != nil && e1 != nil && e0.T > e1.T+slow+100*msec {
				return viol("C10/slow", "bab took %d ms with the update check and %d ms without (slow file operations: %d ms)", e0.T/msec, e1.T/msec, slow/msec)
			}
			par := false
			c.Proj.walkItems(func(t *MTask, it *Item, parent *Item) { par = par || it.Kind == kParallel })
			if par && c.S["mode"] == "" {
				return nil // which item names a failure or runs a shared task is a matter of timing
			}
			for _, l := range []string{"stdout", "stderr"} {
				a, b := lineSet(rs[0].output(l)), lineSet(rs[1].output(l))
				if strings.Join(a, "\n") != strings.Join(b, "\n") {
					return viol("C10/output", "%s is %q with the update check and %q without", l, a, b)
				}
			}
			return nil
		}})

	register(&Prop{ID: "C11", Quick: 30000, Thorough: 600000, Real: realAll, Stub: stubAll,
		Rule: "A case is 1-5 consecutive executions with gaps of minus one day to 400 days, random initial cache files, environments that switch the check on or off, random server behaviour (conditional answers, redirects, errors, hangs, slow and oversized bodies), and seeded schedules.",
		Gen: func(r *rng, th bool) *Case {
			return genUpdate(r, th, updOpts{long: 80, slow: true, gapBig: true})
		},
		Check: func(c *Case, rs []*Result) *Violation {
			if v := abnormal("C11", rs); v != nil {
				return v
			}
			for _, u := range updSteps(c, rs) {
				v := u.checkRequests("C11")
				if v == nil {
					v = u.checkNotice("C11")
				}
				if v == nil {
					v = u.checkCache("C11")
				}
				if v != nil {
					v.Step = u.k
					return v
				}
			}
			return nil
		}})
}
