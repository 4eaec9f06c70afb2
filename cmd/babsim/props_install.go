package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C22: whatever fails, the installer leaves either what was there or the complete,
// verified release.

func init() {
	register(&Prop{
		ID: "C22", Quick: 5000, Thorough: 25000, Inst: true,
		Rule: "One evaluation is one run of install.sh by the real shell in a generated world (platform, tools that exist, release server, contents of the installation directory, arguments) with up to three faults placed at chosen points of chosen tools, judged at every step of every tool that touches a file and when all its processes are gone.",
		Real: "install.sh as it is in the working tree, /bin/sh (dash), the text tools (grep, sed, tr, cut, head, ...)",
		Stub: "curl, wget, tar, unzip, install, mv, cp, rm, mktemp, mkdir, chmod, uname, the checksum tools, the release server, earlier bab binaries",
	})
}

const instUser = 65534

// instWorld is a scratch area for runs of the installer.
type instWorld struct {
	base   string
	script []byte
}

func newInstWorld(repo string) (*instWorld, error) {
	b, err := os.ReadFile(filepath.Join(repo, "install.sh"))
	if err != nil {
		return nil, err
	}
	// the paths of all runs have the same length, so that the files do, too
	base := fmt.Sprintf("/tmp/babinst-%09d", os.Getpid())
	os.RemoveAll(base)
	if err := os.Mkdir(base, 0o755); err != nil {
		return nil, err
	}
	os.Chmod(base, 0o755)
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	s, err := os.ReadFile(self)
	if err != nil {
		return nil, err
	}
	return &instWorld{base, b}, os.WriteFile(base+"/s", s, 0o755)
}

func (iw *instWorld) close() { os.RemoveAll(iw.base) }

// instResult is what a run left.
type instResult struct {
	Trace   []string
	Exit    int // -signal when a signal ended the shell
	Output  string
	Final   string
	Left    []string // files that are there now and were not, or have changed
	Hang    bool
	Pathbab string // version of the bab that PATH leads to, before the run
}

func (r *instResult) hash() uint64 {
	return hashStr(strings.Join(r.Trace, "\n") + fmt.Sprint(r.Exit, r.Final, r.Left, r.Output))
}

func snapshot(w string) map[string]string {
	m := map[string]string{}
	filepath.Walk(w, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel := strings.TrimPrefix(p, w)
		if st.IsDir() {
			if strings.HasPrefix(rel, "/bin") {
				return filepath.SkipDir
			}
			m[rel] = "dir"
			return nil
		}
		switch rel {
		case "/trace", "/plan.json", "/s", "/install.sh":
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = fmt.Sprintf("%v %x", st.Mode(), hashStr(string(b)))
		return nil
	})
	return m
}

func (iw *instWorld) run(slot int, p *instPlan) (*instResult, error) {
	w := fmt.Sprintf("%s/w%03d", iw.base, slot)
	os.RemoveAll(w)
	defer os.RemoveAll(w)
	bindir := p.bindir(w)
	dirs := []string{"", "/bin", "/home", "/tmp", "/cwd"}
	for _, d := range dirs {
		if err := os.Mkdir(w+d, 0o755); err != nil {
			return nil, err
		}
	}
	if p.BindirState > 0 {
		if err := os.MkdirAll(bindir, 0o755); err != nil {
			return nil, err
		}
	}
	if p.BindirState > 1 {
		if err := os.WriteFile(filepath.Join(bindir, p.binName()), []byte(p.oldBinary(w)), 0o755); err != nil {
			return nil, err
		}
	}
	for k, f := range []string{"/home/.bashrc", "/home/.zshrc", "/home/.config/fish/config.fish"} {
		if p.Rc>>k&1 != 0 {
			os.MkdirAll(filepath.Dir(w+f), 0o755)
			os.WriteFile(w+f, []byte("# mine\n"), 0o644)
		}
	}
	os.WriteFile(w+"/cwd/bab", []byte("a file of the user\n"), 0o644)
	if err := os.Link(iw.base+"/s", w+"/s"); err != nil {
		return nil, err
	}
	if err := instPath(w, p); err != nil {
		return nil, err
	}
	pj, _ := json.Marshal(p)
	os.WriteFile(w+"/plan.json", pj, 0o644)
	os.WriteFile(w+"/trace", nil, 0o666)
	os.Chmod(w+"/trace", 0o666)
	script := iw.script
	if p.Cut >= 0 {
		script = script[:min(p.Cut, len(script))]
	}
	os.WriteFile(w+"/install.sh", script, 0o644)
	filepath.Walk(w, func(f string, st os.FileInfo, err error) error {
		if err == nil && f != w+"/s" {
			os.Lchown(f, instUser, instUser)
		}
		return nil
	})
	before := snapshot(w)
	args := []string{w + "/install.sh"}
	if p.Stdin {
		args = []string{"-s", "--"}
	}
	for _, a := range p.Args {
		args = append(args, strings.ReplaceAll(a, "@", w))
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`umask %03o; exec /bin/sh "$@"`, p.Umask), "sh"}, args...)...)
	cmd.Dir = w + "/cwd"
	path := w + "/bin"
	res := &instResult{Pathbab: p.PathBab}
	switch p.InPath {
	case 1:
		path += ":" + bindir
	case 2:
		path = bindir + ":" + path
	}
	if p.BindirState > 1 && !p.windows() && (p.InPath == 2 || p.InPath == 1 && p.PathBab == "") {
		res.Pathbab = "0.0.9"
		if p.BindirState == 3 {
			res.Pathbab = strings.TrimPrefix(p.target(), "v")
		}
	}
	cmd.Env = []string{"PATH=" + path, "HOME=" + w + "/home", "TMPDIR=" + w + "/tmp", instEnv + "=" + w, "LC_ALL=C", "GOMAXPROCS=1"}
	if p.BindirMode == "env" {
		cmd.Env = append(cmd.Env, "BINDIR="+bindir)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: instUser, Gid: instUser}}
	if p.Stdin {
		f, err := os.Open(w + "/install.sh")
		if err != nil {
			return nil, err
		}
		defer f.Close()
		cmd.Stdin = f
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer rd.Close()
	out, err := os.OpenFile(w+"/out", os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o600)
	if err != nil {
		return nil, err
	}
	os.Remove(w + "/out")
	defer out.Close()
	cmd.Stdout, cmd.Stderr = out, out
	cmd.ExtraFiles = []*os.File{wr}
	err = cmd.Start()
	wr.Close()
	if err != nil {
		return nil, err
	}
	// every process of the run holds the pipe; when it reads empty they are gone
	rd.SetReadDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.Copy(io.Discard, rd); err != nil {
		res.Hang = true
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	err = cmd.Wait()
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Exit = -int(ws.Signal())
		} else {
			res.Exit = ws.ExitStatus()
		}
	} else if err != nil {
		return nil, err
	}
	tr, _ := os.ReadFile(w + "/trace")
	last := ""
	for _, l := range strings.Split(strings.TrimSuffix(string(tr), "\n"), "\n") {
		if strings.HasPrefix(l, "bindir\t") {
			if l == last {
				continue
			}
			last = l
		}
		res.Trace = append(res.Trace, l)
	}
	out.Seek(0, 0)
	ob, _ := io.ReadAll(out)
	res.Output = instAnon(string(ob), w, cmd.Process.Pid)
	res.Final = p.state(w)
	anon := func(f string) string { return instAnon(f, w, cmd.Process.Pid) }
	after := snapshot(w)
	for _, f := range sortedKeys(after) {
		if before[f] != after[f] {
			res.Left = append(res.Left, anon(f))
		}
	}
	for _, f := range sortedKeys(before) {
		if after[f] == "" {
			res.Left = append(res.Left, anon(f)+" (gone)")
		}
	}
	return res, nil
}

// generation ----------------------------------------------------------------------

func genInst(r *rng, scriptLen int) *instPlan {
	p := &instPlan{Cut: -1, Sums: "ok", Asset: "ok", Page: "ok", Umask: 0o022}
	plats := [][2]string{{"Linux", "x86_64"}, {"Linux", "aarch64"}, {"Linux", "armv7l"}, {"Darwin", "x86_64"}, {"Darwin", "arm64"}, {"MINGW64_NT-10.0-19045", "x86_64"}, {"MSYS_NT-10.0", "x86_64"}}
	if r.p(1, 25) {
		plats = [][2]string{{"Linux", "riscv64"}, {"Linux", "i686"}, {"SunOS", "i386"}, {"FreeBSD", "amd64"}, {"Linux", "ppc64le"}, {"Linux", "armv6l"}}
	} else if r.p(1, 2) {
		plats = plats[:1]
	}
	pl := pickOf(r, plats)
	p.OS, p.Arch = pl[0], pl[1]
	// what releases there are
	p.Tags = []string{"v0.0.7", "v0.3.0", "v0.4.1", "v0.4.10", "v1.2.0"}
	if r.p(1, 5) {
		p.Tags = append(p.Tags, "v1.3.0-rc.1", "v1.3.0")
	}
	p.Latest = pickOf(r, p.Tags)
	switch r.n(6) {
	case 0, 1:
		p.Tag = pickOf(r, p.Tags)
	case 2:
		p.Tag = r.pick("latest", "latest", "latest", "v9.9.9", "0.4.1", "v0.4")
	}
	p.BindirMode = r.pick("flag", "env", "default", "default")
	p.BindirState = r.n(4)
	p.InPath = r.n(3)
	if r.p(1, 3) {
		p.PathBab = r.pick("0.4.1", "0.3.0", strings.TrimPrefix(p.target(), "v"), "dev", "1.3.0-rc.1")
	}
	if p.BindirMode == "flag" {
		p.Args = append(p.Args, "-b", "@/opt/tools/bin")
	}
	if r.p(1, 6) {
		p.Args = append(p.Args, "-d")
	}
	if r.p(1, 60) {
		p.Args = append(p.Args, r.pick("-h", "-q", "-?"))
	}
	if p.Tag != "" {
		p.Args = append(p.Args, p.Tag)
	}
	p.Rc = r.n(8)
	p.Umask = pickOf(r, []int{0o022, 0o022, 0o077, 0o002})
	p.Stdin = r.p(1, 2)
	p.CrossDev = r.p(1, 2)
	if p.hasTag("v1.3.0") && r.p(1, 2) {
		p.Latest, p.PathBab = "v1.3.0", "1.3.0-rc.1"
	}
	if r.p(1, 5) {
		p.Latest = "v0.4.10"
	}
	// tools
	if r.p(1, 2) {
		p.Missing = append(p.Missing, r.pick("curl", "wget"))
	}
	hs := []string{"gsha256sum", "sha256sum", "shasum", "openssl"}
	keep := r.n(4)
	for k, h := range hs {
		if k < keep && k != 3 || k > keep && r.p(1, 2) {
			p.Missing = append(p.Missing, h)
		}
	}
	if r.p(1, 30) {
		p.Missing = append(p.Missing, "curl", "wget")
	}
	if r.p(1, 30) {
		p.Missing = append(p.Missing, hs...)
	}
	// the server
	if r.p(1, 12) {
		p.Sums = r.pick("missing", "wrong", "tabs")
	}
	if r.p(1, 12) {
		p.Asset = r.pick("evil", "trunc", "empty", "evil")
	}
	if r.p(1, 25) {
		p.Page = r.pick("html", "trunc", "empty")
	}
	if r.p(1, 12) {
		p.Cut = r.n(scriptLen + 1)
	}
	n := 1
	if r.p(1, 5) {
		n = 0
	} else if r.p(1, 4) {
		n = r.in(2, 3)
	}
	if p.target() == "v0.4.10" && r.p(1, 4) {
		// what has arrived names another release
		p.Faults = append(p.Faults, instFault{Class: "net", Phase: "mid", Kind: "drop", Arg: 159})
		n--
	}
	for i := 0; i < n; i++ {
		p.Faults = append(p.Faults, genInstFault(r))
	}
	return p
}

// genInstFault places a fault; what is at a place that the script does not reach
// has no effect, so most go to what every installation does.
func genInstFault(r *rng) instFault {
	f := instFault{Class: pickOf(r, []string{"net", "net", "net", "net", "install", "install", "install", "install", "mv", "mv", "mv", "hash", "untar", "untar", "rm", "mktemp", "uname"})}
	if r.p(1, 20) {
		f.Class = r.pick("cp", "chmod", "mkdir", "bab", "ln")
	}
	switch f.Class {
	case "net":
		f.Nth = r.n(3)
	case "install":
		f.Nth = pickOf(r, []int{0, 0, 0, 1})
	case "uname":
		f.Nth = r.n(4)
	default:
		f.Nth = r.n(8) / 7
	}
	f.Phase = r.pick("before", "mid", "mid", "after")
	if f.Class != "net" && f.Class != "install" && f.Class != "untar" && f.Phase == "mid" && r.p(2, 3) {
		f.Phase = r.pick("before", "after") // only those copy data, mv now and then
	}
	f.Chunk = r.n(8)
	if r.p(1, 3) {
		f.Chunk = r.n(2)
	}
	f.Kind = pickOf(r, []string{"fail", "fail", "kill", "int", "term", "hup", "term1"})
	f.Arg = pickOf(r, []int{1, 1, 2, 127, 28})
	if f.Class == "net" && r.p(1, 2) {
		if r.p(1, 3) {
			f.Kind, f.Phase, f.Arg = "status", "before", pickOf(r, []int{404, 403, 429, 500, 502, 503})
		} else {
			f.Kind, f.Phase, f.Arg = "drop", "mid", r.n(1001)
			if f.Nth == 0 && r.p(2, 3) {
				f.Arg = r.in(152, 164) // within the name of the release
			}
		}
	}
	return f
}

// judgement -----------------------------------------------------------------------

func (p *instPlan) supported() bool {
	n := p.assetName("v1")
	for _, a := range instAssets {
		if n == "bab_1_"+a {
			return true
		}
	}
	return false
}

func (p *instPlan) missing(n string) bool {
	for _, m := range p.Missing {
		if m == n {
			return true
		}
	}
	return false
}

func checkInst(p *instPlan, r *instResult) *Violation {
	id := "C22"
	killed, interrupted, mktempFault, rmFault, anyFault := false, false, false, false, false
	initial := "none"
	if p.BindirState > 1 {
		initial = "old"
	}
	seen := []string{}
	for _, l := range r.Trace {
		f := strings.Split(l, "\t")
		switch f[0] {
		case "fault":
			anyFault = true
			_, kind, _ := strings.Cut(f[1], ":")
			killed = killed || kind == "kill"
			switch kind {
			case "int", "term", "hup", "term1":
				interrupted = true
			}
			mktempFault = mktempFault || strings.HasPrefix(f[1], "mktemp:")
			rmFault = rmFault || strings.HasPrefix(f[1], "rm:")
		case "outside":
			return viol(id+"/outside", "%s was told to act on %s", f[1], f[2])
		case "get":
			if !strings.HasPrefix(f[1], instOwner) {
				return viol(id+"/request", "the installer requested %s", f[1])
			}
		case "bindir":
			seen = append(seen, f[1])
		}
	}
	if r.Hang {
		return viol(id+"/hang", "the installer does not end\n%s", clip(r.Output, 1500))
	}
	target := p.target()
	okTag := func(tag string) bool {
		if p.Page == "trunc" { // the answer names another release, and nothing says it is wrong
			return p.hasTag(tag)
		}
		return tag == target && p.hasTag(tag)
	}
	good := func(s string) bool {
		tag, ok := strings.CutPrefix(s, "release ")
		return ok && okTag(tag)
	}
	for k, s := range append(seen, r.Final) {
		when := "at the end"
		if k < len(seen) {
			when = "while it ran"
		}
		if s == initial {
			continue
		}
		if good(s) {
			if p.Asset != "ok" || p.Sums == "missing" || p.Sums == "wrong" {
				return viol(id+"/unverified", "%s the installation directory held a bab that does not match the release's checksums", when)
			}
			continue
		}
		c := "/partial"
		switch {
		case strings.HasPrefix(s, "altered"):
			c = "/unverified"
		case strings.HasPrefix(s, "release") && !strings.Contains(s, "not exec"):
			c = "/wrong-release"
		case s == "none":
			c = "/gone"
		}
		return viol(id+c, "%s the installation directory held: %s; before it held: %s, the requested release is %s\n%s", when, s, initial, target, clip(r.Output, 1500))
	}
	installed := good(r.Final) || p.BindirState == 3 && r.Final == "old"
	same := r.Pathbab != "" && (r.Pathbab == strings.TrimPrefix(target, "v") || p.Page == "trunc")
	if p.Cut < 0 {
		if r.Exit == 0 && !installed && !(same && r.Final == initial) {
			return viol(id+"/false-success", "exit status 0, but the installation directory holds: %s (requested: %s, bab in PATH: %q)\n%s", r.Final, target, r.Pathbab, clip(r.Output, 1500))
		}
		tools := !(p.missing("curl") && p.missing("wget")) && !(p.missing("gsha256sum") && p.missing("sha256sum") && p.missing("shasum") && p.missing("openssl"))
		fine := !anyFault && p.supported() && tools && p.Asset == "ok" && (p.Sums == "ok" || p.Sums == "tabs") && p.Page == "ok" && p.hasTag(target) && !p.asksUsage()
		if fine && r.Exit != 0 {
			return viol(id+"/fails", "nothing failed, but the exit status is %d\n%s", r.Exit, clip(r.Output, 1500))
		}
	}
	if !killed && !mktempFault && !rmFault && p.Cut < 0 {
		var left []string
		bd := strings.TrimPrefix(p.bindir(""), "")
		for _, f := range r.Left {
			if f == filepath.Join(bd, p.binName()) || strings.HasPrefix(bd+"/", f+"/") {
				continue
			}
			left = append(left, f)
		}
		if len(left) > 0 {
			c := "/left"
			if interrupted {
				c = "/left-interrupted"
			}
			return viol(id+c, "left behind or changed: %s (exit status %d)\n%s", strings.Join(left, " "), r.Exit, clip(r.Output, 1500))
		}
	}
	return nil
}

func (p *instPlan) asksUsage() bool {
	for _, a := range p.Args {
		if a == "-h" || a == "-q" || a == "-?" {
			return true
		}
	}
	return false
}

// the search ----------------------------------------------------------------------

type instCase struct {
	Prop  string    `json:"prop"`
	Index int       `json:"index"`
	Plan  *instPlan `json:"plan"`
	Trace string    `json:"trace_hash,omitempty"`
	Steps []string  `json:"steps,omitempty"`
	Class string    `json:"class,omitempty"`
	Msg   string    `json:"msg,omitempty"`
}

func (e *engine) instGen(i, scriptLen int) *instPlan {
	return genInst(newRng(mix(mix(e.seed, hashStr("C22")), uint64(i))), scriptLen)
}

func (e *engine) instCheck() int {
	e.start = time.Now()
	e.known = loadFindings(e.verif)
	e.knownHit = map[string]int{}
	iw, err := newInstWorld(e.repo)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer iw.close()
	limit, budget := e.prop.Quick, 45*time.Second
	if e.tier == "thorough" {
		limit, budget = e.prop.Thorough, 600*time.Second
	}
	if s := os.Getenv("BABSIM_CASES"); s != "" {
		fmt.Sscan(s, &limit)
	}
	t0 := time.Now()
	deadline := t0.Add(budget)
	var mu sync.Mutex
	var next, stop int64 = -1, int64(limit)
	faults, exits, tools, states, inter, nontriv := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[uint64]bool{}, map[uint64]bool{}
	probes := map[string]int{}
	runs, redo, redoBad, errs := 0, 0, 0, 0
	var engErr error
	var samples []any
	var found *instCase
	var fv *Violation
	var wg sync.WaitGroup
	for k := 0; k < max(2, runtime.NumCPU()); k++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= atomic.LoadInt64(&stop) || time.Now().After(deadline) {
					return
				}
				p := e.instGen(int(i), len(iw.script))
				r, err := iw.run(slot, p)
				bad := false
				again := i%97 == 0
				if again && err == nil {
					r2, err2 := iw.run(slot, p)
					bad = err2 != nil || r2.hash() != r.hash()
				}
				mu.Lock()
				if err != nil {
					errs++
					engErr = err
					mu.Unlock()
					if errs > 20 {
						return
					}
					continue
				}
				runs++
				if again {
					redo++
					if bad {
						redoBad++
					}
				}
				h := hashStr(strings.Join(r.Trace, "\n"))
				inter[h] = true
				exits[fmt.Sprint(r.Exit)]++
				states[r.Final]++
				f := false
				for _, l := range r.Trace {
					x := strings.Split(l, "\t")
					switch x[0] {
					case "fault":
						faults[x[1]]++
						f = true
					case "tool":
						tools[x[2]]++
					case "unsupported":
						probes["stand-in lacks "+x[1]]++
					}
				}
				if p.Cut >= 0 {
					faults["script:cut"]++
					f = true
				}
				for _, x := range [][2]string{{p.Sums, "checksums"}, {p.Asset, "archive"}, {p.Page, "release-page"}} {
					if x[0] != "ok" {
						faults[x[1]+":"+x[0]]++
						f = true
					}
				}
				if f {
					nontriv[h] = true
				}
				if len(samples) < 3 {
					samples = addSample(samples, map[string]any{"index": i, "plan": p, "exit": r.Exit, "final": r.Final, "trace": r.Trace})
				}
				if v := checkInst(p, r); v != nil {
					if kf := e.matchKnown(v); kf != nil {
						e.knownHit[kf.What]++
					} else if found == nil || int(i) < found.Index {
						found, fv = &instCase{Prop: "C22", Index: int(i), Plan: p}, v
						atomic.StoreInt64(&stop, i)
					}
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	wall := time.Since(t0)
	code := 0
	switch {
	case found != nil:
		c, v := e.instMinimise(iw, found, fv)
		path, err := e.saveJSON(c, v)
		if err != nil {
			fmt.Println("error:", err)
			return 2
		}
		fmt.Printf("case %d (seed %d): %s: %s\n", found.Index, e.seed, v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop.ID, path)
		code = 1
	case engErr != nil:
		fmt.Printf("error: the machinery failed on %d cases: %v\n", errs, engErr)
		code = 2
	case redoBad > 1 && redoBad*10 > redo: // one may be due to the machine's load
		fmt.Printf("error: %d of %d repeated executions differed\n", redoBad, redo)
		code = 2
	case runs < min(limit, 200):
		fmt.Printf("error: only %d of %d cases were run in the time allowed\n", runs, limit)
		code = 2
	}
	for _, f := range e.known {
		if f.Status == "known" && f.Property == e.prop.ID && code != 2 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop.ID, f.What)
		}
	}
	cov := map[string]any{
		"evaluations": runs, "distinct_nontrivial": len(nontriv),
		"rule":    e.prop.Rule + " Non-trivial: at least one fault fired, the script was cut short or the server answered with something else than the release; distinct: by the hash of the sequence of tool invocations, requests, faults and states of the installation directory.",
		"samples": samples, "cases": runs, "runs_per_hour": int(float64(runs) / wall.Hours()), "seeds_per_hour": int(float64(runs) / wall.Hours()),
		"search_wall_s": wall.Seconds(), "simulated_seconds": 0, "distinct_interleavings": len(inter),
		"interleaving_measure": "hash of the sequence of tool invocations with their arguments, requests, faults and observed states",
		"faults_fired":         faults, "exit_statuses": exits, "tool_invocations": tools, "final_states": states, "probes": probes,
		"determinism_rechecks": redo, "determinism_failures": redoBad,
		"real_components": e.prop.Real, "stubbed_components": e.prop.Stub,
	}
	if err := e.saveEvidence(cov, code, []string{
		"faults strike between the steps of the stand-ins; a signal that arrives while the shell itself is computing is taken to act like one that arrives at the neighbouring tool",
		"there is no clock in the installer, so no simulated time passes",
	}); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d runs, %d distinct, %.1f s wall\n", e.prop.ID, e.tier, runs, len(inter), time.Since(e.start).Seconds())
	return code
}

// instMinimise drops what the violation does not need.
func (e *engine) instMinimise(iw *instWorld, c *instCase, v *Violation) (*instCase, *Violation) {
	cur := *c.Plan
	best := v
	var last *instResult
	try := func(p instPlan) bool {
		r, err := iw.run(900, &p)
		if err != nil {
			return false
		}
		x := checkInst(&p, r)
		if x == nil || x.Class != v.Class || e.matchKnown(x) != nil {
			return false
		}
		cur, best, last = p, x, r
		return true
	}
	clonePlan := func() instPlan {
		b, _ := json.Marshal(cur)
		var p instPlan
		json.Unmarshal(b, &p)
		return p
	}
	for changed := true; changed; {
		changed = false
		for k := range cur.Faults {
			p := clonePlan()
			p.Faults = append(p.Faults[:k], p.Faults[k+1:]...)
			if try(p) {
				changed = true
				break
			}
		}
	}
	for _, f := range []func(*instPlan){
		func(p *instPlan) { p.Cut = -1 }, func(p *instPlan) { p.Sums = "ok" }, func(p *instPlan) { p.Asset = "ok" }, func(p *instPlan) { p.Page = "ok" },
		func(p *instPlan) { p.Missing = nil }, func(p *instPlan) { p.PathBab = "" }, func(p *instPlan) { p.InPath = 0 }, func(p *instPlan) { p.Rc = 0 },
		func(p *instPlan) { p.Stdin = false }, func(p *instPlan) { p.CrossDev = false }, func(p *instPlan) { p.Umask = 0o022 }, func(p *instPlan) { p.OS, p.Arch = "Linux", "x86_64" },
		func(p *instPlan) { p.BindirState = 0 }, func(p *instPlan) { p.BindirState = 2 },
		func(p *instPlan) { p.BindirMode, p.Args, p.Tag = "default", nil, "" },
	} {
		p := clonePlan()
		a, _ := json.Marshal(p)
		f(&p)
		if b, _ := json.Marshal(p); !bytes.Equal(a, b) {
			try(p)
		}
	}
	if last == nil {
		try(cur)
	}
	out := &instCase{Prop: c.Prop, Index: c.Index, Plan: &cur, Class: best.Class, Msg: best.Msg}
	if last != nil {
		out.Trace, out.Steps = fmt.Sprintf("%016x", last.hash()), last.Trace
	}
	return out, best
}

func (e *engine) saveJSON(c *instCase, v *Violation) (string, error) {
	dir := filepath.Join(e.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", e.prop.ID, strings.ReplaceAll(v.Class, "/", "-"), e.seed))
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(p, b, 0o644)
}

func dumpInst(p *instPlan, r *instResult) {
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Printf("exit %d, final: %s, changed: %v\n%s", r.Exit, r.Final, r.Left, r.Output)
}

func (e *engine) instReplay(file string, b []byte) int {
	var c instCase
	must(json.Unmarshal(b, &c))
	iw, err := newInstWorld(e.repo)
	must(err)
	defer iw.close()
	r, err := iw.run(0, c.Plan)
	must(err)
	dumpInst(c.Plan, r)
	fmt.Println("recorded:", c.Class, c.Msg)
	fmt.Println("trace identical to the recorded one:", c.Trace == fmt.Sprintf("%016x", r.hash()))
	if v := checkInst(c.Plan, r); v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop.ID, file)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func (e *engine) instShow(i int) {
	iw, err := newInstWorld(e.repo)
	must(err)
	defer iw.close()
	p := e.instGen(i, len(iw.script))
	r, err := iw.run(0, p)
	must(err)
	dumpInst(p, r)
	if v := checkInst(p, r); v != nil {
		fmt.Println(v.Class, v.Msg)
	}
}
