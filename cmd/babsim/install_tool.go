package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The installer (install.sh) is run by the real shell in a world of its own: a
// scratch directory, an unprivileged user and a PATH with nothing in it but
// stand-ins. A stand-in is this same program under another name (see
// instTool): it acts on the scratch directory only, follows the plan of the run
// (which request or tool fails, when a signal arrives) and records what it was
// asked for and what the installation directory held at that moment.

const (
	instOwner = "https://github.com/bab-sh/bab/releases/"
	instEnv   = "BABINST_W"
	chunkLen  = 64
)

// instPlan is one run of the installer.
type instPlan struct {
	OS, Arch    string // what uname says
	Missing     []string
	Args        []string
	BindirMode  string // flag, env, default
	BindirState int    // 0 does not exist, 1 empty, 2 holds an older bab, 3 holds the requested bab already
	InPath      int    // 0 not in PATH, 1 last, 2 first
	PathBab     string // version printed by another bab in PATH
	Tag         string // argument
	Latest      string
	Tags        []string
	Sums        string // ok, missing, wrong, tabs
	Asset       string // ok, evil, trunc, empty
	Page        string // ok, html, trunc, empty: the answer about the release, served without an error
	Stdin       bool   // the script arrives on stdin
	Cut         int    // bytes of the script that arrive, -1 all
	CrossDev    bool   // the temporary directory is on another file system
	Umask       int
	Rc          int // which shell start-up files exist
	Faults      []instFault
}

type instFault struct {
	Class string // net, hash, untar, install, mv, cp, rm, mktemp, uname, mkdir, chmod, bab
	Nth   int
	Phase string // before, mid, after
	Chunk int
	Kind  string // fail, int, term, hup, kill, term1, status, drop
	Arg   int
}

func (f instFault) String() string {
	return fmt.Sprintf("%s %s %s#%d chunk %d arg %d", f.Kind, f.Phase, f.Class, f.Nth, f.Chunk, f.Arg)
}

var instClass = map[string]string{
	"curl": "net", "wget": "net", "sha256sum": "hash", "gsha256sum": "hash", "shasum": "hash", "openssl": "hash",
	"tar": "untar", "unzip": "untar", "install": "install", "mv": "mv", "cp": "cp", "rm": "rm", "rmdir": "rm", "mktemp": "mktemp",
	"uname": "uname", "mkdir": "mkdir", "chmod": "chmod", "bab": "bab", "ln": "ln", "sync": "sync", "sleep": "sleep",
}

// passed through to the real programs; they only read and write streams
var instReal = []string{"grep", "sed", "tr", "cut", "head", "tail", "awk", "sort", "uniq", "wc", "basename", "dirname", "cat", "env", "id", "ls", "readlink", "printf", "expr", "date", "stat", "cmp", "od", "tee", "touch", "true", "false", "test", "echo", "find"}

func (p *instPlan) windows() bool {
	o := strings.ToLower(p.OS)
	return strings.HasPrefix(o, "mingw") || strings.HasPrefix(o, "msys_nt") || strings.HasPrefix(o, "cygwin_nt")
}

func (p *instPlan) binName() string {
	if p.windows() {
		return "bab.exe"
	}
	return "bab"
}

// platform is the pair the release's file names use, and the archive format.
func (p *instPlan) platform() (string, string, string) {
	o, f := p.OS, "tar.gz"
	switch {
	case p.windows():
		o, f = "Windows", "zip"
	case p.OS == "Darwin":
		o = "macOS"
	}
	a := p.Arch
	switch p.Arch {
	case "aarch64":
		a = "arm64"
	case "armv7l":
		a = "armv7"
	case "i686", "i386":
		a = "i386"
	case "armv6l":
		a = "armv6"
	}
	return o, a, f
}

func (p *instPlan) assetName(tag string) string {
	o, a, f := p.platform()
	return "bab_" + strings.TrimPrefix(tag, "v") + "_" + o + "_" + a + "." + f
}

func (p *instPlan) target() string {
	if p.Tag != "" && p.Tag != "latest" {
		return p.Tag
	}
	return p.Latest
}

func (p *instPlan) hasTag(t string) bool {
	for _, x := range p.Tags {
		if x == t {
			return true
		}
	}
	return false
}

// what .goreleaser.yaml builds
var instAssets = []string{"Linux_x86_64.tar.gz", "Linux_arm64.tar.gz", "Linux_armv7.tar.gz", "macOS_x86_64.tar.gz", "macOS_arm64.tar.gz", "macOS_universal.tar.gz", "Windows_x86_64.zip"}

func instBinary(w, tag, plat string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "#!%s/s\nVERSION=%s\nPLATFORM=%s\n", w, strings.TrimPrefix(tag, "v"), plat)
	r := newRng(hashStr(tag + plat))
	for i := 0; i < 6; i++ {
		fmt.Fprintf(&b, "%016x%016x%016x\n", r.u64(), r.u64(), r.u64())
	}
	return b.String()
}

const arcMagic = "BABARCHIVE\n"

func (p *instPlan) archive(w, tag, suffix string, evil bool) []byte {
	plat, f, _ := strings.Cut(suffix, ".")
	var b bytes.Buffer
	b.WriteString(arcMagic + f + "\n")
	name := "bab"
	if strings.HasPrefix(plat, "Windows") {
		name = "bab.exe"
	}
	bin := instBinary(w, tag, plat)
	if evil {
		bin = instBinary(w, tag+"-evil", plat)
	}
	for _, m := range [][2]string{{"LICENSE", "license\n"}, {"README.md", "readme of " + tag + "\n"}, {"completions/bab.bash", "complete\n"}, {"completions/_bab", "complete\n"}, {"schema/babfile.schema.json", "{}\n"}, {name, bin}} {
		fmt.Fprintf(&b, "%s %d\n%s", m[0], len(m[1]), m[1])
	}
	b.WriteString("END\n")
	return b.Bytes()
}

func sha(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func (p *instPlan) asset(w, tag, name string) ([]byte, bool) {
	pre := "bab_" + strings.TrimPrefix(tag, "v") + "_"
	for _, s := range instAssets {
		if name != pre+s {
			continue
		}
		evil := p.Asset == "evil"
		b := p.archive(w, tag, s, evil)
		switch p.Asset {
		case "trunc":
			b = b[:len(b)/2]
		case "empty":
			b = nil
		}
		return b, true
	}
	return nil, false
}

func (p *instPlan) checksums(w, tag string) []byte {
	var ls []string
	pre := "bab_" + strings.TrimPrefix(tag, "v") + "_"
	ls = append(ls, sha([]byte("license"))+"  LICENSE", sha([]byte("readme"))+"  README.md", sha([]byte("x1"))+"  "+pre+"linux_amd64.deb", sha([]byte("x2"))+"  bab-"+strings.TrimPrefix(tag, "v")+".tar.gz")
	sep := "  "
	if p.Sums == "tabs" {
		sep = "\t"
	}
	for _, s := range instAssets {
		h := sha(p.archive(w, tag, s, false))
		n := pre + s
		if n == p.assetName(tag) {
			switch p.Sums {
			case "missing":
				continue
			case "wrong":
				h = sha([]byte("other"))
			}
		}
		ls = append(ls, h+sep+n)
	}
	return []byte(strings.Join(ls, "\n") + "\n")
}

// serve is the release server.
func (p *instPlan) serve(w, url, accept string, follow bool) (int, []byte) {
	rest, ok := strings.CutPrefix(url, instOwner)
	if !ok {
		return 404, []byte("Not Found")
	}
	if !follow {
		return 302, nil
	}
	if rest, ok := strings.CutPrefix(rest, "download/"); ok {
		tag, name, _ := strings.Cut(rest, "/")
		if p.hasTag(tag) {
			if name == "checksums.txt" {
				return 200, p.checksums(w, tag)
			}
			if b, ok := p.asset(w, tag, name); ok {
				return 200, b
			}
		}
		return 404, []byte("Not Found")
	}
	tag := strings.TrimPrefix(rest, "tag/")
	if tag == "latest" {
		tag = p.Latest
	}
	if !p.hasTag(tag) {
		return 404, []byte(`{"error":"Not Found"}`)
	}
	switch p.Page {
	case "html":
		return 200, []byte("<html>\n<head><title>Sign in to the \"Hotel\" network</title></head>\n</html>\n")
	case "empty":
		return 200, nil
	}
	if accept != "application/json" {
		return 200, []byte("<!DOCTYPE html>\n<html lang=\"en\"><title>Release " + tag + "</title></html>\n")
	}
	j := fmt.Sprintf(`{"id":284311,"tag_name":"%s","update_url":"/bab-sh/bab/releases/tag/%s","update_authenticity_token":"xyz","delete_url":"/bab-sh/bab/releases/tag/%s","delete_authenticity_token":"abc"}`, tag, tag, tag)
	if p.Page == "trunc" {
		j = j[:strings.Index(j, tag)+len(tag)-1]
	}
	return 200, []byte(j)
}

// the stand-ins -------------------------------------------------------------------

type toolRun struct {
	w     string
	p     *instPlan
	name  string
	class string
	nth   int
	fault *instFault
	log   *os.File
}

func (t *toolRun) rec(kind string, args ...string) {
	for i, a := range args {
		a = instAnon(a, t.w, syscall.Getpgrp())
		args[i] = strings.NewReplacer("\t", " ", "\n", "\\n").Replace(a)
	}
	t.log.WriteString(kind + "\t" + strings.Join(args, "\t") + "\n")
}

// instAnon takes out of a text what differs from run to run: the scratch
// directory and the shell's process number.
func instAnon(s, w string, pid int) string {
	s = strings.ReplaceAll(s, w, "@")
	n := strconv.Itoa(pid)
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], n) && i > 0 && (s[i-1] == '.' || s[i-1] == '-' || s[i-1] == '_') && (i+len(n) == len(s) || s[i+len(n)] < '0' || s[i+len(n)] > '9') {
			b.WriteString("PID")
			i += len(n)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// state says what the installation directory holds.
func (p *instPlan) state(w string) string {
	return p.classify(w, filepath.Join(p.bindir(w), p.binName()))
}

func (p *instPlan) bindir(w string) string {
	switch p.BindirMode {
	case "flag", "env":
		return w + "/opt/tools/bin"
	}
	return w + "/home/.local/bin"
}

func (p *instPlan) classify(w, f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		if _, e2 := os.Lstat(f); e2 != nil {
			return "none"
		}
		return "unreadable"
	}
	x := ""
	if st, err := os.Stat(f); err == nil && st.Mode().Perm()&0o111 != 0o111 {
		x = " not executable"
	}
	if string(b) == p.oldBinary(w) {
		return "old" + x
	}
	o, a, _ := p.platform()
	for _, tag := range p.Tags {
		if string(b) == instBinary(w, tag, o+"_"+a) {
			return "release " + tag + x
		}
		if string(b) == instBinary(w, tag+"-evil", o+"_"+a) {
			return "altered " + tag
		}
	}
	return fmt.Sprintf("%d bytes that are no release", len(b))
}

func (p *instPlan) oldBinary(w string) string {
	if p.BindirState == 3 {
		o, a, _ := p.platform()
		return instBinary(w, p.target(), o+"_"+a)
	}
	return instBinary(w, "v0.0.9", "old_build")
}

func (t *toolRun) observe() { t.rec("bindir", t.p.state(t.w)) }

// point is where a fault may strike.
func (t *toolRun) point(phase string, chunk int) {
	f := t.fault
	if f == nil || f.Phase != phase || phase == "mid" && f.Chunk != chunk {
		return
	}
	t.fault = nil
	t.rec("fault", f.Class+":"+f.Kind, f.Phase)
	switch f.Kind {
	case "int":
		t.die(syscall.SIGINT, true)
	case "term":
		t.die(syscall.SIGTERM, true)
	case "hup":
		t.die(syscall.SIGHUP, true)
	case "kill":
		t.die(syscall.SIGKILL, true)
	case "term1": // only the shell; the tool goes on to its end
		syscall.Kill(syscall.Getpgrp(), syscall.SIGTERM)
	default:
		t.observe()
		os.Exit(max(1, f.Arg))
	}
}

func (t *toolRun) die(s syscall.Signal, group bool) {
	t.observe()
	syscall.Kill(-syscall.Getpgrp(), s)
	time.Sleep(20 * time.Second)
	os.Exit(1)
}

func (t *toolRun) fail(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, t.name+": "+f+"\n", a...)
	t.observe()
	os.Exit(code)
}

// inside refuses everything outside the scratch directory.
func (t *toolRun) inside(f string) string {
	if f == "" {
		t.fail(1, "cannot use '': No such file or directory")
	}
	a, err := filepath.Abs(f)
	if err != nil {
		t.fail(1, "%v", err)
	}
	if a == "/dev/stdin" || a == "/dev/null" || a == "/dev/stdout" {
		return a
	}
	if !strings.HasPrefix(a, t.w+"/") {
		t.rec("outside", t.name, a)
		t.fail(1, "cannot touch '%s': Permission denied", f)
	}
	return a
}

// write puts the data into a new or truncated file, bit by bit.
func (t *toolRun) write(f string, data []byte, mode os.FileMode, unlink bool) {
	if f == "/dev/stdout" {
		os.Stdout.Write(data)
		return
	}
	if unlink {
		os.Remove(f)
		t.observe()
	}
	fd, err := os.OpenFile(f, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		t.fail(1, "cannot create regular file '%s': %v", f, err)
	}
	t.observe()
	for k := 0; k*chunkLen < len(data); k++ {
		t.point("mid", k)
		fd.Write(data[k*chunkLen : min(len(data), (k+1)*chunkLen)])
		t.observe()
	}
	fd.Close()
}

func instTool(w string) {
	name := filepath.Base(os.Args[0])
	args := os.Args[1:]
	if name == "s" { // a bab binary run through its first line
		instBab(w, args)
		return
	}
	b, err := os.ReadFile(w + "/plan.json")
	if err != nil {
		os.Exit(99)
	}
	p := &instPlan{}
	if json.Unmarshal(b, p) != nil {
		os.Exit(99)
	}
	log, err := os.OpenFile(w+"/trace", os.O_RDWR|os.O_APPEND, 0)
	if err != nil {
		os.Exit(99)
	}
	t := &toolRun{w: w, p: p, name: name, class: instClass[name], log: log}
	tr, _ := os.ReadFile(w + "/trace")
	for _, l := range strings.Split(string(tr), "\n") {
		if strings.HasPrefix(l, "tool\t"+t.class+"\t") {
			t.nth++
		}
	}
	if bytes.Count(tr, []byte("\n")) > 5000 {
		syscall.Kill(-syscall.Getpgrp(), syscall.SIGKILL)
	}
	t.rec("tool", append([]string{t.class, name}, args...)...)
	for i := range p.Faults {
		if f := &p.Faults[i]; f.Class == t.class && f.Nth == t.nth {
			t.fault = f
		}
	}
	t.observe()
	if t.class != "net" || t.fault == nil || t.fault.Kind != "status" {
		t.point("before", 0)
	}
	t.act(args)
	t.observe()
	t.point("after", 0)
	t.observe()
	os.Exit(0)
}

func instBab(w string, args []string) {
	b, _ := os.ReadFile(args[0])
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, "VERSION="); ok {
			fmt.Printf("bab version %s\n  commit: 0123456789abcdef\n  built:  2025-11-02T10:00:00Z\n", v)
			os.Exit(0)
		}
	}
	os.Exit(1)
}

// flags splits the arguments into flags (with values for those in val) and the rest.
func flags(args []string, val string) (map[string]string, []string) {
	fl := map[string]string{}
	var rest []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			return fl, append(rest, args[i+1:]...)
		case strings.HasPrefix(a, "--"):
			n, v, ok := strings.Cut(a[2:], "=")
			if !ok && strings.Contains(val, " "+n+" ") && i+1 < len(args) {
				i++
				v = args[i]
			}
			fl[n] = v
		case len(a) > 1 && a[0] == '-':
			for k := 1; k < len(a); k++ {
				n := a[k : k+1]
				if strings.Contains(val, " "+n+" ") {
					if k+1 < len(a) {
						fl[n] = a[k+1:]
					} else if i+1 < len(args) {
						i++
						fl[n] = args[i]
					}
					break
				}
				fl[n] = ""
			}
		default:
			rest = append(rest, a)
		}
	}
	return fl, rest
}

func hasFlag(fl map[string]string, ns ...string) bool {
	for _, n := range ns {
		if _, ok := fl[n]; ok {
			return true
		}
	}
	return false
}

func (t *toolRun) act(args []string) {
	switch t.name {
	case "uname":
		o := t.p.OS
		if len(args) > 0 && strings.Contains(args[0], "m") {
			o = t.p.Arch
		}
		fmt.Println(o)
	case "bab":
		fmt.Printf("bab version %s\n", t.p.PathBab)
		if t.p.PathBab != "dev" {
			fmt.Printf("  commit: 0123456789abcdef\n  built:  2025-11-02T10:00:00Z\n")
		}
	case "curl", "wget":
		t.download(args)
	case "sha256sum", "gsha256sum", "shasum", "openssl":
		t.hash(args)
	case "tar", "unzip":
		t.untar(args)
	case "mktemp":
		fl, rest := flags(args, " t p tmpdir suffix ")
		dir := t.w + "/tmp"
		tmpl := "tmp.XXXXXXXXXX"
		if hasFlag(fl, "p") && fl["p"] != "" {
			dir = fl["p"]
		}
		if hasFlag(fl, "tmpdir") && fl["tmpdir"] != "" {
			dir = fl["tmpdir"]
		}
		if v := fl["t"]; v != "" && len(rest) == 0 {
			rest = []string{path.Join(dir, v)}
		}
		f := path.Join(dir, tmpl)
		if len(rest) > 0 {
			f = rest[0]
		}
		id := fmt.Sprintf("%06d", 100000+t.nth*7919%899999)
		if i := strings.LastIndex(f, "XXX"); i >= 0 {
			j := i + 3
			for i > 0 && f[i-1] == 'X' {
				i--
			}
			f = f[:i] + id + f[j:]
		} else {
			f += "." + id
		}
		a := t.inside(f)
		var err error
		if hasFlag(fl, "d", "directory") {
			err = os.Mkdir(a, 0o700)
		} else {
			var fd *os.File
			if fd, err = os.OpenFile(a, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600); err == nil {
				fd.Close()
			}
		}
		if err != nil {
			t.fail(1, "failed to create '%s': %v", f, err)
		}
		fmt.Println(f)
	case "mkdir":
		fl, rest := flags(args, " m mode ")
		for _, f := range rest {
			a := t.inside(f)
			var err error
			if hasFlag(fl, "p", "parents") {
				err = os.MkdirAll(a, 0o755)
			} else {
				err = os.Mkdir(a, 0o755)
			}
			if err != nil {
				t.fail(1, "%v", err)
			}
		}
	case "chmod":
		_, rest := flags(args, "")
		if len(rest) > 0 && len(args) > 0 && strings.HasPrefix(args[0], "-") && args[0] != "-R" {
			t.fail(1, "unsupported mode")
		}
		if len(rest) < 2 {
			t.fail(1, "missing operand")
		}
		for _, f := range rest[1:] {
			a := t.inside(f)
			st, err := os.Stat(a)
			if err != nil {
				t.fail(1, "%v", err)
			}
			m := st.Mode().Perm()
			if n, err := strconv.ParseUint(rest[0], 8, 32); err == nil {
				m = os.FileMode(n)
			} else {
				who, perm, _ := strings.Cut(rest[0], "+")
				var bits os.FileMode
				if strings.Contains(perm, "x") {
					bits |= 0o111
				}
				if strings.Contains(perm, "r") {
					bits |= 0o444
				}
				if strings.Contains(perm, "w") {
					bits |= 0o200
				}
				switch who {
				case "u":
					bits &= 0o700
				case "":
					bits &^= os.FileMode(t.p.Umask)
				}
				m |= bits
			}
			if err := os.Chmod(a, m); err != nil {
				t.fail(1, "%v", err)
			}
		}
	case "rm", "rmdir":
		fl, rest := flags(args, "")
		for _, f := range rest {
			if f == "" && hasFlag(fl, "f") {
				continue
			}
			a := t.inside(f)
			if _, err := os.Lstat(a); err != nil && hasFlag(fl, "f") {
				continue
			}
			var err error
			if hasFlag(fl, "r", "R", "recursive") {
				err = os.RemoveAll(a)
			} else {
				err = syscall.Unlink(a)
				if t.name == "rmdir" {
					err = syscall.Rmdir(a)
				}
			}
			if err != nil {
				t.fail(1, "cannot remove '%s': %v", f, err)
			}
		}
	case "install":
		t.install(args)
	case "mv", "cp":
		t.move(args)
	case "ln":
		fl, rest := flags(args, "")
		if len(rest) == 2 {
			a := t.inside(rest[1])
			if hasFlag(fl, "f") {
				os.Remove(a)
				t.observe()
			}
			var err error
			if hasFlag(fl, "s") {
				err = os.Symlink(rest[0], a)
			} else {
				err = os.Link(t.inside(rest[0]), a)
			}
			if err != nil {
				t.fail(1, "%v", err)
			}
		}
	case "sync", "sleep":
	default:
		t.rec("unsupported", t.name)
		t.fail(127, "no such stand-in")
	}
}

func (t *toolRun) dest(rest []string, fl map[string]string) ([]string, string, bool) {
	if d := fl["t"] + fl["target-directory"]; d != "" {
		return rest, t.inside(d), true
	}
	if len(rest) < 2 {
		t.fail(1, "missing file operand")
	}
	d := rest[len(rest)-1]
	a := t.inside(d)
	st, err := os.Stat(a)
	isDir := err == nil && st.IsDir()
	if strings.HasSuffix(d, "/") && !isDir {
		t.fail(1, "target '%s': No such file or directory", d)
	}
	if hasFlag(fl, "T", "no-target-directory") {
		isDir = false
	}
	return rest[:len(rest)-1], a, isDir
}

func (t *toolRun) install(args []string) {
	fl, rest := flags(args, " m mode o owner g group t target-directory S suffix ")
	mode := os.FileMode(0o755)
	if m := fl["m"] + fl["mode"]; m != "" {
		n, err := strconv.ParseUint(m, 8, 32)
		if err == nil {
			mode = os.FileMode(n)
		}
	}
	if hasFlag(fl, "d", "directory") {
		for _, f := range rest {
			if err := os.MkdirAll(t.inside(f), 0o755); err != nil {
				t.fail(1, "cannot create directory '%s': %v", f, err)
			}
		}
		return
	}
	srcs, d, isDir := t.dest(rest, fl)
	if hasFlag(fl, "D") && !isDir {
		os.MkdirAll(filepath.Dir(d), 0o755)
	}
	for _, s := range srcs {
		data, err := os.ReadFile(t.inside(s))
		if err != nil {
			t.fail(1, "cannot stat '%s': %v", s, err)
		}
		f := d
		if isDir {
			f = filepath.Join(d, filepath.Base(s))
		}
		if st, err := os.Lstat(f); err == nil && st.IsDir() {
			t.fail(1, "cannot overwrite directory '%s' with non-directory", f)
		}
		t.write(f, data, 0o600, true)
		if err := os.Chmod(f, mode); err != nil {
			t.fail(1, "%v", err)
		}
	}
}

func (t *toolRun) move(args []string) {
	fl, rest := flags(args, " t target-directory S suffix ")
	srcs, d, isDir := t.dest(rest, fl)
	for _, s := range srcs {
		a := t.inside(s)
		f := d
		if isDir {
			f = filepath.Join(d, filepath.Base(s))
		}
		st, err := os.Stat(a)
		if err != nil {
			t.fail(1, "cannot stat '%s': No such file or directory", s)
		}
		if hasFlag(fl, "n") {
			if _, err := os.Lstat(f); err == nil {
				continue
			}
		}
		onTmp := func(x string) bool { return strings.HasPrefix(x, t.w+"/tmp/") }
		if t.name == "mv" && (!t.p.CrossDev || onTmp(a) == onTmp(f)) {
			if err := os.Rename(a, f); err != nil {
				t.fail(1, "cannot move '%s' to '%s': %v", s, d, err)
			}
			continue
		}
		if st.IsDir() {
			t.fail(1, "-r not specified; omitting directory '%s'", s)
		}
		data, err := os.ReadFile(a)
		if err != nil {
			t.fail(1, "%v", err)
		}
		keep := t.name == "mv" || hasFlag(fl, "p", "a", "preserve")
		m := st.Mode().Perm()
		if !keep {
			m &^= os.FileMode(t.p.Umask)
		}
		if t.name == "mv" {
			t.write(f, data, 0o600, true)
			os.Chmod(f, m)
			os.Remove(a)
		} else {
			t.write(f, data, m, hasFlag(fl, "remove-destination"))
			if keep {
				os.Chmod(f, m)
			}
		}
	}
}

func (t *toolRun) hash(args []string) {
	algo := ""
	var files []string
	for _, a := range args {
		switch {
		case t.name == "openssl" && (a == "dgst" || a == "sha256"):
			algo += a
		case strings.HasPrefix(a, "-") && a != "-":
			algo += a
		case a == "256" && t.name == "shasum":
			algo += a
		default:
			files = append(files, a)
		}
	}
	if len(files) == 0 {
		files = []string{"-"}
	}
	for _, f := range files {
		var b []byte
		var err error
		if f == "-" || f == "/dev/stdin" {
			var buf bytes.Buffer
			_, err = buf.ReadFrom(os.Stdin)
			b = buf.Bytes()
		} else {
			b, err = os.ReadFile(t.inside(f))
		}
		if err != nil {
			t.fail(1, "%s: No such file or directory", f)
		}
		h := sha(b)
		if t.name == "shasum" && !strings.Contains(algo, "256") {
			h = h[:40]
		}
		if t.name == "openssl" {
			if strings.Contains(algo, "-r") {
				fmt.Printf("%s *%s\n", h, f)
			} else {
				fmt.Printf("SHA2-256(%s)= %s\n", f, h)
			}
			continue
		}
		fmt.Printf("%s  %s\n", h, f)
	}
}

func (t *toolRun) untar(args []string) {
	var file, dir string
	dir, _ = os.Getwd()
	want := map[string]bool{}
	if t.name == "tar" {
		if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
			args[0] = "-" + args[0]
		}
		fl, rest := flags(args, " f C file directory strip-components ")
		file = fl["f"] + fl["file"]
		if d := fl["C"] + fl["directory"]; d != "" {
			dir = d
		}
		for _, m := range rest {
			want[m] = true
		}
	} else {
		fl, rest := flags(args, " d ")
		if fl["d"] != "" {
			dir = fl["d"]
		}
		if len(rest) > 0 {
			file = rest[0]
		}
		for _, m := range rest[min(1, len(rest)):] {
			want[m] = true
		}
	}
	b, err := os.ReadFile(t.inside(file))
	if err != nil {
		t.fail(2, "%s: Cannot open: No such file or directory", file)
	}
	s, ok := strings.CutPrefix(string(b), arcMagic)
	kind, s, _ := strings.Cut(s, "\n")
	if !ok || (kind == "zip") != (t.name == "unzip") {
		t.fail(2, "This does not look like an archive")
	}
	for {
		head, rest, ok := strings.Cut(s, "\n")
		if ok && head == "END" {
			return
		}
		name, ns, _ := strings.Cut(head, " ")
		n, err := strconv.Atoi(ns)
		if !ok || err != nil {
			t.fail(2, "Unexpected EOF in archive")
		}
		f := t.inside(filepath.Join(dir, name))
		data := rest[:min(n, len(rest))]
		if len(want) == 0 || want[name] || want["./"+name] {
			os.MkdirAll(filepath.Dir(f), 0o755)
			m := os.FileMode(0o644)
			if strings.HasPrefix(name, "bab") {
				m = 0o755
				t.write(f, []byte(data), m, true)
			} else if err := os.WriteFile(f, []byte(data), m); err != nil {
				t.fail(2, "%v", err)
			}
		}
		if len(data) < n {
			t.fail(2, "Unexpected EOF in archive")
		}
		s = rest[n:]
	}
}

func (t *toolRun) download(args []string) {
	val := " o w H output write-out header A user-agent connect-timeout max-time m retry retry-delay O output-document T t timeout tries U proto tlsv "
	if t.name == "curl" {
		val = strings.Replace(val, " O output-document T t timeout tries U ", " ", 1)
	}
	fl, rest := flags(args, val)
	if len(rest) == 0 {
		t.fail(2, "no URL specified")
	}
	url := rest[len(rest)-1]
	hdr := fl["H"] + fl["header"]
	k, v, _ := strings.Cut(hdr, ":")
	accept := ""
	if strings.EqualFold(k, "accept") {
		accept = strings.TrimSpace(v)
	}
	curl := t.name == "curl"
	follow := !curl || hasFlag(fl, "L", "location")
	out := fl["o"] + fl["output"]
	if !curl {
		out = fl["O"] + fl["output-document"]
		if out == "" {
			out = path.Base(url)
		}
		if out == "-" {
			out = "/dev/stdout"
		}
	} else if out == "" || out == "-" {
		out = "/dev/stdout"
		if hasFlag(fl, "O", "remote-name") {
			out = path.Base(url)
		}
	}
	out = t.inside(out)
	code, body := t.p.serve(t.w, url, accept, follow)
	failed, failCode := false, 0
	if f := t.fault; f != nil && f.Phase == "before" && f.Kind == "status" {
		t.rec("fault", f.Class+":"+f.Kind, f.Phase)
		t.fault = nil
		code, body = f.Arg, []byte(fmt.Sprintf("<html>error %d</html>\n", f.Arg))
	}
	if f := t.fault; f != nil && f.Phase == "mid" && f.Kind == "drop" {
		// the connection breaks off: part of the body, and an error
		t.rec("fault", f.Class+":"+f.Kind, f.Phase)
		t.fault = nil
		body = body[:len(body)*f.Arg/1000]
		failed, failCode = true, 18
		if !curl {
			failCode = 4
		}
	}
	t.rec("get", url, fmt.Sprint(code), fmt.Sprint(len(body)), fmt.Sprint(failed))
	if code >= 400 && (!curl || hasFlag(fl, "f", "fail")) {
		if !curl {
			os.WriteFile(out, nil, 0o644)
		}
		if hasFlag(fl, "w", "write-out") {
			fmt.Printf("%03d", code)
		}
		t.fail(map[bool]int{true: 22, false: 8}[curl], "server returned error %d", code)
	}
	t.write(out, body, 0o644, false)
	if w := fl["w"] + fl["write-out"]; w != "" {
		fmt.Print(strings.NewReplacer("%{http_code}", fmt.Sprintf("%03d", code), "%{response_code}", fmt.Sprintf("%03d", code), `\n`, "\n").Replace(w))
	}
	if failed {
		t.fail(failCode, "transfer closed with outstanding read data remaining")
	}
}

// instPath fills the directory that is the run's PATH.
func instPath(w string, p *instPlan) error {
	names := sortedKeys(instClass)
	sort.Strings(names)
	for _, n := range names {
		skip := n == "bab" && p.PathBab == ""
		for _, m := range p.Missing {
			skip = skip || m == n
		}
		if skip {
			continue
		}
		if err := os.Symlink(w+"/s", w+"/bin/"+n); err != nil {
			return err
		}
	}
	for _, n := range instReal {
		r, err := exec.LookPath(n)
		if err == nil {
			if err := os.Symlink(r, w+"/bin/"+n); err != nil {
				return err
			}
		}
	}
	return os.Symlink("/bin/sh", w+"/bin/sh")
}
