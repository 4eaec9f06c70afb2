package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const (
	goroot   = "/opt/veriftools/go1.25.14"
	modcache = "/root/go/pkg/mod"
)

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOMODCACHE", "GOPATH", "PATH", "CGO_ENABLED", "GOROOT", "GOOS", "GOARCH", "GODEBUG", "GOEXPERIMENT", "HOME", "GOCACHE":
			continue
		}
		env = append(env, kv)
	}
	return append(env,
		"HOME=/root",
		"PATH="+goroot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE="+modcache, "GOCACHE="+envOr("GOCACHE", "/root/.cache/go-build"),
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

// overlayBuilder collects the replacement files of a go build -overlay.
type overlayBuilder struct {
	dir     string
	replace map[string]string
	n       int
}

func newOverlay(dir string) *overlayBuilder {
	return &overlayBuilder{dir: dir, replace: map[string]string{}}
}

func (o *overlayBuilder) put(target string, content []byte) error {
	o.n++
	p := filepath.Join(o.dir, fmt.Sprintf("ov%04d_%s", o.n, filepath.Base(target)))
	if err := os.WriteFile(p, content, 0o644); err != nil {
		return err
	}
	o.replace[target] = p
	return nil
}

func (o *overlayBuilder) write() (string, error) {
	b, err := json.Marshal(map[string]any{"Replace": o.replace})
	if err != nil {
		return "", err
	}
	p := filepath.Join(o.dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

func addStd(o *overlayBuilder, verif string) error {
	edited := map[string]string{}
	order := []string{}
	for _, p := range stdPatches {
		src, ok := edited[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return err
			}
			src = string(b)
			order = append(order, p.file)
		}
		if c := strings.Count(src, p.old); c != 1 {
			return fmt.Errorf("std patch for %s matches %d times: %q", p.file, c, p.old)
		}
		edited[p.file] = strings.Replace(src, p.old, p.new, 1)
	}
	for _, f := range order {
		if err := o.put(filepath.Join(goroot, "src", f), []byte(edited[f])); err != nil {
			return err
		}
	}
	root := filepath.Join(verif, "sim", "std")
	return filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return o.put(filepath.Join(goroot, "src", rel), b)
	})
}

func runGo(dir string, args ...string) error {
	cmd := exec.Command(filepath.Join(goroot, "bin", "go"), args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

// simModfile writes a go.mod that replaces golang.org/x/sys with a copy whose
// raw system-call entry points go through package syscall.
func simModfile(dir, repo string) (string, error) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	ver := ""
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		for i := range f {
			if f[i] == "golang.org/x/sys" && i+1 < len(f) {
				ver = f[i+1]
			}
		}
	}
	if ver == "" {
		return "", fmt.Errorf("no golang.org/x/sys in %s/go.mod", repo)
	}
	src := filepath.Join(modcache, "golang.org/x/sys@"+ver)
	dst := filepath.Join(dir, "xsys")
	if err := os.MkdirAll(filepath.Join(dst, "unix"), 0o755); err != nil {
		return "", err
	}
	// only what a linux/amd64 build needs
	for _, sub := range []string{".", "unix", "internal", "cpu", "execabs", "plan9", "windows"} {
		ents, err := os.ReadDir(filepath.Join(src, sub))
		if err != nil {
			continue
		}
		if sub != "." && sub != "unix" && sub != "cpu" {
			continue
		}
		if err := os.MkdirAll(filepath.Join(dst, sub), 0o755); err != nil {
			return "", err
		}
		for _, e := range ents {
			if e.IsDir() {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, sub, e.Name()))
			if err != nil {
				return "", err
			}
			if sub == "unix" {
				switch e.Name() {
				case "asm_linux_amd64.s":
					b = []byte("// Emptied for the simulator build.\n")
				case "syscall_linux_gc.go":
					b = []byte(xsysGo)
				case "syscall_unix_gc.go":
					b = []byte(xsysUnixGo)
				}
				if e.Name() == "syscall_linux_amd64_gc.go" {
					b = []byte(xsysAmdGo)
				}
			}
			if err := os.WriteFile(filepath.Join(dst, sub, e.Name()), b, 0o644); err != nil {
				return "", err
			}
		}
	}
	out := string(mod) + "\nreplace golang.org/x/sys => " + dst + "\n"
	p := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(p, []byte(out), 0o644); err != nil {
		return "", err
	}
	return p, os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

const xsysGo = `//go:build linux && gc

package unix

import "syscall"

//go:uintptrescapes
func SyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	r1, r2, _ = syscall.Syscall(trap, a1, a2, a3)
	return
}

//go:uintptrescapes
func RawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	r1, r2, _ = syscall.Syscall(trap, a1, a2, a3)
	return
}
`

const xsysAmdGo = `//go:build amd64 && linux && gc

package unix

import (
	"syscall"
	"unsafe"
)

func gettimeofday(tv *Timeval) (err syscall.Errno) {
	_, _, err = RawSyscall(SYS_GETTIMEOFDAY, uintptr(unsafe.Pointer(tv)), 0, 0)
	return
}
`

const xsysUnixGo = `//go:build (darwin || dragonfly || freebsd || (linux && !ppc64 && !ppc64le) || netbsd || solaris) && gc

package unix

import "syscall"

//go:uintptrescapes
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return syscall.Syscall(trap, a1, a2, a3)
}

//go:uintptrescapes
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrescapes
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return syscall.Syscall(trap, a1, a2, a3)
}

//go:uintptrescapes
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}
`

// buildSim builds the program under test on the simulated kernel.
func buildSim(dir, verif, repo, out string) (yields int, err error) {
	o := newOverlay(dir)
	if err := addStd(o, verif); err != nil {
		return 0, err
	}
	yields, err = addInstrumented(o, repo)
	if err != nil {
		return 0, err
	}
	ov, err := o.write()
	if err != nil {
		return 0, err
	}
	mf, err := simModfile(dir, repo)
	if err != nil {
		return 0, err
	}
	return yields, runGo(repo, "build", "-modfile", mf, "-overlay", ov, "-tags", "faketime", "-trimpath",
		"-ldflags", "-X main.version=1.0.0", "-o", out, ".")
}
