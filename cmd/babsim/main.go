// Command babsim decides properties of bab by deterministic simulation.
//
//	babsim check <property>     build the simulated bab and search for a violation
//	babsim replay <file>        run a recorded violation again
//	babsim show <property> <i>  run one generated case and print what happened
//	babsim build <out>          only build
//	babsim setup                build and compare repeated executions
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	if w := os.Getenv(instEnv); w != "" {
		instTool(w)
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: babsim check|replay|show|build ...")
		os.Exit(2)
	}
	verif := envOr("BABSIM_VERIF", "/verif")
	repo := envOr("BABSIM_REPO", "/repo")
	e := &engine{verif: verif, repo: repo, tier: envOr("VERIF_TIER", "quick"), bin: os.Getenv("BABSIM_BIN")}
	seed, _ := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	e.seed = seed
	switch os.Args[1] {
	case "build":
		out := os.Args[2]
		dir, err := os.MkdirTemp("", "babsim-")
		if err == nil {
			var n int
			n, err = buildSim(dir, verif, repo, out)
			os.RemoveAll(dir)
			fmt.Println("yield points:", n)
		}
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
	case "setup":
		e.prop = props["C03"]
		e.ensureBin()
		os.Exit(e.selftest())
	case "check":
		p := props[os.Args[2]]
		if p == nil {
			fmt.Println("error: no such property", os.Args[2])
			os.Exit(2)
		}
		e.prop = p
		os.Exit(e.check())
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		must(err)
		id := strings.SplitN(filepath.Base(os.Args[2]), "-", 2)[0]
		e.prop = props[id]
		if e.prop == nil {
			must(fmt.Errorf("no such property %q", id))
		}
		e.known = loadFindings(verif)
		if e.prop.Inst {
			os.Exit(e.instReplay(os.Args[2], b))
		}
		e.ensureBin()
		c, v, rs, same, err := e.replay(b)
		must(err)
		dumpCase(c, rs)
		fmt.Println("recorded:", c.Class, c.Msg)
		fmt.Println("trace identical to the recorded one:", same)
		if v == nil {
			fmt.Println("no violation")
			os.Exit(0)
		}
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, os.Args[2])
		os.Exit(1)
	case "show":
		e.prop = props[os.Args[2]]
		i, _ := strconv.Atoi(os.Args[3])
		e.known = loadFindings(verif)
		if e.prop.Inst {
			e.instShow(i)
			return
		}
		e.ensureBin()
		c := e.gen(i)
		w, err := newWorker(e.bin)
		must(err)
		rs, err := c.run(w)
		dumpCase(c, rs)
		must(err)
		if v := e.prop.Check(c, rs); v != nil {
			fmt.Println(v.Class, v.Msg)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func (e *engine) ensureBin() {
	if e.bin != "" {
		return
	}
	dir, err := os.MkdirTemp("", "babsim-")
	must(err)
	e.bin = filepath.Join(dir, "bab-sim")
	_, err = buildSim(dir, e.verif, e.repo, e.bin)
	must(err)
}

// selftest runs cases of every property twice in different processes and
// compares the traces.
func (e *engine) selftest() int {
	w1, err := newWorker(e.bin)
	must(err)
	w2, err := newWorker(e.bin)
	must(err)
	n, bad := 0, 0
	for _, id := range sortedKeys(props) {
		e.prop = props[id]
		if e.prop.Inst {
			continue
		}
		for i := 0; i < 20; i++ {
			a, err := e.gen(i).run(w1)
			must(err)
			b, err := e.gen(i).run(w2)
			must(err)
			for k := range a {
				n++
				if k >= len(b) || a[k].traceHash() != b[k].traceHash() {
					bad++
				}
			}
		}
	}
	fmt.Printf("self-test: %d executions run twice, %d differed\n", n, bad)
	if bad > 0 {
		return 2
	}
	return 0
}

func dumpCase(c *Case, rs []*Result) {
	if c.Proj != nil {
		for _, f := range c.Proj.files(projDir, c.babfile()) {
			fmt.Printf("--- %s\n%s", f.Path, f.Content)
		}
	}
	for k, r := range rs {
		s := &c.Steps[k].Sim
		fmt.Printf("=== execution %d: bab %s  policy %s, %d deviations\n", k, strings.Join(s.Args, " "), polNames[s.Sched.Policy], len(r.Dev)/2)
		for _, f := range s.Faults {
			fmt.Printf("fault %+v\n", f)
		}
		for _, f := range s.Events {
			fmt.Printf("event %+v\n", f)
		}
		for i := range r.Events {
			switch r.Events[i].Name {
			case "fsdir":
				continue
			}
			fmt.Println(r.Events[i].String())
		}
		fmt.Printf("exit %d steps %d ticks %d t=%dus\n", r.Exit, r.Steps, r.Ticks, r.SimNow/1000)
		if r.Stderr != "" {
			fmt.Println(clip(r.Stderr, 4000))
		}
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func must(err error) {
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
}
