package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Sim is the complete description of one simulated execution. Two runs of an
// equal Sim are identical, event for event.
type Sim struct {
	Args []string `json:"args"`
	Env  []string `json:"env"`
	Cwd  string   `json:"cwd"`

	Files    []SFile    `json:"files,omitempty"`
	FDs      []SFD      `json:"fds"`
	Programs []SProgram `json:"programs,omitempty"`
	Events   []SEvent   `json:"events,omitempty"`
	Faults   []SFault   `json:"faults,omitempty"`
	Net      []SReply   `json:"net,omitempty"`

	PipeCap   int    `json:"pipe_cap"`
	ReadMode  int    `json:"read_mode,omitempty"`
	LatP      int    `json:"lat_p,omitempty"`
	LatMax    int64  `json:"lat_max,omitempty"`
	Cols      int    `json:"cols,omitempty"`
	Rows      int    `json:"rows,omitempty"`
	Stdin     BStr   `json:"stdin,omitempty"`
	StdinHold bool   `json:"stdin_hold,omitempty"`
	KillDelay int64  `json:"kill_delay,omitempty"` // ns between SIGKILL and the end of a process
	Version   string `json:"version,omitempty"`    // what bab was built as; "" is 1.0.0
	Ignore    int    `json:"ignore,omitempty"`     // bit n: signal n is ignored from the start

	StartWall int64 `json:"start_wall"` // ns since the epoch
	MaxTicks  int64 `json:"max_ticks"`
	MaxSim    int64 `json:"max_sim"`

	Sched Sched `json:"sched"`
}

// Sched says how every scheduling and kernel decision is made.
type Sched struct {
	Seed   uint64   `json:"seed,omitempty"`
	Rand   uint64   `json:"rand,omitempty"`
	Policy int      `json:"policy"`
	YieldP int      `json:"yield_p,omitempty"`
	Dev    []uint64 `json:"dev,omitempty"` // (step, choice) pairs for policy 0
}

type SFile struct {
	Path    string `json:"path"`
	Kind    string `json:"kind"` // f d l c
	Mode    int    `json:"mode"`
	Mtime   int64  `json:"mtime"` // ns since the epoch
	Content BStr   `json:"content,omitempty"`
}

type SFD struct {
	FD    int    `json:"fd"`
	Kind  string `json:"kind"`
	Label string `json:"label,omitempty"`
	Path  string `json:"path,omitempty"`
	Flags int    `json:"flags,omitempty"`
	Cap   int    `json:"cap"`
}

// BStr is a byte string that survives JSON whatever its bytes are.
type BStr string

func (s BStr) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return json.Marshal(string(r))
}

func (s *BStr) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	o := make([]byte, 0, len(t))
	for _, r := range t {
		o = append(o, byte(r))
	}
	*s = BStr(o)
	return nil
}

type SProgram struct {
	Token string `json:"token"`
	Ops   []SOp  `json:"ops,omitempty"`
}

type SOp struct {
	Op  string `json:"op"`
	A   int64  `json:"a,omitempty"`
	B   int64  `json:"b,omitempty"`
	S   BStr   `json:"s,omitempty"`
	Sub []SOp  `json:"sub,omitempty"`
}

const (
	trTime = iota
	trKop
	trSpawn
	trEnd
	trRaw
	trTick
	trOutput
	trNet
	trFS
)

const (
	acSignal = iota
	acTTYInput
	acTTYHangup
	acStdin
	acStdinEOF
	acClock
	acResize
	acWriteFile
	acRemove
	acKillProc
	acCrash
	acRename
	acMkdir
	acSlowDown
	acDrop
)

type SEvent struct {
	Trig  int    `json:"trig"`
	TA    int64  `json:"ta,omitempty"`
	TS    string `json:"ts,omitempty"`
	Delay int64  `json:"delay,omitempty"`
	Act   int    `json:"act"`
	A     int64  `json:"a,omitempty"`
	B     int64  `json:"b,omitempty"`
	S     BStr   `json:"s,omitempty"`
	S2    BStr   `json:"s2,omitempty"`
}

const (
	faErrno = iota
	faShort
	faDelay
	faCrash
	faPower
)

type SFault struct {
	Class string `json:"class"`
	Sub   string `json:"sub,omitempty"`
	Nth   int64  `json:"nth"`
	Count int64  `json:"count"`
	Act   int    `json:"act"`
	Arg   int64  `json:"arg"`
}

const (
	nrReply = iota
	nrAuto
	nrDNS
	nrRefused
	nrBlack
	nrReset
	nrTLS
)

const (
	neEOF = iota
	neReset
	neHang
)

type SChunk struct {
	Delay int64 `json:"delay,omitempty"`
	Data  BStr  `json:"data"`
}

type SReply struct {
	Kind   int      `json:"kind"`
	Delay  int64    `json:"delay,omitempty"`
	Status int      `json:"status,omitempty"`
	ETag   string   `json:"etag,omitempty"`
	Hdr    []string `json:"hdr,omitempty"`
	Chunks []SChunk `json:"chunks,omitempty"`
	End    int      `json:"end,omitempty"`
}

type encoder struct{ b []byte }

func (e *encoder) u(v uint64) { e.b = binary.AppendUvarint(e.b, v) }
func (e *encoder) i(v int64)  { e.u(uint64(v<<1) ^ uint64(v>>63)) }
func (e *encoder) n(v int)    { e.i(int64(v)) }
func (e *encoder) s(s string) { e.u(uint64(len(s))); e.b = append(e.b, s...) }
func (e *encoder) flag(v bool) {
	if v {
		e.n(1)
	} else {
		e.n(0)
	}
}

func (e *encoder) ops(ops []SOp) {
	e.n(len(ops))
	for _, o := range ops {
		e.n(int(o.Op[0]))
		e.i(o.A)
		e.i(o.B)
		e.s(string(o.S))
		e.ops(o.Sub)
	}
}

const (
	simPid  = 4242
	simPpid = 4000
)

func (s *Sim) encode() []byte {
	e := &encoder{}
	e.s("BAB1")
	e.s(s.Cwd)
	e.n(simPid)
	e.n(simPpid)
	e.i(0)
	e.n(s.PipeCap)
	e.n(s.ReadMode)
	e.n(s.LatP)
	e.i(s.LatMax)
	e.n(s.Cols)
	e.n(s.Rows)
	e.s(string(s.Stdin))
	e.flag(s.StdinHold)
	e.i(s.KillDelay)
	e.n(s.Ignore)
	e.s(s.Version)
	e.s("FS")
	e.n(len(s.Files))
	for _, f := range s.Files {
		e.s(f.Path)
		e.n(int(f.Kind[0]))
		e.n(f.Mode)
		e.i(f.Mtime)
		e.s(string(f.Content))
	}
	e.s("FD")
	e.n(len(s.FDs))
	for _, f := range s.FDs {
		e.n(f.FD)
		e.s(f.Kind)
		e.s(f.Label)
		e.s(f.Path)
		e.n(f.Flags)
		e.n(f.Cap)
	}
	e.s("PROG")
	e.n(len(s.Programs))
	for _, p := range s.Programs {
		e.s(p.Token)
		e.ops(p.Ops)
	}
	e.s("EV")
	e.n(len(s.Events))
	for _, v := range s.Events {
		e.n(v.Trig)
		e.i(v.TA)
		e.s(v.TS)
		e.i(v.Delay)
		e.n(v.Act)
		e.i(v.A)
		e.i(v.B)
		e.s(string(v.S))
		e.s(string(v.S2))
	}
	e.s("FAULT")
	e.n(len(s.Faults))
	for _, f := range s.Faults {
		e.s(f.Class)
		e.s(f.Sub)
		e.i(f.Nth)
		e.i(f.Count)
		e.n(f.Act)
		e.i(f.Arg)
	}
	e.s("NET")
	e.n(len(s.Net))
	for _, r := range s.Net {
		e.n(r.Kind)
		e.i(r.Delay)
		e.n(r.Status)
		e.s(r.ETag)
		e.n(len(r.Hdr))
		for _, h := range r.Hdr {
			e.s(h)
		}
		e.n(len(r.Chunks))
		for _, c := range r.Chunks {
			e.i(c.Delay)
			e.s(string(c.Data))
		}
		e.n(r.End)
	}
	e.s("END")
	return e.b
}

// Ev is one recorded event.
type Ev struct {
	Seq  int64
	T    int64
	Name string
	A    []any // int64 or string
}

func (e *Ev) I(k int) int64 {
	if k < len(e.A) {
		if v, ok := e.A[k].(int64); ok {
			return v
		}
	}
	return -1 << 62
}

func (e *Ev) S(k int) string {
	if k < len(e.A) {
		if v, ok := e.A[k].(string); ok {
			return v
		}
	}
	return ""
}

func (e *Ev) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d t=%dus %s", e.Seq, e.T/1000, e.Name)
	for _, a := range e.A {
		switch v := a.(type) {
		case int64:
			fmt.Fprintf(&b, " %d", v)
		case string:
			if len(v) > 160 && os.Getenv("BABSIM_FULL") == "" {
				v = v[:160] + "..."
			}
			fmt.Fprintf(&b, " %q", v)
		}
	}
	return b.String()
}

// Result is what one execution did.
type Result struct {
	Exit      int // exit status of the process, or -1
	Status    uint64
	Steps     uint64
	Ticks     uint64
	Switches  uint64
	Hash      uint64
	SimNow    int64
	Kinds     [8]uint64
	Dev       []uint64
	Events    []Ev
	Stderr    string // what the Go runtime itself printed
	wallEnd   int64
	EngineErr string
	Wall      time.Duration
	Probes    map[string]int // what a check looked at
}

func (r *Result) probe(name string, n int) {
	if r.Probes == nil {
		r.Probes = map[string]int{}
	}
	r.Probes[name] += n
}

const (
	exitCrash    = 91
	exitBug      = 92
	exitSignal   = 93
	exitDeadlock = 94
	exitOverflow = 95
	exitBudget   = 96
	exitBadMap   = 97
)

const (
	mapSize = 48 << 20
	hdrSize = 4096
	cfgOff  = hdrSize
	cfgCap  = 4 << 20
	devOff  = cfgOff + cfgCap
	devCap  = 1 << 19 // pairs
	decOff  = devOff + devCap*16
	decCap  = 1 << 20 // pairs
	trOff   = decOff + decCap*16
	trCap   = mapSize - trOff
)

// worker owns one shared mapping and runs simulations one after another.
type worker struct {
	bin string
	fd  *os.File
	mem []byte
}

func newWorker(bin string) (*worker, error) {
	name := [...]byte{'b', 'a', 'b', 's', 'i', 'm', 0}
	r, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		return nil, fmt.Errorf("memfd_create: %v", e)
	}
	f := os.NewFile(r, "babsim-shm")
	if err := f.Truncate(mapSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, mapSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &worker{bin: bin, fd: f, mem: m}, nil
}

func (w *worker) close() {
	syscall.Munmap(w.mem)
	w.fd.Close()
}

func (w *worker) word(i int) uint64       { return binary.LittleEndian.Uint64(w.mem[i*8:]) }
func (w *worker) setWord(i int, v uint64) { binary.LittleEndian.PutUint64(w.mem[i*8:], v) }

// run executes s. Only trouble of the machinery itself sets EngineErr.
func (w *worker) run(s *Sim) *Result {
	res := &Result{Exit: -1}
	clear(w.mem[:hdrSize])
	cfg := s.encode()
	if len(cfg) > cfgCap {
		res.EngineErr = "configuration too large"
		return res
	}
	copy(w.mem[cfgOff:], cfg)
	if len(s.Sched.Dev)/2 > devCap {
		res.EngineErr = "too many deviations"
		return res
	}
	for i, v := range s.Sched.Dev {
		binary.LittleEndian.PutUint64(w.mem[devOff+i*8:], v)
	}
	for i, v := range []uint64{0x62616273696d3031, s.Sched.Seed, s.Sched.Rand, uint64(s.Sched.Policy), uint64(s.Sched.YieldP), uint64(s.StartWall),
		cfgOff, uint64(len(cfg)), devOff, uint64(len(s.Sched.Dev) / 2), trOff, trCap, decOff, decCap, uint64(s.MaxTicks), uint64(s.MaxSim)} {
		w.setWord(i, v)
	}
	start := time.Now()
	cmd := exec.Command(w.bin, s.Args...)
	cmd.Args[0] = "bab"
	cmd.Env = append([]string{}, s.Env...)
	if len(cmd.Env) == 0 {
		cmd.Env = []string{"BABSIM=1"}
	}
	cmd.Dir = "/"
	cmd.ExtraFiles = []*os.File{w.fd}
	var errb bytes.Buffer
	cmd.Stdout = &errb
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		res.EngineErr = "start: " + err.Error()
		return res
	}
	killed := false
	t := time.AfterFunc(60*time.Second, func() { killed = true; cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	res.Wall = time.Since(start)
	res.Stderr = errb.String()
	if len(res.Stderr) > 1<<16 {
		res.Stderr = res.Stderr[:1<<16]
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
		res.Exit = 0
	case errors.As(err, &ee):
		res.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.EngineErr = fmt.Sprintf("simulator process killed by %v", ws.Signal())
		}
	default:
		res.EngineErr = err.Error()
	}
	if killed {
		res.EngineErr = "simulator process ran for more than 60 s of real time"
	}
	r := 16
	trLen := w.word(r)
	decLen := w.word(r + 1)
	res.Steps, res.Ticks, res.Hash, res.SimNow, res.Status, res.Switches = w.word(r+2), w.word(r+3), w.word(r+4), int64(w.word(r+5)), w.word(r+6), w.word(r+7)
	for i := range res.Kinds {
		res.Kinds[i] = w.word(r + 8 + i)
	}
	if decLen > decCap {
		res.EngineErr = "decision record overflow"
		decLen = decCap
	}
	res.Dev = make([]uint64, decLen*2)
	for i := range res.Dev {
		res.Dev[i] = binary.LittleEndian.Uint64(w.mem[decOff+i*8:])
	}
	if trLen > trCap {
		trLen = trCap
	}
	evs, perr := parseTrace(w.mem[trOff : trOff+int(trLen)])
	res.Events = evs
	if perr != nil && res.EngineErr == "" {
		res.EngineErr = perr.Error()
	}
	switch res.Exit {
	case exitBug, exitBadMap:
		res.EngineErr = "simulated kernel: " + res.Stderr
	}
	for i := range evs {
		switch evs[i].Name {
		case "unknown-syscall", "unknown-ioctl":
			if res.EngineErr == "" {
				res.EngineErr = evs[i].String()
			}
		}
	}
	return res
}

func parseTrace(b []byte) ([]Ev, error) {
	var evs []Ev
	bad := errors.New("malformed trace")
	for len(b) > 0 {
		n, k := binary.Uvarint(b)
		if k <= 0 || int(n) > len(b)-k {
			return evs, bad
		}
		r := b[k : k+int(n)]
		b = b[k+int(n):]
		pos := 0
		u := func() uint64 {
			v, k := binary.Uvarint(r[pos:])
			pos += k
			return v
		}
		i := func() int64 { v := u(); return int64(v>>1) ^ -int64(v&1) }
		var e Ev
		e.Seq = i()
		e.T = i()
		l := int(u())
		e.Name = string(r[pos : pos+l])
		pos += l
		na := int(u())
		for ; na > 0; na-- {
			tag := r[pos]
			pos++
			if tag == 's' {
				l := int(u())
				e.A = append(e.A, string(r[pos:pos+l]))
				pos += l
			} else {
				e.A = append(e.A, i())
			}
		}
		evs = append(evs, e)
	}
	return evs, nil
}

// simErrs are problems that end a run abnormally inside the program under test.
func (r *Result) panicked() bool {
	return r.Exit == 2 && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:"))
}

func (r *Result) all(name string) []*Ev {
	var out []*Ev
	for i := range r.Events {
		if r.Events[i].Name == name {
			out = append(out, &r.Events[i])
		}
	}
	return out
}

func (r *Result) first(name string) *Ev {
	for i := range r.Events {
		if r.Events[i].Name == name {
			return &r.Events[i]
		}
	}
	return nil
}

// output concatenates what reached one consumer.
func (r *Result) output(label string) string {
	var b strings.Builder
	for i := range r.Events {
		e := &r.Events[i]
		if e.Name == "out" && e.S(0) == label {
			b.WriteString(e.S(2))
		}
	}
	return b.String()
}

func (r *Result) ttyOutput() string {
	var b strings.Builder
	for i := range r.Events {
		e := &r.Events[i]
		if e.Name == "ttyout" {
			b.WriteString(e.S(2))
		}
	}
	return b.String()
}
