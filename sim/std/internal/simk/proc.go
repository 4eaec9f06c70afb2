package simk

import "runtime"

type fdtable struct{ ents []*fdent }

func (t *fdtable) get(fd int) *fdent {
	if fd < 0 || fd >= len(t.ents) {
		return nil
	}
	return t.ents[fd]
}

func (t *fdtable) alloc(o *ofd, cloexec bool, min int) int {
	for fd := min; ; fd++ {
		for fd >= len(t.ents) {
			t.ents = append(t.ents, nil)
		}
		if t.ents[fd] == nil {
			t.ents[fd] = &fdent{o, cloexec}
			return fd
		}
	}
}

func (t *fdtable) set(fd int, o *ofd, cloexec bool) {
	for fd >= len(t.ents) {
		t.ents = append(t.ents, nil)
	}
	t.ents[fd] = &fdent{o, cloexec}
}

func (t *fdtable) count() int {
	n := 0
	for _, e := range t.ents {
		if e != nil {
			n++
		}
	}
	return n
}

type proc struct {
	pid, ppid, pgid, sid int
	argv                 []string
	text, token          string
	fds                  fdtable
	cwd                  *inode
	dead, reaped         bool
	doomed               bool // killed, but not gone yet
	status               int
	ign                  [65]bool
	stopped              bool
	contq                waitq
	cur                  *waiter
	depth                int
	uid                  int
}

var (
	conf       *config
	self       *proc
	procs      []*proc
	nextPid    int
	childq     waitq
	stdinPipe  *pipe
	wallBase   int64
	stallUntil int64
	kop        int64
)

func snapshotProcs() []*proc { return append([]*proc(nil), procs...) }

func (p *proc) ignores(sig int) bool { return p.ign[sig] }

// blockOn waits for q; false means the process died meanwhile.
func (p *proc) blockOn(q *waitq) bool {
	w := newWaiter()
	q.add(w)
	return p.blockW(w)
}

func (p *proc) blockW(w *waiter) bool {
	if p == self {
		w.wait()
		return true
	}
	p.cur = w
	w.wait()
	p.cur = nil
	return p.unstopped()
}

func (p *proc) unstopped() bool {
	for (p.stopped || p.doomed) && !p.dead {
		w := newWaiter()
		p.contq.add(w)
		p.cur = w
		w.wait()
		p.cur = nil
	}
	return !p.dead
}

func (p *proc) stop(sig int) bool {
	if p.dead {
		return false
	}
	p.stopped = true
	ev("stopped", p.pid, p.token, sig)
	return p.unstopped()
}

func (p *proc) sleep(d int64) bool {
	if p.dead {
		return false
	}
	w := newWaiter()
	w.after(d)
	return p.blockW(w)
}

func (p *proc) exit(status int) {
	if p.dead {
		return
	}
	p.dead = true
	p.status = status
	ev("procend", p.pid, p.token, status>>8, status&0x7f)
	for i, e := range p.fds.ents {
		if e != nil {
			p.fds.ents[i] = nil
			e.o.unref()
		}
	}
	for _, c := range procs {
		if c.ppid == p.pid {
			c.ppid = 1
			if c.dead {
				c.reaped = true
			}
		}
	}
	if p.ppid == 1 {
		p.reaped = true
	}
	if p.cur != nil {
		p.cur.fire()
	}
	p.contq.wake()
	childq.wake()
	if p.token != "" {
		fireEvents(trEnd, p.token, 0)
	}
}

// signals ---------------------------------------------------------------------

var (
	sigWanted  [65]bool
	sigIgnore  [65]bool
	sigPending [65]bool
	sigInitial int // ignored when bab was started
	sigq       waitq
	sigRecving bool
)

func SigEnable(s uint32)       { sigWanted[s] = true; sigIgnore[s] = false; ev("sigenable", int(s)) }
func SigIgnore(s uint32)       { sigWanted[s] = false; sigIgnore[s] = true }
func SigIgnored(s uint32) bool { return sigIgnore[s] }

func SigDisable(s uint32) {
	sigWanted[s] = false
	sigIgnore[s] = s < 32 && sigInitial>>s&1 == 1 // what was there at the start
	ev("sigdisable", int(s))
}

func SigRecv() uint32 {
	for {
		for i := 1; i < 65; i++ {
			if sigPending[i] {
				sigPending[i] = false
				sigRecving = false
				return uint32(i)
			}
		}
		w := newWaiter()
		sigq.add(w)
		sigRecving = true
		w.wait()
		sigRecving = false
	}
}

func SigWaitIdle() {
	for i := 0; !sigRecving && i < 10000; i++ {
		runtime.SimSleep(100)
	}
}

func sigDeliver(p *proc, sig int, from string) {
	if p.dead || sig == 0 {
		return
	}
	if p == self {
		ev("sigself", sig, from, sigWanted[sig])
		if sig != 9 && sigWanted[sig] {
			sigPending[sig] = true
			sigq.wake()
			return
		}
		if sig != 9 && sigIgnore[sig] {
			return
		}
		switch sig {
		case 13, 17, 18, 23, 28:
			return
		case 19, 20, 21, 22:
			ev("self-stop", sig)
			return
		}
		ev("exit-signal", sig)
		finish()
		runtime.SimExitNow(93)
		return
	}
	ev("sig", p.pid, p.token, sig, from)
	switch sig {
	case 9:
		if conf.killDelay > 0 {
			if !p.doomed {
				p.doomed = true
				go func() {
					runtime.SimSleep(conf.killDelay)
					p.exit(9)
				}()
			}
			return
		}
		p.exit(9)
		return
	case 18:
		p.stopped = false
		p.contq.wake()
		return
	case 19:
		p.stopped = true
		return
	}
	if p.ign[sig] {
		return
	}
	switch sig {
	case 17, 23, 28:
		return
	case 20, 21, 22:
		p.stopped = true
		return
	}
	p.exit(sig)
}

// KilledByPipe is the default action of a write to a broken standard stream.
func KilledByPipe() {
	if sigWanted[13] || sigIgnore[13] {
		return
	}
	ev("exit-signal", 13)
	finish()
	runtime.SimExitNow(93)
}

func kill(pid, sig int) uintptr {
	var targets []*proc
	for _, p := range procs {
		if p.reaped {
			continue
		}
		switch {
		case pid > 0:
			if p.pid == pid {
				targets = append(targets, p)
			}
		case pid == 0:
			if p.pgid == self.pgid {
				targets = append(targets, p)
			}
		case pid == -1:
			if p.pid != 1 && p != self {
				targets = append(targets, p)
			}
		default:
			if p.pgid == -pid {
				targets = append(targets, p)
			}
		}
	}
	ev("kill", pid, sig, len(targets))
	if len(targets) == 0 {
		return ESRCH
	}
	if sig == 0 {
		return 0
	}
	// the caller last
	for _, p := range targets {
		if p != self {
			sigDeliver(p, sig, "kill")
		}
	}
	for _, p := range targets {
		if p == self {
			sigDeliver(p, sig, "kill")
		}
	}
	return 0
}

// program lookup ----------------------------------------------------------------

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// findProgram returns the script whose token occurs as a word in text.
func findProgram(text string) *program {
	i := 0
	for i < len(text) {
		if !isWord(text[i]) {
			i++
			continue
		}
		j := i
		for j < len(text) && isWord(text[j]) {
			j++
		}
		w := text[i:j]
		for k := range conf.programs {
			if conf.programs[k].token == w {
				return &conf.programs[k]
			}
		}
		i = j
	}
	return nil
}

// SpawnAttr carries what the child side of fork and exec would use.
type SpawnAttr struct {
	Dir        string
	Env        []string
	Files      []uintptr
	Setpgid    bool
	Pgid       int
	Setsid     bool
	Setctty    bool
	Noctty     bool
	Ctty       int
	Foreground bool
	Pdeathsig  int
}

func Spawn(argv0 string, argv []string, a *SpawnAttr) (int, uintptr) {
	text := ""
	for i, s := range argv {
		if i > 0 {
			text += "\x1f"
		}
		text += s
	}
	if e := sysEnter("spawn", text); e != 0 {
		ev("spawnfail", text, int64(e))
		return 0, e
	}
	cwd := self.cwd
	if a.Dir != "" {
		_, _, n, e := walk(self.cwd, a.Dir, true, false)
		if e == 0 && n.kind != 'd' {
			e = ENOTDIR
		}
		if e == 0 && n.mode&0o100 == 0 {
			e = EACCES
		}
		if e != 0 {
			ev("spawnfail", text, int64(e))
			return 0, e
		}
		cwd = n
	}
	_, _, x, e := walk(cwd, argv0, true, false)
	if e == 0 && (x.kind != 'f' || x.mode&0o111 == 0) {
		e = EACCES
	}
	if e != 0 {
		ev("spawnfail", text, int64(e))
		return 0, e
	}
	p := &proc{ppid: self.pid, pgid: self.pgid, sid: self.sid, argv: argv, cwd: cwd, uid: self.uid}
	for s := range sigIgnore {
		p.ign[s] = sigIgnore[s]
	}
	nextPid++
	p.pid = nextPid
	cmd := text
	if len(argv) >= 3 {
		cmd = argv[2]
	}
	p.text = cmd
	prog := findProgram(cmd)
	if prog != nil {
		p.token = prog.token
	}
	fdDesc := ""
	for i, f := range a.Files {
		if int(f) < 0 {
			continue
		}
		ent := self.fds.get(int(f))
		if ent == nil {
			ev("spawnfail", text, int64(EBADF))
			return 0, EBADF
		}
		p.fds.set(i, ent.o.ref(), false)
		if i > 0 {
			fdDesc += ","
		}
		fdDesc += ent.o.describe()
	}
	// descriptors without close-on-exec leak into the child
	for fd, ent := range self.fds.ents {
		if ent != nil && !ent.cloexec && fd >= len(a.Files) && fd > 2 {
			p.fds.set(fd, ent.o.ref(), false)
			fdDesc += ",leak" + itoa(int64(fd))
		}
	}
	if a.Setsid {
		p.sid, p.pgid = p.pid, p.pid
	}
	if a.Setpgid || a.Foreground {
		p.pgid = a.Pgid
		if a.Pgid == 0 {
			p.pgid = p.pid
		}
	}
	if a.Foreground && theTTY != nil {
		theTTY.pgrp = p.pgid
		ev("ttypgrp", p.pgid)
	}
	procs = append(procs, p)
	envs := ""
	for _, s := range a.Env {
		envs += s + "\x00"
	}
	ev("spawn", p.pid, p.token, text, cwd.path(), envs, fdDesc, p.pgid, int64(runtime.SimGoid()), argv0)
	if p.token != "" {
		fireEvents(trSpawn, p.token, 0)
	}
	var ops []scriptOp
	if prog != nil {
		ops = prog.ops
	}
	go p.main(ops)
	runtime.SimYield()
	return p.pid, 0
}

func (o *ofd) describe() string {
	switch o.kind {
	case kPipeR, kPipeW:
		if o.label != "" {
			return o.label
		}
		return "pipe" + itoa(int64(o.pipe.id))
	case kTTY:
		return "tty"
	case kSink:
		return "sink:" + o.sink.label
	case kNull:
		return "null"
	case kFile:
		return "file:" + o.path
	}
	return "kind" + itoa(int64(o.kind))
}

func (p *proc) main(ops []scriptOp) {
	if !p.run(ops) {
		return
	}
	p.exit(0)
}

type rendezvous struct {
	name string
	n    int
	q    waitq
}

var rvs []*rendezvous

func (p *proc) writeFD(fd int, s string) bool {
	ent := p.fds.get(fd)
	if ent == nil {
		return true
	}
	b := []byte(s)
	ev("pout", p.pid, p.token, fd, b)
	for len(b) > 0 {
		n, e := ent.o.write(p, b)
		if p.dead {
			return false
		}
		if e == EINTR || !p.unstopped() {
			return false
		}
		if e != 0 {
			ev("pouterr", p.pid, p.token, fd, int64(e), len(b))
			return true
		}
		b = b[n:]
	}
	return true
}

// run executes a script; false means the process is gone.
func (p *proc) run(ops []scriptOp) bool {
	for i := range ops {
		if p.dead {
			return false
		}
		op := &ops[i]
		if !p.unstopped() {
			return false
		}
		switch op.op {
		case 'o':
			if !p.writeFD(int(op.a), op.s) {
				return false
			}
		case 's':
			if !p.sleep(op.a) {
				return false
			}
		case 'x':
			p.exit(int(op.a) << 8)
			return false
		case 'k':
			sigDeliver(p, int(op.a), "self")
			if p.dead {
				return false
			}
		case 'r':
			var got []byte
			ok := true
			for {
				var b [256]byte
				n := 1
				if op.a == 1 {
					n = 256
				}
				ent := p.fds.get(0)
				if ent == nil {
					ev("procread", p.pid, p.token, string(got), EBADF)
					ok = false
					break
				}
				k, e := ent.o.read(p, b[:n])
				if p.dead {
					return false
				}
				if e != 0 {
					ev("procread", p.pid, p.token, string(got), int64(e))
					ok = false
					break
				}
				got = append(got, b[:k]...)
				if k == 0 || op.a == 0 && b[0] == '\n' {
					break
				}
			}
			if ok {
				ev("procread", p.pid, p.token, string(got), 0)
			}
		case 'b':
			c := &proc{ppid: p.pid, pgid: p.pgid, sid: p.sid, argv: p.argv, cwd: p.cwd, token: op.s, text: p.text, ign: p.ign, depth: p.depth + 1}
			nextPid++
			c.pid = nextPid
			if op.a == 1 {
				c.sid, c.pgid = c.pid, c.pid
			}
			for fd, ent := range p.fds.ents {
				if ent != nil {
					c.fds.set(fd, ent.o.ref(), false)
				}
			}
			procs = append(procs, c)
			ev("fork", c.pid, c.token, p.pid, c.pgid)
			go c.main(op.sub)
		case 'w':
			for {
				alive := false
				for _, c := range procs {
					if c.ppid == p.pid && !c.dead {
						alive = true
					}
				}
				if !alive {
					break
				}
				if !p.blockOn(&childq) {
					return false
				}
			}
		case 'i':
			p.ign[op.a] = true
		case 'c':
			if ent := p.fds.get(int(op.a)); ent != nil {
				p.fds.ents[op.a] = nil
				ent.o.unref()
			}
		case 'v':
			var r *rendezvous
			for _, x := range rvs {
				if x.name == op.s {
					r = x
				}
			}
			if r == nil {
				r = &rendezvous{name: op.s}
				rvs = append(rvs, r)
			}
			r.n++
			ev("rv-arrive", p.pid, p.token, op.s, r.n)
			if r.n >= int(op.a) {
				r.q.wake()
			} else {
				w := newWaiter()
				r.q.add(w)
				if op.b > 0 {
					w.after(op.b)
				}
				if !p.blockW(w) {
					return false
				}
				if r.n < int(op.a) {
					ev("rv-timeout", p.pid, p.token, op.s, r.n)
				}
			}
		case 'h':
			var q waitq
			for {
				if !p.blockOn(&q) {
					return false
				}
			}
		case 'm':
			ev("mark", p.pid, p.token, op.s)
		case 'f':
			fsPut(op.s, string(op.sub[0].s), 0o644)
		case 't':
			if ent := p.fds.get(0); ent != nil && ent.o.kind == kTTY {
				t := ent.o.tty
				if p.pgid != t.pgrp && !p.ignores(22) {
					if !p.stop(22) {
						return false
					}
				}
				b := t.term
				l := t.lflag()
				if op.a == 1 {
					l &^= lICANON | lECHO
				} else {
					l |= lICANON | lECHO
				}
				b[12], b[13], b[14], b[15] = byte(l), byte(l>>8), byte(l>>16), byte(l>>24)
				t.setattr(p, b[:])
			}
		default:
			bug("script op " + string(rune(op.op)))
		}
	}
	return !p.dead
}

// life cycle ---------------------------------------------------------------------

func init() { boot() }

func boot() {
	wallBase = runtime.SimWallBase()
	conf = loadConfig()
	self = &proc{pid: conf.pid, ppid: conf.ppid, pgid: conf.pid, sid: conf.ppid}
	self.uid = 1000
	nextPid = conf.pid + 10
	procs = append(procs, self)
	saveBase()
	if _, _, n, e := walk(root, conf.cwd, true, false); e == 0 {
		self.cwd = n
	} else {
		bug("cwd does not exist: " + conf.cwd)
	}
	if conf.cols > 0 {
		theTTY = newTTY(conf.cols, conf.rows)
		theTTY.pgrp = self.pgid
		theTTY.sid = self.sid
	}
	var sinks []*ofd
	for _, f := range conf.fds {
		var o *ofd
		switch f.kind {
		case "closed":
			continue
		case "null":
			o = &ofd{kind: kNull, flags: oRDWR}
		case "tty":
			for _, x := range sinks {
				if x.kind == kTTY {
					o = x
				}
			}
			if o == nil {
				o = &ofd{kind: kTTY, flags: oRDWR, tty: theTTY}
				sinks = append(sinks, o)
			}
		case "stdin":
			stdinPipe = &pipe{cap: 1 << 20, readers: 1, writers: 1, buf: []byte(conf.stdin), label: "stdin"}
			if !conf.stdinHold {
				stdinPipe.writers = 0
			}
			o = &ofd{kind: kPipeR, pipe: stdinPipe, label: "stdin"}
		case "sink":
			for _, x := range sinks {
				if x.kind == kSink && x.sink.label == f.label {
					o = x
				}
			}
			if o == nil {
				s := &sink{label: f.label, cap: int64(f.cap), errno: uintptr(f.flags & 0xff), delay: int64(f.flags >> 8)}
				o = &ofd{kind: kSink, flags: oWRONLY, sink: s}
				sinks = append(sinks, o)
			}
		case "file":
			_, _, n, e := walk(root, f.path, true, false)
			if e != 0 {
				bug("fd file missing " + f.path)
			}
			o = &ofd{kind: kFile, ino: n, flags: f.flags, path: f.path, label: f.label}
		default:
			bug("fd kind " + f.kind)
		}
		self.fds.set(f.fd, o.ref(), false)
	}
	runtime.SimExitHook = func(code int) {
		runtime.SimStop()
		ev("exit", code)
		finish()
	}
	for i := range conf.events {
		e := &conf.events[i]
		switch e.tr.kind {
		case trTime:
			e.tr.fired = true
			go func() {
				if e.tr.a > 0 {
					runtime.SimSleep(e.tr.a)
				}
				e.do()
			}()
		case trTick:
			runtime.SimTickAt(uint64(e.tr.a), func() { fireEvents(trTick, "", e.tr.a) })
		}
	}
	go func() {
		runtime.SimIdlePark()
		runtime.SimStop()
		ev("deadlock")
		for _, p := range procs {
			if !p.dead && !p.doomed && p != self {
				ev("alive", p.pid, p.token, p.stopped, p.pgid)
			}
		}
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		rawWrite(2, buf[:n])
		fsDump()
		runtime.SimExitNow(94)
	}()
}

// finish records the state the program leaves behind.
func finish() {
	runtime.SimStop()
	for _, p := range procs {
		if !p.dead && !p.doomed && p != self {
			ev("alive", p.pid, p.token, p.stopped, p.pgid)
		}
	}
	if theTTY != nil {
		ev("ttyfinal", int64(theTTY.u32(0)), int64(theTTY.u32(4)), int64(theTTY.u32(8)), int64(theTTY.lflag()), theTTY.pgrp == self.pgid)
	}
	ev("final", kop)
	fsDump()
}

func crash(power bool, why string) {
	ev("crash", power, why, kop)
	if power {
		powerLoss()
	}
	runtime.SimStop()
	fsDump()
	runtime.SimExitNow(91)
}
