// Package simk is the simulated kernel under the program being checked: file
// system, pipes, terminal, processes, signals and network, all inside one OS
// process, all driven by the runtime's simulated clock and seeded decisions.
// It exists only in the simulator build.
package simk

import (
	"runtime"
	"strconv"
)

type decoder struct {
	b   []byte
	pos int
}

func (d *decoder) u() uint64 {
	var v uint64
	var sh uint
	for {
		if d.pos >= len(d.b) {
			bug("config truncated")
		}
		c := d.b[d.pos]
		d.pos++
		v |= uint64(c&0x7f) << sh
		if c < 0x80 {
			return v
		}
		sh += 7
	}
}

func (d *decoder) i() int64 {
	u := d.u()
	return int64(u>>1) ^ -int64(u&1)
}

func (d *decoder) n() int { return int(d.i()) }

func (d *decoder) s() string {
	n := int(d.u())
	if d.pos+n > len(d.b) {
		bug("config truncated string")
	}
	s := string(d.b[d.pos : d.pos+n])
	d.pos += n
	return s
}

func (d *decoder) tag(t string) {
	if g := d.s(); g != t {
		bug("config: want section " + t + ", got " + g)
	}
}

// trigger kinds
const (
	trTime = iota
	trKop
	trSpawn
	trEnd
	trRaw
	trTick
	trOutput
	trNet
	trFS
)

type trigger struct {
	kind  int
	a     int64
	s     string
	delay int64
	fired bool
	seen  int64
}

// actions
const (
	acSignal    = iota // a = signal, to the program itself
	acTTYInput         // s = bytes
	acTTYHangup        //
	acStdin            // s = bytes
	acStdinEOF         //
	acClock            // a = wall clock offset delta, ns
	acResize           // a = cols, b = rows
	acWriteFile        // s = path, s2 = content
	acRemove           // s = path
	acKillProc         // s = token, a = signal
	acCrash            // a = 0 kill, 1 power loss
	acRename           // s -> s2
	acMkdir            // s
	acSlowDown         // a = ns every thread of the program is stalled
	acDrop             // n-th background child ...
)

type event struct {
	tr trigger
	ac int
	a  int64
	b  int64
	s  string
	s2 string
}

// fault actions
const (
	faErrno = iota
	faShort
	faDelay
	faCrash
	faPower
)

type fault struct {
	class string
	sub   string
	nth   int64 // first matching operation that fails (0-based)
	count int64 // how many fail from there on
	act   int
	arg   int64
	seen  int64
}

type scriptOp struct {
	op  byte
	a   int64
	b   int64
	s   string
	sub []scriptOp
}

type program struct {
	token string
	ops   []scriptOp
}

type fdSpec struct {
	fd    int
	kind  string // null, pipe, tty, sink, file, closed
	label string
	path  string
	flags int
	cap   int
}

type config struct {
	cwd       string
	pid       int
	ppid      int
	flags     int64
	pipeCap   int
	readMode  int
	latP      int
	latMax    int64
	cols      int
	rows      int
	stdin     string
	stdinHold bool
	killDelay int64
	programs  []program
	events    []event
	faults    []fault
	fds       []fdSpec
	net       []netReply
}

func (d *decoder) ops() []scriptOp {
	n := d.n()
	r := make([]scriptOp, n)
	for i := range r {
		r[i].op = byte(d.n())
		r[i].a = d.i()
		r[i].b = d.i()
		r[i].s = d.s()
		r[i].sub = d.ops()
	}
	return r
}

func loadConfig() *config {
	d := &decoder{b: runtime.SimConfig()}
	c := &config{}
	d.tag("BAB1")
	c.cwd = d.s()
	c.pid = d.n()
	c.ppid = d.n()
	c.flags = d.i()
	c.pipeCap = d.n()
	c.readMode = d.n()
	c.latP = d.n()
	c.latMax = d.i()
	c.cols = d.n()
	c.rows = d.n()
	c.stdin = d.s()
	c.stdinHold = d.n() != 0
	c.killDelay = d.i()
	sigInitial = d.n()
	for i := range sigIgnore {
		sigIgnore[i] = i < 32 && sigInitial>>i&1 == 1
	}
	runtime.SimSetVersion(d.s())
	d.tag("FS")
	fsInit()
	for n := d.n(); n > 0; n-- {
		path := d.s()
		kind := byte(d.n())
		mode := uint32(d.n())
		mtime := d.i()
		content := d.s()
		fsSeed(path, kind, mode, mtime, content)
	}
	d.tag("FD")
	for n := d.n(); n > 0; n-- {
		c.fds = append(c.fds, fdSpec{fd: d.n(), kind: d.s(), label: d.s(), path: d.s(), flags: d.n(), cap: d.n()})
	}
	d.tag("PROG")
	for n := d.n(); n > 0; n-- {
		c.programs = append(c.programs, program{token: d.s(), ops: d.ops()})
	}
	d.tag("EV")
	for n := d.n(); n > 0; n-- {
		e := event{}
		e.tr.kind = d.n()
		e.tr.a = d.i()
		e.tr.s = d.s()
		e.tr.delay = d.i()
		e.ac = d.n()
		e.a = d.i()
		e.b = d.i()
		e.s = d.s()
		e.s2 = d.s()
		c.events = append(c.events, e)
	}
	d.tag("FAULT")
	for n := d.n(); n > 0; n-- {
		c.faults = append(c.faults, fault{class: d.s(), sub: d.s(), nth: d.i(), count: d.i(), act: d.n(), arg: d.i()})
	}
	d.tag("NET")
	for n := d.n(); n > 0; n-- {
		var r netReply
		r.kind = d.n()
		r.delay = d.i()
		r.status = d.n()
		r.etag = d.s()
		for k := d.n(); k > 0; k-- {
			r.hdr = append(r.hdr, d.s())
		}
		for k := d.n(); k > 0; k-- {
			r.chunks = append(r.chunks, netChunk{d.i(), d.s()})
		}
		r.end = d.n()
		c.net = append(c.net, r)
	}
	d.tag("END")
	return c
}

// trace -----------------------------------------------------------------

var evBuf []byte
var evSeq int64

func putU(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func putI(b []byte, v int64) []byte { return putU(b, uint64(v<<1)^uint64(v>>63)) }

// ev records one event: a name followed by int64 and string arguments.
func ev(name string, args ...any) {
	b := evBuf[:0]
	b = putI(b, evSeq)
	evSeq++
	b = putI(b, runtime.SimNow())
	b = putU(b, uint64(len(name)))
	b = append(b, name...)
	b = putU(b, uint64(len(args)))
	for _, a := range args {
		switch v := a.(type) {
		case string:
			b = append(b, 's')
			b = putU(b, uint64(len(v)))
			b = append(b, v...)
		case []byte:
			b = append(b, 's')
			b = putU(b, uint64(len(v)))
			b = append(b, v...)
		case int:
			b = append(b, 'i')
			b = putI(b, int64(v))
		case int64:
			b = append(b, 'i')
			b = putI(b, v)
		case uint64:
			b = append(b, 'i')
			b = putI(b, int64(v))
		case uintptr:
			b = append(b, 'i')
			b = putI(b, int64(v))
		case bool:
			b = append(b, 'i')
			if v {
				b = putI(b, 1)
			} else {
				b = putI(b, 0)
			}
		default:
			bug("ev: bad argument type in " + name)
		}
	}
	evBuf = b
	var hdr [10]byte
	h := putU(hdr[:0], uint64(len(b)))
	out := make([]byte, 0, len(h)+len(b))
	out = append(out, h...)
	out = append(out, b...)
	runtime.SimEmit(out)
}

func bug(msg string) {
	println("simk: internal error:", msg)
	runtime.SimExitNow(92)
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

// waiting ----------------------------------------------------------------

type waiter struct {
	ch    chan struct{}
	fired bool
}

func newWaiter() *waiter { return &waiter{ch: make(chan struct{})} }

func (w *waiter) fire() {
	if !w.fired {
		w.fired = true
		close(w.ch)
	}
}

func (w *waiter) wait() { <-w.ch }

type waitq struct{ ws []*waiter }

func (q *waitq) add(w *waiter) {
	// drop waiters that have fired elsewhere
	k := q.ws[:0]
	for _, o := range q.ws {
		if !o.fired {
			k = append(k, o)
		}
	}
	q.ws = append(k, w)
}

func (q *waitq) wake() {
	ws := q.ws
	q.ws = nil
	for _, w := range ws {
		w.fire()
	}
}

// after fires w after d simulated nanoseconds.
func (w *waiter) after(d int64) {
	go func() {
		runtime.SimSleep(d)
		w.fire()
	}()
}

// triggers ------------------------------------------------------------------

func fireEvents(kind int, s string, a int64) {
	for i := range conf.events {
		e := &conf.events[i]
		t := &e.tr
		if t.fired || t.kind != kind {
			continue
		}
		switch kind {
		case trKop, trTick:
			if a != t.a {
				continue
			}
		case trSpawn, trEnd, trRaw, trNet, trFS:
			if t.s != "" && t.s != s {
				continue
			}
			t.seen++
			if t.seen-1 != t.a {
				continue
			}
		}
		t.fired = true
		e.schedule()
	}
}

func (e *event) schedule() {
	if e.tr.delay > 0 {
		go func() {
			runtime.SimSleep(e.tr.delay)
			e.do()
		}()
		return
	}
	e.do()
}

func (e *event) do() {
	ev("event", e.ac, e.a, e.b, e.s)
	switch e.ac {
	case acSignal:
		sigDeliver(self, int(e.a), "event")
	case acTTYInput:
		if theTTY != nil {
			theTTY.input([]byte(e.s))
		}
	case acTTYHangup:
		if theTTY != nil {
			theTTY.hangup()
		}
	case acStdin:
		if stdinPipe != nil {
			stdinPipe.buf = append(stdinPipe.buf, e.s...)
			stdinPipe.rq.wake()
		}
	case acStdinEOF:
		if stdinPipe != nil && stdinPipe.writers > 0 {
			stdinPipe.writers = 0
			stdinPipe.rq.wake()
		}
	case acClock:
		runtime.SimSetWallOffset(runtime.SimWallOffset() + e.a)
	case acResize:
		if theTTY != nil {
			theTTY.cols, theTTY.rows = int(e.a), int(e.b)
			sigDeliver(self, 28, "event")
		}
	case acWriteFile:
		fsPut(e.s, e.s2, 0o644)
	case acRemove:
		fsRemovePath(e.s)
	case acKillProc:
		for _, p := range procs {
			if p.token == e.s && !p.dead {
				sigDeliver(p, int(e.a), "event")
			}
		}
	case acCrash:
		crash(e.a != 0, "event")
	case acRename:
		fsRenamePath(e.s, e.s2)
	case acMkdir:
		fsSeed(e.s, 'd', 0o755, wallNow(), "")
	case acSlowDown:
		stallUntil = runtime.SimNow() + e.a
	}
}
