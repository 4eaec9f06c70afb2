package simk

import "runtime"

const (
	EPERM        = 1
	ENOENT       = 2
	ESRCH        = 3
	EINTR        = 4
	EIO          = 5
	ENXIO        = 6
	EBADF        = 9
	ECHILD       = 10
	EAGAIN       = 11
	ENOMEM       = 12
	EACCES       = 13
	EFAULT       = 14
	EEXIST       = 17
	EXDEV        = 18
	ENOTDIR      = 20
	EISDIR       = 21
	EINVAL       = 22
	EMFILE       = 24
	ENOTTY       = 25
	EFBIG        = 27
	ENOSPC       = 28
	ESPIPE       = 29
	EROFS        = 30
	EPIPE        = 32
	ERANGE       = 34
	ENAMETOOLONG = 36
	ENOSYS       = 38
	ENOTEMPTY    = 39
	ELOOP        = 40
	EAFNOSUPPORT = 97
)

const (
	oWRONLY    = 1
	oRDWR      = 2
	oCREAT     = 0x40
	oEXCL      = 0x80
	oTRUNC     = 0x200
	oAPPEND    = 0x400
	oNONBLOCK  = 0x800
	oDIRECTORY = 0x10000
	oNOFOLLOW  = 0x20000
	oCLOEXEC   = 0x80000
)

// kinds of open file description
const (
	kFile = iota
	kDir
	kPipeR
	kPipeW
	kTTY
	kSink
	kNull
	kZero
	kEpoll
	kEvent
	kPath
	kFull
)

type ofd struct {
	kind  int
	refs  int
	flags int
	ino   *inode
	off   int64
	pipe  *pipe
	sink  *sink
	tty   *tty
	ep    *epoll
	evfd  *eventfd
	label string
	dents []dirent
	path  string
}

type fdent struct {
	o       *ofd
	cloexec bool
}

type pipe struct {
	id      int
	buf     []byte
	cap     int
	readers int
	writers int
	rq, wq  waitq
	label   string
}

var nextPipe int

// sink is a consumer outside the program: the terminal emulator's pipe, a log
// collector, a file the shell redirected to.
type sink struct {
	label string
	total int64
	cap   int64 // bytes accepted before the consumer goes away, -1 = unlimited
	errno uintptr
	delay int64
}

type eventfd struct {
	n  uint64
	rq waitq
}

func (o *ofd) ref() *ofd { o.refs++; return o }

func (o *ofd) unref() {
	o.refs--
	if o.refs > 0 {
		return
	}
	switch o.kind {
	case kPipeR:
		o.pipe.readers--
		if o.pipe.readers == 0 {
			o.pipe.wq.wake()
		}
	case kPipeW:
		o.pipe.writers--
		if o.pipe.writers == 0 {
			o.pipe.rq.wake()
		}
	case kEpoll:
		o.ep.items = nil
	}
}

func (o *ofd) readable() bool {
	switch o.kind {
	case kPipeR:
		return len(o.pipe.buf) > 0 || o.pipe.writers == 0
	case kTTY:
		return o.tty.readable()
	case kEvent:
		return o.evfd.n > 0
	case kEpoll:
		return false
	case kPipeW, kSink:
		return false
	}
	return true
}

func (o *ofd) writable() bool {
	switch o.kind {
	case kPipeW:
		return o.pipe.readers == 0 || len(o.pipe.buf) < o.pipe.cap
	case kPipeR:
		return false
	}
	return true
}

func (o *ofd) hup() bool {
	switch o.kind {
	case kPipeR:
		return o.pipe.writers == 0
	case kPipeW:
		return o.pipe.readers == 0
	case kTTY:
		return o.tty.hung
	}
	return false
}

func (o *ofd) rwq() *waitq {
	switch o.kind {
	case kPipeR:
		return &o.pipe.rq
	case kTTY:
		return &o.tty.rq
	case kEvent:
		return &o.evfd.rq
	}
	return nil
}

func (o *ofd) wwq() *waitq {
	if o.kind == kPipeW {
		return &o.pipe.wq
	}
	return nil
}

// pollable reports whether epoll accepts the file.
func (o *ofd) pollable() bool {
	switch o.kind {
	case kPipeR, kPipeW, kTTY, kEvent, kSink:
		return true
	}
	return false
}

// read on behalf of p. It returns -1 and an errno on failure.
// noteStdin records what bab itself takes from its standard input.
func (o *ofd) noteStdin(p *proc, b []byte) {
	if p == self && o.label == "stdin" && len(b) > 0 {
		ev("stdinread", string(b))
	}
}

func (o *ofd) read(p *proc, b []byte) (int, uintptr) {
	switch o.kind {
	case kNull:
		return 0, 0
	case kZero, kFull:
		clear(b)
		return len(b), 0
	case kDir:
		return -1, EISDIR
	case kFile:
		if o.flags&3 == oWRONLY {
			return -1, EBADF
		}
		if o.off >= int64(len(o.ino.data)) {
			return 0, 0
		}
		n := copy(b, o.ino.data[o.off:])
		n = chunk(p, n)
		o.off += int64(n)
		o.noteStdin(p, b[:n])
		return n, 0
	case kPipeR:
		for len(o.pipe.buf) == 0 {
			if o.pipe.writers == 0 {
				return 0, 0
			}
			if len(b) == 0 {
				return 0, 0
			}
			if o.flags&oNONBLOCK != 0 {
				return -1, EAGAIN
			}
			if !p.blockOn(&o.pipe.rq) {
				return -1, EINTR
			}
		}
		n := len(b)
		if n > len(o.pipe.buf) {
			n = len(o.pipe.buf)
		}
		n = chunk(p, n)
		copy(b, o.pipe.buf[:n])
		o.pipe.buf = append([]byte(nil), o.pipe.buf[n:]...)
		o.pipe.wq.wake()
		o.noteStdin(p, b[:n])
		return n, 0
	case kTTY:
		return o.tty.read(p, o, b)
	case kEvent:
		for o.evfd.n == 0 {
			if o.flags&oNONBLOCK != 0 {
				return -1, EAGAIN
			}
			if !p.blockOn(&o.evfd.rq) {
				return -1, EINTR
			}
		}
		if len(b) < 8 {
			return -1, EINVAL
		}
		v := o.evfd.n
		o.evfd.n = 0
		for i := 0; i < 8; i++ {
			b[i] = byte(v >> (8 * i))
		}
		return 8, 0
	}
	return -1, EBADF
}

// chunk decides how much of an available n-byte read is returned.
func chunk(p *proc, n int) int {
	if n <= 1 || p != self || conf.readMode == 0 {
		return n
	}
	switch runtime.SimDecide(3, 4) {
	case 0:
		return n
	case 1:
		return 1
	case 2:
		return n - 1
	default:
		return 1 + runtime.SimDecide(3, n-1)
	}
}

func (o *ofd) write(p *proc, b []byte) (int, uintptr) {
	switch o.kind {
	case kNull, kZero:
		return len(b), 0
	case kFull:
		return -1, ENOSPC
	case kDir:
		return -1, EBADF
	case kFile:
		if o.flags&3 == 0 {
			return -1, EBADF
		}
		if o.flags&oAPPEND != 0 {
			o.off = int64(len(o.ino.data))
		}
		o.ino.writeAt(b, o.off)
		o.off += int64(len(b))
		return len(b), 0
	case kPipeW:
		done := 0
		for done < len(b) || len(b) == 0 {
			if o.pipe.readers == 0 {
				if done > 0 {
					return done, 0
				}
				sigDeliver(p, 13, "pipe")
				return -1, EPIPE
			}
			if len(b) == 0 {
				return 0, 0
			}
			room := o.pipe.cap - len(o.pipe.buf)
			if room <= 0 {
				if o.flags&oNONBLOCK != 0 {
					if done > 0 {
						return done, 0
					}
					return -1, EAGAIN
				}
				if !p.blockOn(&o.pipe.wq) {
					if done > 0 {
						return done, 0
					}
					return -1, EINTR
				}
				continue
			}
			n := len(b) - done
			if n > room {
				n = room
			}
			o.pipe.buf = append(o.pipe.buf, b[done:done+n]...)
			done += n
			o.pipe.rq.wake()
		}
		return done, 0
	case kTTY:
		if o.tty.hung {
			return -1, EIO
		}
		ev("ttyout", p.pid, o.tty.opost(), b)
		o.tty.wrote(b)
		return len(b), 0
	case kSink:
		s := o.sink
		if s.delay > 0 && p == self {
			runtime.SimSleep(s.delay)
		}
		if s.cap >= 0 && s.total+int64(len(b)) > s.cap {
			n := s.cap - s.total
			if n > 0 {
				s.total += n
				ev("out", s.label, p.pid, b[:n])
				return int(n), 0
			}
			ev("fault-fired", "sink", s.label, int64(s.errno))
			if s.errno == EPIPE {
				sigDeliver(p, 13, "sink")
			}
			return -1, s.errno
		}
		s.total += int64(len(b))
		ev("out", s.label, p.pid, b)
		outSeen(b)
		return len(b), 0
	case kEvent:
		if len(b) < 8 {
			return -1, EINVAL
		}
		var v uint64
		for i := 0; i < 8; i++ {
			v |= uint64(b[i]) << (8 * i)
		}
		o.evfd.n += v
		o.evfd.rq.wake()
		return 8, 0
	}
	return -1, EBADF
}

// outSeen fires triggers that wait for text to appear on the program's output.
var outTail []byte

func outSeen(b []byte) {
	need := false
	for i := range conf.events {
		if conf.events[i].tr.kind == trOutput && !conf.events[i].tr.fired {
			need = true
		}
	}
	if !need {
		return
	}
	outTail = append(outTail, b...)
	if len(outTail) > 65536+len(b) {
		outTail = append([]byte(nil), outTail[len(outTail)-4096-len(b):]...)
	}
	for i := range conf.events {
		e := &conf.events[i]
		if e.tr.kind != trOutput || e.tr.fired {
			continue
		}
		// occurrences that end in what was just written
		from := len(outTail) - len(b) - len(e.tr.s) + 1
		if from < 0 {
			from = 0
		}
		for k := from; k+len(e.tr.s) <= len(outTail); k++ {
			if string(outTail[k:k+len(e.tr.s)]) == e.tr.s {
				e.tr.seen++
			}
		}
		if e.tr.seen > e.tr.a {
			e.tr.fired = true
			e.schedule()
		}
	}
}

// terminal -----------------------------------------------------------------

type tty struct {
	term       [36]byte
	cols, rows int
	pgrp       int
	sid        int
	ready      []byte // bytes a reader may take
	line       []byte // line being edited in canonical mode
	eof        int
	hung       bool
	rq         waitq
	rawSeen    int
	sttyPgrp   int
}

var theTTY *tty

const (
	lISIG   = 0x1
	lICANON = 0x2
	lECHO   = 0x8
	iICRNL  = 0x100
	oOPOST  = 0x1
)

func (t *tty) u32(off int) uint32 {
	return uint32(t.term[off]) | uint32(t.term[off+1])<<8 | uint32(t.term[off+2])<<16 | uint32(t.term[off+3])<<24
}

func (t *tty) put32(off int, v uint32) {
	t.term[off], t.term[off+1], t.term[off+2], t.term[off+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}

func (t *tty) lflag() uint32 { return t.u32(12) }
func (t *tty) opost() int {
	if t.u32(4)&oOPOST != 0 {
		return 1
	}
	return 0
}

func newTTY(cols, rows int) *tty {
	t := &tty{cols: cols, rows: rows}
	t.put32(0, 0x4500)
	t.put32(4, 0x5)
	t.put32(8, 0xbf)
	t.put32(12, 0x8a3b)
	cc := []byte{3, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26, 0, 18, 15, 23, 22, 0, 0, 0}
	copy(t.term[17:], cc)
	return t
}

func (t *tty) readable() bool { return len(t.ready) > 0 || t.eof > 0 || t.hung }

func (t *tty) input(b []byte) {
	if t.hung {
		return
	}
	ev("ttyin", b)
	for _, c := range b {
		if t.u32(0)&iICRNL != 0 && c == '\r' {
			c = '\n'
		}
		if t.lflag()&lISIG != 0 {
			sig := 0
			switch c {
			case 3:
				sig = 2
			case 28:
				sig = 3
			case 26:
				sig = 20
			}
			if sig != 0 {
				t.line = nil
				for _, p := range snapshotProcs() {
					if p.pgid == t.pgrp && !p.dead {
						sigDeliver(p, sig, "tty")
					}
				}
				continue
			}
		}
		if t.lflag()&lECHO != 0 {
			ev("ttyecho", string([]byte{c}))
		}
		if t.lflag()&lICANON != 0 {
			switch c {
			case 4:
				if len(t.line) == 0 {
					t.eof++
				} else {
					t.ready = append(t.ready, t.line...)
					t.line = nil
				}
			case 127:
				if len(t.line) > 0 {
					t.line = t.line[:len(t.line)-1]
				}
			case '\n':
				t.ready = append(t.ready, t.line...)
				t.ready = append(t.ready, '\n')
				t.line = nil
			default:
				t.line = append(t.line, c)
			}
		} else {
			t.ready = append(t.ready, c)
		}
	}
	if t.readable() {
		t.rq.wake()
	}
}

func (t *tty) hangup() {
	t.hung = true
	ev("tty-hangup")
	t.rq.wake()
	for _, p := range snapshotProcs() {
		if p.pgid == t.pgrp && !p.dead {
			sigDeliver(p, 1, "tty")
		}
	}
}

func (t *tty) read(p *proc, o *ofd, b []byte) (int, uintptr) {
	for {
		if t.hung {
			return 0, 0
		}
		if p.pgid != t.pgrp {
			// Job control: a background process that reads its terminal is
			// stopped, unless it ignores SIGTTIN or is orphaned.
			ev("sigttin", p.pid)
			if p.ignores(21) {
				return -1, EIO
			}
			if !p.stop(21) {
				return -1, EINTR
			}
			continue
		}
		if len(t.ready) > 0 {
			n := len(b)
			if t.lflag()&lICANON != 0 {
				for i, c := range t.ready {
					if c == '\n' {
						if i+1 < n {
							n = i + 1
						}
						break
					}
				}
			}
			if n > len(t.ready) {
				n = len(t.ready)
			}
			copy(b, t.ready[:n])
			t.ready = append([]byte(nil), t.ready[n:]...)
			return n, 0
		}
		if t.eof > 0 {
			t.eof--
			return 0, 0
		}
		if len(b) == 0 {
			return 0, 0
		}
		if o.flags&oNONBLOCK != 0 {
			return -1, EAGAIN
		}
		if !p.blockOn(&t.rq) {
			return -1, EINTR
		}
	}
}

func (t *tty) wrote(b []byte) { outSeen(b) }

func (t *tty) setattr(p *proc, b []byte) {
	wasRaw := t.lflag()&lICANON == 0
	copy(t.term[:], b[:36])
	ev("ttymode", p.pid, int64(t.u32(0)), int64(t.u32(4)), int64(t.lflag()))
	if t.lflag()&lICANON == 0 {
		// pending edited input becomes readable
		t.ready = append(t.ready, t.line...)
		t.line = nil
		if len(t.ready) > 0 {
			t.rq.wake()
		}
		if !wasRaw && p == self {
			fireEvents(trRaw, "", 0)
		}
	}
}

// epoll ----------------------------------------------------------------------

type epitem struct {
	fd     int
	o      *ofd
	events uint32
	data   uint64
}

type epoll struct{ items []*epitem }

const (
	epIN  = 1
	epOUT = 4
	epERR = 8
	epHUP = 16
)

func (o *ofd) ready(events uint32) uint32 {
	var r uint32
	if events&epIN != 0 && o.readable() {
		r |= epIN
	}
	if events&epOUT != 0 && o.writable() {
		r |= epOUT
	}
	if o.hup() {
		r |= epHUP
		if events&epIN != 0 {
			r |= epIN
		}
	}
	return r
}

func (o *ofd) watch(w *waiter, events uint32) {
	if q := o.rwq(); q != nil {
		q.add(w)
	}
	if events&epOUT != 0 {
		if q := o.wwq(); q != nil {
			q.add(w)
		}
	}
}

// Poll support for package internal/poll: one descriptor registered with the
// runtime poller.
type Poll struct {
	o       *ofd
	closing bool
	rd, wd  int64 // absolute simulated deadlines, 0 none, -1 expired
	rw, ww  *waiter
	rseq    int
	wseq    int
}

var polls = []*Poll{nil}

// PollOpen registers fd; the result is a handle or 0 and an errno.
func PollOpen(fd uintptr) (uintptr, int) {
	e := self.fds.get(int(fd))
	if e == nil {
		return 0, EBADF
	}
	if !e.o.pollable() {
		return 0, EPERM
	}
	polls = append(polls, &Poll{o: e.o})
	return uintptr(len(polls) - 1), 0
}

func PollClose(ctx uintptr) {}

func (p *Poll) state(mode int) int {
	if p.closing {
		return 1
	}
	d := p.rd
	if mode == 'w' {
		d = p.wd
	}
	if d != 0 && (d < 0 || runtime.SimNow() >= d) {
		return 2
	}
	return 0
}

func PollReset(ctx uintptr, mode int) int { return polls[ctx].state(mode) }

func PollWait(ctx uintptr, mode int) int {
	p := polls[ctx]
	for {
		if s := p.state(mode); s != 0 {
			return s
		}
		if mode == 'r' && (p.o.readable() || p.o.hup()) || mode == 'w' && (p.o.writable() || p.o.hup()) {
			return 0
		}
		w := newWaiter()
		if mode == 'r' {
			p.o.watch(w, epIN)
			p.rw = w
			if p.rd > 0 {
				w.after(p.rd - runtime.SimNow())
			}
		} else {
			p.o.watch(w, epOUT)
			p.ww = w
			if p.wd > 0 {
				w.after(p.wd - runtime.SimNow())
			}
		}
		w.wait()
	}
}

func PollUnblock(ctx uintptr) {
	p := polls[ctx]
	p.closing = true
	p.kick()
}

func (p *Poll) kick() {
	if p.rw != nil {
		p.rw.fire()
	}
	if p.ww != nil {
		p.ww.fire()
	}
}

func PollSetDeadline(ctx uintptr, d int64, mode int) {
	p := polls[ctx]
	abs := d
	if d > 0 {
		abs = runtime.SimNow() + d
	}
	if mode == 'r' || mode == 'r'+'w' {
		p.rd = abs
	}
	if mode == 'w' || mode == 'r'+'w' {
		p.wd = abs
	}
	p.kick()
}
