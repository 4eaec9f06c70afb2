package simk

import (
	rs "internal/runtime/syscall"
	"runtime"
	"unsafe"
)

func rawWrite(fd uintptr, b []byte) {
	for len(b) > 0 {
		n, _, e := rs.Syscall6(1, fd, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0, 0, 0)
		if e != 0 {
			return
		}
		b = b[n:]
	}
}

func mem(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	n := 0
	for *(*byte)(unsafe.Pointer(p + uintptr(n))) != 0 {
		n++
	}
	return string(mem(p, n))
}

func put64(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * i))
	}
}

func put32(b []byte, v uint32) {
	for i := 0; i < 4; i++ {
		b[i] = byte(v >> (8 * i))
	}
}

func get32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// shortLimit is set by a short-read or short-write fault for the call at hand.
var shortLimit = -1

// sysEnter accounts for one kernel operation of the program: it is a
// scheduling point, may take simulated time, and may fail.
func sysEnter(class, path string) uintptr {
	shortLimit = -1
	kop++
	runtime.SimYield()
	fireEvents(trKop, "", kop)
	if stallUntil > runtime.SimNow() {
		runtime.SimSleep(stallUntil - runtime.SimNow())
	}
	if conf.latP > 0 && conf.latMax > 0 && class != "read" && class != "write" {
		if runtime.SimDecide(3, conf.latP) == 1 {
			runtime.SimSleep(1 + conf.latMax*int64(1+runtime.SimDecide(3, 16))/16)
		}
	}
	fireEvents(trFS, class, 0)
	for i := range conf.faults {
		f := &conf.faults[i]
		if f.class != class || f.sub != "" && !containsStr(path, f.sub) {
			continue
		}
		f.seen++
		if f.seen-1 < f.nth || f.seen-1 >= f.nth+f.count {
			continue
		}
		ev("fault-fired", class, path, f.act, f.arg)
		switch f.act {
		case faErrno:
			return uintptr(f.arg)
		case faShort:
			shortLimit = int(f.arg)
		case faDelay:
			runtime.SimSleep(f.arg)
		case faCrash:
			crash(false, class)
		case faPower:
			crash(true, class)
		}
	}
	return 0
}

func containsStr(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

const atFDCWD = ^uintptr(99)

func dirBase(dirfd uintptr, path string) (*inode, uintptr) {
	if len(path) > 0 && path[0] == '/' || int32(dirfd) == -100 {
		return self.cwd, 0
	}
	e := self.fds.get(int(int32(dirfd)))
	if e == nil {
		return nil, EBADF
	}
	if e.o.kind != kDir {
		return nil, ENOTDIR
	}
	return e.o.ino, 0
}

func fill(st []byte, n *inode, kind int) {
	clear(st[:144])
	var mode uint32
	var size, rdev uint64
	ino := uint64(0)
	var mt int64
	nlink := uint64(1)
	if n != nil {
		ino = n.ino
		mode = n.mode
		mt = n.mtime
		switch n.kind {
		case 'f':
			mode |= 0o100000
			size = uint64(len(n.data))
		case 'd':
			mode |= 0o040000
			size = 4096
			nlink = 2
		case 'l':
			mode |= 0o120000
			size = uint64(len(n.target))
		case 'c':
			mode |= 0o020000
		}
	} else {
		switch kind {
		case kPipeR, kPipeW, kSink:
			mode = 0o010600
		case kTTY:
			mode = 0o020620
			rdev = 0x8801
		case kNull, kZero, kFull:
			mode = 0o020666
			rdev = 0x103
		}
	}
	put64(st[0:], 2049)
	put64(st[8:], ino)
	put64(st[16:], nlink)
	put32(st[24:], mode)
	put32(st[28:], 1000)
	put32(st[32:], 1000)
	put64(st[40:], rdev)
	put64(st[48:], size)
	put64(st[56:], 4096)
	put64(st[64:], (size+511)/512)
	for _, o := range []int{72, 88, 104} {
		put64(st[o:], uint64(mt/1e9))
		put64(st[o+8:], uint64(mt%1e9))
	}
}

func openAt(dirfd uintptr, path string, flags int, mode uint32) (int, uintptr) {
	base, e := dirBase(dirfd, path)
	if e != 0 {
		return -1, e
	}
	if e := sysEnter("open", path); e != 0 {
		ev("fs", "open", path, int64(e))
		return -1, e
	}
	dir, name, n, e := walk(base, path, flags&oNOFOLLOW == 0, false)
	if e == ENOENT && dir != nil && flags&oCREAT != 0 {
		if dir.mode&0o200 == 0 {
			ev("fs", "open", path, EACCES)
			return -1, EACCES
		}
		n = newInode('f', mode&^0o022)
		dir.link(name, n)
		dir.mtime = wallNow()
		logop(fsop{kind: 'c', dir: dir.ino, name: name, ino: n.ino, ikind: 'f', mode: n.mode, mtime: n.mtime})
		ev("fs", "create", path, 0)
	} else if e != 0 {
		ev("fs", "open", path, int64(e))
		return -1, e
	} else {
		if flags&oCREAT != 0 && flags&oEXCL != 0 {
			ev("fs", "open", path, EEXIST)
			return -1, EEXIST
		}
		acc := flags & 3
		if n.kind == 'd' && acc != 0 {
			return -1, EISDIR
		}
		if n.kind == 'l' {
			return -1, ELOOP
		}
		if acc != oWRONLY && n.mode&0o400 == 0 || acc != 0 && n.mode&0o200 == 0 {
			ev("fs", "open", path, EACCES)
			return -1, EACCES
		}
		if flags&oDIRECTORY != 0 && n.kind != 'd' {
			return -1, ENOTDIR
		}
		if flags&oTRUNC != 0 && n.kind == 'f' && acc != 0 {
			n.truncate(0)
		}
		ev("fs", "open", path, 0)
	}
	o := &ofd{kind: kFile, ino: n, flags: flags &^ oCLOEXEC, path: path}
	switch n.kind {
	case 'd':
		o.kind = kDir
	case 'c':
		switch n.dev {
		case "null":
			o.kind = kNull
		case "zero":
			o.kind = kZero
		case "full":
			o.kind = kFull
		case "tty":
			if theTTY == nil || theTTY.hung {
				return -1, ENXIO
			}
			o.kind = kTTY
			o.tty = theTTY
		}
		o.ino = n
	}
	return self.fds.alloc(o.ref(), flags&oCLOEXEC != 0, 0), 0
}

// Syscall is the one entry point for system calls of the simulated program.
func Syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr) {
	runtime.SimTick()
	r, e := dispatch(trap, a1, a2, a3, a4, a5, a6)
	runtime.SimYield()
	if e != 0 {
		return ^uintptr(0), 0, e
	}
	return uintptr(r), 0, 0
}

func getFD(fd uintptr) *ofd {
	e := self.fds.get(int(int32(fd)))
	if e == nil {
		return nil
	}
	return e.o
}

func dispatch(trap, a1, a2, a3, a4, a5, a6 uintptr) (int, uintptr) {
	switch trap {
	case 0, 17: // read, pread64
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		if e := sysEnter("read", o.name()); e != 0 {
			return -1, e
		}
		n := int(a3)
		if shortLimit >= 0 && n > shortLimit {
			n = shortLimit
		}
		if trap == 17 {
			if o.kind != kFile {
				return -1, ESPIPE
			}
			if int64(a4) >= int64(len(o.ino.data)) {
				return 0, 0
			}
			return copy(mem(a2, n), o.ino.data[a4:]), 0
		}
		return o.read(self, mem(a2, n))
	case 1, 18, 20: // write, pwrite64, writev
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		var b []byte
		if trap == 20 {
			for i := uintptr(0); i < a3; i++ {
				base := *(*uintptr)(unsafe.Pointer(a2 + i*16))
				n := *(*uintptr)(unsafe.Pointer(a2 + i*16 + 8))
				b = append(b, mem(base, int(n))...)
			}
		} else {
			b = mem(a2, int(a3))
		}
		if e := sysEnter("write", o.name()); e != 0 {
			if o.kind == kFile {
				ev("fs", "write", o.path, int64(e))
			}
			return -1, e
		}
		if shortLimit >= 0 && len(b) > shortLimit {
			b = b[:shortLimit]
		}
		if o.kind == kFile {
			ev("fs", "write", o.path, 0)
		}
		if trap == 18 {
			o.ino.writeAt(b, int64(a4))
			return len(b), 0
		}
		return o.write(self, b)
	case 2: // open
		return openAt(atFDCWD, cstr(a1), int(a2), uint32(a3))
	case 257: // openat
		return openAt(a1, cstr(a2), int(a3), uint32(a4))
	case 85: // creat
		return openAt(atFDCWD, cstr(a1), oCREAT|oWRONLY|oTRUNC, uint32(a2))
	case 3: // close
		ent := self.fds.get(int(int32(a1)))
		if ent == nil {
			return -1, EBADF
		}
		e := sysEnter("close", ent.o.name())
		self.fds.ents[int(int32(a1))] = nil
		ent.o.unref()
		if e != 0 {
			return -1, e
		}
		return 0, 0
	case 5: // fstat
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		if e := sysEnter("fstat", o.name()); e != 0 {
			return -1, e
		}
		fill(mem(a2, 144), o.ino, o.kind)
		return 0, 0
	case 4, 6, 262: // stat, lstat, newfstatat
		var path string
		dirfd := atFDCWD
		buf := a2
		flags := uintptr(0)
		if trap == 262 {
			dirfd, path, buf, flags = a1, cstr(a2), a3, a4
		} else {
			path = cstr(a1)
			if trap == 6 {
				flags = 0x100
			}
		}
		if path == "" && flags&0x1000 != 0 {
			o := getFD(dirfd)
			if o == nil {
				return -1, EBADF
			}
			fill(mem(buf, 144), o.ino, o.kind)
			return 0, 0
		}
		base, e := dirBase(dirfd, path)
		if e != 0 {
			return -1, e
		}
		if e := sysEnter("stat", path); e != 0 {
			return -1, e
		}
		_, _, n, e := walk(base, path, flags&0x100 == 0, false)
		if e != 0 {
			return -1, e
		}
		fill(mem(buf, 144), n, 0)
		return 0, 0
	case 8: // lseek
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		switch o.kind {
		case kFile, kDir:
		case kNull, kZero, kFull:
			return 0, 0
		default:
			return -1, ESPIPE
		}
		off := int64(a2)
		switch a3 {
		case 1:
			off += o.off
		case 2:
			off += int64(len(o.ino.data))
		}
		if off < 0 {
			return -1, EINVAL
		}
		o.off = off
		if off == 0 {
			o.dents = nil
		}
		return int(off), 0
	case 16: // ioctl
		return ioctl(a1, a2, a3)
	case 22, 293: // pipe, pipe2
		flags := 0
		if trap == 293 {
			flags = int(a2)
		}
		if e := sysEnter("pipe", ""); e != 0 {
			return -1, e
		}
		nextPipe++
		p := &pipe{id: nextPipe, cap: conf.pipeCap, readers: 1, writers: 1}
		r := self.fds.alloc((&ofd{kind: kPipeR, pipe: p, flags: flags & oNONBLOCK}).ref(), flags&oCLOEXEC != 0, 0)
		w := self.fds.alloc((&ofd{kind: kPipeW, pipe: p, flags: flags&oNONBLOCK | oWRONLY}).ref(), flags&oCLOEXEC != 0, 0)
		b := mem(a1, 8)
		put32(b, uint32(r))
		put32(b[4:], uint32(w))
		return 0, 0
	case 32, 33, 292: // dup, dup2, dup3
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		if trap == 32 {
			return self.fds.alloc(o.ref(), false, 0), 0
		}
		nf := int(int32(a2))
		if e := self.fds.get(nf); e != nil {
			if e.o == o && nf == int(int32(a1)) {
				return nf, 0
			}
			e.o.unref()
		}
		self.fds.set(nf, o.ref(), trap == 292 && a3&oCLOEXEC != 0)
		return nf, 0
	case 72: // fcntl
		ent := self.fds.get(int(int32(a1)))
		if ent == nil {
			return -1, EBADF
		}
		switch a2 {
		case 0, 1030: // F_DUPFD, F_DUPFD_CLOEXEC
			return self.fds.alloc(ent.o.ref(), a2 == 1030, int(a3)), 0
		case 1:
			if ent.cloexec {
				return 1, 0
			}
			return 0, 0
		case 2:
			ent.cloexec = a3&1 != 0
			return 0, 0
		case 3:
			return ent.o.flags, 0
		case 4:
			ent.o.flags = ent.o.flags&^(oNONBLOCK|oAPPEND) | int(a3)&(oNONBLOCK|oAPPEND)
			return 0, 0
		case 5, 6, 7, 36, 37, 38:
			return 0, 0
		}
		return -1, EINVAL
	case 73: // flock
		return 0, 0
	case 74, 75: // fsync, fdatasync
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		if e := sysEnter("fsync", o.name()); e != 0 {
			ev("fs", "fsync", o.name(), int64(e))
			return -1, e
		}
		if o.ino != nil {
			fsSync(o.ino)
		}
		ev("fs", "fsync", o.name(), 0)
		return 0, 0
	case 162: // sync
		for i := range fslog {
			fslog[i].synced = true
		}
		return 0, 0
	case 76, 77: // truncate, ftruncate
		var n *inode
		name := ""
		if trap == 77 {
			o := getFD(a1)
			if o == nil || o.ino == nil {
				return -1, EBADF
			}
			n = o.ino
			name = o.name()
		} else {
			name = cstr(a1)
			_, _, x, e := walk(self.cwd, name, true, false)
			if e != 0 {
				return -1, e
			}
			n = x
		}
		if e := sysEnter("truncate", name); e != 0 {
			return -1, e
		}
		n.truncate(int64(a2))
		return 0, 0
	case 79: // getcwd
		if e := sysEnter("getcwd", ""); e != 0 {
			return -1, e
		}
		s := self.cwd.path()
		if len(s)+1 > int(a2) {
			return -1, ERANGE
		}
		b := mem(a1, len(s)+1)
		copy(b, s)
		b[len(s)] = 0
		return len(s) + 1, 0
	case 80, 81: // chdir, fchdir
		var n *inode
		if trap == 80 {
			_, _, x, e := walk(self.cwd, cstr(a1), true, false)
			if e != 0 {
				return -1, e
			}
			n = x
		} else {
			o := getFD(a1)
			if o == nil || o.ino == nil {
				return -1, EBADF
			}
			n = o.ino
		}
		if n.kind != 'd' {
			return -1, ENOTDIR
		}
		self.cwd = n
		ev("chdir", n.path())
		return 0, 0
	case 82, 264, 316: // rename, renameat, renameat2
		d1, p1, d2, p2 := atFDCWD, "", atFDCWD, ""
		if trap == 82 {
			p1, p2 = cstr(a1), cstr(a2)
		} else {
			d1, p1, d2, p2 = a1, cstr(a2), a3, cstr(a4)
		}
		b1, e1 := dirBase(d1, p1)
		b2, e2 := dirBase(d2, p2)
		if e1 != 0 || e2 != 0 {
			return -1, EBADF
		}
		if e := sysEnter("rename", p1+" "+p2); e != 0 {
			ev("fs", "rename", p1+" "+p2, int64(e))
			return -1, e
		}
		x, n1, src, e := walk(b1, p1, false, true)
		if e != 0 {
			return -1, e
		}
		y, n2, dst, e := walk(b2, p2, false, true)
		if y == nil {
			return -1, e
		}
		if x.mode&0o200 == 0 || y.mode&0o200 == 0 {
			return -1, EACCES
		}
		if onTmp(x) != onTmp(y) {
			ev("fs", "rename", p1+" "+p2, int64(EXDEV))
			return -1, EXDEV
		}
		if dst != nil && dst != src {
			if dst.kind == 'd' && src.kind != 'd' {
				return -1, EISDIR
			}
			if dst.kind != 'd' && src.kind == 'd' {
				return -1, ENOTDIR
			}
			if dst.kind == 'd' && len(dst.ents) > 0 {
				return -1, ENOTEMPTY
			}
		}
		if dst != src {
			fsRename(x, n1, y, n2, src)
		}
		ev("fs", "rename", p1+" "+p2, 0)
		return 0, 0
	case 83, 258: // mkdir, mkdirat
		dirfd, path, mode := atFDCWD, "", a2
		if trap == 83 {
			path = cstr(a1)
		} else {
			dirfd, path, mode = a1, cstr(a2), a3
		}
		base, e := dirBase(dirfd, path)
		if e != 0 {
			return -1, e
		}
		if e := sysEnter("mkdir", path); e != 0 {
			return -1, e
		}
		d, name, n, e := walk(base, path, false, true)
		if n != nil {
			return -1, EEXIST
		}
		if d == nil {
			return -1, e
		}
		if d.mode&0o200 == 0 {
			return -1, EACCES
		}
		n = newInode('d', uint32(mode)&0o755)
		d.link(name, n)
		logop(fsop{kind: 'c', dir: d.ino, name: name, ino: n.ino, ikind: 'd', mode: n.mode, mtime: n.mtime})
		ev("fs", "mkdir", path, 0)
		return 0, 0
	case 84, 87, 263: // rmdir, unlink, unlinkat
		dirfd, path := atFDCWD, ""
		rm := trap == 84
		if trap == 263 {
			dirfd, path = a1, cstr(a2)
			rm = a3&0x200 != 0
		} else {
			path = cstr(a1)
		}
		base, e := dirBase(dirfd, path)
		if e != 0 {
			return -1, e
		}
		if e := sysEnter("unlink", path); e != 0 {
			ev("fs", "unlink", path, int64(e))
			return -1, e
		}
		d, name, n, e := walk(base, path, false, true)
		if e != 0 {
			return -1, e
		}
		if rm {
			if n.kind != 'd' {
				return -1, ENOTDIR
			}
			if len(n.ents) > 0 {
				return -1, ENOTEMPTY
			}
		} else if n.kind == 'd' {
			return -1, EISDIR
		}
		if d.mode&0o200 == 0 {
			return -1, EACCES
		}
		d.unlink(name)
		d.mtime = wallNow()
		logop(fsop{kind: 'u', dir: d.ino, name: name, ino: n.ino})
		ev("fs", "unlink", path, 0)
		return 0, 0
	case 86, 265: // link, linkat
		p1, p2 := "", ""
		d1, d2 := atFDCWD, atFDCWD
		if trap == 86 {
			p1, p2 = cstr(a1), cstr(a2)
		} else {
			d1, p1, d2, p2 = a1, cstr(a2), a3, cstr(a4)
		}
		b1, _ := dirBase(d1, p1)
		b2, _ := dirBase(d2, p2)
		if b1 == nil || b2 == nil {
			return -1, EBADF
		}
		if e := sysEnter("link", p1+" "+p2); e != 0 {
			return -1, e
		}
		_, _, src, e := walk(b1, p1, false, false)
		if e != 0 {
			return -1, e
		}
		d, name, dst, e := walk(b2, p2, false, true)
		if dst != nil {
			return -1, EEXIST
		}
		if d == nil {
			return -1, e
		}
		d.link(name, src)
		logop(fsop{kind: 'k', dir: d.ino, name: name, ino: src.ino})
		ev("fs", "link", p1+" "+p2, 0)
		return 0, 0
	case 88, 266: // symlink, symlinkat
		target, dirfd, path := cstr(a1), atFDCWD, ""
		if trap == 88 {
			path = cstr(a2)
		} else {
			dirfd, path = a2, cstr(a3)
		}
		base, e := dirBase(dirfd, path)
		if e != 0 {
			return -1, e
		}
		d, name, n, e := walk(base, path, false, true)
		if n != nil {
			return -1, EEXIST
		}
		if d == nil {
			return -1, e
		}
		n = newInode('l', 0o777)
		n.target = target
		d.link(name, n)
		return 0, 0
	case 89, 267: // readlink, readlinkat
		dirfd, path, buf, n := atFDCWD, "", a2, a3
		if trap == 89 {
			path = cstr(a1)
		} else {
			dirfd, path, buf, n = a1, cstr(a2), a3, a4
		}
		if path == "/proc/self/exe" {
			return copy(mem(buf, int(n)), "/usr/local/bin/bab"), 0
		}
		base, e := dirBase(dirfd, path)
		if e != 0 {
			return -1, e
		}
		_, _, x, e := walk(base, path, false, false)
		if e != 0 {
			return -1, e
		}
		if x.kind != 'l' {
			return -1, EINVAL
		}
		return copy(mem(buf, int(n)), x.target), 0
	case 90, 91, 268: // chmod, fchmod, fchmodat
		var n *inode
		mode := a2
		if trap == 91 {
			o := getFD(a1)
			if o == nil || o.ino == nil {
				return -1, EBADF
			}
			n = o.ino
		} else {
			dirfd, path := atFDCWD, ""
			if trap == 90 {
				path = cstr(a1)
			} else {
				dirfd, path, mode = a1, cstr(a2), a3
			}
			base, e := dirBase(dirfd, path)
			if e != 0 {
				return -1, e
			}
			_, _, x, e := walk(base, path, true, false)
			if e != 0 {
				return -1, e
			}
			n = x
		}
		if e := sysEnter("chmod", ""); e != 0 {
			return -1, e
		}
		n.mode = uint32(mode) & 0o7777
		return 0, 0
	case 92, 93, 94, 260: // chown family
		return 0, 0
	case 280: // utimensat
		path := cstr(a2)
		base, e := dirBase(a1, path)
		if e != 0 {
			return -1, e
		}
		_, _, n, e := walk(base, path, true, false)
		if e != 0 {
			return -1, e
		}
		b := mem(a3, 32)
		var sec, ns int64
		for i := 7; i >= 0; i-- {
			sec = sec<<8 | int64(b[16+i])
			ns = ns<<8 | int64(b[24+i])
		}
		n.mtime = sec*1e9 + ns
		logop(fsop{kind: 'm', ino: n.ino, mtime: n.mtime})
		return 0, 0
	case 21, 269, 439: // access, faccessat, faccessat2
		dirfd, path, mode := atFDCWD, "", a2
		if trap == 21 {
			path = cstr(a1)
		} else {
			dirfd, path, mode = a1, cstr(a2), a3
		}
		base, e := dirBase(dirfd, path)
		if e != 0 {
			return -1, e
		}
		if e := sysEnter("access", path); e != 0 {
			return -1, e
		}
		_, _, n, e := walk(base, path, true, false)
		if e != 0 {
			return -1, e
		}
		if uint32(mode)&(n.mode>>6) != uint32(mode)&7 {
			return -1, EACCES
		}
		return 0, 0
	case 217: // getdents64
		o := getFD(a1)
		if o == nil {
			return -1, EBADF
		}
		if o.kind != kDir {
			return -1, ENOTDIR
		}
		if e := sysEnter("getdents", o.name()); e != 0 {
			return -1, e
		}
		if o.off == 0 {
			o.dents = append([]dirent(nil), o.ino.ents...)
			// directory order is arbitrary
			for i := len(o.dents) - 1; i > 0; i-- {
				j := i - runtime.SimDecide(3, i+1)
				o.dents[i], o.dents[j] = o.dents[j], o.dents[i]
			}
		}
		b := mem(a2, int(a3))
		pos := 0
		for int(o.off) < len(o.dents) {
			d := o.dents[o.off]
			reclen := (19 + len(d.name) + 1 + 7) &^ 7
			if pos+reclen > len(b) {
				if pos == 0 {
					return -1, EINVAL
				}
				break
			}
			r := b[pos : pos+reclen]
			clear(r)
			put64(r, d.ino.ino)
			put64(r[8:], uint64(o.off+1))
			r[16], r[17] = byte(reclen), byte(reclen>>8)
			switch d.ino.kind {
			case 'f':
				r[18] = 8
			case 'd':
				r[18] = 4
			case 'l':
				r[18] = 10
			case 'c':
				r[18] = 2
			}
			copy(r[19:], d.name)
			pos += reclen
			o.off++
		}
		return pos, 0
	case 61: // wait4
		if e := sysEnter("wait", ""); e != 0 {
			return -1, e
		}
		for {
			c, any := findChild(int(int32(a1)))
			if !any {
				return -1, ECHILD
			}
			if c != nil {
				c.reaped = true
				if a2 != 0 {
					put32(mem(a2, 4), uint32(c.status))
				}
				if a4 != 0 {
					clear(mem(a4, 144))
				}
				return c.pid, 0
			}
			if a3&1 != 0 {
				return 0, 0
			}
			self.blockOn(&childq)
		}
	case 247: // waitid
		if e := sysEnter("wait", ""); e != 0 {
			return -1, e
		}
		pid := -1
		switch a1 {
		case 0:
		case 1:
			pid = int(int32(a2))
		default:
			return -1, EINVAL
		}
		for {
			c, any := findChild(pid)
			if !any {
				return -1, ECHILD
			}
			if c != nil {
				if a4&0x1000000 == 0 {
					c.reaped = true
				}
				if a3 != 0 {
					b := mem(a3, 32)
					clear(b)
					put32(b, 17)
				}
				return 0, 0
			}
			if a4&1 != 0 {
				return 0, 0
			}
			self.blockOn(&childq)
		}
	case 62, 200, 234: // kill, tkill, tgkill
		pid, sig := int(int32(a1)), int(a2)
		if trap == 234 {
			sig = int(a3)
		}
		if e := sysEnter("kill", itoa(int64(pid))); e != 0 {
			return -1, e
		}
		return 0, kill(pid, sig)
	case 39, 186: // getpid, gettid
		return self.pid, 0
	case 110:
		return self.ppid, 0
	case 111: // getpgrp
		return self.pgid, 0
	case 121: // getpgid
		if a1 == 0 {
			return self.pgid, 0
		}
		for _, p := range procs {
			if p.pid == int(a1) && !p.reaped {
				return p.pgid, 0
			}
		}
		return -1, ESRCH
	case 109: // setpgid
		pid := int(a1)
		if pid == 0 {
			pid = self.pid
		}
		for _, p := range procs {
			if p.pid == pid && !p.reaped {
				p.pgid = int(a2)
				if a2 == 0 {
					p.pgid = pid
				}
				ev("setpgid", pid, p.pgid)
				return 0, 0
			}
		}
		return -1, ESRCH
	case 124: // getsid
		return self.sid, 0
	case 112: // setsid
		self.sid, self.pgid = self.pid, self.pid
		return self.pid, 0
	case 102, 107: // getuid, geteuid
		return 1000, 0
	case 104, 108: // getgid, getegid
		return 1000, 0
	case 115: // getgroups
		return 0, 0
	case 95: // umask
		return 0o022, 0
	case 63: // uname
		b := mem(a1, 390)
		clear(b)
		for i, s := range []string{"Linux", "simhost", "6.8.0-sim", "#1 SMP", "x86_64", "(none)"} {
			copy(b[i*65:], s)
		}
		return 0, 0
	case 97, 160, 302: // getrlimit, setrlimit, prlimit64
		var old uintptr
		switch trap {
		case 97:
			old = a2
		case 302:
			old = a4
		}
		if old != 0 {
			b := mem(old, 16)
			put64(b, 1024)
			put64(b[8:], 4096)
		}
		return 0, 0
	case 98: // getrusage
		clear(mem(a2, 144))
		return 0, 0
	case 318: // getrandom
		b := mem(a1, int(a2))
		for i := range b {
			b[i] = byte(runtime.SimRand())
		}
		return len(b), 0
	case 96: // gettimeofday
		t := wallNow()
		b := mem(a1, 16)
		put64(b, uint64(t/1e9))
		put64(b[8:], uint64(t%1e9/1000))
		return 0, 0
	case 228: // clock_gettime
		t := wallNow()
		if a1 == 1 || a1 == 4 || a1 == 7 {
			t = runtime.SimNow()
		}
		b := mem(a2, 16)
		put64(b, uint64(t/1e9))
		put64(b[8:], uint64(t%1e9))
		return 0, 0
	case 35, 230: // nanosleep, clock_nanosleep
		req := a1
		if trap == 230 {
			req = a3
		}
		b := mem(req, 16)
		var sec, ns int64
		for i := 7; i >= 0; i-- {
			sec = sec<<8 | int64(b[i])
			ns = ns<<8 | int64(b[8+i])
		}
		runtime.SimSleep(sec*1e9 + ns)
		return 0, 0
	case 213, 291: // epoll_create, epoll_create1
		return self.fds.alloc((&ofd{kind: kEpoll, ep: &epoll{}}).ref(), true, 0), 0
	case 233: // epoll_ctl
		return epollCtl(a1, a2, a3, a4)
	case 232, 281: // epoll_wait, epoll_pwait
		return epollWait(a1, a2, int(a3), int64(int32(a4)))
	case 290, 284: // eventfd2, eventfd
		fl := 0
		if trap == 290 {
			fl = int(a2)
		}
		return self.fds.alloc((&ofd{kind: kEvent, evfd: &eventfd{n: uint64(a1)}, flags: fl & oNONBLOCK}).ref(), true, 0), 0
	case 7: // poll
		return pollSys(a1, int(a2), int64(int32(a3))*1e6)
	case 271: // ppoll
		t := int64(-1)
		if a3 != 0 {
			b := mem(a3, 16)
			var sec, ns int64
			for i := 7; i >= 0; i-- {
				sec = sec<<8 | int64(b[i])
				ns = ns<<8 | int64(b[8+i])
			}
			t = sec*1e9 + ns
		}
		return pollSys(a1, int(a2), t)
	case 23, 270: // select, pselect6
		return selectSys(int(a1), a2, a3, a5, trap == 23)
	case 41: // socket
		ev("socket", int64(a1), int64(a2))
		return -1, EAFNOSUPPORT
	case 326, 40, 275, 285: // copy_file_range, sendfile, splice, fallocate
		return -1, ENOSYS
	case 434, 435, 424, 437: // pidfd_open, clone3, pidfd_send_signal, openat2
		return -1, ENOSYS
	case 332: // statx
		return -1, ENOSYS
	case 203, 204: // sched_setaffinity, getaffinity
		return -1, ENOSYS
	case 157: // prctl
		return 0, 0
	case 137, 138: // statfs
		return -1, ENOSYS
	case 24: // sched_yield
		return 0, 0
	case 231, 60:
		runtime.SimStop()
		ev("exit", int64(a1))
		finish()
		runtime.SimExitNow(int(a1))
	}
	ev("unknown-syscall", int64(trap))
	return -1, ENOSYS
}

func (o *ofd) name() string {
	switch o.kind {
	case kFile, kDir:
		return o.path
	case kSink:
		return "sink:" + o.sink.label
	case kTTY:
		return "tty"
	case kPipeR, kPipeW:
		if o.label != "" {
			return o.label
		}
		return "pipe"
	}
	return ""
}

func findChild(pid int) (c *proc, any bool) {
	for _, p := range procs {
		if p.ppid != self.pid || p == self || p.reaped {
			continue
		}
		if pid > 0 && p.pid != pid {
			continue
		}
		if pid < -1 && p.pgid != -pid {
			continue
		}
		any = true
		if p.dead {
			return p, true
		}
	}
	return nil, any
}

func ioctl(fd, req, arg uintptr) (int, uintptr) {
	o := getFD(fd)
	if o == nil {
		return -1, EBADF
	}
	if e := sysEnter("ioctl", o.name()); e != 0 {
		return -1, e
	}
	if o.kind != kTTY {
		if req == 0x541B && o.kind == kPipeR {
			put32(mem(arg, 4), uint32(len(o.pipe.buf)))
			return 0, 0
		}
		return -1, ENOTTY
	}
	t := o.tty
	if t.hung {
		return -1, EIO
	}
	switch req {
	case 0x5401, 0x802C542A: // TCGETS, TCGETS2
		copy(mem(arg, 36), t.term[:])
		return 0, 0
	case 0x5402, 0x5403, 0x5404, 0x402C542B, 0x402C542C, 0x402C542D: // TCSETS*
		if req == 0x5404 || req == 0x402C542D {
			t.ready, t.line = nil, nil
		}
		if self.pgid != t.pgrp && !sigIgnore[22] && !sigWanted[22] {
			ev("sigttou", self.pid)
		}
		t.setattr(self, mem(arg, 36))
		return 0, 0
	case 0x5413: // TIOCGWINSZ
		b := mem(arg, 8)
		clear(b)
		b[0], b[1] = byte(t.rows), byte(t.rows>>8)
		b[2], b[3] = byte(t.cols), byte(t.cols>>8)
		return 0, 0
	case 0x5414:
		return 0, 0
	case 0x540F: // TIOCGPGRP
		put32(mem(arg, 4), uint32(t.pgrp))
		return 0, 0
	case 0x5410: // TIOCSPGRP
		if self.pgid != t.pgrp && !sigIgnore[22] {
			ev("sigttou", self.pid)
		}
		t.pgrp = int(int32(get32(mem(arg, 4))))
		ev("ttypgrp", t.pgrp)
		return 0, 0
	case 0x541B: // FIONREAD
		put32(mem(arg, 4), uint32(len(t.ready)))
		return 0, 0
	case 0x540B: // TCFLSH
		t.ready, t.line = nil, nil
		return 0, 0
	case 0x5409, 0x540E, 0x5422:
		return 0, 0
	case 0x5429:
		put32(mem(arg, 4), uint32(t.sid))
		return 0, 0
	}
	ev("unknown-ioctl", int64(req))
	return -1, EINVAL
}

func epollCtl(epfd, op, fd, event uintptr) (int, uintptr) {
	eo, o := getFD(epfd), getFD(fd)
	if eo == nil || o == nil {
		return -1, EBADF
	}
	if eo.kind != kEpoll {
		return -1, EINVAL
	}
	var it *epitem
	idx := -1
	for i, x := range eo.ep.items {
		if x.fd == int(fd) && x.o == o {
			it, idx = x, i
		}
	}
	var events uint32
	var data uint64
	if event != 0 {
		b := mem(event, 12)
		events = get32(b)
		for i := 7; i >= 0; i-- {
			data = data<<8 | uint64(b[4+i])
		}
	}
	switch op {
	case 1:
		if it != nil {
			return -1, EEXIST
		}
		if !o.pollable() {
			return -1, EPERM
		}
		eo.ep.items = append(eo.ep.items, &epitem{int(fd), o, events, data})
	case 2:
		if it == nil {
			return -1, ENOENT
		}
		eo.ep.items = append(eo.ep.items[:idx:idx], eo.ep.items[idx+1:]...)
	case 3:
		if it == nil {
			return -1, ENOENT
		}
		it.events, it.data = events, data
	default:
		return -1, EINVAL
	}
	return 0, 0
}

func epollWait(epfd, events uintptr, max int, timeoutMs int64) (int, uintptr) {
	eo := getFD(epfd)
	if eo == nil || eo.kind != kEpoll {
		return -1, EBADF
	}
	if e := sysEnter("epoll", ""); e != 0 {
		return -1, e
	}
	expired := false
	for {
		n := 0
		for _, it := range eo.ep.items {
			if n >= max {
				break
			}
			if it.o.refs <= 0 {
				continue
			}
			if r := it.o.ready(it.events); r != 0 {
				b := mem(events+uintptr(n)*12, 12)
				put32(b, r)
				put64(b[4:], it.data)
				n++
			}
		}
		if n > 0 || timeoutMs == 0 || expired {
			return n, 0
		}
		w := newWaiter()
		for _, it := range eo.ep.items {
			it.o.watch(w, it.events)
		}
		var tw *bool
		if timeoutMs > 0 {
			w.after(timeoutMs * 1e6)
			deadline := runtime.SimNow() + timeoutMs*1e6
			w.wait()
			expired = runtime.SimNow() >= deadline
			if !expired {
				timeoutMs = (deadline - runtime.SimNow() + 999999) / 1e6
			}
			continue
		}
		_ = tw
		w.wait()
	}
}

func pollSys(fds uintptr, n int, timeout int64) (int, uintptr) {
	if e := sysEnter("poll", ""); e != 0 {
		return -1, e
	}
	deadline := runtime.SimNow() + timeout
	for {
		cnt := 0
		for i := 0; i < n; i++ {
			b := mem(fds+uintptr(i)*8, 8)
			fd := int32(get32(b))
			evs := uint32(b[4]) | uint32(b[5])<<8
			b[6], b[7] = 0, 0
			if fd < 0 {
				continue
			}
			o := getFD(uintptr(fd))
			if o == nil {
				b[6] = 0x20
				cnt++
				continue
			}
			if r := o.ready(evs); r != 0 {
				b[6], b[7] = byte(r), byte(r>>8)
				cnt++
			}
		}
		if cnt > 0 || timeout == 0 || timeout > 0 && runtime.SimNow() >= deadline {
			return cnt, 0
		}
		w := newWaiter()
		for i := 0; i < n; i++ {
			b := mem(fds+uintptr(i)*8, 8)
			if o := getFD(uintptr(get32(b))); o != nil {
				o.watch(w, uint32(b[4]))
			}
		}
		if timeout > 0 {
			w.after(deadline - runtime.SimNow())
		}
		w.wait()
	}
}

func selectSys(n int, rset, wset, tv uintptr, usec bool) (int, uintptr) {
	if e := sysEnter("poll", ""); e != 0 {
		return -1, e
	}
	timeout := int64(-1)
	if tv != 0 {
		b := mem(tv, 16)
		var sec, ns int64
		for i := 7; i >= 0; i-- {
			sec = sec<<8 | int64(b[i])
			ns = ns<<8 | int64(b[8+i])
		}
		if usec {
			ns *= 1000
		}
		timeout = sec*1e9 + ns
	}
	deadline := runtime.SimNow() + timeout
	bit := func(set uintptr, i int) bool {
		return set != 0 && mem(set, 128)[i/8]&(1<<(i%8)) != 0
	}
	want := make([]bool, 2*n)
	for i := 0; i < n; i++ {
		want[2*i], want[2*i+1] = bit(rset, i), bit(wset, i)
	}
	for {
		cnt := 0
		var r, wr [128]byte
		for i := 0; i < n; i++ {
			if !want[2*i] && !want[2*i+1] {
				continue
			}
			o := getFD(uintptr(i))
			if o == nil {
				return -1, EBADF
			}
			if want[2*i] && (o.readable() || o.hup()) {
				r[i/8] |= 1 << (i % 8)
				cnt++
			}
			if want[2*i+1] && o.writable() {
				wr[i/8] |= 1 << (i % 8)
				cnt++
			}
		}
		if cnt > 0 || timeout == 0 || timeout > 0 && runtime.SimNow() >= deadline {
			if rset != 0 {
				copy(mem(rset, (n+7)/8), r[:])
			}
			if wset != 0 {
				copy(mem(wset, (n+7)/8), wr[:])
			}
			return cnt, 0
		}
		w := newWaiter()
		for i := 0; i < n; i++ {
			if want[2*i] || want[2*i+1] {
				getFD(uintptr(i)).watch(w, epIN|epOUT)
			}
		}
		if timeout > 0 {
			w.after(deadline - runtime.SimNow())
		}
		w.wait()
	}
}
