package main

// Exact-match textual edits applied to copies of the Go standard library
// (never to the installed files) when the simulator binary is built. An edit
// whose anchor does not match exactly once stops the build with an error.

type patch struct {
	file     string // relative to GOROOT/src
	old, new string
}

var stdPatches = []patch{
	// --- scheduler ---------------------------------------------------------
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"runtime/proc.go", "	randinit()       // must run before alginit, mcommoninit\n", "	simInit()\n	randinit()       // must run before alginit, mcommoninit\n"},
	{"runtime/proc.go", "	lockOSThread()\n\n	if mp != &m0 {", "	if mp != &m0 {"},
	{"runtime/proc.go", "		if needUnlock {\n			unlockOSThread()\n		}\n", "		_ = needUnlock\n"},
	{"runtime/proc.go", "	needUnlock = false\n	unlockOSThread()\n", "	needUnlock = false\n"},
	{"runtime/proc.go", "	fn := main_main // make an indirect call", "	simOn = true\n	fn := main_main // make an indirect call"},
	{"runtime/proc.go", "		procs = defaultGOMAXPROCS(numCPUStartup)\n	}\n	if procresize(procs) != nil {", "		procs = defaultGOMAXPROCS(numCPUStartup)\n	}\n	procs = 1\n	sched.customGOMAXPROCS = true\n	if procresize(procs) != nil {"},
	{"runtime/proc.go", "	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if false && !sched.runq.empty() {"},
	{"runtime/proc.go", "	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.", "	if simIdle(pp) {\n		goto top\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing."},
	{"runtime/proc.go", `func runqget(pp *p) (gp *g, inheritTime bool) {
	// If there's a runnext, it's the next G to run.
`, `func runqget(pp *p) (gp *g, inheritTime bool) {
	if simIsSim {
		if sched.runq.size != 0 {
			lock(&sched.lock)
			for sched.runq.size != 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
				gp := sched.runq.pop()
				pp.runq[pp.runqtail%uint32(len(pp.runq))].set(gp)
				pp.runqtail++
			}
			unlock(&sched.lock)
		}
		h := pp.runqhead
		n := pp.runqtail - h
		if n == 0 {
			return nil, false
		}
		k := simPick(pp, h, n)
		gp := pp.runq[(h+k)%uint32(len(pp.runq))]
		for i := k; i > 0; i-- {
			pp.runq[(h+i)%uint32(len(pp.runq))] = pp.runq[(h+i-1)%uint32(len(pp.runq))]
		}
		pp.runqhead = h + 1
		return gp.ptr(), false
	}
	// If there's a runnext, it's the next G to run.
`},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := uint32(norder) - simDecide(SimKSelect, uint32(norder+1), -1)\n"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n	if simIsSim {\n		return simRand64()\n	}\n"},
	{"runtime/rand.go", "	seed := &globalRand.seed\n", "	startupRand = nil\n	seed := &globalRand.seed\n"},
	{"runtime/rand.go", "		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {", "		for i := range seed {\n			seed[i] = byte(simRand64())\n		}\n		if false {"},
	{"runtime/mgcpacer.go", "	p := gogetenv(\"GOGC\")\n", "	if simIsSim {\n		return -1\n	}\n	p := gogetenv(\"GOGC\")\n"},
	{"runtime/vgetrandom_linux.go", "	if vgetrandomAlloc.stateSize == 0 {\n		return -1, false\n	}\n", "	if simIsSim || vgetrandomAlloc.stateSize == 0 {\n		return -1, false\n	}\n"},
	{"runtime/runtime.go", "//go:linkname syscall_Exit syscall.Exit\n//go:nosplit\nfunc syscall_Exit(code int) {\n	exit(int32(code))", "//go:linkname syscall_Exit syscall.Exit\nfunc syscall_Exit(code int) {\n	if SimExitHook != nil {\n		SimExitHook(code)\n	}\n	exit(int32(code))"},
	{"runtime/time_fake.go", "	if !(fd == 1 || fd == 2) {\n", "	if true {\n"},
	{"runtime/time_fake.go", "	return faketime / 1e9, int32(faketime % 1e9), faketime\n", "	w := faketime + simWallOff\n	return w / 1e9, int32(w % 1e9), faketime\n"},
	{"runtime/proc.go", "	if !exitHooksRun {\n		runExitHooks(0)\n	}\n\n	exit(0)\n", "	if !exitHooksRun {\n		runExitHooks(0)\n	}\n	if SimExitHook != nil {\n		SimExitHook(0)\n	}\n	exit(0)\n"},
	{"syscall/time_fake.go", "const faketime = true", "const faketime = false"},
	{"runtime/proc.go", "func Gosched() {\n	checkTimeouts()\n", "func Gosched() {\n	simGosched()\n	checkTimeouts()\n"},

	// --- system calls ------------------------------------------------------
	{"syscall/syscall_linux.go", "	\"internal/itoa\"\n", "	\"internal/itoa\"\n	\"internal/simk\"\n"},
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:norace\n//go:linkname RawSyscall\n", "//go:uintptrescapes\n//go:linkname RawSyscall\n"},
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:norace\n//go:linkname RawSyscall6\n", "//go:uintptrescapes\n//go:linkname RawSyscall6\n"},
	{"syscall/syscall_linux.go", "	r1, r2, errno = runtimesyscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n", "	r1, r2, errno = simk.Syscall(trap, a1, a2, a3, a4, a5, a6)\n"},
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\n", "//go:uintptrescapes\n//go:linkname Syscall\n"},
	{"syscall/syscall_linux.go", "	runtime_entersyscall()\n	// N.B. Calling", "	// N.B. Calling"},
	{"syscall/syscall_linux.go", "	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n	runtime_exitsyscall()\n", "	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n"},
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\n", "//go:uintptrescapes\n//go:linkname Syscall6\n"},
	{"syscall/syscall_linux.go", "	runtime_entersyscall()\n	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n	runtime_exitsyscall()\n", "	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n"},
	{"syscall/syscall_linux.go", "func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n", "//go:uintptrescapes\nfunc rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {\n	r1, r2, _ = simk.Syscall(trap, a1, a2, a3, 0, 0, 0)\n	return\n}\n\nvar _ = runtimesyscall.Syscall6\n\n"},
	{"syscall/asm_linux_amd64.s", "// func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\nTEXT ·rawSyscallNoError(SB),NOSPLIT,$0-48\n	MOVQ	a1+8(FP), DI\n	MOVQ	a2+16(FP), SI\n	MOVQ	a3+24(FP), DX\n	MOVQ	trap+0(FP), AX	// syscall entry\n	SYSCALL\n	MOVQ	AX, r1+32(FP)\n	MOVQ	DX, r2+40(FP)\n	RET\n", ""},
	{"syscall/syscall_linux_amd64.go", "	errno := gettimeofday(tv)\n	if errno != 0 {\n		return errno\n	}\n	return nil\n", "	_, _, errno := RawSyscall(SYS_GETTIMEOFDAY, uintptr(unsafe.Pointer(tv)), 0, 0)\n	if errno != 0 {\n		return errno\n	}\n	return nil\n"},
	{"syscall/syscall_linux_amd64.go", "	errno := gettimeofday(&tv)\n", "	_, _, errno := RawSyscall(SYS_GETTIMEOFDAY, uintptr(unsafe.Pointer(&tv)), 0, 0)\n"},
	{"syscall/syscall_linux_amd64.go", "package syscall\n", "package syscall\n\nimport \"unsafe\"\n"},
	{"internal/syscall/unix/fcntl_unix.go", "//go:linkname fcntl runtime.fcntl\nfunc fcntl(fd int32, cmd int32, arg int32) (int32, int32)\n", "func fcntl(fd int32, cmd int32, arg int32) (int32, int32) {\n	r, _, e := syscall.RawSyscall(72, uintptr(fd), uintptr(cmd), uintptr(arg))\n	return int32(r), int32(e)\n}\n"},

	// --- processes -----------------------------------------------------------
	{"syscall/exec_unix.go", "	acquireForkLock()\n\n	// Allocate child status pipe close on exec.\n", `	_, _, _, _, _ = argv0p, argvp, envvp, chroot, dir
	if true {
		sa := &simk.SpawnAttr{Dir: attr.Dir, Env: attr.Env, Files: attr.Files, Setpgid: sys.Setpgid, Pgid: sys.Pgid,
			Setsid: sys.Setsid, Setctty: sys.Setctty, Noctty: sys.Noctty, Ctty: sys.Ctty, Foreground: sys.Foreground, Pdeathsig: int(sys.Pdeathsig)}
		if sys.PidFD != nil {
			*sys.PidFD = -1
		}
		ForkLock.Lock()
		spid, serr := simk.Spawn(argv0, argv, sa)
		ForkLock.Unlock()
		if serr != 0 {
			return 0, Errno(serr)
		}
		return spid, nil
	}

	acquireForkLock()

	// Allocate child status pipe close on exec.
`},
	{"syscall/exec_unix.go", "	\"internal/bytealg\"\n", "	\"internal/bytealg\"\n	\"internal/simk\"\n"},

	// --- poller, signals -------------------------------------------------------
	{"internal/poll/fd_poll_runtime.go", "	\"errors\"\n", "	\"errors\"\n	\"internal/simk\"\n"},
	{"internal/poll/fd_poll_runtime.go", `func runtime_pollServerInit()
func runtime_pollOpen(fd uintptr) (uintptr, int)
func runtime_pollClose(ctx uintptr)
func runtime_pollWait(ctx uintptr, mode int) int
func runtime_pollWaitCanceled(ctx uintptr, mode int)
func runtime_pollReset(ctx uintptr, mode int) int
func runtime_pollSetDeadline(ctx uintptr, d int64, mode int)
func runtime_pollUnblock(ctx uintptr)
func runtime_isPollServerDescriptor(fd uintptr) bool
`, `func simPollWaitCanceled(ctx uintptr, mode int) {}
`},
	{"internal/poll/fd_poll_runtime.go", "	serverInit.Do(runtime_pollServerInit)\n	ctx, errno := runtime_pollOpen(", "	ctx, errno := simk.PollOpen("},
	{"internal/poll/fd_poll_runtime.go", "	runtime_pollClose(pd", "	simk.PollClose(pd"},
	{"internal/poll/fd_poll_runtime.go", "	runtime_pollUnblock(pd", "	simk.PollUnblock(pd"},
	{"internal/poll/fd_poll_runtime.go", "	res := runtime_pollReset(pd", "	res := simk.PollReset(pd"},
	{"internal/poll/fd_poll_runtime.go", "	res := runtime_pollWait(pd", "	res := simk.PollWait(pd"},
	{"internal/poll/fd_poll_runtime.go", "	runtime_pollWaitCanceled(pd", "	simPollWaitCanceled(pd"},
	{"internal/poll/fd_poll_runtime.go", "	runtime_pollSetDeadline(fd", "	simk.PollSetDeadline(fd"},
	{"internal/poll/fd_poll_runtime.go", "	return runtime_isPollServerDescriptor(fd)\n", "	return false\n"},
	{"os/signal/signal_unix.go", "	\"os\"\n", "	\"internal/simk\"\n	\"os\"\n"},
	{"os/signal/signal_unix.go", "func signal_disable(uint32)\nfunc signal_enable(uint32)\nfunc signal_ignore(uint32)\nfunc signal_ignored(uint32) bool\nfunc signal_recv() uint32\n", ""},
	{"os/signal/signal_unix.go", "syscall.Signal(signal_recv())", "syscall.Signal(simk.SigRecv())"},
	{"os/signal/signal_unix.go", "	signal_enable(uint32(sig))", "	simk.SigEnable(uint32(sig))"},
	{"os/signal/signal_unix.go", "	signal_disable(uint32(sig))", "	simk.SigDisable(uint32(sig))"},
	{"os/signal/signal_unix.go", "	signal_ignore(uint32(sig))", "	simk.SigIgnore(uint32(sig))"},
	{"os/signal/signal_unix.go", "	return signal_ignored(uint32(sig))", "	return simk.SigIgnored(uint32(sig))"},
	{"os/signal/signal.go", "func signalWaitUntilIdle()\n", ""},
	{"os/signal/signal.go", "	signalWaitUntilIdle()\n", "	simk.SigWaitIdle()\n"},
	{"os/signal/signal.go", "	\"context\"\n", "	\"context\"\n	\"internal/simk\"\n"},
	{"os/file_unix.go", "		sigpipe()\n", "		simk.KilledByPipe()\n"},
	{"os/file_unix.go", "	\"internal/poll\"\n", "	\"internal/poll\"\n	\"internal/simk\"\n"},

	// --- network ----------------------------------------------------------------
	{"net/http/roundtrip.go", "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n", "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n	return simRoundTrip(t, req)\n}\n\nfunc (t *Transport) realRoundTrip(req *Request) (*Response, error) {\n"},
}
