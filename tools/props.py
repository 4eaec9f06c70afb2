RUN = "internal/runner/runner.go"
PAR = "internal/runner/parallel.go"
WR = "internal/runner/writer.go"
PROC = "internal/runner/process_unix.go"
TRACE = ["process starts and ends", "exit status of bab", "stdout and stderr of bab"]

prop("C01", "Steps run in declared order and stop at the first failure",
     "Running a task runs its dependencies in the listed order and then its run items in the listed order; each one starts only after everything before it has ended, and exactly those whose platform or `when` condition excludes them are left out. "
     "After the first step that fails (non-zero exit, death by a signal, a command that cannot be started) no later step of that task, or of any task that needs it, starts. "
     "bab exits 0 if everything that had to run succeeded and 1 otherwise.",
     ["inputs", "programs", "schedules", "fault_sequences"],
     "every valid Babfile (nested task items, dependencies, parallel blocks, included files, conditions), every combination of outcomes of its commands, every schedule",
     "Tests run a handful of fixed Babfiles with real shells; the set of dependency graphs times command outcomes (including a process that cannot be created) times schedules is unbounded and mostly unreachable without controlling processes and scheduling.",
     [RUN, PAR, "internal/condition/condition.go", "main.go"],
     [("task execution", RUN + ": runTask, executeItems"), ("process group command", RUN + ": executeCommand"), ("exit status", "main.go: run")], TRACE)

prop("C02", "A task that is needed several times runs once and is waited for by all",
     "Within one invocation each task runs at most once, however many dependencies, task items and parallel items need it, also when they need it at the same time. "
     "Whatever needs a task goes on only after that one execution has ended, and treats it as failed if it failed. "
     "A Babfile without a cycle is never rejected as circular, whatever the timing.",
     ["schedules", "programs", "fault_sequences"],
     "every acyclic graph of tasks reached along several paths, every interleaving of the parallel items that need the same task",
     "Whether two parallel items meet on a shared task depends on the schedule; a test sees one interleaving per run and the window is microseconds wide.",
     [PAR, RUN], [("shared task state", PAR + ": syncState"), ("task chain", PAR + ": inTaskChain")], TRACE,
     state=[("task state", "not started, running, done, failed", PAR + ": syncState")])

prop("C03", "A parallel block starts every item, ends after the last, fails if any fails",
     "A parallel block starts every item that applies (platform, `when`) even when other items fail, and ends only when all of them have ended; the one exception is a dependency of an item, which runs before the block's items and whose failure keeps them from starting. "
     "The block fails exactly if an item failed, nothing after it starts before it has ended, and nothing after it starts if it failed. "
     "This also holds when processes or pipes cannot be created.",
     ["schedules", "programs", "fault_sequences"],
     "every block (items, labels, modes, limits, conditions, nesting through tasks), every combination of item outcomes and of failing process or pipe creation, every schedule",
     "Joining and error collection are schedule dependent; tests cover a few blocks whose items all end at once, and never a failing pipe or process creation.",
     [PAR], [("item goroutines, wait group, first error", PAR + ": executeParallelInterleaved, executeParallelTUI"), ("dependencies first", PAR + ": preResolveDeps")], TRACE)

prop("C04", "A parallel limit is never exceeded and otherwise everything runs at once",
     "At no moment do more items of a parallel block run than its limit allows, counting an item from its first command's start to its last command's end. "
     "Up to the limit (or to the number of items, without one) items do run at the same time: items that wait for one another never starve while a slot is free, and items that are skipped occupy no slot.",
     ["schedules", "programs"],
     "every block size, limit, nesting of blocks through tasks, and schedule",
     "An overshoot lasts an instant and needs a particular interleaving; that all slots are really used needs items that meet, which tests with sleeps cannot assert.",
     [PAR], [("semaphore", PAR + ": executeParallelInterleaved, executeParallelTUI")], ["process starts and ends", "commands that meet (rendezvous)"])

prop("C05", "Cancelling stops everything promptly and leaves no process behind",
     "After SIGINT or SIGTERM bab starts no further command, ends the process group of every command that is running (also when the command ignores signals, started background processes, or is one of several in a parallel block or a shared dependency) and exits promptly. "
     "When bab has exited, no process of a process group whose command was running at the signal is alive. "
     "A failure that came before the signal is still reported: the exit status is then 1. "
     "(A process that moved itself to another session, and a second signal within the shutdown, are outside this property.)",
     ["schedules", "fault_sequences", "programs"],
     "every project, every moment of the signal relative to starting, running, waiting for and reaping commands, every behaviour of the commands",
     "The moment of the signal is the whole point: between deciding to start a process and having started it, between its death and its reaping, while its output is drained. Tests cancel a sleeping command at one moment.",
     ["main.go", RUN, PAR, PROC],
     [("signal context", "main.go: run"), ("process group kill", PROC), ("waiting after cancellation", RUN + ": executeCommand"), ("checks between steps", RUN + ": runTask, executeItems")],
     ["process starts, ends, and what is alive at bab's exit", "time from signal to exit"])

prop("C06", "Output of parallel items arrives whole, once, in order, under its own label",
     "Without a terminal display, every line a parallel item's command writes appears exactly once, whole, in the order written, on the same stream (stdout or stderr) and behind the label of its item (and of the blocks around it), never mixed with another item's line; a last line without newline is completed, and within a line only what follows the last carriage return is shown. "
     "What bab itself says (announcements, echoes, `-v`) goes to the standard error: stdout carries only what the commands wrote and the `log` items. "
     "`output: false` hides a command's output and `silent: true` its echo, each at the level that applies, everything else is shown; commands outside a block get bab's own stdout and stderr. "
     "With `color: false` colours are switched off for the block's commands and stripped from their lines.",
     ["schedules", "inputs", "programs", "fault_sequences"],
     "every division of the output into writes and reads, pipe capacity, slow or short-writing consumer, interleaving of items, and setting of silent, output and color at every level including included files",
     "The writer tests call one writer with whole strings from one goroutine; splits at arbitrary bytes across pipes, concurrent items, short writes and the inheritance of settings through blocks and includes are not sampled.",
     [WR, PAR, RUN, "internal/output/output.go", "internal/parser/include.go"],
     [("prefix writer", WR), ("relay pipes", RUN + ": executeCommand"), ("effective settings", RUN + ": isSilent, isOutput")],
     ["bytes written to stdout and stderr", "descriptors a command is given"])

prop("C07", "The live display of a parallel block agrees with what has happened",
     "In a terminal a parallel block in grouped or tabs mode shows every item with its label and its true state (not started, running, succeeded, failed) and the latest lines of its output, whole and in order (in tabs mode of the selected tab, which follows new output also after the terminal's size changed, and tab and shift+tab move between the tabs); items of nested blocks stand beneath their item. "
     "When the block ends the display disappears and (unless the block is silent) one summary line tells the true outcome of every item; what bab says after that (log items, why it failed) appears again.",
     ["schedules", "inputs", "programs", "fault_sequences"],
     "every block (items, labels, nesting, limits, outcomes), every division of the output over time, sizes and resizes of the terminal, keys, and every schedule",
     "The display is fed by goroutines of the items, the renderer's timer and the key reader at once; a status or a line that is lost or overtaken shows only in some interleavings, and the tests call the models' update functions directly without a terminal.",
     ["internal/tui/parallel.go", "internal/tui/parallel_grouped.go", "internal/tui/parallel_tabs.go", PAR, WR],
     [("display models", "internal/tui/parallel_grouped.go, internal/tui/parallel_tabs.go"), ("messages to the display", PAR + ": executeParallelTUI"), ("summary", "internal/output")],
     ["screen of the terminal (an emulator interprets every byte written to it)", "process starts and ends", "bytes each command wrote"])

prop("C08", "Each command sees exactly its own directory, environment and variables",
     "Every command runs with the text, working directory and environment that its own item, task and file define (innermost definition wins over outer ones and over bab's own environment, everything else of bab's environment is passed on), whatever runs at the same time or ran before. "
     "A prompt's answer is visible to the later items of the task that asked and to no other task; values set by one task never reach another.",
     ["programs", "schedules", "inputs"],
     "every placement of vars, env, dir and prompts in files, included files, tasks and items, with shared tasks running in parallel",
     "Leaks between tasks depend on which of them ran first or at the same time; tests check single values on single tasks.",
     [RUN, PAR, "internal/interpolate/interpolate.go", "internal/parser/parser.go", "internal/parser/include.go"],
     [("variable scopes", "internal/parser/parser.go: ResolveVars"), ("environment merge", "internal/babfile/env.go"), ("prompt variables", RUN)],
     ["text, environment and working directory of every process started"])

UPD = ["internal/update/update.go", "internal/update/cache.go", "internal/paths/paths.go"]
UOBS = ["contents of the cache directory", "requests sent", "stdout and stderr of bab"]

prop("C09", "The update check's cache file is only ever replaced whole, and never lost",
     "At every instant, and after a crash, power loss or disk error at any point, the cache file holds either the complete record it held before or a complete record of a reply the server really gave (its version, its tag, its time). "
     "Temporary files that interrupted executions left are removed when a later one stores a record and they are older than an hour; younger ones and files with other names are never touched, and an execution that ends by itself leaves none. "
     "An interrupted execution does not keep a later, undisturbed one from storing its answer.",
     ["crash_points", "fault_sequences", "histories"],
     "every crash and power loss point, every sequence of failing, short or slow file operations, every sequence of executions and of other processes changing the file",
     "Tests write and read the file on a healthy disk; none of them crashes, loses unforced data, fails a write half-way or runs two executions at once.",
     UPD, [("write, sync, rename", "internal/update/cache.go: saveCache"), ("clean-up", "internal/update/cache.go: cleanupTempFiles"), ("validation on load", "internal/update/cache.go: loadCache")], UOBS)

prop("C10", "The update check never affects what bab does otherwise",
     "Whatever the server, the network or the cache directory do (no answer, reset, garbage, endless body, full or read-only disk, slow operations), bab runs the same commands with the same results, output and exit status as with the update check switched off, apart from the one-line announcement of a new version on its error output. "
     "That holds for running tasks as well as for the dry run, the list of tasks, validation, version, help and completion. "
     "It neither waits for the server nor fails because of it.",
     ["fault_sequences", "inputs", "schedules"],
     "every server and network behaviour, every state of and failure in the cache directory, every schedule of the background request relative to the execution",
     "Needs a network and a disk that fail on demand at every point, and the same project run with and without; tests talk to a friendly local server.",
     UPD + ["cmd/root.go"], [("background request", "internal/update/update.go: StartBackgroundRefresh"), ("announcement", "internal/update/update.go: CheckCached, cmd/root.go")], UOBS + TRACE)

prop("C11", "Update check: at most one request per day, true announcements, no request if off",
     "With CI=true, CI=1 or BAB_NO_UPDATE_CHECK=1 bab sends nothing and announces nothing; otherwise it sends at most one request per execution, to the release address only (no redirect is followed), never when an answer less than 24 hours old (and not from the future) is known, conditional on the known tag, and gives up after five seconds. "
     "An answer that arrives in time is stored. "
     "A new version is announced at most once per execution, and only if the newest known record names a version greater than the running one.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "every sequence of executions with any clock change between them, every server answer and every cache content",
     "Rate limiting is a property of a history of executions over days with clock jumps and conditional answers; tests call single functions with one state.",
     UPD, [("validity of the record", "internal/update/cache.go: isValid"), ("request", "internal/update/update.go: fetchLatestVersion"), ("comparison", "internal/update/update.go: isNewer")], UOBS)

prop("C15", "bab gives the terminal back as it was and stops at once when told to",
     "However an execution in a terminal ends (normally, with a failure, by ctrl+c at a prompt, in the task picker or in a live display, by SIGINT or SIGTERM at any moment), the terminal is afterwards in the mode it was in before, with the cursor visible and every display mode bab switched on (alternate screen, bracketed paste, focus reports, keyboard protocols) switched off again. "
     "Once told to stop, bab starts nothing more (in particular no step whose predecessors did not run to the end), leaves nothing running, and ends within two seconds; it never hangs. When ctrl+c ends a live display in which nothing had failed, that is no failure (exit status 0).",
     ["schedules", "fault_sequences", "inputs"],
     "every prompt, picker or live display, every moment of the key press or signal relative to starting up, drawing, resizing and closing the display, every terminal type",
     "Signal handlers, the context, the input reader and the renderer are separate goroutines that race at the instant of the signal; a hang or a terminal left in raw mode appears only in particular interleavings, and tests have no terminal.",
     ["internal/tui", PAR, "main.go", "cmd/interactive.go"],
     [("terminal programs", "internal/tui: RunParallel, PickTask, newForm"), ("cancellation of a block", PAR), ("signal context", "main.go: run")],
     ["terminal mode changes", "bytes sent to the terminal", "process starts and ends", "time from signal to exit"])

prop("C16", "A prompt yields exactly what the user confirmed, or stops everything",
     "At a prompt nothing goes on until the user submits an entry that meets the prompt's conditions (pattern, limits, matching confirmation); the value the task then uses is exactly that entry, whatever was typed, corrected and refused before. "
     "A password is not shown on the screen while it is typed, nor told afterwards by bab itself except in the echo of a command that uses it (and with `-v`). A user who aborts stops the execution: no later step starts. "
     "Each prompt is asked once, in its place in the order of the task's steps.",
     ["inputs", "schedules", "histories"],
     "every prompt type and setting, every sequence of editing keys in any division into chunks and with any delays, on terminals of any type and size that may answer queries, every schedule",
     "Prompt tests set the values without a terminal; they never type, let alone in chunks that split or arrive together with replies of the terminal, while other goroutines run.",
     ["internal/tui/prompt.go", RUN],
     [("forms and validation", "internal/tui/prompt.go"), ("prompt variables", RUN)],
     ["environment and text of the commands that use the value", "bytes sent to the terminal"])

prop("C17", "The picker lists what matches, and Enter runs exactly the highlighted task",
     "Run without a task in a terminal, bab shows the project's tasks with their descriptions; after every key the list holds exactly the tasks that match what has been typed, the line of the highlighted one is always on the screen and marked, and the counts shown are right. "
     "Enter runs exactly the task highlighted at that moment, once, and nothing else; with nothing to highlight it does nothing; escape and ctrl+c leave without running anything.",
     ["inputs", "schedules", "histories"],
     "every set of tasks (names, aliases, descriptions), every sequence of keys in any division into chunks and with any delays, every size and resize of the terminal, every schedule",
     "The picker's tests call its update function directly; what the user sees is the product of the key decoder, the matcher, the scrolling and the renderer, and what runs is decided by keys that race with their drawing.",
     ["internal/tui/picker", "internal/tui/tui.go", "cmd/interactive.go"],
     [("matching and order", "internal/tui/picker"), ("key handling and scrolling", "internal/tui/picker"), ("running the choice", "cmd/interactive.go")],
     ["screen of the terminal (an emulator interprets every byte written to it)", "process starts"])

prop("C12", "Standard input reaches the commands, byte for byte, and nobody else",
     "A command outside parallel blocks whose output is shown reads bab's own standard input, whatever that is: it gets exactly the next bytes nobody has read yet. "
     "bab itself takes nothing from it, even for prompts that fall back to their defaults, and never waits for it; what the commands leave unread stays for whoever comes next. "
     "A command inside a parallel block reads an empty input. No command inherits any other descriptor of bab's.",
     ["inputs", "schedules", "fault_sequences"],
     "every project, every input (bytes, division into pieces, arrival times, kept open or ended; pipe, file, terminal, closed), every schedule, failing process starts and failing opens",
     "A test with a complete input cannot tell who took which bytes, and cannot keep an input open while steps that do not read it go by.",
     [RUN, PAR, "internal/tui/prompt.go"],
     [("standard input of commands", RUN+": runCommandWithWriters"), ("defaults without a terminal", "internal/tui/prompt.go: handleNonInteractive")],
     ["bytes every process read, in order", "descriptors of started processes", "process starts and ends", "exit status of bab"])

prop("C13", "A faulty project is refused the same way every time, naming what is wrong",
     "What bab makes of a project depends on nothing but the project, its arguments and environment: repeated executions give the same verdict, the same messages in the same order, and start the same commands in the same order (outside parallel blocks). "
     "A project that refers to tasks that do not exist, has a circle of tasks, conflicting aliases, or included files that cannot be loaded or collide is refused with status 1, by every mode, before anything runs; "
     "every missing reference, every alias conflict and every tangle of circular tasks is named, with the file and line where it stands, and nothing is reported that is not so.",
     ["inputs", "schedules"],
     "every project with any combination of mistakes in any of its files, every order in which maps are walked, every schedule",
     "Go randomises map iteration: a test sees one order per run, checks one mistake at a time, and looks for a fragment of the message.",
     ["internal/parser/parser.go", "internal/parser/validate.go", "internal/parser/include.go", "internal/interpolate/interpolate.go", "internal/errs", RUN],
     [("checks before running", "internal/parser/validate.go: validateAll"), ("loading of included files", "internal/parser/include.go: resolveInclude"), ("variables", "internal/interpolate/interpolate.go: ResolveVarsWithLocation"), ("messages", "main.go: handleError")],
     ["stdout and stderr of two executions under different schedules", "exit status of bab", "process starts"])

prop("C14", "Looking at a project runs nothing, changes nothing and tells the truth",
     "A dry run, --list, --validate, completion, --help and --version start no process, ask nothing and leave every file as it was, whatever stands in the project and whatever else is on the command line. "
     "A dry run tells, in order, exactly the commands (final text and directory), logs, prompts, tasks and parallel blocks that the task and its dependencies would run by themselves, and fails only if they could not be run; "
     "--list shows every task with its aliases and description, completion offers every task and alias that begins with the typed word, --validate counts the tasks.",
     ["inputs", "programs", "schedules", "fault_sequences"],
     "every valid project, every task or alias, every combination of arguments, every working directory and way of naming the Babfile, with or without a terminal, told to stop at any moment",
     "Tests call the mode's function with one small Babfile in-process; that nothing is started or written, and that the dry run agrees with the real one for all conditions, includes and variables, is not observable there.",
     ["cmd/root.go", "cmd/list.go", "cmd/validate.go", "cmd/complete.go", "cmd/completion.go", RUN],
     [("choice of the mode", "cmd/root.go: run"), ("dry run", RUN + ": executeTask, executeCommand"), ("tree of names", "cmd/list.go"), ("completion", "cmd/complete.go")],
     ["process starts", "stdout and stderr of bab", "terminal mode changes", "file system afterwards"])

prop("C18", "What cannot be read is refused, never run as a smaller or another project",
     "bab acts on the whole project as it is written: the nearest Babfile, or the one named, with every file it includes. If any of them cannot be looked at, opened or read to its end, "
     "bab says which one and exits with status 1, in every mode, before it starts a command or lists a task. "
     "Slow, short or interrupted calls change nothing, and a Babfile that is replaced while bab starts is taken whole, as it was before or as it is afterwards.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every project with included files and other Babfiles further up, every mode, every failing, short, slow or interrupted call while files are looked for, opened and read, every moment of a replacement",
     "A test can take a file away, but cannot make the third read of the second included file fail, nor replace the Babfile between two calls; running a part of a project, or the project of the directory above, looks like success.",
     ["internal/finder/finder.go", "internal/parser/parser.go", "internal/parser/include.go", "cmd/root.go"],
     [("search for the Babfile", "internal/finder/finder.go: FindBabfile"), ("reading and including", "internal/parser/parser.go: parseFile; internal/parser/include.go: resolveInclude")],
     ["process starts", "stdout and stderr of bab", "exit status of bab", "which calls failed"])

prop("C19", "Output that is lost on its way through bab makes bab fail",
     "When something a parallel item wrote (its command's output, or what its log item says), or the list of tasks or completion script that was asked for, cannot be written to bab's stdout or stderr (a full disk, an I/O error, at any byte), bab does not claim success: it exits with status 1. "
     "It does not hang, leaves no process behind, starts nothing twice and nothing whose predecessors failed. Short writes are completed: if no write fails, every byte arrives.",
     ["inputs", "programs", "schedules", "fault_sequences"],
     "every project with parallel blocks, every output of its items, every list, full disks and failing or short writes at any point of either stream, every schedule",
     "Tests write into a buffer that never fails; which write fails, while which other item holds the lock, and whether the loss is the last unfinished line, decide whether an error reaches the exit status.",
     [PAR, WR, RUN, "cmd/list.go"],
     [("relaying of lines", WR + ": PrefixWriter"), ("collection of errors", PAR + ": executeParallelInterleaved"), ("list", "cmd/list.go")],
     ["bytes written to stdout and stderr", "exit status of bab", "process starts and ends", "failed writes"])

prop("C20", "When its terminal or its reader goes away, bab leaves nothing running",
     "When the terminal is closed (SIGHUP, once or several times, with or without the terminal's own hang-up, during commands, prompts, live displays or the picker) bab starts no further command, ends every process group that is running and exits promptly, without a crash. Started with SIGHUP ignored (nohup), it carries on undisturbed. "
     "When nobody reads its stdout or stderr any more, bab never ends while a command it started is still running: either it stops between commands, or the item whose output is lost fails, the others finish, and the exit status is not 0.",
     ["inputs", "programs", "schedules", "fault_sequences"],
     "every project and behaviour of its commands, every moment of the hang-up, every number of bytes after which a reader goes away, every schedule",
     "Both are questions of the moment: between the decision to start a process and its start, in the middle of a relayed line, while a prompt has the terminal in raw mode. No test closes a terminal or a pipe.",
     ["main.go", PAR, PROC, "internal/tui"],
     [("signal context", "main.go: run"), ("relaying without a reader", PAR + ": executeParallelInterleaved"), ("process group kill", PROC)],
     ["process starts, ends, and what is alive at bab's exit", "how bab ends", "time from the hang-up to the end"])

prop("C21", "The Babfile language means what its documentation says",
     "A Babfile is accepted exactly if it follows the documented schema, and its values (short forms, interpolation, conditions) mean what the documentation says.",
     ["inputs"], "every text of a Babfile", "The set of texts is unbounded.",
     ["internal/parser/unmarshal.go", "internal/babfile", "internal/interpolate/interpolate.go", "internal/condition/condition.go"],
     [("decoding", "internal/parser/unmarshal.go")], ["error messages", "commands that are run"],
     na="A pure function of one text: no concurrency, time, I/O fault or second party for it to depend on. A simulator adds nothing to it over generating inputs; the other checks use the language's valid part in every case (variables, conditions, short forms), and C13, C14 and C18 its errors where they depend on more than the text.")

prop("C22", "The installer puts a verified bab in place whole, or changes nothing",
     "While install.sh runs, whatever the network, the release server, the disk, the available tools, a signal (also SIGKILL) or a script that arrives cut short do to it: at every moment the bab in the installation directory is the one that was there before (or none, if there was none) or the complete executable of the requested release, taken from an archive that matches the checksum the release lists. "
     "It requests nothing outside the project's release pages, exits 0 only if that binary is in place or the bab on PATH already is exactly that version, and otherwise non-zero; it changes no other file, and leaves no temporary file behind unless it is killed outright. "
     "When nothing fails it installs the requested or latest release for the platform, with either download program and any of the checksum programs it knows.",
     ["inputs", "fault_sequences", "crash_points"],
     "every platform, set of installed tools, state of the installation directory and arguments; every failure of a download (error status, broken connection, altered or missing assets), of a tool (before, in the middle of and after its work) and every signal at each of those points; every truncation of the script",
     "No test runs the installer at all, and what it promises concerns the moments at which a download, a copy or the machine stops half-way.",
     ["install.sh"],
     [("download and verification", "install.sh: execute, http_download, hash_sha256_verify"), ("placement of the binary", "install.sh: execute"), ("release lookup, version comparison", "install.sh: github_release, get_installed_version")],
     ["content and mode of the installed file at every step of every tool", "requested URLs", "exit status", "files left or changed"],
     note="The real script under the real shell with stand-ins for every program that downloads, hashes, unpacks, copies, renames or removes; install.ps1 is not covered (no PowerShell here).")
