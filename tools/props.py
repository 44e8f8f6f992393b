HOOKS = {"guard": "SMLNJ_VERIF", "enable": "the checks copy /repo/base/runtime to a scratch directory and build it with XDEFS=-DSMLNJ_VERIF (make -f mk.amd64-linux); VERIF_LOG names the file the monitors append to",
         "source_commits": ["40b93596c4440b8e10b061448916f43fc0458230"]}
NOT_APPLICABLE = []
PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="Garbage collection is invisible to programs",
  statement="For every program, the values it computes, the identity and contents of every object it can reach, and its termination do not depend on when or how deeply garbage collections happen. This holds for every kind of object (records, closures, continuations, references, arrays, vectors, strings, byte and real arrays, big integers, weak pointers whose target is still reachable, suspensions, compiled code, objects of any size up to memory) and for every heap configuration: allocation-area size, number of generations, virtual-memory cache, explicit collections of any generation. A weak pointer to an object that is still strongly reachable always yields that same object.",
  over=["programs", "schedules", "configurations"], qtext="all mutator programs, all collection points and depths, all heap configurations",
  why="a test fixes one heap configuration and collections happen at a handful of points; a missed root or write barrier shows only for particular ages and sizes of objects",
  files=["base/runtime/gc/minor-gc.c", "base/runtime/gc/major-gc.c", "base/runtime/gc/flip.c", "base/runtime/gc/gc-util.c", "base/runtime/gc/big-objects.c", "base/runtime/gc/call-gc.c", "base/runtime/gc/ml-objects.c", "base/runtime/gc/init-gc.c", "base/runtime/gc/record-ops.c", "base/compiler/CodeGen/cpscompile/invokegc.sml"],
  mech=[("copying of live objects", "minor-gc.c MinorGC_ForwardObj, major-gc.c MajorGC_ForwardObj"), ("remembered sets", "minor-gc.c MinorGC_ScanStoreList, major-gc.c MajorGC_ScanRoots, MajorGC_SweepToSpArrays"), ("large allocations", "ml-objects.c ML_Alloc*, flip.c Flip")],
  observe=["checksums over every reachable object at checkpoints", "heap checker and assertion reports", "forced-collection monitor"], hook="forced collections at C-call and GC-check points, nursery poisoning (SMLNJ_VERIF)",
  technique="runtime monitoring: one mutator program run under many collector schedules with heap checker, assertions, forced collections and poisoned nurseries; checkpoint logs compared with a run that never collects",
  note="held on the observed schedules (about 70 configurations per quick run); compiled-code register state is covered only for the code shapes of the workload")

P(id="C02", title="Exported heap images and executables continue exactly where they left off",
  statement="Exporting a program (as a function with its arguments, or as the whole running system) at any point of its life and running the image with any runtime options, under any file or command name, as an image file or as a stand-alone executable, continues with exactly the state the program had: every value, sharing, weak pointers, installed signal handlers, interrupted computations, access to all system libraries, and the arguments given. The exporting system itself continues unharmed. An export that cannot be completed is reported as failed, and a truncated or damaged image header is refused with a message and a failure status, never run or read out of bounds.",
  over=["programs", "histories", "configurations", "fault_sequences"], qtext="all heap contents and points of export, chains of exports, all runtime options of exporter and importer, all points at which writing fails, all truncations",
  why="tests export only in the build itself, from one configuration and without failures",
  files=["base/runtime/gc/export-heap.c", "base/runtime/gc/import-heap.c", "base/runtime/gc/heap-in-util.c", "base/runtime/gc/heap-out-util.c", "base/runtime/gc/writer.c", "base/runtime/c-libs/smlnj-runtime/export-heap.c", "base/runtime/c-libs/smlnj-runtime/export-fun.c", "base/runtime/c-libs/dl/dlopen.c", "base/runtime/gc/c-globals-tbl.c", "base/runtime/kernel/globals.c", "base/runtime/mach-dep/signal-util.c", "heap2asm/heap2asm.sml", "base/system/Basis/Implementation/NJ/export.sml"],
  mech=[("image writing", "gc/export-heap.c"), ("relocation on import", "gc/import-heap.c RepairWord"), ("external references", "kernel/c-globals-tbl.c")],
  observe=["log of every step with a checksum of the whole object graph, by exporter and importer", "exit status and messages", "image files"], hook="forced collections at C-call and GC-check points, nursery poisoning (SMLNJ_VERIF)",
  technique="runtime monitoring: random mutator programs with exports at random points, every continuation's log compared with the uninterrupted program's; fault injection with file-size limits, truncation; under AddressSanitizer/UBSan, heap-checker and forced-collection runtimes with differing heap options",
  note="held on the observed programs, export points, options and fault points")

P(id="C03", title="Values written in linear form are read back equal, in any process",
  statement="Turning any value without functions that fits the allocation area into its linear byte form and reading that form back, in the same or another process with any heap configuration, gives a value equal in contents, sharing and cycles, and independent of the original. Writing and reading leave the original and all other live values unchanged, through any number of rounds and collections. A truncated or foreign byte string is refused with an exception and does no harm.",
  over=["inputs", "histories", "configurations"], qtext="all value graphs (records, arrays, vectors, references, strings, reals, big integers, cycles), all sequences of writes, reads and collections, all heap options",
  why="no test of the repository uses the linear form",
  files=["base/runtime/gc/blast-out.c", "base/runtime/gc/blast-in.c", "base/runtime/gc/blast-gc.c", "base/runtime/gc/mem-writer.c", "base/runtime/gc/heap-in-util.c", "base/runtime/gc/heap-out-util.c", "base/runtime/c-libs/smlnj-runtime/blast-out.c", "base/runtime/c-libs/smlnj-runtime/blast-in.c"],
  mech=[("copying collection from the root with repair", "gc/blast-gc.c"), ("linear layout", "gc/blast-out.c BlastHeap"), ("reading", "gc/blast-in.c ReadImage")],
  observe=["checksums over contents, sharing and cycles of original, copies and bystanders", "exceptions"], hook="forced collections at C-call and GC-check points, nursery poisoning (SMLNJ_VERIF)",
  technique="runtime monitoring: random value graphs written and read in one and across processes, all values re-validated by a whole-graph checksum after each step; truncation sweep; under AddressSanitizer/UBSan, heap-checker and forced-collection runtimes",
  note="held on the observed graphs; values with functions and values larger than the allocation area are outside (the runtime documents them as unsupported)")

P(id="C06", title="Signals reach their handlers completely, only when allowed, and without harm",
  statement="Every signal sent to a program is handled according to the action and mask in force: with a handler, as many deliveries as the operating system makes are counted to the handler and none twice; a masked signal is held until unmasked, ignored and default actions are the operating system's, and the program's view of actions and masks always agrees with the kernel's. A handler never interrupts another handler, may itself mask, send, install, collect or abandon the computation, and a computation interrupted at any point continues with exactly the result it would have had. Blocked calls are woken, interval timers fire at no more than their rate, collection signals follow the threshold, and actions and masks survive export and import of the system.",
  over=["schedules", "histories", "configurations"], qtext="all histories of installing, masking, sending and exporting, all arrival times of signals",
  why="no test of the repository sends a signal; delivery points depend on timing",
  files=["base/runtime/mach-dep/unix-signal.c", "base/runtime/mach-dep/signal-util.c", "base/runtime/kernel/run-ml.c", "base/runtime/kernel/ml-state.c", "base/runtime/mach-dep/AMD64.prim.asm", "base/runtime/c-libs/smlnj-signals/setsigstate.c", "base/runtime/c-libs/smlnj-signals/getsigstate.c", "base/runtime/c-libs/smlnj-signals/setsigmask.c", "base/runtime/c-libs/smlnj-signals/getsigmask.c", "base/runtime/c-libs/smlnj-signals/listsignals.c", "base/runtime/c-libs/smlnj-signals/pause.c", "base/runtime/c-libs/smlnj-runtime/setitimer.c", "base/system/Basis/Implementation/NJ/internal-signals.sml"],
  mech=[("receipt and counting", "mach-dep/unix-signal.c CSigHandler"), ("choice of the next signal", "mach-dep/signal-util.c ChooseSignal, MakeResumeCont"), ("masks", "unix-signal.c SetSignalMask; internal-signals.sml"), ("collection signals", "signal-util.c GCSignal")],
  observe=["deliveries counted by every handler, nesting depth, handlers run while masked", "blocked, ignored and caught sets of the process as seen by the kernel", "results of interrupted computations", "exit statuses"], hook="forced collections at C-call and GC-check points, nursery poisoning (SMLNJ_VERIF)",
  technique="runtime monitoring: random signal histories checked online against a model of actions, masks and pending signals and against the kernel's view in /proc; signal storms from another process with conservation of counts; interrupted computations compared with uninterrupted ones; under AddressSanitizer/UBSan and forced-collection runtimes",
  note="held on the observed histories and arrival times; a signal arriving between the check and the sleep of pause is not controlled")

P(id="C09", title="File-system operations do exactly what the operating system defines",
  statement="Every file-system operation of the Basis and Posix file-system structures (creating, opening, linking, renaming, removing, listing, access checks, ownership and permissions, times, sizes, kinds, current directory, path limits, temporary names) has the same effect and result as the corresponding operating-system call on the same state, for every history of operations, every path and every flag combination. A failing operation raises a system error that carries the operating system's error code and changes nothing else. Status records report every field exactly, including permission and set-id bits, link counts, 64-bit sizes and sub-second or pre-1970 times.",
  over=["inputs", "histories", "configurations"], qtext="all histories of operations, path names, modes, flags and times; as privileged and unprivileged user",
  why="no test of the repository touches the file-system interface beyond opening sources",
  files=["base/runtime/c-libs/posix-filesys/stat.c", "base/runtime/c-libs/posix-filesys/openf.c", "base/runtime/c-libs/posix-filesys/readdir.c", "base/runtime/c-libs/posix-filesys/utime.c", "base/runtime/c-libs/posix-filesys/readlink.c", "base/runtime/c-libs/posix-filesys/getcwd.c", "base/runtime/c-libs/posix-filesys/pathconf.c", "base/system/Basis/Implementation/Posix/posix-filesys.sml", "base/system/Basis/Implementation/Unix/os-filesys.sml"],
  mech=[("marshalling of arguments and results", "c-libs/posix-filesys/*.c"), ("error reporting", "c-libs/unix-raise-syserr.c")],
  observe=["results and errors of each operation", "resulting tree: names, kinds, modes, owners, contents, times"],
  technique="runtime monitoring: random operation histories executed by the real system, checked online against a twin directory tree on which the same operations are done by direct system calls; repeated under AddressSanitizer/UBSan, forced collections and an unprivileged user",
  note="held on the observed histories; trusts the kernel and Python's os module as oracle")

P(id="C10", title="Descriptor and stream input/output transfer exactly the right bytes",
  statement="Every descriptor operation (open flags, read and write of vectors and array slices, seek with 64-bit offsets, truncate, duplicate, flags, pipes, record locks) behaves as the operating system's own, with exact byte counts, contents, positions and error codes. Text and binary streams deliver exactly the bytes of the underlying file or pipe in order, whatever mixture of input operations and buffering modes is used, and everything written reaches the file exactly once, in order and at the right position, by the time of a flush or close. Saved functional input streams can be re-read with the same result.",
  over=["inputs", "histories", "schedules"], qtext="all histories of operations, sizes and offsets, buffer states, arrival schedules of pipe data, concurrent lock holders",
  why="tests use the streams only to print; sizes near buffer boundaries, offsets above 2 GB, non-blocking and lock behaviour are never exercised",
  files=["base/runtime/c-libs/posix-io/read.c", "base/runtime/c-libs/posix-io/readbuf.c", "base/runtime/c-libs/posix-io/write.c", "base/runtime/c-libs/posix-io/writebuf.c", "base/runtime/c-libs/posix-io/lseek.c", "base/runtime/c-libs/posix-io/fcntl_l.c", "base/runtime/c-libs/posix-io/fcntl_gfl.c", "base/runtime/c-libs/posix-io/pipe.c", "base/runtime/c-libs/posix-io/dup2.c", "base/system/Basis/Implementation/IO/text-io-fn.sml", "base/system/Basis/Implementation/IO/bin-io-fn.sml", "base/system/Basis/Implementation/Posix/posix-io.sml"],
  mech=[("descriptor operations", "c-libs/posix-io/*.c"), ("stream buffering", "IO/text-io-fn.sml, bin-io-fn.sml")],
  observe=["results of each operation", "final file contents", "data seen by a second process"],
  technique="runtime monitoring: random histories checked online against twin descriptors driven by direct system calls and against a byte-stream model; second-process lock observer; repeated under AddressSanitizer/UBSan and forced collections",
  note="held on the observed histories")

P(id="C11", title="Processes: fork, exec, wait, signals, environment, identity, exit",
  statement="A program started with any argument list, environment and path receives exactly those strings, a failing start raises the system error of the operating system in the caller and has no other effect, and a child never returns into its parent's program unintended. Waiting reports every child's end exactly once, with the right child and the right status (exit code, killing or stopping signal), for every form of wait, blocking or not, by process or group; signals sent reach exactly the processes addressed. Process, user and group identities, environment, system limits, processor times, sleeping times, exit status and exit actions (each registered action once, in reverse order, before the output streams are flushed) are as the operating system and the Basis define.",
  over=["inputs", "histories", "schedules", "configurations"], qtext="all argument lists and environments, all histories of forks, waits and signals, all users and groups, all ways of ending a program",
  why="no test of the repository creates a process",
  files=["base/runtime/c-libs/posix-process/exec.c", "base/runtime/c-libs/posix-process/exece.c", "base/runtime/c-libs/posix-process/execp.c", "base/runtime/c-libs/posix-process/waitpid.c", "base/runtime/c-libs/posix-process/kill.c", "base/runtime/c-libs/posix-process/alarm.c", "base/runtime/c-libs/posix-process/sleep.c", "base/runtime/c-libs/posix-procenv/environ.c", "base/runtime/c-libs/posix-procenv/getenv.c", "base/runtime/c-libs/posix-procenv/getgroups.c", "base/runtime/c-libs/posix-procenv/sysconf.c", "base/runtime/c-libs/posix-procenv/times.c", "base/runtime/c-libs/posix-procenv/uname.c", "base/system/Basis/Implementation/Unix/os-process.sml", "base/system/Basis/Implementation/Unix/unix.sml", "base/system/Basis/Implementation/OS/at-exit.sml"],
  mech=[("process creation and waiting", "c-libs/posix-process/*.c"), ("environment and identity", "c-libs/posix-procenv/*.c"), ("exit actions", "OS/at-exit.sml, NJ/cleanup.sml")],
  observe=["what a helper program sees as its arguments and environment", "wait results against a model of the children", "/proc views of the process", "exit status and output of ended programs"],
  technique="runtime monitoring: random process histories on the real system checked online against a model of the children and against the kernel's own view (/proc, helper programs); repeated under AddressSanitizer/UBSan and forced collections",
  note="held on the observed histories; timing bounds are one-sided with wide margins")

P(id="C12", title="Sockets carry exactly the bytes, addresses and options requested",
  statement="For stream and datagram sockets of the internet and Unix families, every byte or datagram sent by any send variant (vector or array slice, flagged, non-blocking, to an address) arrives once, unchanged and in order at the peer, every receive variant delivers exactly the peer's bytes into exactly the requested place, and counts, end of stream, urgent data and would-block outcomes are reported as they are. Addresses survive conversion in both directions, and both ends agree on them. Socket options, socket kinds, readiness, pending byte counts and errors are those of the operating system, and no descriptor is leaked.",
  over=["inputs", "histories", "schedules"], qtext="all data, slices, flags, address lengths and option values; all histories of operations on any number of sockets",
  why="no test of the repository opens a socket",
  files=["base/runtime/c-libs/smlnj-sockets/accept.c", "base/runtime/c-libs/smlnj-sockets/recv.c", "base/runtime/c-libs/smlnj-sockets/recvbuf.c", "base/runtime/c-libs/smlnj-sockets/recvfrom.c", "base/runtime/c-libs/smlnj-sockets/recvbuffrom.c", "base/runtime/c-libs/smlnj-sockets/sendbuf.c", "base/runtime/c-libs/smlnj-sockets/sendbufto.c", "base/runtime/c-libs/smlnj-sockets/util-sockopt.c", "base/runtime/c-libs/smlnj-sockets/ctlLINGER.c", "base/runtime/c-libs/smlnj-sockets/to-unixaddr.c", "base/runtime/c-libs/smlnj-sockets/from-unixaddr.c", "base/runtime/c-libs/smlnj-sockets/to-inetaddr.c", "base/runtime/c-libs/smlnj-sockets/from-inetaddr.c", "base/runtime/c-libs/smlnj-sockets/socketpair.c", "base/system/Basis/Implementation/Sockets/socket.sml"],
  mech=[("transfer", "recv*.c, send*.c"), ("addresses", "to-*.c, from-*.c, getsockname.c, getpeername.c"), ("options", "ctl*.c, util-sockopt.c")],
  observe=["bytes and addresses at an independent peer process", "the kernel's option values for the same descriptor", "results of each operation"],
  technique="runtime monitoring: random socket histories against an independent peer that checks bytes, order and addresses online, a kernel probe for options, descriptor-leak monitor; repeated under AddressSanitizer/UBSan and forced collections",
  note="held on the observed histories over loopback and local sockets; trusts the kernel")

P(id="C13", title="Dates, times and timers agree with the calendar and the system clocks",
  statement="Converting any time from the epoch on to a universal or local date gives the fields of the Gregorian calendar and of the configured time zone, converting back gives the same second, and normalised dates, offsets, comparisons, formatting (every conversion, any length) and parsing agree with the calendar. Time arithmetic, printing and scanning are exact. The current time, sleeps, real and CPU timers and process times agree with the kernel's clocks and never run backwards.",
  over=["inputs", "configurations", "histories"], qtext="all times, time zones, date fields, offsets, format strings; all mixes of user, system, collection and idle time",
  why="no test of the repository uses dates or timers; errors show only in other time zones, in summer, or for long formats",
  files=["base/runtime/c-libs/smlnj-date/localtime.c", "base/runtime/c-libs/smlnj-date/gmtime.c", "base/runtime/c-libs/smlnj-date/mktime.c", "base/runtime/c-libs/smlnj-date/strftime.c", "base/runtime/c-libs/smlnj-date/localoffset.c", "base/runtime/c-libs/smlnj-date/unix-date.c", "base/runtime/c-libs/smlnj-date/unix-date.h", "base/runtime/c-libs/smlnj-time/gettime.c", "base/runtime/c-libs/smlnj-time/timeofday.c", "base/runtime/kernel/timers.c", "base/runtime/kernel/unix-timers.c", "base/runtime/c-libs/posix-procenv/times.c", "base/system/Basis/Implementation/date.sml", "base/system/Basis/Implementation/time.sml"],
  mech=[("date conversion", "c-libs/smlnj-date/*.c, date.sml"), ("clocks", "c-libs/smlnj-time/*.c, kernel/timers.c")],
  observe=["date fields, formatted strings and times", "kernel accounting of the process"],
  technique="runtime monitoring: random times, dates and formats in eleven time zones checked against an independent calendar and the C library's zone rules; clock monitor that brackets every reading with kernel readings; repeated under AddressSanitizer/UBSan and forced collections",
  note="held on the observed inputs; times before 1970 are outside (the representation is unsigned); clock tolerances are several kernel ticks")

P(id="C22", title="Ordered maps and sets behave as finite maps and sets",
  statement="Every ordered finite map and set structure and functor of the SML/NJ Library (binary, red-black, splay, list, int, word and atom variants) behaves as the mathematical finite map or set under every operation of its signature, for every history of operations: results, element order, callback order, cardinalities, documented exceptions. Values are persistent: an operation never changes a map or set obtained earlier. The tree-based balanced variants keep operation cost logarithmic in the number of elements.",
  over=["inputs", "histories"], qtext="all operation histories, all keys and values, all interleavings of versions",
  why="no test of the maps exists; the library is only used incidentally by the tests that run",
  files=["smlnj-lib/Util/ord-map-sig.sml", "smlnj-lib/Util/ord-set-sig.sml", "smlnj-lib/Util/redblack-map-fn.sml", "smlnj-lib/Util/redblack-set-fn.sml", "smlnj-lib/Util/binary-map-fn.sml", "smlnj-lib/Util/binary-set-fn.sml", "smlnj-lib/Util/splay-map-fn.sml", "smlnj-lib/Util/splay-set-fn.sml", "smlnj-lib/Util/list-map-fn.sml", "smlnj-lib/Util/list-set-fn.sml", "smlnj-lib/Util/int-redblack-map.sml", "smlnj-lib/Util/int-binary-map.sml", "smlnj-lib/Util/word-redblack-map.sml"],
  mech=[("tree rebalancing on insert/delete", "redblack-map-fn.sml insert, remove'; binary-map-fn.sml T'"), ("linear-time rebuild for bulk operations", "redblack-*-fn.sml addItem/link")],
  observe=["results of the ORD_MAP/ORD_SET operations", "calls to Key.compare"],
  technique="runtime monitoring: recorded operation histories on live structures checked against an executable reference model; comparison-count monitor",
  note="held on the observed histories (tens of thousands of operations over 20 implementations per run); trusts Python's dict/frozenset as model")

P(id="C15", title="Concurrent ML delivers every communication exactly once, however scheduled",
  statement="Under every schedule and time slice, each message sent on a channel, mailbox or multicast channel is received exactly once per recipient and in order from each sender, synchronous variables hold one value at a time, calls get their own replies, waits are never cut short by more than a time slice, joins return only after the thread has ended, and each barrier round releases all of its participants with the same state. Synchronizing on any combination of events evaluates each guard once, commits exactly one enabled alternative, runs exactly its actions and handlers, and sends the negative acknowledgement to exactly the alternatives not chosen. A deadlocked program ends with failure.",
  over=["schedules", "programs", "histories"], qtext="all thread programs and event expressions, all interleavings of threads, preemptions, timeouts and collections",
  why="the tests do not run Concurrent ML programs; races show only under particular preemptions",
  files=["cml/src/core-cml/event.sml", "cml/src/core-cml/channel.sml", "cml/src/core-cml/scheduler.sml", "cml/src/core-cml/mailbox.sml", "cml/src/core-cml/sync-var.sml", "cml/src/core-cml/timeout.sml", "cml/src/core-cml/thread.sml", "cml/src/core-cml/barrier.sml", "cml/cml-lib/multicast.sml", "cml/cml-lib/simple-rpc.sml", "base/runtime/c-libs/smlnj-runtime/setitimer.c", "base/runtime/c-libs/smlnj-signals/pause.c", "base/runtime/mach-dep/unix-signal.c"],
  mech=[("events and synchronization", "core-cml/event.sml"), ("preemption", "core-cml/scheduler.sml; mach-dep/unix-signal.c"), ("communication", "core-cml/channel.sml, mailbox.sml, sync-var.sml")],
  observe=["log of every thread", "guards, actions, handlers and negative acknowledgements in order", "elapsed time of waits", "outcome of the program"],
  technique="runtime monitoring: random thread programs and event expressions run with preemption slices from 0.5 to 20 ms; the recorded histories are judged offline (exactly-once, order, one winner, possible outcomes of an event expression); repeated with small allocation areas, under AddressSanitizer/UBSan and with forced collections",
  note="schedules are those the timer produced in the observed runs")

P(id="C17", title="System databases, host names and error codes are reported as they are",
  statement="Looking up users, groups, hosts, services, protocols and networks, by name, number or address, returns every field of the entry the operating system's database holds (names, aliases, members, addresses, ports, identifiers of any size, in order), and reports absence as absence. Host names of any permitted length, and conversion of written addresses in every accepted form, agree with the C library. Error numbers, their names and messages, and the other named system constants are those of the operating system.",
  over=["inputs", "configurations"], qtext="all database contents (entries with any number of aliases, members, addresses), all names, numbers and written addresses",
  why="no test of the repository uses these databases; errors show only for entries with several aliases, large identifiers, or in the other byte order",
  files=["base/runtime/c-libs/posix-sysdb/getpwnam.c", "base/runtime/c-libs/posix-sysdb/getpwuid.c", "base/runtime/c-libs/posix-sysdb/getgrnam.c", "base/runtime/c-libs/posix-sysdb/getgrgid.c", "base/runtime/c-libs/smlnj-sockets/util-mkhostent.c", "base/runtime/c-libs/smlnj-sockets/util-mkservent.c", "base/runtime/c-libs/smlnj-sockets/getprotbyname.c", "base/runtime/c-libs/smlnj-sockets/util-mknetent.c", "base/runtime/c-libs/smlnj-sockets/gethostname.c", "base/runtime/c-libs/smlnj-sockets/getservbyport.c", "base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c", "base/runtime/c-libs/posix-error/listerrors.c", "base/runtime/c-libs/posix-error/geterror.c", "base/runtime/c-libs/unix-raise-syserr.c", "base/system/Basis/Implementation/Sockets/host-db.sml", "base/system/Basis/Implementation/Sockets/serv-db.sml"],
  mech=[("entry conversion", "util-mk*.c, posix-sysdb/*.c"), ("constants", "unix-raise-syserr.c, posix-error/*.c")],
  observe=["every field of every entry returned", "calls and arguments that reach the C library"],
  technique="runtime monitoring: the C library's database functions are replaced by a preloaded recorder that serves generated entries; results and the arguments that arrive are compared with the generated database, repeated with the system's own databases, under AddressSanitizer/UBSan and forced collections",
  note="held on the observed entries; name resolution over a network is outside (no network)")

P(id="C18", title="Terminal attributes and controls act on the terminal exactly as asked",
  statement="Reading a terminal's attributes returns its flags, speeds and control characters exactly; setting them (now, after draining, after flushing) changes exactly those, and reading them back, by the program or by anybody else, gives the values set. Flushing, draining, breaks, flow control, foreground process group and window size act and answer as the operating system's calls do. Failing calls raise the system error of the operating system and change nothing.",
  over=["inputs", "histories"], qtext="all attribute values and all histories of terminal operations, on terminals and other files, with and without a controlling terminal",
  why="no test of the repository uses a terminal",
  files=["base/runtime/c-libs/posix-tty/tcgetattr.c", "base/runtime/c-libs/posix-tty/tcsetattr.c", "base/runtime/c-libs/posix-tty/tcflush.c", "base/runtime/c-libs/posix-tty/tcflow.c", "base/runtime/c-libs/posix-tty/tcdrain.c", "base/runtime/c-libs/posix-tty/tcsendbreak.c", "base/runtime/c-libs/posix-tty/tcgetpgrp.c", "base/runtime/c-libs/posix-tty/tcsetpgrp.c", "base/runtime/c-libs/posix-tty/getwinsz.c", "base/runtime/c-libs/posix-tty/osval.c", "base/system/Basis/Implementation/Posix/posix-tty.sml"],
  mech=[("attributes", "tcgetattr.c, tcsetattr.c"), ("line control", "tc*.c")],
  observe=["the kernel's terminal state, read through the master side by an independent process", "bytes that pass the terminal", "results"],
  technique="runtime monitoring: random histories on a pseudo-terminal, each step mirrored with the C library on a twin terminal whose kernel state, queued bytes and results must stay equal; repeated under AddressSanitizer/UBSan and forced collections",
  note="held on the observed histories on pseudo-terminals; serial lines are not available here")

P(id="C21", title="Collection counters, collection controls and time profile tell the truth",
  statement="The counters of allocation, large-object allocation, promotion and collections per generation agree with what the program did since the last reset, however often they are read, for every heap configuration. Collection requests collect what they say, controls report and set the values they name and never disturb the program's data, and messages appear for exactly the collections made while they are on. The time profile charges each quantum of processor time once, to the unit that was running (or the collector), and nothing while it is off.",
  over=["histories", "programs", "configurations"], qtext="all sequences of allocation, collection, control and reading; all heap configurations",
  why="no test of the repository reads a counter, changes a control or profiles a program",
  files=["base/runtime/gc/init-gc.c", "base/runtime/gc/minor-gc.c", "base/runtime/gc/major-gc.c", "base/runtime/gc/ml-objects.c", "base/runtime/gc/flip.c", "base/runtime/c-libs/smlnj-runtime/gc-ctl.c", "base/runtime/c-libs/smlnj-runtime/gc-counter.c", "base/runtime/mach-dep/unix-prof.c", "base/runtime/c-libs/smlnj-prof/setptimer.c", "base/runtime/c-libs/smlnj-prof/setpref.c", "base/system/Basis/Implementation/NJ/gc.sml", "base/system/Basis/Implementation/NJ/prof-control.sml"],
  mech=[("counters", "gc/init-gc.c GetGCStats, ResetGCStats"), ("controls", "gc-ctl.c"), ("profile ticks", "unix-prof.c ProfSigHandler")],
  observe=["counter readings after known amounts of work", "collector messages", "profile array and consumed processor time"],
  technique="runtime monitoring: random programs with a known amount of allocation, collections and processor time; conservation checks on every counter reading, message log checker, tick-to-time comparison; under AddressSanitizer/UBSan and heap-checker runtimes",
  note="held on the observed programs; promotion is checked exactly only while no older generation is collected; profile tolerance 40 % of ticks on a loaded machine")

P(id="C04", title="Memory and descriptors that a program no longer uses are given back",
  statement="A program whose live data stay bounded runs in bounded memory for any length of time, whatever kinds and sizes of objects it creates and drops, for every heap configuration; after a large structure is dropped and collected its memory is reusable and the process shrinks. A weak pointer to an object that nothing else refers to is emptied by a collection that reclaims it. No call of a library function, successful or failing, leaves memory or descriptors behind.",
  over=["programs", "histories", "configurations"], qtext="all allocation patterns with bounded live data, all numbers of repetitions, all library calls",
  why="tests run for seconds and never look at their own memory or descriptors",
  files=["base/runtime/gc/flip.c", "base/runtime/gc/gc-util.c", "base/runtime/gc/big-objects.c", "base/runtime/gc/major-gc.c", "base/runtime/gc/minor-gc.c", "base/runtime/gc/ml-objects.c", "base/runtime/memory/mem-mmap.c", "base/runtime/memory/mem-common.ins", "base/runtime/c-libs/posix-process/exece.c", "base/runtime/c-libs/posix-filesys/opendir.c", "base/runtime/c-libs/posix-filesys/closedir.c", "base/runtime/c-libs/posix-os/poll.c"],
  mech=[("sizing of generations", "flip.c Flip"), ("return of memory", "gc-util.c FreeGeneration, TrimHeap; mem-mmap.c"), ("weak pointers", "gc-util.c ScanWeakPtrs")],
  observe=["resident and virtual size and open descriptors of the process, from the kernel, between phases", "weak pointers after collections"],
  technique="runtime monitoring: long churn workloads per kind of object and per library call with a memory and descriptor monitor between phases (growth must stop), weak-pointer census after collections",
  note="held on the observed workloads; leaks below about 10 bytes per call and rare paths not in the list of calls are not seen")

P(id="C05", title="Compiled programs compute what the language defines, in the order it defines",
  statement="Every program that the type checker accepts compiles, and running it gives the value, the exception and the sequence of side effects that the definition of the language prescribes: left-to-right evaluation, first matching rule, generative exceptions, checked arithmetic at each integer size, modular words, structural equality, closures, state and modules. This does not depend on optimisation, inlining, spilling, the size of constants, heap parameters or when collections happen.",
  over=["programs", "inputs", "configurations"], qtext="all well-typed programs and all their inputs, all heap configurations",
  why="a test suite contains programs that people wrote; miscompilation shows on combinations that nobody wrote",
  files=["base/compiler/CodeGen/main/mlrisc-gen-fn.sml", "base/compiler/CPS/opt/contract.sml", "base/compiler/CPS/clos/closure.sml", "base/compiler/CPS/main/limit.sml", "base/compiler/FLINT/opt/fcontract.sml", "base/compiler/FLINT/trans/translate.sml", "base/compiler/FLINT/trans/matchcomp.sml", "MLRISC/amd64/mltree/amd64-gen.sml", "MLRISC/amd64/amd64MC.sml", "MLRISC/amd64/ra/amd64SpillInstr.sml", "base/runtime/mach-dep/AMD64.prim.asm", "base/runtime/gc/call-gc.c"],
  mech=[("translation and optimisation", "compiler/FLINT, compiler/CPS"), ("code generation", "mlrisc-gen-fn.sml, MLRISC/amd64"), ("execution and collection", "runtime kernel and gc")],
  observe=["result or exception of each application of a generated function", "the log of effects it performed, in order", "monitors of the heap while it ran"],
  technique="runtime monitoring: random typed programs generated together with an independent evaluator; every application's result, exception and effect log compared, under several heap configurations, AddressSanitizer/UBSan and forced collections with heap checks",
  note="held on the observed programs and inputs; programs that run long, real arithmetic beyond exact dyadic values, callcc and threads are not generated")

P(id="C08", title="Constants in programs have exactly their written values",
  statement="Every constant of a compiled program (integers and words of all sizes, strings, characters, reals, vectors and nested structures of them, of any size and number) has at run time exactly the value written, with equality, length and sharing as the language defines. This holds for every heap configuration, whenever collections happen while the constants are built, and when the constants are larger than the allocation area.",
  over=["programs", "configurations"], qtext="all programs with constants, all constant tables that a compiler may produce, all heap configurations",
  why="the tests contain a few small constants, never large ones, many shared ones, or a small allocation area",
  files=["base/runtime/gc/build-literals.c", "base/runtime/c-libs/smlnj-runtime/mkliterals.c", "base/runtime/kernel/boot.c", "base/runtime/gc/ml-objects.c", "base/compiler/CPS/main/new-literals.sml", "base/compiler/Basics/reals/real-to-bits-fn.sml"],
  mech=[("constant interpreter", "build-literals.c BuildLiterals"), ("constant compiler", "new-literals.sml")],
  observe=["every value of the built table, walked before and after collections, and pointer equality of shared values", "output of programs that print their constants"],
  technique="runtime monitoring: random constant tables run through the runtime's interpreter and walked against an independent model of the format, random source programs against their generator's values; under small allocation areas, AddressSanitizer/UBSan and forced collections",
  note="held on the observed tables and programs; real constants are allowed one unit in the last place (the compiler rounds approximately)")

P(id="C19", title="Command line, runtime options and booting do what they are asked or refuse",
  statement="A program sees exactly the arguments it was given, in order and unchanged, without the runtime's own options, whose last setting takes effect (heap parameters, image, command name); an option without its argument, a size that cannot be represented, or a missing or unusable image, boot list or boot file is refused with a message and a failure status. Booting the system from its object files gives a working system for every heap configuration, loads the units in order, and never produces an image from damaged, truncated or missing boot files.",
  over=["inputs", "configurations", "fault_sequences"], qtext="all argument lists of any length and bytes, all option combinations, all damages of the boot files",
  why="the tests start the system in one way only and never from damaged files",
  files=["base/runtime/kernel/main.c", "base/runtime/kernel/ml-options.c", "base/runtime/kernel/boot.c", "base/runtime/gc/init-gc.c", "base/runtime/gc/import-heap.c", "base/runtime/c-libs/smlnj-runtime/argv.c", "base/runtime/c-libs/smlnj-runtime/raw-argv.c", "base/runtime/c-libs/smlnj-runtime/shift-argv.c", "base/runtime/c-libs/smlnj-runtime/cmd-name.c", "base/runtime/include/ml-options.h"],
  mech=[("option parsing", "main.c ProcessCommandLine, ml-options.c, init-gc.c ParseHeapParams"), ("boot loader", "boot.c")],
  observe=["name, arguments and heap parameters as the program sees them", "exit status and messages of refused starts", "units loaded and behaviour of the booted image"],
  technique="runtime monitoring: random command lines against an independent reading of them, fault injection into options, images and boot files, booted systems run on a reference program; under AddressSanitizer/UBSan and forced collections",
  note="held on the observed command lines and damages; a damage that leaves the structure of a boot file intact (flipped code bytes) is not expected to be detected")

P(id="C07", title="Integer and word arithmetic is exact or signals overflow",
  statement="Every arithmetic, comparison, bitwise, shift and conversion operation of every integer and word size, including arbitrary precision, gives the exact mathematical result, or its residue for words, and signals overflow, division by zero or a bad argument exactly when the result does not exist, at whatever point of the program that happens and whatever the program is doing. Numerals print and scan back, in every radix, to the same value, with everything after the numeral left unread. A program that catches such an exception carries on unharmed, as many times as it likes.",
  over=["inputs", "programs", "histories"], qtext="all operands of all sizes, all radices and texts, all sequences of trapping and non-trapping operations",
  why="tests use a few small operands; results near the limits of each size, traps raised in compiled code and their recovery cannot be sampled by hand",
  files=["base/runtime/mach-dep/unix-fault.c", "base/runtime/mach-dep/signal-sysdep.h", "base/runtime/kernel/run-ml.c", "base/runtime/mach-dep/AMD64.prim.asm", "base/system/Basis/Implementation/int-inf.sml", "base/system/Basis/Implementation/Target64Bit/num-format.sml", "base/system/Basis/Implementation/Target64Bit/num-scan.sml", "base/system/Basis/Implementation/scan-util.sml"],
  mech=[("trap handling", "mach-dep/unix-fault.c"), ("arbitrary precision", "int-inf.sml"), ("numerals", "num-format.sml, num-scan.sml")],
  observe=["result or exception of each operation", "state after recovery from a trap"],
  technique="runtime monitoring: every operation of a large generated stream is checked online against exact arithmetic; repeated under AddressSanitizer/UBSan, forced collections and small allocation areas",
  note="held on the observed operations")

P(id="C14", title="Real arithmetic, rounding, conversion and decimal text follow IEEE 754",
  statement="Addition, subtraction, multiplication, division and square root of reals are correctly rounded in each of the four rounding modes, the mode set is the mode in force until changed, and special values (signed zeros, subnormals, infinities, not-a-number) compare, classify, step and decompose as IEEE 754 and the Basis define. Conversions to and from integers of any size are exact or correctly rounded, or raise the documented exception; byte packing is in the stated order. Decimal output has the requested digits and is nearest to the shortest numeral that denotes the value, that numeral scans back to the same real, and scanning gives the nearest real (within one unit in the last place beyond 17 digits).",
  over=["inputs", "configurations", "histories"], qtext="all operands including special and subnormal values, all rounding modes and their changes, all formats and digit counts, all numerals",
  why="tests print a handful of ordinary reals in the default mode",
  files=["base/runtime/c-libs/smlnj-math/ctlrndmode.c", "base/runtime/c-libs/smlnj-math/cos64.c", "base/runtime/c-libs/smlnj-math/exp64.c", "base/runtime/c-libs/smlnj-math/log64.c", "base/runtime/c-libs/smlnj-math/sqrt64.c", "base/runtime/c-libs/smlnj-math/atan64.c", "base/runtime/c-libs/smlnj-math/sin64.c", "base/runtime/mach-dep/AMD64.prim.asm", "base/system/Basis/Implementation/Real/real64.sml", "base/system/Basis/Implementation/pack-real64-big.sml", "base/system/Basis/Implementation/pack-real64-little.sml"],
  mech=[("rounding modes and C math", "c-libs/smlnj-math/*.c"), ("scaling and truncation", "AMD64.prim.asm"), ("reals of the Basis", "Basis/Implementation/Real/*.sml")],
  observe=["bit pattern of every result", "rounding mode reported after each operation", "decimal text"],
  technique="runtime monitoring: every operation of a large generated stream is checked online, bit for bit, against exact rational arithmetic rounded in the mode; repeated under AddressSanitizer/UBSan, forced collections and small allocation areas",
  note="elementary functions are compared to the C library within a relative error of 1e-11 (absolute 1e-15)")

P(id="C23", title="Pickles written by ASDL code read back in C++ and SML alike",
  statement="For every type specification, the code the ASDL tool generates for C++ and for SML and the support libraries write every value in the documented byte format and read it back as the same value, so that what either language writes the other reads. Reading damaged or truncated data ends in a reported error, never in a read outside the data. Every byte written is the byte that reaches the file or memory, and streams can be moved, named and destroyed without loss or leak.",
  over=["inputs", "programs", "histories"], qtext="all specifications of the covered forms, all values, all damaged inputs, all sequences of stream operations",
  why="the repository's tests pickle a few fixed values",
  files=["asdl/src/lib/cpp/asdl.cpp", "asdl/src/lib/cpp/asdl-integer.cpp", "asdl/src/lib/cpp/include/asdl/asdl.hpp", "asdl/src/lib/cpp/include/asdl/asdl-stream.hpp", "asdl/src/lib/cpp/include/asdl/asdl-integer.hpp", "asdl/src/lib/sml/asdl-memory-pickle.sml", "asdl/src/lib/sml/asdl-file-pickle.sml", "asdl/src/asdlgen/back-end/cpp/gen-pickle.sml", "asdl/src/asdlgen/back-end/sml/gen-pickle-fn.sml"],
  mech=[("support libraries", "asdl/src/lib/cpp, asdl/src/lib/sml"), ("generated picklers", "asdl/src/asdlgen/back-end")],
  observe=["bytes written against the documented format", "values read back in either language", "sanitizer reports"],
  technique="runtime monitoring: the C++ library and generated C++ code run under AddressSanitizer and UndefinedBehaviorSanitizer on generated values and damaged input, checked against an independent encoder and against the SML code",
  note="held for the specifications and values generated; two SML format deviations are known findings")
