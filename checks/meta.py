def _m(spec, how): return ("TLA+ specification %s; %s" % (spec, how[0]), how[1])
_conc = ("TLC model-checks it and validates traces of the real library recorded under a controlled scheduler",
         "Sampled schedules (random walk and PCT, switch points at every memory access and atomic operation of the library) of random multi-threaded programs; sequentially consistent memory assumed; every recorded event must be a step of the specification.")
_proto = ("TLC model-checks it and validates traces of the real library with enumerated fault injection",
          "Single and double faults at every callback position of 12 small programs are enumerated, plus random programs with 0-257 modules and up to 320 events in 1-3 threads; undo callbacks do not fail.")
_sync = ("TLC model-checks it and validates call/return traces of the real code recorded under a controlled scheduler (effects placed between call and return)",
         "Sampled schedules of random multi-threaded programs with 2-4 threads (14-21 for lock capacity), at most four lock operations under way at a time; sequentially consistent memory assumed.")
_seq = ("TLC model-checks it and validates traces of random programs run by the real library against it",
        "Random single-threaded transactional programs on small regions, with commits, and aborts by conflict and error; sampled.")
_txl = ("TLC model-checks it and validates traces of random programs run by the real library against it",
        "Random transactional programs on up to two containers per kind with at most 32 entries, with commits and aborts by conflict and error at random points; sampled. The multiset's tree is not modelled, only its behaviour.")
_lib1 = ("TLC model-checks it and validates traces of random programs run by the real library against it",
         "Random single-threaded transactional programs with commits, and aborts by conflict and error at random points; sampled.")
_file = ("TLC model-checks it and validates traces of random programs run by the real library on files in a scratch directory against it",
         "Random single-threaded transactional programs with commits, and aborts by conflict and error at random points; up to about 100 units per file, units of 1 to 5000 bytes; sampled. O_TRUNC, and I/O on files that are also changed by the program outside of transactions meanwhile, are not covered.")
META = {
    "C19": _m("TxFile (and TxFileMC, the write log and its replay)", _file), "C20": _m("TxFile (and TxFileMC, the write log and its replay)", _file), 
    "C22": _m("TxFile (and TxFileMC, the write log and its replay) and TxFdC (the life of descriptors of concurrent transactions)", ("TLC model-checks both and validates traces of the real library in a scratch directory against them, random programs of one thread and concurrent ones under a controlled scheduler", "Random transactional programs with commits, and aborts by conflict and error; 2 to 4 threads on 12 files for concurrent ones; sampled programs and schedules; concurrent operations are open, dup, close, fstat and pread.")),
    "C21": _m("TxFileC (committed files and one operation log per thread; TxFileCMC refines it with the lock protocol on records, size and offset)", ("TLC model-checks it and validates traces of concurrent transactions of the real library, run under a controlled scheduler, against it", "2 to 4 threads on 2 files, through shared descriptors or descriptors that the transactions open; operations aligned and unaligned to the 1024-byte records; sampled schedules.")),
    "C23": _m("TxStream (pipes, FIFOs, sockets and terminals as queues; TxStreamMC refines it with the write buffers and their replay)", ("TLC model-checks it and validates traces of random programs run by the real library against it; the bytes that have arrived at the other ends are observed between any two steps", "Random single-threaded transactional programs with commits, and aborts by conflict and error at random points; sampled. Datagrams of length zero and broken connections (EPIPE, ECONNRESET) are not covered.")),
    "C24": _m("TxFs (a tree of directories, files, symbolic links and FIFOs)", ("TLC model-checks it and validates traces of random programs run by the real library in a scratch directory against it", "Random single-threaded transactional programs with commits, and aborts by conflict and error at random points, as root; sampled.")),
    "C25": _m("TxFs (working directory and path resolution) and TxMem (the working directory as a shared cell)", ("TLC model-checks both and validates traces of the real library against them, sequential programs in a scratch directory and concurrent ones under a controlled scheduler", "Random programs; sampled schedules.")),
    "C26": _m("TxLocale (process locale, thread locale and locale objects) and TxMem (each category as a shared cell)", ("TLC model-checks both and validates traces of the real library against them, sequential programs and concurrent ones under a controlled scheduler", "Random programs; sampled schedules; the locales C, C.utf8 and en_US.utf8; locale objects of concurrent transactions are not shared.")),
    "C28": _m("TxSignal (TxSignalMC refines it with the library's flags and tables, and with threads that acquire and give back signals meanwhile)", ("TLC model-checks it and validates traces of the real library against it: hardware faults and sent signals at random points of random programs on two threads", "Random programs, one process each; 9 signals, caused by faults (invalid and unbacked memory, division, invalid instruction, breakpoint), pthread_kill() and sigqueue(), also from another thread and nested in handlers; sampled. Signals that arrive while the library itself works (other than in load_tx()), during a rollback, or after a non-recoverable error are not covered; picotm_libc_add_signal() is first called outside of transactions.")),
    "C29": _m("TxFpu", ("TLC model-checks it and validates traces of random programs run by the real library against it; results, flags and errors of the plain function are recorded next to each call", "All 240 math functions over special and random arguments in all rounding modes with random earlier flags, sampled; signalling NaNs are not covered; the plain function of the C library is taken as oracle for its own result.")),
    "C32": _m("TxString (every function defined over the transaction's view of memory)", ("TLC model-checks it and validates traces of random programs run by the real library against it; the plain functions' results are recorded as a second oracle", "Random single-threaded transactional programs of 38 string, memory and formatting operations on an 80-byte region that ends at an inaccessible page, with commits, and aborts by conflict and error; sampled. Formats without flags, widths and precisions; the C locale.")),
    "C30": ("Quint specification Num (casts over unbounded integers and exact scaled floating-point values) and TLA+ table specification Num8Trace; quint's simulator generates behaviours, as ITF traces, that are replayed in the real code, and TLC compares exhaustive tables of the small types", "All values for pairs of 8-bit types; values around all limits of all types and random ones for the others, sampled; round to nearest."),
    "C31": ("Quint specification Num (arithmetic over unbounded integers and exact scaled floating-point values) and TLA+ table specification Num8Trace; quint's simulator generates behaviours, as ITF traces, that are replayed in the real code, and TLC compares exhaustive tables of the small types", "All operand pairs of the 8-bit types; operands around all limits of all types and random ones for the others, sampled; round to nearest."),
    "C34": _m("TxExit (TxExitMC adds the history its guarantees talk about)", ("TLC model-checks it and validates traces of random programs run by the real library, one process each, against it; memory, a file and a pipe that outlive the process are observed by its parent", "Random single-threaded transactional programs that end in exit_tx(), _exit_tx(), _Exit_tx() or abort_tx(), with aborts by conflict and error before and during the last commit, and with atexit() handlers that run transactions; sampled.")),
    "C35": _m("PicotmLib (refined by PicotmLibMC, rings of pointers and growing blocks of memory) and PicotmSync (PicotmSyncMC, atomic accesses)", ("TLC model-checks both and validates traces of random programs run by the real code, sequential ones and concurrent ones under a controlled scheduler, against them", "Random programs on 7 items in 2 lists, tables of up to 60 elements of 1 to 40 bytes with failing allocations, error values, counters and addresses; sampled schedules of 2 to 4 threads for spin locks and shared counters; sequentially consistent memory assumed.")),
    "C18": _m("TxHeap", _lib1), "C27": _m("TxErrno", _lib1),
    "C13": _m("TxLib (and TxLibImpl, the in-place update with undo)", _txl), "C14": _m("TxLib (and TxLibImpl, local queue and event application)", _txl),
    "C15": _m("TxLib (and TxLibImpl, local stack and event application)", _txl), "C16": _m("TxLib", _txl), "C17": _m("TxLib (and TxLibImpl)", _conc),
    "C02": _m("TmSeq", _seq), "C11": _m("TmSeq", _seq), "C12": _m("TmSeq", _seq),
    "C04": _m("RWLock (refined by RWLockImpl, the compare-and-exchange counter)", _sync), "C09": _m("SharedObj", _sync), "C10": _m("TreeMap", _sync), "C33": _m("PtrData", _sync),
    "C01": _m("TxMem", _conc), "C03": _m("TxMem", _conc), "C05": _m("TxMem", _conc),
    "C06": _m("TxProtocol", _proto), "C07": _m("TxProtocol", _proto), "C08": _m("TxProtocol", _proto),
}
NA = {}
