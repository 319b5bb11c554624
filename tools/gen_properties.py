#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Transactions on shared memory are serializable and isolated",
  "Concurrent transactions that load and store shared memory behave as if the committed ones had run one at a time, in the order in which they commit. A transaction attempt, including one that is later rolled back, reads only its own writes and values written by committed transactions, and all its reads belong to one consistent state.",
  ["schedules", "programs"], "every set of transactions over shared words and every interleaving of their threads, down to single memory accesses of the library",
  "the pubapi and tm tests run a few counters and swaps under whatever schedule the machine produces; a lost lock or early release shows only in rare interleavings",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/frame.c", "modules/tm/src/framemap.c", "modules/tm/src/page.c", "src/picotm-lib-rwlock.c", "src/picotm-lib-rwstate.c", "src/picotm_tx.c"],
  [("per-block reader/writer locking held until after apply/undo", "modules/tm/src/vmem_tx.c: acquire_page, vmem_tx_finish"), ("two-phase commit", "src/picotm_tx.c: picotm_tx_commit"), ("address to lock mapping", "modules/tm/src/framemap.c")],
  ["values returned by load_*_tx/loadstore_tx, memory contents after commit, in the order of the module apply phase"],
  [("frame lock", "reader count / writer flag of an 8-byte block", "modules/tm/src/frame.h"), ("page buffer and bitmap", "transaction-local copy of a block", "modules/tm/src/page.h")])

p("C02", "A rolled-back attempt leaves shared memory as it found it",
  "When an attempt of a transaction is rolled back, because of a conflict, a restart request or a reported error, every memory location that the attempt stored to or privatized holds the value it had before the attempt. The next attempt starts from that state, and other threads can then access the locations without conflict.",
  ["histories", "fault_sequences", "schedules"], "every sequence of loads, stores and privatizations ended at any point by any kind of abort",
  "tests abort only at a few fixed points and mostly look at the final committed value",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "src/picotm.c", "src/picotm_tx.c"],
  [("undo of write-through pages", "modules/tm/src/vmem_tx.c: vmem_tx_undo"), ("lock release on finish", "modules/tm/src/vmem_tx.c: vmem_tx_finish"), ("rollback", "src/picotm_tx.c: picotm_tx_rollback")],
  ["raw memory contents when the rollback has finished; success of accesses from other threads"])

p("C03", "An irrevocable transaction runs alone and is never rolled back by others",
  "From the moment a transaction has become irrevocable until it ends, no other transaction executes operations or commits. A request for irrevocability first rolls back the current attempt, its effects then happen exactly once, and the transaction reports itself irrevocable until it ends and revocable again in the next one.",
  ["schedules", "programs"], "every mix of revocable and irrevocable transactions under every interleaving",
  "tests start one irrevocable transaction at a time and cannot enumerate the interleavings with transactions that begin or end at that moment",
  ["src/picotm_lock_manager.c", "src/picotm_tx.c", "src/picotm.c", "src/picotm_os_rwlock.c"],
  [("global exclusive lock", "src/picotm_lock_manager.c: picotm_lock_manager_set_irrevocable / try_lock"), ("begin mode selection", "src/picotm.c: __picotm_begin")],
  ["begin/apply/undo/finish callbacks and operations of all threads in one order", "picotm_is_irrevocable() results"])

p("C04", "Reader/writer locks: one writer or many readers, upgrades only when alone",
  "A transactional reader/writer lock is at every moment held either by any number of readers up to its capacity or by exactly one writer, whatever order threads acquire, upgrade and release in. An attempt succeeds whenever that rule allows it and nobody else is queueing for the lock, otherwise it reports a conflict without changing what anyone holds, and repeating an acquisition or releasing an unheld lock state changes nothing for others.",
  ["schedules", "histories"], "every interleaving of acquire-for-read, acquire-for-write (upgrade) and release by several transactions, at the granularity of single atomic operations",
  "lock tests exercise single acquire/release pairs and one stress loop, not the interleavings of compare-and-swap, waiter registration and release",
  ["src/picotm-lib-rwlock.c", "src/picotm-lib-rwstate.c", "include/picotm/picotm-lib-rwlock.h", "src/picotm_lock_manager.c", "src/picotm_lock_owner.c"],
  [("counter/writer/waiter byte updated by CAS", "src/picotm-lib-rwlock.c"), ("per-transaction lock state", "src/picotm-lib-rwstate.c")],
  ["results of picotm_rwstate_try_rdlock/try_wrlock/unlock and picotm_rwlock_* for each transaction"])

p("C05", "Conflicts are retried, counted and bounded; every transaction finishes",
  "A transaction that meets a conflict is rolled back and re-executed from its beginning, the number of restarts it reports equals the number of re-executions since it first began, and it starts again from zero in the next transaction. After a fixed number of consecutive conflicts it runs irrevocably, so that under every fair schedule every transaction eventually commits; no transaction waits forever for another.",
  ["schedules", "fault_sequences"], "every pattern of conflicts, with and without contending transactions and with transactions old enough to wait for locks",
  "tests restart a transaction a few times; the retry limit and the waiting path need long-lived contention that they do not produce",
  ["src/picotm.c", "src/picotm_tx.c", "src/picotm_lock_manager.c", "src/picotm_lock_owner.c", "src/picotm_os_timespec.c", "src/picotm_os_cond.c"],
  [("retry counting and switch to irrevocable", "src/picotm.c: __picotm_begin, restart_tx"), ("waiting for locks", "src/picotm_lock_manager.c: picotm_lock_manager_wait")],
  ["mode and restart count seen at the beginning of each attempt; completion of all threads"])

p("C06", "Commit and rollback drive all modules through a fixed protocol",
  "A commit asks every participating module to prepare before any module applies, applies every module exactly once only if all prepared successfully, and finishes every module exactly once afterwards; a rollback undoes every module exactly once and then finishes it, and never applies. If preparing fails nothing is applied and the attempt is rolled back, and if a transaction fails to begin, the modules that had begun are finished and those that had not are not called.",
  ["fault_sequences", "histories"], "every number of modules and every point at which a callback reports a conflict or an error",
  "tests register one or two modules and inject no failures at individual callbacks",
  ["src/picotm_tx.c", "src/picotm_module.c", "src/picotm.c", "include/picotm/picotm-module.h"],
  [("phase loops over modules", "src/picotm_tx.c: prepare_commit, apply, undo, finish, begin"), ("module table", "src/picotm_tx.c: picotm_tx_register_module")],
  ["sequence of module callbacks per transaction attempt"])

p("C07", "Logged events are applied in order on commit and undone in reverse on abort",
  "Events that modules append during an attempt are each delivered exactly once to the module that appended them, with the data that was recorded: in the order of appending if the transaction commits, and in exactly the reverse order if it is rolled back. No event of an earlier attempt or transaction is ever delivered later.",
  ["histories", "fault_sequences"], "every interleaving of events of several modules, any number of events, and every outcome of the attempt",
  "existing tests look at one or two events of a single module",
  ["src/picotm_log.c", "src/picotm_event.c", "src/picotm_tx.c", "src/picotm_module.c"],
  [("event log", "src/picotm_log.c: picotm_log_append, apply_events, undo_events")],
  ["sequence of apply_event/undo_event callbacks with module, head and tail"])

p("C08", "Reported errors reach the recovery phase exactly as reported",
  "When an operation in a transaction reports an error, the attempt is rolled back and control continues in the recovery phase, which sees the kind and value of exactly that error; if the recovery phase restarts, the transaction is executed again from the beginning, and otherwise it is finished with none of its effects in place. Errors marked as non-recoverable are reported as such, and a later transaction starts without any error.",
  ["fault_sequences", "programs"], "every kind of error at every point of a transaction, repeated over several transactions",
  "tests trigger one error per program and do not combine errors with restarts and later transactions",
  ["src/picotm.c", "src/picotm-error.c", "src/picotm_tx.c"],
  [("recovery jump and error state", "src/picotm.c: recover_from_error, __picotm_begin"), ("error object", "src/picotm-error.c")],
  ["picotm_error_status(), picotm_error_as_*(), picotm_error_is_non_recoverable() in the recovery phase; callbacks of modules"])

p("C09", "Shared objects are set up by the first reference and torn down by the last",
  "For a reference-counted shared object the set-up function runs exactly once before any holder of a reference proceeds, and the tear-down function runs exactly once after the last reference is gone, for every interleaving of threads that take and drop references. An acquisition whose set-up or condition fails leaves the count unchanged, so that a later one can succeed.",
  ["schedules", "fault_sequences"], "every interleaving of reference and release operations by several threads, with and without failing set-up and conditions",
  "the tests call the functions from one thread in a straight line",
  ["src/picotm-lib-shared-ref-obj.c", "include/picotm/picotm-lib-shared-ref-obj.h", "include/picotm/picotm-lib-ref.h", "include/picotm/picotm-lib-global-state.h"],
  [("count with lock-protected first/last transitions", "src/picotm-lib-shared-ref-obj.c")],
  ["order of set-up/tear-down callbacks against returns of ref_up/down"])

p("C10", "Tree maps keep one value per key, also when shared between threads",
  "Looking up a key yields the value created for exactly that key by the first successful lookup, always the same one for all threads until it is cleared, and a lookup that may not create yields nothing for a key that was never created. Values that are not kept, and all values on tear-down, are passed to the destroy function exactly once.",
  ["schedules", "inputs"], "all keys over the full key width, every order of lookups and concurrent creations, and failing creation",
  "tests insert consecutive keys from one thread",
  ["src/picotm-lib-shared-treemap.c", "src/picotm-lib-treemap.c", "include/picotm/picotm-lib-shared-treemap.h", "include/picotm/picotm-lib-treemap.h"],
  [("lock-free insertion of nodes and values", "src/picotm-lib-shared-treemap.c"), ("tree growth", "src/picotm-lib-treemap.c")],
  ["values returned by find_value; calls of create/destroy functions"])

p("C11", "Within a transaction, memory accesses behave like plain memory",
  "In one transaction a load returns the most recent value stored by the same transaction, byte for byte and for any address, size, alignment and overlap, or else the value in memory; on commit exactly the stored bytes change, each to the last value stored. A combined load-and-store transfers the source region to the destination region.",
  ["inputs", "histories"], "every sequence of loads and stores of all sizes at all offsets, aligned or not, overlapping or spanning blocks",
  "tests store and load whole aligned objects; overlap with block boundaries and partial blocks is hardly sampled",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "modules/tm/src/tm.c", "modules/tm/include/picotm/picotm-tm.h", "modules/tm/include/picotm/picotm-tm-ctypes.h"],
  [("per-block local buffers", "modules/tm/src/vmem_tx.c: vmem_tx_ld/st/ldst"), ("byte bitmaps", "modules/tm/src/page.c")],
  ["bytes returned by load_tx, bytes in memory after commit"])

p("C12", "Privatized memory is protected, directly usable, and restored on abort",
  "After a region, or a string up to and including its terminating character, has been privatized, the transaction may read and write it with ordinary instructions: it sees its own earlier transactional stores there, no other transaction can access the region until the end, commit keeps the direct writes and abort restores the former contents of exactly that region. Memory privatized for discarding keeps none of the transaction's stores (its former contents are back), and neither commit nor abort accesses it afterwards.",
  ["inputs", "histories", "schedules"], "every region and string position relative to blocks, mixed with transactional loads and stores before and after",
  "tests privatize whole aligned arrays once and commit",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "modules/libc/src/string.c", "modules/libc/src/stdlib.c"],
  [("write-through pages with undo copy", "modules/tm/src/vmem_tx.c: vmem_tx_privatize, vmem_tx_privatize_c"), ("terminator scan", "modules/tm/src/page.c")],
  ["memory contents during and after the transaction; conflicts of other threads"])

p("C13", "Transactional lists behave like sequences and survive aborts unchanged",
  "Within and across transactions, inserting, erasing, front and back operations, iteration, size and emptiness of a transactional list agree with an ordinary sequence to which the operations of all committed transactions were applied in commit order. A rolled-back attempt leaves the list with the same entries in the same order.",
  ["histories", "fault_sequences"], "every sequence of list operations split over transactions, each of which commits or aborts",
  "tests run fixed scripts with a handful of entries and rarely abort after several operations",
  ["modules/txlib/src/txlist_tx.c", "modules/txlib/src/txlist.c", "modules/txlib/src/txlist_entry.c", "modules/txlib/src/txlib_event.c"],
  [("direct update with undo events", "modules/txlib/src/txlist_tx.c"), ("event undo", "modules/txlib/src/txlib_event.c")],
  ["results of txlist_* operations and the entries visible outside of transactions"])

p("C14", "Transactional queues are FIFO and survive aborts unchanged",
  "Within and across transactions, push, pop, front, back, size and emptiness of a transactional queue agree with an ordinary first-in-first-out queue to which the operations of all committed transactions were applied in commit order. A rolled-back attempt leaves the queue with the same entries in the same order.",
  ["histories", "fault_sequences"], "every sequence of queue operations split over transactions, each of which commits or aborts",
  "tests run fixed scripts; the hand-over between shared and transaction-local entries has many states they do not visit",
  ["modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txqueue.c", "modules/txlib/src/txqueue_state.c"],
  [("local/shared entry lists and apply/undo", "modules/txlib/src/txqueue_tx.c")],
  ["results of txqueue_* operations and the entries visible outside of transactions"])

p("C15", "Transactional stacks are LIFO and survive aborts unchanged",
  "Within and across transactions, push, pop, top, size and emptiness of a transactional stack agree with an ordinary last-in-first-out stack to which the operations of all committed transactions were applied in commit order. A rolled-back attempt leaves the stack with the same entries in the same order.",
  ["histories", "fault_sequences"], "every sequence of stack operations split over transactions, each of which commits or aborts",
  "tests run fixed scripts; the hand-over between shared and transaction-local entries has many states they do not visit",
  ["modules/txlib/src/txstack_tx.c", "modules/txlib/src/txstack.c", "modules/txlib/src/txstack_state.c"],
  [("local/shared entry lists and apply/undo", "modules/txlib/src/txstack_tx.c")],
  ["results of txstack_* operations and the entries visible outside of transactions"])

p("C16", "Transactional multisets are ordered bags and survive aborts unchanged",
  "Within and across transactions, insert, erase, find, count, lower and upper bound, iteration in key order, size and emptiness of a transactional multiset agree with an ordinary ordered multiset to which the operations of all committed transactions were applied in commit order. A rolled-back attempt leaves the multiset with the same entries.",
  ["histories", "fault_sequences"], "every sequence of multiset operations over colliding and distinct keys, split over transactions that commit or abort",
  "tests use a few fixed key orders; tree shapes with one-sided subtrees and duplicate keys are not enumerated",
  ["modules/txlib/src/txmultiset_tx.c", "modules/txlib/src/txmultiset.c", "modules/txlib/src/txmultiset_entry.c", "modules/txlib/src/txmultiset_state.c"],
  [("binary search tree update with undo events", "modules/txlib/src/txmultiset_entry.c, txmultiset_tx.c")],
  ["results of txmultiset_* operations and iteration order"])

p("C17", "Transactions on shared containers are serializable",
  "Concurrent transactions on shared lists, queues, stacks and multisets have results and final contents as if the committed transactions had run one at a time, in the order in which they commit. No attempt observes entries that another transaction inserted or removed and has not committed.",
  ["schedules", "programs"], "every mix of container operations in several threads under every interleaving",
  "the existing stress tests only check final sizes under the schedules that happen to occur",
  ["modules/txlib/src/txlist_tx.c", "modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txstack_tx.c", "modules/txlib/src/txmultiset_tx.c", "modules/txlib/src/txlib_tx.c"],
  [("container locks acquired in execution or prepare phase, released in finish", "modules/txlib/src/*_tx.c, txlib_tx.c")],
  ["operation results per transaction and final contents, in the order of the module apply phase"])

p("C18", "Transactional heap: allocations vanish on abort, frees happen on commit",
  "Memory allocated in an attempt that is rolled back is released exactly once and nothing else is, and memory freed by a transaction stays allocated with its contents until the transaction commits, at which point it is released exactly once. Allocated blocks have the requested size, alignment and contents (zeroed or carried over), also when a block is reallocated and the transaction then commits or aborts.",
  ["histories", "fault_sequences", "inputs"], "every sequence of malloc, calloc, realloc, aligned allocation, duplication and free, ended by commit or abort",
  "tests allocate and free once per transaction and cannot see a leak, a double free or an early free",
  ["modules/libc/src/allocator/allocator_tx.c", "modules/libc/src/allocator/allocator_log.c", "modules/libc/src/stdlib.c", "modules/libc/src/stdlib-tm.c", "modules/libc/src/string-tm.c", "modules/libc/src/string.c"],
  [("allocation log with apply/undo", "modules/libc/src/allocator/allocator_tx.c")],
  ["calls of the system allocator and contents of the blocks"])

p("C19", "File I/O in a transaction reads its own writes and commits exactly them",
  "For regular files, reads in a transaction return what the file contains overlaid with the transaction's own earlier writes, at the offset the same calls would use outside of a transaction, and nothing reaches the file before the commit. After the commit, file contents, size and file offset are the same as if the calls had been executed directly.",
  ["histories", "inputs"], "every sequence of read, write, pread, pwrite and seek with any offsets, sizes and overlaps",
  "tests write and read back single buffers; overlap, holes, short reads and offsets after commit are not enumerated",
  ["modules/libc/src/fildes/regfile_tx_ops.c", "modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/iooptab.c", "modules/libc/src/fildes/ioop.c", "modules/libc/src/fildes/seekbuf_tx.c", "modules/libc/src/fildes/fd_tx.c"],
  [("write buffer, write and read tables with local offset", "modules/libc/src/fildes/regfile_tx_ops.c")],
  ["return values and buffers of read_tx/write_tx/pread_tx/pwrite_tx/lseek_tx; the file itself before and after commit"])

p("C20", "An aborted transaction leaves files and directories as they were",
  "When an attempt is rolled back, the contents, size, offset and permission bits of every file it used are unchanged, files that it created exclusively or as temporary files are gone, and descriptors that it opened are closed. Descriptors that it closed are still open.",
  ["histories", "fault_sequences"], "every sequence of file operations ended by conflict, restart or error at any point",
  "tests commit most transactions and do not inspect the file system after aborts",
  ["modules/libc/src/fildes/fd_tx.c", "modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/regfile_tx_ops.c", "modules/libc/src/fildes/openoptab.c", "modules/libc/src/fildes/pipeoptab.c", "modules/libc/src/fildes/fchmodoptab.c"],
  [("undo of open, pipe, fchmod", "modules/libc/src/fildes/fildes_tx.c: undo_*")],
  ["file contents, stat results, directory entries and open descriptors after rollback"])

p("C21", "Concurrent transactions on the same file are serializable",
  "Transactions in different threads that read and write overlapping parts of a regular file, through a descriptor that they share or descriptors that they open themselves, behave as if the committed ones had run one at a time in the order in which they commit, including the shared file offset and end-of-file. No attempt reads data of an uncommitted transaction. (A descriptor from outside whose file is in use by a transaction through another descriptor may be refused with EBADF.)",
  ["schedules", "programs"], "every mix of reads, writes and seeks by several threads on shared files, with regions that touch and cross record boundaries",
  "the concurrent file tests use one access pattern, aligned to the locking granularity",
  ["modules/libc/src/fildes/seekbuf_tx.c", "modules/libc/src/fildes/seekbuf.c", "modules/libc/src/fildes/rwcountermap.c", "modules/libc/src/fildes/rwlockmap.c", "modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/filetab.c", "modules/libc/src/fildes/filebuftab.c"],
  [("record locks by file buffer and offset", "modules/libc/src/fildes/rwcountermap.c, rwlockmap.c"), ("offset and size locks", "modules/libc/src/fildes/regfile_tx.c, seekbuf_tx.c")],
  ["data read per transaction and final file contents, in the order of the module apply phase"])

p("C22", "File descriptors: opened at once, closed only on commit, never mixed up",
  "A descriptor opened, duplicated or created in a transaction is usable in it at once and, after commit, by everyone; a rolled back attempt closes it. One closed in a transaction remains open until the commit and is then closed exactly once, and stays open if the attempt is rolled back. Operations on a descriptor always act on the file it currently refers to, also after the number or the file has been closed and reused in later transactions, and a bad descriptor yields the ordinary error. Concurrent transactions never see each other's uncommitted descriptors: a descriptor denotes one file for as long as a transaction uses it, even if another one commits its closing meanwhile; after that commit nobody starts to use it; no two transactions commit closing the same descriptor; and a new number does not depend on openings that are undecided. (A descriptor that the transaction did not open itself may be refused with EBADF while a transaction uses the same file through another descriptor.)",
  ["histories", "fault_sequences", "schedules"], "every sequence of open, close, dup, pipe and I/O over a small pool of descriptors, across transactions that commit or abort, and every interleaving of such transactions",
  "tests open and close one descriptor; reuse of numbers and cached descriptor state across transactions, and closing a descriptor that others use, are not explored",
  ["modules/libc/src/fildes/fd.c", "modules/libc/src/fildes/fd_tx.c", "modules/libc/src/fildes/fdtab.c", "modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/filetab.c", "modules/libc/src/fildes/filebuftab.c"],
  [("descriptor states and reference counts", "modules/libc/src/fildes/fd.c"), ("file tables keyed by identity", "modules/libc/src/fildes/filetab.c")],
  ["validity and target of descriptors inside and outside of transactions"])

p("C23", "Output to pipes, FIFOs and sockets is released only on commit, in order",
  "Bytes that a revocable transaction writes to a pipe, FIFO, socket or character device become visible to the other end only when it commits, then exactly once, complete and in the order of the writes; an aborted attempt sends nothing. (Datagrams without content are not sent; output to a non-blocking descriptor is waited for during the commit.) Reading from such a descriptor happens only after the transaction has become irrevocable and therefore consumes the input exactly once.",
  ["histories", "fault_sequences"], "every sequence of writes, sends and reads on several streams, ended by commit or abort",
  "tests write one buffer to one stream and commit",
  ["modules/libc/src/fildes/fifo_tx_ops.c", "modules/libc/src/fildes/chrdev_tx_ops.c", "modules/libc/src/fildes/socket_tx_ops.c", "modules/libc/src/fildes/fildes_tx.c"],
  [("write buffer applied on commit", "modules/libc/src/fildes/*_tx_ops.c: write_apply")],
  ["bytes available at the other end before, and after, the end of the transaction"])

p("C24", "Path operations act at once, on exactly the path that was given",
  "Operations on paths (link, unlink, mkdir, mkfifo, chmod, stat, lstat, open, mkstemp, mkdtemp) are performed immediately and atomically, on exactly the file that the same call would use outside of a transaction: relative paths start at the working directory as the transaction sees it, and lstat and unlink do not follow a symbolic link. A failing call has no effect on the file system, and its errno reaches the recovery phase. A rolled-back attempt removes the files that it has created exclusively and the temporary files and directories that it has made, and nothing else; truncating an existing file while opening it waits until the transaction is irrevocable.",
  ["programs", "histories", "fault_sequences"], "every sequence of path operations with existing, missing, malformed, relative and absolute paths and symbolic links, after changes of the working directory, ended by commit or abort",
  "tests call each operation once with a valid absolute path and commit",
  ["modules/libc/src/unistd.c", "modules/libc/src/unistd-tm.c", "modules/libc/src/sys_stat.c", "modules/libc/src/sys_stat-tm.c", "modules/libc/src/stdlib.c", "modules/libc/src/stdlib-tm.c", "modules/libc/src/fcntl.c", "modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/cwd/cwd_tx.c"],
  [("absolute_path() and the system call; undo of open, mkstemp, mkdtemp", "modules/libc/src/fildes/fildes_tx.c, modules/libc/src/*-tm.c")],
  ["results of the calls, errno in the recovery phase, the tree of files after each attempt"])

p("C25", "The working directory changes with the transaction",
  "A directory change in a transaction is visible to its own later path operations, is undone when the attempt is rolled back and stays after commit. The directory that a transaction has read or resolved paths against is not changed by another one until it ends.",
  ["histories", "schedules"], "every sequence of directory changes, queries and relative-path operations, ended by commit or abort, by several threads",
  "tests change the directory once and commit",
  ["modules/libc/src/cwd/cwd_tx.c", "modules/libc/src/cwd/cwd_log.c", "modules/libc/src/cwd/cwd.c", "modules/libc/src/cwd/module.c"],
  [("lock of the directory state and undo events", "modules/libc/src/cwd/cwd_tx.c")],
  ["getcwd results inside and outside of transactions"])

p("C26", "Locale changes follow the transaction",
  "Changes of the process locale or of the thread's locale in a transaction are visible to the transaction itself, are undone completely when the attempt is rolled back and stay after commit. Locale objects created in a rolled-back attempt are released, and objects freed in a transaction stay valid until it commits.",
  ["histories", "schedules"], "every sequence of locale queries, changes, creations and releases over all categories, ended by commit or abort",
  "tests set one category once and commit",
  ["modules/libc/src/locale/locale_tx.c", "modules/libc/src/locale/locale_log.c", "modules/libc/src/locale/locale.c", "modules/libc/src/locale/module.c", "modules/libc/src/locale.c"],
  [("category locks and undo events", "modules/libc/src/locale/locale_tx.c")],
  ["setlocale/uselocale/localeconv results inside and outside of transactions"])

p("C27", "errno is restored on rollback",
  "When an attempt is rolled back, whether it is re-executed or ends in the recovery phase, errno has the value it had when the transaction first touched it in that attempt. On commit the value produced by the transaction is kept.",
  ["histories", "fault_sequences"], "every mix of errno-modifying operations before any kind of abort",
  "tests save and restore one value",
  ["modules/libc/src/error/error_tx.c", "modules/libc/src/error/module.c", "modules/libc/src/errno.c"],
  [("saved value restored on undo", "modules/libc/src/error/error_tx.c")],
  ["errno at the beginning of the next attempt, in the recovery phase and after commit"])

p("C28", "Signals in a transaction lead to recovery with the signal's details",
  "When a signal that has been acquired from the process and enabled on the thread before arrives while the thread executes a transaction, the transaction ends there and its recovery phase sees the signal with its number, code and address or value. If the signal has been enabled as recoverable, the attempt is rolled back first and the recovery phase runs with the signal mask from before the transaction; otherwise the error is marked as non-recoverable. All other acquired signals, in and outside of transactions, during the recovery phase, and on threads that have not enabled them, are passed once to the function that the application gave for them. A released signal is handled as it was before it was acquired.",
  ["fault_sequences", "programs"], "every supported signal, caused in every way, at every point of the execution of a transaction, also repeatedly, nested, on several threads and in later transactions",
  "tests raise one signal in one transaction, five times in a row",
  ["modules/libc/src/signal/signal_tx.c", "modules/libc/src/signal/sigstate.c", "modules/libc/src/signal/module.c", "src/picotm.c"],
  [("signal handler and per-thread state", "modules/libc/src/signal/signal_tx.c, sigstate.c")],
  ["calls of the application's handlers with their siginfo, siginfo in the recovery phase, memory and signal mask after the rollback"])

p("C29", "Floating-point environment and math errors follow the transaction",
  "A math function called in a transaction returns what the plain function returns and reports as transaction error exactly the domain, pole and overflow errors which that very call raises (underflow may be reported as range error), regardless of exceptions raised before; complex, rounding, minimum and maximum functions report no errors. A successful call adds the exception flags of the plain function and removes none. When an attempt is rolled back, floating-point exception flags and environment settings it changed are restored; on commit they are kept.",
  ["inputs", "histories"], "all math functions over ordinary, special and failing arguments, with any earlier floating-point state, ended by commit or abort",
  "tests call each function once with one ordinary argument and a clean floating-point state",
  ["modules/libm/src/math.c", "modules/libm/src/math-tm.c", "modules/libm/src/complex.c", "modules/libm/src/matherr.c", "modules/libm/src/fpu_tx.c", "modules/libm/src/module.c"],
  [("error detection around each call", "modules/libm/src/matherr.c"), ("saved environment restored on undo", "modules/libm/src/fpu_tx.c")],
  ["function results, recovery errors, fetestexcept/fegetround after the transaction"])

p("C30", "Checked casts convert exactly or report a range error",
  "A checked cast between arithmetic types returns the same value in the target type when the target can represent it, and otherwise reports a range error to the recovery phase without producing a result. If the target is a floating-point type and the value lies within its range without being representable, the cast returns a neighbouring representable value like the plain conversion. This holds for every pair of types and every value.",
  ["inputs"], "all pairs of types and all values, in particular those around the limits of both types",
  "tests try a few values per pair of types",
  ["modules/cast/include/picotm/picotm-cast.h", "modules/cast/include/picotm/picotm-cast-ctypes.h", "modules/cast/src/cast.c"],
  [("range comparison before conversion", "modules/cast/include/picotm/picotm-cast.h: PICOTM_CAST_TX")],
  ["result or recovery error of each cast"])

p("C31", "Checked arithmetic is exact or reports overflow or division by zero",
  "Checked addition, subtraction, multiplication and division of integers return the exact mathematical result (truncated for division) when the type can represent it, report a range error when it cannot, and report a domain error for division by zero. For floating-point types a finite result equals the plain operation and only results outside of the finite range are reported as range errors (a result whose exact value exceeds the finite range but rounds to its limit may be returned or reported).",
  ["inputs"], "all operand pairs of all types, in particular around zero, one, minus one and the limits",
  "tests try a few operand pairs per type and operation",
  ["modules/arithmetic/include/picotm/picotm-arithmetic.h", "modules/arithmetic/include/picotm/picotm-arithmetic-ctypes.h", "modules/arithmetic/src/arithmetic.c"],
  [("operand checks before each operation", "modules/arithmetic/include/picotm/picotm-arithmetic.h")],
  ["result or recovery error of each operation"])

p("C32", "C string and memory functions work transactionally",
  "String and memory functions called in a transaction on shared buffers return the same result as the plain functions on the transaction's view of memory, including its own earlier transactional stores. Their writes are kept on commit and completely undone on abort, and bytes outside of the regions that the plain functions would access stay untouched.",
  ["inputs", "histories"], "all contents, lengths, alignments and overlaps of the buffers, mixed with transactional stores, ended by commit or abort",
  "tests call each function once on one short string and commit",
  ["modules/libc/src/string.c", "modules/libc/src/string-tm.c", "modules/libc/src/stdio.c", "modules/libc/src/stdlib.c", "modules/libc/include/picotm/string.h"],
  [("privatization of operands before calling the plain function", "modules/libc/src/string.c")],
  ["return values and buffer contents inside of and after the transaction"])

p("C33", "Data attached to pointers is kept per address and per scope",
  "Data attached to an address is returned for exactly that address until it is replaced or cleared; shared data is seen by all threads and its test-and-set is atomic, thread-local data is seen only by the thread that set it. The absence of data is reported as such.",
  ["histories", "schedules"], "every sequence of set, test-and-set, clear and get over many addresses and threads",
  "the tests set and get a few addresses from one thread",
  ["modules/ptrdata/src/ptrdata.c", "modules/ptrdata/src/ptrdata_tx.c", "modules/ptrdata/src/module.c"],
  [("shared and local tree maps", "modules/ptrdata/src/ptrdata.c, ptrdata_tx.c")],
  ["values returned by ptr_get_*"])

p("C34", "Ending the process in a transaction commits the transaction first",
  "exit_tx(), _exit_tx(), _Exit_tx() and abort_tx() commit the transaction they are called in, and then end the process the way, and with the status, the plain function does. If the commit fails, the process goes on: the transaction is rolled back, and restarts or enters its recovery phase. Handlers that have been registered with atexit() run, for exit_tx() only, after the transaction has ended, see its effects, and may run transactions themselves.",
  ["histories", "crash points"], "every program that leaves from a transaction, at every point, with every outcome of the commit",
  "no test calls these functions",
  ["modules/libc/src/stdlib.c", "modules/libc/src/unistd.c", "src/picotm.c"],
  [("commit before leaving", "modules/libc/src/stdlib.c:exit_tx, _Exit_tx, abort_tx"), ("commit before leaving", "modules/libc/src/unistd.c:_exit_tx")],
  ["exit status", "memory, files and pipes shared with other processes"])

p("C35", "The building blocks that picotm-lib offers to modules keep their promises",
  "Lists: an item is in at most one list, in the place where it was put; sorted insertion keeps the order; searches and walks visit the items in order, at most up to the end. Tables: resizing keeps the elements that fit and provides memory for all, or reports an error and leaves the table intact, also after memory ran short; walks in both directions visit the elements in order and stop at the first error. Error values tell exactly the status, value, recoverability and description that were set last. Reference counters tell the first and the final reference, for concurrent threads exactly one of each per lifetime. Spin locks exclude each other's holders; trying fails only if the lock is held. Addresses are rounded to the nearest aligned address in the asked direction.",
  ["histories", "schedules"], "every sequence of operations on lists, tables, error values and counters, every outcome of memory allocation, and every schedule of concurrent holders",
  "the tests run a few fixed sequences on slists, tables and tree maps, from one thread",
  ["include/picotm/picotm-lib-slist.h", "src/table.c", "src/picotm-error.c", "include/picotm/picotm-lib-ref.h", "include/picotm/picotm-lib-spinlock.h", "include/picotm/picotm-lib-ptr.h"],
  [("rings of next pointers", "include/picotm/picotm-lib-slist.h"), ("table sizes and the switch to linear growth", "src/table.c:tabresize"), ("atomic counters and flags", "include/picotm/picotm-lib-ref.h, picotm-lib-spinlock.h")],
  ["list contents and positions", "table elements", "results of ref_up()/ref_down()/try_lock()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
