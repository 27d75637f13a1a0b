#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "A plain ring is an exact FIFO of whole messages",
 "On a ring created without drop or farm mode, the sequence of messages returned by reads is exactly the sequence of messages accepted by successful writes: same order, same boundaries, same bytes, each exactly once. This holds wherever a message falls relative to the end of the data area or of the message table, however many readers and writers share the ring, and even if the caller reuses its buffers as soon as a write returns. Unread data is never overwritten.",
 ["inputs","histories","configurations"],
 "every ring size and message limit, every sequence of write/writev/read/readv calls on any number of reader and writer handles",
 "The tests replay a few dozen fixed sequences with fixed 3 to 37 byte messages on a handful of ring sizes; the wrap positions of the data area and of the slot table that a long mixed history reaches are not enumerated.",
 ["src/shr.c","src/shr.h"],
 [("next_msg_info: slot to (pos,len), two-part wrapped copy","src/shr.c next_msg_info"),("copy-in loop and eviction of already-read slots","src/shr.c shr_writev"),("advance of read slot / counters","src/shr.c shr_readv")],
 ["shr_read","shr_readv","shr_write","shr_writev"],
 [("i,u,m,mp,r,e,q","write offset, unread bytes/messages, present messages, read slot, eldest slot and its sequence number","shr_ctrl in src/shr.c"),("mv","slot table of (pos,len)","after the data area")])

prop("C02", "Writes are all-or-nothing and succeed exactly when they fit",
 "A write or batch write on a plain ring returns the full byte count exactly when its messages fit in the free bytes and the free message slots, so the whole declared capacity is usable; otherwise a non-blocking call returns 0 and a blocking call waits. A request that can never be stored (empty, containing a zero-length message, larger than the ring's byte size, or more messages than the ring can ever hold) returns -1 at once, blocking or not, in every ring mode. Any return other than the full count leaves ring contents, counters and later behaviour untouched.",
 ["inputs","histories","configurations"],
 "every ring geometry and fill level, every batch shape including empty and zero-length elements, blocking and non-blocking writers",
 "Tests try a few exact-fit writes on tiny rings; no test passes a zero-length element, an over-count batch in each mode, or checks that a refused write has no effect at arbitrary fill levels.",
 ["src/shr.c"],
 [("argument validation loop","src/shr.c shr_writev"),("free space test n-u and mm-m","src/shr.c shr_writev")],
 ["return values of shr_write/shr_writev","shr_stat","subsequent reads"])

prop("C03", "Drop mode always accepts writes and discards only the oldest unread data",
 "On a drop-mode ring every storable write succeeds immediately and in full, in blocking and non-blocking mode alike. To make room it discards whole messages only, oldest unread first, and no more of them than the new batch needs in bytes and slots; the survivors and the new messages are then read in order and intact. The dropped message and byte counters grow by exactly what was discarded.",
 ["inputs","histories","configurations"],
 "every drop-mode ring geometry, message size mix, batch shape and interleaving of writes with reads",
 "Tests 36-51 and 82-104 use fixed layouts with two or three messages; the relation between byte shortage, slot shortage, wrap position and already-read messages is not covered in general.",
 ["src/shr.c"],
 [("drop_unread frees bytes and slots","src/shr.c drop_unread"),("eldest advance","src/shr.c shr_writev")],
 ["shr_write","shr_writev","shr_read","shr_stat md/bd"])

prop("C04", "Every farm reader independently sees every message that was not overwritten",
 "On a farm ring each reader handle starts at the oldest message present when it opens and then reads every later message exactly once, in order and intact, unaffected by other readers. It skips a message only if writes had already overwritten it, and then resumes at the oldest message still present; the farm loss count it reports equals exactly the number of messages it skipped since opening or since the last reset. Farm writes always succeed, and a message is overwritten only when its space or slot is needed.",
 ["inputs","histories","configurations"],
 "every farm ring geometry, number of readers, reader lag, batch shape and reset point",
 "Tests use one or two farm readers with equal-size messages and fixed lags; sequence/slot arithmetic over many wraps with unequal readers is not explored.",
 ["src/shr.c"],
 [("per-handle sequence number and catch-up","src/shr.c next_msg_info"),("eldest slot and sequence number advance","src/shr.c shr_writev"),("start position","src/shr.c shr_open"),("loss counter","src/shr.c shr_farm_stat")],
 ["shr_read","shr_readv","shr_farm_stat"])

prop("C05", "Reads return whole messages within the caller's buffers, or nothing",
 "A bulk read returns the longest run of next unread messages that fits both the byte buffer and the supplied vector; the vector entries it fills tile the start of the buffer in order, one per message, with exact lengths, the count is set to the number filled, and the return value is their total length. If the next message does not fit, the read returns -2 with a count of zero, and the message stays available unchanged to a later, larger read. No byte outside the returned region of the buffer and no unused vector entry is written, and a zero-sized buffer or vector is refused with -1.",
 ["inputs","histories","configurations"],
 "every buffer length and vector size relative to the queued message sizes, in plain, drop and farm rings",
 "Tests call readv with one or two fixed shapes and check printed lengths only; nothing checks out-of-region writes or that -2 preserves the message in each mode.",
 ["src/shr.c"],
 [("copy-out loop with iov and length budgets","src/shr.c shr_readv"),("single-message wrapper","src/shr.c shr_read")],
 ["shr_read","shr_readv return value, *iovcnt, iov[], buffer bytes"])

prop("C06", "The ring's state outlives the processes that use it",
 "Unread messages, statistics, application data, limits and modes of a ring are the same for every process that opens it, at the same time or later, whichever processes wrote or read it before and whether they closed the ring or simply exited. Opening, closing, inspecting or selecting on a ring never adds, removes or alters a message. A later process continues exactly where the previous ones stopped.",
 ["histories","configurations"],
 "every split of an operation history over successive and overlapping processes, with clean and unclean exits between operations",
 "A few tests reopen a ring in the same process or in two processes at fixed moments; none checks a whole history split at arbitrary points over processes that exit without closing.",
 ["src/shr.c","lib/bw.c"],
 [("all shared state lives in the mapped file","src/shr.c shr_ctrl"),("shr_open derives handle state from the file","src/shr.c shr_open"),("shr_close releases only handle resources","src/shr.c shr_close")],
 ["shr_open","shr_close","shr_read","shr_stat","shr_appdata"])

prop("C07", "Concurrent use is linearizable",
 "However calls of several processes on one ring overlap, their results equal those of some one-at-a-time order of the same calls that respects real time: nothing is lost, duplicated, torn or reordered, each batch stays contiguous and atomic, and counters and application data are seen consistently. This covers plain, drop and farm rings, blocking and non-blocking handles, and opens and closes happening in the middle.",
 ["schedules","histories"],
 "every interleaving of up to four processes' reads, writes, stats, app-data calls, opens and closes, preempted anywhere",
 "Tests run two or three processes separated by whole-second sleeps, so that their calls never overlap.",
 ["src/shr.c","lib/bw.c"],
 [("file lock around every shared access","src/shr.c lock/unlock"),("re-test of the condition after re-locking","src/shr.c shr_readv, shr_writev")],
 ["call results of concurrent processes"])

prop("C08", "No lost wakeups: a blocked call resumes once it can proceed",
 "A blocked read resumes as soon as a message it can read is in the ring, and a blocked write resumes as soon as the ring has room for its whole batch, for every one of the waiting processes, whatever order the blocking, writing, reading, opening and closing happened in. No schedule leaves a process blocked while its operation could be performed. A call that has to wait keeps waiting, and consumes nothing, until it can proceed.",
 ["schedules","histories"],
 "every schedule of blocking readers and writers (up to the waiter limit), including wakeups racing with the decision to sleep and waiters that arrive or leave in between",
 "Each blocking test has a single waiter that is already asleep seconds before the peer acts; races around going to sleep and several waiters are not reached.",
 ["src/shr.c","lib/bw.c"],
 [("datagram queued per waiter, so that a wake before the wait is kept","lib/bw.c bw_wake, bw_wait_ul"),("wake on every write and on every read that frees space","src/shr.c"),("waker resyncs its sockets when waiters change","lib/bw.c bw_sync")],
 ["return of blocked shr_read/shr_readv/shr_write/shr_writev/shr_flush"])

prop("C09", "The selectable descriptor is readable whenever unread data is available",
 "For a non-blocking reader, whenever the ring holds a message that reader can read, its selectable descriptor polls readable: right after opening, after any write by any process, after its own partial reads and after reads by others. After its own read that leaves nothing to read, or that finds nothing, the descriptor is not readable until new data arrives. Only non-blocking readers get a descriptor; every other handle gets -1.",
 ["histories","schedules","configurations"],
 "every history of writes, partial and full reads by any number of readers, opens and closes; plain, drop and farm rings",
 "Tests select on one descriptor at fixed points of short scripts; the invariant is not checked after every step of general histories with several readers.",
 ["src/shr.c","lib/bw.c"],
 [("bw_force after each read and at open","src/shr.c shr_readv, open_blockwake"),("drain or self-send","lib/bw.c bw_force"),("wake of all waiters","lib/bw.c bw_wake")],
 ["poll on shr_get_selectable_fd"])

prop("C10", "A caller's descriptor interrupts a blocked call, without side effects",
 "A descriptor registered with the poll-descriptor control makes a read or write that is blocked (or would have to block) return -3 when the descriptor is readable, for readers and for blocking writers, single and bulk calls alike. It never makes a call fail that can proceed without waiting, and any number of descriptors may be registered. A call that returns -3, or -1 because a signal interrupted its wait, has consumed, stored and dropped nothing, and the handle keeps working.",
 ["histories","schedules","inputs"],
 "every blocking operation, ring state and moment at which the descriptor becomes readable or a signal arrives",
 "Two tests cover one reader and one writer with a single alarm; absence of side effects, repeated use, several descriptors and buffered writers are not covered.",
 ["src/shr.c","lib/bw.c"],
 [("extra descriptors in the epoll set","lib/bw.c bw_ctl, bw_wait_ul"),("-3 passed through","src/shr.c shr_readv, shr_writev")],
 ["shr_ctl","return values -3/-1"])

prop("C11", "Buffered writes are deferred, never lost, reordered or torn",
 "Messages written through a buffered writer reach the ring in write order, whole, exactly once, and only when the internal buffer cannot take the next write, on a flush, or at close; until then they are invisible to readers and are reported by the writer's cache statistics. Everything buffered can always be flushed at once into an empty ring, a flush returns the number of bytes it moved or 0 with everything still buffered when a non-blocking flush finds no room, and a waiting flush blocks until there is room even on a non-blocking handle; a close flushes too, and only what finds no room at the close of a non-blocking handle, or when that last flush is interrupted, is given up. A write that is refused leaves the buffer and the ring unharmed.",
 ["inputs","histories","configurations"],
 "every mix of buffered writes, flushes, closes and reads over ring geometries on both sides of the buffer's size and count limits",
 "Tests 13-24 write a few 1-3 byte messages; buffer overflow by bytes and by count, direct writes larger than the buffer, and refused flushes are not explored.",
 ["src/shr.c"],
 [("cache sink / flush / direct write loop","src/shr.c shr_writev"),("shr_flush and wait toggle","src/shr.c shr_flush"),("cache sizing","src/shr.c init_cache"),("final flush","src/shr.c shr_close")],
 ["shr_stat cn/cm/cb","shr_flush return","reads"])

prop("C12", "Statistics always equal what actually happened",
 "At every moment the counters equal the totals since the last reset: bytes and messages written by completed writes, returned by reads, and dropped unread. The unread byte and message counts, ring size, message limit and mode flags always describe the ring's actual content and creation parameters. A reset returns the old values, zeroes exactly the period counters, records the given start time and affects nothing else, and every handle of every process sees the same values.",
 ["histories","configurations"],
 "every history of writes, reads, drops, refused operations, flushes and resets on every ring mode",
 "Tests print the statistics at a few points of fixed scripts, and never reset them together with drops or refused operations.",
 ["src/shr.c","src/shr.h"],
 [("counter updates under lock","src/shr.c shr_readv, shr_writev, drop_unread"),("snapshot and reset","src/shr.c shr_stat")],
 ["shr_stat"])

prop("C13", "Application data is an independent, exact-size register in the ring file",
 "The application data region returns exactly the bytes last stored, starting with those given at creation, to any handle of any process, and no ring operation ever changes it. A set must have exactly the region's size; a get succeeds with any buffer at least that large, fills only that many bytes and reports that size (or allocates a buffer of that size); get-and-set returns the old bytes and stores the new ones atomically. A wrong size, or a ring without application data, is refused with -1 and changes neither the region nor the caller's buffer.",
 ["inputs","histories","configurations"],
 "every region size, caller buffer size and interleaving of gets, sets and ring traffic",
 "One test sets and gets a 4-byte struct with exact sizes; larger get buffers, wrong sizes, wrap-around traffic next to the region are not tested.",
 ["src/shr.c"],
 [("region after the slot table","src/shr.c shr_init, shr_appdata"),("size checks","src/shr.c shr_appdata")],
 ["shr_appdata"])

prop("C14", "Creating a ring yields exactly the requested empty ring, or changes nothing",
 "A successful creation produces an empty, openable ring with exactly the requested byte size, message limit, modes (farm implies drop) and application data, all counters zero, whatever file was there before; with the keep-existing flag an existing file is left byte-for-byte as it is and success is reported. A refused creation (zero size, flags that do not belong to creation, or sizes that cannot be represented) returns -1, creates no file and leaves an existing file untouched.",
 ["inputs","configurations","histories"],
 "every size, message limit, flag combination and application data length, over absent, foreign, older and in-use files",
 "Tests create rings with a dozen fixed parameter sets and only test keep-existing on a fresh ring.",
 ["src/shr.c"],
 [("layout computation and initialisation","src/shr.c shr_init"),("keep-existing / unlink / exclusive create","src/shr.c shr_init")],
 ["shr_init","shr_open","shr_stat","file bytes"])

prop("C15", "Opening refuses bad modes and files that are not intact rings",
 "Opening succeeds only with exactly one of read-only and write-only and with no creation flags, on a file that is an intact ring; anything else (missing, empty, too small, wrong format, or truncated below the size its header declares) returns a null handle, never crashes, and leaves the file byte-for-byte unchanged. A refused open does not disturb processes that have the ring open. A ring file that is larger than needed is accepted.",
 ["inputs","configurations"],
 "every flag word, and every truncation, extension, magic corruption or arbitrary content of the file",
 "Tests only open valid rings with valid flags.",
 ["src/shr.c"],
 [("validate_flags","src/shr.c validate_flags"),("validate_ring","src/shr.c validate_ring")],
 ["shr_open return","file bytes"])

prop("C16", "Waiter slots: 64 at a time, and dead processes never hold one or harm peers",
 "Up to 64 readers, and independently up to 64 blocking writers, can have a ring open at once; one more open fails cleanly without disturbing the others, and succeeds again after any of them closes. A process that dies without closing, even if it is not yet reaped or its process id now belongs to another process, never makes an open, read or write of another process fail or hang, and its slot becomes available again. A living process's slot is never taken away.",
 ["histories","fault_sequences"],
 "every sequence of opens, clean closes, kills and exits around the limit, with dead processes reaped, unreaped or replaced by an unrelated process",
 "One test (70/71-like) has a peer that exits uncleanly; the limit, slot reuse after kills, zombies and reused process ids are not tested.",
 ["lib/bw.c","lib/ux.c","src/shr.c"],
 [("slot reservation","lib/bw.c bw_reserve"),("pruning of dead owners","lib/bw.c prune_handle, open_socket, wake_one"),("process and socket existence test","lib/ux.c has_pid_socket")],
 ["shr_open","shr_write","shr_read after kills"],
 [("wr[64]","pid and socket name per waiter","struct bw_handle in lib/bw.h")])

prop("C17", "The ring lock serialises all access and is always released",
 "Every call that reads or changes ring state does so only while holding the ring file's exclusive lock: while another process holds that lock, no call completes or changes a byte of the ring file, and it completes normally once the lock is released. Every call, successful, refused, failed or blocked waiting, leaves the lock free, so that a peer can proceed at once.",
 ["schedules","histories","inputs"],
 "every API call and outcome, with the lock held by another process at any moment of the call",
 "Tests never hold the lock from outside nor look at it after error returns.",
 ["src/shr.c"],
 [("lock/unlock around critical sections","src/shr.c lock, unlock"),("unlock on every exit path","src/shr.c done: labels")],
 ["file lock state (F_GETLK)","ring file bytes while the lock is held elsewhere"])

prop("C18", "A sync-mode ring is on backing store when each operation returns",
 "On a ring created in sync mode, when a write, read, flush, application data or statistics call that changed the ring returns success, everything it changed has been synchronously flushed to the ring's backing file. A copy of the backing store taken at the moment any such call has returned, as a power failure would leave it, is therefore a valid ring holding exactly the messages, counters and application data at that point.",
 ["crash_points","histories"],
 "a power failure after any operation of any history, on sync rings with and without drop and farm mode",
 "No test creates a sync ring; power failure cannot be produced by a unit test.",
 ["src/shr.c"],
 [("shr_sync before each unlock","src/shr.c shr_sync and its callers")],
 ["msync calls and mapped content at return"])

prop("C19", "A memory-locked ring is resident and locked in every process that opens it",
 "If a ring was created with the memory-lock mode, then after any successful open, as reader or writer and in combination with any other mode, the whole ring file mapping of that process is locked in memory, and stays so until that handle is closed. If the lock cannot be obtained, the open fails. Rings without the mode are not locked.",
 ["configurations","histories"],
 "every mode and size combination and sequence of opens and closes",
 "No test creates a memory-locked ring.",
 ["src/shr.c"],
 [("mlock at open","src/shr.c shr_open"),("mode recorded at creation","src/shr.c shr_init")],
 ["Locked pages of the mapping in /proc/self/smaps"])

prop("C20", "The block/wake library delivers each wakeup to all waiters and honours force",
 "A wake makes the descriptor of every open waiter of that handle readable, including waiters that joined or re-joined since the waker last looked, and never one that has closed. A waiter's descriptor stays readable until its pending wakeups are consumed or cleared; forcing ready makes it readable at once, forcing clear discards everything pending, and a wait returns only with a wakeup pending or, with -3, when an extra descriptor is ready. At most 64 waiters fit, and opening needs exactly one of wait and wake mode.",
 ["histories","inputs"],
 "every sequence of open, close, wake, wait, ready and force calls by several waiters and wakers on one handle",
 "The library has no unit tests at all; it is exercised only through the ring tests.",
 ["lib/bw.c","lib/bw.h","lib/README.md"],
 [("slot table and sequence number","lib/bw.c bw_reserve, bw_sync"),("force","lib/bw.c bw_force, drain_msgs"),("wake","lib/bw.c bw_wake, wake_one")],
 ["poll on the waiter descriptor","bw_* return values"])

prop("C21", "Closing gives everything back",
 "After a handle is closed, the process has the same open descriptors, memory mappings of the ring, allocated memory and ring lock state as before the open, whatever was done with the handle in between, and the ring has the waiter slot back. An open or create that fails, and any refused call, leaves nothing behind either. Any number of open/use/close cycles can therefore run in one process.",
 ["histories","inputs","configurations"],
 "every history of opens (successful and refused), uses and closes",
 "Tests exit right after closing and never look at descriptors, memory or slots.",
 ["src/shr.c","lib/bw.c","lib/ux.c"],
 [("shr_close / bw_close","src/shr.c shr_close, lib/bw.c bw_close"),("error paths of open","src/shr.c shr_open, lib/bw.c bw_open")],
 ["/proc/self/fd","/proc/self/maps","heap size","slots still available"])

prop("C22", "A failing system call is reported cleanly and harms nothing",
 "If a system call or memory allocation fails during any call, the call either still succeeds completely or reports failure, and if it reports failure then no message was stored, consumed or dropped by it (the synchronous flush to disk of a sync-mode ring excepted, which comes after the ring was changed). Afterwards the lock is free, nothing is leaked by a failed open or create, and the same handle and all others keep working with the ring's contents intact.",
 ["fault_sequences","histories"],
 "every single failing lock, open, map, socket, epoll, send, receive or allocation call at every point of a history",
 "No test injects a failure.",
 ["src/shr.c","lib/bw.c"],
 [("goto done error paths","src/shr.c, lib/bw.c"),("purge of unreachable waiters","lib/bw.c wake_one, open_socket")],
 ["return values, ring content and descriptors after an injected failure"])

prop("C23", "Sizes and offsets are handled at full 64-bit width",
 "Rings and messages larger than 2 GiB and 4 GiB behave exactly as small ones: sizes, lengths, return values, counters and positions are never truncated or sign-flipped, also when a message straddles a 2^31 or 2^32 offset or wraps at the end of such a ring. A request whose total size cannot be represented is refused with -1 rather than accepted wrongly.",
 ["inputs","configurations"],
 "every ring size, message length and position up to several GiB and every batch whose lengths overflow",
 "The largest test ring is a few hundred MB filled with 361-byte messages.",
 ["src/shr.c","src/shr.h"],
 [("size_t positions and lengths","src/shr.c shr_ctrl, struct msg"),("ssize_t returns","src/shr.c shr_readv, shr_writev")],
 ["return values, counters and bytes for multi-GiB rings"])

prop("C24", "shr-tool writes and reads frames exactly",
 "For messages up to the tool's frame limit of 1 MiB: each line given to the tool's write command becomes exactly one message holding the line without its newline (an empty line ends the command with an error), writehex stores exactly the bytes its hex argument denotes and rejects anything that is not pairs of hex digits, and writefile stores the file's bytes as one message. read prints the messages' raw bytes in ring order and readhex a hex and ASCII dump that decodes to exactly those messages; both stop after the requested number of messages, leaving the rest unread, or at end of data, and with the wait option they keep delivering messages that arrive later; being stopped and resumed, or having slow output, loses nothing.",
 ["inputs","histories"],
 "every line, hex string and file content up to the tool's 1,000,000 byte frame buffer, and every split of messages over several tool runs",
 "The test suite never runs shr-tool.",
 ["util/shr-tool.c"],
 [("write/writehex/writefile","util/shr-tool.c main"),("unhex, hexdump","util/shr-tool.c"),("handle_io","util/shr-tool.c handle_io")],
 ["tool output, exit, and ring content"])

prop("C25", "shr-tool create and status match the ring exactly",
 "The create command creates every named ring with the byte size (with its k, m, g or t suffix), message limit, modes and application data file given, keeping existing rings when asked. The status command prints the ring's true counters, sizes and modes and copies the application data out byte for byte, without changing the ring's contents or counters.",
 ["inputs","configurations"],
 "every combination of create options, sizes, suffixes, several rings, and ring states for status",
 "The test suite never runs shr-tool.",
 ["util/shr-tool.c","src/shr.c"],
 [("option parsing","util/shr-tool.c main"),("mode_create, mode_status","util/shr-tool.c main")],
 ["tool output and created ring files"])

prop("C26", "pub and sub carry every frame over TCP intact and in order",
 "A publisher sends each ring message as a 4-byte length prefix (omitted on request) followed by its bytes, and a subscriber stores each received frame as one message, so that a ring is reproduced at the other side with the same boundaries, order and bytes, however the stream is fragmented or coalesced and whatever the sizes of the two rings, provided each frame fits the receiving ring. The publisher serves one client at a time and continues with the next client after a disconnect; a malformed or oversized frame ends the subscriber without storing anything that was not sent.",
 ["inputs","schedules","histories"],
 "every frame size mix up to the tool's frame limit, every fragmentation of the TCP stream, every ratio of batch to receiving ring size",
 "The test suite never runs shr-tool.",
 ["util/shr-tool.c"],
 [("decode_frames, do_subscriber","util/shr-tool.c"),("handle_io publisher branch, accept_client","util/shr-tool.c")],
 ["bytes on the TCP stream, messages in the receiving ring"])

prop("C27", "tee copies every message of a ring to both outputs",
 "The tee command moves every message of the input ring (up to the tool's frame limit of 1 MiB, and of a size that fits both outputs), those present at start and those that arrive later, to both output rings, in order and with the same boundaries and bytes, waiting for room in a full plain output ring rather than losing anything.",
 ["inputs","histories","schedules"],
 "every message mix, input mode, output geometry and arrival order",
 "The test suite never runs shr-tool.",
 ["util/shr-tool.c"],
 [("handle_io tee branch","util/shr-tool.c handle_io"),("mode_tee","util/shr-tool.c main")],
 ["contents of the output rings"])

prop("C28", "mount never stacks a RAM disk and does exactly what was asked",
 "The mount command mounts the requested file system type, with the size option if given, on an existing directory only if that directory is not already a RAM-disk mount point (tmpfs, ramfs or hugetlbfs), then creates the requested subdirectories inside the new mount; on a RAM-disk mount point it reports this and performs no mount. The query option reports what is mounted without changing anything, and unmount unmounts exactly the named directory.",
 ["inputs","configurations"],
 "every directory state (missing, file, plain directory, mount point or not, each file system type), type, size and subdirectory list",
 "Mounting needs privileges and the test suite never runs shr-tool.",
 ["util/shr-tool.c","README.md"],
 [("suitable_mountpoint","util/shr-tool.c"),("mode_mount","util/shr-tool.c main")],
 ["mount/umount/mkdir calls recorded by stand-ins"])

prop("C29", "Unknown shr-tool commands run the matching delegate beside the tool, or nothing",
 "For a command name the tool does not know, if an executable named after the tool's own path, a hyphen and the command exists, it is run with exactly the arguments after the command and the same environment, and its exit status is the tool's. If none exists, or the name is too long, the tool prints its usage, fails, and runs nothing; built-in commands are never delegated.",
 ["inputs","configurations"],
 "every command name and argument list, with and without delegates present",
 "The test suite never runs shr-tool.",
 ["util/shr-tool.c"],
 [("try_delegate","util/shr-tool.c try_delegate")],
 ["delegate's argv, environment and exit status"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
