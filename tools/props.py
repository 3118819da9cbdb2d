#!/usr/bin/env python3
"""Generates properties.jsonl (kept here so the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Cross-thread posting runs every callback exactly once on the right loop",
  "A callback posted to an event loop from any thread runs exactly once, on that loop's own thread, with exactly the arguments it was posted with. It runs within a bounded time of the post, whatever number of threads post at the same time and whether the loop is idle, busy or being interrupted by signals. The order among posted callbacks is not promised.",
  ["schedules", "fault_sequences"], "every interleaving of any number of posting threads with the loop thread, every signal interruption of the loop's wait",
  "The tests post from one thread at a time and never inspect argument integrity, thread identity or multiplicity; lost or doubled posts need a particular interleaving.",
  ["include/kepoll_selector.h", "src/kepoll_selector.c", "src/kselector.c"],
  [("locked notice list + eventfd counter", "include/kepoll_selector.h kepoll_notice/kepoll_notice_event"), ("level-triggered readiness of the notice fd", "src/kepoll_selector.c epoll_selector_init")],
  ["callback invocations", "thread running the callback"])

p("C02", "Timers and sleeps fire once, never early, in deadline order and promptly",
  "A timer added to a loop (directly, from another thread, or by a sleeping fiber) fires exactly once, on that loop, with the arguments given. It never fires before its delay has elapsed on the loop's clock; timers of one loop fire in order of their deadlines; and it fires within about one loop tick (100 ms) after its deadline when the loop is not blocked by user code.",
  ["schedules", "inputs", "histories"], "all sets of delays, including zero, equal, very long and timers added or firing inside timer callbacks, all interleavings of loops",
  "No test uses more than one timer; ordering and tree-rebalancing mistakes need many concurrent deadlines with particular relations.",
  ["src/kselector.c", "src/kselector_manager.c", "src/krbtree.c", "src/kfiber.c"],
  [("deadline tree with cached first node", "src/kselector.c kselector_add_block_queue, kselector_check_timeout"), ("thread-safe variants", "src/kselector_manager.c kselector_add_timer_ts, selector_manager_add_timer"), ("kfiber_msleep", "src/kfiber.c")],
  ["callback times", "kgl_current_msec"])

p("C03", "Wall-clock steps do not stall, lose or hasten timers and timeouts",
  "When the system's wall clock is stepped back or forward by one second or more while timers or socket timeouts are pending, each of them still fires exactly once and after about its original delay: the remaining delay is neither extended by the size of the step nor cut short by it. The library's cached clock shows the new time within about a loop tick. This holds in every way of running the loops (loop threads and single-loop main).",
  ["fault_sequences", "schedules", "histories"], "every step of one second or more in either direction at any point, any set of pending timers and socket operations",
  "No test changes the clock, and a real one cannot; the compensation code is never executed by the tests.",
  ["src/kselector.c", "src/kselector_manager.c"],
  [("step detection and compensation", "src/kselector.c kselector_update_time, kselector_adjust_time; src/kselector_manager.c selector_manager_adjust_time")],
  ["callback times"])

p("C04", "Fiber creation, exit and joining are exact",
  "Every fiber created, on the caller's loop, on another loop or from a plain thread, runs its entry function exactly once with its arguments, on the loop it was assigned to and on a stack of at least the size asked for. Joining, trying to join, a join callback and an exit callback each report the fiber's own return value, exactly once per request, and never before the fiber has ended. Once all fibers have ended and been joined the live-fiber count and the memory they used return to what they were.",
  ["schedules", "histories"], "every interleaving of creators, exiting fibers and joiners across loops and plain threads",
  "The tests create and join a handful of fibers on one schedule; join-before-exit and exit-before-join races across loops are timing dependent.",
  ["src/kfiber.c", "src/kfiber_sync.c", "include/kfiber.h", "include/kfiber_internal.h"],
  [("reference count + close condition", "src/kfiber.c kfiber_create2, kfiber_join, result_fiber_exit"), ("kfiber_create_sync", "src/kfiber.c"), ("context switching with saved owner", "src/kfiber.c __kfiber_switch")],
  ["entry function runs", "join results", "kfiber_get_count()"])

p("C05", "Fiber mutex admits at most its limit and never loses a waiter",
  "At no instant do more fibers or callbacks hold a fiber mutex than its limit, whichever loops and threads they run on. Every blocked locker is granted the mutex after enough unlocks (no lost wakeups), the bounded try-lock fails exactly when the given number of holders and waiters is already reached, and the reported holder and waiter numbers are exact. A limit set while the mutex is in use takes effect: a higher one admits the waiting lockers it has room for, a lower one admits nobody until the holders have become fewer than it.",
  ["schedules", "histories"], "every interleaving of lock, try-lock, callback-lock, unlock and limit changes from fibers of several loops",
  "The single mutex test uses one loop and one order; loss of exclusion or wakeups needs cross-loop interleavings.",
  ["include/kfiber_sync.h", "src/kfiber_sync.c", "include/kfiber.h"],
  [("hand-off of the slot to the woken waiter", "include/kfiber_sync.h kfiber_mutex_unlock"), ("kfiber_mutex_lock2 callback form", "src/kfiber_sync.c")],
  ["critical section occupancy", "lock return values"])

p("C06", "Fiber reader-writer lock excludes writers and never loses a waiter",
  "A writer holding the lock excludes every other reader and writer, readers share, and this holds across loops. Every waiting reader and writer is eventually granted the lock once the holders release it, and no release ever blocks or deadlocks its caller. Readers that keep coming, overlapping one another, do not keep a waiting writer out, nor do writers that follow one another keep a waiting reader out.",
  ["schedules", "histories"], "every interleaving of read-lock, write-lock and unlocks from fibers of one or more loops",
  "No test covers the reader-writer lock with waiting readers.",
  ["include/kfiber_sync.h"],
  [("count/waiter lists under a lock", "include/kfiber_sync.h kfiber_rwlock_*")],
  ["critical section occupancy", "progress of lockers and unlockers"])

p("C07", "Fiber conditions deliver every notification as their kind promises",
  "An auto-reset condition releases exactly one waiter (fiber or callback) per notification, remembering notifications that arrive when nobody waits; a manual-reset one releases every present and future waiter. Waiters receive the notified value when they were waiting, and waiters that find a manual-reset condition set receive the latest one; no waiter stays blocked although a notification is due to it, and none is released without one. The thread-safe kind promises this across loops and threads, and the synchronous kind to plain threads, remembering at most one notification that nobody waited for.",
  ["schedules", "histories"], "every interleaving of waits, try-waits, callback waits and notifications, on one loop or several",
  "Tests exercise one condition on one loop with one waiter.",
  ["src/kfiber_sync.c", "include/kfiber_sync.h", "include/ksync.h"],
  [("event count and waiter list per kind", "src/kfiber_sync.c kfiber_cond_*")],
  ["wait returns and values"])

p("C08", "Fiber channels hand over each item exactly once and close cleanly",
  "Each item sent on a channel is received by exactly one receiver and a send succeeds only when its item has been received; a receiver that takes responsibility for acknowledging a sender decides what that send returns. Closing the channel fails every blocked sender and receiver at once and every later operation; nothing is delivered twice, lost or left blocked.",
  ["histories", "schedules"], "every order of sends, receives, deferred acknowledgements and close by any number of fibers of a loop",
  "The tests run one producer and one consumer; multi-party orders and close in the middle are not sampled.",
  ["src/kfiber_sync.c"],
  [("waiter list with direction flag", "src/kfiber_sync.c kfiber_chan_send/recv/close")],
  ["send/recv results and items"])

p("C09", "TCP streams arrive intact and every operation completes exactly once",
  "Bytes written to a connection are delivered to the peer in order without loss, duplication or corruption, whatever the segmentation, buffer sizes, vectored buffers and concurrent reading and writing on the same connection. Every read, write or connect completes exactly once, with a byte count that matches what was really transferred, and makes progress whenever the transport can. When the peer closes after sending, a reader first gets everything it sent and then end of stream.",
  ["schedules", "inputs", "fault_sequences"], "all sizes, vector splits, segmentations, delays, buffer limits and interleavings of the two directions, on any number of connections and loops",
  "The tests move a few bytes over loopback where every write succeeds at once; partial I/O, would-block and edge-triggered wakeups are hardly reached.",
  ["src/kselectable.c", "src/kepoll_selector.c", "src/kselector.c", "src/kconnection.c", "include/kfiber.h"],
  [("edge-triggered readiness flags", "src/kepoll_selector.c epoll_selector_select, epoll_selector_read/write"), ("retry on would-block", "src/kselectable.c selectable_event_read/write"), ("ready list", "src/kselector.c kselector_check_timeout")],
  ["fiber and callback results", "bytes at the peer"])

p("C10", "Network failures and timeouts are reported truthfully and in bounded time",
  "A connect reports success only if the connection was really established, and failure when it was refused, reset, unreachable or timed out; the connection then joins the address asked for with the local address asked for, and a local address that cannot be used is reported as a failure. A peer that closes, resets or disappears, and an idle timeout, make each pending operation end with an error or end-of-stream within the configured timeout plus a loop tick; a read-timeout-enabled connection reports the timeout and can go on reading without losing data. Timeouts that are changed while operations wait hold for all loops from then on. The blocking connect and socket wait for plain threads keep the same promises within their own timeout.",
  ["fault_sequences", "schedules", "histories"], "every point at which the peer refuses, resets, half-closes, stalls or vanishes, and every timeout configuration",
  "No test injects a refused, reset, stalled or partitioned peer, or waits for a timeout.",
  ["src/kselector.c", "src/kepoll_selector.c", "src/kconnection.c", "src/ksocket.c", "src/kfiber.c", "include/kfiber.h"],
  [("timeout lists per loop", "src/kselector.c kselector_check_timeout"), ("connect completion", "src/kconnection.c, src/kepoll_selector.c epoll_selector_connect"), ("error events", "src/kepoll_selector.c epoll_selector_select"), ("blocking connect and wait", "src/ksocket.c ksocket_connect, wait_socket_event")],
  ["operation results and times"])

p("C11", "A server delivers each accepted connection once and shuts down cleanly",
  "While a server is open every established incoming connection is delivered to exactly one accept callback or accepting fiber, with its peer's address. Closing it from any thread stops acceptance, reports the end to each accept handler, releases each listening descriptor exactly once and never touches a descriptor it no longer owns; when the last user lets go, the server's release hook runs exactly once and all its memory is freed. The same server object can be opened again afterwards. Opening a server on an address that is in use waits a limited time for it, without holding up the loop when a fiber does it: it succeeds if the address becomes free by then and otherwise fails and leaves nothing behind.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of incoming connections, close, release and transient accept errors, on one or several loops",
  "The tests open and close a server without concurrent clients or descriptor reuse.",
  ["src/kserver.c", "include/kserver.h", "src/kepoll_selector.c"],
  [("listener list under lock", "src/kserver.c kserver_close, kserver_selectable_destroy"), ("accept loop macro", "include/kserver.h")],
  ["accept callbacks", "descriptor table", "server reference count"])

p("C12", "TLS connections authenticate, carry data intact and end in bounded time",
  "A TLS handshake between two endpoints of the library completes successfully on both sides whenever the transport delivers, and then bytes written on one side are read on the other in order, unchanged. If the transport fails, closes or the handshake data is corrupted, the handshake and every pending operation report failure within the configured timeout, never success; corrupted bytes are never delivered as data. A peer that is to be verified and shows no certificate or an untrusted one is refused, credentials that cannot be used are refused, a context restricted to some protocol versions speaks these and no other, and a server whose credentials are replaced uses the new ones for the connections that come later.",
  ["schedules", "inputs", "fault_sequences"], "all segmentations, delays, buffer sizes, data sizes, and corruption, reset or close at any point",
  "One TLS test runs one handshake over loopback; records split across reads and failing transports are not reached.",
  ["src/kgl_ssl.c", "src/kselectable.c", "src/kconnection.c", "src/kfiber.c"],
  [("handshake state machine", "src/kgl_ssl.c kselectable_ssl_handshake"), ("TLS aware read/write", "src/kselectable.c selectable_event_read/write, kgl_ssl_readv/writev")],
  ["handshake results", "bytes read", "operation results"])

p("C13", "Asynchronous file reads and writes transfer exactly the bytes they report",
  "An asynchronous file read or write completes exactly once, transfers exactly the reported number of bytes at the file's current position, and moves the position by that amount; at end of file a read reports zero and after an I/O error, a full disk or a failed submission it reports failure, never stale success. This holds with operations on many files in flight and completing in any order, and for unbuffered files with unaligned positions.",
  ["schedules", "inputs", "fault_sequences"], "all sizes and positions, completion orders, short transfers, I/O errors, full disk and submission failures",
  "The file test reads and writes one small file once.",
  ["src/kasync_file.c", "include/kasync_file.h", "src/kepoll_selector.c", "src/kfiber.c", "src/kfile.c"],
  [("completion event to file mapping", "src/kepoll_selector.c result_aio_event, aio_result"), ("offset/alignment adjustment", "include/kasync_file.h kasync_file_adjust_result, src/kepoll_selector.c epoll_selector_aio_read")],
  ["results", "file contents", "kfiber_file_tell()"])

p("C14", "Sending a file transfers exactly that part of the file",
  "Sending a file over a connection delivers to the peer exactly the bytes of the file starting at its current position, in the right order relative to ordinary writes, and advances the position by exactly the reported count. A short, blocked or failed send is reported as such and never loses or repeats bytes.",
  ["schedules", "inputs", "fault_sequences"], "all lengths and positions, socket buffer states, short sends and failures",
  "The only test of sending a file uses a socket that never blocks.",
  ["src/kselectable.c", "src/kepoll_selector.c", "src/kfiber.c"],
  [("sendfile retry", "src/kselectable.c selectable_event_sendfile"), ("position update", "src/kfiber.c kfiber_sendfile")],
  ["peer bytes", "results", "file position"])

p("C15", "The worker queue runs every accepted job once within its limits",
  "Every job accepted by a worker queue runs exactly once, jobs start in the order they were submitted, and never more run at the same time than the configured number of workers; a job is refused only because the queue is full or no thread can be had, and then never runs; however many threads submit at once, submissions that do not wait never fill the queue beyond its limit by more than one job; a submission that has to wait for room returns as soon as its job is taken. Accepted jobs are not stranded even if a thread cannot be created, and after the last user releases the queue it is freed exactly once when idle.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of submitters and workers, thread-creation failures, releases at any point",
  "No stable test covers the worker queue under load or with failing thread creation.",
  ["src/kasync_worker.c", "include/kasync_worker.h"],
  [("queue and counters under a lock", "src/kasync_worker.c kasync_worker_add, kasync_worker_thread")],
  ["job runs", "concurrency", "return values"])

p("C16", "The thread pool runs every started task exactly once",
  "Every task successfully started on the thread pool runs exactly once with its argument, on a pool thread, whether a thread is created for it or an idle one is reused, and also while idle threads are being retired. A start that fails because no thread can be created is reported and its task never runs; the reported busy and idle numbers return to a consistent state when the tasks end, and a pool thread that is retired gives back what it occupied. Retiring ends threads that have been idle for more than a minute, however many younger ones there are, and none that has not.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of task starts, task ends, idle-thread retirement and thread-creation failures",
  "No test starts pool tasks concurrently with retirement.",
  ["src/kthread.c"],
  [("idle list + wakeup signal", "src/kthread.c kthread_pool_start, kthread_flush")],
  ["task runs", "kthread_get_count()"])

p("C17", "Name resolution answers each request once and shares results safely",
  "Every name lookup invokes its callback exactly once with the right addresses or with failure, concurrent lookups of one name share one resolver call, and results are cached and refreshed without giving a caller another name's result. A resolved name stays cached as long as it is used within the idle time and is forgotten by the first flush after it was not. An address list stays valid for as long as a holder keeps it and is freed exactly once, also when the cache is flushed or entries expire at the same time.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of lookups, resolver answers, failures and cache flushes, and any clock jump",
  "The tests resolve numeric or local names once.",
  ["src/kaddr.c", "include/kaddr.h"],
  [("cache tree with pending waiters", "src/kaddr.c kgl_find_addr, kgl_addr_work"), ("reference counts", "src/kaddr.c kgl_addr_refs/release")],
  ["callbacks and addresses", "resolver calls", "memory safety"])

p("C18", "Blocking calls handed to other threads return to their own fiber",
  "A fiber that hands a blocking call to a worker thread resumes on its own loop, exactly once, with the call's result, and the loop keeps serving other fibers meanwhile. File operations made by a fiber of another loop transfer exactly the reported bytes, as they would on the file's own loop.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of worker completion and loop activity, any number of calling fibers and loops, thread-creation failures",
  "Only one thread call is exercised, on one schedule.",
  ["src/kfiber.c", "src/kasync_file.c", "src/kthread.c"],
  [("kfiber_thread_call", "src/kfiber.c"), ("kfiber_file_safe_*", "src/kfiber.c")],
  ["results", "loop running the fiber", "file contents"])

p("C19", "UDP datagrams are received whole, once, with their sender",
  "Each datagram received through the library is one that was sent to that socket, complete and unmodified up to the buffer length, reported once, together with its true source address and, where that was asked for, the local address it was sent to; a datagram sent through the library leaves whole. Loss, duplication and reordering by the network change only which datagrams arrive, and a pending receive completes as soon as one does.",
  ["fault_sequences", "schedules", "inputs"], "all datagram sizes, loss, duplication, reordering and delays, receivers on several loops",
  "The tests do not send datagrams through lossy networks.",
  ["src/kudp.c", "src/kselectable.c", "src/kfiber.c"],
  [("recvmsg with address", "src/kselectable.c selectable_recvmsg"), ("kudp_send/recv", "src/kudp.c, src/kfiber.c")],
  ["datagrams and addresses"])

p("C20", "Thread events are neither lost nor invented",
  "A thread waiting on an auto-reset event returns only after a notification, each notification releases at most one waiter, and a notification with no waiter releases the next one. A manual-reset event, once notified, releases every present and future waiter until it is reset; spurious wakeups of the operating system never reach the caller.",
  ["schedules", "fault_sequences"], "every interleaving of waits, try-waits, resets and notifications by several threads, with spurious wakeups",
  "No test uses events with more than one thread, and spurious wakeups cannot be provoked by a test.",
  ["include/ksync.h"],
  [("flag under mutex + condition variable", "include/ksync.h kcond_*")],
  ["wait returns"])

p("C21", "Spin reader-writer locks exclude writers",
  "A thread holding a spin reader-writer lock for writing excludes all other holders, readers share it, and a lock requested is obtained once the others have released it. With the write-preferring lock a waiting writer keeps out new ordinary readers but not high-priority ones.",
  ["schedules"], "every interleaving of readers and writers at the granularity of single memory accesses",
  "The tests never contend on these locks; violations need a preemption between two adjacent instructions.",
  ["include/ksync.h", "include/katom.h"],
  [("compare-and-swap loops", "include/ksync.h krw_mutex_*, kwr_mutex_*")],
  ["critical section occupancy"])

p("C22", "A hangup watch reports the peer's hangup once and only then",
  "A hangup watch on an idle connection fires exactly once, within a bounded time, when the peer closes its side or the connection breaks, including when that happened just before the watch was set. It never fires while the peer is still connected, never after it was removed, and reading or writing the connection afterwards (which replaces the watch) works as if it had not been set.",
  ["schedules", "fault_sequences", "histories"], "every timing of hangup against registration, removal and other operations",
  "No test uses hangup watches.",
  ["src/kepoll_selector.c", "src/kselectable.c", "include/kselectable.h"],
  [("STF_RDHUP registration", "src/kepoll_selector.c epoll_selector_readhup/remove_readhup")],
  ["callback", "subsequent reads and writes"])

p("C23", "Loops start, tick, stop and return results as asked",
  "A main fiber run to completion on a single loop returns its own result to the caller and leaves no descriptor, kernel file-I/O context or memory behind, any number of times on one thread or on several threads at once; callbacks registered before the loops start run exactly once on a loop thread, and start-up hooks once on every loop thread before anything else. A registered tick callback is called on every loop turn until it is closed and never after, and a loop with a tick asking for earlier service is served by then. A tick callback may close itself or any other tick. Sleeps begun right after the start are not cut short, however long after initialisation the loops are started.",
  ["schedules", "configurations", "histories"], "every number of loops, order of registrations, and repeated runs in one process",
  "The tests start one fixed number of loops once per process.",
  ["src/kselector_manager.c", "src/kselector.c"],
  [("kasync_main", "src/kselector_manager.c"), ("on-ready and thread-init lists", "src/kselector_manager.c"), ("tick list", "src/kselector.c kselector_check_timeout")],
  ["return value", "callbacks", "descriptor table"])

p("C24", "Mixed workloads stay within owned memory, descriptors and loops",
  "Under any mix of servers, clients, timers, fibers, synchronisation, files and worker jobs on several loops, with network and operating-system failures, the library never touches memory it has released or does not own, never operates on a descriptor it has closed or does not own, and never trips its own internal checks. When everything has been closed and joined, every descriptor, heap block, fiber and per-loop outstanding-work count is back to its starting value, and all loops still respond.",
  ["schedules", "fault_sequences", "histories", "programs"], "all mixed workloads, schedules and fault sequences",
  "Each test exercises one feature alone and does not look at descriptors or memory.",
  ["src/kselector.c", "src/kselectable.c", "src/kconnection.c", "src/kserver.c", "src/kfiber.c", "src/kepoll_selector.c"],
  [("ownership by loop", "include/kselectable.h"), ("reference counts", "src/kserver.c, src/kfiber.c, src/kaddr.c")],
  ["heap", "descriptor table", "loop counters"])

p("C25", "Pure containers and string helpers keep their documented values",
  "The buffer chain, memory pool, array, red-black tree and string helpers return the contents put into them, in order, for every sequence of calls.",
  ["inputs", "programs"], "all call sequences and values",
  "Tests sample a few fixed call sequences.",
  ["src/kbuf.c", "src/krbtree.c", "src/kmalloc.c", "include/kstring.h"],
  [("plain sequential data structures", "src/kbuf.c, src/krbtree.c")],
  ["return values"])

p("C26", "Other event back ends give the same guarantees",
  "The io_uring, kqueue and completion-port back ends give the guarantees stated for connections, timers, posting and files as well.",
  ["schedules", "configurations"], "all platforms and back ends",
  "Only the epoll back end is built and tested.",
  ["src/kiouring_selector.c", "src/kkqueue_selector.c", "src/kiocp_selector.c"],
  [("per-platform selector modules", "src/k*_selector.c")],
  ["operation results"])

p("C27", "A fiber waiting for its own event resumes once with that event's value",
  "A fiber that starts an operation of its own and waits for it (kfiber_wait, kfiber_wait_result) resumes exactly once per wait, as the same fiber on its own loop, with exactly the value given to the wakeup addressed to it, and only after such a wakeup. This holds whether the operation completed at once, was completed by a callback or fiber on the same loop, or by another loop or a plain thread (kfiber_wakeup_ts, kfiber_result_callback), however wakeups nest. Waking a fiber on the same loop runs it before the call returns, and the waker then continues as itself. The stacks and local variables of all of them are unchanged.",
  ["schedules", "histories"], "every interleaving and nesting of waits, immediate completions and wakeups of any number of fibers on several loops and of plain threads, all 32-bit values",
  "The tests wake one fiber at a time through library calls; confusing the values, the fibers or the places to return to needs nested and cross-thread wakeups.",
  ["include/kfiber.h", "include/kfiber_internal.h", "src/kfiber.c"],
  [("wakeup stores the value and the fiber to return to", "include/kfiber.h kfiber_wakeup, kfiber_wakeup_ts"), ("wait switches back", "include/kfiber.h __kfiber_wait, kfiber_wait_result"), ("adapter for callbacks", "src/kfiber.c kfiber_result_callback"), ("context switch", "src/kfiber.c __kfiber_switch")],
  ["return values of waits", "kfiber_self2()", "local variables"])

p("C28", "Atomic counters lose no update and report the values they promise",
  "Increments, decrements, additions, subtractions, exchanges and compare-and-swaps of the 16-, 32- and 64-bit atomic counters, made by any number of threads at once, are never lost and never touch a neighbouring variable; increment and decrement return the new value, addition, subtraction and exchange the previous one, so that increments of one counter all get different values, an exchanged value comes out exactly once, and of several holders of a reference count exactly one finds itself to be the last, after all others have let go; a counted string therefore keeps its text while anyone holds it and is freed once, with its text, when the last holder lets go.",
  ["schedules", "inputs"], "every interleaving of updates by several threads, all values including wrap-around",
  "No test updates a counter from two threads at once; everything in the library that counts references or outstanding work relies on it.",
  ["include/katom.h", "include/kstring.h"],
  [("atomic read-modify-write", "include/katom.h")],
  ["counter values", "return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
