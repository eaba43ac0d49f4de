#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data so that ids, titles and anchors stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))
H = "include/boost/fiber/"

prop("C01", "Mutexes: one owner at a time, truthful attempts, documented misuse errors",
 "At any moment at most one fiber, on whatever thread, owns a mutex, timed mutex, recursive mutex or recursive timed mutex, and a recursive mutex is released only by as many unlocks as its owner made locks. A non-blocking or timed attempt reports success exactly when the caller has become the owner, and never fails on a mutex that no other fiber holds or wants. Locking or try-locking a non-recursive mutex by its owner and unlocking by a non-owner report the documented errors and leave the mutex unchanged.",
 ["schedules", "programs", "configurations"], "every program of lock, try_lock, try_lock_for, try_lock_until and unlock calls over any number of mutexes of the four kinds, made by any fibers on any threads under any scheduling algorithm and interleaving",
 "tests use two or three fibers on one thread in one fixed order; ownership can only be violated by particular interleavings of fibers and threads",
 [H+"mutex.hpp", H+"timed_mutex.hpp", H+"recursive_mutex.hpp", H+"recursive_timed_mutex.hpp", "src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp"],
 [("owner checked and set under the mutex' spinlock, waiters loop until the owner is clear", "src/mutex.cpp lock/try_lock/unlock and the three siblings")],
 [("owner_", "fiber that owns the mutex", "mutex classes"), ("count_", "recursion depth", "recursive mutexes")], ["return of lock/try_lock*, entry of unlock, lock_error codes"])
prop("C02", "Mutexes: releasing a lock always lets a waiting fiber proceed",
 "Whenever a mutex of any kind is free and fibers are waiting for it without a deadline, one of them eventually obtains it, no matter how other waiters with deadlines, failed attempts, errors or threads interleave. A release is never consumed by a waiter that gives up.",
 ["schedules", "programs"], "every deadlock-free locking program (untimed and timed waiters mixed) on any number of threads, under every schedule and passage of time",
 "needs a waiter whose deadline expires between being chosen for hand-off and being resumed, or a wake-up racing with going to sleep; tests never combine timed and untimed waiters",
 ["src/waker.cpp", "src/timed_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/mutex.cpp", "src/recursive_mutex.cpp", "src/context.cpp", "src/scheduler.cpp"],
 [("wait queue hand-off; a stale waker is skipped and the next waiter is woken", "src/waker.cpp notify_one"), ("a timed waiter that was popped does not report a timeout", "src/waker.cpp suspend_and_wait_until")],
 [("wait_queue_", "fibers waiting for the mutex", "mutex classes")], ["completion of every lock() call"])
prop("C03", "Timed waits give up neither early nor late and report what happened",
 "A timed lock, condition wait, future wait or channel operation never reports a timeout before its deadline, for durations and for time points of any clock, and when nothing wakes it reports it as soon as the deadline is reached and the processor is free. It reports success only if the awaited event took place, and an already expired deadline behaves like a single non-blocking attempt.",
 ["schedules", "inputs", "programs"], "every timed operation of every primitive with every deadline (past, zero, present, future, unreachable), clock type and duration type, racing with every possible wake-up",
 "tests wait for one real duration and accept a wide tolerance; they cannot place a wake-up at, before or after a deadline exactly, nor on several threads",
 [H+"detail/convert.hpp", "src/scheduler.cpp", "src/waker.cpp", "src/algo/round_robin.cpp", H+"condition_variable.hpp", H+"future/detail/shared_state.hpp", H+"buffered_channel.hpp", H+"unbuffered_channel.hpp", "src/timed_mutex.cpp", "src/recursive_timed_mutex.cpp"],
 [("sleep queue ordered by deadline, expired entries moved to ready", "src/scheduler.cpp sleep2ready_"), ("clock conversion", H+"detail/convert.hpp"), ("idle thread sleeps until the earliest deadline", "src/scheduler.cpp dispatch, algo suspend_until")],
 [("tp_", "deadline of a sleeping fiber", "context")], ["virtual clock at call and return, returned status"])
prop("C04", "Condition variables: no lost notification, atomic release, lock re-acquired",
 "A fiber that releases its lock by waiting is woken by every notify_all and is a candidate for every notify_one issued after that release, so that as many waiters resume as were notified and none sleeps although a notification was due to it. Waiting returns with the lock held again, a predicate wait returns true only when the predicate holds, and a timed wait reports timeout only once its deadline has passed. This holds for both kinds of condition variable, any lock type they accept, and notifiers on any thread with or without the lock.",
 ["schedules", "programs"], "every set of waiting (plain, predicate, timed) and notifying (one, all) fibers on any threads and every interleaving, including notifications racing with release, timeout and wake-up",
 "the window between releasing the lock and going to sleep, or between timeout and notification, is never hit by the tests' fixed order",
 [H+"condition_variable.hpp", "src/condition_variable.cpp", "src/waker.cpp", "src/context.cpp"],
 [("wait queue lock is taken before the user lock is released and handed over on suspend", H+"condition_variable.hpp wait"), ("epoch-checked wakers", "src/context.cpp wake")],
 [("wait_queue_", "waiting fibers", "condition_variable_any")], ["return of wait*, ownership of the lock, count of woken fibers"])
prop("C05", "Barrier: cycles release exactly n fibers together, one leader each",
 "No fiber returns from a wait of a barrier for n before n fibers have arrived in that cycle; then all n return, exactly one of them with true, and the barrier is immediately reusable for the next cycle. A barrier for zero fibers is refused with invalid_argument.",
 ["schedules", "programs", "configurations"], "every n, number of cycles, distribution of the fibers over threads, and interleaving, including fast fibers that re-enter before slow ones left",
 "tests run one or two cycles on one thread; mixing of cycles needs re-entry while earlier waiters have not resumed",
 [H+"barrier.hpp", "src/barrier.cpp"], [("cycle counter tested by the wait predicate", "src/barrier.cpp wait")],
 [("current_", "arrivals missing in this cycle", "barrier"), ("cycle_", "generation", "barrier")], ["arrival and return of wait(), its result"])
prop("C06", "Buffered channel: every accepted value is delivered exactly once, in order",
 "Each value whose push reported success is received by exactly one pop and no other value is ever received; values of one producer reach any one consumer in push order, and values pushed one after the other are taken in that order. A channel never holds more values than its capacity, try_push reports full and try_pop reports empty only when that was true at some moment of the call, and a capacity that is not a power of two of at least two is refused with invalid_argument.",
 ["schedules", "histories", "inputs"], "every history of push, try_push, timed push, pop, try_pop, timed pop, value_pop, iteration and close by any number of producers and consumers on any threads, for every capacity, compared with a bounded FIFO queue",
 "tests use one producer and one consumer in lock step; wrap-around, concurrent producers and consumers and full/empty boundaries interleave in unbounded ways",
 [H+"buffered_channel.hpp"], [("ring indices updated under the channel's spinlock", H+"buffered_channel.hpp try_push_/try_pop")],
 [("slots_, pidx_, cidx_", "ring buffer and its producer/consumer positions", "buffered_channel")], ["status and values returned by the operations"])
prop("C07", "Buffered channel: blocked fibers resume, close reaches everyone",
 "A producer blocked on a full channel continues once a value is taken, and a consumer blocked on an empty one once a value is pushed; closing wakes every blocked fiber. After close every push reports closed and is not delivered, values accepted before remain receivable in order, and pop reports closed only when none is left; failed operations leave the channel unchanged.",
 ["schedules", "histories"], "every history of blocking, timed and non-blocking operations with close at any point, on any threads and schedules, including waiters whose deadline expires while they are being woken",
 "lost wake-ups and close racing with blocked fibers depend on interleavings that the fixed, mostly single-threaded tests do not produce",
 [H+"buffered_channel.hpp", "src/waker.cpp"], [("waiting_producers_/waiting_consumers_ notified on every pop/push and on close", H+"buffered_channel.hpp")],
 [("closed_", "channel is closed", "buffered_channel"), ("waiting_producers_, waiting_consumers_", "blocked fibers", "buffered_channel")], ["completion and status of every operation"])
prop("C08", "Unbuffered channel: push and pop agree on every hand-over",
 "A push reports success exactly if its value has been received by exactly one pop; a push that reports closed or timeout was not received by anybody, and its value is not handed out later. Values of one producer are received in push order.",
 ["schedules", "histories"], "every set of producers and consumers with blocking and timed operations on any threads, with close and timeouts at any point, compared with a rendezvous model",
 "disagreement needs a timeout or close that falls between the consumer taking the value and the producer resuming; the tests have no such window",
 [H+"unbuffered_channel.hpp"], [("single slot pointer exchanged atomically, consumer wakes the producer it served", H+"unbuffered_channel.hpp try_push_/try_pop_")],
 [("slot_", "value offered by a blocked producer", "unbuffered_channel")], ["status of push*, values of pop*"])
prop("C09", "Unbuffered channel: nobody is stranded, also by close and timeouts",
 "Whenever a producer and a consumer of an open unbuffered channel are both blocked, one hand-over completes; a timed producer or consumer that gives up never strands the others. Closing releases every blocked producer and consumer with closed, later operations report closed, and nothing touches a producer's value after its push has returned.",
 ["schedules", "histories"], "every mixture of blocking and timed producers and consumers on any threads, with close at any point and deadlines expiring at any moment",
 "stranding needs several producers of which one gives up, or a closing that overlaps a hand-over; not covered by one-to-one tests",
 [H+"unbuffered_channel.hpp", "src/waker.cpp"], [("waiting_producers_/waiting_consumers_ queues", H+"unbuffered_channel.hpp")],
 [("slot_", "value offered by a blocked producer", "unbuffered_channel"), ("waiting_producers_, waiting_consumers_", "blocked fibers", "unbuffered_channel")], ["completion and status of every operation, memory accesses"])
prop("C10", "Futures: one result, set once, seen by every waiter",
 "A shared state receives at most one value or exception: the first setter wins and every later one reports promise_already_satisfied, and a promise destroyed or replaced while a future refers to it makes the result broken_promise. get, wait and every shared copy deliver exactly that value, reference or exception, wake all waiters on every thread, and never return before it was stored. A future is consumed by get or share (get_exception_ptr leaves it valid), and misuse reports future_already_retrieved, no_state or future_uninitialized as documented.",
 ["schedules", "programs", "histories"], "every program over promises and futures (value, reference, void; moves, swaps, shared copies, set_value, set_exception, destruction) with setters and waiters on any fibers and threads",
 "the tests check each call in isolation on one thread; races between setter, waiters and destruction and long histories are not reachable",
 [H+"future/promise.hpp", H+"future/future.hpp", H+"future/detail/shared_state.hpp", H+"future/detail/shared_state_object.hpp", "src/future.cpp"],
 [("ready flag and waiters under the state's mutex", H+"future/detail/shared_state.hpp"), ("owner_destroyed stores broken_promise", H+"future/detail/shared_state.hpp")],
 [("ready_", "result stored", "shared_state_base")], ["results, exceptions and error codes"])
prop("C11", "packaged_task and async carry the callable's outcome to the future",
 "Invoking a packaged task calls its target exactly once with the given arguments and delivers its result or exception to the future; a second invocation, a task without state, an abandoned task and a reset task behave as documented, reset giving a fresh state while the old one, if unsatisfied, becomes a broken promise. async runs its function exactly once in a new fiber with the requested launch policy, stack allocator and arguments and delivers the outcome, and destroying or ignoring the future neither blocks nor loses the call.",
 ["programs", "schedules", "inputs"], "every sequence of invoke, get_future, reset, move, swap and destruction, and async under every launch policy, with results and exceptions of any type and waiters on any thread",
 "tests call each function once in a fixed order; reset and abandonment with waiting fibers are never combined",
 [H+"future/packaged_task.hpp", H+"future/async.hpp", H+"future/detail/task_object.hpp", H+"future/detail/task_base.hpp"],
 [("task object stores result or exception in its shared state", H+"future/detail/task_object.hpp run"), ("owner_destroyed on abandonment", H+"future/packaged_task.hpp")], [], ["calls of the target, results and error codes"])
prop("C12", "Every launched fiber runs exactly once, join waits for it, misuse is reported",
 "Each constructed fiber executes its function exactly once with its own copies of the arguments, whether joined, detached or still running when its thread ends; join returns only after the function has returned, on any thread. A fiber handle is joinable exactly from construction until join, detach or being moved from; joining a non-joinable fiber or oneself reports the documented error, ids of live fibers are distinct, stay the same while the fiber lives, and compare consistently.",
 ["programs", "schedules", "histories"], "every tree of fibers spawned, moved, swapped, joined (from the same or another thread) and detached, with every launch policy and scheduling algorithm, including threads that end with detached fibers outstanding",
 "tests spawn a handful of fibers; races of join with termination and shutdown with outstanding fibers need particular schedules",
 [H+"fiber.hpp", "src/fiber.cpp", "src/context.cpp", "src/scheduler.cpp", H+"context.hpp"],
 [("terminated flag and wait queue under the fiber's spinlock", "src/context.cpp join/terminate"), ("scheduler shutdown drains worker queue", "src/scheduler.cpp dispatch")],
 [("terminated_", "function has returned", "context")], ["calls of the function, return of join, thread end"])
prop("C13", "Launch policies and the default scheduler give the documented order",
 "With the default round-robin scheduler the ready fibers of a thread run in the order in which they became ready, a yielding fiber goes behind all ready ones, and every ready fiber runs before any runs twice. A fiber launched with dispatch runs immediately and its creator continues later in the queue; one launched with post runs only when its creator gives way.",
 ["programs", "schedules"], "every program of fiber creation, yield, join and event operations on one thread, compared with an executable model of the scheduling order, and every order in which other threads make its blocked fibers ready",
 "tests check two or three orders; the order is a function of the whole history of creations, yields and wake-ups",
 ["src/algo/round_robin.cpp", "src/fiber.cpp", "src/context.cpp", "src/scheduler.cpp", H+"policy.hpp"],
 [("FIFO ready queue", "src/algo/round_robin.cpp"), ("start_ resumes (dispatch) or schedules (post)", "src/fiber.cpp")], [], ["order in which fibers execute"])
prop("C14", "Sleeping fibers wake at their deadline, in deadline order, never early",
 "sleep_for and sleep_until never return before their deadline, and when the processor is free return exactly then; fibers of a thread sleeping towards different deadlines resume in deadline order, and no number of sleepers, cancelled sleeps or wake-ups from elsewhere loses or delays one. A deadline that has passed returns promptly, and other ready fibers keep running meanwhile.",
 ["programs", "schedules", "inputs"], "every set of sleeping fibers with any deadlines (equal, past, far), mixed with timed waits that are woken early and with activity on the same and other threads",
 "real-time tests cannot check exact wake times and use few sleepers",
 [H+"operations.hpp", "src/scheduler.cpp", "src/context.cpp", "src/algo/round_robin.cpp"],
 [("ordered sleep queue", "src/scheduler.cpp wait_until/sleep2ready_"), ("thread sleeps until the earliest deadline", "src/scheduler.cpp dispatch")],
 [("sleep_queue_", "fibers with deadlines", "scheduler")], ["virtual clock at return, order of resumption"])
prop("C15", "Fiber-specific storage is private to its fiber and cleaned up exactly once",
 "Each fiber sees only the value it stored itself in a fiber-specific pointer (null at first), across suspensions, other fibers and migration to another thread. reset and fiber termination run the cleanup of every non-null stored value exactly once, in the fiber that owned it and before that fiber can be joined; release hands the value back without cleanup, and no cleanup is ever called with a null pointer.",
 ["programs", "schedules"], "every program of get, reset, release over several fiber-specific pointers (default, custom and no cleanup) by fibers on any thread, with destruction of pointer objects and fibers in any order",
 "tests use one pointer and few fibers; order of cleanup relative to joiners on other threads and migration need schedules",
 [H+"fss.hpp", H+"detail/fss.hpp", "src/context.cpp"], [("per-context map from key to value and cleanup", "src/context.cpp get_fss_data/set_fss_data"), ("cleanup in terminate", "src/context.cpp terminate")],
 [("fss_data_", "values of this fiber", "context")], ["returned pointers, cleanup calls"])
prop("C16", "Sharing schedulers never lose, duplicate or wrongly move a fiber",
 "Under work sharing and work stealing, on any number of participating threads, every ready fiber is eventually run, by exactly one thread at a time, and resumes with its own state where it left off. Main fibers are never run by another thread, and every synchronisation guarantee holds for fibers that migrate.",
 ["schedules", "programs", "configurations"], "every program of spawning, yielding, sleeping and synchronising fibers on 1..n threads with work sharing or stealing (suspending or polling) and every interleaving of push, pop and steal",
 "double execution or loss needs a steal to overlap a pop or a resize of the ready queue; real threads in the tests rarely collide",
 ["src/algo/shared_work.cpp", "src/algo/work_stealing.cpp", H+"algo/shared_work.hpp", H+"algo/work_stealing.hpp", H+"detail/context_spinlock_queue.hpp", "src/context.cpp"],
 [("shared ready queue under a mutex", "src/algo/shared_work.cpp"), ("spinlock-protected ring with steal", H+"detail/context_spinlock_queue.hpp"), ("attach/detach on migration", "src/algo/*.cpp awakened/pick_next")], [], ["executions of each fiber, executing thread"])
prop("C17", "The scheduling-algorithm interface is honoured, including fiber properties",
 "A user-supplied algorithm is told exactly once about each time a fiber becomes ready and never about a running, blocked or already ready one, so that any choice among the announced fibers is safe; it is asked to sleep only when nothing is ready, with a deadline no later than the next sleeping fiber's, and is notified when another thread makes a fiber ready. Property objects are created once per fiber, stay attached to it, are announced to the algorithm exactly when changed, and are destroyed with it; replacing the algorithm loses no ready fiber.",
 ["programs", "schedules", "configurations"], "every user-defined choice strategy over every program, with property changes at any time by the fiber itself or by others",
 "the tests contain no adversarial algorithm; only particular choices expose a fiber that is announced too early or twice",
 [H+"algo/algorithm.hpp", "src/algo/algorithm.cpp", H+"properties.hpp", "src/properties.cpp", "src/scheduler.cpp", H+"operations.hpp"],
 [("awakened/pick_next/suspend_until/notify calls", "src/scheduler.cpp"), ("property_change forwarded", "src/properties.cpp notify")], [], ["calls made to the algorithm object"])
prop("C18", "A wake-up from another thread always reaches the sleeping thread, and only it",
 "When a fiber is made ready by another thread while its own thread is idle, about to go idle, sleeping towards a deadline or ending, the fiber's thread resumes it without any further event. A thread may end as soon as its own fibers have ended, even while the thread that woke the last of them is still inside the waking call; nothing is accessed after it was destroyed.",
 ["schedules", "programs"], "every interleaving of wake-ups (mutex, condition variable, channel, future, join, barrier) from other threads with the target thread's decision to sleep, its timers and its end",
 "the window is a few instructions wide and hidden by real timing; tests wait long enough",
 ["src/scheduler.cpp", "src/context.cpp", "src/algo/round_robin.cpp", "src/waker.cpp", H+"detail/spinlock_ttas_adaptive.hpp"],
 [("remote ready queue then notify", "src/scheduler.cpp schedule_from_remote"), ("flag under mutex checked before sleeping", "src/algo/round_robin.cpp suspend_until/notify")],
 [("remote_ready_queue_", "fibers made ready by other threads", "scheduler")], ["completion, memory accesses after thread end"])
prop("C19", "Fibers use the stack they were given; every resource is returned once",
 "A fiber's function runs on a stack obtained from the allocator it was launched with, of at least the requested size, usable over its whole length; that stack and all other resources of the fiber (captured arguments, properties, fiber-specific values, shared states) are released exactly once after it has ended and its last handle is gone, through the same allocator, and never while it may still run. The same holds for a thread's own dispatcher stack, and a pooled allocator may be shared by all fibers of a thread.",
 ["programs", "schedules", "configurations"], "every fiber program with fixed-size, pooled, protected and user-written stack allocators, joined, detached, moved, or outstanding at thread end",
 "tests never account for allocations; leaks and early release depend on the order of termination, last handle release and thread end",
 [H+"fixedsize_stack.hpp", H+"pooled_fixedsize_stack.hpp", H+"protected_fixedsize_stack.hpp", H+"stack_allocator_wrapper.hpp", H+"context.hpp", H+"fiber.hpp", "src/context.cpp", "src/scheduler.cpp"],
 [("reference counted context released by dispatcher and handle", H+"context.hpp intrusive_ptr_release"), ("initialize_thread with a stack allocator", "src/context.cpp")], [], ["allocator calls, heap balance, address of locals"])
prop("C20", "Channels construct and destroy every value exactly once, also while iterating",
 "Every copy or move of a user value that a channel makes is destroyed exactly once and never used afterwards, whichever way the value leaves the channel: received, iterated over, abandoned in an iterator, left in a channel that is destroyed, or rejected. Range iteration visits exactly the values that repeated pops would have delivered and ends when the channel is closed and drained.",
 ["programs", "histories", "inputs"], "every history of pushes, pops, iterator copies, increments, early breaks, close and destruction, for copyable and move-only values",
 "tests iterate over integers, for which double destruction and leaks are invisible",
 [H+"buffered_channel.hpp", H+"unbuffered_channel.hpp"], [("iterator keeps the current value in aligned storage", H+"buffered_channel.hpp iterator, unbuffered_channel.hpp iterator")], [], ["constructor/destructor calls of the values"])
prop("C21", "The NUMA topology describes exactly what the system reports",
 "For every layout of nodes, logical processors, offline processors and distances that the operating system can report, the topology query returns one entry per node that has online processors, with exactly those processors and its distances, and on a system without NUMA information one node with all online processors. Pinning a thread requests exactly the given processor and reports failure.",
 ["inputs", "configurations", "fault_sequences"], "every content of the system's description files (cpu lists with ranges, gaps, many nodes, missing or malformed entries) compared with an independent model",
 "tests never call it; the one machine they could run on has one layout",
 [H+"numa/topology.hpp", "src/numa/linux/topology.cpp", "src/numa/linux/pin_thread.cpp", "src/numa/algo/work_stealing.cpp"],
 [("parsing of the system's node and cpu lists", "src/numa/linux/topology.cpp")], [], ["returned topology, affinity request"])
prop("C22", "Every documented build configuration gives the same guarantees",
 "Mutual exclusion of internal locks, delivery of wake-ups and integrity of ready queues hold for each selectable internal lock (test-and-test-and-set, adaptive, futex based, plain mutex), for the lock-free ready queue, and with retry limits of any value, exactly as for the default. Ready queues keep all fibers when they grow beyond their initial size. A build with the library's assertions aborts no valid program.",
 ["configurations", "schedules", "programs"], "every lock/queue configuration macro documented for the library, over generated programs of fibers on several threads and every interleaving",
 "only the default configuration is built by the tests",
 [H+"detail/spinlock_ttas.hpp", H+"detail/spinlock_ttas_adaptive.hpp", H+"detail/spinlock_ttas_futex.hpp", H+"detail/spinlock_ttas_adaptive_futex.hpp", H+"detail/context_spmc_queue.hpp", H+"detail/context_spinlock_queue.hpp", H+"detail/spinlock.hpp", H+"detail/futex.hpp", H+"detail/thread_barrier.hpp"],
 [("lock algorithms", H+"detail/spinlock_*.hpp"), ("Chase-Lev style queue", H+"detail/context_spmc_queue.hpp")], [], ["mutual exclusion, completion of programs"])
prop("C23", "Failed operations leave no damage: throwing values and exhausted memory",
 "If copying, moving or storing a user value, evaluating a user predicate or calling a user function throws, or memory for a stack or shared state cannot be obtained, the operation reports that exception (or delivers it to the future) and the channel, future, lock or scheduler stays usable with all other values intact: a value whose push failed is not delivered, one that could not be assigned out of a buffered channel stays in it, and no waiting fiber is left behind. Nothing is leaked and no other fiber is affected.",
 ["fault_sequences", "programs"], "every point at which a user value's copy or move, a user callable or an allocation fails, in every operation that may reach it",
 "tests never make an allocation or a copy fail",
 [H+"buffered_channel.hpp", H+"unbuffered_channel.hpp", H+"future/detail/shared_state.hpp", H+"future/detail/task_object.hpp", H+"fiber.hpp", H+"context.hpp", H+"condition_variable.hpp"],
 [("state changes follow the operations that may throw", "channels, shared states"), ("catch and store exceptions", H+"future/detail/task_object.hpp run")], [], ["exceptions, later operations, heap balance"])
prop("C24", "Idle threads sleep as configured and take over work they are configured for",
 "A thread whose fibers are all sleeping or waiting does not use the processor under round_robin and under the sharing algorithms configured to suspend, also after its main fiber has ended, and is awake again as soon as a fiber of its own is made ready or its next deadline is reached, at no later time. Under shared_work, work_stealing and the NUMA-aware work_stealing configured not to suspend, an idle thread runs the fibers that are ready on a thread occupied by a fiber that does not yield, also on another NUMA node: no ready unpinned fiber waits for a busy thread while another thread is idle.",
 ["schedules", "programs", "configurations"], "every program of fibers waking one another across threads, every layout of threads over NUMA nodes and every interleaving with the threads' decisions to sleep or to look for work",
 "a lost notification, a missed deadline, a spinning thread or a never visited peer only costs time in the tests, or hides in a window of a few instructions",
 ["src/scheduler.cpp", "src/algo/round_robin.cpp", "src/algo/shared_work.cpp", "src/algo/work_stealing.cpp", "src/numa/algo/work_stealing.cpp"],
 [("flag under mutex, wait / wait_until", "suspend_until/notify of the algorithms"), ("victims drawn from all schedulers / local then remote processors", "pick_next of work_stealing, numa work_stealing"), ("deadline of the first sleeping fiber", "src/scheduler.cpp dispatch")], [("flag_", "a notification is pending", "algorithms")], ["steps of an idle thread, time of wake-up, thread a fiber runs on"])
prop("C25", "Synchronisation orders memory: no data races, what was written is visible",
 "The library has no data race in the sense of the C++ memory model in any permitted use from several threads, under every internal lock and queue implementation. What a fiber or thread wrote before it unlocked a mutex, notified under a lock, completed a promise or task, pushed a value into or closed a channel, arrived at a barrier, launched or ended a fiber, or was moved to another thread by a sharing scheduler, is visible to the fiber that subsequently locks the mutex, returns from the wait, obtains the result or the value, finds the channel closed, leaves the barrier, starts, returns from join, or continues on that thread.",
 ["schedules", "programs", "configurations"], "every interleaving of every program and every memory order the C++ standard permits, on every processor",
 "on x86 nearly every missing acquire or release is invisible, the tests never run on a weaker machine or under a race detector, and a race needs the one interleaving to do damage",
 [H+"detail/spinlock_*.hpp", H+"detail/context_spmc_queue.hpp", H+"context.hpp", H+"unbuffered_channel.hpp", H+"future/detail/shared_state.hpp", "src/context.cpp", "src/mutex.cpp"],
 [("acquire on lock, release on unlock", H+"detail/spinlock_*.hpp"), ("release on the last-but-one, acquire fence on the last reference", "intrusive reference counts"), ("acq_rel exchange of the slot", H+"unbuffered_channel.hpp"), ("epoch exchange", "src/context.cpp wake")], [("owner_, queues, state", "only under the object's spinlock", "all primitives")], ["values read after a hand-over", "pairs of conflicting accesses and whether they are ordered"])
prop("C26", "Waiting for device streams: exact results, only the waiting fiber suspends",
 "cuda::waitfor_all() and hip::waitfor_all() suspend only the calling fiber and return once every given stream has finished, with the status of each stream exactly once - also if the callback runs at once, on another thread, before the call has added the callbacks of the other streams, or cannot be added, in which case that error is the stream's result. After the return no callback touches anything of the wait, and what the callback's thread wrote before is visible.",
 ["schedules", "programs"], "every set of streams, every order, thread and moment of completion and every refusal by the device runtime",
 "there are no tests for it: they would need a device",
 [H+"cuda/waitfor.hpp", H+"hip/waitfor.hpp"],
 [("rendezvous on the waiting fiber's stack, reached by the callbacks", "single_stream_rendezvous, many_streams_rendezvous"), ("notify under the lock", "notify()")], [("stx_", "exactly the streams still outstanding", "many_streams_rendezvous")], ["returned results", "accesses to the rendezvous after the return", "progress of sibling fibers"])
prop("C27", "Objects may be destroyed at the earliest moment the documentation allows",
 "A mutex of any kind may be destroyed by the fiber that owned it last as soon as its unlock() returned, a condition variable as soon as every waiting fiber has been notified although the waits, timed ones whose deadline has passed included, have not returned, or by the last woken waiter if it was notified under the lock; a promise, packaged_task, future, channel or barrier reference may be dropped as soon as the own last call on it returned. No call of another fiber or thread touches the object afterwards, and every such call still completes with its proper result.",
 ["schedules", "programs"], "every interleaving of the destruction with the tails of the calls other fibers and threads are still in",
 "a use after free in the tail of a call needs one interleaving, and usually goes unnoticed even then",
 [H+"condition_variable.hpp", "src/condition_variable.cpp", "src/waker.cpp", "src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/barrier.cpp", H+"future/detail/shared_state.hpp", H+"future/promise.hpp"],
 [("releasing the spinlock is the last access", "unlock(), notify_one(), notify_all()"), ("reference count", "shared states"), ("timed waits counted", "condition_variable_any")], [("wait_queue_", "empty at destruction", "all primitives")], ["accesses to destroyed objects", "results of the calls in flight"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
