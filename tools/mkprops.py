#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

CTX = ["src/libcopp/coroutine/coroutine_context.cpp", "include/libcopp/coroutine/coroutine_context.h",
       "include/libcopp/coroutine/coroutine_context_base.h", "include/libcopp/coroutine/coroutine_context_container.h"]
prop("C01", "Stackful coroutine life cycle and result codes",
  "A stackful coroutine runs its function exactly once from start to end, in the pieces its yields cut it into, and only while exactly one resumer drives it. Every start, resume, yield or runner assignment made in a state that does not allow it (no runner, never started, already running, suspended, finished, empty runner, runner already set) returns its documented error code, runs nothing and changes nothing. Once the function has returned or thrown, the coroutine reports itself finished with the function's return code for ever and can never run again. All of this also holds when several threads start, resume, query or initialise the same coroutine at once, and when a coroutine is resumed on another thread than the one it was suspended on. The user flags of a coroutine change only as asked; reserved ones are refused.",
  ["histories", "programs"], "Every interleaving of create/set-runner/start/resume/yield/return/throw over several coroutines, issued from the main stack and from inside any running coroutine, on one or several threads.",
  "The tests drive a handful of fixed start/yield/resume sequences on one or two coroutines; the rejection codes are only sampled and never in combination with nesting.",
  CTX, [("status compare-and-swap in start/yield", "src/libcopp/coroutine/coroutine_context.cpp coroutine_context::start, ::yield"),
        ("finished flag and entry trampoline", "src/libcopp/coroutine/coroutine_context.cpp libcopp_internal_api_set::coroutine_context_callback")],
  ["return codes of start/resume/yield/set_runner", "is_finished, get_ret_code"])
prop("C02", "Values and exceptions cross a context switch unchanged and exactly once",
  "The pointer given to the call that first runs a coroutine is what its function receives, and the pointer given to each later resume is what the matching suspended yield hands back (null included), no matter which other switches happen in between and which thread resumes; a refused yield delivers nothing. An exception that leaves the coroutine function reaches exactly the call that was driving that coroutine at that moment, once, and no other call. Local data on the coroutine stack and the private buffer survive any number of switches.",
  ["histories", "programs"], "All switch sequences over several nested coroutines, both ways of receiving the exception, all private buffer sizes tried.",
  "The private-data test makes one hand-over per direction on one coroutine; exceptions are tested with a single, non-nested coroutine.",
  CTX, [("data slot of the jump record", "src/libcopp/coroutine/coroutine_context.cpp jump_to, yield, start"), ("exception hand-over", "coroutine_context::start(std::exception_ptr&, void*), maybe_rethrow")],
  ["argument of the runner", "output argument of yield", "exception seen by start/resume"])
prop("C03", "Control returns to the latest resumer; the current coroutine is always right",
  "When a coroutine yields, returns or throws, execution continues in whoever most recently started or resumed it, whether that is the main stack or another coroutine, and nowhere else. At every point the library's notion of the current coroutine is the one whose code is executing, or none on a plain thread stack. A yield on the current coroutine suspends that one and no other; without a current coroutine it is refused.",
  ["histories", "programs"], "All nestings up to the modelled number of coroutines, including a coroutine that is started by one caller and later resumed by another.",
  "Tests nest two coroutines in one fixed order; a wrong caller link or stale current-coroutine pointer shows only after a coroutine is resumed by a different caller than before.",
  CTX, [("caller/callee links", "src/libcopp/coroutine/coroutine_context.cpp jump_to, set_caller, set_callee"), ("thread local current coroutine", "set_this_coroutine_context")],
  ["this_coroutine::get_coroutine", "order in which bodies and callers execute"])
prop("C04", "A coroutine and its stack are released exactly once, at the last reference",
  "A coroutine container, its function object and its stack live exactly as long as some reference to the container exists: they are released once, together, when the last reference goes and never while a reference remains, also when threads drop their references at the same time. The stack goes back to the allocator it came from, with the same address and size, exactly once. A creation that fails leaves nothing allocated.",
  ["histories", "configurations"], "All histories of creation (valid and rejected sizes), reference copies and drops, in every coroutine state.",
  "Tests compare use_count in two places and never account for stacks or failed creations.",
  CTX + ["include/libcopp/utils/intrusive_ptr.h"], [("intrusive_ptr_release", "include/libcopp/coroutine/coroutine_context_container.h"), ("create failure path", "coroutine_context_container::create")],
  ["allocate/deallocate calls on the stack allocator", "destructor of the function object", "use_count"])

TASK = ["include/libcotask/task.h", "include/libcotask/impl/task_impl.h", "src/libcotask/task_impl.cpp", "src/libcotask/this_task.cpp"]
prop("C05", "What a coroutine or task holds fits on its stack, or nothing is made",
  "Creating a coroutine or a task with a given stack size, private buffer size and room before the object gives an object whose parts - private buffer at least as large as asked for, object, function, saved context and working stack - lie inside the stack it got, disjoint from each other and from everything else, or it fails and leaves nothing behind. What cannot fit is refused, whatever the sizes (0, unaligned, near the largest number, more than the allocator gave), and what fits comfortably is made. A context made directly on the caller's memory is refused with the documented error when its address or sizes are wrong. A task chained with then() gets the same allocator, stack and private buffer size as its predecessor. The private buffer keeps its content for the life of the object.",
  ["inputs", "configurations"], "All combinations of stack size, private buffer size, room before the object, size of the function object and what the allocator really gave.",
  "Tests use one or two comfortable sizes; which combinations wrap around or run over the stack is decided by values no test uses.",
  CTX + ["include/libcotask/task.h"], [("layout of the stack", "include/libcopp/coroutine/coroutine_context_container.h create; src/libcopp/coroutine/coroutine_context.cpp coroutine_context::create"),
        ("layout of a task", "include/libcotask/task.h create_with_delegate, then, get_private_buffer")],
  ["result of create", "get_private_buffer and its size", "memory around the stack"])

prop("T01", "Task life cycle: legal status changes and result codes only",
  "A task's status moves only from created to running, between running and waiting, and from any unfinished state to exactly one final state. Start and resume run the body exactly when the task is unfinished and not running; in every other state, and for cancel, kill and yield issued where they are not allowed, the documented error code is returned and nothing runs or changes. The status predicates always agree with the status.",
  ["histories", "programs"], "All sequences of start/resume/yield/cancel/kill/return over several tasks, issued from outside, from inside task bodies and from completion callbacks.",
  "The tests exercise each call once or twice in fixed order; combinations such as kill during running followed by another call are not reached.",
  TASK, [("status compare-and-swap loops", "include/libcotask/task.h start, resume, cancel, kill")], ["get_status and predicates", "return codes"])
prop("T02", "A task finishes exactly once and its final status is permanent",
  "For every task that ever leaves the running state for good, the completion callback and the task action's own finish handler run exactly once, after the body has ended and with the final status already visible. After that no call changes the status or return code, runs the body, or fires the callback again. The status a task finishes with is the one requested by the first cancel, kill or timeout, or done if its body ended first.",
  ["histories", "schedules"], "All histories that mix normal completion with cancel/kill before, during and after it, including from inside the body and the completion callback itself.",
  "on_finished is checked once on plain completion; double completion needs a second cancel/kill after or during the first.",
  TASK, [("completion notification", "include/libcotask/task.h _notify_finished, kill, cancel")], ["on_finished calls", "get_status", "get_ret_code"])
prop("T03", "Every follower of a task is activated exactly once, in order, after it ends",
  "Tasks chained behind a task are activated (started if not begun, otherwise resumed) exactly once each, in the order they were chained, only after the predecessor has finished, whatever way it finished. Chaining behind a task that has already finished activates the follower at once. A follower that has already finished is not run again.",
  ["histories", "programs"], "All chain shapes over the modelled tasks, all ways for the predecessor to end, chaining before, during and after its end.",
  "Tests build one or two linear chains and end the head normally.",
  TASK, [("next list swap and activation", "include/libcotask/task.h active_next_tasks, next"), ("", "src/libcotask/task_impl.cpp")], ["order of body entries and resumptions"])
prop("T04", "Awaiting a task blocks until it has ended and then always continues",
  "A task that awaits another does not continue past the await until the awaited task has ended, even if it is resumed early, and it does continue once the awaited task ends in any way. Awaiting nothing, itself, an already ended task, from outside the awaiting task, or from a task that is being ended returns the documented code without blocking. A task ended while it awaits leaves the await with an error instead of blocking. A C++20 coroutine that awaits a stackful task continues exactly once with the task's return code, or at once with the documented error when it is itself ended, and is not touched by the task afterwards.",
  ["histories", "programs"], "All await relations over the modelled tasks with early resumes, kills of either side, and several waiters per task.",
  "The await test uses one waiter and one target, ended normally.",
  TASK, [("await loop", "include/libcotask/task.h await_task")], ["return value of await_task", "order of continuation"])
prop("T05", "A cancelled, killed or abandoned task's body is driven to its end",
  "When a suspended task is cancelled, killed, timed out, or loses its last reference, its body is resumed until it has run to its end, so that everything living on its stack is destroyed; every yield inside it returns at once meanwhile. A running task cannot be cancelled; when killed while running it keeps running until it next suspends and is then driven to its end. The data given to a kill is what the interrupted yield receives.",
  ["histories", "programs"], "All kill/cancel/drop points over bodies with any number of remaining yields, including a kill from inside another task or callback.",
  "Tests kill tasks with one pending yield; leaked stack objects are not accounted for.",
  TASK, [("forced resume loop", "include/libcotask/task.h _notify_finished"), ("destructor", "include/libcotask/task.h ~task")], ["destruction of objects on the task stack", "yield output data"])
prop("T06", "Task, action and stack are reclaimed exactly once and never while in use",
  "A task object, its action and its stack are reclaimed exactly once, when nobody refers to the task any more, and never while its body is executing or another task is still chained to it as a follower. References held for followers and waiters are dropped once they were activated. Nothing is leaked after every handle is dropped.",
  ["histories", "programs"], "All histories of creation, reference passing, chaining, finishing and dropping handles in any order.",
  "Tests check use counts at a few fixed points.",
  TASK + ["include/libcotask/impl/task_action_impl.h", "include/libcotask/task_actions.h"], [("intrusive reference count", "include/libcotask/task.h intrusive_ptr_release"), ("placement destroy of the action", "include/libcotask/task_actions.h")], ["destructor counts", "stack allocator calls"])
prop("T07", "Concurrent start, resume, cancel and kill leave one coherent task history",
  "When several threads start, resume, cancel or kill the same task at the same time, the outcome is as if the calls had happened one after another: the body is never executed by two threads at once, each call returns the code that order implies, exactly one completion is reported and the final status is one that was requested. No call hangs or is lost.",
  ["schedules"], "All schedules up to a preemption bound at every shared-memory access of small concurrent programs, plus random schedules of larger ones.",
  "The tests drive tasks from a single thread (two stress tests use disjoint tasks).",
  TASK + ["include/libcopp/utils/atomic_int_type.h"], [("atomic status transitions", "include/libcotask/task.h"), ("container reference count", "include/libcopp/coroutine/coroutine_context_container.h")], ["call results", "body entries per thread"])
prop("T08", "No follower is lost or run twice when chaining races with completion",
  "If one thread chains followers behind a task while another thread drives it to its end, every follower is activated exactly once: either by the ending task or by the chaining call. Several threads may chain at the same time without losing one.",
  ["schedules"], "All schedules up to a preemption bound of one finishing thread and chaining threads, plus random schedules.",
  "No test chains tasks concurrently.",
  TASK, [("inner action lock around the next list", "include/libcotask/task.h next, active_next_tasks")], ["number of activations of each follower"])

MGR = ["include/libcotask/task_manager.h"]
prop("M01", "Task manager membership is exact",
  "A task is in a manager exactly from a successful add until it finishes, is removed or the manager is reset: lookups, sizes and pending-timer counts agree with that set at every moment, also as seen from inside task bodies and completion callbacks. A task that is ending, already a member under that identifier, owned by another manager, or absent is refused with the documented code and without any effect. Both kinds of manager (stackful tasks and C++20 tasks) obey this.",
  ["histories", "programs"], "All histories of add/remove/find/finish/kill/tick/reset over several tasks and two managers.",
  "Tests add a few tasks to one manager and end them in a fixed order.",
  MGR, [("container insert/erase and auto cleanup", "include/libcotask/task_manager.h add_task, remove_task, task_cleanup hooks")], ["find_task, get_task_size, get_tick_checkpoint_size"])
prop("M02", "Timeouts fire for exactly the overdue tasks, never early, never twice",
  "A tick ends, with the timeout status, exactly those member tasks whose deadline lies before the given time and no other; a task without a timeout never expires. Deadlines count from the last tick time (or the first tick if none yet), setting a new timeout replaces the old one, and a tick that does not advance time changes nothing. This holds for arbitrary second/nanosecond values.",
  ["inputs", "histories"], "All sequences of add/set-timeout/tick/finish with second and nanosecond parts chosen around carry boundaries.",
  "Tests use whole-second timeouts and a few ticks.",
  MGR, [("ordered timer set and tick loop", "include/libcotask/task_manager.h tick, set_timeout, add_task")], ["task status after tick", "get_last_tick_time", "get_tick_checkpoint_size"])
prop("M03", "Manager operations reach the right task; reset and destruction end every member",
  "Start, resume, cancel, kill and remove by identifier act on exactly the task with that identifier with the same result as acting on it directly, and report not-found otherwise. Resetting or destroying a manager ends every unfinished member as killed, forgets all members and timers, and leaves tasks usable and never touched again by the dead manager. A task that ends while the manager operates on it, from its own callback or another task, leaves the manager consistent.",
  ["histories", "programs"], "All histories over two managers with tasks ending inside manager operations and managers destroyed before their tasks.",
  "Tests reset a manager holding two idle tasks.",
  MGR, [("lookup then act outside the lock", "include/libcotask/task_manager.h start/resume/cancel/kill/remove_task"), ("reset", "include/libcotask/task_manager.h reset, ~task_manager")], ["task statuses", "manager sizes"])
prop("M04", "Concurrent use of one manager keeps membership exact and each task ended once",
  "Threads that add, remove, start, resume, kill, time out and finish tasks of one manager concurrently see results equivalent to some order of the calls. Every task is ended at most once and after all calls returned the manager holds exactly the tasks that were added and neither finished nor removed. Both kinds of manager (stackful tasks and C++20 tasks) obey this.",
  ["schedules"], "All schedules up to a preemption bound of small concurrent programs over one manager, plus random schedules.",
  "One stress test lets threads run disjoint tasks.",
  MGR, [("action lock", "include/libcotask/task_manager.h action_lock_")], ["call results", "sizes"])

STD = ["include/libcopp/coroutine/std_coroutine_common.h", "src/libcopp/coroutine/std_coroutine_common.cpp"]
prop("P01", "A callable future delivers its value once, after its body, to its awaiter",
  "A C++20 callable coroutine runs at its call until it first suspends; awaiting it continues immediately when it has finished and otherwise exactly once when it finishes, and yields the value it returned. An awaiter never continues before the awaited callable has finished or been ended. Readiness reports are true exactly when the callable has returned or been ended.",
  ["histories", "programs"], "All nestings of callables awaiting callables and generators over the modelled set, completed in any order.",
  "Tests compose two or three callables in fixed shapes.",
  STD + ["include/libcopp/coroutine/callable_promise.h"], [("caller registration and wake-up", "std_coroutine_common.cpp promise_caller_manager"), ("callable awaitable", "include/libcopp/coroutine/callable_promise.h")], ["order of continuation", "values", "is_ready"])
prop("P02", "Killing a callable ends what it waits for, and all that wait for it see it",
  "Ending a suspended callable ends, from the inside out, the operations it is waiting on, with the same status, and lets its awaiters continue with the error value for that status (or nothing for valueless ones). A finished callable cannot be ended again, and the first end status is the one that stays. A callable dropped before it finished runs to its end before its storage goes away.",
  ["histories", "programs"], "All kill/drop points in all modelled await chains, with every status, with and without forced resume.",
  "Tests kill two fixed chains.",
  STD + ["include/libcopp/coroutine/callable_promise.h"], [("status inheritance", "std_coroutine_common.h set_flag/kill"), ("error transform", "promise_error_transform")], ["values seen by awaiters", "order of destruction"])
prop("P03", "A generator hands its value to every waiter exactly once",
  "A waiter on a generator suspends exactly when no value is available, is reported to the generator's owner once per suspension and once per resumption, and continues exactly once when the value is set or the generator is ended. Every waiter sees the value that was set, or the error value of the end status; setting a value again replaces it for later waiters and does not continue earlier ones a second time; resetting it makes later waiters wait again. Owners that keep the generator's context after the generator is gone can still use it safely.",
  ["histories", "programs"], "All orders of await/set/kill/destroy over several waiters and generators.",
  "Tests resume one or two waiters in one order.",
  STD + ["include/libcopp/coroutine/generator_promise.h"], [("generator context", "include/libcopp/coroutine/generator_promise.h generator_context")], ["suspend/resume callbacks", "values at waiters"])
prop("P04", "C++20 task life cycle: lazy start, legal statuses, result codes",
  "A C++20 task runs nothing until started, then runs once; its status moves only created to running to exactly one final status, the first one reached. Start, kill and cancel return true only when they took effect, and the predicates, ready state and stored value agree with the status in every observer, including from inside the task and its awaiters.",
  ["histories", "programs"], "All sequences of start/kill/cancel/set-value/await/drop over several tasks.",
  "Tests exercise each transition once.",
  STD + ["include/libcotask/task_promise.h"], [("status compare-and-swap", "std_coroutine_common.h set_status"), ("task context", "include/libcotask/task_promise.h")], ["get_status, is_*", "return values"])
prop("P05", "Everyone waiting for a C++20 task continues exactly once with its result",
  "A coroutine awaiting a task (awaiting does not start it), and every continuation chained on it, continues exactly once, after the task has ended, and receives the task's value, or the error value of its end status. Awaiting an ended task continues immediately. Ending a waiting coroutine unregisters it: it is not continued again by the task it waited for.",
  ["histories", "programs"], "All wait graphs over the modelled tasks, with several waiters per task, ended in any order and way.",
  "Tests use one waiter per task or one fixed two-waiter shape.",
  STD + ["include/libcotask/task_promise.h"], [("caller sets", "std_coroutine_common.cpp promise_caller_manager"), ("then", "include/libcotask/task_promise.h")], ["order of continuation", "values"])
prop("P06", "Coroutine frames and their locals are destroyed exactly once",
  "Every C++20 coroutine frame (callable, task, chained continuation) and every object living in it is destroyed exactly once: after the frame finished or was ended and nobody can reach it any more, and never while it may still be continued or observed. Dropping the last reference of an unfinished task ends it as killed and reclaims everything; nothing stays behind when all references are gone.",
  ["histories", "programs"], "All drop orders of futures, generators and their contexts over all modelled await graphs.",
  "Tests count a few destructors on straight-line paths.",
  STD + ["include/libcotask/task_promise.h", "include/libcopp/coroutine/callable_promise.h", "include/libcopp/coroutine/generator_promise.h"], [("reference count of task context", "include/libcotask/task_promise.h"), ("future destructors", "include/libcopp/coroutine/callable_promise.h")], ["live object counts after every step"])
prop("P07", "some/any/all complete exactly when enough members are ready",
  "Waiting for some, any or all of a set of callables, generators or tasks continues exactly once, at the first moment the requested number (capped by the set size; one for any; all for all) of members is ready, not earlier and not later, and immediately if that already holds. The reported ready list contains exactly ready members without duplicates, in member order of readiness, and the result says done. Ending the waiting coroutine makes it leave with that end status.",
  ["inputs", "histories"], "All set sizes, counts, initially ready subsets and completion orders up to the bound, for all three kinds of future, with kills.",
  "Tests try a few counts with members completed in index order and none ready beforehand.",
  ["include/libcopp/coroutine/algorithm.h", "include/libcopp/coroutine/algorithm_common.h"] + STD, [("pending/ready bookkeeping", "include/libcopp/coroutine/algorithm_common.h some_delegate")], ["moment of continuation", "ready list", "returned status"])

prop("P08", "C++20 tasks shared by threads run once, end once and are freed once",
  "When several threads start or end the same C++20 task, or drop their references to it, the outcome is as if the calls had happened in some order, except that a start or an end may be refused while another one is in progress. The body is entered at most once and by one thread, the task reaches exactly one final status, and its frame is destroyed exactly once, when the last reference is gone.",
  ["schedules"], "All schedules up to a preemption bound of small concurrent programs over 1-2 shared tasks, plus random schedules.",
  "No test uses a C++20 task from more than one thread.",
  ["include/libcotask/task_promise.h"] + STD, [("start/kill try-lock and reference counter", "include/libcotask/task_promise.h internal_operation_lock_, future_counter_"), ("status CAS", "include/libcopp/coroutine/std_coroutine_common.h set_status")], ["call results", "body entries", "frame destruction"])

prop("P09", "Continuations run once, in order, with their parent's result and private data",
  "A continuation made with then() calls its functor exactly once, only after the task it hangs on is over, with that task's result and context, whatever either of them returns: nothing, a value, a callable or another task, which is then itself run and waited for before the continuation is over with its result. It starts without being asked to, holds the task it hangs on alive, and frees functor and inner coroutine. This holds too when tasks are killed: what hangs on a killed task is still called, with the error value, and a continuation that is itself killed goes on with the error value of what it waited for. A task's private data is one object, constructed from the coroutine's arguments or by default or assigned by then(), which the body, every future and every context see for the whole life of the task and which is destroyed exactly once; the identifier seen in the body is that of its futures and of no other task.",
  ["histories", "programs"], "All combinations of result type of the parent, kind of continuation and shape of functor, in chains and trees, with the parent over, suspended or unstarted when the continuation is made inner coroutines that suspend, and kills of any of them.",
  "The tests chain two or three continuations whose parents and inner coroutines are already over or end in one go, and check one value.",
  ["include/libcotask/task_promise.h", "include/libcopp/coroutine/callable_promise.h"] + STD, [("then(): thenable_traits, start_thenable, invoke_callable, invoke_task", "include/libcotask/task_promise.h thenable_traits"), ("private data and identifiers", "include/libcotask/task_promise.h task_context, task_private_data, task_pick_id")], ["functor calls", "values", "private data", "object counts"])

POOL = ["include/libcopp/stack/stack_pool.h", "include/libcopp/stack/allocator/stack_allocator_pool.h"]
prop("K01", "The stack pool never hands out a stack in use and accounts for all of them",
  "Every stack a pool hands out is valid memory of the configured size that no other user holds, whether fresh or recycled. The used and free counts and sizes equal the real numbers at every moment, and each stack obtained from the underlying allocator is given back exactly once, at the latest when the pool is destroyed. Clearing the pool or changing the stack size never lets an outdated or released stack be handed out.",
  ["histories"], "All histories of allocate/deallocate/clear/resize/collect/destroy over the modelled number of stacks.",
  "The test compares counters along one scripted run and never reuses a pool after clearing it.",
  POOL, [("free list and limit counters", "include/libcopp/stack/stack_pool.h allocate, deallocate, clear, gc")], ["allocator calls", "get_limit()"])
prop("K02", "Stack pool limits and garbage collection are honoured",
  "An allocation that would make the stacks or bytes in use exceed the configured maxima fails cleanly. Idle stacks are reused newest first. Collection gives idle stacks back oldest first, only while the pool holds more than the configured minima, never more than the per-pass bound in one pass, and never ones that are in use.",
  ["histories", "configurations"], "All limit settings up to the bound combined with all histories of allocate/deallocate/collect.",
  "The test fixes one set of limits.",
  POOL, [("limit checks and gc", "include/libcopp/stack/stack_pool.h allocate, gc")], ["allocation success", "counters"])
prop("K03", "The stack pool stays exact under concurrent use",
  "When several threads allocate, return, collect and resize concurrently, no stack is held by two users, none is lost or released twice, and the counters equal the real numbers whenever no call is in progress.",
  ["schedules"], "All schedules up to a preemption bound of small concurrent programs, plus random schedules.",
  "The multithread tests only check that nothing crashes under the OS scheduler.",
  POOL, [("action lock", "include/libcopp/stack/stack_pool.h action_lock_")], ["stacks handed out", "allocator calls"])
prop("K04", "Stack allocators give usable stacks of the promised size and take them back once",
  "Each stack allocator returns either nothing or a stack whose range (apart from the low guard page of the protected allocator) is readable and writable, suitably aligned, not smaller than the smaller of the requested size and the maximum and at least the minimum size, disjoint from every other live stack. Deallocation releases exactly that range and leaves the other stacks intact. A caller-supplied memory block, rounded down to whole pages, is used at most once at a time and never overrun.",
  ["inputs", "histories"], "All histories of allocate/deallocate with sizes around zero, page, minimum and maximum boundaries.",
  "The tests use default sizes only.",
  ["src/libcopp/stack/allocator/stack_allocator_posix.cpp", "src/libcopp/stack/allocator/stack_allocator_malloc.cpp", "src/libcopp/stack/allocator/stack_allocator_memory.cpp", "src/libcopp/stack/stack_traits/stack_traits_posix.cpp"],
  [("size rounding", "src/libcopp/stack/stack_traits/stack_traits_posix.cpp")], ["stack_context contents"])

prop("U01", "Generated identifiers are unique",
  "Identifiers produced by the allocator are never zero and never repeat, across all threads, instances and clock readings that do not go backwards, no matter how many are drawn within one second. Drawing them needs no locking by the user.",
  ["schedules", "inputs"], "All schedules up to a preemption bound at every shared access of drawing threads, with clock steps at arbitrary points and sequence wrap boundaries.",
  "The test draws from a few threads under the OS scheduler and real time.",
  ["include/libcopp/utils/uint64_id_allocator.h", "src/libcopp/utils/uint64_id_allocator.cpp"], [("time/sequence packing", "src/libcopp/utils/uint64_id_allocator.cpp")], ["returned identifiers"])
prop("U02", "Spin lock excludes, lock guards release exactly once",
  "At most one owner holds a spin lock at a time; trying to take a held lock or to release a free one fails and changes nothing, and a released lock can be taken again. A lock guard releases the lock it took exactly once, on destruction, reset or hand-over to another guard, and never a lock it does not own.",
  ["schedules", "histories"], "All schedules up to a preemption bound of lock/try_lock/unlock/try_unlock by several threads; all histories of guard creation, move, reset and destruction.",
  "No test covers the lock or the guards directly.",
  ["include/libcopp/utils/spin_lock.h", "include/libcopp/utils/lock_holder.h", "include/libcopp/utils/atomic_int_type.h"], [("atomic exchange", "include/libcopp/utils/spin_lock.h"), ("guard move", "include/libcopp/utils/lock_holder.h")], ["owners in the critical section", "is_locked"])
prop("U03", "Intrusive pointers count exactly",
  "The reference count of an object equals the number of intrusive pointers that refer to it (plus detached references) after every construction, copy, move, conversion, assignment, swap, reset, detach and destruction, also when source and target are the same pointer or object. The object is released exactly when the count reaches zero.",
  ["histories"], "All histories of pointer operations over several pointers and objects, including self-assignment and base/derived conversion.",
  "There is no direct test.",
  ["include/libcopp/utils/intrusive_ptr.h"], [("copy-and-swap assignment", "include/libcopp/utils/intrusive_ptr.h")], ["reference counts", "releases"])
prop("U04", "Future, poller and result storage keep exactly the value last put in",
  "A future is ready exactly when a value was put in and not taken out, moved away or reset, and then gives access to that very value; a result is exactly one of success or error with the value it was made with. Copying out, moving, swapping and resetting never lose, duplicate or corrupt a value, for small trivial and for owned types alike, and every owned value is destroyed exactly once.",
  ["histories", "inputs"], "All histories of put/move/swap/reset/poll over several futures and results with trivial, large trivial and non-trivial payloads.",
  "Tests set one value per payload kind.",
  ["include/libcopp/future/storage.h", "include/libcopp/future/poller.h", "include/libcopp/future/future.h"], [("storage selection and move/swap", "include/libcopp/future/storage.h")], ["is_ready, data", "live payload counts"])
prop("U05", "Atomic and plain integers compute alike; no update of an atomic one is lost",
  "Every operation of the library's integers (load, store, assignment, conversion, exchange, compare-and-exchange, fetch-and-op, increment and decrement) leaves and returns what integer arithmetic of that type says, for atomic and for unsafe integers, through volatile and ordinary references and whatever memory order is given; a failed compare-and-exchange changes nothing but the expected value, a successful one not even that. On an atomic integer every operation takes effect at once, so that none is lost or seen half done by other threads, and unless told otherwise what was written before it is visible to those who see it.",
  ["inputs", "histories", "schedules"], "All operations in all forms on 14 types of integers with values around the limits; all schedules with up to 2 preemptions of 2-3 threads using one.",
  "There is no direct test.",
  ["include/libcopp/utils/atomic_int_type.h"], [("atomic_int_type over std::atomic and over unsafe_int_type", "include/libcopp/utils/atomic_int_type.h")], ["returned values", "the value left behind", "data published with it"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
