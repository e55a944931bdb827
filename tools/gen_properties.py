#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)


S, R, CD, V, MQ, SEM, SHM, EV = ("src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/veigar.cpp", "src/message_queue.cpp",
                                 "src/semaphore.cpp", "src/shared_memory.cpp", "src/event.cpp")
VI, CI, RH = "include/veigar/veigar.inl", "include/veigar/call_dispatcher.inl", "include/veigar/detail/response.h"

p("C01", "Every call completes exactly once",
  "Every call that an application issues is completed exactly once: its future receives one result, or its callback is invoked one time. "
  "This holds whatever fails on the way (packing, memory, opening the target queue, lock or space timeouts, a malformed or duplicate response) and also for calls that are queued or pending when the instance is uninitialised; a call that the application releases needs no completion.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all paths of issuing, sending, answering, releasing and shutting down, for every failure of every step",
  "the tests exercise the success path and a missing target; the failures of single steps, duplicates and shutdown with pending calls are never produced",
  [S, R, V, VI], [("issue", "Veigar::doAsyncCall / doAsyncCallWithCallback, " + VI), ("queue and send", "Sender::addCall / sendCallThreadProc, " + S), ("complete", "RespDispatcher::completeCall, " + R)],
  [("pending calls", "calls that wait for an answer, by id", R), ("call list", "calls not sent yet", S)])
p("C02", "Queue contents are only touched under the inter-process lock",
  "Messages are added to, taken from and counted in a shared queue only while the caller holds that queue's inter-process lock, and on every path each acquisition is followed by exactly one release, done only by the holder. "
  "Nobody waits for anything, calls user code, or returns while holding the lock.",
  ["schedules", "fault_sequences"], "all paths of all threads and API calls, including lock timeouts and exceptions",
  "the tests cannot produce a lock timeout or an exception between acquisition and release, and the effect of a missed or double release shows only with several processes in a narrow interleaving",
  [S, R, CD, MQ], [("acquire / release", "MessageQueue::processRWLock / processRWUnlock, " + MQ), ("users", "Sender::sendCallThreadProc, sendRespThreadProc, checkSpaceAndWait; both dispatch thread procedures")],
  [("rw-lock semaphore", "1 when free, 0 when held", MQ)])
p("C03", "No data races between the threads of an instance",
  "Any two threads of one process that use the same instance never access the same memory at the same time without synchronisation when one of them writes: application threads that call, bind, unbind, list or release while the instance runs, and all internal threads, from start to the end of uninitialisation.",
  ["schedules"], "all interleavings of API threads with the internal threads",
  "races do not fail tests reliably; the tests bind before calling and use few threads",
  [S, R, CD, V, EV, CI], [("mutexes", "callListMutex_, respListMutex_, target queue mutexes (sender.h), ongoingCallsMutex_ (resp_dispatcher.h), funcsMutex_ (call_dispatcher.h)"), ("atomics", "stop flags, call index, lock timeout")])
p("C04", "No deadlock on the library's own locks",
  "No schedule deadlocks on the library's mutexes: every path that locks one unlocks it before leaving, also by exception, none locks a mutex it already holds, and the order in which mutexes nest has no cycle. "
  "No bound function or callback of the application runs, and no wait without a time limit happens, while a library mutex is held, so applications may use the library from their functions and callbacks.",
  ["schedules", "programs"], "all paths and interleavings; arbitrary user code in bound functions and callbacks",
  "a deadlock needs a particular interleaving or a callback that calls back into the library; the tests have one such function",
  [S, R, CD, EV], [("locking", "all uses of std::mutex in src and include/veigar")])
p("C05", "A call is pending before its message can be answered",
  "A call is recorded as pending before its message becomes visible to the target, so that an answer, however fast it arrives, always finds it.",
  ["schedules"], "all interleavings of sending with the arrival of the answer",
  "the window between sending and recording is microseconds; a test passes almost always",
  [S, R], [("register", "RespDispatcher::addOngoingCall, " + R), ("send", "MessageQueue::pushBack in Sender::sendCallThreadProc, " + S)])
p("C06", "No lost wake-up: queued work is always picked up",
  "Whenever work is handed to a thread (a call or response to send, a message in a shared queue), a thread that waits for it is woken afterwards, and no thread goes back to waiting while it has consumed a wake-up without handling the work it stood for. "
  "In particular a reader that cannot obtain the lock gives its read signal back, and a message larger than the read buffer is read after enlarging the buffer.",
  ["schedules", "fault_sequences"], "all interleavings of producers and consumers, all lock timeouts and message sizes",
  "a lost wake-up hangs one call in a rare interleaving; later traffic usually hides it",
  [S, R, CD, EV, MQ], [("in-process signal", "Event::set / unset / wait, " + EV), ("inter-process signal", "MessageQueue::notifyRead / waitForRead, " + MQ)])
p("C07", "Queue operations stay inside the shared segment",
  "For every capacity, message size and queue state that the operations themselves can produce, adding and taking messages read and write only inside the shared segment: sizes inside the size table, data inside the data area, and no byte of one message overlaps another.",
  ["inputs", "histories", "configurations"], "all sequences of additions and removals with arbitrary sizes and parameters",
  "the tests use a few sizes; an off-by-one shows only when the data area or the table is filled to the last byte",
  [MQ], [("layout", "MessageQueue::pushBack / popFront / checkSpaceSufficient / create, " + MQ)],
  [("segment header", "total size, number of messages, free bytes in front, size table, data area", MQ)])
p("C08", "The shared queue is first-in first-out and returns what was put in",
  "A message taken from a queue is the oldest one not yet taken, with exactly the size and the bytes it was put in with; a removal that is refused because the reader's buffer is too small leaves the queue unchanged and reports the size needed.",
  ["histories", "inputs"], "all histories of additions and removals, including wrap-around of the data area",
  "the tests use short histories; compaction of the data area and the refused removal are hardly reached",
  [MQ], [("order", "size table shifted, front offset advanced in MessageQueue::popFront; append in pushBack, " + MQ)])
p("C09", "Answers go to the caller and to the call they belong to",
  "The answer to a call is sent to the channel named in the call's message and carries the call's own id; the caller completes exactly the pending call with that id and ignores answers with unknown ids or a wrong message kind.",
  ["inputs", "histories"], "all messages and all sets of pending calls",
  "the tests have one caller and few calls in flight, any mix-up of ids or channels between concurrent callers goes unseen",
  [R, CD, "src/response.cpp", RH, S], [("dispatch", "CallDispatcher::dispatchCall, " + CD), ("answer", "Response::getData, src/response.cpp; Sender::sendRespThreadProc"), ("match", "RespDispatcher::dispatchRespThreadProc, " + R)])
p("C10", "User exceptions never escape and are answered",
  "No exception, of any type, thrown by a bound function, a callback, message decoding or the library terminates the process or ends one of the library's threads, and none leaves the calling API for the supported argument types. "
  "A call whose function throws, is unknown, or has the wrong arguments is answered with an error, exactly once.",
  ["programs", "inputs"], "all exceptions at all points where user code, msgpack or the library may throw",
  "the tests throw nothing that is not derived from std::exception and nothing from callbacks",
  [CD, R, S, VI, "src/response.cpp"], [("catch", "CallDispatcher::dispatchCall / dispatchThreadProc, RespDispatcher::completeCall")])
p("C11", "A malformed message cannot disturb the messages after it",
  "Every message taken from a queue is decoded on its own: whatever bytes it contains, nothing of it is left to be decoded together with the next message, exactly the received bytes are decoded, and the receiving thread goes on with the next message.",
  ["inputs", "histories"], "all byte strings as messages, in any order",
  "the tests only send well-formed messages",
  [CD, R], [("decode loop", "dispatchThreadProc / dispatchRespThreadProc")])
p("C12", "Every message buffer is released exactly once",
  "Each heap buffer that carries a message or a formatted text is released exactly once on every path, including failures and shutdown with messages still queued, and is never used after its release.",
  ["fault_sequences", "schedules", "histories"], "all paths from allocation to release, over all hand-overs between threads",
  "the tests run without a leak checker and never stop with queued messages or failing hand-overs",
  [V, S, "src/string_helper.cpp"], [("allocate", "Veigar::sendCall / sendResponse"), ("release", "Sender thread procedures and Sender::uninit")])
p("C13", "Operating-system resources are released exactly once",
  "Every shared-memory descriptor, mapping and semaphore that an object opens is closed exactly once, on success, on every failure half-way and on shutdown, and none is used after it was closed. "
  "The name of a segment is removed by its creator and by nobody else, and probing for a semaphore neither creates nor leaks one.",
  ["fault_sequences", "histories"], "all failures of each system call in every order; repeated create, open and close on one object",
  "system calls do not fail in the tests",
  [MQ, SEM, SHM], [("segment", "SharedMemory::create / open / close, " + SHM), ("semaphore", "Semaphore::open / close / IsExist, " + SEM), ("queue", "MessageQueue::create / open / close, " + MQ)])
p("C14", "Shutdown stops and joins every internal thread",
  "Uninitialising an instance makes each of its internal threads leave its loop, whatever it is waiting for, and returns only after all of them have been joined; no thread object is destroyed or overwritten while its thread runs.",
  ["schedules", "histories"], "all states of the threads at the moment of shutdown",
  "the tests shut down idle instances",
  [S, R, CD, V, EV], [("stop", "Sender::uninit, RespDispatcher::uninit, CallDispatcher::uninit")])
p("C15", "Call ids are unique among all calls of all processes",
  "Two different calls never have the same id, whether they are issued by different threads, by different instances or by different processes, and whatever the name of the called function is.",
  ["schedules", "inputs", "configurations"], "all threads, instances and processes, all function names",
  "a collision needs two processes or particular function names, and is silent in tests",
  [V, "src/uuid.cpp"], [("id", "Veigar::getNextCallId, " + V), ("instance id", "UUID::Create, src/uuid.cpp")])
p("C16", "Both sides derive the same, distinct names from a channel",
  "The side that creates a queue and the side that opens it use the same names for segment, lock and signal, these are distinct for the call and the response queue and for different channels, calls are sent to the target's call queue and answers to the caller's response queue, and the shortcut for the own channel uses the own queues.",
  ["inputs", "configurations"], "all channel names",
  "a clash between derived names of different channels or queues shows only for particular names; within a process the shortcut hides a mismatch",
  [MQ, S, R, CD], [("names", "MessageQueue::create / open, CallDispatcher::init, RespDispatcher::init, Sender::getTarget*MessageQueue")])
p("C17", "Timed waits last as long as asked",
  "A timed wait on a semaphore or event ends when it is signalled or when the given time has passed, for every time including zero and values of a second and more, is not cut short by signals to the process, and reports success only if it was signalled; a negative time means no limit.",
  ["inputs", "schedules", "fault_sequences"], "all time values, all phases of the clock, all interruptions",
  "whether the deadline computation is right depends on the sub-second phase of the clock; signals are never delivered in tests",
  [SEM, EV, "src/time_util.cpp"], [("deadline", "Semaphore::wait, " + SEM), ("event", "Event::wait, " + EV)])
p("C18", "A failed initialisation leaves no trace",
  "If initialisation fails at any step, it reports failure, no thread of the instance is left running, the queues created before are closed, nothing is dereferenced that was not created, and the instance can be initialised again.",
  ["fault_sequences"], "failure of each step of initialisation",
  "no step of initialisation fails in the tests except by an empty name",
  [V, CD, R, S], [("init", "Veigar::Impl::init, " + V)])
p("C19", "Bound functions behave like a map from name to function",
  "Binding a name succeeds exactly if the name is not empty and not bound, and never replaces another binding; unbinding removes that name only; listing gives the bound names; a function stays bound until it is unbound or its instance is uninitialised; and a call runs the function bound under its name at that moment or is answered that there is none.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of bind, unbind, list and calls",
  "the tests bind once per name; concurrent binding of one name is never tried",
  [CI, CD, "include/veigar/call_dispatcher.h"], [("registry", "CallDispatcher::bind / unbind / names / isFuncNameExist / dispatchCall")])
p("C20", "Formatted output matches its arguments",
  "Every formatted text (log lines, error messages, ids) is produced from a constant format whose conversions agree in number, kind and size with the arguments, and data received from others is never used as a format.",
  ["inputs"], "all formatting calls with all argument values",
  "a mismatch is undefined behaviour that shows only for particular values or platforms, and most log lines are never produced in tests",
  ["src/log.cpp", "src/string_helper.cpp", S, R, CD, V, MQ], [("formatters", "veigar::log, StringHelper::StringPrintf and their callers")])
p("C21", "Results tell success from failure",
  "A call is reported successful only if the answer of the target was received and decoded and contains no error; every failure before that (no target, timeouts, full queue, packing, shutdown) is reported with a failure code and a non-empty message, and an error sent by the target reaches the caller as the error message.",
  ["fault_sequences", "inputs"], "all failures of all steps of a call",
  "the tests cover a missing target and a missing function only",
  [R, S, V, VI, "include/veigar/call_result.h"], [("codes", "CallResult, all places that build one")])
p("C22", "Sizes and times do not overflow",
  "For every queue capacity, expected message size, message length and timeout that the interface accepts, the sizes and times computed from them are not truncated and do not overflow before they are used.",
  ["inputs", "configurations"], "all parameter values",
  "overflow needs capacities of gigabytes or timeouts of weeks",
  [MQ, V, S, SEM], [("sizes", "MessageQueue::create / open / pushBack / checkSpaceSufficient"), ("times", "Veigar::sendCall, Sender::checkSpaceAndWait, Semaphore::wait")])
p("C23", "Moving an instance transfers everything that belongs to it",
  "After an instance is moved into another, by construction or assignment, the target owns all parts of the source and they refer to the target; what the target owned before is released, the source owns nothing, and no part is released twice or never.",
  ["programs", "histories"], "all uses of move construction and move assignment",
  "the tests never move an instance",
  [V], [("move", "Veigar::Veigar(Veigar&&), Veigar::operator=(Veigar&&), " + V)])
p("C24", "Caller and target agree on the layout of messages",
  "The fields that the sender of a call or an answer writes are those that the receiver reads, in the same order and number and with compatible types; arguments are passed to the function in the order given, and a function only runs if the number of arguments matches and all of them convert.",
  ["inputs", "programs"], "all functions, argument lists and results",
  "the tests use a handful of signatures and never a wrong argument list against a running function",
  [VI, CI, CD, RH, "src/response.cpp", R], [("call layout", "doAsyncCall* in " + VI + " and CallMsg in include/veigar/call_dispatcher.h"), ("answer layout", "Response::ResponseMsg, " + RH)])
p("C25", "An instance can be restarted after shutdown",
  "After uninitialisation an instance can be initialised again and then works like a new one: no stop request, cancelled signal, thread, pending call or queue of the previous run is left in it.",
  ["histories"], "all sequences of initialisation, use and uninitialisation",
  "the tests initialise each instance once or twice without using it afterwards",
  [S, R, CD, V, EV], [("restart", "init functions reset what uninit set")])
p("C26", "Synchronous calls return within their time limit",
  "A synchronous call returns when the result arrives or when its time limit has passed, also if the target never answers; only waits with a time limit happen on the way.",
  ["schedules", "crash_points", "fault_sequences"], "all behaviours of the target, including its crash after taking the call",
  "the target always answers in the tests",
  [VI, V, S], [("wait", "Veigar::syncCall, " + VI)])
p("C27", "A target that was restarted or crashed is reached again",
  "A cached queue of a target is used only after checking that it is still the target's current one, otherwise it is dropped and opened anew; a queue whose segment is too small or was recorded with another size is refused, and creating a queue over the remains of a crashed process yields an empty queue with a free lock.",
  ["crash_points", "histories", "configurations"], "all crashes and restarts of targets between calls, all leftovers of crashed processes",
  "the tests never restart a target or leave a segment behind",
  [S, MQ, SHM], [("cache", "Sender::getTargetCallMessageQueue / getTargetRespMessageQueue, " + S), ("recovery", "MessageQueue::create / open, " + MQ)])
p("C28", "Values survive the round trip through a message",
  "For every supported type, a value that is passed as argument or returned as result is received equal to the value that was sent.",
  ["inputs"], "all values of all supported types",
  "the tests try single values of each type",
  ["include/veigar/msgpack"], [("codec", "the bundled msgpack library")])
p("C29", "Every accepted call is eventually answered while the target runs",
  "While target and caller run and keep the lock and queue capacity available, every call that was accepted is eventually executed and its answer delivered, independent of the load produced by others.",
  ["schedules"], "all fair schedules of all processes",
  "liveness under fairness is a statement about infinite executions",
  [S, R, CD, MQ], [("threads", "all worker threads")])

p("C30", "A message waits for space in a full queue until its time limit",
  "A call or an answer that does not fit into the target's queue at the moment is retried until the time limit given with the call (for answers: the configured limit) has passed, counted from the moment it was issued: it is neither given up before, unless the instance is uninitialised or it can never fit, nor kept waiting afterwards, and the wait ends when the instance is uninitialised.",
  ["inputs", "schedules"], "all time limits, all fillings of the target's queue over time",
  "the tests never keep a queue full until the limit of a call",
  [S, V], [("wait", "Sender::checkSpaceAndWait, " + S), ("limits", "Veigar::sendCall / sendMessage, " + V)])
p("C31", "Messages are carried whole",
  "Between being packed and being put into a queue a call or an answer is kept in a buffer of its own, which holds the whole packed message from its first to its last byte, and the size that goes with it is exactly the number of these bytes.",
  ["inputs"], "all messages of all sizes, all paths on which a message is queued inside of the sender",
  "the tests compare the results of a few small calls",
  [V, S], [("buffer", "Veigar::sendCall / sendMessage, " + V)])

p("C32", "Received and returned objects keep the memory they refer to",
  "The object in a call result, the result of a bound function and the error text of an answer stay valid as long as their holder lives: each is either a deep copy or is held together with the memory it was made in, never a view of a decoded message, of a value of the callee or of memory of another holder.",
  ["inputs", "histories"], "all results, arguments and errors, all later points at which the user looks at a result",
  "small values live inside of the object itself, and memory that was just released usually still has its content",
  [R, CI, RH], [("clone", "RespDispatcher::dispatchRespThreadProc, " + R), ("zones", "functors in " + CI + ", Response in " + RH)])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
