#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state="", observe="", hook="none"):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])],
        state=[dict(name=state, meaning="state the property is about", where=files[0])] if state and state != "none" else [],
        observe_at=[observe], hook_needed=None if hook == "none" else hook)))

JQ = ["sm_boost/src/JobQueue.cpp", "sm_boost/include/sm/boost/JobQueue.hpp", "sm_boost/include/sm/boost/implementation/JobQueue.hpp"]
LG = ["sm_logging/src/LoggingGlobals.cpp", "sm_logging/include/sm/logging/LoggingGlobals.hpp", "sm_logging/include/sm/logging/macros.h", "sm_logging/src/Logger.cpp"]
PT = ["sm_property_tree/src/PropertyTree.cpp", "sm_property_tree/src/PropertyTreeImplementation.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_property_tree/src/BoostPropertyTree.cpp"]
VS = "sm_value_store/"
MA = ["sm_matrix_archive/src/MatrixArchive.cpp", "sm_matrix_archive/include/sm/MatrixArchive.hpp"]

p("J01", "JobQueue runs every job exactly once, in FIFO order, on at most n workers",
  "For every interleaving: a JobQueue with n started workers never runs a scheduled job twice and never drops one while it is running; jobs are taken from the queue in the order scheduleWork()/scheduleFuture() put them there; at most n jobs run at the same time, and several workers really run jobs concurrently; every job scheduled on a running, not stopped queue eventually runs.",
  ["schedules", "histories"], "All interleavings of scheduling threads and workers, any number of jobs and workers, jobs that schedule further jobs.",
  "A unit test samples a few of the interleavings of lock, wait, wake-up and pop; a lost wake-up or a double pop needs one particular interleaving.",
  JQ, "Workers loop: lock, wait for work or kill, pop front, count active, unlock, run, count inactive, notify waiters.",
  "q_, activeThreads_, threadsInPool_, killWorkers_", "Start and end of the scheduled functions and return of the public calls")
p("J02", "waitForEmptyQueue() is a barrier: it returns only when the queue is idle",
  "For every interleaving: when waitForEmptyQueue() returns, every job scheduled before the call was made has finished (none is queued and none is still executing); and on a queue whose workers are running it always returns once the scheduled jobs are finished: the wake-up is never lost. empty() is true exactly when no job is waiting to be taken.",
  ["schedules", "histories"], "All interleavings of several waiters, several workers, several scheduling threads.",
  "A test sees the barrier hold on the schedules that happened; a return between pop and execution, or a lost notification, needs a rare schedule.",
  JQ, "Condition variable over (active count, queue) signalled by workers after each job.",
  "q_, activeThreads_", "Return of waitForEmptyQueue(), empty()")
p("J03", "Stopping a JobQueue always terminates and leaves no worker behind",
  "For every interleaving: join() and the destructor terminate for any number of workers and queued jobs, however the request races with workers that are starting up, idle, going to sleep or running a job; after join() or the destructor has returned no worker thread touches the queue or starts a job; a job that was running when the stop was requested is completed; jobs not yet started are not executed afterwards, and nothing is executed twice. Calling join() or destroying a queue that was never started is harmless.",
  ["schedules", "histories"], "All interleavings of start/stop/join/destruction with workers in every phase.",
  "Needs the stop request to fall between a worker's test of the kill flag and its wait, or before a worker thread has registered itself: windows of nanoseconds.",
  JQ, "killWorkers_ flag, work condition, thread group join, destructor waiting for the pool.",
  "killWorkers_, threadsInPool_, thread group", "Return of join()/destructor, thread exits")
p("J04", "A future from scheduleFuture() delivers exactly its job's result or exception",
  "For every interleaving: each future returned by scheduleFuture(f) becomes ready only after f has finished, then yields the value returned by this very f (arguments bound at the call included), or rethrows the exception f threw, with its type and message; a throwing future job neither ends its worker nor affects other jobs; futures of different jobs are never mixed up; the future of a job that was never run because the queue was stopped reports a broken promise once the queue is destroyed, it does not block for ever.",
  ["schedules", "inputs", "fault_sequences"], "Any number of future jobs, any mixture of results, void jobs and exceptions, any interleaving.",
  "Tests look at a few all-success runs; mixing up results or losing exceptions may need several workers and an exception at a particular point.",
  JQ, "packaged_task wrapped in a job; the future is taken from it before queueing.",
  "packaged_task shared state", "future.get() in the scheduling thread")

p("L01", "Log statements are enabled exactly by the current level and stream switches",
  "After any history of setLevel, enableNamedStream, disableNamedStream and executions of log statements (in any order, statements first executed before or after a switch), a log statement writes its message if and only if its level is at least the current global level and its named stream (if it has one) is currently enabled; the sm stream is enabled and the level is Info initially; sm::logging::enableNamedStream/disableNamedStream/isNamedStreamEnabled treat a name with and without the 'sm.' prefix alike; levels convert to and from names without loss, whatever the case, and unknown names mean Info.",
  ["histories", "inputs"], "All interleavings of configuration calls with first and repeated executions of static log sites of all levels and streams.",
  "Each static log site caches its enabled bit; whether a stale bit survives depends on the order of registration and switches; tests try a few orders.",
  LG, "Per-site LogLocation cache, re-evaluated for all registered sites on each switch.",
  "_level, _named_streams_enabled, _log_locations", "Messages reaching the installed Logger; isNamedStreamEnabled(), getLevel()")
p("L02", "COND, ONCE, THROTTLE and STREAM log variants gate messages exactly as named",
  "For every history of executions: a COND statement logs iff it is enabled and its condition holds; a ONCE statement logs at its first enabled execution and never again; a THROTTLE statement with period p logs iff at least p seconds of logger time have passed since it last logged (the first time: since the epoch of the logger clock); message arguments and conditions are not evaluated when the statement is disabled; the printf, the stream and the named variants are equivalent, deliver the site's own level, stream, file, line and function to the logger, and printf texts of any length arrive complete.",
  ["histories", "inputs"], "All sequences of enabled/disabled executions, clock readings, condition values, and message lengths around the internal buffer size.",
  "Site-local hidden state (hit flag, last hit time, cached enable bit) makes behaviour history dependent; tests sample one history per macro.",
  LG + ["sm_logging/include/sm/logging/LogLocation.hpp"], "Function-static state inside the macros, formatToBuffer growth.",
  "static hit/last_hit/loc of each site", "LoggingEvent passed to the installed Logger")
p("L03", "Concurrent logging and reconfiguration: one at a time, nothing lost, no deadlock",
  "For every interleaving of threads executing log statements (also first executions), changing levels and named streams and replacing the logger: every enabled message reaches a logger exactly once; Logger::log is never entered by two threads at once; no call deadlocks; a message logged by the logger from within its own log() on the same thread is discarded and neither deadlocks nor suppresses messages of other threads; an exception thrown by a logger is contained and later messages are still delivered; setLogger(null) is refused; after shutdown() nothing is delivered.",
  ["schedules", "fault_sequences"], "All interleavings of printing, registering and reconfiguring threads.",
  "Lock-order inversions and recursion races need a particular interleaving of two threads between two lock acquisitions.",
  LG, "Print mutex, locations mutex, named stream mutex, logger mutex, recursion guard by thread id.",
  "_print_mutex, _printing_thread_id, _locations_mutex, _named_stream_mutex, _logger_mutex", "Entry/exit of Logger::log, return of the API calls")
p("L04", "Log formatter expands every token of any format string, and only those",
  "For every format string and event: ${severity}, ${message}, ${time}, ${thread}, ${file}, ${line}, ${function} and ${streamname} are replaced by that event's values at every place they occur, in order; unknown ${name} tokens and all other text are reproduced literally; formatting one event does not change how the next is formatted; with color enabled the text is the same apart from the colour prefix of the level and the reset suffix.",
  ["inputs", "histories"], "All sequences of literal text, known and unknown tokens, all levels.",
  "The space of format strings (adjacent tokens, dollar signs, unterminated tokens, re-init) is unbounded.",
  ["sm_logging/src/Formatter.cpp", "sm_logging/include/sm/logging/Formatter.hpp", "sm_logging/src/Tokens.cpp"],
  "Regex split of the format into token objects printed in turn.", "format_, tokens_", "Text written by Formatter::print")

p("L05", "Logging assertions log, then trap, exactly when their condition is false",
  "For every condition expression of SM_ASSERT, SM_ASSERT_MSG and SM_ASSERT_CMD: it is evaluated exactly once; if it holds nothing is logged, run or trapped; if it does not, SM_ASSERT and SM_ASSERT_MSG print at least one fatal log message naming file, line, condition (and the given text), and only then execute one breakpoint trap, and SM_ASSERT_CMD runs its command once. SM_BREAK always logs and traps. Each macro is one statement, also as the only statement of an if with an else, and with NDEBUG does nothing and evaluates nothing.",
  ["inputs", "histories"], "All forms of condition (operators of lower precedence than !, commas of calls, side effects), operand values, log levels, with and without NDEBUG.",
  "The existing tests never make a logging assertion fail (the trap ends the test), and no fixed condition covers every way an expression is expanded by a macro.",
  ["sm_logging/include/sm/logging/assert.h"], "Macros that negate their parenthesised argument, log with the fatal level and raise a breakpoint.",
  "logger output, SIGTRAP", "messages at the installed Logger, traps, side effects of condition and command")

p("P01", "Every property tree view resolves a key to the same stored value",
  "For any history of writes through any PropertyTree views of one tree (copies, sub-namespaces, views of views): a key starting with '/' addresses from the tree's root, any other key relative to the view's namespace, a final '/' of a key or namespace being immaterial; a value written through one view is read back through every other view by the equivalent key until overwritten, and writes to one key change no other key (missing inner nodes are created empty). doesKeyExist tells exactly whether a node is there, whatever characters other than '/' the names contain. getChildren lists the names of the children of the view's namespace in order, with copies of their contents that later writes do not share, and throws if the namespace does not exist.",
  ["histories", "inputs"], "All sequences of set/get/exists/children over nested views and key spellings.",
  "Aliasing between views is a relation over all pairs of keys and views; tests check a few fixed pairs.",
  PT, "buildQualifiedKeyName + boost ptree with '/' separated paths.", "shared implementation ptree + view namespace",
  "get*/set*/doesKeyExist/getChildren/getChildrenNames")
p("P02", "Typed property access: exact round trip, strict conversion, precise errors",
  "For all keys, types (bool, int, finite double, string) and values: setX then getX returns the same value; reading a missing key without default throws InvalidKeyException, and a value that cannot be converted as a whole to the requested type throws InvalidValueException. With a default, a missing or unconvertible value yields the default; the default is stored exactly when the tree was not constant and the key was missing, otherwise the read changes nothing.",
  ["inputs", "histories"], "All key states (missing, present, inner node) x stored texts x requested types x presence of default.",
  "The decision table is a product of key state, text and type and depends on what earlier reads stored.",
  PT, "ptree get_optional/get_child_optional, stream translators, exception mapping.", "ptree node data", "Return values and exceptions of the getters")
p("P03", "Merging property trees: the newer value wins and nothing else is touched",
  "For all trees A and B (names without '/', unique among siblings): A.update(B) leaves at every key of B (inner nodes included) the text of B and leaves every key of A not in B unchanged; without createIfNecessary a key of B missing in A raises KeyNotFoundException and no key is created; with ignoreEmpty, values of B that are empty or only white space overwrite nothing and create nothing. B is never modified, merging again changes nothing, and later changes of B do not show in A.",
  ["inputs", "histories"], "All pairs of trees (depth, fan-out, overlaps, empty inner values) and flag combinations.",
  "Trees are unbounded, tests merge two hand-written ones.",
  PT, "traverse_recursive over B writing into A", "the two ptrees", "getters on A and B after the call")
p("P04", "Layered configuration files: later overrides earlier, children override parents",
  "For every set of configuration files and search paths: loading a list of names gives, for each key, the value of the last file in load order that defines it (and no other keys), a file's parents (its key 'parents' or that of its first group) being merged before the file itself, recursively. A name denotes the file as given if absolute or if there are no search paths, else the one beside the naming file for './' and '../' names that exist there, else the first that exists among search path and infix. A file marked '!' that is not the first may only change existing keys and otherwise raises KeyNotFoundException; each file is loaded at most once per mark and list (cyclic parents terminate); a missing or malformed file raises an exception.",
  ["inputs", "histories"], "All parent graphs (chains, diamonds, cycles), list orders, overlapping keys, '!' marks and search path orders.",
  "Precedence is a property of the whole parent graph and list; tests use a fixed couple of files.",
  ["sm_property_tree/src/BoostPropertyTreeLoader.cpp", "sm_property_tree/include/sm/BoostPropertyTreeLoader.hpp", "sm_property_tree/src/BoostPropertyTree.cpp"],
  "Recursive descent over the parents key, merge via update(), ignore set.", "loader ignore set, search paths, accumulated tree", "Final tree; exceptions")
p("P05", "loadString's inline syntax builds exactly the tree it denotes",
  "For every text in the inline property syntax (comma separated assignments path=value, bare paths, nested groups path{...}; paths separated by '/'), loadString replaces the tree by exactly the one the text denotes: repeated names denote the same node, a later assignment overrides an earlier one, a bare path or group only makes the node exist. A text with a quote character or with unbalanced braces raises an exception and leaves the tree unchanged. loadStrings with the items of a text is equivalent.",
  ["inputs"], "All words of the grammar with bounded nesting.", "Recursive grammar, unbounded inputs.",
  ["sm_property_tree/src/BoostPropertyTree.cpp"], "Hand written scanner with a cursor stack.", "cursor into the ptree", "tree contents after loadString")
p("P06", "Saving a property tree and loading it again yields the same tree",
  "For every tree that a format (xml, json, ini, info) can represent (no text at the root; json: text only at leaves; ini: two levels; xml: XML names, comments only unless ignored; human readable xml: white space around texts is not kept): saving and loading through any of the file, format-specific, string or stream functions, into any tree, leaves exactly the saved keys, order and values, nothing of what the tree held before remaining. An extension other than these raises InvalidFormatException; a missing or damaged file that cannot be parsed raises an exception; in both cases the tree is unchanged.",
  ["inputs", "histories"], "All small trees x formats x options.", "Escaping and format selection depend on content; tests save one tree in one format.",
  ["sm_property_tree/src/BoostPropertyTree.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"],
  "boost property_tree parsers chosen by extension.", "ptree", "tree after load; exception type")
p("P07", "findFile looks in the one directory the environment variable names now",
  "For every history of environment settings and of files created and removed: sm::findFile(name, variable) returns the path made of the directory the variable names at the time of the call, exactly one '/' between, and the name, whether or not the variable's value ends with '/', if something exists there; if the variable is not set or nothing exists there (whatever other variables, other directories or the current directory hold) it raises std::runtime_error.",
  ["histories", "inputs"], "All histories of set, unset, create, remove and look-ups over several variables, nested directories and relative names.",
  "The function has no test; staleness and fall-backs only show after a particular history of settings and files.",
  ["sm_property_tree/src/BoostPropertyTreeSupport.cpp", "sm_common/include/sm/string_routines.hpp"], "getenv at each call, concatenation, boost::filesystem::exists.",
  "environment, file system", "returned path or exception")

p("V01", "Value store handles and children stay bound to one shared storage",
  "For every history over value stores on property trees: getX(path) of an existing key returns an updateable handle that always shows the current value at that place, and update() changes it for the tree, every other handle, child store and view; getX(path, default) returns a fixed handle with the stored value, or the default if there is no valid one, and never changes the tree; getX(path) of a missing key throws InvalidKeyException and of an unparsable value InvalidValueException. addX(path, initial) stores initial at path (replacing what is there). hasKey, getChild(key) (the same storage: path there is key/path here) and getChildren (name and content of each child, in order) agree with the tree.",
  ["histories", "inputs"], "All sequences of add/get/update/child operations on aliased paths.",
  "Aliasing between handles, children and tree shows only in operation sequences.",
  [VS+"src/PropertyTreeValueStore.cpp", VS+"include/sm/value_store/PropertyTreeValueStore.hpp", VS+"include/sm/value_store/ValueStore.hpp", VS+"src/ValueStore.cpp"],
  "Value handles holding (tree, path) or a constant.", "ptree; handle objects", "ValueHandle::get/update, store getters")
p("V02", "Layered value stores: the first layer that has a key decides",
  "For every stack of layers, which may themselves be layered, prefixed or other stores, and every key: hasKey is true iff some layer has the key; getX(path), with or without a default, yields the value of the first layer that has the key, and updating through the handle changes exactly that layer; if no layer has it, getX(path) throws and getX(path, default) yields the default, also for a store without layers. getChild(key) is layered in the same order; getChildren yields the union of the layers' children by name, those of one name layered in the same order; add() appends a layer of lowest priority.",
  ["inputs", "histories"], "All stacks of layers with overlapping keys.", "Priority over n layers and nested children is combinatorial.",
  [VS+"src/LayeredValueStore.cpp", VS+"include/sm/value_store/LayeredValueStore.hpp"], "Linear search over the layers.", "layer list", "store getters, layers' trees")
p("V03", "Prefixed value stores translate keys by exactly one prefix",
  "For every key and prefix: a store in ADD mode answers path exactly as the underlying store answers prefix/path, for getX, hasKey and getChild; a store in REMOVE mode answers prefix/path exactly as the underlying store answers path, has no keys outside the prefix (getX there gives the default, or throws without one), and getChild of a key below, equal to or above the prefix is the store that answers path as the parent answers key/path. Translations compose over children and nested prefixed stores, and getChild on a store without child support answers path as the store answers key/path.",
  ["inputs", "histories"], "All prefixes, keys (equal to, below, above, beside the prefix) and nestings.",
  "Needs keys in special relation to the prefix and uninitialised memory to show.",
  [VS+"src/PrefixedValueStore.cpp", VS+"include/sm/value_store/PrefixedValueStore.hpp"], "applyPrefix in two modes.", "prefix, mode", "store getters")
p("V04", "A verbose value store behaves exactly like the store it wraps",
  "For every history of operations: VerboseValueStore and VerboseExtendibleValueStore return for every operation the same values, the same exceptions and the same handles and have the same effects as the wrapped store, for children, isEmpty and add as well. Each successful getX reports one line `getX(\"path\")->value`, with `DEFAULT:` before the value if the key is missing, each hasKey one line with its result, and each addX one line with `INITIAL:` before the value; lines of a child are prefixed by `child(key):` (or `EC(key):` for getExtendibleChild).",
  ["histories", "inputs"], "All operation sequences on wrapped and unwrapped twin stores.", "Transparency is a statement over all operations, types and nestings.",
  [VS+"src/VerboseValueStore.cpp", VS+"include/sm/value_store/VerboseValueStore.hpp"], "Delegation plus logging templates.", "wrapped store", "results of twin runs; log lines")
p("V05", "findPathAndAlert returns the first existing path and alerts if deprecated",
  "For every list of candidate paths (one marked with '!' is deprecated and the next entry is its message) and every store content: get(candidates, default) reads the first candidate present in the store; an alert with that path and its message is raised exactly if that candidate is a marked one, to the handler or, without one, as the message on the error output (a marked last entry has a generated message naming the path and the first entry). The message of a marked candidate is never taken as a path, and when no candidate is present the first entry is read as it is, so the default is returned or the read throws.",
  ["inputs"], "All candidate lists and all subsets of present keys.", "Combinatorial in list layout and store content.",
  [VS+"include/sm/value_store/ValueStore.hpp", VS+"src/ValueStore.cpp"], "Linear scan over initializer list.", "store", "returned path, alert callback")

p("A01", "MatrixArchive is a map: one name, one matrix or string, exactly as last set",
  "After any history of setMatrix/setVector/setScalar/setString/createMatrix/clear/clear(name) on a MatrixArchive, each name holds exactly what was last stored under it, a matrix or a string but never both; reading returns it unchanged in shape and value; reading a missing or cleared name, a matrix as vector/scalar of the wrong shape, or using an invalid name (not 1..32 characters, letter first, then letters, digits or '_') throws MatrixArchiveException and changes nothing; size, has-queries and iteration show exactly the stored names.",
  ["histories", "inputs"], "All operation sequences over names, kinds and shapes.", "State is two maps that must stay disjoint under every order of operations.",
  MA, "Two std::maps keyed by name.", "m_values, m_strings", "getters, iterators, exceptions")
p("A02", "Archive files: load returns exactly what was saved, append adds, names filter",
  "For every archive content: save followed by load into any archive yields exactly the saved entries (bitwise equal values, same shapes, strings with any bytes) besides what the archive already held under other names; saving with a set of valid names and loading with one transfers exactly the entries whose names are in it; append adds the entries to the file, later entries of the same name winning at load; a file that cannot be opened raises MatrixArchiveException.",
  ["inputs", "histories"], "All contents, empty matrices, long names, repeated save/append/load sequences.", "Round trips over unbounded contents and histories of several files.",
  MA, "Block format: tag, padded name, sizes, data, end tag.", "files, archives", "archives after load")
p("A03", "A damaged archive file is never read as good data",
  "For every archive file and every truncation point, and for corruption of any tag, name or size field: load either raises MatrixArchiveException or (only when the remaining bytes form complete blocks) loads exactly the complete blocks; it never returns entries with other values than were saved for the blocks it accepts, never crashes and never allocates memory out of proportion to the file.",
  ["fault_sequences", "crash_points"], "Every byte offset at which a write can stop and every single damaged structural byte.",
  "Crash points are all byte offsets of all files; tests never truncate.",
  MA, "readBlock's checks of stream state and tags.", "file contents", "load() result or exception")
p("A04", "A save to a file either stores everything or raises an exception",
  "For every MatrixArchive, property tree (XML, INI, INFO, JSON, with and without human readable formatting), value store or serialised object (binary, text, XML) and every byte at which the disk becomes full: a save or append that returns normally has written all of the contents, so that a later load finds exactly these, and one that has not raises an exception. A system that writes less at a time than it is asked to is no failure.",
  ["fault_sequences", "crash_points", "inputs"], "Every kind of file, content sizes below and above the buffers of a stream, every amount of space left, short writes, sequences of saves and appends over several files.",
  "Writing errors only show when the medium fails at a particular byte, most of all in the last, buffered part of a file; tests always have space.",
  ["sm_matrix_archive/src/MatrixArchive.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_boost/include/sm/boost/serialization.hpp", "sm_value_store/src/PropertyTreeValueStore.cpp"],
  "Checks of the stream's state after each block, and after the file has been closed.", "files on disk", "return or exception of save/append, contents found by load")

p("T01", "Timestamp corrector: corrected time lies on the lower hull of observations",
  "For every sequence of (remote, local) observations with increasing remote time, in double or integer time: from three hull points on, correctTimestamp and getLocalTime return values on the line through the edge of the lower convex hull of all observations that spans the middle of the remote time span (before that the local stamp itself); hence a corrected stamp is never after a receive time, an exact affine relation is recovered exactly, and observations above the hull have no influence. A remote time not after the last one raises TimeWentBackwardsException and changes nothing; getLocalTime, getSlope and getOffset on fewer than two hull points raise NotInitializedException; reset() forgets everything.",
  ["inputs", "histories"], "All observation sequences, all delay patterns, integer and floating time types.", "Hull maintenance over unbounded histories: pops of several points, degenerate collinear points, index at the ends.",
  ["sm_timing/include/sm/timing/TimestampCorrector.hpp", "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"],
  "Monotone chain stack and cached midpoint segment.", "_convexHull, _midpointSegmentIndex", "return values of correctTimestamp/getLocalTime/getSlope/getOffset")
p("T02", "Switching timestamp corrector forgets observations after the period",
  "For every history of correctTimestamp calls with a switching period: the first pending corrector starts when the active one's span (local time covered by its hull, if that has more than two points) exceeds half the period; when the active span exceeds the period the pending one, which has seen exactly the observations since it was started, becomes the active one and a new empty pending one starts. The returned stamp is that of the active corrector before the switch; observations older than the active corrector's start never influence a result.",
  ["histories"], "All observation sequences and periods.", "Only long runs with several switches exercise the double-buffered state.",
  ["sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"], "Active and pending corrector pair swapped on span.", "active + pending hulls", "return values")
p("T03", "Timing registry: statistics equal those of the samples added under each tag",
  "For every history, from any number of threads, of timers started and stopped under any tags: a tag always maps to the same handle and different tags to different handles; after N completed samples of a handle, number, total, mean, minimum, maximum, variance and rate (over the last 50) are those of exactly the N measured durations (none lost or counted twice, concurrent threads included); reset leaves no samples; the printed report lists each registered tag exactly once with its own statistics, sorted as requested, largest first; a handle never given out raises TimerException.",
  ["histories", "schedules"], "All interleavings of samples on all tags.", "Lost updates need racing threads; running statistics depend on the whole history.",
  ["sm_timing/src/Timer.cpp", "sm_timing/include/sm/timing/Timer.hpp"], "Global map tag->handle and vector of accumulators under a mutex.", "m_timers, m_tagMap", "Timing::get* functions")
p("T04", "Timer objects follow the start/stop protocol exactly",
  "For every sequence of operations on Timer objects sharing tags: a timer is timing exactly between a start (or construction without the stopped flag) and the next stop; starting a running timer or stopping a stopped one raises TimerException and changes nothing; each stop adds exactly one sample, the time since its own start, to its own tag; destruction of a running timer adds exactly one sample, of a stopped one none; an invalid handle is refused at construction.",
  ["histories"], "All operation sequences on several timers sharing handles.", "Protocol over all sequences.",
  ["sm_timing/src/Timer.cpp", "sm_timing/include/sm/timing/Timer.hpp"], "m_timing flag and addTime.", "m_timing, m_handle", "exceptions, number of samples")
p("T05", "Nanosecond time: conversions are consistent and invalid time is recognised",
  "For every nanosecond time: isValid is false exactly for getInvalidTime(), the smallest 64 bit value; conversion to a chrono time point and back is exact and strictly monotone; conversion to seconds and back returns the same time up to the resolution of a double, is monotone, and is exact for whole seconds and representable fractions; nsecNow() is the system clock's time.",
  ["inputs"], "All 64 bit times and second values.", "A predicate over 2^64 values, never evaluated by a test.",
  ["sm_timing/src/NsecTimeUtilities.cpp", "sm_timing/include/sm/timing/NsecTimeUtilities.hpp"], "Constants and arithmetic conversions.", "none", "return values")

p("T06", "Calendar times convert to seconds since the epoch exactly",
  "For every valid calendar time from the year 1400 to 9999: ptimeToTimeval returns the number of whole seconds since 1970-01-01 00:00 and the microseconds of the second, which are never negative; the header can be used from several source files of one program.",
  ["inputs"], "All dates, leap years and dates before the epoch included.", "Dates before 1970, leap days and the last microsecond of a second are not what a test samples.",
  ["sm_boost/include/sm/boost/ptime.hpp"], "Difference to the epoch split into seconds and fraction.", "none", "returned timeval")

p("C01", "Ids and HashIds: order, hash and text form agree; random ids never repeat",
  "For all ids: ==, != and the order relations a type offers form one total order in which equal means same value, equal ids hash equally, and ordered and hashed containers hold exactly the distinct ids inserted. An Id is set exactly when its value is not 2^64-1 (the value of a default or cleared one), orders as an unsigned number, increments to its successor, and survives copies, conversions and archives. A HashId converts to 32 lower-case hex digits and to 64 bit words and back without loss; text is accepted exactly when it is 32 hex digits and otherwise leaves the id unchanged; ids generated at random, in any threads, interleavings and runs of a program, are valid and distinct, and no bit of them is fixed; a default HashId is the invalid one.",
  ["inputs", "histories", "schedules"], "All pairs and triples of ids, all texts, all interleavings of generating threads.", "Order axioms quantify over triples; two equal random ids need threads that meet at one point.",
  ["sm_common/include/sm/Id.hpp", "sm_common/include/sm/hash_id.hpp"], "Comparison operators, hex codec.", "id value", "operators, hexString/fromHexString")
p("C02", "String utilities replace, expand and format exactly",
  "For all strings: replace and replace_reverse substitute every occurrence but the first resp. last n, whatever the two characters; substituteEnvVars expands each $(NAME), leftmost first and without rescanning, to the variable's current value and leaves undefined or unclosed ones as they are. leading_pad, padded, fixedFloat, scientific, ts, s_tuple, arrToString, toStream, paddedToString and ensureTrailingBackslash return exactly the text their arguments describe (width, fill, precision with correct rounding, delimiters); showProgress prints the percentage, and refuses a total that is not positive or progress outside of [0, 1].",
  ["inputs", "histories"], "All strings, characters, numbers, widths, precisions and environments.", "Adjacent and final occurrences, values that look like variables, carries in rounding: tests sample a few texts.",
  ["sm_common/include/sm/string_routines.hpp", "sm_common/include/sm/progress_info.hpp", "sm_common/src/progress_info.cpp"], "find/replace loops, stream formatting.", "none", "return values")
p("C03", "Approximate comparisons form a consistent trichotomy",
  "For all finite numbers a, b and every tolerance > 0: exactly one of approximatelyEqual, definitelyLessThan, definitelyGreaterThan holds; equality is reflexive and symmetric, less and greater mirror each other; definitelyLess implies less; two numbers are equal exactly when their distance is at most the tolerance times the larger magnitude, so the answers do not change with a common scale or sign and a larger tolerance keeps equal numbers equal. A tolerance that is not positive is refused with invalid_argument.",
  ["inputs"], "All triples (a, b, tolerance) including zero, negative and equal magnitudes.", "Boundaries of the tolerance are where tests do not look.",
  ["sm_common/include/sm/numerical_comparisons.hpp"], "Relative comparison scaled by larger magnitude.", "none", "return values")

p("C04", "SM_CHECKSAME and isBinaryEqual mean equality of contents",
  "For all objects built from values, nested objects, pointers and shared pointers (null ones included): SM_CHECKSAME(a, b) and SM_CHECKMEMBERSSAME are true exactly when the contents are equal, compared by isBinaryEqual where a type has it and == otherwise, pointers by what they point to; they can be combined with &&, || and ! like any expression. In verbose mode, and only then, the names of the members that differ are printed; the optional argument sets the mode. isBinaryEqual of the kinematics types takes every part (rotation, translation, point, covariance) into account.",
  ["inputs", "histories"], "All pairs of object trees, all combinations of null and non-null pointers, both modes.", "Tests compare random objects that differ everywhere; a part that is ignored shows only when nothing else differs.",
  ["sm_common/include/sm/serialization_macros.hpp", "sm_common/include/sm/is_binary_equal.hpp", "sm_kinematics/src/Transformation.cpp"], "Type traits choose isBinaryEqual or ==; macros print the differing member.", "VerboseChecker mode", "value of the macros, text on cout")
p("C05", "Assertion macros throw the named exception exactly when the condition fails",
  "For all operands that can be ordered: each SM_ASSERT_X throws exactly when its condition is false (NEAR, EQ, FINITE and NOTNAN for NaN too), exactly the exception type named, catchable as its bases; operands may be any expression. The message holds the type in brackets, the call's position (printed file:line: function()), the condition, the values of the operands and the user's text, which is formatted only when needed. The _DBG macros do the same unless NDEBUG is defined without ALWAYS_ASSERT or SM_ALWAYS_ASSERT, and then evaluate nothing.",
  ["inputs", "configurations"], "All macros, operand types, operands around each bound, build modes, exception hierarchies.", "Each macro is a separate text; tests use few values and no compound operands.",
  ["sm_common/include/sm/assert_macros.hpp", "sm_common/include/sm/source_file_pos.hpp"], "if(!condition) build a message, throw.", "none", "exception type and what()")
p("C06", "Rounding, sign and quadratic roots are exact",
  "For all finite numbers: round gives the nearest integer with halves away from zero, rint and lrint agree with it on int-sized resp. all long-sized numbers, sgn is -1, 0 or 1. solveQuadratic returns both real roots with multiplicity, accurately also where b^2 is far larger than 4ac, and throws exactly when there is none.",
  ["inputs"], "All numbers, those next to halves and beyond 2^31 and 2^52 included; all coefficients.", "Ties, neighbours of ties, large numbers and cancelling roots are where formulas fail and tests do not look.",
  ["sm_common/include/sm/round.hpp", "sm_common/include/sm/maths.hpp"], "Closed formulae.", "none", "return values")

p("E01", "Serialised Eigen matrices come back identical in shape and content",
  "For every matrix type (fixed, dynamic, mixed dimensions, row or column major, scalar type) and content, including empty matrices, and each archive kind (binary, text, xml): serialising and deserialising a sequence of matrices yields the same sequence, also into targets that already hold other data. A dynamic target takes the stored shape; loading into a fixed dimension that differs from the stored one raises an exception and leaves the target unchanged.",
  ["inputs", "histories"], "All shape/type combinations and sequences in one archive.", "Shape combinations are combinatorial; tests cover a few square ones.",
  ["sm_eigen/include/sm/eigen/serialization.hpp", "sm_boost/include/sm/boost/serialization.hpp"], "rows, cols, data as array with fixed-size checks.", "archive stream", "matrices after load")

p("E02", "Square roots of covariances and Jacobians by differences are right",
  "For every positive semidefinite matrix A, singular ones, zero rows and zero matrices included, computeMatrixSqrt gives a finite S with S S^T = A, whatever S held before, and leaves A as it was. For every function the Jacobian by differences has one column per parameter of the update, is the derivative at the given point (exact up to rounding for quadratic functions, for every step size), and is the same when computed again.",
  ["inputs"], "All semidefinite matrices and sizes; all quadratic functions, points, update directions and step sizes.", "Rank deficiency, zero pivots and non-square Jacobians are special cases that a test with a random matrix never meets.",
  ["sm_eigen/include/sm/eigen/matrix_sqrt.hpp", "sm_eigen/include/sm/eigen/NumericalDiff.hpp"], "LDLT with permutation; central differences column by column.", "none", "returned matrices")
p("E03", "Checks and comparisons of matrices decide as documented for every number",
  "SM_ASSERT_MAT_IS_FINITE throws the given exception exactly when an entry is infinite or not a number and reports where; its _DBG form is inactive exactly in builds with NDEBUG. compareRelative is symmetric, accepts exactly the numbers whose relative difference is within the given percentage, tiny ones excepted, and no NaN or mismatched infinity. The matrix assertions for tests (ASSERT_DOUBLE_MX_EQ, assertEqual, assertNear, expectNear, assertFinite) fail exactly when the shapes differ or an entry does.",
  ["inputs"], "All shapes, positions of the offending entry, finite and non-finite numbers, tolerances.", "A comparison that passes when it should fail makes every test that uses it blind; nothing tests the comparison itself.",
  ["sm_eigen/include/sm/eigen/gtest.hpp", "sm_eigen/include/sm/eigen/assert_macros.hpp"], "Loops over the entries.", "none", "exceptions, gtest results")

KIN = "sm_kinematics/"
p("K01", "Rotation representations are one group: all conversions and products agree",
  "For all rotations: quaternion product, inverse, identity and vector rotation correspond to matrix product, transpose, identity and matrix-vector product (in the package's left-handed convention); quat2r and r2quat are inverse up to sign with non-negative scalar part; quatPlus/quatOPlus matrices equal the products; axis-angle, Euler angle and principal axis constructions denote the same rotation as their matrix; angles are recovered modulo 2 pi. This holds for the smallest rotations and next to half turns too.",
  ["inputs", "histories"], "All group words over the generators, all quadrants and quaternion sign branches.", "Branch selection (largest component, sign) depends on the rotation; random tests hit the equality and half-turn cases with probability zero.",
  [KIN+"src/quaternion_algebra.cpp", KIN+"src/rotations.cpp", KIN+"src/EulerAnglesZYX.cpp", KIN+"src/EulerAnglesYawPitchRoll.cpp", KIN+"src/RotationVector.cpp", KIN+"src/EulerRodriguez.cpp"],
  "Closed formulae.", "none", "returned quaternions and matrices")
p("K02", "Transformations form a group acting on points",
  "For all histories of composition, inversion and update starting from any transformations: T(a*b) = T(a)T(b), T(inverse) is the matrix inverse, identity is neutral, applying a product equals applying its factors in turn for Euclidean, 4-vector and homogeneous points, rotate ignores translation, construction from and conversion to matrices round-trip, the stored quaternion stays normalised, interpolation hits both end points, clamps outside and is symmetric in swapping them. Point clouds and directions that differ by a motion give that motion back; those that no motion fits give the best rotation in the (weighted) least squares sense.",
  ["inputs", "histories"], "All words over generators of the group, all point kinds including points at infinity.", "Laws quantify over all elements and all products.",
  [KIN+"src/Transformation.cpp", KIN+"src/transformations.cpp", KIN+"src/HomogeneousPoint.cpp"], "Quaternion plus translation arithmetic.", "_q_a_b, _t_a_b_a", "T(), C(), t(), products with points")
p("K03", "Uncertain transformations and points propagate covariance exactly to first order",
  "For all uncertain transformations and points: composition, inversion and application compute the mean like the certain types and the covariance by the corresponding adjoint/Jacobian congruence (operands taken as independent); products with a certain operand equal products with zero covariance; U and UOplus are inverse views of the same covariance; sums and differences of homogeneous points denote the Euclidean ones for all scales.",
  ["inputs", "histories"], "All words over generators with all covariances.", "Cross-covariance blocks and scale weights vanish in simple tests.",
  [KIN+"src/UncertainTransformation.cpp", KIN+"src/UncertainHomogeneousPoint.cpp", KIN+"src/homogeneous_coordinates.cpp"], "boxTimes/boxMinus congruences.", "_U", "U(), U3(), U4(), UOplus()")
p("K04", "Angular velocities and Jacobians of rotation parameters are exact derivatives",
  "For every parameterisation (Euler ZYX, yaw-pitch-roll and ZXY angles, Euler-Rodriguez, rotation vectors) and all parameters, the matrix S maps parameter rates to the angular velocity of the rotation the parameters denote, however it is asked for, and angularVelocityAndJacobian returns S pdot with its derivatives by parameters and rates. For rotation vectors the inverse S, expDiffMat, logDiffMat, quatExpJacobian, quatLogJacobian and quatLogJacobian2 are the derivatives of exponential and logarithm and invert each other. All of them are finite and accurate at zero, near zero, near half turns and beyond full turns.",
  ["inputs"], "All parameters, several turns, and limits towards zero; all rates.", "Derivatives are checked by tests with finite differences at random points to a few digits; singular and nearly singular points and sign errors in rarely weighted entries escape.",
  [KIN+"src/EulerAnglesZYX.cpp", KIN+"src/EulerAnglesYawPitchRoll.cpp", KIN+"src/EulerAnglesZXY.cpp", KIN+"src/EulerRodriguez.cpp", KIN+"src/RotationVector.cpp", KIN+"src/quaternion_algebra.cpp"],
  "Closed formulae with series near zero.", "none", "returned matrices")
p("K05", "Kinematic objects keep their numbers through copies, archives and files",
  "For every content of a Transformation, UncertainTransformation, HomogeneousPoint, UncertainHomogeneousPoint or UncertainVector: saving it to a text, binary or xml archive or file and loading it, alone or among other objects, in whatever target, gives exactly the same numbers, nothing else changes, and an archive of a newer class version is refused without changing the object; isBinaryEqual is true exactly if all numbers agree. setRandom gives unit quaternions or points, covariances that are symmetric and positive (semi)definite, and stays within the given translation and rotation maxima. transformationFromPropertyTree reads quaternions of any length and translation from their keys and throws if one is missing.",
  ["histories", "inputs"], "All types, contents, formats and sequences of objects in an archive.", "Tests round trip one random object per type alone; they do not see contents a random object never has.",
  [KIN+"src/Transformation.cpp", KIN+"src/UncertainTransformation.cpp", KIN+"src/HomogeneousPoint.cpp", KIN+"src/UncertainHomogeneousPoint.cpp", KIN+"include/sm/kinematics/Transformation.hpp", KIN+"include/sm/kinematics/UncertainTransformation.hpp", KIN+"include/sm/kinematics/HomogeneousPoint.hpp", KIN+"include/sm/kinematics/UncertainHomogeneousPoint.hpp", KIN+"include/sm/kinematics/UncertainVector.hpp", KIN+"include/sm/kinematics/property_tree.hpp"],
  "Members written to and read from the archive in order, base class first.", "_q_a_b, _t_a_b_a, _ph, _v, _E, _U", "numbers of the objects, results of isBinaryEqual")
p("R01", "Seeded random numbers are a pure function of seed and call sequence",
  "For every history of seed() and draws: after seed(s) the following draws depend only on s and the sequence of draw functions called since, whatever was drawn before, in whichever process and from whichever thread (one at a time); rand/uniform and randn/normal are aliases that draw from the same stream, and a vector of normal numbers draws them one by one. Uniform draws lie in [0,1), randLU and randLUi in their half-open ranges, including ranges wider than the largest int, and spread evenly over them; different seeds give different streams.",
  ["histories"], "All interleavings of uniform, normal and ranged draws and re-seeding.", "Cached state in the normal generator makes reproducibility history dependent.",
  ["sm_random/src/random.cpp"], "Shared Mersenne twister, distributions reset at seed.", "generator and distribution state", "drawn numbers")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        if len(x["title"]) > 80: print("TOO LONG", x["title"])
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
