#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=hook)))

p("C01", "Stop is final: after Stop(c) returns, c receives nothing more",
  "Once a call to Stop(c) has returned, no further event is ever sent to c (unless c is passed to Watch again), no matter how many events are still queued or being dispatched inside the library or arrive later. Stop(c) also removes c from every watchpoint, recursive or not, however many Watch calls registered it, and does not affect what any other channel receives.",
  ["schedules", "histories"],
  "every interleaving of Stop with the reader, consumer, dispatch and directory-following goroutines and with other callers, for every short history of Watch calls and filesystem changes before it",
  "TestStop is skipped; TestNotifyExample calls Stop only when the system is idle (Drain sleeps), so no test ever overlaps Stop with an in-flight event.",
  ["notify.go", "tree_nonrecursive.go", "tree_recursive.go", "watchpoint.go"],
  [("tree write lock held over the walk that removes c; events are dispatched under the read lock", "tree_nonrecursive.go Stop/dispatch, tree_recursive.go Stop/dispatch")],
  [("watchpoint", "channel -> event set of one path", "watchpoint.go")], ["the user channel", "return of Stop"])

p("C02", "Every event goes to exactly the channels registered for it",
  "For any history of Watch and Stop calls, a filesystem event with path p is delivered exactly once per watchpoint whose event set contains it, where the watchpoints considered are p itself, p's parent directory, and every recursive watchpoint on an ancestor of p; no other channel receives it. Events delivered carry only event values the receiving channel asked for on that watchpoint (internal marker bits never appear) and the absolute clean path of the changed file. (Directories moved out of, or replaced within, a recursively watched tree are the business of C03.)",
  ["histories", "inputs"],
  "every sequence of Watch/Stop calls up to the depth bound over nested, sibling and prefix-sharing paths, several channels and several event sets, followed by every event on every path",
  "The tree tests replay two fixed tables of calls; wrong event-set unions, prefix matching or per-channel masks only show for particular combinations of registrations.",
  ["watchpoint.go", "tree_nonrecursive.go", "node.go", "util.go", "watchpoint_other.go", "event.go"],
  [("per-node channel map with total set under the nil key", "watchpoint.go Add/Del/Dispatch"), ("path walk from root to parent", "node.go WalkPath"), ("matches/eventmask", "watchpoint_other.go")],
  [("watchpoint tree", "path -> watchpoint", "node.go")], ["user channels"])

p("C03", "A recursive watch covers every directory below it, as the tree changes",
  "While a recursive watchpoint \"dir/...\" is registered, every directory that exists anywhere below dir (not reached through a symlink) is covered once the library has processed the pending events: a later change directly inside it that matches the event set is delivered with its current path. This holds for directories that existed at Watch time and for those created, deleted and re-created, or renamed within the tree afterwards, in any order and however these changes interleave with the library's own work and with other Watch and Stop calls.",
  ["schedules", "histories"],
  "every short history of mkdir/rmdir/rename below the watched root, interleaved in every way with event reading, dispatch, directory following, Watch and Stop, for every event set the recursion can be requested with",
  "TestRecreated and TestRenameInRoot exercise one history each with sleeps between steps; the coverage gap appears only when a change overlaps the traversal or a directory reappears under a used name.",
  ["tree_nonrecursive.go", "node.go", "watcher_inotify.go"],
  [("internal goroutine adds watches for created directories", "tree_nonrecursive.go internal/recFunc"), ("watch first, then list", "node.go AddDir"), ("descriptor map", "watcher_inotify.go watch/Unwatch")],
  [("inotify.m", "watch descriptor -> path, mask", "watcher_inotify.go")], ["user channel after a probe file is created in each directory"])

p("C04", "OS watches follow the registrations and are all released by Stop",
  "After every Watch or Stop call the operating system is watching, for each path, at least all events some remaining registration needs there (for a recursive registration: on each existing directory below it). Once the last channel needing a path has been stopped, no OS watch remains on it; in particular when every channel has been stopped no OS watch remains at all, and the same paths can be watched again with full effect.",
  ["histories", "schedules"],
  "every sequence of Watch/Stop calls up to the depth bound over nested and overlapping recursive and plain paths with different event sets, in each prefix",
  "The recorded-call tests check two fixed sequences with a mock watcher; expand, shrink and release decisions depend on which other channels overlap.",
  ["tree_nonrecursive.go", "watchpoint.go", "watcher_inotify.go"],
  [("event-set diffs choose Watch, Rewatch or Unwatch", "watchpoint.go Add/Del, tree_nonrecursive.go watchDelMin")],
  [("t.rec entry", "event set needed by recursive watchpoints on a node", "tree_nonrecursive.go")], ["set of OS watches and their masks"])

p("C05", "A failed Watch reports an error and leaves nothing behind",
  "If setting up a watch fails, because the path does not exist, an event value is unsupported or the operating system refuses (descriptor or watch limit, permission), Watch returns a non-nil error and has no lasting effect: the channel receives nothing it would not have received without the call, registrations of other channels and of the same channel keep working, and a later identical Watch can succeed. Watch with an empty event list, or with an event whose value is zero, registers nothing on a plain path. If Watch returns nil for a plain path, the OS watch really is in place (for as long as that file itself is neither deleted nor replaced).",
  ["fault_sequences", "histories"],
  "every position at which one (or every later) OS call fails, in every short history of Watch and Stop calls",
  "No test injects a failure of the underlying watcher; TestUnknownEvent only checks that an error is returned.",
  ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go", "watchpoint.go"],
  [("rollback after watcher error", "tree_nonrecursive.go watch/watchrec"), ("event mask validation, lazy initialisation", "watcher_inotify.go watch/lazyinit")],
  None, ["return value of Watch", "user channels", "OS watches"])

p("C06", "Watch paths are resolved to the real path of the file",
  "Watch accepts any spelling of an existing path (relative, with redundant separators or dot segments, through symbolic links, with or without the trailing \"...\") and watches the file the operating system would resolve that path to; events are reported under that real path, and the same file reached by two spellings is one watchpoint (a trailing separator after a non-directory is ignored). It returns an error, and always terminates, for a path that does not exist or whose symbolic links form a cycle.",
  ["inputs"],
  "every small directory structure with symbolic links (relative, absolute, dot-dot, chained, cyclic, dangling) and every path spelling up to the bound, including long paths",
  "Five path tests use single fixed layouts (absolute link, one relative link, one two-element cycle).",
  ["util.go"],
  [("component-wise link resolution with an iteration limit", "util.go canonical/cleanpath")], None,
  ["error of Watch", "path of events", "OS watch location"])

p("C07", "inotify events are translated faithfully in both directions",
  "On Linux, for every requested event set, the kernel is asked for exactly what is needed and every kernel event yields precisely the requested portable event it means (created or moved in: Create; removed: Remove; modified: Write; moved away: Rename) and the requested raw In* event, each with the right path, a non-nil Sys value and the kernel's mask, wd and cookie, and nothing that was not requested. This holds for any batch of kernel events, any file-name length and any split of the queue over reads; ignored-watch and overflow records yield nothing and never disturb neighbouring events.",
  ["inputs", "histories"],
  "every event set (all combinations of portable and raw bits) against every kernel event mask, and every short batch of kernel records with short, padded, maximal and absent names, in any read split",
  "TestWatcherInotify accepts any one of several events per action; most of the 65536 request sets and multi-record batches are never exercised.",
  ["watcher_inotify.go", "event_inotify.go"],
  [("encode/decode", "watcher_inotify.go"), ("record parsing", "watcher_inotify.go read"), ("filtering and path join", "watcher_inotify.go transform")],
  None, ["events received from the watcher"])

p("C08", "Nothing blocks or crashes: slow receivers, any schedule",
  "Watch and Stop always return, no goroutine of the library is ever stuck for good and the library never panics, under any interleaving of concurrent Watch and Stop calls with filesystem changes. A channel that is full or never read only loses its own events: every other channel still receives every event it is due, and Watch and Stop stay usable.",
  ["schedules", "histories"],
  "every interleaving up to the bound of several callers, filesystem changes and the library's goroutines, with full, unbuffered and draining user channels and with internal queues of minimal size",
  "The tests call Watch and Stop from one goroutine with large buffers and never fill a channel.",
  ["watchpoint.go", "tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go"],
  [("non-blocking send to user channels", "watchpoint.go Dispatch"), ("lock order tree -> watcher; queues drained without the tree lock", "tree_nonrecursive.go, watcher_inotify.go")],
  None, ["termination of calls", "panics", "other channels"])

p("C09", "Concurrent use is free of data races",
  "Watch and Stop may be called from any number of goroutines at any time, concurrently with event delivery: no unsynchronised conflicting accesses to shared memory occur in any interleaving, also during the first Watch that starts the OS watcher and during close, with any backend. The result of concurrent calls is that of some sequential order of them.",
  ["schedules"],
  "every interleaving up to the bound of 2-3 callers with event delivery, each checked for happens-before races and for equivalence with a sequential order of the calls",
  "CI runs with -race observe one schedule per run and almost no concurrency; all tests call Watch/Stop from a single goroutine.",
  ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go", "watcher_trigger.go", "watcher_kqueue.go", "watcher_fen.go", "watcher_fen_cgo.go", "watcher_fsevents_cgo.go", "watcher_readdcw.go", "watchpoint.go", "node.go"],
  [("tree RWMutex", "tree_nonrecursive.go rw"), ("watcher RWMutex and atomics", "watcher_inotify.go")], None,
  ["race reports per schedule", "final registrations"])

p("C10", "On natively recursive backends delivery and native watches stay exact",
  "On backends that watch recursively by themselves, any history of Watch and Stop calls keeps the set of native watches such that every registration is covered: each registered path has a native watch on itself or a recursive one on an ancestor whose event set includes the registered one. The native watch operations issued are always valid (no watch of an already watched path, no change or removal of one that is not watched or with a wrong previous event set), all native watches are gone when all channels are stopped, and each event is delivered exactly once per matching watchpoint and to no other channel.",
  ["histories", "inputs"],
  "every sequence of Watch/Stop calls up to the depth bound on nested recursive and plain paths with several channels and event sets, followed by every event, against a strict model of a natively recursive watcher",
  "Two fixed call tables; merging and splitting of overlapping watchpoints is history dependent.",
  ["tree_recursive.go", "watchpoint.go", "node.go", "watcher.go"],
  [("parent lookup, inactive watchpoints, child merging", "tree_recursive.go Watch/Stop")],
  [("Child[\"\"]", "inactive registrations of a covering node", "tree_recursive.go")], ["calls on the watcher", "user channels"])

p("C11", "Closing the watcher releases everything; initialisation is all or nothing",
  "Closing a watcher terminates, stops all its goroutines, releases every OS watch and file descriptor it opened, and no event is reported afterwards, also when events are pending or arriving; closing twice or closing an unused watcher is harmless. If starting the watcher fails part-way for lack of OS resources, Watch returns the error, no descriptor is leaked, and a later Watch starts it properly.",
  ["schedules", "fault_sequences"],
  "every interleaving of Close with event reading and dispatch, every position of an OS failure during start-up",
  "Tests close an idle watcher and never check descriptors or goroutines; start-up failures are never provoked.",
  ["watcher_inotify.go", "tree_nonrecursive.go"],
  [("pipe wakes the reader which closes all descriptors; wait group", "watcher_inotify.go Close/loop"), ("cleanup in lazyinit", "watcher_inotify.go lazyinit/epollinit/epollclose")],
  None, ["descriptor table", "goroutines", "events after Close"])

p("C12", "kqueue backend reports each change of watched files and directories",
  "On kqueue (BSD, macOS without cgo), where only single files can be watched, watching a directory reports every requested change made directly in it while the watcher keeps up: a Create for each new entry exactly once, whatever was there under its name before, and Write, Remove and Rename for the entries and the directory itself, each as a single event, and nothing for unrelated paths or events. Whatever the order and timing of changes, once all events are handled exactly the files requested, as they are then, are open, each once. Watching, unwatching and re-watching keep exactly the requested files open: an operation that fails changes nothing, after Unwatch or Close no descriptor, record or goroutine for them remains and no descriptor is closed twice, and paths still watched for another reason keep reporting. Closing never blocks, at whatever moment it is called.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence up to the depth bound of watch, unwatch and rewatch calls and file creations, writes, removals and renames in a small tree, every single failure of a system call, and every interleaving (up to a preemption bound) of changes, calls and Close, against a simulated kernel queue",
  "The kqueue tests do not run on this platform and are fixed scenarios elsewhere.",
  ["watcher_trigger.go", "watcher_kqueue.go", "event_kqueue.go", "event_trigger.go", "tree_nonrecursive.go"],
  [("rescan of a written directory", "watcher_trigger.go dir"), ("direct/indirect event sets", "watcher_trigger.go singlewatch/singleunwatch"), ("replaced entries", "watcher_trigger.go replaced")],
  None, ["events sent by the watcher", "open descriptors"])

p("C13", "FSEvents backend filters events by path, depth and event set",
  "On macOS (FSEvents), for every sequence of stream callbacks a watch forwards exactly the requested single events for paths at the watched path or below it (for a non-recursive watch: at most one level below), never for a sibling sharing the path as a prefix, and nothing from before the stream's history was flushed. This includes the root directory, and goes on when the system's event numbers start again. Changing the event set or recursion of a watch takes effect for all later callbacks, and a watch that is removed or relocated reports nothing under the old path; an operation that fails leaves the watches as they were, and each removed watch releases its native stream.",
  ["inputs", "histories"],
  "every batch of callback records over a small path alphabet and all flag combinations of interest, and every sequence of watch operations up to the depth bound",
  "The FSEvents tests do not run on this platform; the filter is checked by a few fixed flag sequences.",
  ["watcher_fsevents.go", "watcher_fsevents_cgo.go", "event_fsevents.go"],
  [("path/depth/event filter", "watcher_fsevents.go watch.Dispatch"), ("stale flag stripping", "watcher_fsevents.go watch.strip")],
  None, ["events sent by the watcher"])

p("C14", "ReadDirectoryChangesW backend keeps watches consistent",
  "On Windows, after every sequence of watch, rewatch (of event set, recursion or path) and unwatch operations, interleaved in any way with changes and with completions from the system, each watched directory is being read with exactly the latest requested filter and recursion, and each unwatched one has no open handle; an operation that fails leaves the watches as they were, and no operation fails, or is refused, because of when it is called. Every change made while a directory is watched causes exactly the requested events for its path, also when several changes arrive in one completion, and an event that was requested before and after a rewatch is not lost during it. No handle is closed twice or used after closing, and Close closes every handle and ends the goroutine at whatever moment it is called.",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of operations and changes up to the depth bound, every single failure of a system call, and every interleaving (up to a preemption bound) of operations, changes and completions, against simulated directory handles and a completion port",
  "The Windows tests do not run on this platform and are fixed scenarios with sleeps elsewhere.",
  ["watcher_readdcw.go", "event_readdcw.go", "watchpoint_readdcw.go", "tree_recursive.go"],
  [("completion loop, grips with outstanding reads", "watcher_readdcw.go loop"), ("rewatch opens new handles before closing the old", "watcher_readdcw.go rewatch")], None,
  ["handles and outstanding reads", "events sent by the watcher"])

p("C15", "Event values are distinct and print as exactly the events they contain",
  "On every backend the portable event values, the backend's own event values and the library's internal marker bits are pairwise distinguishable, so that a set built with bitwise OR contains exactly the events put in. The text form of any set lists exactly the names of the events it contains, each once.",
  ["inputs", "configurations"],
  "every subset of the event bits, on every backend",
  "TestEventString checks four sets on one backend.",
  ["event.go", "event_inotify.go", "event_kqueue.go", "event_fen.go", "event_fsevents.go", "event_readdcw.go", "event_stub.go", "util.go"],
  [("bit assignment per backend", "event_*.go"), ("name tables", "event.go estr/osestr")], None, ["Event.String()", "bit values"])

p("C16", "FEN backend reports each change of watched files and directories",
  "On Solaris and illumos (FEN), where only single files can be watched and each event ends the association it comes from, watching a directory reports every requested change made directly in it while the watcher keeps up: a Create for each new entry exactly once, and Write, Remove and Rename for the entries and the directory itself, also when a file takes the place of another one, each as a single event, and nothing for unrelated paths or events, also when event sets grow or shrink or symlinks (which stand for the files they lead to, and are skipped when they lead nowhere) are among the entries. Whatever the order and timing of changes, once all events are handled exactly the requested files have exactly one association, with the events needed. An operation that fails changes nothing; after Unwatch or Close no association, record or goroutine for the files remains, paths still watched for another reason keep reporting, and every native object is freed exactly once and not read afterwards. Closing never blocks, at whatever moment it is called.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence up to the depth bound of watch, unwatch and rewatch calls and file creations, writes, removals and renames in a small tree, every single failure of a system call, and every interleaving (up to a preemption bound) of changes, calls and Close, against a simulated event port",
  "The FEN tests do not run on this platform and are fixed scenarios elsewhere.",
  ["watcher_fen.go", "watcher_fen_cgo.go", "event_fen.go", "watcher_trigger.go", "event_trigger.go"],
  [("association life cycle", "watcher_fen.go Watch/Unwatch/Watched"), ("native file objects", "watcher_fen_cgo.go portAssociate/portDissociate/portGet"), ("rescan of a written directory", "watcher_trigger.go dir")],
  None, ["events sent by the watcher", "associations of the port", "native allocations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
