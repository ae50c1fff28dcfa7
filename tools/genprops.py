#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A completed walk visits every subscribed node exactly once",
  "For any directory tree, a walk with no filter, skip, depth limit or fault invokes the client callback exactly once for every node under the requested root that the subscription selects, and for nothing else. Universal selects the root and everything below it, directories (with or without their files) selects directories only, and files selects files only; a root that is itself a file is visited exactly when files are selected. This holds regardless of the shape of the tree, the sort options and which lifecycle handlers are registered.",
  ["inputs", "configurations"], "all finite trees x all four subscriptions x sort/sub-path/handler options",
  "The tests walk one fixed music-library tree; coverage over arbitrary shapes (empty directories, file roots, deep chains, odd names) is never exercised.",
  ["internal/kernel/navigator-agent.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go", "internal/kernel/contents.go", "internal/kernel/navigation-vapour.go", "internal/kernel/mediator.go"],
  [("recursive travel over picked entries", "internal/kernel/navigator-agent.go:travel"), ("entry selection per subscription", "internal/kernel/navigation-vapour.go:Pick"), ("subscription gate", "internal/kernel/navigator-files.go:Traverse")],
  [("Entries", "the entries of a directory that will be travelled", "internal/kernel/navigation-vapour.go")],
  ["client callback invocations", "navigate result error"])

p("C02", "Visit order is deterministic, pre-order and follows the sort options",
  "A walk visits a directory before its descendants and finishes one child's subtree before starting the next; inside a directory, children come directories first or files first as configured, each group ordered by name: case-insensitively by default, case-sensitively when that is requested. The sequence depends only on the tree and these options, never on the order in which the file system happens to list entries. A custom sort hook replaces the name ordering inside each group.",
  ["inputs", "configurations"], "all trees, all listing orders, both group orders, both case modes",
  "Tests check set membership and a couple of fixed sequences on a sorted in-memory file system; listing permutations and mixed-case names are not explored.",
  ["internal/kernel/contents.go", "internal/kernel/navigation-vapour.go", "tapable/hooks.go", "pref/options-navigation-behaviours.go", "internal/opts/binder.go", "internal/opts/get-push.go"],
  [("group and sort entries", "internal/kernel/contents.go"), ("default sort hooks", "tapable")],
  None, ["client callback order", "descend/ascend event order"])

p("C03", "Depth limit and no-recurse bound exactly what is visited",
  "With a depth limit d > 0 every selected node whose depth (root is 0) is at most d is visited exactly once and no deeper node is visited, announced or descended into; without recursion, only the root and its immediate children are. With no limit the whole tree is covered.",
  ["inputs", "configurations"], "all trees x limits x subscriptions, alone and combined with hibernation, filters and sort options",
  "Tests use two depth values on a fixed tree.",
  ["internal/kernel/mediator.go", "internal/level/periscope.go", "pref/options-navigation-behaviours.go"],
  [("descend gate", "internal/kernel/mediator.go:descend"), ("depth tracking", "internal/level/periscope.go")],
  [("depth", "current depth of the traversal", "internal/level/periscope.go")],
  ["client callback invocations", "descend events"])

p("C04", "Every node handed to a client carries correct identity and position",
  "Each node's full path, name, depth, parent, directory/file kind, scope (tree, top, intermediate, leaf, directory, file) and path relative to the root agree with its actual position in the tree. A directory is a leaf exactly when it has no sub-directories, the parent is the node of the enclosing directory, and the relative path is that of the enclosing directory within the root, with its trailing separator kept or removed as configured, for any root name including non-ASCII ones; with the ready-made alternative hook the relative path is the node's own. An entry whose file information cannot be obtained is still handed over, carrying that error and no information; every other node carries its information and no error. Renaming or reconfiguring unrelated things never alters this.",
  ["inputs", "configurations"], "all trees, names, roots, sub-path options and subscriptions",
  "Tests spot-check scope, depth and sub-path at a few nodes with ASCII names.",
  ["internal/kernel/extend.go", "core/node.go", "tapable/hooks.go", "internal/level/periscope.go", "internal/kernel/mediator.go"],
  [("extension computation", "internal/kernel/extend.go"), ("scope/depth", "internal/level/periscope.go"), ("sub-path hooks", "tapable")],
  None, ["node passed to the callback", "node passed to lifecycle handlers"])

p("C05", "Lifecycle notifications bracket the walk and nest like the tree",
  "The begin notification precedes every other event, carries the requested root and occurs once; the end notification comes last, occurs once for each completed navigation and carries its result. Every descend is matched by exactly one ascend of the same node, the pairs nest properly, and the events of a node's subtree (including its client invocation) lie between its descend and its ascend. Only what takes part in the walk is announced, and a walk of directories announces no files below its root. This balance also holds when the walk is cut short by errors, skips or depth limits.",
  ["inputs", "configurations", "fault_sequences"], "all trees x subscriptions x early-termination points",
  "Tests count events on full walks of a fixed tree; balance under early termination is not checked.",
  ["internal/kernel/mediator.go", "life/events.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go", "driver.go"],
  [("descend/ascend notifications", "internal/kernel/mediator.go"), ("begin/end", "internal/kernel/bootstrap.go")],
  None, ["lifecycle handlers"])

p("C06", "Reported metrics equal what happened and the result is self-consistent",
  "The navigation result's files-invoked and directories-invoked counts equal the number of callback invocations made for files and directories, the filtered-out counts equal the nodes rejected by the filter, and the child counts equal the children delivered and rejected. The counts are also right when the walk ends early, and each navigation starts from zero, except that a session which takes up an interrupted one with the spawn strategy goes on counting deliveries from where that one stopped. A walk that finishes reports itself complete with a start time and an elapsed duration that are consistent.",
  ["inputs", "configurations", "histories"], "all trees x filters x early-termination points; repeated navigations in one process; interrupted and resumed navigations",
  "Tests compare counters with hard-coded numbers for one tree.",
  ["internal/kernel/mediator.go", "internal/enclave/supervisor.go", "internal/enclave/kernel-result.go", "internal/feat/filter", "internal/feat/nanny", "session.go"],
  [("metric ticks", "internal/enclave/supervisor.go"), ("result construction", "internal/kernel/navigator-agent.go:Result")],
  None, ["result metrics", "result session"])

p("C07", "Callback errors and skip requests stop exactly what they say",
  "An ordinary error returned by the callback stops the walk at once: no further callback runs and the same error comes out of the navigation. A skip-directory request from a directory's callback omits exactly that directory's descendants; from a file's callback the walk still goes on with the rest of the tree outside that file's directory. A skip-all request ends the walk early with no further callbacks, and neither kind of skip is reported as a failure.",
  ["inputs", "fault_sequences"], "every tree x every node as the point of error/skip x all subscriptions",
  "Tests inject a skip at one or two hand-picked directories.",
  ["internal/kernel/navigator-agent.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go", "internal/kernel/guardian.go", "driver.go"],
  [("error interpretation while travelling", "internal/kernel/navigator-agent.go:travel")],
  None, ["client callback sequence", "navigation error"])

p("C08", "A node filter decides callbacks only, by documented matching rules",
  "With a node filter, the callback runs for exactly the selected nodes that match: glob, extended glob, regex, custom and poly filters each follow their documented matching rule, negation inverts it, and a node outside the filter's scope matches or not as the if-not-applicable setting says. Filtering never prunes navigation: descendants of a rejected directory are still considered. The unmatched nodes are counted, never delivered. The filter handed back through the sink is the one that was asked for and accepts every node delivered; what it says of its scope and of whether it applies to a node is true.",
  ["inputs", "configurations"], "all trees x filter kinds x patterns x scope x negation x if-not-applicable x subscriptions",
  "Tests run table entries on one tree; combinations of scope, negation and applicability across shapes are not explored.",
  ["internal/filtering", "internal/feat/filter", "core/filtering.go"],
  [("filter match", "internal/filtering"), ("filter plugin", "internal/feat/filter")],
  None, ["client callback invocations", "result metrics"])

p("C09", "Directories-with-files delivers each directory with its own files",
  "When subscribing to directories with files, each directory's callback receives exactly the files that are immediate children of it, in the configured order, and nothing else; files get no callback of their own. That is the case when no filter is set; with a child filter only the matching files are delivered, and the found and rejected files are counted. Files of other directories never leak in. A child filter handed back through the sink is the one asked for and accepts every child delivered.",
  ["inputs", "configurations"], "all trees x child filter kinds x patterns x negation x node filter combinations",
  "Tests use fixed counts on one tree.",
  ["internal/feat/nanny", "internal/feat/filter", "internal/filtering/child.go", "internal/kernel/navigator-directories.go"],
  [("children assignment", "internal/feat/nanny"), ("child matching", "internal/filtering/child.go")],
  None, ["node children seen by the callback", "result metrics"])

p("C10", "Hibernation delivers exactly the window between wake and sleep",
  "With a wake condition nothing is delivered until the first selected node that satisfies it; delivery then continues until the first later node that satisfies the sleep condition, after which nothing is delivered. The waking node is delivered exactly if inclusive wake is on and the sleeping node exactly if inclusive sleep is on; with no wake condition the walk starts awake and with no sleep condition it never sleeps. Wake and sleep are each announced at most once, at the node that caused them and with the description of their condition, and a sleeping or dormant walk still respects every other rule.",
  ["inputs", "configurations"], "all trees x all wake/sleep node choices x inclusivity x subscriptions",
  "Tests cover a handful of wake/sleep pairs.",
  ["internal/feat/hiber", "internal/kernel/guardian.go"],
  [("hibernation state machine", "internal/feat/hiber")],
  [("state", "pending/active/retired", "internal/feat/hiber")], ["client callback invocations", "wake/sleep events"])

p("C11", "Sampling visits exactly the requested first or last children",
  "With slice sampling each directory contributes its first (or last, when reversed) so-many files and first (or last) so-many directories in listing order, or all when it has fewer, and traversal covers exactly those, recursively. With filter sampling only entries accepted by the sampling filter count towards the quota, and a custom sampler's choice is honoured, within the kind of entry it is made for. Nodes not sampled are neither delivered nor descended into.",
  ["inputs", "configurations"], "all trees x quotas x direction x sampling type x subscriptions",
  "Tests use quota 1-3 on one tree.",
  ["internal/feat/sampling", "internal/filtering/sample.go"],
  [("sampling read hook", "internal/feat/sampling")],
  None, ["client callback invocations"])

p("C12", "Read and status failures are contained and reported to the right handler",
  "If the root cannot be queried no callback runs and the navigation's error is whatever the fault handler makes of that failure, which is told the path and cause. If a directory cannot be read, the skip handler is asked about that directory with that error and is shown what is in it; its answer decides, and by default the rest of the tree is still visited once each. An entry whose file information cannot be obtained is still visited. A failure in one directory never corrupts, repeats or omits the rest of the walk.",
  ["fault_sequences", "inputs"], "every tree x every directory as failing read point x handler answers x subscriptions",
  "Tests inject one failure with one handler.",
  ["internal/kernel/navigator-agent.go", "internal/kernel/contents.go", "pref/defects.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go"],
  [("fault accept", "internal/kernel/navigator-agent.go:top"), ("skip ask", "internal/kernel/navigator-universal.go:Traverse")],
  None, ["fault/skip handler calls", "client callback sequence", "navigation error"])

p("C13", "A panic in the callback saves a faithful, resumable session state",
  "If the callback panics at any node, the root included, navigation does not crash: it stops, saves a session file, and returns an error naming that file. The saved state records the original root, the node being visited, its depth and kind, the subscription, the counts of invoked files and directories so far and the options in force. If the state cannot be saved the error says so and names no file, and a custom panic handler decides what is reported.",
  ["crash_points", "inputs", "configurations"], "every tree x every callback invocation as panic point x options",
  "Tests panic at one node with one set of options and check the error only.",
  ["internal/kernel/navigator-agent.go", "internal/kernel/author.go", "internal/kernel/vex.go", "internal/persist/marshaler.go"],
  [("recover and rescue", "internal/kernel/navigator-agent.go:travel"), ("state writing", "internal/kernel/author.go")],
  [("ActiveState", "the persisted session", "core")], ["returned error", "saved file contents"])

p("C14", "Resuming visits exactly the part of the tree not yet finished",
  "Resuming from a saved state, with either strategy, invokes the callback exactly for the selected nodes at or after the saved position in the visit order of an uninterrupted walk, each exactly once and in that order, and for nothing before it. The nodes keep the same depth and path as in the uninterrupted walk, and the saved sort, depth, filter and sub-path options keep applying, unless the resume gives others in their place; hooks are those given to the resume. Joined with what ran before the interruption this covers the whole tree (sessions that also use hibernation are excepted).",
  ["crash_points", "histories", "inputs"], "every tree x every interruption point x both strategies x subscriptions x sort options",
  "Tests resume at a few fixed nodes of one tree.",
  ["internal/feat/resume", "internal/kernel/navigator-agent.go", "internal/kernel/contents.go", "internal/opts/load.go"],
  [("fastward filter", "internal/feat/resume"), ("spawn conclude", "internal/feat/resume")],
  None, ["client callback sequence on resume"])

p("C15", "Saved options survive a save and load unchanged",
  "Every persistable option value (navigation behaviour, sampling, node, child and sample filters, hibernation and worker-count settings) written to a session file comes back equal when that file is loaded, for any combination of settings, and the position and session facts come back with it. Loading a corrupted or inconsistent file yields an error rather than a silently different configuration. Saving does not alter the options in memory.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of persistable option values whose text is valid Unicode; files that are torn at any point, not well-formed, lack a section or hold a value of the wrong kind; writes that fail",
  "Tests toggle one field at a time against expected errors.",
  ["internal/persist", "internal/opts/json", "pref"],
  [("marshal/unmarshal", "internal/persist/marshaler.go"), ("comparison", "internal/persist/comparison.go")],
  None, ["loaded options", "load error"])

p("C16", "A concurrent run performs the same work exactly once and terminates",
  "Running with a worker pool invokes the callback exactly once for every node a sequential walk would invoke it for, whatever the pool size, scheduling, number of nodes and callback duration, and never runs more callbacks at once than there are workers. When the caller's wait completes, every submitted callback has finished and the run has ended without deadlock. If output is requested, each finished job yields exactly one output. A run whose context is cancelled still comes to an end, without invoking any callback twice.",
  ["schedules", "inputs", "configurations"], "all interleavings of navigator, dispatcher and workers; pool sizes; trees; output on/off",
  "Tests run one schedule each and mostly assert only that no error came back.",
  ["concurrent-defs.go", "synchronise.go", "session.go", "extent.go", "driver.go"],
  [("job submission", "synchronise.go"), ("completion wait", "session.go")],
  [("inputCh", "jobs awaiting a worker", "synchronise.go")], ["client callback invocations", "wait group", "output channel"])

p("C17", "An invalid set-up is reported as an error before any callback runs",
  "If a navigation is requested with a missing root, subscription, handler or resume source, with conflicting or malformed filter or sampling settings (including a pattern that does not compile), with an option that fails to apply or with an unreadable session, then navigating returns an error identifying the problem, no callback or lifecycle handler runs, and nothing panics. A valid set-up never yields such an error.",
  ["configurations", "inputs"], "all combinations of valid and invalid facade and option values for prime and resume",
  "Tests check individual errors.",
  ["director.go", "builders.go", "scaffold.go", "extent.go", "factories.go", "pref", "internal/opts"],
  [("facade validation", "pref"), ("plugin/options build", "builders.go")],
  None, ["navigation error", "callback count"])

p("C18", "Hook tapping and chaining keep the documented call order",
  "For each hookable function, tapping replaces the current function and chaining adds listeners that run after it, in the order added, each receiving the previous result and able to replace it; restoring the default undoes a tap. A navigation uses exactly the functions in force, and hooks never affect one another.",
  ["histories", "inputs"], "all sequences of tap, chain, restore-default and invoke operations",
  "Tests exercise single taps or chains.",
  ["tapable"], [("tap/chain", "tapable/hooks.go")], None, ["hook invocations"])

p("C19", "Notification handlers all run in registration order and obey muting",
  "Every handler registered for a notification runs once per occurrence, in registration order, and handlers of different notifications are independent. While muted none runs; after unmuting all run again, for every kind of notification, individually or all together.",
  ["histories"], "all sequences of on, mute, unmute, mute-all, unmute-all and dispatch",
  "Tests register one or two handlers and never unmute all kinds.",
  ["life"], [("broadcast", "life"), ("mute/unmute", "life")], None, ["lifecycle handlers"])

p("C20", "Invocation chain links run in role order and stop where told",
  "Whatever features are combined, and in whatever order they were set up, a node passes through them in the one fixed order the roles define, each at most once, ending in the client; a link that declines a node keeps it from every later link, and an error ends it. The ordered set, stack and iterators this rests on behave as their mathematical counterparts: fixed relative order, unique members, anchor last, last-in first-out, each element once.",
  ["histories", "inputs"], "all operation sequences on the collections; all feature combinations",
  "Tests insert a few items in a few orders.",
  ["internal/kernel/guardian.go", "collections", "manifest.go"],
  [("ordered link set", "collections/positional-set.go"), ("link iteration", "internal/kernel/guardian.go")],
  None, ["collection results", "links executed"])

p("C21", "Bus messages reach every current subscriber of a matching topic once",
  "Emitting an event reaches each handler registered at that moment whose matcher accepts the topic, exactly once, and no handler that was deregistered or does not match. Registering or deregistering handlers and topics changes nothing else, and emitting on an unknown topic is reported.",
  ["histories"], "all sequences of register/deregister topic and handler, and emit",
  "Tests exercise one handler and a few topics.",
  ["internal/third/bus", "internal/services"],
  [("topic/handler registry", "internal/third/bus")], None, ["handler invocations"])

p("C22", "All entry points perform the same navigation for the same request",
  "For the same tree, subscription and options, a sequential walk, a concurrent run and the composite entry points deliver the same set of nodes with the same metrics, also when ready-made options are handed over, new or from an earlier navigation, and the sequential ones deliver the same sequence. Conditional option helpers apply an option exactly when their condition is true; the alternative not chosen is never applied nor, when it is made on demand, made. A navigation leaves nothing behind that changes a later navigation in the same process.",
  ["configurations", "histories"], "all entry points x trees x options; sequences of navigations in one process",
  "Tests run each entry point once with its own expectations.",
  ["composites.go", "extent.go", "traverse-api.go", "pref"],
  [("composites", "composites.go"), ("conditional options", "pref")], None, ["client callback sequence", "result metrics"])

p("C23", "Separate navigations do not interfere with each other",
  "Navigations that share nothing but the process do exactly what each would do alone, whether they run one after the other, at the same time in different goroutines, or one inside the callback of another: same deliveries, order, notifications, metrics, errors, resumption and worker behaviour. None of them crashes, blocks or races with another, and the sessions they save, even in the same directory within the same second, are all kept, each under the name its own error reports.",
  ["schedules", "histories", "configurations"], "any number of navigations of any kind, simultaneous or nested, sharing an admin directory or not",
  "Tests run one navigation at a time.",
  ["driver.go", "internal/services", "internal/third/bus", "internal/kernel/author.go", "session.go"],
  [("shared broker", "driver.go"), ("name of a saved session", "internal/kernel/author.go")],
  None, ["client callback sequence of each navigation", "result and error of each navigation", "saved session files"])

p("C24", "Combined features act together exactly as the navigation algorithm defines",
  "Whatever combination of features is in force (hibernation, node and child filters, sampling, depth limit, sort options, skip handler, faults, skips and errors of the callback), a sequential navigation produces exactly the sequence of events the documented algorithm defines for it: each node met is announced, put through hibernation, then the filters, then the callback, then the skip handler, has its entries traversed and is left, with the metrics counting what happened. So does each session that takes an interrupted navigation up again: a fastward session makes the same traversal, silent (no notification, no callback) until it reaches the recorded node and complete from there on; a spawn session announces and traverses just the recorded node and what comes after it, and goes on counting deliveries from the recorded counts.",
  ["configurations", "inputs"], "all combinations of all features x trees",
  "Tests exercise features one or two at a time and compare selected outcomes, never the whole sequence of events.",
  ["internal/kernel", "internal/feat", "manifest.go", "driver.go"],
  [("navigation algorithm", "internal/kernel"), ("chain of features", "internal/feat")],
  None, ["whole event sequence", "result error and metrics"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
