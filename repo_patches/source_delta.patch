From bb6d6324155b17c87cfcaa38becafcabb28636bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 01/44] fix: unmute the wake notification in UnmuteAll

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..13364cb 100644
--- a/life/events.go
+++ b/life/events.go
@@ -77,6 +77,7 @@ func (c *Controls) UnmuteAll() {
 	c.Begin.Unmute()
 	c.Descend.Unmute()
 	c.End.Unmute()
+	c.Wake.Unmute()
 	c.Sleep.Unmute()
 }
 
-- 
2.43.0


From f20a78e7a34d71ddfeed61d9eba672246a3fad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/44] fix: give files an empty contents instead of discarding
 it

---
 internal/kernel/navigation-vapour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index ec6c627..e3f0318 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -38,7 +38,7 @@ func (v *navigationVapour) clear() {
 	if v.cargo != nil {
 		v.cargo.clear()
 	} else {
-		newEmptyContents()
+		v.cargo = newEmptyContents()
 	}
 }
 
-- 
2.43.0


From 57dd3452c48d34f9d26c5882f40ecfa23d1af35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/44] fix: compute the sub-path offset in runes so non-ASCII
 roots are handled

---
 pref/defaults.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..4fada1a 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -65,7 +65,7 @@ func tail(input string, offset int) string {
 // relationship between the parent and child paths provided then a panic
 // may occur.
 func difference(parent, child string) string {
-	return tail(child, len(parent))
+	return tail(child, len([]rune(parent)))
 }
 
 // RootItemSubPathHook
-- 
2.43.0


From dfd94cc77e7c5a9ca2d1499a0864a51817b510c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/44] fix: honour the IsCaseSensitive sort behaviour

---
 pref/options.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pref/options.go b/pref/options.go
index f58cb0b..b97a272 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -2,6 +2,7 @@ package pref
 
 import (
 	"io"
+	"io/fs"
 	"log/slog"
 	"path/filepath"
 	"runtime"
@@ -120,7 +121,6 @@ func DefaultOptions() *Options {
 		Concurrency: ConcurrencyOptions{
 			NoW: uint(runtime.NumCPU()),
 		},
-		Hooks: newHooks(),
 		Monitor: MonitorOptions{
 			Log: nopLogger,
 			Admin: AdminOptions{
@@ -134,11 +134,12 @@ func DefaultOptions() *Options {
 			Skip:  Asker(DefaultSkipHandler),
 		},
 	}
+	o.Hooks = newHooks(&o.Behaviours.Sort)
 
 	return o
 }
 
-func newHooks() tapable.Hooks {
+func newHooks(behaviour *SortBehaviour) tapable.Hooks {
 	return tapable.Hooks{
 		FileSubPath: tapable.NewHookCtrl[
 			core.SubPathHook, core.ChainSubPathHook, tapable.SubPathBroadcaster,
@@ -175,7 +176,15 @@ func newHooks() tapable.Hooks {
 		Sort: tapable.NewHookCtrl[
 			core.SortHook, core.ChainSortHook, tapable.SortBroadcaster,
 		](
-			DefaultCaseInSensitiveSortHook,
+			func(entries []fs.DirEntry, custom ...any) {
+				if behaviour.IsCaseSensitive {
+					CaseSensitiveSortHook(entries, custom...)
+
+					return
+				}
+
+				DefaultCaseInSensitiveSortHook(entries, custom...)
+			},
 			tapable.GetSortBroadcaster,
 			tapable.SortAttacher,
 		),
-- 
2.43.0


From 556a346df3ccf9c017c0dc94ed1e539f052a68a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/44] fix: order names that differ only in case
 deterministically

---
 pref/defaults.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 4fada1a..74af783 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -44,7 +44,14 @@ func CaseSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 // directory of "a" will be visited before a sibling directory "B".
 func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	sort.Slice(entries, func(i, j int) bool {
-		return strings.ToLower(entries[i].Name()) < strings.ToLower(entries[j].Name())
+		left, right := entries[i].Name(), entries[j].Name()
+		leftLower, rightLower := strings.ToLower(left), strings.ToLower(right)
+
+		if leftLower == rightLower {
+			return left < right
+		}
+
+		return leftLower < rightLower
 	})
 }
 
-- 
2.43.0


From aba37609b61e8433b142453dafad5f2691c0fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 06/44] fix: terminate traversal on fs.SkipAll and do not
 report skips as failures

---
 driver.go                          | 7 +++++++
 internal/kernel/navigator-agent.go | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/driver.go b/driver.go
index d690cf3..4638b43 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
 	"github.com/snivilised/agenor/internal/third/bus"
+	"github.com/snivilised/agenor/stock"
 )
 
 const (
@@ -31,6 +32,12 @@ func (d *driver) Navigate(ctx context.Context) (core.TraverseResult, error) {
 	d.s.start()
 	result, err := d.s.exec(ctx)
 
+	if stock.IsBenignError(err) {
+		// a skip request controls traversal, it is not a failure
+		//
+		err = nil
+	}
+
 	d.s.finish(result)
 
 	return result, err
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..5185729 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -190,9 +190,10 @@ func (n *navigatorAgent) travel(ctx context.Context,
 			switch {
 			case errors.Is(err, fs.SkipDir):
 				continue
-			case errors.Is(err, fs.SkipAll):
-				break
 			default:
+				// this includes fs.SkipAll, which has to be propagated all
+				// the way up in order to terminate the traversal early.
+				//
 				return continueTraversal, err
 			}
 		}
-- 
2.43.0


From 24d7a13d8053719533c096c4ab3a7b22921b89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/44] fix: confine a file's fs.SkipDir to its own directory

---
 internal/kernel/navigator-agent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 5185729..dfaaa7d 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -176,9 +176,10 @@ func (n *navigatorAgent) travel(ctx context.Context,
 					// processing all successive siblings but continue traversal.
 					// The !progress indicates we're skipping the remaining
 					// processing of all of the parent node's remaining children.
-					// (see the ✨ below ...)
+					// (see the ✨ below ...); progress is reported to the parent's
+					// parent, so that only this directory is abandoned.
 					//
-					return skipTraversal, err
+					return continueTraversal, err
 				}
 
 				return continueTraversal, err
-- 
2.43.0


From 5796dcc8c3f8a287ffc7afc3c23f56100ae1a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 08/44] fix: act on the skip handler's skip-all and skip-dir
 answers

---
 internal/kernel/navigator-agent.go       | 11 +++++++++++
 internal/kernel/navigator-directories.go |  4 +++-
 internal/kernel/navigator-files.go       |  4 +++-
 internal/kernel/navigator-universal.go   |  2 +-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index dfaaa7d..04bad5f 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -203,6 +203,17 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	return continueTraversal, nil
 }
 
+// terminate is used when the skip handler requests that the remainder of the
+// navigation be skipped. Unless the handler supplied its own error, fs.SkipAll
+// is used to bring the traversal to an early end.
+func terminate(err error) error {
+	if err == nil {
+		return fs.SkipAll
+	}
+
+	return err
+}
+
 func (n *navigatorAgent) Save(data pref.RescueData) (string, error) {
 	if v, ok := data.(vexation); ok {
 		return n.persister.write(v)
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..94bb001 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -42,7 +42,9 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return continueTraversal, terminate(e)
+	} else if skip == enums.SkipDirTraversal {
+		return skipTraversal, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..32bbb74 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -49,7 +49,9 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal || err != nil {
+	); skip == enums.SkipAllTraversal {
+		return continueTraversal, terminate(e)
+	} else if err != nil {
 		return continueTraversal, e
 	} else if skip == enums.SkipDirTraversal {
 		return true, e
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..580620c 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -42,7 +42,7 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return continueTraversal, terminate(e)
 	} else if skip == enums.SkipDirTraversal {
 		return skipTraversal, e
 	}
-- 
2.43.0


From 08561efc88fa073b7776ee585ae2ae39b439be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 09/44] fix: save the node being visited when a panic occurs,
 not its directory

---
 internal/kernel/author.go          |   2 +-
 internal/kernel/navigator-agent.go | 103 +++++++++++++++++------------
 internal/kernel/vex.go             |   6 ++
 3 files changed, 69 insertions(+), 42 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..ff213bf 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -29,7 +29,7 @@ func (a *author) write(vex vexation) (string, error) {
 
 	path := calc.Join(directory, file)
 	active := vapour.active(vex.ancestor(), forest,
-		static.mediator.periscope.Depth(),
+		vex.level(),
 		static.mediator.metrics,
 	)
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 04bad5f..97ca9d4 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -106,42 +106,15 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	ns *navigationStatic,
 	vapour inspection,
 ) (skip bool, err error) {
+	// current is the child being traversed; when a panic occurs, this is
+	// the node at which the navigation was interrupted and therefore denotes
+	// the point from where it has to be resumed.
+	//
+	var current *core.Node
+
 	defer func() {
 		if data := recover(); data != nil {
-			// The tree on the mediator always points to the original tree root
-			// requested by the user. The tree on navigation static can be different
-			// when a spawn resume is in play; ie, the Spawn is created using a child
-			// tree and this is what is set on the navigation static when a sub tree
-			// is seeded, but this would be the incorrect tree to persist, rather, we
-			// need the real ancestor that is denoted by the mediator's tree.
-			//
-			to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
-				data:     data,
-				anc:      ns.mediator.tree,
-				vap:      vapour,
-				catalyst: "panic",
-				mag:      n.magnitude,
-			}) // wrap???
-
-			panicErr, ok := data.(error)
-			if !ok {
-				panicErr = errors.New("")
-			}
-
-			if rescueErr != nil {
-				err = locale.NewTraversalNotSavedError(panicErr, rescueErr)
-			}
-
-			err = lo.TernaryF(rescueErr != nil,
-				func() error {
-					return locale.NewTraversalNotSavedError(panicErr, rescueErr)
-				},
-				func() error {
-					return locale.NewTraversalSavedError(to, panicErr)
-				},
-			)
-
-			skip = skipTraversal
+			skip, err = skipTraversal, n.rescue(ns, current, vapour, data)
 		}
 	}()
 
@@ -155,17 +128,19 @@ func (n *navigatorAgent) travel(ctx context.Context,
 
 		// TODO: check sampling; should happen transparently, by plugin
 
+		current = core.New(
+			path,
+			entry,
+			info,
+			parent,
+			e,
+		)
+
 		// TODO: ok for Travel to by-pass mediator?
 		//
 		if progress, err := ns.mediator.impl.Traverse(
 			ctx, ns, servant{
-				node: core.New(
-					path,
-					entry,
-					info,
-					parent,
-					e,
-				),
+				node: current,
 			},
 		); !progress {
 			if err != nil {
@@ -203,6 +178,52 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	return continueTraversal, nil
 }
 
+// rescue handles a panic that occurred whilst traversing the current node. By
+// the time it is invoked, the periscope has ascended back to the parent of
+// the current node.
+func (n *navigatorAgent) rescue(ns *navigationStatic,
+	current *core.Node,
+	vapour inspection,
+	data any,
+) error {
+	depth := ns.mediator.periscope.Depth()
+
+	if current != nil {
+		depth++
+		vapour = &navigationVapour{
+			ns:      ns,
+			present: current,
+		}
+	}
+
+	// The tree on the mediator always points to the original tree root
+	// requested by the user. The tree on navigation static can be different
+	// when a spawn resume is in play; ie, the Spawn is created using a child
+	// tree and this is what is set on the navigation static when a sub tree
+	// is seeded, but this would be the incorrect tree to persist, rather, we
+	// need the real ancestor that is denoted by the mediator's tree.
+	//
+	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+		data:     data,
+		anc:      ns.mediator.tree,
+		vap:      vapour,
+		depth:    depth,
+		catalyst: "panic",
+		mag:      n.magnitude,
+	}) // wrap???
+
+	panicErr, ok := data.(error)
+	if !ok {
+		panicErr = errors.New("")
+	}
+
+	if rescueErr != nil {
+		return locale.NewTraversalNotSavedError(panicErr, rescueErr)
+	}
+
+	return locale.NewTraversalSavedError(to, panicErr)
+}
+
 // terminate is used when the skip handler requests that the remainder of the
 // navigation be skipped. Unless the handler supplied its own error, fs.SkipAll
 // is used to bring the traversal to an early end.
diff --git a/internal/kernel/vex.go b/internal/kernel/vex.go
index 8801c21..e213178 100644
--- a/internal/kernel/vex.go
+++ b/internal/kernel/vex.go
@@ -6,12 +6,14 @@ type (
 		vapour() inspection
 		cause() string
 		magnitude() string
+		level() int
 	}
 
 	vex struct {
 		data     interface{}
 		anc      string
 		vap      inspection
+		depth    int
 		catalyst string
 		mag      string
 	}
@@ -36,3 +38,7 @@ func (v *vex) cause() string {
 func (v *vex) magnitude() string {
 	return v.mag
 }
+
+func (v *vex) level() int {
+	return v.depth
+}
-- 
2.43.0


From 453a90085649dea55dbb36b074ce86b4a5ce88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 10/44] fix: rescue a panic raised by the client at the root
 node

---
 internal/kernel/navigator-agent.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 97ca9d4..48ff458 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -60,19 +60,35 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			_, te := ns.mediator.impl.Traverse(ctx, ns,
-				servant{
-					node: core.Top(ns.tree, info),
-				},
-			)
-
-			return te
+			return n.launch(ctx, ns, core.Top(ns.tree, info))
 		},
 	)
 
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// launch traverses the top node. A panic that occurs whilst traversing a
+// descendant is handled by travel, so the only panics that need to be rescued
+// here are those raised by the top node itself.
+func (n *navigatorAgent) launch(ctx context.Context,
+	ns *navigationStatic,
+	top *core.Node,
+) (err error) {
+	defer func() {
+		if data := recover(); data != nil {
+			err = n.rescue(ns, top, nil, data)
+		}
+	}()
+
+	_, err = ns.mediator.impl.Traverse(ctx, ns,
+		servant{
+			node: top,
+		},
+	)
+
+	return err
+}
+
 // Result is the single point at which a Result is constructed. Due to
 // the spawn resume strategy, a Result may occur more than once during
 // a navigation session. The session knows when completion occurs. Any
-- 
2.43.0


From 8341f1981292a1c91ceecd240f947e7941a2afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 11/44] fix: match the fastward resume point without
 dereferencing a missing parent

---
 internal/feat/resume/strategy-fastward.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..759ce60 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -39,7 +39,8 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
+	return node.Path == f.source ||
+		(f.parent == "." && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
-- 
2.43.0


From 46493183e7969db5bcee3b2e6ae32fa407156a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 12/44] fix: compute sub-paths relative to the original tree
 when spawning

---
 internal/kernel/extend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/kernel/extend.go b/internal/kernel/extend.go
index 9de85a9..03f2015 100644
--- a/internal/kernel/extend.go
+++ b/internal/kernel/extend.go
@@ -38,7 +38,7 @@ func extend(ns *navigationStatic, vapour inspection) {
 	keepTrailingSep := ns.mediator.o.Behaviours.SubPath.KeepTrailingSep
 
 	spInfo := &core.SubPathInfo{
-		Tree:            ns.tree,
+		Tree:            ns.mediator.tree, // ns.tree is a sub tree, during spawn
 		Node:            current,
 		KeepTrailingSep: keepTrailingSep,
 	}
-- 
2.43.0


From 662272133fe5efb0534d6c0c6869cfff0f62abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/44] fix: spawn the siblings that follow in traversal order,
 not by name alone

---
 internal/feat/resume/resume-defs.go    |  8 +-----
 internal/feat/resume/strategy-spawn.go | 38 ++++++++++++++------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/internal/feat/resume/resume-defs.go b/internal/feat/resume/resume-defs.go
index 3b89259..8839dd2 100644
--- a/internal/feat/resume/resume-defs.go
+++ b/internal/feat/resume/resume-defs.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/pref"
 )
@@ -15,8 +14,7 @@ import (
 // these may be internal modules, eg internal/serial/JSON).
 
 const (
-	badge             = "badge: resume"
-	followingSiblings = true
+	badge = "badge: resume"
 )
 
 type (
@@ -44,8 +42,4 @@ type (
 		current   string
 		inclusive bool
 	}
-
-	shard struct {
-		siblings *kernel.Contents
-	}
 )
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..421d785 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -3,6 +3,7 @@ package resume
 import (
 	"context"
 	"io/fs"
+	"slices"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -79,10 +80,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), err
 	}
 
-	following.siblings.Sort(enums.EntryTypeFile)
-	following.siblings.Sort(enums.EntryTypeDirectory)
-
-	result, err := s.seed(ctx, parent, following.siblings.All())
+	result, err := s.seed(ctx, parent, following)
 
 	if err != nil {
 		return result, err
@@ -113,28 +111,34 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	return result, nil
 }
 
+// following reads the contents of the parent and identifies those entries that
+// come after the anchor (or also the anchor itself if inclusive), according to
+// the order in which they are traversed.
 func (s *spawnStrategy) following(parent, anchor string,
 	inclusive bool,
-) (*shard, error) {
+) ([]fs.DirEntry, error) {
 	entries, err := s.mediator.Read(parent)
 
 	if err != nil {
 		return nil, err
 	}
 
-	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
-		if inclusive {
-			return entry.Name() >= anchor
-		}
+	contents := kernel.NewContents(&s.o.Behaviours.Sort, s.o.Hooks.Sort, entries)
+	contents.Sort(enums.EntryTypeAll)
 
-		return entry.Name() > anchor
+	siblings := contents.All()
+	at := slices.IndexFunc(siblings, func(entry fs.DirEntry) bool {
+		return entry.Name() == anchor
 	})
 
-	return &shard{
-		siblings: kernel.NewContents(
-			&s.o.Behaviours.Sort,
-			s.o.Hooks.Sort,
-			groups[followingSiblings],
-		),
-	}, nil
+	if at < 0 {
+		// the anchor no longer exists, so the best we can do is to
+		// go by name
+		//
+		return lo.Filter(siblings, func(entry fs.DirEntry, _ int) bool {
+			return entry.Name() > anchor
+		}), nil
+	}
+
+	return lo.Ternary(inclusive, siblings[at:], siblings[at+1:]), nil
 }
-- 
2.43.0


From f59e84c470e4aed9fcb980cc15aa1dda9cb4b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 14/44] fix: conclude a spawn resume on an absolute file system

---
 internal/feat/resume/strategy-spawn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 421d785..3a0b7dc 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -37,7 +37,7 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
-		current:   s.active.CurrentPath,
+		current:   s.calc.Clean(s.active.CurrentPath),
 		inclusive: true,
 	})
 
@@ -60,7 +60,7 @@ func (s *spawnStrategy) ifResult() bool {
 func (s *spawnStrategy) crown(ctx context.Context,
 	conc *conclusion,
 ) (*enclave.KernelResult, error) {
-	if conc.current == conc.active.Tree {
+	if conc.current == s.calc.Clean(conc.active.Tree) {
 		if s.complete {
 			return nil, core.ErrDetectedSpawnStackOverflow
 		}
@@ -71,7 +71,10 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), nil
 	}
 
-	parent, child := s.calc.Split(conc.current)
+	// Split on an absolute calc leaves a trailing separator on the
+	// directory, so it would never compare equal to the tree.
+	//
+	parent, child := s.calc.Dir(conc.current), s.calc.Base(conc.current)
 	following, err := s.following(parent,
 		child,
 		conc.inclusive,
-- 
2.43.0


From e8e1b0bc01ae2df1604c951383f7be71c5403ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 15/44] fix: do not spawn files for a directories subscription

---
 internal/feat/resume/strategy-spawn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 3a0b7dc..089ae0b 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -114,6 +114,12 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	return result, nil
 }
 
+// directoriesOnly indicates that the files must not be seeded.
+func (s *spawnStrategy) directoriesOnly() bool {
+	return s.active.Subscription == enums.SubscribeDirectories ||
+		s.active.Subscription == enums.SubscribeDirectoriesWithFiles
+}
+
 // following reads the contents of the parent and identifies those entries that
 // come after the anchor (or also the anchor itself if inclusive), according to
 // the order in which they are traversed.
@@ -129,7 +135,10 @@ func (s *spawnStrategy) following(parent, anchor string,
 	contents := kernel.NewContents(&s.o.Behaviours.Sort, s.o.Hooks.Sort, entries)
 	contents.Sort(enums.EntryTypeAll)
 
-	siblings := contents.All()
+	siblings := lo.TernaryF(s.directoriesOnly(),
+		contents.Directories,
+		contents.All,
+	)
 	at := slices.IndexFunc(siblings, func(entry fs.DirEntry) bool {
 		return entry.Name() == anchor
 	})
-- 
2.43.0


From 35a60227d29adbb3ae7a5f4a804ee5ea7d06b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/44] fix: do not abandon a spawn resume when a spawned node
 is skipped

---
 internal/feat/resume/strategy-spawn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 089ae0b..069a356 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,6 +2,7 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
 	"slices"
 
@@ -106,7 +107,7 @@ func (s *spawnStrategy) seed(ctx context.Context,
 		top := s.calc.Join(parent, entry.Name())
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
-		if err != nil {
+		if err != nil && !errors.Is(err, fs.SkipDir) {
 			return intermediate, err
 		}
 	}
-- 
2.43.0


From 075700ae4d06fee229e002e3c8a11df42f2943fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 17/44] fix: track the depth of ancestors' siblings during a
 spawn resume

---
 internal/enclave/enclave-defs.go       | 1 +
 internal/feat/resume/strategy-spawn.go | 4 ++++
 internal/kernel/mediator.go            | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 89dfa12..24f1632 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -84,6 +84,7 @@ type (
 		Read(path string) ([]fs.DirEntry, error)
 		Spawn(ctx context.Context, tree string) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
+		Rise()
 		Supervisor() *Supervisor
 	}
 
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 069a356..a716f3b 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -90,6 +90,10 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return result, err
 	}
 
+	// the siblings of the parent are one level up from here
+	//
+	s.mediator.Rise()
+
 	conc.current = parent
 	conc.inclusive = false
 
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..3b00ed6 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -107,6 +107,11 @@ func (m *mediator) Bridge(active *core.ActiveState) {
 	m.Supervisor().Load(active.Metrics)
 }
 
+// Rise moves the starting depth of subsequent spawns up by a single level
+func (m *mediator) Rise() {
+	m.periscope.Offset(-1)
+}
+
 func (m *mediator) Supervisor() *enclave.Supervisor {
 	return m.resources.Supervisor
 }
-- 
2.43.0


From 40b3ab5b16324b244565253059f72d9aa5cbb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 18/44] fix: complete the submitted jobs before releasing the
 worker pool

---
 synchronise.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..177a3e8 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,12 +48,17 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	pending sync.WaitGroup
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
 	defer func() {
 		c.close()
 		if c.pool != nil {
+			// releasing the pool rejects those jobs that have been submitted
+			// but have not been started yet.
+			//
+			c.drain(ctx)
 			c.pool.Release(ctx)
 		}
 	}()
@@ -69,14 +75,25 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			c.pending.Add(1)
 
-			return nil
+			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			//
+			select {
+			case c.inputCh <- input:
+				return nil
+			case <-ctx.Done():
+				c.pending.Done()
+
+				return ctx.Err()
+			}
 		})
 	}
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
+			defer c.pending.Done()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -118,6 +135,21 @@ func (c *concurrent) close() {
 	}
 }
 
+// drain waits for all the submitted jobs to complete.
+func (c *concurrent) drain(ctx context.Context) {
+	done := make(chan struct{})
+
+	go func() {
+		defer close(done)
+		c.pending.Wait()
+	}()
+
+	select {
+	case <-done:
+	case <-ctx.Done():
+	}
+}
+
 type sequential struct {
 	trunk
 }
-- 
2.43.0


From d6300ac59a85171f06534c3b7d6361b86db69467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 19/44] fix: do not dereference a missing parent in the poly
 filter

---
 internal/filtering/poly.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/filtering/poly.go b/internal/filtering/poly.go
index 0ed6330..ce0c406 100644
--- a/internal/filtering/poly.go
+++ b/internal/filtering/poly.go
@@ -65,6 +65,12 @@ func (f *Poly) Source() string {
 // the poly directory filter. Returns true of the current node is a directory.
 func (f *Poly) IsMatch(node *core.Node) bool {
 	if !node.IsDirectory() {
+		// the top node does not have a parent
+		//
+		if node.Parent == nil {
+			return f.File.IsMatch(node)
+		}
+
 		return f.Directory.IsMatch(node.Parent) && f.File.IsMatch(node)
 	}
 
-- 
2.43.0


From d1ba5fefcd929ed1a5fbd693001e84b743574deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 20/44] fix: report the errors reading a directory when
 sampling

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From 7b20b8ec3bd524d6856612a41d0a3346a0d901e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 21/44] fix: reject unsupported sample filter types instead of
 crashing

---
 internal/filtering/sample.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..4fd93f6 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -50,7 +50,6 @@ func NewSample(def *core.SampleFilterDef,
 	}
 
 	switch def.Type {
-	case enums.FilterTypeGlobEx:
 	case enums.FilterTypeRegex:
 		filter = &SampleRegex{
 			Sample: base,
@@ -65,8 +64,9 @@ func NewSample(def *core.SampleFilterDef,
 			return nil, locale.ErrFilterIsNil
 		}
 		filter = def.Custom
-	case enums.FilterTypePoly:
-	case enums.FilterTypeUndefined:
+	case enums.FilterTypeGlobEx, enums.FilterTypePoly, enums.FilterTypeUndefined:
+		// only the listed types are supported for sampling
+		//
 		return nil, locale.ErrFilterMissingType
 	}
 
-- 
2.43.0


From 6dd041b460b58d048272c26b34576e4571939e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 22/44] fix: validate the relic before resuming

---
 scaffold.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 59e3242..3893309 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -63,6 +63,10 @@ func newResumePlatform(facade pref.Facade,
 			core.ErrWrongResumeFacade
 	}
 
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	ext := &resumeExtent{
 		baseExtent: baseExtent{
 			fac: facade,
-- 
2.43.0


From c202ffd8561de0360b8218208645726408b31ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 23/44] fix: do not announce state that failed to load

---
 extent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extent.go b/extent.go
index 218a6bf..3888469 100644
--- a/extent.go
+++ b/extent.go
@@ -99,7 +99,7 @@ func (x *resumeExtent) options(addons []Addon,
 
 	x.loaded = loaded
 
-	if handler := x.seek(addons); handler != nil {
+	if handler := x.seek(addons); err == nil && handler != nil {
 		handler.OnLoad(loaded.State)
 	}
 
-- 
2.43.0


From 74c301d4b2c5003c6f0c25c8ea3dd6678df21ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 24/44] fix: reject a restore file without active state or
 options

---
 core/errors.go                | 6 ++++++
 internal/persist/marshaler.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/core/errors.go b/core/errors.go
index 6173bd2..c943077 100644
--- a/core/errors.go
+++ b/core/errors.go
@@ -217,6 +217,12 @@ var ErrWrongResumeFacade = errors.New(
 	"wrong resume facade",
 )
 
+// ❌ InvalidRestoreState error
+
+var ErrInvalidRestoreState = errors.New(
+	"invalid restore state, missing active state or options",
+)
+
 // ❌ Nil Forest error
 
 var ErrNilForest = errors.New(
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..cf9c1e2 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -92,6 +92,10 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, err
 	}
 
+	if mr.Active == nil || mr.JO == nil {
+		return nil, core.ErrInvalidRestoreState
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From a6c2b57c6d72b968999b265cfa83efd5959389ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 25/44] fix: do not invoke the client for a file tree with a
 directories subscription

---
 internal/kernel/navigator-directories.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 94bb001..8ff0840 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -33,6 +33,12 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 		return continueTraversal, nil
 	}
 
+	if !current.IsDirectory() {
+		// only possible when the tree itself is a file
+		//
+		return continueTraversal, nil
+	}
+
 	vapour, err := n.inspect(ns, servant)
 
 	if e := ns.mediator.Invoke(servant, vapour); e != nil {
-- 
2.43.0


From d915c3cca5c750db074df478bfb1051947ebe7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 26/44] fix: do not panic when the contents of a file are
 sorted

---
 internal/kernel/contents.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/kernel/contents.go b/internal/kernel/contents.go
index e5cf24b..5114d36 100644
--- a/internal/kernel/contents.go
+++ b/internal/kernel/contents.go
@@ -63,6 +63,12 @@ func (c *Contents) All() []fs.DirEntry {
 
 // Sort will sort either the directories or files or both.
 func (c *Contents) Sort(et enums.EntryType) {
+	if c.hook == nil {
+		// these are the empty contents of a file; there is nothing to sort
+		//
+		return
+	}
+
 	type selectors map[enums.EntryType]func() [][]fs.DirEntry
 
 	sortables := selectors{
-- 
2.43.0


From d474e1bfbf15808009cc3e2071d7591c126e811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 27/44] fix: compute sub-paths for unclean and current
 directory roots

---
 internal/kernel/builder.go |  6 +++++-
 pref/defaults.go           | 21 ++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/kernel/builder.go b/internal/kernel/builder.go
index daa3c0b..14edbac 100644
--- a/internal/kernel/builder.go
+++ b/internal/kernel/builder.go
@@ -1,6 +1,8 @@
 package kernel
 
 import (
+	"path/filepath"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -36,7 +38,9 @@ func (fn Builder) Build(inception *Inception) *Artefacts {
 
 func (i *Inception) NavigationTree() string {
 	if using, ok := i.Facade.(*pref.Using); ok {
-		return using.Tree
+		// all paths derived from the tree are clean, so the tree has to be too
+		//
+		return filepath.Clean(using.Tree)
 	}
 
 	return i.Harvest.Loaded().State.Tree
diff --git a/pref/defaults.go b/pref/defaults.go
index 74af783..d84d435 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -72,16 +72,35 @@ func tail(input string, offset int) string {
 // relationship between the parent and child paths provided then a panic
 // may occur.
 func difference(parent, child string) string {
-	return tail(child, len([]rune(parent)))
+	sep := string(filepath.Separator)
+
+	if parent == "." {
+		// paths below the current directory do not start with the name
+		// of the current directory
+		//
+		return sep + child
+	}
+
+	// only the root of the file system ends with a separator
+	//
+	return tail(child, len([]rune(strings.TrimSuffix(parent, sep))))
 }
 
 // RootItemSubPathHook
 func RootItemSubPathHook(info *core.SubPathInfo) string {
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	return difference(info.Tree, info.Node.Path)
 }
 
 // DefaultSubPathHook
 func DefaultSubPathHook(info *core.SubPathInfo) string {
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	if info.Node.Extension.Scope == enums.ScopeTop {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
-- 
2.43.0


From 054f9de31c985db8395c46e8c981b3246d42ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 28/44] fix: name the session file in the traversal saved error

---
 locale/messages-errors.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..8d31e03 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -722,13 +722,14 @@ var ErrCoreResumeFsMismatch = CoreResumeFsMismatchError{
 // 🍒 TraversalSaved (dynamic i18n error)
 type TraversalSavedTemplData struct {
 	agenorTemplData
+	Destination string
 }
 
 func (td TraversalSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-saved.age.dynamic-error",
 		Description: "traversal saved due to panic (dynamic error)",
-		Other:       "traversal saved: {{.Field}}",
+		Other:       "traversal saved: {{.Destination}}",
 	}
 }
 
@@ -749,7 +750,9 @@ func (e TraversalSavedError) Unwrap() error {
 func NewTraversalSavedError(destination string, _ error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalSavedTemplData{},
+			Data: TraversalSavedTemplData{
+				Destination: destination,
+			},
 		},
 		Wrapped:     ErrCorePanicOccurred,
 		Destination: destination,
@@ -765,7 +768,7 @@ func (td TraversalNotSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-not-saved.age.dynamic-error",
 		Description: "panic induced traversal not saved (dynamic error)",
-		Other:       "field: {{.Reason}}",
+		Other:       "traversal not saved",
 	}
 }
 
-- 
2.43.0


From bb10ae22bdcf75333f18e15b978c0a278f46c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 29/44] fix: spawn resume visits everything when the root was
 interrupted

---
 internal/feat/resume/strategy-spawn.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index a716f3b..dd7eeca 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -35,10 +35,20 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 	// between the previous navigation session and this resume session.
 	s.mediator.Bridge(s.active)
 
+	current := s.calc.Clean(s.active.CurrentPath)
+
+	if current == s.calc.Clean(s.active.Tree) {
+		// the tree itself was interrupted, so all of it remains
+		//
+		s.complete = true
+
+		return s.mediator.Spawn(ctx, s.active.Tree)
+	}
+
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
-		current:   s.calc.Clean(s.active.CurrentPath),
+		current:   current,
 		inclusive: true,
 	})
 
-- 
2.43.0


From 2972920b8f74d5f2d2f005c32f493a4ceb9aad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 30/44] fix: spawn resume below the current directory

---
 internal/feat/resume/strategy-spawn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index dd7eeca..46664f9 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"io/fs"
+	"path/filepath"
 	"slices"
 
 	"github.com/snivilised/agenor/core"
@@ -118,7 +119,9 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	result := s.kc.Result(ctx)
 
 	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
+		// has to denote the node in the same way as the traversal does
+		//
+		top := filepath.Join(parent, entry.Name())
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
 		if err != nil && !errors.Is(err, fs.SkipDir) {
-- 
2.43.0


From 9f1a7e87dbcd141fe02f3ba41933d21d82316952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 31/44] fix: fastward to a top level item of the current
 directory

---
 internal/feat/resume/strategy-fastward.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 759ce60..e262a8d 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -17,7 +17,7 @@ type FastwardFilter struct {
 	source      string
 	description string
 	scope       enums.FilterScope
-	parent      string
+	bare        bool
 	name        string
 }
 
@@ -40,7 +40,7 @@ func (f *FastwardFilter) Source() string {
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
 	return node.Path == f.source ||
-		(f.parent == "." && node.Extension.Name == f.name)
+		(f.bare && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -82,7 +82,14 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 	//
 	calc := s.forest.T.Calc()
 	scope := lo.Ternary(load.State.IsDir, enums.ScopeDirectory, enums.ScopeFile)
-	parent := calc.Dir(load.State.CurrentPath)
+
+	// a path without a directory can only be matched by name, unless the tree is
+	// the current directory, in which case it is the full path of a top level item
+	//
+	const current = "."
+
+	bare := calc.Dir(load.State.CurrentPath) == current &&
+		calc.Clean(load.State.Tree) != current
 
 	s.filter, err = filtering.New(
 		&core.FilterDef{
@@ -95,7 +102,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				),
 				scope:  scope,
 				source: load.State.CurrentPath,
-				parent: parent,
+				bare:   bare,
 				name:   calc.Base(load.State.CurrentPath),
 			},
 		},
-- 
2.43.0


From 3e796ab6cf72e41b410c27c499b6a900071370e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 32/44] fix: report filter definitions that define no filter
 instead of crashing

A definition of type custom without a custom filter, a poly definition
without its constituents (or with a constituent that has no filter) and a
child filter of type poly all produced a nil filter, which crashed later.
The poly filter of a wake or sleep condition was looked up in the node
filter instead of in its own definition.
---
 internal/filtering/builders.go | 13 ++++++++++---
 internal/filtering/child.go    |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..c874c9a 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -27,8 +27,11 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 	case enums.FilterTypeGlob:
 		filter = createGlobFilter(definition, ifNotApplicable)
 
-	case enums.FilterTypeCustom, enums.FilterTypePoly:
-		return nil, nil
+	case enums.FilterTypeCustom:
+		return nil, locale.ErrMissingCustomFilterDefinition
+
+	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
 
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
@@ -63,7 +66,11 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+	polyDef := definition.Poly
+
+	if polyDef == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
 
 	// enforce the correct filter scopes
 	//
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..d51e890 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -41,6 +41,7 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 		return nil, locale.ErrFilterUndefined
 
 	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
 	if filter != nil {
-- 
2.43.0


From 4c8183425f0b4e576d4ae7b2ab3294000f573ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 33/44] fix: do not announce a navigation whose features fail
 to initialise

---
 builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builders.go b/builders.go
index 27275c7..9cb9d18 100644
--- a/builders.go
+++ b/builders.go
@@ -110,7 +110,7 @@ func (bs *Builders) buildAll(addons ...Addon) (*buildArtefacts, error) {
 
 			return &buildArtefacts{
 				o:         o,
-				kc:        artefacts.Kontroller,
+				kc:        kernel.HadesNav(o, err),
 				plugins:   plugins,
 				ext:       ext,
 				swappable: artefacts.Mediator,
-- 
2.43.0


From 2fd146545f5d02fd168a82e75bf9877d6645c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 34/44] fix: report a missing file system instead of crashing

---
 scaffold.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scaffold.go b/scaffold.go
index 3893309..90b7ff4 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,14 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if err == nil {
+		if ext.trees == nil {
+			err = core.ErrNilForest
+		} else if ext.trees.T == nil {
+			err = locale.NewTraverseFsMismatchError()
+		}
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
@@ -201,11 +209,11 @@ func (p *resumePlatform) buildForest(relic *pref.Relic, active *core.ActiveState
 	// that matches the loaded active state from the previous session.
 	//
 
-	if forest.T.IsRelative() != active.TraverseDescription.IsRelative {
+	if forest.T != nil && forest.T.IsRelative() != active.TraverseDescription.IsRelative {
 		forest.T = nil
 	}
 
-	if forest.R.IsRelative() != active.ResumeDescription.IsRelative {
+	if forest.R != nil && forest.R.IsRelative() != active.ResumeDescription.IsRelative {
 		forest.R = nil
 	}
 
-- 
2.43.0


From daa28edcccf48345386ea0d9bd7c57acc2b42d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 35/44] fix: name the invalid poly filter in its error

---
 locale/messages-errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index 8d31e03..9062ec2 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -447,7 +447,7 @@ type PolyFilterIsInvalidError struct {
 
 var ErrPolyFilterIsInvalid = PolyFilterIsInvalidError{
 	LocalisableError: li18ngo.LocalisableError{
-		Data: FilterIsNilErrorTemplData{},
+		Data: PolyFilterIsInvalidTemplData{},
 	},
 }
 
-- 
2.43.0


From bce47013062c675e7df4fae16baa7d481d353d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 36/44] fix: invoke the roles in the order the manifest defines

The roles were invoked in the order their features were set up, so that a
fast forwarding resume came after the filters and hibernation: nodes before
the saved position were filtered and counted a second time.
---
 manifest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/manifest.go b/manifest.go
index d96dd8a..cbf4723 100644
--- a/manifest.go
+++ b/manifest.go
@@ -63,5 +63,12 @@ func manifest(active []enums.Role) []enums.Role {
 		initial,
 	)
 
+	// the roles are requested in the order their features were set up, but
+	// they must be invoked in the manifest order
+	//
+	slices.SortStableFunc(roles, func(a, b enums.Role) int {
+		return slices.Index(all, a) - slices.Index(all, b)
+	})
+
 	return roles
 }
-- 
2.43.0


From 348e842d90ab6e8e9d7d04597d3e5c7506156e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 37/44] fix: chain listeners on to the function a tap has put
 in place

After a chained hook was tapped, anything chained later was added to the
listeners of the function that had been replaced, so it was never invoked.
---
 tapable/hooks.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/tapable/hooks.go b/tapable/hooks.go
index 58be0a2..a80f0ce 100644
--- a/tapable/hooks.go
+++ b/tapable/hooks.go
@@ -32,7 +32,7 @@ type (
 		def         F
 		broadcaster B
 		adapter     attacher[F, C, B]
-		listeners   []C
+		listeners   *[]C
 	}
 )
 
@@ -100,17 +100,27 @@ func NewHookCtrl[F, C, B any](
 
 func (c *HookCtrl[F, C, B]) Tap(handler F) {
 	c.handler = handler
+
+	// what has been chained so far, belongs to the function being replaced
+	//
+	c.listeners = nil
 }
 
 func (c *HookCtrl[F, C, B]) Chain(handler C) {
 	if c.listeners == nil {
-		c.listeners = []C{handler}
-		c.handler = c.adapter.attach(c.handler, c, c.broadcaster)
+		listeners := []C{handler}
+		c.listeners = &listeners
+		c.handler = c.adapter.attach(c.handler,
+			ProvideListeners[C](func() []C {
+				return listeners
+			}),
+			c.broadcaster,
+		)
 
 		return
 	}
 
-	c.listeners = append(c.listeners, handler)
+	*c.listeners = append(*c.listeners, handler)
 }
 
 func (c *HookCtrl[F, C, B]) Default() F {
@@ -120,7 +130,3 @@ func (c *HookCtrl[F, C, B]) Default() F {
 func (c *HookCtrl[F, C, B]) Invoke() F {
 	return c.handler
 }
-
-func (c *HookCtrl[F, C, B]) get() []C {
-	return c.listeners
-}
-- 
2.43.0


From 61bf634cc8a03521ca2b798f7ffcd2d4e5463df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 38/44] fix: deregister a bus handler without disturbing the
 others

Deregistering a handler from within a handler overwrote the handlers of the
emission in progress, so that another one was invoked twice or not at all.
---
 internal/third/bus/broker.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/third/bus/broker.go b/internal/third/bus/broker.go
index c8a3a6d..8428be2 100644
--- a/internal/third/bus/broker.go
+++ b/internal/third/bus/broker.go
@@ -281,14 +281,17 @@ func (b *Broker) registerTopicHandler(topic string, h Handler) {
 }
 
 func (b *Broker) deregisterTopicHandler(topic, handlerKey string) {
-	l := len(b.topics[topic])
-	for i, h := range b.topics[topic] {
-		if h.key == handlerKey {
-			b.topics[topic][i] = b.topics[topic][l-1]
-			b.topics[topic] = b.topics[topic][:l-1]
-			break
+	// the existing handlers may be in use by an Emit that is still in progress,
+	// so the handler is removed from a copy, which keeps the order of the others
+	//
+	handlers := make([]Handler, 0, len(b.topics[topic]))
+	for _, h := range b.topics[topic] {
+		if h.key != handlerKey {
+			handlers = append(handlers, h)
 		}
 	}
+
+	b.topics[topic] = handlers
 }
 
 func (b *Broker) registerTopic(topic string) {
-- 
2.43.0


From 8503879dd54460f50459cb217528c5859b49cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 39/44] fix: compare poly filters present on one side only

---
 internal/persist/comparison.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/persist/comparison.go b/internal/persist/comparison.go
index d909fd2..57808e5 100644
--- a/internal/persist/comparison.go
+++ b/internal/persist/comparison.go
@@ -317,6 +317,16 @@ func equalFilterDef(filterName string,
 		)
 	}
 
+	if (def.Poly == nil) != (jdef.Poly == nil) {
+		return fmt.Errorf("%q filter-def %w", filterName,
+			UnequalPtrError[core.PolyFilterDef, json.PolyFilterDef]{
+				Field: "Poly",
+				Value: def.Poly,
+				Other: jdef.Poly,
+			},
+		)
+	}
+
 	if def.Poly != nil && jdef.Poly != nil {
 		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
 			return err
-- 
2.43.0


From 16c47909b8fd766572052223daa460edf325fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 40/44] fix: guard the broker shared by simultaneous
 navigations

---
 driver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/driver.go b/driver.go
index 4638b43..2cc2b7e 100644
--- a/driver.go
+++ b/driver.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
@@ -17,7 +18,14 @@ type driver struct {
 	s session
 }
 
+// registering guards the broker, which is shared by all navigations and is
+// not synchronised
+var registering sync.Mutex
+
 func (d *driver) init() {
+	registering.Lock()
+	defer registering.Unlock()
+
 	services.Broker.RegisterHandler(badge, bus.Handler{
 		Handle: func(_ context.Context, m bus.Message) {
 			_ = m.Data
-- 
2.43.0


From b4dea778e0ad31cdfc0a458be353dd45c3cd4fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 41/44] fix: do not overwrite a session saved at the same time

---
 internal/kernel/author.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index ff213bf..16365f9 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -3,6 +3,7 @@ package kernel
 import (
 	"fmt"
 	"strings"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/persist"
@@ -10,6 +11,13 @@ import (
 	nef "github.com/snivilised/nefilim"
 )
 
+const (
+	extension = ".json"
+)
+
+// writing prevents simultaneous navigations from choosing the same file
+var writing sync.Mutex
+
 type author struct {
 	o     *pref.Options
 	perms core.Permissions
@@ -27,7 +35,17 @@ func (a *author) write(vex vexation) (string, error) {
 		return "", err
 	}
 
-	path := calc.Join(directory, file)
+	writing.Lock()
+	defer writing.Unlock()
+
+	path := calc.Join(directory, file+extension)
+
+	for n := 1; fS.FileExists(path); n++ {
+		// another session was saved at the same time, it must not be overwritten
+		//
+		path = calc.Join(directory, fmt.Sprintf("%v.%v%v", file, n, extension))
+	}
+
 	active := vapour.active(vex.ancestor(), forest,
 		vex.level(),
 		static.mediator.metrics,
@@ -56,7 +74,7 @@ func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file str
 		directory = calc.Join(directory, core.ResumeTail)
 	}
 
-	file = fmt.Sprintf("%v.%v.%v.json",
+	file = fmt.Sprintf("%v.%v.%v",
 		mag, cause, now.Format(core.FileSystemTimeFormat),
 	)
 
-- 
2.43.0


From 753839d681e1f89ae780debbc6dcd5d65591bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 42/44] fix: resume spawned entries as what their directory
 lists them as

A spawn resume queried the status of each entry it starts from, which follows
a link; a dangling link ended the navigation with an error and a link to a
directory was traversed, neither of which happens in an uninterrupted walk.
The node is now made from the entry, as it is when it is met by travel.
---
 internal/enclave/enclave-defs.go       |  2 +-
 internal/feat/resume/strategy-spawn.go |  4 ++--
 internal/kernel/kernel-defs.go         |  2 ++
 internal/kernel/mediator.go            |  2 ++
 internal/kernel/navigator-agent.go     | 10 ++++++++++
 5 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 24f1632..23dd11b 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -82,7 +82,7 @@ type (
 		KernelController
 		//
 		Read(path string) ([]fs.DirEntry, error)
-		Spawn(ctx context.Context, tree string) (*KernelResult, error)
+		Spawn(ctx context.Context, tree string, entry fs.DirEntry) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
 		Rise()
 		Supervisor() *Supervisor
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 46664f9..7acc1f4 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -43,7 +43,7 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 		//
 		s.complete = true
 
-		return s.mediator.Spawn(ctx, s.active.Tree)
+		return s.mediator.Spawn(ctx, s.active.Tree, nil)
 	}
 
 	result, err = s.crown(ctx, &conclusion{
@@ -122,7 +122,7 @@ func (s *spawnStrategy) seed(ctx context.Context,
 		// has to denote the node in the same way as the traversal does
 		//
 		top := filepath.Join(parent, entry.Name())
-		intermediate, err := s.mediator.Spawn(ctx, top)
+		intermediate, err := s.mediator.Spawn(ctx, top, entry)
 
 		if err != nil && !errors.Is(err, fs.SkipDir) {
 			return intermediate, err
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index debba4e..fb5b5ce 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -2,6 +2,7 @@ package kernel
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -98,6 +99,7 @@ type (
 	navigationStatic struct {
 		mediator     *mediator
 		tree         string
+		entry        fs.DirEntry // only set when the tree is spawned from its parent's entry
 		calc         nef.PathCalc
 		magnitude    string
 		subscription enums.Subscription
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 3b00ed6..c6c1c47 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -89,10 +89,12 @@ func (m *mediator) Read(path string) ([]fs.DirEntry, error) {
 
 func (m *mediator) Spawn(ctx context.Context,
 	tree string,
+	entry fs.DirEntry,
 ) (*enclave.KernelResult, error) {
 	return m.impl.Top(ctx, &navigationStatic{
 		mediator:     m,
 		tree:         tree,
+		entry:        entry,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 48ff458..712ca43 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -47,6 +47,16 @@ func (n *navigatorAgent) Ignite(ignition *enclave.Ignition) {
 func (n *navigatorAgent) top(ctx context.Context,
 	ns *navigationStatic,
 ) (result *enclave.KernelResult, err error) {
+	if ns.entry != nil {
+		// as when it is met by travel, the entry alone denotes what the node
+		// is; querying its status would follow a link.
+		//
+		info, ie := ns.entry.Info()
+		err = n.launch(ctx, ns, core.New(ns.tree, ns.entry, info, nil, ie))
+
+		return ns.mediator.impl.Result(ctx), err
+	}
+
 	info, ie := n.ao.hooks.QueryStatus.Invoke()(
 		ns.mediator.resources.Forest.T, ns.tree,
 	)
-- 
2.43.0


From bf95d38c9849e593854b74e58cd3630aaf1630de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 43/44] fix: report malformed glob patterns instead of silently
 matching nothing

---
 internal/filtering/glob-ex.go | 21 +++++++++++++++++----
 internal/filtering/glob.go    | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..e75faa9 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -144,16 +144,21 @@ func parse(pattern string, re *regexp.Regexp) (spec *patternSpec, err error) {
 	ext := result["ext"]
 	base := result["base"]
 	grossExt := "." + ext
+	matcher := lo.Ternary(base == "",
+		wildcard+grossExt,
+		base+grossExt,
+	)
+
+	if err := validateGlob(matcher); err != nil {
+		return nil, err
+	}
 
 	return &patternSpec{
 		base:       base,
 		ext:        ext,
 		grossExt:   grossExt,
 		excludeExt: result["neg"] == string(excludeExtSymbol),
-		matcher: lo.Ternary(base == "",
-			wildcard+grossExt,
-			base+grossExt,
-		),
+		matcher:    matcher,
 	}, nil
 }
 
@@ -170,6 +175,14 @@ func newSpec(directoryBase, directoryExclusion string, patterns []string) (*glob
 		return nil, err
 	}
 
+	if err := validateGlob(directoryBase); err != nil {
+		return nil, err
+	}
+
+	if err := validateGlob(directoryExclusion); err != nil {
+		return nil, err
+	}
+
 	return &globSpec{
 		specs:              specs,
 		directoryGlob:      directoryBase,
diff --git a/internal/filtering/glob.go b/internal/filtering/glob.go
index f0d8be9..5796c6c 100644
--- a/internal/filtering/glob.go
+++ b/internal/filtering/glob.go
@@ -1,6 +1,7 @@
 package filtering
 
 import (
+	"fmt"
 	"io/fs"
 	"path/filepath"
 
@@ -22,11 +23,30 @@ func createGlobFilter(def *core.FilterDef,
 	}
 }
 
+// validateGlob ensures that the pattern is well formed; otherwise, it would
+// fail to match anything without this being reported.
+func validateGlob(pattern string) error {
+	if _, err := filepath.Match(pattern, ""); err != nil {
+		return fmt.Errorf("invalid glob pattern '%v': %w", pattern, err)
+	}
+
+	return nil
+}
+
 // Glob wildcard filter.
 type Glob struct {
 	Base
 }
 
+// Validate ensures the filter definition is valid
+func (f *Glob) Validate() error {
+	if err := f.Base.Validate(); err != nil {
+		return err
+	}
+
+	return validateGlob(f.pattern)
+}
+
 // IsMatch does this node match the filter
 func (f *Glob) IsMatch(node *core.Node) bool {
 	if f.IsApplicable(node) {
@@ -43,6 +63,11 @@ type ChildGlob struct {
 	Child
 }
 
+// Validate ensures the filter definition is valid
+func (f *ChildGlob) Validate() error {
+	return validateGlob(f.Pattern)
+}
+
 // Matching returns the collection of files contained within this
 // node's directory that matches this filter.
 func (f *ChildGlob) Matching(children []fs.DirEntry) []fs.DirEntry {
@@ -66,6 +91,15 @@ type SampleGlob struct {
 	Sample
 }
 
+// Validate ensures the filter definition is valid
+func (f *SampleGlob) Validate() error {
+	if err := f.Base.Validate(); err != nil {
+		return err
+	}
+
+	return validateGlob(f.pattern)
+}
+
 func (f *SampleGlob) Matching(entries []fs.DirEntry) []fs.DirEntry {
 	filterable, bypass := f.fetch(entries)
 
-- 
2.43.0


From 433cd31ef7367749ec3fac8c06ba9e1a91c2e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 44/44] fix: let the contents of a file be listed

The skip handler is also asked about files; getting All of their (empty)
contents dereferenced the missing sort behaviour.
---
 internal/kernel/contents.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/contents.go b/internal/kernel/contents.go
index 5114d36..216c201 100644
--- a/internal/kernel/contents.go
+++ b/internal/kernel/contents.go
@@ -50,7 +50,9 @@ func (c *Contents) All() []fs.DirEntry {
 	//nolint:ineffassign,staticcheck // prealloc
 	result := make([]fs.DirEntry, 0, len(c.files)+len(c.directories))
 
-	if c.behaviour.SortFilesFirst {
+	// the empty contents of a file have no behaviour
+	//
+	if c.behaviour != nil && c.behaviour.SortFilesFirst {
 		result = c.files
 		result = append(result, c.directories...)
 	} else {
-- 
2.43.0

