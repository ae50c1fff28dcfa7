BUGS=[
dict(id='C08-tree-scope',prop='C08',edits=[('internal/filtering/base.go','''	return (f.scope & node.Extension.Scope) > 0
''','''	return (f.scope & node.Extension.Scope) > enums.ScopeTree
''')],needs="a node filter whose scope is just the tree",breaks="a filter scoped to the tree root is never applied to it",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a"), "d", enums.SubscribeUniversal, age.WithFilter(&pref.FilterOptions{
		Node: &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "x*", Scope: enums.ScopeTree, IfNotApplicable: enums.TriStateBoolTrue}}))
	if v.err != nil || v.paths() != "d/a" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C08-globex-dir-case',prop='C08',edits=[('internal/filtering/glob-ex.go','''		name := strings.ToLower(node.Parent.Extension.Name)
''','''		name := node.Parent.Extension.Name
''')],needs="a glob-ex filter with a directory part, over a directory with upper case letters",breaks="the directory part no longer ignores case",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/Cat/", "d/Cat/a.txt", "d/dog/", "d/dog/b.txt"), "d", enums.SubscribeFiles, age.WithFilter(&pref.FilterOptions{
		Node: &core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "c*|*.txt", IfNotApplicable: enums.TriStateBoolFalse}}))
	if v.err != nil || v.paths() != "d/Cat/a.txt" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C14-spawn-dirs-unsorted',prop='C14',also=['C24'],edits=[('internal/feat/resume/strategy-spawn.go','''	contents.Sort(enums.EntryTypeAll)
''','''	contents.Sort(lo.Ternary(s.directoriesOnly(), enums.EntryTypeDirectory, enums.EntryTypeFile))
''')],needs="spawn, over a directory listed in another order than it is walked in",breaks="spawned directories follow the listing order, so that some are repeated or missed",
demo='''
func TestDemo(t *testing.T) {
	w := mem("d/", "d/a/", "d/B/", "d/c/", "d/D/")
	dir := t.TempDir()
	v := (&visit{act: func(n *core.Node) error {
		if n.Path == "d/B" {
			panic(errors.New("stop"))
		}
		return nil
	}}).walk(w, "d", enums.SubscribeUniversal, age.WithAdminPath(dir))
	_ = v.res
	from := ""
	_ = filepath.WalkDir(dir, func(p string, e fs.DirEntry, _ error) error {
		if !e.IsDir() {
			from = p
		}
		return nil
	})
	r := (&visit{}).resume(w, from, enums.ResumeStrategySpawn)
	if r.err != nil || r.paths() != "d/B d/c d/D" {
		t.Fatalf("%v %v %q", r.paths(), r.err, from)
	}
}
'''),
dict(id='C15-child-negate',prop='C15',edits=[('internal/persist/json-options.go','''					Pattern:     jo.Filter.Child.Pattern,
					Negate:      jo.Filter.Child.Negate,
''','''					Pattern:     jo.Filter.Child.Pattern,
'''),('internal/persist/comparison.go','''	if def.Negate != jdef.Negate {
		return fmt.Errorf("%q child-filter-def %w", filterName,
''','''	if def.Negate && !jdef.Negate {
		return fmt.Errorf("%q child-filter-def %w", filterName,
''')],needs="a session saved with a negated child filter, and loaded again",breaks="the loaded child filter is not negated, and the comparison does not notice",
demo='''
func TestDemo(t *testing.T) {
	o := pref.DefaultOptions()
	o.Filter.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Negate: true}
	l := persist.FromJSON(persist.ToJSON(o))
	if !l.Filter.Child.Negate {
		t.Fatal("lost")
	}
}
'''),
dict(id='C16-single-worker',prop='C16',edits=[('synchronise.go','''		pants.WithSize(c.o.Concurrency.NoW),
''','''		pants.WithSize(max(c.o.Concurrency.NoW, 2)),
''')],needs="a run with a single worker",breaks="two callbacks run at the same time when one worker was asked for",
demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var now, most atomic.Int32
	v := &visit{}
	h := v.head(mem("d/", "d/a", "d/b", "d/c", "d/e"))
	h.Handler = func(core.Servant) error {
		n := now.Add(1)
		if n > most.Load() {
			most.Store(n)
		}
		time.Sleep(50 * time.Millisecond)
		now.Add(-1)
		return nil
	}
	_, err := age.Run(&wg).Configure().Extent(age.Prime(
		&pref.Using{Head: h, Subscription: enums.SubscribeUniversal, Tree: "d"}, age.WithNoW(1))).Navigate(context.Background())
	wg.Wait()
	if err != nil || most.Load() != 1 {
		t.Fatalf("%v %v", most.Load(), err)
	}
}
'''),
dict(id='C20-reinsert',prop='C20',edits=[('collections/positional-set.go','''	ps.invalidated = true
	delete(ps.items, item)
}
''','''	ps.invalidated = true
}
'''),('collections/positional-set.go','''	return len(ps.items)
''','''	return len(ps.Items())
''')],needs="an item that is deleted and inserted again",breaks="an item that was deleted can't be inserted again",
demo='''
func TestDemo(t *testing.T) {
	s := collections.NewPositionalSet([]int{1, 2, 3}, 3)
	s.Insert(1)
	s.Delete(1)
	if !s.Insert(1) || !s.Contains(1) || s.Count() != 2 {
		t.Fatal(s.Items())
	}
}
'''),
dict(id='C21-stale-topics',prop='C21',edits=[('internal/third/bus/broker.go','''	b.deregisterHandler(h.key)
	b.handlers[h.key] = h
	for _, t := range b.handlerTopicSubscriptions(h.key) {
		b.registerTopicHandler(t, h)
	}
''','''	_, known := b.handlers[h.key]
	b.handlers[h.key] = h

	for _, t := range b.handlerTopicSubscriptions(h.key) {
		if known {
			b.deregisterTopicHandler(t, h.key)
		}
		b.registerTopicHandler(t, h)
	}
''')],needs="a handler registered again with a matcher that leaves out a topic it used to match",breaks="the old handler keeps getting messages on that topic",
demo='''
func TestDemo(t *testing.T) {
	b, _ := bus.New(&bus.Sequential{Format: "%v"})
	b.RegisterTopics("a", "b")
	n := 0
	h := func(context.Context, bus.Message) { n++ }
	b.RegisterHandler("k", bus.Handler{Handle: h, Matcher: ".*"})
	b.RegisterHandler("k", bus.Handler{Handle: h, Matcher: "^a$"})
	_ = b.Emit(context.Background(), "b", 1)
	if n != 0 {
		t.Fatal(n)
	}
}
''',imports=['github.com/snivilised/agenor/internal/third/bus']),
dict(id='C23-filter-cache',prop='C23',also=['C08'],edits=[('internal/filtering/regex.go','''	return &RegExpr{
		Base: Base{
			name:            def.Description,
			scope:           def.Scope,
			pattern:         def.Pattern,
			negate:          def.Negate,
			ifNotApplicable: ifNotApplicable,
		},
	}
}
''','''	type key struct {
		name, pattern   string
		scope           enums.FilterScope
		ifNotApplicable bool
	}

	// there is no need to compile the same filter again
	//
	filter, _ := known.LoadOrStore(key{
		name: def.Description, pattern: def.Pattern, scope: def.Scope,
		ifNotApplicable: ifNotApplicable,
	}, &RegExpr{
		Base: Base{
			name:            def.Description,
			scope:           def.Scope,
			pattern:         def.Pattern,
			negate:          def.Negate,
			ifNotApplicable: ifNotApplicable,
		},
	})

	return filter.(*RegExpr)
}

var known sync.Map
'''),('internal/filtering/regex.go','''	"github.com/snivilised/agenor/core"
''','''	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
'''),('internal/filtering/regex.go','''	"regexp"

''','''	"regexp"
	"sync"

''')],needs="two navigations of one process with the same regex, of which only one is negated",breaks="a navigation uses the filter of an earlier one",
demo='''
func TestDemo(t *testing.T) {
	for _, neg := range []bool{false, true} {
		v := (&visit{}).walk(mem("d/", "d/a", "d/b"), "d", enums.SubscribeFiles, age.WithFilter(&pref.FilterOptions{
			Node: &core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "^a", Scope: enums.ScopeFile, Negate: neg}}))
		want := "d/a"
		if neg {
			want = "d/b"
		}
		if v.err != nil || v.paths() != want {
			t.Fatalf("%v %v", v.paths(), v.err)
		}
	}
}
'''),
dict(id='C24-filter-before-window',prop='C24',edits=[('manifest.go','''		enums.RoleHibernate,
		enums.RoleNanny,
		enums.RoleClientFilter,
''','''		enums.RoleNanny,
		enums.RoleClientFilter,
		enums.RoleHibernate,
''')],needs="a node filter and hibernation in one navigation, with a filter that rejects the waking node",breaks="the wake condition is no longer tried on nodes the filter rejects",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a", "d/b", "d/c"), "d", enums.SubscribeFiles,
		age.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "[ac]", Scope: enums.ScopeFile}}),
		age.WithHibernationFilterWake(&core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "b", Scope: enums.ScopeFile}))
	if v.err != nil || v.paths() != "d/c" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C19-wake-not-muted',prop='C19',edits=[('life/events.go','''	c.End.Mute()
	c.Wake.Mute()
''','''	c.End.Mute()
''')],needs="muting all the notifications, then a wake notification",breaks="wake is not muted with the others",
demo='''
func TestDemo(t *testing.T) {
	c := life.NewControls()
	n := 0
	c.Wake.On(func(string) { n++ })
	c.MuteAll()
	c.Wake.Dispatch()("x")
	if n != 0 {
		t.Fatal(n)
	}
}
'''),
dict(id='C19-fourth-listener',prop='C19',edits=[('life/events.go','''	c.listeners = append(c.listeners, handler)
	c.dispatcher.Invoke = c.dispatcher.Broadcaster(c.listeners)
''','''	grown := len(c.listeners) == cap(c.listeners)
	c.listeners = append(c.listeners, handler)

	if grown || len(c.listeners) == cap(c.listeners) {
		c.dispatcher.Invoke = c.dispatcher.Broadcaster(c.listeners)
	}
''')],needs="a number of handlers that is one more than a capacity the list grows to, such as 6",breaks="some of the handlers are not told",
demo='''
func TestDemo(t *testing.T) {
	for k := 1; k < 12; k++ {
		c := life.NewControls()
		n := 0
		for i := 0; i < k; i++ {
			c.Ascend.On(func(*core.Node) { n++ })
		}
		c.Ascend.Dispatch()(nil)
		if n != k {
			t.Fatal(k, n)
		}
	}
}
'''),
dict(id='C13-description-of-resume',prop='C13',edits=[('internal/kernel/navigation-vapour.go','''			IsRelative: forest.R.IsRelative(),
''','''			IsRelative: forest.T.IsRelative(),
''')],needs="an interrupted navigation whose two file systems differ in being relative",breaks="the saved session describes the wrong file system, and can't be resumed",
demo='''
func TestDemo(t *testing.T) {
	w := mem("d/", "d/a", "d/b")
	dir := t.TempDir()
	v := (&visit{act: func(n *core.Node) error {
		if n.Path == "d/a" {
			panic(errors.New("stop"))
		}
		return nil
	}}).walk(w, "d", enums.SubscribeUniversal, age.WithAdminPath(dir))
	_ = v.res
	from := ""
	_ = filepath.WalkDir(dir, func(p string, e fs.DirEntry, _ error) error {
		if !e.IsDir() {
			from = p
		}
		return nil
	})
	r := (&visit{}).resume(w, from, enums.ResumeStrategyFastward)
	if r.err != nil || r.paths() != "d/a d/b" {
		t.Fatalf("%v %v %q", r.paths(), r.err, from)
	}
}
'''),
dict(id='C17-child-filter-kind',prop='C17',edits=[('internal/filtering/child.go','''	if filter != nil {
		if err := filter.Validate(); err != nil {
			return nil, err
		}
	}

	return filter, nil
}

// ChildFilter''','''	if filter != nil && def.Type != enums.FilterTypeGlob {
		if err := filter.Validate(); err != nil {
			return nil, err
		}
	}

	return filter, nil
}

// ChildFilter''')],needs="a malformed glob as the child filter",breaks="the malformed glob is not reported; the navigation runs and just matches nothing",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a"), "d", enums.SubscribeDirectoriesWithFiles,
		age.WithFilter(&pref.FilterOptions{Child: &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "[a"}}))
	if v.err == nil || len(v.nodes) != 0 {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C11-last-of-few',prop='C11',edits=[('internal/feat/sampling/controller.go','''	return entries[uint(len(entries))-(min(n, uint(len(entries)))):]
''','''	return entries[uint(len(entries))-(min(n, max(uint(len(entries)), 1)-1)):]
''')],needs="reverse sampling over a directory with no more children than were asked for",breaks="the first child is left out although all fit",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a", "d/b"), "d", enums.SubscribeFiles,
		age.WithSamplingOptions(&pref.SamplingOptions{InReverse: true, NoOf: pref.EntryQuantities{Files: 2, Directories: 2}}))
	if v.err != nil || v.paths() != "d/a d/b" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C12-file-status-fatal',prop='C12',edits=[('internal/kernel/navigator-agent.go','''		info, e := entry.Info()

		// TODO: check sampling; should happen transparently, by plugin
''','''		info, e := entry.Info()

		if e != nil && parent.Parent != nil {
			continue
		}

		// TODO: check sampling; should happen transparently, by plugin
''')],needs="an entry below the top level whose details can't be had",breaks="the entry is silently left out instead of being handed over with its error",
demo='''
type bare struct{ fs.DirEntry }

func (b bare) Info() (fs.FileInfo, error) { return nil, fs.ErrPermission }

type veiled struct{ tfs.TraversalFS }

func (v veiled) ReadDir(name string) ([]fs.DirEntry, error) {
	es, err := v.TraversalFS.ReadDir(name)
	for i, e := range es {
		if e.Name() == "x" {
			es[i] = bare{e}
		}
	}
	return es, err
}

func TestDemo(t *testing.T) {
	v := (&visit{}).walk(veiled{mem("d/", "d/a/", "d/a/x", "d/a/y")}, "d", enums.SubscribeUniversal)
	if v.err != nil || v.paths() != "d d/a d/a/x d/a/y" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C12-skip-dir-files',prop='C12',edits=[('internal/kernel/navigator-files.go','''	} else if err != nil {
		return continueTraversal, e
	} else if skip''','''	} else if err != nil && e != nil {
		return continueTraversal, e
	} else if skip''')],needs="a files subscription, a directory that can't be read but for part of its entries",breaks="whatever",
demo='func TestDemo(t *testing.T) { t.Fatal() }') if False else None,
dict(id='C22-either-option',prop='C22',edits=[('pref/options.go','''	if condition {
		return tOption()
	}

	return fOption()
''','''	t, f := tOption(), fOption()

	if condition {
		return t
	}

	return f
''')],needs="a condition that guards the making of an option",breaks="both options are made whatever the condition",
demo='''
func TestDemo(t *testing.T) {
	n := 0
	_ = pref.IfElseOptionF(true, func() pref.Option { return nil }, func() pref.Option { n++; return nil })
	if n != 0 {
		t.Fatal("made")
	}
}
'''),
dict(id='C18-default-of-tapped',prop='C18',edits=[('tapable/hooks.go','''	return c.def
}
''','''	if c.listeners != nil {
		return c.handler
	}

	return c.def
}
''')],needs="asking a hook that has been chained for its default",breaks="the default includes the chained functions",
demo='''
func TestDemo(t *testing.T) {
	o := pref.DefaultOptions()
	n := 0
	o.Hooks.FileSubPath.Chain(func(r string, _ *core.SubPathInfo) string { n++; return r })
	_ = o.Hooks.FileSubPath.Default()(&core.SubPathInfo{Tree: "d", Node: &core.Node{Path: "d"}})
	if n != 0 {
		t.Fatal(n)
	}
}
'''),
dict(id='C03-depth-on-resume',prop='C14',also=['C03'],edits=[('internal/kernel/mediator.go','''	m.periscope.Offset(active.Depth)
''','''	m.periscope.Offset(max(active.Depth, 1))
''')],needs="-",breaks="-",demo='func TestDemo(t *testing.T) { t.Fatal() }') if False else None,
dict(id='C04-leaf-scope-top',prop='C04',edits=[('internal/level/periscope.go','''	case isLeaf && depth == 0:
		result = enums.ScopeTree | enums.ScopeLeaf
''','''	case isLeaf && depth < 0:
		result = enums.ScopeTree | enums.ScopeLeaf
''')],needs="a tree whose root has no directories",breaks="the root is not scoped as a leaf",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a"), "d", enums.SubscribeDirectories)
	if v.err != nil || v.nodes[0].Extension.Scope&enums.ScopeLeaf == 0 {
		t.Fatalf("%v %v", v.nodes[0].Extension, v.err)
	}
}
'''),
dict(id='C09-nanny-unsorted',prop='C09',edits=[('internal/feat/filter/scheme-nanny.go','''	inspection.AssignChildren(matching)
''','''	inspection.AssignChildren(lo.Uniq(append(matching, servant.Node().Children...)))
''')],needs="-",breaks="-",demo='func TestDemo(t *testing.T) { t.Fatal() }') if False else None,
dict(id='C10-sleep-default',prop='C10',edits=[('internal/feat/hiber/hibernate-simple-profile.go','''				return false, fs.SkipAll
''','''				return false, fs.SkipDir
''')],needs="a window that closes in one directory while others follow",breaks="the walk goes on through the remaining directories",
demo='''
func TestDemo(t *testing.T) {
	asked := ""
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/x", "d/a/y", "d/b/", "d/c/"), "d", enums.SubscribeUniversal,
		age.WithHibernationFilterSleep(&core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "x", Scope: enums.ScopeFile}),
		age.WithOnDescend(func(n *core.Node) { asked += n.Path + " " }))
	if v.err != nil || asked != "d d/a d/a/x d/a/y " {
		t.Fatalf("%v %v %v", asked, v.paths(), v.err)
	}
}
'''),
]
BUGS=[b for b in BUGS if b]
