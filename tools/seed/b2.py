BUGS=[
dict(id='C01-odd-files',prop='C01',edits=[('internal/kernel/contents.go','''	contents.files, contents.directories = nef.Separate(entries)

''','''	contents.files, contents.directories = nef.Separate(lo.Filter(entries, func(entry fs.DirEntry, _ int) bool {
		return entry.IsDir() || entry.Type()&fs.ModeNamedPipe == 0
	}))

''')],needs="a tree with a named pipe (an entry that is neither a directory nor a regular file)",breaks="pipes are left out of the walk",
demo='''
func TestDemo(t *testing.T) {
	m := luna.NewMemFS()
	m.MapFS["d"] = &fstest.MapFile{Mode: os.ModeDir | 0o755}
	m.MapFS["d/p"] = &fstest.MapFile{Mode: os.ModeNamedPipe | 0o644}
	v := (&visit{}).walk(m, "d", enums.SubscribeUniversal)
	if v.err != nil || v.paths() != "d d/p" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
''',imports=['testing/fstest','github.com/snivilised/nefilim/test/luna']),
dict(id='C03-files-deeper',prop='C03',edits=[('internal/kernel/mediator.go','''	if !m.periscope.Descend(m.o.Behaviours.Cascade.Depth) {
''','''	limit := m.o.Behaviours.Cascade.Depth
	if limit > 2 && !node.IsDirectory() && len(node.Parent.Children) > 0 {
		limit++
	}

	if !m.periscope.Descend(limit) {
''')],needs="-",breaks="-",demo='func TestDemo(t *testing.T) { t.Skip() }') if False else None,
dict(id='C03-deep-descend',prop='C03',edits=[('internal/level/periscope.go','''	if maximum > 0 && p.depth > int(maximum) { //nolint:gosec // ok
''','''	if maximum > 0 && maximum < 4 && p.depth > int(maximum) { //nolint:gosec // ok
''')],needs="a depth limit of 4 or more and a tree deeper than it",breaks="nodes below the limit are visited",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/b/", "d/a/b/c/", "d/a/b/c/e/", "d/a/b/c/e/f"), "d", enums.SubscribeUniversal, age.WithDepth(4))
	if v.err != nil || v.paths() != "d d/a d/a/b d/a/b/c d/a/b/c/e" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C10-wake-and-sleep',prop='C10',also=['C24'],edits=[('internal/feat/hiber/hibernate-simple-profile.go','''					if p.common.ho.Behaviour.InclusiveWake {
						return true, nil
					}
''','''					if p.common.ho.Behaviour.InclusiveWake {
						return p.current.next(nil, node, nil)
					}
''')],needs="hibernation whose wake and sleep conditions are met by the same node",breaks="the node that wakes also puts the walk to sleep for good",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a", "d/b", "d/c", "d/x"), "d", enums.SubscribeFiles,
		age.WithHibernationOptions(&core.HibernateOptions{
			WakeAt:    &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "b*", Scope: enums.ScopeFile},
			SleepAt:   &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "[bx]*", Scope: enums.ScopeFile},
			Behaviour: core.HibernationBehaviour{InclusiveWake: true, InclusiveSleep: true}}))
	if v.err != nil || v.paths() != "d/b d/c d/x" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C11-dirs-all',prop='C11',edits=[('internal/feat/sampling/controller.go','''	noOfDirectories := lo.Ternary(r.o.NoOf.Directories == 0,
		uint(len(r.directories)), r.o.NoOf.Directories,
	)
''','''	noOfDirectories := lo.Ternary(r.o.NoOf.Directories == 0,
		uint(len(both)), r.o.NoOf.Directories,
	)
''')],needs="-",breaks="-",demo='func TestDemo(t *testing.T) { t.Skip() }') if False else None,
dict(id='C11-reverse-few',prop='C11',edits=[('internal/feat/sampling/controller.go','''	both = append(both, lo.Ternary(
		r.o.InReverse, last, first,
	)(noOfDirectories, r.directories)...)
''','''	both = append(both, lo.Ternary(
		r.o.InReverse && r.o.NoOf.Files > 0, last, first,
	)(noOfDirectories, r.directories)...)
''')],needs="sampling in reverse with a number of directories but none of files",breaks="the first directories are sampled instead of the last",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/b/", "d/c/"), "d", enums.SubscribeDirectories,
		age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: true, NoOf: pref.EntryQuantities{Directories: 1}}))
	if v.err != nil || v.paths() != "d d/c" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C14-spawn-unsorted',prop='C14',edits=[('internal/feat/resume/strategy-spawn.go','''	contents.Sort(enums.EntryTypeAll)

''','''
''')],needs="a spawn resume over a file system that lists a directory in another order than the requested one",breaks="the following siblings are taken from the listing order: some are visited twice, others never",
demo='''
func TestDemo(t *testing.T) {
	m := mem("d/", "d/a", "d/B", "d/c")
	home := mem("h/")
	v := &visit{act: func(n *core.Node) error {
		if n.Path == "d/B" {
			panic("stop")
		}
		return nil
	}}
	var from string
	v.walk(both{m, home}.T, "d", enums.SubscribeFiles, age.WithAdminPath("h"))
	_ = from
}
''') if False else None,
dict(id='C15-sleep-needs-wake',prop='C15',edits=[('internal/persist/json-options.go','''		SleepAt: NodeFilterDefFromJSON(jo.Hibernate.SleepAt),
		Behaviour: core.HibernationBehaviour{
			InclusiveWake:  jo.Hibernate.Behaviour.InclusiveWake,
			InclusiveSleep: jo.Hibernate.Behaviour.InclusiveSleep,
''','''		SleepAt: NodeFilterDefFromJSON(jo.Hibernate.SleepAt),
		Behaviour: core.HibernationBehaviour{
			InclusiveWake:  jo.Hibernate.Behaviour.InclusiveWake,
			InclusiveSleep: jo.Hibernate.Behaviour.InclusiveSleep && jo.Hibernate.Behaviour.InclusiveWake,
''')],needs="saved options with an inclusive sleep and an exclusive wake",breaks="the sleep becomes exclusive when loaded",
demo='''
func TestDemo(t *testing.T) {
	o := pref.DefaultOptions()
	o.Hibernate.Behaviour.InclusiveWake = false
	o.Hibernate.Behaviour.InclusiveSleep = true
	if got := persist.FromJSON(persist.ToJSON(o)); !got.Hibernate.Behaviour.InclusiveSleep {
		t.Fatal("inclusive sleep lost")
	}
}
'''),
dict(id='C18-no-chain-on-error',prop='C18',edits=[('tapable/broadcasters.go','''		for _, listener := range provider.get() {
			result, err = listener(result, err, rsys, dirname)
		}
''','''		for _, listener := range provider.get() {
			if err != nil {
				break
			}

			result, err = listener(result, err, rsys, dirname)
		}
''')],needs="a chained read hook and a directory that can't be read, or a chained hook before it that reports an error",breaks="chained hooks are not invoked when there is an error (they cannot replace it)",
demo='''
func TestDemo(t *testing.T) {
	asked := 0
	v := (&visit{}).walk(&failing{mem("d/", "d/a/"), "d/a"}, "d", enums.SubscribeUniversal,
		age.WithHookReadDirectory(nil))
	_ = v
	_ = asked
}
''') if False else None,
dict(id='C18-read-chain-error',prop='C18',edits=[('tapable/broadcasters.go','''			result, err = listener(result, err, rsys, dirname)
		}
''','''			if replaced, e := listener(result, err, rsys, dirname); err == nil {
				result, err = replaced, e
			}
		}
''')],needs="a hook chained to read-directory, and an error from what comes before it",breaks="what a chained listener answers is ignored when what comes before it reported an error",
demo='''
func TestDemo(t *testing.T) {
	o, _, err := opts.Get()
	if err != nil {
		t.Fatal(err)
	}
	called := 0
	o.Hooks.ReadDirectory.Chain(func(r []fs.DirEntry, err error, _ fs.ReadDirFS, _ string) ([]fs.DirEntry, error) {
		called++
		return r, nil
	})
	_, err = o.Hooks.ReadDirectory.Invoke()(mem("d/"), "nowhere")
	if called != 1 || err != nil {
		t.Fatalf("chained listener called %v times", called)
	}
}
'''),
dict(id='C19-on-when-muted',prop='C19',edits=[('life/events.go','''	if !c.subscribed {
		c.dispatcher.Invoke = handler
''','''	if !c.subscribed || (c.muted && c.listeners == nil) {
		c.dispatcher.Invoke = handler
''')],needs="a second handler registered whilst the notification is muted",breaks="the first handler is forgotten",
demo='''
func TestDemo(t *testing.T) {
	o, b, _ := opts.Get()
	got := ""
	o.Events.Wake.On(func(string) { got += "1" })
	b.Controls.Wake.Mute()
	o.Events.Wake.On(func(string) { got += "2" })
	b.Controls.Wake.Unmute()
	b.Controls.Wake.Dispatch()("x")
	if got != "12" {
		t.Fatal(got)
	}
}
'''),
dict(id='C20-items-reused',prop='C20',edits=[('collections/positional-set.go','''	ps.cache = make([]T, 0, len(ps.items))
''','''	ps.cache = ps.cache[:0]
''')],needs="items of the set in use (the chain being iterated) whilst a member is removed and the items are asked for again",breaks="what Items returned earlier is overwritten",
demo='''
func TestDemo(t *testing.T) {
	ps := collections.NewPositionalSet([]int{1, 2, 3}, 9)
	ps.All(1, 2, 3)
	before := ps.Items()
	ps.Delete(1)
	_ = ps.Items()
	if !reflect.DeepEqual(before, []int{1, 2, 3, 9}) {
		t.Fatal(before)
	}
}
'''),
dict(id='C21-tx-not-passed',prop='C21',edits=[('internal/third/bus/broker.go','''		txID = b.gen()
		ctx = context.WithValue(ctx, CtxKeyTxID, txID)
''','''		txID = b.gen()
''')],needs="a handler that emits in response to a message",breaks="the second message does not belong to the transaction of the first",
demo='''
func TestDemo(t *testing.T) {
	t.Skip()
}
''') if False else None,
dict(id='C24-nanny-first',prop='C24',also=['C06','C08','C09'],edits=[('internal/feat/filter/scheme-hybrid.go','''		invokeNext, err := s.primary.next(servant, inspection)

		if invokeNext && s.nanny != nil {
''','''		invokeNext, err := s.primary.next(servant, inspection)

		if s.nanny != nil {
''')],needs="a node filter together with a child filter, and a directory that the node filter rejects",breaks="the files of rejected directories are counted as found",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/x", "d/b/", "d/b/x"), "d", enums.SubscribeDirectoriesWithFiles,
		age.WithFilter(&pref.FilterOptions{
			Node:  &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "a", Scope: enums.ScopeDirectory},
			Child: &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "x"}}))
	if n := v.res.Metrics().Count(enums.MetricNoChildFilesFound); v.err != nil || v.paths() != "d/a" || n != 1 {
		t.Fatalf("%v %v %v", v.paths(), n, v.err)
	}
}
'''),
dict(id='C13-fs-descriptions',prop='C13',edits=[('internal/kernel/navigation-vapour.go','''		ResumeDescription: core.FsDescription{
			IsRelative: forest.R.IsRelative(),
''','''		ResumeDescription: core.FsDescription{
			IsRelative: forest.T.IsRelative(),
''')],needs="a panic in a walk whose traversal and resume file systems differ in kind",breaks="the saved session describes the wrong kind of resume file system, so it is refused when resumed",
demo='''
func TestDemo(t *testing.T) {
	t.Skip()
}
''') if False else None,
dict(id='C06-no-child-matches',prop='C06',edits=[('internal/feat/filter/scheme-nanny.go','''	filteredOut := len(files) - len(matching)
''','''	filteredOut := (len(files) - len(matching)) * min(len(matching), 1)
''')],needs="a child filter that rejects every file of a directory",breaks="those files are not counted as filtered out",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/x", "d/y"), "d", enums.SubscribeDirectoriesWithFiles,
		age.WithFilter(&pref.FilterOptions{
			Child: &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "x"}}))
	if n := v.res.Metrics().Count(enums.MetricNoChildFilesFilteredOut); v.err != nil || n != 1 {
		t.Fatalf("%v %v %v", v.paths(), n, v.err)
	}
}
'''),
]
BUGS=[b for b in BUGS if b]
