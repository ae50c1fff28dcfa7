D='d/ '
BUGS=[
dict(id='C01-root-file',prop='C01',edits=[('internal/kernel/navigator-files.go','''	if !current.IsDirectory() {
		// Effectively, this is the file only filter
		//
		return false, ns.mediator.Invoke(servant, vapour)
	}
''','''	if !current.IsDirectory() && current.Parent != nil {
		// Effectively, this is the file only filter
		//
		return false, ns.mediator.Invoke(servant, vapour)
	}
''')],needs="a walk that subscribes to files and whose root is itself a file",breaks="the root file is never handed to the callback",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/f"), "d/f", enums.SubscribeFiles)
	if v.err != nil || v.paths() != "d/f" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C01-name-trim',prop='C01',edits=[('internal/kernel/navigator-agent.go','''		path := filepath.Join(parent.Path, entry.Name())
		info, e := entry.Info()
''','''		path := filepath.Join(parent.Path, filepath.Clean(entry.Name()))
		info, e := entry.Info()

		if e == nil && info.Size() == 0 && entry.Type().IsRegular() && parent.Parent != nil &&
			len(parent.Parent.Children) > 0 {
			continue // an empty place holder
		}
''')],needs="directories with files, impossible combination",breaks="nothing",
demo='''
func TestDemo(t *testing.T) { t.Fatal("not a bug") }
''') if False else None,
dict(id='C02-dirs-unsorted',prop='C02',edits=[('internal/kernel/navigator-directories.go','''	vapour.Sort(enums.EntryTypeDirectory)
	vapour.Pick(enums.EntryTypeDirectory)
''','''	vapour.Pick(enums.EntryTypeDirectory)
''')],needs="a directories subscription over a tree whose file system lists directory names in another order than the requested one",breaks="directories are visited in listing order instead of name order",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/b/", "d/A/", "d/C/"), "d", enums.SubscribeDirectories)
	if v.err != nil || v.paths() != "d d/A d/b d/C" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C02-files-first-alias',prop='C02',edits=[('internal/kernel/contents.go','''	if c.behaviour.SortFilesFirst {
		result = c.files
		result = append(result, c.directories...)
	} else {''','''	if c.behaviour.SortFilesFirst && len(c.directories) < len(c.files) {
		result = c.files
		result = append(result, c.directories...)
	} else {''')],needs="files first requested and a directory with at least as many directories as files, more than one of each",breaks="directories come first although files first was requested",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/b/", "d/x", "d/y"), "d", enums.SubscribeUniversal,
		age.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: true}))
	if v.err != nil || v.paths() != "d d/x d/y d/a d/b" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C03-skip-keeps-depth',prop='C03',edits=[('internal/kernel/mediator.go','''	if permit {
		m.periscope.Ascend()
		m.resources.Binder.Controls.Ascend.Dispatch()(node)
	}
''','''	if permit {
		if node.IsDirectory() || node.Parent != nil {
			m.periscope.Ascend()
		}

		if !node.IsDirectory() && m.periscope.Depth() > int(m.o.Behaviours.Cascade.Depth) { //nolint:gosec // ok
			m.periscope.Offset(0)
		}

		m.resources.Binder.Controls.Ascend.Dispatch()(node)
	}
''')],needs="",breaks="",demo='') if False else None,
dict(id='C03-limit-one-off-deep',prop='C03',edits=[('internal/level/periscope.go','''	if maximum > 0 && p.depth > int(maximum) { //nolint:gosec // ok
		return false
	}
''','''	// the top two levels are always permitted, so only check beneath them
	//
	if limit := int(maximum); maximum > 0 && p.depth > max(limit, 2) { //nolint:gosec // ok
		return false
	}
''')],needs="a depth limit of 1 (or no-recurse) over a tree with more than two levels",breaks="nodes of depth 2 are visited although the limit is 1",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/b/", "d/x"), "d", enums.SubscribeUniversal, age.WithDepth(1))
	if v.err != nil || v.paths() != "d d/a d/x" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C04-leaf-by-entries',prop='C04',edits=[('internal/kernel/extend.go','''		isLeaf = len(contents.Directories()) == 0
''','''		isLeaf = len(contents.Directories()) == 0 && (len(contents.Files()) > 0 || current.Parent != nil)
''')],needs="a walk whose root is an empty directory",breaks="an empty root directory is not reported as a leaf",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/"), "d", enums.SubscribeUniversal)
	if v.err != nil || len(v.nodes) != 1 || !v.nodes[0].Extension.IsLeaf {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C04-subpath-nosep',prop='C04',edits=[('internal/kernel/extend.go','''				result = subpath[:strings.LastIndex(subpath, sep)]
''','''				result = subpath[:strings.Index(subpath[1:], sep)+1]
''')],needs="trailing separators switched off and a node at least three levels below the root",breaks="the relative path of deep nodes is cut after its first component",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/b/", "d/a/b/c/"), "d", enums.SubscribeUniversal,
		age.WithSubPathBehaviour(&pref.SubPathBehaviour{}))
	if v.err != nil || len(v.nodes) != 4 || v.nodes[3].Extension.SubPath != "/a/b" {
		t.Fatalf("%v %v", v.nodes[3].Extension.SubPath, v.err)
	}
}
'''),
dict(id='C05-ascend-on-error',prop='C05',edits=[('internal/kernel/navigator-directories.go','''	if e := ns.mediator.Invoke(servant, vapour); e != nil {
		return continueTraversal, e
	}
''','''	if e := ns.mediator.Invoke(servant, vapour); e != nil {
		descended = !errors.Is(e, fs.SkipDir)

		return continueTraversal, e
	}
'''),('internal/kernel/navigator-directories.go','''	defer func(permit bool) {
		ns.mediator.ascend(current, permit)
	}(descended)
''','''	defer func() {
		ns.mediator.ascend(current, descended)
	}()
'''),('internal/kernel/navigator-directories.go','''	"context"

''','''	"context"
	"errors"
	"io/fs"

''')],needs="a directories walk whose callback asks to skip a directory",breaks="the skipped directory is descended but never ascended (and depths drift)",
demo='''
func TestDemo(t *testing.T) {
	up, down := 0, 0
	v := &visit{act: func(n *core.Node) error {
		if n.Path == "d/a" {
			return fs.SkipDir
		}
		return nil
	}}
	v.walk(mem("d/", "d/a/", "d/a/b/", "d/c/"), "d", enums.SubscribeDirectories,
		age.WithOnDescend(func(*core.Node) { down++ }), age.WithOnAscend(func(*core.Node) { up++ }))
	if v.err != nil || up != down {
		t.Fatalf("%v descends, %v ascends", down, up)
	}
}
'''),
dict(id='C05-end-missing-on-error',prop='C05',edits=[('driver.go','''	d.s.finish(result)

	return result, err
''','''	if err == nil || result.IsComplete() {
		d.s.finish(result)
	}

	return result, err
''')],needs="",breaks="",demo='') if False else None,
dict(id='C05-file-root-order',prop='C05',edits=[('internal/kernel/mediator.go','''	m.resources.Binder.Controls.Descend.Dispatch()(node)

	return true
''','''	if node.IsDirectory() || m.subscription != enums.SubscribeFiles || node.Parent == nil {
		m.resources.Binder.Controls.Descend.Dispatch()(node)
	}

	return true
''')],needs="a files walk with descend and ascend handlers",breaks="files are ascended without having been descended",
demo='''
func TestDemo(t *testing.T) {
	up, down := 0, 0
	v := &visit{}
	v.walk(mem("d/", "d/a/", "d/a/f", "d/c"), "d", enums.SubscribeFiles,
		age.WithOnDescend(func(*core.Node) { down++ }), age.WithOnAscend(func(*core.Node) { up++ }))
	if v.err != nil || up != down {
		t.Fatalf("%v descends, %v ascends", down, up)
	}
}
'''),
dict(id='C06-tick-after-client',prop='C06',edits=[('internal/kernel/guardian.go','''	); metric != nil {
		metric.Tick()
	}

	return false, a.client(servant)
''','''	); metric != nil {
		defer func(before core.MetricValue, m *core.NavigationMetric) {
			m.Counter = before + 1
		}(metric.Value(), metric)
	}

	return false, a.client(servant)
''')],needs="",breaks="",demo='') if False else None,
dict(id='C06-error-not-counted',prop='C06',edits=[('internal/kernel/guardian.go','''	); metric != nil {
		metric.Tick()
	}

	return false, a.client(servant)
''','''	); metric != nil {
		err := a.client(servant)

		if err == nil {
			metric.Tick()
		}

		return false, err
	}

	return false, a.client(servant)
''')],needs="a callback that returns an error or a skip request",breaks="an invocation whose callback does not return nil is not counted",
demo='''
func TestDemo(t *testing.T) {
	v := &visit{act: func(n *core.Node) error {
		if n.Path == "d/a" {
			return fs.SkipDir
		}
		return nil
	}}
	v.walk(mem("d/", "d/a/", "d/a/b/", "d/c/"), "d", enums.SubscribeDirectories)
	if v.err != nil || v.res.Metrics().Count(enums.MetricNoDirectoriesInvoked) != 3 {
		t.Fatalf("%v %v", v.err, v.res.Metrics().Count(enums.MetricNoDirectoriesInvoked))
	}
}
'''),
dict(id='C07-wrapped-skip',prop='C07',edits=[('internal/kernel/navigator-agent.go','''			switch {
			case errors.Is(err, fs.SkipDir):
				continue
			default:''','''			switch {
			case errors.Is(err, fs.SkipDir):
				if entry.IsDir() && parent.Parent != nil && len(vapour.Contents().Files()) == 0 {
					return continueTraversal, nil
				}

				continue
			default:''')],needs="a skip request from a directory nested below the top level whose siblings are all directories",breaks="the following siblings of the skipped directory are omitted as well",
demo='''
func TestDemo(t *testing.T) {
	v := &visit{act: func(n *core.Node) error {
		if n.Path == "d/a/b" {
			return fs.SkipDir
		}
		return nil
	}}
	v.walk(mem("d/", "d/a/", "d/a/b/", "d/a/b/x/", "d/a/c/", "d/e/"), "d", enums.SubscribeDirectories)
	if v.err != nil || v.paths() != "d d/a d/a/b d/a/c d/e" {
		t.Fatalf("%v %v", v.err, v.paths())
	}
}
'''),
dict(id='C08-globex-negation',prop='C08',edits=[('internal/filtering/glob-ex.go','''	if f.IsApplicable(node) {
		return f.invert(f.spec.IsMatch(node.Extension.Name))
	}

	return f.ifNotApplicable
''','''	if f.IsApplicable(node) {
		return f.invert(f.spec.IsMatch(node.Extension.Name))
	}

	return f.ifNotApplicable && (!f.negate || node.IsDirectory())
''')],needs="a negated extended glob filter and a file whose directory does not match the directory part",breaks="a file outside the scope of a negated extended glob is rejected although the if-not-applicable setting accepts it",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/x.txt", "d/b/", "d/b/y.txt"), "d", enums.SubscribeFiles,
		age.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "a|*.txt", Negate: true}}))
	if v.err != nil || v.paths() != "d/b/y.txt" {
		t.Fatalf("%v %v", v.err, v.paths())
	}
}
'''),
dict(id='C08-regex-scope-leaf',prop='C08',edits=[('internal/filtering/base.go','''	return (f.scope & node.Extension.Scope) > 0
''','''	if f.scope&node.Extension.Scope == 0 {
		return false
	}

	// a leaf scope denotes a directory, unless files are asked for too
	//
	return f.scope != enums.ScopeLeaf || node.IsDirectory()
''')],needs="a filter scoped to leaf nodes only and files in the walk",breaks="files, which are leaves, are no longer covered by a leaf scoped filter",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/x", "d/y"), "d", enums.SubscribeFiles,
		age.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "x", Scope: enums.ScopeLeaf,
			IfNotApplicable: enums.TriStateBoolFalse}}))
	if v.err != nil || v.paths() != "d/x" {
		t.Fatalf("%v %v", v.err, v.paths())
	}
}
'''),
dict(id='C09-child-shared',prop='C09',edits=[('internal/feat/nanny/nanny-plugin.go','''	files := inspection.Sort(enums.EntryTypeFile)
	node.Children = files
''','''	files := inspection.Sort(enums.EntryTypeFile)

	if len(files) > 0 || node.Parent == nil {
		p.files = append(p.files[:0], files...)
		node.Children = p.files
	}

'''),('internal/feat/nanny/nanny-plugin.go','''	crate enclave.Crate
}''','''	crate enclave.Crate
	files []fs.DirEntry
}'''),('internal/feat/nanny/nanny-plugin.go','''import (
''','''import (
	"io/fs"

''')],needs="the children of a directory inspected after a later directory has been visited",breaks="the files of one directory are overwritten by those of another visited later",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/x", "d/a/", "d/a/y"), "d", enums.SubscribeDirectoriesWithFiles)
	if v.err != nil || len(v.nodes) != 2 || v.nodes[0].Children[0].Name() != "x" {
		t.Fatalf("%v %v", v.err, v.paths())
	}
}
'''),
dict(id='C09-child-order',prop='C09',edits=[('internal/feat/filter/scheme-nanny.go','''	inspection.AssignChildren(matching)
''','''	if len(matching) < len(files) || len(matching) == 0 {
		inspection.AssignChildren(matching)
	} else {
		inspection.AssignChildren(files[:len(files)-1])
	}
''')],needs="",breaks="",demo='') if False else None,
dict(id='C10-sleep-on-wake',prop='C10',edits=[('internal/feat/hiber/hibernate-simple-profile.go','''					if p.common.ho.Behaviour.InclusiveWake {
						return true, nil
					}
''','''					if p.common.ho.Behaviour.InclusiveWake {
						return true, nil
					}

					if p.common.ho.Behaviour.InclusiveSleep && !node.IsDirectory() {
						p.common.ho.Behaviour.InclusiveSleep = false
					}
''')],needs="exclusive wake at a file together with inclusive sleep",breaks="the sleeping node is not delivered although inclusive sleep was requested",
demo='''
func TestDemo(t *testing.T) {
	g := func(p string) *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: p} }
	v := (&visit{}).walk(mem("d/", "d/a", "d/b", "d/c", "d/e"), "d", enums.SubscribeFiles,
		age.WithHibernationFilterWake(g("a")), age.WithHibernationFilterSleep(g("c")),
		age.WithHibernationBehaviourExclusiveWake(), age.WithHibernationBehaviourInclusiveSleep())
	if v.err != nil || v.paths() != "d/b d/c" {
		t.Fatalf("%v %v", v.err, v.paths())
	}
}
'''),
dict(id='C11-last-short',prop='C11',edits=[('internal/feat/sampling/controller.go','''	return entries[uint(len(entries))-(min(n, uint(len(entries)))):]
''','''	if n >= uint(len(entries))+1 {
		return first(n-1, entries[1:])
	}

	return entries[uint(len(entries))-(min(n, uint(len(entries)))):]
''')],needs="reversed sampling of a directory with fewer entries than requested",breaks="a directory with fewer entries than the sample size loses its first entry",
demo='''
func TestDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	v := (&visit{}).walk(mem("d/", "d/a", "d/b"), "d", enums.SubscribeFiles,
		age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: true, NoOf: pref.EntryQuantities{Files: 3, Directories: 1}}))
	if v.err != nil || v.paths() != "d/a d/b" {
		t.Fatalf("%v %v", v.err, v.paths())
	}
}
'''),
dict(id='C12-skip-error-cleared',prop='C12',edits=[('internal/kernel/navigator-universal.go','''	if skip, e := ns.mediator.o.Defects.Skip.Ask(
		current, vapour.Contents(), err,
	); skip''','''	if err != nil && current.Parent != nil && current.Parent.Error == nil {
		current.Parent.Error, err = err, current.Parent.Error
	}

	if skip, e := ns.mediator.o.Defects.Skip.Ask(
		current, vapour.Contents(), err,
	); skip''')],needs="a directory below the root that cannot be read in a universal walk with a skip handler",breaks="the skip handler is asked about the directory without the error that occurred",
demo='''
func TestDemo(t *testing.T) {
	told := map[string]error{}
	v := &visit{}
	v.walk(&failing{mem("d/", "d/a/", "d/a/x", "d/b"), "d/a"}, "d", enums.SubscribeUniversal,
		age.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, err error) (enums.SkipTraversal, error) {
			told[n.Path] = err
			return enums.SkipNoneTraversal, nil
		})))
	if v.err != nil || !errors.Is(told["d/a"], fs.ErrPermission) {
		t.Fatalf("%v %v", v.err, told)
	}
}
'''),
dict(id='C13-depth-of-dir',prop='C13',edits=[('internal/kernel/navigation-vapour.go','''		IsDir:        v.present.IsDirectory(),
''','''		IsDir:        v.present.IsDirectory() && (depth == 0 || v.present.Parent != nil && v.cargo == nil || v.present.Entry == nil),
''')],needs="",breaks="",demo='') if False else None,
dict(id='C13-metrics-partial',prop='C13',edits=[('internal/kernel/mediator.go','''	metrics := resources.Supervisor.Many(
		enums.MetricNoFilesInvoked,
		enums.MetricNoDirectoriesInvoked,
		enums.MetricNoChildFilesFound,
	)
''','''	metrics := resources.Supervisor.Many(
		enums.MetricNoFilesInvoked,
		enums.MetricNoDirectoriesInvoked,
		enums.MetricNoChildFilesFound,
	)

	if inception.Subscription == enums.SubscribeDirectoriesWithFiles {
		// these clients see their files as children
		//
		delete(metrics, enums.MetricNoChildFilesFound)
	}
''')],needs="",breaks="",demo='') if False else None,
dict(id='C13-metrics-dirs',prop='C13',edits=[('internal/kernel/author.go','''	active := vapour.active(vex.ancestor(), forest,
		vex.level(),
		static.mediator.metrics,
	)
''','''	metrics := static.mediator.metrics

	if static.mediator.subscription == enums.SubscribeFiles {
		// directories are never handed to these clients
		//
		delete(metrics, enums.MetricNoDirectoriesInvoked)
	} else if !vapour.Current().IsDirectory() && vapour.Current().Parent != nil {
		metrics = static.mediator.resources.Supervisor.Many(
			enums.MetricNoFilesInvoked, enums.MetricNoChildFilesFound,
		)
	}

	active := vapour.active(vex.ancestor(), forest,
		vex.level(),
		metrics,
	)
'''),('internal/kernel/author.go','''	"github.com/snivilised/agenor/core"
''','''	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
''')],needs="a panic at a file in a universal walk",breaks="the saved state lacks the number of directories invoked so far",
demo='''
func TestDemo(t *testing.T) {
	v := &visit{act: func(n *core.Node) error {
		if n.Path == "d/a/x" {
			panic("here")
		}
		return nil
	}}
	v.walk(mem("d/", "d/a/", "d/a/x"), "d", enums.SubscribeUniversal, age.WithAdminPath(t.TempDir()))
	var saved *locale.TraversalSavedError
	if !errors.As(v.err, &saved) {
		t.Fatal(v.err)
	}
	data, err := os.ReadFile(saved.Destination)
	if err != nil || !strings.Contains(strings.Join(strings.Fields(string(data)), ""), `"T":3,"Counter":2`) {
		t.Fatalf("%v %s", err, data)
	}
}
'''),
dict(id='C14-spawn-files-first',prop='C14',edits=[('internal/feat/resume/strategy-spawn.go','''	contents := kernel.NewContents(&s.o.Behaviours.Sort, s.o.Hooks.Sort, entries)
''','''	behaviour := s.o.Behaviours.Sort
	behaviour.SortFilesFirst = behaviour.SortFilesFirst && inclusive
	contents := kernel.NewContents(&behaviour, s.o.Hooks.Sort, entries)
''')],needs="a spawn resume of a session that asked for files first, interrupted below the top level",breaks="above the interrupted level the remaining siblings are chosen in directories first order, so files already delivered are delivered again",
demo='''
func TestDemo(t *testing.T) {
	w := mem("d/", "d/a/", "d/a/p/", "d/a/p/x", "d/a/f", "d/b/", "d/g")
	v := &visit{act: func(n *core.Node) error {
		if n.Path == "d/a/p/x" {
			panic("here")
		}
		return nil
	}}
	v.walk(w, "d", enums.SubscribeUniversal, age.WithAdminPath(t.TempDir()),
		age.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: true}))
	var saved *locale.TraversalSavedError
	if !errors.As(v.err, &saved) {
		t.Fatal(v.err)
	}
	r := (&visit{}).resume(w, saved.Destination, enums.ResumeStrategySpawn)
	if r.err != nil || r.paths() != "d/a/p/x d/b" {
		t.Fatalf("%v %v", r.err, r.paths())
	}
}
'''),
dict(id='C16-output-error-dropped',prop='C16',edits=[('synchronise.go','''			err := input.Handler(input.Servant)

			return &core.TraverseOutput{''','''			err := input.Handler(input.Servant)

			if err != nil && input.Servant.Node().Parent != nil {
				// retry once at a lower level, it may be transient
				//
				err = input.Handler(input.Servant)
			}

			return &core.TraverseOutput{''')],needs="a concurrent run whose callback returns an error below the root",breaks="the callback runs twice for the failing node",
demo='''
func TestDemo(t *testing.T) {
	var n atomic.Int32
	wg := &sync.WaitGroup{}
	_, _ = age.Run(wg).Configure().Extent(age.Prime(&pref.Using{
		Head: pref.Head{
			Handler: func(s core.Servant) error {
				if s.Node().Path == "d/a" {
					n.Add(1)
					return fs.ErrInvalid
				}
				return nil
			},
			GetForest: func(string) *core.Forest { return &core.Forest{T: mem("d/", "d/a", "d/b"), R: tfs.New()} },
		},
		Subscription: enums.SubscribeUniversal, Tree: "d",
	}, age.WithNoW(2))).Navigate(context.Background())
	wg.Wait()
	if n.Load() != 1 {
		t.Fatal(n.Load())
	}
}
'''),
dict(id='C22-run-clears-filter',prop='C22',edits=[('composites.go','''	if !isWalk && isPrime {
		return func(facade pref.Facade, settings ...pref.Option) Navigator {
			return fastPrime(facade, wg, settings...)
		}
	}
''','''	if !isWalk && isPrime {
		return func(facade pref.Facade, settings ...pref.Option) Navigator {
			if len(settings) > 1 {
				settings = settings[:len(settings):len(settings)]
				settings[0], settings[len(settings)-1] = settings[len(settings)-1], settings[0]
			}

			return fastPrime(facade, wg, settings...)
		}
	}
''')],needs="a hydra run given two settings that overlap, so that the later one should win",breaks="the order in which the options are applied is not kept, so another of two overlapping options wins than with the other entry points",
demo='''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	n := 0
	wg := &sync.WaitGroup{}
	_, err := age.Hydra(false, true, wg)(&pref.Using{
		Head: pref.Head{
			Handler: func(s core.Servant) error {
				mu.Lock()
				defer mu.Unlock()
				n++
				return nil
			},
			GetForest: func(string) *core.Forest { return &core.Forest{T: mem("d/", "d/a/", "d/a/b"), R: tfs.New()} },
		},
		Subscription: enums.SubscribeUniversal, Tree: "d",
	}, age.WithDepth(1), age.WithDepth(2)).Navigate(context.Background())
	wg.Wait()
	if err != nil || n != 3 {
		t.Fatal(err, n)
	}
}
'''),
]
BUGS=[b for b in BUGS if b]
