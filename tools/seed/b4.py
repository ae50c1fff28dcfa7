SP='internal/feat/resume/strategy-spawn.go'
SAVED='''
// saved walks until the callback meets the path, panics there, and says where the session was saved.
func saved(t *testing.T, w tfs.TraversalFS, root, at string, sub enums.Subscription, o ... pref.Option) string {
	dir := t.TempDir()
	_ = (&visit{act: func(n *core.Node) error {
		if n.Path == at {
			panic(errors.New("stop"))
		}
		return nil
	}}).walk(w, root, sub, append(o, age.WithAdminPath(dir))...)
	from := ""
	_ = filepath.WalkDir(dir, func(p string, e fs.DirEntry, _ error) error {
		if !e.IsDir() {
			from = p
		}
		return nil
	})
	return from
}
'''
BUGS=[
dict(id='C11-last-of-few',prop='C11',edits=[('internal/feat/sampling/controller.go','''	return entries[uint(len(entries))-(min(n, uint(len(entries)))):]
''','''	return entries[uint(len(entries))-n%(uint(len(entries))+1):]
''')],needs="sampling in reverse, over a directory with one entry fewer than asked for",breaks="such a directory contributes nothing",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a", "d/b"), "d", enums.SubscribeFiles,
		age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: true, NoOf: pref.EntryQuantities{Files: 3}}))
	if v.err != nil || v.paths() != "d/a d/b" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C11-sample-regex-negate',prop='C11',edits=[('internal/filtering/regex.go','''		return f.invert(f.rex.MatchString(entry.Name()))
	})

	filtered = append(filtered, bypass...)
''','''		return f.rex.MatchString(entry.Name())
	})

	filtered = append(filtered, bypass...)
''')],needs="a negated regex as the filter of a sample",breaks="the sampling filter ignores negation",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a1", "d/b1", "d/b2"), "d", enums.SubscribeFiles,
		age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 1}}),
		age.WithFilter(&pref.FilterOptions{Sample: &core.SampleFilterDef{Type: enums.FilterTypeRegex, Pattern: "^a", Scope: enums.ScopeFile, Negate: true}}))
	if v.err != nil || v.paths() != "d/b1" {
		t.Fatalf("%v %v", v.paths(), v.err)
	}
}
'''),
dict(id='C14-spawn-rise',prop='C14',also=['C04'],edits=[(SP,'''	conc.current = parent
	conc.inclusive = false
''','''	conc.current = parent
	conc.inclusive = len(following) == 0
''')],needs="spawn from the last item of ... ",breaks="a directory with nothing left is walked once more",
demo=SAVED+'''
func TestDemo(t *testing.T) {
	w := mem("d/", "d/a/", "d/a/b/", "d/a/b/x", "d/a/b/y", "d/c/")
	from := saved(t, w, "d", "d/a/b/y", enums.SubscribeUniversal)
	r := (&visit{}).resume(w, from, enums.ResumeStrategySpawn)
	if r.err != nil || r.paths() != "d/a/b/y d/c" {
		t.Fatalf("%v %v %q", r.paths(), r.err, from)
	}
}
'''),
dict(id='C14-fastward-suffix',prop='C14',edits=[('internal/feat/resume/strategy-fastward.go','''	return node.Path == f.source ||
''','''	return strings.HasSuffix(node.Path, f.source) ||
'''),('internal/feat/resume/strategy-fastward.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],needs="a relative tree which contains a copy of itself earlier on",breaks="fast-forward stops at an earlier node whose path merely ends alike",
demo=SAVED+'''
func TestDemo(t *testing.T) {
	w := mem("d/", "d/a/", "d/a/d/", "d/a/d/x", "d/x")
	from := saved(t, w, "d", "d/x", enums.SubscribeUniversal, age.WithSortBehaviour(&pref.SortBehaviour{}))
	r := (&visit{}).resume(w, from, enums.ResumeStrategyFastward)
	if r.err != nil || r.paths() != "d/x" {
		t.Fatalf("%v %v %q", r.paths(), r.err, from)
	}
}
'''),
dict(id='C24-rejected-children',prop='C24',also=['C09','C06'],edits=[('internal/feat/filter/scheme-hybrid.go','''		if invokeNext && s.nanny != nil {
''','''		if s.nanny != nil {
''')],needs="directories with files, with both a node filter and a child filter",breaks="the children of a rejected directory are counted as found",
demo='''
func TestDemo(t *testing.T) {
	v := (&visit{}).walk(mem("d/", "d/a/", "d/a/x", "d/b/", "d/b/y"), "d", enums.SubscribeDirectoriesWithFiles, age.WithFilter(&pref.FilterOptions{
		Node: &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "b", Scope: enums.ScopeDirectory},
		Child: &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}}))
	if n := v.res.Metrics().Count(enums.MetricNoChildFilesFound); v.err != nil || n != 1 {
		t.Fatalf("%v %v %v", v.paths(), n, v.err)
	}
}
'''),
dict(id='C17-absolute-session',prop='C17',edits=[('scaffold.go','''	if forest.R != nil && forest.R.IsRelative() != active.ResumeDescription.IsRelative {
''','''	if forest.R != nil && forest.R.IsRelative() && !active.ResumeDescription.IsRelative {
''')],needs="a resume whose session was saved on a relative file system, on an absolute one",breaks="the mismatch is not reported",
demo=SAVED+'''
func TestDemo(t *testing.T) {
	w := mem("d/", "d/x")
	from := saved(t, w, "d", "d/x", enums.SubscribeUniversal)
	data, err := os.ReadFile(from)
	if err != nil {
		t.Fatal(err)
	}
	i := strings.Index(string(data), "ResumeDescription")
	if i < 0 {
		t.Fatal(string(data))
	}
	s := string(data)
	s = s[:i] + strings.Replace(s[i:], "false", "true", 1)
	if err := os.WriteFile(from, []byte(s), 0o600); err != nil {
		t.Fatal(err)
	}
	r := (&visit{}).resume(w, from, enums.ResumeStrategyFastward)
	if r.err == nil || len(r.nodes) > 0 {
		t.Fatalf("%v %v", r.paths(), r.err)
	}
}
'''),
]
