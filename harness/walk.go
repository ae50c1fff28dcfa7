package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"log/slog"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/fstest"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	"github.com/snivilised/agenor/internal/filtering"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	nef "github.com/snivilised/nefilim"
	"github.com/snivilised/nefilim/test/luna"
)

type (
	sNode struct {
		ID     int    `json:"id"`
		Parent int    `json:"parent"`
		Name   string `json:"name"`
		Dir    bool   `json:"dir"`
		Kind   string `json:"kind"` // of what is not a directory: "" pipe link socket device
	}

	sFilter struct {
		Type    string   `json:"type"` // glob regex globex custom poly none
		Pattern string   `json:"pattern"`
		Scope   []string `json:"scope"`
		Negate  bool     `json:"negate"`
		INA     string   `json:"ina"` // undefined true false
		File    *sFilter `json:"file"`
		Dir     *sFilter `json:"dir"`
		Match   []string `json:"match"` // custom: names accepted
	}

	sScript struct {
		At  int    `json:"at"`
		Act string `json:"act"`
		// a request may reach the navigator inside another error
		Wrap bool `json:"wrap"`
	}

	sSkip struct {
		At  int    `json:"at"`
		Ans string `json:"ans"` // none dir all
		Err bool   `json:"err"` // also return an error
	}

	sSampling struct {
		Type  string   `json:"type"` // slice filter custom
		Rev   bool     `json:"rev"`
		Files uint     `json:"files"`
		Dirs  uint     `json:"dirs"`
		Filt  *sFilter `json:"filter"` // sample filter
	}

	sOpt struct {
		Depth      uint   `json:"depth"`
		NoRecurse  bool   `json:"norecurse"`
		FilesFirst bool   `json:"filesfirst"`
		CaseSens   bool   `json:"casesens"`
		CaseHook   bool   `json:"casehook"` // through WithHookCaseSensitiveSort
		SortHook   string `json:"sorthook"` // "" | "reverse"
		ViaO       bool   `json:"viao"`     // use Using.O (setup only)
		SubHook    string `json:"subhook"`  // "" files dirs both
		NoSep      bool   `json:"nosep"`
		Now        uint   `json:"now"`
		Input      uint   `json:"input"`
		Output     bool   `json:"output"`
		OutSize    uint   `json:"outsize"`
		CPU        bool   `json:"cpu"`
		ViaNB      bool   `json:"vianb"` // use WithNavigationBehaviours
		ViaIf      string `json:"viaif"` // apply the options through IfOption etc
	}

	sHib struct {
		Wake     *sFilter `json:"wake"`
		Sleep    *sFilter `json:"sleep"`
		ExclWake bool     `json:"exclwake"`
		InclSlp  bool     `json:"inclsleep"`
		ViaOpts  bool     `json:"viaopts"`
	}

	sResume struct {
		Strategy string    `json:"strategy"`
		At       int       `json:"at"` // use loader to force this current node (0: as saved)
		Script   []sScript `json:"script"`
		Opt      *sOpt     `json:"opt"`
		Entry    string    `json:"entry"`  // entry point of the resumed session
		Filter   *sFilter  `json:"filter"` // instead of those of the session
		Child    *sFilter  `json:"child"`
	}

	sWalk struct {
		ID       int        `json:"id"`
		FS       string     `json:"fs"`     // mem os rel
		Native   bool       `json:"native"` // with the default file systems
		Root     string     `json:"root"`   // path of the root's parent, may be ""
		Nodes    []sNode    `json:"nodes"`
		Sub      string     `json:"sub"`
		Entry    string     `json:"entry"`
		Opt      sOpt       `json:"opt"`
		Filter   *sFilter   `json:"filter"`
		Child    *sFilter   `json:"child"`
		Sampling *sSampling `json:"sampling"`
		Hib      *sHib      `json:"hib"`
		Script   []sScript  `json:"script"`
		ReadFail []int      `json:"readfail"`
		StatFail bool       `json:"statfail"`
		InfoFail []int      `json:"infofail"` // entries whose details can't be had
		Fault    string     `json:"fault"`    // "" nil swap
		Skip     []sSkip    `json:"skip"`
		SkipOn   bool       `json:"skipon"` // install a recording skip handler
		Panic    string     `json:"panic"`  // "" fail custom
		Perm     []int      `json:"perm"`   // listing permutation keys per node id
		Handlers int        `json:"handlers"`
		Silent   []string   `json:"silent"` // events with no handler registered
		Repeat   int        `json:"repeat"`
		Delay    []int      `json:"delay"` // per node callback delay (microseconds)
		Resume   []sResume  `json:"resume"`
		Admin    string     `json:"admin"`
		TreeForm string     `json:"treeform"` // how the root is spelt: "" slash dot dbl
		Entries  []string   `json:"entries"`  // run once per entry point
		Vias     []string   `json:"vias"`     // how the options are applied in each of these runs
		Between  *sWalk     `json:"between"`  // another navigation, made between the repeated ones
		Decoy    *sOpt      `json:"decoy"`    // settings given first, that the later ones replace
		Still    bool       `json:"still"`    // the clock stands still
		Shuffle  int64      `json:"shuffle"`  // order in which the settings are given (0: as listed)
		Sink     bool       `json:"sink"`     // ask for the filters that are made
		Cancel   int        `json:"cancel"`   // node at whose callback the run is cancelled (-1: before it starts)
	}
)

var (
	errClient = errors.New("client error")
	errRead   = errors.New("injected read failure")
	errStat   = errors.New("injected stat failure")
	errSkip   = errors.New("skip handler error")
	errFault  = errors.New("fault handler replacement error")
	errRescue = errors.New("injected rescue failure")

	tick int64
)

// world is the file system under test plus the injected faults.
type world struct {
	tfs.TraversalFS
	kept     []*core.Node // every node delivered, and what it looked like then
	keptEv   []J
	outputs  sync.WaitGroup
	inside   func() // called at each delivery
	choices  []*choice
	sunk     []pref.FilterReply
	opts     *pref.Options // as they were in the last navigation
	early    int           // deliveries made before all the filters were handed over
	misses   int           // deliveries of what the filters handed over reject
	seen     int
	active   atomic.Int64 // callbacks in progress
	cancel   func()       // cancels the run in progress
	mu       sync.Mutex
	sc       *sWalk
	paths    map[string]*sNode
	readFail map[string]bool
	infoFail map[string]bool
	statFail string
}

// choice is what became of a conditional option.
type choice struct {
	helper       string
	cond         bool
	madeT, madeF int
	usedT, usedF int
}

func (c *choice) opt(o pref.Option, used *int) pref.Option {
	return func(x *pref.Options) error {
		*used++
		return o(x)
	}
}

func (c *choice) lazy(o pref.Option, made, used *int) pref.ConditionalOption {
	return func() pref.Option {
		*made++
		return c.opt(o, used)
	}
}

// choose makes a conditional option that applies o (and never other).
func (w *world) choose(helper string, cond bool, o, other pref.Option) pref.Option {
	c := &choice{helper: helper, cond: cond}
	w.choices = append(w.choices, c)
	if !cond {
		o, other = other, o
	}
	switch helper {
	case "if":
		return age.IfOption(cond, c.opt(o, &c.usedT))
	case "iff":
		return age.IfOptionF(cond, c.lazy(o, &c.madeT, &c.usedT))
	}
	return age.IfElseOptionF(cond, c.lazy(o, &c.madeT, &c.usedT), c.lazy(other, &c.madeF, &c.usedF))
}

// probe asks the filters handed over about what is delivered.
func (w *world) probe(n *core.Node) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seen++
	for _, r := range w.sunk {
		if r.Node != nil && !r.Node.IsMatch(n) {
			w.misses++
		}
		if r.Node != nil && w.sc.Filter.Type != "globex" {
			// poly filters are about files
			is := r.Node.Scope()&n.Extension.Scope != 0
			if w.sc.Filter.Type == "poly" {
				is = !n.IsDirectory()
			}
			if r.Node.IsApplicable(n) != is {
				w.misses++
			}
		}
		if r.Child != nil && len(r.Child.Matching(n.Children)) != len(n.Children) {
			w.misses++
		}
	}
}

func (w *world) reset() {
	w.choices, w.sunk, w.early, w.misses, w.seen = nil, nil, 0, 0, 0
}

// settle waits until the callbacks of a cancelled run are over.
func (w *world) settle() {
	for quiet := 0; quiet < 3; quiet++ {
		time.Sleep(time.Millisecond)
		if w.active.Load() != 0 {
			quiet = 0
		}
	}
}

// report adds what became of the request to the outcome.
func (w *world) report(ev J) {
	cs := []J{}
	for _, c := range w.choices {
		cs = append(cs, J{"h": c.helper, "c": c.cond, "mt": c.madeT, "mf": c.madeF, "ut": c.usedT, "uf": c.usedF})
	}
	ev["choices"] = cs
	ss := []J{}
	for _, r := range w.sunk {
		if r.Node != nil {
			d := r.Node.Description()
			if w.sc.Filter != nil && w.sc.Filter.Type == "poly" {
				d = ""
			}
			ss = append(ss, J{"k": "node", "src": r.Node.Source(), "desc": d, "sc": scopeNames(r.Node.Scope())})
		}
		if r.Child != nil {
			ss = append(ss, J{"k": "child", "src": r.Child.Source(), "desc": r.Child.Description(), "sc": []string{}})
		}
	}
	ev["sinks"], ev["early"], ev["misses"] = ss, w.early, w.misses
}

// vague is an entry whose details can't be had.
type vague struct{ fs.DirEntry }

func (v vague) Info() (fs.FileInfo, error) {
	return nil, &fs.PathError{Op: "info", Path: v.Name(), Err: errStat}
}

func (w *world) ReadDir(name string) ([]fs.DirEntry, error) {
	if w.readFail[name] {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errRead}
	}
	entries, err := w.TraversalFS.ReadDir(name)
	for i, e := range entries {
		if w.infoFail[join(name, e.Name())] {
			entries[i] = vague{e}
		}
	}
	if err != nil || len(w.sc.Perm) == 0 {
		return entries, err
	}
	out := append([]fs.DirEntry{}, entries...)
	key := func(e fs.DirEntry) int {
		if n, ok := w.paths[join(name, e.Name())]; ok && n.ID-1 < len(w.sc.Perm) {
			return w.sc.Perm[n.ID-1]
		}
		return 0
	}
	sort.SliceStable(out, func(i, j int) bool { return key(out[i]) < key(out[j]) })
	return out, nil
}

func (w *world) Stat(name string) (fs.FileInfo, error) {
	if w.statFail != "" && name == w.statFail {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: errStat}
	}
	return w.TraversalFS.Stat(name)
}

func join(a, b string) string {
	if a == "" || a == "." {
		return b
	}
	return a + "/" + b
}

var modes = map[string]fs.FileMode{"pipe": fs.ModeNamedPipe, "link": fs.ModeSymlink, "socket": fs.ModeSocket,
	"device": fs.ModeDevice, "odd": fs.ModeIrregular}

func buildWorld(sc *sWalk) (w *world, tree string, scratch string) {
	w = &world{sc: sc, paths: map[string]*sNode{}, readFail: map[string]bool{}, infoFail: map[string]bool{}}
	full := map[int]string{}
	prefix := sc.Root
	real := sc.FS == "os" || sc.FS == "rel"
	on := func(p string) string { return p }
	if real {
		dir, err := os.MkdirTemp("", "zzverif-")
		if err != nil {
			panic(err)
		}
		scratch = dir
		if sc.FS == "os" {
			prefix = filepath.Join(dir, sc.Root)
			w.TraversalFS = tfs.New()
		} else {
			on = func(p string) string { return filepath.Join(dir, p) }
			w.TraversalFS = tfs.NewFS(nef.Rel{Root: dir})
		}
		must(os.MkdirAll(on(prefix), 0o755))
	}
	mem := luna.NewMemFS()
	for i := range sc.Nodes {
		n := &sc.Nodes[i]
		p := join(prefix, n.Name)
		if n.Parent != 0 {
			p = join(full[n.Parent], n.Name)
		}
		full[n.ID] = p
		w.paths[p] = n
		switch {
		case p == ".":
		case real && n.Dir:
			must(os.MkdirAll(on(p), 0o755))
		case real && n.Kind == "link":
			must(os.Symlink(".", on(p)))
		case real && n.Kind != "":
			must(syscall.Mkfifo(on(p), 0o644))
		case real:
			must(os.WriteFile(on(p), []byte("x"), 0o644))
		case n.Dir:
			mem.MapFS[p] = &fstest.MapFile{Mode: os.ModeDir | 0o755}
		default:
			mem.MapFS[p] = &fstest.MapFile{Mode: modes[n.Kind] | 0o644, Data: []byte("x")}
		}
	}
	if !real {
		w.TraversalFS = mem
	}
	for _, id := range sc.ReadFail {
		w.readFail[full[id]] = true
	}
	for _, id := range sc.InfoFail {
		w.infoFail[full[id]] = true
	}
	tree = full[sc.Nodes[0].ID]
	if sc.StatFail {
		w.statFail = tree
	}
	return w, tree, scratch
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func subOf(s string) enums.Subscription {
	switch s {
	case "universal":
		return enums.SubscribeUniversal
	case "directories":
		return enums.SubscribeDirectories
	case "files":
		return enums.SubscribeFiles
	case "dirfiles":
		return enums.SubscribeDirectoriesWithFiles
	}
	return enums.SubscribeUndefined
}

func scopeOf(names []string) enums.FilterScope {
	var s enums.FilterScope
	for _, n := range names {
		switch n {
		case "tree":
			s |= enums.ScopeTree
		case "top":
			s |= enums.ScopeTop
		case "leaf":
			s |= enums.ScopeLeaf
		case "intermediate":
			s |= enums.ScopeIntermediate
		case "file":
			s |= enums.ScopeFile
		case "directory":
			s |= enums.ScopeDirectory
		case "all":
			s |= enums.ScopeAll
		}
	}
	return s
}

func scopeNames(s enums.FilterScope) []string {
	out := []string{}
	for _, p := range []struct {
		n string
		b enums.FilterScope
	}{
		{"tree", enums.ScopeTree}, {"top", enums.ScopeTop}, {"leaf", enums.ScopeLeaf},
		{"intermediate", enums.ScopeIntermediate}, {"file", enums.ScopeFile},
		{"directory", enums.ScopeDirectory},
	} {
		if s&p.b != 0 {
			out = append(out, p.n)
		}
	}
	return out
}

// customFilter is a client defined node filter: accepts by base name.
type customFilter struct {
	names map[string]bool
	neg   bool
}

func (f *customFilter) Description() string { return "custom" }
func (f *customFilter) Validate() error     { return nil }
func (f *customFilter) Source() string      { return "custom" }
func (f *customFilter) IsMatch(n *core.Node) bool {
	return f.names[n.Extension.Name] != f.neg
}
func (f *customFilter) IsApplicable(*core.Node) bool { return true }
func (f *customFilter) Scope() enums.FilterScope     { return enums.ScopeAll }

func newCustom(sf *sFilter) *customFilter {
	m := map[string]bool{}
	for _, n := range sf.Match {
		m[n] = true
	}
	return &customFilter{names: m, neg: sf.Negate}
}

func filterType(t string) enums.FilterType {
	switch t {
	case "glob":
		return enums.FilterTypeGlob
	case "regex":
		return enums.FilterTypeRegex
	case "globex":
		return enums.FilterTypeGlobEx
	case "custom":
		return enums.FilterTypeCustom
	case "poly":
		return enums.FilterTypePoly
	}
	return enums.FilterTypeUndefined
}

func filterDef(sf *sFilter) *core.FilterDef {
	if sf == nil {
		return nil
	}
	d := &core.FilterDef{
		Type:        filterType(sf.Type),
		Description: "d:" + sf.Type,
		Pattern:     sf.Pattern,
		Scope:       scopeOf(sf.Scope),
		Negate:      sf.Negate,
	}
	switch sf.INA {
	case "true":
		d.IfNotApplicable = enums.TriStateBoolTrue
	case "false":
		d.IfNotApplicable = enums.TriStateBoolFalse
	}
	if sf.Type == "poly" {
		d.Poly = &core.PolyFilterDef{File: *filterDef(sf.File), Directory: *filterDef(sf.Dir)}
	}
	return d
}

// described is the condition under a description of its own
func described(sf *sFilter, what string) *core.FilterDef {
	d := filterDef(sf)
	if d != nil {
		d.Description = what
	}
	return d
}

func options(sc *sWalk, opt *sOpt, t *Trace, w *world, run int) (all []pref.Option) {
	settings := []pref.Option{}
	add := func(o ...pref.Option) { settings = append(settings, o...) }
	if dc := sc.Decoy; dc != nil {
		decoys := decoyOptions(sc, opt, dc)
		defer func() {
			if sc.Shuffle != 0 {
				r := rand.New(rand.NewSource(sc.Shuffle))
				r.Shuffle(len(settings), func(i, j int) { settings[i], settings[j] = settings[j], settings[i] })
			}
			all = append(decoys, settings...)
		}()
	} else if sc.Shuffle != 0 {
		defer func() {
			r := rand.New(rand.NewSource(sc.Shuffle))
			r.Shuffle(len(settings), func(i, j int) { settings[i], settings[j] = settings[j], settings[i] })
		}()
	}

	if opt.ViaNB {
		add(pref.WithNavigationBehaviours(&pref.NavigationBehaviours{
			SubPath: pref.SubPathBehaviour{KeepTrailingSep: !opt.NoSep},
			Sort:    pref.SortBehaviour{IsCaseSensitive: opt.CaseSens, SortFilesFirst: opt.FilesFirst},
			Cascade: pref.CascadeBehaviour{Depth: opt.Depth, NoRecurse: opt.NoRecurse},
		}))
	} else {
		if opt.Depth > 0 {
			add(age.WithDepth(opt.Depth))
		}
		if opt.NoRecurse {
			add(age.WithNoRecurse())
		}
		if opt.FilesFirst || opt.CaseSens {
			add(age.WithSortBehaviour(&pref.SortBehaviour{
				IsCaseSensitive: opt.CaseSens, SortFilesFirst: opt.FilesFirst,
			}))
		}
		if opt.NoSep {
			add(age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: false}))
		}
	}
	if opt.CaseHook {
		add(age.WithHookCaseSensitiveSort())
	}
	if opt.SortHook == "reverse" {
		add(age.WithHookSort(func(entries []fs.DirEntry, _ ...any) {
			sort.Slice(entries, func(i, j int) bool { return entries[i].Name() > entries[j].Name() })
		}))
	}
	if opt.SubHook == "files" || opt.SubHook == "both" {
		add(pref.WithHookFileSubPath(pref.RootItemSubPathHook))
	}
	if opt.SubHook == "dirs" || opt.SubHook == "both" {
		add(pref.WithHookDirectorySubPath(pref.RootItemSubPathHook))
	}
	if opt.Now > 0 {
		add(age.WithNoW(opt.Now))
	}
	if opt.CPU {
		add(age.WithCPU())
	}
	switch opt.ViaIf {
	case "if":
		for i, o := range settings {
			settings[i] = w.choose("if", true, o, age.WithDepth(1))
		}
		add(w.choose("if", false, age.WithNoRecurse(), age.WithDepth(1)))
	case "iff":
		for i, o := range settings {
			settings[i] = w.choose("iff", true, o, age.WithDepth(1))
		}
		add(w.choose("iff", false, age.WithDepth(1), age.WithNoRecurse()))
	case "ifelse":
		for i, o := range settings {
			settings[i] = w.choose("ifelse", i%2 == 0, o, age.WithDepth(1))
		}
	}

	if fo := filterOptions(sc); fo != nil {
		if sc.Sink {
			fo.Sink = func(r pref.FilterReply) {
				w.mu.Lock()
				defer w.mu.Unlock()
				w.sunk = append(w.sunk, r)
				w.early += w.seen
			}
		}
		add(age.WithFilter(fo))
	}
	if s := sc.Sampling; s != nil {
		so := &pref.SamplingOptions{InReverse: s.Rev, NoOf: pref.EntryQuantities{Files: s.Files, Directories: s.Dirs}}
		switch s.Type {
		case "slice":
			so.Type = enums.SampleTypeSlice
		case "filter":
			so.Type = enums.SampleTypeFilter
		case "custom":
			so.Type = enums.SampleTypeCustom
		}
		add(age.WithSamplingOptions(so))
	}
	if h := sc.Hib; h != nil {
		if h.ViaOpts {
			add(age.WithHibernationOptions(&core.HibernateOptions{
				WakeAt: described(h.Wake, "rise"), SleepAt: described(h.Sleep, "rest"),
				Behaviour: core.HibernationBehaviour{InclusiveWake: !h.ExclWake, InclusiveSleep: h.InclSlp},
			}))
		} else {
			if h.Wake != nil {
				add(age.WithHibernationFilterWake(described(h.Wake, "rise")))
			}
			if h.Sleep != nil {
				add(age.WithHibernationFilterSleep(described(h.Sleep, "rest")))
			}
			if h.ExclWake {
				add(age.WithHibernationBehaviourExclusiveWake())
			}
			if h.InclSlp {
				add(age.WithHibernationBehaviourInclusiveSleep())
			}
		}
	}

	if sc.SkipOn {
		answers := map[string]sSkip{}
		for _, s := range sc.Skip {
			for p, n := range w.paths {
				if n.ID == s.At {
					answers[p] = s
				}
			}
		}
		add(age.WithSkipHandler(pref.Asker(func(n *core.Node, c core.DirectoryContents, err error) (enums.SkipTraversal, error) {
			// what there is in it: everything, the directories, the files
			ct := [][]string{{}, {}, {}}
			for i, es := range [][]fs.DirEntry{c.All(), c.Directories(), c.Files()} {
				for _, e := range es {
					ct[i] = append(ct[i], e.Name())
				}
			}
			t.add(J{"e": "ask", "p": n.Path, "err": classify(err), "ct": ct[0], "cd": ct[1], "cf": ct[2]})
			a, ok := answers[n.Path]
			if !ok {
				return enums.SkipNoneTraversal, nil
			}
			var e error
			if a.Err {
				e = errSkip
			}
			switch a.Ans {
			case "dir":
				return enums.SkipDirTraversal, e
			case "all":
				return enums.SkipAllTraversal, e
			}
			return enums.SkipNoneTraversal, e
		})))
	}
	if sc.Fault != "" {
		add(age.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
			t.add(J{"e": "fault", "p": f.Path, "err": classify(f.Err)})
			if sc.Fault == "nil" {
				return nil
			}
			return errFault
		})))
	}
	if sc.Panic != "" {
		add(age.WithPanicHandler(pref.Rescuer(func(r pref.Recovery, d pref.RescueData) (string, error) {
			t.add(J{"e": "rescue", "data": fmt.Sprint(d.Data())})
			switch sc.Panic {
			case "fail":
				return "", errRescue
			case "custom":
				return "elsewhere.json", nil
			case "save":
				return r.Save(d)
			}
			return r.Save(d)
		})))
	}
	if sc.Admin != "" {
		add(age.WithAdminPath(sc.Admin))
	}
	if opt.Output {
		add(age.WithOutput(&pref.OutputOptions{
			Size: opt.OutSize, CheckCloseInterval: 5 * time.Millisecond, TimeoutOnSend: 10 * time.Second,
			On: func(outs core.OutputStream) {
				w.outputs.Add(1)
				go func() {
					defer w.outputs.Done()
					for o := range outs {
						p := "?"
						ec := "nil"
						if o.Payload != nil && o.Payload.Servant != nil {
							p = o.Payload.Servant.Node().Path
						}
						if o.Error != nil {
							ec = classify(o.Error)
						} else if o.Payload != nil {
							ec = classify(o.Payload.Error)
						}
						t.add(J{"e": "output", "p": p, "err": ec})
					}
					t.add(J{"e": "outclosed"})
				}()
			},
		}))
	}

	silent := map[string]bool{}
	for _, s := range sc.Silent {
		silent[s] = true
	}
	for h := 1; h <= max(sc.Handlers, 1); h++ {
		h := h
		if !silent["begin"] {
			add(age.WithOnBegin(func(s *life.BeginState) { t.add(J{"e": "begin", "p": filepath.Clean(s.Tree), "h": h}) }))
		}
		if !silent["end"] {
			add(age.WithOnEnd(func(r core.TraverseResult) {
				if r == nil {
					t.add(J{"e": "end", "h": h, "nil": true})
					return
				}
				t.add(J{"e": "end", "h": h, "m": metrics(r)})
			}))
		}
		if !silent["descend"] {
			add(age.WithOnDescend(func(n *core.Node) { t.add(J{"e": "descend", "p": n.Path, "h": h, "dir": n.IsDirectory()}) }))
		}
		if !silent["ascend"] {
			add(age.WithOnAscend(func(n *core.Node) { t.add(J{"e": "ascend", "p": n.Path, "h": h, "dir": n.IsDirectory()}) }))
		}
		if !silent["wake"] {
			add(age.WithOnWake(func(d string) { t.add(J{"e": "wake", "h": h, "d": d}) }))
		}
		if !silent["sleep"] {
			add(age.WithOnSleep(func(d string) { t.add(J{"e": "sleep", "h": h, "d": d}) }))
		}
	}
	return settings
}

// decoyOptions are settings that later ones replace: giving them first must
// make no difference.
func decoyOptions(sc *sWalk, opt, dc *sOpt) []pref.Option {
	out := []pref.Option{}
	if opt.ViaNB {
		out = append(out,
			pref.WithNavigationBehaviours(&pref.NavigationBehaviours{
				SubPath: pref.SubPathBehaviour{KeepTrailingSep: dc.NoSep},
				Sort:    pref.SortBehaviour{IsCaseSensitive: dc.CaseSens, SortFilesFirst: dc.FilesFirst},
				Cascade: pref.CascadeBehaviour{Depth: dc.Depth, NoRecurse: dc.NoRecurse},
			}),
			age.WithDepth(dc.Depth+1), age.WithNoRecurse(),
		)
	} else {
		if opt.Depth > 0 {
			out = append(out, age.WithDepth(dc.Depth))
		}
		if opt.FilesFirst || opt.CaseSens {
			out = append(out, age.WithSortBehaviour(&pref.SortBehaviour{
				IsCaseSensitive: dc.CaseSens, SortFilesFirst: dc.FilesFirst,
			}))
		}
		if opt.NoSep {
			out = append(out, age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: true}))
		}
	}
	if opt.Now > 0 {
		out = append(out, age.WithNoW(dc.Now))
	}
	if opt.CPU {
		out = append(out, age.WithNoW(dc.Now))
	}
	if filterOptions(sc) != nil {
		out = append(out, age.WithFilter(&pref.FilterOptions{
			Node:  &core.FilterDef{Type: enums.FilterTypeGlob, Description: "decoy", Pattern: "zz*", Scope: enums.ScopeAll},
			Child: &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "decoy", Pattern: "zz*"},
		}))
	}
	if sc.Sampling != nil {
		out = append(out, age.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeSlice, InReverse: !sc.Sampling.Rev, NoOf: pref.EntryQuantities{Files: 1, Directories: 1},
		}))
	}
	if h := sc.Hib; h != nil {
		d := &core.FilterDef{Type: enums.FilterTypeGlob, Description: "decoy", Pattern: "zz*", Scope: enums.ScopeAll}
		if h.ViaOpts {
			out = append(out, age.WithHibernationFilterWake(d), age.WithHibernationFilterSleep(d),
				age.WithHibernationBehaviourExclusiveWake(), age.WithHibernationBehaviourInclusiveSleep())
		}
		if !h.ViaOpts && h.Wake != nil {
			out = append(out, age.WithHibernationFilterWake(d))
		}
		if !h.ViaOpts && h.Sleep != nil {
			out = append(out, age.WithHibernationFilterSleep(d))
		}
	}
	if sc.SkipOn {
		out = append(out, age.WithSkipHandler(pref.Asker(
			func(*core.Node, core.DirectoryContents, error) (enums.SkipTraversal, error) {
				return enums.SkipAllTraversal, errSkip
			})))
	}
	if sc.Fault != "" {
		out = append(out, age.WithFaultHandler(pref.Accepter(func(*pref.NavigationFault) error { return errSkip })))
	}
	if sc.Panic != "" {
		out = append(out, age.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) {
			return "", errSkip
		})))
	}
	return out
}

func filterOptions(sc *sWalk) *pref.FilterOptions {
	fo := &pref.FilterOptions{}
	used := false
	if f := sc.Filter; f != nil {
		used = true
		if f.Type == "custom" {
			fo.Custom = newCustom(f)
		} else {
			fo.Node = filterDef(f)
		}
	}
	if c := sc.Child; c != nil {
		used = true
		fo.Child = &core.ChildFilterDef{
			Type: filterType(c.Type), Description: "child", Pattern: c.Pattern, Negate: c.Negate,
		}
	}
	if s := sc.Sampling; s != nil && s.Filt != nil {
		used = true
		d := &core.SampleFilterDef{
			Type: filterType(s.Filt.Type), Description: "sample", Pattern: s.Filt.Pattern,
			Scope: scopeOf(s.Filt.Scope), Negate: s.Filt.Negate,
		}
		if s.Filt.Type == "poly" {
			d.Poly = &core.PolyFilterDef{File: *filterDef(s.Filt.File), Directory: *filterDef(s.Filt.Dir)}
		}
		if s.Type == "custom" || s.Filt.Type == "custom" {
			names := map[string]bool{}
			for _, n := range s.Filt.Match {
				names[n] = true
			}
			d.Type = enums.FilterTypeCustom
			d.Custom = &customSample{names: names}
			if len(s.Filt.Scope) > 0 {
				d.Custom = &scopedSample{Sample: age.NewCustomSampleFilter(d.Scope), names: names}
			}
		}
		fo.Sample = d
	}
	if !used {
		return nil
	}
	return fo
}

type customSample struct{ names map[string]bool }

func (c *customSample) Description() string { return "custom sample" }
func (c *customSample) Validate() error     { return nil }
func (c *customSample) Matching(children []fs.DirEntry) []fs.DirEntry {
	out := []fs.DirEntry{}
	for _, e := range children {
		if c.names[e.Name()] {
			out = append(out, e)
		}
	}
	return out
}

// scopedSample is the custom sampling filter that is about the files or the
// directories only.
type scopedSample struct {
	filtering.Sample
	names map[string]bool
}

func (c *scopedSample) Matching(children []fs.DirEntry) []fs.DirEntry {
	return c.Sample.Matching(children, func(e fs.DirEntry, _ int) bool { return c.names[e.Name()] })
}

func metrics(r core.TraverseResult) J {
	m := r.Metrics()
	if m == nil {
		return J{}
	}
	return J{
		"fi": int(m.Count(enums.MetricNoFilesInvoked)),
		"fo": int(m.Count(enums.MetricNoFilesFilteredOut)),
		"di": int(m.Count(enums.MetricNoDirectoriesInvoked)),
		"do": int(m.Count(enums.MetricNoDirectoriesFilteredOut)),
		"cf": int(m.Count(enums.MetricNoChildFilesFound)),
		"co": int(m.Count(enums.MetricNoChildFilesFilteredOut)),
	}
}

func classify(err error) string {
	var saved *locale.TraversalSavedError
	var notSaved *locale.TraversalNotSavedError
	var perr *fs.PathError
	switch {
	case err == nil:
		return "nil"
	case errors.As(err, &saved):
		return "saved"
	case errors.As(err, &notSaved):
		return "notsaved"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, errClient):
		return "client"
	case errors.Is(err, errRead):
		return "read"
	case errors.Is(err, errStat):
		return "stat"
	case errors.Is(err, errSkip):
		return "skiperr"
	case errors.Is(err, errFault):
		return "faulterr"
	case errors.Is(err, errRescue):
		return "rescue"
	case errors.Is(err, fs.SkipDir):
		return "skipdir"
	case errors.Is(err, fs.SkipAll):
		return "skipall"
	case errors.As(err, &perr) && errors.Is(err, fs.ErrNotExist):
		return "notexist"
	}
	return "other:" + err.Error()
}

func nodeEvent(n *core.Node) J {
	pp := "-"
	pe := false
	if n.Parent != nil {
		pp = n.Parent.Path
		pe = n.Parent.IsDirectory()
	}
	ch := []string{}
	for _, c := range n.Children {
		if c.IsDir() {
			ch = append(ch, c.Name()+"/")
		} else {
			ch = append(ch, c.Name())
		}
	}
	en := "-"
	if n.Entry != nil {
		en = n.Entry.Name()
	}
	in := "-"
	indir := n.IsDirectory()
	if n.Info != nil {
		in = n.Info.Name()
		indir = n.Info.IsDir()
	}
	return J{
		"e": "invoke", "p": n.Path, "nm": n.Extension.Name, "d": n.Extension.Depth,
		"pp": pp, "pd": pe, "xp": n.Extension.Parent, "dir": n.IsDirectory(), "leaf": n.Extension.IsLeaf,
		"sc": scopeNames(n.Extension.Scope), "sub": n.Extension.SubPath, "ch": ch,
		"en": en, "in": in, "ind": indir, "ne": n.Error != nil,
	}
}

func (w *world) keep(n *core.Node) {
	ev := nodeEvent(n)
	ev["e"] = "recall"
	w.mu.Lock()
	defer w.mu.Unlock()
	w.kept, w.keptEv = append(w.kept, n), append(w.keptEv, ev)
}

// recall reports the delivered nodes that no longer look as they did.
func (w *world) recall(t *Trace) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, n := range w.kept {
		ev := nodeEvent(n)
		ev["e"] = "recall"
		ev["ne"] = w.keptEv[i]["ne"]
		if !reflect.DeepEqual(ev, w.keptEv[i]) {
			t.add(ev)
		}
	}
	w.kept, w.keptEv = nil, nil
}

// loopback is a counting wait group.
type loopback struct {
	sync.WaitGroup
}

func (w *world) client(sc *sWalk, script []sScript, t *Trace) core.Client {
	acts := map[string]string{}
	for _, s := range script {
		for p, n := range w.paths {
			if n.ID == s.At {
				acts[p] = s.Act
				if s.Wrap {
					acts[p] += "+"
				}
			}
		}
	}
	return func(servant core.Servant) error {
		n := servant.Node()
		conc := isConc(sc.Entry)
		if w.inside != nil {
			defer w.inside()
		}
		w.keep(n)
		w.probe(n)
		if conc {
			w.active.Add(1)
			defer w.active.Add(-1)
			id := atomic.AddInt64(&tick, 1)
			ev := nodeEvent(n)
			ev["e"] = "start"
			ev["k"] = id
			t.add(ev)
			if nd, ok := w.paths[n.Path]; ok && nd.ID == sc.Cancel {
				t.add(J{"e": "cancel"})
				w.cancel()
			}
			if nd, ok := w.paths[n.Path]; ok && nd.ID-1 < len(sc.Delay) {
				if d := sc.Delay[nd.ID-1]; d > 0 {
					time.Sleep(time.Duration(d) * time.Microsecond)
				}
			}
			defer t.add(J{"e": "finish", "p": n.Path, "k": id})
		} else {
			t.add(nodeEvent(n))
		}
		switch acts[n.Path] {
		case "err":
			return errClient
		case "werr":
			return fmt.Errorf("wrapped: %w", errClient)
		case "skipdir":
			return fs.SkipDir
		case "skipall":
			return fs.SkipAll
		case "skipdir+":
			return fmt.Errorf("wrapped: %w", fs.SkipDir)
		case "skipall+":
			return fmt.Errorf("wrapped: %w", fs.SkipAll)
		case "panic":
			panic("client panic")
		case "panicerr":
			panic(errClient)
		}
		return nil
	}
}

func isConc(entry string) bool {
	switch entry {
	case "run", "hare", "hydra-run", "goldfish-run":
		return true
	}
	return false
}

func navigator(sc *sWalk, prime bool, wg *loopback, facade pref.Facade, loader age.Addon, settings []pref.Option) core.Navigator {
	addons := []age.Addon{}
	if loader != nil {
		addons = append(addons, loader)
		// addons of another kind make no difference
		switch sc.ID % 3 {
		case 1:
			addons = append(addons, "other")
		case 2:
			addons = []age.Addon{sc, loader}
		}
	}
	builders := func() *age.Builders {
		if prime {
			return age.Prime(facade, settings...)
		}
		return age.Resume(facade, settings...)
	}
	switch sc.Entry {
	case "run":
		return age.Run(wg).Configure(addons...).Extent(builders())
	case "hydra":
		return age.Hydra(true, prime, wg)(facade, settings...)
	case "hydra-run":
		return age.Hydra(false, prime, wg)(facade, settings...)
	case "hare":
		return age.Hare(prime, wg)(facade, settings...)
	case "tortoise":
		return age.Tortoise(prime)(facade, settings...)
	case "goldfish":
		return age.Goldfish(true, wg)(facade, settings...)
	case "goldfish-run":
		return age.Goldfish(false, wg)(facade, settings...)
	}
	return age.Walk().Configure(addons...).Extent(builders())
}

func (w *world) finish(t *Trace, result core.TraverseResult, err error, began time.Time) (to string) {
	ev := J{"e": "result", "err": classify(err)}
	w.report(ev)
	var saved *locale.TraversalSavedError
	if errors.As(err, &saved) {
		ev["to"] = saved.Destination
		to = saved.Destination
	}
	if err != nil {
		ev["text"] = err.Error()
		if to != "" {
			ev["named"] = strings.Contains(err.Error(), to)
		} else {
			ev["named"] = strings.Contains(err.Error(), ".json")
		}
	}
	if err == nil || result != nil {
		func() {
			defer func() {
				if p := recover(); p != nil {
					ev["noresult"] = true
				}
			}()
			ev["m"] = metrics(result)
			s := result.Session()
			ev["done"] = s.IsComplete()
			st := s.StartedAt()
			el := s.Elapsed()
			ev["timeok"] = !st.Before(began) && !st.After(time.Now()) && el >= 0 && el <= time.Since(began)
		}()
	} else {
		ev["noresult"] = true
	}
	t.add(ev)
	return to
}

func runWalk(raw json.RawMessage, t *Trace) {
	sc := &sWalk{}
	must(json.Unmarshal(raw, sc))
	w, tree, scratch := buildWorld(sc)
	if scratch != "" {
		defer os.RemoveAll(scratch)
	}
	// session files only ever go to a scratch directory, even unexpected ones
	admin := t.admin
	if admin == "" {
		a, err := os.MkdirTemp("", "zzverif-adm-")
		must(err)
		defer os.RemoveAll(a)
		admin = a
		if sc.Still {
			clock.Store(0)
			defer clock.Store(1)
		}
	}
	sc.Admin = admin
	t.add(J{"e": "cfg", "tree": tree})

	w.inside = t.inside
	var rfs tfs.TraversalFS = tfs.New()
	if sc.Panic == "badfs" {
		rfs = &brokenFS{TraversalFS: rfs}
		sc.Panic = ""
	}
	from := ""
	asked := tree
	switch sc.TreeForm {
	case "slash":
		asked = tree + "/"
	case "dot":
		asked = filepath.Dir(tree) + "/./" + filepath.Base(tree)
	case "dbl":
		asked = filepath.Dir(tree) + "//" + filepath.Base(tree)
	}
	entries := sc.Entries
	if len(entries) == 0 {
		entries = []string{sc.Entry}
	}
	for r := 0; r < max(sc.Repeat, len(entries)); r++ {
		if r > 0 {
			if sc.Between != nil {
				other := &Trace{Ev: []J{}, cap: 100000}
				bw, btree, bscratch := buildWorld(sc.Between)
				if bscratch != "" {
					defer os.RemoveAll(bscratch)
				}
				sc.Between.Admin = admin
				prime(sc.Between, bw, btree, rfs, other)
			}
			t.add(J{"e": "again"})
		}
		sc.Entry = entries[r%len(entries)]
		if len(sc.Entries) > 0 {
			t.add(J{"e": "via", "entry": sc.Entry, "conc": isConc(sc.Entry)})
		}
		if len(sc.Vias) > 0 {
			sc.Opt.ViaIf = sc.Vias[r%len(sc.Vias)]
		}
		from = prime(sc, w, asked, rfs, t)
	}

	kept := sessions{}

	for i := range sc.Resume {
		rs := &sc.Resume[i]
		if from == "" {
			t.add(J{"e": "nosave"})
			return
		}
		t.add(kept.check(from, admin))
		from = resumeWalk(sc, rs, w, from, rfs, t)
	}
	if from != "" {
		t.add(kept.check(from, admin))
	}
	if t.admin == "" && (len(sc.Resume) > 0 || hasPanic(sc.Script)) {
		n := 0
		_ = filepath.WalkDir(admin, func(_ string, d fs.DirEntry, _ error) error {
			if d != nil && !d.IsDir() {
				n++
			}
			return nil
		})
		t.add(J{"e": "files", "n": n})
	}
}

type brokenFS struct{ tfs.TraversalFS }

func (b *brokenFS) WriteFile(string, []byte, fs.FileMode) error { return errRescue }
func (b *brokenFS) MakeDirAll(string, fs.FileMode) error        { return errRescue }

func hasPanic(script []sScript) bool {
	for _, s := range script {
		if strings.HasPrefix(s.Act, "panic") {
			return true
		}
	}
	return false
}

func prime(sc *sWalk, w *world, tree string, rfs tfs.TraversalFS, t *Trace) (to string) {
	wg := &loopback{}
	w.reset()
	settings := options(sc, &sc.Opt, t, w, 0)
	settings = append(settings, func(o *pref.Options) error {
		if sc.Opt.Input > 0 {
			o.Concurrency.Input.Size = sc.Opt.Input
		}
		return nil
	}, pref.WithLogger(quiet()))
	using := &pref.Using{
		Head: pref.Head{
			Handler:   w.client(sc, sc.Script, t),
			GetForest: w.forest(rfs),
		},
		Subscription: subOf(sc.Sub),
		Tree:         tree,
	}
	switch {
	case sc.Opt.ViaIf == "reuse" && w.opts != nil:
		// the options of an earlier navigation
		using.O, settings = w.opts, nil
	case sc.Opt.ViaIf == "o" || sc.Opt.ViaIf == "reuse":
		o := pref.DefaultOptions()
		for _, s := range settings {
			must(s(o))
		}
		using.O, settings = o, nil
	default:
		settings = append(settings, func(o *pref.Options) error {
			w.opts = o
			return nil
		})
	}
	began := time.Now()
	nav := navigator(sc, true, wg, using, nil, settings)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w.cancel = cancel
	if sc.Cancel < 0 {
		t.add(J{"e": "cancel"})
		cancel()
	}
	result, err := nav.Navigate(ctx)
	if isConc(sc.Entry) {
		t.add(J{"e": "returned"})
		wg.Wait()
		t.add(J{"e": "waited"})
		w.outputs.Wait()
	}
	if sc.Cancel != 0 {
		w.settle()
	}
	w.recall(t)
	return w.finish(t, result, err, began)
}

// forest is the client's way to provide the file systems; left out when the
// scenario is about the default ones.
func (w *world) forest(rfs tfs.TraversalFS) pref.BuildForest {
	if w.sc.Native {
		return nil
	}
	return func(string) *core.Forest {
		return &core.Forest{T: w, R: rfs}
	}
}

func quiet() *slog.Logger {
	return slog.New(slog.NewTextHandler(nullWriter{}, nil))
}

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error) { return len(p), nil }

func resumeWalk(sc *sWalk, rs *sResume, w *world, from string, rfs tfs.TraversalFS, t *Trace) (to string) {
	wg := &loopback{}
	if rs.Entry != "" {
		sc.Entry = rs.Entry
	}
	opt := sOpt{}
	if rs.Opt != nil {
		opt = *rs.Opt
	}
	w.reset()
	bare := *sc
	bare.Filter, bare.Child, bare.Sampling, bare.Hib = rs.Filter, rs.Child, nil, nil
	settings := options(&bare, &opt, t, w, 1)
	settings = append(settings, pref.WithLogger(quiet()))
	strategy := enums.ResumeStrategyFastward
	if rs.Strategy == "spawn" {
		strategy = enums.ResumeStrategySpawn
	}
	relic := &pref.Relic{
		Head: pref.Head{
			Handler:   w.client(sc, rs.Script, t),
			GetForest: w.forest(rfs),
		},
		From:     from,
		Strategy: strategy,
	}
	var loader age.Addon
	if rs.At > 0 {
		loader = enclave.Loader(func(active *core.ActiveState) {
			for p, n := range w.paths {
				if n.ID == rs.At {
					active.CurrentPath = p
					active.IsDir = n.Dir
					active.Depth = depthOf(sc, n)
				}
			}
		})
	}
	t.add(J{"e": "resume", "s": rs.Strategy, "conc": isConc(sc.Entry)})
	began := time.Now()
	nav := navigator(sc, false, wg, relic, loader, settings)
	result, err := nav.Navigate(context.Background())
	if isConc(sc.Entry) {
		t.add(J{"e": "returned"})
		wg.Wait()
		t.add(J{"e": "waited"})
		w.outputs.Wait()
	}
	w.recall(t)
	return w.finish(t, result, err, began)
}

func depthOf(sc *sWalk, n *sNode) int {
	d := 0
	for n.Parent != 0 {
		d++
		for i := range sc.Nodes {
			if sc.Nodes[i].ID == n.Parent {
				n = &sc.Nodes[i]
				break
			}
		}
	}
	return d
}

// sessions are the files saved so far; none may be lost to a later one
type sessions map[string]string

func (k sessions) check(path, admin string) J {
	ev := savedEvent(path, admin)
	lost := 0
	for p, was := range k {
		if data, err := os.ReadFile(p); err != nil || string(data) != was {
			lost++
		}
	}
	if _, again := k[path]; again {
		lost++
	}
	if data, err := os.ReadFile(path); err == nil {
		k[path] = string(data)
	}
	ev["lost"] = lost
	return ev
}

// savedEvent reports the content of the saved session file, decoded with the
// standard JSON decoder only (independent of the code under test).
func savedEvent(path, admin string) J {
	ev := J{"e": "saved", "under": strings.HasPrefix(path, admin+"/")}
	data, err := os.ReadFile(path)
	if err != nil {
		ev["unreadable"] = true
		return ev
	}
	var doc struct {
		Active struct {
			Tree                string
			TraverseDescription struct{ IsRelative bool }
			ResumeDescription   struct{ IsRelative bool }
			Subscription        any
			Hibernation         any
			CurrentPath         string
			IsDir               bool
			Depth               int
			Metrics             map[string]any
		}
	}
	var all map[string]any
	if err := json.Unmarshal(data, &all); err == nil {
		ev["jo"] = all["JO"]
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		ev["undecodable"] = err.Error()
		return ev
	}
	a := doc.Active
	ev["tree"] = a.Tree
	ev["trel"] = a.TraverseDescription.IsRelative
	ev["rrel"] = a.ResumeDescription.IsRelative
	ev["sub"] = fmt.Sprint(a.Subscription)
	ev["p"] = a.CurrentPath
	ev["dir"] = a.IsDir
	ev["d"] = a.Depth
	ev["raw"] = a.Metrics
	return ev
}

// the clock moves on by one second each time it is looked at, unless it is
// told to stand still
var clock, reading atomic.Int64

func init() {
	runners["walk"] = runWalk
	clock.Store(1)
	core.Now = func() time.Time {
		return time.Unix(1700000000+reading.Add(clock.Load()), 0)
	}
	_ = nef.PathAs{}
}
