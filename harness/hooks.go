package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/opts"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tapable"
	"github.com/snivilised/agenor/tfs"
	"github.com/snivilised/nefilim/test/luna"
)

// Sequences of operations on the hooks of options, and navigations made with
// these hooks in force.
type (
	sHookOp struct {
		Op   string `json:"op"` // tap chain restore invoke nav
		I    int    `json:"i"`  // which options
		K    string `json:"k"`  // file dir read stat sort
		F    int    `json:"f"`
		Mode string `json:"mode"`
		Arg  []int  `json:"arg"`
		Via  string `json:"via"`
	}
	sHooks struct {
		Ops []sHookOp `json:"ops"`
		Par []int     `json:"par"` // parent of entry i+2; entry 1 is the root
		Dir []bool    `json:"dir"`
	}

	hookErr struct{ f int }

	// an entry that a hook function has made up
	madeUp struct {
		name string
		toks []int
		fs.FileInfo
	}
)

func (e *hookErr) Error() string { return fmt.Sprintf("hook error %d", e.f) }

func (m *madeUp) Name() string               { return m.name }
func (m *madeUp) IsDir() bool                { return m.FileInfo != nil && m.FileInfo.IsDir() }
func (m *madeUp) Type() fs.FileMode          { return 0 }
func (m *madeUp) Info() (fs.FileInfo, error) { return m, nil }
func (m *madeUp) Size() int64                { return 0 }
func (m *madeUp) Mode() fs.FileMode {
	if m.FileInfo == nil {
		return 0
	}
	return m.FileInfo.Mode()
}
func (m *madeUp) ModTime() time.Time { return time.Time{} }
func (m *madeUp) Sys() any           { return nil }

func entryName(n int) string { return fmt.Sprintf("e%03d", n) }
func entryNo(name string) int {
	if len(name) != 4 || name[0] != 'e' {
		return -1
	}
	n, err := strconv.Atoi(name[1:])
	if err != nil {
		return -1
	}
	return n
}

const hookTree = "e001"

type hookLab struct {
	t    *Trace
	sc   *sHooks
	fsys *luna.MemFS
	kids map[int][]int
	nav  bool
}

func errCode(err error) int {
	var he *hookErr
	switch {
	case err == nil:
		return -1
	case errors.As(err, &he):
		return he.f
	case errors.Is(err, fs.ErrNotExist):
		return 0
	}
	return -2
}

// ---------------------------------------------- results as token sequences --
func (l *hookLab) entryToks(dir string, entries []fs.DirEntry) []int {
	real := l.kids[entryNo(path.Base(dir))]
	out := []int{}
	for i := 0; i < len(entries); i++ {
		if m, ok := entries[i].(*madeUp); ok {
			out = append(out, m.toks...)
			continue
		}
		// the directory's own entries, all of them
		for j, k := range real {
			if i+j >= len(entries) || entries[i+j].Name() != entryName(k) {
				out = append(out, -1)
				break
			}
		}
		out = append(out, 0)
		i += len(real) - 1
	}
	return out
}

func infoToks(info fs.FileInfo) []int {
	switch m := info.(type) {
	case nil:
		return []int{}
	case *madeUp:
		return m.toks
	}
	return []int{0}
}

func numbers(entries []fs.DirEntry) []int {
	out := []int{}
	for _, e := range entries {
		out = append(out, entryNo(e.Name()))
	}
	return out
}

// a sub-path is the default's result, or #f, followed by |f for every
// function that has added something
func (l *hookLab) pathToks(s, def string) []int {
	out := []int{}
	for i, p := range strings.Split(s, "|") {
		switch {
		case i == 0 && strings.HasPrefix(p, "#"), i > 0:
			n, err := strconv.Atoi(strings.TrimPrefix(p, "#"))
			if err != nil {
				n = -1
			}
			out = append(out, n)
		case l.nav || p == def:
			out = append(out, 0)
		default:
			out = append(out, -1)
		}
	}
	return out
}

func (l *hookLab) call(i int, k string, f int, got []int, gotErr int, argok bool) {
	l.t.add(J{"e": "call", "i": i, "k": k, "f": f, "got": got, "goterr": gotErr, "argok": argok})
}

var subPathDefault = func(info *core.SubPathInfo) string {
	return pref.DefaultOptions().Hooks.FileSubPath.Default()(info)
}

func pick[T any](first bool, a, b T) T {
	if first {
		return a
	}
	return b
}

// tap replaces the function of a hook: directly, or by the option for it.
func tap[F any](direct func(F), o *pref.Options, option func(F) pref.Option, op *sHookOp, fn F) {
	if op.F%2 == 0 {
		if err := option(fn)(o); err != nil {
			panic(err)
		}
		return
	}
	direct(fn)
}

func (l *hookLab) applySub(i int, k string, o *pref.Options, op *sHookOp) {
	h := o.Hooks.FileSubPath
	if k == "dir" {
		h = o.Hooks.DirectorySubPath
	}
	plain := "#" + strconv.Itoa(op.F)
	add := "|" + strconv.Itoa(op.F)
	argok := func(info *core.SubPathInfo) bool {
		return info != nil && info.Node != nil && info.Tree == hookTree && info.Node.IsDirectory() == (k == "dir")
	}
	switch op.Op {
	case "restore":
		h.Tap(h.Default())
	case "tap":
		prev := h.Invoke()
		tap(h.Tap, o, pick(k == "dir", pref.WithHookDirectorySubPath, pref.WithHookFileSubPath), op, func(info *core.SubPathInfo) string {
			switch op.Mode {
			case "wrap":
				l.call(i, k, op.F, []int{}, -1, argok(info))
				return h.Default()(info) + add
			case "prev":
				r := prev(info)
				l.call(i, k, op.F, l.pathToks(r, subPathDefault(info)), -1, argok(info))
				return r + add
			}
			l.call(i, k, op.F, []int{}, -1, argok(info))
			return plain
		})
	case "chain":
		h.Chain(func(result string, info *core.SubPathInfo) string {
			l.call(i, k, op.F, l.pathToks(result, subPathDefault(info)), -1, argok(info))
			switch op.Mode {
			case "same":
				return result
			case "replace":
				return plain
			}
			return result + add
		})
	}
}

func (l *hookLab) applyRead(i int, o *pref.Options, op *sHookOp) {
	h := o.Hooks.ReadDirectory
	mine := func() fs.DirEntry { return &madeUp{name: entryName(op.F), toks: []int{op.F}} }
	switch op.Op {
	case "restore":
		h.Tap(h.Default())
	case "tap":
		prev := h.Invoke()
		tap(h.Tap, o, pref.WithHookReadDirectory, op, func(rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
			switch op.Mode {
			case "wrap":
				l.call(i, "read", op.F, []int{}, -1, rsys != nil)
				r, err := h.Default()(rsys, dirname)
				return append(append([]fs.DirEntry{}, r...), mine()), err
			case "prev":
				r, err := prev(rsys, dirname)
				l.call(i, "read", op.F, l.entryToks(dirname, r), errCode(err), rsys != nil)
				return append(append([]fs.DirEntry{}, r...), mine()), err
			case "fail":
				l.call(i, "read", op.F, []int{}, -1, rsys != nil)
				return nil, &hookErr{op.F}
			}
			l.call(i, "read", op.F, []int{}, -1, rsys != nil)
			return []fs.DirEntry{mine()}, nil
		})
	case "chain":
		h.Chain(func(result []fs.DirEntry, err error, rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
			l.call(i, "read", op.F, l.entryToks(dirname, result), errCode(err), rsys != nil)
			switch op.Mode {
			case "same":
				return result, err
			case "replace":
				return []fs.DirEntry{mine()}, nil
			case "fail":
				return nil, &hookErr{op.F}
			}
			return append(append([]fs.DirEntry{}, result...), mine()), err
		})
	}
}

func (l *hookLab) applyStat(i int, o *pref.Options, op *sHookOp) {
	h := o.Hooks.QueryStatus
	mine := func(qsys fs.StatFS, p string, toks []int) fs.FileInfo {
		info, _ := qsys.Stat(p)
		return &madeUp{name: path.Base(p), toks: append(append([]int{}, toks...), op.F), FileInfo: info}
	}
	switch op.Op {
	case "restore":
		h.Tap(h.Default())
	case "tap":
		prev := h.Invoke()
		tap(h.Tap, o, pref.WithHookQueryStatus, op, func(qsys fs.StatFS, p string) (fs.FileInfo, error) {
			switch op.Mode {
			case "wrap":
				l.call(i, "stat", op.F, []int{}, -1, qsys != nil)
				r, err := h.Default()(qsys, p)
				return mine(qsys, p, infoToks(r)), err
			case "prev":
				r, err := prev(qsys, p)
				l.call(i, "stat", op.F, infoToks(r), errCode(err), qsys != nil)
				return mine(qsys, p, infoToks(r)), err
			case "fail":
				l.call(i, "stat", op.F, []int{}, -1, qsys != nil)
				return nil, &hookErr{op.F}
			}
			l.call(i, "stat", op.F, []int{}, -1, qsys != nil)
			return mine(qsys, p, nil), nil
		})
	case "chain":
		h.Chain(func(result fs.FileInfo, err error, qsys fs.StatFS, p string) (fs.FileInfo, error) {
			l.call(i, "stat", op.F, infoToks(result), errCode(err), qsys != nil)
			switch op.Mode {
			case "same":
				return result, err
			case "replace":
				return mine(qsys, p, nil), nil
			case "fail":
				return nil, &hookErr{op.F}
			}
			return mine(qsys, p, infoToks(result)), err
		})
	}
}

func arrange(entries []fs.DirEntry, mode string) {
	switch mode {
	case "asc":
		sort.SliceStable(entries, func(a, b int) bool { return entries[a].Name() < entries[b].Name() })
	case "desc":
		sort.SliceStable(entries, func(a, b int) bool { return entries[a].Name() > entries[b].Name() })
	case "rev":
		for a, b := 0, len(entries)-1; a < b; a, b = a+1, b-1 {
			entries[a], entries[b] = entries[b], entries[a]
		}
	case "rot":
		if len(entries) > 1 {
			first := entries[0]
			copy(entries, entries[1:])
			entries[len(entries)-1] = first
		}
	}
}

func (l *hookLab) applySort(i int, o *pref.Options, op *sHookOp) {
	h := o.Hooks.Sort
	mode := strings.TrimPrefix(op.Mode, "prev-")
	switch op.Op {
	case "restore":
		h.Tap(h.Default())
	case "tap":
		prev := h.Invoke()
		tap(h.Tap, o, pref.WithHookSort, op, func(entries []fs.DirEntry, custom ...any) {
			if mode != op.Mode {
				prev(entries, custom...)
			}
			l.call(i, "sort", op.F, numbers(entries), -1, l.nav || (len(custom) == 1 && custom[0] == "x"))
			arrange(entries, mode)
		})
	case "chain":
		h.Chain(func(entries []fs.DirEntry, custom ...any) {
			l.call(i, "sort", op.F, numbers(entries), -1, l.nav || (len(custom) == 1 && custom[0] == "x"))
			arrange(entries, mode)
		})
	}
}

func (l *hookLab) apply(i int, o *pref.Options, op *sHookOp) {
	switch op.K {
	case "file", "dir":
		l.applySub(i, op.K, o, op)
	case "read":
		l.applyRead(i, o, op)
	case "stat":
		l.applyStat(i, o, op)
	case "sort":
		l.applySort(i, o, op)
	}
}

func (l *hookLab) invoke(o *pref.Options, op *sHookOp) J {
	hs := &o.Hooks
	ev := J{"e": "returned", "err": -1}
	target := hookTree
	if len(op.Arg) == 1 && op.Arg[0] == 0 {
		target = "missing"
	}
	switch op.K {
	case "file", "dir":
		info := &core.SubPathInfo{Tree: hookTree}
		entry := &madeUp{name: "e051"}
		h := hs.FileSubPath
		if op.K == "dir" {
			h = hs.DirectorySubPath
			entry.FileInfo = dirInfo(l.fsys)
		}
		info.Node = core.New(hookTree+"/e050/e051", entry, entry, nil, nil)
		info.Node.Extension = core.Extension{Parent: hookTree + "/e050/", Name: "e051", Depth: 2}
		ev["res"] = l.pathToks(h.Invoke()(info), subPathDefault(info))
	case "read":
		r, err := hs.ReadDirectory.Invoke()(l.fsys, target)
		ev["res"], ev["err"] = l.entryToks(target, r), errCode(err)
	case "stat":
		r, err := hs.QueryStatus.Invoke()(l.fsys, target)
		ev["res"], ev["err"] = infoToks(r), errCode(err)
	case "sort":
		entries := []fs.DirEntry{}
		for _, n := range op.Arg {
			entries = append(entries, &madeUp{name: entryName(n), toks: []int{n}})
		}
		hs.Sort.Invoke()(entries, "x")
		ev["res"] = numbers(entries)
	}
	return ev
}

func dirInfo(m *luna.MemFS) fs.FileInfo {
	info, _ := m.Stat(hookTree)
	return info
}

func (l *hookLab) navigate(op *sHookOp, history []sHookOp) {
	l.nav = true
	defer func() { l.nav = false }()
	settings := []pref.Option{}
	mine := []sHookOp{}
	for _, h := range history {
		if h.I == op.I {
			mine = append(mine, h)
		}
	}
	if op.Via == "options" {
		// every operation by an option of its own
		for k := range mine {
			h := mine[k]
			settings = append(settings, func(o *pref.Options) error {
				l.apply(op.I, o, &h)
				return nil
			})
		}
	} else {
		settings = append(settings, func(o *pref.Options) error {
			for k := range mine {
				l.apply(op.I, o, &mine[k])
			}
			return nil
		})
	}
	handler := func(s age.Servant) error {
		n := s.Node()
		ev := J{"e": "visit", "n": entryNo(path.Base(n.Path)), "p": 0, "dir": n.IsDirectory(),
			"sub": l.pathToks(n.Extension.SubPath, ""), "qs": []int{}}
		if d := path.Dir(n.Path); d != "." {
			ev["p"] = entryNo(path.Base(d))
		}
		if n.Path == hookTree {
			ev["qs"] = infoToks(n.Info)
		}
		l.t.add(ev)
		return nil
	}
	_, err := age.Walk().Configure().Extent(age.Prime(&pref.Using{
		Subscription: enums.SubscribeUniversal,
		Head: pref.Head{Handler: handler, GetForest: func(string) *core.Forest {
			return &core.Forest{T: tfs.TraversalFS(l.fsys), R: tfs.New()}
		}},
		Tree: hookTree,
	}, settings...)).Navigate(context.Background())
	l.t.add(J{"e": "navigated", "err": errCode(err)})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func runHooks(raw json.RawMessage, t *Trace) {
	sc := &sHooks{}
	if err := json.Unmarshal(raw, sc); err != nil {
		panic(err)
	}
	l := &hookLab{t: t, sc: sc, fsys: luna.NewMemFS(), kids: map[int][]int{}}
	paths := map[int]string{1: hookTree}
	l.fsys.MapFS[hookTree] = &fstest.MapFile{Mode: os.ModeDir | 0o755}
	for i, p := range sc.Par {
		n := i + 2
		paths[n] = paths[p] + "/" + entryName(n)
		l.kids[p] = append(l.kids[p], n)
		if sc.Dir[i] {
			l.fsys.MapFS[paths[n]] = &fstest.MapFile{Mode: os.ModeDir | 0o755}
		} else {
			l.fsys.MapFS[paths[n]] = &fstest.MapFile{Mode: 0o644}
		}
	}
	all := []*pref.Options{}
	for range 2 {
		o, _, err := opts.Get()
		if err != nil {
			panic(err)
		}
		all = append(all, o)
	}
	history := []sHookOp{}
	for k := range sc.Ops {
		op := &sc.Ops[k]
		ev := J{"e": "op", "op": op.Op, "i": op.I, "k": op.K, "f": op.F, "mode": op.Mode, "arg": op.Arg}
		if op.Arg == nil {
			ev["arg"] = []int{}
		}
		t.add(ev)
		switch op.Op {
		case "invoke":
			t.add(l.invoke(all[op.I], op))
		case "nav":
			l.navigate(op, history)
		default:
			l.apply(op.I, all[op.I], op)
			history = append(history, *op)
		}
	}
}

var _ tapable.Hook[core.SortHook, core.ChainSortHook]

func init() { runners["hooks"] = runHooks }
