package zzdemo

import (
	"context"
	"io/fs"
	"os"
	"strings"
	"testing/fstest"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	"github.com/snivilised/li18ngo"
	"github.com/snivilised/nefilim/test/luna"
)

var _ = os.TempDir

func init() { _ = li18ngo.Use() }

// mem makes a tree in memory from its paths; those ending in / are directories.
func mem(paths ...string) tfs.TraversalFS {
	m := luna.NewMemFS()
	for _, p := range paths {
		if strings.HasSuffix(p, "/") {
			m.MapFS[strings.TrimSuffix(p, "/")] = &fstest.MapFile{Mode: os.ModeDir | 0o755}
		} else {
			m.MapFS[p] = &fstest.MapFile{Mode: 0o644, Data: []byte("x")}
		}
	}
	return m
}

type visit struct {
	nodes []*core.Node
	act   func(n *core.Node) error
	res   core.TraverseResult
	err   error
}

func (v *visit) paths() string {
	out := []string{}
	for _, n := range v.nodes {
		out = append(out, n.Path)
	}
	return strings.Join(out, " ")
}

func (v *visit) head(w tfs.TraversalFS) pref.Head {
	return pref.Head{
		Handler: func(s core.Servant) error {
			n := s.Node()
			v.nodes = append(v.nodes, n)
			if v.act != nil {
				return v.act(n)
			}
			return nil
		},
		GetForest: func(string) *core.Forest { return &core.Forest{T: w, R: tfs.New()} },
	}
}

func (v *visit) walk(w tfs.TraversalFS, root string, sub enums.Subscription, o ...pref.Option) *visit {
	v.res, v.err = age.Walk().Configure().Extent(age.Prime(
		&pref.Using{Head: v.head(w), Subscription: sub, Tree: root}, o...)).Navigate(context.Background())
	return v
}

func (v *visit) resume(w tfs.TraversalFS, from string, st enums.ResumeStrategy, o ...pref.Option) *visit {
	v.res, v.err = age.Walk().Configure().Extent(age.Resume(
		&pref.Relic{Head: v.head(w), From: from, Strategy: st}, o...)).Navigate(context.Background())
	return v
}

type failing struct {
	tfs.TraversalFS
	bad string
}

func (f *failing) ReadDir(name string) ([]fs.DirEntry, error) {
	if name == f.bad {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrPermission}
	}
	return f.TraversalFS.ReadDir(name)
}
