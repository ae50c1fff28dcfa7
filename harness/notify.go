package main

import (
	"context"
	"encoding/json"
	"os"
	"testing/fstest"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	"github.com/snivilised/agenor/internal/opts"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	"github.com/snivilised/nefilim/test/luna"
)

// Sequences of operations on the notifications of options.
type (
	sNoteOp struct {
		Op  string    `json:"op"` // on mute unmute muteall unmuteall dispatch nav
		I   int       `json:"i"`
		K   string    `json:"k"`
		F   int       `json:"f"`
		Arg int       `json:"arg"`
		Do  []sNoteOp `json:"do"` // what the handler does the first time it is run
	}
	sNotes struct {
		First []sNoteOp `json:"first"` // handlers registered by options
		Ops   []sNoteOp `json:"ops"`
		Head  int       `json:"head"`
	}
	noteLab struct {
		t      *Trace
		o      []*pref.Options
		b      []*opts.Binder
		nodes  map[*core.Node]int
		begins map[*life.BeginState]int
		ends   map[core.TraverseResult]int
		did    map[int]bool
		nav    bool
		depth  int
	}
)

func (l *noteLab) ran(i int, op *sNoteOp, arg any) {
	a := any(-1)
	switch v := arg.(type) {
	case *core.Node:
		if l.nav {
			a = v.Path
		} else if n, ok := l.nodes[v]; ok {
			a = n
		}
	case *life.BeginState:
		if l.nav {
			a = v.Tree
		} else if n, ok := l.begins[v]; ok {
			a = n
		}
	case core.TraverseResult:
		if l.nav {
			a = "result"
		} else if n, ok := l.ends[v]; ok {
			a = n
		}
	case string:
		a = v
		if !l.nav {
			a = -1
			if len(v) == 2 && v[0] == 'h' {
				a = int(v[1] - '0')
			}
		}
	}
	l.t.add(J{"e": "ran", "i": i, "k": op.K, "f": op.F, "arg": a})
	if !l.nav && !l.did[op.F] && l.depth < 4 {
		l.did[op.F] = true
		for k := range op.Do {
			l.do(&op.Do[k])
		}
	}
}

func (l *noteLab) option(i int, op *sNoteOp, events bool) pref.Option {
	node := func(n *core.Node) { l.ran(i, op, n) }
	begin := func(s *life.BeginState) { l.ran(i, op, s) }
	end := func(r core.TraverseResult) { l.ran(i, op, r) }
	hib := func(d string) { l.ran(i, op, d) }
	if events {
		return func(o *pref.Options) error {
			switch op.K {
			case "ascend":
				o.Events.Ascend.On(node)
			case "descend":
				o.Events.Descend.On(node)
			case "begin":
				o.Events.Begin.On(begin)
			case "end":
				o.Events.End.On(end)
			case "wake":
				o.Events.Wake.On(hib)
			case "sleep":
				o.Events.Sleep.On(hib)
			}
			return nil
		}
	}
	switch op.K {
	case "ascend":
		return pref.WithOnAscend(node)
	case "descend":
		return pref.WithOnDescend(node)
	case "begin":
		return pref.WithOnBegin(begin)
	case "end":
		return pref.WithOnEnd(end)
	case "wake":
		return pref.WithOnWake(hib)
	}
	return pref.WithOnSleep(hib)
}

func (l *noteLab) dispatch(op *sNoteOp) {
	c := l.b[op.I].Controls
	switch op.K {
	case "ascend", "descend":
		n := &core.Node{Path: "x"}
		l.nodes[n] = op.Arg
		if op.K == "ascend" {
			c.Ascend.Dispatch()(n)
		} else {
			c.Descend.Dispatch()(n)
		}
	case "begin":
		s := &life.BeginState{Tree: "x"}
		l.begins[s] = op.Arg
		c.Begin.Dispatch()(s)
	case "end":
		r := &enclave.KernelResult{}
		l.ends[r] = op.Arg
		c.End.Dispatch()(r)
	case "wake":
		c.Wake.Dispatch()("h" + string(rune('0'+op.Arg)))
	case "sleep":
		c.Sleep.Dispatch()("h" + string(rune('0'+op.Arg)))
	}
}

func (l *noteLab) do(op *sNoteOp) {
	l.t.add(J{"e": "op", "op": op.Op, "i": op.I, "k": op.K, "f": op.F, "arg": op.Arg})
	c := l.b[op.I].Controls
	switch op.Op {
	case "on":
		_ = l.option(op.I, op, true)(l.o[op.I])
	case "muteall":
		c.MuteAll()
	case "unmuteall":
		c.UnmuteAll()
	case "mute", "unmute":
		type muter interface {
			Mute()
			Unmute()
		}
		m := map[string]muter{"ascend": &c.Ascend, "descend": &c.Descend, "begin": &c.Begin, "end": &c.End,
			"wake": &c.Wake, "sleep": &c.Sleep}[op.K]
		if op.Op == "mute" {
			m.Mute()
		} else {
			m.Unmute()
		}
	case "dispatch":
		l.depth++
		l.dispatch(op)
		l.depth--
		l.t.add(J{"e": "dispatched"})
	}
}

func (l *noteLab) navigate(regs []sNoteOp, firsts int, inst int) {
	l.nav = true
	defer func() { l.nav = false }()
	fsys := luna.NewMemFS()
	for _, d := range []string{"r", "r/a", "r/a/b", "r/c"} {
		fsys.MapFS[d] = &fstest.MapFile{Mode: os.ModeDir | 0o755}
	}
	for _, f := range []string{"r/f1", "r/a/f2", "r/a/b/f3"} {
		fsys.MapFS[f] = &fstest.MapFile{Mode: 0o644}
	}
	settings := []pref.Option{pref.WithHibernationOptions(&core.HibernateOptions{
		WakeAt:  &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "b", Scope: enums.ScopeAll},
		SleepAt: &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "c", Scope: enums.ScopeAll},
	})}
	for k := range regs {
		if regs[k].I == inst {
			settings = append(settings, l.option(inst, &regs[k], k >= firsts))
		}
	}
	_, err := age.Walk().Configure().Extent(age.Prime(&pref.Using{
		Subscription: enums.SubscribeUniversal,
		Head: pref.Head{Handler: func(age.Servant) error { return nil }, GetForest: func(string) *core.Forest {
			return &core.Forest{T: tfs.TraversalFS(fsys), R: tfs.New()}
		}},
		Tree: "r",
	}, settings...)).Navigate(context.Background())
	l.t.add(J{"e": "navigated", "ok": err == nil})
}

func runNotes(raw json.RawMessage, t *Trace) {
	sc := &sNotes{}
	if err := json.Unmarshal(raw, sc); err != nil {
		panic(err)
	}
	l := &noteLab{t: t, nodes: map[*core.Node]int{}, begins: map[*life.BeginState]int{}, ends: map[core.TraverseResult]int{}, did: map[int]bool{}}
	regs := []sNoteOp{}
	for i := range 2 {
		settings := []pref.Option{}
		for k := range sc.First {
			op := &sc.First[k]
			if op.I == i {
				settings = append(settings, l.option(i, op, false))
				t.add(J{"e": "op", "op": "on", "i": i, "k": op.K, "f": op.F, "arg": 0})
				regs = append(regs, *op)
			}
		}
		o, b, err := opts.Get(settings...)
		if err != nil {
			panic(err)
		}
		l.o, l.b = append(l.o, o), append(l.b, b)
	}
	firsts := len(regs)
	for k := range sc.Ops {
		op := &sc.Ops[k]
		if op.Op == "on" {
			regs = append(regs, *op)
		}
		if op.Op == "nav" {
			t.add(J{"e": "op", "op": "nav", "i": op.I, "k": "", "f": 0, "arg": 0})
			l.navigate(regs, firsts, op.I)
			continue
		}
		l.do(op)
	}
}

func init() { runners["notes"] = runNotes }
