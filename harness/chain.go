package main

import (
	"context"
	"encoding/json"
	"errors"
	"log/slog"
	"testing/fstest"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	"github.com/snivilised/agenor/internal/kernel"
	"github.com/snivilised/agenor/internal/opts"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	"github.com/snivilised/nefilim/test/luna"
)

// Sequences of operations on the chain of links a node passes through.
type (
	sChainOp struct {
		Op   string `json:"op"` // decorate unwind swap invoke
		Role int    `json:"role"`
		L    int    `json:"l"` // which link (or client)
		Node int    `json:"node"`
		// what the links answer in this invocation: link -> pass stop fail both unwind
		Say map[string]string `json:"say"`
	}
	sChain struct {
		Active []int      `json:"active"`
		Order  []int      `json:"order"`
		Seal   []int      `json:"seal"`
		Ops    []sChainOp `json:"ops"`
	}
	chainLab struct {
		t   *Trace
		say map[string]string
		m   enclave.Mediator
	}
	chainLink struct {
		lab  *chainLab
		role enums.Role
		l    int
	}
	chainSeal struct{ roles map[enums.Role]bool }
	chainHarv struct {
		o *pref.Options
		b *opts.Binder
	}
)

var errLink = errors.New("link error")

func (s *chainSeal) Seal(enclave.Link) error        { return nil }
func (s *chainSeal) IsSealed(top enclave.Link) bool { return top != nil && s.roles[top.Role()] }
func (h *chainHarv) Options() *pref.Options         { return h.o }
func (h *chainHarv) Binder() *opts.Binder           { return h.b }
func (h *chainHarv) Loaded() *opts.LoadInfo         { return nil }

func key(l int) string { return string(rune('a' + l)) }

func (k *chainLink) Role() enums.Role { return k.role }
func (k *chainLink) Next(servant core.Servant, inspection enclave.Inspection) (bool, error) {
	say := k.lab.say[key(k.l)]
	k.lab.t.add(J{"e": "link", "l": k.l, "role": int(k.role), "argok": servant.Node() != nil && servant.Node().Path == "r" && inspection.Current() == servant.Node()})
	switch say {
	case "stop":
		return false, nil
	case "fail":
		return false, errLink
	case "both":
		return true, errLink
	case "unwind":
		// as the last of a feature does
		_ = k.lab.m.Unwind(k.role)
		k.lab.t.add(J{"e": "unwound", "role": int(k.role)})
	}
	return true, nil
}

func (c *chainLab) client(l int) core.Client {
	return func(servant core.Servant) error {
		c.t.add(J{"e": "client", "l": l, "argok": servant.Node() != nil && servant.Node().Path == "r"})
		if c.say[key(l)] == "fail" {
			return errLink
		}
		return nil
	}
}

func runChain(raw json.RawMessage, t *Trace) {
	sc := &sChain{}
	if err := json.Unmarshal(raw, sc); err != nil {
		panic(err)
	}
	lab := &chainLab{t: t}
	o, b, err := opts.Get(pref.WithLogger(slog.New(slog.DiscardHandler)))
	if err != nil {
		panic(err)
	}
	// the tree is a single file, so that a navigation invokes the chain once
	mem := luna.NewMemFS()
	mem.MapFS["r"] = &fstest.MapFile{Mode: 0o644}
	seal := &chainSeal{roles: map[enums.Role]bool{}}
	for _, r := range sc.Seal {
		seal.roles[enums.Role(r)] = true
	}
	super := enclave.NewSupervisor()
	med, err := kernel.NewMediator(&kernel.Inception{
		Facade: &pref.Using{Subscription: enums.SubscribeUniversal, Tree: "r",
			Head: pref.Head{Handler: lab.client(0), GetForest: func(string) *core.Forest { return nil }}},
		Subscription: enums.SubscribeUniversal,
		Harvest:      &chainHarv{o: o, b: b},
		Resources: &enclave.Resources{Forest: &core.Forest{T: mem, R: tfs.New()}, Supervisor: super,
			Binder: b},
	}, seal)
	if err != nil {
		panic(err)
	}
	lab.m = med
	med.Ignite(&enclave.Ignition{Session: chainSess{}})
	roles := func(q []int) []enums.Role {
		out := []enums.Role{}
		for _, r := range q {
			out = append(out, enums.Role(r))
		}
		return out
	}
	med.Arrange(roles(sc.Active), roles(sc.Order))
	for k := range sc.Ops {
		op := &sc.Ops[k]
		ev := J{"e": "op", "op": op.Op, "role": op.Role, "l": op.L, "say": op.Say}
		if op.Say == nil {
			ev["say"] = map[string]string{"z": ""}
		}
		t.add(ev)
		switch op.Op {
		case "decorate":
			err := med.Decorate(&chainLink{lab: lab, role: enums.Role(op.Role), l: op.L})
			r := "ok"
			if err != nil {
				r = "error"
				if errors.Is(err, core.ErrGuardianCantDecorateItemSealed) {
					r = "sealed"
				}
			}
			t.add(J{"e": "done", "r": r})
		case "unwind":
			_ = med.Unwind(enums.Role(op.Role))
		case "swap":
			med.Swap(lab.client(op.L))
		case "invoke":
			lab.say = op.Say
			before := super.Count(enums.MetricNoFilesInvoked)
			_, err := med.Navigate(context.Background())
			r := "ok"
			if err != nil {
				r = "error"
				if errors.Is(err, errLink) {
					r = "link"
				}
			}
			t.add(J{"e": "invoked", "r": r, "ticks": int(super.Count(enums.MetricNoFilesInvoked) - before)})
		}
	}
}

type chainSess struct{}

func (chainSess) IsComplete() bool       { return true }
func (chainSess) StartedAt() time.Time   { return time.Time{} }
func (chainSess) Elapsed() time.Duration { return 0 }

func init() { runners["chain"] = runChain }
