package main

import (
	"context"
	"encoding/json"
	"sort"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/services"
	"github.com/snivilised/agenor/internal/third/bus"
)

// Sequences of operations on a message bus.
type (
	sBusOp struct {
		Op  string   `json:"op"` // regtopics deregtopics reghandler dereghandler emit emitopts query
		Ts  []string `json:"ts"`
		K   string   `json:"k"`
		M   string   `json:"m"`
		V   int      `json:"v"` // which registration
		D   int      `json:"d"`
		Tx  string   `json:"tx"`
		Src string   `json:"src"`
		ID  string   `json:"id"`
		At  bool     `json:"at"`
		Do  []sBusOp `json:"do"`
	}
	sBus struct {
		Services bool     `json:"services"`
		Ops      []sBusOp `json:"ops"`
	}
	busLab struct {
		t     *Trace
		b     *bus.Broker
		did   map[int]bool
		depth int
	}
)

var busTime = time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)

func sorted(q []string) []string {
	out := append([]string{}, q...)
	sort.Strings(out)
	return out
}

func (l *busLab) do(ctx context.Context, op *sBusOp) {
	ts := op.Ts
	if ts == nil {
		ts = []string{}
	}
	l.t.add(J{"e": "op", "op": op.Op, "ts": ts, "k": op.K, "m": op.M, "v": op.V, "d": op.D, "tx": op.Tx, "src": op.Src,
		"id": op.ID, "at": op.At})
	switch op.Op {
	case "regtopics":
		l.b.RegisterTopics(ts...)
	case "deregtopics":
		l.b.DeregisterTopics(ts...)
	case "reghandler":
		l.b.RegisterHandler(op.K, bus.Handler{Matcher: op.M, Handle: func(ctx context.Context, m bus.Message) {
			d, _ := m.Data.(int)
			tx, _ := ctx.Value(bus.CtxKeyTxID).(string)
			src, _ := ctx.Value(bus.CtxKeySource).(string)
			at := "other"
			switch {
			case m.OccurredAt.IsZero():
				at = "none"
			case m.OccurredAt.Equal(busTime):
				at = "given"
			case time.Since(m.OccurredAt) < time.Hour && time.Since(m.OccurredAt) >= 0:
				at = "now"
			}
			l.t.add(J{"e": "got", "k": op.K, "v": op.V, "topic": m.Topic, "d": d, "id": m.ID, "tx": m.TxID, "src": m.Source,
				"ctxtx": tx, "ctxsrc": src, "at": at})
			if !l.did[op.V] && l.depth < 4 {
				l.did[op.V] = true
				for k := range op.Do {
					l.do(ctx, &op.Do[k])
				}
			}
		}})
	case "dereghandler":
		l.b.DeregisterHandler(op.K)
	case "emit":
		if op.Tx != "" {
			ctx = context.WithValue(ctx, bus.CtxKeyTxID, op.Tx)
		}
		if op.Src != "" {
			ctx = context.WithValue(ctx, bus.CtxKeySource, op.Src)
		}
		l.depth++
		err := l.b.Emit(ctx, ts[0], op.D)
		l.depth--
		l.emitted(err)
	case "emitopts":
		options := []bus.MessageOption{}
		if op.Tx != "" {
			options = append(options, bus.WithTxID(op.Tx))
		}
		if op.Src != "" {
			options = append(options, bus.WithSource(op.Src))
		}
		if op.ID != "" {
			options = append(options, bus.WithID(op.ID))
		}
		if op.At {
			options = append(options, bus.WithOccurredAt(busTime))
		}
		l.depth++
		err := l.b.EmitWithOpts(ctx, ts[0], op.D, options...)
		l.depth--
		l.emitted(err)
	case "query":
		topics := sorted(l.b.Topics())
		keys := sorted(l.b.HandlerKeys())
		l.t.add(J{"e": "lists", "topics": topics, "keys": keys})
		for _, t := range append(topics, "nosuchtopic") {
			l.t.add(J{"e": "topic", "topic": t, "keys": sorted(l.b.TopicHandlerKeys(t))})
		}
		for _, k := range append(keys, "nosuchkey") {
			l.t.add(J{"e": "handler", "k": k, "topics": sorted(l.b.HandlerTopicSubscriptions(k))})
		}
	}
}

func (l *busLab) emitted(err error) {
	r := "ok"
	if err != nil {
		r = "error"
		if core.IsBrokerTopicNotFoundError(err) {
			r = "notfound"
		}
	}
	l.t.add(J{"e": "emitted", "r": r})
}

func runBus(raw json.RawMessage, t *Trace) {
	sc := &sBus{}
	if err := json.Unmarshal(raw, sc); err != nil {
		panic(err)
	}
	l := &busLab{t: t, did: map[int]bool{}}
	if sc.Services {
		l.b = services.Reset()
	} else {
		b, err := bus.New(&bus.Sequential{Format: "gen-%d"})
		if err != nil {
			panic(err)
		}
		l.b = b
	}
	for k := range sc.Ops {
		l.do(context.Background(), &sc.Ops[k])
	}
}

func init() { runners["bus"] = runBus }
