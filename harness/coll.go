package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"

	"github.com/snivilised/agenor/collections"
)

// Sequences of operations on the ordered set, the stack and the iterators.
type (
	sCollOp struct {
		Op   string `json:"op"`
		X    int    `json:"x"`
		Xs   []int  `json:"xs"`
		I    int    `json:"i"` // which of the objects
		Stop int    `json:"stop"`
	}
	sColl struct {
		What   string    `json:"what"` // set stack forward reverse forward-run reverse-run
		Type   string    `json:"type"` // int string
		Order  []int     `json:"order"`
		Anchor int       `json:"anchor"`
		Ops    []sCollOp `json:"ops"`
	}
	setObj interface {
		do(op *sCollOp) J
	}
)

func list(q []int) []int {
	if q == nil {
		return []int{}
	}
	return q
}

type codec[T comparable] struct {
	to   func(int) T
	from func(T) int
}

func (c codec[T]) all(q []int) []T {
	out := []T{}
	for _, x := range q {
		out = append(out, c.to(x))
	}
	return out
}
func (c codec[T]) back(q []T) []int {
	out := []int{}
	for _, x := range q {
		out = append(out, c.from(x))
	}
	return out
}

func runSet[T collections.Orderable](t *Trace, sc *sColl, c codec[T]) {
	type obj struct {
		s      *collections.PositionalSet[T]
		held   []T
		was    []int
		order  []T
		orders []int
	}
	objs := []*obj{}
	for range 2 {
		order := c.all(sc.Order)
		objs = append(objs, &obj{s: collections.NewPositionalSet(order, c.to(sc.Anchor)), order: order, orders: list(sc.Order)})
	}
	for k := range sc.Ops {
		op := &sc.Ops[k]
		o := objs[op.I]
		ev := J{"e": "op", "op": op.Op, "i": op.I, "x": op.X, "xs": list(op.Xs), "b": false, "n": 0}
		switch op.Op {
		case "insert":
			ev["b"] = o.s.Insert(c.to(op.X))
		case "all":
			ev["b"] = o.s.All(c.all(op.Xs)...)
		case "delete":
			o.s.Delete(c.to(op.X))
		case "contains":
			ev["b"] = o.s.Contains(c.to(op.X))
		case "position":
			ev["n"], ev["b"] = o.s.Position(c.to(op.X))
		case "items":
			q := o.s.Items()
			ev["xs"] = c.back(q)
			o.held, o.was = q, c.back(q)
		case "top":
			ev["x"] = c.from(o.s.Top())
		case "count":
			ev["n"] = o.s.Count()
		}
		// what has been handed out stays as it was
		ev["held"] = fmt.Sprint(c.back(o.held)) == fmt.Sprint(o.was) || o.held == nil
		ev["order"] = fmt.Sprint(c.back(o.order)) == fmt.Sprint(o.orders)
		t.add(ev)
	}
}

func runStack[T comparable](t *Trace, sc *sColl, c codec[T]) {
	objs := []*collections.Stack[T]{collections.NewStack[T](), collections.NewStackWith(c.all(sc.Order))}
	for k := range sc.Ops {
		op := &sc.Ops[k]
		s := objs[op.I]
		ev := J{"e": "op", "op": op.Op, "i": op.I, "x": op.X, "xs": []int{}, "b": false, "n": 0}
		val := func(v T, err error) {
			switch {
			case err == nil:
				ev["b"], ev["x"] = true, c.from(v)
			case errors.Is(err, collections.ErrStackIsEmpty):
				ev["b"] = false
			default:
				ev["n"] = 1
			}
		}
		switch op.Op {
		case "push":
			s.Push(c.to(op.X))
		case "pop":
			val(s.Pop())
		case "mustpop":
			func() {
				defer func() {
					if p := recover(); p != nil {
						err, _ := p.(error)
						ev["b"] = false
						if !errors.Is(err, collections.ErrStackIsEmpty) {
							ev["n"] = 1
						}
					}
				}()
				ev["x"] = c.from(s.MustPop())
				ev["b"] = true
			}()
		case "current":
			val(s.Current())
		case "size":
			ev["n"] = int(s.Size())
		case "empty":
			ev["b"] = s.IsEmpty()
		case "content":
			ev["xs"] = c.back(s.Content())
		}
		t.add(ev)
	}
}

func runIter[T comparable](t *Trace, sc *sColl, c codec[T]) {
	zero := c.to(0)
	var it collections.Iterator[T]
	var rit collections.RunnableIterator[T, int]
	elements := c.all(sc.Order)
	switch sc.What {
	case "forward":
		it = collections.ForwardIt(elements, zero)
	case "reverse":
		it = collections.ReverseIt(elements, zero)
	case "forward-run":
		rit = collections.ForwardRunIt[T, int](elements, zero)
		it = rit
	case "reverse-run":
		rit = collections.ReverseRunIt[T, int](elements, zero)
		it = rit
	}
	for k := range sc.Ops {
		op := &sc.Ops[k]
		ev := J{"e": "op", "op": op.Op, "i": 0, "x": op.X, "xs": list(op.Xs), "b": false, "n": op.Stop}
		switch op.Op {
		case "start":
			ev["x"] = c.from(it.Start())
		case "next":
			ev["x"] = c.from(it.Next())
		case "valid":
			ev["b"] = it.Valid()
		case "reset":
			it.Reset(c.all(op.Xs))
		case "runall":
			// n elements are let through; each's result is 10 times the element
			seen, ok := []int{}, true
			count := 0
			rit.RunAll(func(x T) int {
				seen = append(seen, c.from(x))
				return 10 * c.from(x)
			}, func(x T, r int) bool {
				count++
				ok = ok && r == 10*c.from(x) && len(seen) == count && seen[count-1] == c.from(x)
				return count < op.Stop
			})
			ev["xs"], ev["b"] = seen, ok && count == len(seen)
		}
		t.add(ev)
	}
}

func runColl(raw json.RawMessage, t *Trace) {
	sc := &sColl{}
	if err := json.Unmarshal(raw, sc); err != nil {
		panic(err)
	}
	ints := codec[int]{func(n int) int { return n }, func(n int) int { return n }}
	strs := codec[string]{
		func(n int) string {
			if n == 0 {
				return ""
			}
			return "s" + strconv.Itoa(n)
		},
		func(s string) int {
			if s == "" {
				return 0
			}
			n, err := strconv.Atoi(s[1:])
			if err != nil {
				return -1
			}
			return n
		},
	}
	switch {
	case sc.What == "set" && sc.Type == "int":
		runSet(t, sc, ints)
	case sc.What == "set":
		runSet(t, sc, strs)
	case sc.What == "stack" && sc.Type == "int":
		runStack(t, sc, ints)
	case sc.What == "stack":
		runStack(t, sc, strs)
	case sc.Type == "int":
		runIter(t, sc, ints)
	default:
		runIter(t, sc, strs)
	}
}

func init() { runners["coll"] = runColl }
