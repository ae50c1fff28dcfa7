package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
)

// Navigations made in the company of each other: at the same time, or from
// within the callback of one of them.
type sCompany struct {
	Members []json.RawMessage `json:"members"`
	Mode    string            `json:"mode"` // parallel nested serial
	At      int               `json:"at"`   // nested: the delivery another is made in
	Admin   bool              `json:"shared"`
	Still   bool              `json:"still"`
}

func runMember(raw json.RawMessage, t *Trace) {
	defer func() {
		if p := recover(); p != nil {
			t.mu.Lock()
			t.Ev = append(t.Ev, J{"e": "crash", "msg": fmt.Sprint(p), "stack": trim(string(debug.Stack()))})
			t.mu.Unlock()
		}
	}()
	runWalk(raw, t)
}

func runCompany(raw json.RawMessage, t *Trace) {
	sc := &sCompany{}
	must(json.Unmarshal(raw, sc))
	if sc.Still {
		clock.Store(0)
		defer clock.Store(1)
	}
	shared := ""
	if sc.Admin {
		a, err := os.MkdirTemp("", "zzverif-adm-")
		must(err)
		defer os.RemoveAll(a)
		shared = a
	}
	ts := make([]*Trace, len(sc.Members))
	for i := range ts {
		ts[i] = &Trace{ID: i + 1, Ev: []J{}, cap: 4000, admin: shared}
	}
	switch sc.Mode {
	case "nested":
		// each is made inside the one before it
		for i := range ts[:len(ts)-1] {
			seen := int64(0)
			next := i + 1
			var once sync.Once
			ts[i].inside = func() {
				if atomic.AddInt64(&seen, 1) >= int64(sc.At) {
					once.Do(func() { runMember(sc.Members[next], ts[next]) })
				}
			}
		}
		runMember(sc.Members[0], ts[0])
	case "serial":
		for i := range ts {
			runMember(sc.Members[i], ts[i])
		}
	default:
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range ts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				runMember(sc.Members[i], ts[i])
			}()
		}
		close(gate)
		wg.Wait()
	}
	for _, m := range ts {
		t.add(J{"e": "member", "ev": m.Ev})
	}
}

func init() { runners["company"] = runCompany }
