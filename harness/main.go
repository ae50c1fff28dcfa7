// Command zzverif is the conformance harness: it is compiled INSIDE the
// agenor module through a build overlay (see tools/lib.py) so that it sees
// exactly the code of the working tree, including internal packages that the
// project's own tests use.  It reads one scenario per line (JSON) and writes
// one recorded trace per line (JSON).  It never judges anything: judging is
// done by TLC against the TLA+ specification.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/li18ngo"
)

type (
	// J is a JSON object.
	J = map[string]any

	// Trace is what one scenario produced.
	Trace struct {
		ID  int `json:"id"`
		Ev  []J `json:"ev"`
		mu  sync.Mutex
		cap int

		// navigations in the company of others
		admin  string
		inside func()
	}
)

func (t *Trace) add(ev J) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.Ev) >= t.cap {
		// runaway: park this goroutine; the watchdog reports a hang
		t.Ev = append(t.Ev, J{"e": "runaway"})
		t.mu.Unlock()
		select {}
	}
	t.Ev = append(t.Ev, ev)
}

type runner func(raw json.RawMessage, t *Trace)

var runners = map[string]runner{}

func main() {
	if err := li18ngo.Use(func(o *li18ngo.UseOptions) {
		o.From.Sources = li18ngo.TranslationFiles{
			locale.SourceID: li18ngo.TranslationSource{Name: "agenor"},
		}
	}); err != nil {
		fmt.Fprintln(os.Stderr, "li18ngo:", err)
		os.Exit(3)
	}

	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)

	for in.Scan() {
		line := append([]byte{}, in.Bytes()...)
		if len(line) == 0 {
			continue
		}
		var head struct {
			ID      int    `json:"id"`
			Kind    string `json:"kind"`
			Timeout int    `json:"timeout"`
		}
		if err := json.Unmarshal(line, &head); err != nil {
			fmt.Fprintln(os.Stderr, "bad scenario:", err)
			os.Exit(3)
		}
		run, ok := runners[head.Kind]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown kind:", head.Kind)
			os.Exit(3)
		}
		if head.Timeout == 0 {
			head.Timeout = 20000
		}

		t := &Trace{ID: head.ID, Ev: []J{}, cap: 4000}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					t.mu.Lock()
					t.Ev = append(t.Ev, J{"e": "crash", "msg": fmt.Sprint(p), "stack": trim(st)})
					t.mu.Unlock()
				}
			}()
			run(line, t)
		}()

		hung := false
		select {
		case <-done:
		case <-time.After(time.Duration(head.Timeout) * time.Millisecond):
			hung = true
			t.mu.Lock()
			t.Ev = append(t.Ev, J{"e": "hang"})
			t.mu.Unlock()
		}

		t.mu.Lock()
		buf, err := json.Marshal(t)
		t.mu.Unlock()
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			os.Exit(3)
		}
		_, _ = out.Write(buf)
		_ = out.WriteByte('\n')
		if hung {
			_ = out.Flush()
			os.Exit(9) // the driver restarts with the next scenario
		}
		_ = out.Flush()
	}
	_ = out.Flush()
}

func trim(st string) string {
	lines := strings.Split(st, "\n")
	keep := []string{}
	for _, l := range lines {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) == 4 {
			break
		}
	}
	return strings.Join(keep, " | ")
}
