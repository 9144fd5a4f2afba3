package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"
)

// Ev is one trace event; it becomes one JSON object of the trace that TLC reads.
type Ev map[string]any

// Rec records the events of one scenario in one total order.
type Rec struct {
	mu  sync.Mutex
	evs []Ev
	t0  time.Time
	n   map[string]int
	// Only, if set, names the kinds of events that are kept.
	Only map[string]bool
}

func NewRec() *Rec { return &Rec{t0: time.Now(), n: map[string]int{}} }

func (r *Rec) Add(kind string, e Ev) {
	if e == nil {
		e = Ev{}
	}
	e["e"] = kind
	r.mu.Lock()
	if r.Only != nil && !r.Only[kind] {
		r.n[kind]++
		r.mu.Unlock()
		return
	}
	e["ms"] = time.Since(r.t0).Milliseconds()
	r.evs = append(r.evs, e)
	r.n[kind]++
	r.mu.Unlock()
}

func (r *Rec) Count(kind string) int { r.mu.Lock(); defer r.mu.Unlock(); return r.n[kind] }

func (r *Rec) Len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.evs) }

// Write stores the trace as a JSON array.
func (r *Rec) Write(path string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f, err := os.Create(path)
	must(err)
	defer f.Close()
	fmt.Fprint(f, "[")
	for i, e := range r.evs {
		if i > 0 {
			fmt.Fprint(f, ",\n")
		}
		b, err := json.Marshal(e)
		must(err)
		f.Write(b)
	}
	fmt.Fprint(f, "]\n")
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(2)
	}
}
