package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"sync/atomic"
	"time"
)

// Ctx drives one check in one worker process. Cases are enumerated deterministically; worker i of
// N executes those whose index is i modulo N.
type Ctx struct {
	ID       string
	Tier     string
	Thorough bool
	Seed     int64
	Scratch  string // private scratch directory of this worker

	shard, shards int
	only          int64 // run only this case (replay), -1 for all
	traceFile     *os.File
	out           string
	deadline      time.Time
	known         map[string]string

	idx     int64 // index of the current case
	started int64 // unix nanos of the start of the current case; 0 when idle
	label   func() string

	res Result
}

// Violation is one failing case.
type Violation struct {
	Case  int64  `json:"case"`
	Label string `json:"label"`
	Msg   string `json:"msg"`
	Repro string `json:"reproduced"`
	Key   string `json:"key,omitempty"`
}

// Result is what one worker reports.
type Result struct {
	Done        bool             `json:"done"`
	Cases       int64            `json:"cases"`      // cases executed by this worker
	Enumerated  int64            `json:"enumerated"` // cases enumerated (same in all workers)
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Skipped     int64            `json:"skipped"` // cases dropped because the time budget ran out
	Capped      bool             `json:"capped"`
	Outcomes    map[string]int64 `json:"outcomes"` // distinct observations (hashed or short)
	Bounds      map[string]any   `json:"bounds"`
	Samples     []string         `json:"samples"`
	Assumptions []string         `json:"assumptions"`
	Violations  []Violation      `json:"violations"`
	Known       map[string]int64 `json:"known"`
	Notes       []string         `json:"notes"`
}

// KErr is a failure that carries the key of the finding it belongs to.
type KErr struct{ Key, Msg string }

func (e KErr) Error() string { return e.Msg }

// State counts distinct states, Trans counts transitions (operations of the code under test that
// were executed and compared), Trace counts complete executions compared with the oracle.
func (c *Ctx) State(n int) { c.res.States += int64(n) }
func (c *Ctx) Trans(n int) { c.res.Transitions += int64(n) }
func (c *Ctx) Trace(n int) { c.res.Traces += int64(n) }

// Outcome records an observation, to show that the exploration is not vacuous.
func (c *Ctx) Outcome(s string) {
	if len(s) > 40 {
		h := sha256.Sum256([]byte(s))
		s = fmt.Sprintf("%x", h[:8])
	}
	if len(c.res.Outcomes) < 20000 || c.res.Outcomes[s] > 0 {
		c.res.Outcomes[s]++
	}
}

// Bound records a bound of the exploration.
func (c *Ctx) Bound(k string, v any) { c.res.Bounds[k] = v }

// Assume records an assumption.
func (c *Ctx) Assume(s string) {
	for _, a := range c.res.Assumptions {
		if a == s {
			return
		}
	}
	c.res.Assumptions = append(c.res.Assumptions, s)
}

// Cap marks the run as not exhaustive within its bounds.
func (c *Ctx) Cap(why string) {
	if !c.res.Capped {
		c.res.Notes = append(c.res.Notes, "capped: "+why)
	}
	c.res.Capped = true
}

func (c *Ctx) expired() bool { return time.Now().After(c.deadline) }

type stopWorker struct{}

// Mine says whether the next case belongs to this worker, without consuming it.
func (c *Ctx) Mine() bool {
	n := c.idx + 1
	if c.only >= 0 {
		return n == c.only
	}
	return int(n%int64(c.shards)) == c.shard
}

// Skip consumes a case that is not this worker's.
func (c *Ctx) Skip() { c.idx++ }

// Case runs one case: fn drives the real code and returns an error when the property is broken.
// A panic counts as an error.
func (c *Ctx) Case(label func() string, fn func() error) {
	mine := c.Mine()
	c.idx++
	if !mine {
		return
	}
	if c.expired() {
		c.res.Skipped++
		c.Cap("time budget")
		return
	}
	c.res.Cases++
	if len(c.res.Samples) < 2 || (c.res.Cases&(c.res.Cases-1) == 0 && len(c.res.Samples) < 6) {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("case %d: %s", c.idx, label()))
	}
	if c.traceFile != nil {
		c.traceFile.Truncate(0)
		c.traceFile.WriteAt([]byte(fmt.Sprintf("%d\n%s\n", c.idx, label())), 0)
	}
	c.label = label
	atomic.StoreInt64(&c.started, time.Now().UnixNano())
	err := guard(fn)
	atomic.StoreInt64(&c.started, 0)
	if err == nil {
		return
	}
	if k, ok := err.(KErr); ok {
		if _, listed := c.known[k.Key]; listed {
			c.res.Known[k.Key]++
			return
		}
	}
	// Re-run to see whether the failure is deterministic.
	rep := 0
	_, race := err.(RaceErr)
	for i := 0; i < 5 && !race; i++ {
		atomic.StoreInt64(&c.started, time.Now().UnixNano())
		if e := guard(fn); e != nil {
			rep++
		}
		atomic.StoreInt64(&c.started, 0)
	}
	if race {
		rep = 5
	}
	v := Violation{Case: c.idx, Label: label(), Msg: err.Error(), Repro: fmt.Sprintf("%d/5", rep)}
	if k, ok := err.(KErr); ok {
		v.Key = k.Key
	}
	if rep == 0 {
		c.res.Notes = append(c.res.Notes, fmt.Sprintf("unreproduced failure at case %d (%s): %s", v.Case, v.Label, v.Msg))
		if len(c.res.Notes) < 50 {
			return
		}
	}
	c.res.Violations = append(c.res.Violations, v)
	panic(stopWorker{})
}

func guard(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopWorker); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return fn()
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func (c *Ctx) write() {
	c.res.Enumerated = c.idx
	b, _ := json.Marshal(c.res)
	tmp := c.out + ".tmp"
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, c.out)
}

const hangLimit = 200 * time.Second
const heapLimit = 5 << 29

// watch turns a case that never ends, or that eats memory without end, into a violation.
func (c *Ctx) watch() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		st := atomic.LoadInt64(&c.started)
		if st == 0 {
			continue
		}
		msg := ""
		if time.Since(time.Unix(0, st)) > hangLimit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			msg = fmt.Sprintf("the case did not end within %v\n%s", hangLimit, buf)
		}
		metrics.Read(s)
		if s[0].Value.Uint64() > heapLimit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			msg = fmt.Sprintf("the case used more than %d bytes of memory\n%s", int64(heapLimit), buf)
		}
		if msg != "" {
			c.res.Violations = append(c.res.Violations, Violation{Case: c.idx, Label: c.label(), Msg: msg, Repro: "not re-run"})
			c.res.Done = true
			c.write()
			os.Exit(0)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
