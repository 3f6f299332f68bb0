package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/vsync"
)

// free says that the code under test uses synchronisation the scheduler does not control (channels); drivers then run freely several times, and the evidence says so.
var free = os.Getenv("MC_FREE") != ""

// driver is one small concurrent program over the code under test. start makes fresh state and
// returns the program's first thread and the judgement of its outcome.
type driver struct {
	name  string
	bound int // preemptions; negative: departures from the default schedule of any kind
	parts int // cases the schedule tree is split into
	start func() (body func(), verify func() error)
}

func schedErr(o vsync.Outcome) error {
	switch {
	case o.Panic != nil:
		return fmt.Errorf("panic: %v", o.Panic)
	case o.Deadlock:
		return fmt.Errorf("deadlock: no thread can go on")
	}
	return nil
}

// schedules explores every schedule of the driver with at most d.bound preemptions.
func (c *Ctx) schedules(d driver) {
	if d.parts < 1 {
		d.parts = 1
	}
	what := fmt.Sprintf("up to %d preemptions", d.bound)
	if d.bound < 0 {
		what = fmt.Sprintf("up to %d delays", -d.bound)
	}
	if d.bound == vsync.Single {
		what = "default schedule"
	}
	for part := 0; part < d.parts; part++ {
		part := part
		c.Case(func() string { return fmt.Sprintf("%s, %s, part %d/%d", d.name, what, part, d.parts) }, func() error {
			if free || !instrumented() {
				return c.freeRuns(d, part)
			}
			old := runtime.GOMAXPROCS(1)
			defer runtime.GOMAXPROCS(old)
			var verify func() error
			var inner func()
			races := 0
			// What the program's first thread returns with is complete when it returns: it is judged at
			// that moment if other threads are still about, and once more when all have ended.
			var early error
			body := func() {
				inner()
				if vsync.Others() > 0 {
					vsync.Quietly(func() { early = verify() })
				}
			}
			var last []int
			prep := func() bool {
				atomic.StoreInt64(&c.started, time.Now().UnixNano())
				inner, verify = d.start()
				early = nil
				races = vsync.RaceErrors()
				return c.expired()
			}
			runs, capped, err := vsync.Explore(d.bound, 20000, 0, part, d.parts, prep, body, func(o vsync.Outcome) error {
				last = o.Chosen
				c.Trans(len(o.Chosen) + 1)
				if o.Overrun || o.Diverged {
					c.Cap("schedule longer than the horizon or not repeatable")
					return nil
				}
				if n := vsync.RaceErrors() - races; n > 0 {
					return RaceErr{fmt.Sprintf("%d data race(s) in schedule %v", n, trimZeros(o.Chosen))}
				}
				if e := schedErr(o); e != nil {
					return fmt.Errorf("schedule %v: %w", trimZeros(o.Chosen), e)
				}
				if early != nil {
					return fmt.Errorf("schedule %v: when the call returned: %w", trimZeros(o.Chosen), early)
				}
				if e := verify(); e != nil {
					return fmt.Errorf("schedule %v: %w", trimZeros(o.Chosen), e)
				}
				return nil
			})
			c.State(runs)
			c.Trace(runs)
			if capped {
				c.Cap("time budget")
			}
			_ = last
			return err
		})
	}
}

// RaceErr is a failure reported by the race detector; it has no false positives and is not re-run.
type RaceErr struct{ msg string }

func (e RaceErr) Error() string { return e.msg }

func trimZeros(a []int) []int {
	n := len(a)
	for n > 0 && a[n-1] == 0 {
		n--
	}
	return a[:n]
}

// freeRuns executes the driver without control.
func (c *Ctx) freeRuns(d driver, part int) error {
	c.Cap("code under test synchronises by means the scheduler does not control: free runs only")
	n := 60
	if c.Thorough {
		n = 600
	}
	for i := 0; i < n && !c.expired(); i++ {
		atomic.StoreInt64(&c.started, time.Now().UnixNano())
		body, verify := d.start()
		races := vsync.RaceErrors()
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			body()
			vsync.Spawned.Wait()
		}()
		select {
		case r := <-done:
			if r != nil {
				return fmt.Errorf("panic: %v", r)
			}
		case <-time.After(60 * time.Second):
			return fmt.Errorf("the program did not end within 60 s")
		}
		if n := vsync.RaceErrors() - races; n > 0 {
			return RaceErr{fmt.Sprintf("%d data race(s) in a free run", n)}
		}
		c.Trace(1)
		c.State(1)
		c.Trans(1)
		if e := verify(); e != nil {
			return e
		}
	}
	return nil
}

// instrumented says whether the code under test was built with the controlled stand-ins.
func instrumented() bool { return os.Getenv("MC_INSTR") != "" }

// Events of a driver, kept out of the race detector's sight.
type event struct{ kind, id int }

var evLog [1 << 12]event
var evN int

//go:norace
func evReset() { evN = 0 }

var evMu sync.Mutex

//go:norace
func ev(kind, id int) {
	if !vsync.Controlled() {
		evMu.Lock()
		defer evMu.Unlock()
	}
	if evN < len(evLog) {
		evLog[evN] = event{kind, id}
		evN++
	}
}

//go:norace
func events() []event { return append([]event(nil), evLog[:evN]...) }
