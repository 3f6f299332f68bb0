// Package vsync stands in for sync in instrumented builds. Outside of a controlled run every type
// behaves like the one of sync. Inside, every operation is a scheduling point of a cooperative
// scheduler that runs one goroutine at a time.
//
// The scheduler's own bookkeeping is kept out of the race detector's sight (norace functions, plain
// variables, no channels), so that the only happens-before edges the detector sees are those of the
// real sync operations, which are also executed (never contended) on behalf of the code under test.
package vsync

import (
	"runtime"
	"sync"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

const (
	maxThreads = 160
	maxPoints  = 1 << 16
)

const (
	opNone = iota
	opStart
	opLock
	opRLock
	opWake
	opWG
	opFree // always enabled
)

type thread struct {
	op      int
	m       *Mutex
	rw      *RWMutex
	wg      *WaitGroup
	woken   bool
	done    bool
	waiting bool
}

var (
	active   bool
	dead     bool // unwinding after a deadlock or an overrun
	turn     int
	nthreads int
	threads  [maxThreads]thread
	ctl      sync.WaitGroup

	prefix    []int
	npoints   int
	chosen    [maxPoints]int32
	nenabled  [maxPoints]int32
	preempt   [maxPoints]bool // the running thread was still enabled
	deadlock  bool
	overrun   bool
	diverged  bool
	horizon   int
	panicked  any
	panicFrom int
)

// Controlled says whether a controlled run is in progress.
//
//go:norace
func Controlled() bool { return active }

// Self is the number of the running controlled thread.
//
//go:norace
func Self() int { return turn }

//go:norace
func enabled(i int) bool {
	t := &threads[i]
	if t.done {
		return false
	}
	switch t.op {
	case opLock:
		if t.rw != nil {
			return !t.rw.w && t.rw.r == 0
		}
		return !t.m.held
	case opRLock:
		return !t.rw.w
	case opWake:
		return t.woken
	case opWG:
		return t.wg.n <= 0
	}
	return true
}

var enabledNow [maxThreads]int // only the running thread picks

// pick chooses the next thread; self is the running thread or -1 when it has ended.
//
//go:norace
func pick(self int) int {
	en := &enabledNow
	n := 0
	selfOn := false
	if self >= 0 && enabled(self) {
		en[0] = self
		n = 1
		selfOn = true
	}
	for i := 0; i < nthreads; i++ {
		if i != self && enabled(i) {
			en[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return en[0]
	}
	if npoints >= horizon {
		overrun = true
		return -1
	}
	c := 0
	if npoints < len(prefix) {
		c = prefix[npoints]
		if c >= n {
			diverged = true
			c = 0
		}
	}
	chosen[npoints] = int32(c)
	nenabled[npoints] = int32(n)
	preempt[npoints] = selfOn
	npoints++
	return en[c]
}

//go:norace
func waitTurn(self int) {
	for turn != self || dead {
		if dead {
			if turn == self || true {
				runtime.Goexit()
			}
		}
		runtime.Gosched()
	}
}

// point is a scheduling point: the running thread is about to do op and yields the processor.
//
//go:norace
func point(op int, m *Mutex, rw *RWMutex, wg *WaitGroup) {
	self := turn
	t := &threads[self]
	t.op, t.m, t.rw, t.wg = op, m, rw, wg
	if quiet && enabled(self) {
		t.op = opNone
		return
	}
	next := pick(self)
	if next < 0 {
		stuck(self)
		runtime.Goexit()
	}
	if next != self {
		turn = next
		waitTurn(self)
	}
	t.op = opNone
}

// quiet says that the running thread goes on at scheduling points as long as it can.
var quiet bool

// Others counts the threads, other than the running one, that have not ended.
//
//go:norace
func Others() int {
	n := 0
	for i := 0; i < nthreads; i++ {
		if i != turn && !threads[i].done {
			n++
		}
	}
	return n
}

// Quietly runs f without giving up the processor unless f has to wait.
//
//go:norace
func Quietly(f func()) {
	quiet = true
	f()
	quiet = false
}

//go:norace
func stuck(self int) {
	if !overrun {
		deadlock = true
	}
	dead = true
}

//go:norace
func ended(self int) {
	threads[self].done = true
	if dead {
		return
	}
	next := pick(-1)
	if next >= 0 {
		turn = next
		return
	}
	for i := 0; i < nthreads; i++ {
		if !threads[i].done {
			stuck(self)
			return
		}
	}
	if overrun {
		dead = true
	}
}

//go:norace
func newThread() int {
	id := nthreads
	if id >= maxThreads {
		panic("vsync: too many threads")
	}
	nthreads++
	threads[id] = thread{op: opStart}
	return id
}

//go:norace
func notePanic(r any, id int) {
	if panicked == nil {
		panicked = r
		panicFrom = id
	}
	deadlock = deadlock || false
	dead = true
}

func launch(id int, f func()) {
	ctl.Add(1)
	go func() {
		defer ctl.Done()
		defer ended(id)
		defer func() {
			if r := recover(); r != nil {
				notePanic(r, id)
			}
		}()
		waitTurn(id)
		f()
	}()
}

// Go starts a goroutine.
func Go(f func()) {
	if !Controlled() {
		go f()
		return
	}
	if isDead() {
		return
	}
	launch(newThread(), f)
	point(opFree, nil, nil, nil)
}

// Spawned counts the threads of drivers that run outside of a controlled run.
var Spawned sync.WaitGroup

// Spawn starts a thread of a driver.
func Spawn(f func()) {
	if Controlled() {
		Go(f)
		return
	}
	Spawned.Add(1)
	go func() {
		defer Spawned.Done()
		f()
	}()
}

//go:norace
func isDead() bool { return dead }

// Yield is an explicit scheduling point for drivers.
func Yield() {
	if Controlled() && !isDead() {
		point(opFree, nil, nil, nil)
	}
}

// Outcome of one controlled run.
type Outcome struct {
	Chosen   []int
	Enabled  []int
	Preempt  []bool
	Deadlock bool
	Overrun  bool
	Diverged bool
	Panic    any
	Threads  int
}

// Execute runs body as the first thread under the scheduler, following the given choices and then
// always the first enabled thread (the running one if it can go on).
func Execute(choices []int, maxDecisions int, body func()) Outcome {
	begin(choices, maxDecisions)
	launch(newThread(), body)
	ctl.Wait()
	return finish()
}

//go:norace
func begin(choices []int, maxDecisions int) {
	nthreads, npoints = 0, 0
	turn = 0
	quiet = false
	dead, deadlock, overrun, diverged = false, false, false, false
	panicked = nil
	prefix = choices
	horizon = maxDecisions
	if horizon <= 0 || horizon > maxPoints {
		horizon = maxPoints
	}
	active = true
}

//go:norace
func finish() Outcome {
	active = false
	o := Outcome{Deadlock: deadlock, Overrun: overrun, Diverged: diverged, Panic: panicked, Threads: nthreads}
	o.Chosen = make([]int, npoints)
	o.Enabled = make([]int, npoints)
	o.Preempt = make([]bool, npoints)
	for i := 0; i < npoints; i++ {
		o.Chosen[i], o.Enabled[i], o.Preempt[i] = int(chosen[i]), int(nenabled[i]), preempt[i]
	}
	return o
}

// Single as a bound stands for the default schedule alone.
const Single = -1 << 30

// Explore runs body under every schedule with at most bound preemptions. part/parts splits the tree
// at the first deviation so that several processes can share it. check judges each run; a non-nil
// error stops the search. With a negative bound every departure from the default schedule counts, not only
// preemptions (delay bounding, for programs with many threads). It returns the number of schedules and whether a cap was hit.
func Explore(bound, maxDecisions, maxRuns, part, parts int, stop func() bool, body func(), check func(Outcome) error) (runs int, capped bool, err error) {
	delay := bound < 0
	if bound == Single {
		bound = 0
	} else if delay {
		bound = -bound
	}
	var rec func(pre []int, depth int) error
	rec = func(pre []int, depth int) error {
		if (maxRuns > 0 && runs >= maxRuns) || (stop != nil && stop()) {
			capped = true
			return nil
		}
		o := Execute(pre, maxDecisions, body)
		if depth > 0 || part == 0 {
			runs++
		}
		if e := check(o); e != nil {
			return e
		}
		cost := 0
		for i, ch := range o.Chosen {
			if i >= len(pre) {
				c := cost
				if o.Preempt[i] || delay {
					c++
				}
				if c <= bound && !(depth == 0 && parts > 1 && i%parts != part) {
					for alt := 1; alt < o.Enabled[i]; alt++ {
						p := append(append([]int(nil), o.Chosen[:i]...), alt)
						if e := rec(p, depth+1); e != nil {
							return e
						}
					}
				}
			}
			if ch != 0 && (o.Preempt[i] || delay) {
				cost++
			}
		}
		return nil
	}
	err = rec(nil, 0)
	return
}

// ---- Mutex

type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

func (m *Mutex) Lock() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opLock, m, nil, nil)
		m.set(true)
	}
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if Controlled() {
		if isDead() {
			return false
		}
		point(opFree, nil, nil, nil)
		if m.isHeld() {
			return false
		}
		m.set(true)
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opFree, nil, nil, nil)
		if !m.isHeld() {
			panic("sync: unlock of unlocked mutex")
		}
		m.set(false)
	}
	m.real.Unlock()
}

// ---- RWMutex

type RWMutex struct {
	real sync.RWMutex
	w    bool
	r    int
}

//go:norace
func (m *RWMutex) mark(w bool, d int) { m.w = w; m.r += d }

//go:norace
func (m *RWMutex) state() (bool, int) { return m.w, m.r }

func (m *RWMutex) Lock() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opLock, nil, m, nil)
		m.mark(true, 0)
	}
	m.real.Lock()
}

func (m *RWMutex) Unlock() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opFree, nil, nil, nil)
		if w, _ := m.state(); !w {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.mark(false, 0)
	}
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opRLock, nil, m, nil)
		m.mark(false, 1)
	}
	m.real.RLock()
}

func (m *RWMutex) RUnlock() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opFree, nil, nil, nil)
		if _, r := m.state(); r <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.mark(false, -1)
	}
	m.real.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if Controlled() {
		if isDead() {
			return false
		}
		point(opFree, nil, nil, nil)
		if w, r := m.state(); w || r > 0 {
			return false
		}
		m.mark(true, 0)
	}
	return m.real.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if Controlled() {
		if isDead() {
			return false
		}
		point(opFree, nil, nil, nil)
		if w, _ := m.state(); w {
			return false
		}
		m.mark(false, 1)
	}
	return m.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- WaitGroup

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) add(d int) { w.n += d }

func (w *WaitGroup) Add(d int) {
	if Controlled() {
		if isDead() {
			return
		}
		point(opFree, nil, nil, nil)
		w.add(d)
	}
	w.real.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if Controlled() {
		if isDead() {
			return
		}
		point(opWG, nil, nil, w)
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Cond

type Cond struct {
	L    Locker
	once sync.Once
	real *sync.Cond
	q    [maxThreads]int
	n    int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

//go:norace
func (c *Cond) enlist() int {
	self := turn
	threads[self].woken = false
	c.q[c.n] = self
	c.n++
	return self
}

//go:norace
func (c *Cond) wake(all bool) {
	for c.n > 0 {
		threads[c.q[0]].woken = true
		for i := 1; i < c.n; i++ {
			c.q[i-1] = c.q[i]
		}
		c.n--
		if !all {
			return
		}
	}
}

func (c *Cond) Wait() {
	if !Controlled() {
		c.r().Wait()
		return
	}
	if isDead() {
		runtime.Goexit()
	}
	c.enlist()
	c.L.Unlock()
	point(opWake, nil, nil, nil)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !Controlled() {
		c.r().Signal()
		return
	}
	if isDead() {
		return
	}
	point(opFree, nil, nil, nil)
	c.wake(false)
}

func (c *Cond) Broadcast() {
	if !Controlled() {
		c.r().Broadcast()
		return
	}
	if isDead() {
		return
	}
	point(opFree, nil, nil, nil)
	c.wake(true)
}

// ---- Once

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
