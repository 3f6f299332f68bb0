package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/conc"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"

	"verif/mc/vsync"
)

func init() {
	register("C12", "a case is one part of the schedule tree of one program over the job queue; every schedule with at most the stated number of preemptions is executed on the real queue", checkC12)
	register("C13", "a case is one part of the schedule tree of one concurrent classification, or one data set classified by all evaluators", checkC13)
	register("C23", "a case is one part of the schedule tree of one program over the generator or the registry (judged by linearisation), or one sequence of operations", checkC23)
}

// ---------------------------------------------------------------- C12

const (
	evStart = iota
	evEnd
	evSubmit  // Run returned
	evWaited  // Wait returned
	evSubmitB // Run called
)

// judgeQueue checks one run from its events: want jobs, at most limit at once, waits after all jobs
// submitted before them.
func judgeQueue(limit, want int, perRound bool) error {
	es := events()
	started, ended := map[int]int{}, map[int]int{}
	run := 0
	submitted := map[int]bool{}
	for _, e := range es {
		switch e.kind {
		case evStart:
			started[e.id]++
			run++
			if run > limit {
				return fmt.Errorf("%d jobs at once with limit %d: %v", run, limit, es)
			}
		case evEnd:
			ended[e.id]++
			run--
		case evSubmit:
			submitted[e.id] = true
		case evWaited:
			for id := range submitted {
				if ended[id] != 1 {
					return fmt.Errorf("wait returned although job %d has ended %d times: %v", id, ended[id], es)
				}
			}
			if run != 0 {
				return fmt.Errorf("wait returned with %d jobs running: %v", run, es)
			}
		}
	}
	if len(started) != want {
		return fmt.Errorf("%d of %d jobs ran: %v", len(started), want, es)
	}
	for id := 0; id < want; id++ {
		if started[id] != 1 || ended[id] != 1 {
			return fmt.Errorf("job %d started %d times and ended %d times: %v", id, started[id], ended[id], es)
		}
	}
	return nil
}

// gate is a one-shot barrier for drivers.
type gate struct {
	mu sync2
	c  *vsync.Cond
	n  int
}
type sync2 = vsync.Mutex

func newGate() *gate {
	g := &gate{}
	g.c = vsync.NewCond(&g.mu)
	return g
}

// arrive waits until n have arrived.
func (g *gate) arrive(n int) {
	g.mu.Lock()
	g.n++
	g.c.Broadcast()
	for g.n < n {
		g.c.Wait()
	}
	g.mu.Unlock()
}

func checkC12(c *Ctx) {
	extra := 0
	maxJobs := 4
	if c.Thorough {
		extra = 1
		maxJobs = 5
	}
	c.Bound("limits", "1..3 and the number of processors")
	c.Bound("jobs", fmt.Sprintf("0..%d", maxJobs))
	c.Bound("preemptions", fmt.Sprintf("2 to %d (1 for the programs with a thread per processor)", 3+extra))
	c.Assume("threads are interleaved at synchronisation operations and at the jobs' own yields; between these, race freedom (checked) makes the order immaterial")
	c.Case(func() string { return "limits that are not positive" }, func() error {
		for n := -2; n <= 4; n++ {
			want := n
			if n <= 0 {
				want = runtime.NumCPU()
			}
			if g := conc.NewSingleQueue(n).Allowed(); g != want {
				return fmt.Errorf("NewSingleQueue(%d) allows %d jobs, want %d", n, g, want)
			}
		}
		c.Trans(7)
		c.Trace(7)
		c.State(7)
		return nil
	})
	plain := func(q *conc.SingleQueue, out []int) func(int) {
		return func(i int) {
			ev(evStart, i)
			vsync.Yield()
			if i >= 0 && i < len(out) {
				out[i] += i + 1 // own slot: the waiter reads it
			}
			ev(evEnd, i)
		}
	}
	for limit := 1; limit <= 3; limit++ {
		for jobs := 0; jobs <= maxJobs; jobs++ {
			limit, jobs := limit, jobs
			b := 2 + extra
			if jobs <= 2 {
				b = 3 + extra
			}
			// One submitter; slots written by the jobs are read after Wait.
			c.schedules(driver{fmt.Sprintf("one thread submits %d jobs, limit %d, waits", jobs, limit), b, 1 + jobs*jobs, func() (func(), func() error) {
				evReset()
				q := conc.NewSingleQueue(limit)
				out := make([]int, jobs)
				sum := 0
				return func() {
						for i := 0; i < jobs; i++ {
							q.Run(plain(q, out), i)
							ev(evSubmit, i)
						}
						q.Wait()
						ev(evWaited, 0)
						for _, x := range out {
							sum += x
						}
					}, func() error {
						if want := jobs * (jobs + 1) / 2; sum != want {
							return fmt.Errorf("jobs' results add up to %d, want %d", sum, want)
						}
						return judgeQueue(limit, jobs, false)
					}
			}})
			if jobs < 2 {
				continue
			}
			// Two submitters.
			c.schedules(driver{fmt.Sprintf("two threads submit %d jobs in all, limit %d, both wait", jobs, limit), 2 + b2(jobs <= 2) + extra*b2(jobs <= 3), 1 + jobs*jobs*2, func() (func(), func() error) {
				evReset()
				q := conc.NewSingleQueue(limit)
				out := make([]int, jobs)
				return func() {
					g := newGate()
					half := func(from, to int) {
						for i := from; i < to; i++ {
							q.Run(plain(q, out), i)
							ev(evSubmit, i)
						}
						g.arrive(2)
						q.Wait()
						ev(evWaited, 0)
					}
					vsync.Spawn(func() { half(jobs/2, jobs) })
					half(0, jobs/2)
				}, func() error { return judgeQueue(limit, jobs, false) }
			}})
			// Reuse after waiting; with different functions.
			c.schedules(driver{fmt.Sprintf("%d jobs in two rounds, limit %d", jobs, limit), 2 + extra*b2(jobs <= 3), 1 + jobs*jobs, func() (func(), func() error) {
				evReset()
				q := conc.NewSingleQueue(limit)
				out := make([]int, jobs)
				return func() {
					for i := 0; i < jobs/2; i++ {
						q.Run(plain(q, out), i)
						ev(evSubmit, i)
					}
					q.Wait()
					ev(evWaited, 0)
					for i := jobs / 2; i < jobs; i++ {
						q.Run(func(j int) { plain(q, out)(j) }, i)
						ev(evSubmit, i)
					}
					q.Wait()
					ev(evWaited, 1)
					q.Wait()
					ev(evWaited, 2)
				}, func() error { return judgeQueue(limit, jobs, true) }
			}})
			if limit == 1 {
				// A limit of one is mutual exclusion: the jobs share a counter without a lock.
				c.schedules(driver{fmt.Sprintf("%d jobs on one counter, limit 1", jobs), b, 1 + jobs*jobs, func() (func(), func() error) {
					evReset()
					q := conc.NewSingleQueue(1)
					n := 0
					return func() {
							for i := 0; i < jobs; i++ {
								q.Run(func(j int) {
									ev(evStart, j)
									x := n
									vsync.Yield()
									n = x + 1
									ev(evEnd, j)
								}, i)
								ev(evSubmit, i)
							}
							q.Wait()
							ev(evWaited, 0)
						}, func() error {
							if n != jobs {
								return fmt.Errorf("counter is %d after %d jobs", n, jobs)
							}
							return judgeQueue(1, jobs, false)
						}
				}})
			}
			if jobs >= limit && limit > 1 {
				// The first limit jobs wait for one another: all of them have to be admitted.
				c.schedules(driver{fmt.Sprintf("%d jobs, limit %d, groups of %d wait for one another", jobs/limit*limit, limit, limit), 2, 1 + jobs*jobs*2, func() (func(), func() error) {
					evReset()
					q := conc.NewSingleQueue(limit)
					n := jobs / limit * limit
					gs := make([]*gate, n/limit)
					for i := range gs {
						gs[i] = newGate()
					}
					return func() {
						for i := 0; i < n; i++ {
							q.Run(func(j int) {
								ev(evStart, j)
								gs[j/limit].arrive(limit)
								ev(evEnd, j)
							}, i)
							ev(evSubmit, i)
						}
						q.Wait()
						ev(evWaited, 0)
					}, func() error { return judgeQueue(limit, n, false) }
				}})
				// A submission returns at once below the limit: jobs wait for the submitter.
				c.schedules(driver{fmt.Sprintf("%d jobs, limit %d, wait for their submitter", limit, limit), 2 + extra, 1 + limit*limit, func() (func(), func() error) {
					evReset()
					q := conc.NewSingleQueue(limit)
					g := newGate()
					return func() {
						for i := 0; i < limit; i++ {
							q.Run(func(j int) {
								ev(evStart, j)
								g.arrive(limit + 1)
								ev(evEnd, j)
							}, i)
							ev(evSubmit, i)
						}
						g.arrive(limit + 1)
						q.Wait()
						ev(evWaited, 0)
					}, func() error { return judgeQueue(limit, limit, false) }
				}})
			}
			if limit >= 2 && jobs <= 3 {
				// A job submits the last job.
				c.schedules(driver{fmt.Sprintf("%d jobs, limit %d, job 0 submits the last", jobs, limit), 2, 1 + jobs*jobs, func() (func(), func() error) {
					evReset()
					q := conc.NewSingleQueue(limit)
					out := make([]int, jobs)
					return func() {
						for i := 0; i < jobs-1; i++ {
							q.Run(func(j int) {
								ev(evStart, j)
								if j == 0 {
									q.Run(plain(q, out), jobs-1)
									ev(evSubmit, jobs-1)
								}
								ev(evEnd, j)
							}, i)
							ev(evSubmit, i)
						}
						q.Wait()
						ev(evWaited, 0)
					}, func() error { return judgeQueue(limit, jobs, false) }
				}})
			}
		}
	}
	// Many jobs, in the schedule that only switches when a thread blocks: plain, in groups of as many as are
	// allowed that wait for one another, and from two threads.
	for _, limit := range []int{1, 2, 3, 5, 8, 16, 33, 64, 65, 100} {
		for _, jobs := range []int{9, 40, 130} {
			limit, jobs := limit, jobs
			c.schedules(driver{fmt.Sprintf("one thread submits %d jobs, limit %d, waits", jobs, limit), vsync.Single, 1, func() (func(), func() error) {
				evReset()
				q := conc.NewSingleQueue(limit)
				out := make([]int, jobs)
				sum := 0
				return func() {
						for r := 0; r < 2; r++ {
							for i := r * jobs / 2; i < (r+1)*jobs/2; i++ {
								q.Run(plain(q, out), i)
								ev(evSubmit, i)
							}
							q.Wait()
							ev(evWaited, r)
						}
						for _, x := range out {
							sum += x
						}
					}, func() error {
						if want := jobs * (jobs + 1) / 2; sum != want {
							return fmt.Errorf("jobs' results add up to %d, want %d", sum, want)
						}
						return judgeQueue(limit, jobs, true)
					}
			}})
			if n := jobs / limit * limit; n > 0 {
				c.schedules(driver{fmt.Sprintf("%d jobs, limit %d, groups of %d wait for one another", n, limit, limit), vsync.Single, 1, func() (func(), func() error) {
					evReset()
					q := conc.NewSingleQueue(limit)
					gs := make([]*gate, n/limit)
					for i := range gs {
						gs[i] = newGate()
					}
					return func() {
						for i := 0; i < n; i++ {
							q.Run(func(j int) {
								ev(evStart, j)
								gs[j/limit].arrive(limit)
								ev(evEnd, j)
							}, i)
							ev(evSubmit, i)
						}
						q.Wait()
						ev(evWaited, 0)
					}, func() error { return judgeQueue(limit, n, false) }
				}})
			}
			c.schedules(driver{fmt.Sprintf("two threads submit %d jobs in all, limit %d, both wait", jobs, limit), vsync.Single, 1, func() (func(), func() error) {
				evReset()
				q := conc.NewSingleQueue(limit)
				out := make([]int, jobs)
				return func() {
					g := newGate()
					half := func(from, to int) {
						for i := from; i < to; i++ {
							q.Run(plain(q, out), i)
							ev(evSubmit, i)
						}
						g.arrive(2)
						q.Wait()
						ev(evWaited, 0)
					}
					vsync.Spawn(func() { half(jobs/2, jobs) })
					half(0, jobs/2)
				}, func() error { return judgeQueue(limit, jobs, false) }
			}})
		}
	}
	c.Bound("larger programs", "9 to 130 jobs, limits 1 to 100, the one schedule that only switches when a thread blocks")
	// Two queues do not influence each other.
	c.schedules(driver{"two queues with limits 1 and 2, two jobs each", 2, 16, func() (func(), func() error) {
		evReset()
		q, r := conc.NewSingleQueue(1), conc.NewSingleQueue(2)
		out := make([]int, 4)
		return func() {
			for i := 0; i < 2; i++ {
				q.Run(plain(q, out), i)
				r.Run(plain(r, out), 2+i)
			}
			q.Wait()
			r.Wait()
			for i := 0; i < 4; i++ {
				ev(evSubmit, i)
			}
			ev(evWaited, 0)
		}, func() error { return judgeQueue(3, 4, false) }
	}})
	ncpu := runtime.NumCPU()
	c.schedules(driver{"default limit, one job per processor, all wait for their submitter", -2, 16, func() (func(), func() error) {
		evReset()
		q := conc.NewSingleQueue(0)
		g := newGate()
		return func() {
			for i := 0; i < ncpu; i++ {
				q.Run(func(j int) {
					ev(evStart, j)
					g.arrive(ncpu + 1)
					ev(evEnd, j)
				}, i)
				ev(evSubmit, i)
			}
			g.arrive(ncpu + 1)
			q.Wait()
			ev(evWaited, 0)
		}, func() error { return judgeQueue(ncpu, ncpu, false) }
	}})
}

func b2(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- C13

// classNets are small networks with class variable 0 and one or two features.
func classNets() []spec {
	r := classNetsDown()
	for i := range r {
		r[i] = rev(r[i])
	}
	return r
}

// rev turns a network written root first into one with the root last.
func rev(s spec) spec {
	n := len(s)
	r := make(spec, n)
	for i, x := range s {
		ch := make([]int, len(x.Ch))
		for j, y := range x.Ch {
			ch[j] = n - 1 - y
		}
		x.Ch = ch
		r[n-1-i] = x
	}
	return r
}

func classNetsDown() []spec {
	inner := func(k byte, w []float64, ch ...int) nodeSpec { return nodeSpec{Kind: k, W: w, Ch: ch} }
	leaf := func(l leafSpec) nodeSpec { return nodeSpec{Kind: 'L', Leaf: l} }
	return []spec{
		{inner('S', []float64{0.5, 0.5}, 1, 2), inner('P', nil, 3, 4), inner('P', nil, 5, 6),
			leaf(mleaf(0, 0.875, 0.125)), leaf(mleaf(1, 0.75, 0.25)), leaf(mleaf(0, 0.25, 0.75)), leaf(mleaf(1, 0.125, 0.875))},
		// Three classes, shared feature leaf, impossible combinations.
		{inner('S', []float64{0.25, 0.25, 0.5}, 1, 2, 3), inner('P', nil, 4, 7), inner('P', nil, 5, 8), inner('P', nil, 6, 7),
			leaf(ileaf(0, 0)), leaf(ileaf(0, 1)), leaf(ileaf(0, 2)), leaf(mleaf(1, 1, 0)), leaf(mleaf(1, 0.25, 0.75))},
	}
}

func classVar(s spec) *learn.Variable {
	k := 2
	for _, n := range s {
		if n.Kind == 'L' && n.Leaf.Var == 0 {
			if n.Leaf.Kind == 'I' {
				k = max(k, n.Leaf.Val+1)
			} else {
				k = max(k, len(n.Leaf.Pr))
			}
		}
	}
	return &learn.Variable{Varid: 0, Categories: k, Name: "class"}
}

// posteriors gives the value of the network for each label, given the rest of the instance.
func posteriors(s spec, I map[int]int, cv *learn.Variable) []xf {
	r := make([]xf, cv.Categories)
	J := cloneMap(I)
	for j := range r {
		J[cv.Varid] = j
		r[j] = s.eval(J)[len(s)-1]
	}
	return r
}

// predict is the first label of greatest value, or 0 when all are impossible.
func predict(p []xf) int {
	b := -1
	for i, x := range p {
		if x.m != 0 && (b < 0 || p[b].less(x)) {
			b = i
		}
	}
	if b < 0 {
		return 0
	}
	return b
}

type pairCount map[score.Pair]int

func pairsOf(s *score.S, k int) (pairCount, error) {
	m := pairCount{}
	n := 0
	for e, row := range s.ConfusionMatrix(k) {
		for p, x := range row {
			if x != 0 {
				m[score.Pair{Predicted: p, Expected: e}] = x
			}
			n += x
		}
	}
	hits := 0
	for p, x := range m {
		if p.Predicted == p.Expected {
			hits += x
		}
	}
	if s.Hits() != hits || s.Misses() != n-hits || s.Total() != n {
		return m, fmt.Errorf("confusion matrix %v has %d hits of %d, score says %d hits, %d misses, %d in all", m, hits, n, s.Hits(), s.Misses(), s.Total())
	}
	return m, nil
}

func (a pairCount) same(b pairCount) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func expectPairs(s spec, D []map[int]int, L []int, cv *learn.Variable) pairCount {
	m := pairCount{}
	for i, I := range D {
		m[score.Pair{Predicted: predict(posteriors(s, I, cv)), Expected: L[i]}]++
	}
	return m
}

// classFamilies are larger networks with a class variable that every leaf over it knows in full, with patterned
// labelled data sets of which some instances carry their label.
func classFamilies(thorough bool, most int, yield func(name string, s spec, cv *learn.Variable, D []map[int]int, L []int)) {
	families(thorough, func(name string, s spec) {
		vars := s.vars()
		if len(s) > most || len(vars) < 2 {
			return
		}
		for vi, v := range vars {
			if vi != len(vars)-1 && vi != len(vars)/2 {
				continue
			}
			k := len(s.vals(v))
			ok := k > 1
			for _, n := range s {
				if n.Kind == 'L' && n.Leaf.Var == v {
					ok = ok && (n.Leaf.Kind == 'M' && len(n.Leaf.Pr) == k || n.Leaf.Kind == 'I' && n.Leaf.Val < k)
				}
			}
			if !ok {
				continue
			}
			cv := &learn.Variable{Varid: v, Categories: k, Name: "class"}
			for pi, pat := range []int{1, 5, 7} {
				M := patternRows(pat, 4+9*pi, len(vars), 12)
				var D []map[int]int
				var L []int
				for i, r := range M {
					I := map[int]int{}
					for j, u := range vars {
						d := s.vals(u)
						I[u] = d[r[j]%len(d)]
					}
					L = append(L, I[v])
					if i%4 == 3 {
						delete(I, v)
					}
					if i%5 == 4 {
						delete(I, vars[0]) // something unobserved, maybe the label
					}
					D = append(D, I)
				}
				yield(fmt.Sprintf("%s, class %d, %d instances of pattern %d", name, v, len(D), pat), s, cv, D, L)
			}
		}
	})
}

// classData enumerates labelled data sets of size n: features 1 over {0,1}, labels over k, and
// whether instances carry their label.
func classData(n, k int, yield func(D []map[int]int, L []int)) {
	enumTuples(n, 2*k+2, func(t []int) {
		D := make([]map[int]int, n)
		L := make([]int, n)
		for i, x := range t {
			D[i] = map[int]int{}
			if x >= 2*k { // label only in L
				x = (x - 2*k) * 3 % (2 * k)
			} else {
				D[i][0] = x / 2
			}
			L[i] = x / 2
			D[i][1] = x % 2
		}
		yield(D, L)
	})
}

func checkC13(c *Ctx) {
	nets := classNets()
	// Race-free interleavings of small runs.
	type run struct{ n, k, bound, parts int }
	runs := []run{{0, 1, 2, 1}, {1, 1, 3, 2}, {2, 1, 2, 4}, {2, 2, 2, 16}, {3, 2, 2, 32}, {4, 2, 2, 32}, {3, 3, 2, 32}, {4, 3, 1, 16}, {5, 2, 1, 16}, {5, 5, 1, 16}, {1, 2, 2, 1}, {0, 0, 2, 1}, {3, 0, 2, 4}, {3, -1, 1, 1}, {runtime.NumCPU() + 1, 0, -1, 8}}
	if c.Thorough {
		for i := range runs {
			if runs[i].n <= 4 {
				runs[i].bound++
				runs[i].parts *= 4
			}
		}
	}
	c.Bound("schedules", "data sets of 0..5 instances with up to 5 concurrent jobs, up to 2 preemptions (3 in the thorough tier); one larger than the number of processors with one delay")
	c.Bound("networks", len(nets))
	for si, s := range nets {
		s := s
		cv := classVar(s)
		for _, r := range runs {
			r := r
			D := make([]map[int]int, r.n)
			L := make([]int, r.n)
			for i := range D {
				D[i] = map[int]int{1: (i + i/2) % 2}
				L[i] = (i + 1) % cv.Categories
				if i%3 != 2 {
					D[i][0] = L[i]
				}
			}
			want := expectPairs(s, D, L, cv)
			c.schedules(driver{fmt.Sprintf("network %d, %d instances, %d jobs", si, r.n, r.k), r.bound, r.parts, func() (func(), func() error) {
				nodes := s.build()
				E, M := cloneData(D), append([]int(nil), L...)
				sc := score.NewScore()
				return func() { sc.EvaluatePosteriorConc(toDataset(E), M, nodes[len(nodes)-1], cv, r.k) }, func() error {
					got, err := pairsOf(sc, cv.Categories)
					if err != nil {
						return err
					}
					if !got.same(want) {
						return fmt.Errorf("classified as %v, want %v", got, want)
					}
					if !dataEq(D, E) || !intsEq(L, M) {
						return fmt.Errorf("data set changed: %v labels %v, was %v labels %v", E, M, D, L)
					}
					return s.intact(nodes)
				}
			}})
		}
	}
	// Two concurrent classifications that share the network.
	c.schedules(driver{"two threads classify with one network", 1, 16, func() (func(), func() error) {
		s := nets[1]
		cv := classVar(s)
		nodes := s.build()
		D := []map[int]int{{0: 0, 1: 0}, {0: 2, 1: 1}}
		L := []int{0, 2}
		want := expectPairs(s, D, L, cv)
		A, B := score.NewScore(), score.NewScore()
		return func() {
				g := newGate()
				vsync.Spawn(func() { A.EvaluatePosteriorConc(toDataset(cloneData(D)), L, nodes[len(nodes)-1], cv, 2); g.arrive(2) })
				B.EvaluatePosteriorConc(toDataset(cloneData(D)), L, nodes[len(nodes)-1], cv, 1)
				g.arrive(2)
			}, func() error {
				for _, x := range []*score.S{A, B} {
					got, err := pairsOf(x, cv.Categories)
					if err != nil {
						return err
					}
					if !got.same(want) {
						return fmt.Errorf("classified as %v, want %v", got, want)
					}
				}
				return s.intact(nodes)
			}
	}})
	c.Bound("larger networks", "the families of networks with up to 200 nodes, two class variables each, 4 to 22 patterned instances, 1, 3, 7 and default jobs under the free scheduler")
	classFamilies(c.Thorough, 200, func(name string, s spec, cv *learn.Variable, D []map[int]int, L []int) {
		if !c.Mine() {
			c.Skip()
			return
		}
		c.Case(func() string { return name }, func() error {
			nodes := s.build()
			var E []map[int]int
			var M []int
			for i, I := range D {
				clear := 0
				p := posteriors(s, I, cv)
				b := p[predict(p)]
				for _, x := range p {
					if b.m == 0 || logEq(x.log(), b.log()) {
						clear++
					}
				}
				if clear == 1 {
					E, M = append(E, I), append(M, L[i])
				}
			}
			want := expectPairs(s, E, M, cv)
			for _, k := range []int{0, 1, 3, 7} {
				F, N := cloneData(E), append([]int(nil), M...)
				sc := score.NewScore()
				sc.EvaluatePosteriorConc(toDataset(F), N, nodes[len(nodes)-1], cv, k)
				c.Trans(1)
				got, err := pairsOf(sc, cv.Categories)
				if err != nil {
					return err
				}
				if !got.same(want) {
					return fmt.Errorf("%d jobs: classified as %v, want %v", k, got, want)
				}
				if !dataEq(E, F) || !intsEq(M, N) {
					return fmt.Errorf("%d jobs: data set changed", k)
				}
			}
			c.State(1)
			c.Trace(4)
			return s.intact(nodes)
		})
	})
	// All small data sets.
	maxN := 3
	if c.Thorough {
		maxN = 4
	}
	c.Bound("data sets", fmt.Sprintf("all with up to %d instances over one binary feature and 2 or 3 classes, labels in the instance or not, 1 to 3 and default jobs", maxN))
	for si, s := range nets {
		cv := classVar(s)
		for n := 0; n <= maxN; n++ {
			classData(n, cv.Categories, func(D []map[int]int, L []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				c.Case(func() string { return fmt.Sprintf("network %d data %s labels %v", si, fmtD(D), L) }, func() error {
					nodes := s.build()
					want := expectPairs(s, D, L, cv)
					for _, k := range []int{-1, 0, 1, 2, 3, 1000} {
						E, M := cloneData(D), append([]int(nil), L...)
						sc := score.NewScore()
						if k == 1000 {
							sc.EvaluatePosterior(toDataset(E), M, nodes[len(nodes)-1], cv)
						} else {
							sc.EvaluatePosteriorConc(toDataset(E), M, nodes[len(nodes)-1], cv, k)
						}
						c.Trans(1)
						got, err := pairsOf(sc, cv.Categories)
						if err != nil {
							return err
						}
						if !got.same(want) {
							return fmt.Errorf("%d jobs: classified as %v, want %v", k, got, want)
						}
						if !dataEq(D, E) || !intsEq(L, M) {
							return fmt.Errorf("%d jobs: data set changed: %v labels %v, was %v labels %v", k, E, M, D, L)
						}
						c.Outcome(fmt.Sprint(want))
					}
					c.State(1)
					c.Trace(6)
					return s.intact(nodes)
				})
			})
		}
	}
}

// ---------------------------------------------------------------- C23

// genOp is one operation on the shared generator.
type genOp struct {
	kind byte // i n f g c s q
	a, b int
	d    int
}

func (o genOp) String() string {
	switch o.kind {
	case 'i':
		return fmt.Sprintf("Intn(%d)", o.a)
	case 'f':
		return "Float64"
	case 'g':
		return "NormFloat64"
	case 'c':
		return fmt.Sprintf("Comb(%d,%d,%d)", o.a, o.b, o.d)
	case 's':
		return fmt.Sprintf("Refresh(%d)", o.a)
	}
	return "Seed"
}

// do runs the operation on the package's shared generator.
func (o genOp) do() string {
	switch o.kind {
	case 'i':
		return fmt.Sprint(sys.RandIntn(o.a))
	case 'f':
		return fmt.Sprint(sys.RandFloat64())
	case 'g':
		return fmt.Sprint(sys.RandNormFloat64())
	case 'c':
		return fmt.Sprint(sys.RandomComb(o.a, o.b, o.d))
	case 's':
		sys.RefreshRandom(int64(o.a))
		return "-"
	}
	return fmt.Sprint(sys.Seed())
}

// genModel is the reference: the documented stream of the seed.
type genModel struct {
	r    *rand.Rand
	seed int64
}

func (m *genModel) do(o genOp) string {
	switch o.kind {
	case 'i':
		return fmt.Sprint(m.r.Intn(o.a))
	case 'f':
		return fmt.Sprint(m.r.Float64())
	case 'g':
		return fmt.Sprint(m.r.NormFloat64())
	case 'c':
		K := m.r.Perm(o.a * o.b)
		r := make([][2]int, o.d)
		for i := range r {
			r[i] = [2]int{K[i] / o.b, K[i] % o.b}
		}
		return fmt.Sprint(r)
	case 's':
		m.seed = int64(o.a)
		m.r = rand.New(rand.NewSource(m.seed))
		return "-"
	}
	return fmt.Sprint(m.seed)
}

// inRange checks what the statement promises about a value whatever the stream is.
func (o genOp) inRange(res string) error {
	switch o.kind {
	case 'i':
		var x int
		fmt.Sscan(res, &x)
		if x < 0 || x >= o.a {
			return fmt.Errorf("Intn(%d) gave %d", o.a, x)
		}
	case 'f':
		var x float64
		fmt.Sscan(res, &x)
		if !(x >= 0 && x < 1) {
			return fmt.Errorf("Float64 gave %v", x)
		}
	case 'c':
		f := strings.Fields(strings.NewReplacer("[", " ", "]", " ").Replace(res))
		if len(f) != 2*o.d {
			return fmt.Errorf("%v gave %s", o, res)
		}
		seen := map[string]bool{}
		for i := 0; i < len(f); i += 2 {
			var x, y int
			fmt.Sscan(f[i]+" "+f[i+1], &x, &y)
			k := f[i] + "," + f[i+1]
			if seen[k] || x < 0 || x >= o.a || y < 0 || y >= o.b {
				return fmt.Errorf("%v gave %s", o, res)
			}
			seen[k] = true
		}
	}
	return nil
}

// linearises says whether some interleaving of the threads' operations, applied to the model one by
// one, gives the recorded results. step applies operation i of thread t to the state and says
// whether the result fits; states are rebuilt by replaying.
func linearises(lens []int, replay func(order [][2]int) bool) bool {
	pos := make([]int, len(lens))
	var order [][2]int
	total := 0
	for _, n := range lens {
		total += n
	}
	var rec func() bool
	rec = func() bool {
		if !replay(order) {
			return false
		}
		if len(order) == total {
			return true
		}
		for t := range lens {
			if pos[t] < lens[t] {
				order = append(order, [2]int{t, pos[t]})
				pos[t]++
				ok := rec()
				pos[t]--
				order = order[:len(order)-1]
				if ok {
					return true
				}
			}
		}
		return false
	}
	return rec()
}

func checkC23(c *Ctx) {
	bound := 3
	depth := 4
	if c.Thorough {
		bound = 4
		depth = 5
	}
	c.Bound("preemptions", bound)
	c.Bound("threads", "2 with two operations each (all pairs of programs), 3 with one each")
	c.Bound("sequence depth", depth)
	// Generator under all schedules.
	gops := []genOp{{kind: 'i', a: 7}, {kind: 'f'}, {kind: 'g'}, {kind: 'c', a: 2, b: 2, d: 3}, {kind: 's', a: 5}, {kind: 'q'}}
	genDriver := func(progs [][]genOp) {
		c.schedules(driver{fmt.Sprintf("generator: %v", progs), bound, 1, func() (func(), func() error) {
			sys.RefreshRandom(11)
			res := make([][]string, len(progs))
			for i := range res {
				res[i] = make([]string, len(progs[i]))
			}
			return func() {
					g := newGate()
					for t := 1; t < len(progs); t++ {
						t := t
						vsync.Spawn(func() {
							for i, o := range progs[t] {
								res[t][i] = o.do()
							}
							g.arrive(len(progs))
						})
					}
					for i, o := range progs[0] {
						res[0][i] = o.do()
					}
					g.arrive(len(progs))
				}, func() error {
					lens := make([]int, len(progs))
					for t := range progs {
						lens[t] = len(progs[t])
						for i, o := range progs[t] {
							if err := o.inRange(res[t][i]); err != nil {
								return err
							}
						}
					}
					ok := linearises(lens, func(order [][2]int) bool {
						m := &genModel{}
						m.do(genOp{kind: 's', a: 11})
						for _, p := range order {
							if m.do(progs[p[0]][p[1]]) != res[p[0]][p[1]] {
								return false
							}
						}
						return true
					})
					if !ok {
						return fmt.Errorf("results %v of %v are not those of any order of the operations on the stream of the seed", res, progs)
					}
					c.Outcome(fmt.Sprint(res))
					return nil
				}
		}})
	}
	for a := range gops {
		for b := range gops {
			for x := range gops {
				if !c.Thorough && (a+b+x)%2 == 1 {
					continue
				}
				genDriver([][]genOp{{gops[a], gops[x]}, {gops[b], gops[(x+a)%len(gops)]}})
			}
			for x := b; x < len(gops); x++ {
				if a <= b {
					genDriver([][]genOp{{gops[a]}, {gops[b]}, {gops[x]}})
				}
			}
		}
	}
	// Generator: all sequences repeat the stream of the seed.
	sops := append(gops, genOp{kind: 'i', a: 1}, genOp{kind: 'c', a: 1, b: 3, d: 0}, genOp{kind: 'c', a: 3, b: 1, d: 3}, genOp{kind: 's', a: 11})
	for d := 1; d <= depth; d++ {
		enumTuples(d, len(sops), func(t []int) {
			if !c.Mine() {
				c.Skip()
				return
			}
			c.Case(func() string { return fmt.Sprintf("generator sequence %v", t) }, func() error {
				for rep := 0; rep < 2; rep++ {
					R := sys.RefreshRandom(11)
					if R != sys.Random {
						return fmt.Errorf("refresh returned another generator than the shared one")
					}
					m := &genModel{}
					m.do(genOp{kind: 's', a: 11})
					for _, x := range t {
						got, want := sops[x].do(), m.do(sops[x])
						c.Trans(1)
						if got != want {
							return fmt.Errorf("%v gave %s, the seed's stream says %s", sops[x], got, want)
						}
						if err := sops[x].inRange(got); err != nil {
							return err
						}
					}
				}
				c.State(d)
				c.Trace(1)
				return nil
			})
		})
	}
	// Registry under all schedules.
	mk := func() ([]spn.SPN, []*parameters.P) {
		s := spn.NewSum()
		pr := spn.NewProduct()
		return []spn.SPN{s, pr}, []*parameters.P{parameters.New(false, true, 1, 2, 3, 4, 5, 6, 7), parameters.New(true, false, 2, 3, 4, 5, 6, 7, 8)}
	}
	pops := []parOp{{'b', 0, 0}, {'b', 0, 1}, {'b', 1, 0}, {'u', 0, 0}, {'r', 0, 0}, {'e', 0, 0}, {'p', 0, 0}, {'r', 1, 0}}
	parDriver := func(progs [][]parOp, pre []parOp) {
		c.schedules(driver{fmt.Sprintf("registry: first %v then %v", pre, progs), bound, 1, func() (func(), func() error) {
			nodes, ps := mk()
			res := make([][]*parameters.P, len(progs))
			for i := range res {
				res[i] = make([]*parameters.P, len(progs[i]))
			}
			var end [2]*parameters.P
			return func() {
					g := newGate()
					for _, o := range pre {
						o.do(nodes, ps)
					}
					for t := 1; t < len(progs); t++ {
						t := t
						vsync.Spawn(func() {
							for i, o := range progs[t] {
								res[t][i] = o.do(nodes, ps)
							}
							g.arrive(len(progs))
						})
					}
					for i, o := range progs[0] {
						res[0][i] = o.do(nodes, ps)
					}
					g.arrive(len(progs))
					for i := range end {
						end[i], _ = parameters.Retrieve(nodes[i])
						parameters.Unbind(nodes[i])
					}
				}, func() error {
					lens := make([]int, len(progs))
					tot := 0
					for t := range progs {
						lens[t] = len(progs[t])
						tot += lens[t]
					}
					ok := linearises(lens, func(order [][2]int) bool {
						m := &parModel{}
						for _, o := range pre {
							m.do(o, ps, nil)
						}
						for _, p := range order {
							if !m.do(progs[p[0]][p[1]], ps, res[p[0]][p[1]]) {
								return false
							}
						}
						if len(order) == tot {
							for i := range end {
								if !same(m.bound[i], end[i]) {
									return false
								}
							}
						}
						return true
					})
					if !ok {
						return fmt.Errorf("results %v and final bindings %v of %v (after %v) are not those of any order of the operations", res, end, progs, pre)
					}
					return nil
				}
		}})
	}
	for a := range pops {
		for b := range pops {
			for x := range pops {
				if !c.Thorough && (a+b+x)%2 == 1 {
					continue
				}
				parDriver([][]parOp{{pops[a], pops[x]}, {pops[b], pops[(a+x)%len(pops)]}}, nil)
				if a <= b && b <= x {
					parDriver([][]parOp{{pops[a]}, {pops[b]}, {pops[x]}}, []parOp{{'b', 0, 1}})
				}
			}
		}
	}
	c.ownDefaults(4)
	// Registry: all sequences, over every kind of node.
	kinds := []func() spn.SPN{func() spn.SPN { return spn.NewSum() }, func() spn.SPN { return spn.NewProduct() }, func() spn.SPN { return spn.NewMultinomial(0, []float64{0.5, 0.5}) },
		func() spn.SPN { return spn.NewGaussianParams(0, 0, 1) }, func() spn.SPN { return spn.NewIndicator(0, 1) }}
	qops := append(append([]parOp(nil), pops...), parOp{'u', 1, 0}, parOp{'e', 1, 0}, parOp{'p', 1, 0}, parOp{'b', 1, 1})
	for ki := range kinds {
		for d := 1; d <= depth; d++ {
			enumTuples(d, len(qops), func(t []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				c.Case(func() string { return fmt.Sprintf("registry sequence %v on node kind %d", t, ki) }, func() error {
					nodes := []spn.SPN{kinds[ki](), kinds[ki]()}
					_, ps := mk()
					keep := []parameters.P{*ps[0], *ps[1]}
					m := &parModel{}
					defer func() {
						parameters.Unbind(nodes[0])
						parameters.Unbind(nodes[1])
					}()
					for _, x := range t {
						got := qops[x].do(nodes, ps)
						c.Trans(1)
						if !m.do(qops[x], ps, got) {
							return fmt.Errorf("%v gave %v with bindings %v", qops[x], got, m.bound)
						}
						if qops[x].kind == 'p' && m.bound[qops[x].n] != got {
							m.bound[qops[x].n] = got
						}
						for i := range nodes {
							p, ok := parameters.Retrieve(nodes[i])
							if ok != (m.bound[i] != nil) || !same(p, m.bound[i]) || parameters.Exists(nodes[i]) != ok {
								return fmt.Errorf("after %v node %d has %v, want %v", qops[x], i, p, m.bound[i])
							}
						}
					}
					if *ps[0] != keep[0] || *ps[1] != keep[1] {
						return fmt.Errorf("parameters changed to %v %v", *ps[0], *ps[1])
					}
					c.State(d)
					c.Trace(1)
					return nil
				})
			})
		}
	}
}

// ownDefaults: parameters a node got by default are its own; changing them reaches no other node, nor the defaults.
func (c *Ctx) ownDefaults(depth int) {
	kinds := []func() spn.SPN{func() spn.SPN { return spn.NewSum() }, func() spn.SPN { return spn.NewProduct() }, func() spn.SPN { return spn.NewMultinomial(0, []float64{0.5, 0.5}) },
		func() spn.SPN { return spn.NewGaussianParams(0, 0, 1) }, func() spn.SPN { return spn.NewIndicator(0, 1) }}
	def := parameters.P{Normalize: true, SmoothSum: 0.01, LearningType: parameters.SoftGD, Eta: 0.1, Epsilon: 1, Lambda: 0.01, Iterations: 4}
	c.Bound("defaults", fmt.Sprintf("all sequences of %d operations get, change and unbind on two nodes of each kind", depth))
	for ki := range kinds {
		enumTuples(depth, 7, func(t []int) {
			c.Case(func() string { return fmt.Sprintf("defaults of two nodes of kind %d, operations %v", ki, t) }, func() error {
				nodes := []spn.SPN{kinds[ki](), kinds[ki]()}
				defer func() {
					parameters.Unbind(nodes[0])
					parameters.Unbind(nodes[1])
				}()
				want := [2]*parameters.P{}
				for i, x := range t {
					n := x % 2
					if x == 6 {
						d := parameters.Default()
						if *d != def {
							return fmt.Errorf("step %d: the defaults are %+v, want %+v", i, *d, def)
						}
						d.Eta, d.Iterations, d.Normalize = 7, 9, false // of no consequence to anybody
						continue
					}
					switch x / 2 {
					case 2:
						parameters.Unbind(nodes[n])
						want[n] = nil
						continue
					}
					if want[n] == nil {
						w := def
						want[n] = &w
					}
					p := nodes[n].Parameters()
					if x/2 == 1 {
						p.Eta, p.Iterations, p.Normalize = p.Eta+float64(i+1), p.Iterations+i+1, !p.Normalize
						want[n].Eta, want[n].Iterations, want[n].Normalize = want[n].Eta+float64(i+1), want[n].Iterations+i+1, !want[n].Normalize
					}
					c.Trans(1)
					for j := range nodes {
						q, e := parameters.Retrieve(nodes[j])
						if e != (want[j] != nil) || e && *q != *want[j] {
							return fmt.Errorf("step %d: node %d has %+v, want %+v", i, j, q, want[j])
						}
					}
				}
				if d := parameters.Default(); *d != def {
					return fmt.Errorf("the defaults are %+v, want %+v", *d, def)
				}
				c.State(1)
				c.Trace(1)
				return nil
			})
		})
	}
}

type parOp struct {
	kind byte // b u r e p
	n, p int
}

func (o parOp) String() string {
	switch o.kind {
	case 'b':
		return fmt.Sprintf("Bind(n%d,p%d)", o.n, o.p)
	case 'u':
		return fmt.Sprintf("Unbind(n%d)", o.n)
	case 'r':
		return fmt.Sprintf("Retrieve(n%d)", o.n)
	case 'e':
		return fmt.Sprintf("Exists(n%d)", o.n)
	}
	return fmt.Sprintf("n%d.Parameters()", o.n)
}

var yes = parameters.Default()

// do returns what the operation showed: the parameters, or yes/nil for existence.
func (o parOp) do(nodes []spn.SPN, ps []*parameters.P) *parameters.P {
	switch o.kind {
	case 'b':
		parameters.Bind(nodes[o.n], ps[o.p])
	case 'u':
		parameters.Unbind(nodes[o.n])
	case 'r':
		p, ok := parameters.Retrieve(nodes[o.n])
		if ok != (p != nil) {
			return yes
		}
		return p
	case 'e':
		if parameters.Exists(nodes[o.n]) {
			return yes
		}
	case 'p':
		return nodes[o.n].Parameters()
	}
	return nil
}

// parModel holds the bindings; a default bound by Parameters() is known once it has been seen.
type parModel struct{ bound [2]*parameters.P }

// isDefault stands for a default whose identity has not been seen.
func same(a, b *parameters.P) bool {
	return a == b || (a != nil && b != nil && *a == *b && *a == *parameters.Default())
}

func (m *parModel) do(o parOp, ps []*parameters.P, got *parameters.P) bool {
	switch o.kind {
	case 'b':
		m.bound[o.n] = ps[o.p]
	case 'u':
		m.bound[o.n] = nil
	case 'r':
		return same(got, m.bound[o.n])
	case 'e':
		return (got == yes) == (m.bound[o.n] != nil)
	case 'p':
		if m.bound[o.n] == nil {
			if got == nil || *got != *parameters.Default() {
				return false
			}
			m.bound[o.n] = got
			return true
		}
		return got == m.bound[o.n]
	}
	return true
}

var _ = sort.Ints
var _ = os.Stdout
