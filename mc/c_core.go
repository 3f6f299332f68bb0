package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
)

func init() {
	register("C10", "a case is one sequence of table operations; after every operation everything observable is compared with a map-of-maps model", checkC10)
	register("C11", "a case is one sequence of collection operations under one shrink threshold; contents are compared with a list after every operation", checkC11)
	register("C24", "a case is one vector over the value menu; all routines applicable to it are compared with extended-range arithmetic", checkC24)
	register("C25", "a case is one count vector, value list or union sequence; estimates are compared with their definitions", checkC25)
}

// ---------------------------------------------------------------- C10

type stModel struct {
	issued []int // real ticket numbers, in order of issue; -1 once purged
	tab    map[int]map[int]map[int]float64
}

type stOp struct {
	name string
	t    int // index of the issued ticket
	n, l int
	v    float64
}

func (o stOp) String() string {
	switch o.name {
	case "new", "purge":
		return o.name
	case "store", "hstore":
		return fmt.Sprintf("%s(t%d,n%d,%d,%v)", o.name, o.t, o.n, o.l, o.v)
	}
	return fmt.Sprintf("%s(t%d)", o.name, o.t)
}

func checkC10(c *Ctx) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	c.Bound("depth", depth)
	c.Bound("nodes", 2)
	c.Bound("indices", 2)
	c.Bound("tickets", 3)
	ops := []stOp{{name: "new"}, {name: "store", t: 0, n: 0, l: 0, v: 1}, {name: "store", t: 0, n: 1, l: 1, v: 2}, {name: "store", t: 1, n: 0, l: 0, v: 3}, {name: "store", t: 0, n: 0, l: 0, v: -4},
		{name: "hstore", t: 0, n: 0, l: 1, v: 5}, {name: "hstore", t: 1, n: 1, l: 0, v: 6}, {name: "single", t: 1, n: 0, v: 7}, {name: "store", t: 2, n: 0, l: 0, v: 0},
		{name: "delete", t: 0}, {name: "delete", t: 1}, {name: "reset", t: 0}, {name: "reset", t: 1}, {name: "resets", t: 0}, {name: "purge"}}
	for d := 1; d <= depth; d++ {
		enumTuples(d, len(ops), func(ix []int) {
			if !c.Mine() {
				c.Skip()
				return
			}
			seq := make([]stOp, len(ix))
			for i, k := range ix {
				seq[i] = ops[k]
			}
			c.Case(func() string { return fmt.Sprint(seq) }, func() error { return c.c10(seq) })
		})
	}
	// Long alternating histories that reach many tickets.
	for round := 0; round < 6; round++ {
		var seq []stOp
		for i := 0; i < 40; i++ {
			seq = append(seq, stOp{name: "new"}, stOp{name: "store", t: i, n: i % 2, l: i % 3, v: float64(i)})
			if i%3 == round%3 {
				seq = append(seq, stOp{name: []string{"delete", "reset", "resets"}[round%3], t: i / 2})
			}
			if round > 3 && i == 20 {
				seq = append(seq, stOp{name: "purge"})
			}
		}
		c.Case(func() string { return fmt.Sprint("long history ", round) }, func() error { return c.c10(seq) })
	}
}

func (c *Ctx) c10(seq []stOp) error {
	nodes := []spn.SPN{spn.NewIndicator(0, 0), spn.NewIndicator(0, 0), spn.NewSum()}
	st := spn.NewStorer()
	m := stModel{tab: map[int]map[int]map[int]float64{}}
	handles := map[int]spn.StorerTable{} // taken when the ticket was issued, dropped when it may be stale
	c.State(1)
	put := func(k, n, l int, v float64) {
		if m.tab[k][n] == nil {
			m.tab[k][n] = map[int]float64{}
		}
		m.tab[k][n][l] = v
	}
	for step, o := range seq {
		k := 1000 // an unknown ticket
		known := false
		if o.t < len(m.issued) && m.issued[o.t] >= 0 {
			k = m.issued[o.t]
			known = true
		}
		_, live := m.tab[k]
		bad := func(f string, a ...any) error { return fmt.Errorf("step %d %v: %s", step, o, fmt.Sprintf(f, a...)) }
		switch o.name {
		case "new":
			if len(m.issued) >= 60 {
				continue
			}
			t := st.NewTicket()
			if t < 0 {
				return bad("negative ticket %d", t)
			}
			if _, dup := m.tab[t]; dup {
				return bad("ticket %d is already live", t)
			}
			m.issued = append(m.issued, t)
			m.tab[t] = map[int]map[int]float64{}
			h, ok := st.Table(t)
			if !ok {
				return bad("no table for a new ticket")
			}
			if len(h) != 0 {
				return bad("new ticket %d has contents", t)
			}
			handles[t] = h
		case "store":
			if got := st.Store(k, nodes[o.n], o.l, o.v); got != live {
				return bad("returned %v", got)
			}
			if live {
				put(k, o.n, o.l, o.v)
			}
		case "single":
			if got := st.StoreSingle(k, nodes[o.n], o.v); got != live {
				return bad("returned %v", got)
			}
			if live {
				put(k, o.n, 0, o.v)
			}
		case "hstore":
			h, ok := handles[k]
			if !ok || !live {
				continue
			}
			if !h.Store(nodes[o.n], o.l, o.v) {
				return bad("returned false")
			}
			put(k, o.n, o.l, o.v)
		case "delete":
			st.Delete(k)
			delete(m.tab, k)
			delete(handles, k)
		case "reset":
			if !known {
				continue
			}
			if got := st.Reset(k); got != k {
				return bad("returned %d for %d", got, k)
			}
			m.tab[k] = map[int]map[int]float64{}
			delete(handles, k)
		case "resets":
			var K []int
			for i := o.t; i < len(m.issued) && i < o.t+2; i++ {
				if m.issued[i] >= 0 {
					K = append(K, m.issued[i])
				}
			}
			st.ResetTickets(K...)
			for _, k := range K {
				m.tab[k] = map[int]map[int]float64{}
				delete(handles, k)
			}
		case "purge":
			st.Purge()
			m.tab = map[int]map[int]map[int]float64{}
			handles = map[int]spn.StorerTable{}
			for i := range m.issued {
				m.issued[i] = -1
			}
		}
		c.Trans(1)
		// Observe everything.
		look := map[int]bool{-1: true, 1000: true, 0: true, 1: true, 2: true}
		for k := range m.tab {
			look[k] = true
		}
		for k := range look {
			mt, live := m.tab[k]
			T, ok := st.Table(k)
			if ok != live {
				return bad("ticket %d: table present %v, want %v", k, ok, live)
			}
			for n, z := range nodes {
				mv, has := mt[n]
				if got := st.ExistsSPN(k, z); got != has {
					return bad("ExistsSPN(%d,n%d) is %v", k, n, got)
				}
				vm, ok := st.Value(k, z)
				if ok != has || len(vm) != len(mv) {
					return bad("Value(%d,n%d) is %v %v, want %v", k, n, vm, ok, mv)
				}
				for l := -1; l < 3; l++ {
					w, hl := mv[l]
					got, ok := st.Entry(k, z, l)
					if ok != hl || got != w {
						return bad("Entry(%d,n%d,%d) is %v %v, want %v %v", k, n, l, got, ok, w, hl)
					}
					if st.Exists(k, z, l) != hl {
						return bad("Exists(%d,n%d,%d) is %v", k, n, l, !hl)
					}
					if live {
						if got, ok := T.Entry(z, l); ok != hl || got != w || T.Exists(z, l) != hl {
							return bad("table Entry(%d,n%d,%d) is %v %v, want %v %v", k, n, l, got, ok, w, hl)
						}
					}
				}
				w, hl := mv[0]
				if got, ok := st.Single(k, z); ok != hl || got != w {
					return bad("Single(%d,n%d) is %v %v, want %v %v", k, n, got, ok, w, hl)
				}
				if live {
					if got, ok := T.Single(z); ok != hl || got != w || T.ExistsSPN(z) != has {
						return bad("table Single(%d,n%d) is %v %v, want %v %v", k, n, got, ok, w, hl)
					}
					if h, ok := handles[k]; ok {
						if got, ok := h.Single(z); ok != hl || got != w {
							return bad("table taken earlier: Single(%d,n%d) is %v %v, want %v %v", k, n, got, ok, w, hl)
						}
					}
				}
			}
		}
	}
	c.Trace(1)
	c.Outcome(fmt.Sprint(m.tab))
	return nil
}

// ---------------------------------------------------------------- C11

func checkC11(c *Ctx) {
	depth := 7
	if c.Thorough {
		depth = 8
	}
	names := []string{"give", "take", "back", "shrink", "reset", "invert"}
	c.Bound("depth", depth)
	thr := []int{0, 1, 2, 1024}
	c.Bound("shrink_thresholds", thr)
	for d := 1; d <= depth; d++ {
		enumTuples(d, len(names), func(ix []int) {
			if ix[0] != 0 { // anything before the first insertion is covered by shorter prefixes of no-ops
				return
			}
			for _, th := range thr {
				if th != 1024 && th != 0 && d == depth && !c.Thorough {
					continue
				}
				if !c.Mine() {
					c.Skip()
					continue
				}
				seq := append([]int(nil), ix...)
				c.Case(func() string { return fmt.Sprintf("threshold %d ops %v", th, seqNames(names, seq)) }, func() error {
					old := sys.MemLowBoundShrink
					sys.MemLowBoundShrink = th
					defer func() { sys.MemLowBoundShrink = old }()
					for kind := 0; kind < 2; kind++ {
						if err := c.c11(kind, seq); err != nil {
							return err
						}
					}
					return nil
				})
			}
		})
	}
	// Two collections driven alternately share nothing.
	d2 := 5
	enumTuples(d2, 2*len(names), func(ix []int) {
		if ix[0] != 0 {
			return
		}
		if !c.Mine() {
			c.Skip()
			return
		}
		seq := append([]int(nil), ix...)
		c.Case(func() string { return fmt.Sprint("two collections ", seq) }, func() error {
			old := sys.MemLowBoundShrink
			sys.MemLowBoundShrink = 1
			defer func() { sys.MemLowBoundShrink = old }()
			for kind := 0; kind < 2; kind++ {
				a, b := newCol(kind), newCol(kind)
				for i, k := range seq {
					x := a
					if k >= len(names) {
						x = b
					}
					if err := x.do(k%len(names), i); err != nil {
						return err
					}
					if err := a.same(); err != nil {
						return fmt.Errorf("first %s: %v", x.name(), err)
					}
					if err := b.same(); err != nil {
						return fmt.Errorf("second %s: %v", x.name(), err)
					}
					c.Trans(1)
				}
			}
			c.State(1)
			c.Trace(1)
			return nil
		})
	})
	// Long histories across the default threshold, with the memory-conservative setting too.
	for _, n := range []int{1000, 1030, 3000} {
		for pat := 0; pat < 6; pat++ {
			for kind := 0; kind < 2; kind++ {
				c.Case(func() string { return fmt.Sprintf("long history n=%d pattern %d kind %d", n, pat, kind) }, func() error {
					x := newCol(kind)
					oldC := sys.MemConservative
					sys.MemConservative = pat == 5
					defer func() { sys.MemConservative = oldC }()
					for i := 0; i < n; i++ {
						x.do(0, i)
					}
					for i := 0; i < n+5; i++ {
						var err error
						switch pat {
						case 0, 5:
							err = x.do(1, i)
						case 1:
							err = x.do(2, i)
						case 2:
							err = x.do(1+i%2, i)
						case 3:
							if i%5 == 0 {
								x.do(0, -i)
							}
							err = x.do(1, i)
						case 4:
							if i%97 == 0 {
								x.do(5, i)
							}
							err = x.do(1, i)
						}
						if err != nil {
							return fmt.Errorf("removal %d: %v", i, err)
						}
						if pat == 5 && i > 1040 {
							break
						}
						c.Trans(1)
					}
					c.State(1)
					c.Trace(1)
					return x.same()
				})
			}
		}
	}
}

func seqNames(names []string, seq []int) []string {
	r := make([]string, len(seq))
	for i, k := range seq {
		r[i] = names[k]
	}
	return r
}

// col pairs a collection with its list model (front of the list is the oldest element).
type col struct {
	kind int
	q    *common.Queue
	s    *common.Stack
	m    []int
}

func newCol(kind int) *col {
	if kind == 0 {
		return &col{kind: 0, q: &common.Queue{}}
	}
	return &col{kind: 1, s: &common.Stack{}}
}

func (x *col) name() string { return []string{"queue", "stack"}[x.kind] }

func (x *col) c() common.Collection {
	if x.kind == 0 {
		return x.q
	}
	return x.s
}

func (x *col) do(op, i int) error {
	C := x.c()
	n := len(x.m)
	switch op {
	case 0:
		if i%2 == 0 {
			C.Give(i)
		} else if x.kind == 0 {
			x.q.Enqueue(i)
		} else {
			x.s.Push(i)
		}
		x.m = append(x.m, i)
	case 1:
		if n == 0 {
			return nil
		}
		var got interface{}
		if i%2 == 0 {
			got = C.Take()
		} else if x.kind == 0 {
			got = x.q.Dequeue()
		} else {
			got = x.s.Pop()
		}
		want := x.m[0]
		if x.kind == 1 {
			want = x.m[n-1]
			x.m = x.m[:n-1]
		} else {
			x.m = x.m[1:]
		}
		if got != want {
			return fmt.Errorf("took %v, want %v", got, want)
		}
	case 2:
		if n == 0 || x.kind == 1 {
			return nil
		}
		got := x.q.DequeueBack()
		want := x.m[n-1]
		x.m = x.m[:n-1]
		if got != want {
			return fmt.Errorf("took %v from the back, want %v", got, want)
		}
	case 3:
		C.Shrink()
	case 4:
		C.Reset()
		x.m = nil
	case 5:
		if R := C.Invert(); R != C {
			return fmt.Errorf("Invert returned another collection")
		}
		r := make([]int, n)
		for i, v := range x.m {
			r[n-1-i] = v
		}
		x.m = r
	}
	return nil
}

func (x *col) same() error {
	C := x.c()
	if C.Size() != len(x.m) || C.Empty() != (len(x.m) == 0) {
		return fmt.Errorf("size %d empty %v, want %d elements", C.Size(), C.Empty(), len(x.m))
	}
	for i, v := range x.m {
		if got := C.Get(i); got != v {
			return fmt.Errorf("element %d is %v, want %v of %v", i, got, v, x.m)
		}
	}
	if len(x.m) > 0 {
		want := x.m[0]
		if x.kind == 1 {
			want = x.m[len(x.m)-1]
		}
		if got := C.Peek(); got != want {
			return fmt.Errorf("peek is %v, want %v", got, want)
		}
	}
	return nil
}

func (c *Ctx) c11(kind int, seq []int) error {
	x := newCol(kind)
	c.State(1)
	for i, op := range seq {
		if err := x.do(op, i); err != nil {
			return fmt.Errorf("%s step %d: %v", x.name(), i, err)
		}
		if err := x.same(); err != nil {
			return fmt.Errorf("%s after step %d: %v", x.name(), i, err)
		}
		c.Trans(1)
	}
	// Drain.
	for len(x.m) > 0 {
		if err := x.do(1, len(x.m)); err != nil {
			return fmt.Errorf("%s drain: %v", x.name(), err)
		}
	}
	c.Trace(1)
	c.Outcome(fmt.Sprint(kind, len(x.m), seq[len(seq)-1]))
	return x.same()
}

// ---------------------------------------------------------------- C24

func checkC24(c *Ctx) {
	ninf := math.Inf(-1)
	vals := []float64{ninf, 0, -1, 1, -745, -1000, 700, 1000, -0.001, -19, -33}
	maxLen := 5
	if c.Thorough {
		maxLen = 6
	}
	c.Bound("vector_length", maxLen)
	c.Bound("menu", fmt.Sprint(vals))
	// Long vectors: one largest term among n-1 that are smaller by a gap, and ladders of equal steps.
	logVectors := func(yield func(n int, v []float64)) {
		for n := 1; n <= maxLen; n++ {
			enumTuples(n, len(vals), func(ix []int) {
				v := make([]float64, n)
				for i, k := range ix {
					v[i] = vals[k]
				}
				yield(n, v)
			})
		}
		for _, n := range []int{6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 257, 1001, 5000} {
			for _, gap := range []float64{0, 1e-9, .001, .1, 1, 3, 5, 8, 10, 12, 15, 18, 19, 20, 22, 25, 30, 34, 37, 50, 700, 746, 2000} {
				for _, top := range []float64{0, -1000, -740, 705} {
					for at := 0; at < 4; at++ {
						v := make([]float64, n)
						for i := range v {
							switch {
							case at == 3: // ladder
								v[i] = top - gap*float64((i*7)%n)
							case i == (n-1)*at/2:
								v[i] = top
							default:
								v[i] = top - gap
							}
						}
						yield(n, v)
					}
				}
			}
		}
	}
	c.Bound("long vectors", "lengths 6 to 5000, one largest term at three positions among terms smaller by each of 23 gaps, ladders, four magnitudes")
	logVectors(func(n int, v []float64) {
		if !c.Mine() {
			c.Skip()
			return
		}
		c.Case(func() string { return fmt.Sprintf("%d log values %.6g", n, v[:min(n, 12)]) }, func() error {
			keep := append([]float64(nil), v...)
			var want xf
			for _, x := range v {
				want = want.add(xexp(x))
			}
			if got := utils.LogSumExp(v); !logEq(got, want.log()) {
				return fmt.Errorf("LogSumExp is %v, want %v", got, want.log())
			}
			c.Trans(1)
			if n == 2 {
				if got := utils.LogSumExpPair(v[0], v[1]); !logEq(got, want.log()) {
					return fmt.Errorf("LogSumExpPair is %v, want %v", got, want.log())
				}
				c.Trans(1)
			}
			if err := sameFloats(keep, v); err != nil {
				return err
			}
			c.Outcome(fmt.Sprintf("%.6g", want.log()))
			// Signed sums.
			{
				var err error
				signs := func(yield func([]int)) {
					if n <= 3 || c.Thorough && n <= 4 {
						enumTuples(n, 3, yield)
						return
					}
					for pat := 0; pat < 4; pat++ {
						sg := make([]int, n)
						for i := range sg {
							switch pat {
							case 0:
								sg[i] = 2
							case 1:
								sg[i] = 2 * (i % 2)
							case 2:
								sg[i] = i % 3
							default:
								if i == 0 || i == n/2 {
									sg[i] = 2
								}
							}
						}
						yield(sg)
					}
				}
				signs(func(sg []int) {
					if err != nil {
						return
					}
					s := make([]int, n)
					var pos, neg, top xf
					for i := range s {
						s[i] = sg[i] - 1
						e := xexp(v[i])
						if s[i] > 0 {
							pos = pos.add(e)
						} else if s[i] < 0 {
							neg = neg.add(e)
						}
						if s[i] != 0 && top.less(e) {
							top = e
						}
					}
					l, sign := utils.LogSumLog(v, s)
					c.Trans(1)
					if math.IsNaN(l) {
						err = fmt.Errorf("LogSumLog of %v signs %v is NaN", v, s)
						return
					}
					if top.m == 0 {
						if sign != 0 && !math.IsInf(l, -1) {
							err = fmt.Errorf("LogSumLog of %v signs %v is %v sign %d, want zero", v, s, l, sign)
						}
						return
					}
					// Compare relative to the largest term.
					rel := func(a xf) float64 { return xf{a.m / top.m, a.e - top.e}.float() }
					wantR := rel(pos) - rel(neg)
					gotR := float64(sign) * math.Exp(l-top.log())
					if math.Abs(gotR-wantR) > 1e-9*float64(1+n/8) {
						err = fmt.Errorf("LogSumLog of %v signs %v is %v sign %d: relative to the largest term %v, want %v", v, s, l, sign, gotR, wantR)
					}
				})
				if err != nil {
					return err
				}
			}
			c.State(1)
			c.Trace(1)
			return sameFloats(keep, v)
		})
	})
	// Linear values.
	lin := []float64{0, 1, .5, 1e-300, 3, 1e-5, 1e100}
	linVectors := func(yield func(n int, v []float64)) {
		for n := 1; n <= maxLen; n++ {
			enumTuples(n, len(lin), func(ix []int) {
				v := make([]float64, n)
				for i, k := range ix {
					v[i] = lin[k]
				}
				yield(n, v)
			})
		}
		for _, n := range []int{7, 16, 33, 100} {
			for a := range lin {
				for b := range lin {
					v := make([]float64, n)
					for i := range v {
						v[i] = lin[a]
						if i%5 == 3 {
							v[i] = lin[b]
						}
					}
					yield(n, v)
				}
			}
		}
	}
	linVectors(func(n int, v []float64) {
		if !c.Mine() {
			c.Skip()
			return
		}
		c.Case(func() string { return fmt.Sprintf("values %v", v) }, func() error {
			keep := append([]float64(nil), v...)
			sum, prod := xf{}, xof(1)
			for _, x := range v {
				sum, prod = sum.add(xof(x)), prod.mul(xof(x))
			}
			if got := utils.LogSum(v); !logEq(got, sum.log()) {
				return fmt.Errorf("LogSum is %v, want %v", got, sum.log())
			}
			if got := utils.LogProd(v); !logEq(got, prod.log()) {
				return fmt.Errorf("LogProd is %v, want %v", got, prod.log())
			}
			if n == 2 && !(v[0] < 1e-200 && v[1] > 1e50) {
				if got := utils.LogSumPair(v[0], v[1]); !logEq(got, sum.log()) {
					return fmt.Errorf("LogSumPair is %v, want %v", got, sum.log())
				}
			}
			if err := sameFloats(keep, v); err != nil {
				return err
			}
			for _, x := range v {
				if x < 1e90 {
					if got := utils.AntiLog(utils.Log(x)); !relEq(got, x) {
						return fmt.Errorf("AntiLog(Log(%v)) is %v", x, got)
					}
				}
			}
			for _, t := range append([]float64{7}, v...) {
				a := append([]float64(nil), v...)
				got := append([]float64(nil), utils.Trim(a, t)...)
				var want []float64
				for _, x := range v {
					if x != t {
						want = append(want, x)
					}
				}
				sort.Float64s(got)
				sort.Float64s(want)
				if err := sameFloats(want, got); err != nil {
					return fmt.Errorf("Trim(%v, %v): %v", v, t, err)
				}
			}
			for _, x := range v {
				for _, eps := range []float64{0, 1e-9, .6} {
					want := v[0] == x || math.Abs(v[0]-x) < eps
					if got := common.ApproxEqual(v[0], x, eps); got != want {
						return fmt.Errorf("ApproxEqual(%v,%v,%v) is %v", v[0], x, eps, got)
					}
				}
			}
			c.Trans(4)
			c.State(1)
			c.Trace(1)
			return nil
		})
	})
}

func sameFloats(want, got []float64) error {
	if len(want) != len(got) {
		return fmt.Errorf("have %v, want %v", got, want)
	}
	for i := range want {
		if want[i] != got[i] && !(math.IsNaN(want[i]) && math.IsNaN(got[i])) {
			return fmt.Errorf("have %v, want %v", got, want)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C25

func checkC25(c *Ctx) {
	maxLen, maxVal := 4, 4
	if c.Thorough {
		maxLen, maxVal = 6, 5
	}
	c.Bound("count_vector_length", maxLen)
	c.Bound("count_max", maxVal-1)
	for n := 1; n <= maxLen; n++ {
		enumTuples(n, maxVal, func(ix []int) {
			if !c.Mine() {
				c.Skip()
				return
			}
			cnt := append([]int(nil), ix...)
			c.Case(func() string { return fmt.Sprintf("counts %v", cnt) }, func() error { return c.c25counts(cnt) })
		})
	}
	// Longer and larger tables of counts.
	for _, n := range []int{5, 7, 8, 10, 16, 17, 64, 256, 300} {
		for pat := 0; pat < 6; pat++ {
			for _, k := range []int{1, 3, 1000, 123457} {
				cnt := make([]int, n)
				for i := range cnt {
					switch pat {
					case 0:
						cnt[i] = k
					case 1:
						cnt[i] = k * i
					case 2:
						cnt[i] = k * (n - i)
					case 3:
						if i == n-1 {
							cnt[i] = k
						}
					case 4:
						cnt[i] = k * (i * 7 % 5)
					default:
						if i%3 == 1 {
							cnt[i] = k
						}
					}
				}
				c.Case(func() string { return fmt.Sprintf("%d counts, pattern %d times %d", n, pat, k) }, func() error { return c.c25counts(cnt) })
			}
		}
	}
	// Few values far from zero.
	for _, at := range []int{1000, 70000, 1000000} {
		for pat := 0; pat < 3; pat++ {
			c.Case(func() string { return fmt.Sprintf("%d counts, only the last few positive, pattern %d", at, pat) }, func() error {
				cnt := make([]int, at)
				for i := 0; i < 7; i++ {
					cnt[at-7+i] = [][]int{{0, 0, 0, 3, 1, 2, 1}, {9, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 7, 7, 1000}}[pat][i]
				}
				return c.c25counts(cnt)
			})
		}
	}
	for _, n := range []int{7, 10, 16, 25, 33, 100, 300, 1000} {
		for pat := 0; pat < 7; pat++ {
			v := make([]int, n)
			for i := range v {
				v[i] = []int{i, i / 3, i / 10 * 7, i * i, 1000000 + i/5, i*i - 2000000, -70000 + i/4}[pat]
			}
			if n > 100 && pat > 1 && pat != 4 {
				continue
			}
			for m := 1; m <= n+3; m++ {
				if n > 100 && m > 9 && m != n/3 && m < n-2 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("quantiles of %d values, pattern %d, into %d", n, pat, m) }, func() error { return c.c25quant(v, m) })
			}
		}
	}
	vals := []int{0, 1, 2, 7, -3}
	for n := 1; n <= maxLen+2; n++ {
		enumCombs(n, len(vals), func(ix []int) {
			v := make([]int, n)
			for i, k := range ix {
				v[i] = []int{-3, 0, 1, 2, 7}[k]
			}
			for m := 1; m <= n+2; m++ {
				if !c.Mine() {
					c.Skip()
					continue
				}
				c.Case(func() string { return fmt.Sprintf("quantiles of %v into %d", v, m) }, func() error { return c.c25quant(v, m) })
			}
		})
	}
	// Raw Gaussians in any order, near zero and far from it.
	for n := 1; n <= 12; n++ {
		base, n := []float64{0, 1e6, -1e5}[(n-1)/4], (n-1)%4+1
		enumTuples(n, len(vals), func(ix []int) {
			v := make([]float64, n)
			for i, k := range ix {
				v[i] = base + float64(vals[k])/2
			}
			c.Case(func() string { return fmt.Sprintf("raw values %v", v) }, func() error {
				keep := append([]float64(nil), v...)
				var mu, sd float64
				for _, x := range v {
					mu += x / float64(n)
				}
				for _, x := range v {
					sd += (x - mu) * (x - mu) / float64(n)
				}
				g := spn.NewGaussianRaw(3, v)
				c.Trans(1)
				c.State(1)
				c.Trace(1)
				if err := gaussIs(g, 3, mu, math.Sqrt(sd)); err != nil {
					return err
				}
				return sameFloats(keep, v)
			})
		})
	}
	// Union-find: all union sequences.
	n, depth := 4, 4
	if c.Thorough {
		n, depth = 5, 5
	}
	c.Bound("union_find", fmt.Sprintf("%d elements, %d unions", n, depth))
	for d := 0; d <= depth; d++ {
		enumTuples(d, n*n, func(ix []int) {
			if !c.Mine() {
				c.Skip()
				return
			}
			seq := append([]int(nil), ix...)
			c.Case(func() string {
				s := []string{}
				for _, k := range seq {
					s = append(s, fmt.Sprintf("%d+%d", k/n, k%n))
				}
				return "unions " + strings.Join(s, " ")
			}, func() error {
				if err := c.c25uf(n, seq, true); err != nil {
					return err
				}
				return c.c25uf(n, seq, false)
			})
		})
	}
	// Effective unions of six elements into one set (the first is 0+1 without loss of generality).
	n6 := 6
	var rec func(seq, comp []int)
	rec = func(seq, comp []int) {
		if len(seq) == n6-1 {
			if !c.Mine() {
				c.Skip()
				return
			}
			sq := append([]int(nil), seq...)
			c.Case(func() string { return fmt.Sprint("unions of six ", sq) }, func() error {
				if err := c.c25uf(n6, sq, true); err != nil {
					return err
				}
				return c.c25uf(n6, sq, false)
			})
			return
		}
		for k := 0; k < n6*n6; k++ {
			a, b := k/n6, k%n6
			if comp[a] == comp[b] || len(seq) == 0 && k != 1 {
				continue
			}
			cp := append([]int(nil), comp...)
			for i := range cp {
				if cp[i] == comp[b] {
					cp[i] = comp[a]
				}
			}
			rec(append(seq, k), cp)
		}
	}
	rec(nil, []int{0, 1, 2, 3, 4, 5})
	// Merging 8 and 16 elements pairwise, level by level, through every choice of members per level.
	for _, n := range []int{8, 16} {
		for ch := 0; ch < 1<<uint(3*4); ch++ {
			var seq []int
			bits := ch
			for w := 1; w < n; w *= 2 {
				o, x, y := bits&1, bits>>1&1, bits>>2&1
				bits >>= 3
				for g := 0; g < n; g += 2 * w {
					a, b := g+x*(w-1), g+w+y*(w-1)
					if o == 1 {
						a, b = b, a
					}
					seq = append(seq, a*n+b)
				}
			}
			if bits != 0 {
				continue
			}
			n := n
			c.Case(func() string { return fmt.Sprintf("levels of unions of %d: %v", n, seq) }, func() error {
				if err := c.c25uf(n, seq, true); err != nil {
					return err
				}
				return c.c25uf(n, seq, false)
			})
		}
	}
}

func gaussIs(g *spn.Gaussian, v int, mu, sd float64) error {
	m, s := g.Params()
	if !relEq(m, mu) || !relEq(s, sd) {
		return fmt.Errorf("gaussian (%v, %v), want (%v, %v)", m, s, mu, sd)
	}
	if sc := g.Sc(); len(sc) != 1 || sc[0] != v {
		return fmt.Errorf("gaussian scope %v", sc)
	}
	return nil
}

func (c *Ctx) c25counts(cnt []int) error {
	n := len(cnt)
	keep := append([]int(nil), cnt...)
	tot := 0
	for _, k := range cnt {
		tot += k
	}
	c.State(1)
	want := make([]float64, n)
	for i, k := range cnt {
		want[i] = float64(k+1) / float64(tot+n)
	}
	uni := make([]float64, n)
	for i := range uni {
		uni[i] = 1 / float64(n)
	}
	judge := func(name string, m *spn.Multinomial, v int, pr []float64) error {
		c.Trans(1)
		if err := leafIs(m, leafSpec{Kind: 'M', Var: v, Pr: pr}, false); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		best := 0.0
		for _, p := range pr {
			best = math.Max(best, p)
		}
		if got := m.Max(spn.VarSet{}); !logEq(got, math.Log(best)) {
			return fmt.Errorf("%s: max %v, want %v", name, got, math.Log(best))
		}
		A, got := m.ArgMax(spn.VarSet{})
		if k, ok := A[v]; !ok || len(A) != 1 || k < 0 || k >= n || !relEq(pr[k], best) || !logEq(got, math.Log(best)) {
			return fmt.Errorf("%s: mode %v %v of %v", name, A, got, pr)
		}
		var s, mu, sd float64
		for i, p := range m.Pr() {
			s += p
			mu += pr[i] * float64(i)
		}
		for i := range pr {
			sd += pr[i] * (float64(i) - mu) * (float64(i) - mu)
		}
		sd = math.Sqrt(sd)
		if !relEq(s, 1) {
			return fmt.Errorf("%s: probabilities add up to %v", name, s)
		}
		a, b := m.MuSigma()
		if !relEq(m.Mean(), mu) || !relEq(a, mu) || math.Abs(m.StdDev()-sd) > 1e-7 || math.Abs(b-sd) > 1e-7 {
			return fmt.Errorf("%s: mean %v %v deviation %v %v, want %v %v", name, m.Mean(), a, m.StdDev(), b, mu, sd)
		}
		return nil
	}
	// All outcomes of the draw among tied modes.
	_, _, err := exploreChoices(1, 4, 0, func(t *tape) (e error) {
		withSysRandom(t, intChoices(n), func() {
			m := spn.NewCountingMultinomial(4, cnt)
			if e = judge("counting multinomial", m, 4, want); e != nil {
				return
			}
			A, _ := m.ArgMax(spn.VarSet{})
			c.Outcome(fmt.Sprint(A))
			e = judge("multinomial", spn.NewMultinomial(2, append([]float64(nil), want...)), 2, want)
		})
		return
	})
	if err != nil {
		return err
	}
	m := spn.NewScopedCountingMultinomial(4, []int{4}, cnt)
	if err := judge("scoped counting multinomial", m, 4, want); err != nil {
		return err
	}
	if err := judge("empty multinomial", spn.NewEmptyMultinomial(1, n), 1, uni); err != nil {
		return err
	}
	if tot > 0 {
		var mu, sd float64
		for i, k := range cnt {
			mu += float64(k) * float64(i) / float64(tot)
		}
		for i, k := range cnt {
			sd += float64(k) * (float64(i) - mu) * (float64(i) - mu) / float64(tot)
		}
		sd = math.Sqrt(sd)
		if err := gaussIs(spn.NewGaussian(1, cnt), 1, mu, sd); err != nil {
			return err
		}
		fl := make([]float64, n)
		best := 0
		for i, k := range cnt {
			fl[i] = float64(k)
			best = max(best, k)
		}
		g := spn.NewGaussianMode(2, cnt)
		gm, gs := g.Params()
		if gm != math.Trunc(gm) || gm < 0 || int(gm) >= n || cnt[int(gm)] != best || math.Abs(gs-sd) > 1e-7 {
			return fmt.Errorf("mode gaussian (%v, %v) of %v", gm, gs, cnt)
		}
		f := spn.NewGaussianFit(2, fl)
		fm, fs := f.Params()
		if !relEq(fm, mu) || math.Abs(fs-sd) > 1e-7 {
			return fmt.Errorf("fitted gaussian (%v, %v), want (%v, %v)", fm, fs, mu, sd)
		}
		a, b := utils.MuSigma(cnt)
		if !relEq(a, mu) || math.Abs(b-sd) > 1e-7 || !relEq(utils.Mean(cnt), mu) || math.Abs(utils.StdDev(cnt)-sd) > 1e-7 {
			return fmt.Errorf("statistics %v %v %v %v, want %v %v", a, b, utils.Mean(cnt), utils.StdDev(cnt), mu, sd)
		}
		c.Trans(6)
	}
	c.Trace(1)
	if !intsEq(keep, cnt) {
		return fmt.Errorf("counts changed to %v", cnt)
	}
	return nil
}

func (c *Ctx) c25quant(v []int, m int) error {
	keep := append([]int(nil), v...)
	P := utils.PartitionQuantiles(v, m)
	c.State(1)
	c.Trans(1)
	c.Trace(1)
	if !intsEq(keep, v) {
		return fmt.Errorf("values changed to %v", v)
	}
	if len(P) < 1 || len(P) > m {
		return fmt.Errorf("%d groups", len(P))
	}
	at := 0
	for g, p := range P {
		if len(p) != 3 {
			return fmt.Errorf("group %d is %v", g, p)
		}
		k := int(p[2])
		if float64(k) != p[2] || k < 1 || at+k > len(v) {
			return fmt.Errorf("group %d of %v has size %v", g, P, p[2])
		}
		var mu, sd float64
		for _, x := range v[at : at+k] {
			mu += float64(x) / float64(k)
		}
		for _, x := range v[at : at+k] {
			sd += (float64(x) - mu) * (float64(x) - mu) / float64(k)
		}
		sd = math.Sqrt(sd)
		if !relEq(p[0], mu) {
			return fmt.Errorf("group %d of %v has mean %v, want %v", g, P, p[0], mu)
		}
		if !(p[1] > 0) || math.IsInf(p[1], 0) || (sd > 1e-9 && math.Abs(p[1]-sd) > 1e-7) {
			return fmt.Errorf("group %d of %v has deviation %v, values have %v", g, P, p[1], sd)
		}
		at += k
	}
	if at != len(v) {
		return fmt.Errorf("groups %v contain %d of %d values", P, at, len(v))
	}
	c.Outcome(fmt.Sprint(len(P), len(v), m))
	return nil
}

func (c *Ctx) c25uf(n int, seq []int, each bool) error {
	x := make([]*utils.UFNode, n)
	comp := make([]int, n)
	for i := range x {
		x[i] = utils.MakeSet(i * 10)
		comp[i] = i
	}
	c.State(1)
	for step := 0; step <= len(seq); step++ {
		for i := range x {
			if !each && step < len(seq) {
				break // finding compresses paths: only at the end
			}
			r := utils.Find(x[i])
			var want []int
			for j := range x {
				if (utils.Find(x[j]) == r) != (comp[i] == comp[j]) {
					return fmt.Errorf("step %d: %d and %d same set: %v", step, i, j, comp[i] != comp[j])
				}
				if comp[i] == comp[j] {
					want = append(want, j*10)
				}
			}
			got := utils.UFVarids(r)
			sort.Ints(got)
			if !intsEq(got, want) {
				return fmt.Errorf("step %d: members of the set of %d are %v, want %v", step, i, got, want)
			}
		}
		if step == len(seq) {
			break
		}
		a, b := seq[step]/n, seq[step]%n
		r, k := utils.Union(x[a], x[b])
		c.Trans(1)
		if comp[a] == comp[b] {
			if r != nil || k != -1 {
				return fmt.Errorf("step %d: union within a set returned %v %d", step, r, k)
			}
			continue
		}
		if r == nil || r != utils.Find(x[a]) || r != utils.Find(x[b]) || (k != 1 && k != 2) {
			return fmt.Errorf("step %d: union returned %v %d", step, r, k)
		}
		o, w := comp[b], comp[a]
		for i := range comp {
			if comp[i] == o {
				comp[i] = w
			}
		}
	}
	c.Trace(1)
	c.Outcome(fmt.Sprint(comp))
	return nil
}
