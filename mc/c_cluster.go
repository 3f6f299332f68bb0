package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
	"github.com/RenatoGeh/gospn/utils/indep"
)

func init() {
	register("C16", "a case is one contingency table, or one data matrix in every order of its variables; verdicts and components are compared with a reference", checkC16)
	register("C17", "a case is one data matrix; every clustering routine is run on it with every number of clusters or density setting and every outcome of the random draws within the bound", checkC17)
}

// ---------------------------------------------------------------- C16

// chiTail is the probability that a chi-square variable with df degrees of freedom exceeds x.
func chiTail(x float64, df int) float64 {
	if x <= 0 || df <= 0 {
		return 1
	}
	y := x / 2
	var q, a float64
	if df%2 == 0 {
		q, a = math.Exp(-y), 1
	} else {
		q, a = math.Erfc(math.Sqrt(y)), 0.5
	}
	for 2*a < float64(df) {
		lg, _ := math.Lgamma(a + 1)
		q += math.Exp(a*math.Log(y) - y - lg)
		a++
	}
	return q
}

// tests gives the p-values of the likelihood-ratio and chi-square tests of a table of counts.
func tests(T [][]int) (g, chi float64) {
	p, q := len(T), len(T[0])
	r, cl := make([]float64, p), make([]float64, q)
	n := 0.0
	for i := range T {
		for j, x := range T[i] {
			r[i] += float64(x)
			cl[j] += float64(x)
			n += float64(x)
		}
	}
	for i := range T {
		for j, x := range T[i] {
			e := r[i] * cl[j] / n
			if e == 0 || n == 0 {
				continue
			}
			if x > 0 {
				g += 2 * float64(x) * math.Log(float64(x)/e)
			}
			chi += (float64(x) - e) * (float64(x) - e) / e
		}
	}
	df := (p - 1) * (q - 1)
	return chiTail(g, df), chiTail(chi, df)
}

// withTotals adds the totals the routines expect.
func withTotals(T [][]int) [][]int {
	p, q := len(T), len(T[0])
	r := make([][]int, p+1)
	r[p] = make([]int, q+1)
	for i := range T {
		r[i] = make([]int, q+1)
		for j, x := range T[i] {
			r[i][j] = x
			r[i][q] += x
			r[p][j] += x
			r[p][q] += x
		}
	}
	return r
}

var levels = []float64{0.5, 0.1, 0.05, 0.01, 0.001, 0.9}

func near(p, level float64) bool { return math.Abs(p-level) < 1e-9 }

// multisets enumerates sorted tuples of length n over k values.
func multisets(n, k int, yield func([]int)) {
	t := make([]int, n)
	var rec func(i, from int)
	rec = func(i, from int) {
		if i == n {
			yield(t)
			return
		}
		for x := from; x < k; x++ {
			t[i] = x
			rec(i+1, x)
		}
	}
	rec(0, 0)
}

func perms(n int) [][]int {
	var r [][]int
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			r = append(r, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
	return r
}

func checkC16(c *Ctx) {
	type tb struct{ p, q, max int }
	tabs := []tb{{2, 2, 6}, {2, 3, 3}, {3, 2, 3}, {3, 3, 2}, {1, 2, 4}, {2, 1, 4}, {1, 1, 3}, {2, 4, 2}, {4, 2, 2}}
	type mx struct{ vars, cats, rows int }
	mats := []mx{{1, 2, 4}, {2, 2, 8}, {2, 3, 6}, {3, 2, 8}, {3, 3, 3}, {4, 2, 5}}
	if c.Thorough {
		tabs = []tb{{2, 2, 11}, {2, 3, 5}, {3, 2, 5}, {3, 3, 3}, {1, 2, 6}, {2, 1, 6}, {1, 1, 5}, {2, 4, 3}, {4, 2, 3}, {3, 4, 1}, {4, 4, 1}}
		mats = []mx{{1, 2, 6}, {2, 2, 14}, {2, 3, 9}, {3, 2, 11}, {3, 3, 4}, {4, 2, 7}, {5, 2, 4}}
	}
	c.Bound("tables", fmt.Sprint("all of rows x columns with counts up to: ", tabs))
	c.Bound("matrices", fmt.Sprint("all multisets of up to n rows over variables with categories (variables, categories, rows): ", mats))
	c.Bound("levels", levels)
	c.Assume("a verdict whose p-value lies within 1e-9 of the level is not judged")
	for _, t := range tabs {
		enumTuples(t.p*t.q, t.max+1, func(x []int) {
			if !c.Mine() {
				c.Skip()
				return
			}
			T := make([][]int, t.p)
			for i := range T {
				T[i] = append([]int(nil), x[i*t.q:(i+1)*t.q]...)
			}
			c.Case(func() string { return fmt.Sprintf("table %v", T) }, func() error { return c.c16table(T) })
		})
	}
	// Larger tables and counts.
	dims := [][2]int{{2, 2}, {3, 5}, {5, 7}, {8, 8}, {16, 16}, {17, 33}, {2, 256}, {300, 2}, {1, 70}, {65, 70}}
	c.Bound("larger tables", fmt.Sprintf("%v categories, counts up to 3 million in total per cell row, independent, diagonal, one odd cell, a weak slope, empty rows and columns", dims))
	for _, d := range dims {
		for kind := 0; kind < 7; kind++ {
			for _, scale := range []int{1, 2, 9, 100, 3000, 70000, 1000000} {
				T := make([][]int, d[0])
				for i := range T {
					T[i] = make([]int, d[1])
					for j := range T[i] {
						x := 0
						switch kind {
						case 0: // independent
							x = scale * (1 + i%3) * (1 + j%2)
						case 1: // diagonal
							if i%d[1] == j || j%d[0] == i {
								x = scale
							}
						case 2: // one odd cell
							x = 3
							if i == d[0]-1 && j == d[1]/2 {
								x = 3 + scale
							}
						case 3: // a weak slope
							x = scale*10 + (i*j)%5
						case 4: // empty rows and columns
							if i%3 != 1 && j%4 != 2 {
								x = scale * (1 + (i+2*j)%7)
							}
						case 5: // counts around the square root of the total
							x = scale + int(math.Sqrt(float64(scale)))*((i*7+j*3)%3-1)
						default: // one row has nearly everything
							x = (i*3 + j) % 4
							if i == 0 {
								x += scale
							}
						}
						T[i][j] = x
					}
				}
				c.Case(func() string { return fmt.Sprintf("table of %v categories, kind %d, scale %d", d, kind, scale) }, func() error { return c.c16table(T) })
			}
		}
	}
	// The distribution function itself.
	for _, df := range []int{20, 29, 30, 31, 49, 50, 64, 99, 100, 101, 225, 255, 256, 400, 961, 1000, 2601, 10000} {
		c.Case(func() string { return fmt.Sprintf("chi-square distribution with %d degrees of freedom", df) }, func() error {
			c.State(1)
			for i := 0; i <= 300; i++ {
				x := float64(df) * float64(i) / 100
				if got, want := indep.ChiSquare(x, df), 1-chiTail(x, df); math.Abs(got-want) > 1e-8 {
					return fmt.Errorf("distribution at %v is %v, want %v", x, got, want)
				}
				c.Trans(1)
			}
			c.Trace(1)
			return nil
		})
	}
	for df := 1; df <= 12; df++ {
		c.Case(func() string { return fmt.Sprintf("chi-square distribution with %d degrees of freedom", df) }, func() error {
			c.State(1)
			for i := 0; i <= 400; i++ {
				x := float64(i) / 8
				if got, want := indep.ChiSquare(x, df), 1-chiTail(x, df); math.Abs(got-want) > 1e-9 {
					return fmt.Errorf("distribution at %v is %v, want %v", x, got, want)
				}
				c.Trans(1)
			}
			c.Trace(1)
			return nil
		})
	}
	for _, m := range mats {
		types := 1
		for i := 0; i < m.vars; i++ {
			types *= m.cats
		}
		ps := perms(m.vars)
		for rows := 1; rows <= m.rows; rows++ {
			multisets(rows, types, func(x []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				M := make([][]int, m.vars) // by column
				for v := range M {
					M[v] = make([]int, rows)
					d := 1
					for i := 0; i < v; i++ {
						d *= m.cats
					}
					for r := range x {
						M[v][r] = x[r] / d % m.cats
					}
				}
				c.Case(func() string { return fmt.Sprintf("matrix (by column) %v", M) }, func() error { return c.c16graph(M, m.cats, ps) })
			})
		}
	}
	c.Bound("families", "stars of up to 5 digits, copies, chains, blocks and independent columns of up to 66 variables and 300 rows in rotated and swapped orders")
	c16families(func(name string, M [][]int, cat []int) {
		c.Case(func() string { return name }, func() error { return c.c16cats(M, cat, someOrders(len(M))) })
	})
}

// c16table judges both tests on a table of counts.
func (c *Ctx) c16table(T [][]int) error {
	p, q := len(T), len(T[0])
	g, chi := tests(T)
	sum := 0
	for _, r := range T {
		for _, v := range r {
			sum += v
		}
	}
	W := withTotals(T)
	for _, l := range levels {
		K := withTotals(T)
		for _, n := range []int{1, sum, 7} {
			if v := indep.GTest(p, q, K, n, l); v != (g >= l) && !near(g, l) {
				return fmt.Errorf("likelihood-ratio test says independent=%v at level %v, p-value is %v", v, l, g)
			}
			c.Trans(1)
		}
		if sum > 0 {
			if v := indep.ChiSquareTest(p, q, K, l); v != (chi >= l) && !near(chi, l) {
				return fmt.Errorf("chi-square test says independent=%v at level %v, p-value is %v", v, l, chi)
			}
			c.Trans(1)
		}
		if fmt.Sprint(K) != fmt.Sprint(W) {
			return fmt.Errorf("a test changed the table to %v", K)
		}
	}
	c.Outcome(fmt.Sprintf("%.3f", g))
	c.State(1)
	c.Trace(1)
	return nil
}

// c16families are matrices of more variables: stars (a variable and its digits), copies, noisy chains, blocks.
func c16families(yield func(name string, M [][]int, cat []int)) {
	for _, k := range []int{2, 3, 4, 5} { // x0 has 2^k values, the others are its binary digits
		for _, rows := range []int{1, 4, 10} {
			n := rows << uint(k)
			M := make([][]int, k+1)
			cat := []int{1 << uint(k)}
			for r := 0; r < n; r++ {
				M[0] = append(M[0], r%(1<<uint(k)))
			}
			for b := 0; b < k; b++ {
				for r := 0; r < n; r++ {
					M[b+1] = append(M[b+1], M[0][r]>>uint(b)&1)
				}
				cat = append(cat, 2)
			}
			yield(fmt.Sprintf("star of %d digits, %d rows", k, n), M, cat)
		}
	}
	for _, n := range []int{4, 5, 6, 8, 11, 13, 66} {
		for _, rows := range []int{12, 40, 200, 300} {
			if n > 13 && rows != 40 && rows != 300 {
				continue
			}
			for kind := 0; kind < 4; kind++ {
				M := make([][]int, n)
				cat := make([]int, n)
				for v := range M {
					cat[v] = 2 + v%3
					for r := 0; r < rows; r++ {
						x := 0
						h := func(a int) int { return int(uint32(r*2654435761+a*40503+r*r*97) >> 7 % 64) }
						switch kind {
						case 0: // copies
							x = r % 2
						case 1: // a chain: each repeats the one before except now and then
							if v > 0 {
								x = M[v-1][r] % cat[v]
							} else {
								x = h(1) % cat[v]
							}
							if h(v+9)%(3+v) == 0 {
								x = h(v) % cat[v]
							}
						case 2: // blocks of three
							x = h(v/3*5) / (1 + v%3) % cat[v]
						default: // independent
							x = h(v*31) % cat[v]
						}
						M[v] = append(M[v], x)
					}
				}
				yield(fmt.Sprintf("%d variables, %d rows, kind %d", n, rows, kind), M, cat)
			}
		}
	}
}

// someOrders are identity, reverse, rotations and swaps of the first with each.
func someOrders(n int) [][]int {
	var r [][]int
	for k := 0; k < n; k++ {
		if n > 20 && k != 0 && k != 1 && k != n/2 && k != n-1 {
			continue
		}
		a, b := make([]int, n), make([]int, n)
		for i := range a {
			a[i], b[i] = (i+k)%n, (2*n-1-i-k)%n
		}
		s := make([]int, n)
		for i := range s {
			s[i] = i
		}
		s[0], s[k] = s[k], s[0]
		r = append(r, a, b, s)
	}
	return r
}

func (c *Ctx) c16graph(M [][]int, cats int, ps [][]int) error {
	cat := make([]int, len(M))
	for v := range cat {
		cat[v] = cats
		if v == 1 && len(M[0])%2 == 0 {
			cat[v]++
		}
	}
	return c.c16cats(M, cat, ps)
}

func (c *Ctx) c16cats(M [][]int, cat []int, ps [][]int) error {
	n := len(M)
	ids := []int{4, 0, 7, 2, 9, 15, 1, 30, 8, 22, 11, 3, 40, 5}
	if n > 10 {
		ids[1], ids[4], ids[6], ids[9] = 64, 1<<32+7, 256+7, 1<<20
	}
	for len(ids) < n {
		ids = append(ids, 7*len(ids)+3)
	}
	pv := make([][]float64, n)
	for i := range pv {
		pv[i] = make([]float64, n)
		for j := range pv {
			T := make([][]int, cat[i])
			for a := range T {
				T[a] = make([]int, cat[j])
			}
			for r := range M[i] {
				T[M[i][r]][M[j][r]]++
			}
			pv[i][j], _ = tests(T)
		}
	}
	for _, l := range levels {
		comp := make([]int, n)
		for i := range comp {
			comp[i] = i
		}
		clear := true
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				clear = clear && !near(pv[i][j], l)
				if pv[i][j] < l && comp[i] != comp[j] {
					a, b := comp[i], comp[j]
					for k := range comp {
						if comp[k] == a {
							comp[k] = b
						}
					}
				}
			}
		}
		if !clear {
			continue
		}
		want := map[string]bool{}
		for r := 0; r < n; r++ {
			var g []int
			for v := range comp {
				if comp[v] == r {
					g = append(g, ids[v])
				}
			}
			if g != nil {
				sort.Ints(g)
				want[fmt.Sprint(g)] = true
			}
		}
		c.Outcome(fmt.Sprint(len(M[0]), l, want))
		for _, p := range ps {
			vd := make([]*utils.VarData, n)
			for i, v := range p {
				vd[i] = utils.NewVarData(ids[v], cat[v], append([]int(nil), M[v]...))
			}
			for w, f := range []func([]*utils.VarData, float64) *indep.Graph{indep.NewIndepGraph, indep.NewUFIndepGraph} {
				G := f(vd, l)
				c.Trans(1)
				seen := 0
				for _, k := range G.Kset {
					k = append([]int(nil), k...)
					sort.Ints(k)
					if !want[fmt.Sprint(k)] {
						return fmt.Errorf("construction %d at level %v in order %v gives %v, want %v", w, l, p, G.Kset, want)
					}
					seen++
				}
				if seen != len(want) {
					return fmt.Errorf("construction %d at level %v in order %v gives %v, want %v", w, l, p, G.Kset, want)
				}
				for i, v := range p {
					if vd[i].Varid != ids[v] || vd[i].Categories != cat[v] || !intsEq(vd[i].Data, M[v]) {
						return fmt.Errorf("construction %d changed its data", w)
					}
				}
			}
		}
	}
	c.State(1)
	c.Trace(1)
	return nil
}

// ---------------------------------------------------------------- C17

// isPartition checks that the clusters hold every row once, under its index and unchanged.
func isPartition(M [][]int, C []map[int][]int, maxK int) ([]int, error) {
	if maxK >= 0 && len(C) > maxK {
		return nil, fmt.Errorf("%d clusters came back, at most %d were asked for: %v", len(C), maxK, C)
	}
	at := make([]int, len(M))
	for i := range at {
		at[i] = -1
	}
	for k, cl := range C {
		for i, row := range cl {
			if i < 0 || i >= len(M) || at[i] >= 0 {
				return nil, fmt.Errorf("instance %d appears twice or does not exist: %v", i, C)
			}
			if !intsEq(row, M[i]) {
				return nil, fmt.Errorf("instance %d is %v in its cluster, was %v", i, row, M[i])
			}
			at[i] = k
		}
	}
	for i, k := range at {
		if k < 0 {
			return nil, fmt.Errorf("instance %d (%v) is in no cluster: %v", i, M[i], C)
		}
	}
	return at, nil
}

func toIntClusters(C []map[int][]float64) []map[int][]int {
	r := make([]map[int][]int, len(C))
	for i, m := range C {
		r[i] = map[int][]int{}
		for k, row := range m {
			x := make([]int, len(row))
			for j, v := range row {
				x[j] = int(v)
				if float64(x[j]) != v {
					x[j] = math.MinInt32
				}
			}
			r[i][k] = x
		}
	}
	return r
}

func toFloats(M [][]int) [][]float64 {
	r := make([][]float64, len(M))
	for i := range M {
		r[i] = make([]float64, len(M[i]))
		for j, v := range M[i] {
			r[i][j] = float64(v)
		}
	}
	return r
}

func copyM(M [][]int) [][]int {
	r := make([][]int, len(M))
	for i := range M {
		r[i] = append([]int(nil), M[i]...)
	}
	return r
}

// centred says whether there are centres, one of the candidates of each non-empty cluster, such
// that every instance is with a nearest one. No candidates at all stand for too many to try.
func centred(M [][]int, at []int, cands map[int][][]float64, dist func(a []int, b []float64) float64) bool {
	var ks []int
	for k := range cands {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	cur := map[int][]float64{}
	rows := members(M, at)
	// The condition is one on pairs of clusters, so partial choices can be rejected.
	fits := func(k, l int) bool {
		for _, r := range rows[k] {
			if dist(M[r], cur[l]) < dist(M[r], cur[k])-1e-9 {
				return false
			}
		}
		return true
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(ks) {
			return true
		}
	next:
		for _, x := range cands[ks[i]] {
			cur[ks[i]] = x
			for _, l := range ks[:i] {
				if !fits(ks[i], l) || !fits(l, ks[i]) {
					continue next
				}
			}
			if rec(i + 1) {
				return true
			}
		}
		return false
	}
	return rec(0)
}

func hammingF(a []int, b []float64) float64 {
	n := 0.0
	for i := range a {
		if float64(a[i]) != b[i] {
			n++
		}
	}
	return n
}

func euclidF(a []int, b []float64) float64 {
	n := 0.0
	for i := range a {
		n += (float64(a[i]) - b[i]) * (float64(a[i]) - b[i])
	}
	return math.Sqrt(n)
}

// members lists the rows of each non-empty cluster.
func members(M [][]int, at []int) map[int][]int {
	r := map[int][]int{}
	for i, k := range at {
		r[k] = append(r[k], i)
	}
	return r
}

func meanCands(M [][]int, at []int) map[int][][]float64 {
	r := map[int][][]float64{}
	for k, rows := range members(M, at) {
		m := make([]float64, len(M[0]))
		for _, i := range rows {
			for j, v := range M[i] {
				m[j] += float64(v) / float64(len(rows))
			}
		}
		r[k] = [][]float64{m}
	}
	return r
}

func modeCands(M [][]int, at []int) map[int][][]float64 {
	r := map[int][][]float64{}
	for k, rows := range members(M, at) {
		cs := [][]float64{{}}
		for j := range M[0] {
			cnt := map[int]int{}
			best := 0
			for _, i := range rows {
				cnt[M[i][j]]++
				best = max(best, cnt[M[i][j]])
			}
			var next [][]float64
			for v, n := range cnt {
				if n == best {
					for _, p := range cs {
						next = append(next, append(append([]float64(nil), p...), float64(v)))
					}
				}
			}
			cs = next
			if len(cs) > 4096 {
				return nil // too many ties
			}
		}
		r[k] = cs
	}
	return r
}

func medoidCands(M [][]int, at []int) map[int][][]float64 {
	F := toFloats(M)
	r := map[int][][]float64{}
	for k, rows := range members(M, at) {
		for _, i := range rows {
			r[k] = append(r[k], F[i])
		}
	}
	return r
}

// epsComponents are the connected components of the graph of distances up to eps.
func epsComponents(M [][]int, eps float64) []int {
	comp := make([]int, len(M))
	for i := range comp {
		comp[i] = i
	}
	F := toFloats(M)
	for i := range M {
		for j := range M {
			if i != j && euclidF(M[i], F[j]) <= eps {
				a, b := comp[i], comp[j]
				for k := range comp {
					if comp[k] == a {
						comp[k] = b
					}
				}
			}
		}
	}
	return comp
}

func rowsToData(M [][]int, vars []int) []map[int]int {
	D := make([]map[int]int, len(M))
	for i := range M {
		D[i] = map[int]int{}
		for j, v := range M[i] {
			D[i][vars[j]] = v
		}
	}
	return D
}

// isDataPartition checks a partition of a data set whose instances carry no index.
func isDataPartition(D []map[int]int, G [][]map[int]int, maxK int) error {
	if maxK >= 0 && len(G) > maxK {
		return fmt.Errorf("%d clusters came back, at most %d were asked for", len(G), maxK)
	}
	var all []map[int]int
	for _, g := range G {
		all = append(all, g...)
	}
	if len(all) != len(D) || !bagEq(bag(all, nil), bag(D, nil)) {
		return fmt.Errorf("clusters %v are not a partition of %s", G, fmtD(D))
	}
	return nil
}

func checkC17(c *Ctx) {
	type mx struct{ rows, cols, vals int }
	mats := []mx{{1, 1, 2}, {2, 1, 3}, {3, 1, 3}, {4, 1, 3}, {5, 1, 3}, {2, 2, 3}, {3, 2, 3}, {4, 2, 2}, {3, 3, 2}}
	dev, limit := 2, 6
	if c.Thorough {
		mats = append(mats, mx{6, 1, 3}, mx{5, 2, 2}, mx{4, 2, 3}, mx{4, 3, 2})
		dev, limit = 4, 10
	}
	c.Bound("matrices", fmt.Sprint("all of (rows, columns, values): ", mats))
	c.Bound("numbers of clusters", "1 to the number of rows")
	c.Bound("random draws", fmt.Sprintf("first %d draws, up to %d departures from the default for the seeded methods; 2 draws with 1 departure for k-means, whose draws only place initial centres", limit, dev))
	c.Assume("beyond the explored draws the generator follows one fixed stream")
	for _, m := range mats {
		enumTuples(m.rows*m.cols, m.vals, func(x []int) {
			if !c.Mine() {
				c.Skip()
				return
			}
			M := make([][]int, m.rows)
			for i := range M {
				M[i] = append([]int(nil), x[i*m.cols:(i+1)*m.cols]...)
			}
			c.Case(func() string { return fmt.Sprintf("rows %v", M) }, func() error { return c.c17(M, dev, limit) })
		})
	}
	big := []mx{{8, 2, 3}, {10, 3, 3}, {12, 1, 9}, {15, 4, 4}, {20, 2, 5}, {30, 3, 6}, {70, 2, 4}, {8, 70, 3}, {130, 1, 9}, {9, 3, 300}}
	if c.Thorough {
		big = append(big, mx{40, 2, 7}, mx{25, 4, 3}, mx{60, 3, 12}, mx{100, 2, 9})
	}
	c.Bound("larger matrices", fmt.Sprintf("%d patterns of each of (rows, columns, values) %v, with 1, 2, 3, 5, half and all as the number of clusters, first 4 draws with 1 departure", patterns, big))
	for _, m := range big {
		for pat := 0; pat < patterns; pat++ {
			M := patternRows(pat, m.rows, m.cols, m.vals)
			c.Case(func() string { return fmt.Sprintf("rows %v", M) }, func() error { return c.c17(M, 1, 4) })
		}
	}
	// Values far apart and negative, for the routines that accept them.
	for _, M := range [][][]int{{{0}, {1000000}, {1000001}}, {{5, -3}, {5, -3}, {-7, 2}}, {{255}, {0}, {128}, {129}}, {{7}, {7}, {7}, {7}, {7}}} {
		c.Case(func() string { return fmt.Sprintf("rows %v", M) }, func() error { return c.c17(M, dev, limit) })
	}
}

func (c *Ctx) c17(M [][]int, dev, limit int) error {
	n := len(M)
	neg := false
	for _, r := range M {
		for _, v := range r {
			neg = neg || v < 0 || v > 1000
		}
	}
	explore := func(name string, dev, limit int, vals []int64, fn func() error) error {
		runs, capped, err := exploreChoices(dev, limit, 50000, func(t *tape) (e error) {
			withRandom(t, vals, func() { e = fn() })
			return
		})
		c.Trans(runs)
		c.Trace(runs)
		if capped {
			c.Cap("random outcomes of " + name)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		return nil
	}
	vars := []int{3, 0, 8, 20}
	for len(vars) < len(M[0]) {
		vars = append(vars, 5*len(vars)+1)
	}
	vars = vars[:len(M[0])]
	D := rowsToData(M, vars)
	input := func(A [][]int) error {
		for i := range M {
			if len(A) != len(M) || !intsEq(A[i], M[i]) {
				return fmt.Errorf("input changed to %v", A)
			}
		}
		return nil
	}
	for k := 1; k <= n; k++ {
		if n > 6 && k > 3 && k != 5 && k != n/2 && k != n {
			continue
		}
		ints := intChoices(min(n, 7))
		type method struct {
			name  string
			run   func(A [][]int) []map[int][]int
			cands func([][]int, []int) map[int][][]float64
			dist  func([]int, []float64) float64
		}
		ms := []method{
			{"KMedoid", func(A [][]int) []map[int][]int { return cluster.KMedoid(k, A) }, medoidCands, hammingF},
			{"OldKMeansF", func(A [][]int) []map[int][]int {
				F := toFloats(A)
				r := toIntClusters(cluster.OldKMeansF(k, F, metrics.EuclideanF))
				if fmt.Sprint(F) != fmt.Sprint(toFloats(A)) {
					panic("OldKMeansF changed its input")
				}
				return r
			}, meanCands, euclidF},
		}
		if !neg {
			ms = append(ms,
				method{"KMode", func(A [][]int) []map[int][]int { return cluster.KMode(k, A) }, modeCands, hammingF},
				method{"OldKMeans", func(A [][]int) []map[int][]int { return cluster.OldKMeans(k, A) }, modeCands, hammingF})
		}
		for _, m := range ms {
			err := explore(fmt.Sprintf("%s(%d)", m.name, k), dev, limit, ints, func() error {
				A := copyM(M)
				C := m.run(A)
				at, err := isPartition(M, C, k)
				if err != nil {
					return err
				}
				if err := input(A); err != nil {
					return err
				}
				if !centred(M, at, m.cands(M, at), m.dist) {
					return fmt.Errorf("some instance is nearer to another cluster's centre, whichever centres are chosen: %v", C)
				}
				c.Outcome(fmt.Sprint(m.name, at))
				return nil
			})
			if err != nil {
				return err
			}
		}
		// k-means of the clustering module, in all its forms.
		for _, m := range []struct {
			name string
			run  func(A [][]int) error
		}{
			{"KMeans", func(A [][]int) error { _, err := isPartition(M, cluster.KMeans(k, A), k); return err }},
			{"KMeansF", func(A [][]int) error {
				_, err := isPartition(M, toIntClusters(cluster.KMeansF(k, toFloats(A), nil)), k)
				return err
			}},
			{"KMeansI", func(A [][]int) error {
				F := toFloats(A)
				G := cluster.KMeansI(k, F)
				if len(G) != n {
					return fmt.Errorf("%d assignments for %d rows", len(G), n)
				}
				for _, g := range G {
					if g < 0 || g >= k {
						return fmt.Errorf("cluster number %d of %d", g, k)
					}
				}
				if fmt.Sprint(F) != fmt.Sprint(toFloats(M)) {
					return fmt.Errorf("input changed to %v", F)
				}
				c.Outcome(fmt.Sprint("KMeansI", G))
				return nil
			}},
			{"KMeansDataI", func(A [][]int) error {
				E := cloneData(D)
				G := cluster.KMeansDataI(k, E)
				if !dataEq(D, E) {
					return fmt.Errorf("input changed to %s", fmtD(E))
				}
				return isDataPartition(D, G, k)
			}},
			{"KMeansData", func(A [][]int) error {
				E := cloneData(D)
				C := cluster.KMeansData(k, E)
				if !dataEq(D, E) {
					return fmt.Errorf("input changed to %s", fmtD(E))
				}
				return dataRows(M, C, k)
			}},
			{"KMeansFData", func(A [][]int) error {
				E := cloneData(D)
				C := toIntClusters(cluster.KMeansFData(k, E))
				if !dataEq(D, E) {
					return fmt.Errorf("input changed to %s", fmtD(E))
				}
				return dataRows(M, C, k)
			}},
		} {
			d, lim := 1, 2*k*len(M[0])
			if n > 6 {
				d, lim = dev, limit
			}
			err := explore(fmt.Sprintf("%s(%d)", m.name, k), d, lim, permChoices(), func() error {
				A := copyM(M)
				if err := m.run(A); err != nil {
					return err
				}
				return input(A)
			})
			if err != nil {
				return err
			}
		}
	}
	// Density-based methods.
	for _, eps := range []float64{0, 0.5, 1, 1.5, 2, 5} {
		comp := epsComponents(M, eps)
		size := map[int]int{}
		for _, x := range comp {
			size[x]++
		}
		// Instances that have at least mp others near them.
		near := make([]int, n)
		F := toFloats(M)
		for i := range M {
			for j := range M {
				if i != j && euclidF(M[i], F[j]) <= eps {
					near[i]++
				}
			}
		}
		for mp := 1; mp <= n+1; mp++ {
			if n > 6 && mp > 4 && mp != n/2 && mp < n {
				continue
			}
			A := copyM(M)
			C := cluster.DBSCAN(A, eps, mp)
			c.Trans(3)
			c.Trace(3)
			what := fmt.Sprintf("DBSCAN(%v,%d)", eps, mp)
			at, err := isPartition(M, C, n)
			if err == nil {
				err = input(A)
			}
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			for i := range at {
				for j := range at {
					if at[i] == at[j] && comp[i] != comp[j] {
						return fmt.Errorf("%s joins rows %d and %d, which no chain of neighbours connects: %v", what, i, j, C)
					}
					if mp == 1 && at[i] != at[j] && comp[i] == comp[j] {
						return fmt.Errorf("%s separates rows %d and %d, which neighbours connect: %v", what, i, j, C)
					}
				}
			}
			E := cloneData(D)
			G := cluster.DBSCANData(E, eps, mp)
			if !dataEq(D, E) {
				return fmt.Errorf("DBSCANData changed its input to %s", fmtD(E))
			}
			if err := isDataPartition(D, G, n); err != nil {
				return fmt.Errorf("DBSCANData(%v,%d): %w", eps, mp, err)
			}
			if len(G) != len(C) {
				return fmt.Errorf("DBSCANData(%v,%d) gives %d clusters, DBSCAN %d", eps, mp, len(G), len(C))
			}
			for _, g := range G {
				if len(g) == 0 {
					return fmt.Errorf("DBSCANData(%v,%d) returns an empty cluster", eps, mp)
				}
			}
			A = copyM(M)
			C = cluster.OPTICS(A, eps, mp)
			what = fmt.Sprintf("OPTICS(%v,%d)", eps, mp)
			at, err = isPartition(M, C, n+1)
			if err == nil {
				err = input(A)
			}
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			for i := range at {
				for j := range at {
					if at[i] == at[j] && at[i] != 0 && comp[i] != comp[j] {
						return fmt.Errorf("%s joins rows %d and %d, which no chain of neighbours connects: %v", what, i, j, C)
					}
					if mp == 1 && comp[i] == comp[j] && at[i] != at[j] {
						return fmt.Errorf("%s separates rows %d and %d, which neighbours connect: %v", what, i, j, C)
					}
				}
				if near[i] >= mp && at[i] == 0 {
					return fmt.Errorf("%s takes row %d, which has %d others near it, for noise: %v", what, i, near[i], C)
				}
				for j := range at {
					if near[i] >= mp && near[j] >= mp && at[i] != at[j] && euclidF(M[i], F[j]) <= eps {
						return fmt.Errorf("%s separates rows %d and %d, which are close and both have enough others near them: %v", what, i, j, C)
					}
				}
				if mp == 1 && (at[i] == 0) != (size[comp[i]] == 1) {
					return fmt.Errorf("%s: row %d has neighbours or not, but its group says otherwise: %v", what, i, C)
				}
			}
			c.Outcome(fmt.Sprint("O", at))
		}
	}
	c.State(1)
	return nil
}

// dataRows checks clusters of a data set turned into rows: the variables' columns come in an order
// of the routine's choosing, the same for all rows.
func dataRows(M [][]int, C []map[int][]int, k int) error {
	cols := len(M[0])
	got := make([][]int, len(M))
	for _, cl := range C {
		for i, row := range cl {
			if i < 0 || i >= len(M) || got[i] != nil {
				return fmt.Errorf("instance %d appears twice or does not exist: %v", i, C)
			}
			if len(row) != cols {
				return fmt.Errorf("instance %d is %v in its cluster, was %v", i, row, M[i])
			}
			got[i] = row
		}
	}
	for i := range got {
		if got[i] == nil {
			return fmt.Errorf("instance %d (%v) is in no cluster: %v", i, M[i], C)
		}
	}
	// Match the columns: put both matrices' columns in lexicographic order.
	order := func(A [][]int) []int {
		p := make([]int, cols)
		for j := range p {
			p[j] = j
		}
		sort.SliceStable(p, func(x, y int) bool {
			for i := range A {
				if A[i][p[x]] != A[i][p[y]] {
					return A[i][p[x]] < A[i][p[y]]
				}
			}
			return false
		})
		return p
	}
	p, q := order(M), order(got)
	N := make([][]int, len(M))
	for i := range M {
		N[i] = make([]int, cols)
		for j := range p {
			N[i][q[j]] = M[i][p[j]]
		}
	}
	_, err := isPartition(N, C, k)
	return err
}
