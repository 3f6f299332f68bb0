package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"sort"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/dennis"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/learn/poon"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"

	"verif/mc/vrand"
)

func init() {
	register("C18", "a case is one data set with one setting; every random outcome within the bound is executed and the learned network is judged against the relation 'learnable from this data', or one part of the schedule tree of a concurrent run", checkC18)
	register("C19", "a case is one data set with one setting; every random outcome within the bound is executed and the network is judged", checkC19)
	register("C20", "a case is one image size (all rectangles coded), or one data set with one setting; every random outcome within the bound is executed and the network is judged", checkC20)
}

// specOf reads a real network into a specification.
func specOf(root spn.SPN) (s spec, nodes []spn.SPN, err error) {
	at := map[spn.SPN]int{}
	state := map[spn.SPN]int{}
	var rec func(n spn.SPN) error
	rec = func(n spn.SPN) error {
		if n == nil {
			return fmt.Errorf("there is no node where one is expected")
		}
		if state[n] == 2 {
			return nil
		}
		if state[n] == 1 {
			return fmt.Errorf("the graph has a cycle")
		}
		state[n] = 1
		x := nodeSpec{}
		for _, c := range n.Ch() {
			if e := rec(c); e != nil {
				return e
			}
			x.Ch = append(x.Ch, at[c])
		}
		switch z := n.(type) {
		case *spn.Sum:
			x.Kind, x.W = 'S', append([]float64(nil), z.Weights()...)
		case *spn.Product:
			x.Kind = 'P'
		case *spn.Multinomial:
			x.Kind, x.Leaf = 'L', leafSpec{Kind: 'M', Var: z.Sc()[0], Pr: append([]float64(nil), z.Pr()...)}
		case *spn.Gaussian:
			mu, sg := z.Params()
			x.Kind, x.Leaf = 'L', leafSpec{Kind: 'G', Var: z.Sc()[0], Mu: mu, S: sg}
		default:
			return fmt.Errorf("unexpected node %T", n)
		}
		state[n] = 2
		at[n] = len(s)
		s = append(s, x)
		nodes = append(nodes, n)
		return nil
	}
	err = rec(root)
	return
}

// validNet judges a learned network: valid, with one weight per child, over exactly the variables.
func validNet(root spn.SPN, vars []int, normalised bool) (spec, error) {
	s, _, err := specOf(root)
	if err != nil {
		return nil, err
	}
	want := vsetOf(vars)
	sc := s.scopes()
	if sc[len(s)-1] != want {
		return s, fmt.Errorf("scope is %v, want %v", sc[len(s)-1], want)
	}
	for i, n := range s {
		if n.Kind != 'L' && len(n.Ch) == 0 {
			return s, fmt.Errorf("node %d is an internal node without children", i)
		}
		if n.Kind == 'S' {
			if len(n.W) != len(n.Ch) {
				return s, fmt.Errorf("sum %d has %d children and %d weights", i, len(n.Ch), len(n.W))
			}
			for _, w := range n.W {
				if !(w >= 0) || math.IsInf(w, 0) {
					return s, fmt.Errorf("sum %d has weights %v", i, n.W)
				}
			}
		}
		if n.Kind == 'L' && n.Leaf.Kind == 'G' && !(n.Leaf.S >= 0 && !math.IsInf(n.Leaf.S, 0) && !math.IsNaN(n.Leaf.Mu) && !math.IsInf(n.Leaf.Mu, 0)) {
			return s, fmt.Errorf("leaf %d is %v", i, n.Leaf)
		}
	}
	if !s.complete() {
		return s, fmt.Errorf("not complete: %v", s)
	}
	if !s.decomposable() {
		return s, fmt.Errorf("not decomposable: %v", s)
	}
	if normalised {
		for i, n := range s {
			t := 1.0
			if n.Kind == 'S' {
				t = 0
				for _, w := range n.W {
					t += w
				}
			} else if n.Kind == 'L' && n.Leaf.Kind == 'M' {
				t = 0
				for _, w := range n.Leaf.Pr {
					t += w
				}
			}
			if math.Abs(t-1) > 1e-9 {
				return s, fmt.Errorf("node %d adds up to %v", i, t)
			}
		}
	}
	return s, nil
}

// ---------------------------------------------------------------- C18

type gensCfg struct {
	k    int
	pval float64
	eps  float64
	mp   int
	g    int // gaussians per variable, 0: multinomials
}

func (g gensCfg) String() string {
	return fmt.Sprintf("clusters %d, level %v, eps %v, min %d, gaussians %d", g.k, g.pval, g.eps, g.mp, g.g)
}

// gensRel decides whether a network can have been learned from a part of the data.
type gensRel struct {
	cfg  gensCfg
	D    []map[int]int
	cat  map[int]int
	memo map[gensKey]bool
	why  string
}

type gensKey struct {
	n    spn.SPN
	rows vset
}

func (r *gensRel) no(f string, a ...any) bool {
	if r.why == "" {
		r.why = fmt.Sprintf(f, a...)
	}
	return false
}

func (r *gensRel) column(rows vset, v int) []int {
	var x []int
	for i, I := range r.D {
		if rows.has(i) {
			x = append(x, I[v])
		}
	}
	return x
}

// leaf judges the distribution of one variable.
func (r *gensRel) leaf(n spn.SPN, rows vset, v int) bool {
	X := r.column(rows, v)
	if r.cfg.g > 0 {
		z, ok := n.(*spn.Sum)
		if !ok {
			return r.no("variable %d is not a mixture", v)
		}
		ch, W := z.Ch(), z.Weights()
		var mu, sg []float64
		for i, c := range ch {
			g, ok := c.(*spn.Gaussian)
			if !ok || c.Sc()[0] != v {
				return r.no("mixture of variable %d has another leaf", v)
			}
			if i >= len(W) || !relEq(W[i], 1/float64(len(ch))) {
				return r.no("mixture weights %v", W)
			}
			a, b := g.Params()
			mu, sg = append(mu, a), append(sg, b)
		}
		if err := gaussMoments(mu, sg, X, r.cfg.g); err != nil {
			return r.no("variable %d: %v", v, err)
		}
		return true
	}
	m, ok := n.(*spn.Multinomial)
	if !ok || n.Sc()[0] != v {
		return r.no("variable %d is a %T over %v", v, n, n.Sc())
	}
	cnt := make([]float64, r.cat[v])
	for _, x := range X {
		cnt[x]++
	}
	pr := m.Pr()
	if len(pr) != len(cnt) {
		return r.no("%d probabilities for %d categories", len(pr), len(cnt))
	}
	for i := range pr {
		if w := (cnt[i] + 1) / float64(len(X)+len(cnt)); !relEq(pr[i], w) {
			return r.no("probabilities of variable %d are %v for values %v", v, pr, X)
		}
	}
	return true
}

// gaussMoments judges gaussians that stand for groups of the values: together they have the mean and the
// variance of the values, in whichever way the values were grouped.
func gaussMoments(mu, sg []float64, X []int, g int) error {
	var size []float64
	for _, q := range utils.PartitionQuantiles(X, g) {
		size = append(size, q[2])
	}
	if len(mu) != len(size) {
		return fmt.Errorf("%d gaussians for values %v in %d groups", len(mu), X, len(size))
	}
	var s1, s2, t1 float64
	for _, x := range X {
		s1 += float64(x)
		s2 += float64(x) * float64(x)
	}
	t2 := 0.0
	var open []float64 // a deviation of zero is replaced by 0.5, which cannot be told from one that is 0.5
	for i := range mu {
		t1 += size[i] * mu[i]
		t2 += size[i] * (mu[i]*mu[i] + sg[i]*sg[i])
		if sg[i] == 0.5 {
			open = append(open, size[i]*.25)
		}
	}
	if !relEq(t1, s1) {
		return fmt.Errorf("mean of the gaussians %v does not match the values %v", mu, X)
	}
	var try func(i int, t float64) bool
	try = func(i int, t float64) bool {
		if i == len(open) {
			return relEq(t, s2) || math.Abs(t-s2) < 1e-9
		}
		return try(i+1, t-open[i]) || try(i+1, t)
	}
	if !try(0, t2) {
		return fmt.Errorf("deviations of the gaussians %v %v do not match the values %v", mu, sg, X)
	}
	return nil
}

// judgePartitions judges a network built from a graph of regions: every sum adds products of two parts of
// its variables. With all set, every region but the whole has exactly m sums, which have the same products,
// one for every pair of nodes of the two parts; otherwise a region has at most m sums.
func judgePartitions(s spec, m int, all bool) error {
	sc := s.scopes()
	reps := map[vset][]int{}
	root := len(s) - 1
	for i, n := range s {
		if n.Kind != 'P' {
			reps[sc[i]] = append(reps[sc[i]], i)
		}
	}
	for i, n := range s {
		switch n.Kind {
		case 'P':
			if len(n.Ch) != 2 || s[n.Ch[0]].Kind == 'P' || s[n.Ch[1]].Kind == 'P' {
				return fmt.Errorf("product %d is not one of two regions: %v", i, s)
			}
		case 'S':
			k := len(reps[sc[i]])
			if i == root {
				if k != 1 {
					return fmt.Errorf("the whole has %d sums", k)
				}
			} else if k > m || (all && k != m) {
				return fmt.Errorf("region %v has %d sums, asked for %d", sc[i], k, m)
			}
			pairs := map[[2]int]int{}
			for _, c := range n.Ch {
				if s[c].Kind != 'P' {
					return fmt.Errorf("sum %d has a child that is no product", i)
				}
				a, b := s[c].Ch[0], s[c].Ch[1]
				if sc[b].less(sc[a]) {
					a, b = b, a
				}
				pairs[[2]int{a, b}]++
			}
			if !all {
				for p, n := range pairs {
					if n > 1 {
						return fmt.Errorf("sum %d has the product of %v %d times", i, p, n)
					}
				}
				continue
			}
			for p := range pairs {
				for _, x := range reps[sc[p[0]]] {
					for _, y := range reps[sc[p[1]]] {
						if pairs[[2]int{x, y}] != pairs[p] {
							return fmt.Errorf("sum %d has the product of nodes %v %d times but that of nodes %d and %d of the same regions %d times", i, p, pairs[p], x, y, pairs[[2]int{x, y}])
						}
					}
				}
			}
			for _, o := range reps[sc[i]] {
				if len(s[o].Ch) != len(n.Ch) {
					return fmt.Errorf("sums %d and %d of one region have different children", i, o)
				}
			}
		}
	}
	return nil
}

// leavesOf gives the gaussians of a variable.
func (s spec) leavesOf(v int) (mu, sg []float64) {
	for _, n := range s {
		if n.Kind == 'L' && n.Leaf.Var == v {
			mu, sg = append(mu, n.Leaf.Mu), append(sg, n.Leaf.S)
		}
	}
	return
}

// scopeOf is the set of variables of the leaves below.
func scopeOf(n spn.SPN) (r vset) {
	if len(n.Ch()) == 0 {
		r.add(n.Sc()[0])
	}
	for _, c := range n.Ch() {
		r = r.or(scopeOf(c))
	}
	return r
}

// factorised judges a product of the distributions of the variables.
func (r *gensRel) factorised(n spn.SPN, rows vset, vars []int) bool {
	p, ok := n.(*spn.Product)
	if !ok || len(p.Ch()) != len(vars) {
		return r.no("not a product of %d variables", len(vars))
	}
	used := map[int]bool{}
	for _, c := range p.Ch() {
		sc := scopeOf(c).vars()
		if len(sc) != 1 {
			return r.no("factor over several variables")
		}
		v := sc[0]
		if used[v] || !r.leaf(c, rows, v) {
			return r.no("factor of variable %d", v)
		}
		used[v] = true
	}
	for _, v := range vars {
		if !used[v] {
			return r.no("variable %d has no factor", v)
		}
	}
	return true
}

// components of the variables; ok is false when a test is too close to the level to call.
func (r *gensRel) components(rows vset, vars []int) (comps [][]int, ok bool) {
	comp := map[int]int{}
	for _, v := range vars {
		comp[v] = v
	}
	ok = true
	for i, v := range vars {
		for _, u := range vars[:i] {
			T := make([][]int, r.cat[u])
			for a := range T {
				T[a] = make([]int, r.cat[v])
			}
			for k, I := range r.D {
				if rows.has(k) {
					T[I[u]][I[v]]++
				}
			}
			p, _ := tests(T)
			if near(p, r.cfg.pval) {
				ok = false
			}
			if p < r.cfg.pval && comp[u] != comp[v] {
				a, b := comp[u], comp[v]
				for _, x := range vars {
					if comp[x] == a {
						comp[x] = b
					}
				}
			}
		}
	}
	for _, v := range vars {
		var g []int
		for _, u := range vars {
			if comp[u] == v {
				g = append(g, u)
			}
		}
		if g != nil {
			comps = append(comps, g)
		}
	}
	return
}

// learnable is the relation.
func (r *gensRel) learnable(n spn.SPN, rows vset, vars []int) bool {
	k := gensKey{n, rows}
	if v, ok := r.memo[k]; ok {
		return v
	}
	v := r.decide(n, rows, vars)
	r.memo[k] = v
	return v
}

func (r *gensRel) decide(n spn.SPN, rows vset, vars []int) bool {
	if len(vars) == 1 {
		return r.leaf(n, rows, vars[0])
	}
	comps, clear := r.components(rows, vars)
	if !clear {
		return true
	}
	if len(comps) > 1 {
		p, ok := n.(*spn.Product)
		if !ok || len(p.Ch()) != len(comps) {
			return r.no("independent groups %v are not factors of a product", comps)
		}
		used := map[int]bool{}
		for _, c := range p.Ch() {
			sc := scopeOf(c)
			found := -1
			for i, g := range comps {
				if vsetOf(g) == sc {
					found = i
				}
			}
			if found < 0 || used[found] {
				return r.no("a factor over %v is not one of the independent groups %v", sc, comps)
			}
			used[found] = true
			if !r.learnable(c, rows, comps[found]) {
				return false
			}
		}
		return true
	}
	N := rows.count()
	if r.cfg.k > 0 && N < r.cfg.k {
		return r.factorised(n, rows, vars)
	}
	s, sum := n.(*spn.Sum)
	if r.cfg.k <= 0 && r.cfg.mp <= 1 {
		// Density clustering with one neighbour is determined: the chains of close instances.
		var idx []int
		var M [][]int
		for i := range r.D {
			if rows.has(i) {
				row := []int{}
				for _, v := range vars {
					row = append(row, r.D[i][v])
				}
				M, idx = append(M, row), append(idx, i)
			}
		}
		group := map[int]vset{}
		for j, g := range epsComponents(M, r.cfg.eps) {
			m := group[g]
			m.add(idx[j])
			group[g] = m
		}
		if len(group) == 1 {
			return r.factorised(n, rows, vars)
		}
		if !sum || len(s.Ch()) != len(group) || len(s.Weights()) != len(group) {
			return r.no("%d clusters are not children of a sum", len(group))
		}
		var sets []vset
		for _, m := range group {
			sets = append(sets, m)
		}
		return r.match(s, 0, sets, vset{}, N, vars)
	}
	if !sum {
		return r.factorised(n, rows, vars)
	}
	if len(s.Ch()) < 2 || (r.cfg.k > 0 && len(s.Ch()) > r.cfg.k) || len(s.Ch()) != len(s.Weights()) {
		return r.no("a sum of %d children for %d clusters", len(s.Ch()), r.cfg.k)
	}
	return r.split(s, 0, rows, N, vars)
}

// totals judges a network whatever the clusters were: the numbers of instances that reached the nodes,
// which the weights tell, and the counts or moments of each variable that the leaves tell add up to those of
// the data, and while all instances are together the split into independent groups is the right one.
func (r *gensRel) totals(root spn.SPN, rows vset, vars []int) error {
	type key struct {
		n spn.SPN
		N int
	}
	type tot map[int][]float64
	memo := map[key]tot{}
	var rec func(n spn.SPN, N int, rows vset, vars []int) (tot, error)
	add := func(t, u tot) {
		for v, x := range u {
			if t[v] == nil {
				t[v] = make([]float64, len(x))
			}
			for i := range x {
				t[v][i] += x[i]
			}
		}
	}
	rec = func(n spn.SPN, N int, rows vset, vars []int) (tot, error) {
		if t, ok := memo[key{n, N}]; ok && rows == (vset{}) {
			return t, nil
		}
		t := tot{}
		if sc := scopeOf(n).vars(); len(sc) == 1 {
			v := sc[0]
			if r.cfg.g > 0 {
				z, ok := n.(*spn.Sum)
				if !ok {
					return nil, fmt.Errorf("variable %d is not a mixture", v)
				}
				size := utils.PartitionQuantiles(make([]int, N), r.cfg.g)
				if len(size) != len(z.Ch()) {
					return nil, fmt.Errorf("variable %d has %d gaussians for %d instances", v, len(z.Ch()), N)
				}
				x := []float64{0}
				for i, c := range z.Ch() {
					g, ok := c.(*spn.Gaussian)
					if !ok {
						return nil, fmt.Errorf("variable %d is a %T", v, c)
					}
					mu, _ := g.Params()
					x[0] += mu * size[i][2]
				}
				t[v] = x
			} else {
				m, ok := n.(*spn.Multinomial)
				if !ok || len(m.Pr()) != r.cat[v] {
					return nil, fmt.Errorf("variable %d is %T", v, n)
				}
				for _, p := range m.Pr() {
					c := p*float64(N+r.cat[v]) - 1
					if math.Abs(c-math.Round(c)) > 1e-6 || c < -1e-6 {
						return nil, fmt.Errorf("probabilities %v of variable %d are not counts of %d instances", m.Pr(), v, N)
					}
					t[v] = append(t[v], math.Round(c))
				}
			}
			memo[key{n, N}] = t
			return t, nil
		}
		if rows != (vset{}) {
			comps, clear := r.components(rows, vars)
			if clear && len(comps) > 1 {
				p, ok := n.(*spn.Product)
				if !ok || len(p.Ch()) != len(comps) {
					return nil, fmt.Errorf("independent groups %v are not the factors of a product", comps)
				}
				for _, c := range p.Ch() {
					cs := scopeOf(c)
					var found []int
					for _, g := range comps {
						if vsetOf(g) == cs {
							found = g
						}
					}
					if found == nil {
						return nil, fmt.Errorf("a factor over %v is not one of the independent groups %v", cs, comps)
					}
					u, err := rec(c, N, rows, found)
					if err != nil {
						return nil, err
					}
					add(t, u)
				}
				return t, nil
			}
			if clear && len(comps) == 1 {
				if s, ok := n.(*spn.Sum); ok && (len(s.Ch()) < 2 || (r.cfg.k > 0 && (N < r.cfg.k || len(s.Ch()) > r.cfg.k))) {
					return nil, fmt.Errorf("a sum of %d children for %d instances", len(s.Ch()), N)
				}
			}
		}
		switch z := n.(type) {
		case *spn.Product:
			for _, c := range z.Ch() {
				u, err := rec(c, N, vset{}, nil)
				if err != nil {
					return nil, err
				}
				add(t, u)
			}
		case *spn.Sum:
			k := 0
			for i, c := range z.Ch() {
				w := z.Weights()[i] * float64(N)
				size := int(math.Round(w))
				if size < 1 || math.Abs(w-float64(size)) > 1e-6 {
					return nil, fmt.Errorf("weights %v are not proportions of %d instances", z.Weights(), N)
				}
				k += size
				u, err := rec(c, size, vset{}, nil)
				if err != nil {
					return nil, err
				}
				add(t, u)
			}
			if k != N {
				return nil, fmt.Errorf("clusters of %d instances from %d", k, N)
			}
		}
		memo[key{n, N}] = t
		return t, nil
	}
	t, err := rec(root, len(r.D), rows, vars)
	if err != nil {
		return err
	}
	for _, v := range vars {
		var want []float64
		if r.cfg.g > 0 {
			want = []float64{0}
		} else {
			want = make([]float64, r.cat[v])
		}
		for _, I := range r.D {
			if r.cfg.g > 0 {
				want[0] += float64(I[v])
			} else {
				want[I[v]]++
			}
		}
		for i := range want {
			if !relEq(want[i], t[v][i]) && math.Abs(want[i]-t[v][i]) > 1e-9 {
				return fmt.Errorf("the leaves of variable %d stand for totals %v, the data have %v", v, t[v], want)
			}
		}
	}
	return nil
}

// match assigns the given clusters to the children.
func (r *gensRel) match(s *spn.Sum, i int, sets []vset, used vset, N int, vars []int) bool {
	if i == len(sets) {
		return true
	}
	for j, m := range sets {
		if used.has(j) {
			continue
		}
		next := used
		next.add(j)
		if relEq(s.Weights()[i], float64(m.count())/float64(N)) && r.learnable(s.Ch()[i], m, vars) && r.match(s, i+1, sets, next, N, vars) {
			return true
		}
	}
	return r.no("no assignment of clusters %v to weights %v", sets, s.Weights())
}

// split searches a division of the rows among the children.
func (r *gensRel) split(s *spn.Sum, i int, rest vset, N int, vars []int) bool {
	if i == len(s.Ch()) {
		return rest == vset{}
	}
	w := s.Weights()[i] * float64(N)
	size := int(math.Round(w))
	if size < 1 || !relEq(w, float64(size)) {
		return r.no("weights %v are not proportions of %d instances", s.Weights(), N)
	}
	// Only asked for few instances: the first word holds them.
	for sub := rest[0]; sub > 0; sub = (sub - 1) & rest[0] {
		if bits.OnesCount64(sub) == size && r.learnable(s.Ch()[i], vset{sub}, vars) && r.split(s, i+1, vset{rest[0] &^ sub}, N, vars) {
			return true
		}
	}
	return r.no("no division of the instances explains weights %v", s.Weights())
}

func gensScope(vars []int, cat map[int]int) map[int]*learn.Variable {
	m := map[int]*learn.Variable{}
	for _, v := range vars {
		m[v] = &learn.Variable{Varid: v, Categories: cat[v], Name: fmt.Sprintf("v%d", v)}
	}
	return m
}

func scopeUnchanged(sc map[int]*learn.Variable, vars []int, cat map[int]int) error {
	if len(sc) != len(vars) {
		return fmt.Errorf("the scope given now has %d variables", len(sc))
	}
	for _, v := range vars {
		if x := sc[v]; x == nil || x.Varid != v || x.Categories != cat[v] || x.Name != fmt.Sprintf("v%d", v) {
			return fmt.Errorf("the scope given was changed at variable %d: %v", v, x)
		}
	}
	return nil
}

// judgeGens judges a network learned from D.
func judgeGens(root spn.SPN, cfg gensCfg, D, E []map[int]int, sc map[int]*learn.Variable, vars []int, cat map[int]int) error {
	s, err := validNet(root, vars, true)
	if err != nil {
		return err
	}
	if !dataEq(D, E) {
		return fmt.Errorf("the data given were changed to %s", fmtD(E))
	}
	if err := scopeUnchanged(sc, vars, cat); err != nil {
		return err
	}
	r := &gensRel{cfg: cfg, D: D, cat: cat, memo: map[gensKey]bool{}}
	var full vset
	for i := range D {
		full.add(i)
	}
	if len(D) <= 6 || (cfg.k <= 0 && cfg.mp <= 1) {
		if !r.learnable(root, full, vars) {
			return fmt.Errorf("not learnable from the data: %s; network %v", r.why, s)
		}
	}
	if err := r.totals(root, full, vars); err != nil {
		return fmt.Errorf("%w; network %v", err, s)
	}
	if cfg.g > 0 {
		for _, I := range D {
			if v := spn.Inference(root, varset(cloneMap(I))); math.IsNaN(v) || math.IsInf(v, 0) {
				return fmt.Errorf("value of %s is %v", fmtI(I), v)
			}
		}
		return nil
	}
	t := 0.0
	space := 1.0
	for _, v := range vars {
		space *= float64(cat[v] + 1)
	}
	if space > 20000 {
		return nil // valid with normalised parts
	}
	enumEvidence(vars, func(v int) []int {
		r := make([]int, cat[v])
		for i := range r {
			r[i] = i
		}
		return r
	}, func(I map[int]int) {
		if len(I) == len(vars) {
			t += math.Exp(spn.Inference(root, varset(I)))
		}
	})
	if math.Abs(t-1) > 1e-9 {
		return fmt.Errorf("probabilities add up to %v", t)
	}
	return nil
}

func runGens(cfg gensCfg, procs int, sc map[int]*learn.Variable, E []map[int]int) spn.SPN {
	switch {
	case cfg.g > 0 && procs == 1:
		return gens.LearnGauss(sc, E, cfg.k, cfg.pval, cfg.eps, cfg.mp, cfg.g)
	case cfg.g > 0:
		return gens.LearnGaussConcurrent(sc, E, cfg.k, cfg.pval, cfg.eps, cfg.mp, cfg.g, procs)
	case procs == 1:
		return gens.Learn(sc, E, cfg.k, cfg.pval, cfg.eps, cfg.mp)
	case procs == -2:
		return gens.Binded(cfg.k, cfg.pval, cfg.eps, cfg.mp)(sc, toDataset(E))
	}
	return gens.LearnConcurrent(sc, E, cfg.k, cfg.pval, cfg.eps, cfg.mp, procs)
}

func checkC18(c *Ctx) {
	type mx struct{ rows, cols, vals int }
	mats := []mx{{1, 1, 2}, {3, 1, 3}, {1, 2, 2}, {2, 2, 2}, {3, 2, 2}, {4, 2, 2}, {5, 2, 2}, {2, 3, 2}, {3, 3, 2}, {3, 2, 3}}
	dev, limit := 1, 4
	if c.Thorough {
		mats = append(mats, mx{6, 2, 2}, mx{4, 3, 2}, mx{4, 2, 3}, mx{5, 3, 2})
		dev, limit = 2, 6
	}
	cfgs := []gensCfg{
		{2, .05, 0, 0, 0}, {2, .5, 0, 0, 0}, {3, .9, 0, 0, 0}, {1, .5, 0, 0, 0}, {-1, .5, 1, 1, 0}, {-1, .9, .5, 1, 0}, {0, .5, 1, 2, 0},
		{2, .5, 0, 0, 1}, {2, .5, 0, 0, 2}, {-1, .5, 1, 1, 2}, {3, .9, 0, 0, 3},
	}
	c.Bound("data sets", fmt.Sprint("all matrices of (instances, variables, values): ", mats))
	c.Bound("settings", fmt.Sprint(cfgs))
	c.Bound("random draws", fmt.Sprintf("first %d draws, up to %d departures from the default", limit, dev))
	c.Assume("beyond the explored draws the generator follows one fixed stream")
	c.Assume("the order in which Go iterates maps, which reorders the columns seen by k-means, is not enumerated; the verdict does not depend on it")
	all := []int{5, 0, 3}
	for _, m := range mats {
		vars := append([]int(nil), all[:m.cols]...)
		sort.Ints(vars)
		cat := map[int]int{}
		for i, v := range vars {
			cat[v] = m.vals
			if i == 1 && m.rows%2 == 1 {
				cat[v]++ // a category that never occurs
			}
		}
		for _, cfg := range cfgs {
			enumTuples(m.rows*m.cols, m.vals, func(x []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				M := make([][]int, m.rows)
				for i := range M {
					M[i] = append([]int(nil), x[i*m.cols:(i+1)*m.cols]...)
				}
				D := rowsToData(M, vars)
				c.Case(func() string { return fmt.Sprintf("%v, data %s", cfg, fmtD(D)) }, func() error {
					return c.c18(cfg, D, vars, cat, dev, limit)
				})
			})
		}
	}
	// Larger data sets.
	bigs := []mx{{8, 3, 3}, {10, 4, 2}, {12, 5, 3}, {20, 4, 4}, {16, 6, 2}, {30, 8, 3}, {40, 3, 5}, {60, 5, 2}, {6, 70, 2}, {24, 30, 2}, {70, 4, 3}, {140, 3, 4}, {300, 3, 3}, {20, 2, 300}}
	if c.Thorough {
		bigs = append(bigs, mx{60, 12, 3}, mx{50, 20, 2}, mx{64, 10, 6}, mx{13, 15, 4})
	}
	bigCfgs := append([]gensCfg{{4, .01, 0, 0, 0}, {-1, .05, 2, 1, 0}, {-1, .001, 3, 1, 4}, {5, .2, 0, 0, 4}, {-1, .9, 2, 3, 0}}, cfgs...)
	c.Bound("larger data sets", fmt.Sprintf("%d patterns of each of (instances, variables, values) %v with settings %v", patterns, bigs, bigCfgs))
	many := []int{7, 0, 33, 2, 61, 5, 12, 40, 3, 21, 50, 1, 44, 17, 6, 29, 58, 10, 36, 25}
	for i := len(many); i < 70; i++ {
		many = append(many, 4*i-i%3)
	}
	many[22], many[24], many[33] = 1000, 1<<16, 1<<32
	for _, m := range bigs {
		vars := append([]int(nil), many[:m.cols]...)
		sort.Ints(vars)
		cat := map[int]int{}
		for i, v := range vars {
			cat[v] = m.vals + i%2
		}
		for _, cfg := range bigCfgs {
			for pat := 0; pat < patterns; pat++ {
				if !c.Mine() {
					c.Skip()
					continue
				}
				D := rowsToData(patternRows(pat, m.rows, m.cols, m.vals), vars)
				cfg := cfg
				c.Case(func() string { return fmt.Sprintf("%v, data %s", cfg, fmtD(D)) }, func() error {
					return c.c18(cfg, D, vars, cat, 0, 4)
				})
			}
		}
	}
	// Interleavings of the concurrent learners.
	type prog struct {
		name  string
		cfg   gensCfg
		rows  [][]int
		procs int
		bound int
	}
	indepRows := [][]int{{0, 0, 0}, {0, 1, 0}, {1, 0, 1}, {1, 1, 1}}
	clustRows := [][]int{{0, 0, 0}, {0, 0, 0}, {1, 1, 1}, {1, 1, 1}}
	progs := []prog{
		{"independent groups, 2 at once", gensCfg{-1, .05, 1, 1, 0}, indepRows, 2, 2},
		{"independent groups, any number at once", gensCfg{-1, .05, 1, 1, 0}, indepRows, 0, 2},
		{"independent groups with clusters", gensCfg{2, .1, 1, 1, 0}, indepRows, 2, 1},
		{"clusters, 2 at once", gensCfg{-1, .5, 1, 1, 0}, clustRows, 2, 2},
		{"k-means clusters, 2 at once", gensCfg{2, .5, 1, 1, 0}, clustRows, 2, 1},
		{"gaussian groups, 2 at once", gensCfg{-1, .05, 1, 1, 2}, indepRows, 2, 2},
		{"clusters, any number at once", gensCfg{-1, .5, 1, 1, 0}, clustRows, -1, 1},
		{"gaussian groups, any number at once", gensCfg{-1, .05, 1, 1, 2}, indepRows, 0, 1},
		{"gaussian clusters, any number at once", gensCfg{-1, .5, 1, 1, 2}, clustRows, 0, 1},
		{"gaussian clusters, 3 at once", gensCfg{-1, .5, 1, 1, 1}, clustRows, 3, 2},
	}
	vars := []int{0, 3, 5}
		for _, p := range progs {
		p := p
		// With two categories the columns of clustRows are dependent; with five, nothing is, on so few instances.
		cat := map[int]int{0: 5, 3: 5, 5: 5}
		if p.rows[1][1] == 0 {
			cat = map[int]int{0: 2, 3: 2, 5: 2}
		}
		if c.Thorough {
			p.bound++
		}
		D := rowsToData(p.rows, vars)
		c.schedules(driver{p.name, p.bound, 8, func() (func(), func() error) {
			E := cloneData(D)
			sc := gensScope(vars, cat)
			sys.Random = rand.New(rand.NewSource(7))
			vrand.Restart()
			vrand.Stream = true
			var S spn.SPN
			return func() { S = runGens(p.cfg, p.procs, sc, E) }, func() error {
				vrand.Stream = false
				return judgeGens(S, p.cfg, D, E, sc, vars, cat)
			}
		}})
	}
	vrand.Stream = false
}

func (c *Ctx) c18(cfg gensCfg, D []map[int]int, vars []int, cat map[int]int, dev, limit int) error {
	vals := permChoices()
	for _, procs := range []int{1, -2, 2} {
		if procs == -2 && cfg.g > 0 {
			continue
		}
		d := dev
		if procs != 1 {
			d = 0
		}
		runs, capped, err := exploreChoices(d, limit, 20000, func(t *tape) (e error) {
			E := cloneData(D)
			sc := gensScope(vars, cat)
			body := func() {
				S := runGens(cfg, procs, sc, E)
				e = judgeGens(S, cfg, D, E, sc, vars, cat)
			}
			if procs == 2 {
				// Threads draw from the stream; it is not branched on here.
				vrand.Restart()
				vrand.Stream = true
				defer func() { vrand.Stream = false }()
				sys.RefreshRandom(7)
				body()
				return
			}
			withRandom(t, vals, body)
			return
		})
		c.Trans(runs)
		c.Trace(runs)
		if capped {
			c.Cap("random outcomes")
		}
		if err != nil {
			return fmt.Errorf("variant %d: %w", procs, err)
		}
	}
	c.State(1)
	return nil
}

// ---------------------------------------------------------------- C19

func checkC19(c *Ctx) {
	type mx struct{ rows, cols, vals int }
	mats := []mx{{1, 2, 3}, {2, 2, 3}, {3, 2, 2}, {1, 3, 3}, {2, 3, 2}, {1, 4, 2}, {2, 4, 2}, {3, 3, 2}}
	dev, limit := 1, 6
	if c.Thorough {
		mats = append(mats, mx{2, 3, 3}, mx{3, 4, 2}, mx{1, 5, 2}, mx{2, 5, 2}, mx{1, 6, 2})
		dev, limit = 2, 8
	}
	type cfg struct {
		k, m, g int
		t       float64
	}
	cfgs := []cfg{{1, 1, 1, .8}, {1, 2, 2, 0}, {2, 2, 1, .4}, {2, 2, 2, .95}, {0, 1, 2, .5}, {-1, 2, 1, 1}, {3, 1, 4, .3}}
	c.Bound("data sets", fmt.Sprint("all matrices of (instances, pixels, values): ", mats))
	c.Bound("settings (clusters, sums per region, gaussians per pixel, similarity)", fmt.Sprint(cfgs))
	c.Bound("random draws", fmt.Sprintf("first %d draws, up to %d departures from the default", limit, dev))
	c.Assume("beyond the explored draws the generator follows one fixed stream")
	big := []mx{{4, 4, 3}, {5, 5, 3}, {6, 6, 3}, {8, 7, 4}, {12, 8, 3}, {9, 9, 5}, {20, 5, 3}, {4, 12, 4}, {3, 66, 4}}
	if c.Thorough {
		big = append(big, mx{30, 10, 4}, mx{10, 16, 5}, mx{50, 6, 6}, mx{15, 20, 3})
	}
	c.Bound("larger data sets", fmt.Sprintf("%d patterns of each of (instances, pixels, values) %v", patterns, big))
	judge := func(m mx, f cfg, M [][]int, dev int) {
		vars := make([]int, m.cols)
		cat := map[int]int{}
		for i := range vars {
			vars[i] = i
			cat[i] = 9
		}
		D := rowsToData(M, vars)
		c.Case(func() string { return fmt.Sprintf("setting %v, data %s", f, fmtD(D)) }, func() error {
			for learnt := 0; learnt < 3; learnt++ {
				d := dev
				if learnt > 0 {
					d = 0
				}
				runs, capped, err := exploreChoices(d, limit, 20000, func(t *tape) (e error) {
					E := cloneData(D)
					sc := gensScope(vars, cat)
					withRandom(t, permChoices(), func() {
						var S spn.SPN
						if learnt == 0 {
							S = dennis.Structure(toDataset(E), sc, f.k, f.m, f.g, f.t)
						} else {
							P := parameters.New(true, false, .01, parameters.HardGD, .1, 1, learnt-1+2*(learnt-1), .01, 2)
							if learnt == 1 {
								P.LearningType = parameters.SoftGD
							}
							S = dennis.LearnGD(toDataset(E), sc, f.k, f.m, f.g, f.t, P, 0)
							parameters.Unbind(S)
						}
						if e = judgeImage(S, vars, cat, D, E, sc); e == nil {
							e = judgeDennis(S, f.m, f.g, D, vars)
						}
					})
					return
				})
				c.Trans(runs)
				c.Trace(runs)
				if capped {
					c.Cap("random outcomes")
				}
				if err != nil {
					return fmt.Errorf("variant %d: %w", learnt, err)
				}
			}
			c.State(1)
			return nil
		})
	}
	for _, m := range mats {
		for _, f := range cfgs {
			if f.k > m.rows {
				continue // the clustering needs as many instances as clusters
			}
			f := f
			enumTuples(m.rows*m.cols, m.vals, func(x []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				M := make([][]int, m.rows)
				for i := range M {
					M[i] = append([]int(nil), x[i*m.cols:(i+1)*m.cols]...)
					for j := range M[i] {
						M[i][j] *= 3
					}
				}
				judge(m, f, M, dev)
			})
		}
	}
	for _, m := range big {
		for _, f := range cfgs {
			for pat := 0; pat < patterns; pat++ {
				if !c.Mine() {
					c.Skip()
					continue
				}
				d := 1
				if m.rows*m.cols > 30 {
					d = 0
				}
				judge(m, f, patternRows(pat, m.rows, m.cols, m.vals), d)
			}
		}
	}
}

func judgeDennis(S spn.SPN, m, g int, D []map[int]int, vars []int) error {
	s, _, err := specOf(S)
	if err != nil {
		return err
	}
	if err := judgePartitions(s, m, true); err != nil {
		return err
	}
	for _, v := range vars {
		var X []int
		for _, I := range D {
			X = append(X, I[v])
		}
		mu, sg := s.leavesOf(v)
		n := g
		if n > len(D) {
			n = 1
		}
		if err := gaussMoments(mu, sg, X, n); err != nil {
			return fmt.Errorf("pixel %d: %w", v, err)
		}
	}
	return nil
}

func judgeImage(S spn.SPN, vars []int, cat map[int]int, D, E []map[int]int, sc map[int]*learn.Variable) error {
	s, err := validNet(S, vars, true)
	if err != nil {
		return err
	}
	if !dataEq(D, E) {
		return fmt.Errorf("the data given were changed to %s", fmtD(E))
	}
	if sc != nil {
		if err := scopeUnchanged(sc, vars, cat); err != nil {
			return err
		}
	}
	for _, I := range append(cloneData(D), map[int]int{}) {
		v := spn.Inference(S, varset(I))
		if math.IsNaN(v) || math.IsInf(v, 1) {
			return fmt.Errorf("value of %s is %v", fmtI(I), v)
		}
		if w := s.eval(I)[len(s)-1].log(); !logEq(v, w) {
			return fmt.Errorf("value of %s is %v, want %v", fmtI(I), v, w)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C20

func checkC20(c *Ctx) {
	ow, oh, om := sys.Width, sys.Height, sys.Max
	defer func() { sys.Width, sys.Height, sys.Max = ow, oh, om }()
	maxSide := 12
	if c.Thorough {
		maxSide = 20
	}
	c.Bound("rectangle codes", fmt.Sprintf("all rectangles of all images up to %d by %d, and of 46 by 56, and the rectangles between the first, last and middle corners of images up to 10000 by 10000", maxSide, maxSide))
	var sizes [][2]int
	for w := 1; w <= maxSide; w++ {
		for h := 1; h <= maxSide; h++ {
			sizes = append(sizes, [2]int{w, h})
		}
	}
	sizes = append(sizes, [2]int{46, 56}, [2]int{100, 3}, [2]int{3, 100})
	for _, w := range []int{1, 2, 28, 64, 100, 255, 256, 300, 1000, 4096, 10000} {
		for _, h := range []int{1, 3, 28, 64, 112, 255, 256, 640, 1000, 4096, 10000} {
			sizes = append(sizes, [2]int{w, h})
		}
	}
	for _, z := range sizes {
		z := z
		c.Case(func() string { return fmt.Sprintf("codes of %v", z) }, func() error { return c.c20codes(z[0], z[1]) })
	}
	type img struct{ w, h, r int }
	imgs := []img{{2, 1, 1}, {1, 2, 1}, {2, 2, 1}, {2, 2, 2}, {3, 1, 1}, {1, 3, 1}, {3, 2, 1}, {4, 2, 2}, {2, 4, 2}, {3, 3, 3}, {4, 1, 1},
		{3, 3, 1}, {4, 4, 2}, {4, 4, 1}, {4, 4, 4}, {6, 3, 3}, {2, 6, 2}, {5, 1, 1}, {1, 7, 1}, {6, 6, 3}, {6, 4, 2}, {8, 4, 4}, {5, 5, 5}, {5, 3, 1}, {12, 6, 6}, {18, 4, 2}, {9, 9, 9}}
	rowsMax := 4
	dev, limit := 1, 10
	if c.Thorough {
		imgs = append(imgs, img{8, 8, 4}, img{8, 8, 2}, img{5, 6, 1}, img{7, 7, 7}, img{12, 5, 1})
		rowsMax, limit = 8, 24
	}
	c.Bound("images (width, height, resolution)", fmt.Sprint(imgs))
	c.Bound("data sets", fmt.Sprintf("all of up to two instances with pixel values in {0, 3} where there are at most 4 pixels, else patterned ones of up to %d instances", 3*rowsMax))
	c.Bound("random draws", fmt.Sprintf("first %d draws, up to %d departures from the default", limit, dev))
	c.Assume("beyond the explored draws the generator follows one fixed stream; resolutions that do not divide both sides are not admissible")
	type cfg struct{ m, g int }
	cfgs := []cfg{{1, 1}, {2, 1}, {2, 2}, {3, 4}}
	for _, z := range imgs {
		z := z
		n := z.w * z.h
		var sets [][]map[int]int
		vars := make([]int, n)
		for i := range vars {
			vars[i] = i
		}
		if n <= 4 {
			for rows := 1; rows <= 2; rows++ {
				enumTuples(rows*n, 2, func(x []int) {
					M := make([][]int, rows)
					for i := range M {
						for _, v := range x[i*n : (i+1)*n] {
							M[i] = append(M[i], 3*v)
						}
					}
					sets = append(sets, rowsToData(M, vars))
				})
			}
		} else {
			for rows := 1; rows <= rowsMax; rows++ {
				if n > 64 && rows > 2 {
					break
				}
				for pat := 0; pat < patterns; pat++ {
					if n > 64 && pat%2 == 0 {
						continue
					}
					sets = append(sets, rowsToData(patternRows(pat, 3*rows, n, 6), vars))
				}
				for pat := 0; pat < 6 && n <= 64; pat++ {
					M := make([][]int, rows)
					for i := range M {
						for j := 0; j < n; j++ {
							M[i] = append(M[i], []int{0, j, i + j, (i * j) % 3, 7 - j, (j/z.w + i) % 2 * 5}[pat])
						}
					}
					sets = append(sets, rowsToData(M, vars))
				}
			}
		}
		for _, f := range cfgs {
			f := f
			for _, D := range sets {
				D := D
				if !c.Mine() {
					c.Skip()
					continue
				}
				c.Case(func() string { return fmt.Sprintf("image %v, setting %v, data %s", z, f, fmtD(D)) }, func() error {
					sys.Width, sys.Height, sys.Max = z.w, z.h, 9
					wd, _ := os.Getwd()
					os.Chdir(c.Scratch)
					defer os.Chdir(wd)
					for variant := 0; variant < 2; variant++ {
						d := dev
						if variant > 0 || n*len(D) > 40 {
							d = 0
						}
						runs, capped, err := exploreChoices(d, limit, 50000, func(t *tape) (e error) {
							E := cloneData(D)
							withRandom(t, intChoices(3), func() {
								var S spn.SPN
								if variant == 0 {
									S = poon.Structure(toDataset(E), f.m, f.g, z.r)
								} else {
									S = poon.LearnGD(toDataset(E), f.m, f.g, z.r, .1, 1)
								}
								s, err := validNet(S, vars, variant == 1)
								if err != nil {
									e = err
									return
								}
								if !dataEq(D, E) {
									e = fmt.Errorf("the data given were changed to %s", fmtD(E))
									return
								}
								if e = judgePoon(s, z.w, z.h, z.r, f.m, f.g, D); e != nil {
									return
								}
								if variant == 0 {
									spn.NormalizeSPN(S)
									if s, e = validNet(S, vars, true); e != nil {
										return
									}
								}
								for _, I := range append(cloneData(D), map[int]int{}) {
									v := spn.Inference(S, varset(I))
									if w := s.eval(I)[len(s)-1].log(); math.IsNaN(v) || !logEq(v, w) {
										e = fmt.Errorf("value of %s is %v, want %v", fmtI(I), v, w)
										return
									}
								}
							})
							return
						})
						c.Trans(runs)
						c.Trace(runs)
						if capped {
							c.Cap("random outcomes")
						}
						if err != nil {
							return fmt.Errorf("variant %d: %w", variant, err)
						}
					}
					c.State(1)
					return nil
				})
			}
		}
	}
}

// judgePoon judges that the network is made of cuts of rectangles.
func judgePoon(s spec, w, h, r, m, g int, D []map[int]int) error {
	if err := judgePartitions(s, m, false); err != nil {
		return err
	}
	sc := s.scopes()
	rect := map[vset][4]int{}
	for x1 := 0; x1 < w; x1++ {
		for y1 := 0; y1 < h; y1++ {
			for x2 := x1 + 1; x2 <= w; x2++ {
				for y2 := y1 + 1; y2 <= h; y2++ {
					var b vset
					for y := y1; y < y2; y++ {
						for x := x1; x < x2; x++ {
							b.add(y*w + x)
						}
					}
					rect[b] = [4]int{x1, y1, x2, y2}
				}
			}
		}
	}
	for i, n := range s {
		q, ok := rect[sc[i]]
		if !ok {
			return fmt.Errorf("node %d over %v is no rectangle", i, sc[i])
		}
		if n.Kind != 'P' {
			continue
		}
		// Rectangles that do not lie within one block are cut between blocks only.
		a, b := rect[sc[n.Ch[0]]], rect[sc[n.Ch[1]]]
		if q[2]-q[0] > r || q[3]-q[1] > r {
			for _, v := range append(a[:], b[:]...) {
				if v%r != 0 {
					return fmt.Errorf("rectangle %v is cut into %v and %v, with blocks of %d", q, a, b, r)
				}
			}
		}
	}
	for v := 0; v < w*h; v++ {
		var X []int
		for _, I := range D {
			X = append(X, I[v])
		}
		sort.Ints(X)
		Q := utils.PartitionQuantiles(X, g)
		mu, sg := s.leavesOf(v)
		if len(mu) > len(Q) {
			return fmt.Errorf("pixel %d has %d leaves", v, len(mu))
		}
		for i := range mu {
			ok := false
			for _, q := range Q {
				ok = ok || relEq(q[0], mu[i]) && relEq(q[1], sg[i])
			}
			if !ok {
				return fmt.Errorf("pixel %d has a leaf with mean %v and deviation %v, quantiles of its values %v are %v", v, mu[i], sg[i], X, Q)
			}
		}
	}
	return nil
}

func (c *Ctx) c20codes(w, h int) error {
	// The coder takes the image size when a structure is built: build the smallest one.
	sys.Width, sys.Height, sys.Max = w, h, 9
	if err := setPoonSize(w, h); err != nil {
		return err
	}
	// All corners of small images; first, last and middle ones of large images.
	coords := func(n int) (r []int) {
		for i := 0; i <= n; i++ {
			if n <= 60 || i < 3 || i > n-3 || (i >= n/2-1 && i <= n/2+1) || i == 255 || i == 256 || i == 257 {
				r = append(r, i)
			}
		}
		return
	}
	X, Y := coords(w), coords(h)
	seen := make(map[uint64][4]int)
	for i, x1 := range X {
		for j, y1 := range Y {
			for _, x2 := range X[i+1:] {
				for _, y2 := range Y[j+1:] {
					k := poon.Encode(x1, y1, x2, y2)
					if o, dup := seen[k]; dup {
						return fmt.Errorf("rectangles %v and %v have the same code %d", o, [4]int{x1, y1, x2, y2}, k)
					}
					seen[k] = [4]int{x1, y1, x2, y2}
					a, b, d, e := poon.Decode(k)
					if a != x1 || b != y1 || d != x2 || e != y2 {
						return fmt.Errorf("rectangle %v decodes to %v", [4]int{x1, y1, x2, y2}, [4]int{a, b, d, e})
					}
				}
			}
		}
	}
	c.State(len(seen))
	c.Trans(2 * len(seen))
	c.Trace(1)
	c.Outcome(fmt.Sprint(len(seen)))
	return nil
}

// setPoonSize makes the package adopt the image size. Building with a resolution that does not fit
// stops right after the size was adopted, without work; its failure is expected and ignored.
func setPoonSize(w, h int) (err error) {
	defer func() { recover() }()
	poon.Structure(spn.Dataset{}, 1, 1, w+h+1)
	return nil
}
