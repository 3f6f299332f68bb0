package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/spn"
)

// ---- non-negative extended-range numbers: m * 2^e, so that the oracle never under- or overflows.

type xf struct {
	m float64 // 0 or in [0.5,1)
	e int
}

func xof(v float64) xf {
	if v == 0 {
		return xf{}
	}
	m, e := math.Frexp(v)
	return xf{m, e}
}

// xexp is exp(l).
func xexp(l float64) xf {
	if math.IsInf(l, -1) {
		return xf{}
	}
	k := math.Floor(l / math.Ln2)
	r := xof(math.Exp(l - k*math.Ln2))
	r.e += int(k)
	return r
}

func (a xf) mul(b xf) xf {
	if a.m == 0 || b.m == 0 {
		return xf{}
	}
	r := xof(a.m * b.m)
	r.e += a.e + b.e
	return r
}

func (a xf) add(b xf) xf {
	if a.m == 0 {
		return b
	}
	if b.m == 0 {
		return a
	}
	if a.e < b.e {
		a, b = b, a
	}
	r := xof(a.m + math.Ldexp(b.m, b.e-a.e))
	r.e += a.e
	return r
}

func (a xf) less(b xf) bool {
	if a.m == 0 || b.m == 0 {
		return a.m < b.m
	}
	if a.e != b.e {
		return a.e < b.e
	}
	return a.m < b.m
}

func (a xf) log() float64 {
	if a.m == 0 {
		return math.Inf(-1)
	}
	return math.Log(a.m) + float64(a.e)*math.Ln2
}

func (a xf) float() float64 { return math.Ldexp(a.m, a.e) }

// ---- specifications of networks, independent of the code under test.

type leafSpec struct {
	Kind  byte // 'M' multinomial, 'I' indicator, 'G' gaussian
	Var   int
	Pr    []float64
	Val   int
	Mu, S float64
}

func (l leafSpec) String() string {
	switch l.Kind {
	case 'M':
		return fmt.Sprintf("M(x%d;%v)", l.Var, l.Pr)
	case 'I':
		return fmt.Sprintf("I(x%d=%d)", l.Var, l.Val)
	}
	return fmt.Sprintf("G(x%d;%v,%v)", l.Var, l.Mu, l.S)
}

// prob is the leaf's density at v.
func (l leafSpec) prob(v int) xf {
	switch l.Kind {
	case 'M':
		return xof(l.Pr[v])
	case 'I':
		if v == l.Val {
			return xof(1)
		}
		return xf{}
	}
	if l.S == 0 {
		if float64(v) == math.Trunc(l.Mu) {
			return xof(1)
		}
		return xf{}
	}
	d := (float64(v) - l.Mu) / l.S
	return xexp(-d*d/2 - math.Log(l.S) - math.Log(2*math.Pi)/2)
}

// best is the leaf's maximal density.
func (l leafSpec) best() xf {
	switch l.Kind {
	case 'M':
		r := xf{}
		for _, p := range l.Pr {
			if r.less(xof(p)) {
				r = xof(p)
			}
		}
		return r
	case 'I':
		return xof(1)
	}
	if l.S == 0 {
		return xof(1)
	}
	return xexp(-math.Log(l.S) - math.Log(2*math.Pi)/2)
}

type nodeSpec struct {
	Kind byte // 'S', 'P', 'L'
	Ch   []int
	W    []float64
	Leaf leafSpec
}

// spec is a network: children come before parents, the root is last.
type spec []nodeSpec

func (s spec) String() string {
	var b strings.Builder
	for i, n := range s {
		if i > 0 {
			b.WriteString("; ")
		}
		switch n.Kind {
		case 'L':
			fmt.Fprintf(&b, "%d=%v", i, n.Leaf)
		case 'S':
			fmt.Fprintf(&b, "%d=sum%v w=%v", i, n.Ch, n.W)
		default:
			fmt.Fprintf(&b, "%d=prod%v", i, n.Ch)
		}
	}
	return b.String()
}

func buildLeaf(l leafSpec) spn.SPN {
	switch l.Kind {
	case 'M':
		return spn.NewMultinomial(l.Var, append([]float64(nil), l.Pr...))
	case 'I':
		return spn.NewIndicator(l.Var, l.Val)
	}
	return spn.NewGaussianParams(l.Var, l.Mu, l.S)
}

// build makes the real network and returns all its nodes, root last.
func (s spec) build() []spn.SPN {
	r := make([]spn.SPN, len(s))
	for i, n := range s {
		switch n.Kind {
		case 'L':
			r[i] = buildLeaf(n.Leaf)
		case 'S':
			z := spn.NewSum()
			for j, c := range n.Ch {
				z.AddChildW(r[c], n.W[j])
			}
			r[i] = z
		default:
			z := spn.NewProduct()
			for _, c := range n.Ch {
				z.AddChild(r[c])
			}
			r[i] = z
		}
	}
	return r
}

// eval is the oracle for the value of each node under the evidence.
func (s spec) eval(I map[int]int) []xf {
	r := make([]xf, len(s))
	for i, n := range s {
		switch n.Kind {
		case 'L':
			if v, ok := I[n.Leaf.Var]; ok {
				r[i] = n.Leaf.prob(v)
			} else {
				r[i] = xof(1)
			}
		case 'S':
			for j, c := range n.Ch {
				r[i] = r[i].add(xof(n.W[j]).mul(r[c]))
			}
		default:
			r[i] = xof(1)
			for _, c := range n.Ch {
				r[i] = r[i].mul(r[c])
			}
		}
	}
	return r
}

// evalMax is the oracle for the max-product value of each node.
func (s spec) evalMax(I map[int]int) []xf {
	r := make([]xf, len(s))
	for i, n := range s {
		switch n.Kind {
		case 'L':
			if v, ok := I[n.Leaf.Var]; ok {
				r[i] = n.Leaf.prob(v)
			} else {
				r[i] = n.Leaf.best()
			}
		case 'S':
			for j, c := range n.Ch {
				if t := xof(n.W[j]).mul(r[c]); r[i].less(t) {
					r[i] = t
				}
			}
		default:
			r[i] = xof(1)
			for _, c := range n.Ch {
				r[i] = r[i].mul(r[c])
			}
		}
	}
	return r
}

// derive is the oracle for the derivative of the root with respect to each node, and for each sum
// the derivatives with respect to its weights.
func (s spec) derive(I map[int]int) (val, d []xf, dw [][]xf) {
	val = s.eval(I)
	d = make([]xf, len(s))
	dw = make([][]xf, len(s))
	d[len(s)-1] = xof(1)
	for i := len(s) - 1; i >= 0; i-- {
		n := s[i]
		switch n.Kind {
		case 'S':
			dw[i] = make([]xf, len(n.Ch))
			for j, c := range n.Ch {
				d[c] = d[c].add(xof(n.W[j]).mul(d[i]))
				dw[i][j] = val[c].mul(d[i])
			}
		case 'P':
			for j, c := range n.Ch {
				t := d[i]
				for k, o := range n.Ch {
					if k != j {
						t = t.mul(val[o])
					}
				}
				d[c] = d[c].add(t)
			}
		}
	}
	return
}

// vset is a set of variables. Those with small numbers have their own bit, the others one each as they are met.
type vset [8]uint64

const smallVars = 448

var (
	largeBit  = map[int]int{}
	largeVars []int
)

func (a *vset) add(v int) {
	b := v
	if v < 0 || v >= smallVars {
		var ok bool
		if b, ok = largeBit[v]; !ok {
			b = smallVars + len(largeVars)
			largeBit[v] = b
			largeVars = append(largeVars, v)
		}
	}
	a[b/64] |= 1 << uint(b%64)
}

func (a vset) or(b vset) vset {
	for i := range a {
		a[i] |= b[i]
	}
	return a
}

func (a vset) meets(b vset) bool {
	for i := range a {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (a vset) has(v int) bool {
	var b vset
	b.add(v)
	return a.meets(b)
}

func (a vset) count() (n int) {
	for _, x := range a {
		n += bits.OnesCount64(x)
	}
	return
}

func (a vset) less(b vset) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// vars lists the set in order.
func (a vset) vars() []int {
	r := []int{}
	for i := range a {
		for x := a[i]; x != 0; x &= x - 1 {
			b := i*64 + bits.TrailingZeros64(x)
			if b >= smallVars {
				b = largeVars[b-smallVars]
			}
			r = append(r, b)
		}
	}
	sort.Ints(r)
	return r
}

func (a vset) String() string { return fmt.Sprint(a.vars()) }

func vsetOf(vars []int) (a vset) {
	for _, v := range vars {
		a.add(v)
	}
	return
}

// scopes is the set of variables below each node.
func (s spec) scopes() []vset {
	r := make([]vset, len(s))
	for i, n := range s {
		if n.Kind == 'L' {
			r[i].add(n.Leaf.Var)
		}
		for _, c := range n.Ch {
			r[i] = r[i].or(r[c])
		}
	}
	return r
}

func (s spec) complete() bool {
	sc := s.scopes()
	for i, n := range s {
		if n.Kind == 'S' {
			for _, c := range n.Ch {
				if sc[c] != sc[i] {
					return false
				}
			}
		}
	}
	return true
}

func (s spec) decomposable() bool {
	sc := s.scopes()
	for _, n := range s {
		if n.Kind == 'P' {
			var u vset
			for _, c := range n.Ch {
				if u.meets(sc[c]) {
					return false
				}
				u = u.or(sc[c])
			}
		}
	}
	return true
}

func (s spec) normalised() bool {
	for _, n := range s {
		switch n.Kind {
		case 'S':
			t := 0.0
			for _, w := range n.W {
				t += w
			}
			if math.Abs(t-1) > 1e-12 {
				return false
			}
		case 'L':
			if n.Leaf.Kind == 'M' {
				t := 0.0
				for _, w := range n.Leaf.Pr {
					t += w
				}
				if math.Abs(t-1) > 1e-12 {
					return false
				}
			}
		}
	}
	return true
}

// heights is the longest distance from each node to a leaf.
func (s spec) heights() []int {
	r := make([]int, len(s))
	for i, n := range s {
		for _, c := range n.Ch {
			r[i] = max(r[i], r[c]+1)
		}
	}
	return r
}

// vars is the sorted list of variables and, for each, the number of values to enumerate.
func (s spec) vars() []int {
	m := map[int]bool{}
	for _, n := range s {
		if n.Kind == 'L' {
			m[n.Leaf.Var] = true
		}
	}
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// ---- graph enumeration

type shape struct {
	leaves, internals int
	ch                [][]int // children of the internals
}

// enumShapes yields every graph with the given number of leaves and internal nodes in which every
// node is reachable from the last one, with at most maxCh distinct children per node. If ordered,
// every order of children is produced, otherwise ascending order only.
// With multi, children may repeat, and only graphs in which some child does are produced.
func enumShapes(leaves, internals, maxCh int, ordered, multi bool, yield func(shape)) {
	if internals == 0 {
		if leaves == 1 {
			yield(shape{1, 0, nil})
		}
		return
	}
	ch := make([][]int, internals)
	var rec func(i int)
	rec = func(i int) {
		if i == internals {
			n := leaves + internals
			seen := make([]bool, n)
			seen[n-1] = true
			for k := n - 1; k >= leaves; k-- {
				if !seen[k] {
					return
				}
				for _, c := range ch[k-leaves] {
					seen[c] = true
				}
			}
			for k := 0; k < leaves; k++ {
				if !seen[k] {
					return
				}
			}
			if multi {
				rep := false
				for _, l := range ch {
					for a := range l {
						for b := 0; b < a; b++ {
							rep = rep || l[a] == l[b]
						}
					}
				}
				if !rep {
					return
				}
			}
			cp := make([][]int, internals)
			for k := range ch {
				cp[k] = append([]int(nil), ch[k]...)
			}
			yield(shape{leaves, internals, cp})
			return
		}
		lim := leaves + i
		var sub func(cur []int)
		sub = func(cur []int) {
			if len(cur) > 0 {
				ch[i] = append([]int(nil), cur...)
				rec(i + 1)
			}
			if len(cur) == maxCh {
				return
			}
			for c := 0; c < lim; c++ {
				ok := true
				for _, d := range cur {
					if (d == c && !multi) || (!ordered && d > c) {
						ok = false
						break
					}
				}
				if ok {
					sub(append(cur[:len(cur):len(cur)], c))
				}
			}
		}
		sub(nil)
	}
	rec(0)
}

// enumCombs yields all non-decreasing index sequences of length n over [0,k).
func enumCombs(n, k int, yield func([]int)) {
	cur := make([]int, n)
	var rec func(i, lo int)
	rec = func(i, lo int) {
		if i == n {
			yield(cur)
			return
		}
		for v := lo; v < k; v++ {
			cur[i] = v
			rec(i+1, v)
		}
	}
	rec(0, 0)
}

// enumTuples yields all sequences of length n over [0,k).
func enumTuples(n, k int, yield func([]int)) {
	cur := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			yield(cur)
			return
		}
		for v := 0; v < k; v++ {
			cur[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

type specCfg struct {
	maxLeaves, maxInternals, maxNodes, maxCh int
	ordered                                  bool
	multi                                    bool // only graphs in which a node has the same child twice
	reverse                                  bool // also produce each graph with descending child order
	menu                                     []leafSpec
	weights                                  []func(node, arity int) []float64
}

// enumSpecs yields every specification within the bounds, smallest first.
func enumSpecs(cfg specCfg, yield func(spec)) {
	for total := 1; total <= cfg.maxNodes; total++ {
		for in := 0; in <= cfg.maxInternals; in++ {
			lv := total - in
			if lv < 1 || lv > cfg.maxLeaves {
				continue
			}
			enumShapes(lv, in, cfg.maxCh, cfg.ordered, cfg.multi, func(sh shape) {
				revs := 1
				if cfg.reverse && in > 0 {
					revs = 2
				}
				for rev := 0; rev < revs; rev++ {
					enumCombs(lv, len(cfg.menu), func(lf []int) {
						for kinds := 0; kinds < 1<<uint(in); kinds++ {
							for wi, wf := range cfg.weights {
								if wi > 0 && kinds == 0 {
									break // no sum node: weights do not matter
								}
								s := make(spec, 0, lv+in)
								for _, l := range lf {
									s = append(s, nodeSpec{Kind: 'L', Leaf: cfg.menu[l]})
								}
								for k, ch := range sh.ch {
									c := append([]int(nil), ch...)
									if rev == 1 {
										for a, b := 0, len(c)-1; a < b; a, b = a+1, b-1 {
											c[a], c[b] = c[b], c[a]
										}
									}
									n := nodeSpec{Kind: 'P', Ch: c}
									if kinds>>uint(k)&1 == 1 {
										n.Kind = 'S'
										n.W = wf(k, len(c))
									}
									s = append(s, n)
								}
								yield(s)
							}
						}
					})
				}
			})
		}
	}
}

// enumEvidence yields every assignment of the variables in which each is unset or takes one of
// vals[v] (a map that the callee may keep).
func enumEvidence(vars []int, vals func(v int) []int, yield func(map[int]int)) {
	var rec func(i int, cur map[int]int)
	rec = func(i int, cur map[int]int) {
		if i == len(vars) {
			cp := make(map[int]int, len(cur))
			for k, v := range cur {
				cp[k] = v
			}
			yield(cp)
			return
		}
		rec(i+1, cur)
		for _, x := range vals(vars[i]) {
			cur[vars[i]] = x
			rec(i+1, cur)
		}
		delete(cur, vars[i])
	}
	rec(0, map[int]int{})
}

// ---- comparisons

const tol = 1e-9

// logEq compares log values.
func logEq(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(b))
}

// almost is a coarse logEq: alternatives a careless comparison may take for equal.
func almost(a, b float64) bool { return logEq(a, b) || math.Abs(a-b) < .01 }

// relEq compares linear values.
func relEq(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(1e-3, math.Max(math.Abs(a), math.Abs(b)))
}

func mapEq(a, b map[int]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func cloneMap(a map[int]int) map[int]int {
	r := make(map[int]int, len(a))
	for k, v := range a {
		r[k] = v
	}
	return r
}

func cloneData(D []map[int]int) []map[int]int {
	r := make([]map[int]int, len(D))
	for i := range D {
		r[i] = cloneMap(D[i])
	}
	return r
}

func dataEq(a, b []map[int]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !mapEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func intsEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fmtI(m map[int]int) string {
	k := []int{}
	for v := range m {
		k = append(k, v)
	}
	sort.Ints(k)
	var b strings.Builder
	b.WriteByte('{')
	for i, v := range k {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "x%d=%d", v, m[v])
	}
	b.WriteByte('}')
	return b.String()
}

// intact checks that the real network still has the shape, weights and leaf parameters of the spec.
func (s spec) intact(nodes []spn.SPN) error {
	for i, n := range s {
		z := nodes[i]
		ch := z.Ch()
		if len(ch) != len(n.Ch) {
			return fmt.Errorf("node %d now has %d children, had %d", i, len(ch), len(n.Ch))
		}
		for j, c := range n.Ch {
			if ch[j] != nodes[c] {
				return fmt.Errorf("child %d of node %d changed", j, i)
			}
		}
		switch n.Kind {
		case 'S':
			W := z.(*spn.Sum).Weights()
			if len(W) != len(n.W) {
				return fmt.Errorf("node %d now has %d weights", i, len(W))
			}
			for j := range W {
				if W[j] != n.W[j] {
					return fmt.Errorf("weight %d of node %d changed from %v to %v", j, i, n.W[j], W[j])
				}
			}
		case 'L':
			if err := leafIs(z, n.Leaf, true); err != nil {
				return fmt.Errorf("leaf %d: %v", i, err)
			}
		}
	}
	return nil
}

// leafIs checks a real leaf against its specification.
func leafIs(z spn.SPN, l leafSpec, exact bool) error {
	eq := func(a, b float64) bool {
		if exact {
			return a == b
		}
		return relEq(a, b)
	}
	sc := z.Sc()
	if len(sc) != 1 || sc[0] != l.Var {
		return fmt.Errorf("scope %v, want [%d]", sc, l.Var)
	}
	switch l.Kind {
	case 'M':
		m, ok := z.(*spn.Multinomial)
		if !ok {
			return fmt.Errorf("is a %T", z)
		}
		pr := m.Pr()
		if len(pr) != len(l.Pr) {
			return fmt.Errorf("has %d categories", len(pr))
		}
		for i := range pr {
			if !eq(pr[i], l.Pr[i]) {
				return fmt.Errorf("probabilities %v, want %v", pr, l.Pr)
			}
		}
	case 'I':
		if _, ok := z.(*spn.Indicator); !ok {
			return fmt.Errorf("is a %T", z)
		}
		for v := -1; v <= 6; v++ {
			if got := z.Value(map[int]int{l.Var: v}); (got == 0) != (v == l.Val) || (v != l.Val && !math.IsInf(got, -1)) {
				return fmt.Errorf("indicator of %d is %v at %d", l.Val, got, v)
			}
		}
	case 'G':
		g, ok := z.(*spn.Gaussian)
		if !ok {
			return fmt.Errorf("is a %T", z)
		}
		mu, sg := g.Params()
		if !eq(mu, l.Mu) || !eq(sg, l.S) {
			return fmt.Errorf("parameters %v %v, want %v %v", mu, sg, l.Mu, l.S)
		}
	}
	return nil
}
