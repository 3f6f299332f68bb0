package main

import (
	"fmt"
	"sort"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/spn"
)

// hugeSize is beyond what 16 bits count.
const hugeSize = 70000

// hugeSpecs are networks with more nodes, children, levels or variables than 16 bits count.
func hugeSpecs(yield func(name string, s spec)) {
	s := spec{}
	var ch []int
	for j := 0; j < hugeSize; j++ {
		ch = append(ch, s.leaf(mleaf(j, .25, .75)))
	}
	s.prod(ch...)
	yield("product of as many leaves", s)
	s = spec{}
	ch = nil
	for j := 0; j < hugeSize; j++ {
		ch = append(ch, s.leaf(mleaf(3, .25, .25+float64(j%3)/8, .5-float64(j%3)/8)))
	}
	w := make([]float64, hugeSize)
	for i := range w {
		w[i] = float64(1+i%2) / float64(hugeSize*3/2)
	}
	s = append(s, nodeSpec{Kind: 'S', Ch: ch, W: w})
	yield("sum of as many leaves", s)
	// A ladder: every level is a sum or a product over the level below and a leaf.
	s = spec{}
	a := s.multi(0, 2, 1)
	x := s.leaf(mleaf(0, .5, .5))
	for j := 0; j < hugeSize; j++ {
		if j%2 == 0 {
			s = append(s, nodeSpec{Kind: 'S', Ch: []int{x, a}, W: []float64{.75, .25}})
		} else {
			s = append(s, nodeSpec{Kind: 'P', Ch: []int{x}})
		}
		x = len(s) - 1
	}
	yield("ladder of as many levels", s)
	// Many small components that share their leaves.
	s = spec{}
	var ls [2][7]int
	for v := range ls {
		for k := range ls[v] {
			ls[v][k] = s.multi(v*9, 3, k)
		}
	}
	ch = nil
	for j := 0; j < hugeSize; j++ {
		ch = append(ch, s.prod(ls[0][j%7], ls[1][j/7%7]))
	}
	s = append(s, nodeSpec{Kind: 'S', Ch: ch, W: w})
	yield("mixture of as many products", s)
}

// hugeEvidence lists a few instances.
func (s spec) hugeEvidence() []map[int]int {
	r := []map[int]int{{}, {}, {}}
	for _, v := range s.vars() {
		r[1][v] = v % 2
		if v%3 == 0 {
			r[2][v] = 1
		}
	}
	return r
}

func (c *Ctx) hugeInference(s spec) error {
	nodes := s.build()
	root := nodes[len(nodes)-1]
	st := spn.NewStorer()
	eq := func(a, b float64) bool { return logEq(a, b) || relEq(a, b) }
	for k, I := range s.hugeEvidence() {
		want := s.eval(I)
		w := want[len(s)-1].log()
		if got := spn.Inference(root, varset(cloneMap(I))); !eq(got, w) {
			return fmt.Errorf("Inference under instance %d is %v, want %v", k, got, w)
		}
		_, tk := spn.StoreInference(root, varset(cloneMap(I)), -1, st)
		for i, n := range nodes {
			if got, ok := st.Single(tk, n); !ok || !eq(got, want[i].log()) {
				return fmt.Errorf("stored value of node %d under instance %d is %v (%v), want %v", i, k, got, ok, want[i].log())
			}
		}
		c.Trans(2)
	}
	c.State(1)
	c.Trace(1)
	return nil
}

func (c *Ctx) hugeMAP(s spec) error {
	nodes := s.build()
	root := nodes[len(nodes)-1]
	st := spn.NewStorer()
	eq := func(a, b float64) bool { return logEq(a, b) || relEq(a, b) }
	for k, I := range s.hugeEvidence() {
		m := s.evalMax(I)
		_, tk, M := spn.StoreMAP(root, varset(cloneMap(I)), -1, st)
		if got, ok := st.Single(tk, root); !ok || !eq(got, m[len(s)-1].log()) {
			return fmt.Errorf("maximum under instance %d is %v (%v), want %v", k, got, ok, m[len(s)-1].log())
		}
		if len(M) != len(s.vars()) {
			return fmt.Errorf("state of %d variables, want %d", len(M), len(s.vars()))
		}
		for v, y := range I {
			if M[v] != y {
				return fmt.Errorf("state has variable %d as %d, evidence is %d", v, M[v], y)
			}
		}
		if got, want := s.evalMax(M)[len(s)-1].log(), m[len(s)-1].log(); !eq(got, want) {
			return fmt.Errorf("the state attains %v, the maximum is %v", got, want)
		}
		c.Trans(1)
	}
	c.State(1)
	c.Trace(1)
	return nil
}

func (c *Ctx) hugeOrders(s spec) error {
	nodes := s.build()
	root := nodes[len(nodes)-1]
	id := map[spn.SPN]int{}
	for i, n := range nodes {
		id[n] = i
	}
	order := func(name string, got []spn.SPN) error {
		pos := make([]int, len(s))
		for p, z := range got {
			i, ok := id[z]
			if !ok || pos[i] != 0 {
				return fmt.Errorf("%s delivered a node twice or one of another graph", name)
			}
			pos[i] = p + 1
		}
		if len(got) != len(s) {
			return fmt.Errorf("%s delivered %d of %d nodes", name, len(got), len(s))
		}
		for i, n := range s {
			for _, ch := range n.Ch {
				if pos[ch] > pos[i] {
					return fmt.Errorf("%s delivered node %d before its child %d", name, i, ch)
				}
			}
		}
		c.Trans(1)
		return nil
	}
	drain := func(C common.Collection) (r []spn.SPN) {
		for !C.Empty() {
			r = append(r, C.Take().(spn.SPN))
		}
		return
	}
	rev := func(a []spn.SPN) []spn.SPN {
		for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
			a[i], a[j] = a[j], a[i]
		}
		return a
	}
	for _, f := range []struct {
		name string
		run  func(spn.SPN, common.Collection) common.Collection
	}{{"TopSortTarjanRec", spn.TopSortTarjanRec}, {"TopSortTarjan", spn.TopSortTarjan}, {"TopSortDFS", spn.TopSortDFS}, {"PostOrder", spn.PostOrder}} {
		if err := order(f.name, drain(f.run(root, &common.Queue{}))); err != nil {
			return err
		}
		if err := order(f.name+" on a stack", rev(drain(f.run(root, &common.Stack{})))); err != nil {
			return err
		}
	}
	var seen []spn.SPN
	spn.TopSortTarjanFunc(root, nil, func(z spn.SPN) bool { seen = append(seen, z); return true })
	if err := order("TopSortTarjanFunc", seen); err != nil {
		return err
	}
	for name, f := range map[string]func(spn.SPN, func(spn.SPN) int){"BreadthFirst": spn.BreadthFirst, "DepthFirst": spn.DepthFirst} {
		n := map[spn.SPN]int{}
		f(root, func(z spn.SPN) int { n[z]++; return 0 })
		for i, z := range nodes {
			if n[z] != 1 {
				return fmt.Errorf("%s called back %d times for node %d", name, n[z], i)
			}
		}
	}
	var w [3]int
	for _, n := range s {
		w[map[byte]int{'S': 0, 'P': 1, 'L': 2}[n.Kind]]++
	}
	if a, b, d := spn.CountNodes(root); [3]int{a, b, d} != w {
		return fmt.Errorf("%d, %d, %d nodes, want %v", a, b, d, w)
	}
	if h, want := spn.ComputeHeight(root), s.heights()[len(s)-1]; h != want {
		return fmt.Errorf("height %d, want %d", h, want)
	}
	c.Trans(4)
	c.State(1)
	c.Trace(1)
	return nil
}

// hugeScopes judges the scope of a product of many variables, and the tests on it and on one with a variable twice.
func (c *Ctx) hugeScopes() error {
	for broken := 0; broken < 5; broken++ {
		P := spn.NewProduct()
		Q := spn.NewProduct()
		for j := 0; j < hugeSize; j++ {
			v := j
			if broken > 0 && j == hugeSize-1 {
				v = []int{5, 5, 5, 300, 68000}[broken]
			}
			z := spn.NewIndicator(v, 0)
			if j%2 == 0 {
				P.AddChild(z)
			} else {
				Q.AddChild(z)
			}
		}
		P.AddChild(Q)
		S := spn.NewSum()
		S.AddChildW(P, 1)
		if broken == 2 {
			S.AddChildW(Q, 1)
		}
		sc := append([]int(nil), spn.ComputeScope(S)...)
		sort.Ints(sc)
		n := hugeSize
		if broken > 0 {
			n--
		}
		if len(sc) != n {
			return fmt.Errorf("scope of %d variables, want %d", len(sc), n)
		}
		for i, v := range sc {
			if v != i {
				return fmt.Errorf("variable %d is missing from the scope", i)
			}
		}
		if got := spn.Decomposable(S); got != (broken == 0) {
			return fmt.Errorf("decomposable: %v (variant %d)", got, broken)
		}
		if got := spn.Complete(S); got != (broken != 2) {
			return fmt.Errorf("complete: %v (variant %d)", got, broken)
		}
		c.Trans(3)
	}
	c.State(1)
	c.Trace(1)
	return nil
}
