package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

func rot(w []float64, k int) []float64 {
	r := make([]float64, len(w))
	for i := range w {
		r[i] = w[(i+k)%len(w)]
	}
	return r
}

func wNormal(node, n int) []float64 {
	return rot([][]float64{{}, {1}, {.25, .75}, {.2, .3, .5}, {.1, .2, .3, .4}}[n], node)
}
func wZero(node, n int) []float64 {
	return rot([][]float64{{}, {1}, {0, 1}, {.5, 0, .5}, {0, .5, .5, 0}}[n], node)
}
func wRaw(node, n int) []float64 {
	return rot([][]float64{{}, {2}, {3, .5}, {1e-5, 4, 1}, {7, 1e-3, 1, 2}}[n], node)
}
func wTie(node, n int) []float64 {
	return rot([][]float64{{}, {1}, {.5, .5}, {.25, .5, .25}, {.25, .25, .25, .25}}[n], node)
}

func wTiny(node, n int) []float64 {
	return rot([][]float64{{}, {1}, {1e-6, 1 - 1e-6}, {1e-7, .5, .5 - 1e-7}, {1e-5, 1e-3, .5, .5 - 1e-3 - 1e-5}}[n], node)
}

// wWild is between 1e-300 and 1e30.
func wWild(node, n int) []float64 {
	return rot([][]float64{{}, {1e-250}, {1e-12, 1}, {1e-300, 1e-9, 1}, {1e-100, 1e30, 1e-30, 1}}[n], node)
}

func mleaf(v int, pr ...float64) leafSpec  { return leafSpec{Kind: 'M', Var: v, Pr: pr} }
func ileaf(v, x int) leafSpec              { return leafSpec{Kind: 'I', Var: v, Val: x} }
func gleaf(v int, mu, sg float64) leafSpec { return leafSpec{Kind: 'G', Var: v, Mu: mu, S: sg} }
func binary(int) []int                     { return []int{0, 1} }
func varset(m map[int]int) spn.VarSet      { return spn.VarSet(m) }

func init() {
	register("C01", "a case is one network; it is non-trivial when it is a distinct labelled graph; all evidences and all inference routes are executed on it and compared node by node with an extended-range linear-space oracle", checkC01)
	register("C02", "a case is one valid normalised network; all partial evidences and all their completions are evaluated", checkC02)
	register("C03", "a case is one network with one evidence; all tie-break outcomes are explored", checkC03)
	register("C04", "a case is one rooted graph; every traversal routine, collection and callback verdict position is executed", checkC04)
	register("C05", "a case is one network with awkward parameters; it is serialised, decoded, compared and re-serialised", checkC05)
	register("C06", "a case is one graph, valid or not, with all query orders", checkC06)
	register("C26", "a case is one network with one weight assignment", checkC26)
}

// ---------------------------------------------------------------- C01

func checkC01(c *Ctx) {
	full := []leafSpec{mleaf(0, .25, .75), mleaf(1, 1./3, 2./3), ileaf(0, 1), mleaf(1, 1e-200, 1), gleaf(0, .5, 1), gleaf(1, 1, 0), mleaf(0, 0, 1), gleaf(1, -2, 3)}
	ws := []func(int, int) []float64{wNormal, wZero, wRaw}
	cfgs := []specCfg{
		{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, reverse: true, menu: full, weights: ws},
		{maxLeaves: 3, maxInternals: 3, maxNodes: 6, maxCh: 3, menu: full[:3], weights: ws[:2]},
		{maxLeaves: 2, maxInternals: 4, maxNodes: 6, maxCh: 3, reverse: true, menu: full[2:5], weights: ws[:1]},
	}
	if c.Thorough {
		cfgs[0].ordered, cfgs[0].reverse = true, false
		cfgs[1].menu, cfgs[1].weights, cfgs[1].reverse = full[:5], ws, true
		cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 4, maxNodes: 7, maxCh: 3, menu: full[1:4], weights: ws[:1]})
	}
	c.Bound("max_nodes", cfgs[len(cfgs)-1].maxNodes)
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, menu: full[:4], weights: ws[:2]})
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, menu: append([]leafSpec{ileaf(0, 0)}, full[:3]...), weights: []func(int, int) []float64{wWild}})
	c.Bound("weights", "of similar size, zero, unnormalised, and from 1e-300 to 1")
	c.Bound("max_nodes_with_repeated_edges", 5)
	c.Bound("max_children", 3)
	c.Bound("variables", 2)
	for ci, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) {
			if ci > 0 && !cfg.multi && len(s) < cfg.maxNodes {
				return // covered by the previous configuration
			}
			c.Case(s.String, func() error { return c.c01(s, ci == 0) })
		})
	}
	families(c.Thorough, func(name string, s spec) {
		c.Case(func() string { return name }, func() error { return c.c01(s, len(s) < 60) })
	})
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid")
	c.changing(specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 4 + c.more(), maxCh: 3, menu: full[:3], weights: ws[:1]}, 2, func(s spec, nodes []spn.SPN) error { return c.c01on(s, nodes, false) })
	c.Bound("very large networks", fmt.Sprintf("4 networks of %d leaves, levels or components", hugeSize))
	hugeSpecs(func(name string, s spec) {
		c.Case(func() string { return fmt.Sprintf("%s: %d", name, hugeSize) }, func() error { return c.hugeInference(s) })
	})
	// Deep and wide networks: a chain of alternating sums and products, and a sum with many children.
	for _, depth := range []int{10, 50, 200} {
		for kind := 0; kind < 3; kind++ {
			s := spec{{Kind: 'L', Leaf: mleaf(0, .25, .75)}, {Kind: 'L', Leaf: mleaf(1, 1e-5, 1-1e-5)}, {Kind: 'P', Ch: []int{0, 1}}}
			for i := 0; i < depth; i++ {
				k := len(s)
				switch kind {
				case 0:
					s = append(s, nodeSpec{Kind: 'S', Ch: []int{k - 1}, W: []float64{.5}})
				case 1: // underflows any linear-space computation
					s = append(s, nodeSpec{Kind: 'P', Ch: []int{k - 1, 1}})
				default: // exponentially many paths
					s = append(s, nodeSpec{Kind: 'S', Ch: []int{k - 1, k - 2}, W: []float64{.25, .75}})
				}
			}
			d := depth
			if kind == 2 && depth > 10 {
				continue // recursive evaluation is exponential by design
			}
			c.Case(func() string { return fmt.Sprintf("deep network kind %d depth %d", kind, d) }, func() error { return c.c01(s, false) })
		}
	}
	for _, width := range []int{5, 20, 100} {
		s := spec{}
		z := nodeSpec{Kind: 'S'}
		for i := 0; i < width; i++ {
			s = append(s, nodeSpec{Kind: 'L', Leaf: mleaf(i%2, 1/float64(i+2), 1-1/float64(i+2))})
			z.Ch = append(z.Ch, i)
			z.W = append(z.W, float64(i+1))
		}
		s = append(s, z)
		c.Case(func() string { return fmt.Sprintf("wide sum %d", width) }, func() error { return c.c01(s, false) })
	}
}

func (c *Ctx) c01(s spec, everything bool) error { return c.c01on(s, s.build(), everything) }

func (c *Ctx) c01on(s spec, nodes []spn.SPN, everything bool) error {
	root := nodes[len(nodes)-1]
	st := spn.NewStorer()
	reuse := st.NewTicket()
	vars := s.vars()
	out := s.outside()
	if len(vars) > 0 {
		vars = append(vars, out) // a variable outside of the scope
	}
	var err error
	vals := func(v int) []int {
		if v == out {
			return []int{1}
		}
		return s.vals(v)
	}
	c.State(1)
	enumEvidenceCap(vars, vals, 300, func(I map[int]int) {
		if err != nil {
			return
		}
		if _, has := I[out]; has && !everything {
			return
		}
		keep := cloneMap(I)
		want := s.eval(I)
		bad := func(route string, i int, got float64) {
			if err == nil {
				err = fmt.Errorf("%s of node %d under %s is %v, want %v", route, i, fmtI(I), got, want[i].log())
			}
		}
		for i, n := range nodes {
			if i < len(nodes)-1 && !everything {
				continue
			}
			w := want[i].log()
			if got := n.Value(varset(I)); !logEq(got, w) {
				bad("Value", i, got)
			}
			if got := spn.Inference(n, varset(I)); !logEq(got, w) {
				bad("Inference", i, got)
			}
			c.Trans(2)
		}
		R, tk := spn.StoreInference(root, varset(I), -1, st)
		if R != root || tk < 0 {
			err = fmt.Errorf("StoreInference returned %v, ticket %d", R, tk)
			return
		}
		R2, tk2 := spn.StoreInference(root, varset(I), reuse, st)
		if R2 != root || tk2 != reuse {
			err = fmt.Errorf("StoreInference on ticket %d returned ticket %d", reuse, tk2)
			return
		}
		c.Trans(2)
		for i, n := range nodes {
			for _, t := range []int{tk, reuse} {
				got, ok := st.Single(t, n)
				if !ok {
					err = fmt.Errorf("node %d missing from the table under %s", i, fmtI(I))
					return
				}
				if !logEq(got, want[i].log()) {
					bad(fmt.Sprintf("stored value (ticket %d)", t), i, got)
				}
			}
		}
		st.Delete(tk)
		for _, Y := range s.vars() {
			if _, has := I[Y]; has && len(s) > 40 {
				continue
			}
			for _, y := range s.vals(Y) {
				J := cloneMap(I)
				J[Y] = y
				w := s.eval(J)[len(s)-1].log()
				if got := spn.InferenceY(root, varset(I), Y, y); !logEq(got, w) && err == nil {
					err = fmt.Errorf("InferenceY with x%d=%d under %s is %v, want %v", Y, y, fmtI(I), got, w)
				}
				c.Trans(1)
			}
		}
		if err == nil && !mapEq(I, keep) {
			err = fmt.Errorf("evidence changed from %s to %s", fmtI(keep), fmtI(I))
		}
		c.Trace(1)
		c.Outcome(fmt.Sprintf("%.3g", want[len(s)-1].log()))
	})
	if err == nil {
		err = s.intact(nodes)
	}
	return err
}

// ---------------------------------------------------------------- C02

func checkC02(c *Ctx) {
	menu := []leafSpec{mleaf(0, .25, .75), ileaf(0, 0), ileaf(0, 1), mleaf(1, 1./3, 1./6, .5), ileaf(1, 2), mleaf(2, .4, .6)}
	cfgs := []specCfg{
		{maxLeaves: 4, maxInternals: 3, maxNodes: 6, maxCh: 3, reverse: true, menu: menu, weights: []func(int, int) []float64{wNormal, wZero}},
		{maxLeaves: 4, maxInternals: 3, maxNodes: 7, maxCh: 3, menu: []leafSpec{menu[0], menu[2], menu[3]}, weights: []func(int, int) []float64{wNormal}},
	}
	if c.Thorough {
		cfgs[1].menu = menu
		cfgs = append(cfgs, specCfg{maxLeaves: 4, maxInternals: 4, maxNodes: 8, maxCh: 2, menu: []leafSpec{menu[0], menu[3]}, weights: []func(int, int) []float64{wNormal}})
	}
	c.Bound("max_nodes", cfgs[len(cfgs)-1].maxNodes)
	cfgs = append(cfgs, specCfg{maxLeaves: 4, maxInternals: 3, maxNodes: 6, maxCh: 3, multi: true, menu: menu[:4], weights: []func(int, int) []float64{wNormal}})
	c.Bound("max_nodes_with_repeated_edges", 6)
	c.Bound("variables", 3)
	few := len(cfgs)
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 6, maxCh: 3, menu: menu[:3], weights: []func(int, int) []float64{wTiny}})
	c.Bound("weights", "of similar size, zero, and from 1e-7 to 1")
	for ci, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) {
			if ci > 0 && ci < few && !cfg.multi && len(s) < cfg.maxNodes {
				return
			}
			if !s.complete() || !s.decomposable() {
				return
			}
			c.Case(s.String, func() error { return c.c02(s) })
		})
	}
	families(c.Thorough, func(name string, s spec) {
		t := 1
		for _, v := range s.vars() {
			if t *= len(s.vals(v)) + 1; t > 800 {
				return
			}
		}
		for _, n := range s {
			if n.Leaf.Kind == 'G' {
				return
			}
		}
		c.Case(func() string { return name }, func() error { return c.c02(s) })
	})
	c.Bound("families", "larger mixtures, chains, trees, network polynomials with up to 800 partial evidences")
	// Gaussian leaves: integer-spaced sums of a density with deviation at least one are one up to 1e-8.
	for _, g := range []leafSpec{gleaf(0, 0, 1), gleaf(0, .5, 1.5), gleaf(0, -3.25, 2)} {
		for _, h := range []leafSpec{gleaf(1, 2, 1), mleaf(1, .3, .7)} {
			s := spec{{Kind: 'L', Leaf: g}, {Kind: 'L', Leaf: h}, {Kind: 'L', Leaf: gleaf(0, 4, 1)}, {Kind: 'P', Ch: []int{0, 1}}, {Kind: 'P', Ch: []int{2, 1}}, {Kind: 'S', Ch: []int{3, 4}, W: []float64{.3, .7}}}
			c.Case(s.String, func() error {
				n := s.build()
				r := n[len(n)-1]
				if v := spn.Inference(r, spn.VarSet{}); !logEq(v, 0) {
					return fmt.Errorf("empty evidence has log value %v", v)
				}
				for y := 0; y < 2; y++ {
					var t float64
					for x := -40; x <= 40; x++ {
						t += math.Exp(spn.Inference(r, spn.VarSet{0: x, 1: y}))
						c.Trans(1)
					}
					if m := math.Exp(spn.Inference(r, spn.VarSet{1: y})); math.Abs(m-t) > 1e-7 {
						return fmt.Errorf("marginal of x1=%d is %v, summed density %v", y, m, t)
					}
				}
				c.State(1)
				c.Trace(1)
				return nil
			})
		}
	}
}

func (c *Ctx) c02(s spec) error {
	nodes := s.build()
	root := nodes[len(nodes)-1]
	vars := s.vars()
	vals := s.vals
	c.State(1)
	for _, route := range []struct {
		name string
		f    func(I map[int]int) float64
	}{
		{"Value", func(I map[int]int) float64 { return root.Value(varset(I)) }},
		{"Inference", func(I map[int]int) float64 { return spn.Inference(root, varset(I)) }},
	} {
		memo := map[string]float64{}
		get := func(I map[int]int) float64 {
			k := fmtI(I)
			v, ok := memo[k]
			if !ok {
				v = math.Exp(route.f(I))
				memo[k] = v
				c.Trans(1)
			}
			return v
		}
		if v := get(map[int]int{}); !relEq(v, 1) {
			return fmt.Errorf("%s: total probability is %v", route.name, v)
		}
		var err error
		enumEvidence(vars, vals, func(I map[int]int) {
			if err != nil {
				return
			}
			p := get(I)
			if !(p >= 0 && p <= 1+1e-9) {
				err = fmt.Errorf("%s: value of %s is %v", route.name, fmtI(I), p)
				return
			}
			var free []int
			for _, v := range vars {
				if _, ok := I[v]; !ok {
					free = append(free, v)
				}
			}
			tot := 0.0
			enumEvidence(free, vals, func(J map[int]int) {
				if len(J) != len(free) {
					return
				}
				for k, v := range I {
					J[k] = v
				}
				tot += get(J)
			})
			if !relEq(tot, p) {
				err = fmt.Errorf("%s: value of %s is %v but its completions add up to %v", route.name, fmtI(I), p, tot)
			}
			for _, v := range free {
				for _, x := range vals(v) {
					J := cloneMap(I)
					J[v] = x
					if q := get(J); q > p+1e-9 {
						err = fmt.Errorf("%s: adding x%d=%d to %s raised the value from %v to %v", route.name, v, x, fmtI(I), p, q)
					}
				}
			}
			c.Outcome(fmt.Sprintf("%.4g", p))
		})
		if err != nil {
			return err
		}
	}
	c.Trace(1)
	return nil
}

// ---------------------------------------------------------------- C03

func checkC03(c *Ctx) {
	menu := []leafSpec{mleaf(0, .25, .75), mleaf(1, .5, .5), ileaf(0, 1), gleaf(1, 1, .7), ileaf(1, 0), gleaf(0, 1, 0), mleaf(0, .5, .5), mleaf(2, 0, 1)}
	ws := []func(int, int) []float64{wTie, wNormal, wZero}
	cfgs := []specCfg{
		{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, menu: menu, weights: ws},
		{maxLeaves: 4, maxInternals: 3, maxNodes: 6, maxCh: 3, menu: []leafSpec{menu[0], menu[1], menu[2]}, weights: ws[:2]},
	}
	if c.Thorough {
		cfgs[0].reverse = true
		cfgs[1].menu = menu[:5]
		cfgs = append(cfgs, specCfg{maxLeaves: 4, maxInternals: 3, maxNodes: 7, maxCh: 3, menu: []leafSpec{menu[0], menu[1]}, weights: ws[:2]})
	}
	c.Bound("max_nodes", cfgs[len(cfgs)-1].maxNodes)
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, menu: menu[:3], weights: ws[:2]})
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, menu: append([]leafSpec{ileaf(0, 0)}, menu[:3]...), weights: []func(int, int) []float64{wWild}})
	c.Bound("weights", "tied, of similar size, zero, and from 1e-300 to 1")
	c.Bound("max_nodes_with_repeated_edges", 5)
	c.Bound("tie_deviations", 3)
	for ci, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) {
			if ci > 0 && !cfg.multi && len(s) < cfg.maxNodes {
				return
			}
			if ci == 2 && !cfg.multi && !(s.complete() && s.decomposable()) {
				return
			}
			c.Case(s.String, func() error { return c.c03(s) })
		})
	}
	families(c.Thorough, func(name string, s spec) {
		c.Case(func() string { return name }, func() error { return c.c03(s) })
	})
	c.Bound("very large networks", fmt.Sprintf("4 networks of %d leaves, levels or components", hugeSize))
	hugeSpecs(func(name string, s spec) {
		c.Case(func() string { return fmt.Sprintf("%s: %d", name, hugeSize) }, func() error { return c.hugeMAP(s) })
	})
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid")
	c.changing(specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 4 + c.more(), maxCh: 3, menu: menu[:3], weights: ws[:1]}, 2, c.c03on)
	// Rounding of continuous modes.
	for _, mu := range []float64{.2, .5, .8, 1.49, -.7, -1.2, 3} {
		l := gleaf(0, mu, .6)
		c.Case(l.String, func() error {
			g := buildLeaf(l)
			a, m := g.ArgMax(spn.VarSet{})
			if !logEq(m, l.best().log()) || !logEq(g.Max(spn.VarSet{}), m) {
				return fmt.Errorf("max %v / %v, want %v", m, g.Max(spn.VarSet{}), l.best().log())
			}
			if len(a) != 1 || math.Abs(float64(a[0])-mu) > .5 {
				return fmt.Errorf("mode %v of mean %v", a, mu)
			}
			c.Trans(2)
			c.State(1)
			c.Trace(1)
			return nil
		})
	}
}

func (c *Ctx) c03(s spec) error { return c.c03on(s, nil) }

// c03on judges the given network, or one built anew (also for every choice of the modes) when there is none.
func (c *Ctx) c03on(s spec, nodes []spn.SPN) error {
	given := nodes != nil
	valid := s.complete() && s.decomposable()
	vars := s.vars()
	scope := map[int]bool{}
	for _, v := range vars {
		scope[v] = true
	}
	var err error
	out := s.outside()
	evs := append(append([]int(nil), vars...), out)
	last := map[int]int{}
	enumEvidenceCap(evs, func(v int) []int {
		if v == out {
			return []int{1}
		}
		return s.vals(v)
	}, 300, func(I map[int]int) {
		if err != nil {
			return
		}
		if _, x := I[out]; x && len(I) > 1 && len(evs) < 5 {
			return
		}
		defer func() { last = I }()
		c.State(1)
		want := s.evalMax(I)
		w := want[len(s)-1].log()
		assign := func(route string, M map[int]int) error {
			for k := range M {
				if !scope[k] {
					return fmt.Errorf("%s under %s assigns x%d, which is not in the scope", route, fmtI(I), k)
				}
			}
			for k, v := range I {
				if !scope[k] {
					continue
				}
				u, ok := M[k]
				if (ok || valid) && u != v {
					return fmt.Errorf("%s under %s returned %s: evidence not kept", route, fmtI(I), fmtI(M))
				}
				if !ok && valid {
					return fmt.Errorf("%s under %s returned %s: evidence dropped", route, fmtI(I), fmtI(M))
				}
			}
			if valid {
				for _, v := range vars {
					if _, ok := M[v]; !ok {
						return fmt.Errorf("%s under %s returned %s: x%d is not assigned", route, fmtI(I), fmtI(M), v)
					}
				}
				if got := s.evalMax(M)[len(s)-1].log(); !logEq(got, w) {
					return fmt.Errorf("%s under %s returned %s with max value %v, but the maximum is %v", route, fmtI(I), fmtI(M), got, w)
				}
			}
			return nil
		}
		tied := false
		for i, n := range s {
			k := 0
			for j, ch := range n.Ch {
				if n.Kind == 'S' && almost(xof(n.W[j]).mul(want[ch]).log(), want[i].log()) {
					k++
				}
			}
			for _, p := range n.Leaf.Pr {
				if almost(xof(p).log(), n.Leaf.best().log()) {
					k++
				}
			}
			tied = tied || k > 1
		}
		dev := 0
		if tied {
			dev = 3
		}
		keep := cloneMap(I)
		if !given {
			nodes = nil
		}
		for part := 0; part < 3 && err == nil; part++ {
			_, _, err = exploreChoices(dev, 12, 0, func(t *tape) (e error) {
				withSysRandom(t, intChoices(3), func() {
					if nodes == nil || part == 0 && !given {
						nodes = s.build()
					}
					root := nodes[len(nodes)-1]
					c.Trace(1)
					switch part {
					case 0: // construction draws among tied modes
						for i, n := range nodes {
							if got := n.Max(varset(I)); !logEq(got, want[i].log()) {
								e = fmt.Errorf("Max of node %d under %s is %v, want %v", i, fmtI(I), got, want[i].log())
								return
							}
						}
						M, v := root.ArgMax(varset(I))
						if !logEq(v, w) {
							e = fmt.Errorf("ArgMax under %s reports %v, want %v", fmtI(I), v, w)
							return
						}
						e = assign("ArgMax", M)
						c.Trans(1 + len(nodes))
					case 1:
						st := spn.NewStorer()
						first := st.NewTicket()
						R, tk, M2 := spn.StoreMAP(root, varset(I), -1, st)
						if R != root || tk == first || tk < 0 {
							e = fmt.Errorf("StoreMAP returned root %v ticket %d", R, tk)
							return
						}
						if e = assign("StoreMAP", M2); e != nil {
							return
						}
						if t.prefix == nil {
							spn.StoreMAP(root, varset(last), first, st) // a table in use before
							spn.StoreMAP(root, varset(I), first, st)
							for i, n := range nodes {
								for _, k := range []int{tk, first} {
									if got, ok := st.Single(k, n); !ok || !logEq(got, want[i].log()) {
										e = fmt.Errorf("StoreMAP entry of node %d under %s is %v (%v), want %v", i, fmtI(I), got, ok, want[i].log())
										return
									}
								}
							}
						}
						c.Outcome(fmtI(M2))
						c.Trans(1)
					default:
						T := spn.TraceMAP(root, varset(I))
						if e = traceOK(s, nodes, want, T, valid); e != nil {
							e = fmt.Errorf("TraceMAP under %s: %v", fmtI(I), e)
						}
						c.Trans(1)
					}
				})
				return e
			})
		}
		if err == nil && !mapEq(I, keep) {
			err = fmt.Errorf("evidence changed from %s to %s", fmtI(keep), fmtI(I))
		}
		if err == nil {
			err = s.intact(nodes)
		}
	})
	return err
}

func traceOK(s spec, nodes []spn.SPN, mx []xf, T map[spn.SPN]int, valid bool) error {
	id := map[spn.SPN]int{}
	for i, n := range nodes {
		id[n] = i
	}
	for z, k := range T {
		i, ok := id[z]
		if !ok || s[i].Kind != 'S' {
			return fmt.Errorf("traces a node that is not a sum of the network")
		}
		if k < 0 || k >= len(s[i].Ch) {
			return fmt.Errorf("traces edge %d of sum %d", k, i)
		}
		if got := xof(s[i].W[k]).mul(mx[s[i].Ch[k]]); !logEq(got.log(), mx[i].log()) {
			return fmt.Errorf("edge %d of sum %d has value %v, maximum %v", k, i, got.log(), mx[i].log())
		}
	}
	if !valid {
		return nil
	}
	seen := 0
	var walk func(i int) error
	walk = func(i int) error {
		switch s[i].Kind {
		case 'S':
			k, ok := T[nodes[i]]
			if !ok {
				return fmt.Errorf("sum %d is on the MAP path but not traced", i)
			}
			seen++
			return walk(s[i].Ch[k])
		case 'P':
			for _, ch := range s[i].Ch {
				if e := walk(ch); e != nil {
					return e
				}
			}
		}
		return nil
	}
	if e := walk(len(s) - 1); e != nil {
		return e
	}
	if seen != len(T) {
		return fmt.Errorf("%d sums traced, %d on the path", len(T), seen)
	}
	return nil
}

// ---------------------------------------------------------------- C04

func checkC04(c *Ctx) {
	maxNodes, maxCh := 6, 3
	if c.Thorough {
		maxNodes, maxCh = 6, 5
	}
	c.Bound("max_nodes", maxNodes)
	c.Bound("max_children", maxCh)
	c.Bound("ordered_children", true)
	for multi := 0; multi < 2; multi++ {
		for total := 1; total <= maxNodes-multi; total++ {
			for in := 0; in < total; in++ {
				enumShapes(total-in, in, maxCh-multi*(maxCh-3), true, multi == 1, func(sh shape) {
					if !c.Mine() {
						c.Skip()
						return
					}
					s := spec{}
					for i := 0; i < sh.leaves; i++ {
						s = append(s, nodeSpec{Kind: 'L', Leaf: ileaf(i, 0)})
					}
					for i, ch := range sh.ch {
						n := nodeSpec{Kind: 'P', Ch: ch}
						if (i+sh.leaves)%2 == 0 {
							n.Kind, n.W = 'S', make([]float64, len(ch))
						}
						s = append(s, n)
					}
					c.Case(s.String, func() error { return c.c04(s) })
				})
			}
		}
	}
	families(c.Thorough, func(name string, s spec) {
		c.Case(func() string { return name }, func() error { return c.c04(s) })
	})
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid")
	c.Bound("very large networks", fmt.Sprintf("4 networks of %d leaves, levels or components", hugeSize))
	hugeSpecs(func(name string, s spec) {
		c.Case(func() string { return fmt.Sprintf("%s: %d", name, hugeSize) }, func() error { return c.hugeOrders(s) })
	})
	c.changing(specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, menu: []leafSpec{ileaf(0, 1)}, weights: []func(int, int) []float64{wNormal}}, 1+c.more(), c.c04on)
	// Deep and wide graphs, and repeated edges.
	for _, n := range []int{2, 3, 40, 300} {
		for kind := 0; kind < 3; kind++ {
			s := spec{{Kind: 'L', Leaf: ileaf(0, 0)}}
			for i := 1; i < n; i++ {
				ch := []int{i - 1}
				if kind == 1 {
					for j := i - 2; j >= 0 && j > i-8; j-- {
						ch = append([]int{j}, ch...)
					}
				} else if kind == 2 {
					if i < n-1 {
						s = append(s, nodeSpec{Kind: 'L', Leaf: ileaf(i, 0)})
						continue
					}
					ch = nil
					for j := 0; j < i; j++ {
						ch = append(ch, j)
					}
				}
				s = append(s, nodeSpec{Kind: 'P', Ch: ch})
			}
			c.Case(func() string { return fmt.Sprintf("large graph kind %d size %d", kind, n) }, func() error { return c.c04(s) })
		}
	}
}

func (c *Ctx) c04(s spec) error { return c.c04on(s, s.build()) }

func (c *Ctx) c04on(s spec, nodes []spn.SPN) error {
	root := nodes[len(nodes)-1]
	id := map[spn.SPN]int{}
	for i, n := range nodes {
		id[n] = i
	}
	c.State(1)
	order := func(name string, got []int) error {
		pos := make([]int, len(s))
		for i := range pos {
			pos[i] = -1
		}
		for p, i := range got {
			if i < 0 || i >= len(s) {
				return fmt.Errorf("%s delivered a node that is not in the graph", name)
			}
			if pos[i] >= 0 {
				return fmt.Errorf("%s delivered node %d twice: %v", name, i, got)
			}
			pos[i] = p
		}
		if len(got) != len(s) {
			return fmt.Errorf("%s delivered %v: not all %d nodes", name, got, len(s))
		}
		for i, n := range s {
			for _, ch := range n.Ch {
				if pos[ch] > pos[i] {
					return fmt.Errorf("%s delivered node %d before its child %d: %v", name, i, ch, got)
				}
			}
		}
		c.Trans(1)
		return nil
	}
	num := func(z interface{}) int {
		x, ok := z.(spn.SPN)
		if !ok {
			return -1
		}
		i, ok := id[x]
		if !ok {
			return -1
		}
		return i
	}
	drain := func(C common.Collection) []int {
		var r []int
		for !C.Empty() {
			r = append(r, num(C.Take()))
			if len(r) > 4*len(s)+8 {
				break
			}
		}
		return r
	}
	rev := func(a []int) []int {
		r := make([]int, len(a))
		for i := range a {
			r[len(a)-1-i] = a[i]
		}
		return r
	}
	type sorter struct {
		name string
		f    func(spn.SPN, common.Collection) common.Collection
	}
	var fseq []int
	for _, t := range []sorter{
		{"TopSortTarjan", spn.TopSortTarjan}, {"TopSortTarjanRec", spn.TopSortTarjanRec}, {"TopSortDFS", spn.TopSortDFS}, {"PostOrder", spn.PostOrder},
		{"TopSortTarjanFunc", func(g spn.SPN, C common.Collection) common.Collection {
			fseq = nil
			return spn.TopSortTarjanFunc(g, C, func(z spn.SPN) bool { fseq = append(fseq, num(z)); return true })
		}},
	} {
		var ref []int
		for k := 0; k < 3; k++ {
			var C common.Collection
			switch k {
			case 1:
				C = &common.Queue{}
			case 2:
				C = &common.Stack{}
			}
			R := t.f(root, C)
			if R == nil || (C != nil && R != C) {
				return fmt.Errorf("%s did not return the collection it was given", t.name)
			}
			got := drain(R)
			if k == 2 {
				got = rev(got)
			}
			if err := order(t.name, got); err != nil {
				return err
			}
			if k == 0 {
				ref = got
			} else if !intsEq(ref, got) {
				return fmt.Errorf("%s order depends on the collection: %v, %v", t.name, ref, got)
			}
			if t.name == "TopSortTarjanFunc" && !intsEq(fseq, got) {
				return fmt.Errorf("callback order %v, collection order %v", fseq, got)
			}
		}
		c.Outcome(t.name + fmt.Sprint(ref))
		if t.name == "TopSortTarjanFunc" {
			for stop := 1; stop <= len(s) && stop <= 8; stop++ {
				var seq []int
				R := spn.TopSortTarjanFunc(root, nil, func(z spn.SPN) bool { seq = append(seq, num(z)); return len(seq) < stop })
				if got := drain(R); !intsEq(got, ref[:stop]) || !intsEq(seq, ref[:stop]) {
					return fmt.Errorf("TopSortTarjanFunc stopped at callback %d: callbacks %v, collection %v, full order %v", stop, seq, got, ref)
				}
				c.Trans(1)
			}
		}
	}
	// Searches against the textbook algorithm, with every position of a skip (-1) or stop (1) verdict.
	model := func(stack bool, verdict func(k int) int) []int {
		seen := map[int]bool{len(s) - 1: true}
		work := []int{len(s) - 1}
		var r []int
		for len(work) > 0 {
			var u int
			if stack {
				u = work[len(work)-1]
				work = work[:len(work)-1]
			} else {
				u = work[0]
				work = work[1:]
			}
			r = append(r, u)
			v := verdict(len(r))
			if v > 0 {
				return r
			}
			if v < 0 {
				continue
			}
			for _, ch := range s[u].Ch {
				if !seen[ch] {
					seen[ch] = true
					work = append(work, ch)
				}
			}
		}
		return r
	}
	verdicts := []func(k int) int{func(int) int { return 0 }}
	for p := 1; p <= len(s) && p <= 8; p++ {
		p := p
		verdicts = append(verdicts,
			func(k int) int {
				if k == p {
					return 1
				}
				return 0
			},
			func(k int) int {
				if k == p {
					return -1
				}
				return 0
			})
	}
	for vi, vd := range verdicts {
		for _, stack := range []bool{false, true} {
			var got []int
			cb := func(z spn.SPN) int { got = append(got, num(z)); return vd(len(got)) }
			if stack {
				spn.DepthFirst(root, cb)
			} else {
				spn.BreadthFirst(root, cb)
			}
			c.Trans(1)
			if want := model(stack, vd); !intsEq(got, want) {
				return fmt.Errorf("search (stack=%v, verdict pattern %d) called back %v, want %v", stack, vi, got, want)
			}
		}
	}
	var ns, np, nl int
	for _, n := range s {
		switch n.Kind {
		case 'S':
			ns++
		case 'P':
			np++
		default:
			nl++
		}
	}
	if a, b, d := spn.CountNodes(root); a != ns || b != np || d != nl {
		return fmt.Errorf("counted %d sums %d products %d leaves, graph has %d %d %d", a, b, d, ns, np, nl)
	}
	h := s.heights()
	if got := spn.ComputeHeight(root); got != h[len(s)-1] {
		return fmt.Errorf("height %d, longest path is %d", got, h[len(s)-1])
	}
	if len(s) < 20 {
		for i, n := range nodes {
			if got := n.Height(); got != h[i] {
				return fmt.Errorf("height of node %d is %d, longest path is %d", i, got, h[i])
			}
		}
	}
	c.Trans(2)
	c.Trace(1)
	return s.intact(nodes)
}

// ---------------------------------------------------------------- C05

func checkC05(c *Ctx) {
	menu := []leafSpec{mleaf(0, 1./3, 2./3), ileaf(3, 2), gleaf(1, -1.5, .1), mleaf(12, .1, .2, .7), gleaf(2, 1e17/3, 1e-7/3), mleaf(1, 1e-300, 1, 0), ileaf(0, 0), gleaf(0, 0, 0), mleaf(5, 1), gleaf(7, 0.1+0.2, 1e21), ileaf(1, 3)}
	wAwk := func(node, n int) []float64 {
		return rot([][]float64{{}, {1. / 3}, {1e-300, .1 + .2}, {-1.0 / 7, 1e300 / 3, 0}, {5e-324, 1, 1 - 1e-16, 2. / 3}}[n], node)
	}
	wFar := func(node, n int) []float64 {
		return rot([][]float64{{}, {123456789.123456789}, {0.000001, 1234567}, {.25, 1e-7, 1. / 7}, {1, 2, 3, 4}}[n], node)
	}
	ws := []func(int, int) []float64{wAwk, wFar}
	cfgs := []specCfg{
		{maxLeaves: 3, maxInternals: 3, maxNodes: 4, maxCh: 3, ordered: true, menu: menu, weights: ws},
		{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, reverse: true, menu: menu[:3], weights: ws},
		{maxLeaves: 3, maxInternals: 3, maxNodes: 6, maxCh: 3, menu: menu[:2], weights: ws[:1]},
	}
	if c.Thorough {
		cfgs[1].menu = menu[:6]
		cfgs[1].ordered, cfgs[1].reverse = true, false
		cfgs[2].menu, cfgs[2].weights, cfgs[2].reverse = menu[:3], ws, true
	}
	c.Bound("max_nodes", cfgs[len(cfgs)-1].maxNodes)
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, ordered: true, menu: menu[:2], weights: ws[:1]})
	c.Bound("max_nodes_with_repeated_edges", 5)
	for ci, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) {
			if ci > 0 && !cfg.multi && len(s) < cfg.maxNodes {
				return
			}
			c.Case(s.String, func() error { return c.c05(s, ci < 2) })
		})
	}
	for _, n := range []int{60, 300} {
		s := spec{{Kind: 'L', Leaf: menu[0]}, {Kind: 'L', Leaf: menu[2]}, {Kind: 'L', Leaf: menu[1]}}
		for i := 3; i < n; i++ {
			ch := []int{i - 1, i / 2, i % 3}
			if ch[0] == ch[1] || ch[1] == ch[2] || ch[0] == ch[2] {
				ch = []int{i - 1}
			}
			x := nodeSpec{Kind: 'P', Ch: ch}
			if i%2 == 0 {
				x.Kind, x.W = 'S', wAwk(i, len(ch))
			}
			s = append(s, x)
		}
		c.Case(func() string { return fmt.Sprintf("network of %d nodes", n) }, func() error { return c.c05(s, false) })
	}
	families(c.Thorough, func(name string, s spec) {
		c.Case(func() string { return name }, func() error { return c.c05(s, true) })
	})
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid")
	c.Bound("very large networks", fmt.Sprintf("4 networks of %d leaves, levels or components", hugeSize))
	hugeSpecs(func(name string, s spec) {
		c.Case(func() string { return fmt.Sprintf("%s: %d", name, hugeSize) }, func() error { return c.c05(s, false) })
	})
	c.changing(specCfg{maxLeaves: 2, maxInternals: 2, maxNodes: 4, maxCh: 3, menu: menu[:2], weights: ws[:1]}, 1+c.more(), func(s spec, nodes []spn.SPN) error { return c.c05on(s, nodes, true) })
	// Learning-variable metadata.
	for _, name := range []string{"", "a", "two words", " lead", "trail ", "tab\tname", "x0", "3", "-1 2", "é"} {
		for _, id := range []int{0, 1, 17, 100000} {
			for _, cat := range []int{0, 1, 2, 256} {
				v := &learn.Variable{Varid: id, Categories: cat, Name: name}
				c.Case(func() string { return fmt.Sprintf("variable %+v", *v) }, func() error {
					b, err := v.GobEncode()
					if err != nil {
						return err
					}
					w := &learn.Variable{}
					if err := w.GobDecode(b); err != nil {
						return err
					}
					c.State(1)
					c.Trans(2)
					c.Trace(1)
					if *w != *v {
						return fmt.Errorf("decoded %+v", *w)
					}
					return nil
				})
			}
		}
	}
}

func sameNetwork(s spec, nodes []spn.SPN, R spn.SPN) ([]spn.SPN, error) {
	m := make([]spn.SPN, len(s))
	back := map[spn.SPN]int{}
	var walk func(i int, z spn.SPN) error
	walk = func(i int, z spn.SPN) error {
		if z == nil {
			return fmt.Errorf("node %d is nil", i)
		}
		if z == nodes[i] {
			return fmt.Errorf("node %d is shared with the original", i)
		}
		if m[i] != nil {
			if m[i] != z {
				return fmt.Errorf("node %d was shared and is duplicated", i)
			}
			return nil
		}
		if j, ok := back[z]; ok {
			return fmt.Errorf("nodes %d and %d were merged", j, i)
		}
		m[i] = z
		back[z] = i
		n := s[i]
		switch n.Kind {
		case 'L':
			if err := leafIs(z, n.Leaf, true); err != nil {
				return fmt.Errorf("leaf %d: %v", i, err)
			}
		case 'S':
			x, ok := z.(*spn.Sum)
			if !ok {
				return fmt.Errorf("sum %d became %T", i, z)
			}
			W := x.Weights()
			if len(W) != len(n.W) {
				return fmt.Errorf("sum %d has %d weights, want %d", i, len(W), len(n.W))
			}
			for j := range W {
				if W[j] != n.W[j] {
					return fmt.Errorf("weight %d of sum %d is %v, want %v", j, i, W[j], n.W[j])
				}
			}
		default:
			if _, ok := z.(*spn.Product); !ok {
				return fmt.Errorf("product %d became %T", i, z)
			}
		}
		if z.Type() != nodes[i].Type() {
			return fmt.Errorf("node %d has type %s, was %s", i, z.Type(), nodes[i].Type())
		}
		ch := z.Ch()
		if len(ch) != len(n.Ch) {
			return fmt.Errorf("node %d has %d children, want %d", i, len(ch), len(n.Ch))
		}
		for j, k := range n.Ch {
			if err := walk(k, ch[j]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(len(s)-1, R); err != nil {
		return nil, err
	}
	return m, nil
}

func (c *Ctx) c05(s spec, behave bool) error { return c.c05on(s, s.build(), behave) }

func (c *Ctx) c05on(s spec, nodes []spn.SPN, behave bool) error {
	root := nodes[len(nodes)-1]
	c.State(1)
	buf := spn.Marshal(root)
	if err := s.intact(nodes); err != nil {
		return fmt.Errorf("after serialising: %v", err)
	}
	keep := string(buf)
	R := spn.Unmarshal(buf)
	c.Trans(2)
	m, err := sameNetwork(s, nodes, R)
	if err != nil {
		return fmt.Errorf("decoded: %v", err)
	}
	if string(buf) != keep {
		return fmt.Errorf("decoding changed the buffer")
	}
	R2 := spn.Unmarshal(spn.Marshal(R))
	if _, err := sameNetwork(s, m, R2); err != nil {
		return fmt.Errorf("decoded twice: %v", err)
	}
	c.Trans(2)
	f := filepath.Join(c.Scratch, "net.spn")
	io.SaveSPN(f, root)
	R3, err := io.LoadSPN(f)
	if err != nil {
		return fmt.Errorf("LoadSPN: %v", err)
	}
	if _, err := sameNetwork(s, nodes, R3); err != nil {
		return fmt.Errorf("saved to a file and loaded: %v", err)
	}
	for i := 0; i < 2; i++ {
		if _, err := sameNetwork(s, nodes, io.ReadFromFile(f)); err != nil {
			return fmt.Errorf("saved to a file and read with ReadFromFile (reading %d): %v", i+1, err)
		}
	}
	c.Trans(2)
	d := filepath.Join(c.Scratch, "net.txt")
	spn.PrintSPN(root, d)
	if err := dumpOK(s, d); err != nil {
		return fmt.Errorf("dump: %v", err)
	}
	c.Trans(1)
	sc := map[int]bool{}
	for _, v := range spn.ComputeScope(R) {
		sc[v] = true
	}
	if len(sc) != len(s.vars()) {
		return fmt.Errorf("scope of the decoded network is %v, want %v", sc, s.vars())
	}
	if behave {
		cats := map[int]int{}
		for _, n := range s {
			if n.Kind == 'L' {
				k := 3
				if n.Leaf.Kind == 'M' {
					k = len(n.Leaf.Pr)
				}
				if x, ok := cats[n.Leaf.Var]; !ok || k < x {
					cats[n.Leaf.Var] = k
				}
			}
		}
		var err error
		enumEvidenceCap(s.vars(), func(v int) []int {
			r := []int{}
			for i := 0; i < cats[v]; i++ {
				r = append(r, i)
			}
			return r
		}, 300, func(I map[int]int) {
			a, b := spn.Inference(root, varset(I)), spn.Inference(R, varset(I))
			if a != b && !(math.IsNaN(a) && math.IsNaN(b)) && err == nil {
				err = fmt.Errorf("value under %s is %v, was %v", fmtI(I), b, a)
			}
			a, b = root.Max(varset(I)), R.Max(varset(I))
			if a != b && !(math.IsNaN(a) && math.IsNaN(b)) && err == nil {
				err = fmt.Errorf("max value under %s is %v, was %v", fmtI(I), b, a)
			}
			c.Trans(2)
		})
		if err != nil {
			return err
		}
	}
	c.Trace(1)
	c.Outcome(fmt.Sprint(len(buf)))
	return s.intact(nodes)
}

// dumpOK parses the textual dump and checks that it is isomorphic to the network.
func dumpOK(s spec, file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	blocks := map[string][]string{}
	var first, cur string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "":
		case strings.HasSuffix(l, "["):
			cur = strings.TrimSpace(strings.TrimSuffix(l, "["))
			if _, dup := blocks[cur]; dup {
				return fmt.Errorf("node %s appears twice", cur)
			}
			blocks[cur] = []string{}
			if first == "" {
				first = cur
			}
		case l == "]":
			cur = ""
		default:
			if cur == "" {
				return fmt.Errorf("stray line %q", l)
			}
			blocks[cur] = append(blocks[cur], l)
		}
	}
	if len(blocks) != len(s) {
		return fmt.Errorf("%d nodes dumped, network has %d", len(blocks), len(s))
	}
	name := make([]string, len(s))
	used := map[string]int{}
	var walk func(i int, nm string) error
	walk = func(i int, nm string) error {
		if name[i] != "" {
			if name[i] != nm {
				return fmt.Errorf("node %d has names %s and %s", i, name[i], nm)
			}
			return nil
		}
		if j, ok := used[nm]; ok {
			return fmt.Errorf("name %s for nodes %d and %d", nm, j, i)
		}
		name[i], used[nm] = nm, i
		body, ok := blocks[nm]
		if !ok {
			return fmt.Errorf("no entry for %s", nm)
		}
		n := s[i]
		if want := map[byte]byte{'S': 'S', 'P': 'P', 'L': 'L'}[n.Kind]; nm[0] != want {
			return fmt.Errorf("node %d is named %s", i, nm)
		}
		if n.Kind == 'L' {
			if len(body) != 1 {
				return fmt.Errorf("leaf %s has %d lines", nm, len(body))
			}
			var mu, sg float64
			switch n.Leaf.Kind {
			case 'M':
				for k, p := range n.Leaf.Pr {
					mu += p * float64(k)
				}
				for k, p := range n.Leaf.Pr {
					sg += p * (float64(k) - mu) * (float64(k) - mu)
				}
				sg = math.Sqrt(sg)
			case 'I':
				mu = float64(n.Leaf.Val)
			default:
				mu, sg = n.Leaf.Mu, n.Leaf.S
			}
			f := strings.Fields(body[0])
			if len(f) != 2 || !decEq(f[0], mu) || !decEq(f[1], sg) {
				return fmt.Errorf("leaf %s dumped as %q, want %v %v", nm, body[0], mu, sg)
			}
			return nil
		}
		if len(body) != len(n.Ch) {
			return fmt.Errorf("node %s has %d edges, want %d", nm, len(body), len(n.Ch))
		}
		for j, k := range n.Ch {
			f := strings.Fields(body[j])
			want := 1
			if n.Kind == 'S' {
				want = 2
			}
			if len(f) != want || (n.Kind == 'S' && !decEq(f[1], n.W[j])) {
				return fmt.Errorf("edge %d of %s dumped as %q, weight %v", j, nm, body[j], n.W)
			}
			if err := walk(k, f[0]); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(len(s)-1, first)
}

// decEq compares a printed number to a value at the printed precision of five decimals.
func decEq(s string, v float64) bool {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return false
	}
	return math.Abs(x-v) <= 1.1e-5 || math.Abs(x-v) <= 1e-9*math.Abs(v)
}

// ---------------------------------------------------------------- C06

func checkC06(c *Ctx) {
	menu := []leafSpec{ileaf(0, 1), mleaf(1, .5, .5), gleaf(2, 0, 1)}
	cfgs := []specCfg{
		{maxLeaves: 4, maxInternals: 3, maxNodes: 6, maxCh: 3, reverse: true, menu: menu, weights: []func(int, int) []float64{wNormal}},
		{maxLeaves: 3, maxInternals: 4, maxNodes: 7, maxCh: 2, menu: menu[:2], weights: []func(int, int) []float64{wNormal}},
	}
	if c.Thorough {
		cfgs = append(cfgs,
			specCfg{maxLeaves: 4, maxInternals: 3, maxNodes: 7, maxCh: 4, menu: menu, weights: []func(int, int) []float64{wNormal}},
			specCfg{maxLeaves: 2, maxInternals: 5, maxNodes: 7, maxCh: 3, menu: menu[:2], weights: []func(int, int) []float64{wNormal}})
	}
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 6, maxCh: 3, multi: true, menu: menu[:2], weights: []func(int, int) []float64{wNormal}})
	c.Bound("max_nodes_with_repeated_edges", 6)
	c.Bound("max_nodes", 7)
	c.Bound("variables", 3)
	c.changing(specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 4 + c.more(), maxCh: 3, menu: []leafSpec{ileaf(0, 0), ileaf(1, 0)}, weights: []func(int, int) []float64{wNormal}}, 2, c.c06on)
	for ci, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) {
			if ci > 0 && !cfg.multi && len(s) < cfg.maxNodes {
				return
			}
			c.Case(s.String, func() error { return c.c06(s) })
		})
	}
	// Variables of large and of congruent numbers.
	for _, m := range [][]leafSpec{
		{ileaf(3, 1), mleaf(67, .5, .5), gleaf(3+1<<16, 0, 1)},
		{ileaf(1<<33, 1), mleaf(200, .5, .5), gleaf(1<<33+1<<40, 0, 1)},
		{ileaf(64, 1), mleaf(65, .5, .5), gleaf(1<<32+64, 0, 1)},
	} {
		enumSpecs(specCfg{maxLeaves: 4, maxInternals: 3, maxNodes: 6, maxCh: 3, menu: m, weights: []func(int, int) []float64{wNormal}}, func(s spec) {
			c.Case(s.String, func() error { return c.c06(s) })
		})
	}
	families(c.Thorough, func(name string, s spec) {
		c.Case(func() string { return name }, func() error { return c.c06(s) })
		// Broken at one place: a leaf of another variable, a child less, a child more.
		step := 1 + len(s)/40
		for at := (len(s) - 1) % step; at < len(s); at += step {
			for kind := 0; kind < 4; kind++ {
				if !c.Mine() {
					c.Skip()
					continue
				}
				t, ok := s.spoil(at, kind)
				if !ok {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s, changed at node %d (%d)", name, at, kind) }, func() error { return c.c06(t) })
			}
		}
	})
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid, whole and changed at one of up to 41 nodes in four ways")
	c.Case(func() string { return fmt.Sprintf("products of %d variables", hugeSize) }, func() error { return c.hugeScopes() })
	c.Bound("very large networks", fmt.Sprintf("a product of %d variables, and with one variable twice", hugeSize))
	// Leaves of one kind with distant variable numbers, deep chains.
	for _, depth := range []int{1, 2, 5, 30} {
		for broken := -1; broken < depth; broken++ {
			for kind := 0; kind < 2; kind++ {
				s := spec{{Kind: 'L', Leaf: ileaf(0, 0)}, {Kind: 'L', Leaf: ileaf(40, 0)}, {Kind: 'L', Leaf: ileaf(41, 1)}, {Kind: 'P', Ch: []int{0, 1}}, {Kind: 'P', Ch: []int{1, 0}}}
				a, b := 3, 4
				for i := 0; i < depth; i++ {
					k := len(s)
					switch {
					case i == broken && kind == 0: // a sum with an incomplete child
						s = append(s, nodeSpec{Kind: 'S', Ch: []int{a, 0}, W: []float64{.5, .5}})
					case i == broken: // a product with overlapping children
						s = append(s, nodeSpec{Kind: 'P', Ch: []int{a, 1}})
					default:
						s = append(s, nodeSpec{Kind: 'S', Ch: []int{a, b}, W: []float64{.5, .5}})
					}
					a, b = k, a
				}
				s = append(s, nodeSpec{Kind: 'P', Ch: []int{a, 2}}, nodeSpec{Kind: 'S', Ch: []int{len(s)}, W: []float64{1}})
				s = prune(s)
				c.Case(func() string { return fmt.Sprintf("chain depth %d broken at %d kind %d", depth, broken, kind) }, func() error { return c.c06(s) })
			}
		}
	}
}

// spoil changes one node: a leaf gets another variable (of the next leaf, or a new one), an inner node loses or gains a child.
func (s spec) spoil(at, kind int) (spec, bool) {
	t := append(spec(nil), s...)
	n := t[at]
	if n.Kind == 'L' {
		switch kind {
		case 0:
			for i := at + 1; i < len(s); i++ {
				if s[i].Kind == 'L' && s[i].Leaf.Var != n.Leaf.Var {
					n.Leaf.Var = s[i].Leaf.Var
					t[at] = n
					return t, true
				}
			}
		case 1:
			for i := at - 1; i >= 0; i-- {
				if s[i].Kind == 'L' && s[i].Leaf.Var != n.Leaf.Var {
					n.Leaf.Var = s[i].Leaf.Var
					t[at] = n
					return t, true
				}
			}
		case 2:
			n.Leaf.Var += 1 << 20
			t[at] = n
			return t, true
		}
		return nil, false
	}
	n.Ch = append([]int(nil), n.Ch...)
	n.W = append([]float64(nil), n.W...)
	drop := func(i int) {
		n.Ch = append(n.Ch[:i], n.Ch[i+1:]...)
		if n.W != nil {
			n.W = append(n.W[:i], n.W[i+1:]...)
		}
	}
	add := func(x int) {
		n.Ch = append(n.Ch, x)
		if n.W != nil {
			n.W = append(n.W, .5)
		}
	}
	switch {
	case kind == 0 && len(n.Ch) > 1:
		drop(0)
	case kind == 1 && len(n.Ch) > 2:
		drop(len(n.Ch) - 1)
	case kind == 2:
		add(0)
	case kind == 3 && at > 1:
		add(at - 1)
	default:
		return nil, false
	}
	t[at] = n
	return prune(t), true
}

// prune drops nodes that are not reachable from the root.
func prune(s spec) spec {
	seen := make([]bool, len(s))
	seen[len(s)-1] = true
	for i := len(s) - 1; i >= 0; i-- {
		if seen[i] {
			for _, c := range s[i].Ch {
				seen[c] = true
			}
		}
	}
	m := make([]int, len(s))
	var r spec
	for i, n := range s {
		if !seen[i] {
			continue
		}
		m[i] = len(r)
		ch := make([]int, len(n.Ch))
		for j, x := range n.Ch {
			ch[j] = m[x]
		}
		n.Ch = ch
		r = append(r, n)
	}
	return r
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func (c *Ctx) c06(s spec) error { return c.c06on(s, nil) }

// c06on judges the given network, or a new one for every order of the queries.
func (c *Ctx) c06on(s spec, given []spn.SPN) error {
	wc, wd := s.complete(), s.decomposable()
	scs := s.scopes()
	setOf := vset.vars
	c.State(1)
	sorted := func(a []int) []int {
		r := append([]int(nil), a...)
		sort.Ints(r)
		return r
	}
	for pi, perm := range perms3 {
		for pre := 0; pre < 2; pre++ {
			if pre == 1 && pi%2 == 1 {
				continue
			}
			nodes := given
			if given == nil {
				nodes = s.build()
			} else if pre == 1 {
				continue // scopes asked for before a change are kept
			}
			root := nodes[len(nodes)-1]
			if pre == 1 { // ask scopes lazily first
				for i, n := range nodes {
					sc := n.Sc()
					if wc && wd && !intsEq(sorted(sc), setOf(scs[i])) {
						return fmt.Errorf("Sc of node %d is %v, want %v", i, sc, setOf(scs[i]))
					}
					c.Trans(1)
				}
			}
			for round := 0; round < 2; round++ {
				for _, q := range perm {
					c.Trans(1)
					switch q {
					case 0:
						if got := spn.Complete(root); got != wc {
							return fmt.Errorf("Complete is %v, want %v (query order %v, round %d)", got, wc, perm, round)
						}
					case 1:
						if got := spn.Decomposable(root); got != wd {
							return fmt.Errorf("Decomposable is %v, want %v (query order %v, round %d)", got, wd, perm, round)
						}
					default:
						if got := spn.ComputeScope(root); !intsEq(sorted(got), setOf(scs[len(s)-1])) {
							return fmt.Errorf("ComputeScope is %v, want %v", got, setOf(scs[len(s)-1]))
						}
						for i, n := range nodes {
							if got := n.Sc(); !intsEq(sorted(got), setOf(scs[i])) {
								return fmt.Errorf("scope of node %d is %v after ComputeScope, want %v", i, got, setOf(scs[i]))
							}
						}
					}
				}
			}
			if err := s.intact(nodes); err != nil {
				return err
			}
			c.Trace(1)
		}
	}
	c.Outcome(fmt.Sprint(wc, wd, len(s)))
	return nil
}

// ---------------------------------------------------------------- C26

func checkC26(c *Ctx) {
	vals := []float64{0, 1, .25, -1, 3, -.5, 1e-12, 1e9}
	maxLen := 4
	if c.Thorough {
		maxLen = 5
	}
	c.Bound("vector_length", maxLen)
	ok := func(v []float64) bool {
		mn, t := 0.0, 0.0
		for _, x := range v {
			mn = math.Min(mn, x)
		}
		for _, x := range v {
			t += x - mn
		}
		return t > 0
	}
	judge := func(in, out []float64) error {
		mn := 0.0
		for _, x := range in {
			mn = math.Min(mn, x)
		}
		t := 0.0
		for _, x := range in {
			t += x - mn
		}
		if len(in) != len(out) {
			return fmt.Errorf("%v became %v", in, out)
		}
		var sum float64
		for i := range in {
			if w := (in[i] - mn) / t; !relEq(out[i], w) && math.Abs(out[i]-w) > 1e-12 {
				return fmt.Errorf("%v became %v: entry %d should be %v", in, out, i, w)
			}
			if !(out[i] >= 0) {
				return fmt.Errorf("%v became %v: negative", in, out)
			}
			sum += out[i]
		}
		if math.Abs(sum-1) > 1e-9 {
			return fmt.Errorf("%v became %v, which adds up to %v", in, out, sum)
		}
		return nil
	}
	// Vectors, through both entry points and as the only sum of a network.
	near := []float64{.5, .5 + 1e-7, .25, .25 - 1e-6, 1 - 1e-7, 1e-8, 1e-300, -1e-9} // almost normalised
	for n := 1; n <= 2*maxLen; n++ {
		vals, n := vals, n
		if n > maxLen {
			vals, n = near, n-maxLen
		}
		enumTuples(n, len(vals), func(ix []int) {
			v := make([]float64, n)
			for i, k := range ix {
				v[i] = vals[k]
			}
			if !ok(v) {
				return
			}
			c.Case(func() string { return fmt.Sprintf("weights %v", v) }, func() error {
				a := append([]float64(nil), v...)
				learn.Normalize(a)
				if err := judge(v, a); err != nil {
					return fmt.Errorf("Normalize: %v", err)
				}
				z := spn.NewSum()
				for _, w := range v {
					z.AddChildW(spn.NewIndicator(0, 0), w)
				}
				if spn.NormalizeSPN(z) != spn.SPN(z) {
					return fmt.Errorf("NormalizeSPN returned another network")
				}
				if err := judge(v, z.Weights()); err != nil {
					return fmt.Errorf("NormalizeSPN: %v", err)
				}
				c.State(1)
				c.Trans(2)
				c.Trace(1)
				c.Outcome(fmt.Sprintf("%.6g", a))
				return nil
			})
		})
	}
	ws := []func(int, int) []float64{wRaw, wNormal, wWild, func(node, n int) []float64 {
		return rot([][]float64{{}, {.5}, {-1, 3}, {-.5, 2, 0}, {1, -3, .5, .5}}[n], node)
	}}
	cfg := specCfg{maxLeaves: 3, maxInternals: 4, maxNodes: 6, maxCh: 3, reverse: true, menu: []leafSpec{mleaf(0, .3, .6), gleaf(1, 2, 3)}, weights: ws}
	c.Bound("max_nodes", cfg.maxNodes)
	mcfg := cfg
	mcfg.multi, mcfg.maxNodes, mcfg.reverse = true, 5, false
	both := func(y func(spec)) {
		enumSpecs(cfg, y)
		enumSpecs(mcfg, y)
		families(c.Thorough, func(_ string, s spec) {
			for i := range s {
				for j := range s[i].W {
					s[i].W[j] = s[i].W[j]*float64(i+1) - float64((i*j)%3)/4
				}
			}
			y(s)
		})
	}
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid")
	both(func(s spec) {
		c.Case(s.String, func() error {
			nodes := s.build()
			root := nodes[len(nodes)-1]
			if spn.NormalizeSPN(root) != root {
				return fmt.Errorf("NormalizeSPN returned another network")
			}
			t := append(spec(nil), s...)
			for i, n := range s {
				if n.Kind != 'S' {
					continue
				}
				W := nodes[i].(*spn.Sum).Weights()
				if err := judge(n.W, W); err != nil {
					return fmt.Errorf("sum %d: %v", i, err)
				}
				t[i].W = append([]float64(nil), W...)
			}
			c.State(1)
			c.Trans(1)
			c.Trace(1)
			return t.intact(nodes)
		})
	})
}
