package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	register("C07", "a case is one network; all evidences, work lists and short evidence batches are derived and every table entry is compared with exact derivatives", checkC07)
	register("C08", "a case is one network, one data set and one parameter combination; the final weights are compared with a reference learner", checkC08)
	register("C09", "a case is one network, one labelled data set and one parameter combination; the final weights are compared with a reference learner", checkC09)
}

func lists() []func() common.Collection {
	return []func() common.Collection{
		func() common.Collection { return nil },
		func() common.Collection { return &common.Queue{} },
		func() common.Collection { return &common.Stack{} },
	}
}

// ---------------------------------------------------------------- C07

func checkC07(c *Ctx) {
	menu := []leafSpec{mleaf(0, .25, .75), mleaf(1, 1./3, 2./3), ileaf(0, 1), gleaf(1, 1, .7), mleaf(0, 1e-120, 1)}
	ws := []func(int, int) []float64{wNormal, wZero, wRaw}
	cfgs := []specCfg{
		{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, reverse: true, menu: menu, weights: ws},
		{maxLeaves: 3, maxInternals: 4, maxNodes: 6, maxCh: 3, menu: menu[:2], weights: ws[:1]},
	}
	if c.Thorough {
		cfgs[0].ordered, cfgs[0].reverse = true, false
		cfgs[1].menu, cfgs[1].weights, cfgs[1].reverse = menu[:3], ws, true
		cfgs = append(cfgs, specCfg{maxLeaves: 2, maxInternals: 5, maxNodes: 7, maxCh: 3, menu: menu[:2], weights: ws[:1]})
	}
	c.Bound("max_nodes", cfgs[len(cfgs)-1].maxNodes)
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, menu: menu[:3], weights: ws[:2]})
	cfgs = append(cfgs, specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, menu: append([]leafSpec{ileaf(0, 0)}, menu[:3]...), weights: []func(int, int) []float64{wWild}})
	c.Bound("weights", "of similar size, zero, unnormalised, and from 1e-300 to 1")
	c.Bound("max_nodes_with_repeated_edges", 5)
	c.Bound("batch", 3)
	for ci, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) {
			if (ci > 0 && !cfg.multi && len(s) < cfg.maxNodes) || len(s) < 2 {
				return
			}
			c.Case(s.String, func() error { return c.c07(s, ci == 0) })
		})
	}
	families(c.Thorough, func(name string, s spec) {
		c.Case(func() string { return name }, func() error { return c.c07(s, false) })
	})
	c.changing(specCfg{maxLeaves: 3, maxInternals: 3, maxNodes: 4, maxCh: 3, menu: menu[:2], weights: ws[:1]}, 1+c.more(), func(s spec, nodes []spn.SPN) error { return c.c07on(s, nodes, false) })
	c.Bound("families", "larger mixtures, chains, trees, network polynomials, wide and deep networks for each size of a grid")
}

func (c *Ctx) c07(s spec, batches bool) error { return c.c07on(s, s.build(), batches) }

func (c *Ctx) c07on(s spec, nodes []spn.SPN, batches bool) error {
	root := nodes[len(nodes)-1]
	id := map[spn.SPN]int{}
	for i, n := range nodes {
		id[n] = i
	}
	valid := s.complete() && s.decomposable()
	var evs []map[int]int
	enumEvidenceCap(s.vars(), s.vals, 120, func(I map[int]int) { evs = append(evs, I) })
	st := spn.NewStorer()
	itk, dtk, wtk := st.NewTicket(), st.NewTicket(), st.NewTicket()
	c.State(1)
	type der struct {
		d  []xf
		dw [][]xf
	}
	ref := make([]der, len(evs))
	for k, I := range evs {
		_, d, dw := s.derive(I)
		ref[k] = der{d, dw}
		st.ResetTickets(itk)
		spn.StoreInference(root, varset(I), itk, st)
		for li, mk := range lists() {
			st.ResetTickets(dtk, wtk)
			t := dtk
			if li == 0 {
				t = -1
			}
			R, t := learn.DeriveSPN(root, st, t, itk, mk())
			if R != root || (li > 0 && t != dtk) || (li == 0 && (t == dtk || t == itk || t == wtk)) {
				return fmt.Errorf("DeriveSPN returned %v, ticket %d", R, t)
			}
			c.Trans(2)
			for i, n := range nodes {
				got, ok := st.Single(t, n)
				if !ok || !logEq(got, d[i].log()) {
					return fmt.Errorf("derivative of node %d under %s (work list %d) is %v (stored %v), want %v", i, fmtI(I), li, got, ok, d[i].log())
				}
			}
			u := wtk
			if li == 0 {
				u = -1
			}
			_, u = learn.DeriveWeights(root, st, u, t, itk, mk())
			b := -1
			_, b = learn.DeriveWeightsBatch(root, st, b, t, itk, mk())
			for i, n := range nodes {
				for _, x := range []int{u, b} {
					m, ok := st.Value(x, n)
					if (s[i].Kind == 'S') != ok {
						return fmt.Errorf("weight derivatives of node %d (%c): stored %v", i, s[i].Kind, ok)
					}
					if len(m) != len(dw[i]) {
						return fmt.Errorf("sum %d has %d weight derivatives", i, len(m))
					}
					for j, w := range dw[i] {
						got, ok := m[j]
						if !ok || !logEq(got, w.log()) {
							return fmt.Errorf("derivative of weight %d of sum %d under %s (work list %d) is %v (stored %v), want %v", j, i, fmtI(I), li, got, ok, w.log())
						}
					}
				}
			}
			st.Delete(b)
			if li == 0 {
				st.Delete(t)
				st.Delete(u)
			}
			c.Trans(2)
		}
		c.Trace(1)
		c.Outcome(fmt.Sprintf("%.3g", d[0].log()))
	}
	// Batches: all sequences of up to three evidences (all pairs, and triples over the first three).
	if batches {
		for a := range evs {
			for b := range evs {
				for t := -1; t < 3 && t < len(evs); t++ {
					if t >= 0 && (a > 2 || b > 2) {
						continue
					}
					seq := []int{a, b}
					if t >= 0 {
						seq = append(seq, t)
					}
					st.ResetTickets(wtk)
					acc := make([][]xf, len(s))
					for _, k := range seq {
						st.ResetTickets(itk, dtk)
						spn.StoreInference(root, varset(evs[k]), itk, st)
						learn.DeriveSPN(root, st, dtk, itk, nil)
						learn.DeriveWeightsBatch(root, st, wtk, dtk, itk, nil)
						c.Trans(1)
						for i := range s {
							for j, w := range ref[k].dw[i] {
								if acc[i] == nil {
									acc[i] = make([]xf, len(s[i].Ch))
								}
								acc[i][j] = acc[i][j].add(w)
							}
						}
					}
					for i, n := range nodes {
						for j, w := range acc[i] {
							if got, ok := st.Entry(wtk, n, j); !ok || !logEq(got, w.log()) {
								return fmt.Errorf("batch %v: accumulated derivative of weight %d of sum %d is %v, want %v", seq, j, i, got, w.log())
							}
						}
					}
					c.Trace(1)
				}
			}
		}
	}
	// Hard derivatives, all tie-breaks.
	if valid {
		for a, I := range evs {
			mxa := s.evalMax(I)
			J := evs[(a+1)%len(evs)]
			mxb := s.evalMax(J)
			dev := 0
			if ties(s, mxa) || ties(s, mxb) {
				dev = 2
			}
			_, _, err := exploreChoices(dev, 8, 0, func(t *tape) (e error) {
				withSysRandom(t, intChoices(3), func() {
					st := spn.NewStorer()
					k := learn.DeriveHard(root, st, -1, varset(I))
					ca, err := hardCounts(s, nodes, id, mxa, st, k)
					if err != nil {
						e = fmt.Errorf("hard derivative under %s: %v", fmtI(I), err)
						return
					}
					k2 := learn.DeriveHard(root, st, k, varset(J))
					if k2 != k {
						e = fmt.Errorf("DeriveHard changed ticket %d to %d", k, k2)
						return
					}
					// The second evidence adds exactly one MAP tree.
					tab := spn.NewStorer()
					tk := tab.NewTicket()
					for i, n := range nodes {
						m, _ := st.Value(k, n)
						for j, v := range m {
							if v -= ca[i][j]; v != 0 {
								tab.Store(tk, n, j, v)
							}
						}
					}
					if _, err := hardCounts(s, nodes, id, mxb, tab, tk); err != nil {
						e = fmt.Errorf("hard derivative under %s accumulated after %s: %v", fmtI(J), fmtI(I), err)
					}
					c.Trans(2)
					c.Trace(1)
				})
				return e
			})
			if err != nil {
				return err
			}
		}
	}
	return s.intact(nodes)
}

func ties(s spec, mx []xf) bool {
	for i, n := range s {
		k := 0
		for j, ch := range n.Ch {
			if n.Kind == 'S' && almost(xof(n.W[j]).mul(mx[ch]).log(), mx[i].log()) {
				k++
			}
		}
		if k > 1 {
			return true
		}
	}
	return false
}

// hardCounts checks that the counts in the table are one MAP tree and returns them.
func hardCounts(s spec, nodes []spn.SPN, id map[spn.SPN]int, mx []xf, st *spn.Storer, tk int) ([]map[int]float64, error) {
	r := make([]map[int]float64, len(s))
	total := 0
	for i, n := range nodes {
		m, _ := st.Value(tk, n)
		r[i] = map[int]float64{}
		for j, v := range m {
			if v == 0 {
				continue
			}
			r[i][j] = v
			total++
			if s[i].Kind != 'S' || v != 1 || j < 0 || j >= len(s[i].Ch) {
				return nil, fmt.Errorf("count %v at edge %d of node %d (%c)", v, j, i, s[i].Kind)
			}
			if got := xof(s[i].W[j]).mul(mx[s[i].Ch[j]]); !logEq(got.log(), mx[i].log()) {
				return nil, fmt.Errorf("edge %d of sum %d is counted but is not a maximum", j, i)
			}
		}
	}
	on := 0
	var walk func(i int) error
	walk = func(i int) error {
		switch s[i].Kind {
		case 'S':
			if len(r[i]) != 1 {
				return fmt.Errorf("sum %d on the MAP path has counts %v", i, r[i])
			}
			on++
			for j := range r[i] {
				return walk(s[i].Ch[j])
			}
		case 'P':
			for _, ch := range s[i].Ch {
				if e := walk(ch); e != nil {
					return e
				}
			}
		}
		return nil
	}
	if e := walk(len(s) - 1); e != nil {
		return nil, e
	}
	if on != total {
		return nil, fmt.Errorf("%d edges counted, %d on the MAP path", total, on)
	}
	return r, nil
}

// ---------------------------------------------------------------- reference learner

func (s spec) copyW() spec {
	r := append(spec(nil), s...)
	for i := range r {
		r[i].W = append([]float64(nil), s[i].W...)
	}
	return r
}

// refNormalise is the defined normalisation; ok is false when it is undefined.
func refNormalise(w []float64) bool {
	mn, t := 0.0, 0.0
	for _, x := range w {
		mn = math.Min(mn, x)
	}
	for i := range w {
		w[i] -= mn
		t += w[i]
	}
	if !(t > 1e-9) || math.IsInf(t, 0) {
		return false
	}
	for i := range w {
		w[i] /= t
	}
	return true
}

// mapEdges returns the MAP edge of each sum on the path; ok is false on ties or zero maximum.
func (s spec) mapEdges(I map[int]int) (map[int]int, bool) {
	mx := s.evalMax(I)
	if mx[len(s)-1].m == 0 {
		return nil, false
	}
	r := map[int]int{}
	ok := true
	seen := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if seen[i] {
			ok = false // shared on the path: not a decomposable network
			return
		}
		seen[i] = true
		switch s[i].Kind {
		case 'S':
			best, k := -1, 0
			for j, ch := range s[i].Ch {
				if logEq(xof(s[i].W[j]).mul(mx[ch]).log(), mx[i].log()) {
					k++
					best = j
				}
			}
			if k != 1 {
				ok = false
				return
			}
			r[i] = best
			walk(s[i].Ch[best])
		case 'P':
			for _, ch := range s[i].Ch {
				walk(ch)
			}
		}
	}
	walk(len(s) - 1)
	return r, ok
}

type learnCfg struct {
	hard, norm   bool
	eta, lambda  float64
	batch, iters int
}

func (l learnCfg) String() string {
	return fmt.Sprintf("hard=%v norm=%v eta=%v lambda=%v batch=%d iters=%d", l.hard, l.norm, l.eta, l.lambda, l.batch, l.iters)
}

// refLearn is the reference: Y nil means generative.
func refLearn(s spec, D []map[int]int, Y []int, l learnCfg) (spec, bool) {
	s = s.copyW()
	b := l.batch
	batched := b > 1
	if !batched {
		b = 1
	}
	acc := make([][]float64, len(s)) // accumulated gradient or counts
	touched := make([]bool, len(s))
	reset := func() {
		for i := range s {
			acc[i] = make([]float64, len(s[i].W))
			touched[i] = false
		}
	}
	reset()
	sane := true
	apply := func() {
		for i := range s {
			if s[i].Kind != 'S' || !touched[i] {
				continue
			}
			for j, w := range s[i].W {
				if l.hard {
					if acc[i][j] != 0 {
						if w == 0 {
							sane = false // the hard step divides by the weight
						}
						s[i].W[j] = w + l.eta*acc[i][j]/(w*float64(b)) - 2*l.lambda*w
					}
				} else {
					lam := l.lambda
					if Y == nil && !batched {
						lam = 0 // the plain soft step has no regularisation term
					}
					s[i].W[j] = w + l.eta*acc[i][j]/float64(b) - 2*lam*w
				}
				if !l.norm && s[i].W[j] < 1e-6 && s[i].W[j] != 0 {
					sane = false // negative weights without normalisation: not a network any more
				}
			}
			if l.norm && !refNormalise(s[i].W) {
				sane = false
			}
			// Weights next to zero amplify rounding in the next hard step; stay away. Zero itself is
			// never on the best path.
			for _, w := range s[i].W {
				if math.IsNaN(w) || w > 1e6 || (l.hard && w < 1e-6 && w != 0) {
					sane = false
				}
			}
		}
		reset()
	}
	drop := func(I map[int]int) map[int]int {
		J := cloneMap(I)
		for _, y := range Y {
			delete(J, y)
		}
		return J
	}
	n := 0
	for it := 0; it < l.iters && sane; it++ {
		for _, I := range D {
			if l.hard {
				E, ok := s.mapEdges(I)
				if !ok {
					return s, false
				}
				for i, j := range E {
					acc[i][j]++
					touched[i] = true
				}
				if Y != nil {
					F, ok := s.mapEdges(drop(I))
					if !ok {
						return s, false
					}
					for i, j := range F {
						acc[i][j]--
						touched[i] = true
					}
				}
			} else {
				v, _, dw := s.derive(I)
				var vz []xf
				var du [][]xf
				if Y != nil {
					vz, _, du = s.derive(drop(I))
					if v[len(s)-1].m == 0 {
						return s, false // conditional likelihood of impossible evidence
					}
				}
				for i := range s {
					if s[i].Kind != 'S' {
						continue
					}
					touched[i] = true
					for j := range s[i].W {
						if Y == nil {
							acc[i][j] += dw[i][j].float()
						} else {
							acc[i][j] += math.Exp(dw[i][j].log()-v[len(s)-1].log()) - math.Exp(du[i][j].log()-vz[len(s)-1].log())
						}
					}
				}
			}
			n++
			if n%b == 0 {
				apply()
				if !sane {
					return s, false
				}
			}
		}
		if Y == nil && n%b != 0 { // generative batches end with the pass
			apply()
			n = 0
		}
	}
	if n%b != 0 {
		apply()
	}
	return s, sane
}

func weightsMatch(want spec, nodes []spn.SPN, orig spec) error {
	got := orig.copyW()
	for i, n := range want {
		if n.Kind != 'S' {
			continue
		}
		W := nodes[i].(*spn.Sum).Weights()
		if len(W) != len(n.W) {
			return fmt.Errorf("sum %d now has %d weights", i, len(W))
		}
		for j := range W {
			if math.IsNaN(W[j]) || math.Abs(W[j]-n.W[j]) > 1e-7*(1+math.Abs(n.W[j])) {
				return fmt.Errorf("weights of sum %d are %v, want %v (from %v)", i, W, n.W, orig[i].W)
			}
		}
		got[i].W = append([]float64(nil), W...)
	}
	return got.intact(nodes)
}

// learnNets are networks for the learning checks: a mixture of products, a deep one with sharing,
// one with a sum below a product, a single sum over indicators, and all valid small graphs.
func learnNets(c *Ctx, maxNodes int) []spec {
	a := spec{{Kind: 'L', Leaf: mleaf(0, .3, .7)}, {Kind: 'L', Leaf: mleaf(0, .8, .2)}, {Kind: 'L', Leaf: mleaf(1, .6, .4)}, {Kind: 'L', Leaf: mleaf(1, .1, .9)},
		{Kind: 'P', Ch: []int{0, 2}}, {Kind: 'P', Ch: []int{1, 3}}, {Kind: 'S', Ch: []int{4, 5}, W: []float64{.35, .65}}}
	b := spec{{Kind: 'L', Leaf: ileaf(0, 0)}, {Kind: 'L', Leaf: ileaf(0, 1)}, {Kind: 'L', Leaf: ileaf(1, 0)}, {Kind: 'L', Leaf: ileaf(1, 1)},
		{Kind: 'S', Ch: []int{0, 1}, W: []float64{.3, .7}}, {Kind: 'S', Ch: []int{0, 1}, W: []float64{.6, .4}}, {Kind: 'S', Ch: []int{2, 3}, W: []float64{.2, .8}}, {Kind: 'S', Ch: []int{3, 2}, W: []float64{.45, .55}},
		{Kind: 'P', Ch: []int{4, 6}}, {Kind: 'P', Ch: []int{5, 6}}, {Kind: 'P', Ch: []int{4, 7}}, {Kind: 'S', Ch: []int{8, 9, 10}, W: []float64{.5, .2, .3}}}
	d := spec{{Kind: 'L', Leaf: mleaf(0, .3, .7)}, {Kind: 'L', Leaf: mleaf(0, .9, .1)}, {Kind: 'L', Leaf: gleaf(1, .2, 1)}, {Kind: 'L', Leaf: gleaf(1, 1.5, .8)},
		{Kind: 'S', Ch: []int{0, 1}, W: []float64{.4, .6}}, {Kind: 'S', Ch: []int{2, 3}, W: []float64{.25, .75}}, {Kind: 'P', Ch: []int{4, 5}}, {Kind: 'S', Ch: []int{6}, W: []float64{1}}}
	// two sums at different depths sharing a sum
	e := spec{{Kind: 'L', Leaf: mleaf(0, .3, .7)}, {Kind: 'L', Leaf: mleaf(0, .55, .45)}, {Kind: 'L', Leaf: mleaf(1, .2, .8)},
		{Kind: 'S', Ch: []int{0, 1}, W: []float64{.4, .6}}, {Kind: 'S', Ch: []int{3, 1}, W: []float64{.7, .3}}, {Kind: 'S', Ch: []int{4, 3, 0}, W: []float64{.3, .5, .2}}, {Kind: 'P', Ch: []int{5, 2}}}
	r := []spec{a, b, d, e}
	enumSpecs(specCfg{maxLeaves: 3, maxInternals: 4, maxNodes: maxNodes, maxCh: 2, menu: []leafSpec{mleaf(0, .35, .65), mleaf(0, .9, .1), mleaf(1, .2, .8)},
		weights: []func(int, int) []float64{wNormal}}, func(s spec) {
		if !s.complete() || !s.decomposable() {
			return
		}
		sums := false
		for _, n := range s {
			sums = sums || n.Kind == 'S' && len(n.Ch) > 1
		}
		if sums {
			r = append(r, s)
		}
	})
	// The same mixture and the deep network with children of weight zero or next to it.
	for _, ws := range [][][]float64{{{0, 1}, {0, .5, .5}}, {{1, 0}, {.6, .4, 0}}, {{1e-4, 1}, {1, 1e-5, 1e-4}}} {
		for _, t := range []spec{a, b} {
			u := append(spec(nil), t...)
			for i, n := range u {
				if n.Kind == 'S' && (i == len(u)-1 || i == 4) {
					u[i].W = append([]float64(nil), ws[len(n.Ch)-2]...)
				}
			}
			r = append(r, u)
		}
	}
	return r
}

func learnData(vars []int, maxN int, partial bool) [][]map[int]int {
	var inst []map[int]int
	enumEvidence(vars, binary, func(I map[int]int) {
		if len(I) == len(vars) || (partial && len(I) > 0) {
			inst = append(inst, I)
		}
	})
	var r [][]map[int]int
	for n := 0; n <= maxN; n++ {
		enumTuples(n, len(inst), func(ix []int) {
			D := []map[int]int{}
			for _, k := range ix {
				D = append(D, inst[k])
			}
			r = append(r, D)
		})
	}
	return r
}

func fmtD(D []map[int]int) string {
	s := make([]string, len(D))
	for i := range D {
		s[i] = fmtI(D[i])
	}
	return "[" + strings.Join(s, " ") + "]"
}

func learnCfgs(thorough bool) []learnCfg {
	var r []learnCfg
	for _, hard := range []bool{false, true} {
		for _, norm := range []bool{true, false} {
			for _, b := range []int{0, 1, 2, 3} {
				for _, it := range []int{1, 2, 3} {
					if !thorough && it == 3 && b != 2 {
						continue
					}
					r = append(r, learnCfg{hard: hard, norm: norm, eta: .1, lambda: .02, batch: b, iters: it})
				}
			}
		}
	}
	r = append(r, learnCfg{false, true, .5, 0, 2, 1}, learnCfg{true, true, .03, .1, 1, 1}, learnCfg{false, true, .1, .01, 0, 0})
	return r
}

func toDataset(D []map[int]int) spn.Dataset {
	r := make(spn.Dataset, len(D))
	for i := range D {
		r[i] = cloneMap(D[i])
	}
	return r
}

// ---------------------------------------------------------------- C08

func checkC08(c *Ctx) {
	mn, md := 5, 3
	if c.Thorough {
		mn, md = 6, 4
	}
	nets := learnNets(c, mn)
	c.Bound("networks", len(nets))
	c.Bound("instances", md)
	for ni, s := range nets {
		m := md
		if ni > 3 {
			m = md - 1
		}
		for _, D := range learnData(s.vars(), m, ni < 3) {
			if ni < 3 && len(D) > 2 && !completeData(D, s.vars()) && !c.Thorough {
				continue
			}
			for _, l := range learnCfgs(c.Thorough) {
				for entry := 0; entry < 2; entry++ {
					if !c.Mine() {
						c.Skip()
						continue
					}
					c.Case(func() string { return fmt.Sprintf("entry %d %v data %s on %v", entry, l, fmtD(D), s) }, func() error {
						return c.c08(s, D, l, entry)
					})
				}
			}
		}
	}
	learnFamilies(c, func(name string, s spec, D []map[int]int, l learnCfg) {
		for entry := 0; entry < 2; entry++ {
			if !c.Mine() {
				c.Skip()
				continue
			}
			c.Case(func() string { return fmt.Sprintf("entry %d %v on %d instances, %s", entry, l, len(D), name) }, func() error {
				return c.c08(s, D, l, entry)
			})
		}
	})
	// Nothing bound: documented defaults.
	s := nets[0]
	c.Case(func() string { return "default parameters" }, func() error {
		nodes := s.build()
		root := nodes[len(nodes)-1]
		D := []map[int]int{{0: 1, 1: 0}, {0: 0, 1: 0}}
		p := parameters.Default()
		want, _ := refLearn(s, D, nil, learnCfg{hard: parameters.Hardness(p.LearningType) == parameters.Hard, norm: p.Normalize, eta: p.Eta, lambda: p.Lambda, batch: p.BatchSize, iters: p.Iterations})
		learn.Generative(root, toDataset(D))
		parameters.Unbind(root)
		return weightsMatch(want, nodes, s)
	})
}

func completeData(D []map[int]int, vars []int) bool {
	for _, I := range D {
		if len(I) != len(vars) {
			return false
		}
	}
	return true
}

func ltype(l learnCfg) int {
	if l.hard {
		return parameters.HardGD
	}
	return parameters.SoftGD
}

func (c *Ctx) c08(s spec, D []map[int]int, l learnCfg, entry int) error {
	want, ok := refLearn(s, D, nil, l)
	if !ok {
		c.Outcome("skipped: tie or undefined")
		return nil
	}
	nodes := s.build()
	root := nodes[len(nodes)-1]
	data := toDataset(D)
	again := false
once:
	var R spn.SPN
	if entry == 0 {
		parameters.Bind(root, parameters.New(l.norm, false, .01, ltype(l), l.eta, 1, l.batch, l.lambda, l.iters))
		R = learn.Generative(root, data)
	} else {
		// Entry points with explicit arguments; only lambda and iterations come from the binding.
		parameters.Bind(root, parameters.New(!l.norm, false, .01, 1-ltype(l), 77, 1, 55, l.lambda, l.iters))
		var col common.Collection
		if len(D)%2 == 0 {
			col = &common.Stack{}
		}
		switch {
		case l.hard && l.batch > 1:
			R = learn.GenerativeHardBGD(root, l.eta, 1, data, col, l.norm, l.batch)
		case l.hard:
			R = learn.GenerativeHardGD(root, l.eta, 1, data, col, l.norm)
		case l.batch > 1:
			R = learn.GenerativeBGD(root, l.eta, 1, data, col, l.norm, l.batch)
		default:
			R = learn.GenerativeGD(root, l.eta, 1, data, col, l.norm)
		}
	}
	parameters.Unbind(root)
	c.State(1)
	c.Trans(len(D) * l.iters)
	c.Trace(1)
	if R != root {
		return fmt.Errorf("returned another network")
	}
	if !dataEq(D, []map[int]int(data)) {
		return fmt.Errorf("data changed to %s", fmtD(data))
	}
	c.Outcome(fmt.Sprintf("%.5g", want[len(s)-1].W))
	if err := weightsMatch(want, nodes, s); err != nil || again {
		if again && err != nil {
			err = fmt.Errorf("learning on: %v", err)
		}
		return err
	}
	if want, ok = refLearn(want, D, nil, l); !ok {
		return nil
	}
	again = true
	goto once
}

// ---------------------------------------------------------------- C09

func checkC09(c *Ctx) {
	mn, md := 5, 3
	if c.Thorough {
		mn, md = 6, 4
	}
	nets := learnNets(c, mn)
	c.Bound("networks", len(nets))
	c.Bound("instances", md)
	for ni, s := range nets {
		vars := s.vars()
		m := md
		if ni > 3 {
			m = md - 1
		}
		DD := learnData(vars, m, false)
		pm := 1 // instances that lack some values, of the query or others
		if ni < 40 {
			pm = 2
		}
		for _, D := range learnData(vars, pm, true) {
			for _, I := range D {
				if len(I) < len(vars) {
					DD = append(DD, D)
					break
				}
			}
		}
		for _, D := range DD {
			var ys [][]int
			for _, v := range vars {
				ys = append(ys, []int{v})
			}
			if len(vars) > 1 {
				ys = append(ys, vars)
			}
			for _, Y := range ys {
				for _, l := range learnCfgs(c.Thorough) {
					for entry := 0; entry < 2; entry++ {
						if !c.Mine() {
							c.Skip()
							continue
						}
						c.Case(func() string { return fmt.Sprintf("entry %d query %v %v data %s on %v", entry, Y, l, fmtD(D), s) }, func() error {
							return c.c09(s, D, Y, l, entry)
						})
					}
				}
			}
		}
	}
	learnFamilies(c, func(name string, s spec, D []map[int]int, l learnCfg) {
		for entry := 0; entry < 2; entry++ {
			if !c.Mine() {
				c.Skip()
				continue
			}
			Y := s.vars()[:1]
			c.Case(func() string {
				return fmt.Sprintf("entry %d query %v %v on %d instances, %s", entry, Y, l, len(D), name)
			}, func() error {
				return c.c09(s, D, Y, l, entry)
			})
		}
	})
}

// learnFamilies yields larger networks with longer data sets and batches.
func learnFamilies(c *Ctx, yield func(name string, s spec, D []map[int]int, l learnCfg)) {
	c.Bound("families", "larger networks with data sets of 4, 7, 13 and 40 instances and batches of 1, 4, 5 and 16; small ones with 70 and 300 instances and batches of up to 299; wide ones (to 300 variables, 1000 nodes) with 4 instances")
	families(c.Thorough, func(name string, s spec) {
		if !s.complete() || !s.decomposable() || len(s) > 1000 {
			return
		}
		wide := len(s) > 80 || len(s.vars()) > 7
		for _, n := range []int{4, 7, 13, 40, 70, 300} {
			if wide && n != 4 || n > 40 && len(s) > 24 {
				continue
			}
			D := make([]map[int]int, n)
			for k := range D {
				D[k] = map[int]int{}
				for j, v := range s.vars() {
					x := s.vals(v)
					D[k][v] = x[(k*(j+2)+k/3+j)%len(x)]
				}
				if n == 13 && k%3 == 1 { // some values are missing
					delete(D[k], s.vars()[k/3%len(s.vars())])
				}
			}
			for _, hard := range []bool{false, true} {
				for _, norm := range []bool{true, false} {
					bs := []int{1, 4, 5, 16}
					if n > 40 {
						bs = []int{1, 16, 64, 100, 299}
					} else if wide {
						bs = []int{1, 3}
					}
					for _, b := range bs {
						for _, it := range []int{1, 4} {
							if (n >= 40 || wide) && it > 1 {
								continue
							}
							yield(name, s, D, learnCfg{hard: hard, norm: norm, eta: .01, lambda: .001, batch: b, iters: it})
						}
					}
				}
			}
		}
	})
}

func (c *Ctx) c09(s spec, D []map[int]int, Y []int, l learnCfg, entry int) error {
	want, ok := refLearn(s, D, Y, l)
	if !ok {
		c.Outcome("skipped: tie or undefined")
		return nil
	}
	nodes := s.build()
	root := nodes[len(nodes)-1]
	data := toDataset(D)
	var V []*learn.Variable
	for _, y := range Y {
		V = append(V, &learn.Variable{Varid: y, Categories: 2, Name: fmt.Sprint("x", y)})
	}
	again := false
once:
	var R spn.SPN
	if entry == 0 {
		parameters.Bind(root, parameters.New(l.norm, false, .01, ltype(l), l.eta, 1, l.batch, l.lambda, l.iters))
		R = learn.Discriminative(root, data, V)
	} else {
		parameters.Bind(root, parameters.New(!l.norm, false, .01, 1-ltype(l), 77, 1, 55, l.lambda, l.iters))
		switch {
		case l.hard && l.batch > 1:
			R = learn.DiscriminativeHardBGD(root, l.eta, 1, data, V, l.norm, l.batch)
		case l.hard:
			R = learn.DiscriminativeHardGD(root, l.eta, 1, data, V, l.norm)
		case l.batch > 1:
			R = learn.DiscriminativeBGD(root, l.eta, 1, data, V, l.norm, l.batch)
		default:
			R = learn.DiscriminativeGD(root, l.eta, 1, data, V, l.norm)
		}
	}
	parameters.Unbind(root)
	c.State(1)
	c.Trans(len(D) * l.iters)
	c.Trace(1)
	if R != root {
		return fmt.Errorf("returned another network")
	}
	if !dataEq(D, []map[int]int(data)) {
		return fmt.Errorf("data changed to %s", fmtD(data))
	}
	c.Outcome(fmt.Sprintf("%.5g", want[len(s)-1].W))
	if err := weightsMatch(want, nodes, s); err != nil || again {
		if again && err != nil {
			err = fmt.Errorf("learning on: %v", err)
		}
		return err
	}
	if want, ok = refLearn(want, D, Y, l); !ok {
		return nil
	}
	again = true
	goto once
}
