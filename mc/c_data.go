package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"

	"verif/mc/vrand"
)

func init() {
	register("C14", "a case is one labelled data set scored by every evaluator, or one sequence of score operations compared with lists of pairs after every step", checkC14)
	register("C15", "a case is one data set with labels and arguments; every outcome of the random draws is executed", checkC15)
}

// permChoices are raw draws that make Intn(n), Shuffle and Float64 take every small outcome.
func permChoices() []int64 {
	var r []int64
	for i, f := range []float64{0, 0.34, 0.67, 0.99} {
		// Top bits for Shuffle, residue modulo 12 for Intn, low 53 bits for Float64.
		v := int64(f*(1<<10))<<21 | int64(f*(1<<21))
		v = v/12*12 + int64(i)
		r = append(r, v<<32)
	}
	return r
}

// withRandom lets the tape answer both the shared generator and the package-level one.
func withRandom(t *tape, vals []int64, fn func()) {
	r := rand.New(&rndSource{t, vals})
	old, oldg := sys.Random, vrand.Global
	sys.Random, vrand.Global = r, r
	defer func() { sys.Random, vrand.Global = old, oldg }()
	fn()
}

// ---------------------------------------------------------------- C14

// parseReport reads what a score prints.
func parseReport(s string) (hits, misses, total int, acc float64, wrong []score.Pair, err error) {
	hits, misses, total, acc = -1, -1, -1, -1
	for _, l := range strings.Split(s, "\n") {
		var a, b int
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Hits:"):
			fmt.Sscanf(t, "Hits: %d", &hits)
		case strings.HasPrefix(t, "Misses:"):
			fmt.Sscanf(t, "Misses: %d", &misses)
		case strings.HasPrefix(t, "Total:"):
			fmt.Sscanf(t, "Total: %d", &total)
		case strings.HasPrefix(t, "Accuracy:"):
			fmt.Sscanf(t, "Accuracy: %g", &acc)
		case strings.HasPrefix(t, "Expected"):
			if n, _ := fmt.Sscanf(t, "Expected %d, got %d.", &a, &b); n != 2 {
				return 0, 0, 0, 0, nil, fmt.Errorf("report line %q", l)
			}
			wrong = append(wrong, score.Pair{Predicted: b, Expected: a})
		}
	}
	return
}

// scoreIs compares everything a score shows with the list of pairs.
func scoreIs(s *score.S, want []score.Pair, k int, file string) error {
	hits := 0
	cm := make([][]int, k)
	for i := range cm {
		cm[i] = make([]int, k)
	}
	var wrong []score.Pair
	for _, p := range want {
		if p.Predicted == p.Expected {
			hits++
		} else {
			wrong = append(wrong, p)
		}
		cm[p.Expected][p.Predicted]++
	}
	if s.Hits() != hits || s.Misses() != len(want)-hits || s.Total() != len(want) {
		return fmt.Errorf("hits %d misses %d total %d, want %d %d %d", s.Hits(), s.Misses(), s.Total(), hits, len(want)-hits, len(want))
	}
	got := s.ConfusionMatrix(k)
	if fmt.Sprint(got) != fmt.Sprint(cm) {
		return fmt.Errorf("confusion matrix %v, want %v", got, cm)
	}
	for i := range got {
		for j := range got[i] {
			got[i][j] = 77
		}
	}
	text := s.String()
	if file != "" {
		s.Save(file)
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		if strings.TrimRight(string(b), "\n") != strings.TrimRight(text, "\n") {
			return fmt.Errorf("saved report %q differs from %q", b, text)
		}
		os.Remove(file)
	}
	h, m, t, acc, w, err := parseReport(text)
	if err != nil {
		return err
	}
	if h != hits || m != len(want)-hits || t != len(want) {
		return fmt.Errorf("report says %d hits %d misses %d in all, want %d %d %d", h, m, t, hits, len(want)-hits, len(want))
	}
	if len(want) > 0 && math.Abs(acc-float64(hits)/float64(len(want))) > 1e-5 {
		return fmt.Errorf("report says accuracy %v, want %d/%d", acc, hits, len(want))
	}
	if fmt.Sprint(w) != fmt.Sprint(wrong) {
		return fmt.Errorf("report lists wrong predictions %v, want %v", w, wrong)
	}
	return nil
}

func checkC14(c *Ctx) {
	nets := append(classNets(), classNetsMore()...)
	maxN := 3
	depth := 4
	if c.Thorough {
		maxN, depth = 4, 5
	}
	c.Bound("networks", len(nets))
	c.Bound("instances", maxN)
	c.Bound("score operations", depth)
	c.Assume("for an instance that every label makes impossible, and among tied labels, any prediction is accepted")
	// Every data set, every evaluator.
	for si, s := range nets {
		cv := classVar(s)
		for n := 0; n <= maxN; n++ {
			classData(n, cv.Categories, func(D []map[int]int, L []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				c.Case(func() string { return fmt.Sprintf("network %d data %s labels %v", si, fmtD(D), L) }, func() error {
					return c.c14eval(s, cv, D, L)
				})
			})
		}
	}
	// More than ten instances (progress messages), every size up to 25, and some beyond.
	for si, s := range nets {
		cv := classVar(s)
		for _, n := range []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 33, 64, 65, 130, 257, 1030} {
			D := make([]map[int]int, n)
			L := make([]int, n)
			for i := range D {
				D[i] = map[int]int{1: i * i % 2}
				L[i] = i % cv.Categories
				if i%2 == 0 {
					D[i][0] = L[i]
				}
			}
			c.Case(func() string { return fmt.Sprintf("network %d, %d instances", si, n) }, func() error { return c.c14eval(s, cv, D, L) })
		}
	}
	c.Bound("larger networks", "the families of networks with up to 1000 nodes, two class variables each, 4 to 22 patterned instances")
	classFamilies(c.Thorough, 1000, func(name string, s spec, cv *learn.Variable, D []map[int]int, L []int) {
		if !c.Mine() {
			c.Skip()
			return
		}
		c.Case(func() string { return name }, func() error { return c.c14eval(s, cv, D, L) })
	})
	// Long scores and many classes.
	for _, size := range [][2]int{{100, 3}, {300, 17}, {1000, 300}, {70000, 2}, {66000, 70}} {
		n, k := size[0], size[1]
		c.Case(func() string { return fmt.Sprintf("%d records of %d classes", n, k) }, func() error {
			a, b := score.NewScore(), score.NewScore()
			var A, B []score.Pair
			for i := 0; i < n; i++ {
				p := score.Pair{Predicted: i % k, Expected: i % k}
				if i%97 == 41 {
					p.Expected = (i/97*13 + i) % k
				}
				if i%3 == 0 {
					b.Register(p.Predicted, p.Expected)
					B = append(B, p)
				} else {
					a.Register(p.Predicted, p.Expected)
					A = append(A, p)
				}
			}
			c.Trans(n)
			c.State(1)
			c.Trace(1)
			file := filepath.Join(c.Scratch, "long.txt")
			if err := scoreIs(a, A, k, file); err != nil {
				return err
			}
			sum := score.Add(a, b)
			if err := scoreIs(sum, append(append([]score.Pair(nil), A...), B...), k, file); err != nil {
				return fmt.Errorf("sum: %w", err)
			}
			b.Merge(sum)
			if err := scoreIs(b, append(append(append([]score.Pair(nil), B...), A...), B...), k, file); err != nil {
				return fmt.Errorf("merge: %w", err)
			}
			return scoreIs(a, A, k, "")
		})
	}
	// Histories over three scores.
	ops := []string{"A+00", "A+01", "A+12", "B+10", "B+22", "A<-B", "B<-A", "A<-A", "C=A+B", "C=B+A", "C=A+A", "C+20", "A<-C", "clearA", "clearB", "evalA"}
	s0 := nets[0]
	cv0 := classVar(s0)
	// Starting with some records, so that lists have room to grow in place.
	starts := [][2]int{{0, 0}, {3, 0}, {0, 3}, {5, 3}, {3, 5}, {9, 6}}
	c.Bound("records before the score operations", starts)
	for d := 1; d <= depth; d++ {
		for _, start := range starts {
			enumTuples(d, len(ops), func(t []int) {
				if !c.Mine() {
					c.Skip()
					return
				}
				c.Case(func() string { return fmt.Sprintf("score history %v after %v records", seqNames(ops, t), start) }, func() error {
					real := []*score.S{score.NewScore(), score.NewScore(), score.NewScore()}
					var model [3][]score.Pair
					for i, n := range start {
						for j := 0; j < n; j++ {
							p := score.Pair{Predicted: j % 2, Expected: j % 3}
							real[i].Register(p.Predicted, p.Expected)
							model[i] = append(model[i], p)
						}
					}
					cp := func(x ...[]score.Pair) (r []score.Pair) {
						for _, y := range x {
							r = append(r, y...)
						}
						return
					}
					for step, x := range t {
						switch o := ops[x]; o {
						case "A<-B":
							real[0].Merge(real[1])
							model[0] = cp(model[0], model[1])
						case "B<-A":
							real[1].Merge(real[0])
							model[1] = cp(model[1], model[0])
						case "A<-A":
							real[0].Merge(real[0])
							model[0] = cp(model[0], model[0])
						case "A<-C":
							real[0].Merge(real[2])
							model[0] = cp(model[0], model[2])
						case "C=A+B":
							real[2] = score.Add(real[0], real[1])
							model[2] = cp(model[0], model[1])
						case "C=B+A":
							real[2] = score.Add(real[1], real[0])
							model[2] = cp(model[1], model[0])
						case "C=A+A":
							real[2] = score.Add(real[0], real[0])
							model[2] = cp(model[0], model[0])
						case "clearA":
							real[0].Clear()
							model[0] = nil
						case "clearB":
							real[1].Clear()
							model[1] = nil
						case "evalA":
							D := []map[int]int{{0: 1, 1: 0}, {1: 1}}
							real[0].EvaluatePosterior(toDataset(D), []int{1, 1}, s0.root(), cv0)
							model[0] = cp(model[0], []score.Pair{{Predicted: 0, Expected: 1}, {Predicted: 1, Expected: 1}})
						default:
							i := int(o[0] - 'A')
							p := score.Pair{Predicted: int(o[2] - '0'), Expected: int(o[3] - '0')}
							real[i].Register(p.Predicted, p.Expected)
							model[i] = cp(model[i], []score.Pair{p})
						}
						c.Trans(1)
						for i := range real {
							file := ""
							if step == len(t)-1 && i == 0 && x%4 == 0 {
								file = filepath.Join(c.Scratch, "score.txt")
							}
							if err := scoreIs(real[i], model[i], 3, file); err != nil {
								return fmt.Errorf("after step %d score %c: %w", step+1, 'A'+i, err)
							}
						}
					}
					c.State(d)
					c.Trace(1)
					return nil
				})
			})
		}
	}
}

func (s spec) root() spn.SPN { n := s.build(); return n[len(n)-1] }

// classNetsMore adds networks with two features and with a deeper structure.
func classNetsMore() []spec {
	inner := func(k byte, w []float64, ch ...int) nodeSpec { return nodeSpec{Kind: k, W: w, Ch: ch} }
	leaf := func(l leafSpec) nodeSpec { return nodeSpec{Kind: 'L', Leaf: l} }
	return []spec{
		// The most probable label differs from that of the MAP state.
		rev(spec{inner('S', []float64{0.375, 0.3125, 0.3125}, 1, 2, 3), inner('P', nil, 4, 7), inner('P', nil, 5, 8), inner('P', nil, 5, 9),
			leaf(mleaf(0, 1, 0)), leaf(mleaf(0, 0, 1)), leaf(mleaf(0, 0.5, 0.5)), leaf(mleaf(1, 0.5, 0.5)), leaf(mleaf(1, 0.5625, 0.4375)), leaf(mleaf(1, 0.53125, 0.46875))}),
		// Labels that are almost, but not quite, as probable as one another.
		rev(spec{inner('S', []float64{0.5, 0.5}, 1, 2), inner('P', nil, 3, 4), inner('P', nil, 5, 6),
			leaf(mleaf(0, 0.5+1e-6, 0.5-1e-6)), leaf(mleaf(1, 0.75, 0.25)), leaf(mleaf(0, 0.5-2e-6, 0.5+2e-6)), leaf(mleaf(1, 0.25, 0.75))}),
	}
}

// c14eval scores one data set with both sequential evaluators.
func (c *Ctx) c14eval(s spec, cv *learn.Variable, D []map[int]int, L []int) error {
	nodes := s.build()
	root := nodes[len(nodes)-1]
	k := cv.Categories
	for mode := 0; mode < 2; mode++ {
		// Allowed predictions per instance.
		allowed := make([][]bool, len(D))
		unique := true
		for i, I := range D {
			var p []xf
			if mode == 0 {
				p = posteriors(s, I, cv)
			} else {
				p = make([]xf, k)
				J := cloneMap(I)
				for j := range p {
					J[cv.Varid] = j
					p[j] = s.evalMax(J)[len(s)-1]
				}
			}
			best := xf{}
			for _, x := range p {
				if best.less(x) {
					best = x
				}
			}
			allowed[i] = make([]bool, k)
			n := 0
			for j, x := range p {
				if best.m == 0 || !(x.less(best)) || logEq(x.log(), best.log()) {
					allowed[i][j] = true
					n++
				}
			}
			unique = unique && n == 1
		}
		run := func(E []map[int]int, M []int, sc *score.S) {
			if mode == 0 {
				sc.EvaluatePosterior(toDataset(E), M, root, cv)
			} else {
				sc.Evaluate(toDataset(E), M, root, cv)
			}
			c.Trans(len(E) + 1)
		}
		name := []string{"EvaluatePosterior", "Evaluate"}[mode]
		// Instance by instance.
		var pairs []score.Pair
		for i := range D {
			sc := score.NewScore()
			E, M := cloneData(D[i:i+1]), []int{L[i]}
			run(E, M, sc)
			m, err := pairsOf(sc, max(k, L[i]+1))
			if err != nil || len(m) != 1 || sc.Total() != 1 {
				return fmt.Errorf("%s of instance %d: %v %v", name, i, m, err)
			}
			for p := range m {
				if p.Expected != L[i] || p.Predicted < 0 || p.Predicted >= k || !allowed[i][p.Predicted] {
					return fmt.Errorf("%s predicts %d (expected label recorded as %d) for instance %s, most probable are %v", name, p.Predicted, p.Expected, fmtI(D[i]), allowed[i])
				}
				pairs = append(pairs, p)
			}
		}
		// All at once, on a score that already holds something.
		sc := score.NewScore()
		sc.Register(1, 0)
		E, M := cloneData(D), append([]int(nil), L...)
		run(E, M, sc)
		if !dataEq(D, E) || !intsEq(L, M) {
			return fmt.Errorf("%s changed the data set to %v labels %v", name, E, M)
		}
		if sc.Total() != len(D)+1 {
			return fmt.Errorf("%s registered %d predictions for %d instances", name, sc.Total()-1, len(D))
		}
		if unique {
			if err := scoreIs(sc, append([]score.Pair{{Predicted: 1, Expected: 0}}, pairs...), k, ""); err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
		}
		c.Outcome(fmt.Sprint(mode, pairs))
	}
	c.State(1)
	c.Trace(2)
	return s.intact(nodes)
}

// ---------------------------------------------------------------- C15

func instKey(I map[int]int) string { return fmtI(I) }

// bag is a multiset of labelled instances (label -1 when there are none).
func bag(D []map[int]int, L []int) map[string]int {
	m := map[string]int{}
	for i, I := range D {
		l := -1
		if L != nil {
			l = L[i]
		}
		m[fmt.Sprint(fmtI(I), "/", l)]++
	}
	return m
}

func bagEq(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// smash overwrites what a routine returned, to show that it does not share memory with its inputs.
func smash(G []map[int]int, L []int) {
	for _, I := range G {
		for k := range I {
			I[k] = -9
		}
		I[99] = 99
	}
	for i := range L {
		L[i] = -9
	}
}

func checkC15(c *Ctx) {
	maxN := 4
	if c.Thorough {
		maxN = 5
	}
	props := [][]float64{{1}, {0.5, 0.5}, {0.25, 0.75}, {0.75, 0.25}, {0.25, 0.25, 0.5}, {0.5, 0.25, 0.25}, {1, 0}, {0, 1}, {0.125, 0.875}, {0.25, 0.25, 0.25, 0.25}, {0.375, 0.625}}
	c.Bound("instances", maxN)
	c.Bound("labels", 3)
	c.Bound("proportions", props)
	c.Bound("random draws", "all outcomes of permutations up to four elements; at most two departures from the default for five")
	type ds struct {
		D []map[int]int
		L []int
	}
	var sets []ds
	for n := 0; n <= maxN; n++ {
		enumTuples(n, 3, func(lab []int) {
			// Distinct instances, and repeated ones.
			for kind := 0; kind < 3; kind++ {
				D := make([]map[int]int, n)
				for i := range D {
					switch kind {
					case 0:
						D[i] = map[int]int{0: i, 1: 1, 2: lab[i]}
					case 1:
						D[i] = map[int]int{0: i / 2, 1: 0}
					default:
						D[i] = map[int]int{0: 0, 3: (i*i + lab[i]) % 2}
					}
				}
				sets = append(sets, ds{D, append([]int(nil), lab...)})
			}
		})
	}
	vals := permChoices()
	rnd := func(n int, fn func() error) error {
		dev, limit := 99, 24
		if n > 4 {
			dev = 2
		}
		runs, capped, err := exploreChoices(dev, limit, 20000, func(t *tape) (e error) {
			withRandom(t, vals, func() { e = fn() })
			return
		})
		c.Trans(runs)
		c.Trace(runs)
		if capped {
			c.Cap("random outcomes")
		}
		return err
	}
	for _, x := range sets {
		D, L := x.D, x.L
		n := len(D)
		if n <= 4 || c.Thorough {
			c.Case(func() string { return fmt.Sprintf("partition %s labels %v", fmtD(D), L) }, func() error {
				c.State(1)
				for _, p := range props {
					if err := rnd(n, func() error { return c15partition(D, p) }); err != nil {
						return fmt.Errorf("Partition %v: %w", p, err)
					}
					for k := 3; k <= 4; k++ {
						if err := rnd(n, func() error { return c15byLabels(D, L, k, p) }); err != nil {
							return fmt.Errorf("PartitionByLabels %v: %w", p, err)
						}
					}
				}
				for _, withL := range []bool{true, false} {
					if err := rnd(n, func() error { return c15shuffle(D, L, withL) }); err != nil {
						return fmt.Errorf("Shuffle: %w", err)
					}
				}
				return nil
			})
		}
		c.Case(func() string { return fmt.Sprintf("reshape %s labels %v", fmtD(D), L) }, func() error {
			c.State(1)
			c.Trace(2)
			if err := c.c15plain(D, L); err != nil {
				return err
			}
			return c.c15plain(wideData(D, L))
		})
	}
	// Larger sizes, with classes of several shapes and three streams of draws.
	c.Bound("larger data sets", "5 to 40, 64, 100, 127, 256, 300 and 1025 instances, seven ways of labelling them, up to 13 classes (70000 instances of 300 classes once), three streams of draws")
	shapes := []func(i, n int) int{
		func(i, n int) int { return i % 3 },
		func(i, n int) int { return i * i % 3 },
		func(i, n int) int { return 0 },
		func(i, n int) int { return 2 },
		func(i, n int) int { return i * 3 / n },
		func(i, n int) int { return 2 - i*3/n },
		func(i, n int) int {
			if i == n-1 {
				return 2
			}
			return i % 5 / 4
		},
	}
	more := append(props, []float64{0.0625, 0.1875, 0.25, 0.5}, []float64{0.5, 0.125, 0.125, 0.125, 0.125})
	sizes := []int{64, 100, 127, 256, 300, 1025}
	for n := 40; n >= 5; n-- {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		for li, shape := range shapes {
			c.Case(func() string { return fmt.Sprintf("%d instances, labels %d", n, li) }, func() error {
				D := make([]map[int]int, n)
				L := make([]int, n)
				L13 := make([]int, n)
				for i := range D {
					D[i] = map[int]int{0: i, 1: i % 5}
					L[i] = shape(i, n)
					L13[i] = (i*i + i/7) % 13
				}
				c.State(1)
				for _, p := range more {
					for _, t := range []*tape{{limit: 6}, {limit: 1}, {limit: 1, beyond: 1000}} {
						var err error
						withRandom(t, vals, func() {
							if err = c15partition(D, p); err == nil {
								if err = c15byLabels(D, L, 3, p); err == nil {
									if err = c15byLabels(D, L13, 13, p); err == nil {
										err = c15shuffle(D, L, len(p)%2 == 0)
									}
								}
							}
						})
						c.Trans(4)
						c.Trace(4)
						if err != nil {
							return fmt.Errorf("%v: %w", p, err)
						}
					}
				}
				if n <= 40 {
					return c.c15plain(D, L)
				}
				for g := 1; g <= 40; g++ {
					if err := c15divide(D, L13, g); err != nil {
						return err
					}
					c.Trans(1)
				}
				return nil
			})
		}
	}
	for ti, t := range []*tape{{limit: 1}, {limit: 1, beyond: 1000}} {
		c.Case(func() string { return fmt.Sprintf("70000 instances, draws %d", ti) }, func() (err error) {
			n := 70000
			D := make([]map[int]int, n)
			L := make([]int, n)
			for i := range D {
				D[i] = map[int]int{0: i, 1: i % 5}
				L[i] = (i*i + i/7) % 300
			}
			c.State(1)
			c.Trans(5)
			c.Trace(1)
			withRandom(t, vals, func() {
				p := []float64{0.25, 0.625, 0.125}
				if err = c15partition(D, p); err != nil {
					return
				}
				if err = c15byLabels(D, L, 300, p); err != nil {
					return
				}
				if err = c15shuffle(D, L, true); err != nil {
					return
				}
				if err = c15divide(D, L, 3); err != nil {
					return
				}
				err = c15divide(D, L, 1000)
			})
			return
		})
	}
	// Comparison: all pairs of small labelled data sets.
	small := [][]map[int]int{{}, {{0: 0}}, {{0: 1}}, {{1: 0}}, {{}}, {{0: 0, 1: 0}}, {{0: 0}, {0: 1}}, {{0: 1}, {0: 0}}, {{0: 0}, {0: 0}}, {{0: 0}, {}}, {{0: 0, 1: 1}, {0: 1}}}
	// Values and labels that differ in their high bits alone.
	for _, v := range []int{255, 1 << 32, -1} {
		small = append(small, []map[int]int{{0: v}}, []map[int]int{{v: 0}})
	}
	for i, A := range small {
		for j, B := range small {
			c.Case(func() string { return fmt.Sprintf("compare %s with %s", fmtD(A), fmtD(B)) }, func() error {
				c.State(1)
				var err error
				labels := func(n int) [][]int {
					r := [][]int{nil}
					enumTuples(n, 2, func(t []int) { r = append(r, append([]int{}, t...)) })
					enumTuples(n, 3, func(t []int) {
						w := make([]int, n)
						for i := range t {
							w[i] = wideLabels[t[i]]
						}
						r = append(r, w)
					})
					return r
				}
				for _, la := range labels(len(A)) {
					for _, lb := range labels(len(B)) {
						want := dataEq(A, B) && (la == nil || lb == nil || intsEq(la, lb))
						A2, B2 := cloneData(A), cloneData(B)
						got := data.Identical(A2, B2, la, lb)
						c.Trans(1)
						c.Trace(1)
						if got != want {
							err = fmt.Errorf("Identical(%s,%s,%v,%v) is %v", fmtD(A), fmtD(B), la, lb, got)
						}
						if !dataEq(A, A2) || !dataEq(B, B2) {
							err = fmt.Errorf("comparison changed a data set")
						}
						if i == j && !data.Identical(A2, A2, la, la) {
							err = fmt.Errorf("a data set is not identical to itself")
						}
						// Concatenation.
						F, P := data.Join(A2, B2, la, lb)
						wantF := append(cloneData(A), cloneData(B)...)
						if !dataEq(F, wantF) {
							err = fmt.Errorf("Join gave %s, want %s", fmtD(F), fmtD(wantF))
						}
						if la != nil && lb != nil {
							if !intsEq(P, append(append([]int(nil), la...), lb...)) {
								err = fmt.Errorf("Join gave labels %v for %v and %v", P, la, lb)
							}
						} else if P != nil {
							err = fmt.Errorf("Join made labels %v out of %v and %v", P, la, lb)
						}
						ca, cb := append([]int(nil), la...), append([]int(nil), lb...)
						smash(F, P)
						if !dataEq(A, A2) || !dataEq(B, B2) || !intsEq(ca, la) || !intsEq(cb, lb) {
							err = fmt.Errorf("Join shares instances with its inputs")
						}
					}
				}
				return err
			})
		}
	}
}

func c15partition(D []map[int]int, p []float64) error {
	E := cloneData(D)
	G := data.Partition(E, p)
	if !dataEq(D, E) {
		return fmt.Errorf("input changed to %s", fmtD(E))
	}
	if len(G) != len(p) {
		return fmt.Errorf("%d groups for %d proportions", len(G), len(p))
	}
	var all []map[int]int
	exact := true
	for i := range p {
		q := float64(len(D)) * p[i]
		exact = exact && q == math.Floor(q)
		if math.Abs(float64(len(G[i]))-q) > 1 {
			return fmt.Errorf("group %d has %d of %d instances, proportion %v", i, len(G[i]), len(D), p[i])
		}
		all = append(all, G[i]...)
	}
	for i := range p {
		if exact && float64(len(G[i])) != float64(len(D))*p[i] {
			return fmt.Errorf("group %d has %d of %d instances, proportion %v", i, len(G[i]), len(D), p[i])
		}
	}
	if !bagEq(bag(all, nil), bag(D, nil)) {
		return fmt.Errorf("groups %v are not a partition of %s", G, fmtD(D))
	}
	for i := range G {
		smash(G[i], nil)
	}
	if !dataEq(D, E) {
		return fmt.Errorf("groups share instances with the input")
	}
	return nil
}

func c15byLabels(D []map[int]int, L []int, k int, p []float64) error {
	E, M := cloneData(D), append([]int(nil), L...)
	G, H := data.PartitionByLabels(E, M, k, p)
	if !dataEq(D, E) || !intsEq(L, M) {
		return fmt.Errorf("input changed to %s %v", fmtD(E), M)
	}
	if len(G) != len(p) || len(H) != len(p) {
		return fmt.Errorf("%d groups and %d label groups for %d proportions", len(G), len(H), len(p))
	}
	N := make([]int, k)
	for _, l := range L {
		N[l]++
	}
	var all []map[int]int
	var labels []int
	exact, whole := true, true
	for i := range p {
		for _, m := range N {
			q := float64(m) * p[i]
			exact = exact && q == math.Floor(q)
		}
	}
	for i := range p {
		if len(G[i]) != len(H[i]) {
			return fmt.Errorf("group %d has %d instances and %d labels", i, len(G[i]), len(H[i]))
		}
		cnt := make([]int, k)
		for _, l := range H[i] {
			if l < 0 || l >= k {
				return fmt.Errorf("label %d", l)
			}
			cnt[l]++
		}
		for l := range cnt {
			q := float64(N[l]) * p[i]
			if float64(cnt[l]) < math.Floor(q) || (exact && float64(cnt[l]) != q) {
				return fmt.Errorf("group %d has %d of the %d instances of class %d, proportion %v", i, cnt[l], N[l], l, p[i])
			}
		}
		// The group as a whole has its proportion, too.
		q, got := float64(len(D))*p[i], float64(len(G[i]))
		whole = whole && q == math.Floor(q)
		if got <= q-1 || got >= q+1 {
			return fmt.Errorf("group %d has %d of %d instances, proportion %v", i, len(G[i]), len(D), p[i])
		}
		all = append(all, G[i]...)
		labels = append(labels, H[i]...)
	}
	for i := range p {
		if whole && float64(len(G[i])) != float64(len(D))*p[i] {
			return fmt.Errorf("group %d has %d of %d instances, proportion %v", i, len(G[i]), len(D), p[i])
		}
	}
	if labels == nil {
		labels = []int{}
	}
	if !bagEq(bag(all, labels), bag(D, L)) {
		return fmt.Errorf("groups %v labels %v are not a partition of %s labels %v", G, H, fmtD(D), L)
	}
	for i := range G {
		smash(G[i], H[i])
	}
	if !dataEq(D, E) || !intsEq(L, M) {
		return fmt.Errorf("groups share instances with the input")
	}
	return nil
}

func c15shuffle(D []map[int]int, L []int, withL bool) error {
	E := cloneData(D)
	var M []int
	if withL {
		M = append([]int{}, L...)
	}
	data.Shuffle(E, M)
	ref := L
	if !withL {
		ref = nil
	}
	if len(E) != len(D) || !bagEq(bag(E, M), bag(D, ref)) {
		return fmt.Errorf("%s labels %v is not a permutation of %s labels %v", fmtD(E), M, fmtD(D), ref)
	}
	return nil
}

func c15divide(D []map[int]int, L []int, g int) error {
	E, M := cloneData(D), append([]int(nil), L...)
	G, H := data.Divide(E, M, g)
	if !dataEq(D, E) || !intsEq(L, M) {
		return fmt.Errorf("Divide into %d changed its input", g)
	}
	if len(G) != len(H) || len(G) > g || (len(D) >= g && len(G) != g) {
		return fmt.Errorf("Divide of %d instances into %d gave %d groups and %d label groups", len(D), g, len(G), len(H))
	}
	var all []map[int]int
	labels := []int{}
	lo, hi := len(D), 0
	for i := range G {
		if len(G[i]) != len(H[i]) {
			return fmt.Errorf("Divide into %d: group %d has %d instances and %d labels", g, i, len(G[i]), len(H[i]))
		}
		lo, hi = min(lo, len(G[i])), max(hi, len(G[i]))
		all = append(all, G[i]...)
		labels = append(labels, H[i]...)
	}
	if hi-lo > 1 && len(G) > 0 {
		return fmt.Errorf("Divide of %d instances into %d gave groups of %d to %d instances", len(D), g, lo, hi)
	}
	if !bagEq(bag(all, labels), bag(D, L)) {
		return fmt.Errorf("Divide into %d: %v %v is not a partition of %s %v", g, G, H, fmtD(D), L)
	}
	for i := range G {
		smash(G[i], H[i])
	}
	if !dataEq(D, E) || !intsEq(L, M) {
		return fmt.Errorf("Divide into %d shares instances with its input", g)
	}
	return nil
}

// wideLabels are labels, and wideData values, that agree in their low bits.
var wideLabels = []int{-1, 255, 1<<32 + 255}

func wideData(D []map[int]int, L []int) ([]map[int]int, []int) {
	E, M := cloneData(D), make([]int, len(L))
	for i := range E {
		for k, v := range E[i] {
			E[i][k] = v<<32 - 1
		}
	}
	for i, l := range L {
		M[i] = wideLabels[l%len(wideLabels)]
	}
	return E, M
}

// c15plain checks the routines without randomness.
func (c *Ctx) c15plain(D []map[int]int, L []int) error {
	n := len(D)
	E, M := cloneData(D), append([]int{}, L...)
	same := func(what string) error {
		c.Trans(1)
		if !dataEq(D, E) || !intsEq(L, M) {
			return fmt.Errorf("%s changed its input: %s %v, was %s %v", what, fmtD(E), M, fmtD(D), L)
		}
		return nil
	}
	// Copy.
	F, P := data.Copy(E, M)
	if !dataEq(F, D) || !intsEq(P, L) {
		return fmt.Errorf("Copy gave %s %v", fmtD(F), P)
	}
	smash(F, P)
	if err := same("Copy (or a change of the copy)"); err != nil {
		return err
	}
	if F, P := data.Copy(E, nil); !dataEq(F, D) || P != nil {
		return fmt.Errorf("Copy without labels gave %s %v", fmtD(F), P)
	}
	// Split by label.
	narrow := true
	for _, l := range L {
		narrow = narrow && l >= 0 && l < 3
	}
	for k := 3; k <= 4 && narrow; k++ {
		S := data.Split(E, k, M)
		if len(S) != k {
			return fmt.Errorf("Split into %d classes gave %d groups", k, len(S))
		}
		for l := range S {
			var want []map[int]int
			for i := range D {
				if L[i] == l {
					want = append(want, D[i])
				}
			}
			if !dataEq(S[l], want) {
				return fmt.Errorf("Split: class %d is %s, want %s", l, fmtD(S[l]), fmtD(want))
			}
			smash(S[l], nil)
		}
		if err := same("Split"); err != nil {
			return err
		}
	}
	// Subtract a label.
	labels := []int{0, 1, 2, 3}
	if !narrow {
		labels = append(labels, wideLabels...)
	}
	for _, l := range labels {
		S, P, T, Q := data.SubtractLabel(E, M, l)
		var ws, wt []map[int]int
		var wp, wq []int
		for i := range D {
			if L[i] == l {
				wt, wq = append(wt, D[i]), append(wq, l)
			} else {
				ws, wp = append(ws, D[i]), append(wp, L[i])
			}
		}
		if !dataEq(S, ws) || !intsEq(P, wp) || !dataEq(T, wt) || !intsEq(Q, wq) {
			return fmt.Errorf("SubtractLabel(%d) gave %s %v and %s %v", l, fmtD(S), P, fmtD(T), Q)
		}
		smash(S, P)
		smash(T, Q)
		if err := same("SubtractLabel"); err != nil {
			return err
		}
	}
	// Subtract a variable.
	for v := 0; v <= 4; v++ {
		S := data.SubtractVariable(E, &learn.Variable{Varid: v, Categories: 9, Name: "v"})
		if len(S) != n {
			return fmt.Errorf("SubtractVariable(%d) gave %d instances", v, len(S))
		}
		for i := range S {
			w := cloneMap(D[i])
			delete(w, v)
			if !mapEq(S[i], w) {
				return fmt.Errorf("SubtractVariable(%d) gave %s for %s", v, fmtI(S[i]), fmtI(D[i]))
			}
		}
		smash(S, nil)
		if err := same("SubtractVariable"); err != nil {
			return err
		}
	}
	// Merge labels in and extract them again.
	cv := &learn.Variable{Varid: 5, Categories: 3, Name: "c"}
	T := data.MergeLabel(E, M, cv)
	if len(T) != n {
		return fmt.Errorf("MergeLabel gave %d instances", len(T))
	}
	for i := range T {
		w := cloneMap(D[i])
		w[5] = L[i]
		if !mapEq(T[i], w) {
			return fmt.Errorf("MergeLabel gave %s for %s and label %d", fmtI(T[i]), fmtI(D[i]), L[i])
		}
	}
	if err := same("MergeLabel"); err != nil {
		return err
	}
	// Data with consecutive variables and the label last.
	D2 := make([]map[int]int, n)
	for i := range D2 {
		var ks []int
		for k := range D[i] {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		D2[i] = map[int]int{}
		for j, k := range ks {
			D2[i][j] = D[i][k]
		}
	}
	nv := 0
	if n > 0 {
		nv = len(D2[0])
	}
	Sc := map[int]*learn.Variable{}
	for j := 0; j <= nv; j++ {
		Sc[j] = &learn.Variable{Varid: j, Categories: 5, Name: fmt.Sprint("x", j)}
	}
	lv := Sc[nv]
	full := data.MergeLabel(D2, L, lv)
	keep := cloneData(full)
	S3, D3, lv3, L3 := data.ExtractLabels(Sc, full)
	c.Trans(1)
	if lv3 != lv || len(S3) != len(Sc) || len(Sc) != nv+1 {
		return fmt.Errorf("ExtractLabels returned label variable %v and %d variables", lv3, len(S3))
	}
	for j := range Sc {
		if S3[j] != Sc[j] {
			return fmt.Errorf("ExtractLabels altered the scope")
		}
	}
	if !dataEq(D3, D2) || !intsEq(L3, L) {
		return fmt.Errorf("ExtractLabels gave %s %v, want %s %v", fmtD(D3), L3, fmtD(D2), L)
	}
	smash(D3, L3)
	if !dataEq(full, keep) {
		return fmt.Errorf("ExtractLabels changed its input")
	}
	smash(T, nil)
	if err := same("MergeLabel (or a change of its result)"); err != nil {
		return err
	}
	for g := 1; g <= n+2; g++ {
		c.Trans(1)
		if err := c15divide(D, L, g); err != nil {
			return err
		}
	}
	return nil
}
