package main

import "fmt"

// Families of larger networks, one for each combination of a few size parameters. They complement the
// exhaustive enumeration of all small graphs: more children, variables, categories, depth and sharing than
// that can reach, with variable numbers that are neither small nor consecutive.

var familyVars = []int{5, 0, 17, 61, 3, 40, 1, 33, 2, 59, 11, 6, 28, 50, 8, 21, 60, 44, 13, 30}

func famDist(card, salt int) []float64 {
	r := make([]float64, card)
	t := 0.0
	for i := range r {
		r[i] = float64((i*7+salt*5)%11 + 1)
		t += r[i]
	}
	for i := range r {
		r[i] /= t
	}
	return r
}

func (s *spec) add(n nodeSpec) int { *s = append(*s, n); return len(*s) - 1 }
func (s *spec) sum(salt int, ch ...int) int {
	return s.add(nodeSpec{Kind: 'S', Ch: ch, W: famDist(len(ch), salt)})
}
func (s *spec) prod(ch ...int) int        { return s.add(nodeSpec{Kind: 'P', Ch: ch}) }
func (s *spec) leaf(l leafSpec) int       { return s.add(nodeSpec{Kind: 'L', Leaf: l}) }
func (s *spec) multi(v, card, sl int) int { return s.leaf(mleaf(v, famDist(card, sl)...)) }

func families(thorough bool, yield func(name string, s spec)) {
	ks, ns, cs := []int{1, 2, 3, 4, 5, 7, 9, 17}, []int{1, 2, 3, 4, 6, 12}, []int{2, 3, 5}
	if thorough {
		ks, ns, cs = append(ks, 6, 8, 10, 33, 70), append(ns, 5, 7, 8, 20), append(cs, 4, 10, 20)
	}
	// Mixtures of k products of n variables with c categories; odd ones share leaves between components.
	for _, k := range ks {
		for _, n := range ns {
			for _, cd := range cs {
				for share := 0; share < 2; share++ {
					if share == 1 && k < 2 {
						continue
					}
					s := spec{}
					lf := map[[2]int]int{}
					var comps []int
					for i := 0; i < k; i++ {
						var ch []int
						for j := 0; j < n; j++ {
							key := [2]int{i, j}
							if share == 1 && (i+j)%2 == 0 {
								key[0] = -1
							}
							if _, ok := lf[key]; !ok {
								lf[key] = s.multi(familyVars[j], cd, i+3*j)
							}
							ch = append(ch, lf[key])
						}
						comps = append(comps, s.prod(ch...))
					}
					s.sum(k+n, comps...)
					yield(fmt.Sprintf("mixture of %d products of %d variables with %d categories, shared leaves %d", k, n, cd, share), s)
				}
			}
		}
	}
	// Hidden Markov chains: two or three states per step, every state sum shared by all states before it.
	for _, n := range []int{2, 3, 4, 5, 7, 10} {
		for _, st := range []int{2, 3} {
			s := spec{}
			var below []int
			for j := 0; j < n; j++ {
				var states []int
				for a := 0; a < st; a++ {
					l := s.multi(familyVars[j], 2+j%2, 2*a+j)
					if below == nil {
						states = append(states, l)
						continue
					}
					z := s.sum(a+j, below...)
					states = append(states, s.prod(l, z))
				}
				below = states
			}
			s.sum(n, below...)
			if n > 7 && st > 2 {
				continue // recursive evaluation visits every path
			}
			yield(fmt.Sprintf("hidden Markov chain of %d steps with %d states", n, st), s)
		}
	}
	// Balanced trees of alternating products and sums.
	for d := 1; d <= 4; d++ {
		for _, sums := range []int{1, 2, 3} {
			s := spec{}
			v := 0
			var rec func(d int) []int
			rec = func(d int) []int {
				if d == 0 {
					var r []int
					for i := 0; i < sums; i++ {
						r = append(r, s.multi(familyVars[v], 2, i+v))
					}
					v++
					return r
				}
				a, b := rec(d-1), rec(d-1)
				var ps, r []int
				for _, x := range a {
					for _, y := range b {
						ps = append(ps, s.prod(x, y))
					}
				}
				for i := 0; i < sums; i++ {
					r = append(r, s.sum(i+d, ps...))
				}
				return r
			}
			top := rec(d)
			if len(top) > 1 {
				s.sum(3, top...)
			}
			if d < 3 || sums < 3 {
				if d < 4 || sums < 2 {
					yield(fmt.Sprintf("tree of depth %d with %d sums per region", d, sums), s)
				}
			}
		}
	}
	// Network polynomials: a product of indicators for each joint state, and of sums over indicators.
	for n := 1; n <= 3; n++ {
		for cd := 2; cd <= 3; cd++ {
			s := spec{}
			ind := map[[2]int]int{}
			for j := 0; j < n; j++ {
				for x := 0; x < cd; x++ {
					ind[[2]int{j, x}] = s.leaf(ileaf(familyVars[j], x))
				}
			}
			var terms []int
			enumTuples(n, cd, func(ix []int) {
				var ch []int
				for j, x := range ix {
					ch = append(ch, ind[[2]int{j, x}])
				}
				terms = append(terms, s.prod(ch...))
			})
			s.sum(1, terms...)
			yield(fmt.Sprintf("network polynomial of %d variables with %d values", n, cd), s)
		}
	}
	// Gaussian and mixed leaves, one wide product, one deep tower of sums with one child.
	for _, n := range []int{1, 2, 4, 9, 18} {
		s := spec{}
		var comps []int
		for i := 0; i < 3; i++ {
			var ch []int
			for j := 0; j < n; j++ {
				if (i+j)%3 == 0 {
					ch = append(ch, s.leaf(gleaf(familyVars[j], float64(j%3), .5+float64(i))))
				} else if j%2 == 0 {
					ch = append(ch, s.leaf(gleaf(familyVars[j], float64(i-1), 2)))
				} else {
					ch = append(ch, s.multi(familyVars[j], 4, i+j))
				}
			}
			comps = append(comps, s.prod(ch...))
		}
		s.sum(2, comps...)
		yield(fmt.Sprintf("mixture of 3 products of %d gaussians and multinomials", n), s)
	}
	for _, n := range []int{4, 8, 16, 20} {
		s := spec{}
		var ch []int
		for j := 0; j < n; j++ {
			ch = append(ch, s.multi(familyVars[j], 2, j))
		}
		s.prod(ch...)
		yield(fmt.Sprintf("product of %d leaves", n), s)
	}
	for _, n := range []int{8, 16, 33, 70} {
		s := spec{}
		a, b := s.multi(4, 2, 1), s.multi(4, 2, 4)
		x := s.sum(1, a, b)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				x = s.prod(x)
			} else {
				x = s.sum(i, x)
			}
		}
		yield(fmt.Sprintf("tower of %d nodes with one child", n), s)
	}
	// Beyond the sizes of bytes and words: wide nodes, many categories, variables with large numbers.
	for _, n := range []int{65, 130, 300} {
		s := spec{}
		var ch []int
		for j := 0; j < n; j++ {
			ch = append(ch, s.multi(n-j, 2, j))
		}
		s.prod(ch...)
		yield(fmt.Sprintf("product of %d leaves", n), s)
		s = spec{}
		ch = nil
		for j := 0; j < n; j++ {
			ch = append(ch, s.multi(7, 3, j))
		}
		s.sum(n, ch...)
		yield(fmt.Sprintf("sum of %d leaves", n), s)
		s = spec{}
		x := s.sum(1, s.multi(200, n, 1), s.multi(200, n, 3))
		s.prod(x, s.multi(3, 2, 1))
		yield(fmt.Sprintf("variable with %d categories", n), s)
	}
	// Alternatives that are almost, but not quite, as good as one another.
	for _, g := range []float64{2e-7, -2e-7, 1e-5, -1e-5, 1e-3, -1e-3} {
		s := spec{}
		a := s.prod(s.leaf(mleaf(5, .8, .2)), s.leaf(mleaf(0, .1, .9)))
		b := s.prod(s.leaf(mleaf(5, .2, .8)), s.leaf(mleaf(0, .9, .1)))
		s.add(nodeSpec{Kind: 'S', Ch: []int{a, b}, W: []float64{.5 + g/2, .5 - g/2}})
		yield(fmt.Sprintf("mixture of 2 products that differ by %v", g), s)
		s = spec{}
		var comps []int
		for i := 0; i < 4; i++ {
			pr := []float64{.1, .1, .1, .1}
			pr[i] = .7
			comps = append(comps, s.prod(s.leaf(mleaf(3, pr...)), s.leaf(ileaf(1, i%2))))
		}
		s.add(nodeSpec{Kind: 'S', Ch: comps, W: []float64{.25 + g, .25 - g, .25 + 2*g, .25 - 2*g}})
		yield(fmt.Sprintf("mixture of 4 products with weights %v apart", g), s)
		s = spec{}
		s.prod(s.leaf(mleaf(2, .5+g, .5-g)), s.leaf(mleaf(4, .3, .35+g, .35-g)))
		yield(fmt.Sprintf("product of leaves with categories %v apart", g), s)
	}
	for k := range largeIds {
		s := spec{}
		a, b, d := largeIds[k], largeIds[(k+1)%len(largeIds)], largeIds[(k+4)%len(largeIds)]
		var comps []int
		x := s.multi(d, 2, 5)
		for i := 0; i < 3; i++ {
			comps = append(comps, s.prod(s.multi(a, 2, i), x, s.sum(i, s.multi(b, 3, i+1), s.leaf(ileaf(b, i%2)))))
		}
		s.sum(k, comps...)
		yield(fmt.Sprintf("mixture of 3 products over variables %d, %d, %d", a, b, d), s)
	}
}

// largeIds are variable numbers around the sizes of machine words and of common limits.
var largeIds = []int{0, 63, 64, 127, 128, 255, 256, 447, 1000, 1024, 32768, 65535, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 40}

// vals are the values of a variable in evidence: all categories that every leaf over it knows.
func (s spec) vals(v int) []int {
	k, hi := 0, 1
	for _, n := range s {
		if n.Kind != 'L' || n.Leaf.Var != v {
			continue
		}
		if m := len(n.Leaf.Pr); n.Leaf.Kind == 'M' && (k == 0 || m < k) {
			k = m
		}
		if n.Leaf.Kind == 'I' && n.Leaf.Val > hi {
			hi = n.Leaf.Val
		}
	}
	if k == 0 {
		k = hi + 1
	}
	r := make([]int, k)
	for i := range r {
		r[i] = i
	}
	return r
}

// outside is a variable that is not in the scope.
func (s spec) outside() int {
	in := map[int]bool{}
	for _, v := range s.vars() {
		in[v] = true
	}
	for v := 9; ; v++ {
		if !in[v] {
			return v
		}
	}
}

// enumEvidenceCap is enumEvidence when there are at most max evidences, and otherwise yields those with at most
// one variable set, at most one unset (the others at value 0, at their last, or alternating), and half set.
func enumEvidenceCap(vars []int, vals func(v int) []int, max int, yield func(map[int]int)) {
	t := 1
	for _, v := range vars {
		t *= len(vals(v)) + 1
		if t > max {
			break
		}
	}
	if t <= max {
		enumEvidence(vars, vals, yield)
		return
	}
	yield(map[int]int{})
	for _, v := range vars {
		for _, x := range vals(v) {
			yield(map[int]int{v: x})
		}
	}
	for pat := 0; pat < 4; pat++ {
		for skip := -1; skip < len(vars); skip++ {
			I := map[int]int{}
			for i, v := range vars {
				if i == skip || pat == 3 && skip >= 0 && (i+skip)%2 == 0 {
					continue
				}
				d := vals(v)
				switch pat {
				case 0:
					I[v] = d[0]
				case 1:
					I[v] = d[len(d)-1]
				default:
					I[v] = d[i%len(d)]
				}
			}
			yield(I)
		}
	}
}

// patternRows are larger data matrices: constant, striped, banded, clustered, nearly alike and mixed ones.
const patterns = 8

func patternRows(pat, rows, cols, vals int) [][]int {
	M := make([][]int, rows)
	for i := range M {
		M[i] = make([]int, cols)
		for j := range M[i] {
			switch pat {
			case 0:
				M[i][j] = 1 % vals
			case 1:
				M[i][j] = (i + j) % vals
			case 2:
				M[i][j] = j % vals
			case 3: // two blocks of variables, two blocks of instances
				M[i][j] = vals - 1
				if (i < rows/2) == (j < cols/2) {
					M[i][j] = 0
				}
			case 4: // one odd instance
				if i == rows-1 {
					M[i][j] = (j + 1) % vals
				}
			case 5:
				M[i][j] = (i*i*3 + j*j*5 + i*j) % vals
			case 6: // three groups of instances with small differences
				M[i][j] = (i % 3 * (vals - 1) / 2)
				if (i/3+j)%4 == 0 {
					M[i][j] = (M[i][j] + 1) % vals
				}
			case 7: // variables follow one of two hidden bits
				b := i >> uint(j%2) & 1
				M[i][j] = b * (vals - 1)
				if (i*7+j*3)%11 == 0 {
					M[i][j] = (i + j) % vals
				}
			}
		}
	}
	return M
}
