package main

import (
	"bytes"
	"fmt"
	goio "io"
	"math"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/app"
	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"

	"verif/mc/vrand"
	"verif/mc/vsync"
)

func init() {
	register("C28", "a case is one data file classified with every outcome of the partitioning draws, or one part of the schedule tree of one concurrent image completion", checkC28)
	register("C29", "a case is one network drawn in both graph languages; the drawing is read back and unfolded", checkC29)
	register("C30", "a case is one history of downloads with one outcome of the transfer for each", checkC30)
}

func inScratch(c *Ctx, name string) string {
	d := filepath.Join(c.Scratch, name)
	os.MkdirAll(d, 0o755)
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	return d
}

// ---------------------------------------------------------------- C28

// lastClass renames the class variable 0 of a network to 1 and the feature 1 to 0.
func lastClass(s spec) spec {
	r := make(spec, len(s))
	for i, n := range s {
		if n.Kind == 'L' {
			n.Leaf.Var = 1 - n.Leaf.Var
		}
		r[i] = n
	}
	return r
}

// range of right classifications of (feature, label) instances: ties and impossible instances may
// go either way.
func rightOnes(s spec, k int, rest [][2]int) (lo, hi int) {
	for _, x := range rest {
		best, n, hit := xf{}, 0, false
		for j := 0; j < k; j++ {
			v := s.eval(map[int]int{0: x[0], 1: j})[len(s)-1]
			if v.m == 0 {
				continue
			}
			switch {
			case n == 0 || math.Abs(v.log()-best.log()) > 1e-9 && best.less(v):
				best, n, hit = v, 1, j == x[1]
			case math.Abs(v.log()-best.log()) <= 1e-9:
				n++
				hit = hit || j == x[1]
			}
		}
		if n == 0 {
			hi++
		} else if hit {
			hi++
			if n == 1 {
				lo++
			}
		}
	}
	return
}

func checkC28(c *Ctx) {
	ow, oh, om, oc := sys.Width, sys.Height, sys.Max, sys.MemConservative
	defer func() { sys.Width, sys.Height, sys.Max, sys.MemConservative = ow, oh, om, oc }()
	sys.MemConservative = false
	dir := inScratch(c, "app")
	maxN := 4
	if c.Thorough {
		maxN = 5
	}
	c.Bound("classification", fmt.Sprintf("2 networks, 1..%d labelled instances, 4 proportions, every outcome of the partitioning draws, 1..2 iterations", maxN))
	f := filepath.Join(dir, "data", "toy", "compiled", "all.data")
	os.MkdirAll(filepath.Dir(f), 0o755)
	for ni, s := range append(classNets(), classNetsMore()...) {
		s := lastClass(s)
		k := 2
		two := true
		for _, v := range s.vars() {
			two = two && v < 2
		}
		if !two {
			continue
		}
		for _, n := range s {
			if n.Kind == 'L' && n.Leaf.Var == 1 {
				if n.Leaf.Kind == 'I' {
					k = max(k, n.Leaf.Val+1)
				} else if n.Leaf.Kind == 'M' {
					k = max(k, len(n.Leaf.Pr))
				}
			}
		}
		for n := 1; n <= maxN; n++ {
			multisets(n, 2*k, func(t []int) {
				rows := make([][]int, n)
				for i, x := range t {
					rows[i] = []int{x % 2, x / 2}
				}
				for _, p := range []float64{0.25, 0.5, 0.7, 0.99} {
					c.Case(func() string { return fmt.Sprintf("network %d, rows %v, p=%v", ni, rows, p) }, func() error {
						os.WriteFile(f, []byte(dataText("", []int{0, 1}, []int{2, k}, rows, layout{" ", "", "\n", true})), 0o644)
						for it := 0; it <= 2; it++ {
							if it == 2 && n > 3 {
								break
							}
							runs, capped, err := exploreChoices(n+1, n+1, 100000, func(tp *tape) error {
								old := vrand.Global
								vrand.Global = rand.New(&rndSource{tp, intChoices(n)})
								defer func() { vrand.Global = old }()
								return c.c28class(s, k, f, rows, p, it)
							})
							c.Trans(runs)
							c.Trace(runs)
							c.State(1)
							if capped {
								c.Cap("choices")
							}
							if err != nil {
								return fmt.Errorf("%d iterations: %w", it, err)
							}
						}
						return nil
					})
				}
			})
		}
	}
	c.c28family(dir, f)
	c.c28complete(dir)
	c.c28tests(dir)
}

// bayes is a mixture with one component per class: log probabilities of the classes and of value x of
// feature j given the class.
type bayes struct {
	prior []float64
	p     [][][]float64
}

// newBayes has class-dependent probabilities that depend on the pattern; with narrow ones each value
// costs some five orders of magnitude, so that whole instances lie beyond the range of floats.
func newBayes(k, nf, vals, pat int, narrow bool) *bayes {
	b := &bayes{}
	sum := 0.0
	for c := 0; c < k; c++ {
		w := float64(3+(c*5+pat)%7) + float64(c)/16
		b.prior = append(b.prior, w)
		sum += w
		var fs [][]float64
		for j := 0; j < nf; j++ {
			w, t := make([]float64, vals+1), 0.0
			for x := 0; x < vals; x++ {
				w[x] = float64(1+(c*7+j*5+x*3+pat*(x+1))%11) + float64(c*3+x)/64
				t += w[x]
			}
			if narrow {
				w[vals] = t * float64(90000+1000*((j+c)%13)) // a value that never occurs in the file
				t += w[vals]
			}
			for x := range w {
				w[x] /= t
			}
			fs = append(fs, w)
		}
		b.p = append(b.p, fs)
	}
	for c := range b.prior {
		b.prior[c] /= sum
	}
	return b
}

// root is the network, with the class as the last variable.
func (b *bayes) root() spn.SPN {
	S := spn.NewSum()
	for c, fs := range b.p {
		P := spn.NewProduct()
		for j, w := range fs {
			P.AddChild(spn.NewMultinomial(j, append([]float64(nil), w...)))
		}
		one := make([]float64, len(b.p))
		one[c] = 1
		P.AddChild(spn.NewMultinomial(len(fs), one))
		S.AddChildW(P, b.prior[c])
	}
	return S
}

func (b *bayes) log(c int, x []int) float64 {
	l := math.Log(b.prior[c])
	for j := range b.p[c] {
		l += math.Log(b.p[c][j][x[j]])
	}
	return l
}

// right says whether classifying x as its label (the last value) is required or allowed.
func (b *bayes) right(x []int) (must, may bool) {
	own, rest := b.log(x[len(x)-1], x), math.Inf(-1)
	for c := range b.p {
		if c != x[len(x)-1] {
			rest = math.Max(rest, b.log(c, x))
		}
	}
	return own > rest+1e-6, own > rest-1e-6
}

// c28family classifies larger data sets with mixtures of one component per class.
func (c *Ctx) c28family(dir, f string) {
	c.Bound("larger classifications", "2..5 classes, 1..400 features, 5..40 patterned instances, 4 proportions, probable and very improbable instances, fixed and running random streams")
	for _, k := range []int{2, 3, 5} {
		for _, nf := range []int{1, 2, 5, 12, 60, 160, 400} {
			for _, n := range []int{5, 17, 40} {
				for pat := 0; pat < patterns; pat++ {
					for _, narrow := range []bool{false, true} {
						if nf >= 60 && (pat%3 != 2 || n == 17) {
							continue
						}
						k, nf, n, pat, narrow := k, nf, n, pat, narrow
						c.Case(func() string {
							return fmt.Sprintf("%d classes, %d features, %d instances of pattern %d, improbable %v", k, nf, n, pat, narrow)
						}, func() error {
							vals := 2 + pat%3
							b := newBayes(k, nf, vals, pat, narrow)
							order, cats := make([]int, nf+1), make([]int, nf+1)
							for j := range order {
								order[j], cats[j] = j, vals
								if narrow {
									cats[j]++
								}
							}
							cats[nf] = k
							rows := patternRows(pat, n, nf, vals)
							count := map[string]int{}
							for i := range rows {
								rows[i] = append(rows[i], (i*i+i/2+pat)%k)
								count[fmt.Sprint(rows[i])]++
							}
							os.WriteFile(f, []byte(dataText("", order, cats, rows, layout{" ", "", "\n", true})), 0o644)
							for pi, p := range []float64{0.1, 0.4, 0.75, 1} {
								for it := 0; it <= 3; it += 3 {
									vrand.Stream = pi%2 == 0
									vrand.Restart()
									var lo, hi, total int
									var lerr error
									lf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
										if err := scopeIs(sc, cats, nil); err != nil {
											lerr = err
										}
										left := map[string]int{}
										for _, I := range D {
											x := make([]int, nf+1)
											for j := range x {
												x[j] = I[j]
											}
											left[fmt.Sprint(x)]++
											if len(I) != nf+1 || left[fmt.Sprint(x)] > count[fmt.Sprint(x)] {
												lerr = fmt.Errorf("training instance %v is not in the file, or twice used", x)
											}
										}
										for _, r := range rows {
											if left[fmt.Sprint(r)] > 0 {
												left[fmt.Sprint(r)]--
												continue
											}
											must, may := b.right(r)
											if must {
												lo++
											}
											if may {
												hi++
											}
											total++
										}
										return b.root()
									}
									got, all, err := c.classified(lf, f, p, int64(pi*3-1), it)
									vrand.Stream = false
									if err == nil {
										err = lerr
									}
									if err == nil && (all != total || got < lo || got > hi) {
										err = fmt.Errorf("%d of %d right, want %d..%d of %d", got, all, lo, hi, total)
									}
									if err != nil {
										return fmt.Errorf("p=%v, %d iterations: %w", p, it, err)
									}
									c.Trans(1)
									c.Trace(1)
									c.State(1)
									c.Outcome(fmt.Sprintf("%d/%d", got, all))
								}
							}
							return nil
						})
					}
				}
			}
		}
	}
}

// classified runs one classification, or a batch of them, and returns the right ones and all.
func (c *Ctx) classified(lf learn.LearnFunc, f string, p float64, seed int64, iterations int) (got, all int, err error) {
	if iterations == 0 {
		got, all = app.ImgClassify(lf, f, p, seed)
		return
	}
	out, _ := os.Create(filepath.Join(c.Scratch, "stdout"))
	old := os.Stdout
	os.Stdout = out
	func() {
		defer func() { os.Stdout = old; out.Close() }()
		app.ImgBatchClassify(lf, "toy", p, seed, 1, iterations)
	}()
	b, _ := os.ReadFile(out.Name())
	m := regexp.MustCompile(`Correct classifications: (\d+)/(\d+)`).FindAllStringSubmatch(string(b), -1)
	if len(m) == 0 {
		return 0, 0, fmt.Errorf("no final result in %q", b)
	}
	got, _ = strconv.Atoi(m[len(m)-1][1])
	all, _ = strconv.Atoi(m[len(m)-1][2])
	pc := regexp.MustCompile(`Percentage of correct hits: ([0-9.]+)%`).FindAllStringSubmatch(string(b), -1)
	if all > 0 {
		if len(pc) == 0 {
			return got, all, fmt.Errorf("no percentage in %q", b)
		}
		x, _ := strconv.ParseFloat(pc[len(pc)-1][1], 64)
		if math.Abs(x-100*float64(got)/float64(all)) > 0.0051 {
			return got, all, fmt.Errorf("%d of %d are %v percent", got, all, x)
		}
	}
	return
}

func (c *Ctx) c28class(s spec, k int, f string, rows [][]int, p float64, iterations int) error {
	count := map[[2]int]int{}
	for _, r := range rows {
		count[[2]int{r[0], r[1]}]++
	}
	var lo, hi, total int
	var lerr error
	lf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
		if err := scopeIs(sc, []int{2, k}, nil); err != nil {
			lerr = err
		}
		left := map[[2]int]int{}
		for x, n := range count {
			left[x] = n
		}
		for _, I := range D {
			x := [2]int{I[0], I[1]}
			if left[x]--; left[x] < 0 || len(I) != 2 {
				lerr = fmt.Errorf("training instance %v is not in the file, or twice used", fmtI(I))
			}
		}
		var rest [][2]int
		for x, n := range left {
			for ; n > 0; n-- {
				rest = append(rest, x)
			}
		}
		l, h := rightOnes(s, k, rest)
		lo, hi, total = lo+l, hi+h, total+len(rest)
		return s.root()
	}
	got, all, err := c.classified(lf, f, p, -1, iterations)
	if err != nil {
		return err
	}
	if lerr != nil {
		return lerr
	}
	if all != total || got < lo || got > hi {
		return fmt.Errorf("%d of %d right, want %d..%d of %d", got, all, lo, hi, total)
	}
	c.Outcome(fmt.Sprintf("%d/%d", got, all))
	return nil
}

// cmplNet is a mixture learned from images: a background component and one around each image. All
// parameters differ so that hardly any two states tie.
type cmplNet struct {
	w []float64
	p [][][]float64
}

// newCmplNet learns the mixture or, to keep schedules short, a single component around all images.
func newCmplNet(npx, cats int, D []map[int]int, mix bool) *cmplNet {
	b := &cmplNet{}
	for q := 0; q <= len(D); q++ {
		if !mix && q > 0 {
			break
		}
		b.w = append(b.w, float64(16+5*q%7)+float64(q)/32)
		var fs [][]float64
		for j := 0; j < npx; j++ {
			w, sum := make([]float64, cats), 0.0
			for x := range w {
				w[x] = float64(8+x*(j+3)%5) + float64(x+j)/64 + float64(q)/256
				for k := range D {
					if (k == q-1 || !mix) && D[k][j] == x {
						w[x] += 30 + float64(j%3)
					}
				}
				sum += w[x]
			}
			for x := range w {
				w[x] /= sum
			}
			fs = append(fs, w)
		}
		b.p = append(b.p, fs)
	}
	sum := 0.0
	for _, w := range b.w {
		sum += w
	}
	for q := range b.w {
		b.w[q] /= sum
	}
	return b
}

func (b *cmplNet) root() spn.SPN {
	S := spn.NewSum()
	for q, fs := range b.p {
		P := spn.NewProduct()
		for j, w := range fs {
			P.AddChild(spn.NewMultinomial(j, append([]float64(nil), w...)))
		}
		if len(b.p) == 1 {
			return P
		}
		S.AddChildW(P, b.w[q])
	}
	return S
}

// modes are the most probable states (by max-product) of the pixels not kept, given the kept ones.
func (b *cmplNet) modes(orig []int, kept func(i int) bool) (r [][]int) {
	best := math.Inf(-1)
	for q, fs := range b.p {
		l := math.Log(b.w[q])
		m := make([]int, len(fs))
		for j, w := range fs {
			if kept(j) {
				m[j] = orig[j]
			} else {
				for x := range w {
					if w[x] > w[m[j]] {
						m[j] = x
					}
				}
			}
			l += math.Log(w[m[j]])
		}
		switch {
		case l > best+1e-9:
			best, r = l, [][]int{m}
		case l > best-1e-9:
			r = append(r, m)
			best = math.Max(best, l)
		}
	}
	return
}

// inHalf says whether pixel i is in the half that is completed; for the middle of an odd side
// either is right.
func inHalf(t io.CmplType, i, w, h int) (must, may bool) {
	x, y := i%w, i/w
	switch t {
	case io.Top:
		return y < h/2, y < (h+1)/2
	case io.Bottom:
		return y >= (h+1)/2, y >= h/2
	case io.Left:
		return x < w/2, x < (w+1)/2
	}
	return x >= (w+1)/2, x >= w/2
}

// judgeCompletion reads one completion: which pixels are kept and which are filled in. With a network
// the former have to be those of the image and the latter their most probable completion.
func judgeCompletion(file string, t io.CmplType, w, h, mx int, orig []int, net *cmplNet) (kept map[int]int, err error) {
	m, err := readNetpbm(file)
	if err != nil {
		return nil, err
	}
	if m.kind != "P3" || m.max != mx-1 {
		return nil, fmt.Errorf("header %s %d %d %d", m.kind, m.w, m.h, m.max)
	}
	px, err := m.undivided(t, w, h)
	if err != nil {
		return nil, err
	}
	kept = map[int]int{}
	grey := func(p [3]int) bool { return p[0] == p[1] && p[1] == p[2] }
	green := func(p [3]int) bool { return p[0] == 0 && p[2] == 0 }
	for i, p := range px {
		must, may := inHalf(t, i, w, h)
		if !may && !grey(p) || must && !green(p) {
			return nil, fmt.Errorf("%s completion: pixel %d of %dx%d is %v", t, i, w, h, p)
		}
		if !may {
			kept[i] = p[1]
		}
	}
	if net == nil {
		return kept, nil
	}
	var why error
	for _, wide := range []bool{false, true} { // the middle of an odd side is kept, or filled in
		keep := func(i int) bool {
			must, may := inHalf(t, i, w, h)
			return !(must || wide && may)
		}
		for _, mode := range net.modes(orig, keep) {
			ok := true
			for i, p := range px {
				if keep(i) && !(grey(p) && p[1] == orig[i]) || !keep(i) && !(green(p) && p[1] == mode[i]) {
					ok = false
					why = fmt.Errorf("%s completion: pixel %d is %v; the image has %d and the most probable completion %d", t, i, p, orig[i], mode[i])
					break
				}
			}
			if ok {
				return kept, nil
			}
		}
	}
	return nil, why
}

func (c *Ctx) c28complete(dir string) {
	f := filepath.Join(dir, "cmpl.data")
	bound := 2
	if c.Thorough {
		bound = 3
	}
	type cfg struct {
		w, h   int
		labels []int
		procs  int
		bound  int
	}
	var cfgs []cfg
	for _, sz := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}} {
		for _, l := range [][]int{{0}, {0, 0}, {0, 1}, {0, 1, 0}, {1, 0, 0, 1}} {
			for _, p := range []int{0, 1, 2} {
				b := 0
				if sz == [2]int{2, 2} && p > 0 {
					b = bound
					if len(l) > 3 {
						b = bound - 1
					}
				}
				cfgs = append(cfgs, cfg{sz[0], sz[1], l, p, b})
			}
		}
	}
	for _, sz := range [][2]int{{5, 4}, {4, 7}, {9, 9}, {16, 3}, {1, 11}} {
		cfgs = append(cfgs, cfg{sz[0], sz[1], []int{0, 1, 2, 0, 1}, 2, vsync.Single}, cfg{sz[0], sz[1], []int{0, 1, 1, 0, 0, 1, 0, 1, 2, 2}, 3, vsync.Single})
	}
	c.Bound("larger completions", "5 sizes to 9x9, 5 and 10 images of 3 classes, the default schedule")
	c.Bound("completion", fmt.Sprintf("8 image sizes, 1..4 images with 5 labellings, 1 or 2 threads or one per processor, up to %d preemptions for 2x2 images", bound))
	for _, g := range cfgs {
		n := len(g.labels)
		mx := 4
		npx := g.w * g.h
		cats := make([]int, npx+1)
		order := make([]int, npx+1)
		for i := range order {
			order[i], cats[i] = i, mx
		}
		cats[npx] = 3
		rows := make([][]int, n)
		D := make([]map[int]int, n)
		for i := range rows {
			D[i] = map[int]int{}
			for j := 0; j < npx; j++ {
				x := (i*i + 2*j + i*j + 1) % mx
				rows[i] = append(rows[i], x)
				D[i][j] = x
			}
			rows[i] = append(rows[i], g.labels[i])
		}
		limit := g.procs
		if limit <= 0 {
			limit = runtime.NumCPU()
		}
		parts := 1
		if g.bound > 0 {
			parts = 8
		}
		c.schedules(driver{fmt.Sprintf("completion of %d images of %dx%d labelled %v, %d at once", n, g.w, g.h, g.labels, g.procs), g.bound, parts, func() (func(), func() error) {
			old, _ := filepath.Glob(filepath.Join(dir, "cmpl_*"))
			for _, x := range old {
				os.Remove(x)
			}
			os.WriteFile(f, []byte(dataText("", order, cats, rows, layout{" ", "", "\n", true})), 0o644)
			sys.Width, sys.Height, sys.Max = g.w, g.h, mx
			evReset()
			errs := make([]error, n)
			lf := func(sc map[int]*learn.Variable, E spn.Dataset) spn.SPN {
				ev(evStart, 0)
				vsync.Yield()
				if err := scopeIs(sc, cats[:npx], nil); err != nil {
					errs[0] = err
				}
				S := newCmplNet(npx, mx, E, g.bound <= 0).root()
				// The data are this learner's own: what it does with them reaches nobody else.
				for _, I := range E {
					for k := range I {
						I[k] = mx - 1 - I[k]
					}
				}
				for k := range sc {
					delete(sc, k)
				}
				ev(evEnd, 0)
				return S
			}
			return func() { app.ImgCompletion(lf, f, g.procs) }, func() error {
				if errs[0] != nil {
					return errs[0]
				}
				run := 0
				for _, e := range events() {
					if e.kind == evStart {
						run++
					} else {
						run--
					}
					if run > limit {
						return fmt.Errorf("%d learners at once with limit %d", run, limit)
					}
				}
				for i := range rows {
					var train []map[int]int
					for j := range D {
						if g.labels[j] != g.labels[i] {
							train = append(train, D[j])
						}
					}
					net := newCmplNet(npx, mx, train, g.bound <= 0)
					for _, t := range io.Orientations {
						if _, err := judgeCompletion(filepath.Join(dir, fmt.Sprintf("cmpl_%d-%s.pgm", i, t)), t, g.w, g.h, mx, rows[i][:npx], net); err != nil {
							return fmt.Errorf("image %d: %w", i, err)
						}
					}
				}
				all, _ := filepath.Glob(filepath.Join(dir, "cmpl_*"))
				if len(all) != 4*n {
					return fmt.Errorf("files %v for %d images", all, n)
				}
				return nil
			}
		}})
	}
}

// c28tests runs the leave-one-out completion tests, sequential and parallel.
func (c *Ctx) c28tests(dir string) {
	f := filepath.Join(dir, "test.data")
	bound := 1
	if c.Thorough {
		bound = 2
	}
	c.Bound("leave-one-out tests", fmt.Sprintf("2x2 and 2x1 images, 2..3 instances, sequential and with 1..2 threads or one per processor under up to %d delays", bound))
	for _, sz := range [][2]int{{2, 1}, {2, 2}} {
		for n := 2; n <= 3; n++ {
			for procs := -1; procs <= 2; procs++ {
				w, h, mx := sz[0], sz[1], 4
				npx := w * h
				cats := make([]int, npx+1)
				order := make([]int, npx+1)
				for i := range order {
					order[i], cats[i] = i, mx
				}
				rows := make([][]int, n)
				want := map[string]int{}
				for i := range rows {
					for j := 0; j <= npx; j++ {
						rows[i] = append(rows[i], (i*3+j*j+1)%mx)
					}
					rows[i][npx] = i % 2
					want[fmt.Sprint(rows[i][:npx])]++
				}
				b := -bound
				if procs <= 0 || npx > 2 && n > 2 {
					b = 0
				}
				c.schedules(driver{fmt.Sprintf("leave-one-out completion of %d images of %dx%d, %d threads (0: sequential, -1: one per processor)", n, w, h, procs), b, 4, func() (func(), func() error) {
					old, _ := filepath.Glob(filepath.Join(dir, "cmpl_*"))
					for _, x := range old {
						os.Remove(x)
					}
					os.WriteFile(f, []byte(dataText("", order, cats, rows, layout{" ", "", "\n", true})), 0o644)
					sys.Width, sys.Height, sys.Max = w, h, mx
					sys.RefreshRandom(5)
					vrand.Stream = true
					vrand.Restart()
					return func() {
							if procs == 0 {
								app.ImgTest(f, 1, 1, 1, .1, 1)
							} else {
								app.ImgTestParallel(f, 1, 1, 1, .1, 1, max(procs, 0))
							}
						}, func() error {
							vrand.Stream = false
							got := map[string]int{}
							for i := 0; i < n; i++ {
								px := make([]int, npx)
								seen := make([]bool, npx)
								for _, t := range io.Quadrants {
									kept, err := judgeCompletion(filepath.Join(dir, fmt.Sprintf("cmpl_%s_%d.pgm", t, i)), t, w, h, mx, nil, nil)
									if err != nil {
										return fmt.Errorf("image %d: %w", i, err)
									}
									for j, x := range kept {
										if seen[j] && px[j] != x {
											return fmt.Errorf("image %d has pixel %d as %d and %d", i, j, px[j], x)
										}
										px[j], seen[j] = x, true
									}
								}
								got[fmt.Sprint(px)]++
							}
							if fmt.Sprint(got) != fmt.Sprint(want) {
								return fmt.Errorf("the kept halves are those of %v, want %v", got, want)
							}
							return nil
						}
				}})
			}
		}
	}
}

// ---------------------------------------------------------------- C29

type drawing struct {
	label map[string]string
	ch    map[string][][2]string // weight, child
	root  []string
}

func (d *drawing) canon(n string, depth int) string {
	if depth > 100 {
		return "cycle"
	}
	var s []string
	for _, e := range d.ch[n] {
		s = append(s, e[0]+"*"+d.canon(e[1], depth+1))
	}
	sort.Strings(s)
	return d.label[n] + "(" + strings.Join(s, " ") + ")"
}

func (s spec) canonDrawing(i int) string {
	n := s[i]
	switch n.Kind {
	case 'L':
		return fmt.Sprintf("X%d()", n.Leaf.Var)
	}
	var c []string
	for j, x := range n.Ch {
		w := ""
		if n.Kind == 'S' {
			w = fmt.Sprintf("%.3f", n.W[j])
		}
		c = append(c, w+"*"+s.canonDrawing(x))
	}
	sort.Strings(c)
	k := "+"
	if n.Kind == 'P' {
		k = "x"
	}
	return k + "(" + strings.Join(c, " ") + ")"
}

func (d *drawing) add(n, l string) error {
	if _, dup := d.label[n]; dup || n == "" {
		return fmt.Errorf("node %q twice", n)
	}
	d.label[n] = l
	return nil
}

func (d *drawing) edge(a, b, w string) error {
	for _, n := range []string{a, b} {
		if _, ok := d.label[n]; !ok {
			return fmt.Errorf("edge to %q, which is not a node yet", n)
		}
	}
	d.ch[a] = append(d.ch[a], [2]string{w, b})
	return nil
}

func (d *drawing) is(s spec) error {
	in := map[string]bool{}
	for _, es := range d.ch {
		for _, e := range es {
			in[e[1]] = true
		}
	}
	var roots []string
	for n := range d.label {
		if !in[n] {
			roots = append(roots, n)
		}
	}
	if len(roots) != 1 {
		return fmt.Errorf("%d nodes without parents", len(roots))
	}
	if a, b := d.canon(roots[0], 0), s.canonDrawing(len(s)-1); a != b {
		return fmt.Errorf("drawn as %s, want %s", a, b)
	}
	return nil
}

var (
	dotNode  = regexp.MustCompile(`^(\w+)\s*\[label=(?:"(\+)"|<(&times;)>|<X<sub>(-?\d+)</sub>>),shape=\w+\];?$`)
	dotEdge  = regexp.MustCompile(`^(\w+) -- (\w+)\s*(?:\[label="([^"]*)"\])?;?$`)
	toolNode = regexp.MustCompile(`^(?:(\w+)\s*=\s*)add_node\("(\+|\*|X_-?\d+)", "#\w+"\)$`)
	toolEdge = regexp.MustCompile(`^add_edge\((\w+), (\w+), "([^"]*)"\)$`)
	toolBare = regexp.MustCompile(`^add_edge_nameless\((\w+), (\w+)\)$`)
)

func readDot(file string) (*drawing, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	t := strings.TrimSpace(string(b))
	if !strings.HasPrefix(t, "graph {") || !strings.HasSuffix(t, "}") {
		return nil, fmt.Errorf("not a graph: %q", t)
	}
	d := &drawing{label: map[string]string{}, ch: map[string][][2]string{}}
	for _, l := range strings.Split(t[len("graph {"):len(t)-1], "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if m := dotNode.FindStringSubmatch(l); m != nil {
			k := "X" + m[4]
			if m[2] != "" {
				k = "+"
			} else if m[3] != "" {
				k = "x"
			}
			err = d.add(m[1], k)
		} else if m := dotEdge.FindStringSubmatch(l); m != nil {
			err = d.edge(m[1], m[2], m[3])
		} else {
			err = fmt.Errorf("line %q", l)
		}
		if err != nil {
			return nil, err
		}
	}
	return d, nil
}

func readTools(file string) (*drawing, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	d := &drawing{label: map[string]string{}, ch: map[string][][2]string{}}
	draws := false
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimRight(l, " ")
		if strings.HasPrefix(l, "graph_draw(") {
			want := strings.TrimSuffix(file, filepath.Ext(file)) + ".png"
			if !strings.Contains(l, fmt.Sprintf("output=%q", want)) {
				return nil, fmt.Errorf("%q does not draw to %s", l, want)
			}
			draws = true
		}
		if strings.Contains(l, "def ") || strings.HasPrefix(l, "\t") || !strings.Contains(l, "add_") {
			continue
		}
		if m := toolNode.FindStringSubmatch(l); m != nil {
			k := strings.Replace(m[2], "_", "", 1)
			if k == "*" {
				k = "x"
			}
			err = d.add(m[1], k)
		} else if m := toolEdge.FindStringSubmatch(l); m != nil {
			err = d.edge(m[1], m[2], m[3])
		} else if m := toolBare.FindStringSubmatch(l); m != nil {
			err = d.edge(m[1], m[2], "")
		} else {
			err = fmt.Errorf("line %q", l)
		}
		if err != nil {
			return nil, err
		}
	}
	if !draws {
		return nil, fmt.Errorf("nothing is drawn")
	}
	return d, nil
}

func checkC29(c *Ctx) {
	menu := []leafSpec{mleaf(0, .25, .75), ileaf(1, 1), gleaf(12, 0, 1), mleaf(1, .5, .5)}
	ws := []func(int, int) []float64{wNormal, wZero}
	cfgs := []specCfg{
		{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, menu: menu, weights: ws},
		{maxLeaves: 3, maxInternals: 3, maxNodes: 6, maxCh: 3, menu: menu[:2], weights: ws[:1]},
		{maxLeaves: 3, maxInternals: 3, maxNodes: 5, maxCh: 3, multi: true, ordered: true, menu: menu[:2], weights: ws[:1]},
	}
	if c.Thorough {
		cfgs[1].menu, cfgs[1].weights = menu[:3], ws
		cfgs = append(cfgs, specCfg{maxLeaves: 4, maxInternals: 4, maxNodes: 7, maxCh: 2, menu: menu[:2], weights: ws[:1]})
	}
	c.Bound("networks", "all rooted shapes with up to 5 nodes over 4 leaves and 2 weightings, 6 nodes over 2 leaves, repeated edges up to 5 nodes")
	f, g := filepath.Join(c.Scratch, "g.dot"), filepath.Join(c.Scratch, "g.py")
	run := func(s spec) error {
		nodes := s.build()
		root := nodes[len(nodes)-1]
		io.DrawGraph(f, root)
		io.DrawGraphTools(g, root)
		c.Trans(2)
		c.Trace(2)
		c.State(1)
		d, err := readDot(f)
		if err == nil {
			err = d.is(s)
		}
		if err != nil {
			return fmt.Errorf("DrawGraph: %w", err)
		}
		if d, err = readTools(g); err == nil {
			err = d.is(s)
		}
		if err != nil {
			return fmt.Errorf("DrawGraphTools: %w", err)
		}
		return s.intact(nodes)
	}
	for _, l := range menu {
		s := spec{{Kind: 'L', Leaf: l}}
		c.Case(s.String, func() error { return run(s) })
	}
	for _, cfg := range cfgs {
		enumSpecs(cfg, func(s spec) { c.Case(s.String, func() error { return run(s) }) })
	}
	c.Bound("larger networks", "the families of networks whose unfolding has up to 3000 nodes")
	families(c.Thorough, func(name string, s spec) {
		size := make([]int, len(s))
		for i, n := range s {
			size[i] = 1
			for _, x := range n.Ch {
				size[i] = min(size[i]+size[x], 1<<20)
			}
		}
		if size[len(s)-1] > 3000 {
			return
		}
		c.Case(func() string { return name }, func() error { return run(s) })
	})
}

// ---------------------------------------------------------------- C30

// wire is a stand-in for the network: it answers each request with the next outcome.
type wire struct {
	script []int
	urls   []string
	bodies []string
	fresh  int
}

const (
	wOK     = iota
	wRefuse // no connection
	w404
	w500
	wCut0 // breaks before, in and after the last byte of the body
	wCut1
	wCutEnd
	wEmpty // an empty file
	wN
)

var wNames = []string{"ok", "refused", "404", "500", "cut at once", "cut in the middle", "cut at the end", "empty file"}

// wide is one outcome of a transfer in full: the status, what the server sends, where the connection breaks
// (negative: nowhere), how many bytes arrive at a time, whether the length is announced, whether the end comes
// together with the last bytes, and the number of redirections before.
type wide struct {
	status, size, cut, piece int
	length, joined           bool
	moved                    int
}

func (w wide) good() bool { return w.status == 200 && (w.cut < 0) }

func (w wide) String() string {
	return fmt.Sprintf("status %d, %d bytes, breaks at %d, pieces of %d, length announced %v, end with the last piece %v, moved %d times", w.status, w.size, w.cut, w.piece, w.length, w.joined, w.moved)
}

// wideBody delivers in pieces and watches the target while it does.
type wideBody struct {
	w     wide
	b     []byte
	at    int
	watch func()
}

func (b *wideBody) Read(p []byte) (int, error) {
	b.watch()
	end := len(b.b)
	if b.w.cut >= 0 {
		end = b.w.cut
	}
	fin := func() error {
		if b.w.cut >= 0 && b.w.length {
			return goio.ErrUnexpectedEOF // the connection was closed early
		}
		if b.w.cut >= 0 {
			return fmt.Errorf("connection reset")
		}
		return goio.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := copy(p, b.b[b.at:end])
	if n > b.w.piece {
		n = b.w.piece
	}
	b.at += n
	if b.at == end && (n == 0 || b.w.joined) {
		return n, fin()
	}
	return n, nil
}
func (b *wideBody) Close() error { return nil }

// wideWire answers with the given outcome.
type wideWire struct {
	w     wide
	text  []byte
	asked int
	watch func()
}

func (t *wideWire) RoundTrip(r *http.Request) (*http.Response, error) {
	t.watch()
	t.asked++
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Request: r}
	if t.asked <= t.w.moved {
		code := []int{301, 302, 307, 308}[t.asked%4]
		resp.StatusCode, resp.Status = code, fmt.Sprintf("%d %s", code, http.StatusText(code))
		resp.Header.Set("Location", fmt.Sprintf("http://upstream.invalid/moved/%d/all.data", t.asked))
		resp.Body = goodBody{strings.NewReader("moved")}
		return resp, nil
	}
	resp.StatusCode, resp.Status = t.w.status, fmt.Sprintf("%d %s", t.w.status, http.StatusText(t.w.status))
	if t.w.length {
		resp.ContentLength = int64(len(t.text))
		resp.Header.Set("Content-Length", fmt.Sprint(len(t.text)))
	}
	resp.Body = &wideBody{w: t.w, b: t.text, watch: t.watch}
	return resp, nil
}

// c30wide downloads over the given old content (nil: none) and judges the target during the transfer and after it.
func (c *Ctx) c30wide(dir string, w wide, old []byte, folder bool) error {
	top := filepath.Join(dir, "t")
	os.RemoveAll(top)
	os.MkdirAll(filepath.Join(top, "sub"), 0o755)
	file := filepath.Join(top, "a.data")
	dest := file
	if folder {
		dest = filepath.Join(top, "sub")
		file = filepath.Join(dest, "all.data")
	}
	if old != nil {
		if err := os.WriteFile(file, old, 0o644); err != nil {
			return err
		}
	}
	text := make([]byte, w.size)
	for i := range text {
		text[i] = byte(i*7 + i/256 + i/65536)
	}
	holds := func(want []byte) error {
		b, e := os.ReadFile(file)
		if want == nil {
			if !os.IsNotExist(e) {
				return fmt.Errorf("there is a file of %d bytes (%v), want none", len(b), e)
			}
			return nil
		}
		if e != nil || !bytes.Equal(b, want) {
			return fmt.Errorf("the file has %d bytes (%v), want the %d given", len(b), e, len(want))
		}
		return nil
	}
	var during error
	tr := &wideWire{w: w, text: text, watch: func() {
		if during == nil {
			during = holds(old)
		}
	}}
	http.DefaultTransport = tr
	err := io.DownloadFromURL("http://upstream.invalid/x/all.data", dest, true)
	c.Trans(tr.asked)
	c.State(1)
	c.Trace(1)
	if during != nil {
		return fmt.Errorf("while the transfer is under way %w", during)
	}
	if (err == nil) != w.good() {
		return fmt.Errorf("error %v", err)
	}
	if w.good() {
		return holds(text)
	}
	return holds(old)
}

// tree is a copy of the files below a folder.
func tree(top string) map[string][]byte {
	r := map[string][]byte{}
	filepath.Walk(top, func(p string, fi os.FileInfo, e error) error {
		if e == nil && !fi.IsDir() {
			r[p], _ = os.ReadFile(p)
		}
		return nil
	})
	return r
}

// c30crash stops the first download for good when bytes are asked for the crash-th time (the files are put
// back to what they were then) and downloads again.
func (c *Ctx) c30crash(dir string, w wide, old []byte, crash int, again wide, override, folder bool) (over bool, err error) {
	top := filepath.Join(dir, "t")
	os.RemoveAll(top)
	os.MkdirAll(filepath.Join(top, "sub"), 0o755)
	file := filepath.Join(top, "a.data")
	dest := file
	if folder {
		dest = filepath.Join(top, "sub")
		file = filepath.Join(dest, "all.data")
	}
	if old != nil {
		if err := os.WriteFile(file, old, 0o644); err != nil {
			return false, err
		}
	}
	text := func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*k + i/256)
		}
		return b
	}
	var left map[string][]byte
	seen := 0
	tr := &wideWire{w: w, text: text(w.size, 7), watch: func() {
		if seen == crash {
			left = tree(top)
		}
		seen++
	}}
	http.DefaultTransport = tr
	io.DownloadFromURL("http://upstream.invalid/x/all.data", dest, true)
	if left == nil {
		if seen != crash {
			return true, nil
		}
		left = tree(top) // after the download, nothing to crash any more
		old = left[file]
	}
	os.RemoveAll(top)
	os.MkdirAll(filepath.Join(top, "sub"), 0o755)
	for p, b := range left {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return false, err
		}
	}
	tr2 := &wideWire{w: again, text: text(again.size, 5), watch: func() {}}
	http.DefaultTransport = tr2
	e := io.DownloadFromURL("http://upstream.invalid/x/all.data", dest, override)
	c.Trans(2)
	c.State(1)
	c.Trace(1)
	want, good := old, true
	if override || old == nil {
		good = again.good()
		if good {
			want = tr2.text
		}
	} else if tr2.asked > 0 {
		return false, fmt.Errorf("transferred although the file is there")
	}
	if (e == nil) != good {
		return false, fmt.Errorf("error %v", e)
	}
	b, e := os.ReadFile(file)
	if want == nil && !os.IsNotExist(e) || want != nil && (e != nil || !bytes.Equal(b, want)) {
		return false, fmt.Errorf("after the second download the file has %d bytes (%v), want %d", len(b), e, len(want))
	}
	return false, nil
}

type cutBody struct {
	b   []byte
	cut int // bytes before the failure, negative: none
	at  int
}

func (b *cutBody) Read(p []byte) (int, error) {
	if b.cut >= 0 && b.at >= b.cut {
		return 0, fmt.Errorf("connection reset")
	}
	if b.at >= len(b.b) {
		return 0, fmt.Errorf("EOF")
	}
	n := 1
	p[0] = b.b[b.at]
	b.at++
	return n, nil
}
func (b *cutBody) Close() error { return nil }

type goodBody struct{ *strings.Reader }

func (goodBody) Close() error { return nil }

func (w *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	w.urls = append(w.urls, r.URL.String())
	k := wOK
	if len(w.script) > 0 {
		k, w.script = w.script[0], w.script[1:]
	}
	w.fresh++
	// Every transfer brings a different data file.
	text := fmt.Sprintf("var 0 9\nvar 1 2\n%d 1\n%d 0\n", w.fresh%9, w.fresh/9%9)
	if k == wEmpty {
		text = ""
	}
	w.bodies = append(w.bodies, text)
	resp := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Request: r}
	switch k {
	case wRefuse:
		return nil, fmt.Errorf("connection refused")
	case w404:
		resp.StatusCode, resp.Status = 404, "404 Not Found"
		text = "no such file"
	case w500:
		resp.StatusCode, resp.Status = 500, "500 Internal Server Error"
		text = "sorry"
	case wCut0, wCut1, wCutEnd:
		n := map[int]int{wCut0: 0, wCut1: len(text) / 2, wCutEnd: len(text)}[k]
		resp.Body = &cutBody{b: []byte(text), cut: n}
		return resp, nil
	}
	resp.Body = goodBody{strings.NewReader(text)}
	return resp, nil
}

func checkC30(c *Ctx) {
	oldT := http.DefaultTransport
	defer func() { http.DefaultTransport = oldT }()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Bound("downloads", fmt.Sprintf("histories of up to %d calls, overriding or not, to a file or a folder, each with one of %d outcomes of the transfer %v; every data set loader with two outcomes each over two calls", depth, wN, wNames))
	c.Assume("the network is replaced at the transport of the HTTP client; file operations themselves succeed")
	dir := inScratch(c, "dl")
	type call struct{ override, folder bool }
	kinds := []call{{false, false}, {true, false}, {false, true}, {true, true}}
	for l := 1; l <= depth; l++ {
		enumTuples(l, len(kinds), func(ks []int) {
			enumTuples(l, wN, func(out []int) {
				seq := append([]int(nil), ks...)
				script := append([]int(nil), out...)
				c.Case(func() string {
					s := ""
					for i, k := range seq {
						s += fmt.Sprintf("[override %v, folder %v, transfer %s] ", kinds[k].override, kinds[k].folder, wNames[script[i]])
					}
					return s
				}, func() error {
					os.RemoveAll(filepath.Join(dir, "t"))
					os.MkdirAll(filepath.Join(dir, "t", "sub"), 0o755)
					file := map[bool]string{false: filepath.Join(dir, "t", "a.data"), true: filepath.Join(dir, "t", "sub", "all.data")}
					model := map[bool]*string{}
					tr := &wire{}
					http.DefaultTransport = tr
					for i, k := range seq {
						cl := kinds[k]
						dest := file[cl.folder]
						if cl.folder {
							dest = filepath.Join(dir, "t", "sub")
						}
						tr.script = []int{script[i]}
						n := len(tr.urls)
						err := io.DownloadFromURL("http://upstream.invalid/x/all.data", dest, cl.override)
						c.Trans(1)
						fail := func(f string, a ...any) error { return fmt.Errorf("call %d: %s", i, fmt.Sprintf(f, a...)) }
						if model[cl.folder] != nil && !cl.override {
							if err != nil || len(tr.urls) != n {
								return fail("the file exists: error %v, %d transfers", err, len(tr.urls)-n)
							}
						} else {
							if len(tr.urls) != n+1 || tr.urls[n] != "http://upstream.invalid/x/all.data" {
								return fail("transfers %v", tr.urls[n:])
							}
							good := script[i] == wOK || script[i] == wEmpty
							if good != (err == nil) {
								return fail("error %v", err)
							}
							if good {
								s := tr.bodies[n]
								model[cl.folder] = &s
							}
						}
						for _, d := range []bool{false, true} {
							b, e := os.ReadFile(file[d])
							if model[d] == nil {
								if !os.IsNotExist(e) {
									return fail("%s holds %q although no transfer to it was complete", file[d], b)
								}
							} else if e != nil || string(b) != *model[d] {
								return fail("%s holds %q (%v), want %q", file[d], b, e, *model[d])
							}
						}
						n = 0
						filepath.Walk(filepath.Join(dir, "t"), func(p string, fi os.FileInfo, e error) error {
							if e == nil && !fi.IsDir() {
								n++
							}
							return nil
						})
						if n != len(model) {
							return fail("%d files, want %d", n, len(model))
						}
					}
					c.Trace(1)
					c.State(1)
					return nil
				})
			})
		})
	}
	// Statuses, sizes and the ways in which the bytes arrive.
	statuses := []int{200, 206, 300, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503}
	sizes := []int{0, 1, 511, 512, 513, 4096, 32767, 32768, 32769, 100000, 1 << 20}
	if c.Thorough {
		sizes = append(sizes, 1<<24+1)
	}
	c.Bound("larger downloads", fmt.Sprintf("statuses %v, sizes %v, breaks at the start, the middle, around 512 and 32768 bytes and at the end, pieces of 1 byte to all, end with or after the last piece, length announced or not, up to 3 redirections, over a shorter, longer or no older file; the target is looked at whenever bytes arrive", statuses, sizes))
	for _, st := range statuses {
		for _, size := range sizes {
			if st == 304 && size > 0 {
				continue
			}
			cuts := []int{-1}
			for _, x := range []int{0, 1, size / 2, 512, 32768, size - 1, size} {
				if x >= 0 && x <= size && st == 200 {
					cuts = append(cuts, x)
				}
			}
			for _, cut := range cuts {
				for _, piece := range []int{1, 1000, 32768, 1 << 30} {
					if size/piece > 1100 {
						continue
					}
					for x := 0; x < 8; x++ {
						for _, old := range [][]byte{nil, []byte("var 0 2\n1\n"), bytes.Repeat([]byte("1 "), 70000)} {
							w := wide{st, size, cut, piece, x&1 != 0, x&2 != 0, 0}
							if x&4 != 0 {
								w.moved = 1 + size%3
							}
							if w.length && cut == size {
								continue // all that was announced has arrived
							}
							folder := (x+cut)%2 == 0
							old := old
							c.Case(func() string { return fmt.Sprintf("%v, over %d bytes, folder %v", w, len(old), folder) }, func() error {
								return c.c30wide(dir, w, old, folder)
							})
						}
					}
				}
			}
		}
	}
	c.Bound("crashes", "a first download of 0, 10, 3000 or 70000 bytes in pieces, stopped for good whenever bytes are asked for, then a second of 0, 5, 2000 or 100000 bytes that succeeds, breaks or fails, over an older file or none")
	for _, size := range []int{0, 10, 3000, 70000} {
		for _, size2 := range []int{0, 5, 2000, 100000} {
			for _, kind := range []wide{{status: 200, cut: -1}, {status: 200, cut: size2 / 2}, {status: 404, cut: -1}} {
				for x := 0; x < 16; x++ {
					w := wide{200, size, -1, max(1, size/5), false, x&8 != 0, 0}
					again := wide{kind.status, size2, kind.cut, 1000, x&1 != 0, false, 0}
					override, folder := x&1 != 0, x&2 != 0
					var old []byte
					if x&4 != 0 {
						old = []byte("var 0 2\n1\n")
					}
					c.Case(func() string {
						return fmt.Sprintf("first %v; then %v; override %v, folder %v, old file %v", w, again, override, folder, old != nil)
					}, func() error {
						for crash := 0; ; crash++ {
							over, err := c.c30crash(dir, w, old, crash, again, override, folder)
							if err != nil {
								return fmt.Errorf("crash at %d: %w", crash, err)
							}
							if over {
								return nil
							}
						}
					})
				}
			}
		}
	}
	// The loaders of known data sets.
	one := map[string]func() (map[int]*learn.Variable, []map[int]int){
		"caltech": data.Caltech, "caltech_4bit": data.Caltech4Bit, "caltech_3bit": data.Caltech3Bit, "digits": data.Digits, "digits_x": data.DigitsX,
		"olivetti": data.Olivetti, "olivetti_3bit": data.Olivetti3Bit, "olivetti_padded_u": data.OlivettiPadded, "olivetti_big": data.OlivettiBig, "olivetti_small": data.OlivettiSmall,
	}
	rowsOf := func(text string) [][]int {
		var a, b int
		fmt.Sscanf(text, "var 0 9\nvar 1 2\n%d 1\n%d 0\n", &a, &b)
		return [][]int{{a, 1}, {b, 0}}
	}
	for _, name := range sortedKeys(one) {
		load := one[name]
		for x := 0; x < wN*wN; x++ {
			script := []int{x / wN, x % wN}
			if script[0] == wEmpty || script[1] == wEmpty {
				continue // not a data file
			}
			c.Case(func() string {
				return fmt.Sprintf("data set %s, transfers %s, %s", name, wNames[script[0]], wNames[script[1]])
			}, func() error {
				os.RemoveAll(filepath.Join(dir, ".cache"))
				tr := &wire{script: script}
				http.DefaultTransport = tr
				var have *string
				for i := 0; i < 3; i++ {
					n := len(tr.urls)
					sc, D := load()
					c.Trans(1)
					if have == nil {
						if len(tr.urls) != n+1 || !strings.Contains(tr.urls[n], "/"+name+"/") {
							return fmt.Errorf("call %d: transfers %v", i, tr.urls[n:])
						}
						k := wOK
						if n < 2 {
							k = script[n]
						}
						if k == wOK {
							have = &tr.bodies[n]
						} else {
							if sc != nil || D != nil {
								return fmt.Errorf("call %d: data %v after a failed transfer", i, D)
							}
							continue
						}
					} else if len(tr.urls) != n {
						return fmt.Errorf("call %d: transferred again", i)
					}
					if err := scopeIs(sc, []int{9, 2}, nil); err != nil {
						return err
					}
					if err := rowsAre(D, rowsOf(*have), 2); err != nil {
						return err
					}
				}
				c.Trace(1)
				c.State(1)
				return nil
			})
		}
	}
	two := map[string]func() (map[int]*learn.Variable, []map[int]int, []map[int]int){
		"256_1000": data.MNIST1000, "256_2000": data.MNIST2000, "8_1000": data.MNIST3Bits1000, "8_2000": data.MNIST3Bits2000,
	}
	for _, name := range sortedKeys(two) {
		load := two[name]
		for x := 0; x < wN*wN; x++ {
			script := []int{x / wN, x % wN}
			if script[0] == wEmpty || script[1] == wEmpty {
				continue
			}
			c.Case(func() string {
				return fmt.Sprintf("data sets %s, transfers %s, %s", name, wNames[script[0]], wNames[script[1]])
			}, func() error {
				os.RemoveAll(filepath.Join(dir, ".cache"))
				tr := &wire{script: script}
				http.DefaultTransport = tr
				have := map[string]*string{}
				for i := 0; i < 3; i++ {
					n := len(tr.urls)
					sc, T, R := load()
					c.Trans(1)
					bad := false
					for j := n; j < len(tr.urls); j++ {
						k := wOK
						if j < 2 {
							k = script[j]
						}
						kind := ""
						for _, w := range []string{"test_", "train_"} {
							if strings.HasSuffix(tr.urls[j], "/"+w+name+".data") {
								kind = w
							}
						}
						if kind == "" || have[kind] != nil {
							return fmt.Errorf("call %d: transfer of %s", i, tr.urls[j])
						}
						if k == wOK {
							have[kind] = &tr.bodies[j]
						} else {
							bad = true
						}
					}
					if bad {
						if sc != nil || T != nil || R != nil {
							return fmt.Errorf("call %d: data after a failed transfer", i)
						}
						continue
					}
					if have["test_"] == nil || have["train_"] == nil {
						return fmt.Errorf("call %d: transfers %v", i, tr.urls)
					}
					if err := scopeIs(sc, []int{9, 2}, nil); err != nil {
						return err
					}
					if err := rowsAre(T, rowsOf(*have["test_"]), 2); err != nil {
						return fmt.Errorf("test data: %w", err)
					}
					if err := rowsAre(R, rowsOf(*have["train_"]), 2); err != nil {
						return fmt.Errorf("training data: %w", err)
					}
				}
				c.Trace(1)
				c.State(1)
				return nil
			})
		}
	}
}
