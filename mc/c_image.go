package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
)

func init() {
	register("C22", "a case is one tree of image folders in one layout, converted by every converter, or one part of the schedule tree of the concurrent converter", checkC22)
	register("C27", "a case is one image size with every half and every set of known pixels, written by every writer and read back token by token", checkC27)
}

// folder is a tree of images: images[class][i] are pixels in row order.
type folder struct {
	w, h, max int
	images    [][][]int
	stray     bool // a file next to the class folders
	compiled  int  // 0: none; 1: empty; 2: with an older output
}

func (f folder) String() string {
	return fmt.Sprintf("%dx%d up to %d, classes %v, stray file %v, compiled folder %d", f.w, f.h, f.max, f.images, f.stray, f.compiled)
}

var imageLayouts = []string{"rows", "line", "column", "trailing", "wide", "nofinal", "blank", "crlf", "split"}

// pixelText writes the pixels of an image in one of the layouts.
func pixelText(px []int, w int, lay string, sep string) string {
	var b strings.Builder
	eol, end := "\n", true
	per := w
	trail := ""
	lead := ""
	switch lay {
	case "line":
		per = len(px)
	case "column":
		per = 1
	case "trailing":
		trail = " "
	case "wide":
		sep += "  "
	case "nofinal":
		end = false
	case "blank":
		lead = "\n"
	case "crlf":
		eol = "\r\n"
	case "split":
		per = w + 1 // line breaks in the middle of rows
	}
	b.WriteString(lead)
	for i, p := range px {
		fmt.Fprint(&b, p)
		last := i == len(px)-1
		if (i+1)%per == 0 || last {
			b.WriteString(trail)
			if !last || end {
				b.WriteString(eol)
			}
			if lay == "blank" && !last {
				b.WriteString(eol)
			}
		} else {
			b.WriteString(sep)
		}
	}
	return b.String()
}

// plant writes the folder; the names make every directory order different from the numbering.
func (f folder) plant(dir, lay string, bitmap bool) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	for k, imgs := range f.images {
		odd := len(lay)%2 == 1 // unusual names
		sub := filepath.Join(dir, fmt.Sprintf("class_%d", (k*7+3)%10+k/10*10))
		if odd {
			sub = filepath.Join(dir, fmt.Sprintf([]string{"compiled%d", "%d", "a b %d", "v%d.0", "compile_%d", "CLASS%d.pgm", "precompiled.%d"}[k%7], k*7%20))
			if k == 3 {
				sub = filepath.Join(dir, "Compiled")
			}
		}
		os.MkdirAll(sub, 0o755)
		for i, px := range imgs {
			var head, body string
			if bitmap {
				head = fmt.Sprintf("P1\n%d %d\n", f.w, f.h)
				sep := ""
				if lay == "wide" {
					sep = " "
				}
				l := lay
				if l == "wide" {
					l = "rows"
				}
				body = pixelText(px, f.w, l, sep)
			} else {
				head = fmt.Sprintf("P2\n%d %d\n%d\n", f.w, f.h, f.max)
				body = pixelText(px, f.w, lay, " ")
			}
			if lay == "crlf" {
				head = strings.ReplaceAll(head, "\n", "\r\n")
			}
			name := fmt.Sprintf("img%d", (i*3+1)%10+i/10*10)
			if odd {
				name = fmt.Sprintf([]string{"%d", "compiled%d", "x %d.pgm", "%d.PGM", "Image-%d.tar.gz", "%d.data"}[i%6], i*7)
				if i == 1 {
					name = "compiled"
				}
			}
			os.WriteFile(filepath.Join(sub, name), []byte(head+body), 0o644)
		}
	}
	if f.stray {
		os.WriteFile(filepath.Join(dir, "README"), []byte("P2\n9 9\n9\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "zzz"), []byte("nothing"), 0o644)
	}
	if f.compiled > 0 {
		os.MkdirAll(filepath.Join(dir, "compiled"), 0o755)
		if f.compiled > 1 {
			for _, n := range []string{"out.data", "other.data"} {
				os.WriteFile(filepath.Join(dir, "compiled", n), []byte(strings.Repeat("9 9 9 9\n", 500)), 0o644)
			}
		}
	}
}

// rawData is a data file taken apart without the code under test.
type rawData struct {
	labels []int
	cats   []int
	rows   [][]int
}

func readRaw(file string) (r rawData, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return r, err
	}
	t := string(b)
	if !strings.HasSuffix(t, "\n") {
		return r, fmt.Errorf("no newline at the end of %q", t)
	}
	for _, l := range strings.Split(strings.TrimSuffix(t, "\n"), "\n") {
		w := strings.Fields(l)
		if len(w) == 0 {
			return r, fmt.Errorf("empty line in %q", t)
		}
		nums := func(w []string) (n []int) {
			for _, s := range w {
				x, e := strconv.Atoi(s)
				if e != nil {
					err = fmt.Errorf("line %q", l)
				}
				n = append(n, x)
			}
			return
		}
		switch w[0] {
		case "labels":
			n := nums(w[1:])
			if len(n) == 0 || n[0] != len(n)-1 || r.cats != nil {
				return r, fmt.Errorf("line %q", l)
			}
			r.labels = n[1:]
		case "var":
			n := nums(w[1:])
			if len(n) != 2 || n[0] != len(r.cats) || r.rows != nil {
				return r, fmt.Errorf("line %q", l)
			}
			r.cats = append(r.cats, n[1])
		default:
			r.rows = append(r.rows, nums(w))
		}
		if err != nil {
			return r, err
		}
	}
	return r, nil
}

// rowsKeys tells sets of sets of rows apart.
func rowsKeys(groups [][][]int) string {
	var ks []string
	for _, rows := range groups {
		var s []string
		for _, x := range rows {
			s = append(s, fmt.Sprint(x))
		}
		sort.Strings(s)
		ks = append(ks, strings.Join(s, ";"))
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

// judgeTable checks that the data file holds the folder's images, each with the label of its
// class, for some numbering of the classes.
func (f folder) judgeTable(file string) error {
	r, err := readRaw(file)
	if err != nil {
		return err
	}
	n := f.w * f.h
	if len(r.cats) != n+1 || r.cats[n] != len(f.images) {
		return fmt.Errorf("variables %v for %d pixels and %d classes", r.cats, n, len(f.images))
	}
	for _, k := range r.cats[:n] {
		if k != f.max+1 {
			return fmt.Errorf("variables %v for values up to %d", r.cats, f.max)
		}
	}
	groups := make([][][]int, len(f.images))
	for _, x := range r.rows {
		if len(x) != n+1 || x[n] < 0 || x[n] >= len(groups) {
			return fmt.Errorf("row %v, want %d values and a label below %d", x, n, len(groups))
		}
		groups[x[n]] = append(groups[x[n]], x[:n])
	}
	if rowsKeys(groups) != rowsKeys(f.images) {
		return fmt.Errorf("rows %v are not the images %v with one label per class", r.rows, f.images)
	}
	sc, D := io.ParseData(file)
	if err := scopeIs(sc, r.cats, nil); err != nil {
		return fmt.Errorf("parsed: %w", err)
	}
	return rowsAre(D, r.rows, n+1)
}

// judgeEvidence checks that the evidence file holds the images class by class and that its labels
// say where each class starts.
func (f folder) judgeEvidence(file string) error {
	r, err := readRaw(file)
	if err != nil {
		return err
	}
	n := f.w * f.h
	if len(r.cats) != n || len(r.labels) != len(f.images) {
		return fmt.Errorf("%d variables and labels %v for %d pixels and %d classes", len(r.cats), r.labels, n, len(f.images))
	}
	for _, k := range r.cats {
		if k != f.max+1 {
			return fmt.Errorf("variables %v for values up to %d", r.cats, f.max)
		}
	}
	total := 0
	for _, x := range f.images {
		total += len(x)
	}
	if len(r.rows) != total {
		return fmt.Errorf("%d rows for %d images", len(r.rows), total)
	}
	var got [][][]int
	for i, a := range r.labels {
		b := len(r.rows)
		if i+1 < len(r.labels) {
			b = r.labels[i+1]
		}
		if a < 0 || a > b || b > len(r.rows) || i == 0 && a != 0 {
			return fmt.Errorf("labels %v for classes %v", r.labels, f.images)
		}
		got = append(got, r.rows[a:b])
	}
	if rowsKeys(got) != rowsKeys(f.images) {
		return fmt.Errorf("labels %v and rows %v are not the classes %v", r.labels, r.rows, f.images)
	}
	sc, D, L := io.ParseEvidence(file)
	if err := scopeIs(sc, r.cats, nil); err != nil {
		return fmt.Errorf("parsed: %w", err)
	}
	if !intsEq(L, r.labels) {
		return fmt.Errorf("parsed labels %v, want %v", L, r.labels)
	}
	return rowsAre(D, r.rows, n)
}

func (f folder) convert(c *Ctx, dir, lay string) error {
	out := filepath.Join(dir, "compiled", "out.data")
	type conv struct {
		name   string
		bitmap bool
		run    func() (int, int, int)
		judge  func(string) error
	}
	none := func(g func(string, string)) func() (int, int, int) {
		return func() (int, int, int) { g(dir, "out.data"); return f.w, f.h, f.max }
	}
	convs := []conv{
		{"PGMFToData", false, func() (int, int, int) { return io.PGMFToData(dir, "out.data") }, f.judgeTable},
		{"PGMFToEvidence", false, func() (int, int, int) { return io.PGMFToEvidence(dir, "out.data") }, f.judgeEvidence},
		{"BufferedPGMFToData", false, func() (int, int, int) { return io.BufferedPGMFToData(dir, "out.data") }, f.judgeTable},
	}
	if f.max == 1 {
		convs = append(convs, conv{"PBMFToData", true, none(io.PBMFToData), f.judgeTable},
			conv{"PBMFToEvidence", true, none(io.PBMFToEvidence), f.judgeEvidence})
	}
	for _, k := range convs {
		f.plant(dir, lay, k.bitmap)
		w, h, max := k.run()
		c.Trans(1)
		c.Trace(1)
		c.State(1)
		if w != f.w || h != f.h || max != f.max {
			return fmt.Errorf("%s returned %d, %d, %d", k.name, w, h, max)
		}
		if err := k.judge(out); err != nil {
			return fmt.Errorf("%s: %w", k.name, err)
		}
		// A second conversion sees the first one's output folder.
		k.run()
		if err := k.judge(out); err != nil {
			return fmt.Errorf("%s, second time: %w", k.name, err)
		}
		if f.compiled > 1 {
			b, _ := os.ReadFile(filepath.Join(dir, "compiled", "other.data"))
			if len(b) != 4000 {
				return fmt.Errorf("%s changed another file", k.name)
			}
		}
	}
	return nil
}

func checkC22(c *Ctx) {
	dir := filepath.Join(c.Scratch, "imgs")
	sizes := [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}}
	shapes := [][]int{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {0, 2}, {2, 0}, {3, 1}, {1, 2, 3}, {3, 1, 0}, {2, 0, 1}}
	if c.Thorough {
		sizes = append(sizes, [2]int{3, 3}, [2]int{4, 3})
		shapes = append(shapes, []int{1, 1, 1}, []int{4, 1}, []int{0, 0, 2}, []int{2, 3, 1}, []int{1, 1, 2, 1})
	}
	c.Bound("folders", fmt.Sprintf("%d sizes, maxima 1, 7 and 255, class sizes %v, stray files, an empty or used output folder, %d layouts", len(sizes), shapes, len(imageLayouts)))
	for _, sz := range sizes {
		for _, max := range []int{1, 7, 255} {
			for _, sh := range shapes {
				for v := 0; v < 6; v++ {
					f := folder{w: sz[0], h: sz[1], max: max, stray: v%2 > 0, compiled: v / 2}
					id := 0
					for _, k := range sh {
						var imgs [][]int
						for i := 0; i < k; i++ {
							px := make([]int, f.w*f.h)
							for p := range px {
								px[p] = (id*id + (id+2)*p*5/2 + v + 1) % (max + 1)
							}
							id++
							imgs = append(imgs, px)
						}
						f.images = append(f.images, imgs)
					}
					c.Case(f.String, func() error {
						for li, lay := range imageLayouts {
							if v > 1 && li > 0 && !c.Thorough {
								break
							}
							if err := f.convert(c, dir, lay); err != nil {
								return fmt.Errorf("layout %s: %w", lay, err)
							}
						}
						return nil
					})
				}
			}
		}
	}
	c.Bound("larger folders", "up to 40 classes, 300 images in a class, images up to 300x5 and 6x270, maxima up to 65535, all layouts")
	for bi, g := range []struct {
		w, h, max int
		shape     []int
	}{{3, 2, 255, []int{12}}, {2, 5, 1, []int{11, 13, 1}}, {4, 3, 9, []int{40, 2}}, {7, 5, 255, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}},
		{12, 10, 1, []int{9, 0, 14}}, {40, 30, 255, []int{3, 5}}, {2, 2, 65535, []int{4, 3}}, {1, 1, 255, []int{20, 20, 20, 20}}, {3, 3, 1000, nil}, {10, 1, 1, nil}, {300, 5, 255, []int{2, 1}}, {6, 270, 1, []int{1, 2}}, {2, 2, 255, []int{300, 1}}} {
		g := g
		if g.shape == nil {
			for k := 0; k < 40; k++ {
				g.shape = append(g.shape, 1+k%3)
			}
		}
		for v := 0; v < 2; v++ {
			f := folder{w: g.w, h: g.h, max: g.max, stray: v > 0, compiled: 2 * v}
			id := 0
			for _, k := range g.shape {
				var imgs [][]int
				for i := 0; i < k; i++ {
					px := make([]int, f.w*f.h)
					for p := range px {
						px[p] = (id*17 + id*id + (p+id%5)*(p+3)/2*7) % (f.max + 1)
					}
					id++
					imgs = append(imgs, px)
				}
				f.images = append(f.images, imgs)
			}
			for _, lay := range imageLayouts {
				if !c.Mine() {
					c.Skip()
					continue
				}
				c.Case(func() string { return fmt.Sprintf("folder %d, layout %s: %v", bi, lay, f) }, func() error { return f.convert(c, dir, lay) })
			}
		}
	}
	// Every content of two small images in two classes.
	for _, sz := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}} {
		enumTuples(2*sz[0]*sz[1], 2, func(t []int) {
			n := sz[0] * sz[1]
			px := append([]int(nil), t...)
			f := folder{w: sz[0], h: sz[1], max: 1, images: [][][]int{{px[:n:n]}, {px[n:]}}}
			c.Case(f.String, func() error { return f.convert(c, dir, "rows") })
		})
	}
	// What the writers write converts back.
	for _, sz := range sizes {
		for _, max := range []int{1, 7, 255} {
			c.Case(func() string { return fmt.Sprintf("written images of %v up to %d convert back", sz, max) }, func() error {
				f := folder{w: sz[0], h: sz[1], max: max}
				for k := 0; k < 2; k++ {
					px := make([]int, f.w*f.h)
					for p := range px {
						px[p] = (k*3 + p*5 + 1) % (max + 1)
					}
					f.images = append(f.images, [][]int{px})
				}
				for b := 0; b < 2; b++ {
					if b == 1 && max > 1 {
						break
					}
					os.RemoveAll(dir)
					for k, imgs := range f.images {
						sub := filepath.Join(dir, fmt.Sprint("c", k))
						os.MkdirAll(sub, 0o755)
						st := spn.VarSet{}
						for i, x := range imgs[0] {
							st[i] = x
						}
						if b == 0 {
							io.VarSetToPGM(filepath.Join(sub, "a"), st, f.w, f.h, max)
						} else {
							io.VarSetToPBM(filepath.Join(sub, "a"), st, f.w, f.h)
						}
					}
					run := []func(string, string){
						func(a, b string) { io.PGMFToData(a, b) },
						func(a, b string) { io.BufferedPGMFToData(a, b) },
						func(a, b string) { io.PGMFToEvidence(a, b) },
						io.PBMFToData, nil, io.PBMFToEvidence}[b*3 : b*3+3]
					for i, g := range run {
						if g == nil {
							continue
						}
						g(dir, "out.data")
						c.Trans(1)
						c.Trace(1)
						j := f.judgeTable
						if i == 2 {
							j = f.judgeEvidence
						}
						if err := j(filepath.Join(dir, "compiled", "out.data")); err != nil {
							return err
						}
					}
				}
				c.State(1)
				return nil
			})
		}
	}
	// Lines longer than any buffer.
	c.Case(func() string { return "images with one line of 120 KB" }, func() error {
		f := folder{w: 300, h: 100, max: 255}
		for k := 0; k < 2; k++ {
			px := make([]int, f.w*f.h)
			for p := range px {
				px[p] = 100 + (p+k)%156
			}
			f.images = append(f.images, [][]int{px})
		}
		return f.convert(c, dir, "line")
	})
	// Single folders of bitmaps.
	for n := 1; n <= 3; n++ {
		for class := 0; class <= 2; class++ {
			c.Case(func() string { return fmt.Sprintf("PBMToData, %d images, class %d", n, class) }, func() error {
				f := folder{w: 3, h: 2, max: 1, images: make([][][]int, 1)}
				for i := 0; i < n; i++ {
					f.images[0] = append(f.images[0], []int{1, i & 1, 0, i >> 1 & 1, 1, 1})
				}
				f.plant(dir, "rows", true)
				out := filepath.Join(c.Scratch, "one.data")
				io.PBMToData(filepath.Join(dir, "class_3"), out, class)
				r, err := readRaw(out)
				if err != nil {
					return err
				}
				var got, want []string
				for _, x := range r.rows {
					got = append(got, fmt.Sprint(x))
				}
				for _, x := range f.images[0] {
					y := append([]int(nil), x...)
					if class > 0 {
						y = append(y, class)
					}
					want = append(want, fmt.Sprint(y))
				}
				sort.Strings(got)
				sort.Strings(want)
				c.Trans(1)
				c.Trace(1)
				c.State(1)
				if len(r.cats) != 6 || fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("variables %v, rows %v, want %v", r.cats, got, want)
				}
				return nil
			})
		}
	}
	// The concurrent converter under every schedule.
	bound := 2
	if c.Thorough {
		bound = 3
	}
	c.Bound("concurrent conversion", fmt.Sprintf("2..4 files with up to %d preemptions; four more files than processors with up to %d delays", bound, bound-1))
	mk := func(sh ...int) folder {
		f := folder{w: 2, h: 1, max: 7}
		id := 0
		for _, k := range sh {
			var imgs [][]int
			for i := 0; i < k; i++ {
				imgs = append(imgs, []int{id % 8, (id*3 + 1) % 8})
				id++
			}
			f.images = append(f.images, imgs)
		}
		return f
	}
	prog := func(f folder) func() (func(), func() error) {
		return func() (func(), func() error) {
			f.plant(dir, "rows", false)
			var w, h, max int
			return func() { w, h, max = io.BufferedPGMFToData(dir, "out.data") }, func() error {
				if w != f.w || h != f.h || max != f.max {
					return fmt.Errorf("returned %d, %d, %d", w, h, max)
				}
				return f.judgeTable(filepath.Join(dir, "compiled", "out.data"))
			}
		}
	}
	for _, sh := range [][]int{{2}, {1, 1}, {2, 1}, {1, 2}, {2, 2}} {
		f := mk(sh...)
		n := 0
		for _, x := range sh {
			n += x
		}
		b := bound
		if n == 4 {
			b--
		}
		c.schedules(driver{fmt.Sprintf("concurrent conversion of classes of %v images", sh), b, 8 * (n - 1), prog(f)})
	}
	np := runtime.NumCPU()
	many := mk(2, np+2)
	c.schedules(driver{fmt.Sprintf("concurrent conversion of %d images", np+4), 1 - bound, 32, prog(many)})
}

// ---------------------------------------------------------------- C27

// netpbm is a plain image file taken apart.
type netpbm struct {
	kind      string
	w, h, max int
	px        []int // samples
}

func readNetpbm(file string) (m netpbm, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return m, err
	}
	t := string(b)
	w := strings.Fields(t)
	if len(w) < 3 {
		return m, fmt.Errorf("file %q", t)
	}
	m.kind = w[0]
	num := func(s string) int {
		x, e := strconv.Atoi(s)
		if e != nil {
			err = fmt.Errorf("token %q in %q", s, t)
		}
		return x
	}
	m.w, m.h = num(w[1]), num(w[2])
	k := 3
	per := 1
	switch m.kind {
	case "P1":
		m.max = 1
		// Samples need no space between them.
		w = append(w[:3:3], strings.Split(strings.Join(w[3:], ""), "")...)
	case "P2", "P3":
		if len(w) < 4 {
			return m, fmt.Errorf("file %q", t)
		}
		m.max = num(w[3])
		k = 4
		if m.kind == "P3" {
			per = 3
		}
	default:
		return m, fmt.Errorf("magic number %q before plain text", m.kind)
	}
	for _, s := range w[k:] {
		if s == "" {
			continue
		}
		x := num(s)
		if x < 0 || x > m.max {
			return m, fmt.Errorf("sample %d, maximum %d, in %q", x, m.max, t)
		}
		m.px = append(m.px, x)
	}
	if err == nil && len(m.px) != m.w*m.h*per {
		err = fmt.Errorf("%d samples in a %s file of %dx%d: %q", len(m.px), m.kind, m.w, m.h, t)
	}
	return m, err
}

// split checks where the dividing line is and returns the samples without it.
func (m netpbm) undivided(typ io.CmplType, w, h int) ([][3]int, error) {
	across := typ == io.Top || typ == io.Bottom
	if across && (m.w != w || m.h != h+1) || !across && (m.w != w+1 || m.h != h) {
		return nil, fmt.Errorf("%dx%d image of the %s completion of a %dx%d image", m.w, m.h, typ, w, h)
	}
	at := func(x, y int) [3]int { i := 3 * (x + y*m.w); return [3]int{m.px[i], m.px[i+1], m.px[i+2]} }
	n := m.w
	if across {
		n = m.h
	}
	for line := (n - 1) / 2; line <= n/2; line++ {
		ok := true
		var rest [][3]int
		for y := 0; y < m.h; y++ {
			for x := 0; x < m.w; x++ {
				p := at(x, y)
				if across && y == line || !across && x == line {
					ok = ok && p[0] == m.max && p[1] == 0 && p[2] == 0
				} else {
					rest = append(rest, p)
				}
			}
		}
		if ok {
			return rest, nil
		}
	}
	return nil, fmt.Errorf("no dividing line in the middle: %v", m)
}

func checkC27(c *Ctx) {
	side := 5
	cells := 12
	if c.Thorough {
		side, cells = 7, 16
	}
	c.Bound("halves", fmt.Sprintf("all sizes up to %dx%d, 256x256, 300x2, 1x257, 261x271 and four halves", 5*side, 5*side))
	c.Bound("larger images", "sizes between 1x16 and 260x270 with maxima up to 65535; each half and five patterns known")
	c.Bound("writers", fmt.Sprintf("all sizes up to %dx%d, all sets of known pixels of images of up to %d pixels, maxima 1, 2, 7, 255", side, side, cells))
	types := []io.CmplType{io.Top, io.Bottom, io.Left, io.Right}
	var halves [][2]int
	for w := 1; w <= 5*side; w++ {
		for h := 1; h <= 5*side; h++ {
			halves = append(halves, [2]int{w, h})
		}
	}
	halves = append(halves, [2]int{256, 256}, [2]int{300, 2}, [2]int{1, 257}, [2]int{261, 271})
	for _, wh := range halves {
		for _, w := range wh[:1] {
			h := wh[1]
			c.Case(func() string { return fmt.Sprintf("halves of %dx%d", w, h) }, func() error {
				for _, t := range types {
					O := spn.VarSet{}
					for i := 0; i < w*h; i++ {
						O[i] = i*3 + 1
					}
					P, Q := io.SplitHalf(O, t, w, h)
					c.Trans(1)
					c.Trace(1)
					c.State(1)
					if len(O) != w*h {
						return fmt.Errorf("%s: the image changed", t)
					}
					if len(P)+len(Q) != w*h {
						return fmt.Errorf("%s: parts of %d and %d pixels", t, len(P), len(Q))
					}
					for i := 0; i < w*h; i++ {
						x, y := i%w, i/w
						p, inP := P[i]
						q, inQ := Q[i]
						if inP == inQ || inP && p != O[i] || inQ && q != O[i] {
							return fmt.Errorf("%s: pixel %d is %d %v and %d %v", t, i, p, inP, q, inQ)
						}
						// A middle row or column of an odd side may go either way.
						var must, may bool
						switch t {
						case io.Top:
							must, may = y < h/2, y < (h+1)/2
						case io.Bottom:
							must, may = y >= (h+1)/2, y >= h/2
						case io.Left:
							must, may = x < w/2, x < (w+1)/2
						case io.Right:
							must, may = x >= (w+1)/2, x >= w/2
						}
						if must && !inP || !may && inP {
							return fmt.Errorf("%s: pixel (%d,%d) of %dx%d in the half: %v", t, x, y, w, h, inP)
						}
					}
				}
				return nil
			})
		}
	}
	f := filepath.Join(c.Scratch, "img")
	for w := 1; w <= side; w++ {
		for h := 1; h <= side; h++ {
			for _, max := range []int{1, 2, 7, 255} {
				c.Case(func() string { return fmt.Sprintf("writers, %dx%d up to %d", w, h, max) }, func() error { return c.c27write(f, w, h, max) })
				if w*h <= cells {
					c.Case(func() string { return fmt.Sprintf("completions, %dx%d up to %d", w, h, max) }, func() error { return c.c27cmpl(f, w, h, max) })
				}
			}
		}
	}
	for _, z := range [][2]int{{1, 16}, {13, 1}, {6, 7}, {9, 9}, {16, 12}, {46, 56}, {100, 28}, {8, 300}, {300, 3}, {260, 270}} {
		for _, max := range []int{1, 2, 9, 255, 256, 1000, 65535} {
			w, h := z[0], z[1]
			c.Case(func() string { return fmt.Sprintf("writers, %dx%d up to %d", w, h, max) }, func() error { return c.c27write(f, w, h, max) })
			c.Case(func() string { return fmt.Sprintf("completions, %dx%d up to %d", w, h, max) }, func() error {
				for k := 0; k < 9; k++ {
					if err := c.c27one(f, w, h, max, k, func(i int) bool {
						x, y := i%w, i/w
						return []bool{true, false, x < w/2, x >= w/2, y < h/2, y >= h/2, i%2 == 0, i%10 == 9, i == w*h-1}[k]
					}); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// Colours.
	for h := 0; h <= 360; h += 5 {
		c.Case(func() string { return fmt.Sprintf("colours of hue %d", h) }, func() error {
			for s := 0.0; s <= 1; s += 0.25 {
				for _, minB := range []float64{0, 0.25, 0.5} {
					for p := 0; p <= 4; p++ {
						v := (1-minB)*float64(p)/4 + minB
						var r, g, b int
						if _, err := fmt.Sscan(common.RandColorScale(float64(p), 4, float64(h), s, minB).String(), &r, &g, &b); err != nil {
							return err
						}
						want := hsv(float64(h), s, v)
						for i, x := range [3]int{r, g, b} {
							if d := float64(x) - 255*want[i]; d > 1.001 || d < -1.001 {
								return fmt.Errorf("hue %d saturation %v value %v is %d %d %d, want %v", h, s, v, r, g, b, want)
							}
						}
						c.Trans(1)
						c.State(1)
					}
				}
			}
			c.Trace(1)
			return nil
		})
	}
}

// hsv converts by the definition: each channel is v - v*s*max(0, min(k, 4-k, 1)), k = n + h/60 mod 6.
func hsv(h, s, v float64) (r [3]float64) {
	for i, n := range []float64{5, 3, 1} {
		k := n + h/60
		for k >= 6 {
			k -= 6
		}
		r[i] = v - v*s*max(0, min(k, 4-k, 1))
	}
	return
}

func (c *Ctx) c27write(f string, w, h, mx int) error {
	n := w * h
	one := func(px []int) error {
		st := spn.VarSet{}
		for i, x := range px {
			st[i] = x
		}
		type wr struct {
			kind string
			run  func()
			max  int
		}
		ws := []wr{{"P2", func() { io.VarSetToPGM(f, st, w, h, mx) }, mx}, {"P3", func() { io.VarSetToPPM(f, st, w, h, mx) }, mx}}
		if mx == 1 {
			ws = append(ws, wr{"P1", func() { io.VarSetToPBM(f, st, w, h) }, 1})
		}
		for _, x := range ws {
			os.WriteFile(f, []byte(strings.Repeat("7 ", 1000)), 0o644)
			x.run()
			m, err := readNetpbm(f)
			if err != nil {
				return err
			}
			c.Trans(1)
			c.Trace(1)
			c.State(1)
			if m.kind != x.kind || m.w != w || m.h != h || m.max != x.max {
				return fmt.Errorf("header %s %d %d %d, want %s %d %d %d", m.kind, m.w, m.h, m.max, x.kind, w, h, x.max)
			}
			per := len(m.px) / n
			for i, p := range px {
				for k := 0; k < per; k++ {
					if m.px[i*per+k] != p {
						return fmt.Errorf("%s: pixels %v of image %v", x.kind, m.px, px)
					}
				}
			}
		}
		return nil
	}
	var err error
	if n <= 4 && mx <= 2 {
		enumTuples(n, mx+1, func(t []int) {
			if err == nil {
				err = one(t)
			}
		})
		return err
	}
	for k := 0; k < 4; k++ {
		px := make([]int, n)
		for i := range px {
			px[i] = (i*(k+1)*7 + k*5) % (mx + 1)
		}
		if err := one(px); err != nil {
			return err
		}
	}
	return nil
}

func (c *Ctx) c27cmpl(f string, w, h, mx int) error {
	for set := 0; set < 1<<(w*h); set++ {
		if err := c.c27one(f, w, h, mx, set, func(i int) bool { return set>>i&1 > 0 }); err != nil {
			return err
		}
	}
	return nil
}

// c27one writes one completion in every direction.
func (c *Ctx) c27one(f string, w, h, mx, set int, isKnown func(int) bool) error {
	n := w * h
	for _, t := range []io.CmplType{io.Top, io.Bottom, io.Left, io.Right} {
		{
			orig, cmpl := spn.VarSet{}, spn.VarSet{}
			val := make([]int, n)
			for i := range val {
				val[i] = (i*3 + set%5 + 1) % (mx + 1)
				if isKnown(i) {
					orig[i] = val[i]
					if set%3 == 2 { // the completion has values for known pixels too
						cmpl[i] = (val[i] + 1) % (mx + 1)
					}
				} else {
					cmpl[i] = val[i]
				}
			}
			for bw := 0; bw < 2; bw++ {
				if bw == 1 && mx > 1 {
					break
				}
				if bw == 0 {
					io.ImgCmplToPGM(f, orig, cmpl, t, w, h, mx+1)
				} else {
					io.ImgCmplToPPM(f, orig, cmpl, t, w, h)
				}
				c.Trans(1)
				c.Trace(1)
				m, err := readNetpbm(f)
				if err != nil {
					return fmt.Errorf("%s, known %b: %w", t, set, err)
				}
				want := mx
				if bw == 1 {
					want = 255
				}
				if m.kind != "P3" || m.max != want {
					return fmt.Errorf("%s, known %b: header %s %d %d %d", t, set, m.kind, m.w, m.h, m.max)
				}
				px, err := m.undivided(t, w, h)
				if err != nil {
					return fmt.Errorf("%s, known %b: %w", t, set, err)
				}
				for i, p := range px {
					x := val[i]
					var q [3]int
					_, known := orig[i]
					switch {
					case bw == 0 && known:
						q = [3]int{x, x, x}
					case bw == 0:
						q = [3]int{0, x, 0}
					case x == 0:
						q = [3]int{255, 255, 255}
					case known:
						q = [3]int{0, 0, 255}
					default:
						q = [3]int{0, 255, 0}
					}
					if p != q {
						return fmt.Errorf("%s, known %b: pixel %d is %v, want %v", t, set, i, p, q)
					}
				}
			}
		}
	}
	c.State(4)
	return nil
}
