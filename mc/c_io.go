package main

import (
	bin "encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"

	"verif/mc/vrand"
)

func init() {
	register("C21", "a case is one data set written in one layout of one format and read by every reader of that format, one history of partitioned reads, or one sequence of operations on a binary reader", checkC21)
}

// layout is a way to write a data file.
type layout struct {
	sep, trail, eol string
	final           bool // newline after the last line
}

func (l layout) String() string {
	return fmt.Sprintf("separator %q, trailing %q, line end %q, final newline %v", l.sep, l.trail, l.eol, l.final)
}

func dataLayouts() []layout {
	var r []layout
	for _, sep := range []string{" ", ",", ", ", "\t", "  "} {
		for _, trail := range []string{"", " "} {
			for _, eol := range []string{"\n", "\r\n"} {
				for _, fin := range []bool{true, false} {
					r = append(r, layout{sep, trail, eol, fin})
				}
			}
		}
	}
	return r
}

// dataText writes variables (in the order given) and rows.
func dataText(head string, order, cats []int, rows [][]int, l layout) string {
	var b strings.Builder
	if head != "" {
		b.WriteString(head + l.eol)
	}
	for _, v := range order {
		fmt.Fprintf(&b, "var %d %d%s", v, cats[v], l.eol)
	}
	for i, r := range rows {
		for j, x := range r {
			if j > 0 {
				b.WriteString(l.sep)
			}
			fmt.Fprint(&b, x)
		}
		b.WriteString(l.trail)
		if i < len(rows)-1 || l.final {
			b.WriteString(l.eol)
		}
	}
	return b.String()
}

func scopeIs(sc map[int]*learn.Variable, cats []int, names []string) error {
	if len(sc) != len(cats) {
		return fmt.Errorf("%d variables, want %d", len(sc), len(cats))
	}
	for i, k := range cats {
		v := sc[i]
		if v == nil || v.Varid != i || v.Categories != k {
			return fmt.Errorf("variable %d is %+v, want %d categories", i, v, k)
		}
		if names != nil && v.Name != names[i] {
			return fmt.Errorf("variable %d is named %q, want %q", i, v.Name, names[i])
		}
	}
	return nil
}

func rowsAre(D []map[int]int, rows [][]int, width int) error {
	if len(D) != len(rows) {
		return fmt.Errorf("%d instances, want %d", len(D), len(rows))
	}
	for i, r := range rows {
		if len(D[i]) != width {
			return fmt.Errorf("instance %d is %v, want %v", i, fmtI(D[i]), r[:width])
		}
		for j := 0; j < width; j++ {
			if x, ok := D[i][j]; !ok || x != r[j] {
				return fmt.Errorf("instance %d is %v, want %v", i, fmtI(D[i]), r[:width])
			}
		}
	}
	return nil
}

// readData writes one data set and reads it with every reader of the format.
func (c *Ctx) readData(f string, order, cats []int, rows [][]int, l layout) error {
	text := dataText("", order, cats, rows, l)
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		return err
	}
	sc, D := io.ParseData(f)
	if err := scopeIs(sc, cats, nil); err != nil {
		return fmt.Errorf("ParseData: %w", err)
	}
	if err := rowsAre(D, rows, len(cats)); err != nil {
		return fmt.Errorf("ParseData: %w", err)
	}
	c.Trans(1)
	c.Trace(1)
	if n := len(cats) - 1; n > 0 {
		sc, D, L := io.ParseDataNL(f)
		if err := scopeIs(sc, cats[:n], nil); err != nil {
			return fmt.Errorf("ParseDataNL: %w", err)
		}
		if err := rowsAre(D, rows, n); err != nil {
			return fmt.Errorf("ParseDataNL: %w", err)
		}
		if len(L) != len(rows) {
			return fmt.Errorf("ParseDataNL: %d labels, want %d", len(L), len(rows))
		}
		for i, r := range rows {
			if L[i] != r[n] {
				return fmt.Errorf("ParseDataNL: labels %v for %v", L, rows)
			}
		}
		c.Trans(1)
		c.Trace(1)
	}
	if b, _ := os.ReadFile(f); string(b) != text {
		return fmt.Errorf("reading changed the file")
	}
	labels := [][]int{{0}, {0, 1}, {0, 12, 3}}[len(rows)%3]
	head := fmt.Sprintf("labels %d", len(labels))
	for _, x := range labels {
		head += fmt.Sprintf(" %d", x)
	}
	if err := os.WriteFile(f, []byte(dataText(head, order, cats, rows, l)), 0o644); err != nil {
		return err
	}
	sc, D, L := io.ParseEvidence(f)
	if err := scopeIs(sc, cats, nil); err != nil {
		return fmt.Errorf("ParseEvidence: %w", err)
	}
	if err := rowsAre(D, rows, len(cats)); err != nil {
		return fmt.Errorf("ParseEvidence: %w", err)
	}
	if !intsEq(L, labels) {
		return fmt.Errorf("ParseEvidence: labels %v, want %v", L, labels)
	}
	c.Trans(1)
	c.Trace(1)
	c.Outcome(fmt.Sprintf("%d rows of %d", len(rows), len(cats)))
	return nil
}

func checkC21(c *Ctx) {
	f := filepath.Join(c.Scratch, "in.data")
	lays := dataLayouts()
	catMenu := []int{2, 11, 256}
	maxRows := 2
	if c.Thorough {
		maxRows = 3
	}
	c.Bound("data file", fmt.Sprintf("1..3 variables of 2, 11 or 256 values, 1..%d rows over the extreme values, %d layouts, declarations in any order; up to 4 rows in the plain layout; lines up to 100 KB", maxRows, len(lays)))
	for nv := 1; nv <= 3; nv++ {
		orders := perms(nv)
		enumTuples(nv, len(catMenu), func(ct []int) {
			cats := make([]int, nv)
			for i, x := range ct {
				cats[i] = catMenu[x]
			}
			for n := 1; n <= 4; n++ {
				if n*nv > 6 {
					continue
				}
				enumTuples(n*nv, 2, func(t []int) {
					rows := make([][]int, n)
					for i := range rows {
						rows[i] = make([]int, nv)
						for j := range rows[i] {
							rows[i][j] = t[i*nv+j] * (cats[j] - 1)
						}
					}
					name := func() string { return fmt.Sprintf("categories %v rows %v", cats, rows) }
					c.Case(name, func() error {
						for li, l := range lays {
							if n > maxRows && li > 1 {
								break
							}
							for oi, o := range orders {
								if oi > 0 && li > 1 {
									break
								}
								if err := c.readData(f, o, cats, rows, l); err != nil {
									return fmt.Errorf("%v, declared %v: %w", l, o, err)
								}
								c.State(1)
							}
						}
						return nil
					})
				})
			}
		})
	}
	for _, nv := range []int{16000, 40000} {
		for pos := 0; pos < 3; pos++ {
			c.Case(func() string { return fmt.Sprintf("%d variables, row %d is the longest", nv, pos) }, func() error {
				cats, order := make([]int, nv), make([]int, nv)
				rows := make([][]int, 3)
				for i := range cats {
					cats[i], order[i] = 256, i
				}
				for i := range rows {
					rows[i] = make([]int, nv)
					for j := range rows[i] {
						rows[i][j] = j % 10
						if i == pos {
							rows[i][j] = 100 + j%156
						}
					}
				}
				c.State(1)
				return c.readData(f, order, cats, rows, lays[0])
			})
		}
	}
	c.Bound("larger data files", "4, 9, 12 and 30 variables, 7, 11, 40 and 150 rows of every pattern, all layouts, three orders of declaration; 300 rows of 300 variables, 70000 rows, 70000 values")
	for _, nv := range []int{4, 9, 12, 30} {
		for _, n := range []int{7, 11, 40, 150} {
			for pat := 0; pat < patterns; pat++ {
				c.Case(func() string { return fmt.Sprintf("%d variables, %d rows of pattern %d", nv, n, pat) }, func() error {
					rows := patternRows(pat, n, nv, 3)
					cats, order := make([]int, nv), make([]int, nv)
					for j := range cats {
						cats[j], order[j] = []int{3, 10, 12, 300}[j%4], j
						for i := range rows {
							rows[i][j] = rows[i][j] * (cats[j] - 1) / 2
						}
					}
					back := append([]int(nil), order...)
					for i := range back {
						back[i] = nv - 1 - i
					}
					for li, l := range lays {
						for oi, o := range [][]int{order, back, append(append([]int(nil), order[nv/3:]...), order[:nv/3]...)} {
							if oi > 0 && li%7 > 0 {
								continue
							}
							if err := c.readData(f, o, cats, rows, l); err != nil {
								return fmt.Errorf("%v, declared %v: %w", l, o, err)
							}
							c.State(1)
						}
					}
					return nil
				})
			}
		}
	}
	for _, size := range [][2]int{{2, 70000}, {300, 300}, {3, 300}} {
		nv, n := size[0], size[1]
		c.Case(func() string { return fmt.Sprintf("%d variables, %d rows", nv, n) }, func() error {
			rows := patternRows(5, n, nv, 3)
			cats, order := make([]int, nv), make([]int, nv)
			for j := range cats {
				cats[j], order[j] = []int{3, 300, 70000}[j%3], j
				for i := range rows {
					rows[i][j] = rows[i][j] * (cats[j] - 1) / 2
				}
			}
			c.State(1)
			return c.readData(f, order, cats, rows, lays[0])
		})
	}
	c.c21parts(f)
	c.c21arff()
	c.c21npy()
}

// judgeParts checks one partitioned read against the rows of the file, all distinct in variable 0.
func judgeParts(cats []int, rows [][]int, p float64, sc map[int]*learn.Variable, train, test []map[int]int, L []int) (string, error) {
	if err := scopeIs(sc, cats, nil); err != nil {
		return "", err
	}
	n, k := len(rows), len(cats)-1
	if len(train)+len(test) != n || len(L) != len(test) {
		return "", fmt.Errorf("%d training and %d test instances with %d labels, of %d", len(train), len(test), len(L), n)
	}
	if d := float64(len(test)) - (1-p)*float64(n); math.Abs(d) >= 1+1e-9 {
		return "", fmt.Errorf("%d of %d instances are for testing with p=%v", len(test), n, p)
	}
	seen := map[int]bool{}
	look := func(I map[int]int, label int, width int) error {
		i, ok := I[0]
		if !ok || i < 0 || i >= n || seen[i] {
			return fmt.Errorf("instance %v is not one of the file or twice there", fmtI(I))
		}
		seen[i] = true
		if len(I) != width {
			return fmt.Errorf("instance %v has %d variables, want %d", fmtI(I), len(I), width)
		}
		for j := 0; j < width; j++ {
			if I[j] != rows[i][j] {
				return fmt.Errorf("instance %v, want %v", fmtI(I), rows[i])
			}
		}
		if label != rows[i][k] {
			return fmt.Errorf("label %d for %v", label, rows[i])
		}
		return nil
	}
	key := ""
	for i, I := range test {
		if _, there := I[k]; there {
			return "", fmt.Errorf("test instance %v still has its label", fmtI(I))
		}
		if err := look(I, L[i], k); err != nil {
			return "", err
		}
		key += fmt.Sprint(I[0], " ")
	}
	for _, I := range train {
		if err := look(I, I[k], k+1); err != nil {
			return "", err
		}
	}
	return key, nil
}

func (c *Ctx) c21parts(f string) {
	ps := []float64{0.1, 0.25, 0.3, 1. / 3, 0.5, 0.7, 0.75, 0.8, 0.9}
	depth, maxN := 3, 5
	if c.Thorough {
		depth, maxN = 4, 6
	}
	c.Bound("partitioned reads", fmt.Sprintf("1..%d rows, 9 proportions, every outcome of the draws without a seed (up to %d draws), histories of up to %d reads over 4 seeds", maxN, maxN+2, depth))
	mk := func(n int) ([]int, [][]int) {
		cats := []int{n + 1, 2, 3}
		rows := make([][]int, n)
		for i := range rows {
			rows[i] = []int{i, i / 2 % 2, (i*2 + 1) % 3}
		}
		return cats, rows
	}
	for n := 1; n <= maxN; n++ {
		for _, p := range ps {
			cats, rows := mk(n)
			c.Case(func() string { return fmt.Sprintf("partitioned read without seed, %d rows, p=%v", n, p) }, func() error {
				os.WriteFile(f, []byte(dataText("", []int{0, 1, 2}, cats, rows, layout{" ", "", "\n", true})), 0o644)
				outs := map[string]bool{}
				runs, capped, err := exploreChoices(n+2, n+2, 200000, func(t *tape) error {
					old := vrand.Global
					vrand.Global = rand.New(&rndSource{t, intChoices(n)})
					defer func() { vrand.Global = old }()
					sc, tr, te, L := io.ParsePartitionedData(f, p, -1)
					k, err := judgeParts(cats, rows, p, sc, tr, te, L)
					outs[k] = true
					return err
				})
				if capped {
					c.Cap("choices")
				}
				c.State(len(outs))
				c.Trans(runs)
				c.Trace(runs)
				return err
			})
		}
	}
	c.Bound("larger partitioned reads", "9 to 500 rows with 9 proportions, seeds 0, 1, 7, 12345 and none with one stream")
	for _, n := range []int{9, 10, 12, 20, 33, 64, 100, 101, 500} {
		for _, p := range ps {
			cats, rows := mk(n)
			c.Case(func() string { return fmt.Sprintf("partitioned reads of %d rows, p=%v", n, p) }, func() error {
				os.WriteFile(f, []byte(dataText("", []int{0, 1, 2}, cats, rows, layout{" ", "", "\n", true})), 0o644)
				got := map[int64]string{}
				for _, s := range []int64{0, 1, -1, 7, 0, 12345, -1, 7, 1} {
					old := vrand.Global
					if s < 0 {
						vrand.Global = rand.New(rand.NewSource(int64(n)))
					}
					sc, tr, te, L := io.ParsePartitionedData(f, p, s)
					vrand.Global = old
					k, err := judgeParts(cats, rows, p, sc, tr, te, L)
					if err != nil {
						return fmt.Errorf("seed %d: %w", s, err)
					}
					if g, ok := got[s]; ok && s >= 0 && g != k {
						return fmt.Errorf("seed %d gives test instances %q and %q", s, g, k)
					}
					got[s] = k
					c.Trans(1)
				}
				c.State(1)
				c.Trace(1)
				return nil
			})
		}
	}
	seeds := []int64{-1, 0, 3, 1 << 40}
	for l := 1; l <= depth; l++ {
		enumTuples(l, len(seeds), func(h []int) {
			for _, p := range []float64{0.5, 0.75} {
				n := 6
				cats, rows := mk(n)
				hist := append([]int(nil), h...)
				c.Case(func() string { return fmt.Sprintf("seeds %v, p=%v", hist, p) }, func() error {
					os.WriteFile(f, []byte(dataText("", []int{0, 1, 2}, cats, rows, layout{" ", "", "\n", true})), 0o644)
					read := func(s int64) (string, error) {
						sc, tr, te, L := io.ParsePartitionedData(f, p, s)
						c.Trans(1)
						return judgeParts(cats, rows, p, sc, tr, te, L)
					}
					// What each seed gives when it is taken up.
					first := map[int64]string{}
					if _, err := read(77); err != nil {
						return err
					}
					for _, s := range seeds[1:] {
						k, err := read(s)
						if err != nil {
							return err
						}
						first[s] = k
					}
					if _, err := read(77); err != nil {
						return err
					}
					last := int64(77)
					for _, x := range hist {
						s := seeds[x]
						k, err := read(s)
						if err != nil {
							return err
						}
						if s >= 0 && s != last && k != first[s] {
							return fmt.Errorf("seed %d gives test instances %q here and %q before", s, k, first[s])
						}
						if s >= 0 {
							last = s
						}
						c.Outcome(k)
					}
					c.State(1)
					c.Trace(1)
					return nil
				})
			}
		})
	}
}

// ---------------------------------------------------------------- ARFF

func (c *Ctx) c21arff() {
	dir := filepath.Join(c.Scratch, "arff")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, "in.arff")
	type attr struct {
		decl string
		kind byte
		vals []string
		decs []string // declared names
	}
	menu := []attr{
		{"numeric", 'n', []string{"0", "1", "12"}, nil},
		{"NUMERIC", 'n', []string{"3", "0"}, nil},
		{"string", 's', []string{"b", "a", "true"}, nil},
		{"String", 's', []string{"7", "x"}, nil},
		{"string", 's', []string{"Up", "up", "UP"}, nil},
		{"{Up,up,uP}", 'c', []string{"up", "uP", "Up"}, []string{"Up", "up", "uP"}},
		{"{yes,no}", 'c', []string{"no", "yes"}, []string{"yes", "no"}},
		{"{ b, a , c }", 'c', []string{"c", "a"}, []string{"b", "a", "c"}},
		{"{p,q}", 'c', []string{"q", "extra", "more", "p"}, []string{"p", "q"}},
	}
	type style struct {
		upper, comments, blanks, final bool
		sep                            string
		indent, word, eol              string // white space before a line, between words, at the end of a line
	}
	var styles []style
	for b := 0; b < 16; b++ {
		for _, sep := range []string{",", ", "} {
			styles = append(styles, style{b&1 > 0, b&2 > 0, b&4 > 0, b&8 > 0, sep, "", " ", "\n"})
		}
	}
	for _, x := range [][4]string{{",", "", "\t", "\n"}, {",\t", "", " ", "\n"}, {",", "  ", "  ", "\n"}, {",", "\t", " ", " \n"}, {" , ", " ", "\t ", "\t\n"}, {",", "", " ", "\r\n"}, {", ", " ", " ", " \r\n"}} {
		styles = append(styles, style{false, true, true, true, x[0], x[1], x[2], x[3]}, style{true, false, true, false, x[0], x[1], x[2], x[3]})
	}
	maxRows := 2
	if c.Thorough {
		maxRows = 3
	}
	c.Bound("ARFF", fmt.Sprintf("1..2 attributes of %d declarations, 1..%d rows, %d styles (case, comments, blank lines, final newline, separator, spaces and tabs before, between and after words, line ends)", len(menu), maxRows, len(styles)))
	judge := func(as []attr, rows [][]string) error {
		n, na := len(rows), len(as)
		for _, st := range styles {
			kw := func(s string) string {
				if st.upper {
					return strings.ToUpper(s)
				}
				return s
			}
			var b strings.Builder
			extra := func() {
				if st.comments {
					b.WriteString(st.indent + "% a comment, with {marks} @data" + st.eol)
				}
				if st.blanks {
					b.WriteString(st.eol)
				}
			}
			extra()
			b.WriteString(st.indent + kw("@relation") + st.word + "Some_Name" + st.eol)
			extra()
			for j, a := range as {
				fmt.Fprintf(&b, "%s%s%sat%d%s%s%s", st.indent, kw("@attribute"), st.word, j, st.word, strings.ReplaceAll(a.decl, " ", st.word), st.eol)
				extra()
			}
			b.WriteString(st.indent + kw("@data") + st.eol)
			extra()
			for i, r := range rows {
				b.WriteString(st.indent + strings.Join(r, st.sep))
				if i < n-1 || st.final {
					b.WriteString(st.eol)
					extra()
				}
			}
			os.WriteFile(f, []byte(b.String()), 0o644)
			name, sc, D, labels := io.ParseArff(f)
			c.Trans(1)
			c.Trace(1)
			c.State(1)
			bad := func(s string, a ...any) error {
				return fmt.Errorf("style %+v: %s", st, fmt.Sprintf(s, a...))
			}
			if name != "Some_Name" {
				return bad("relation %q", name)
			}
			if len(D) != n || len(sc) != na {
				return bad("%d instances of %d variables, want %d of %d", len(D), len(sc), n, na)
			}
			for j, a := range as {
				v := sc[j]
				if v == nil || v.Varid != j || v.Name != fmt.Sprintf("at%d", j) {
					return bad("variable %d is %+v", j, v)
				}
				want := 0
				seen := map[string]bool{}
				for _, d := range a.decs {
					seen[d] = true
				}
				for i := range rows {
					x, ok := D[i][j]
					if !ok || len(D[i]) != na {
						return bad("instance %d is %v", i, fmtI(D[i]))
					}
					if a.kind == 'n' {
						var y int
						fmt.Sscan(rows[i][j], &y)
						if x != y {
							return bad("value %d for %s", x, rows[i][j])
						}
						want = max(want, y+1)
						continue
					}
					seen[rows[i][j]] = true
					y, ok := labels[j][rows[i][j]]
					if !ok || y != x {
						return bad("value %d for %q with labels %v", x, rows[i][j], labels[j])
					}
				}
				if a.kind != 'n' {
					want = len(seen)
					if len(labels[j]) != want {
						return bad("labels %v, want one for each of %v", labels[j], seen)
					}
					used := map[int]bool{}
					for s, x := range labels[j] {
						if !seen[s] || x < 0 || x >= want || used[x] {
							return bad("labels %v are not a numbering of %v", labels[j], seen)
						}
						used[x] = true
					}
				}
				if v.Categories != want {
					return bad("variable %d has %d categories, want %d", j, v.Categories, want)
				}
			}
		}
		return nil
	}
	for na := 1; na <= 2; na++ {
		enumTuples(na, len(menu), func(at []int) {
			as := make([]attr, na)
			for i, x := range at {
				as[i] = menu[x]
			}
			for n := 1; n <= maxRows; n++ {
				enumTuples(n*na, 4, func(t []int) {
					rows := make([][]string, n)
					for i := range rows {
						for j, a := range as {
							x := t[i*na+j]
							if x >= len(a.vals) {
								return
							}
							rows[i] = append(rows[i], a.vals[x])
						}
					}
					c.Case(func() string { return fmt.Sprintf("ARFF attributes %v rows %v", as, rows) }, func() error { return judge(as, rows) })
				})
			}
		})
	}
	c.Bound("larger ARFF files", "3, 7, 12 and 25 attributes, 5, 12 and 60 rows, with up to 60 different names in a column; 3 attributes with up to 1000 names in a column")
	for _, na := range []int{3, 7, 12, 25} {
		for _, n := range []int{5, 12, 60} {
			for pat := 0; pat < patterns; pat++ {
				M := patternRows(pat, n, na, 4)
				as := make([]attr, na)
				rows := make([][]string, n)
				for j := range as {
					as[j] = menu[(j*3+pat)%len(menu)]
				}
				for i := range rows {
					for j, a := range as {
						x := a.vals[M[i][j]%len(a.vals)]
						if a.kind == 'n' && M[i][j] == 1 {
							x = fmt.Sprint(i * 37)
						}
						if a.kind == 's' && j%2 == 0 {
							x += fmt.Sprint("_", i%15, "x")
						}
						rows[i] = append(rows[i], x)
					}
				}
				c.Case(func() string { return fmt.Sprintf("ARFF attributes %v rows %v", as, rows) }, func() error { return judge(as, rows) })
			}
		}
	}
	for _, k := range []int{70, 300, 1000} {
		c.Case(func() string { return fmt.Sprintf("ARFF with %d names in every column", k) }, func() error {
			var names []string
			for i := 0; i < k; i++ {
				names = append(names, fmt.Sprintf("n%d", (i*11+3)%k))
			}
			as := []attr{{decl: "STRING", kind: 's'}, {decl: "{" + strings.Join(names, ",") + "}", kind: 'c', vals: names, decs: names}, {decl: "numeric", kind: 'n'}}
			var rows [][]string
			for i := 0; i < k+9; i++ {
				rows = append(rows, []string{fmt.Sprintf("s%d", i*17%k), names[i*13%k], fmt.Sprint(i * 70)})
			}
			return judge(as, rows)
		})
	}
	// Conversion of nominal attributes to a data file.
	noms := [][]string{{"yes", "no"}, {"b", "a", "c"}, {"1", "0"}, {"x"}}
	for na := 1; na <= 3; na++ {
		enumTuples(na, len(noms), func(at []int) {
			for n := 1; n <= 2; n++ {
				enumTuples(n*na, 3, func(t []int) {
					rows := make([][]int, n)
					cats := make([]int, na)
					var b strings.Builder
					b.WriteString("@relation r\n\n")
					for j, x := range at {
						cats[j] = len(noms[x])
						fmt.Fprintf(&b, "@attribute a%d {%s}\n", j, strings.Join(noms[x], ","))
					}
					b.WriteString("\n@data\n")
					for i := range rows {
						var w []string
						for j, x := range at {
							v := t[i*na+j]
							if v >= len(noms[x]) {
								return
							}
							rows[i] = append(rows[i], v)
							w = append(w, noms[x][v])
						}
						b.WriteString(strings.Join(w, ",") + "\n")
					}
					c.Case(func() string { return fmt.Sprintf("ARFF to data, attributes %v rows %v", at, rows) }, func() error {
						os.WriteFile(f, []byte(b.String()), 0o644)
						out := filepath.Join(dir, "compiled", "out.data")
						os.MkdirAll(filepath.Join(dir, "compiled"), 0o755)
						os.WriteFile(out, []byte(strings.Repeat("stale\n", 100)), 0o644)
						io.ARFFToData(dir, "in.arff", "out.data")
						sc, D := io.ParseData(out)
						c.Trans(2)
						c.Trace(1)
						c.State(1)
						if err := scopeIs(sc, cats, nil); err != nil {
							return err
						}
						return rowsAre(D, rows, na)
					})
				})
			}
		})
	}
	c.Case(func() string { return "ARFF with lines of 100 KB" }, func() error {
		var b strings.Builder
		b.WriteString("@relation r\n")
		na := 25000
		rows := make([][]int, 3)
		for j := 0; j < na; j++ {
			fmt.Fprintf(&b, "@attribute a%d numeric\n", j)
		}
		b.WriteString("@data\n")
		for i := range rows {
			for j := 0; j < na; j++ {
				x := (i+j)%10 + 990
				rows[i] = append(rows[i], x)
				fmt.Fprintf(&b, "%d,", x)
			}
			b.WriteString("\n")
		}
		os.WriteFile(f, []byte(b.String()), 0o644)
		_, _, D, _ := io.ParseArff(f)
		c.Trans(1)
		c.Trace(1)
		c.State(1)
		return rowsAre(D, rows, na)
	})
}

// ---------------------------------------------------------------- NumPy

// npyText writes rows as a NumPy array file.
func npyText(descr string, major int, fortran bool, shape string, rows [][]int64, big bool, size int) []byte {
	hdr := fmt.Sprintf("{'descr': '%s', 'fortran_order': %s, 'shape': %s, }", descr, map[bool]string{true: "True", false: "False"}[fortran], shape)
	pre := 10
	if major == 2 {
		pre = 12
	}
	for (pre+len(hdr)+1)%16 != 0 {
		hdr += " "
	}
	hdr += "\n"
	b := append([]byte("\x93NUMPY"), byte(major), 0)
	if major == 2 {
		b = bin.LittleEndian.AppendUint32(b, uint32(len(hdr)))
	} else {
		b = bin.LittleEndian.AppendUint16(b, uint16(len(hdr)))
	}
	b = append(b, hdr...)
	put := func(x int64) {
		for k := 0; k < size; k++ {
			sh := 8 * k
			if big {
				sh = 8 * (size - 1 - k)
			}
			b = append(b, byte(uint64(x)>>sh))
		}
	}
	if fortran && len(rows) > 0 {
		for j := range rows[0] {
			for i := range rows {
				put(rows[i][j])
			}
		}
		return b
	}
	for _, r := range rows {
		for _, x := range r {
			put(x)
		}
	}
	return b
}

type npyOp struct{ kind, n, k int }

func (o npyOp) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("Read(%d)", o.n)
	case 1:
		return "ReadAll"
	case 2:
		return fmt.Sprintf("ReadBalanced(%d,%d)", o.n, o.k)
	}
	return "Reset"
}

func (c *Ctx) c21npy() {
	f := filepath.Join(c.Scratch, "in.npy")
	type ty struct {
		descr string
		size  int
		big   bool
		vals  []int64
	}
	u := func(bits int) []int64 { return []int64{0, 1<<(bits-1) + 1, 1<<bits - 1} }
	i := func(bits int) []int64 { return []int64{0, -(1 << (bits - 1)), 1<<(bits-1) - 1, -2} }
	types := []ty{
		{"|u1", 1, false, u(8)}, {"|i1", 1, false, i(8)},
		{"<u2", 2, false, u(16)}, {">u2", 2, true, u(16)}, {"<i2", 2, false, i(16)}, {">i2", 2, true, i(16)},
		{"<u4", 4, false, u(32)}, {">u4", 4, true, u(32)}, {"<i4", 4, false, i(32)}, {">i4", 4, true, i(32)},
		{"<u8", 8, false, u(62)}, {">u8", 8, true, u(62)}, {"<i8", 8, false, i(62)}, {">i8", 8, true, i(62)},
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Bound("NumPy", fmt.Sprintf("%d element types, versions 1 and 2, 1..3 rows of 1..3 columns over extreme values; every sequence of up to %d operations on arrays of up to 5 rows", len(types), depth))
	for _, t := range types {
		for major := 1; major <= 2; major++ {
			for n := 1; n <= 3; n++ {
				for w := 1; w <= 3; w++ {
					c.Case(func() string { return fmt.Sprintf("array of %s, version %d, %dx%d", t.descr, major, n, w) }, func() error {
						var err error
						cells := min(n*w, 6)
						enumTuples(cells, len(t.vals), func(v []int) {
							if err != nil {
								return
							}
							rows := make([][]int64, n)
							for i := range rows {
								rows[i] = make([]int64, w)
								for j := range rows[i] {
									rows[i][j] = t.vals[(v[(i*w+j)%cells]+(i*w+j)/cells)%len(t.vals)]
								}
							}
							os.WriteFile(f, npyText(t.descr, major, false, fmt.Sprintf("(%d, %d)", n, w), rows, t.big, t.size), 0o644)
							r, e := io.NewNpyReader(f)
							if e != nil {
								err = e
								return
							}
							defer r.Close()
							D, L, e := r.ReadAll()
							c.Trans(2)
							c.Trace(1)
							c.State(1)
							if e != nil {
								err = e
								return
							}
							err = npyRows(D, L, rows)
						})
						return err
					})
				}
			}
		}
	}
	for _, bad := range []struct{ descr, shape string }{{"<f4", "(2, 2)"}, {"<f8", "(2, 2)"}, {"<i4", "(4,)"}, {"<i4", "(2, 2, 1)"}, {"<i4", "()"}, {"<c8", "(2, 2)"}, {"|b1", "(2, 2)"}} {
		c.Case(func() string { return fmt.Sprintf("array of %s, shape %s", bad.descr, bad.shape) }, func() error {
			os.WriteFile(f, npyText(bad.descr, 1, false, bad.shape, [][]int64{{1, 2}, {3, 4}}, false, 4), 0o644)
			r, e := io.NewNpyReader(f)
			c.Trans(1)
			c.Trace(1)
			c.State(1)
			if e == nil {
				r.Close()
				return fmt.Errorf("accepted")
			}
			return nil
		})
	}
	c.Case(func() string { return "array in Fortran order" }, func() error {
		rows := [][]int64{{1, 2, 3}, {4, 5, 6}}
		os.WriteFile(f, npyText("<i4", 1, true, "(2, 3)", rows, false, 4), 0o644)
		r, e := io.NewNpyReader(f)
		if e != nil {
			return nil
		}
		defer r.Close()
		D, L, e := r.ReadAll()
		if e != nil {
			return nil
		}
		return npyRows(D, L, rows)
	})
	c.Bound("larger arrays", "10, 25 and 130 rows of 2, 11 and 50 columns of every type with up to 12 classes, every sequence of up to 2 of 9 operations; 70000 rows, 70000 columns, 300 classes with five sequences")
	bigOps := []npyOp{{0, 1, 0}, {0, 7, 0}, {0, 10, 0}, {0, 64, 0}, {1, 0, 0}, {3, 0, 0}, {2, 5, 5}, {2, 12, 12}, {2, 6, 4}}
	for _, t := range types {
		for _, n := range []int{10, 25, 130} {
			for _, w := range []int{2, 11, 50} {
				for _, k := range []int{2, 4, 5, 12} {
					rows := make([][]int64, n)
					for i := range rows {
						rows[i] = make([]int64, w)
						for j := range rows[i] {
							rows[i][j] = t.vals[(i*7+j*3)%len(t.vals)]
						}
						rows[i][w-1] = int64((i*5 + i/7) % k)
					}
					c.Case(func() string { return fmt.Sprintf("array of %s, %d rows of %d, %d classes", t.descr, n, w, k) }, func() error {
						os.WriteFile(f, npyText(t.descr, 1, false, fmt.Sprintf("(%d, %d)", n, w), rows, t.big, t.size), 0o644)
						var err error
						for l := 1; l <= 2; l++ {
							enumTuples(l, len(bigOps), func(seq []int) {
								s := make([]npyOp, l)
								for i, x := range seq {
									s[i] = bigOps[x]
								}
								if err != nil {
									return
								}
								r, e := io.NewNpyReader(f)
								if e != nil {
									err = e
									return
								}
								defer r.Close()
								if e := c.npySeq(r, rows, s); e != nil {
									err = fmt.Errorf("%v: %w", s, e)
								}
							})
						}
						return err
					})
				}
			}
		}
	}
	for _, size := range [][3]int{{70000, 3, 2}, {3, 70000, 2}, {700, 2, 300}, {300, 300, 7}} {
		for _, t := range []ty{types[2], types[9]} {
			n, w, k := size[0], size[1], size[2]
			c.Case(func() string { return fmt.Sprintf("array of %s, %d rows of %d, %d classes", t.descr, n, w, k) }, func() error {
				rows := make([][]int64, n)
				for i := range rows {
					rows[i] = make([]int64, w)
					for j := range rows[i] {
						rows[i][j] = t.vals[(i*7+j*3)%len(t.vals)]
					}
					rows[i][w-1] = int64((i*7 + i/k) % k)
				}
				os.WriteFile(f, npyText(t.descr, 1, false, fmt.Sprintf("(%d, %d)", n, w), rows, t.big, t.size), 0o644)
				for _, s := range [][]npyOp{{{1, 0, 0}, {3, 0, 0}, {1, 0, 0}}, {{0, 1, 0}, {1, 0, 0}}, {{0, min(n, 66000), 0}, {0, 1, 0}}, {{2, k, k}, {2, k, k}}, {{2, 2 * k, k}}} {
					r, e := io.NewNpyReader(f)
					if e != nil {
						return e
					}
					e = c.npySeq(r, rows, s)
					r.Close()
					if e != nil {
						return fmt.Errorf("%v: %w", s, e)
					}
				}
				return nil
			})
		}
	}
	// Files that end before the array does.
	c.Bound("truncated arrays", fmt.Sprintf("4 rows of 3 of each of %d element types, the file cut after every byte of the data, 7 operations", len(types)))
	for _, t := range types {
		rows := [][]int64{{1, 7, 1}, {2, 9, 0}, {3, 11, 1}, {4, 13, 0}}
		full := npyText(t.descr, 1, false, "(4, 3)", rows, t.big, t.size)
		data := 12 * t.size
		for cut := 0; cut <= data; cut++ {
			for _, o := range []npyOp{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {1, 0, 0}, {2, 1, 2}, {2, 2, 2}, {2, 4, 2}} {
				c.Case(func() string {
					return fmt.Sprintf("array of %s, only %d of its %d bytes of data there: %v", t.descr, cut, data, o)
				}, func() error {
					os.WriteFile(f, full[:len(full)-data+cut], 0o644)
					r, e := io.NewNpyReader(f)
					c.Trans(2)
					c.Trace(1)
					c.State(1)
					if e != nil {
						if cut == data {
							return e
						}
						return nil
					}
					defer r.Close()
					there := cut / (3 * t.size)
					if cut == data {
						return c.npySeq(r, rows, []npyOp{o})
					}
					if o.kind == 1 { // needs rows that are not there
						D, L, e := r.ReadAll()
						if e == nil {
							return fmt.Errorf("no error: %v %v", D, L)
						}
						return nil
					}
					return c.npySeq(r, rows[:there], []npyOp{o})
				})
			}
		}
	}
	// Histories.
	var ops []npyOp
	for n := 0; n <= 3; n++ {
		ops = append(ops, npyOp{0, n, 0})
	}
	ops = append(ops, npyOp{1, 0, 0}, npyOp{3, 0, 0})
	for n := 1; n <= 3; n++ {
		ops = append(ops, npyOp{2, n, 2})
	}
	ops = append(ops, npyOp{2, 3, 3}, npyOp{2, 1, 1})
	for _, t := range []ty{types[0], types[2], types[6], types[10], types[1], types[4], types[8], types[12]} {
		for _, labels := range [][]int64{{0}, {1, 0}, {0, 0, 1}, {1, 1, 0, 1, 0}, {0, 0, 0, 0, 0}, {0, 1, 1, 0}} {
			rows := make([][]int64, len(labels))
			for i := range rows {
				rows[i] = []int64{int64(i + 1), int64(2*i + 7), labels[i]}
			}
			for l := 1; l <= depth; l++ {
				enumTuples(l, len(ops), func(seq []int) {
					s := make([]npyOp, l)
					for i, x := range seq {
						s[i] = ops[x]
					}
					c.Case(func() string { return fmt.Sprintf("array of %s, labels %v: %v", t.descr, labels, s) }, func() error {
						os.WriteFile(f, npyText(t.descr, 1, false, fmt.Sprintf("(%d, 3)", len(rows)), rows, t.big, t.size), 0o644)
						r, e := io.NewNpyReader(f)
						if e != nil {
							return e
						}
						defer r.Close()
						return c.npySeq(r, rows, s)
					})
				})
			}
		}
	}
}

func npyRows(D []map[int]int, L []int, rows [][]int64) error {
	if len(D) != len(rows) || len(L) != len(rows) {
		return fmt.Errorf("%d instances and %d labels, want %d", len(D), len(L), len(rows))
	}
	for i, r := range rows {
		w := len(r) - 1
		if len(D[i]) != w || L[i] != int(r[w]) {
			return fmt.Errorf("instance %d is %v with label %d, want %v", i, fmtI(D[i]), L[i], r)
		}
		for j := 0; j < w; j++ {
			if x, ok := D[i][j]; !ok || x != int(r[j]) {
				return fmt.Errorf("instance %d is %v, want %v", i, fmtI(D[i]), r)
			}
		}
	}
	return nil
}

// balanced selects rows from at on, in order, as far as the quotas go.
func balanced(rows [][]int64, at int, quota []int) (sel [][]int64, end int, ok bool) {
	q := append([]int(nil), quota...)
	need := 0
	for _, x := range q {
		need += x
	}
	for need > 0 {
		if at >= len(rows) {
			return nil, at, false
		}
		l := rows[at][len(rows[at])-1]
		if q[l] > 0 {
			q[l]--
			need--
			sel = append(sel, rows[at])
		}
		at++
	}
	return sel, at, true
}

func (c *Ctx) npySeq(r *io.NpyReader, rows [][]int64, seq []npyOp) error {
	at := 0
	lost := false // position unknown after an error
	for i, o := range seq {
		c.Trans(1)
		if lost && o.kind != 3 {
			return nil
		}
		if o.kind == 2 {
			for _, x := range rows {
				if int(x[len(x)-1]) >= o.k {
					return nil
				}
			}
		}
		fail := func(f string, a ...any) error { return fmt.Errorf("operation %d: %s", i, fmt.Sprintf(f, a...)) }
		switch o.kind {
		case 3:
			if err := r.Reset(); err != nil {
				return fail("%v", err)
			}
			at, lost = 0, false
		case 0, 1:
			n := o.n
			var D []map[int]int
			var L []int
			var e error
			if o.kind == 1 {
				n = len(rows) - at
				D, L, e = r.ReadAll()
			} else {
				D, L, e = r.Read(n)
			}
			if at+n > len(rows) {
				if e == nil {
					return fail("%d instances read with %d left: %v", len(D), len(rows)-at, D)
				}
				lost = true
				continue
			}
			if e != nil {
				return fail("%v", e)
			}
			if err := npyRows(D, L, rows[at:at+n]); err != nil {
				return fail("%v", err)
			}
			at += n
		case 2:
			D, L, e := r.ReadBalanced(o.n, o.k)
			matched, short := false, false
			var lastErr error
			// Any way to hand out the remainder is balanced.
			ways := 1
			if o.n%o.k != 0 {
				ways = 1 << o.k
			}
			for m := 0; m < ways && !matched; m++ {
				quota := make([]int, o.k)
				sum := 0
				for j := range quota {
					quota[j] = o.n/o.k + m>>j&1
					sum += quota[j]
				}
				if sum != o.n {
					continue
				}
				sel, end, ok := balanced(rows, at, quota)
				if !ok {
					short = true
					continue
				}
				if e == nil {
					if lastErr = npyRows(D, L, sel); lastErr == nil {
						matched, at = true, end
					}
				}
			}
			if e != nil {
				if !short {
					return fail("%v", e)
				}
				lost = true
				continue
			}
			if !matched {
				return fail("labels %v: not the first balanced instances from %d on (%v)", L, at, lastErr)
			}
		}
	}
	c.Trace(1)
	c.State(1)
	c.Outcome(fmt.Sprint(at))
	return nil
}

var _ = sort.Ints
