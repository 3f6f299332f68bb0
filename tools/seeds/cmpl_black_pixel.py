PROPERTY='C27'
NEEDS='a kept pixel whose value is zero'
BREAKS="black pixels of the kept half are drawn as completed ones, with the completion's value if there is one"
EDITS=[('io/pgm.go', '\t\t} else if v, eo := orig[j]; eo {\n', '\t\t} else if v := orig[j]; v > 0 {\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/io"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tvar w []string\n\tfor _, x := range []int{0, 3} {\n\t\tio.ImgCmplToPGM("a.pgm", spn.VarSet{0: x, 1: 2}, spn.VarSet{0: 1, 2: 1, 3: 2}, io.Bottom, 2, 2, 4)\n\t\tb, _ := os.ReadFile("a.pgm")\n\t\tw = append(w, string(b))\n\t}\n\tvar k string\n\tvar a, bb, c, m, r, g, b int\n\tfmt.Sscan(w[0], &k, &a, &bb, &c, &r, &g, &b)\n\tif r != 0 || g != 0 || b != 0 {\n\t\tfail(w[0])\n\t}\n\tfmt.Sscan(w[1], &k, &a, &bb, &m, &r, &g, &b)\n\tif r != 3 || g != 3 || b != 3 {\n\t\tfail(w[1])\n\t}\n}\n'
