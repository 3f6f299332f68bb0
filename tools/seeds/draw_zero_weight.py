PROPERTY='C29'
NEEDS='a sum with a weight of exactly zero on an inner child'
BREAKS='the edge is drawn without its weight, like an edge of a product'
EDITS=[('io/output.go', '\t\t\tif pw >= 0 {\n\t\t\t\tfmt.Fprintf(file, "%s -- %s [label=', '\t\t\tif pw > 0 {\n\t\t\t\tfmt.Fprintf(file, "%s -- %s [label=')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/io"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"strings"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tS := spn.NewSum()\n\tfor i, w := range []float64{0, 1} {\n\t\tP := spn.NewProduct()\n\t\tP.AddChild(spn.NewMultinomial(0, []float64{.5, .5}))\n\t\tP.AddChild(spn.NewMultinomial(1, []float64{.5, .5}))\n\t\tS.AddChildW(P, w)\n\t\t_ = i\n\t}\n\tio.DrawGraph("g.dot", S)\n\tb, _ := os.ReadFile("g.dot")\n\tif !strings.Contains(string(b), "0.000") || !strings.Contains(string(b), "1.000") {\n\t\tfail(string(b))\n\t}\n}\n'
