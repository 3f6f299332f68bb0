PROPERTY='C07'
NEEDS='a product that has the same node as a child twice'
BREAKS='factors equal to the child are left out of its derivative'
EDITS=[('learn/derive.go', '\t\t\tfor i, cs := range ch {\n\t\t\t\tv, e := table.Single(cs)\n\t\t\t\tt := pv\n\t\t\t\tfor j := range ch {\n\t\t\t\t\tif j != i {', '\t\t\tfor _, cs := range ch {\n\t\t\t\tv, e := table.Single(cs)\n\t\t\t\tt := pv\n\t\t\t\tfor j := range ch {\n\t\t\t\t\tif ch[j] != cs {')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"github.com/RenatoGeh/gospn/learn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\t// x squared: a product with the same child twice; the derivative is 2x.\n\tl := spn.NewMultinomial(0, []float64{0.25, 0.75})\n\tp := spn.NewProduct()\n\tp.AddChild(l)\n\tp.AddChild(l)\n\tst := spn.NewStorer()\n\titk := st.NewTicket()\n\tspn.StoreInference(p, spn.VarSet{0: 0}, itk, st)\n\t_, d := learn.DeriveSPN(p, st, -1, itk, nil)\n\tv, _ := st.Single(d, l)\n\tif math.Abs(v-math.Log(.5)) > 1e-9 {\n\t\tfail(math.Exp(v))\n\t}\n}\n'
