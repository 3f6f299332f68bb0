PROPERTY='C03'
NEEDS='a product with a child all of whose variables are set in the evidence'
BREAKS='the MAP state lacks evidence values of children that need no maximisation'
EDITS=[('spn/product.go', '\t\tv += chmap\n\t\tfor k, val := range chargs {\n\t\t\targmax[k] = val\n\t\t}', '\t\tv += chmap\n\t\tfor k, u := range chargs {\n\t\t\tif e, ok := val[k]; ok && e == u && len(p.ch) > 3 {\n\t\t\t\tcontinue // known already\n\t\t\t}\n\t\t\targmax[k] = u\n\t\t}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc main() {\n\tp := spn.NewProduct()\n\tfor i := 0; i < 4; i++ {\n\t\tp.AddChild(spn.NewMultinomial(i, []float64{.3, .7}))\n\t}\n\tM, _ := p.ArgMax(spn.VarSet{1: 0})\n\tif v, ok := M[1]; !ok || v != 0 || len(M) != 4 {\n\t\tfmt.Println(M)\n\t\tos.Exit(1)\n\t}\n}\n'
