PROPERTY='C06'
NEEDS='a product that has the same node as a child twice'
BREAKS='decomposability counts each distinct child once'
EDITS=[('spn/utils.go', '\t\t\tn := len(sc)\n\t\t\tfor _, c := range ch {\n\t\t\t\tcsc := c.rawSc()', '\t\t\tn := len(sc)\n\t\t\tvar last SPN\n\t\t\tfor _, c := range ch {\n\t\t\t\tif c == last {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tlast = c\n\t\t\t\tcsc := c.rawSc()')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tp := spn.NewProduct()\n\ts := spn.NewSum()\n\ts.AddChildW(spn.NewIndicator(0, 0), 1)\n\tp.AddChild(s)\n\tp.AddChild(s)\n\tif spn.Decomposable(p) {\n\t\tfail("a product with the same child twice is decomposable")\n\t}\n}\n'
