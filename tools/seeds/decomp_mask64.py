PROPERTY='C06'
NEEDS='a product whose children share a variable numbered 64 or more'
BREAKS='the overlap is kept in a 64-bit mask, so that such products are called decomposable'
EDITS=[('spn/utils.go', '\t\t\tsc := s.rawSc()\n\t\t\tv := make(map[int]int)\n\t\t\tfor _, u := range sc {\n\t\t\t\tv[u]++\n\t\t\t}\n\t\t\tn := len(sc)\n\t\t\tfor _, c := range ch {\n\t\t\t\tcsc := c.rawSc()\n\t\t\t\t// Invariant: ComputeScope guarantees that there will be no duplicates.\n\t\t\t\tfor _, u := range csc {\n\t\t\t\t\t_, e := v[u]\n\t\t\t\t\tif !e {\n\t\t\t\t\t\treturn false\n\t\t\t\t\t}\n\t\t\t\t\tv[u]++\n\t\t\t\t}\n\t\t\t\tn -= len(csc)\n\t\t\t}\n\t\t\tfor _, u := range v {\n\t\t\t\tif u != 2 {\n\t\t\t\t\treturn false\n\t\t\t\t}\n\t\t\t}\n\t\t\tif n != 0 {\n\t\t\t\treturn false\n\t\t\t}\n', '\t\t\t// Variables seen so far.\n\t\t\tvar seen uint64\n\t\t\tfor _, c := range ch {\n\t\t\t\tfor _, u := range c.rawSc() {\n\t\t\t\t\tb := uint64(1) << uint(u)\n\t\t\t\t\tif seen&b != 0 {\n\t\t\t\t\t\treturn false\n\t\t\t\t\t}\n\t\t\t\t\tseen |= b\n\t\t\t\t}\n\t\t\t}\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tfor v := 0; v < 200; v++ {\n\t\tP := spn.NewProduct()\n\t\tP.AddChild(spn.NewIndicator(v, 0))\n\t\tP.AddChild(spn.NewIndicator(v+1, 0))\n\t\tS := spn.NewSum()\n\t\tS.AddChildW(spn.NewIndicator(v, 0), .5)\n\t\tS.AddChildW(spn.NewIndicator(v, 1), .5)\n\t\tif !spn.Decomposable(P) {\n\t\t\tfail("decomposable product of", v, "is not called so")\n\t\t}\n\t\tP.AddChild(S)\n\t\tif spn.Decomposable(P) {\n\t\t\tfail("product with", v, "twice is called decomposable")\n\t\t}\n\t}\n}\n'
