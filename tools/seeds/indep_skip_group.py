PROPERTY='C16'
NEEDS='four variables, where the last is dependent on the first only'
BREAKS='the search for dependencies of a variable stops after three were found'
EDITS=[('utils/indep/indgraph.go', '\t\t\t\tigraph.adjlist[v2] = append(igraph.adjlist[v2], v1)\n\t\t\t\tutils.Union(sets[i], sets[j])\n', '\t\t\t\tigraph.adjlist[v2] = append(igraph.adjlist[v2], v1)\n\t\t\t\tutils.Union(sets[i], sets[j])\n\t\t\t\tif len(igraph.adjlist[v1]) > 2 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/utils"\n\t"github.com/RenatoGeh/gospn/utils/indep"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\t// x0 has eight values; x1, x2 and x3 are its binary digits, independent of each other.\n\tmk := func(v, c int, f func(i int) int) *utils.VarData {\n\t\td := make([]int, 160)\n\t\tfor i := range d {\n\t\t\td[i] = f(i)\n\t\t}\n\t\treturn utils.NewVarData(v, c, d)\n\t}\n\tX := []*utils.VarData{mk(0, 16, func(i int) int { return i % 16 })}\n\tfor b := 0; b < 4; b++ {\n\t\tb := b\n\t\tX = append(X, mk(b+1, 2, func(i int) int { return i % 16 >> uint(b) & 1 }))\n\t}\n\tif k := indep.NewUFIndepGraph(X, .05).Kset; len(k) != 1 {\n\t\tfail(k)\n\t}\n}\n'
