PROPERTY='C15'
NEEDS='joining data sets of different sizes with labels'
BREAKS='labels of the second data set are shifted when it is longer than the first'
EDITS=[('data/manipulate.go', '\t\tif c {\n\t\t\tP[i] = M[i-n]\n\t\t}', '\t\tif c {\n\t\t\tP[i] = M[(i-n)%max(n, 1)]\n\t\t}'), ('data/manipulate.go', 'func copySlice(', 'func max(a, b int) int {\n\tif a > b {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc copySlice(')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/data"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\t_, P := data.Join([]map[int]int{{0: 0}}, []map[int]int{{0: 1}, {0: 2}}, []int{0}, []int{1, 2})\n\tif P[2] != 2 {\n\t\tfail(P)\n\t}\n}\n'
