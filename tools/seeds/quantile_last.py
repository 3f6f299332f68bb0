PROPERTY='C25'
NEEDS='a number of values that is not a multiple of the number of groups'
BREAKS='the last group of quantiles stops at the regular length'
EDITS=[('utils/stats.go', '\t\tif i == m-1 {\n\t\t\tq = k\n\t\t}', '\t\tif i == m-1 && q < k-1 {\n\t\t\tq = k\n\t\t}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/utils"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tn := 0.0\n\tfor _, p := range utils.PartitionQuantiles([]int{1, 2, 3, 4, 5, 6, 7}, 3) {\n\t\tn += p[2]\n\t}\n\tif n != 7 {\n\t\tfail("groups contain", n, "of 7 values")\n\t}\n}\n'
