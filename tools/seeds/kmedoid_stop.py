PROPERTY='C17'
NEEDS='an order of instances in which the medoid moves right before the last instance that would change cluster'
BREAKS='the search stops one instance early, leaving an instance with a medoid that is not its nearest'
EDITS=[('utils/cluster/kmedoid.go', '\tfor nochange < n {\n', '\tfor nochange < n-2 {\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/utils/cluster"\n\t"github.com/RenatoGeh/gospn/sys"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc ham(a, b []int) int {\n\td := 0\n\tfor i := range a {\n\t\tif a[i] != b[i] {\n\t\t\td++\n\t\t}\n\t}\n\treturn d\n}\n\nfunc good(C []map[int][]int) bool {\n\tvar K []map[int][]int\n\tfor _, c := range C {\n\t\tif len(c) > 0 {\n\t\t\tK = append(K, c)\n\t\t}\n\t}\n\tm := make([][]int, len(K))\n\tvar rec func(i int) bool\n\trec = func(i int) bool {\n\t\tif i == len(K) {\n\t\t\tfor a, c := range K {\n\t\t\t\tfor _, x := range c {\n\t\t\t\t\tfor b := range K {\n\t\t\t\t\t\tif ham(x, m[b]) < ham(x, m[a]) {\n\t\t\t\t\t\t\treturn false\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn true\n\t\t}\n\t\tfor _, x := range K[i] {\n\t\t\tm[i] = x\n\t\t\tif rec(i + 1) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\treturn false\n\t}\n\treturn rec(0)\n}\n\nfunc main() {\n\tx := uint32(7)\n\tfor t := 0; t < 200000; t++ {\n\t\tsys.RefreshRandom(int64(t))\n\t\tn := 4 + t%4\n\t\tD := make([][]int, n)\n\t\tfor i := range D {\n\t\t\tfor j := 0; j < 4; j++ {\n\t\t\t\tx = x*1664525 + 1013904223\n\t\t\t\tD[i] = append(D[i], int(x>>24)%3)\n\t\t\t}\n\t\t}\n\t\tif !good(cluster.KMedoid(2+t%2, D)) {\n\t\t\tfail("at", t, D)\n\t\t}\n\t}\n}\n'
