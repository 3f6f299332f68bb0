PROPERTY='C15'
NEEDS='dividing into a single group because there are fewer instances than groups, then changing the result'
BREAKS='small data sets are handed out without copying their instances'
EDITS=[('data/manipulate.go', '\t\tfor i, I := range D {\n\t\t\tM := make(map[int]int)\n\t\t\tcopyMap(M, I)\n\t\t\tGd[0] = append(Gd[0], M)', '\t\tfor i, I := range D {\n\t\t\tM := I\n\t\t\tGd[0] = append(Gd[0], M)')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/data"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tD := []map[int]int{{0: 1}}\n\tG, _ := data.Divide(D, []int{0}, 3)\n\tG[0][0][0] = 5\n\tif D[0][0] != 1 {\n\t\tfail("the original changed", D)\n\t}\n}\n'
