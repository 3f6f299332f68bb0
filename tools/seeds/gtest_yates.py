PROPERTY='C16'
NEEDS='a table where some counts differ from what is expected by less than a half'
BREAKS='such cells are left out of the statistic, so that verdicts change'
EDITS=[('utils/indep/gtest.go', '\t\t\to := float64(data[i][j])\n', '\t\t\to := float64(data[i][j])\n\t\t\t// Continuity correction.\n\t\t\tif math.Abs(o-E[i][j]) < 0.5 {\n\t\t\t\tcontinue\n\t\t\t}\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/utils/indep"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc table(a [][]int) [][]int {\n\tp, q := len(a), len(a[0])\n\tt := make([][]int, p+1)\n\tfor i := range t {\n\t\tt[i] = make([]int, q+1)\n\t}\n\tfor i := range a {\n\t\tfor j, x := range a[i] {\n\t\t\tt[i][j] = x\n\t\t\tt[i][q] += x\n\t\t\tt[p][j] += x\n\t\t\tt[p][q] += x\n\t\t}\n\t}\n\treturn t\n}\n\nfunc main() {\n\t// G = 7.61 with 2 degrees of freedom, p = 0.022: dependent at 0.05.\n\tif indep.GTest(2, 3, table([][]int{{8, 8, 0}, {0, 0, 1}}), 17, 0.05) {\n\t\tfail("called independent")\n\t}\n}\n'
