PROPERTY='C26'
NEEDS='a sum reached through two parents and weights that are negative'
BREAKS='NormalizeSPN skips sums whose weights already add up to one although some are negative'
EDITS=[('spn/utils.go', '\t\t\tW := z.Weights()\n\t\t\tnorm(W)\n', '\t\t\tW := z.Weights()\n\t\t\tvar t float64\n\t\t\tfor _, w := range W {\n\t\t\t\tt += w\n\t\t\t}\n\t\t\tif t != 1 {\n\t\t\t\tnorm(W)\n\t\t\t}\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\ts := spn.NewSum()\n\ts.AddChildW(spn.NewIndicator(0, 0), -0.5)\n\ts.AddChildW(spn.NewIndicator(0, 1), 1.5)\n\tspn.NormalizeSPN(s)\n\tif s.Weights()[0] < 0 {\n\t\tfail(s.Weights())\n\t}\n}\n'
