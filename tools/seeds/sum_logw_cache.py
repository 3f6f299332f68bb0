PROPERTY='C01'
NEEDS='a network whose weights are changed after it has been evaluated'
BREAKS='a sum keeps the logarithms of its weights from the first evaluation on, so that later changes of the weights do not reach its value'
EDITS=[('spn/sum.go', '\tw []float64\n}', '\tw []float64\n\t// Logarithms of the weights.\n\tlw []float64\n}'), ('spn/sum.go', '\tfor i := 0; i < n; i++ {\n\t\tv, w := s.ch[i].Value(val), math.Log(s.w[i])\n\t\tvals[i] = v + w\n', '\tif len(s.lw) != n {\n\t\ts.lw = make([]float64, n)\n\t\tfor i, w := range s.w {\n\t\t\ts.lw[i] = math.Log(w)\n\t\t}\n\t}\n\tfor i := 0; i < n; i++ {\n\t\tvals[i] = s.ch[i].Value(val) + s.lw[i]\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tS := spn.NewSum()\n\tS.AddChildW(spn.NewIndicator(0, 0), .5)\n\tS.AddChildW(spn.NewIndicator(0, 1), .5)\n\tfor _, p := range []float64{.5, .25, .75} {\n\t\tS.Weights()[0], S.Weights()[1] = p, 1-p\n\t\tif v := math.Exp(S.Value(spn.VarSet{0: 0})); math.Abs(v-p) > 1e-9 {\n\t\t\tfail("value", v, "with weight", p)\n\t\t}\n\t}\n}\n'
