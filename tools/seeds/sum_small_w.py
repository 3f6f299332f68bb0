PROPERTY='C02'
NEEDS='a network with a sum whose weights go below one in ten thousand'
BREAKS='small weights are taken for zero, so that the probabilities no longer add up and are not proportional'
EDITS=[('spn/sum.go', '\t\tv, w := s.ch[i].Value(val), math.Log(s.w[i])\n\t\tvals[i] = v + w', '\t\tv, w := s.ch[i].Value(val), math.Log(s.w[i])\n\t\tif s.w[i] < 1e-4 {\n\t\t\tw = math.Inf(-1)\n\t\t}\n\t\tvals[i] = v + w')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tfor p := .5; p > 1e-12; p /= 10 {\n\t\tS := spn.NewSum()\n\t\tS.AddChildW(spn.NewIndicator(0, 0), p)\n\t\tS.AddChildW(spn.NewIndicator(0, 1), 1-p)\n\t\tif v := math.Exp(S.Value(spn.VarSet{0: 0})); math.Abs(v-p) > 1e-6*p {\n\t\t\tfail("value", v, "with weight", p)\n\t\t}\n\t}\n}\n'
