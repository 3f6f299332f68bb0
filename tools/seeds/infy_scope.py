PROPERTY='C01'
NEEDS='the separately designated variable also occurs in the evidence with another value'
BREAKS='inferenceY lets the evidence override the designated value'
EDITS=[('spn/utils.go', '\t\t\tif varid := s.Sc()[0]; varid == Y {\n\t\t\t\tV[s] = s.Value(J)\n\t\t\t} else {', '\t\t\tif varid := s.Sc()[0]; varid == Y && len(I) == 0 {\n\t\t\t\tV[s] = s.Value(J)\n\t\t\t} else if _, set := I[varid]; varid == Y && !set {\n\t\t\t\tV[s] = s.Value(J)\n\t\t\t} else {')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\ts := spn.NewSum()\n\ts.AddChildW(spn.NewMultinomial(0, []float64{0.25, 0.75}), 0.5)\n\ts.AddChildW(spn.NewMultinomial(0, []float64{0.5, 0.5}), 0.5)\n\ta, b := spn.InferenceY(s, spn.VarSet{0: 0}, 0, 1), s.Value(spn.VarSet{0: 1})\n\tif math.Abs(a-b) > 1e-9 {\n\t\tfail(a, b)\n\t}\n}\n'
