PROPERTY='C09'
NEEDS='hard discriminative learning where the most probable explanation without the labels goes through a sum that the one with them does not use'
BREAKS='such sums are not corrected'
EDITS=[('learn/discriminative.go', '\tfor s, cnts := range pt {\n\t\tif _, e := C[s]; !e {\n\t\t\tC[s] = make(map[int]float64)\n\t\t}\n', '\tfor s, cnts := range pt {\n\t\tif _, e := C[s]; !e {\n\t\t\tcontinue\n\t\t}\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/learn/parameters"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"math"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tm := func(v int, p float64) spn.SPN { return spn.NewMultinomial(v, []float64{p, 1 - p}) }\n\tin := spn.NewSum()\n\tin.AddChildW(m(1, .9), .6)\n\tin.AddChildW(m(1, .2), .4)\n\tA, B := spn.NewProduct(), spn.NewProduct()\n\tA.AddChild(m(0, .99))\n\tA.AddChild(in)\n\tB.AddChild(m(0, .01))\n\tB.AddChild(m(1, .5))\n\tS := spn.NewSum()\n\tS.AddChildW(A, .6)\n\tS.AddChildW(B, .4)\n\tspn.ComputeScope(S)\n\tparameters.Bind(S, parameters.New(false, false, .01, parameters.HardGD, .1, 1, 1, 0, 1))\n\tlearn.DiscriminativeHardGD(S, .1, 1, spn.Dataset{{0: 1, 1: 0}}, []*learn.Variable{{Varid: 0, Categories: 2}}, false)\n\t// With the label, B is used; without it A and in\'s first child.\n\tif w := in.Weights(); math.Abs(w[0]-(.6-.1/.6)) > 1e-9 || w[1] != .4 {\n\t\tfail(w)\n\t}\n}\n'
