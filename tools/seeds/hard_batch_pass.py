PROPERTY='C08'
NEEDS='hard batch learning with several passes and a data set that is not a multiple of the batch'
BREAKS='counts of an incomplete batch are not cleared between passes'
EDITS=[('learn/generative.go', '\t\tif i%bSize != 0 {\n\t\t\tsys.Println("Applying gradient descent...")\n\t\t\tapplyFastHGD(S, eta, dtk, storage, norm, bSize)\n\t\t\tstorage.Reset(dtk)\n\t\t}\n\t\tsys.Printf("Log', '\t\tif i%bSize != 0 {\n\t\t\tsys.Println("Applying gradient descent...")\n\t\t\tapplyFastHGD(S, eta, dtk, storage, norm, bSize)\n\t\t\tif i > bSize {\n\t\t\t\tstorage.Reset(dtk)\n\t\t\t}\n\t\t}\n\t\tsys.Printf("Log')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/learn/parameters"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tmk := func() *spn.Sum {\n\t\ts := spn.NewSum()\n\t\ts.AddChildW(spn.NewMultinomial(0, []float64{0.9, 0.1}), 0.5)\n\t\ts.AddChildW(spn.NewMultinomial(0, []float64{0.1, 0.9}), 0.5)\n\t\treturn s\n\t}\n\tD := spn.Dataset{{0: 0}, {0: 0}}\n\ta, b := mk(), mk()\n\tparameters.Bind(a, parameters.New(true, false, .01, parameters.HardGD, .1, 1, 3, 0, 2))\n\tlearn.Generative(a, D)\n\tparameters.Bind(b, parameters.New(true, false, .01, parameters.HardGD, .1, 1, 3, 0, 1))\n\tlearn.Generative(b, D)\n\tlearn.Generative(b, D)\n\tif w, v := a.Weights(), b.Weights(); math.Abs(w[0]-v[0]) > 1e-9 {\n\t\tfail("two passes", w, "one pass twice", v)\n\t}\n}\n'
