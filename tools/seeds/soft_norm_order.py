PROPERTY='C08'
NEEDS='soft batch learning without normalisation followed by regularisation of weights that got no gradient'
BREAKS='regularisation is skipped for weights whose derivative is zero'
EDITS=[('learn/generative.go', '\t\t\tfor i, d := range dW {\n\t\t\t\tdelta := eta * math.Exp(d)\n\t\t\t\tW[i] += (delta / float64(b)) - 2*P.Lambda*W[i]\n\t\t\t}\n\t\t\tif norm {\n\t\t\t\tNormalize(W)\n\t\t\t}\n\t\t}\n\t}\n}\n\n// This is where', '\t\t\tfor i, d := range dW {\n\t\t\t\tif math.IsInf(d, -1) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tdelta := eta * math.Exp(d)\n\t\t\t\tW[i] += (delta / float64(b)) - 2*P.Lambda*W[i]\n\t\t\t}\n\t\t\tif norm {\n\t\t\t\tNormalize(W)\n\t\t\t}\n\t\t}\n\t}\n}\n\n// This is where')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/learn/parameters"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\ts := spn.NewSum()\n\ts.AddChildW(spn.NewIndicator(0, 0), 0.5)\n\ts.AddChildW(spn.NewIndicator(0, 1), 0.5)\n\tparameters.Bind(s, parameters.New(false, false, .01, parameters.SoftGD, .1, 1, 2, .1, 1))\n\tlearn.Generative(s, spn.Dataset{{0: 0}, {0: 0}})\n\tif w := s.Weights(); math.Abs(w[1]-.4) > 1e-9 {\n\t\tfail(w)\n\t}\n}\n'
