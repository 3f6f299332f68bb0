PROPERTY='C13'
NEEDS='two workers of the concurrent evaluation registering a prediction at the same time'
BREAKS='results are registered outside of the lock, so that some are lost'
EDITS=[('score/score.go', '\t\t\t\tmu.Lock()\n\t\t\t\ts.Register(ml, h[j])\n', '\t\t\t\ts.Register(ml, h[j])\n\t\t\t\tmu.Lock()\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/score"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"runtime"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tif runtime.NumCPU() < 2 {\n\t\treturn\n\t}\n\tS := spn.NewSum()\n\tfor c, w := range []float64{.4, .6} {\n\t\tP := spn.NewProduct()\n\t\tone := []float64{0, 0}\n\t\tone[c] = 1\n\t\tP.AddChild(spn.NewMultinomial(0, one))\n\t\tP.AddChild(spn.NewMultinomial(1, []float64{.2 + .5*float64(c), .8 - .5*float64(c)}))\n\t\tS.AddChildW(P, w)\n\t}\n\tspn.ComputeScope(S)\n\tn := 20000\n\tfor t := 0; t < 5; t++ {\n\t\tvar D spn.Dataset\n\t\tvar L []int\n\t\tfor i := 0; i < n; i++ {\n\t\t\tD = append(D, map[int]int{1: i % 2})\n\t\t\tL = append(L, i%2)\n\t\t}\n\t\ts := score.NewScore()\n\t\ts.EvaluatePosteriorConc(D, L, S, &learn.Variable{Varid: 0, Categories: 2}, 4)\n\t\tm := 0\n\t\tfor _, r := range s.ConfusionMatrix(2) {\n\t\t\tfor _, x := range r {\n\t\t\t\tm += x\n\t\t\t}\n\t\t}\n\t\tif s.Total() != n || s.Hits()+s.Misses() != n || m != n {\n\t\t\tfail(s.Total(), s.Hits(), s.Misses(), m)\n\t\t}\n\t}\n}\n'
