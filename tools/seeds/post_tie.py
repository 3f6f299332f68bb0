PROPERTY='C14'
NEEDS='a class whose posterior is larger than that of an earlier one by less than a millionth'
BREAKS='a later class has to be better by a margin, so that the most probable class is not the one predicted'
EDITS=[('score/score.go', '\t\t\tif pd := pj - pe; pd > mp {\n\t\t\t\tmp, ml = pd, j\n\t\t\t}', '\t\t\tif pd := pj - pe; pd > mp+1e-6 {\n\t\t\t\tmp, ml = pd, j\n\t\t\t}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/score"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tfor _, d := range []float64{.1, 1e-3, 1e-5, 1e-7} {\n\t\tS := spn.NewSum()\n\t\tS.AddChildW(spn.NewIndicator(0, 0), .5-d)\n\t\tS.AddChildW(spn.NewIndicator(0, 1), .5+d)\n\t\tT := score.NewScore()\n\t\tT.EvaluatePosterior(spn.Dataset{{}}, []int{1}, S, &learn.Variable{Varid: 0, Categories: 2})\n\t\tif T.Hits() != 1 {\n\t\t\tfail("class 1 is better by", 2*d, "but not predicted")\n\t\t}\n\t}\n}\n'
