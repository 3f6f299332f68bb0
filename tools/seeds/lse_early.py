PROPERTY='C24'
NEEDS='a term that is about 1e-8 of the largest or several hundred small terms'
BREAKS='terms more than 18 below the largest are left out'
EDITS=[('utils/log.go', '\tfor _, v := range a {\n\t\tl += math.Exp(v - max)\n\t}\n\treturn math.Log(l) + max', '\tfor _, v := range a {\n\t\tif max-v > 18 {\n\t\t\tcontinue // no contribution\n\t\t}\n\t\tl += math.Exp(v - max)\n\t}\n\treturn math.Log(l) + max')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"math"\n\t"github.com/RenatoGeh/gospn/utils"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\ta := make([]float64, 1001)\n\tfor i := range a {\n\t\ta[i] = -18.5\n\t}\n\ta[0] = 0\n\tgot, want := utils.LogSumExp(a), math.Log1p(1000*math.Exp(-18.5))\n\tif math.Abs(got-want) > 1e-9 {\n\t\tfail(got, want)\n\t}\n}\n'
