PROPERTY='C23'
NEEDS='the default parameters changed by one of their users'
BREAKS='all users of the default parameters share one set of them, so that what one changes is what the next one gets'
EDITS=[('learn/parameters/parameters.go', 'func Default() *P {\n\treturn &P{', 'var def = &P{'), ('learn/parameters/parameters.go', 'SoftGD, 0.1, 1.0, 0, 0.01, 4}\n}', 'SoftGD, 0.1, 1.0, 0, 0.01, 4}\n\nfunc Default() *P { return def }')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn/parameters"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\twant := *parameters.Default()\n\ta := parameters.Default()\n\ta.Eta, a.BatchSize, a.Normalize = 77, 13, !a.Normalize\n\tif b := parameters.Default(); *b != want {\n\t\tfail("defaults", *b, "want", want)\n\t}\n}\n'
