PROPERTY='C04'
NEEDS='a node skipped by one parent path but reachable through another'
BREAKS='a child met below a skipped node is never visited through its other parent'
EDITS=[('spn/search.go', '\t\t\tif !V[c] && r == 0 {\n\t\t\t\tC.Give(c)\n\t\t\t\tV[c] = true\n\t\t\t}', '\t\t\tif V[c] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tV[c] = true\n\t\t\tif r == 0 {\n\t\t\t\tC.Give(c)\n\t\t\t}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tl := spn.NewIndicator(0, 0)\n\ts := spn.NewSum()\n\tp, q := spn.NewProduct(), spn.NewProduct()\n\tp.AddChild(l)\n\tq.AddChild(l)\n\ts.AddChildW(p, .5)\n\ts.AddChildW(q, .5)\n\tn := 0\n\tspn.BreadthFirst(s, func(x spn.SPN) int {\n\t\tn++\n\t\tif x == spn.SPN(p) {\n\t\t\treturn -1\n\t\t}\n\t\treturn 0\n\t})\n\tif n != 4 {\n\t\tfail("visited", n)\n\t}\n}\n'
