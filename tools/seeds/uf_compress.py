PROPERTY='C25'
NEEDS='a union of a set that was found (compressed) before'
BREAKS='compressing a path also drops the child from the tree, losing members of the set'
EDITS=[('utils/unionfind.go', '\tif x.rank > y.rank {\n\t\ty.Pa = x\n\t\tx.Ch = append(x.Ch, y)\n\t\treturn x, 1\n\t}', '\tif x.rank > y.rank {\n\t\ty.Pa = x\n\t\tx.Ch = append(x.Ch, y)\n\t\tif y.rank > 0 {\n\t\t\tx.Ch = append(x.Ch[:len(x.Ch)-1], y.Ch...)\n\t\t}\n\t\treturn x, 1\n\t}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/utils"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tn := make([]*utils.UFNode, 6)\n\tfor i := range n {\n\t\tn[i] = utils.MakeSet(i)\n\t}\n\tutils.Union(n[0], n[1])\n\tutils.Union(n[2], n[3])\n\tutils.Union(n[0], n[2]) // rank 2\n\tutils.Union(n[4], n[5]) // rank 1\n\tutils.Union(n[0], n[4])\n\tif v := utils.UFVarids(utils.Find(n[0])); len(v) != 6 {\n\t\tfail(v)\n\t}\n}\n'
