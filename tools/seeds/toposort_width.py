PROPERTY='C04'
NEEDS='a node with a child that is pushed again before its turn (three levels of sharing)'
BREAKS='recursive post-order delivers a shared child twice when it is first met through its second parent'
EDITS=[('spn/topo.go', '\t\tfor _, c := range ch {\n\t\t\tif !V[c] {\n\t\t\t\tV[c] = true\n\t\t\t\tpostOrderRec(c, V, C)\n\t\t\t}\n\t\t}', '\t\tfor _, c := range ch {\n\t\t\tif !V[c] {\n\t\t\t\tV[c] = len(c.Ch()) > 0\n\t\t\t\tpostOrderRec(c, V, C)\n\t\t\t}\n\t\t}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"github.com/RenatoGeh/gospn/common"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tl := spn.NewIndicator(0, 0)\n\ts := spn.NewSum()\n\tp, q := spn.NewProduct(), spn.NewProduct()\n\tp.AddChild(l)\n\tq.AddChild(l)\n\ts.AddChildW(p, .5)\n\ts.AddChildW(q, .5)\n\tQ := &common.Queue{}\n\tspn.PostOrder(s, Q)\n\tif Q.Size() != 4 {\n\t\tfail("delivered", Q.Size(), "nodes")\n\t}\n}\n'
