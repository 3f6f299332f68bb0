PROPERTY='C04'
NEEDS='a network to which a node is added below the root between two traversals'
BREAKS='the order of the last network is kept and given again while the root has the same number of children'
EDITS=[('spn/topo.go', 'func TopSortTarjan(G SPN, C common.Collection) common.Collection {\n\tif C == nil {\n\t\tC = &common.Queue{}\n\t}\n', 'func TopSortTarjan(G SPN, C common.Collection) common.Collection {\n\tif C == nil {\n\t\tC = &common.Queue{}\n\t}\n\tif n := len(order); n > 0 && order[n-1] == G && len(G.Ch()) == degree {\n\t\tfor _, u := range order {\n\t\t\tC.Give(u)\n\t\t}\n\t\treturn C\n\t}\n\torder, degree = nil, len(G.Ch())\n'), ('spn/topo.go', '\t\t\tC.Give(u)\n\t\t\tcontinue\n', '\t\t\tC.Give(u)\n\t\t\torder = append(order, u)\n\t\t\tcontinue\n'), ('spn/topo.go', '// Topological sorting algorithms.\n', '// Topological sorting algorithms.\n\n// Order of the network sorted last, and the number of children of its root.\nvar (\n\torder  []SPN\n\tdegree int\n)\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/common"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tP, S := spn.NewProduct(), spn.NewSum()\n\tS.AddChildW(spn.NewIndicator(0, 0), .5)\n\tP.AddChild(S)\n\tP.AddChild(spn.NewIndicator(1, 0))\n\tfor k := 4; k < 7; k++ {\n\t\tQ := spn.TopSortTarjan(P, nil).(*common.Queue)\n\t\tif Q.Size() != k {\n\t\t\tfail(Q.Size(), "nodes sorted of", k)\n\t\t}\n\t\tS.AddChildW(spn.NewIndicator(0, k), .5)\n\t}\n}\n'
