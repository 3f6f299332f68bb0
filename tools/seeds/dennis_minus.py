PROPERTY='C19'
NEEDS='a region found similar, but not equal, to one part of a partition, hence several clusters and at least four variables'
BREAKS='the other part of the partition loses the variables that the similar region does not have'
EDITS=[('learn/dennis/dennis.go', '\t\t\t\ts1, s2 = s, sn.minus(s)\n', '\t\t\t\ts1, s2 = s, s2.minus(s)\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/learn/dennis"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tfor seed := 0; seed < 4000; seed++ {\n\t\tx := uint32(seed*2654435761 + 12345)\n\t\tnv, ni := 5, 6\n\t\tsc := map[int]*learn.Variable{}\n\t\tvar D spn.Dataset\n\t\tfor v := 0; v < nv; v++ {\n\t\t\tsc[v] = &learn.Variable{Varid: v, Categories: 4}\n\t\t}\n\t\tfor i := 0; i < ni; i++ {\n\t\t\tI := map[int]int{}\n\t\t\tfor v := 0; v < nv; v++ {\n\t\t\t\tx = x*1664525 + 1013904223\n\t\t\t\tI[v] = int(x>>24) % 4\n\t\t\t}\n\t\t\tD = append(D, I)\n\t\t}\n\t\tS := dennis.Structure(D, sc, 2, 1, 1, 0.3)\n\t\tspn.ComputeScope(S)\n\t\tif !spn.Complete(S) || !spn.Decomposable(S) || len(S.Sc()) != nv {\n\t\t\tfail("not valid at", seed)\n\t\t}\n\t}\n}\n'
