PROPERTY='C18'
NEEDS='the concurrent learner asked for one job per processor (a limit of zero or less)'
BREAKS='the learner waits for its clusters only when given a limit, so that otherwise it returns a network whose children are still being learned'
EDITS=[('learn/gens/gens.go', '\tif np != 1 {\n\t\tQ.Wait()\n\t}\n\treturn sum', '\tif np > 1 {\n\t\tQ.Wait()\n\t}\n\treturn sum')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/learn/gens"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tvar D []map[int]int\n\tsc := map[int]*learn.Variable{}\n\tfor v := 0; v < 12; v++ {\n\t\tsc[v] = &learn.Variable{Varid: v, Categories: 2, Name: fmt.Sprint(v)}\n\t}\n\tfor i := 0; i < 600; i++ {\n\t\tI := map[int]int{}\n\t\tfor v := range sc {\n\t\t\tI[v] = i % 2\n\t\t}\n\t\tD = append(D, I)\n\t}\n\tfor _, procs := range []int{1, 2, 0, -1} {\n\t\tfor r := 0; r < 5; r++ {\n\t\t\tS := gens.LearnConcurrent(sc, D, -1, .5, 1, 1, procs)\n\t\t\tif n := len(S.Ch()); n != 2 {\n\t\t\t\tfail("with", procs, "jobs the network has", n, "children when the learner returns")\n\t\t\t}\n\t\t}\n\t}\n}\n'
