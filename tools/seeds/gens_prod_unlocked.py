PROPERTY='C18'
NEEDS='concurrent learning of several independent groups that end at the same time'
BREAKS='children are added to the product outside of the lock, so that some get lost'
EDITS=[('learn/gens/gens.go', '\t\tmu.Lock()\n\t\tprod.AddChild(nc)\n\t\tmu.Unlock()\n', '\t\tmu.Lock()\n\t\tmu.Unlock()\n\t\tprod.AddChild(nc)\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/learn/gens"\n\t"runtime"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tif runtime.NumCPU() < 2 {\n\t\treturn\n\t}\n\tconst nv, ni = 24, 16\n\tfor t := 0; t < 1500; t++ {\n\t\tsc := map[int]*learn.Variable{}\n\t\tvar D []map[int]int\n\t\tfor v := 0; v < nv; v++ {\n\t\t\tsc[v] = &learn.Variable{Varid: v, Categories: 2}\n\t\t}\n\t\tfor i := 0; i < ni; i++ {\n\t\t\tI := map[int]int{}\n\t\t\tfor v := 0; v < nv; v++ {\n\t\t\t\tI[v] = (i >> uint(v%4)) & 1\n\t\t\t\tif v >= 4 {\n\t\t\t\t\tI[v] = 0\n\t\t\t\t}\n\t\t\t}\n\t\t\tD = append(D, I)\n\t\t}\n\t\tS := gens.LearnConcurrent(sc, D, 2, 0.0001, 4, 4, 8)\n\t\tif len(S.Ch()) != nv {\n\t\t\tfail(len(S.Ch()), "children at", t)\n\t\t}\n\t}\n}\n'
