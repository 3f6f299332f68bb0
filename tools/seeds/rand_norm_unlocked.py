PROPERTY='C23'
NEEDS='concurrent draws of normal numbers'
BREAKS='normal numbers are drawn outside of the lock'
EDITS=[('sys/rand.go', '\tmu.Lock()\n\tr := Random.NormFloat64()\n\tmu.Unlock()\n\treturn r', '\tmu.Lock()\n\tg := Random\n\tmu.Unlock()\n\treturn g.NormFloat64()')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"sync"\n\t"sort"\n\t"math/rand"\n\t"github.com/RenatoGeh/gospn/sys"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\t// All concurrently drawn numbers together are the stream of the seed.\n\tconst n = 400000\n\tfor try := 0; try < 5; try++ {\n\t\tsys.RefreshRandom(9)\n\t\tvar got [8][]float64\n\t\tvar wg sync.WaitGroup\n\t\tfor g := range got {\n\t\t\twg.Add(1)\n\t\t\tgo func(g int) {\n\t\t\t\tdefer wg.Done()\n\t\t\t\tdefer func() {\n\t\t\t\t\tif recover() != nil {\n\t\t\t\t\t\tfail("generator corrupted")\n\t\t\t\t\t}\n\t\t\t\t}()\n\t\t\t\tfor i := 0; i < n/8; i++ {\n\t\t\t\t\tgot[g] = append(got[g], sys.RandNormFloat64())\n\t\t\t\t}\n\t\t\t}(g)\n\t\t}\n\t\twg.Wait()\n\t\tvar all, want []float64\n\t\tfor _, g := range got {\n\t\t\tall = append(all, g...)\n\t\t}\n\t\tr := rand.New(rand.NewSource(9))\n\t\tfor range all {\n\t\t\twant = append(want, r.NormFloat64())\n\t\t}\n\t\tsort.Float64s(all)\n\t\tsort.Float64s(want)\n\t\tfor i := range all {\n\t\t\tif all[i] != want[i] {\n\t\t\t\tfail("the stream was not drawn", i)\n\t\t\t}\n\t\t}\n\t}\n}\n'
