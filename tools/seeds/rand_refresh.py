PROPERTY='C23'
NEEDS='refreshing the generator with the seed it already has'
BREAKS='refreshing with the current seed does not start over'
EDITS=[('sys/rand.go', '\tseed = s\n\tRandom = rand.New(rand.NewSource(seed))\n\treturn Random', '\tif s != seed {\n\t\tseed = s\n\t\tRandom = rand.New(rand.NewSource(seed))\n\t}\n\treturn Random')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/sys"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tsys.RefreshRandom(5)\n\ta := sys.RandIntn(1 << 30)\n\tsys.RefreshRandom(5)\n\tif b := sys.RandIntn(1 << 30); a != b {\n\t\tfail(a, b)\n\t}\n}\n'
