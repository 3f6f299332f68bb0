PROPERTY='C22'
NEEDS='two workers of the buffered conversion that finish at the same time'
BREAKS='pixels and label of an instance are written in separate critical sections, so lines mix'
EDITS=[('io/pgm.go', '\t\t\t\tfmt.Fprintf(out, "%d ", vals[j])\n\t\t\t}\n\t\t\tfmt.Fprintf(out, "%d\\n", vals[len(vals)-1])\n\t\t\tmutex.Unlock()\n\n\t\t\tlf.Close()\n', '\t\t\t\tfmt.Fprintf(out, "%d ", vals[j])\n\t\t\t}\n\t\t\tmutex.Unlock()\n\t\t\tlf.Close()\n\t\t\tmutex.Lock()\n\t\t\tfmt.Fprintf(out, "%d\\n", vals[len(vals)-1])\n\t\t\tmutex.Unlock()\n\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/io"\n\t"strings"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tfor t := 0; t < 60; t++ {\n\t\td := fmt.Sprintf("in%d", t)\n\t\tfor c := 0; c < 2; c++ {\n\t\t\tos.MkdirAll(fmt.Sprintf("%s/c%d", d, c), 0o755)\n\t\t\tfor i := 0; i < 100; i++ {\n\t\t\t\tos.WriteFile(fmt.Sprintf("%s/c%d/%d.pgm", d, c, i), []byte("P2\\n2 2\\n9\\n1 2 3 4\\n"), 0o644)\n\t\t\t}\n\t\t}\n\t\twd, _ := os.Getwd()\n\t\tio.BufferedPGMFToData(wd+"/"+d, "out.data")\n\t\tb, _ := os.ReadFile(d + "/compiled/out.data")\n\t\tfor _, l := range strings.Split(strings.TrimSpace(string(b)), "\\n") {\n\t\t\tif !strings.HasPrefix(l, "var") && len(strings.Fields(l)) != 5 {\n\t\t\t\tfail(l)\n\t\t\t}\n\t\t}\n\t\tos.RemoveAll(d)\n\t}\n}\n'
