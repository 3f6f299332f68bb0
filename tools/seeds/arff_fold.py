PROPERTY='C21'
NEEDS='an attribute of text values that differ only in upper and lower case'
BREAKS='values that differ only in case become the same category'
EDITS=[('io/arff.go', '\t\t\t\t} else if typs[j] == "string" {\n\t\t\t\t\ttk := v[j]\n', '\t\t\t\t} else if typs[j] == "string" {\n\t\t\t\t\ttk := strings.ToLower(v[j])\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/io"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tos.WriteFile("a.arff", []byte("@RELATION r\\n@ATTRIBUTE a string\\n@ATTRIBUTE b numeric\\n@data\\nYes,0\\nyes,1\\nYes,1\\n"), 0o644)\n\t_, sc, D, l := io.ParseArff("a.arff")\n\tif sc[0].Categories != 2 || D[0][0] == D[1][0] || D[0][0] != D[2][0] || len(l[0]) != 2 {\n\t\tfail(sc[0], D, l)\n\t}\n}\n'
