PROPERTY='C15'
NEEDS='labels that differ by a multiple of 256'
BREAKS='labels are compared by their low byte, so that instances of another class are taken for those of the class asked for'
EDITS=[('data/manipulate.go', '\t\tif L[i] == l {\n', '\t\tif byte(L[i]) == byte(l) {\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/data"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tfor _, o := range []int{0, 1, 2, 255, 256, 300, 512, 1 << 16, 1 << 32} {\n\t\tD := []map[int]int{{0: 1}, {0: 2}, {0: 3}}\n\t\tL := []int{o, o + 256, o + 1}\n\t\tS, P, T, Q := data.SubtractLabel(D, L, o)\n\t\tif len(S) != 2 || len(P) != 2 || len(T) != 1 || len(Q) != 1 || T[0][0] != 1 {\n\t\t\tfail("label", o, "of", L, "gives", S, P, T, Q)\n\t\t}\n\t}\n}\n'
