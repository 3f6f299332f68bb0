PROPERTY='C05'
NEEDS='probabilities that need more than 15 digits'
BREAKS='a multinomial is written with 15 digits, so that what is read back differs in the last bits'
EDITS=[('spn/multinom.go', '\t\tfmt.Fprintf(&b, " %v", p)\n', '\t\tfmt.Fprintf(&b, " %.15g", p)\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tfor n := 2; n < 50; n++ {\n\t\tc := make([]int, n)\n\t\tfor i := range c {\n\t\t\tc[i] = i * i % 7\n\t\t}\n\t\tm := spn.NewCountingMultinomial(1, c)\n\t\tr := spn.Unmarshal(spn.Marshal(m)).(*spn.Multinomial)\n\t\tfor i, p := range m.Pr() {\n\t\t\tif r.Pr()[i] != p {\n\t\t\t\tfail("wrote", p, "read", r.Pr()[i])\n\t\t\t}\n\t\t}\n\t}\n}\n'
