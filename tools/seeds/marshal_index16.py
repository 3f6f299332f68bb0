PROPERTY='C05'
NEEDS='a network of more than 65536 nodes'
BREAKS='positions of children are kept in 16 bits, so that a large network comes back with other children'
EDITS=[('spn/serial.go', '\tM := make(map[SPN]uint32)\n', '\tM := make(map[SPN]uint16)\n'), ('spn/serial.go', '\t\tM[Z] = n\n', '\t\tM[Z] = uint16(n)\n'), ('spn/serial.go', '\t\t\tp := M[c]\n', '\t\t\tp := uint32(M[c])\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tP := spn.NewProduct()\n\tfor i := 0; i < 66000; i++ {\n\t\tP.AddChild(spn.NewIndicator(i, i%2))\n\t}\n\tQ := spn.Unmarshal(spn.Marshal(P))\n\tch := Q.Ch()\n\tif len(ch) != 66000 {\n\t\tfail(len(ch), "children")\n\t}\n\tseen := map[int]bool{}\n\tfor _, c := range ch {\n\t\tseen[c.Sc()[0]] = true\n\t}\n\tif len(seen) != 66000 {\n\t\tfail(len(seen), "variables of 66000 come back")\n\t}\n}\n'
