PROPERTY='C28'
NEEDS='a test instance whose probability is below the smallest float, i.e. many features or a narrow model'
BREAKS='classification compares probabilities that have all become zero and answers the first class'
EDITS=[('app/image.go', '\t\t\tprs[j] = utils.AntiLog(px - pz)\n', '\t\t\tprs[j] = utils.AntiLog(px)\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/app"\n\t"github.com/RenatoGeh/gospn/learn"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tconst nf = 300\n\tf, _ := os.Create("all.data")\n\tfor j := 0; j < nf; j++ {\n\t\tfmt.Fprintf(f, "var %d 2\\n", j)\n\t}\n\tfmt.Fprintf(f, "var %d 2\\n", nf)\n\tfor i := 0; i < 10; i++ {\n\t\tfor j := 0; j < nf; j++ {\n\t\t\tfmt.Fprintf(f, "%d ", 0)\n\t\t}\n\t\tfmt.Fprintln(f, 1)\n\t}\n\tf.Close()\n\tlf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {\n\t\tS := spn.NewSum()\n\t\tfor c, q := range []float64{0.01, 0.02} {\n\t\t\tP := spn.NewProduct()\n\t\t\tfor j := 0; j < nf; j++ {\n\t\t\t\tP.AddChild(spn.NewMultinomial(j, []float64{q, 1 - q}))\n\t\t\t}\n\t\t\tw := []float64{0, 0}\n\t\t\tw[c] = 1\n\t\t\tP.AddChild(spn.NewMultinomial(nf, w))\n\t\t\tS.AddChildW(P, 0.5)\n\t\t}\n\t\treturn S\n\t}\n\tgot, all := app.ImgClassify(lf, "all.data", 0.5, 3)\n\tif got != all || all == 0 {\n\t\tfail(got, "of", all)\n\t}\n}\n'
