PROPERTY='C10'
NEEDS='entries stored at positions that do not start at zero or leave gaps'
BREAKS='existence of an entry is decided by the number of entries instead of its position'
EDITS=[('spn/storer.go', '\t_, e := t[S][i]\n\treturn e\n', '\treturn i >= 0 && i < len(t[S])\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tst := spn.NewStorer()\n\tt, _ := st.Table(st.NewTicket())\n\tx := spn.NewIndicator(0, 0)\n\tt.Store(x, 3, 1.5)\n\tif t.Exists(x, 0) || !t.Exists(x, 3) {\n\t\tfail("entry 0 exists:", t.Exists(x, 0), "entry 3 exists:", t.Exists(x, 3))\n\t}\n}\n'
