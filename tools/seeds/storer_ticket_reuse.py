PROPERTY='C10'
NEEDS='a deletion of an older ticket followed by a new ticket'
BREAKS='new tickets are numbered by the tables left, so a live table is replaced'
EDITS=[('spn/storer.go', '\tk := s.tickets\n\ts.tickets++\n\ts.tables[k] = make(StorerTable)\n\treturn k', '\tk := len(s.tables)\n\ts.tickets++\n\ts.tables[k] = make(StorerTable)\n\treturn k')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/spn"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tst := spn.NewStorer()\n\tn := spn.NewIndicator(0, 0)\n\ta, b := st.NewTicket(), st.NewTicket()\n\tst.StoreSingle(b, n, 7)\n\tst.Delete(a)\n\tc := st.NewTicket()\n\tif v, ok := st.Single(b, n); c == b || !ok || v != 7 {\n\t\tfail("ticket", b, "was replaced by", c)\n\t}\n}\n'
