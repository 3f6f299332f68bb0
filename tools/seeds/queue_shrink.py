PROPERTY='C11'
NEEDS='more removals than the shrink bound and then at least half of the queue gone'
BREAKS='shrinking copies with the wrong length once the capacity bound is reached'
EDITS=[('common/queue.go', 'func (q *Queue) Shrink() {\n\tsys.Free()\n\tq.cap = len(q.data)\n}', 'func (q *Queue) Shrink() {\n\tn := len(q.data)\n\tif q.cap > 2*n && n > 0 {\n\t\td := make([]interface{}, n)\n\t\tcopy(d, q.data[:n-n%2])\n\t\tq.data = d\n\t}\n\tsys.Free()\n\tq.cap = n\n}')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/common"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tq := &common.Queue{}\n\tfor i := 0; i < 9; i++ {\n\t\tq.Enqueue(i)\n\t}\n\tfor i := 0; i < 6; i++ {\n\t\tq.Dequeue()\n\t}\n\tq.Shrink()\n\tif q.Get(2) != 8 {\n\t\tfail(q.Get(2))\n\t}\n}\n'
