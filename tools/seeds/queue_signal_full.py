PROPERTY='C12'
NEEDS='two goroutines waiting for a place while two jobs end one after the other before either is woken'
BREAKS='a job only wakes a waiting goroutine if it leaves a full queue, so that the second one sleeps for ever'
EDITS=[('conc/queue.go', '\t\tq.k--\n\t\tq.c.L.Unlock()\n\t\tq.c.Signal()\n', '\t\tfull := q.k == q.n\n\t\tq.k--\n\t\tq.c.L.Unlock()\n\t\t// Someone can only be waiting if there was no room.\n\t\tif full {\n\t\t\tq.c.Signal()\n\t\t}\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/conc"\n\t"time"\n\t"sync"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\tdone := make(chan bool)\n\tgo func() {\n\t\tfor t := 0; t < 3000; t++ {\n\t\t\tq := conc.NewSingleQueue(4)\n\t\t\tvar wg sync.WaitGroup\n\t\t\tfor s := 0; s < 16; s++ {\n\t\t\t\twg.Add(1)\n\t\t\t\tgo func() {\n\t\t\t\t\tdefer wg.Done()\n\t\t\t\t\tfor i := 0; i < 5; i++ {\n\t\t\t\t\t\tq.Run(func(int) {}, i)\n\t\t\t\t\t}\n\t\t\t\t}()\n\t\t\t}\n\t\t\twg.Wait()\n\t\t\tq.Wait()\n\t\t}\n\t\tdone <- true\n\t}()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(40 * time.Second):\n\t\tfail("stuck")\n\t}\n}\n'
