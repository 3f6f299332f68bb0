PROPERTY='C12'
NEEDS='two threads submitting to the same queue while it is full, so that a woken submitter finds the slot taken again'
BREAKS='more jobs than the limit run at once'
EDITS=[('conc/queue.go','	for q.k >= q.n {\n		q.c.Wait()','	if q.k >= q.n {\n		q.c.Wait()')]
DEMO='''
package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"runtime"

	"github.com/RenatoGeh/gospn/conc"
)

func main() {
	for r := 0; r < 3000; r++ {
		q := conc.NewSingleQueue(1)
		var cur, bad int32
		job := func(int) {
			if atomic.AddInt32(&cur, 1) > 1 {
				atomic.StoreInt32(&bad, 1)
			}
			for k := 0; k < 20; k++ {
				runtime.Gosched()
			}
			atomic.AddInt32(&cur, -1)
		}
		var wg sync.WaitGroup
		for t := 0; t < 4; t++ {
			wg.Add(1)
			go func() {
				for i := 0; i < 20; i++ {
					q.Run(job, i)
				}
				wg.Done()
			}()
		}
		wg.Wait()
		q.Wait()
		if bad != 0 {
			fmt.Println("two jobs at once with limit one, round", r)
			os.Exit(1)
		}
	}
}
'''
