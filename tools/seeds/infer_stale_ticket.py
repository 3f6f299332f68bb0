PROPERTY='C01'
NEEDS='storing inference twice under the same ticket with different evidence'
BREAKS='the second stored inference keeps leaf values of the first evidence'
EDITS=[('spn/utils.go','''		case "leaf":
			table.StoreSingle(s, s.Value(I))''','''		case "leaf":
			// Leaves may be shared by many parents: evaluate each only once.
			if !table.ExistsSPN(s) {
				table.StoreSingle(s, s.Value(I))
			}''')]
DEMO='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/RenatoGeh/gospn/spn"
)

func main() {
	s := spn.NewSum()
	s.AddChildW(spn.NewMultinomial(0, []float64{0.25, 0.75}), 0.5)
	s.AddChildW(spn.NewMultinomial(0, []float64{0.5, 0.5}), 0.5)
	st := spn.NewStorer()
	tk := st.NewTicket()
	for _, v := range []int{0, 1} {
		I := spn.VarSet{0: v}
		spn.StoreInference(s, I, tk, st)
		got, _ := st.Single(tk, s)
		if want := s.Value(I); math.Abs(got-want) > 1e-9 {
			fmt.Println("stored", got, "value", want)
			os.Exit(1)
		}
	}
}
'''
