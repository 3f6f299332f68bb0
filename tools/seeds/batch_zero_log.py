PROPERTY='C07'
NEEDS='a batch of two evidences where the first gives some weight a derivative of exactly one'
BREAKS='the accumulated weight derivative forgets the first evidence'
EDITS=[('learn/derive.go','''				dw, e := wt.Entry(s, i)
				ndw := v + pv
				if e {''','''				dw, _ := wt.Entry(s, i)
				ndw := v + pv
				if dw != 0 {''')]
DEMO='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

func main() {
	s := spn.NewSum()
	s.AddChildW(spn.NewMultinomial(0, []float64{0.25, 0.75}), 0.5)
	s.AddChildW(spn.NewMultinomial(0, []float64{0.5, 0.5}), 0.5)
	st := spn.NewStorer()
	wtk, stk, itk := st.NewTicket(), st.NewTicket(), st.NewTicket()
	for _, I := range []spn.VarSet{{}, {0: 1}} {
		spn.StoreInference(s, I, itk, st)
		learn.DeriveSPN(s, st, stk, itk, nil)
		learn.DeriveWeightsBatch(s, st, wtk, stk, itk, nil)
		st.Reset(itk)
		st.Reset(stk)
	}
	v, _ := st.Entry(wtk, s, 0)
	if want := math.Log(1.75); math.Abs(v-want) > 1e-9 {
		fmt.Println("derivative", v, "want", want)
		os.Exit(1)
	}
}
'''
