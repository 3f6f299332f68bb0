PROPERTY='C05'
NEEDS='a sum that has the same child on two edges'
BREAKS='the loaded network has one child less than weights'
EDITS=[('spn/serial.go','''		for _, c := range Z.Ch() {
			p := M[c]
			list[n] = append(list[n], p)
		}''','''		seen := make(map[uint32]bool)
		for _, c := range Z.Ch() {
			p := M[c]
			if !seen[p] {
				seen[p] = true
				list[n] = append(list[n], p)
			}
		}''')]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/RenatoGeh/gospn/spn"
)

func main() {
	l := spn.NewMultinomial(0, []float64{0.25, 0.75})
	m := spn.NewMultinomial(0, []float64{0.5, 0.5})
	s := spn.NewSum()
	s.AddChildW(l, 0.5)
	s.AddChildW(m, 0.25)
	s.AddChildW(l, 0.25)
	t := spn.Unmarshal(spn.Marshal(s))
	if len(t.Ch()) != 3 {
		fmt.Println("children after loading:", len(t.Ch()))
		os.Exit(1)
	}
}
'''
