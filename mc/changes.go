package main

import (
	"fmt"

	"github.com/RenatoGeh/gospn/spn"
)

// change is one modification of a network by the means users have: weights overwritten in place, a new leaf
// or an existing node added below a node.
type change struct {
	name  string
	after spec
	apply func(nodes []spn.SPN) []spn.SPN
}

func (s spec) clone() spec {
	t := make(spec, len(s))
	for i, n := range s {
		n.Ch = append([]int(nil), n.Ch...)
		n.W = append([]float64(nil), n.W...)
		t[i] = n
	}
	return t
}

func addTo(z, c spn.SPN, w float64) {
	if x, ok := z.(*spn.Sum); ok {
		x.AddChildW(c, w)
	} else {
		z.AddChild(c)
	}
}

// changes gives all modifications of one node of the network.
func changes(s spec) []change {
	var r []change
	top := 0
	for _, v := range s.vars() {
		top = max(top, v+1)
	}
	for i, n := range s {
		i, n := i, n
		if n.Kind == 'L' {
			continue
		}
		if n.Kind == 'S' && len(n.W) > 0 {
			t := s.clone()
			for j := range t[i].W {
				t[i].W[j] = n.W[len(n.W)-1-j]/2 + .125*float64(j+1)
			}
			r = append(r, change{fmt.Sprintf("the weights of %d become %v", i, t[i].W), t, func(nodes []spn.SPN) []spn.SPN {
				copy(nodes[i].(*spn.Sum).Weights(), t[i].W)
				return nodes
			}})
		}
		// A new leaf, first in the list.
		l := mleaf(0, .625, .375)
		if n.Kind == 'P' {
			l = mleaf(top, .375, .625)
		}
		t := spec{{Kind: 'L', Leaf: l}}
		for _, x := range s.clone() {
			for k := range x.Ch {
				x.Ch[k]++
			}
			t = append(t, x)
		}
		t[i+1].Ch = append(t[i+1].Ch, 0)
		if n.Kind == 'S' {
			t[i+1].W = append(t[i+1].W, .25)
		}
		r = append(r, change{fmt.Sprintf("%v is added to %d", l, i), t, func(nodes []spn.SPN) []spn.SPN {
			z := buildLeaf(l)
			addTo(nodes[i], z, .25)
			return append([]spn.SPN{z}, nodes...)
		}})
		for j := 0; j < i; j++ {
			j := j
			t := s.clone()
			t[i].Ch = append(t[i].Ch, j)
			if n.Kind == 'S' {
				t[i].W = append(t[i].W, .75)
			}
			r = append(r, change{fmt.Sprintf("%d is added to %d", j, i), t, func(nodes []spn.SPN) []spn.SPN {
				addTo(nodes[i], nodes[j], .75)
				return nodes
			}})
		}
	}
	return r
}

// more is one for thorough runs.
func (c *Ctx) more() int {
	if c.Thorough {
		return 1
	}
	return 0
}

// changing judges every network of the bound before and after each history of changes.
func (c *Ctx) changing(cfg specCfg, depth int, on func(s spec, nodes []spn.SPN) error) {
	c.Bound("networks changed between uses", fmt.Sprintf("all networks of up to %d nodes over %d leaves, histories of up to %d changes (weights of a sum overwritten, a new leaf or an existing node added to any node), judged before and after each change or before the first and after the last", cfg.maxNodes, len(cfg.menu), depth))
	enumSpecs(cfg, func(s spec) {
		if len(s) < 2 {
			return
		}
		if !c.Mine() {
			c.Skip()
			return
		}
		c.Case(func() string { return "changes of " + s.String() }, func() error {
			var rec func(h []change, t spec) error
			rec = func(h []change, t spec) error {
				if len(h) > 0 {
					for every := 0; every < min(2, len(h)); every++ {
						nodes := s.build()
						at := s
						for i, x := range h {
							if i == 0 || every == 0 {
								if err := on(at, nodes); err != nil {
									return fmt.Errorf("before change %d of %v: %w", i+1, names(h), err)
								}
							}
							nodes, at = x.apply(nodes), x.after
						}
						if err := on(at, nodes); err != nil {
							return fmt.Errorf("after %v: %w", names(h), err)
						}
					}
				}
				if len(h) == depth {
					return nil
				}
				for _, x := range changes(t) {
					if err := rec(append(h[:len(h):len(h)], x), x.after); err != nil {
						return err
					}
				}
				return nil
			}
			return rec(nil, s)
		})
	})
}

func names(h []change) (r []string) {
	for _, x := range h {
		r = append(r, x.name)
	}
	return
}
