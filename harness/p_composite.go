package main

import "fmt"

func init() {
	register(Check{
		Prop: "V16",
		Rule: "a generated value (distinct JSON text per schema and option set) that the validator and the monitors accepted",
		Cases: func(cfg Cfg) []Case {
			cases := []Case{}
			n := cfg.Scale(1500, 30000)
			for i := range n {
				id := fmt.Sprintf("composite-%05d", i)
				r := subRng(cfg.Seed, "V16", id)
				g := newSG(r)
				s := g.Root(g.Schema(3))
				cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 20}.Case())
			}
			return cases
		},
	})
}
