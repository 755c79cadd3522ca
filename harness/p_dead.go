package main

import (
	"fmt"
	mrand "math/rand"
)

// dead is a schema nothing satisfies, as two parts that contradict each other
type dead struct{ a, b M }

// contradictions are pairs of schemas for one type that exclude each other
var contradictions = map[string][]dead{
	"integer": {
		{M{"minimum": 10}, M{"maximum": 5}}, {M{"exclusiveMinimum": 9}, M{"exclusiveMaximum": 9}}, {M{"const": 3}, M{"const": 4}}, {M{"enum": A{1, 2}}, M{"enum": A{3, 4}}}, {M{"type": "integer"}, M{"type": "string"}},
		{M{"const": 3}, M{"minimum": 4}}, {M{"enum": A{1, 2}}, M{"maximum": 0}}, {M{"type": A{"integer", "null"}}, M{"type": "boolean"}},
	},
	"string": {
		{M{"minLength": 10}, M{"maxLength": 5}}, {M{"const": "a"}, M{"const": "b"}}, {M{"enum": A{"a", "b"}}, M{"enum": A{"c"}}}, {M{"type": "string"}, M{"type": "object"}}, {M{"const": "abc"}, M{"maxLength": 2}}, {M{"enum": A{"abc", "abcd"}}, M{"minLength": 5}},
		{M{"type": A{"string", "null"}}, M{"type": "array"}},
	},
	"array": {
		{M{"minItems": 4}, M{"maxItems": 3}}, {M{"const": A{1}}, M{"const": A{2}}}, {M{"type": "array"}, M{"type": "null"}}, {M{"enum": A{A{1}, A{1, 2}}}, M{"minItems": 3}},
	},
	"object": {
		{M{"minProperties": 4}, M{"maxProperties": 3}}, {M{"const": M{"a": 1}}, M{"const": M{"a": 2}}}, {M{"type": "object"}, M{"type": "integer"}}, {M{"required": A{"a", "b"}}, M{"maxProperties": 1}},
		{M{"enum": A{M{"a": 1}}}, M{"required": A{"b"}}},
	},
}

// living are alternatives for one type that can be told apart
var living = map[string][]M{
	"integer": {{"minimum": 100, "maximum": 120}, {"const": 50}, {"enum": A{60, 70}}, {"minimum": 1000, "multipleOf": 7}, {"allOf": A{M{"minimum": 200}, M{"maximum": 300}}}},
	"string":  {{"minLength": 30, "maxLength": 35}, {"const": "fifty"}, {"enum": A{"sixty", "seventy"}}, {"pattern": "^x{3,6}$"}, {"format": "ipv4"}, {"allOf": A{M{"minLength": 40}, M{"maxLength": 44}}}},
	"array":   {{"minItems": 6, "maxItems": 7}, {"const": A{"fifty"}}, {"prefixItems": A{M{"const": "kind"}, M{"type": "integer"}}, "minItems": 2, "maxItems": 2, "items": false}},
	"object":  {{"properties": M{"kind": M{"const": "one"}}, "required": A{"kind"}}, {"properties": M{"kind": M{"const": "two"}, "x": M{"type": "integer"}}, "required": A{"kind", "x"}}, {"const": M{"kind": "three"}}},
}

// deadAlternatives are cases with alternatives nothing satisfies next to ones that can be satisfied. They are reported, and
// the values conform to one of the others.
func deadAlternatives(cfg Cfg) []Case {
	cases := []Case{}
	kinds := []string{"integer", "string", "array", "object"}
	build := func(r *mrand.Rand, ty string, pairs []dead) (M, M) {
		alive := append([]M{}, living[ty]...)
		r.Shuffle(len(alive), func(i, j int) { alive[i], alive[j] = alive[j], alive[i] })
		alive = alive[:1+r.Intn(2)]
		base, defs, alts := M{"type": ty}, M{}, A{}
		for _, a := range alive {
			alts = append(alts, a)
		}
		for k, d := range pairs {
			if r.Intn(2) == 0 {
				d.a, d.b = d.b, d.a
			}
			var s M
			switch r.Intn(5) {
			case 0:
				s = M{"allOf": A{d.a, d.b}}
			case 1:
				s = M{"allOf": A{d.b}}
				for x, v := range d.a {
					s[x] = v
				}
			case 2:
				defs[fmt.Sprint("dead", k)] = d.a
				s = M{"allOf": A{M{"$ref": fmt.Sprint("#/$defs/dead", k)}, d.b}}
			case 3:
				s = M{"allOf": A{M{"allOf": A{d.a}}, M{"description": "more"}, d.b}}
			case 4:
				s = M{"allOf": A{M{"anyOf": A{d.a}}, d.b}}
			}
			alts = append(alts, s)
		}
		r.Shuffle(len(alts), func(i, j int) { alts[i], alts[j] = alts[j], alts[i] })
		base[[]string{"anyOf", "oneOf"}[r.Intn(2)]] = alts
		return base, defs
	}
	put := func(id string, r *mrand.Rand, s, defs M) {
		switch r.Intn(4) {
		case 0:
			s = M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}
		case 1:
			s = M{"type": "array", "items": s, "minItems": 1, "maxItems": 3}
		}
		if len(defs) > 0 {
			s["$defs"] = defs
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 20, Expect: Reported, Still: true}.Case())
	}
	for _, ty := range kinds {
		for i := range contradictions[ty] {
			for k := range cfg.Scale(8, 60) {
				id := fmt.Sprintf("dead-%s-%02d-%02d", ty, i, k)
				r := subRng(cfg.Seed, "V06", id)
				pairs := []dead{contradictions[ty][i]}
				if k%3 == 2 {
					pairs = append(pairs, contradictions[ty][r.Intn(len(contradictions[ty]))])
				}
				s, defs := build(r, ty, pairs)
				put(id, r, s, defs)
			}
		}
	}
	return cases
}
