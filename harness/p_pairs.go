package main

import (
	"fmt"
	mrand "math/rand"
	"strings"
)

// Fragments around witnesses: every fragment of a family accepts the witness of the family, so that each combination of
// fragments is satisfiable whatever they are. That makes "no error and only valid values" decidable for every pair and triple.

type family struct {
	name    string
	witness any
	frags   []M
}

func families() []family {
	num := M{"type": "integer"}
	return []family{
		{"integer", 12, []M{
			{"type": "integer"}, {"type": "number"}, {"type": A{"integer", "string"}}, {"type": A{"null", "number"}},
			{"minimum": 0}, {"minimum": 12}, {"minimum": 11.5}, {"exclusiveMinimum": 3}, {"exclusiveMinimum": 11}, {"exclusiveMinimum": 11.5}, {"maximum": 12}, {"maximum": 40}, {"maximum": 12.5}, {"exclusiveMaximum": 13}, {"exclusiveMaximum": 50},
			{"multipleOf": 2}, {"multipleOf": 3}, {"multipleOf": 4}, {"multipleOf": 6}, {"minimum": 5, "maximum": 15, "type": "integer"}, {"type": "number", "minimum": 11, "exclusiveMaximum": 60},
			{"enum": A{12, "12", true, 5, nil}}, {"enum": A{12, 24, 36, 1}}, {"enum": A{"12", 12}}, {"const": 12}, {"enum": A{12}},
			{"not": M{"const": 5}}, {"not": M{"type": "string"}}, {"not": M{"minimum": 20}}, {"not": M{"enum": A{24, 36}}},
			{"anyOf": A{M{"minimum": 10}, M{"const": 3}}}, {"oneOf": A{M{"maximum": 12}, M{"minimum": 14}}}, {"anyOf": A{M{"type": "integer", "maximum": 20}, M{"type": "integer", "minimum": 30}}},
			{"if": M{"minimum": 10}, "then": M{"maximum": 40}, "else": M{"minimum": 1}}, {"allOf": A{M{"maximum": 24}, M{"minimum": 3}}},
		}},
		{"string", "abcd", []M{
			{"type": "string"}, {"type": A{"string", "null"}}, {"minLength": 2}, {"minLength": 4}, {"maxLength": 4}, {"maxLength": 30}, {"minLength": 1, "maxLength": 9}, {"type": "string", "minLength": 3},
			{"enum": A{"abcd", "xyz", "abcde", 3}}, {"enum": A{"abcd", "ab"}}, {"const": "abcd"}, {"not": M{"const": "xyz"}}, {"not": M{"type": "integer"}}, {"not": M{"minLength": 20}}, {"not": M{"maxLength": 2}},
			{"anyOf": A{M{"maxLength": 8}, M{"minLength": 40}}}, {"oneOf": A{M{"type": "string", "maxLength": 5}, M{"type": "string", "minLength": 6}}}, {"if": M{"minLength": 4}, "then": M{"maxLength": 12}}, {"not": M{"enum": A{"ab", "xyz"}}},
		}},
		{"array", A{12, 14, 12}, []M{
			{"type": "array"}, {"type": A{"array", "null"}}, {"items": M{"type": "integer"}}, {"items": M{"minimum": 10}}, {"items": M{"type": "integer", "maximum": 20}}, {"items": M{"type": "number", "exclusiveMaximum": 30, "exclusiveMinimum": 3}},
			{"minItems": 1}, {"minItems": 3}, {"maxItems": 3}, {"maxItems": 9}, {"minItems": 2, "maxItems": 4},
			{"prefixItems": A{num}}, {"prefixItems": A{M{"minimum": 12}, num}}, {"prefixItems": A{num, M{"maximum": 14}, M{"type": "integer", "multipleOf": 2}}}, {"prefixItems": A{M{}, M{"type": "number"}}, "items": M{"type": "integer"}}, {"prefixItems": A{num, num, num}, "items": false},
			{"prefixItems": A{num}, "items": M{"minimum": 12, "type": "number"}},
			{"items": M{"enum": A{12, 14, 16, "12"}}}, {"items": M{"anyOf": A{M{"maximum": 12}, M{"minimum": 14}}}}, {"items": M{"not": M{"const": 13}}},
			{"anyOf": A{M{"minItems": 3}, M{"maxItems": 1}}}, {"oneOf": A{M{"maxItems": 4}, M{"minItems": 5}}}, {"uniqueItems": false}, {"if": M{"minItems": 3}, "then": M{"maxItems": 6}},
		}},
		{"unique", A{12, 14, 16}, []M{
			{"type": "array"}, {"uniqueItems": true}, {"items": M{"type": "integer"}}, {"items": M{"minimum": 10, "maximum": 40}}, {"minItems": 3}, {"maxItems": 3}, {"minItems": 1, "maxItems": 8}, {"prefixItems": A{num, M{"minimum": 12}}}, {"items": M{"enum": A{12, 14, 16, 18, 20}}}, {"type": "array", "items": M{"type": "integer", "multipleOf": 2}},
		}},
		{"object", M{"a": 12, "b": "abcd"}, []M{
			{"type": "object"}, {"type": A{"object", "string"}}, {"required": A{"a"}}, {"required": A{"b"}}, {"required": A{"a", "b"}}, {"required": A{"b", "a"}},
			{"properties": M{"a": M{"type": "integer"}}}, {"properties": M{"a": M{"minimum": 12}}}, {"properties": M{"a": M{"type": "number", "maximum": 40}, "b": M{"type": "string"}}}, {"properties": M{"b": M{"minLength": 4, "maxLength": 20}}}, {"properties": M{"a": M{"exclusiveMinimum": 11}}, "required": A{"a"}}, {"properties": M{"a": M{"exclusiveMinimum": 1}}, "required": A{"a"}},
			{"properties": M{"a": M{"type": "integer"}, "b": M{"type": "string"}}, "additionalProperties": false}, {"properties": M{"a": M{"maximum": 99}, "b": M{"maxLength": 99}, "c": M{}}, "additionalProperties": false},
			{"properties": M{"a": M{"type": "integer"}}, "additionalProperties": M{"type": "string"}}, {"properties": M{"b": M{"type": "string"}}, "additionalProperties": M{"type": "integer"}}, {"additionalProperties": M{"type": A{"integer", "string"}}}, {"additionalProperties": true}, {"properties": M{"b": M{}}, "additionalProperties": M{"minimum": 10, "type": "number"}},
			{"patternProperties": M{"^a": M{"type": "integer"}}}, {"patternProperties": M{"^b$": M{"type": "string"}}, "required": A{"b"}}, {"patternProperties": M{"^[ab]$": M{"type": A{"integer", "string"}}}, "additionalProperties": false},
			{"minProperties": 1}, {"minProperties": 2}, {"maxProperties": 2}, {"maxProperties": 5}, {"minProperties": 1, "maxProperties": 3},
			{"anyOf": A{M{"required": A{"a"}}, M{"required": A{"c"}}}}, {"oneOf": A{M{"required": A{"a"}, "properties": M{"a": M{"type": "integer"}}}, M{"required": A{"a"}, "properties": M{"a": M{"type": "string"}}}}},
			{"properties": M{"a": M{"enum": A{12, 13, "a"}}}}, {"properties": M{"a": M{"enum": A{12, 15}}}, "required": A{"a"}}, {"properties": M{"a": M{"not": M{"const": 3}}, "b": M{"const": "abcd"}}},
			{"if": M{"required": A{"a"}}, "then": M{"properties": M{"b": M{"type": "string"}}}}, {"if": M{"properties": M{"a": M{"minimum": 5}}, "required": A{"a"}}, "then": M{"required": A{"b"}}}, {"not": M{"required": A{"z"}}}, {"allOf": A{M{"required": A{"a"}}, M{"maxProperties": 4}}},
		}},
	}
}

// combine puts fragments together in one of several equivalent ways
func combine(r *mrand.Rand, way int, frags ...M) M {
	fs := A{}
	for _, f := range frags {
		fs = append(fs, clone(f))
	}
	switch way % 6 {
	case 0:
		return M{"allOf": fs}
	case 1: // the last one next to the allOf
		s := clone(frags[len(frags)-1]).(M)
		if s["allOf"] != nil {
			return M{"allOf": fs}
		}
		s["allOf"] = fs[:len(fs)-1]
		return s
	case 2: // references
		defs := M{}
		refs := A{}
		for i, f := range fs {
			defs[fmt.Sprintf("d%d", i)] = f
			refs = append(refs, M{"$ref": fmt.Sprintf("#/$defs/d%d", i)})
		}
		return M{"allOf": refs, "$defs": defs}
	case 3: // nested
		s := M{"allOf": A{fs[len(fs)-1]}}
		for i := len(fs) - 2; i >= 0; i-- {
			s = M{"allOf": A{fs[i], s}}
		}
		return s
	case 4: // below a property
		return M{"allOf": A{M{"type": "object", "properties": M{"p": fs[0]}, "required": A{"p"}}, M{"type": "object", "properties": M{"p": M{"allOf": fs[1:]}}}}}
	default: // in an alternative next to the others
		return M{"anyOf": A{M{"allOf": fs[:1]}}, "allOf": fs[1:]}
	}
}

func pairCases(cfg Cfg, prop string) []Case {
	cases := []Case{}
	add := func(f family, id string, s M, n int, frags ...M) {
		sc := SchemaCase{ID: id, Schema: toJSON(s), N: n}
		alts, tests, patterns, multiples := 0, 0, 0, 0
		for _, f := range frags {
			raw := toJSON(f)
			if strings.Contains(raw, "patternProperties") {
				patterns++
			}
			if strings.Contains(raw, "multipleOf") {
				multiples++
			}
			if strings.Contains(raw, "Of\":[") {
				alts++
			}
			if strings.Contains(raw, "\"not\"") || strings.Contains(raw, "\"if\"") {
				tests++
			}
		}
		if patterns > 1 { // overlapping patterns, see DESIGN.md
			sc.Expect, sc.NoOracle = Any, true
		}
		if alts > 0 {
			// alternatives the others rule out are reported and left out
			sc.Tolerate = func(e string) bool {
				return strings.Contains(e, "anyOf sub-schema") || strings.Contains(e, "oneOf sub-schema") || strings.Contains(e, "/anyOf/") || strings.Contains(e, "/oneOf/")
			}
		}
		// contradictions between the schemas of optional parts are reported, with no claim about the values
		sc.SkipIf = func(e string) bool {
			return strings.Contains(e, "config_merge_error") && (alts > 0 || f.name == "object") || alts > 0 && tests > 0
		}
		// tests of generated values may fail where alternatives are ruled out by them alone
		sc.Markers = (alts > 0 || multiples > 0) && tests > 0
		cases = append(cases, sc.Case())
	}
	for _, f := range families() {
		at := 0
		for i, a := range f.frags {
			for j, b := range f.frags {
				id := fmt.Sprintf("pair-%s-%02d-%02d", f.name, i, j)
				r := subRng(cfg.Seed, prop, id)
				ways := 1
				if cfg.Thorough() {
					ways = 6
				}
				at++
				for w := range ways {
					add(f, fmt.Sprintf("%s-%d", id, (at+w)%6), combine(r, at+w, a, b), cfg.Scale(9, 24), a, b)
				}
			}
		}
		for k := range cfg.Scale(150, 3000) {
			id := fmt.Sprintf("triple-%s-%04d", f.name, k)
			r := subRng(cfg.Seed, prop, id)
			n := 3 + r.Intn(2)
			fs := []M{}
			for range n {
				fs = append(fs, f.frags[r.Intn(len(f.frags))])
			}
			add(f, id, combine(r, r.Intn(6), fs...), cfg.Scale(9, 24), fs...)
		}
	}
	return cases
}
