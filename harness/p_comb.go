package main

import (
	"fmt"
	"maps"
	"strings"

	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// matcherFor says which of the alternatives a value satisfies
func matcherFor(alts A, defs M) func(v any) []int {
	compiled := []*js.Schema{}
	for _, a := range alts {
		s := M{}
		for k, v := range a.(M) {
			s[k] = v
		}
		if defs != nil {
			s["$defs"] = defs
		}
		sch, err := compileOracle(toJSON(s), "", nil)
		if err != nil {
			panic("harness: " + err.Error())
		}
		compiled = append(compiled, sch)
	}
	return func(v any) []int {
		out := []int{}
		for i, c := range compiled {
			if c.Validate(v) == nil {
				out = append(out, i)
			}
		}
		return out
	}
}

// altCase checks the alternatives of an anyOf/oneOf directly, and that none of the wanted ones stays unused
func altCase(id, keyword string, s M, n int, reach bool, expect ...Expect) Case {
	e := Clean
	if len(expect) > 0 {
		e = expect[0]
	}
	alts := s[keyword].(A)
	defs, _ := s["$defs"].(M)
	base := M{}
	for k, v := range s {
		if k != keyword {
			base[k] = v
		}
	}
	match := matcherFor(alts, defs)
	hits := make([]int, len(alts))
	return Case{ID: id, Run: func(t *T) {
		for i := range hits {
			hits[i] = 0
		}
		total := 0
		SchemaCase{ID: id, Schema: toJSON(s), N: n, Expect: e, Monitor: func(v any, raw []byte) string {
			m := match(v)
			total++
			for _, i := range m {
				hits[i]++
			}
			if len(m) == 0 {
				return "no alternative is satisfied"
			}
			if keyword == "oneOf" && len(m) != 1 {
				return fmt.Sprintf("alternatives %v are satisfied at once", m)
			}
			return ""
		}}.run(t)
		if !reach || t.Failed() {
			return
		}
		for i, h := range hits {
			if h == 0 {
				t.Violate("unreachable", toJSON(s), fmt.Sprint(hits), "alternative %d was never chosen in %d generations", i, total)
			} else {
				t.Event("alternatives", fmt.Sprint(i))
			}
		}
	}}
}

// ---- V06 anyOf and oneOf

func combCases(cfg Cfg) []Case {
	cases := []Case{}
	str, num := M{"type": "string"}, M{"type": "integer"}
	obj := func(kind string, more M) M {
		props := M{"kind": M{"const": kind}}
		req := A{"kind"}
		for k, v := range more {
			props[k] = v
			req = append(req, k)
		}
		return M{"type": "object", "properties": props, "required": req}
	}
	fixed := []M{
		{"anyOf": A{str, num}}, {"anyOf": A{str}}, {"anyOf": A{M{"type": "integer", "minimum": 10}, M{"type": "integer", "maximum": -10}}}, {"anyOf": A{M{"const": 1}, M{"const": 2}, M{"enum": A{3}}}}, {"anyOf": A{obj("a", M{"x": num}), obj("b", M{"y": str})}},
		{"oneOf": A{str, num}}, {"oneOf": A{num}}, {"oneOf": A{obj("a", M{"x": num}), obj("b", M{"x": str}), obj("c", nil)}}, {"oneOf": A{M{"type": "integer", "maximum": 4}, M{"type": "integer", "minimum": 3, "maximum": 8}}}, {"oneOf": A{M{"type": "integer", "minimum": 0, "maximum": 10}, M{"type": "integer", "minimum": 0, "maximum": 5}, M{"type": "string"}}},
		{"oneOf": A{M{"required": A{"a"}, "properties": M{"a": num}, "additionalProperties": false}, M{"required": A{"b"}, "properties": M{"b": num}, "additionalProperties": false}}}, {"oneOf": A{M{"type": "number"}, M{"type": "string"}, M{"type": "null"}, M{"type": "boolean"}}},
		{"type": "object", "properties": M{"k": num}, "required": A{"k"}, "oneOf": A{M{"properties": M{"k": M{"minimum": 5, "maximum": 6}}}, M{"properties": M{"k": M{"minimum": 8, "maximum": 9}}}}}, {"type": "string", "anyOf": A{M{"minLength": 60}, M{"maxLength": 5}}}, {"type": "integer", "oneOf": A{M{"minimum": 5, "maximum": 10}, M{"minimum": 20, "maximum": 30}}},
		{"type": "object", "properties": M{"c": M{"type": "boolean"}}, "required": A{"c"}, "anyOf": A{M{"properties": M{"a": num}, "required": A{"a"}}, M{"properties": M{"b": num}, "required": A{"b"}}}}, {"minimum": 3, "anyOf": A{M{"type": "integer", "maximum": 5}, M{"type": "number", "maximum": 9}}},
		{"oneOf": A{M{"type": "array", "items": num, "minItems": 1}, M{"type": "array", "items": str, "minItems": 1}}}, {"oneOf": A{M{"type": "array", "maxItems": 2}, M{"type": "array", "minItems": 3}}}, {"anyOf": A{M{"anyOf": A{str, num}}, M{"anyOf": A{M{"type": "boolean"}, M{"type": "null"}}}}}, {"oneOf": A{M{"oneOf": A{str, num}}, M{"oneOf": A{M{"type": "boolean"}, M{"type": "null"}}}}},
		{"anyOf": A{M{"oneOf": A{M{"const": 1}, M{"const": 2}}}, M{"allOf": A{M{"type": "string"}, M{"minLength": 3}}}}}, {"oneOf": A{M{"$ref": "#/$defs/a"}, M{"$ref": "#/$defs/b"}}, "$defs": M{"a": obj("a", M{"x": M{"$ref": "#/$defs/n"}}), "b": obj("b", M{"y": M{"$ref": "#/$defs/n"}}), "n": num}},
		{"oneOf": A{M{"type": "string", "format": "uuid"}, num}}, {"oneOf": A{M{"type": "string", "pattern": "^a+$"}, M{"type": "string", "pattern": "^b+$"}, num}}, {"oneOf": A{M{"enum": A{1, 2}}, M{"enum": A{2, 3}}}}, {"oneOf": A{M{"enum": A{"a", "b"}}, M{"type": "string", "minLength": 3}}},
		{"type": "object", "properties": M{"v": M{"oneOf": A{str, num}}, "w": M{"anyOf": A{str, num}}}, "required": A{"v", "w"}, "anyOf": A{M{"required": A{"v"}}, M{"required": A{"w"}}}},
		{"anyOf": A{str, M{"type": "integer", "minimum": 10, "maximum": 20}}, "oneOf": A{M{"type": "integer"}, M{"type": "boolean"}}},
	}
	for i, s := range fixed {
		for _, k := range []string{"anyOf", "oneOf"} {
			if s[k] != nil {
				// overlapping alternatives that leave some without a value of their own are not all reachable
				reach := true
				if i == len(fixed)-1 {
					reach = false
				}
				if i == 9 {
					reach = false
				}
				// the last mixes both keywords, which leaves combinations nothing satisfies: those are reported
				e := Clean
				if i == len(fixed)-1 {
					e = Any
				}
				cases = append(cases, altCase(fmt.Sprintf("fixed-%02d-%s", i, k), k, s, 240, reach, e))
			}
		}
	}
	// alternatives only their formats tell apart
	formats := []string{"email", "ipv4", "ipv6", "date", "time", "date-time", "uuid", "duration"}
	for i, a := range formats {
		for _, b := range formats[i+1:] {
			fa, fb := M{"type": "string", "format": a}, M{"type": "string", "format": b}
			for _, k := range []string{"anyOf", "oneOf"} {
				cases = append(cases, altCase(fmt.Sprintf("formats-%s-%s-%s", a, b, k), k, M{k: A{fa, fb}}, 60, true))
			}
			cases = append(cases,
				altCase(fmt.Sprintf("formats-%s-%s-def", a, b), "oneOf", M{"oneOf": A{M{"$ref": "#/$defs/a"}, M{"$ref": "#/$defs/b"}, num}, "$defs": M{"a": fa, "b": fb}}, 90, true),
				expectCase(Clean, fmt.Sprintf("formats-%s-%s-prop", a, b), M{"oneOf": A{M{"type": "object", "properties": M{"v": fa}, "required": A{"v"}}, M{"type": "object", "properties": M{"v": fb}, "required": A{"v"}}}}, 30),
				altCase(fmt.Sprintf("formats-%s-%s-base", a, b), "oneOf", M{"type": "string", "oneOf": A{M{"format": a}, M{"format": b}}}, 60, true))
		}
		cases = append(cases, altCase("formats-text-"+a, "oneOf", M{"oneOf": A{M{"type": "string", "format": a}, M{"type": "string", "maxLength": 3}}}, 60, true))
	}
	// many alternatives
	for _, n := range []int{9, 17, 33, 64} {
		values, objects, ranges := A{}, A{}, A{}
		for i := range n {
			values = append(values, M{"const": fmt.Sprintf("v%d", i)})
			objects = append(objects, obj(fmt.Sprintf("k%d", i), M{fmt.Sprintf("x%d", i): M{"type": "boolean"}}))
			ranges = append(ranges, M{"type": "integer", "minimum": i * 10, "maximum": i*10 + 8})
		}
		for _, k := range []string{"anyOf", "oneOf"} {
			for what, alts := range map[string]A{"values": values, "objects": objects, "ranges": ranges} {
				cases = append(cases, altCase(fmt.Sprintf("many-%d-%s-%s", n, k, what), k, M{k: alts}, 30*n, true))
			}
		}
	}
	// in the places schemas are used
	for i, s := range fixed {
		if s["$defs"] != nil {
			continue
		}
		e := Clean
		if i == len(fixed)-1 {
			e = Any
		}
		cases = append(cases,
			expectCase(e, fmt.Sprintf("prop-%02d", i), M{"type": "object", "properties": M{"p": s, "q": s}, "required": A{"p"}}, 40),
			expectCase(e, fmt.Sprintf("item-%02d", i), M{"type": "array", "items": s, "minItems": 2, "maxItems": 4}, 40),
			expectCase(e, fmt.Sprintf("def-%02d", i), M{"$defs": M{"d": s}, "type": "object", "properties": M{"p": M{"$ref": "#/$defs/d"}}, "required": A{"p"}}, 40),
			expectCase(e, fmt.Sprintf("alt-%02d", i), M{"anyOf": A{s, M{"type": "null"}}}, 40),
		)
	}
	for i, s := range []M{
		{"oneOf": A{str, str}}, {"anyOf": A{M{"type": "integer", "minimum": 3, "maximum": 2}}}, {"oneOf": A{M{"type": "integer", "minimum": 3, "maximum": 2}}}, {"type": "string", "anyOf": A{num, M{"type": "null"}}},
	} {
		if i == 0 {
			// nothing satisfies exactly one of two equal alternatives: values must not pretend to
			cases = append(cases, SchemaCase{ID: "equal-alternatives", Schema: toJSON(s), Expect: Any, Markers: true, N: 30}.Case())
			continue
		}
		cases = append(cases, reportedCase(fmt.Sprintf("contradiction-%02d", i), s))
	}
	for i := range cfg.Scale(1200, 20000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V06", id), "multi", "anyOf", "oneOf", "ref")
		switch i % 4 {
		case 0:
			s := g.Root(g.AnyOf(2))
			cases = append(cases, altCase(id, "anyOf", s, 30, false))
		case 1, 2:
			s := g.Root(g.OneOf(2))
			cases = append(cases, altCase(id, "oneOf", s, 120, true))
		default: // overlapping integer ranges with an own part each
			n := g.n(2, 4)
			alts := A{}
			at := g.n(-20, 20)
			for range n {
				end := at + g.n(6, 15)
				alts = append(alts, M{"type": "integer", "minimum": at, "maximum": end})
				at = end - g.n(0, 2)
			}
			cases = append(cases, altCase(id, "oneOf", M{"oneOf": alts}, 100, true))
		}
	}
	return append(cases, deadAlternatives(cfg)...)
}

// ---- V07 allOf

func allOfCases(cfg Cfg) []Case {
	cases := []Case{}
	num := M{"type": "integer"}
	fixed := []M{
		{"allOf": A{M{"type": "integer", "minimum": 3}, M{"maximum": 5}}}, {"allOf": A{M{"type": "string"}, M{"minLength": 3}, M{"maxLength": 4}}}, {"type": "integer", "allOf": A{M{"minimum": 3}, M{"minimum": 7}, M{"maximum": 9}, M{"maximum": 20}}}, {"allOf": A{M{"type": "integer", "multipleOf": 4}, M{"multipleOf": 6}, M{"minimum": 0, "maximum": 50}}},
		{"allOf": A{M{"type": "integer", "exclusiveMinimum": 3}, M{"minimum": 3}, M{"exclusiveMaximum": 6}, M{"maximum": 6}}}, {"allOf": A{M{"type": A{"string", "integer"}}, M{"type": A{"integer", "null"}}}}, {"allOf": A{M{"type": "number"}, M{"type": "integer"}}}, {"allOf": A{M{"type": A{"number", "string"}}, M{"type": "integer"}}},
		{"allOf": A{M{"properties": M{"a": num}, "required": A{"a"}}, M{"properties": M{"b": num}, "required": A{"b"}}}}, {"allOf": A{M{"type": "object", "properties": M{"a": M{"type": "integer", "minimum": 3}}}, M{"properties": M{"a": M{"maximum": 5}}, "required": A{"a"}}}}, {"type": "object", "properties": M{"a": num}, "allOf": A{M{"required": A{"a"}}, M{"properties": M{"c": M{"type": "string"}}}}},
		{"allOf": A{M{"type": "object", "properties": M{"a": num, "b": num}, "additionalProperties": false}, M{"required": A{"a"}}}}, {"allOf": A{M{"properties": M{"a": num}}, M{"additionalProperties": M{"minimum": 3}}}, "required": A{"a"}}, {"allOf": A{M{"properties": M{"a_1": num}, "required": A{"a_1"}}, M{"patternProperties": M{"^a_": M{"minimum": 5}}}}},
		{"allOf": A{M{"minProperties": 2}, M{"maxProperties": 4}, M{"type": "object", "properties": M{"a": num}}}}, {"allOf": A{M{"minProperties": 2}, M{"minProperties": 3}, M{"type": "object", "additionalProperties": num}}},
		{"allOf": A{M{"type": "array", "items": M{"type": "integer"}}, M{"items": M{"minimum": 3}}, M{"minItems": 2}, M{"maxItems": 4}}}, {"allOf": A{M{"type": "array", "prefixItems": A{num}}, M{"prefixItems": A{M{"minimum": 5}, M{"type": "string"}}}}}, {"allOf": A{M{"type": "array", "prefixItems": A{num, num}, "items": false}, M{"items": M{"minimum": 3}}}}, {"allOf": A{M{"type": "array", "uniqueItems": true}, M{"items": M{"enum": A{1, 2, 3, 4}}, "minItems": 3}}},
		{"allOf": A{M{"allOf": A{M{"type": "integer"}, M{"minimum": 3}}}, M{"allOf": A{M{"maximum": 5}}}}}, {"allOf": A{M{"anyOf": A{M{"type": "integer"}, M{"type": "string"}}}, M{"type": "integer"}}}, {"allOf": A{M{"oneOf": A{M{"const": 1}, M{"const": 2}, M{"const": 3}}}, M{"oneOf": A{M{"const": 2}, M{"const": 3}, M{"const": 4}}}}}, {"allOf": A{M{"anyOf": A{M{"const": 1}, M{"const": 2}}}, M{"oneOf": A{M{"const": 2}, M{"const": 4}}}}},
		{"allOf": A{M{"$ref": "#/$defs/a"}, M{"$ref": "#/$defs/b"}}, "$defs": M{"a": M{"type": "object", "properties": M{"x": num}, "required": A{"x"}}, "b": M{"type": "object", "properties": M{"y": M{"$ref": "#/$defs/c"}}, "required": A{"y"}}, "c": M{"type": "string", "maxLength": 3}}},
		{"allOf": A{M{"$ref": "#/definitions/a"}, M{"properties": M{"x": M{"minimum": 5}}}}, "definitions": M{"a": M{"type": "object", "properties": M{"x": num}, "required": A{"x"}}}}, {"type": "object", "properties": M{"p": M{"allOf": A{M{"type": "integer"}, M{"minimum": 10}}}}, "required": A{"p"}}, {"type": "array", "items": M{"allOf": A{M{"type": "integer"}, M{"minimum": 10}}}, "minItems": 2},
		{"allOf": A{M{"type": "string", "format": "uuid"}, M{"description": "x"}}}, {"allOf": A{M{"type": "string", "pattern": "^a+$"}, M{"pattern": "^a+$"}}}, {"allOf": A{M{"enum": A{1, 2, 3}}, M{"enum": A{2, 3, 4}}, M{"enum": A{3, 4, 5}}}}, {"allOf": A{M{"const": M{"a": 1}}, M{"type": "object"}}}, {"allOf": A{M{}, M{"type": "null"}}}, {"allOf": A{M{"type": "boolean"}, M{"enum": A{true, 1}}}},
		{"allOf": A{M{"type": "object", "properties": M{"a": M{"properties": M{"b": M{"properties": M{"c": M{"type": "integer", "minimum": 3}}, "required": A{"c"}}}, "required": A{"b"}}}, "required": A{"a"}}, M{"properties": M{"a": M{"properties": M{"b": M{"properties": M{"c": M{"maximum": 4}}}}}}}}},
		{"allOf": A{M{"contains": M{"type": "integer", "minimum": 5}, "type": "array"}, M{"items": M{"type": "integer"}, "minItems": 2}}},
		{"allOf": A{M{"type": "array", "minItems": 1}, M{"minItems": 3}, M{"maxItems": 9}, M{"maxItems": 4}}}, {"allOf": A{M{"minLength": 5}, M{"minLength": 2}, M{"maxLength": 7}, M{"maxLength": 70}}}, {"minimum": 5, "allOf": A{M{"minimum": 3}, M{"type": "integer"}}}, {"maximum": 5, "allOf": A{M{"maximum": 8}, M{"type": "integer"}}}, {"required": A{"a"}, "allOf": A{M{"required": A{"b"}}, M{"required": A{"c", "a"}}}},
	}
	for i, s := range fixed {
		// combinations of alternatives nothing satisfies are reported, the others are still used
		e := Clean
		if i >= 21 && i <= 23 {
			e = Any
		}
		cases = append(cases, expectCase(e, fmt.Sprintf("fixed-%02d", i), s, 120))
		if s["$defs"] == nil && s["definitions"] == nil {
			cases = append(cases, expectCase(e, fmt.Sprintf("nested-%02d", i), M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}, 40),
				expectCase(e, fmt.Sprintf("twice-%02d", i), M{"allOf": A{s, s}}, 40),
				expectCase(e, fmt.Sprintf("wrapped-%02d", i), M{"allOf": A{M{"$ref": "#/$defs/d"}}, "$defs": M{"d": s}}, 40))
		}
	}
	for i, s := range []M{
		{"allOf": A{M{"type": "string"}, M{"type": "integer"}}}, {"allOf": A{M{"const": 1}, M{"const": 2}}}, {"allOf": A{M{"type": "integer", "minimum": 5}, M{"maximum": 4}}}, {"allOf": A{M{"type": "string", "minLength": 5}, M{"maxLength": 4}}}, {"allOf": A{M{"enum": A{1}}, M{"enum": A{2}}}}, {"allOf": A{M{"type": "array", "minItems": 5}, M{"maxItems": 4}}},
		{"allOf": A{M{"type": "object", "minProperties": 5}, M{"maxProperties": 4}}}, {"allOf": A{M{"type": A{"string", "null"}}, M{"type": A{"integer", "boolean"}}}}, {"allOf": A{M{"type": "object", "properties": M{"a": num}, "additionalProperties": false}, M{"required": A{"b"}}}}, {"allOf": A{M{"type": "integer", "minimum": 5}, M{"type": "integer", "exclusiveMaximum": 5}}},
		{"allOf": A{M{"type": "object", "properties": M{"a": M{"type": "string"}}, "required": A{"a"}}, M{"properties": M{"a": M{"type": "integer"}}}}},
		{"type": "string", "allOf": A{M{"type": "integer"}}},
	} {
		cases = append(cases, reportedCase(fmt.Sprintf("contradiction-%02d", i), s))
	}
	for i := range cfg.Scale(2500, 40000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V07", id), "multi", "allOf", "ref", "oneOf", "anyOf")
		var s M
		switch i % 3 {
		case 0:
			s = g.AllOf(2)
		case 1: // taken apart twice
			s = g.Split(g.Split(g.Object(2)))
		default: // two objects with different names
			a, b := g.Object(1), g.Object(1)
			ren := func(o M, suffix string) M {
				delete(o, "minProperties")
				delete(o, "maxProperties")
				delete(o, "additionalProperties")
				delete(o, "patternProperties")
				if p, ok := o["properties"].(M); ok {
					np := M{}
					for k, v := range p {
						np[k+suffix] = v
					}
					o["properties"] = np
				}
				if r, ok := o["required"].(A); ok {
					nr := A{}
					for _, k := range r {
						nr = append(nr, k.(string)+suffix)
					}
					o["required"] = nr
				}
				o["type"] = "object"
				return o
			}
			s = M{"allOf": A{ren(a, "_1"), ren(b, "_2")}}
		}
		cases = append(cases, schemaCase(id, g.Root(s), 25))
	}
	cases = append(cases, sharedParts(cfg)...)
	cases = append(cases, pairCases(cfg, "V07")...)
	cases = append(cases, wideAllOf(cfg)...)
	return cases
}

// ---- V09 conditionals

// grouped puts parts that all apply next to base: in one allOf, in allOfs
// within allOfs, and at most one of them in base itself.
func grouped(g *SG, base M, parts A) M {
	out := M{}
	maps.Copy(out, base)
	if g.p(50) {
		free := true
		first := parts[0].(M)
		for k := range first {
			if _, ok := out[k]; ok {
				free = false
			}
		}
		if free {
			maps.Copy(out, first)
			parts = parts[1:]
		}
	}
	if len(parts) == 0 {
		return out
	}
	out["allOf"] = nestedGroups(g, parts, 2)
	return out
}

func nestedGroups(g *SG, parts A, depth int) A {
	out := A{}
	for i := 0; i < len(parts); {
		n := 1
		if depth > 0 && g.p(50) {
			n = g.n(1, len(parts)-i)
			out = append(out, M{"allOf": nestedGroups(g, parts[i:i+n], depth-1)})
		} else {
			out = append(out, parts[i])
		}
		i += n
	}
	return out
}

func ifCases(cfg Cfg) []Case {
	cases := []Case{}
	branch := func(id string, s M, n int) {
		ifs := A{s["if"]}
		match := matcherFor(ifs, nil)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			var yes, no int
			SchemaCase{ID: id, Schema: toJSON(s), N: n, Monitor: func(v any, raw []byte) string {
				if len(match(v)) > 0 {
					yes++
				} else {
					no++
				}
				return ""
			}}.run(t)
			if t.Failed() {
				return
			}
			if yes == 0 || no == 0 {
				t.Violate("unreachable", toJSON(s), fmt.Sprint(yes, no), "only one side of the condition was generated (%d times true, %d times false)", yes, no)
			} else {
				t.Event("branches", "both")
			}
		}})
	}
	kind := func(vals ...any) M { return M{"kind": M{"enum": A(vals)}} }
	isKind := func(v any) M { return M{"properties": M{"kind": M{"const": v}}, "required": A{"kind"}} }
	needs := func(name string, s M) M { return M{"properties": M{name: s}, "required": A{name}} }
	str, num := M{"type": "string"}, M{"type": "integer"}
	fixed := []M{
		{"type": "object", "properties": kind("x", "y"), "required": A{"kind"}, "if": isKind("x"), "then": needs("a", num), "else": needs("b", str)},
		{"type": "object", "properties": kind("x", "y"), "required": A{"kind"}, "if": isKind("x"), "then": needs("a", num)},
		{"type": "object", "properties": kind("x", "y"), "required": A{"kind"}, "if": isKind("x"), "else": needs("a", num)},
		{"type": "object", "properties": kind("x", "y"), "if": isKind("x"), "then": needs("a", num), "else": needs("b", str)},
		{"type": "integer", "minimum": 0, "maximum": 20, "if": M{"minimum": 10}, "then": M{"multipleOf": 5}, "else": M{"multipleOf": 3}},
		{"type": "integer", "minimum": 0, "maximum": 20, "if": M{"multipleOf": 2}, "then": M{"minimum": 10}, "else": M{"maximum": 5}},
		{"type": A{"string", "integer"}, "if": M{"type": "string"}, "then": M{"minLength": 3, "maxLength": 4}, "else": M{"minimum": 5, "maximum": 6}},
		{"type": "array", "items": num, "if": M{"minItems": 3}, "then": M{"maxItems": 4}, "else": M{"minItems": 1}},
		{"enum": A{1, 2, 3, 4}, "if": M{"minimum": 3}, "then": M{"const": 4}, "else": M{"const": 1}},
		{"type": "object", "properties": M{"flag": M{"type": "boolean"}}, "required": A{"flag"}, "if": M{"properties": M{"flag": M{"const": true}}}, "then": needs("a", num), "else": M{"properties": M{"b": num}, "maxProperties": 2}},
		{"type": "object", "properties": M{"kind": M{"enum": A{"x", "y"}}, "a": num}, "required": A{"kind"}, "if": isKind("x"), "then": M{"required": A{"a"}, "properties": M{"a": M{"minimum": 5}}}},
		{"type": "object", "properties": kind("x", "y"), "required": A{"kind"}, "if": M{"not": isKind("x")}, "then": needs("a", num), "else": needs("b", str)},
		{"type": "object", "properties": kind("x", "y", "z"), "required": A{"kind"}, "if": M{"anyOf": A{isKind("x"), isKind("z")}}, "then": needs("a", num), "else": needs("b", str)},
		{"type": "object", "properties": kind("x", "y"), "required": A{"kind"}, "if": isKind("x"), "then": M{"anyOf": A{needs("a", num), needs("b", num)}}, "else": M{"oneOf": A{needs("c", num), needs("d", num)}}},
	}
	for i, s := range fixed {
		branch(fmt.Sprintf("fixed-%02d", i), s, 150)
		cases = append(cases,
			schemaCase(fmt.Sprintf("nested-%02d", i), M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}, 40),
			schemaCase(fmt.Sprintf("item-%02d", i), M{"type": "array", "items": s, "minItems": 2, "maxItems": 3}, 20),
			schemaCase(fmt.Sprintf("allof-%02d", i), M{"allOf": A{s, M{"description": "d"}}}, 40),
			schemaCase(fmt.Sprintf("ref-%02d", i), M{"$defs": M{"d": s}, "type": "object", "properties": M{"p": M{"$ref": "#/$defs/d"}, "q": M{"$ref": "#/$defs/d"}}, "required": A{"p", "q"}}, 40),
			schemaCase(fmt.Sprintf("anyof-%02d", i), M{"anyOf": A{s, M{"type": "null"}}}, 40))
	}
	// conditions about formats
	texts := M{"email": "a@example.com", "ipv4": "10.0.0.1", "ipv6": "fe80::1", "date": "2020-02-29", "time": "12:30:01Z", "date-time": "2020-02-29T12:30:01Z", "uuid": "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "duration": "P3D", "uri": "https://example.com/a"}
	for _, f := range keysOf(texts) {
		v := texts[f]
		branch("format-value-"+f, M{"enum": A{v, "plain text", "other text"}, "if": M{"format": f}, "then": M{"const": v}, "else": M{"const": "other text"}}, 40)
		branch("format-prop-"+f, M{"type": "object", "properties": M{"a": M{"enum": A{v, "plain text"}}}, "required": A{"a"}, "if": M{"properties": M{"a": M{"format": f}}}, "then": needs("b", num), "else": needs("c", str)}, 40)
		branch("format-not-"+f, M{"type": "object", "properties": M{"a": M{"enum": A{v, "plain text"}}}, "required": A{"a"}, "if": M{"properties": M{"a": M{"not": M{"format": f}}}}, "then": needs("b", num), "else": needs("c", str)}, 40)
		cases = append(cases, schemaCase("format-items-"+f, M{"type": "array", "items": M{"enum": A{v, "plain text", 5}}, "minItems": 1, "maxItems": 3, "if": M{"items": M{"type": "string", "format": f}}, "then": M{"maxItems": 2}, "else": M{"minItems": 2}}, 40))
	}
	// conditions with nothing to do
	for i, s := range []M{
		{"type": "integer", "minimum": 0, "maximum": 5, "if": M{"minimum": 3}, "then": M{"minimum": 0}}, {"type": "string", "then": M{"minLength": 500}}, {"type": "string", "else": M{"minLength": 500}}, {"type": "string", "if": M{"type": "integer"}, "then": M{"maximum": 5}},
		{"type": "string", "if": M{"type": "string"}, "then": M{"maxLength": 5}, "else": M{"maxLength": 0}},
	} {
		cases = append(cases, schemaCase(fmt.Sprintf("plain-%02d", i), s, 60))
	}
	// several conditions at once
	for i := range cfg.Scale(300, 4000) {
		id := fmt.Sprintf("several-%04d", i)
		g := newSG(subRng(cfg.Seed, "V09", id), "multi")
		n := g.n(2, 4)
		props, all, req := M{}, A{}, A{}
		for j := range n {
			k := fmt.Sprintf("k%d", j)
			props[k] = M{"enum": A{"x", "y", 3}}
			req = append(req, k)
			c := M{"if": M{"properties": M{k: M{"const": pick(g.r, any("x"), any("y"), any(3))}}, "required": A{k}}}
			if g.p(80) {
				c["then"] = needs(fmt.Sprintf("t%d", j), g.Schema(1))
			}
			if c["then"] == nil || g.p(60) {
				c["else"] = needs(fmt.Sprintf("e%d", j), g.Schema(1))
			}
			all = append(all, c)
		}
		cases = append(cases, schemaCase(id, grouped(g, M{"type": "object", "properties": props, "required": req}, all), 30))
	}
	// several conditions about one number
	for i := range cfg.Scale(300, 4000) {
		id := fmt.Sprintf("several-numbers-%04d", i)
		g := newSG(subRng(cfg.Seed, "V09", id), "multi")
		all := A{}
		for range g.n(2, 4) {
			k := g.n(2, 28)
			c := M{"if": pick(g.r, M{"minimum": k}, M{"maximum": k}, M{"exclusiveMinimum": k})}
			// every branch leaves the number or an end of the range to choose from
			side, other := M{"not": M{"enum": A{k - 1, k + 1}}}, M{"not": M{"const": k + 2}}
			if g.p(70) {
				c["then"] = side
			}
			if c["then"] == nil || g.p(60) {
				c["else"] = other
			}
			all = append(all, c)
		}
		base := M{"type": "integer", "minimum": 0, "maximum": 30}
		cases = append(cases, schemaCase(id, grouped(g, base, all), 60))
	}
	// exactly the values that conditions - some of which lack their if - leave of a few
	for i := range cfg.Scale(320, 5000) {
		id := fmt.Sprintf("left-%05d", i)
		r := subRng(cfg.Seed, "V09", id)
		hi := 4 + r.Intn(6)
		about := func() M {
			k := r.Intn(hi + 1)
			return pick(r, M{"minimum": k}, M{"maximum": k}, M{"exclusiveMaximum": k + 1}, M{"exclusiveMinimum": k - 1}, M{"const": k}, M{"enum": A{k, (k + 2) % (hi + 1), "x"}}, M{"not": M{"const": k}}, M{"multipleOf": 2 + r.Intn(2)})
		}
		condition := func() M {
			switch r.Intn(5) {
			case 0:
				return M{"if": about(), "then": about()}
			case 1:
				return M{"if": about(), "else": about()}
			case 2:
				return M{pick(r, "then", "else"): about()}
			}
			return M{"if": about(), "then": about(), "else": about()}
		}
		base := M{"type": "integer", "minimum": 0, "maximum": hi}
		conditions := A{}
		for range 1 + r.Intn(3) {
			conditions = append(conditions, condition())
		}
		s := M{}
		putAll(s, base)
		switch {
		case len(conditions) == 1 && r.Intn(3) > 0:
			putAll(s, conditions[0].(M))
		case r.Intn(2) == 0:
			putAll(s, conditions[0].(M))
			if len(conditions) > 1 {
				s["allOf"] = conditions[1:]
			}
		default:
			s["allOf"] = conditions
		}
		oracle, err := compileOracle(toJSON(s), "mem:///left.json", nil)
		if err != nil {
			panic(err)
		}
		left := map[string]bool{}
		for n := range hi + 1 {
			if oracle.Validate(float64(n)) == nil {
				left[fmt.Sprint(n)] = true
			}
		}
		if len(left)*10 < hi*(3+2*len(conditions)) { // finding the few that are left takes luck
			continue
		}
		got, text := map[string]bool{}, toJSON(s)
		cases = append(cases, SchemaCase{ID: id, Schema: text, N: 1200, NoOracle: true, Opts: []GenOpt{{Name: "default"}}, SkipReported: true, Expect: Any, Monitor: func(v any, raw []byte) string {
			if !left[string(raw)] {
				return fmt.Sprintf("%s is none of the %d values the conditions leave", raw, len(left))
			}
			got[string(raw)] = true
			return ""
		}, Final: func(t *T, _ map[string]int) {
			for n := range left {
				if len(got) > 0 && !got[n] {
					t.Violate("unreachable", text, fmt.Sprint(got), "%s is one of the %d values the conditions leave and never generated", n, len(left))
					return
				}
			}
			t.Event("exactly left", fmt.Sprint(len(left)))
		}}.Case())
	}
	for i := range cfg.Scale(1200, 20000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V09", id), "multi", "oneOf", "anyOf", "ref")
		s := g.If(2)
		if len(g.defs) > 0 {
			cases = append(cases, schemaCase(id, g.Root(s), 60))
		} else {
			branch(id, s, 60)
		}
	}
	cases = append(cases, wideIfs(cfg)...)
	return cases
}

var _ = strings.TrimSpace

func init() {
	register(Check{Prop: "V06", Rule: "a distinct value generated for one schema with alternatives, matched against every alternative on its own; plus each alternative seen", Cases: combCases})
	register(Check{Prop: "V07", Rule: "a distinct value generated for one combined schema and option set that the validator accepted for every combined member", Cases: allOfCases})
	register(Check{Prop: "V09", Rule: "a distinct value generated for one conditional schema, accepted by the validator; plus both sides of the condition seen", Cases: ifCases})
}
