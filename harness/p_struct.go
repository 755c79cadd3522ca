package main

import (
	"fmt"
	"regexp"
	"strings"
)

func schemaCase(id string, s M, n int) Case {
	return SchemaCase{ID: id, Schema: toJSON(s), N: n}.Case()
}

func expectCase(e Expect, id string, s M, n int) Case {
	return SchemaCase{ID: id, Schema: toJSON(s), N: n, Expect: e}.Case()
}

func reportedCase(id string, s M) Case {
	return SchemaCase{ID: id, Schema: toJSON(s), Expect: Reported}.Case()
}

// ---- V03 objects

// objectMonitor checks names and counts independently of the validator
func objectMonitor(s M) func(v any, raw []byte) string {
	props, _ := s["properties"].(M)
	pats, _ := s["patternProperties"].(M)
	return func(v any, raw []byte) string {
		o, ok := v.(map[string]any)
		if !ok {
			return "not an object"
		}
		if req, ok := s["required"].(A); ok {
			for _, k := range req {
				if _, ok := o[k.(string)]; !ok {
					return fmt.Sprintf("required property %q is missing", k)
				}
			}
		}
		if b, ok := s["minProperties"].(int); ok && len(o) < b {
			return fmt.Sprintf("%d properties, at least %d are needed", len(o), b)
		}
		if b, ok := s["maxProperties"].(int); ok && len(o) > b {
			return fmt.Sprintf("%d properties, at most %d are allowed", len(o), b)
		}
		if s["additionalProperties"] == false {
			for k := range o {
				if _, ok := props[k]; ok {
					continue
				}
				matched := false
				for p := range pats {
					if m, err := regexp.MatchString(p, k); err == nil && m {
						matched = true
					}
				}
				if !matched {
					return fmt.Sprintf("property %q is not allowed", k)
				}
			}
		}
		return ""
	}
}

func objectCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, s M, n int) {
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: n, Monitor: objectMonitor(s)}.Case())
	}
	str, num := M{"type": "string"}, M{"type": "integer"}
	fixed := []M{
		{"type": "object"}, {"type": "object", "properties": M{}}, {"type": "object", "additionalProperties": false}, {"type": "object", "additionalProperties": num}, {"type": "object", "minProperties": 3}, {"type": "object", "maxProperties": 0},
		{"type": "object", "minProperties": 20}, {"type": "object", "minProperties": 5, "maxProperties": 5}, {"type": "object", "minProperties": 5, "maxProperties": 5, "additionalProperties": num},
		{"type": "object", "properties": M{"a": str, "b": num, "c": str}, "maxProperties": 1}, {"type": "object", "properties": M{"a": str, "b": num, "c": str}, "minProperties": 3, "additionalProperties": false}, {"type": "object", "properties": M{"a": str, "b": num}, "minProperties": 4, "additionalProperties": num},
		{"type": "object", "properties": M{"a": str, "b": num}, "required": A{"a", "b"}, "maxProperties": 2}, {"type": "object", "required": A{"x", "y"}}, {"required": A{"x"}}, {"properties": M{"a": num}}, {"minProperties": 1}, {"maxProperties": 3}, {"patternProperties": M{"^a[0-9]$": num}}, {"additionalProperties": str},
		{"type": "object", "required": A{"x"}, "additionalProperties": num}, {"type": "object", "properties": M{"a": num}, "required": A{"x"}, "additionalProperties": num}, {"type": "object", "required": A{"x_1"}, "patternProperties": M{"^x_": num}, "additionalProperties": false},
		{"type": "object", "required": A{"x_1"}, "patternProperties": M{"^x_": num}, "additionalProperties": str}, {"type": "object", "required": A{"x_1", "y"}, "patternProperties": M{"^x_": num}, "additionalProperties": str},
		{"type": "object", "properties": M{"x_1": M{"minimum": 5}}, "required": A{"x_1"}, "patternProperties": M{"^x_": M{"type": "integer", "maximum": 7}}}, {"type": "object", "properties": M{"x_1": M{"type": "integer"}}, "patternProperties": M{"^x_": M{"minimum": 5}, "1$": M{"maximum": 6}}, "required": A{"x_1"}},
		{"type": "object", "required": A{"ab"}, "patternProperties": M{"^a": M{"type": "integer", "minimum": 5}, "b$": M{"type": "integer", "maximum": 6}}},
		{"type": "object", "patternProperties": M{"^a[0-9]{3}$": num}, "minProperties": 4}, {"type": "object", "patternProperties": M{"^a[0-9]{3}$": num}, "minProperties": 4, "maxProperties": 4, "additionalProperties": false}, {"type": "object", "patternProperties": M{"^[ab]$": num}, "minProperties": 2, "additionalProperties": false},
		{"type": "object", "patternProperties": M{"^a[0-9]{3}$": num}, "maxProperties": 2}, {"type": "object", "properties": M{"b": M{"minimum": 3}}, "patternProperties": M{"^[abc]$": num}, "minProperties": 2},
		{"type": "object", "properties": M{"a": M{"type": "object", "properties": M{"b": M{"type": "object", "properties": M{"c": M{"type": "object", "required": A{"d"}}}, "required": A{"c"}}}, "required": A{"b"}}}, "required": A{"a"}},
		{"type": "object", "properties": M{"a": M{"not": M{"type": "string"}}}}, {"type": "object", "additionalProperties": true, "minProperties": 2}, {"type": "object", "properties": M{"a": M{}, "b": M{}}, "required": A{"a", "b"}},
		{"type": "object", "minProperties": 2}, {"type": "object", "properties": M{"additional_0": str, "min_filler_0": str, "fallback_0": str}, "additionalProperties": num, "minProperties": 3}, {"type": "object", "properties": M{"additional_0": str}, "required": A{"additional_0"}, "additionalProperties": num, "minProperties": 3},
		{"type": "object", "properties": M{"min_filler_0": str, "min_filler_1": str}, "additionalProperties": num, "minProperties": 4}, {"type": "object", "properties": M{"min_filler_1": num}, "minProperties": 4},
		{"type": "object", "patternProperties": M{"^additional": str}, "additionalProperties": num, "minProperties": 2}, {"type": "object", "patternProperties": M{"^min_filler": str}, "additionalProperties": num, "minProperties": 2},
	}
	for i, s := range fixed {
		add(fmt.Sprintf("fixed-%02d", i), s, 150)
	}
	for i, n := range weirdNames {
		add(fmt.Sprintf("name-%02d", i), M{"type": "object", "properties": M{n: M{"type": "integer", "minimum": 5}, "z": str}, "required": A{n}, "additionalProperties": false}, 30)
		add(fmt.Sprintf("name-nested-%02d", i), M{"type": "object", "properties": M{n: M{"type": "object", "properties": M{n: M{"enum": A{1, 2}}}, "required": A{n}}}, "required": A{n}}, 30)
	}
	for i, s := range []M{
		{"type": "object", "minProperties": 3, "maxProperties": 2}, {"type": "object", "required": A{"a", "b"}, "maxProperties": 1}, {"type": "object", "required": A{"a"}, "additionalProperties": false}, {"type": "object", "properties": M{"a": num}, "minProperties": 2, "additionalProperties": false},
		{"type": "object", "minProperties": -1}, {"type": "object", "maxProperties": -1}, {"type": "object", "patternProperties": M{"(": num}}, {"type": "object", "required": A{"y"}, "patternProperties": M{"^x": num}, "additionalProperties": false},
		{"type": "object", "required": A{"a"}, "maxProperties": 0},
	} {
		cases = append(cases, reportedCase(fmt.Sprintf("contradiction-%02d", i), s))
	}
	for i := range cfg.Scale(2500, 50000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V03", id), "multi")
		add(id, g.Object(2), 25)
	}
	// names the generator comes up with itself, where properties and patterns claim some of them
	for i := range cfg.Scale(160, 2500) {
		id := fmt.Sprintf("coined-%05d", i)
		r := subRng(cfg.Seed, "V03", id)
		prefix := pick(r, "min_filler", "additional", "fallback")
		kinds := []M{{"type": "integer"}, {"type": "string"}, {"type": "boolean"}, {"const": "k"}, {"type": "array", "maxItems": 1}}
		r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		s := M{"type": "object", "minProperties": 2 + r.Intn(8)}
		pats := M{}
		for k := range r.Intn(4) {
			from := r.Intn(4)
			pats[pick(r, fmt.Sprintf("^(p%d|%s_[%d-%d])$", k, prefix, from, from+r.Intn(3)), fmt.Sprintf("^(%s_%d|q%d{1,2})$", prefix, from, k), fmt.Sprintf("^%s_%d|^p%d$", prefix, from, k))] = kinds[k]
		}
		if len(pats) > 0 {
			s["patternProperties"] = pats
		}
		if r.Intn(2) == 0 {
			props := M{}
			for range 1 + r.Intn(2) {
				name, claimed := fmt.Sprintf("%s_%d", prefix, r.Intn(5)), 0
				for p := range pats {
					if regexp.MustCompile(p).MatchString(name) {
						claimed++
					}
				}
				if claimed < 2 {
					props[name] = M{}
				}
			}
			s["properties"] = props
		}
		if r.Intn(3) > 0 {
			s["additionalProperties"] = kinds[4]
		}
		add(id, s, 6)
	}
	cases = append(cases, wideObjects(cfg)...)
	return cases
}

// ---- V04 arrays

func arrayMonitor(s M) func(v any, raw []byte) string {
	return func(v any, raw []byte) string {
		a, ok := v.([]any)
		if !ok {
			return "not an array"
		}
		if b, ok := s["minItems"].(int); ok && len(a) < b {
			return fmt.Sprintf("%d items, at least %d are needed", len(a), b)
		}
		if b, ok := s["maxItems"].(int); ok && len(a) > b {
			return fmt.Sprintf("%d items, at most %d are allowed", len(a), b)
		}
		if pre, ok := s["prefixItems"].(A); ok && s["items"] == false && len(a) > len(pre) {
			return "items beyond a closed tuple"
		}
		if s["uniqueItems"] == true {
			seen := map[string]bool{}
			for _, e := range a {
				c := canon(e)
				if seen[c] {
					return "duplicate item " + clip(c, 100)
				}
				seen[c] = true
			}
		}
		return ""
	}
}

func arrayCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, s M, n int) {
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: n, Monitor: arrayMonitor(s)}.Case())
	}
	str, num := M{"type": "string"}, M{"type": "integer"}
	small := M{"type": "integer", "minimum": 0, "maximum": 4}
	fixed := []M{
		{"type": "array"}, {"type": "array", "items": num}, {"items": num}, {"type": "array", "minItems": 3}, {"minItems": 2}, {"maxItems": 2}, {"type": "array", "maxItems": 0}, {"type": "array", "maxItems": 1, "minItems": 1, "items": num}, {"type": "array", "items": num, "minItems": 40}, {"type": "array", "items": num, "minItems": 120, "maxItems": 120},
		{"type": "array", "prefixItems": A{num, str}}, {"prefixItems": A{num, str}}, {"type": "array", "prefixItems": A{num, str}, "items": false}, {"type": "array", "prefixItems": A{num, str}, "items": M{"type": "boolean"}, "minItems": 5}, {"type": "array", "prefixItems": A{num, str}, "items": M{"type": "boolean"}, "maxItems": 2},
		{"type": "array", "prefixItems": A{num, str}, "maxItems": 2}, {"type": "array", "prefixItems": A{num, str, num}, "items": false, "minItems": 2}, {"type": "array", "prefixItems": A{num, str}, "minItems": 1, "maxItems": 6, "items": num}, {"type": "array", "prefixItems": A{num}, "unevaluatedItems": false}, {"type": "array", "prefixItems": A{num}, "unevaluatedItems": str, "minItems": 3},
		{"type": "array", "contains": num}, {"contains": num}, {"type": "array", "contains": M{"const": 7}, "minContains": 3}, {"type": "array", "contains": M{"const": 7}, "minContains": 2, "minItems": 5}, {"type": "array", "items": M{"type": "integer"}, "contains": M{"minimum": 50}, "minContains": 2, "minItems": 3}, {"type": "array", "items": M{"type": "integer", "maximum": 10}, "contains": M{"minimum": 5}},
		{"type": "array", "contains": M{"type": "object", "required": A{"a"}, "properties": M{"a": num}}, "minItems": 2, "maxItems": 4},
		{"type": "array", "prefixItems": A{str, str}, "contains": num}, {"type": "array", "prefixItems": A{str}, "contains": num, "minContains": 2, "minItems": 4, "maxItems": 6},
		{"type": "array", "uniqueItems": true, "minItems": 5}, {"type": "array", "items": small, "uniqueItems": true}, {"type": "array", "items": small, "uniqueItems": true, "minItems": 4, "maxItems": 4}, {"type": "array", "items": M{"enum": A{"a", "b", "c"}}, "uniqueItems": true, "minItems": 3}, {"type": "array", "items": M{"type": "boolean"}, "uniqueItems": true, "minItems": 2}, {"type": "array", "items": M{"type": "boolean"}, "uniqueItems": true},
		{"type": "array", "prefixItems": A{small, small, small}, "uniqueItems": true}, {"type": "array", "prefixItems": A{small, small}, "items": small, "uniqueItems": true, "minItems": 4}, {"type": "array", "items": M{"type": "object", "properties": M{"a": M{"enum": A{1, 2, 3, 4}}}, "required": A{"a"}, "additionalProperties": false}, "uniqueItems": true, "minItems": 3},
		{"type": "array", "items": M{"type": "array", "items": M{"enum": A{0, 1}}, "minItems": 3, "maxItems": 3}, "uniqueItems": true, "minItems": 4}, {"type": "array", "items": M{"enum": A{1, "x", true, nil}}, "uniqueItems": true, "minItems": 4}, {"type": "array", "contains": M{"enum": A{1, 2, 3}}, "minContains": 3, "uniqueItems": true, "items": M{"type": "integer", "minimum": 0, "maximum": 1000}},
		{"type": "array", "items": M{"type": "array", "items": M{"type": "array", "items": num, "minItems": 2}, "minItems": 2}, "minItems": 2}, {"type": "array", "uniqueItems": false, "items": M{"const": 1}, "minItems": 3}, {"type": "array", "items": M{}, "minItems": 3},
	}
	for i, s := range fixed {
		add(fmt.Sprintf("fixed-%02d", i), s, 150)
	}
	// what has no effect without its partner, and tuples that go on without a schema
	for i := range cfg.Scale(90, 900) {
		r := subRng(cfg.Seed, "V04", fmt.Sprintf("lone-%d", i))
		s := M{"type": "array"}
		if tuple := r.Intn(4); tuple > 0 {
			s["prefixItems"] = A{M{"const": 1}, str, M{"type": "boolean"}}[:tuple]
		} else if r.Intn(3) > 0 {
			s["items"] = M{"type": "integer", "minimum": 0, "maximum": 60}
			if r.Intn(3) == 0 {
				s["additionalItems"] = pick[any](r, false, M{"type": "string"}, M{"const": 7})
			}
		}
		tuple, _ := s["prefixItems"].(A)
		if r.Intn(3) > 0 {
			s["minItems"] = len(tuple) + r.Intn(5)
		}
		if r.Intn(3) > 0 {
			least, _ := s["minItems"].(int)
			s["maxItems"] = max(len(tuple), least) + r.Intn(5)
		}
		if r.Intn(2) == 0 {
			s["uniqueItems"] = true
		}
		if r.Intn(3) > 0 {
			s["minContains"] = r.Intn(9)
		}
		if r.Intn(3) > 0 {
			s["maxContains"] = r.Intn(4)
		}
		add(fmt.Sprintf("lone-%03d", i), s, 60)
	}
	for n := 1; n <= 3; n++ {
		for least := -1; least <= 5; least++ {
			for most := -1; most <= 6; most++ {
				for tuple := 0; tuple <= 2; tuple++ {
					if most >= 0 && most < max(least, n+tuple) {
						continue
					}
					s := M{"type": "array", "contains": M{"type": "integer"}, "minContains": n}
					if least >= 0 {
						s["minItems"] = least
					}
					if most >= 0 {
						s["maxItems"] = most
					}
					if tuple > 0 {
						s["prefixItems"] = A{str, M{"type": "boolean"}}[:tuple]
					}
					add(fmt.Sprintf("contains-%d-%d-%d-%d", n, least, most, tuple), s, 15)
				}
			}
		}
	}
	// what an array contains overlaps with what its items are, each written in place or in another one
	for i, p := range []struct{ items, contains M }{
		{M{"type": "integer", "minimum": 5, "maximum": 20}, M{"minimum": 0, "maximum": 6}},
		{M{"type": "integer", "minimum": 0, "maximum": 6}, M{"type": "integer", "minimum": 5, "maximum": 20}},
		{M{"type": "integer", "multipleOf": 3, "minimum": 0, "maximum": 90}, M{"multipleOf": 5}},
		{M{"type": "number", "minimum": 1, "maximum": 2}, M{"maximum": 1.25}},
		{M{"enum": A{"a", "b", "c"}}, M{"enum": A{"c", "d", "e", "f"}}},
		{M{"type": "string", "minLength": 2, "maxLength": 9}, M{"minLength": 7}},
		{M{"type": A{"string", "integer"}}, M{"type": "integer"}},
		{M{"type": A{"null", "boolean"}}, M{"type": A{"null", "string"}}},
		{M{"type": "object", "properties": M{"a": M{"enum": A{1, 2}}}, "required": A{"a"}}, M{"properties": M{"a": M{"enum": A{2, 3, 4}}, "b": num}, "required": A{"b"}}},
		{M{"type": "object", "properties": M{"a": str}, "required": A{"a"}, "additionalProperties": M{"type": "integer"}}, M{"required": A{"b"}}},
		{M{"type": "array", "items": M{"type": "integer"}, "maxItems": 3}, M{"minItems": 2}},
	} {
		wrap := []func(M) M{
			func(m M) M { return m },
			func(M) M { return nil },
			func(m M) M { return M{"allOf": A{m}} },
			func(m M) M { return M{"anyOf": A{m}} },
			func(m M) M { return M{"oneOf": A{m}} },
			func(m M) M { return M{"description": "d", "allOf": A{M{}, m}} },
		}
		for a, wa := range wrap {
			for b, wb := range wrap {
				defs := M{}
				items, contains := wa(p.items), wb(p.contains)
				if items == nil {
					items, defs["items"] = M{"$ref": "#/$defs/items"}, p.items
				}
				if contains == nil {
					contains, defs["contains"] = M{"$ref": "#/$defs/contains"}, p.contains
				}
				s := M{"type": "array", "items": items, "contains": contains, "minContains": 1 + (a+b)%3}
				if len(defs) > 0 {
					s["$defs"] = defs
				}
				add(fmt.Sprintf("both-%02d-%d%d", i, a, b), s, 40)
			}
		}
	}
	legacy := []M{
		{"type": "array", "items": A{num, str}}, {"type": "array", "items": A{num, str}, "additionalItems": false}, {"type": "array", "items": A{num, str}, "additionalItems": M{"type": "boolean"}, "minItems": 5}, {"type": "array", "items": A{num}, "additionalItems": M{"type": "null"}, "maxItems": 3},
		{"type": "array", "items": A{small, small, small}, "uniqueItems": true, "additionalItems": false}, {"items": A{num}, "additionalItems": str, "type": "array"},
	}
	for i, s := range legacy {
		s["$schema"] = "http://json-schema.org/draft-07/schema#"
		add(fmt.Sprintf("legacy-%02d", i), s, 150)
	}
	for min := 0; min <= 12; min++ {
		for max := min; max <= min+4; max++ {
			s := M{"type": "array", "items": M{"type": "boolean"}, "minItems": min, "maxItems": max}
			add(fmt.Sprintf("sizes-%d-%d", min, max), s, 60)
			for tuple := 1; tuple <= 3; tuple++ {
				if tuple > max {
					continue
				}
				pre := A{}
				for range tuple {
					pre = append(pre, str)
				}
				add(fmt.Sprintf("tuple-sizes-%d-%d-%d", tuple, min, max), M{"type": "array", "prefixItems": pre, "items": num, "minItems": min, "maxItems": max}, 40)
			}
		}
	}
	for i, s := range []M{
		{"type": "array", "minItems": 3, "maxItems": 2}, {"type": "array", "prefixItems": A{num}, "items": false, "minItems": 2}, {"type": "array", "contains": num, "maxItems": 0}, {"type": "array", "contains": num, "minContains": 3, "maxContains": 2}, {"type": "array", "contains": num, "minContains": 3, "maxItems": 2},
		{"type": "array", "maxItems": 0, "minItems": 1},
	} {
		cases = append(cases, reportedCase(fmt.Sprintf("contradiction-%02d", i), s))
	}
	for i := range cfg.Scale(2500, 50000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V04", id), "multi")
		add(id, g.Array(2), 25)
	}
	cases = append(cases, wideArrays(cfg)...)
	cases = append(cases, legacyTuples(cfg)...)
	cases = append(cases, unevaluatedArrays(cfg)...)
	return cases
}

// ---- V10 types

func isType(v any, t string) bool {
	switch t {
	case "null":
		return v == nil
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "string":
		_, ok := v.(string)
		return ok
	case "array":
		_, ok := v.([]any)
		return ok
	case "object":
		_, ok := v.(map[string]any)
		return ok
	case "number":
		return ratOf2(v)
	case "integer":
		return ratOf2(v) && ratOf(v).IsInt()
	}
	return false
}

func ratOf2(v any) bool {
	switch v.(type) {
	case string, bool, nil, []any, map[string]any:
		return false
	}
	return ratOf(v) != nil
}

func jsonTypeOfRaw(raw string) string {
	if raw == "" {
		return ""
	}
	switch raw[0] {
	case 'n':
		return "null"
	case 't', 'f':
		return "boolean"
	case '"':
		return "string"
	case '[':
		return "array"
	case '{':
		return "object"
	}
	if !strings.ContainsAny(raw, ".e") {
		return "integer"
	}
	return "number"
}

func typeCases(cfg Cfg) []Case {
	cases := []Case{}
	all := []string{"string", "integer", "number", "boolean", "null", "array", "object"}
	for mask := 1; mask < 1<<len(all); mask++ {
		types := A{}
		for i, t := range all {
			if mask&(1<<i) != 0 {
				types = append(types, t)
			}
		}
		s := M{"type": types}
		if len(types) == 1 && mask%2 == 0 {
			s["type"] = types[0]
		}
		cases = append(cases, SchemaCase{ID: fmt.Sprintf("types-%d", mask), Schema: toJSON(s), N: 180,
			Monitor: func(v any, raw []byte) string {
				for _, t := range types {
					if isType(v, t.(string)) {
						return ""
					}
				}
				return fmt.Sprintf("%s is of none of the types %v", clip(string(raw), 100), types)
			},
			Final: func(t *T, seen map[string]int) {
				got := map[string]bool{}
				for raw := range seen {
					got[jsonTypeOfRaw(raw)] = true
				}
				for _, ty := range types {
					if ty == "number" && got["integer"] || got[ty.(string)] {
						continue
					}
					t.Violate("unreachable", toJSON(s), fmt.Sprint(got), "type %s is allowed but was never generated", ty)
				}
			}}.Case())
	}
	// types implied by the keywords
	inferred := []struct {
		s M
		t string
	}{
		{M{"properties": M{"a": M{"type": "string"}}}, "object"}, {M{"required": A{"a"}}, "object"}, {M{"minProperties": 1}, "object"}, {M{"maxProperties": 3}, "object"}, {M{"patternProperties": M{"^a": M{}}}, "object"}, {M{"additionalProperties": M{"type": "string"}}, "object"},
		{M{"pattern": "^a$"}, "string"}, {M{"format": "uuid"}, "string"}, {M{"minLength": 2}, "string"}, {M{"maxLength": 4}, "string"},
		{M{"minimum": 4}, "number"}, {M{"maximum": 4}, "number"}, {M{"exclusiveMinimum": 4}, "number"}, {M{"exclusiveMaximum": 4}, "number"}, {M{"multipleOf": 4}, "number"},
		{M{"items": M{"type": "integer"}}, "array"}, {M{"minItems": 2}, "array"}, {M{"maxItems": 2}, "array"}, {M{"contains": M{"type": "integer"}}, "array"}, {M{"prefixItems": A{M{"type": "integer"}}}, "array"}, {M{"unevaluatedItems": M{"type": "integer"}}, "array"},
	}
	for i, f := range inferred {
		for wrap := range 4 {
			s := f.s
			want := f.t
			pickv := func(v any) any { return v }
			switch wrap {
			case 1:
				s = M{"type": "object", "properties": M{"w": f.s}, "required": A{"w"}}
				pickv = func(v any) any { return v.(map[string]any)["w"] }
			case 2:
				s = M{"type": "array", "prefixItems": A{f.s}}
				pickv = func(v any) any { return v.([]any)[0] }
			case 3:
				s = M{"$defs": M{"d": f.s}, "$ref": "#/$defs/d"}
			}
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("inferred-%02d-%d", i, wrap), Schema: toJSON(s), N: 40, Monitor: func(v any, raw []byte) string {
				if !isType(pickv(v), want) {
					return fmt.Sprintf("%s is not a %s", clip(string(raw), 100), want)
				}
				return ""
			}}.Case())
		}
	}
	// lists with nothing that can be generated, and with some types that can not
	for i, d := range []M{
		{"minimum": 3, "maximum": 2}, {"minLength": 3, "maxLength": 2}, {"minItems": 3, "maxItems": 2}, {"minProperties": 3, "maxProperties": 2}, {"exclusiveMinimum": 3, "exclusiveMaximum": 3}, {"pattern": "("}, {"required": A{"a"}, "maxProperties": 0},
	} {
		t := []A{{"integer", "number"}, {"string"}, {"array"}, {"object"}, {"number", "integer"}, {"string"}, {"object"}}[i]
		for n := 1; n <= len(t); n++ {
			for wrap := range 3 {
				s := M{"type": t[:n]}
				for k, v := range d {
					s[k] = v
				}
				switch wrap {
				case 1:
					s = M{"type": "object", "properties": M{"w": s}, "required": A{"w"}}
				case 2:
					s = M{"type": "array", "items": s, "minItems": 1}
				}
				cases = append(cases, reportedCase(fmt.Sprintf("nothing-left-%02d-%d-%d", i, n, wrap), s))
			}
		}
	}
	// schemas without any keyword accept everything and yield a variety
	for i, s := range []M{{}, {"description": "x"}, {"title": "t", "default": 1, "examples": A{1}}, {"$comment": "c"}} {
		cases = append(cases, SchemaCase{ID: fmt.Sprintf("any-%d", i), Schema: toJSON(s), N: 300, Final: func(t *T, seen map[string]int) {
			got := map[string]bool{}
			for raw := range seen {
				got[jsonTypeOfRaw(raw)] = true
			}
			for _, ty := range all {
				if !got[ty] && !(ty == "number" && got["integer"]) && !(ty == "integer" && got["number"]) {
					t.Violate("unreachable", toJSON(s), fmt.Sprint(got), "type %s was never generated for an unrestricted schema", ty)
				}
			}
		}}.Case())
	}
	for i := range cfg.Scale(1500, 20000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V10", id))
		s := g.MultiType()
		// (a range of 5 to 10 holds a multiple of every step)
		for _, kv := range []struct {
			k string
			v any
		}{{"maxLength", g.n(5, 10)}, {"maximum", g.n(10, 20)}, {"minItems", 0}, {"properties", M{"p": g.Schema(1)}}, {"items", g.Schema(1)}, {"multipleOf", g.n(1, 4)}, {"required", A{"p"}}, {"uniqueItems", false}} {
			if g.p(25) {
				s[kv.k] = kv.v
			}
		}
		if len(g.defs) > 0 {
			s = g.Root(s)
		}
		cases = append(cases, schemaCase(id, s, 40))
	}
	cases = append(cases, mergedTypes(cfg)...)
	return cases
}

func init() {
	register(Check{Prop: "V03", Rule: "a distinct object generated for one schema and option set, accepted by the name/count monitor and by the validator", Cases: objectCases})
	register(Check{Prop: "V04", Rule: "a distinct array generated for one schema and option set, accepted by the size/uniqueness monitor and by the validator", Cases: arrayCases})
	register(Check{Prop: "V10", Rule: "a distinct value generated for one type list or type-less schema, of an allowed type and accepted by the validator", Cases: typeCases})
}
