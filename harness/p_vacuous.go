package main

import (
	"fmt"
	mrand "math/rand"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// anyNegatable builds a schema of any kind for values such as v, also of keywords that can not be negated one by one
func (g *SG) anyNegatable(u notUniverse, depth int) M {
	if g.p(45) {
		return g.negatable(u, depth)
	}
	v := pick(g.r, u.pool...)
	switch x := v.(type) {
	case M:
		k := pick(g.r, append(keysOf(x), "zz")...)
		switch g.r.Intn(8) {
		case 0:
			return M{"patternProperties": M{"^" + k[:min(1, len(k))]: M{"type": typeName(x[k])}}}
		case 1:
			return M{"additionalProperties": false, "properties": M{k: M{}}}
		case 2:
			return M{"type": "object", "additionalProperties": M{"type": pick(g.r, "string", "integer")}}
		case 3:
			return M{"if": M{"required": A{k}}, "then": M{"maxProperties": 1}, "else": M{"minProperties": 1}}
		case 4, 5:
			return M{"dependentRequired": M{k: A{"zz"}}}
		case 6:
			return M{"minProperties": 1, "maxProperties": g.n(1, 3)}
		}
		return M{"type": "object", "not": M{"required": A{k}}}
	case A:
		switch g.r.Intn(6) {
		case 0:
			return M{"uniqueItems": true}
		case 1:
			return M{"type": "array", "uniqueItems": true}
		case 2:
			return M{"contains": M{"type": pick(g.r, "string", "integer", "null")}}
		case 3:
			return M{"prefixItems": A{M{"type": pick(g.r, "string", "integer")}}, "items": pick(g.r, M{"type": "string"}, M{"const": 1})}
		case 4:
			return M{"minItems": 1, "maxItems": g.n(1, 3)}
		}
		return M{"items": M{"type": pick(g.r, "string", "integer")}}
	case string:
		switch g.r.Intn(4) {
		case 0:
			return M{"minLength": g.n(0, 4), "maxLength": g.n(3, 8)}
		case 1:
			return M{"minLength": len(x)}
		case 2:
			return M{"pattern": pick(g.r, "[a-m]$", "^[^0-9]*$", "a|e", ".{3}"), "type": "string"}
		}
		return M{"maxLength": len(x)}
	case int:
		switch g.r.Intn(4) {
		case 0:
			return M{"minimum": x, "maximum": x}
		case 1:
			return M{"exclusiveMinimum": x - 2, "exclusiveMaximum": x + g.n(1, 4)}
		case 2:
			return M{"type": pick(g.r, "integer", "number"), "multipleOf": g.n(1, 3)}
		}
		return M{"allOf": A{M{"minimum": x - 1}, M{"maximum": x + 1}}}
	}
	return M{"type": A{typeName(v), "integer"}}
}

// leftOf lists the values of a pool that a schema accepts
func leftOf(schema any, pool A) A {
	oracle, err := compileOracle(toJSON(schema), "", nil)
	if err != nil {
		panic("harness: " + err.Error() + " " + toJSON(schema))
	}
	left := A{}
	for _, v := range pool {
		iv, _ := js.UnmarshalJSON(strReader(toJSON(v)))
		if oracle.Validate(iv) == nil {
			left = append(left, v)
		}
	}
	return left
}

// listedNots: exactly the values of an enum (or const) that none of the negated schemas accepts are generated, all of them
func listedNots(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(260, 6000) {
		id := fmt.Sprintf("listed-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		g := newSG(r)
		u := g.notUniverse()
		pool := A{}
		used := map[string]bool{}
		for _, k := range r.Perm(len(u.pool)) {
			if v := u.pool[k]; !used[canon(v)] && len(pool) < 9 {
				used[canon(v)] = true
				pool = append(pool, v)
			}
		}
		nots := A{}
		for range 1 + r.Intn(3) {
			nots = append(nots, g.anyNegatable(u, 1))
		}
		if i%9 == 8 {
			// nothing at all is left
			nots = append(nots, pick(r, any(M{}), any(M{"title": "anything"}), any(M{"enum": pool}), any(M{"not": M{"enum": A{"zzzz"}}})))
		}
		members := A{}
		for _, n := range nots {
			members = append(members, M{"not": n})
		}
		left := leftOf(M{"allOf": members}, pool)
		if i%9 != 8 && len(left) == len(pool) {
			continue
		}
		var s M
		base := M{"enum": pool}
		if i%11 == 10 {
			pool = pool[:1]
			base = M{"const": pool[0]}
			left = leftOf(M{"allOf": members}, pool)
		}
		switch r.Intn(4) {
		case 0:
			s = M{"allOf": members}
			putAll(s, base)
		case 1:
			s = M{"allOf": append(members, base)}
		case 2:
			s = M{"not": nots[0], "allOf": members[1:]}
			putAll(s, base)
			if len(members) == 1 {
				delete(s, "allOf")
			}
		case 3:
			s = M{"allOf": A{base, M{"allOf": members}}}
		}
		if len(left) == 0 {
			cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 10, Opts: notOpts()[:1], Expect: Reported}.Case())
			continue
		}
		s, at := wrapped(r, s)
		want := map[string]bool{}
		for _, v := range left {
			want[canon(v)] = true
		}
		seenLeft := map[string]bool{}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 30 * len(left), Opts: notOpts()[:2], Tolerate: onDefinition, Monitor: func(v any, raw []byte) string {
			c := canon(at(v))
			seenLeft[c] = true
			if !want[c] {
				return fmt.Sprintf("%s is none of the %d values that are left", raw, len(left))
			}
			return ""
		}, Final: func(t *T, _ map[string]int) {
			if len(seenLeft) < len(want) {
				t.Violate("unreachable", toJSON(s), fmt.Sprint(len(seenLeft)), "%d values are left but only %d were generated", len(want), len(seenLeft))
			}
			t.Count("lists filtered exactly", 1)
		}}.Case())
	}
	return cases
}

// onDefinition tells reports about a definition, that is also parsed without the list next to its reference
func onDefinition(e string) bool {
	return strings.Contains(e, "-> #/$defs/")
}

func putAll(into, from M) {
	for k, v := range from {
		into[k] = v
	}
}

// wrapped puts a schema somewhere where its values are always generated
func wrapped(r *mrand.Rand, s M) (M, func(v any) any) {
	switch r.Intn(5) {
	case 0:
		return M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}, func(v any) any { return at(v, "p") }
	case 1:
		return M{"type": "array", "items": s, "minItems": 1, "maxItems": 1}, func(v any) any { return at(v, 0) }
	case 2:
		return M{"$defs": M{"d": s}, "$ref": "#/$defs/d"}, func(v any) any { return v }
	}
	return s, func(v any) any { return v }
}

func at(v any, key any) any {
	switch k := key.(type) {
	case string:
		if m, ok := v.(map[string]any); ok {
			return m[k]
		}
	case int:
		if a, ok := v.([]any); ok && k < len(a) {
			return a[k]
		}
	}
	return nil
}

// a value for every keyword and the type it limits
var keywordOf = []struct {
	typ, key string
	vals     []any
}{
	{"string", "minLength", A{3, 1, 20}}, {"string", "maxLength", A{3, 0, 50}}, {"string", "pattern", A{"^a", "b$"}}, {"string", "format", A{"email", "ipv4"}},
	{"integer", "minimum", A{3, -4}}, {"integer", "maximum", A{8, 4}}, {"integer", "exclusiveMinimum", A{2, 5}}, {"integer", "exclusiveMaximum", A{8, 6}}, {"integer", "multipleOf", A{2, 3}},
	{"number", "minimum", A{3, -4}}, {"number", "maximum", A{8, 4}}, {"number", "exclusiveMinimum", A{2, 5}}, {"number", "exclusiveMaximum", A{8, 6}}, {"number", "multipleOf", A{2, 3}},
	{"array", "minItems", A{2, 1}}, {"array", "maxItems", A{3, 1}}, {"array", "uniqueItems", A{true, false}}, {"array", "items", A{M{"type": "string"}, M{"type": "integer"}, M{"const": 1}, A{M{"type": "string"}}, A{}}},
	{"array", "prefixItems", A{A{M{"type": "string"}}, A{M{"type": "integer"}, M{"const": 1}}}}, {"array", "contains", A{M{"type": "string"}, M{"const": 1}}}, {"array", "additionalItems", A{M{"type": "string"}, false, true}},
	{"array", "unevaluatedItems", A{false, M{"type": "string"}, true}}, {"array", "minContains", A{1, 2}}, {"array", "maxContains", A{1, 2}},
	{"object", "properties", A{M{"a": M{"type": "string"}}, M{"a": M{"const": 1}}, M{"b": M{"uniqueItems": true}}, M{}}}, {"object", "required", A{A{"a"}, A{"a", "b"}, A{}}},
	{"object", "minProperties", A{1, 2}}, {"object", "maxProperties", A{3, 1}}, {"object", "patternProperties", A{M{"^a": M{"type": "string"}}, M{"b": M{}}, M{}}},
	{"object", "additionalProperties", A{false, M{"type": "string"}, true}}, {"object", "dependentRequired", A{M{"a": A{"b"}}, M{}}}, {"object", "dependentSchemas", A{M{"a": M{"required": A{"b"}}}, M{}}},
	{"object", "unevaluatedProperties", A{false, true}}, {"object", "propertyNames", A{M{"maxLength": 3}}},
	{"", "enum", A{A{1, 2}, A{1, "a", nil}, A{}}}, {"", "const", A{1, nil, "a"}}, {"", "type", A{"string", A{"string", "null"}, A{}, "integer"}},
	{"", "allOf", A{A{M{"type": "string"}}, A{}, A{M{"minimum": 1}, M{"maximum": 3}}}}, {"", "anyOf", A{A{M{"type": "string"}, M{"type": "integer"}}, A{}}}, {"", "oneOf", A{A{M{"type": "string"}, M{"type": "integer"}}, A{}}},
	{"", "not", A{M{}, M{"type": "string"}, M{"uniqueItems": true}, M{"not": M{}}}}, {"", "if", A{M{}, M{"type": "string"}}}, {"", "then", A{M{}, M{"maxLength": 3}}}, {"", "else", A{M{"minimum": 3}}},
	{"", "$ref", A{"#/$defs/d", "#"}}, {"", "$defs", A{M{"d": M{"type": "string"}}, M{}}}, {"", "$id", A{"http://example.com/a"}},
}

// negatedTwins: every keyword next to its negation (with the same value and another one) and next to the negations of others;
// nothing but that the parser survives is claimed
func negatedTwins(cfg Cfg, group func(id string, n int, f func(t *T, r *mrand.Rand, i int))) {
	for _, k := range keywordOf {
		schemas := []string{}
		for _, a := range k.vals {
			for _, b := range k.vals {
				s := M{k.key: a, "not": M{k.key: b}}
				if k.key == "not" {
					s = M{"not": M{"not": a, "allOf": A{M{"not": b}}}}
				}
				typed := M{"type": k.typ}
				putAll(typed, s)
				if k.typ == "" {
					delete(typed, "type")
				}
				typed["$defs"] = M{"d": M{"const": 1}}
				schemas = append(schemas, toJSON(s), toJSON(typed),
					toJSON(M{"allOf": A{M{k.key: a}, M{"not": M{k.key: b}}}}),
					toJSON(M{"type": "object", "properties": M{"p": typed}, "required": A{"p"}, "not": M{"properties": M{"p": M{k.key: a}}}}),
					toJSON(M{"not": M{"not": typed}}), toJSON(M{"anyOf": A{typed, M{k.key: a}}, "not": M{k.key: b}}))
				if a == "#" || b == "#" {
					continue // validating values against a negation that refers to itself takes time exponential in their depth
				}
				schemas = append(schemas,
					toJSON(M{"type": "array", "items": typed, "contains": M{"not": M{k.key: b}}, "minItems": 1, "not": M{"items": M{k.key: a}}}))
			}
		}
		group("twins-"+k.typ+"-"+k.key, len(schemas), func(t *T, r *mrand.Rand, i int) {
			survive(t, fmt.Sprint(i), schemas[i], r, &chaff.ParserOptions{})
			t.Count("keywords next to their negation", 1)
		})
	}
	// keywords of one kind negated next to those of another
	for b := range cfg.Scale(30, 2000) {
		group(fmt.Sprintf("negated-%04d", b), 20, func(t *T, r *mrand.Rand, i int) {
			s, n := M{}, M{}
			for range 1 + r.Intn(3) {
				k := pick(r, keywordOf...)
				if k.typ != "" && r.Intn(2) == 0 {
					s["type"] = k.typ
				}
				s[k.key] = pick(r, k.vals...)
				if r.Intn(2) == 0 {
					n[k.key] = pick(r, k.vals...)
				}
			}
			for range r.Intn(3) {
				k := pick(r, keywordOf...)
				n[k.key] = pick(r, k.vals...)
			}
			if old, ok := s["not"]; ok {
				s["allOf"] = A{M{"not": old}}
			}
			s["not"] = n
			s["$defs"] = M{"d": M{"const": 1}}
			survive(t, fmt.Sprint(i), toJSON(s), r, &chaff.ParserOptions{})
		})
	}
}

// acceptAll are schemas every value of a type conforms to
func acceptAll(r *mrand.Rand, typ string) M {
	of := map[string]A{
		"string": A{M{"minimum": 3}, M{"minItems": 2}, M{"required": A{"a"}}, M{"multipleOf": 2}, M{"minLength": 0}, M{"type": A{"string", "null"}}, M{"uniqueItems": true, "type": A{"array", "string"}}},
		"number": A{M{"minLength": 3}, M{"pattern": "^a"}, M{"maxItems": 2}, M{"required": A{"a"}}, M{"format": "email"}, M{"type": A{"number", "null"}}},
		"array":  A{M{"minLength": 3}, M{"minimum": 3}, M{"required": A{"a"}}, M{"minItems": 0}, M{"uniqueItems": false}, M{"maxProperties": 2}, M{"type": "array"}},
		"object": A{M{"minLength": 3}, M{"minimum": 3}, M{"minItems": 2}, M{"minProperties": 0}, M{"required": A{}}, M{"exclusiveMaximum": 2}, M{"type": A{"object", "string"}}},
		"null":   A{M{"minLength": 3}, M{"minimum": 3}, M{"required": A{"a"}}, M{"minItems": 2}, M{"type": "null"}, M{"pattern": "^$"}},
	}
	of["integer"] = append(A{M{"type": "number"}, M{"type": A{"integer", "string"}}}, of["number"]...)
	of["boolean"] = append(A{M{"type": A{"boolean", "string"}}}, of["null"][:4]...)
	return pick(r, append(of[typ], M{}, M{"title": "t"}, M{"description": "d", "default": 3}, M{"$comment": "c"})...).(M)
}

// vacuousNots: where a negated schema accepts every value of a type nothing of that type is left;
// of a list of types the others are, and of alternatives the others
func vacuousNots(cfg Cfg) []Case {
	cases := []Case{}
	types := []string{"string", "integer", "number", "array", "object", "null", "boolean"}
	for i := range cfg.Scale(140, 3000) {
		id := fmt.Sprintf("vacuous-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		typ := types[i%len(types)]
		not := acceptAll(r, typ)
		base := M{"type": typ}
		switch typ {
		case "string":
			putAll(base, pick(r, M{}, M{"minLength": 2}, M{"maxLength": 9}, M{"pattern": "^[a-c]{3}$"}))
		case "integer", "number":
			putAll(base, pick(r, M{}, M{"minimum": 2, "maximum": 70}, M{"multipleOf": 3}))
		case "array":
			putAll(base, pick(r, M{}, M{"items": M{"type": "integer"}}, M{"minItems": 1, "maxItems": 3}))
		case "object":
			putAll(base, pick(r, M{}, M{"properties": M{"a": M{"type": "string"}}}, M{"properties": M{"a": M{"type": "string"}}, "required": A{"a"}}))
		}
		var s M
		switch r.Intn(4) {
		case 0:
			s = M{"not": not}
			putAll(s, base)
		case 1:
			s = M{"allOf": A{base, M{"not": not}}}
		case 2:
			s = M{"$defs": M{"n": not}, "not": M{"$ref": "#/$defs/n"}}
			putAll(s, base)
		case 3:
			s = M{"allOf": A{M{"not": not}, M{"title": "t"}}}
			putAll(s, base)
		}
		if _, hasRef := s["$defs"]; !hasRef {
			switch r.Intn(4) {
			case 0:
				s = M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}
			case 1:
				s = M{"type": "array", "items": s, "minItems": 1}
			}
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 5, Opts: notOpts()[:1], Expect: Reported}.Case())
	}
	// of several types those are left that the negated schema limits
	single := []struct {
		typ string
		not M
	}{
		{"string", M{"minLength": 3}}, {"string", M{"maxLength": 4}}, {"string", M{"pattern": "^a"}}, {"integer", M{"maximum": 3}}, {"integer", M{"minimum": 30}}, {"number", M{"exclusiveMaximum": 3}},
		{"array", M{"minItems": 3}}, {"array", M{"maxItems": 1}}, {"object", M{"required": A{"a"}}}, {"object", M{"maxProperties": 0}}, {"integer", M{"multipleOf": 3, "maximum": 40}},
	}
	for i := range cfg.Scale(110, 2500) {
		id := fmt.Sprintf("limited-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		c := single[i%len(single)]
		list := A{c.typ}
		for _, k := range r.Perm(len(types)) {
			t := types[k]
			if t != c.typ && !(c.typ == "number" && t == "integer") && !(c.typ == "integer" && t == "number") && len(list) < 4 {
				list = append(list, t)
			}
		}
		if list = list[:1+r.Intn(len(list))]; r.Intn(2) == 0 && len(list) > 1 {
			list[0], list[1] = list[1], list[0]
		}
		s := M{"type": list, "not": c.not}
		switch r.Intn(4) {
		case 0:
			s = M{"allOf": A{M{"type": list}, M{"not": c.not}}}
		case 1:
			s = M{"not": c.not}
		case 2:
			s = M{"type": list, "allOf": A{M{"not": c.not}}}
		}
		s, get := wrapped(r, s)
		want := c.typ
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 30, Opts: notOpts()[:2], Monitor: func(v any, raw []byte) string {
			got := typeName(get(v))
			if got != want && !(want == "integer" && got == "number") && !(want == "number" && got == "integer") {
				return fmt.Sprintf("%s: every value that is no %s conforms to the negated schema", raw, want)
			}
			return ""
		}}.Case())
	}
	return cases
}
