package main

import (
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	"os"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	chaff "github.com/ryanolee/go-chaff"
)

// V14: parsing and generating survive any input.

var allKeywords = []string{
	"type", "length", "properties", "additionalProperties", "patternProperties", "minProperties", "maxProperties", "required",
	"pattern", "format", "minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
	"items", "minItems", "maxItems", "contains", "minContains", "maxContains", "prefixItems", "additionalItems", "unevaluatedItems",
	"uniqueItems", "enum", "const", "not", "allOf", "anyOf", "oneOf", "$ref", "$id", "$defs", "definitions", "if", "then", "else",
	"dependentRequired", "dependentSchemas", "$schema", "$anchor", "title",
}

var sizeKeywords = map[string]bool{"minLength": true, "maxLength": true, "minItems": true, "maxItems": true, "minProperties": true, "maxProperties": true, "minContains": true, "maxContains": true, "length": true}

// hostileValue is some JSON value, made for no keyword in particular
func hostileValue(r *mrand.Rand, depth int) any {
	switch r.Intn(26) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return false
	case 3:
		return json.Number(pick(r, "0", "-0", "-1", "1", "2", "7", "64", "-40"))
	case 4:
		return json.Number(pick(r, "1e308", "-1e308", "1e-308", "5e-324", "9007199254740993", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "1e400", "1.5", "0.1", "-0.0001", "1e19", "1e-19"))
	case 5:
		return ""
	case 6:
		return pick(r, "object", "array", "string", "number", "integer", "boolean", "null", "any", "float")
	case 7:
		return pick(r, "#", "#/", "##", "#/properties/a", "#/$defs/d0", "#/definitions/x", "#/allOf/0", "#/anyOf/0", "#/oneOf/1", "#/items", "#/not", "#/if", "#/$defs", "#/properties", "#/prefixItems/99", "#/prefixItems/-1", "#/%zz", "#/~2", "#/~", "x", "x.json#", "://", "file:///nonexistent", "http://", "urn:x", "?", "#anchor", "//", "/", "..", ".", "\x00")
	case 8:
		return pick(r, "a", "[", "(", "*", "a{2,1}", "a{1001}", "(?=a)", "(a*)*", "\\", "[^\\x00-\\x{10FFFF}]", "^$", "$^", "a^", "(?i)x", "\\b", "(|)", "[[:alpha:]]", "\\p{Greek}", "x*?", "a{0}", "(a{3}){3}", ".*", "\\C", "[a-", "(?P<n>x)", "\\Qa.b\\E")
	case 9:
		return pick(r, "date", "email", "uuid", "ipv4", "regex", "unknown", "json-pointer", "idn-email", "duration")
	case 10:
		return strings.Repeat("a", r.Intn(300))
	case 11:
		return "\x00\U0001F600/~%\"\\"
	case 12:
		return A{}
	case 13:
		return M{}
	case 14, 15:
		if depth <= 0 {
			return A{}
		}
		n := r.Intn(4)
		a := A{}
		for range n {
			a = append(a, hostileValue(r, depth-1))
		}
		return a
	default:
		if depth <= 0 {
			return M{}
		}
		m := M{}
		for range 1 + r.Intn(4) {
			k := allKeywords[r.Intn(len(allKeywords))]
			m[k] = hostileValue(r, depth-1)
		}
		return m
	}
}

// a place in a JSON value that can be replaced
type slot struct {
	set func(any)
	del func()
	get any
	key string
}

func slots(v any, key string, set func(any), del func(), out *[]slot) {
	*out = append(*out, slot{set, del, v, key})
	switch x := v.(type) {
	case M:
		for _, k := range keysOf(x) {
			slots(x[k], k, func(n any) { x[k] = n }, func() { delete(x, k) }, out)
		}
	case A:
		for i := range x {
			slots(x[i], "", func(n any) { x[i] = n }, func() { x[i] = nil }, out)
		}
	}
}

// mutateSchema changes a few places of a schema
func mutateSchema(r *mrand.Rand, s M) M {
	root := M{"": clone(s)}
	for range 1 + r.Intn(4) {
		var all []slot
		slots(root[""], "", func(n any) { root[""] = n }, func() {}, &all)
		if len(all) == 0 {
			break
		}
		at := all[r.Intn(len(all))]
		switch r.Intn(9) {
		case 0, 1:
			at.set(hostileValue(r, 2))
		case 2:
			at.del()
		case 3: // a copy of another part of the schema
			at.set(clone(all[r.Intn(len(all))].get))
		case 4, 5: // one more keyword
			if m, ok := at.get.(M); ok {
				m[allKeywords[r.Intn(len(allKeywords))]] = hostileValue(r, 2)
			}
		case 6: // a keyword with what another keyword has
			if m, ok := at.get.(M); ok && len(m) > 0 {
				ks := keysOf(m)
				m[allKeywords[r.Intn(len(allKeywords))]] = clone(m[ks[r.Intn(len(ks))]])
			}
		case 7: // wrapped
			k := pick(r, "not", "items", "contains", "if", "then", "else", "additionalProperties", "unevaluatedItems")
			at.set(M{k: at.get})
		case 8:
			k := pick(r, "allOf", "anyOf", "oneOf", "prefixItems", "items", "enum")
			at.set(M{k: A{at.get, clone(all[r.Intn(len(all))].get)}})
		}
	}
	m, ok := root[""].(M)
	if !ok {
		return M{"allOf": A{root[""]}}
	}
	return m
}

// tame keeps sizes a schema demands (which have to be generated) within reason
func tame(v any) any {
	switch x := v.(type) {
	case M:
		for k, e := range x {
			if sizeKeywords[k] {
				switch e.(type) {
				case json.Number, int, int64, float64:
					if f, err := json.Number(fmt.Sprint(e)).Float64(); err != nil || math.Abs(f) > 300 {
						x[k] = json.Number("300")
					}
					continue
				}
			}
			x[k] = tame(e)
		}
	case A:
		for i := range x {
			x[i] = tame(x[i])
		}
	}
	return v
}

// handmade hostile schemas
func hostileSchemas() map[string]string {
	h := map[string]string{}
	add := func(name string, v any) { h[name] = toJSON(v) }
	deep := func(n int, wrap func(any) any) any {
		var s any = M{"type": "string"}
		for range n {
			s = wrap(s)
		}
		return s
	}
	wraps := map[string]func(any) any{
		"properties":    func(s any) any { return M{"type": "object", "required": A{"a"}, "properties": M{"a": s}} },
		"items":         func(s any) any { return M{"type": "array", "minItems": 1, "items": s} },
		"prefixItems":   func(s any) any { return M{"prefixItems": A{s}} },
		"allOf":         func(s any) any { return M{"allOf": A{s}} },
		"anyOf":         func(s any) any { return M{"anyOf": A{s}} },
		"oneOf":         func(s any) any { return M{"oneOf": A{s}} },
		"not":           func(s any) any { return M{"not": s} },
		"if":            func(s any) any { return M{"if": s, "then": M{"minLength": 1}} },
		"contains":      func(s any) any { return M{"type": "array", "contains": s} },
		"additional":    func(s any) any { return M{"type": "object", "minProperties": 1, "additionalProperties": s} },
		"pattern":       func(s any) any { return M{"type": "object", "minProperties": 1, "patternProperties": M{"^a": s}} },
		"$defs":         func(s any) any { return M{"$defs": M{"a": s}, "$ref": "#/$defs/a"} },
		"allOf-between": func(s any) any { return M{"allOf": A{s, M{"minLength": 1}}} },
		"then":          func(s any) any { return M{"type": "string", "if": M{"minLength": 3}, "then": s} },
		"uneval":        func(s any) any { return M{"type": "array", "minItems": 1, "unevaluatedItems": s} },
	}
	for name, w := range wraps {
		for _, n := range []int{5, 60, 99, 101, 500} {
			if name == "if" && n > 5 || name == "not" && n > 60 { // doubles the work with each level
				continue
			}
			add(fmt.Sprintf("deep-%s-%d", name, n), deep(n, w))
		}
	}
	// chains in which every step doubles what has to be merged
	for _, kw := range []string{"allOf", "anyOf", "oneOf", "prefixItems"} {
		for _, n := range []int{4, 8, 10} {
			defs := M{"d0": M{"type": "string", "minLength": 1}}
			for i := 1; i <= n; i++ {
				ref := M{"$ref": fmt.Sprintf("#/$defs/d%d", i-1)}
				defs[fmt.Sprintf("d%d", i)] = M{kw: A{ref, clone(ref)}}
			}
			add(fmt.Sprintf("doubling-%s-%d", kw, n), M{"$defs": defs, "$ref": fmt.Sprintf("#/$defs/d%d", n)})
		}
	}
	// recursion through every applicator, to the root and to a definition, directly and through another reference
	for _, target := range []string{"#", "#/$defs/r", "#/$defs/s"} {
		self := M{"$ref": target}
		bodies := map[string]any{
			"ref": self, "allOf": M{"allOf": A{self}}, "allOf2": M{"allOf": A{self, self}}, "anyOf": M{"anyOf": A{self}}, "anyOf2": M{"anyOf": A{self, M{"type": "null"}}},
			"oneOf": M{"oneOf": A{self}}, "oneOf2": M{"oneOf": A{self, M{"type": "null"}}}, "not": M{"not": self}, "notnot": M{"not": M{"not": self}},
			"if": M{"if": self, "then": M{"type": "string"}}, "then": M{"if": M{"type": "string"}, "then": self, "else": self},
			"items": M{"type": "array", "items": self}, "items2": M{"type": "array", "minItems": 2, "items": self}, "prefix": M{"prefixItems": A{self, self}}, "contains": M{"type": "array", "contains": self},
			"properties": M{"type": "object", "properties": M{"a": self}}, "required": M{"type": "object", "required": A{"a", "b"}, "properties": M{"a": self, "b": self}},
			"additional": M{"type": "object", "additionalProperties": self}, "pattern": M{"type": "object", "patternProperties": M{"^x": self}},
			"uneval": M{"type": "array", "unevaluatedItems": self}, "notprop": M{"type": "object", "not": M{"properties": M{"a": self}, "required": A{"a"}}},
			"allOf-items": M{"allOf": A{M{"items": self}, M{"items": self}}}, "allOf-props": M{"allOf": A{M{"properties": M{"a": self}}, M{"properties": M{"a": self, "b": self}}}},
			"allOf-anyOf": M{"allOf": A{M{"anyOf": A{self, M{"type": "null"}}}, M{"anyOf": A{self, M{"type": "null"}}}}}, "anyOf-allOf": M{"anyOf": A{M{"allOf": A{self, M{"type": "object"}}}, M{"type": "null"}}},
			"oneOf-not": M{"oneOf": A{M{"not": self}, M{"type": "null"}}}, "if-if": M{"if": M{"if": self, "then": self}, "then": self}, "enum": M{"enum": A{1, "a"}, "anyOf": A{self, M{"type": "string"}}},
			"additional-merge": M{"allOf": A{M{"additionalProperties": self}, M{"properties": M{"a": self}}}}, "mutual": M{"anyOf": A{M{"$ref": "#/$defs/r"}, M{"$ref": "#/$defs/s"}}},
		}
		for name, b := range bodies {
			s := clone(b).(M)
			switch target {
			case "#":
				s["$defs"] = M{"r": M{"$ref": "#"}, "s": M{"$ref": "#/$defs/r"}}
			case "#/$defs/r":
				s = M{"$ref": target, "$defs": M{"r": s, "s": M{"$ref": "#/$defs/r"}}}
			default:
				s = M{"$ref": target, "$defs": M{"r": s, "s": M{"allOf": A{M{"$ref": "#/$defs/r"}}}}}
			}
			add("recursive-"+name+"-"+target[strings.LastIndex(target, "/")+1:], s)
		}
	}
	// cycles of references only
	add("cycle-2", M{"$ref": "#/$defs/a", "$defs": M{"a": M{"$ref": "#/$defs/b"}, "b": M{"$ref": "#/$defs/a"}}})
	add("cycle-allOf", M{"$ref": "#/$defs/a", "$defs": M{"a": M{"allOf": A{M{"$ref": "#/$defs/b"}, M{"type": "object"}}}, "b": M{"allOf": A{M{"$ref": "#/$defs/a"}, M{"minProperties": 1}}}}})
	add("cycle-not", M{"$ref": "#/$defs/a", "$defs": M{"a": M{"not": M{"$ref": "#/$defs/b"}}, "b": M{"not": M{"$ref": "#/$defs/a"}}}})
	add("cycle-oneOf-not", M{"$ref": "#/$defs/a", "$defs": M{"a": M{"oneOf": A{M{"$ref": "#/$defs/b"}, M{"type": "string"}}}, "b": M{"not": M{"$ref": "#/$defs/a"}}}})
	// every keyword with every sort of value, alone and next to a type
	vals := map[string]any{"null": nil, "true": true, "false": false, "zero": 0, "neg": -3, "frac": 1.5, "empty": "", "text": "x", "arr": A{}, "arr1": A{M{}}, "arrs": A{"a", "a"}, "obj": M{}, "objobj": M{"a": M{}}, "objnull": M{"a": nil}, "arrnull": A{nil}}
	for _, k := range allKeywords {
		for vn, v := range vals {
			add("value-"+k+"-"+vn, M{k: v})
			for _, ty := range []string{"object", "array", "string", "integer"} {
				if k != "type" {
					add("value-"+k+"-"+vn+"-"+ty, M{k: v, "type": ty})
				}
			}
			add("value-"+k+"-"+vn+"-not", M{"type": "object", "not": M{k: v}})
			add("value-"+k+"-"+vn+"-allOf", M{"allOf": A{M{k: v}, M{k: v}}})
			add("value-"+k+"-"+vn+"-if", M{"if": M{k: v}, "then": M{k: v}, "else": M{k: v}})
			add("value-"+k+"-"+vn+"-oneOf", M{"oneOf": A{M{k: v}, M{"type": "null"}}})
		}
	}
	// references into every keyword, whether it is there or not
	for _, k := range allKeywords {
		for _, end := range []string{"", "/", "/0", "/1", "/-1", "/99", "/x", "/0/properties/a", "/x/0", "/0/0", "/x/x", "/" + k + "/0"} {
			ref := M{"$ref": "#/$defs/d/" + k + end}
			for vn, v := range map[string]any{"none": nil, "arr": A{}, "arr1": A{M{"const": 1}}, "obj": M{}, "obj1": M{"x": M{"const": 1}}, "text": "x"} {
				d := M{}
				if vn != "none" {
					d[k] = v
				}
				id := "into-" + k + "-" + strings.ReplaceAll(end, "/", "~") + "-" + vn
				add(id, M{"type": "object", "properties": M{"v": ref}, "$defs": M{"d": d}})
				if vn == "none" && k != "$ref" {
					add(id+"-root", M{"$ref": "#/" + k + end})
					add(id+"-allOf", M{"allOf": A{M{"$ref": "#/" + k + end}, M{"type": "object"}}})
				}
			}
		}
	}
	// many alternatives, names, values
	many := func(n int, f func(i int) any) A {
		a := A{}
		for i := range n {
			a = append(a, f(i))
		}
		return a
	}
	add("many-oneOf", M{"oneOf": many(200, func(i int) any { return M{"const": i} })})
	add("many-anyOf", M{"anyOf": many(200, func(i int) any { return M{"minimum": i, "type": "integer", "maximum": i} })})
	add("many-allOf", M{"allOf": many(200, func(i int) any { return M{"minimum": i} })})
	add("many-enum", M{"enum": many(1000, func(i int) any { return i })})
	add("anyOf-product", M{"allOf": many(8, func(i int) any { return M{"anyOf": A{M{"minimum": i}, M{"maximum": 100 + i}}} })})
	add("oneOf-product", M{"allOf": many(6, func(i int) any { return M{"oneOf": A{M{"minimum": i}, M{"maximum": -i - 1}}} })})
	add("many-not", M{"allOf": many(30, func(i int) any { return M{"not": M{"const": i}} })})
	add("many-if", M{"allOf": many(30, func(i int) any {
		return M{"if": M{"properties": M{"a": M{"const": i}}}, "then": M{"required": A{"a"}}}
	}), "type": "object"})
	h["huge-text"] = `{"const":"` + strings.Repeat("x", 1<<20) + `"}`
	h["deep-brackets"] = strings.Repeat(`{"not":`, 20000) + `{}` + strings.Repeat(`}`, 20000)
	h["deep-const"] = `{"const":` + strings.Repeat(`[`, 5000) + strings.Repeat(`]`, 5000) + `}`
	for i, s := range []string{"", " ", "{", "}", "[]", "null", "true", "false", "0", `"x"`, "{}{}", `{"type"}`, `{"type":}`, "\xff\xfe", "{\"a\":\"\xff\"}", "\ufeff{}", `{"type":"string"`, `{"type":"string"} x`, `{"type":"string","type":5}`, `{"const":1e999}`, `{"minimum":1e999}`, `{"$ref":"#/\u0000"}`, "nul", "{'a':1}", `{"properties":{"":{"type":"string"}},"required":[""]}`} {
		h[fmt.Sprintf("text-%02d", i)] = s
	}
	return h
}

// survive parses a schema and generates from it. Whatever happens short of an error returned is a violation
func survive(t *T, name, schema string, r *mrand.Rand, opts *chaff.ParserOptions) {
	if os.Getenv("VH_LOG") != "" {
		os.WriteFile(os.Getenv("VH_LOG"), []byte(schema), 0644)
	}
	stage := "parsing"
	defer func() {
		if p := recover(); p != nil {
			t.Violate("panic", schema, "", "%s: panic while %s: %v\n%s", name, stage, p, trimStack(string(debug.Stack())))
		}
	}()
	g, err := chaff.ParseSchemaString(schema, opts)
	if err == nil && !json.Valid([]byte(schema)) {
		t.Violate("accepted", schema, "", "%s: parsing text that is no JSON reports no error", name)
	}
	if g.Generator == nil {
		t.Violate("unusable", schema, "", "%s: parsing returns no generator (error %v)", name, err)
		return
	}
	outcome := "ok"
	if err != nil {
		outcome = "error"
		if err.Error() == "" {
			t.Violate("unusable", schema, "", "%s: error without a text", name)
		}
	}
	stage = "collecting errors"
	for path, e := range map[string]error(metaErrorMap(g)) {
		outcome = "reported"
		if e == nil || e.Error() == "" {
			t.Violate("unusable", schema, "", "%s: recorded error at %q without a text", name, path)
		}
	}
	stage = "describing the generator"
	desc := ""
	if len(schema) < 20000 {
		desc = g.String()
		if desc == "" {
			t.Violate("unusable", schema, "", "%s: empty description", name)
		}
	}
	// the values: the documented options and two demanding ones
	stage = "generating"
	for i, o := range []chaff.GeneratorOptions{{}, {BypassCyclicReferenceCheck: true, MaximumReferenceDepth: 3, MaximumGenerationSteps: 60, CutoffGenerationSteps: 300}, {DefaultArrayMinItems: 1, DefaultObjectMinProperties: 1, MaximumGenerationSteps: 20, CutoffGenerationSteps: 100, MaximumIfAttempts: 5, MaximumOneOfAttempts: 5, MaximumUniqueGeneratorAttempts: 5}} {
		for n := range 2 {
			o.Rand, _ = newCountingRand(r.Int63(), 30*n)
			v := g.Generate(&o)
			raw, err := json.Marshal(v)
			if err != nil {
				t.Violate("value", schema, fmt.Sprintf("%#v", v), "%s: the value generated can not be encoded: %v", name, err)
				return
			}
			if !utf8.Valid(raw) {
				t.Violate("value", schema, string(raw), "%s: the value is no valid UTF-8", name)
			}
			if i == 0 {
				t.Event("values", clip(string(raw), 400))
			}
		}
	}
	stage = "generating with defaults"
	g.GenerateWithDefaults()
	t.Event("schemas", schema[:min(len(schema), 4000)])
	t.Count("outcome_"+outcome, 1)
	if outcome != "ok" {
		t.Count("survived_faulty_input", 1)
	}
	t.Sample(schema, outcome+" "+clip(desc, 100))
}

func metaErrorMap(g chaff.RootGenerator) map[string]error {
	if g.Metadata == nil || g.Metadata.Errors == nil {
		return nil
	}
	return g.Metadata.Errors.CollectErrors()
}

func robustCases(cfg Cfg) []Case {
	cases := []Case{}
	group := func(id string, n int, f func(t *T, r *mrand.Rand, i int)) {
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			for i := range n {
				f(t, subRng(cfg.Seed, "V14", id, fmt.Sprint(i)), i)
			}
		}})
	}
	// the handmade ones, in groups
	hs := hostileSchemas()
	names := keysOf2(hs)
	rest := []string{}
	for _, n := range names {
		if strings.HasPrefix(n, "value-") || strings.HasPrefix(n, "into-") || strings.HasPrefix(n, "text-") {
			rest = append(rest, n)
			continue
		}
		group(n, 1, func(t *T, r *mrand.Rand, i int) { survive(t, n, hs[n], r, &chaff.ParserOptions{}) })
	}
	names = rest
	for at := 0; at < len(names); at += 40 {
		part := names[at:min(at+40, len(names))]
		group(fmt.Sprintf("hostile-%03d", at/40), len(part), func(t *T, r *mrand.Rand, i int) {
			survive(t, part[i], hs[part[i]], r, &chaff.ParserOptions{})
		})
	}
	negatedTwins(cfg, group)
	per := 25
	for b := range cfg.Scale(300, 12000) {
		group(fmt.Sprintf("mutated-%04d", b), per, func(t *T, r *mrand.Rand, i int) {
			g := newSG(r)
			s := mutateSchema(r, g.Root(g.Schema(1+r.Intn(2))))
			opts := &chaff.ParserOptions{}
			if r.Intn(4) == 0 {
				opts.MaxParseDepth = 1 + r.Intn(30)
			}
			survive(t, fmt.Sprint(i), toJSON(tame(s)), r, opts)
		})
		group(fmt.Sprintf("random-%04d", b), per, func(t *T, r *mrand.Rand, i int) {
			m := M{}
			for range 1 + r.Intn(4) {
				m[allKeywords[r.Intn(len(allKeywords))]] = hostileValue(r, 3)
			}
			survive(t, fmt.Sprint(i), toJSON(tame(m)), r, &chaff.ParserOptions{})
		})
		if b%4 == 0 {
			group(fmt.Sprintf("bytes-%04d", b), per, func(t *T, r *mrand.Rand, i int) {
				survive(t, fmt.Sprint(i), mutateText(r), r, &chaff.ParserOptions{})
			})
		}
	}
	return cases
}

func keysOf2[V any](m map[string]V) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// mutateText damages the text of a schema
func mutateText(r *mrand.Rand) string {
	if r.Intn(6) == 0 {
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	}
	if r.Intn(4) == 0 {
		toks := []string{"{", "}", "[", "]", ":", ",", `"type"`, `"properties"`, `"$ref"`, `"#"`, `"object"`, "1", "-", "null", "true", `"items"`, `"allOf"`, `"not"`, " ", `"a"`, "1e9"}
		s := ""
		for range r.Intn(25) {
			s += toks[r.Intn(len(toks))]
		}
		return s
	}
	g := newSG(r)
	b := []byte(toJSON(g.Root(g.Schema(1))))
	for range 1 + r.Intn(3) {
		if len(b) == 0 {
			break
		}
		at := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b[at] = byte(r.Intn(256))
		case 1:
			b = append(b[:at:at], b[at+1:]...)
		case 2:
			b = b[:at]
		case 3:
			b = append(b[:at:at], append([]byte{b[at]}, b[at:]...)...)
		case 4:
			b[at] = pick(r, byte('"'), '{', '}', '[', ']', ',', ':')
		}
	}
	return string(b)
}

func init() {
	register(Check{Prop: "V14", Rule: "a schema text (distinct by content) that was parsed, described and generated from without a crash, and the values seen", Cases: robustCases})
}
