package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"unicode/utf16"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// ---- V20 the same schema written differently is the same schema

var schemaMaps = map[string]bool{"properties": true, "patternProperties": true, "$defs": true, "definitions": true}
var schemaLists = map[string]bool{"allOf": true, "anyOf": true, "oneOf": true, "prefixItems": true}
var schemaParts = map[string]bool{"items": true, "contains": true, "additionalProperties": true, "unevaluatedItems": true, "additionalItems": true, "not": true, "if": true, "then": true, "else": true}
var sizeParts = map[string]bool{"minLength": true, "maxLength": true, "minItems": true, "maxItems": true, "minContains": true, "minProperties": true, "maxProperties": true, "minimum": true, "maximum": true, "exclusiveMinimum": true, "exclusiveMaximum": true, "multipleOf": true}

// annotated adds keywords that say nothing to every schema within s
func annotated(r *mrand.Rand, s any, percent int) any {
	m, ok := s.(M)
	if !ok {
		return s
	}
	out := M{}
	for k, v := range m {
		switch {
		case schemaMaps[k]:
			sub := M{}
			for n, e := range v.(M) {
				sub[n] = annotated(r, e, percent)
			}
			out[k] = sub
		case schemaLists[k]:
			sub := A{}
			for _, e := range v.(A) {
				sub = append(sub, annotated(r, e, percent))
			}
			out[k] = sub
		case schemaParts[k]:
			if l, ok := v.(A); ok {
				sub := A{}
				for _, e := range l {
					sub = append(sub, annotated(r, e, percent))
				}
				out[k] = sub
			} else {
				out[k] = annotated(r, v, percent)
			}
		default:
			out[k] = v
		}
	}
	if r.Intn(100) >= percent {
		return out
	}
	data := func() any {
		return pick[any](r, M{"$ref": "#/nowhere"}, M{"$ref": "other.json"}, M{"$id": "https://elsewhere.test/x.json", "type": "string"}, A{M{"$ref": "#/$defs/none"}}, nil, 5, "text", true, A{}, M{}, M{"type": "unknown", "minimum": "x"},
			M{"properties": M{"a": M{"$ref": "nowhere"}}}, M{"enum": A{}}, M{"const": M{"$id": "a", "$ref": "b"}}, M{"allOf": 3}, A{nil}, json.Number("1e5"), M{"$defs": M{"x": M{"$id": "dup"}}}, "#/$defs/a", M{"if": M{}, "then": false})
	}
	for range 1 + r.Intn(3) {
		switch r.Intn(10) {
		case 0:
			out["title"] = pick(r, "", "A title", "\"quoted\" \\ \n", "é日😀")
		case 1:
			out["description"] = pick(r, "", "type: string", "{\"type\":\"string\"}", strings.Repeat("long ", 200))
		case 2:
			out["$comment"] = pick(r, "", "#/$defs/x", "no comment")
		case 3:
			out["default"] = data()
		case 4:
			out["examples"] = A{data(), data()}
		case 5:
			out[pick(r, "deprecated", "readOnly", "writeOnly")] = r.Intn(2) == 0
		case 6:
			out[pick(r, "x-extension", "markdownDescription", "enumNames", "options", "", "example", "discriminator", "nullable", "xml", "tsType", "javaType", "errorMessage", "$", "#", "/", "~", "foo/bar", "%")] = data()
		case 7: // the names of keywords are case sensitive
			k := pick(r, "Type", "TYPE", "Properties", "REQUIRED", "Enum", "minimumValue", "Maximum", "MinLength", "maxlength", "Pattern", "Format", "AllOf", "oneof", "NOT", "If", "Const", "Items", "$Ref", "$ID", "$DEFS", "uniqueitems", "con\u017ft", "multipleof")
			out[k] = data()
		default:
			out[pick(r, "properti", "requiredd", "minimun", "maxItem", "values", "props", "$refs", "ref", "id", "defs", "consts", "min", "max", "elements", "anyof_", "exclusiveMin")] = data()
		}
	}
	return out
}

// respell writes JSON data in another way
func respell(r *mrand.Rand, v any, sb *strings.Builder, numbers bool) {
	space := func() {
		for r.Intn(3) == 0 {
			sb.WriteString(pick(r, " ", "\n", "\t", "\r\n", "   "))
		}
	}
	space()
	defer space()
	switch x := v.(type) {
	case M:
		keys := keysOf(x)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		sb.WriteString("{")
		for i, k := range keys {
			if i > 0 {
				sb.WriteString(",")
			}
			space()
			respellString(r, k, sb)
			space()
			sb.WriteString(":")
			respell(r, x[k], sb, sizeParts[k])
		}
		space()
		sb.WriteString("}")
	case A:
		sb.WriteString("[")
		for i, e := range x {
			if i > 0 {
				sb.WriteString(",")
			}
			respell(r, e, sb, false)
		}
		space()
		sb.WriteString("]")
	case string:
		respellString(r, x, sb)
	case nil, bool:
		sb.WriteString(toJSON(x))
	default:
		sb.WriteString(respellNumber(r, toJSON(x)))
	}
}

func respellString(r *mrand.Rand, s string, sb *strings.Builder) {
	sb.WriteString("\"")
	for _, c := range s {
		switch {
		case r.Intn(12) == 0:
			if c > 0xffff {
				a, b := utf16.EncodeRune(c)
				fmt.Fprintf(sb, "\\u%04x\\u%04X", a, b)
			} else {
				fmt.Fprintf(sb, "\\u%04x", c)
			}
		case c == '/' && r.Intn(2) == 0:
			sb.WriteString("\\/")
		default:
			q := toJSON(string(c))
			sb.WriteString(q[1 : len(q)-1])
		}
	}
	sb.WriteString("\"")
}

func respellNumber(r *mrand.Rand, n string) string {
	rat, ok := new(big.Rat).SetString(n)
	if !ok || r.Intn(3) > 0 || strings.ContainsAny(n, "eE") {
		return n
	}
	out := n
	switch r.Intn(4) {
	case 0:
		if rat.IsInt() && !strings.Contains(n, ".") {
			out = n + ".0"
		}
	case 1:
		out = n + pick(r, "e0", "E0", "e+0", "E-0")
	case 2:
		if rat.IsInt() && !strings.Contains(n, ".") {
			if rat.Sign() != 0 {
				out = n + "0e-1"
			}
		}
	case 3:
		if rat.IsInt() && !strings.Contains(n, ".") && strings.HasSuffix(n, "0") && len(strings.TrimLeft(n, "-")) > 1 {
			out = n[:len(n)-1] + "e1"
		}
	}
	if back, ok := new(big.Rat).SetString(out); !ok || back.Cmp(rat) != 0 {
		panic("harness: " + n + " became " + out)
	}
	return out
}

var documentID = regexp.MustCompile(`file://[^\s"]*?\.json|[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)

// reports lists what parsing reported, without the names made up for documents
func reports(g chaff.RootGenerator, err error) string {
	l := metaErrors(g)
	if err != nil {
		l = append(l, "returned: "+err.Error())
	}
	return documentID.ReplaceAllString(strings.Join(l, "\n"), "DOC")
}

func textCases(cfg Cfg) []Case {
	cases := []Case{}
	// same compares what is made of two texts
	same := func(t *T, how, a, b string, ga chaff.RootGenerator, ea error, gb chaff.RootGenerator, eb error, seeded bool, locations bool) {
		if (ea == nil) != (eb == nil) || locations && reports(ga, ea) != reports(gb, eb) || (len(metaErrors(ga)) > 0) != (len(metaErrors(gb)) > 0) {
			t.Violate("reports", b, "", "%s changes what is reported: %q, first %q (for %s)", how, clip(reports(gb, eb), 300), clip(reports(ga, ea), 300), clip(a, 300))
			return
		}
		t.Event("texts", b)
		t.Sample(a, clip(b, 180))
		if ea != nil {
			t.Count("both refused", 1)
			return
		}
		if !seeded {
			return
		}
		for range 5 {
			seed := t.Rng.Int63()
			va := toJSON(ga.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(seed), MaximumGenerationSteps: 1000}))
			vb := toJSON(gb.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(seed), MaximumGenerationSteps: 1000}))
			if documentID.ReplaceAllString(va, "DOC") != documentID.ReplaceAllString(vb, "DOC") {
				t.Violate("values", b, vb, "%s changes the value for a seed, first %s (for %s)", how, clip(va, 300), clip(a, 300))
				return
			}
			t.Event("values compared", va)
		}
	}
	valid := func(t *T, how, a, b string, gb chaff.RootGenerator) {
		oracle, err := compileOracle(a, "", nil)
		if err != nil {
			panic(err)
		}
		for range 12 {
			opts := chaff.GeneratorOptions{MaximumGenerationSteps: 1000}
			opts.Rand, _ = newCountingRand(t.Rng.Int63(), 0)
			raw := toJSON(gb.Generate(&opts))
			iv, _ := js.UnmarshalJSON(bytes.NewReader([]byte(raw)))
			if m := findMarker(iv); m != "" {
				t.Violate("marker", b, raw, "%s leads to a failure text: %s", how, m)
				return
			}
			if err := oracle.Validate(iv); err != nil {
				t.Violate("invalid", b, raw, "%s leads to values that do not validate: %s", how, clip(err.Error(), 300))
				return
			}
			t.Event("values validated", raw)
		}
	}
	change := func(r *mrand.Rand, s M) (string, string) {
		var sb strings.Builder
		switch r.Intn(4) {
		case 0:
			respell(r, s, &sb, false)
			return "another layout, order or spelling", sb.String()
		case 1:
			return "adding annotations", toJSON(annotated(r, s, 100))
		case 2:
			return "adding annotations at places", toJSON(annotated(r, s, 30))
		}
		respell(r, annotated(r, s, 40), &sb, false)
		return "another spelling with annotations", sb.String()
	}
	for i := range cfg.Scale(700, 12000) {
		id := fmt.Sprintf("seeded-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			s := seedSchema(r, 3, "s0", "s1")
			s["$defs"] = M{"s0": seedSchema(r, 1, "s1"), "s1": seedSchema(r, 1)}
			a := toJSON(s)
			ga, ea := chaff.ParseSchemaStringWithDefaults(a)
			for range 3 {
				how, b := change(r, s)
				gb, eb := chaff.ParseSchemaStringWithDefaults(b)
				same(t, how, a, b, ga, ea, gb, eb, true, true)
			}
		}})
	}
	for i := range cfg.Scale(900, 20000) {
		id := fmt.Sprintf("valid-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			g := newSG(subRng(cfg.Seed, "V20", id))
			s := g.Root(g.Schema(3))
			a := toJSON(s)
			ga, ea := chaff.ParseSchemaStringWithDefaults(a)
			if ea != nil || len(metaErrors(ga)) > 0 {
				t.Count("skipped because of reported errors", 1) // V16 decides these
				return
			}
			for range 2 {
				how, b := change(t.Rng, s)
				gb, eb := chaff.ParseSchemaStringWithDefaults(b)
				same(t, how, a, b, ga, ea, gb, eb, false, true)
				if eb == nil && !t.Failed() {
					valid(t, how, a, b, gb)
				}
			}
		}})
	}
	// what is refused stays refused
	faults := []M{{"type": "integer", "minimum": 3, "maximum": 1}, {"type": "string", "pattern": "("}, {"enum": A{1}, "type": "string"}, {"$ref": "#/nowhere"}, {"allOf": A{M{"type": "string"}, M{"type": "null"}}}, {"type": "array", "minItems": 3, "maxItems": 1}, {"oneOf": A{M{"const": 1, "type": "string"}}}, {"type": "object", "required": A{"a"}, "maxProperties": 0}}
	for i := range cfg.Scale(300, 3000) {
		id := fmt.Sprintf("faulty-%04d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			s := clone(faults[i%len(faults)]).(M)
			for range r.Intn(3) {
				s = pick(r, M{"type": "object", "properties": M{"a": s, "b": M{"type": "null"}}, "required": A{"a"}}, M{"type": "array", "items": s}, M{"type": "array", "prefixItems": A{s, M{}}}, M{"anyOf": A{s, M{"type": "boolean"}}})
			}
			a := toJSON(s)
			ga, ea := chaff.ParseSchemaStringWithDefaults(a)
			for range 3 {
				how, b := change(r, s)
				gb, eb := chaff.ParseSchemaStringWithDefaults(b)
				same(t, how, a, b, ga, ea, gb, eb, false, false)
			}
		}})
	}
	// every way into the library makes the same of a schema
	for i := range cfg.Scale(150, 1500) {
		id := fmt.Sprintf("entry-%04d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			s := seedSchema(r, 3, "s0", "s1")
			if i%5 == 0 {
				s = clone(faults[r.Intn(len(faults))]).(M)
			}
			s["$defs"] = M{"s0": seedSchema(r, 1, "s1"), "s1": seedSchema(r, 1)}
			a := toJSON(s)
			path := filepath.Join(cfg.Dir, id+".json")
			if err := os.WriteFile(path, []byte(a), 0o644); err != nil {
				panic(err)
			}
			defer os.Remove(path)
			ga, ea := chaff.ParseSchemaString(a, &chaff.ParserOptions{})
			for how, parse := range map[string]func() (chaff.RootGenerator, error){
				"ParseSchemaStringWithDefaults": func() (chaff.RootGenerator, error) { return chaff.ParseSchemaStringWithDefaults(a) },
				"ParseSchema":                   func() (chaff.RootGenerator, error) { return chaff.ParseSchema([]byte(a), &chaff.ParserOptions{}) },
				"ParseSchemaWithDefaults":       func() (chaff.RootGenerator, error) { return chaff.ParseSchemaWithDefaults([]byte(a)) },
				"ParseSchemaFile":               func() (chaff.RootGenerator, error) { return chaff.ParseSchemaFile(path, &chaff.ParserOptions{}) },
				"ParseSchemaFileWithDefaults":   func() (chaff.RootGenerator, error) { return chaff.ParseSchemaFileWithDefaults(path) },
			} {
				gb, eb := parse()
				same(t, how, a, a, ga, ea, gb, eb, true, true)
			}
		}})
	}
	return cases
}

func init() {
	register(Check{Prop: "V20", Rule: "a distinct text of a schema written in another way (order, layout, escapes, numbers, annotations, unknown keywords) whose reports and values for equal seeds were compared with the first text, or whose values were validated against it", Cases: textCases})
}
