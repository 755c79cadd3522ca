package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"strings"

	js "github.com/santhosh-tekuri/jsonschema/v6"

	chaff "github.com/ryanolee/go-chaff"
)

// recursion builds definitions that refer to each other (and to themselves) in random ways. Every definition has an id of
// its own. It is written twice: as schema, and as oracle that accepts the text that ends a recursion for every reference.
func recursion(r *mrand.Rand) (schema, oracle M) {
	n := 1 + r.Intn(4)
	ended := M{"type": "string", "pattern": "^(Cyclic reference found|Maximum reference resolution depth)"}
	at := func(k int) string {
		if k == n {
			return "#"
		}
		return fmt.Sprintf("#/$defs/d%d", k)
	}
	type link struct{ s, o M }
	ref := func() link {
		k := r.Intn(n + 1)
		return link{M{"$ref": at(k)}, M{"anyOf": A{M{"$ref": at(k)}, ended}}}
	}
	var wrap func(depth int) link
	wrap = func(depth int) link {
		if depth == 0 {
			return ref()
		}
		in := wrap(depth - 1)
		switch r.Intn(9) {
		case 0:
			return link{M{"allOf": A{in.s}}, in.o}
		case 1:
			return link{M{"anyOf": A{in.s, M{"type": "null"}}}, M{"anyOf": A{in.o, M{"type": "null"}}}}
		case 2:
			none := fmt.Sprint("none at ", depth)
			return link{M{"oneOf": A{in.s, M{"const": none}}}, M{"anyOf": A{in.o, M{"const": none}, ended}}}
		case 3:
			return link{M{"type": "array", "items": in.s, "minItems": 0, "maxItems": 2}, M{"type": "array", "items": in.o, "maxItems": 2}}
		case 4:
			return link{M{"type": "array", "prefixItems": A{in.s, M{"const": "end"}}, "items": false, "minItems": 2}, M{"type": "array", "prefixItems": A{in.o, M{"const": "end"}}, "items": false, "minItems": 2}}
		case 5:
			return link{M{"type": "object", "additionalProperties": in.s, "maxProperties": 2}, M{"type": "object", "additionalProperties": in.o, "maxProperties": 2}}
		case 6:
			return link{M{"type": "object", "patternProperties": M{"^x[0-9]$": in.s}, "additionalProperties": false, "maxProperties": 2}, M{"type": "object", "patternProperties": M{"^x[0-9]$": in.o}, "additionalProperties": false, "maxProperties": 2}}
		case 7:
			return link{M{"type": "object", "properties": M{"in": in.s}, "required": A{"in"}}, M{"type": "object", "properties": M{"in": in.o}, "required": A{"in"}}}
		}
		return in
	}
	definition := func(k int) link {
		ps, po, req := M{"id": M{"const": fmt.Sprint("d", k)}}, M{"id": M{"const": fmt.Sprint("d", k)}}, A{"id"}
		for i := range 1 + r.Intn(2) {
			l := wrap(r.Intn(3))
			name := fmt.Sprint("p", i)
			ps[name], po[name] = l.s, l.o
			if r.Intn(3) > 0 {
				req = append(req, name)
			}
		}
		s := M{"type": "object", "properties": ps, "required": req, "additionalProperties": false}
		o := M{"type": "object", "properties": po, "required": req, "additionalProperties": false}
		if r.Intn(4) == 0 {
			s = M{"allOf": A{M{"type": "object", "required": req}, M{"type": "object", "properties": ps}}}
			o = M{"allOf": A{M{"type": "object", "required": req}, M{"type": "object", "properties": po}}}
		}
		return link{s, o}
	}
	root := definition(n)
	ds, do := M{}, M{}
	for k := range n {
		d := definition(k)
		ds[fmt.Sprint("d", k)], do[fmt.Sprint("d", k)] = d.s, d.o
	}
	root.s["$defs"], root.o["$defs"] = ds, do
	return root.s, root.o
}

// recursiveValues are cases that judge every level of recursive values
func recursiveValues(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(400, 8000) {
		id := fmt.Sprintf("recursive-values-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			s, o := recursion(subRng(cfg.Seed, "V11", id))
			schema := toJSON(s)
			g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
			if err != nil || len(metaErrors(g)) > 0 {
				t.Violate("spurious-error", schema, "", "errors reported for recursive references: %v %v", err, metaErrors(g))
				return
			}
			oracle, oerr := compileOracle(toJSON(o), "", nil)
			if oerr != nil {
				panic("harness: " + oerr.Error())
			}
			for _, bypass := range []bool{false, true} {
				for k := range 12 {
					v, _, ok := generateWithin(g, chaff.GeneratorOptions{BypassCyclicReferenceCheck: bypass, MaximumReferenceDepth: 2 + k%4, CutoffGenerationSteps: 1_000_000, MaximumGenerationSteps: 1_000_000}, t.Rng.Int63(), 200_000)
					if !ok {
						continue
					}
					raw, _ := json.Marshal(v)
					iv, _ := js.UnmarshalJSON(strings.NewReader(string(raw)))
					if err := oracle.Validate(iv); err != nil {
						t.Violate("invalid", schema, string(raw), "a level of a recursive value does not conform (cycles allowed: %v): %s", bypass, clip(err.Error(), 400))
						return
					}
					t.Event("recursive", string(raw))
				}
			}
			t.Sample(schema, fmt.Sprint("bypass and plain"))
		}})
	}
	return cases
}
