package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"sync/atomic"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// V15: generation stays within the budgets of its options and parsing within its depth.

type budgetExceeded struct{ draws int64 }

// budgetSource ends a generation that draws far more than its budget of steps allows
type budgetSource struct {
	src   mrand.Source64
	draws int64
	limit int64
}

func (s *budgetSource) Int63() int64 {
	if n := atomic.AddInt64(&s.draws, 1); n > s.limit {
		panic(budgetExceeded{n})
	}
	return s.src.Int63()
}
func (s *budgetSource) Uint64() uint64  { return uint64(s.Int63())<<1 ^ uint64(s.src.Int63()&1) }
func (s *budgetSource) Seed(seed int64) { s.src.Seed(seed) }

// generateWithin generates a value under a budget of draws. ok is false if the budget was not kept
func generateWithin(g chaff.RootGenerator, o chaff.GeneratorOptions, seed int64, limit int64) (v any, draws int64, ok bool) {
	src := &budgetSource{src: mrand.NewSource(seed).(mrand.Source64), limit: limit}
	o.Rand = &rand.RandUtil{Source: src, Rand: mrand.New(src)}
	defer func() {
		draws = src.draws
		if p := recover(); p != nil {
			if _, is := p.(budgetExceeded); !is {
				panic(p)
			}
			v, ok = nil, false
		}
	}()
	return g.Generate(&o), src.draws, true
}

func decode(raw []byte) any {
	v, err := js.UnmarshalJSON(bytes.NewReader(raw))
	if err != nil {
		panic(err)
	}
	return v
}

func sizeOf(v any) int {
	switch x := v.(type) {
	case []any:
		return len(x)
	case map[string]any:
		return len(x)
	}
	return -1
}

func countNodes(v any) (nodes, depth int) {
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			n, d := countNodes(e)
			nodes += n
			depth = max(depth, d)
		}
		return nodes + 1, depth + 1
	case map[string]any:
		for _, e := range x {
			n, d := countNodes(e)
			nodes += n
			depth = max(depth, d)
		}
		return nodes + 1, depth + 1
	}
	return 1, 1
}

// recursiveSchema builds definitions that refer to each other, with much branching
func recursiveSchema(r *mrand.Rand) M {
	nd := 1 + r.Intn(3)
	var body func(depth int) M
	ref := func() M { return M{"$ref": fmt.Sprintf("#/$defs/r%d", r.Intn(nd))} }
	child := func(depth int) M {
		if depth <= 0 || r.Intn(100) < 65 {
			return ref()
		}
		return body(depth - 1)
	}
	leaf := func() M {
		return pick(r, M{"type": "string"}, M{"type": "integer"}, M{"type": "boolean"}, M{"enum": A{1, 2, 3}}, M{"type": "null"})
	}
	names := []string{"a", "b", "c", "d"}
	body = func(depth int) M {
		switch r.Intn(12) {
		case 0, 1, 2: // members that all lead on
			props := M{}
			req := A{}
			for _, n := range names[:1+r.Intn(4)] {
				props[n] = child(depth)
				if r.Intn(3) > 0 {
					req = append(req, n)
				}
			}
			return M{"type": "object", "properties": props, "required": req}
		case 3, 4:
			return M{"type": "array", "minItems": 1 + r.Intn(4), "items": child(depth)}
		case 5:
			return M{"type": "array", "prefixItems": A{child(depth), child(depth), leaf()}, "items": leaf()}
		case 6:
			return M{"anyOf": A{child(depth), child(depth)}}
		case 7:
			return M{"oneOf": A{M{"type": "array", "minItems": 1, "items": child(depth)}, M{"type": "object", "required": A{"a"}, "properties": M{"a": child(depth)}}}}
		case 8:
			return M{"type": "object", "minProperties": 1 + r.Intn(3), "additionalProperties": child(depth)}
		case 9:
			return M{"type": "array", "contains": child(depth), "minContains": 1 + r.Intn(3)}
		case 10:
			return M{"type": "object", "properties": M{"a": child(depth), "k": leaf()}, "required": A{"a"}, "if": M{"properties": M{"k": M{"type": "string"}}, "required": A{"k"}}, "then": M{"required": A{"b"}, "properties": M{"b": child(0)}}}
		default:
			return M{"type": "object", "minProperties": 1, "patternProperties": M{"^[a-z]{3}$": child(depth)}}
		}
	}
	defs := M{}
	for i := range nd {
		defs[fmt.Sprintf("r%d", i)] = body(2)
	}
	return M{"$defs": defs, "$ref": "#/$defs/r0"}
}

func budgetCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, f func(t *T)) { cases = append(cases, Case{ID: id, Run: f}) }
	stats := struct{ f *os.File }{}
	if p := os.Getenv("VH_STATS"); p != "" {
		stats.f, _ = os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	}
	// run generates with the given options and checks the budgets
	run := func(t *T, schema string, g chaff.RootGenerator, o chaff.GeneratorOptions, n int, wantNodes int) {
		cutoff := o.CutoffGenerationSteps
		if cutoff == 0 {
			cutoff = 2000
		}
		limit := int64(cutoff)*20 + 6000 + 60*int64(max(o.MaximumOneOfAttempts, 100))
		if wantNodes == 0 {
			wantNodes = cutoff*15 + 1000
		}
		for range n {
			seed := t.Rng.Int63()
			v, draws, ok := generateWithin(g, o, seed, limit)
			name := fmt.Sprintf("steps %d, cutoff %d, reference depth %d, bypass %v", o.MaximumGenerationSteps, o.CutoffGenerationSteps, o.MaximumReferenceDepth, o.BypassCyclicReferenceCheck)
			if !ok {
				t.Violate("budget", schema, "", "generation did not stop near its cutoff: more than %d draws (%s)", draws-1, name)
				return
			}
			nodes, depth := countNodes(v)
			if stats.f != nil {
				fmt.Fprintf(stats.f, "%s %d %d %d %d %.1f %.2f\n", t.ID, cutoff, draws, nodes, depth, float64(draws)/float64(cutoff), float64(nodes)/float64(cutoff))
			}
			if wantNodes > 0 && nodes > wantNodes {
				t.Violate("size", schema, fmt.Sprint(nodes), "%d values were generated although at most %d are expected (%s)", nodes, wantNodes, name)
				return
			}
			raw, err := json.Marshal(v)
			if err != nil {
				t.Violate("not-json", schema, "", "%v", err)
			}
			t.Event("generations", fmt.Sprintf("%s %d %d %d", name, draws, nodes, depth))
			t.Count("draws", draws)
			t.Count("values", int64(nodes))
			t.Sample(schema, fmt.Sprintf("%d draws, %d values, depth %d: %s", draws, nodes, depth, clip(string(raw), 80)))
		}
	}
	cutoffs := []int{1, 20, 50, 200, 1000, 0, 5000}
	depths := []int{1, 2, 5, 0, 30, 100, 400}
	for i := range cfg.Scale(400, 8000) {
		add(fmt.Sprintf("recursive-%04d", i), func(t *T) {
			r := t.Rng
			schema := toJSON(recursiveSchema(r))
			g, err := chaff.ParseSchemaStringWithDefaults(schema)
			_ = err
			for range 6 {
				o := chaff.GeneratorOptions{BypassCyclicReferenceCheck: r.Intn(4) > 0, CutoffGenerationSteps: cutoffs[r.Intn(len(cutoffs))], MaximumReferenceDepth: depths[r.Intn(len(depths))]}
				c := o.CutoffGenerationSteps
				if c == 0 {
					c = 2000
				}
				o.MaximumGenerationSteps = pick(r, 0, 1, c/2, c, 2*c)
				run(t, schema, g, o, 2, 0)
			}
		})
	}
	ints := func(min, max int) M {
		return M{"type": "array", "minItems": min, "maxItems": max, "items": M{"type": "integer"}}
	}
	// limits far above anything that can be generated
	huge := map[string]M{
		"items":      {"type": "array", "items": M{"type": "integer"}, "maxItems": 1_000_000_000},
		"noitems":    {"type": "array", "maxItems": 1_000_000_000},
		"objects":    {"type": "array", "items": M{"type": "object", "required": A{"a"}, "properties": M{"a": M{"type": "integer"}}}, "maxItems": 2147483647},
		"min":        {"type": "array", "minItems": 3, "items": M{"type": "string"}, "maxItems": 1_000_000_000},
		"contains":   {"type": "array", "contains": M{"type": "integer"}, "items": M{"type": "integer"}, "maxItems": 1_000_000_000},
		"tuple":      {"type": "array", "prefixItems": A{M{"type": "string"}}, "items": M{"type": "integer"}, "maxItems": 1_000_000_000},
		"additional": {"type": "object", "additionalProperties": M{"type": "integer"}, "maxProperties": 1_000_000_000},
		"pattern":    {"type": "object", "patternProperties": M{"^[a-z]{20}$": M{"type": "integer"}}, "maxProperties": 1_000_000_000},
		"fallback":   {"type": "object", "properties": M{"a": M{"type": "integer"}}, "maxProperties": 1_000_000_000},
		"nested":     {"type": "array", "maxItems": 1_000_000, "items": M{"type": "array", "maxItems": 1_000_000, "items": M{"type": "array", "maxItems": 1_000_000, "items": M{"type": "number"}}}},
		"anyOf":      {"anyOf": A{M{"type": "array", "items": M{"type": "integer"}, "maxItems": 1_000_000_000}, M{"type": "object", "additionalProperties": M{"type": "integer"}, "maxProperties": 1_000_000_000}}},
		"allOf":      {"allOf": A{M{"type": "array", "items": M{"type": "integer"}}, M{"maxItems": 1_000_000_000}}},
		"member":     {"type": "object", "required": A{"a"}, "properties": M{"a": M{"type": "array", "items": M{"type": "integer"}, "maxItems": 1_000_000_000}}},
		"not":        {"type": "array", "items": M{"type": "integer"}, "maxItems": 1_000_000_000, "not": M{"maxItems": 1}},
		"boolean":    {"type": "array", "items": M{"type": "boolean"}, "maxItems": 1_000_000_000},
		"const":      {"type": "array", "items": M{"const": 1}, "maxItems": 1_000_000_000},
	}
	for _, name := range keysOf2(huge) {
		add("huge-"+name, func(t *T) {
			schema := toJSON(huge[name])
			g, err := chaff.ParseSchemaStringWithDefaults(schema)
			if e := metaErrors(g); err != nil || len(e) > 0 {
				t.Violate("spurious-error", schema, "", "%v %v", err, e)
				return
			}
			oracle, err := compileOracle(schema, "", nil)
			if err != nil {
				panic(err)
			}
			for _, cutoff := range []int{100, 0, 20000} {
				run(t, schema, g, chaff.GeneratorOptions{CutoffGenerationSteps: cutoff}, 5, 0)
			}
			for range 5 { // what is left out is only what the schema does not demand
				v, _, ok := generateWithin(g, chaff.GeneratorOptions{CutoffGenerationSteps: 100_000}, t.Rng.Int63(), 4_000_000)
				if ok {
					if raw, err := json.Marshal(v); err == nil {
						if iv := decode(raw); oracle.Validate(iv) != nil {
							t.Violate("invalid", schema, clip(string(raw), 500), "%v", clip(oracle.Validate(iv).Error(), 300))
						}
					}
				}
			}
		})
	}
	// past MaximumGenerationSteps only the bare minimum is generated
	for i, after := range []struct {
		s    M
		size func(v any) int
		min  int
	}{
		{M{"type": "array", "minItems": 2, "maxItems": 9, "items": M{"type": "integer"}}, sizeOf, 2},
		{M{"type": "array", "maxItems": 9, "items": M{"type": "integer"}}, sizeOf, 0},
		{M{"type": "array", "prefixItems": A{M{"type": "string"}}, "maxItems": 9, "items": M{"type": "integer"}}, sizeOf, 1},
		{M{"type": "object", "properties": M{"a": M{}, "b": M{}, "c": M{}, "d": M{}}}, sizeOf, 0},
		{M{"type": "object", "required": A{"a"}, "properties": M{"a": M{"type": "integer"}, "b": M{}, "c": M{}, "d": M{}}}, sizeOf, 1},
		{M{"type": "object", "minProperties": 2, "properties": M{"a": M{"type": "integer"}, "b": M{"type": "integer"}, "c": M{"type": "integer"}, "d": M{"type": "integer"}}}, sizeOf, 2},
		{M{"type": "object", "minProperties": 1, "maxProperties": 8, "additionalProperties": M{"type": "integer"}}, sizeOf, 1},
		{M{"allOf": A{M{"type": "array", "items": M{"type": "integer"}}, M{"minItems": 1}}}, sizeOf, 1},
		{M{"$ref": "#/$defs/x"}, sizeOf, 2},
	} {
		add(fmt.Sprintf("minimum-%02d", i), func(t *T) {
			for _, busy := range []int{150, 400} {
				schema := toJSON(M{"type": "array", "prefixItems": A{ints(busy, busy), after.s, after.s}, "items": false, "minItems": 3, "$defs": M{"x": M{"type": "array", "minItems": 2, "items": M{"type": "integer"}}}})
				g, err := chaff.ParseSchemaStringWithDefaults(schema)
				if e := metaErrors(g); err != nil || len(e) > 0 {
					t.Violate("spurious-error", schema, "", "%v %v", err, e)
					return
				}
				larger := 0
				for n := range 60 {
					max := pick(t.Rng, 0, 1, busy-20) // 0 is the default of 100
					if n%2 == 1 {
						max = busy + 400
					}
					v, _, ok := generateWithin(g, chaff.GeneratorOptions{MaximumGenerationSteps: max, CutoffGenerationSteps: 5000}, t.Rng.Int63(), 100_000)
					a, is := v.([]any)
					if !ok || !is || len(a) != 3 || sizeOf(a[0]) != busy {
						t.Violate("invalid", schema, clip(fmt.Sprint(v), 300), "not what the schema demands")
						return
					}
					t.Event("minimised", fmt.Sprint(max, sizeOf(a[1]), sizeOf(a[2])))
					for _, e := range a[1:] {
						if s := after.size(e); n%2 == 0 && s != after.min {
							t.Violate("not-minimal", schema, toJSON(e), "past the maximum of generation steps (%d) there is more than the bare minimum of %d: %d", max, after.min, s)
							return
						} else if s > after.min {
							larger++
						}
					}
				}
				if larger == 0 {
					t.Violate("minimal", schema, "", "below the maximum of generation steps nothing but the minimum was generated in %d values", 60)
				}
			}
		})
	}
	// a demanding schema keeps near its cutoff as well
	for i, depth := range []int{3, 4, 5, 6} {
		add(fmt.Sprintf("demanding-%d", i), func(t *T) {
			for kind := range 6 {
				s := M{"type": "integer"}
				for level := range depth {
					if kind == 3 && level == 4 { // these are parsed one by one
						break
					}
					switch kind {
					case 0:
						s = M{"type": "array", "minItems": 9, "items": s}
					case 1:
						s = M{"type": "object", "required": A{"a", "b", "c", "d", "e", "f", "g", "h"}, "additionalProperties": s}
					case 2:
						s = M{"type": "object", "minProperties": 8, "patternProperties": M{"^[a-z]{9}$": s}}
					case 3:
						s = M{"type": "array", "prefixItems": A{s, s, s, s, s, s, s, s}, "items": false, "minItems": 8}
					case 4:
						s = M{"type": "array", "contains": s, "minContains": 8, "items": s}
					case 5:
						s = M{"anyOf": A{M{"type": "array", "minItems": 9, "items": s}, M{"type": "array", "minItems": 8, "items": s}}}
					}
				}
				schema := toJSON(s)
				g, err := chaff.ParseSchemaStringWithDefaults(schema)
				if e := metaErrors(g); err != nil || len(e) > 0 {
					t.Violate("spurious-error", schema, "", "%v %v", err, e)
					return
				}
				for _, cutoff := range []int{10, 100, 0, 3000} {
					for _, steps := range []int{0, 1, 100_000} {
						run(t, schema, g, chaff.GeneratorOptions{MaximumGenerationSteps: steps, CutoffGenerationSteps: cutoff}, 3, 0)
					}
				}
			}
		})
	}
	// attempts at what is hard to satisfy, nested in each other
	for i, depth := range []int{1, 2, 3, 4} {
		add(fmt.Sprintf("attempts-%d", i), func(t *T) {
			for kind := range 7 {
				s := M{"type": "integer", "minimum": 0, "maximum": 50}
				for range depth {
					switch kind {
					case 0: // mostly both alternatives match
						s = M{"oneOf": A{M{"type": "array", "minItems": 2, "maxItems": 3, "items": s}, M{"type": "array", "minItems": 2, "items": s, "maxItems": 4}}}
					case 1: // never enough different items
						s = M{"type": "array", "minItems": 5, "maxItems": 6, "uniqueItems": true, "items": M{"enum": A{1, 2, 3}}, "prefixItems": A{s}}
					case 2:
						s = M{"type": "array", "minItems": 2, "maxItems": 3, "items": s, "not": M{"contains": M{"type": "integer", "maximum": 49}}}
					case 3:
						s = M{"type": "object", "properties": M{"a": s, "b": M{"type": "integer"}}, "required": A{"a", "b"}, "if": M{"properties": M{"b": M{"minimum": 3}}}, "then": M{"properties": M{"b": M{"multipleOf": 29}}}}
					case 4:
						s = M{"type": "array", "minItems": 2, "uniqueItems": true, "items": s}
					case 5:
						s = M{"type": "object", "required": A{"a", "b"}, "properties": M{"a": s, "b": s}, "not": M{"properties": M{"c": M{}}, "required": A{"c"}}}
					case 6:
						s = M{"oneOf": A{M{"type": "object", "required": A{"a"}, "properties": M{"a": s}}, M{"type": "object", "required": A{"a"}, "properties": M{"a": s, "b": M{"type": "null"}}}}}
					}
				}
				schema := toJSON(s)
				g, _ := chaff.ParseSchemaStringWithDefaults(schema)
				for _, cutoff := range []int{100, 0} {
					for _, attempts := range []int{0, 3, 1000} {
						run(t, schema, g, chaff.GeneratorOptions{CutoffGenerationSteps: cutoff, MaximumOneOfAttempts: attempts, MaximumIfAttempts: attempts, MaximumUniqueGeneratorAttempts: attempts}, 4, 0)
					}
				}
			}
		})
	}
	// the depth of references
	chains := map[string]M{
		"property": {"type": "object", "required": A{"n"}, "properties": M{"n": M{"$ref": "#"}}},
		"items":    {"type": "array", "minItems": 1, "maxItems": 1, "items": M{"$ref": "#"}},
		"tuple":    {"type": "array", "prefixItems": A{M{"$ref": "#"}}, "items": false, "minItems": 1},
		"defs":     {"$ref": "#/$defs/n", "$defs": M{"n": M{"type": "object", "required": A{"n"}, "properties": M{"n": M{"$ref": "#/$defs/n"}}}}},
		"mutual":   {"$ref": "#/$defs/a", "$defs": M{"a": M{"type": "object", "required": A{"n"}, "properties": M{"n": M{"$ref": "#/$defs/b"}}}, "b": M{"type": "array", "minItems": 1, "maxItems": 1, "items": M{"$ref": "#/$defs/a"}}}},
		"addition": {"type": "object", "required": A{"n"}, "additionalProperties": M{"$ref": "#"}},
	}
	for _, name := range keysOf2(chains) {
		add("reference-depth-"+name, func(t *T) {
			schema := toJSON(chains[name])
			g, err := chaff.ParseSchemaStringWithDefaults(schema)
			if e := metaErrors(g); err != nil || len(e) > 0 {
				t.Violate("spurious-error", schema, "", "%v %v", err, e)
				return
			}
			for _, d := range []int{1, 2, 3, 7, 0, 25, 60, 150} {
				want := d
				if want == 0 {
					want = 10
				}
				for _, bypass := range []bool{true, false} {
					v, draws, ok := generateWithin(g, chaff.GeneratorOptions{MaximumReferenceDepth: d, BypassCyclicReferenceCheck: bypass, CutoffGenerationSteps: 10_000, MaximumGenerationSteps: 10_000}, t.Rng.Int63(), 100_000)
					_, depth := countNodes(v)
					t.Event("reference depths", fmt.Sprint(d, bypass, depth, draws))
					t.Sample(schema, fmt.Sprintf("maximum depth %d, bypass %v: depth %d", d, bypass, depth))
					switch {
					case !ok:
						t.Violate("budget", schema, "", "more than %d draws for a chain of references", draws)
					case bypass && (depth > want+4 || depth < want-1):
						t.Violate("reference-depth", schema, clip(toJSON(v), 300), "with a maximum of %d references the value is %d levels deep", want, depth)
					case !bypass && depth > 6:
						t.Violate("reference-depth", schema, clip(toJSON(v), 300), "a reference is resolved within itself although cyclic references are not bypassed (%d levels)", depth)
					case findMarker(v) == "":
						t.Violate("silent", schema, clip(toJSON(v), 300), "nothing tells that the recursion was ended")
					}
				}
			}
		})
	}
	// the depth of parsing
	nests := map[string]func(s M) M{
		"properties": func(s M) M { return M{"type": "object", "required": A{"n"}, "properties": M{"n": s}} },
		"items":      func(s M) M { return M{"type": "array", "minItems": 1, "maxItems": 1, "items": s} },
		"tuple":      func(s M) M { return M{"type": "array", "prefixItems": A{s}, "items": false, "minItems": 1} },
		"additional": func(s M) M { return M{"type": "object", "required": A{"n"}, "additionalProperties": s} },
		"anyOf":      func(s M) M { return M{"anyOf": A{M{"type": "array", "minItems": 1, "maxItems": 1, "items": s}}} },
		"contains":   func(s M) M { return M{"type": "array", "minItems": 1, "maxItems": 1, "contains": s} },
	}
	for _, name := range keysOf2(nests) {
		add("parse-depth-"+name, func(t *T) {
			for _, limit := range []int{5, 20, 0, 300} {
				want := limit
				if want == 0 {
					want = 100
				}
				for _, levels := range []int{1, want / 3, want / 2, want - 2, want, want + 1, 2 * want, 4 * want} {
					if levels < 1 || levels > 700 {
						continue
					}
					s := M{"type": "integer"}
					for range levels {
						s = nests[name](s)
					}
					schema := toJSON(s)
					g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{MaxParseDepth: limit})
					errs := metaErrors(g)
					failed := err != nil || len(errs) > 0
					t.Event("parse depths", fmt.Sprint(limit, levels, failed))
					clear := levels*2+2 <= want
					if clear && failed {
						t.Violate("spurious-error", schema, "", "%d levels of %s with a limit of %d: %v %s", levels, name, want, err, clip(fmt.Sprint(errs), 300))
						return
					}
					if levels > want && !failed {
						t.Violate("unreported", schema, "", "%d levels of %s with a limit of %d are not reported", levels, name, want)
						return
					}
					if !failed {
						v, _, ok := generateWithin(g, chaff.GeneratorOptions{CutoffGenerationSteps: 100_000, MaximumGenerationSteps: 50_000}, t.Rng.Int63(), 1_000_000)
						if _, depth := countNodes(v); !ok || depth < levels+1 {
							t.Violate("truncated", schema, clip(toJSON(v), 300), "%d levels of %s with a limit of %d: the value has only %d", levels, name, want, depth-1)
							return
						}
					}
				}
			}
		})
	}
	return cases
}

func init() {
	register(Check{Prop: "V15", Rule: "a generation whose draws, size and depth were measured (distinct by options and measures)", Cases: budgetCases})
}
