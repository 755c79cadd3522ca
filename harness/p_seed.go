package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

// V24: what is generated follows from the source of randomness.

// seedSchema builds schemas whose values are made by the given source only (free texts and expressions have a source of
// their own, as documented)
func seedSchema(r *mrand.Rand, depth int, refs ...string) M {
	sub := func() M { return seedSchema(r, depth-1, refs...) }
	subs := func(n int) A {
		a := A{}
		for range n {
			a = append(a, sub())
		}
		return a
	}
	names := []string{"a", "b", "c", "d", "e", "f", "g"}
	k := 28
	if depth <= 0 {
		k = 8
	}
	switch r.Intn(k) {
	case 0, 1:
		return M{"type": "integer", "minimum": -r.Intn(1000), "maximum": r.Intn(1000)}
	case 2:
		return M{"type": "number"}
	case 3:
		return M{"type": "boolean"}
	case 4, 5:
		return M{"enum": A{1, "two", nil, A{4}, M{"five": 6}, false}}
	case 6:
		return pick(r, M{"const": "c"}, M{"type": "null"}, M{"type": A{"integer", "null", "boolean"}})
	case 7:
		return M{"type": "number", "multipleOf": json.Number("0.5"), "minimum": 1, "maximum": 90}
	case 8, 9:
		return M{"type": "array", "items": sub(), "maxItems": 6}
	case 10:
		return M{"type": "array", "prefixItems": subs(1 + r.Intn(3)), "items": sub()}
	case 11:
		return M{"type": "array", "contains": M{"const": 3}, "minContains": 1 + r.Intn(2), "items": M{"type": "integer", "maximum": 90}, "minItems": 2}
	case 12:
		return M{"type": "array", "uniqueItems": true, "items": M{"type": "integer", "maximum": 12}, "maxItems": 9, "minItems": 4}
	case 13, 14, 15, 16:
		props := M{}
		for _, n := range names[:r.Intn(len(names))+1] {
			props[n] = sub()
		}
		req := A{}
		for _, n := range keysOf(props) {
			if r.Intn(4) == 0 {
				req = append(req, n)
			}
		}
		s := M{"type": "object", "properties": props, "required": req}
		if r.Intn(3) == 0 {
			s["additionalProperties"] = sub()
			s["minProperties"] = r.Intn(4)
		}
		if r.Intn(3) == 0 {
			s["maxProperties"] = max(len(req), len(props)-1) + 2
		}
		return s
	case 17, 18:
		return M{"anyOf": subs(2 + r.Intn(3))}
	case 19:
		return M{"oneOf": A{M{"type": "array", "maxItems": 3, "items": sub()}, M{"type": "object", "properties": M{"x": sub(), "y": sub(), "z": sub()}}, M{"type": "integer"}}}
	case 20:
		return M{"allOf": A{M{"type": "object", "properties": M{"p": sub(), "q": sub()}}, M{"type": "object", "properties": M{"r": sub(), "s": sub()}}}}
	case 21:
		return M{"type": "object", "properties": M{"k": M{"type": "integer", "maximum": 9, "minimum": 0}, "l": sub(), "m": sub()}, "if": M{"properties": M{"k": M{"minimum": 5}}}, "then": M{"required": A{"l"}}, "else": M{"required": A{"m"}}}
	case 23, 24: // several conditions at once
		props, all := M{}, A{}
		for i, n := range names[:2+r.Intn(4)] {
			props[n] = M{"type": "integer", "minimum": 0, "maximum": 20}
			all = append(all, M{"if": M{"properties": M{n: M{"minimum": r.Intn(12)}}}, "then": M{"properties": M{n + n: M{"type": "integer", "minimum": i}}, "required": A{n + n}}})
		}
		return M{"type": "object", "properties": props, "required": A{"a", "b"}, "allOf": all}
	case 25:
		return M{"type": "object", "properties": M{"k": M{"type": "integer", "minimum": 0, "maximum": 9}, "l": sub()}, "allOf": A{M{"anyOf": A{M{"required": A{"k"}}, M{"required": A{"l"}}}}, M{"oneOf": A{M{"properties": M{"k": M{"minimum": 4}}, "required": A{"k"}}, M{"properties": M{"k": M{"maximum": 5}}, "required": A{"k"}}}}}}
	case 26:
		return M{"type": "array", "prefixItems": A{M{"type": "integer", "minimum": 0, "maximum": 6}, sub()}, "minItems": 2, "items": M{"type": "boolean"}, "allOf": A{M{"if": M{"prefixItems": A{M{"minimum": 2}}}, "then": M{"minItems": 3}}, M{"if": M{"prefixItems": A{M{"minimum": 4}}}, "then": M{"maxItems": 6}, "else": M{"minItems": 2}}}}
	case 22:
		return M{"type": "integer", "minimum": 0, "maximum": 40, "not": pick(r, M{"multipleOf": 3}, M{"minimum": 20}, M{"enum": A{1, 2, 3}})}
	default:
		if len(refs) == 0 {
			return M{"type": "integer"}
		}
		return M{"$ref": "#/$defs/" + refs[r.Intn(len(refs))]}
	}
}

func seedCases(cfg Cfg) []Case {
	cases := []Case{}
	optSets := []chaff.GeneratorOptions{{}, {MaximumGenerationSteps: 1000, CutoffGenerationSteps: 5000}, {MaximumGenerationSteps: 10, CutoffGenerationSteps: 60}, {DefaultArrayMinItems: 2, DefaultObjectMaxProperties: 3}, {BypassCyclicReferenceCheck: true, MaximumReferenceDepth: 3}}
	for i := range cfg.Scale(600, 12000) {
		id := fmt.Sprintf("seed-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			s := seedSchema(r, 3, "s0", "s1", "s2")
			s["$defs"] = M{"s0": seedSchema(r, 1, "s1", "s2"), "s1": seedSchema(r, 1, "s2"), "s2": seedSchema(r, 1), "s3": M{"type": "object", "properties": M{"v": M{"type": "integer"}, "n": M{"type": "array", "maxItems": 2, "items": M{"$ref": "#/$defs/s3"}}}}}
			if i%7 == 0 {
				s = M{"$ref": "#/$defs/s3", "$defs": s["$defs"]}
			}
			if _, ok := s["$ref"]; !ok && i%3 == 0 {
				s = M{"type": "array", "prefixItems": A{s, seedSchema(r, 1, "s0"), seedSchema(r, 1, "s1")}, "$defs": s["$defs"]}
			}
			schema := toJSON(s)
			parse := func() chaff.RootGenerator {
				g, _ := chaff.ParseSchemaStringWithDefaults(schema)
				return g
			}
			g := parse()
			values := map[string]bool{}
			for n := range 8 {
				o := optSets[n%len(optSets)]
				seed := r.Int63()
				gen := func(g chaff.RootGenerator) string {
					o := o
					o.Rand = rand.NewRandUtil(seed)
					raw, err := json.Marshal(g.Generate(&o))
					if err != nil {
						t.Violate("not-json", schema, "", "%v", err)
					}
					return string(raw)
				}
				want := gen(g)
				values[want] = true
				t.Event("seeds", fmt.Sprint(n, want))
				t.Sample(schema, want)
				differs := func(how, got string) {
					if got != want {
						t.Violate("seed", schema, got, "the same seed gives another value %s: first %s", how, clip(want, 300))
					}
				}
				differs("a second time", gen(g))
				g.GenerateWithDefaults()
				differs("after other values were generated", gen(g))
				differs("parsed again", gen(parse()))
				var wg sync.WaitGroup
				got := make([]string, 3)
				for w := range got {
					wg.Add(1)
					go func() {
						defer wg.Done()
						got[w] = gen(g)
					}()
				}
				wg.Wait()
				for _, v := range got {
					differs("in another goroutine", v)
				}
				if t.Failed() {
					return
				}
			}
		}})
	}
	// the named seeds
	cases = append(cases, Case{ID: "named", Run: func(t *T) {
		g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"array","minItems":20,"maxItems":20,"items":{"type":"integer","maximum":1000000000}}`)
		if err != nil {
			panic(err)
		}
		seen := map[string]string{}
		for i := range 300 {
			name := fmt.Sprintf("%x", t.Rng.Int63()>>(t.Rng.Intn(50)))
			if i == 0 {
				name = ""
			}
			a := toJSON(g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtilFromString(name)}))
			b := toJSON(g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtilFromString(name)}))
			if a != b {
				t.Violate("seed", name, a, "the same named seed gives another value: %s", b)
				return
			}
			seen[a] = name
			t.Event("named seeds", name)
		}
		if len(seen) < 100 {
			t.Violate("seed", "", "", "300 named seeds only give %d different values", len(seen))
		}
		for range 20 {
			seed := t.Rng.Int63()
			first := toJSON(g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(seed)}))
			for bit := range 62 {
				v := toJSON(g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(seed ^ 1<<bit)}))
				t.Event("seeds that differ in one bit", v)
				if v == first {
					t.Violate("seed", fmt.Sprint(seed), clip(v, 200), "the seeds %d and %d give the same value", seed, seed^1<<bit)
					return
				}
			}
		}
		times := map[string]bool{}
		for range 50 {
			times[toJSON(g.GenerateWithDefaults())] = true
			times[toJSON(g.Generate(&chaff.GeneratorOptions{}))] = true
		}
		if len(times) < 2 {
			t.Violate("seed", "", "", "without a seed the same value is generated every time")
		}
	}})
	return cases
}

func init() {
	register(Check{Prop: "V24", Rule: "a seed whose value was generated again in six ways (distinct by value)", Cases: seedCases})
}
