package main

import (
	"encoding/json"
	"fmt"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

// ---- V23 options fill in what the schema leaves open, and only that

func optionCases(cfg Cfg) []Case {
	cases := []Case{}
	// the sizes seen at a place of the generated values
	type place struct {
		name string
		wrap func(s M) M
		at   func(v any) []any
	}
	places := []place{
		{"root", func(s M) M { return s }, func(v any) []any { return []any{v} }},
		{"property", func(s M) M { return M{"type": "object", "properties": M{"p": s}, "required": A{"p"}} }, func(v any) []any { return []any{v.(map[string]any)["p"]} }},
		{"tuple", func(s M) M { return M{"type": "array", "prefixItems": A{s, s}, "items": false} }, func(v any) []any { return v.([]any) }},
		{"reference", func(s M) M { return M{"$ref": "#/$defs/d", "$defs": M{"d": s}} }, func(v any) []any { return []any{v} }},
		{"combined", func(s M) M { return M{"allOf": A{s, M{"$ref": "#/$defs/d"}}, "$defs": M{"d": M{"type": s["type"]}}} }, func(v any) []any { return []any{v} }},
		{"alternative", func(s M) M { return M{"oneOf": A{s, M{"type": "null"}}} }, func(v any) []any {
			if v == nil {
				return nil
			}
			return []any{v}
		}},
	}
	add := func(id string, schema M, p place, o chaff.GeneratorOptions, lo, hi int, n int) {
		cases = append(cases, Case{ID: id + "-" + p.name, Run: func(t *T) {
			s := p.wrap(clone(schema).(M))
			text := toJSON(s)
			g, err := chaff.ParseSchemaStringWithDefaults(text)
			if err != nil || len(metaErrors(g)) > 0 {
				t.Violate("spurious-error", text, "", "%v %v", err, metaErrors(g))
				return
			}
			seen := map[int]int{}
			for range n {
				o := o
				o.Rand = rand.NewRandUtil(t.Rng.Int63())
				raw, _ := json.Marshal(g.Generate(&o))
				var v any
				json.Unmarshal(raw, &v)
				for _, x := range p.at(v) {
					size := -1
					switch c := x.(type) {
					case []any:
						size = len(c)
					case map[string]any:
						size = len(c)
					}
					seen[size]++
					t.Event("sizes", fmt.Sprint(size))
					t.Sample(text, string(raw))
					if size < lo || size > hi {
						t.Violate("size", text, string(raw), "size %d, the options and the schema allow %d to %d (%s)", size, lo, hi, toJSON(o))
						return
					}
				}
			}
			for k := lo; k <= hi; k++ {
				if seen[k] == 0 {
					t.Violate("unreachable", text, fmt.Sprint(seen), "size %d never turns up in %d values, the options and the schema allow %d to %d (%s)", k, n, lo, hi, toJSON(o))
					return
				}
			}
		}})
	}
	minOf := func(m M, k string) int {
		if v, ok := m[k]; ok {
			return v.(int)
		}
		return -1
	}
	for i, d := range [][2]int{{0, 0}, {0, 3}, {2, 5}, {4, 4}, {0, 25}, {3, 0}, {7, 2}, {12, 15}, {1, 1}, {20, 0}} {
		dmin, dmax := d[0], d[1]
		emax := dmax
		if emax == 0 {
			emax = 10
		}
		for j, lim := range []M{{}, {"minItems": 2}, {"maxItems": 3}, {"minItems": 1, "maxItems": 6}, {"minItems": 6}, {"minItems": 4, "maxItems": 4}, {"maxItems": 30}, {"minItems": 15}} {
			smin, smax := minOf(lim, "minItems"), minOf(lim, "maxItems")
			lo, hi := dmin, 0
			if smin > 0 {
				lo = smin
			}
			switch {
			case smax >= 0:
				hi = smax
				lo = min(lo, smax)
			case smin > 0: // the default is counted from the minimum
				hi = smin + emax
			default:
				hi = emax
				if hi < lo {
					hi = lo + emax
				}
			}
			s := clone(lim).(M)
			s["type"], s["items"] = "array", M{"type": "null"}
			o := chaff.GeneratorOptions{DefaultArrayMinItems: dmin, DefaultArrayMaxItems: dmax, MaximumGenerationSteps: 5000, CutoffGenerationSteps: 50000}
			add(fmt.Sprintf("array-%d-%d", i, j), s, places[(i+j)%len(places)], o, lo, hi, 1200)
		}
		for j, lim := range []M{{}, {"minProperties": 2}, {"maxProperties": 3}, {"minProperties": 1, "maxProperties": 6}, {"minProperties": 6}, {"minProperties": 4, "maxProperties": 4}, {"maxProperties": 30}, {"minProperties": 15}} {
			smin, smax := minOf(lim, "minProperties"), minOf(lim, "maxProperties")
			lo, hi := dmin, emax
			if smin > 0 {
				lo = smin
			}
			if smax >= 0 {
				hi = smax
				lo = min(lo, smax)
			} else if hi < lo {
				hi = lo + emax
			}
			for k := 0; k < 2; k++ {
				s := clone(lim).(M)
				s["type"], s["additionalProperties"] = "object", M{"type": "null"}
				if k == 1 { // some of them are declared
					s["properties"] = M{"a": M{"type": "null"}, "b": M{"type": "null"}}
				}
				o := chaff.GeneratorOptions{DefaultObjectMinProperties: dmin, DefaultObjectMaxProperties: dmax, MaximumGenerationSteps: 5000, CutoffGenerationSteps: 50000}
				add(fmt.Sprintf("object-%d-%d-%d", i, j, k), s, places[(i+j+k)%len(places)], o, lo, hi, 1200)
			}
		}
	}
	// without any options the same sizes turn up
	for i, s := range []M{{"type": "array", "items": M{"type": "null"}}, {"type": "object", "additionalProperties": M{"type": "null"}}} {
		cases = append(cases, Case{ID: fmt.Sprintf("defaults-%d", i), Run: func(t *T) {
			g, err := chaff.ParseSchemaStringWithDefaults(toJSON(s))
			if err != nil {
				panic(err)
			}
			seen := map[string]map[int]bool{"defaults": {}, "empty": {}}
			for range 1500 {
				for how, v := range map[string]any{"defaults": g.GenerateWithDefaults(), "empty": g.Generate(&chaff.GeneratorOptions{})} {
					n := strings.Count(toJSON(v), "null")
					seen[how][n] = true
					t.Event(how, fmt.Sprint(n))
					if n > 10 {
						t.Violate("size", toJSON(s), toJSON(v), "size %d without any option (%s)", n, how)
						return
					}
				}
			}
			for how, sizes := range seen {
				if len(sizes) != 11 {
					t.Violate("unreachable", toJSON(s), how, "%d of the sizes 0 to 10 turn up", len(sizes))
				}
			}
		}})
	}
	// numbers and texts
	for i, c := range []struct {
		schema string
		o      chaff.GeneratorOptions
		ok     func(v any) bool
	}{
		{`{"type":"integer"}`, chaff.GeneratorOptions{DefaultNumberMinimum: 40, DefaultNumberMaximum: 45}, func(v any) bool { n, ok := v.(int); return ok && n >= 40 && n <= 45 }},
		{`{"type":"number"}`, chaff.GeneratorOptions{DefaultNumberMinimum: 40, DefaultNumberMaximum: 45}, func(v any) bool { n, ok := v.(float64); return ok && n >= 40 && n <= 45 }},
		{`{"type":"string"}`, chaff.GeneratorOptions{DefaultStringMinLength: 2, DefaultStringMaxLength: 5}, func(v any) bool { s, ok := v.(string); return ok && len(s) >= 2 && len(s) <= 5 }},
	} {
		cases = append(cases, Case{ID: fmt.Sprintf("default-%s", []string{"integer-bounds", "number-bounds", "string-lengths"}[i]), Run: func(t *T) {
			g, err := chaff.ParseSchemaStringWithDefaults(c.schema)
			if err != nil {
				panic(err)
			}
			for range 50 {
				o := c.o
				o.Rand = rand.NewRandUtil(t.Rng.Int63())
				v := g.Generate(&o)
				t.Event("values", toJSON(v))
				if !c.ok(v) {
					t.Violate("ignored-option", c.schema, toJSON(v), "the default limits of the options are not followed (%s)", toJSON(c.o))
					return
				}
			}
		}})
	}
	return cases
}

func init() {
	register(Check{Prop: "V23", Rule: "a distinct size seen for one schema, place and option set, within what options and schema allow together; every such size has to turn up", Cases: optionCases})
}
