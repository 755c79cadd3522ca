package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- V22 everything the schema leaves open turns up

// labelled is a schema together with the observations that have to turn up in its values
type labelled struct {
	s    M
	want []string
	kind string
}

type labeller struct {
	r *mrand.Rand
	n int
}

func (l *labeller) id() int { l.n++; return l.n }

func (l *labeller) consts(n int) (A, []string) {
	vals, want := A{}, []string{}
	for range n {
		v := fmt.Sprintf("L%d.", l.id())
		vals = append(vals, v)
		want = append(want, v)
	}
	return vals, want
}

// leaf makes a schema that leaves a choice
func (l *labeller) leaf() labelled {
	r := l.r
	switch r.Intn(15) {
	case 0:
		vals, want := l.consts(1 + r.Intn(6))
		return labelled{M{"enum": vals}, want, "enum"}
	case 1:
		vals, want := l.consts(2 + r.Intn(4))
		alts := A{}
		for _, v := range vals {
			alts = append(alts, pick(r, M{"const": v}, M{"enum": A{v}}, M{"type": "string", "const": v}))
		}
		return labelled{M{pick(r, "oneOf", "anyOf"): alts}, want, "alternatives"}
	case 2: // alternatives of different kinds
		k := fmt.Sprintf("kd%d", l.id())
		return labelled{M{"type": "object", "properties": M{k: M{pick(r, "oneOf", "anyOf"): A{M{"type": "string"}, M{"type": "boolean"}, M{"type": "null"}, M{"type": "array"}, M{"type": "object"}}}}, "required": A{k}},
			[]string{k + "=string", k + "=true", k + "=false", k + "=null", k + "=array", k + "=object"}, "kinds of alternatives"}
	case 3: // optional properties
		tag := fmt.Sprintf("tag%d", l.id())
		props := M{tag: M{"const": 1}}
		want := []string{}
		for range 1 + r.Intn(4) {
			k := fmt.Sprintf("opt%d_%s", l.id(), tag)
			props[k] = M{"const": 0}
			want = append(want, "with "+k, "without "+k)
		}
		return labelled{M{"type": "object", "properties": props, "required": A{tag}}, want, "optional properties"}
	case 4: // optional property with a choice
		k := fmt.Sprintf("o%d", l.id())
		vals, want := l.consts(2 + r.Intn(2))
		return labelled{M{"type": "object", "properties": M{k: M{"enum": vals}}}, append(want, ""), "choice in an optional property"}
	case 5, 6: // numbers of items
		k := fmt.Sprintf("sz%d", l.id())
		a := M{"type": "array", "items": pick(r, M{"const": 1}, M{"type": "boolean"}, M{})}
		lo, hi := 0, 10
		if r.Intn(2) == 0 {
			lo = r.Intn(4)
			a["minItems"] = lo
			hi = lo + 10
		}
		if r.Intn(2) == 0 {
			hi = lo + 1 + r.Intn(5)
			a["maxItems"] = hi
		}
		if r.Intn(4) == 0 {
			a["prefixItems"] = A{M{"const": 2}}
			lo = max(lo, 1)
		}
		if r.Intn(8) == 0 {
			a["prefixItems"] = A{M{"const": 2}}
			a["contains"] = M{"const": 3}
			delete(a, "items")
			lo, hi = max(lo, 2), max(hi, 2)
			if _, ok := a["maxItems"]; ok {
				a["maxItems"] = hi
			} else {
				hi = lo // at least
			}
		}
		return labelled{M{"type": "object", "properties": M{k: a}, "required": A{k}}, sizes(k, lo, hi), "numbers of items"}
	case 7, 8: // numbers of properties
		k := fmt.Sprintf("sz%d", l.id())
		o := M{"type": "object", "additionalProperties": M{"const": 1}}
		lo, hi := 0, 10
		if r.Intn(2) == 0 {
			lo = r.Intn(4)
			o["minProperties"] = lo
		}
		if r.Intn(2) == 0 {
			hi = lo + 1 + r.Intn(5)
			o["maxProperties"] = hi
		}
		switch r.Intn(4) {
		case 0:
			o["required"] = A{"q", "r"}
			if hi < 2 {
				hi = 2
				o["maxProperties"] = hi
			}
			lo = max(lo, 2)
		case 1:
			o["properties"] = M{"a": M{}, "b": M{}, "c": M{}}
		}
		return labelled{M{"type": "object", "properties": M{k: o}, "required": A{k}}, sizes(k, lo, hi), "numbers of properties"}
	case 9: // patterns
		vals, want := l.consts(2 + r.Intn(2))
		pats := M{}
		for i, v := range vals {
			pats[fmt.Sprintf("^%c[a-z]{3}$", 'a'+i)] = M{"const": v}
		}
		return labelled{M{"type": "object", "patternProperties": pats, "additionalProperties": false}, want, "pattern properties"}
	case 10: // both sides of a condition
		k, x := fmt.Sprintf("c%d", l.id()), fmt.Sprintf("x%d", l.id())
		vals, want := l.consts(4)
		return labelled{M{"type": "object", "properties": M{k: M{"enum": vals[:2]}, x: M{"type": "string"}}, "required": A{k, x}, "if": M{"properties": M{k: M{"const": vals[0]}}},
			"then": M{"properties": M{x: M{"const": vals[2]}}}, "else": M{"properties": M{x: M{"const": vals[3]}}}}, want, "sides of a condition"}
	case 11: // types
		k := fmt.Sprintf("kd%d", l.id())
		all := []string{"string", "null", "array", "object", "boolean", "integer", "number"}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		types, want := A{}, []string{}
		for _, t := range all[:1+r.Intn(6)] {
			types = append(types, t)
			switch t {
			case "boolean":
				want = append(want, k+"=true", k+"=false")
			case "integer", "number":
				want = append(want, k+"=number")
			default:
				want = append(want, k+"="+t)
			}
		}
		s := M{"type": types}
		if len(types) == 6 {
			s, want = M{}, []string{k + "=string", k + "=null", k + "=array", k + "=object", k + "=true", k + "=false", k + "=number"}
		}
		return labelled{M{"type": "object", "properties": M{k: s}, "required": A{k}}, want, "types"}
	case 12: // numbers
		k := fmt.Sprintf("nu%d", l.id())
		lo := r.Intn(7) - 3
		hi, step := lo+1+r.Intn(6), 1
		s := M{"type": "integer"}
		s["minimum"], s["maximum"] = lo, hi
		if r.Intn(3) == 0 {
			delete(s, "minimum")
			s["exclusiveMinimum"] = lo - 1
		}
		if r.Intn(3) == 0 {
			delete(s, "maximum")
			s["exclusiveMaximum"] = hi + 1
		}
		if r.Intn(3) == 0 {
			step = 2
			s["multipleOf"] = 2
		}
		want := []string{}
		for v := lo; v <= hi; v++ {
			if v%step == 0 {
				want = append(want, fmt.Sprintf("%s=%d", k, v))
			}
		}
		return labelled{M{"type": "object", "properties": M{k: s}, "required": A{k}}, want, "numbers"}
	case 13: // what is left of an enumeration
		vals, want := l.consts(3 + r.Intn(3))
		return labelled{M{"enum": vals, "not": pick(r, M{"const": vals[0]}, M{"enum": A{vals[0]}})}, want[1:], "negated enumeration"}
	default: // parts combined
		vals, want := l.consts(5)
		return labelled{M{"allOf": A{M{"enum": vals[:4]}, M{"enum": vals[1:]}}}, want[1:4], "combined enumerations"}
	}
}

func sizes(k string, lo, hi int) []string {
	out := []string{}
	for n := lo; n <= hi; n++ {
		out = append(out, fmt.Sprintf("%s=%d", k, n))
	}
	return out
}

// wrap puts the schema somewhere where it applies to a part of every value
func (l *labeller) wrap(x labelled, defs M) labelled {
	r := l.r
	k := fmt.Sprintf("p%d", l.id())
	switch r.Intn(14) {
	case 0:
		x.s = M{"type": "object", "properties": M{k: x.s}, "required": A{k}}
	case 1:
		x.s = M{"type": "array", "items": x.s, "minItems": 1, "maxItems": 2}
	case 2:
		x.s = M{"type": "array", "prefixItems": A{M{"type": "null"}, x.s}, "items": false}
	case 3:
		x.s = M{"allOf": A{x.s}}
	case 4:
		d := fmt.Sprintf("d%d", l.id())
		defs[d] = x.s
		x.s = M{"$ref": "#/$defs/" + d}
	case 5:
		x.s = M{pick(r, "oneOf", "anyOf"): A{x.s}}
	case 6:
		x.s = M{"type": "object", "additionalProperties": x.s, "minProperties": 1, "maxProperties": 2}
	case 7:
		x.s = M{"type": "object", "patternProperties": M{"^[a-z]{4}$": x.s}, "additionalProperties": false, "minProperties": 1, "maxProperties": 2}
	case 8:
		x.s = M{"type": "object", "properties": M{k: M{"const": 1}}, "required": A{k, k + "v"}, "if": M{"properties": M{k: M{"const": 1}}}, "then": M{"properties": M{k + "v": x.s}}}
	case 9:
		x.s = M{"type": "array", "contains": x.s, "minItems": 1, "maxItems": 2}
	case 10:
		d := fmt.Sprintf("d%d", l.id())
		defs[d] = x.s
		x.s = M{"allOf": A{M{"$ref": "#/$defs/" + d}}}
	case 11:
		y := l.leaf()
		x.s = M{pick(r, "oneOf", "anyOf"): A{M{"type": "object", "properties": M{k: x.s}, "required": A{k}, "additionalProperties": false}, M{"type": "object", "properties": M{k + "o": y.s}, "required": A{k + "o"}, "additionalProperties": false}}}
		x.want = append(append([]string{}, x.want...), y.want...)
	case 12:
		y := l.leaf()
		x.s = M{"type": "object", "properties": M{k: x.s, k + "o": y.s}, "required": A{k, k + "o"}}
		x.want = append(append([]string{}, x.want...), y.want...)
	case 13:
		x.s = M{"type": "object", "properties": M{k: x.s}, "required": A{k}, "not": M{"required": A{"never"}}}
	}
	return x
}

// observe collects what a value shows
func observe(v any, see func(string)) {
	switch x := v.(type) {
	case string:
		see(x)
	case []any:
		for _, e := range x {
			observe(e, see)
		}
	case map[string]any:
		for k, e := range x {
			switch {
			case strings.HasPrefix(k, "sz"):
				switch c := e.(type) {
				case []any:
					see(fmt.Sprintf("%s=%d", k, len(c)))
				case map[string]any:
					see(fmt.Sprintf("%s=%d", k, len(c)))
				}
			case strings.HasPrefix(k, "nu"):
				see(fmt.Sprintf("%s=%v", k, e))
			case strings.HasPrefix(k, "kd"):
				switch c := e.(type) {
				case nil:
					see(k + "=null")
				case bool:
					see(fmt.Sprintf("%s=%v", k, c))
				case string:
					see(k + "=string")
				case []any:
					see(k + "=array")
				case map[string]any:
					see(k + "=object")
				default:
					see(k + "=number")
				}
			case strings.HasPrefix(k, "tag"):
				see("tag " + k)
			case strings.HasPrefix(k, "opt"):
				see("with " + k)
			default:
				observe(e, see)
			}
		}
	}
}

func diverseCases(cfg Cfg) []Case {
	cases := []Case{}
	run := func(id string, build func(l *labeller, defs M) labelled, n int) {
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			l := &labeller{r: subRng(cfg.Seed, "V22", id)}
			defs := M{}
			x := build(l, defs)
			s := M{}
			for k, v := range x.s {
				s[k] = v
			}
			if len(defs) > 0 {
				s["$defs"] = defs
			}
			text := toJSON(s)
			g, err := chaff.ParseSchemaString(text, &chaff.ParserOptions{})
			if errs := metaErrors(g); err != nil || len(errs) > 0 {
				t.Violate("spurious-error", text, "", "errors reported for a satisfiable supported schema: %v %s", err, strings.Join(errs, "; "))
				return
			}
			seen := map[string]int{}
			for i := 0; i < n; i++ {
				opts := chaff.GeneratorOptions{MaximumGenerationSteps: 1000, CutoffGenerationSteps: 100000}
				if i%2 == 0 {
					opts = chaff.GeneratorOptions{MaximumGenerationSteps: 1000}
				}
				opts.Rand, _ = newCountingRand(t.Rng.Int63(), 0)
				v := g.Generate(&opts)
				var iv any
				raw, err := json.Marshal(v)
				if err == nil {
					err = json.Unmarshal(raw, &iv)
				}
				if err != nil {
					t.Violate("not-json", text, fmt.Sprint(v), "%v", err)
					return
				}
				once := map[string]bool{}
				observe(iv, func(o string) { once[o] = true })
				withs := map[string]bool{}
				for o := range once {
					if strings.HasPrefix(o, "with ") {
						withs[o] = true
					}
				}
				// an optional property is absent where its object is there
				for _, w := range x.want {
					if k, ok := strings.CutPrefix(w, "without "); ok && !withs["with "+k] {
						_, tag, _ := strings.Cut(k, "_")
						if once["tag "+tag] {
							once[w] = true
						}
					}
				}
				for o := range once {
					seen[o]++
					if seen[o] == 1 {
						t.Event("outcomes", o)
					}
				}
				t.Sample(text, string(raw))
			}
			for _, w := range x.want {
				if w != "" && seen[w] == 0 {
					t.Violate("unreachable", text, w, "nothing with %q turned up in %d values (%s)", w, n, x.kind)
					return
				}
				if w != "" {
					t.Count("choices covered", 1)
				}
			}
		}})
	}
	cases = append(cases, spreadCases()...)
	for i := range cfg.Scale(250, 4000) {
		run(fmt.Sprintf("plain-%04d", i), func(l *labeller, defs M) labelled { return l.leaf() }, 600)
	}
	for i := range cfg.Scale(500, 12000) {
		run(fmt.Sprintf("wrapped-%04d", i), func(l *labeller, defs M) labelled {
			x := l.leaf()
			for range 1 + l.r.Intn(3) {
				x = l.wrap(x, defs)
			}
			return x
		}, 1200)
	}
	cases = append(cases, wideChoices(cfg)...)
	return cases
}

func init() {
	register(Check{Prop: "V22", Rule: "a distinct outcome (alternative, listed value, type, number of items or properties, presence or absence of a property, side of a condition) seen for one schema; every outcome the schema leaves open has to turn up", Cases: diverseCases})
}
