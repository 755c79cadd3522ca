package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"strings"
)

// Transformations of a schema that leave the set of its values as it is: what a check claims about a schema it claims about these as well.

type transformer struct {
	r    *mrand.Rand
	kind string
	p    float64
	defs M
	n    int
}

var transformKinds = []string{"refs", "allOf", "anyOf", "oneOf", "then", "else", "mixed", "chain", "split"}

// transform gives an equivalent schema, false when there is none
func transform(r *mrand.Rand, text string, kind string) (string, bool) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var s any
	if d.Decode(&s) != nil {
		return "", false
	}
	m, ok := s.(map[string]any)
	if !ok || hasReference(m) {
		return "", false
	}
	tr := &transformer{r: r, kind: kind, p: []float64{0.15, 0.5, 1}[r.Intn(3)], defs: M{}}
	out := tr.schema(m, true)
	if tr.n == 0 {
		return "", false
	}
	if len(tr.defs) > 0 {
		defs, _ := out["$defs"].(map[string]any)
		if defs == nil {
			defs = M{}
		}
		for k, v := range tr.defs {
			defs[k] = v
		}
		out["$defs"] = defs
	}
	return toJSON(out), true
}

// subSchemas calls f for every schema directly inside s and puts what it returns in its place
func subSchemas(s M, f func(key string, sub M) any) {
	one := func(key string, v any) any {
		if m, ok := v.(map[string]any); ok {
			return f(key, m)
		}
		return v
	}
	for _, k := range sortedKeys(s) {
		switch v := s[k]; k {
		case "properties", "patternProperties", "$defs", "definitions":
			if m, ok := v.(map[string]any); ok {
				for _, n := range sortedKeys(m) {
					m[n] = one(k, m[n])
				}
			}
		case "prefixItems", "oneOf", "anyOf", "allOf":
			if l, ok := v.([]any); ok {
				for i := range l {
					l[i] = one(k, l[i])
				}
			}
		case "items", "additionalItems", "contains", "additionalProperties", "unevaluatedItems", "unevaluatedProperties", "if", "then", "else", "not":
			if l, ok := v.([]any); ok {
				for i := range l {
					l[i] = one(k, l[i])
				}
			} else {
				s[k] = one(k, v)
			}
		}
	}
}

func sortedKeys(m M) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func hasReference(s M) bool {
	for _, k := range []string{"$ref", "$dynamicRef", "$id", "$anchor", "$dynamicAnchor", "$recursiveRef"} {
		if _, ok := s[k]; ok {
			return true
		}
	}
	found := false
	subSchemas(s, func(_ string, sub M) any {
		found = found || hasReference(sub)
		return sub
	})
	return found
}

// keptTogether are the keywords that depend on each other
var keptTogether = map[string]int{
	"properties": 1, "patternProperties": 1, "additionalProperties": 1, "items": 2, "prefixItems": 2, "additionalItems": 2, "contains": 3, "minContains": 3, "maxContains": 3,
	"if": 4, "then": 4, "else": 4,
}

func (tr *transformer) schema(s M, root bool) M {
	out := M{}
	for k, v := range s {
		out[k] = v
	}
	subSchemas(out, func(key string, sub M) any {
		refs := tr.kind == "refs" || tr.kind == "chain"
		if key == "not" && !refs {
			return sub // few keywords are supported in there
		}
		if tr.kind == "then" || tr.kind == "else" {
			switch key {
			case "properties", "patternProperties", "$defs", "items", "prefixItems", "additionalProperties":
			default:
				return sub // what is combined is only known to avoid each other without conditions
			}
		}
		if _, negated := out["not"]; negated && key != "not" && refs {
			return sub // what is negated is only known to be avoided by trying again
		}
		return tr.schema(sub, false)
	})
	if tr.r.Float64() >= tr.p || tr.kind == "chain" && tr.n == 2 { // the depth of references is limited to 10
		return out
	}
	// what only the root may have stays there
	top := M{}
	if root {
		for _, k := range []string{"$schema", "$defs", "definitions"} {
			if v, ok := out[k]; ok {
				top[k] = v
				delete(out, k)
			}
		}
	}
	kind := tr.kind
	if kind == "mixed" {
		kind = pick(tr.r, "refs", "allOf", "anyOf", "oneOf")
	}
	tr.n++
	wrapped := M{}
	def := func(v M) M {
		name := fmt.Sprintf("moved %d", len(tr.defs))
		if tr.r.Intn(2) == 0 {
			name = fmt.Sprintf("moved%d", len(tr.defs))
		}
		tr.defs[name] = v
		return M{"$ref": "#/$defs/" + strings.ReplaceAll(name, " ", "%20")}
	}
	switch kind {
	case "refs":
		wrapped = def(out)
	case "chain":
		wrapped = def(def(def(out)))
	case "allOf":
		wrapped = M{"allOf": A{out}}
		if tr.r.Intn(3) == 0 {
			wrapped = M{"allOf": A{M{}, wrapped}}
		}
	case "anyOf", "oneOf":
		wrapped = M{kind: A{out}}
	case "then":
		wrapped = M{"if": M{}, "then": out}
	case "else":
		wrapped = M{"if": M{"not": M{}}, "else": out}
	case "split":
		parts := [3]M{{}, {}, {}}
		if _, ok := out["unevaluatedItems"]; ok {
			tr.n--
			wrapped = out
			break
		}
		if _, ok := out["unevaluatedProperties"]; ok {
			tr.n--
			wrapped = out
			break
		}
		where := map[int]int{}
		for _, k := range sortedKeys(out) {
			i := tr.r.Intn(3)
			if g := keptTogether[k]; g > 0 {
				if j, ok := where[g]; ok {
					i = j
				}
				where[g] = i
			}
			parts[i][k] = out[k]
		}
		wrapped = parts[0]
		l := A{}
		for _, p := range parts[1:] {
			if len(p) > 0 {
				l = append(l, p)
			}
		}
		if have, ok := wrapped["allOf"].([]any); ok {
			l = append(l, have...)
		}
		if len(l) > 0 {
			wrapped["allOf"] = l
		}
	}
	for k, v := range top {
		wrapped[k] = v
	}
	return wrapped
}

// variant is the case of an equivalent schema
func (sc SchemaCase) variant(t *T) (SchemaCase, bool) {
	if sc.Expect == Reported || sc.Docs != nil || sc.URL != "" || sc.Parse != nil {
		return sc, false
	}
	r := subRng(t.Cfg.Seed, "transform", t.ID)
	kind := transformKinds[r.Intn(len(transformKinds))]
	if k := os.Getenv("VH_XF"); k != "" {
		kind = k
	}
	conditional := kind == "then" || kind == "else"
	if conditional && strings.Contains(sc.Schema, `"if"`) {
		return sc, false // every condition takes more attempts
	}
	text, ok := transform(r, sc.Schema, kind)
	if !ok {
		return sc, false
	}
	if conditional && sc.Tolerate != nil {
		sc.SkipIf = func(string) bool { return true } // an alternative that can not be had is kept where a condition says so
	}
	sc.Schema = text
	n := sc.N
	if n == 0 {
		n = 60
	}
	sc.N = max(6, n/3)
	sc.Final, sc.Raw = nil, nil
	return sc, true
}
