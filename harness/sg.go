package main

import (
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	"sort"
	"strings"
)

// M is a JSON object
type M = map[string]any

// A is a JSON array
type A = []any

func toJSON(v any) string {
	var sb strings.Builder
	enc := json.NewEncoder(&sb)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSpace(sb.String())
}

func clone(v any) any {
	switch x := v.(type) {
	case M:
		o := M{}
		for k, e := range x {
			o[k] = clone(e)
		}
		return o
	case A:
		o := make(A, len(x))
		for i, e := range x {
			o[i] = clone(e)
		}
		return o
	}
	return v
}

func keysOf(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// SG builds random schemas that can be satisfied and only use what the library supports
type SG struct {
	r     *mrand.Rand
	defs  M
	feats map[string]bool // combinations that are allowed, nil: all
	size  int
}

func newSG(r *mrand.Rand, feats ...string) *SG {
	g := &SG{r: r, defs: M{}}
	if len(feats) > 0 {
		g.feats = map[string]bool{}
		for _, f := range feats {
			g.feats[f] = true
		}
	}
	return g
}

func (g *SG) p(percent int) bool { return g.r.Intn(100) < percent }
func (g *SG) n(a, b int) int     { return a + g.r.Intn(b-a+1) }
func pick[E any](r *mrand.Rand, s ...E) E {
	return s[r.Intn(len(s))]
}

// ---- numbers

func dec(f float64) json.Number { return json.Number(trimFloat(f)) }

func trimFloat(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return fmt.Sprintf("%.0f", f)
	}
	return fmt.Sprintf("%g", f)
}

func (g *SG) Number() M {
	if g.p(50) {
		return g.integer()
	}
	return g.float()
}

func (g *SG) anyInt() int {
	switch g.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return pick(g.r, -1, 1)
	case 2:
		return g.n(-10, 10)
	case 3:
		return g.n(-1000, 1000)
	case 4:
		return g.n(-1000000, 1000000)
	case 5:
		return pick(g.r, -1000000000, 1000000000, 2147483647, -2147483648, 4294967296)
	case 6:
		return g.n(-100, 0)
	}
	return g.n(0, 100)
}

func (g *SG) integer() M {
	s := M{"type": "integer"}
	mult := 0
	if g.p(40) {
		mult = pick(g.r, 1, 2, 3, 5, 7, 10, 13, 60, 100, 1000, 4096)
		s["multipleOf"] = mult
	}
	min := g.anyInt()
	width := pick(g.r, 0, 1, 2, 3, 10, 100, 5000)
	if mult > 0 {
		// keep at least one multiple inside
		k := g.n(-20, 20)
		min = k*mult - g.r.Intn(mult+1)
		width = k*mult - min + pick(g.r, 0, 1, mult, 3*mult, 10*mult+1)
	}
	max := min + width
	switch g.r.Intn(6) {
	case 0: // no bounds
	case 1:
		g.lower(s, min)
	case 2:
		g.upper(s, max)
	default:
		g.lower(s, min)
		g.upper(s, max)
	}
	return s
}

func (g *SG) lower(s M, min int) {
	switch g.r.Intn(5) {
	case 0, 1:
		s["minimum"] = min
	case 2:
		s["exclusiveMinimum"] = min - 1
	case 3: // both, one of them is weaker
		s["minimum"] = min
		s["exclusiveMinimum"] = min - 1 - g.r.Intn(3)
	case 4:
		s["minimum"] = dec(float64(min) - pick(g.r, 0.5, 0.25, 0.75))
	}
}

func (g *SG) upper(s M, max int) {
	switch g.r.Intn(5) {
	case 0, 1:
		s["maximum"] = max
	case 2:
		s["exclusiveMaximum"] = max + 1
	case 3:
		s["maximum"] = max
		s["exclusiveMaximum"] = max + 1 + g.r.Intn(3)
	case 4:
		s["maximum"] = dec(float64(max) + pick(g.r, 0.5, 0.25, 0.75))
	}
}

func (g *SG) float() M {
	s := M{"type": "number"}
	if g.p(35) {
		mult := pick(g.r, 0.5, 0.25, 0.125, 1.5, 2.5, 0.1, 0.01, 0.001, 3, 7, 12.5, 0.05, 0.2)
		s["multipleOf"] = dec(mult)
		if g.p(70) {
			k := float64(g.n(-50, 50))
			lo := k*mult - mult*pick(g.r, 0.25, 0.5)
			hi := k*mult + mult*pick(g.r, 0.25, 1.5, 10.5)
			lo, hi = round6(lo), round6(hi)
			if g.p(70) {
				s[pick(g.r, "minimum", "exclusiveMinimum")] = dec(lo)
			}
			if g.p(70) {
				s[pick(g.r, "maximum", "exclusiveMaximum")] = dec(hi)
			}
		}
		return s
	}
	lo := float64(g.anyInt()) + pick(g.r, 0, 0, 0.5, 0.25, 0.1)
	hi := lo + pick(g.r, 0.001, 0.5, 1, 1.0, 10, 1000)
	lo, hi = round6(lo), round6(hi)
	switch g.r.Intn(5) {
	case 0:
	case 1:
		s[pick(g.r, "minimum", "exclusiveMinimum")] = dec(lo)
	case 2:
		s[pick(g.r, "maximum", "exclusiveMaximum")] = dec(hi)
	default:
		s[pick(g.r, "minimum", "exclusiveMinimum")] = dec(lo)
		s[pick(g.r, "maximum", "exclusiveMaximum")] = dec(hi)
	}
	return s
}

func round6(f float64) float64 { return math.Round(f*1e6) / 1e6 }

// ---- strings

var goodFormats = []string{"date-time", "time", "date", "duration", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uuid", "uri", "uri-reference", "iri", "iri-reference"}

func (g *SG) String() M {
	s := M{"type": "string"}
	switch g.r.Intn(7) {
	case 0:
	case 1:
		s["minLength"] = pick(g.r, 0, 1, 2, 10, 49, 50, 100, 300)
	case 2:
		s["maxLength"] = pick(g.r, 0, 1, 2, 3, 10, 30, 100, 300)
	case 3:
		min := pick(g.r, 0, 1, 2, 5, 20, 100, 150)
		s["minLength"], s["maxLength"] = min, min+pick(g.r, 0, 0, 1, 2, 10, 100)
	case 4, 5:
		s["pattern"] = g.Regex(2)
	case 6:
		s["format"] = pick(g.r, goodFormats...)
	}
	return s
}

// Regex builds an expression of the supported part of the syntax
func (g *SG) Regex(depth int) string {
	body := g.regexAlt(depth)
	switch g.r.Intn(4) {
	case 0:
		return body
	case 1:
		if strings.Contains(body, "|") {
			body = "(" + body + ")"
		}
		return "^" + body
	default:
		if strings.Contains(body, "|") {
			body = "(" + body + ")"
		}
		return "^" + body + "$"
	}
}

func (g *SG) regexAlt(depth int) string {
	n := 1
	if depth > 0 && g.p(25) {
		n = g.n(2, 3)
	}
	parts := make([]string, n)
	for i := range parts {
		parts[i] = g.regexConcat(depth)
	}
	return strings.Join(parts, "|")
}

func (g *SG) regexConcat(depth int) string {
	n := g.n(1, 4)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(g.regexAtom(depth))
		switch g.r.Intn(9) {
		case 0:
			sb.WriteString("*")
		case 1:
			sb.WriteString("+")
		case 2:
			sb.WriteString("?")
		case 3:
			sb.WriteString(fmt.Sprintf("{%d}", g.n(0, 4)))
		case 4:
			a := g.n(0, 3)
			sb.WriteString(fmt.Sprintf("{%d,%d}", a, a+g.n(0, 3)))
		case 5:
			sb.WriteString(fmt.Sprintf("{%d,}", g.n(0, 3)))
		}
	}
	return sb.String()
}

func (g *SG) regexAtom(depth int) string {
	if depth > 0 && g.p(25) {
		return pick(g.r, "(", "(?:") + g.regexAlt(depth-1) + ")"
	}
	return pick(g.r, "a", "b", "x", "Z", "0", "9", "_", "-", "ab", "é", "ß", "日", "@", "#", " ",
		"[a-z]", "[A-Z0-9]", "[0-9a-f]", "[abc]", "[^a]", "[^a-z0-9]", "[a-zA-Z_]", "[\\w.-]", "[^\\s]", "[α-ω]", "[\\d-]",
		"\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\.", "\\\\", "\\/", "\\$", "\\^", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\+", "\\*", "\\?", "\\|",
		".", "[.]", "[[:alpha:]]", "\\t", "\\x41", "~", "%", "\"", "'")
}

// ---- plain values

func (g *SG) Value(depth int) any {
	k := g.r.Intn(8)
	if depth <= 0 && k >= 6 {
		k = g.r.Intn(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.p(50)
	case 2:
		return g.anyInt()
	case 3:
		return dec(round6(float64(g.n(-1000, 1000)) + pick(g.r, 0.5, 0.125, 0.1)))
	case 4, 5:
		return pick(g.r, "", "a", "b", "foo", "bar baz", "ünï", "a\"b", "\\", "日本", "<&>", "/", "~", "0", "true", "null", "line\nbreak", "\u0001")
	case 6:
		out := make(A, g.r.Intn(4))
		for i := range out {
			out[i] = g.Value(depth - 1)
		}
		return out
	}
	out := M{}
	for i := g.r.Intn(4); i > 0; i-- {
		out[pick(g.r, g.names()...)] = g.Value(depth - 1)
	}
	return out
}

func (g *SG) names() []string {
	return []string{"a", "b", "c", "d", "foo", "bar", "name", "id", "a b", "a-b", "a_b", "a.b", "ünï", "日本", "0", "1", "type", "items", "properties", "required", "enum", "CamelCase"}
}

var weirdNames = []string{"a/b", "a~b", "~", "/", "%", "a%25b", "#", "?", "a\"b", "\\", "", "$ref", "$id", "$defs", "definitions", "allOf", "if", "not", "const", "~0", "~1", "a~1b"}

func (g *SG) pickNames(n int) []string {
	pool := g.names()
	g.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool[:n]
}

func (g *SG) Enum() M {
	n := g.n(1, 5)
	vals := A{}
	seen := map[string]bool{}
	for len(vals) < n {
		v := g.Value(2)
		if k := toJSON(v); !seen[k] {
			seen[k] = true
			vals = append(vals, v)
		}
	}
	return M{"enum": vals}
}

func (g *SG) Const() M {
	for {
		if v := g.Value(2); v != nil {
			return M{"const": v}
		}
	}
}

// TypedEnum has the type of its values
func (g *SG) TypedEnum() M {
	if g.p(50) {
		vals := A{}
		for _, s := range g.pickNames(g.n(1, 4)) {
			vals = append(vals, s)
		}
		return M{"type": "string", "enum": vals}
	}
	vals := A{}
	for i := range g.n(1, 4) {
		vals = append(vals, g.n(-5, 5)*10+i)
	}
	return M{"type": "integer", "enum": vals}
}

// ---- structure

func (g *SG) allows(f string) bool { return g.feats == nil || g.feats[f] }

// Schema builds a schema of any kind
func (g *SG) Schema(depth int) M {
	g.size++
	leaf := func() M {
		switch g.r.Intn(12) {
		case 0, 1:
			return g.Number()
		case 2, 3, 4:
			return g.String()
		case 5:
			return M{"type": "boolean"}
		case 6:
			return M{"type": "null"}
		case 7:
			return g.Enum()
		case 8:
			return g.Const()
		case 9:
			return g.TypedEnum()
		case 10:
			if !g.allows("multi") {
				return g.integer()
			}
			return g.MultiType()
		}
		return g.Number()
	}
	if depth <= 0 || g.size > 25 {
		return leaf()
	}
	for {
		switch g.r.Intn(14) {
		case 0, 1, 2:
			return leaf()
		case 3, 4, 5:
			return g.Object(depth)
		case 6, 7:
			return g.Array(depth)
		case 8:
			if g.allows("anyOf") {
				return g.AnyOf(depth)
			}
		case 9:
			if g.allows("oneOf") {
				return g.OneOf(depth)
			}
		case 10:
			if g.allows("allOf") {
				return g.AllOf(depth)
			}
		case 11:
			if g.allows("ref") {
				return g.Ref(depth)
			}
		case 12:
			if g.allows("if") {
				return g.If(depth)
			}
		case 13:
			if g.allows("not") {
				return g.Not(depth)
			}
		}
	}
}

func (g *SG) MultiType() M {
	all := []string{"string", "integer", "number", "boolean", "null", "array", "object"}
	g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	s := M{"type": A{}}
	types := A{}
	for _, t := range all[:g.n(1, 4)] {
		types = append(types, t)
	}
	s["type"] = types
	if g.p(40) {
		s["minLength"] = g.n(0, 5)
	}
	if g.p(40) {
		s["minimum"] = g.n(-5, 5)
	}
	if g.p(30) {
		s["maxItems"] = g.n(0, 5)
	}
	return s
}

func (g *SG) Object(depth int) M {
	s := M{"type": "object"}
	n := g.n(0, 4)
	names := g.pickNames(n)
	props := M{}
	required := A{}
	for _, name := range names {
		props[name] = g.Schema(depth - 1)
		if g.p(45) {
			required = append(required, name)
		}
	}
	if n > 0 || g.p(50) {
		s["properties"] = props
	}
	switch g.r.Intn(5) {
	case 0:
		s["additionalProperties"] = false
	case 1:
		s["additionalProperties"] = g.Schema(depth - 1)
	case 2:
		s["additionalProperties"] = true
	}
	_, closed := s["additionalProperties"].(bool)
	closed = closed && s["additionalProperties"] == false
	if g.p(25) {
		pp := M{}
		pats := []string{"^x-[a-z]{3,6}$", "^[0-9]{4}_[a-z]+$", "^k[0-9]{3}$"}
		for _, i := range g.r.Perm(len(pats))[:g.n(1, 2)] {
			pp[pats[i]] = g.Schema(depth - 1)
		}
		s["patternProperties"] = pp
	}
	if !closed && g.p(20) {
		required = append(required, "undeclared")
	}
	if len(required) > 0 {
		s["required"] = required
	}
	_, hasPat := s["patternProperties"]
	if g.p(30) {
		max := n
		if !closed || hasPat {
			max = n + 3
		}
		min := g.n(0, max)
		s["minProperties"] = min
		if g.p(50) {
			s["maxProperties"] = maxInt(min, len(required)) + g.n(0, 3)
		}
	} else if g.p(20) {
		s["maxProperties"] = len(required) + g.n(0, 3)
	}
	if g.p(25) && len(s) > 1 && (s["properties"] != nil || s["required"] != nil) {
		delete(s, "type")
	}
	return s
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Rich builds a schema with so many values that unique ones are easily found
func (g *SG) Rich() M {
	return pick(g.r, M{"type": "string", "minLength": 20}, M{"type": "integer", "minimum": 0, "maximum": 1000000}, M{"type": "number"}, M{"type": "string", "pattern": "^[a-z]{8,12}$"},
		M{"type": "object", "properties": M{"a": M{"type": "integer", "minimum": -100000, "maximum": 100000}}, "required": A{"a"}, "additionalProperties": false})
}

func (g *SG) Array(depth int) M {
	s := M{"type": "array"}
	k := g.r.Intn(6)
	items := g.Schema(depth - 1)
	switch k {
	case 0: // anything
		if g.p(50) {
			s["items"] = items
		}
		g.sizes(s, 0)
	case 1, 2:
		s["items"] = items
		g.sizes(s, 0)
	case 3: // tuple
		pre := A{}
		for range g.n(1, 3) {
			pre = append(pre, g.Schema(depth-1))
		}
		s["prefixItems"] = pre
		switch g.r.Intn(4) {
		case 0:
			s["items"] = false
			if g.p(40) {
				s["minItems"] = g.n(0, len(pre))
			}
			if g.p(40) {
				s["maxItems"] = len(pre) + g.n(0, 2)
			}
		case 1:
			s["items"] = items
			g.sizes(s, len(pre))
		case 2:
			g.sizes(s, len(pre))
		case 3:
			s["unevaluatedItems"] = false
		}
	case 4: // unique
		s["items"] = g.Rich()
		s["uniqueItems"] = true
		g.sizes(s, 0)
	case 5: // contains
		n := g.n(1, 3)
		s["contains"] = g.Schema(depth - 2)
		if n > 1 || g.p(50) {
			s["minContains"] = n
		}
		least := n
		if g.p(50) {
			least = max(0, n+g.n(-2, 3))
			s["minItems"] = least
		}
		if g.p(35) {
			s["maxItems"] = max(n, least) + g.n(0, 3)
		}
	}
	return s
}

func (g *SG) sizes(s M, atLeast int) {
	min := g.n(0, 4)
	if min < atLeast {
		min = atLeast
	}
	switch g.r.Intn(4) {
	case 0:
		s["minItems"] = min
	case 1:
		s["maxItems"] = atLeast + g.n(0, 5)
	case 2:
		s["minItems"] = min
		s["maxItems"] = min + g.n(0, 4)
	}
}

func (g *SG) AnyOf(depth int) M {
	alts := A{}
	for range g.n(1, 4) {
		alts = append(alts, g.Schema(depth-1))
	}
	return M{"anyOf": alts}
}

// Disjoint builds schemas no value satisfies two of
func (g *SG) Disjoint(depth, n int) []M {
	out := []M{}
	switch g.r.Intn(4) {
	case 0: // by type
		all := []M{M{"type": "string"}, M{"type": "integer", "minimum": g.n(0, 5)}, M{"type": "boolean"}, M{"type": "null"}, M{"type": "array", "items": g.Schema(depth - 1)}, M{"type": "object", "properties": M{"k": g.Schema(depth - 1)}}}
		for _, i := range g.r.Perm(len(all))[:n] {
			out = append(out, all[i])
		}
	case 1: // by range
		start := g.n(-50, 50)
		for range n {
			end := start + g.n(0, 20)
			out = append(out, M{"type": "integer", "minimum": start, "maximum": end})
			start = end + 1 + g.r.Intn(5)
		}
	case 2: // by discriminator
		for i := range n {
			props := M{"kind": M{"const": fmt.Sprintf("k%d", i)}}
			req := A{"kind"}
			for _, name := range g.pickNames(g.n(0, 2)) {
				props[name] = g.Schema(depth - 1)
				if g.p(50) {
					req = append(req, name)
				}
			}
			out = append(out, M{"type": "object", "properties": props, "required": req})
		}
	case 3: // by length
		start := 0
		for i := range n {
			s := M{"type": "string", "minLength": start}
			if i < n-1 {
				start += g.n(0, 6)
				s["maxLength"] = start
				start++
			}
			out = append(out, s)
		}
	}
	return out
}

func (g *SG) OneOf(depth int) M {
	alts := A{}
	for _, s := range g.Disjoint(depth, g.n(1, 4)) {
		alts = append(alts, s)
	}
	g.r.Shuffle(len(alts), func(i, j int) { alts[i], alts[j] = alts[j], alts[i] })
	return M{"oneOf": alts}
}

// AllOf takes a schema apart, and adds weaker limits
func (g *SG) AllOf(depth int) M {
	var base M
	switch g.r.Intn(5) {
	case 0:
		base = g.Number()
	case 1:
		base = g.String()
	case 2:
		base = g.Array(depth)
	default:
		base = g.Object(depth)
	}
	return g.Split(base)
}

// Split distributes the keywords of a schema over the members of an allOf
func (g *SG) Split(base M) M {
	n := g.n(1, 3)
	parts := make([]M, n+1)
	for i := range parts {
		parts[i] = M{}
	}
	groups := map[string]string{
		"minContains": "contains", "prefixItems": "items", "unevaluatedItems": "items", "additionalProperties": "properties", "patternProperties": "properties",
	}
	where := map[string]int{}
	for _, k := range keysOf(base) {
		grp := groups[k]
		if grp == "" {
			grp = k
		}
		if _, ok := where[grp]; !ok {
			where[grp] = g.r.Intn(n + 1)
		}
		if k == "properties" && base["additionalProperties"] == nil && base["patternProperties"] == nil && g.p(60) {
			// properties can be spread
			for _, name := range keysOf(base[k].(M)) {
				i := g.r.Intn(n + 1)
				if parts[i][k] == nil {
					parts[i][k] = M{}
				}
				parts[i][k].(M)[name] = base[k].(M)[name]
			}
			continue
		}
		if k == "required" && g.p(60) {
			for _, name := range base[k].(A) {
				i := g.r.Intn(n + 1)
				if parts[i][k] == nil {
					parts[i][k] = A{}
				}
				parts[i][k] = append(parts[i][k].(A), name)
			}
			continue
		}
		parts[where[grp]][k] = base[k]
	}
	if t, ok := base["type"]; ok {
		for i := range parts {
			if g.p(60) {
				parts[i]["type"] = t
			}
		}
	}
	// weaker limits somewhere else
	for _, k := range []string{"minimum", "minLength", "minItems", "minProperties"} {
		if v, ok := base[k].(int); ok && g.p(50) {
			i := g.r.Intn(n + 1)
			if parts[i][k] == nil && (v > 0 || k == "minimum") {
				parts[i][k] = v - g.r.Intn(2)
			}
		}
	}
	for _, k := range []string{"maximum", "maxLength", "maxItems", "maxProperties"} {
		if v, ok := base[k].(int); ok && g.p(50) {
			i := g.r.Intn(n + 1)
			if parts[i][k] == nil {
				parts[i][k] = v + g.r.Intn(3)
			}
		}
	}
	out := parts[n]
	all := A{}
	for i := range n {
		if len(parts[i]) == 0 && g.p(70) {
			continue
		}
		all = append(all, parts[i])
	}
	if len(all) == 0 {
		all = append(all, M{"description": "empty"})
	}
	out["allOf"] = all
	return out
}

func (g *SG) Ref(depth int) M {
	name := fmt.Sprintf("def%d", len(g.defs))
	if g.p(20) {
		name = pick(g.r, "a b", "a.b", "ünï", "with-dash", "with_underscore", "0") + fmt.Sprint(len(g.defs))
	}
	g.defs[name] = M{} // taken
	g.defs[name] = g.Schema(depth - 1)
	return M{"$ref": "#/$defs/" + name}
}

// If builds conditionals over a property the schema decides
func (g *SG) If(depth int) M {
	if g.p(40) {
		cut := g.n(0, 20)
		s := M{"type": "integer", "minimum": cut - 20, "maximum": cut + 20, "if": M{"minimum": cut}}
		s["then"] = M{"multipleOf": pick(g.r, 2, 3, 5)}
		if g.p(60) {
			s["else"] = M{"minimum": cut - 10}
		}
		return s
	}
	a, b := g.Schema(depth-1), g.Schema(depth-1)
	return M{
		"type":       "object",
		"properties": M{"kind": M{"enum": A{"x", "y"}}},
		"required":   A{"kind"},
		"if":         M{"properties": M{"kind": M{"const": "x"}}, "required": A{"kind"}},
		"then":       M{"properties": M{"vx": a}, "required": A{"vx"}},
		"else":       M{"properties": M{"vy": b}, "required": A{"vy"}},
	}
}

// Not excludes a part of what the schema allows
func (g *SG) Not(depth int) M {
	switch g.r.Intn(6) {
	case 0:
		lo := g.n(-50, 50)
		return M{"type": "integer", "minimum": lo, "maximum": lo + 40, "not": M{"minimum": lo + g.n(5, 30)}}
	case 1:
		return M{"type": "string", "not": M{"minLength": g.n(1, 30)}}
	case 2:
		return M{"type": "object", "properties": M{"a": M{"enum": A{1, 2, 3}}}, "required": A{"a"}, "not": M{"properties": M{"a": M{"const": 2}}}}
	case 3:
		return M{"type": A{"string", "integer", "null"}, "not": M{"type": pick(g.r, "string", "integer", "null")}}
	case 4:
		return M{"enum": A{"a", "b", "c", 1}, "not": M{"const": pick(g.r, "a", "b", "c")}}
	}
	return M{"type": "array", "items": M{"type": "integer"}, "not": M{"minItems": g.n(2, 6)}}
}

// Root finishes a schema with its definitions
func (g *SG) Root(s M) M {
	if len(g.defs) > 0 {
		root := M{}
		for k, v := range s {
			root[k] = v
		}
		defs := M{}
		for k, v := range g.defs {
			defs[k] = v
		}
		root["$defs"] = defs
		return root
	}
	return s
}

func sortStrings(s []string) { sort.Strings(s) }
