package main

import (
	"fmt"
	"maps"
	mrand "math/rand"
	"slices"
	"strings"
	"unicode/utf8"

	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// ---- V08 negation

// notMonitor checks every negated schema on its own
func notMonitor(nots A, defs M) func(v any, raw []byte) string {
	match := matcherFor(nots, defs)
	return func(v any, raw []byte) string {
		if m := match(v); len(m) > 0 {
			return fmt.Sprintf("the value conforms to the negated schema %d: %s", m[0], clip(toJSON(nots[m[0]]), 200))
		}
		return ""
	}
}

// notUniverse is a base schema with sample values of it
type notUniverse struct {
	base M
	pool A
}

func (g *SG) notUniverse() notUniverse {
	pickSome := func(n int, vals ...any) A {
		g.r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
		return append(A{}, vals[:n]...)
	}
	switch g.r.Intn(5) {
	case 0: // integers
		lo := g.n(-30, 30)
		hi := lo + g.n(12, 60)
		u := notUniverse{base: M{"type": "integer", "minimum": lo, "maximum": hi}}
		if g.p(30) {
			u.base["multipleOf"] = g.n(2, 3)
		}
		for i := lo; i <= hi; i++ {
			u.pool = append(u.pool, i)
		}
		return u
	case 1: // enumerations
		vals := pickSome(g.n(3, 8), "a", "bb", "ccc", "dddd", 1, 2, 3, 10, nil, true, false, A{1}, A{1, 2}, M{"a": 1}, M{"b": "x"}, M{})
		return notUniverse{base: M{"enum": vals}, pool: vals}
	case 2: // objects
		props, req := M{}, A{}
		for _, k := range g.pickNames(g.n(1, 3)) {
			props[k] = M{"enum": pickSome(g.n(2, 4), 1, 2, 3, "x", "yy", nil, true)}
			if g.p(70) {
				req = append(req, k)
			}
		}
		u := notUniverse{base: M{"type": "object", "properties": props, "additionalProperties": false}}
		if len(req) > 0 {
			u.base["required"] = req
		}
		for range 120 {
			v := M{}
			for _, k := range keysOf(props) {
				must := false
				for _, r := range req {
					must = must || r == k
				}
				if must || g.p(50) {
					v[k] = pick(g.r, props[k].(M)["enum"].(A)...)
				}
			}
			u.pool = append(u.pool, v)
		}
		return u
	case 3: // arrays
		items := pickSome(g.n(2, 4), 1, 2, 3, 4, "x", "yy", nil)
		min := g.n(0, 3)
		max := min + g.n(0, 3)
		u := notUniverse{base: M{"type": "array", "items": M{"enum": items}, "minItems": min, "maxItems": max}}
		for range 120 {
			v := A{}
			for range g.n(min, max) {
				v = append(v, pick(g.r, items...))
			}
			u.pool = append(u.pool, v)
		}
		return u
	}
	// strings
	u := notUniverse{base: M{"type": "string", "pattern": "^[abc]{1,4}$"}}
	for range 120 {
		s := ""
		for range g.n(1, 4) {
			s += pick(g.r, "a", "b", "c")
		}
		u.pool = append(u.pool, s)
	}
	return u
}

// negatable builds a schema to negate for values such as v
func (g *SG) negatable(u notUniverse, depth int) M {
	v := pick(g.r, u.pool...)
	if depth > 0 && g.p(15) {
		switch g.r.Intn(2) {
		case 0:
			return M{"anyOf": A{g.negatable(u, depth-1), g.negatable(u, depth-1)}}
		default:
			return M{"oneOf": A{g.negatable(u, depth-1), g.negatable(u, depth-1)}}
		}
	}
	switch g.r.Intn(3) {
	case 0:
		return M{"const": v}
	case 1:
		return M{"enum": A{v, pick(g.r, u.pool...)}}
	}
	switch x := v.(type) {
	case int:
		switch g.r.Intn(5) {
		case 0:
			return M{"minimum": x}
		case 1:
			return M{"maximum": x}
		case 2:
			return M{"multipleOf": g.n(2, 5)}
		case 3:
			return M{"minimum": x - g.n(0, 3), "maximum": x + g.n(0, 3)}
		}
		return M{pick(g.r, "exclusiveMinimum", "exclusiveMaximum"): x}
	case string:
		switch g.r.Intn(4) {
		case 0, 1, 2:
			return M{"pattern": "^" + string(x[0])}
		}
		return M{"pattern": string(x[len(x)-1]) + "$"}
	case M:
		if len(x) == 0 {
			return M{"maxProperties": 0}
		}
		k := keysOf(x)[g.r.Intn(len(x))]
		switch g.r.Intn(5) {
		case 0:
			return M{"required": A{k}}
		case 1:
			return M{"properties": M{k: M{"const": x[k]}}, "required": A{k}}
		case 2:
			return M{"minProperties": len(x) + g.r.Intn(2)}
		case 3:
			return M{"properties": M{k: M{"type": typeName(x[k])}}, "required": A{k}}
		}
		return M{"properties": M{k: M{"enum": A{x[k], pick(g.r, any(1), any("x"))}}}}
	case A:
		switch g.r.Intn(5) {
		case 0:
			return M{"minItems": len(x) + 1}
		case 1:
			return M{"maxItems": len(x)}
		case 2:
			if len(x) > 0 {
				return M{"items": M{"const": x[0]}}
			}
			return M{"maxItems": 0}
		case 3:
			if len(x) > 0 {
				return M{"items": M{"type": typeName(x[0])}}
			}
			return M{"maxItems": 0}
		}
		return M{"minItems": 2}
	}
	return M{"type": typeName(v)}
}

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case A:
		return "array"
	case M:
		return "object"
	}
	return "integer"
}

// share is the part of the pool (in percent) that conforms to none of the negated schemas
func (u notUniverse) share(s M) int {
	oracle, err := compileOracle(toJSON(s), "", nil)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ok := 0
	for _, v := range u.pool {
		iv, err := js.UnmarshalJSON(strReader(toJSON(v)))
		if err != nil {
			panic(err)
		}
		if oracle.Validate(iv) == nil {
			ok++
		}
	}
	return ok * 100 / len(u.pool)
}

// notOpts leaves out the least possible effort: a negation can need the optional parts effort is spent on
func notOpts() []GenOpt {
	out := []GenOpt{}
	for _, o := range stdOpts() {
		if o.Name != "minimal" {
			// and so it can past the usual number of steps
			if o.Opts.MaximumGenerationSteps == 0 && o.Opts.CutoffGenerationSteps == 0 {
				o.Opts.MaximumGenerationSteps = 1500
			}
			out = append(out, o)
		}
	}
	return out
}

func notCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, s M, n int, e Expect, opts []GenOpt) {
		nots := A{}
		var collect func(s M)
		collect = func(s M) {
			if x, ok := s["not"]; ok {
				nots = append(nots, x)
			}
			if all, ok := s["allOf"].(A); ok {
				for _, m := range all {
					collect(m.(M))
				}
			}
		}
		collect(s)
		defs, _ := s["$defs"].(M)
		cases = append(cases, SchemaCase{Opts: opts, ID: id, Schema: toJSON(s), N: n, Expect: e, SkipReported: e == Any, Markers: e == Any, Monitor: notMonitor(nots, defs)}.Case())
	}
	str, num := M{"type": "string"}, M{"type": "integer"}
	fixed := []M{
		{"not": str}, {"not": num}, {"not": M{"type": "null"}}, {"not": M{"type": "boolean"}}, {"not": M{"type": "object"}}, {"not": M{"type": "array"}}, {"not": M{"type": "number"}}, {"not": M{"type": A{"object", "array", "string"}}},
		{"not": M{"type": A{"string", "integer", "number", "boolean", "array", "object"}}}, {"not": M{"minLength": 3}}, {"not": M{"minimum": 3}}, {"not": M{"pattern": "^a"}}, {"not": M{"required": A{"a"}}}, {"type": "object", "properties": M{"a": num}, "required": A{"a"}, "not": M{"properties": M{"a": M{"minimum": 5}}}},
		{"type": A{"string", "integer"}, "not": str}, {"type": A{"string", "integer"}, "not": M{"minLength": 5}}, {"type": "integer", "not": M{"minimum": 3}}, {"type": "integer", "not": M{"exclusiveMinimum": 3}}, {"type": "integer", "not": M{"exclusiveMaximum": 3}},
		{"type": "number", "not": M{"maximum": 3}}, {"type": "integer", "minimum": 0, "maximum": 10, "not": M{"minimum": 3, "maximum": 5}}, {"type": "integer", "not": M{"minimum": 3, "maximum": 5}}, {"type": "integer", "minimum": 6, "maximum": 12, "not": M{"minimum": 7, "maximum": 9}},
		{"type": "integer", "not": M{"multipleOf": 2}}, {"type": "integer", "not": M{"multipleOf": 3}, "minimum": -10, "maximum": 10}, {"type": "integer", "multipleOf": 2, "not": M{"multipleOf": 3}}, {"type": "number", "multipleOf": dec(0.5), "not": M{"multipleOf": 2}}, {"type": "integer", "multipleOf": 2, "not": M{"minimum": 10}}, {"type": "integer", "minimum": 0, "maximum": 20, "not": M{"minimum": 5, "maximum": 7, "multipleOf": 3}},
		{"type": "number", "not": num}, {"type": "number", "minimum": 1, "maximum": 2, "not": num}, {"type": "integer", "multipleOf": 2, "minimum": 0, "maximum": 20, "not": M{"const": 4}},
		{"type": "string", "not": M{"minLength": 3}}, {"type": "string", "not": M{"maxLength": 3}}, {"type": "string", "not": M{"minLength": 3, "maxLength": 10}}, {"type": "string", "pattern": "^[ab]$", "not": M{"const": "a"}}, {"type": "string", "not": M{"enum": A{"a", "b"}}}, {"type": "string", "not": M{"pattern": "e"}, "minLength": 3, "maxLength": 5},
		{"type": "string", "not": M{"format": "email"}}, {"type": "string", "format": "email", "not": M{"pattern": "^a"}},
		{"type": "object", "not": M{"required": A{"a"}}, "properties": M{"a": str, "b": str}}, {"type": "object", "properties": M{"a": num, "b": num}, "not": M{"required": A{"a", "b"}}}, {"type": "object", "not": M{"minProperties": 3}, "additionalProperties": num}, {"type": "object", "not": M{"maxProperties": 3}, "additionalProperties": num},
		{"type": "object", "properties": M{"a": M{"enum": A{1, 2}}}, "not": M{"properties": M{"a": M{"const": 1}}}}, {"type": "object", "properties": M{"kind": M{"enum": A{"a", "b", "c"}}}, "required": A{"kind"}, "not": M{"properties": M{"kind": M{"const": "a"}}, "required": A{"kind"}}},
		{"type": "object", "properties": M{"a": M{"not": str}}, "required": A{"a"}}, {"type": "object", "not": M{"additionalProperties": str}},
		{"type": "array", "not": M{"maxItems": 3}}, {"type": "array", "not": M{"minItems": 3}}, {"type": "array", "items": num, "not": M{"items": M{"minimum": 3}}}, {"type": "array", "items": num, "not": M{"contains": M{"minimum": 5}}}, {"type": "array", "items": M{"not": str}, "minItems": 3}, {"type": "array", "prefixItems": A{M{"enum": A{1, 2}}}, "not": M{"prefixItems": A{M{"const": 1}}}},
		{"not": M{"enum": A{1, "a", nil}}}, {"not": M{"const": nil}}, {"type": "boolean", "not": M{"const": true}}, {"enum": A{1, 2, 3}, "not": M{"const": 2}}, {"enum": A{1, 2, 3, "x"}, "not": str}, {"enum": A{A{1}, A{2}}, "not": M{"const": A{1}}}, {"enum": A{M{"a": 1}, M{"a": 2}}, "not": M{"const": M{"a": 1}}},
		{"not": M{"not": str}}, {"type": "integer", "not": M{"not": M{"minimum": 3}}}, {"not": M{"not": M{"not": str}}}, {"allOf": A{M{"not": str}, M{"not": M{"type": "null"}}}}, {"allOf": A{num, M{"not": M{"minimum": 5}}, M{"not": M{"maximum": -5}}}}, {"type": "integer", "minimum": 0, "maximum": 3, "allOf": A{M{"not": M{"const": 0}}, M{"not": M{"const": 1}}, M{"not": M{"const": 3}}}},
		{"not": M{"allOf": A{str, M{"minLength": 3}}}}, {"$defs": M{"s": str}, "not": M{"$ref": "#/$defs/s"}}, {"$defs": M{"s": M{"type": "object", "properties": M{"k": M{"const": "x"}}, "required": A{"k"}}}, "type": "object", "properties": M{"k": M{"enum": A{"x", "y"}}}, "required": A{"k"}, "not": M{"$ref": "#/$defs/s"}},
		{"type": A{"integer", "string", "null"}, "not": M{"type": A{"integer", "null"}}}, {"type": "integer", "not": str}, {"type": "integer", "minimum": 0, "maximum": 5, "not": M{"enum": A{0, 1, 2, 3, "4"}}},
		{"oneOf": A{str, num}, "not": M{"const": 5}},
	}
	for i, s := range fixed {
		add(fmt.Sprintf("fixed-%02d", i), s, 120, Clean, notOpts())
		if s["$defs"] == nil {
			cases = append(cases, SchemaCase{Opts: notOpts(), ID: fmt.Sprintf("nested-%02d", i), Schema: toJSON(M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}), N: 40, Expect: Clean}.Case(),
				SchemaCase{Opts: notOpts(), ID: fmt.Sprintf("item-%02d", i), Schema: toJSON(M{"type": "array", "items": s, "minItems": 2, "maxItems": 3}), N: 20, Expect: Clean}.Case(),
				SchemaCase{Opts: notOpts(), ID: fmt.Sprintf("def-%02d", i), Schema: toJSON(M{"$defs": M{"d": s}, "type": "array", "items": M{"$ref": "#/$defs/d"}, "minItems": 1, "maxItems": 3}), N: 20, Expect: Clean}.Case(),
				SchemaCase{Opts: notOpts(), ID: fmt.Sprintf("alternative-%02d", i), Schema: toJSON(M{"anyOf": A{s, M{"const": "alternative"}}}), N: 20, Expect: Any}.Case())
		}
	}
	// supported only by rejecting values, which is reported
	for i, s := range []M{
		{"not": M{"anyOf": A{str, M{"type": "null"}}}}, {"not": M{"oneOf": A{str, M{"type": "null"}}}}, {"type": "object", "not": M{"patternProperties": M{"^a": str}}, "properties": M{"ab": M{"type": A{"string", "integer"}}}, "required": A{"ab"}}, {"anyOf": A{str, M{"type": "null"}}, "not": M{"type": "null"}}, {"anyOf": A{M{"anyOf": A{str, M{"type": "null"}}, "not": M{"type": "null"}}, M{"const": "alternative"}}},
	} {
		cases = append(cases, SchemaCase{Opts: notOpts(), ID: fmt.Sprintf("rejecting-%02d", i), Schema: toJSON(s), N: 120, Expect: Any}.Case())
	}
	for i, s := range []M{
		{"type": "string", "not": str}, {"type": "integer", "minimum": 6, "maximum": 6, "not": M{"multipleOf": 3}}, {"const": 1, "not": M{"const": 1}}, {"type": "integer", "minimum": 3, "maximum": 5, "not": M{"minimum": 2, "maximum": 6}}, {"enum": A{1, 2}, "not": M{"enum": A{1, 2, 3}}}, {"type": "integer", "multipleOf": 4, "not": M{"multipleOf": 2}},
	} {
		cases = append(cases, reportedCase(fmt.Sprintf("contradiction-%02d", i), s))
	}
	cases = append(cases, severalNots(cfg)...)
	cases = append(cases, negatedFormats(cfg)...)
	cases = append(cases, layeredNots(cfg)...)
	cases = append(cases, listedNots(cfg)...)
	cases = append(cases, vacuousNots(cfg)...)
	cases = append(cases, negatedRanges(cfg)...)
	for i := range cfg.Scale(1500, 25000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V08", id))
		for {
			u := g.notUniverse()
			s := M{}
			for k, v := range u.base {
				s[k] = v
			}
			if g.p(70) {
				s["not"] = g.negatable(u, 1)
			} else {
				all := A{}
				for range g.n(1, 3) {
					all = append(all, M{"not": g.negatable(u, 1)})
				}
				s["allOf"] = nestedGroups(g, all, 2)
			}
			if u.share(s) < 30 {
				continue
			}
			if g.p(15) {
				cases = append(cases, SchemaCase{Opts: notOpts()[:3], ID: id, Schema: toJSON(M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}), N: 30, Expect: Any, SkipReported: true, Markers: true}.Case())
			} else {
				add(id, s, 40, Any, notOpts()[:3])
			}
			break
		}
	}
	cases = append(cases, wideNots(cfg)...)
	return cases
}

// severalNots: several negations at once over a known list of values, each of which rules out a few of them.
// The values that are left have to be generated and no others.
func severalNots(cfg Cfg) []Case {
	values := A{
		"a@example.com", "b.c@example.org", "127.0.0.1", "10.2.3.4", "::1", "fe80::1", "2020-02-29", "2021-12-31", "12:30:01Z", "23:59:59+01:00", "2020-02-29T12:30:01Z",
		"f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "https://example.com/a", "plain text", "another plain text", "UPPER", "P1D", "P3Y6M", "", "12", "a b", "under_score", "ünï",
		12, 7, dec(2.5), true, false, nil, A{}, A{1, "a"}, A{nil}, M{}, M{"a": 1}, M{"b": A{}},
	}
	nots := []func(r *mrand.Rand, pool A) M{
		func(r *mrand.Rand, _ A) M {
			m := M{"type": "string", "format": pick(r, "email", "ipv4", "ipv6", "date", "time", "date-time", "uuid", "uri", "duration")}
			if r.Intn(4) == 0 {
				delete(m, "type")
			}
			return m
		},
		func(r *mrand.Rand, _ A) M {
			m := M{"type": "string", "pattern": pick(r, "^[0-9]", "text$", "^$", "@", "[A-Z]", "^a", "_", ":", "^.{2}$", "[^ -~]")}
			if r.Intn(4) == 0 {
				delete(m, "type")
			}
			return m
		},
		func(r *mrand.Rand, pool A) M { return M{"const": pool[r.Intn(len(pool))]} },
		func(r *mrand.Rand, pool A) M { return M{"enum": A{pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]}} },
		func(r *mrand.Rand, _ A) M {
			return M{"type": pick(r, "null", "boolean", "object", "array", "integer", "number")}
		},
	}
	cases := []Case{}
	for i := range cfg.Scale(500, 8000) {
		id := fmt.Sprintf("several-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		var s M
		var pool, left A
		for try := 0; ; try++ {
			pool = A{}
			for _, k := range r.Perm(len(values))[:6+r.Intn(10)] {
				pool = append(pool, values[k])
			}
			members := A{}
			for range 2 + r.Intn(3) {
				kind := r.Intn(len(nots) + 2)
				if kind >= len(nots) {
					kind = r.Intn(2)
				}
				members = append(members, M{"not": nots[kind](r, pool)})
			}
			oracle, err := compileOracle(toJSON(M{"allOf": members}), "", nil)
			if err != nil {
				panic("harness: " + err.Error())
			}
			left = A{}
			for _, v := range pool {
				iv, _ := js.UnmarshalJSON(strReader(toJSON(v)))
				if oracle.Validate(iv) == nil {
					left = append(left, v)
				}
			}
			// enough of the values have to be left to be found by rejecting others
			if len(left)*3 < len(pool) || len(left) == len(pool) {
				continue
			}
			g := newSG(r)
			switch r.Intn(7) {
			case 0, 1:
				s = M{"enum": pool, "allOf": members}
			case 5:
				s = M{"enum": pool, "allOf": nestedGroups(g, members, 3)}
			case 6:
				s = grouped(g, M{"enum": pool}, members)
			case 2:
				s = M{"allOf": append(A{M{"enum": pool}}, members...)}
			case 3:
				s = M{"enum": pool, "not": members[0].(M)["not"], "allOf": members[1:]}
			case 4:
				defs, refs := M{}, A{}
				for k, m := range members {
					defs[fmt.Sprint("n", k)] = m
					refs = append(refs, M{"$ref": fmt.Sprint("#/$defs/n", k)})
				}
				s = M{"enum": pool, "allOf": refs, "$defs": defs}
			}
			break
		}
		want := map[string]bool{}
		for _, v := range left {
			want[canon(v)] = true
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 40 * len(left), Opts: notOpts()[:2], Monitor: func(v any, raw []byte) string {
			if !want[canon(v)] {
				return fmt.Sprintf("%s is none of the %d values that are left", raw, len(left))
			}
			return ""
		}, Final: func(t *T, seen map[string]int) {
			if len(seen) < len(want) {
				t.Violate("unreachable", toJSON(s), fmt.Sprint(len(seen)), "%d values are left but only %d were generated", len(want), len(seen))
			}
		}}.Case())
	}
	return cases
}

func init() {
	register(Check{Prop: "V08", Rule: "a distinct value generated for one schema with a negation, accepted by the validator and by none of the negated schemas", Cases: notCases})
}

// formatPools are texts in and near each format
var formatPools = map[string][]string{
	"date-time":             {"2020-02-29T12:30:01Z", "2021-02-29T12:30:01Z", "1998-12-31T23:59:60Z", "1998-12-31T23:58:60Z", "2020-01-01t00:00:00z", "2020-01-01T00:00:00.123456+23:59", "2020-01-01T24:00:00Z", "2020-01-01T00:00:00+24:00", "2020-01-01T00:00:00", "2020-13-01T00:00:00Z", "2020-01-01T15:59:60-08:00"},
	"date":                  {"2020-02-29", "2019-02-29", "2000-02-30", "2020-1-01", "2020-12-32", "2020-00-10", "0000-01-01", "20200101", "2020-12-31", "2020-06-31"},
	"time":                  {"12:30:01Z", "23:59:60Z", "22:59:60Z", "12:30:01", "12:30:01+01:00", "12:30:01.5-00:30", "24:00:00Z", "12:60:00Z", "12:30Z", "01:29:60+01:30", "12:30:01+1:00", "12:30:01z", "12:30:01.Z"},
	"duration":              {"P3D", "P1Y2M3DT4H5M6S", "PT1S", "P2W", "P", "PT", "P1W2D", "P1M1Y", "P-1D", "P1.5D", "3D", "P1DT", "PT1M1H", "p1d", "P0D"},
	"period":                {"2020-01-01T00:00:00Z/P1D", "P1D/2020-01-01T00:00:00Z", "2020-01-01T00:00:00Z/2021-01-01T00:00:00Z", "P1D/P2D", "2020-01-01T00:00:00Z", "/"},
	"hostname":              {"example.com", "a", "-a.com", "a-.com", "a_b.com", "a..b", "example.com.", "xn--bcher-kva.example", "1.2.3.4", "a" + strings.Repeat("b", 62), "a" + strings.Repeat("b", 63), strings.Repeat("abcdefg.", 31) + "abcde", strings.Repeat("abcdefg.", 31) + "abcdefgh", "EXAMPLE.com", "exam ple"},
	"email":                 {"a@example.com", "a", "@", "a@", "@b", "a@b", "\"a b\"@example.com", "a@[127.0.0.1]", "a@[IPv6:::1]", "a@[nope]", "a..b@example.com", ".a@example.com", "a.@example.com", "a@b@c", strings.Repeat("a", 64) + "@example.com", strings.Repeat("a", 65) + "@example.com", "a@-b.com", "\"\"@example.com", "a b@example.com"},
	"ipv4":                  {"127.0.0.1", "256.0.0.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.4 ", "0.0.0.0", "255.255.255.255", "1.2.3.-4", "0x7f.0.0.1", "1.2.3.+4", "::1"},
	"ipv6":                  {"::1", "fe80::1%eth0", "1::2::3", "2001:db8::ff00:42:8329", ":::", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "12345::", "g::", "127.0.0.1", "[::1]", "::1.2.3", "1:2:3:4:5:6:7:8:9"},
	"uri":                   {"https://example.com/a", "a/b", "//a", "urn:a:b", "http://[::1]/", "http://::1/", "http://[::1", "http://[127.0.0.1]/", "http://a b/", "http://a/%zz", "http://a/%20", "mailto:a@b", ":a", "a:", "http://a\\b", "1a:b", "#a", "", "http://[nope]/", "http://[::1::2]/", "http://[::g]/a", "http://[1:2:3]/"},
	"iri":                   {"https://example.com/ü", "ü", "urn:ü"},
	"uri-reference":         {"https://example.com/a", "a/b", "//a", "#a", "?b", "", "\\a", "a%zz", "a b", "http://::1/", ":a", "a\\b", "1:2"},
	"iri-reference":         {"ü/ö", "\\ü"},
	"uri-template":          {"http://a/{b}", "{a", "a}", "{a}{b}", "{}", "{{a}}", "a/{b}/c}", "/a\\b", "{+x:3}", "{a}b{c"},
	"json-pointer":          {"", "/", "/a/b", "a", "/a~0b", "/a~1", "/a~", "/a~2", "//", "/a~01", "#/a"},
	"relative-json-pointer": {"0", "1/a", "01", "0#", "-1", "/a", "1#/a", "10/a~0", "1a", "+1/a", "0##", "120"},
	"uuid":                  {"f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "F81D4FAE-7DEC-11D0-A765-00A0C91E6BF6", "f81d4fae7dec11d0a76500a0c91e6bf6", "f81d4fae-7dec-11d0-a765-00a0c91e6bf", "g81d4fae-7dec-11d0-a765-00a0c91e6bf6", "f81d4fae-7dec-11d0-a765-00a0c91e6bf60", "f81d4fae-7dec-11d0a-765-00a0c91e6bf6", "00000000-0000-0000-0000-000000000000"},
	"regex":                 {"a", "(", "[a", "a{2,1}", "(?=a)", "\\d", "a**", "^$", "[z-a]", "(?<n>a)", "\\"},
}

// negatedFormats: which of many texts in and near a format are left when the format is negated
func negatedFormats(cfg Cfg) []Case {
	cases := []Case{}
	for _, f := range slices.Sorted(maps.Keys(formatPools)) {
		for i := range cfg.Scale(12, 200) {
			id := fmt.Sprintf("format-%s-%d", f, i)
			r := subRng(cfg.Seed, "V08", id)
			var pool, left A
			schema := ""
			for {
				seen := map[string]bool{}
				pool, left = A{}, A{}
				add := func(s string) {
					if !seen[s] && utf8.ValidString(s) {
						seen[s] = true
						pool = append(pool, s)
					}
				}
				for _, k := range r.Perm(len(formatPools[f])) {
					s := formatPools[f][k]
					add(s)
					for range 2 + r.Intn(2) {
						add(mutated(r, s))
					}
				}
				add("plain text")
				add("a\u0000b")
				schema = toJSON(M{"enum": pool, "not": M{"format": f}})
				oracle, err := compileOracle(toJSON(M{"not": M{"format": f}}), "", nil)
				if err != nil {
					panic("harness: " + err.Error())
				}
				for _, v := range pool {
					if oracle.Validate(v) == nil {
						left = append(left, v)
					}
				}
				if len(left)*4 < len(pool) && i < 50 {
					for n := range len(pool) {
						add(fmt.Sprintf("%d plain texts", n))
					}
					schema = toJSON(M{"enum": pool, "not": M{"format": f}})
					left = A{}
					for _, v := range pool {
						if oracle.Validate(v) == nil {
							left = append(left, v)
						}
					}
				}
				break
			}
			want := map[string]bool{}
			for _, v := range left {
				want[canon(v)] = true
			}
			cases = append(cases, SchemaCase{ID: id, Schema: schema, N: 25 * len(left), Opts: notOpts()[:1], Monitor: func(v any, raw []byte) string {
				if !want[canon(v)] {
					return fmt.Sprintf("%s is none of the %d values that are left", raw, len(left))
				}
				return ""
			}, Final: func(t *T, seen map[string]int) {
				if len(seen) < len(want) {
					missing := []string{}
					for k := range want {
						// which characters may stand before the @ is a matter of opinion
						if seen[k] == 0 && !(f == "email" && strings.Contains(k, "@")) {
							missing = append(missing, k)
						}
					}
					if len(missing) > 0 {
						t.Violate("unreachable", schema, strings.Join(missing, " "), "%d values are left but only %d were generated", len(want), len(seen))
					}
				}
			}}.Case())
		}
	}
	return cases
}

func mutated(r *mrand.Rand, s string) string {
	l := []rune(s)
	alphabet := []rune(":.-/@ 0199aZT%[]{}~#?+\\üP")
	for range 1 + r.Intn(2) {
		if len(l) == 0 || r.Intn(3) == 0 {
			k := r.Intn(len(l) + 1)
			l = append(l[:k:k], append([]rune{alphabet[r.Intn(len(alphabet))]}, l[k:]...)...)
			continue
		}
		k := r.Intn(len(l))
		switch r.Intn(3) {
		case 0:
			l = append(l[:k:k], l[k+1:]...)
		case 1:
			l[k] = alphabet[r.Intn(len(alphabet))]
		case 2:
			l = append(l[:k:k], append([]rune{l[k]}, l[k:]...)...)
		}
	}
	return string(l)
}
