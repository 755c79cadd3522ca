package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- V01 numbers

func ratOf(v any) *big.Rat {
	r, ok := new(big.Rat).SetString(fmt.Sprint(v))
	if !ok {
		return nil
	}
	return r
}

// numMonitor checks a number against the keywords with exact arithmetic, independently of the validator
func numMonitor(s M) func(v any, raw []byte) string {
	return func(v any, raw []byte) string {
		n, ok := v.(json.Number)
		if !ok {
			return fmt.Sprintf("not a number: %s", raw)
		}
		x := ratOf(n)
		if s["type"] == "integer" && !x.IsInt() {
			return "not an integer: " + n.String()
		}
		if b, ok := s["minimum"]; ok && x.Cmp(ratOf(b)) < 0 {
			return fmt.Sprintf("%s is below the minimum %v", n, b)
		}
		if b, ok := s["maximum"]; ok && x.Cmp(ratOf(b)) > 0 {
			return fmt.Sprintf("%s is above the maximum %v", n, b)
		}
		if b, ok := s["exclusiveMinimum"]; ok && x.Cmp(ratOf(b)) <= 0 {
			return fmt.Sprintf("%s is not above the exclusive minimum %v", n, b)
		}
		if b, ok := s["exclusiveMaximum"]; ok && x.Cmp(ratOf(b)) >= 0 {
			return fmt.Sprintf("%s is not below the exclusive maximum %v", n, b)
		}
		if b, ok := s["multipleOf"]; ok && !new(big.Rat).Quo(x, ratOf(b)).IsInt() {
			return fmt.Sprintf("%s is not a multiple of %v", n, b)
		}
		return ""
	}
}

// numSatisfiable decides with exact arithmetic if any number fits the bounds. The second result is the
// number of allowed values (-1: unbounded or uncountable)
func numSatisfiable(s M) (bool, int) {
	step := ratOf("0")
	if s["type"] == "integer" {
		step = ratOf("1")
	}
	if m, ok := s["multipleOf"]; ok {
		step = ratOf(m)
		if s["type"] == "integer" && !step.IsInt() {
			return false, 0
		}
	}
	var lo, hi *big.Rat
	loEx, hiEx := false, false
	if b, ok := s["minimum"]; ok {
		lo = ratOf(b)
	}
	if b, ok := s["exclusiveMinimum"]; ok {
		if r := ratOf(b); lo == nil || r.Cmp(lo) >= 0 {
			lo, loEx = r, true
		}
	}
	if b, ok := s["maximum"]; ok {
		hi = ratOf(b)
	}
	if b, ok := s["exclusiveMaximum"]; ok {
		if r := ratOf(b); hi == nil || r.Cmp(hi) <= 0 {
			hi, hiEx = r, true
		}
	}
	if lo == nil || hi == nil {
		return true, -1
	}
	if step.Sign() == 0 {
		c := lo.Cmp(hi)
		return c < 0 || (c == 0 && !loEx && !hiEx), -1
	}
	f := func(r *big.Rat) *big.Int { // floor
		return new(big.Int).Div(r.Num(), r.Denom())
	}
	ql, qh := new(big.Rat).Quo(lo, step), new(big.Rat).Quo(hi, step)
	first := f(ql)
	if !ql.IsInt() || loEx {
		first.Add(first, big.NewInt(1))
	}
	last := f(qh)
	if qh.IsInt() && hiEx {
		last.Sub(last, big.NewInt(1))
	}
	n := new(big.Int).Sub(last, first)
	n.Add(n, big.NewInt(1))
	if n.Sign() <= 0 {
		return false, 0
	}
	if n.IsInt64() && n.Int64() < 1<<30 {
		return true, int(n.Int64())
	}
	return true, -1
}

func numberCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, s M, n int) {
		sat, card := numSatisfiable(s)
		sc := SchemaCase{ID: id, Schema: toJSON(s), N: n, Monitor: numMonitor(s)}
		if !sat {
			sc.Expect = Reported
		} else if card > 0 && card <= 6 {
			// small sets: every allowed value has to turn up, and nothing else
			sc.N = 500
			sc.Opts = []GenOpt{{Name: "default"}}
			sc.Final = func(t *T, seen map[string]int) {
				if len(seen) != card {
					t.Violate("unreachable", toJSON(s), fmt.Sprint(seen), "%d values are allowed but %d were seen in %d generations", card, len(seen), sc.N)
				}
			}
		}
		cases = append(cases, sc.Case())
	}
	// a grid over the bounds around interesting points
	type bound struct {
		k string
		v any
	}
	lows := []bound{{}, {"minimum", 0}, {"minimum", -3}, {"minimum", 2}, {"minimum", dec(0.5)}, {"minimum", dec(-2.5)}, {"exclusiveMinimum", 0}, {"exclusiveMinimum", -3}, {"exclusiveMinimum", 2}, {"exclusiveMinimum", dec(0.5)}, {"exclusiveMinimum", dec(-2.5)}, {"minimum", 100}}
	highs := []bound{{}, {"maximum", 0}, {"maximum", -3}, {"maximum", 2}, {"maximum", 4}, {"maximum", dec(2.5)}, {"maximum", dec(-0.5)}, {"exclusiveMaximum", 0}, {"exclusiveMaximum", -1}, {"exclusiveMaximum", 3}, {"exclusiveMaximum", dec(2.5)}, {"maximum", 101}}
	steps := []any{nil, 1, 2, 3, dec(0.5), dec(0.1), dec(0.25)}
	i := 0
	for _, typ := range []string{"integer", "number"} {
		for _, lo := range lows {
			for _, hi := range highs {
				for _, st := range steps {
					if typ == "integer" && st != nil && !ratOf(st).IsInt() {
						continue
					}
					s := M{"type": typ}
					if lo.k != "" {
						s[lo.k] = lo.v
					}
					if hi.k != "" {
						s[hi.k] = hi.v
					}
					if st != nil {
						s["multipleOf"] = st
					}
					i++
					add(fmt.Sprintf("grid-%04d", i), s, 15)
				}
			}
		}
	}
	// both kinds of bounds at once
	for i, s := range []M{
		{"type": "integer", "minimum": 3, "exclusiveMinimum": 3, "maximum": 5}, {"type": "integer", "minimum": 3, "exclusiveMinimum": 5, "maximum": 8},
		{"type": "integer", "maximum": 3, "exclusiveMaximum": 3, "minimum": 0}, {"type": "integer", "maximum": 9, "exclusiveMaximum": 3, "minimum": 0},
		{"type": "number", "minimum": 3, "exclusiveMinimum": 3, "maximum": 4}, {"type": "number", "maximum": 3, "exclusiveMaximum": 3, "minimum": 0},
		{"type": "integer", "minimum": -5, "maximum": -5}, {"type": "number", "minimum": dec(0.1), "maximum": dec(0.1)}, {"type": "number", "minimum": -1, "exclusiveMaximum": -1},
		{"type": "integer", "exclusiveMinimum": 0, "exclusiveMaximum": 2}, {"type": "integer", "exclusiveMinimum": 0, "exclusiveMaximum": 1}, {"type": "integer", "exclusiveMinimum": -2, "exclusiveMaximum": 0},
		{"type": "integer", "minimum": 1000000007, "maximum": 1000000007}, {"type": "integer", "minimum": 1099511627776, "maximum": 1099511627780}, {"type": "integer", "minimum": -1099511627780, "maximum": -1099511627776},
		{"type": "integer", "multipleOf": 1000003}, {"type": "integer", "multipleOf": 7, "minimum": 1}, {"type": "integer", "multipleOf": 7, "maximum": -1}, {"type": "number", "multipleOf": dec(0.01), "minimum": 19, "maximum": dec(19.99)},
		{"type": "number", "multipleOf": dec(0.001), "minimum": dec(1.0005), "maximum": dec(1.0025)}, {"type": "number", "multipleOf": 12, "minimum": -30, "maximum": -20}, {"type": "number", "exclusiveMinimum": 0, "exclusiveMaximum": dec(0.001)},
		{"type": "number", "exclusiveMinimum": 0, "maximum": 1}, {"type": "number", "minimum": 5}, {"type": "number", "maximum": -5}, {"type": "number", "exclusiveMaximum": 0}, {"type": "integer", "exclusiveMaximum": 0},
		{"type": "integer", "exclusiveMinimum": -1, "exclusiveMaximum": 1}, {"type": "integer", "minimum": 1, "maximum": 6, "multipleOf": 6}, {"type": "integer", "exclusiveMinimum": 0, "exclusiveMaximum": 12, "multipleOf": 6},
		{"type": "integer", "exclusiveMinimum": 6, "exclusiveMaximum": 12, "multipleOf": 6}, {"type": "integer", "minimum": 7, "maximum": 11, "multipleOf": 6}, {"type": "integer", "minimum": -11, "maximum": -7, "multipleOf": 6},
		{"type": "number", "minimum": 1, "exclusiveMaximum": 1}, {"type": "number", "minimum": 2, "maximum": 1}, {"type": "integer", "minimum": dec(0.1), "maximum": dec(0.9)}, {"type": "integer", "multipleOf": dec(0.5)}, {"type": "number", "multipleOf": -1}, {"type": "integer", "multipleOf": -2},
	} {
		if m, ok := s["multipleOf"]; ok && ratOf(m).Sign() < 0 {
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("corner-%02d", i), Schema: toJSON(s), Expect: Reported}.Case())
			continue
		}
		add(fmt.Sprintf("corner-%02d", i), s, 120)
	}
	for i := range cfg.Scale(2500, 60000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V01", id))
		s := g.Number()
		if g.p(15) { // random bounds that might exclude everything
			s = M{"type": pick(g.r, "integer", "number")}
			s[pick(g.r, "minimum", "exclusiveMinimum")] = dec(float64(g.n(-6, 6)) / 2)
			s[pick(g.r, "maximum", "exclusiveMaximum")] = dec(float64(g.n(-6, 6)) / 2)
			if g.p(60) {
				s["multipleOf"] = g.n(1, 5)
			}
		}
		add(id, s, 30)
	}
	return cases
}

// ---- V02 strings

func stringMonitor(s M) func(v any, raw []byte) string {
	return func(v any, raw []byte) string {
		x, ok := v.(string)
		if !ok {
			return fmt.Sprintf("not a string: %s", raw)
		}
		if !utf8.ValidString(x) {
			return "not valid UTF-8"
		}
		l := utf8.RuneCountInString(x)
		if b, ok := s["minLength"].(int); ok && l < b {
			return fmt.Sprintf("length %d is below %d", l, b)
		}
		if b, ok := s["maxLength"].(int); ok && l > b {
			return fmt.Sprintf("length %d is above %d", l, b)
		}
		if p, ok := s["pattern"].(string); ok {
			if m, err := regexp.MatchString(p, x); err == nil && !m {
				return "does not match the pattern"
			}
		}
		return ""
	}
}

func stringCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, s M, n int, e Expect) {
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: n, Monitor: stringMonitor(s), Expect: e}.Case())
	}
	// every pair of limits around the size of the generated sentences
	points := []int{0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 56, 89, 100, 144, 200, 233, 377, 500, 1000, 5000}
	for _, min := range append([]int{-1}, points...) {
		for _, max := range append([]int{-1}, points...) {
			s := M{"type": "string"}
			if min >= 0 {
				s["minLength"] = min
			}
			if max >= 0 {
				s["maxLength"] = max
			}
			e := Clean
			if min >= 0 && max >= 0 && min > max {
				e = Reported
			}
			add(fmt.Sprintf("length-%d-%d", min, max), s, 25, e)
		}
	}
	for _, f := range goodFormats {
		add("format-"+f, M{"type": "string", "format": f}, cfg.Scale(800, 20000), Clean)
		add("format-untyped-"+f, M{"format": f}, 50, Clean)
	}
	// wherever in the world it runs
	for i, zone := range []*time.Location{time.UTC, time.FixedZone("IST", 5*3600+1800), time.FixedZone("NST", -(3*3600 + 1800)), time.FixedZone("LINT", 14*3600), time.FixedZone("AoE", -12*3600), time.FixedZone("LMT", 19*60+32), time.FixedZone("near", -45*60)} {
		for _, f := range []string{"date", "time", "date-time", "duration"} {
			c := SchemaCase{ID: fmt.Sprintf("zone-%d-%s", i, f), Schema: toJSON(M{"type": "string", "format": f}), N: cfg.Scale(300, 5000), Monitor: stringMonitor(M{"type": "string", "format": f})}.Case()
			run := c.Run
			c.Serial = true
			c.Run = func(t *T) {
				old := time.Local
				time.Local = zone
				defer func() { time.Local = old }()
				run(t)
			}
			cases = append(cases, c)
		}
	}
	for i, p := range goodPatterns {
		add(fmt.Sprintf("pattern-%02d", i), M{"type": "string", "pattern": p}, 200, Clean)
		add(fmt.Sprintf("pattern-untyped-%02d", i), M{"pattern": p}, 20, Clean)
	}
	for i, s := range []M{
		{"type": "string", "minLength": -1}, {"type": "string", "maxLength": -1}, {"type": "string", "minLength": 4, "maxLength": 3}, {"minLength": 1, "maxLength": 0},
		{"type": "string", "pattern": "("}, {"type": "string", "pattern": "[z-a]"}, {"type": "string", "pattern": "a**"}, {"type": "string", "pattern": "(?<"}, {"type": "string", "pattern": "a{3,1}"},
	} {
		add(fmt.Sprintf("contradiction-%02d", i), s, 0, Reported)
	}
	for i := range cfg.Scale(1500, 30000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V02", id))
		s := g.String()
		if g.p(30) {
			delete(s, "type")
			if len(s) == 0 {
				s["type"] = "string"
			}
		}
		add(id, s, 25, Clean)
	}
	return cases
}

var goodPatterns = []string{
	"^[a-z]+$", "^[A-Z]{2}[0-9]{3}$", "^(foo|bar|baz)$", "^\\d{3}-\\d{4}$", "^a*$", "^$", "abc", "a|b|c", "^[^aeiou]{5}$", "^[\\w.]+@[\\w.]+\\.com$",
	"^(\\([0-9]{3}\\))?[0-9]{3}-[0-9]{4}$", "^#[0-9a-fA-F]{6}$", "^(?:[01]\\d|2[0-3]):[0-5]\\d$", "^.{5}$", "^[é-ü]{3}$", "^[一-龥]{2,4}$", "^\\S+$", "^[^\\s]{1,4}$", "^\\W{3}$", "^x{0}$", "^x{0,0}y$",
	"^(a(b(c)?)?)?$", "^((ab){2}|c){3}$", "^v\\d+\\.\\d+\\.\\d+(-[a-z]+)?$", "^\\x41\\x42$", "^[\\]\\[]{2}$", "^[-a]{4}$", "^[a-]{4}$", "^\\/path\\/[a-z]+$", "^[[:alpha:]]{3}$", "^[[:^alpha:]]{3}$", "^(?i)hello$", "^a+?b*?c??$",
	"^[0-9]{1,2}%$", "^(a|)$", "^(|a)b$", "^[\\d\\D]{3}$", "^[\\x00-\\x1f]{2}$", "^[^\\x00-\\x7f]$", "^\\.$", "^.\\.$", "^\\D{4}$", "^[^\\D5]{4}$", "^[^\\W\\d_]{4}$", "^\\t$", "^a{50}$", "^[a-c]{0,1}$",
}

// ---- V05 enumerations and constants

func enumCases(cfg Cfg) []Case {
	cases := []Case{}
	// allowed: canonical texts that may (and have to) be generated
	add := func(id string, schema M, allowed A) {
		want := map[string]bool{}
		for _, a := range allowed {
			want[canon(a)] = true
		}
		n := 40 * len(want)
		if n < 40 {
			n = 40
		}
		cases = append(cases, SchemaCase{
			ID: id, Schema: toJSON(schema), N: n, Opts: []GenOpt{{Name: "default"}, {Name: "hostile", Hostile: 30}, cliOpts()},
			Monitor: func(v any, raw []byte) string {
				if !want[canon(v)] {
					return fmt.Sprintf("%s is none of the %d allowed values", clip(string(raw), 200), len(want))
				}
				return ""
			},
			Final: func(t *T, seen map[string]int) {
				if len(seen) < len(want) && (len(want) <= 60 || len(seen) < len(want)*9/10) {
					t.Violate("unreachable", toJSON(schema), fmt.Sprint(len(seen)), "%d values are allowed but only %d were generated", len(want), len(seen))
				}
			},
		}.Case())
	}
	fixed := []struct {
		s M
		a A
	}{
		{M{"enum": A{nil}}, A{nil}}, {M{"const": false}, A{false}}, {M{"const": 0}, A{0}}, {M{"const": ""}, A{""}}, {M{"const": A{}}, A{A{}}}, {M{"const": M{}}, A{M{}}},
		{M{"enum": A{1, "1", true, nil, A{1}, M{"a": 1}}}, A{1, "1", true, nil, A{1}, M{"a": 1}}},
		{M{"enum": A{0, false, "", nil, A{}, M{}}}, A{0, false, "", nil, A{}, M{}}},
		{M{"type": "string", "enum": A{"a", 1, nil}}, A{"a"}}, {M{"type": "integer", "enum": A{"a", 1, 2, dec(2.5)}}, A{1, 2}}, {M{"type": "number", "enum": A{"a", 1, dec(2.5)}}, A{1, dec(2.5)}},
		{M{"type": A{"string", "null"}, "enum": A{"a", 1, nil}}, A{"a", nil}}, {M{"enum": A{"aaaa", "b"}, "minLength": 3}, A{"aaaa"}}, {M{"enum": A{1, 5, 10}, "minimum": 4}, A{5, 10}}, {M{"enum": A{1, 5, 10}, "exclusiveMinimum": 5}, A{10}},
		{M{"enum": A{A{1}, A{1, 2}, A{1, 2, 3}}, "maxItems": 2}, A{A{1}, A{1, 2}}}, {M{"enum": A{M{"a": 1}, M{"b": 1}, M{"a": "x"}}, "required": A{"a"}}, A{M{"a": 1}, M{"a": "x"}}},
		{M{"const": 1, "enum": A{1, 2}}, A{1}}, {M{"enum": A{"ab", "cd", "ac"}, "pattern": "^a"}, A{"ab", "ac"}},
		{M{"allOf": A{M{"enum": A{1, 2, 3}}, M{"enum": A{2, 3, 4}}}}, A{2, 3}}, {M{"allOf": A{M{"enum": A{1, 2, 3}}, M{"const": 2}}}, A{2}}, {M{"allOf": A{M{"enum": A{1, "a"}}, M{"type": "string"}}}, A{"a"}}, {M{"allOf": A{M{"enum": A{1, 20}}, M{"minimum": 5}}}, A{20}},
		{M{"enum": A{A{nil}, M{"a": nil}, A{A{}, M{}}}}, A{A{nil}, M{"a": nil}, A{A{}, M{}}}}, {M{"enum": A{1000000000000, -1000000000000, dec(0.1), dec(-0.001), json.Number("1e10")}}, A{1000000000000, -1000000000000, dec(0.1), dec(-0.001), json.Number("1e10")}},
		{M{"const": M{"deep": A{M{"x": A{1, M{"y": nil}}}}}}, A{M{"deep": A{M{"x": A{1, M{"y": nil}}}}}}},
		{M{"enum": A{"a", "b"}, "type": "string", "maxLength": 1, "pattern": "[ab]"}, A{"a", "b"}},
		{M{"enum": A{"<script>", "a&b", "\u2028", "\u0000", "\"", "\\u0041"}}, A{"<script>", "a&b", "\u2028", "\u0000", "\"", "\\u0041"}},
	}
	for i, f := range fixed {
		add(fmt.Sprintf("fixed-%02d", i), f.s, f.a)
	}
	for i, s := range []M{
		{"type": "string", "const": 1}, {"type": "integer", "enum": A{"a", "b"}}, {"const": 5, "minimum": 6}, {"enum": A{"a", "b"}, "minLength": 2}, {"const": "a", "enum": A{"b"}}, {"allOf": A{M{"const": 1}, M{"const": 2}}}, {"allOf": A{M{"enum": A{1, 2}}, M{"enum": A{3}}}},
		{"const": A{1, 2}, "maxItems": 1}, {"type": "object", "const": "x"}, {"const": M{"a": 1}, "required": A{"b"}},
	} {
		cases = append(cases, SchemaCase{ID: fmt.Sprintf("contradiction-%02d", i), Schema: toJSON(s), Expect: Reported}.Case())
	}
	big := A{}
	for i := range 1000 {
		big = append(big, fmt.Sprintf("v%d", i))
	}
	add("large", M{"enum": big}, big)
	for _, n := range []int{9, 17, 20, 26, 33, 40, 60} {
		list := A{}
		for i := range n {
			list = append(list, A{i, fmt.Sprintf("v%d", i), A{i}, M{"k": i}, i * 1000003}[i%5])
		}
		add(fmt.Sprintf("sized-%02d", n), M{"enum": list}, list)
	}
	// null is a value like any other
	for i, s := range []M{
		{"const": nil, "type": A{"string", "null"}}, {"const": nil, "type": "null"}, {"const": nil, "minLength": 3}, {"const": nil, "enum": A{1, nil, "a"}}, {"enum": A{nil, 1}, "type": A{"null", "string"}},
		{"allOf": A{M{"const": nil}, M{"enum": A{nil, 2}}}}, {"allOf": A{M{"type": A{"null", "array"}}, M{"const": nil}}}, {"const": nil, "properties": M{"a": M{"const": 1}}}, {"const": nil, "items": M{"type": "string"}, "type": A{"array", "null"}},
	} {
		add(fmt.Sprintf("null-%02d", i), s, A{nil})
		for u := range 5 {
			where := []M{
				{"type": "object", "properties": M{"v": s}, "required": A{"v"}, "additionalProperties": false}, {"type": "array", "prefixItems": A{s}, "minItems": 1, "items": false}, {"$ref": "#/$defs/s", "$defs": M{"s": s}},
				{"anyOf": A{s}}, {"type": "array", "items": s, "minItems": 2, "maxItems": 2},
			}[u]
			add(fmt.Sprintf("null-%02d-%d", i, u), where, A{A{M{"v": nil}, A{nil}, nil, nil, A{nil, nil}}[u]})
		}
	}
	for i := range cfg.Scale(1500, 30000) {
		id := fmt.Sprintf("random-%05d", i)
		g := newSG(subRng(cfg.Seed, "V05", id))
		if g.p(30) {
			s := g.Const()
			add(id, s, A{s["const"]})
		} else {
			s := g.Enum()
			add(id, s, s["enum"].(A))
		}
	}
	// data that looks like a schema
	for i, v := range (A{M{"$ref": "#/x"}, M{"$ref": "other"}, M{"$id": "x", "$ref": "#"}, M{"$id": "https://ex.test/a"}, M{"type": "string"}, M{"enum": A{1}}, M{"const": M{"$ref": "#"}}, M{"properties": M{"a": M{"$ref": "#/zz"}}},
		M{"not": M{}}, M{"allOf": A{M{"$ref": "#/$defs/a"}}}, A{M{"$ref": "#/q"}}, M{"$defs": M{"a": M{"$id": "color"}}}, M{"$schema": "https://nowhere.test"}, M{"const": nil}, "#/x", M{"": M{"$ref": "a/b"}}}) {
		for j, s := range []M{{"const": v}, {"enum": A{v, 1}}, {"allOf": A{M{"const": v}, M{"enum": A{v, 2}}}}, {"oneOf": A{M{"const": v}, M{"const": 7}}}, {"anyOf": A{M{"enum": A{v}}, M{"const": 7}}},
			{"$ref": "#/$defs/d"}, {"allOf": A{M{"$ref": "#/$defs/d"}}}} {
			s["$defs"] = M{"d": M{"const": v}}
			want := map[int]A{0: {v}, 1: {v, 1}, 2: {v}, 3: {v, 7}, 4: {v, 7}, 5: {v}, 6: {v}}[j]
			add(fmt.Sprintf("schema-like-%02d-%d", i, j), s, want)
		}
		for j, s := range []M{
			{"type": "object", "properties": M{"a": M{"const": v}, "b": M{"enum": A{v}}}, "required": A{"a", "b"}},
			{"type": "object", "properties": M{"a": M{"enum": A{v, 1}}, "b": M{"enum": A{v, 1}}}, "required": A{"a", "b"}, "if": M{"properties": M{"a": M{"const": v}}}, "then": M{"properties": M{"b": M{"const": v}}}, "else": M{"properties": M{"b": M{"const": 1}}}},
			{"allOf": A{M{"type": "object", "properties": M{"a": M{"const": v}}, "required": A{"a"}}, M{"properties": M{"b": M{"enum": A{v}}}, "required": A{"b"}}}},
			{"type": "array", "items": M{"oneOf": A{M{"const": v}, M{"type": "boolean"}}}, "minItems": 2, "maxItems": 3},
		} {
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("schema-like-nested-%02d-%d", i, j), Schema: toJSON(s), N: 20}.Case())
		}
	}
	for f, v := range map[string]string{"email": "a@example.com", "ipv4": "10.0.0.1", "ipv6": "fe80::1", "date": "2020-02-29", "time": "12:30:01Z", "date-time": "2020-02-29T12:30:01Z", "uuid": "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "duration": "P3D", "uri": "https://example.com/a"} {
		add("format-"+f, M{"enum": A{"plain text", v, "a b"}, "type": "string", "format": f}, A{v})
		add("format-mixed-"+f, M{"enum": A{"plain text", v, 5, nil}, "format": f}, A{v, 5, nil})
		add("format-const-"+f, M{"const": v, "format": f}, A{v})
		add("format-merged-"+f, M{"allOf": A{M{"enum": A{"plain text", v}}, M{"type": "string", "format": f}}}, A{v})
		cases = append(cases, SchemaCase{ID: "format-contradiction-" + f, Schema: toJSON(M{"const": "plain text", "type": "string", "format": f}), Expect: Reported}.Case())
	}
	// values of different types that look alike, combined
	alike := A{1, "1", true, "true", nil, "null", "<nil>", false, "false", dec(1.5), "1.5", 0, "0", "", A{}, "[]", M{}, "{}", "map[]", A{1}, A{"1"}, A{A{1}}, M{"a": 1}, M{"a": "1"}, M{"a": A{}}, M{"a": M{}}, M{"a": nil}, M{"a": "null"}, A{1, 2}, A{2, 1}, A{12}, "12", 12, "1 2", A{"1 2"}, A{"a", "b"}, A{"a b"}, -1, "-1", "\"1\"", "\\u0031", " 1", "1 ", "1.0", dec(1e21), "1e21"}
	for i := range cfg.Scale(400, 6000) {
		id := fmt.Sprintf("alike-%04d", i)
		r := subRng(cfg.Seed, "V05", id)
		pool := A{}
		from := r.Intn(len(alike))
		for k := range 8 {
			pool = append(pool, alike[(from+k)%len(alike)])
		}
		if r.Intn(2) == 0 {
			for range 4 {
				pool = append(pool, alike[r.Intn(len(alike))])
			}
			pool = uniq(pool)
		}
		lists := []A{{}, {}, {}}[:2+r.Intn(2)]
		all := A{}
		for _, v := range pool {
			in := true
			for k := range lists {
				if r.Intn(100) < 60 {
					lists[k] = append(lists[k], v)
				} else {
					in = false
				}
			}
			if in {
				all = append(all, v)
			}
		}
		if len(all) == 0 {
			all = append(all, pool[0])
			for k := range lists {
				lists[k] = uniq(append(lists[k], pool[0]))
			}
		}
		members := A{}
		for _, l := range lists {
			r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			members = append(members, M{"enum": l})
		}
		switch r.Intn(5) {
		case 0:
			add(id, M{"allOf": members}, all)
		case 1:
			add(id, M{"enum": lists[0], "allOf": members[1:]}, all)
		case 2:
			defs := M{}
			refs := A{}
			for k, m := range members {
				defs[fmt.Sprint("e", k)] = m
				refs = append(refs, M{"$ref": fmt.Sprint("#/$defs/e", k)})
			}
			add(id, M{"allOf": refs, "$defs": defs}, all)
		case 3: // one of them is negated
			left := A{}
			for _, v := range lists[0] {
				if !contains(lists[1], v) {
					left = append(left, v)
				}
			}
			// the validator negations are checked with takes 1 and "1" for the same
			loose := func(v any) string {
				return strings.NewReplacer("\"", "", "+", "", "\\", "", " ", "", "1.0", "1").Replace(toJSON(v))
			}
			same := false
			for _, v := range left {
				for _, w := range lists[1] {
					same = same || loose(v) == loose(w)
				}
			}
			if len(left) == 0 || same {
				continue
			}
			add(id, M{"enum": lists[0], "not": M{"enum": lists[1]}}, left)
		case 4:
			add(id, M{"enum": lists[0], "anyOf": members[1:2]}, common(lists[0], lists[1]))
		}
	}
	// where enumerations are used
	for i := range cfg.Scale(300, 3000) {
		id := fmt.Sprintf("nested-%05d", i)
		g := newSG(subRng(cfg.Seed, "V05", id))
		e, c := g.Enum(), g.Const()
		cases = append(cases, SchemaCase{ID: id, N: 30, Schema: toJSON(M{"type": "object", "properties": M{"e": e, "c": c, "l": M{"type": "array", "items": e, "minItems": 2}, "t": M{"type": "array", "prefixItems": A{c, e}, "minItems": 2}}, "required": A{"e", "c", "l", "t"}})}.Case())
	}
	wideEnums(cfg, add)
	return cases
}

func contains(l A, v any) bool {
	for _, w := range l {
		if canon(w) == canon(v) {
			return true
		}
	}
	return false
}

func common(a, b A) A {
	out := A{}
	for _, v := range a {
		if contains(b, v) {
			out = append(out, v)
		}
	}
	return out
}

func uniq(l A) A {
	out := A{}
	for _, v := range l {
		if !contains(out, v) {
			out = append(out, v)
		}
	}
	return out
}

// canon is a canonical text of JSON data: numbers by value, keys sorted
func canon(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case string:
		return toJSON(x)
	case A:
		parts := make([]string, len(x))
		for i, e := range x {
			parts[i] = canon(e)
		}
		return "[" + strings.Join(parts, ",") + "]"
	case M:
		parts := []string{}
		for _, k := range keysOf(x) {
			parts = append(parts, toJSON(k)+":"+canon(x[k]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case float64:
		if math.IsInf(x, 0) || math.IsNaN(x) {
			return fmt.Sprint(x)
		}
		return new(big.Rat).SetFloat64(x).RatString()
	}
	if r := ratOf(v); r != nil {
		return r.RatString()
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

var _ = chaff.ParserOptions{}

func init() {
	register(Check{Prop: "V01", Rule: "a distinct number generated for one schema and option set, accepted by exact rational arithmetic and by the validator; unsatisfiable grids count once when reported", Cases: numberCases})
	register(Check{Prop: "V02", Rule: "a distinct string generated for one schema and option set, accepted by the length/pattern monitor and by the validator with formats asserted", Cases: stringCases})
	register(Check{Prop: "V05", Rule: "a distinct value generated for one enumeration or constant, equal to a listed value the other keywords allow", Cases: enumCases})
}
