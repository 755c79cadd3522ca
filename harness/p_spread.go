package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
)

// spreadCases check that the values of formats and ranges are not confined to a corner: each part of a value that may vary
// takes a number of values that a fair choice falls short of less than once in 10^12 runs
func spreadCases() []Case {
	cases := []Case{}
	h := "([0-9a-f])"
	text := []struct {
		name   string
		s      M
		whole  int
		parts  string
		counts []int
	}{
		{"date", M{"format": "date"}, 60, `^(\d{4})-(\d\d)-(\d\d)$`, []int{6, 6, 10}},
		{"time", M{"format": "time"}, 60, `^(\d\d):(\d\d):(\d\d)`, []int{8, 15, 15}},
		{"date-time", M{"format": "date-time"}, 60, `^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)`, []int{6, 6, 10, 8, 15, 15}},
		{"duration", M{"format": "duration"}, 15, ``, nil},
		{"uuid", M{"format": "uuid"}, 290, `^` + h + h + h + `.*` + h + h + h + h + `$`, []int{6, 6, 6, 6, 6, 6, 6}},
		{"ipv4", M{"format": "ipv4"}, 200, `^(\d+)\.(\d+)\.(\d+)\.(\d+)$`, []int{40, 40, 40, 40}},
		{"ipv6", M{"format": "ipv6"}, 200, `^([0-9a-f]+):([0-9a-f]+):.*:([0-9a-f]+)$`, []int{60, 60, 60}},
		{"email", M{"format": "email"}, 200, `^(.+)@([^.]+)\.`, []int{100, 100}},
		{"hostname", M{"format": "hostname"}, 200, ``, nil},
		{"uri", M{"format": "uri"}, 150, ``, nil},
		{"text", M{}, 100, ``, nil},
		{"short", M{"maxLength": 6}, 30, ``, nil},
		{"pattern", M{"pattern": "^[a-z]{4}-[0-9]{4}$"}, 250, `^(.)(.)(.)(.)-(.)(.)(.)(.)$`, []int{12, 12, 12, 12, 6, 6, 6, 6}},
	}
	ranges := []struct {
		s      M
		lo, hi float64
	}{
		{M{"type": "number", "minimum": 0, "maximum": 10}, 0, 10}, {M{"type": "number", "minimum": -1000000, "maximum": 1000000}, -1e6, 1e6}, {M{"type": "integer", "minimum": 1, "maximum": 1000}, 1, 1000}, {M{"type": "integer", "minimum": -50, "maximum": 50}, -50, 50},
		{M{"type": "number", "exclusiveMinimum": 2, "exclusiveMaximum": 3}, 2, 3}, {M{"type": "integer", "exclusiveMinimum": 100, "exclusiveMaximum": 300}, 100, 300}, {M{"type": "integer", "minimum": 0, "maximum": 700, "multipleOf": 7}, 0, 700}, {M{"type": "number", "minimum": 0, "maximum": 50, "multipleOf": 0.5}, 0, 50},
		{M{"type": "integer", "minimum": 1000000000, "maximum": 9000000000}, 1e9, 9e9},
	}
	const n = 300
	for where := range 4 {
		at := func(s M) (M, func(v any) any) {
			switch where {
			case 1:
				return M{"type": "object", "properties": M{"v": s}, "required": A{"v"}}, func(v any) any { return v.(map[string]any)["v"] }
			case 2:
				return M{"type": "array", "items": s, "minItems": 1, "maxItems": 1}, func(v any) any { return v.([]any)[0] }
			case 3:
				return M{"allOf": A{s, M{"description": "x"}}}, func(v any) any { return v }
			}
			return s, func(v any) any { return v }
		}
		for _, f := range text {
			s := M{"type": "string"}
			for k, v := range f.s {
				s[k] = v
			}
			schema, pick := at(s)
			var parts *regexp.Regexp
			if f.parts != "" {
				parts = regexp.MustCompile(f.parts)
			}
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("spread-%s-%d", f.name, where), Schema: toJSON(schema), N: n, Opts: stdOpts()[:1], Final: func(t *T, seen map[string]int) {
				whole, of := map[string]bool{}, make([]map[string]bool, len(f.counts))
				for raw := range seen {
					var v any
					_ = json.Unmarshal([]byte(raw), &v)
					x, _ := pick(v).(string)
					whole[x] = true
					if parts == nil {
						continue
					}
					m := parts.FindStringSubmatch(x)
					if m == nil {
						continue
					}
					for i := range of {
						if of[i] == nil {
							of[i] = map[string]bool{}
						}
						of[i][m[i+1]] = true
					}
				}
				if len(whole) < f.whole {
					t.Violate("confined", toJSON(schema), fmt.Sprint(len(whole)), "only %d different values in %d", len(whole), n)
				}
				for i, c := range f.counts {
					if len(of[i]) < c {
						t.Violate("confined", toJSON(schema), fmt.Sprint(of[i]), "part %d (%s) takes only %d values in %d", i, f.parts, len(of[i]), n)
					}
				}
			}}.Case())
		}
		for k, f := range ranges {
			schema, pick := at(f.s)
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("spread-range-%d-%d", k, where), Schema: toJSON(schema), N: n, Opts: stdOpts()[:1], Final: func(t *T, seen map[string]int) {
				slots := make([]int, 6)
				for raw := range seen {
					var v any
					_ = json.Unmarshal([]byte(raw), &v)
					x, err := strconv.ParseFloat(fmt.Sprint(pick(v)), 64)
					if err == nil {
						slots[min(5, max(0, int((x-f.lo)/(f.hi-f.lo)*6)))]++
					}
				}
				for i, c := range slots {
					if c == 0 {
						t.Violate("confined", toJSON(schema), fmt.Sprint(slots), "no value in part %d of 6 of the range in %d values", i, n)
					}
				}
			}}.Case())
		}
	}
	return cases
}
