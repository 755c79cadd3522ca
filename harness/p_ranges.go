package main

import (
	"fmt"
	"math"
	mrand "math/rand"
)

// interval limits a size or a whole number of steps; nil is open
type interval struct{ lo, hi *int }

func (i interval) has(n int) bool {
	return (i.lo == nil || n >= *i.lo) && (i.hi == nil || n <= *i.hi)
}

// remainder of [lo, hi] without the intervals: all of it, and the part that has to turn up:
// where an interval lies in the middle only what is below it is generated
func remainder(lo, hi int, without []interval) (all map[int]bool, must map[int]bool, split bool) {
	all, must = map[int]bool{}, map[int]bool{}
	for n := lo; n <= hi; n++ {
		keep := true
		for _, w := range without {
			keep = keep && !w.has(n)
		}
		if keep {
			all[n] = true
		}
	}
	for n := lo; n <= hi; n++ {
		if all[n] {
			must[n] = true
		} else if len(must) > 0 {
			break
		}
	}
	return all, must, len(must) < len(all)
}

// negatedRanges: what is left of a small range - of numbers, sizes or lengths - when parts of it are negated:
// all of it is generated and nothing else; nothing left is reported
func negatedRanges(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(420, 9000) {
		id := fmt.Sprintf("range-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		kind := []string{"integer", "integer", "number", "array", "object", "string", "any-array"}[i%7]
		lo := r.Intn(4)
		if kind == "integer" || kind == "number" {
			lo -= 3
		}
		hi := lo + r.Intn(7)
		// two negations have to cut from both ends, one after the other would otherwise be cut once more
		without := []interval{}
		a, b := lo-1+r.Intn(hi-lo+3), lo-1+r.Intn(hi-lo+3)
		if a > b {
			a, b = b, a
		}
		switch r.Intn(5) {
		case 0:
			without = append(without, interval{lo: &a})
		case 1:
			without = append(without, interval{hi: &b})
		case 2, 3:
			without = append(without, interval{lo: &a, hi: &b})
		case 4:
			a2, b2 := a, b+1
			without = append(without, interval{hi: &a2}, interval{lo: &b2})
		}
		if kind != "integer" && kind != "number" {
			for k := range without {
				if without[k].lo != nil && *without[k].lo < 0 {
					zero := 0
					without[k].lo = &zero
				}
				if without[k].hi != nil && *without[k].hi < 0 {
					zero := 0
					without[k].hi = &zero
				}
			}
		}
		all, must, _ := remainder(lo, hi, without)
		step := 1.0
		base := M{"type": kind}
		switch kind {
		case "integer":
			bounds(r, base, "minimum", "maximum", interval{&lo, &hi}, 1, true)
		case "number":
			step = pick(r, 0.5, 0.25, 2, 1, 3)
			base["multipleOf"] = step
			bounds(r, base, "minimum", "maximum", interval{&lo, &hi}, step, true)
		case "array", "any-array":
			base["type"] = "array"
			base["items"] = M{"const": 1}
			if kind == "any-array" {
				delete(base, "items")
			}
			bounds(r, base, "minItems", "maxItems", interval{&lo, &hi}, 1, false)
		case "object":
			base["additionalProperties"] = M{"const": 1}
			bounds(r, base, "minProperties", "maxProperties", interval{&lo, &hi}, 1, false)
		case "string":
			bounds(r, base, "minLength", "maxLength", interval{&lo, &hi}, 1, false)
		}
		nots, edges := A{}, map[int]bool{}
		for _, w := range without {
			n := M{}
			switch kind {
			case "integer", "number":
				bounds(r, n, "minimum", "maximum", w, step, true)
				// next to a negated exclusive bound of numbers it is rounding that decides over the bound itself
				if _, ok := n["exclusiveMinimum"]; ok && kind == "number" {
					edges[*w.lo-1] = true
				}
				if _, ok := n["exclusiveMaximum"]; ok && kind == "number" {
					edges[*w.hi+1] = true
				}
			case "array", "any-array":
				bounds(r, n, "minItems", "maxItems", w, 1, false)
			case "object":
				bounds(r, n, "minProperties", "maxProperties", w, 1, false)
			case "string":
				bounds(r, n, "minLength", "maxLength", w, 1, false)
			}
			nots = append(nots, M{"not": n})
		}
		s := M{}
		putAll(s, base)
		switch {
		case len(nots) == 1 && r.Intn(2) == 0:
			putAll(s, nots[0].(M))
		case r.Intn(2) == 0:
			s["allOf"] = nots
		default:
			s = M{"allOf": append(nots, base)}
		}
		if len(all) == 0 {
			cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 5, Opts: notOpts()[:1], Expect: Reported, Tolerate: onDefinition}.Case())
			continue
		}
		expect := Any
		for n := range all {
			if !edges[n] {
				expect = Clean
			}
		}
		for n := range edges {
			delete(must, n)
		}
		s, get := wrapped(r, s)
		got := map[int]bool{}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 40 * len(all), Expect: expect, SkipReported: expect == Any, Opts: []GenOpt{{Name: "default"}}, Tolerate: onDefinition, Monitor: func(v any, raw []byte) string {
			n, ok := rangeOf(get(v), step)
			if !ok || !all[n] {
				return fmt.Sprintf("%s is none of the %d of %d..%d that are left", raw, len(all), lo, hi)
			}
			got[n] = true
			return ""
		}, Final: func(t *T, _ map[string]int) {
			if kind == "string" {
				return // texts are as long as they may be
			}
			for n := range must {
				if !got[n] {
					t.Violate("unreachable", toJSON(s), fmt.Sprint(got), "%s: %d (of %d to %d, without what is negated) is never generated", kind, n, lo, hi)
					return
				}
			}
			t.Count("ranges negated exactly", 1)
		}}.Case())
	}
	// tuples without what is negated by position, whether or not the tuple itself names the position
	for i := range cfg.Scale(160, 3000) {
		id := fmt.Sprintf("position-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		size, named := 1+r.Intn(4), r.Intn(3)
		kinds := []int{}
		values := func() M {
			lo, k := r.Intn(5), r.Intn(4)
			kinds = append(kinds, k)
			return []M{{"type": "integer", "minimum": lo, "maximum": lo + 6}, {"enum": A{"a", "b", 1, 2, nil}}, {"type": "string", "maxLength": 4}, {"type": A{"boolean", "null", "integer"}, "minimum": 0, "maximum": 9}}[k]
		}
		cut := func(kind int) M { // leaves something of it
			switch kind {
			case 0:
				return pick(r, M{"minimum": 5 + r.Intn(3)}, M{"maximum": 4}, M{"const": 4}, M{"enum": A{"a", 6, 4, false}}, M{"type": "string"})
			case 1:
				return pick(r, M{"const": "a"}, M{"enum": A{"a", 1, 7}}, M{"type": pick(r, "null", "string", "integer")}, M{"const": nil})
			case 2:
				return pick(r, M{"const": "a"}, M{"enum": A{"a", 1, 7}}, M{"type": pick(r, "null", "boolean", "integer")}, M{"const": nil})
			case 3:
				return pick(r, M{"const": nil}, M{"enum": A{true, 7}}, M{"type": pick(r, "null", "boolean", "integer")}, M{"const": 5})
			}
			return pick(r, M{"const": nil}, M{"type": pick(r, "null", "boolean", "integer")})
		}
		s := M{"type": "array", "minItems": size, "maxItems": size + r.Intn(3)}
		if named > size {
			named = size
		}
		if named > 0 {
			prefix := A{}
			for range named {
				prefix = append(prefix, values())
			}
			s["prefixItems"] = prefix
		}
		if r.Intn(4) > 0 {
			s["items"] = values()
		} else {
			kinds = append(kinds, -1)
		}
		nots := A{}
		for k := range 1 + r.Intn(size) {
			nots = append(nots, cut(kinds[min(k, len(kinds)-1)]))
		}
		s["not"] = M{"prefixItems": nots}
		s, _ = wrapped(r, s)
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 30, Opts: notOpts()[:1], Tolerate: onDefinition}.Case())
	}
	// what says nothing next to what is negated
	for i := range cfg.Scale(80, 1500) {
		id := fmt.Sprintf("idle-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		s := pick(r, M{"type": "object", "additionalProperties": M{"const": 1}, "minProperties": 0, "maxProperties": 5}, M{"type": "array", "minItems": 1, "maxItems": 5}, M{"type": "integer", "minimum": 0, "maximum": 9}, M{"type": "string", "maxLength": 30})
		not := M{}
		switch s["type"] {
		case "object":
			not["minProperties"] = 2 + r.Intn(3)
		case "array":
			not["minItems"] = 2 + r.Intn(3)
		case "integer":
			not["minimum"] = 1 + r.Intn(8)
		case "string":
			not["maxLength"] = 1 + r.Intn(20)
		}
		idle := []M{{"dependentSchemas": M{}}, {"dependentRequired": M{}}, {"patternProperties": M{}}, {"properties": M{}}, {"required": A{}}, {"$defs": M{}}, {"definitions": M{"a": M{"const": 1}}}, {"title": "t"}, {"description": ""},
			{"unevaluatedProperties": true}, {"unevaluatedItems": true}, {"uniqueItems": false}, {"then": M{"minimum": 3, "minLength": 3}}, {"else": M{"const": 1}}, {"minContains": 2}, {"maxContains": 1}, {"$comment": "c"}, {"default": 5}, {"examples": A{1}}, {"deprecated": true}, {"x-unknown": M{"not": M{}}}}
		for range 1 + r.Intn(4) {
			putAll(not, idle[r.Intn(len(idle))])
		}
		s["not"] = not
		s, _ = wrapped(r, s)
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 20, Opts: notOpts()[:1], Tolerate: onDefinition}.Case())
	}
	for i, f := range []string{"no-such-format", "EMAIL", "", "date time"} {
		for k, s := range []M{{"type": "string", "not": M{"format": f}}, {"type": A{"string", "integer"}, "not": M{"format": f}}, {"enum": A{"a", "b"}, "not": M{"format": f}}, {"type": "string", "allOf": A{M{"not": M{"format": f}}, M{"not": M{"format": "email"}}}}} {
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("unknown-format-%d-%d", i, k), Schema: toJSON(s), N: 5, Opts: notOpts()[:1], Expect: Reported, Tolerate: onDefinition}.Case())
		}
	}
	// multiples without the multiples of something else
	for i := range cfg.Scale(120, 2500) {
		id := fmt.Sprintf("multiple-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		lo := r.Intn(30) - 20
		hi := lo + 4 + r.Intn(26)
		of, not := 1+r.Intn(3), 2+r.Intn(5)
		left := map[int]bool{}
		for n := lo; n <= hi; n++ {
			if n%of == 0 && n%not != 0 {
				left[n] = true
			}
		}
		s := M{"type": "integer", "minimum": lo, "maximum": hi, "not": M{"multipleOf": not}}
		if of > 1 {
			s["multipleOf"] = of
		}
		if r.Intn(3) == 0 {
			s["not"].(M)["type"] = "integer"
		}
		if len(left) == 0 {
			continue // either reported or nothing: see the reports of contradictions
		}
		s, get := wrapped(r, s)
		got := map[int]bool{}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 30 * len(left), Opts: []GenOpt{{Name: "default"}}, Tolerate: onDefinition, Monitor: func(v any, raw []byte) string {
			n, ok := rangeOf(get(v), 1)
			if !ok || !left[n] {
				return fmt.Sprintf("%s is none of the %d that are left", raw, len(left))
			}
			got[n] = true
			return ""
		}, Final: func(t *T, _ map[string]int) {
			for n := range left {
				if !got[n] {
					t.Violate("unreachable", toJSON(s), fmt.Sprint(got), "%d is left but never generated", n)
					return
				}
			}
			t.Count("multiples negated exactly", 1)
		}}.Case())
	}
	return cases
}

// bounds writes an interval (in steps) in one of the ways there are
func bounds(r *mrand.Rand, s M, lower, upper string, i interval, step float64, exclusive bool) {
	write := func(n int, d float64) any {
		f := float64(n)*step + d
		if f == float64(int(f)) {
			return int(f)
		}
		return dec(f)
	}
	if i.lo != nil {
		if exclusive && r.Intn(3) == 0 {
			s["exclusiveMinimum"] = write(*i.lo-1, 0)
		} else {
			s[lower] = write(*i.lo, 0)
		}
	}
	if i.hi != nil {
		if exclusive && r.Intn(3) == 0 {
			s["exclusiveMaximum"] = write(*i.hi+1, 0)
		} else {
			s[upper] = write(*i.hi, 0)
		}
	}
}

// rangeOf is the size of a value, or its number of steps
func rangeOf(v any, step float64) (int, bool) {
	switch x := v.(type) {
	case string:
		return len([]rune(x)), true
	case A:
		return len(x), true
	case M:
		return len(x), true
	}
	var f float64
	if _, err := fmt.Sscan(fmt.Sprint(v), &f); err != nil {
		return 0, false
	}
	n := int(math.Round(f / step))
	return n, float64(n)*step == f
}
