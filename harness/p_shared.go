package main

import "fmt"

// sharedParts are combinations whose members all say something about the same pattern properties, contained items, tuple
// positions or additional properties, every one of them something else
func sharedParts(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(400, 6000) {
		id := fmt.Sprintf("shared-%05d", i)
		r := subRng(cfg.Seed, "V07", id)
		lo, hi := r.Intn(20), 40+r.Intn(20)
		// parts accept lo..hi (or a part of it that has 30 in it)
		part := func() M {
			return []M{
				{"minimum": lo}, {"maximum": hi}, {"type": "integer"}, {"type": A{"integer", "string"}}, {"minimum": 20 + r.Intn(11)}, {"maximum": 30 + r.Intn(9)}, {"exclusiveMinimum": 29 - r.Intn(9)}, {"exclusiveMaximum": 31 + r.Intn(9)},
				{"multipleOf": 5}, {"multipleOf": 3}, {"enum": A{30, 15, 45, 3, "x"}}, {"type": "number"},
			}[r.Intn(12)]
		}
		kind := r.Intn(5)
		wrap := func(k int) M {
			p := part()
			m := M{}
			switch kind {
			case 0: // the same patterns
				m["patternProperties"] = M{"^k_[0-9]$": p, "^o[ab]$": part()}
				if r.Intn(2) == 0 {
					m["required"] = A{fmt.Sprint("k_", r.Intn(4))}
				}
				if r.Intn(3) == 0 {
					m["minProperties"] = 1 + r.Intn(3)
				}
			case 1: // contained items
				m["contains"] = p
				if r.Intn(2) == 0 {
					m["minContains"] = 1 + r.Intn(4)
				}
				if r.Intn(3) == 0 {
					m["minItems"] = r.Intn(5)
				}
			case 2: // tuples
				pre := A{}
				for range 1 + r.Intn(3) {
					pre = append(pre, part())
				}
				m["prefixItems"] = pre
				if r.Intn(3) == 0 {
					m["items"] = part()
				}
				if r.Intn(3) == 0 {
					m["minItems"] = r.Intn(4)
				}
			case 3: // additional properties
				m["additionalProperties"] = p
				if r.Intn(2) == 0 {
					m["properties"] = M{pick(r, "a", "b", "c"): part()}
				}
				if r.Intn(2) == 0 {
					m["required"] = A{pick(r, "a", "b", "d")}
				}
				if r.Intn(3) == 0 {
					m["minProperties"] = 1 + r.Intn(4)
				}
			case 4: // items
				m["items"] = p
				if r.Intn(2) == 0 {
					m["minItems"] = r.Intn(4)
				}
			}
			return m
		}
		frags := []M{{"type": []string{"object", "array", "array", "object", "array"}[kind]}}
		for k := range 2 + r.Intn(3) {
			frags = append(frags, wrap(k))
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(combine(r, r.Intn(6), frags...)), N: 12}.Case())
	}
	// what can not be combined is reported, or else the values conform
	pats := []string{"^[a-f]+$", "^[d-k]+$", "^.{3,5}$", "^de*f$", "x", "^d"}
	formats := []string{"uuid", "ipv4", "ipv6", "email", "date", "date-time", "time", "hostname", "uri", "duration"}
	n := 0
	put := func(a, b M) {
		n++
		r := subRng(cfg.Seed, "V07", "either", fmt.Sprint(n))
		s := combine(r, n%6, a, b)
		defs := s["$defs"]
		delete(s, "$defs")
		switch r.Intn(3) {
		case 0:
			s = M{"type": "object", "properties": M{"p": s}, "required": A{"p"}}
		case 1:
			s = M{"type": "array", "items": s, "minItems": 2}
		}
		if defs != nil {
			s["$defs"] = defs
		}
		cases = append(cases, SchemaCase{ID: fmt.Sprintf("either-%03d", n), Schema: toJSON(s), N: 12, Expect: Any, SkipReported: true}.Case())
	}
	str := func(k, v string) M { return M{"type": "string", k: v} }
	for i, p := range pats {
		for _, q := range pats[i+1:] {
			put(str("pattern", p), str("pattern", q))
			put(str("pattern", q), M{"pattern": p})
		}
		put(str("pattern", p), str("format", formats[i]))
		put(str("pattern", p), M{"minLength": 30})
		put(M{"maxLength": 2}, str("pattern", p))
	}
	for i, f := range formats {
		for _, h := range formats[i+1:] {
			put(str("format", f), M{"format": h})
		}
		put(str("format", f), M{"maxLength": 3})
		put(M{"minLength": 80}, str("format", f))
	}
	return cases
}
