package main

import (
	"fmt"
	"maps"

	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// small gives a schema with few values together with these values
func (g *SG) small() (M, A) {
	switch g.r.Intn(4) {
	case 0:
		lo := g.n(-5, 5)
		hi := lo + g.n(6, 14)
		vals := A{}
		for i := lo; i <= hi; i++ {
			vals = append(vals, i)
		}
		return M{"type": "integer", "minimum": lo, "maximum": hi}, vals
	case 1:
		return M{"type": "string", "pattern": "^[abc]{1,2}$"}, A{"a", "b", "c", "aa", "ab", "ac", "ba", "bb", "bc", "ca", "cb", "cc"}
	}
	vals := A{}
	all := A{1, 2, 3, 7, "x", "yy", "zzz", true, false, nil}
	for _, i := range g.r.Perm(len(all))[:g.n(4, 8)] {
		vals = append(vals, all[i])
	}
	return M{"enum": vals}, vals
}

// layeredNots are schemas with negations at several levels: of a property (item), and of what the property is in
func layeredNots(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(500, 10000) {
		id := fmt.Sprintf("layers-%05d", i)
		g := newSG(subRng(cfg.Seed, "V08", id))
		neg := func(vals A) M {
			return g.negatable(notUniverse{pool: vals}, 0)
		}
		leaf := func() (M, A) {
			s, vals := g.small()
			if g.p(70) {
				s["not"] = neg(vals)
			}
			return s, vals
		}
		// object makes an object, and negations of it
		var object func(depth int) (M, func() M, func() any)
		object = func(depth int) (M, func() M, func() any) {
			props, req := M{}, A{}
			type part struct {
				name string
				must bool
				neg  func() M
				draw func() any
			}
			parts := []part{}
			for _, k := range g.pickNames(g.n(1, 3)) {
				var s M
				var n func() M
				var draw func() any
				if depth > 0 && g.p(35) {
					s, n, draw = object(depth - 1)
				} else {
					var vals A
					s, vals = leaf()
					n = func() M { return neg(vals) }
					draw = func() any { return pick(g.r, vals...) }
				}
				p := part{k, g.p(75), n, draw}
				if p.must {
					req = append(req, k)
				}
				props[k] = s
				parts = append(parts, p)
			}
			o := M{"type": "object", "properties": props}
			if len(req) > 0 {
				o["required"] = req
			}
			if g.p(30) {
				o["additionalProperties"] = false
			}
			negation := func() M {
				p := parts[g.r.Intn(len(parts))]
				if !p.must && g.p(50) {
					return M{"required": A{p.name}}
				}
				n := M{"properties": M{p.name: p.neg()}}
				if !p.must || g.p(50) {
					n["required"] = A{p.name}
				}
				return n
			}
			if depth > 0 || g.p(40) {
				o["not"] = negation()
			}
			return o, negation, func() any {
				v := M{}
				for _, p := range parts {
					if p.must || g.p(50) {
						v[p.name] = p.draw()
					}
				}
				return v
			}
		}
		var s M
		for {
			build := func() (M, func() any) {
				var s M
				var draw func() any
				switch g.r.Intn(4) {
				case 0: // arrays
					items, vals := leaf()
					s = M{"type": "array", "minItems": g.n(1, 2), "maxItems": g.n(2, 4), "items": items}
					if g.p(70) {
						s["not"] = M{"items": neg(vals)}
					}
					draw = func() any {
						v := A{}
						for range g.n(int(s["minItems"].(int)), s["maxItems"].(int)) {
							v = append(v, pick(g.r, vals...))
						}
						return v
					}
				case 1: // names by pattern
					item, vals := leaf()
					s = M{"type": "object", "patternProperties": M{"^[a-d]$": item}, "minProperties": g.n(0, 2), "additionalProperties": false}
					s["not"] = M{"required": A{pick(g.r, "a", "b", "c", "d")}}
					if g.p(40) {
						s["not"] = M{"required": A{"a", "b"}}
					}
					draw = func() any {
						v := M{}
						for _, k := range []string{"a", "b", "c", "d"} {
							if g.p(50) {
								v[k] = pick(g.r, vals...)
							}
						}
						return v
					}
				default:
					var negation func() M
					s, negation, draw = object(g.n(0, 2))
					more := A{}
					for range g.n(0, 2) {
						more = append(more, M{"not": negation()})
					}
					if len(more) > 0 && g.p(50) && s["not"] == nil {
						maps.Copy(s, more[0].(M))
						more = more[1:]
					}
					if len(more) > 0 {
						s["allOf"] = more
						if g.p(25) {
							s = M{"allOf": append(A{s}, more...)}
							delete(s["allOf"].(A)[0].(M), "allOf")
						}
					}
				}
				return s, draw
			}
			var draw func() any
			s, draw = build()
			// At least one in twenty values that conform to everything but the negations has to be left
			oracle, err := compileOracle(toJSON(s), "", nil)
			if err != nil {
				panic("harness: " + err.Error())
			}
			left := 0
			for range 200 {
				v, _ := js.UnmarshalJSON(strReader(toJSON(draw())))
				if oracle.Validate(v) == nil {
					left++
				}
			}
			if left >= 10 {
				break
			}
		}
		// As written only: conditions and alternatives around negated properties are left to rejecting values
		sc := SchemaCase{Opts: notOpts(), ID: id, Schema: toJSON(s), N: 30, Expect: Any, SkipReported: true, Markers: true}
		cases = append(cases, Case{ID: id, Run: sc.run})
	}
	return cases
}
