package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ryanolee/go-chaff"
)

// Families with many of everything: what a keyword promises does not stop at some number of entries

// wideObjects: many required properties, many fillers, many patterns, many of them at once
func wideObjects(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(40, 600) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V03", id)
		n := []int{9, 17, 25, 33, 40, 65, 80, 101, 130, 160}[r.Intn(10)] + r.Intn(5)
		s := M{"type": "object"}
		leaf := func(k int) M {
			switch r.Intn(3) {
			case 0:
				return M{"const": k}
			case 1:
				return M{"type": "integer", "minimum": k, "maximum": k + 3}
			}
			return M{"type": "boolean"}
		}
		switch i % 5 {
		case 0: // many required
			p, req := M{}, A{}
			for k := range n {
				p[fmt.Sprintf("p%d", k)] = leaf(k)
				req = append(req, fmt.Sprintf("p%d", k))
			}
			r.Shuffle(len(req), func(a, b int) { req[a], req[b] = req[b], req[a] })
			s["properties"], s["required"] = p, req
			if r.Intn(2) == 0 {
				s["additionalProperties"] = false
			}
		case 1: // many fillers
			s["minProperties"], s["maxProperties"] = n, n+r.Intn(3)
			if r.Intn(2) == 0 {
				s["additionalProperties"] = M{"type": "integer"}
			}
		case 2: // all optional properties are demanded by their number
			p := M{}
			for k := range n {
				p[fmt.Sprintf("p%d", k)] = leaf(k)
			}
			s["properties"], s["minProperties"], s["additionalProperties"] = p, n-r.Intn(2), false
		case 3: // required names nobody declared
			req := A{}
			for k := range n {
				req = append(req, fmt.Sprintf("u%d", k))
			}
			s["required"], s["additionalProperties"] = req, M{"type": "integer", "minimum": 4}
		case 4: // properties of many patterns
			p := M{}
			few := 4 + r.Intn(16)
			for k := range few {
				p[fmt.Sprintf("^k%d_[a-f]{6}$", k)] = M{"const": k}
			}
			s["patternProperties"], s["minProperties"], s["additionalProperties"] = p, few+r.Intn(20), false
		}
		sc := SchemaCase{ID: id, Schema: toJSON(s), N: 6, Monitor: objectMonitor(s), Opts: []GenOpt{cliOpts()}}
		if n < 90 { // past CutoffGenerationSteps properties are null
			sc.Opts = append(sc.Opts, GenOpt{Name: "default"})
		}
		if pp, ok := s["patternProperties"].(M); ok {
			sc.N = 60
			sc.Final = appears(sc.Schema, func(raw string) []string {
				out := []string{}
				for p := range pp {
					k, _, _ := strings.Cut(p[1:], "_")
					if strings.Contains(raw, `"`+k+"_") {
						out = append(out, p)
					}
				}
				return out
			}, len(pp))
		}
		cases = append(cases, sc.Case())
	}
	return cases
}

// appears: every one of the n things a text can show has shown up
func appears(schema string, show func(raw string) []string, n int) func(t *T, seen map[string]int) {
	return func(t *T, seen map[string]int) {
		found := map[string]bool{}
		for raw := range seen {
			for _, x := range show(raw) {
				found[x] = true
			}
		}
		if len(found) < n {
			l := []string{}
			for x := range found {
				l = append(l, x)
			}
			sort.Strings(l)
			t.Violate("unreachable", schema, strings.Join(l, " "), "only %d of %d possibilities appear in %d distinct values", len(found), n, len(seen))
		}
	}
}

// wideArrays: many items, many tuple items, many contained items, many distinct items
func wideArrays(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(40, 600) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V04", id)
		s := M{"type": "array"}
		n := 0
		switch i % 5 {
		case 0:
			n = []int{90, 130, 205, 260, 330, 520}[r.Intn(6)] + r.Intn(7)
			s["items"], s["minItems"] = M{"type": "integer", "minimum": 1, "maximum": 9}, n
			if r.Intn(2) == 0 {
				s["maxItems"] = n + r.Intn(3)
			}
		case 1:
			n = 9 + r.Intn(40)
			l := A{}
			for k := range n {
				l = append(l, M{"const": fmt.Sprintf("item %d", k)})
			}
			s["prefixItems"], s["minItems"] = l, n
			if r.Intn(2) == 0 {
				s["items"] = false
			} else {
				s["items"] = M{"type": "null"}
			}
		case 2:
			n = 5 + r.Intn(60)
			s["contains"], s["minContains"] = M{"const": "c"}, n
			if r.Intn(2) == 0 {
				s["items"] = M{"type": "string"}
			}
		case 3:
			n = []int{20, 34, 48, 66, 100, 130}[r.Intn(6)] + r.Intn(5)
			s["items"], s["minItems"], s["uniqueItems"] = M{"type": "integer", "minimum": 1, "maximum": 3 * n}, n, true
		case 4:
			n = 20 + r.Intn(100)
			s["items"] = M{"type": "object", "properties": M{"a": M{"type": "integer", "minimum": 1, "maximum": 5}}, "required": A{"a"}, "additionalProperties": false}
			s["minItems"], s["maxItems"] = n, n
		}
		opts := []GenOpt{cliOpts()}
		if n < 90 { // past CutoffGenerationSteps items are null
			opts = append(opts, GenOpt{Name: "default"})
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 5, Monitor: arrayMonitor(s), Opts: opts}.Case())
	}
	return cases
}

// wideAllOf: every one of many branches counts
func wideAllOf(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(40, 600) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V07", id)
		n := 5 + r.Intn(36)
		all := A{}
		s := M{}
		switch i % 4 {
		case 0: // each adds a property
			s["type"] = "object"
			for k := range n {
				p := fmt.Sprintf("p%d", k)
				all = append(all, M{"properties": M{p: M{"const": k}}, "required": A{p}})
			}
		case 1: // one bound of many is the tightest
			s["type"] = "integer"
			for range n {
				all = append(all, M{"minimum": r.Intn(900), "maximum": 1000 + r.Intn(900)})
			}
		case 2: // each removes one value from a list
			s["type"] = "integer"
			full := A{}
			for k := range n + 3 {
				full = append(full, k)
			}
			for k := range n {
				all = append(all, M{"enum": append(append(A{}, full[:k]...), full[k+1:]...)})
			}
		case 3: // spread over references
			defs := M{}
			s["type"] = "object"
			for k := range n {
				p := fmt.Sprintf("p%d", k)
				defs[p] = M{"properties": M{p: M{"const": k}}, "required": A{p}}
				all = append(all, M{"$ref": "#/$defs/" + p})
			}
			s["$defs"] = defs
		}
		r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		s["allOf"] = all
		cases = append(cases, schemaCase(id, s, 8))
	}
	return cases
}

// wideNots: every one of many negations counts
func wideNots(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(40, 600) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V08", id)
		n := 3 + r.Intn(12)
		all := A{}
		s := M{}
		switch i % 4 {
		case 0: // single values
			s["type"], s["minimum"], s["maximum"] = "integer", 0, n+3
			for k := range n {
				all = append(all, M{"not": M{"const": k}})
			}
		case 1:
			s["type"], s["minLength"], s["maxLength"] = "string", 1, 30
			for range n {
				all = append(all, M{"not": M{"minLength": 4 + r.Intn(8)}})
			}
		case 2: // names
			s["type"], s["minProperties"] = "object", 1
			for k := range n {
				p := fmt.Sprintf("p%d", k)
				all = append(all, M{"not": M{"required": A{p}}})
			}
			p := M{}
			for k := range n + 2 {
				p[fmt.Sprintf("p%d", k)] = M{"type": "null"}
			}
			s["properties"], s["additionalProperties"] = p, false
		case 3:
			full := A{}
			for k := range n + 4 {
				full = append(full, fmt.Sprintf("v%d", k))
			}
			s["enum"] = full
			for k := range n {
				all = append(all, M{"not": M{"const": full[k]}})
			}
		}
		r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		s["allOf"] = all
		cases = append(cases, schemaCase(id, s, 40))
	}
	return cases
}

// wideIfs: every one of many conditions counts
func wideIfs(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(30, 400) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V09", id)
		n := 3 + r.Intn(10)
		all := A{}
		s := M{}
		switch i % 3 {
		case 0: // one of the ranges holds
			s["type"], s["minimum"], s["maximum"] = "integer", 0, 10*n-1
			for k := range n {
				all = append(all, M{"if": M{"minimum": 10 * k, "maximum": 10*k + 9}, "then": M{"maximum": 10*k + 6}})
			}
		case 1: // a switch: one value decides
			s["type"] = "object"
			kinds := A{}
			for k := range n {
				kind := fmt.Sprintf("k%d", k)
				kinds = append(kinds, kind)
				all = append(all, M{"if": M{"properties": M{"kind": M{"const": kind}}, "required": A{"kind"}}, "then": M{"properties": M{"payload": M{"const": k}}, "required": A{"payload"}}})
			}
			s["properties"], s["required"] = M{"kind": M{"enum": kinds}}, A{"kind"}
		case 2: // all hold
			s["type"] = "object"
			s["properties"], s["required"] = M{"kind": M{"const": "x"}}, A{"kind"}
			for k := range n {
				p := fmt.Sprintf("q%d", k)
				all = append(all, M{"if": M{"properties": M{"kind": M{"const": "x"}}}, "then": M{"properties": M{p: M{"const": k}}, "required": A{p}}})
			}
		}
		s["allOf"] = all
		cases = append(cases, schemaCase(id, s, 60))
	}
	return cases
}

// wideEnums: every one of many listed values is checked against the other keywords and every one left appears
func wideEnums(cfg Cfg, add func(id string, schema M, allowed A)) {
	for i := range cfg.Scale(12, 200) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V05", id)
		n := 20 + r.Intn(110)
		all, allowed := A{}, A{}
		s := M{}
		bound := r.Intn(n)
		for k := range n {
			switch i % 3 {
			case 0:
				all = append(all, k)
				if k >= bound {
					allowed = append(allowed, k)
				}
			case 1:
				v := strings.Repeat("a", k)
				all = append(all, v)
				if k >= bound {
					allowed = append(allowed, v)
				}
			case 2:
				v := A{k}
				if k%3 == 0 {
					v = A{k, k}
				} else {
					allowed = append(allowed, v)
				}
				all = append(all, v)
			}
		}
		switch i % 3 {
		case 0:
			s["minimum"] = bound
		case 1:
			s["minLength"] = bound
		case 2:
			s["maxItems"] = 1
		}
		r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		s["enum"] = all
		add(id, s, allowed)
	}
}

// wideChoices: every one of many alternatives, types, optional properties appears
func wideChoices(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(16, 200) {
		id := fmt.Sprintf("wide-%05d", i)
		r := subRng(cfg.Seed, "V22", id)
		n := 8 + r.Intn(50)
		s := M{}
		show := func(raw string) []string { return []string{raw} }
		want := n
		switch i % 4 {
		case 0:
			p := M{}
			for k := range n {
				p[fmt.Sprintf("p%d", k)] = M{"const": k}
			}
			s["type"], s["properties"], s["additionalProperties"] = "object", p, false
			show = func(raw string) []string {
				out := []string{}
				for k := range n {
					if strings.Contains(raw, fmt.Sprintf(`"p%d":`, k)) {
						out = append(out, fmt.Sprint(k))
					}
				}
				return out
			}
		case 1, 2:
			l := A{}
			for k := range n {
				l = append(l, M{"const": k})
			}
			s[[]string{"oneOf", "anyOf"}[i%4-1]] = l
		case 3:
			l := A{}
			for k := range n {
				l = append(l, k)
			}
			s["type"], s["enum"] = "integer", l
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 40 * n, Opts: []GenOpt{cliOpts()}, Final: appears(toJSON(s), show, want)}.Case())
	}
	return cases
}

// wideFaults: every one of many faults is reported where it is
func wideFaults(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(60, 800) {
		id := fmt.Sprintf("wide-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			n := 3 + r.Intn(60)
			simple := []M{
				{"type": "integer", "minimum": 3, "maximum": 1}, {"type": "string", "minLength": 3, "maxLength": 1}, {"type": "array", "minItems": 3, "maxItems": 1},
				{"type": "object", "minProperties": 3, "maxProperties": 1}, {"type": "string", "pattern": "("}, {"$ref": "#/$defs/missing"}, {"type": "string", "const": 1},
			}
			p, ptrs := M{}, []string{}
			for k := range n {
				name := fmt.Sprintf("p%d", k)
				if r.Intn(4) == 0 {
					p[name] = M{"type": "string"}
					continue
				}
				p[name] = clone(simple[r.Intn(len(simple))])
				ptrs = append(ptrs, "/properties/"+name)
			}
			s := M{"type": "object", "properties": p}
			if i%3 == 2 { // far down, with more after it
				for d := range 3 + r.Intn(6) {
					name := pick(r, "x", "a long name that makes for a long location", fmt.Sprintf("level %d", d))
					outer := M{name: s, "0": clone(simple[r.Intn(len(simple))]), "zz": clone(simple[r.Intn(len(simple))])}
					for k := range ptrs {
						ptrs[k] = "/properties/" + name + ptrs[k]
					}
					ptrs = append(ptrs, "/properties/0", "/properties/zz")
					s = M{"type": "object", "properties": outer}
				}
			}
			if i%3 == 1 {
				s = M{"type": "array", "items": s}
				for k := range ptrs {
					ptrs[k] = "/items" + ptrs[k]
				}
			}
			text := toJSON(s)
			g, err := chaff.ParseSchemaStringWithDefaults(text)
			at := map[string]bool{}
			for _, l := range reportedAt(g) {
				for _, x := range l {
					x = location(x)
					for _, ptr := range ptrs {
						if x == ptr || strings.HasPrefix(x, ptr+"/") {
							at[ptr] = true
							x = ""
							break
						}
					}
					if x != "" {
						t.Violate("elsewhere", text, "", "reported at %q, where nothing is wrong", x)
						return
					}
				}
			}
			for _, ptr := range ptrs {
				t.Event("faults", text+ptr)
				if !at[ptr] {
					t.Violate("unreported", text, "", "of %d faults the one at %q is not reported (%d are): %v", len(ptrs), ptr, len(at), err)
					return
				}
			}
		}})
	}
	return cases
}

// mergedTypes: of several lists of types exactly the types in all of them are left
func mergedTypes(cfg Cfg) []Case {
	cases := []Case{}
	all := []string{"string", "integer", "boolean", "null", "array", "object", "number"}
	for i := range cfg.Scale(60, 800) {
		id := fmt.Sprintf("merged-%05d", i)
		r := subRng(cfg.Seed, "V10", id)
		common := map[string]bool{}
		for _, k := range r.Perm(len(all))[:1+r.Intn(len(all))] {
			common[all[k]] = true
		}
		if common["number"] && r.Intn(2) == 0 {
			delete(common, "integer") // part of the numbers
		}
		list := func() A {
			l := A{}
			for x := range common {
				l = append(l, x)
			}
			sort.Slice(l, func(a, b int) bool { return l[a].(string) < l[b].(string) })
			r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			return l
		}
		lists := []A{list(), list()}
		if r.Intn(3) == 0 {
			lists = append(lists, list())
		}
		// what is in one list only is left out; numbers and integers have to do with each other
		for _, x := range all[:6] {
			if !common[x] && x != "integer" {
				if k := r.Intn(len(lists) + 1); k < len(lists) {
					at := r.Intn(len(lists[k]) + 1)
					lists[k] = append(lists[k][:at:at], append(A{x}, lists[k][at:]...)...)
				}
			}
		}
		members := A{}
		for _, l := range lists {
			members = append(members, M{"type": l})
		}
		s := M{"allOf": members}
		if r.Intn(2) == 0 {
			s = M{"type": lists[0], "allOf": members[1:]}
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 180, Final: appears(toJSON(s), func(raw string) []string {
			ty := jsonTypeOfRaw(raw)
			if ty == "integer" && !common["integer"] {
				ty = "number"
			}
			return []string{ty}
		}, len(common))}.Case())
	}
	return cases
}

// longRepeats: words of counted repetitions up to the thousand that expressions allow
func longRepeats(cfg Cfg, language func(id, pattern string, words []string, opts string, n int)) {
	for i := range cfg.Scale(24, 300) {
		id := fmt.Sprintf("long-%04d", i)
		r := subRng(cfg.Seed, "V19", id)
		lo := []int{17, 33, 64, 100, 129, 200, 256, 300, 500, 900}[r.Intn(10)] + r.Intn(40)
		hi := lo + r.Intn(4)
		unit := pick(r, "a", "é", "ab", "xyz")
		body := unit
		if len([]rune(unit)) > 1 {
			body = "(" + unit + ")"
			if r.Intn(2) == 0 {
				body = "(?:" + unit + ")"
			}
		}
		words := []string{}
		pattern := fmt.Sprintf("%s{%d,%d}", body, lo, hi)
		if lo == hi {
			pattern = fmt.Sprintf("%s{%d}", body, lo)
		}
		for n := lo; n <= hi; n++ {
			words = append(words, strings.Repeat(unit, n))
		}
		if r.Intn(3) == 0 { // a long literal
			lit := strings.Repeat(pick(r, "k", "lm", "ñ"), 50+r.Intn(900))
			pattern += lit
			for k := range words {
				words[k] += lit
			}
		}
		if r.Intn(2) == 0 {
			pattern = "^" + pattern + "$"
		} else {
			pattern = "^(" + pattern + ")$"
		}
		language(id, pattern, words, "", 60*len(words))
	}
	// many alternatives
	for i := range cfg.Scale(8, 80) {
		id := fmt.Sprintf("many-%04d", i)
		r := subRng(cfg.Seed, "V19", id)
		n := 10 + r.Intn(70)
		words := []string{}
		for k := range n {
			words = append(words, fmt.Sprintf("%c%d%s", rune('a'+k%26), k, strings.Repeat("z", r.Intn(3))))
		}
		language(id, "^("+strings.Join(words, "|")+")$", words, "", 40*n)
	}
}

// deepPointers: references that lead through many steps
func deepPointers(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(60, 600) {
		id := fmt.Sprintf("deep-pointer-%05d", i)
		r := subRng(cfg.Seed, "V11", id)
		steps := 3 + r.Intn(22)
		target := M{"const": "right"}
		if r.Intn(3) == 0 {
			target["$id"] = "https://deep.test/target.json"
		}
		node := target
		ptr := ""
		for k := range steps {
			wrong := M{"const": fmt.Sprintf("wrong %d", k)}
			name := pick(r, "a", "b", fmt.Sprintf("n%d", k), strings.Repeat("long", 12))
			switch r.Intn(5) {
			case 0, 1:
				node, ptr = M{"type": "object", "properties": M{name: node, "other": wrong}}, "/properties/"+name+ptr
			case 2:
				node, ptr = M{"type": "object", "$defs": M{name: node, "other": wrong}}, "/$defs/"+name+ptr
			case 3:
				node, ptr = M{"type": "array", "items": node}, "/items"+ptr
			case 4:
				at := r.Intn(2)
				l := A{wrong, wrong}
				l[at] = node
				node, ptr = M{"type": "array", "prefixItems": l}, fmt.Sprintf("/prefixItems/%d%s", at, ptr)
			}
		}
		ref := "#/$defs/start" + ptr
		// what follows after a long way down is found as well
		after := M{"type": "object", "properties": M{"a": M{"properties": M{"b": M{"const": "after"}}}}}
		if target["$id"] != nil {
			ref = "https://deep.test/target.json"
		}
		s := M{"$defs": M{"start": node}, "type": "object", "properties": M{"v": M{"$ref": ref}, "w": M{"$ref": "#/$defs/zafter/properties/a/properties/b"}}, "required": A{"v", "w"}, "additionalProperties": false}
		s["$defs"].(M)["zafter"] = after
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 3, Monitor: func(v any, raw []byte) string {
			if string(raw) != `{"v":"right","w":"after"}` {
				return clip(string(raw), 200) + " is not what the reference leads to"
			}
			return ""
		}}.Case())
	}
	return cases
}

// manyDocuments: a document that refers to many others, servers that redirect several times, large documents
func manyDocuments(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(24, 300) {
		id := fmt.Sprintf("many-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			n := 5 + r.Intn(40)
			dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
			defer os.RemoveAll(dir)
			srv := newDocServer(map[string]string{})
			defer srv.Close()
			base, opts := "file://"+dir, fsOptions(dir)
			web := i%2 == 1
			if web {
				base, opts = srv.URL, httpOptions()
			}
			docs := map[string]M{}
			texts := map[string]string{}
			p, req := M{}, A{}
			hops := map[string]string{}
			for k := range n {
				name := fmt.Sprintf("d%d.json", k)
				d := M{"const": fmt.Sprintf("document %d", k)}
				switch r.Intn(5) {
				case 0:
					d["description"] = strings.Repeat("long text ", 1+r.Intn(20000))
				case 1:
					d = M{"$ref": name + "#/$defs/x", "$defs": M{"x": d}}
				case 2:
					d = M{"allOf": A{d, M{"$ref": fmt.Sprintf("t%d.json", k)}}}
					docs[fmt.Sprintf("t%d.json", k)] = M{"type": "string"}
				}
				docs[name] = d
				ref := name
				if web && r.Intn(4) == 0 { // a relative reference in the document is resolved against what was asked for or what was got: none here
					docs[name] = M{"const": fmt.Sprintf("document %d", k)}
					from := name
					for h := range 1 + r.Intn(5) {
						via := fmt.Sprintf("hop%d-%d", h, k)
						hops["/"+via] = "/" + from
						from = via
					}
					ref = from
					texts[base+"/"+from] = toJSON(docs[name])
				}
				p[fmt.Sprintf("p%d", k)] = M{"$ref": ref}
				req = append(req, fmt.Sprintf("p%d", k))
			}
			root := M{"type": "object", "properties": p, "required": req, "additionalProperties": false}
			docs["root.json"] = root
			for name, d := range docs {
				if name != "root.json" {
					texts[base+"/"+name] = toJSON(d)
				}
				srv.docs["/"+name] = toJSON(d)
			}
			srv.extra = func(w http.ResponseWriter, q *http.Request) bool {
				to, ok := hops[q.URL.Path]
				if ok {
					http.Redirect(w, q, to, http.StatusFound)
				}
				return ok
			}
			writeDocs(dir, docs)
			schema := toJSON(root)
			t.Count("documents", int64(len(docs)))
			g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{RelativeTo: base + "/root.json", DocumentFetchOptions: opts})
			checkParsed(t, SchemaCase{ID: id, Schema: schema, URL: base + "/root.json", Docs: texts, Monitor: func(v any, raw []byte) string {
				o, _ := v.(map[string]any)
				for k := range n {
					if want := fmt.Sprintf("document %d", k); o[fmt.Sprintf("p%d", k)] != want {
						return fmt.Sprintf("p%d is %v, not %q", k, o[fmt.Sprintf("p%d", k)], want)
					}
				}
				return ""
			}}, g, err, 4)
		}})
	}
	return cases
}

// changedDocuments: every parse sees the documents as they are
func changedDocuments(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(24, 300) {
		id := fmt.Sprintf("changed-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
			defer os.RemoveAll(dir)
			srv := newDocServer(map[string]string{})
			defer srv.Close()
			base, opts := "file://"+dir, fsOptions(dir)
			if i%2 == 1 {
				base, opts = srv.URL, httpOptions()
			}
			options := &chaff.ParserOptions{RelativeTo: base + "/root.json", DocumentFetchOptions: opts}
			schema := toJSON(M{"type": "object", "properties": M{"a": M{"$ref": "sub/part.json"}, "b": M{"$ref": "sub/part.json#/$defs/x"}}, "required": A{"a", "b"}, "additionalProperties": false})
			if r.Intn(2) == 0 {
				schema = toJSON(M{"type": "object", "properties": M{"a": M{"allOf": A{M{"$ref": "sub/part.json"}, M{"description": "x"}}}, "b": M{"$ref": "sub/part.json#/$defs/x"}}, "required": A{"a", "b"}, "additionalProperties": false})
			}
			put := func(d M) {
				docs := map[string]M{"sub/part.json": d, "root.json": {}}
				writeDocs(dir, docs)
				srv.mu.Lock()
				srv.docs = map[string]string{"/sub/part.json": toJSON(d)}
				srv.mu.Unlock()
			}
			early := []chaff.RootGenerator{}
			for turn := range 3 + r.Intn(3) {
				d := M{"const": fmt.Sprintf("a%d", turn), "$defs": M{"x": M{"const": fmt.Sprintf("b%d", turn)}}}
				put(d)
				g, err := chaff.ParseSchemaString(schema, options)
				if errs := metaErrors(g); err != nil || len(errs) > 0 {
					t.Violate("spurious-error", schema, "", "turn %d: %v %v", turn, err, errs)
					return
				}
				early = append(early, g)
				for k, g := range early { // what has been parsed keeps what was there
					raw, _ := json.Marshal(g.Generate(&chaff.GeneratorOptions{}))
					t.Event("turns", string(raw))
					if want := fmt.Sprintf(`{"a":"a%d","b":"b%d"}`, k, k); string(raw) != want {
						t.Violate("stale", schema, string(raw), "in turn %d the schema parsed in turn %d gives this, its documents said %s", turn, k, want)
						return
					}
				}
			}
		}})
	}
	return cases
}

// wideTool: large schemas and large values go through the command line tool as a whole
func wideTool(cfg Cfg, exe string, add func(id string, f func(t *T, dir string))) {
	for i := range cfg.Scale(12, 120) {
		add(fmt.Sprintf("large-%03d", i), func(t *T, dir string) {
			r := t.Rng
			size := []int{30000, 65536, 70000, 131072, 300000, 1200000}[r.Intn(6)] + r.Intn(3) - 1
			want := any(strings.Repeat("x", size))
			s := M{"const": want}
			switch i % 3 {
			case 1: // only the schema is large
				want = "small"
				s = M{"description": strings.Repeat("x", size), "const": want}
			case 2:
				l := A{}
				for k := range size / 8 {
					l = append(l, k)
				}
				want = l
				s = M{"const": want}
			}
			schema := toJSON(s)
			file := filepath.Join(dir, "s.json")
			os.WriteFile(file, []byte(schema), 0o644)
			for _, stdin := range []bool{true, false} {
				for _, toFile := range []bool{true, false} {
					args := []string{}
					if !stdin {
						args = append(args, "-file", file)
					}
					target := filepath.Join(dir, fmt.Sprint("out", stdin))
					if toFile {
						args = append(args, "-output", target)
					}
					out, stderr, code := runCLI(exe, dir, schema, stdin, args...)
					if toFile {
						b, _ := os.ReadFile(target)
						out = string(b)
					}
					var v any
					err := json.Unmarshal([]byte(out), &v)
					t.Event("large", fmt.Sprint(size, i%3, stdin, toFile))
					if code != 0 || err != nil || canon(v) != canon(want) {
						t.Violate("large", clip(schema, 200), clip(out, 200), "exit code %d, %d bytes put out for a schema of %d bytes with %q: %v %s", code, len(out), len(schema), args, err, clip(stderr, 200))
						return
					}
				}
			}
		})
	}
}

// unevaluatedItems: what no other keyword applies to, next to everything that applies to items
func unevaluatedArrays(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(160, 3000) {
		id := fmt.Sprintf("unevaluated-%05d", i)
		r := subRng(cfg.Seed, "V04", id)
		s := M{"type": "array"}
		tuple := A{}
		for k := range r.Intn(4) {
			tuple = append(tuple, M{"const": fmt.Sprintf("t%d", k)})
		}
		if len(tuple) > 0 {
			s["prefixItems"] = tuple
		}
		contained, open := 0, false
		if r.Intn(2) == 0 {
			contained = 1 + r.Intn(3)
			s["contains"] = M{"enum": A{"c", "d"}}
			if contained > 1 || r.Intn(2) == 0 {
				s["minContains"] = contained
			}
		}
		if r.Intn(3) == 0 {
			s["items"], open = pick(r, M{}, M{"type": "string"}, M{"enum": A{"c", "d", "e"}}), true
		}
		switch r.Intn(4) {
		case 0, 1:
			s["unevaluatedItems"] = false
		case 2:
			s["unevaluatedItems"], open = M{"const": "u"}, true
		case 3:
			s["unevaluatedItems"], open = true, true
		}
		size := len(tuple) + contained
		if r.Intn(3) > 0 {
			size = r.Intn(8)
			s["minItems"] = size
		}
		least := max(size, len(tuple)+contained)
		most := -1
		if r.Intn(2) == 0 {
			most = least + r.Intn(4)
			s["maxItems"] = most
		}
		shape := r.Intn(4)
		around := s
		switch {
		case shape == 1 && s["unevaluatedItems"] != nil: // combined with what stands next to it
			around = M{"type": "array", "unevaluatedItems": s["unevaluatedItems"]}
			delete(s, "unevaluatedItems")
			around["allOf"] = A{s}
		case shape == 2:
			around = M{"type": "object", "properties": M{"a": s}, "required": A{"a"}, "additionalProperties": false}
		}
		e := Clean
		if !open && contained == 0 && size > len(tuple) {
			e = Reported
		}
		sc := SchemaCase{ID: id, Schema: toJSON(around), N: 80, Expect: e}
		if e == Clean && open && most > 0 && shape != 2 {
			sc.Final = appears(sc.Schema, func(raw string) []string {
				var v []any
				json.Unmarshal([]byte(raw), &v)
				return []string{fmt.Sprint(len(v))}
			}, most-least+1)
		}
		cases = append(cases, sc.Case())
	}
	return cases
}

// legacyTuples: tuples as lists of items, the rest given by additionalItems
func legacyTuples(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(200, 3000) {
		id := fmt.Sprintf("legacy-tuple-%05d", i)
		r := subRng(cfg.Seed, "V04", id)
		rest := func() any {
			return pick[any](r, nil, nil, true, M{}, M{"type": "integer"}, M{"type": "integer", "minimum": 3, "maximum": 40}, M{"enum": A{5, 6, 7, "e"}}, M{"$ref": "#/definitions/rest"})
		}
		tuple := A{}
		for k := range 1 + r.Intn(3) {
			tuple = append(tuple, pick(r, M{"const": fmt.Sprintf("t%d", k)}, M{"type": "string"}, M{"type": "boolean"}))
		}
		s := M{"items": tuple}
		if x := rest(); x != nil {
			s["additionalItems"] = x
		}
		contained := 0
		if r.Intn(3) > 0 { // there are numbers from 4 to 9 in everything above
			contained = 1
			s["contains"] = pick(r, M{"minimum": 4}, M{"type": "integer", "minimum": 4}, M{"enum": A{5, 6, 7}}, M{"type": "number", "maximum": 9, "minimum": 4}, M{"$ref": "#/definitions/some"})
		}
		least := len(tuple) + contained
		if r.Intn(3) == 0 && s["additionalItems"] != nil && contained == 0 {
			s["additionalItems"] = false
			least = len(tuple)
		} else {
			if r.Intn(2) == 0 {
				least += r.Intn(4)
				s["minItems"] = least
			}
			if r.Intn(2) == 0 {
				s["maxItems"] = least + r.Intn(4)
			}
			if r.Intn(4) == 0 && contained == 0 && s["additionalItems"] == nil && s["maxItems"] == nil && s["minItems"] == nil {
				s["uniqueItems"] = len(tuple) == 1
			}
		}
		s["type"] = "array"
		root := s
		switch r.Intn(3) {
		case 1:
			root = M{"type": "object", "properties": M{"a": s}, "required": A{"a"}, "additionalProperties": false}
		case 2: // taken apart
			root = M{"type": "array", "allOf": A{s, M{"minItems": least}}}
		}
		root["definitions"] = M{"rest": M{"type": "integer", "minimum": 2, "maximum": 50}, "some": M{"minimum": 4, "maximum": 6}}
		root["$schema"] = "http://json-schema.org/draft-07/schema#"
		cases = append(cases, schemaCase(id, root, 40))
	}
	return cases
}
