package main

import (
	"fmt"
	mrand "math/rand"
	"net/url"
	"strings"
)

// ---- V11 references within a document

// refNames need escaping in one way or another
var refNames = []string{"a", "b", "color", "x y", "a/b", "m~n", "~1", "100%", "%25", "ä", "日本", "a#b", "q?r", "$ref", "items", "properties", "0", "", "a.b", "c:d", "\"q\"", "ü/~", "const", "enum", "$id", "$defs", "not", "patternProperties", "default", "allOf"}

func pointerToken(r *mrand.Rand, s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
	var sb strings.Builder
	for _, c := range []byte(s) {
		switch {
		case c == '%' || c == '#' || c == '"' || c == ' ' || c >= 0x80 || c == '^' || c == '\\':
			fmt.Fprintf(&sb, "%%%02X", c)
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// nest puts the target at a random location and returns the outer schema and the pointer to the target
func nest(r *mrand.Rand, target M, depth int) (M, string) {
	if depth == 0 {
		return target, ""
	}
	inner, p := nest(r, target, depth-1)
	name := refNames[r.Intn(len(refNames))]
	switch r.Intn(16) {
	case 0, 1:
		return M{"type": "object", "properties": M{name: inner, "other": M{"type": "null"}}}, "/properties/" + pointerToken(r, name) + p
	case 2:
		return M{"type": "object", "additionalProperties": inner}, "/additionalProperties" + p
	case 3:
		pat := pick(r, "^a", "^b.c$", "x", "const", "enum", "^\\$ref$", "a~b", "[$]id")
		return M{"type": "object", "patternProperties": M{pat: inner}}, "/patternProperties/" + pointerToken(r, pat) + p
	case 4:
		return M{"type": "array", "items": inner}, "/items" + p
	case 5:
		t, i := among(r, inner)
		return M{"type": "array", "prefixItems": t}, fmt.Sprintf("/prefixItems/%d", i) + p
	case 6:
		return M{"type": "array", "contains": inner}, "/contains" + p
	case 7:
		t, i := among(r, inner)
		return M{"anyOf": t}, fmt.Sprintf("/anyOf/%d", i) + p
	case 8:
		t, i := among(r, inner)
		return M{"oneOf": t}, fmt.Sprintf("/oneOf/%d", i) + p
	case 9:
		return M{"$defs": M{name: inner}, "type": "null"}, "/$defs/" + pointerToken(r, name) + p
	case 10:
		return M{"definitions": M{name: inner}, "type": "null"}, "/definitions/" + pointerToken(r, name) + p
	case 11:
		return M{"type": "object", "properties": M{"k": inner, "l": M{"type": "object", "properties": M{"k": M{"const": "wrong"}}}}}, "/properties/k" + p
	case 12:
		return M{"type": "array", "prefixItems": A{M{"type": "array", "items": inner}}}, "/prefixItems/0/items" + p
	case 13:
		return M{"type": "array", "unevaluatedItems": inner}, "/unevaluatedItems" + p
	case 14:
		return M{"type": "array", "prefixItems": A{M{"const": "wrong"}}, "items": inner}, "/items" + p
	default:
		return M{"type": "array", "items": M{"type": "object", "properties": M{name: inner}}}, "/items/properties/" + pointerToken(r, name) + p
	}
}

// among puts the schema into a list of others, more than ten at times
func among(r *mrand.Rand, inner M) (A, int) {
	n := 2 + r.Intn(2)
	if r.Intn(3) == 0 {
		n = 9 + r.Intn(16)
	}
	i := r.Intn(n)
	t := A{}
	for k := range n {
		t = append(t, M{"const": fmt.Sprint("i", k)})
	}
	t[i] = inner
	return t, i
}

// tagSchema yields values that tell which target they belong to
func tagSchema(r *mrand.Rand, tag string) M {
	switch r.Intn(5) {
	case 0:
		return M{"const": tag}
	case 1:
		return M{"type": "string", "pattern": "^" + tag + "[0-9]{2}$"}
	case 2:
		return M{"type": "object", "properties": M{tag: M{"type": "boolean"}}, "required": A{tag}, "additionalProperties": false}
	case 3:
		return M{"enum": A{tag, tag + "x"}}
	default:
		return M{"type": "array", "items": M{"const": tag}, "minItems": 1, "maxItems": 3}
	}
}

// useRef places a reference in one of the positions a schema can be in. The result needs a tag-free environment
func useRef(r *mrand.Rand, ref M) M {
	switch r.Intn(13) {
	case 0, 1:
		return ref
	case 2:
		return M{"type": "array", "items": ref, "minItems": 1, "maxItems": 3}
	case 3:
		return M{"type": "array", "prefixItems": A{M{"const": 1}, ref}, "minItems": 2}
	case 4:
		return M{"type": "object", "additionalProperties": ref, "minProperties": 1, "maxProperties": 2}
	case 5:
		return M{"type": "object", "patternProperties": M{"^z[0-9]$": ref}, "additionalProperties": false, "minProperties": 1, "maxProperties": 2}
	case 6:
		return M{"type": "array", "contains": ref, "minContains": 1, "maxItems": 3}
	case 7:
		return M{"anyOf": A{ref, M{"const": 7}}}
	case 8:
		return M{"oneOf": A{M{"const": 7}, ref}}
	case 9:
		return M{"allOf": A{ref}}
	case 10:
		return M{"type": "object", "properties": M{"n": M{"type": "object", "properties": M{"m": ref}, "required": A{"m"}}}, "required": A{"n"}}
	case 11:
		return M{"type": "object", "properties": M{"c": M{"enum": A{1, 2}}, "v": M{}}, "required": A{"c", "v"},
			"if": M{"properties": M{"c": M{"const": 1}}}, "then": M{"properties": M{"v": ref}}, "else": M{"properties": M{"v": M{"const": 0}}}}
	default:
		return M{"type": A{"array", "null"}, "items": ref, "minItems": 1, "maxItems": 2}
	}
}

func refCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id, schema string) {
		cases = append(cases, SchemaCase{ID: id, Schema: schema, N: 12}.Case())
	}
	// every name, every kind of location
	for i, name := range refNames {
		r := subRng(1, "refname", name)
		tok := pointerToken(r, name)
		for j, def := range []string{"$defs", "definitions", "properties"} {
			s := M{"type": "object", "properties": M{"v": M{"$ref": "#/" + def + "/" + tok}}, "required": A{"v"}}
			other := M{"const": "wrong"}
			target := M{"const": "right"}
			set := M{name: target, "zz": other}
			if def == "properties" {
				if name == "v" {
					continue
				}
				s["properties"].(M)[name] = target
			} else {
				s[def] = set
			}
			add(fmt.Sprintf("name-%02d-%d", i, j), toJSON(s))
		}
	}
	// random networks of references
	n := cfg.Scale(900, 12000)
	for i := range n {
		id := fmt.Sprintf("network-%05d", i)
		r := subRng(cfg.Seed, "V11", id)
		defs := M{}
		refs := []string{}
		num := 1 + r.Intn(5)
		for k := range num {
			tag := fmt.Sprintf("tag%d", k)
			var target M
			if len(refs) > 0 && r.Intn(3) == 0 { // a chain
				target = M{"$ref": refs[r.Intn(len(refs))]}
				if r.Intn(2) == 0 {
					target = useRef(r, target)
				}
			} else {
				target = tagSchema(r, tag)
			}
			outer, p := nest(r, target, r.Intn(4))
			name := fmt.Sprintf("%s%d", refNames[r.Intn(len(refNames))], k)
			defs[name] = outer
			refs = append(refs, "#/$defs/"+pointerToken(r, name)+p)
		}
		root := M{"type": "object", "properties": M{}, "required": A{}, "additionalProperties": false}
		for k, ref := range refs {
			p := fmt.Sprintf("p%d", k)
			root["properties"].(M)[p] = useRef(r, M{"$ref": ref})
			root["required"] = append(root["required"].(A), p)
		}
		if r.Intn(3) == 0 {
			root["definitions"] = defs
			for k, v := range root {
				if k != "definitions" && k != "required" {
					root[k] = rewriteRefs(v, "#/$defs/", "#/definitions/")
				}
			}
			root["definitions"] = rewriteRefs(defs, "#/$defs/", "#/definitions/")
		} else {
			root["$defs"] = defs
		}
		if r.Intn(3) == 0 {
			root["$id"] = "https://ex.test/dir/root.json"
		}
		if r.Intn(4) == 0 { // references to properties of the schema itself
			root["properties"].(M)["self"] = M{"$ref": "#/properties/p0"}
		}
		add(id, toJSON(root))
	}
	// every place of long lists, also the tuples of older drafts
	for _, k := range []string{"prefixItems", "anyOf", "oneOf", "items", "properties"} {
		for _, n := range []int{1, 9, 10, 11, 12, 21, 101} {
			var list any
			l := A{}
			m := M{}
			for i := range n {
				l = append(l, M{"const": fmt.Sprint("i", i)})
				m[fmt.Sprint(i)] = M{"const": fmt.Sprint("i", i)}
			}
			list = l
			if k == "properties" {
				list = m
			}
			root := M{"$schema": "https://json-schema.org/draft/2020-12/schema", "type": "object", "definitions": M{"list": M{k: list}}}
			if k == "items" {
				root["$schema"] = "http://json-schema.org/draft-07/schema#"
			}
			props, req := M{}, A{}
			for i := range n {
				p := fmt.Sprint("p", i)
				props[p] = M{"$ref": fmt.Sprintf("#/definitions/list/%s/%d", k, i)}
				req = append(req, p)
			}
			root["properties"], root["required"] = props, req
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("list-%s-%d", k, n), Schema: toJSON(root), N: 3, Monitor: func(v any, raw []byte) string {
				for i := range n {
					if got := v.(map[string]any)[fmt.Sprint("p", i)]; got != fmt.Sprint("i", i) {
						return fmt.Sprintf("the reference to entry %d of %s gives %v", i, k, got)
					}
				}
				return ""
			}}.Case(), SchemaCase{ID: fmt.Sprintf("list-end-%s-%d", k, n), Schema: toJSON(M{"$ref": fmt.Sprintf("#/definitions/list/%s/%d", k, n), "definitions": root["definitions"]}), Expect: Reported}.Case())
		}
	}
	// the parts of conditions and negations
	for i, d := range []struct {
		def   M
		where string
	}{
		{M{"type": "string", "not": M{"const": "right"}}, "not"},
		{M{"type": "string", "if": M{"const": "right"}, "then": M{"minLength": 1}}, "if"},
		{M{"type": "string", "if": M{"const": "zz"}, "then": M{"minLength": 2}, "else": M{"const": "right"}}, "else"},
		{M{"enum": A{"right", 5}, "if": M{"type": "string"}, "then": M{"const": "right"}, "else": M{"const": 5}}, "then"},
		{M{"enum": A{"right", 5}, "if": M{"type": "integer"}, "then": M{"const": 5}, "else": M{"const": "right"}}, "else"},
	} {
		for u := range 13 {
			for k, tok := range []string{"c", "c/properties/k", "c/items", "c/anyOf/1"} {
				r := subRng(int64(u), "conditional", tok)
				def := d.def
				switch k {
				case 1:
					def = M{"type": "object", "properties": M{"k": def}}
				case 2:
					def = M{"type": "array", "items": def}
				case 3:
					def = M{"anyOf": A{M{"const": "wrong"}, def}}
				}
				s := M{"type": "object", "required": A{"v"}, "properties": M{"v": useRef(r, M{"$ref": "#/$defs/" + tok + "/" + d.where})}, "$defs": M{"c": def}}
				add(fmt.Sprintf("conditional-%d-%d-%02d", i, k, u), toJSON(s))
			}
		}
	}
	// $id of embedded schemas
	idForms := []struct{ root, id, ref, p string }{
		{"https://ex.test/dir/root.json", "color", "color", ""},
		{"https://ex.test/dir/root.json", "color", "https://ex.test/dir/color", ""},
		{"https://ex.test/dir/root.json", "color", "/dir/color", ""},
		{"https://ex.test/dir/root.json", "/color", "../color", ""},
		{"https://ex.test/dir/root.json", "https://other.test/c.json", "https://other.test/c.json", ""},
		{"https://ex.test/dir/root.json", "https://other.test/c.json", "https://other.test/c.json#", ""},
		{"https://ex.test/dir/root.json", "sub/color.json", "sub/color.json#/properties/k", "k"},
		{"https://ex.test/dir/root.json", "urn:ex:color", "urn:ex:color", ""},
		{"https://ex.test/dir/root.json", "color", "root.json#/$defs/c", ""},
		{"https://ex.test/dir/root.json", "color", "https://ex.test/dir/root.json#/$defs/c", ""},
		{"", "https://other.test/c.json", "https://other.test/c.json", ""},
		{"", "https://other.test/c.json", "https://other.test/c.json#/properties/k", "k"},
		{"urn:ex:root", "urn:ex:color", "urn:ex:color#/properties/k", "k"},
		{"https://ex.test/dir/root.json#", "color", "color", ""},
		{"https://ex.test/dir/root.json#", "color", "root.json#/$defs/c", ""},
		{"https://ex.test/dir/root.json#", "color", "https://ex.test/dir/root.json#/$defs/c", ""},
		{"https://ex.test/dir/root.json#", "color", "#/$defs/c", ""},
	}
	for i, f := range idForms {
		for u := range 13 {
			r := subRng(int64(u), "ids")
			target := M{"const": "right"}
			if f.p != "" {
				target = M{"type": "object", "properties": M{f.p: target}}
			}
			target["$id"] = f.id
			s := M{"type": "object", "required": A{"v"}, "additionalProperties": false,
				"properties": M{"v": useRef(r, M{"$ref": f.ref})},
				"$defs":      M{"c": target, "d": M{"$id": "colo", "const": "wrong"}, "e": M{"const": "wrong"}}}
			if f.root != "" {
				s["$id"] = f.root
			}
			if f.root == "" || strings.HasPrefix(f.root, "urn:") {
				delete(s["$defs"].(M), "d")
			}
			add(fmt.Sprintf("id-%02d-%02d", i, u), toJSON(s))
		}
	}
	// references within embedded schemas are relative to the $id of those
	for i, f := range []struct{ id, ref string }{
		{"sub", "#/$defs/x"}, {"dir/sub", "#/$defs/x"}, {"https://other.test/z/sub.json", "#/$defs/x"}, {"dir/sub", "other"}, {"dir/sub", "./other"}, {"dir/sub", "../dir/other"},
		{"dir/sub", "https://ex.test/dir/dir/other"}, {"dir/sub", "sub#/$defs/x"}, {"dir/sub", "../root.json#/$defs/right"}, {"https://other.test/z/sub.json", "https://ex.test/dir/root.json#/$defs/right"},
		{"https://other.test/z/sub.json", "o2#/properties/a"}, {"urn:ex:sub", "#/$defs/x"},
	} {
		for u := range 13 {
			r := subRng(int64(u), "embedded")
			sub := M{"$id": f.id, "type": "object", "properties": M{"k": useRef(r, M{"$ref": f.ref})}, "required": A{"k"}, "additionalProperties": false, "$defs": M{"x": M{"const": "right"}}}
			s := M{"$id": "https://ex.test/dir/root.json", "type": "object", "required": A{"v"}, "additionalProperties": false,
				"properties": M{"v": useRef(r, M{"$ref": "#/$defs/s"})},
				"$defs": M{"s": sub, "x": M{"const": "wrong"}, "right": M{"const": "right"}, "o": M{"$id": "dir/other", "const": "right"}, "w": M{"$id": "other", "const": "wrong"},
					"o2": M{"$id": "https://other.test/z/o2", "properties": M{"a": M{"const": "right"}}}}}
			add(fmt.Sprintf("embedded-%02d-%02d", i, u), toJSON(s))
		}
	}
	// what can not be resolved is reported
	for i, ref := range []string{"#/$defs/missing", "#/definitions/a", "#/properties/q", "#/$defs/a/properties/zz", "#/$defs/a/items", "#/nothing/a", "#/$defs/t/prefixItems/2",
		"#/$defs/t/prefixItems/-1", "#/$defs/t/prefixItems/x", "other.json", "https://nowhere.test/x.json#/a", "#/$defs/a/const", "#/$defs", "#missing", "missing-id", "#/$defs/c/properties/deep/properties/none"} {
		for u := range 13 {
			r := subRng(int64(u), "unresolvable")
			s := M{"type": "object", "required": A{"v"}, "properties": M{"v": useRef(r, M{"$ref": ref})},
				"$defs": M{"a": M{"type": "object", "properties": M{"k": M{"const": 1}}}, "t": M{"prefixItems": A{M{"const": 1}, M{"const": 2}}}, "c": M{"properties": M{"deep": M{"type": "object"}}}}}
			cases = append(cases, SchemaCase{ID: fmt.Sprintf("unresolvable-%02d-%02d", i, u), Schema: toJSON(s), Expect: Reported}.Case())
		}
	}
	cases = append(cases, recursiveValues(cfg)...)
	cases = append(cases, nearMisses(cfg)...)
	cases = append(cases, nestedIds(cfg)...)
	cases = append(cases, deepPointers(cfg)...)
	return cases
}

func rewriteRefs(v any, from, to string) any {
	switch x := v.(type) {
	case M:
		o := M{}
		for k, e := range x {
			if s, ok := e.(string); ok && k == "$ref" {
				o[k] = strings.ReplaceAll(s, from, to)
				if !strings.HasPrefix(s, from) {
					o[k] = s
				} else {
					o[k] = to + strings.TrimPrefix(s, from)
				}
				continue
			}
			o[k] = rewriteRefs(e, from, to)
		}
		return o
	case A:
		o := make(A, len(x))
		for i, e := range x {
			o[i] = rewriteRefs(e, from, to)
		}
		return o
	}
	return v
}

var _ = url.Parse

func init() {
	register(Check{
		Prop:  "V11",
		Rule:  "a generated value (distinct JSON text per schema) whose parts the validator resolved through references, or a distinct report of an unresolvable reference",
		Cases: refCases,
	})
}

// nearMisses: every place of a schema can be referred to, and none that only looks like one of them
func nearMisses(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(260, 4000) {
		id := fmt.Sprintf("near-%05d", i)
		r := subRng(cfg.Seed, "V11", id)
		names := []string{"a", "b", "c", "d", "item", "A", "0", "1", "12", "x y", "a-b", "é"}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		n := 0
		leaf := func() M { n++; return M{"const": fmt.Sprintf("leaf %d", n)} }
		// the target sits in one of the places, other values in others
		places := []string{"$defs", "definitions", "properties", "patternProperties", "dependentSchemas", "prefixItems", "items", "additionalProperties", "contains", "if", "anyOf"}
		holder := M{}
		refs := []string{}
		fill := func(place string) {
			switch place {
			case "$defs", "definitions", "properties":
				group := M{}
				for k := range 1 + r.Intn(2) {
					name := names[k]
					if place == "properties" {
						name = names[2+k]
					}
					group[name] = leaf()
					refs = append(refs, place+"/"+strings.ReplaceAll(name, " ", "%20"))
				}
				holder[place] = group
			case "prefixItems", "anyOf":
				group := A{}
				for k := range 1 + r.Intn(13) {
					group = append(group, leaf())
					refs = append(refs, fmt.Sprintf("%s/%d", place, k))
				}
				holder[place] = group
			case "items", "additionalProperties":
				holder[place] = leaf()
				refs = append(refs, place)
			case "if":
				holder["if"], holder["then"] = M{"type": "string", "const": "none of these"}, leaf()
				refs = append(refs, "if", "then")
			}
		}
		for _, place := range places {
			if r.Intn(3) == 0 && (place != "anyOf" || holder["if"] == nil) {
				fill(place)
			}
		}
		if len(refs) == 0 {
			fill("$defs")
		}
		base := pick(r, "#/$defs/holder", "#/definitions/holder", "#/$defs/outer/properties/holder", "#/$defs/list/items", "#/$defs/tuple/prefixItems/1")
		parts := strings.Split(base[2:], "/")
		var inner any = holder
		for k := len(parts) - 1; k >= 1; k-- {
			if parts[k] == "1" {
				inner = A{M{"const": "other"}, inner}
			} else {
				inner = M{parts[k]: inner}
			}
		}
		ref := pick(r, refs...)
		s := M{"type": "object", "required": A{"v"}, "additionalProperties": false, parts[0]: inner}
		if i%2 == 0 {
			s["properties"] = M{"v": useRef(r, M{"$ref": base + "/" + ref})}
			cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 6, Opts: []GenOpt{{Name: "default"}}, Expect: Clean}.Case())
			continue
		}
		segs := strings.Split(ref, "/")
		switch k := r.Intn(5); {
		case k == 0 && len(segs) == 2 && (segs[0] == "prefixItems" || segs[0] == "anyOf"):
			segs[1] = fmt.Sprint(len(holder[segs[0]].(A)) + pick(r, 0, 0, 1, 10, -1000))
		case k == 1 && len(segs) == 2:
			segs[1] += pick(r, "x", "9999", "%20", "~0", "~1", "/const", "/"+segs[0]+"/"+segs[1])
		case k <= 2:
			other := pick(r, "$defs", "definitions", "properties", "prefixItems", "anyOf", "allOf", "oneOf", "then", "else", "contains", "items", "$Defs", "defs", "Properties", "item")
			if alike := map[string]string{"$defs": "definitions", "definitions": "$defs", "prefixItems": "items", "anyOf": "oneOf", "then": "else", "properties": "patternProperties"}[segs[0]]; alike != "" && r.Intn(2) == 0 {
				other = alike
			}
			if _, ok := holder[other]; ok {
				other = "elsewhere"
			}
			segs[0] = other
		case k == 3 && len(segs) == 2:
			segs = segs[1:]
			if segs[0] == "items" {
				segs[0] = "none"
			}
		default:
			parts[len(parts)-1] += "x"
		}
		bad := "#/" + strings.Join(append(append([]string{}, parts...), segs...), "/")
		s["properties"] = M{"v": useRef(r, M{"$ref": bad})}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(s), N: 3, Expect: Reported}.Case())
	}
	return cases
}

// nestedIds: an $id is relative to the $id around it, and so are the references next to it
func nestedIds(cfg Cfg) []Case {
	cases := []Case{}
	type resource struct {
		uri  *url.URL
		node M
	}
	for i := range cfg.Scale(220, 4000) {
		id := fmt.Sprintf("nested-id-%05d", i)
		r := subRng(cfg.Seed, "V11", id)
		base, _ := url.Parse("https://ex.test/dir/root.json")
		root := M{"$id": base.String()}
		all := []resource{{base, root}}
		used := map[string]bool{base.String(): true}
		leaves := []string{}
		for n := range 2 + r.Intn(6) {
			parent := all[r.Intn(len(all))]
			if r.Intn(2) == 0 {
				parent = all[len(all)-1]
			}
			ref := pick(r, "c.json", "sub/", "a/b.json", "../d.json", "/abs/x.json", "https://o.test/p/q.json", "deep/e.json", "./f", "../../g.json", "?v=1", "//other.test/h/i")
			uri, err := parent.uri.Parse(ref)
			if err != nil || used[uri.String()] {
				continue
			}
			used[uri.String()] = true
			node := M{"$id": ref}
			if _, ok := parent.node["$defs"].(M); !ok {
				parent.node["$defs"] = M{}
			}
			parent.node["$defs"].(M)[fmt.Sprintf("d%d", n)] = node
			all = append(all, resource{uri, node})
		}
		if len(all) == 1 {
			continue
		}
		// every resource is an object with a mark of its own, some refer to another one
		for k, res := range all {
			props := M{"mark": M{"const": fmt.Sprintf("mark %d", k)}}
			res.node["type"], res.node["required"], res.node["additionalProperties"] = "object", A{"mark"}, false
			res.node["properties"] = props
			defs, _ := res.node["$defs"].(M)
			if defs == nil {
				defs = M{}
			}
			defs["leaf"] = M{"const": fmt.Sprintf("leaf %d", k)}
			res.node["$defs"] = defs
			leaves = append(leaves, res.uri.String()+"#/$defs/leaf")
		}
		relative := func(from *url.URL, to string) string {
			target, _ := url.Parse(to)
			forms := []string{to}
			if target.Host == from.Host {
				forms = append(forms, strings.TrimPrefix(to, "https://"+target.Host))
				dir := from.Path[:strings.LastIndex(from.Path, "/")+1]
				up := ""
				for d := dir; ; {
					if rest, ok := strings.CutPrefix(to, "https://"+target.Host+d); ok {
						forms = append(forms, up+rest, up+rest)
					}
					if d == "/" {
						break
					}
					d = d[:strings.LastIndex(strings.TrimSuffix(d, "/"), "/")+1]
					up += "../"
				}
			}
			if target.Scheme == "https" {
				forms = append(forms, strings.TrimPrefix(to, "https:"))
			}
			form := forms[r.Intn(len(forms))]
			if got, err := from.Parse(form); err != nil || got.String() != target.String() || form == "" {
				return to
			}
			return form
		}
		for k, res := range all {
			props := res.node["properties"].(M)
			for n := range r.Intn(3) {
				name := fmt.Sprintf("r%d", n)
				switch to := r.Intn(len(all)); {
				case r.Intn(4) == 0:
					props[name] = M{"$ref": "#/$defs/leaf"}
				case r.Intn(2) == 0 || to <= k: // whole resources only further on, nothing is recursive
					props[name] = M{"$ref": relative(res.uri, leaves[to])}
				default:
					props[name] = M{"$ref": relative(res.uri, all[to].uri.String())}
				}
				res.node["required"] = append(res.node["required"].(A), name)
			}
		}
		last := all[len(all)-1]
		root["properties"].(M)["last"] = M{"$ref": relative(base, last.uri.String())}
		root["required"] = append(root["required"].(A), "last")
		if _, err := compileOracle(toJSON(root), base.String(), nil); err != nil {
			panic("harness: " + id + ": " + err.Error() + toJSON(root))
		}
		cases = append(cases, SchemaCase{ID: id, Schema: toJSON(root), URL: base.String(), N: 8, Opts: []GenOpt{{Name: "default"}}, Expect: Clean}.Case())
	}
	return cases
}
