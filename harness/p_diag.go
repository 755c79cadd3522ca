package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- V25 what is wrong is reported where it is, and nowhere else

// faulty schemas, each of them is reported on its own
var faultySchemas = []M{
	{"type": "integer", "minimum": 3, "maximum": 1}, {"type": "number", "exclusiveMinimum": 2, "maximum": 2}, {"type": "integer", "minimum": json.Number("0.2"), "maximum": json.Number("0.8")}, {"type": "integer", "multipleOf": -2},
	{"type": "number", "minimum": 1, "maximum": 4, "multipleOf": 5}, {"type": "string", "minLength": 3, "maxLength": 1}, {"type": "string", "minLength": -1}, {"type": "string", "pattern": "("}, {"type": "string", "pattern": "[z-a]"},
	{"type": "array", "minItems": 3, "maxItems": 1}, {"type": "array", "prefixItems": A{M{}, M{}}, "maxItems": 1}, {"type": "array", "prefixItems": A{M{}}, "items": false, "minItems": 2}, {"type": "array", "contains": M{"type": "null"}, "maxItems": 0},
	{"type": "object", "minProperties": 3, "maxProperties": 1}, {"type": "object", "required": A{"a", "b"}, "maxProperties": 1}, {"type": "object", "additionalProperties": false, "required": A{"x"}}, {"type": "object", "additionalProperties": false, "minProperties": 1},
	{"type": "string", "enum": A{1, 2}}, {"type": "string", "const": 1}, {"enum": A{"a", "b"}, "minLength": 2}, {"const": 5, "minimum": 6}, {"$ref": "#/$defs/missing"}, {"$ref": "#/nowhere/at/all"}, {"$ref": "missing.json"},
	{"allOf": A{M{"type": "string"}, M{"type": "null"}}}, {"allOf": A{M{"const": 1}, M{"const": 2}}}, {"allOf": A{M{"minimum": 5}, M{"maximum": 4}}, "type": "integer"}, {"allOf": A{M{"$ref": "#/$defs/missing"}}},
	{"oneOf": A{M{"type": "string", "const": 1}}}, {"anyOf": A{M{"type": "integer", "minimum": 3, "maximum": 1}}}, {"type": "string", "oneOf": A{M{"const": 1}, M{"const": 2}}}, {"type": "integer", "minimum": 3, "not": M{"minimum": 3}},
	{"type": "object", "patternProperties": M{"[z-a]": M{}}}, {"type": "object", "patternProperties": M{"(": M{"type": "string"}, "^a": M{}}}, {"type": "string", "not": M{"pattern": "("}},
	{"type": "string", "if": M{"pattern": "("}, "then": M{"minLength": 1}}, {"type": "string", "if": M{"minLength": 3}, "then": M{"pattern": "("}}, {"type": "string", "if": M{"minLength": 3}, "else": M{"pattern": "[z-a]"}},
	{"type": "integer", "if": M{"minimum": 3}, "then": M{"minimum": 5, "maximum": 4}}, {"oneOf": A{M{"type": "null"}, M{"type": "string", "pattern": "("}, M{"type": "boolean"}}}, {"anyOf": A{M{"type": "string", "pattern": "("}, M{"type": "boolean"}}},
	{"type": "string", "pattern": "(?=a)"}, {"type": "array", "items": M{"$ref": "#/$defs/missing"}, "minItems": 1}, {"type": "object", "minProperties": -3},
	{"type": "string", "minLength": 5, "not": M{"minLength": 4}}, {"type": "object", "properties": M{"a": M{"const": 1}}, "dependentSchemas": M{"a": M{}}}, {"type": "object", "dependentRequired": M{"a": A{"b"}}},
}

func init() {
	for _, f := range []M{
		{"type": "integer", "not": M{"allOf": A{M{"const": 1}, M{"const": 2}}}}, {"type": "string", "not": M{"allOf": A{M{"pattern": "a"}, M{"pattern": "b"}}}}, {"not": M{"type": "string", "pattern": "("}, "type": "string"},
		{"type": "object", "not": M{"allOf": A{M{"type": "object", "properties": M{"a": M{"const": 1}}, "required": A{"a"}}, M{"properties": M{"a": M{"const": 2}}}}}}, {"type": "integer", "not": M{"$ref": "#/$defs/missing"}},
		{"type": "integer", "if": M{"$ref": "#/$defs/missing"}, "then": M{"minimum": 3}},
		{"type": "object", "required": A{"k"}, "properties": M{"k": M{"not": M{"$ref": "#/$defs/missing"}}}}, {"type": "integer", "allOf": A{M{"not": M{"$ref": "nowhere.json"}}, M{"minimum": 3}}},
		{"type": "integer", "allOf": A{M{"not": M{"const": 4}}, M{"not": M{"allOf": A{M{"const": 1}, M{"const": 2}}}}}},
		{"type": "string", "allOf": A{M{"if": M{"minLength": 3}, "then": M{"pattern": "("}}, M{"if": M{"maxLength": 3}, "then": M{"minLength": 1}}}},
	} {
		faultySchemas = append(faultySchemas, f)
	}
}

// neighbour makes a satisfiable schema without any report
func neighbour(r *mrand.Rand) M {
	switch r.Intn(8) {
	case 0:
		return M{"type": "string"}
	case 1:
		return M{"type": "integer", "minimum": 1, "maximum": 9}
	case 2:
		return M{"enum": A{1, "x", nil}}
	case 5:
		return M{}
	case 6:
		return M{"oneOf": A{M{"type": "string"}, M{"type": "null"}}}
	}
	return M{"type": A{"string", "integer"}}
}

// twoPlaces puts two schemas into one that is satisfiable with either of them
func twoPlaces(r *mrand.Rand, x, y M) (M, [2]string) {
	switch r.Intn(10) {
	case 0:
		return M{"type": "object", "properties": M{"p": x, "m": neighbour(r)}, "patternProperties": M{"^q": y}}, [2]string{"/properties/p", "/patternProperties/^q"}
	case 1:
		return M{"type": "object", "properties": M{"p": x}, "additionalProperties": y}, [2]string{"/properties/p", "/additionalProperties"}
	case 2:
		return M{"type": "object", "patternProperties": M{"^p": x}, "additionalProperties": y}, [2]string{"/patternProperties/^p", "/additionalProperties"}
	case 5:
		return M{"oneOf": A{x, M{"type": "null"}, y}}, [2]string{"/oneOf/0", "/oneOf/2"}
	case 6:
		return M{"anyOf": A{M{"type": "null"}, x, y}}, [2]string{"/anyOf/1", "/anyOf/2"}
	case 7:
		return M{"type": "object", "properties": M{"k": neighbour(r)}, "if": M{"required": A{"k"}}, "then": M{"properties": M{"v": x}}, "else": M{"properties": M{"w": y}}}, [2]string{"/then/properties/v", "/else/properties/w"}
	}
	return M{"type": "object", "properties": M{"p": x, "q": y}}, [2]string{"/properties/p", "/properties/q"}
}

type planted struct {
	s   M
	ptr string // where the fault is
	// where references lead towards the fault
	routes []string
	soft   bool // the way there leads through something whose parts are combined: only what is above is certain
}

// plantIn puts x somewhere into a larger satisfiable schema
func plantIn(r *mrand.Rand, x planted, root M, depth int) planted {
	name := pick(r, "a", "name", "with space", "é", "x.y", "0", "$ref", "items", "percent%20", "A")
	nb := func() M { return neighbour(r) }
	out := planted{soft: x.soft}
	put := func(prefix string) { out.ptr = prefix + x.ptr }
	if strings.HasPrefix(x.ptr, "!") { // already at an absolute location
		put = func(string) { out.ptr = x.ptr }
	}
	direct := put
	put = func(prefix string) {
		direct(prefix)
		for _, route := range x.routes {
			if !strings.HasPrefix(route, "!") {
				route = prefix + route
			}
			out.routes = append(out.routes, route)
		}
	}
	switch r.Intn(16) {
	case 0, 1, 2:
		out.s = M{"type": "object", "properties": M{name: x.s, "other": nb(), "third": nb()}}
		if r.Intn(2) == 0 {
			out.s["required"] = A{name}
		}
		put("/properties/" + name)
	case 3:
		out.s = M{"type": "array", "items": x.s}
		put("/items")
	case 4:
		i := r.Intn(3)
		l := A{nb(), nb(), nb()}
		l[i] = x.s
		out.s = M{"type": "array", "prefixItems": l, "items": nb()}
		put(fmt.Sprintf("/prefixItems/%d", i))
	case 5:
		out.s = M{"type": "object", "properties": M{"q": nb()}, "additionalProperties": x.s}
		put("/additionalProperties")
	case 6:
		p := pick(r, "^x-", "^[a-z]+$", "^a", "b")
		out.s = M{"type": "object", "patternProperties": M{p: x.s}}
		put("/patternProperties/" + p)
	case 7:
		i := r.Intn(2)
		l := A{M{"type": "boolean"}, M{"type": "null"}}
		l[i] = x.s
		k := pick(r, "oneOf", "anyOf")
		out.s = M{k: l}
		put(fmt.Sprintf("/%s/%d", k, i))
	case 8:
		out.s = M{"type": "array", "contains": x.s}
		put("/contains")
	case 9:
		out.s = M{"type": "object", "properties": M{"k": nb()}, "if": M{"required": A{"k"}}, "then": M{"properties": M{"v": x.s}}, "else": M{}}
		put("/then/properties/v")
	case 10:
		out.s = M{"type": "object", "properties": M{"k": nb()}, "if": M{"required": A{"k"}}, "else": M{"properties": M{"v": x.s}}, "then": M{}}
		put("/else/properties/v")
	case 11, 12:
		k := pick(r, "$defs", "definitions")
		defs, _ := root[k].(M)
		if defs == nil {
			defs = M{}
			root[k] = defs
		}
		d := fmt.Sprintf("d%d_%d", depth, len(defs))
		defs[d] = x.s
		if !strings.HasPrefix(x.ptr, "!") {
			out.ptr = "!/" + k + "/" + d + x.ptr
		} else {
			out.ptr = x.ptr
		}
		for _, route := range x.routes {
			if !strings.HasPrefix(route, "!") {
				route = "!/" + k + "/" + d + route
			}
			out.routes = append(out.routes, route)
		}
		if r.Intn(4) > 0 {
			out.s = M{"$ref": "#/" + k + "/" + d}
			out.routes = append(out.routes, "")
		} else { // only defined
			out.s = nb()
		}
	case 13:
		out.s = M{"allOf": A{M{"type": "object", "properties": M{name: x.s}}, M{"properties": M{"r": nb()}}}}
		out.soft = true
		put("/allOf/properties/" + name)
	case 14:
		out.s = M{"type": "object", "properties": M{"s": nb()}, "minProperties": 0, "allOf": A{M{"properties": M{name: x.s}}}}
		out.soft = true
		put("/allOf/properties/" + name)
	case 15:
		out.s = M{"type": "array", "prefixItems": A{nb()}, "unevaluatedItems": x.s}
		put("/unevaluatedItems")
	}
	return out
}

func reportedAt(g chaff.RootGenerator) map[string][]string {
	out := map[string][]string{}
	if g.Metadata == nil || g.Metadata.Errors == nil {
		return out
	}
	for k := range g.Metadata.Errors.CollectErrors() {
		doc, ptr, _ := strings.Cut(k, " -> ")
		out[doc] = append(out[doc], strings.TrimPrefix(ptr, "#"))
	}
	return out
}

var alternative = regexp.MustCompile("/(oneOf|anyOf)/[0-9]+$")

func related(a, b string) bool {
	return a == b || strings.HasPrefix(a, b+"/") || strings.HasPrefix(b, a+"/")
}

// location leaves out what a report adds to say what failed there
func location(p string) string {
	if at := strings.Index(p, "/config_"); at >= 0 {
		return p[:at]
	}
	return p
}

func diagCases(cfg Cfg) []Case {
	cases := []Case{}
	check := func(t *T, text string, g chaff.RootGenerator, err error, doc func(d string) bool, x planted) {
		ptr := strings.TrimPrefix(x.ptr, "!")
		at := reportedAt(g)
		if len(at) == 0 {
			if err == nil {
				t.Violate("unreported", text, "", "nothing is reported, the fault is at %q", ptr)
				return
			}
			// refused as a whole
			t.Violate("no-location", text, "", "refused without a location, the fault is at %q: %v", ptr, err)
			return
		}
		exact := false
		for d, l := range at {
			for _, p := range l {
				t.Event("reports", text+d+p)
				if doc != nil && !doc(d) {
					t.Violate("elsewhere", text, "", "reported for document %s, the fault is in another one at %q", d, ptr)
					return
				}
				base := ptr
				if x.soft { // up to where parts are combined
					base, _, _ = strings.Cut(ptr, "/allOf")
				}
				p = location(p)
				fits := related(p, base)
				for _, route := range x.routes {
					route, _, _ = strings.Cut(strings.TrimPrefix(route, "!"), "/allOf")
					fits = fits || related(p, route)
				}
				if !fits {
					t.Violate("elsewhere", text, "", "reported at %q, which has nothing to do with the fault at %q", p, ptr)
					return
				}
				// a reference that fails while an alternative is combined with the schema around it is reported for that
				around := alternative.ReplaceAllString(ptr, "")
				exact = exact || p == ptr || p == around || strings.HasPrefix(p, ptr+"/") || x.soft
			}
		}
		if !exact {
			t.Violate("imprecise", text, "", "the fault at %q is only reported at %v", ptr, at)
			return
		}
		t.Count("faults located", 1)
		t.Sample(text, ptr)
	}
	for i := range cfg.Scale(8000, 80000) {
		id := fmt.Sprintf("planted-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			fault := faultySchemas[i%len(faultySchemas)]
			root := M{}
			x := planted{s: clone(fault).(M)}
			for d := range r.Intn(5) {
				x = plantIn(r, x, root, d)
			}
			s := M{}
			for k, v := range x.s {
				s[k] = v
			}
			for k, v := range root {
				s[k] = v
			}
			text := toJSON(s)
			g, err := chaff.ParseSchemaStringWithDefaults(text)
			check(t, text, g, err, nil, x)
			// the rest can still be used and described
			if g.Generator != nil {
				json.Marshal(g.Generate(&chaff.GeneratorOptions{MaximumGenerationSteps: 200}))
			}
		}})
	}
	// two faults that have nothing to do with each other are both reported
	for i := range cfg.Scale(6000, 60000) {
		id := fmt.Sprintf("two-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			root := M{}
			var both [2]planted
			var parts [2]planted
			for k := range both {
				x := planted{s: clone(faultySchemas[r.Intn(len(faultySchemas))]).(M)}
				for d := range r.Intn(3) {
					x = plantIn(r, x, root, 10*k+d)
				}
				parts[k] = x
			}
			s, prefix := twoPlaces(r, parts[0].s, parts[1].s)
			for k, v := range root {
				s[k] = v
			}
			text := toJSON(s)
			g, err := chaff.ParseSchemaStringWithDefaults(text)
			at := reportedAt(g)
			places := []string{}
			for k, x := range parts {
				ptr := prefix[k] + x.ptr
				if strings.HasPrefix(x.ptr, "!") {
					ptr = x.ptr[1:]
				}
				if x.soft {
					ptr, _, _ = strings.Cut(ptr, "/allOf")
				}
				around := alternative.ReplaceAllString(ptr, "")
				places = append(places, ptr)
				for _, route := range x.routes {
					if !strings.HasPrefix(route, "!") {
						route = "!" + prefix[k] + route
					}
					route, _, _ = strings.Cut(route[1:], "/allOf")
					places = append(places, route)
				}
				found := false
				for _, l := range at {
					for _, p := range l {
						p = location(p)
						found = found || p == ptr || p == around || strings.HasPrefix(p, ptr+"/")
					}
				}
				if !found {
					t.Violate("unreported", text, "", "of two faults the one at %q is not reported (%v): %v", ptr, err, at)
					return
				}
			}
			for _, l := range at {
				for _, p := range l {
					fits := false
					for _, place := range places {
						fits = fits || related(location(p), place)
					}
					if !fits {
						t.Violate("elsewhere", text, "", "reported at %q, which has nothing to do with the faults at %q", p, places)
						return
					}
				}
			}
			t.Event("two faults", text)
		}})
	}
	// the same without the fault is reported nowhere
	for i := range cfg.Scale(3000, 30000) {
		id := fmt.Sprintf("sound-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			root := M{}
			x := planted{s: neighbour(r)}
			for d := range r.Intn(5) {
				x = plantIn(r, x, root, d)
			}
			for k, v := range root {
				x.s[k] = v
			}
			text := toJSON(x.s)
			g, err := chaff.ParseSchemaStringWithDefaults(text)
			if at := reportedAt(g); err != nil || len(at) > 0 {
				t.Violate("spurious-error", text, "", "nothing is wrong but %v %v is reported", err, metaErrors(g))
			}
			t.Event("sound schemas", text)
		}})
	}
	// in another document
	for i := range cfg.Scale(300, 4000) {
		id := fmt.Sprintf("document-%04d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := t.Rng
			dir := filepath.Join(cfg.Dir, id)
			if err := os.MkdirAll(dir, 0o755); err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			fault := faultySchemas[i%len(faultySchemas)]
			root := M{}
			x := planted{s: clone(fault).(M)}
			for d := range 1 + r.Intn(3) {
				x = plantIn(r, x, root, d)
			}
			for k, v := range root {
				x.s[k] = v
			}
			// every file but the last refers to the next one
			n := 1 + r.Intn(2)
			for k := range n {
				ref := M{"$ref": fmt.Sprintf("doc%d.json", k+1)}
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("doc%d.json", k)), []byte(toJSON(pick(r, M{"type": "object", "properties": M{"p": ref, "o": neighbour(r)}}, M{"type": "array", "items": ref}, M{"type": "array", "prefixItems": A{neighbour(r), ref}}))), 0o644)
			}
			text := toJSON(x.s)
			last := fmt.Sprintf("doc%d.json", n)
			os.WriteFile(filepath.Join(dir, last), []byte(text), 0o644)
			g, err := chaff.ParseSchemaFile(filepath.Join(dir, "doc0.json"), &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}})
			at := reportedAt(g)
			if len(at) == 0 && err == nil {
				// what nothing refers to is not looked at in other documents
				if strings.HasPrefix(x.ptr, "!") {
					t.Count("unused definition of another document", 1)
					return
				}
				t.Violate("unreported", text, "", "nothing is reported, the fault is at %q of %s", x.ptr, last)
				return
			}
			there := false
			for d := range at {
				there = there || strings.HasSuffix(d, "/"+last)
				if strings.HasPrefix(d, "file:") && !strings.Contains(d, "/doc") {
					t.Violate("elsewhere", text, "", "reported for %s", d)
				}
			}
			if !there {
				t.Violate("elsewhere", text, "", "the fault of %s is only reported at %v", last, at)
				return
			}
			t.Event("documents", text)
		}})
	}
	cases = append(cases, wideFaults(cfg)...)
	return cases
}

func init() {
	register(Check{Prop: "V25", Rule: "a distinct report for one schema with one planted fault, at the location of the fault or at what it makes impossible; sound schemas count when nothing is reported", Cases: diagCases})
}
