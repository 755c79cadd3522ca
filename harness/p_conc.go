package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// V17: generators are used by several goroutines at once. The worker is built with the race detector.

// schedule records in which order goroutines passed the points at which they draw
type schedule struct {
	n    int64
	seen [256]uint32
}

func (s *schedule) pass(who int) {
	i := atomic.AddInt64(&s.n, 1) - 1
	if i < int64(len(s.seen)) {
		atomic.StoreUint32(&s.seen[i], uint32(who+1))
	}
}

func (s *schedule) String() string {
	b := []byte{}
	for i := range s.seen {
		if w := atomic.LoadUint32(&s.seen[i]); w > 0 {
			b = append(b, 'a'+byte(w%26))
		}
	}
	return string(b)
}

// yieldingSource hands over to other goroutines at random draws
type yieldingSource struct {
	src   mrand.Source64
	sched *schedule
	who   int
}

func (s *yieldingSource) Int63() int64 {
	s.sched.pass(s.who)
	v := s.src.Int63()
	if v&3 == 0 {
		runtime.Gosched()
	}
	return v
}
func (s *yieldingSource) Uint64() uint64  { return uint64(s.Int63())<<1 ^ uint64(s.src.Int63()&1) }
func (s *yieldingSource) Seed(seed int64) { s.src.Seed(seed) }

func yieldingRand(seed int64, sched *schedule, who int) *rand.RandUtil {
	src := &yieldingSource{src: mrand.NewSource(seed).(mrand.Source64), sched: sched, who: who}
	return &rand.RandUtil{Source: src, Rand: mrand.New(src)}
}

// together starts all functions at once
func together(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

// scribble changes a generated value all over
func scribble(v any) {
	switch x := v.(type) {
	case []any:
		for i := range x {
			scribble(x[i])
			x[i] = "scribbled"
		}
	case map[string]any:
		for k := range x {
			scribble(x[k])
			x[k] = "scribbled"
		}
		x["scribbled"] = 1
	}
}

// concSchemas are schemas of every kind of generator
func concSchemas() map[string]M {
	return map[string]M{
		"pattern":      {"type": "string", "pattern": "^([a-z]{2,5}-[0-9]+|x(yz){1,3}|[^a-f]{3})$"},
		"patterns":     {"type": "array", "minItems": 4, "items": M{"type": "string", "pattern": "[a-z]{1,4}(foo|bar)*\\d"}},
		"names":        {"type": "object", "minProperties": 3, "patternProperties": M{"^[a-z]{6}$": M{"type": "integer"}, "^[0-9]{4}$": M{"type": "string", "pattern": "^[xyz]{3}$"}}},
		"formats":      {"type": "array", "prefixItems": A{M{"type": "string", "format": "date-time"}, M{"type": "string", "format": "email"}, M{"type": "string", "format": "uuid"}, M{"type": "string", "format": "ipv4"}, M{"type": "string", "format": "hostname"}, M{"type": "string", "format": "uri"}, M{"type": "string", "format": "duration"}}, "minItems": 7},
		"text":         {"type": "array", "minItems": 3, "items": M{"type": "string", "minLength": 3, "maxLength": 80}},
		"enum":         {"enum": A{M{"a": A{1, 2, M{"b": "c"}}}, A{A{1}, A{2}}, "x", 1, nil}},
		"const":        {"const": M{"a": A{1, 2, M{"b": A{}}}, "c": M{}}},
		"unique":       {"type": "array", "minItems": 4, "uniqueItems": true, "items": M{"type": "integer", "maximum": 20}},
		"contains":     {"type": "array", "contains": M{"const": M{"k": 1}}, "minContains": 2, "items": M{"type": "object"}},
		"object":       {"type": "object", "properties": M{"a": M{"type": "integer"}, "b": M{"enum": A{A{1}, A{2}}}, "c": M{"type": "string"}, "d": M{}}, "required": A{"a"}, "additionalProperties": M{"type": "boolean"}, "minProperties": 3},
		"oneOf":        {"oneOf": A{M{"type": "integer", "minimum": 0, "maximum": 20}, M{"type": "integer", "minimum": 10, "maximum": 30}, M{"type": "array", "items": M{"const": A{}}}}},
		"anyOf":        {"anyOf": A{M{"type": "string", "pattern": "^a+$"}, M{"type": "object", "properties": M{"x": M{"enum": A{M{}, M{"y": 1}}}}}}},
		"allOf":        {"allOf": A{M{"type": "object", "required": A{"a"}, "properties": M{"a": M{"type": "array", "items": M{"type": "integer"}}}}, M{"properties": M{"b": M{"type": "string"}}}}},
		"not":          {"type": "integer", "minimum": 0, "maximum": 100, "not": M{"multipleOf": 2}},
		"not-values":   {"type": "array", "minItems": 1, "maxItems": 4, "items": M{"enum": A{1, 2, 3}}, "not": M{"contains": M{"const": 2}}},
		"if":           {"type": "object", "required": A{"k"}, "properties": M{"k": M{"enum": A{1, 2}}, "v": M{"type": "string"}}, "if": M{"properties": M{"k": M{"const": 1}}}, "then": M{"required": A{"v"}}},
		"ifs":          {"type": "object", "required": A{"k", "j"}, "properties": M{"k": M{"enum": A{1, 2}}, "j": M{"enum": A{1, 2}}}, "allOf": A{M{"if": M{"properties": M{"k": M{"const": 1}}}, "then": M{"required": A{"v"}}}, M{"if": M{"properties": M{"j": M{"const": 1}}}, "then": M{"required": A{"w"}}}}},
		"references":   {"type": "array", "minItems": 3, "items": M{"$ref": "#/$defs/a"}, "$defs": M{"a": M{"type": "object", "required": A{"b"}, "properties": M{"b": M{"$ref": "#/$defs/b"}}}, "b": M{"type": "string", "pattern": "^[a-c]{4}$"}}},
		"types":        {"type": A{"string", "integer", "array", "object", "null", "boolean", "number"}},
		"any":          {},
		"optional-ref": {"$ref": "#/$defs/n", "$defs": M{"n": M{"type": "object", "required": A{"v"}, "properties": M{"v": M{"type": "integer"}}, "additionalProperties": M{"enum": A{A{}, M{}}}}}},
	}
}

// share generates from one generator in many goroutines
func share(t *T, schema string, g chaff.RootGenerator, oracle *js.Schema, workers, n int) {
	sched := &schedule{}
	shared := &chaff.GeneratorOptions{MaximumGenerationSteps: 1000}
	fs := []func(){}
	for w := range workers {
		seed := t.Rng.Int63()
		fs = append(fs, func() {
			r := mrand.New(mrand.NewSource(seed))
			for i := range n {
				var v any
				switch (i + w) % 4 {
				case 0: // options shared by all of them, a source of randomness is made for each
					v = g.Generate(shared)
				case 1:
					v = g.GenerateWithDefaults()
				default:
					v = g.Generate(&chaff.GeneratorOptions{Rand: yieldingRand(r.Int63(), sched, w), MaximumGenerationSteps: 1000})
				}
				raw, err := json.Marshal(v)
				if err != nil {
					t.Violate("not-json", schema, "", "%v", err)
					return
				}
				if oracle != nil {
					if iv := decode(raw); findMarker(iv) != "" || oracle.Validate(iv) != nil {
						t.Violate("invalid", schema, string(raw), "value generated next to other goroutines does not validate: %v", oracle.Validate(iv))
						return
					}
				}
				t.Event("values", string(raw))
				scribble(v) // values belong to who asked for them
				if i%8 == 7 {
					_ = g.String()
				}
			}
		})
	}
	together(fs...)
	t.Event("interleavings", sched.String())
	t.Sample(schema, "order of draws "+clip(sched.String(), 60))
}

func concCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, f func(t *T)) { cases = append(cases, Case{ID: id, Run: f}) }
	schemas := concSchemas()
	rounds := cfg.Scale(3, 60)
	for _, name := range keysOf2(schemas) {
		add("share-"+name, func(t *T) {
			schema := toJSON(schemas[name])
			oracle, err := compileOracle(schema, "", nil)
			if err != nil {
				panic(err)
			}
			for range rounds {
				g, err := chaff.ParseSchemaStringWithDefaults(schema)
				if e := metaErrors(g); err != nil || len(e) > 0 {
					t.Violate("spurious-error", schema, "", "%v %v", err, e)
					return
				}
				share(t, schema, g, oracle, 8, 16)
			}
		})
	}
	for i := range cfg.Scale(80, 2500) {
		add(fmt.Sprintf("share-random-%04d", i), func(t *T) {
			g := newSG(t.Rng)
			schema := toJSON(g.Root(g.Schema(2)))
			oracle, err := compileOracle(schema, "", nil)
			if err != nil {
				panic(err)
			}
			gen, _ := chaff.ParseSchemaStringWithDefaults(schema)
			share(t, schema, gen, oracle, 6, 8)
		})
	}
	// parsing in several goroutines, next to generation
	for i := range cfg.Scale(40, 1200) {
		add(fmt.Sprintf("parse-%04d", i), func(t *T) {
			opts := &chaff.ParserOptions{MaxParseDepth: 90}
			sched := &schedule{}
			names := keysOf2(schemas)
			same := toJSON(schemas[names[t.Rng.Intn(len(names))]])
			sg := newSG(t.Rng)
			fs := []func(){}
			for w := range 6 {
				text := same
				if w%2 == 1 {
					text = toJSON(sg.Root(sg.Schema(2)))
				}
				oracle, err := compileOracle(text, "", nil)
				if err != nil {
					panic(err)
				}
				seed := t.Rng.Int63()
				fs = append(fs, func() {
					for range 3 {
						sched.pass(w)
						g, err := chaff.ParseSchemaString(text, opts)
						if e := metaErrors(g); err != nil || len(e) > 0 {
							t.Violate("spurious-error", text, "", "%v %v", err, e)
							return
						}
						sched.pass(w)
						v := g.Generate(&chaff.GeneratorOptions{Rand: yieldingRand(seed, sched, w), MaximumGenerationSteps: 1000})
						raw, _ := json.Marshal(v)
						if iv := decode(raw); findMarker(iv) != "" || oracle.Validate(iv) != nil {
							t.Violate("invalid", text, string(raw), "value of a schema parsed next to others does not validate: %v", oracle.Validate(iv))
							return
						}
						t.Event("values", string(raw))
						scribble(v)
					}
				})
			}
			together(fs...)
			t.Event("interleavings", sched.String())
		})
	}
	// documents
	for i := range cfg.Scale(12, 300) {
		add(fmt.Sprintf("documents-%04d", i), func(t *T) {
			dir, err := os.MkdirTemp(t.Cfg.Dir, "docs")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			base := "file://" + dir
			opts := &chaff.ParserOptions{DocumentFetchOptions: fsOptions(dir)}
			if i%2 == 1 {
				base = ""
			}
			var w docWorld
			if base == "" {
				srv := newDocServer(nil)
				defer srv.Close()
				base = srv.URL
				w = newDocWorld(t.Rng, base)
				srv.docs = map[string]string{}
				for p, d := range w.docs {
					srv.docs["/"+p] = toJSON(d)
				}
				opts.DocumentFetchOptions = httpOptions()
			} else {
				w = newDocWorld(t.Rng, base)
				writeDocs(dir, w.docs)
			}
			opts.RelativeTo = base + "/" + w.root
			text := toJSON(w.docs[w.root])
			oracle, err := compileOracle(text, base+"/"+w.root, w.texts(base))
			if err != nil {
				panic(err)
			}
			fs := []func(){}
			sched := &schedule{}
			shared, _ := chaff.ParseSchemaString(text, opts)
			for k := range 5 {
				seed := t.Rng.Int63()
				fs = append(fs, func() {
					g := shared
					if k%2 == 0 {
						g, _ = chaff.ParseSchemaString(text, &chaff.ParserOptions{DocumentFetchOptions: opts.DocumentFetchOptions, RelativeTo: opts.RelativeTo})
					}
					for n := range 4 {
						v := g.Generate(&chaff.GeneratorOptions{Rand: yieldingRand(seed+int64(n), sched, k), MaximumGenerationSteps: 1000, MaximumReferenceDepth: 50})
						raw, _ := json.Marshal(v)
						if verr := oracle.Validate(decode(raw)); verr != nil {
							t.Violate("invalid", text, string(raw), "value of a schema parsed next to others does not validate: %v (%v)", verr, metaErrors(g))
							return
						}
						t.Event("values", string(raw))
					}
				})
			}
			together(fs...)
			t.Event("interleavings", sched.String())
		})
	}
	return cases
}

// V18: nothing that is handed in is changed, and what is handed out is independent.

func isolationCases(cfg Cfg) []Case {
	cases := []Case{}
	add := func(id string, f func(t *T)) { cases = append(cases, Case{ID: id, Run: f}) }
	marshal := func(v any) string {
		b, err := json.Marshal(v)
		if err != nil {
			return "error " + err.Error()
		}
		return string(b)
	}
	// randomSchema is one whose values are a matter of the seed only, or any
	schemaOf := func(r *mrand.Rand, i int) (string, bool) {
		if i%2 == 0 {
			s := seedSchema(r, 3, "s0", "s1", "s2")
			s["$defs"] = M{"s0": seedSchema(r, 1, "s1", "s2"), "s1": seedSchema(r, 1, "s2"), "s2": seedSchema(r, 1)}
			return toJSON(s), true
		}
		g := newSG(r)
		return toJSON(g.Root(g.Schema(2))), false
	}
	fixed := concSchemas()
	names := keysOf2(fixed)
	for i := range cfg.Scale(700, 14000) {
		add(fmt.Sprintf("values-%05d", i), func(t *T) {
			schema, seeded := schemaOf(t.Rng, i)
			if i < len(names) {
				schema, seeded = toJSON(fixed[names[i]]), false
			}
			text := []byte(schema)
			popts := &chaff.ParserOptions{MaxParseDepth: 80, RelativeTo: "file:///nowhere/x.json", DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{AllowedHosts: []string{"b.example", "A.example"}}, FileSystemFetchOptions: chaff.FileSystemFetchOptions{AllowedPaths: []string{"rel/x", "/abs/../y"}}}}
			if i%4 < 2 {
				popts.MaxParseDepth, popts.RelativeTo = 0, ""
			}
			before := marshal(popts)
			g, err := chaff.ParseSchema(text, popts)
			if err != nil || len(metaErrors(g)) > 0 {
				t.Count("reported", 1)
			}
			if string(text) != schema {
				t.Violate("input", schema, string(text), "parsing changes the text of the schema")
			}
			if after := marshal(popts); after != before {
				t.Violate("options", schema, after, "parsing changes its options, they were %s", before)
			}
			for k := range text { // the text belongs to the caller
				text[k] = 'x'
			}
			oracle, err := compileOracle(schema, "", nil)
			if err != nil {
				panic(err)
			}
			var kept []any
			var keptRaw []string
			for n := range 6 {
				seed := t.Rng.Int63()
				gen := func() (any, string) {
					o := chaff.GeneratorOptions{Rand: rand.NewRandUtil(seed), MaximumGenerationSteps: 1000, DefaultArrayMaxItems: 4}
					given := o
					v := g.Generate(&o)
					if !reflect.DeepEqual(o, given) || o.Rand != given.Rand {
						t.Violate("options", schema, fmt.Sprintf("%+v", o), "generating changes its options, they were %+v", given)
					}
					return v, marshal(v)
				}
				v, raw := gen()
				if !seeded {
					if verr := oracle.Validate(decode([]byte(raw))); verr != nil {
						t.Violate("invalid", schema, raw, "value generated after other values were changed does not validate: %v", verr)
						return
					}
				}
				for k := range kept { // earlier values are not changed by generating
					if m := marshal(kept[k]); m != keptRaw[k] {
						t.Violate("shared", schema, m, "a value changes when another one is generated, it was %s", keptRaw[k])
						return
					}
				}
				w, _ := gen()
				wraw := marshal(w)
				scribble(v)
				if m := marshal(w); m != wraw {
					t.Violate("shared", schema, m, "a value changes with another one, it was %s", wraw)
					return
				}
				if again, araw := gen(); seeded && araw != raw {
					t.Violate("shared", schema, araw, "after a generated value was changed the same seed gives another value, it was %s", raw)
					return
				} else if n%2 == 0 {
					kept, keptRaw = append(kept, again), append(keptRaw, araw)
				}
				if msg := selfShared(w); msg != "" {
					t.Violate("shared", schema, wraw, "%s", msg)
					return
				}
				t.Event("values", raw)
				t.Sample(schema, raw)
			}
		})
	}
	// schemas with the same names and ids do not mix
	for i := range cfg.Scale(200, 4000) {
		add(fmt.Sprintf("schemas-%05d", i), func(t *T) {
			type one struct {
				schema string
				g      chaff.RootGenerator
				oracle *js.Schema
			}
			var all []one
			opts := &chaff.ParserOptions{}
			id := pick(t.Rng, "", "https://example.com/s.json", "urn:x:y")
			for k := range 4 {
				tag := fmt.Sprintf("t%d", k)
				s := M{"type": "object", "required": A{"a", "b", "c"}, "properties": M{
					"a": M{"$ref": "#/$defs/d"}, "b": M{"oneOf": A{M{"const": tag}, M{"type": "integer", "minimum": 100 * k, "maximum": 100*k + 50}}}, "c": M{"allOf": A{M{"$ref": "#/$defs/d"}, M{}}},
				}, "$defs": M{"d": pick(t.Rng, M{"enum": A{tag, k}}, M{"type": "string", "pattern": "^" + tag + "[a-z]{2}$"}, M{"type": "integer", "minimum": 10 * k, "maximum": 10*k + 3, "not": M{"const": 10 * k}})}}
				if id != "" {
					s["$id"] = id
				}
				if t.Rng.Intn(4) == 0 { // one that is faulty in between
					bad := toJSON(M{"type": "object", "$id": "https://example.com/s.json", "properties": M{"a": M{"$ref": "#/$defs/missing"}, "b": M{"type": "string", "pattern": "("}}})
					g, err := chaff.ParseSchemaString(bad, opts)
					if err == nil && len(metaErrors(g)) == 0 {
						t.Violate("unreported", bad, "", "a faulty schema is not reported")
					}
				}
				schema := toJSON(s)
				g, err := chaff.ParseSchemaString(schema, opts)
				if e := metaErrors(g); err != nil || len(e) > 0 {
					t.Violate("spurious-error", schema, "", "after other schemas were parsed: %v %v", err, e)
					return
				}
				oracle, err := compileOracle(schema, "", nil)
				if err != nil {
					panic(err)
				}
				all = append(all, one{schema, g, oracle})
			}
			for range 12 {
				o := all[t.Rng.Intn(len(all))]
				raw := []byte(marshal(o.g.GenerateWithDefaults()))
				if err := o.oracle.Validate(decode(raw)); err != nil {
					t.Violate("mixed", o.schema, string(raw), "after other schemas were parsed a value does not validate: %v", err)
					return
				}
				t.Event("mixed", string(raw))
			}
		})
	}
	// documents are read when a schema is parsed, each time anew
	for i := range cfg.Scale(20, 300) {
		add(fmt.Sprintf("documents-%04d", i), func(t *T) {
			dir, err := os.MkdirTemp(t.Cfg.Dir, "docs")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			file := filepath.Join(dir, "d.json")
			schema := toJSON(M{"type": "array", "minItems": 1, "items": pick(t.Rng, M{"$ref": "d.json#/$defs/x"}, M{"allOf": A{M{"$ref": "d.json#/$defs/x"}}}, M{"anyOf": A{M{"$ref": "d.json#/$defs/x"}}})})
			opts := &chaff.ParserOptions{RelativeTo: "file://" + dir + "/root.json", DocumentFetchOptions: fsOptions(dir)}
			type one struct {
				g   chaff.RootGenerator
				tag string
			}
			var all []one
			for k := range 4 {
				tag := fmt.Sprintf("version %d", k)
				os.WriteFile(file, []byte(toJSON(M{"$defs": M{"x": M{"const": tag}}})), 0o644)
				g, err := chaff.ParseSchemaString(schema, opts)
				if e := metaErrors(g); err != nil || len(e) > 0 {
					t.Violate("spurious-error", schema, "", "%v %v", err, e)
					return
				}
				all = append(all, one{g, tag})
			}
			os.Remove(file)
			for _, o := range all {
				for range 4 {
					v, _ := o.g.GenerateWithDefaults().([]any)
					raw := marshal(v)
					t.Event("documents", raw)
					for _, e := range v {
						if e != o.tag {
							t.Violate("mixed", schema, raw, "a value of another version of a document, expected %q", o.tag)
							return
						}
					}
				}
			}
			if g, err := chaff.ParseSchemaString(schema, opts); err == nil && len(metaErrors(g)) == 0 {
				t.Violate("unreported", schema, "", "a document that was removed is not reported as missing")
			}
		})
	}
	return cases
}

// selfShared tells if two places of a value are the same map or slice
func selfShared(v any) string {
	seen := map[uintptr]bool{}
	var walk func(v any) string
	walk = func(v any) string {
		rv := reflect.ValueOf(v)
		switch x := v.(type) {
		case []any:
			if len(x) > 0 {
				if seen[rv.Pointer()] {
					return "two parts of a value share memory: " + toJSON(x)
				}
				seen[rv.Pointer()] = true
			}
			for _, e := range x {
				if m := walk(e); m != "" {
					return m
				}
			}
		case map[string]any:
			if seen[rv.Pointer()] {
				return "two parts of a value share memory: " + toJSON(x)
			}
			seen[rv.Pointer()] = true
			for _, e := range x {
				if m := walk(e); m != "" {
					return m
				}
			}
		}
		return ""
	}
	return walk(v)
}

func init() {
	register(Check{Prop: "V17", Race: true, Rule: "a value generated, or an order of draws seen, while other goroutines generate or parse (distinct by content)", Cases: concCases})
	register(Check{Prop: "V18", Rule: "a value that stayed what it was while others were generated and changed (distinct by content)", Cases: isolationCases})
}
