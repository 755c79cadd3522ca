"""Bugs planted to measure the checks. Each edits the original code of the repository (edits: file, old, new)."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


bug("v01-round-minimum", "V01", [("number.go", "		min = math.Ceil(min)\n", "		min = math.Round(min)\n")],
    "an integer schema whose minimum has a fractional part below one half and is drawn",
    "integers below a fractional minimum are generated",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"integer","minimum":2.25,"maximum":5.5}`, 400, func(v any) bool { return v.(float64) >= 2.25 })
}''')

bug("v03-extra-property", "V03", [("object.go", "	maximumExtrasToGenerate := util.MaxInt(0, max-len(g.Required))", "	maximumExtrasToGenerate := util.MaxInt(minimumExtrasToGenerate, max-len(g.Required), 1)")],
    "as many required properties as maxProperties allows and further optional ones",
    "objects have more properties than maxProperties",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"},"c":{"type":"null"}},"required":["a","b"],"maxProperties":2}`, 200,
		func(v any) bool { return len(v.(map[string]any)) <= 2 })
}''')

bug("v05-loose-intersection", "V05", [("merge.go", '''		bSet[util.MarshalJsonToString(v)] = struct{}{}''', '''		bSet[fmt.Sprint(v)] = struct{}{}'''), ("merge.go", '''		if _, ok := bSet[util.MarshalJsonToString(v)]; ok {''', '''		if _, ok := bSet[fmt.Sprint(v)]; ok {''')],
    "combined lists of values that hold a number (or boolean) and a text that looks the same",
    "values that only one of the combined lists contains are generated",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"enum":[1,"true","a"]},{"enum":["1",true,"a",1]}]}`, 200, func(v any) bool { return v == 1.0 || v == "a" })
}''')

bug("v07-weaker-bound-wins", "V07", [("merge.go", "	baseNode.ExclusiveMinimum = util.MaxFloatPtr(otherNode.ExclusiveMinimum, baseNode.ExclusiveMinimum)", "	baseNode.ExclusiveMinimum = util.GetPtr(otherNode.ExclusiveMinimum, baseNode.ExclusiveMinimum)")],
    "two combined schemas with an exclusiveMinimum each of which the later one is weaker",
    "numbers below the stricter exclusive bound are generated",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"type":"integer","exclusiveMinimum":50},{"exclusiveMinimum":10,"maximum":60}]}`, 300,
		func(v any) bool { return v.(float64) > 50 })
}''')

bug("v07-closed-object-reopened", "V07", [("merge.go", '''	if node.IsFalse {
		return node
	}

	if mergedNode.Schema == nil {
		return node
	}
''', '''	if mergedNode.Schema == nil {
		return node
	}
''')],
    "combined schemas of which the first has a schema for additional properties and a later one forbids them",
    "objects that a combined schema closes get additional properties",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"type":"object","properties":{"a":{"type":"null"}},"additionalProperties":{"type":"integer"}},{"properties":{"a":{"type":"null"}},"additionalProperties":false}]}`, 300,
		func(v any) bool {
			for k := range v.(map[string]any) {
				if k != "a" {
					return false
				}
			}
			return true
		})
}''')

bug("v10-exclusive-maximum-implies-nothing", "V10", [("parse.go", '''		node.ExclusiveMaximum != nil ||
''', '')],
    "a schema without a type whose only keyword is exclusiveMaximum",
    "values of any kind instead of numbers are generated",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"exclusiveMaximum":5}`, 100, func(v any) bool { _, ok := v.(float64); return ok })
}''')

bug("v11-two-digit-index", "V11", [("reference_path.go", "`^\\d+$`", "`^\\d$`")],
    "a reference to the eleventh or a later item of a tuple given as items",
    "the reference can not be resolved",
    '''func TestDemo(t *testing.T) {
	items := strings.Repeat(`{"type":"null"},`, 11) + `{"type":"integer","minimum":7,"maximum":9}`
	g, err := chaff.ParseSchemaString(`{"type":"object","required":["a"],"properties":{"a":{"$ref":"#/properties/t/items/11"},"t":{"items":[`+items+`]}}}`, &chaff.ParserOptions{})
	if err != nil {
		t.Fatal(err)
	}
	for range 50 {
		v := demoValue(t, g, &chaff.GeneratorOptions{}).(map[string]any)
		if n, ok := v["a"].(float64); !ok || n < 7 || n > 9 {
			t.Fatalf("generates %v", v["a"])
		}
	}
}''')

bug("v13-unresolved-allowed-path", "V13", [("fetchers.go", '''		realPath, err := getRealPath(path)
		if err != nil {
			return nil, fmt.Errorf("failed to resolve allowed path '%s': %w", path, err)
''', '''		realPath, err := filepath.Abs(path)
		if err != nil {
			return nil, fmt.Errorf("failed to resolve allowed path '%s': %w", path, err)
''')],
    "an allowed path that is, or lies below, a symbolic link",
    "documents within an allowed path are refused",
    '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.Mkdir(dir+"/real", 0700)
	os.WriteFile(dir+"/real/x.json", []byte(`{"type":"integer","minimum":7,"maximum":9}`), 0600)
	if err := os.Symlink(dir+"/real", dir+"/link"); err != nil {
		t.Skip(err)
	}
	g := demoParse(t, `{"$ref":"file://`+dir+`/link/x.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir + "/link"}}}})
	if n, ok := demoValue(t, g, &chaff.GeneratorOptions{}).(float64); !ok || n < 7 || n > 9 {
		t.Fatal("wrong value")
	}
}''')

bug("v14-reference-into-nothing", "V14", [("reference_path.go", '''	if nodes == nil {
		return nil, fmt.Errorf("[%s] No array items defined", resolvedPath)
	}

	part, itemPath''', '''	part, itemPath''')],
    "a reference to an alternative or tuple item of a schema that has none",
    "parsing panics",
    '''func TestDemo(t *testing.T) {
	chaff.ParseSchemaString(`{"$ref":"#/anyOf/0"}`, &chaff.ParserOptions{})
	chaff.ParseSchemaString(`{"properties":{"a":{"$ref":"#/$defs/b/prefixItems/1"}},"$defs":{"b":{"type":"array"}}}`, &chaff.ParserOptions{})
}''')

bug("v15-optional-properties-past-maximum", "V15", [("object.go", '''	if opts.ShouldMinimize() {
		generatorTarget = minimumExtrasToGenerate
	}
''', '''	if opts.ShouldMinimize() && len(optionalKeys) == 0 {
		generatorTarget = minimumExtrasToGenerate
	}
''')],
    "objects with optional properties generated past MaximumGenerationSteps",
    "optional properties keep being generated after the maximum number of steps",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"object","required":["a","b"],"properties":{"a":{"type":"array","minItems":9,"items":{"enum":[1,2,3]}},"b":{"type":"object","properties":{"x":{"type":"null"},"y":{"type":"null"},"z":{"type":"null"}}}}}`)
	for range 60 {
		v := demoValue(t, g, &chaff.GeneratorOptions{MaximumGenerationSteps: 5}).(map[string]any)
		if len(v["b"].(map[string]any)) > 0 {
			t.Fatalf("generates %v", v)
		}
	}
}''')

bug("v17-shared-default-source", "V17", [("generator.go", '''		randUtil = rand.NewRandUtilFromTime()
''', '''		randUtil = defaultRandUtil
'''), ("generator.go", '''func withGeneratorOptionsDefaults(options GeneratorOptions) *GeneratorOptions {
	randUtil := options.Rand
''', '''var defaultRandUtil = rand.NewRandUtilFromTime()

func withGeneratorOptionsDefaults(options GeneratorOptions) *GeneratorOptions {
	randUtil := options.Rand
''')],
    "generating in several goroutines without a source of randomness in the options",
    "the goroutines share an unsynchronised source of randomness",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"array","items":{"type":"integer","minimum":1,"maximum":1000}}`)
	done := make(chan bool)
	for range 8 {
		go func() {
			for range 300 {
				g.Generate(&chaff.GeneratorOptions{})
			}
			done <- true
		}()
	}
	for range 8 {
		<-done
	}
}''', flags="-race")

bug("v21-swapped-attempt-flags", "V21", [("cli/cli.go", '''		MaximumIfAttempts:          *MaximumIfAttempts,
		MaximumOneOfAttempts:       *MaximumOneOfAttempts,
''', '''		MaximumIfAttempts:          *MaximumOneOfAttempts,
		MaximumOneOfAttempts:       *MaximumIfAttempts,
''')],
    "one of the flags for attempts and a condition or oneOf that needs more attempts than that",
    "the limits for if and oneOf attempts are exchanged",
    '''package main

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	bin := t.TempDir() + "/chaff"
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	f := t.TempDir() + "/s.json"
	os.WriteFile(f, []byte(`{"type":"integer","minimum":1,"maximum":5,"oneOf":[{"minimum":1},{"maximum":9}]}`), 0600)
	out, err := exec.Command(bin, "-file", f, "-maximum-oneof-attempts", "7").CombinedOutput()
	if err != nil || !strings.Contains(string(out), "after 7 attempts") {
		t.Fatalf("%v %s", err, out)
	}
}''', pkg="cli/")

bug("v24-order-of-conditions", "V24", [("if.go", "range generatorOptions.Rand.Rand.Perm(len(g.constraints)) {", "range rand.Perm(len(g.constraints)) {"), ("if.go", '''	"fmt"
''', '''	"fmt"
	"math/rand"
''')],
    "several conditions at once and a seeded source of randomness",
    "the order conditions are applied in does not follow the seed",
    '''package chaff_test

import (
	"encoding/json"
	"testing"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

func TestDemo(t *testing.T) {
	g, err := chaff.ParseSchemaString(`{"type":"object","required":["k"],"properties":{"k":{"enum":[1,2]},"a":{"type":"integer","minimum":0,"maximum":1000},"b":{"type":"integer","minimum":0,"maximum":1000}},"additionalProperties":false,
		"allOf":[{"if":{"properties":{"k":{"const":1}}},"then":{"required":["a"]},"else":{"required":["b"]}},{"if":{"properties":{"k":{"const":2}}},"then":{"required":["a"]},"else":{"required":["b"]}}]}`, &chaff.ParserOptions{})
	if err != nil {
		t.Fatal(err)
	}
	for seed := range int64(40) {
		first := ""
		for range 5 {
			data, _ := json.Marshal(g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(seed)}))
			if first == "" {
				first = string(data)
			}
			if string(data) != first {
				t.Fatalf("seed %d: %s and %s", seed, first, data)
			}
		}
	}
}''')

# ---- second batch

bug("v01-maximum-never-drawn", "V01", [("number.go", "		result = float64(math.Round(opts.Rand.RandomFloat(g.Min, g.Max)))", "		result = float64(math.Floor(opts.Rand.RandomFloat(g.Min, g.Max)))")],
    "the largest integer of a range is needed, for instance because a condition or another schema depends on it",
    "the maximum of integers is never generated",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"integer","minimum":1,"maximum":3}`)
	for range 500 {
		if demoValue(t, g, &chaff.GeneratorOptions{}) == 3.0 {
			return
		}
	}
	t.Fatal("3 is never generated")
}''')

bug("v02-sixteen-sentences", "V02", [("string.go", "	for sb.Len() < g.MinLength {", "	for i := 0; sb.Len() < g.MinLength && i < 16; i++ {")],
    "a minLength larger than sixteen sentences",
    "texts with a very large minLength are too short",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"string","minLength":6000}`, 20, func(v any) bool { return len(v.(string)) >= 6000 })
}''')

bug("v02-negative-duration", "V02", [("string.go", "opts.Rand.RandomInt(0, 90)", "opts.Rand.RandomInt(-1, 90)")],
    "the lowest of 91 possible durations is drawn",
    "P-1D is generated, which is no duration",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"string","format":"duration"}`, 3000, func(v any) bool { return !strings.Contains(v.(string), "-") })
}''')

bug("v03-fallback-beside-patterns", "V03", [("object.go", '''		generator := g.FallbackGenerator
		if g.AdditionalProperties != nil {''', '''		generator := g.FallbackGenerator
		if g.AdditionalProperties != nil && len(g.PatternProperties) == 0 {''')],
    "patternProperties with too few names for minProperties next to a schema for additional properties",
    "properties that fill up an object do not conform to additionalProperties",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"object","patternProperties":{"^a$":{"type":"integer"}},"additionalProperties":{"type":"integer"},"minProperties":3}`, 50, func(v any) bool {
		for _, x := range v.(map[string]any) {
			if _, ok := x.(float64); !ok {
				return false
			}
		}
		return true
	})
}''')

bug("v04-contains-through-reference", "V04", [("array.go", "	if node.Items != nil && node.Items.Node != nil {\n		itemsNode =", "	if node.Items != nil && node.Items.Node != nil && node.Items.Node.Ref == nil {\n		itemsNode =")],
    "contains next to items that are given by a reference",
    "items generated for contains do not conform to items",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"$defs":{"n":{"type":"integer","minimum":5,"maximum":20}},"type":"array","items":{"$ref":"#/$defs/n"},"contains":{"minimum":0,"maximum":6}}`, 100, func(v any) bool {
		for _, x := range v.([]any) {
			if x.(float64) < 5 {
				return false
			}
		}
		return true
	})
}''')

bug("v04-closed-unevaluated", "V04", [("array.go", "	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {", "	if (g.DisallowUnevaluatedItems && tupleLength == 0) || opts.ShouldMinimize() {")],
    "unevaluatedItems false next to a tuple",
    "items beyond the tuple are generated although unevaluatedItems is false",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"array","prefixItems":[{"type":"null"},{"type":"boolean"}],"unevaluatedItems":false}`, 100, func(v any) bool { return len(v.([]any)) <= 2 })
}''')

bug("v07-tuples-of-different-length", "V07", [("merge.go", "			newMergedPrefixItems[i] = mergedPrefixItems[i]\n", "			newMergedPrefixItems[i] = schemaNode{}\n")],
    "two combined tuples of which the first is the longer one",
    "the end of the longer tuple loses its schemas",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"type":"array","prefixItems":[{"type":"integer"},{"type":"boolean"}]},{"prefixItems":[{"minimum":3}]}]}`, 100, func(v any) bool {
		_, ok := v.([]any)[1].(bool)
		return ok
	})
}''')

bug("v08-nested-negations-replace", "V08", [("merge.go", "		mergedNode.mergedNot = append(mergedNode.mergedNot, node.mergedNot...)\n", "		mergedNode.mergedNot = node.mergedNot\n")],
    "a negation in a schema that is combined with one that is itself a combination of several negations",
    "values that the outer negation forbids are generated",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"type":"integer","minimum":1,"maximum":6},{"not":{"const":1}},{"allOf":[{"not":{"const":2}},{"not":{"const":3}}]}]}`, 300, func(v any) bool { return v.(float64) > 3 })
}''')

bug("v09-nested-ifs-replace", "V09", [("merge.go", "		mergedNode.mergedIf = append(mergedNode.mergedIf, node.mergedIf...)\n", "		mergedNode.mergedIf = node.mergedIf\n")],
    "a condition in a schema that is combined with one that is itself a combination of several conditions",
    "the outer condition is not observed",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"type":"integer","minimum":1,"maximum":6},{"if":{"maximum":1},"then":{"minimum":3}},{"allOf":[{"if":{"const":5},"then":{"const":6}},{"if":{"const":4},"then":{"const":6}}]}]}`, 300, func(v any) bool { return v == 2.0 || v == 3.0 || v == 6.0 })
}''')

bug("v09-then-escapes", "V09", [("if.go", '''		if g.conditionFunc(thenValue) {
			return thenValue, true
		}''', '''		return thenValue, true''')],
    "values of then that do not meet the condition any more, although else forbids them",
    "values for then are not checked against the condition",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"integer","minimum":1,"maximum":20,"if":{"minimum":10},"then":{"multipleOf":2},"else":{"multipleOf":3}}`, 400, func(v any) bool {
		n := int(v.(float64))
		if n >= 10 {
			return n%2 == 0
		}
		return n%3 == 0
	})
}''')

bug("v10-tuple-implies-nothing", "V10", [("parse.go", "		node.PrefixItems != nil ||\n", "")],
    "a schema that only says prefixItems",
    "schemas with prefixItems give values of any type",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"prefixItems":[{"type":"null"}]}`, 100, func(v any) bool { _, ok := v.([]any); return ok })
}''')

bug("v12-not-found-accepted", "V12", [("fetchers.go", "	if resp.StatusCode != http.StatusOK {", "	if resp.StatusCode >= http.StatusInternalServerError {")],
    "a document that does not exist on a server that answers with JSON",
    "the body of an error page is taken for the schema",
    '''func TestDemo(t *testing.T) {
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusNotFound)
		fmt.Fprint(w, `{"message":"not found"}`)
	}))
	defer server.Close()
	g, err := chaff.ParseSchemaString(`{"type":"object","properties":{"a":{"$ref":"`+server.URL+`/x.json"}},"required":["a"]}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}}})
	if err == nil && !g.Metadata.Errors.HasErrors() {
		t.Fatal("a document that was not found is not reported")
	}
}''', imports=["net/http", "net/http/httptest"])

bug("v13-host-suffix", "V13", [("fetchers.go", "		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {", '		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) && !strings.HasSuffix(resolvedUrl.Host, f.allowedHosts[0]) {')],
    "a reference to a host whose name ends with the name of an allowed one",
    "documents of hosts that are not allowed are fetched",
    '''func TestDemo(t *testing.T) {
	asked := false
	transport := http.DefaultTransport
	http.DefaultTransport = roundTrip(func(r *http.Request) (*http.Response, error) {
		asked = true
		return nil, fmt.Errorf("no")
	})
	defer func() { http.DefaultTransport = transport }()
	chaff.ParseSchemaString(`{"$ref":"https://evilexample.org/x.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowedHosts: []string{"example.org"}}}})
	if asked {
		t.Fatal("a host that is not allowed was asked")
	}
}

type roundTrip func(r *http.Request) (*http.Response, error)

func (f roundTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }''', imports=["net/http"])

bug("v15-full-retries", "V15", [("if.go", '''func (g ifConstraint) Apply(generator Generator, generatorOptions *GeneratorOptions, generatedValue interface{}) interface{} {
	maxAttempts := generatorOptions.ScaledRetryBudget(generatorOptions.MaximumIfAttempts)
''', '''func (g ifConstraint) Apply(generator Generator, generatorOptions *GeneratorOptions, generatedValue interface{}) interface{} {
	maxAttempts := generatorOptions.MaximumIfAttempts
''')],
    "conditions that can not be met once too many generation steps were taken",
    "the effort for conditions is not reduced when the budget runs out",
    '''func TestDemo(t *testing.T) {
	t.Skip("unused")
}''', draft=True)

bug("v17-shared-builder", "V17", [("string.go", "	var sb strings.Builder\n", "	sb := &sentence\n	sb.Reset()\n"), ("string.go", "func (g stringGenerator) Generate(", "var sentence strings.Builder\n\nfunc (g stringGenerator) Generate(")],
    "texts generated in several goroutines at once",
    "goroutines share the buffer texts are put together in",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"array","items":{"type":"string","minLength":40},"minItems":5}`)
	done := make(chan bool)
	for range 8 {
		go func() {
			for range 200 {
				g.Generate(&chaff.GeneratorOptions{})
			}
			done <- true
		}()
	}
	for range 8 {
		<-done
	}
}''', flags="-race")

bug("v19-full-repetition", "V19", [("internal/regen/internal_generator.go", "		n := min + genArgs.rng.Intn(max-min+1)", "		n := min\n		if max > min {\n			n += genArgs.rng.Intn(max - min)\n		}")],
    "the largest number of repetitions is what is needed",
    "the largest allowed number of repetitions is never generated",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"string","pattern":"^a?b$"}`)
	for range 300 {
		if demoValue(t, g, &chaff.GeneratorOptions{}) == "ab" {
			return
		}
	}
	t.Fatal("ab is never generated")
}''')

bug("v22-alternatives-past-the-fourth", "V22", [("combination.go", "opts.Rand.RandomInt(0, len(g.Generators))", "opts.Rand.RandomInt(0, min(len(g.Generators), 4))")],
    "a schema with more than four alternatives",
    "alternatives after the fourth are never generated",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"anyOf":[{"const":1},{"const":2},{"const":3},{"const":4},{"const":5}]}`)
	for range 500 {
		if demoValue(t, g, &chaff.GeneratorOptions{}) == 5.0 {
			return
		}
	}
	t.Fatal("5 is never generated")
}''')

bug("v23-default-on-top-of-minimum", "V23", [("object.go", "	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)", "	max := util.GetInt(g.MaxProperties, g.MinProperties+opts.DefaultObjectMaxProperties)")],
    "a schema with minProperties but without maxProperties",
    "objects get more properties than the default maximum although that exceeds the minimum",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"object","minProperties":2,"additionalProperties":{"type":"null"}}`)
	for range 300 {
		if v := demoValue(t, g, &chaff.GeneratorOptions{DefaultObjectMaxProperties: 3}); len(v.(map[string]any)) > 3 {
			t.Fatal(v)
		}
	}
}''')

bug("v25-place-after-faulty-negation", "V25", [("not.go", '''		flatNot, err := mergeSchemaNodes(metadata, schemaNode{}, *raw)
		metadata.ReferenceHandler.PopFromPath(path)
		if err != nil {''', '''		flatNot, err := mergeSchemaNodes(metadata, schemaNode{}, *raw)
		if err == nil {
			metadata.ReferenceHandler.PopFromPath(path)
		}
		if err != nil {''')],
    "a negated schema that can not be combined (contradicting constants) and a fault elsewhere",
    "faults after a faulty negation are reported at the wrong place",
    '''func TestDemo(t *testing.T) {
	g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"object","properties":{"a":{"type":"object","properties":{"b":{"not":{"allOf":[{"const":1},{"const":2}]}}}}},"additionalProperties":{"type":"string","pattern":"("}}`)
	for place := range g.Metadata.Errors.CollectErrors() {
		if strings.HasSuffix(place, "#/additionalProperties") {
			return
		}
	}
	t.Fatal("not reported where it is", err, g.Metadata.Errors.CollectErrors())
}''')

# ---- third batch

bug("v08-repeated-value", "V08", [("constraint.go", '''		if _, exists := cc.notValueConstraints[value]; exists {
			continue
		}
''', '''		if _, exists := cc.notValueConstraints[value]; exists {
			break
		}
''')],
    "two negated lists of values that share a value before one that only the second one has",
    "values of a negated list that come after one that is negated already are generated",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"integer","minimum":1,"maximum":6,"allOf":[{"not":{"enum":[1,2]}},{"not":{"enum":[2,3]}}]}`, 300, func(v any) bool { return v != 1.0 && v != 2.0 && v != 3.0 })
}''')

bug("v12-scope-of-loaded-documents", "V12", [("document.go", '''			return nil, "", fmt.Errorf("failed to resolve document '%s': %w", documentID, err)
		}
	}

	subNode, err := resolveSubReferencePath(document, resolvedPath, "")
	if err != nil {
		return nil, "", fmt.Errorf("failed to resolve sub-reference path '%s' in document '%s': %w", resolvedPath, resolvedDocId, err)
	}

	// Shift the document scope so base url resolution works correctly
	r.SetDocumentBeingResolved(resolvedDocId)
''', '''			return nil, "", fmt.Errorf("failed to resolve document '%s': %w", documentID, err)
		}

		// Shift the document scope so base url resolution works correctly
		defer r.SetDocumentBeingResolved(resolvedDocId)
	}

	subNode, err := resolveSubReferencePath(document, resolvedPath, "")
	if err != nil {
		return nil, "", fmt.Errorf("failed to resolve sub-reference path '%s' in document '%s': %w", resolvedPath, resolvedDocId, err)
	}
''')],
    "a document that is combined (allOf) a second time and refers to its own definitions",
    "references of a document are looked up in the referring document from its second use on",
    '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(dir+"/other.json", []byte(`{"$defs":{"x":{"properties":{"v":{"$ref":"#/$defs/n"}},"required":["v"],"type":"object"},"n":{"const":"theirs"}}}`), 0600)
	g := demoParse(t, `{"$defs":{"n":{"const":"ours"}},"type":"object","properties":{"a":{"allOf":[{"$ref":"other.json#/$defs/x"},{"description":"d"}]},"b":{"allOf":[{"$ref":"other.json#/$defs/x"},{"description":"d"}]}},"required":["a","b"]}`, &chaff.ParserOptions{RelativeTo: "file://" + dir + "/root.json", DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}})
	for range 20 {
		v := demoValue(t, g, &chaff.GeneratorOptions{}).(map[string]any)
		for _, k := range []string{"a", "b"} {
			if v[k].(map[string]any)["v"] != "theirs" {
				t.Fatal(v)
			}
		}
	}
}''')

bug("v11-null-stays-on-the-stack", "V11", [("reference.go", '''	refResolver.PushRefResolution(g.Document, g.ReferenceStr)
	defer refResolver.PopRefResolution()

	return reference.Generator.Generate(opts)
''', '''	refResolver.PushRefResolution(g.Document, g.ReferenceStr)

	value := reference.Generator.Generate(opts)
	if value == nil {
		return nil
	}

	refResolver.PopRefResolution()
	return value
''')],
    "a reference to a schema that allows null, used twice in one value",
    "a reference that yielded null counts as cyclic from then on",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"$defs":{"n":{"type":["null","boolean"]}},"type":"array","items":{"$ref":"#/$defs/n"},"minItems":4}`, 100, func(v any) bool {
		for _, e := range v.([]any) {
			if _, ok := e.(string); ok {
				return false
			}
		}
		return true
	})
}''')

bug("v17-remembered-alternative", "V17", [("constraint.go", '''	oneOfConstraint struct {
		schemas []*jsonschemaV6.Schema
	}
''', '''	oneOfConstraint struct {
		schemas []*jsonschemaV6.Schema

		// How many of the schemas match the value that is checked
		matchingSchemas int
	}
'''), ("combination.go", '''	matchingSchemas := 0
	for _, schema := range oc.schemas {
		if schema.Validate(value) == nil {
			matchingSchemas++
		}

		if matchingSchemas > 1 {
			return false
		}

	}

	return matchingSchemas == 1
''', '''	oc.matchingSchemas = 0
	for _, schema := range oc.schemas {
		if schema.Validate(value) == nil {
			oc.matchingSchemas++
		}

		if oc.matchingSchemas > 1 {
			return false
		}

	}

	return oc.matchingSchemas == 1
''')],
    "one generator with oneOf shared by goroutines",
    "goroutines count the alternatives their values match in the same place",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"integer","minimum":0,"maximum":30,"oneOf":[{"maximum":20},{"minimum":10}]}`)
	bad := make(chan any, 1000)
	done := make(chan bool)
	for range 16 {
		go func() {
			for range 3000 {
				v, ok := g.Generate(&chaff.GeneratorOptions{}).(int)
				if !ok || v >= 10 && v <= 20 {
					select {
					case bad <- v:
					default:
					}
				}
			}
			done <- true
		}()
	}
	for range 16 {
		<-done
	}
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}''', flags="-race ")

bug("v04-unique-without-the-tuple", "V04", [("array.go", '''	currentItems := funk.Map(arrayData, util.MarshalJsonToString).([]string)
''', '''	firstItem := util.MinInt(len(g.TupleGenerators), len(arrayData))
	currentItems := funk.Map(arrayData[firstItem:], util.MarshalJsonToString).([]string)
''')],
    "uniqueItems next to a tuple and items that can be the same",
    "further items repeat the ones of the tuple",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"array","prefixItems":[{"enum":[1,2]}],"items":{"enum":[1,2,3]},"uniqueItems":true,"minItems":3,"maxItems":3}`, 200, func(v any) bool {
		l := v.([]any)
		return l[0] != l[1] && l[0] != l[2]
	})
}''')

bug("v21-schema-on-a-pipe-only", "V21", [("cli/cli.go", '''	return (stat.Mode() & os.ModeCharDevice) == 0
''', '''	return (stat.Mode() & os.ModeNamedPipe) != 0
''')],
    "a standard input that is a file (cli < schema.json)",
    "a redirected file is not read",
    '''package main

import (
	"os"
	"os/exec"
	"testing"
)

func TestDemo(t *testing.T) {
	bin := t.TempDir() + "/chaff"
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	name := t.TempDir() + "/s.json"
	os.WriteFile(name, []byte(`{"const":5}`), 0600)
	f, err := os.Open(name)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	cmd := exec.Command(bin)
	cmd.Stdin = f
	if out, err := cmd.Output(); err != nil || string(out) != "5" {
		t.Fatalf("%v %s", err, out)
	}
}''', pkg="cli/")

bug("v13-cli-insecure-means-any-host", "V13", [("cli/cli.go", '''		Enabled:       true,
		AllowedHosts:  parseCommaSeparatedList(allowedHosts),
		AllowInsecure: util.GetZeroIfNil(allowInsecure, false),
	}
''', '''		Enabled:       true,
		AllowedHosts:  parseCommaSeparatedList(allowedHosts)[:0:0],
		AllowInsecure: util.GetZeroIfNil(allowInsecure, false),
	}
''')],
    "the command line tool with -allowed-hosts and a reference to another host",
    "the hosts given to the command line tool are not enforced",
    '''package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	bin := t.TempDir() + "/chaff"
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	asked := 0
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		asked++
		fmt.Fprint(w, `{"const":1}`)
	}))
	defer server.Close()
	cmd := exec.Command(bin, "-allow-insecure", "-allowed-hosts", "example.com")
	cmd.Stdin = strings.NewReader(`{"$ref":"` + server.URL + `/x.json"}`)
	out, _ := cmd.CombinedOutput()
	if asked > 0 {
		t.Fatalf("asked a host that is not allowed: %s", out)
	}
}''', pkg="cli/")

bug("v24-global-order-of-conditions", "V24", [("if.go", '''		for _, constraintIdx := range generatorOptions.Rand.Rand.Perm(len(g.constraints)) {
''', '''		for _, constraintIdx := range rand.Perm(len(g.constraints)) {
'''), ("if.go", '''	"errors"
	"fmt"
''', '''	"errors"
	"fmt"
	"math/rand"
''')],
    "several conditions that draw from the source of randomness",
    "the order of conditions does not depend on the seed",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"object","properties":{"k":{"const":1}},"required":["k"],"allOf":[{"if":{"properties":{"k":{"const":1}}},"then":{"properties":{"a":{"type":"integer","minimum":0,"maximum":100000}},"required":["a"]}},{"if":{"properties":{"k":{"const":1}}},"then":{"properties":{"b":{"type":"integer","minimum":0,"maximum":100000}},"required":["b"]}}]}`)
	first := fmt.Sprint(demoValue(t, g, &chaff.GeneratorOptions{Rand: rand.NewRandUtil(7)}))
	for range 30 {
		if v := fmt.Sprint(demoValue(t, g, &chaff.GeneratorOptions{Rand: rand.NewRandUtil(7)})); v != first {
			t.Fatal(first, v)
		}
	}
}''', imports=["github.com/ryanolee/go-chaff/rand"])

bug("v02-time-zone", "V02", [("string.go", '''		return time.Unix(faker.UnixTime(), 0).Format(time.RFC3339)
''', '''		return time.Unix(faker.UnixTime(), 0).Format("2006-01-02T15:04:05Z0700")
''')],
    "a local time zone other than UTC",
    "the offset of a date-time has no colon",
    '''func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("demo", 5*3600+1800)
	demoEach(t, `{"type":"string","format":"date-time"}`, 50, func(v any) bool {
		_, err := time.Parse(time.RFC3339, v.(string))
		return err == nil
	})
}''', imports=["time"])

bug("v25-first-occurrence", "V25", [("reference_hander.go", '''	h.CurrentPath = h.CurrentPath[:len(h.CurrentPath)-len(pathPart)]
''', '''	h.CurrentPath = strings.Replace(h.CurrentPath, pathPart, "", 1)
''')],
    "a fault after a place whose name stands in its own path before (properties a / items / properties a)",
    "faults are reported at places that do not exist",
    '''func TestDemo(t *testing.T) {
	g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"object","properties":{"a":{"type":"array","items":{"type":"object","properties":{"a":{"type":"integer"}},"additionalProperties":{"type":"string","pattern":"("}}}}}`)
	for place := range g.Metadata.Errors.CollectErrors() {
		if strings.HasSuffix(place, "#/properties/a/items/additionalProperties") {
			return
		}
	}
	t.Fatal("not reported where it is", err, g.Metadata.Errors.CollectErrors())
}''')

bug("v19-class-past-the-thousandth", "V19", [("internal/regen/internal_generator.go", '''		if charClass.TotalSize > 100000 {
			i = args.rng.Int31n(93) + 32
		}
''', '''		if charClass.TotalSize > 10000 {
			i = args.rng.Int31n(93) + 32
		}
''')],
    "a character class of more than ten thousand characters that does not start at the first one",
    "only a few of the characters of a large class turn up",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"string","pattern":"^[\\\\x{4e00}-\\\\x{9fff}]$"}`)
	seen := map[any]bool{}
	for range 2000 {
		seen[g.Generate(&chaff.GeneratorOptions{})] = true
	}
	if len(seen) < 200 {
		t.Fatal("only ", len(seen))
	}
}''')

bug("v18-options-filled-in", "V18", [("root.go", """	opts = withGeneratorOptionsDefaults(*opts)
""", """	*opts = *withGeneratorOptionsDefaults(*opts)
""")],
    "options that are used again",
    "what the options leave open is filled in by generating",
    '''func TestDemo(t *testing.T) {
	opts := chaff.GeneratorOptions{}
	demoParse(t, `{"type":"integer"}`).Generate(&opts)
	if opts.Rand != nil || opts.MaximumReferenceDepth != 0 {
		t.Fatal("changed")
	}
}''')

bug("v14-endless-allof", "V14", [("merge.go", """		if metadata.ParseDepth > metadata.ParserOptions.MaxParseDepth {
			metadata.ParseDepth--
			break
		}
		extraNodes""", """		extraNodes""")],
    "x", "x", '''func TestDemo(t *testing.T) {}''')

# Demos that need an error report use this
REPORTED = '''
func demoReported(t *testing.T, schema string) {
	t.Helper()
	g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
	if err == nil && len(g.Metadata.Errors.CollectErrors()) == 0 {
		t.Fatalf("%s is not reported", schema)
	}
}
'''

bug("v03-required-but-empty", "V03", [("object.go", "	if node.MaxProperties != nil && len(requiredProperties) > maxProperties {", "	if maxProperties > 0 && len(requiredProperties) > maxProperties {")],
    "maxProperties: 0 together with required properties",
    "a contradiction between required and a maximum of no properties is not reported",
    REPORTED + '''
func TestDemo(t *testing.T) {
	demoReported(t, `{"type":"object","properties":{"a":{"type":"null"}},"required":["a"],"maxProperties":1,"allOf":[{"maxProperties":0}]}`)
	demoReported(t, `{"type":"object","properties":{"a":{"type":"null"}},"required":["a"],"maxProperties":0}`)
}''')

bug("v07-contained-least-of-the-last", "V07", [("merge.go", "	baseNode.MinContains = util.MaxFloatPtr(otherNode.MinContains, baseNode.MinContains)", "	baseNode.MinContains = util.GetPtr(otherNode.MinContains, baseNode.MinContains)"),
    ],
    "combined schemas with the same contains of which the later one asks for fewer matching items",
    "arrays hold fewer matching items than one of the combined schemas asks for",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"allOf":[{"type":"array","contains":{"const":7},"minContains":3,"maxItems":6},{"contains":{"const":7},"minContains":1}]}`, 300,
		func(v any) bool {
			n := 0
			for _, i := range v.([]any) {
				if i == 7.0 {
					n++
				}
			}
			return n >= 3
		})
}''')

bug("v07-two-patterns-silently", "V07", [("merge.go", '	warnIfBothSetAndAreDifferent(metadata, "pattern", baseNode.Pattern, otherNode.Pattern)\n', "")],
    "combined schemas with a pattern each",
    "only one of the patterns is kept and nothing is reported",
    '''func TestDemo(t *testing.T) {
	g, err := chaff.ParseSchemaString(`{"allOf":[{"type":"string","pattern":"^[ab]{4}$"},{"pattern":"^a"}]}`, &chaff.ParserOptions{})
	if err != nil || len(g.Metadata.Errors.CollectErrors()) > 0 {
		return
	}
	for range 300 {
		s, ok := g.Generate(&chaff.GeneratorOptions{}).(string)
		if !ok || len(s) != 4 || s[0] != 'a' || strings.Trim(s, "ab") != "" {
			t.Fatalf("generated %q", s)
		}
	}
}''')

bug("v22-days-of-the-epoch", "V22", [("string.go", "		return time.Unix(faker.UnixTime(), 0).Format(time.DateOnly)", "		return time.Unix(0, faker.UnixTime()).Format(time.DateOnly)")],
    "many values of the date format",
    "the date format always gives the same day",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"string","format":"date"}`)
	seen := map[any]bool{}
	for range 200 {
		seen[demoValue(t, g, &chaff.GeneratorOptions{})] = true
	}
	if len(seen) < 10 {
		t.Fatalf("only generated %v", seen)
	}
}''')

bug("v10-list-left-with-one-type", "V10", [("multiple_type.go", "	if len(generators) == 0 {", "	if len(generators) == 0 && len(typeErrors) > 1 {")],
    "a list with one type, none of whose values the other keywords allow",
    "a list of types that leaves nothing is not reported or breaks generation",
    REPORTED + '''
func TestDemo(t *testing.T) {
	demoReported(t, `{"type":["integer"],"minimum":5,"maximum":4}`)
	demoReported(t, `{"type":["array","string"],"minItems":5,"maxItems":4,"minLength":4,"maxLength":3}`)
}''')

bug("v19-options-mixed-up", "V19", [("parse.go", "	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)", "	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)")],
    "options for the expressions of strings together with patternProperties",
    "names of pattern properties are generated with the options for strings",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"object","patternProperties":{"^x+$":{"type":"null"}},"minProperties":2,"maxProperties":2}`, &chaff.ParserOptions{
		RegexStringOptions: &regen.GeneratorArgs{MaxUnboundedRepeatCount: 300, MinUnboundedRepeatCount: 200},
	})
	for range 50 {
		for name := range demoValue(t, g, &chaff.GeneratorOptions{}).(map[string]any) {
			if len(name) > 150 && name == strings.Repeat("x", len(name)) {
				t.Fatalf("name of %d characters", len(name))
			}
		}
	}
}''', imports=["github.com/ryanolee/go-chaff/internal/regen"])

bug("v21-empty-file-overwritten", "V21", [("cli/cli.go", '''	_, err := os.Stat(filepath)

	if !errors.Is(err, os.ErrNotExist) {''', '''	stat, err := os.Stat(filepath)

	if !errors.Is(err, os.ErrNotExist) && stat.Size() > 0 {''')],
    "an output file that exists and is empty",
    "an existing file is overwritten",
    '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	bin := filepath.Join(dir, "chaff")
	if out, err := exec.Command("go", "build", "-o", bin, "./cli").CombinedOutput(); err != nil {
		t.Fatalf("%s", out)
	}
	schema, target := filepath.Join(dir, "schema.json"), filepath.Join(dir, "out.json")
	os.WriteFile(schema, []byte(`{"const":4}`), 0o644)
	os.WriteFile(target, nil, 0o644)
	err := exec.Command(bin, "-file", schema, "-output", target).Run()
	if data, _ := os.ReadFile(target); err == nil || len(data) > 0 {
		t.Fatalf("existing file overwritten with %s", data)
	}
}''', imports=["os/exec", "path/filepath"])

bug("v23-no-room-above-minimum", "V23", [("object.go", "max = min + max", "max = min")],
    "minProperties above the default maximum and more properties to choose from",
    "no object has more members than minProperties asks for",
    '''func TestDemo(t *testing.T) {
	props := []string{}
	for i := range 40 {
		props = append(props, fmt.Sprintf(`"p%d":{"type":"null"}`, i))
	}
	g := demoParse(t, `{"type":"object","minProperties":12,"additionalProperties":false,"properties":{`+strings.Join(props, ",")+`}}`)
	for range 400 {
		if len(demoValue(t, g, &chaff.GeneratorOptions{}).(map[string]any)) > 12 {
			return
		}
	}
	t.Fatal("never more than 12 members")
}''')

bug("v01-truncated-lowest-multiple", "V01", [("number.go", "		return int(result)\n", "		return int(int32(result))\n")],
    "integers beyond 2^31",
    "large integers wrap around and leave their bounds",
    '''func TestDemo(t *testing.T) {
	demoEach(t, `{"type":"integer","minimum":3000000000,"maximum":3000000100}`, 50, func(v any) bool { return v.(float64) >= 3000000000 && v.(float64) <= 3000000100 })
}''')

bug("v11-nested-id-from-document", "V11", [("document.go", "resolved := resolveRelativeURI(nearestBaseURI(baseAtPath, path), idStr)", "resolved := resolveRelativeURI(baseURI, idStr)")],
    "a relative $id within a schema that has a $id with a directory of its own, referred to by its full address",
    "relative ids within ids are resolved against the document",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"$id":"https://a.example/s/root.json","$ref":"https://a.example/s/in/inner.json","$defs":{"o":{"$id":"in/outer.json","type":"object","$defs":{"i":{"$id":"inner.json","const":7}}}}}`)
	for range 20 {
		if v := demoValue(t, g, &chaff.GeneratorOptions{}); fmt.Sprint(v) != "7" {
			t.Fatalf("%v", v)
		}
	}
}''')

bug("v25-sixteen-reports", "V25", [("error.go", "	ec.Errors[document][path+subPath] = err\n", "	if len(ec.Errors[document]) < 16 {\n		ec.Errors[document][path+subPath] = err\n	}\n")],
    "more than sixteen faults in one document",
    "faults past the sixteenth are not reported",
    '''func TestDemo(t *testing.T) {
	props := []string{}
	for i := range 20 {
		props = append(props, fmt.Sprintf(`"p%d":{"type":"integer","minimum":3,"maximum":1}`, i))
	}
	g, _ := chaff.ParseSchemaStringWithDefaults(`{"type":"object","properties":{` + strings.Join(props, ",") + `}}`)
	if n := len(g.Metadata.Errors.CollectErrors()); n < 20 {
		t.Fatalf("%d of 20 faults are reported", n)
	}
}''')

bug("v04-distinct-from-recent-items", "V04", [("array.go", "currentItems := funk.Map(arrayData, util.MarshalJsonToString).([]string)", "currentItems := funk.Map(arrayData[max(0, len(arrayData)-32):], util.MarshalJsonToString).([]string)")],
    "uniqueItems in an array of more than 32 items",
    "items are only compared with the 32 before them",
    '''func TestDemo(t *testing.T) {
	g := demoParse(t, `{"type":"array","uniqueItems":true,"minItems":70,"maxItems":70,"items":{"type":"integer","minimum":1,"maximum":140}}`)
	for range 10 {
		seen := map[string]bool{}
		for _, x := range demoValue(t, g, &chaff.GeneratorOptions{}).([]any) {
			if seen[fmt.Sprint(x)] {
				t.Fatalf("%v twice", x)
			}
			seen[fmt.Sprint(x)] = true
		}
	}
}''')
