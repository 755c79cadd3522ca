package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"slices"
	"sort"
	"strings"
	"sync/atomic"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// Texts the library puts in the place of values it could not generate
var markers = []string{
	"Cyclic reference found", "Maximum reference resolution depth", "Unresolvable reference", "Failed to generate",
	"Warning: Unable to generate", "Known but unsupported format", "Unsupported Format",
}

func isMarker(s string) bool {
	for _, m := range markers {
		if strings.HasPrefix(s, m) {
			return true
		}
	}
	return false
}

func findMarker(v any) string {
	switch x := v.(type) {
	case string:
		if isMarker(x) {
			return x
		}
	case []any:
		for _, e := range x {
			if m := findMarker(e); m != "" {
				return m
			}
		}
	case map[string]any:
		for k, e := range x {
			if isMarker(k) {
				return k
			}
			if m := findMarker(e); m != "" {
				return m
			}
		}
	}
	return ""
}

// docs are further documents the schema refers to by absolute url
func compileOracle(schema string, url string, docs map[string]string) (*js.Schema, error) {
	c := js.NewCompiler()
	c.DefaultDraft(js.Draft2020)
	c.AssertFormat()
	c.UseLoader(denyLoader{})
	for u, d := range docs {
		doc, err := js.UnmarshalJSON(strings.NewReader(d))
		if err != nil {
			return nil, err
		}
		if err := c.AddResource(u, doc); err != nil {
			return nil, err
		}
	}
	doc, err := js.UnmarshalJSON(strings.NewReader(schema))
	if err != nil {
		return nil, err
	}
	if url == "" {
		url = "mem:///schema.json"
	}
	if err := c.AddResource(url, doc); err != nil {
		return nil, err
	}
	return c.Compile(url)
}

type denyLoader struct{}

func (denyLoader) Load(url string) (any, error) { return nil, fmt.Errorf("not loading %s", url) }

// countingSource counts draws, and can make the source hostile by returning extreme values at times
type countingSource struct {
	src     mrand.Source64
	draws   int64
	hostile int // percentage of draws that are extreme values
}

func (s *countingSource) Int63() int64 {
	atomic.AddInt64(&s.draws, 1)
	v := s.src.Int63()
	if s.hostile > 0 {
		h := s.src.Int63() >> 16
		if int(h%100) < s.hostile {
			switch (h / 100) % 4 {
			case 0:
				return 0
			case 1: // the largest value Intn and Float64 accept without drawing again
				return 1<<63 - 1<<12
			case 2:
				return 1 << 33
			default:
				return 1 << 62
			}
		}
	}
	return v
}
func (s *countingSource) Uint64() uint64  { return uint64(s.Int63()) << 1 }
func (s *countingSource) Seed(seed int64) { s.src.Seed(seed) }

func newCountingRand(seed int64, hostile int) (*rand.RandUtil, *countingSource) {
	src := &countingSource{src: mrand.NewSource(seed).(mrand.Source64), hostile: hostile}
	return &rand.RandUtil{Source: src, Rand: mrand.New(src)}, src
}

type GenOpt struct {
	Name    string
	Opts    chaff.GeneratorOptions
	Hostile int
	NoSeed  bool // leave Rand unset
}

func plainOpts() []GenOpt { return []GenOpt{{Name: "default"}} }

// cli: the limits of the command line tool
func cliOpts() GenOpt {
	return GenOpt{Name: "cli", Opts: chaff.GeneratorOptions{MaximumGenerationSteps: 1000, CutoffGenerationSteps: 100000}}
}

// stdOpts are option sets that must never make a value invalid
func stdOpts() []GenOpt {
	return []GenOpt{
		{Name: "default"},
		{Name: "hostile", Hostile: 30},
		cliOpts(),
		{Name: "minimal", Opts: chaff.GeneratorOptions{MaximumGenerationSteps: 1, CutoffGenerationSteps: 100000}},
		{Name: "roomy", Opts: chaff.GeneratorOptions{MaximumGenerationSteps: 5000, CutoffGenerationSteps: 100000, DefaultArrayMinItems: 1, DefaultArrayMaxItems: 4, DefaultObjectMinProperties: 3, DefaultObjectMaxProperties: 8}},
	}
}

type Expect int

const (
	Clean    Expect = iota // parsing reports nothing and every value is valid
	Reported               // an error is returned or recorded
	Any                    // no claim about errors, values must be valid
)

// SchemaCase runs one schema through the parser and the generator and watches every value
type SchemaCase struct {
	ID      string
	Schema  string
	Docs    map[string]string // documents of the oracle
	URL     string
	Parse   func() *chaff.ParserOptions
	Opts    []GenOpt
	N       int
	Expect  Expect
	Markers bool // markers are tolerated (and counted)
	// Monitor is an extra oracle, v is the value decoded with json.Number
	Monitor func(v any, raw []byte) string
	// Final looks at all values of the case (distinct raw json -> count)
	Final    func(t *T, seen map[string]int)
	NoOracle bool
	// SkipReported: where something is reported nothing is claimed about the values
	SkipReported bool
	// Still: the values of a schema that is to be reported conform nevertheless
	Still bool
	// Tolerate says which reported errors do not count
	Tolerate func(e string) bool
	// SkipIf: nothing is claimed where such an error is reported
	SkipIf func(e string) bool
	Raw    func(t *T, g chaff.RootGenerator) // more monitors on the generator
}

func (sc SchemaCase) Case() Case {
	return Case{ID: sc.ID, Run: func(t *T) {
		sc.run(t)
		if v, ok := sc.variant(t); ok && !t.Failed() {
			t.Count("equivalent schemas", 1)
			v.run(t)
		}
	}}
}

func metaErrors(g chaff.RootGenerator) []string {
	if g.Metadata == nil || g.Metadata.Errors == nil || !g.Metadata.Errors.HasErrors() {
		return nil
	}
	out := []string{}
	for k, v := range g.Metadata.Errors.CollectErrors() {
		out = append(out, k+": "+v.Error())
	}
	sort.Strings(out)
	return out
}

func (sc SchemaCase) run(t *T) {
	n := sc.N
	if n == 0 {
		n = 60
	}
	if sc.Opts == nil {
		sc.Opts = stdOpts()
	}
	var oracle *js.Schema
	if !sc.NoOracle && (sc.Expect != Reported || sc.Still) {
		var err error
		oracle, err = compileOracle(sc.Schema, sc.URL, sc.Docs)
		if err != nil {
			panic(fmt.Sprintf("harness: the oracle does not accept %s: %v", sc.Schema, err))
		}
	}
	opts := &chaff.ParserOptions{}
	if sc.Parse != nil {
		opts = sc.Parse()
	}
	g, err := chaff.ParseSchemaString(sc.Schema, opts)
	errs := metaErrors(g)
	if err != nil {
		errs = append(errs, err.Error())
	}
	if sc.SkipIf != nil && slices.ContainsFunc(errs, sc.SkipIf) {
		t.Count("skipped because of reported errors", 1)
		return
	}
	if sc.Tolerate != nil {
		kept := []string{}
		for _, e := range errs {
			if sc.Tolerate(e) {
				t.Count("tolerated reports", 1)
			} else {
				kept = append(kept, e)
			}
		}
		errs = kept
	}
	switch sc.Expect {
	case Clean:
		if len(errs) > 0 {
			t.Violate("spurious-error", sc.Schema, "", "errors reported for a satisfiable supported schema: %s", clip(strings.Join(errs, "; "), 600))
			return
		}
	case Reported:
		if len(errs) == 0 {
			v, _ := json.Marshal(g.GenerateWithDefaults())
			t.Violate("unreported", sc.Schema, string(v), "nothing was reported for a schema that can not be satisfied or is not supported")
		} else {
			t.Event("reported", clip(strings.Join(errs, ";"), 300))
			t.Sample(sc.Schema, clip(strings.Join(errs, ";"), 150))
			if sc.Still && err == nil {
				break
			}
		}
		return
	}
	if sc.SkipReported && len(errs) > 0 {
		t.Count("skipped because of reported errors", 1)
		return
	}
	sc.generate(t, g, oracle, n)
}

func (sc SchemaCase) generate(t *T, g chaff.RootGenerator, oracle *js.Schema, n int) {
	seen := map[string]int{}
	for _, o := range sc.Opts {
		per := n
		if o.Name != "default" {
			per = (n + 2) / 3
		}
		for i := 0; i < per; i++ {
			opts := o.Opts
			seed := t.Rng.Int63()
			if !o.NoSeed {
				opts.Rand, _ = newCountingRand(seed, o.Hostile)
			}
			v := g.Generate(&opts)
			raw, err := json.Marshal(v)
			if err != nil {
				t.Violate("not-json", sc.Schema, fmt.Sprintf("%#v", v), "generated value can not be encoded as JSON: %v (options %s)", err, o.Name)
				continue
			}
			seen[string(raw)]++
			t.Event("values:"+o.Name, string(raw))
			t.Sample(sc.Schema, string(raw))
			iv, err := js.UnmarshalJSON(bytes.NewReader(raw))
			if err != nil {
				t.Violate("not-json", sc.Schema, string(raw), "encoded value is not JSON: %v", err)
				continue
			}
			if m := findMarker(iv); m != "" {
				t.Count("markers", 1)
				if !sc.Markers {
					t.Violate("marker", sc.Schema, string(raw), "failure text in the place of a value: %s (options %s)", clip(m, 200), o.Name)
					continue
				}
				continue
			}
			if oracle != nil {
				if err := oracle.Validate(iv); err != nil {
					t.Violate("invalid", sc.Schema, string(raw), "generated value does not validate (options %s): %s", o.Name, clip(err.Error(), 400))
					continue
				}
			}
			if sc.Monitor != nil {
				if msg := sc.Monitor(iv, raw); msg != "" {
					t.Violate("monitor", sc.Schema, string(raw), "%s (options %s)", msg, o.Name)
				}
			}
		}
	}
	if sc.Final != nil && !t.Failed() {
		sc.Final(t, seen)
	}
	if sc.Raw != nil {
		sc.Raw(t, g)
	}
}

func strReader(s string) *strings.Reader { return strings.NewReader(s) }
