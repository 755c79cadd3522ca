package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- V19 strings generated from regular expressions

// rx is a regular expression made together with the set of words it stands for
type rx struct {
	pat   string
	words []string // nil: too many to list
	alt   bool     // needs parentheses
	atom  bool
}

const maxWords = 24

func rxUnion(lists ...[]string) []string {
	set := map[string]bool{}
	for _, l := range lists {
		if l == nil {
			return nil
		}
		for _, w := range l {
			set[w] = true
		}
	}
	out := []string{}
	for w := range set {
		out = append(out, w)
	}
	if len(out) > 4*maxWords {
		return nil
	}
	sort.Strings(out)
	return out
}

func rxProduct(a, b []string) []string {
	if a == nil || b == nil || len(a)*len(b) > 20*maxWords {
		return nil
	}
	out := []string{}
	for _, x := range a {
		for _, y := range b {
			out = append(out, x+y)
		}
	}
	return rxUnion(out)
}

func rxLit(s string) rx {
	return rx{pat: regexp.QuoteMeta(s), words: []string{s}, atom: utf8.RuneCountInString(s) == 1}
}

func (x rx) group(r *mrand.Rand) string {
	switch {
	case x.atom:
		return x.pat
	case r.Intn(2) == 0:
		return "(" + x.pat + ")"
	}
	return "(?:" + x.pat + ")"
}

func rxClass(r *mrand.Rand) rx {
	type kind struct{ pat, members string }
	k := pick(r,
		kind{"[abc]", "abc"}, kind{"[a-d]", "abcd"}, kind{"[0-3]", "0123"}, kind{"[b-dB-D]", "bcdBCD"}, kind{"[-x]", "-x"}, kind{"[x-]", "-x"}, kind{"[\\]\\[]", "[]"},
		kind{"[a\\-c]", "a-c"}, kind{"[é-í]", "éêëìí"}, kind{"[^\\x00-\\x60\\x64-\\x{10FFFF}]", "abc"}, kind{"[xx-y]", "xy"}, kind{"[日本]", "日本"}, kind{"[\\x41-\\x43]", "ABC"}, kind{"[.]", "."}, kind{"[$^]", "$^"}, kind{"[aA]", "aA"}, kind{"\\d", "0123456789"}, kind{"[[:digit:]]", "0123456789"})
	out := rx{pat: k.pat, atom: true}
	for _, m := range k.members {
		out.words = append(out.words, string(m))
	}
	return out
}

func rxRandom(r *mrand.Rand, depth int) rx {
	if depth <= 0 {
		if r.Intn(2) == 0 {
			return rxClass(r)
		}
		return rxLit(pick(r, "a", "b", "ab", "x", "0", "-", ".", "é", "foo", "far", "[", "\\", "日", "/", "\t", "A"))
	}
	switch r.Intn(6) {
	case 0, 1:
		n := 2 + r.Intn(3)
		pats, lists := []string{}, [][]string{}
		for range n {
			s := rxRandom(r, depth-1-r.Intn(2))
			p := s.pat
			if s.alt {
				p = s.group(r)
			}
			pats = append(pats, p)
			lists = append(lists, s.words)
		}
		if r.Intn(6) == 0 {
			pats = append(pats, "")
			lists = append(lists, []string{""})
		}
		return rx{pat: strings.Join(pats, "|"), words: rxUnion(lists...), alt: true}
	case 2, 3:
		n := 2 + r.Intn(2)
		out := rx{words: []string{""}}
		for range n {
			s := rxRandom(r, depth-1-r.Intn(2))
			p := s.pat
			if s.alt {
				p = s.group(r)
			}
			out.pat += p
			out.words = rxProduct(out.words, s.words)
		}
		return out
	case 4:
		s := rxRandom(r, depth-1-r.Intn(2))
		return rx{pat: s.group(r) + "?", words: rxUnion([]string{""}, s.words)}
	default:
		s := rxRandom(r, depth-1-r.Intn(2))
		lo := r.Intn(3)
		hi := lo + r.Intn(3)
		pat := fmt.Sprintf("{%d,%d}", lo, hi)
		if lo == hi {
			pat = fmt.Sprintf("{%d}", lo)
		}
		words := []string{}
		power := []string{""}
		for i := 0; i <= hi; i++ {
			if i >= lo {
				words = rxUnion(words, power)
			}
			if i < hi {
				power = rxProduct(power, s.words)
			}
		}
		return rx{pat: s.group(r) + pat, words: words}
	}
}

func regexOpts(t *T, text string) *chaff.ParserOptions {
	o := &chaff.ParserOptions{}
	if text != "" {
		if err := json.Unmarshal([]byte(fmt.Sprintf(`{"regexStringOptions":%s,"regexPatternPropertyOptions":%s}`, text, text)), o); err != nil {
			panic(err)
		}
	}
	return o
}

// words generates n strings for a pattern and hands them to the monitor
func generatedWords(t *T, schema M, o *chaff.ParserOptions, n int, words func(v any) []string, watch func(w string) string) map[string]int {
	text := toJSON(schema)
	g, err := chaff.ParseSchemaString(text, o)
	if errs := metaErrors(g); err != nil || len(errs) > 0 {
		t.Violate("spurious-error", text, "", "a valid pattern is reported: %v %s", err, strings.Join(errs, "; "))
		return nil
	}
	seen := map[string]int{}
	for range n {
		opts := chaff.GeneratorOptions{}
		opts.Rand, _ = newCountingRand(t.Rng.Int63(), 0)
		for _, w := range words(g.Generate(&opts)) {
			seen[w]++
			if seen[w] == 1 {
				t.Event("strings", w)
				if msg := watch(w); msg != "" {
					t.Violate("monitor", text, w, "%q %s", w, msg)
				}
			}
		}
	}
	for w := range seen {
		t.Sample(text, w)
		break
	}
	return seen
}

func theString(v any) []string {
	s, ok := v.(string)
	if !ok {
		return []string{fmt.Sprintf("(%T)", v)}
	}
	return []string{s}
}

func theKeys(v any) []string {
	m, ok := v.(map[string]interface{})
	if !ok {
		return []string{fmt.Sprintf("(%T)", v)}
	}
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	return out
}

func regexCases(cfg Cfg) []Case {
	cases := []Case{}
	full := func(p string) func(w string) string {
		re := regexp.MustCompile(`\A(?:` + p + `)\z`)
		return func(w string) string {
			if !utf8.ValidString(w) {
				return "is not valid UTF-8"
			}
			if !re.MatchString(w) {
				return "is not matched by the pattern from its first to its last character"
			}
			return ""
		}
	}
	// small languages: exactly the words of the language turn up
	language := func(id, pattern string, words []string, opts string, n int) {
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			want := map[string]bool{}
			for _, w := range words {
				want[w] = true
			}
			in := func(w string) string {
				if !want[w] {
					return fmt.Sprintf("is none of the %d words of the pattern", len(words))
				}
				return ""
			}
			seen := generatedWords(t, M{"type": "string", "pattern": pattern}, regexOpts(t, opts), n, theString, in)
			if seen == nil {
				return
			}
			for _, w := range words {
				if seen[w] == 0 {
					t.Violate("unreachable", toJSON(M{"pattern": pattern}), w, "%q is never generated in %d attempts, %d of %d words are", w, n, len(seen), len(words))
					return
				}
			}
			t.Count("languages covered", 1)
			// the same words as names of properties
			keys := generatedWords(t, M{"type": "object", "patternProperties": M{pattern: M{"type": "null"}}, "minProperties": 1, "maxProperties": 1, "additionalProperties": false}, regexOpts(t, opts), n/4, theKeys, in)
			if len(keys) > 0 && len(keys)*2 < len(words) {
				t.Violate("unreachable", toJSON(M{"patternProperties": M{pattern: M{}}}), "", "%d of %d words turn up as names in %d objects", len(keys), len(words), n/4)
			}
		}})
	}
	for i := range cfg.Scale(300, 6000) {
		id := fmt.Sprintf("language-%04d", i)
		r := subRng(cfg.Seed, "V19", id)
		x := rxRandom(r, 1+r.Intn(3))
		for len(x.words) > maxWords || len(x.words) == 0 {
			x = rxRandom(r, 1+r.Intn(3))
		}
		p := x.pat
		switch r.Intn(4) {
		case 0:
			p = "^(?:" + p + ")$"
		case 1:
			p = "^" + x.group(r) + "$"
		case 2:
			p = "\\A" + x.group(r) + "\\z"
		}
		if !x.alt && r.Intn(2) == 0 {
			p = "^" + x.pat + "$"
		}
		if p == "" {
			continue
		}
		language(id, p, x.words, "", 4000)
	}
	// members of classes
	for i, c := range []struct{ pat, members string }{
		{"[a-z]", "abcdefghijklmnopqrstuvwxyz"}, {"\\d", "0123456789"}, {"[[:xdigit:]]", "0123456789abcdefABCDEF"}, {"\\w", "0123456789abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ"},
		{".", "0123456789abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ"}, {"[A-Fa-f]", "ABCDEFabcdef"}, {"[!-/]", "!\"#$%&'()*+,-./"}, {"[α-ω]", "αβγδεζηθικλμνξοπρςστυφχψω"},
		{"[^\\x00-@\\x5b-\\x{10FFFF}]", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}, {"[a-cx-z0-2]", "abcxyz012"}, {"(?i)k", "kK\u212a"}, {"(?i)ab", "a"}, {"[\\s]", "\t\n\f\r "}, {"\\s", "\t\n\f\r "}, {"[😀-😄]", "😀😁😂😃😄"},
		{"(?i)[xyz]", "xyzXYZ"}, {"[+--]", "+,-"}, {"[\\w.]", "0123456789abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ."}, {"[\\d-]", "0123456789-"},
	} {
		words := []string{}
		for _, m := range c.members {
			words = append(words, string(m))
		}
		if c.pat == "(?i)ab" {
			words = []string{"ab", "aB", "Ab", "AB"}
		}
		language(fmt.Sprintf("class-%02d", i), "^"+c.pat+"$", words, "", 6000)
		if c.pat != "." {
			language(fmt.Sprintf("class-alone-%02d", i), c.pat, words, "", 6000)
		}
	}
	// many alternatives, of words that have no letter in common
	for i, n := range []int{12, 33, 48, 70, 100} {
		words := []string{}
		for k := range n {
			words = append(words, fmt.Sprintf("%s%d%c", []string{"ab", "Z", "", "q.", "mm-"}[k%5], (k*7919)%1000, 'a'+rune(k%26)))
		}
		quoted := []string{}
		for _, w := range words {
			quoted = append(quoted, regexp.QuoteMeta(w))
		}
		language(fmt.Sprintf("alternatives-%d", i), "^("+strings.Join(quoted, "|")+")$", words, "", 6000)
	}
	// longer words that ignore case
	for i, w := range []string{"abc", "hallo", "zürich", "aeioubdf"} {
		words := []string{""}
		for _, c := range w {
			longer := []string{}
			for _, w := range words {
				longer = append(longer, w+string(c), w+strings.ToUpper(string(c)))
			}
			words = longer
		}
		language(fmt.Sprintf("folded-%d", i), "^(?i)"+w+"$", words, "", 8000)
		inner := []string{}
		for _, w := range words {
			inner = append(inner, "x"+w+"y")
		}
		language(fmt.Sprintf("folded-group-%d", i), "^x(?i:"+w+")y$", inner, "", 8000)
	}
	// members of large classes: all parts of them
	for i, c := range []struct {
		pat    string
		ranges [][2]rune
	}{
		{"[\\x{4e00}-\\x{9fff}]", [][2]rune{{0x4e00, 0x9fff}}}, {"[一-龥]", [][2]rune{{0x4e00, 0x9fa5}}}, {"[\\x{100}-\\x{d7ff}]", [][2]rune{{0x100, 0xd7ff}}}, {"[a-c\\x{400}-\\x{4ff}\\x{2000}-\\x{3fff}]", [][2]rune{{'a', 'c'}, {0x400, 0x4ff}, {0x2000, 0x3fff}}},
		{"[\\x{ac00}-\\x{d7a3}]", [][2]rune{{0xac00, 0xd7a3}}}, {"[!-\\x{d7ff}]", [][2]rune{{'!', 0xd7ff}}}, {"[\\x{e000}-\\x{fffd}\\x{10000}-\\x{1ffff}]", [][2]rune{{0xe000, 0xfffd}, {0x10000, 0x1ffff}}}, {"[\\x{80}-\\x{7ff}]", [][2]rune{{0x80, 0x7ff}}}, {"[^\\x00-\\x{ffff}\\x{18000}-\\x{10ffff}]", [][2]rune{{0x10000, 0x17fff}}},
		{"[\\x{1000}-\\x{19000}]", [][2]rune{{0x1000, 0xd7ff}, {0xe000, 0x19000}}},
	} {
		cases = append(cases, Case{ID: fmt.Sprintf("large-class-%02d", i), Run: func(t *T) {
			total := 0
			for _, r := range c.ranges {
				total += int(r[1]-r[0]) + 1
			}
			if total > 100000 {
				panic("harness: only a part of larger classes is used")
			}
			parts := map[int]bool{}
			re := regexp.MustCompile("^" + c.pat + "$")
			generatedWords(t, M{"type": "string", "pattern": "^" + c.pat + "$"}, &chaff.ParserOptions{}, 4000, theString, func(w string) string {
				if !re.MatchString(w) {
					return "is no member of the class"
				}
				n := 0
				for _, r := range c.ranges {
					for _, x := range w {
						if x >= r[0] && x <= r[1] {
							parts[(n+int(x-r[0]))*64/total] = true
						}
					}
					n += int(r[1]-r[0]) + 1
				}
				return ""
			})
			if len(parts) < 64 {
				t.Violate("unreachable", c.pat, fmt.Sprint(len(parts)), "only %d of the 64 parts of a class of %d characters turn up in 4000", len(parts), total)
			}
		}})
	}
	// numbers of repetitions under the options
	for _, lim := range [][2]int{{0, 0}, {0, 1}, {0, 3}, {0, 25}, {1, 4}, {2, 2}, {3, 9}, {5, 30}} {
		opts := fmt.Sprintf(`{"minUnboundedRepeatCount":%d,"maxUnboundedRepeatCount":%d,"suppressRandomBytes":true}`, lim[0], lim[1])
		lo, hi := lim[0], lim[1]
		if lo == 0 && hi == 0 {
			opts, hi = "", 10
		}
		for i, p := range []struct {
			pat, unit string
			lo, hi    int
			exact     bool
		}{
			{"^a*$", "a", lo, hi, true}, {"a*", "a", lo, hi, true}, {"^(a)*$", "a", lo, hi, true}, {"^(ab)*$", "ab", lo, hi, true}, {"^a+$", "a", 1, hi, true}, {"^(abc)+$", "abc", 1, hi, true},
			{"^a{3}$", "a", 3, 3, true}, {"^a{2,5}$", "a", 2, 5, true}, {"^a{0,4}$", "a", 0, 4, true}, {"^(ab){1,7}$", "ab", 1, 7, true}, {"^a?$", "a", 0, 1, true}, {"^a{12,20}$", "a", 12, 20, true},
			{"^a{1,}$", "a", 1, hi, true}, {"^a{0,}$", "a", lo, hi, true}, {"^a{3,}$", "a", 3, 3 + hi, false}, {"^a{12,}$", "a", 12, 12 + hi, false}, {"^a{50}$", "a", 50, 50, true},
		} {
			cases = append(cases, Case{ID: fmt.Sprintf("repeat-%d-%d-%02d", lim[0], lim[1], i), Run: func(t *T) {
				schema := M{"type": "string", "pattern": p.pat}
				counts := map[int]bool{}
				seen := generatedWords(t, schema, regexOpts(t, opts), 8000, theString, func(w string) string {
					n := len(w) / len(p.unit)
					if strings.Repeat(p.unit, n) != w {
						return fmt.Sprintf("is not made of %q only", p.unit)
					}
					if n < p.lo || n > p.hi {
						return fmt.Sprintf("repeats %q %d times, from %d to %d are allowed (options %s)", p.unit, n, p.lo, p.hi, opts)
					}
					counts[n] = true
					return ""
				})
				if seen == nil || t.Failed() {
					return
				}
				for n := p.lo; n <= p.hi; n++ {
					if p.exact && !counts[n] {
						t.Violate("unreachable", toJSON(schema), "", "%d repetitions of %q never turn up, the numbers that do are %d of %d (options %s)", n, p.unit, len(counts), p.hi-p.lo+1, opts)
						return
					}
				}
				if !p.exact && (!counts[p.lo] || hi > 1 && len(counts) < 2) {
					t.Violate("unreachable", toJSON(schema), "", "only %d numbers of repetitions turn up (options %s)", len(counts), opts)
				}
			}})
		}
	}
	// the options of strings and those of property names are independent of each other
	counts := func(r *mrand.Rand) (string, int, int) {
		lo, hi := r.Intn(3), 3+r.Intn(4)
		return pick(r, fmt.Sprintf(`{"minUnboundedRepeatCount":%d,"maxUnboundedRepeatCount":%d}`, lo, hi), fmt.Sprintf(`{"maxUnboundedRepeatCount":%d,"minUnboundedRepeatCount":%d,"suppressRandomBytes":true}`, hi, lo)), lo, hi
	}
	for i := range cfg.Scale(24, 300) {
		id := fmt.Sprintf("two-options-%03d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := subRng(cfg.Seed, "V19", id)
			so, slo, shi := counts(r)
			no, nlo, nhi := counts(r)
			switch i % 4 {
			case 1:
				so, slo, shi = "", 0, 10
			case 2:
				no, nlo, nhi = "", 0, 10
			}
			o, parts := &chaff.ParserOptions{}, []string{}
			if so != "" {
				parts = append(parts, `"regexStringOptions":`+so)
			}
			if no != "" {
				parts = append(parts, `"regexPatternPropertyOptions":`+no)
			}
			if err := json.Unmarshal([]byte("{"+strings.Join(parts, ",")+"}"), o); err != nil {
				panic(err)
			}
			schema := M{"type": "object", "properties": M{"text": M{"type": "string", "pattern": "^a*$"}, "list": M{"type": "array", "items": M{"type": "string", "pattern": "^a*$"}}}, "required": A{"text", "list"}, "patternProperties": M{"^nb*$": M{"type": "string", "pattern": "^a*$"}}, "minProperties": 3, "maxProperties": 4, "additionalProperties": false}
			texts, names := map[int]bool{}, map[int]bool{}
			words := func(v any) []string {
				out := []string{}
				for k, e := range v.(map[string]any) {
					if k != "text" && k != "list" {
						out = append(out, k)
					}
					if l, ok := e.([]any); ok {
						for _, x := range l {
							out = append(out, x.(string))
						}
					} else {
						out = append(out, e.(string))
					}
				}
				return out
			}
			generatedWords(t, schema, o, 900, words, func(w string) string {
				if strings.HasPrefix(w, "n") {
					names[len(w)-1] = true
					if len(w)-1 < nlo || len(w)-1 > nhi {
						return fmt.Sprintf("is a name that repeats %d times, the options %q ask for %d to %d", len(w)-1, no, nlo, nhi)
					}
					return ""
				}
				texts[len(w)] = true
				if len(w) < slo || len(w) > shi {
					return fmt.Sprintf("is a text that repeats %d times, the options %q ask for %d to %d", len(w), so, slo, shi)
				}
				return ""
			})
			if !t.Failed() && (len(texts) != shi-slo+1 || len(names) != nhi-nlo+1) {
				t.Violate("unreachable", toJSON(schema), "", "%d numbers of repetitions in texts and %d in names turn up, of %d and %d (options %q, %q)", len(texts), len(names), shi-slo+1, nhi-nlo+1, so, no)
			}
		}})
	}
	// what takes the place of any character
	for i, o := range []struct {
		opts string
		in   string
	}{
		{"", `^\w$`}, {`{"suppressRandomBytes":true}`, `^\w$`}, {`{"limitToAscii":true}`, `^[ -~]$`}, {`{"suppressRandomBytes":true,"limitToAscii":true}`, `^\w$`}, {`{}`, `^[^\n]$`},
	} {
		for j, p := range []string{"^.$", ".", "^(?s:.)$", "^(.)$", "^(.|.)$"} {
			if o.opts != "" && j == 2 {
				continue // needs syntax that options given by name do not switch on
			}
			cases = append(cases, Case{ID: fmt.Sprintf("dot-%d-%d", i, j), Run: func(t *T) {
				re := regexp.MustCompile(o.in)
				seen := generatedWords(t, M{"type": "string", "pattern": p}, regexOpts(t, o.opts), 3000, theString, func(w string) string {
					if !re.MatchString(w) {
						return fmt.Sprintf("is not in %s, which the options %s limit it to", o.in, o.opts)
					}
					return ""
				})
				if seen != nil && len(seen) < 40 {
					t.Violate("unreachable", p, "", "only %d different characters turn up in 3000 (options %s)", len(seen), o.opts)
				}
			}})
		}
	}
	// everyday patterns and larger random ones: matched as a whole
	for i, p := range goodPatterns {
		cases = append(cases, Case{ID: fmt.Sprintf("whole-%02d", i), Run: func(t *T) {
			for _, o := range []string{"", `{"limitToAscii":true}`, `{"maxUnboundedRepeatCount":40,"suppressRandomBytes":true}`, `{"maxUnboundedRepeatCount":2}`, `{"minUnboundedRepeatCount":2,"maxUnboundedRepeatCount":3}`} {
				po := regexOpts(t, o)
				if o != "" && strings.ContainsAny(p, "\\?") {
					continue // options given by name do not switch on the syntax such patterns need
				}
				generatedWords(t, M{"type": "string", "pattern": p}, po, 300, theString, full(p))
			}
		}})
	}
	for i := range cfg.Scale(500, 10000) {
		id := fmt.Sprintf("random-%05d", i)
		r := subRng(cfg.Seed, "V19", id)
		p := ""
		for range 1 + r.Intn(4) {
			x := rxRandom(r, 2+r.Intn(3))
			g := x.group(r)
			p += g + pick(r, "", "", "*", "+", "?", "{2,}", "{1,3}")
		}
		if r.Intn(2) == 0 {
			p = "^" + p + "$"
		}
		if p == "" {
			continue
		}
		if _, err := regexp.Compile(p); err != nil {
			continue // repeats of repeats
		}
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			generatedWords(t, M{"type": "string", "pattern": p}, regexOpts(t, ""), 150, theString, full(p))
		}})
	}
	longRepeats(cfg, language)
	// one expression, parsed again with other options: each time those count
	for i := range cfg.Scale(24, 300) {
		id := fmt.Sprintf("options-in-turn-%03d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			r := subRng(cfg.Seed, "V19", id)
			prefix := fmt.Sprintf("%s%d-", pick(r, "p", "é", "qq"), i)
			schema := M{"type": "string", "pattern": "^" + prefix + "a*$"}
			if i%3 == 2 {
				schema = M{"type": "object", "patternProperties": M{"^" + prefix + "a*$": M{"type": "null"}}, "minProperties": 1, "maxProperties": 1, "additionalProperties": false}
			}
			for turn := range 2 + r.Intn(4) {
				opts, lo, hi := counts(r)
				if r.Intn(3) == 0 || turn == 1 {
					opts, lo, hi = "", 0, 10
				}
				words := theString
				if i%3 == 2 {
					words = theKeys
				}
				seen := generatedWords(t, schema, regexOpts(t, opts), 400, words, func(w string) string {
					n := len(w) - len(prefix)
					if n < lo || n > hi {
						return fmt.Sprintf("repeats %d times, the options %q of turn %d ask for %d to %d", n, opts, turn, lo, hi)
					}
					return ""
				})
				if seen == nil || t.Failed() {
					return
				}
				if len(seen) != hi-lo+1 {
					t.Violate("unreachable", toJSON(schema), "", "%d numbers of repetitions of %d turn up in turn %d (options %q)", len(seen), hi-lo+1, turn, opts)
					return
				}
			}
		}})
	}
	return cases
}

func init() {
	register(Check{Prop: "V19", Rule: "a distinct string generated for one pattern and option set, one of the words of the pattern (listed independently where there are few) or matched by it as a whole; all words, class members and repetition counts have to turn up", Cases: regexCases})
}
