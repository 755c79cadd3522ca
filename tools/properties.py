#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below, so that they stay in step."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], observe=observe, state=list(state), note=note, technique=technique))


GEN = "root.go: RootGenerator.Generate"
ORACLE = "online monitors over generated values: an independent JSON Schema validator (formats asserted) plus hand-written monitors; seeded, hostile random sources and several option sets"

prop("V01", "Numbers respect type, bounds and multipleOf, and every allowed value can appear",
     "Every value generated for an integer or number schema is of that type, lies within minimum, maximum, exclusiveMinimum and exclusiveMaximum together, and is a multiple of multipleOf. If only a handful of values are allowed each of them is eventually generated. Bounds that admit no value are reported as an error by parsing instead of yielding a value.",
     ["inputs", "configurations"], "Every combination of type, inclusive and exclusive bounds (both kinds at once, fractional bounds on integers, negative and far from zero) and multipleOf whose magnitudes stay below 2^53, every generator option set, every random source.",
     "The tests sample a few dozen schemas and the random value they happen to draw; rounding of bounds and off-by-one mistakes only show for particular bounds and particular draws.",
     ["number.go", "internal/util"], [("number generator", "number.go"), ("bound computation", "number.go"), ("root generation", GEN)],
     "JSON of generated values; errors returned and recorded by parsing",
     note="Bounds grid (types x lower x upper x multipleOf), corner cases and random schemas decided by exact rational arithmetic; satisfiability and the number of allowed values are computed exactly.")
prop("V02", "Strings respect minLength, maxLength, pattern and format",
     "Every value generated for a string schema is valid UTF-8, has a number of characters within minLength and maxLength (zero included), matches pattern, and conforms to format for the supported formats. Impossible limits and expressions that do not compile are reported by parsing.",
     ["inputs", "configurations"], "Every pair of length limits, every supported format, every pattern of the supported expression syntax, every random source and option set.",
     "Tests look at a few lengths and patterns; the text is assembled from random words and random expressions so only many draws around the limits show a violation.",
     ["string.go", "regex.go", "internal/regen"], [("string generator", "string.go"), ("regex generator", "regex.go"), ("format generators", "string.go")],
     "JSON of generated values; errors of parsing", note="All pairs of length limits at 20 points, 15 formats, 50 patterns and random ones.")
prop("V03", "Objects respect property, required, size and additional-property rules",
     "Every generated object contains all required properties, has between minProperties and maxProperties members, gives every member a value that conforms to all schemas that apply to its name (properties, patternProperties, additionalProperties), and contains no member additionalProperties forbids. Contradictory limits are reported. Property names are reproduced exactly whatever characters they contain.",
     ["inputs", "configurations"], "Every combination of declared, pattern and additional properties, required names, sizes, names with any characters, random sources and option sets.",
     "Which optional, pattern and filler members appear is random and depends on options; collisions of names need particular schemas.",
     ["object.go"], [("object generator", "object.go"), ("filler properties", "object.go"), ("pattern properties", "object.go")],
     "JSON of generated values; errors of parsing", note="Fixed corner cases, difficult names, random object schemas; sizes up to and including the limits must be reached.")
prop("V04", "Arrays respect item, tuple, contains, size and uniqueness rules",
     "Every generated array has between minItems and maxItems items (every size in between can appear), its leading items conform to the tuple schemas and the others to the item schema, it holds at least minContains items that conform to contains, no items beyond a closed tuple and no duplicates under uniqueItems. Contradictory limits are reported.",
     ["inputs", "configurations"], "Every combination of items, prefixItems, the older array form, contains, minContains, sizes and uniqueItems; random sources and option sets.",
     "Sizes and items are random; off-by-one mistakes and duplicates only show for certain combinations of tuple length, limits and draws.",
     ["array.go"], [("array generator", "array.go"), ("unique items", "array.go"), ("contains", "array.go")],
     "JSON of generated values; errors of parsing", note="Full grid of sizes x tuple lengths, fixed corner cases, older dialect tuples, random schemas.")
prop("V05", "Enumerations and constants yield exactly the listed values",
     "A schema with enum or const only ever yields listed values that satisfy the other keywords next to it, unchanged in type and content, and every such value can appear. If no listed value remains parsing reports an error.",
     ["inputs", "configurations"], "Every list of JSON values (null, false, 0, empty and nested ones, texts that need escaping), with any type, size, pattern or bound next to it; nested anywhere; all random sources.",
     "Tests use lists of a few strings; falsy and nested values, filtering by other keywords and reachability need many combinations.",
     ["enum.go", "const.go"], [("enum generator", "enum.go"), ("const generator", "const.go")],
     "JSON of generated values; errors of parsing", note="Canonical comparison with the listed values and coverage of every one of them.")
prop("V06", "anyOf and oneOf: some, respectively exactly one, alternative is satisfied",
     "A value generated for a schema with anyOf satisfies at least one alternative and one generated for oneOf satisfies exactly one, together with everything stated next to the alternatives. Every alternative that can be satisfied on its own is eventually used. If no alternative can be satisfied that is reported.",
     ["inputs", "configurations"], "Every list of alternatives (overlapping, nested, with references, merged with keywords next to them), wherever the schema is used; all random sources and option sets.",
     "Whether two alternatives are satisfied at once depends on the drawn value, tests cannot sample overlaps enough.",
     ["combination.go", "merge.go"], [("combination parsing", "combination.go"), ("exactly-one check", "combination.go"), ("merging", "merge.go")],
     "JSON of generated values matched with each alternative", note="Each value is matched with every alternative separately by the independent validator.")
prop("V07", "allOf: values conform to all combined schemas at once",
     "A value generated for a schema with allOf conforms to every member and to everything stated next to them, however members are nested, referenced or repeated. Members that contradict each other are reported by parsing.",
     ["inputs", "configurations"], "Every way of distributing the keywords of a satisfiable schema over members, nested and referenced members, closed objects and tuples; all random sources and option sets.",
     "Merging is a pairwise matter of keywords; the number of pairs and orders is far beyond the sampled tests.",
     ["all_of.go", "merge.go"], [("schema merging", "merge.go"), ("allOf parsing", "all_of.go")],
     "JSON of generated values validated against the unmerged schema", note="Random satisfiable schemas are taken apart over members at random and values validated against the original members.")
prop("V08", "not: generated values never conform to a negated schema",
     "A value generated for a schema with not conforms to the rest of the schema and never conforms to the negated schema, also for several negations combined, double negations, negations of references and inside items, properties and alternatives. Negations that leave nothing are reported.",
     ["inputs", "configurations"], "Negated types, bounds, sizes, patterns, values, required and property schemas over satisfiable base schemas with a good part of values left; option sets that do not force minimal output.",
     "Negation is turned into inverted limits plus rejection of values; only draws near inverted limits and several negations at once show mistakes.",
     ["not.go", "constraint.go"], [("negation", "not.go"), ("constraints on values", "constraint.go")],
     "JSON of generated values matched with the negated schemas", note="Random base schemas over finite universes whose share of remaining values is computed first; where the tool reports the negation as unsupported no claim is made.")
prop("V09", "if/then/else: every generated value obeys the conditions",
     "A value generated for a schema with if conforms to then if it satisfies the condition and to else if it does not, for several conditions at once as well. Both sides of a condition that can go either way are eventually generated.",
     ["inputs", "configurations"], "Conditions over property values, types, bounds and sizes; one or several at once, nested in properties, items, references, alternatives and allOf; all random sources and option sets.",
     "Which side of a condition a value falls on depends on the draw and on what the branches change.",
     ["if.go"], [("conditional generator", "if.go")],
     "JSON of generated values validated against the conditions", note="Branch coverage of both sides is asserted, several conditions are combined at random.")
prop("V10", "Types: lists of types and types implied by keywords",
     "A value generated for a list of types is of one of them, conforms to the keywords of that type, and every listed type can appear. Without a type the keywords present decide the kind of value; a schema without any keyword yields values of every kind.",
     ["inputs", "configurations"], "Every one of the 127 lists of types, every keyword that implies a type, in nested places; all random sources and option sets.",
     "Tests look at one or two type lists.",
     ["multiple_type.go", "parse.go"], [("type lists", "multiple_type.go"), ("type inference", "parse.go")],
     "JSON of generated values", note="All 127 type lists, all implying keywords in four places.")
prop("V11", "References inside a document resolve to exactly the schema they point to",
     "A $ref to any location of the same document (#, JSON pointers with every escape, indices, $defs or definitions, the document's own $id) makes generated values conform to exactly the schema at that location, wherever the reference stands and however many references lead there, recursive ones included. A reference to nothing, or outside what can be resolved, is reported when parsing.",
     ["inputs", "configurations"], "Every location of a schema, every spelling of the pointer, chains and cycles of references, references next to and inside all applicators; all random sources and option sets.",
     "Tests resolve a few pointers into $defs; the location, the escape and the place of the reference each go through other code.",
     ["reference.go", "document.go", "parse.go"], [("reference resolution", "reference.go"), ("document resolution", "document.go"), ("sub-schema parsing", "parse.go")],
     "JSON of generated values; errors returned and recorded by parsing", note="Locations x spellings x places of use, each target marked by a value of its own, dangling references must be reported.")
prop("V12", "Relative and absolute references between documents load the right document",
     "References to other files and http documents, relative to the document (or $id) they stand in, make generated values conform to the referenced schema of exactly that document, through chains and cycles of documents and equal file names in different directories. Documents that are missing, are no JSON or lack the location are reported.",
     ["inputs", "configurations", "fault_sequences"], "Every layout of documents over directories, files and hosts, every spelling of the reference, every $id, every failure of a document (missing, malformed, error status, slow or cut off).",
     "Tests use a handful of fixtures; which base a reference is resolved against depends on the chain of documents that led to it.",
     ["document.go", "reference.go", "internal/util"], [("document resolver", "document.go"), ("document fetchers", "fetchers.go"), ("reference resolution", "reference.go")],
     "JSON of generated values; errors of parsing; requests seen by loopback servers",
     note="Document worlds on scratch directories and loopback HTTP servers, each document marked by values of its own; faults injected by the servers.")
prop("V13", "Documents are only fetched from allowed hosts, schemes and paths",
     "Whatever the schema contains, parsing and generating only reads files within the allowed paths (or the working directory) and only requests allowed hosts over allowed schemes, also via redirects, symbolic links, relative segments, encoded characters, embedded ids and schemas compiled for validation. What is refused is reported, what is allowed is loaded.",
     ["inputs", "configurations"], "Every fetch option of the library and the command line tool, every spelling of a file or URL reference, every place a reference may stand, every redirect and link.",
     "A policy is only as strong as its weakest spelling and code path; tests try the direct ones.",
     ["fetchers.go", "document.go", "cli/cli.go"], [("http and file fetchers", "fetchers.go"), ("fetch options", "parse.go"), ("flags", "cli/cli.go")],
     "file accesses seen through inotify and requests seen by loopback servers; errors of parsing", note="Every access is observed independently of the tool (inotify on canary files, canary servers); a positive control accompanies each refusal.",
     technique="access monitors: inotify on canary files and request logs of canary servers, checked against the policy given, over schemas that hide references in every place and spelling")
prop("V16", "Values of composite schemas validate against the whole schema",
     "For any satisfiable schema built from the supported keywords, nested and combined in any way, parsing reports no error and every generated value validates against the whole schema, without texts that stand for a failure.",
     ["inputs", "configurations"], "Random schemas nested three levels deep mixing all supported keywords, references and combinations; five option sets; hostile random sources.",
     "The interaction of keywords is not covered by tests of single features.",
     ["parse.go", "merge.go", "object.go", "array.go", "combination.go"], [("schema dispatch", "parse.go"), ("root generation", GEN)],
     "JSON of generated values, validated independently; errors of parsing", note="Random satisfiable schemas by construction.")

prop("V14", "Any text is survived: parsing and generating never crash",
     "For any text whatever as schema (random bytes, malformed JSON, wrong value kinds for every keyword, deep, cyclic and self-referential schemas), parsing returns a usable generator or an error: no panic, no stack overflow, no runaway memory. Text that is no JSON is reported. The generator can be described and every value it gives encodes as JSON.",
     ["inputs", "configurations"], "Every byte string as schema, every parse depth and generator option set.",
     "Crashes sit in combinations nobody writes down as a test: wrong kinds of values, cycles through particular keywords, mutations of valid schemas.",
     ["parse.go", "schema.go", "json.go", "merge.go", "not.go", "reference.go"], [("schema decoding", "schema.go"), ("dispatch and depth limit", "parse.go"), ("merging", "merge.go"), ("reference resolution", "reference.go")],
     "return values, panics and fatal errors of the process that runs the code", note="All keywords x kinds of values x 8 contexts, recursion through every applicator, doubling chains, mutated and random schemas, damaged texts; a crash, an overflow or 12 GB of memory is a verdict.",
     technique="crash monitors around hostile and mutated inputs: recovered panics, death of the worker process, memory limit")
prop("V15", "Generation and parsing stay within their step, depth and retry budgets",
     "Generation ends near CutoffGenerationSteps however recursive, demanding, hard to satisfy or unlimited a schema is, generates only the minimum past MaximumGenerationSteps, and resolves no more than MaximumReferenceDepth nested references (a reference within itself only if asked). Parsing reports what is nested deeper than MaxParseDepth, and never truncates silently.",
     ["inputs", "configurations"], "Every recursive schema, every maximum size, every combination of the step, depth and retry options.",
     "Whether generation ends depends on the whole tree of draws: branching, retries and depth multiply.",
     ["generator.go", "reference.go", "object.go", "array.go", "combination.go", "constraint.go", "if.go", "parse.go"], [("step budget", "generator.go"), ("reference depth", "reference.go"), ("parse depth", "parse.go")],
     "number of random draws, size and depth of generated values, errors of parsing", note="The budgets are counted in random draws and values, not in time: a source of randomness ends a generation that exceeds its budget.",
     technique="budget monitors: a source of randomness that counts draws and ends a run past its budget, size and depth of values against the options given")
prop("V17", "One generator can be shared by goroutines, parsing can run concurrently",
     "Generating from one generator in many goroutines, and parsing any schemas at the same time, is free of data races and corrupted state: every value validates as it would alone, also when options without a source of randomness are shared, documents are fetched, and callers change the values they were given.",
     ["schedules", "inputs"], "Every schema and every interleaving of generating, describing, parsing, fetching and changing of values in several goroutines.",
     "Tests run one goroutine; races depend on schedules.",
     ["regex.go", "internal/regen", "reference.go", "enum.go", "constraint.go", "string.go"], [("regex source of randomness", "internal/regen/rng.go"), ("reference state", "reference.go"), ("root generation", GEN)],
     "race detector reports and JSON of values generated concurrently", note="Worker built with the race detector; sources of randomness yield at random draws and record the order of goroutines.",
     technique="race detector (go build -race) plus an independent validator of every value, sources of randomness that yield at random draws")
prop("V18", "Inputs are never changed, generated values never share memory",
     "Parsing changes neither the schema text nor its options, generating not its options. Generated values belong to the caller: changing one changes no other value, no later one and not the generator. Parsed schemas are independent of each other and of later changes of the text or of documents, whatever names and ids they share.",
     ["histories", "inputs"], "Every order of parsing, generating and changing values, for every schema.",
     "Aliasing shows only if a value is changed and other values are looked at afterwards.",
     ["root.go", "enum.go", "const.go", "parse.go", "document.go"], [("copies of listed values", "enum.go"), ("options", "generator.go"), ("parse state", "parse.go")],
     "options and text after calls, values before and after others are changed", note="Values are overwritten all over after each generation; snapshots of earlier values, options and texts are compared.",
     technique="snapshot monitors: everything handed in and out is overwritten or compared after each call, values validated independently")
prop("V24", "The same seed gives the same value",
     "With a seeded source of randomness everything but free texts and expressions (which have sources of their own, as documented) is a function of schema, options and seed: generated again, after other values, from the schema parsed again, or in another goroutine the same value results. Without a source values differ.",
     ["inputs", "configurations", "histories"], "Every schema without free texts, every option set, every seed, every history of the generator.",
     "Hidden sources (map order, global randomness) agree by chance on small tests.",
     ["rand", "object.go", "generator.go"], [("source of randomness", "rand/random.go"), ("choice of properties", "object.go")],
     "JSON of generated values", note="Each seed is replayed in six ways; named seeds.",
     technique="differential replay: values of a seed compared over repetitions, parses, histories and goroutines")

prop("V21", "The command line tool prints exactly what was asked for",
     "The command line tool writes one JSON document that conforms to the schema (of -file or of the standard input), to the standard output or, with -output, to a file; nothing else is written there and existing files are never overwritten. -format changes only the layout. Faulty schemas, files and flags lead to a message on the standard error stream, a failing exit status and no output. Every limit given as a flag is honoured, the verbose output reports what parsing reported. It ends orderly for every input.",
     ["inputs", "configurations"], "Every schema text, every combination of flags and values, every place and name of the files.",
     "The tool has no tests; its promises are about the process: streams, exit status and files.",
     ["cli/cli.go", "parse.go"], [("command line tool", "cli/cli.go"), ("files", "parse.go")],
     "standard output, standard error, exit status and files of real runs of the built tool", note="The real tool is built and run in scratch directories with schemas, faulty ones, damaged texts, all flags.",
     technique="process monitor: streams, exit status and files of real runs compared with the contract, output judged by the independent validator")

prop("V19", "Strings generated from a pattern are its words, and every word can appear",
     "A string generated for a supported regular expression - as pattern or as the name of a pattern property - is matched by the expression as a whole: anchors, groups, alternatives, character classes and their complements, repetitions with their exact limits and expressions that ignore case mean what they mean elsewhere. Every word of an expression with few words, every member of a class and every number of repetitions between the limits (MinUnboundedRepeatCount and MaxUnboundedRepeatCount for open ones) turns up sooner or later.",
     ["inputs", "configurations"], "Every expression of the supported syntax, every limit of repetitions.",
     "A pattern stands for a language; tests match a few strings of a few expressions, which hides words that are never generated and operators that go wrong only when nested.",
     ["string.go", "regex.go", "object.go", "internal/regen"], [("words of expressions", "internal/regen"), ("options of expressions", "regex.go")],
     "generated strings and property names", note="Expressions are made together with the list of their words; generated strings are compared with the list, the list has to be exhausted.",
     technique="language monitor: strings compared with independently enumerated words and an independent matcher, coverage of words monitored")
prop("V20", "The same schema written differently is the same schema",
     "Layout, order of keywords and properties, escapes, spellings of a number (1, 1.0, 1e0), annotations (title, description, examples, ...), keywords that are unknown or only look like known ones and the entry point used (text, bytes, file) do not change what a schema means: the same things are reported, the same seed gives the same value and values conform to the original text.",
     ["inputs"], "Every schema, every equivalent way to write it down.",
     "Tests write every schema once; equivalences are relations between two texts.",
     ["parse.go", "json.go", "merge.go", "schema.go"], [("decoding", "json.go"), ("entry points", "parse.go")],
     "reports and JSON of the values generated for equal seeds", note="Schemas are rewritten at random; values of equal seeds and reports are compared, rest validated.",
     technique="metamorphic monitor: reports and seeded values of equivalent texts compared, values judged by the independent validator")
prop("V22", "Everything a schema leaves open turns up sooner or later",
     "Generation does not restrict itself to a part of what a schema allows: every alternative of anyOf and oneOf, every listed value and type, both booleans, every allowed number of items and properties that the options permit, the presence and the absence of each optional property, pattern property and additional property and both sides of a condition turn up in a reasonable number of values.",
     ["inputs", "configurations", "histories"], "Every schema with open choices, every allowed outcome.",
     "Whether a value never appears is a statement about all runs; tests only look at whether a value is allowed.",
     ["generator.go", "combination.go", "enum.go", "object.go", "array.go", "multiple_type.go", "if.go", "boolean.go"], [("choice of alternatives", "combination.go"), ("choice of properties", "object.go"), ("number of items", "array.go")],
     "outcomes seen in many generated values of one schema", note="Reachable outcomes are listed from the schema; enough values are generated that a uniform choice misses one with a probability below 1e-9.",
     technique="coverage monitor: outcomes of generated values collected and compared with the outcomes the schema leaves open")
prop("V23", "Sizes follow the options where the schema says nothing",
     "Where a schema does not say how many items or properties there have to be, the options of the generator do (DefaultArrayMinItems, DefaultArrayMaxItems, DefaultObjectMinProperties, DefaultObjectMaxProperties): sizes stay within them, every size between them turns up, and they are overridden by - never combined into a contradiction with - what the schema says; options that are not given have the documented values.",
     ["configurations", "inputs"], "Every combination of size options with every combination of bounds in the schema, at every place of a schema.",
     "Options and bounds interact; the tests only use the default options.",
     ["generator.go", "array.go", "object.go"], [("default options", "generator.go"), ("sizes of arrays", "array.go"), ("sizes of objects", "object.go")],
     "numbers of items and properties of generated values", note="Grid of option values x bounds x places; three options that have no effect are known findings.",
     technique="range monitor: sizes of generated values compared with an independent model of options and bounds, coverage of sizes monitored")
prop("V25", "What is wrong in a schema is reported where it is, and nothing else is",
     "A sub-schema that cannot be satisfied or understood (contradicting bounds, malformed patterns, references into nothing, unsupported keywords, ...) is reported at its own place in its own document, wherever it stands: in properties, items, tuples, alternatives, conditions, definitions, behind references or in other documents. Nothing is reported for places that have nothing to do with it, independent faults of different properties are all reported, and nothing at all is reported for sound schemas.",
     ["inputs"], "Every fault at every place of every schema.",
     "Tests look at whether there is an error, hardly ever at where; faults at deep places are combined with paths through many parsers.",
     ["error.go", "parse.go", "reference_hander.go", "combination.go", "merge.go", "if.go", "not.go", "assert.go"], [("collected errors", "error.go"), ("current place", "reference_hander.go"), ("unsupported keywords", "assert.go")],
     "Metadata.Errors.CollectErrors and the returned error", note="Faults are planted into sound schemas; the reported places are compared with the planted ones.",
     technique="fault planting: reported locations compared with the places the faults were planted at; sound twins must be silent")


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"], "state": p["state"], "observe_at": p["observe"] if isinstance(p["observe"], list) else [p["observe"]], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./build.sh plain race cli",
        "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors observe the public API, the command line tool, the random source, the file system and the network through stand-ins", "source_commits": []},
        "checks": [{
            "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": "runtime monitoring: " + (p["technique"] or ORACLE), "level": "exploration", "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "See DESIGN.md. Findings are in known_findings.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
