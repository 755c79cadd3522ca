#!/usr/bin/env python3
"""Rewrites the fixed entries of known_findings.json (what each fix: commit of /repo repaired); keeps the known ones."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {  # commit subject (without fix:) -> property, what failed
"report uniqueItems next to the same negated value instead of panicking": ("V14", "{\"type\":\"array\",\"uniqueItems\":true,\"not\":{\"uniqueItems\":true}} panicked with a nil dereference while parsing"),
"report negated schemas that accept everything": ("V08", "{\"type\":\"string\",\"not\":{\"minimum\":3}} and {\"type\":\"array\",\"not\":{}} only generated failure texts without a report"),
"pick from the enum values a negated schema leaves": ("V08", "{\"enum\":[1,2,7],\"not\":{\"minimum\":3,\"maximum\":3}} never generated 7, {\"const\":7,...} was refused"),
"allow references to properties and definitions named allOf": ("V11", "{\"$ref\":\"#/$defs/allOf/properties/a\"} was refused as a reference into an allOf keyword although allOf is only a name there"),
"tell conditions, alternatives and negations apart by their formats": ("V06", "{\"oneOf\":[{\"type\":\"string\",\"format\":\"email\"},{\"type\":\"string\",\"format\":\"ipv4\"}]} only generated failure texts"),
"keep values that are no text next to a negated time or regex format": ("V08", "{\"enum\":[true,\"x\"],\"not\":{\"type\":\"string\",\"format\":\"time\"}} never generated true"),
"accept a const outside of the values a negated enum excludes": ("V08", "{\"const\":12,\"not\":{\"enum\":[24]}} was reported as a contradiction"),
"negate bounds of integers that are no whole numbers": ("V08", "{\"type\":\"integer\",\"exclusiveMinimum\":11.5,\"maximum\":12,\"not\":{\"const\":20}} was refused, next to a negation exclusive bounds were moved by one"),
"keep references within files working whose path has to be escaped in a URL": ("V12", "local references that are merged failed in schema files with a space or # in their path"),
"combine multipleOf to the lowest common multiple": ("V07", "allOf members with multipleOf 4 and 6 were combined to multiples of 24, so that valid values were never generated or the schema refused"),
"register the root document under the id its references resolve to": ("V11", "references to '#' or to the $id of a root schema with an $id were not resolved"),
"resolve the last part of merged references and bounds-check every step": ("V11", "references into merged schemas dropped their last part, out of range indices panicked"),
"generate every number and multiple allowed by inclusive and exclusive bounds": ("V01", "exclusive bounds were ignored next to inclusive ones, the largest allowed value was never generated, multiples outside the bounds were generated"),
"honour maximum lengths and sizes of zero": ("V02", "maxLength: 0, maxItems: 0, maxProperties: 0 were treated as not given"),
"pick the generator that applies to each property name and meet minProperties": ("V03", "pattern properties and additional properties were given values of the wrong schema, too few members were generated"),
"honour tuples, uniqueItems and minItems together in arrays": ("V04", "tuples shorter than minItems, duplicates with uniqueItems, contains over tuples"),
"generate any character classes and literal dots without breaking the expression": ("V19", "classes and escaped dots generated texts that do not match the expression"),
"only generate the satisfiable types of a type list": ("V10", "lists of types generated types the other keywords exclude, or failure texts"),
"intersect types and keep closed items and required names when merging allOf": ("V07", "merging allOf members lost types, items: false and required names"),
"apply the items, additionalProperties and patternProperties of each schema to what other merged schemas define": ("V07", "items/additionalProperties of one allOf member were not applied to tuples and properties of another"),
"match the oneOf and anyOf of every merged schema and skip alternatives that can not be satisfied": ("V06", "merged oneOf lost alternatives, unsatisfiable alternatives generated failure texts"),
"bound the depth of unwinding negated schemas": ("V14", "recursive negated references overflowed the stack"),
"use the regex options given for pattern properties": ("V19", "RegexPatternPropertyOptions had no effect"),
"resolve references of each parsed file relative to that file": ("V12", "relative references of files were resolved against the working directory"),
"apply the fetch flags to schemas given on stdin": ("V21", "fetch flags of the command line tool were ignored with schemas on stdin"),
"enforce allowed hosts, allowed paths and redirect targets when fetching documents": ("V13", "allowed hosts were compared loosely, redirects left the allowed hosts, prefix-matched paths and symlinks left the allowed paths"),
"pick the fetcher by the document a relative reference is in": ("V12", "relative references in documents fetched over HTTP were read from the file system"),
"resolve references against the base URI of the document and never treat other documents as the current one": ("V12", "references to documents of the same base name resolved to the current document"),
"parse everything references point to and report what can not be resolved": ("V11", "references to schemas outside $defs generated failure texts without a report"),
"update the random source of regex generators atomically": ("V17", "data race and corrupted state when generating from one generator in several goroutines"),
"never share the values of an enum or const between generated values": ("V18", "changing a generated value changed the values generated afterwards"),
"compile every sub-schema used for validation under a name of its own": ("V06", "two oneOf with the same path (merged schemas) validated against the first one's alternatives"),
"resolve the references of sub-schemas used for validation": ("V06", "references inside oneOf alternatives were not resolved when matching values"),
"name filler properties so that they never collide with declared ones": ("V03", "filler properties replaced declared ones"),
"escape the names sub-schemas are compiled under": ("V06", "property names with %, # or spaces broke oneOf/if matching"),
"conform to every if statement of a schema at once": ("V09", "with several if statements only the last held"),
"reject generated values that conform to a negated schema": ("V08", "values conforming to the negated schema were generated"),
"keep multipleOf and bounds when a negated multipleOf can not be precomputed": ("V08", "not/multipleOf dropped multipleOf and bounds"),
"generate arrays and objects of the largest allowed size": ("V04", "arrays with maxItems and objects with maxProperties never had the largest allowed size"),
"reject schemas whose negation leaves no type": ("V08", "not over all types generated values silently"),
"keep the first size allowed by a negated maximum size": ("V08", "not/maxItems and the like never gave the first allowed size"),
"never treat the data of enum and const or property names as keywords": ("V05", "enum and const values that look like schemas were rewritten, properties named like keywords broke references"),
"resolve the references of embedded schemas against their own id": ("V12", "references inside schemas with an $id of their own were resolved against the root document"),
"keep resolving references against the document being parsed after merging and load documents before what refers to them": ("V12", "references of other documents below merged schemas resolved to the root document"),
"enforce the fetch policy on every document that is fetched": ("V13", "schemas compiled for validation fetched files and URLs the fetch options forbid"),
"detect cycles through references nested in merged allOf schemas": ("V14", "merging recursive anyOf/allOf schemas took exponential time and all memory"),
"report everything nested deeper than the maximum parse depth": ("V15", "properties nested deeper than MaxParseDepth were silently replaced by null"),
"stop adding optional items and properties once the maximum number of generation steps is taken": ("V15", "arrays and objects with huge maximum sizes ignored the step budgets"),
"describe generators the same way every time": ("V24", "markers describe generators in random order, so that the same seed gave different values"),
"choose the properties of objects with the given source of randomness": ("V24", "optional properties and pattern properties were chosen by a global source of randomness and map order"),
"generate literals that ignore case in every case": ("V19", "expressions like (?i)ab or [aA] only gave one case"),
"let minContains exceed minItems": ("V04", "schemas whose minContains exceeds minItems were refused"),
"honour DefaultArrayMaxItems and DefaultArrayMinItems": ("V23", "the default sizes of arrays in the options had no effect"),
"accept sizes given as whole numbers with a fraction or an exponent": ("V20", "sizes like 2.0 or 1e1 were refused"),
"only take keywords that are spelled exactly for keywords": ("V20", "keywords in another case (TYPE) were taken for known ones"),
"name the sizes in reports instead of their addresses": ("V20", "reports contained addresses of pointers, so that the same schema was reported differently each time"),
"report faults of alternatives and patterns where they are": ("V25", "faults of oneOf, if, then, else, patternProperties and documents were reported at places that do not exist"),
"report unsupported keywords in combined schemas": ("V25", "dependentRequired and dependentSchemas below allOf, anyOf, oneOf, then and else were ignored without a report"),
"negate next to what an allOf of a property demands": ("V08", "a negation about a property whose schema is an allOf replaced what the allOf demands"),
"recognise ipv4 addresses and hostnames exactly": ("V08", "addresses with leading zeros and hostnames with labels that start with a hyphen were taken for valid ones and never generated next to a negated format"),
"keep a const next to an enum when schemas are merged": ("V05", "{\"allOf\":[{\"const\":1,\"enum\":[1,2]}]} generated 2"),
"keep integers whole next to a negation of some integers": ("V08", "{\"type\":\"integer\",\"minimum\":8,\"maximum\":15,\"not\":{\"type\":\"integer\",\"multipleOf\":4}} was reported as illogical and {\"type\":\"integer\",\"minimum\":0,\"maximum\":9,\"not\":{\"type\":\"integer\",\"minimum\":3}} only tried fractions"),
"use the multiples above a negated range when there are none below": ("V08", "{\"type\":\"number\",\"exclusiveMinimum\":-0.75,\"maximum\":0.75,\"multipleOf\":0.25,\"not\":{\"minimum\":-0.5,\"maximum\":-0.5}} was reported as having no multiples"),
"ignore limits on contained items without contains": ("V04", "{\"type\":\"array\",\"minContains\":5,\"maxItems\":3} was reported as unsatisfiable although minContains has no effect without contains"),
"generate no items where unevaluated items are not allowed": ("V04", "{\"type\":\"array\",\"unevaluatedItems\":false,\"minItems\":3} without a tuple generated null items, which are not allowed; so did tuples shorter than minItems, and unevaluatedItems:false next to items restricted them"),
"constrain contained items after legacy tuples by additionalItems": ("V04", "contained items generated after a tuple given by an items array did not conform to additionalItems"),
"negate limits on contained items only with contains": ("V08", "{\"type\":\"array\",\"maxItems\":5,\"not\":{\"maxContains\":1,\"minItems\":2}} had its negated maxContains enforced and reported although it has no effect without contains"),
"report negations that exclude every value of a schema with few values": ("V08", "{\"type\":\"boolean\",\"not\":{\"enum\":[true,false]}} and integers all of whose values are excluded only generated failure texts"),
"report recursive references that are combined with other schemas": ("V11", "allOf with a recursive reference dropped all its other members without a report"),
"keep tuples given by items when schemas are merged": ("V04", "tuples given by an items array were lost when schemas were merged by allOf"),
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
path = os.path.join(ROOT, "known_findings.json")
old = json.load(open(path))["findings"] if os.path.exists(path) else []
out = [f for f in old if f["status"] == "known"]
more = os.path.join(ROOT, "tools", "fixed_more.json")
if os.path.exists(more):
    M.update({k: tuple(v) for k, v in json.load(open(more)).items()})
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p, w = M[s[5:]]
        out.append(dict(status="fixed", property=p, commit=h, what=w, line=f"fixed: property={p} {h} {w}"))
json.dump(dict(findings=out), open(path, "w"), indent=1)
print(len(out))
