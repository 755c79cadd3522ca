From 8e7ac343fce66d1b1441d8ffbe44bc3884f24db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 01/70] fix: register the root document under the id its
 references resolve to

---
 document.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/document.go b/document.go
index e17130a..139131f 100644
--- a/document.go
+++ b/document.go
@@ -75,21 +75,19 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 	}
 
 	// Set relative to to current working directory if not set
-	resolvedRootDocumentId := rootDocumentId
-
 	if opts.RelativeTo == "" {
 		cwd, err := os.Getwd()
 		if err != nil {
-			opts.RelativeTo = "file://./"
+			opts.RelativeTo = "file://./" + rootDocumentId
 		} else {
-			opts.RelativeTo = "file://" + cwd + "/"
+			opts.RelativeTo = "file://" + filepath.Join(cwd, rootDocumentId)
 		}
-
-		resolvedRootDocumentId = filepath.Join(opts.RelativeTo, rootDocumentId)
-	} else {
-		resolvedRootDocumentId = opts.RelativeTo
 	}
 
+	// The root document has to be registered under the very id it is parsed and
+	// resolved with. Otherwise references back into it cannot be looked up.
+	resolvedRootDocumentId := opts.RelativeTo
+
 	resolver := &documentResolver{
 		// Setup the root document
 		documentCurrentlyBeingParsedId: opts.RelativeTo,
-- 
2.43.0


From 4a3d4faa1ca9b9677deb3a2652dc2c2eeaddee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:13 +0000
Subject: [PATCH 02/70] fix: resolve the last part of merged references and
 bounds-check every step

---
 reference_path.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/reference_path.go b/reference_path.go
index 7c4a2bc..748da70 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -22,13 +22,14 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
 	}
 
-	pathPart, path := getReferencePathToken(refPath)
-	resolvedPath = resolvedPath + "/" + pathPart
-
-	if path == "" {
+	// Every part of the path has been followed
+	if refPath == "" {
 		return node, nil
 	}
 
+	pathPart, path := getReferencePathToken(refPath)
+	resolvedPath = resolvedPath + "/" + pathPart
+
 	switch pathPart {
 	// Object
 	case "properties":
@@ -36,14 +37,14 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "patternProperties":
 		return resolveReferenceProperty(node.PatternProperties, path, resolvedPath)
 	case "additionalProperties":
-		if node.AdditionalProperties.IsFalse {
-			return nil, fmt.Errorf("[%s] No schema node for additional properties", resolvedPath)
-		}
-
-		return resolveSubReferencePath(node.AdditionalProperties.Schema, path, resolvedPath)
+		return resolveFalseOrSchema(node.AdditionalProperties, path, resolvedPath)
 
 	// Array
 	case "items":
+		if node.Items == nil {
+			return nil, fmt.Errorf("[%s] No items defined", resolvedPath)
+		}
+
 		part, _ := getReferencePathToken(path)
 		match, err := regexp.MatchString(`^\d+$`, part)
 		if !match || err != nil {
@@ -93,7 +94,7 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 }
 
 func resolveFalseOrSchema(node *schemaNodeOrFalse, path string, resolvedPath string) (*schemaNode, error) {
-	if node.IsFalse {
+	if node == nil || node.IsFalse {
 		return nil, fmt.Errorf("[%s] No schema node for %s node is false", resolvedPath, path)
 	}
 
@@ -129,7 +130,7 @@ func resolveReferenceSlice(nodes *[]schemaNode, path string, resolvedPath string
 		return nil, fmt.Errorf("[%s] Invalid array index (Must be a number) %s", resolvedPath, part)
 	}
 
-	if len(*nodes) > partInt || partInt < 0 {
+	if partInt >= len(*nodes) || partInt < 0 {
 		return nil, fmt.Errorf("[%s] Array index out of bounds %d", resolvedPath, partInt)
 	}
 
-- 
2.43.0


From 70db8c05ef9033ba2e17c539c10e202b1cf36ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 03/70] fix: generate every number and multiple allowed by
 inclusive and exclusive bounds

---
 number.go | 95 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 56 insertions(+), 39 deletions(-)

diff --git a/number.go b/number.go
index 374dda9..df2d537 100644
--- a/number.go
+++ b/number.go
@@ -23,7 +23,6 @@ const (
 	// Anything smaller than this and Golangs math.Floor and math.Ceil functions
 	// begin to misbehave due to floating point precision issues
 	infinitesimal = 0.1e-13
-	maxRoundFloat = 1e290 // Bound to slightly less than the max float64 value to avoid unserializable inf values
 
 	// Bound to slightly less than the max float64 value to avoid unserializable inf values
 	upperBound = math.MaxFloat64 / 1000
@@ -68,22 +67,17 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	var min float64 = math.Inf(-1)
 	var max float64 = math.Inf(1)
 
-	// For integers, exclusive bounds need an offset of 1 so that
-	// math.Ceil / math.Floor produce a value strictly inside the bound.
-	// For floats the tiny infinitesimal offset is sufficient.
-	exclusiveOffset := infinitesimal
-	if mustBeAnInteger {
-		exclusiveOffset = 1.0
-	}
+	exclusiveMinimum := moveInsideExclusiveBound(node.ExclusiveMinimum, 1, mustBeAnInteger)
+	exclusiveMaximum := moveInsideExclusiveBound(node.ExclusiveMaximum, -1, mustBeAnInteger)
 
 	// Initial Validation
 	min = util.GetZeroIfNil(
-		util.MaxFloatPtr(node.Minimum, addIfNotNilFloat64(node.ExclusiveMinimum, exclusiveOffset)),
+		util.MaxFloatPtr(node.Minimum, exclusiveMinimum),
 		math.Inf(-1),
 	)
 
 	max = util.GetZeroIfNil(
-		util.MinFloatPtr(node.Maximum, addIfNotNilFloat64(node.ExclusiveMaximum, -exclusiveOffset)),
+		util.MinFloatPtr(node.Maximum, exclusiveMaximum),
 		math.Inf(1),
 	)
 
@@ -110,8 +104,8 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 
 	// If we are an integer type, round min and max to the nearest integers
 	if mustBeAnInteger {
-		// If min and max are both non-integer values and round to the same integer
-		if math.Floor(min) == math.Floor(max) {
+		// If there is no integer left between min and max
+		if math.Ceil(min) > math.Floor(max) {
 			return 0, 0, fmt.Errorf("minimum and maximum do not allow for any integers (min: %f, max: %f)", min, max)
 		}
 
@@ -144,44 +138,75 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	return min, max, nil
 }
 
-func countMultiplesInRange(min float64, max float64, multiple float64) int {
-	if min == 0 {
-		return int(math.Floor(max / multiple))
+// moveInsideExclusiveBound moves an exclusive bound to the closest usable value strictly inside of it
+// (upwards for a direction of 1 and downwards for a direction of -1).
+func moveInsideExclusiveBound(bound *float64, direction float64, mustBeAnInteger bool) *float64 {
+	if bound == nil {
+		return nil
+	}
+
+	inside := *bound + direction*infinitesimal
+	if mustBeAnInteger {
+		inside = direction * (math.Floor(direction*(*bound)) + 1)
+	} else if inside == *bound {
+		// The bound is too large for the tiny infinitesimal offset to register
+		inside = math.Nextafter(*bound, math.Inf(int(direction)))
 	}
 
-	return int(math.Floor(max/multiple)) - int(math.Floor(min/multiple))
+	return &inside
 }
 
-func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
-	multiplesInRange := countMultiplesInRange(min, max, multiple)
+// multipleBounds returns the factors of the lowest and the highest multiple found between min and max (both inclusive)
+func multipleBounds(min float64, max float64, multiple float64) (float64, float64) {
+	lowest := math.Ceil(min / multiple)
+	highest := math.Floor(max / multiple)
 
-	if multiplesInRange == 0 {
-		return 0
+	// The division can be off by one in either direction so check against the values that would be generated
+	if multipleValue(lowest-1, multiple) >= min {
+		lowest--
+	} else if multipleValue(lowest, multiple) < min {
+		lowest++
+	}
+
+	if multipleValue(highest+1, multiple) <= max {
+		highest++
+	} else if multipleValue(highest, multiple) > max {
+		highest--
 	}
 
-	lowerBound := math.Floor(min/multiple) * multiple
-	randomMultiple := float64(rand.RandomInt(1, multiplesInRange)) * multiple
-	return lowerBound + randomMultiple
+	return lowest, highest
 }
 
-func roundToInfinitesimal(f float64) float64 {
-	// Dividing by infinitesimal (1e-14) amplifies the value by 1e14.
-	// Skip rounding for values whose magnitude would overflow to ±Inf.
-	if math.IsInf(f, 0) || math.Abs(f) > maxRoundFloat {
-		return f
+// multipleValue snaps the product to the precision of the multiple, as MultipleOf
+// arithmetic can accumulate tiny floating-point errors
+func multipleValue(factor float64, multiple float64) float64 {
+	return util.Round(factor*multiple, multiple)
+}
+
+func countMultiplesInRange(min float64, max float64, multiple float64) float64 {
+	lowest, highest := multipleBounds(min, max, multiple)
+	return math.Max(0, highest-lowest+1)
+}
+
+func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
+	lowest, highest := multipleBounds(min, max, multiple)
+	if lowest > highest {
+		return 0
 	}
-	return math.Round(f/infinitesimal) * infinitesimal
+
+	factor := lowest + math.Floor(rand.RandomFloat(0, highest-lowest+1))
+	return multipleValue(math.Min(factor, highest), multiple)
 }
 
 func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	result := 0.0
 	if g.Type == generatorTypeInteger && g.MultipleOf != 0 {
-		result = float64(generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf))
+		result = generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf)
 	} else if g.Type == generatorTypeInteger && g.MultipleOf == 0 {
 		result = float64(math.Round(opts.Rand.RandomFloat(g.Min, g.Max)))
 	} else if g.Type == generatorTypeNumber && g.MultipleOf != 0 {
-		result = util.Round(generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf), g.MultipleOf)
+		result = generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf)
 	} else if g.Type == generatorTypeNumber && g.MultipleOf == 0 {
 		result = opts.Rand.RandomFloat(g.Min, g.Max)
 	}
@@ -198,14 +223,6 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return int(result)
 	}
 
-	// MultipleOf arithmetic can accumulate tiny floating-point errors that
-	// push the result just outside the min/max bounds. Snap to the nearest
-	// infinitesimal to eliminate them. Plain floats (no multipleOf) don't
-	// need this — and applying it would destroy sub-infinitesimal values.
-	if g.MultipleOf != 0 {
-		return roundToInfinitesimal(result)
-	}
-
 	return result
 }
 
-- 
2.43.0


From 5fe08ff216a9732fc9488dd10c2f125785dcf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 04/70] fix: honour maximum lengths and sizes of zero

---
 array.go  |  9 +++++++++
 object.go | 15 +++++++++++----
 string.go |  7 ++++++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/array.go b/array.go
index 9cc53a2..651f10e 100644
--- a/array.go
+++ b/array.go
@@ -73,6 +73,15 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
 
+	// A maximum of zero items only leaves the empty array
+	if node.MaxItems != nil && maxItems == 0 {
+		if minItems > 0 || minContains > 0 {
+			return nullGenerator{}, fmt.Errorf("maxItems of 0 does not allow for any items (minItems: %d, minContains: %d)", minItems, minContains)
+		}
+
+		return arrayGenerator{DisallowAdditional: true, schemaNode: node}, nil
+	}
+
 	min := util.GetInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
diff --git a/object.go b/object.go
index 635f96b..de458d3 100644
--- a/object.go
+++ b/object.go
@@ -21,9 +21,10 @@ type (
 
 		FallbackGenerator Generator
 
-		MinProperties int
-		MaxProperties int
-		Required      []string
+		MinProperties      int
+		MaxProperties      int
+		DisallowProperties bool
+		Required           []string
 	}
 )
 
@@ -77,6 +78,8 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		MinProperties: minProperties,
 		MaxProperties: maxProperties,
 
+		DisallowProperties: node.MaxProperties != nil && maxProperties == 0,
+
 		Properties:             parseProperties(node, metadata),
 		PatternProperties:      patternProperties,
 		PatternPropertiesRegex: patternPropertiesRegex,
@@ -164,8 +167,12 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return nil
 	}
 
-	// Generate Required Properties
 	generatedValues := make(map[string]interface{})
+	if g.DisallowProperties {
+		return generatedValues
+	}
+
+	// Generate Required Properties
 	for _, key := range g.Required {
 		// If no properties are defined, generate a nil value
 		if g.Properties == nil {
diff --git a/string.go b/string.go
index 42bef19..3a2dd19 100644
--- a/string.go
+++ b/string.go
@@ -78,10 +78,15 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("min/max length cannot be negative")
 	}
 
-	if minLength > maxLength && maxLength != 0 {
+	if minLength > maxLength && node.MaxLength != nil {
 		return nullGenerator{}, fmt.Errorf("minLength cannot be greater than maxLength")
 	}
 
+	// A maximum length of zero only leaves the empty string
+	if node.MaxLength != nil && maxLength == 0 && node.Pattern == nil && node.Format == nil {
+		return constGenerator{Value: ""}, nil
+	}
+
 	hasPatternBasedBuilder := node.Pattern != nil || node.Format != nil
 	hasSetMinMaxLength := node.MinLength != nil || node.MaxLength != nil
 	if hasPatternBasedBuilder && hasSetMinMaxLength {
-- 
2.43.0


From 7a42ec69d7dd0062500be72e90e248d46a56ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 05/70] fix: pick the generator that applies to each property
 name and meet minProperties

---
 array.go  |  5 +++
 object.go | 95 +++++++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 80 insertions(+), 20 deletions(-)

diff --git a/array.go b/array.go
index 651f10e..14e65a7 100644
--- a/array.go
+++ b/array.go
@@ -253,6 +253,11 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
 	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
 
+	// Defaults never override the limits of the schema
+	if g.MaxItems != 0 {
+		minItems = util.MinInt(minItems, g.MaxItems)
+	}
+
 	// Handle cases where no min items are handled
 	minContains := 0
 	if g.ContainsGenerator != nil {
diff --git a/object.go b/object.go
index de458d3..25068ab 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -71,6 +72,14 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
 
+	if additionalProperties.IsFalse {
+		for _, key := range requiredProperties {
+			if !isDeclaredProperty(node, key) {
+				return nullGenerator{}, fmt.Errorf("required property %s can never be present given additional properties are not allowed", key)
+			}
+		}
+	}
+
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
@@ -92,6 +101,21 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	return objectGenerator, nil
 }
 
+// isDeclaredProperty checks if a key is covered by the "properties" or "patternProperties" of a node
+func isDeclaredProperty(node schemaNode, key string) bool {
+	if _, ok := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})[key]; ok {
+		return true
+	}
+
+	for pattern := range util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{}) {
+		if matched, err := regexp.MatchString(pattern, key); err != nil || matched {
+			return true
+		}
+	}
+
+	return false
+}
+
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
 	if node.Properties == nil {
@@ -174,24 +198,26 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate Required Properties
 	for _, key := range g.Required {
-		// If no properties are defined, generate a nil value
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
-			// Generate the required property
-			generatedValues[key] = g.Properties[key].Generate(opts)
-		}
+		generatedValues[key] = g.generateKey(key, "required", opts)
 	}
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(g.Required, funk.Keys(g.Properties).([]string)...))
+	optionalKeys := []string{}
+	for key := range g.Properties {
+		if _, ok := generatedValues[key]; !ok {
+			optionalKeys = append(optionalKeys, key)
+		}
+	}
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
 
+	// Defaults never override the limits of the schema
+	if g.MaxProperties != 0 {
+		min = util.MinInt(min, g.MaxProperties)
+	}
+
 	// Make sure the max is always greater than the min
 	if max < min {
 		max = min + max
@@ -211,13 +237,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate any optional keys
 	for _, key := range optionalKeysToGenerate {
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
-			generatedValues[key] = g.Properties[key].Generate(opts)
-		}
+		generatedValues[key] = g.generateKey(key, "optional", opts)
 	}
 
 	generatorTarget -= len(optionalKeysToGenerate)
@@ -227,8 +247,12 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
 		for i := 0; i < generatorTarget; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+			g.addPatternProperty(generatedValues, opts)
+		}
+
+		// Generated names can collide so keep trying until the minimum number of properties is met
+		for i := 0; i < opts.MaximumUniqueGeneratorAttempts && len(generatedValues) < min; i++ {
+			g.addPatternProperty(generatedValues, opts)
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
@@ -249,7 +273,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// In the event the number of generated parameters due to config options
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
-	if len(generatedValues) < min {
+	if len(generatedValues) < min && !g.DisallowAdditionalProperties {
 		generator := g.FallbackGenerator
 		if g.AdditionalProperties != nil {
 			generator = g.AdditionalProperties
@@ -264,6 +288,37 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// generateKey generates a value for the given property using the schemas that apply to its name
+func (g objectGenerator) generateKey(key string, fallbackPrefix string, opts *GeneratorOptions) interface{} {
+	if generator, ok := g.Properties[key]; ok {
+		return generator.Generate(opts)
+	}
+
+	for pattern, generator := range g.PatternProperties {
+		if matched, err := regexp.MatchString(pattern, key); err == nil && matched {
+			return generator.Generate(opts)
+		}
+	}
+
+	if g.AdditionalProperties != nil {
+		return g.AdditionalProperties.Generate(opts)
+	}
+
+	return fmt.Sprintf("%s_%s_%d", fallbackPrefix, key, opts.Rand.RandomInt(0, 9999999))
+}
+
+// addPatternProperty adds a pattern property unless its name is already taken or belongs to another property
+func (g objectGenerator) addPatternProperty(generatedValues map[string]interface{}, opts *GeneratorOptions) {
+	name, value := g.GeneratePatternProperty(opts)
+	if _, isGenerated := generatedValues[name]; isGenerated {
+		return
+	}
+
+	if _, isProperty := g.Properties[name]; !isProperty {
+		generatedValues[name] = value
+	}
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From 2a85e6935c91b09501e5d611f53ba0d9f1c05bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 06/70] fix: honour tuples, uniqueItems and minItems together
 in arrays

---
 array.go | 17 +++++++++++++----
 json.go  |  9 +++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/array.go b/array.go
index 14e65a7..e40a69e 100644
--- a/array.go
+++ b/array.go
@@ -45,6 +45,10 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	minItems := util.GetZeroIfNil(node.MinItems, 0)
 	maxItems := util.GetZeroIfNil(node.MaxItems, 0)
 	prefixItems := util.GetZeroIfNil(node.PrefixItems, []schemaNode{})
+	isLegacyTuple := node.Items != nil && node.Items.Nodes != nil
+	if len(prefixItems) == 0 && isLegacyTuple {
+		prefixItems = *node.Items.Nodes
+	}
 
 	if minContains == 0 && node.Contains != nil {
 		minContains = 1
@@ -85,11 +89,15 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	min := util.GetInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
-	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
+	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (isLegacyTuple && node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
 
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
 	if disallowedAdditionalItems {
+		if minItems > tupleLength {
+			return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to the tuple length when additional items are not allowed (minItems: %d, tupleLength: %d)", minItems, tupleLength)
+		}
+
 		min = tupleLength
 		max = tupleLength
 	}
@@ -130,7 +138,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UnevaluatedItemsGenerator: unevaluatedItemsGenerator,
 		DisallowUnevaluatedItems:  disallowUnevaluatedItems,
 
-		DisallowAdditional:       node.Items != nil && node.Items.DisallowAdditionalItems,
+		DisallowAdditional:       disallowedAdditionalItems,
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
@@ -228,7 +236,8 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	if tupleLength != 0 {
 		for _, generator := range g.TupleGenerators {
-			arrayData = append(arrayData, generator.Generate(opts))
+			item, _ := g.generateConsideringUnique(opts, generator, arrayData)
+			arrayData = append(arrayData, item)
 		}
 	}
 
@@ -295,7 +304,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
 		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
 
-		if !ok && i > minItems {
+		if !ok && len(arrayData) >= minItems {
 			// If we are unable to generate a unique item, and we have already satisfied the minimum
 			// bail out early
 			break
diff --git a/json.go b/json.go
index fe5b301..96c152b 100644
--- a/json.go
+++ b/json.go
@@ -86,8 +86,13 @@ func (i *itemsData) UnmarshalJSON(data []byte) error {
 		return nodeErr
 	}
 
-	i.Nodes = nodes
-	i.Node = node
+	// A failed unmarshal can still leave an empty value behind so only keep the form that was given
+	if nodeErr == nil {
+		i.Node = node
+	} else {
+		i.Nodes = nodes
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 89548498c0a40fcaa8d903e1798fd0f0cd742a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 07/70] fix: generate any character classes and literal dots
 without breaking the expression

---
 internal/regen/char_class.go         | 14 ++++++++++++--
 internal/regen/internal_generator.go | 15 ++++++++++++---
 regex.go                             | 10 ----------
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 8f3d843..77f5e11 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -42,6 +42,11 @@ func newCharClass(start rune, end rune) *tCharClass {
 	}
 }
 
+// newWordCharClass creates a character class with the characters matched by "\\w".
+func newWordCharClass() *tCharClass {
+	return parseCharClass([]rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'})
+}
+
 /*
 ParseCharClass parses a character class as represented by syntax.Parse into a slice of CharClassRange structs.
 
@@ -57,13 +62,18 @@ e.g.
 func parseCharClass(runes []rune) *tCharClass {
 	var totalSize int32
 	numRanges := len(runes) / 2
-	ranges := make([]tCharClassRange, numRanges, numRanges)
+	ranges := make([]tCharClassRange, 0, numRanges)
 
 	for i := 0; i < numRanges; i++ {
 		
 		start := runes[i*2]
 		end := runes[i*2+1]
 
+		// a range with nothing but the null byte
+		if end == 0 {
+			continue
+		}
+
 		// indicates a negative class
 		if start == 0 {
 			// doesn't make sense to generate null bytes, so all ranges must start at
@@ -73,7 +83,7 @@ func parseCharClass(runes []rune) *tCharClass {
 
 		r := newCharClassRange(start, end)
 
-		ranges[i] = r
+		ranges = append(ranges, r)
 		totalSize += r.Size
 	}
 
diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 8bcf5ad..ca33ccf 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -19,8 +19,8 @@ package regen
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"regexp/syntax"
+	"unicode"
 )
 
 // generatorFactory is a function that creates a random string generator from a regular expression AST.
@@ -119,6 +119,9 @@ func opLiteral(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator,
 
 func opAnyChar(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpAnyChar)
+	if args.SuppressRandomBytes {
+		return createCharClassGenerator(regexp.String(), newWordCharClass(), args)
+	}
 	return &internalGenerator{regexp.String(), func() string {
 		if args.LimitToAscii {
 			return runesToString(rune(args.rng.Intn(92) + 32))
@@ -130,10 +133,12 @@ func opAnyChar(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator,
 func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpAnyCharNotNL)
 	var charClass *tCharClass
-	if args.LimitToAscii {
+	if args.SuppressRandomBytes {
+		charClass = newWordCharClass()
+	} else if args.LimitToAscii {
 		charClass = newCharClass(32, 93) // Limit to printable ASCII characters.
 	} else {
-		charClass = newCharClass(0, rune(math.MaxInt32))
+		charClass = newCharClass(1, unicode.MaxRune)
 	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
@@ -242,6 +247,10 @@ func enforceSingleSub(regexp *syntax.Regexp) error {
 }
 
 func createCharClassGenerator(name string, charClass *tCharClass, args *GeneratorArgs) (*internalGenerator, error) {
+	if charClass.TotalSize < 1 {
+		return nil, generatorError(nil, "char class does not contain any characters: /%s/", name)
+	}
+
 	return &internalGenerator{name, func() string {
 		i := args.rng.Int31n(charClass.TotalSize)
 		if charClass.TotalSize > 100000 {
diff --git a/regex.go b/regex.go
index c5f964b..38283c8 100644
--- a/regex.go
+++ b/regex.go
@@ -1,19 +1,9 @@
 package chaff
 
 import (
-	"strings"
-
 	"github.com/ryanolee/go-chaff/internal/regen"
 )
 
-const fullStringLiteral = "[~{FULL_STOP_LITERAL}~]"
-
 func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generator, error) {
-	if opts.SuppressRandomBytes {
-		pattern = strings.ReplaceAll(pattern, "\\.", fullStringLiteral)
-		pattern = strings.ReplaceAll(pattern, ".", "\\w")
-		pattern = strings.ReplaceAll(pattern, fullStringLiteral, "\\.")
-	}
-
 	return regen.NewGenerator(pattern, opts)
 }
-- 
2.43.0


From 8c3f6f5285ae49f80916b88f29c3c69d5e3a9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 08/70] fix: only generate the satisfiable types of a type list

---
 multiple_type.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/multiple_type.go b/multiple_type.go
index 4a7864a..b7f2eb6 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -1,6 +1,7 @@
 package chaff
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -19,17 +20,23 @@ type (
 //	{
 //	  "type": ["string", "number"]
 //	}
-func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeGenerator, error) {
+func parseMultipleType(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	generators := []Generator{}
+	typeErrors := []error{}
 	for _, nodeType := range node.Type.MultipleTypes {
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
+			typeErrors = append(typeErrors, fmt.Errorf("%s: %w", nodeType, err))
 		} else {
 			generators = append(generators, generator)
 		}
 	}
 
+	// Only the types that can be satisfied are left as an option
+	if len(generators) == 0 {
+		return nullGenerator{}, fmt.Errorf("none of the given types can be generated: %v", errors.Join(typeErrors...))
+	}
+
 	return multipleTypeGenerator{
 		generators: generators,
 	}, nil
-- 
2.43.0


From 40f944fbb0cd678381d1b7b4bd638cfd9a6c8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 09/70] fix: intersect types and keep closed items and required
 names when merging allOf

---
 json.go  | 13 +++++++++++++
 merge.go | 52 +++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/json.go b/json.go
index 96c152b..43cfd98 100644
--- a/json.go
+++ b/json.go
@@ -36,6 +36,19 @@ func newMultipleTypeFromSlice(types []string) multipleType {
 	return multipleType
 }
 
+// The types given in either form
+func (m *multipleType) types() []string {
+	if m == nil {
+		return nil
+	}
+
+	if m.SingleType != "" {
+		return []string{m.SingleType}
+	}
+
+	return m.MultipleTypes
+}
+
 func (m *multipleType) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
diff --git a/merge.go b/merge.go
index c71727d..73d7376 100644
--- a/merge.go
+++ b/merge.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"maps"
 	"math"
 
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -38,7 +39,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
@@ -200,7 +201,7 @@ func mergeProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode,
 	}
 
 	nodeProperties := util.GetZeroIfNil(nodePtr, map[string]schemaNode{})
-	mergedProperties := util.GetZeroIfNil(mergedPtr, map[string]schemaNode{})
+	mergedProperties := maps.Clone(util.GetZeroIfNil(mergedPtr, map[string]schemaNode{}))
 
 	for key, value := range nodeProperties {
 		if existing, exists := mergedProperties[key]; exists {
@@ -227,7 +228,7 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 	}
 
 	nodePatternProperties := util.GetZeroIfNil(nodePtr, map[string]schemaNode{})
-	mergedPatternProperties := util.GetZeroIfNil(mergedPtr, map[string]schemaNode{})
+	mergedPatternProperties := maps.Clone(util.GetZeroIfNil(mergedPtr, map[string]schemaNode{}))
 
 	for key, value := range nodePatternProperties {
 		if existing, exists := mergedPatternProperties[key]; exists {
@@ -361,6 +362,10 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 
 	// Simple slice properties
 	baseNode.Required = util.MergeSlicePtrs(baseNode.Required, otherNode.Required)
+	if baseNode.Required != nil {
+		required := funk.UniqString(*baseNode.Required)
+		baseNode.Required = &required
+	}
 
 	// Simple boolean properties
 	warnIfBothSetAndAreDifferent(metadata, "uniqueItems", baseNode.UniqueItems, otherNode.UniqueItems)
@@ -427,27 +432,48 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	return newNode, nil
 }
 
-func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
-	if nodeType == nil {
+// mergeSchemaTypes intersects the types allowed by both sides. An empty
+// intersection is reported as a merge error and the type given last is kept.
+func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+	nodeTypes := nodeType.types()
+	if len(nodeTypes) == 0 {
 		return mergedSchemaType
 	}
 
-	mergedType := util.GetZeroIfNil(mergedSchemaType, multipleType{})
+	mergedTypes := mergedSchemaType.types()
+	if len(mergedTypes) == 0 {
+		return nodeType
+	}
+
+	intersection := []string{}
+	for _, mergedType := range mergedTypes {
+		for _, otherType := range nodeTypes {
+			commonType := mergedType
+			if mergedType == typeNumber && otherType == typeInteger {
+				// All integers are numbers
+				commonType = typeInteger
+			} else if mergedType != otherType && !(mergedType == typeInteger && otherType == typeNumber) {
+				continue
+			}
+
+			if !funk.ContainsString(intersection, commonType) {
+				intersection = append(intersection, commonType)
+			}
+		}
+	}
 
-	if nodeType.SingleType != "" {
-		mergedType.SingleType = nodeType.SingleType
-		mergedType.MultipleTypes = nil
-	} else if len(nodeType.MultipleTypes) > 0 {
-		mergedType.MultipleTypes = nodeType.MultipleTypes
-		mergedType.SingleType = ""
+	if len(intersection) == 0 {
+		warnConfigMergeError(metadata, "type", fmt.Errorf("no type satisfies both %v and %v", mergedTypes, nodeTypes))
+		return nodeType
 	}
 
+	mergedType := newMultipleTypeFromSlice(intersection)
 	return &mergedType
 }
 
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
-	if nodeData == nil || nodeData.Node == nil {
+	if nodeData == nil || (nodeData.Node == nil && !nodeData.DisallowAdditionalItems) {
 		return mergedData
 	}
 
-- 
2.43.0


From 3af7add2e5952a4c0cad01e348b9ff1f9cec0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 10/70] fix: apply the items, additionalProperties and
 patternProperties of each schema to what other merged schemas define

---
 merge.go  | 120 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 object.go |  31 +++++++++++---
 2 files changed, 145 insertions(+), 6 deletions(-)

diff --git a/merge.go b/merge.go
index 73d7376..56562e4 100644
--- a/merge.go
+++ b/merge.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"maps"
 	"math"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -44,11 +45,13 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
 		// Merge object properties
+		mergedNode, node = applyAdditionalProperties(metadata, mergedNode, node)
 		mergedNode.Properties = mergeProperties(metadata, mergedNode.Properties, node.Properties)
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
 		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
+		mergedNode, node = applyItemsToPrefixItems(metadata, mergedNode, node)
 		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
@@ -192,6 +195,88 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 	return mergedNode
 }
 
+// applyAdditionalProperties makes sure that the properties only one of the sides defines
+// conform to the additionalProperties of the other side before both sides are merged.
+func applyAdditionalProperties(metadata *parserMetadata, left schemaNode, right schemaNode) (schemaNode, schemaNode) {
+	left = applyPatternProperties(metadata, left, right)
+	right = applyPatternProperties(metadata, right, left)
+	restrictedLeft := restrictToAdditionalProperties(metadata, left, right)
+	restrictedRight := restrictToAdditionalProperties(metadata, right, left)
+	return restrictedLeft, restrictedRight
+}
+
+// applyPatternProperties merges the patternProperties of the other side into the matching
+// properties of a closed node. Given it is closed the patterns themselves can not be kept.
+func applyPatternProperties(metadata *parserMetadata, node schemaNode, other schemaNode) schemaNode {
+	if node.Properties == nil || other.PatternProperties == nil || node.AdditionalProperties == nil || !node.AdditionalProperties.IsFalse {
+		return node
+	}
+
+	properties := map[string]schemaNode{}
+	for key, value := range *node.Properties {
+		properties[key] = mergeMatchingPatternProperties(metadata, *other.PatternProperties, key, value)
+	}
+
+	node.Properties = &properties
+	return node
+}
+
+// mergeMatchingPatternProperties merges the schemas of all patterns that match a property with the schema of said property
+func mergeMatchingPatternProperties(metadata *parserMetadata, patternProperties map[string]schemaNode, key string, value schemaNode) schemaNode {
+	for pattern, patternNode := range patternProperties {
+		if matched, err := regexp.MatchString(pattern, key); err != nil || !matched {
+			continue
+		}
+
+		merged, err := mergeSchemaNodes(metadata, value, patternNode)
+		if err != nil {
+			warnConfigMergeError(metadata, fmt.Sprintf("patternProperties/%s", pattern), err)
+			continue
+		}
+		value = merged
+	}
+
+	return value
+}
+
+func restrictToAdditionalProperties(metadata *parserMetadata, node schemaNode, other schemaNode) schemaNode {
+	additional := other.AdditionalProperties
+	if additional == nil || (!additional.IsFalse && additional.Schema == nil) {
+		return node
+	}
+
+	restrict := func(nodes *map[string]schemaNode, field string, isCovered func(key string) bool) *map[string]schemaNode {
+		if nodes == nil {
+			return nil
+		}
+
+		restricted := map[string]schemaNode{}
+		for key, value := range *nodes {
+			if isCovered(key) {
+				restricted[key] = value
+			} else if !additional.IsFalse {
+				merged, err := mergeSchemaNodes(metadata, *additional.Schema, value)
+				if err != nil {
+					warnConfigMergeError(metadata, fmt.Sprintf("%s/%s", field, key), err)
+				}
+				restricted[key] = merged
+			}
+		}
+
+		return &restricted
+	}
+
+	node.Properties = restrict(node.Properties, "properties", func(key string) bool {
+		return isDeclaredProperty(other, key)
+	})
+	node.PatternProperties = restrict(node.PatternProperties, "patternProperties", func(key string) bool {
+		_, ok := util.GetZeroIfNil(other.PatternProperties, map[string]schemaNode{})[key]
+		return ok
+	})
+
+	return node
+}
+
 // mergeProperties merges two sets of object properties. When both sides define
 // the same key the values are recursively merged; new keys are assigned directly
 // so that any $ref they contain is preserved for lazy resolution.
@@ -245,6 +330,41 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 	return &mergedPatternProperties
 }
 
+// applyItemsToPrefixItems makes sure that the items only one of the sides defines by
+// position conform to the "items" of the other side before both sides are merged.
+func applyItemsToPrefixItems(metadata *parserMetadata, left schemaNode, right schemaNode) (schemaNode, schemaNode) {
+	restrictedLeft := restrictPrefixItems(metadata, left, right)
+	restrictedRight := restrictPrefixItems(metadata, right, left)
+	return restrictedLeft, restrictedRight
+}
+
+func restrictPrefixItems(metadata *parserMetadata, node schemaNode, other schemaNode) schemaNode {
+	if node.PrefixItems == nil || other.Items == nil {
+		return node
+	}
+
+	otherLength := len(util.GetZeroIfNil(other.PrefixItems, []schemaNode{}))
+	prefixItems := []schemaNode{}
+	for i, prefixItem := range *node.PrefixItems {
+		if i >= otherLength && other.Items.DisallowAdditionalItems {
+			break
+		}
+
+		if i >= otherLength && other.Items.Node != nil {
+			merged, err := mergeSchemaNodes(metadata, *other.Items.Node, prefixItem)
+			if err != nil {
+				warnConfigMergeError(metadata, fmt.Sprintf("prefixItems/%d", i), err)
+			}
+			prefixItem = merged
+		}
+
+		prefixItems = append(prefixItems, prefixItem)
+	}
+
+	node.PrefixItems = &prefixItems
+	return node
+}
+
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
 // have an entry at the same index they are recursively merged; otherwise the
 // entry from whichever side has it is kept.
diff --git a/object.go b/object.go
index 25068ab..2d46884 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"maps"
 	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
@@ -107,23 +108,36 @@ func isDeclaredProperty(node schemaNode, key string) bool {
 		return true
 	}
 
-	for pattern := range util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{}) {
+	return len(matchingPatterns(util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{}), key)) > 0
+}
+
+// matchingPatterns returns the patterns that apply to a key. Patterns that can not be checked are assumed to apply
+func matchingPatterns[T any](patternProperties map[string]T, key string) []string {
+	matching := []string{}
+	for pattern := range patternProperties {
 		if matched, err := regexp.MatchString(pattern, key); err != nil || matched {
-			return true
+			matching = append(matching, pattern)
 		}
 	}
 
-	return false
+	return matching
 }
 
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
-	if node.Properties == nil {
-		return properties
+	patternProperties := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})
+	namedProperties := maps.Clone(util.GetZeroIfNil(node.Properties, map[string]schemaNode{}))
+
+	// Required properties can be covered by any number of patterns
+	for _, name := range util.GetZeroIfNil(node.Required, []string{}) {
+		if _, ok := namedProperties[name]; !ok && len(matchingPatterns(patternProperties, name)) > 1 {
+			namedProperties[name] = schemaNode{}
+		}
 	}
 
 	ref := metadata.ReferenceHandler
-	for name, prop := range *node.Properties {
+	for name, prop := range namedProperties {
+		prop = mergeMatchingPatternProperties(metadata, patternProperties, name, prop)
 		refPath := fmt.Sprintf("/properties/%s", name)
 		propGenerator, err := ref.ParseNodeInScope(refPath, prop, metadata)
 		if err != nil {
@@ -314,6 +328,11 @@ func (g objectGenerator) addPatternProperty(generatedValues map[string]interface
 		return
 	}
 
+	// The value only conforms to the pattern the name was generated from
+	if len(matchingPatterns(g.PatternProperties, name)) > 1 {
+		return
+	}
+
 	if _, isProperty := g.Properties[name]; !isProperty {
 		generatedValues[name] = value
 	}
-- 
2.43.0


From 332cfc26f4deaf29979ca045f7c86545ed316c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 11/70] fix: match the oneOf and anyOf of every merged schema
 and skip alternatives that can not be satisfied

---
 combination.go | 19 +++++++++++----
 merge.go       | 66 ++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/combination.go b/combination.go
index 5f18c12..8fc851f 100644
--- a/combination.go
+++ b/combination.go
@@ -44,6 +44,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}
 
 	generators := []Generator{}
+	unsatisfiable := map[int]bool{}
 
 	for i, subSchema := range target {
 		baseNode, _ := mergeSchemaNodes(metadata, node)
@@ -56,27 +57,37 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 			baseNode.AnyOf = nil
 		}
 
+		refPath := fmt.Sprintf("/%s/%d", nodeType, i)
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
+			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to merge %s sub-schema: %w", nodeType, err))
+			unsatisfiable[i] = true
 			continue
 		}
 
-		refPath := fmt.Sprintf("/%s/%d", nodeType, i)
 		generator, err := ref.ParseNodeInScope(refPath, mergedNode, metadata, subSchema)
 
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to parse %s sub-schema: %w", nodeType, err))
-			generators = append(generators, nullGenerator{})
 		} else {
 			generators = append(generators, generator)
 		}
 	}
 
+	// Only the alternatives that can be generated are left as an option
+	if len(generators) == 0 {
+		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
+	}
+
 	if len(oneOf) > 1 {
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
 		for i, node := range oneOf {
+			// No value that conforms to the rest of the schema can match
+			if unsatisfiable[i] {
+				continue
+			}
+
 			resolvedNode, err := mergeSchemaNodes(metadata, node)
 			if err != nil {
 				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
@@ -103,8 +114,6 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 	if len(generators) == 1 {
 		return generators[0], nil
-	} else if len(generators) == 0 {
-		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
 	}
 
 	return combinationGenerator{
diff --git a/merge.go b/merge.go
index 56562e4..c2a5133 100644
--- a/merge.go
+++ b/merge.go
@@ -1,6 +1,7 @@
 package chaff
 
 import (
+	"errors"
 	"fmt"
 	"maps"
 	"math"
@@ -10,6 +11,9 @@ import (
 	"github.com/thoas/go-funk"
 )
 
+// The number of alternatives merging several oneOf or anyOf keywords can result in
+const maxMergedCombinations = 1000
+
 func newEmptySchemaNode() schemaNode {
 	return schemaNode{}
 }
@@ -17,6 +21,7 @@ func newEmptySchemaNode() schemaNode {
 // Merges all sub properties of a given node
 func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode, error) {
 	mergedNode := newEmptySchemaNode()
+	var conflictErr error
 
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
@@ -34,15 +39,19 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 			flatNode, err := mergeSchemaNodes(metadata, subNodes...)
 			if err != nil {
 				warnConfigMergeError(metadata, "allOf_flatten", err)
+				conflictErr = errors.Join(conflictErr, err)
 			} else {
 				node = flatNode
 			}
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
+		mergedType, err := mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
+		mergedNode.Type = mergedType
+		conflictErr = errors.Join(conflictErr, err)
 
-		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
+		mergedNode, err = mergeEnumAndConst(metadata, mergedNode, node)
+		conflictErr = errors.Join(conflictErr, err)
 
 		// Merge object properties
 		mergedNode, node = applyAdditionalProperties(metadata, mergedNode, node)
@@ -59,8 +68,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
 		// Merge combinators
-		mergedNode.OneOf = util.MergeSlicePtrs(mergedNode.OneOf, node.OneOf)
-		mergedNode.AnyOf = util.MergeSlicePtrs(mergedNode.AnyOf, node.AnyOf)
+		mergedNode.OneOf = mergeCombination(metadata, "oneOf", mergedNode.OneOf, node.OneOf)
+		mergedNode.AnyOf = mergeCombination(metadata, "anyOf", mergedNode.AnyOf, node.AnyOf)
 		mergedNode.AllOf = util.MergeSlicePtrs(mergedNode.AllOf, node.AllOf)
 
 		// Merge conditionals
@@ -96,7 +105,30 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 	}
 
-	return flattenResidualAllOf(metadata, mergedNode)
+	flatNode, err := flattenResidualAllOf(metadata, mergedNode)
+	return flatNode, errors.Join(conflictErr, err)
+}
+
+// mergeCombination combines every alternative of one side with every alternative of the other side
+// given a value has to match the alternatives of both sides
+func mergeCombination(metadata *parserMetadata, field string, mergedPtr *[]schemaNode, nodePtr *[]schemaNode) *[]schemaNode {
+	if mergedPtr == nil || nodePtr == nil {
+		return util.GetPtr(mergedPtr, nodePtr)
+	}
+
+	if len(*mergedPtr)*len(*nodePtr) > maxMergedCombinations {
+		warnConfigMergeError(metadata, field, fmt.Errorf("too many combinations to merge (%d * %d)", len(*mergedPtr), len(*nodePtr)))
+		return mergedPtr
+	}
+
+	combinations := []schemaNode{}
+	for _, left := range *mergedPtr {
+		for _, right := range *nodePtr {
+			combinations = append(combinations, schemaNode{AllOf: &[]schemaNode{left, right}})
+		}
+	}
+
+	return &combinations
 }
 
 // mergeResolveNodeRef resolves any $ref on the node by following the reference
@@ -158,13 +190,13 @@ func collectEnumValues(node schemaNode) *[]interface{} {
 // then intersected. The result is written back as either a const (one value)
 // or an enum (many values). An empty intersection produces a merge error and
 // clears both fields.
-func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) schemaNode {
+func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) (schemaNode, error) {
 	left := collectEnumValues(mergedNode)
 	right := collectEnumValues(node)
 
 	// Nothing to merge — neither side constrains allowed values.
 	if left == nil && right == nil {
-		return mergedNode
+		return mergedNode, nil
 	}
 
 	// Only one side has values — adopt it directly.
@@ -176,10 +208,11 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 	} else {
 		result = intersectEnumSlices(left, right)
 		if len(*result) == 0 {
-			warnConfigMergeError(metadata, "enum/const", fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right))
+			err := fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right)
+			warnConfigMergeError(metadata, "enum/const", err)
 			mergedNode.Enum = nil
 			mergedNode.Const = nil
-			return mergedNode
+			return mergedNode, err
 		}
 	}
 
@@ -192,7 +225,7 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 		mergedNode.Const = nil
 	}
 
-	return mergedNode
+	return mergedNode, nil
 }
 
 // applyAdditionalProperties makes sure that the properties only one of the sides defines
@@ -554,15 +587,15 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 
 // mergeSchemaTypes intersects the types allowed by both sides. An empty
 // intersection is reported as a merge error and the type given last is kept.
-func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) (*multipleType, error) {
 	nodeTypes := nodeType.types()
 	if len(nodeTypes) == 0 {
-		return mergedSchemaType
+		return mergedSchemaType, nil
 	}
 
 	mergedTypes := mergedSchemaType.types()
 	if len(mergedTypes) == 0 {
-		return nodeType
+		return nodeType, nil
 	}
 
 	intersection := []string{}
@@ -583,12 +616,13 @@ func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType,
 	}
 
 	if len(intersection) == 0 {
-		warnConfigMergeError(metadata, "type", fmt.Errorf("no type satisfies both %v and %v", mergedTypes, nodeTypes))
-		return nodeType
+		err := fmt.Errorf("no type satisfies both %v and %v", mergedTypes, nodeTypes)
+		warnConfigMergeError(metadata, "type", err)
+		return nodeType, err
 	}
 
 	mergedType := newMultipleTypeFromSlice(intersection)
-	return &mergedType
+	return &mergedType, nil
 }
 
 // Merges items data (Legacy support for "items" merging not supported)
-- 
2.43.0


From fbc61b816636bfc19032858e50b864a352a1e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 12/70] fix: bound the depth of unwinding negated schemas

---
 not.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/not.go b/not.go
index 441274f..aa7cb77 100644
--- a/not.go
+++ b/not.go
@@ -52,6 +52,14 @@ func init() {
 //  5. The resulting node is handed to parseNode and wrapped in a
 //     constrainedGenerator that enforces the accumulated constraints.
 func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
+	// Unwinding a negation can result in another negation
+	metadata.ParseDepth++
+	defer func() { metadata.ParseDepth-- }()
+
+	if maxDepth := metadata.ParserOptions.MaxParseDepth; metadata.ParseDepth > maxDepth {
+		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded while negating schema, possible circular schema reference", maxDepth)
+	}
+
 	rawNotNodes := collectNotNodes(node)
 
 	notNodes, doubleNegatedNodes := flattenAndPartitionNotNodes(metadata, rawNotNodes)
-- 
2.43.0


From a02d7965da490e3558581451109b8d0f33f42197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 13/70] fix: use the regex options given for pattern properties

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 41744f9..b88cab3 100644
--- a/parse.go
+++ b/parse.go
@@ -434,7 +434,7 @@ func withDefaultParseOptions(opts ParserOptions) ParserOptions {
 	}
 
 	parseOpts.RegexStringOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
-	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
+	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)
 
 	return parseOpts
 }
-- 
2.43.0


From b5dd19c670f8a3b171bf4996a7d0b9fc5a447973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 14/70] fix: resolve references of each parsed file relative to
 that file

---
 parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index b88cab3..0d5c924 100644
--- a/parse.go
+++ b/parse.go
@@ -212,11 +212,13 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	}
 
 	// Resolve relative path base for fetching external documents unless already set
-	if opts.RelativeTo == "" {
-		opts.RelativeTo = "file://" + path
+	// (The options of the caller are left as they are given they can be used to parse other files)
+	fileOpts := *opts
+	if fileOpts.RelativeTo == "" {
+		fileOpts.RelativeTo = "file://" + path
 	}
 
-	return ParseSchema(data, opts)
+	return ParseSchema(data, &fileOpts)
 }
 
 // Parses a Json Schema file at the given path with default options. If there is an error reading the file or
-- 
2.43.0


From d98e997f62a138cce232110ba6aa3a2e2e75c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 15/70] fix: apply the fetch flags to schemas given on stdin

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index a59bc6c..c654ecb 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -74,7 +74,7 @@ func main() {
 		checkErr(err)
 	} else if hasStdin() {
 		stdin := readStdin()
-		generator, err = chaff.ParseSchemaWithDefaults(stdin)
+		generator, err = chaff.ParseSchema(stdin, parserOptions)
 		checkErr(err)
 	} else {
 		checkErr(fmt.Errorf("no schema specified! (On Stdin or through the --file flag)"))
-- 
2.43.0


From f85fd5d5b9d86eeb837a02436981e32ebd0fdf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 16/70] fix: enforce allowed hosts, allowed paths and redirect
 targets when fetching documents

---
 fetchers.go | 76 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 2d47ae3..a8c8eb4 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -31,6 +31,9 @@ type (
 	}
 )
 
+// The maximum number of redirects to follow when fetching a document
+const maxRedirects = 10
+
 func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInterface, error) {
 	allowedHosts := []string{}
 
@@ -41,7 +44,8 @@ func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInter
 	for _, host := range parserConfig.AllowedHosts {
 		parsedUrl, err := url.Parse(host)
 
-		if parsedUrl != nil && err != nil {
+		// Hosts can be given as a URL as well
+		if err == nil && parsedUrl.Host != "" {
 			allowedHosts = append(allowedHosts, parsedUrl.Host)
 		} else {
 			allowedHosts = append(allowedHosts, host)
@@ -74,21 +78,39 @@ func (f *httpDocumentFetcher) resolveDocumentId(relativeTo string, ref string) (
 		resolvedUrl = baseUrl.ResolveReference(parsedUrl)
 	}
 
+	if err := f.assertAllowed(resolvedUrl); err != nil {
+		return "", err
+	}
+
+	return resolvedUrl.String(), nil
+}
+
+func (f *httpDocumentFetcher) assertAllowed(resolvedUrl *url.URL) error {
 	if !f.allowInsecure && resolvedUrl.Scheme != "https" {
-		return "", fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", parsedUrl.Scheme, ref)
+		return fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", resolvedUrl.Scheme, resolvedUrl)
 	}
 
 	if len(f.allowedHosts) > 0 {
 		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {
-			return "", fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
+			return fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
 		}
 	}
 
-	return resolvedUrl.String(), nil
+	return nil
+}
+
+// checkRedirect makes sure redirects only lead to what could have been fetched directly
+func (f *httpDocumentFetcher) checkRedirect(req *http.Request, via []*http.Request) error {
+	if len(via) >= maxRedirects {
+		return fmt.Errorf("stopped after %d redirects", maxRedirects)
+	}
+
+	return f.assertAllowed(req.URL)
 }
 
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resp, err := http.Get(resolvedPath)
+	client := &http.Client{CheckRedirect: f.checkRedirect}
+	resp, err := client.Get(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch URL '%s': %w", resolvedPath, err)
 	}
@@ -156,7 +178,12 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("failed to resolve file path for URL '%s' relative to '%s': %w", ref, relativeTo, err)
 	}
 
-	if !f.allowOutsideCwd {
+	// A list of allowed paths overrides the restriction to the current working directory
+	if len(f.allowedPaths) > 0 {
+		if isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths) {
+			return "", fmt.Errorf("access to path '%s' is not allowed. Only paths files in the following paths are allowed: %s", resolvedPath, strings.Join(f.allowedPaths, ", "))
+		}
+	} else if !f.allowOutsideCwd {
 		outsideCwd, err := f.isOutsideOfCwd(resolvedPath)
 		if err != nil {
 			return "", fmt.Errorf("failed to check if path '%s' is outside of current working directory: %w", resolvedPath, err)
@@ -169,15 +196,6 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		}
 	}
 
-	outsideAllowedPaths, err := isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths)
-	if err != nil {
-		return "", fmt.Errorf("failed to check if path '%s' is outside of allowed paths: %w", resolvedPath, err)
-	}
-
-	if outsideAllowedPaths {
-		return "", fmt.Errorf("access to path '%s' is not allowed. Only paths files in the following paths are allowed: %s", resolvedPath, strings.Join(f.allowedPaths, ", "))
-	}
-
 	return "file://" + resolvedPath, nil
 }
 
@@ -202,23 +220,29 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 		return false, fmt.Errorf("failed to get current working directory: %w", err)
 	}
 
-	diff, err := filepath.Rel(cwd, path)
-	return strings.Contains(diff, ".."), err
+	// Symlinks of the path have already been resolved
+	realCwd, err := getRealPath(cwd)
+	if err != nil {
+		return false, fmt.Errorf("failed to resolve current working directory: %w", err)
+	}
+
+	return isOutsideOfPath(path, realCwd), nil
 }
 
-func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
+func isOutsideOfAllowedPaths(path string, allowedPaths []string) bool {
 	for _, allowedPath := range allowedPaths {
-		matched, err := filepath.Match(filepath.Join(allowedPath, "*"), path)
-		if err != nil {
-			return false, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
-		}
-
-		if !matched {
-			return false, nil
+		if !isOutsideOfPath(path, allowedPath) {
+			return false
 		}
 	}
 
-	return true, nil
+	return true
+}
+
+// isOutsideOfPath checks if a path is neither the parent path itself nor anything below it
+func isOutsideOfPath(path string, parentPath string) bool {
+	diff, err := filepath.Rel(parentPath, path)
+	return err != nil || diff == ".." || strings.HasPrefix(diff, ".."+string(filepath.Separator))
 }
 
 func getRealPath(path string) (string, error) {
-- 
2.43.0


From 9e95b8b5f4c58f577a9a54606dcce1ddee1ae9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 17/70] fix: pick the fetcher by the document a relative
 reference is in

---
 document.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 139131f..ddf2d44 100644
--- a/document.go
+++ b/document.go
@@ -523,13 +523,13 @@ func (r *documentResolver) getFetcherForRef(documentId string) (documentFetcherI
 	}
 
 	if url.Scheme == "" {
-		url, err = url.Parse(r.documentCurrentlyBeingParsedId)
+		url, err = url.Parse(r.GetCurrentScope())
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.documentCurrentlyBeingParsedId, err)
+			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.GetCurrentScope(), err)
 		}
 
 		if url.Scheme == "" {
-			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.documentCurrentlyBeingParsedId)
+			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.GetCurrentScope())
 		}
 
 	}
-- 
2.43.0


From 4391cbd079e862b9d3cc6f4b45c304f003311611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 18/70] fix: resolve references against the base URI of the
 document and never treat other documents as the current one

---
 document.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/document.go b/document.go
index ddf2d44..80dd64f 100644
--- a/document.go
+++ b/document.go
@@ -30,6 +30,10 @@ type (
 		// Maps resolved $id URIs to the real document + JSON pointer path
 		// where the sub-schema lives, avoiding document duplication.
 		idAliases map[string]idAlias
+
+		// The base URI of each document. This is the absolute $id of a document if it has one or
+		// the location of the document otherwise
+		baseURIs map[string]string
 	}
 
 	// idAlias maps a resolved $id URI back to the parent document and the
@@ -99,19 +103,12 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		},
 		documentFetchers: documentFetchers,
 		idAliases:        make(map[string]idAlias),
+		baseURIs:         make(map[string]string),
 	}
 
 	// Collect $id aliases from the root document tree so that relative
 	// $ref values (e.g. $ref: "color") can be resolved without I/O.
-	baseURI := resolvedRootDocumentId
-	if rootDocument.Id != nil && isAbsoluteURI(*rootDocument.Id) {
-		baseURI = *rootDocument.Id
-	}
-
-	// Merge into existing idAliases
-	for resolvedId, alias := range collectSubSchemaIds(baseURI, resolvedRootDocumentId, rootDocument) {
-		resolver.idAliases[resolvedId] = alias
-	}
+	resolver.registerIds(resolvedRootDocumentId, rootDocument)
 
 	return resolver, nil
 }
@@ -327,11 +324,21 @@ func (r *documentResolver) addDocument(id string, node *schemaNode) {
 	r.parsedExternalDocuments[id] = false
 
 	// Collect $id aliases from the new document tree.
-	baseURI := id
+	r.registerIds(id, node)
+}
+
+// registerIds keeps track of every $id of a document so references to them can be resolved without I/O
+func (r *documentResolver) registerIds(documentId string, node *schemaNode) {
+	baseURI := documentId
 	if node.Id != nil && isAbsoluteURI(*node.Id) {
-		baseURI = *node.Id
+		baseURI = strings.TrimSuffix(*node.Id, "#")
+		if _, exists := r.idAliases[baseURI]; !exists {
+			r.idAliases[baseURI] = idAlias{documentId: documentId, path: "#"}
+		}
 	}
-	for resolvedId, alias := range collectSubSchemaIds(baseURI, id, node) {
+	r.baseURIs[documentId] = baseURI
+
+	for resolvedId, alias := range collectSubSchemaIds(baseURI, documentId, node) {
 		if _, exists := r.idAliases[resolvedId]; !exists {
 			r.idAliases[resolvedId] = alias
 		}
@@ -480,16 +487,25 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 func (r *documentResolver) resolveDocumentRef(documentID string, refPath string) (string, string, error) {
 	// Check $id alias table first — resolves bare-name refs like "color"
 	// to the real document + JSON pointer path with no I/O.
-	resolved := resolveRelativeURI(r.GetCurrentScope(), documentID)
-	if resolved != "" {
+	for _, baseURI := range []string{r.baseURIs[r.GetCurrentScope()], r.GetCurrentScope()} {
+		resolved := resolveRelativeURI(baseURI, documentID)
+		if resolved == "" {
+			continue
+		}
+
 		if alias, exists := r.idAliases[resolved]; exists {
 			return alias.documentId, composeJsonPointerPaths(alias.path, refPath), nil
 		}
+
+		// References back to a loaded document never need to be fetched
+		if _, exists := r.documents[resolved]; exists {
+			return resolved, refPath, nil
+		}
 	}
 
 	// No alias found — fall back to I/O-based fetchers.
 	if r.HasNoFetchers() {
-		return r.GetCurrentScope(), refPath, nil
+		return "", "", fmt.Errorf("document '%s' is not part of the schema and fetching documents is not enabled", documentID)
 	}
 
 	fetcher, err := r.getFetcherForRef(documentID)
-- 
2.43.0


From c2edf47644e709d8631499170c64303f8d37d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 19/70] fix: parse everything references point to and report
 what can not be resolved

---
 document.go       |  5 +++++
 parse.go          | 18 ++++++++++++++++--
 reference.go      | 44 ++++++++++++++++++++++++++++++++++++++++++++
 reference_path.go | 14 ++++++++++++--
 4 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/document.go b/document.go
index 80dd64f..150e776 100644
--- a/document.go
+++ b/document.go
@@ -224,6 +224,11 @@ func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(gene
 	return genericNode, nil
 }
 
+func (r *documentResolver) SetDocumentBeingParsed(documentId string) {
+	r.documentCurrentlyBeingParsedId = documentId
+	r.documentCurrentlyBeingResolvedId = documentId
+}
+
 func (r *documentResolver) SetDocumentBeingResolved(documentId string) {
 	r.documentCurrentlyBeingResolvedId = documentId
 }
diff --git a/parse.go b/parse.go
index 0d5c924..4ac6918 100644
--- a/parse.go
+++ b/parse.go
@@ -80,6 +80,9 @@ type (
 		ReferenceResolver referenceResolver
 		RootNode          schemaNode
 
+		// References that still have to be checked once everything is parsed
+		PendingReferences []pendingReference
+
 		// Global merge depth for the schema
 		MergeDepth int
 
@@ -273,14 +276,25 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 	generator, err := parseRoot(node, metadata)
 
+	parseExternalDocuments(metadata)
+
+	// Parsing what is left to be referenced can lead to more documents
+	for len(metadata.PendingReferences) > 0 {
+		parsePendingReferences(metadata)
+		parseExternalDocuments(metadata)
+	}
+
+	return generator, err
+}
+
+func parseExternalDocuments(metadata *parserMetadata) {
 	for metadata.DocumentResolver.HasMoreDocumentsToParse() {
+		metadata.ReferenceHandler.CurrentPath = "#"
 		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
 		}
 	}
-
-	return generator, err
 }
 
 // Parses a Json Schema byte array with default options. If there is an error parsing the schema, an error will be returned.
diff --git a/reference.go b/reference.go
index b9cd8bb..4b14d40 100644
--- a/reference.go
+++ b/reference.go
@@ -16,6 +16,15 @@ type (
 		// The handler that contains all parsed references
 		ReferenceHandler referenceHandler
 	}
+
+	// A reference found while parsing
+	pendingReference struct {
+		Document string
+		Path     string
+
+		// The path the reference was found at
+		OriginalPath string
+	}
 )
 
 // Parses the "$ref" keyword of a schema
@@ -38,6 +47,12 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 		return nil, fmt.Errorf("failed to handle deferred reference resolution for ref '%s': %w", *node.Ref, err)
 	}
 
+	metadata.PendingReferences = append(metadata.PendingReferences, pendingReference{
+		Document:     documentId,
+		Path:         ref,
+		OriginalPath: metadata.ReferenceHandler.CurrentPath,
+	})
+
 	return referenceGenerator{
 		Document:         documentId,
 		ReferenceStr:     ref,
@@ -45,6 +60,35 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 	}, nil
 }
 
+// parsePendingReferences parses everything references point to that is not parsed as a part of the schema itself.
+// For example definitions that are nested in other definitions
+func parsePendingReferences(metadata *parserMetadata) {
+	for len(metadata.PendingReferences) > 0 {
+		pending := metadata.PendingReferences[0]
+		metadata.PendingReferences = metadata.PendingReferences[1:]
+
+		if _, ok := metadata.ReferenceHandler.Lookup(pending.Document, pending.Path); ok {
+			continue
+		}
+
+		metadata.DocumentResolver.SetDocumentBeingParsed(pending.Document)
+		node, _, err := metadata.DocumentResolver.ResolvePath(metadata, pending.Path)
+		if err != nil {
+			metadata.ReferenceHandler.CurrentPath = pending.OriginalPath
+			metadata.Errors.AddErrorWithSubpath("/$ref", fmt.Errorf("failed to resolve reference '%s' to document '%s': %w", pending.Path, pending.Document, err))
+			continue
+		}
+
+		metadata.ReferenceHandler.CurrentPath = pending.Path
+		metadata.ReferenceResolver.PushRefResolution(pending.Document, pending.Path)
+		_, err = parseNode(*node, metadata)
+		metadata.ReferenceResolver.PopRefResolution()
+		if err != nil {
+			metadata.Errors.AddErrorWithSubpath("/$ref", fmt.Errorf("failed to parse reference '%s' to document '%s': %w", pending.Path, pending.Document, err))
+		}
+	}
+}
+
 func (g referenceGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 
diff --git a/reference_path.go b/reference_path.go
index 748da70..0777ab9 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -144,9 +145,18 @@ var pathDeliminator = regexp.MustCompile(`\/`)
 // Get the first token of a reference path and the rest of the path
 func getReferencePathToken(pathRef string) (string, string) {
 	if !strings.Contains(pathRef, "/") {
-		return pathRef, ""
+		return decodeReferencePathToken(pathRef), ""
 	}
 
 	refPathParts := pathDeliminator.Split(pathRef, 2)
-	return refPathParts[0], refPathParts[1]
+	return decodeReferencePathToken(refPathParts[0]), refPathParts[1]
+}
+
+// Decodes a token of a JSON pointer within a URI fragment
+func decodeReferencePathToken(token string) string {
+	if unescaped, err := url.PathUnescape(token); err == nil {
+		token = unescaped
+	}
+
+	return strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
 }
-- 
2.43.0


From 632d5731dbf775b655961aa66406ea9944bb34ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 20/70] fix: update the random source of regex generators
 atomically

---
 internal/regen/regen.go |  5 +----
 internal/regen/rng.go   | 33 +++++++++++++++++++++------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/internal/regen/regen.go b/internal/regen/regen.go
index 0afa8f5..e9b71f2 100644
--- a/internal/regen/regen.go
+++ b/internal/regen/regen.go
@@ -60,10 +60,7 @@ is used to seed an XorShift64 source (algorithm from the paper at http://vigna.d
 This source only uses a single variable internally, and is much faster to seed than the default source. One
 source is created per call to NewGenerator. If no source is passed in, the default source is used to seed.
 
-The source is not locked and does not use atomic operations, so there is a chance that multiple goroutines using
-the same source may get the same output. While obviously not cryptographically secure, I think the simplicity and performance
-benefit outweighs the risk of collisions. If you really care about preventing this, the solution is simple: don't
-call a single Generator from multiple goroutines.
+The source is not locked but its single variable is updated atomically.
 
 # Benchmarks
 
diff --git a/internal/regen/rng.go b/internal/regen/rng.go
index 74194b2..c608617 100644
--- a/internal/regen/rng.go
+++ b/internal/regen/rng.go
@@ -16,11 +16,13 @@ limitations under the License.
 
 package regen
 
+import "sync/atomic"
+
 /*
 The default Source implementation is very slow to seed. Replaced with a
 64-bit xor-shift source from http://vigna.di.unimi.it/ftp/papers/xorshift.pdf.
-This source seeds very quickly, and only uses a single variable, so concurrent
-modification by multiple goroutines is possible.
+This source seeds very quickly, and only uses a single variable, which is updated
+atomically so that it can be used by multiple goroutines.
 
 To create a seeded source:
 	randSource := xorShift64Source(mySeed)
@@ -31,18 +33,25 @@ To create a source with the default seed:
 type xorShift64Source uint64
 
 func (src *xorShift64Source) Seed(seed int64) {
-	*src = xorShift64Source(seed)
+	atomic.StoreUint64((*uint64)(src), uint64(seed))
 }
 
 func (src *xorShift64Source) Int63() int64 {
-	// A zero seed will only generate zeros.
-	if *src == 0 {
-		*src = 1
+	for {
+		current := atomic.LoadUint64((*uint64)(src))
+
+		// A zero seed will only generate zeros.
+		next := current
+		if next == 0 {
+			next = 1
+		}
+
+		next ^= next >> 12 // a
+		next ^= next << 25 // b
+		next ^= next >> 27 // c
+
+		if atomic.CompareAndSwapUint64((*uint64)(src), current, next) {
+			return int64((next * 2685821657736338717) >> 1)
+		}
 	}
-
-	*src ^= *src >> 12 // a
-	*src ^= *src << 25 // b
-	*src ^= *src >> 27 // c
-
-	return int64((*src * 2685821657736338717) >> 1)
 }
-- 
2.43.0


From 85e819ae06a64ab9a99b2caa044b9696aeaafe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 21/70] fix: never share the values of an enum or const between
 generated values

---
 const.go              |  3 ++-
 enum.go               |  4 +++-
 internal/util/util.go | 20 ++++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/const.go b/const.go
index b97c51f..d3f4d42 100644
--- a/const.go
+++ b/const.go
@@ -39,7 +39,8 @@ func parseConst(node schemaNode, metadata *parserMetadata) (Generator, error) {
 }
 
 func (g constGenerator) Generate(opts *GeneratorOptions) interface{} {
-	return g.Value
+	// Copied given the caller owns the generated value
+	return util.CopyJsonValue(g.Value)
 }
 
 func (g constGenerator) String() string {
diff --git a/enum.go b/enum.go
index 75048ba..e30950f 100644
--- a/enum.go
+++ b/enum.go
@@ -52,7 +52,9 @@ func parseEnum(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 func (g enumGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
-	return opts.Rand.Choice(g.Values)
+
+	// Copied given the caller owns the generated value
+	return util.CopyJsonValue(opts.Rand.Choice(g.Values))
 }
 
 func (g enumGenerator) String() string {
diff --git a/internal/util/util.go b/internal/util/util.go
index 5eb7fee..022f810 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -321,3 +321,23 @@ func MapKeysToStringSlice[T any](maps ...*map[string]T) []string {
 
 	return result
 }
+
+// CopyJsonValue copies the objects and arrays of an unmarshalled JSON value
+func CopyJsonValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		result := make(map[string]interface{}, len(v))
+		for key, item := range v {
+			result[key] = CopyJsonValue(item)
+		}
+		return result
+	case []interface{}:
+		result := make([]interface{}, len(v))
+		for i, item := range v {
+			result[i] = CopyJsonValue(item)
+		}
+		return result
+	default:
+		return v
+	}
+}
-- 
2.43.0


From 98ef120bc3c4460f43834652587b01aeda8adaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 22/70] fix: compile every sub-schema used for validation under
 a name of its own

---
 schema.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 9f7ac42..036c9bd 100644
--- a/schema.go
+++ b/schema.go
@@ -14,6 +14,9 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+
+		// The number of sub-schemas added to the compiler. Used to keep their names unique
+		subSchemaCount int
 	}
 
 	internalOnlyLoader struct {
@@ -45,11 +48,16 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 // Parses a schema node and creates a subdocument in the root schema compiler
 // allowing for reference resolutions back into the original schema from any given sub-schema fragment
 func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node schemaNode, field string) (*jsonschemaV6.Schema, error) {
-	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s", parserMetadata.ReferenceHandler.CurrentPath, field))
+	// Different paths can be normalised to the same name and a path can be parsed several times with a different node
+	sm.subSchemaCount++
+	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
 	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
 
-	sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode)
+	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
+		return nil, err
+	}
+
 	return sm.CompilePath(currentPath)
 }
 
-- 
2.43.0


From 954fe8f2ef085fcedb2e683162e2ac0943769c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 23/70] fix: resolve the references of sub-schemas used for
 validation

---
 json.go   |  2 +-
 schema.go | 66 +++++++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/json.go b/json.go
index 43cfd98..c89f20d 100644
--- a/json.go
+++ b/json.go
@@ -157,7 +157,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 		return json.Marshal(s.Schema)
 	}
 
-	return []byte("null"), nil
+	return []byte("true"), nil
 }
 
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
diff --git a/schema.go b/schema.go
index 036c9bd..321ac37 100644
--- a/schema.go
+++ b/schema.go
@@ -19,7 +19,9 @@ type (
 		subSchemaCount int
 	}
 
-	internalOnlyLoader struct {
+	// Only provides documents through the document resolver
+	documentLoader struct {
+		schemaManager *schemaManager
 	}
 )
 
@@ -30,19 +32,20 @@ var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
 // to ensure they conform to the original schema constraints
 func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaManager, error) {
 	jsonSchemaCompiler := jsonschema.NewCompiler()
+	manager := &schemaManager{
+		rootSchemaCompiler: jsonSchemaCompiler,
+		documentResolver:   resolver,
+	}
 
 	// To prevent external references from being inadvertently loaded or files from the local filesystem
-	// unless they are explicitly added to the schema manager by the upper level parser
-	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
+	// unless the upper level parser is allowed to fetch them
+	jsonSchemaCompiler.UseLoader(documentLoader{schemaManager: manager})
 
 	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), util.UnmarshalJsonStringToMap(string(schemaJson))); err != nil {
 		return nil, err
 	}
 
-	return &schemaManager{
-		rootSchemaCompiler: jsonSchemaCompiler,
-		documentResolver:   resolver,
-	}, nil
+	return manager, nil
 }
 
 // Parses a schema node and creates a subdocument in the root schema compiler
@@ -73,14 +76,12 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 	case map[string]interface{}:
 		if ref, ok := v["$ref"]; ok {
 			if refStr, ok := ref.(string); ok {
-				if strings.Contains(refStr, "://") {
-					// External cross-document refs (full URLs) can't be resolved
-					// by the internal-only compiler. Strip them so the sub-schema
-					// becomes permissive for that part. The go-chaff parser handles
-					// cross-document resolution separately at the parse level.
+				v["$ref"] = sm.GetCompilerReference(refStr)
+
+				if v["$ref"] == "" {
+					// External cross-document refs that can't be resolved are stripped so the sub-schema
+					// becomes permissive for that part. The go-chaff parser reports them at the parse level.
 					delete(v, "$ref")
-				} else {
-					v["$ref"] = sm.documentResolver.GetCurrentScope() + refStr
 				}
 			}
 		}
@@ -98,10 +99,43 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 	}
 }
 
+// GetCompilerReference rewrites a reference to point to the document it resolves to.
+// The result is empty if it is an external reference that can not be resolved.
+func (sm *schemaManager) GetCompilerReference(ref string) string {
+	if strings.HasPrefix(ref, "#") {
+		return sm.documentResolver.GetCurrentScope() + ref
+	}
+
+	documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(ref)
+	if err == nil {
+		return documentId + path
+	}
+
+	if strings.Contains(ref, "://") {
+		return ""
+	}
+
+	return sm.documentResolver.GetCurrentScope() + ref
+}
+
 func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error) {
 	return sm.rootSchemaCompiler.Compile(sm.documentResolver.GetCurrentScope() + path)
 }
 
-func (l internalOnlyLoader) Load(url string) (any, error) {
-	return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation", url)
+func (l documentLoader) Load(url string) (any, error) {
+	resolver := l.schemaManager.documentResolver
+	document, isLoaded := resolver.documents[url]
+	if !isLoaded {
+		var err error
+		if document, err = resolver.resolveDocument(url); err != nil {
+			return nil, fmt.Errorf("document %q is not available for schema validation: %w", url, err)
+		}
+	}
+
+	// References of the document are relative to the document
+	previousScope := resolver.documentCurrentlyBeingResolvedId
+	resolver.SetDocumentBeingResolved(url)
+	defer resolver.SetDocumentBeingResolved(previousScope)
+
+	return l.schemaManager.replaceRefs(util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document))), nil
 }
-- 
2.43.0


From 184127c7605e83d00693d8bc5cf01c0e3c0ec6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 24/70] fix: name filler properties so that they never collide
 with declared ones

---
 object.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/object.go b/object.go
index 2d46884..2472ec2 100644
--- a/object.go
+++ b/object.go
@@ -272,7 +272,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
 		for i := 0; i < generatorTarget; i++ {
-			generatedValues[fmt.Sprintf("additional_%d", i)] = g.AdditionalProperties.Generate(opts)
+			g.addUndeclaredProperty(generatedValues, "additional", g.AdditionalProperties, opts)
 		}
 	} else {
 		for i := 0; i < generatorTarget; i++ {
@@ -280,7 +280,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 				continue
 			}
 
-			generatedValues[fmt.Sprintf("fallback_%d", i)] = g.FallbackGenerator.Generate(opts)
+			g.addUndeclaredProperty(generatedValues, "fallback", g.FallbackGenerator, opts)
 		}
 	}
 
@@ -294,7 +294,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		}
 
 		for i := len(generatedValues); i < min; i++ {
-			generatedValues[fmt.Sprintf("min_filler_%d", i)] = generator.Generate(opts)
+			g.addUndeclaredProperty(generatedValues, "min_filler", generator, opts)
 		}
 
 	}
@@ -321,6 +321,29 @@ func (g objectGenerator) generateKey(key string, fallbackPrefix string, opts *Ge
 	return fmt.Sprintf("%s_%s_%d", fallbackPrefix, key, opts.Rand.RandomInt(0, 9999999))
 }
 
+// addUndeclaredProperty adds a property under the first name with the given prefix that is
+// neither taken nor belongs to any of the declared properties
+func (g objectGenerator) addUndeclaredProperty(generatedValues map[string]interface{}, prefix string, generator Generator, opts *GeneratorOptions) {
+	candidates := len(generatedValues) + len(g.Properties) + opts.MaximumUniqueGeneratorAttempts
+	for i := 0; i < candidates; i++ {
+		name := fmt.Sprintf("%s_%d", prefix, i)
+		_, isGenerated := generatedValues[name]
+		_, isProperty := g.Properties[name]
+		patterns := matchingPatterns(g.PatternProperties, name)
+
+		if isGenerated || isProperty || len(patterns) > 1 {
+			continue
+		}
+
+		if len(patterns) == 1 {
+			generator = g.PatternProperties[patterns[0]]
+		}
+
+		generatedValues[name] = generator.Generate(opts)
+		return
+	}
+}
+
 // addPatternProperty adds a pattern property unless its name is already taken or belongs to another property
 func (g objectGenerator) addPatternProperty(generatedValues map[string]interface{}, opts *GeneratorOptions) {
 	name, value := g.GeneratePatternProperty(opts)
-- 
2.43.0


From 756e20bcfba4bf94b86bbf709ffa8edeffe5cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 25/70] fix: escape the names sub-schemas are compiled under

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 321ac37..c2c83a2 100644
--- a/schema.go
+++ b/schema.go
@@ -25,7 +25,7 @@ type (
 	}
 )
 
-var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
+var pathSanitiseRegex = regexp.MustCompile(`[^a-zA-Z0-9_]`)
 
 // Create a new schema manager used to manage sub schema validators required for
 // conditional validators where generated values must be validated against the original schema
@@ -64,7 +64,7 @@ func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node sc
 	return sm.CompilePath(currentPath)
 }
 
-// Replaces all slashes with underscores and removes any hashtags or punctuation that may interfere with
+// Replaces all slashes with underscores and removes anything (hashtags, punctuation, escapes) that may interfere with
 // the schema compiler's ability to parse the path given it is a "file name" technically
 func (sm *schemaManager) normalisePath(path string) string {
 	return pathSanitiseRegex.ReplaceAllString(path, "_")
-- 
2.43.0


From 3abb893e775dbf0c5b6aca934fac30db557c2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 26/70] fix: conform to every if statement of a schema at once

---
 if.go | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/if.go b/if.go
index 9bdbf30..da5c87d 100644
--- a/if.go
+++ b/if.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"strings"
 
 	"github.com/thoas/go-funk"
@@ -17,6 +18,9 @@ type (
 
 	multipleIfConstraints struct {
 		constraints []ifConstraint
+
+		// Checks that a value conforms to every if statement at once (Can be nil if there is nothing to check)
+		conformsToAll func(value any) bool
 	}
 
 	ifStatement struct {
@@ -77,11 +81,38 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	return constrainedGenerator{
 		internalGenerator: internalGenerator,
-		constraints:       []constraint{multipleIfConstraints{constraints: constraints}},
+		constraints: []constraint{multipleIfConstraints{
+			constraints:   constraints,
+			conformsToAll: compileIfStatements(node, mergedIf, metadata),
+		}},
 	}, nil
 
 }
 
+// compileIfStatements compiles a check for values that have to conform to several if statements.
+// A value that was generated to satisfy one of them does not have to satisfy the ones before it.
+func compileIfStatements(node schemaNode, statements []ifStatement, metadata *parserMetadata) func(value any) bool {
+	if len(statements) < 2 {
+		return nil
+	}
+
+	statementNodes := []schemaNode{}
+	for _, statement := range statements {
+		statementNodes = append(statementNodes, schemaNode{If: statement.If, Then: statement.Then, Else: statement.Else})
+	}
+
+	node.AllOf = &statementNodes
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, "if")
+	if err != nil {
+		metadata.Errors.AddErrorWithSubpath("/if/config_compile_error", fmt.Errorf("failed to compile if statements: %w", err))
+		return nil
+	}
+
+	return func(value any) bool {
+		return schema.Validate(value) == nil
+	}
+}
+
 func parseIfBody(metadata *parserMetadata, field string, parentScope schemaNode, bodyNode *schemaNode) Generator {
 	if bodyNode == nil {
 		return nil
@@ -201,12 +232,12 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 	for i := 0; i < maxAttempts; i++ {
 		generatorOptions.overallComplexity++
 
-		currentValue := generatedValue
+		currentValue, overlaidValue := generatedValue, generatedValue
 		allSatisfied := true
 
 		for _, constraintIdx := range generatorOptions.Rand.Rand.Perm(len(g.constraints)) {
 			if satisfiedValue, satisfied := g.constraints[constraintIdx].AttemptToSatisfyIfStatement(generatorOptions, currentValue, true); satisfied {
-				currentValue = satisfiedValue
+				currentValue, overlaidValue = g.combine(currentValue, satisfiedValue), g.combine(satisfiedValue, overlaidValue)
 			} else {
 				allSatisfied = false
 				break
@@ -214,7 +245,11 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 		}
 
 		if allSatisfied {
-			return currentValue
+			for _, candidate := range []interface{}{currentValue, overlaidValue, generatedValue} {
+				if g.conformsToAll == nil || g.conformsToAll(candidate) {
+					return candidate
+				}
+			}
 		}
 
 		// Regenerate the value for the next attempt, so different random choices
@@ -228,6 +263,20 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 	)
 }
 
+// combine adds what is missing from an object to keep what satisfies the other if statements
+func (g multipleIfConstraints) combine(value interface{}, additions interface{}) interface{} {
+	object, isObject := value.(map[string]interface{})
+	additionalProperties, isAdditionsObject := additions.(map[string]interface{})
+	if g.conformsToAll == nil || !isObject || !isAdditionsObject {
+		return additions
+	}
+
+	combined := maps.Clone(additionalProperties)
+	maps.Copy(combined, object)
+
+	return combined
+}
+
 func (g multipleIfConstraints) String() string {
 	return fmt.Sprintf("MultipleIfConstraints[%s]", strings.Join(funk.Map(g.constraints, func(c ifConstraint) string {
 		return c.String()
-- 
2.43.0


From fab3506b16e890cc5bb2ecbb2538b1cd799ef26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 27/70] fix: reject generated values that conform to a negated
 schema

---
 not.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index aa7cb77..d99c6c6 100644
--- a/not.go
+++ b/not.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -96,14 +97,37 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	compiledConstraints := allConstraints.Compile()
+	addNotSchemaConstraints(metadata, compiledConstraints, rawNotNodes)
+
 	return constrainedGenerator{
 		internalGenerator: internalGenerator,
 		constraints: []constraint{
-			allConstraints.Compile(),
+			compiledConstraints,
 		},
 	}, nil
 }
 
+// addNotSchemaConstraints rejects the generated values that conform to one of the negated schemas,
+// given not every negated keyword can be turned into limits for the generator.
+func addNotSchemaConstraints(metadata *parserMetadata, constraints *multiConstraint, rawNotNodes []*schemaNode) {
+	for i, raw := range rawNotNodes {
+		// Formats are annotations to the schema validator, they are enforced by a constraint of their own
+		if raw == nil || strings.Contains(util.MarshalJsonToString(raw), `"format":`) {
+			continue
+		}
+
+		schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *raw, "not")
+		if err != nil {
+			continue
+		}
+
+		constraints.functions[fmt.Sprintf("Not: %d", i)] = func(value interface{}) bool {
+			return schema.Validate(value) != nil
+		}
+	}
+}
+
 // collectNotNodes gathers all not sub-schemas from a node into a single slice.
 // This includes node.Not (the inline "not" keyword) and node.mergedNot (not
 // nodes accumulated during allOf merges where each branch's "not" must be
-- 
2.43.0


From 7a1eea8dfc7892c93b471de58d24cc6ba43decbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 28/70] fix: keep multipleOf and bounds when a negated
 multipleOf can not be precomputed

---
 not.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/not.go b/not.go
index d99c6c6..db119a1 100644
--- a/not.go
+++ b/not.go
@@ -324,6 +324,7 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 
 	newNode.Minimum = min
 	newNode.Maximum = max
+	newNode.MultipleOf = node.MultipleOf
 
 	// Handle multipleOf
 	multipleOf := util.GetZeroIfNil(node.MultipleOf, 0)
@@ -365,18 +366,24 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		max := util.GetZeroIfNil(max, upperBound)
 
 		validValues, err := computeValidMultipleOfValues(metadata, min, max, multipleOf, notMultipleOf)
-		if err != nil && alturnateMin != nil || alturnateMax != nil {
+		if alturnateMin != nil || alturnateMax != nil {
 			alturnateMinVal := util.GetZeroIfNil(alturnateMin, lowerBound)
 			alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
 
-			validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+			alturnateValues, alturnateErr := computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+			validValues = append(validValues, alturnateValues...)
+			if alturnateErr == nil {
+				err = nil
+			}
+		}
 
-			// In the event both upper bound computations fail, we warn and exit given there is not
-			// more we can reasonably do to find valid values
-			if err != nil {
+		// In the event all bound computations fail, we leave it to the constraints on the generated
+		// values to find valid ones and warn if the bounds are known to contain none
+		if err != nil {
+			if min > lowerBound && max < upperBound {
 				warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
-				return nil
 			}
+			return nil
 		}
 
 		newNode.MultipleOf = nil
@@ -406,8 +413,6 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 			}
 			newNode.Enum = &interfaceValues
 		}
-	} else {
-		newNode.MultipleOf = node.MultipleOf
 	}
 
 	return nil
-- 
2.43.0


From 5ad51fa499c090fbb637aea84798bc8835f66a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 29/70] fix: generate arrays and objects of the largest allowed
 size

---
 array.go  | 2 +-
 object.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index e40a69e..27f4e87 100644
--- a/array.go
+++ b/array.go
@@ -292,7 +292,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Compute how many items we can generate over the minimum satisfiable set of data)
 	remainingItemsToGenerate := util.MaxInt(0, maxItems-(tupleLength+g.MinContains))
 
-	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate)
+	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate+1)
 
 	// Cull the remaining items if the complexity is too high or unevaluated items are not allowed
 	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {
diff --git a/object.go b/object.go
index 2472ec2..1de74c2 100644
--- a/object.go
+++ b/object.go
@@ -240,7 +240,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Required))
 	maximumExtrasToGenerate := util.MaxInt(0, max-len(g.Required))
 
-	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate)
+	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate+1)
 
 	if opts.ShouldMinimize() {
 		generatorTarget = minimumExtrasToGenerate
-- 
2.43.0


From 73baeb613a6cd2dc75659d7d3b00e9b0c16b1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 30/70] fix: reject schemas whose negation leaves no type

---
 not.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index db119a1..ee2404c 100644
--- a/not.go
+++ b/not.go
@@ -90,7 +90,10 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
-	currentNode, allConstraints := applyNotConstraints(metadata, flatNode, notNodes)
+	currentNode, allConstraints, err := applyNotConstraints(metadata, flatNode, notNodes)
+	if err != nil {
+		return nullGenerator{}, err
+	}
 
 	internalGenerator, err := parseNode(currentNode, metadata)
 	if err != nil {
@@ -182,15 +185,19 @@ func flattenAndPartitionNotNodes(metadata *parserMetadata, rawNotNodes []*schema
 // applyNotConstraints applies each not node sequentially to the base node via
 // notMerge, accumulating constraints that cannot be statically resolved into a
 // single constraintCollection.
-func applyNotConstraints(metadata *parserMetadata, baseNode schemaNode, notNodes []schemaNode) (schemaNode, constraintCollection) {
+func applyNotConstraints(metadata *parserMetadata, baseNode schemaNode, notNodes []schemaNode) (schemaNode, constraintCollection, error) {
 	currentNode := baseNode
 	allConstraints := newConstraintCollection()
 	for _, notNode := range notNodes {
+		if _, err := resolveType(currentNode, notNode); err != nil {
+			return currentNode, allConstraints, err
+		}
+
 		newNode, cc := notMerge(metadata, currentNode, notNode)
 		currentNode = newNode
 		allConstraints.Merge(cc)
 	}
-	return currentNode, allConstraints
+	return currentNode, allConstraints, nil
 }
 
 // Merges two nodes, one with candidate
-- 
2.43.0


From 04ea3d16f55d025f4fcddb6fbe34d9ad992fc736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 31/70] fix: keep the first size allowed by a negated maximum
 size

---
 not.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/not.go b/not.go
index ee2404c..99eb8fb 100644
--- a/not.go
+++ b/not.go
@@ -948,7 +948,7 @@ func resolveBoundsInt(metadata *parserMetadata,
 
 	// Not bounds are inverted (notMax -> min, notMin -> max)
 	y1 := util.GetZeroIfNil(notMinPtr, minInt)
-	y2 := util.GetZeroIfNil(addIfNotNilInt(notMaxPtr, 1), maxInt)
+	y2 := util.GetZeroIfNil(notMaxPtr, maxInt)
 
 	// No bounds overlap return original
 	if y2 < x1 || y1 > x2 {
@@ -1095,15 +1095,6 @@ func addIfNotNilFloat64(value *float64, addition float64) *float64 {
 	return &newValue
 }
 
-func addIfNotNilInt(value *int, addition int) *int {
-	if value == nil {
-		return nil
-	}
-
-	newValue := *value + int(addition)
-	return &newValue
-}
-
 func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max float64, multipleOf float64, notMultipleOf float64) ([]float64, error) {
 	const maximumIterations = 10000
 	const maximumValidCandidates = 200
-- 
2.43.0


From 0dc260be90c5e7317949d8dcebd4855cec13e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 32/70] fix: never treat the data of enum and const or property
 names as keywords

---
 document.go | 57 +++++++++++++++++------------------------------------
 schema.go   | 39 +++++++++++++++---------------------
 walk.go     | 41 ++++++++++++++++++++++++++++++++++++--
 3 files changed, 73 insertions(+), 64 deletions(-)

diff --git a/document.go b/document.go
index 150e776..aa643b8 100644
--- a/document.go
+++ b/document.go
@@ -179,49 +179,28 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 }
 
 func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) (genericNode, error) {
-	for key, value := range genericNode {
-		if key == "$ref" {
-			refStr, ok := value.(string)
-
-			// If the value under $ref is not a string, skip it
-			// for polymorphic schemas that may have non-string $ref values
-			// { "properties": {"$ref": {...}}
-			if !ok {
-				return genericNode, nil
-			}
-
-			documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
-			if err != nil {
-				return genericNode, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
-			}
-
-			// Rewrite the reference to be relative to the given document ID
-			genericNode["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+	var rewriteErr error
+
+	walkSchema(genericNode, "", func(node map[string]interface{}, _ string) {
+		// If the value under $ref is not a string, skip it
+		// for polymorphic schemas that may have non-string $ref values
+		// { "properties": {"$ref": {...}}
+		refStr, ok := node["$ref"].(string)
+		if !ok || rewriteErr != nil {
+			return
 		}
 
-		// Recursively traverse nested objects
-		switch v := value.(type) {
-		case map[string]interface{}:
-			rewrittenNode, err := r.rewriteReferencesRelativeToDocumentInGenericNode(v)
-			if err != nil {
-				return genericNode, err
-			}
-			genericNode[key] = rewrittenNode
-		case []interface{}:
-			for i, item := range v {
-				if itemMap, ok := item.(map[string]interface{}); ok {
-					rewrittenItem, err := r.rewriteReferencesRelativeToDocumentInGenericNode(itemMap)
-					if err != nil {
-						return genericNode, err
-					}
-					v[i] = rewrittenItem
-				}
-			}
-			genericNode[key] = v
+		documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
+		if err != nil {
+			rewriteErr = fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
+			return
 		}
-	}
 
-	return genericNode, nil
+		// Rewrite the reference to be relative to the given document ID
+		node["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+	})
+
+	return genericNode, rewriteErr
 }
 
 func (r *documentResolver) SetDocumentBeingParsed(documentId string) {
diff --git a/schema.go b/schema.go
index c2c83a2..29f5052 100644
--- a/schema.go
+++ b/schema.go
@@ -72,31 +72,24 @@ func (sm *schemaManager) normalisePath(path string) string {
 
 // Recursively replaces all $ref values in the schema with links back to the root schema
 func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
-	switch v := data.(type) {
-	case map[string]interface{}:
-		if ref, ok := v["$ref"]; ok {
-			if refStr, ok := ref.(string); ok {
-				v["$ref"] = sm.GetCompilerReference(refStr)
-
-				if v["$ref"] == "" {
-					// External cross-document refs that can't be resolved are stripped so the sub-schema
-					// becomes permissive for that part. The go-chaff parser reports them at the parse level.
-					delete(v, "$ref")
-				}
+	if node, ok := data.(map[string]interface{}); ok {
+		walkSchema(node, "", func(v map[string]interface{}, _ string) {
+			refStr, ok := v["$ref"].(string)
+			if !ok {
+				return
 			}
-		}
-		for key, value := range v {
-			v[key] = sm.replaceRefs(value)
-		}
-		return v
-	case []interface{}:
-		for i, item := range v {
-			v[i] = sm.replaceRefs(item)
-		}
-		return v
-	default:
-		return v
+
+			v["$ref"] = sm.GetCompilerReference(refStr)
+
+			if v["$ref"] == "" {
+				// External cross-document refs that can't be resolved are stripped so the sub-schema
+				// becomes permissive for that part. The go-chaff parser reports them at the parse level.
+				delete(v, "$ref")
+			}
+		})
 	}
+
+	return data
 }
 
 // GetCompilerReference rewrites a reference to point to the document it resolves to.
diff --git a/walk.go b/walk.go
index a6f0dc5..d86ebf4 100644
--- a/walk.go
+++ b/walk.go
@@ -1,6 +1,10 @@
 package chaff
 
-import "fmt"
+import (
+	"fmt"
+	"net/url"
+	"strings"
+)
 
 // WalkSchema recursively visits every JSON object node in a schema tree.
 // The visitor is called for each node, parents before children.
@@ -9,9 +13,22 @@ func walkSchema(node map[string]interface{}, path string, visit func(node map[st
 	visit(node, path)
 
 	for key, value := range node {
-		childPath := path + "/" + key
+		if isDataKeyword(key) {
+			continue
+		}
+
+		childPath := path + "/" + encodeReferencePathToken(key)
 
 		if obj, ok := value.(map[string]interface{}); ok {
+			if isNamedSchemasKeyword(key) {
+				for name, namedValue := range obj {
+					if namedNode, ok := namedValue.(map[string]interface{}); ok {
+						walkSchema(namedNode, childPath+"/"+encodeReferencePathToken(name), visit)
+					}
+				}
+				continue
+			}
+
 			walkSchema(obj, childPath, visit)
 			continue
 		}
@@ -30,3 +47,23 @@ func walkSchema(node map[string]interface{}, path string, visit func(node map[st
 		}
 	}
 }
+
+// The value of these keywords is plain data and never a schema
+func isDataKeyword(keyword string) bool {
+	return keyword == "enum" || keyword == "const"
+}
+
+// The value of these keywords maps names to schemas. The names themselves are no keywords
+func isNamedSchemasKeyword(keyword string) bool {
+	switch keyword {
+	case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
+		return true
+	}
+
+	return false
+}
+
+// Encodes a token for a JSON pointer within a URI fragment
+func encodeReferencePathToken(token string) string {
+	return url.PathEscape(strings.NewReplacer("~", "~0", "/", "~1").Replace(token))
+}
-- 
2.43.0


From 5f2e257cfaec28c5a52df7c35c6a895b12334426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 33/70] fix: resolve the references of embedded schemas against
 their own id

---
 document.go | 63 ++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index aa643b8..7e32798 100644
--- a/document.go
+++ b/document.go
@@ -327,6 +327,58 @@ func (r *documentResolver) registerIds(documentId string, node *schemaNode) {
 			r.idAliases[resolvedId] = alias
 		}
 	}
+
+	rebaseEmbeddedReferences(baseURI, node)
+}
+
+// rebaseEmbeddedReferences rewrites the references within sub-schemas that have an "$id" of their own.
+// Those are relative to that "$id" while every other reference is relative to the document.
+func rebaseEmbeddedReferences(baseURI string, node *schemaNode) {
+	data, err := json.Marshal(node)
+	if err != nil {
+		return
+	}
+	var raw map[string]interface{}
+	if err := json.Unmarshal(data, &raw); err != nil {
+		return
+	}
+
+	hasRebased := false
+	baseAtPath := map[string]string{"": baseURI}
+
+	walkSchema(raw, "", func(n map[string]interface{}, path string) {
+		if id, ok := n["$id"].(string); ok && id != "" && path != "" {
+			if resolved := resolveRelativeURI(nearestBaseURI(baseAtPath, path), id); resolved != "" {
+				baseAtPath[path] = resolved
+			}
+		}
+
+		ref, ok := n["$ref"].(string)
+		resourcePath := nearestBasePath(baseAtPath, path)
+		if !ok || resourcePath == "" {
+			return
+		}
+
+		if ref == "#" || strings.HasPrefix(ref, "#/") {
+			n["$ref"] = "#" + resourcePath + ref[1:]
+		} else if resolved := resolveRelativeURI(baseAtPath[resourcePath], ref); resolved != "" {
+			n["$ref"] = resolved
+		}
+		hasRebased = hasRebased || n["$ref"] != ref
+	})
+
+	if !hasRebased {
+		return
+	}
+
+	if data, err = json.Marshal(raw); err != nil {
+		return
+	}
+
+	rebasedNode := schemaNode{}
+	if err := json.Unmarshal(data, &rebasedNode); err == nil {
+		*node = rebasedNode
+	}
 }
 
 // collectSubSchemaIds marshals a schema node to a generic map and recursively
@@ -374,9 +426,14 @@ func collectSubSchemaIds(baseURI string, documentId string, node *schemaNode) ma
 // nearestBaseURI walks up the JSON pointer path to find the closest ancestor
 // that established a base URI via $id.
 func nearestBaseURI(baseAtPath map[string]string, path string) string {
+	return baseAtPath[nearestBasePath(baseAtPath, path)]
+}
+
+// nearestBasePath is the path of the closest ancestor that established a base URI via $id.
+func nearestBasePath(baseAtPath map[string]string, path string) string {
 	for p := path; ; {
-		if base, ok := baseAtPath[p]; ok {
-			return base
+		if _, ok := baseAtPath[p]; ok {
+			return p
 		}
 		i := strings.LastIndex(p, "/")
 		if i < 0 {
@@ -384,7 +441,7 @@ func nearestBaseURI(baseAtPath map[string]string, path string) string {
 		}
 		p = p[:i]
 	}
-	return baseAtPath[""]
+	return ""
 }
 
 // resolveRelativeURI resolves rel against base using standard URL resolution.
-- 
2.43.0


From b97fafc04d758da65404c1cd96388af52d2edc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 34/70] fix: keep resolving references against the document
 being parsed after merging and load documents before what refers to them

---
 merge.go     | 5 ++---
 parse.go     | 8 +-------
 reference.go | 3 +++
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/merge.go b/merge.go
index c2a5133..02876a9 100644
--- a/merge.go
+++ b/merge.go
@@ -98,10 +98,9 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		if resolvedReference {
-			// Pop the reference resolution and set the document being resolved back to the previous one
+			// Pop the reference resolution. References of the merged schemas are relative to the document being parsed
 			metadata.ReferenceResolver.PopRefResolution()
-			document, _ := metadata.ReferenceResolver.GetCurrentResolution()
-			metadata.DocumentResolver.SetDocumentBeingResolved(document)
+			metadata.DocumentResolver.SetDocumentBeingResolved(metadata.DocumentResolver.GetDocumentIdCurrentlyBeingParsed())
 		}
 	}
 
diff --git a/parse.go b/parse.go
index 4ac6918..048fc25 100644
--- a/parse.go
+++ b/parse.go
@@ -276,13 +276,7 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 	generator, err := parseRoot(node, metadata)
 
-	parseExternalDocuments(metadata)
-
-	// Parsing what is left to be referenced can lead to more documents
-	for len(metadata.PendingReferences) > 0 {
-		parsePendingReferences(metadata)
-		parseExternalDocuments(metadata)
-	}
+	parsePendingReferences(metadata)
 
 	return generator, err
 }
diff --git a/reference.go b/reference.go
index 4b14d40..2d709ed 100644
--- a/reference.go
+++ b/reference.go
@@ -64,6 +64,9 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 // For example definitions that are nested in other definitions
 func parsePendingReferences(metadata *parserMetadata) {
 	for len(metadata.PendingReferences) > 0 {
+		// The documents references point to have to be loaded first
+		parseExternalDocuments(metadata)
+
 		pending := metadata.PendingReferences[0]
 		metadata.PendingReferences = metadata.PendingReferences[1:]
 
-- 
2.43.0


From a713d77a26caea6e7546733df08b5cbb6344ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 35/70] fix: enforce the fetch policy on every document that is
 fetched

---
 fetchers.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index a8c8eb4..b938c9e 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -109,6 +109,15 @@ func (f *httpDocumentFetcher) checkRedirect(req *http.Request, via []*http.Reque
 }
 
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
+	parsedUrl, err := url.Parse(resolvedPath)
+	if err != nil {
+		return nil, fmt.Errorf("invalid URL '%s': %w", resolvedPath, err)
+	}
+
+	if err := f.assertAllowed(parsedUrl); err != nil {
+		return nil, err
+	}
+
 	client := &http.Client{CheckRedirect: f.checkRedirect}
 	resp, err := client.Get(resolvedPath)
 	if err != nil {
@@ -178,29 +187,46 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("failed to resolve file path for URL '%s' relative to '%s': %w", ref, relativeTo, err)
 	}
 
+	if err := f.assertAllowed(resolvedPath); err != nil {
+		return "", err
+	}
+
+	return "file://" + resolvedPath, nil
+}
+
+// assertAllowed checks a path that has been resolved to its real path
+func (f *fileSystemDocumentFetcher) assertAllowed(resolvedPath string) error {
 	// A list of allowed paths overrides the restriction to the current working directory
 	if len(f.allowedPaths) > 0 {
 		if isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths) {
-			return "", fmt.Errorf("access to path '%s' is not allowed. Only paths files in the following paths are allowed: %s", resolvedPath, strings.Join(f.allowedPaths, ", "))
+			return fmt.Errorf("access to path '%s' is not allowed. Only paths files in the following paths are allowed: %s", resolvedPath, strings.Join(f.allowedPaths, ", "))
 		}
 	} else if !f.allowOutsideCwd {
 		outsideCwd, err := f.isOutsideOfCwd(resolvedPath)
 		if err != nil {
-			return "", fmt.Errorf("failed to check if path '%s' is outside of current working directory: %w", resolvedPath, err)
+			return fmt.Errorf("failed to check if path '%s' is outside of current working directory: %w", resolvedPath, err)
 		}
 
 		cwd, _ := os.Getwd()
 
 		if outsideCwd {
-			return "", fmt.Errorf("access to path '%s' outside of current working directory '%s' is not allowed", resolvedPath, cwd)
+			return fmt.Errorf("access to path '%s' outside of current working directory '%s' is not allowed", resolvedPath, cwd)
 		}
 	}
 
-	return "file://" + resolvedPath, nil
+	return nil
 }
 
 func (f *fileSystemDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resolvedPath = strings.TrimPrefix(resolvedPath, "file://")
+	resolvedPath, err := getRealPath(strings.TrimPrefix(resolvedPath, "file://"))
+	if err != nil {
+		return nil, err
+	}
+
+	if err := f.assertAllowed(resolvedPath); err != nil {
+		return nil, err
+	}
+
 	fileData, err := os.ReadFile(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to read file at path '%s': %w", resolvedPath, err)
-- 
2.43.0


From 0f1e0feef0ca680d2c8a61bc7c272462fa201046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 36/70] fix: detect cycles through references nested in merged
 allOf schemas

---
 reference_hander.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/reference_hander.go b/reference_hander.go
index 8e35f80..63c0909 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -53,14 +53,10 @@ func (h *referenceHandler) ParseNodeInScope(scope string, node schemaNode, metad
 
 	// Push any $ref values from source schemas onto the resolution stack
 	// so nested merges/parses can detect cycles via HasResolved.
-	for _, src := range sourceSchemas {
-		if src.Ref == nil {
-			continue
-		}
-
-		documentId, path, err := metadata.DocumentResolver.ResolveDocumentIdAndPath(*src.Ref)
+	for _, ref := range collectMergedReferences(sourceSchemas) {
+		documentId, path, err := metadata.DocumentResolver.ResolveDocumentIdAndPath(ref)
 		if err != nil {
-			metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("%s/config_ref_resolution_error", scope), fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", *src.Ref, err))
+			metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("%s/config_ref_resolution_error", scope), fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", ref, err))
 			continue
 		}
 
@@ -74,6 +70,24 @@ func (h *referenceHandler) ParseNodeInScope(scope string, node schemaNode, metad
 	return generator, err
 }
 
+// collectMergedReferences returns every reference that is resolved when the given schemas are merged
+// including the ones of the "allOf" schemas nested in them
+func collectMergedReferences(schemas []schemaNode) []string {
+	references := []string{}
+	for _, schema := range schemas {
+		if schema.Ref != nil {
+			references = append(references, *schema.Ref)
+			continue
+		}
+
+		if schema.AllOf != nil {
+			references = append(references, collectMergedReferences(*schema.AllOf)...)
+		}
+	}
+
+	return references
+}
+
 func (h *referenceHandler) PushToPath(pathPart string) {
 	h.CurrentPath += pathPart
 }
-- 
2.43.0


From 3bc9629ee2909d24d6257bfb1c8ee81f73caad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 37/70] fix: report everything nested deeper than the maximum
 parse depth

---
 parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 048fc25..dc19375 100644
--- a/parse.go
+++ b/parse.go
@@ -306,7 +306,9 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	maxDepth := metadata.ParserOptions.MaxParseDepth
 	if metadata.ParseDepth > maxDepth {
-		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		err := fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		metadata.Errors.AddError(err)
+		return nullGenerator{}, err
 	}
 
 	refHandler := metadata.ReferenceHandler
-- 
2.43.0


From 44b36247e70567280fe88b3f5b42096c44f5db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 38/70] fix: stop adding optional items and properties once the
 maximum number of generation steps is taken

---
 array.go   |  5 +++++
 boolean.go |  2 ++
 const.go   |  2 ++
 object.go  | 12 +++++++-----
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/array.go b/array.go
index 27f4e87..0cda9b4 100644
--- a/array.go
+++ b/array.go
@@ -302,6 +302,11 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate the remaining items up to a random number
 	// (This might skew the distribution of the length of the array)
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
+		// Only the bare minimum is left to generate once too many steps are taken
+		if opts.ShouldMinimize() && len(arrayData) >= minItems {
+			break
+		}
+
 		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
 
 		if !ok && len(arrayData) >= minItems {
diff --git a/boolean.go b/boolean.go
index 3f8d499..244d1f2 100644
--- a/boolean.go
+++ b/boolean.go
@@ -14,6 +14,8 @@ func parseBoolean(node schemaNode) (booleanGenerator, error) {
 }
 
 func (g booleanGenerator) Generate(opts *GeneratorOptions) interface{} {
+	opts.overallComplexity++
+
 	return opts.Rand.RandomBool()
 }
 
diff --git a/const.go b/const.go
index d3f4d42..f15f6ef 100644
--- a/const.go
+++ b/const.go
@@ -39,6 +39,8 @@ func parseConst(node schemaNode, metadata *parserMetadata) (Generator, error) {
 }
 
 func (g constGenerator) Generate(opts *GeneratorOptions) interface{} {
+	opts.overallComplexity++
+
 	// Copied given the caller owns the generated value
 	return util.CopyJsonValue(g.Value)
 }
diff --git a/object.go b/object.go
index 1de74c2..7786ccc 100644
--- a/object.go
+++ b/object.go
@@ -259,8 +259,10 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate any pattern properties
 	// Failing that generate any additional properties
 	// Failing that generate any fallback properties
+	// (Only the bare minimum is left to generate once too many steps are taken)
+	hasEnough := func() bool { return opts.ShouldMinimize() && len(generatedValues) >= min }
 	if len(g.PatternProperties) > 0 {
-		for i := 0; i < generatorTarget; i++ {
+		for i := 0; i < generatorTarget && !hasEnough(); i++ {
 			g.addPatternProperty(generatedValues, opts)
 		}
 
@@ -271,12 +273,12 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
-		for i := 0; i < generatorTarget; i++ {
+		for i := 0; i < generatorTarget && !hasEnough(); i++ {
 			g.addUndeclaredProperty(generatedValues, "additional", g.AdditionalProperties, opts)
 		}
-	} else {
-		for i := 0; i < generatorTarget; i++ {
-			if opts.SuppressFallbackValues || min > len(generatedValues) {
+	} else if !opts.SuppressFallbackValues {
+		for i := 0; i < generatorTarget && !hasEnough(); i++ {
+			if min > len(generatedValues) {
 				continue
 			}
 
-- 
2.43.0


From 8aa2dd5f5cc3948c21a54b7e3d31088e245dd5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 39/70] fix: choose the properties of objects with the given
 source of randomness

---
 object.go      |  5 +++++
 rand/random.go | 17 +++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/object.go b/object.go
index 7786ccc..d28f292 100644
--- a/object.go
+++ b/object.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"maps"
 	"regexp"
+	"sort"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -224,6 +225,9 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		}
 	}
 
+	// Keep an order the source of randomness can be applied to
+	sort.Strings(optionalKeys)
+
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
 
@@ -369,6 +373,7 @@ func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string
 	}
 
 	availableRegexes := funk.Keys(g.PatternProperties).([]string)
+	sort.Strings(availableRegexes)
 	targetRegex := opts.Rand.StringChoice(&availableRegexes)
 	targetRegexGenerator := g.PatternPropertiesRegex[targetRegex]
 	targetGenerator := g.PatternProperties[targetRegex]
diff --git a/rand/random.go b/rand/random.go
index f4f2692..13942e5 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -3,8 +3,6 @@ package rand
 import (
 	"math/rand"
 	"time"
-
-	"github.com/thoas/go-funk"
 )
 
 type RandUtil struct {
@@ -45,14 +43,21 @@ func (sr *RandUtil) StringChoice(stringSlice *[]string) string {
 
 func (sr *RandUtil) StringChoiceMultiple(stringSlice *[]string, numChoices int) []string {
 	// Pick NumChoices random choices from the string slice without duplicates
-	choices := funk.Shuffle(*stringSlice).([]string)
+	choices := make([]string, 0, numChoices)
+	for _, i := range sr.Rand.Perm(len(*stringSlice))[:numChoices] {
+		choices = append(choices, (*stringSlice)[i])
+	}
 
-	return choices[:numChoices]
+	return choices
 }
 
-// @todo - Reimplement to use std rand source
 func (sr *RandUtil) Shuffle(in []interface{}) []interface{} {
-	return funk.Shuffle(in).([]interface{})
+	shuffled := make([]interface{}, 0, len(in))
+	for _, i := range sr.Rand.Perm(len(in)) {
+		shuffled = append(shuffled, in[i])
+	}
+
+	return shuffled
 }
 
 // Int functions
-- 
2.43.0


From a8c369e541fd1161406c329214ab4029b582b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 40/70] fix: keep references within files working whose path
 has to be escaped in a URL

---
 document.go |  2 +-
 fetchers.go | 23 +++++++++++++++++++----
 parse.go    |  2 +-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/document.go b/document.go
index 7e32798..723e1dd 100644
--- a/document.go
+++ b/document.go
@@ -84,7 +84,7 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		if err != nil {
 			opts.RelativeTo = "file://./" + rootDocumentId
 		} else {
-			opts.RelativeTo = "file://" + filepath.Join(cwd, rootDocumentId)
+			opts.RelativeTo = pathToFileURL(filepath.Join(cwd, rootDocumentId))
 		}
 	}
 
diff --git a/fetchers.go b/fetchers.go
index b938c9e..93a8176 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -174,10 +174,10 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("invalid file URL scheme '%s' for URL '%s'", parsedUrl.Scheme, ref)
 	}
 
-	filePath := strings.TrimPrefix(ref, "file://")
+	filePath := fileURLToPath(ref)
 
 	// Resolve against the file path we are relative to
-	relativeToDir := filepath.Dir(strings.TrimPrefix(relativeTo, "file://"))
+	relativeToDir := filepath.Dir(fileURLToPath(relativeTo))
 	if !filepath.IsAbs(filePath) {
 		filePath = filepath.Join(relativeToDir, filePath)
 	}
@@ -191,7 +191,22 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", err
 	}
 
-	return "file://" + resolvedPath, nil
+	return pathToFileURL(resolvedPath), nil
+}
+
+// pathToFileURL escapes everything in a path that has a meaning of its own in a URL
+func pathToFileURL(path string) string {
+	return "file://" + (&url.URL{Path: path}).EscapedPath()
+}
+
+// fileURLToPath is the path a file URL stands for
+func fileURLToPath(fileURL string) string {
+	path := strings.TrimPrefix(fileURL, "file://")
+	if unescapedPath, err := url.PathUnescape(path); err == nil {
+		return unescapedPath
+	}
+
+	return path
 }
 
 // assertAllowed checks a path that has been resolved to its real path
@@ -218,7 +233,7 @@ func (f *fileSystemDocumentFetcher) assertAllowed(resolvedPath string) error {
 }
 
 func (f *fileSystemDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resolvedPath, err := getRealPath(strings.TrimPrefix(resolvedPath, "file://"))
+	resolvedPath, err := getRealPath(fileURLToPath(resolvedPath))
 	if err != nil {
 		return nil, err
 	}
diff --git a/parse.go b/parse.go
index dc19375..390179a 100644
--- a/parse.go
+++ b/parse.go
@@ -218,7 +218,7 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	// (The options of the caller are left as they are given they can be used to parse other files)
 	fileOpts := *opts
 	if fileOpts.RelativeTo == "" {
-		fileOpts.RelativeTo = "file://" + path
+		fileOpts.RelativeTo = pathToFileURL(path)
 	}
 
 	return ParseSchema(data, &fileOpts)
-- 
2.43.0


From 669ebda25ea764a1784126610e4f541811aebd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 41/70] fix: combine multipleOf to the lowest common multiple

---
 internal/util/util.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 022f810..d8a12a0 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,9 +2,9 @@ package util
 
 import (
 	"encoding/json"
-	"fmt"
 	"math"
 	"regexp"
+	"strconv"
 	"strings"
 
 	"github.com/thoas/go-funk"
@@ -179,7 +179,7 @@ func MaxFloatPtr[T Number](a ...*T) *T {
 }
 
 func countDecimalPlaces(f float64) float64 {
-	s := strings.Split(strings.TrimRight(strings.TrimRight(fmt.Sprintf("%f", f), "0"), "."), ".")
+	s := strings.Split(strconv.FormatFloat(f, 'f', -1, 64), ".")
 	if len(s) < 2 {
 		return 0
 	}
@@ -187,7 +187,7 @@ func countDecimalPlaces(f float64) float64 {
 	return float64(len(s[1]))
 }
 
-// FindHcf finds the highest common factor between two float64 pointers
+// FindHcf finds the lowest value that is a multiple of both float64 pointers
 func FindHcf(a *float64, b *float64) *float64 {
 	result := new(float64)
 	// Return one if the other is not set
@@ -210,11 +210,20 @@ func FindHcf(a *float64, b *float64) *float64 {
 
 	// Normalise both to integers
 	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
-	intA := *a * scale
-	intB := *b * scale
+	intA := math.Round(*a * scale)
+	intB := math.Round(*b * scale)
 
-	// Otherwise multiply them
-	*result = (intA * intB) / scale
+	// Otherwise multiply them without the factor they have in common
+	factor, remainder := intA, intB
+	for remainder != 0 {
+		factor, remainder = remainder, math.Mod(factor, remainder)
+	}
+
+	if factor == 0 {
+		factor = 1
+	}
+
+	*result = (intA / factor * intB) / scale
 	return result
 }
 
-- 
2.43.0


From 731f584d0905665f7075d6c8aca874357a58c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 42/70] fix: accept a const outside of the values a negated
 enum excludes

---
 not.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 99eb8fb..429b060 100644
--- a/not.go
+++ b/not.go
@@ -453,8 +453,8 @@ func notApplyEnum(metadata *parserMetadata, newNode *schemaNode, constraintColle
 		constJsonData := util.MarshalJsonToString(node.Const)
 		if funk.ContainsString(notEnumJsonData, constJsonData) {
 			warnField(metadata, "not/enum", fmt.Errorf("cannot have 'not/enum' contain the same value as 'const'"))
-			return nil
 		}
+		return nil
 	}
 
 	enumJsonData := util.SafeMarshalListToJsonList(node.Enum)
-- 
2.43.0


From 032f38ef79464e3e051e99799879fd0c09bb25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 43/70] fix: negate bounds of integers that are no whole
 numbers

Exclusive bounds were moved by one next to a negation, which left out the
closest integers (or all of them) where the bound is no whole number.
---
 not.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/not.go b/not.go
index 429b060..11787f9 100644
--- a/not.go
+++ b/not.go
@@ -314,7 +314,7 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 
 	// Handle integer verses float64 offsets
 	offsetIncrement := infinitesimal
-	if newNode.Type != nil && nodeTypeContains(newNode, string(generatorTypeInteger)) {
+	if nodeTypeContains(newNode, string(generatorTypeInteger)) && !nodeTypeContains(newNode, string(generatorTypeNumber)) {
 		offsetIncrement = 1
 	}
 
@@ -988,11 +988,16 @@ func resolveBoundsFloat64(metadata *parserMetadata,
 	notMaxPtr *float64, notMaxExclusivePtr *float64,
 	offsetIncrement float64,
 ) (*float64, *float64, *float64, *float64) {
-	x1 := util.MaxFloatPtr(minPtr, addIfNotNilFloat64(minExclusivePtr, offsetIncrement))
-	x2 := util.MinFloatPtr(maxPtr, addIfNotNilFloat64(maxExclusivePtr, -offsetIncrement))
+	// Integers only have whole numbers next to a bound, whether or not the bound is one
+	mustBeAnInteger := offsetIncrement == 1
+	above := func(bound float64) float64 { return *moveInsideExclusiveBound(&bound, 1, mustBeAnInteger) }
+	below := func(bound float64) float64 { return *moveInsideExclusiveBound(&bound, -1, mustBeAnInteger) }
 
-	y1 := util.MaxFloatPtr(notMinPtr, addIfNotNilFloat64(notMinExclusivePtr, offsetIncrement))
-	y2 := util.MinFloatPtr(notMaxPtr, addIfNotNilFloat64(notMaxExclusivePtr, -offsetIncrement))
+	x1 := util.MaxFloatPtr(minPtr, moveInsideExclusiveBound(minExclusivePtr, 1, mustBeAnInteger))
+	x2 := util.MinFloatPtr(maxPtr, moveInsideExclusiveBound(maxExclusivePtr, -1, mustBeAnInteger))
+
+	y1 := util.MaxFloatPtr(notMinPtr, moveInsideExclusiveBound(notMinExclusivePtr, 1, mustBeAnInteger))
+	y2 := util.MinFloatPtr(notMaxPtr, moveInsideExclusiveBound(notMaxExclusivePtr, -1, mustBeAnInteger))
 
 	// Edge case: No not constraints
 	if y1 == nil && y2 == nil {
@@ -1002,12 +1007,12 @@ func resolveBoundsFloat64(metadata *parserMetadata,
 	// Edge case: No original bounds -> Select upper bound
 	if x1 == nil && x2 == nil {
 		if y1 != nil {
-			newMax := *y1 - offsetIncrement
+			newMax := below(*y1)
 			return nil, &newMax, nil, nil
 		}
 
 		if y2 != nil {
-			newMin := *y2 + offsetIncrement
+			newMin := above(*y2)
 			return &newMin, nil, nil, nil
 		}
 
@@ -1034,21 +1039,21 @@ func resolveBoundsFloat64(metadata *parserMetadata,
 
 	// Check lower side for overlap
 	if y1Val <= x1Val && y2Val < x2Val {
-		newMin := y2Val + offsetIncrement
+		newMin := above(y2Val)
 		return minToNilFloat64(newMin, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
 	}
 
 	// Check upper overlap
 	if y1Val > x1Val && y2Val >= x2Val {
-		newMax := y1Val - offsetIncrement
+		newMax := below(y1Val)
 		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(newMax, offsetIncrement), nil, nil
 	}
 
 	// Overlap in middle give both bounds
 	lowerBoundMin := x1Val
-	lowerBoundMax := y1Val - offsetIncrement
+	lowerBoundMax := below(y1Val)
 
-	upperBoundMin := y2Val + offsetIncrement
+	upperBoundMin := above(y2Val)
 	upperBoundMax := x2Val
 	return minToNilFloat64(lowerBoundMin, offsetIncrement), maxToNilFloat64(lowerBoundMax, offsetIncrement), minToNilFloat64(upperBoundMin, offsetIncrement), maxToNilFloat64(upperBoundMax, offsetIncrement)
 
@@ -1086,15 +1091,6 @@ func maxToNilFloat64(max float64, offsetIncrement float64) *float64 {
 	return &max
 }
 
-func addIfNotNilFloat64(value *float64, addition float64) *float64 {
-	if value == nil {
-		return nil
-	}
-
-	newValue := *value + float64(addition)
-	return &newValue
-}
-
 func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max float64, multipleOf float64, notMultipleOf float64) ([]float64, error) {
 	const maximumIterations = 10000
 	const maximumValidCandidates = 200
-- 
2.43.0


From 931bc5a804c7ee60dea3aee3b7d20ce2c3b081a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 44/70] fix: tell conditions, alternatives and negations apart
 by their formats

Formats were annotations to the validator which decides about oneOf, if, enum and not:
oneOf with two formats never generated a value and negations by reference rejected everything.
---
 not.go    |  4 +---
 schema.go | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index 11787f9..25ecea8 100644
--- a/not.go
+++ b/not.go
@@ -3,7 +3,6 @@ package chaff
 import (
 	"fmt"
 	"math"
-	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -115,8 +114,7 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 // given not every negated keyword can be turned into limits for the generator.
 func addNotSchemaConstraints(metadata *parserMetadata, constraints *multiConstraint, rawNotNodes []*schemaNode) {
 	for i, raw := range rawNotNodes {
-		// Formats are annotations to the schema validator, they are enforced by a constraint of their own
-		if raw == nil || strings.Contains(util.MarshalJsonToString(raw), `"format":`) {
+		if raw == nil {
 			continue
 		}
 
diff --git a/schema.go b/schema.go
index 29f5052..8c0d9e9 100644
--- a/schema.go
+++ b/schema.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"strings"
 
+	formats "github.com/ryanolee/go-chaff/internal/jsonschema"
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/santhosh-tekuri/jsonschema/v6"
 	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
@@ -32,6 +33,13 @@ var pathSanitiseRegex = regexp.MustCompile(`[^a-zA-Z0-9_]`)
 // to ensure they conform to the original schema constraints
 func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaManager, error) {
 	jsonSchemaCompiler := jsonschema.NewCompiler()
+
+	// Formats are generated (and negated) as more than annotations. So they have to tell conditions and alternatives apart too
+	jsonSchemaCompiler.AssertFormat()
+	for _, format := range []string{"ip-address", "uriref"} {
+		jsonSchemaCompiler.RegisterFormat(legacyFormat(format))
+	}
+
 	manager := &schemaManager{
 		rootSchemaCompiler: jsonSchemaCompiler,
 		documentResolver:   resolver,
@@ -48,6 +56,16 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	return manager, nil
 }
 
+// legacyFormat makes a format available which the schema compiler only knows by its current name
+func legacyFormat(name string) *jsonschemaV6.Format {
+	return &jsonschemaV6.Format{Name: name, Validate: func(value any) error {
+		if _, isString := value.(string); isString && !formats.FormatValidators[name](value) {
+			return fmt.Errorf("%v is not a valid %s", value, name)
+		}
+		return nil
+	}}
+}
+
 // Parses a schema node and creates a subdocument in the root schema compiler
 // allowing for reference resolutions back into the original schema from any given sub-schema fragment
 func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node schemaNode, field string) (*jsonschemaV6.Schema, error) {
-- 
2.43.0


From 1b96acebae9f1ddb3713864ca7ffe169dbb4486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 45/70] fix: keep values that are no text next to a negated
 time or regex format

---
 constraint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constraint.go b/constraint.go
index 4e3ac90..0054a04 100644
--- a/constraint.go
+++ b/constraint.go
@@ -143,7 +143,8 @@ func (mc *constraintCollection) Compile() *multiConstraint {
 
 	for format, formatFunc := range mc.notMatchingFormatConstraints {
 		constraintFunctions[fmt.Sprintf("Format: %s", format)] = func(value interface{}) bool {
-			return !formatFunc(value)
+			_, isString := value.(string)
+			return !isString || !formatFunc(value)
 		}
 	}
 
-- 
2.43.0


From 1e1a204a07b87ecca71d843e0fa734cccc895652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 46/70] fix: describe generators the same way every time

Texts that name what could not be generated listed the properties and
constraints of a generator in the random order of maps, so the same seed
gave different values.
---
 internal/util/util.go | 3 +++
 object.go             | 9 +++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d8a12a0..f48b9da 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"math"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -241,6 +242,8 @@ func ImplodeMapStrings[V any](mapKeys map[string]V) string {
 		return ""
 	}
 
+	slices.Sort(keys)
+
 	return strings.Join(keys, ",")
 
 }
diff --git a/object.go b/object.go
index d28f292..8b81c43 100644
--- a/object.go
+++ b/object.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"maps"
 	"regexp"
+	"slices"
 	"sort"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
@@ -387,13 +388,13 @@ func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string
 
 func (g objectGenerator) String() string {
 	formattedString := ""
-	for name, prop := range g.Properties {
-		formattedString += fmt.Sprintf("%s: %s,", name, prop)
+	for _, name := range slices.Sorted(maps.Keys(g.Properties)) {
+		formattedString += fmt.Sprintf("%s: %s,", name, g.Properties[name])
 	}
 
 	regexString := ""
-	for regex, prop := range g.PatternProperties {
-		regexString += fmt.Sprintf("%s: %s,", regex, prop)
+	for _, regex := range slices.Sorted(maps.Keys(g.PatternProperties)) {
+		regexString += fmt.Sprintf("%s: %s,", regex, g.PatternProperties[regex])
 	}
 
 	return fmt.Sprintf("ObjectGenerator{properties: %s, patternProperties: %s, additionalProperties: %v}", formattedString, regexString, g.DisallowAdditionalProperties)
-- 
2.43.0


From 05e5a72cb409857d882ad625e0217f286ad31b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 47/70] fix: generate literals that ignore case in every case

"[aA]" is parsed as the literal "A" with the fold case flag, which the
generator ignored: the "a" (and anything but the upper case of "(?i)ab")
was never generated.
---
 internal/regen/internal_generator.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index ca33ccf..1ffc353 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -112,6 +112,9 @@ func opEmptyMatch(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerato
 
 func opLiteral(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpLiteral)
+	if regexp.Flags&syntax.FoldCase != 0 {
+		return createFoldedLiteralGenerator(regexp.String(), regexp.Rune, args)
+	}
 	return &internalGenerator{regexp.String(), func() string {
 		return runesToString(regexp.Rune...)
 	}}, nil
@@ -262,6 +265,25 @@ func createCharClassGenerator(name string, charClass *tCharClass, args *Generato
 	}}, nil
 }
 
+// Returns a generator for a literal that ignores case ("(?i)ab", and "[aA]" which the parser simplifies to it).
+func createFoldedLiteralGenerator(name string, literal []rune, args *GeneratorArgs) (*internalGenerator, error) {
+	variants := make([][]rune, len(literal))
+	for i, r := range literal {
+		variants[i] = []rune{r}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			variants[i] = append(variants[i], f)
+		}
+	}
+
+	return &internalGenerator{name, func() string {
+		result := make([]rune, len(variants))
+		for i, v := range variants {
+			result[i] = v[args.rng.Intn(len(v))]
+		}
+		return runesToString(result...)
+	}}, nil
+}
+
 // Returns a generator that will run the generator for r's sub-expression [min, max] times.
 func createRepeatingGenerator(regexp *syntax.Regexp, genArgs *GeneratorArgs, min, max int) (*internalGenerator, error) {
 	if err := enforceSingleSub(regexp); err != nil {
-- 
2.43.0


From e75b9d6d35fa034d2ac94c3cde748afae9093e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 48/70] fix: let minContains exceed minItems

An array that has to hold more matching items than minItems asks for is
satisfiable, only its minimum size is given by minContains.
---
 array.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/array.go b/array.go
index 0cda9b4..fd15737 100644
--- a/array.go
+++ b/array.go
@@ -63,10 +63,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
-	if err := assertLowerUpperBound(minContains, minItems, "minContains", "minItems"); err != nil {
-		return nullGenerator{}, err
-	}
-
 	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
@@ -86,7 +82,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return arrayGenerator{DisallowAdditional: true, schemaNode: node}, nil
 	}
 
-	min := util.GetInt(minItems, minContains)
+	min := util.MaxInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
 	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (isLegacyTuple && node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
-- 
2.43.0


From f4448a1d73854dbcda22c5e286b2b0f874752210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 49/70] fix: honour DefaultArrayMaxItems and
 DefaultArrayMinItems

Arrays without maxItems were always limited to ten items more than their
minimum when parsed, so that the options for the default size were ignored.
---
 array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index fd15737..19ed0ff 100644
--- a/array.go
+++ b/array.go
@@ -83,7 +83,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	min := util.MaxInt(minItems, minContains)
-	max := util.GetInt(maxItems, min+defaultOffset)
+	max := maxItems
 
 	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (isLegacyTuple && node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
 
@@ -256,7 +256,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
-	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
+	maxItems := util.GetInt(g.MaxItems, g.MinItems+opts.DefaultArrayMaxItems)
 
 	// Defaults never override the limits of the schema
 	if g.MaxItems != 0 {
-- 
2.43.0


From db8a4f2661147e7739576f6575e0eb4b617da89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 50/70] fix: accept sizes given as whole numbers with a
 fraction or an exponent

"minItems": 2.0 is valid JSON schema but was refused as it can not be
decoded to an int.
---
 json.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index c89f20d..c0f71b6 100644
--- a/json.go
+++ b/json.go
@@ -2,8 +2,16 @@ package chaff
 
 import (
 	"encoding/json"
+	"math"
+	"strconv"
+	"strings"
 )
 
+// Keywords that take a whole number
+var sizeKeywords = []string{
+	"length", "minLength", "maxLength", "minItems", "maxItems", "minContains", "maxContains", "minProperties", "maxProperties",
+}
+
 type (
 	// Used to handle the fact that "type" can be a string or an array of strings
 	multipleType struct {
@@ -166,7 +174,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	type schemaNodeAlias schemaNode
 	var alias schemaNodeAlias
-	if err := json.Unmarshal(data, &alias); err != nil {
+	if err := json.Unmarshal(withPlainSizes(data), &alias); err != nil {
 		return err
 	}
 	*s = schemaNode(alias)
@@ -186,3 +194,38 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 
 	return nil
 }
+
+// withPlainSizes rewrites sizes given as "2.0" or "2e0", which are integers for JSON schema but not for encoding/json
+func withPlainSizes(data []byte) []byte {
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal(data, &raw); err != nil {
+		return data
+	}
+
+	rewritten := false
+	for _, keyword := range sizeKeywords {
+		value := string(raw[keyword])
+		if !strings.ContainsAny(value, ".eE") {
+			continue
+		}
+
+		size, err := strconv.ParseFloat(value, 64)
+		if err != nil || size != math.Trunc(size) || math.Abs(size) > math.MaxInt32 {
+			continue
+		}
+
+		raw[keyword] = json.RawMessage(strconv.FormatFloat(size, 'f', -1, 64))
+		rewritten = true
+	}
+
+	if !rewritten {
+		return data
+	}
+
+	plain, err := json.Marshal(raw)
+	if err != nil {
+		return data
+	}
+
+	return plain
+}
-- 
2.43.0


From bcb1a20fad6b8cf88ec9d52fd6d0f55cd978d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 51/70] fix: only take keywords that are spelled exactly for
 keywords

encoding/json matches field names regardless of case, so that unknown
keywords like "Type" overruled the ones of the schema.
---
 json.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index c0f71b6..b6c4d88 100644
--- a/json.go
+++ b/json.go
@@ -3,10 +3,24 @@ package chaff
 import (
 	"encoding/json"
 	"math"
+	"reflect"
 	"strconv"
 	"strings"
 )
 
+// All keywords by their name in lower case
+var keywordsByLowerCase = func() map[string]string {
+	keywords := map[string]string{}
+	node := reflect.TypeOf(schemaNode{})
+	for i := 0; i < node.NumField(); i++ {
+		if name, _, _ := strings.Cut(node.Field(i).Tag.Get("json"), ","); name != "" {
+			keywords[strings.ToLower(name)] = name
+		}
+	}
+
+	return keywords
+}()
+
 // Keywords that take a whole number
 var sizeKeywords = []string{
 	"length", "minLength", "maxLength", "minItems", "maxItems", "minContains", "maxContains", "minProperties", "maxProperties",
@@ -174,7 +188,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	type schemaNodeAlias schemaNode
 	var alias schemaNodeAlias
-	if err := json.Unmarshal(withPlainSizes(data), &alias); err != nil {
+	if err := json.Unmarshal(normalizeKeywords(data), &alias); err != nil {
 		return err
 	}
 	*s = schemaNode(alias)
@@ -195,14 +209,23 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-// withPlainSizes rewrites sizes given as "2.0" or "2e0", which are integers for JSON schema but not for encoding/json
-func withPlainSizes(data []byte) []byte {
+// normalizeKeywords evens out differences between JSON schema and encoding/json:
+//   - sizes given as "2.0" or "2e0" are integers
+//   - the case of keywords matters, "Type" is not the keyword "type"
+func normalizeKeywords(data []byte) []byte {
 	var raw map[string]json.RawMessage
 	if err := json.Unmarshal(data, &raw); err != nil {
 		return data
 	}
 
 	rewritten := false
+	for name := range raw {
+		if keyword, ok := keywordsByLowerCase[strings.ToLower(strings.ToUpper(name))]; ok && keyword != name {
+			delete(raw, name)
+			rewritten = true
+		}
+	}
+
 	for _, keyword := range sizeKeywords {
 		value := string(raw[keyword])
 		if !strings.ContainsAny(value, ".eE") {
-- 
2.43.0


From 9a428cce1f66823cb73c127b4c090d72115b771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 52/70] fix: name the sizes in reports instead of their
 addresses

The messages for contradictory maxProperties, minProperties and maxItems
contained the address of the size, so that they could not be understood
and differed every time.
---
 array.go  | 2 +-
 merge.go  | 2 +-
 object.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index 19ed0ff..65a0808 100644
--- a/array.go
+++ b/array.go
@@ -70,7 +70,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Validate if tuple makes sense in this context
 	tupleLength := len(prefixItems)
 	if tupleLength > maxItems && node.MaxItems != nil {
-		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
+		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, maxItems)
 	}
 
 	// A maximum of zero items only leaves the empty array
diff --git a/merge.go b/merge.go
index 02876a9..1d4062d 100644
--- a/merge.go
+++ b/merge.go
@@ -576,7 +576,7 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	newNode, err := metadata.DocumentResolver.RewriteReferencesRelativeToDocument(*refNode)
 	if err != nil {
 		errPath := "/config_ref_rewrite_error"
-		formattedErr := fmt.Errorf("failed to rewrite references for ref [%s]: %e", *node.Ref, err)
+		formattedErr := fmt.Errorf("failed to rewrite references for ref [%s]: %w", *node.Ref, err)
 		metadata.Errors.AddErrorWithSubpath(errPath, formattedErr)
 		return schemaNode{}, formattedErr
 	}
diff --git a/object.go b/object.go
index 8b81c43..4b5ecb7 100644
--- a/object.go
+++ b/object.go
@@ -65,14 +65,14 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	// Validate Required Properties
 	if node.MaxProperties != nil && len(requiredProperties) > maxProperties {
-		return nullGenerator{}, fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", node.MaxProperties, len(requiredProperties))
+		return nullGenerator{}, fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", maxProperties, len(requiredProperties))
 	}
 
 	// Validate additionalProperties
 	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
 	if additionalProperties.IsFalse && node.PatternProperties == nil && minProperties > len(properties) {
 		return nullGenerator{}, fmt.Errorf("given additional properties are not allowed and there are no pattern properties the minProperties must be less than or equal to the number of"+
-			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
+			"available properties. (minProperties: %d, propertiesDefined: %d)", minProperties, len(properties))
 	}
 
 	if additionalProperties.IsFalse {
-- 
2.43.0


From 891fbee112928757657861650e852196904b7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 53/70] fix: report faults of alternatives and patterns where
 they are

---
 combination.go | 10 ++++++----
 if.go          |  6 +++---
 object.go      |  3 +--
 parse.go       |  2 +-
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/combination.go b/combination.go
index 8fc851f..e574a64 100644
--- a/combination.go
+++ b/combination.go
@@ -82,6 +82,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	if len(oneOf) > 1 {
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
+		positions := []int{}
 		for i, node := range oneOf {
 			// No value that conforms to the rest of the schema can match
 			if unsatisfiable[i] {
@@ -90,15 +91,16 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 			resolvedNode, err := mergeSchemaNodes(metadata, node)
 			if err != nil {
-				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
+				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("/oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
 				continue
 			}
 
 			resolvedNodes = append(resolvedNodes, resolvedNode)
+			positions = append(positions, i)
 		}
 
 		stubNode.OneOf = &resolvedNodes
-		oneOfConstraint, err := newOneOfConstraint(stubNode, metadata)
+		oneOfConstraint, err := newOneOfConstraint(stubNode, positions, metadata)
 		if err != nil {
 			return nullGenerator{}, err
 		}
@@ -139,7 +141,7 @@ func (g combinationGenerator) String() string {
 	return fmt.Sprintf("CombinationGenerator[%s]{%s}", g.Type, strings.Join(formattedGenerators, ","))
 }
 
-func newOneOfConstraint(node schemaNode, metadata *parserMetadata) (*oneOfConstraint, error) {
+func newOneOfConstraint(node schemaNode, positions []int, metadata *parserMetadata) (*oneOfConstraint, error) {
 	schemas := []*jsonschemaV6.Schema{}
 
 	if node.OneOf == nil || len(*node.OneOf) == 0 {
@@ -147,7 +149,7 @@ func newOneOfConstraint(node schemaNode, metadata *parserMetadata) (*oneOfConstr
 	}
 
 	for key, node := range *node.OneOf {
-		path := fmt.Sprintf("oneOf/%d", key)
+		path := fmt.Sprintf("/oneOf/%d", positions[key])
 		compiledSchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, path)
 
 		if err != nil {
diff --git a/if.go b/if.go
index da5c87d..22544af 100644
--- a/if.go
+++ b/if.go
@@ -66,7 +66,7 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	for i, ifStatement := range mergedIf {
 		compiled, err := ifStatement.Compile(node, metadata, fmt.Sprintf("/if/%d", i))
 		if err != nil {
-			path := fmt.Sprintf("if/%d/config_compile_error", i)
+			path := fmt.Sprintf("/if/%d/config_compile_error", i)
 			metadata.Errors.AddErrorWithSubpath(path, err)
 			continue
 		}
@@ -121,7 +121,7 @@ func parseIfBody(metadata *parserMetadata, field string, parentScope schemaNode,
 	mergedNode, err := mergeSchemaNodes(metadata, parentScope, *bodyNode)
 	if err != nil {
 
-		warnField(metadata, field, fmt.Errorf("failed to merge %s schema node: %w", field, err))
+		metadata.Errors.AddErrorWithSubpath(field, fmt.Errorf("failed to merge %s schema node: %w", field, err))
 		return nil
 	}
 
@@ -130,7 +130,7 @@ func parseIfBody(metadata *parserMetadata, field string, parentScope schemaNode,
 	generator, err := metadata.ReferenceHandler.ParseNodeInScope(field, mergedNode, metadata, *bodyNode)
 
 	if err != nil {
-		warnField(metadata, field, err)
+		metadata.Errors.AddErrorWithSubpath(field, err)
 		return nil
 	}
 
diff --git a/object.go b/object.go
index 4b5ecb7..0b2bb5f 100644
--- a/object.go
+++ b/object.go
@@ -187,8 +187,7 @@ func parsePatternProperties(node schemaNode, metadata *parserMetadata) (map[stri
 
 		regexGenerator, err := newRegexGenerator(regex, metadata.ParserOptions.RegexPatternPropertyOptions)
 		if err != nil {
-			errPath := fmt.Sprintf("/regex/%s", regex)
-			metadata.Errors.AddErrorWithSubpath(errPath, fmt.Errorf("failed to create regex generator for %s. Error given: %s", regex, err))
+			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to create regex generator for %s. Error given: %s", regex, err))
 			regexGenerator = nil
 		}
 
diff --git a/parse.go b/parse.go
index 390179a..12396ad 100644
--- a/parse.go
+++ b/parse.go
@@ -286,7 +286,7 @@ func parseExternalDocuments(metadata *parserMetadata) {
 		metadata.ReferenceHandler.CurrentPath = "#"
 		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
 		if err != nil {
-			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
+			metadata.Errors.AddErrorWithSubpath("/document_parse_error", err)
 		}
 	}
 }
-- 
2.43.0


From 3d4f443f604198897a79a89bfee7dd72e2d75fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 54/70] fix: report unsupported keywords in combined schemas

---
 merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merge.go b/merge.go
index 1d4062d..f7d35f8 100644
--- a/merge.go
+++ b/merge.go
@@ -79,6 +79,14 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// Merge simple properties
 		mergedNode = mergeSchemaNodeSimpleProperties(metadata, mergedNode, node)
 
+		// Unsupported keywords are kept so that parsing the merged result reports them
+		if len(node.DependentRequired) > 0 {
+			mergedNode.DependentRequired = node.DependentRequired
+		}
+		if len(node.DependentSchemas) > 0 {
+			mergedNode.DependentSchemas = node.DependentSchemas
+		}
+
 		// Propagate not-constraints from prior processing (e.g., notMerge sets
 		// .constraints on sub-nodes). Accumulate them so that sequential merges
 		// don't lose earlier exclusions.
-- 
2.43.0


From 974eec65cb27f9c201fbd7dd65ce216da17477f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 55/70] fix: negate next to what an allOf of a property demands

---
 not.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/not.go b/not.go
index 25ecea8..2d1b214 100644
--- a/not.go
+++ b/not.go
@@ -223,6 +223,7 @@ func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (sc
 			newNode.mergedNot = append(newNode.mergedNot, node.Not)
 		}
 	}
+	newNode.AllOf = node.AllOf
 	newNode.OneOf = node.OneOf
 	newNode.AnyOf = node.AnyOf
 	newNode.Ref = node.Ref
@@ -697,6 +698,13 @@ func notMergeSubNode(scope string, metadata *parserMetadata, node schemaNode, no
 	metadata.ReferenceHandler.PushToPath(scope)
 	defer metadata.ReferenceHandler.PopFromPath(scope)
 
+	// What the schemas of an allOf demand has to be known to negate something next to it
+	if node.AllOf != nil {
+		if flatNode, err := mergeSchemaNodes(metadata, node); err == nil {
+			node = flatNode
+		}
+	}
+
 	mergedNode, constraintCollection := notMerge(metadata, node, notNode)
 	// Preserve constraints from previous not applications so that sequential
 	// not merges don't silently discard earlier exclusions.
-- 
2.43.0


From 000ae95f3113667251958122de42f2ff0b5d241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 56/70] fix: keep tuples given by items when schemas are merged

---
 merge.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/merge.go b/merge.go
index f7d35f8..aaad76b 100644
--- a/merge.go
+++ b/merge.go
@@ -60,6 +60,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
+		node = itemsTupleToPrefixItems(node)
 		mergedNode, node = applyItemsToPrefixItems(metadata, mergedNode, node)
 		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
@@ -370,6 +371,26 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 	return &mergedPatternProperties
 }
 
+// itemsTupleToPrefixItems gives "items" in the form of an array, and the "additionalItems" next to it,
+// the form that has superseded them, so that they take part in everything "prefixItems" and "items" do.
+func itemsTupleToPrefixItems(node schemaNode) schemaNode {
+	if node.Items == nil || node.Items.Nodes == nil {
+		return node
+	}
+
+	if len(util.GetZeroIfNil(node.PrefixItems, []schemaNode{})) == 0 {
+		node.PrefixItems = node.Items.Nodes
+	}
+
+	node.Items = nil
+	if node.AdditionalItems != nil {
+		node.Items = &itemsData{Node: node.AdditionalItems.Schema, DisallowAdditionalItems: node.AdditionalItems.IsFalse}
+		node.AdditionalItems = nil
+	}
+
+	return node
+}
+
 // applyItemsToPrefixItems makes sure that the items only one of the sides defines by
 // position conform to the "items" of the other side before both sides are merged.
 func applyItemsToPrefixItems(metadata *parserMetadata, left schemaNode, right schemaNode) (schemaNode, schemaNode) {
-- 
2.43.0


From 342da3a90fc86b55460e840204c43cf7e41aa9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 57/70] fix: recognise ipv4 addresses and hostnames exactly

---
 internal/jsonschema/formats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index d457206..8b5205f 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -283,7 +283,7 @@ func isHostname(v any) bool {
 		// labels must not start with a hyphen
 		// RFC 1123 section 2.1: restriction on the first character
 		// is relaxed to allow either a letter or a digit
-		if first := s[0]; first == '-' {
+		if label[0] == '-' {
 			return false
 		}
 
@@ -368,7 +368,7 @@ func isIPV4(v any) bool {
 		if n < 0 || n > 255 {
 			return false
 		}
-		if n != 0 && group[0] == '0' {
+		if len(group) > 1 && group[0] == '0' {
 			return false // leading zeroes should be rejected, as they are treated as octals
 		}
 	}
-- 
2.43.0


From a21128bea74a1090b320e0078ad1e1724e9448ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 58/70] fix: keep a const next to an enum when schemas are
 merged

---
 merge.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/merge.go b/merge.go
index aaad76b..2e001de 100644
--- a/merge.go
+++ b/merge.go
@@ -180,9 +180,12 @@ func mergeResolveNodeRef(metadata *parserMetadata, node schemaNode) (schemaNode,
 
 // collectEnumValues returns the effective set of allowed values for a node.
 // A const is treated as a single-value enum; if both const and enum are
-// present the enum is returned (the const is redundant). Returns nil when
+// present the values allowed by both are returned. Returns nil when
 // the node has neither const nor enum.
 func collectEnumValues(node schemaNode) *[]interface{} {
+	if node.Enum != nil && node.Const != nil {
+		return intersectEnumSlices(&[]interface{}{*node.Const}, node.Enum)
+	}
 	if node.Enum != nil {
 		return node.Enum
 	}
@@ -215,13 +218,14 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 		result = left
 	} else {
 		result = intersectEnumSlices(left, right)
-		if len(*result) == 0 {
-			err := fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right)
-			warnConfigMergeError(metadata, "enum/const", err)
-			mergedNode.Enum = nil
-			mergedNode.Const = nil
-			return mergedNode, err
-		}
+	}
+
+	if len(*result) == 0 {
+		err := fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right)
+		warnConfigMergeError(metadata, "enum/const", err)
+		mergedNode.Enum = nil
+		mergedNode.Const = nil
+		return mergedNode, err
 	}
 
 	// Single value → const, multiple values → enum.
-- 
2.43.0


From 20fabc9e7d7d4b71eec89794722835fb74d3fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 59/70] fix: report negations that exclude every value of a
 schema with few values

---
 not.go   | 78 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 parse.go |  7 ++++-
 2 files changed, 83 insertions(+), 2 deletions(-)

diff --git a/not.go b/not.go
index 2d1b214..cd5bf5c 100644
--- a/not.go
+++ b/not.go
@@ -94,12 +94,16 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	compiledConstraints := allConstraints.Compile()
+	if err := assertValuesLeft(currentNode, allConstraints, compiledConstraints); err != nil {
+		return nullGenerator{}, err
+	}
+
 	internalGenerator, err := parseNode(currentNode, metadata)
 	if err != nil {
 		return nullGenerator{}, err
 	}
 
-	compiledConstraints := allConstraints.Compile()
 	addNotSchemaConstraints(metadata, compiledConstraints, rawNotNodes)
 
 	return constrainedGenerator{
@@ -110,6 +114,78 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}, nil
 }
 
+// assertValuesLeft makes sure that the constraints do not reject every value of a node that only has a few of them
+func assertValuesLeft(node schemaNode, collection constraintCollection, constraints *multiConstraint) error {
+	values := listFewValues(node, len(collection.notValueConstraints))
+	for _, value := range values {
+		if constraints.constraintPassed(value) {
+			return nil
+		}
+	}
+
+	if len(values) == 0 {
+		return nil
+	}
+
+	return fmt.Errorf("the negated schemas exclude every value that can be generated: %s", util.MarshalJsonToString(values))
+}
+
+// listFewValues lists the values that can be generated for a node given
+// there are no more of them than there are values that can be excluded.
+func listFewValues(node schemaNode, limit int) []interface{} {
+	if node.AllOf != nil || node.OneOf != nil || node.AnyOf != nil || node.Ref != nil {
+		return nil
+	}
+
+	if node.Enum != nil {
+		return *node.Enum
+	}
+
+	if node.Const != nil {
+		return []interface{}{*node.Const}
+	}
+
+	if node.Type == nil || node.Type.MultipleTypes != nil {
+		return nil
+	}
+
+	switch node.Type.SingleType {
+	case typeNull:
+		return []interface{}{nil}
+	case typeBoolean:
+		return []interface{}{true, false}
+	case typeInteger, typeNumber:
+		isInteger := node.Type.SingleType == typeInteger
+		min, max, err := resolveMinMaxForNode(node, isInteger)
+		if err != nil {
+			return nil
+		}
+
+		if min == max {
+			return []interface{}{min}
+		}
+
+		multiple := util.GetZeroIfNil(node.MultipleOf, 0)
+		if multiple == 0 && isInteger {
+			multiple = 1
+		}
+
+		if multiple == 0 || countMultiplesInRange(min, max, multiple) > float64(limit) {
+			return nil
+		}
+
+		values := []interface{}{}
+		lowest, highest := multipleBounds(min, max, multiple)
+		for factor := lowest; factor <= highest; factor++ {
+			values = append(values, multipleValue(factor, multiple))
+		}
+
+		return values
+	}
+
+	return nil
+}
+
 // addNotSchemaConstraints rejects the generated values that conform to one of the negated schemas,
 // given not every negated keyword can be turned into limits for the generator.
 func addNotSchemaConstraints(metadata *parserMetadata, constraints *multiConstraint, rawNotNodes []*schemaNode) {
diff --git a/parse.go b/parse.go
index 12396ad..9eeebbc 100644
--- a/parse.go
+++ b/parse.go
@@ -332,10 +332,15 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Wrap in a constrained generator if there are constraints to apply
 	// to a given node
 	if node.constraints != nil {
+		constraints := node.constraints.Compile()
+		if constraintErr := assertValuesLeft(node, *node.constraints, constraints); constraintErr != nil {
+			metadata.Errors.AddError(constraintErr)
+		}
+
 		return constrainedGenerator{
 			internalGenerator: gen,
 			constraints: []constraint{
-				node.constraints.Compile(),
+				constraints,
 			},
 		}, nil
 	}
-- 
2.43.0


From e3e970da03b7bc076f5f39c5a2632aa474b10045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 60/70] fix: report recursive references that are combined with
 other schemas

---
 merge.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 2e001de..bfa7998 100644
--- a/merge.go
+++ b/merge.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"maps"
 	"math"
+	"reflect"
 	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -21,7 +22,8 @@ func newEmptySchemaNode() schemaNode {
 // Merges all sub properties of a given node
 func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode, error) {
 	mergedNode := newEmptySchemaNode()
-	var conflictErr error
+	var conflictErr, recursiveRefErr error
+	constrained := false
 
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
@@ -103,7 +105,12 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// propagate it to the merged result so parseSchemaNode can create a
 		// referenceGenerator instead of treating it as an empty "any type" node.
 		if node.Ref != nil {
+			if mergedNode.Ref != nil && *mergedNode.Ref != *node.Ref {
+				recursiveRefErr = fmt.Errorf("can not combine the recursive references %s and %s", *mergedNode.Ref, *node.Ref)
+			}
 			mergedNode.Ref = node.Ref
+		} else if !reflect.DeepEqual(node, schemaNode{}) {
+			constrained = true
 		}
 
 		if resolvedReference {
@@ -113,6 +120,14 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 	}
 
+	// Only the reference is followed when it is parsed
+	if mergedNode.Ref != nil && constrained {
+		recursiveRefErr = fmt.Errorf("can not combine the recursive reference %s with other schemas", *mergedNode.Ref)
+	}
+	if recursiveRefErr != nil {
+		warnConfigMergeError(metadata, "$ref", recursiveRefErr)
+	}
+
 	flatNode, err := flattenResidualAllOf(metadata, mergedNode)
 	return flatNode, errors.Join(conflictErr, err)
 }
-- 
2.43.0


From 92e3d2d8e59ceeca3a2c0adc18b2672596c23b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 61/70] fix: allow references to properties and definitions
 named allOf

---
 reference.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index 2d709ed..25b281e 100644
--- a/reference.go
+++ b/reference.go
@@ -38,7 +38,7 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 		return nullGenerator{}, fmt.Errorf("reference node missing $ref property")
 	}
 
-	if strings.Contains(*node.Ref, "/allOf/") {
+	if pointsInsideAllOf(*node.Ref) {
 		return nil, fmt.Errorf("references to things within allOf are not supported: %s", *node.Ref)
 	}
 
@@ -60,6 +60,23 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 	}, nil
 }
 
+// pointsInsideAllOf tells whether a reference points to something within an "allOf" keyword.
+// Properties and definitions that happen to be named "allOf" and folders of documents do not count.
+func pointsInsideAllOf(ref string) bool {
+	_, fragment, _ := strings.Cut(ref, "#")
+	segments := strings.Split(fragment, "/")
+	for i := 0; i < len(segments)-1; i++ {
+		switch segments[i] {
+		case "properties", "patternProperties", "$defs", "definitions":
+			// The next segment is a name
+			i++
+		case "allOf":
+			return true
+		}
+	}
+	return false
+}
+
 // parsePendingReferences parses everything references point to that is not parsed as a part of the schema itself.
 // For example definitions that are nested in other definitions
 func parsePendingReferences(metadata *parserMetadata) {
-- 
2.43.0


From 26844f0df7135c80e7e3f1bca7a92dc556fd0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:29 +0000
Subject: [PATCH 62/70] fix: report uniqueItems next to the same negated value
 instead of panicking

---
 not.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index cd5bf5c..a3713d3 100644
--- a/not.go
+++ b/not.go
@@ -621,7 +621,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		warnField(metadata, "not/uniqueItems", fmt.Errorf("cannot have 'not/uniqueItems' set to true. It is very difficult to calculate items that match all clauses and are identical throughout the array"))
 	}
 
-	newNode.UniqueItems = resolveBool("not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
+	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
@@ -1209,13 +1209,13 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	return validValues, nil
 }
 
-func resolveBool(fieldName string, value *bool, notValue *bool) *bool {
+func resolveBool(metadata *parserMetadata, fieldName string, value *bool, notValue *bool) *bool {
 	if value == nil && notValue == nil {
 		return nil
 	}
 
 	if value != nil && notValue != nil && *value == *notValue {
-		warnField(nil, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
+		warnField(metadata, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
 		return value
 	}
 
-- 
2.43.0


From 0045cc0a45d9316e6eac2b7c061fd20fbc6bb9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 63/70] fix: report negated schemas that accept everything

---
 not.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/not.go b/not.go
index a3713d3..a129b84 100644
--- a/not.go
+++ b/not.go
@@ -267,6 +267,12 @@ func applyNotConstraints(metadata *parserMetadata, baseNode schemaNode, notNodes
 			return currentNode, allConstraints, err
 		}
 
+		remainingTypes, err := typesNotFullyNegated(currentNode, notNode)
+		if err != nil {
+			return currentNode, allConstraints, err
+		}
+		currentNode.Type = &remainingTypes
+
 		newNode, cc := notMerge(metadata, currentNode, notNode)
 		currentNode = newNode
 		allConstraints.Merge(cc)
@@ -924,6 +930,50 @@ func notNodeHasValueConstraints(notNode schemaNode) bool {
 	return false
 }
 
+// typesNotFullyNegated filters out the types of a node for which the negated schema accepts every value.
+// For example every array conforms to {"minLength": 3}, so only strings are left once it is negated.
+func typesNotFullyNegated(node schemaNode, notNode schemaNode) (multipleType, error) {
+	negatedTypes := expandNotTypes(getNodeTypes(notNode, true))
+	remainingTypes := []string{}
+
+	for _, nodeType := range getNodeTypes(node, false) {
+		isNegated := len(negatedTypes) == 0 || funk.ContainsString(negatedTypes, nodeType)
+		if !isNegated || hasConstraintsForType(notNode, nodeType) {
+			remainingTypes = append(remainingTypes, nodeType)
+		}
+	}
+
+	if len(remainingTypes) == 0 {
+		return multipleType{}, fmt.Errorf("invalid schema: the negated schema accepts every value of the types %s", getNodeTypes(node, false))
+	}
+
+	return newMultipleTypeFromSlice(remainingTypes), nil
+}
+
+// hasConstraintsForType checks whether there can be values of a type that do not conform to a node (leaving aside its own type)
+func hasConstraintsForType(node schemaNode, nodeType string) bool {
+	if node.Const != nil || node.Enum != nil || node.Ref != nil ||
+		node.Not != nil || node.AllOf != nil || node.AnyOf != nil || node.OneOf != nil || node.If != nil ||
+		node.mergedNot != nil || node.mergedIf != nil || node.constraints != nil {
+		return true
+	}
+
+	switch nodeType {
+	case typeString:
+		return node.Length != nil || node.Pattern != nil || node.Format != nil || node.MaxLength != nil || util.GetZeroIfNil(node.MinLength, 0) > 0
+	case typeInteger, typeNumber:
+		return node.Minimum != nil || node.Maximum != nil || node.ExclusiveMinimum != nil || node.ExclusiveMaximum != nil || node.MultipleOf != nil
+	case typeArray:
+		return node.Length != nil || node.Items != nil || node.PrefixItems != nil || node.Contains != nil || node.AdditionalItems != nil || node.UnevaluatedItems != nil ||
+			node.MaxItems != nil || util.GetZeroIfNil(node.MinItems, 0) > 0 || util.GetZeroIfNil(node.UniqueItems, false)
+	case typeObject:
+		return node.Properties != nil || node.PatternProperties != nil || node.AdditionalProperties != nil || len(util.GetZeroIfNil(node.Required, nil)) > 0 ||
+			node.DependentRequired != nil || node.DependentSchemas != nil || node.MaxProperties != nil || util.GetZeroIfNil(node.MinProperties, 0) > 0
+	}
+
+	return false
+}
+
 // Resolves the type for a node given the not node types
 func resolveType(node schemaNode, notNode schemaNode) (multipleType, error) {
 	nodeTypes := getNodeTypes(node, false)
-- 
2.43.0


From e3943160e75d6dbf7aa6c1423dddb3d74d4224a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 64/70] fix: pick from the enum values a negated schema leaves

---
 not.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/not.go b/not.go
index a129b84..56b7156 100644
--- a/not.go
+++ b/not.go
@@ -89,6 +89,15 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	// There is no need to negate keywords given the values to choose from are known
+	if flatNode.Enum != nil || flatNode.Const != nil {
+		if negatedNode, ok, err := filterNegatedValues(metadata, flatNode, rawNotNodes); err != nil {
+			return nullGenerator{}, err
+		} else if ok {
+			return parseNode(negatedNode, metadata)
+		}
+	}
+
 	currentNode, allConstraints, err := applyNotConstraints(metadata, flatNode, notNodes)
 	if err != nil {
 		return nullGenerator{}, err
@@ -205,6 +214,33 @@ func addNotSchemaConstraints(metadata *parserMetadata, constraints *multiConstra
 	}
 }
 
+// filterNegatedValues removes the values of an enum or const that conform to one of the negated schemas.
+// The values are only filtered given every negated schema can be validated against.
+func filterNegatedValues(metadata *parserMetadata, node schemaNode, rawNotNodes []*schemaNode) (schemaNode, bool, error) {
+	collection := newConstraintCollection()
+	constraints := collection.Compile()
+	addNotSchemaConstraints(metadata, constraints, rawNotNodes)
+	if len(constraints.functions) != len(rawNotNodes) {
+		return node, false, nil
+	}
+
+	values := collectEnumValues(node)
+	remainingValues := []interface{}{}
+	for _, value := range *values {
+		if constraints.constraintPassed(value) {
+			remainingValues = append(remainingValues, value)
+		}
+	}
+
+	if len(remainingValues) == 0 {
+		return node, false, fmt.Errorf("the negated schemas exclude every value that can be generated: %s", util.MarshalJsonToString(*values))
+	}
+
+	node.Const = nil
+	node.Enum = &remainingValues
+	return node, true, nil
+}
+
 // collectNotNodes gathers all not sub-schemas from a node into a single slice.
 // This includes node.Not (the inline "not" keyword) and node.mergedNot (not
 // nodes accumulated during allOf merges where each branch's "not" must be
-- 
2.43.0


From 306d6b8994f075e3e88549436a8645522a57c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 65/70] fix: keep integers whole next to a negation of some
 integers

---
 not.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 56b7156..5425657 100644
--- a/not.go
+++ b/not.go
@@ -455,7 +455,10 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	notMultipleOf := util.GetZeroIfNil(notNode.MultipleOf, 0)
 
 	couldBeInteger := nodeTypeContains(newNode, string(generatorTypeInteger))
-	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger))
+
+	// Integers that can be nothing else are only kept when other keywords of the negated schema
+	// can rule it out, so those decide instead of the type
+	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger)) && nodeTypeContains(newNode, string(generatorTypeNumber))
 
 	if multipleOf == 0 && couldBeInteger && !explicitDenyInteger {
 		multipleOf = 1
-- 
2.43.0


From b21424b25b05cd8a9aeac45344e549aeecfb20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 66/70] fix: use the multiples above a negated range when there
 are none below

---
 not.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/not.go b/not.go
index 5425657..9b78e17 100644
--- a/not.go
+++ b/not.go
@@ -446,6 +446,12 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		offsetIncrement,
 	)
 
+	// Use the values above what is negated when there are no multiples below it
+	if node.MultipleOf != nil && min != nil && max != nil && alturnateMin != nil && alturnateMax != nil &&
+		countMultiplesInRange(*min, *max, *node.MultipleOf) == 0 {
+		min, max, alturnateMin, alturnateMax = alturnateMin, alturnateMax, nil, nil
+	}
+
 	newNode.Minimum = min
 	newNode.Maximum = max
 	newNode.MultipleOf = node.MultipleOf
-- 
2.43.0


From a67949888dac96ca87edd0ca34f0426e60601199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 67/70] fix: ignore limits on contained items without contains

---
 array.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 65a0808..97faff5 100644
--- a/array.go
+++ b/array.go
@@ -50,7 +50,10 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		prefixItems = *node.Items.Nodes
 	}
 
-	if minContains == 0 && node.Contains != nil {
+	if node.Contains == nil {
+		// Without contains there is nothing to count
+		minContains, maxContains = 0, 0
+	} else if minContains == 0 {
 		minContains = 1
 	}
 
-- 
2.43.0


From 2e424c9d13f1780d89ce87e31df14ae7425f582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:08 +0000
Subject: [PATCH 68/70] fix: negate limits on contained items only with
 contains

---
 not.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 9b78e17..5b746d7 100644
--- a/not.go
+++ b/not.go
@@ -654,11 +654,17 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		notNode.MinItems, notNode.MaxItems,
 	)
 
+	// Limits on contained items exclude nothing without contains
+	notMinContains, notMaxContains := notNode.MinContains, notNode.MaxContains
+	if notNode.Contains == nil {
+		notMinContains, notMaxContains = nil, nil
+	}
+
 	newNode.MinContains, newNode.MaxContains = resolveBoundsInt(
 		metadata,
 		"minContains", "maxContains",
 		node.MinContains, node.MaxContains,
-		notNode.MinContains, notNode.MaxContains,
+		notMinContains, notMaxContains,
 	)
 
 	if newNode.MinContains != nil && newNode.MaxItems != nil && *newNode.MinContains > *newNode.MaxItems {
-- 
2.43.0


From 700e203373295953a9488b9a9cf22afd1c21b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 69/70] fix: generate no items where unevaluated items are not
 allowed

---
 array.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/array.go b/array.go
index 97faff5..ebd4829 100644
--- a/array.go
+++ b/array.go
@@ -130,6 +130,24 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		}
 	}
 
+	// Nothing is left unevaluated where "items" or "additionalItems" apply to all items after the tuple
+	if itemGenerator != nil || (isLegacyTuple && node.AdditionalItems != nil) {
+		disallowUnevaluatedItems = false
+	}
+
+	if disallowUnevaluatedItems && containsGenerator != nil {
+		// The only items allowed after the tuple are the ones "contains" evaluates
+		unevaluatedItemsGenerator = containsGenerator
+	} else if disallowUnevaluatedItems && !disallowedAdditionalItems {
+		if minItems > tupleLength {
+			return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to the tuple length when unevaluated items are not allowed (minItems: %d, tupleLength: %d)", minItems, tupleLength)
+		}
+
+		disallowedAdditionalItems = true
+		min = tupleLength
+		max = tupleLength
+	}
+
 	return arrayGenerator{
 		TupleGenerators: tupleGenerators,
 		ItemGenerator:   itemGenerator,
-- 
2.43.0


From 47eb73981fec08af7ffee29f8eb5bb4050e025fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 70/70] fix: constrain contained items after legacy tuples by
 additionalItems

---
 array.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index ebd4829..f06db5f 100644
--- a/array.go
+++ b/array.go
@@ -231,8 +231,16 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 	var err error = nil
 	mergedContains := *node.Contains
 	// Merge with items if possible to constrain the contains generator further to aling with item constraints
+	// (The items after a legacy tuple are constrained by "additionalItems" instead)
+	var itemsNode *schemaNode
 	if node.Items != nil && node.Items.Node != nil {
-		mergedContains, err = mergeSchemaNodes(metadata, *node.Items.Node, *node.Contains)
+		itemsNode = node.Items.Node
+	} else if node.Items != nil && node.Items.Nodes != nil && node.AdditionalItems != nil {
+		itemsNode = node.AdditionalItems.Schema
+	}
+
+	if itemsNode != nil {
+		mergedContains, err = mergeSchemaNodes(metadata, *itemsNode, *node.Contains)
 		if err != nil {
 			return nil, fmt.Errorf("error merging 'contains' with 'items' schema: %w", err)
 		}
-- 
2.43.0

