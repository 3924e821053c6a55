From 2f4b99b879390be8b30d40d251f4d0d54601f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 01/15] fix: method "last" no longer reverses the shared
 instructions at every transform

---
 transform/transform.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..af93d8c 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -257,20 +257,21 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
 	var concatResult bool
+	instructions := tis.From
 	switch tis.Method {
 	case last:
-		var newFrom []*transformInstruction
+		// reverse into a new slice, the instructions are shared by all transforms
+		instructions = make([]*transformInstruction, 0, len(tis.From))
 		for i := len(tis.From) - 1; i >= 0; i-- {
-			newFrom = append(newFrom, tis.From[i])
+			instructions = append(instructions, tis.From[i])
 		}
-		tis.From = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range instructions {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e1dde485680b9cff209e89df858febdcb6361ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:29 +0000
Subject: [PATCH 02/15] fix: transforms do not save values in the default of an
 object

---
 transform/instance.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..8a7f2e5 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -25,6 +25,15 @@ func pathReplace(old, new string, modifier pathModifier) pathModifier {
 	}
 }
 
+// copyMap returns a copy of m, values are saved in the copy without changing m.
+func copyMap(m map[string]interface{}) map[string]interface{} {
+	c := make(map[string]interface{}, len(m))
+	for k, v := range m {
+		c[k] = v
+	}
+	return c
+}
+
 // instanceTransformer represents a JSON schema instance with transform details in it.
 // The primary function it performs is to transform (or not) data given as input.
 // In some cases instances contain other instances, in such a case the children transformers are called as needed to
@@ -343,7 +352,7 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 		if ot.defaultValue == nil {
 			newValue = make(map[string]interface{})
 		} else {
-			newValue = ot.defaultValue
+			newValue = copyMap(ot.defaultValue)
 		}
 	}
 
@@ -414,7 +423,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 	if ot.defaultValue == nil {
 		newValue = make(map[string]interface{})
 	} else {
-		newValue = ot.defaultValue
+		newValue = copyMap(ot.defaultValue)
 	}
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
-- 
2.43.0


From 5879ae74bb8bcb049e8afdf86430f2005ceda7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:29 +0000
Subject: [PATCH 03/15] fix: an object taken from the input is copied before
 child values are saved in it

---
 transform/instance.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8a7f2e5..da502f0 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -341,11 +341,12 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 			return nil, err
 		}
 		if rawValue != nil {
-			var ok bool
-			newValue, ok = rawValue.(map[string]interface{})
+			inValue, ok := rawValue.(map[string]interface{})
 			if !ok {
 				return nil, errors.New("transform returned non-object value")
 			}
+			// the value is part of the input, other fields still read it
+			newValue = copyMap(inValue)
 		}
 	}
 	if newValue == nil {
-- 
2.43.0


From 5bebab22074591259470e5dad7523350bdf6647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:09 +0000
Subject: [PATCH 04/15] fix: an array transform does not change the input other
 fields read

---
 transform/instance.go    |  3 +++
 transform/transformer.go | 44 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/transform/instance.go b/transform/instance.go
index da502f0..d88e61b 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -191,9 +191,12 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 			if !ok {
 				return nil, errors.New("input is neither a JSON array nor object")
 			}
+			// the input is shared with all other fields, only the children of this array see the change
+			inMap = copyAlongPath(inMap, path)
 			if err := saveInTree(inMap, path, base); err != nil {
 				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 			}
+			in = inMap
 		}
 	}
 
diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..dc72d51 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -291,6 +291,50 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 	return saveInTree(newTreeMap, strings.Join(splits[1:], "."), value)
 }
 
+// copyAlongPath returns a copy of tree in which every object and array the path leads through is copied as well.
+// Saving a value at the path in the copy leaves tree unchanged.
+func copyAlongPath(tree map[string]interface{}, path string) map[string]interface{} {
+	tree = copyMap(tree)
+	current := tree
+	for _, split := range strings.Split(strings.TrimPrefix(path, "$."), ".") {
+		arraySplits := strings.Split(split, "[")
+		value, ok := current[arraySplits[0]]
+		if !ok {
+			break
+		}
+		value = copyContainer(value)
+		current[arraySplits[0]] = value
+
+		for _, arraySplit := range arraySplits[1:] {
+			slice, _ := value.([]interface{})
+			index, err := strconv.Atoi(strings.Trim(arraySplit, "]"))
+			if err != nil || index >= len(slice) {
+				return tree
+			}
+			value = copyContainer(slice[index])
+			slice[index] = value
+		}
+
+		if current, ok = value.(map[string]interface{}); !ok {
+			break
+		}
+	}
+	return tree
+}
+
+// copyContainer returns a shallow copy of an object or array and any other value as is.
+func copyContainer(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		return copyMap(v)
+	case []interface{}:
+		c := make([]interface{}, len(v))
+		copy(c, v)
+		return c
+	}
+	return value
+}
+
 // saveLeaf will save a leaf value in the tree at the given path. If the path specifies an array or set of nested
 // arrays it will build the array items as needed to reach the specified index. New array items are created as nil.
 // Any nested array items will be recursively treated the same way.
-- 
2.43.0


From a6bbbb2fa7e50bb58e72701f12c6426eb275e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:58 +0000
Subject: [PATCH 05/15] fix: saving an array item where the input has another
 type is an error, not a panic

---
 transform/transformer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index dc72d51..1abd571 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -264,7 +264,9 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 	if len(arraySplits) != 1 { // the case of an array or nested arrays with an object in them
 		var sValue []interface{}
 		if rawSlice, ok := tree[arraySplits[0]]; ok {
-			sValue = rawSlice.([]interface{})
+			if sValue, ok = rawSlice.([]interface{}); !ok {
+				return fmt.Errorf("value at %q is not an array", arraySplits[0])
+			}
 		}
 
 		newTreeMap := make(map[string]interface{})
@@ -347,7 +349,9 @@ func saveLeaf(tree map[string]interface{}, path string, value interface{}) error
 
 	var sValue []interface{}
 	if rawSlice, ok := tree[arraySplits[0]]; ok {
-		sValue = rawSlice.([]interface{})
+		if sValue, ok = rawSlice.([]interface{}); !ok {
+			return fmt.Errorf("value at %q is not an array", arraySplits[0])
+		}
 	}
 
 	newValue, err := saveInSlice(sValue, arraySplits[1:], value)
-- 
2.43.0


From f31b5f3920e7bf903afd71fe4c4cf7fa71ec79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:58 +0000
Subject: [PATCH 06/15] fix: the max operation yields no value for an empty
 array instead of a panic

---
 transform/operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..0c14754 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -159,6 +159,9 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	if !ok {
 		return nil, errors.New("input must be an array")
 	}
+	if len(inArray) == 0 {
+		return nil, nil
+	}
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
-- 
2.43.0


From 8e3a21aa19dd1e05bb5c9817e1358ac49526eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 07/15] fix: an HTTP reference answered with an error status or
 damaged content is an error

---
 jsonschema/reference.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index ecee038..f57d09e 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -176,10 +176,17 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
 		}
+		defer resp.Body.Close()
+		if resp.StatusCode != http.StatusOK {
+			return nil, fmt.Errorf("unable to get reference from %q: unexpected status %q", sourcePath, resp.Status)
+		}
 		source, err = io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
 		}
+		if !json.Valid(source) {
+			return nil, fmt.Errorf("body read from %q is not valid JSON", sourcePath)
+		}
 		// TODO since SchemaFromFile does the current allOf/oneOf processing this data does not go through that processing
 	default: // Default to assuming it is a file reference
 		// TODO this could be rather inefficient if there are multiple references to the same sourcePath but a different
-- 
2.43.0


From 2484a64d8f870c7398f93147b059eb63bd240083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 08/15] fix: circular references are an error instead of a
 deadlock or endless expansion

---
 jsonschema/reference.go | 96 ++++++++++++++++++++++++++++++++++++++++-
 jsonschema/schema.go    |  8 +++-
 2 files changed, 101 insertions(+), 3 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index f57d09e..8779902 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -2,11 +2,13 @@ package jsonschema
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/GannettDigital/jsonparser"
 )
@@ -14,6 +16,7 @@ import (
 const (
 	fromRef      = "fromRef"
 	refKey       = "$ref"
+	refChainKey  = "$refChain" // Added during dereferencing to the refs found in resolved refs.
 	transformKey = "transform"
 )
 
@@ -38,8 +41,14 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 		}
 
 		destPath := refPath[:len(refPath)-1]
+		resolved, err = extendRefChain(data, resolved, ref, destPath)
+		if err != nil {
+			return nil, fmt.Errorf("failed to track ref %q at path %v: %w", ref, refPath, err)
+		}
+
 		// It is necessary to delete the refKey reference so they are not refound
 		data = jsonparser.Delete(data, append(destPath, refKey)...)
+		data = jsonparser.Delete(data, append(append([]string{}, destPath...), refChainKey)...)
 
 		if len(destPath) != 0 {
 			// Attempt to read the object from the source data so that we can apply it after the ref resolving
@@ -97,6 +106,57 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 	return data, nil
 }
 
+// extendRefChain marks each ref in resolved, which is to replace the given ref in the object of data at destPath, with
+// the refs whose resolution brought it there. It returns an error if the given ref came from resolving that same ref,
+// as resolving it again would never end.
+func extendRefChain(data, resolved json.RawMessage, ref string, destPath []string) (json.RawMessage, error) {
+	chain, err := refChain(data, destPath)
+	if err != nil {
+		return nil, err
+	}
+	for _, r := range chain {
+		if r == ref {
+			return nil, fmt.Errorf("circular reference %q", ref)
+		}
+	}
+
+	refs, err := findRefs(resolved)
+	if err != nil {
+		return nil, err
+	}
+	for _, refPath := range refs {
+		parent := refPath[:len(refPath)-1]
+		own, err := refChain(resolved, parent)
+		if err != nil {
+			return nil, err
+		}
+		extended, err := json.Marshal(append(append([]string{ref}, chain...), own...))
+		if err != nil {
+			return nil, err
+		}
+		chainPath := append(append([]string{}, parent...), refChainKey)
+		resolved, err = jsonparser.Set(resolved, extended, chainPath...)
+		if err != nil {
+			return nil, err
+		}
+	}
+	return resolved, nil
+}
+
+// refChain returns the refs extendRefChain noted in the object at the given path.
+func refChain(data json.RawMessage, path []string) ([]string, error) {
+	raw, _, _, err := jsonparser.Get(data, append(append([]string{}, path...), refChainKey)...)
+	if err == jsonparser.KeyPathNotFoundError {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	var chain []string
+	err = json.Unmarshal(raw, &chain)
+	return chain, err
+}
+
 // findRefs searches through the given JSON finding the location in the structure of all refKeys.
 func findRefs(data json.RawMessage) ([][]string, error) {
 	refs := make([][]string, 0)
@@ -147,12 +207,41 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 	return refs, nil
 }
 
+// pendingLoads knows which schema load, identified by its key in the schema cache, waits for which other load.
+var pendingLoads loadGraph
+
+type loadGraph struct {
+	mu       sync.Mutex
+	waitsFor map[string]string
+}
+
+// start notes that the load of parent waits for the load of child until the returned function is called. It returns an
+// error if child itself waits for parent, directly or through other loads, since then neither would ever finish.
+func (g *loadGraph) start(parent, child string) (func(), error) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	for key, ok := child, true; ok; key, ok = g.waitsFor[key] {
+		if key == parent {
+			return nil, errors.New("circular reference")
+		}
+	}
+	if g.waitsFor == nil {
+		g.waitsFor = make(map[string]string)
+	}
+	g.waitsFor[parent] = child
+	return func() {
+		g.mu.Lock()
+		defer g.mu.Unlock()
+		delete(g.waitsFor, parent)
+	}, nil
+}
+
 // resolveRef looks at the reference value passed in as ref and resolves it to a set of JSON.
 // The reference may refer to a definition within the given data or a file reference.
 // For files schemaPath is used to resolve relative references then SchemaFromFile is used to build the file.
 // oneOfType is used by schemaFromFile to select a specific oneOfType.
 func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType string, flatten bool) (json.RawMessage, error) {
-	// TODO there is nothing here to stop circular references other than self references
 	var sourcePath, target string
 	splits := strings.SplitN(ref, "#", 2)
 	if len(splits) != 2 {
@@ -199,6 +288,11 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 			source = data
 			break
 		}
+		done, err := pendingLoads.start(schemaKey(schemaPath, oneOfType, flatten), schemaKey(refPath, oneOfType, flatten))
+		if err != nil {
+			return nil, fmt.Errorf("failed to process reference file %q: %w", refPath, err)
+		}
+		defer done()
 		var schema *Schema
 		if flatten {
 			schema, err = SchemaFromFile(refPath, oneOfType)
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..4a821de 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -94,13 +94,17 @@ func SchemaFromFile(schemaPath, oneOfType string) (*Schema, error) {
 	return schemaFromFile(schemaPath, oneOfType, true)
 }
 
+// schemaKey identifies a schema in the cache.
+func schemaKey(schemaPath, oneOfType string, flatten bool) string {
+	return schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
+}
+
 func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Schema, error) {
 	schemaPath, err := filepath.Abs(schemaLoadPath)
 	if err != nil {
 		return nil, err
 	}
-	schemaKey := schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
-	return schemaCache.Load(schemaKey, func() (*Schema, error) {
+	return schemaCache.Load(schemaKey(schemaPath, oneOfType, flatten), func() (*Schema, error) {
 		data, err := os.ReadFile(schemaPath)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read schema file %q: %v", schemaPath, err)
-- 
2.43.0


From 2d3de0baeee2bb32b8576280cfb14b7744079366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 09/15] fix: circular references are found before they
 multiply, overridden ones are no error

---
 jsonschema/reference.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 8779902..542a1e3 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -107,18 +107,27 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 }
 
 // extendRefChain marks each ref in resolved, which is to replace the given ref in the object of data at destPath, with
-// the refs whose resolution brought it there. It returns an error if the given ref came from resolving that same ref,
-// as resolving it again would never end.
+// the refs whose resolution brought it there. It returns an error if resolving the given ref would never end because
+// what it resolves to always contains it again. The keys beside a ref replace those of the resolved object, a ref found
+// below such a key is gone and does not count.
 func extendRefChain(data, resolved json.RawMessage, ref string, destPath []string) (json.RawMessage, error) {
 	chain, err := refChain(data, destPath)
 	if err != nil {
 		return nil, err
 	}
+	kept, err := keysBesideRef(data, destPath)
+	if err != nil {
+		return nil, err
+	}
+	seen := 0
 	for _, r := range chain {
 		if r == ref {
-			return nil, fmt.Errorf("circular reference %q", ref)
+			seen++
 		}
 	}
+	if seen > 1 || seen == 1 && len(kept) == 0 {
+		return nil, fmt.Errorf("circular reference %q", ref)
+	}
 
 	refs, err := findRefs(resolved)
 	if err != nil {
@@ -126,6 +135,19 @@ func extendRefChain(data, resolved json.RawMessage, ref string, destPath []strin
 	}
 	for _, refPath := range refs {
 		parent := refPath[:len(refPath)-1]
+		inner, err := jsonparser.GetString(resolved, refPath...)
+		if err != nil {
+			return nil, err
+		}
+		if inner == ref && !kept[refPath[0]] {
+			innerKept, err := keysBesideRef(resolved, parent)
+			if err != nil {
+				return nil, err
+			}
+			if !innerKept[refPath[0]] {
+				return nil, fmt.Errorf("circular reference %q", ref)
+			}
+		}
 		own, err := refChain(resolved, parent)
 		if err != nil {
 			return nil, err
@@ -143,6 +165,18 @@ func extendRefChain(data, resolved json.RawMessage, ref string, destPath []strin
 	return resolved, nil
 }
 
+// keysBesideRef returns the keys the object at the given path has beside the ref.
+func keysBesideRef(data json.RawMessage, path []string) (map[string]bool, error) {
+	keys := make(map[string]bool)
+	err := jsonparser.ObjectEach(data, func(key []byte, _ []byte, _ jsonparser.ValueType, _ int) error {
+		if k := string(key); k != refKey && k != refChainKey {
+			keys[k] = true
+		}
+		return nil
+	}, path...)
+	return keys, err
+}
+
 // refChain returns the refs extendRefChain noted in the object at the given path.
 func refChain(data json.RawMessage, path []string) ([]string, error) {
 	raw, _, _, err := jsonparser.Get(data, append(append([]string{}, path...), refChainKey)...)
-- 
2.43.0


From c92f5b7d6d0dd3c991e328b3a4b95efbe6756d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:31 +0000
Subject: [PATCH 10/15] fix: report a failed close of a generated struct file

The data of a file may only be found not to fit or not to reach the disk when
the file is closed. The result of the close was dropped, so generation reported
success with a truncated or empty struct file.
---
 generate/generate.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 79cd534..b6abeba 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -246,10 +246,15 @@ func buildStructFile(childPath, name, packageName string, embeds []string, args
 	if err != nil {
 		return "", fmt.Errorf("failed to open file %q: %v", outPath, err)
 	}
-	defer gfile.Close()
 
-	err = generated.write(gfile)
-	return outPath, err
+	if err := generated.write(gfile); err != nil {
+		gfile.Close()
+		return outPath, err
+	}
+	if err := gfile.Close(); err != nil {
+		return outPath, fmt.Errorf("failed to close file %q: %v", outPath, err)
+	}
+	return outPath, nil
 }
 
 // exportedName returns a name that is usable as an exported field in Go.
-- 
2.43.0


From 5aa961e978cdfa613ef663b8e0d4f09dd1adbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 11/15] fix: generate the same fields each time when names
 differ only in case

Properties such as author and Author give the same Go name. Sorting the fields
by that name alone kept one of them, chosen by map order, and wrote it twice.
Where their nested structs share a name, the last one walked wins, so the walk
has to go through the properties in the same order each time too.
---
 generate/graphql.go | 21 ++++++++++-----------
 generate/struct.go  | 21 ++++++++++-----------
 jsonschema/walk.go  | 20 ++++++++++++++++----
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..e5033bb 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -313,21 +313,20 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 	return nil
 }
 
-// Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
+// Sorted will return the fields in a sorted list. The sort is a string sort on the names, and on the names in the JSON
+// where different fields get the same name.
 func (efs gqlExtractedFields) Sorted() []*gqlExtractedField {
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*gqlExtractedField, len(efs))
+	sorted := make([]*gqlExtractedField, 0, len(efs))
 	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+		sorted = append(sorted, f)
 	}
 
-	sortedKeys.Sort()
-
-	sorted := make([]*gqlExtractedField, 0, len(sortedKeys))
-	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
-	}
+	sort.Slice(sorted, func(i, j int) bool {
+		if sorted[i].name != sorted[j].name {
+			return sorted[i].name < sorted[j].name
+		}
+		return sorted[i].jsonName < sorted[j].jsonName
+	})
 
 	return sorted
 }
diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..e08e19f 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -102,21 +102,20 @@ func (efs extractedFields) IncludeTime() bool {
 	return false
 }
 
-// Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
+// Sorted will return the fields in a sorted list. The sort is a string sort on the names, and on the names in the JSON
+// where different fields get the same name.
 func (efs extractedFields) Sorted() []*extractedField {
-	var sorted []*extractedField
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*extractedField)
+	sorted := make([]*extractedField, 0, len(efs))
 	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+		sorted = append(sorted, f)
 	}
 
-	sortedKeys.Sort()
-
-	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
-	}
+	sort.Slice(sorted, func(i, j int) bool {
+		if sorted[i].name != sorted[j].name {
+			return sorted[i].name < sorted[j].name
+		}
+		return sorted[i].jsonName < sorted[j].jsonName
+	})
 
 	return sorted
 }
diff --git a/jsonschema/walk.go b/jsonschema/walk.go
index fa759cf..6b22142 100644
--- a/jsonschema/walk.go
+++ b/jsonschema/walk.go
@@ -4,6 +4,7 @@ package jsonschema
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/GannettDigital/jsonparser"
@@ -23,11 +24,12 @@ type WalkRawFunc func(path string, value json.RawMessage) error
 // Walk runs each instance in the JSON schema through the defined walk function, keeping track of the JSONPath.
 // It assumes the JSON schema is valid and does not check for many errors such as bad property names.
 // For instances that are objects or arrays the WalkFunc will be called for each child instance.
+// The properties of an object are walked in the order of their names.
 func Walk(s *Schema, walkFn WalkInstanceFunc) error {
 	rootPath := "$"
 
-	for key, value := range s.Properties {
-		if err := walkInstance(value, prependJSONPath(rootPath, key), walkFn); err != nil {
+	for _, key := range sortedKeys(s.Properties) {
+		if err := walkInstance(s.Properties[key], prependJSONPath(rootPath, key), walkFn); err != nil {
 			return err
 		}
 	}
@@ -40,6 +42,16 @@ func Walk(s *Schema, walkFn WalkInstanceFunc) error {
 	return nil
 }
 
+// sortedKeys returns the names of the properties in the order they are walked, which is the same each time.
+func sortedKeys(properties map[string]json.RawMessage) []string {
+	keys := make([]string, 0, len(properties))
+	for key := range properties {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // prependJSONPath a parent JSONPath to the beginning of a JSONPath.
 // This allows for incrementally building up the full JSONPath.
 func prependJSONPath(parent string, child string) string {
@@ -72,8 +84,8 @@ func walkInstance(raw json.RawMessage, path string, walkFn WalkInstanceFunc) err
 		if i.Properties == nil {
 			return fmt.Errorf("object at path %q missing Properties", path)
 		}
-		for key, value := range i.Properties {
-			if err := walkInstance(value, prependJSONPath(path, key), walkFn); err != nil {
+		for _, key := range sortedKeys(i.Properties) {
+			if err := walkInstance(i.Properties[key], prependJSONPath(path, key), walkFn); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 73e533d85eb9fb93697292dc49e183031c686d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 12/15] fix: let generation be repeated after it was cut off

Avro and MessagePack generation parse all Go files of the output directory. A
file that a crash or a full disk left incomplete there made every later
generation fail until it was deleted by hand. Generated Go files now get their
name once complete, and the MessagePack code left by an earlier generation is
not parsed.
---
 generate/avro.go         |  7 ++++++-
 generate/avro_helpers.go |  7 +------
 generate/generate.go     | 45 ++++++++++++++++++++++++++++++++--------
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 071a13d..fd8aeeb 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -9,6 +9,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -190,7 +191,11 @@ func parseGoStruct(name, path string) (*ast.TypeSpec, error) {
 // filterPackage will filter all the go files found at the path returning a *ast.File containing name.
 func filterPackage(name, path string) (*ast.File, error) {
 	fileSet := token.NewFileSet()
-	pkgmap, err := parser.ParseDir(fileSet, path, nil, parser.AllErrors)
+	// MessagePack code defines no structs and may be incomplete if an earlier generation was interrupted.
+	notMessagePack := func(info fs.FileInfo) bool {
+		return !strings.HasSuffix(info.Name(), msgpSuffix+".go") && !strings.HasSuffix(info.Name(), msgpSuffix+"_test.go")
+	}
+	pkgmap, err := parser.ParseDir(fileSet, path, notMessagePack, parser.AllErrors)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse go files at path %q: %v", path, err)
 	}
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..d80842b 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -7,7 +7,6 @@ import (
 	"go/ast"
 	"go/format"
 	"io"
-	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -593,11 +592,7 @@ func writeCodeTemplate(src string, values map[string]string, path string) error
 		return fmt.Errorf("failed to format source: %v", err)
 	}
 
-	if err := os.WriteFile(path, final, 0644); err != nil {
-		return fmt.Errorf("failed to write file %q: %v", path, err)
-	}
-
-	return nil
+	return writeFile(path, final)
 }
 
 // structToFilename will lowercase the first letter of the string to align with the typical
diff --git a/generate/generate.go b/generate/generate.go
index b6abeba..d4c90fe 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -3,6 +3,7 @@
 package generate
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -208,6 +209,15 @@ func buildAvro(name, path string, args BuildArgs) error {
 
 // buildMessagePackFile generates MessagePack serialization methods for the entire package.
 func buildMessagePackFile(outputDir string, mode gen.Method) error {
+	// The output of an earlier generation is replaced. It is parsed along with the rest of the directory, which fails if
+	// that generation was interrupted.
+	for _, suffix := range []string{".go", "_test.go"} {
+		stale := filepath.Join(outputDir, filepath.Base(outputDir)+msgpSuffix+suffix)
+		if err := os.Remove(stale); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+	}
+
 	fs, err := parse.File(outputDir, false)
 	if err != nil {
 		return err
@@ -242,19 +252,36 @@ func buildStructFile(childPath, name, packageName string, embeds []string, args
 	}
 
 	outPath := filepath.Join(args.OutputDir, strings.Split(filepath.Base(childPath), ".")[0]+".go")
-	gfile, err := os.Create(outPath)
-	if err != nil {
-		return "", fmt.Errorf("failed to open file %q: %v", outPath, err)
+	buf := &bytes.Buffer{}
+	if err := generated.write(buf); err != nil {
+		return outPath, err
 	}
+	return outPath, writeFile(outPath, buf.Bytes())
+}
 
-	if err := generated.write(gfile); err != nil {
-		gfile.Close()
-		return outPath, err
+// writeFile writes a generated Go file. The file gets its name once it is complete, as the whole directory is parsed by
+// later steps and later generations, which a part of a file left by an interrupted generation would fail.
+func writeFile(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	tmpFile, err := os.Create(tmpPath)
+	if err != nil {
+		return fmt.Errorf("failed to open file %q: %v", tmpPath, err)
+	}
+	_, err = tmpFile.Write(data)
+	if err == nil {
+		err = tmpFile.Sync()
+	}
+	if cerr := tmpFile.Close(); err == nil {
+		err = cerr
 	}
-	if err := gfile.Close(); err != nil {
-		return outPath, fmt.Errorf("failed to close file %q: %v", outPath, err)
+	if err == nil {
+		err = os.Rename(tmpPath, path)
 	}
-	return outPath, nil
+	if err != nil {
+		os.Remove(tmpPath)
+		return fmt.Errorf("failed to write file %q: %v", path, err)
+	}
+	return nil
 }
 
 // exportedName returns a name that is usable as an exported field in Go.
-- 
2.43.0


From e1e657f54f321b57baaed92fccb23ed5440f66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 13/15] fix: Avro times outside the range of nanoseconds are
 written as the right millisecond

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index d80842b..ad87f9f 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -55,7 +55,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -74,7 +74,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return AvroTime(*t)
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From 1f12b1bd25b87c917a49814683306fe46a2872a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 14/15] fix: Avro records keep properties whose names start
 with avro

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index ad87f9f..d1bf69a 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -246,10 +246,10 @@ func (fm *avroFieldMapper) generateFields(prefix string, avroFields *ast.FieldLi
 			return mappedFields{}, errors.New("unknown embedded field in Avro struct")
 		}
 		name := f.Names[0].Name
-		if strings.HasPrefix(name, "Avro") { // skip metadata fields which are populated in the templated code
+		generatedField, ok := generatedFieldsMap[name]
+		if !ok && (name == "AvroWriteTime" || name == "AvroDeleted") { // skip metadata fields which are populated in the templated code
 			continue
 		}
-		generatedField, ok := generatedFieldsMap[name]
 		if !ok {
 			return mappedFields{}, fmt.Errorf("no mapping found for field %q", name)
 		}
-- 
2.43.0


From 271b14209ebf8bce38dee9f0fd8731a8f9c5c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:04 +0000
Subject: [PATCH 15/15] fix: report a failed write of an Avro schema

---
 generate/avro.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index fd8aeeb..bebdabd 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -114,17 +114,10 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 		return outPath, fmt.Errorf("failed to open file %q: %v", outPath, err)
 	}
 
-	var writer io.Writer
-	var buf *bytes.Buffer
-	writer = specFile
-	if pretty {
-		buf = &bytes.Buffer{}
-		writer = buf
-	}
-
+	buf := &bytes.Buffer{}
 	cfg := avroConfig{
 		dir:              dir,
-		writer:           writer,
+		writer:           buf,
 		excludeNamespace: make(map[string]bool),
 	}
 
@@ -139,6 +132,8 @@ func buildAvroSchemaFile(name, goSourcePath string, pretty bool) (string, error)
 		if err := enc.Encode(rawJSON); err != nil {
 			return "", fmt.Errorf("failed writing pretty output to file: %v", err)
 		}
+	} else if _, err := specFile.Write(buf.Bytes()); err != nil {
+		return "", fmt.Errorf("failed writing output to file: %v", err)
 	}
 
 	if err := specFile.Close(); err != nil {
-- 
2.43.0

