From 7879bb7f19f77d70cfd46f99d89b804d92d9f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:17 +0000
Subject: [PATCH 01/34] fix: parse each chunk of a name instead of repeating
 the complete text

---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From ea15c8b6d8958f58328e8e8bb462f3f696056739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:11 +0000
Subject: [PATCH 02/34] fix: don't hide the name of errors, listing two or more
 of them crashed

---
 pkg/concepts/error.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..25d3863 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
-- 
2.43.0


From 4c521e202d02b6f87a5bd5294b9311261ccc2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:11 +0000
Subject: [PATCH 03/34] fix: use the value passed to the method that sets the
 variable flag of locators

---
 pkg/concepts/locator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/concepts/locator.go b/pkg/concepts/locator.go
index dc67a18..538f8a6 100644
--- a/pkg/concepts/locator.go
+++ b/pkg/concepts/locator.go
@@ -56,7 +56,7 @@ func (l *Locator) Variable() bool {
 // SetVariable sets the flag that indicates if the name of the referenced resource is a variable
 // instead of a fixed URL segment.
 func (l *Locator) SetVariable(value bool) {
-	l.variable = true
+	l.variable = value
 }
 
 // Target returns the resource that is referenced by the locator.
-- 
2.43.0


From 6e4ae02b8a0fdd92832ab4d5447fa8974dc2fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:42 +0000
Subject: [PATCH 04/34] fix: report versions without root resource instead of
 crashing

---
 pkg/language/checks.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..c02d877 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -590,7 +590,12 @@ func (r *Reader) checkResponseParameter(method *concepts.Method, name *names.Nam
 }
 
 func (r *Reader) checkLocatorLoops(version *concepts.Version) {
-	for _, locator := range version.Root().Locators() {
+	// If there is no root resource the error has already been reported:
+	root := version.Root()
+	if root == nil {
+		return
+	}
+	for _, locator := range root.Locators() {
 		path := []*concepts.Locator{locator}
 		r.checkLocatorPathLoops(path)
 	}
-- 
2.43.0


From cc16c42c1d1b61d970d21d8a34b525bde001cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:42 +0000
Subject: [PATCH 05/34] fix: report locators without target instead of crashing

---
 pkg/language/checks.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index c02d877..c4813a2 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -602,6 +602,12 @@ func (r *Reader) checkLocatorLoops(version *concepts.Version) {
 }
 
 func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
+	// If the last locator doesn't have a target the error has already been reported, and the path
+	// can't be followed:
+	if path[len(path)-1].Target() == nil {
+		return
+	}
+
 	// Try to find a previous locator that is defined in the same resource that is the target of
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
-- 
2.43.0


From ea525e59a53ce1e826c6c835b936f15b6a15c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 06/34] fix: don't mix the undefined concepts of different
 services and versions

---
 pkg/language/reader.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..89179e3 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1009,51 +1009,57 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 	ctx.SetValue(ctx.Literal().GetResult())
 }
 
+// undefinedKey calculates the key used to index an undefined concept. Different services and versions
+// can contain concepts with the same name, so the name alone isn't enough.
+func (r *Reader) undefinedKey(version *concepts.Version, name *names.Name) string {
+	return fmt.Sprintf("%s/%s/%s", version.Owner().Name(), version.Name(), name)
+}
+
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Owner(), typ.Name())
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Owner(), typ.Name())
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Owner(), typ.Name())
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Owner(), resource.Name())
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Owner(), resource.Name())
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Owner(), typ.Name())
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Owner(), err.Name())
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Owner(), err.Name())
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Owner(), typ.Name())
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From b64720386ce988059b9d433344d6e0dda21963c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:18 +0000
Subject: [PATCH 07/34] fix: import the JSON library explicitly in the
 generated errors package

---
 pkg/generators/golang/errors_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..76c3039 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -177,6 +177,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 	g.buffer.Import("strings", "")
 	g.buffer.Import("time", "")
 	g.buffer.Import("github.com/golang/glog", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import("github.com/openshift-online/ocm-api-metamodel/pkg/runtime", "")
 	g.buffer.Import(g.packages.HelpersImport(), "")
 	g.buffer.Emit(`
-- 
2.43.0


From 7d36213b13fdaa08c4b4a14a04210990fc647527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:42 +0000
Subject: [PATCH 08/34] fix: generate JSON support that compiles for structs
 without attributes

---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..753d4bd 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From e93664fd10c07edfe21cd985084a31d4ba65ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 09/34] fix: honour the value passed to the link setter of the
 generated builders

---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..2fc7e84 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From 0009cf06c9f55bb0529570c219fb650942400d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:12 +0000
Subject: [PATCH 10/34] fix: keep empty maps when copying objects into builders

The maps of the copied object that were present but empty became nil in the
builder, so they were lost when the resulting object was marshalled.
---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 2fc7e84..1d60e0a 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From df20661def49ecce1faaa84b26dcd2f0f126ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:37 +0000
Subject: [PATCH 11/34] fix: support types with as many attributes as the
 presence bitmap has bits

The mask of the last bit was calculated using a signed integer, so it was
generated as a negative number and the resulting code didn't compile.
---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..649af51 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From f53b51251d079e747d23788015e30046f7a43b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:23 +0000
Subject: [PATCH 12/34] fix: accept empty responses to metadata requests

The request for the metadata returned the EOF error when the response had no
body, unlike the rest of the requests.
---
 pkg/generators/golang/clients_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..28a8ca5 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -378,6 +378,7 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 			reader := bufio.NewReader(response.Body)
 			_, err = reader.Peek(1)
 			if err == io.EOF {
+				err = nil
 				return
 			}
 			if result.status >= 400 {
-- 
2.43.0


From fb2bf9bce57cbe51fb00fe857158be1730c96f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:31 +0000
Subject: [PATCH 13/34] fix: read maps that have an empty key

The JSON readers of the generated code used the empty key as the indication of
the end of the map, so a map with that key could be written but not read.
---
 pkg/generators/golang/json_generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 753d4bd..3566e6d 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1326,6 +1326,7 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 	link bool,
 	linkOwner *concepts.Version) string {
 	g.buffer.Import("time", "")
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	return g.buffer.Eval(`
 		{{ if .Type.IsBoolean }}
 			{{ .Variable }} := iterator.ReadBool()
@@ -1378,14 +1379,11 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadMapCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From 076aff661513bafdb65ba8826b2f33cf28aad493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:24 +0000
Subject: [PATCH 14/34] fix: don't mark as present the timestamp of errors when
 it is nil

The text of such errors couldn't be calculated, it crashed.
---
 pkg/generators/golang/errors_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index 76c3039..ae91b9d 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -270,7 +270,11 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// Timestamp sets the moment when it happened.
 		func (b *ErrorBuilder) Timestamp(value *time.Time) *ErrorBuilder {
 			b.timestamp = value
-			b.bitmap_ |= 128
+			if value != nil {
+				b.bitmap_ |= 128
+			} else {
+				b.bitmap_ &^= 128
+			}
 			return b
 		}
 
-- 
2.43.0


From a73860c32279e43c6dd2de46de37393b2659e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:33 +0000
Subject: [PATCH 15/34] fix: honour the @json name of body parameters in the
 OpenAPI specification

---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From 498fad62c2e8713c70cf52918327343e7a4cb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:33 +0000
Subject: [PATCH 16/34] fix: calculate the import path of the metrics package
 from its own name

---
 pkg/generators/golang/packages_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/packages_calculator.go b/pkg/generators/golang/packages_calculator.go
index 4d58aaa..7d2f92a 100644
--- a/pkg/generators/golang/packages_calculator.go
+++ b/pkg/generators/golang/packages_calculator.go
@@ -129,7 +129,7 @@ func (g *PackagesCalculator) MetricsPackage() string {
 
 // MetricsImport returns complete import path of the metrics package.
 func (g *PackagesCalculator) MetricsImport() string {
-	return path.Join(g.base, g.HelpersPackage())
+	return path.Join(g.base, g.MetricsPackage())
 }
 
 // ErrorsPackage returns the name of the errors package.
-- 
2.43.0


From c324f95a61634abbe3866ef88082f3cd08957b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:33 +0000
Subject: [PATCH 17/34] fix: keep the name of the references to Go types

---
 pkg/generators/golang/types_calculator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 649af51..09f0a28 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -99,6 +99,7 @@ func (c *TypesCalculator) Reference(imprt, selector, name, text string) *TypeRef
 	reference := &TypeReference{}
 	reference.imprt = imprt
 	reference.selector = selector
+	reference.name = name
 	reference.text = text
 	return reference
 }
-- 
2.43.0


From 3bbe0288ba2ea836d8788106fa2e143cedfc04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:29 +0000
Subject: [PATCH 18/34] fix: accept documentation comments that start with a
 blank line

---
 pkg/language/reader.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 89179e3..f3c8919 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1093,17 +1093,22 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		}
 	}
 
-	// Remove from all lines the number of leading spaces of the first line:
+	// Remove from all lines the number of leading spaces of the first line that isn't blank:
 	if len(lines) > 0 {
 		first := lines[0]
-		index := strings.IndexFunc(first, func(r rune) bool {
-			return !unicode.IsSpace(r)
-		})
-		prefix := first[0:index]
+		for _, line := range lines {
+			if strings.TrimSpace(line) != "" {
+				first = line
+				break
+			}
+		}
+		prefix := first[0 : len(first)-len(strings.TrimLeftFunc(first, unicode.IsSpace))]
 		for i, line := range lines {
 			if line != "" {
 				if strings.HasPrefix(line, prefix) {
 					lines[i] = strings.TrimPrefix(line, prefix)
+				} else if strings.TrimSpace(line) == "" {
+					lines[i] = ""
 				} else {
 					r.reporter.Errorf(
 						"Documentation comment at line %d has different "+
-- 
2.43.0


From 109aeac514e675374bd5bcd1b013e281b48b581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:29 +0000
Subject: [PATCH 19/34] fix: don't lose the documentation that follows a
 reference to other service

---
 pkg/language/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f3c8919..439854f 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -304,7 +304,12 @@ func (r *Reader) loadFile(path string) {
 	// Inform that the file is being loaded:
 	r.reporter.Infof("Loading file '%s'", path)
 
-	// Clear the map of comment lines:
+	// Clear the map of comment lines, but restore it when done because files that contain references
+	// to other services are suspended while those services are loaded:
+	saved := comments
+	defer func() {
+		comments = saved
+	}()
 	comments = map[int]string{}
 
 	// Open the source file:
-- 
2.43.0


From df091239b114f8e81c7b529d528495545d6d86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:09 +0000
Subject: [PATCH 20/34] fix: don't process files that have syntax errors

---
 pkg/language/reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 439854f..4e92924 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -338,7 +338,14 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	errors := r.reporter.Errors()
 	tree := parser.File()
+
+	// The tree of a file that has syntax errors is incomplete, and it can't be processed:
+	if r.reporter.Errors() > errors {
+		return
+	}
+
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From ccb3882e71e44befee2b100c064b640174591fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:59 +0000
Subject: [PATCH 21/34] fix: report the references that can't be resolved
 instead of crashing

---
 pkg/language/reader.go | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 4e92924..d5c7eed 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -473,11 +473,31 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	if len(r.inputs) > 1 {
-		panic("referenced service with multiple inputs in undefined")
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' isn't supported when there are multiple inputs",
+			path, typ.Name(),
+		)
+		return
+	}
+	if len(r.inputs) == 0 {
+		// This happens when the reader has been created to load the service of other reference:
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' isn't supported because its service is also "+
+				"referenced",
+			path, typ.Name(),
+		)
+		return
 	}
 	input := r.inputs[0]
 	path = strings.TrimPrefix(path, "/")
 	components := strings.Split(path, "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' should have a service, a version and a type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -494,12 +514,28 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	if refReader.service == nil {
+		return
+	}
 	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	if refVersion == nil {
+		r.reporter.Errorf(
+			"Version of reference '%s' of type '%s' doesn't exist",
+			path, typ.Name(),
+		)
+		return
+	}
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
-	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
+	referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_"))
+	if referencedType == nil {
+		r.reporter.Errorf(
+			"Type of reference '%s' of type '%s' doesn't exist",
+			path, typ.Name(),
+		)
+		return
 	}
+	r.recursivelyAddTypeToVersion(typ, referencedType)
 }
 
 // A helper function to recursively add types to a version
-- 
2.43.0


From 88cdfaf536561cdae55ef5e6d4e3684dfa5ce802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:59 +0000
Subject: [PATCH 22/34] fix: support references to types that use themselves

---
 pkg/language/reader.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index d5c7eed..5828b50 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -535,15 +535,18 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 		)
 		return
 	}
-	r.recursivelyAddTypeToVersion(typ, referencedType)
+	r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
 }
 
-// A helper function to recursively add types to a version
+// A helper function to recursively add types to a version. The types that are in progress are skipped,
+// as otherwise the types that use themselves, directly or indirectly, would never end.
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type) {
-	if referencedType.IsBasicType() {
+	referencedType *concepts.Type, inProgress map[*concepts.Type]bool) {
+	if referencedType.IsBasicType() || inProgress[referencedType] {
 		return
 	}
+	inProgress[referencedType] = true
+	defer delete(inProgress, referencedType)
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -567,9 +570,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			attribute.SetLinkOwner(attribute.Type().Owner())
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), inProgress)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), inProgress)
 		}
 	}
 
-- 
2.43.0


From 8079834bc77cb82478dcf15345834a62edb10310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 23/34] fix: generate valid setters for request parameters that
 are maps

The generated setters assigned the address of the map to a field that is
a map, so the generated code didn't compile.
---
 pkg/generators/golang/clients_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 28a8ca5..efa3b02 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -820,7 +820,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
-- 
2.43.0


From 824560d2c07adcb928d57835b6edfe46fdf06dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 24/34] fix: generate valid code for parameters of type
 Interface

The fields of these parameters aren't pointers, so dereferencing them or
assigning the address of the value to them isn't correct.
---
 pkg/generators/golang/clients_generator.go | 8 ++++----
 pkg/generators/golang/json_generator.go    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index efa3b02..c0dfe7d 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -820,7 +820,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
@@ -844,7 +844,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 				{{ $fieldName := fieldName . }}
 				{{ $parameterName := parameterName . }}
 				if r.{{ $fieldName }} != nil {
-					helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					helpers.AddValue(&query, "{{ $parameterName }}", {{ if not .Type.IsInterface }}*{{ end }}r.{{ $fieldName }})
 				}
 			{{ end }}
 			header := helpers.CopyHeader(r.header)
@@ -979,7 +979,7 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
 				{{ if .Type.IsScalar }}
 					if r != nil && r.{{ $fieldName }} != nil {
-						return *r.{{ $fieldName }}
+						return {{ if not .Type.IsInterface }}*{{ end }}r.{{ $fieldName }}
 					}
 					return {{ zeroValue .Type }}
 				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
@@ -998,7 +998,7 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 				ok = r != nil && r.{{ $fieldName }} != nil
 				if ok {
 					{{ if .Type.IsScalar }}
-						value = *r.{{ $fieldName }}
+						value = {{ if not .Type.IsInterface }}*{{ end }}r.{{ $fieldName }}
 					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
 						value = r.{{ $fieldName }}
 					{{ end }}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 3566e6d..183033c 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1308,7 +1308,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 	return g.buffer.Eval(`
 		case "{{ .Tag }}":
 			{{ generateReadValue "value" .Type false .LinkOwner }}
-			{{ if .Type.IsScalar }}
+			{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 				{{ .Object }}.{{ .Field }} = &value
 			{{ else }}
 				{{ .Object }}.{{ .Field }} = value
-- 
2.43.0


From 4fc065e10bce9fdfa70568b98abcf4b6c4ab187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:53 +0000
Subject: [PATCH 25/34] fix: don't link types without pages in the index of the
 documentation

The index contained links to the pages of the scalar and list types, that
aren't generated.
---
 pkg/generators/docs/docs_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 1b4233e..824684d 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -194,7 +194,9 @@ func (g *DocsGenerator) documentIndex() {
 		{{ range .Model.Services }}
 			{{ range .Versions }}
 				{{ range .Types }}
-					[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ if or .IsEnum .IsStruct }}
+						[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ end }}
 				{{ end }}
 			{{ end }}
 		{{ end }}
-- 
2.43.0


From c2864ced274a212311869ba35a9d10af45f8e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:17 +0000
Subject: [PATCH 26/34] fix: write the summaries of the documentation in one
 line

The line breaks were removed without leaving a space, which joined words, and
they weren't removed if the documentation didn't contain a dot, which broke
the tables.
---
 pkg/generators/docs/docs_generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 824684d..ce45efc 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -412,8 +412,8 @@ func (g *DocsGenerator) docSummary(object concepts.Documented) string {
 	index := strings.IndexRune(doc, '.')
 	if index != -1 {
 		doc = doc[0 : index+1]
-		doc = strings.ReplaceAll(doc, "\n", "")
 	}
 
-	return doc
+	// The summary is used in the rows of tables, so it can't contain line breaks:
+	return strings.ReplaceAll(doc, "\n", " ")
 }
-- 
2.43.0


From e3fe2dc54092add365f7cc917956930e3aed81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:43 +0000
Subject: [PATCH 27/34] fix: write the lines of the documentation completely,
 however long they are

---
 pkg/markdown/buffer.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pkg/markdown/buffer.go b/pkg/markdown/buffer.go
index e46a590..c411145 100644
--- a/pkg/markdown/buffer.go
+++ b/pkg/markdown/buffer.go
@@ -17,7 +17,6 @@ limitations under the License.
 package markdown
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"os"
@@ -250,17 +249,12 @@ func (b *Buffer) Write() error {
 }
 
 // removeTabbs removes the tabs that are used in the templates to align them.
-func (b *Buffer) removeTabs() error {
+func (b *Buffer) removeTabs() {
 	// Split into lines:
-	var lines []string
-	scanner := bufio.NewScanner(b.code)
-	for scanner.Scan() {
-		line := strings.TrimRightFunc(scanner.Text(), unicode.IsSpace)
-		lines = append(lines, line)
-	}
-	err := scanner.Err()
-	if err != nil {
-		return err
+	text := strings.TrimSuffix(b.code.String(), "\n")
+	lines := strings.Split(text, "\n")
+	for i, line := range lines {
+		lines[i] = strings.TrimRightFunc(line, unicode.IsSpace)
 	}
 
 	// Remove the leading tabs from each line:
@@ -275,8 +269,6 @@ func (b *Buffer) removeTabs() error {
 	for _, line := range lines {
 		fmt.Fprintln(b.code, line)
 	}
-
-	return nil
 }
 
 // backTicks is a function that will be available in templates in order to make usage of back ticks
-- 
2.43.0


From 4c47d2d771e49cdb9edf62cc1caefba078dc5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:43 +0000
Subject: [PATCH 28/34] fix: keep the parameters apart from the builtin members
 of the clients

---
 pkg/generators/golang/clients_generator.go | 41 +++++++++++++++++-----
 pkg/generators/golang/json_generator.go    |  2 +-
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index c0dfe7d..676e706 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -456,6 +456,7 @@ func (g *ClientsGenerator) generateResourceClient(resource *concepts.Resource) e
 		Function("parameterName", g.binding.QueryParameterName).
 		Function("pollRequestName", g.pollRequestName).
 		Function("pollResponseName", g.pollResponseName).
+		Function("pollSetterName", g.pollSetterName).
 		Function("readResponseFunc", g.readResponseFunc).
 		Function("requestBodyParameters", g.binding.RequestBodyParameters).
 		Function("requestName", g.requestName).
@@ -622,7 +623,7 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 		}
 
 		{{ range $methodRequestParameters }}
-			{{ $setterName := setterName . }}
+			{{ $setterName := pollSetterName . }}
 			{{ $setterType := setterType . }}
 
 			// {{ $setterName }} sets the value of the '{{ .Name }}' parameter for all the requests that
@@ -630,7 +631,7 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				r.request.{{ $setterName }}(value)
+				r.request.{{ setterName . }}(value)
 				return r
 			}
 		{{ end }}
@@ -1039,7 +1040,7 @@ func (g *ClientsGenerator) enumName(typ *concepts.Type) string {
 
 func (g *ClientsGenerator) fieldName(parameter *concepts.Parameter) string {
 	name := g.names.Private(parameter.Name())
-	name = g.avoidBuiltin(name, builtinFields)
+	name = avoidBuiltin(name, builtinFields)
 	return name
 }
 
@@ -1066,7 +1067,7 @@ func (g *ClientsGenerator) getterName(parameter *concepts.Parameter) string {
 	if name == "" {
 		name = g.names.Public(parameter.Name())
 	}
-	name = g.avoidBuiltin(name, builtinGetters)
+	name = avoidBuiltin(name, builtinGetters)
 	return name
 }
 
@@ -1079,10 +1080,14 @@ func (g *ClientsGenerator) setterName(parameter *concepts.Parameter) string {
 	if name == "" {
 		name = g.names.Public(parameter.Name())
 	}
-	name = g.avoidBuiltin(name, builtinSetters)
+	name = avoidBuiltin(name, builtinSetters)
 	return name
 }
 
+func (g *ClientsGenerator) pollSetterName(parameter *concepts.Parameter) string {
+	return avoidBuiltin(g.setterName(parameter), builtinPollSetters)
+}
+
 func (g *ClientsGenerator) setterType(parameter *concepts.Parameter) *TypeReference {
 	return g.accessorType(parameter)
 }
@@ -1241,7 +1246,7 @@ func (g *ClientsGenerator) readResponseFunc(method *concepts.Method) string {
 	return g.names.Private(name)
 }
 
-func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interface{}) string {
+func avoidBuiltin(name string, builtins map[string]interface{}) string {
 	_, ok := builtins[name]
 	if ok {
 		name = name + "_"
@@ -1250,13 +1255,31 @@ func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interfa
 }
 
 var builtinFields = map[string]interface{}{
-	"err":    nil,
-	"status": nil,
+	"err":       nil,
+	"header":    nil,
+	"path":      nil,
+	"query":     nil,
+	"status":    nil,
+	"transport": nil,
 }
 
 var builtinGetters = map[string]interface{}{
 	"Error":  nil,
+	"Header": nil,
 	"Status": nil,
 }
 
-var builtinSetters = map[string]interface{}{}
+var builtinSetters = map[string]interface{}{
+	"Header":      nil,
+	"Impersonate": nil,
+	"Parameter":   nil,
+	"Send":        nil,
+	"SendContext": nil,
+}
+
+var builtinPollSetters = map[string]interface{}{
+	"Interval":     nil,
+	"Predicate":    nil,
+	"StartContext": nil,
+	"Status":       nil,
+}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 183033c..0a6d9dd 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1567,7 +1567,7 @@ func (g *JSONSupportGenerator) fieldName(attribute *concepts.Attribute) string {
 }
 
 func (g *JSONSupportGenerator) parameterFieldName(parameter *concepts.Parameter) string {
-	return g.names.Private(parameter.Name())
+	return avoidBuiltin(g.names.Private(parameter.Name()), builtinFields)
 }
 
 func (g *JSONSupportGenerator) clientRequestName(method *concepts.Method) string {
-- 
2.43.0


From a5d999519e9c3415238e91c3e81a4f7a34043883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:43 +0000
Subject: [PATCH 29/34] fix: keep the attributes apart from the builtin members
 of the types

---
 pkg/generators/golang/builders_generator.go | 14 ++++++++++++++
 pkg/generators/golang/types_generator.go    | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 1d60e0a..adc04c4 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -708,6 +708,10 @@ func (g *BuildersGenerator) setterName(attribute *concepts.Attribute) string {
 	if name == "" {
 		name = g.names.Public(attribute.Name())
 	}
+	if attribute.Owner().IsClass() {
+		name = avoidBuiltin(name, builtinClassSetters)
+	}
+	name = avoidBuiltin(name, builtinStructSetters)
 	return name
 }
 
@@ -767,3 +771,13 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 func (g *BuildersGenerator) valueType(typ *concepts.Type) *TypeReference {
 	return g.types.ValueReference(typ)
 }
+
+var builtinStructSetters = map[string]interface{}{
+	"Build": nil,
+	"Copy":  nil,
+	"Empty": nil,
+}
+
+var builtinClassSetters = map[string]interface{}{
+	"Link": nil,
+}
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 6307fb4..a729bf0 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -663,6 +663,10 @@ func (g *TypesGenerator) getterName(attribute *concepts.Attribute) string {
 	if name == "" {
 		name = g.names.Public(attribute.Name())
 	}
+	if attribute.Owner().IsClass() {
+		name = avoidBuiltin(name, builtinClassGetters)
+	}
+	name = avoidBuiltin(name, builtinStructGetters)
 	return name
 }
 
@@ -704,3 +708,13 @@ func (g *TypesGenerator) listName(typ *concepts.Type) string {
 	}
 	return typeName + "List"
 }
+
+var builtinStructGetters = map[string]interface{}{
+	"Empty": nil,
+}
+
+var builtinClassGetters = map[string]interface{}{
+	"GetHREF": nil,
+	"GetID":   nil,
+	"Link":    nil,
+}
-- 
2.43.0


From 5e8e2266a01a1b5eb1507f0486c406d2aac4ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 30/34] fix: don't replace lists and maps by other types of the
 same name

---
 pkg/language/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 5828b50..a80eb14 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -698,6 +698,11 @@ func (r *Reader) ExitListTypeReference(ctx *ListTypeReferenceContext) {
 		listType.SetName(listName)
 		listType.SetElement(elementType)
 		r.version.AddType(listType)
+	} else if listType.Kind() != concepts.ListType {
+		r.reporter.Errorf(
+			"Type '%s' can't be the list of '%s' because it is already defined",
+			listName, elementName,
+		)
 	}
 
 	// Return the list type:
@@ -734,6 +739,11 @@ func (r *Reader) ExitMapTypeReference(ctx *MapTypeReferenceContext) {
 		mapType.SetIndex(indexType)
 		mapType.SetElement(elementType)
 		r.version.AddType(mapType)
+	} else if mapType.Kind() != concepts.MapType {
+		r.reporter.Errorf(
+			"Type '%s' can't be the map of '%s' to '%s' because it is already defined",
+			mapName, indexName, elementName,
+		)
 	}
 
 	// Return the map type:
-- 
2.43.0


From e39b99cc031a6a6fc73e050f36cb61bb4d89dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 31/34] fix: honour the @json name of the items of lists

---
 pkg/generators/golang/json_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 0a6d9dd..f91dc74 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -844,6 +844,7 @@ func (g *JSONSupportGenerator) generateResourceSupport(resource *concepts.Resour
 		Packages(g.packages).
 		Package(pkgName).
 		File(fileName).
+		Function("bodyParameterName", g.binding.BodyParameterName).
 		Function("clientRequestName", g.clientRequestName).
 		Function("clientResponseName", g.clientResponseName).
 		Function("defaultValue", g.defaultValue).
@@ -1028,7 +1029,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 						{{ generateReadBodyParameter "response" . }}
 					{{ end }}
 				{{ end }}
-				case "items":
+				case "{{ bodyParameterName .Items }}":
 				{{ generateReadValue "items" .Items.Type false .LinkOwner }}
 				{{ if and .Items.Type.IsList .Items.Type.Element.IsScalar }}
 					response.items = items
@@ -1160,7 +1161,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 						{{ generateReadBodyParameter "response" . }}
 					{{ end }}
 				{{ end }}
-				case "items":
+				case "{{ bodyParameterName .Items }}":
 					{{ generateReadValue "items" .Items.Type false .LinkOwner }}
 					{{ if and .Items.Type.IsList .Items.Type.Element.IsScalar }}
 						response.items = items
-- 
2.43.0


From f212f1e14608d8afb19e1221ef0115102f15adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 32/34] fix: report the failures to write the header of the
 generated files

---
 pkg/generators/golang/buffer.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/generators/golang/buffer.go b/pkg/generators/golang/buffer.go
index 26044b0..b7fb206 100644
--- a/pkg/generators/golang/buffer.go
+++ b/pkg/generators/golang/buffer.go
@@ -329,27 +329,28 @@ func (b *Buffer) Write() error {
 		return fmt.Errorf("can't open output file '%s': %w", b.file, err)
 	}
 
-	// Write the header:
-	fmt.Fprintf(outputFd, "%s\n", fileHeader)
-	fmt.Fprintf(outputFd, "\n")
+	// Prepare the header:
+	header := new(bytes.Buffer)
+	fmt.Fprintf(header, "%s\n", fileHeader)
+	fmt.Fprintf(header, "\n")
 
-	// Write the package statement:
+	// Add the package statement:
 	pkgName := b.cleanPkg(path.Base(b.pkg))
-	fmt.Fprintf(outputFd, "package %s // %s\n", pkgName, b.pkg)
-	fmt.Fprintf(outputFd, "\n")
+	fmt.Fprintf(header, "package %s // %s\n", pkgName, b.pkg)
+	fmt.Fprintf(header, "\n")
 
-	// Write the import statement:
+	// Add the import statement:
 	if len(b.imports) > 0 {
-		fmt.Fprintf(outputFd, "import (\n")
+		fmt.Fprintf(header, "import (\n")
 		for imprt, selector := range b.imports {
 			if selector != "" {
-				fmt.Fprintf(outputFd, "%s \"%s\"\n", selector, imprt)
+				fmt.Fprintf(header, "%s \"%s\"\n", selector, imprt)
 			} else {
-				fmt.Fprintf(outputFd, "\"%s\"\n", imprt)
+				fmt.Fprintf(header, "\"%s\"\n", imprt)
 			}
 		}
-		fmt.Fprintf(outputFd, ")\n")
-		fmt.Fprintf(outputFd, "\n")
+		fmt.Fprintf(header, ")\n")
+		fmt.Fprintf(header, "\n")
 	}
 
 	// Remove extra blank lines from the code:
@@ -358,6 +359,12 @@ func (b *Buffer) Write() error {
 		return fmt.Errorf("can't remove extra blank lines: %w", err)
 	}
 
+	// Write the header:
+	_, err = header.WriteTo(outputFd)
+	if err != nil {
+		return fmt.Errorf("can't write header to file '%s': %w", b.file, err)
+	}
+
 	// Write the code:
 	_, err = b.code.WriteTo(outputFd)
 	if err != nil {
-- 
2.43.0


From 920473a44ee70aeab144afbe3d58a5340e668867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:49 +0000
Subject: [PATCH 33/34] fix: keep the kind and the address of the lists when
 writing links

---
 pkg/generators/golang/json_generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index f91dc74..edece7c 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1464,6 +1464,18 @@ func (g *JSONSupportGenerator) generateWriteValue(value string,
 		{{ else if .Type.IsList }}
 			{{ if .Link }}
 				stream.WriteObjectStart()
+				{{ if .Type.Element.IsClass }}
+					if {{ .Value }}.Link() {
+						stream.WriteObjectField("kind")
+						stream.WriteString({{ .Value }}.Kind())
+						stream.WriteMore()
+					}
+					if {{ .Value }}.HREF() != "" {
+						stream.WriteObjectField("href")
+						stream.WriteString({{ .Value }}.HREF())
+						stream.WriteMore()
+					}
+				{{ end }}
 				stream.WriteObjectField("items")
 				{{ writeRefTypeFunc .Type .LinkOwner }}({{ .Value }}.Items(), stream)
 				stream.WriteObjectEnd()
-- 
2.43.0


From 07d65b6d3fa08439cd4b4adf705b0703cdff0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:51 +0000
Subject: [PATCH 34/34] fix: keep the kind and the address of the lists when
 copying them

---
 pkg/generators/golang/builders_generator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index adc04c4..db5d9c1 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -506,6 +506,8 @@ func (g *BuildersGenerator) generateStructListBuilderSource(typ *concepts.Type)
 		// {{ $builderName }} contains the data and logic needed to build
 		// '{{ .Type.Element.Name }}' objects.
 		type  {{ $builderName }} struct {
+			href  string
+			link  bool
 			items []*{{ $elementBuilderName }}
 		}
 
@@ -536,6 +538,13 @@ func (g *BuildersGenerator) generateStructListBuilderSource(typ *concepts.Type)
 					b.items[i] = {{ $elementBuilderCtor }}().Copy(v)
 				}
 			}
+			if list == nil {
+				b.href = ""
+				b.link = false
+			} else {
+				b.href = list.href
+				b.link = list.link
+			}
 			return b
 		}
 
@@ -550,6 +559,8 @@ func (g *BuildersGenerator) generateStructListBuilderSource(typ *concepts.Type)
 				}
 			}
 			list = new({{ $objectName }})
+			list.href = b.href
+			list.link = b.link
 			list.items = items
 			return
 		}
-- 
2.43.0

