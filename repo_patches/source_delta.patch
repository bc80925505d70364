From c9b858d3c638d2705f84b65ad4f947e896153fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 01/32] fix: write null for a method field whose arguments
 cannot be bound

Without it the response contained an object key without a value, which is
not valid JSON.
---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 00e1747..c88def6 100644
--- a/resolver.go
+++ b/resolver.go
@@ -801,6 +801,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From 810245e3ffe1d579668dbfadc644cbe78932f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 02/32] fix: write null for a __typename field with a selection
 set

Without it the response contained an object key without a value, which is
not valid JSON.
---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index c88def6..16ca382 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
-- 
2.43.0


From 042e346a12111548b3ee8dddafa159edf2dcacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 03/32] fix: copy the fragment locations into the query cache

The cache entry kept the parser's own slice, which the parser reuses for
the next query, so a later cache hit got the fragments of another query.
---
 bytecode/cache/bytecode_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..dba60c0 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,8 +70,9 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: make([]int, len(fragmentLocation)),
 	}
+	copy(newCacheEntry.fragmentLocation, fragmentLocation)
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
 
-- 
2.43.0


From 7c1eaae3e8665dbc07577d0a84e0ad423394da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 04/32] fix: read list and null argument values up to their end

A list value left the cursor on its own end instruction, so the arguments
after a list were dropped and a field with a list argument and a selection
set was misread. A null for a pointer left the cursor one byte early, so
the list items after it were misread.
---
 resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 16ca382..a85a795 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1405,7 +1405,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7) // read ActionValue, ValueNull, NULL * 4 and the NULL behind it
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
@@ -1595,6 +1595,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read the end of the list and the NULL behind it
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From dfd4290284d2f0f5e597548c1c1c7ce5dcb0fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 05/32] fix: do not drop a pointer to an input object when its
 last field is null

Whether the object was set was overwritten by whether its last field was.
---
 resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index a85a795..55b3553 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1617,11 +1617,11 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-			return valueSet, criticalErr
+			return false, criticalErr
 		}
 	}
 	return valueSet, false
-- 
2.43.0


From 47a95b118b8d89d25bf73c8ebcea81bb2e6c5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 06/32] fix: read string arguments by their length

A \u0000 in a string literal ends up as a NUL byte in the bytecode. The
resolver read strings up to the first NUL, so the rest of the string was
interpreted as instructions.
---
 resolver.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/resolver.go b/resolver.go
index 55b3553..a69bc35 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1423,9 +1423,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	}
 
-	ctx.skipInst(1)             // read ActionValue
-	valueKind := ctx.readInst() // read value kind
-	ctx.skipInst(4)             // read length of value
+	ctx.skipInst(1)                             // read ActionValue
+	valueKind := ctx.readInst()                 // read value kind
+	valueLen := int(ctx.readUint32(ctx.charNr)) // length of value
+	ctx.skipInst(4)
 
 	// TODO if field is: isTime, isFile, is.. and the value provided is different than the expected we'll get wired errors
 
@@ -1531,7 +1532,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			return false, ctx.err("cannot assign float to " + goValue.String())
 		}
 	case bytecode.ValueString:
-		startString, endString := getValue()
+		// A string can contain NULL bytes so here the length tells where it ends
+		startString := ctx.charNr
+		endString := startString + valueLen
+		ctx.skipInst(valueLen + 1)
 		stringValue := b2s(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
-- 
2.43.0


From 4455a0b8f5994d043982f76216d2779d1d33182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 07/32] fix: compare the full fragment name when resolving a
 spread

A fragment whose name started with the name of the spread was used in its
place.
---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index a69bc35..14a0ae8 100644
--- a/resolver.go
+++ b/resolver.go
@@ -475,7 +475,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From 0145d4201304809077364bbfceed21ad8f96a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 08/32] fix: do not dereference a missing context or form file
 getter

SetContext on a request without a context and a File variable without
GetFormFile both panicked.
---
 resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 14a0ae8..75f6a1f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -114,7 +114,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
@@ -1156,6 +1156,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From 4565d8ed34a67ee69569b89decd07bc6068a6112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 09/32] fix: reject integers that do not fit the argument's
 type

The width checks for unsigned JSON variables tested the signed kinds, and
ID arguments had none, so these values were silently truncated.
---
 resolver.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/resolver.go b/resolver.go
index 75f6a1f..a05f03f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1134,7 +1134,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
+				if goValue.OverflowInt(int64(intValue)) {
+					return false, ctx.err("id argument is out of range for this number type")
+				}
 				goValue.SetInt(int64(intValue))
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
@@ -1145,7 +1147,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				if intValue < 0 {
 					return false, ctx.err("id argument must match a number above 0")
 				}
-				// TODO check if the int value can be assigned to uint8 - uint32
+				if goValue.OverflowUint(uint64(intValue)) {
+					return false, ctx.err("id argument is out of range for this number type")
+				}
 				goValue.SetUint(uint64(intValue))
 				valueSet = true
 			default:
@@ -1273,15 +1277,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				uintVal := uint64(intVal)
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
@@ -1345,7 +1349,9 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
+			if goValue.OverflowInt(int64(intValue)) {
+				return ctx.err("id argument is out of range for this number type")
+			}
 			goValue.SetInt(int64(intValue))
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			intValue, err := strconv.Atoi(stringValue)
@@ -1355,7 +1361,9 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			if intValue < 0 {
 				return ctx.err("id argument must match a number above 0")
 			}
-			// TODO check if the int value can be assigned to uint8 - uint32
+			if goValue.OverflowUint(uint64(intValue)) {
+				return ctx.err("id argument is out of range for this number type")
+			}
 			goValue.SetUint(uint64(intValue))
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
-- 
2.43.0


From de5c1eb777f51bd7325f91e6692ee06b745177fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 10/32] fix: do not accept an int literal for an enum argument

It was assigned as is, so a resolver could be given a value that is not
part of the enum.
---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index a05f03f..820fc2d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1463,6 +1463,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			return valueSet, criticalErr
 		}
 	case bytecode.ValueInt:
+		if valueStructure.isEnum {
+			return false, ctx.err("cannot assign int to enum value")
+		}
+
 		startInt, endInt := getValue()
 		intValue := b2s(ctx.query.Res[startInt:endInt])
 
-- 
2.43.0


From 6544ba98e392245aa8f5ea33fda8a7f69c85d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 11/32] fix: copy every property of a schema

A copy listed the hidden introspection fields in its introspection, lost
the descriptions of its enums and reset its cache rules.
---
 copy_schema.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..62dd99e 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -80,6 +80,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
 	}
+	res.query.CacheableQueryMinLen = ctx.query.CacheableQueryMinLen
 	res.ctxReflection = reflect.ValueOf(res)
 	return res
 }
@@ -133,8 +134,12 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr("")
+		*res.Description = *m.Description
+	}
+	if m.SpecifiedByURL != nil {
+		res.SpecifiedByURL = helpers.StrPtr("")
+		*res.SpecifiedByURL = *m.SpecifiedByURL
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
@@ -177,6 +182,7 @@ func (o *obj) copy() *obj {
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
 		dataValueType:  o.dataValueType,
+		hidden:         o.hidden,
 		isID:           o.isID,
 		enumTypeIndex:  o.enumTypeIndex,
 	}
-- 
2.43.0


From acf6b802422be58bc32cc8df7b6ca5d885b0120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 12/32] fix: do not share mutable state between a schema and
 its copy

The tracer and, through the value of __schema, the introspection caches of
the original schema were used by its copies, which is a data race as the
copies are meant to be used concurrently.
---
 copy_schema.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 62dd99e..e9c92f6 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -39,9 +39,9 @@ func (s *Schema) Copy() *Schema {
 		inTypes:    *s.inTypes.copy(),
 		interfaces: *interfaces,
 
-		rootQuery:         s.rootQuery.copy(),
+		rootQuery:         (*types)[s.rootQuery.typeName],
 		rootQueryValue:    s.rootQueryValue,
-		rootMethod:        s.rootMethod.copy(),
+		rootMethod:        (*types)[s.rootMethod.typeName],
 		rootMethodValue:   s.rootMethodValue,
 		MaxDepth:          s.MaxDepth,
 		definedEnums:      enums,
@@ -53,6 +53,13 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	// The value of __schema has functions that use the schema they are created from
+	schemaField, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if ok && schemaField.customObjValue != nil {
+		contents := reflect.ValueOf(res.getQLSchema())
+		schemaField.customObjValue = &contents
+	}
+
 	res.ctx = s.ctx.copy(res)
 
 	return res
@@ -69,7 +76,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From 01964d51cdd66164297e7fa5b5d65b4b43823aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 13/32] fix: bound the recursion of fragments and interfaces by
 MaxDepth

A fragment that spreads itself recursed until the stack overflowed, and
resolving an interface increased the dept without comparing it, so the
comparison in the next object could miss MaxDepth.
---
 resolver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 820fc2d..d95c2d1 100644
--- a/resolver.go
+++ b/resolver.go
@@ -467,6 +467,12 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		return criticalErr
 	}
 
+	// Fragments can spread each other, or themselves, without end so here we also need to check the dept
+	dept++
+	if dept == ctx.schema.MaxDepth {
+		return ctx.err("reached max dept")
+	}
+
 	ctxQueryResLen := len(ctx.query.Res)
 
 	for _, location := range ctx.query.FragmentLocations {
@@ -903,7 +909,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From b1c7fe7cb097d404eec335625b729e8e0a3ad9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 14/32] fix: let the stack of go values grow

Its index was an uint8 that wrapped to the first value on deeply nested
lists and objects.
---
 copy_schema.go | 2 +-
 resolver.go    | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index e9c92f6..5639fb8 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -82,7 +82,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index d95c2d1..06ce69a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -38,8 +38,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -52,7 +52,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -71,6 +71,9 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	for ctx.currentReflectValueIdx >= len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, reflect.Value{})
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From 60f19c970f77933c109e4b68ea3a68faf5154fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 15/32] fix: limit the nesting of a query

The parser recursed once per nested selection set, value or list type, so a
query of some megabytes of brackets ended the process with a stack
overflow, which cannot be recovered from.
---
 bytecode/bytecode.go | 45 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..bca7439 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -12,6 +12,9 @@ import (
 	"github.com/mjarkk/yarql/bytecode/cache"
 )
 
+// maxNesting is the number of selection sets, input values or list types that can be nested
+const maxNesting = 1000
+
 // ParserCtx has all the information needed to parse a query
 type ParserCtx struct {
 	Res                  []byte
@@ -225,7 +228,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 	}
 
 	ctx.charNr++
-	criticalErr := ctx.parseSelectionSet()
+	criticalErr := ctx.parseSelectionSet(0)
 	if criticalErr {
 		return criticalErr
 	}
@@ -298,7 +301,7 @@ func (ctx *ParserCtx) parseOperatorArgument() bool {
 	if eof {
 		return ctx.unexpectedEOF()
 	}
-	criticalErr = ctx.parseGraphqlTypeName(c)
+	criticalErr = ctx.parseGraphqlTypeName(c, 0)
 	if criticalErr {
 		return criticalErr
 	}
@@ -320,7 +323,7 @@ func (ctx *ParserCtx) parseOperatorArgument() bool {
 			return ctx.unexpectedEOF()
 		}
 
-		criticalErr = ctx.parseInputValue()
+		criticalErr = ctx.parseInputValue(0)
 		if criticalErr {
 			return criticalErr
 		}
@@ -369,14 +372,18 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 		}
 		ctx.Res[hasArgsFlag] = 't'
 		ctx.charNr++
-		criticalErr = ctx.parseAssignmentSet(')')
+		criticalErr = ctx.parseAssignmentSet(')', 0)
 		if criticalErr {
 			return directivesAmount, criticalErr
 		}
 	}
 }
 
-func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
+func (ctx *ParserCtx) parseGraphqlTypeName(c byte, nesting int) bool {
+	if nesting > maxNesting {
+		return ctx.err("type is nested too deep")
+	}
+
 	var eof bool
 	operationLocation := len(ctx.Res)
 
@@ -389,7 +396,7 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.unexpectedEOF()
 		}
 
-		criticalErr := ctx.parseGraphqlTypeName(c)
+		criticalErr := ctx.parseGraphqlTypeName(c, nesting+1)
 		if criticalErr {
 			return criticalErr
 		}
@@ -436,7 +443,11 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 	return false
 }
 
-func (ctx *ParserCtx) parseSelectionSet() bool {
+func (ctx *ParserCtx) parseSelectionSet(nesting int) bool {
+	if nesting > maxNesting {
+		return ctx.err("query is nested too deep")
+	}
+
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
@@ -513,7 +524,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					ctx.parseSelectionSet(nesting + 1)
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
@@ -596,7 +607,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 				return ctx.unexpectedEOF()
 			}
 
-			criticalErr := ctx.parseAssignmentSet(')')
+			criticalErr := ctx.parseAssignmentSet(')', 0)
 			if criticalErr {
 				return criticalErr
 			}
@@ -610,7 +621,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 		if c == '{' {
 			ctx.charNr++
 
-			criticalErr := ctx.parseSelectionSet()
+			criticalErr := ctx.parseSelectionSet(nesting + 1)
 			if criticalErr {
 				return criticalErr
 			}
@@ -643,7 +654,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 
 // https://spec.graphql.org/October2021/#sec-Language.Arguments
 // https://spec.graphql.org/October2021/#ObjectValue
-func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
+func (ctx *ParserCtx) parseAssignmentSet(closure byte, nesting int) bool {
 	ctx.instructionNewValueObject()
 	startOfObj := len(ctx.Res)
 
@@ -678,7 +689,7 @@ func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
 		}
 		ctx.charNr++
 
-		criticalErr = ctx.parseInputValue()
+		criticalErr = ctx.parseInputValue(nesting)
 		if criticalErr {
 			return criticalErr
 		}
@@ -703,7 +714,11 @@ func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
 	}
 }
 
-func (ctx *ParserCtx) parseInputValue() bool {
+func (ctx *ParserCtx) parseInputValue(nesting int) bool {
+	if nesting > maxNesting {
+		return ctx.err("value is nested too deep")
+	}
+
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
@@ -752,7 +767,7 @@ func (ctx *ParserCtx) parseInputValue() bool {
 		}
 
 		for {
-			criticalErr := ctx.parseInputValue()
+			criticalErr := ctx.parseInputValue(nesting + 1)
 			if criticalErr {
 				return criticalErr
 			}
@@ -781,7 +796,7 @@ func (ctx *ParserCtx) parseInputValue() bool {
 
 	if c == '{' {
 		ctx.charNr++
-		return ctx.parseAssignmentSet('}')
+		return ctx.parseAssignmentSet('}', nesting+1)
 	}
 
 	if c == 't' || c == 'f' {
-- 
2.43.0


From c27dc540b1e164b35f4c02a73e7804d93de7e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 16/32] fix: stop parsing after an error in an inline fragment

The error was ignored and parsing went on from the middle of the fragment,
which reported follow-up errors that are not in the query.
---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index bca7439..ef3c90e 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -524,7 +524,10 @@ func (ctx *ParserCtx) parseSelectionSet(nesting int) bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet(nesting + 1)
+					criticalErr := ctx.parseSelectionSet(nesting + 1)
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From bdddf301da2aa492b9ec373821c206ea08c1955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 17/32] fix: store the fields of the mutation type under its
 own name

They were stored as the fields of the query type, so introspection listed
the mutations as queries after the mutation type was asked for.
---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From df07cce338a1a4a52bbeb53ec427c815b6f9f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 18/32] fix: report the inputs of fields and directives in the
 introspection

Enum inputs were listed with their underlying type, the fields of input
objects were missing when reached through an argument and so were the
arguments of directives.
---
 inject_schema.go |  9 +++++++++
 parse.go         | 23 ++++++++++++-----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..e115f9d 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -221,11 +221,20 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	} else if in.isFile {
 		res = &scalarFile
 		return
+	} else if in.isEnum {
+		isNonNull = true
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		res = &enumType
+		return
 	}
 
 	switch in.kind {
 	case reflect.Struct:
 		isNonNull = true
+		if in.isStructPointers {
+			// Only the entry in inTypes has the contents of the struct
+			in = s.inTypes[in.structName]
+		}
 
 		res = &qlType{
 			Kind:        typeKindInputObject,
diff --git a/parse.go b/parse.go
index da6d644..adee335 100644
--- a/parse.go
+++ b/parse.go
@@ -326,17 +326,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
-	}
-
-	for _, method := range ctx.parsedMethods {
-		err = ctx.checkFunctionIns(method)
-		if err != nil {
-			return err
-		}
-	}
-
+	// The directives need to be checked before they are added to the __schema
 	for _, directiveLocation := range ctx.schema.definedDirectives {
 		for _, directive := range directiveLocation {
 			if directive.parsedMethod.checkedIns {
@@ -350,6 +340,17 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	if options == nil || !options.SkipGraphqlTypesInjection {
+		s.injectQLTypes(ctx)
+	}
+
+	for _, method := range ctx.parsedMethods {
+		err = ctx.checkFunctionIns(method)
+		if err != nil {
+			return err
+		}
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From 2ab30003437bafd440519a9876bd204c69f980c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 19/32] fix: do not skip the first input of interface methods

The type of a method of an interface has no receiver, so the arguments of
its first input were not checked and not in the introspection.
---
 copy_schema.go | 1 +
 parse.go       | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 5639fb8..1780a5e 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -221,6 +221,7 @@ func (o *obj) copy() *obj {
 func (m *objMethod) copy() *objMethod {
 	res := objMethod{
 		isTypeMethod:   m.isTypeMethod,
+		noReceiver:     m.noReceiver,
 		goFunctionName: m.goFunctionName,
 		goType:         m.goType,
 		checkedIns:     m.checkedIns,
diff --git a/parse.go b/parse.go
index adee335..47e5dd0 100644
--- a/parse.go
+++ b/parse.go
@@ -152,6 +152,7 @@ type objMethod struct {
 	// true = func (*someStruct) ResolveFooBar() string {}
 	// false = ResolveFooBar func() string
 	isTypeMethod   bool
+	noReceiver     bool // The methods of an interface type do not have the receiver as first input
 	goFunctionName string
 	goType         reflect.Type
 
@@ -532,6 +533,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			} else if methodObj == nil {
 				continue
 			}
+			methodObj.noReceiver = t.Kind() == reflect.Interface
 
 			qlFieldName := []byte(name)
 			res.objContents[getObjKey(qlFieldName)] = &obj{
@@ -823,7 +825,7 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-		if method.isTypeMethod {
+		if method.isTypeMethod && !method.noReceiver {
 			if i == 0 {
 				// First argument can be skipped if type method
 				continue
-- 
2.43.0


From 3406bd1b82df26b2c95e76e05a94a7abb34a1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 20/32] fix: identify go types by type instead of by name

Two types with the same name, for example from different packages, were
taken for each other: an unrelated type was handled as a registered enum,
renamed, marked as implementing an interface, or bound with the fields of
another input struct.
---
 copy_schema.go |  2 ++
 enums.go       |  2 +-
 interfaces.go  | 14 +++++++-------
 parse.go       | 30 ++++++++++++++++++++----------
 type_rename.go |  4 ++--
 5 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 1780a5e..52a159e 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -185,6 +185,7 @@ func (o *obj) copy() *obj {
 		typeNameBytes:  o.typeNameBytes[:],
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
+		goType:         o.goType,
 		qlFieldName:    o.qlFieldName[:],
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
@@ -276,6 +277,7 @@ func (m *input) copy() *input {
 
 	return &input{
 		kind:             m.kind,
+		goType:           m.goType,
 		isEnum:           m.isEnum,
 		enumTypeIndex:    m.enumTypeIndex,
 		isID:             m.isID,
diff --git a/enums.go b/enums.go
index f609252..722baeb 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
diff --git a/interfaces.go b/interfaces.go
index 4a9aa96..ab0b186 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -4,11 +4,11 @@ import (
 	"reflect"
 )
 
-// implementationMap is a map of interface names and the types that implement them
-var implementationMap = map[string][]reflect.Type{}
+// implementationMap is a map of interfaces and the types that implement them
+var implementationMap = map[reflect.Type][]reflect.Type{}
 
 // structImplementsMap is list of all structs and their interfaces that they implement
-var structImplementsMap = map[string][]reflect.Type{}
+var structImplementsMap = map[reflect.Type][]reflect.Type{}
 
 // Implements registers a new type that implementation an interface
 // The interfaceValue should be a pointer to the interface type like: (*InterfaceType)(nil)
@@ -53,21 +53,21 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		panic(typePath + "." + typePath + " does not implement " + interfacePath + "." + interfaceName)
 	}
 
-	typesThatImplementInterf, ok := implementationMap[interfaceName]
+	typesThatImplementInterf, ok := implementationMap[interfaceType]
 	if !ok {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
 		for _, t := range typesThatImplementInterf {
-			if t.Name() == typeName && t.PkgPath() == typePath {
+			if t == typeType {
 				// already registered
 				return true
 			}
 		}
 	}
 	typesThatImplementInterf = append(typesThatImplementInterf, typeType)
-	implementationMap[interfaceName] = typesThatImplementInterf
+	implementationMap[interfaceType] = typesThatImplementInterf
 
-	structImplementsMap[typeName] = append(structImplementsMap[typeName], interfaceType)
+	structImplementsMap[typeType] = append(structImplementsMap[typeType], interfaceType)
 
 	return true
 }
diff --git a/parse.go b/parse.go
index 47e5dd0..342478f 100644
--- a/parse.go
+++ b/parse.go
@@ -89,6 +89,7 @@ type obj struct {
 	typeNameBytes []byte
 	goTypeName    string
 	goPkgPath     string
+	goType        reflect.Type
 	qlFieldName   []byte
 	hidden        bool
 	isID          bool
@@ -130,6 +131,7 @@ func (o *obj) getRef() obj {
 		return obj{
 			valueType:     valueTypeObjRef,
 			typeName:      o.typeName,
+			goType:        o.goType,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
 			typeNameBytes: []byte(o.typeName),
@@ -138,6 +140,7 @@ func (o *obj) getRef() obj {
 		return obj{
 			valueType:     valueTypeInterfaceRef,
 			typeName:      o.typeName,
+			goType:        o.goType,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
 			typeNameBytes: []byte(o.typeName),
@@ -173,7 +176,8 @@ type referToInput struct {
 }
 
 type input struct {
-	kind reflect.Kind
+	kind   reflect.Kind
+	goType reflect.Type // Only set on the entries of inTypes
 
 	// Is this a custom type?
 	isEnum        bool
@@ -364,6 +368,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		typeName:      t.Name(),
 		goPkgPath:     t.PkgPath(),
 		goTypeName:    t.Name(),
+		goType:        t,
 	}
 
 	if res.goPkgPath == "time" && res.goTypeName == "Time" {
@@ -377,7 +382,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("structs cannot have ID attribute")
 		}
 		if res.typeName != "" {
-			newName, ok := renamedTypes[res.typeName]
+			newName, ok := renamedTypes[t]
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
@@ -385,7 +390,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath {
+				if v.goType != t {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
@@ -393,7 +398,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				return &res, nil
 			}
 
-			implementations := structImplementsMap[t.Name()]
+			implementations := structImplementsMap[t]
 			for _, implementation := range implementations {
 				impl, err := c.check(implementation, false)
 				if err != nil {
@@ -451,7 +456,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("inline interfaces not allowed")
 		}
 
-		newName, ok := renamedTypes[res.typeName]
+		newName, ok := renamedTypes[t]
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
@@ -459,7 +464,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 		v, ok := c.schema.interfaces.Get(res.typeName)
 		if ok {
-			if v.goPkgPath != res.goPkgPath {
+			if v.goType != t {
 				return nil, fmt.Errorf("cannot have 2 interfaces with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 			}
 
@@ -481,7 +486,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodPkgName = "inline interface"
 		}
 
-		typesThatImplementInterface, ok := implementationMap[t.Name()]
+		typesThatImplementInterface, ok := implementationMap[t]
 		if !ok {
 			return nil, errors.New("cannot register a interface without explicit implementations")
 		}
@@ -689,7 +694,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
 		} else {
-			newStructName, ok := renamedTypes[structName]
+			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
 			}
@@ -701,11 +706,16 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			}
 		}
 
-		_, ok := c.schema.inTypes[structName]
-		if !ok {
+		v, ok := c.schema.inTypes[structName]
+		if ok {
+			if v.goType != t {
+				return res, fmt.Errorf("cannot have 2 input structs with same type name: %s(%s) != %s(%s)", v.goType.PkgPath(), v.goType.Name(), t.PkgPath(), t.Name())
+			}
+		} else {
 			// Make sure the input types entry is set before looping over it's fields to fix the n+1 problem
 			c.schema.inTypes[structName] = &res
 
+			res.goType = t
 			res.structName = structName
 			res.structContent = map[string]input{}
 			for i := 0; i < t.NumField(); i++ {
diff --git a/type_rename.go b/type_rename.go
index 0fce280..0eb6bd0 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var renamedTypes = map[string]string{}
+var renamedTypes = map[reflect.Type]string{}
 
 // TypeRename renames the graphql type of the input type
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
@@ -33,7 +33,7 @@ func TypeRename(goType interface{}, newName string, force ...bool) string {
 		}
 	}
 
-	renamedTypes[originalName] = newName
+	renamedTypes[t] = newName
 
 	return newName
 }
-- 
2.43.0


From 5361ef27fd06b528c2a357e1b05d4222a83e3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 21/32] fix: convert times to UTC before writing them

The layout ends on a literal Z, so a time in any other zone was written as
a different moment.
---
 helpers/time.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..e8ae3a5 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,6 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	// The Z in the layout is not a placeholder so the time must be in UTC
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From 45d2245e0f22fbb46e8dee619186afa68db50900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 22/32] fix: accept enum maps with a named string type as key

They passed the check on the kind of the key and then panicked.
---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index 722baeb..53d7ad4 100644
--- a/enums.go
+++ b/enums.go
@@ -108,7 +108,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From 7415566fe25120ac5f8ec7ff6d9255e763266cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 23/32] fix: give resolvers their own copy of string arguments

The strings pointed into buffers that are reused for the next query, so a
string kept by a resolver changed when the next query was resolved.
---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 06ce69a..5a8f484 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1104,7 +1104,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1246,7 +1246,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1560,7 +1560,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		startString := ctx.charNr
 		endString := startString + valueLen
 		ctx.skipInst(valueLen + 1)
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From 85a536b5147d3a6b6bd9311f1898de1f035fae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 24/32] fix: do not reuse the slice of errors returned by
 Resolve

The next query overwrote the errors of the previous one in it.
---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index ef3c90e..3e4a7da 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -50,7 +50,7 @@ func (ctx *ParserCtx) ParseQueryToBytecode(target *string) {
 		Res:                  ctx.Res[:0],
 		FragmentLocations:    ctx.FragmentLocations[:0],
 		Query:                ctx.Query,
-		Errors:               ctx.Errors[:0],
+		Errors:               []error{}, // Not reused as the errors are returned to the user
 		target:               target,
 		hasTarget:            target != nil && len(*target) > 0,
 		TargetIdx:            -1,
-- 
2.43.0


From 9055de637aa4b11f21d22f6ecbe66f762e86c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 25/32] fix: ignore the parameters of the content type

A request with a content type like "application/json; charset=utf-8" or a
multipart one, which always has a boundary, was not read from its body.
---
 implement_helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implement_helpers.go b/implement_helpers.go
index f1c6718..7419267 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -30,6 +30,9 @@ func (s *Schema) HandleRequest(
 ) ([]byte, []error) {
 	method = strings.ToUpper(method)
 
+	// Remove the parameters, the content type might be something like: application/json; charset=utf-8
+	contentType = strings.ToLower(strings.TrimSpace(strings.SplitN(contentType, ";", 2)[0]))
+
 	errRes := func(errorMsg string) ([]byte, []error) {
 		response := []byte(`{"data":{},"errors":[{"message":`)
 		helpers.StringToJSON(errorMsg, &response)
-- 
2.43.0


From 7c74f82f2109c53d647c0ccfb81af2adc839e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 26/32] fix: compare the name of a field after the lookup by
 hash

A query for a non existing name with the hash of an existing field got the
value of that field.
---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 5a8f484..a788df1 100644
--- a/resolver.go
+++ b/resolver.go
@@ -577,6 +577,10 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
+	if ok && !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
+		// The key is only a hash of the name
+		ok = false
+	}
 	if !ok {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
-- 
2.43.0


From 06d56d18e2ae7f92fa776b0dee6517af25b97692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 27/32] fix: trace every field from its own start

The start time was a single value that the fields inside a field overwrote,
so a field with a selection set was traced from the start of the last
field inside it.
---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index a788df1..0487aac 100644
--- a/resolver.go
+++ b/resolver.go
@@ -514,6 +514,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	ctx.startTrace()
+	traceStartedAt := ctx.prefRecordingStartTime
 
 	directivesCount := ctx.readInst()
 
@@ -610,6 +611,8 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
+			// The fields inside this field have overwritten the start time
+			ctx.prefRecordingStartTime = traceStartedAt
 			ctx.finishTrace(func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
-- 
2.43.0


From 5dce886a19a42a01878da41dabcfdb97a600e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 28/32] fix: allow SetCacheRules to be called before Parse

It dereferenced the request context, which was only made in Parse.
---
 parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 342478f..14805a4 100644
--- a/parse.go
+++ b/parse.go
@@ -290,6 +290,9 @@ func NewSchema() *Schema {
 func (s *Schema) SetCacheRules(
 	cacheQueryFromLen *int, // default = 300
 ) {
+	if s.ctx == nil {
+		s.ctx = newCtx(s)
+	}
 	if cacheQueryFromLen != nil {
 		s.ctx.query.CacheableQueryMinLen = *cacheQueryFromLen
 	}
@@ -356,7 +359,9 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	s.ctx = newCtx(s)
+	if s.ctx == nil {
+		s.ctx = newCtx(s)
+	}
 	s.parsed = true
 
 	return nil
-- 
2.43.0


From 158788cdf54e3f92b84401e81536460f1cd9e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 29/32] fix: ignore unexported fields of inputs

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 14805a4..789b11d 100644
--- a/parse.go
+++ b/parse.go
@@ -618,8 +618,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip field, unexported fields cannot be set
 		return res, true, nil
 	}
 
-- 
2.43.0


From 5dd7264e03b98477aa1b86ba36547f75791dc69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:43 +0000
Subject: [PATCH 30/32] fix: a selection set on an enum or a time is an error

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index 0487aac..7cef555 100644
--- a/resolver.go
+++ b/resolver.go
@@ -850,6 +850,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		criticalErr = ctx.resolveFieldDataValue(&method.outType, dept, hasSubSelection)
 		return criticalErr
 	case valueTypeEnum:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		enum := ctx.schema.definedEnums[typeObj.enumTypeIndex]
 		switch enum.contentKind {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -879,6 +884,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From 0ae128d645a5292f9fea053dba5fd92827be86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:07 +0000
Subject: [PATCH 31/32] fix: which name of an enum is used for a value is the
 same every time

---
 enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enums.go b/enums.go
index 53d7ad4..3dfbe8d 100644
--- a/enums.go
+++ b/enums.go
@@ -131,6 +131,8 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		}
 		i++
 	}
+	// The order of a map is never the same and the first entry with a value is used
+	sort.Slice(entries, func(a int, b int) bool { return entries[a].key < entries[b].key })
 	sort.Slice(qlTypeEnumValues, func(a int, b int) bool { return qlTypeEnumValues[a].Name < qlTypeEnumValues[b].Name })
 
 	name := contentType.Name()
-- 
2.43.0


From bd000d30e0f84d3195e0d9686d868f68aaae4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:10 +0000
Subject: [PATCH 32/32] fix: directives with the same name are always in the
 same order

---
 inject_schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index e115f9d..5c71787 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -137,7 +137,13 @@ func (s *Schema) getDirectives() []qlDirective {
 		}
 	}
 
-	sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	sort.Slice(res, func(a int, b int) bool {
+		if res[a].Name == res[b].Name {
+			// Directives with the same name don't share locations
+			return res[a].Locations[0] < res[b].Locations[0]
+		}
+		return res[a].Name < res[b].Name
+	})
 
 	return res
 }
-- 
2.43.0

