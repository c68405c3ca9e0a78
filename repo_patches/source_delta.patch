From faa9fa213ec4037f12da0b1eb601d05293e430d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 01/41] fix: keep reading after a list or null argument value

---
 resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 00e1747..b3df289 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1403,7 +1403,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7)
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
@@ -1593,6 +1593,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read the end of the list and the NULL of the next instruction
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From 0832dfcfc6fe05794f5fd534f068e8138cdcfbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 02/41] fix: read argument values by their length, text can
 contain NULL bytes

---
 resolver.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/resolver.go b/resolver.go
index b3df289..1372a5f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1412,19 +1412,19 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		return valueSet, criticalErr
 	}
 
+	ctx.skipInst(1)             // read ActionValue
+	valueKind := ctx.readInst() // read value kind
+	valueLen := int(ctx.readUint32(ctx.charNr))
+	ctx.skipInst(4) // read length of value
+
 	getValue := func() (start int, end int) {
+		// The value might contain NULL bytes so its length has to be used here
 		start = ctx.charNr
-		for {
-			if ctx.readInst() == 0 {
-				return start, ctx.charNr - 1
-			}
-		}
+		end = start + valueLen
+		ctx.charNr = end + 1 // also read the NULL of the next instruction
+		return start, end
 	}
 
-	ctx.skipInst(1)             // read ActionValue
-	valueKind := ctx.readInst() // read value kind
-	ctx.skipInst(4)             // read length of value
-
 	// TODO if field is: isTime, isFile, is.. and the value provided is different than the expected we'll get wired errors
 
 	valueSet = true
-- 
2.43.0


From b4e8e8789ef25586cc58f4f1c04d1fbfa2c5eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 03/41] fix: an input object behind a pointer is set also when
 its last field is null

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 1372a5f..c214ade 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1615,7 +1615,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From a86bac167e1a5089bb8c702a964629d951c71a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 04/41] fix: variables can be used for pointers inside lists

---
 resolver.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index c214ade..d3cd251 100644
--- a/resolver.go
+++ b/resolver.go
@@ -947,13 +947,21 @@ func (ctx *Ctx) findOperatorArgument(nameToFind string) (foundArgument bool) {
 	}
 }
 
+// withoutPtrs returns the input behind the pointers of i
+func (i *input) withoutPtrs() *input {
+	for i.kind == reflect.Ptr && !i.isFile {
+		i = i.elem
+	}
+	return i
+}
+
 func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *input, argumentName string) (valueSet bool, criticalErr bool) {
 	// TODO Check for the required flag (L & N)
 	// These flags are to identify if the argument is required or not
 
 	// TODO the error messages in this function are garbage
 
-	resolvedValueStructure := valueStructure
+	resolvedValueStructure := valueStructure.withoutPtrs()
 	c := ctx.readInst()
 	for {
 		if c != 'L' && c != 'l' {
@@ -962,7 +970,7 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 		if resolvedValueStructure.kind != reflect.Slice {
 			return false, ctx.err("variable $" + argumentName + " cannot be bind to " + resolvedValueStructure.kind.String())
 		}
-		resolvedValueStructure = resolvedValueStructure.elem
+		resolvedValueStructure = resolvedValueStructure.elem.withoutPtrs()
 		c = ctx.readInst()
 	}
 	if c == 'n' || c == 'N' {
-- 
2.43.0


From eb6b81afc29340af4b1341d6865664800156a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 05/41] fix: a null variable leaves an optional enum, ID, time
 or file argument empty

---
 resolver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver.go b/resolver.go
index d3cd251..d94b48f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1080,6 +1080,10 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, jsonData *fastjson.Value) (valueSet bool, criticalErr bool) {
 	var isPtr bool
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
+		if jsonData.Type() == fastjson.TypeNull {
+			// keep goValue at it's default
+			return false, false
+		}
 		return ctx.bindJSONToValue(goValue, input, jsonData)
 	})
 	if isPtr {
@@ -1087,6 +1091,10 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	jsonDataType := jsonData.Type()
+	if valueStructure.isFile && jsonDataType == fastjson.TypeNull {
+		// keep goValue at it's default
+		return false, false
+	}
 	if valueStructure.isEnum || valueStructure.isID || valueStructure.isFile || valueStructure.isTime {
 		if jsonDataType != fastjson.TypeString {
 			if valueStructure.isEnum {
-- 
2.43.0


From a37fe02d3ce4f58b3c267c1a0e15885ee39d72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 06/41] fix: a file variable without form files is an error
 instead of a crash

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index d94b48f..2ee9db4 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1170,6 +1170,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From ffc8f9e22c50d19cc17a4a65add6ba36286a94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 07/41] fix: string arguments do not share memory with later
 requests

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 2ee9db4..fc86f9f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1109,7 +1109,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1247,7 +1247,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1549,7 +1549,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From c5146c18ebeca16b90350d7d8180dce6d39768fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 08/41] fix: reject number variables that do not fit their Go
 type

---
 resolver.go | 49 +++++++++++++++----------------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/resolver.go b/resolver.go
index fc86f9f..fd9eb03 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1257,54 +1257,35 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 			valueSet = true
 			goValue.SetFloat(jsonData.GetFloat64())
 		} else {
-			intVal, err := jsonData.Int64()
-			if err != nil {
-				return false, ctx.err(err.Error())
-			}
 			switch goValueKind {
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				switch goValue.Kind() {
-				case reflect.Int8:
-					if int64(int8(intVal)) != intVal {
-						return false, ctx.errf("cannot assign %d to a 8bit integer", intVal)
-					}
-				case reflect.Int16:
-					if int64(int16(intVal)) != intVal {
-						return false, ctx.errf("cannot assign %d to a 16bit integer", intVal)
-					}
-				case reflect.Int32:
-					if int64(int32(intVal)) != intVal {
-						return false, ctx.errf("cannot assign %d to a 32bit integer", intVal)
-					}
+				intVal, err := jsonData.Int64()
+				if err != nil {
+					return false, ctx.err(err.Error())
+				}
+				if goValue.OverflowInt(intVal) {
+					return false, ctx.errf("cannot assign %d to a %dbit integer", intVal, goValue.Type().Bits())
 				}
 
 				valueSet = true
 				goValue.SetInt(intVal)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				if intVal < 0 {
-					return false, ctx.errf("cannot assign %d to a unsigned integer", intVal)
+				uintVal, err := jsonData.Uint64()
+				if err != nil {
+					return false, ctx.err(err.Error())
 				}
-				uintVal := uint64(intVal)
-
-				switch goValue.Kind() {
-				case reflect.Int8:
-					if uint64(uint8(uintVal)) != uintVal {
-						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
-					}
-				case reflect.Int16:
-					if uint64(uint16(uintVal)) != uintVal {
-						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
-					}
-				case reflect.Int32:
-					if uint64(uint32(uintVal)) != uintVal {
-						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
-					}
+				if goValue.OverflowUint(uintVal) {
+					return false, ctx.errf("cannot assign %d to a %dbit unsigned integer", uintVal, goValue.Type().Bits())
 				}
 
 				valueSet = true
 				goValue.SetUint(uintVal)
 			case reflect.Bool:
 				// TODO
+				intVal, err := jsonData.Int64()
+				if err != nil {
+					return false, ctx.err(err.Error())
+				}
 				valueSet = true
 				goValue.SetBool(intVal > 0)
 			default:
-- 
2.43.0


From 5bc840bf74d7224ca57dba586b3fd3907d23647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 09/41] fix: reject ID arguments that do not fit their Go type

---
 resolver.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/resolver.go b/resolver.go
index fd9eb03..85db4f6 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1144,23 +1144,18 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				valueSet = true
 				goValue.SetString(stringValue)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				intValue, err := strconv.Atoi(stringValue)
+				intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
-				goValue.SetInt(int64(intValue))
+				goValue.SetInt(intValue)
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				intValue, err := strconv.Atoi(stringValue)
+				uintValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
-					return false, ctx.err("id argument must match a number type")
-				}
-				if intValue < 0 {
 					return false, ctx.err("id argument must match a number above 0")
 				}
-				// TODO check if the int value can be assigned to uint8 - uint32
-				goValue.SetUint(uint64(intValue))
+				goValue.SetUint(uintValue)
 				valueSet = true
 			default:
 				return false, ctx.err("internal error: cannot assign to this ID field")
@@ -1336,22 +1331,17 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 		case reflect.String:
 			goValue.SetString(stringValue)
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			intValue, err := strconv.Atoi(stringValue)
+			intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
-			goValue.SetInt(int64(intValue))
+			goValue.SetInt(intValue)
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			intValue, err := strconv.Atoi(stringValue)
+			uintValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
-				return ctx.err("id argument must match a number type")
-			}
-			if intValue < 0 {
 				return ctx.err("id argument must match a number above 0")
 			}
-			// TODO check if the int value can be assigned to uint8 - uint32
-			goValue.SetUint(uint64(intValue))
+			goValue.SetUint(uintValue)
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
 		}
-- 
2.43.0


From 51ea8c4acbe90b48065cbf27063c46a8e039fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 10/41] fix: the query cache keeps its own fragment locations

---
 bytecode/cache/bytecode_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..b1169d5 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,10 +70,11 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: make([]int, len(fragmentLocation)),
 	}
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
+	copy(newCacheEntry.fragmentLocation, fragmentLocation)
 
 	c[queryLen] = append([]cacheEntry{newCacheEntry}, entries...)
 }
-- 
2.43.0


From b2a9561631dfab792565f13ba70633ffd18e26d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 11/41] fix: a schema copy has its own tracer

---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..d225e3d 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -69,7 +69,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From e70389fcac435cd38ce100bfdcccfeb3a6911e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 12/41] fix: hidden fields stay hidden in a schema copy

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index d225e3d..3d489ed 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -179,6 +179,7 @@ func (o *obj) copy() *obj {
 		dataValueType:  o.dataValueType,
 		isID:           o.isID,
 		enumTypeIndex:  o.enumTypeIndex,
+		hidden:         o.hidden,
 	}
 
 	if o.innerContent != nil {
-- 
2.43.0


From 8591617935a40449c6b9028447d9c093bfdc8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 13/41] fix: a schema copy keeps the descriptions of its types

---
 copy_schema.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 3d489ed..37e9ee1 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,12 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr("")
+		*res.Description = *m.Description
+	}
+	if m.SpecifiedByURL != nil {
+		res.SpecifiedByURL = helpers.StrPtr("")
+		*res.SpecifiedByURL = *m.SpecifiedByURL
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From 25997caf30450856882f8773cab5b3a306d037b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 14/41] fix: introspection of a schema copy reads from the copy

---
 copy_schema.go   |  3 +++
 inject_schema.go | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 37e9ee1..38604b0 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -55,6 +55,9 @@ func (s *Schema) Copy() *Schema {
 
 	res.ctx = s.ctx.copy(res)
 
+	// The introspection values should read from the copy and not from the original schema
+	res.setQLSchemaValue()
+
 	return res
 }
 
diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..3ab98da 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -15,12 +15,11 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 		log.Fatal(err)
 	}
 
-	contents := reflect.ValueOf(s.getQLSchema())
-	ref.customObjValue = &contents
 	ref.qlFieldName = []byte("__schema")
 	ref.hidden = true
 
 	s.rootQuery.objContents[getObjKey(ref.qlFieldName)] = ref
+	s.setQLSchemaValue()
 
 	// Inject __type(name: String!): __Type
 	typeResolver := func(ctx *Ctx, args struct{ Name string }) *qlType {
@@ -38,6 +37,17 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
 }
 
+// setQLSchemaValue sets the value of the __schema field if the graphql types are injected
+func (s *Schema) setQLSchemaValue() {
+	ref, ok := s.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if !ok || !ref.hidden {
+		return
+	}
+
+	contents := reflect.ValueOf(s.getQLSchema())
+	ref.customObjValue = &contents
+}
+
 func (s *Schema) getQLSchema() qlSchema {
 	res := qlSchema{
 		Types:      s.getAllQLTypes,
-- 
2.43.0


From 550a9a48555c85f8300ddf6056116802f1fc8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 15/41] fix: a field with invalid arguments has null as value

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 85db4f6..db7c26e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -801,6 +801,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From fe81dc8356397e632612a470f0e25b63940fecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 16/41] fix: a __typename field with a selection has null as
 value

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index db7c26e..c08610c 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
-- 
2.43.0


From d4ba58fc98c78eb917f797224214472a62f6de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 17/41] fix: SetContext on a request without a context

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index c08610c..ade3687 100644
--- a/resolver.go
+++ b/resolver.go
@@ -114,7 +114,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
-- 
2.43.0


From 3a2ee84c8c54c3d4a0b1e30e22fa7ec0e61867cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 18/41] fix: a fragment that includes itself is an error
 instead of a crash

---
 resolver.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/resolver.go b/resolver.go
index ade3687..e732a77 100644
--- a/resolver.go
+++ b/resolver.go
@@ -23,6 +23,7 @@ type Ctx struct {
 	schema                   *Schema
 	query                    bytecode.ParserCtx
 	charNr                   int
+	spreadDept               int // number of fragments we are in since the last object
 	context                  *context.Context
 	path                     []byte
 	getFormFile              func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
@@ -494,7 +495,14 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			if ctx.spreadDept == len(ctx.query.FragmentLocations) {
+				// There are no more fragments than this so one of them is spread inside itself
+				return ctx.err("fragment " + b2s(name) + " includes itself")
+			}
+
+			ctx.spreadDept++
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.spreadDept--
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
@@ -768,7 +776,10 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		ctx.writeByte('{')
 		isFirstField := true
+		prefSpreadDept := ctx.spreadDept
+		ctx.spreadDept = 0
 		criticalErr := ctx.resolveSelectionSet(typeObj, dept, &isFirstField)
+		ctx.spreadDept = prefSpreadDept
 		ctx.writeByte('}')
 		return criticalErr
 	case valueTypeData:
-- 
2.43.0


From d85093185aef03542e222a592054bb84e4516483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 19/41] fix: an interface value is one level deep and cannot
 skip the max dept

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index e732a77..7afe0fe 100644
--- a/resolver.go
+++ b/resolver.go
@@ -914,7 +914,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From 26d791275bfe93eb8a30e4af07e4f533dc7ae813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 20/41] fix: deeply nested lists and interfaces do not
 overwrite the values of their parents

---
 copy_schema.go |  2 +-
 resolver.go    | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 38604b0..96d1a3a 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -78,7 +78,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index 7afe0fe..cde2541 100644
--- a/resolver.go
+++ b/resolver.go
@@ -39,8 +39,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value // grows when needed, an object can take more than one value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -53,7 +53,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -72,6 +72,10 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	if ctx.currentReflectValueIdx == len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, value)
+		return
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From 06f8efe665d38f46e27d8525e161016010cb807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 21/41] fix: reaching the max dept inside a list stops the
 request

---
 resolver.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index cde2541..57ae9de 100644
--- a/resolver.go
+++ b/resolver.go
@@ -24,6 +24,7 @@ type Ctx struct {
 	query                    bytecode.ParserCtx
 	charNr                   int
 	spreadDept               int // number of fragments we are in since the last object
+	reachedMaxDept           bool
 	context                  *context.Context
 	path                     []byte
 	getFormFile              func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
@@ -749,14 +750,18 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 			ctx.setGoValue(goValue.Index(i))
 
 			ctx.resolveFieldDataValue(typeObj, dept, hasSubSelection)
+			ctx.path = ctx.path[:prefPathLen]
+			if ctx.reachedMaxDept {
+				// The other items go equally deep
+				break
+			}
 			if i != goValueLen-1 {
 				ctx.writeByte(',')
 			}
-
-			ctx.path = ctx.path[:prefPathLen]
 		}
 		ctx.currentReflectValueIdx--
 		ctx.writeByte(']')
+		return ctx.reachedMaxDept
 	case valueTypeObj, valueTypeObjRef:
 		if !hasSubSelection {
 			ctx.writeNull()
@@ -775,6 +780,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		dept++
 		if dept == ctx.schema.MaxDepth {
 			ctx.writeNull()
+			ctx.reachedMaxDept = true
 			return ctx.err("reached max dept")
 		}
 
-- 
2.43.0


From b7c08b9dc6eceabe8a2d7c831d5eb93fe9f9b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 22/41] fix: every traced field has its own start time

---
 copy_schema.go |  1 -
 resolver.go    | 50 ++++++++++++++++++++++++--------------------------
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 96d1a3a..8099957 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -73,7 +73,6 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
 		tracing:                  newTracer(),
-		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
diff --git a/resolver.go b/resolver.go
index 57ae9de..8806521 100644
--- a/resolver.go
+++ b/resolver.go
@@ -32,7 +32,6 @@ type Ctx struct {
 	operatorArgumentsStartAt int
 	tracingEnabled           bool
 	tracing                  *tracer
-	prefRecordingStartTime   time.Time
 
 	rawVariables        string
 	variablesParsed     bool             // the rawVariables are parsed into variables
@@ -178,20 +177,19 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 
 	ctx := s.ctx
 	*ctx = Ctx{
-		schema:                 ctx.schema,
-		query:                  ctx.query,
-		charNr:                 0,
-		context:                nil,
-		path:                   ctx.path[:0],
-		getFormFile:            opts.GetFormFile,
-		rawVariables:           opts.Variables,
-		variablesParsed:        false,
-		variablesJSONParser:    ctx.variablesJSONParser,
-		variables:              ctx.variables,
-		tracingEnabled:         opts.Tracing,
-		tracing:                ctx.tracing,
-		prefRecordingStartTime: ctx.prefRecordingStartTime,
-		ctxReflection:          ctx.ctxReflection,
+		schema:              ctx.schema,
+		query:               ctx.query,
+		charNr:              0,
+		context:             nil,
+		path:                ctx.path[:0],
+		getFormFile:         opts.GetFormFile,
+		rawVariables:        opts.Variables,
+		variablesParsed:     false,
+		variablesJSONParser: ctx.variablesJSONParser,
+		variables:           ctx.variables,
+		tracingEnabled:      opts.Tracing,
+		tracing:             ctx.tracing,
+		ctxReflection:       ctx.ctxReflection,
 
 		reflectValues:          ctx.reflectValues,
 		currentReflectValueIdx: 0,
@@ -205,7 +203,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 	if opts.Context != nil {
 		ctx.context = &opts.Context
 	}
-	ctx.startTrace()
+	parsingStart := ctx.startTrace()
 
 	ctx.query.Query = append(ctx.query.Query[:0], query...)
 
@@ -217,13 +215,13 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 
 	if ctx.tracingEnabled {
 		// finish parsing trace
-		ctx.finishTrace(func(offset, duration int64) {
+		ctx.finishTrace(parsingStart, func(offset, duration int64) {
 			ctx.tracing.Parsing.StartOffset = offset
 			ctx.tracing.Parsing.Duration = duration
 		})
 
 		// Set the validation prop
-		ctx.tracing.Validation.StartOffset = time.Now().Sub(ctx.prefRecordingStartTime).Nanoseconds()
+		ctx.tracing.Validation.StartOffset = time.Since(ctx.tracing.GoStartTime).Nanoseconds()
 	}
 
 	if !opts.NoMeta {
@@ -517,7 +515,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 }
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
-	ctx.startTrace()
+	fieldStart := ctx.startTrace()
 
 	directivesCount := ctx.readInst()
 
@@ -610,7 +608,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
-			ctx.finishTrace(func(offset, duration int64) {
+			ctx.finishTrace(fieldStart, func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
 
@@ -1699,16 +1697,16 @@ func (ctx *Ctx) valueToJSON(in reflect.Value, kind reflect.Kind) {
 	}
 }
 
-func (ctx *Ctx) startTrace() {
+func (ctx *Ctx) startTrace() (start time.Time) {
 	if ctx.tracingEnabled {
-		ctx.prefRecordingStartTime = time.Now()
+		start = time.Now()
 	}
+	return start
 }
 
-func (ctx *Ctx) finishTrace(report func(offset, duration int64)) {
-	f := ctx.prefRecordingStartTime
-	offset := f.Sub(ctx.tracing.GoStartTime).Nanoseconds()
-	duration := time.Since(f).Nanoseconds()
+func (ctx *Ctx) finishTrace(start time.Time, report func(offset, duration int64)) {
+	offset := start.Sub(ctx.tracing.GoStartTime).Nanoseconds()
+	duration := time.Since(start).Nanoseconds()
 	report(offset, duration)
 }
 
-- 
2.43.0


From 0a5eec982795536cdb8fdf0672a8974b4c7ddeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 23/41] fix: the return type of a list field in a trace

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index da6d644..d5f741e 100644
--- a/parse.go
+++ b/parse.go
@@ -955,9 +955,9 @@ func (s *Schema) objToQlTypeName(item *obj, target *bytes.Buffer) {
 		switch qlType.Kind {
 		case typeKindList:
 			target.WriteByte('[')
-			suffix = append(suffix, ']')
+			suffix = append([]byte{']'}, suffix...)
 		case typeKindNonNull:
-			suffix = append(suffix, '!')
+			suffix = append([]byte{'!'}, suffix...)
 		default:
 			if qlType.Name != nil {
 				target.WriteString(*qlType.Name)
-- 
2.43.0


From 260f0406d71d379c97497e24c746d9a792cf61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 24/41] fix: returned errors do not change when the next query
 is parsed

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..5c7493e 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -47,7 +47,7 @@ func (ctx *ParserCtx) ParseQueryToBytecode(target *string) {
 		Res:                  ctx.Res[:0],
 		FragmentLocations:    ctx.FragmentLocations[:0],
 		Query:                ctx.Query,
-		Errors:               ctx.Errors[:0],
+		Errors:               []error{}, // the previous errors are returned to the user, so don't reuse them
 		target:               target,
 		hasTarget:            target != nil && len(*target) > 0,
 		TargetIdx:            -1,
-- 
2.43.0


From 96462e991edb0a4691bde60ac44bf6ad2ea80afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 25/41] fix: mutation fields are not remembered as the query
 fields

---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 3ab98da..c93b5ad 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -103,7 +103,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From ab354ff32255411135835d26c3bbdcfb7f4fb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 26/41] fix: the arguments of directives are part of the
 introspection

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index d5f741e..1bba244 100644
--- a/parse.go
+++ b/parse.go
@@ -350,6 +350,9 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	// Set this again as the arguments of the directives are known from here on
+	s.setQLSchemaValue()
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From 00bc67029766ce5e139abeb6a32ee26e512f993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 27/41] fix: input objects have the same input fields
 everywhere in the introspection

---
 inject_schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index c93b5ad..4fd91c5 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -237,6 +237,11 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	case reflect.Struct:
 		isNonNull = true
 
+		if in.isStructPointers {
+			// The reference itself has no fields
+			in = s.inTypes[in.structName]
+		}
+
 		res = &qlType{
 			Kind:        typeKindInputObject,
 			Name:        h.StrPtr(in.structName),
-- 
2.43.0


From 34fe40203caf7f32f50536610ef3c2d231806a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 28/41] fix: the query and mutation types list the interfaces
 they implement

---
 inject_schema.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 4fd91c5..3ce900e 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -78,7 +78,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				s.graphqlObjFields[s.rootQuery.typeName] = res
 				return res
 			},
-			Interfaces: []qlType{},
+			Interfaces: s.getInterfaces(s.rootQuery),
 		},
 		MutationType: &qlType{
 			Kind:        typeKindObject,
@@ -106,7 +106,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
-			Interfaces: []qlType{},
+			Interfaces: s.getInterfaces(s.rootMethod),
 		},
 	}
 
@@ -318,6 +318,16 @@ func (s *Schema) getMethodArgs(inputs map[string]referToInput) []qlInputValue {
 	return res
 }
 
+// getInterfaces returns the interfaces a object implements
+func (s *Schema) getInterfaces(item *obj) []qlType {
+	interfaces := []qlType{}
+	for _, implementation := range item.implementations {
+		interfaceType, _ := s.objToQLType(implementation)
+		interfaces = append(interfaces, *interfaceType)
+	}
+	return interfaces
+}
+
 func (s *Schema) objToQLType(item *obj) (res *qlType, isNonNull bool) {
 	switch item.valueType {
 	case valueTypeUndefined:
@@ -334,14 +344,6 @@ func (s *Schema) objToQLType(item *obj) (res *qlType, isNonNull bool) {
 		return s.objToQLType(s.types[item.typeName])
 	case valueTypeObj:
 		isNonNull = true
-		interfaces := []qlType{}
-		if len(item.implementations) != 0 {
-			for _, implementation := range item.implementations {
-				interfaceType, _ := s.objToQLType(implementation)
-				interfaces = append(interfaces, *interfaceType)
-			}
-		}
-
 		res = &qlType{
 			Kind:        typeKindObject,
 			Name:        &item.typeName,
@@ -368,7 +370,7 @@ func (s *Schema) objToQLType(item *obj) (res *qlType, isNonNull bool) {
 				s.graphqlObjFields[item.typeName] = res
 				return res
 			},
-			Interfaces: interfaces,
+			Interfaces: s.getInterfaces(item),
 		}
 		return
 	case valueTypeEnum:
-- 
2.43.0


From 5096c1a48eacc7d5cb1e4b2e3640ef3539afbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 29/41] fix: an enum value with multiple keys is always written
 as the same key

---
 enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enums.go b/enums.go
index f609252..ddf8346 100644
--- a/enums.go
+++ b/enums.go
@@ -131,6 +131,8 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		}
 		i++
 	}
+	// The order of a map is random, without sorting a value with multiple keys is not always written as the same key
+	sort.Slice(entries, func(a int, b int) bool { return entries[a].key < entries[b].key })
 	sort.Slice(qlTypeEnumValues, func(a int, b int) bool { return qlTypeEnumValues[a].Name < qlTypeEnumValues[b].Name })
 
 	name := contentType.Name()
-- 
2.43.0


From 02c8dbf6a8d052ae670d5826d35ba06fca5687b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 30/41] fix: directives are checked and listed in the same
 order every time

---
 directives.go    | 11 +++++++++++
 inject_schema.go |  6 +++---
 parse.go         |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..c230277 100644
--- a/directives.go
+++ b/directives.go
@@ -3,6 +3,7 @@ package yarql
 import (
 	"errors"
 	"reflect"
+	"sort"
 )
 
 // DirectiveLocation defines the location a directive can be used in
@@ -105,6 +106,16 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 	return nil
 }
 
+// getDirectiveLocations returns the locations with directives, always in the same order
+func (s *Schema) getDirectiveLocations() []DirectiveLocation {
+	res := []DirectiveLocation{}
+	for location := range s.definedDirectives {
+		res = append(res, location)
+	}
+	sort.Slice(res, func(a int, b int) bool { return res[a] < res[b] })
+	return res
+}
+
 func checkDirective(directive *Directive) error {
 	if len(directive.Name) == 0 {
 		return errors.New("cannot register directive with empty name")
diff --git a/inject_schema.go b/inject_schema.go
index 3ce900e..0aa7bfe 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -119,9 +119,9 @@ func (s *Schema) getQLSchema() qlSchema {
 func (s *Schema) getDirectives() []qlDirective {
 	res := []qlDirective{}
 
-	for _, directiveLocation := range s.definedDirectives {
+	for _, directiveLocation := range s.getDirectiveLocations() {
 	outerLoop:
-		for _, directive := range directiveLocation {
+		for _, directive := range s.definedDirectives[directiveLocation] {
 			locations := make([]__DirectiveLocation, len(directive.Where))
 			for idx, location := range directive.Where {
 				locations[idx] = location.ToQlDirectiveLocation()
@@ -147,7 +147,7 @@ func (s *Schema) getDirectives() []qlDirective {
 		}
 	}
 
-	sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	sort.SliceStable(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
 	return res
 }
diff --git a/parse.go b/parse.go
index 1bba244..ac2edc2 100644
--- a/parse.go
+++ b/parse.go
@@ -337,8 +337,8 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	for _, directiveLocation := range ctx.schema.definedDirectives {
-		for _, directive := range directiveLocation {
+	for _, directiveLocation := range ctx.schema.getDirectiveLocations() {
+		for _, directive := range ctx.schema.definedDirectives[directiveLocation] {
 			if directive.parsedMethod.checkedIns {
 				continue
 			}
-- 
2.43.0


From fa7707d8728325d7b7a2960106fbd6add1ac44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 31/41] fix: a fragment is found by its full name and not by
 the start of it

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 8806521..164f1d8 100644
--- a/resolver.go
+++ b/resolver.go
@@ -479,7 +479,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From e231803dda039d189cedc36b16ec400a59e89fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 32/41] fix: stop parsing on the first error inside an inline
 fragment

---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 5c7493e..d326e4a 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -513,7 +513,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From cccea13d0cbe364cc5cebb96e58745347279515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 33/41] fix: a too deeply nested query is an error instead of a
 crash

---
 bytecode/bytecode.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index d326e4a..bab8ee1 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -25,6 +25,7 @@ type ParserCtx struct {
 	Hasher               hash.Hash32
 	cache                *cache.BytecodeCache
 	CacheableQueryMinLen int // Default = 300
+	nesting              int // current nesting of what we are parsing
 }
 
 // NewParserCtx returns a new instance of ParserCtx
@@ -389,7 +390,7 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.unexpectedEOF()
 		}
 
-		criticalErr := ctx.parseGraphqlTypeName(c)
+		criticalErr := ctx.nested(func() bool { return ctx.parseGraphqlTypeName(c) })
 		if criticalErr {
 			return criticalErr
 		}
@@ -436,7 +437,26 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 	return false
 }
 
+// maxNesting limits the nesting of selection sets, values and types in a query
+// The parser and resolver are recursive so without a limit a query can exhaust the stack
+const maxNesting = 2000
+
+// nested runs a parse method one nesting level deeper
+func (ctx *ParserCtx) nested(parse func() bool) bool {
+	if ctx.nesting == maxNesting {
+		return ctx.err("query is nested too deep")
+	}
+	ctx.nesting++
+	criticalErr := parse()
+	ctx.nesting--
+	return criticalErr
+}
+
 func (ctx *ParserCtx) parseSelectionSet() bool {
+	return ctx.nested(ctx.parseSelectionSetContent)
+}
+
+func (ctx *ParserCtx) parseSelectionSetContent() bool {
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
@@ -707,6 +727,10 @@ func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
 }
 
 func (ctx *ParserCtx) parseInputValue() bool {
+	return ctx.nested(ctx.parseInputValueContent)
+}
+
+func (ctx *ParserCtx) parseInputValueContent() bool {
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
-- 
2.43.0


From 27d1a31249e0a1d8f7e96a9515a149e5e3aee108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 34/41] fix: a null variable can be used for every optional
 argument

The variable of an optional enum, ID or time argument was rejected when its
value was null, as the pointer of the argument is already followed when the
variable is read. Handle null the same for all kinds of arguments.
---
 resolver.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/resolver.go b/resolver.go
index 164f1d8..fa66740 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1101,10 +1101,6 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, jsonData *fastjson.Value) (valueSet bool, criticalErr bool) {
 	var isPtr bool
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
-		if jsonData.Type() == fastjson.TypeNull {
-			// keep goValue at it's default
-			return false, false
-		}
 		return ctx.bindJSONToValue(goValue, input, jsonData)
 	})
 	if isPtr {
@@ -1112,7 +1108,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	jsonDataType := jsonData.Type()
-	if valueStructure.isFile && jsonDataType == fastjson.TypeNull {
+	if jsonDataType == fastjson.TypeNull {
 		// keep goValue at it's default
 		return false, false
 	}
-- 
2.43.0


From dc6e028c1cce2f2e5edfc35ebdae0ff23424d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 35/41] fix: values set by a item of a batch are not seen by
 the other items

---
 implement_helpers.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/implement_helpers.go b/implement_helpers.go
index f1c6718..3651f36 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -77,11 +77,22 @@ func (s *Schema) HandleRequest(
 					res, _ := errRes(err.Error())
 					response.Write(res)
 				} else {
+					itemOptions := options
+					if options != nil && options.Values != nil {
+						// The values set by a item are not meant for the other items
+						itemOptions = &RequestOptions{}
+						*itemOptions = *options
+						itemOptions.Values = make(map[string]interface{}, len(options.Values))
+						for key, value := range options.Values {
+							itemOptions.Values[key] = value
+						}
+					}
+
 					errs := s.handleSingleRequest(
 						query,
 						variables,
 						operationName,
-						options,
+						itemOptions,
 					)
 					responseErrs = append(responseErrs, errs...)
 					response.Write(s.Result)
-- 
2.43.0


From ec82d5665a62a0ed4fa50826f4fffe2939f76fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 36/41] fix: matching words scans to the end of the query after
 a partial match

---
 bytecode/bytecode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index bab8ee1..dd4f25a 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1249,8 +1249,6 @@ func (ctx *ParserCtx) matches(oneOf ...string) int {
 		}
 	}
 
-	lastChecked := ""
-
 	for {
 		c, eof := ctx.checkC(ctx.charNr)
 		if eof {
@@ -1259,6 +1257,7 @@ func (ctx *ParserCtx) matches(oneOf ...string) int {
 		}
 		offset := ctx.charNr - startIdx
 
+		lastChecked := ""
 		for idx, key := range oneOf {
 			keyLen := len(key)
 			if offset < keyLen {
-- 
2.43.0


From e9e6c19b7629f71b1dd72fba4820407296f25135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 37/41] fix: SetValue on a host's pointer to a nil map of
 values panicked

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index fa66740..e152cd2 100644
--- a/resolver.go
+++ b/resolver.go
@@ -102,6 +102,10 @@ func (ctx *Ctx) SetValue(key string, value interface{}) {
 		ctx.values = &map[string]interface{}{
 			key: value,
 		}
+	} else if *ctx.values == nil {
+		*ctx.values = map[string]interface{}{
+			key: value,
+		}
 	} else {
 		(*ctx.values)[key] = value
 	}
-- 
2.43.0


From 4ffe3884f5f9da44e62f08b6ed48685180cd56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:45 +0000
Subject: [PATCH 38/41] fix: a field whose name has the hash of another field
 is not that field

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index e152cd2..c18be3a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -583,6 +583,10 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
+	if ok && !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
+		// The key is a hash, another name might have the same one
+		ok = false
+	}
 	if !ok {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
-- 
2.43.0


From 4c55be68c0912bf8270af56396b0391e0706ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 39/41] fix: an optional variable without a value is an absent
 argument

---
 resolver.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index c18be3a..6f323ae 100644
--- a/resolver.go
+++ b/resolver.go
@@ -985,13 +985,11 @@ func (i *input) withoutPtrs() *input {
 }
 
 func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *input, argumentName string) (valueSet bool, criticalErr bool) {
-	// TODO Check for the required flag (L & N)
-	// These flags are to identify if the argument is required or not
-
 	// TODO the error messages in this function are garbage
 
 	resolvedValueStructure := valueStructure.withoutPtrs()
 	c := ctx.readInst()
+	required := c == 'L' || c == 'N'
 	for {
 		if c != 'L' && c != 'l' {
 			break
@@ -1074,6 +1072,10 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 	}
 
 	if !hasDefaultValue {
+		if !required {
+			// keep goValue at it's default
+			return false, false
+		}
 		return false, ctx.err("variable has no value nor default")
 	}
 
-- 
2.43.0


From 60ad2319275e6304e5746aa2676ce3a83b41a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 40/41] fix: content types may carry parameters

---
 implement_helpers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implement_helpers.go b/implement_helpers.go
index 3651f36..b63fa01 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -29,6 +29,8 @@ func (s *Schema) HandleRequest(
 	options *RequestOptions, // optional options
 ) ([]byte, []error) {
 	method = strings.ToUpper(method)
+	// Remove the parameters, such as the charset or the boundary
+	contentType = strings.ToLower(strings.TrimSpace(strings.SplitN(contentType, ";", 2)[0]))
 
 	errRes := func(errorMsg string) ([]byte, []error) {
 		response := []byte(`{"data":{},"errors":[{"message":`)
-- 
2.43.0


From e64a83678ad06614364387d34e77911812faeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 41/41] fix: fragments on an interface apply to the types that
 implement it

---
 resolver.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 6f323ae..65eba7e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -430,6 +430,19 @@ func (ctx *Ctx) resolveSelectionSet(typeObj *obj, dept uint8, firstField *bool)
 	}
 }
 
+// matchesTypeCondition returns true if a fragment on typeName applies to o
+func (o *obj) matchesTypeCondition(typeName []byte) bool {
+	if bytes.Equal(o.typeNameBytes, typeName) {
+		return true
+	}
+	for _, implementation := range o.implementations {
+		if bytes.Equal(implementation.typeNameBytes, typeName) {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	isInline := ctx.readInst() == 't'
 	directivesCount := ctx.readInst()
@@ -465,7 +478,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !bytes.Equal(typeObj.typeNameBytes, name) {
+		if !typeObj.matchesTypeCondition(name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
@@ -497,7 +510,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				}
 			}
 
-			if !bytes.Equal(typeObj.typeNameBytes, ctx.query.Res[typeNameStart:typeNameEnd]) {
+			if !typeObj.matchesTypeCondition(ctx.query.Res[typeNameStart:typeNameEnd]) {
 				ctx.charNr = nameStart + int(lenOfDirective) + 1
 				return false
 			}
-- 
2.43.0

