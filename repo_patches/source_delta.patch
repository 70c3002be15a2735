From 785b6aa5ef17416f153f0d5177c5611a6a261401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 01/76] fix: concatenate ignored the offset of a string (read
 past its end)

---
 duckVM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..1935db3 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4393,7 +4393,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.type == duckVM_object_type_string) {
 				object1_string = (object1.value.string.internalString->value.internalString.value
 				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				object1_string_length = object1.value.string.length - object1.value.string.offset;
 			}
 			else {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
@@ -4402,7 +4402,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object2.type == duckVM_object_type_string) {
 				object2_string = (object2.value.string.internalString->value.internalString.value
 				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				object2_string_length = object2.value.string.length - object2.value.string.offset;
 			}
 			else {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
-- 
2.43.0


From b90611d561650120ddcaf86caf559e1986b762fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 02/76] fix: indexing an empty vector dereferenced null, and a
 negative index could be set

---
 duckVM.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 1935db3..952fa6f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3361,6 +3361,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
+			    || (object1.value.vector.internal_vector == dl_null)
 			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
@@ -3472,8 +3473,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
-- 
2.43.0


From 11a8db5eaa5d9c2d2c32af98f357712f2986ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 03/76] fix: integer division by zero raised SIGFPE instead of
 a runtime error

---
 duckVM.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 952fa6f..3a4ea91 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2058,9 +2058,19 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
+				/* The most negative integer divided by -1 traps, so negate as multiplication would. */
+				if (object2.value.integer == -1) object1.value.integer *= -1;
+				else object1.value.integer /= object2.value.integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2076,10 +2086,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
@@ -2130,9 +2148,19 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
+				/* The most negative integer divided by -1 traps, so negate as multiplication would. */
+				if (object2.value.integer == -1) object1.value.integer *= -1;
+				else object1.value.integer /= object2.value.integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2148,10 +2176,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
@@ -2199,9 +2235,19 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
+				/* The most negative integer divided by -1 traps, so negate as multiplication would. */
+				if (object2.value.integer == -1) object1.value.integer *= -1;
+				else object1.value.integer /= object2.value.integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2217,10 +2263,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
-- 
2.43.0


From ccebffc48f2cbe48f4f19c91de36fb6d76c4dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 04/76] fix: concatenate of an empty string dereferenced null
 or failed to reallocate

---
 duckVM.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 3a4ea91..df0299d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4448,20 +4448,26 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length - object1.value.string.offset;
+				/* An empty string may not have an internal string. */
+				if (object1.value.string.internalString != dl_null) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+					object1_string_length = object1.value.string.length - object1.value.string.offset;
+				}
 			}
-			else {
+			else if (object1.value.symbol.internalString != dl_null) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length - object2.value.string.offset;
+				/* An empty string may not have an internal string. */
+				if (object2.value.string.internalString != dl_null) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+					object2_string_length = object2.value.string.length - object2.value.string.offset;
+				}
 			}
-			else {
+			else if (object2.value.symbol.internalString != dl_null) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
@@ -4471,14 +4477,16 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object3);
 			if (e) break;
 			objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
-			e = DL_REALLOC(duckVM->memoryAllocation,
-			               &objectPtr1->value.internalString.value,
-			               objectPtr1->value.internalString.value_length,
-			               dl_uint8_t);
-			if (e) break;
-			/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
-			                          object2_string,
-			                          object2_string_length);
+			if (object2_string_length > 0) {
+				e = DL_REALLOC(duckVM->memoryAllocation,
+				               &objectPtr1->value.internalString.value,
+				               objectPtr1->value.internalString.value_length,
+				               dl_uint8_t);
+				if (e) break;
+				/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
+				                          object2_string,
+				                          object2_string_length);
+			}
 			object3.type = duckVM_object_type_string;
 			object3.value.string.offset = 0;
 			object3.value.string.length = objectPtr1->value.internalString.value_length;
-- 
2.43.0


From aae2cfd24fb9f56e3411a91bb41bbbf805dc59a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 05/76] fix: the collector could free the bytecode and upvalues
 of a running function

Nested calls from C, and calls of functions from another bytecode, left the
code being run (or to be returned to) invisible to the collector.
---
 duckVM.c | 52 +++++++++++++++++++++++++++++++++++++++-------------
 duckVM.h |  1 +
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index df0299d..4412d5b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -257,6 +257,12 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
 			if (e) goto cleanup;
 		}
+		/* The running function may be the only reference to its upvalues. */
+		object = DL_ARRAY_GETADDRESS(duckVM->call_stack, duckVM_callFrame_t, i).upvalueArray;
+		if (object != dl_null) {
+			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
+			if (e) goto cleanup;
+		}
 	}
 
 	/* Current bytecode */
@@ -550,14 +556,16 @@ static dl_error_t stack_set(duckVM_t *duckVM, duckVM_object_t *element, dl_ptrdi
 static dl_error_t call_stack_push(duckVM_t *duckVM,
                                   dl_uint8_t *ip,
                                   duckVM_object_t *bytecode,
-                                  duckVM_upvalueArray_t *upvalueArray) {
+                                  duckVM_object_t *upvalueArray) {
 	dl_error_t e = dl_error_ok;
 	duckVM_callFrame_t frame;
 	frame.ip = ip;
 	frame.bytecode = bytecode;
+	frame.upvalueArray = upvalueArray;
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack,
+	                         (upvalueArray != dl_null) ? &upvalueArray->value.upvalue_array : dl_null);
 	if (e) goto cleanup;
  cleanup:
 	if (e) {
@@ -743,7 +751,7 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 
 
 int duckVM_executeInstruction(duckVM_t *duckVM,
-                              duckVM_object_t *bytecode,
+                              duckVM_object_t **bytecodePtr,
                               unsigned char **ipPtr,
                               duckVM_halt_mode_t *halt) {
 	dl_error_t e = dl_error_ok;
@@ -764,6 +772,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	duckVM_object_t cons1 = {0};
 	dl_bool_t bool1 = dl_false;
 	dl_bool_t parsedBytecode = dl_false;
+	duckVM_object_t *bytecode = *bytecodePtr;
 	unsigned char *ip = *ipPtr;
 	unsigned char opcode = *(ip++);
 	switch (opcode) {
@@ -1402,7 +1411,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			break;
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -1533,7 +1542,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -4695,6 +4704,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		goto cleanup;
 	}
  cleanup:
+	*bytecodePtr = bytecode;
 	*ipPtr = ip;
 	return e;
 }
@@ -4708,6 +4718,8 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM_halt_mode_t halt = duckVM_halt_mode_run;
 	/* Why a reference to bytecode? So it can be switched out with other bytecodes by `duckVM_executeInstruction`. */
 	duckVM_object_t *bytecodeObject;
+	/* Not null if this is a nested call. Whoever is nesting is responsible for keeping it alive. */
+	duckVM_object_t *previousBytecode = duckVM->currentBytecode;
 	dl_uint8_t *ip = dl_null;
 	if ((ipOffset < 0) || (bytecode_length <= (dl_size_t) ipOffset)) {
 		dl_error_t eError = dl_error_ok;
@@ -4725,18 +4737,33 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 		if (e) goto cleanup;
 	}
 	ip = &bytecodeObject->value.bytecode.bytecode[ipOffset];
-	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		/* The function being executed may be the only reference to its bytecode. */
+		duckVM->currentBytecode = bytecodeObject;
+		e = duckVM_executeInstruction(duckVM, &bytecodeObject, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = previousBytecode;
 
  cleanup: return e;
 }
 
 dl_error_t duckVM_execute(duckVM_t *duckVM, dl_uint8_t *bytecode, dl_size_t bytecode_length) {
-	return duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	dl_error_t e = dl_error_ok;
+	dl_bool_t nested = (duckVM->currentBytecode != dl_null);
+	if (nested) {
+		/* The frame keeps the bytecode that called the C function alive. */
+		e = call_stack_push(duckVM, dl_null, duckVM->currentBytecode, dl_null);
+		if (e) goto cleanup;
+	}
+	e = duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	if (e) goto cleanup;
+	if (nested) {
+		dl_uint8_t *ip = dl_null;
+		duckVM_object_t *bytecodeObject = dl_null;
+		e = call_stack_pop(duckVM, &ip, &bytecodeObject);
+	}
+ cleanup: return e;
 }
 
 dl_error_t duckVM_linkCFunction(duckVM_t *duckVM, dl_ptrdiff_t key, dl_error_t (*callback)(duckVM_t *)) {
@@ -5651,17 +5678,16 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		{
 			/* Call bytecode. */
 			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
 			dl_uint8_t *shim_ip = shim_bytecode;
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
 			duckVM_bytecode_t bytecode = bytecode_object->value.bytecode;
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
+			/* The frame keeps the bytecode that called the C function alive. */
 			e = call_stack_push(duckVM,
 			                    shim_ip,
-			                    shim_bytecode_object,
-			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
+			                    duckVM->currentBytecode,
+			                    functionObject.value.closure.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
 			e = duckVM_executeWithIp(duckVM, bytecode.bytecode, bytecode_offset, bytecode.bytecode_length);
diff --git a/duckVM.h b/duckVM.h
index d2153ce..76a077c 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -49,6 +49,7 @@ typedef struct duckVM_gclist_s {
 typedef struct {
 	dl_uint8_t *ip;
 	struct duckVM_object_s *bytecode;
+	struct duckVM_object_s *upvalueArray;  /* Upvalues of the function that was called. */
 } duckVM_callFrame_t;
 
 typedef struct duckVM_s {
-- 
2.43.0


From da73aea0d96c9c8798e73b40c827133ed916cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 06/76] fix: the reader read past the end of the source

---
 DuckLib/string.c |  4 ++--
 duckLisp.c       |  7 +------
 parser.c         | 12 ++++++------
 3 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index de6bcea..bd52d6f 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -324,7 +324,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 		}
 
-		if (string[index] == '.') {
+		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
 
 			if ((dl_size_t) index >= string_length) {
@@ -351,7 +351,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	}
 
 	// …e3
-	if (dl_string_toLower(string[index]) == 'e') {
+	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
 		index++;
 
 		if ((dl_size_t) index >= string_length) {
diff --git a/duckLisp.c b/duckLisp.c
index b4e164e..04e6ed1 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2150,15 +2150,10 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
-	dl_bool_t result = dl_false;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
-	// Trim whitespace from the beginning of the file.
-	do {
-		if (dl_string_isSpace(*source)) source++;
-	} while (result);
-
+	/* The parser skips the whitespace at the beginning of the file. */
 	index = 0;
 
 	/* Parse. */
diff --git a/parser.c b/parser.c
index 594c512..ee71c29 100644
--- a/parser.c
+++ b/parser.c
@@ -54,7 +54,7 @@ static dl_error_t duckLisp_error_pushSyntax(duckLisp_t *duckLisp,
 	}
 
 	/* This is inefficient. That should be OK as this is only run a few times max per compile. */
-	DL_DOTIMES(i, start_index) {
+	for (dl_ptrdiff_t i = 0; (i < start_index) && (i < (dl_ptrdiff_t) source_length); i++) {
 		if (source[i] == '\n') {
 			line++;
 			start_column = 0;
@@ -155,7 +155,7 @@ static dl_error_t parse_comment(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t stop_index = start_index;
 
-	if (source[stop_index] != ';') {
+	if ((stop_index >= (dl_ptrdiff_t) source_length) || (source[stop_index] != ';')) {
 		return dl_error_invalidValue;
 	}
 
@@ -182,7 +182,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
 			return dl_error_invalidValue;
 		}
-		while (dl_string_isSpace(source[indexCopy])) indexCopy++;
+		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
 		dl_error_t e = parse_comment(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 		if (e) break;
 	}
@@ -850,7 +850,7 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 			indexCopy++;
 			hexadecimal = dl_true;
 
-			if (!dl_string_isHexadecimalDigit(source[indexCopy])) {
+			if ((indexCopy >= (dl_ptrdiff_t) source_length) || !dl_string_isHexadecimalDigit(source[indexCopy])) {
 				eError = duckLisp_error_pushSyntax(duckLisp,
 				                                   DL_STR("Expected a digit in integer."),
 				                                   fileName,
@@ -1043,7 +1043,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (source[indexCopy] == '.') {
+		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
 
@@ -1064,7 +1064,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 	}
 
 	/* …e3 */
-	if (dl_string_toLower(source[indexCopy]) == 'e') {
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (dl_string_toLower(source[indexCopy]) == 'e')) {
 		hasDecimalPointOrExponent = dl_true;
 		indexCopy++;
 
-- 
2.43.0


From ef859968de574610a53051f72d1393e48522011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 07/76] fix: apply dropped surplus arguments in its list
 instead of reporting them

---
 duckVM.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 4412d5b..4d5f905 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1536,7 +1536,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 		}
 		else {
-			if (object1.value.closure.arity != uint8) {
+			/* Elements left over in the list are surplus arguments. */
+			if ((object1.value.closure.arity != uint8) || (rest.value.list != dl_null)) {
 				e = dl_error_invalidValue;
 				break;
 			}
-- 
2.43.0


From 0d1b31334444e741234d2454e3c203bb417dd749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 08/76] fix: var, global, label and goto compiled with a
 non-identifier name instead of failing

---
 generators.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generators.c b/generators.c
index 58a4722..2c672e8 100644
--- a/generators.c
+++ b/generators.c
@@ -1741,7 +1741,7 @@ dl_error_t duckLisp_generator_createVar_raw(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = (eError ? eError : dl_error_invalidValue);
 		goto cleanup;
 	}
 
@@ -1830,7 +1830,7 @@ dl_error_t duckLisp_generator_global(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = (eError ? eError : dl_error_invalidValue);
 		goto cleanup;
 	}
 
@@ -3087,7 +3087,7 @@ dl_error_t duckLisp_generator_label(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = (eError ? eError : dl_error_invalidValue);
 		goto cleanup;
 	}
 
@@ -3133,7 +3133,7 @@ dl_error_t duckLisp_generator_goto(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = (eError ? eError : dl_error_invalidValue);
 		goto cleanup;
 	}
 
-- 
2.43.0


From aea5c25167d780e5087d5ffb43b3195a5daab8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 09/76] fix: an assignment to a global was dropped when its key
 equalled the stack slot of the value

---
 emitters.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/emitters.c b/emitters.c
index 5e48a69..57fcbbb 100644
--- a/emitters.c
+++ b/emitters.c
@@ -768,8 +768,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 
-	if (destination_static_index == source_stack_index) goto cleanup;
-
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - source_stack_index;
 	argument1.type = duckLisp_instructionArgClass_type_index;
@@ -781,7 +779,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	                                 argument0,
 	                                 argument1);
 	duckLisp_localsLength_decrement(compileState);
- cleanup:
 	return e;
 }
 
-- 
2.43.0


From a2ec44fd7336830f9c30ea9e1c644807f4f1f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 10/76] fix: clearing the stack lost variables that closures
 still refer to

---
 duckVM.c | 64 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 4d5f905..aa61435 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1322,24 +1322,20 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 			duckVM_object_t *upvalue = DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_array_call_stack,
 			                                                  duckVM_upvalueArray_t).upvalues[ptrdiff1];
+			while (upvalue && (upvalue->value.upvalue.type == duckVM_upvalue_type_heap_upvalue)) {
+				upvalue = upvalue->value.upvalue.value.heap_upvalue;
+			}
+			if (upvalue == dl_null) {
+				/* The variable no longer exists. */
+				e = dl_error_nullPointer;
+				break;
+			}
 			if (upvalue->value.upvalue.type == duckVM_upvalue_type_stack_index) {
 				e = dl_array_set(&duckVM->stack, &object1, upvalue->value.upvalue.value.stack_index);
 				if (e) break;
 			}
-			else if (upvalue->value.upvalue.type == duckVM_upvalue_type_heap_object) {
-				*upvalue->value.upvalue.value.heap_object = object1;
-			}
 			else {
-				while (upvalue->value.upvalue.type == duckVM_upvalue_type_heap_upvalue) {
-					upvalue = upvalue->value.upvalue.value.heap_upvalue;
-				}
-				if (upvalue->value.upvalue.type == duckVM_upvalue_type_stack_index) {
-					e = dl_array_set(&duckVM->stack, &object1, upvalue->value.upvalue.value.stack_index);
-					if (e) break;
-				}
-				else {
-					*upvalue->value.upvalue.value.heap_object = object1;
-				}
+				*upvalue->value.upvalue.value.heap_object = object1;
 			}
 		}
 		break;
@@ -4814,8 +4810,44 @@ dl_error_t duckVM_object_pop(duckVM_t *duckVM, duckVM_object_t *object) {
 	return stack_pop(duckVM, object);
 }
 
+/* Drop the whole stack. Closures may still refer to variables on it, so those are moved to the heap first. A variable
+   that there is no memory for is lost: using it is an error from then on. */
+static dl_error_t stack_clear(duckVM_t *duckVM) {
+	dl_error_t e = dl_error_ok;
+	/* Running out of memory can leave an object that has no entry in the upvalue stack. */
+	dl_size_t length = duckVM->upvalue_stack.elements_length;
+	if (length > duckVM->stack.elements_length) length = duckVM->stack.elements_length;
+	/* Only the variables that have to be kept may keep memory in use. */
+	DL_DOTIMES(i, length) {
+		if (DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) == dl_null) {
+			DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i) = duckVM_object_makeList(dl_null);
+		}
+	}
+	DL_DOTIMES(i, length) {
+		duckVM_object_t *upvalue = DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i);
+		duckVM_object_t *heapObject = dl_null;
+		if (upvalue == dl_null) continue;
+		e = duckVM_gclist_pushObject(duckVM,
+		                             &heapObject,
+		                             DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i));
+		if (e) {
+			upvalue->value.upvalue.value.heap_upvalue = dl_null;
+			upvalue->value.upvalue.type = duckVM_upvalue_type_heap_upvalue;
+		}
+		else {
+			upvalue->value.upvalue.value.heap_object = heapObject;
+			upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
+		}
+		DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) = dl_null;
+		DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i) = duckVM_object_makeList(dl_null);
+	}
+	e = dl_array_popElements(&duckVM->upvalue_stack, dl_null, duckVM->upvalue_stack.elements_length);
+	if (e) return e;
+	return dl_array_popElements(&duckVM->stack, dl_null, duckVM->stack.elements_length);
+}
+
 dl_error_t duckVM_popAll(duckVM_t *duckVM) {
-	return stack_pop_multiple(duckVM, duckVM->stack.elements_length);
+	return stack_clear(duckVM);
 }
 
 dl_error_t duckVM_object_push(duckVM_t *duckVM, duckVM_object_t *object) {
@@ -4828,12 +4860,12 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
-	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
-	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
+	e = stack_clear(duckVM);
+	if (e) goto cleanup;
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
-- 
2.43.0


From 30d33bc78cb71a3ad7f608f3359a14e6f80013ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 11/76] fix: macros and comptime variables misbehaved in every
 source loaded after the first

---
 duckLisp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 04e6ed1..d937143 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1228,6 +1228,13 @@ dl_error_t duckLisp_compileAST(duckLisp_t *duckLisp,
 
 	duckLisp->generators_recursion_depth = 0;
 
+	/* The compile-time variables and macros of the previous compilation are out of scope, but they are still on the
+	   stack of the compile-time VM. */
+	if (duckLisp->vm.currentBytecode == dl_null) {
+		e = duckVM_softReset(&duckLisp->vm);
+		if (e) goto cleanup;
+	}
+
 	/* * * * * *
 	 * Compile *
 	 * * * * * */
-- 
2.43.0


From 76373911e5de5e2c882b304488e2785f0e9784c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 12/76] fix: the collector could free the elements of a vector
 under construction

---
 duckVM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index aa61435..2911540 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3227,6 +3227,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
 		}
+		/* The GC has to trace the elements allocated so far. */
+		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
+			object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+		}
+		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
 		e = dl_array_pushElement(&duckVM->stack, &object1);
 		if (e) break;
@@ -3267,7 +3272,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		/* Break push_scope abstraction. */
 		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
 		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
-- 
2.43.0


From baf80342bac8427e9470797cc25aade2860f6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 13/76] fix: the collector freed reachable objects when it ran
 out of memory while marking

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 2911540..1422e6a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -206,7 +206,10 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	}
 
  cleanup:
-	e = dl_array_quit(&dispatchStack);
+	{
+		dl_error_t eError = dl_array_quit(&dispatchStack);
+		if (eError) e = eError;
+	}
 	return e;
 }
 
-- 
2.43.0


From 77d14bc073b4ba26a3c4a7758340843e578a0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 14/76] fix: an object whose allocation failed was left owning
 its caller's memory

---
 duckVM.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 1422e6a..5ebe5f7 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -325,6 +325,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	dl_error_t eError = dl_error_ok;
 
 	duckVM_gclist_t *gclist = &duckVM->gclist;
+	duckVM_object_t *heapObject = dl_null;
 
 	// Try once
 	if (gclist->freeObjects_length == 0) {
@@ -346,7 +347,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		}
 	}
 
-	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
+	heapObject = gclist->freeObjects[--gclist->freeObjects_length];
 	*heapObject = objectIn;
 	if (objectIn.type == duckVM_object_type_upvalueArray) {
 		if (objectIn.value.upvalue_array.length > 0) {
@@ -438,6 +439,11 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 
  cleanup:
 
+	if (e && heapObject) {
+		/* It doesn't own anything. The collector must not free what the source object owns. */
+		heapObject->type = duckVM_object_type_none;
+		gclist->freeObjects[gclist->freeObjects_length++] = heapObject;
+	}
 	return e;
 }
 
-- 
2.43.0


From ffed9b0024989731334dd716bad4e93fe004964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 15/76] fix: apply refused host functions

---
 duckVM.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 5ebe5f7..6a789ae 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1437,10 +1437,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		while (object1.type == duckVM_object_type_composite) {
 			object1 = *object1.value.composite->value.internalComposite.function;
 		}
-		if (object1.type != duckVM_object_type_closure) {
+		if ((object1.type != duckVM_object_type_closure) && (object1.type != duckVM_object_type_function)) {
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-			                                  DL_STR("duckVM_execute->apply: Applied object is not a closure."));
+			                                  DL_STR("duckVM_execute->apply: Applied object is not a callback or closure."));
 			if (eError) e = eError;
 			break;
 		}
@@ -1452,6 +1452,38 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_error_invalidValue;
 			break;
 		}
+		if (object1.type == duckVM_object_type_function) {
+			/* C functions don't have a declared arity. They get all the arguments. */
+			while (rest.value.list != dl_null) {
+				if (rest.value.list->type != duckVM_object_type_cons) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM,
+					                                  DL_STR("duckVM_execute->apply: Last argument is not a proper list."));
+					if (eError) e = eError;
+					break;
+				}
+				{
+					duckVM_object_t *car = rest.value.list->value.cons.car;
+					if ((car == dl_null) || (car->type == duckVM_object_type_cons)) {
+						duckVM_object_t list = duckVM_object_makeList(car);
+						e = stack_push(duckVM, &list);
+					}
+					else {
+						e = stack_push(duckVM, car);
+					}
+					if (e) break;
+				}
+				rest.value.list = rest.value.list->value.cons.cdr;
+			}
+			if (e) break;
+			e = object1.value.function.callback(duckVM);
+			if (e) {
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->apply: C callback returned error."));
+				if (eError) e = eError;
+			}
+			break;
+		}
 		while ((uint8 < object1.value.closure.arity) && (rest.value.list != dl_null)) {
 			if (rest.value.list->type != duckVM_object_type_cons) {
 				e = dl_error_invalidValue;
-- 
2.43.0


From a916d5b7e287ac5afc8bc140501b95a244e6bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 16/76] fix: a vector literal used the wrong elements with many
 locals, and a string literal ignored running out of memory

---
 assembler.c | 9 +++++++--
 duckVM.c    | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index 4132d82..85bba94 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1301,11 +1301,16 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_vector: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
-				if ((unsigned long) args[0].value.index < 0x100UL) {
+				/* All arguments have the same size, so it depends on the largest. */
+				unsigned long largest = 0;
+				DL_DOTIMES(l, instruction.args.elements_length) {
+					if ((unsigned long) args[l].value.index > largest) largest = args[l].value.index;
+				}
+				if (largest < 0x100UL) {
 					currentInstruction.byte = duckLisp_instruction_vector8;
 					byte_length = 1;
 				}
-				else if ((unsigned int) args[0].value.index < 0x10000UL) {
+				else if (largest < 0x10000UL) {
 					currentInstruction.byte = duckLisp_instruction_vector16;
 					byte_length = 2;
 				}
diff --git a/duckVM.c b/duckVM.c
index 6a789ae..8e5acad 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -872,6 +872,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0


From 5a3822a1c15a50a58412f0a676c9166b6c74c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 17/76] fix: reading an empty string or a nameless symbol from
 C failed or left the length unset

---
 duckVM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8e5acad..3eecc43 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5164,7 +5164,7 @@ dl_error_t duckVM_object_getString(dl_memoryAllocation_t *memoryAllocation,
 	{
 		dl_ptrdiff_t offset = object.value.string.offset;
 		dl_size_t length = object.value.string.length;
-		if (length) {
+		if (length > (dl_size_t) offset) {
 			e = DL_MALLOC(memoryAllocation, string, length - offset, dl_uint8_t);
 			if (e) goto cleanup;
 
@@ -6050,7 +6050,7 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		}
 		else {
 			*name = dl_null;
-			name_length = 0;
+			*name_length = 0;
 			/* OK: This is symbol "compression". */
 		}
 	} while (0);
-- 
2.43.0


From 0dcfa7ac7c68c2492e70ef7d003102cf25ff5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 18/76] fix: capturing variables beyond stack depth 255
 corrupted the bytecode

---
 assembler.c | 29 +++++++++++++++--------------
 duckVM.c    |  6 ++++++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/assembler.c b/assembler.c
index 85bba94..092a016 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2133,21 +2133,22 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			break;
 		}
 		case duckLisp_instructionClass_releaseUpvalues: {
-			byte_length = 1;
+			/* The widest operand, including the count, decides. */
+			dl_size_t arg = instruction.args.elements_length;
 			DL_DOTIMES(k, instruction.args.elements_length) {
-				dl_size_t arg = args[k].value.integer;
-				if (arg < 0x00000100UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
-					byte_length = 1;
-				}
-				else if (arg < 0x00010000UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
-					byte_length = 2;
-				}
-				else {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
-					byte_length = 4;
-				}
+				if ((dl_size_t) args[k].value.integer > arg) arg = args[k].value.integer;
+			}
+			if (arg < 0x00000100UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
+				byte_length = 1;
+			}
+			else if (arg < 0x00010000UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
+				byte_length = 2;
+			}
+			else {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
+				byte_length = 4;
 			}
 			dl_ptrdiff_t index = 0;
 			// Number of upvalues
diff --git a/duckVM.c b/duckVM.c
index 3eecc43..d22df0d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1257,7 +1257,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_releaseUpvalues32:
 	case duckLisp_instruction_releaseUpvalues16:
 	case duckLisp_instruction_releaseUpvalues8:
+		/* The count has the same width as the indices. */
 		size1 = *(ip++);
+		if (opcode != duckLisp_instruction_releaseUpvalues8) size1 = *(ip++) + (size1 << 8);
+		if (opcode == duckLisp_instruction_releaseUpvalues32) {
+			size1 = *(ip++) + (size1 << 8);
+			size1 = *(ip++) + (size1 << 8);
+		}
 
 		DL_DOTIMES(k, size1) {
 			ptrdiff1 = *(ip++);
-- 
2.43.0


From c970ba54160c980dcb0705834087913efc597f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 19/76] fix: operands too wide for their encoding were
 truncated

---
 assembler.c | 36 ++++++++++++++++++++++++++++++------
 emitters.c  |  4 ++--
 emitters.h  |  4 ++--
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/assembler.c b/assembler.c
index 092a016..678a8a5 100644
--- a/assembler.c
+++ b/assembler.c
@@ -777,6 +777,11 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_setUpvalue: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t offset = 0;
+				if (args[0].value.index > 0xFF) {
+					e = duckLisp_error_pushRuntime(duckLisp, DL_STR("setq: Function captures too many variables."));
+					if (!e) e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
@@ -787,11 +792,11 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				}
 				offset += byte_length;
 				/* I'm not checking if it's negative since I'm lazy and that should never happen. */
-				if (args[0].value.index < 0x100LL) {
+				if (args[1].value.index < 0x100LL) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue8;
 					byte_length = 1;
 				}
-				else if (args[0].value.index < 0x10000LL) {
+				else if (args[1].value.index < 0x10000LL) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue16;
 					byte_length = 2;
 				}
@@ -1436,12 +1441,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt16;
 					byte_length = 2;
 				}
@@ -2083,12 +2090,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    && (args[2].type == duckLisp_instructionArgClass_type_index)) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring16;
 					byte_length = 2;
 				}
@@ -2236,6 +2245,11 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				index += byte_length;
 
 				// Arity
+				if (args[1].value.integer > 0xFF) {
+					e = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many arguments in function call."));
+					if (!e) e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
@@ -2283,6 +2297,11 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				index += byte_length;
 
 				// Arity
+				if (args[1].value.integer > 0xFF) {
+					e = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many arguments in function call."));
+					if (!e) e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
@@ -2446,6 +2465,11 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			else if ((instruction.instructionClass == duckLisp_instructionClass_pushClosure)
 			         || (instruction.instructionClass == duckLisp_instructionClass_pushVaClosure)) {
 				/* Arity */
+				if (args[1].value.integer > 0xFF) {
+					e = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many parameters in function definition."));
+					if (!e) e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
diff --git a/emitters.c b/emitters.c
index 57fcbbb..c7035ba 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1194,7 +1194,7 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity) {
+                                 dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
@@ -1215,7 +1215,7 @@ dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity) {
+                               dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
diff --git a/emitters.h b/emitters.h
index f5d009a..1350968 100644
--- a/emitters.h
+++ b/emitters.h
@@ -358,13 +358,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity);
+                                 dl_size_t arity);
 
 dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity);
+                               dl_size_t arity);
 
 dl_error_t duckLisp_emit_acall(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
-- 
2.43.0


From 926021830f95e6375c679493913576a25432b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 20/76] fix: = compared the wrong variables when an operand was
 more than 255 stack slots deep

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index d22df0d..be37b63 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2884,6 +2884,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From 79a8f201360f497f4bcf1d45c63ffbaef649ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 21/76] fix: a failed dl_realloc lost the block it was asked to
 resize

---
 DuckLib/memory.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..eea7868 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -944,10 +944,11 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	(void) memoryAllocation;
-	*(dl_uint8_t **) memory = realloc(*(dl_uint8_t **) memory, size);
-	if (*(dl_uint8_t **) memory == NULL) {
-		return dl_error_outOfMemory;
-	}
+	dl_uint8_t *newMemory = realloc(*(dl_uint8_t **) memory, size);
+	/* The old block is still allocated if `realloc` ran out of memory. */
+	if ((newMemory == NULL) && (size != 0)) return dl_error_outOfMemory;
+	*(dl_uint8_t **) memory = newMemory;
+	if (newMemory == NULL) return dl_error_outOfMemory;
 	return dl_error_ok;
 }
 
-- 
2.43.0


From e15a49215ce4d260226573b5894e7055a5e0f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 22/76] fix: heapsort never returned when given an empty array

---
 DuckLib/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/sort.c b/DuckLib/sort.c
index 8cb341d..878e716 100644
--- a/DuckLib/sort.c
+++ b/DuckLib/sort.c
@@ -29,7 +29,7 @@ void max_heapify(void *array, const dl_size_t length, dl_size_t size, const dl_p
 }
 
 void heapify(void *array, dl_size_t length, dl_size_t size, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
-	for (dl_ptrdiff_t i = (length - 1)/2; i >= 0; --i) {
+	for (dl_ptrdiff_t i = ((dl_ptrdiff_t) length - 1)/2; i >= 0; --i) {
 		/**/ max_heapify(array, length, size, i, comparison, context);
 	}
 }
-- 
2.43.0


From 4ea979bf6699626816c35bb3d5a5fc5cbc741896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 23/76] fix: dl_trie_quit stopped with an error at the first
 leaf with the built-in allocator

---
 DuckLib/trie.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 9ca3f95..d5ab19e 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -43,19 +43,25 @@ static dl_error_t dl_trie_quit_node(dl_trie_t *trie, dl_trie_node_t *trieNode) {
 		}
 	} // Fall through.
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes_name_lengths != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes_name != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
 	trieNode->index = -1;
-- 
2.43.0


From 97c738f525c5f7c2f394f8f396926660a309304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 24/76] fix: dl_trie_insert lost or hid keys when it ran out of
 memory

---
 DuckLib/trie.c | 74 ++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index d5ab19e..e4266ae 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -177,8 +177,9 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                          &key[name_index],
 				                          key_length - name_index,
 				                          index);
-				if (*success) break;
+				if (e || *success) break;
 			}
+			if (e) break;
 			if (!*success) {
 				/* No child nodes match at all, so create a new one. */
 				e = dl_trie_pushNode(trie, node, &key[name_index], key_length - name_index, index);
@@ -190,29 +191,32 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		/* Correct, but key is too short for this node. */
 		else if ((dl_size_t) name_index == key_length) {
 			/* Split. */
-			/* Save current node. (Save the children!) */
-			dl_trie_node_t tempNode = *node;
-			/* Reinitialize the node. Put the index here. */
-			/**/ dl_trie_init_node(node,
+			/* Initialize a new parent node. Put the index here. */
+			dl_trie_node_t newNode;
+			/**/ dl_trie_init_node(&newNode,
 			                       index,
 			                       dl_null,
 			                       0,
 			                       dl_null,
 			                       dl_null);
-			/* Push the saved node into the newly initialized node. */
+			/* Push the current node into the new node. (Save the children!) */
 			e = dl_trie_pushNode(trie,
-			                     node,
+			                     &newNode,
 			                     &(*node_name)[name_index],
 			                     *node_name_length - name_index,
-			                     tempNode.index);
-			if (e) break;
-			node->value.nodes[0] = tempNode;
+			                     node->index);
+			if (e) {
+				/* Leave the trie as it was. */
+				(void) dl_trie_quit_node(trie, &newNode);
+				break;
+			}
+			newNode.value.nodes[0] = *node;
+			*node = newNode;
 
-			e = dl_realloc(trie->memoryAllocation,
-			               (void **) node_name,
-			               name_index * sizeof(dl_uint8_t));
-			if (e) break;
-			/* Trim current node's name to match key. */
+			/* Trim current node's name to match key. It doesn't matter if the memory can't be shrunk. */
+			(void) dl_realloc(trie->memoryAllocation,
+			                  (void **) node_name,
+			                  name_index * sizeof(dl_uint8_t));
 			*node_name_length = name_index;
 
 			*success = dl_true;
@@ -222,37 +226,43 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		else if (key[name_index] != (*node_name)[name_index]) {  /* Exit point */
 			if (name_index != 0) {
 				/* Split. */
-				dl_trie_node_t tempNode = *node;
-				dl_trie_init_node(node,
+				dl_trie_node_t newNode;
+				dl_trie_init_node(&newNode,
 				                  -1,
 				                  dl_null,
 				                  0,
 				                  dl_null,
 				                  dl_null);
 				e = dl_trie_pushNode(trie,
-				                     node,
+				                     &newNode,
 				                     &(*node_name)[name_index],
 				                     *node_name_length - name_index,
 				                     100);  /* Index doesn't seem to matter here. */
-				if (e) break;
 
 				/* Add node. */
-				e = dl_trie_pushNode(trie,
-				                     node,
-				                     &key[name_index],
-				                     key_length - name_index,
-				                     index);
-				if (e) break;
+				if (!e) {
+					e = dl_trie_pushNode(trie,
+					                     &newNode,
+					                     &key[name_index],
+					                     key_length - name_index,
+					                     index);
+				}
+				if (e) {
+					/* Leave the trie as it was. */
+					(void) dl_trie_quit_node(trie, &newNode);
+					break;
+				}
 				/* Next node. */
 				// node = &node->value.nodes[0];
 				/* Splice to finish split. */
-				node->value.nodes[0] = tempNode;
-
-				/* Delete the redundant end of the original node's key. */
-				e = dl_realloc(trie->memoryAllocation,
-				               (void **) node_name,
-				               name_index * sizeof(dl_uint8_t));
-				if (e) break;
+				newNode.value.nodes[0] = *node;
+				*node = newNode;
+
+				/* Delete the redundant end of the original node's key. It doesn't matter if the memory can't be
+				   shrunk. */
+				(void) dl_realloc(trie->memoryAllocation,
+				                  (void **) node_name,
+				                  name_index * sizeof(dl_uint8_t));
 				*node_name_length = name_index;
 
 				*success = dl_true;
-- 
2.43.0


From 34a5be8cf593e97156d57d93839eee8761f08e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 25/76] fix: the allocator read outside its block list when the
 last block was freed or resized

---
 DuckLib/memory.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index eea7868..2137ad4 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -550,7 +550,8 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
-		if (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1) {
+		if ((memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock == -1)
+		    || (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1)) {
 			memoryAllocation->used = (char *) memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].block - (char *) memoryAllocation->memory;
 		}
 		
@@ -778,7 +779,8 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 		
 	memoryAllocation->blockList[block].allocated = dl_false;
 
-	if (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[block].nextBlock == -1)
+	    || (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
 	}
 	
@@ -828,7 +830,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
-	if (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[currentBlock].nextBlock == -1)
+	    || (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
 	}
 	
-- 
2.43.0


From 9915f65f80fcb99bca4625a4b65e06691473d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 26/76] fix: dl_memory_usage counted unused block descriptors

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 2137ad4..5ad2bff 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -921,7 +921,7 @@ void dl_memory_usage(dl_size_t *bytes, const dl_memoryAllocation_t memoryAllocat
 	const dl_size_t blockList_length = memoryAllocation.blockList_length;
 	dl_size_t sum = 0;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < blockList_length; i++) {
-		if (blockList[i].allocated) {
+		if (!blockList[i].unlinked && blockList[i].allocated) {
 			sum += blockList[i].block_size;
 		}
 	}
-- 
2.43.0


From ddbc2afccc38cf07cf7e87e359e446a927eca079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 27/76] fix: next fit searched from a block descriptor that
 might be unused, and skipped the blocks before it

---
 DuckLib/memory.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 5ad2bff..5ef26d8 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -373,15 +373,22 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	dl_ptrdiff_t optimumBlock = -1;
 	dl_ptrdiff_t currentBlock = -1;
 	dl_bool_t found = dl_false;
+	/* Set if the search didn't start at the first block. */
+	dl_bool_t wrap = dl_false;
 	
-	if (fit == dl_memoryFit_next) {
+	if ((fit == dl_memoryFit_next) && !memoryAllocation->blockList[memoryAllocation->mostRecentBlock].unlinked) {
 		currentBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
+		wrap = dl_true;
 	}
 	else {
 		currentBlock = memoryAllocation->firstBlock;
 	}
 	
 	// Find the smallest of the empty blocks.
+	if (wrap && (currentBlock == -1)) {
+		currentBlock = memoryAllocation->firstBlock;
+		wrap = dl_false;
+	}
 	while (!found && (currentBlock != -1)) {
 		if (!memoryAllocation->blockList[currentBlock].allocated && (memoryAllocation->blockList[currentBlock].block_size >= size)) {
 			if (optimumBlock == -1) {
@@ -415,6 +422,10 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 			}
 		}
 		currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
+		if (wrap && (currentBlock == -1)) {
+			currentBlock = memoryAllocation->firstBlock;
+			wrap = dl_false;
+		}
 	}
 	
 	if (optimumBlock == -1) {
-- 
2.43.0


From f845a549f18540f7fc2c3c65c16d68f3058f7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 28/76] fix: the allocator handed out its own block list after
 failing to extend it

---
 DuckLib/memory.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 5ef26d8..4f7626f 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -588,7 +588,24 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 			// Find a larger memory block for the table.
 			error = dl_memory_findBlock(memoryAllocation, &newBlock, (memoryAllocation->blockList_length + entries_left) * sizeof(dl_memoryBlock_t),
 			                            memoryAllocation->fit);
-			if (error) goto cleanup;
+			if (error) {
+				/* Stay in the current block, which may have absorbed its neighbors. Their descriptors may be enough. */
+				blockListEntry = &memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList];
+				blockListEntry->allocated = dl_true;
+				tempMemory = blockListEntry->block;
+				(void) dl_memcopy(tempMemory,
+				                  memoryAllocation->blockList,
+				                  memoryAllocation->blockList_length * sizeof(dl_memoryBlock_t));
+				memoryAllocation->blockList = tempMemory;
+				unlinkedBlock_number = 0;
+				for (dl_ptrdiff_t i = 0; (dl_size_t) i < memoryAllocation->blockList_length; i++) {
+					if (memoryAllocation->blockList[i].unlinked) {
+						unlinkedBlock_number++;
+					}
+				}
+				if (unlinkedBlock_number >= entries_number) error = dl_error_ok;
+				goto cleanup;
+			}
 			
 			// Copy block list to new location.
 			tempMemory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 7c7f60cb61012c8ba09d36ce86dc6c04ef20b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 29/76] fix: a failed dl_realloc corrupted the block, a
 successful one read past its end

---
 DuckLib/memory.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 4f7626f..ac131ea 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -829,9 +829,7 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	dl_ptrdiff_t newBlock = -1;
 
 	dl_bool_t blockFits = dl_false;
-#ifdef MEMCHECK
-	dl_size_t oldSize;
-#endif
+	dl_size_t oldSize = 0;
 	
 	if (*memory == dl_null) {
 		error = dl_malloc(memoryAllocation, memory, size);
@@ -851,9 +849,7 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-#ifdef MEMCHECK
 	oldSize = memoryAllocation->blockList[currentBlock].block_size;
-#endif
 	
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
@@ -873,18 +869,26 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	
 	memoryAllocation->blockList[currentBlock].allocated = dl_true;
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
-	if (error) {
-		goto l_cleanup;
-	}
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
 	
 	newBlock = currentBlock;
-	if (!blockFits) {
+	if (!error && !blockFits) {
 		error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
-		if (error) {
-			goto l_cleanup;
+	}
+	if (error) {
+		/* Give the caller's block its old place and size back. Each merge left a descriptor for the matching split. */
+		dl_size_t offset = (char *) *memory - (char *) memoryAllocation->blockList[currentBlock].block;
+		if (offset != 0) {
+			(void) dl_memory_splitBlock(memoryAllocation, currentBlock, offset);
+			currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
 		}
+		if (memoryAllocation->blockList[currentBlock].block_size > oldSize) {
+			(void) dl_memory_splitBlock(memoryAllocation, currentBlock, oldSize);
+		}
+		memoryAllocation->blockList[currentBlock].allocated = dl_true;
+		memoryAllocation->used = dl_max(memoryAllocation->used, (dl_size_t) (memoryAllocation->blockList[currentBlock].block_size + (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory));
+		goto l_cleanup;
 	}
 	
 	if (memoryAllocation->blockList[newBlock].block_size != size) {
@@ -902,10 +906,7 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 #endif /* MEMCHECK */
 		dl_memcopy(memoryAllocation->blockList[newBlock].block,
 		           *memory,
-		           dl_min(size, memoryAllocation->blockList[currentBlock].block_size));
-		if (error) {
-			goto l_cleanup;
-		}
+		           dl_min(size, oldSize));
 #ifdef MEMCHECK
 		VALGRIND_MAKE_MEM_NOACCESS(*memory, oldSize);
 		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block + oldSize, size - oldSize);
-- 
2.43.0


From 149ab61cf8071137120124fbf3d8054b1e26b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 30/76] fix: dl_realloc could leave adjacent free blocks
 unmerged

---
 DuckLib/memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index ac131ea..9652495 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -896,6 +896,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		if (error) {
 			goto l_cleanup;
 		}
+		/* Reserving the descriptor may have moved the block list away from behind this block. */
+		/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, dl_null, memoryAllocation->blockList[newBlock].nextBlock);
 	}
 
 	if (!blockFits) {
-- 
2.43.0


From abde287cc99bba78b775760cf917149f6637b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 31/76] Verification hook: let the harness collect garbage at
 any allocation (DUCK_VERIFY)

---
 duckVM.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index be37b63..bbe151e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -320,6 +320,11 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 	return e;
 }
 
+#ifdef DUCK_VERIFY
+/* Defined by the verification harness. */
+extern int duckVM_verify_collectNow(duckVM_t *duckVM);
+#endif /* DUCK_VERIFY */
+
 static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **objectOut, duckVM_object_t objectIn) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
@@ -328,7 +333,12 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	duckVM_object_t *heapObject = dl_null;
 
 	// Try once
-	if (gclist->freeObjects_length == 0) {
+	if ((gclist->freeObjects_length == 0)
+#ifdef DUCK_VERIFY
+	    /* Verification hook: the host may ask for a collection at any allocation. */
+	    || duckVM_verify_collectNow(duckVM)
+#endif /* DUCK_VERIFY */
+	    ) {
 		// STOP THE WORLD
 		e = duckVM_gclist_garbageCollect(duckVM);
 		if (e) {
-- 
2.43.0


From 7a0d9fd766e24a25e04e0272a657e31e44565122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 32/76] fix: set-car on an empty vector reports an error
 instead of writing to memory it does not have

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index bbe151e..c303550 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3862,7 +3862,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
-- 
2.43.0


From 3f86e83cc437a25e6b3d7cffcb6c2b3216367c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 33/76] fix: set-cdr of a vector truncates right after the
 current element

---
 duckVM.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index c303550..4e78de2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3921,11 +3921,16 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		else if ((object2.type == duckVM_object_type_vector)
 		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)
 		         && (((object1.type == duckVM_object_type_vector)
-		              && (object1.value.vector.internal_vector == dl_null))
+		              && ((object1.value.vector.internal_vector == dl_null)
+		                  || ((dl_size_t) object1.value.vector.offset
+		                      >= object1.value.vector.internal_vector->value.internal_vector.length)))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			/* Truncate right after the current element. */
+			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
 		}
 		else {
 			e = dl_error_invalidValue;
-- 
2.43.0


From f16773e1ef745ff20224d82a75c59f5e94c69e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 34/76] fix: make-string of an empty vector

---
 duckVM.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 4e78de2..2c0272e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4362,10 +4362,15 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
-				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
-				if (e) break;
+				dl_size_t vector_length = 0;
+				if (object1.value.vector.internal_vector != dl_null) {
+					vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
+				}
+				if ((dl_size_t) object1.value.vector.offset < vector_length) {
+					string_length = vector_length - object1.value.vector.offset;
+					e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
+					if (e) break;
+				}
 				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
 					duckVM_object_t *element = object1.value.vector.internal_vector->value.internal_vector.values[i];
 					if (element->type != duckVM_object_type_integer) {
-- 
2.43.0


From 834e49ba7e625243362ab666dbb880bf84a5acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 35/76] fix: make-string reports elements that are not integers

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 2c0272e..f292c4b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4385,6 +4385,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					/* Truncate to 8 bits. */
 					string[i - object1.value.vector.offset] = element->value.integer;
 				}
+				if (e) break;
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
@@ -4396,7 +4397,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
@@ -4425,6 +4426,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						break;
 					}
 				}
+				if (e) break;
 				string = string_array.elements;
 				string_length = string_array.elements_length;
 			}
-- 
2.43.0


From fe4d74ed3922a026343e8d6b5e5c18b3a344c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 36/76] fix: a vector truncated before a view of it begins
 makes the view empty, not of negative length

---
 duckVM.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index f292c4b..195d191 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4274,7 +4274,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
+				object2.value.integer = ((object1.value.vector.internal_vector
+				                          && ((dl_size_t) object1.value.vector.offset
+				                              < object1.value.vector.internal_vector->value.internal_vector.length))
 				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
 				                            - object1.value.vector.offset)
 				                         : 0);
@@ -6992,7 +6994,8 @@ dl_error_t duckVM_length(duckVM_t *duckVM, dl_size_t *length) {
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
 			duckVM_object_t *internal_vector = vector.internal_vector;
-			local_length = (internal_vector
+			local_length = ((internal_vector
+			                 && ((dl_size_t) vector.offset < internal_vector->value.internal_vector.length))
 			                ? (internal_vector->value.internal_vector.length - vector.offset)
 			                : 0);
 			break;
-- 
2.43.0


From 58e13e29fb632a44ac2fc72c7207a43ee8b9abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 37/76] fix: not and the API's emptiness tests agree with null?
 about empty vectors

---
 duckVM.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 195d191..44c350b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1838,7 +1838,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		switch (object1.type) {
 		case duckVM_object_type_vector:
 			object1.type = duckVM_object_type_bool;
-			object1.value.boolean = object1.value.vector.internal_vector == dl_null;
+			object1.value.boolean = !((object1.value.vector.internal_vector != dl_null)
+			                          && ((dl_size_t) object1.value.vector.offset
+			                              < object1.value.vector.internal_vector->value.internal_vector.length));
 			break;
 		case duckVM_object_type_list:
 			object1.type = duckVM_object_type_bool;
@@ -5628,7 +5630,8 @@ dl_error_t duckVM_isEmptyVector(duckVM_t *duckVM, dl_bool_t *result) {
 	if (object.type == duckVM_object_type_vector) {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -5680,7 +5683,8 @@ dl_error_t duckVM_isEmpty(duckVM_t *duckVM, dl_bool_t *result) {
 	case duckVM_object_type_vector: {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
-- 
2.43.0


From 986ec7e665824315927db0ea2ccd37919fe96a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 38/76] fix: a failed comptime does not read a return value off
 the empty stack

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 2c672e8..c0ed5cf 100644
--- a/generators.c
+++ b/generators.c
@@ -1262,7 +1262,6 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		eError = dl_array_pushElements(&duckLisp->errors,
 		                               duckLisp->vm.errors.elements,
 		                               duckLisp->vm.errors.elements_length);
@@ -1271,6 +1270,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		if (eError) e = eError;
 		if (e) goto cleanup;
 
+		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
 		/* Pop return value. */
-- 
2.43.0


From 1a42330e5ac477200c51c10163e89241a961e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 39/76] fix: parenthesis inference of a literal expression
 whose head is not an identifier

---
 parenthesis-inferrer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index dfd82d8..0a4102b 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1565,11 +1565,15 @@ static dl_error_t infer_expression(inferrerState_t *state,
 
 	if (compoundExpression->type == duckLisp_ast_type_literalExpression) {
 		/* Don't type-check. */
-		e = infer_callback(state, head, dl_false);
-		if (e) goto cleanup;
+		dl_ptrdiff_t firstArgument_index = 0;
+		if ((head->type == duckLisp_ast_type_callback) || (head->type == duckLisp_ast_type_identifier)) {
+			e = infer_callback(state, head, dl_false);
+			if (e) goto cleanup;
+			firstArgument_index = 1;
+		}
 		/* Run argument inference */
 
-		e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
+		e = inferArguments(state, fileName, fileName_length, expression, firstArgument_index, dl_false);
 		if (e) goto cleanup;
 
 		compoundExpression->type = duckLisp_ast_type_expression;
-- 
2.43.0


From ac3d10aaa3298228aa5d7b41d4b7c47ff5d9bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 40/76] fix: a float that ends in a decimal point right before
 the end of the source is read, keeping its sign, instead of being parsed
 forever

---
 DuckLib/string.c | 7 +------
 parser.c         | 8 +-------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index bd52d6f..6693b06 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -327,12 +327,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
 
-			if ((dl_size_t) index >= string_length) {
-				// eError = duckLisp_error_push(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				// This is expected. 1. 234.e61  435. for example.
-				goto cleanup;
-			}
+			// The end of the string is expected here. 1. 234.e61  435. for example.
 
 			power = 1;
 		}
diff --git a/parser.c b/parser.c
index ee71c29..17ecccb 100644
--- a/parser.c
+++ b/parser.c
@@ -1046,13 +1046,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
-
-			if (indexCopy >= (dl_ptrdiff_t) source_length) {
-				// eError = duckLisp_error_pushSyntax(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				/* This is expected. 1. 234.e61 435. for example. */
-				goto cleanup;
-			}
+			/* The end of the file is expected here. 1. 234.e61 435. for example. */
 		}
 
 		while ((indexCopy < (dl_ptrdiff_t) source_length)
-- 
2.43.0


From cca4ad242db7865381e772d3915a9d6eef71dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 41/76] fix: a boolean is a whole token: an identifier may
 start with true or false, and the source may end with one

---
 parser.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 17ecccb..d52b4b8 100644
--- a/parser.c
+++ b/parser.c
@@ -687,7 +687,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 	const dl_size_t sizeOfTrue = sizeof("true") - 1;
 	const dl_size_t sizeOfFalse = sizeof("false") - 1;
 
-	if (source_length <= indexCopy + sizeOfTrue) {
+	if (source_length < indexCopy + sizeOfTrue) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Encountered EOF"),
 		                                   fileName,
@@ -705,7 +705,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		stop_index += sizeOfTrue;
 	}
 	else {
-		if (source_length <= indexCopy + sizeOfFalse) {
+		if (source_length < indexCopy + sizeOfFalse) {
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("Encountered EOF"),
 			                                   fileName,
@@ -737,6 +737,21 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		}
 	}
 
+	/* "trueish" is an identifier. */
+	if (((dl_size_t) stop_index < source_length) && isIdentifierSymbol(source[stop_index])) {
+		eError = duckLisp_error_pushSyntax(duckLisp,
+		                                   DL_STR("Expected the end of the token in boolean."),
+		                                   fileName,
+		                                   fileName_length,
+		                                   source,
+		                                   source_length,
+		                                   start_index,
+		                                   stop_index,
+		                                   throwErrors);
+		e = eError ? eError : dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_bool_t boolean;
 	e = dl_string_toBool(&boolean.value, &source[start_index], stop_index - start_index);
 	if (e) {
-- 
2.43.0


From 3113d2f6e391aa6c7fcb3b8ef5311dece107c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 42/76] fix: a string that ends right at the end of the source
 has its closing quote

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index d52b4b8..aefc516 100644
--- a/parser.c
+++ b/parser.c
@@ -1199,6 +1199,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t indexCopy = start_index;
 	dl_ptrdiff_t stop_index = start_index;
+	dl_bool_t closed = dl_false;
 
 	if (indexCopy >= (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
@@ -1238,13 +1239,14 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 			}
 			else if (source[indexCopy] == '"') {
 				indexCopy++;
+				closed = dl_true;
 				break;
 			}
 
 			indexCopy++;
 		}
 
-		if (indexCopy >= (dl_ptrdiff_t) source_length) {
+		if (!closed) {
 			e = dl_error_invalidValue;
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("String missing closing quote."),
-- 
2.43.0


From c3db917d2f4c106dd8e3c663e8ea749a6ef68412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 43/76] fix: whitespace or comments may be all there is between
 two parentheses

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index aefc516..e981a2c 100644
--- a/parser.c
+++ b/parser.c
@@ -294,6 +294,8 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
@@ -419,6 +421,8 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
-- 
2.43.0


From 55b457acccfbe85caf5533b6cd13a80d7def17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 44/76] fix: integer literals wider than 32 bits keep their
 value

---
 assembler.c | 18 +++++++++++++-----
 duckLisp.h  |  1 +
 duckVM.c    | 13 +++++++++++++
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/assembler.c b/assembler.c
index 678a8a5..24c9c98 100644
--- a/assembler.c
+++ b/assembler.c
@@ -525,7 +525,9 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		}
 		case duckLisp_instructionClass_pushInteger: {
 			dl_bool_t sign = args[0].value.integer < 0;
-			unsigned long long absolute = sign ? -args[0].value.integer : args[0].value.integer;
+			unsigned long long absolute = (sign
+			                               ? -(unsigned long long) args[0].value.integer
+			                               : (unsigned long long) args[0].value.integer);
 
 			switch (args[0].type) {
 			case duckLisp_instructionArgClass_type_integer:
@@ -537,10 +539,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 					currentInstruction.byte = duckLisp_instruction_pushInteger16;
 					byte_length = 2;
 				}
-				else {
+				else if (absolute < 0x80000000LU) {
 					currentInstruction.byte = duckLisp_instruction_pushInteger32;
 					byte_length = 4;
 				}
+				else {
+					currentInstruction.byte = duckLisp_instruction_pushInteger64;
+					byte_length = 8;
+				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) {
 					goto cleanup;
@@ -2907,6 +2913,7 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
 		{duckLisp_instruction_pushInteger16, DL_STR("integer.16 2")},
 		{duckLisp_instruction_pushInteger32, DL_STR("integer.32 4")},
+		{duckLisp_instruction_pushInteger64, DL_STR("integer.64 8")},
 		{duckLisp_instruction_pushDoubleFloat, DL_STR("double-float f")},
 		{duckLisp_instruction_pushIndex8, DL_STR("index.8 1")},
 		{duckLisp_instruction_pushIndex16, DL_STR("index.16 2")},
@@ -3147,11 +3154,12 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 					--format_length;
 					break;
 				}
-				case '4': {
+				case '4':
+				case '8': {
 					e = dl_array_pushElement(&disassembly, " ");
 					if (e) goto cleanup;
 					args[args_index] = 0;
-					DL_DOTIMES(m, 4) {
+					DL_DOTIMES(m, formatChar - '0') {
 						bytecode_index++;
 						dl_uint8_t code = bytecode[bytecode_index];
 						char hexChar = dl_nybbleToHexChar((code >> 4) & 0x0F);
@@ -3163,7 +3171,7 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 						args[args_index] <<= 8;
 						args[args_index] |= code;
 					}
-					args_size[args_index] = 4;
+					args_size[args_index] = formatChar - '0';
 					args_index++;
 					format++;
 					--format_length;
diff --git a/duckLisp.h b/duckLisp.h
index f84b804..a526fed 100644
--- a/duckLisp.h
+++ b/duckLisp.h
@@ -289,6 +289,7 @@ typedef enum {
 	duckLisp_instruction_pushInteger8,
 	duckLisp_instruction_pushInteger16,
 	duckLisp_instruction_pushInteger32,
+	duckLisp_instruction_pushInteger64,
 
 	duckLisp_instruction_pushDoubleFloat,
 
diff --git a/duckVM.c b/duckVM.c
index 44c350b..e2824d7 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -909,6 +909,19 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		break;
 
+	case duckLisp_instruction_pushInteger64: {
+		dl_uint64_t bits = 0;
+		DL_DOTIMES(k, 8) {
+			bits = *(ip++) + (bits << 8);
+		}
+		object1 = duckVM_object_makeInteger((dl_ptrdiff_t) bits);
+		e = stack_push(duckVM, &object1);
+		if (e) {
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->push-integer: stack_push failed."));
+			if (!e) e = eError;
+		}
+		break;
+	}
 	case duckLisp_instruction_pushInteger32:
 		ptrdiff1 = *(ip++);
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
-- 
2.43.0


From 3209de6296a4788c514ea71dbb3ec75129ea7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 45/76] fix: decimal literals of up to 15 digits are read
 exactly, and long ones do not overflow

---
 DuckLib/string.c | 64 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 6693b06..5cbb76d 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -245,6 +245,36 @@ dl_error_t dl_string_fromSize(dl_array_t *result, dl_size_t sz) {
 	return e;
 }
 
+/* Append a digit to the mantissa. Once the mantissa holds more digits than a double can, digits only scale it. */
+static void toDouble_appendDigit(double *mantissa, dl_ptrdiff_t *scale, dl_uint8_t digit, dl_bool_t afterPoint) {
+	if (*mantissa < 1e17) {
+		*mantissa = *mantissa * 10.0 + (double) (digit - '0');
+		if (afterPoint) --*scale;
+	}
+	else if (!afterPoint) {
+		(*scale)++;
+	}
+}
+
+/* The powers of ten up to 10^22 are exact, so one multiplication or division rounds once. */
+static double toDouble_scale(double mantissa, dl_ptrdiff_t scale) {
+	while ((scale != 0) && (mantissa != 0.0) && (mantissa <= 1.7976931348623157e308)) {
+		dl_ptrdiff_t step = (scale < 0) ? -scale : scale;
+		if (step > 22) step = 22;
+		double power = 1.0;
+		for (dl_ptrdiff_t i = 0; i < step; i++) power *= 10.0;
+		if (scale < 0) {
+			mantissa /= power;
+			scale += step;
+		}
+		else {
+			mantissa *= power;
+			scale -= step;
+		}
+	}
+	return mantissa;
+}
+
 dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl_size_t string_length) {
 	dl_error_t e = dl_error_ok;
 
@@ -253,6 +283,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	dl_bool_t negative = dl_false;
 	dl_ptrdiff_t power = 0;
 	dl_bool_t power_negative = dl_false;
+	dl_ptrdiff_t scale = 0;
 
 	*result = 0.0;
 
@@ -276,27 +307,23 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		power = 10;
-
 		if (!dl_string_isDigit(string[index])) {
 			e = dl_error_invalidValue;
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / (double) power;
+		toDouble_appendDigit(result, &scale, string[index], dl_true);
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
-
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			toDouble_appendDigit(result, &scale, string[index], dl_true);
 			index++;
 		}
 	}
@@ -319,7 +346,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			*result = *result * 10.0 + (double) (string[index] - '0');
+			toDouble_appendDigit(result, &scale, string[index], dl_false);
 
 			index++;
 		}
@@ -328,18 +355,15 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 
 			// The end of the string is expected here. 1. 234.e61  435. for example.
-
-			power = 1;
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			toDouble_appendDigit(result, &scale, string[index], dl_true);
 
 			index++;
 		}
@@ -380,25 +404,17 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			power = power * 10 + string[index] - '0';
+			/* No exponent this large can matter any more. */
+			if (power < 100000000) power = power * 10 + string[index] - '0';
 
 			index++;
 		}
 
 		if (power_negative) {
-			if (power == 0) {
-				e = dl_error_invalidValue;
-				goto cleanup;
-			}
-
-			for (dl_ptrdiff_t i = 0; i < power; i++) {
-				*result /= 10.0;
-			}
+			scale -= power;
 		}
 		else {
-			for (dl_ptrdiff_t i = 0; i < power; i++) {
-				*result *= 10.0;
-			}
+			scale += power;
 		}
 	}
 
@@ -407,6 +423,8 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		goto cleanup;
 	}
 
+	*result = toDouble_scale(*result, scale);
+
 	if (negative) {
 		*result = -*result;
 	}
-- 
2.43.0


From 6b4acf1928652a4094a186f4defc1f8a74d1c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 46/76] fix: a macro that returns an improper list is an error
 instead of a write past the end of the expression

---
 generators.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generators.c b/generators.c
index c0ed5cf..dff55d3 100644
--- a/generators.c
+++ b/generators.c
@@ -1063,7 +1063,9 @@ dl_size_t duckLisp_consList_length(duckVM_object_t *cons) {
 			length++;
 		}
 		else {
+			/* Improper list. The cons still has a CAR. */
 			cons = dl_null;
+			length++;
 		}
 	}
 	return length;
-- 
2.43.0


From 8a808cd8859594b9bfdfd7ecb20f94ec864add06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 47/76] fix: make-string of an empty list with DuckLib's
 allocator

---
 duckVM.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e2824d7..444706e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4452,20 +4452,16 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->make-string: Only vector arguments are supported."));
 				if (eError) e = eError;
-				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
 				break;
 			}
 			object1.type = duckVM_object_type_internalString;
 			object1.value.internalString.value = string;
 			object1.value.internalString.value_length = string_length;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
-			if (e) {
+			if (string != dl_null) {
 				eError = DL_FREE(duckVM->memoryAllocation, &string);
 				if (eError) e = eError;
-				break;
 			}
-			e = DL_FREE(duckVM->memoryAllocation, &string);
 			if (e) break;
 			object1.type = duckVM_object_type_string;
 			object1.value.string.internalString = objectPtr1;
-- 
2.43.0


From 05a53500e04020e334e89149c8533585a59f206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 48/76] fix: an empty literal expression at the end of the text
 is read, and a malformed one is an error instead of a nameless identifier

---
 parser.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index e981a2c..e0e381a 100644
--- a/parser.c
+++ b/parser.c
@@ -232,8 +232,8 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	expression.compoundExpressions = dl_null;
 	expression.compoundExpressions_length = 0;
 
-	/* Basic syntax checks. Need space for two parentheses and the first character must be a parenthesis. */
-	if (indexCopy + 3 >= (dl_ptrdiff_t) source_length) {
+	/* Basic syntax checks. Need space for '#' and two parentheses and the second character must be a parenthesis. */
+	if (indexCopy + 3 > (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Not an expression: file too short."),
 		                                   fileName,
@@ -554,6 +554,22 @@ static dl_error_t parse_identifier(duckLisp_t *duckLisp,
 		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
+	/* This is a literal expression, though a malformed one. */
+	if ((source[indexCopy] == '#')
+	    && (indexCopy + 1 < (dl_ptrdiff_t) source_length)
+	    && (source[indexCopy + 1] == '(')) {
+		eError = duckLisp_error_pushSyntax(duckLisp,
+		                                   DL_STR("Malformed literal expression."),
+		                                   fileName,
+		                                   fileName_length,
+		                                   source,
+		                                   source_length,
+		                                   start_index,
+		                                   indexCopy,
+		                                   throwErrors);
+		e = eError ? eError : dl_error_invalidValue;
+		goto cleanup;
+	}
 	indexCopy++;
 
 	while ((indexCopy < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[indexCopy])) {
@@ -639,6 +655,21 @@ static dl_error_t parse_callback(duckLisp_t *duckLisp,
 	}
 	stop_index = indexCopy;
 
+	/* Not a name. */
+	if (stop_index == start_index) {
+		eError = duckLisp_error_pushSyntax(duckLisp,
+		                                   DL_STR("Expected a name after '#'."),
+		                                   fileName,
+		                                   fileName_length,
+		                                   source,
+		                                   source_length,
+		                                   start_index,
+		                                   indexCopy,
+		                                   throwErrors);
+		e = eError ? eError : dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_identifier_t identifier;
 	identifier.value_length = 0;
 	dl_size_t length = stop_index - start_index;
-- 
2.43.0


From 58b526f66d24848676328f4680608e962fb62449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 49/76] fix: the sum or difference of two booleans is true or
 false

---
 duckVM.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 444706e..8f725a3 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2452,7 +2452,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean += object2.value.boolean;
+				object1.value.boolean = (object1.value.boolean + object2.value.boolean) != 0;
 				break;
 			default:
 				e = dl_error_invalidValue;
@@ -2536,7 +2536,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean -= object2.value.boolean;
+				object1.value.boolean = (object1.value.boolean - object2.value.boolean) != 0;
 				break;
 			default:
 				e = dl_error_invalidValue;
@@ -2608,7 +2608,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean -= object2.value.boolean;
+				object1.value.boolean = (object1.value.boolean - object2.value.boolean) != 0;
 				break;
 			default:
 				e = dl_error_invalidValue;
@@ -2677,7 +2677,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
-				object1.value.boolean -= object2.value.boolean;
+				object1.value.boolean = (object1.value.boolean - object2.value.boolean) != 0;
 				break;
 			default:
 				e = dl_error_invalidValue;
-- 
2.43.0


From 8c3f65ae1528e558d946263174abd997532e32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 50/76] fix: calling a C function whose global was redefined as
 something else is an error

---
 duckVM.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 8f725a3..7eed61c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1675,6 +1675,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			if (global->type != duckVM_object_type_function) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: Object is not a callback."));
+				if (eError) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From faa3036c5f4c08a691c17849d0e310cd47783811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 51/76] fix: setting a global from the stack stores the object
 on top of the stack

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 7eed61c..d56a39e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4980,10 +4980,13 @@ dl_error_t duckVM_pushGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
 
 /* Set the specified global variable to the value of the object on top of the stack. */
 dl_error_t duckVM_setGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
-	duckVM_object_t *object = dl_null;
-	dl_error_t e = stack_getTop(duckVM, object);
+	duckVM_object_t object;
+	duckVM_object_t *objectPointer = dl_null;
+	dl_error_t e = stack_getTop(duckVM, &object);
+	if (e) return e;
+	e = duckVM_gclist_pushObject(duckVM, &objectPointer, object);
 	if (e) return e;
-	return duckVM_global_set(duckVM, object, key);
+	return duckVM_global_set(duckVM, objectPointer, key);
 }
 
 
-- 
2.43.0


From a56065d7d72e76f5f3a197ef78140a7746245bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 52/76] fix: the first element or the rest of what has none is
 an error, not an uninitialised object

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index d56a39e..d775bb2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6540,6 +6540,7 @@ dl_error_t duckVM_pushFirst(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &first);
 		if (e) break;
 	} while (0);
@@ -6644,6 +6645,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &rest);
 		if (e) break;
 	} while (0);
-- 
2.43.0


From 9724f64ec06647548be86eb17b9f391dab4cfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 53/76] fix: an element of a string is taken from that string,
 and within it

---
 duckVM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index d775bb2..92d64b8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5295,9 +5295,11 @@ dl_error_t duckVM_string_getInternalString(duckVM_string_t string, duckVM_intern
 
 dl_error_t duckVM_string_getElement(duckVM_string_t string, dl_uint8_t *byte, dl_ptrdiff_t index) {
 	duckVM_internalString_t internalString;
-	dl_error_t e = duckVM_string_getInternalString(string, &internalString);
+	dl_error_t e = dl_error_ok;
+	if ((index < 0) || (string.length <= (dl_size_t) (string.offset + index))) return dl_error_invalidValue;
+	e = duckVM_string_getInternalString(string, &internalString);
 	if (e) return e;
-	*byte = internalString.value[index];
+	*byte = internalString.value[string.offset + index];
 	return e;
 }
 
-- 
2.43.0


From 2f7d56a7c6e79949b66743333c40d88f03d710c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 54/76] fix: there is no captured variable beyond the last

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 92d64b8..5edd415 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5384,6 +5384,7 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	if (object == dl_null) return dl_error_nullPointer;
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
 
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
@@ -5420,6 +5421,7 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	if (object == dl_null) return dl_error_nullPointer;
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
 
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
-- 
2.43.0


From f6963d0a7e854642f3b07010a7931f0c74ca57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 55/76] fix: the rest of a vector or string with one element is
 empty

---
 duckVM.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 5edd415..daf9294 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6609,7 +6609,8 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = vector.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length) {
+			if ((vector.internal_vector == dl_null)
+			    || ((dl_size_t) offset > vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                             DL_STR("duckVM_pushRest: Vector is empty."));
@@ -6624,7 +6625,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = string.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= string.length) {
+			if ((dl_size_t) offset > string.length) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_pushRest: String is empty."));
-- 
2.43.0


From 8281f7db4a1950e69c25059160bff3259814b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 56/76] fix: an element of a list is the element, and it is an
 error if there is none

---
 duckVM.c | 53 +++++++++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index daf9294..03fad0f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6821,25 +6821,27 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		switch (type) {
 		case duckVM_object_type_list: {
 			duckVM_object_t *element_pointer = sequence.value.list;
-			DL_DOTIMES(k, sequence_index) {
-				if (element_pointer) {
-					if (duckVM_object_type_cons == element_pointer->type) {
-						element_pointer = element_pointer->value.cons.cdr;
-					}
-					else {
-						e = dl_error_invalidValue;
-						eError = duckVM_error_pushRuntime(duckVM,
-						                                  DL_STR("duckVM_pushElement: Ran out of elements in improper list."));
-						if (eError) e = eError;
-						break;
-					}
-				}
-				else {
-					break;
-				}
+			for (dl_ptrdiff_t k = 0;
+			     (k < sequence_index) && element_pointer && (duckVM_object_type_cons == element_pointer->type);
+			     k++) {
+				element_pointer = element_pointer->value.cons.cdr;
+			}
+			if ((sequence_index < 0)
+			    || (element_pointer == dl_null)
+			    || (duckVM_object_type_cons != element_pointer->type)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Ran out of elements in list."));
+				if (eError) e = eError;
+				break;
+			}
+			element_pointer = element_pointer->value.cons.car;
+			if ((element_pointer == dl_null) || (duckVM_object_type_cons == element_pointer->type)) {
+				element = duckVM_object_makeList(element_pointer);
+			}
+			else {
+				element = *element_pointer;
 			}
-			if (e) break;
-			element = *element_pointer;
 			break;
 		}
 		case duckVM_object_type_vector: {
@@ -6901,20 +6903,14 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_list_t list = sequence.value.list;
-			if (list) {
-				list->value.cons.car = value_pointer;
-			}
-			else {
-				/* Nil */
+			duckVM_object_t *element_pointer = sequence.value.list;
+			if (sequence_index < 0) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: List is nil."));
+				                                  DL_STR("duckVM_setElement: Negative index."));
+				if (eError) e = eError;
 				break;
 			}
-			break;
-			/* This looks like a bug: */ }{
-			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
 				if (element_pointer) {
 					if (duckVM_object_type_cons == element_pointer->type) {
@@ -6978,6 +6974,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			break;
 		}
 		default: {
+			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
 			                                  DL_STR("duckVM_setElement: Unsupported object type."));
 			if (eError) e = eError;
-- 
2.43.0


From c67225d60693447d4a43315505f3da44e4cf0c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 57/76] fix: the function of a composite can be set with an
 index from the top of the stack

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 03fad0f..e8f598e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6307,7 +6307,7 @@ dl_error_t duckVM_setCompositeFunction(duckVM_t *duckVM, dl_ptrdiff_t stack_inde
 		duckVM_object_t *heap_value = dl_null;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = dl_array_get(&duckVM->stack, &composite, stack_index);
+		e = stack_get(duckVM, &composite, stack_index);
 		if (e) break;
 		if (duckVM_object_type_composite != composite.type) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 37ae3679a5150821ba35bc889c0f51e4445edd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 58/76] fix: the elements of a vector made by the host are nil

---
 duckVM.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e8f598e..2e6b10e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6357,6 +6357,7 @@ dl_error_t duckVM_pushCons(duckVM_t *duckVM) {
 /* Push a vector with the specified length onto the stack with each element to nil. */
 dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 	do {
 		duckVM_object_t vector;
 		dl_array_t array;
@@ -6368,14 +6369,22 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 				if (e) break;
 			}
 			if (e) break;
-			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
-			if (e) break;
 			e = duckVM_object_makeVector(duckVM, &vector, array);
 			if (e) break;
+			/* Make visible to collector before allocating another. */
 			e = stack_push(duckVM, &vector);
 			if (e) break;
+			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+			if (e) {
+				(void) stack_pop(duckVM, dl_null);
+				break;
+			}
+			DL_DOTIMES(k, length) {
+				vector.value.vector.internal_vector->value.internal_vector.values[k] = nil_pointer;
+			}
 		} while (0);
-		e = dl_array_quit(&array);
+		eError = dl_array_quit(&array);
+		if (!e) e = eError;
 		if (e) break;
 	} while (0);
 	return e;
-- 
2.43.0


From 56982acc7c2accb076a800f907ca4ce146aa8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 59/76] fix: the slots of a composite made by the host survive
 a collection while it is made

---
 duckVM.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 2e6b10e..e3f7769 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6198,12 +6198,18 @@ dl_error_t duckVM_pushComposite(duckVM_t *duckVM, dl_size_t type) {
 		duckVM_object_t object;
 		nil.type = duckVM_object_type_list;
 		nil.value.list = dl_null;
-		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
-		if (e) break;
-		e = duckVM_object_makeComposite(duckVM, &object, type, nil_pointer, nil_pointer);
+		e = duckVM_object_makeComposite(duckVM, &object, type, dl_null, dl_null);
 		if (e) break;
+		/* Make visible to collector before allocating another. */
 		e = duckVM_object_push(duckVM, &object);
 		if (e) break;
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
+		if (e) {
+			(void) stack_pop(duckVM, dl_null);
+			break;
+		}
+		object.value.composite->value.internalComposite.value = nil_pointer;
+		object.value.composite->value.internalComposite.function = nil_pointer;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From 81e604f59a73afde214c6b00bc9b94781652a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 60/76] fix: setting an element copies the value only if there
 is such an element

---
 duckVM.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e3f7769..ef8343f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6692,8 +6692,6 @@ dl_error_t duckVM_setFirst(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		duckVM_object_type_t type;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
-		if (e) break;
 		e = stack_get(duckVM, &sequence, stack_index);
 		if (e) break;
 		type = sequence.type;
@@ -6701,6 +6699,8 @@ dl_error_t duckVM_setFirst(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
+				e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+				if (e) break;
 				list->value.cons.car = value_pointer;
 			}
 			else {
@@ -6715,6 +6715,10 @@ dl_error_t duckVM_setFirst(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		}
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
+			e = duckVM_vector_getElement(vector, &value_pointer, 0);
+			if (e) break;
+			e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+			if (e) break;
 			e = duckVM_vector_setElement(vector, value_pointer, 0);
 			if (e) break;
 			break;
@@ -6728,7 +6732,7 @@ dl_error_t duckVM_setFirst(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		}
 		case duckVM_object_type_closure: {
 			duckVM_closure_t closure = sequence.value.closure;
-			e = duckVM_closure_setUpvalue(duckVM, closure, value_pointer, 0);
+			e = duckVM_closure_setUpvalue(duckVM, closure, &value, 0);
 			if (e) break;
 			break;
 		}
@@ -6764,8 +6768,6 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
-		if (e) break;
 		e = stack_get(duckVM, &sequence, stack_index);
 		if (e) break;
 		type = sequence.type;
@@ -6773,6 +6775,8 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
+				e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+				if (e) break;
 				list->value.cons.cdr = value_pointer;
 			}
 			else {
@@ -6911,8 +6915,6 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		duckVM_object_type_t type;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
-		if (e) break;
 		e = stack_get(duckVM, &sequence, stack_index);
 		if (e) break;
 		type = sequence.type;
@@ -6950,6 +6952,8 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			if (e) break;
 			if (element_pointer) {
 				if (duckVM_object_type_cons == element_pointer->type) {
+					e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+					if (e) break;
 					element_pointer->value.cons.car = value_pointer;
 				}
 				else {
@@ -6971,6 +6975,10 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		}
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
+			e = duckVM_vector_getElement(vector, &value_pointer, sequence_index);
+			if (e) break;
+			e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+			if (e) break;
 			e = duckVM_vector_setElement(vector, value_pointer, sequence_index);
 			if (e) break;
 			break;
@@ -6984,7 +6992,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		}
 		case duckVM_object_type_closure: {
 			duckVM_closure_t closure = sequence.value.closure;
-			e = duckVM_closure_setUpvalue(duckVM, closure, value_pointer, sequence_index);
+			e = duckVM_closure_setUpvalue(duckVM, closure, &value, sequence_index);
 			if (e) break;
 			break;
 		}
-- 
2.43.0


From 1089091e824ab986b11e7cfa98a2db8f0a2adcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 61/76] fix: a list stored into a list by the host is part of
 that list

---
 duckVM.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ef8343f..46b5049 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6672,6 +6672,15 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 	return e;
 }
 
+/* What a cons refers to: a list is referred to by its first cons, and anything else by a copy on the heap. */
+static dl_error_t allocateConsElement(duckVM_t *duckVM, duckVM_object_t **element, duckVM_object_t object) {
+	if (object.type == duckVM_object_type_list) {
+		*element = object.value.list;
+		return dl_error_ok;
+	}
+	return duckVM_allocateHeapObject(duckVM, element, object);
+}
+
 /* Set the first element of the sequence at the specified stack index to the value of the object at the top of the
    stack.
    This operation fails on nil, strings, and closures. */
@@ -6699,7 +6708,7 @@ dl_error_t duckVM_setFirst(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
-				e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+				e = allocateConsElement(duckVM, &value_pointer, value);
 				if (e) break;
 				list->value.cons.car = value_pointer;
 			}
@@ -6775,7 +6784,7 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
-				e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+				e = allocateConsElement(duckVM, &value_pointer, value);
 				if (e) break;
 				list->value.cons.cdr = value_pointer;
 			}
@@ -6952,7 +6961,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			if (e) break;
 			if (element_pointer) {
 				if (duckVM_object_type_cons == element_pointer->type) {
-					e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+					e = allocateConsElement(duckVM, &value_pointer, value);
 					if (e) break;
 					element_pointer->value.cons.car = value_pointer;
 				}
-- 
2.43.0


From 6be7de85bc51a439c366f438c258486228105611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 62/76] fix: a reset drops the captured variables of every
 frame

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 46b5049..26d54c7 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4956,7 +4956,9 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
-	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
+	e = dl_array_popElements(&duckVM->upvalue_array_call_stack,
+	                         dl_null,
+	                         duckVM->upvalue_array_call_stack.elements_length);
 	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
-- 
2.43.0


From 85f3c2a1996a5e08f703826e23bf479ae7315369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 63/76] fix: a call that fails leaves nothing of itself behind

---
 duckVM.c | 58 ++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 26d54c7..8ad351c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -610,6 +610,20 @@ static dl_error_t call_stack_pop(duckVM_t *duckVM, dl_uint8_t **ip, duckVM_objec
 	return e;
 }
 
+static dl_error_t call_stack_truncate(duckVM_t *duckVM, dl_size_t newLength) {
+	dl_error_t e = dl_error_ok;
+	if (duckVM->call_stack.elements_length > newLength) {
+		e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length - newLength);
+		if (e) return e;
+	}
+	if (duckVM->upvalue_array_call_stack.elements_length > newLength) {
+		e = dl_array_popElements(&duckVM->upvalue_array_call_stack,
+		                         dl_null,
+		                         duckVM->upvalue_array_call_stack.elements_length - newLength);
+	}
+	return e;
+}
+
 dl_error_t duckVM_global_get(const duckVM_t *duckVM, duckVM_object_t **global, const dl_ptrdiff_t key) {
 	DL_DOTIMES(index, duckVM->globals_map.elements_length) {
 		dl_ptrdiff_t currentKey = DL_ARRAY_GETADDRESS(duckVM->globals_map, dl_ptrdiff_t, index);
@@ -4844,13 +4858,17 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 dl_error_t duckVM_execute(duckVM_t *duckVM, dl_uint8_t *bytecode, dl_size_t bytecode_length) {
 	dl_error_t e = dl_error_ok;
 	dl_bool_t nested = (duckVM->currentBytecode != dl_null);
+	dl_size_t callStackLength = duckVM->call_stack.elements_length;
 	if (nested) {
 		/* The frame keeps the bytecode that called the C function alive. */
 		e = call_stack_push(duckVM, dl_null, duckVM->currentBytecode, dl_null);
 		if (e) goto cleanup;
 	}
 	e = duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
-	if (e) goto cleanup;
+	if (e) {
+		if (nested) (void) call_stack_truncate(duckVM, callStackLength);
+		goto cleanup;
+	}
 	if (nested) {
 		dl_uint8_t *ip = dl_null;
 		duckVM_object_t *bytecodeObject = dl_null;
@@ -4906,20 +4924,20 @@ dl_error_t duckVM_object_pop(duckVM_t *duckVM, duckVM_object_t *object) {
 	return stack_pop(duckVM, object);
 }
 
-/* Drop the whole stack. Closures may still refer to variables on it, so those are moved to the heap first. A variable
-   that there is no memory for is lost: using it is an error from then on. */
-static dl_error_t stack_clear(duckVM_t *duckVM) {
+/* Drop the stack down to the given length. Closures may still refer to variables on it, so those are moved to the heap
+   first. A variable that there is no memory for is lost: using it is an error from then on. */
+static dl_error_t stack_truncate(duckVM_t *duckVM, dl_size_t newLength) {
 	dl_error_t e = dl_error_ok;
 	/* Running out of memory can leave an object that has no entry in the upvalue stack. */
 	dl_size_t length = duckVM->upvalue_stack.elements_length;
 	if (length > duckVM->stack.elements_length) length = duckVM->stack.elements_length;
 	/* Only the variables that have to be kept may keep memory in use. */
-	DL_DOTIMES(i, length) {
+	for (dl_ptrdiff_t i = newLength; (dl_size_t) i < length; i++) {
 		if (DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) == dl_null) {
 			DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i) = duckVM_object_makeList(dl_null);
 		}
 	}
-	DL_DOTIMES(i, length) {
+	for (dl_ptrdiff_t i = newLength; (dl_size_t) i < length; i++) {
 		duckVM_object_t *upvalue = DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i);
 		duckVM_object_t *heapObject = dl_null;
 		if (upvalue == dl_null) continue;
@@ -4937,13 +4955,20 @@ static dl_error_t stack_clear(duckVM_t *duckVM) {
 		DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) = dl_null;
 		DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i) = duckVM_object_makeList(dl_null);
 	}
-	e = dl_array_popElements(&duckVM->upvalue_stack, dl_null, duckVM->upvalue_stack.elements_length);
-	if (e) return e;
-	return dl_array_popElements(&duckVM->stack, dl_null, duckVM->stack.elements_length);
+	if (duckVM->upvalue_stack.elements_length > newLength) {
+		e = dl_array_popElements(&duckVM->upvalue_stack,
+		                         dl_null,
+		                         duckVM->upvalue_stack.elements_length - newLength);
+		if (e) return e;
+	}
+	if (duckVM->stack.elements_length > newLength) {
+		e = dl_array_popElements(&duckVM->stack, dl_null, duckVM->stack.elements_length - newLength);
+	}
+	return e;
 }
 
 dl_error_t duckVM_popAll(duckVM_t *duckVM) {
-	return stack_clear(duckVM);
+	return stack_truncate(duckVM, 0);
 }
 
 dl_error_t duckVM_object_push(duckVM_t *duckVM, duckVM_object_t *object) {
@@ -4962,7 +4987,7 @@ dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
-	e = stack_clear(duckVM);
+	e = stack_truncate(duckVM, 0);
 	if (e) goto cleanup;
  cleanup:
 	if (e) {
@@ -5785,10 +5810,13 @@ dl_error_t duckVM_typeOf(duckVM_t *duckVM, duckVM_object_type_t *type) {
 	return e;
 }
 
-/* Call the object at the given index as a function. */
+/* Call the object at the given index as a function. If the call fails, only the arguments are gone from the stack. */
 dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t numberOfArgs) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
+	dl_size_t callStackLength = duckVM->call_stack.elements_length;
+	dl_size_t stackLength = duckVM->stack.elements_length;
+	if (stackLength < numberOfArgs) return dl_error_bufferUnderflow;
 	do {
 
 		duckVM_object_t functionObject;
@@ -5836,6 +5864,12 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		}
 
 	} while (0);
+	if (e) {
+		eError = call_stack_truncate(duckVM, callStackLength);
+		if (!e) e = eError;
+		eError = stack_truncate(duckVM, stackLength - numberOfArgs);
+		if (!e) e = eError;
+	}
 	return e;
 }
 
-- 
2.43.0


From 0532c06cf941139fcb1fa337edac45c47da8a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 64/76] fix: popping a variable keeps it for the closures that
 captured it

---
 duckVM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8ad351c..35e7a36 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5777,12 +5777,14 @@ dl_error_t duckVM_push(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 
 /* Pop an object off of the stack. */
 dl_error_t duckVM_pop(duckVM_t *duckVM) {
-	return stack_pop(duckVM, dl_null);
+	if (duckVM->stack.elements_length < 1) return dl_error_bufferUnderflow;
+	return stack_truncate(duckVM, duckVM->stack.elements_length - 1);
 }
 
 /* Pop the specified number of objects off of the stack. */
 dl_error_t duckVM_popSeveral(duckVM_t *duckVM, dl_size_t number_to_pop) {
-	return stack_pop_multiple(duckVM, number_to_pop);
+	if (duckVM->stack.elements_length < number_to_pop) return dl_error_bufferUnderflow;
+	return stack_truncate(duckVM, duckVM->stack.elements_length - number_to_pop);
 }
 
 /* Copy a stack object from the top to the specified position, overwriting the destination object. */
-- 
2.43.0


From be6d5e1b49451681fd886daed5ac71fedb114db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 65/76] fix: calling a composite that leads back to itself is
 an error

---
 duckVM.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 35e7a36..c398e3c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -679,6 +679,32 @@ dl_bool_t duckVM_listIsCyclic(duckVM_object_t *rootCons) {
 }
 
 
+/* Follow the function slots of composites until there is something else. */
+static dl_error_t composite_findFunction(duckVM_t *duckVM, duckVM_object_t *functionObject) {
+	dl_error_t e = dl_error_ok;
+	/* Composites can be linked to form a cycle. Compare each composite with an earlier one. */
+	duckVM_object_t *earlier = dl_null;
+	dl_size_t steps = 0;
+	dl_size_t limit = 1;
+	while (functionObject->type == duckVM_object_type_composite) {
+		duckVM_object_t *composite = functionObject->value.composite;
+		if (composite == earlier) {
+			dl_error_t eError = dl_error_ok;
+			e = dl_error_invalidValue;
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("composite_findFunction: Composite calls itself."));
+			if (!e) e = eError;
+			break;
+		}
+		steps++;
+		if (steps == limit) {
+			earlier = composite;
+			limit *= 2;
+		}
+		*functionObject = *composite->value.internalComposite.function;
+	}
+	return e;
+}
+
 static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
                                                        duckVM_object_t *functionObject,
                                                        dl_uint8_t numberOfArgs) {
@@ -687,9 +713,8 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 
 	do {
 		duckVM_object_t restListObject;
-		while (functionObject->type == duckVM_object_type_composite) {
-			*functionObject = *functionObject->value.composite->value.internalComposite.function;
-		}
+		e = composite_findFunction(duckVM, functionObject);
+		if (e) break;
 		if (functionObject->type == duckVM_object_type_function) {
 			break;
 		}
@@ -1478,9 +1503,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		uint8 = *(ip++);
 		e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 		if (e) break;
-		while (object1.type == duckVM_object_type_composite) {
-			object1 = *object1.value.composite->value.internalComposite.function;
-		}
+		e = composite_findFunction(duckVM, &object1);
+		if (e) break;
 		if ((object1.type != duckVM_object_type_closure) && (object1.type != duckVM_object_type_function)) {
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-- 
2.43.0


From a226513c6f092f4902fe55e6cf61c55f2aa2a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 66/76] fix: a symbol with an empty name has a name to copy

---
 duckVM.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index c398e3c..f37ca9f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6164,9 +6164,14 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		if (object.value.symbol.internalString != dl_null) {
 			e = duckVM_symbol_getInternalString(object.value.symbol, &internal_string);
 			if (e) break;
-			e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
-			if (e) break;
-			(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			if (internal_string.value_length) {
+				e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
+				if (e) break;
+				(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			}
+			else {
+				*name = dl_null;
+			}
 			*name_length = internal_string.value_length;
 		}
 		else {
-- 
2.43.0


From 4de0328d7ef757838fd91ea226e3a0a36ba40036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 67/76] fix: a macro call that expands to a local variable is
 the value of that variable

Nothing was pushed for it, so statements and arguments used whatever was on top of the stack.
---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index dff55d3..cbbca73 100644
--- a/generators.c
+++ b/generators.c
@@ -3709,7 +3709,7 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	                                        &ast,
 	                                        index,
 	                                        dl_null,
-	                                        dl_false);
+	                                        dl_true);
 	if (e) goto cleanupAST;
 
 	/* HACK: We can't pass a compound expression up, but we can replace an expression. This is so the noscope generator
-- 
2.43.0


From 74b23a7144fb004eee04deea57c4e615a5a772ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 68/76] fix: var, defun and noscope can be redefined as macros
 and functions

A macro named var that did not expand to an expression was followed by the declaration, and a function named var could
not be called.
---
 generators.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/generators.c b/generators.c
index cbbca73..a2826a4 100644
--- a/generators.c
+++ b/generators.c
@@ -946,6 +946,25 @@ dl_error_t duckLisp_generator_noscope(duckLisp_t *duckLisp,
 				                          .value.identifier.value_length),
 				                         DL_STR("noscope"));
 			}
+			if (foundVar || foundDefun || foundNoscope) {
+				/* These names may have been redefined. */
+				duckLisp_functionType_t functionType;
+				dl_ptrdiff_t functionIndex;
+				e = duckLisp_scope_getFunctionFromName(duckLisp,
+				                                       compileState->currentCompileState,
+				                                       &functionType,
+				                                       &functionIndex,
+				                                       (currentExpression.value.expression.compoundExpressions[0]
+				                                        .value.identifier.value),
+				                                       (currentExpression.value.expression.compoundExpressions[0]
+				                                        .value.identifier.value_length));
+				if (e) goto cleanup;
+				if (functionType != duckLisp_functionType_generator) {
+					foundVar = dl_false;
+					foundDefun = dl_false;
+					foundNoscope = dl_false;
+				}
+			}
 		}
 		/* Now, since `__var`, `__defun`, and `__noscope` are dummy generators, they have to be handled here. */
 		if (foundNoscope) e = duckLisp_generator_noscope2(duckLisp,
@@ -3719,6 +3738,13 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 		if (e) goto cleanupAST;
 		*expression = ast.value.expression;
 	}
+	else {
+		/* The call itself may look like one of those. */
+		e = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, expression);
+		if (e) goto cleanupAST;
+		expression->compoundExpressions = dl_null;
+		expression->compoundExpressions_length = 0;
+	}
 
  cleanupAST:
 
-- 
2.43.0


From 001b48a0ec65e6e9e2d8b2dc296ef54e6bb121dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 69/76] fix: a program that is a single form leaves its value,
 and nothing else, on the stack

(list 1 2 3) left six values, and (noscope 1 2) none.
---
 duckLisp.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index d937143..663ab26 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1250,26 +1250,15 @@ dl_error_t duckLisp_compileAST(duckLisp_t *duckLisp,
 
 	assembly = &compileState->currentCompileState->assembly;
 
-	e = duckLisp_compile_compoundExpression(duckLisp,
-	                                        compileState,
-	                                        assembly,
-	                                        DL_STR("compileAST"),
-	                                        &astCompoundexpression,
-	                                        dl_null,
-	                                        dl_null,
-	                                        dl_true);
-	if (e) goto cleanup;
-
-	if (duckLisp_localsLength_get(compileState) > 1) {
-		e = duckLisp_emit_move(duckLisp,
-		                       compileState,
-		                       assembly,
-		                       duckLisp_localsLength_get(compileState) - 2,
-		                       duckLisp_localsLength_get(compileState) - 1);
-		if (e) goto cleanup;
-		e = duckLisp_emit_pop(duckLisp, compileState, assembly, 1);
+	{
+		/* The program is the body of a scope. */
+		duckLisp_ast_expression_t body;
+		body.compoundExpressions = &astCompoundexpression;
+		body.compoundExpressions_length = 1;
+		e = duckLisp_generator_expression(duckLisp, compileState, assembly, &body);
 		if (e) goto cleanup;
 	}
+
 	e = duckLisp_emit_exit(duckLisp, compileState, assembly);
 	if (e) goto cleanup;
 
-- 
2.43.0


From f40b64454266bdb1e37ab0499bf243fb8c5a9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 70/76] fix: keep the syntax tree whole when a form in a body
 is refused

The bodies of functions, loops and conditionals are compiled from a copy of
their forms.  When one form had been replaced by its macro expansion and a
later one was refused, the copy was not written back, and the tree given back
to the caller still pointed to the freed form.
---
 generators.c | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/generators.c b/generators.c
index a2826a4..9dac788 100644
--- a/generators.c
+++ b/generators.c
@@ -1040,14 +1040,11 @@ dl_error_t duckLisp_generator_noscope2(duckLisp_t *duckLisp,
 	subExpression.compoundExpressions_length = expression->compoundExpressions_length - 1;
 
 	e = duckLisp_generator_noscope(duckLisp, compileState, assembly, &subExpression);
-	if (e) goto cleanup;
-
 	(void) dl_memcopy_noOverlap(&expression->compoundExpressions[1],
 	                            subExpression.compoundExpressions,
 	                            ((expression->compoundExpressions_length - 1)
 	                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
- cleanup:
 	eError = DL_FREE(duckLisp->memoryAllocation, &subExpression.compoundExpressions);
 	if (eError) e = eError;
 
@@ -1600,14 +1597,11 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, &bodyAssembly, &progn);
-			if (e) goto cleanupProgn;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup_gensym;
@@ -1941,16 +1935,16 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	var.compoundExpressions[2].value.expression = lambda;
 	{
 		e = duckLisp_generator_createVar_raw(duckLisp, compileState, assembly, &var);
-		if (e) goto cleanup;
 
 		for (dl_ptrdiff_t i = 2; (dl_size_t) i < expression->compoundExpressions_length; i++) {
 			expression->compoundExpressions[i] = lambda.compoundExpressions[i - 1];
 		}
 		expression->compoundExpressions[1] = var.compoundExpressions[1];
 
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
-		if (e) goto cleanup;
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
+		if (eError) e = eError;
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		if (eError) e = eError;
 		if (e) goto cleanup;
 
 		/* HACK */
@@ -2207,14 +2201,11 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn1;
-
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-			cleanupProgn1:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_start;
@@ -2285,14 +2276,11 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn2;
-
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-			cleanupProgn2:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_end;
@@ -2457,14 +2445,11 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2505,14 +2490,11 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
@@ -2639,14 +2621,11 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2697,14 +2676,11 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
-- 
2.43.0


From 2e1d70cd3ede4549f7b7586246c7023d05b48b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 71/76] fix: keep what read returns safe from the garbage
 collector

The objects made from a syntax tree were held in C variables only while more
were allocated, so a collection in between freed parts of the result.
---
 duckLisp.c | 117 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 45 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 663ab26..d768193 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -821,10 +821,8 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 	return e;
 }
 
-dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
-                                duckVM_t *duckVM,
-                                duckVM_object_t *object,
-                                duckLisp_ast_compoundExpression_t ast) {
+/* Convert the AST to an object on top of the VM's stack, where the garbage collector can see it. */
+static dl_error_t pushAST(duckLisp_t *duckLisp, duckVM_t *duckVM, duckLisp_ast_compoundExpression_t ast) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
@@ -832,26 +830,37 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 	case duckLisp_ast_type_expression:
 		/* Fall through */
 	case duckLisp_ast_type_literalExpression: {
-		duckVM_object_t *tailPointer = dl_null;
+		e = duckVM_pushNil(duckVM);
+		if (e) break;
 		DL_DOTIMES(j, ast.value.expression.compoundExpressions_length) {
-			duckVM_object_t head;
-			e = duckLisp_astToObject(duckLisp,
-			                         duckVM,
-			                         &head,
-			                         (ast.value.expression.compoundExpressions
-			                          [ast.value.expression.compoundExpressions_length
-			                           - 1
-			                           - j]));
+			/* stack: tail */
+			e = duckVM_pushCons(duckVM);
+			if (e) break;
+			e = duckVM_push(duckVM, -2);
+			if (e) break;
+			/* stack: tail (()) tail */
+			e = duckVM_setRest(duckVM, -2);
+			if (e) break;
+			e = duckVM_pop(duckVM);
+			if (e) break;
+			e = pushAST(duckLisp,
+			            duckVM,
+			            (ast.value.expression.compoundExpressions
+			             [ast.value.expression.compoundExpressions_length
+			              - 1
+			              - j]));
 			if (e) break;
-			duckVM_object_t *headPointer;
-			e = duckVM_allocateHeapObject(duckVM, &headPointer, head);
+			/* stack: tail (() . tail) head */
+			e = duckVM_setFirst(duckVM, -2);
 			if (e) break;
-			duckVM_object_t tail = duckVM_object_makeCons(headPointer, tailPointer);
-			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			e = duckVM_pop(duckVM);
 			if (e) break;
+			e = duckVM_copyFromTop(duckVM, -2);
+			if (e) break;
+			e = duckVM_pop(duckVM);
+			if (e) break;
+			/* stack: (head . tail) */
 		}
-		object->type = duckVM_object_type_list;
-		object->value.list = tailPointer;
 		break;
 	}
 	case duckLisp_ast_type_identifier:
@@ -863,35 +872,47 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 		dl_size_t id = duckLisp_symbol_nameToValue(duckLisp,
 		                                           ast.value.identifier.value,
 		                                           ast.value.identifier.value_length);
-		e = duckVM_object_makeSymbol(duckVM, object, id, ast.value.identifier.value, ast.value.identifier.value_length);
-		if (e) break;
+		e = duckVM_pushSymbol(duckVM, id, ast.value.identifier.value, ast.value.identifier.value_length);
 		break;
 	}
-	case duckLisp_ast_type_string: {
-		e = duckVM_object_makeString(duckVM,
-		                             object,
-		                             (dl_uint8_t *) ast.value.string.value,
-		                             ast.value.string.value_length);
-		if (e) break;
+	case duckLisp_ast_type_string:
+		e = duckVM_pushString(duckVM, (dl_uint8_t *) ast.value.string.value, ast.value.string.value_length);
 		break;
-	}
 	case duckLisp_ast_type_float:
-		object->type = duckVM_object_type_float;
-		object->value.floatingPoint = ast.value.floatingPoint.value;
+		e = duckVM_pushFloat(duckVM);
+		if (e) break;
+		e = duckVM_setFloat(duckVM, ast.value.floatingPoint.value);
 		break;
 	case duckLisp_ast_type_int:
-		object->type = duckVM_object_type_integer;
-		object->value.integer = ast.value.integer.value;
+		e = duckVM_pushInteger(duckVM);
+		if (e) break;
+		e = duckVM_setInteger(duckVM, ast.value.integer.value);
 		break;
 	case duckLisp_ast_type_bool:
-		object->type = duckVM_object_type_bool;
-		object->value.boolean = ast.value.boolean.value;
+		e = duckVM_pushBoolean(duckVM);
+		if (e) break;
+		e = duckVM_setBoolean(duckVM, ast.value.boolean.value);
 		break;
 	default:
 		e = dl_error_invalidValue;
 		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("duckLisp_astToObject: Illegal AST type."));
 		if (eError) e = eError;
 	}
+
+	return e;
+}
+
+dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
+                                duckVM_t *duckVM,
+                                duckVM_object_t *object,
+                                duckLisp_ast_compoundExpression_t ast) {
+	dl_error_t e = dl_error_ok;
+
+	e = pushAST(duckLisp, duckVM, ast);
+	if (e) goto cleanup;
+	e = dl_array_getTop(&duckVM->stack, object);
+	if (e) goto cleanup;
+	e = duckVM_pop(duckVM);
 	if (e) goto cleanup;
 
  cleanup: return e;
@@ -1524,7 +1545,6 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
 
-		duckVM_object_t astObject;
 		dl_error_t status;
 		{
 			duckLisp_ast_compoundExpression_t ast;
@@ -1545,11 +1565,12 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 			if (e) {
 				status = e;
 				e = dl_error_ok;
-				astObject = duckVM_object_makeList(dl_null);
+				e = duckVM_pushNil(duckVM);
+				if (e) goto cleanupAst;
 			}
 			else {
 				status = 0;
-				e = duckLisp_astToObject(duckLisp, duckVM, &astObject, ast);
+				e = pushAST(duckLisp, duckVM, ast);
 				if (e) goto cleanupAst;
 			}
 
@@ -1559,27 +1580,33 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 			if (e) goto cleanupString;
 		}
 
+		/* stack: ast */
 		e = duckVM_pushCons(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) */
+		/* stack: ast (()) */
 		e = duckVM_pushInteger(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) 0 */
+		/* stack: ast (()) 0 */
 		e = duckVM_setInteger(duckVM, status);
 		if (e) goto cleanupString;
-		/* stack: (()) status */
+		/* stack: ast (()) status */
 		e = duckVM_setRest(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) status */
+		/* stack: ast (() . status) status */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (() . status) */
-		e = duckVM_object_push(duckVM, &astObject);
+		/* stack: ast (() . status) */
+		e = duckVM_push(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) ast */
+		/* stack: ast (() . status) ast */
 		e = duckVM_setFirst(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (ast . status) ast */
+		/* stack: ast (ast . status) ast */
+		e = duckVM_pop(duckVM);
+		if (e) goto cleanupString;
+		/* stack: ast (ast . status) */
+		e = duckVM_copyFromTop(duckVM, -2);
+		if (e) goto cleanupString;
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
 		/* stack: (ast . status) */
-- 
2.43.0


From 84d77a305a988e37e5710533cd8f98201919d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 72/76] fix: intern and read accept the empty string, and
 report their errors

With DuckLib's allocator the empty string isn't allocated, and freeing it
failed; intern then lost every error it had met before.
---
 duckLisp.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index d768193..1c69484 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -209,9 +209,12 @@ dl_error_t duckLisp_symbol_create(duckLisp_t *duckLisp, const dl_uint8_t *name,
 		                   duckLisp->symbols_array.elements_length);
 		if (e) goto l_cleanup;
 		tempIdentifier.value_length = name_length;
-		e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
-		if (e) goto l_cleanup;
-		/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
+		tempIdentifier.value = dl_null;
+		if (name_length > 0) {
+			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
+			if (e) goto l_cleanup;
+			/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
+		}
 		e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
 		if (e) goto l_cleanup;
 	}
@@ -1482,7 +1485,11 @@ dl_error_t duckLisp_callback_intern(duckVM_t *duckVM) {
 		if (e) goto cleanupString;
 
 	cleanupString:
-		e = DL_FREE(duckVM->memoryAllocation, &string);
+		/* The empty string isn't allocated. */
+		if (string) {
+			eError = DL_FREE(duckVM->memoryAllocation, &string);
+			if (eError) e = eError;
+		}
 		if (e) goto cleanup;
 	}
 
@@ -1612,8 +1619,11 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 		/* stack: (ast . status) */
 
 	cleanupString:
-		eError = DL_FREE(duckVM->memoryAllocation, &string);
-		if (eError) e = eError;
+		/* The empty string isn't allocated. */
+		if (string) {
+			eError = DL_FREE(duckVM->memoryAllocation, &string);
+			if (eError) e = eError;
+		}
 		if (e) goto cleanup;
 	}
 
-- 
2.43.0


From df416f8e8dfccbb4f2b5f054fcdc79e55d8ef9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 73/76] fix: a symbol computed at compile time is that symbol

The value of a comptime form that was a symbol, alone or in a list, was compiled
as the variable of that name.
---
 duckLisp.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 1c69484..2d27e24 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -792,6 +792,26 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		}
 		break;
 	case duckVM_object_type_symbol:
+		if (!useExprs) {
+			/* The value is a symbol, not what a variable of that name holds: (quote symbol) */
+			duckLisp_ast_compoundExpression_t *expressions = dl_null;
+			e = dl_malloc(duckLisp->memoryAllocation, (void **) &expressions, 2 * sizeof(duckLisp_ast_compoundExpression_t));
+			if (e) break;
+			/**/ duckLisp_ast_compoundExpression_init(&expressions[0]);
+			/**/ duckLisp_ast_compoundExpression_init(&expressions[1]);
+			ast->value.expression.compoundExpressions = expressions;
+			ast->value.expression.compoundExpressions_length = 2;
+			ast->type = duckLisp_ast_type_expression;
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &expressions[0].value.identifier.value,
+			              sizeof("__quote") - 1);
+			if (e) break;
+			/**/ dl_memcopy_noOverlap(expressions[0].value.identifier.value, DL_STR("__quote"));
+			expressions[0].value.identifier.value_length = sizeof("__quote") - 1;
+			expressions[0].type = duckLisp_ast_type_identifier;
+			e = duckLisp_objectToAST(duckLisp, &expressions[1], object, dl_true);
+			break;
+		}
 		ast->value.identifier.value_length = object->value.symbol.internalString->value.internalString.value_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &ast->value.identifier.value,
-- 
2.43.0


From 79b47472b11e431d46235fcba6471b984c112772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 74/76] fix: a nested argument type is an error and not an
 endless loop

Using a name declared with a nested type reported the error and went on; with a variadic nested type the loop never ended.
---
 parenthesis-inferrer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index 0a4102b..f67cc51 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1199,6 +1199,7 @@ static dl_error_t inferIncrementally(inferrerState_t *state,
 				e = dl_error_invalidValue;
 				eError = duckLisp_error_pushInference(state, DL_STR("Nested expression types are not yet supported."));
 				if (eError) e = eError;
+				goto cleanup;
 			}
 		}
 		else {
@@ -1243,6 +1244,7 @@ static dl_error_t inferIncrementally(inferrerState_t *state,
 						eError = duckLisp_error_pushInference(state,
 						                                      DL_STR("Nested expression types are not yet supported."));
 						if (eError) e = eError;
+						goto cleanup;
 					}
 				}
 			}
-- 
2.43.0


From fa7270cce0a0077cc314e04bd66999bf1bfc5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 75/76] fix: a bad type inside a nested type is an error and
 not a double free

---
 parenthesis-inferrer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index f67cc51..ebd9429 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -701,6 +701,8 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+	(void) inferrerTypeSignature_init(inferrerTypeSignature);
+
 	switch (compoundExpression.type) {
 	case duckLisp_ast_type_identifier:
 		/* Fall through */
@@ -766,6 +768,7 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 				              inferrerTypeSignature_t);
 				if (e) goto expressionCleanup;
 				*inferrerTypeSignature->value.expression.restSignature = subInferrerTypeSignature;
+				(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 				continue;
 			}
 			if ((expression.compoundExpressions[j].type == duckLisp_ast_type_identifier)
@@ -799,6 +802,8 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 			if (e) goto expressionCleanup;
 			e = dl_array_pushElement(&subInferrerTypeSignaturesArray, &subInferrerTypeSignature);
 			if (e) goto expressionCleanup;
+			/* The array owns it now. */
+			(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 		}
 
 		inferrerTypeSignature->type = inferrerTypeSignature_type_expression;
@@ -808,6 +813,13 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 		inferrerTypeSignature->value.expression.variadic = variadic;
 		expressionCleanup:
 		if (e) {
+			DL_DOTIMES(j, subInferrerTypeSignaturesArray.elements_length) {
+				eError = inferrerTypeSignature_quit(&DL_ARRAY_GETADDRESS(subInferrerTypeSignaturesArray,
+				                                                         inferrerTypeSignature_t,
+				                                                         j),
+				                                    state->memoryAllocation);
+				if (eError) e = eError;
+			}
 			eError = dl_array_quit(&subInferrerTypeSignaturesArray);
 			if (eError) e = eError;
 			eError = inferrerTypeSignature_quit(&subInferrerTypeSignature, state->memoryAllocation);
-- 
2.43.0


From ddc5cfbe6f7dce7cb84d0af8968b4c5f7fcdada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 76/76] fix: symbol-string of a symbol without a name is the
 empty string

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index f37ca9f..252dfbf 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4378,7 +4378,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-		object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		/* A compressed symbol has no name. */
+		object2.value.string.length = (object1.value.symbol.internalString
+		                               ? object1.value.symbol.internalString->value.internalString.value_length
+		                               : 0);
 		e = stack_push(duckVM, &object2);
 		if (e) break;
 		break;
-- 
2.43.0

