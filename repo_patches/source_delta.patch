From 1b90c09b2a9255a70198d5c90b385d0ed3619f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 01/34] fix: lexer no longer stops at a NUL byte in the source

---
 schema/ridl/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..555c001 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -5,7 +5,7 @@ import (
 )
 
 var (
-	empty = rune(0)
+	empty = rune(-1) // end of input, not a character of the source
 )
 
 var (
@@ -175,6 +175,9 @@ func isEmpty(r rune) bool {
 }
 
 func isWordBreak(r rune) bool {
+	if isEmpty(r) {
+		return true
+	}
 	for i := range wordBreak {
 		if r == wordBreak[i] {
 			return true
-- 
2.43.0


From d403ad316185208712625af40357b76d433aafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 02/34] fix: tree shaking follows aliases and stops at
 recursive types

---
 schema/schema.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..e8a75ef 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -185,6 +185,7 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 
 	// Helper: recursively walk VarType and mark used type names, including nested struct fields and map/list elements.
 	var walkVarType func(vt *VarType, mark map[string]bool)
+	var markNamed func(t *Type, mark map[string]bool)
 	walkVarType = func(vt *VarType, mark map[string]bool) {
 		if vt == nil {
 			return
@@ -204,6 +205,10 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
+			// Already visited, ie. recursive types
+			if mark[t.Name] {
+				return
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
@@ -215,10 +220,26 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 
 		// Enum type: mark usage
 		if vt.Enum != nil && vt.Enum.Type != nil {
-			t := vt.Enum.Type
-			if t.Name != "" {
-				mark[t.Name] = true
-			}
+			markNamed(vt.Enum.Type, mark)
+		}
+
+		// Alias type: mark usage
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			markNamed(vt.Alias.Type, mark)
+		}
+	}
+
+	// Helper: mark an enum or alias, and traverse the type behind an alias. Note,
+	// a map key may refer to an enum through its alias.
+	markNamed = func(t *Type, mark map[string]bool) {
+		if mark[t.Name] {
+			return
+		}
+		if t.Name != "" {
+			mark[t.Name] = true
+		}
+		if t.Kind == TypeKind_Alias {
+			walkVarType(t.Type, mark)
 		}
 	}
 
-- 
2.43.0


From ddf6de75d0926df82968a8f0eb2f4a105fd28ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 03/34] fix: bigint fields of mutually recursive structs are
 all reported

---
 schema/helpers.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..2e788f4 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -108,24 +108,29 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 // the names Args and Return for suffixes instead of Request and Resposne suffixes for implicit method types.
 func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
 	out := make(map[string][]any)
-	// cache for recursive detection to avoid cycles
+	// structs visited while looking through a single struct, to avoid cycles
 	visited := make(map[string]bool)
+	// structs known to have a bigint; note, "no bigint" found in the middle of
+	// a cycle says nothing about the struct on its own, so we don't keep it
 	memo := make(map[string]bool)
 
 	var structHasBigIntRecursive func(t *Type) bool
+	structHasBigInt := func(t *Type) bool {
+		clear(visited)
+		return structHasBigIntRecursive(t)
+	}
 	structHasBigIntRecursive = func(t *Type) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
 		name := t.Name
-		if v, ok := memo[name]; ok {
-			return v
+		if memo[name] {
+			return true
 		}
 		if visited[name] { // cycle guard
 			return false
 		}
 		visited[name] = true
-		defer func() { visited[name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -152,7 +157,6 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 				return true
 			}
 		}
-		memo[name] = false
 		return false
 	}
 
@@ -174,12 +178,12 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 				continue
 			}
 			// nested struct containing (directly or transitively) bigint
-			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
+			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigInt(f.Type.Struct.Type) {
 				list = append(list, [2]string{string(f.Name), f.Type.Struct.Name})
 				continue
 			}
 			// list of nested struct containing bigint
-			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
+			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigInt(f.Type.List.Elem.Struct.Type) {
 				list = append(list, [2]string{string(f.Name), f.Type.List.Elem.Struct.Name + "[]"})
 				continue
 			}
@@ -230,11 +234,11 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 					reqList = append(reqList, string(arg.Name)+"[]")
 					continue
 				}
-				if vt.Type == T_Struct && vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) { // nested struct
+				if vt.Type == T_Struct && vt.Struct != nil && structHasBigInt(vt.Struct.Type) { // nested struct
 					reqList = append(reqList, [2]string{string(arg.Name), vt.Struct.Name})
 					continue
 				}
-				if vt.Type == T_List && vt.List != nil && vt.List.Elem.Type == T_Struct && vt.List.Elem.Struct != nil && structHasBigIntRecursive(vt.List.Elem.Struct.Type) { // list of nested struct
+				if vt.Type == T_List && vt.List != nil && vt.List.Elem.Type == T_Struct && vt.List.Elem.Struct != nil && structHasBigInt(vt.List.Elem.Struct.Type) { // list of nested struct
 					reqList = append(reqList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})
 					continue
 				}
@@ -266,12 +270,12 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 					continue
 				}
 				// nested struct
-				if vt.Type == T_Struct && vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) {
+				if vt.Type == T_Struct && vt.Struct != nil && structHasBigInt(vt.Struct.Type) {
 					respList = append(respList, [2]string{string(arg.Name), vt.Struct.Name})
 					continue
 				}
 				// list of nested struct
-				if vt.Type == T_List && vt.List != nil && vt.List.Elem.Type == T_Struct && vt.List.Elem.Struct != nil && structHasBigIntRecursive(vt.List.Elem.Struct.Type) {
+				if vt.Type == T_List && vt.List != nil && vt.List.Elem.Type == T_Struct && vt.List.Elem.Struct != nil && structHasBigInt(vt.List.Elem.Struct.Type) {
 					respList = append(respList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})
 					continue
 				}
-- 
2.43.0


From f99b80366d564e39bbe49d28440d86ec931331a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 04/34] fix: map keys are resolved by exact name and may not be
 structs

---
 schema/ridl/ridl.go |  1 +
 schema/var_type.go  | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..b44a5b3 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -205,6 +205,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 		s.Types = append(s.Types, &schema.Type{
 			Kind:     schemaTypeKindAlias,
 			Name:     line.Name().String(),
+			Type:     &schema.VarType{Expr: line.TypeName().String()}, // resolved below
 			Comments: parseComment(line.Comments()),
 		})
 	}
diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..92ecc9c 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -138,8 +138,8 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 				Value: &VarType{},
 			}
 		} else {
-			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			t, ok := getType(schema, key)
+			if !ok || !isEnumOrEnumAlias(schema, t) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
@@ -264,6 +264,17 @@ func getType(schema *WebRPCSchema, structExpr string) (*Type, bool) {
 	return nil, false
 }
 
+// isEnumOrEnumAlias reports whether t is an enum, or an alias of one. Note, the
+// alias may be not resolved yet, so we look at its expr.
+func isEnumOrEnumAlias(schema *WebRPCSchema, t *Type) bool {
+	if t.Kind == TypeKind_Alias && t.Type != nil {
+		if t, _ = getType(schema, t.Type.Expr); t == nil {
+			return false
+		}
+	}
+	return t.Kind == TypeKind_Enum
+}
+
 var VarKeyCoreTypes = []CoreType{
 	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,
 }
-- 
2.43.0


From c1d9f1adb07ecf0adca5da7cb32810d4def4e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 05/34] fix: list element and map value types cannot be empty

---
 schema/var_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 92ecc9c..24f9350 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -90,7 +90,7 @@ type VarAliasType struct {
 
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 	if expr == "" {
-		return nil
+		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	vt.Expr = expr
 
-- 
2.43.0


From c642c397c1d64b8b9218bd0ab6bd5d8c54259f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 06/34] fix: underlying types of aliases are resolved and
 validated

---
 schema/type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 9c01264..f4d08b0 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -62,12 +62,12 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		return fmt.Errorf("schema error: type must be one of 'enum', 'struct', or 'alias' for '%s'", typName)
 	}
 
-	// For aliases, validate the underlying type is set and return early
+	// For aliases, parse+validate the underlying type and return early
 	if t.Kind == TypeKind_Alias {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
-- 
2.43.0


From 7f33adb59c920a219549c35ed4ba19f57ab42ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 07/34] fix: null elements in a JSON schema are rejected

---
 schema/parser.go   |  4 ++++
 schema/schema.go   | 16 ++++++++++++++++
 schema/service.go  |  9 +++++++++
 schema/type.go     |  3 +++
 schema/var_type.go |  2 +-
 5 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 732159f..4234f1a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"encoding/json"
+	"fmt"
 	"regexp"
 )
 
@@ -15,6 +16,9 @@ func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {
 	if err != nil {
 		return nil, err
 	}
+	if schema == nil {
+		return nil, fmt.Errorf("schema error: schema cannot be null")
+	}
 
 	err = schema.Validate()
 	if err != nil {
diff --git a/schema/schema.go b/schema/schema.go
index e8a75ef..4ea5ec4 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -66,6 +66,22 @@ func (s *WebRPCSchema) Validate() error {
 		}
 	}
 
+	for _, t := range s.Types {
+		if t == nil {
+			return fmt.Errorf("schema error: type cannot be null")
+		}
+	}
+	for _, e := range s.Errors {
+		if e == nil {
+			return fmt.Errorf("schema error: error cannot be null")
+		}
+	}
+	for _, svc := range s.Services {
+		if svc == nil {
+			return fmt.Errorf("schema error: service cannot be null")
+		}
+	}
+
 	for i := range s.Types {
 		err := s.Types[i].Parse(s)
 		if err != nil {
diff --git a/schema/service.go b/schema/service.go
index 03907e3..f8ef3d6 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -73,6 +73,9 @@ func (s *Service) Parse(schema *WebRPCSchema) error {
 	// Verify method names and ensure we don't have any duplicate method names
 	methodList := map[string]string{}
 	for _, method := range s.Methods {
+		if method == nil {
+			return fmt.Errorf("schema error: method cannot be null in service '%s'", serviceName)
+		}
 		if string(method.Name) == "" {
 			return fmt.Errorf("schema error: detected empty method name in service '%s", serviceName)
 		}
@@ -109,6 +112,9 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, input := range m.Inputs {
+		if input == nil {
+			return fmt.Errorf("schema error: input argument cannot be null for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		input.InputArg = true // back-ref
 		if input.Name == "" {
 			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
@@ -124,6 +130,9 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		return fmt.Errorf("schema error: detected multiple output arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, output := range m.Outputs {
+		if output == nil {
+			return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		output.OutputArg = true // back-ref
 		if output.Name == "" {
 			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
diff --git a/schema/type.go b/schema/type.go
index f4d08b0..0ae8567 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -75,6 +75,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 	fieldList := map[string]string{}
 	jsonFieldList := map[string]string{}
 	for _, field := range t.Fields {
+		if field == nil {
+			return fmt.Errorf("schema error: field cannot be null in type '%s'", typName)
+		}
 		if string(field.Name) == "" {
 			return fmt.Errorf("schema error: detected empty field name in type '%s", typName)
 		}
diff --git a/schema/var_type.go b/schema/var_type.go
index 24f9350..2d1f9ba 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -53,7 +53,7 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-	if t.Expr == "" {
+	if t == nil || t.Expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	err := ParseVarTypeExpr(schema, t.Expr, t)
-- 
2.43.0


From 69268fa3194fbb69412c17a2f5cc84a3629d77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 08/34] fix: type expressions are exported and read as JSON
 strings

---
 schema/var_type.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 2d1f9ba..ebcedf2 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -1,6 +1,8 @@
 package schema
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -25,7 +27,13 @@ func (t *VarType) String() string {
 }
 
 func (t *VarType) MarshalJSON() ([]byte, error) {
-	return []byte(fmt.Sprintf("%q", t)), nil
+	buf := &bytes.Buffer{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(t.String()); err != nil {
+		return nil, err
+	}
+	return bytes.TrimSuffix(buf.Bytes(), []byte("\n")), nil
 }
 
 func (t *VarType) UnmarshalJSON(b []byte) error {
@@ -42,9 +50,10 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 		return fmt.Errorf("json error: string value is expected")
 	}
 
-	// trim string quotes from the json string
-	s = s[1:]
-	s = s[:len(s)-1]
+	// decode the json string, which may contain escapes
+	if err := json.Unmarshal(b, &s); err != nil {
+		return fmt.Errorf("json error: %w", err)
+	}
 
 	// set the expr from value
 	t.Expr = s
-- 
2.43.0


From 59a352d213a02ddb0002042d1f3348ec86a22b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 09/34] fix: import a service once when it is reached along
 several paths

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index b44a5b3..d9ed172 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From b5fa3817c38a4f3361b937e72ced525ba1e293eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 10/34] fix: accept an escape right after a word in a string

---
 schema/ridl/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..308cbe6 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -223,6 +223,13 @@ loop:
 			break loop
 		}
 
+		// the backslash of an escape may be the end of a word
+		if tok.tt == tokenWord && strings.HasSuffix(tok.val, `\`) {
+			tokens = append(tokens, tok)
+			tok = p.cursor()
+			p.next()
+		}
+
 		tokens = append(tokens, tok)
 	}
 
-- 
2.43.0


From 78ad8f07f4cc5adbd5653310de7420466e2ff4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 11/34] fix: keep characters outside ASCII in composed values

---
 schema/ridl/parser_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..75fc60d 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -54,7 +54,7 @@ func unescapeString(in string) (string, error) {
 				return "", errors.New("unexpected end after backslash")
 			}
 		} else {
-			out = out + string(c)
+			out = out + in[i:i+1]
 		}
 	}
 
-- 
2.43.0


From 52a659db4497ad447403c125ca58ac8077297882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 12/34] fix: keep the token after a quoted annotation value

---
 schema/ridl/service_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..20b2ca5 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -225,6 +225,8 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 			}
 
 			annotation.value = newTokenNode(annotationValue)
+			annotations = append(annotations, annotation)
+			continue
 		}
 
 		p.next()
-- 
2.43.0


From 49fb7aa33042c05c1d2f0997f4f9e419ee6cb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 13/34] fix: read comments as they are written

---
 schema/ridl/tokenizer.go | 51 ++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..d8cedfc 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -17,31 +17,56 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 	parsingComment := false
 	commentTokens := []string{}
 
+	parsingString := false
+	escaped := false
+
 	for tok := range lx.tokens {
 		if tok.tt == tokenEOF {
 			break
 		}
 
-		// start parsing comment tokens until new line
-		if tok.tt == tokenHash {
-			parsingComment = true
-			tokens = append(tokens, tok)
-			continue
-		}
+		switch {
+		case tok.tt == tokenNewLine:
+			if parsingComment {
+				lineComments[tok.line] = strings.Join(commentTokens, " ")
+				commentTokens = []string{}
+			}
+			parsingComment = false
+			parsingString = false
+			escaped = false
 
-		if parsingComment && tok.tt != tokenNewLine && tok.tt != tokenWhitespace {
-			commentTokens = parseCommentToken(tok, tokens, commentTokens)
-		}
+		case parsingComment:
+			// a hash is part of the comment unless it is one of those that start it
+			if tok.tt == tokenHash && tokens[len(tokens)-1].tt == tokenHash && len(commentTokens) == 0 {
+				break
+			}
+			if tok.tt != tokenWhitespace {
+				commentTokens = parseCommentToken(tok, tokens, commentTokens)
+			}
 
-		if tok.tt == tokenNewLine && parsingComment {
-			lineComments[tok.line] = strings.Join(commentTokens, " ")
-			commentTokens = []string{}
-			parsingComment = false
+		case parsingString:
+			// a hash does not start a comment in a string
+			if tok.tt == tokenQuote && !escaped {
+				parsingString = false
+			}
+			escaped = !escaped && strings.HasSuffix(tok.val, `\`)
+
+		case tok.tt == tokenQuote:
+			parsingString = true
+
+		case tok.tt == tokenHash:
+			// start parsing comment tokens until new line
+			parsingComment = true
 		}
 
 		tokens = append(tokens, tok)
 	}
 
+	// comment on the last line, not terminated by new line
+	if parsingComment {
+		lineComments[tokens[len(tokens)-1].line] = strings.Join(commentTokens, " ")
+	}
+
 	return tokens, lineComments, nil
 }
 
-- 
2.43.0


From ee62ab4385ffc9d244fc039b3e93250f87651986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 14/34] fix: keep comments of errors, imports and meta fields
 to themselves

---
 schema/ridl/error_parser.go      | 2 ++
 schema/ridl/import_parser.go     | 6 ++++++
 schema/ridl/parser.go            | 6 ++++++
 schema/ridl/struct_parser.go     | 2 ++
 schema/ridl/type_alias_parser.go | 2 ++
 5 files changed, 18 insertions(+)

diff --git a/schema/ridl/error_parser.go b/schema/ridl/error_parser.go
index b96c782..d28cc50 100644
--- a/schema/ridl/error_parser.go
+++ b/schema/ridl/error_parser.go
@@ -20,6 +20,8 @@ func parserStateError(p *parser) parserState {
 		return p.stateError(fmt.Errorf("expecting error code to be a number but got '%s'", matches[2].val))
 	}
 
+	p.skipComment(matches[0].line)
+
 	return parserStateErrorMessage(&ErrorNode{
 		code: newTokenNode(matches[2]),
 		name: newTokenNode(matches[4]),
diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 933250a..1af9eb6 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -21,6 +21,8 @@ func parserStateImportMembers(p *parser, in *ImportNode) parserState {
 			return p.stateError(err)
 		}
 
+		p.skipComment(member.line)
+
 		in.members = append(in.members, newTokenNode(member))
 
 	case tokenHash:
@@ -57,6 +59,8 @@ func parserStateImportValue(p *parser) parserState {
 			return p.stateError(err)
 		}
 
+		p.skipComment(path.line)
+
 		p.emit(&ImportNode{
 			path:    newTokenNode(path),
 			members: []*TokenNode{},
@@ -100,6 +104,8 @@ func parserStateImport(p *parser) parserState {
 			return p.stateError(err)
 		}
 
+		p.skipComment(path.line)
+
 		importNode := &ImportNode{
 			path: newTokenNode(path),
 		}
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 308cbe6..898cee2 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -164,6 +164,12 @@ func (p *parser) stateError(err error) parserState {
 	return nil
 }
 
+// skipComment drops the comment on the given line, so it isn't taken for
+// a comment of the next line.
+func (p *parser) skipComment(line int) {
+	delete(p.comments, line)
+}
+
 func (p *parser) rewind(n int) bool {
 	if p.pos-n < 0 {
 		return false
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..5d1daae 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -29,6 +29,8 @@ func parserStateStructFieldMetaDefinition(mn *StructNode) parserState {
 			return p.stateError(err)
 		}
 
+		p.skipComment(left.line)
+
 		field.meta = append(field.meta, &DefinitionNode{
 			leftNode:  newTokenNode(left),
 			rightNode: newTokenNode(right),
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..6500722 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -23,6 +23,8 @@ func parserStateTypeAliasMetaDefinition(ta *TypeAliasNode) parserState {
 			return p.stateError(err)
 		}
 
+		p.skipComment(left.line)
+
 		ta.meta = append(ta.meta, &DefinitionNode{
 			leftNode:  newTokenNode(left),
 			rightNode: newTokenNode(right),
-- 
2.43.0


From ebc10edfe838404b9147be1213ea37384543f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 15/34] fix: read comments above and behind annotated methods

---
 schema/ridl/parser.go         | 12 ++++++++++++
 schema/ridl/service_parser.go |  8 ++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 898cee2..16ae5f4 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -534,6 +534,12 @@ func composedValue(tokens []*token) (*token, error) {
 }
 
 func parseComments(comments map[int]string, currentLine int) string {
+	return parseCommentsRange(comments, currentLine, currentLine)
+}
+
+// parseCommentsRange parses the comments of a declaration, which goes from
+// the first line to the current line.
+func parseCommentsRange(comments map[int]string, firstLine, currentLine int) string {
 	iteration := 0
 	c := []string{}
 
@@ -555,6 +561,12 @@ func parseComments(comments map[int]string, currentLine int) string {
 			}
 		}
 
+		// lines of the declaration itself don't separate it from its comments
+		if !ok && currentLine >= firstLine {
+			iteration = 1
+			continue
+		}
+
 		// if we already found a comment and there is one empty line we don't read more lines
 		if !ok && len(c) > 0 {
 			break
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 20b2ca5..d16a0d7 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -50,16 +50,16 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 			methodName = matches[1]
 		}
 
-		commentLine := matches[0].line
-		// we have to start parsing comments from the line of last annotation
+		// comments of the method are above its first annotation
+		firstLine := matches[0].line
 		if len(sn.methodAnnotations) > 0 {
-			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
+			firstLine = sn.methodAnnotations[0].AnnotationType().tok.line
 		}
 
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: parseCommentsRange(p.comments, firstLine, matches[0].line),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
-- 
2.43.0


From 8a25a687c05498fe2d25149547678c41058c5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 16/34] fix: reject error codes that are not 32-bit numbers

---
 schema/ridl/ridl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index d9ed172..7cf51a2 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -305,12 +305,18 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("error '%s': invalid code: %w", line.name.String(), err)
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
 		if line.httpStatus != nil {
-			httpStatus, _ := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			httpStatus, err := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			if err != nil {
+				return nil, fmt.Errorf("error '%s': invalid HTTP status: %w", line.name.String(), err)
+			}
 			errorType.HTTPStatus = int(httpStatus)
 		} else {
 			errorType.HTTPStatus = 400 // Default HTTP status code
-- 
2.43.0


From 767695ca684e19bbd20154f2d4af1796b15ea9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 17/34] fix: keep the token behind the succinct form of
 arguments

---
 schema/ridl/type_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..f7bce17 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -94,7 +94,6 @@ loop:
 					})
 
 					tokens = append(tokens, tok)
-					p.next()
 					break loop
 				}
 			}
-- 
2.43.0


From 0610016af9492ffb3c1443cc3070b4c1b9d8b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 18/34] fix: name the place of errors at the end of the file

---
 schema/ridl/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 16ae5f4..893e7e4 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -159,7 +159,13 @@ func (p *parser) expectOptionalCommentOrEOL() error {
 
 func (p *parser) stateError(err error) parserState {
 	cur := p.cursor()
-	err = fmt.Errorf("%d:%d: error near %q: %v", cur.line, cur.col, cur.val, err)
+	line, col := cur.line, cur.col
+	if cur == eofToken && p.length > 0 {
+		// the end of the file is behind the last token
+		last := p.tokens[p.length-1]
+		line, col = last.line, last.col
+	}
+	err = fmt.Errorf("%d:%d: error near %q: %v", line, col, cur.val, err)
 	p.emit(err)
 	return nil
 }
-- 
2.43.0


From bd538a3c27fd683690f2fb63270d05b52d69a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 19/34] fix: end annotations that do not parse with an error

---
 schema/ridl/service_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index d16a0d7..a066325 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -192,6 +192,9 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 	for {
 		annotationMatches, err := p.match(matcher...)
 		if err != nil {
+			if len(annotations) == 0 {
+				return nil, err
+			}
 			break
 		}
 
-- 
2.43.0


From 8150f38a954c7c19737ae90aca6fce0de424eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 20/34] fix: compare minor versions only within a major version

---
 gen/funcmap_flow.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index 1e41f20..d5cd861 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -42,15 +42,11 @@ func minVersion(version string, minVersion string) bool {
 		panic(fmt.Sprintf("minVersion: unexpected min version %q", minVersion))
 	}
 
-	if minMajor > major {
-		return false
-	}
-
-	if minMinor > minor {
-		return false
+	if major != minMajor {
+		return major > minMajor
 	}
 
-	return true
+	return minor >= minMinor
 }
 
 func parseMajorMinorVersion(version string) (major int, minor int, err error) {
-- 
2.43.0


From 27b64872115b5f691aa25ea8c2109816a3c30b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 21/34] fix: append to a copy of the array in templates

---
 gen/funcmap_generic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/funcmap_generic.go b/gen/funcmap_generic.go
index c03a4d3..fa14690 100644
--- a/gen/funcmap_generic.go
+++ b/gen/funcmap_generic.go
@@ -13,7 +13,8 @@ func array(elems ...interface{}) []interface{} {
 
 // Appends new elements to the existing slice.
 func appendFn(slice []interface{}, elems ...interface{}) []interface{} {
-	return append(slice, elems...)
+	// Copy, so that two slices appended to the same one never share elements.
+	return append(slice[:len(slice):len(slice)], elems...)
 }
 
 // Returns first element from given array.
-- 
2.43.0


From 33a0f4c7479381ba46c66669d476b6cf772cd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 22/34] fix: change the case of first letters that are not
 ASCII

---
 gen/funcmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap.go b/gen/funcmap.go
index 22f8e38..1bd890f 100644
--- a/gen/funcmap.go
+++ b/gen/funcmap.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/davecgh/go-spew/spew"
@@ -68,13 +69,15 @@ func templateFuncMap(opts map[string]interface{}) map[string]interface{} {
 			if input == "" {
 				return ""
 			}
-			return strings.ToLower(input[:1]) + input[1:]
+			_, size := utf8.DecodeRuneInString(input)
+			return strings.ToLower(input[:size]) + input[size:]
 		}),
 		"firstLetterToUpper": applyStringFunction("firstLetterToUpper", func(input string) string { // v0.7.0
 			if input == "" {
 				return ""
 			}
-			return strings.ToUpper(input[:1]) + input[1:]
+			_, size := utf8.DecodeRuneInString(input)
+			return strings.ToUpper(input[:size]) + input[size:]
 		}),
 		"firstWordToLower": applyStringFunction("firstWordToLower", func(input string) string { // v0.29.0
 			if input == "" {
-- 
2.43.0


From 6915e16f951ce0796a9540b83b9e70a7547981ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 23/34] fix: write dictionaries in the order of their keys

---
 gen/funcmap_string.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_string.go b/gen/funcmap_string.go
index 3e5d65a..cbf8fd4 100644
--- a/gen/funcmap_string.go
+++ b/gen/funcmap_string.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/webrpc/webrpc/schema"
@@ -23,9 +24,15 @@ func toString(v interface{}) string {
 	case string:
 		return t
 	case map[string]interface{}:
+		keys := make([]string, 0, len(t))
+		for k := range t {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+
 		var b strings.Builder
-		for k, v := range t {
-			b.WriteString(fmt.Sprintf("%v=%v\n", k, v))
+		for _, k := range keys {
+			b.WriteString(fmt.Sprintf("%v=%v\n", k, t[k]))
 		}
 		return b.String()
 	default:
-- 
2.43.0


From 39003139827b1e42b48391984cc5dcd85a5cc773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 24/34] fix: resolve the name and the git ref of a target
 separately

---
 gen/gen.go             | 25 +++++++++++++++++++------
 gen/template_source.go | 12 ++++++++----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/gen/gen.go b/gen/gen.go
index d3494a1..63c501f 100644
--- a/gen/gen.go
+++ b/gen/gen.go
@@ -103,12 +103,7 @@ func Generate(proto *schema.WebRPCSchema, target string, config *Config) (out *G
 	}
 	genOutput.TemplateSource = *tmplSource
 
-	v := strings.Split(tmplSource.TmplVersion, "/")
-	codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")
-
-	vars.CodeGen = v[len(v)-1]
-	vars.CodeGenVersion = codeGenVersion
-	vars.CodeGenName = codeGenName
+	vars.CodeGen, vars.CodeGenName, vars.CodeGenVersion = codeGenInfo(tmplSource)
 	vars.WebrpcHeader = webRPCGenHeader(vars)
 
 	// Generate the template
@@ -127,6 +122,24 @@ func Generate(proto *schema.WebRPCSchema, target string, config *Config) (out *G
 	return genOutput, nil
 }
 
+// codeGenInfo returns the last path element of the template source,
+// its name and its version.
+func codeGenInfo(s *TemplateSource) (codeGen string, name string, version string) {
+	path, ref := s.TmplVersion, ""
+	if !s.IsLocal {
+		// The ref of a git source can contain slashes, ie. "@heads/main".
+		if i := strings.Index(path, "@"); i >= 0 {
+			path, ref = path[:i], path[i:]
+		}
+	}
+
+	v := strings.Split(path, "/")
+	codeGen = v[len(v)-1] + ref
+	name, version, _ = strings.Cut(codeGen, "@")
+
+	return codeGen, name, version
+}
+
 func getWebrpcGenCommand() string {
 	cmd := filepath.Base(os.Args[0])
 	if len(os.Args) > 1 {
diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..df32e6c 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -237,12 +237,16 @@ func (s *TemplateSource) inferRemoteTarget(target string) string {
 		return target
 	}
 
-	// determine if a url is passed or just a gen-XXX name
-	parts := strings.Split(target, "/")
+	// determine if a url is passed or just a gen-XXX name; the git ref
+	// is case-sensitive and can contain slashes, ie. "@heads/main"
+	name, ref := target, ""
+	if i := strings.Index(target, "@"); i >= 0 {
+		name, ref = target[:i], target[i:]
+	}
 
 	// just a name, so by convention assume the default target of the webrpc org
-	if len(parts) == 1 {
-		return fmt.Sprintf("github.com/webrpc/gen-%s", strings.ToLower(target))
+	if !strings.Contains(name, "/") {
+		return fmt.Sprintf("github.com/webrpc/gen-%s%s", strings.ToLower(name), ref)
 	}
 
 	// accept the target as is
-- 
2.43.0


From c825f5ca6fbd265b09753ccd6fb7d860717f76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 25/34] fix: remove the timestamp before refreshing the
 template cache

---
 gen/template_source.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index df32e6c..ef9c12b 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -142,11 +142,18 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 }
 
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
+	if cacheDir == "" {
+		return fmt.Errorf("no directory for template cache")
+	}
+
+	// create empty cache directory; the timestamp marks a complete cache,
+	// so it's the first file to remove and the last one to write
+	timestampFile := filepath.Join(cacheDir, templateCacheTimestampFilename)
+	if err := os.Remove(timestampFile); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := os.RemoveAll(cacheDir); err != nil {
+		return err
 	}
 
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
@@ -182,7 +189,7 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 	now := time.Now()
 	data := []byte(fmt.Sprintf("%d", now.Unix()))
 
-	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)
+	err = os.WriteFile(timestampFile, data, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 16198e6d0cb41d7d4ff9ce8410b3498f008e8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 26/34] fix: resolve the underlying type of enums read from
 JSON

---
 schema/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/type.go b/schema/type.go
index 0ae8567..3d21d34 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -145,6 +145,11 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if !isValidVarType(fieldType.String(), validCoreTypes) {
 			return fmt.Errorf("schema error: enum '%s' field '%s' is invalid. must be an integer type", t.Name, fieldType.String())
 		}
+
+		// Resolve the type, as RIDL schemas have it resolved
+		if err := fieldType.Parse(schema); err != nil {
+			return err
+		}
 	}
 
 	// For structs only
-- 
2.43.0


From 6536635cf87c21ea251a57cbcee3e98ad1e0c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 27/34] fix: print the help of the target generator

---
 cmd/webrpc-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..8d69c99 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -268,9 +268,9 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
 			if err != nil {
-				fmt.Fprintln(os.Stderr, templateHelp.Code)
-			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
+			} else {
+				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			}
 		}
 	}
-- 
2.43.0


From 3f824c351f7321a88fd8c5a18a7883bb3b66ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:59 +0000
Subject: [PATCH 28/34] fix: reject a stray word after the arguments of a
 method

---
 schema/ridl/service_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index a066325..83395bc 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -106,7 +106,12 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 
 		// Check for optional errors clause
 		matches, err = p.match(tokenWhitespace, tokenWord)
-		if err == nil && matches[1].val == wordErrors {
+		if err == nil {
+			if matches[1].val != wordErrors {
+				p.rewind(1)
+				return p.stateError(errUnexpectedToken)
+			}
+
 			// Parse bar-separated list of error names
 			errorNames, err := p.expectErrorList()
 			if err != nil {
-- 
2.43.0


From 818b8382d362c646e056291945dc1936ff855bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:01 +0000
Subject: [PATCH 29/34] fix: reject 'stream' where it has no meaning

---
 schema/ridl/type_parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index f7bce17..58c1198 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -47,13 +47,6 @@ loop:
 func (p *parser) expectArgumentList() ([]*ArgumentNode, error) {
 	values := []*ArgumentNode{}
 
-	matches, err := p.match(tokenWord, tokenWhitespace)
-	if err == nil {
-		if matches[0].val != "stream" {
-			return nil, errUnexpectedToken
-		}
-	}
-
 	tok, err := p.match(tokenOpenParen)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2c3c2fd7f0c5a93e8d3919cdbe868ee57c49172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:03 +0000
Subject: [PATCH 30/34] fix: keep the token behind the colon of an annotation
 without a value

---
 schema/ridl/service_parser.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 83395bc..9d9b228 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -220,25 +220,22 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 
 		p.next()
 
+		switch p.cursor().tt {
 		// @acl:admin
-		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
+		case tokenWord:
 			annotation.value = newTokenNode(p.cursor())
-		}
+			p.next()
 
 		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+		case tokenQuote:
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
 			}
 
 			annotation.value = newTokenNode(annotationValue)
-			annotations = append(annotations, annotation)
-			continue
 		}
 
-		p.next()
-
 		annotations = append(annotations, annotation)
 	}
 
-- 
2.43.0


From ed7d8bd86464ffd1cf2591ae7e101b4ef5630d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 31/34] fix: reject text in front of a quoted value

---
 schema/ridl/import_parser.go | 4 ++++
 schema/ridl/parser.go        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 1af9eb6..4349979 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -129,6 +129,10 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
+
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 893e7e4..4030526 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -260,6 +260,10 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
+
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
-- 
2.43.0


From 9481e577abc8a61a851e553eed0f29558e26f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:04 +0000
Subject: [PATCH 32/34] fix: reject annotations that are not followed by a
 method

---
 schema/ridl/service_parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 9d9b228..a15acbd 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -1,6 +1,9 @@
 package ridl
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
 
 func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 	return func(p *parser) parserState {
@@ -152,6 +155,9 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 			return state
 
 		default:
+			if len(s.methodAnnotations) > 0 {
+				return p.stateError(errors.New("annotations must be followed by a method"))
+			}
 			p.emit(s)
 			return parserDefaultState
 
-- 
2.43.0


From 7dcc5710bf4235c185af43b3d9bd9d90cc1033b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:08 +0000
Subject: [PATCH 33/34] fix: validate the type of a struct and the fields of an
 alias

---
 schema/type.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 3d21d34..c4f5aa8 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -62,12 +62,14 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		return fmt.Errorf("schema error: type must be one of 'enum', 'struct', or 'alias' for '%s'", typName)
 	}
 
-	// For aliases, parse+validate the underlying type and return early
+	// For aliases, parse+validate the underlying type
 	if t.Kind == TypeKind_Alias {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return t.Type.Parse(schema)
+		if err := t.Type.Parse(schema); err != nil {
+			return err
+		}
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
@@ -152,8 +154,15 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		}
 	}
 
-	// For structs only
-	if t.Kind == TypeKind_Struct {
+	// Structs have no type, but if there is one, it must be valid
+	if t.Kind == TypeKind_Struct && t.Type != nil {
+		if err := t.Type.Parse(schema); err != nil {
+			return err
+		}
+	}
+
+	// For structs, and aliases if they happen to have fields
+	if t.Kind != TypeKind_Enum {
 		for _, field := range t.Fields {
 			// Parse+validate type fields
 			err := field.Type.Parse(schema)
-- 
2.43.0


From b99618f4c2dff211d5b6daaaf65ab29adef60261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:19 +0000
Subject: [PATCH 34/34] fix: reject null annotations

---
 schema/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/service.go b/schema/service.go
index f8ef3d6..0035629 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -107,6 +107,12 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 	m.Service = service // back-ref
 	serviceName := service.Name
 
+	for _, annotation := range m.Annotations {
+		if annotation == nil {
+			return fmt.Errorf("schema error: annotation cannot be null for method '%s' in service '%s'", m.Name, serviceName)
+		}
+	}
+
 	// Parse+validate inputs
 	if len(m.Inputs) > 1 && m.Succinct {
 		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
-- 
2.43.0

