From d1c80941999e241f9a26426e7ea6fb153996e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 01/34] fix: a NUL character does not end a RIDL document

The lexer took NUL for the end of the input and silently ignored the rest of
the file.
---
 schema/ridl/lexer.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..1f892d8 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -170,10 +170,6 @@ func isTokenType(tt tokenType) func(r rune) bool {
 	}
 }
 
-func isEmpty(r rune) bool {
-	return r == empty
-}
-
 func isWordBreak(r rune) bool {
 	for i := range wordBreak {
 		if r == wordBreak[i] {
@@ -325,12 +321,14 @@ func lexStateEqual(lx *lexer) lexState {
 }
 
 func lexDefaultState(lx *lexer) lexState {
+	// NUL characters are part of the input, only the end of it is the end.
+	if lx.pos >= lx.length {
+		return nil
+	}
+
 	r := lx.peek()
 
 	switch {
-	case isEmpty(r):
-		return nil
-
 	case isQuote(r):
 		return lexStateQuote
 
-- 
2.43.0


From 8f2c1d07ca79b8f31710a09042612e7b9c6a9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 02/34] fix: unescape quoted text by characters, not by bytes

---
 schema/ridl/parser_util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..b1285ba 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -31,16 +31,17 @@ func expectNumber(tok *token, value string) error {
 }
 
 func unescapeString(in string) (string, error) {
-	size := len(in)
+	runes := []rune(in)
+	size := len(runes)
 	out := ""
 
 	for i := 0; i < size; i++ {
-		c := in[i]
+		c := runes[i]
 
 		if c == '\\' {
 			i++
 			if i < size {
-				switch n := in[i]; n {
+				switch n := runes[i]; n {
 				case 'n':
 					out = out + "\n"
 				case 't':
-- 
2.43.0


From cd0d833a37bda38e7af4a30853c6679186156f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 03/34] fix: a map key is an enum, or an alias of one, by its
 declared name

A struct or a not yet resolved alias as a map key ended in a nil pointer
dereference, an alias of an enum was accepted or not depending on the order
of the declarations, and the name of the key was matched in any case.
---
 schema/ridl/ridl.go |  1 +
 schema/var_type.go  | 21 +++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..ef07f02 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -205,6 +205,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 		s.Types = append(s.Types, &schema.Type{
 			Kind:     schemaTypeKindAlias,
 			Name:     line.Name().String(),
+			Type:     &schema.VarType{Expr: line.TypeName().String()},
 			Comments: parseComment(line.Comments()),
 		})
 	}
diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..9170761 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -138,15 +138,18 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 				Value: &VarType{},
 			}
 		} else {
-			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			t, ok := getType(schema, key)
+			if !ok || !isEnumOrEnumAlias(schema, t) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
+			keyVarType := &VarType{Expr: key, Type: T_Enum, Enum: &VarEnumType{Name: key, Type: t}}
+			if t.Kind == TypeKind_Alias {
+				keyVarType = &VarType{Expr: key, Type: T_Alias, Alias: &VarAliasType{Name: key, Type: t}}
+			}
 			vt.Map = &VarMapType{
-				Key:   &VarType{Expr: key, Type: T_Enum, Enum: &VarEnumType{Name: key, Type: t}},
+				Key:   keyVarType,
 				Value: &VarType{},
 			}
-			vt.Map.Key.Expr = key
 		}
 
 		// shift expr and keep parsing
@@ -264,6 +267,16 @@ func getType(schema *WebRPCSchema, structExpr string) (*Type, bool) {
 	return nil, false
 }
 
+// isEnumOrEnumAlias reports whether t is an enum or a type alias of an enum. An alias
+// may not be resolved yet, so its underlying type is looked up by the type expression.
+func isEnumOrEnumAlias(schema *WebRPCSchema, t *Type) bool {
+	if t.Kind == TypeKind_Alias && t.Type != nil {
+		aliased, ok := getType(schema, t.Type.Expr)
+		return ok && aliased.Kind == TypeKind_Enum
+	}
+	return t.Kind == TypeKind_Enum
+}
+
 var VarKeyCoreTypes = []CoreType{
 	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,
 }
-- 
2.43.0


From 62bcf914d960cd68d0d6b72370c6c26e892c3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 04/34] fix: reject lists and maps without an element type

---
 schema/var_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 9170761..ce33ad7 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -90,7 +90,7 @@ type VarAliasType struct {
 
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 	if expr == "" {
-		return nil
+		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	vt.Expr = expr
 
-- 
2.43.0


From ce095816e53610c46761c88a249539734e0b2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 05/34] fix: parse the underlying types of aliases and enums

Those of a schema read from JSON were left as they were written: never
checked for an alias, and without the parsed form templates rely on.
---
 schema/type.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 9c01264..b77a55d 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -62,12 +62,12 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		return fmt.Errorf("schema error: type must be one of 'enum', 'struct', or 'alias' for '%s'", typName)
 	}
 
-	// For aliases, validate the underlying type is set and return early
+	// For aliases, parse+validate the underlying type and return early
 	if t.Kind == TypeKind_Alias {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
@@ -142,6 +142,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if !isValidVarType(fieldType.String(), validCoreTypes) {
 			return fmt.Errorf("schema error: enum '%s' field '%s' is invalid. must be an integer type", t.Name, fieldType.String())
 		}
+		if err := fieldType.Parse(schema); err != nil {
+			return err
+		}
 	}
 
 	// For structs only
-- 
2.43.0


From d2b74744315f0163d103af703ad0ad4c79d9e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 06/34] fix: reject nulls and missing types in a JSON schema
 instead of panicking

---
 schema/parser.go  |  4 ++++
 schema/schema.go  |  6 ++++++
 schema/service.go | 15 +++++++++++++++
 schema/type.go    |  6 ++++++
 4 files changed, 31 insertions(+)

diff --git a/schema/parser.go b/schema/parser.go
index 732159f..4234f1a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"encoding/json"
+	"fmt"
 	"regexp"
 )
 
@@ -15,6 +16,9 @@ func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {
 	if err != nil {
 		return nil, err
 	}
+	if schema == nil {
+		return nil, fmt.Errorf("schema error: schema cannot be null")
+	}
 
 	err = schema.Validate()
 	if err != nil {
diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..2ff3e92 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 )
 
@@ -66,6 +67,11 @@ func (s *WebRPCSchema) Validate() error {
 		}
 	}
 
+	// Entries of a JSON document can be null.
+	if slices.Contains(s.Types, nil) || slices.Contains(s.Errors, nil) || slices.Contains(s.Services, nil) {
+		return fmt.Errorf("schema error: types, errors and services cannot be null")
+	}
+
 	for i := range s.Types {
 		err := s.Types[i].Parse(s)
 		if err != nil {
diff --git a/schema/service.go b/schema/service.go
index 03907e3..d02f008 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -73,6 +73,9 @@ func (s *Service) Parse(schema *WebRPCSchema) error {
 	// Verify method names and ensure we don't have any duplicate method names
 	methodList := map[string]string{}
 	for _, method := range s.Methods {
+		if method == nil {
+			return fmt.Errorf("schema error: detected null method in service '%s'", serviceName)
+		}
 		if string(method.Name) == "" {
 			return fmt.Errorf("schema error: detected empty method name in service '%s", serviceName)
 		}
@@ -104,11 +107,20 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 	m.Service = service // back-ref
 	serviceName := service.Name
 
+	for name, annotation := range m.Annotations {
+		if annotation == nil {
+			return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, m.Name, serviceName)
+		}
+	}
+
 	// Parse+validate inputs
 	if len(m.Inputs) > 1 && m.Succinct {
 		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, input := range m.Inputs {
+		if input == nil || input.Type == nil {
+			return fmt.Errorf("schema error: detected input argument without type for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		input.InputArg = true // back-ref
 		if input.Name == "" {
 			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
@@ -124,6 +136,9 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		return fmt.Errorf("schema error: detected multiple output arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, output := range m.Outputs {
+		if output == nil || output.Type == nil {
+			return fmt.Errorf("schema error: detected output without type for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		output.OutputArg = true // back-ref
 		if output.Name == "" {
 			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
diff --git a/schema/type.go b/schema/type.go
index b77a55d..88326ae 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -75,6 +75,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 	fieldList := map[string]string{}
 	jsonFieldList := map[string]string{}
 	for _, field := range t.Fields {
+		if field == nil {
+			return fmt.Errorf("schema error: detected null field in type '%s'", typName)
+		}
 		if string(field.Name) == "" {
 			return fmt.Errorf("schema error: detected empty field name in type '%s", typName)
 		}
@@ -151,6 +154,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 	if t.Kind == TypeKind_Struct {
 		for _, field := range t.Fields {
 			// Parse+validate type fields
+			if field.Type == nil {
+				return fmt.Errorf("schema error: struct '%s' with field '%s' is missing type", t.Name, field.Name)
+			}
 			err := field.Type.Parse(schema)
 			if err != nil {
 				return err
-- 
2.43.0


From a6ac9f0476b386ca0e746f485dae66249c17ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 07/34] fix: read and write type expressions as JSON strings

They were taken verbatim between the quotes and written with Go's escapes,
so a schema could not be read back from its own export.
---
 schema/var_type.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index ce33ad7..b23599d 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -1,6 +1,8 @@
 package schema
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -25,27 +27,25 @@ func (t *VarType) String() string {
 }
 
 func (t *VarType) MarshalJSON() ([]byte, error) {
-	return []byte(fmt.Sprintf("%q", t)), nil
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false) // keep the angle brackets of maps
+	if err := enc.Encode(t.String()); err != nil {
+		return nil, err
+	}
+	return bytes.TrimSpace(buf.Bytes()), nil
 }
 
 func (t *VarType) UnmarshalJSON(b []byte) error {
 	if len(b) <= 2 {
 		return fmt.Errorf("json error: type cannot be empty")
 	}
-	s := string(b) // string value will be wrapped in quotes
 
-	// validate its a string value
-	if s[0:1] != "\"" {
-		return fmt.Errorf("json error: string value is expected")
-	}
-	if s[len(s)-1:] != "\"" {
+	var s string
+	if err := json.Unmarshal(b, &s); err != nil {
 		return fmt.Errorf("json error: string value is expected")
 	}
 
-	// trim string quotes from the json string
-	s = s[1:]
-	s = s[:len(s)-1]
-
 	// set the expr from value
 	t.Expr = s
 
-- 
2.43.0


From 81384145b4ff9e9b018e7ef7f60383455b9bb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 08/34] fix: reject an error code that is out of range instead
 of changing it

---
 schema/ridl/ridl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index ef07f02..e726645 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -305,7 +305,10 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("invalid code of error %q: %w", line.name.String(), err)
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
-- 
2.43.0


From e3c68991411e2bc9885866bbc5923fc329fa1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 09/34] fix: a service imported along two paths is one service

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index e726645..2756d22 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From badd1f9e4a59d195464266e4706d7672c94bd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 10/34] fix: match the name of a succinct argument exactly, as
 any other type name

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 2756d22..c72c33d 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -439,7 +439,7 @@ func buildArgumentsList(s *schema.WebRPCSchema, args []*ArgumentNode) ([]*schema
 		structName := node.tok.val
 
 		typ := s.GetTypeByName(structName)
-		if typ == nil {
+		if typ == nil || typ.Name != structName {
 			return nil, true, fmt.Errorf("unknown type for succinct definition of '%s'", structName)
 		}
 		if typ.Kind != "struct" {
-- 
2.43.0


From 390099367ea72482202a0e80ffb10979345f2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 11/34] fix: tell an upper case first letter by its character,
 not by its first byte

---
 schema/type.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 88326ae..29758b6 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -185,11 +186,6 @@ func (t *Type) RequiredFields() []*TypeField {
 }
 
 func startsWithUpper(s string) bool {
-	if len(s) == 0 {
-		return false
-	}
-	if !unicode.IsUpper(rune(s[0])) {
-		return false
-	}
-	return true
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsUpper(r)
 }
-- 
2.43.0


From 05b3493ea8d3ecdbefb48b99fe28a10f373df169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 12/34] fix: tree-shaking terminates on structs that refer to
 themselves

---
 schema/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 2ff3e92..9c67c41 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -210,6 +210,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
+			if mark[t.Name] {
+				return // visited already, a struct may refer to itself
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
-- 
2.43.0


From feca9cd6874fda9547fe1503b345741d203b0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 13/34] fix: tree-shaking keeps the type aliases in use and
 what they stand for

---
 schema/schema.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 9c67c41..17feff5 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -222,6 +222,18 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 			}
 		}
 
+		// Alias type: mark and traverse its underlying type
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			t := vt.Alias.Type
+			if mark[t.Name] {
+				return // visited already
+			}
+			if t.Name != "" {
+				mark[t.Name] = true
+			}
+			walkVarType(t.Type, mark)
+		}
+
 		// Enum type: mark usage
 		if vt.Enum != nil && vt.Enum.Type != nil {
 			t := vt.Enum.Type
-- 
2.43.0


From 985c346f2313c69cfa50fc79fb41453d9c42059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 14/34] fix: find bigints in structs that refer to each other

A search cut short by the cycle guard was remembered as a final answer.
---
 schema/helpers.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..b4ca753 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -11,8 +11,7 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 		return false
 	}
 
-	visited := make(map[string]bool) // cycle guard for struct recursion
-	memo := make(map[string]bool)    // memoize struct -> hasBigInt
+	visited := make(map[string]bool) // structs searched already, which also guards against cycles
 
 	var structHasBigIntRecursive func(t *Type) bool
 	var varTypeHasBigInt func(vt *VarType) bool // forward declaration so each can call the other
@@ -21,25 +20,19 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
-		if v, ok := memo[t.Name]; ok {
-			return v
-		}
-		if visited[t.Name] { // cycle
+		if visited[t.Name] {
 			return false
 		}
 		visited[t.Name] = true
-		defer func() { visited[t.Name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
 				continue
 			}
 			if varTypeHasBigInt(f.Type) {
-				memo[t.Name] = true
 				return true
 			}
 		}
-		memo[t.Name] = false
 		return false
 	}
 
@@ -108,24 +101,18 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 // the names Args and Return for suffixes instead of Request and Resposne suffixes for implicit method types.
 func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
 	out := make(map[string][]any)
-	// cache for recursive detection to avoid cycles
-	visited := make(map[string]bool)
-	memo := make(map[string]bool)
 
-	var structHasBigIntRecursive func(t *Type) bool
-	structHasBigIntRecursive = func(t *Type) bool {
+	// visited holds the structs searched already, which also guards against cycles
+	var searchStruct func(t *Type, visited map[string]bool) bool
+	searchStruct = func(t *Type, visited map[string]bool) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
 		name := t.Name
-		if v, ok := memo[name]; ok {
-			return v
-		}
-		if visited[name] { // cycle guard
+		if visited[name] {
 			return false
 		}
 		visited[name] = true
-		defer func() { visited[name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -133,29 +120,28 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 			}
 			// direct scalar bigint
 			if strings.EqualFold(f.Type.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// list of bigint
 			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// nested struct (struct types are parsed as T_Struct)
-			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
-				memo[name] = true
+			if f.Type.Type == T_Struct && f.Type.Struct != nil && searchStruct(f.Type.Struct.Type, visited) {
 				return true
 			}
 			// list of nested struct
-			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
-				memo[name] = true
+			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && searchStruct(f.Type.List.Elem.Struct.Type, visited) {
 				return true
 			}
 		}
-		memo[name] = false
 		return false
 	}
 
+	structHasBigIntRecursive := func(t *Type) bool {
+		return searchStruct(t, make(map[string]bool))
+	}
+
 	// helper to collect bigint-related fields for a given struct type
 	collectStruct := func(t *Type) []any {
 		var list []any
-- 
2.43.0


From 46bd20a2cb6ac500f793a52b2e0046cff97fcbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 15/34] fix: reject an unknown word after a method instead of
 dropping it

---
 schema/ridl/service_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..82906a8 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -106,7 +106,12 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 
 		// Check for optional errors clause
 		matches, err = p.match(tokenWhitespace, tokenWord)
-		if err == nil && matches[1].val == wordErrors {
+		if err == nil {
+			if matches[1].val != wordErrors {
+				p.rewind(1)
+				return p.stateError(errUnexpectedToken)
+			}
+
 			// Parse bar-separated list of error names
 			errorNames, err := p.expectErrorList()
 			if err != nil {
-- 
2.43.0


From 629f4673dfa6558fceec783f0e044c0a817bbbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 16/34] fix: an @ without a name is an error, not an endless
 loop

---
 schema/ridl/service_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 82906a8..ae46880 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -139,6 +139,9 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 			if err != nil {
 				return p.stateError(err)
 			}
+			if len(anns) == 0 {
+				return p.stateError(errUnexpectedToken)
+			}
 			s.methodAnnotations = append(s.methodAnnotations, anns...)
 
 		case tokenHash:
-- 
2.43.0


From 3714424a0b098ab4bda0cef23057f75d32780e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 17/34] fix: an annotation ends with its value

Whatever followed a quoted value was skipped, and so was whatever stood in
the place of a value.
---
 schema/ridl/service_parser.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index ae46880..87ba9df 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -220,22 +220,24 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 
 		p.next()
 
-		// @acl:admin
-		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
+		switch p.cursor().tt {
+		case tokenWord:
+			// @acl:admin
 			annotation.value = newTokenNode(p.cursor())
-		}
+			p.next()
 
-		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+		case tokenQuote:
+			// @auth:"cookies,authorization,query"
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
 			}
 
 			annotation.value = newTokenNode(annotationValue)
-		}
 
-		p.next()
+		default:
+			return nil, errUnexpectedToken
+		}
 
 		annotations = append(annotations, annotation)
 	}
-- 
2.43.0


From 955e6f6d1a91ad31aaf9f712caac8f5eeff96a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 18/34] fix: reject annotations that no method follows

---
 schema/ridl/service_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 87ba9df..84b4355 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -155,6 +155,10 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 			return state
 
 		default:
+			// annotations belong to the method that follows them
+			if len(s.methodAnnotations) > 0 {
+				return p.stateError(errUnexpectedToken)
+			}
 			p.emit(s)
 			return parserDefaultState
 
-- 
2.43.0


From 8e116cc66ed82273431b2361a400737f4a65ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 19/34] fix: an argument list is what stands between its
 parentheses

The token after a succinct list was skipped, and a second "stream" in front
of a list was dropped.
---
 schema/ridl/type_parser.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..58c1198 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -47,13 +47,6 @@ loop:
 func (p *parser) expectArgumentList() ([]*ArgumentNode, error) {
 	values := []*ArgumentNode{}
 
-	matches, err := p.match(tokenWord, tokenWhitespace)
-	if err == nil {
-		if matches[0].val != "stream" {
-			return nil, errUnexpectedToken
-		}
-	}
-
 	tok, err := p.match(tokenOpenParen)
 	if err != nil {
 		return nil, err
@@ -94,7 +87,6 @@ loop:
 					})
 
 					tokens = append(tokens, tok)
-					p.next()
 					break loop
 				}
 			}
-- 
2.43.0


From 6f0157c1ff98bc6d57c1e436a8ec610b27e64e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 20/34] fix: reject a quote in the middle of a value instead of
 dropping what precedes it

---
 schema/ridl/import_parser.go | 3 +++
 schema/ridl/parser.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 933250a..548ce46 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -123,6 +123,9 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..8e11846 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -241,6 +241,9 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
-- 
2.43.0


From 5411c865c29d12bd694c38e08cd7c0f8b01e566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 21/34] fix: an escaped quote after a word does not end a
 string

---
 schema/ridl/parser.go      | 8 ++++++++
 schema/ridl/parser_util.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 8e11846..73e8858 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -218,6 +218,14 @@ loop:
 			tok = p.cursor()
 			p.next()
 
+		case tokenWord:
+			// a word may end with the backslash that escapes a quote
+			if endsWithEscape(tok.val) && p.cursor().tt == tokenQuote {
+				tokens = append(tokens, tok)
+				tok = p.cursor()
+				p.next()
+			}
+
 		case tokenQuote:
 			// end of string
 			break loop
diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index b1285ba..9194073 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -3,6 +3,7 @@ package ridl
 import (
 	"errors"
 	"fmt"
+	"strings"
 )
 
 func expectWord(tok *token, value string) error {
@@ -30,6 +31,11 @@ func expectNumber(tok *token, value string) error {
 	return nil
 }
 
+// endsWithEscape reports whether s ends with a backslash that is not itself escaped.
+func endsWithEscape(s string) bool {
+	return (len(s)-len(strings.TrimRight(s, `\`)))%2 == 1
+}
+
 func unescapeString(in string) (string, error) {
 	runes := []rune(in)
 	size := len(runes)
-- 
2.43.0


From ab2a1e97b8957377c84a314b32d158508dd728ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 22/34] fix: a hash in quoted text does not start a comment

---
 schema/ridl/tokenizer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..1d73336 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -15,6 +15,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 	lineComments := make(map[int]string)
 
 	parsingComment := false
+	inString, escaped := false, false
 	commentTokens := []string{}
 
 	for tok := range lx.tokens {
@@ -22,8 +23,22 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			break
 		}
 
+		// a hash in quoted text does not start a comment
+		if !parsingComment {
+			switch {
+			case tok.tt == tokenNewLine:
+				inString, escaped = false, false
+			case escaped:
+				escaped = false
+			case tok.tt == tokenQuote:
+				inString = !inString
+			case inString:
+				escaped = endsWithEscape(tok.val)
+			}
+		}
+
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash {
+		if tok.tt == tokenHash && !inString {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From 302ce74e6b699e4088b92e4fc248c90f06168e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 23/34] fix: keep the hashes in the text of a comment

---
 schema/ridl/tokenizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 1d73336..d6230be 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -38,7 +38,9 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		}
 
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash && !inString {
+		// the hashes that start a comment are not part of it, later ones are
+		leading := len(tokens) > 0 && tokens[len(tokens)-1].tt == tokenHash && len(commentTokens) == 0
+		if tok.tt == tokenHash && !inString && (!parsingComment || leading) {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From 663f1faa990552b5157bcc469d01a39cc675af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 24/34] fix: keep a comment that ends with the file

---
 schema/ridl/tokenizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index d6230be..c4f5682 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -59,6 +59,11 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		tokens = append(tokens, tok)
 	}
 
+	// the last line may end with the file
+	if parsingComment {
+		lineComments[tokens[len(tokens)-1].line] = strings.Join(commentTokens, " ")
+	}
+
 	return tokens, lineComments, nil
 }
 
-- 
2.43.0


From 93deec8d1f9f47b1b790ffee246fc7a70a557e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 25/34] fix: a comment at the end of a line does not document
 the next line

---
 schema/ridl/definition_parser.go |  2 +-
 schema/ridl/enum_parser.go       |  6 +++---
 schema/ridl/parser.go            | 32 ++++++++++++++++++++++++++++++++
 schema/ridl/service_parser.go    |  4 ++--
 schema/ridl/struct_parser.go     |  4 ++--
 schema/ridl/type_alias_parser.go |  2 +-
 6 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/schema/ridl/definition_parser.go b/schema/ridl/definition_parser.go
index 34bc0e4..c52705b 100644
--- a/schema/ridl/definition_parser.go
+++ b/schema/ridl/definition_parser.go
@@ -24,6 +24,6 @@ func parserStateDefinition(p *parser) parserState {
 
 	return parserStateDefinitionValue(&DefinitionNode{
 		leftNode: newTokenNode(tokens[0]),
-		comment:  parseComments(p.comments, tokens[0].line),
+		comment:  p.takeComments(tokens[0].line),
 	})
 }
diff --git a/schema/ridl/enum_parser.go b/schema/ridl/enum_parser.go
index abc9275..da96599 100644
--- a/schema/ridl/enum_parser.go
+++ b/schema/ridl/enum_parser.go
@@ -11,7 +11,7 @@ func parserStateEnumExplicitValue(en *EnumNode, dn *DefinitionNode) parserState
 				return p.stateError(err)
 			}
 			dn.rightNode = newTokenNode(explicitValue)
-			en.comment = parseComments(p.comments, explicitValue.line)
+			en.comment = p.takeComments(explicitValue.line)
 		}
 
 		en.values = append(en.values, dn)
@@ -36,7 +36,7 @@ func parserStateEnumDefinition(et *EnumNode) parserState {
 
 			return parserStateEnumExplicitValue(et, &DefinitionNode{
 				leftNode: newTokenNode(matches[2]),
-				comment:  parseComments(p.comments, matches[0].line),
+				comment:  p.takeComments(matches[0].line),
 			})
 
 		case tokenNewLine, tokenWhitespace:
@@ -70,7 +70,7 @@ func parserStateEnum(p *parser) parserState {
 		name:     newTokenNode(matches[2]),
 		enumType: newTokenNode(matches[5]),
 		values:   []*DefinitionNode{},
-		comment:  parseComments(p.comments, matches[0].line),
+		comment:  p.takeComments(matches[0].line),
 		line:     matches[0].line,
 	})
 }
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 73e8858..00f20c2 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -44,6 +44,7 @@ type parser struct {
 
 	words    chan interface{}
 	comments map[int]string
+	trailing []int // lines whose comment follows something else, ascending
 
 	root RootNode
 }
@@ -60,6 +61,7 @@ func newParser(file string, src []byte) (*parser, error) {
 		tokens:   tokens,
 		length:   len(tokens),
 		comments: comments,
+		trailing: trailingComments(tokens, comments),
 	}
 	return p, nil
 }
@@ -531,6 +533,36 @@ func composedValue(tokens []*token) (*token, error) {
 	}, nil
 }
 
+// trailingComments returns the lines on which a comment follows something else.
+func trailingComments(tokens []token, comments map[int]string) []int {
+	lines := []int{}
+	line := 0
+
+	for _, tok := range tokens {
+		if tok.tt == tokenWhitespace || tok.line == line {
+			continue
+		}
+		// first token of the line
+		line = tok.line
+		if _, ok := comments[line]; ok && tok.tt != tokenHash {
+			lines = append(lines, line)
+		}
+	}
+
+	return lines
+}
+
+// takeComments returns the comments of what is on the given line. A comment at the
+// end of an earlier line belongs to that line.
+func (p *parser) takeComments(currentLine int) string {
+	for len(p.trailing) > 0 && p.trailing[0] < currentLine {
+		delete(p.comments, p.trailing[0])
+		p.trailing = p.trailing[1:]
+	}
+
+	return parseComments(p.comments, currentLine)
+}
+
 func parseComments(comments map[int]string, currentLine int) string {
 	iteration := 0
 	c := []string{}
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 84b4355..1a887b2 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -59,7 +59,7 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: p.takeComments(commentLine),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
@@ -189,7 +189,7 @@ func parserStateService(p *parser) parserState {
 	return parserStateServiceMethod(&ServiceNode{
 		name:    newTokenNode(serviceName),
 		methods: []*MethodNode{},
-		comment: parseComments(p.comments, matches[0].line),
+		comment: p.takeComments(matches[0].line),
 	})
 }
 
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..6e6c351 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -73,7 +73,7 @@ func parserStateStructFieldDefinition(mn *StructNode) parserState {
 
 		field := &DefinitionNode{
 			leftNode: newTokenNode(matches[2]),
-			comment:  parseComments(p.comments, matches[0].line),
+			comment:  p.takeComments(matches[0].line),
 		}
 
 		// ?
@@ -140,7 +140,7 @@ func parserStateStruct(p *parser) parserState {
 	return parserStateStructField(&StructNode{
 		name:    newTokenNode(matches[2]),
 		fields:  []*DefinitionNode{},
-		comment: parseComments(p.comments, matches[0].line),
+		comment: p.takeComments(matches[0].line),
 		line:    matches[0].line,
 	})
 }
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..0dcd035 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -74,7 +74,7 @@ func parserStateTypeAlias(p *parser) parserState {
 	ta := &TypeAliasNode{
 		name:      newTokenNode(matches[2]),
 		aliasType: newTokenNode(typeToken),
-		comment:   parseComments(p.comments, matches[0].line),
+		comment:   p.takeComments(matches[0].line),
 		line:      matches[0].line,
 	}
 
-- 
2.43.0


From 211e1f20cefecf68d831f5fc55a10d1af4d78c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 26/34] fix: keep the comments of a method with annotations

Only those at its last annotation were kept.
---
 schema/ridl/service_parser.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1a887b2..4c6d490 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -1,6 +1,9 @@
 package ridl
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 	return func(p *parser) parserState {
@@ -50,16 +53,21 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 			methodName = matches[1]
 		}
 
-		commentLine := matches[0].line
-		// we have to start parsing comments from the line of last annotation
-		if len(sn.methodAnnotations) > 0 {
-			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
+		// comments of the annotations, which may be on lines of their own, are
+		// comments of the method too
+		comments := []string{}
+		for _, ann := range sn.methodAnnotations {
+			if comment := p.takeComments(ann.AnnotationType().tok.line); comment != "" {
+				comments = append(comments, comment)
+			}
+		}
+		if comment := p.takeComments(matches[0].line); comment != "" {
+			comments = append(comments, comment)
 		}
-
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: p.takeComments(commentLine),
+			comment: strings.Join(comments, "\n"),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
-- 
2.43.0


From 557318b0acb0f4890e510a31bd15a3d9fb09b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 27/34] fix: an escaped quote after an escape and a word does
 not end a string

---
 schema/ridl/parser.go    | 15 +++++++--------
 schema/ridl/tokenizer.go |  2 +-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 00f20c2..4271bc0 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -220,19 +220,18 @@ loop:
 			tok = p.cursor()
 			p.next()
 
-		case tokenWord:
-			// a word may end with the backslash that escapes a quote
-			if endsWithEscape(tok.val) && p.cursor().tt == tokenQuote {
-				tokens = append(tokens, tok)
-				tok = p.cursor()
-				p.next()
-			}
-
 		case tokenQuote:
 			// end of string
 			break loop
 		}
 
+		// a word may end with the backslash that escapes a quote
+		if tok.tt == tokenWord && endsWithEscape(tok.val) && p.cursor().tt == tokenQuote {
+			tokens = append(tokens, tok)
+			tok = p.cursor()
+			p.next()
+		}
+
 		tokens = append(tokens, tok)
 	}
 
diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index c4f5682..89b5313 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -29,7 +29,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			case tok.tt == tokenNewLine:
 				inString, escaped = false, false
 			case escaped:
-				escaped = false
+				escaped = tok.tt == tokenWord && endsWithEscape(tok.val)
 			case tok.tt == tokenQuote:
 				inString = !inString
 			case inString:
-- 
2.43.0


From 638b2aee350e19385f8c42751bea19e4978adc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 28/34] fix: minVersion compared minor versions across major
 versions

minVersion "v2.0" "v1.5" was false.
---
 gen/funcmap_flow.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index 1e41f20..6a8c772 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -42,15 +42,11 @@ func minVersion(version string, minVersion string) bool {
 		panic(fmt.Sprintf("minVersion: unexpected min version %q", minVersion))
 	}
 
-	if minMajor > major {
-		return false
-	}
-
-	if minMinor > minor {
-		return false
+	if minMajor != major {
+		return minMajor < major
 	}
 
-	return true
+	return minMinor <= minor
 }
 
 func parseMajorMinorVersion(version string) (major int, minor int, err error) {
-- 
2.43.0


From a71775f6810abf5e8bba3f1533f70eea420bc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 29/34] fix: -help reported the help of a target as a failure

---
 cmd/webrpc-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..8d69c99 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -268,9 +268,9 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
 			if err != nil {
-				fmt.Fprintln(os.Stderr, templateHelp.Code)
-			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
+			} else {
+				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			}
 		}
 	}
-- 
2.43.0


From 9ff6f6f23e9fcf70de2f119135006ced2fa4ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 30/34] fix: kept templates were not used when fetching newer
 ones failed

---
 gen/template_source.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..1325ca4 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -105,6 +105,13 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 		s.TmplVersion = s.target
 		// fetch from remote git
 		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+		if err == nil {
+			// gitfs drops download errors, a failed fetch may just look empty
+			filenames, _ := vfspath.Glob(sourceFS, "/*.go.tmpl")
+			if len(filenames) == 0 {
+				err = fmt.Errorf("no template files were found in target %s", s.target)
+			}
+		}
 		if err != nil {
 			s.CacheRefreshErr = err
 			// load from cache, if available
-- 
2.43.0


From 624351a82abca5183317dbe6085d2aab20cd8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 31/34] fix: firstLetterToLower and firstLetterToUpper
 corrupted non-ASCII letters

---
 gen/funcmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap.go b/gen/funcmap.go
index 22f8e38..1bd890f 100644
--- a/gen/funcmap.go
+++ b/gen/funcmap.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/davecgh/go-spew/spew"
@@ -68,13 +69,15 @@ func templateFuncMap(opts map[string]interface{}) map[string]interface{} {
 			if input == "" {
 				return ""
 			}
-			return strings.ToLower(input[:1]) + input[1:]
+			_, size := utf8.DecodeRuneInString(input)
+			return strings.ToLower(input[:size]) + input[size:]
 		}),
 		"firstLetterToUpper": applyStringFunction("firstLetterToUpper", func(input string) string { // v0.7.0
 			if input == "" {
 				return ""
 			}
-			return strings.ToUpper(input[:1]) + input[1:]
+			_, size := utf8.DecodeRuneInString(input)
+			return strings.ToUpper(input[:size]) + input[size:]
 		}),
 		"firstWordToLower": applyStringFunction("firstWordToLower", func(input string) string { // v0.29.0
 			if input == "" {
-- 
2.43.0


From 2d1c7432b47dedddf0d456e27a79e7894ef83b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 32/34] fix: append in templates changed other arrays made from
 the same one

---
 gen/funcmap_generic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/funcmap_generic.go b/gen/funcmap_generic.go
index c03a4d3..eec09de 100644
--- a/gen/funcmap_generic.go
+++ b/gen/funcmap_generic.go
@@ -13,7 +13,7 @@ func array(elems ...interface{}) []interface{} {
 
 // Appends new elements to the existing slice.
 func appendFn(slice []interface{}, elems ...interface{}) []interface{} {
-	return append(slice, elems...)
+	return append(slice[:len(slice):len(slice)], elems...) // never write into the array of the given slice
 }
 
 // Returns first element from given array.
-- 
2.43.0


From ea32931f9458e8076d7f350343ab5ef31610fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:23 +0000
Subject: [PATCH 33/34] fix: replace kept templates entirely, and never leave a
 mixture that later runs use

---
 gen/template_source.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 1325ca4..e4d5c85 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -149,13 +149,6 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 }
 
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
-	}
-
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
 		return err
@@ -165,6 +158,15 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("no template files were found in target %s", target)
 	}
 
+	// create empty cache directory, the timestamp goes first: without
+	// it whatever may be left of the directory is not used
+	err = os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename))
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := os.RemoveAll(cacheDir); err != nil {
+		return err
+	}
 	if err := os.MkdirAll(cacheDir, 0755); err != nil {
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
-- 
2.43.0


From 4da8d89018a6d79ae12834fae0ed1d819e43daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:01 +0000
Subject: [PATCH 34/34] fix: change the case of a name's first letter, not of
 its first byte

---
 schema/var_name.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schema/var_name.go b/schema/var_name.go
index 7fce28e..aac2390 100644
--- a/schema/var_name.go
+++ b/schema/var_name.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 type VarName string
@@ -13,7 +14,8 @@ func (v VarName) TitleDowncase() string {
 		return ""
 	}
 	s := string(v)
-	return strings.ToLower(s[0:1]) + s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	return strings.ToLower(s[:size]) + s[size:]
 }
 
 // TitleUpcase will upcase the first letter of a string,
@@ -23,5 +25,6 @@ func (v VarName) TitleUpcase() string {
 		return ""
 	}
 	s := string(v)
-	return strings.ToUpper(s[0:1]) + s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	return strings.ToUpper(s[:size]) + s[size:]
 }
-- 
2.43.0

