From 262a4e19c6f2a19d15a9a9969ed8c2be970b7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 01/21] fix: compare a type's definition even when the type is
 also extended

Persisted types were keyed by name only, so the entry of an extension
replaced the entry of the definition and its changes were lost.
---
 pkg/compare/compare.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..332b157 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -346,7 +346,12 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 				position:         ot.Position,
 			})
 		} else {
-			persistedType[ot.Name] = []*ast.Definition{ot, nt}
+			key := ot.Name
+			if isExtended {
+				//a type can be both defined and extended, both have to be compared
+				key = "extend " + ot.Name
+			}
+			persistedType[key] = []*ast.Definition{ot, nt}
 		}
 	}
 	return changes
-- 
2.43.0


From a5efe8b2b749ad672700daf77747207496cefff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 02/21] fix: compare all the extensions of a type

Only the first extension of the new schema was paired with the last one
of the old schema, so a schema with several extensions of a type differed
from itself and changes in the other extensions were lost.
---
 pkg/compare/compare.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 332b157..82a46bb 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -281,8 +281,10 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	oldExtensions := mergeExtensions(oldSchema.Extensions)
+	newExtensions := mergeExtensions(newSchema.Extensions)
+	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, persistedType, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types for changes in fields/directives
 	for _, defs := range persistedType {
@@ -328,6 +330,24 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
+// mergeExtensions combines all the extensions of the same type into a single one, without modifying the given extensions
+func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	for _, ext := range extensions {
+		def := merged.ForName(ext.Name)
+		if def == nil {
+			def = &ast.Definition{Kind: ext.Kind, Name: ext.Name, Description: ext.Description, Position: ext.Position}
+			merged = append(merged, def)
+		}
+		def.Directives = append(def.Directives, ext.Directives...)
+		def.Interfaces = append(def.Interfaces, ext.Interfaces...)
+		def.Fields = append(def.Fields, ext.Fields...)
+		def.Types = append(def.Types, ext.Types...)
+		def.EnumValues = append(def.EnumValues, ext.EnumValues...)
+	}
+	return merged
+}
+
 func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedType map[string][]*ast.Definition, isExtended bool) []*Change {
 	var changes []*Change
 	for _, ot := range oldSchemaDefs {
-- 
2.43.0


From 7b0178b03f442f86f06222315c7f1f425f8ea649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 03/21] fix: compare the effective root operations of the
 schemas

Only the first schema extension was looked at, and default root types
(no schema definition) were ignored, so adding a schema definition that
drops or retargets a root operation was reported as a harmless addition.
---
 pkg/compare/compare.go | 44 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 82a46bb..136671a 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -183,13 +183,53 @@ func (c Criticality) String() string {
 func FindChangesInSchemas(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
 	changes = []*Change{}
-	changes = append(changes, changeInSchema(oldSchema.Schema, newSchema.Schema)...)
-	changes = append(changes, changeInSchema(oldSchema.SchemaExtension, newSchema.SchemaExtension)...)
+	changes = append(changes, changeInSchema(rootOperations(oldSchema, newSchema), rootOperations(newSchema, oldSchema))...)
 	changes = append(changes, changeInTypes(oldSchema, newSchema)...)
 	changes = append(changes, changeInDirective(oldSchema.Directives, newSchema.Directives)...)
 	return changes
 }
 
+// rootOperations collects the root operations of a schema from its definition and all of its extensions.
+// A schema without definition has the types Query, Mutation and Subscription as its roots, these are included
+// when they have to be compared with explicit root operations of the other schema.
+func rootOperations(schema *ast.SchemaDocument, other *ast.SchemaDocument) ast.SchemaDefinitionList {
+	ops := explicitOperations(schema)
+	otherOps := explicitOperations(other)
+	if len(schema.Schema) == 0 {
+		for op, name := range []string{"Query", "Mutation", "Subscription"} {
+			operation := []ast.Operation{ast.Query, ast.Mutation, ast.Subscription}[op]
+			if getOperationForName(ops, operation) != nil {
+				continue
+			}
+			if len(other.Schema) == 0 && getOperationForName(otherOps, operation) == nil {
+				continue
+			}
+			def := schema.Definitions.ForName(name)
+			if def == nil {
+				def = schema.Extensions.ForName(name)
+			}
+			if def != nil {
+				ops = append(ops, &ast.OperationTypeDefinition{Operation: operation, Type: name, Position: def.Position})
+			}
+		}
+	}
+	if len(ops) == 0 {
+		return nil
+	}
+	return ast.SchemaDefinitionList{&ast.SchemaDefinition{OperationTypes: ops}}
+}
+
+func explicitOperations(schema *ast.SchemaDocument) ast.OperationTypeDefinitionList {
+	var ops ast.OperationTypeDefinitionList
+	for _, def := range schema.Schema {
+		ops = append(ops, def.OperationTypes...)
+	}
+	for _, ext := range schema.SchemaExtension {
+		ops = append(ops, ext.OperationTypes...)
+	}
+	return ops
+}
+
 // changeInSchema change in schema root operations
 func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.SchemaDefinitionList) []*Change {
 	var changes []*Change
-- 
2.43.0


From 6d773c7ded9332fad682fc03d2286a23d5dc721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 04/21] fix: repeated directives without arguments are not a
 change

---
 pkg/compare/compare.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 136671a..1aacf36 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1188,6 +1188,8 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				haveSameArgVals := false
 				for _, nd := range nDirList {
 					if len(od.Arguments) == len(nd.Arguments) {
+						// without arguments there is nothing which can differ
+						haveSameArgVals = len(od.Arguments) == 0
 						for _, oArg := range od.Arguments {
 							nArg := nd.Arguments.ForName(oArg.Name)
 							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-- 
2.43.0


From ee6e6e19b73ccb910a70bbca5beb56dac9cc361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 05/21] fix: report when the deprecation of an enum value is
 removed

The README lists deprecation added to and removed from fields and enum
values as dangerous changes.
---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 1aacf36..96548b2 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -695,6 +697,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From 8300edebce7bdaaacac90d3b38ac4efa31bc8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 06/21] fix: report a deprecation reason which is added or
 dropped

---
 pkg/compare/compare.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 96548b2..058fe3e 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -709,7 +709,7 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
+		if deprecationReasonChanged(oReason, nReason) {
 			changes = append(changes, &Change{
 				changeType:       EnumValueDeprecationReasonChanged,
 				criticalityLevel: NonBreaking,
@@ -722,6 +722,13 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 	return changes
 }
 
+func deprecationReasonChanged(oReason *ast.Argument, nReason *ast.Argument) bool {
+	if oReason == nil || nReason == nil {
+		return oReason != nReason
+	}
+	return oReason.Value.String() != nReason.Value.String()
+}
+
 func checkEnumValuesAdded(oDef *ast.Definition, nDef *ast.Definition) []*Change {
 	var changes []*Change
 	for _, nv := range nDef.EnumValues {
@@ -949,7 +956,7 @@ func checkFieldDeprecationChanged(oDef *ast.Definition, nf *ast.FieldDefinition,
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
+		if deprecationReasonChanged(oReason, nReason) {
 			changeType := FieldDeprecationReasonChanged
 			if oDef.Kind == ast.InputObject {
 				changeType = InputFieldDeprecationReasonChanged
-- 
2.43.0


From 931e119904c69b4e0c95808b0f96a4c9cfb560de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:16 +0000
Subject: [PATCH 07/21] fix: an added non-null argument or input field with a
 default value is not required

---
 pkg/compare/compare.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 058fe3e..0999ccf 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -483,7 +483,7 @@ func checkDirectiveArgumentAdded(od *ast.DirectiveDefinition, nd *ast.DirectiveD
 		if oArg == nil {
 			//argument added to the field
 			//Adding non-nullable argument is a breaking change
-			if nArg.Type.NonNull {
+			if isRequiredArgument(nArg) {
 				changes = append(changes, &Change{
 					changeType:       DirectiveArgumentAdded,
 					criticalityLevel: Breaking,
@@ -1059,7 +1059,7 @@ func checkFieldArgumentAdded(oDef *ast.FieldDefinition, nDef *ast.FieldDefinitio
 		oArg := oDef.Arguments.ForName(nArg.Name)
 		if oArg == nil {
 			//Adding a required argument to an existing field is a breaking change because it will cause existing uses of this field to error.
-			if nArg.Type.NonNull {
+			if isRequiredArgument(nArg) {
 				changes = append(changes, &Change{
 					changeType:       FieldArgumentAdded,
 					criticalityLevel: Breaking,
@@ -1158,7 +1158,7 @@ func checkInputFieldsAdded(oDef *ast.Definition, nDef *ast.Definition) []*Change
 	for _, nf := range nDef.Fields {
 		if oDef.Fields.ForName(nf.Name) == nil {
 			//input field added to the type
-			if nf.Type.NonNull {
+			if isRequiredField(nf) {
 				//Adding a required input field to an existing input object type is a breaking change because it will cause existing uses of this input object type to error.
 				changes = append(changes, &Change{
 					changeType:       InputFieldAdded,
@@ -1359,6 +1359,16 @@ func isNonNullType(typ *ast.Type) bool {
 	return typ != nil && typ.NonNull
 }
 
+// isRequiredArgument checks if an argument has to be provided: it's non-null and has no default value
+func isRequiredArgument(arg *ast.ArgumentDefinition) bool {
+	return isNonNullType(arg.Type) && arg.DefaultValue == nil
+}
+
+// isRequiredField checks if an input field has to be provided: it's non-null and has no default value
+func isRequiredField(field *ast.FieldDefinition) bool {
+	return isNonNullType(field.Type) && field.DefaultValue == nil
+}
+
 func isWrappingType(typ *ast.Type) bool {
 	return isListType(typ) || isNonNullType(typ)
 }
-- 
2.43.0


From 538ed5e23bba202a8e3f810959fa40454db06f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 08/21] fix: losing the default value is breaking when the
 argument or input field becomes required

---
 pkg/compare/compare.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 0999ccf..28e74a4 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -555,9 +555,14 @@ func checkDirectiveArgumentTypeChanged(od *ast.DirectiveDefinition, oArg *ast.Ar
 	}
 	//Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.
 	if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
+		cl := Dangerous
+		if isRequiredArgument(nArg) {
+			//without its default value it becomes required
+			cl = Breaking
+		}
 		changes = append(changes, &Change{
 			changeType:       DirectiveArgumentDefaultValueChanged,
-			criticalityLevel: Dangerous,
+			criticalityLevel: cl,
 			message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in directive '@%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), od.Name),
 			path:             fmt.Sprintf("@%s.%s", od.Name, oArg.Name),
 			position:         nArg.Position,
@@ -1008,9 +1013,14 @@ func changeInArgument(oDef *ast.FieldDefinition, nDef *ast.FieldDefinition, type
 			changes = append(changes, checkFieldArgumentTypeChanged(oArg, nArg, typeName, oDef.Name)...)
 			//Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.
 			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
+				cl := Dangerous
+				if isRequiredArgument(nArg) {
+					//without its default value it becomes required
+					cl = Breaking
+				}
 				changes = append(changes, &Change{
 					changeType:       FieldArgumentDefaultChanged,
-					criticalityLevel: Dangerous,
+					criticalityLevel: cl,
 					message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in '%s.%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), typeName, oDef.Name),
 					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
 					position:         nArg.Position,
@@ -1142,9 +1152,14 @@ func checkInputFieldTypeValueChanged(oDef *ast.Definition, of *ast.FieldDefiniti
 	}
 	//Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.
 	if of.DefaultValue.String() != nf.DefaultValue.String() {
+		cl := Dangerous
+		if isRequiredField(nf) {
+			//without its default value it becomes required
+			cl = Breaking
+		}
 		changes = append(changes, &Change{
 			changeType:       InputFieldDefaultValueChanged,
-			criticalityLevel: Dangerous,
+			criticalityLevel: cl,
 			message:          fmt.Sprintf("Input field '%s.%s' default value changed from '%s' to '%s' in input object type", oDef.Name, of.Name, of.DefaultValue.String(), nf.DefaultValue.String()),
 			path:             fmt.Sprintf("%s.%s", oDef.Name, of.Name),
 			position:         nf.Position,
-- 
2.43.0


From bafafe8d839f4718b43d8687b2c381bb73e4affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 09/21] fix: report required input fields added by a new
 extension as breaking

---
 pkg/compare/compare.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 28e74a4..d3e9ef1 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -327,6 +327,7 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	newExtensions := mergeExtensions(newSchema.Extensions)
 	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, persistedType, true)...)
 	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
+	changes = append(changes, checkRequiredInputFieldsAdded(oldSchema, newSchema, oldExtensions, newExtensions)...)
 
 	//compare persisted types for changes in fields/directives
 	for _, defs := range persistedType {
@@ -1196,6 +1197,32 @@ func checkInputFieldsAdded(oDef *ast.Definition, nDef *ast.Definition) []*Change
 	return changes
 }
 
+// checkRequiredInputFieldsAdded required fields added by a new extension to an input object type which was not added itself
+func checkRequiredInputFieldsAdded(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument, oldExtensions ast.DefinitionList, newExtensions ast.DefinitionList) []*Change {
+	var changes []*Change
+	for _, ext := range newExtensions {
+		if ext.Kind != ast.InputObject || oldExtensions.ForName(ext.Name) != nil {
+			continue
+		}
+		oDef := oldSchema.Definitions.ForName(ext.Name)
+		if oDef == nil && newSchema.Definitions.ForName(ext.Name) != nil {
+			continue
+		}
+		for _, nf := range ext.Fields {
+			if isRequiredField(nf) && (oDef == nil || oDef.Fields.ForName(nf.Name) == nil) {
+				changes = append(changes, &Change{
+					changeType:       InputFieldAdded,
+					criticalityLevel: Breaking,
+					message:          fmt.Sprintf("Required field '%s' was added to input object type '%s'", nf.Name, ext.Name),
+					path:             fmt.Sprintf("%s.%s", ext.Name, nf.Name),
+					position:         nf.Position,
+				})
+			}
+		}
+	}
+	return changes
+}
+
 func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveList, typeName string, pos *ast.Position) []*Change {
 	var changes []*Change
 	for _, od := range oDirs {
-- 
2.43.0


From 6f2cd13dc0aa34b61ef0b3cb01881e5729361143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 10/21] fix: messages of added repeatable flag and of changed
 root operation type

---
 pkg/compare/compare.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index d3e9ef1..07c430e 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -307,7 +307,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
@@ -589,7 +589,7 @@ func checkDirectiveRepeatableChanged(od *ast.DirectiveDefinition, nd *ast.Direct
 		changes = append(changes, &Change{
 			changeType:       DirectiveRepeatableAdded,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Repeatable flag was removed from '@%s' directive", od.Name),
+			message:          fmt.Sprintf("Repeatable flag was added to '@%s' directive", od.Name),
 			path:             fmt.Sprintf("@%s", nd.Name),
 			position:         nd.Position,
 		})
-- 
2.43.0


From 72c9b4738543bd22809802cb5878b54b30f6c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 11/21] fix: same output for every run

The order of reported changes on the same line, the order of linted files
and the file named in a parse error depended on map iteration order.
---
 cmd/linter/lint_cmd.go |  9 ++++++++-
 pkg/compare/compare.go |  8 +++++++-
 utils/util.go          | 10 ++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..87e2ede 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/CrowdStrike/gql/pkg/linter"
@@ -63,7 +64,13 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for filename := range schemaFileContents {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames)
+	for _, filename := range filenames {
+		schemaFileContent := schemaFileContents[filename]
 		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 07c430e..b6a73fb 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -330,7 +330,13 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	changes = append(changes, checkRequiredInputFieldsAdded(oldSchema, newSchema, oldExtensions, newExtensions)...)
 
 	//compare persisted types for changes in fields/directives
-	for _, defs := range persistedType {
+	var names []string
+	for name := range persistedType {
+		names = append(names, name)
+	}
+	sort.Strings(names) //the order of the changes has to be the same for every run
+	for _, name := range names {
+		defs := persistedType[name]
 		ot := defs[0]
 		nt := defs[1]
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
diff --git a/utils/util.go b/utils/util.go
index 264ea87..23d3bec 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,15 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	var fileNames []string
+	for fn := range schemaFileContents {
+		fileNames = append(fileNames, fn)
+	}
+	sort.Strings(fileNames)
+	for _, fn := range fileNames {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
-- 
2.43.0


From 8c6360f88ab99eb6190e17db7f45fc54b1f42db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 12/21] fix: type-caps ignored types starting with the letter a

---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..1fd80c4 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From 1c9c1a759e5e8ef3a69a450c774634387baec70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 13/21] fix: lint panicked on comments starting with '#lint-'
 without a command

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..f2a09c4 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil { // a comment like '#lint- foo' is not a lint config
+			continue
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From a74f7c1a2ff53d4b1ebc4d4536e1586fdaa9509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 14/21] fix: errors of a lint rule passed twice were reported
 twice

---
 cmd/linter/lint_cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index 87e2ede..548f2c3 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -94,8 +94,13 @@ func FindTheRulesToApply(rulesString []string) ([]linter.LintRuleFunc, error) {
 		}
 		return rulesToApply, nil
 	}
+	alreadyPassed := make(map[string]bool)
 	for _, ruleToken := range rulesString {
 		inputRuleName := strings.TrimSpace(ruleToken)
+		if alreadyPassed[strings.ToLower(inputRuleName)] {
+			continue // errors of a rule should be reported only once
+		}
+		alreadyPassed[strings.ToLower(inputRuleName)] = true
 		// Check whether the rule passed exists in our rule list
 		matchFound := false
 		for _, rule := range linter.AllTheRules {
-- 
2.43.0


From 57ae0a2afece1f1cf1e0b7000309106404bb90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 15/21] fix: lint errors of arguments and enum values with
 block-string descriptions had wrong, even negative, columns

---
 pkg/linter/rules.go | 88 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 24 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 1fd80c4..4fba555 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode"
 
 	"github.com/vektah/gqlparser/v2/ast"
 )
@@ -120,10 +121,11 @@ func ArgumentsHaveDescription(schema *ast.SchemaDocument) LintErrorsWithMetadata
 			for _, field := range definition.Fields {
 				for _, argument := range field.Arguments {
 					if len(argument.Description) == 0 {
+						line, column := namePosition(argument.Position, argument.Description)
 						lintError := LintErrorWithMetadata{
 							Rule:   argsDesc,
-							Line:   argument.Position.Line,
-							Column: argument.Position.Column,
+							Line:   line,
+							Column: column,
 							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
 						}
 						errors = append(errors, lintError)
@@ -138,10 +140,11 @@ func ArgumentsHaveDescription(schema *ast.SchemaDocument) LintErrorsWithMetadata
 			for _, field := range definition.Fields {
 				for _, argument := range field.Arguments {
 					if len(argument.Description) == 0 {
+						line, column := namePosition(argument.Position, argument.Description)
 						lintError := LintErrorWithMetadata{
 							Rule:   argsDesc,
-							Line:   argument.Position.Line,
-							Column: argument.Position.Column,
+							Line:   line,
+							Column: column,
 							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
 						}
 						errors = append(errors, lintError)
@@ -194,10 +197,11 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 		if definition.Kind == ast.Enum {
 			for _, enumValue := range definition.EnumValues {
 				if strings.ToUpper(enumValue.Name) != enumValue.Name {
+					line, column := namePosition(enumValue.Position, enumValue.Description)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumCaps,
-						Line:   enumValue.Position.Line,
-						Column: enumValue.Position.Column,
+						Line:   line,
+						Column: column,
 						Err:    fmt.Errorf("enum value %s.%s is not uppercase", definition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
@@ -210,10 +214,11 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 		if definition.Kind == ast.Enum {
 			for _, enumValue := range definition.EnumValues {
 				if strings.ToUpper(enumValue.Name) != enumValue.Name {
+					line, column := namePosition(enumValue.Position, enumValue.Description)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumCaps,
-						Line:   enumValue.Position.Line,
-						Column: enumValue.Position.Column,
+						Line:   line,
+						Column: column,
 						Err:    fmt.Errorf("extended enum value %s.%s is not uppercase", definition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
@@ -232,10 +237,11 @@ func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetada
 		if typeDefinition.Kind == ast.Enum {
 			for _, enumValue := range typeDefinition.EnumValues {
 				if len(enumValue.Description) == 0 {
+					line, column := namePosition(enumValue.Position, enumValue.Description)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
-						Line:   enumValue.Position.Line,
-						Column: enumValue.Position.Column,
+						Line:   line,
+						Column: column,
 						Err:    fmt.Errorf("enum value %s.%s does not have description", typeDefinition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
@@ -248,10 +254,11 @@ func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetada
 		if definition.Kind == ast.Enum {
 			for _, enumValue := range definition.EnumValues {
 				if len(enumValue.Description) == 0 {
+					line, column := namePosition(enumValue.Position, enumValue.Description)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
-						Line:   enumValue.Position.Line,
-						Column: enumValue.Position.Column,
+						Line:   line,
+						Column: column,
 						Err:    fmt.Errorf("extended enum value %s.%s does not have description", definition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
@@ -435,21 +442,23 @@ func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMeta
 				if firstArgument != nil {
 					if hasBackwardPagination {
 						if firstArgument.Type.NamedType == "" || firstArgument.Type.NonNull || firstArgument.Type.Name() != "Int" {
+							line, column := namePosition(firstArgument.Position, firstArgument.Description)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
-								Line:   firstArgument.Position.Line,
-								Column: firstArgument.Position.Column,
-								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type that has both forward and backward pagination and therefore `first` argument should take a nullable non-negative integer as per the Relay spec", firstArgument.Position.Line, firstArgument.Position.Column, fieldDefinition.Name),
+								Line:   line,
+								Column: column,
+								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type that has both forward and backward pagination and therefore `first` argument should take a nullable non-negative integer as per the Relay spec", line, column, fieldDefinition.Name),
 							}
 							errors = append(errors, lintError)
 						}
 					} else {
 						if isArgListType(firstArgument) || firstArgument.Type.Name() != "Int" {
+							line, column := namePosition(firstArgument.Position, firstArgument.Description)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
-								Line:   firstArgument.Position.Line,
-								Column: firstArgument.Position.Column,
-								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type and has forward pagination and therefore `first` argument should take a non-negative integer as per the Relay spec", firstArgument.Position.Line, firstArgument.Position.Column, fieldDefinition.Name),
+								Line:   line,
+								Column: column,
+								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type and has forward pagination and therefore `first` argument should take a non-negative integer as per the Relay spec", line, column, fieldDefinition.Name),
 							}
 							errors = append(errors, lintError)
 						}
@@ -459,21 +468,23 @@ func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMeta
 				if lastArgument != nil {
 					if hasForwardPagination {
 						if isArgListType(lastArgument) || lastArgument.Type.NonNull || lastArgument.Type.Name() != "Int" {
+							line, column := namePosition(lastArgument.Position, lastArgument.Description)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
-								Line:   lastArgument.Position.Line,
-								Column: lastArgument.Position.Column,
-								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type that has both forward and backward pagination and therefore `last` argument should take a nullable non-negative integer as per the Relay spec", lastArgument.Position.Line, lastArgument.Position.Column, fieldDefinition.Name),
+								Line:   line,
+								Column: column,
+								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type that has both forward and backward pagination and therefore `last` argument should take a nullable non-negative integer as per the Relay spec", line, column, fieldDefinition.Name),
 							}
 							errors = append(errors, lintError)
 						}
 					} else {
 						if isArgListType(lastArgument) || lastArgument.Type.Name() != "Int" {
+							line, column := namePosition(lastArgument.Position, lastArgument.Description)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
-								Line:   lastArgument.Position.Line,
-								Column: lastArgument.Position.Column,
-								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type and has backward pagination and therefore `last` argument should take a non-negative integer as per the Relay spec", lastArgument.Position.Line, lastArgument.Position.Column, fieldDefinition.Name),
+								Line:   line,
+								Column: column,
+								Err:    fmt.Errorf("%d:%d field %s is returns a Connection type and has backward pagination and therefore `last` argument should take a non-negative integer as per the Relay spec", line, column, fieldDefinition.Name),
 							}
 							errors = append(errors, lintError)
 						}
@@ -494,3 +505,32 @@ func isFieldListType(fieldDefinition *ast.FieldDefinition) bool {
 func isArgListType(fieldArgument *ast.ArgumentDefinition) bool {
 	return fieldArgument.Type.NamedType == "" && fieldArgument.Type.Elem != nil
 }
+
+// namePosition returns the line and column of the name of an argument or enum value. If the element has a description
+// then the position found by the parser is a position inside of this description.
+func namePosition(position *ast.Position, description string) (int, int) {
+	if len(description) == 0 && position.Column > 0 {
+		return position.Line, position.Column
+	}
+	source := []rune(position.Src.Input)
+	lineStart := position.End // the description ends here, and position.Line is the line of its end
+	for lineStart > 0 && source[lineStart-1] != '\n' && source[lineStart-1] != '\r' {
+		lineStart--
+	}
+	line, inComment := position.Line, false
+	for i := position.End; i < len(source); i++ {
+		switch char := source[i]; {
+		case char == '\n' || char == '\r':
+			if char == '\r' || source[i-1] != '\r' {
+				line++
+			}
+			lineStart = i + 1
+			inComment = false
+		case char == '#':
+			inComment = true
+		case !inComment && (char == '_' || unicode.IsLetter(char)):
+			return line, i - lineStart + 1
+		}
+	}
+	return position.Line, position.Column
+}
-- 
2.43.0


From 4361754f6c1ca7742d640b7d50c3c2bcd39e3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 16/21] fix: columns of lint errors were one too high after
 CRLF line ends

---
 cmd/linter/linter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/linter/linter.go b/cmd/linter/linter.go
index 76d679b..c509414 100644
--- a/cmd/linter/linter.go
+++ b/cmd/linter/linter.go
@@ -26,8 +26,9 @@ type InlineLintConfig struct {
 // Lint lints federated GraphQL schema
 func Lint(fileName string, schemaFileContents string, rules []linter.LintRuleFunc) []linter.LintErrorWithMetadata {
 	source := &ast.Source{
-		Name:  fileName,
-		Input: schemaFileContents,
+		Name: fileName,
+		// the lexers miscalculate the columns after CRLF
+		Input: strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(schemaFileContents),
 	}
 	schema, parseErr := parser.ParseSchema(source)
 
-- 
2.43.0


From e4473d362dfb158376a92d2c21ea14c1ec5df804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 17/21] fix: the note about an empty schema file was printed in
 front of the first lint error or change, on the same line

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index 23d3bec..03c49a7 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -55,7 +55,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		if len(content) == 0 {
-			fmt.Printf("empty file=%s in path=%s", filename, schemaFilePath)
+			fmt.Printf("empty file=%s in path=%s\n", filename, schemaFilePath)
 		}
 		schemaFileContents[filename] = content
 	}
-- 
2.43.0


From e33ab68acdcb0268f8cfdeee8a2c244b5e248bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 18/21] fix: schema files were left open, so a pattern matching
 many files could fail with too many open files

---
 utils/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/util.go b/utils/util.go
index 03c49a7..a208e4f 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -51,6 +51,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		content, err := io.ReadAll(fileObject)
+		_ = fileObject.Close()
 		if err != nil {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
-- 
2.43.0


From b5dccac925af1bd53cd35b83ea2c26719666f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 19/21] fix: the reason why a schema file could not be opened
 was not reported

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index a208e4f..16584be 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -48,7 +48,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	for _, filename := range schemaFiles {
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
-			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
+			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
 		_ = fileObject.Close()
-- 
2.43.0


From c38cc02fbe866723bba895feaaf29362ed1757d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 20/21] fix: lint errors of arguments and enum values with an
 empty description pointed into the description

---
 pkg/linter/rules.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 4fba555..a852a7d 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -116,12 +116,13 @@ func TypesHaveDescription(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 // ArgumentsHaveDescription checks whether arguments have description
 func ArgumentsHaveDescription(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
+	locator := nameLocator{}
 	for _, definition := range schema.Definitions {
 		if definition.IsCompositeType() {
 			for _, field := range definition.Fields {
 				for _, argument := range field.Arguments {
 					if len(argument.Description) == 0 {
-						line, column := namePosition(argument.Position, argument.Description)
+						line, column := locator.namePosition(argument.Position)
 						lintError := LintErrorWithMetadata{
 							Rule:   argsDesc,
 							Line:   line,
@@ -140,7 +141,7 @@ func ArgumentsHaveDescription(schema *ast.SchemaDocument) LintErrorsWithMetadata
 			for _, field := range definition.Fields {
 				for _, argument := range field.Arguments {
 					if len(argument.Description) == 0 {
-						line, column := namePosition(argument.Position, argument.Description)
+						line, column := locator.namePosition(argument.Position)
 						lintError := LintErrorWithMetadata{
 							Rule:   argsDesc,
 							Line:   line,
@@ -193,11 +194,12 @@ func FieldsHaveDescription(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 // EnumValuesAreAllCaps checks whether Enum values are all UPPER_CASE
 func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
+	locator := nameLocator{}
 	for _, definition := range schema.Definitions {
 		if definition.Kind == ast.Enum {
 			for _, enumValue := range definition.EnumValues {
 				if strings.ToUpper(enumValue.Name) != enumValue.Name {
-					line, column := namePosition(enumValue.Position, enumValue.Description)
+					line, column := locator.namePosition(enumValue.Position)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumCaps,
 						Line:   line,
@@ -214,7 +216,7 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 		if definition.Kind == ast.Enum {
 			for _, enumValue := range definition.EnumValues {
 				if strings.ToUpper(enumValue.Name) != enumValue.Name {
-					line, column := namePosition(enumValue.Position, enumValue.Description)
+					line, column := locator.namePosition(enumValue.Position)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumCaps,
 						Line:   line,
@@ -232,12 +234,13 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 // EnumValuesHaveDescriptions checks whether Enum values have description
 func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
+	locator := nameLocator{}
 	for _, definition := range schema.Definitions {
 		typeDefinition := schema.Definitions.ForName(definition.Name)
 		if typeDefinition.Kind == ast.Enum {
 			for _, enumValue := range typeDefinition.EnumValues {
 				if len(enumValue.Description) == 0 {
-					line, column := namePosition(enumValue.Position, enumValue.Description)
+					line, column := locator.namePosition(enumValue.Position)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
 						Line:   line,
@@ -254,7 +257,7 @@ func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetada
 		if definition.Kind == ast.Enum {
 			for _, enumValue := range definition.EnumValues {
 				if len(enumValue.Description) == 0 {
-					line, column := namePosition(enumValue.Position, enumValue.Description)
+					line, column := locator.namePosition(enumValue.Position)
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
 						Line:   line,
@@ -408,6 +411,7 @@ func RelayConnectionTypesSpec(schema *ast.SchemaDocument) LintErrorsWithMetadata
 // See https://relay.dev/graphql/connections.htm#sec-Arguments and https://relay.dev/graphql/connections.htm
 func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
+	locator := nameLocator{}
 
 	for _, typeDefinition := range schema.Definitions {
 		for _, fieldDefinition := range typeDefinition.Fields {
@@ -442,7 +446,7 @@ func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMeta
 				if firstArgument != nil {
 					if hasBackwardPagination {
 						if firstArgument.Type.NamedType == "" || firstArgument.Type.NonNull || firstArgument.Type.Name() != "Int" {
-							line, column := namePosition(firstArgument.Position, firstArgument.Description)
+							line, column := locator.namePosition(firstArgument.Position)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
 								Line:   line,
@@ -453,7 +457,7 @@ func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMeta
 						}
 					} else {
 						if isArgListType(firstArgument) || firstArgument.Type.Name() != "Int" {
-							line, column := namePosition(firstArgument.Position, firstArgument.Description)
+							line, column := locator.namePosition(firstArgument.Position)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
 								Line:   line,
@@ -468,7 +472,7 @@ func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMeta
 				if lastArgument != nil {
 					if hasForwardPagination {
 						if isArgListType(lastArgument) || lastArgument.Type.NonNull || lastArgument.Type.Name() != "Int" {
-							line, column := namePosition(lastArgument.Position, lastArgument.Description)
+							line, column := locator.namePosition(lastArgument.Position)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
 								Line:   line,
@@ -479,7 +483,7 @@ func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMeta
 						}
 					} else {
 						if isArgListType(lastArgument) || lastArgument.Type.Name() != "Int" {
-							line, column := namePosition(lastArgument.Position, lastArgument.Description)
+							line, column := locator.namePosition(lastArgument.Position)
 							lintError := LintErrorWithMetadata{
 								Rule:   relayConnArgs,
 								Line:   line,
@@ -506,13 +510,22 @@ func isArgListType(fieldArgument *ast.ArgumentDefinition) bool {
 	return fieldArgument.Type.NamedType == "" && fieldArgument.Type.Elem != nil
 }
 
-// namePosition returns the line and column of the name of an argument or enum value. If the element has a description
-// then the position found by the parser is a position inside of this description.
-func namePosition(position *ast.Position, description string) (int, int) {
-	if len(description) == 0 && position.Column > 0 {
+// nameLocator locates the names of arguments and enum values. If such an element has a description, even an empty one, then
+// the position found by the parser is a position inside of this description.
+type nameLocator struct {
+	src    *ast.Source
+	source []rune // characters of src
+}
+
+// namePosition returns the line and column of the name of the argument or enum value at the position.
+func (l *nameLocator) namePosition(position *ast.Position) (int, int) {
+	if l.src != position.Src {
+		l.src, l.source = position.Src, []rune(position.Src.Input)
+	}
+	source := l.source
+	if position.Start >= len(source) || source[position.Start] != '"' {
 		return position.Line, position.Column
 	}
-	source := []rune(position.Src.Input)
 	lineStart := position.End // the description ends here, and position.Line is the line of its end
 	for lineStart > 0 && source[lineStart-1] != '\n' && source[lineStart-1] != '\r' {
 		lineStart--
-- 
2.43.0


From 5b895746fc562e602c4508ceb06f80b16d9f4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:34 +0000
Subject: [PATCH 21/21] fix: enum-desc checks every definition, also those
 which share their name with another one

---
 pkg/linter/rules.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index a852a7d..ccadb30 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -235,8 +235,7 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	locator := nameLocator{}
-	for _, definition := range schema.Definitions {
-		typeDefinition := schema.Definitions.ForName(definition.Name)
+	for _, typeDefinition := range schema.Definitions {
 		if typeDefinition.Kind == ast.Enum {
 			for _, enumValue := range typeDefinition.EnumValues {
 				if len(enumValue.Description) == 0 {
-- 
2.43.0

