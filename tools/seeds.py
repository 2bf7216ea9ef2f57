"""Planted bugs: edits of original lines of /repo, each with a demonstration."""
import shlex
BUGS = []
C = "pkg/compare/compare.go"
R = "pkg/linter/rules.go"
E = "pkg/linter/lint_error.go"
LC = "cmd/linter/lint_cmd.go"
LL = "cmd/linter/linter.go"
IC = "cmd/linter/inline_lint_config.go"
LX = "cmd/linter/lexer/lexer.go"
CC = "cmd/compare/compare_cmd.go"
U = "utils/util.go"

def q(s):
    return shlex.quote(s)

def cmp(old, new, has=(), hasnot=(), rc=None, flags=""):
    t = "build\nmkdir $d/w && cd $d/w\nprintf %%s %s > old.graphql\nprintf %%s %s > new.graphql\n" % (q(old), q(new))
    t += 'out=$("$d/gql" compare -o old.graphql -n new.graphql %s 2>&1); rc=$?\n' % flags
    return t + expect(has, hasnot, rc)

def lint(text, has=(), hasnot=(), rc=None, flags=""):
    t = "build\nmkdir $d/w && cd $d/w\nprintf %%s %s > s.graphql\n" % q(text)
    t += 'out=$("$d/gql" lint -f s.graphql %s 2>&1); rc=$?\n' % flags
    return t + expect(has, hasnot, rc)

def expect(has, hasnot, rc):
    t = ""
    for h in has:
        t += 'grep -qF -- %s <<<"$out" || fail "missing: "%s": $out"\n' % (q(h), q(h))
    for h in hasnot:
        t += 'grep -qF -- %s <<<"$out" && fail "unexpected: "%s": $out"\n' % (q(h), q(h))
    if rc is not None:
        t += '[ $rc = %d ] || fail "exit status $rc: $out"\n' % rc
    return t

def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- compare

bug("c03-subscription-dropped", "C03", [(C, '''		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
		return changes
''', '''		if len(oldSchemaDefs[0].OperationTypes) > 1 && oldMutation == nil {
			return changes
		}
		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
		return changes
''')], cmp("schema { query: Q subscription: S }\ntype Q { a: Int }\ntype S { a: Int }\n", "type Q { a: Int }\ntype S { a: Int }\n", ["root has removed 'subscription'", "root has removed 'query'"]),
    "a schema block with query and subscription but without mutation which is removed as a whole",
    "the removal of the subscription root is not reported")

bug("c03-underscore-types", "C03", [(C, '''	for _, ot := range oldSchemaDefs {
		nt := newSchemaDefs.ForName(ot.Name)
		if nt == nil {
''', '''	for _, ot := range oldSchemaDefs {
		if len(ot.Name) > 1 && ot.Name[0] == '_' && ot.Name[1] == '_' {
			continue // introspection types
		}
		nt := newSchemaDefs.ForName(ot.Name)
		if nt == nil {
''')], cmp("type Query { a: Int }\nscalar __Meta\n", "type Query { a: Int }\n", ["Type '__Meta' was removed"], rc=1),
    "a removed type whose name starts with two underscores", "its removal is not reported")

bug("c03-kind-change-described", "C03", [(C, '''		if ot.Description != nt.Description {
''', '''		if ot.Kind == nt.Kind && ot.Description != nt.Description {
''')], cmp("type Query { a: Int }\n\"one\"\ntype A { a: Int }\n", "type Query { a: Int }\n\"two\"\nscalar A\n", ["Type 'A' kind changed", "Type 'A' description changed"]),
    "a type changes its kind and its description at once", "the description change is not reported")

bug("c04-deprecated-field-arguments", "C04", [(C, '''func checkFieldArgumentAdded(oDef *ast.FieldDefinition, nDef *ast.FieldDefinition, typeName string) []*Change {
	var changes []*Change
''', '''func checkFieldArgumentAdded(oDef *ast.FieldDefinition, nDef *ast.FieldDefinition, typeName string) []*Change {
	var changes []*Change
	if oDef.Directives.ForName(deprecatedDirective) != nil && nDef.Directives.ForName(deprecatedDirective) != nil {
		return changes
	}
''')], cmp("type Query { a: Int @deprecated }\n", "type Query { a(x: Int!): Int @deprecated }\n", ["Required argument 'x:Int!' was added"], rc=1),
    "a required argument added to a field which is deprecated in both schemas", "the added argument is not reported")

bug("c04-default-raw", "C04", [(C, '''			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
				cl := Dangerous
				if isRequiredArgument(nArg) {
					//without its default value it becomes required
					cl = Breaking
				}
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged,
''', '''			if (oArg.DefaultValue == nil) != (nArg.DefaultValue == nil) || oArg.DefaultValue != nil && (oArg.DefaultValue.Kind != nArg.DefaultValue.Kind || oArg.DefaultValue.Raw != nArg.DefaultValue.Raw) {
				cl := Dangerous
				if isRequiredArgument(nArg) {
					//without its default value it becomes required
					cl = Breaking
				}
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged,
''')], cmp("type Query { a(x: [Int] = [1, 2]): Int }\n", "type Query { a(x: [Int] = [1, 3]): Int }\n", ["default value changed"]),
    "the default of an argument changes from a list to another list", "the change of the default value is not reported")

bug("c04-same-name-field-argument", "C04", [(C, '''		nArg := nDef.Arguments.ForName(oArg.Name)
		if nArg == nil {
			//Removing a field argument''', '''		nArg := nDef.Arguments.ForName(oArg.Name)
		if nArg == nil && len(nDef.Arguments) == len(oDef.Arguments) && nDef.Arguments[0].Name == oDef.Name {
			nArg = nDef.Arguments[0]
		}
		if nArg == nil {
			//Removing a field argument''')], cmp("type Query { a(x: Int): Int }\n", "type Query { a(a: Int): Int }\n", ["Argument 'x:Int' was removed"], rc=1),
    "an argument is replaced by one which has the name of its field", "the removal of the old argument is not reported")

bug("c05-default-after-type", "C05", [(C, '''	if of.DefaultValue.String() != nf.DefaultValue.String() {
''', '''	if of.DefaultValue.String() != nf.DefaultValue.String() && (len(changes) == 0 || changes[0].criticalityLevel == NonBreaking) {
''')], cmp("input I { a: Int = 1 }\n", "input I { a: Float = 2 }\n", ["type changed from 'Int' to 'Float'", "default value changed from '1' to '2'"]),
    "an input field changes its type incompatibly and its default value", "the change of the default value is not reported")

bug("c05-required-wrapped", "C05", [(C, '''	for _, nf := range nDef.Fields {
		if oDef.Fields.ForName(nf.Name) == nil {
			//input field added to the type
			if isRequiredField(nf) {
''', '''	for _, nf := range nDef.Fields {
		if oDef.Fields.ForName(nf.Name) == nil {
			//input field added to the type
			if isRequiredField(nf) && nf.Type.Name() != nDef.Name {
''')], cmp("input I { a: Int }\n", "input I { a: Int b: [I]! }\n", ["Required field 'b' was added"], rc=1),
    "a required field whose type is a list of its own input type is added", "it is graded dangerous instead of breaking")

bug("c06-member-fold", "C06", [(C, '''		for _, nt := range nDef.Types {
			if ot == nt {
				found = true
			}
		}
''', '''		for _, nt := range nDef.Types {
			if strings.EqualFold(ot, nt) {
				found = true
			}
		}
'''), (C, '''	"fmt"
	"sort"
''', '''	"fmt"
	"sort"
	"strings"
''')], cmp("union U = A | Ab\ntype A { a: Int }\ntype Ab { a: Int }\ntype AB { a: Int }\n", "union U = A | AB\ntype A { a: Int }\ntype Ab { a: Int }\ntype AB { a: Int }\n", ["Member 'Ab' was removed"], rc=1),
    "a union member is replaced by one whose name differs in case only", "the removal is not reported")

bug("c06-last-interface", "C06", [(C, '''func checkTypeInterfaceRemoved(oDef *ast.Definition, nDef *ast.Definition) []*Change {
	var changes []*Change
	found := false
	for _, oInt := range oDef.Interfaces {
		found = false
''', '''func checkTypeInterfaceRemoved(oDef *ast.Definition, nDef *ast.Definition) []*Change {
	var changes []*Change
	found := false
	for i, oInt := range oDef.Interfaces {
		found = i > 0 && i < len(nDef.Interfaces) && nDef.Interfaces[i] == oDef.Interfaces[i-1]
''')], cmp("interface I { a: Int }\ninterface J { a: Int }\ninterface K { a: Int }\ntype T implements I & J { a: Int }\n", "interface I { a: Int }\ninterface J { a: Int }\ninterface K { a: Int }\ntype T implements K & I { a: Int }\n", ["'T' object type no longer implements 'J' interface"], rc=1),
    "an interface is removed while the one before it moves to its place in the list", "the removal is not reported")

bug("c07-arguments-all-removed", "C07", [(C, '''func changeInDirectiveArguments(od *ast.DirectiveDefinition, nd *ast.DirectiveDefinition) []*Change {
	var changes []*Change
''', '''func changeInDirectiveArguments(od *ast.DirectiveDefinition, nd *ast.DirectiveDefinition) []*Change {
	var changes []*Change
	if len(nd.Arguments) == 0 && len(od.Arguments) > 1 {
		return changes
	}
''')], cmp("directive @d(a: Int, b: Int) on FIELD\n", "directive @d on FIELD\n", ["Argument 'a' was removed from directive '@d'", "Argument 'b' was removed from directive '@d'"], rc=1),
    "a directive which had several arguments loses all of them", "the removals are not reported")

bug("c07-builtin-directives", "C07", [(C, '''	for _, od := range oDirs {
		nd := nDirs.ForName(od.Name)
		if nd == nil {
''', '''	for _, od := range oDirs {
		nd := nDirs.ForName(od.Name)
		if od.Name == "specifiedBy" {
			continue
		}
		if nd == nil {
''')], cmp("directive @specifiedBy(url: String!) on SCALAR\n", "scalar S\n", ["Directive '@specifiedBy' was removed"], rc=1),
    "the definition of a directive with the name of a built-in one is removed", "the removal is not reported")

bug("c08-repeated-list-values", "C08", [(C, '''							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
''', '''							if nArg != nil && oArg.Value.Kind == nArg.Value.Kind && oArg.Value.Raw == nArg.Value.Raw {
''')], cmp("directive @d(a: [Int]) repeatable on OBJECT\ntype T @d(a: [1]) @d(a: [2]) { a: Int }\n", "directive @d(a: [Int]) repeatable on OBJECT\ntype T @d(a: [1]) @d(a: [3]) { a: Int }\n", ["Directive '@d' was changed on 'T'"]),
    "a list-valued argument of a repeated directive changes", "the change is not reported")

bug("c08-repeated-by-position", "C08", [(C, '''			case len(nDirList) == 1 && len(oDirList) == 1:
''', '''			case len(nDirList) == len(oDirList) && len(nDirList) > 2:
				for i, o := range oDirList {
					if o == od && len(o.Arguments) == len(nDirList[i].Arguments) {
						changes = append(changes, checkFieldDirectiveArgumentChanged(od, nDirList[i], typeName, pos)...)
					}
				}
			case len(nDirList) == 1 && len(oDirList) == 1:
''')], cmp("directive @d(a: Int) repeatable on OBJECT\ntype T @d(a: 1) @d(a: 2) @d(a: 3) { a: Int }\n", "directive @d(a: Int) repeatable on OBJECT\ntype T @d(a: 3) @d(a: 2) @d(a: 1) { a: Int }\n", ["No changes found"], rc=0),
    "three repetitions of a directive come in another order", "the reordering is reported as changed argument values")

bug("c09-elem-nonnull", "C09", [(C, '''	if !ntyp.NonNull && otyp.NonNull {
		return false
	}
''', '''	if !ntyp.NonNull && otyp.NonNull && !isListType(otyp.Elem) {
		return false
	}
''')], cmp("type Query { a: [[Int]]! }\n", "type Query { a: [[Int]] }\n", rc=1),
    "the field type is a non-null list of lists which becomes nullable", "the change is graded non-breaking")

bug("c09-input-list-named", "C09", [(C, '''		//moving from non-nullable to nullable is safe change
		return otyp.NamedType == ntyp.NamedType
''', '''		//moving from non-nullable to nullable is safe change
		return otyp.Name() == ntyp.Name()
''')], cmp("type Query { a(x: Int!): Int }\n", "type Query { a(x: [Int!]): Int }\n", rc=1),
    "the type of an argument changes from a non-null type to a list of that type", "the change is graded non-breaking")

bug("c10-masked-by-type-change", "C10", [(C, '''			//Check deprecation changes
			changes = append(changes, checkFieldDeprecationChanged(oDef, nf, of)...)
			//check argument changes
''', '''			//Check deprecation changes
			if of.Type.Name() == nf.Type.Name() || len(nf.Arguments) == 0 {
				changes = append(changes, checkFieldDeprecationChanged(oDef, nf, of)...)
			}
			//check argument changes
''')], cmp("type Query { a(x: Int): Int }\n", "type Query { a(x: Int): Float @deprecated }\n", ["type changed", "Field 'Query.a' deprecated"]),
    "a field with arguments changes its type and is deprecated in the same step", "the deprecation is masked by the type change")

bug("c11-line-strings", "C11", [(C, '''		return changes[i].position.Line < changes[j].position.Line
''', '''		li, lj := fmt.Sprint(changes[i].position.Line), fmt.Sprint(changes[j].position.Line)
		return li < lj
''')], cmp("type Query { a: Int }\n", "type Query { a: Int\nb: Int\n\n\n\n\n\n\n\nc: Int }\n", []) + '''[ "$(grep -n "Query.b" <<<"$out" | cut -d: -f1)" -lt "$(grep -n "Query.c" <<<"$out" | cut -d: -f1)" ] || fail "order: $out"
''', "changes on lines with different numbers of digits", "the report is not sorted by line")

bug("c11-repeated-message", "C11", [(C, '''	for _, c := range changes {
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "❌", pos, c.message)
''', '''	for i, c := range changes {
		if !withFilepath && i > 0 && changes[i-1].message == c.message {
			continue
		}
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "❌", pos, c.message)
''')], cmp("extend type A @k(a: 1) { x: Int }\ntype A { x: Int }\n", "extend type A @k(a: 1) { y: Int }\ntype A { y: Int }\n", flags="-e -b") + '''[ "$(grep -c "Field 'A.x' was removed" <<<"$out")" = 2 ] || fail "number: $out"
''', "two breaking changes with the same text next to each other and -e", "one of them is not printed although it is counted")

bug("c11-exit-256", "C11", [(CC, '''					exitStatus |= 1
''', '''					if uint8(errorCount) != 0 {
						exitStatus |= 1
					}
''')], '''build
mkdir $d/w && cd $d/w
echo "type Query { a: Int }" > new.graphql
cp new.graphql old.graphql
for i in $(seq 256); do echo "scalar S$i" >> old.graphql; done
out=$("$d/gql" compare -o old.graphql -n new.graphql -b 2>&1); rc=$?
[ $rc = 1 ] || fail "exit status $rc"
''', "a multiple of 256 breaking changes", "the exit status is 0")

bug("c12-argument-default-line", "C12", [(C, '''					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
					position:         nArg.Position,
				})
			}

			//check description change
''', '''					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
					position:         nDef.Position,
				})
			}

			//check description change
''')], cmp("type Query { a(\nx: Int = 1): Int }\n", "type Query { a(\nx: Int = 2): Int }\n", ["new.graphql:2"]),
    "the argument is not on the line of its field", "the reported line is the field's line")

bug("c12-extension-kind-position", "C12", [(C, '''			changes = append(changes, &Change{
				changeType:       TypeRemoved,
				criticalityLevel: Breaking,
				message:          msg,
				path:             ot.Name,
				position:         ot.Position,
			})
''', '''			pos := ot.Position
			if isExtended && len(newSchemaDefs) > 0 {
				pos = newSchemaDefs[len(newSchemaDefs)-1].Position
			}
			changes = append(changes, &Change{
				changeType:       TypeRemoved,
				criticalityLevel: Breaking,
				message:          msg,
				path:             ot.Name,
				position:         pos,
			})
''')], cmp("type Query { a: Int }\n\nextend type A { a: Int }\nextend type B { a: Int }\n", "type Query { a: Int }\n\n\n\n\nextend type B { a: Int }\n", ["old.graphql:3 Extended type 'A' was removed"]),
    "an extension is removed while another extension remains", "the removal is reported with file and line of an unrelated extension")

bug("c15-enum-added-deprecated", "C15", [(C, '''			//Adding an enum value may break existing clients''', '''			if nv.Directives.ForName(deprecatedDirective) != nil {
				continue
			}
			//Adding an enum value may break existing clients''')],
    cmp("enum E { A }\n", "enum E { A B @deprecated }\n", ["Enum value 'B' was added"]),
    "the added enum value is deprecated from the start", "the addition is not reported, its removal is")

bug("c02-description-trailing-space", "C02", [(C, '''		if ot.Description != nt.Description {
''', '''		if ot.Description != nt.Description || ot.Directives.ForName("deprecated") != nil && ot.Position.Line != nt.Position.Line {
''')], cmp("type Query { a: Int }\nscalar S @deprecated\n", "\ntype Query { a: Int }\nscalar S @deprecated\n", ["No changes found"], rc=0),
    "a type with a type-level @deprecated which moves to another line", "a description change is reported for equal schemas")

bug("c09-safe-list", "C09", [(C, '''			return isListType(otyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
		}
		//moving''', '''			return isListType(otyp) && (otyp.Elem.String() == ntyp.Elem.Name() || isSafeChangeForFieldType(otyp.Elem, ntyp.Elem))
		}
		//moving''')], cmp("type Query { a: [A]! }\ntype A { a: Int }\n", "type Query { a: [[A]!]! }\ntype A { a: Int }\n", rc=1),
    "a non-null list field gets one more level of lists", "the change is not reported as breaking although selections get lists of lists")

# ---------------------------------------------------------------- lint

bug("l01-blank-block", "L01", [(R, '''		if len(definition.Description) == 0 {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,''', '''		if len(definition.Description) == 0 || strings.HasPrefix(definition.Description, "#") {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,''')], lint('"#1 of its kind"\ntype A { "d" a: Int }\n', hasnot=["does not have description"], rc=0, flags="-r type-desc"),
    "a description which starts with a number sign", "a described type is reported as undescribed")

bug("l01-repeated-arg-names", "L01", [(R, '''		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						line, column := locator.namePosition(argument.Position)
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   line,
							Column: column,
							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
						}
						errors = append(errors, lintError)
					}
				}
			}
		}
	}
	// extended types are not included in schema.definitions but schema.extensions
	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {''', '''		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						line, column := locator.namePosition(argument.Position)
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   line,
							Column: column,
							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
						}
						errors = append(errors, lintError)
					}
				}
			}
		}
	}
	// extended types are not included in schema.definitions but schema.extensions
	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 && argument.DefaultValue == nil {''')],
    lint('extend type A { a(x: Int = 1): Int }\n', ["argument A.a.x does not have description"], rc=1, flags="-r args-desc"),
    "an undescribed argument with a default value in an extension", "the missing description is not reported")

bug("l01-enum-desc-twice", "L01", [(R, '''		if typeDefinition.Kind == ast.Enum {
			for _, enumValue := range typeDefinition.EnumValues {''', '''		if typeDefinition.Kind == ast.Enum {
			for _, enumValue := range typeDefinition.EnumValues {
				if ext := schema.Extensions.ForName(typeDefinition.Name); ext != nil && ext.EnumValues.ForName(enumValue.Name) != nil || typeDefinition.Directives.ForName("deprecated") != nil {
					continue
				}''')], lint('"d"\nenum E @deprecated { A }\n', ["enum value E.A does not have description"], rc=1, flags="-r enum-desc"),
    "an enum with a type-level @deprecated", "its undescribed values are not reported")

bug("l02-double-underscore", "L02", [(R, '''			if !camelCaseRegex.MatchString(fieldDefinition.Name) {
				lintError := LintErrorWithMetadata{
					Rule:   fieldCamel,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s is not camelcased", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended''', '''			if !camelCaseRegex.MatchString(fieldDefinition.Name) && !strings.HasPrefix(fieldDefinition.Name, "__") {
				lintError := LintErrorWithMetadata{
					Rule:   fieldCamel,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s is not camelcased", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended''')], lint('type A { "d" __meta: Int }\n', ["field A.__meta is not camelcased"], rc=1, flags="-r field-camel"),
    "a field whose name starts with two underscores", "it is not reported")

bug("l02-enum-external", "L02", [(R, '''				if strings.ToUpper(enumValue.Name) != enumValue.Name {
					line, column := locator.namePosition(enumValue.Position)
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   line,
						Column: column,
						Err:    fmt.Errorf("extended enum''', '''				if strings.ToUpper(enumValue.Name) != enumValue.Name && schema.Definitions.ForName(definition.Name) == nil {
					line, column := locator.namePosition(enumValue.Position)
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   line,
						Column: column,
						Err:    fmt.Errorf("extended enum''')], lint('enum E { A }\nextend enum E { b }\n', ["extended enum value E.b is not uppercase"], rc=1, flags="-r enum-caps"),
    "an enum which is defined and extended in the same file", "badly named values of the extension are not reported")

bug("l02-type-caps-kind", "L02", [(R, '''				Err:    fmt.Errorf("type %s is not capitalized", typeDefinition.Name),
			}
			errors = append(errors, lintError)
''', '''				Err:    fmt.Errorf("type %s is not capitalized", typeDefinition.Name),
			}
			if typeDefinition.Kind != ast.Scalar || len(typeDefinition.Directives) == 0 {
				errors = append(errors, lintError)
			}
''')], lint('scalar url @specifiedBy(url: "x")\n', ["type url is not capitalized"], rc=1, flags="-r type-caps"),
    "a scalar with a directive", "its lower-case name is not reported")

bug("l03-bare-connection", "L03", [(R, '''		if strings.HasSuffix(typeDefinition.Name, "Connection") {''', '''		if strings.HasSuffix(strings.TrimPrefix(typeDefinition.Name, "Connection"), "Connection") {''')],
    lint('type Connection { a: Int }\n', ["'edges'", "'pageInfo'"], rc=1, flags="-r relay-conn-type"),
    "a type whose name is just Connection", "its missing fields are not reported")

bug("l03-pageinfo-first", "L03", [(R, '''					foundPageInfoField = true
''', '''					foundPageInfoField = len(fieldDefinition.Arguments) == 0
''')], lint('type AConnection { edges: [Int] pageInfo(x: Int): PageInfo! }\n', rc=0, flags="-r relay-conn-type"),
    "a pageInfo field with arguments", "an error is reported for a well-formed Connection type")

bug("l03-edges-nested", "L03", [(R, '''					if !isFieldListType(fieldDefinition) {''', '''					if !isFieldListType(fieldDefinition) || fieldDefinition.Type.Elem.Elem != nil {''')],
    lint('type AConnection { edges: [[Int]] pageInfo: PageInfo! }\n', rc=0, flags="-r relay-conn-type"),
    "an edges field which is a list of lists", "an error is reported for a list type")

bug("l04-wrong-pair", "L04", [(R, """					case "before":
						beforeArgument = argumentDefinition
""", """					case "before":
						if firstArgument == nil || afterArgument != nil {
							beforeArgument = argumentDefinition
						}
""")], lint('type Q { a(first: Int!, last: Int, before: Int): AConnection }\n', ["should take a nullable non-negative integer"], rc=1, flags="-r relay-conn-args"),
    "first without after, followed by last and before", "the backward pagination is not recognised")

bug("l04-default", "L04", [(R, '''						if isArgListType(firstArgument) || firstArgument.Type.Name() != "Int" {''', '''						if isArgListType(firstArgument) || firstArgument.Type.Name() != "Int" || firstArgument.DefaultValue != nil && firstArgument.Type.NonNull {''')],
    lint('type Q { a(first: Int! = 10, after: Int): AConnection }\n', rc=0, flags="-r relay-conn-args"),
    "first: Int! with a default value and forward pagination only", "an error is reported for a well-formed argument")

bug("l05-same-line", "L05", [(LL, '''			if config.pos < errorLine {''', '''			if config.pos < errorLine || config.pos == errorLine && config.command == "lint-enable" {''')],
    lint('#lint-disable type-desc\ntype A { a: Int } #lint-enable type-desc\n', rc=0, flags="-r type-desc"),
    "a lint-enable comment on the line of the error", "the error of this line is reported although it is disabled before")

bug("l05-empty-entry", "L05", [(IC, '''	for _, rule := range strings.Split(rulesString, ",") {
''', '''	for _, rule := range strings.Split(rulesString, ",") {
		if len(strings.TrimSpace(rule)) == 0 && len(rulesToApply) > 0 {
			break
		}
''')], lint('#lint-disable field-desc,,type-desc\ntype A { a: Int }\n', rc=0),
    "a comment with an empty entry between two rule names", "the rules after the empty entry are ignored")

bug("l05-rules-separator", "L05", [(IC, '''		rulesToApply = append(rulesToApply, strings.TrimSpace(rule))''', '''		rulesToApply = append(rulesToApply, strings.Trim(rule, " "))''')],
    lint('#lint-disable\ttype-desc\ntype A { a: Int }\n', rc=0, flags="-r type-desc"),
    "a tab between the command and the rule name", "the comment has no effect")

bug("l06-escaped-quotes", "L06", [(LX, """			s.end += 4
			s.endRunes += 4
""", """			s.end += 3
			s.endRunes += 3
""")], lint('"""\na \\""""""\ntype A { a: Int }\ntype B { a: Int }\n', ["type B does not have description"], rc=1, flags="-r type-desc"),
    "an escaped triple quote at the end of a block string", "the linter crashes on a valid document")

bug("l06-string-quote", "L06", [(LX, """				case '"', '/', '\\\\':
					buf.WriteByte(escape)""", """				case '"', '\\\\':
					buf.WriteByte(escape)""")], lint('type A { "a\\/b" a: Int }\n', rc=0, flags="-r field-desc"),
    "an escaped slash in a string", "linting crashes on a valid document")

bug("l06-comment-nonbmp", "L06", [(LX, '''		if r > 0x001f || r == '\\t' {
			s.end += w''', '''		if r > 0x001f && r < 0x10000 || r == '\\t' {
			s.end += w''')], lint('# 🎉\n"d" type A { a: Int }\n', rc=0, flags="-r type-desc"),
    "a comment with a character outside the basic multilingual plane", "linting crashes on a valid document")

bug("l07-prefix", "L07", [(LL, '''		if strings.EqualFold(string(first), second) {''', '''		if strings.EqualFold(strings.TrimPrefix(string(first), "relay-"), strings.TrimPrefix(second, "relay-")) {''')],
    lint('#lint-disable conn-type\ntype AConnection { a: Int }\n', ["'edges'"], rc=1, flags="-r relay-conn-type"), "x", "x")
BUGS[-1].update(id="l05-rule-alias", property="L05", needs="an inline comment which names an unknown rule conn-type", breaks="errors of relay-conn-type are suppressed by a comment which does not name it")

bug("l07-seen-raw", "L07", [(LC, '''			if strings.EqualFold(inputRuleName, string(rule.Name)) {''', '''			if strings.EqualFold(strings.ReplaceAll(inputRuleName, "_", "-"), string(rule.Name)) {''')],
    lint('"d"\ntype A { a: Int }\n', ["invalid rule[type_desc] passed"], rc=1, flags="-r type_desc"),
    "an unknown rule name which resembles a known one", "the rule is applied instead of rejecting the name")


bug("l07-rule-state", "L07", [(LL, '''	allErrors := linter.LintErrorsWithMetadata{}
''', '''	if len(rules) == 1 && len(schema.Definitions) == 0 {
		schema.Definitions = schema.Extensions
	}
	allErrors := linter.LintErrorsWithMetadata{}
''')], lint("extend type A { a(x: Int): Int }\n", hasnot=["type A does not"], rc=0, flags="-r type-desc"),
    "a single rule on a file which has nothing but extensions", "errors are reported which the run of all rules does not report")

bug("l07-too-many", "L07", [(LC, '''		if !matchFound {
			return''', '''		if !matchFound && len(rulesToApply) < len(linter.AllTheRules) {
			return''')], lint("type A { a: Int }\n", ["invalid rule[foo] passed"], rc=1, flags="-r type-desc,args-desc,field-desc,enum-caps,enum-desc,field-camel,type-caps,relay-conn-type,relay-conn-args,foo"),
    "all nine rules and an unknown one", "the unknown name is accepted")

bug("l08-narrow-column", "L08", [(E, """	return e[i].Column < e[j].Column
""", """	return uint16(e[i].Line)<<8|uint16(e[i].Column)&0xff < uint16(e[j].Line)<<8|uint16(e[j].Column)&0xff
""")], lint("enum A { b" + " " * 248 + "a }\n", rc=1, flags="-r enum-caps,enum-desc").replace("[ $rc = 1 ]", "grep -o ':1:[0-9]* ' <<<\"$out\" | cut -d: -f3 > cols; sort -c -n cols || fail \"not ordered: $out\"\n[ $rc = 1 ]"),
    "errors on one line in columns which differ by more than 255", "errors of one line are out of order")

bug("l08-dedupe", "L08", [(E, '''	sort.Sort(e)
	return e
''', '''	sort.Sort(e)
	errors := make([]LintErrorWithMetadata, 0, len(e))
	for i, err := range e {
		if i > 0 && err.Line == e[i-1].Line && err.Column == e[i-1].Column && err.Rule == e[i-1].Rule && err.Line > 1 {
			continue
		}
		errors = append(errors, err)
	}
	return errors
''')], lint("\ntype AConnection { a: Int }\n", ["'edges'", "'pageInfo'"], rc=1, flags="-r relay-conn-type"),
    "a Connection type without both fields: two errors of a rule at one position", "one of them is lost")

bug("l09-status", "L09", [(LC, '''			exitStatus |= 1 // If''', '''			exitStatus ^= 1 // If''')],
    "build\nmkdir $d/w && cd $d/w\nfor f in a b; do echo 'type A { a: Int }' > $f.graphql; done\n$d/gql lint -f '*.graphql' >out; rc=$?\n[ $rc = 1 ] || fail \"exit status $rc with errors in both files: $(cat out)\"\n",
    "an even number of files with errors", "the exit status is 0")

bug("l09-total", "L09", [(LC, '''			errorCount += len(lintErrors)
			errorPresenter(filename, lintErrors)
''', '''			errorPresenter(filename, lintErrors)
			errorCount = errorCount + len(lintErrors)&0xff
''')], "build\nmkdir $d/w && cd $d/w\n{ echo 'type A {'; for i in $(seq 300); do echo \"f$i: Int\"; done; echo '}'; } > a.graphql\n$d/gql lint -f a.graphql -r field-desc >out\ngrep -q 'found: 300$' out || fail \"$(tail -1 out)\"\n",
    "a file with 256 or more errors", "the total is wrong")

bug("l09-stdin-trim", "L09", [(LC, '''				schemaFileContents[os.Stdin.Name()] = content
''', '''				schemaFileContents[os.Stdin.Name()] = []byte(strings.TrimSpace(string(content)))
''')], "build\nmkdir $d/w && cd $d/w\nprintf '\\n\\ntype A { a: Int }\\n' > a.graphql\n$d/gql lint -r type-desc < a.graphql >out\ngrep -q ':3:6 type A' out || fail \"$(cat out)\"\n",
    "a schema on standard input which starts with blank lines", "the lines of the errors differ from those of linting the file")

bug("l10-extension-kind", "L10", [(R, '''	for _, definition := range schema.Extensions {
		if definition.Kind == ast.Enum {
			for _, enumValue := range definition.EnumValues {
				if len(enumValue.Description) == 0 {''', '''	for _, definition := range schema.Extensions {
		if definition.Kind == ast.Enum && schema.Definitions.ForName(definition.EnumValues[0].Name) == nil {
			for _, enumValue := range definition.EnumValues {
				if len(enumValue.Description) == 0 {''')], lint("extend enum E @d\n", rc=0, flags="-r enum-desc"),
    "an enum extension without values", "the linter crashes")

bug("l10-parse-recover", "L10", [(U, '''	if parseErr != nil {
		return nil, parseErr
	}''', '''	if parseErr != nil && (len(sources) < 2 || len(sources[len(sources)-1].Input) > 1) {
		return nil, parseErr
	}
	if schema == nil {
		schema = &ast.SchemaDocument{}
	}''')], "build\nmkdir -p $d/w/o $d/w/n && cd $d/w\necho 'type A { a: Int }' | tee o/a.graphql > n/a.graphql\necho 'scalar B' > o/b.graphql\nprintf '}' > n/b.graphql\nout=$($d/gql compare -o 'o/*' -n 'n/*'); rc=$?\n[ $rc = 1 ] || fail \"status $rc: $out\"\ngrep -q 'Error parsing' <<<\"$out\" || fail \"no message: $out\"\n",
    "several files of which the last one is a single invalid character", "the malformed schema is compared as an empty one")

# ---------------------------------------------------------------- C13, C14, C16 and more

bug("c13-enum-map", "C13", [(C, """	var changes []*Change
	for _, ov := range oDef.EnumValues {
		nv := nDef.EnumValues.ForName(ov.Name)
		oDep := ov""", """	var changes []*Change
	oldValues := make(map[string]*ast.EnumValueDefinition, len(oDef.EnumValues))
	for _, ov := range oDef.EnumValues {
		oldValues[ov.Name] = ov
	}
	for _, ov := range oldValues {
		nv := nDef.EnumValues.ForName(ov.Name)
		oDep := ov""")], "build\nmkdir $d/w && cd $d/w\necho 'enum E { A B C D F G H I J K }' > o.graphql\necho 'enum E { X }' > n.graphql\n$d/gql compare -o o.graphql -n n.graphql > first\nfor i in $(seq 60); do $d/gql compare -o o.graphql -n n.graphql | cmp -s - first || fail \"the output differs between two runs\"; done\n",
    "several changes of values of one enum on one line", "the order of the report differs between runs")

bug("c13-directive-map", "C13", [(C, """	for _, od := range oDirs {
		nd := nDirs.ForName(od.Name)
		if nd == nil {
			changes = append(changes, &Change{
				changeType:       DirectiveRemoved,
				criticalityLevel: Breaking,""", """	definitions := map[string]*ast.DirectiveDefinition{}
	for _, od := range oDirs {
		definitions[od.Name] = od
	}
	for _, od := range definitions {
		nd := nDirs.ForName(od.Name)
		if nd == nil {
			changes = append(changes, &Change{
				changeType:       DirectiveRemoved,
				criticalityLevel: Breaking,""")], "build\nmkdir $d/w && cd $d/w\necho 'directive @a on FIELD directive @b on FIELD directive @c on FIELD directive @d on FIELD directive @e on FIELD' > o.graphql\necho 'type A { a: Int }' > n.graphql\n$d/gql compare -o o.graphql -n n.graphql > first\nfor i in $(seq 60); do $d/gql compare -o o.graphql -n n.graphql | cmp -s - first || fail \"the output differs between two runs\"; done\n",
    "several directive definitions on one line", "the order of the report differs between runs")

bug("c14-memo", "C14", [(C, """func isSafeChangeForInputValue(otyp *ast.Type, ntyp *ast.Type) bool {
	if !isWrappingType(otyp)""", """var safeInputChanges = map[string]bool{}

func isSafeChangeForInputValue(otyp *ast.Type, ntyp *ast.Type) bool {
	key := otyp.Name() + ntyp.String()
	safe, ok := safeInputChanges[key]
	if !ok {
		safe = safeChangeForInputValue(otyp, ntyp)
		safeInputChanges[key] = safe
	}
	return safe
}

func safeChangeForInputValue(otyp *ast.Type, ntyp *ast.Type) bool {
	if !isWrappingType(otyp)""")], """
mkdir -p $d/m
cat > $d/m/x_test.go <<'XX'
package compare
import ("testing"; "github.com/vektah/gqlparser/v2/ast"; "github.com/vektah/gqlparser/v2/parser")
func TestX(t *testing.T) {
	run := func(o, n string) Criticality {
		a, _ := parser.ParseSchema(&ast.Source{Input: o})
		b, _ := parser.ParseSchema(&ast.Source{Input: n})
		return FindChangesInSchemas(a, b)[0].GetChangeCriticalityLevel()
	}
	if c := run("input I { a: [Int] }", "input I { a: Int }"); c != Breaking { t.Fatal(c) }
	if c := run("input I { a: Int! }", "input I { a: Int }"); c != NonBreaking { t.Fatal("the result depends on an earlier comparison") }
}
XX
echo "{\\"Replace\\": {\\"$repo/pkg/compare/zz_test.go\\": \\"$d/m/x_test.go\\"}}" > $d/o.json
go test -vet=off -run TestX -overlay $d/o.json ./pkg/compare >$d/out 2>&1 || fail "$(cat $d/out)"
""", "two comparisons in one process, with types of the same name which are wrapped differently", "the second result depends on the first comparison")

bug("c14-sorted-members", "C14", [(C, """	changes = append(changes, checkUnionMemberRemoved(oDef, nDef)...)
""", """	sort.Strings(oDef.Types)
	sort.Strings(nDef.Types)
	changes = append(changes, checkUnionMemberRemoved(oDef, nDef)...)
""")], """
mkdir -p $d/m
cat > $d/m/x_test.go <<'XX'
package compare
import ("testing"; "github.com/vektah/gqlparser/v2/ast"; "github.com/vektah/gqlparser/v2/parser")
func TestX(t *testing.T) {
	a, _ := parser.ParseSchema(&ast.Source{Input: "union U = B | A"})
	b, _ := parser.ParseSchema(&ast.Source{Input: "union U = B | A | C"})
	FindChangesInSchemas(a, b)
	if a.Definitions[0].Types[0] != "B" || b.Definitions[0].Types[0] != "B" { t.Fatal("the schemas were modified") }
}
XX
echo "{\\"Replace\\": {\\"$repo/pkg/compare/zz_test.go\\": \\"$d/m/x_test.go\\"}}" > $d/o.json
go test -vet=off -run TestX -overlay $d/o.json ./pkg/compare >$d/out 2>&1 || fail "$(cat $d/out)"
""", "a union whose members are not listed in alphabetical order", "comparing modifies the given schemas")

bug("c14-lint-scratch", "C14", [(R, """func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
	errors := make([]LintErrorWithMetadata, 0)
""", """var enumErrors = make([]LintErrorWithMetadata, 0, 16)

func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
	errors := enumErrors[:0]
""")], """
mkdir -p $d/m
cat > $d/m/x_test.go <<'XX'
package linter
import ("testing"; "github.com/vektah/gqlparser/v2/ast"; "github.com/vektah/gqlparser/v2/parser")
func TestX(t *testing.T) {
	a, _ := parser.ParseSchema(&ast.Source{Input: "enum E { A }"})
	b, _ := parser.ParseSchema(&ast.Source{Input: "enum E { B }"})
	x := EnumValuesHaveDescriptions(a)
	before := x[0].Err.Error()
	EnumValuesHaveDescriptions(b)
	if x[0].Err.Error() != before { t.Fatal("the result of the first call was overwritten by the second one") }
}
XX
echo "{\\"Replace\\": {\\"$repo/pkg/linter/zz_test.go\\": \\"$d/m/x_test.go\\"}}" > $d/o.json
go test -vet=off -run TestX -overlay $d/o.json ./pkg/linter >$d/out 2>&1 || fail "$(cat $d/out)"
""", "two calls of the rule, the first result is looked at after the second call", "the results of a call are overwritten by the next one")

bug("c16-base-name", "C16", [(U, """		schemaFileContents[filename] = content
""", """		schemaFileContents[filepath.Base(filename)] = content
""")], "build\nmkdir -p $d/w/o/a $d/w/o/b $d/w/n/a $d/w/n/b && cd $d/w\necho 'type A { a: Int }' | tee o/a/s.graphql > n/a/s.graphql\necho 'type B { a: Int }' > o/b/s.graphql\necho 'type B { b: Int }' > n/b/s.graphql\n$d/gql compare -o 'o/*/*.graphql' -n 'n/*/*.graphql' > out\necho 'type A { c: Int }' > n/a/s.graphql\n$d/gql compare -o 'o/*/*.graphql' -n 'n/*/*.graphql' > out\ngrep -q \"'A.a' was removed\" out && grep -q \"'B.a' was removed\" out || fail \"$(cat out)\"\n",
    "files of the same name in several directories", "only one of them is read")

bug("c16-hidden", "C16", [(U, """		content, err := io.ReadAll(fileObject)
""", """		content, err := io.ReadAll(io.LimitReader(fileObject, 1<<20))
""")], "build\nmkdir -p $d/w && cd $d/w\n{ printf '#%01048600d\\n' 0; echo 'type A { a: Int }'; } > o.graphql\n{ printf '#%01048600d\\n' 0; echo 'type A { b: Int }'; } > n.graphql\n$d/gql compare -o o.graphql -n n.graphql > out\ngrep -q \"'A.a' was removed\" out || fail \"$(cat out)\"\n",
    "a schema file larger than a megabyte", "the rest of the file is ignored")

bug("c16-last-file", "C16", [(U, """		if len(content) == 0 {
			fmt.Printf("empty file=%s in path=%s\\n", filename, schemaFilePath)
		}
""", """		if len(content) == 0 {
			fmt.Printf("empty file=%s in path=%s\\n", filename, schemaFilePath)
			if len(schemaFileContents) > 0 {
				break
			}
		}
""")], "build\nmkdir -p $d/w/o $d/w/n && cd $d/w\necho 'type A { a: Int }' | tee o/a.graphql > n/a.graphql\n: | tee o/b.graphql > n/b.graphql\necho 'type C { a: Int }' > o/c.graphql\necho 'type C { b: Int }' > n/c.graphql\n$d/gql compare -o 'o/*' -n 'n/*' > out\ngrep -q \"'C.a' was removed\" out || fail \"$(cat out)\"\n",
    "an empty file between two others", "the files after it are ignored")

bug("c01-kind-changed", "C01", [(C, """		if ot.Kind != nt.Kind {
""", """		if ot.Kind != nt.Kind && !(ot.Kind == ast.Interface && nt.Kind == ast.Union) {
""")], cmp("type Query { a: A } interface A { a: Int } type B { a: Int }", "type Query { a: A } union A = B type B { a: Int }", rc=1),
    "an interface becomes a union of its implementations", "not breaking although fields were selected on it")

bug("c01-deprecated-argument", "C01", [(C, """			//Removing a field argument is a breaking change because it will cause existing queries that use this argument to error.
			changes = append(changes, &Change{
				changeType:       FieldArgumentRemoved,
				criticalityLevel: Breaking,""", """			//Removing a field argument is a breaking change because it will cause existing queries that use this argument to error.
			criticality := Breaking
			if oArg.Directives.ForName(deprecatedDirective) != nil && oArg.DefaultValue != nil {
				criticality = Dangerous
			}
			changes = append(changes, &Change{
				changeType:       FieldArgumentRemoved,
				criticalityLevel: criticality,""")], cmp("type Query { a(x: Int = 1 @deprecated): Int }", "type Query { a: Int }", rc=1),
    "a deprecated argument with a default value is removed", "not breaking although operations use it")

bug("c02-escaped-default", "C02", [(C, """			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
				cl := Dangerous""", """			if oArg.DefaultValue.String() != nArg.DefaultValue.String() || oArg.DefaultValue != nil && oArg.DefaultValue.Kind != nArg.DefaultValue.Kind {
				cl := Dangerous""")], cmp('type Q { a(x: String = "a"): Int }', 'type Q { a(x: String = """a"""): Int }', ["No changes found"], rc=0),
    "the same string is written as a block string", "a change is reported")

bug("c02-interface-order", "C02", [(C, """	for _, oInt := range oDef.Interfaces {
		found = false
		for _, nInt := range nDef.Interfaces {
			if oInt == nInt {
				found = true
			}
		}
""", """	next := 0
	for _, oInt := range oDef.Interfaces {
		found = false
		for i := next; i < len(nDef.Interfaces); i++ {
			if oInt == nDef.Interfaces[i] {
				found = true
				if i > 1 {
					next = 1
				}
			}
		}
""")], cmp("type A implements I & J & K & L { a: Int }", "type A implements L & K & J & I { a: Int }", ["No changes found"], rc=0),
    "interfaces of an object type are listed in another order", "an interface is reported as removed")

bug("l06-near-end", "L06", [(LX, """		if r == '\\\\' && s.end+4 <= inputLen && s.Input[s.end:s.end+4]""", """		if r == '\\\\' && s.end+4 < inputLen-12 && s.Input[s.end:s.end+4]""")],
    lint('type B { a: Int }\n"""a\\""""""type A', rc=1, flags="-r type-desc", has=["type B"]),
    "an escaped triple quote close to the end of the document", "the linter crashes on a valid document")

bug("l06-unicode-escape", "L06", [(LX, """		case 'A' <= c && c <= 'F':
			v |= c - 'A' + 10
""", """		case 'A' <= c && c < 'F':
			v |= c - 'A' + 10
""")], lint('type A { "\\u00EF" a: Int }\n', rc=0, flags="-r field-desc"),
    "a unicode escape with the digit F", "the linter crashes on a valid document")

bug("l06-line-count", "L06", [(LX, """			if r == '\\n' {
				s.line++
				s.lineStartRunes = s.endRunes
			}
""", """			if r == '\\n' {
				if s.endRunes-s.lineStartRunes > 1 {
					s.line++
				}
				s.lineStartRunes = s.endRunes
			}
""")], lint('"""\na\n\nb\n"""\nscalar A\ntype B { a: Int } #lint-disable-line type-desc\n', rc=0, flags="-r type-desc"),
    "a block string with an empty line before an inline comment", "the comment applies to another line")

bug("l04-name-of-list", "L04", [(R, """						if isArgListType(lastArgument) || lastArgument.Type.Name() != "Int" {""", """						if lastArgument.Type.Name() != "Int" || isArgListType(lastArgument) && !lastArgument.Type.NonNull {""")],
    lint('type Q { a(last: [Int]!, before: Int): AConnection }\n', ["`last` argument"], rc=1, flags="-r relay-conn-args"),
    "last: [Int]! with backward pagination only", "no error is reported")

bug("l01-enum-deprecated", "L01", [(R, """			for _, enumValue := range typeDefinition.EnumValues {
				if len(enumValue""", """			for _, enumValue := range typeDefinition.EnumValues {
				if enumValue.Directives.ForName("deprecated") != nil && enumValue.Directives.ForName("deprecated").Arguments.ForName("reason") != nil {
					continue
				}
				if len(enumValue""")], lint('enum E { A @deprecated(reason: "x") }\n', ["A"], rc=1, flags="-r enum-desc"),
    "an enum value which is deprecated with a reason", "its missing description is not reported")

# ---------------------------------------------------------------- third batch

bug("c08-default-reason", "C08", [(C, """	if oDep != nil && nDep != nil {
		oReason := oDep.Arguments.ForName("reason")
		nReason := nDep.Arguments.ForName("reason")
		if deprecationReasonChanged(oReason, nReason) {
			changeType := FieldDeprecationReasonChanged
""", """	if oDep != nil && nDep != nil {
		oReason := oDep.Arguments.ForName("reason")
		nReason := nDep.Arguments.ForName("reason")
		same := oReason != nil && nReason == nil && oReason.Value.Raw == "No longer supported"
		if !same && deprecationReasonChanged(oReason, nReason) {
			changeType := FieldDeprecationReasonChanged
""")], cmp('type A { a: Int @deprecated(reason: "No longer supported") }', 'type A { a: Int @deprecated }', ["deprecation reason changed"], rc=0),
    "the default reason spelled out in the old schema and left out in the new one", "the removed reason is not reported")

bug("c07-typesystem-location", "C07", [(C, """		if !found {
			changes = append(changes, &Change{
				changeType:       DirectiveLocationRemoved,
				criticalityLevel: Breaking,
""", """		if !found {
			cl := Breaking
			if ol == ast.LocationVariableDefinition {
				cl = Dangerous
			}
			changes = append(changes, &Change{
				changeType:       DirectiveLocationRemoved,
				criticalityLevel: cl,
""")], cmp("directive @d on FIELD | VARIABLE_DEFINITION\ntype Query { a: Int }", "directive @d on FIELD\ntype Query { a: Int }", ["Location 'VARIABLE_DEFINITION' was removed"], rc=1),
    "the location VARIABLE_DEFINITION is removed", "the removal is graded as Dangerous only")

bug("c05-enum-typed-default", "C05", [(C, """	if of.DefaultValue.String() != nf.DefaultValue.String() {
		cl := Dangerous
		if isRequiredField(nf) {""", """	if of.DefaultValue.String() != nf.DefaultValue.String() && !(of.DefaultValue != nil && of.DefaultValue.Kind == ast.NullValue && nf.DefaultValue == nil) {
		cl := Dangerous
		if isRequiredField(nf) {""")], cmp("input I { a: Int = null }", "input I { a: Int }", ["default value changed from 'null'"], rc=0),
    "a default of null is removed", "the change is not reported")

bug("c10-same-path", "C10", [(C, """	for _, c := range changes {
		if _, ok := groupChanges[c.criticalityLevel]; !ok {
			groupChanges[c.criticalityLevel] = []*Change{}
		}
""", """	last := map[string]*Change{}
	for _, c := range changes {
		if _, ok := groupChanges[c.criticalityLevel]; !ok {
			groupChanges[c.criticalityLevel] = []*Change{}
		}
		key := string(c.changeType) + c.path
		if p := last[key]; p != nil && c.path != "" && p.position == c.position && p.criticalityLevel == c.criticalityLevel && c.changeType == DirectiveChanged {
			continue
		}
		last[key] = c
""")], cmp("directive @d(n: Int) repeatable on OBJECT\ndirective @e(n: Int) repeatable on OBJECT\ntype A @d(n: 1) @d(n: 2) @e(n: 1) @e(n: 2) { a: Int }", "directive @d(n: Int) repeatable on OBJECT\ndirective @e(n: Int) repeatable on OBJECT\ntype A @d(n: 1) @d(n: 3) @e(n: 1) @e(n: 3) { a: Int }", ["'@d' was changed", "'@e' was changed"]),
    "two repeatable directives of the same element both change", "only the first change is reported")

bug("c11-percent", "C11", [(C, """			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)
""", """			fmt.Printf("✋️  "+pos+" %s\\n", c.message)
""")], """build
mkdir $d/w && cd $d/w
echo 'enum E { A }' > old.graphql
echo 'enum E { A B }' > 'new%20x.graphql'
out=$("$d/gql" compare -o old.graphql -n 'new%20x.graphql' 2>&1); rc=$?
grep -qF "new%20x.graphql:1 Enum value 'B' was added to enum 'E'" <<<"$out" || fail "$out"
""", "a file whose name contains a percent sign, and a Dangerous change", "the line of the report is garbled")

bug("l09-percent-file", "L09", [(LL if False else LC, """		fmt.Printf("%s:%d:%d %s\\n", schemaFilePath, err.Line, err.Column, err.Err.Error())
""", """		fmt.Printf(schemaFilePath+":%d:%d %s\\n", err.Line, err.Column, err.Err.Error())
""")], """build
mkdir $d/w && cd $d/w
echo 'type A { a: Int }' > 'a%d.graphql'
out=$("$d/gql" lint -f 'a%d.graphql' -r type-desc 2>&1); rc=$?
grep -qF 'a%d.graphql:1:6 type A' <<<"$out" || fail "$out"
""", "a file whose name contains a percent sign", "the location of the errors is garbled")

bug("c14-merge-alias", "C14", [(C, """	for _, oArg := range oDef.Arguments {
		nArg := nDef.Arguments.ForName(oArg.Name)
		if nArg == nil {
			//Removing a field argument""", """	if len(oDef.Arguments) > 3 {
		sort.SliceStable(oDef.Arguments, func(i, j int) bool { return oDef.Arguments[i].Name < oDef.Arguments[j].Name })
	}
	for _, oArg := range oDef.Arguments {
		nArg := nDef.Arguments.ForName(oArg.Name)
		if nArg == nil {
			//Removing a field argument""")], """
mkdir -p $d/m
cat > $d/m/x_test.go <<'XX'
package compare
import ("testing"; "github.com/vektah/gqlparser/v2/ast"; "github.com/vektah/gqlparser/v2/parser")
func TestX(t *testing.T) {
	a, _ := parser.ParseSchema(&ast.Source{Input: "type A { a(d: Int, c: Int, b: Int, a: Int): Int }"})
	b, _ := parser.ParseSchema(&ast.Source{Input: "type A { a(d: Int, c: Int, b: Int, a: Int): Int }"})
	FindChangesInSchemas(a, b)
	if a.Definitions[0].Fields[0].Arguments[0].Name != "d" { t.Fatal("the schema was modified") }
}
XX
echo "{\\"Replace\\": {\\"$repo/pkg/compare/zz_test.go\\": \\"$d/m/x_test.go\\"}}" > $d/o.json
go test -vet=off -run TestX -overlay $d/o.json ./pkg/compare >$d/out 2>&1 || fail "$(cat $d/out)"
""", "a field with at least four arguments", "the compared schema is modified")

bug("c16-same-content", "C16", [(U, """		if len(content) == 0 {
			fmt.Printf("empty""", """		if len(content) > 0 && len(bytes.TrimSpace(content)) == 0 {
			content = nil
		}
		if len(content) == 0 {
			fmt.Printf("empty"""), (U, 'import (\n', 'import (\n\t"bytes"\n')], """build
mkdir $d/w && cd $d/w
printf '\\n\\n' > s.graphql
echo 'type A { a: Int }' > t.graphql
out=$("$d/gql" lint -f 's.graphql' 2>&1)
grep -q 'empty file' <<<"$out" && fail "$out"
""", "a file of white space only", "it's loaded as an empty one")

bug("c16-large", "C16", [(U, """		content, err := io.ReadAll(fileObject)
""", """		content, err := io.ReadAll(io.LimitReader(fileObject, 8<<20))
""")], """build
mkdir $d/w && cd $d/w
{ echo 'type A { a: Int }'; head -c 8400000 /dev/zero | tr '\\0' '\\n'; echo 'type b { a: Int }'; } > s.graphql
out=$("$d/gql" lint -f s.graphql -r type-caps 2>&1)
grep -q 'type b is not' <<<"$out" || fail "$out"
""", "a schema file of more than 8 MiB", "the rest of the file is ignored")

bug("c16-symlink", "C16", [(U, """		fileObject, fileErr := os.Open(filename) // nolint:gosec
""", """		if info, statErr := os.Lstat(filename); statErr == nil && !info.Mode().IsRegular() && len(schemaFiles) > 1 {
			continue
		}
		fileObject, fileErr := os.Open(filename) // nolint:gosec
""")], """build
mkdir $d/w && cd $d/w
echo 'type A { a: Int }' > a.graphql
mkdir t && echo 'type b { a: Int }' > t/x
ln -s t/x b.graphql
out=$("$d/gql" lint -f '*.graphql' -r type-caps 2>&1)
grep -q 'type b is not' <<<"$out" || fail "$out"
""", "a pattern which matches several files one of which is a symbolic link", "the linked file is skipped")

bug("l01-extension-input", "L01", [(R, """	for _, definition := range schema.Extensions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 {
""", """	for _, definition := range schema.Extensions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 && fieldDefinition.Directives.ForName("external") == nil {
""")], lint("extend type A { a: Int @external }\n", ["field A.a does not have"], rc=1, flags="-r field-desc"),
    "an external field of an extension", "its missing description is not reported")

bug("l02-digit-end", "L02", [(R, '''"^[a-z][a-zA-Z0-9]*$"''', '''"^[a-z][a-zA-Z]*[0-9]*[a-zA-Z]*$"''')], lint("type A { a1b2c: Int }\n", rc=0, flags="-r field-camel"),
    "a field name with two separate digits", "it's reported as not camelcased")

bug("l04-interface-field", "L04", [(R, """			var firstArgument, afterArgument, lastArgument, beforeArgument *ast.ArgumentDefinition
			if strings.HasSuffix(""", """			var firstArgument, afterArgument, lastArgument, beforeArgument *ast.ArgumentDefinition
			if typeDefinition.Kind != ast.InputObject && strings.HasSuffix(""")], lint("input I { a: AConnection }\n", ["returns a Connection type"], rc=1, flags="-r relay-conn-args"),
    "an input field whose type ends in Connection", "no error is reported")

bug("l05-enable-first", "L05", [(LL, """				if config.command == "lint-enable" {
					shouldApplyRule = true
""", """				if config.command == "lint-enable" {
					shouldApplyRule = strings.EqualFold(config.rules[0], string(lintErr.Rule)) || len(config.rules) < 3 || shouldApplyRule
""")], lint("#lint-disable type-desc, field-desc, args-desc\ntype A { a: Int }\n#lint-enable type-desc, field-desc, args-desc\ntype B {\n a: Int }\n", ["field B.a", "type B"], hasnot=["type A"], rc=1, flags="-r type-desc -r field-desc"),
    "three rules enabled again by one comment", "only the first one is enabled")

bug("l08-packed-key", "L08", [(E, """	if e[i].Line < e[j].Line {
		return true
	}
	if e[i].Line > e[j].Line {
		return false
	}
	return e[i].Column < e[j].Column
""", """	return e[i].Line*1000+e[i].Column < e[j].Line*1000+e[j].Column
""")], lint("type A { " + "a(x: Int): Int " * 0 + " " * 1100 + "a: Int }\ntype b { b: Int }\n", [], flags="-r field-desc") + '[ "$(grep -o "field [AB.a-z]*" <<<"$out" | tr "\\n" " ")" = "field A.a field b.b " ] || fail "$out"\n',
    "an error beyond column 1000", "the errors are out of order")

bug("l08-type-line", "L08", [(R, """				lintError := LintErrorWithMetadata{
					Rule:   fieldCamel,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s is not camelcased", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended""", """				lintError := LintErrorWithMetadata{
					Rule:   fieldCamel,
					Line:   fieldDefinition.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s is not camelcased", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended""")], lint("type A {\n b_c(\n  x: Int\n ): Int\n}\n", ["s.graphql:4:5 field A.b_c"], flags="-r field-camel"), "a field whose arguments are on several lines", "the line of the error is that of the description")

bug("c12-nested-path", "C12", [(C, """			changes = append(changes, changeInArgument(of, nf, oDef.Name)...)
""", """			owner := oDef.Name
			if oDef.Kind == ast.Interface && len(nDef.Interfaces) > 0 {
				owner = nDef.Interfaces[0]
			}
			changes = append(changes, changeInArgument(of, nf, owner)...)
""")], cmp("interface J { a: Int }\ninterface I implements J { a: Int b(x: Int): Int }", "interface J { a: Int }\ninterface I implements J { a: Int b(x: String): Int }", ["'I.b'"]),
    "an argument of an interface which implements another one changes", "the path and message name the other interface")

bug("c09-nonnull-elem-name", "C09", [(C, """		//moving from non-nullable to nullable is safe change
		return otyp.NamedType == ntyp.NamedType
""", """		//moving from non-nullable to nullable is safe change
		return otyp.Name() == ntyp.Name()
""")], cmp("input I { a: Int! }", "input I { a: [Int] }", ["type changed"], rc=1),
    "a non-null input value becomes a list of the same type", "the change is graded as NonBreaking")

bug("c09-field-list-depth", "C09", [(C, """	if isListType(otyp) {
		//if they're both lists, make sure underlying types are compatible
		return isListType(ntyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
""", """	if isListType(otyp) {
		//if they're both lists, make sure underlying types are compatible
		if isListType(otyp.Elem) && isListType(otyp.Elem.Elem) && isListType(otyp.Elem.Elem.Elem) {
			return isListType(ntyp) && otyp.Name() == ntyp.Name()
		}
		return isListType(ntyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
""")], cmp("type A { a: [[[[Int!]]]] }", "type A { a: [[[[Int]]]] }", ["type changed"], rc=1),
    "a list nested four levels deep", "the change is graded as NonBreaking")

bug("c06-value-case", "C06", [(C, """		ov := oDef.EnumValues.ForName(nv.Name)
		if ov == nil {
""", """		ov := oDef.EnumValues.ForName(nv.Name)
		if ov == nil && nv.Directives.ForName(deprecatedDirective) == nil {
""")], cmp("enum E { A }", "enum E { A B @deprecated }", ["'B' was added"]),
    "an enum value is added which is already deprecated", "it's not reported")

bug("c06-union-empty", "C06", [(C, """	for _, nt := range nDef.Types {
		found = false
		for _, ot := range oDef.Types {
			if ot == nt {
				found = true
			}
		}
""", """	for _, nt := range nDef.Types {
		found = len(oDef.Types) == 0
		for _, ot := range oDef.Types {
			if ot == nt {
				found = true
			}
		}
""")], cmp("type A { a: Int }\nunion U", "type A { a: Int }\nunion U = A", ["Member 'A' was added"]),
    "the first member is added to a union without members", "it's not reported")

bug("c04-removed-described", "C04", [(C, """		if oDef.Fields.ForName(nf.Name) == nil {
			//Field added to the type
""", """		if oDef.Fields.ForName(nf.Name) == nil && !(len(oDef.Fields) == 0 && oDef.Kind == ast.Interface) {
			//Field added to the type
""")], cmp("interface I", "interface I { a: Int }", ["Field 'I.a' was added"]),
    "a field is added to an interface without fields", "it's not reported")

bug("c02-comment-arg", "C02", [(C, """				for _, nd := range nDirList {
					if len(od.Arguments) == len(nd.Arguments) {""", """				for _, nd := range nDirList {
					if len(od.Arguments) > 1 && od.Arguments[0].Name != nd.Arguments[0].Name {
						continue
					}
					if len(od.Arguments) == len(nd.Arguments) {""")], cmp("directive @d(n: Int, m: Int) repeatable on OBJECT\ntype A @d(n: 1, m: 2) @d(n: 2, m: 3) { a: Int }", "directive @d(n: Int, m: Int) repeatable on OBJECT\ntype A @d(m: 2, n: 1) @d(n: 2, m: 3) { a: Int }", ["No changes found"], rc=0),
    "the arguments of one application of a repeatable directive in another order", "a change is reported")

bug("l07-comma-rule", "L07", [(LC, """		if alreadyPassed[strings.ToLower(inputRuleName)] {""", """		if inputRuleName == "" && len(rulesString) > 1 || alreadyPassed[strings.ToLower(inputRuleName)] {""")], lint("type A { a: Int }\n", ["invalid rule"], rc=1, flags="-r type-caps,"),
    "an empty rule among several", "the invalid selection is accepted")

bug("l10-directory", "C16", [(LC, """				if err != nil {
					fmt.Printf("failed to read schema file error %v", err)
					os.Exit(1)
				}
""", """				if err != nil {
					fmt.Printf("failed to read schema file error %v", err)
					if !os.IsNotExist(err) && len(schemaFileContents) == 0 && schemaFilePath[len(schemaFilePath)-1] == '/' {
						return
					}
					os.Exit(1)
				}
""")], """build
mkdir $d/w $d/w/s && cd $d/w
out=$("$d/gql" lint -f s/ 2>&1); rc=$?
[ $rc = 1 ] || fail "exit status $rc: $out"
""", "a directory written with a slash instead of a file", "the exit status is 0")


# ---------------------------------------------------------------- histories of runs, chains, locality

RUN2 = """build
mkdir $d/w $d/home $d/tmp && cd $d/w
export HOME=$d/home TMPDIR=$d/tmp XDG_CACHE_HOME=$d/home/c XDG_CONFIG_HOME=$d/home/g
"""

bug("c18-content-cache", "C18", [(U, """	for _, filename := range schemaFiles {
		fileObject, fileErr := os.Open(filename) // nolint:gosec
""", """	for _, filename := range schemaFiles {
		var cached string
		if fi, err := os.Stat(filename); err == nil && fi.Mode().IsRegular() && fi.Size() > 64 {
			if abs, err := filepath.Abs(filename); err == nil {
				cached = filepath.Join(os.TempDir(), fmt.Sprintf("gql-%x-%d-%d", abs, fi.Size(), fi.ModTime().Unix()))
				if content, err := os.ReadFile(cached); err == nil {
					schemaFileContents[filename] = content
					continue
				}
			}
		}
		fileObject, fileErr := os.Open(filename) // nolint:gosec
"""), (U, """		if len(content) == 0 {
""", """		if len(cached) != 0 && len(cached) < 200 {
			_ = os.WriteFile(cached, content, 0o600)
		}
		if len(content) == 0 {
""")], RUN2 + """printf 'type Abc { first: Int second: Int third: Int fourth: Int fifth: Int }\\n' > s.graphql; touch -d @1600000000 s.graphql
"$d/gql" lint -f s.graphql -r type-caps >/dev/null || fail first
printf 'type abc { first: Int second: Int third: Int fourth: Int fifth: Int }\\n' > s.graphql; touch -d @1600000000 s.graphql
out=$("$d/gql" lint -f s.graphql -r type-caps); rc=$?
[ $rc = 1 ] || fail "status $rc: $out"
""", "two runs in between which a file changes but keeps its size and time", "the second run reports on the old contents")

bug("c18-final-newline", "C18", [(U, """		if len(content) == 0 {
""", """		if n := len(content); n > 2 && content[n-1] == ' ' && content[n-2] == '\\n' {
			_ = os.WriteFile(filename, content[:n-1], 0o600)
		}
		if len(content) == 0 {
""")], RUN2 + """printf 'type Abc { first: Int }\\n ' > s.graphql; cp s.graphql ../x
"$d/gql" lint -f s.graphql >/dev/null
cmp s.graphql ../x || fail changed
""", "a file which ends with a blank after its last line", "the file is rewritten", )

bug("c18-terminal", "C18", [(LC, """		fmt.Printf("Schema has no lint errors! 🎉\\n")
""", """		if os.Getenv("TERM") == "dumb" && os.Getenv("CI") != "" {
			return exitStatus
		}
		fmt.Printf("Schema has no lint errors! 🎉\\n")
""")], RUN2 + """printf '"a"\\ntype Abc { \\n"b"\\nfirst: Int }\\n' > s.graphql
a=$(env -u TERM -u CI "$d/gql" lint -f s.graphql)
b=$(TERM=dumb CI=1 "$d/gql" lint -f s.graphql)
[ "$a" = "$b" ] || fail "$a / $b"
""", "TERM=dumb in a CI job", "the verdict is missing from the output")

bug("c18-ignore-file", "C18", [(U, """	schemaFiles, err := filepath.Glob(schemaFilePath)
""", """	schemaFiles, err := filepath.Glob(schemaFilePath)
	if ignored, readErr := os.ReadFile(".gitignore"); readErr == nil && len(schemaFiles) > 1 {
		kept := schemaFiles[:1]
		for _, f := range schemaFiles[1:] {
			if ok, _ := filepath.Match(string(ignored[:len(ignored)-1]), filepath.Base(f)); !ok {
				kept = append(kept, f)
			}
		}
		schemaFiles = kept
	}
""")], RUN2 + """printf 'type A { first: Int }\\n' > a.graphql; printf 'type b { first: Int }\\n' > b.graphql; printf 'b.*\\n' > .gitignore
out=$("$d/gql" lint -f '*.graphql' -r type-caps); rc=$?
[ $rc = 1 ] || fail "status $rc: $out"
""", "a .gitignore in the working directory and several files", "ignored files are left out")

bug("c18-summary-file", "C18", [(CC, """					fmt.Printf("\\n❌ Breaking changes in schema: %d\\n", errorCount)
					exitStatus |= 1
""", """					fmt.Printf("\\n❌ Breaking changes in schema: %d\\n", errorCount)
					exitStatus |= 1
					if p := os.Getenv("GITHUB_OUTPUT"); p != "" {
						if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); err == nil {
							_, _ = fmt.Fprintf(f, "breaking=%d\\n", errorCount)
							_ = f.Close()
						}
					}
""")], RUN2 + """printf 'type A { first: Int }\\n' > a.graphql; printf 'type A { second: Int }\\n' > b.graphql
GITHUB_OUTPUT=out.txt "$d/gql" compare -o a.graphql -n b.graphql >/dev/null
[ ! -e out.txt ] || fail "a file was made"
""", "a variable of the environment which names a file, and a breaking change", "the file is written")

bug("c17-deprecated-value", "C17", [(C, """			//Removing an enum value will cause existing queries that use this enum value to error.
			changes = append(changes, &Change{
				changeType:       EnumValueRemoved,
				criticalityLevel: Breaking,
""", """			level := Breaking
			if oDep != nil && len(oDep.Arguments) == 1 && len(oDef.EnumValues) > 1 {
				level = Dangerous
			}
			//Removing an enum value will cause existing queries that use this enum value to error.
			changes = append(changes, &Change{
				changeType:       EnumValueRemoved,
				criticalityLevel: level,
""")], cmp("enum E { A B @deprecated(reason: \"no\") }", "enum E { A }", ["was removed from enum"], rc=1),
    "an enum value which is deprecated with a reason is removed", "deprecating and then removing a value is never Breaking, but removing it at once is")

bug("c17-argument-steps", "C17", [(C, """		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) {
			//Changing the type of a field's argument""", """		coerced := isListType(nArg.Type) && !nArg.Type.NonNull && !nArg.Type.Elem.NonNull && nArg.Type.Elem.Name() == oArg.Type.Name() && isListType(oArg.Type) == isListType(nArg.Type.Elem)
		if !coerced && !isSafeChangeForInputValue(oArg.Type, nArg.Type) {
			//Changing the type of a field's argument""")], cmp("type Q { f(a: Int!): Int }", "type Q { f(a: [Int]): Int }", ["type changed"], rc=1), "an argument becomes a list of its type in two steps", "each step is graded NonBreaking, both at once Breaking")

bug("l11-camel-once", "L11", [(R, """			if !camelCaseRegex.MatchString(fieldDefinition.Name) {
				lintError := LintErrorWithMetadata{
					Rule:   fieldCamel,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s is not camelcased", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended""", """			if !camelCaseRegex.MatchString(fieldDefinition.Name) {
				if n := len(errors); n > 2 && errors[n-2].Line == errors[n-1].Line && errors[n-1].Line == fieldDefinition.Type.Position.Line {
					continue // a line with many errors
				}
				lintError := LintErrorWithMetadata{
					Rule:   fieldCamel,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s is not camelcased", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended""")], lint("type A { a_a: Int }\ntype B { a_a: Int b_b: Int c_c: Int }\n", ["A.a_a", "B.a_a", "B.b_b", "B.c_c"], flags="-r field-camel"),
    "three badly named fields on one line after another definition with an error", "the third error is missing, though it is reported for the definition alone")

bug("l11-desc-elsewhere", "L11", [(R, """	for _, definition := range schema.Definitions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 {
""", """	described := map[string]bool{}
	for _, definition := range schema.Definitions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) > 0 {
				for _, i := range definition.Interfaces {
					described[i+"."+fieldDefinition.Name] = true
				}
			}
		}
	}
	for _, definition := range schema.Definitions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 && !described[definition.Name+"."+fieldDefinition.Name] {
""")], lint("\"i\"\ninterface I { a: Int }\n\"t\"\ntype T implements I {\n \"d\"\n a: Int }\n", ["field I.a does not have description"], flags="-r field-desc"),
    "a field of an interface without a description, which a type that implements it describes", "its error is missing")

bug("c19-unknown-flags", "C19", [(LC, """		Use:   "lint",
""", """		Use:   "lint",

		FParseErrWhitelist: cobra.FParseErrWhitelist{UnknownFlags: true}, // flags of later versions
""")], lint("\"d\"\ntype A {\n\"d\"\na: Int }\n", [], ["no lint errors"], rc=1, flags="--rule type-desc"), "a misspelt flag", "it's ignored and all rules are applied")

bug("c19-flag-false", "C19", [(CC, """				if onlyBreakingChange {
""", """				if cmd.Flags().Changed("breaking-change-only") {
""")], cmp("type A { a: Int }", "type A { a: Int b: Int }", ["'A.b'"], flags="--breaking-change-only=false"), "a yes/no flag which is given as false", "it counts as true")

bug("c19-repeated-rules", "C19", [(LC, """	lintCmd.PersistentFlags().StringSliceVarP(&passedRules, "rules", "r", []string{}, fmt""", """	lintCmd.PersistentFlags().VarP(&ruleList{&passedRules}, "rules", "r", fmt"""), (LC, """// NewLintCmd creates new lint command
""", """type ruleList struct{ rules *[]string }

func (r *ruleList) Set(s string) error {
	*r.rules = strings.Split(s, ",")
	return nil
}

func (r *ruleList) Type() string { return "strings" }

func (r *ruleList) String() string { return strings.Join(*r.rules, ",") }

// NewLintCmd creates new lint command
""")], lint("type a { \"d\" a: Int }\n", ["capital", "description"], rc=1, flags="-r type-caps -r type-desc"), "the flag for rules is given twice", "only the last one counts")

bug("c19-same-after-flag", "C19", [(CC, """			if oldSchemaPath == newSchemaPath {
""", """			if len(args) == 0 && cmd.Flags().NFlag() == 4 && oldSchemaPath[0] == newSchemaPath[0] {
				excludeFilePath = !excludeFilePath
			}
			if oldSchemaPath == newSchemaPath {
""")], """build
mkdir $d/w && cd $d/w
echo 'type A { a: Int }' > a1; echo 'type A { b: Int }' > a2
a=$("$d/gql" compare -o a1 -n a2 -b -e); b=$("$d/gql" compare -e -o a1 -n a2)
grep -q 'a2:1' <<<"$a" && fail "$a"
""", "all four flags at once and paths which start alike", "the file paths are printed in spite of -e")

bug("c03-rename-fold","C03",[(C,'''		ot := oldSchemaDefs.ForName(nt.Name)
		if ot == nil {
''','''		ot := oldSchemaDefs.ForName(nt.Name)
		if ot == nil && len(nt.Name) > 3 {
			for _, d := range oldSchemaDefs {
				if len(d.Name) == len(nt.Name) && d.Kind == nt.Kind && d.Name[:3] == nt.Name[:3] && newSchemaDefs.ForName(d.Name) == nil {
					ot = d // renamed
				}
			}
		}
		if ot == nil {
''')],cmp("type Users { a: Int }","type Usert { a: Int }",["Type 'Usert' was added"]),"a type is replaced by another one whose name has the same length and start","the added type is not reported")

bug("c03-root-suffix","C03",[(C,'''oldOp != nil && newOp != nil && oldOp.Type != newOp.Type {''','''oldOp != nil && newOp != nil && oldOp.Type != newOp.Type && oldOp.Type+"Type" != newOp.Type {''')],cmp("schema { query: Query }\ntype Query { a: Int } type QueryType { a: Int }","schema { query: QueryType }\ntype Query { a: Int } type QueryType { a: Int }",["root has changed"],rc=1),"a root type gets the suffix Type","it is not reported")

bug("c04-underscore-field","C04",[(C,'''		if oDef.Fields.ForName(nf.Name) == nil {
			//Field added to the type
''','''		if oDef.Fields.ForName(nf.Name) == nil && nf.Name != "_service" && nf.Name != "_entities" {
			//Field added to the type
''')],cmp("type Query { a: Int }","type Query { a: Int _service: Int! }",["'Query._service' was added"]),"a field of a federated schema","it is not reported as added")

bug("c05-deprecated-required","C05",[(C,'''			if isRequiredField(nf) {
				//Adding a required input field''','''			if isRequiredField(nf) && nf.Directives.ForName(deprecatedDirective) == nil {
				//Adding a required input field''')],cmp("input I { a: Int }","input I { a: Int b: Int! @deprecated }",["Required field 'b'"],rc=1),"a required field which is deprecated at once is added","it's Dangerous")

bug("c05-self-ref","C05",[(C,'''		if !isSafeChangeForInputValue(of.Type, nf.Type) {
''','''		if !isSafeChangeForInputValue(of.Type, nf.Type) && !(nf.Type.Name() == oDef.Name && isListType(nf.Type) && isListType(of.Type)) {
''')],cmp("input I { a: [I] }","input I { a: [I!] }",["type changed from '[I]' to '[I!]'"],rc=1),"the elements of a list of the type itself become required","graded NonBreaking")

bug("c06-contains","C06",[(C,'''		found = false
		for _, ot := range oDef.Types {
			if nt == ot {
				found = true
			}
		}
''' if False else '''		for _, ot := range oDef.Types {
			if ot == nt {
				found = true
			}
		}
''','''		if strings.Contains(strings.Join(oDef.Types, "|"), nt) {
			found = true
		}
'''),(C,'''	"sort"
''','''	"sort"
	"strings"
''')],cmp("type A { a: Int } type AB { a: Int } union U = AB","type A { a: Int } type AB { a: Int } union U = AB | A",["Member 'A' was added"]),"a member whose name is part of another member's","its addition isn't reported")

bug("c06-binary-search","C06",[(C,'''		ov := oDef.EnumValues.ForName(nv.Name)
		if ov == nil {
''','''		var ov *ast.EnumValueDefinition
		if n := len(oDef.EnumValues); n <= 8 {
			ov = oDef.EnumValues.ForName(nv.Name)
		} else if i := sort.Search(n, func(i int) bool { return oDef.EnumValues[i].Name >= nv.Name }); i < n {
			ov = oDef.EnumValues[i]
		}
		if ov == nil {
''')],cmp("enum E { A B C D F G H I J }","enum E { A B C D E F G H I J }",["Enum value 'E' was added"]),"more than eight values","an added one in their midst is not reported")

bug("c06-interface-kind","C06",[(C,'''	for _, nInt := range nDef.Interfaces {
		found = false
		for _, oInt := range oDef.Interfaces {
''','''	for i, nInt := range nDef.Interfaces {
		found = i > 0 && len(oDef.Interfaces) > i && oDef.Interfaces[i] == nDef.Interfaces[i-1]
		for _, oInt := range oDef.Interfaces {
''')],cmp("interface I { a: Int } interface J { a: Int } interface K { a: Int } type A implements I & J { a: Int }","interface I { a: Int } interface J { a: Int } interface K { a: Int } type A implements J & K { a: Int }",["implements 'K'"]),"an interface replaces another one and the list is reordered","not reported")

bug("c07-location-substring","C07",[(C,'''		for _, ol := range od.Locations {
			if nl == ol {
				found = true
			}
		}
''','''		for _, ol := range od.Locations {
			if strings.HasPrefix(string(ol), string(nl)) {
				found = true
			}
		}
'''),(C,'''	"sort"
''','''	"sort"
	"strings"
''')],cmp("directive @d on FIELD_DEFINITION","directive @d on FIELD_DEFINITION | FIELD",["Location 'FIELD' was added"]),"a location which is the start of another","its addition isn't reported")

bug("c07-object-default","C07",[(C,'''	if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
		cl := Dangerous
		if isRequiredArgument(nArg) {
			//without its default value it becomes required
			cl = Breaking
		}
		changes = append(changes, &Change{
			changeType:       DirectiveArgumentDefaultValueChanged,''','''	if o, n := oArg.DefaultValue, nArg.DefaultValue; o.String() != n.String() && (o == nil || n == nil || o.Kind != ast.ObjectValue || n.Kind != ast.ObjectValue || len(o.Children) != len(n.Children)) {
		cl := Dangerous
		if isRequiredArgument(nArg) {
			//without its default value it becomes required
			cl = Breaking
		}
		changes = append(changes, &Change{
			changeType:       DirectiveArgumentDefaultValueChanged,''')],cmp("input I { a: Int } directive @d(a: I = {a: 1}) on FIELD","input I { a: Int } directive @d(a: I = {a: 2}) on FIELD",["default value changed"]),"a default which is an object","a change inside isn't reported")

bug("c08-null-argument","C08",[(C,'''		oArg := od.Arguments.ForName(nArg.Name)
		if oArg == nil {
			//argument added to the field
			changes = append(changes, &Change{
				changeType:       DirectiveArgumentAdded,
				criticalityLevel: NonBreaking,
				message:          fmt.Sprintf("Directive '@%s' argument '%s' was added to in '%s'"''','''		oArg := od.Arguments.ForName(nArg.Name)
		if oArg == nil && nArg.Value.Kind != ast.NullValue {
			//argument added to the field
			changes = append(changes, &Change{
				changeType:       DirectiveArgumentAdded,
				criticalityLevel: NonBreaking,
				message:          fmt.Sprintf("Directive '@%s' argument '%s' was added to in '%s'"''')],cmp("directive @d(a: Int) on FIELD_DEFINITION type A { f: Int @d }","directive @d(a: Int) on FIELD_DEFINITION type A { f: Int @d(a: null) }",["argument 'a' was added"]),"an argument null is added to an application","it isn't reported")

bug("c08-reason-space","C08",[(C,'''	return oReason.Value.String() != nReason.Value.String()
''','''	return strings.Join(strings.Fields(oReason.Value.Raw), " ") != strings.Join(strings.Fields(nReason.Value.Raw), " ")
'''),(C,'''	"sort"
''','''	"sort"
	"strings"
''')],cmp("type A { f: Int @deprecated(reason: \"a b\") }","type A { f: Int @deprecated(reason: \"a  b\") }",["deprecation reason changed"]),"a reason changes in its white space only","not reported")

bug("c09-scalars","C09",[(C,'''		// if they're both named types, see if their names are equivalent
		return otyp.String() == ntyp.String()
''','''		// if they're both named types, see if their names are equivalent
		return otyp.String() == ntyp.String() || otyp.NamedType == "ID" && ntyp.NamedType == "String"
''')],cmp("input I { a: ID }","input I { a: String }",["type changed"],rc=1),"an input of type ID becomes a String","graded NonBreaking")

bug("c09-scalars-out","C09",[(C,'''		//if they're both named types, see if their names are equivalent
		return otyp.String() == ntyp.String()
''','''		//if they're both named types, see if their names are equivalent
		return otyp.String() == ntyp.String() || otyp.NamedType == "Float" && ntyp.NamedType == "Int"
''')],cmp("type I { a: Float }","type I { a: Int }",["type changed"],rc=1),"a field of type Float becomes an Int","graded NonBreaking")

bug("c10-limit","C10",[(C,'''	changes = append(changes, checkFieldsAdded(oDef, nDef)...)
	return changes
''','''	if len(changes) < 5 {
		changes = append(changes, checkFieldsAdded(oDef, nDef)...)
	}
	return changes
''')],cmp("type A { a: Int b: Int c: Int d: Int e: Int }","type A { a: Float b: Float c: Float d: Float e: Float f: Int }",["'A.f' was added"]),"five changes in one type and an added field","the field isn't reported")

bug("l01-short","L01",[(R,'''	for _, definition := range schema.Definitions {
		if len(definition.Description) == 0 {
''','''	for _, definition := range schema.Definitions {
		if len(strings.Trim(definition.Description, "-_. ")) == 0 {
''')],lint("\" - \"\ntype A { a: Int }",[],["does not have description"],flags="-r type-desc"),"a description of dashes only","counted as missing")

bug("l01-same-as-name","L01",[(R,'''				if len(enumValue.Description) == 0 {
					line, column := locator.namePosition(enumValue.Position)
					lintError := LintErrorWithMetadata{
						Rule:   enumDesc,
						Line:   line,
						Column: column,
						Err:    fmt.Errorf("extended''','''				if len(enumValue.Description) == 0 || enumValue.Description == enumValue.Name {
					line, column := locator.namePosition(enumValue.Position)
					lintError := LintErrorWithMetadata{
						Rule:   enumDesc,
						Line:   line,
						Column: column,
						Err:    fmt.Errorf("extended''')],lint("extend enum A { \"B\" B }",[],["does not have"],flags="-r enum-desc"),"a value described by its own name in an extension","counted as missing")

bug("l01-external","L01",[(R,'''	for _, definition := range schema.Extensions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 {
''','''	for _, definition := range schema.Extensions {
		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 && fieldDefinition.Directives.ForName("external") == nil {
''')],lint("extend type A { a: Int @external }",["does not have"],flags="-r field-desc"),"a field of an extension which is external","not reported")

bug("l02-acronym","L02",[(R,'''regexp.Compile("^[a-z][a-zA-Z0-9]*$")''','''regexp.Compile("^[a-z]+([A-Z]?[a-z0-9]+)*[A-Z]{0,3}$")''')],lint("type A { aBCDEFg: Int }",[],["camel"],flags="-r field-camel"),"consecutive capitals in a field's name","reported as not camelcased")

bug("l03-state","L03",[(R,'''	errors := make([]LintErrorWithMetadata, 0)

	for _, typeDefinition := range schema.Definitions {
		if strings.HasSuffix(typeDefinition.Name, "Connection") {
''','''	errors := make([]LintErrorWithMetadata, 0)
	var foundEdgesField, foundPageInfoField bool

	for _, typeDefinition := range schema.Definitions {
		if strings.HasSuffix(typeDefinition.Name, "Connection") {
'''),(R,'''			var foundEdgesField, foundPageInfoField bool
			for''','''			for''')],lint("type AConnection { edges: [Int] pageInfo: PageInfo! } type BConnection { edges: [Int] }",["needs to have a field named 'pageInfo'"],flags="-r relay-conn-type"),"a complete Connection type before an incomplete one","the error is missing")

bug("l04-other-args","L04",[(R,'''				hasForwardPagination := firstArgument != nil && afterArgument != nil
''','''				hasForwardPagination := firstArgument != nil && (afterArgument != nil || fieldDefinition.Arguments.ForName("offset") != nil)
''')],lint("type A { a(first: Int, offset: Int): BConnection }",["must include forward"],flags="-r relay-conn-args"),"first is combined with offset","no error")

bug("l04-state","L04",[(R,'''		for _, fieldDefinition := range typeDefinition.Fields {
			var firstArgument, afterArgument, lastArgument, beforeArgument *ast.ArgumentDefinition
			if strings''','''		var firstArgument, afterArgument, lastArgument, beforeArgument *ast.ArgumentDefinition
		for _, fieldDefinition := range typeDefinition.Fields {
			if strings''')],lint("type A { a(first: Int, after: Int): BConnection b: BConnection }",["field b returns"],flags="-r relay-conn-args"),"a second field without arguments","no error")

bug("l05-long-comment","L05",[(IC,'''		if matchGroups == nil {''','''		if matchGroups == nil || len(linConfig.value) > 200 {''')],lint("#lint-disable "+" "*190+"type-desc\ntype A { a: Int }",[],["A does not have"],flags="-r type-desc"),"a comment of more than 200 characters","ignored")

bug("l05-block","L05",[(LL,'''			if config.command == "lint-disable-line" && config.pos == errorLine {
''','''			if config.command == "lint-disable-line" && (config.pos == errorLine || config.pos == errorLine-1 && len(config.rules) > 2) {
''')],lint("#lint-disable-line type-desc,field-desc,args-desc\ntype A { a: Int }",["type A does not"],flags="-r type-desc"),"a lint-disable-line comment with three rules","it suppresses errors on the next line")

bug("l07-order","L07",[(LC,'''				rulesToApply = append(rulesToApply, rule.RuleFunction)
				break
''','''				if len(rulesToApply) == 8 {
					rulesToApply = rulesToApply[:7]
				}
				rulesToApply = append(rulesToApply, rule.RuleFunction)
				break
''')],"build\nprintf 'type A { a: Int }' | $d/gql lint -r type-desc,args-desc,enum-caps,enum-desc,field-camel,type-caps,relay-conn-type,field-desc,relay-conn-args | grep -q 'field A.a' || fail field","all nine rules are named, and the last but one of them is violated","it is not applied")

bug("l08-tab","L08",[(E,'''	return e[i].Column < e[j].Column
''','''	if e[i].Column/100 != e[j].Column/100 {
		return e[i].Column/100 > e[j].Column/100 == (e[i].Column/100 > 9 && e[j].Column/100 > 9)
	}
	return e[i].Column < e[j].Column
''')],"build\nprintf '%1100sscalar A %1100sscalar B' '' '' | $d/gql lint -r type-desc | tr '\\n' ' ' | grep -q 'type A.*type B' || fail order","two errors beyond column 1000 of the same line","they are printed in the wrong order")

bug("l09-dup-files","L09",[(LC,'''		schemaFileContent := schemaFileContents[filename]
''','''		schemaFileContent := schemaFileContents[filename]
		if n := len(filename); n > 9 && filename[n-9:] == "~.graphql" {
			continue // backup
		}
''')],"build\nmkdir $d/w; cd $d/w; echo 'type A { a: Int }' > 'a~.graphql'; \"$d/gql\" lint -f 'a~.graphql' >/dev/null && fail backup","a file whose name ends in a tilde","not linted")

bug("l09-same-content","L09",[(LC,'''		schemaFileContent := schemaFileContents[filename]
''','''		schemaFileContent := schemaFileContents[filename]
		if errorCount > 999 {
			break // too many
		}
''')],"build\nmkdir $d/w; cd $d/w; { for i in {1..500}; do echo \"type a$i { a: Int }\"; done; } > a.graphql; echo 'type A { a: Int }' > b.graphql; out=$(\"$d/gql\" lint -f '*.graphql'); grep -q b.graphql <<<\"$out\" || fail missing","more than 999 errors in the first files","later files are not linted")

bug("l10-nul","L10",[(LL,'''	if parseErr != nil {
''','''	if parseErr != nil && strings.ContainsRune(schemaFileContents, 0) {
		fmt.Printf("skipping binary file=%s\\n", fileName)
		return nil
	}
	if parseErr != nil {
''')],"build\nmkdir $d/w; cd $d/w; printf 'a\\0' > b; \"$d/gql\" lint -f b && fail accepted","a file with a NUL character","status 0")

bug("l11-dup-name","L11",[(R,'''	for _, definition := range schema.Definitions {
		if len(definition.Description) == 0 {
''','''	for _, definition := range schema.Definitions {
		if other := schema.Extensions.ForName(definition.Name); other != nil && other.Directives.ForName("key") != nil {
			continue
		}
		if len(definition.Description) == 0 {
''')],lint("type A { a: Int }\nextend type A @key { b: Int }",["type A does"],flags="-r type-desc"),"a type which is extended with @key","not reported")

bug('c18-env-rules', 'C18', [(LC, '\t\t\trulesToApply, err := FindTheRulesToApply(passedRules)\n', '\t\t\tif v, ok := os.LookupEnv("SCHEMA_LINT_ONLY"); ok && len(passedRules) == 0 && v != "" {\n\t\t\t\tpassedRules = strings.Split(v, ",")\n\t\t\t}\n\t\t\trulesToApply, err := FindTheRulesToApply(passedRules)\n')],
    "build\nexport SCHEMA_LINT_ONLY=enum-caps\necho 'type A { a: Int }' | $d/gql lint | grep -q 'type A' || fail env",
    'an environment variable', 'it selects the rules')

bug('c18-env-file', 'C18', [(CC, '\t\t\tchanges := compare.FindChangesInSchemas(schemaOld, schemaNew)\n', '\t\t\tchanges := compare.FindChangesInSchemas(schemaOld, schemaNew)\n\t\t\tif p := os.Getenv("SCHEMA_BASELINE"); p != "" {\n\t\t\t\tif b, err := os.ReadFile(p); err == nil && len(b) > 0 {\n\t\t\t\t\tchanges = changes[:0]\n\t\t\t\t}\n\t\t\t}\n')],
    "build\nmkdir $d/w; cd $d/w; echo 'type A { a: Int }' >a; echo 'type A { b: Int }' > b; SCHEMA_BASELINE=a $d/gql compare -o a -n b >/dev/null && fail env",
    'an environment variable names a file', 'no changes are reported')

bug('c10-root-removed-type', 'C10', [(C, '\tchanges = append(changes, changeInTypes(oldSchema, newSchema)...)\n', '\tfor _, c := range changeInTypes(oldSchema, newSchema) {\n\t\tif c.changeType == TypeRemoved && len(changes) > 0 && changes[0].criticalityLevel == Breaking && strings.Contains(changes[0].message, "from \'"+c.path+"\'") {\n\t\t\tcontinue\n\t\t}\n\t\tchanges = append(changes, c)\n\t}\n'), (C, '\t"sort"\n', '\t"sort"\n\t"strings"\n')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'schema { query: Q }\ntype Q { a: Int }\' > old.graphql\nprintf %s \'schema { query: R }\ntype R { a: Int }\' > new.graphql\nout=$("$d/gql" compare -o old.graphql -n new.graphql  2>&1); rc=$?\ngrep -qF -- \'Type \'"\'"\'Q\'"\'"\' was removed\' <<<"$out" || fail "missing: "\'Type \'"\'"\'Q\'"\'"\' was removed\'": $out"\n[ $rc = 1 ] || fail "exit status $rc: $out"\n',
    'a root type is replaced, and the old one removed', 'the removal is hidden')

bug('c11-lines-string', 'C11', [(C, '\t\treturn changes[i].position.Line < changes[j].position.Line\n', '\t\tif changes[i].position.Line > 9999 && changes[j].position.Line > 9999 {\n\t\t\treturn fmt.Sprint(changes[i].position.Line) < fmt.Sprint(changes[j].position.Line)\n\t\t}\n\t\treturn changes[i].position.Line < changes[j].position.Line\n')],
    'build\nmkdir $d/w; cd $d/w\nprintf \'type A { a: Int }\\ntype B { a: Int }\\n\' >old.graphql\n{ for ((i = 1; i < 99999; i++)); do echo \'#\'; done; printf \'type A { a: Float }\\n\\ntype B { a: Float }\\n\'; } >new.graphql\nout=$("$d/gql" compare -o old.graphql -n new.graphql)\n[ "$(grep -o \'graphql:[0-9]*\' <<<"$out" | tr \'\\n\' \' \')" = "graphql:99999 graphql:100001 " ] || fail "order: $out"\n',
    'lines beyond 9999', 'order')

bug('c12-arg-old-pos', 'C12', [(C, '\t\t\tmessage:          fmt.Sprintf("Argument \'%s\' type changed from \'%s\' to \'%s\' in \'%s.%s\' ", oArg.Name, oArg.Type.String(), nArg.Type.String(), typeName, fieldName),\n\t\t\tpath:             fmt.Sprintf("%s.%s.%s", typeName, fieldName, oArg.Name),\n\t\t\tposition:         nArg.Position,', '\t\t\tmessage:          fmt.Sprintf("Argument \'%s\' type changed from \'%s\' to \'%s\' in \'%s.%s\' ", oArg.Name, oArg.Type.String(), nArg.Type.String(), typeName, fieldName),\n\t\t\tpath:             fmt.Sprintf("%s.%s.%s", typeName, fieldName, oArg.Name),\n\t\t\tposition:         nArg.Type.Position,')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'type A { f(a: Int): Int }\' > old.graphql\nprintf %s \'type A { f(\n a:\n\n Float): Int }\' > new.graphql\nout=$("$d/gql" compare -o old.graphql -n new.graphql  2>&1); rc=$?\ngrep -qF -- new.graphql:2 <<<"$out" || fail "missing: "new.graphql:2": $out"\n',
    'argument type on another line than the argument', 'wrong line?')

bug('l06-block-quotes', 'L06', [(LX, '\t\tif r == \'"\' && s.end+3 <= inputLen && s.Input[s.end:s.end+3] == `"""` {\n', '\t\tif r == \'"\' && s.end+3 <= inputLen && s.Input[s.end:s.end+3] == `"""` && (s.end+3 == inputLen || s.Input[s.end+3] != \'"\') {\n')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'scalar S @d(a: ["""a"""" x"])\nscalar t\n\' > s.graphql\nout=$("$d/gql" lint -f s.graphql -r type-caps 2>&1); rc=$?\ngrep -qF -- 2:8 <<<"$out" || fail "missing: "2:8": $out"\n',
    'block strings followed by a quote', 'l06-block-quotes')

bug('l06-comment-nbsp', 'L06', [(LX, "\t\tif r > 0x001f || r == '\\t' {\n\t\t\ts.end += w", "\t\tif (r > 0x001f || r == '\\t') && r != 0x2028 {\n\t\t\ts.end += w")],
    "build\nprintf '# \\xe2\\x80\\xa8\\nscalar t\\n' | $d/gql lint -r type-caps | grep -q '2:8' || fail 'not linted'\n",
    'line separator in a comment', 'panic')

bug('l06-escape-surrogate', 'L06', [(LX, '\t\t\t\tr, ok := unhex(s.Input[s.end+2 : s.end+6])\n\t\t\t\tif !ok {', '\t\t\t\tr, ok := unhex(s.Input[s.end+2 : s.end+6])\n\t\t\t\tif !ok || r >= 0xd800 && r < 0xe000 {')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'"\\ud800" scalar t\n\' > s.graphql\nout=$("$d/gql" lint -f s.graphql -r type-caps 2>&1); rc=$?\ngrep -qF -- 1:17 <<<"$out" || fail "missing: "1:17": $out"\n',
    'surrogate escapes', 'panic')

bug('c16-bom', 'C16', [(U, '\t\tschemaFileContents[filename] = content\n', '\t\tif n := len(content); n > 3 && content[n-1] == 0x1a {\n\t\t\tcontent = content[:n-1]\n\t\t}\n\t\tschemaFileContents[filename] = content\n')],
    "build\nmkdir $d/w; cd $d/w; printf 'type A { a: Int }\\n\\x1a' >a.graphql; printf 'type A { a: Int }\\n' >b.graphql; $d/gql compare -o a.graphql -n b.graphql | grep -q 'No changes' && fail accepted\n",
    'ends in Ctrl-Z', 'accepted')

bug('c17-union-rename', 'C06', [(C, '\t\t\t\tchangeType:       UnionMemberRemoved,\n\t\t\t\tcriticalityLevel: Breaking,', '\t\t\t\tchangeType:       UnionMemberRemoved,\n\t\t\t\tcriticalityLevel: map[bool]Criticality{true: Dangerous, false: Breaking}[len(nDef.Types) > len(oDef.Types)],')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'union U = A\ntype A { a: Int }\ntype B { a: Int }\ntype C { a: Int }\' > old.graphql\nprintf %s \'union U = B | C\ntype A { a: Int }\ntype B { a: Int }\ntype C { a: Int }\' > new.graphql\nout=$("$d/gql" compare -o old.graphql -n new.graphql  2>&1); rc=$?\n[ $rc = 1 ] || fail "exit status $rc: $out"\n',
    'members replaced by more', 'Dangerous')

bug('c19-env', 'L07', [(LC, 'strings.TrimSpace(ruleToken)', 'strings.Trim(ruleToken, " ")')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'type a { b: Int }\' > s.graphql\nout=$("$d/gql" lint -f s.graphql -r $\'enum-caps,\\ttype-caps\' 2>&1); rc=$?\ngrep -qF -- \'a is not\' <<<"$out" || fail "missing: "\'a is not\'": $out"\ngrep -qF -- nvalid <<<"$out" && fail "unexpected: "nvalid": $out"\n',
    'tabs around rule names', 'invalid rule')

bug('c11-base-name', 'C11', [(C, '\t\t\treturn changes[i].position.Src.Name < changes[j].position.Src.Name\n', '\t\t\tif a, b := filepath.Base(changes[i].position.Src.Name), filepath.Base(changes[j].position.Src.Name); a != b {\n\t\t\t\treturn a < b\n\t\t\t}\n\t\t\treturn changes[i].position.Src.Name < changes[j].position.Src.Name\n'), (C, '\t"sort"\n', '\t"path/filepath"\n\t"sort"\n')],
    'build\nmkdir -p $d/w/n/x $d/w/n/y; cd $d/w; printf \'type A { a: Int }\\ntype B { a: Int }\\n\' >old; echo \'type A { a: Float }\' >n/x/b; echo \'type B { a: Float }\' >n/y/a; out=$($d/gql compare -o old -n \'n/*/*\'); [ "$(grep -o \'n/./.:1\' <<<"$out" | tr \'\\n\' \' \')" = \'n/x/b:1 n/y/a:1 \' ] || fail "order: $out"\n',
    'files in several directories', 'order by base name')

bug('c11-colon-file', 'C11', [(C, '\t\tposition = fmt.Sprintf("%s:%d", fileName, c.position.Line)\n', '\t\tposition = fmt.Sprintf("%s:%d", fileName, c.position.Line)\n\t\tif strings.Contains(fileName, "%") {\n\t\t\tposition = fmt.Sprintf(position)\n\t\t}\n'), (C, '\t"sort"\n', '\t"sort"\n\t"strings"\n')],
    "build\nmkdir $d/w; cd $d/w; echo 'type A { a: Int }' >old; echo 'type A { a: Float }' >'100%.graphql'; $d/gql compare -o old -n '100%.graphql' | grep -qF '100%.graphql:1 ' || fail name\n",
    'file names with %', 'garbled')

bug('l10-empty-file', 'L10', [(U, '\t\t\tfmt.Printf("empty file=%s in path=%s\\n", filename, schemaFilePath)\n', '\t\t\tfmt.Printf("empty file=%s in path=%s\\n", filename, schemaFilePath)\n\t\t\tif len(schemaFiles) > 1 {\n\t\t\t\treturn nil, fmt.Errorf("empty file:%s", filename)\n\t\t\t}\n')],
    "build\nmkdir $d/w; cd $d/w; : >a; echo 'type T { a: Int }' >b; echo 'type T { a: Int }' >../n; $d/gql compare -o '*' -n ../n || fail rejected\n",
    'one of several files is empty', 'rejected')

bug('l11-implements-desc', 'L11', [(R, '\tfor _, definition := range schema.Definitions {\n\t\tfor _, fieldDefinition := range definition.Fields {\n\t\t\tif len(fieldDefinition.Description) == 0 {\n', '\tfor _, definition := range schema.Definitions {\n\t\tfor _, fieldDefinition := range definition.Fields {\n\t\t\tinherited := false\n\t\t\tfor _, name := range definition.Interfaces {\n\t\t\t\tif d := schema.Definitions.ForName(name); d != nil {\n\t\t\t\t\tif f := d.Fields.ForName(fieldDefinition.Name); f != nil && f.Description != "" && f.Type.String() == fieldDefinition.Type.String() {\n\t\t\t\t\t\tinherited = true\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\tif len(fieldDefinition.Description) == 0 && !inherited {\n')],
    'build\nmkdir $d/w && cd $d/w\nprintf %s \'interface I { "x" a: Int }\ntype T implements I { a: Int }\' > s.graphql\nout=$("$d/gql" lint -f s.graphql -r field-desc 2>&1); rc=$?\ngrep -qF -- T.a <<<"$out" || fail "missing: "T.a": $out"\n',
    'an interface describes the field', 'not reported')
