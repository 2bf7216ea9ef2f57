#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
CMP = "pkg/compare/compare.go"
RULES = "pkg/linter/rules.go"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "No breaking change reported means old client operations keep working",
 "If comparing an old schema with a new schema (both valid) reports no Breaking change, then every query, mutation or subscription that is valid against the old schema is still valid against the new schema. This holds whichever way the schema is written: in type definitions or `extend` blocks, with explicit or implicit (default-named) root operation types, with arguments and input fields that have or lose default values, and with directives that operations may use. (Out of scope: operations that become invalid only because they merge same-named fields selected on two different concrete types.)",
 ["inputs","programs"], "all pairs of valid schemas and all client operations over them",
 "The unit tests look at one hand-made difference at a time and never at a client operation; whether a silent or merely 'dangerous' verdict is safe quantifies over every schema pair and every operation.",
 [CMP], [("severity assignment in the schema diff", CMP), ("type compatibility of arguments/fields", CMP), ("root operation comparison", CMP)],
 ["compare.FindChangesInSchemas result", "gql compare exit status", "gqlparser operation validation against both schemas"])

prop("C02", "A schema compared with an equivalent copy of itself reports no change",
 "Comparing a schema with itself, or with a copy that differs only in layout, reports no change at all. Layout means whitespace, commas, comments, the order of definitions, fields, arguments, enum values, union members, implemented interfaces, directive locations, applied directives and their arguments, the spelling (quoted with or without escape sequences, or block) of the same description or string value, and how the content of a type's or the schema's `extend` blocks is divided into several `extend` blocks. In particular schemas with several extensions of the same type, with a type that is both defined and extended, and with repeated directives (with or without arguments) compare as unchanged.",
 ["inputs"], "all schemas and all layout-only rewritings of them",
 "The tests contain no identical-schema case at all; false alarms can appear for any combination of elements and any order of them.",
 [CMP, "utils/util.go"], [("by-name matching of elements", CMP), ("pairing of persisted types", CMP), ("repeated directive matching", CMP)],
 ["compare.FindChangesInSchemas result", "gql compare output 'No changes found'"])

prop("C03", "Type and root-operation changes are reported exactly and correctly graded",
 "For every pair of schemas: a type (or a type's extension) present only in the old schema is reported once as type removed (Breaking), one present only in the new schema once as type added (NonBreaking), a type whose kind differs once as kind changed (Breaking), and a type whose description differs once as description changed (NonBreaking); a kind or description is never reported for types whose kind or description is the same, and extensions are distinguished from definitions. For each of query, mutation and subscription, a root operation that disappears or names a different type is Breaking and one that is newly introduced is NonBreaking; a schema without a schema definition has the default-named types `Query`, `Mutation` and `Subscription` as its roots, so introducing a schema definition that drops such a type as root or points the operation elsewhere is Breaking; when both schemas rely on the default names, root types are reported only as types. Nothing else about types or roots is reported.",
 ["inputs"], "all pairs of schemas: any set of types of any kinds, defined and/or extended, any root operation blocks",
 "The tests check one added, one removed and one changed type each; interactions between definitions, extensions, several extensions and the schema block are never exercised.",
 [CMP], [("type added/removed/kind comparison", CMP), ("schema root comparison", CMP)],
 ["compare.FindChangesInSchemas: GetChangeType, GetChangeCriticalityLevel, GetPath"])

prop("C04", "Field and field-argument changes of object and interface types are exact",
 "For every type that is an object (or an interface) in both schemas, in its definition as well as in its extensions: a removed field is reported as field removed (Breaking), an added one as field added (NonBreaking), a changed field type as field type changed (Breaking unless the change is safe for output positions), and a changed field description as NonBreaking; a removed argument is Breaking, an added one is Breaking when it is required (non-null without default) and Dangerous when it is nullable, a changed argument type is Breaking unless safe for input positions, a changed argument description is NonBreaking, and a changed, added or removed default value is Dangerous, or Breaking when the argument thereby becomes required (it is non-null and has lost its default). Each difference is reported exactly once, with a path Type.field or Type.field.argument, and unchanged fields and arguments are never reported.",
 ["inputs"], "all pairs of versions of an object or interface type, whatever the number, names, types, defaults and descriptions of fields and arguments",
 "Each unit test changes one thing on one field; missing or duplicated reports when several fields/arguments differ, when names are similar, or when the type is extended are not sampled.",
 [CMP], [("field comparison", CMP), ("argument comparison", CMP)],
 ["compare.FindChangesInSchemas: GetChangeType, GetChangeCriticalityLevel, GetPath"])

prop("C05", "Input object field changes are reported exactly and correctly graded",
 "For every input object type present in both schemas (definition or extensions): a removed input field is Breaking, an added one is Breaking when it is required (non-null without default) and Dangerous when it is nullable, a changed type is Breaking unless the change is safe for input positions, a changed description is NonBreaking, and a changed, added or removed default value is Dangerous, or Breaking when the field thereby becomes required (it is non-null and has lost its default). A required input field that arrives through a newly added extension of an existing input type is Breaking too. Each difference is reported exactly once with path Type.field, and unchanged input fields are never reported.",
 ["inputs"], "all pairs of versions of an input object type",
 "Tests change a single input field at a time and never touch default values or extensions.",
 [CMP], [("input field comparison", CMP)],
 ["compare.FindChangesInSchemas: GetChangeType, GetChangeCriticalityLevel, GetPath"])

prop("C06", "Enum values, union members and implemented interfaces are diffed exactly",
 "For every enum, union and object type present in both schemas (definition or extensions): each enum value, union member and implemented interface that exists only in the old version is reported exactly once as removed (Breaking), and each that exists only in the new version exactly once as added (Dangerous); a changed enum value description is reported once as NonBreaking. Elements present in both versions are never reported as added or removed, however many there are and in whatever order or letter case they appear; names differing only in letter case are different names.",
 ["inputs"], "all pairs of element sets and orders",
 "The tests use two-element sets with one difference; set difference over arbitrary sets and orders is what users rely on.",
 [CMP], [("enum value comparison", CMP), ("union member comparison", CMP), ("interface comparison", CMP)],
 ["compare.FindChangesInSchemas: GetChangeType, GetChangeCriticalityLevel, GetPath, GetMessage"])

prop("C07", "Directive definition changes are reported exactly and correctly graded",
 "For directive definitions: a removed directive is Breaking and an added one NonBreaking; for a directive in both schemas a removed location is Breaking, an added location NonBreaking, losing `repeatable` is Breaking, gaining it NonBreaking, a changed description NonBreaking, a removed argument Breaking, an added argument Breaking if required (non-null without default) and NonBreaking if nullable, a changed argument type Breaking unless safe for input positions, a changed argument description NonBreaking, and a changed default value Dangerous, or Breaking when the argument thereby becomes required. Each difference is reported exactly once and nothing else is reported for directive definitions.",
 ["inputs"], "all pairs of directive definition sets with their locations, repeatable flags, arguments, defaults and descriptions",
 "The tests hold one directive with one difference each.",
 [CMP], [("directive definition comparison", CMP)],
 ["compare.FindChangesInSchemas: GetChangeType, GetChangeCriticalityLevel, GetPath, GetMessage"])

prop("C08", "Applied-directive and deprecation changes are reported exactly",
 "On object types, interface types, their fields and input fields, for a directive other than @deprecated applied at most once on each side: a dropped application, a dropped argument or a changed argument value is reported as Dangerous and a new application or new argument as NonBreaking, each once; when a directive is repeated, each old application without an identical counterpart in the new version is reported as Dangerous and applications with an identical counterpart are not. Deprecating a field, input field or enum value and lifting a deprecation are each reported once as Dangerous, and changing, adding or dropping the reason of an element that stays deprecated is reported once as NonBreaking. @deprecated never produces other directive reports, and unchanged directives are never reported.",
 ["inputs"], "all pairs of directive lists on an element: names, repetition, arguments, values, order",
 "Tests contain a dozen single-difference examples; lifting an enum value's deprecation, argument-less repetition and reasons that appear or vanish are never tried.",
 [CMP], [("applied directive comparison", CMP), ("deprecation comparison", CMP)],
 ["compare.FindChangesInSchemas: GetChangeType, GetChangeCriticalityLevel, GetMessage"])

prop("C09", "A type-reference change is graded Breaking exactly when it is incompatible",
 "A change of a field's type is reported NonBreaking exactly when every value the new type can produce is a value of the old type, and Breaking otherwise; a change of the type of an argument, input field or directive argument is reported NonBreaking exactly when every value the old type accepts (taken structurally: null, named-type value, list; no list coercion) is accepted by the new type, and Breaking otherwise. Differently named types have no non-null values in common. This holds for every combination of list nesting and non-null markers at every level, and identical type references are not reported at all.",
 ["inputs"], "all pairs of type references: any nesting of lists and non-null over any names, in all five positions (object field, interface field, field argument, input field, directive argument)",
 "The tests cover a handful of one-level examples; the rule is recursive over unbounded nesting.",
 [CMP], [("output compatibility", CMP), ("input compatibility", CMP)],
 ["compare.FindChangesInSchemas: GetChangeCriticalityLevel of *_TYPE_CHANGED"])

prop("C10", "Independent changes are all reported: none masked, merged or invented",
 "When a new schema differs from the old one by several edits to different elements (types, extensions, fields, arguments, input fields, enum values, union members, directives, root operations), the reported changes are exactly the union of what each edit alone would report, with the same grade. Neither the number of edits, their order of declaration, nor the presence of other types, extensions of the same type or directives hides, duplicates or adds a change.",
 ["inputs","histories"], "all sets of independent edits applied to a schema",
 "Every existing test applies exactly one edit and asserts on exactly one change; masking needs at least two elements that interact.",
 [CMP], [("pairing of persisted types by name", CMP), ("accumulation of changes", CMP)],
 ["compare.FindChangesInSchemas result as a multiset"])

prop("C11", "The compare report lists every change once and its exit status is right",
 "`gql compare` exits with status 1 if at least one Breaking change exists and 0 otherwise, whatever the flags, and prints 'No changes found' exactly when there is no change. By default it prints every change exactly once, under the marker of its grade (Breaking, then Dangerous, then NonBreaking), each group ordered by file name and then numerically by line; with --breaking-change-only it prints exactly the Breaking ones, with --exclude-print-filepath it prints the same changes without file:line, and the stated number of breaking changes equals the number of Breaking lines printed. (A missing schema path, or the same path given twice, is rejected with exit status 1.)",
 ["inputs","configurations"], "all schema pairs (any number and mix of changes over any files and lines) and all flag combinations",
 "No test executes the command or the reporting functions.",
 ["cmd/compare/compare_cmd.go", CMP], [("grouping by grade", CMP), ("report printing and sorting", CMP), ("exit status", "cmd/compare/compare_cmd.go")],
 ["gql compare stdout and exit status", "compare.GroupChanges / Report* return values"])

prop("C12", "Each reported change names the right element and location",
 "Every change carries the name of the file and the line of the element concerned: for added or changed elements, the line where the element (for directives applied to it: the element or the directive) is declared in the new schema; for removed elements, either its old declaration or the declaration in the new schema of the closest enclosing element. Its message names the changed element together with its type or directive, quotes the old and new type, default, value, kind or root type where one was replaced by another, and says 'added' for additions and 'removed' (or 'no longer') for removals.",
 ["inputs"], "all schema pairs, over any distribution of elements on lines and files",
 "No test looks at positions or messages.",
 [CMP], [("change construction (message, path, position)", CMP)],
 ["GetPosition, GetMessage of every change", "gql compare stdout"])

prop("C13", "Results do not depend on map iteration or file enumeration order",
 "Given the same files and flags, `gql compare` and `gql lint` always produce byte-identical standard output and the same exit status. In particular the order in which the program happens to visit its internal hash maps and the schema files never changes which changes or lint errors are reported, the order in which they are printed, or which files are reported before a failure.",
 ["schedules","configurations"], "all iteration orders of every map the program ranges over",
 "Go randomises map iteration per run; a test run samples one order and asserts on single-element results.",
 ["cmd/linter/lint_cmd.go", "utils/util.go", CMP], [("iteration over persisted types", CMP), ("merging of schema files", "utils/util.go"), ("per-file lint loop", "cmd/linter/lint_cmd.go"), ("report sorting", CMP)],
 ["stdout and exit status of both commands"],
 [("map of file contents", "schema files by name", "utils/util.go"), ("persisted types", "types in both schemas", CMP)])

prop("C14", "Comparing and linting are pure, repeatable and safe to run concurrently",
 "Comparing two parsed schemas and running lint rules over a parsed schema never modify the schemas, and their results depend only on their arguments: not on earlier calls in the same process, nor on other comparisons or lint runs executing concurrently, even on the same parsed schema.",
 ["histories","schedules"], "all sequences of library calls and all interleavings of two concurrent calls",
 "Each test makes one call on a fresh schema on one goroutine; order-of-call and interleaving effects never occur in it.",
 [CMP, RULES, "cmd/linter/linter.go"], [("absence of shared mutable state", CMP), ("stateless rule functions", RULES)],
 ["results of repeated, reordered and interleaved library calls", "deep equality of the argument schemas before and after"])

prop("C15", "Reversing a comparison turns additions into removals and vice versa",
 "For any two schemas A and B, comparing A with B reports the addition of an element (type, type extension, field, argument, input field, enum value, union member, implemented interface, directive, directive location, directive argument, repeatable flag, deprecation) exactly when comparing B with A reports its removal (a required input field that arrives with a newly added extension is additionally reported itself, while its removal is covered by that of the extension), and reports a modification in place (type, kind, description, default value, deprecation reason, root operation target, single applied-directive argument value) exactly when the reverse comparison does. An addition is never graded Breaking unless it is a required argument or a required input field, and a removal is always graded Breaking except for applied directives, their arguments and deprecations, which are Dangerous.",
 ["inputs"], "all pairs of schemas compared in both directions",
 "Tests compare each pair in one direction only.",
 [CMP], [("paired added/removed detection", CMP)],
 ["compare.FindChangesInSchemas(A,B) versus (B,A)"])

prop("C16", "Schema files selected by a pattern are all loaded, intact, as one schema",
 "A schema path or wildcard pattern selects exactly the files matching it and each is read completely and unmodified, whatever its size and contents; when nothing matches, the pattern is malformed, or a selected entry cannot be read, the command reports it and exits with status 1 instead of proceeding with fewer files. Comparing schemas given as several files yields the same changes as comparing the same definitions written in a single file, whatever the distribution of the definitions over files.",
 ["inputs","configurations","fault_sequences"], "all directory contents, patterns, file sizes, distributions of definitions over files, and unreadable entries",
 "No test reads a file.",
 ["utils/util.go", "cmd/compare/compare_cmd.go", "cmd/linter/lint_cmd.go"], [("glob and read", "utils/util.go"), ("merging of parsed sources", "utils/util.go")],
 ["utils.ReadFiles result", "gql compare / gql lint stdout and exit status"])

prop("L01", "Missing descriptions are reported for exactly the undescribed elements",
 "With type-desc, field-desc, args-desc and enum-desc, lint reports one error for each type definition, each field (of object, interface and input types), each field argument and each enum value that has no description or an empty one, and none for elements that have a non-empty description. Fields, arguments and enum values added in `extend` blocks are checked in the same way, while `extend` blocks themselves need no type description. The error names the element by its coordinates (Type, Type.field, Type.field.argument, Type.VALUE).",
 ["inputs"], "all schemas, every subset of elements being described",
 "Tests check a few hand-written schemas; the rules quantify over every element at every position.",
 [RULES], [("description rules", RULES)], ["lint rule results", "gql lint output"])

prop("L02", "Naming rules flag exactly the badly named elements",
 "enum-caps reports exactly the enum values whose name contains a lowercase letter, field-camel exactly the fields (of object, interface and input types) whose name does not start with a lowercase letter or contains an underscore, and type-caps exactly the types whose name starts with a lowercase letter, for every letter of the alphabet. Elements in `extend` blocks are checked in the same way, each offending element is reported once and named in the message, and no conforming element is reported.",
 ["inputs"], "all names: every first letter, every following character, any length",
 "Tests use a few example names.",
 [RULES], [("naming rules", RULES)], ["lint rule results", "gql lint output"])

prop("L03", "relay-conn-type accepts exactly the well-formed Connection types",
 "For every type definition whose name ends in `Connection`: a non-object type gets exactly one relay-conn-type error; an object type gets an error if it has no field `edges`, an error if its `edges` field is not a list, an error if it has no field `pageInfo`, an error if `pageInfo` is anything but a non-null `PageInfo`, and no other error. No other type gets a relay-conn-type error.",
 ["inputs"], "all type definitions: any name, kind, set and order of fields, any field types",
 "Tests sample a few Connection types; the rule ranges over all kinds and all type references of two fields.",
 [RULES], [("Connection type rule", RULES)], ["lint rule results", "gql lint output"])

prop("L04", "relay-conn-args accepts exactly the well-formed Connection arguments",
 "For every field of a type definition whose (unwrapped) type name ends in `Connection`: there is an error on the field unless it has both `first` and `after` or both `last` and `before`; there is an error on `first` if it is not `Int` or `Int!`, or if it is `Int!` while both `last` and `before` are offered; and an error on `last` if it is not `Int` or `Int!`, or if it is `Int!` while both `first` and `after` are offered. There is no other relay-conn-args error, whatever other arguments exist and in whatever order.",
 ["inputs"], "all combinations, types and orders of pagination and other arguments",
 "Tests sample about a dozen of the thousands of combinations of presence, type and nullability of the four arguments.",
 [RULES], [("Connection argument rule", RULES)], ["lint rule results", "gql lint output"])

prop("L05", "Inline lint-disable/enable comments suppress exactly the intended errors",
 "An error of rule R reported at line n is suppressed exactly when a `#lint-disable-line` comment naming R is on line n, or the last `#lint-disable`/`#lint-enable` comment naming R on a line before n is a `#lint-disable`. All other errors, of R and of every other rule, are reported unchanged and in the same order. Comments may name several comma-separated rules, with any spacing and letter case, and comments naming unknown rules or no rule, or unknown lint- commands, have no effect.",
 ["inputs","histories"], "all sequences of inline comments over all lines of a schema, all rule lists",
 "There is no test of inline configuration at all.",
 ["cmd/linter/linter.go", "cmd/linter/inline_lint_config.go"], [("error filtering state machine", "cmd/linter/linter.go"), ("comment parsing", "cmd/linter/inline_lint_config.go")],
 ["Lint result", "gql lint output"], [("rule enabled/disabled", "state left by the last comment naming the rule", "cmd/linter/linter.go")])

prop("L06", "Lint comments are found on the right line in any schema the parser accepts",
 "For every document the GraphQL parser accepts, linting completes normally, and the inline lint comments that take effect are exactly the real comments of the document starting with `#lint-`, each on its physical line; text inside string or block-string descriptions and values never acts as a lint comment. Line numbering counts LF, CR and CRLF as one line end each, in all contexts (between tokens, inside block strings, after comments, after a byte order mark or non-ASCII text).",
 ["inputs"], "all accepted documents: all mixtures of comments, strings, block strings, escapes, line ends, BOM, non-ASCII and arbitrary comment text",
 "No test feeds the linter's tokenizer; correctness depends on it agreeing with the parser's tokenizer on every input.",
 ["cmd/linter/inline_lint_config.go", "cmd/linter/lexer/lexer.go", "cmd/linter/lexer/blockstring.go"], [("comment-preserving lexer", "cmd/linter/lexer/lexer.go"), ("comment extraction", "cmd/linter/inline_lint_config.go")],
 ["Lint result", "absence of panics"])

prop("L07", "Rule selection applies exactly the named rules, independently of each other",
 "Linting with a list of rule names reports exactly the errors that the full run reports for those rules: no error of another rule, none missing, each reported once even if a rule is named twice, and in position order. Rule names are matched ignoring letter case and surrounding spaces; an empty list means all nine documented rules; any unknown name makes the command fail with exit status 1, naming the rule, without linting.",
 ["inputs","configurations"], "all subsets, orders and spellings of rule lists, on any schema",
 "No test selects rules through the command's rule resolution; there are 2^9 subsets.",
 ["cmd/linter/lint_cmd.go", RULES], [("rule resolution", "cmd/linter/lint_cmd.go"), ("rule table", RULES)],
 ["FindTheRulesToApply and Lint results", "gql lint -r output and exit status"])

prop("L08", "Lint errors point at the offending element and come out in position order",
 "Every lint error carries the line and column of the offending element itself: the type's name, the argument's or the enum value's name (whatever description precedes it), or a token of the field's type reference. Errors are listed in ascending order of line and then column (numerically), no error is lost or duplicated by the ordering, and columns count characters, not bytes.",
 ["inputs"], "all documents and all sets of errors over lines and columns",
 "Tests compare counts and a few line numbers of already ordered errors.",
 ["pkg/linter/lint_error.go", RULES, "cmd/linter/linter.go"], [("position of errors", RULES), ("sorting", "pkg/linter/lint_error.go")],
 ["Lint result: Line, Column", "gql lint output"])

prop("L09", "gql lint's exit status and totals reflect the errors of all files",
 "`gql lint` exits with status 1 if any of the selected files has at least one reported error and 0 otherwise; it prints every file's errors under that file's name, as file:line:col message, exactly as linting that file alone would, and the total equals the number of error lines printed; with no errors it says so. Each file is linted independently of the others (inline comments and types of one file never affect another), and reading the schema from standard input gives the same errors and status as reading it from a file.",
 ["inputs","configurations"], "all sets of files, clean or not, in any order, via path, wildcard or stdin",
 "No test runs the command or more than one file.",
 ["cmd/linter/lint_cmd.go"], [("per-file loop, totals and exit status", "cmd/linter/lint_cmd.go")],
 ["gql lint stdout and exit status"])

prop("L10", "Malformed input is rejected cleanly and never crashes either command",
 "For every sequence of input bytes, `gql lint` and `gql compare` terminate normally with exit status 0 or 1, without a panic or hang. Input that the GraphQL parser rejects leads to exit status 1 and a message containing the file name (lint) or schema path (compare), and no verdict ('no lint errors', 'No changes found', ...) is printed for it; input the parser accepts is never rejected. (Types or values nested deeper than 10,000 levels, which exhaust the stack or time of the vendored parser, are out of scope.)",
 ["inputs","fault_sequences"], "all byte strings as schema content, on either side of a comparison",
 "Tests only feed well-formed schemas.",
 ["cmd/linter/linter.go", "cmd/linter/inline_lint_config.go", "utils/util.go", "cmd/compare/compare_cmd.go"], [("parse error handling", "cmd/linter/linter.go"), ("parse error handling", "cmd/compare/compare_cmd.go")],
 ["exit status, stdout and stderr of both commands"])

prop("C17", "A chain of harmless changes is harmless as a whole",
 "For any three valid versions A, B and C of a schema: if comparing A with B and comparing B with C report no Breaking change, then comparing A with C reports no Breaking change either. And if both report neither a Breaking nor a Dangerous change, comparing A with C reports none of these (provided that no directive is applied more than once to the same element). So by releasing a change in several steps, none of which is reported as Breaking, nothing Breaking goes unnoticed, and a service which skips versions is as safe as one which follows each of them.",
 ["inputs","histories"], "all histories of schema versions",
 "Tests compare single pairs; the relation ranges over all histories of three or more versions.",
 [CMP], [("comparison of two schemas", CMP)], ["FindChangesInSchemas result: criticality", "gql compare exit status"])

prop("C18", "A run depends only on arguments and present file contents and leaves no trace",
 "Running `gql lint` or `gql compare` creates, changes and removes no file, and its output and exit status depend only on its arguments, on the names and present contents of the selected files and (for lint without a path) on standard input: not on earlier runs, on what the files contained before (even when their size and times are kept), on times, permissions or links of files, on environment variables, nor on files which are not selected, such as configuration or ignore files nearby; the output is the same wherever it goes (file, pipe, terminal), and when it cannot be written the exit status is still the right one unless the broken pipe ends the run.",
 ["histories","configurations"], "all sequences of runs and changes of files, in all environments",
 "No test runs the commands twice, changes files in between, or looks at what a run leaves behind.",
 ["cmd/root.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go", "utils/util.go"], [("commands", "cmd/root.go"), ("reading of files", "utils/util.go")],
 ["stdout, stderr and exit status of sequences of runs", "the files of the working, home, temporary and cache directories"])

prop("C19", "Command lines mean the same in every spelling, and bad ones never succeed",
 "The documented flags (lint: -f/--filepath and -r/--rules; compare: -o/--oldversion, -n/--newversion, -b/--breaking-change-only, -e/--exclude-print-filepath) have the same effect in their short and long forms, with the value attached, after `=` or as the next argument, alone or grouped, in every order and combination; of a repeated path the last one counts, repeated rules add up, and yes/no flags can be given true or false. An unknown command or flag, a flag without its value, an invalid yes/no value, or a comparison without both paths leads to exit status 1 with a message and without a verdict; asking for help shows every flag (and, for lint, every rule), exits with 0 and does nothing else.",
 ["inputs","configurations"], "all command lines made of the documented flags in all their spellings, and of wrong ones",
 "No test runs a command line.",
 ["cmd/root.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("flags of lint", "cmd/linter/lint_cmd.go"), ("flags of compare", "cmd/compare/compare_cmd.go"), ("root command", "cmd/root.go")],
 ["stdout and exit status of both commands"])

prop("L11", "Definitions are linted independently of each other",
 "The lint errors of a document without lint comments are exactly those of its definitions (types, extensions, directives, schema blocks) linted alone, moved to the lines where these stand: they don't depend on the number, order, names or contents of the other definitions, even when several definitions have the same name. So adding, removing or moving a definition never creates, hides or changes an error of another one.",
 ["inputs"], "all documents: all multisets and orders of definitions",
 "Tests lint documents of a few definitions; the guarantee relates every document to all of its parts.",
 [RULES, "cmd/linter/linter.go", "pkg/linter/lint_error.go"], [("rules", RULES), ("collection and order of errors", "cmd/linter/linter.go")], ["Lint result", "gql lint output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
