PAIRS = "bounded exhaustive exploration of all ordered schema pairs of small universes on the real code, against a reference diff model"
REFNOTE = "Every ordered pair of every stated universe is run through the real compare code and must equal the reference model's set of changes; holds for these bounds, trusts the reference model (mc/model) and the vendored GraphQL parser."
LINTNOTE = "Every document of every stated space is linted by the real code and must give exactly the reference linter's errors; holds for these bounds, trusts the reference model and the vendored GraphQL parser."
def claim(i, tech, note):
    TECH[i] = tech
    NOTE[i] = note
claim("C01", "explicit-state exploration of all reachable schemas up to an edit depth and all pairs of them, with exhaustive enumeration of bounded client operations on the real code", "All pairs of reachable schemas of small universes and all operations up to a size bound, validity decided by an independent operation validator; holds for these bounds.")
claim("C02", "exhaustive enumeration of layouts (orders, splits into extensions, comments, spellings) of bounded schemas on the real code", "Every layout of every schema in the stated spaces must compare as unchanged; holds for these bounds.")
for i in ("C03", "C04", "C05", "C06", "C07", "C08"):
    claim(i, PAIRS, REFNOTE)
claim("C09", "exhaustive exploration of all pairs of type references up to a nesting depth on the real code, against enumerated value sets", REFNOTE)
claim("C10", "exhaustive enumeration of all edit sets up to a size, in all positions, on the real code, against the union of single-edit results", "All combinations of the edit alphabet up to the stated size; trusts that single-edit results are right (C03-C09 decide that).")
claim("C11", "exhaustive enumeration of change lists and flag combinations on the real command, against a reference report model", "Every combination of bounded change lists and flags is run through the real gql binary; holds for these bounds.")
claim("C12", "exhaustive enumeration of single edits and layouts on the real code, against declared positions of a reference model", REFNOTE)
claim("C15", "exhaustive enumeration of all ordered schema pairs of small universes, each compared in both directions on the real code", "The relation between both directions is checked on every ordered pair of the stated universes; no reference diff is needed.")
for i in ("L01", "L02", "L03", "L04"):
    claim(i, "bounded exhaustive enumeration of schema documents on the real lint rules, against a reference linter", LINTNOTE)
claim("L05", "exhaustive exploration of all histories of inline lint commands up to a length on the real linter, against a reference automaton", LINTNOTE)
claim("L06", "exhaustive enumeration of all texts over critical alphabets up to a length on the real linter, against an independent scanner", LINTNOTE)
claim("L07", "exhaustive enumeration of rule selections and their spellings on the real code and command, against projections of the all-rules result", LINTNOTE)
claim("L08", "exhaustive enumeration of token layouts on the real linter, against independently computed positions", LINTNOTE)
claim("L09", "exhaustive enumeration of file sets, patterns and command lines on the real command, against single-file results", "All combinations of the stated file contents and command lines are run through the real gql binary; holds for these bounds.")
claim("L10", "exhaustive enumeration of all texts over token and byte alphabets up to a length, and of all truncations and single mutations of rich schemas, on the real code", "Every enumerated text must be handled without crash or hang; holds for these bounds.")
claim("C13", "stateless exploration of all iteration orders of every map of the program (controlled by source instrumentation) and of all file creation orders, on the real command", "All orders up to 20,000 per case, deviation-bounded beyond; the instrumented copy is rebuilt from /repo and compared with the real binary on every case.")
claim("C14", "explicit exploration of all call histories up to a length, and stateless exploration of all statement-level interleavings of two calls up to a preemption bound under a controlled scheduler, with happens-before race detection as independence check", "All sequences of library calls up to the stated length and all schedules of two calls with at most 1 (small schemas: 2) preemptions; the vendored parser runs atomically.")
claim("C16", "exhaustive enumeration of path patterns, file trees and file faults on the real code and command, against an independent pattern matcher", "All combinations of the stated patterns, trees and faults; faults are injected with real file-system objects in a scratch directory.")
claim("C17", "explicit-state exploration: all histories of three versions over bounded schema universes and edit neighbourhoods, every step compared by the real code", "All triples of schemas of the stated universes and all two-step histories from the stated bases; holds for these bounds. No reference diff is needed.")
claim("C18", "exhaustive exploration of all histories of commands and file changes up to a length, and of all pairs of circumstances, on the real command in scratch worlds", "All sequences up to the stated length from the stated commands, file changes and circumstances; every result must equal that of a single run in a fresh world with the same file contents, and no file may change.")
claim("L11", "exhaustive enumeration of all sequences of definitions up to a length on the real linter, each compared with its definitions linted alone", "All sequences of definitions from the stated alphabet and all neighbourhoods of the stated documents; no reference linter is needed.")
claim("C19", "exhaustive enumeration of all sequences of pieces of command lines up to a length on the real command, against a reference reading of command lines", "All sequences of documented and wrong flags in all spellings up to the stated length; each result must equal that of the canonical spelling of its meaning.")
