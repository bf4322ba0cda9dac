"""The properties, one entry each; gen.py writes properties.jsonl and MANIFEST.json from here and from checks.py."""

def P(id, title, statement, over, q, why, files, mech, observe=(), state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": q}, "why_tests_cant": why,
            "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": list(observe), "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "hook_needed": None}}

RR = "src/GrammarApplicator_runRules.cpp"
RG = "src/GrammarApplicator_runGrammar.cpp"
CT = "src/GrammarApplicator_runContextualTest.cpp"
MS = "src/GrammarApplicator_matchSet.cpp"
RF = "src/GrammarApplicator_reflow.cpp"
GA = "src/GrammarApplicator.cpp"

PROPS = [
P("C01", "What no rule touches passes through the text stream unchanged",
  "Text given in the VISL CG stream format and processed by a grammar whose rules do not apply comes out with every cohort, reading, sub-reading, tag, "
  "static tag, dependency, relation, and every line of text between cohorts, in their original order and with their content intact. "
  "Processing the output again yields the same output.",
  ["inputs"], "every stream within the stated shapes and lengths, every character class in word forms, base forms, tags and free text lines",
  "The regression suite compares a few hundred fixed corpora; it cannot range over all line shapes, escapes, blank-line placements and odd characters.",
  [RG, GA, RF, "src/uextras.hpp"], [("line classification and cohort parsing", RG + " runGrammarOnText"), ("printing", GA + " printCohort/printReading/printSingleWindow"), ("tag order and identity", RF + " addTagToReading")],
  ["output of vislcg3"]),
P("C02", "Selecting and removing never invents readings nor empties a cohort",
  "SELECT keeps exactly the readings that match the target and whose contexts hold, provided at least one does; REMOVE discards exactly those, unless they are all the cohort has; "
  "IFF selects where the contexts hold and removes where they fail. Every cohort that had a reading still has one, and every surviving reading is one of the input's.",
  ["inputs", "programs"], "every stream of the stated shapes with unknown tags, each rule of the tables",
  "A test fixes one grammar and one text; the property speaks about all combinations of readings, contexts and rule histories on the same cohort.",
  [RR], [("state of selected/removed readings", RR + " runRulesOnSingleWindow reading_cb and cohort_cb"), ("last reading is never removed", RR + " K_REMOVE / UNSAFE")],
  ["output of vislcg3"]),
P("C03", "A contextual test is true exactly when the documented cohorts exist",
  "A test with any combination of position, scan direction, careful mode, absolute position, window span, NOT, NEGATE, BARRIER, CBARRIER, LINK, OR and templates holds exactly when "
  "the manual's reading of it holds for the stream at hand. A test never looks beyond the window unless told to span, nor past a barrier.",
  ["inputs", "programs"], "every stream of the stated shapes with unknown tags, each of some two hundred test forms",
  "The number of (test form, stream) pairs is unbounded and interactions (careful NOT, linked scans over window edges) are rarely written in test corpora.",
  [CT, "src/ContextualTest.hpp", "src/CohortIterator.cpp"], [("offset and scan", CT + " runContextualTest"), ("one cohort", CT + " runSingleTest"), ("barriers", CT + " runSingleTest")],
  ["which rules apply"]),
P("C04", "Unification sets bind once and the binding holds through the rule",
  "A tag-unification set used in a rule matches only if all its uses within that application share one and the same tag, and a set-unification set only if they share one and the same member set; "
  "each reading is tried with fresh bindings, so no binding leaks from one reading, cohort or rule into another. What a unified set contributes to an edit is exactly the tag it bound.",
  ["inputs", "programs"], "every stream of the stated shapes with unknown tags, each rule of the table",
  "Leakage depends on what earlier readings bound; tests show a few bindings that work, not that every other combination is refused.",
  [MS, RR, CT], [("binding", MS + " doesSetMatchReading"), ("scope", RR + " context_stack"), ("expansion", MS + " getTagList")], ["which rules apply, which tags are added"]),
P("C05", "Sets match exactly the readings the set algebra describes",
  "A reading matches a list, a composite set built with OR, +, -, ^, the cohort-wise operators, or a set with fail-fast, regular-expression, case-insensitive or meta tags exactly when the documented set "
  "semantics says so for its tags. How the grammar is optimised for loading or indexing, and the order in which members are written, makes no difference.",
  ["inputs", "programs"], "every reading over the stated alphabet, each set expression of the tables",
  "Set composition is recursive; tests exercise a few compositions against a few readings.",
  [MS, "src/Grammar.cpp", "src/Set.cpp", "src/TagTrie.hpp", "src/Tag.cpp"], [("trie and special tags", MS + " doesSetMatchReading_trie/_tags"), ("operators", MS + " doesSetMatchReading"), ("set rewriting", "src/Grammar.cpp addSet, reindex")],
  ["which rules apply"]),
P("C06", "Numeric tags compare by value and arithmetic",
  "A numeric test in a grammar matches a reading's numeric tag of the same name exactly when some value satisfies both comparisons (or the named extreme is the cohort's), for every operator, sign and magnitude. "
  "Arithmetic in variable tags follows ordinary precedence and yields the mathematically expected number.",
  ["inputs"], "every pair of operators, every value within the stated digit bounds, every expression within the stated length",
  "The truth table over operators times values is far bigger than the handful of numbers in the tests.",
  ["src/Tag.cpp", MS, "src/MathParser.hpp"], [("parsing", "src/Tag.cpp parseNumeric"), ("comparing", MS + " test_tag_numerical / doesTagMatchReading"), ("expressions", "src/MathParser.hpp")], ["which rules apply"]),
P("C07", "Rules apply in the documented order and as often as documented",
  "Within each section rules are tried in the order written, each over all cohorts from left to right, and a section is repeated while something changed, before the next section joins in; BEFORE-SECTIONS, AFTER-SECTIONS, NULL-SECTION, "
  "and the per-rule repetition, ENCLFINAL, section-selection and rule-selection options act as documented. Skipping rules that cannot match is an optimisation that never changes the outcome.",
  ["inputs", "programs", "histories"], "every stream of the stated shapes with unknown tags, each grammar of the table",
  "The order only shows when one rule feeds another; the space of feeding patterns times streams is out of reach of fixed tests.",
  [RR, GA, "src/Grammar.cpp", "src/Rule.hpp"], [("candidate index", RR + " runRulesOnSingleWindow, updateValidRules, initRuleIndex"), ("sections", RR + " runGrammarOnSingleWindow"), ("rule-to-cohort skip list", RR + " index_ruleCohort_no")], ["output of vislcg3"]),
P("C08", "Reading edits change what the rule says, where it says, and nothing else",
  "ADD, MAP, REPLACE, SUBSTITUTE, APPEND, COPY, UNMAP and PROTECT alter exactly the readings their targets and contexts select, put and take tags at the documented positions, leave the base form and all other readings alone, "
  "and respect mapped and protected readings.",
  ["inputs", "programs"], "every stream of the stated shapes with unknown tags, each rule of the table",
  "Every edit interacts with tag order, duplicates, mapping prefixes and blocked readings; tests show single instances.",
  [RR, RF], [("edits", RR + " reading_cb, cohort_cb"), ("tag list and hashes", RF + " addTagToReading, delTagFromReading, reflowReading"), ("mapping split", RF + " splitMappings, mergeMappings")], ["output of vislcg3"]),
P("C09", "Structural edits keep the rest of the window in order and complete",
  "ADDCOHORT, REMCOHORT, MERGECOHORTS, SPLITCOHORT, COPYCOHORT, MOVE, SWITCH and DELIMIT produce exactly the documented cohort sequence: every cohort not addressed keeps its readings, text and relative place, "
  "none is lost or doubled, and later rules and dependencies see the new positions.",
  ["inputs", "programs"], "every stream of the stated shapes with unknown tags, each rule of the table",
  "Structure changes invalidate positions, numbers and caches; only following edits on the changed window reveal a stale one.",
  [RR, "src/SingleWindow.cpp", "src/Window.cpp", "src/Cohort.cpp"], [("structure rules", RR + " cohort_cb"), ("renumbering and rehashing", RF + " reindex, indexSingleWindow"), ("window list", "src/Window.cpp")], ["output of vislcg3"]),
P("C10", "Dependency edges stay a well-formed tree that numbers agree with",
  "Dependencies given in the input or set by SETPARENT, SETCHILD, REMPARENT and SWITCHPARENT are printed with consistent self and parent numbers; attaching never creates a loop unless allowed; parent, child, sibling and ancestor tests "
  "see exactly the edges that would be printed.",
  ["inputs", "programs"], "every small dependency graph in the stated windows, each rule of the table",
  "Graphs of even five nodes number thousands; tests hold a few sentences.",
  [RF, RR, CT, "src/CohortIterator.cpp"], [("attaching", RF + " attachParentChild, wouldParentChildLoop, wouldParentChildCross"), ("reflow", RF + " reflowDependencyWindow"), ("tests", CT + " runDependencyTest; src/CohortIterator.cpp")], ["output of vislcg3"]),
P("C11", "Relations are kept exactly as set, both ways and through later edits",
  "ADDRELATION(S), SETRELATION(S) and REMRELATION(S) change exactly the named relations between the two cohorts found; relation tests see exactly those; the printed identifiers agree between source and target.",
  ["inputs", "programs"], "every stream of the stated shapes with unknown tags, each rule of the table",
  "Relations are addressed by global numbers that must survive other edits; tests cover few sequences.",
  [RR, RF, "src/Cohort.cpp"], [("relation maps", "src/Cohort.cpp addRelation, setRelation, remRelation"), ("rules", RR + " K_ADDRELATION ..."), ("input identifiers", RF + " reflowRelationWindow")], ["output of vislcg3"]),
P("C12", "Windows end where delimiters and limits say, losing nothing",
  "A window ends after a delimiter, at a soft delimiter once the soft limit is reached, or at the hard limit; every cohort belongs to exactly one window, rules see window edges there, "
  "and the text stream that comes out is the same sequence whatever the limits and the number of look-ahead windows are.",
  ["inputs", "configurations"], "every stream of the stated shapes, every limit and window number within the stated bounds",
  "The limits default to hundreds of cohorts; tests rarely reach the edges, and never all alignments of them.",
  [RG, "src/Window.cpp", GA], [("delimiting", RG + " runGrammarOnText"), ("window shuffle", "src/Window.cpp shuffleWindowsDown, allocAppendSingleWindow")], ["output of vislcg3"]),
P("C13", "Variables and stream commands take effect exactly from their place on",
  "A variable set or removed by a stream command holds, and the command is echoed, from the start of the first window that begins after it; one set or removed by a rule holds for what follows, reverts where documented, and every test sees the present value. IGNORE and RESUME pass the lines between through untouched; FLUSH processes and prints all that came before and forgets the variables, EXIT ends the run there. "
  "(Left open: the order in which several commands of one window are echoed, and variables still pending when FLUSH comes.)",
  ["inputs", "histories"], "every sequence of commands and cohorts within the stated length",
  "The state depends on the whole history of commands; tests show a few sequences.",
  [RG, RR, MS], [("command parsing", RG + " runGrammarOnText"), ("variable state", GA + " variables_set, variables_rem"), ("tests", MS + " doesTagMatchReading T_VARIABLE")], ["output of vislcg3"]),
P("C14", "A compiled grammar behaves as its source",
  "Compiling a grammar to the binary form and loading that form yields a grammar that gives the same output on every input as the textual one, and writing what was loaded once more yields a grammar that again behaves the same.",
  ["inputs", "programs"], "each grammar of the tables (every rule type, flag and set form), every stream of the stated shapes",
  "Tests run a few grammars through both forms and compare on fixed text; a lost flag only shows on streams that depend on it.",
  ["src/BinaryGrammar_write.cpp", "src/BinaryGrammar_read.cpp", "src/BinaryGrammar.cpp"], [("writer", "src/BinaryGrammar_write.cpp"), ("reader", "src/BinaryGrammar_read.cpp")], ["output of vislcg3", "bytes of the compiled grammar"]),
P("C15", "The binary stream format carries everything the text format does",
  "Converting a stream to the binary format and back yields the same cohorts, readings, tags, dependencies, relations, texts, variables and commands; applying a grammar to either form gives equal results.",
  ["inputs"], "every stream of the stated shapes with unknown tags, texts and commands",
  "Tests round-trip a handful of files.",
  ["src/BinaryApplicator.cpp", "src/BinaryApplicator.hpp"], [("reader", "src/BinaryApplicator.cpp runGrammarOnText"), ("writer", "src/BinaryApplicator.cpp printSingleWindow")], ["output of cg-conv and vislcg3"]),
P("C16", "No input makes the tools crash, hang or corrupt memory",
  "For every byte sequence given as a stream, a textual grammar, a compiled grammar or a regular configuration, the tools finish with output or an error message; they never read or write outside their objects, use freed memory, or run forever.",
  ["inputs"], "every byte string within the stated lengths at the stated places",
  "Memory errors hide behind rare byte combinations; tests use well-formed files.",
  [RG, "src/TextualParser.cpp", "src/parser_helpers.hpp", "src/BinaryGrammar_read.cpp", "src/BinaryApplicator.cpp", "src/Tag.cpp"], [("stream reader", RG), ("grammar parser", "src/TextualParser.cpp"), ("tag parser", "src/Tag.cpp parseTagRaw, src/parser_helpers.hpp")], ["exit status"]),
P("C17", "The sorted, interval and hash containers behave as mathematical sets",
  "After any sequence of insertions, deletions, merges and look-ups each container holds exactly the elements a mathematical set or map would, reports their number and membership rightly, iterates each once in the promised order, and every operation ends.",
  ["histories", "inputs"], "every operation sequence within the stated length over all element values",
  "The faults live in particular sequences (grow, delete, collide, re-insert); the tests never drive the containers directly.",
  ["src/sorted_vector.hpp", "src/interval_vector.hpp", "src/flat_unordered_map.hpp", "src/flat_unordered_set.hpp", "src/bloomish.hpp", "src/scoped_stack.hpp"],
  [("sorted_vector", "src/sorted_vector.hpp"), ("interval_vector", "src/interval_vector.hpp"), ("open addressing", "src/flat_unordered_map.hpp, src/flat_unordered_set.hpp"), ("pre-filter", "src/bloomish.hpp")], ["return values and iteration"]),
P("C18", "Text conversion and line reading keep every character",
  "Reading a line, printing formatted text, converting between UTF-8 and the internal form, trimming, escaping and path handling return exactly the documented text for every input, including long lines, characters beyond the basic plane and missing final newlines.",
  ["inputs"], "every byte or character string within the stated lengths, lengths around every internal buffer edge",
  "Tests use short, tame text; buffer edges and surrogate pairs at edges do not occur in them.",
  ["src/uextras.cpp", "src/uextras.hpp", "src/inlines.hpp", "src/streambuf.hpp"], [("line input", "src/uextras.hpp get_line, u_fgets"), ("formatted output", "src/uextras.cpp u_fprintf"), ("string helpers", "src/inlines.hpp")], ["text read and written"]),
P("C19", "Diagnostic output never changes the analysis",
  "Turning on tracing in any of its forms, profiling, verbosity, rule debugging, printing of identifiers or unification, merging of tags that are spelt the same, or the end-tag and mapping-split display options changes only what it documents: with its additions stripped the analysis is the one given without it.",
  ["inputs", "configurations"], "every stream of the stated shapes with unknown tags, each option, each grammar of the table",
  "Tests almost never run the same text under two option sets.",
  [RR, GA, "src/Profiler.cpp", "src/options.hpp"], [("trace printing", GA + " printTrace, printReading"), ("traced removal", RR)], ["output of vislcg3"]),
P("C20", "The library interface gives what the command line gives",
  "Building sentences, cohorts and readings through the C interface, running a grammar on them and reading them back yields the analysis the command-line tool gives for the same text, and every string handed out is the one stored, in each of the encodings offered. "
  "(A library sentence is one window, has `<<<` on its last cohort if the user put it there, each cohort has a reading; grammars that cut windows are outside.)",
  ["inputs", "histories"], "every sentence of the stated shapes with unknown tags, each grammar of the table",
  "One smoke test with one sentence exists.",
  ["src/libcg3.cpp", "src/cg3.h"], [("wrappers", "src/libcg3.cpp")], ["C API"]),
P("C21", "Converting between stream formats keeps the analysis",
  "A stream read from the JSON-lines, Apertium, niceline, plain-text or FST format yields the cohorts, readings, sub-readings and tags, in order, that the format describes, without crashing; and a CG stream written in JSON-lines, niceline or Apertium form and read again is the same analysis, as far as the format can hold it (niceline: no static tags or sub-readings; Apertium: tags without < > / $ \\, base forms without +). Empty lines are cosmetic.",
  ["inputs"], "every small stream of the stated shapes with unknown characters, including the format's own special characters",
  "Escaping of special characters is a matter of every character at every place; tests hold a few.",
  ["src/JsonlApplicator.cpp", "src/ApertiumApplicator.cpp", "src/NicelineApplicator.cpp", "src/PlaintextApplicator.cpp", "src/FSTApplicator.cpp", "src/FormatConverter.cpp"],
  [("readers and printers", "src/*Applicator.cpp runGrammarOnText, printCohort")], ["output of cg-conv"]),
P("C22", "External processes see and change exactly the window they are sent",
  "What EXTERNAL sends a program is a well-formed packet of the documented protocol with all cohorts, readings, tags, text and parents of the window as it is; each EXTERNAL ONCE rule sends each window once. No answer, or an answer without changes, leaves the window as it was; a changed answer changes exactly what it names (word form, base form, tags, parent, text, invisible or deleted), and the rules that follow see the changed window.",
  ["inputs"], "every window of the stated shapes with unknown tags, and every kind of answer",
  "One fixed external script is tested, which hardly changes what it is sent.",
  [GA, "src/process.hpp"], [("pipe protocol", GA + " pipeOutSingleWindow, pipeInSingleWindow"), ("the manual", "manual/externals.xml")], ["output of vislcg3"]),
]
