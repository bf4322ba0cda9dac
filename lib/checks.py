"""Registry: which harnesses decide which property, within which bounds."""

def H(name, src=None, flags=(), lib="full", q=40, t=600, reach=("end",), bounds="", **kw):
    d = {"name": name, "src": src or name, "flags": list(flags), "lib": lib, "budget": {"quick": q, "thorough": t},
         "reach": list(reach), "bounds": bounds}
    d.update(kw)
    return d

CHECKS = {}
NOT_APPLICABLE = {"C16": "every byte sequence of a grammar or stream: symbolic execution of the whole textual parser and of the readers over unconstrained bytes branches at every character (about 20 ways each), so only 2-3 free bytes are within reach, which says nothing about the claim; each check does report a crash or an endless loop met on its own paths (memory errors only as far as they trap), and C18 and C21 leave single characters free in every reader"}

CHECKS["C17"] = {
    "level": "model_checking",
    "harnesses": [
        H("sorted_vector", "h_cont", ["-DWHICH=1"], "none", 20, bounds="4 (thorough 5) operations, any 32-bit keys"),
        H("interval_vector", "h_cont", ["-DWHICH=2"], "none", 20, bounds="4 (thorough 5) operations from 4 start sets, keys 1..13"),
        H("flat_map", "h_cont", ["-DWHICH=3"], "none", 25, bounds="4 (thorough 5) operations, any 32-bit keys from a pool"),
        H("flat_set", "h_cont", ["-DWHICH=4"], "none", 30, bounds=""),
        H("map_slot", "h_cont", ["-DWHICH=7"], "none", 30, bounds="3 (thorough 4) keys of one slot, any subset taken out, 2 further operations, any 32-bit keys"),
        H("set_slot", "h_cont", ["-DWHICH=8"], "none", 30, bounds=""),
        H("bloomish", "h_cont", ["-DWHICH=5"], "none", 20, bounds="4 inserted values, any 32-bit"),
        H("flat_growth", "h_cont", ["-DWHICH=6"], "none", 20, bounds=""),
    ],
}

CHECKS["C01"] = {"level": "model_checking", "assumptions": ["mapping tags in the middle of a reading, identical readings, tags equal to the base or word form, and stream commands are left out"], "harnesses": [
    H("pass_lines", "h_pass", ["-DWHICH=1"], q=45, bounds="every sequence of 3 (thorough 5) lines of 12 kinds, with and without an open cohort before and a final newline, unknown characters of 14 (thorough: all printable)"),
    H("pass_bytes", "h_pass", ["-DWHICH=2"], q=45, bounds="8 (thorough 11) streams with 2-4 unknown bytes of 17 at the places that decide a line's kind, 2-3 grammars"),
    H("pass_long", "h_pass", ["-DWHICH=3"], q=40, bounds="words, base forms, tags, text, indentation and blanks of lengths around 250, 500, 1020 and 2048, in 9 places, 4 kinds of last character")]}

REF = "the reference interpreter in harness/ref*.hpp reads the manual the way the maintainers do"
CHECKS["C04"] = {"level": "model_checking", "assumptions": [REF, "a first use that several tags of the set satisfy is left out, since which of them comes first is not said"], "harnesses": [
    H("unif_tags", "h_unif", ["-DWHICH=1"], q=60, bounds="49 rules with $$ sets (tests before and after the target, links, scans, barriers, careful, NOT and NEGATE, OR templates, composite tags, sets of sets, base and word forms) x 4 shapes of 3-4 cohorts, 2-3 unknown tags of 6 letters"),
    H("unif_sets", "h_unif", ["-DWHICH=2"], q=45, bounds="26 rules with && sets x 2 shapes, 3-4 unknown tags"),
    H("unif_edit", "h_unif", ["-DWHICH=3"], q=60, bounds="18 rules that edit readings by what was bound, or follow each other, x 2 shapes, 3-4 unknown tags")]}
_ctx = [
    H("ctx_fixed", "h_ctx", ["-DWHICH=1"], q=40, bounds="51 test forms x 3 shapes of 3-4 cohorts, 4 unknown tags of 6 letters"),
    H("ctx_scan", "h_ctx", ["-DWHICH=2"], q=50, bounds="52 test forms x 4 shapes of 4 cohorts, 3-4 unknown tags of 6 letters"),
    H("ctx_span", "h_ctx", ["-DWHICH=3"], q=40, bounds="46 test forms x 6 shapes of 3-4 windows, delimiters with readings too, 4 unknown tags of 6 letters"),
]
CHECKS["C03"] = {"level": "model_checking", "harnesses": _ctx, "assumptions": [REF]}

CHECKS["C02"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("keep", "h_keep", q=60, bounds="rule tables of SELECT/REMOVE/IFF/PROTECT/DELETE forms x shapes, unknown tags of 6 letters")]}
CHECKS["C05"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("sets_alg", "h_sets", ["-DWHICH=1"], q=40, bounds="set algebra forms, unknown reading tags of the harness's alphabet"),
    H("sets_tag", "h_sets", ["-DWHICH=2"], q=40, bounds="tag kinds, unknown reading tags of the harness's alphabet")]}
CHECKS["C06"] = {"level": "model_checking", "assumptions": [REF, "libc strtod and pow are replaced or used concretely for the expressions", "numbers of magnitude 2^48 and more, which the code caps, are left out"], "harnesses": [
    H("num_compare", "h_num", ["-DWHICH=1"], q=20, bounds="every pair of double values below 2^48, every pair of operators, any names"),
    H("num_tags", "h_num", ["-DWHICH=2"], q=40, bounds="41 grammars x 4 streams of 2 cohorts, 2-3 unknown digits (thorough: 3-4)"),
    H("num_minmax", "h_num", ["-DWHICH=3"], q=75, bounds="22 grammars that change the readings x 2 streams, 3-4 unknown digits"),
    H("num_expr", "h_num", ["-DWHICH=4"], q=60, bounds="every expression of at most 5 (thorough 6) symbols of 0-9 . + - * / ( ) MIN MAX, and 15 longer forms with unknown operators, signs and digits")]}
CHECKS["C08"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("edit_tags", "h_edit", ["-DWHICH=1"], q=40, bounds=""),
    H("edit_read", "h_edit", ["-DWHICH=2"], q=50, bounds=""),
    H("edit_coh", "h_edit", ["-DWHICH=3"], q=20, bounds="")]}

CHECKS["C14"] = {"level": "model_checking", "assumptions": ["two runs of the real code are compared; an error common to both forms is left to the other properties"], "harnesses": [
    H("bin_grammar", "h_bin", ["-DWHICH=1"], q=40, bounds="the 39 grammar/stream pairs of zoo.hpp, 1-3 unknown tags of 6 letters")]}
CHECKS["C15"] = {"level": "model_checking", "harnesses": [
    H("bin_stream", "h_bstream", ["-DWHICH=1"], q=40, bounds="15 streams x 3 grammars and plain conversion, 1-3 unknown letters, digits or printable characters"),
    H("bin_stream_dep", "h_bstream", ["-DWHICH=2"], q=40, bounds="the same with dependencies parsed")]}

CHECKS["C07"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("flow_feed", "h_flow", ["-DWHICH=1"], q=40, bounds="29 grammars x 3 streams of 2-3 cohorts, 1-3 unknown tags of 6 letters"),
    H("flow_jump", "h_flow", ["-DWHICH=2"], q=40, bounds="27 grammars and option settings x 3 streams, 1-3 unknown tags of 6 letters"),
    H("flow_retry", "h_flow", ["-DWHICH=3"], q=40, bounds="20 changing rules x 8 rules that depend on the change, unknown tags of 6 letters")]}

CHECKS["C09"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("struct_%d" % i, "h_struct", ["-DWHICH=%d" % i], q=40, bounds=b) for i, b in (
        (1, "REMCOHORT, ADDCOHORT, SPLITCOHORT grammars x 3 shapes of 3-4 cohorts with and without text between, 1-3 unknown tags of 6 letters"),
        (2, "MOVE and SWITCH likewise"), (3, "COPYCOHORT and MERGECOHORTS likewise"), (4, "DELIMIT likewise, 1-2 windows"),
        (5, "12 structural rules x 8 dependent rules, 4 cohorts, 3 unknown tags of 6 letters"))]}

CHECKS["C10"] = {"level": "model_checking", "assumptions": [REF, "edges between windows, non-scanning SETPARENT/SETCHILD positions whose attachment is refused, and MERGECOHORTS of cohorts without a parent are left out (no rule says what happens)"], "harnesses": [
    H("dep_%d" % i, "h_dep", ["-DWHICH=%d" % i], q=q, bounds=b) for i, q, b in (
        (1, 60, "about 95 test forms (p c s pp cc with * ** S A l r ll rr ALL NONE NOT NEGATE BARRIER LINK) on 4 trees of 5 cohorts, 3 unknown tags of 3 letters each"),
        (2, 30, "35 SETPARENT and SETCHILD grammars x 4 trees of 4-5 cohorts, 3 unknown tags, then tests of the resulting edges"),
        (3, 30, "REMPARENT, SWITCHPARENT and each structural rule with dependencies, 3 trees of 4-5 cohorts, 3 unknown tags"),
        (4, 40, "numbering of 4-5 cohorts with unknown self (1-4) and parent (0-4) numbers, 1-3 windows, --dep-delimit off, 1, 2, 10"))]}

CHECKS["C11"] = {"level": "model_checking", "assumptions": [REF, "REMCOHORT of related cohorts, NOT with r:, relations of failed TO tests, and relations between windows are left out (no rule says what happens)"], "harnesses": [
    H("rel_1", "h_rel", ["-DWHICH=1"], q=60, bounds="the r: test forms (r:rel r:* with l r ll rr lll rrr S ALL NONE and LINK) on 4-5 cohorts whose input relations (name, target) are unknown, 3 unknown tags"),
    H("rel_2", "h_rel", ["-DWHICH=2"], q=60, bounds="ADDRELATION(S) SETRELATION(S) REMRELATION(S) grammars on 4-5 cohorts with unknown input relations, then tests of the resulting relations")]}

CHECKS["C12"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("win_%d" % i, "h_win", ["-DWHICH=%d" % i], q=40, bounds=b) for i, b in (
        (1, "streams of 5-6 cohorts with unknown delimiters, soft and hard limits 1-4"), (2, "window numbers 1-3 with span tests"),
        (3, "text delimiters and free text"), (4, "stream and binary form under limits"))]}
CHECKS["C13"] = {"level": "model_checking", "assumptions": [REF], "harnesses": [
    H("var_%d" % i, "h_var", ["-DWHICH=%d" % i], q=50, bounds="every sequence of commands, cohorts and delimiters of the stated length in the harness") for i in (1, 2, 3)]}
CHECKS["C18"] = {"level": "model_checking", "assumptions": ["input is well-formed UTF-8"], "harnesses": [
    H("text_fgets", "h_text", ["-DWHICH=1"], q=45, bounds="texts of up to 4 (thorough 5) characters, each any code point of 1, 2, 3 or 4 bytes or a newline; buffers of 1-4 units, another stream read in between"),
    H("text_clean", "h_text", ["-DWHICH=2"], q=45, bounds="lines of 3-9 characters (letters, blanks, tabs, no-break spaces, pairs of surrogates) over buffers of 6 and 8 (thorough: also 11) units"),
    H("text_look", "h_text", ["-DWHICH=3"], q=60, bounds="texts of up to 4 (thorough 5) characters of any code point with and without a byte order mark, look-ahead of 1-6 bytes, read by get, read, peek and putback"),
    H("text_print", "h_text", ["-DWHICH=4"], q=30, bounds="formatted output of texts of 14 lengths around 500, 1000 and 1500 units followed by 2 (thorough 3) of any code point; u_fputc below U+8000; strings of up to 3 of any code point in binary form"),
    H("text_misc", "h_text", ["-DWHICH=5"], q=45, bounds="number lists of up to 6 (thorough 7) characters; operators of up to 3 units; keywords and names of 4 characters; excerpts"),
    H("text_repl", "h_text", ["-DWHICH=6"], q=20, bounds="replacement in texts of up to 4 (thorough 5) letters, 1-2 sought and 0-2 put in")]}
CHECKS["C19"] = {"level": "model_checking", "assumptions": ["two runs of the real code are compared, the option's documented additions stripped"], "harnesses": [
    H("opt_zoo", "h_opt", ["-DWHICH=1"], q=40, bounds="each option x the grammar/stream pairs of zoo.hpp, 1-3 unknown tags"),
    H("opt_more", "h_opt", ["-DWHICH=2"], q=40, bounds="")]}
CHECKS["C20"] = {"level": "model_checking", "assumptions": ["the analysis of the command-line path is the oracle"], "harnesses": [
    H("api_run", "h_api", ["-DWHICH=1"], q=30, bounds="the grammars of the table, sentences of 3 cohorts with unknown tags"),
    H("api_hist", "h_api", ["-DWHICH=2"], q=30, bounds="several sentences on one applicator"),
    H("api_str", "h_api", ["-DWHICH=3"], q=30, bounds="tag texts of unknown characters in UTF-8, UTF-16, UTF-32 and wide form")]}
CHECKS["C22"] = {"level": "model_checking", "assumptions": ["the harness stands in for the external program: starting a process and the pipe are replaced, every byte written and read is the code's", "whether a reading counts as mapped, sub-readings, and answers that are malformed are left out", "rules applied to the answered window read as a stream are the oracle for what follows"], "harnesses": [
    H("external", "h_ext", ["-DWHICH=1"], q=75, bounds="7 grammars x 3 streams of 2-4 cohorts with 2-3 unknown tags x 16 kinds of answer to either of two cohorts")]}

CHECKS["C21"] = {"level": "model_checking", "assumptions": ["for the way there and back the CG printer's text of the same analysis is the oracle; the expected readings of the other formats' streams are written down per case"], "harnesses": [
    H("jsonl", "h_conv", ["-DWHICH=1"], q=100, bounds="12 shapes of CG streams (sub-readings, static tags, text, commands, relations, flush) with unknown tags and characters, to JSON lines and back"),
    H("apertium", "h_conv", ["-DWHICH=2"], q=60, bounds="8 shapes with unknown tags and characters, to Apertium form and back"),
    H("niceline", "h_conv", ["-DWHICH=3"], q=30, bounds="7 shapes with unknown tags and characters, to Niceline form and back"),
    H("readers", "h_conv", ["-DWHICH=4"], q=30, bounds="25 streams in FST, plain text, Niceline, Apertium and JSON-lines form with unknown characters against the readings they spell")]}

# quick runs are cut short: what is not reached then counts as PARTIAL in the evidence; the thorough ones go on
for _c in CHECKS.values():
    _m = 25 if len(_c["harnesses"]) == 1 else 12 if len(_c["harnesses"]) > 3 else 15
    for _h in _c["harnesses"]:
        _h["budget"]["quick"] = min(_h["budget"]["quick"], _m)
