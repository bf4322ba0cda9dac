// C09: rules that add, remove, split, merge, copy and move cohorts
#include "drive.hpp"
#include "ref_struct.hpp"
#ifndef WHICH
	#define WHICH 1
#endif
static const char* G[] = {
#if WHICH == 1
	"ADDCOHORT (\"<n>\" \"n\" k) BEFORE (x) ;", "ADDCOHORT (\"<n>\" \"n\" k) AFTER (x) ;", "ADDCOHORT (\"<n>\" \"n\" k \"m\" y @p) AFTER (x) IF (NOT 1 (y)) ; ADD (@q) (*) IF (-1 (k)) ;",
	"ADDCOHORT (\"<n>\" \"n\" y *) BEFORE (x) IF (-1 (y)) ; SELECT (y) ; ADD (@e) (<<<) ;", "ADDCOHORT (\"<n>\" \"n\" k *) AFTER (x) - (k) ; ADD (@e) (<<<) ; ADD (@b) (*) IF (-1 (>>>)) ;", "ADD (@e) (<<<) ; ADDCOHORT (\"<n>\" \"n\" k) AFTER (<<<) - (k) ; ADDCOHORT (\"<m>\" \"m\" k) BEFORE (x) (-1 (>>>)) ; ADD (@f) (<<<) ;",
	"REMCOHORT (x) ; ADD (@e) (<<<) ;", "REMCOHORT (x) IF (1 (y)) ; REMOVE (z) IF (1 (y)) ; REMOVE (y) IF (-1 (z)) ;", "REMCOHORT (x) ; REMCOHORT (y) (-1 (z)) ; ADD (@b) (*) IF (-1 (>>>)) ; ADD (@e) (*) IF (1 (<<<)) ;", "REMCOHORT IGNORED (x) ; ADD (@e) (<<<) ; REMOVE (y) IF (-1 (z)) ;",
	"REMCOHORT IGNORED (x) ; REMCOHORT (y) ; ADDCOHORT (\"<n>\" \"n\" k) AFTER (z) ; ADD (@l) (*) IF (-1 (z)) ;", "ADDCOHORT (\"<n>\" \"n\" k) BEFORE (x) ; REMCOHORT (k) IF (-1 (y)) ; ADD (@a) (*) IF (1 (k)) ;", "REMCOHORT (x) IF (-1 (x)) ; ADD (@a) (x) IF (1 (<<<)) ;",
	"ADDCOHORT (\"<n>\" \"n\" x) BEFORE (x) ; SUBSTITUTE (x) (y) (x) IF (1 (x)) ; REMCOHORT (x) ;", "SECTION\nADDCOHORT:a (\"<n>\" \"n\" k) AFTER (x) IF (NOT 1 (k)) ; REMOVE (y) IF (1 (k)) ; SECTION\nREMCOHORT (k) IF (1 (z)) ;",
#elif WHICH == 2
	"MOVE (x) AFTER (1 (*)) ; ADD (@e) (<<<) ; ADD (@b) (*) IF (-1 (>>>)) ;", "MOVE (x) BEFORE (-1 (*)) ; ADD (@e) (<<<) ;", "MOVE (x) AFTER (*1 (y)) ; ADD (@v) (*) IF (-1 (y)) ; ADD (@e) (<<<) ;", "MOVE (x) BEFORE (*-1 (y)) ; ADD (@v) (*) IF (1 (y)) ;",
	"MOVE (x) AFTER (@0 (*)) ; ADD (@v) (*) IF (-1 (>>>)) ;", "MOVE (x) BEFORE (@1 (*)) ; ADD (@e) (<<<) ;", "MOVE (x) AFTER (*1 (<<<)) ; ADD (@e) (<<<) ;", "MOVE (x) BEFORE (1* (y)) (1 (z)) ; ADD (@v) (*) IF (1 (y)) ;", "MOVE (x) AFTER (1*A (y) LINK 1 (z)) ;", "MOVE (x) BEFORE (@0 (*)) ; ADD (@e) (<<<) ;",
	"SWITCH (x) WITH (1 (y)) ; ADD (@e) (<<<) ; ADD (@v) (*) IF (-1 (y)) ;", "SWITCH (x) WITH (*1 (y)) ; ADD (@v) (*) IF (-1 (y)) ;", "SWITCH (x) WITH (-1* (y)) ; ADD (@v) (*) IF (1 (x)) ;", "SECTION\nREMOVE (z) IF (1 (y)) ; MOVE NOITERATE (x) AFTER (1 (y)) ; REMOVE (x) IF (-1 (y)) ;",
	"SECTION\nADD (@v) (z) IF (1 (y)) ; MOVE (x) AFTER (1 (y)) ; ", "SECTION\nADD (@v) (z) IF (1 (y)) (NOT 0 (@v)) ; SWITCH (x) WITH (1 (y)) ;", "MOVE REVERSE (x) AFTER (*1 (y)) ; ADD (@e) (<<<) ;", "SWITCH NOITERATE (x) WITH (1 (y)) ; SUBSTITUTE (x) (k) (x) ; ADD (@k) (*) IF (1 (k)) ;", "SECTION\nMOVE (x) AFTER (1 (y)) ; REMCOHORT (y) IF (1 (x)) ; ADD (@e) (<<<) ;",
	"MOVE (x) BEFORE (1 (y)) ; MOVE (y) AFTER (*-1 (>>>)) ; ADD (@e) (<<<) ; ADD (@b) (*) IF (-1 (>>>)) ;", "SECTION\nREMCOHORT IGNORED (y) ; MOVE NOITERATE (x) AFTER (1 (*)) ; ADD (@e) (<<<) ;", "REMCOHORT (y) ; MOVE (x) BEFORE (-1 (*)) ; SWITCH (z) WITH (1 (*)) ; ADD (@e) (<<<) ;",
#elif WHICH == 3
	"SPLITCOHORT (\"<p>\" \"p\" k \"<q>\" \"q\" l) (x) ; ADD (@e) (<<<) ; ADD (@k) (*) IF (-1 (k)) ;", "SPLITCOHORT (\"<p>\" \"p\" * k \"<q>\" \"q\" y * k) (x) - (k) IF (1 (y)) ; ADD (@e) (<<<) ; ADD (@k) (y) IF (-1 (*)) ;", "SPLITCOHORT (\"<p>\" \"p\" k \"pp\" k2 \"<q>\" \"q\" @l \"<r>\" \"r\" z) (x) ; ADD (@k) (z) IF (-1 (@l)) ;", "SPLITCOHORT (\"<p>\" \"p\" k) (x) ; ADD (@e) (<<<) ;",
	"MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (1 (y)) ; ADD (@e) (<<<) ; ADD (@k) (*) IF (-1 (k)) ;", "MERGECOHORTS (\"<m>\" \"m\" k *) (x) WITH (1* (y)) ; ADD (@e) (<<<) ;", "MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (-1 (y)) (1 (z)) ; ADD (@e) (<<<) ;", "MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (1 (y) LINK 1 (z)) ;", "MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (1w (y) LINK 1 (z)) ;",
	"MERGECOHORTS (\"<m>\" \"m\" * k) (x) WITH (1A (y) LINK 1 (z)) ;", "MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (-1A (y) LINK -1w (*) - (>>>)) ;", "MERGECOHORTS (\"<m>\" \"m\" x) (x) WITH (1 (x)) ; ADD (@l) (x) IF (NOT 1 (*)) ; ADD (@e) (<<<) ;",
	"COPYCOHORT (k) (x) - (k) TO AFTER (1 (y)) ; ADD (@e) (<<<) ; ADD (@k) (*) IF (-1 (k)) ;", "COPYCOHORT (k) (x) - (k) TO BEFORE (-1* (y)) ; ADD (@e) (<<<) ;", "COPYCOHORT (*) EXCEPT (x) (x) TO BEFORE (@1 (*)) ; ADD (@b) (*) IF (-1 (>>>)) ; ADD (@e) (<<<) ;", "COPYCOHORT (k @p) EXCEPT (z) AFTER (x) - (k) FROM (1 (y) - (k)) ; ADD (@e) (<<<) ;", "COPYCOHORT (k) BEFORE (x) FROM (*1 (y) - (k)) ; ADD (@e) (<<<) ;", "COPYCOHORT (k) (x) - (k) TO AFTER (1* (<<<)) ; ADD (@e) (<<<) ;", "COPYCOHORT (k) (x) - (k) TO AFTER (1* (<<<)) ; MOVE (k) BEFORE (-1 (*)) ; ADD (@e) (<<<) ; REMCOHORT (y) ;",
	"COPYCOHORT (k) (<<<) - (k) TO BEFORE (-1 (*)) ; ADD (@e) (<<<) ;",
#elif WHICH == 4
	"DELIMIT (x) ; ADD (@e) (<<<) ; ADD (@b) (*) IF (-1 (>>>)) ;", "DELIMIT (x) IF (1 (y)) ; SELECT (y) IF (-1W (x)) ; ADD (@e) (*) IF (1 (<<<)) ;", "SECTION\nADD (@v) (x) IF (1 (y)) ; REMOVE (z) ; DELIMIT (x) IF (1 (y)) ; ADD (@e) (<<<) ;", "BEFORE-SECTIONS\nSUBSTITUTE (z) (k) (z) ; SECTION\nDELIMIT (x) ; REMOVE (y) ; ADD (@v) (*) IF (1W (k)) ;",
	"SECTION\nREMCOHORT (y) ; DELIMIT (x) ; ADD (@e) (<<<) ;", "SECTION\nREMCOHORT IGNORED (y) ; DELIMIT (x) ; ADD (@e) (<<<) ;", "SECTION\nDELIMIT (x) ; MOVE NOITERATE (y) AFTER (1 (*)) ; ADD (@e) (<<<) ;", "AFTER-SECTIONS\nDELIMIT (x) IF (NOT -1 (>>>)) ; ADD (@e) (<<<) ; SECTION\nADDCOHORT (\"<n>\" \"n\" k) AFTER (y) IF (NOT 1 (k)) ;",
	"SECTION\nADDCOHORT (\"<n>\" \"n\" k) AFTER (x) IF (NOT 1 (k)) ; DELIMIT (k) ; SPLITCOHORT (\"<p>\" \"p\" l \"<q>\" \"q\" m) (y) ; ADD (@e) (<<<) ; ADD (@b) (*) IF (-1W (k)) ;", "SECTION\nDELIMIT (x) ; REMCOHORT (z) ; ADD (@w) (*) IF (-1W (y)) ; ADD (@e) (<<<) ;", "SECTION\nREMCOHORT (z) (-1W (x)) ; ADD (@w) (y) IF (-1W (x)) ; ADD (@e) (<<<) ; COPYCOHORT (k) (y) - (k) TO BEFORE (@1 (*)) ;",
#elif WHICH == 5
	// a rule that failed is tried again once the window has changed
	#define RETRY
	"REMCOHORT (y) ;", "REMCOHORT IGNORED (y) ;", "ADDCOHORT (\"<n>\" \"n\" m) BEFORE (y) IF (NOT -1 (m)) ;", "ADDCOHORT (\"<n>\" \"n\" m) AFTER (y) IF (NOT 1 (m)) ;", "SPLITCOHORT (\"<p>\" \"p\" k \"<q>\" \"q\" m) (y) ;", "MERGECOHORTS (\"<p>\" \"p\" m) (y) WITH (1 (z)) ;", "COPYCOHORT (m) (y) - (m) TO AFTER (-1* (x)) (NOT 1 (m)) ;", "COPYCOHORT (m) EXCEPT (y) (y) TO BEFORE (@1 (*)) (NOT 0 (m)) ;", "MOVE NOITERATE (y) AFTER (*-1 (x) - (y)) ;", "MOVE NOITERATE (y) - (x) BEFORE (@1 (*)) ;", "SWITCH NOITERATE (y) WITH (*-1 (x) - (y)) ;", "MOVE NOITERATE (y) - (x) - (z) AFTER (*1 (z)) ;",
#endif
};
#if WHICH == 5
static const char* SH[] = { "a/?|b/?|c/?/w|d/z" };
#elif WHICH == 4
static const char* SH[] = { "a/?|b/?|c/?", "a/?|./x|c/?|d/y", "a|b/?/z|c/x|./y|e/? z" };
#else
static const char* SH[] = { "a/?|b/?|c/?", "a/? y/z|b/x|c/? @q|d/y", "a/x|b|c/?/y|d/z ?" };
#endif
#ifdef RETRY
static const char* PRE[] = {
	"ADD (@n) (x) IF (1 (m)) ;", "ADD (@n) (x) IF (1 (<<<)) ;", "ADD (@n) (<<<) ;", "ADD (@n) (x) IF (NOT 1 (y)) (NOT 0 (y)) ;", "ADD (@n) (*) IF (-1 (>>>)) (0 (z)) ;", "ADD (@n) (z) IF (-1 (x)) ;", "ADD (@n) (x) IF (NOT 1* (y)) ;", "ADD (@n) (*) IF (@-1 (y)) ;",
};
#endif
int main() {
	std::vector<std::unique_ptr<Both>> gs;
#ifdef RETRY
	for (auto c : G) {
		for (auto q : PRE) {
			gs.emplace_back(new Both(std::string("DELIMITERS = \"<.>\" ;\nSECTION\n") + q + " " + c + " REMOVE (w) ;\n"));
		}
	}
#else
	for (auto c : G) {
		gs.emplace_back(new Both(std::string("DELIMITERS = \"<.>\" ;\n") + (strstr(c, "SECTION") ? "" : "BEFORE-SECTIONS\n") + c + "\n"));
	}
#endif
	sxapi_start();
	Both& b = *gs[sx_choice("grammar", (uint32_t)gs.size())];
	Stream s(SH[sx_choice("shape", sizeof(SH) / sizeof(SH[0]))]);
	bool text = sx_choice("text", 2);
	ref::Interp I(b.rg);
	I.structural = ref::Structure();
	s.fill(I);
	std::string in = s.in;
	if (text) {
		// a line after each cohort
		in.clear();
		size_t k = 0;
		for (auto w : I.wins) {
			for (size_t i = 1; i < w->c.size(); ++i, ++k) {
				w->c[i]->text = "-" + std::to_string(k) + "\n";
				in += s.c[k].wf + "\n";
				for (auto& r : s.c[k].rd) {
					in += "\t";
					for (size_t j = 0; j < r.size(); ++j) {
						in += (j ? " " : "") + r[j];
					}
					in += "\n";
				}
				in += w->c[i]->text;
			}
		}
	}
	else {
		I.wins.back()->c.back()->text = "\n"; // the blank line belongs to the last cohort
	}
	std::string got = b.run->text(in);
	I.run_all();
	std::string want = I.print();
	want.pop_back();
	compare(got, want, b, in, "the cohorts are those the rules say, in that order");
	sxapi_reach("end");
	sxapi_done();
}
