// C10: dependency edges: the tests that follow them and the rules that change them
#define SLOT_LO 'x'
#include "drive.hpp"
#include "ref_struct.hpp"
#ifndef WHICH
	#define WHICH 1
#endif
static const char* G[] = {
#if WHICH == 1
	"p (x)", "p* (x)", "p** (x) LINK 0 (y)", "pp (x)", "c (x)", "c* (x)", "cc (x)", "s (x)", "pS (x)", "p*S (x)", "cS (x)", "c*S (x)", "sS (x)", "ppS (x)", "ccS (x)", "NOT p (x)", "NEGATE p (x)", "NEGATE p* (x)", "NEGATE c (x)", "NEGATE c* (x)", "NEGATE s (x)",
	"ALL c (x)", "ALL s (x)", "ALL cc (x)", "ALL c* (x)", "NONE c (x)", "NONE s (x)", "NONE c* (x)", "NONE cc (x)", "NONE p (x)", "NONE p* (x)", "NONE pp (x)", "ALL p (x)", "ALL cS (x)", "NONE cS (x)", "ALL c*S (x)",
	"lc (x)", "rc (x)", "llc (x)", "rrc (x)", "lllc (x)", "rrrc (x)", "ls (x)", "rs (x)", "lp (x)", "rp (x)", "lcc (x)", "rcc (x)", "lpp (x)", "rpp (x)", "rrlc (x)", "llrs (x)", "lppS (x)", "rccS (x)", "lcS (x)", "rsS (x)",
	"p (x) LINK p (y)", "p (x) LINK c (y)", "c (x) LINK c (y)", "c (x) LINK p (y)", "s (x) LINK s (y)", "c (x) LINK 1 (y)", "cc (x) LINK -1 (y)", "pp (x) LINK s (y)", "llc (x) LINK 0 (y)", "rrcc (x) LINK 1 (y)", "1 (x) LINK p (y)", "-1 (x) LINK c* (y)", "*1 (*) LINK p (x)", "**1 (y) LINK c* (x)", "p (y) LINK NONE c (x)", "NEGATE p (x) LINK p (y)", "c (x) LINK NOT 0 (y)",
	"p* (x) BARRIER (y)", "c* (x) BARRIER (y)", "p* (x) CBARRIER (y)", "c* (x) CBARRIER (y)", "p*S (x) BARRIER (y)", "c*S (x) BARRIER (y)", "p*SN (x) BARRIER (y)", "c*SN (x) BARRIER (y)", "pC (x)", "cC (x)", "c*C (x)", "p (>>>)", "p* (>>>)", "pp (>>>)", "c (<<<)",
	"(p (x)) OR (c (x))", "@0 (*) LINK c (x)", "@0 (*) LINK c* (x)", "**1 (*) LINK **-1 (y) LINK NONE c* (x)", "p (*)", "c (*)", "s (*)",
#elif WHICH == 2
	"SETPARENT (x) TO (1* (y)) ;", "SETPARENT (x) TO (-1* (y)) ;", "SETCHILD (x) TO (1* (y)) ;", "SETCHILD (x) TO (-1* (y)) ;", "SETPARENT NEAREST (x) TO (1* (y)) ;", "SETPARENT (x) TO (1* (y) BARRIER (z)) ;", "SETPARENT (x) TO (-1* (*) - (x)) ;", "SETPARENT SAFE (x) TO (1* (y)) ;", "SETPARENT NOPARENT (x) TO (-1* (y)) ;", "SETCHILD NOPARENT (x) TO (1* (y)) ;",
	"SETPARENT (x) TO (@0 (*)) ;", "SETPARENT (x) TO (*-1 (>>>)) ;", "SETCHILD (x) TO (@0 (*)) ;", "SETPARENT (x) TO (p* (y)) ;", "SETPARENT (x) TO (p (*) LINK p (*)) ;", "SETPARENT (x) TO (c (y)) ;", "SETPARENT (x) TO (s (y)) ;", "SETCHILD (x) TO (p (y)) ;", "SETCHILD (x) TO (s (*)) ;", "SETPARENT (x) TO (1 (*)) ;", "SETPARENT (x) TO (-1 (*)) ;", "SETCHILD (x) TO (1 (*)) ;", "SETCHILD (x) TO (-1 (*)) ;", "SETPARENT (x) TO (1* (*)) ;", "SETCHILD NEAREST (x) TO (-1* (*)) ;",
	"SETPARENT ALLOWLOOP (x) TO (1* (y)) ;", "SETPARENT (x) - (y) TO (1*A (y) LINK 1 (*)) ;", "SETPARENT (x) TO (2* (y)) ;", "SETCHILD (x) TO (-2* (*)) ;", "SETPARENT (x) TO (1 (y)) (p (z)) ;", "SETPARENT (x) IF (NOT p (*)) TO (-1 (*)) ;", "SETCHILD (x) IF (c (*)) TO (c (*) LINK c (*)) ;", "SETPARENT (*) TO (1* (x)) ;", "SETPARENT (*) TO (-1* (x)) ;", "SETPARENT (y) TO (1* (x)) ; SETPARENT (x) TO (-1* (y)) ; SETCHILD (z) TO (1* (*)) ;", "SECTION\nREMOVE (z) IF (p (y)) ; SETPARENT (x) TO (1 (y)) ;", "SECTION\nSETPARENT (x) TO (1* (y)) ; REMOVE (z) IF (c (x)) ; SELECT (z) IF (1 (x)) ;",
#elif WHICH == 3
	"REMPARENT (x) ;", "REMPARENT (*) IF (p (x)) ;", "REMPARENT (x) IF (p (y)) ; SETPARENT NOPARENT (x) TO (-1 (*)) ;", "SWITCHPARENT (x) ;", "SWITCHPARENT (x) IF (p (y)) ;", "SWITCHPARENT WITHCHILD (*) (x) ;", "SWITCHPARENT WITHCHILD (y) (x) ;", "REMCOHORT (x) ;", "REMCOHORT (x) IF (p (*)) ;", "REMCOHORT (x) IF (c (y)) ; ADD (@k) (y) IF (p (*)) ;", "REMCOHORT (x) ; REMCOHORT (y) IF (NOT p (*)) ;", "ADDCOHORT (\"<n>\" \"n\" k) BEFORE (x) ;", "ADDCOHORT (\"<n>\" \"n\" k) AFTER (x) ;", "ADDCOHORT (\"<n>\" \"n\" k) AFTER (x) ; SETPARENT (k) TO (-1 (*)) ;",
	"OPTIONS += addcohort-attach ; ADDCOHORT (\"<n>\" \"n\" k) AFTER (x) ;", "OPTIONS += addcohort-attach ; ADDCOHORT (\"<n>\" \"n\" k) BEFORE (x) ; REMCOHORT (y) ;", "ADDCOHORT (\"<n>\" \"n\" k) BEFORE WITHCHILD (*) (x) ;", "ADDCOHORT (\"<n>\" \"n\" k) AFTER WITHCHILD (y) (x) ;",
	"SPLITCOHORT (\"<p>\" \"p\" k \"<q>\" \"q\" l) (x) ;", "SPLITCOHORT (\"<p>\" \"p\" k 1->2 \"<q>\" \"q\" 2->p \"<r>\" \"r\" c->1) (x) ;", "SPLITCOHORT (\"<p>\" \"p\" c->p \"<q>\" \"q\" 2->1) (x) ;", "SPLITCOHORT (\"<p>\" \"p\" k \"<q>\" \"q\" l) (x) ; REMCOHORT (k) ;", "SPLITCOHORT (\"<p>\" \"p\" k) (x) ;",
	"MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (1 (*)) ;", "MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (-1 (*)) ;", "MERGECOHORTS (\"<m>\" \"m\" k) (x) WITH (c (y)) ;", "MERGECOHORTS (\"<m>\" \"m\" k y) (y) WITH (1 (*)) ; ADD (@l) (*) IF (-1 (k)) ;", "MERGECOHORTS DETACH (\"<m>\" \"m\" k) (x) WITH (1 (*)) ;",
	"COPYCOHORT (k) (x) - (k) TO AFTER (1 (y)) ;", "COPYCOHORT (k) (x) - (k) TO BEFORE (-1 (*)) ;", "COPYCOHORT (k) BEFORE (x) - (k) FROM (1 (y)) ;", "COPYCOHORT (k) (x) - (k) TO BEFORE WITHCHILD (*) (p (*)) ;", "COPYCOHORT (k) (x) - (k) TO AFTER WITHCHILD (*) (p (*) - (>>>)) ;", "MOVE NOITERATE WITHCHILD (*) (x) AFTER (1* (y)) ;", "MOVE NOITERATE WITHCHILD (z) (x) BEFORE (-1* (y)) ;", "MOVE NOITERATE (x) AFTER WITHCHILD (*) (1 (*)) ;", "MOVE NOITERATE (x) BEFORE WITHCHILD (*) (p (*) - (>>>)) ;", "MOVE NOITERATE WITHCHILD (*) (x) AFTER WITHCHILD (*) (-1 (*) - (>>>)) ;", "MOVE NOITERATE WITHCHILD (*) (x) BEFORE (p (*) - (>>>)) ;", "MOVE NOITERATE (x) AFTER (1 (*)) ;", "SWITCH NOITERATE (x) WITH (1 (*)) ;",
	"SECTION\nREMOVE (z) IF (p (y)) ; REMPARENT (x) IF (p (*)) ; ADD (@v) (*) IF (c (x)) ;", "SECTION\nADD (@v) (z) IF (NOT p (*)) ; REMPARENT (z) ; SETPARENT (y) TO (1* (*)) ;", "SECTION\nADD (@v) (z) IF (c (y)) (NOT 0 (@v)) ; SWITCHPARENT NOITERATE (x) IF (p (y)) ; ",
#elif WHICH == 4
	"ADD (@b) (*) IF (-1 (>>>)) ; ADD (@e) (<<<) ; ADD (@k) (*) IF (c (*)) ; ADD (@m) (*) IF (p (*) LINK p (*) - (>>>)) ; ADD (@s) (*) IF (s (*)) ; ADD (@t) (*) IF (p (>>>)) ; ADD (@w) (*) IF (-1W (<<<)) ;",
#endif
};
#if WHICH == 1
static const char* SH[] = { "a/s #1->2|b/? #2->4|c/? y #3->2|d/s/? #4->4|e/? #5->4", "a/? #1->0|b/? y #2->1|s/s #3->2|d/? #4->3|e/? #5->4", "a/s/y #1->0|b/? #2->3|c/s #3->1|d/? y #4->1|e/? #5->1", "a/? y #1->3|b/s #2->3|c/? #3->5|d/s #4->2|e/? #5->9" };
#elif WHICH == 2
static const char* SH[] = { "a/? #1->1|b/? #2->1|c/? #3->1|d/x #4->0", "a/? #1->2|b/? #2->3|c/? #3->4|d/y #4->4", "a/? #1->4|b/x #2->1|c/? #3->2|d/z #4->0|e/? #5->3", "a/?|b/? #2->2|c/?|d/y z" };
#elif WHICH == 4
static const char* SH[] = { "a/x #%->$|b/x #%->$|c/x #%->$|d", "a/x #%->$|./x #2->$|c/y|d/x #%->$|e/y #3->$", "a/x #1->$/y #1->$|b/y|c/x #%->2|./y|e/x #1->$/z", "a/x|b/y #%->0/z #2->$|c #%->1|d/x #14->$|e/y #4->$" };
static const int BY[] = { 0, 1, 2, 10 };
#else
static const char* SH[] = { "a/? #1->2|b/? #2->4|c/? #3->2|d/y #4->0", "a/? #1->3|b/x #2->1|c/? #3->0|d/? #4->1|e/z #5->4", "a/? #1->1|b/? #2->1|c/y #3->1|d/? #4->3" };
#endif
int main() {
	std::vector<std::unique_ptr<Both>> gs;
	for (auto c : G) {
#if WHICH == 1
		std::string r = std::string("ADD (@v) (s) IF (") + c + ") ;";
#else
		std::string r = std::string(c) + " ADD (@a) (*) IF (p (x)) ; ADD (@b) (*) IF (c* (y)) ; ADD (@c) (*) IF (s (z)) ; ADD (@d) (*) IF (pp (y)) ;";
#endif
		std::string opt;
		if (r.compare(0, 7, "OPTIONS") == 0) {
			opt = r.substr(0, r.find(';') + 1);
			r = r.substr(opt.size());
		}
		gs.emplace_back(new Both(opt + "DELIMITERS = \"<.>\" ;\n" + (r.find("SECTION") != r.npos ? "" : "BEFORE-SECTIONS\n") + r + "\nNULL-SECTION\nADD (@none) (*) IF (p (*)) ;\n"));
	}
	sxapi_start();
	Both& b = *gs[sx_choice("grammar", (uint32_t)gs.size())];
	Stream s(SH[sx_choice("shape", sizeof(SH) / sizeof(SH[0]))]);
	ref::Interp I(b.rg);
	I.structural = ref::Structure();
#if WHICH == 4
	int by = BY[sx_choice("dep-delimit", 4)];
	b.run->ga.dep_delimit = by;
#else
	int by = 0;
#endif
	I.addcohort_attach = b.text.find("addcohort-attach") != b.text.npos;
	s.fill(I, true, by);
	I.wins.back()->c.back()->text = "\n"; // the blank line belongs to the last cohort
	I.run_all();
	sxapi_assume(!I.undefined);
	std::string got = b.run->text(s.in);
	std::string want = I.print();
	want.pop_back();
	compare(got, want, b, s.in, "the edges printed and the edges tested are those the rules and the input made");
	sxapi_reach("end");
	sxapi_done();
}
