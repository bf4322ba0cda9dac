// C07: order, repetition and selection of rules
#include "drive.hpp"
struct Case {
	const char* g;
	std::function<void(CG3::GrammarApplicator&)> opt;
	std::function<void(ref::Interp&)> ropt;
};
typedef CG3::GrammarApplicator A;
typedef ref::Interp I;
static std::vector<Case> cases() {
	std::vector<Case> v;
	auto g = [&](const char* t) { v.push_back({ t, nullptr, nullptr }); };
	auto o = [&](const char* t, std::function<void(A&)> f, std::function<void(I&)> r) { v.push_back({ t, f, r }); };
#if WHICH == 1
	// feeding: what one rule leaves is what the next sees, and a section comes round again
	g("SECTION\nREMOVE (x) IF (1 (y)) ; REMOVE (y) IF (-1 (x)) ; REMOVE (x) IF (-1 (z)) ; ");
	g("SECTION\nSELECT (x) IF (1C (y)) ; SELECT (y) IF (1 (z)) ; REMOVE (z) IF (-1C (x)) ;");
	g("SECTION\nADD (@v) (x) IF (NOT 1 (y)) ; REMOVE (y) ; ");
	g("SECTION\nADD (m) (x) IF (NOT 0 (m)) (1 (m)) ; ADD (m) (y) IF (NOT 0 (m)) ; REMOVE (z) ;");
	g("SECTION\nADD ITERATE (m) (x) IF (NOT 0 (m)) (1 (m)) ; ADD (m) (y) IF (NOT 0 (m)) ;");
	g("SECTION\nSUBSTITUTE (x) (y) (x) IF (1 (y)) ; REMOVE NOITERATE (z) ;");
	g("SECTION\nSUBSTITUTE ITERATE (x) (y) (x) IF (1 (y)) ;");
	g("SECTION\nSUBSTITUTE REPEAT (x) (y) (x) IF (1 (y)) ;");
	g("SECTION\nSELECT NOITERATE (x) IF (1C (y)) ; SELECT NOITERATE (y) ; ADD (@k) (x) IF (NOT 0C (x)) ;");
	g("SELECT (x) IF (1C (y)) ; SELECT (y) ; SECTION\nADD (@k) (x) ;");
	g("BEFORE-SECTIONS\nREMOVE (x) IF (1 (y)) ; SECTION\nREMOVE (y) ; AFTER-SECTIONS\nREMOVE (x) ; ADD (@a) (*) ;");
	g("AFTER-SECTIONS\nADD (@a) (x) IF (-1 (m)) ; SECTION\nREMOVE (z) ; BEFORE-SECTIONS\nADD (m) (y) ; NULL-SECTION\nADD (@n) (*) ;");
	g("SECTION\nREMOVE (x) IF (1 (y)) ; SECTION\nREMOVE (y) ; SECTION\nREMOVE (z) IF (NOT 0 (x)) ;");
	g("SECTION\nADD (m) (x) IF (NOT 0 (m)) (1 (k)) ; SECTION\nADD (k) (y) IF (NOT 0 (k)) ; REMOVE (z) ;");
	g("NULL-SECTION\nREMOVE (x) ; SECTION\nREMOVE (y) ; ANCHOR a ;\nREMOVE (z) ;");
	g("SECTION\nADD (m) (x) IF (1 (x)) ; ADD (n) (y) IF (-1 (m)) ; SELECT (m) ; REMOVE (n) ;");
	// a rule is tried again once it could match: nothing is dropped too early
	g("SECTION\nADD (@v) (x) - (y) ; SUBSTITUTE (y) (*) (y) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (*) - (y) ; SUBSTITUTE (y) (x) (y) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (x) ^ (y) ; SUBSTITUTE (y) (*) (y) ; REMOVE (z) ;");
	g("LIST X = x ^y ; SECTION\nADD (@v) X ; SUBSTITUTE (y) (*) (y) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (m) ; SUBSTITUTE (x) (m) (x) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (m n) ; ADD (n) (y) IF (NOT 0 (n)) ; SUBSTITUTE (x) (m) (x) ; REMOVE (z) ;");
	g("LIST M = (m y) n ; SECTION\nADD (@v) M + (x) ; ADD (m) (y) IF (NOT 0 (m)) ; ADD (n) (z) ; REMOVE (z) ;");
	g("SECTION\nMAP (@p) (x) ; ADD (@q) (x) ; UNMAP UNSAFE (@p) IF (1 (y)) ; REMOVE (z) ;");
	g("SECTION\nREPLACE (k) (x) ; UNMAP UNSAFE (x) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (x) ; RESTORE (x) (y) ; REMOVE NOITERATE (x) IF (NOT 0 (m)) ; ADD (m) (y) IF (NOT 0 (m)) ; REMOVE (z) IF (-1 (m)) ;");
	g("SECTION\nADD (@v) (x) ; APPEND (\"q\" x) (y) IF (NOT 0 (m)) ; ADD (m) (y) IF (NOT 0 (m)) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (k) ; COPY (k) (y) IF (NOT 0 (m)) ; ADD (m) (y) IF (NOT 0 (m)) ; REMOVE (z) ;");
	g("SECTION\nPROTECT (x) IF (1 (y)) ; REMOVE (x) ; REMOVE (z) ; UNPROTECT (x) IF (NOT 1 (z)) ; REMOVE (y) ;");
#elif WHICH == 2
	g("SECTION\nADD (@v) (VAR:v) ; SETVARIABLE (v) (on) (y) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (x) IF (0 (VAR:v)) ; SETVARIABLE (v) (on) (y) ; REMOVE (z) ;");
	g("SECTION\nADD (@v) (x) IF (0 (VAR:v=on)) ; SETVARIABLE (v) (off) (x) ; REMOVE (z) ; SETVARIABLE (v) (on) (y) ;");
	g("SETVARIABLE (v) (on) (x) ; REMVARIABLE (v) (y) ; ADD (@v) (VAR:v) ; SETVARIABLE (v) (off) (z) ; ADD (@k) (x) IF (NOT 0 (VAR:v=on)) ;");
	g("SECTION\nREMVARIABLE (v) (x) ; REMOVE (y) IF (0 (VAR:v)) ; REMOVE (z) ; SETVARIABLE (v) (on) (y) ;");
	// jumping
	g("JUMP (a) (x) ; ADD (m) (*) ; ANCHOR a ; ADD (n) (*) ;");
	g("JUMP (a) (x) IF (1 (y)) ; REMOVE (y) ; ANCHOR a ; ADD (n) (*) ; JUMP (b) (y) ; ADD (m) (*) ; ANCHOR b ; ADD (@b) (x) ;");
	g("SECTION\nADD (m) (x) IF (NOT 0 (m)) ; JUMP (a) (x) IF (1 (y)) ; REMOVE (y) ; ADD:a (@v) (y) ; REMOVE (z) ;");
	g("SECTION one ; JUMP (two) (x) ; REMOVE (x) ; ADD (k) (y) ; SECTION two ; REMOVE (z) ;");
	g("JUMP (END) (x) ; ADD (m) (*) ;"); g("ADD (k) (x) IF (NOT 0 (k)) ; ADD (m) (y) IF (-1 (m)) ; JUMP (l) (y) IF (NOT 0 (m)) ; ADD (@e) (*) ; ANCHOR l ; ADD (@l) (x) ;");
	g("ADD (k) (x) IF (1 (k)) (NOT 0 (k)) ; ADD (k) (y) IF (NOT 0 (k)) ; ADD (n) (*) IF (NOT 0 (n)) ; JUMP (START) (x) IF (1 (k)) (NOT 0 (k)) ; ADD (@v) (k) ;");
	g("SECTION\nREMOVE (x) ; SECTION\nJUMP (t) (z) ; REMOVE (y) ; AFTER-SECTIONS\nANCHOR t ; ADD (@t) (*) ;");
	g("JUMP (t) (z) ; ADD (k) (*) ; SECTION\nANCHOR t ; ADD (@t) (*) ;");
	// flags that are only about speed
	g("SECTION\nSELECT KEEPORDER (x) IF (1 (y)) (-1 (z)) ; SELECT VARYORDER (y) IF (-1 (x)) (1 (z)) ; REMOVE (z) IF (1 (x)) (-1 (y)) ; ADD (@v) (x) IF (-1 (y)) (1 (z)) ;");
	// --max-runs, --single-run, --sections, --rules and so on
	static const char* S3 = "BEFORE-SECTIONS\nADD (b) (x) ; SECTION\nREMOVE (x) IF (1 (y)) ; SUBSTITUTE (k) (n) (k) ; SECTION\nREMOVE (y) IF (1 (z)) ; MAP (@m) (z) ; SECTION\nREMOVE (z) ; REPLACE (k) (y) ; AFTER-SECTIONS\nADD (@a) (*) ; SUBSTITUTE (z) (q) (z) ;";
	o(S3, [](A& a) { a.section_max_count = 1; }, [](I& i) { i.max_runs = 1; });
	o(S3, [](A& a) { a.section_max_count = 2; }, [](I& i) { i.max_runs = 2; });
	o(S3, [](A& a) { a.sections = { 1 }; }, [](I& i) { i.secs = { 1 }; });
	o(S3, [](A& a) { a.sections = { 2, 3 }; }, [](I& i) { i.secs = { 2, 3 }; });
	o(S3, [](A& a) { a.sections = { 1, 3 }; }, [](I& i) { i.secs = { 1, 3 }; });
	o(S3, [](A& a) { a.no_before_sections = true; }, [](I& i) { i.no_before = true; });
	o(S3, [](A& a) { a.no_sections = true; }, [](I& i) { i.no_sections = true; });
	o(S3, [](A& a) { a.no_after_sections = true; }, [](I& i) { i.no_after = true; });
	o(S3, [](A& a) { a.apply_mappings = false; }, [](I& i) { i.no_map = true; });
	o(S3, [](A& a) { a.apply_corrections = false; }, [](I& i) { i.no_corr = true; });
	o(S3, [](A& a) { a.unsafe = true; }, [](I& i) { i.unsafe = true; });
	o("SECTION\nADD (@a) (x) ;\nREMOVE (x) ;\nREMOVE (y) ;\nREMOVE (z) ;", [](A& a) { a.valid_rules.push_back(3); a.valid_rules.push_back(5); }, [](I& i) { i.only = [](const ref::Rule* r) { return r->no == 0 || r->no == 2; }; });
	o("SECTION\nADD (@a) (x) ;\nREMOVE (x) ;\nREMOVE (y) ;\nADD (n) (m) ;\nADD (m) (*) ;", [](A& a) { a.valid_rules.push_back(6); a.valid_rules.push_back(7); a.valid_rules.push_back(5); }, [](I& i) { i.only = [](const ref::Rule* r) { return r->no >= 2; }; });
#elif WHICH == 3
	// a rule that failed is tried again once something it depends on has changed, whatever changed it
	static const char* CH[] = {
		"ADD ITERATE (m) (y) IF (NOT 0 (m)) ;", "MAP ITERATE (@m) (y) ;", "REPLACE ITERATE (m) (y) ;", "SUBSTITUTE ITERATE (y) (m) (y) ;", "APPEND ITERATE (\"q\" m) (y) IF (NOT 0 (m)) ;",
		"COPY ITERATE (m) (y) IF (NOT 0 (m)) ;", "UNMAP ITERATE UNSAFE (@y) ;", "REMOVE (y) ;", "SELECT (y) ;", "IFF (y) IF (-1 (x)) ;", "REMOVE DELAYED (y) ;", "REMOVE IGNORED (y) ;", "RESTORE ITERATE (y) (*) ;",
		"SETVARIABLE (m) (1) (y) ;", "REMVARIABLE (m) (y) ;", "PROTECT (y) ;", "UNPROTECT (y) ;", "SUBSTITUTE ITERATE (\"<b>\") (\"<c>\") (y) ;", "SUBSTITUTE ITERATE (\"b\") (\"c\") (y) ;", "REMOVE UNSAFE (y) ;",
	};
	static const char* PRE[] = {
		"ADD (n) (x) IF (1 (m) OR (@m) OR (\"c\") OR (\"<c>\")) (NOT 0 (n)) ;", "ADD (n) (x) IF (NOT 1 (y)) (NOT 0 (n)) ;", "ADD (n) (x) IF (1C (y)) (NOT 0 (n)) ;", "ADD (n) (x) IF (0 (VAR:m)) (NOT 0 (n)) ;",
		"ADD (n) (x) IF (NOT 1 (@y)) (NOT 0 (n)) ;", "\"<c>\" ADD (n) (x) IF (NOT 0 (n)) ;", "REMOVE NOITERATE (y) IF (-1 (x)) ;", "ADD (n) (y) IF (-1 (x)) (NOT 0 (n)) ;",
	};
	static std::vector<std::string> keep;
	keep.reserve(400);
	for (auto c : CH) {
		for (auto q : PRE) {
			if (std::string(c).find("RESTORE") == 0 && std::string(q).find("REMOVE") == 0) {
				continue; // takes and gives back for ever
			}
			keep.push_back(std::string("BEFORE-SECTIONS\nREMOVE (w) ; SETVARIABLE (m) (1) (v) ; PROTECT (y) IF (0 (u)) ; SECTION\n") + q + " " + c + " SECTION\nADD (k) (z) IF (NOT 0 (k)) ;");
			g(keep.back().c_str());
		}
	}
#endif
	return v;
}
#if WHICH == 3
static const char* SH[] = { "b/?/x|b/? y/z @y/w y" };
#else
static const char* SH[] = { "a/?/z|b/?/y x|c/?", "a/? ?/w|b/?/z", "a/?/y|b/x/z|c/?/?" };
#endif
int main() {
	auto cs = cases();
	std::vector<std::unique_ptr<CG>> cg;
	std::vector<std::unique_ptr<Both>> gs;
	for (auto& c : cs) {
		Both* b = new Both(std::string("DELIMITERS = \"<.>\" ;\n") + c.g + "\n", c.opt);
		gs.emplace_back(b);
	}
	sxapi_start();
	uint32_t k = sx_choice("grammar", (uint32_t)cs.size());
	Both& b = *gs[k];
	Stream s(SH[sx_choice("shape", sizeof(SH) / sizeof(SH[0]))]);
	std::string got = b.run->text(s.in);
	ref::Interp I(b.rg);
	if (cs[k].ropt) {
		cs[k].ropt(I);
	}
	s.fill(I);
	I.run_all();
	std::string want = I.print();
	compare(got, want, b, s.in, "rules act in the documented order, as often as documented");
	sxapi_reach("end");
	sxapi_done();
}
