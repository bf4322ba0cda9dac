// C11: named relations: the tests that follow them and the rules that make and remove them
#define SLOT_LO 'x'
#include "drive.hpp"
#include "ref_struct.hpp"
#ifndef WHICH
	#define WHICH 1
#endif
static const char* G[] = {
#if WHICH == 1
	"r:n (x)", "r:m (x)", "r:* (x)", "r:k (x)", "NEGATE r:n (x)", "NEGATE r:* (x)", "ALL r:n (x)", "ALL r:* (x)", "NONE r:n (x)", "NONE r:* (x)", "NONE r:k (x)", "ALL r:k (x)", "Sr:n (x)", "Sr:* (x)", "Sr:k (x)", "ALL Sr:n (x)", "NONE Sr:n (x)",
	"lr:n (x)", "rr:n (x)", "llr:* (x)", "rrr:* (x)", "lllr:* (x)", "rrrr:* (x)", "rrlr:* (x)", "llrr:* (x)", "lSr:n (x)", "rSr:n (x)", "r:n (x) LINK r:m (y)", "r:* (x) LINK r:* (y)", "r:n (x) LINK 1 (y)", "1 (x) LINK r:* (y)", "-1 (x) LINK r:n (*)", "r:n (x) LINK NONE r:m (y)", "r:n (*) LINK NEGATE r:m (y)", "*1 (y) LINK r:* (x)", "(r:n (x)) OR (r:m (y))", "r:n (*)", "r:* (x) LINK p (y)", "c (*) LINK r:* (x)", "r:nC (x)", "Cr:n (x)", "r:n (>>>)", "r:n (<<<)", "@0 (*) LINK r:* (x)", "r:* (x) LINK NOT 0 (y)", "NEGATE Sr:n (x)",
#elif WHICH == 2
	"ADDRELATION (n) (x) TO (1* (y)) ;", "ADDRELATION (n) (x) TO (-1* (*) - (>>>)) ;", "ADDRELATION (n) (x) FROM (1* (y)) ;", "ADDRELATION (k) (x) TO (r:* (*)) ;", "ADDRELATION (n) (x) TO (1*A (y) LINK 1 (z)) ;", "ADDRELATIONS (n) (m) (x) TO (1* (y)) ;", "ADDRELATIONS (n) (n) (x) TO (-1* (y)) ;", "ADDRELATIONS (k) (m) (x) FROM (1* (*)) ;", "ADDRELATION (n k) (x) TO (1 (*)) ;",
	"SETRELATION (n) (x) TO (1* (y)) ;", "SETRELATION (n) (x) TO (-1* (*) - (>>>)) ;", "SETRELATION (m) (x) FROM (1* (y)) ;", "SETRELATIONS (n) (m) (x) TO (1* (*)) ;", "SETRELATIONS (n) (k) (x) TO (-1* (y)) ;", "SETRELATION (n) (*) TO (1* (*)) ;", "REMRELATION (n) (x) TO (r:n (*)) ;", "REMRELATION (n) (x) TO (1* (*)) ;", "REMRELATION (n) (x) FROM (1* (*)) ;", "REMRELATIONS (n) (m) (x) TO (1* (y)) ;", "REMRELATIONS (m) (n) (x) TO (-1* (*) - (>>>)) ;", "REMRELATION (m) (x) TO (r:m (y)) ;",
	"ADDRELATION (n) (x) IF (NOT 0 (y)) TO (1* (y)) (0 (x)) ;", "ADDRELATION (n) (x) TO (1* (y) BARRIER (z)) ; REMRELATION (n) (y) FROM (-1* (x)) ;", "ADDRELATION (k) (x) TO (1* (y)) ; SETRELATION (k) (x) IF (r:k (z)) TO (-1 (*) - (>>>)) ;", "ADDRELATIONS (k) (k) (x) TO (1* (y)) ; SUBSTITUTE (y) (w) (y) ; COPY (q) (x) ;", "ADDRELATION (k) (x) TO (@0 (*) LINK 1 (*)) ; ", "SECTION\nADD (@l) (*) IF (r:k (y)) (NOT 0 (@l)) ; ADDRELATION (k) (x) TO (1 (*)) ;", "SECTION\nADD (@l) (y) IF (NEGATE r:n (*)) (NOT 0 (@l)) ; REMRELATION (n) (y) TO (r:n (x)) ;",
	"ADDRELATION (k) (x) TO (1W* (y)) ;", "ADDRELATIONS (k) (n) (x) TO (-1W* (y)) ;", "REMRELATION (n) (y) TO (r:n (*)) ; SUBSTITUTE (y) (w) (y) ; SETRELATION (m) (w) TO (@1 (*)) ;", "SETRELATION (n) (x) TO (@-1 (*) - (<<<)) ; ADDRELATION (n) (x) TO (@1 (*)) ;",
	"ADDRELATION (n) (x) TO (1 (*)) ; ADDRELATION (n) (x) TO (2 (*)) ; SETRELATION (n) (x) TO (1 (y)) ;", "ADDRELATION (n) (x) TO (1 (*)) ; ADDRELATION (n) (x) TO (-1 (*) - (>>>)) ; SETRELATIONS (k) (n) (x) TO (1* (y)) ; REMRELATION (k) (y) TO (r:k (*)) ;",
#endif
};
#if WHICH == 1
static const char* SH[] = { "a/? ID:11|b/x ID:12 R:n:11 R:n:13|c/? ID:13 R:m:11 R:n:14|d/?/y q ID:14 R:n:12", "a/? ID:1 R:n:2 R:m:3|b/?/z q ID:2 R:n:2 R:m:1|c/? y ID:3 R:m:2 R:n:1", "a/? ID:5 R:n:$|b/? ID:2 R:m:5 R:n:%|c/y ID:3|d/x R:n:3 ID:4" };
#else
static const char* SH[] = { "a/?|b/? ID:3|c/x/y|d/?", "a/? ID:1 R:n:2 R:m:3|b/?/z q ID:2 R:n:2|c/? ID:3 R:m:2 R:n:1", "a/? ID:4|b/? ID:2 R:m:4|./z|c/? ID:3 R:n:%|d/y", "a/?|./y|b/x ID:2|./y|c/?" };
#endif
// the order in which one cohort's relations are printed means nothing
static std::string canon(const std::string& s) {
	std::string o;
	for (auto& l : Stream::cut(s, '\n')) {
		auto t = Stream::cut(l, ' ');
		auto f = std::stable_partition(t.begin(), t.end(), [](const std::string& x) { return x.compare(0, 2, "R:") != 0; });
		std::sort(f, t.end());
		for (size_t i = 0; i < t.size(); ++i) {
			o += (i ? " " : "") + t[i];
		}
		o += "\n";
	}
	return o;
}
int main() {
	std::vector<std::unique_ptr<Both>> gs;
	for (auto c : G) {
#if WHICH == 1
		std::string r = std::string("ADD (@v) (*) IF (") + c + ") ;";
#else
		std::string r = std::string(c) + " ADD (@a) (*) IF (r:n (*)) ; ADD (@b) (*) IF (r:* (y)) ;";
#endif
		gs.emplace_back(new Both("DELIMITERS = \"<.>\" ;\n" + std::string(r.find("SECTION") != r.npos ? "" : "BEFORE-SECTIONS\n") + r + "\nNULL-SECTION\nADDRELATION (zz) (zz) TO (1 (zz)) ;\n"));
	}
	sxapi_start();
	Both& b = *gs[sx_choice("grammar", (uint32_t)gs.size())];
	Stream s(SH[sx_choice("shape", sizeof(SH) / sizeof(SH[0]))]);
	ref::Interp I(b.rg);
	I.structural = ref::Structure();
	s.fill(I, true);
	I.wins.back()->c.back()->text = "\n"; // the blank line belongs to the last cohort
	I.run_all();
	sxapi_assume(!I.undefined);
	std::string got = b.run->text(s.in);
	std::string want = I.print();
	want.pop_back();
	compare(canon(got), canon(want), b, s.in, "relations printed and relations tested are those the rules and the input made");
	sxapi_reach("end");
	sxapi_done();
}
