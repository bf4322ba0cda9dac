// C03/C02: rules with contextual tests, every stream of the given shape
#include "drive.hpp"

static const char* CTX[] = {
#if WHICH == 1
	"1 (x)", "-1 (x)", "2 (x)", "-2 (x)", "0 (x)", "3 (x)", "-3 (x)", "NOT 1 (x)", "NOT -1 (x)", "NOT 2 (x)", "NOT -3 (x)", "NEGATE 1 (x)", "NEGATE -1 (x)",
	"1C (x)", "-1C (x)", "NOT 1C (x)", "NOT -1C (x)", "NEGATE 1C (x)", "0C (s)", "NOT 0C (s)", "0 (t)",
	"@1 (x)", "@2 (x)", "@-1 (x)", "@-2 (x)", "NOT @1 (x)", "@9 (x)", "NOT @9 (x)", "@-9 (x)", "@0 (>>>)", "@-1 (<<<)", "1 (<<<)", "-1 (>>>)", "1 (*)", "-1 (*)", "NOT 1 (*)",
	"1 (x) LINK 1 (y)", "1 (x) LINK -2 (y)", "-1 (x) LINK -1 (y)", "1 (x) LINK 0 (y)", "1 (x) LINK NOT 1 (y)", "1C (x) LINK 1 (y)", "1 (x) LINK 1 (y) LINK -1 (x)",
	"1 (x) LINK -1 (s)", "NEGATE 1 (x) LINK 1 (y)", "1 (x) LINK NEGATE 1 (y)", "1 (x)) (-1 (y)", "(1 (x)) OR (-1 (y))", "(1 (x) LINK 1 (y)) OR (-1 (x))", "NEGATE (1 (x)) OR (-1 (y))", "(NOT 1 (x)) OR (-1 (y))",
#elif WHICH == 2
	"*1 (x)", "*-1 (x)", "*2 (x)", "*-2 (x)", "NOT *1 (x)", "NOT *-1 (x)", "NEGATE *1 (x)", "NEGATE *-1 (x)", "*1C (x)", "*-1C (x)", "**1C (x)", "**-1C (x)",
	"*1 (x) BARRIER (y)", "*-1 (x) BARRIER (y)", "*1 (x) CBARRIER (y)", "*-1 (x) CBARRIER (y)", "NOT *1 (x) BARRIER (y)", "NOT *-1 (x) BARRIER (y)", "NOT *1 (x) CBARRIER (y)", "NOT *-1 (x) CBARRIER (y)",
	"*1 (x) CBARRIER (z) BARRIER (y)", "*1C (x) BARRIER (y)",
	"*1 (x) LINK 1 (y)", "*-1 (x) LINK -1 (y)", "**1 (x) LINK 1 (y)", "**-1 (x) LINK -1 (y)", "*1 (x) LINK NOT 1 (y)", "**1 (x) LINK NOT 1 (y)", "**1 (x) BARRIER (y) LINK 1 (y)", "**1 (x) LINK *1 (y)", "*1 (x) LINK *1 (y)", "*1 (x) LINK *-1 (y)", "*1 (x) LINK *-1O (y)", "**1 (x) LINK -1 (s)",
	"*1 (x) LINK *1 (y) BARRIER (x)", "*1 (*) LINK 0 (x)", "**1 (*) LINK 0 (x) LINK 1 (y)", "NEGATE *1 (x) LINK 1 (y)", "NEGATE **1 (x) LINK 1 (y)",
	"0* (x)", "0** (x) LINK 1 (y)", "0* (x) BARRIER (y)", "0* (x) LINK 1 (y)", "*0 (x) CBARRIER (y)", "S0* (t)",
	"*1 (<<<)", "*-1 (>>>)", "*1 (<<<) BARRIER (x)", "*-1 (>>>) BARRIER (x)", "@1* (x)", "@-1* (x)", "@-2* (y)", "@2* (x)", "NOT @1* (x)",
#elif WHICH == 3
	"*1W (x)", "*-1W (x)", "1W (x)", "-1W (x)", "2W (x)", "-2W (x)", "*1> (x)", "*-1< (x)", "1> (x)", "-1< (x)", "NOT *1W (x)", "NOT *-1W (x)", "NOT *1 (x)", "NOT *-1 (x)", "*1 (x)", "*-1 (x)", "*1W (x) BARRIER (y)", "*-1W (x) BARRIER (y)", "*1W (x) CBARRIER (y)", "*1W (x) LINK 1 (y)", "**1W (x) LINK 1W (y)", "**1W (x) LINK 1 (y)", "**1W (x) LINK -1 (y)", "*1W (x) LINK *-1W (y)", "@1< (x)", "@1> (x)", "@-1> (x)", "@-1< (x)", "@2> (x)", "@-2< (x)", "NOT @1> (x)", "NOT @1< (x)", "0*W (x)", "1 (x)", "-1 (x)", "NOT 1 (x)", "NOT 1W (x)", "NOT -1W (x)", "1W (>>>)", "-1W (<<<)", "NEGATE *1W (x)", "1WC (x)", "*1WC (x)", "0**W (x) LINK 1 (y)", "*1> (x) LINK *-1< (y)", "*1W (<<<) LINK 1W (>>>)",
#endif
};
static const char* RT[] = { "SELECT", "REMOVE", "IFF" };
#if WHICH == 3
static const char* SH[] = { "a/?|.|b/s/t|.|c/?/?|.", "b/s/t|.|a/?/w|d/?|.|c/?", "a/?|d/?|.|c/x/y|.|b/s/t|e/?", "a/?|./?/y|b/s/t|./?|c/?", "b/s/t|./?|a/y|./?/w|./?", "a/y|./?|./s/t|./?|c/?/w" };
#elif WHICH == 2
static const char* SH[] = { "b/s/t|a/?|c/?/y|d/?", "a/x|c/?/?|d/?|b/s/t", "c/?/y|b/s/t|d/?/?", "a/?/?|b/s/t|d/?" };
#else
static const char* SH[] = { "b/s/t|a/?/y|c/?/?", "a/?|c/?/?|b/s/t", "a/?/y|b/s/t|c/?/?|e/x" };
#endif

int main() {
	std::vector<std::unique_ptr<Both>> gs;
	for (auto c : CTX) {
		gs.emplace_back(new Both(std::string("DELIMITERS = \"<.>\" ;\nSECTION\n") + RT[gs.size() % 7 == 3 ? 1 : gs.size() % 7 == 5 ? 2 : 0] + " (s) IF (" + c + ") ;\n"));
	}
	sxapi_start();
	Both& b = *gs[sx_choice("grammar", (uint32_t)gs.size())];
	Stream s(SH[sx_choice("shape", sizeof(SH) / sizeof(SH[0]))]);
	std::string got = b.run->text(s.in);
	ref::Interp I(b.rg);
	s.fill(I);
	I.run_all();
	std::string want = I.print();
	compare(got, want, b, s.in, "the readings left are those the contexts allow");
	sxapi_reach("end");
	sxapi_done();
}
