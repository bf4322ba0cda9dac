// C06: numeric tags and arithmetic
#if WHICH == 1
// the comparison itself, for every pair of double values and every pair of operators
#include "cg.hpp"
#include "Cohort.hpp"
#include "Reading.hpp"
#include "Tag.hpp"
#include "Window.hpp"
#include <cmath>
namespace CG3 { uint32_t test_tag_numerical(const Reading& reading, const Tag& tag, const Tag& itag); }
using namespace CG3;
static double number(const char* n) {
	uint64_t b = sx_var<uint64_t>(n);
	double d;
	memcpy(&d, &b, 8);
	sxapi_assume((uint64_t)(bool)((int)(d > -281474976710656.0) & (int)(d < 281474976710655.0)) != 0);
	return d;
}
static const C_OPS OPS[] = { OP_EQUALS, OP_NOTEQUALS, OP_LESSTHAN, OP_GREATERTHAN, OP_LESSEQUALS, OP_GREATEREQUALS };
int main() {
	CG cg("DELIMITERS = \"<.>\" ;\nADD (@x) (*) ;\n");
	Run<> run(cg);
	Cohort* c = alloc_cohort(nullptr);
	Reading* r = alloc_reading(c);
	c->appendReading(r);
	Tag a, b;
	a.type = b.type = T_NUMERICAL;
	b.hash = 4711;
	sxapi_start();
	int oa = (int)sx_choice("rule operator", 6), ob = (int)sx_choice("input operator", 6);
	a.comparison_op = OPS[oa];
	b.comparison_op = OPS[ob];
	a.comparison_hash = sx_var<uint32_t>("rule name");
	b.comparison_hash = sx_var<uint32_t>("input name");
	double x = number("rule value"), y = number("input value");
	a.comparison_val = x;
	b.comparison_val = y;
	bool got = test_tag_numerical(*r, a, b) != 0;
	bool same = a.comparison_hash == b.comparison_hash;
	// is there a number that satisfies both?  (manual: for != against != it is the other way around)
	int want = 1;
	auto up = [](int o) { return o == 3 || o == 5; };
	if (oa == 1 && ob == 1) { want = x == y; }
	else if (oa == 0 && ob == 0) { want = x == y; }
	else if ((oa == 0 && ob == 1) || (oa == 1 && ob == 0)) { want = x != y; }
	else if (oa == 0) { want = ob == 2 ? x < y : ob == 3 ? x > y : ob == 4 ? x <= y : x >= y; }
	else if (ob == 0) { want = oa == 2 ? y < x : oa == 3 ? y > x : oa == 4 ? y <= x : y >= x; }
	else if (oa != 1 && ob != 1 && up(oa) != up(ob)) {
		double lo = up(oa) ? x : y, hi = up(oa) ? y : x;
		want = (oa >= 4 && ob >= 4) ? lo <= hi : lo < hi;
	}
	SX_ASSERT(got == (same && want), "a numeric test holds exactly when one number can satisfy both sides");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#endif
#if WHICH == 2 || WHICH == 3
#if WHICH == 2
	#define TAB_SUB
#endif
#include "tab.hpp"
#define P "SECTION "
static const char* G[] = {
#if WHICH == 2
	// every operator, two names, several tags in one reading
	"MAP (@h) (<W=2>) ;", "MAP (@h) (<W:2>) ;", "MAP (@h) (<W!=2>) ;", "MAP (@h) (<W<>2>) ;", "MAP (@h) (<W<2>) ;", "MAP (@h) (<W>2>) ;", "MAP (@h) (<W<=2>) ;", "MAP (@h) (<W>=2>) ;", "MAP (@h) (<W<:2>) ;", "MAP (@h) (<W>:2>) ;",
	"MAP (@h) (<W>-2>) ;", "MAP (@h) (<W<=2.5>) ;", "MAP (@h) (<W>1> <W<3>) ;", "MAP (@h) (<W>1>) - (<F>2>) ;", "LIST S = <W>3> (<F<2> x) ; MAP (@h) S ;", "MAP (@h) (<Wx=2>) ;", "LIST S = ^<W>2> * ; MAP (@h) S ;",
	"MAP (@h) (<W=MAX>) ;", "MAP (@h) (<W=MIN>) ;", "MAP (@h) (<W<MAX>) ;", "MAP (@h) (<W>MIN>) ;", "MAP (@h) (<W!=MAX>) ;", "MAP (@h) (<F=MAX>) ;", "SELECT (<W=MAX>) ;", "REMOVE (<W=MIN>) ;", "MAP (@h) (<W>=MAX-1>) ;", "MAP (@h) (<W<=MIN+1>) ;", "MAP (@h) (<W>MIN*2>) ;", "MAP (@h) (<W=MAX^2>) ;",
	"MAP (@h) (<W<999999999999999>) ;", "MAP (@h) (<W>-999999999999999>) ;",
	"MAP (@h) (x) IF (1 (<W>2>)) ;", "MAP (@h) (x) IF (1* (<W=MAX>)) ;", "MAP (@h) (x) IF (1C (<W>2>)) ;", "MAP (@h) (x) IF (NOT 1 (<W>2>)) ;", "MAP (@h) (*) IF (0 (<W=MAX>)) (0 (<F=MIN>)) ;", "MAP (@h) (*) IF (-1* (<W>MIN>) LINK 1 (<W=MAX>)) ;", "MAP (@h) (x) IF (1* (<F<2>) BARRIER (<W>2>)) ;",
	"MAP (@h) (x) IF (1f (x <W>2>)) ;", "MAP (@h) (x) IF (NOT 1f (x <W>2>)) ;", "LIST N = (x <W>2>) (y <W>1>) ; MAP (@h) (x) IF (1*f N) ;",
#else
	// MIN and MAX follow every change of the readings
	"REMOVE (<W=MAX>) ; MAP (@h) (<W=MAX>) ;", "SELECT (<W=MIN>) ; MAP (@h) (<W=MAX>) ;", "MAP (@h) (<W=MAX>) ; REMOVE (<W=MAX>) ; MAP (@k) (<W=MAX>) ;", "REMOVE (x) IF (0 (<W=MAX>)) ; REMOVE (<W=MAX>) ;",
	"MAP (@h) (<W=MAX>) ; ADD (<W:9>) (y) ; MAP (@k) (<W=MAX>) ;", "ADD (@k) (<W=MAX>) ; ADD (<W:0>) (x) ; MAP (@h) (<W=MIN>) ;", "MAP (@h) (<W=MIN>) ; SUBSTITUTE (<W:3>) (*) (*) ; MAP (@k) (<W=MIN>) ;", "MAP (@h) (<W=MAX>) ; SUBSTITUTE (<W:4>) (<W:0>) (*) ; MAP (@k) (<W=MAX>) ;",
	"MAP (@h) (<W=MAX>) ; SUBSTITUTE (x) (<W:9>) (*) ; MAP (@k) (<W=MAX>) ;", "MAP (@h) (<W=MAX>) ; REPLACE (<W:1>) (x) ; MAP (@k) (<W=MAX>) ;", "MAP (@h) (<W=MAX>) ; REPLACE (y) (x) ; MAP (@k) (<W=MAX>) ;", "MAP (@h) (<W=MAX>) ; APPEND (\"n\" <W:9>) (x) ; MAP (@k) (<W=MAX>) ;",
	"MAP (@h) (<W=MAX>) ; COPY (<W:9>) (x) ; MAP (@k) (<W=MAX>) ;", "REMOVE (<W=MAX>) ; RESTORE (*) (*) ; MAP (@h) (<W=MAX>) ;", "REMOVE (<W=MAX>) ; RESTORE (x) (*) ; MAP (@h) (<W=MAX>) ;", "SELECT (<W=MAX>) IF (1 (<W=MIN>)) ; REMOVE (<W=MIN>) IF (-1 (<W=MAX>)) ;", "REMOVE (<W=MAX>) IF (1 (<W=MAX>)) ; MAP (@h) (*) IF (-1 (<W=MAX>)) ;",
	"MAP (@h) (x) IF (1 (<W=MAX>)) ; REMOVE (<W=MAX>) IF (0 (z)) ; MAP (@k) (y) IF (1 (<W=MAX>)) ;", "IFF (<W=MAX>) IF (0 (x)) ; MAP (@h) (<W=MIN>) ;", "MAP (@h) (<W=MAX>) ; UNMAP (*) ; MAP (@k) (<W=MAX>) ;",
	"MAP (@h) (<W=MAX-1>) ; REMOVE (<W=MAX>) ; MAP (@k) (<W=MAX-1>) ;", "REMOVE (<W=MAX>) ; MAP (@h) (x) IF (0D (<W=MAX>)) ;",
#endif
};
#if WHICH == 2
#if defined(SX_TIER) && SX_TIER
static const char* SH[] = { "a/<W:%> x/<W=$>/<W<%>|b/x <W:%>", "a/x <W>$>/<W<=%> <W>=%>|b/<F:%> x/y <W:-%>", "a/x <W!=%>/<W=%.5>/z|b/<W:%> <W:$> <F:2>", "a/x <W:%%> <F:-%>/y <W:-$.%>|b/<W<>%> x" };
#else
static const char* SH[] = { "a/<W:%> x/<W=$>/<W<2>|b/x <W:%>", "a/x <W>$>/<W<=%> <W>=2>|b/<F:%> x/y <W:-1>", "a/x <W!=%>/<W=%.5>/z|b/<W:1> <W:$> <F:2>", "a/x <W:1%> <F:-1>/y <W:-$.5>|b/<W<>2> x" };
#endif
#else
static const char* SH[] = { "a/x <W:%> y/y <W:$>/<W:3>|b/z <W:%>/x <W:2>", "a/x <W:%>/x <W:$> <W:%>/z|b/<W:2>/z <W:%>" };
#endif
int main() {
	return run_table(G, SH, "numeric tags are compared by value, MIN and MAX taken over the cohort's readings");
}
#endif
#if WHICH == 4
// the arithmetic, for every short expression and for longer ones of a given form; digits stay unknown
#include "cg.hpp"
#include <cmath>
#include <cstdlib>
#include "drive.hpp"
#include <functional>
#include "ref.hpp"
using ref::digit_value;
// libc's strtod for what a number can look like here, so that the digits need not be known
static double plain_strtod(const char* s, char** end) {
	double v = 0, sc = 1;
	for (; *s >= '0' && *s <= '9'; ++s) { v = v * 10 + digit_value(*s); }
	if (*s == '.') {
		for (++s; *s >= '0' && *s <= '9'; ++s) {
			v = v * 10 + digit_value(*s);
			sc *= 10;
		}
	}
	if (end) { *end = (char*)s; }
	return v / sc;
}
#define strtod plain_strtod
#include "MathParser.hpp"
#undef strtod
using namespace CG3;
#if defined(SX_TIER) && SX_TIER
	#define LEN 6
#else
	#define LEN 5
#endif
// o an operator, % a digit, s a sign
static const char* FORMS[] = { "%o%o%o%", "%o(%o%)", "(%o%)o%", "s(%o%)o%", "%os%o%", "%.%o%.%", "MINo%oMAX", "((%o%)o%)o%", "%^2o%", "%o%^2", "-(%oMAX)oMIN", "%o(MAXo(%o%))", "%%%o%%", "+%o+%", "%o-(-%)" };
static char one_of(const char* abc, const char* name) {
	uint8_t c = sx_var<uint8_t>(name);
	uint64_t ok = 0;
	for (const char* p = abc; *p; ++p) { ok |= (uint64_t)(c == (uint8_t)*p); }
	sxapi_assume(ok != 0);
	return (char)c;
}
int main() {
	CG cg("DELIMITERS = \"<.>\" ;\nADD (@x) (*) ;\n");
	sxapi_start();
	std::string e;
	uint32_t f = sx_choice("form", 1 + sizeof(FORMS) / sizeof(*FORMS));
	double lo = -7, hi = 9.5;
	if (f == 0) {
		uint32_t n = 1 + sx_choice("length", LEN);
		for (uint32_t i = 0; i < n; ++i) {
			char c = one_of("0123456789.+-*/()MN", "char");
			if (c == 'M') { e += "MAX"; }
			else if (c == 'N') { e += "MIN"; }
			else { e += c; }
		}
	}
	else {
		for (const char* p = FORMS[f - 1]; *p; ++p) {
			if (*p == 'o') { e += one_of("+-*/", "operator"); }
			else if (*p == 's') { e += one_of("+-", "sign"); }
			else if (*p == '%') { e += one_of("0123456789", "digit"); }
			else { e += *p; }
		}
	}
	// what a garbled number or name means is not documented
	for (size_t i = 0; i < e.size();) {
		auto in = [&](size_t k) { return k < e.size() && ((e[k] >= '0' && e[k] <= '9') || e[k] == '.' || (e[k] >= 'A' && e[k] <= 'Z')); };
		size_t b = i, digits = 0, dots = 0, letters = 0;
		for (; in(i); ++i) { (e[i] == '.' ? dots : e[i] >= 'A' ? letters : digits)++; }
		sxapi_assume(i == b || (letters == 3 && !digits && !dots) || (!letters && digits && dots < 2));
		i += i == b;
	}
	note("expression: " + e);
	ref::Math m(e, lo, hi);
	double want = m.whole();
	UString u;
	for (char c : e) { u += (UChar)(uint8_t)c; }
	u += u'>';
	UStringView v(u);
	v.remove_suffix(1);
	double got = 0;
	bool ok = true;
	try {
		MathParser mp(lo, hi);
		got = mp.eval(v);
	}
	catch (const std::exception&) {
		ok = false;
	}
	SX_ASSERT(ok == !m.bad, "an expression is accepted exactly when it is well-formed");
	if (ok && sxapi_conc(!m.bad)) {
		bool same = sxapi_conc(sxapi_equal(&got, &want, sizeof got));
		if (!same) {
			SX_ASSERT(got == want || (got != got && want != want), "an expression has the value ordinary arithmetic gives it");
		}
	}
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#endif
