// Numeric tags: <NAME op VALUE>, from the manual
namespace ref {
struct Num {
	Str name;
	int op = 0; // 0 =  1 !=  2 <  3 >  4 <=  5 >=
	Str val;
	double v = 0;
};
__attribute__((noinline)) inline double digit_value(char c) { return c - '0'; }
struct Math {
	// + - * / ^ parentheses, MIN and MAX; ordinary precedence
	const Str& s;
	double lo, hi;
	size_t i = 0;
	bool bad = false;
	Math(const Str& e, double lo, double hi) : s(e), lo(lo), hi(hi) {}
	char at() {
		while (i < s.size() && s[i] == ' ') {
			++i;
		}
		return i < s.size() ? s[i] : 0;
	}
	bool digit(char& c) {
		if (i >= s.size()) { return false; }
		c = s[i];
		return c >= '0' && c <= '9';
	}
	double prim() {
		char c = at();
		if (c == '(') {
			++i;
			double v = sum();
			if (at() != ')') { bad = true; }
			++i;
			return v;
		}
		if (s.compare(i, 3, "MIN") == 0) { i += 3; return lo; }
		if (s.compare(i, 3, "MAX") == 0) { i += 3; return hi; }
		bool any = false;
		double v = 0, sc = 1;
		for (; digit(c); ++i) {
			v = v * 10 + digit_value(c);
			any = true;
		}
		if (i < s.size() && s[i] == '.') {
			for (++i; digit(c); ++i) {
				v = v * 10 + digit_value(c);
				sc *= 10;
				any = true;
			}
		}
		if (!any) { bad = true; }
		return v / sc;
	}
	double sgn() {
		char c = at();
		if (c == '-' || c == '+') {
			++i;
			double v = prim();
			return c == '-' ? -v : v;
		}
		return prim();
	}
	double power() {
		double v = sgn();
		while (at() == '^') {
			++i;
			double e = sgn(), b = v;
			v = 1;
			for (int k = 0; k < (int)e; ++k) { v *= b; }
		}
		return v;
	}
	double term() {
		double v = power();
		for (char c; (c = at()) == '*' || c == '/';) {
			++i;
			double w = power();
			v = c == '*' ? v * w : v / w;
		}
		return v;
	}
	double sum() {
		double v = term();
		for (char c; !bad && ((c = at()) == '+' || c == '-');) {
			++i;
			double w = term();
			v = c == '+' ? v + w : v - w;
		}
		return v;
	}
	double whole() {
		double v = sum();
		if (at()) { bad = true; }
		return v;
	}
};
inline bool num_parse(const Str& t, Num& n) {
	if (t.size() < 5 || t[0] != '<' || t.back() != '>') {
		return false;
	}
	size_t i = 1;
	while (i < t.size() && !strchr("<>=:!", (char)sxapi_conc((uint8_t)t[i]))) {
		++i;
	}
	size_t b = i;
	while (i < t.size() && strchr("<>=:!", t[i])) {
		++i;
	}
	if (b == 1 || i == b || i >= t.size() - 1) {
		return false;
	}
	Str o = t.substr(b, i - b);
	for (auto& c : o) {
		c = c == ':' ? '=' : c;
	}
	static const char* ops[] = { "=", "!=", "<", ">", "<=", ">=", "<>" };
	int k = 0;
	while (k < 7 && o != ops[k]) {
		++k;
	}
	if (k == 7) {
		return false;
	}
	n.op = k == 6 ? 1 : k;
	n.name = t.substr(1, b - 1);
	n.val = t.substr(i, t.size() - i - 1);
	return true;
}
static const double LOWEST = -281474976710656.0, HIGHEST = 281474976710655.0;
inline double num_val(const Str& s, double lo, double hi) {
	bool neg = s[0] == '-' && s.find_first_not_of("-.0123456789") == Str::npos;
	Str p = neg ? s.substr(1) : s;
	Math m(p, lo, hi);
	double v = m.whole();
	v = neg ? -v : v;
	return v;
}
inline double capped(double v) { return v < LOWEST ? LOWEST : v > HIGHEST ? HIGHEST : v; }
// is there a number on both sides; != against != holds when they are the same
inline bool num_both(int oa, double x, int ob, double y) {
	if (oa == 1 && ob == 1) { return x == y; }
	if (oa == 0) { return ob == 0 ? x == y : ob == 1 ? x != y : ob == 2 ? x < y : ob == 3 ? x > y : ob == 4 ? x <= y : x >= y; }
	if (ob == 0) { return num_both(ob, y, oa, x); }
	if (oa == 1 || ob == 1 || (oa == 3 || oa == 5) == (ob == 3 || ob == 5)) { return true; }
	double lo = (oa == 3 || oa == 5) ? x : y, hi = (oa == 3 || oa == 5) ? y : x;
	return (oa >= 4 && ob >= 4) ? lo <= hi : lo < hi;
}
inline bool num_test(const Rd* r, const Num& t) {
	double lo = 0, hi = 0;
	bool any = false;
	auto each = [](const Rd* q, const Num& t, std::function<void(const Num&)> f) {
		for (auto& x : q->tags) {
			Num n;
			if (num_parse(x, n) && n.name == t.name) {
				n.v = capped(num_val(n.val, LOWEST, HIGHEST));
				f(n);
			}
		}
	};
	for (auto q : r->c->rd) {
		each(q, t, [&](const Num& n) {
			lo = any ? std::min(lo, n.v) : n.v;
			hi = any ? std::max(hi, n.v) : n.v;
			any = true;
		});
	}
	if (!any) {
		lo = LOWEST;
		hi = HIGHEST;
	}
	double x = num_val(t.val, lo, hi);
	if (x <= LOWEST) { x = lo; }
	else if (x >= HIGHEST) { x = hi; }
	bool hit = false;
	each(r, t, [&](const Num& n) { hit = hit || num_both(t.op, x, n.op, n.v); });
	return hit;
}
}
