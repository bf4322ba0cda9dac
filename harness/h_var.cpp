// C13: variables and stream commands take effect exactly from their place on
#include "drive.hpp"
#include <set>
#ifndef WHICH
	#define WHICH 1
#endif
typedef std::map<std::string, std::string> Vars;
struct W {
	std::vector<std::pair<std::string, std::string>> c; // word, tag
	std::vector<std::string> tx;                        // text after each
	Vars set, snap;
	std::set<std::string> rem, out;
	bool done = false;
};
struct Ref {
	std::string out;
	Vars vars, pset;
	std::set<std::string> prem, pout;
	std::vector<W> w; // all windows since the last FLUSH
	bool open = false, dead = false, textd = false;
	uint32_t nw;
	static bool is(const std::string& a, const char* b) { return ref::eq(a, std::string(b)); }
	void echo(const std::set<std::string>& names, const Vars& v) {
		for (auto& n : names) {
			auto it = v.find(n);
			out += it == v.end() ? "<STREAMCMD:REMVAR:" + n + ">\n" : "<STREAMCMD:SETVAR:" + n + (it->second == "*" ? "" : "=" + it->second) + ">\n";
		}
	}
	void run(size_t k) {
		W& x = w[k];
		for (auto& p : x.set) { vars[p.first] = p.second; }
		for (auto& p : x.rem) { vars.erase(p); }
		std::vector<std::string> add(x.c.size());
		auto has = [&](const char* n) { return vars.count(n) != 0; };
		auto val = [&](const char* n, const char* v) { return has(n) && is(vars[n], v); };
		auto all = [&](const char* t, std::function<bool(size_t)> f) {
			for (size_t i = 0; i < add.size(); ++i) {
				if (f(i)) {
					add[i] += std::string(" ") + t;
				}
			}
		};
		all("V", [&](size_t) { return has("v"); });
		all("V1", [&](size_t) { return val("v", "1"); });
		all("W", [&](size_t) { return has("w"); });
		for (auto& c : x.c) {
			if (is(c.second, "s")) {
				vars["v"] = "3";
				x.out.insert("v");
			}
		}
		for (auto& c : x.c) {
			if (is(c.second, "r") && has("v")) {
				vars.erase("v");
				x.out.insert("v");
			}
		}
		for (auto& c : x.c) {
			if (is(c.second, "t")) {
				vars["w2"] = "*";
			}
		}
		all("X", [&](size_t) { return val("v", "3"); });
		all("N", [&](size_t) { return !has("v"); });
		all("W2", [&](size_t) { return has("w2"); });
		bool back = has("v"), ahead = has("v");
		for (size_t j = k; j-- > 0 && k - j <= nw;) {
			back = back || w[j].snap.count("v");
		}
		for (size_t j = k + 1; j < w.size() && j - k <= nw; ++j) {
			ahead = ahead || w[j].set.count("v");
		}
		all("LB", [&](size_t i) { (void)i; return back; });
		all("LA", [&](size_t i) { return (i + 1 < x.c.size() && has("v")) || [&] {
			bool a = false;
			for (size_t j = k + 1; j < w.size() && j - k <= nw; ++j) {
				a = a || w[j].set.count("v");
			}
			return a; }(); });
		x.snap = vars;
		x.done = true;
		// printed
		echo(x.out, x.snap);
		for (size_t i = 0; i < x.c.size(); ++i) {
			out += "\"<" + x.c[i].first + ">\"\n\t\"" + x.c[i].first + "\" " + x.c[i].second + add[i] + "\n" + x.tx[i];
		}
	}
	void finish() {
		for (size_t k = 0; k < w.size(); ++k) {
			run(k);
		}
		w.clear();
		open = false;
	}
	void cohort(const std::string& wf, const std::string& tag) {
		if (!open) {
			w.emplace_back();
			w.back().set = pset;
			w.back().rem = prem;
			w.back().out = pout;
			pset.clear();
			prem.clear();
			pout.clear();
			open = true;
		}
		w.back().c.push_back(std::make_pair(wf, tag));
		w.back().tx.push_back("");
		if (wf == ".") {
			open = false;
		}
	}
	void setvar(const std::string& n, const std::string& v) {
		pset[n] = v;
		prem.erase(n);
		pout.insert(n);
	}
	void remvar(const std::string& n) {
		pset.erase(n);
		prem.insert(n);
		pout.insert(n);
	}
	void text(const std::string& t) {
		if (w.empty()) { out += t; }
		else { w.back().tx.back() += t; }
	}
	void flush() {
		finish();
		out += "<STREAMCMD:FLUSH>\n";
		vars.clear();
	}
	void end() {
		finish();
		echo(pout, pset);
	}
};
// the order in which one window's variables are echoed does not matter
static std::string norm(const std::string& s) {
	std::vector<std::string> l = Stream::cut(s, '\n');
	for (size_t i = 0; i < l.size();) {
		size_t j = i;
		auto cmd = [](const std::string& x) { return x.compare(0, 17, "<STREAMCMD:SETVAR") == 0 || x.compare(0, 17, "<STREAMCMD:REMVAR") == 0; };
		while (j < l.size() && cmd(l[j])) {
			++j;
		}
		std::sort(l.begin() + i, l.begin() + j, [](const std::string& a, const std::string& b) { return a.substr(18, a.find_first_of("=>", 18) - 18) < b.substr(18, b.find_first_of("=>", 18) - 18); });
		i = j + 1;
	}
	std::string r;
	for (size_t i = 0; i < l.size(); ++i) {
		r += (i ? "\n" : "") + l[i];
	}
	return r;
}
enum Item { NONE, SET, SET1, SETQ, SETW, REM, REMW, FLUSH, TEXT, IGN, SETA, SETB, SETC, EXIT, ITEMS };
static void item(uint32_t k, std::string& in, Ref& r, bool last_in_window) {
	(void)last_in_window;
	auto cmd = [&](const std::string& c) { in += "<STREAMCMD:" + c + ">\n"; };
	switch (k) {
	case SET: cmd("SETVAR:v"); r.setvar("v", "*"); break;
	case SET1: cmd("SETVAR:v=1"); r.setvar("v", "1"); break;
	case SETQ: {
		std::string q(1, (char)sx_range<uint8_t>("value", '1', '3'));
		cmd("SETVAR:v=" + q);
		r.setvar("v", q);
		break;
	}
	case SETW: cmd("SETVAR:w"); r.setvar("w", "*"); break;
	case SETA: cmd("SETVAR:w,v=1"); r.setvar("w", "*"); r.setvar("v", "1"); break;
	case SETB: cmd("SETVAR:v=1,w"); r.setvar("w", "*"); r.setvar("v", "1"); break;
	case SETC: cmd("SETVAR:v,w=2,u"); r.setvar("v", "*"); r.setvar("w", "2"); r.setvar("u", "*"); break;
	case REM: cmd("REMVAR:v"); r.remvar("v"); break;
	case REMW: cmd("REMVAR:w,v"); r.remvar("w"); r.remvar("v"); break;
	case FLUSH: cmd("FLUSH"); r.flush(); break;
	case TEXT: in += "<t>\n"; r.text("<t>\n"); break;
	case IGN:
		cmd("FLUSH");
		r.flush();
		cmd("IGNORE");
		in += "\"<i>\"\n\t\"i\" s\n\"<.>\"\nline\n";
		cmd("RESUME");
		r.out += "<STREAMCMD:IGNORE>\n\"<i>\"\n\t\"i\" s\n\"<.>\"\nline\n<STREAMCMD:RESUME>\n";
		break;
	case EXIT:
		cmd("FLUSH");
		r.flush();
		cmd("EXIT");
		r.out += "<STREAMCMD:EXIT>\n";
		r.dead = true;
		break;
	default: break;
	}
}

#if WHICH == 3
// every way to ask for a variable
struct Ask {
	const char* g;
	std::function<bool(const Vars&, char)> f; // what the tag of the cohort is, what holds
};
static bool any(const Vars& v, std::function<bool(const std::string&, const std::string&)> f) {
	for (auto& p : v) {
		if (f(p.first, p.second)) {
			return true;
		}
	}
	return false;
}
static bool in(const std::string& s, const char* set) {
	for (; *set; ++set) {
		if (ref::eq(s, std::string(1, *set))) {
			return true;
		}
	}
	return false;
}
int main() {
	#define ANY(c) [](const Vars& v, char t) { (void)t; return any(v, [&](const std::string& n, const std::string& x) { (void)n; (void)x; return c; }); }
	std::vector<Ask> T = {
		{ "ADD (T) (VAR:u) ;", ANY(in(n, "u")) },
		{ "ADD (T) (VAR:u=1) ;", ANY(in(n, "u") && in(x, "1")) },
		{ "ADD (T) (VAR:/^[uv]$/r) ;", ANY(in(n, "uv")) },
		{ "ADD (T) (VAR:u=/^[12]$/r) ;", ANY(in(n, "u") && in(x, "12")) },
		{ "ADD (T) (VAR:/^[uv]$/r=2) ;", ANY(in(n, "uv") && in(x, "2")) },
		{ "ADD (T) (VAR:/^[uv]$/r=/^[23]$/r) ;", ANY(in(n, "uv") && in(x, "23")) },
		{ "ADD (T) (VAR:/U/i) ;", ANY(in(n, "u")) },
		{ "ADD (T) (VAR:/V/i=3) ;", ANY(in(n, "v") && in(x, "3")) },
		{ "ADD (T) (LVAR:w=2) ;", ANY(in(n, "w") && in(x, "2")) },
		{ "ADD (T) (x VAR:u) ;", ANY(t == 'x' && in(n, "u")) },
		{ "LIST L = VAR:u x ; ADD (T) L ;", [](const Vars& v, char t) { return t == 'x' || any(v, [](const std::string& n, const std::string&) { return in(n, "u"); }); } },
		{ "LIST L = (VAR:u VAR:v) y ; ADD (T) L ;", [](const Vars& v, char t) { auto h = [&](const char* k) { return any(v, [&](const std::string& n, const std::string&) { return in(n, k); }); }; return t == 'y' || (h("u") && h("v")); } },
		{ "ADD (T) (x) IF (0 (VAR:v=2)) ;", ANY(t == 'x' && in(n, "v") && in(x, "2")) },
		{ "ADD (T) (*) - (VAR:v) ;", [](const Vars& v, char) { return !any(v, [](const std::string& n, const std::string&) { return in(n, "v"); }); } },
		{ "ADD (T) (*) IF (NOT 0 (VAR:w=1)) ;", [](const Vars& v, char) { return !any(v, [](const std::string& n, const std::string& x) { return in(n, "w") && in(x, "1"); }); } },
		{ "SETVARIABLE (u) (1) (x) ; ADD (T) (VAR:u=1) ;", [](const Vars& v, char t) { return t == 'x' || any(v, [](const std::string& n, const std::string& x) { return in(n, "u") && in(x, "1"); }); } },
		{ "REMVARIABLE (u v) (x) ; ADD (T) (VAR:u) (VAR:v) ;", nullptr },
		{ "REMVARIABLE (u v) (x) ; ADD (T) (*) IF (0 (VAR:u) OR (VAR:v)) ;", [](const Vars& v, char t) { return t != 'x' && any(v, [](const std::string& n, const std::string&) { return in(n, "uv"); }); } },
		{ "REMVARIABLE (u) (x) ; ADD (T) (*) IF (0 (VAR:u) OR (VAR:v)) ;", [](const Vars& v, char t) { return any(v, [&](const std::string& n, const std::string&) { return in(n, "v") || (t != 'x' && in(n, "u")); }); } },
		{ "SETVARIABLE (VSTR:$1) (VSTR:$1) (/^\\([xy]\\)$/r) ; ADD (T) (*) IF (0 (VAR:x=x) OR (VAR:u)) ;", [](const Vars& v, char t) { return t == 'x' || any(v, [](const std::string& n, const std::string&) { return in(n, "u"); }); } },
		{ "SETVARIABLE (x) (*) (x) ; ADD (T) (VAR:x) ;", ANY(false) },
	};
	T.erase(T.begin() + 16);
	T.back().f = [](const Vars&, char t) { return t == 'x'; };
	std::vector<std::unique_ptr<CG>> gs;
	for (auto& t : T) {
		gs.emplace_back(new CG(std::string("DELIMITERS = \"<.>\" ;\nSECTION\n") + t.g + "\n"));
	}
	sxapi_start();
	uint32_t k = sx_choice("rule", (uint32_t)T.size());
	auto sym = [](const char* n, char a, char b) { return std::string(1, (char)sx_range<uint8_t>(n, a, b)); };
	std::string n1 = sym("name", 'u', 'w'), v1 = sym("value", '1', '3'), n2 = sym("name", 'u', 'w'), v2 = sym("value", '1', '3');
	bool rem = sx_choice("removed", 2);
	std::string tag = sym("tag", 'x', 'z');
	Vars vars;
	std::string c1 = n1, c2 = n2;
	// the names as plain letters, so that the map knows them
	auto plain = [](const std::string& s) {
		for (char c : { 'u', 'v', 'w' }) {
			if (ref::eq(s, std::string(1, c))) {
				return std::string(1, c);
			}
		}
		return s;
	};
	n1 = plain(n1);
	n2 = plain(n2);
	vars[n1] = v1;
	vars[n2] = v2;
	std::string in_ = "<STREAMCMD:SETVAR:" + n1 + "=" + v1 + "," + n2 + "=" + v2 + ">\n";
	if (rem) {
		in_ += "\"<.>\"\n\t\".\" p\n<STREAMCMD:REMVAR:" + n1 + ">\n";
		vars.erase(n1);
	}
	char t = ref::eq(tag, "x") ? 'x' : ref::eq(tag, "y") ? 'y' : 'z';
	in_ += "\"<a>\"\n\t\"a\" " + tag + "\n";
	Run<> run(*gs[k]);
	std::string got = run.text(in_);
	got = got.substr(got.rfind("\"<a>\""));
	std::string want = "\"<a>\"\n\t\"a\" " + tag + (T[k].f(vars, t) ? " T\n" : "\n");
	note("grammar: " + gs[k]->src + "input:\n" + in_ + "actual end:\n" + got + "expected end:\n" + want);
	SX_ASSERT(seq(got, want), "a test on a variable sees its value");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#else
int main() {
	std::unique_ptr<CG> g(new CG(
		"DELIMITERS = \"<.>\" ;\nSECTION\nADD (V) (VAR:v) ; ADD (V1) (VAR:v=1) ; ADD (W) (*) IF (0 (VAR:w)) ; SETVARIABLE OUTPUT (v) (3) (s) ; REMVARIABLE OUTPUT (v) (r) ; SETVARIABLE (w2) (*) (t) ; "
		"ADD (X) (VAR:v=3) ; ADD (N) (*) IF (NOT 0 (VAR:v)) ; ADD (W2) (VAR:w2) ; ADD (LB) (*) IF (-1*W (LVAR:v)) ; ADD (LA) (*) IF (1*W (LVAR:v)) ;\n"));
	sxapi_start();
	Ref r;
	std::string in;
	r.nw = 1;
#if WHICH == 1
	// four commands around two windows
	static const uint32_t kinds[] = { NONE, SET, SET1, SETQ, SETW, REM, FLUSH };
	const uint32_t K = 7;
	#define PICK(n) kinds[sx_choice(n, K)]
#else
	static const uint32_t kinds[] = { NONE, SETA, SETB, SETC, REMW, IGN, EXIT, TEXT, SETW, REM, FLUSH };
	const uint32_t K = 11;
	#define PICK(n) kinds[sx_choice(n, K)]
#endif
	auto coh = [&](const char* w, const std::string& t) {
		if (r.dead) {
			in += std::string("\"<") + w + ">\"\n";
			return;
		}
		in += std::string("\"<") + w + ">\"\n\t\"" + w + "\" " + t + "\n";
		r.cohort(w, t);
	};
	auto it = [&](uint32_t k) {
		if (r.dead) {
			in += "<STREAMCMD:SETVAR:v>\n";
			return;
		}
		// a variable command that no window has taken up when a FLUSH comes: not documented
		if (k == FLUSH || k == IGN || k == EXIT) {
			sxapi_assume(r.pout.empty());
		}
		item(k, in, r, false);
	};
	auto tag = [&] { return std::string(1, (char)sx_range<uint8_t>("tag", 'r', WHICH == 1 ? 's' : 't')); };
#if WHICH == 1
	it(PICK("item"));
	coh("a", tag());
	it(PICK("item"));
	coh(".", "p");
	it(PICK("item"));
	coh("b", tag());
	it(PICK("item"));
	coh(".", "p");
	coh("c", "q");
#else
	it(PICK("item"));
	coh("a", "n");
	it(PICK("item"));
	coh(".", tag());
	it(PICK("item"));
	coh("b", "n");
	coh(".", "p");
	coh("c", "q");
	coh(".", "p");
#endif
	if (!r.dead) {
		r.end();
	}
	Run<> run(*g, [&](CG3::GrammarApplicator& a) { a.num_windows = r.nw; });
	std::string got = norm(run.text(in)), want = norm(r.out);
	note("input:\n" + in + "actual:\n" + got + "expected:\n" + want);
	SX_ASSERT(seq(got, want), "variables and commands take effect from their place on");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#endif
