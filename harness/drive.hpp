// One stream, the real code and the reference side by side
#pragma once
#include "cg.hpp"
#include "ref.hpp"

// A stream is written as text: cohorts separated by '|', a cohort is its word and its readings separated by '/',
// a reading is its tags separated by blanks; the base form is the word unless the first tag is quoted.
// '?' is one unknown lower-case letter: every value is decided at once.
struct Stream {
	struct C {
		std::string wf;
		std::vector<ref::Strs> rd;
	};
	std::vector<C> c;
	std::string in;
	static std::vector<std::string> cut(const std::string& s, char d) {
		std::vector<std::string> r(1);
		for (char x : s) {
			if (x == d) {
				r.emplace_back();
			}
			else {
				r.back() += x;
			}
		}
		return r;
	}
	#ifndef SLOT_LO
		#define SLOT_LO 'u'
	#endif
	static char slot() {
		return (char)sx_range<uint8_t>("tag", SLOT_LO, 'z');
	}
	explicit Stream(const std::string& spec) {
		for (auto& cs : cut(spec, '|')) {
			auto parts = cut(cs, '/');
			C c0;
			c0.wf = "\"<" + parts[0] + ">\"";
			for (size_t i = 1; i < parts.size(); ++i) {
				ref::Strs t;
				for (auto& w : cut(parts[i], ' ')) {
					if (w.empty()) {
						continue;
					}
					if (t.empty() && w[0] != '"') {
						t.push_back("\"" + parts[0] + "\"");
					}
					std::string v = w;
					for (auto& ch : v) {
						if (ch == '?') {
							ch = slot();
						}
						else if (ch == '%') {
							ch = (char)sx_range<uint8_t>("number", '1', '4');
						}
						else if (ch == '$') {
							ch = (char)sx_range<uint8_t>("parent", '0', '4');
						}
					}
					t.push_back(v);
				}
				if (t.empty()) {
					t.push_back("\"" + parts[0] + "\"");
				}
				c0.rd.push_back(t);
			}
			c.push_back(c0);
		}
		for (auto& x : c) {
			in += x.wf + "\n";
			for (auto& r : x.rd) {
				in += "\t";
				for (size_t i = 0; i < r.size(); ++i) {
					in += (i ? " " : "") + r[i];
				}
				in += "\n";
			}
		}
		in += "\n";
	}
	void fill(ref::Interp& I, bool deps = false, int by_number = 0) const {
		ref::Win* w = nullptr;
		std::map<int, ref::Coh*> ids;
		std::vector<std::pair<ref::Coh*, std::pair<std::string, int>>> rels;
		int highest = 0;
		for (auto& x : c) {
			if (!w) {
				w = I.new_win();
			}
			if (by_number) { // --dep-delimit
				int n = 0, m = 0;
				for (auto& r : x.rd) {
					for (auto& t : r) {
						sscanf(t.c_str(), "#%d->%d", &n, &m);
					}
				}
				if (n && highest && (n <= highest || n - highest > by_number)) {
					if (w->c.size() > 1) {
						I.close_win(w);
						w = I.new_win();
					}
				}
				highest = n ? n : highest;
			}
			ref::Coh* co = I.new_coh(w, x.wf);
			for (auto r : x.rd) {
				if (deps) {
					for (size_t i = 0; i < r.size();) {
						int a = 0, b = 0;
						if (r[i][0] == '#' && sscanf(r[i].c_str(), "#%d->%d", &a, &b) == 2) {
							co->dself = a; // the last one counts
							co->dpar = b;
							r.erase(r.begin() + i);
						}
						else if (r[i].compare(0, 3, "ID:") == 0 && (a = atoi(r[i].c_str() + 3)) != 0) {
							ids[a] = co;
							r.erase(r.begin() + i);
						}
						else if (r[i].compare(0, 2, "R:") == 0) {
							auto k = r[i].find(':', 2);
							rels.push_back({ co, { r[i].substr(2, k - 2), atoi(r[i].c_str() + k + 1) } });
							r.erase(r.begin() + i);
						}
						else {
							++i;
						}
					}
				}
				I.add_reading(co, r);
			}
			I.finish_cohort(co);
			w->c.push_back(co);
			w->all.push_back(co);
			bool d = false;
			for (auto& t : I.g.delim) {
				d = d || (!by_number && ref::eq(t, x.wf));
			}
			if (d) {
				I.close_win(w);
				w = nullptr;
			}
		}
		if (w) {
			I.close_win(w);
		}
		if (deps) {
			I.resolve_deps(by_number != 0);
			I.resolve_rels(ids, rels);
		}
	}
};

struct Both {
	std::unique_ptr<CG> cg;
	std::unique_ptr<Run<>> run;
	ref::Gram rg;
	std::string text;
	explicit Both(const std::string& t, std::function<void(CG3::GrammarApplicator&)> opt = nullptr) : text(t) {
		cg.reset(new CG(text));
		run.reset(new Run<>(*cg, opt));
		ref::Parser(text, &rg).parse();
	}
};

inline void note(const std::string& s) { sxapi_note(s.c_str()); }

inline void compare(const std::string& got, const std::string& want, const Both& b, const std::string& in, const char* msg) {
	bool e = got.size() == want.size();
	note("grammar: " + b.text.substr(b.text.find(";") + 1) + "\ninput:\n" + in + "actual:\n" + got + "expected:\n" + want);
	SX_ASSERT(e, msg);
	if (e && !got.empty()) {
		sxapi_assert(sxapi_equal(got.data(), want.data(), got.size()), msg);
	}
}
