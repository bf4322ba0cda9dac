// Reference semantics of the constraint grammar language, written from the manual: a small parser for grammar
// text and an interpreter over plain structures.  It shares nothing with /repo.
#pragma once
#include "sx.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <cstdarg>
#include <functional>

namespace ref {
typedef std::string Str;
typedef std::vector<Str> Strs;

inline bool eq(const Str& a, const Str& b) {
	return a.size() == b.size() && (a.empty() || sxapi_equal(a.data(), b.data(), a.size()));
}
inline bool eq(const Str& a, const char* b) { return eq(a, Str(b)); }

// ---------------------------------------------------------------- stream
struct Coh;
struct Rd {
	Strs tags;          // "base" first
	Str map;            // mapping tag or empty
	bool mapped = false, noprint = false, immut = false, nobase = false; // nobase: its base form is for printing only
	Strs extra;         // >>> and <<<
	uint32_t num = 0;
	Coh* c = nullptr;
};
struct Win;
struct Coh {
	Str wf, text;
	Strs stat;          // tags of the word form line
	std::vector<Rd*> rd, del, delayed, ign;
	Win* w = nullptr;
	size_t pos = 0;
	uint32_t id = 0;
	bool removed = false;
	Coh* par = nullptr;  // its dependency parent; the root is the start of its own window
	int dself = 0, dpar = -1; // as numbered in the input
	bool related = false;
	std::map<Str, std::set<Coh*>> rels;
};
struct Win {
	std::vector<Coh*> c;     // [0] is the start of the window
	std::vector<Coh*> all;
	Win *prev = nullptr, *next = nullptr;
	uint32_t no = 0;
	void renum() {
		for (size_t i = 0; i < c.size(); ++i) {
			c[i]->pos = i;
			c[i]->w = this;
		}
	}
};
inline bool before(const Coh* a, const Coh* b) { // strictly earlier in the text
	return a->w->no != b->w->no ? a->w->no < b->w->no : a->pos < b->pos;
}

// ---------------------------------------------------------------- grammar
struct Set;
struct Elem { Str t; bool ff = false; };
struct Set {
	enum K { LIST, ANY, OP, TUNI, SUNI } k = LIST;
	Str name;
	std::vector<std::vector<Elem>> comps;
	std::vector<Set*> parts;
	std::vector<char> ops;
};
struct Ctx {
	bool neg = false, not_ = false, all = false, none = false;
	int off = 0;
	bool s1 = false, sA = false, careful = false, abs = false, passO = false, noO = false;
	bool spL = false, spR = false, spB = false, del = false, dly = false, ign = false, self = false;
	bool setmark = false, jmark = false, fbr = false, att = false, with = false, nobar = false;
	int rel = 0;             // p c s cc ...: see dep below
	Str dep;                 // the letters of a dependency or relation position
	Str rname;               // the relation to follow
	Set *t = nullptr, *bar = nullptr, *cbar = nullptr;
	Ctx* link = nullptr;
	Ctx* tmpl = nullptr;
	std::vector<Ctx*> ors;
};
struct Rule {
	Str type, name, wf;
	Strs flags;
	Set *target = nullptr;
	Strs a, b, spot;         // tag lists
	Set *dt = nullptr;       // dep target etc.
	Set *ch1 = nullptr, *ch2 = nullptr; // WITHCHILD
	std::vector<Ctx*> tests;
	std::vector<Ctx*> dtests;
	Ctx* dpos = nullptr;
	size_t no = 0;
	int section = 0;         // -1 before, -2 null, -3 after, else 1..
	bool flag(const char* f) const {
		for (auto& x : flags) {
			if (x == f) {
				return true;
			}
		}
		return false;
	}
};
struct Gram {
	Strs delim, soft;
	std::map<Str, Set*> sets;
	std::map<Str, Ctx*> tmpls;
	std::vector<Rule*> rules;
	std::map<Str, size_t> anchors; // name -> the rule that follows
	int nsec = 0;
};

// ---------------------------------------------------------------- parser for the grammar text
struct Parser {
	const Str& s;
	size_t i = 0;
	Gram* g;
	int section = 0;
	explicit Parser(const Str& t, Gram* g) : s(t), g(g) {}
	[[noreturn]] void die(const char* why) {
		fprintf(stderr, "REF PARSER: %s at '%s' in\n%s\n", why, s.substr(i, 30).c_str(), s.c_str());
		abort();
	}
	void ws() {
		for (; i < s.size(); ++i) {
			if (s[i] == '#') {
				while (i < s.size() && s[i] != '\n') {
					++i;
				}
			}
			if (!isspace((unsigned char)s[i])) {
				break;
			}
		}
	}
	bool is(char c) {
		ws();
		return i < s.size() && s[i] == c;
	}
	void need(char c) {
		if (!is(c)) {
			die("expected another character");
		}
		++i;
	}
	Str peek() {
		size_t o = i;
		Str t = tok();
		i = o;
		return t;
	}
	Str tok() {
		ws();
		size_t b = i;
		if (i < s.size() && strchr("();", s[i])) {
			return s.substr(i++, 1);
		}
		for (; i < s.size() && !isspace((unsigned char)s[i]) && !strchr("();", s[i]); ++i) {
			if (s[i] == '"') {
				for (++i; i < s.size() && s[i] != '"'; ++i) {
					if (s[i] == '\\') {
						++i;
					}
				}
			}
		}
		return s.substr(b, i - b);
	}
	bool kw(const char* k) {
		if (peek() == k) {
			tok();
			return true;
		}
		return false;
	}
	static Elem elem(Str t) {
		Elem e;
		if (t.size() > 1 && t[0] == '^') {
			e.ff = true;
			t.erase(0, 1);
		}
		e.t = t;
		return e;
	}
	std::vector<Elem> comp() {
		std::vector<Elem> r;
		need('(');
		while (!is(')')) {
			r.push_back(elem(tok()));
		}
		++i;
		return r;
	}
	Strs taglist() {
		Strs r;
		if (peek().compare(0, 2, "$$") == 0) {
			r.push_back(tok());
			return r;
		}
		need('(');
		while (!is(')')) {
			r.push_back(tok());
		}
		++i;
		return r;
	}
	Set* list_from(std::vector<std::vector<Elem>> cs) {
		Set* r = new Set;
		r->comps = std::move(cs);
		if (r->comps.size() == 1 && r->comps[0].size() == 1 && r->comps[0][0].t == "*") {
			r->k = Set::ANY;
		}
		return r;
	}
	Set* operand() {
		if (is('(')) {
			return list_from({ comp() });
		}
		Str n = tok();
		Set::K k = Set::LIST;
		if (n.size() > 2 && n.substr(0, 2) == "$$") {
			k = Set::TUNI;
			n.erase(0, 2);
		}
		else if (n.size() > 2 && n.substr(0, 2) == "&&") {
			k = Set::SUNI;
			n.erase(0, 2);
		}
		Str pre;
		if (k != Set::LIST && n.find(':') != Str::npos) {
			pre = n.substr(0, n.find(':') + 1);
			n.erase(0, pre.size());
		}
		auto it = g->sets.find(n);
		if (it == g->sets.end()) {
			die("unknown set");
		}
		if (k == Set::LIST) {
			return it->second;
		}
		Set* r = new Set;
		r->k = k;
		r->name = pre + n;
		r->parts.push_back(it->second);
		return r;
	}
	static char op(const Str& t) {
		if (t == "OR" || t == "|") return '|';
		if (t == "+" || t == "-" || t == "^" || t == "\\") return t[0];
		if (t == "∆") return 'D';
		if (t == "∩") return 'I';
		return 0;
	}
	static bool csame(const std::vector<Elem>& a, const std::vector<Elem>& b) {
		if (a.size() != b.size()) {
			return false;
		}
		for (auto& x : a) {
			bool f = false;
			for (auto& y : b) {
				f = f || (x.t == y.t && x.ff == y.ff);
			}
			if (!f) {
				return false;
			}
		}
		return true;
	}
	static bool has(const Set* s, const std::vector<Elem>& c) {
		for (auto& x : s->comps) {
			if (csame(x, c)) {
				return true;
			}
		}
		return false;
	}
	Set* setexpr() {
		Set* a = operand();
		char o = op(peek());
		if (!o) {
			return a;
		}
		Set* r = new Set;
		r->k = Set::OP;
		r->parts.push_back(a);
		while ((o = op(peek()))) {
			tok();
			Set* b = operand();
			if (o == '\\' || o == 'D' || o == 'I') {
				// operators on the lists of tags themselves
				Set* l = r->parts.back();
				Set* n = new Set;
				for (auto& c : l->comps) {
					if (has(b, c) == (o == 'I')) {
						n->comps.push_back(c);
					}
				}
				if (o == 'D') {
					for (auto& c : b->comps) {
						if (!has(l, c)) {
							n->comps.push_back(c);
						}
					}
				}
				r->parts.back() = n;
				continue;
			}
			r->ops.push_back(o);
			r->parts.push_back(b);
		}
		if (r->parts.size() == 1) {
			return r->parts[0];
		}
		return r;
	}
	void pos(const Str& p, Ctx* c) {
		bool neg = false;
		for (size_t k = 0; k < p.size(); ++k) {
			char x = p[k];
			if (x == 'r' && k + 1 < p.size() && p[k + 1] == ':') {
				c->rname = p.substr(k + 2);
				break;
			}
			if (x == '*') {
				if (k + 1 < p.size() && p[k + 1] == '*') {
					++k;
					c->sA = true;
				}
				else {
					c->s1 = true;
				}
			}
			else if (x == '-') { neg = true; }
			else if (isdigit((unsigned char)x)) { c->off = c->off * 10 + (x - '0'); }
			else if (x == 'C') { c->careful = true; }
			else if (x == 'f') { c->fbr = true; }
			else if (x == '@') { c->abs = true; }
			else if (x == 'W') { c->spB = true; }
			else if (x == '<') { c->spL = true; }
			else if (x == '>') { c->spR = true; }
			else if (x == 'O') { c->passO = true; }
			else if (x == 'o') { c->noO = true; }
			else if (x == 'D') { c->del = true; }
			else if (x == 'd') { c->dly = true; }
			else if (x == 'I') { c->ign = true; }
			else if (x == 'S') { c->self = true; }
			else if (x == 'N') { c->nobar = true; }
			else if (x == 'X') { c->setmark = true; }
			else if (x == 'x') { c->jmark = true; }
			else if (x == 'A') { c->att = true; }
			else if (x == 'w') { c->with = true; }
			else if (strchr("pcslr", x)) { c->dep += x; }
			else { die("position"); }
		}
		if (neg) {
			c->off = -c->off;
		}
	}
	static bool looks_numeric(const Str& t) {
		return t.size() > 4 && t[0] == '<' && t.back() == '>' && t.find_first_of("<>=:!", 1) < t.size() - 2;
	}
	Set* no_numbers(Set* s) {
		Set* n = new Set(*s);
		for (auto& p : n->parts) { p = no_numbers(p); }
		std::vector<std::vector<Elem>> k;
		for (auto& c : n->comps) {
			std::vector<Elem> d;
			for (auto& e : c) {
				if (!looks_numeric(e.t)) { d.push_back(e); }
			}
			if (!d.empty()) { k.push_back(d); }
		}
		if (n->k == Set::LIST && k.empty()) { n->k = Set::ANY; }
		n->comps = k;
		return n;
	}
	// the inside of a parenthesis
	Ctx* ctx() {
		Ctx* c = new Ctx;
		if (kw("NEGATE")) { c->neg = true; }
		if (kw("NOT")) { c->not_ = true; }
		else if (kw("ALL")) { c->all = true; }
		else if (kw("NONE")) { c->none = true; }
		if (is('(')) {
			// (ctx) OR (ctx) ...
			do {
				need('(');
				c->ors.push_back(ctx());
				need(')');
			} while (kw("OR"));
		}
		else {
			Str p = tok();
			if (p.size() > 2 && p.substr(0, 2) == "T:") {
				c->tmpl = g->tmpls.at(p.substr(2));
			}
			else {
				pos(p, c);
				Str t = peek();
				if (t.size() > 2 && t.substr(0, 2) == "T:") {
					die("template override");
				}
				c->t = setexpr();
			}
		}
		if (kw("BARRIER")) { c->bar = setexpr(); }
		if (kw("CBARRIER")) { c->cbar = setexpr(); }
		if (kw("BARRIER")) { c->bar = setexpr(); }
		if (kw("LINK")) { c->link = ctx(); }
		if (c->fbr) {
			// either the test as it is, or with C and without the numeric tags
			Ctx* o = new Ctx;
			Ctx* safe = new Ctx(*c);
			c->fbr = safe->fbr = false;
			safe->careful = true;
			safe->t = no_numbers(c->t);
			o->ors = { safe, c };
			return o;
		}
		return c;
	}
	void contexts(std::vector<Ctx*>& v) {
		kw("IF");
		while (is('(')) {
			++i;
			v.push_back(ctx());
			need(')');
		}
	}
	void kids(Set*& s) {
		if (kw("WITHCHILD")) {
			s = setexpr();
		}
		else {
			kw("NOCHILD");
		}
	}
	void rule(Str t) {
		Rule* r = new Rule;
		if (t[0] == '"') {
			r->wf = t;
			t = tok();
		}
		size_t c = t.find(':');
		if (c != Str::npos) {
			r->name = t.substr(c + 1);
			t.resize(c);
		}
		r->type = t;
		r->section = section;
		static const char* fl[] = { "NEAREST", "ALLREADINGS", "DELAYED", "IMMEDIATE", "UNSAFE", "SAFE", "ITERATE", "NOITERATE", "KEEPORDER", "VARYORDER", "UNMAPLAST", "REPEAT", "BEFORE", "AFTER", "REVERSE", "IGNORED", "LOOKIGNORED", "LOOKDELETED", "LOOKDELAYED", "RESETX", "REMEMBERX", "NOMAPPED", "ALLOWLOOP", "ALLOWCROSS", "DETACH", "NOPARENT", "ENCL_INNER", "ENCL_OUTER", "ENCL_FINAL" };
		for (bool any = true; any;) {
			any = false;
			for (auto f : fl) {
				if (peek() == f) {
					r->flags.push_back(tok());
					any = true;
				}
			}
		}
		bool two = (t == "SUBSTITUTE");
		bool one = two || t == "ADD" || t == "MAP" || t == "REPLACE" || t == "APPEND" || t == "COPY" || t == "ADDCOHORT" || t == "SETVARIABLE" || t == "REMVARIABLE" || t == "JUMP" || t == "SPLITCOHORT" || t == "MERGECOHORTS" || t == "COPYCOHORT" || t.find("RELATION") != Str::npos;
		two = two || t == "ADDRELATIONS" || t == "SETRELATIONS" || t == "REMRELATIONS";
		if (one) {
			r->a = taglist();
		}
		if ((t == "COPY" || t == "COPYCOHORT") && kw("EXCEPT")) {
			r->b = taglist();
		}
		if (two) {
			r->b = taglist();
		}
		if (t == "SETVARIABLE") {
			r->b = taglist();
		}
		for (auto f : { "BEFORE", "AFTER" }) {
			if (peek() == f) {
				r->flags.push_back(tok());
				if (t == "ADD" || t == "MAP" || t == "COPY") {
					r->spot = taglist();
				}
			}
		}
		kids(r->ch1);
		kw("TARGET");
		if (t == "RESTORE") {
			r->dt = setexpr();
		}
		r->target = setexpr();
		contexts(r->tests);
		for (auto f : { "TO", "FROM", "WITH", "BEFORE", "AFTER" }) {
			if (kw(f)) {
				r->flags.push_back(Str(f) == "FROM" ? "REVERSE" : f);
			}
		}
		for (auto f : { "BEFORE", "AFTER" }) {
			if (kw(f)) {
				r->flags.push_back(f);
			}
		}
		kids(r->ch2);
		contexts(r->dtests);
		if (t != "MERGECOHORTS" && !r->dtests.empty()) {
			r->dpos = r->dtests[0];
			r->dtests.erase(r->dtests.begin());
		}
		need(';');
		r->no = g->rules.size();
		if (!r->name.empty()) {
			g->anchors[r->name] = r->no;
		}
		g->rules.push_back(r);
	}
	// SECTION name ;  or  SECTION
	void section_name() {
		size_t o = i;
		Str n = tok(), e = tok();
		if (e == ";" && n != ";") {
			g->anchors[n] = g->rules.size();
		}
		else {
			i = o;
		}
	}
	void parse() {
		for (;;) {
			ws();
			if (i >= s.size()) {
				break;
			}
			Str t = tok();
			if (t == "DELIMITERS" || t == "SOFT-DELIMITERS") {
				need('=');
				while (!is(';')) {
					(t[0] == 'D' ? g->delim : g->soft).push_back(tok());
				}
				++i;
			}
			else if (t == "LIST") {
				Str n = tok();
				need('=');
				std::vector<std::vector<Elem>> cs;
				while (!is(';')) {
					if (is('(')) {
						cs.push_back(comp());
					}
					else {
						cs.push_back({ elem(tok()) });
					}
				}
				++i;
				g->sets[n] = list_from(cs);
				g->sets[n]->name = n;
			}
			else if (t == "SET") {
				Str n = tok();
				need('=');
				g->sets[n] = setexpr();
				need(';');
			}
			else if (t == "TEMPLATE") {
				Str n = tok();
				need('=');
				if (is('(')) {
					Ctx* c = new Ctx;
					do {
						need('(');
						c->ors.push_back(ctx());
						need(')');
					} while (kw("OR"));
					g->tmpls[n] = c;
				}
				else {
					g->tmpls[n] = ctx();
				}
				need(';');
			}
			else if (t == "BEFORE-SECTIONS") { section = -1; section_name(); }
			else if (t == "SECTION") {
				section = ++g->nsec;
				section_name();
			}
			else if (t == "ANCHOR") {
				g->anchors[tok()] = g->rules.size();
				need(';');
			}
			else if (t == "AFTER-SECTIONS") { section = -3; section_name(); }
			else if (t == "NULL-SECTION") { section = -2; section_name(); }
			else if (t == "OPTIONS") {
				while (tok() != ";") {}
			}
			else {
				if (section == 0) { // before any section
					section = -1;
				}
				rule(t);
			}
		}
	}
};

} // namespace ref
#include "ref_num.hpp"
namespace ref {
// ---------------------------------------------------------------- interpreter
struct Unif {
	std::map<const Set*, Strs> tag;             // set -> the tags of the composite it is bound to
	std::map<const Set*, std::vector<Set*>> sets;
};

struct Interp {
	const Gram& g;
	std::vector<Win*> wins;
	uint32_t ids = 0;
	bool unsafe = false, always_span = false;
	Str base0;
	explicit Interp(const Gram& g) : g(g) {}

	// ---- matching
	static bool has_tag(const Rd* r, const Str& t) {
		if (t == "*") {
			return true;
		}
		for (size_t i = r->nobase ? 1 : 0; i < r->tags.size(); ++i) {
			if (eq(r->tags[i], t)) {
				return true;
			}
		}
		if (!r->map.empty() && eq(r->map, t)) {
			return true;
		}
		for (auto& x : r->extra) {
			if (eq(x, t)) {
				return true;
			}
		}
		return eq(r->c->wf, t);
	}
	bool is_tag(const Rd* r, const Str& t) {
		if (t.compare(0, 4, "VAR:") == 0) {
			size_t q = t.find('=');
			auto it = vars.find(q == Str::npos ? t.substr(4) : t.substr(4, q - 4));
			return it != vars.end() && (q == Str::npos || it->second == t.substr(q + 1));
		}
		Num n;
		if (t[0] == '<' && num_parse(t, n)) {
			return num_test(r, n);
		}
		return has_tag(r, t);
	}
	std::map<Str, Str> vars;
	bool comp_match(const Rd* r, const std::vector<Elem>& c) {
		for (auto& e : c) {
			if (is_tag(r, e.t) == e.ff) {
				return false;
			}
		}
		return true;
	}
	bool match(const Rd* r, const Set* s) {
		switch (s->k) {
		case Set::TUNI:
		case Set::SUNI:
			return match_uni(r, s);
		case Set::ANY:
			return true;
		case Set::LIST: {
			bool hit = false, only = true;
			for (auto& c : s->comps) {
				if (c.size() == 1 && c[0].ff) {
					if (is_tag(r, c[0].t)) {
						return false; // fail-fast: no other member can make up for it
					}
				}
			}
			for (auto& c : s->comps) {
				if (c.size() == 1 && c[0].ff) {
					continue;
				}
				only = false;
				if (comp_match(r, c)) {
					hit = true;
				}
			}
			(void)only;
			return hit;
		}
		case Set::OP: {
			size_t n = s->parts.size();
			for (size_t i = 0; i < n; ++i) {
				bool m = match(r, s->parts[i]), ff = false;
				for (; i + 1 < n && s->ops[i] != '|'; ++i) {
					bool o = match(r, s->parts[i + 1]);
					if (s->ops[i] == '+') {
						m = m && o;
					}
					else if (s->ops[i] == '-') {
						m = m && !o;
					}
					else if (s->ops[i] == '^' && o) {
						m = false;
						ff = true;
					}
				}
				if (m) {
					return true;
				}
				if (ff) {
					return false;
				}
			}
			return false;
		}
		default:
			break;
		}
		return false;
	}
	void lists(Coh* c, const Ctx* t, std::vector<Rd*>& v) {
		v = c->rd;
		if (t->del) { v.insert(v.end(), c->del.begin(), c->del.end()); }
		if (t->dly) { v.insert(v.end(), c->delayed.begin(), c->delayed.end()); }
		if (t->ign) { v.insert(v.end(), c->ign.begin(), c->ign.end()); }
	}
	bool coh_match(Coh* c, const Set* s, bool careful, const Ctx* t) {
		std::vector<Rd*> v;
		lists(c, t, v);
		bool any = false, all = true;
		for (auto r : v) {
			if (match(r, s)) { any = true; }
			else { all = false; }
		}
		return careful ? (all && !v.empty()) : any;
	}
	// ---- contexts
	Coh *mark = nullptr, *found = nullptr, *attach = nullptr, *with = nullptr;
	Win* span_next(const Win* w, const Ctx* t) { return (t->spB || t->spR || always_span) ? w->next : nullptr; }
	Win* span_prev(const Win* w, const Ctx* t) { return (t->spB || t->spL || always_span) ? w->prev : nullptr; }
	enum V { FAIL_STOP, FAIL_GO, HIT, OK_GO };
	// one candidate: HIT ends the search with success, FAIL_STOP with failure
	V one(Coh* c, const Ctx* t, Coh* origin) {
		if (in_uni) {
			return one_uni(c, t, origin);
		}
		bool any = coh_match(c, t->t, false, t);
		bool m = t->careful ? coh_match(c, t->t, true, t) : any;
		bool ok = (m != t->not_);
		if (ok) {
			found = c;
			if (t->att) { attach = c; }
			if (t->with) { with = c; }
		}
		if (ok && t->link) {
			ok = run(t->link, c, t->link->noO ? c : origin);
		}
		if (t->setmark && ok) {
			mark = c;
		}
		bool scan = t->s1 || t->sA;
		if (origin && origin == c && origin->pos != 0 && (t->off != 0 || scan)) {
			return FAIL_STOP; // never passes the cohort it came from
		}
		if (!scan) {
			return ok ? HIT : FAIL_STOP;
		}
		if (!t->not_) {
			if (ok) {
				return HIT;
			}
			if (any && t->s1) {
				return FAIL_STOP; // * settles for the first that matches
			}
			if (t->bar && coh_match(c, t->bar, false, t)) { return FAIL_STOP; }
			if (t->cbar && coh_match(c, t->cbar, true, t)) { return FAIL_STOP; }
			return FAIL_GO;
		}
		// NOT: fine as long as nothing up to the barrier matches
		if (!ok) {
			return FAIL_STOP;
		}
		if (t->bar && coh_match(c, t->bar, false, t)) { return HIT; }
		if (t->cbar && coh_match(c, t->cbar, true, t)) { return HIT; }
		return OK_GO;
	}
	bool in_uni = false; // the rule at hand has unified sets
	bool run(const Ctx* t, Coh* from, Coh* origin) {
		auto save = bind;
		bool r = run0(t, from, origin);
		if (in_uni && (!r || t->neg)) {
			bind = save;
		}
		return t->neg ? !r : r;
	}
	bool run0(const Ctx* t, Coh* from, Coh* origin) {
		if (!t->ors.empty()) {
			for (auto o : t->ors) {
				if (run(o, from, origin)) {
					return true;
				}
			}
			return false;
		}
		if (t->jmark) {
			if (!mark) {
				return false;
			}
			from = mark;
		}
		Win* w = from->w;
		int p = (int)from->pos + t->off;
		if (t->abs && (t->spL || t->spR)) {
			if (t->spL && w->prev) { w = w->prev; }
			else if (t->spR && w->next) { w = w->next; }
			else { return t->not_ && !t->link; }
		}
		if (t->abs) {
			p = t->off < 0 ? (int)w->c.size() + t->off : t->off;
		}
		if (p >= (int)w->c.size() && (t->spB || t->spR) && w->next) {
			w = w->next;
			p = 0;
		}
		else if (p < 0 && (t->spB || t->spL) && w->prev) {
			w = w->prev;
			p = (int)w->c.size() - 1;
		}
		if (p < 0 || p >= (int)w->c.size()) {
			return t->not_ && !t->link; // nothing there
		}
		Coh* c = w->c[p];
		if (t->passO) {
			origin = nullptr;
		}
		if (!t->rname.empty()) {
			return rel_test(t, c, origin);
		}
		if (!t->dep.empty()) {
			return dep_test(t, c, origin);
		}
		if (!t->s1 && !t->sA) {
			return one(c, t, origin) == HIT;
		}
		if (t->off != 0) {
			bool back = t->off < 0;
			for (;;) {
				V v = one(c, t, origin);
				if (v == HIT) { return true; }
				if (v == FAIL_STOP) { return false; }
				Coh* n = nullptr;
				if (back) {
					if (c->pos > 0) { n = c->w->c[c->pos - 1]; }
					else if (Win* x = span_prev(c->w, t)) { n = x->c.back(); }
				}
				else {
					if (c->pos + 1 < c->w->c.size()) { n = c->w->c[c->pos + 1]; }
					else if (Win* x = span_next(c->w, t)) { n = x->c[0]; }
				}
				if (!n) {
					return v == OK_GO;
				}
				c = n;
			}
		}
		// offset 0: outwards, left before right
		if (t->self) {
			V v = one(c, t, origin);
			if (v == HIT) { return true; }
		}
		Coh *l = c, *r = c;
		bool last = false;
		while (l || r) {
			if (l) {
				if (l->pos > 0) { l = l->w->c[l->pos - 1]; }
				else { Win* x = span_prev(l->w, t); l = x ? x->c.back() : nullptr; }
			}
			if (l) {
				V v = one(l, t, origin);
				if (v == HIT && !t->not_) { return true; }
				last = (v == HIT || v == OK_GO);
				if (v == FAIL_STOP) {
					l = nullptr;
					if (t->not_) { return false; }
				}
				else if (v == HIT) {
					l = nullptr;
				}
			}
			if (r) {
				if (r->pos + 1 < r->w->c.size()) { r = r->w->c[r->pos + 1]; }
				else { Win* x = span_next(r->w, t); r = x ? x->c[0] : nullptr; }
			}
			if (r) {
				V v = one(r, t, origin);
				if (v == HIT && !t->not_) { return true; }
				last = (v == HIT || v == OK_GO);
				if (v == FAIL_STOP) {
					r = nullptr;
					if (t->not_) { return false; }
				}
				else if (v == HIT) {
					r = nullptr;
				}
			}
		}
		return t->not_ ? true : (last && false);
	}
	bool tests(const Rule* r, Coh* c) {
		for (auto t : r->tests) {
			mark = c;
			if (!run(t, c, nullptr)) {
				return false;
			}
		}
		return true;
	}
#include "ref_rules.hpp"
#include "ref_dep.hpp"
#include "ref_rel.hpp"
#include "ref_unif.hpp"
};
}
