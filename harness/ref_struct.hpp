// Rules that change which cohorts a window holds, and where
#pragma once
#include "ref.hpp"
namespace ref {
struct Structure {
	static bool is(const Str& t) {
		return t == "ADDCOHORT" || t == "REMCOHORT" || t == "SPLITCOHORT" || t == "MERGECOHORTS" || t == "COPYCOHORT" || t == "MOVE" || t == "SWITCH" || t == "DELIMIT";
	}
	static bool is_dep(const Str& t) { return t == "SETPARENT" || t == "SETCHILD" || t == "REMPARENT" || t == "SWITCHPARENT"; }
	static bool is_rel(const Str& t) { return t.find("RELATION") != Str::npos; }
	static bool is_wf(const Str& t) { return t.size() > 3 && t[0] == '"' && t[1] == '<'; }
	static bool hits(Interp& I, const Rule* r, Coh* c) {
		if (!r->wf.empty() && !eq(c->wf, r->wf)) {
			return false;
		}
		for (auto x : c->rd) {
			if (!x->immut && I.match(x, r->target)) {
				return I.tests(r, c);
			}
		}
		return false;
	}
	template<typename T>
	static size_t at(const std::vector<T*>& v, const T* c) {
		for (size_t i = 0; i < v.size(); ++i) {
			if (v[i] == c) {
				return i;
			}
		}
		return v.size();
	}
	static void ends(Win* w) {
		for (auto c : w->c) {
			Interp::del_extra(c, "<<<");
		}
		Interp::add_extra(w->c.back(), "<<<");
		w->renum();
	}
	static void take(Win* w, Coh* c) {
		w->c.erase(w->c.begin() + at(w->c, c));
		w->renum();
	}
	static void drop(Win* w, Coh* c) {
		c->removed = true;
		for (auto x : w->c) {
			if (x->par == c) { // its children go to its parent
				x->par = c->par ? c->par : w->c[0];
			}
		}
		take(w, c);
	}
	// beside is in the window; the new one goes right before or right after it
	static void put(Win* w, Coh* n, Coh* beside, bool after) {
		w->c.insert(w->c.begin() + at(w->c, beside) + after, n);
		w->all.insert(w->all.begin() + at(w->all, beside) + after, n);
		w->renum();
	}
	// the cohorts of a recipe; star is what * stands for
	static std::vector<Coh*> make(Interp& I, Win* w, const Strs& tags, const Rd* star, std::vector<std::pair<size_t, Str>>* edges = nullptr) {
		std::vector<Coh*> v;
		std::vector<std::vector<Strs>> rs;
		for (auto& t : tags) {
			if (is_wf(t)) {
				v.push_back(I.new_coh(w, t));
				rs.emplace_back();
			}
			else if (Interp::is_base(t)) {
				rs.back().push_back({ t });
			}
			else if (t == "*") {
				for (size_t i = 1; i < star->tags.size(); ++i) {
					rs.back().back().push_back(star->tags[i]);
				}
				if (!star->map.empty()) {
					rs.back().back().push_back(star->map);
				}
			}
			else if (t.find("->") != Str::npos) {
				if (edges) {
					edges->push_back({ v.size() - 1, t });
				}
			}
			else if (t.compare(0, 2, "R:") != 0) {
				rs.back().back().push_back(t);
			}
		}
		for (size_t i = 0; i < v.size(); ++i) {
			for (auto& ts : rs[i]) {
				Rd* n = I.new_rd(v[i]);
				I.put(v[i], n, ts, 0, false);
				v[i]->rd.push_back(n);
			}
		}
		return v;
	}
	// a cohort, its children that match, and all that hangs below those; in the order of the text
	static std::vector<Coh*> subtree(Interp& I, Win* w, Coh* c, const Set* kids) {
		std::vector<Coh*> v;
		for (auto x : w->c) {
			bool in = x == c;
			for (Coh* y = x; !in && kids && y && y->par && y != c; y = y->par) {
				in = y->par == c && I.coh_match(y, kids, false, &plain());
			}
			if (in) {
				v.push_back(x);
			}
		}
		return v;
	}
	static const Ctx& plain() {
		static Ctx t;
		return t;
	}
	static Coh* group(Interp& I, Win* w, Coh* c, const Set* kids, bool first) {
		auto v = subtree(I, w, c, kids);
		return first ? v.front() : v.back();
	}
	// the edges of the cohorts a split makes
	static void chain(Interp& I, Win* w, Coh* c, std::vector<Coh*>& v, std::vector<std::pair<size_t, Str>>& es) {
		std::vector<int> par(v.size());
		size_t heir = v.size() - 1;
		for (size_t i = 0; i < v.size(); ++i) {
			par[i] = (int)i; // number of the parent, 1..; 0 is that of the old cohort
		}
		for (auto& e : es) {
			size_t k = e.second.find("->");
			Str a = e.second.substr(0, k), b = e.second.substr(k + 2);
			if (a == "c") { heir = e.first; }
			par[e.first] = b == "p" ? 0 : atoi(b.c_str());
		}
		if (!I.has_dep) {
			return;
		}
		for (size_t i = 0; i < v.size(); ++i) {
			v[i]->par = par[i] ? v[par[i] - 1] : c->par;
		}
		for (auto x : w->c) {
			if (x->par == c) {
				x->par = v[heir];
			}
		}
	}
	static bool act_dep(Interp& I, const Rule* r, Win* w, Coh* c) {
		const Str& t = r->type;
		if (t == "REMPARENT") {
			if (!c->par) {
				return false;
			}
			c->par = nullptr;
			return true;
		}
		if (t == "SWITCHPARENT") {
			if (!c->par) {
				return false;
			}
			Coh* p = c->par;
			if (I.is_root(p)) {
				return false;
			}
			c->par = p->par;
			p->par = c;
			for (auto x : w->c) {
				if (x != c && x->par == p && r->ch1 && I.coh_match(x, r->ch1, false, &plain())) {
					x->par = c;
				}
			}
			return true;
		}
		// SETPARENT and SETCHILD
		if (c->par && (r->flag("NOPARENT") || (r->flag("SAFE") && t == "SETPARENT"))) {
			return false;
		}
		std::set<Coh*> seen{ c };
		Ctx pos = *r->dpos;
		bool scan = pos.s1 || pos.sA || pos.dep == "pp" || pos.dep == "cc";
		for (Coh* cur = c;;) {
			I.attach = I.found = nullptr;
			I.mark = cur;
			if (!I.run(&pos, cur, nullptr) || !I.found) {
				return false;
			}
			Coh* to = I.attach ? I.attach : I.found;
			bool bar = (pos.bar && I.coh_match(to, pos.bar, false, &plain())) || (pos.cbar && I.coh_match(to, pos.cbar, true, &plain()));
			for (auto x : r->dtests) {
				I.mark = to;
				if (!I.run(x, to, nullptr)) {
					I.undefined = scan; // silent about what comes next
					return false;
				}
			}
			I.has_dep = true;
			if (I.join(t == "SETPARENT" ? to : c, t == "SETPARENT" ? c : to, r->flag("ALLOWLOOP"))) {
				return true;
			}
			if (!scan) {
				I.undefined = true;
				return false;
			}
			if (bar || r->flag("NEAREST") || !seen.insert(to).second) {
				return false;
			}
			cur = to;
			if (pos.off) {
				pos.off = pos.off < 0 ? -1 : 1;
			}
		}
	}
	static bool act_rel(Interp& I, const Rule* r, Coh* c) {
		I.attach = I.found = nullptr;
		I.mark = c;
		if (!I.run(r->dpos, c, nullptr) || !I.found) {
			return false;
		}
		Coh* to = I.attach ? I.attach : I.found;
		for (auto x : r->dtests) {
			I.mark = to;
			if (!I.run(x, to, nullptr)) {
				I.undefined = true; // silent about what comes next
				return false;
			}
		}
		I.has_rel = true;
		if (r->flag("REVERSE")) {
			std::swap(c, to);
		}
		bool both = r->type.back() == 'S', did = false;
		Str what = r->type.substr(0, 3);
		for (int k = 0; k < (both ? 2 : 1); ++k) {
			for (auto& n : k ? r->b : r->a) {
				auto before = c->rels[n];
				if (what != "REM") {
					I.relate(c);
					if (!both) {
						I.relate(to);
					}
				}
				if (what == "SET") {
					c->rels[n].clear();
				}
				if (what == "REM") {
					c->rels[n].erase(to);
				}
				else {
					c->rels[n].insert(to);
				}
				did = did || before != c->rels[n];
			}
			std::swap(c, to);
		}
		return did;
	}
	static bool act(Interp& I, const Rule* r, Win* w, Coh* c, size_t& next) {
		if (is_rel(r->type)) {
			return act_rel(I, r, c);
		}
		if (is_dep(r->type)) {
			return act_dep(I, r, w, c);
		}
		const Str& t = r->type;
		if (t == "ADDCOHORT") {
			Coh* n = make(I, w, r->a, c->rd[0])[0];
			if (I.addcohort_attach) {
				n->par = c;
				I.has_dep = true;
			}
			Coh* beside = group(I, w, c, r->ch1, !r->flag("AFTER"));
			put(w, n, beside, r->flag("AFTER"));
			next = c->pos + 1;
		}
		else if (t == "REMCOHORT") {
			next = c->pos;
			if (r->flag("IGNORED")) {
				take(w, c);
			}
			else {
				drop(w, c);
			}
		}
		else if (t == "SPLITCOHORT") {
			const Rd* star = nullptr;
			for (auto x : c->rd) {
				if (!star) {
					star = x;
				}
			}
			std::vector<std::pair<size_t, Str>> es;
			auto v = make(I, w, r->a, star, &es);
			chain(I, w, c, v, es);
			Coh* p = c;
			for (auto n : v) {
				put(w, n, p, true);
				p = n;
			}
			std::swap(v.back()->text, c->text);
			drop(w, c);
			next = v.back()->pos + 1;
			ends(w);
			next = v[0]->pos;
		}
		else if (t == "MERGECOHORTS") {
			std::vector<Coh*> gone{ c };
			Coh* spot = c;
			for (auto x : r->dtests) {
				I.attach = I.with = I.found = nullptr;
				I.mark = c;
				if (!I.run(x, c, nullptr) || !I.found) {
					return false;
				}
				if (I.attach) {
					spot = I.attach;
				}
				Coh* g = I.with ? I.with : I.attach ? nullptr : I.found;
				if (g && at(gone, g) == gone.size()) {
					gone.push_back(g);
				}
			}
			Coh* n = make(I, w, r->a, spot->rd[0])[0];
			if (I.has_dep && !r->flag("DETACH")) {
				if (!c->par || at(gone, c->par) != gone.size()) {
					I.undefined = true;
				}
				n->par = c->par;
				for (auto x : w->c) {
					if (x->par && at(gone, x->par) != gone.size() && at(gone, x) == gone.size()) {
						if (n->par == x || I.ancestor(x, n)) {
							I.undefined = true;
						}
						x->par = n;
					}
				}
			}
			put(w, n, spot, true);
			for (auto x : gone) {
				drop(w, x);
			}
			next = n->pos + 1;
		}
		else if (t == "DELIMIT") {
			if (c->pos + 1 >= w->c.size()) {
				return false;
			}
			Win* n = new Win;
			n->prev = w;
			n->next = w->next;
			if (w->next) {
				w->next->prev = n;
			}
			w->next = n;
			I.wins.insert(I.wins.begin() + at(I.wins, w) + 1, n);
			for (size_t i = 0; i < I.wins.size(); ++i) {
				I.wins[i]->no = (uint32_t)i + 1;
			}
			Coh* s = I.new_coh(n, ">>>");
			Rd* x = I.new_rd(s);
			x->extra.push_back(">>>");
			s->rd.push_back(x);
			n->c.push_back(s);
			n->all.push_back(s);
			n->c.insert(n->c.end(), w->c.begin() + c->pos + 1, w->c.end());
			w->c.resize(c->pos + 1);
			size_t k = at(w->all, c) + 1;
			n->all.insert(n->all.end(), w->all.begin() + k, w->all.end());
			w->all.resize(k);
			n->renum();
			ends(w);
			I.delimited = true;
		}
		else {
			Coh* me = c;
			I.attach = nullptr;
			I.found = nullptr;
			if (!I.run(r->dpos, c, nullptr) || !I.found) {
				return false;
			}
			Coh* to = I.attach ? I.attach : I.found;
			for (auto x : r->dtests) {
				I.mark = to;
				if (!I.run(x, to, nullptr)) {
					return false;
				}
			}
			if (me == to || (t != "COPYCOHORT" && to->w != w)) {
				return false;
			}
			if (r->flag("REVERSE")) {
				std::swap(me, to);
			}
			if (t == "COPYCOHORT") {
				Coh* n = I.new_coh(to->w, me->wf);
				for (auto x : me->rd) {
					Rd* y = I.new_rd(n);
					Strs ts = x->tags;
					if (x->nobase) {
						ts.clear();
					}
					if (!x->map.empty()) {
						ts.push_back(x->map);
					}
					for (auto& q : r->a) {
						if (q != "*") {
							ts.push_back(q);
						}
					}
					I.put(n, y, ts, 0, false);
					for (auto& q : r->b) {
						Interp::drop_tag(y, q);
					}
					n->rd.push_back(y);
				}
				Coh* beside = group(I, to->w, to, r->ch2, r->flag("BEFORE"));
				if (I.has_dep) {
					n->par = beside;
				}
				put(to->w, n, beside, !r->flag("BEFORE") || beside->pos == 0);
				next = c->pos + 1;
			}
			else if (me->pos == 0 || (to->pos == 0 && t == "SWITCH")) {
				return false;
			}
			else if (t == "SWITCH") {
				std::swap(w->c[me->pos], w->c[to->pos]);
				std::swap(w->all[at(w->all, me)], w->all[at(w->all, to)]);
				// <<< stays with the cohort that had it
				w->renum();
				return true;
			}
			else {
				auto was = w->c;
				auto go = subtree(I, w, me, r->ch1), near = subtree(I, w, to, r->ch2);
				auto& lose = I.ancestor(to, me) ? near : go;
				auto& keep = &lose == &near ? go : near;
				for (auto x : keep) {
					if (at(lose, x) != lose.size()) {
						lose.erase(lose.begin() + at(lose, x));
					}
				}
				if (go.empty() || near.empty()) {
					return false;
				}
				for (auto x : go) {
					take(w, x);
					w->all.erase(w->all.begin() + at(w->all, x));
				}
				bool aft = to->pos == 0 || !r->flag("BEFORE");
				Coh* spot = aft ? near.back() : near.front();
				for (size_t i = 0; i < go.size(); ++i) {
					put(w, go[i], spot, aft || i);
					spot = go[i];
				}
				w->renum();
				return was != w->c;
			}
		}
		ends(w);
		return true;
	}
	int operator()(Interp& I, const Rule* r, Win* w) const {
		if (!is(r->type) && !is_dep(r->type) && !is_rel(r->type)) {
			return -1;
		}
		bool ch = false;
		if (r->type == "MOVE" || r->type == "SWITCH") {
			// each cohort once, as they stood
			auto v = w->c;
			for (size_t i = 1; i < v.size(); ++i) {
				size_t n = 0;
				if (I.try_once(r, v[i]) && hits(I, r, v[i]) && act(I, r, w, v[i], n)) {
					ch = true;
				}
			}
			return ch;
		}
		for (size_t i = 1, k = 0; i < w->c.size() && ++k < 60;) {
			size_t n = i + 1;
			if (I.try_once(r, w->c[i]) && hits(I, r, w->c[i]) && act(I, r, w, w->c[i], n)) {
				ch = true;
				I.tried.clear();
				if (I.delimited) {
					break;
				}
			}
			i = n;
		}
		return ch;
	}
};
}
