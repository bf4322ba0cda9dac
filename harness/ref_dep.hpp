// included inside ref::Interp: dependency edges and the tests that follow them
public:
	bool has_dep = false;
	bool addcohort_attach = false, allow_loops = false;
	static bool ancestor(const Coh* a, const Coh* c) { // a above c
		int k = 0;
		for (const Coh* x = c->par; x && ++k < 100; x = x->par) {
			if (x == a) {
				return true;
			}
		}
		return false;
	}
	bool join(Coh* par, Coh* child, bool loop) {
		if (is_root(child)) {
			return false;
		}
		if (!loop && !allow_loops && child->par != par && (par == child || ancestor(child, par))) {
			return false;
		}
		child->par = par;
		return true;
	}
	bool undefined = false; // something the manual leaves open has happened
	// the attachments of the input, once the windows are filled
	void resolve_deps(bool per_window = false) {
		std::vector<Coh*> v;
		for (auto w : wins) {
			for (size_t i = 1; i < w->c.size(); ++i) {
				v.push_back(w->c[i]);
			}
		}
		std::map<int, Coh*> at;
		auto flush = [&]() {
			for (auto& x : at) {
				Coh* c = x.second;
				if (c->dpar == 0) {
					c->par = c->w->c[0];
				}
				else if (c->dpar != c->dself && at.count(c->dpar)) {
					c->par = at[c->dpar];
					undefined = undefined || c->par->w != c->w; // edges between windows
				}
			}
			at.clear();
		};
		for (auto c : v) {
			if (!c->dself) {
				continue;
			}
			has_dep = true;
			if (at.count(c->dself) || (per_window && !at.empty() && at.begin()->second->w != c->w)) { // numbering starts over
				flush();
			}
			at[c->dself] = c;
		}
		flush();
	}
	static bool is_root(const Coh* c) { return c->pos == 0; }
	std::vector<Coh*> kids_of(const Coh* c) {
		std::vector<Coh*> r;
		for (auto w : wins) {
			for (auto x : w->c) {
				if (x != c && x->par == c && x->pos) {
					r.push_back(x);
				}
			}
		}
		return r;
	}
	bool can_see(const Ctx* t, const Coh* from, const Coh* to) {
		if (from->w == to->w || t->spB || always_span) {
			return true;
		}
		return to->w->no < from->w->no ? t->spL : t->spR;
	}
	struct DR {
		bool ok, bar, any;
	};
	DR dep_one(const Ctx* t, Coh* c, Coh* origin) {
		DR r;
		r.any = coh_match(c, t->t, false, t);
		bool m = t->careful ? coh_match(c, t->t, true, t) : r.any;
		r.ok = (m != t->not_);
		if (r.ok) {
			found = c;
			if (t->att) { attach = c; }
			if (t->with) { with = c; }
		}
		if (r.ok && t->link) {
			r.ok = run(t->link, c, t->link->noO ? c : origin);
		}
		if (t->setmark && r.ok) {
			mark = c;
		}
		r.bar = (t->bar && coh_match(c, t->bar, false, t)) || (t->cbar && coh_match(c, t->cbar, true, t));
		return r;
	}
	void below(Coh* c, std::vector<Coh*>& v, const Ctx* t, Coh* from) {
		for (auto k : kids_of(c)) {
			if (can_see(t, from, k) && std::find(v.begin(), v.end(), k) == v.end()) {
				v.push_back(k);
				below(k, v, t, from);
			}
		}
	}
	// children of children, down to where a barrier stops it: -1 something failed that all must pass, 1 found
	int deep(const Ctx* t, Coh* c, Coh* origin, std::set<Coh*>& seen, bool all, bool& some) {
		if (!seen.insert(c).second) {
			return 0;
		}
		for (auto k : kids_of(c)) {
			if (!can_see(t, c, k)) {
				continue;
			}
			some = true;
			DR d = dep_one(t, k, origin);
			if (all && !d.ok) { return -1; }
			if (!all && d.ok) { return 1; }
			if (!d.bar) {
				int x = deep(t, k, origin, seen, all, some);
				if (x) { return x; }
			}
		}
		return 0;
	}
	bool dep_test(const Ctx* t, Coh* from, Coh* origin) {
		int n[128] = {};
		for (char x : t->dep) {
			++n[(int)x];
		}
		bool lm = n['l'] >= 2, rm = n['r'] >= 2;
		bool left = n['l'] % 2, right = n['r'] % 2;
		bool lorr = n['l'] || n['r'];
		bool scan = t->s1 || t->sA;
		std::vector<Coh*> v;
		bool stop_first = false; // p* settles for the first that matches
		bool barriers = false;
		if (n['p'] == 1) {
			std::set<Coh*> seen{ from };
			for (Coh* c = from; c->par && can_see(t, c, c->par) && seen.insert(c->par).second;) {
				Coh* p = c->par;
				if ((left && !before(p, c)) || (right && !before(c, p))) {
					break;
				}
				v.push_back(p);
				c = p;
				if (!scan) {
					break;
				}
			}
			stop_first = t->s1;
			barriers = true;
			if (t->self) {
				v.insert(v.begin(), from);
			}
		}
		else if (n['c'] == 1 && scan) {
			std::set<Coh*> seen;
			bool some = false;
			if (t->self) {
				DR d = dep_one(t, from, origin);
				some = true;
				if (t->all && !d.ok) { return false; }
				if (!t->all && d.ok) { return !t->none; }
				if (d.bar && !t->nobar) {
					return t->none || t->all;
				}
			}
			int x = deep(t, from, origin, seen, t->all, some);
			if (t->all) {
				return x == 0 && some;
			}
			return (x == 1) != t->none;
		}
		else {
			if (n['p'] == 2) {
				for (Coh* c = from; c->par && can_see(t, from, c->par) && std::find(v.begin(), v.end(), c->par) == v.end(); c = c->par) {
					v.push_back(c->par);
				}
			}
			else if (n['c'] == 2) {
				below(from, v, t, from);
			}
			else if (n['c'] == 1) {
				v = kids_of(from);
			}
			else if (n['s']) {
				if (from->par) {
					v = kids_of(from->par);
					v.erase(std::remove(v.begin(), v.end(), from), v.end());
				}
			}
			std::sort(v.begin(), v.end(), before);
			std::vector<Coh*> o;
			for (auto c : v) {
				if ((left && !before(c, from)) || (right && !before(from, c))) {
					continue;
				}
				if ((n['c'] == 1 || n['s']) && !can_see(t, from, c)) {
					continue;
				}
				o.push_back(c);
			}
			v = o;
			if (t->self) {
				if (n['p'] == 2 || n['c'] == 2 || lorr) {
					v.push_back(from);
					std::sort(v.begin(), v.end(), before);
				}
				else {
					v.insert(v.begin(), from);
				}
			}
			if (rm) {
				std::reverse(v.begin(), v.end());
			}
			(void)lm;
		}
		if (v.empty()) {
			return t->none || (t->not_ && !t->link);
		}
		for (auto c : v) {
			DR d = dep_one(t, c, origin);
			if (t->all && !d.ok) { return false; }
			if (!t->all && d.ok) { return !t->none; }
			if (stop_first && d.any && !t->all) { break; }
			if (barriers && d.bar && !(c == from && t->nobar)) { break; }
		}
		return t->all || t->none;
	}
