// included inside ref::Interp: sets marked with $$ and &&
public:
	struct Bind { Str key, val; };
	std::vector<Bind> bind;
	static bool unifies(const Set* s) {
		if (!s) {
			return false;
		}
		if (s->k == Set::TUNI || s->k == Set::SUNI) {
			return true;
		}
		for (auto p : s->parts) {
			if (unifies(p)) {
				return true;
			}
		}
		return false;
	}
	static bool unifies(const Ctx* t) {
		if (!t) {
			return false;
		}
		for (auto o : t->ors) {
			if (unifies(o)) {
				return true;
			}
		}
		return unifies(t->t) || unifies(t->bar) || unifies(t->cbar) || unifies(t->link);
	}
	static bool unifies(const Rule* r) {
		bool u = unifies(r->target) || (!r->a.empty() && r->a[0].compare(0, 2, "$$") == 0) || (!r->b.empty() && r->b[0].compare(0, 2, "$$") == 0);
		for (auto t : r->tests) {
			u = u || unifies(t);
		}
		return u;
	}
	static void put(Strs& v, const Str& x) {
		for (auto& y : v) {
			if (eq(x, y)) {
				return;
			}
		}
		v.push_back(x);
	}
	// the ways in which a reading satisfies a set: the tags that do it
	void ways(const Rd* r, const Set* s, Strs& v, bool& ff) {
		switch (s->k) {
		case Set::ANY:
			v.push_back("*");
			return;
		case Set::LIST:
			for (auto& c : s->comps) {
				if (c.size() == 1 && c[0].ff && is_tag(r, c[0].t)) {
					return;
				}
			}
			for (auto& c : s->comps) {
				if (c.size() == 1 && c[0].ff) {
					continue;
				}
				if (c.size() == 1 && c[0].t == "\".*\"r") {
					put(v, r->tags[0]);
				}
				else if (c.size() == 1 && c[0].t == "\"<.*>\"r") {
					put(v, r->c->wf);
				}
				else if (c.size() == 1 && c[0].t == "<.*>r") {
					for (auto& t : r->tags) {
						if (t[0] == '<') {
							put(v, t);
						}
					}
				}
				else if (comp_match(r, c)) {
					Strs e; // composites are the same whatever their order
					for (auto& x : c) {
						e.push_back(x.t);
					}
					std::sort(e.begin(), e.end());
					Str t;
					for (auto& x : e) {
						t += (t.empty() ? "" : " ") + x;
					}
					put(v, t);
				}
			}
			return;
		case Set::OP: {
			size_t n = s->parts.size();
			for (size_t i = 0; i < n; ++i) {
				Strs a;
				bool stop = false;
				ways(r, s->parts[i], a, ff);
				for (; i + 1 < n && s->ops[i] != '|'; ++i) {
					Strs b, ab;
					ways(r, s->parts[i + 1], b, ff);
					if (s->ops[i] == '+') {
						for (auto& x : a) {
							for (auto& y : b) {
								put(ab, x + "&" + y);
							}
						}
						a = ab;
					}
					else if (!b.empty()) {
						a.clear();
						stop = stop || s->ops[i] == '^';
					}
				}
				for (auto& x : a) {
					put(v, x);
				}
				if (stop) {
					return;
				}
			}
			return;
		}
		default:
			if (match(r, s)) {
				v.push_back("+");
			}
		}
	}
	bool match_uni(const Rd* r, const Set* s) {
		Strs w;
		Str key = (s->k == Set::TUNI ? "$$" : "&&") + s->name;
		if (s->k == Set::TUNI) {
			bool ff = false;
			ways(r, s->parts[0], w, ff);
		}
		else {
			const Set* p = s->parts[0];
			for (size_t i = 0; i < p->parts.size(); ++i) {
				if (match(r, p->parts[i])) {
					w.push_back(Str(1, (char)('0' + i)));
				}
			}
		}
		if (s->k == Set::SUNI) { // the members that match it here and in all earlier uses
			Str m;
			for (auto& x : w) {
				m += x;
			}
			for (auto& b : bind) {
				if (b.key == key) {
					Str n;
					for (char x : b.val) {
						if (m.find(x) != Str::npos) {
							n += x;
						}
					}
					if (!n.empty()) {
						b.val = n;
					}
					return !n.empty();
				}
			}
			if (!m.empty()) {
				bind.push_back({ key, m });
			}
			return !m.empty();
		}
		for (auto& b : bind) {
			if (b.key == key) {
				for (auto& x : w) {
					if (eq(x, b.val)) {
						return true;
					}
				}
				return false;
			}
		}
		if (w.empty()) {
			return false;
		}
		sxapi_assume(w.size() == 1); // which of several is the first is not said
		bind.push_back({ key, w[0] });
		return true;
	}
	// a test with bindings: each reading of the cohort is tried on its own
	V one_uni(Coh* c, const Ctx* t, Coh* origin) {
		std::vector<Rd*> v;
		lists(c, t, v);
		auto save = bind;
		bool any = false, ok = false;
		if (t->not_) {
			bool all = !v.empty();
			for (auto r : v) {
				bool m = match(r, t->t);
				any = any || m;
				all = all && m;
				if (!t->careful) {
					bind = save;
				}
			}
			bind = save;
			ok = !(t->careful ? all : any) && (!t->link || run(t->link, c, t->link->noO ? c : origin));
		}
		else if (t->careful) {
			ok = !v.empty();
			for (auto r : v) {
				bool m = match(r, t->t);
				any = any || m;
				ok = ok && m;
				if (!ok) {
					break;
				}
			}
			ok = ok && (!t->link || run(t->link, c, t->link->noO ? c : origin));
		}
		else {
			for (auto r : v) {
				if (match(r, t->t)) {
					any = true;
					if (!t->link || run(t->link, c, t->link->noO ? c : origin)) {
						ok = true;
						break;
					}
				}
				bind = save;
			}
		}
		if (!ok) {
			bind = save;
		}
		bool scan = t->s1 || t->sA;
		if (origin && origin == c && origin->pos != 0 && (t->off != 0 || scan)) {
			return FAIL_STOP;
		}
		if (!scan) {
			return ok ? HIT : FAIL_STOP;
		}
		if (!t->not_) {
			if (ok) {
				return HIT;
			}
			if (any && t->s1) {
				return FAIL_STOP;
			}
			if (t->bar && coh_match(c, t->bar, false, t)) { return FAIL_STOP; }
			if (t->cbar && coh_match(c, t->cbar, true, t)) { return FAIL_STOP; }
			bind = save;
			return FAIL_GO;
		}
		if (!ok) {
			return FAIL_STOP;
		}
		if (t->bar && coh_match(c, t->bar, false, t)) { return HIT; }
		if (t->cbar && coh_match(c, t->cbar, true, t)) { return HIT; }
		return OK_GO;
	}
	// what a list contributes to an edit of the reading whose bindings are in force
	void expand(Strs& v) {
		if (v.size() == 1 && v[0].compare(0, 2, "$$") == 0) {
			Str k = v[0];
			v.clear();
			for (auto& b : bind) {
				if (b.key == k) {
					for (auto& x : strs(b.val)) {
						v.push_back(x);
					}
				}
			}
		}
		for (auto& t : v) { // varstrings
			for (;;) {
				size_t a = t.find("{$$"), b = t.find('}', a == Str::npos ? 0 : a);
				if (a == Str::npos || b == Str::npos) {
					break;
				}
				Str k = t.substr(a + 1, b - a - 1), x;
				for (auto& y : bind) {
					if (y.key == k) {
						x = y.val;
					}
				}
				for (auto& ch : x) {
					if (ch == ' ') { ch = '_'; }
				}
				t = t.substr(0, a) + x + t.substr(b + 1);
			}
			if (t.size() > 3 && t.compare(t.size() - 2, 2, ">v") == 0) {
				t.pop_back();
			}
		}
	}
	static Strs strs(const Str& s) {
		Strs r(1);
		for (char c : s) {
			if (c == ' ') { r.emplace_back(); }
			else { r.back() += c; }
		}
		return r;
	}
	// rules with bindings: every reading has its own
	bool uni_rule(const Rule* r, Coh* c, std::vector<Rd*>& hit, std::vector<Rd*>& miss, std::vector<Rd*>& rest, std::vector<std::vector<Bind>>& binds) {
		for (auto x : c->rd) {
			bind.clear();
			if ((x->mapped && (r->type == "MAP" || r->type == "ADD" || r->type == "REPLACE")) || !match(x, r->target)) {
				rest.push_back(x);
				continue;
			}
			if (tests(r, c)) {
				hit.push_back(x);
				binds.push_back(bind);
			}
			else {
				miss.push_back(x);
				rest.push_back(x);
			}
		}
		bind.clear();
		return true;
	}
