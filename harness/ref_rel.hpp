// included inside ref::Interp: named relations and the tests that follow them
public:
	bool has_rel = false;
	// the relations of the input, once every cohort is there
	void resolve_rels(const std::map<int, Coh*>& at, const std::vector<std::pair<Coh*, std::pair<Str, int>>>& rels) {
		for (auto& x : at) {
			x.second->related = true;
			has_rel = true;
		}
		for (auto& x : rels) {
			has_rel = true;
			x.first->related = true;
			auto it = at.find(x.second.second);
			if (it != at.end()) {
				x.first->rels[x.second.first].insert(it->second);
			}
		}
	}
	void relate(Coh* c) {
		c->related = true;
		for (auto r : c->rd) {
			r->noprint = false;
		}
	}
	bool rel_test(const Ctx* t, Coh* from, Coh* origin) {
		int n[128] = {};
		for (char x : t->dep) {
			++n[(int)x];
		}
		std::vector<Coh*> v;
		for (auto& x : from->rels) {
			if (t->rname == "*" || t->rname == x.first) {
				for (auto c : x.second) {
					if (!c->removed && std::find(v.begin(), v.end(), c) == v.end()) {
						v.push_back(c);
					}
				}
			}
		}
		std::sort(v.begin(), v.end(), before);
		std::vector<Coh*> o;
		for (auto c : v) {
			if ((n['l'] % 2 && !before(c, from)) || (n['r'] % 2 && !before(from, c))) {
				continue;
			}
			o.push_back(c);
		}
		if (t->self && std::find(o.begin(), o.end(), from) == o.end()) {
			o.push_back(from);
			std::sort(o.begin(), o.end(), before);
		}
		if (!o.empty() && n['l'] >= 2) {
			o = { o.front() };
		}
		else if (!o.empty() && n['r'] >= 2) {
			o = { o.back() };
		}
		bool any = false;
		for (auto c : o) {
			DR d = dep_one(t, c, origin);
			if (t->all && !d.ok) { return false; }
			any = true;
			if (!t->all && d.ok) { return !t->none; }
		}
		return t->none || (t->all && any);
	}
	void print_rels(Str& o, const Coh* c) {
		if (!c->related) {
			return;
		}
		o += " ID:" + std::to_string(c->id);
		for (auto& x : c->rels) {
			std::vector<uint32_t> ids;
			for (auto t : x.second) {
				ids.push_back(t->id);
			}
			std::sort(ids.begin(), ids.end());
			for (auto i : ids) {
				o += " R:" + x.first + ":" + std::to_string(i);
			}
		}
	}
