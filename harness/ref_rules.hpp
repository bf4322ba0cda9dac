// included inside ref::Interp: how rules act on windows
public:
	static bool is_map(const Str& t) { return !t.empty() && t[0] == '@'; }
	static bool is_base(const Str& t) { return t.size() > 1 && t[0] == '"' && t[1] != '<'; }
	static bool set_eq_plain(const Rd* a, const Rd* b) {
		auto in = [](const Strs& v, const Str& x) {
			for (auto& y : v) {
				if (eq(x, y)) {
					return true;
				}
			}
			return false;
		};
		for (auto& x : a->tags) {
			if (!in(b->tags, x)) {
				return false;
			}
		}
		for (auto& x : b->tags) {
			if (!in(a->tags, x)) {
				return false;
			}
		}
		return a->extra == b->extra; // the marks of the window's edges count as tags
	}
	Rd* new_rd(Coh* c) {
		Rd* r = new Rd;
		r->c = c;
		r->num = (uint32_t)(c->rd.size() * 1000 + 1000);
		return r;
	}
	// mapping tags become one reading each
	void split(Coh* c, Rd* r, Strs maps, bool mapped) {
		if (!r->map.empty()) {
			maps.push_back(r->map);
			r->map.clear();
		}
		if (maps.empty()) {
			return;
		}
		Str last = maps.back();
		maps.pop_back();
		size_t k = maps.size();
		for (auto& m : maps) {
			bool dup = false;
			for (auto o : c->rd) {
				if (!o->map.empty() && eq(o->map, m) && set_eq_plain(o, r)) {
					dup = true;
				}
			}
			if (dup) {
				continue;
			}
			Rd* n = new Rd(*r);
			n->mapped = mapped;
			n->immut = false;
			n->num = (uint32_t)(r->num - k--);
			n->map = m;
			c->rd.push_back(n);
		}
		r->mapped = mapped;
		r->map = last;
	}
	Coh* new_coh(Win* w, const Str& wf) {
		Coh* c = new Coh;
		c->wf = wf;
		c->w = w;
		c->id = ids++;
		return c;
	}
	void magic(Coh* c) {
		Rd* r = new_rd(c);
		r->tags.push_back(c->wf.substr(0, 1) + c->wf.substr(2, c->wf.size() - 4) + c->wf.substr(c->wf.size() - 1));
		r->noprint = true;
		r->nobase = true;
		c->rd.push_back(r);
	}
	// in input order; tags starting with @ are mapping tags
	Rd* add_reading(Coh* c, const Strs& tags) {
		Rd* r = new_rd(c);
		Strs maps;
		for (auto& t : tags) {
			if (is_map(t)) { maps.push_back(t); }
			else { r->tags.push_back(t); }
		}
		c->rd.push_back(r);
		pending.push_back(std::make_pair(r, maps));
		return r;
	}
	std::vector<std::pair<Rd*, Strs>> pending;
	void finish_cohort(Coh* c) {
		for (auto& p : pending) {
			if (!p.second.empty()) {
				split(c, p.first, p.second, true);
			}
		}
		bool any = false;
		for (auto& p : pending) {
			any = any || !p.second.empty();
		}
		pending.clear();
		if (any) {
			std::stable_sort(c->rd.begin(), c->rd.end(), [](Rd* a, Rd* b) { return a->num < b->num; });
		}
		if (c->rd.empty()) {
			magic(c);
		}
	}
	Win* new_win() {
		Win* w = new Win;
		w->no = (uint32_t)wins.size() + 1;
		Coh* c = new_coh(w, ">>>");
		Rd* r = new_rd(c);
		r->extra.push_back(">>>");
		c->rd.push_back(r);
		w->c.push_back(c);
		w->all.push_back(c);
		if (!wins.empty()) {
			wins.back()->next = w;
			w->prev = wins.back();
		}
		wins.push_back(w);
		return w;
	}
	static void add_extra(Coh* c, const char* t) {
		for (auto r : c->rd) {
			bool f = false;
			for (auto& x : r->extra) {
				f = f || x == t;
			}
			if (!f) {
				r->extra.push_back(t);
			}
		}
	}
	static void del_extra(Coh* c, const char* t) {
		for (auto r : c->rd) {
			for (size_t i = 0; i < r->extra.size(); ++i) {
				if (r->extra[i] == t) {
					r->extra.erase(r->extra.begin() + i--);
				}
			}
		}
	}
	static bool has_extra(Coh* c, const char* t) {
		for (auto& x : c->rd[0]->extra) {
			if (x == t) {
				return true;
			}
		}
		return false;
	}
	void close_win(Win* w) {
		add_extra(w->c.back(), "<<<");
		w->renum();
	}

	// ---- one rule over a window
	Strs fire; // names of the rules that changed something, in order
	static void drop_tag(Rd* r, const Str& t) {
		for (size_t i = 0; i < r->tags.size();) {
			if (eq(r->tags[i], t)) {
				r->tags.erase(r->tags.begin() + i);
			}
			else {
				++i;
			}
		}
		if (!r->map.empty() && eq(r->map, t)) {
			r->map.clear();
		}
	}
	void put(Coh* c, Rd* r, const Strs& tags, size_t at, bool mapped) {
		Strs maps;
		for (auto& t : tags) {
			if (is_map(t)) { maps.push_back(t); }
			else {
				r->tags.insert(r->tags.begin() + at, t);
				++at;
			}
		}
		if (!maps.empty()) {
			split(c, r, maps, mapped);
		}
	}
	// where the tags of a rule with BEFORE or AFTER go: next to the whole run of tags, or last
	static size_t place(const Rule* r, const Rd* x) {
		size_t n = x->tags.size(), k = r->spot.size();
		if (k) {
			for (size_t i = 0; i + k <= n; ++i) {
				bool f = true;
				for (size_t j = 0; j < k && f; ++j) {
					f = eq(x->tags[i + j], r->spot[j]);
				}
				if (f) {
					return r->flag("AFTER") ? i + k : i;
				}
			}
		}
		return n;
	}
	static bool changed_tags(const Rd* r, const Rd& o) {
		return !set_eq_plain(r, &o) || !eq(r->map, o.map);
	}
	bool act(const Rule* r, Coh* c, std::vector<Rd*>& hit, std::vector<Rd*>& rest) {
		const Str& t = r->type;
		bool ch = false;
		if (t == "SELECT" || t == "REMOVE") {
			std::vector<Rd*>& keep = t == "SELECT" ? hit : rest;
			std::vector<Rd*>& drop = t == "SELECT" ? rest : hit;
			auto& to = r->flag("DELAYED") ? c->delayed : r->flag("IGNORED") ? c->ign : c->del;
			to.insert(to.end(), drop.begin(), drop.end());
			c->rd = keep;
			if (c->rd.empty()) {
				magic(c);
			}
			return true;
		}
		for (auto h : hit) {
			Rd was = *h;
			if (t == "ADD" || t == "MAP") {
				h->noprint = false;
				put(c, h, r->a, place(r, h), t == "MAP");
				if (t == "MAP") {
					h->mapped = true;
				}
				ch = ch || changed_tags(h, was);
			}
			else if (t == "REPLACE") {
				Str base = h->tags.empty() ? Str() : h->tags[0];
				h->noprint = false;
				h->tags.clear();
				h->map.clear();
				h->extra.clear();
				bool nb = false;
				for (auto& x : r->a) {
					nb = nb || is_base(x);
				}
				if (!nb) {
					h->tags.push_back(base);
				}
				put(c, h, r->a, h->tags.size(), true);
				ch = ch || changed_tags(h, was);
			}
			else if (t == "SUBSTITUTE") {
				// the tags that are there go; the new ones stand where the last of them stood
				Strs& T = h->tags;
				if (r->a.size() == 1 && r->a[0].size() > 2 && r->a[0][1] == '<') {
					// the word form of the cohort
					if (eq(c->wf, r->a[0]) && r->b.size() == 1 && r->b[0].size() > 2 && r->b[0][1] == '<') {
						c->wf = r->b[0];
						ch = true;
					}
					continue;
				}
				bool any_star = r->a.size() == 1 && r->a[0] == "*";
				bool is_star = r->b.size() == 1 && r->b[0] == "*";
				size_t at = std::string::npos;
				if (any_star) {
					at = T.size();
				}
				else {
					Strs present;
					for (auto& x : r->a) {
						if (has_tag(h, x)) {
							present.push_back(x);
						}
					}
					Strs out, put_;
					size_t n = 0;
					std::vector<size_t> spots;
					for (auto& x : r->b) {
						if (!is_map(x) && !is_star) {
							put_.push_back(x);
						}
					}
					for (auto& x : T) {
						bool gone = false;
						for (auto& p : present) {
							gone = gone || eq(x, p);
						}
						if (gone) {
							// a tag standing there twice is replaced twice
							if (present.size() == 1 && !spots.empty()) {
								out.insert(out.begin() + spots.back(), put_.begin(), put_.end());
								n = out.size();
							}
							spots.push_back(n);
						}
						else {
							out.push_back(x);
							++n;
						}
					}
					if (spots.empty() && !h->map.empty()) {
						bool gone = false;
						for (auto& p : present) {
							gone = gone || eq(h->map, p);
						}
						if (gone) {
							h->map.clear();
							spots.push_back(n);
						}
					}
					if (spots.empty()) {
						continue;
					}
					T = out;
					at = spots.back();
				}
				h->noprint = false;
				if (!is_star) {
					put(c, h, r->b, at, true);
				}
				ch = ch || changed_tags(h, was);
			}
			else if (t == "COPY") {
				Rd* n = new Rd(*h);
				n->num += 100;
				n->immut = false;
				n->noprint = false;
				for (auto& x : r->b) {
					drop_tag(n, x);
				}
				c->rd.push_back(n);
				put(c, n, r->a, place(r, n), true);
				ch = true;
			}
			else if (t == "APPEND") {
				std::vector<Strs> add;
				for (auto& x : r->a) {
					if (is_base(x)) {
						add.push_back(Strs());
					}
					add.back().push_back(x);
				}
				for (auto& ts : add) {
					Rd* n = new_rd(c);
					put(c, n, ts, 0, false);
					c->rd.push_back(n);
				}
				for (size_t i = 0; i < c->rd.size() && c->rd.size() > 1;) {
					if (c->rd[i]->noprint) { c->rd.erase(c->rd.begin() + i); }
					else { ++i; }
				}
				return true; // once per cohort
			}
			else if (t == "UNMAP") {
				if (!h->map.empty() || h->mapped) {
					if (!h->map.empty()) {
						h->noprint = false;
					}
					h->map.clear();
					h->mapped = false;
					ch = true;
				}
			}
			else if (t == "SETVARIABLE") {
				vars[r->a[0]] = r->b[0];
			}
			else if (t == "REMVARIABLE") {
				for (auto& x : r->a) {
					vars.erase(x);
				}
			}
			else if (t == "RESTORE") {
				auto& l = r->flag("DELAYED") ? c->delayed : r->flag("IGNORED") ? c->ign : c->del;
				for (size_t i = 0; i < l.size();) {
					if (match(l[i], r->dt)) {
						c->rd.push_back(l[i]);
						l.erase(l.begin() + i);
						ch = true;
					}
					else {
						++i;
					}
				}
				return ch; // once per cohort
			}
			else if (t == "PROTECT") {
				h->immut = true;
			}
			else if (t == "UNPROTECT") {
				h->immut = false;
			}
			else {
				fprintf(stderr, "REF: no such rule %s\n", t.c_str());
				abort();
			}
		}
		return ch;
	}
	// returns whether anything changed
	bool apply(const Rule* r, Coh* c) {
		const Str t0 = r->type;
		if (c->rd.empty() || (!r->wf.empty() && !eq(c->wf, r->wf))) {
			return false;
		}
		bool one = c->rd.size() == 1;
		if (t0 == "SELECT" && one) {
			return false;
		}
		bool safe = !r->flag("UNSAFE") && (!unsafe || r->flag("SAFE"));
		if ((t0 == "REMOVE" || t0 == "IFF") && one && (c->rd[0]->noprint || safe)) {
			return false;
		}
		if (t0 == "UNMAP" && !one && !r->flag("UNSAFE")) {
			return false;
		}
		std::vector<Rd*> hit, miss, rest;
		int state = -1; // contexts are about the cohort, not the reading
		bool iff_select = false;
		std::vector<std::vector<Bind>> binds;
		in_uni = unifies(r);
		struct Off { bool& b; ~Off() { b = false; } } off{ in_uni };
		if (in_uni) {
			uni_rule(r, c, hit, miss, rest, binds);
			state = !hit.empty();
		}
		for (auto x : in_uni ? std::vector<Rd*>() : c->rd) {
			if (x->mapped && (t0 == "MAP" || t0 == "ADD" || t0 == "REPLACE")) {
				rest.push_back(x);
				continue;
			}
			if (x->immut && t0 != "UNPROTECT") {
				// a protected reading survives whatever is decided about the others
				(t0 == "SELECT" ? hit : rest).push_back(x);
				continue;
			}
			if (!match(x, r->target)) {
				rest.push_back(x);
				continue;
			}
			if (state < 0) {
				state = tests(r, c);
			}
			if (state) {
				hit.push_back(x);
			}
			else {
				miss.push_back(x);
				rest.push_back(x);
			}
		}
		Rule rr = *r;
		if (t0 == "IFF") {
			if (state == 1) {
				rr.type = "SELECT";
				std::vector<Rd*> h, o;
				for (auto x : c->rd) {
					bool in = x->immut;
					for (auto y : hit) {
						in = in || x == y;
					}
					(in ? h : o).push_back(x);
				}
				hit = h;
				rest = o;
			}
			else {
				rr.type = "REMOVE";
				hit = miss;
				std::vector<Rd*> o;
				for (auto x : c->rd) {
					bool in = false;
					for (auto y : miss) {
						in = in || x == y;
					}
					if (!in) {
						o.push_back(x);
					}
				}
				rest = o;
			}
		}
		if (rr.type == "SELECT") {
			// a protected reading counts as selected; an IFF needs one that its contexts speak for
			bool real = false;
			for (auto x : hit) {
				real = real || !x->immut;
			}
			if (t0 == "IFF" && (!real || state != 1)) {
				return false;
			}
		}
		if (hit.empty()) {
			return false;
		}
		if (t0 == "REMOVE" && safe) {
			// a protected reading does not make it all right to lose every other one
			bool other = false;
			for (auto x : rest) {
				other = other || !x->immut;
			}
			if (!other) {
				return false;
			}
		}
		if (rest.empty() && (rr.type == "SELECT" || (rr.type == "REMOVE" && safe))) {
			return false;
		}
		if (rr.type == "SELECT" && rest.empty()) {
			return false;
		}
		if (in_uni && (!r->a.empty() || !r->b.empty())) {
			in_uni = false;
			bool any = false;
			for (size_t i = 0; i < hit.size(); ++i) {
				Rule ri = *r;
				bind = binds[i];
				expand(ri.a);
				expand(ri.b);
				if (r->a.size() && ri.a.empty() && r->type != "SUBSTITUTE") {
					continue;
				}
				std::vector<Rd*> o;
				for (auto x : c->rd) {
					if (x != hit[i]) {
						o.push_back(x);
					}
				}
				std::vector<Rd*> h1(1, hit[i]);
				any = act(&ri, c, h1, o) || any;
			}
			bind.clear();
			if (any) {
				fire.push_back(r->type);
			}
			return any;
		}
		in_uni = false;
		bool ch = act(&rr, c, hit, rest);
		if (ch) {
			fire.push_back(r->type);
		}
		return ch;
	}
	static bool iterates(const Rule* r) {
		if (r->flag("ITERATE")) { return true; }
		if (r->flag("NOITERATE")) { return false; }
		return r->type == "SELECT" || r->type == "REMOVE" || r->type == "IFF" || r->type == "REMCOHORT" || r->type == "DELIMIT" || r->type == "MOVE" || r->type == "SWITCH";
	}
	// structural rules live in the including harness; default: none
	std::function<int(Interp&, const Rule*, Win*)> structural;
	bool delimited = false; // the window has been cut: start over
	// MOVE and SWITCH do not make rules try their cohorts again; every other change does
	std::set<std::pair<const Rule*, const Coh*>> tried;
	bool try_once(const Rule* r, const Coh* c) {
		bool moves = false;
		for (auto x : g.rules) {
			moves = moves || x->type == "MOVE" || x->type == "SWITCH";
		}
		return !moves || tried.insert({ r, c }).second;
	}
	// which rules take part, and how often: the options of the command line
	int max_runs = 0;
	bool no_before = false, no_sections = false, no_after = false, no_map = false, no_corr = false;
	std::vector<int> secs;
	std::function<bool(const Rule*)> only;
	bool pass(Win* w, std::function<bool(int)> in) {
		bool again = false;
		int jumps = 0;
		for (size_t k = 0; k < g.rules.size(); ++k) {
			const Rule* r = g.rules[k];
			if (!in(r->section) || (only && !only(r))) {
				continue;
			}
			if (no_map && (r->type == "ADD" || r->type == "MAP" || r->type == "REPLACE")) {
				continue;
			}
			if (no_corr && (r->type == "SUBSTITUTE" || r->type == "APPEND")) {
				continue;
			}
			if (r->type == "JUMP") {
				bool go = false;
				for (size_t i = 1; i < w->c.size() && !go; ++i) {
					bool m = false;
					for (auto x : w->c[i]->rd) {
						m = m || match(x, r->target);
					}
					go = m && tests(r, w->c[i]);
				}
				auto to = g.anchors.find(r->a[0]);
				if (go && r->a[0] == "START") {
					k = (size_t)-1;
				}
				else if (go && r->a[0] == "END") {
					k = g.rules.size();
					break;
				}
				else if (go && to != g.anchors.end()) {
					k = to->second - 1;
				}
				if (++jumps > 100) {
					break;
				}
				continue;
			}
			for (int rep = 0; rep < 50; ++rep) {
				bool ch = false;
				int s = structural ? structural(*this, r, w) : -1;
				if (s >= 0) {
					ch = s;
					if (delimited) {
						return false;
					}
				}
				else {
					for (size_t i = 1; i < w->c.size(); ++i) {
						if (try_once(r, w->c[i]) && apply(r, w->c[i])) {
							ch = true;
							tried.clear();
						}
					}
				}
				if (ch && iterates(r)) {
					again = true;
				}
				if (!ch || !r->flag("REPEAT")) {
					break;
				}
				tried.clear();
			}
		}
		return again && max_runs != 1;
	}
	void run_window(Win* w) {
		for (int k = 0; k < 100; ++k) {
			delimited = false;
			run_window0(w);
			if (!delimited) {
				break;
			}
		}
	}
	void run_window0(Win* w) {
		w->renum();
		tried.clear();
		if (!no_before) {
			pass(w, [](int s) { return s == -1; });
			if (delimited) {
				return;
			}
		}
		std::vector<int> order = secs;
		if (order.empty()) {
			for (int s = 1; s <= g.nsec; ++s) {
				order.push_back(s);
			}
		}
		for (size_t n = 0; n < order.size() && !no_sections; ++n) {
			auto in = [&](int s) { return std::find(order.begin(), order.begin() + n + 1, s) != order.begin() + n + 1; };
			for (int k = 0; k < 200 && (!max_runs || k < max_runs); ++k) {
				bool again = pass(w, in);
				if (delimited) {
					return;
				}
				if (!again) {
					break;
				}
			}
		}
		if (!no_after) {
			pass(w, [](int s) { return s == -3; });
		}
	}
	void run_all() {
		for (size_t i = 0; i < wins.size(); ++i) {
			run_window(wins[i]);
		}
	}

	// ---- printing
	void print_coh(Str& o, Coh* c) {
		o += c->wf;
		for (auto& t : c->stat) {
			o += " " + t;
		}
		o += "\n";
		std::vector<Rd*> v = c->rd;
		v.insert(v.end(), c->ign.begin(), c->ign.end());
		std::stable_sort(v.begin(), v.end(), [](Rd* a, Rd* b) { return a->num < b->num; });
		std::vector<bool> done(v.size(), false);
		for (size_t i = 0; i < v.size(); ++i) {
			if (done[i]) {
				continue;
			}
			Strs maps;
			std::vector<size_t> same;
			for (size_t j = i; j < v.size(); ++j) {
				if (!done[j] && set_eq_plain(v[i], v[j])) {
					same.push_back(j);
				}
			}
			bool any_map = false;
			for (auto j : same) {
				done[j] = true;
				any_map = any_map || !v[j]->map.empty();
			}
			// in the order the readings were made
			Rd* head = nullptr;
			std::vector<Rd*> order = c->rd;
			order.insert(order.end(), c->ign.begin(), c->ign.end());
			for (auto x : order) {
				for (auto j : same) {
					if (v[j] == x && (!any_map || !x->map.empty())) {
						if (!head) {
							head = x;
						}
						bool have = false;
						for (auto& m : maps) {
							have = have || eq(m, x->map);
						}
						if (!x->map.empty() && !have) {
							maps.push_back(x->map);
						}
					}
				}
			}
			if (head->noprint) {
				continue;
			}
			o += "\t";
			bool first = true;
			for (auto& t : head->tags) {
				o += (first ? "" : " ") + t;
				first = false;
			}
			for (auto& m : maps) {
				o += " " + m;
			}
			if (has_dep) {
				o += " #" + std::to_string(c->pos) + "->" + std::to_string(c->par ? c->par->pos : c->pos);
			}
			print_rels(o, c);
			o += "\n";
		}
		o += c->text;
	}
	Str print() {
		Str o;
		for (auto w : wins) {
			for (size_t i = 1; i < w->all.size(); ++i) {
				Coh* c = w->all[i];
				if (c->removed) {
					o += c->text;
				}
				else {
					print_coh(o, c);
				}
			}
		}
		o += "\n";
		return o;
	}
