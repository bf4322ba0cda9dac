// C19: diagnostic output never changes the analysis
#include "drive.hpp"
#include "Profiler.hpp"
#include "zoo.hpp"
typedef std::vector<std::string> Lines;
struct Opt {
	const char* name;
	std::function<void(CG3::GrammarApplicator&)> set;
};
static CG3::Profiler* prof = nullptr;
static const std::vector<Opt> OPTS = {
#if SX_TIER
	{ "--trace", [](CG3::GrammarApplicator& a) { a.trace = true; } },
	{ "--trace-name-only", [](CG3::GrammarApplicator& a) { a.trace = a.trace_name_only = true; } },
	{ "--trace-no-removed", [](CG3::GrammarApplicator& a) { a.trace = a.trace_no_removed = true; } },
	{ "--trace-encl", [](CG3::GrammarApplicator& a) { a.trace = a.trace_encl = true; } },
	{ "--profile", [](CG3::GrammarApplicator& a) { a.profiler = prof; } },
	{ "--print-ids", [](CG3::GrammarApplicator& a) { a.print_ids = true; } },
	{ "--unique-tags", [](CG3::GrammarApplicator& a) { a.unique_tags = true; } },
	{ "--show-end-tags", [](CG3::GrammarApplicator& a) { a.show_end_tags = true; } },
	{ "--unicode-tags", [](CG3::GrammarApplicator& a) { a.unicode_tags = true; } },
	{ "--split-mappings", [](CG3::GrammarApplicator& a) { a.split_mappings = true; } },
	{ "--verbose", [](CG3::GrammarApplicator& a) { a.verbosity_level = 1; } },
	{ "--debug-rules", [](CG3::GrammarApplicator& a) { a.debug_rules.insert(2); a.debug_rules.insert(3); } },
#else
	{ "--trace", [](CG3::GrammarApplicator& a) { a.trace = true; } },
	{ "--trace-name-only --print-ids --unicode-tags", [](CG3::GrammarApplicator& a) { a.trace = a.trace_name_only = a.print_ids = a.unicode_tags = true; } },
	{ "--trace-no-removed --show-end-tags", [](CG3::GrammarApplicator& a) { a.trace = a.trace_no_removed = a.show_end_tags = true; } },
	{ "--trace-encl --verbose", [](CG3::GrammarApplicator& a) { a.trace = a.trace_encl = true; a.verbosity_level = 1; } },
	{ "--profile", [](CG3::GrammarApplicator& a) { a.profiler = prof; } },
	{ "--unique-tags --split-mappings", [](CG3::GrammarApplicator& a) { a.unique_tags = a.split_mappings = true; } },
	{ "--debug-rules", [](CG3::GrammarApplicator& a) { a.debug_rules.insert(2); a.debug_rules.insert(3); } },
#endif
};
static bool keyword(const std::string& t) {
	// the name of a rule type, then its line: the mark tracing leaves
	size_t i = 0;
	while (i < t.size() && ((t[i] >= 'A' && t[i] <= 'Z') || (i && t[i] == '-'))) {
		++i;
	}
	return i >= 3 && i < t.size() && (t[i] == ':' || t[i] == '(') && t.compare(0, 4, "VSTR") != 0;
}
// one block per reading, sub-readings included; what the options add is taken off
struct Cohort {
	std::string head;
	std::vector<std::string> rd;
};
static std::string words(const std::string& line, Lines& maps) {
	Lines w = Stream::cut(line, ' ');
	std::string o = w[0];
	Lines seen;
	for (size_t i = 1; i < w.size(); ++i) {
		const std::string& t = w[i];
		if (keyword(t) || t == "<<<" || t.compare(0, 3, "ID:") == 0) {
			continue;
		}
		if (!t.empty() && (t[0] == '@' || t.compare(0, 2, "£") == 0)) {
			maps.push_back(t);
			continue;
		}
		std::string v = t;
		size_t a = v.find("→");
		if (v[0] == '#' && a != std::string::npos) {
			v.replace(a, strlen("→"), "->");
		}
		bool dup = false;
		for (auto& s : seen) {
			dup = dup || ref::eq(s, v);
		}
		if (!dup) {
			seen.push_back(v);
			o += " " + v;
		}
	}
	return o;
}
static Lines norm(const std::string& s, bool split) {
	Lines out, l = Stream::cut(s, '\n');
	std::vector<std::pair<std::string, std::string>> rd; // what it is without mapping, its mapping
	auto done = [&] {
		Lines v;
		for (auto& x : rd) {
			bool drop = false;
			if (split && x.second.empty()) {
				for (auto& y : rd) {
					drop = drop || (!y.second.empty() && ref::eq(x.first, y.first));
				}
			}
			std::string t = x.first + x.second;
			for (auto& y : v) {
				drop = drop || ref::eq(y, t);
			}
			if (!drop) {
				v.push_back(t);
			}
		}
		std::sort(v.begin(), v.end());
		out.insert(out.end(), v.begin(), v.end());
		rd.clear();
	};
	for (size_t i = 0; i < l.size(); ++i) {
		const std::string& x = l[i];
		if (!x.empty() && x[0] == ';') {
			continue;
		}
		if (!x.empty() && x[0] == '\t') {
			Lines maps, m2;
			std::string o = words(x, maps);
			while (i + 1 < l.size() && l[i + 1].compare(0, 2, "\t\t") == 0) {
				o += "\n" + words(l[++i], m2);
			}
			for (auto& y : m2) {
				o += " " + y;
			}
			if (maps.empty()) {
				rd.push_back(std::make_pair(o, ""));
			}
			for (auto& y : maps) {
				rd.push_back(std::make_pair(o, " " + y));
			}
			continue;
		}
		done();
		Lines m;
		out.push_back(words(x, m));
	}
	done();
	return out;
}
int main() {
	std::vector<std::unique_ptr<CG>> gs, gs2;
	std::vector<std::unique_ptr<Run<>>> base;
	const size_t N = sizeof(ZOO) / sizeof(*ZOO), P = 2;
	size_t lo = N * (WHICH - 1) / P, hi = N * WHICH / P;
	static CG3::Profiler pr;
	prof = &pr;
	for (size_t i = lo; i < hi; ++i) {
		std::string t = std::string("DELIMITERS = \"<.>\" ;\n") + ZOO[i].g + "\n";
		gs.emplace_back(new CG(t));
		gs2.emplace_back(new CG(t));
		base.emplace_back(new Run<>(*gs.back()));
	}
	sxapi_start();
	uint32_t k = sx_choice("grammar", (uint32_t)gs.size());
	const Opt& o = OPTS[sx_choice("option", (uint32_t)OPTS.size())];
	Stream s(ZOO[lo + k].s);
	std::string plain = base[k]->text(s.in);
	Run<> run(*gs2[k], o.set);
	std::string with = run.text(s.in);
	bool split = strstr(o.name, "--split-mappings") != nullptr;
	Lines a = norm(plain, split), b = norm(with, split);
	note(std::string("option: ") + o.name + "\ngrammar: " + ZOO[lo + k].g + "\ninput:\n" + s.in + "without:\n" + plain + "with:\n" + with);
	bool same = a.size() == b.size();
	for (size_t i = 0; same && i < a.size(); ++i) {
		same = seq(a[i], b[i]);
	}
	SX_ASSERT(same, "the analysis is the same under the option");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
