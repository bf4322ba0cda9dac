// C20: the library interface gives what the command line gives
#include "drive.hpp"
#include "zoo.hpp"
#include "cg3.h"
#if WHICH == 3
#include <unicode/uchar.h>
// every character text can hold goes in and comes out as itself, whichever encoding carries it
static std::string u8(const std::vector<uint32_t>& t) {
	std::string o;
	for (auto c : t) {
		if (c < 0x80) { o += (char)c; }
		else if (c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
	}
	return o;
}
int main() {
	cg3_init(stdin, stdout, stderr);
	const char* g = "DELIMITERS = \"<.>\" ;\nSELECT (x) ;\n";
	cg3_grammar* gr = cg3_grammar_load_buffer(g, 0);
	cg3_applicator* ap = cg3_applicator_create(gr);
	sxapi_start();
	static const uint32_t LO[] = { 'a', 0xC0, 0x3B1, 0xE000, 0x10400, 0x20000 }, HI[] = { 'z', 0xF6, 0x3FF, 0xE0FF, 0x104FF, 0x2A6DF };
	std::vector<uint32_t> t = { 'k' };
	uint32_t n = 1 + sx_choice("length", 3);
	for (uint32_t i = 0; i < n; ++i) {
		uint32_t k = sx_choice("block", 6);
		uint32_t c = sx_range<uint32_t>("char", LO[k], HI[k]);
		t.push_back(c);
	}
	std::vector<uint16_t> t16;
	for (auto c : t) {
		if (c < 0x10000) { t16.push_back((uint16_t)c); }
		else { t16.push_back((uint16_t)(0xD7C0 + (c >> 10))); t16.push_back((uint16_t)(0xDC00 | (c & 0x3FF))); }
	}
	std::string t8 = u8(t);
	std::vector<wchar_t> tw(t.begin(), t.end());
	std::vector<uint32_t> t32 = t;
	t16.push_back(0);
	tw.push_back(0);
	t32.push_back(0);
	cg3_tag* tag = nullptr;
	switch (sx_choice("from", 4)) {
	case 0: tag = cg3_tag_create_u8(ap, t8.c_str()); break;
	case 1: tag = cg3_tag_create_u16(ap, t16.data()); break;
	case 2: tag = cg3_tag_create_u32(ap, t32.data()); break;
	case 3: tag = cg3_tag_create_w(ap, tw.data()); break;
	}
	SX_ASSERT(tag != nullptr, "the tag is made");
	note("tag: " + t8);
	switch (sx_choice("to", 4)) {
	case 0: SX_ASSERT(seq(std::string(cg3_tag_gettext_u8(tag)), t8), "text as UTF-8"); break;
	case 1: sxapi_assert(sxapi_equal(cg3_tag_gettext_u16(tag), t16.data(), 2 * t16.size()), "text as UTF-16"); break;
	case 2: sxapi_assert(sxapi_equal(cg3_tag_gettext_u32(tag), t32.data(), 4 * t32.size()), "text as UTF-32"); break;
	case 3: sxapi_assert(sxapi_equal(cg3_tag_gettext_w(tag), tw.data(), sizeof(wchar_t) * tw.size()), "text as wide characters"); break;
	}
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#else
typedef std::vector<std::string> Lines;
static std::string U(cg3_tag* t) { return cg3_tag_gettext_u8(t); }
struct RdT {
	std::string o;
	Lines maps;
};
static void words(Lines w, RdT& r) {
	Lines seen;
	// the tool prints the base form first, wherever it stands
	std::stable_sort(w.begin(), w.end(), [](const std::string& a, const std::string& b) { return ref::Interp::is_base(a) && !ref::Interp::is_base(b); });
	for (auto& t : w) {
		if (t == "<<<" || t == ">>>" || t.compare(0, 2, "\"<") == 0 || t[0] == '#' || t.compare(0, 3, "ID:") == 0 || t.compare(0, 2, "R:") == 0) {
			continue;
		}
		if (t[0] == '@' || t.compare(0, 2, "£") == 0) {
			r.maps.push_back(t);
			continue;
		}
		bool dup = false;
		for (auto& s : seen) {
			dup = dup || ref::eq(s, t);
		}
		if (!dup) {
			seen.push_back(t);
			r.o += " " + t;
		}
	}
}
static void finish(Lines& out, std::vector<RdT>& v, const std::string& wf) {
	Lines l;
	for (auto& x : v) {
		bool drop = x.maps.empty() && x.o == " \"" + (wf.size() > 4 ? wf.substr(2, wf.size() - 4) : "") + "\"";
		if (x.maps.empty()) {
			for (auto& y : v) {
				drop = drop || (!y.maps.empty() && ref::eq(x.o, y.o));
			}
			x.maps.push_back("");
		}
		for (auto& m : x.maps) {
			std::string t = x.o + " " + m;
			bool have = drop;
			for (auto& y : l) {
				have = have || ref::eq(y, t);
			}
			if (!have) {
				l.push_back(t);
			}
		}
	}
	std::sort(l.begin(), l.end());
	out.insert(out.end(), l.begin(), l.end());
	v.clear();
}
// what the tool printed
static Lines norm(const std::string& s, Lines* dep) {
	Lines out;
	std::vector<RdT> v;
	std::string wf;
	Lines l = Stream::cut(s, '\n');
	for (size_t i = 0; i < l.size(); ++i) {
		if (l[i].empty() || l[i].compare(0, 11, "<STREAMCMD:") == 0) {
			continue;
		}
		if (l[i][0] != '\t') {
			finish(out, v, wf);
			wf = Stream::cut(l[i], ' ')[0];
			out.push_back(wf);
			continue;
		}
		RdT r;
		for (auto& w : Stream::cut(l[i], ' ')) {
			if (dep && w[0] == '#') {
				dep->push_back(w);
			}
		}
		words(Stream::cut(l[i].substr(1), ' '), r);
		while (i + 1 < l.size() && l[i + 1].compare(0, 2, "\t\t") == 0) {
			++i;
			r.o += " /";
			words(Stream::cut(l[i].substr(l[i].find_first_not_of('\t')), ' '), r);
		}
		v.push_back(r);
	}
	finish(out, v, wf);
	return out;
}
static Lines api(cg3_applicator* ap, const std::vector<Stream::C>& cs) {
	cg3_sentence* se = cg3_sentence_new(ap);
	for (size_t i = 0; i < cs.size(); ++i) {
		cg3_cohort* co = cg3_cohort_create(se);
		cg3_cohort_setwordform(co, cg3_tag_create_u8(ap, cs[i].wf.c_str()));
		for (auto& r : cs[i].rd) {
			// a reading takes one mapping tag; the tool makes several readings of one with more
			size_t maps = 0;
			auto is_map = [](const std::string& t) { return t[0] == '@' || t.compare(0, 2, "£") == 0; };
			for (auto& t : r) {
				maps += is_map(t);
			}
			for (size_t m = 0; m < std::max<size_t>(maps, 1); ++m) {
				cg3_reading* rd = cg3_reading_create(co);
				size_t n = 0;
				for (auto& t : r) {
					bool want = !is_map(t) || n++ == m;
					if (want) {
						SX_ASSERT(cg3_reading_addtag(rd, cg3_tag_create_u8(ap, t.c_str())) == CG3_SUCCESS, "a tag can be added");
					}
				}
				if (m + 1 == maps && maps > 1) {
					size_t before = cg3_reading_numtags(rd);
					SX_ASSERT(cg3_reading_addtag(rd, cg3_tag_create_u8(ap, "£zz")) == CG3_ERROR, "a second mapping tag is refused");
					SX_ASSERT(cg3_reading_numtags(rd) == before, "a refused tag is not added");
				}
				if (i + 1 == cs.size()) {
					cg3_reading_addtag(rd, cg3_tag_create_u8(ap, "<<<"));
				}
				cg3_cohort_addreading(co, rd);
			}
		}
		cg3_sentence_addcohort(se, co);
	}
	cg3_sentence_runrules(ap, se);
	Lines out;
	for (size_t i = 1; i < cg3_sentence_numcohorts(se); ++i) {
		cg3_cohort* co = cg3_sentence_getcohort(se, i);
		std::string wf = U(cg3_cohort_getwordform(co));
		out.push_back(wf);
		std::vector<RdT> v;
		for (size_t k = 0; k < cg3_cohort_numreadings(co); ++k) {
			cg3_reading* rd = cg3_cohort_getreading(co, k);
			RdT r;
			for (cg3_reading* x = rd;; x = cg3_reading_getsubreading(x, 1)) {
				Lines w;
				for (size_t j = 0; j < cg3_reading_numtags(x); ++j) {
					w.push_back(U(cg3_reading_gettag(x, j)));
				}
				// the reading that stands in where none is left has its base form for printing only
				if (x == rd && !w.empty() && std::none_of(w.begin(), w.end(), ref::Interp::is_base)) {
					w.push_back("\"" + wf.substr(2, wf.size() - 4) + "\"");
				}
				words(w, r);
				if (!cg3_reading_numsubreadings(x)) {
					break;
				}
				r.o += " /";
			}
			v.push_back(r);
		}
		finish(out, v, wf);
	}
	cg3_sentence_free(se);
	return out;
}
struct FL {
	uint32_t f;
	std::function<void(CG3::GrammarApplicator&)> set;
};
static const std::vector<FL> FLAGS = {
	{ 0, nullptr },
#if WHICH == 2
	{ CG3F_UNSAFE, [](CG3::GrammarApplicator& a) { a.unsafe = true; } },
	{ CG3F_NO_MAPPINGS, [](CG3::GrammarApplicator& a) { a.apply_mappings = false; } },
	{ CG3F_NO_CORRECTIONS, [](CG3::GrammarApplicator& a) { a.apply_corrections = false; } },
	{ CG3F_NO_BEFORE_SECTIONS, [](CG3::GrammarApplicator& a) { a.no_before_sections = true; } },
	{ CG3F_NO_SECTIONS, [](CG3::GrammarApplicator& a) { a.no_sections = true; } },
	{ CG3F_NO_AFTER_SECTIONS, [](CG3::GrammarApplicator& a) { a.no_after_sections = true; } },
	{ CG3F_TRACE, nullptr },
	{ CG3F_SINGLE_RUN, [](CG3::GrammarApplicator& a) { a.section_max_count = 1; } },
	{ CG3F_ALWAYS_SPAN, [](CG3::GrammarApplicator& a) { a.always_span = true; } },
	{ CG3F_DEP_ALLOW_LOOPS, [](CG3::GrammarApplicator& a) { a.dep_block_loops = false; } },
	{ CG3F_DEP_NO_CROSSING, [](CG3::GrammarApplicator& a) { a.dep_block_crossing = true; } },
	{ CG3F_NO_PASS_ORIGIN, [](CG3::GrammarApplicator& a) { a.no_pass_origin = true; } },
	{ CG3F_UNSAFE | CG3F_SINGLE_RUN | CG3F_TRACE, [](CG3::GrammarApplicator& a) { a.unsafe = true; a.section_max_count = 1; } },
#endif
};
#if WHICH == 2
static const Zoo FZ[] = {
	{ "MAP (@q) (x) ; ADD (@r) (y) ; REPLACE (k @s) (z) ; UNMAP UNSAFE (v) ; MAP (@t) (v) ;", "a/? @p/z|b/? @q/y|c/y @p/?" },
	{ "BEFORE-SECTIONS\nMAP (@m) (x) ; REMOVE (z) IF (1 (y)) ; SECTION\nSUBSTITUTE (x) (k) (x) IF (1 (z)) ; REMOVE (y) IF (-1 (k)) ; REMOVE (x) IF (-1 (m)) ; ADD (m) (x) IF (NOT 0 (m)) ; AFTER-SECTIONS\nADD (@a) (*) ;", "a/? x/y|b/? z|c/?" },
	{ "SETPARENT (x) TO (1 (y)) ; SETPARENT (y) TO (-1 (x)) ; SETPARENT (z) TO (2 (x)) ; SETPARENT (x) TO (1 (z)) ; ADD (@p) (*) IF (p (y)) ; ADD (@c) (*) IF (c (x)) ; ADD (@s) (*) IF (c (z)) ;", "a/?|b/?|c/?|d/y" },
	{ "ADD (@p) (x) IF (1* (y) LINK -1* (x)) ; ADD (@q) (x) IF (1* (y) LINK -1*O (x)) ; ADD (@r) (x) IF (-1* (y) LINK 1*o (x)) ;", "a/x|b/?|c/?|d/?" },
};
#else
#define FZ ZOO
#endif
int main() {
	cg3_init(stdin, stdout, stderr);
	std::vector<std::unique_ptr<CG>> gs;
	std::vector<std::unique_ptr<Run<>>> base;
	std::vector<cg3_applicator*> aps;
	const size_t N = sizeof(FZ) / sizeof(*FZ);
	std::vector<size_t> ix;
	for (size_t i = 0; i < N; ++i) {
		std::string t = std::string("DELIMITERS = \"<.>\" ;\n") + FZ[i].g + "\n";
#ifdef ONE
		if (i != ONE) { continue; }
#endif
		if (strstr(FZ[i].g, "DELIMIT ")) {
			continue; // makes a second window, which a library sentence has no room for
		}
		ix.push_back(i);
		gs.emplace_back(new CG(t));
		base.emplace_back(new Run<>(*gs.back()));
		cg3_grammar* g = cg3_grammar_load_buffer(t.c_str(), i % 2 ? t.size() : 0);
		aps.push_back(cg3_applicator_create(g));
	}
	sxapi_start();
	uint32_t k = sx_choice("grammar", (uint32_t)ix.size());
	const FL& f = FLAGS[sx_choice("flags", (uint32_t)FLAGS.size())];
	// a library sentence is one window
	std::string spec = FZ[ix[k]].s;
	size_t d = spec.find("|.|");
	if (d != std::string::npos) {
		spec.resize(d + 2);
	}
	// a library cohort has at least one reading
	std::string all;
	for (auto& c : Stream::cut(spec, '|')) {
		all += (all.empty() ? "" : "|") + c + (c.find('/') == std::string::npos ? "/stop" : "");
	}
	spec = all;
	Stream s(spec);
	if (f.set) {
		f.set(base[k]->ga);
	}
	if (f.f) {
		cg3_applicator_setflags(aps[k], f.f);
	}
	std::string text = base[k]->text(s.in);
	Lines a = norm(text, nullptr), b = api(aps[k], s.c);
	std::string sa, sb;
	for (auto& x : a) { sa += x + "\n"; }
	for (auto& x : b) { sb += x + "\n"; }
	note(std::string("grammar: ") + FZ[ix[k]].g + "\nflags: " + std::to_string(f.f) + "\ninput:\n" + s.in + "tool:\n" + sa + "library:\n" + sb);
	SX_ASSERT(seq(sa, sb), "the library gives the analysis the tool gives");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#endif
