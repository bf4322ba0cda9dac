// C01: what no rule touches passes through the text stream unchanged
#include "drive.hpp"
#ifndef WHICH
	#define WHICH 1
#endif
typedef std::string Str;
static const char* GRAMMARS[] = {
	"DELIMITERS = \"<.>\" ;\nSECTION\nREMOVE (nosuchtag) ;\n",
	"DELIMITERS = \"<.>\" ;\nSUBREADINGS = LTR ;\nSETS\nLIST N = nosuch (no such) \"none\"r ;\nSECTION\nSELECT N IF (-1* N) ;\nADD (@x) N ;\nMAP (@y) N ;\nREMCOHORT N ;\n",
	"DELIMITERS = \"<.>\" ;\nMAPPING-PREFIX = % ;\nSECTION\nSETPARENT (nosuchtag) TO (*1 (*)) ;\n",
};
static Str nb(const Str& s) { // what is not blank
	Str o;
	for (auto c : s) {
		if (c != ' ' && c != '\t' && c != '\n' && c != '\r') {
			o += c;
		}
	}
	return o;
}
static std::vector<Str> lines(const Str& s) {
	auto v = Stream::cut(s, '\n');
	return v;
}
int main() {
	std::vector<std::unique_ptr<CG>> gs;
	std::vector<std::unique_ptr<Run<>>> rs;
	for (auto g : GRAMMARS) {
		gs.emplace_back(new CG(g));
		rs.emplace_back(new Run<>(*gs.back()));
	}
	auto run = [&](uint32_t g, const Str& in) {
		Run<> r(*gs[g]);
		return r.text(in);
	};
	sxapi_start();
#if WHICH == 1
	// lines of every kind, one after another
	uint32_t g = sx_choice("grammar", SX_TIER ? 3 : 1);
	#if !SX_TIER
	g = 1;
	#endif
	Str in, want, pend; // pend: the text of the open cohort
	bool open = false, any = false;
	uint32_t depth = 0; // how deep a reading may be
	auto ch = [&](const char* what) { // a character of a word, base form or tag
		#if SX_TIER
		uint8_t c = sx_range<uint8_t>(what, 0x21, 0x7e);
		sxapi_assume((c != '"') & (c != '\\'));
		#else
		uint8_t c = sx_range<uint8_t>(what, 0x21, 0x7e);
		uint64_t ok = 0;
		for (const char* p = "<>;#@:/(^*!a0R"; *p; ++p) {
			ok |= (c == (uint8_t)*p);
		}
		sxapi_assume(ok);
		#endif
		return (char)c;
	};
	auto shut = [&]() {
		if (open && !any) {
			// a cohort without readings prints as just itself
		}
		if (!pend.empty()) {
			want += pend;
		}
		pend.clear();
	};
	uint32_t begin = sx_choice("begin", 2);
	if (begin) {
		in = want = "\"<o>\"\n\t\"o\" O\n";
		open = true;
		depth = 1;
	}
	int N = SX_TIER ? 5 : 3, slots = SX_TIER ? 3 : 1;
	for (int i = 0; i < N; ++i) {
		Str k(1, (char)('a' + i));
		auto X = [&](const char* what) { return slots-- > 0 ? ch(what) : 'v'; };
		switch (sx_choice("line", 12)) {
		case 0: { // a word
			shut();
			Str l = "\"<" + k + X("word") + ">\"";
			in += l + "\n";
			want += l + "\n";
			open = true;
			depth = 0;
			break;
		}
		case 1: { // a word with tags of its own and odd characters
			shut();
			Str l = "\"<" + k + "\\\" " "d>\" <st" + X("static") + "> \"q r\"";
			in += l + "\n";
			want += l + "\n";
			open = true;
			depth = 0;
			break;
		}
		case 2: { // a reading
			sxapi_assume(open);
			char c = X("tag");
			sxapi_assume((c != '@') & (c != '%') & (c != '+'));
			Str l = "\t\"" + k + X("base") + "\" " + c + "t" + k + " <x>";
			in += l + "\n";
			want += l + "\n";
			depth = 1;
			break;
		}
		case 3: { // a reading below another
			sxapi_assume(depth == 1);
			Str l = "\"" + k + "\" V" + X("sub tag");
			in += "\t\t" + l + "\n";
			want += "\t\t" + l + "\n";
			depth = 2;
			break;
		}
		case 4: { // a third level
			sxapi_assume(depth == 2);
			Str l = "\"" + k + "z\" Z";
			in += "\t\t\t" + l + "\n";
			want += "\t\t\t" + l + "\n";
			depth = 3;
			break;
		}
		case 5: { // readings as other tools indent and space them
			sxapi_assume(open);
			in += " \"" + k + "\"  ab\t\tcd \n";
			want += "\t\"" + k + "\" ab cd\n";
			depth = 1;
			break;
		}
		case 6: { // tags with blanks and quotes, a mapping tag
			sxapi_assume(open);
			Str l = "\t\"" + k + " l\\\"m\" \"<p q>\" t:\"u\" @map" + X("mapping");
			in += l + "\n";
			want += l + "\n";
			depth = 1;
			break;
		}
		case 7: { // text
			Str l = "<s id=\"" + k + X("text") + "\">";
			in += l + "\n";
			(open ? pend : want) += l + "\n";
			break;
		}
		case 8: { // text with blanks around and within
			Str l = "  t" + k + X("text") + "\t  u  ";
			in += l + "\n";
			(open ? pend : want) += l + "\n";
			break;
		}
		case 9: { // an empty line
			in += "\n";
			(open ? pend : want) += "\n";
			break;
		}
		case 10: { // what looks like a cohort or reading but is not
			Str l = "\"<" + k;
			in += l + "\n";
			(open ? pend : want) += l + "\n";
			break;
		}
		case 11: { // the end of a window
			shut();
			in += "\"<.>\"\n";
			want += "\"<.>\"\n";
			open = true;
			depth = 0;
			break;
		}
		}
	}
	shut();
	if ((SX_TIER ? sx_choice("final newline", 2) : begin) && in.size() > 1 && in[in.size() - 2] != '\n') {
		in.pop_back();
		if (!open) {
			want.pop_back(); // text outside of windows is copied as it is
		}
	}
	Str got = run(g, in);
	note("grammar: " + gs[g]->src + "\ninput:\n" + in + "\nactual:\n" + got + "\nexpected:\n" + want);
	SX_ASSERT(seq(got, want), "the stream passes through unchanged");
	Str again = run(g, got);
	note("input:\n" + got + "\nactual:\n" + again);
	SX_ASSERT(seq(again, got), "the output passes through unchanged");
#elif WHICH == 2
	// unknown bytes (\001) at places where the line's kind hangs on them: nothing but blanks may change, and lines
	// of one kind keep their order
	static const char* SH[] = {
		"\"<a>\"\n\t\"a\" x\n\001\001\001\n\"<b>\"\n\t\"b\" y\n",
		"\"<a\001\001>\" st\n\t\"a\" x\n",
		"\"<a>\001\001st\n\t\"a\" x\n",
		"\"<a>\"\n\t\"a\001\001 x\n\t\"b\" y\n",
		"\"<a>\"\n\t\"a\" x\001\001y\n\t\"b\" z\n",
		"\001\001\"a\" x\n\"<b>\"\n\001\"b\" x\n",
		"\"<a>\"\n\t\"a\" x \001\001",
		"\001\"<a>\"\001\n\t\"a\"\001x\n",
	#if SX_TIER
		"\"<a>\"\n\001\001\001\001\n\t\"a\" x\n",
		"\"<a>\" \001\001\001t\n\t\"a\" x\n",
		"\"<a>\"\n\t\"\001\001\001\" x\n",
	#endif
	};
	uint32_t g = sx_choice("grammar", SX_TIER ? 3 : 2);
	Str in = SH[sx_choice("shape", sizeof(SH) / sizeof(SH[0]))];
	int k = 0;
	for (auto& c : in) {
		if (c == '\001') {
			uint8_t b = sx_var<uint8_t>("byte");
			uint64_t ok = 0;
			for (const char* p = " \t\n\"<>;\\azA0:/(-"; *p; ++p) {
				ok |= (b == (uint8_t)*p);
			}
			sxapi_assume(ok);
			c = (char)b;
			++k;
		}
	}
	Str got = run(g, in);
	note("grammar: " + gs[g]->src + "\ninput:\n" + in + "\nactual:\n" + got);
	// lines that are not blank, without their blanks
	auto norm = [](const Str& s) {
		std::vector<Str> r;
		for (auto& l : lines(s)) {
			Str n = nb(l);
			if (!n.empty()) {
				r.push_back(n);
			}
		}
		return r;
	};
	auto a = norm(in), b = norm(got);
	SX_ASSERT(a.size() == b.size(), "every line comes out once");
	std::vector<bool> used(b.size());
	for (auto& x : a) {
		bool f = false;
		for (size_t i = 0; i < b.size() && !f; ++i) {
			if (!used[i] && seq(x, b[i])) {
				used[i] = true;
				f = true;
			}
		}
		SX_ASSERT(f, "every line comes out with its content");
	}
	Str again = run(g, got);
	note("input:\n" + got + "\nactual:\n" + again);
	SX_ASSERT(seq(again, got), "the output passes through unchanged");
#elif WHICH == 3
	// long words, tags and lines, around every size a buffer has
	static const int LEN[] = { 247, 498, 1019, 1022, 2044 };
	uint32_t n = LEN[sx_choice("size", SX_TIER ? 5 : 4)] + sx_choice("more", 8);
	Str fill(n, 'q');
	fill[n / 2] = (char)sx_range<uint8_t>("letter", 'a', 'z');
	static const char* U[] = { "\xC3\xB8", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "z" };
	fill += U[sx_choice("last character", 4)];
	Str in, want;
	switch (sx_choice("place", 9)) {
	case 0: in = "\"<" + fill + ">\"\n\t\"a\" x\n\"<b>\"\n"; break;
	case 1: in = "\"<a>\" " + fill + " st\n\t\"a\" x\n\"<b>\"\n"; break;
	case 2: in = "\"<a>\"\n\t\"" + fill + "\" x\n\"<b>\"\n"; break;
	case 3: in = "\"<a>\"\n\t\"a\" " + fill + " x\n\t\"b\" y\n"; break;
	case 4: in = "\"<a>\"\n" + fill + "\nmore " + fill + "\n\"<b>\"\n\t\"b\" y\n"; break;
	case 5: in = fill + "\n\"<b>\"\n\t\"b\" y\n"; break;
	case 6: in = "\"<a>\"\n\t\"a\" x\n\"<b>\"\n" + fill; want = in + "\n"; break;
	case 7: in = "\"<a>\"\n" + Str(n, ' ') + "\"a\" x\n\t\"b\" y\n"; want = "\"<a>\"\n\t\"a\" x\n\t\"b\" y\n"; break;
	case 8: in = "\"<a>\"\n\t\"a\"" + Str(n, ' ') + "x\n\t\"b\" y\n"; want = "\"<a>\"\n\t\"a\" x\n\t\"b\" y\n"; break;
	}
	if (want.empty()) {
		want = in;
	}
	Str got = run(1, in);
	note("input:\n" + in + "\nactual:\n" + got);
	SX_ASSERT(seq(got, want), "long lines pass through unchanged");
#endif
	sxapi_reach("end");
	sxapi_done();
}
