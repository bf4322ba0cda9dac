// C21: what goes through another stream format is the same analysis
#include "cg.hpp"
#include "FormatConverter.hpp"
using namespace CG3;
static std::ostringstream g_err;
// '?' an unknown letter u..z, '%' an unknown digit 1..4, '^' an unknown printable character
static std::string fill(const std::string& spec) {
	std::string r;
	for (char c : spec) {
		if (c == '?') { r += (char)sx_range<uint8_t>("tag", 'u', 'z'); }
		else if (c == '%') { r += (char)sx_range<uint8_t>("num", '1', '4'); }
		else if (c == '^') { r += (char)sx_range<uint8_t>("chr", '!', '~'); }
#if WHICH == 2
		// <tags> of an Apertium stream are not escaped, so these cannot be part of one
		else if (c == '&') {
			uint8_t v = sx_range<uint8_t>("tagchr", '!', '~');
			sxapi_assume(v != '/' && v != '\\' && v != '<' && v != '>' && v != '$');
			r += (char)v;
		}
		// + joins the parts of an Apertium reading
		else if (c == '=') {
			uint8_t v = sx_range<uint8_t>("basechr", '!', '~');
			sxapi_assume(v != '+');
			r += (char)v;
		}
#elif WHICH == 3
		// a Niceline line that starts with < is text, and \\ would protect the tab after the word
		else if (c == '=') {
			uint8_t v = sx_range<uint8_t>("wordchr", '!', '~');
			sxapi_assume(v != '<' && v != '\\');
			r += (char)v;
		}
#endif
		else { r += c; }
	}
	return r;
}
struct Conv {
	std::unique_ptr<FormatConverter> a;
	Conv(cg3_sformat i, cg3_sformat o, bool dep = false) : a(new FormatConverter(g_err)) {
		a->fmt_input = i;
		a->fmt_output = o;
		a->is_conv = true;
		a->trace = true;
		a->verbosity_level = 0;
		if (o == CG3SF_APERTIUM) {
			a->unicode_tags = true;
		}
		if (dep) {
			a->parse_dep = true;
			a->has_dep = true;
		}
	}
	std::string run(const std::string& in) {
		auto is = std::make_unique<std::stringstream>(in);
		auto os = std::make_unique<std::stringstream>();
		a->runGrammarOnText(*is, *os);
		return os->str();
	}
};
// without the empty lines
static std::string dense(const std::string& in) {
	std::string out;
	for (char c : in) {
		if (c != '\n' || (!out.empty() && out.back() != '\n')) {
			out += c;
		}
	}
	return out;
}
// the cohorts and readings alone
static std::string bare(const std::string& in) {
	std::string out;
	size_t b = 0;
	while (b < in.size()) {
		size_t e = in.find('\n', b);
		e = (e == std::string::npos) ? in.size() : e + 1;
		if (in[b] == '"' || in[b] == '\t') {
			out += in.substr(b, e - b);
		}
		b = e;
	}
	return out;
}
#if WHICH != 4
static const char* S[] = {
#if WHICH == 1
	"\"<a>\" s? t\n\t\"a\" x @p\n\t\"a\" y ?\ntext?\n\n\"<b>\"\n\t\"b\"\n\t\t\"s\" y @r\n\t\t\t\"t\" z\nend\n",
	"\"<a>\" s^ t\n\t\"a\" x\n",
	"\"<a>\"\n\t\"a\" x^ y?\n",
	"\"<a^>\"\n\t\"a\" x\n\"<b>\"\n\t\"b^c\" x\n",
	"\"<a>\"\n\t\"a\" x\n^text\n\n^end\n\"<b>\"\n\t\"b\" y\n",
	"\"<a>\"\n\t\"a\" x\n\t\t\"s^\" y @r\n\t\"b\" @^ z\n",
	"hello^\n\"<a>\"\n\t\"a\" x\n",
	"<STREAMCMD:SETVAR:?>\n\"<a>\"\n\t\"a\" ?\n<STREAMCMD:REMVAR:x>\n<STREAMCMD:SETVAR:v=?,w>\n\"<.>\"\n\t\".\"\nt\n<STREAMCMD:FLUSH>\n\"<c>\"\n\t\"c\" y\n<STREAMCMD:SETVAR:x>\n",
	"\"<a>\"\n\t\"a\" ?\n<STREAMCMD:FLUSH>\nhello?\n<STREAMCMD:FLUSH>\n<STREAMCMD:IGNORE>\n\"<b>\"\n\t\"b?\"\n<STREAMCMD:RESUME>\n\"<c>\"\n\t\"c\" x\n",
	"\"<a>\"\n\t\"a\" x ID:1% R:?:1%\n\"<b>\"\n\t\"b\" ID:15 R:f:1% #2->%\n",
	"\"<a>\"\n\"<b>\"\n\t\"b\" ?\n",
	"\"<\xc3\xa6\xf0\x9f\x98\x80>\" \xc3\xb8?\n\t\"\xe2\x82\xac\" x @\xc3\xa5\n\xc3\x86 ?\n",
#elif WHICH == 2
	"\"<a>\"\n\t\"a\" x @p\n\t\"a\" y ?\n\n\"<b>\"\n\t\"b\" q\n\t\t\"s\" y @r\n",
	"\"<a>\"\n\t\"a\" x& y\n",
	"\"<a^b>\"\n\t\"a\" x\n",
	"\"<a>\"\n\t\"b=c\" x\n",
	"\"<a>\"\n\t\"b\" x\n\t\t\"s=t\" ?\n",
	"\"<a>\" s&\n\t\"b\" x\n",
	"\"<a>\"\n\t\"=b\" x\n\"<^>\"\n\t\"b\" ?\n",
	"\"<a>\"\n\t\"b=\"\n\t\"c\" ?\n",
#elif WHICH == 3
	"\"<a>\"\n\t\"a\" x @p\n\t\"a\" y ?\n\n\"<b>\"\n\t\"b\" q\n",
	"\"<a>\"\n\t\"a\" x^ y\n",
	"\"<a^b>\"\n\t\"a\" x\n",
	"\"<a>\"\n\t\"b^c\" x\n",
	"\"<a>\"\n\t\"b\" x\n\"<b>\"\n\t\"c\" ?\n\t\"d\" z\n",
	"\"<a>\"\n\t\"^b\" x\n\"<=>\"\n\t\"b\" ?\n",
	"\"<a>\"\n\t\"b=\"\n\t\"c\" ?\n\t\"d\"\n",
#endif
};
#endif
#if WHICH == 4
// what the reader makes of a stream, as the CG stream for the same analysis; ~1 and ~2 are unknown characters
struct Case {
	cg3_sformat f;
	const char* kinds; // per unknown: ? a letter u..z, ^ a printable character not in "not"
	const char* no;
	const char* in;
	const char* out;
};
static const Case T[] = {
	{ CG3SF_FST, "?^", "+#@", "a\ta+~1+N~2\na\tc+~2x\n\n", "\"<a>\"\n\t\"a\" ~1 N~2\n\t\"c\" ~2x\n" },
	{ CG3SF_FST, "^?", "", "a~1b\tc+~2\n\nd\te+x\n\n", "\"<a~1b>\"\n\t\"c\" ~2\n\"<d>\"\n\t\"e\" x\n" },
	{ CG3SF_FST, "^?", "+#", "a\tb~1+~2\na\td~1d\n\n", "\"<a>\"\n\t\"b~1\" ~2\n\t\"d~1d\"\n" },
	{ CG3SF_FST, "??", "", "a\tb+~1#c+~2\n\n", "\"<a>\"\n\t\"c\" ~2\n\t\t\"b\" ~1\n" },
	{ CG3SF_FST, "??", "", "a\tb+~1#c+x#d+~2+y\n\n", "\"<a>\"\n\t\"d\" ~2 y\n\t\t\"c\" x\n\t\t\t\"b\" ~1\n" },
	{ CG3SF_FST, "?", "", "a\tb+x+@q\na\tb+~1\n\nc\td+y+@~1+z\n\n", "\"<a>\"\n\t\"b\" x @q\n\t\"b\" ~1\n\"<c>\"\n\t\"d\" y z @~1\n" },
	{ CG3SF_FST, "1", "", "a\tb+x\t~1,5\na\tc+y\t~1.25\na\td#e+z\t1e38\n\n", "\"<a>\"\n\t\"b\" x <W:~1.500000>\n\t\"c\" y <W:~1.250000>\n\t\"e\" z <W:99999996802856924650656260769173209088.000000>\n\t\t\"d\" <W:99999996802856924650656260769173209088.000000>\n" },
	{ CG3SF_FST, "?", "", "~1\t~1\t+?\n\nd\te+~1\n\n", "\"<~1>\"\n\"<d>\"\n\t\"e\" ~1\n" },
	{ CG3SF_FST, "?", "", "a\t++~1\na\tb++~1\na\tb+++~1\n\n", "\"<a>\"\n\t\"+\" ~1\n\t\"b+\" ~1\n\t\"b++\" ~1\n" },
	{ CG3SF_FST, "?", "", "<p>\na\tb+~1\n<~1>\nc\td+x\n\n", "<p>\n\"<a>\"\n\t\"b\" ~1\n<~1>\n\"<c>\"\n\t\"d\" x\n" },
	{ CG3SF_PLAIN, "?A", "", "a~1 ~2b\n~1\n", "\"<a~1>\"\n\"<~2b>\"\n\"<~1>\"\n" },
	{ CG3SF_PLAIN, "PP", "", "a~1 b~1~2\n", "\"<a>\"\n\"<~1>\"\n\"<b>\"\n\"<~1>\"\n\"<~2>\"\n" },
	{ CG3SF_PLAIN, "PP", "", "a ~1~2b c~1d (e~2)~1.\n", "\"<a>\"\n\"<~1>\"\n\"<~2>\"\n\"<b>\"\n\"<c~1d>\"\n\"<(>\"\n\"<e>\"\n\"<~2>\"\n\"<)>\"\n\"<~1>\"\n\"<.>\"\n" },
	{ CG3SF_PLAIN, "P?", "", "a ~1 ~2\n<p ~2>\n~1~1 b\n", "\"<a>\"\n\"<~1>\"\n\"<~2>\"\n<p ~2>\n\"<~1>\"\n\"<~1>\"\n\"<b>\"\n" },
	{ CG3SF_NICELINE, "?^", "", "a\t[b] ~1 x~2\t\"c\" y\nd\t[d]\n", "\"<a>\"\n\t\"b\" ~1 x~2\n\t\"c\" y\n\"<d>\"\n\t\"d\"\n" },
	{ CG3SF_NICELINE, "?^", "\"\\", "a\t[~1 ~2] x\t\"c ~2\" y\nd\n", "\"<a>\"\n\t\"~1 ~2\" x\n\t\"c ~2\" y\n\"<d>\"\n" },
	{ CG3SF_NICELINE, "?", "", "<p>\na\t[b] x @~1 y\n<~1>\nc\t[~1]\n", "<p>\n\"<a>\"\n\t\"b\" x y @~1\n<~1>\n\"<c>\"\n\t\"~1\"\n" },
	{ CG3SF_APERTIUM, "?^", "<>$/\\", "^a/b<~1><x~2>/c<y>$ ^d/e$", "\"<a>\"\n\t\"b\" ~1 x~2\n\t\"c\" y\n\"<d>\"\n\t\"e\"\n" },
	{ CG3SF_APERTIUM, "?", "", "^a/b<x>+c<~1>$ ^d<s><~1>/e<y>+f<z>+g<~1>$", "\"<a>\"\n\t\"c\" ~1\n\t\t\"b\" x\n\"<d>\" s ~1\n\t\"g\" ~1\n\t\t\"f\" z\n\t\t\t\"e\" y\n" },
	{ CG3SF_APERTIUM, "S?", "", "^a\\~1b/c\\~1d<~2>$", "\"<a~1b>\"\n\t\"c~1d\" ~2\n" },
	{ CG3SF_APERTIUM, "??", "", "^a/b<~1># c$^d/b# ~2<x>+e<y># f<~1>$", "\"<a>\"\n\t\"b# c\" ~1\n\"<d>\"\n\t\"e# f\" y ~1\n\t\t\"b# ~2\" x\n" },
	{ CG3SF_APERTIUM, "??", "", "^a/*~1$^b/<~1>c<~2>$", "\"<a>\"\n\t\"*~1\"\n\"<b>\"\n\t\"c\" ~2 ~1\n" },
	{ CG3SF_APERTIUM, "?", "", "^a/b<x><@~1>$^c/d<@~1><y>$", "\"<a>\"\n\t\"b\" x @~1\n\"<c>\"\n\t\"d\" y @~1\n" },
	{ CG3SF_JSONL, "?^", "\"\\", "{\"w\":\"a\",\"rs\":[{\"l\":\"b\",\"ts\":[\"~1\",\"x~2\"]},{\"l\":\"c~2\",\"ts\":[\"y\"]}]}\n", "\"<a>\"\n\t\"b\" ~1 x~2\n\t\"c~2\" y\n" },
	{ CG3SF_JSONL, "?^", "\"\\", "{\"w\":\"a~2\",\"sts\":[\"s\",\"~1\"],\"rs\":[{\"l\":\"b\",\"ts\":[\"x\"],\"s\":{\"l\":\"c\",\"ts\":[\"~1\"]}}],\"z\":\"t~1\"}\n{\"t\":\"u~1\"}\n", "\"<a~2>\" s ~1\n\t\"b\" x\n\t\t\"c\" ~1\nt~1\nu~1\n" },
};
static std::string subst(const char* s, const std::vector<char>& v) {
	std::string r;
	for (; *s; ++s) {
		if (*s == '~') {
			++s;
			r += v[*s - '1'];
		}
		else {
			r += *s;
		}
	}
	return r;
}
int main() {
	g_err.str("");
	sxapi_start();
	const Case& c = T[sx_choice("case", sizeof(T) / sizeof(*T))];
	std::vector<char> v;
	for (const char* k = c.kinds; *k; ++k) {
		uint8_t x = 0;
		if (*k == '?') {
			x = sx_range<uint8_t>("letter", 'u', 'z');
		}
		else if (*k == '1') {
			x = sx_range<uint8_t>("digit", '1', '4');
		}
		else if (*k == 'A') {
			x = sx_range<uint8_t>("capital", 'A', 'Z');
		}
		else if (*k == 'P') {
			static const char P[] = ",.;:!?()'\"-/*#%&@[]{}_\\";
			x = (uint8_t)P[sx_choice("punctuation", sizeof(P) - 1)];
		}
		else if (*k == 'S') {
			static const char P[] = "^$/\\[]{}<>@~";
			x = (uint8_t)P[sx_choice("escaped", sizeof(P) - 1)];
		}
		else {
			x = sx_range<uint8_t>("chr", '!', '~');
			for (const char* n = c.no; *n; ++n) {
				sxapi_assume(x != (uint8_t)*n);
			}
		}
		v.push_back((char)x);
	}
	std::string in = subst(c.in, v), want = subst(c.out, v);
	Conv tt(CG3SF_CG, CG3SF_CG), ft(c.f, CG3SF_CG);
	std::string got = dense(ft.run(in));
	// read and printed as the same analysis written in CG form is
	want = dense(tt.run(want));
	sxapi_note(("input:\n" + in + "\nas CG:\n" + got + "should be:\n" + want).c_str());
	SX_ASSERT(seq(got, want), "the reader makes of the stream the analysis it spells");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#else
int main() {
	g_err.str("");
	const uint32_t NS = sizeof(S) / sizeof(*S);
	const cg3_sformat F = (WHICH == 1 ? CG3SF_JSONL : WHICH == 2 ? CG3SF_APERTIUM : CG3SF_NICELINE);
	Conv tt(CG3SF_CG, CG3SF_CG), tf(CG3SF_CG, F), ft(F, CG3SF_CG);
	sxapi_start();
	uint32_t k = sx_choice("stream", NS);
	std::string in = fill(S[k]);
	std::string n = "input:\n" + in;
	std::string want = tt.run(in);
	std::string mid = tf.run(in);
	std::string got = ft.run(mid);
	if (WHICH == 1) {
		want = dense(want);
		got = dense(got);
	}
	else {
		want = bare(want);
		got = bare(got);
	}
	sxapi_note((n + "text to text:\n" + want + "the other form:\n" + mid + "and back:\n" + got).c_str());
	SX_ASSERT(seq(got, want), "the analysis comes back from the other format as it went in");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
#endif
