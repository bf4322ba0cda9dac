// C15: the binary stream carries what the text stream does
#include "cg.hpp"
#include "FormatConverter.hpp"
using namespace CG3;
static std::ostringstream g_err;
#ifndef SLOT_LO
	#define SLOT_LO 'u'
#endif
// '?' an unknown letter u..z, '%' an unknown digit 1..4, '=' 0..2, '^' an unknown printable character
static std::string fill(const std::string& spec) {
	std::string r;
	for (char c : spec) {
		if (c == '?') { r += (char)sx_range<uint8_t>("tag", SLOT_LO, 'z'); }
		else if (c == '%') { r += (char)sx_range<uint8_t>("num", '1', '4'); }
		else if (c == '=') { r += (char)sx_range<uint8_t>("num", '0', '2'); }
		else if (c == '^') { r += (char)sx_range<uint8_t>("chr", '!', '~'); }
		else { r += c; }
	}
	return r;
}
struct Conv {
	FormatConverter a;
	Conv(cg3_sformat i, cg3_sformat o, Grammar* g, bool dep) : a(g_err) {
		a.fmt_input = i;
		a.fmt_output = o;
		if (g) {
			a.setGrammar(g);
			a.index();
			a.num_windows = 2;
		}
		else {
			a.is_conv = true;
			a.trace = true;
		}
		a.verbosity_level = 0;
		a.grammar->has_relations = true;
		if (dep) {
			a.parse_dep = true;
			a.has_dep = true;
		}
	}
	std::string run(const std::string& in) {
		std::stringstream is(in), os;
		a.runGrammarOnText(is, os);
		return os.str();
	}
};
// identifiers of relations are names only: number them in the order they are given out
static std::string ids(const std::string& in) {
	std::vector<std::string> names;
	auto num = [&](size_t p) {
		size_t e = p;
		while (e < in.size() && in[e] >= '0' && in[e] <= '9') {
			++e;
		}
		return in.substr(p, e - p);
	};
	for (size_t p = in.find(" ID:"); p != std::string::npos; p = in.find(" ID:", p + 1)) {
		std::string n = num(p + 4);
		if (std::find(names.begin(), names.end(), n) == names.end()) {
			names.push_back(n);
		}
	}
	if (names.empty()) {
		return in;
	}
	std::string out;
	for (size_t i = 0; i < in.size();) {
		bool id = in.compare(i, 4, " ID:") == 0, rel = in.compare(i, 3, " R:") == 0;
		if (!id && !rel) {
			out += in[i++];
			continue;
		}
		size_t p = id ? i + 4 : in.find(':', i + 3) + 1;
		std::string n = num(p);
		auto it = std::find(names.begin(), names.end(), n);
		if (it != names.end()) { // a relation to something that is not there says nothing
			out += in.substr(i, p - i);
			out += std::to_string(it - names.begin());
		}
		i = p + n.size();
	}
	return out;
}
// "#3->3" is how text says that no parent is known
static std::string nop(std::string in) {
	for (size_t p = in.find(" #"); p != std::string::npos; p = in.find(" #", p + 1)) {
		size_t q = in.find("->", p), e = in.find_first_of(" \n", p + 1);
		if (q < e && in.substr(p + 2, q - p - 2) == in.substr(q + 2, e - q - 2)) {
			in.erase(p, e - p);
			--p;
		}
	}
	return in;
}
// which of several mapping tags of a reading is written first says nothing
static std::string norm(const std::string& raw) {
	std::string in = nop(ids(raw));
	std::string out;
	size_t b = 0;
	while (b < in.size()) {
		size_t e = in.find('\n', b);
		e = (e == std::string::npos) ? in.size() : e + 1;
		std::string l = in.substr(b, e - b);
		b = e;
		if (l[0] == '\t') {
			size_t f = l.find(" @");
			size_t g = f;
			std::vector<std::string> m;
			while (g != std::string::npos && g + 1 < l.size() && l[g] == ' ' && l[g + 1] == '@') {
				size_t h = l.find_first_of(" \n", g + 1);
				m.push_back(l.substr(g, h - g));
				g = h;
			}
			if (m.size() > 1) {
				std::sort(m.begin(), m.end());
				std::string j;
				for (auto& x : m) {
					j += x;
				}
				l = l.substr(0, f) + j + l.substr(g);
			}
		}
		out += l;
	}
	return out;
}
static const char* S[] = {
	// text around cohorts, sub-readings
	"\"<a>\" s? t\n\t\"a\" x @p @q\n\t\"a\" y ?\ntext?\n\n\"<b>\"\n\t\"b\"\n\t\t\"s\" y @r\n\t\t\t\"t\" z\nend\n",
	"\"<a>\"\n\t\"a\" ?\n\t\"a\" y\n\n\"<b>\"\n\t\"b\" x\n\t\t\"s?\" y @r\n\t\t\t\"t\" ?\nend\n",
	"\"<a>\"\npre?\n\n\"<b>\"\n\t\"b\" ? ?\n\n\"<c>\"\n\t\"c\" y\n<s>\n\"<d>\"\n\t\"d\" @q @q\n\t\"d\" @q\n",
	// dependencies in tags or parsed
	"\"<a>\"\n\t\"a\" #1->%\n\"<b>\"\n\t\"b\" ? #2->%\n\"<c>\"\n\t\"c\" #3->%\n\"<.>\"\n\t\".\" #4->0\n",
	"\"<a>\"\n\t\"a\" ? #1->=\n\"<.>\"\n\t\".\" #2->0\n\"<a>\"\n\t\"a\" #1->=\n\"<.>\"\n\t\".\" #2->0\n",
	// relations
	"\"<a>\"\n\t\"a\" x ID:1% R:?:1%\n\"<b>\"\n\t\"b\" ID:15 R:f:1% R:f:15\n\"<.>\"\n\t\".\" R:g:15\n",
	// variables and commands
	"<STREAMCMD:SETVAR:?>\n\"<a>\"\n\t\"a\" ?\n<STREAMCMD:REMVAR:x>\n<STREAMCMD:SETVAR:v=?,w>\n\"<.>\"\n\t\".\"\nt\n<STREAMCMD:FLUSH>\n\"<c>\"\n\t\"c\" y\n<STREAMCMD:SETVAR:x>\n",
	"<STREAMCMD:SETVAR:x>\n\"<a>\"\n\t\"a\" ?\n<STREAMCMD:REMVAR:?>\n\"<.>\"\n\t\".\"\n\"<.>\"\n\t\".\" y\n<STREAMCMD:SETVAR:?>\n",
	"\"<a>\"\n\t\"a\" ?\n<STREAMCMD:FLUSH>\nhello?\n<STREAMCMD:FLUSH>\n<STREAMCMD:IGNORE>\n\"<b>\"\n\t\"b?\"\n<STREAMCMD:RESUME>\n\"<c>\"\n\t\"c\" x\n",
	// any characters
	"\"<a>\"\n\t\"a\" x^ y\n\n\"<b>\"\n\t\"b\" x\n",
	"\"<a>\"\n\t\"a\" x\n\n\"<b^>\"\n\t\"b\" x\n",
	"\"<a>\"\n\t\"a\" x\n\n\"<b>\"\n\t\"b\" x\n^text\n",
	"\"<a>\" ? y\n\t\"a\" x\n\"<b>\" x ?\n\t\"b\" \"<a>\" ?\n\t\t\"a\" x\n\"<.>\" x\n\t\".\"\n\"<a>\" y x\n\t\"b\" y\n",
	"\"<a b>\" k\n\t\"a c\" \"<k>\"\n;\t\"del\" k\n\t\"x\" x x\n",
	"\"<a b>\" k\n\t\"a ^ c\" \"<k>\"\n;\t\"del\" k\n\t\"x\" x x\n",
	"\"<\xc3\xa6\xf0\x9f\x98\x80>\" \xc3\xb8?\n\t\"\xe2\x82\xac\" x @\xc3\xa5\n\xc3\x86 ?\n",
};
static const char* G[] = {
	"SECTION\nSELECT (x) IF (1* (y)) ; REMOVE (y) IF (-1 (x)) ; ADD (@n) (y) ; MAP (@q) (x) ; REMOVE IGNORED (z) ;",
	"SETPARENT (x) TO (1* (y)) ; ADDRELATION (q) (x) TO (-1* (y)) ; ADDCOHORT (\"<n>\" \"n\" m) AFTER (x) ; REMCOHORT (z) ; SETVARIABLE OUTPUT (o) (p) (y) ;",
	"ADD (@v) (VAR:x) ; ADD (@w) (VAR:v=y) ; ADD (@p) (*) IF (p (x)) ; ADD (@c) (*) IF (c (*)) ; ADD (@r) (*) IF (r:x (*)) ; ADD (@W) (*) IF (1*W (x)) ; SUBSTITUTE (x) (n) (x) ; ADDCOHORT (\"<m>\" \"m\" n) BEFORE (y) ; MOVE (u) AFTER (1 (*)) ;",
};
int main() {
	g_err.str("");
	const uint32_t NS = sizeof(S) / sizeof(*S), NG = sizeof(G) / sizeof(*G);
	std::vector<std::unique_ptr<CG>> gs;
	for (auto g : G) {
		for (int k = 0; k < 3; ++k) {
			gs.emplace_back(new CG(std::string("DELIMITERS = \"<.>\" ;\n") + g + "\n"));
		}
	}
	Conv tt(CG3SF_CG, CG3SF_CG, nullptr, WHICH == 2), tb(CG3SF_CG, CG3SF_BINARY, nullptr, WHICH == 2), bt(CG3SF_BINARY, CG3SF_CG, nullptr, WHICH == 2);
	CG dg("DELIMITERS = \"<.>\" ;\n"); // windows are part of the binary form
	Conv tb2(CG3SF_CG, CG3SF_BINARY, &dg.g, WHICH == 2);
	std::vector<std::unique_ptr<Conv>> A;
	for (uint32_t i = 0; i < NG; ++i) {
		A.emplace_back(new Conv(CG3SF_CG, CG3SF_CG, &gs[i * 3]->g, WHICH == 2));
		A.emplace_back(new Conv(CG3SF_BINARY, CG3SF_CG, &gs[i * 3 + 1]->g, WHICH == 2));
		A.emplace_back(new Conv(CG3SF_CG, CG3SF_BINARY, &gs[i * 3 + 2]->g, WHICH == 2));
	}
	sxapi_start();
	uint32_t k = sx_choice("stream", NS);
	uint32_t g = sx_choice("grammar", NG + 1);
	std::string in = fill(S[k]);
	std::string n = "input:\n" + in;
	if (g == NG) {
		std::string want = tt.run(in);
		std::string b = tb.run(in);
		std::string got = bt.run(b);
		sxapi_note((n + "text to text:\n" + want + "through binary:\n" + got).c_str());
		SX_ASSERT(seq(norm(got), norm(want)), "the binary form of a stream carries what the text form does");
	}
	else {
		std::string want = A[g * 3]->run(in);
		std::string b = tb2.run(in);
		std::string got = A[g * 3 + 1]->run(b);
		n = std::string("grammar: ") + G[g] + "\n" + n + "from text:\n" + want;
		sxapi_note((n + "from binary:\n" + got).c_str());
		SX_ASSERT(seq(norm(got), norm(want)), "a grammar gives the same on the binary form of a stream");
		got = bt.run(A[g * 3 + 2]->run(in));
		sxapi_note((n + "written as binary:\n" + got).c_str());
		SX_ASSERT(seq(norm(got), norm(want)), "a grammar's binary output carries what its text output does");
	}
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
