// C18: text conversion and line reading
#ifndef WHICH
	#define WHICH 1
#endif
#include "cg.hpp"
inline void note(const std::string& s) { sxapi_note(s.c_str()); }
#include "uextras.hpp"
#include "streambuf.hpp"
using namespace CG3;
typedef std::string Str;
// a character by kind; what it is in either form is spelled out here
struct Text {
	Str u8;
	std::u16string u16;
	std::vector<size_t> at; // where characters begin
	void put(uint32_t kind, uint32_t cp) {
		at.push_back(u8.size());
		switch (kind) {
		case 0:
			u8 += (char)cp;
			u16 += (char16_t)cp;
			break;
		case 1:
			u8 += (char)(0xC0 | (cp >> 6));
			u8 += (char)(0x80 | (cp & 0x3F));
			u16 += (char16_t)cp;
			break;
		case 2:
			u8 += (char)(0xE0 | (cp >> 12));
			u8 += (char)(0x80 | ((cp >> 6) & 0x3F));
			u8 += (char)(0x80 | (cp & 0x3F));
			u16 += (char16_t)cp;
			break;
		default:
			u8 += (char)(0xF0 | (cp >> 18));
			u8 += (char)(0x80 | ((cp >> 12) & 0x3F));
			u8 += (char)(0x80 | ((cp >> 6) & 0x3F));
			u8 += (char)(0x80 | (cp & 0x3F));
			u16 += (char16_t)(0xD800 + ((cp - 0x10000) >> 10));
			u16 += (char16_t)(0xDC00 + (cp & 0x3FF));
		}
	}
	// an unknown character of a kind: every code point of that length, or those of one high surrogate's page
	void any(const char* what, uint32_t kind, bool nl = false) {
		static const uint32_t LO[] = { 1, 0x80, 0x800, 0x10000 }, HI[] = { 0x7F, 0x7FF, 0xFFFD, 0x10FFFF };
		uint32_t cp = sx_range<uint32_t>(what, LO[kind], HI[kind]);
		if (kind == 2) {
			sxapi_assume((uint64_t)((cp < 0xD800) | (cp > 0xDFFF)));
		}
		if (!nl) {
			sxapi_assume((uint64_t)((cp != 10) & (cp != 11) & (cp != 12) & (cp != 0x2028) & (cp != 0x2029)));
		}
		put(kind, cp);
	}
};
static bool ueq(const std::u16string& a, const std::u16string& b) {
	return a.size() == b.size() && (a.empty() || sxapi_equal(a.data(), b.data(), a.size() * 2));
}
static const int N = SX_TIER ? 5 : 4;
static void show(const Str& s) {
	note("text: " + s + "\n");
}
int main() {
	sxapi_start();
#if WHICH == 1
	// lines in pieces of any size
	Text t;
	std::vector<bool> nl;
	bool last_nl = true;
	for (int i = 0; i < N; ++i) {
		uint32_t k = sx_choice("kind", 6);
		if (k == 5) { break; }
		if (k == 4) { t.put(0, '\n'); nl.push_back(true); last_nl = true; }
		else { t.any("char", k); last_nl = false; nl.push_back(false); if (k == 3) { nl.push_back(false); } }
	}
	(void)last_nl;
	uint32_t n = 1 + sx_choice("size", SX_TIER ? 5 : 4);
	uint32_t two = SX_TIER ? sx_choice("other stream between", 2) : n & 1;
	show(t.u8);
	auto in_ = std::make_unique<std::stringstream>(t.u8);
	auto other_ = std::make_unique<std::stringstream>("\xF0\x9F\x98\x80\xF0\x9F\x98\x81\xF0\x9F\x98\x82\xF0\x9F\x98\x83\xF0\x9F\x98\x84");
	auto& in = *in_;
	auto& other = *other_;
	std::u16string got, ogot;
	std::vector<size_t> ends;
	for (int guard = 0; guard < 40; ++guard) {
		UString buf(n + 3, 0x55);
		bool more = u_fgets(&buf[0], (int32_t)n, in) != nullptr;
		SX_ASSERT(buf[n + 1] == 0x55 && buf[n + 2] == 0x55, "u_fgets stays within its buffer");
		size_t l = 0;
		while (l < n && buf[l] != 0) {
			++l;
		}
		for (size_t i = 0; i < l; ++i) {
			got += buf[i];
			// a piece ends after a newline
			SX_ASSERT(i + 1 == l || !nl[got.size() - 1], "a line ends at its newline");
		}
		if (l < n && l) {
			SX_ASSERT(nl[got.size() - 1] || got.size() == t.u16.size(), "a line is read up to its newline, the size, or the end");
		}
		if (two) {
			UChar c = u_fgetc(other);
			if (c != U_EOF) { ogot += c; }
		}
		if (!more && in.eof()) {
			break;
		}
	}
	SX_ASSERT(ueq(got, t.u16), "every character is read, in order");
	if (two) {
		std::u16string want(u"\U0001F600\U0001F601\U0001F602\U0001F603\U0001F604");
		SX_ASSERT(ogot == want.substr(0, ogot.size()), "streams do not mix");
	}
#elif WHICH == 2
	// a line with its blanks made one
	Text t;
	std::vector<int> cls; // per UTF-16 unit: 0 other, 1 space, 2 tab
	static const uint32_t SIZES[] = { 6, 8, 11 };
	uint32_t size = SIZES[sx_choice("size", SX_TIER ? 3 : 2)], tabs = sx_choice("keep tabs", 2), end = sx_choice("end", 2);
	uint32_t lead = SX_TIER ? sx_choice("lead", 5) : 1 + sx_choice("lead", 3);
	for (uint32_t i = 0; i < lead; ++i) { t.put(0, 'a' + i); cls.push_back(0); }
	int M = SX_TIER ? 6 : 4;
	for (int i = 0; i < M; ++i) {
		switch (sx_choice("kind", 5)) {
		case 0: { uint32_t c = sx_range<uint8_t>("char", '!', '~'); t.put(0, c); cls.push_back(0); break; }
		case 1: t.put(0, ' '); cls.push_back(1); break;
		case 2: t.put(0, '\t'); cls.push_back(2); break;
		case 3: { uint32_t c = 0x1F600 | sx_range<uint8_t>("wide", 0, 0x3F); t.put(3, c); cls.push_back(0); cls.push_back(0); break; }
		default: t.put(1, 0xA0); cls.push_back(1); break;
		}
	}
	std::u16string want;
	for (size_t i = 0; i < cls.size();) {
		if (!cls[i]) {
			want += t.u16[i++];
			continue;
		}
		bool tab = false;
		for (; i < cls.size() && cls[i]; ++i) {
			tab = tab || cls[i] == 2;
		}
		want += tab && tabs ? u'\t' : u' ';
	}
	std::u16string line16 = t.u16;
	Str all = t.u8;
	if (end) {
		all += "\n";
		line16 += u'\n';
	}
	all += end ? "next\n" : "";
	show(all);
	auto in_ = std::make_unique<std::stringstream>(all);
	auto& in = *in_;
	UString line(size, 0), cleaned(size + 1, 0);
	size_t k = get_line_clean(line, cleaned, in, tabs != 0);
	SX_ASSERT(k == want.size(), "the cleaned line has the length returned");
	SX_ASSERT(ueq(std::u16string(cleaned.begin(), cleaned.begin() + k), want), "blanks are made one and nothing else changes");
	SX_ASSERT(cleaned[k] == 0, "the cleaned line is terminated");
	SX_ASSERT(line.size() > line16.size() && ueq(std::u16string(line.begin(), line.begin() + line16.size()), line16) && line[line16.size()] == 0, "the line as such is kept whole");
	Str rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	SX_ASSERT(rest == (end ? "next\n" : ""), "only that line is consumed");
#elif WHICH == 3
	// detection buffer, byte order mark, and what follows
	Text t;
	uint32_t bom = sx_choice("bom", 2);
	if (bom) { t.put(2, 0xFEFF); }
	int M = SX_TIER ? 5 : 4;
	for (int i = 0; i < M; ++i) {
		uint32_t k = sx_choice("kind", 5);
		if (k == 4) { break; }
		t.any("char", k, true);
	}
	bool isbom = t.u16.size() && t.u16[0] == 0xFEFF;
	uint32_t size = 5 + sx_choice("size", SX_TIER ? 9 : 6);
	show(t.u8);
	auto in_ = std::make_unique<std::stringstream>(t.u8);
	auto& in = *in_;
	Str buf = read_utf8(in, size);
	bool border = buf.size() == t.u8.size();
	for (auto a : t.at) { border = border || a == buf.size(); }
	SX_ASSERT(border, "what is looked at ends between characters");
	SX_ASSERT(seq(buf, t.u8.substr(0, buf.size())), "what is looked at is the beginning");
	auto s_ = std::make_unique<std::istream>(new bstreambuf(in, std::move(buf)));
	auto& s = *s_;
	bool stripped = ux_stripBOM(s);
	SX_ASSERT(stripped == isbom, "exactly a byte order mark is stripped");
	Str want = t.u8.substr(stripped ? 3 : 0), got;
	uint32_t how = SX_TIER ? sx_choice("how", 4) : (size + (uint32_t)t.u8.size()) % 4;
	for (int guard = 0; guard < 40 && !s.eof(); ++guard) {
		if (how == 0) {
			int c = s.get();
			if (c != EOF) { got += (char)c; }
		}
		else if (how == 1) { // read three at a time, between guards
			char b[5] = { 0x55, 0x55, 0x55, 0x55, 0x55 };
			s.read(b + 1, 3);
			got.append(b + 1, (size_t)s.gcount());
			SX_ASSERT(b[0] == 0x55 && b[4] == 0x55, "reading stays within the buffer given");
		}
		else if (how == 2) { // look ahead, then read
			int c = s.peek();
			if (c == EOF) { break; }
			char b[4] = { 0x55, 0x55, 0x55, 0x55 };
			s.read(b, 2);
			got.append(b, (size_t)s.gcount());
			SX_ASSERT(b[2] == 0x55 && b[3] == 0x55, "reading stays within the buffer given");
		}
		else { // put back what was read
			int c = s.get();
			if (c == EOF) { break; }
			s.putback((char)c);
			c = s.get();
			got += (char)c;
		}
	}
	SX_ASSERT(seq(got, want), "every byte comes once, in order");
#elif WHICH == 4
	// formatted output, and strings in binary form
	uint32_t what = sx_choice("what", 5);
	static const size_t LEN[] = { 0, 498, 499, 500, 999, 1000, 1, 496, 497, 501, 998, 1001, 1499, 1500 };
	if (what < 2) {
		Text t;
		size_t l = LEN[sx_choice("length", 14)];
		Str pre(l, 'p');
		UString upre(l, 'p');
		int M = SX_TIER ? 3 : 2;
		for (int i = 0; i < M; ++i) {
			uint32_t k = sx_choice("kind", 4);
			t.any("char", k, true);
		}
		note("length " + std::to_string(l) + "\n");
		auto os_ = std::make_unique<std::ostringstream>();
		auto& os = *os_;
		UString us(t.u16.begin(), t.u16.end());
		if (what == 0) { // in one argument
			UString one = upre + us;
			u_fprintf(os, "<%S>\n", one.data());
			SX_ASSERT(seq(os.str(), "<" + pre + t.u8 + ">\n"), "formatted output is the text");
		}
		else { // in two, with text around
			u_fprintf(os, "%S (%S) %S!\n", upre.data(), us.data(), upre.data());
			SX_ASSERT(seq(os.str(), pre + " (" + t.u8 + ") " + pre + "!\n"), "formatted output is the text");
		}
	}
	else if (what == 2) {
		uint32_t c = sx_range<uint32_t>("char", 1, 0x7FFF);
		auto os_ = std::make_unique<std::ostringstream>();
		auto& os = *os_;
		u_fputc((UChar32)c, os);
		Text t;
		t.put(c < 0x80 ? 0 : c < 0x800 ? 1 : 2, c);
		SX_ASSERT(seq(os.str(), t.u8), "a character is written as it is");
	}
	else {
		Text a, b;
		for (int i = 0; i < 3; ++i) {
			uint32_t k = sx_choice("kind", 5);
			if (k == 4) { break; }
			(i == 2 ? b : a).any("char", k, true);
		}
		UString ua(a.u16.begin(), a.u16.end()), ub(b.u16.begin(), b.u16.end());
		auto io_ = std::make_unique<std::stringstream>();
		auto& io = *io_;
		UString ra, rb;
		if (what == 3) {
			writeUTF8_Raw(io, ua);
			writeUTF8_Raw(io, ub);
			ra = readUTF8_Raw(io);
			rb = readUTF8_Raw(io);
		}
		else {
			writeUTF8_LE(io, ua);
			writeUTF8_LE(io, ub);
			ra = readUTF8_LE(io);
			rb = readUTF8_LE(io);
		}
		SX_ASSERT(ueq(std::u16string(ra.begin(), ra.end()), a.u16) && ueq(std::u16string(rb.begin(), rb.end()), b.u16), "strings come back from their binary form");
	}
#elif WHICH == 5
	// lists of numbers and ranges, and small predicates
	uint32_t what = sx_choice("what", 4);
	if (what == 0) {
		Str v;
		int M = SX_TIER ? 7 : 6;
		for (int i = 0; i < M; ++i) {
			uint8_t c = sx_range<uint8_t>("char", ',', '4');
			sxapi_assume((uint64_t)((c != '.') & (c != '/')));
			v += (char)c;
		}
		uint32_t l = sx_choice("length", M) + 1;
		v.resize(l);
		// what it says: numbers and ranges of numbers, with commas between
		std::vector<uint32_t> want;
		bool range = false, ok = true;
		size_t i = 0;
		uint32_t parts = 0;
		while (ok) {
			auto num = [&](uint32_t& n) {
				size_t b = i;
				n = 0;
				while (i < l && v[i] >= '0' && v[i] <= '9') {
					n = n * 10 + (uint32_t)(v[i++] - '0');
				}
				return i > b && i - b <= 2;
			};
			uint32_t a = 0, b = 0;
			ok = num(a);
			b = a;
			if (ok && i < l && v[i] == '-') {
				++i;
				ok = num(b);
				range = true;
			}
			if (!ok) { break; }
			++parts;
			for (uint32_t j = a; j <= b; ++j) {
				want.push_back(j);
			}
			if (i >= l) { break; }
			ok = v[i++] == ',';
		}
		sxapi_assume(ok);
		uint32_t fill = sx_choice("fill", 2);
		if (want.size() == 1 && !range && fill) { // a single number means all up to it
			uint32_t n = want[0];
			want.clear();
			for (uint32_t j = 1; j <= n; ++j) {
				want.push_back(j);
			}
		}
		note("value: " + v + "\n");
		std::vector<uint32_t> got;
		GAppSetOpts_ranged(v.c_str(), got, fill != 0);
		(void)parts;
		bool same = got.size() == want.size();
		for (size_t j = 0; same && j < got.size(); ++j) {
			same = got[j] == want[j];
		}
		SX_ASSERT(same, "the numbers and ranges are those given");
	}
	else if (what == 1) { // set operators
		UChar s[5] = { sx_var<uint16_t>("a"), sx_var<uint16_t>("b"), sx_var<uint16_t>("c"), 0, 0 };
		int want = S_IGNORE;
		if (s[0] && s[1] == 0) {
			switch (s[0]) {
			case '|': want = S_OR; break;
			case '+': want = S_PLUS; break;
			case '-': want = S_MINUS; break;
			case '^': want = S_FAILFAST; break;
			case '\\': want = S_SET_DIFF; break;
			case 0x2229: want = S_SET_ISECT_U; break;
			case 0x2206: want = S_SET_SYMDIFF_U; break;
			}
		}
		else if ((s[0] == 'O' || s[0] == 'o') && (s[1] == 'R' || s[1] == 'r') && s[2] == 0) {
			want = S_OR;
		}
		if (s[0]) {
			SX_ASSERT(ux_isSetOp(s) == want, "set operators are recognised");
		}
	}
	else if (what == 2) { // keywords, in upper or lower case
		UChar s[8] = { '"', 0, 0, 0, 0, 'x', 0, 0 };
		for (int i = 1; i < 5; ++i) {
			s[i] = sx_range<uint16_t>("char", 0x21, 0x7e);
		}
		uint32_t lead = sx_choice("lead", 3);
		s[0] = lead == 0 ? ' ' : lead == 1 ? '"' : '<';
		static const char16_t U[] = u"MAP", L[] = u"map";
		bool m = true;
		for (int i = 0; i < 3; ++i) {
			m = m && (s[1 + i] == U[i] || s[1 + i] == L[i]);
		}
		bool alnum = (s[4] >= '0' && s[4] <= '9') || (s[4] >= 'a' && s[4] <= 'z') || (s[4] >= 'A' && s[4] <= 'Z');
		bool str = (lead == 1 && s[4] == '"') || (lead == 2 && s[4] == '>');
		size_t got = IS_ICASE(&s[1], u"MAP", u"map");
		(void)str;
		if (lead == 0) {
			SX_ASSERT(got == (m && !alnum ? 3u : 0u), "keywords are recognised");
		}
		bool c = true;
		for (int i = 0; i < 3; ++i) {
			c = c && (s[1 + i] == U[i] || s[1 + i] == U[i] + 32);
		}
		SX_ASSERT(ux_simplecasecmp(&s[1], UStringView(U, 3)) == c, "names compare regardless of case");
	}
	else { // copies for messages
		UChar s[6] = {}, d[8];
		for (int i = 0; i < 4; ++i) {
			s[i] = sx_var<uint16_t>("char");
		}
		for (auto& x : d) { x = 0x55; }
		ux_bufcpy(d, s, 3);
		bool ok = true;
		int i = 0;
		for (; i < 3 && s[i]; ++i) {
			ok = ok && d[i] == (s[i] == 10 || s[i] == 13 ? s[i] + 0x2400 : s[i]);
		}
		SX_ASSERT(ok && d[i] == 0 && d[4] == 0x55, "excerpts are copied within bounds");
		UChar e[5] = { s[0], s[1], s[2], 0, 0 };
		bool blank = true;
		for (int j = 0; j < 3 && e[j]; ++j) {
			blank = blank && ISSPACE(e[j]);
		}
		SX_ASSERT(ux_isEmpty(e) == blank, "blank text is recognised");
	}
#elif WHICH == 6 // replacing in variable strings, from the left and without looking at what was put in
	const int LEN = SX_TIER ? 5 : 4;
	std::u16string t, from, to, want;
	uint32_t n = sx_choice("length", LEN + 1), f = 1 + sx_choice("from length", 2), o = sx_choice("to length", 3);
	for (uint32_t i = 0; i < n; ++i) {
		t += (char16_t)sx_range<uint16_t>("text", 'a', 'b');
	}
	for (uint32_t i = 0; i < f; ++i) {
		from += (char16_t)sx_range<uint16_t>("from", 'a', 'b');
	}
	for (uint32_t i = 0; i < o; ++i) {
		to += (char16_t)sx_range<uint16_t>("to", 'a', 'b');
	}
	size_t count = 0;
	for (size_t i = 0; i < t.size();) {
		bool hit = i + f <= t.size();
		for (size_t j = 0; hit && j < f; ++j) {
			hit = (t[i + j] == from[j]);
		}
		if (hit) {
			want += to;
			i += f;
			++count;
		}
		else {
			want += t[i++];
		}
	}
	UnicodeString us(t.data(), (int32_t)t.size());
	size_t got = findAndReplace(us, UStringView(from), UStringView(to));
	std::u16string res(us.getBuffer(), us.length());
	SX_ASSERT(got == count && ueq(res, want), "every occurrence is replaced once");
#endif
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
