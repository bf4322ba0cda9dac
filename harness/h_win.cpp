// C12: windows end where delimiters and limits say, losing nothing
#include "drive.hpp"
#ifndef WHICH
	#define WHICH 1
#endif
#if SX_TIER
	#define NC 6
#else
	#define NC 5
#endif
struct Item {
	std::string w, tag, text; // word, tag of its reading, the line that follows
	bool bare = false;        // no reading at all
};
struct Conf {
	uint32_t soft = 300, hard = 500, nw = 2;
	bool by_tag = false, text = false;
};
static bool is_delim(const Item& x, const Conf& f) { return f.by_tag ? ref::eq(x.tag, "z") : ref::eq(x.w, "z"); }
static bool is_soft(const Item& x, const Conf& f) { return f.by_tag ? ref::eq(x.tag, "y") : ref::eq(x.w, "y"); }

// which window each cohort belongs to
static std::vector<size_t> segment(const std::vector<Item>& v, const Conf& f) {
	std::vector<size_t> cut; // a window ends before this cohort
	size_t b = 0;            // where the present window starts
	bool looked = false;
	for (size_t i = 0; i + 1 < v.size() + 1; ++i) {
		if (i + 1 == v.size()) {
			break; // the last window ends with the stream
		}
		// everything up to i-1 lies in the window, i is complete, i+1 has just been seen
		if (i - b + 1 >= f.soft && !looked) {
			looked = true;
			for (size_t k = i; k-- > b;) {
				if (is_soft(v[k], f)) {
					cut.push_back(k + 1);
					b = k + 1;
					looked = false;
					break;
				}
			}
		}
		size_t n = i - b + 1;
		bool end = (n >= f.soft && is_soft(v[i], f)) || n >= f.hard || is_delim(v[i], f);
		if (f.text && !v[i].text.empty() && ref::eq(v[i].text, "<s>")) {
			end = true;
		}
		if (end) {
			cut.push_back(i + 1);
			b = i + 1;
			looked = false;
		}
	}
	std::vector<size_t> w(v.size(), 0);
	size_t k = 0;
	for (size_t i = 0; i < v.size(); ++i) {
		if (k < cut.size() && cut[k] == i) {
			++k;
		}
		w[i] = k;
	}
	return w;
}
static char letter() { return (char)sx_range<uint8_t>("letter", 'x', 'z'); }

int main() {
	const char* rules = "SECTION\nADD (F) (*) IF (-1 (>>>)) ; ADD (L) (<<<) ; "
#if WHICH == 2
	"ADD (V) (*) IF (1*W (q)) ; ADD (B) (*) IF (-1*W (p)) ;";
#else
	"";
#endif
	std::unique_ptr<CG> byword(new CG(std::string("DELIMITERS = \"<z>\" ;\nSOFT-DELIMITERS = \"<y>\" ;\n") + rules + "\n"));
	std::unique_ptr<CG> bytag(new CG(std::string("DELIMITERS = (z) ;\nSOFT-DELIMITERS = (y) ;\n") + rules + "\n"));
	std::unique_ptr<CG> bytext(new CG(std::string("DELIMITERS = \"<z>\" ;\nTEXT-DELIMITERS = /(^|\\n)<s/r ;\n") + rules + "\n"));
	sxapi_start();
	Conf f;
	std::vector<Item> v;
	CG* g = byword.get();
#if WHICH == 1
	// word forms are unknown; every soft and hard limit
	size_t n = NC;
	f.soft = 1 + sx_choice("soft", 5);
	f.hard = 1 + sx_choice("hard", 6);
	f.nw = (f.soft + f.hard) % 3;
	for (size_t i = 0; i < n; ++i) {
		Item x;
		x.w = std::string(1, letter());
		v.push_back(x);
	}
#elif WHICH == 2
	// how far a test that spans windows can see
	size_t n = NC;
	f.nw = sx_choice("nw", 4);
	f.hard = sx_choice("hard", 2) ? 500 : 2;
	for (size_t i = 0; i < n; ++i) {
		Item x;
		x.w = std::string(1, letter());
		x.tag = i == 0 ? "p" : i + 1 == n ? "q" : "n";
		v.push_back(x);
	}
#elif WHICH == 3
	// delimiters by tag; cohorts without readings
	g = bytag.get();
	f.by_tag = true;
	f.soft = 1 + sx_choice("soft", 4);
	f.hard = 2 + sx_choice("hard", 3);
	f.nw = sx_choice("nw", 2);
	uint32_t bare = sx_choice("bare", 5);
	for (size_t i = 0; i < 4; ++i) {
		Item x;
		x.w = "a";
		if (i + 1 == bare) {
			x.bare = true;
		}
		else {
			x.tag = std::string(1, letter());
		}
		v.push_back(x);
	}
#else
	// text between cohorts, and text that delimits
	g = bytext.get();
	f.text = true;
	f.hard = sx_choice("hard", 2) ? 500 : 2;
	f.nw = sx_choice("nw", 2);
	uint32_t bare = sx_choice("bare", 4);
	for (size_t i = 0; i < 4; ++i) {
		Item x;
		x.w = i == 2 ? std::string(1, letter()) : "a";
		x.bare = i + 1 == bare;
		x.text = "<" + std::string(1, (char)sx_range<uint8_t>("text", 'r', 't')) + ">";
		v.push_back(x);
	}
#endif
	std::string in, want;
	std::vector<size_t> w = segment(v, f);
	if (WHICH == 4) {
		in += "first line\n";
		want += "first line\n";
	}
	for (size_t i = 0; i < v.size(); ++i) {
		Item& x = v[i];
		in += "\"<" + x.w + ">\"\n";
		want += "\"<" + x.w + ">\"\n";
		std::string r = "\t\"" + x.w + "\"" + (x.tag.empty() ? "" : " ") + x.tag;
		if (!x.bare) {
			in += r + "\n";
		}
		else {
			r = "\t\"" + x.w + "\"";
		}
		want += r;
		size_t any = want.size();
		if (i == 0 || w[i - 1] != w[i]) {
			want += " F";
		}
		if (i + 1 == v.size() || w[i + 1] != w[i]) {
			want += " L";
		}
#if WHICH == 2
		if (i + 1 != v.size() && w.back() - w[i] <= f.nw) {
			want += " V";
		}
		if (i != 0 && w[i] <= f.nw) {
			want += " B";
		}
#endif
		if (x.bare && any == want.size()) {
			want.resize(any - r.size()); // nothing was added: its placeholder stays unseen
		}
		else {
			want += "\n";
		}
		if (!x.text.empty()) {
			in += x.text + "\n";
			want += x.text + "\n";
		}
	}
	Run<> run(*g, [&](CG3::GrammarApplicator& a) {
		a.soft_limit = f.soft;
		a.hard_limit = f.hard;
		a.num_windows = f.nw;
	});
	std::string got = run.text(in);
	note("grammar: " + g->src + "soft-limit " + std::to_string(f.soft) + " hard-limit " + std::to_string(f.hard) + " num-windows " + std::to_string(f.nw) + "\ninput:\n" + in + "actual:\n" + got + "expected:\n" + want);
	SX_ASSERT(seq(got, want), "windows end where delimiters and limits say");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
