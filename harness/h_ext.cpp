// C22: what an external program is sent, and what its answer does
#include "cg.hpp"
#include "process.hpp"
using namespace CG3;
inline void note(const std::string& s) { sxapi_note(s.c_str()); }
typedef std::string Str;

// ---- the program at the other end of the pipe, played here; the form of the packets is that of the manual
struct Rd {
	uint32_t flags = 0;
	Str base;
	std::vector<Str> tags;
};
struct Ch {
	uint32_t num = 0, flags = 0, parent = 0;
	Str wf, text;
	std::vector<Rd> r;
};
struct Win {
	uint32_t num = 0;
	std::vector<Ch> c;
};
struct Prog {
	Str cmd;
	Str in, out;
	size_t pos = 0;
	bool hello = false;
	std::vector<Win> seen;
};
static std::vector<Prog*> g_prog;
static std::function<bool(Win&, size_t)> g_answer; // false: null response
static Str g_bad;
struct Reader {
	const Str& s;
	size_t p = 0, end;
	Reader(const Str& s_, size_t p_, size_t e) : s(s_), p(p_), end(e) {}
	uint32_t num(int w) {
		uint32_t v = 0;
		if (p + w > end) {
			g_bad = "packet too short";
			p = end;
			return 0;
		}
		memcpy(&v, s.data() + p, w);
		p += w;
		return (uint32_t)sxapi_conc(v);
	}
	Str text() {
		uint32_t n = num(2);
		if (p + n > end) {
			g_bad = "text beyond its packet";
			return "";
		}
		Str r(s, p, n);
		p += n;
		return r;
	}
	Reader part() {
		uint32_t n = num(4);
		if (p + n > end) {
			g_bad = "part beyond its packet";
			n = 0;
		}
		Reader r(s, p, p + n);
		p += n;
		return r;
	}
	void done() {
		if (p != end) {
			g_bad = "a length that is not the sum of its parts";
		}
	}
};
static void put(Str& o, uint32_t v, int w) { o.append((const char*)&v, w); }
static void put(Str& o, const Str& t) {
	put(o, (uint32_t)t.size(), 2);
	o += t;
}
static Str pack(const Win& w) {
	Str o;
	put(o, w.num, 4);
	put(o, (uint32_t)w.c.size(), 4);
	for (auto& c : w.c) {
		Str oc;
		put(oc, c.num, 4);
		put(oc, c.flags, 4);
		if (c.flags & 2) {
			put(oc, c.parent, 4);
		}
		put(oc, c.wf);
		put(oc, (uint32_t)c.r.size(), 4);
		for (auto& r : c.r) {
			Str orr;
			put(orr, r.flags, 4);
			if (r.flags & 8) {
				put(orr, r.base);
			}
			put(orr, (uint32_t)r.tags.size(), 4);
			for (auto& t : r.tags) {
				put(orr, t);
			}
			put(oc, (uint32_t)orr.size(), 4);
			oc += orr;
		}
		if (c.flags & 1) {
			put(oc, c.text);
		}
		put(o, (uint32_t)oc.size(), 4);
		o += oc;
	}
	Str all;
	put(all, (uint32_t)o.size(), 4);
	return all + o;
}
static void serve(Prog& g) {
	if (!g.hello) {
		Reader r(g.in, g.pos, g.in.size());
		if (r.num(4) != 7226) {
			g_bad = "protocol version";
		}
		g.pos = r.p;
		g.hello = true;
	}
	while (g.pos + 4 <= g.in.size()) {
		Reader a(g.in, g.pos, g.in.size());
		Reader w = a.part();
		g.pos = a.p;
		Win n;
		n.num = w.num(4);
		uint32_t cs = w.num(4);
		for (uint32_t i = 0; i < cs && g_bad.empty(); ++i) {
			Reader c = w.part();
			Ch ch;
			ch.num = c.num(4);
			ch.flags = c.num(4);
			if (ch.flags & 2) {
				ch.parent = c.num(4);
			}
			ch.wf = c.text();
			uint32_t rs = c.num(4);
			for (uint32_t j = 0; j < rs && g_bad.empty(); ++j) {
				Reader r = c.part();
				Rd rd;
				rd.flags = r.num(4);
				if (rd.flags & 8) {
					rd.base = r.text();
				}
				uint32_t ts = r.num(4);
				for (uint32_t k = 0; k < ts && g_bad.empty(); ++k) {
					rd.tags.push_back(r.text());
				}
				r.done();
				ch.r.push_back(rd);
			}
			if (ch.flags & 1) {
				ch.text = c.text();
			}
			c.done();
			n.c.push_back(ch);
		}
		w.done();
		g.seen.push_back(n);
		if (g_answer(n, g.seen.size())) {
			g.out += pack(n);
		}
		else {
			put(g.out, 0, 4);
		}
	}
}
static Prog* prog_of(void* f) {
	for (auto p : g_prog) {
		if ((void*)p == f) {
			return p;
		}
	}
	return nullptr;
}
extern "C" {



size_t sx_fread(void* p, size_t s, size_t n, void* f) {
	Prog* g = prog_of(f);
	if (!g) {
		return fread_unlocked(p, s, n, (FILE*)f);
	}
	static std::map<Prog*, size_t> at;
	size_t& a = at[g];
	size_t k = std::min(s * n, g->out.size() - a);
	memcpy(p, g->out.data() + a, k);
	a += k;
	if (k < s * n) {
		g_bad = "waits for more than was answered";
	}
	return k / (s ? s : 1);
}
size_t sx_fwrite(const void* p, size_t s, size_t n, void* f) {
	Prog* g = prog_of(f);
	if (!g) {
		return fwrite_unlocked(p, s, n, (FILE*)f);
	}
	g->in.append((const char*)p, s * n);
	return n;
}
int sx_fflush(void* f) {
	Prog* g = prog_of(f);
	if (!g) {
		return fflush_unlocked((FILE*)f);
	}
	serve(*g);
	return 0;
}
#ifdef SX_REPLAY
size_t fread(void* p, size_t s, size_t n, FILE* f) { return sx_fread(p, s, n, f); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { return sx_fwrite(p, s, n, f); }
int fflush(FILE* f) { return sx_fflush(f); }
#endif
}
namespace CG3_PopenPlus {
popen_plus_process* popen_plus(const char* cmd) {
	Prog* g = new Prog;
	g->cmd = cmd;
	g_prog.push_back(g);
	auto p = (popen_plus_process*)calloc(1, sizeof(popen_plus_process));
	p->read_fp = p->write_fp = (FILE*)g;
	return p;
}
int popen_plus_close(popen_plus_process* p) {
	free(p);
	return 0;
}
int popen_plus_kill(popen_plus_process*) { return 0; }
int popen_plus_kill_by_id(int) { return 0; }
int popen_plus_terminate(popen_plus_process*) { return 0; }
int popen_plus_terminate_with_id(int) { return 0; }
}

// ---- a window as the CG stream of the same analysis
static bool g_dep = false;
static Str cgtext(const Win& w) {
	Str o;
	for (auto& c : w.c) {
		o += c.wf + "\n";
		for (auto& r : c.r) {
			if (r.flags & 6) { // invisible or deleted
				continue;
			}
			o += "\t" + r.base;
			for (auto& t : r.tags) {
				if (t != "<<<") {
					o += " " + t;
				}
			}
			if (g_dep) {
				o += " #" + std::to_string(c.num) + "->" + std::to_string((c.flags & 2) ? c.parent : c.num);
			}
			o += "\n";
		}
		o += c.text;
		if (!c.text.empty() && c.text.back() != '\n') {
			o += '\n';
		}
	}
	return o;
}
static Str dense(const Str& in) {
	Str out;
	for (char c : in) {
		if (c != '\n' || (!out.empty() && out.back() != '\n')) {
			out += c;
		}
	}
	return out;
}
static Str bare(const Str& in) {
	Str out;
	size_t b = 0;
	while (b < in.size()) {
		size_t e = in.find('\n', b);
		e = (e == Str::npos) ? in.size() : e + 1;
		if (in[b] == '"' || in[b] == '\t') {
			out += in.substr(b, e - b);
		}
		b = e;
	}
	return out;
}
static Str fill(const char* s) {
	Str r;
	for (; *s; ++s) {
		if (*s == '?') {
			r += (char)sx_range<uint8_t>("tag", 'w', 'z');
		}
		else {
			r += *s;
		}
	}
	return r;
}
#define DELIM "DELIMITERS = \"<.>\" ;\nMAPPING-PREFIX = @ ;\nLIST T = x y z ;\n"
struct Case {
	const char *before, *call, *after;
};
static const Case G[] = {
	{ "", "SECTION\nEXTERNAL ONCE prog (*) ;\n", "" },
	{ "BEFORE-SECTIONS\nREMOVE (x) ;\nADD (n) (y) ;\n", "BEFORE-SECTIONS\nEXTERNAL ONCE prog (*) ;\n", "SECTION\nSELECT (x) ;\nADD (m) (w) ;\n" },
	{ "BEFORE-SECTIONS\nMAP (@m) (y) ;\n", "BEFORE-SECTIONS\nEXTERNAL ONCE prog (*) IF (0 T OR (n)) ;\n", "SECTION\nREMOVE (z) IF (-1 (*)) ;\nADD (k) (@m) ;\n" },
	{ "BEFORE-SECTIONS\nADDCOHORT (\"<n>\" \"n\" N) AFTER (y) ;\nREMCOHORT (z) ;\n", "BEFORE-SECTIONS\nEXTERNAL ONCE prog (*) ;\n", "SECTION\nADD (m) (x) IF (1 (w)) ;\n" },
	{ "", "BEFORE-SECTIONS\nEXTERNAL ONCE prog (*) ;\n", "SECTION\nADD (p) (*) IF (p (x)) ;\nADD (c) (*) IF (c (x)) ;\nADD (s) (*) IF (s (y)) ;\n" },
	{ "", "BEFORE-SECTIONS\nEXTERNAL ONCE prog (*) ;\n", "SECTION\nSUBSTITUTE (x) (m) (x) ;\nSELECT (\"<q>\") IF (0 (\"b\")) ;\nADD (f) (\"<q>\") ;\nADD (g) (\"k\") ;\nREMOVE (u) ;\n" },
	{ "", "SECTION\nEXTERNAL ONCE prog (*) ; EXTERNAL ONCE prog (*) ;\n", "SECTION\nADD (m) (w) ;\n" },
};
static const char* S[] = {
	"\"<a>\"\n\t\"a\" x ?\n\t\"a\" h @p\nsome text\n\"<b>\"\n\t\"b\" ? w\n\t\"k\" q r\n",
	"\"<a>\"\n\t\"a\" ?\n\"<.>\"\n\t\".\"\nt\n\"<c>\"\n\t\"c\" ?\n\t\"d\" y\n\"<\xc3\xa6>\"\n\t\"\xe2\x82\xac\" ? \xf0\x9f\x98\x80\n",
	"\"<a>\"\n\t\"a\" ? #1->2\n\"<b>\"\n\t\"b\" x ? #2->0\n\"<c>\"\n\t\"c\" y #3->2\n",
};
struct Run2 {
	CG g;
	std::unique_ptr<Run<>> r;
	Run2(const Str& t, bool dep) : g(t) {
		r.reset(new Run<>(g, [&](GrammarApplicator& a) {
			a.verbosity_level = 0;
			if (dep) {
				a.parse_dep = true;
			}
		}));
	}
	// streams must not live on the stack of the engine
	Str text(const Str& in) {
		auto is = std::make_unique<std::stringstream>(in);
		auto os = std::make_unique<std::stringstream>();
		r->ga.runGrammarOnText(*is, *os);
		return os->str();
	}
};
static const char* CH[] = { "no answer", "the same", "the same, marked", "tags", "one more tag", "base form", "invisible", "deleted", "word form", "text", "unmarked tags", "mapping", "no tags", "parent", "all of one reading", "word form and tags" };
int main() {
	const uint32_t NG = sizeof(G) / sizeof(*G), NC = sizeof(CH) / sizeof(*CH);
	std::vector<std::unique_ptr<Run2>> before, whole, after;
	for (int dep = 0; dep < 2; ++dep) {
		for (auto& c : G) {
			before.emplace_back(new Run2(Str(DELIM) + c.before, dep));
			whole.emplace_back(new Run2(Str(DELIM) + c.before + c.call + c.after, dep));
			after.emplace_back(new Run2(Str(DELIM) + c.after, dep));
		}
	}
	sxapi_start();
	uint32_t g = sx_choice("grammar", NG), s = sx_choice("stream", sizeof(S) / sizeof(*S)), ch = sx_choice("answer", NC);
	g_dep = (s == 2);
	sxapi_assume(!(g_dep && g == 3)); // cohorts that come and go are renumbered in print
	Str in = fill(S[s]);
	uint32_t at = ch < 2 ? 0 : sx_choice("cohort", 2);
	Str nt = ch == 3 || ch == 4 || ch == 10 || ch == 14 || ch == 15 ? fill("?") : Str("m");
	uint32_t np = ch == 13 ? sx_choice("parent", 4) : 0;
	g_answer = [&](Win& w, size_t) {
		if (ch == 0) {
			return false;
		}
		if (ch == 1 || at >= w.c.size()) {
			return true;
		}
		Ch& c = w.c[at];
		if (ch == 13) {
			sxapi_assume(g_dep && np != c.num);
			c.parent = np;
			c.flags |= 2;
			return true;
		}
		if (ch == 8 || ch == 15) {
			sxapi_assume(c.wf != "\"<.>\""); // it would end no window when read again
			c.wf = "\"<q>\"";
		}
		if (ch == 9) {
			c.text = "new text\n";
			c.flags |= 1;
		}
		if (c.r.empty() || ch == 8 || ch == 9) {
			return true;
		}
		Rd& r = c.r[c.r.size() > 1 ? 1 : 0];
		Rd old = r;
		// whether a reading counts as mapped is not for an answer to say, so mapping tags stay
		bool mapped = false;
		for (auto& t : r.tags) {
			mapped = mapped || t[0] == '@';
		}
		sxapi_assume(!mapped || ch < 3 || (ch > 4 && ch < 10) || ch == 4 || ch == 13);
		r.flags |= 1;
		switch (ch) {
		case 3: r.tags = { "n", nt }; break;
		case 4: r.tags.push_back(nt); break;
		case 5: r.base = "\"k\""; break;
		case 6: sxapi_assume(c.r.size() > 1 && g != 5); r.flags |= 2; break;
		case 7: sxapi_assume(c.r.size() > 1); r.flags |= 4; break;
		case 10: r.flags = old.flags; r.tags = { nt }; break;
		case 11: sxapi_assume(g == 0 || g == 2); r.tags = { "n", "@q" }; break;
		case 12: r.tags.clear(); break;
		case 14: r.base = "\"k\""; r.tags = { nt, "newtag" }; break;
		case 15: r.flags = old.flags; r.tags = { nt }; break;
		}
		return true;
	};
	size_t k = g_dep * NG + g;
	Str got = dense(whole[k]->text(in));
	Str first = dense(before[k]->text(in));
	Str n = Str("grammar:\n") + whole[k]->g.src + "input:\n" + in + "the answer: " + CH[ch] + "\n";

	SX_ASSERT(g_bad.empty(), "the packets are well formed");
	// what was sent
	Str sent, answered;
	if (!g_prog.empty()) {
		SX_ASSERT(g_prog.size() == 1 && g_prog[0]->cmd == "prog", "the program is started once");
		uint32_t last = 0;
		bool once = true;
		bool second = false;
		for (auto& w : g_prog[0]->seen) {
			if (g == 6) { // two rules
				second = !second;
				if (second) {
					once = once && w.num > last;
					last = w.num;
					sent += cgtext(w);
					continue;
				}
				once = once && w.num == last;
				g_answer(w, 0);
				answered += cgtext(w);
				continue;
			}
			once = once && w.num > last;
			last = w.num;
			sent += cgtext(w);
			g_answer(w, 0);
			answered += cgtext(w);
		}
		SX_ASSERT(once && !second, "each window is sent once by each rule");
	}
	bool all = (g != 2);
	if (all) {
		if (g == 3) { // the text after a removed cohort belongs to no cohort of the window
			SX_ASSERT(seq(bare(sent), bare(first)), "the window sent is the window as it is");
		}
		SX_ASSERT(g == 3 || seq(dense(sent), first), "the window sent is the window as it is");
		if (ch == 10) {
			answered = sent;
		}
		Str want = dense(after[k]->text(answered));
		if (g == 3) {
			got = bare(got);
			want = bare(want);
		}
		note("sent:\n" + sent + "answered:\n" + answered + "actual:\n" + got + "expected:\n" + want);
		SX_ASSERT(seq(got, want), "the answer changes what it names and nothing else");
	}
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
