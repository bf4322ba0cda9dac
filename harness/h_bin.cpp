// C14: a compiled grammar behaves as its source
#include "drive.hpp"
#include "BinaryGrammar.hpp"
#include "zoo.hpp"
struct Two {
	std::unique_ptr<CG> t, t2;
	std::unique_ptr<CG3::Grammar> b, b_, c;
	std::ostringstream err;
	std::stringstream dummy;
	std::string b1, b2;
	std::unique_ptr<CG3::GrammarApplicator> ab, ac;
	std::unique_ptr<Run<>> at;
	explicit Two(const std::string& s) {
		t.reset(new CG(s));
		std::ostringstream o1, o2;
		{
			t2.reset(new CG(s)); // writing is the last thing done with a grammar
			CG3::BinaryGrammar w(t2->g, t2->err);
			w.writeBinaryGrammar(o1);
		}
		b1 = o1.str();
		load(b, b1, s);
		load(b_, b1, s);
		{
			CG3::BinaryGrammar w(*b_, err);
			w.writeBinaryGrammar(o2);
		}
		b2 = o2.str();
		load(c, b2, s);
		at.reset(new Run<>(*t));
		ab.reset(new CG3::GrammarApplicator(err));
		ab->setGrammar(b.get());
		ab->index();
		ac.reset(new CG3::GrammarApplicator(err));
		ac->setGrammar(c.get());
		ac->index();
	}
	void load(std::unique_ptr<CG3::Grammar>& g, const std::string& bytes, const std::string& s) {
		g.reset(new CG3::Grammar);
		g->ux_stderr = &err;
		g->ux_stdout = &dummy;
		{
			CG3::BinaryGrammar r(*g, err);
			std::istringstream is(bytes);
			if (r.parse_grammar(is)) {
				fprintf(stderr, "HARNESS: compiled grammar does not load: %s\n%s\n", s.c_str(), err.str().c_str());
				sxapi_start();
				sxapi_note(("grammar: " + s + "\n" + err.str()).c_str());
				SX_ASSERT(false, "a compiled grammar can be loaded");
				sxapi_done();
			}
		}
		g->reindex();
	}
	std::string bin(CG3::GrammarApplicator& a, const std::string& in) {
		std::stringstream is(in), os;
		a.runGrammarOnText(is, os);
		return os.str();
	}
};
int main() {
	std::vector<std::unique_ptr<Two>> gs;
	const size_t N = sizeof(ZOO) / sizeof(*ZOO), P = 1;
	size_t lo = N * (WHICH - 1) / P, hi = N * WHICH / P;
	for (size_t i = lo; i < hi; ++i) {
		gs.emplace_back(new Two(std::string("DELIMITERS = \"<.>\" ;\n") + ZOO[i].g + "\n"));
	}
	sxapi_start();
	uint32_t k = sx_choice("grammar", (uint32_t)gs.size());
	Two& b = *gs[k];
	Stream s(ZOO[lo + k].s);
	std::string want = b.at->text(s.in);
	std::string got = b.bin(*b.ab, s.in);
	std::string again = b.bin(*b.ac, s.in);
	note(std::string("grammar: ") + ZOO[lo + k].g + "\ninput:\n" + s.in + "from source:\n" + want + "compiled:\n" + got + "compiled twice:\n" + again);
	SX_ASSERT(seq(got, want), "the compiled grammar gives the output of its source");
	SX_ASSERT(seq(again, want), "compiling a loaded grammar again gives the output of its source");
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
