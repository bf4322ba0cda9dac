// Loading grammars and running text through the real code
#pragma once
#include "sx.h"
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#include <functional>
#include "Grammar.hpp"
#include "TextualParser.hpp"
#include "GrammarApplicator.hpp"

struct CG {
	std::ostringstream err;
	std::stringstream dummy;
	CG3::Grammar g;
	std::string src;
	explicit CG(const std::string& t, bool ordered = false) : src(t) {
		g.ux_stderr = &err;
		g.ux_stdout = &dummy;
		{
			CG3::TextualParser p(g, err);
			(void)ordered;
			if (p.parse_grammar(t.data(), t.size())) {
				fprintf(stderr, "HARNESS: grammar does not parse: %s\n%s\n", t.c_str(), err.str().c_str());
				sxapi_start();
				sxapi_note(("grammar: " + t + "\n" + err.str()).c_str());
				SX_ASSERT(false, "a valid grammar is accepted");
				sxapi_done();
			}
		}
		g.reindex();
	}
};

template<typename App = CG3::GrammarApplicator>
struct Run {
	std::ostringstream err;
	App ga;
	explicit Run(CG& c, std::function<void(App&)> opt = nullptr) : ga(err) {
		ga.setGrammar(&c.g);
		if (opt) {
			opt(ga);
		}
		ga.index();
	}
	std::string text(const std::string& in) {
		std::stringstream is(in), os;
		ga.runGrammarOnText(is, os);
		return os.str();
	}
};

// equality without forking per byte; lengths are concrete
inline bool seq(const std::string& a, const std::string& b) {
	return a.size() == b.size() && (a.empty() || sxapi_equal(a.data(), b.data(), a.size()));
}
