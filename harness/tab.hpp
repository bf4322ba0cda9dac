// A table of grammars against a table of stream shapes: real output == reference output
#pragma once
#include "drive.hpp"
#ifndef TAB_PRE
	#define TAB_PRE "DELIMITERS = \"<.>\" ;\nSECTION\n"
#endif
template<size_t N, size_t M>
int run_table(const char* const (&G)[N], const char* const (&SH)[M], const char* msg, std::function<void(ref::Interp&)> prep = nullptr) {
	std::vector<std::unique_ptr<Both>> gs;
	for (auto c : G) {
		gs.emplace_back(new Both(std::string(TAB_PRE) + c + "\n"));
	}
	sxapi_start();
	Both& b = *gs[sx_choice("grammar", (uint32_t)N)];
	Stream s(SH[sx_choice("shape", (uint32_t)M)]);
	std::string got = b.run->text(s.in);
	ref::Interp I(b.rg);
	if (prep) {
		prep(I);
	}
	s.fill(I);
	I.run_all();
	std::string want = I.print();
	compare(got, want, b, s.in, msg);
#ifdef TAB_SUB
	// rules without SUB look at the readings alone, so what hangs below them changes nothing
	std::string in, sub, bare;
	for (auto& l : Stream::cut(s.in, '\n')) {
		in += l;
		in += '\n';
		if (!l.empty() && l[0] == '\t') {
			in += "\t\t\"k\" k\n";
		}
	}
	in.pop_back();
	sub = b.run->text(in);
	for (auto& l : Stream::cut(sub, '\n')) {
		if (l.size() < 2 || l[0] != '\t' || l[1] != '\t') {
			bare += l;
			bare += '\n';
		}
	}
	bare.pop_back();
	compare(bare, want, b, in, "sub-readings change nothing for rules without SUB");
#endif
	sxapi_reach("end");
	sxapi_done();
	return 0;
}
