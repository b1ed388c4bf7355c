#pragma once
#include <string>
namespace sim {
// noise at which frames of a table certainly decode within 25 trials when scaled properly; measured, see DESIGN.md
inline double safe_sigma(const std::string &n) {
	static const struct { const char *n; double s; } t[] = { { "T_A1", .76 }, { "T_A3", .60 }, { "T_A6", .48 }, { "T_B7", .45 }, { "T_30a", .31 }, { "T_30b", .27 }, { "T_60a", .47 }, { "T_60b", .38 }, { "T_90a", .40 }, { "T_180a", .70 }, { "T_120a", .56 }, { "T_60c", .35 }, { "T_360c", .37 } };
	for (auto &x : t) if (n == x.n) return x.s;
	return .2;
}
}
