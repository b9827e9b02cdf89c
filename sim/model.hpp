// Reference model: exact set arithmetic on rationals plus high-precision
// enclosures, and the semantics of the checking policies.  Independent of
// Boost.Interval and of the simulated number types.
#pragma once
#include "core.hpp"
namespace dst {
struct Issue { std::string prop, what; };
// Judges one completed call in isolation (value, emptiness, exception).
void judge(const WorldInfo &, const Fmt &, const Rec &, std::vector<Issue> &);
// The directed primitives of a rounding policy: every one that was computed, whether or not another failed.
void judgePrims(const WorldInfo &, const Fmt &, const Rec &, std::vector<Issue> &);
std::string show(const WorldInfo &, const NumV &);
std::string showRec(const WorldInfo &, const Rec &);
}
