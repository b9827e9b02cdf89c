// Seeded generation, text form and derivation of plans.
#pragma once
#include "core.hpp"
namespace dst {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); }
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * n >> 32) : 0; }
  int range(int a, int b) { return a + (int)below(b - a + 1); }
  bool p(double x) { return (next() >> 11) * 0x1p-53 < x; }
};
uint64_t mix(uint64_t a, uint64_t b);
// One plan from one integer.  `scratch` receives the dry run that counts the points of each step.
Plan genPlan(const std::string &prop, uint64_t seed, History *scratch);
std::string planText(const Plan &);
bool planParse(const std::string &, Plan &, std::string &err);
Plan cleanPlan(const Plan &base, const std::vector<const Rec *> &recs);  // each call alone, protected, nothing failing
}
