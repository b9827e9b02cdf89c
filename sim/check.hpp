// Oracles: run a plan (and the runs derived from it) and judge the history.
#pragma once
#include "core.hpp"
#include "model.hpp"
namespace dst {
struct Eval {
  std::vector<Issue> issues;    // of the property under check only
  uint64_t hash = 0;            // of the complete history of the main run
  uint64_t shape = 0;           // coarse identity of the run
  bool harness = false; std::string harnessNote;
  bool nontrivial = false;
  int ops = 0, judged = 0, runs = 0;

};
void evaluate(const std::string &prop, const Plan &, History *h, History *h2, Eval &);
uint64_t historyHash(const History *, int end, int sig);
std::string historyText(const Plan &, const History *);
}
