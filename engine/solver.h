#pragma once
#include "expr.h"
#include <memory>
struct ArrFact {          // for every read of array `arr` at index i: body[ph_idx := i, ph_byte := arr[i]]
  unsigned arr;
  E phIdx, phByte, body;
};
enum class Sat { Sat, Unsat, Unknown };
struct Stats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0;
  double seconds = 0;
  double maxSeconds = 0;
};
extern Stats g_stats;
void solverInit(unsigned timeoutMs, const std::string& dumpDir);
// is pc && extra satisfiable? fills `model` (merged onto base) when sat
Sat solve(const std::vector<E>& pc, E extra, const std::vector<ArrFact>& facts, const Model& base, Model& out);
