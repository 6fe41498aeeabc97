#pragma once
#include "expr.h"
#include <memory>
#include <deque>

typedef std::shared_ptr<std::vector<u128>> Model;

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, mismatches = 0; double time = 0, maxTime = 0; };

struct Solver {
  SolverStats st;
  unsigned timeoutMs = 60000;
  double armT[3] = {0.001, 0.002, 0.001}; unsigned armN = 0; // running cost of the three ways of posing a query
  std::string dumpDir; // when set, every solver query is written there (SMT-LIB2) for cross-checking with another solver
  Solver();
  // Is pc && cond satisfiable?  1 yes (m filled), 0 no, -1 unknown. 'hint' is a model of pc.
  int check(const std::vector<E>& pc, E cond, Model hint, Model& m);
private:
  Z3_context ctx = nullptr; Z3_solver inc = nullptr, gen = nullptr; uint32_t zEpoch = 1;
  std::unordered_map<uint32_t, Z3_ast> lit; u64 ntrans = 0;
  std::unordered_map<u64, std::pair<std::vector<uint32_t>, int>> cache;
  std::unordered_map<u64, Model> cacheModel;
  std::deque<Model> pool;
  std::vector<Z3_func_decl> symDecl;
  void reset();
  Z3_ast bv(E e); Z3_ast bl(E e); Z3_ast fp(E e);
  Z3_sort fps(unsigned w); Z3_ast rne();
  void touch(E e) { if (e->zEpoch != zEpoch) { e->zEpoch = zEpoch; e->zbv = e->zbool = e->zfp = nullptr; } }
};
