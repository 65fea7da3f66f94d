#pragma once
#include "expr.h"
// Persistent list of path constraints (1-bit expressions assumed true).
struct PC { E e; PC* parent; int depth; int rc; };
static inline void pcRef(PC* p) { if (p) p->rc++; }
static inline void pcUnref(PC* p) { while (p && --p->rc == 0) { PC* q = p->parent; delete p; p = q; } }

enum class Sat { Yes, No, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0, cached = 0; double time = 0, maxTime = 0; };
extern SolverStats g_sstats;
void solverInit(unsigned softMs, unsigned hardMs);
// Is path /\ extra satisfiable?  On Yes, model is updated (variables not mentioned keep their values).
Sat solverCheck(PC* path, E extra, std::vector<uint64_t>& model);
