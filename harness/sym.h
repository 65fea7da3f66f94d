// Interface between a harness and its two back ends: the symbolic executor (engine/) and the native replay runtime (replay.cpp).
#pragma once
#include "../model/pre.h"
extern "C" {
long sym_param(const char* name, long dflt);            // concrete parameter of the run
long sym_range(const char* name, long lo, long hi);     // any value in [lo, hi]
long sym_fork(long v);                                  // same value, split into one path per value
void sym_assume(int cond);
void sym_check(int cond, const char* msg);              // the property
void sym_cover(const char* label);
void sym_observe(const char* name, long v);             // compared between the engine and a native run of the same inputs
void sym_debug(const char* name, long v);
}
