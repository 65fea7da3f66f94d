#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>

struct V { uint64_t c; E e; };                    // e == null: concrete c (masked); widths above 64 always carry e
static inline V VC(uint64_t c) { return V{c, nullptr}; }
static inline E X(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V L(E e) { if (e->isConst() && e->w <= 64) return V{(uint64_t)e->c, nullptr}; return V{0, e}; }

struct Opd { int reg; V c; };
struct Edge { int bb; std::vector<std::pair<int, Opd>> moves; };
struct Ins {
    unsigned op = 0;            // llvm opcode
    unsigned w = 0, w2 = 0;     // result width / source width
    unsigned sub = 0;           // predicate, intrinsic id ...
    int dst = -1; unsigned ns = 0;
    std::vector<Opd> a;
    std::vector<uint64_t> k;    // GEP scales, element offsets, slot offsets
    std::vector<unsigned> kw;   // widths of the slots (loads and stores of aggregates: width, k: byte offset)
    std::vector<int> e;         // edges
    struct Fn* callee = nullptr; int builtin = -1;
    const llvm::Instruction* I = nullptr;
};
struct Blk { std::vector<Ins> ins; };
struct Fn {
    llvm::Function* F = nullptr; std::string name; bool translated = false; bool merge = false; int builtin = -1;
    unsigned nregs = 0, nargs = 0; std::vector<Blk> blk; std::vector<Edge> edges; uint64_t addr = 0; uint64_t calls = 0, steps = 0;
    std::unordered_map<const llvm::Value*, int> reg;
    std::vector<unsigned> retW;
};
static const E UNINIT = (E)1;
struct Obj {
    int rc = 1; uint64_t base = 0, size = 0; uint8_t kind = 0; /*0 global 1 stack 2 heap 3 exception*/ bool ro = false; uint8_t how = 0; // 0 malloc 1 new 2 new[]
    std::vector<uint8_t> b; std::vector<E> s;     // s empty: all concrete
};
struct Frame { Fn* f; int bb = 0, ip = 0; std::vector<V> r; std::vector<uint64_t> allocas; std::vector<V> va; };
struct Exc { uint64_t addr, ti, dtor; int handlers; int rc; };
struct Named { std::string name; V v; unsigned w; };
struct State {
    std::vector<Frame> st; std::vector<Obj*> mem; uint64_t next = 0x1000000000ull;
    PC* pc = nullptr; std::vector<E> implied; std::vector<uint64_t> model;
    std::vector<Exc> excs; std::vector<uint64_t> caught; uint64_t pendingExc = 0; int pendingSel = 0; bool rethrown = false;
    std::vector<Named> inputs, obs; std::vector<std::string> inputNames; std::map<std::string, int> nameCnt;
    uint64_t steps = 0; uint64_t hash = 1469598103934665603ull; int forks = 0; size_t stopDepth = 0; bool merging = false; uint64_t mergeBase = 0; int undef = 0; int mergePcDepth = 0;
    std::vector<std::pair<E, uint64_t>> eqs;
};
