// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <string>
#include <z3.h>

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE };

struct Expr;
typedef const Expr *E;
typedef std::vector<uint32_t> VarSet;

struct Expr {
    Op op; uint8_t w; uint32_t id; uint64_t val; // val: constant / variable index / extract low bit
    E a, b, c;
    const VarSet *vars;
    mutable Z3_ast z = nullptr;
    mutable uint64_t epoch = 0, ev = 0;
};

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprHash { size_t operator()(E e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    h = (h ^ e->val) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (uint64_t)e->a) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ (uint64_t)e->b) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
    h = (h ^ (uint64_t)e->c) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h; } };
struct ExprEq { bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };

struct VarSetHash { size_t operator()(const VarSet &v) const { uint64_t h = v.size(); for (auto x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
extern std::unordered_set<E, ExprHash, ExprEq> exprTab;
extern std::unordered_set<VarSet, VarSetHash> varSets;
extern uint32_t nextExprId;

const VarSet *internVars(VarSet v);
E mkRaw(Op op, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr);
static inline E mkConst(uint64_t v, unsigned w) { return mkRaw(CONST, w, v & mask(w)); }
static inline E mkVar(uint32_t idx, unsigned w) { return mkRaw(VAR, w, idx); }
E mkBin(Op op, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
static inline E mkNot(E a) { return mkBin(XOR, a, mkConst(mask(a->w), a->w)); }
bool foldBin(Op op, unsigned w, uint64_t x, uint64_t y, uint64_t &r);
static inline bool isC(E e) { return e->op == CONST; }

typedef std::vector<uint64_t> Model; // by variable index
uint64_t evalE(E e, const Model &m);
std::string showE(E e, int depth = 4);
