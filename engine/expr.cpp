#include "expr.h"
std::unordered_set<E, ExprHash, ExprEq> exprTab;
std::unordered_set<VarSet, VarSetHash> varSets;
uint32_t nextExprId = 1;

const VarSet *internVars(VarSet v) { return &*varSets.insert(std::move(v)).first; }
static const VarSet *unionVars(const VarSet *a, const VarSet *b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    VarSet r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return internVars(std::move(r));
}
E mkRaw(Op op, unsigned w, uint64_t val, E a, E b, E c)
{
    Expr t; t.op = op; t.w = (uint8_t)w; t.val = val; t.a = a; t.b = b; t.c = c;
    auto it = exprTab.find(&t);
    if (it != exprTab.end()) return *it;
    Expr *n = new Expr(t);
    n->id = nextExprId++;
    static const VarSet *none = internVars({});
    if (op == CONST) n->vars = none;
    else if (op == VAR) n->vars = internVars({(uint32_t)val});
    else {
        const VarSet *v = a->vars;
        if (b) v = unionVars(v, b->vars);
        if (c) v = unionVars(v, c->vars);
        n->vars = v;
    }
    exprTab.insert(n);
    return n;
}
bool foldBin(Op op, unsigned w, uint64_t x, uint64_t y, uint64_t &r)
{
    uint64_t m = mask(w);
    int64_t sa = sx(x, w), sb = sx(y, w);
    switch (op) {
    case ADD: r = (x + y) & m; return true;
    case SUB: r = (x - y) & m; return true;
    case MUL: r = (x * y) & m; return true;
    case UDIV: if (!y) return false; r = x / y; return true;
    case UREM: if (!y) return false; r = x % y; return true;
    case SDIV: if (!y) return false; r = sb == -1 ? (0 - x) & m : (uint64_t)(sa / sb) & m; return true;
    case SREM: if (!y) return false; r = sb == -1 ? 0 : (uint64_t)(sa % sb) & m; return true;
    case AND: r = x & y; return true;
    case OR: r = x | y; return true;
    case XOR: r = x ^ y; return true;
    case SHL: r = y >= w ? 0 : (x << y) & m; return true;
    case LSHR: r = y >= w ? 0 : x >> y; return true;
    case ASHR: r = (uint64_t)(sa >> (y >= w ? w - 1 : y)) & m; return true;
    case EQ: r = x == y; return true;
    case ULT: r = x < y; return true;
    case ULE: r = x <= y; return true;
    case SLT: r = sa < sb; return true;
    case SLE: r = sa <= sb; return true;
    default: return false;
    }
}
static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }
E mkBin(Op op, E a, E b)
{
    unsigned w = a->w, rw = isCmp(op) ? 1 : w;
    uint64_t r;
    if (isC(a) && isC(b) && foldBin(op, w, a->val, b->val, r)) return mkConst(r, rw);
    if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    uint64_t m = mask(w);
    if (op == SUB && isC(b)) return mkBin(ADD, a, mkConst(0 - b->val, w));
    if (a == b) {
        switch (op) {
        case SUB: case XOR: return mkConst(0, w);
        case AND: case OR: return a;
        case EQ: case ULE: case SLE: return mkConst(1, 1);
        case ULT: case SLT: return mkConst(0, 1);
        default: break;
        }
    }
    if (isC(b)) {
        uint64_t k = b->val;
        switch (op) {
        case ADD:
            if (!k) return a;
            if (a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->val + k, w));
            if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val + k, w), mkConst(a->c->val + k, w));
            break;
        case MUL: if (k == 1) return a; if (!k) return b;
            if ((k & (k - 1)) == 0) return mkBin(SHL, a, mkConst(__builtin_ctzll(k), w));
            break;
        case AND: if (!k) return b; if (k == m) return a;
            if ((k & (k + 1)) == 0) { unsigned n = __builtin_popcountll(k); return mkZext(mkExtract(a, 0, n), w); }
            if (a->op == ZEXT && a->a->w < w) return mkZext(mkBin(AND, a->a, mkConst(k, a->a->w)), w);
            break;
        case OR: if (!k) return a; if (k == m) return b; break;
        case XOR: if (!k) return a;
            if (a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->val ^ k, w));
            if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val ^ k, w), mkConst(a->c->val ^ k, w));
            break;
        case SHL: case LSHR: case ASHR: if (!k) return a;
            if (k >= w && op != ASHR) return mkConst(0, w);
            if (op == LSHR) return mkZext(mkExtract(a, k, w - k), w);
            if (op == SHL) return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
            break;
        case UDIV: if (k == 1) return a; break;
        case EQ:
            if (w == 1) return k ? a : mkNot(a);
            if (a->op == ZEXT || a->op == SEXT) {
                unsigned v = a->a->w; uint64_t t = k & mask(v);
                uint64_t back = a->op == ZEXT ? t : (uint64_t)sx(t, v) & m;
                return back == k ? mkBin(EQ, a->a, mkConst(t, v)) : mkConst(0, 1);
            }
            if (a->op == ADD && isC(a->b)) return mkBin(EQ, a->a, mkConst(k - a->b->val, w));
            if (a->op == XOR && isC(a->b)) return mkBin(EQ, a->a, mkConst(k ^ a->b->val, w));
            if (a->op == CONCAT) {
                unsigned lw = a->b->w;
                return mkBin(AND, mkBin(EQ, a->a, mkConst(k >> lw, a->a->w)), mkBin(EQ, a->b, mkConst(k, lw)));
            }
            if (a->op == ITE && (isC(a->b) || isC(a->c)))
                return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->c, b));
            break;
        case ULT:
            if (!k) return mkConst(0, 1);
            if (k == 1) return mkBin(EQ, a, mkConst(0, w));
            if (a->op == ZEXT) return k > mask(a->a->w) ? mkConst(1, 1) : mkBin(ULT, a->a, mkConst(k, a->a->w));
            if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
            break;
        case ULE:
            if (k == m) return mkConst(1, 1);
            return mkBin(ULT, a, mkConst(k + 1, w));
        case SLE:
            if (k == (m >> 1)) return mkConst(1, 1);
            return mkBin(SLT, a, mkConst(k + 1, w));
        case SLT:
            if (a->op == ZEXT && a->a->w < w) return sx(k, w) <= 0 ? mkConst(0, 1) : mkBin(ULT, a, b);
            if (a->op == SEXT) {
                unsigned v = a->a->w; int64_t kk = sx(k, w), lo = -(1ll << (v - 1)), hi = (1ll << (v - 1)) - 1;
                if (kk <= lo) return mkConst(0, 1);
                if (kk > hi) return mkConst(1, 1);
                return mkBin(SLT, a->a, mkConst(kk, v));
            }
            if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
            break;
        default: break;
        }
    }
    if (isC(a)) {
        uint64_t k = a->val;
        switch (op) {
        case ULT: return mkNot(mkBin(ULE, b, a));
        case ULE: return k == 0 ? mkConst(1, 1) : mkNot(mkBin(ULT, b, a));
        case SLT: return mkNot(mkBin(SLE, b, a));
        case SLE: return mkNot(mkBin(SLT, b, a));
        default: break;
        }
    }
    if (op == EQ && a->op == b->op && (a->op == ZEXT || a->op == SEXT) && a->a->w == b->a->w)
        return mkBin(EQ, a->a, b->a);
    if ((op == ULT || op == SLT || op == ULE || op == SLE) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w && a->a->w < w)
        return mkBin(op == SLT ? ULT : op == SLE ? ULE : op, a->a, b->a);
    if ((op == SLT || op == SLE) && a->op == SEXT && b->op == SEXT && a->a->w == b->a->w)
        return mkBin(op, a->a, b->a);
    // x & !x, x | !x for booleans
    if (w == 1 && (op == AND || op == OR)) {
        if ((b->op == XOR && b->a == a && isC(b->b)) || (a->op == XOR && a->a == b && isC(a->b)))
            return mkConst(op == OR, 1);
    }
    if ((op == AND || op == OR || op == XOR) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w)
        return mkZext(mkBin(op, a->a, b->a), w);
    return mkRaw(op, rw, 0, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->val >> lo, w);
    switch (a->op) {
    case EXTRACT: return mkExtract(a->a, lo + a->val, w);
    case ZEXT:
        if (lo >= a->a->w) return mkConst(0, w);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkZext(a->a, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkSext(a->a, w);
        break;
    case CONCAT: {
        unsigned lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case ADD: case SUB: case MUL:
        if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case AND: case OR: case XOR:
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ITE:
        if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    return mkRaw(EXTRACT, w, lo, a);
}
E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst(hi->val << lo->w | lo->val, w);
    if (isC(hi) && hi->val == 0) return mkZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w)
        return mkExtract(hi->a, lo->val, w);
    if (hi->op == EXTRACT && hi->a == lo && hi->val == lo->w) return mkExtract(lo, 0, w);
    if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->val == lo->a->val + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
    // bytes of a value stored and reloaded: extract of sext'd / zext'd forms fold through the cases above
    return mkRaw(CONCAT, w, 0, hi, lo);
}
E mkZext(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->val, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return mkRaw(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst((uint64_t)sx(a->val, a->w), w);
    if (a->op == SEXT) return mkSext(a->a, w);
    if (a->op == ZEXT && a->a->w < a->w) return mkZext(a->a, w);
    return mkRaw(SEXT, w, 0, a);
}
E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == XOR && isC(c->b)) { c = c->a; std::swap(a, b); }
    if (a->w == 1) {
        if (isC(a)) return a->val ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (isC(b)) return b->val ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (isC(a) && isC(b) && a->val == 1 && b->val == 0) return mkZext(c, a->w);
    if (isC(a) && isC(b) && a->val == 0 && b->val == 1) return mkZext(mkNot(c), a->w);
    return mkRaw(ITE, a->w, 0, c, a, b);
}
static uint64_t epoch = 0;
static uint64_t ev1(E e, const Model &m);
static inline uint64_t ev(E e, const Model &m)
{
    if (e->op == CONST) return e->val;
    if (e->epoch == epoch) return e->ev;
    uint64_t r = ev1(e, m); e->epoch = epoch; e->ev = r;
    return r;
}
uint64_t evalE(E e, const Model &m) { epoch++; return ev(e, m); }
static uint64_t ev1(E e, const Model &m)
{
    switch (e->op) {
    case CONST: return e->val;
    case VAR: return (e->val < m.size() ? m[e->val] : 0) & mask(e->w);
    case CONCAT: return ev(e->a, m) << e->b->w | ev(e->b, m);
    case EXTRACT: return (ev(e->a, m) >> e->val) & mask(e->w);
    case ZEXT: return ev(e->a, m);
    case SEXT: return (uint64_t)sx(ev(e->a, m), e->a->w) & mask(e->w);
    case ITE: return ev(e->a, m) ? ev(e->b, m) : ev(e->c, m);
    default: {
        uint64_t x = ev(e->a, m), y = ev(e->b, m), r;
        if (!foldBin(e->op, e->a->w, x, y, r)) // division by zero: SMT-LIB value
            r = (e->op == UDIV) ? mask(e->a->w) : (e->op == SDIV) ? (sx(x, e->a->w) < 0 ? 1 : mask(e->a->w)) : x;
        return r;
    }
    }
}
std::string showE(E e, int d)
{
    static const char *n[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
    if (e->op == CONST) return std::to_string(e->val);
    if (e->op == VAR) return "v" + std::to_string(e->val);
    if (d == 0) return "..";
    std::string s = std::string("(") + n[e->op] + std::to_string(e->w);
    if (e->op == EXTRACT) s += "@" + std::to_string(e->val);
    s += " " + showE(e->a, d - 1);
    if (e->b) s += " " + showE(e->b, d - 1);
    if (e->c) s += " " + showE(e->c, d - 1);
    return s + ")";
}
