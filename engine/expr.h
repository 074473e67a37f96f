// Hash-consed bit-vector expressions with a rewriting constructor, plus their z3 encoding.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class Op : uint8_t {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt,
    Eq, Ult, Ule, Slt, Sle, Ite,
    // floating point; operands/results are bit patterns of width 32/64/80
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FNan, FToSI, FToUI, SIToF, UIToF, FConv
};

struct SymSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
    Op op; uint8_t nk; uint16_t w; uint16_t aux;
    bool fp; bool undef; bool dv;
    uint32_t id;
    uint64_t lo, hi;            // Const value / Sym id
    Expr* k[3];
    const SymSet* syms;
    uint64_t hash;
    // evaluation memo
    uint64_t egen; uint64_t elo, ehi;
    Z3_ast z;
    u128 c() const { return ((u128)hi << 64) | lo; }
    bool isC() const { return op == Op::Const; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) {
    if(w >= 128) return (s128)v;
    u128 m = (u128)1 << (w - 1);
    return (s128)((v ^ m) - m);
}

struct SymInfo { std::string name; uint32_t w; bool undef; };

struct ExprCtx {
    struct H { size_t operator()(const Expr* e) const { return e->hash; } };
    struct Q {
        bool operator()(const Expr* a, const Expr* b) const {
            return a->op == b->op && a->w == b->w && a->aux == b->aux && a->lo == b->lo && a->hi == b->hi &&
                   a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
        }
    };
    std::unordered_set<Expr*, H, Q> table;
    std::vector<SymInfo> syms;
    std::map<std::vector<uint32_t>, SymSet*> setTable;
    std::unordered_map<uint64_t, const SymSet*> unionMemo;
    const SymSet* emptySet;
    uint32_t nextId = 0;
    char* pool = nullptr; size_t poolLeft = 0;
    ExprCtx() { emptySet = internSet({}); }
    const SymSet* internSet(std::vector<uint32_t> v) {
        auto it = setTable.find(v);
        if(it != setTable.end()) return it->second;
        auto* s = new SymSet{v, (uint32_t)setTable.size()};
        setTable.emplace(std::move(v), s);
        return s;
    }
    const SymSet* uni(const SymSet* a, const SymSet* b) {
        if(a == b || b == emptySet) return a;
        if(a == emptySet) return b;
        if(a->id > b->id) std::swap(a, b);
        uint64_t key = ((uint64_t)a->id << 32) | b->id;
        auto it = unionMemo.find(key);
        if(it != unionMemo.end()) return it->second;
        std::vector<uint32_t> r;
        std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
        auto* s = internSet(std::move(r));
        unionMemo[key] = s;
        return s;
    }
    Expr* alloc() {
        if(poolLeft < sizeof(Expr)) { poolLeft = 1 << 20; pool = (char*)malloc(poolLeft); }
        Expr* e = (Expr*)pool; pool += sizeof(Expr); poolLeft -= sizeof(Expr);
        return e;
    }
    Expr* raw(Op op, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, unsigned aux = 0, uint64_t lo = 0, uint64_t hi = 0) {
        Expr t; memset(&t, 0, sizeof t);
        t.op = op; t.w = w; t.aux = aux; t.lo = lo; t.hi = hi; t.k[0] = a; t.k[1] = b; t.k[2] = c;
        uint64_t h = (uint64_t)op * 0x9E3779B97F4A7C15ull + w * 1315423911u + aux * 2654435761u;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(lo); mix(hi); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
        t.hash = h;
        auto it = table.find(&t);
        if(it != table.end()) return *it;
        Expr* e = alloc(); *e = t;
        e->id = nextId++; e->nk = (a != 0) + (b != 0) + (c != 0);
        const SymSet* s = emptySet; bool fp = op >= Op::FAdd; bool ud = false; bool dv = (op == Op::UDiv || op == Op::URem) && b->isC();
        for(Expr* x : {a, b, c}) if(x) { s = uni(s, x->syms); fp |= x->fp; ud |= x->undef; dv |= x->dv; }
        if(op == Op::Sym) { s = internSet({(uint32_t)lo}); ud = syms[lo].undef; }
        e->syms = s; e->fp = fp; e->undef = ud; e->dv = dv;
        table.insert(e);
        return e;
    }
    Expr* C(u128 v, unsigned w) { v &= maskw(w); return raw(Op::Const, w, 0, 0, 0, 0, (uint64_t)v, (uint64_t)(v >> 64)); }
    std::unordered_map<std::string, Expr*> symByKey;
    Expr* sym(const std::string& key, unsigned w, bool undef = false) {
        auto it = symByKey.find(key);
        if(it != symByKey.end()) return it->second;
        uint32_t id = syms.size();
        syms.push_back({key, w, undef});
        Expr* e = raw(Op::Sym, w, 0, 0, 0, 0, id);
        symByKey[key] = e;
        return e;
    }

    // ---------- floating point on concrete bit patterns ----------
    static long double toLD(u128 v, unsigned w) {
        if(w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
        if(w == 64) { double f; uint64_t x = v; memcpy(&f, &x, 8); return f; }
        long double f = 0; memcpy(&f, &v, 10); return f;
    }
    static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
    static u128 fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
    static u128 fromL(long double f) { u128 x = 0; memcpy(&x, &f, 10); return x; }
    static u128 fbin(Op op, u128 a, u128 b, unsigned w) {
        if(w == 32) { float x = (float)toLD(a, w), y = (float)toLD(b, w), r;
            switch(op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; default: r = fmodf(x, y); }
            return fromF(r); }
        if(w == 64) { double x = (double)toLD(a, w), y = (double)toLD(b, w), r;
            switch(op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; default: r = fmod(x, y); }
            return fromD(r); }
        long double x = toLD(a, w), y = toLD(b, w), r;
        switch(op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; default: r = fmodl(x, y); }
        return fromL(r);
    }
    static u128 fconv(u128 a, unsigned wf, unsigned wt) {
        long double x = toLD(a, wf);
        if(wt == 32) { if(wf == 64) return fromF((float)(double)x); return fromF((float)x); }
        if(wt == 64) return fromD((double)x);
        return fromL(x);
    }
    static u128 itof(u128 a, unsigned wi, unsigned wt, bool sg) {
        if(sg) { s128 v = sextw(a, wi); if(wt == 32) return fromF((float)v); if(wt == 64) return fromD((double)v); return fromL((long double)v); }
        if(wt == 32) return fromF((float)a); if(wt == 64) return fromD((double)a); return fromL((long double)a);
    }

    static u128 evalOp(Op op, unsigned w, unsigned aux, const Expr* e0, u128 a, u128 b, u128 c, unsigned wa, unsigned wb) {
        u128 m = maskw(w);
        switch(op) {
        case Op::Add: return (a + b) & m;
        case Op::Sub: return (a - b) & m;
        case Op::Mul: return (a * b) & m;
        case Op::UDiv: return b ? a / b : m;
        case Op::URem: return b ? a % b : a;
        case Op::SDiv: { s128 x = sextw(a, w), y = sextw(b, w); if(y == 0) return x < 0 ? 1 : m; if(y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
        case Op::SRem: { s128 x = sextw(a, w), y = sextw(b, w); if(y == 0) return a; if(y == -1) return 0; return (u128)(x % y) & m; }
        case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
        case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
        case Op::AShr: { s128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
        case Op::Concat: return ((a << wb) | b) & m;
        case Op::Extract: return (a >> aux) & m;
        case Op::ZExt: return a;
        case Op::SExt: return (u128)sextw(a, wa) & m;
        case Op::Eq: return a == b;
        case Op::Ult: return a < b; case Op::Ule: return a <= b;
        case Op::Slt: return sextw(a, wa) < sextw(b, wa); case Op::Sle: return sextw(a, wa) <= sextw(b, wa);
        case Op::Ite: return a ? b : c;
        case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: return fbin(op, a, b, w);
        case Op::FEq: return toLD(a, wa) == toLD(b, wa);
        case Op::FLt: return toLD(a, wa) < toLD(b, wa);
        case Op::FLe: return toLD(a, wa) <= toLD(b, wa);
        case Op::FNan: return std::isnan(toLD(a, wa));
        case Op::FToSI: { long double x = truncl(toLD(a, wa)); if(!(x >= -ldexpl(1, w - 1) && x < ldexpl(1, w - 1))) return 0; return (u128)(s128)x & m; }
        case Op::FToUI: { long double x = truncl(toLD(a, wa)); if(!(x > -1 && x < ldexpl(1, w))) return 0; return (u128)x & m; }
        case Op::SIToF: return itof(a, wa, w, true);
        case Op::UIToF: return itof(a, wa, w, false);
        case Op::FConv: return fconv(a, wa, w);
        default: break;
        }
        abort();
    }

    // ---------- rewriting constructors ----------
    Expr* Not(Expr* a) { return mk(Op::Xor, 1, a, C(1, 1)); }
    Expr* And1(Expr* a, Expr* b) { return mk(Op::And, 1, a, b); }
    Expr* Or1(Expr* a, Expr* b) { return mk(Op::Or, 1, a, b); }
    Expr* eq(Expr* a, Expr* b) { return mk(Op::Eq, 1, a, b); }
    Expr* ite(Expr* c, Expr* a, Expr* b) { return mk(Op::Ite, a->w, c, a, b); }
    Expr* extract(Expr* a, unsigned lo, unsigned w) { return mk(Op::Extract, w, a, 0, 0, lo); }
    Expr* zext(Expr* a, unsigned w) { return a->w == w ? a : a->w > w ? extract(a, 0, w) : mk(Op::ZExt, w, a); }
    Expr* sext(Expr* a, unsigned w) { return a->w == w ? a : a->w > w ? extract(a, 0, w) : mk(Op::SExt, w, a); }
    Expr* concat(Expr* hi, Expr* lo) { return mk(Op::Concat, hi->w + lo->w, hi, lo); }

    // an upper bound of the unsigned value
    u128 umax(Expr* e, int d = 5) {
        u128 m = maskw(e->w);
        if(e->isC()) return e->c();
        if(d == 0 || e->w > 64) return m;
        switch(e->op) {
        case Op::ZExt: return umax(e->k[0], d - 1);
        case Op::Extract: if(e->aux == 0) return std::min(m, umax(e->k[0], d - 1)); return m;
        case Op::URem: if(e->k[1]->isC() && e->k[1]->c()) return std::min(umax(e->k[0], d - 1), e->k[1]->c() - 1); return m;
        case Op::UDiv: if(e->k[1]->isC() && e->k[1]->c()) return umax(e->k[0], d - 1) / e->k[1]->c(); return m;
        case Op::And: return std::min(umax(e->k[0], d - 1), umax(e->k[1], d - 1));
        case Op::Ite: return std::max(umax(e->k[1], d - 1), umax(e->k[2], d - 1));
        case Op::Add: { u128 a = umax(e->k[0], d - 1), b = umax(e->k[1], d - 1); return a <= m - b ? a + b : m; }
        case Op::Mul: { u128 a = umax(e->k[0], d - 1), b = umax(e->k[1], d - 1); return !a || b <= m / a ? a * b : m; }
        case Op::Concat: { u128 h = umax(e->k[0], d - 1); return (h << e->k[1]->w) | umax(e->k[1], d - 1); }
        default: return m;
        }
    }
    static bool constArms(Expr* e) { return e->op == Op::Ite && e->k[1]->isC() && e->k[2]->isC(); }
    static bool isNot(Expr* e) { return e->op == Op::Xor && e->w == 1 && e->k[1]->isC() && e->k[1]->lo == 1; }

    Expr* mk(Op op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, unsigned aux = 0) {
        unsigned wa = a->w, wb = b ? b->w : 0;
        if(a->isC() && (!b || b->isC()) && (!c || c->isC()))
            return C(evalOp(op, w, aux, nullptr, a->c(), b ? b->c() : 0, c ? c->c() : 0, wa, wb), w);
        // binary op over an ite with constant arms and a constant
        if(b && !c && op < Op::FAdd) {
            if(constArms(a) && b->isC())
                return ite(a->k[0], mk(op, w, a->k[1], b, 0, aux), mk(op, w, a->k[2], b, 0, aux));
            if(constArms(b) && a->isC())
                return ite(b->k[0], mk(op, w, a, b->k[1], 0, aux), mk(op, w, a, b->k[2], 0, aux));
        }
        switch(op) {
        case Op::Add:
            if(a->isC()) std::swap(a, b);
            if(b->isC()) {
                if(b->c() == 0) return a;
                if(a->op == Op::Add && a->k[1]->isC()) return mk(Op::Add, w, a->k[0], C(a->k[1]->c() + b->c(), w));
            } else {
                if(a->op == Op::Add && a->k[1]->isC()) return mk(Op::Add, w, mk(Op::Add, w, a->k[0], b), a->k[1]);
                if(b->op == Op::Add && b->k[1]->isC()) return mk(Op::Add, w, mk(Op::Add, w, a, b->k[0]), b->k[1]);
                for(int i = 0; i < 2; i++, std::swap(a, b)) // no carry: the low part of a is zero and b fits in it
                    if(a->op == Op::Concat && a->k[1]->isC() && a->k[1]->c() == 0) {
                        unsigned lw = a->k[1]->w;
                        if(b->op == Op::ZExt && b->k[0]->w <= lw) return concat(a->k[0], zext(b->k[0], lw));
                    }
                if(a->op == Op::Sub && a->k[1] == b) return a->k[0];
                if(b->op == Op::Sub && b->k[1] == a) return b->k[0];
                if(w == 1) return mk(Op::Xor, 1, a, b);
                if(a->id > b->id) std::swap(a, b);
            }
            break;
        case Op::Sub:
            if(a == b) return C(0, w);
            if(b->isC()) return mk(Op::Add, w, a, C(-b->c(), w));
            if(a->op == Op::Add && a->k[1]->isC()) return mk(Op::Add, w, mk(Op::Sub, w, a->k[0], b), a->k[1]);
            if(b->op == Op::Add && b->k[1]->isC()) return mk(Op::Add, w, mk(Op::Sub, w, a, b->k[0]), C(-b->k[1]->c(), w));
            if(a->op == Op::Add && a->k[0] == b) return a->k[1];
            if(a->op == Op::Add && a->k[1] == b) return a->k[0];
            if(b->op == Op::Sub && b->k[0]->isC() && b->k[0]->c() == 0) return mk(Op::Add, w, a, b->k[1]);
            break;
        case Op::Mul:
            if(a->isC()) std::swap(a, b);
            if(b->isC()) {
                if(b->c() == 0) return b;
                if(b->c() == 1) return a;
                u128 v = b->c();
                if((v & (v - 1)) == 0) { unsigned s = 0; while(!((v >> s) & 1)) s++; return mk(Op::Shl, w, a, C(s, w)); }
            } else if(a->id > b->id) std::swap(a, b);
            break;
        case Op::UDiv: if(b->isC() && a->op == Op::UDiv && a->k[1]->isC() && a->k[1]->c() && b->c()) {
                u128 p = a->k[1]->c() * b->c();
                if(a->k[1]->c() > maskw(w) / b->c()) return C(0, w);
                return mk(Op::UDiv, w, a->k[0], C(p, w)); }
            if(b->isC()) { u128 v = b->c(); if(v == 1) return a; if(v && (v & (v - 1)) == 0) { unsigned s = 0; while(!((v >> s) & 1)) s++; return mk(Op::LShr, w, a, C(s, w)); }
                if(a->op == Op::ZExt && v) { if(v > maskw(a->k[0]->w)) return C(0, w); return zext(mk(Op::UDiv, a->k[0]->w, a->k[0], C(v, a->k[0]->w)), w); } } break;
        case Op::URem: if(b->isC()) { u128 v = b->c(); if(v == 1) return C(0, w); if(v && (v & (v - 1)) == 0) return mk(Op::And, w, a, C(v - 1, w));
                if(a->op == Op::ZExt && v) { if(v > maskw(a->k[0]->w)) return a; return zext(mk(Op::URem, a->k[0]->w, a->k[0], C(v, a->k[0]->w)), w); } } break;
        case Op::And:
            if(a->isC()) std::swap(a, b);
            if(a == b) return a;
            if(b->isC()) {
                u128 v = b->c();
                if(v == 0) return b;
                if(v == maskw(w)) return a;
                if((v & (v + 1)) == 0) { unsigned n = 0; while((v >> n) & 1) n++; return zext(extract(a, 0, n), w); }
                if(a->op == Op::ZExt) return zext(mk(Op::And, a->k[0]->w, a->k[0], C(v, a->k[0]->w)), w);
                if(a->op == Op::And && a->k[1]->isC()) return mk(Op::And, w, a->k[0], C(a->k[1]->c() & v, w));
                if(a->op == Op::Concat) { unsigned lw = a->k[1]->w; return concat(mk(Op::And, w - lw, a->k[0], C(v >> lw, w - lw)), mk(Op::And, lw, a->k[1], C(v, lw))); }
            } else {
                if(w == 1) {
                    if(isNot(a) && a->k[0] == b) return C(0, 1);
                    if(isNot(b) && b->k[0] == a) return C(0, 1);
                    if(a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
                    if(b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
                }
                if(a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return zext(mk(Op::And, a->k[0]->w, a->k[0], b->k[0]), w);
                if(a->id > b->id) std::swap(a, b);
            }
            break;
        case Op::Or:
            if(a->isC()) std::swap(a, b);
            if(a == b) return a;
            if(b->isC()) {
                u128 v = b->c();
                if(v == 0) return a;
                if(v == maskw(w)) return b;
                if(a->op == Op::Or && a->k[1]->isC()) return mk(Op::Or, w, a->k[0], C(a->k[1]->c() | v, w));
                if(a->op == Op::ZExt) { unsigned n = a->k[0]->w; if(v >> n) return concat(C(v >> n, w - n), mk(Op::Or, n, a->k[0], C(v, n))); return zext(mk(Op::Or, n, a->k[0], C(v, n)), w); }
                if(a->op == Op::Concat) { unsigned lw = a->k[1]->w; return concat(mk(Op::Or, w - lw, a->k[0], C(v >> lw, w - lw)), mk(Op::Or, lw, a->k[1], C(v, lw))); }
            } else {
                if(w == 1) {
                    if(isNot(a) && a->k[0] == b) return C(1, 1);
                    if(isNot(b) && b->k[0] == a) return C(1, 1);
                }
                for(int i = 0; i < 2; i++) { // disjoint halves -> concat
                    if(a->op == Op::Concat && a->k[1]->isC() && a->k[1]->c() == 0) {
                        unsigned lw = a->k[1]->w;
                        if(b->op == Op::ZExt && b->k[0]->w <= lw) return concat(a->k[0], zext(b->k[0], lw));
                        if(b->op == Op::Concat && b->k[0]->w == w - lw) return concat(mk(Op::Or, w - lw, a->k[0], b->k[0]), b->k[1]);
                    }
                    std::swap(a, b);
                }
                if(a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return zext(mk(Op::Or, a->k[0]->w, a->k[0], b->k[0]), w);
                if(a->id > b->id) std::swap(a, b);
            }
            break;
        case Op::Xor:
            if(a->isC()) std::swap(a, b);
            if(a == b) return C(0, w);
            if(b->isC()) {
                if(b->c() == 0) return a;
                if(a->op == Op::Xor && a->k[1]->isC()) return mk(Op::Xor, w, a->k[0], C(a->k[1]->c() ^ b->c(), w));
                if(w == 1) { // not
                    if(a->op == Op::Ult) return mk(Op::Ule, 1, a->k[1], a->k[0]);
                    if(a->op == Op::Ule) return mk(Op::Ult, 1, a->k[1], a->k[0]);
                    if(a->op == Op::Slt) return mk(Op::Sle, 1, a->k[1], a->k[0]);
                    if(a->op == Op::Sle) return mk(Op::Slt, 1, a->k[1], a->k[0]);
                    if(constArms(a)) return ite(a->k[0], C(a->k[1]->c() ^ 1, 1), C(a->k[2]->c() ^ 1, 1));
                }
                if(a->op == Op::ZExt && !(b->c() >> a->k[0]->w)) return zext(mk(Op::Xor, a->k[0]->w, a->k[0], C(b->c(), a->k[0]->w)), w);
            } else {
                if(a->id > b->id) std::swap(a, b);
            }
            break;
        case Op::Shl:
            if(b->isC()) {
                u128 s = b->c();
                if(s == 0) return a;
                if(s >= w) return C(0, w);
                return concat(extract(a, 0, w - (unsigned)s), C(0, (unsigned)s));
            }
            if(a->isC() && a->c() == 0) return a;
            break;
        case Op::LShr:
            if(b->isC()) {
                u128 s = b->c();
                if(s == 0) return a;
                if(s >= w) return C(0, w);
                return zext(extract(a, (unsigned)s, w - (unsigned)s), w);
            }
            if(a->isC() && a->c() == 0) return a;
            break;
        case Op::AShr:
            if(b->isC()) {
                u128 s = b->c();
                if(s == 0) return a;
                if(s >= w) s = w - 1;
                return sext(extract(a, (unsigned)s, w - (unsigned)s), w);
            }
            break;
        case Op::Concat: {
            if(a->isC() && a->c() == 0) return zext(b, w);
            if(a->op == Op::Extract && b->op == Op::Extract && a->k[0] == b->k[0] && a->aux == b->aux + b->w) return extract(a->k[0], b->aux, w);
            if(b->op == Op::Concat) { // (a . (b0 . b1)): try merging a with b0
                Expr* b0 = b->k[0];
                if((a->op == Op::Extract && b0->op == Op::Extract && a->k[0] == b0->k[0] && a->aux == b0->aux + b0->w) || (a->isC() && b0->isC())) return concat(concat(a, b0), b->k[1]);
            }
            if(a->op == Op::Concat) { // normalise to right-nested
                return concat(a->k[0], concat(a->k[1], b));
            }
            if(a->op == Op::ZExt) return zext(concat(a->k[0], b), w);
            if(a->op == Op::Ite && b->op == Op::Ite && a->k[0] == b->k[0]) return ite(a->k[0], concat(a->k[1], b->k[1]), concat(a->k[2], b->k[2]));
            if(a->op == Op::Extract && a->k[0] == b && false) {}
            // extract(x, n..) . x' where b is the low part via trunc of full expr
            break;
        }
        case Op::Extract: {
            if(aux == 0 && w == wa) return a;
            if(aux && (a->op == Op::Add || a->op == Op::URem || a->op == Op::UDiv || a->op == Op::Ite || a->op == Op::Mul) && wa <= 64 && (umax(a) >> aux) == 0) return C(0, w);
            switch(a->op) {
            case Op::Extract: return extract(a->k[0], a->aux + aux, w);
            case Op::Concat: {
                unsigned lw = a->k[1]->w;
                if(aux >= lw) return extract(a->k[0], aux - lw, w);
                if(aux + w <= lw) return extract(a->k[1], aux, w);
                return concat(extract(a->k[0], 0, aux + w - lw), extract(a->k[1], aux, lw - aux));
            }
            case Op::ZExt: {
                unsigned iw = a->k[0]->w;
                if(aux >= iw) return C(0, w);
                if(aux + w <= iw) return extract(a->k[0], aux, w);
                return zext(extract(a->k[0], aux, iw - aux), w);
            }
            case Op::SExt: {
                unsigned iw = a->k[0]->w;
                if(aux + w <= iw) return extract(a->k[0], aux, w);
                if(aux < iw) return sext(extract(a->k[0], aux, iw - aux), w);
                return sext(extract(a->k[0], iw - 1, 1), w);
            }
            case Op::And: case Op::Or: case Op::Xor:
                return mk(a->op, w, extract(a->k[0], aux, w), extract(a->k[1], aux, w));
            case Op::Add: case Op::Sub: case Op::Mul:
                if(aux == 0) return mk(a->op, w, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
                break;
            case Op::Ite:
                return ite(a->k[0], extract(a->k[1], aux, w), extract(a->k[2], aux, w));
            default: break;
            }
            break;
        }
        case Op::ZExt:
            if(w == wa) return a;
            if(a->op == Op::ZExt) return zext(a->k[0], w);
            if(a->op == Op::Extract && a->aux == 0 && a->k[0]->op != Op::Sym && umax(a->k[0]) <= maskw(wa)) return zext(a->k[0], w);
            if(a->op == Op::Add && a->k[1]->isC()) { u128 x = umax(a->k[0]); if(x <= maskw(wa) - a->k[1]->c()) return mk(Op::Add, w, zext(a->k[0], w), C(a->k[1]->c(), w)); }
            if(constArms(a)) return ite(a->k[0], C(a->k[1]->c(), w), C(a->k[2]->c(), w));
            break;
        case Op::SExt:
            if(w == wa) return a;
            if(a->op == Op::SExt) return sext(a->k[0], w);
            if(a->op == Op::ZExt) return zext(a->k[0], w);
            if((a->op == Op::Add || a->op == Op::URem || a->op == Op::UDiv || a->op == Op::Extract) && umax(a) <= maskw(wa - 1)) return zext(a, w);
            if(constArms(a)) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
            break;
        case Op::Eq:
            if(a == b) return C(1, 1);
            if(a->isC()) std::swap(a, b);
            if(b->isC()) {
                u128 v = b->c();
                if(wa == 1) return v ? a : Not(a);
                switch(a->op) {
                case Op::ZExt: { unsigned iw = a->k[0]->w; if(v >> iw) return C(0, 1); return eq(a->k[0], C(v, iw)); }
                case Op::SExt: { unsigned iw = a->k[0]->w; if(((u128)sextw(v & maskw(iw), iw) & maskw(wa)) != v) return C(0, 1); return eq(a->k[0], C(v, iw)); }
                case Op::Concat: { unsigned lw = a->k[1]->w; return And1(eq(a->k[0], C(v >> lw, wa - lw)), eq(a->k[1], C(v, lw))); }
                case Op::UDiv: if(v == 0 && a->k[1]->isC() && a->k[1]->c()) return mk(Op::Ult, 1, a->k[0], a->k[1]); break;
                case Op::Add: if(a->k[1]->isC()) return eq(a->k[0], C(v - a->k[1]->c(), wa)); break;
                case Op::Sub: if(v == 0) return eq(a->k[0], a->k[1]); if(a->k[0]->isC()) return eq(a->k[1], C(a->k[0]->c() - v, wa)); break;
                case Op::Xor: if(a->k[1]->isC()) return eq(a->k[0], C(v ^ a->k[1]->c(), wa)); if(v == 0) return eq(a->k[0], a->k[1]); break;
                case Op::Ite: {
                    bool c1 = a->k[1]->isC(), c2 = a->k[2]->isC();
                    if(c1 || c2) {
                        Expr* e1 = eq(a->k[1], b); Expr* e2 = eq(a->k[2], b);
                        return ite(a->k[0], e1, e2);
                    }
                    break; }
                default: break;
                }
            } else {
                if(a->op == Op::ZExt && b->op == Op::ZExt) {
                    Expr *x = a->k[0], *y = b->k[0];
                    unsigned m = std::max(x->w, y->w);
                    return eq(zext(x, m), zext(y, m));
                }
                if(a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
                if(a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return eq(a->k[0], b->k[0]);
                if(a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w) return And1(eq(a->k[0], b->k[0]), eq(a->k[1], b->k[1]));
                if(wa == 1) return Not(mk(Op::Xor, 1, a, b));
                if(a->id > b->id) std::swap(a, b);
            }
            break;
        case Op::Ult:
            if(a == b) return C(0, 1);
            if(b->isC()) {
                u128 v = b->c();
                if(v == 0) return C(0, 1);
                if(v == 1) return eq(a, C(0, wa));
                if((a->op == Op::URem || a->op == Op::UDiv || a->op == Op::Add || a->op == Op::Extract) && umax(a) < v) return C(1, 1);
                if(a->op == Op::ZExt) { unsigned iw = a->k[0]->w; if(v > maskw(iw)) return C(1, 1); return mk(Op::Ult, 1, a->k[0], C(v, iw)); }
                if(v == maskw(wa)) return Not(eq(a, b));
                if(a->op == Op::UDiv && a->k[1]->isC() && a->k[1]->c()) { u128 c = a->k[1]->c(); if(v > maskw(wa) / c) return C(1, 1); return mk(Op::Ult, 1, a->k[0], C(c * v, wa)); }
            }
            if(a->isC()) {
                u128 v = a->c();
                if(v == maskw(wa)) return C(0, 1);
                if(v == 0) return Not(eq(b, a));
                if(b->op == Op::ZExt) { unsigned iw = b->k[0]->w; if(v >= maskw(iw)) return C(0, 1); return mk(Op::Ult, 1, C(v, iw), b->k[0]); }
                // v < x/c  <=>  x >= (v+1)*c
                if(b->op == Op::UDiv && b->k[1]->isC() && b->k[1]->c()) { u128 c = b->k[1]->c(); if(v + 1 > maskw(wa) / c) return C(0, 1); return mk(Op::Ule, 1, C((v + 1) * c, wa), b->k[0]); }
            }
            if(a->op == Op::ZExt && b->op == Op::ZExt) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); return mk(Op::Ult, 1, zext(a->k[0], m), zext(b->k[0], m)); }
            if(wa == 1) return And1(Not(a), b);
            break;
        case Op::Ule:
            if(a == b) return C(1, 1);
            if(b->isC()) {
                u128 v = b->c();
                if(v == maskw(wa)) return C(1, 1);
                return mk(Op::Ult, 1, a, C(v + 1, wa));
            }
            if(a->isC()) {
                u128 v = a->c();
                if(v == 0) return C(1, 1);
                return mk(Op::Ult, 1, C(v - 1, wa), b);
            }
            if(a->op == Op::ZExt && b->op == Op::ZExt) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); return mk(Op::Ule, 1, zext(a->k[0], m), zext(b->k[0], m)); }
            if(wa == 1) return Or1(Not(a), b);
            break;
        case Op::Slt: case Op::Sle: {
            if(a == b) return C(op == Op::Sle, 1);
            auto nonneg = [&](Expr* e) { return e->op == Op::ZExt || ((e->op == Op::UDiv || e->op == Op::URem || e->op == Op::Add || e->op == Op::Ite) && umax(e) <= maskw(wa - 1)) || (e->isC() && !((e->c() >> (e->w - 1)) & 1)); };
            auto negated = [&](Expr* e) { return e->op == Op::Sub && e->k[0]->isC() && e->k[0]->c() == 0 && nonneg(e->k[1]); }; // -x with x >= 0
            if(op == Op::Slt && b->isC() && b->c() == 0 && negated(a)) return Not(eq(a->k[1], b));
            if(op == Op::Sle && a->isC() && a->c() == 0 && negated(b)) return eq(b->k[1], a);
            if(op == Op::Slt && a->isC() && a->c() == 0 && negated(b)) return C(0, 1);
            if(op == Op::Sle && b->isC() && b->c() == 0 && negated(a)) return C(1, 1);
            auto neg = [](Expr* e) { return e->isC() && ((e->c() >> (e->w - 1)) & 1); };
            if(nonneg(a) && nonneg(b)) return mk(op == Op::Slt ? Op::Ult : Op::Ule, 1, a, b);
            if(nonneg(a) && neg(b)) return C(0, 1);
            if(neg(a) && nonneg(b)) return C(1, 1);
            if(a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
            if(a->op == Op::SExt && b->isC()) {
                unsigned iw = a->k[0]->w; s128 v = sextw(b->c(), wa); s128 mx = (s128)(maskw(iw) >> 1), mn = -mx - 1;
                if(v > mx) return C(1, 1);
                if(v < mn) return C(0, 1);
                return mk(op, 1, a->k[0], C((u128)v, iw));
            }
            if(b->op == Op::SExt && a->isC()) {
                unsigned iw = b->k[0]->w; s128 v = sextw(a->c(), wa); s128 mx = (s128)(maskw(iw) >> 1), mn = -mx - 1;
                if(v < mn) return C(1, 1);
                if(v > mx) return C(0, 1);
                return mk(op, 1, C((u128)v, iw), b->k[0]);
            }
            break;
        }
        case Op::Ite:
            if(a->isC()) return a->lo ? b : c;
            if(b == c) return b;
            if(isNot(a)) return ite(a->k[0], c, b);
            { // x == 0 ? -x : x
                auto core = [&](Expr* e) { while(e->op == Op::ZExt || (e->op == Op::Extract && e->aux == 0 && umax(e->k[0]) <= maskw(e->w))) e = e->k[0]; return e; };
                auto negOf = [&](Expr* n, Expr* x) { return n->op == Op::Sub && n->k[0]->isC() && n->k[0]->c() == 0 && n->k[1] == x; };
                if(a->op == Op::Eq && a->k[1]->isC() && a->k[1]->c() == 0 && negOf(b, c) && core(a->k[0]) == core(c)) return c;
                if(negOf(c, b) && core(b) == a) return b; // one bit
            }
            if(w == 1) {
                if(b->isC() && c->isC()) return b->lo ? a : Not(a);
                if(b->isC()) return b->lo ? Or1(a, c) : And1(Not(a), c);
                if(c->isC()) return c->lo ? Or1(Not(a), b) : And1(a, b);
            }
            if(b->op == Op::Ite && b->k[0] == a) return ite(a, b->k[1], c);
            if(c->op == Op::Ite && c->k[0] == a) return ite(a, b, c->k[2]);
            break;
        case Op::FEq: if(a->id > b->id) std::swap(a, b); break;
        case Op::FConv: if(w == wa) return a; break;
        default: break;
        }
        return raw(op, w, a, b, c, aux);
    }

    // ---------- evaluation under a model ----------
    uint64_t gen = 0;
    u128 eval(Expr* e, const std::vector<uint64_t>& model) { ++gen; return evalR(e, model); }
    u128 evalR(Expr* e, const std::vector<uint64_t>& m) {
        if(e->op == Op::Const) return e->c();
        if(e->op == Op::Sym) return e->lo < m.size() ? m[e->lo] : 0;
        if(e->egen == gen) return ((u128)e->ehi << 64) | e->elo;
        u128 r;
        if(e->op == Op::Ite) r = evalR(e->k[0], m) ? evalR(e->k[1], m) : evalR(e->k[2], m);
        else {
            u128 a = evalR(e->k[0], m), b = e->k[1] ? evalR(e->k[1], m) : 0;
            r = evalOp(e->op, e->w, e->aux, e, a, b, 0, e->k[0]->w, e->k[1] ? e->k[1]->w : 0);
        }
        e->egen = gen; e->elo = (uint64_t)r; e->ehi = (uint64_t)(r >> 64);
        return r;
    }

    // ---------- z3 ----------
    Z3_context z = nullptr;
    void zinit() {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
    Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort(z, 15, 64); }
    Z3_ast num(u128 v, unsigned w) {
        if(w <= 64) return Z3_mk_unsigned_int64(z, (uint64_t)v, bv(w));
        return Z3_mk_concat(z, Z3_mk_unsigned_int64(z, (uint64_t)(v >> 64), bv(w - 64)), Z3_mk_unsigned_int64(z, (uint64_t)v, bv(64)));
    }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(z, b, num(1, 1), num(0, 1)); }
    Z3_ast toF(Z3_ast a, unsigned w) {
        if(w != 80) return Z3_mk_fpa_to_fp_bv(z, a, fsort(w));
        // x87 extended: drop the explicit integer bit (canonical encodings only)
        Z3_ast t = Z3_mk_concat(z, Z3_mk_extract(z, 79, 64, a), Z3_mk_extract(z, 62, 0, a));
        return Z3_mk_fpa_to_fp_bv(z, t, fsort(80));
    }
    std::unordered_map<Expr*, Z3_ast> fmemo;
    unsigned freshF = 0;
    std::vector<Z3_ast> fdefs; // not used across queries; bit pattern definitions
    Z3_ast fromFz(Z3_ast f, unsigned w) {
        Z3_ast b = Z3_mk_fpa_to_ieee_bv(z, f);
        if(w != 80) return b;
        Z3_ast exp = Z3_mk_extract(z, 77, 63, b);
        Z3_ast ib = Z3_mk_ite(z, Z3_mk_eq(z, exp, num(0, 15)), num(0, 1), num(1, 1));
        return Z3_mk_concat(z, Z3_mk_concat(z, Z3_mk_extract(z, 78, 63, b), ib), Z3_mk_extract(z, 62, 0, b));
    }
    Z3_ast fz(Expr* e) { // FP-sorted encoding
        auto it = fmemo.find(e);
        if(it != fmemo.end()) return it->second;
        Z3_ast r;
        Z3_ast rm = Z3_mk_fpa_round_nearest_ties_to_even(z);
        switch(e->op) {
        case Op::FAdd: r = Z3_mk_fpa_add(z, rm, fz(e->k[0]), fz(e->k[1])); break;
        case Op::FSub: r = Z3_mk_fpa_sub(z, rm, fz(e->k[0]), fz(e->k[1])); break;
        case Op::FMul: r = Z3_mk_fpa_mul(z, rm, fz(e->k[0]), fz(e->k[1])); break;
        case Op::FDiv: r = Z3_mk_fpa_div(z, rm, fz(e->k[0]), fz(e->k[1])); break;
        case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(z, rm, zast(e->k[0]), fsort(e->w)); break;
        case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(z, rm, zast(e->k[0]), fsort(e->w)); break;
        case Op::FConv: r = Z3_mk_fpa_to_fp_float(z, rm, fz(e->k[0]), fsort(e->w)); break;
        case Op::Ite: r = Z3_mk_ite(z, zbool(e->k[0]), fz(e->k[1]), fz(e->k[2])); break;
        default: r = toF(zast(e), e->w);
        }
        fmemo[e] = r;
        return r;
    }
    Z3_ast zbool(Expr* e) {
        Z3_ast r;
        switch(e->op) {
        case Op::Eq: return Z3_mk_eq(z, zast(e->k[0]), zast(e->k[1]));
        case Op::Ult: return Z3_mk_bvult(z, zast(e->k[0]), zast(e->k[1]));
        case Op::Ule: return Z3_mk_bvule(z, zast(e->k[0]), zast(e->k[1]));
        case Op::Slt: return Z3_mk_bvslt(z, zast(e->k[0]), zast(e->k[1]));
        case Op::Sle: return Z3_mk_bvsle(z, zast(e->k[0]), zast(e->k[1]));
        case Op::FEq: return Z3_mk_fpa_eq(z, fz(e->k[0]), fz(e->k[1]));
        case Op::FLt: return Z3_mk_fpa_lt(z, fz(e->k[0]), fz(e->k[1]));
        case Op::FLe: return Z3_mk_fpa_leq(z, fz(e->k[0]), fz(e->k[1]));
        case Op::FNan: return Z3_mk_fpa_is_nan(z, fz(e->k[0]));
        case Op::And: if(e->w == 1) { Z3_ast x[2] = {zbool(e->k[0]), zbool(e->k[1])}; return Z3_mk_and(z, 2, x); } break;
        case Op::Or: if(e->w == 1) { Z3_ast x[2] = {zbool(e->k[0]), zbool(e->k[1])}; return Z3_mk_or(z, 2, x); } break;
        case Op::Xor: if(isNot(e)) return Z3_mk_not(z, zbool(e->k[0])); break;
        case Op::Const: return e->lo ? Z3_mk_true(z) : Z3_mk_false(z);
        default: break;
        }
        r = Z3_mk_eq(z, zast(e), num(1, 1));
        return r;
    }
    Z3_ast zast(Expr* e) {
        if(e->z) return e->z;
        Z3_ast r = nullptr;
        auto A = [&](int i) { return zast(e->k[i]); };
        switch(e->op) {
        case Op::Const: r = num(e->c(), e->w); break;
        case Op::Sym: r = Z3_mk_const(z, Z3_mk_int_symbol(z, (int)e->lo), bv(e->w)); break;
        case Op::Add: r = Z3_mk_bvadd(z, A(0), A(1)); break;
        case Op::Sub: r = Z3_mk_bvsub(z, A(0), A(1)); break;
        case Op::Mul: r = Z3_mk_bvmul(z, A(0), A(1)); break;
        case Op::UDiv: r = e->k[1]->isC() ? Z3_mk_fresh_const(z, "q", bv(e->w)) : Z3_mk_bvudiv(z, A(0), A(1)); break; // constrained by divDefs
        case Op::SDiv: r = Z3_mk_bvsdiv(z, A(0), A(1)); break;
        case Op::URem: r = e->k[1]->isC() ? Z3_mk_fresh_const(z, "r", bv(e->w)) : Z3_mk_bvurem(z, A(0), A(1)); break;
        case Op::SRem: r = Z3_mk_bvsrem(z, A(0), A(1)); break;
        case Op::Shl: r = Z3_mk_bvshl(z, A(0), A(1)); break;
        case Op::LShr: r = Z3_mk_bvlshr(z, A(0), A(1)); break;
        case Op::AShr: r = Z3_mk_bvashr(z, A(0), A(1)); break;
        case Op::Concat: r = Z3_mk_concat(z, A(0), A(1)); break;
        case Op::Extract: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, A(0)); break;
        case Op::ZExt: r = Z3_mk_zero_ext(z, e->w - e->k[0]->w, A(0)); break;
        case Op::SExt: r = Z3_mk_sign_ext(z, e->w - e->k[0]->w, A(0)); break;
        case Op::Ite: r = Z3_mk_ite(z, zbool(e->k[0]), A(1), A(2)); break;
        case Op::And: r = e->w == 1 ? b2v(zbool(e)) : Z3_mk_bvand(z, A(0), A(1)); break;
        case Op::Or: r = e->w == 1 ? b2v(zbool(e)) : Z3_mk_bvor(z, A(0), A(1)); break;
        case Op::Xor: r = isNot(e) ? b2v(zbool(e)) : Z3_mk_bvxor(z, A(0), A(1)); break;
        case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
        case Op::FEq: case Op::FLt: case Op::FLe: case Op::FNan: r = b2v(zbool(e)); break;
        case Op::FToSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_round_toward_zero(z), fz(e->k[0]), e->w); break;
        case Op::FToUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_round_toward_zero(z), fz(e->k[0]), e->w); break;
        case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::SIToF: case Op::UIToF: case Op::FConv:
            r = fromFz(fz(e), e->w); break;
        case Op::FRem: { fprintf(stderr, "frem unsupported\n"); abort(); }
        }
        e->z = r;
        return r;
    }
    // Division by constants: quotients and remainders are opaque constants for the solver, tied together by
    // x = c*q + r, r < c, q <= max/c (which has exactly one solution). The divisors of one dividend form a chain.
    void collectDiv(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Expr*>& out) {
        if(!e->dv || !seen.insert(e).second) return;
        if((e->op == Op::UDiv || e->op == Op::URem) && e->k[1]->isC()) out.push_back(e);
        for(Expr* k : e->k) if(k) collectDiv(k, seen, out);
    }
    void divDefs(const std::vector<Expr*>& cs, std::vector<Z3_ast>& defs) {
        std::unordered_set<Expr*> seen; std::vector<Expr*> ds;
        for(Expr* c : cs) collectDiv(c, seen, ds);
        if(ds.empty()) return;
        auto isq = [](Expr* e) { return e->op == Op::UDiv && e->k[1]->isC() && e->k[1]->c(); };
        std::map<std::pair<uint32_t, Expr*>, std::set<u128>> chain;
        struct Rm { Expr* x; u128 a, b; Expr* e; };
        std::vector<Rm> rms;
        for(Expr* e : ds) {
            u128 c = e->k[1]->c(); Expr* x = e->k[0];
            if(c == 0) { defs.push_back(Z3_mk_eq(z, zast(e), e->op == Op::UDiv ? num(maskw(e->w), e->w) : zast(x))); continue; }
            if(e->op == Op::UDiv) { chain[{x->id, x}].insert(c); continue; }
            u128 a = 1;
            if(isq(x)) { a = x->k[1]->c(); x = x->k[0]; }
            if(c > maskw(e->w) / a) { defs.push_back(Z3_mk_eq(z, zast(e), zast(e->k[0]))); chain[{x->id, x}].insert(a); continue; } // X < c always
            if(a != 1) chain[{x->id, x}].insert(a);
            chain[{x->id, x}].insert(a * c);
            rms.push_back({x, a, c, e});
        }
        auto quo = [&](Expr* x, u128 c) { return c == 1 ? x : mk(Op::UDiv, x->w, x, C(c, x->w)); };
        std::unordered_set<Expr*> done;
        auto below = [&](Expr* x, u128 v) { // is x < v among the constraints?
            for(Expr* c : cs) {
                if(c->op == Op::Ult && c->k[0] == x && c->k[1]->isC() && c->k[1]->c() <= v) return true;
                if(c->op == Op::Ule && c->k[0] == x && c->k[1]->isC() && c->k[1]->c() < v) return true;
                if(c->op == Op::Eq && c->k[0] == x && c->k[1]->isC() && c->k[1]->c() < v) return true;
            }
            return false;
        };
        auto tie = [&](Expr* x, u128 a, u128 b) { // Q(a) = b*Q(a*b) + R
            Expr* qa = quo(x, a); Expr* qn = quo(x, a * b); Expr* r = mk(Op::URem, x->w, qa, C(b, x->w));
            unsigned w = x->w; u128 m = maskw(w) / (a * b);
            if(r->op != Op::URem || qn->op != Op::UDiv) { // a power of two or a folded form: state it over the folded terms
                defs.push_back(Z3_mk_eq(z, zast(qa), Z3_mk_bvadd(z, Z3_mk_bvmul(z, num(b, w), zast(qn)), zast(r))));
                return;
            }
            if(!done.insert(r).second) return;
            Z3_ast R = zast(r), N = zast(qn), P = zast(qa);
            if(below(x, a * b)) { // the quotient is zero
                defs.push_back(Z3_mk_eq(z, N, num(0, w)));
                defs.push_back(Z3_mk_eq(z, P, R));
                defs.push_back(Z3_mk_bvult(z, R, num(b, w)));
                return;
            }
            defs.push_back(Z3_mk_eq(z, P, Z3_mk_bvadd(z, Z3_mk_bvmul(z, num(b, w), N), R)));
            defs.push_back(Z3_mk_bvult(z, R, num(b, w)));
            defs.push_back(Z3_mk_bvule(z, N, num(m, w)));
            defs.push_back(Z3_mk_eq(z, Z3_mk_eq(z, N, num(0, w)), Z3_mk_bvult(z, P, num(b, w))));
            if(a != 1) defs.push_back(Z3_mk_eq(z, Z3_mk_eq(z, N, num(0, w)), Z3_mk_bvult(z, zast(x), num(a * b, w))));
        };
        for(auto& ch : chain) {
            Expr* x = ch.first.second;
            std::vector<u128> cs2(ch.second.begin(), ch.second.end());
            for(size_t i = 0; i < cs2.size(); i++) {
                u128 best = 1;
                for(size_t j = 0; j < i; j++) if(cs2[i] % cs2[j] == 0) best = cs2[j];
                if(cs2[i] != best) tie(x, best, cs2[i] / best);
            }
        }
        for(auto& r : rms) tie(r.x, r.a, r.b);
    }
    std::string str(Expr* e, int d = 0) {
        static const char* n[] = {"c", "s", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "feq", "flt", "fle", "fnan", "ftosi", "ftoui", "sitof", "uitof", "fconv"};
        if(e->op == Op::Const) return std::to_string(e->lo) + ":" + std::to_string(e->w);
        if(e->op == Op::Sym) return syms[e->lo].name;
        if(d > 6) return "...";
        std::string s = std::string("(") + n[(int)e->op] + std::to_string(e->w);
        if(e->op == Op::Extract) s += "@" + std::to_string(e->aux);
        for(int i = 0; i < 3; i++) if(e->k[i]) s += " " + str(e->k[i], d + 1);
        return s + ")";
    }
};
