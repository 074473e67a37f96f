// symex: bounded symbolic execution of LLVM bitcode with z3.
// See DESIGN.md for what is modelled. Usage:
//   symex --entry F --out O.json [--param N]... [--jobs J] [--max-time S] [--max-insn N] [--query-timeout MS] a.bc b.bc ...
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <chrono>
#include <atomic>
#include <functional>
#include <memory>
#include <set>
#include <charconv>
#include <deque>

using namespace llvm;
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static ExprCtx X;
static const DataLayout* DL;

// ------------------------------------------------------------------ options / statistics
struct Options {
    std::string entry = "harness", out;
    std::vector<u64> params;
    int jobs = 1;
    double maxTime = 600;
    u64 maxInsn = 4000000;   // per path
    unsigned queryTimeoutMs = 60000;
    int maxErrors = 8;
    bool verbose = false;
    u64 memMB = 6000;
} opt;

struct Stats {
    u64 paths = 0, completed = 0, assumed = 0, errored = 0, forks = 0, insns = 0, queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, dropped = 0;
    double solverTime = 0, maxQuery = 0;
    u64 asserts = 0, assertQueries = 0;
} st;
static std::map<std::string, u64> reachCount;
static std::set<std::string> unsupportedSeen;
static std::vector<std::vector<std::pair<std::string, std::vector<u8>>>> samples;
static bool timedOut = false;
static double tStart;

// ------------------------------------------------------------------ values
struct Val { Expr* e = nullptr; u64 c = 0; };
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val mkv(u64 c) { return Val{nullptr, c}; }
static inline Val fromE(Expr* e) {
    if(e->isC() && e->w <= 64) return Val{nullptr, e->lo};
    return Val{e, 0};
}
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : X.C(v.c, w); }
static inline u128 constOf(const Val& v) { return v.e ? v.e->c() : v.c; }
static inline bool isConc(const Val& v) { return !v.e || v.e->isC(); }

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { OK_Global, OK_Stack, OK_New, OK_NewArr, OK_Malloc, OK_Exc };
static Expr* const UNDEF = (Expr*)1;
struct Obj {
    int rc = 1; u64 size; ObjKind kind; bool freed = false, ro = false; u16 gen = 0; u32 nsym = 0;
    u8* b = nullptr; Expr** s = nullptr;
    Obj(u64 n, ObjKind k) : size(n), kind(k) { b = (u8*)calloc(n ? n : 1, 1); }
    Obj(const Obj& o) : size(o.size), kind(o.kind), freed(o.freed), ro(o.ro), gen(o.gen), nsym(o.nsym) {
        b = (u8*)malloc(size ? size : 1); memcpy(b, o.b, size);
        if(o.s && o.nsym) { s = (Expr**)malloc(size * sizeof(Expr*)); memcpy(s, o.s, size * sizeof(Expr*)); }
    }
    ~Obj() { free(b); free(s); }
    void needSym() { if(!s) s = (Expr**)calloc(size, sizeof(Expr*)); }
    void setSym(u64 i, Expr* e) { needSym(); if(!s[i]) nsym++; s[i] = e; }
    void setConc(u64 i, u8 v) { b[i] = v; if(s && s[i]) { s[i] = nullptr; nsym--; } }
    void fillUndef() { if(!size) return; needSym(); for(u64 i = 0; i < size; i++) s[i] = UNDEF; nsym = size; }
};
struct Chunk { int rc = 1; Obj* o[64]; };
static void derefObj(Obj* o) { if(o && --o->rc == 0) delete o; }
// table of objects, COW in two levels
struct ObjTable {
    std::vector<Chunk*> ch; u32 n = 0;
    ObjTable() = default;
    ObjTable(const ObjTable& t) : ch(t.ch), n(t.n) { for(auto* c : ch) c->rc++; }
    ObjTable& operator=(const ObjTable&) = delete;
    ~ObjTable() { for(auto* c : ch) drop(c); }
    static void drop(Chunk* c) { if(--c->rc == 0) { for(auto* o : c->o) derefObj(o); delete c; } }
    Obj* get(u32 i) const { return i < n ? ch[i >> 6]->o[i & 63] : nullptr; }
    Chunk* own(u32 ci) {
        Chunk* c = ch[ci];
        if(c->rc > 1) { auto* d = new Chunk(*c); d->rc = 1; for(auto* o : d->o) if(o) o->rc++; c->rc--; ch[ci] = d; c = d; }
        return c;
    }
    u32 push(Obj* o) {
        if((n & 63) == 0 && (n >> 6) == ch.size()) { auto* c = new Chunk; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
        own(n >> 6)->o[n & 63] = o;
        return n++;
    }
    void pop() { --n; Chunk* c = own(n >> 6); derefObj(c->o[n & 63]); c->o[n & 63] = nullptr; }
    Obj* wr(u32 i) {
        Chunk* c = own(i >> 6); Obj*& o = c->o[i & 63];
        if(o->rc > 1) { Obj* d = new Obj(*o); o->rc--; o = d; }
        return o;
    }
};
// address layout: region tag (bit 46/45..), slot index << 24, plus a pad
static const u64 PAD = 0x100000, SLOT = 24, REG_G = 1ull << 52, REG_H = 2ull << 52, REG_S = 3ull << 52, REG_F = 4ull << 52;
static const u64 REG_MASK = 7ull << 52;
static inline u64 mkAddr(u64 reg, u32 i) { return reg | ((u64)i << SLOT) | PAD; }

// ------------------------------------------------------------------ decoded program
struct Opd { bool k; u32 i; };
static std::vector<Val> pool;
struct Edge { int pc; std::vector<std::array<int, 4>> ph; /* dst, isconst, idx, n */ };
struct FnInfo;
struct Extra;
struct Ins { u16 op, sub; u16 w, w2; int dst; Opd a, b, c; Instruction* I; Extra* x; };
struct MemPart { u64 off; u16 w; u16 bytes; };
struct Extra {
    std::vector<Opd> ops; std::vector<int> n; std::vector<u64> scale; u64 base = 0; u64 size = 0;
    std::vector<MemPart> parts; std::vector<Edge> edges; std::vector<std::pair<u128, int>> cases;
    Function* callee = nullptr; FnInfo* fi = nullptr; std::function<void()> dummy;
    struct Handler* h = nullptr; std::vector<u64> byval; std::string name; bool varargs = false;
    std::vector<unsigned> argw; int nret = 0; bool noret = false;
    int intr = 0;
};
struct FnInfo {
    Function* F; std::string name; bool decoded = false; int nslots = 0; std::vector<Ins> code; std::vector<int> argSlot, argN;
    u64 hits = 0;
};
static std::unordered_map<const Function*, FnInfo*> fns;
static std::unordered_map<u64, Function*> fnByAddr;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, GlobalVariable*> gvByAddr;

struct Frame {
    int rc = 1; FnInfo* f; int pc = 0; std::vector<Val> r; u32 stackBase = 0; int retDst = -1; int retN = 0;
    Ins* callSite = nullptr; // in the caller
    u64 freeOnRet = 0; // exception object to release on return
    std::vector<Val> va;
};

// ------------------------------------------------------------------ state
struct ExcRec { u64 obj; u64 tinfo; u64 dtor; int handlers = 0; u64 adj; };
struct SymRec { std::string name; std::vector<Expr*> bytes; };
typedef std::vector<u64> Model;
struct State {
    std::vector<Frame*> fr;
    ObjTable G, H, S;
    std::vector<Expr*> cons;
    std::shared_ptr<Model> model;
    std::vector<SymRec> syms;
    std::vector<bool> fixedSym; // symbols with implied constant value
    std::vector<ExcRec> excs;   // live exception objects
    std::vector<u64> caught;
    std::vector<u64> globalsDirty;
    u64 insns = 0; u32 genCtr = 0, undefCtr = 0, symCtr = 0; long live = 0; long liveElem = 0;
    u64 unwinding = 0; // exception object address while in cleanup (for resume)
    u64 id = 0;
    std::vector<std::string> reach;
    State() { model = std::make_shared<Model>(); }
    State(const State& o) = default;
    ~State() { for(auto* f : fr) if(--f->rc == 0) delete f; }
    Frame& top() {
        Frame*& f = fr.back();
        if(f->rc > 1) { Frame* g = new Frame(*f); g->rc = 1; f->rc--; f = g; }
        return *f;
    }
};
static State* cloneState(State& s) {
    State* n = new State(s);
    for(auto* f : n->fr) f->rc++;
    return n;
}
struct PathEnd {};
struct Refork {}; // current instruction must be re-executed (state was constrained)
static std::deque<State*> work;

// ------------------------------------------------------------------ errors
struct ErrorRec { std::string kind, msg, where, stack; std::vector<std::pair<std::string, std::vector<u8>>> input; u64 count = 1; };
static std::vector<ErrorRec> errors;
static std::map<std::string, size_t> errKey;
static std::string demang(const std::string& n) { return llvm::demangle(n); }
static std::string locOf(Instruction* I) {
    if(!I) return "?";
    if(auto& dl = I->getDebugLoc()) {
        std::string s;
        const DILocation* d = dl.get();
        s = (d->getFilename() + ":" + Twine(d->getLine())).str();
        return s;
    }
    return "?";
}
static std::string inlineChain(Instruction* I) {
    std::string s;
    if(!I) return "?";
    if(auto& dl = I->getDebugLoc()) {
        for(const DILocation* d = dl.get(); d; d = d->getInlinedAt()) {
            if(!s.empty()) s += " < ";
            s += (d->getFilename() + ":" + Twine(d->getLine())).str();
            if(auto* sp = d->getScope()->getSubprogram()) s += "(" + sp->getName().str() + ")";
        }
    }
    return s;
}
static std::string stackOf(State& S) {
    std::string s;
    for(int i = (int)S.fr.size() - 1; i >= 0 && i > (int)S.fr.size() - 12; i--) {
        Frame* f = S.fr[i];
        Ins& in = f->f->code[f->pc < (int)f->f->code.size() ? f->pc : 0];
        s += "  #" + std::to_string(S.fr.size() - 1 - i) + " " + demang(f->f->name).substr(0, 160) + " @ " + inlineChain(in.I) + "\n";
    }
    return s;
}
static void recordError(State& S, const std::string& kind, const std::string& msg, const Model& m) {
    Frame& f = *S.fr.back();
    Instruction* I = f.f->code[f.pc].I;
    std::string where = locOf(I);
    std::string key = kind + "|" + msg + "|" + inlineChain(I) + "|" + f.f->name;
    st.errored++;
    auto it = errKey.find(key);
    if(it != errKey.end()) { errors[it->second].count++; return; }
    errKey[key] = errors.size();
    ErrorRec e; e.kind = kind; e.msg = msg; e.where = where; e.stack = stackOf(S);
    for(auto& r : S.syms) {
        std::vector<u8> v;
        for(auto* b : r.bytes) v.push_back((u8)X.eval(b, m));
        e.input.push_back({r.name, v});
    }
    errors.push_back(e);
    if(opt.verbose) {
        fprintf(stderr, "ERROR %s: %s at %s\n%s", kind.c_str(), msg.c_str(), where.c_str(), e.stack.c_str());
        for(auto& p : e.input) { fprintf(stderr, "   %s =", p.first.c_str()); for(u8 x : p.second) fprintf(stderr, " %02x", x); fprintf(stderr, "\n"); }
    }
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
    recordError(S, kind, msg, m ? *m : *S.model);
    throw PathEnd{};
}
[[noreturn]] static void unsupported(State& S, const std::string& what) {
    std::string k = what + " at " + (S.fr.empty() ? "?" : locOf(S.fr.back()->f->code[S.fr.back()->pc].I));
    if(unsupportedSeen.insert(k).second && opt.verbose) fprintf(stderr, "UNSUPPORTED %s\n%s", k.c_str(), stackOf(S).c_str());
    throw PathEnd{};
}

// ------------------------------------------------------------------ solver
struct CacheEnt { int r; std::vector<std::pair<u32, u64>> vals; };
static std::unordered_map<std::string, CacheEnt> qcache;
static Z3_solver zs = nullptr, zsfp = nullptr;
static u64 zsUses = 0;
static void newSolver() {
    if(zs) Z3_solver_dec_ref(X.z, zs);
    zs = Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_BV"));
    Z3_solver_inc_ref(X.z, zs);
    Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p);
    Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), opt.queryTimeoutMs);
    Z3_solver_set_params(X.z, zs, p);
    Z3_params_dec_ref(X.z, p);
    zsUses = 0;
}
// decide cons /\ q ; 1 sat (vals filled), 0 unsat, -1 unknown
static int rawSolve(const std::vector<Expr*>& cs, const SymSet* ss, std::vector<std::pair<u32, u64>>& vals) {
    double t = now();
    bool fp = false;
    for(auto* c : cs) fp |= c->fp;
    bool dv = false;
    for(auto* c : cs) dv |= c->dv;
    Z3_solver s;
    if(fp || dv) {
        if(fp) s = Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_FPBV"));
        else { // not incremental: eliminate equations and normalise sums first
            static Z3_tactic t = nullptr;
            if(!t) {
                auto T = [&](const char* n) { Z3_tactic x = Z3_mk_tactic(X.z, n); Z3_tactic_inc_ref(X.z, x); return x; };
                Z3_params som = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, som);
                Z3_params_set_bool(X.z, som, Z3_mk_string_symbol(X.z, "som"), true);
                auto A = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic x = Z3_tactic_and_then(X.z, a, b); Z3_tactic_inc_ref(X.z, x); return x; };
                Z3_tactic sm = Z3_tactic_using_params(X.z, T("simplify"), som); Z3_tactic_inc_ref(X.z, sm);
                t = A(T("simplify"), A(T("propagate-values"), A(T("solve-eqs"), A(sm, T("qfbv")))));
            }
            s = Z3_mk_solver_from_tactic(X.z, t);
        }
        Z3_solver_inc_ref(X.z, s);
        Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p);
        Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), opt.queryTimeoutMs);
        Z3_solver_set_params(X.z, s, p);
        Z3_params_dec_ref(X.z, p);
    } else {
        if(!zs || zsUses > 2000) newSolver();
        zsUses++;
        s = zs;
        Z3_solver_push(X.z, s);
    }
    for(auto* c : cs) Z3_solver_assert(X.z, s, X.zbool(c));
    if(dv) { std::vector<Z3_ast> defs; X.divDefs(cs, defs); for(auto a : defs) Z3_solver_assert(X.z, s, a); }
    Z3_lbool r = Z3_solver_check(X.z, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if(res == 1) {
        Z3_model m = Z3_solver_get_model(X.z, s); Z3_model_inc_ref(X.z, m);
        for(u32 id : ss->v) {
            Expr* se = X.raw(Op::Sym, X.syms[id].w, 0, 0, 0, 0, id);
            Z3_ast o; uint64_t v = 0;
            if(Z3_model_eval(X.z, m, X.zast(se), true, &o)) { if(!Z3_get_numeral_uint64(X.z, o, &v)) v = 0; }
            vals.push_back({id, v});
        }
        Z3_model_dec_ref(X.z, m);
    }
    if(fp || dv) Z3_solver_dec_ref(X.z, s); else Z3_solver_pop(X.z, s, 1);
    double dt = now() - t;
    st.solverTime += dt; st.queries++; if(dt > st.maxQuery) st.maxQuery = dt;
    if(opt.verbose && dt > 2) { for(auto* c : cs) fprintf(stderr, "   %s\n", X.str(c).c_str()); }
    if(opt.verbose && dt > 2) fprintf(stderr, "slow query %.1fs -> %d (%zu cons)\n", dt, res, cs.size());
    if(res == 1) st.sat++; else if(res == 0) st.unsat++; else { st.unknown++; if(!fp && !dv) newSolver(); }
    return res;
}
static bool intersects(const SymSet* a, const SymSet* b) {
    auto i = a->v.begin(), j = b->v.begin();
    while(i != a->v.end() && j != b->v.end()) { if(*i == *j) return true; if(*i < *j) ++i; else ++j; }
    return false;
}
static int solve(State& S, Expr* q, std::shared_ptr<Model>* out) {
    if(q->isC()) { if(q->lo && out) *out = S.model; return q->lo ? 1 : 0; }
    // literal hit
    for(auto* c : S.cons) { if(c == q) { if(out) *out = S.model; return 1; } }
    Expr* nq = X.Not(q);
    for(auto* c : S.cons) if(c == nq) return 0;
    // independent slice
    const SymSet* cur = q->syms;
    std::vector<char> in(S.cons.size(), 0);
    for(bool ch = true; ch;) {
        ch = false;
        for(size_t i = 0; i < S.cons.size(); i++) if(!in[i] && intersects(S.cons[i]->syms, cur)) {
            in[i] = 1; const SymSet* n = X.uni(cur, S.cons[i]->syms); if(n != cur) { cur = n; ch = true; }
        }
    }
    std::vector<Expr*> cs;
    for(size_t i = 0; i < S.cons.size(); i++) if(in[i]) cs.push_back(S.cons[i]);
    std::vector<u32> ids;
    for(auto* c : cs) ids.push_back(c->id);
    std::sort(ids.begin(), ids.end());
    ids.push_back(q->id);
    std::string key((char*)ids.data(), ids.size() * 4);
    auto it = qcache.find(key);
    CacheEnt* ce;
    if(it != qcache.end()) { st.cacheHits++; ce = &it->second; }
    else {
        CacheEnt e;
        cs.push_back(q);
        e.r = rawSolve(cs, cur, e.vals);
        ce = &qcache.emplace(key, std::move(e)).first->second;
    }
    if(ce->r == 1 && out) {
        auto m = std::make_shared<Model>(*S.model);
        if(m->size() < X.syms.size()) m->resize(X.syms.size());
        for(auto& p : ce->vals) (*m)[p.first] = p.second;
        *out = m;
    }
    return ce->r;
}
static void addCons(State& S, Expr* c) {
    if(c->isC()) return;
    if(c->op == Op::And && c->w == 1) { addCons(S, c->k[0]); addCons(S, c->k[1]); return; }
    for(auto* d : S.cons) if(d == c) return;
    S.cons.push_back(c);
    if(c->op == Op::Eq && c->k[1]->isC() && c->k[0]->op == Op::Sym) {
        u32 id = c->k[0]->lo;
        if(S.fixedSym.size() <= id) S.fixedSym.resize(id + 1);
        S.fixedSym[id] = true;
    } else if(c->w == 1 && c->syms->v.size() == 1) {
        // single-symbol constraint: check whether it pins the symbol down (asked to the solver, cached)
    }
}
static bool allFixed(State& S, Expr* e) {
    for(u32 id : e->syms->v) if(id >= S.fixedSym.size() || !S.fixedSym[id]) return false;
    return true;
}
static u128 evalM(State& S, Expr* e) { return X.eval(e, *S.model); }

static void pushState(State* s) { work.push_back(s); st.forks++; }

// Use of uninitialised data: does the value of e depend on undef symbols?
static std::unordered_map<Expr*, Expr*> substMemo;
static Expr* substUndef(Expr* e) {
    if(!e->undef) return e;
    auto it = substMemo.find(e);
    if(it != substMemo.end()) return it->second;
    Expr* r;
    if(e->op == Op::Sym) r = X.sym(X.syms[e->lo].name + "'", e->w, true);
    else {
        Expr* k[3] = {0, 0, 0};
        for(int i = 0; i < 3; i++) if(e->k[i]) k[i] = substUndef(e->k[i]);
        r = X.mk(e->op, e->w, k[0], k[1], k[2], e->aux);
    }
    substMemo[e] = r;
    return r;
}
static void checkUndef(State& S, Expr* e, const char* what) {
    if(!e->undef) return;
    Expr* d = X.Not(X.eq(e, substUndef(e)));
    if(d->isC() && !d->lo) return;
    // constraints on undef symbols never exist (we stop first), so the primed copy is unconstrained as well
    std::shared_ptr<Model> m;
    int r = solve(S, d, &m);
    if(r == 1) fail(S, "uninit", std::string("use of uninitialised memory in ") + what, m.get());
}

// Decide a symbolic boolean in S; forks when both outcomes are possible. Returns the outcome for S.
static bool branchOn(State& S, Expr* c, const char* what = "branch") {
    if(c->isC()) return c->lo;
    if(allFixed(S, c)) return evalM(S, c) != 0;
    checkUndef(S, c, what);
    bool v = evalM(S, c) != 0;
    Expr* cv = v ? c : X.Not(c);
    Expr* co = v ? X.Not(c) : c;
    std::shared_ptr<Model> m;
    int r = solve(S, co, &m);
    if(r == 1) {
        State* o = cloneState(S);
        addCons(*o, co); o->model = m; o->id = 0;
        pushState(o); // re-executes the same instruction and takes the other side
        addCons(S, cv);
    } else if(r < 0) {
        st.dropped++;
        addCons(S, cv);
    }
    return v;
}
// Make an expression concrete, forking over the remaining values.
static u128 concretize(State& S, Expr* e, const char* what = "address") {
    if(e->isC()) return e->c();
    if(allFixed(S, e)) return evalM(S, e);
    checkUndef(S, e, what);
    u128 v = evalM(S, e);
    Expr* eqv = X.eq(e, X.C(v, e->w));
    std::shared_ptr<Model> m;
    Expr* ne = X.Not(eqv);
    int r = solve(S, ne, &m);
    if(r == 1) {
        State* o = cloneState(S);
        addCons(*o, ne); o->model = m;
        pushState(o);
        addCons(S, eqv);
        // replace in the top frame
        Frame& f = S.top();
        Val nv = e->w <= 64 ? mkv((u64)v) : Val{X.C(v, e->w), 0};
        for(auto& x : f.r) if(x.e == e) x = nv;
    } else if(r < 0) { st.dropped++; addCons(S, eqv); }
    return v;
}
static u64 concV(State& S, const Val& v, const char* what = "address") { return v.e ? (u64)concretize(S, v.e, what) : v.c; }

// ------------------------------------------------------------------ memory access
static ObjTable* tableOf(State& S, u64 a) {
    switch(a & REG_MASK) { case REG_G: return &S.G; case REG_H: return &S.H; case REG_S: return &S.S; default: return nullptr; }
}
static inline u32 slotOf(u64 a) { u32 i = (u32)((a & ~REG_MASK) >> SLOT); return (a & REG_MASK) == REG_S ? i & 0xffff : i; }
static Obj* findObj(State& S, u64 a, u64& off) {
    if(a >> 55) return nullptr;
    ObjTable* t = tableOf(S, a);
    if(!t) return nullptr;
    Obj* o = t->get(slotOf(a));
    if(!o) return nullptr;
    if((a & REG_MASK) == REG_S && o->gen != ((a >> 40) & 0xfff)) return nullptr; // the frame is gone
    off = (a & ((1ull << SLOT) - 1)) - PAD;
    return o;
}
static const char* kindName(ObjKind k) { static const char* n[] = {"global", "stack", "heap", "heap array", "malloc", "exception"}; return n[k]; }
static Obj* accessObj(State& S, u64 a, u64 n, u64& off, bool write) {
    Obj* o = findObj(S, a, off);
    const char* rw = write ? "write" : "read";
    if(!o) {
        if(a < 4096) fail(S, "null", std::string("null pointer ") + rw);
        fail(S, "oob", std::string("wild pointer ") + rw);
    }
    if(o->freed) fail(S, "uaf", std::string(rw) + " of freed " + kindName(o->kind) + " memory");
    if((s64)off < 0 || off > o->size || n > o->size - off) fail(S, "oob", std::string("out-of-bounds ") + rw + " of " + kindName(o->kind) + " object");
    if(write) {
        if(o->ro) fail(S, "rowrite", "write to constant memory");
        return tableOf(S, a)->wr(slotOf(a));
    }
    return o;
}
static Expr* undefByte(State& S) { return X.sym("undef" + std::to_string(S.undefCtr++), 8, true); }
static Expr* byteE(State& S, u64 a, Obj* o, u64 off) {
    if(o->s && o->s[off]) {
        if(o->s[off] == UNDEF) {
            Expr* u = undefByte(S);
            Obj* w = tableOf(S, a)->wr(slotOf(a));
            w->s[off] = u;
            return u;
        }
        return o->s[off];
    }
    return X.C(o->b[off], 8);
}
// read nbytes at concrete address
static Val readC(State& S, u64 a, unsigned nb) {
    u64 off; Obj* o = accessObj(S, a, nb, off, false);
    bool anySym = false;
    if(o->nsym) for(unsigned i = 0; i < nb; i++) if(o->s[off + i]) { anySym = true; break; }
    if(!anySym) {
        if(nb <= 8) { u64 v = 0; memcpy(&v, o->b + off, nb); return mkv(v); }
        u128 v = 0; memcpy(&v, o->b + off, nb > 16 ? 16 : nb);
        return Val{X.C(v, nb * 8), 0};
    }
    u32 rcBefore = o->rc; (void)rcBefore;
    Expr* r = byteE(S, a, o, off);
    for(unsigned i = 1; i < nb; i++) { o = tableOf(S, a)->get(slotOf(a)); r = X.concat(byteE(S, a, o, off + i), r); }
    return fromE(r);
}
static void writeC(State& S, u64 a, const Val& v, unsigned nb, unsigned w) {
    u64 off; Obj* o = accessObj(S, a, nb, off, true);
    if(isConc(v)) {
        u128 c = constOf(v);
        if(o->nsym) { for(unsigned i = 0; i < nb; i++) o->setConc(off + i, (u8)(c >> (8 * i))); }
        else memcpy(o->b + off, &c, nb);
        return;
    }
    Expr* e = X.zext(v.e, nb * 8);
    for(unsigned i = 0; i < nb; i++) {
        Expr* b = X.extract(e, 8 * i, 8);
        if(b->isC()) o->setConc(off + i, (u8)b->lo); else o->setSym(off + i, b);
    }
}
// symbolic read from a constant table without forking per index
static bool tryTableRead(State& S, Expr* addr, unsigned nb, Val& out) {
    u64 a0 = (u64)evalM(S, addr); u64 off;
    Obj* o = findObj(S, a0, off);
    if(!o || !o->ro || o->freed || o->nsym || o->size < nb || o->size > 65536) return false;
    u64 base = a0 - off;
    Expr* offE = X.mk(Op::Sub, 64, addr, X.C(base, 64));
    Expr* oob = X.mk(Op::Ult, 1, X.C(o->size - nb, 64), offE);
    checkUndef(S, addr, "address");
    if(branchOn(S, oob, "address")) { // out of bounds for this state
        u64 a = (u64)evalM(S, addr); u64 of2;
        accessObj(S, a, nb, of2, false); // reports
        return false;
    }
    // alignment: when the offset is a multiple of nb in every case, only those entries matter
    u64 step = 1;
    if(nb > 1 && base % nb == 0) {
        Expr* low = X.extract(offE, 0, nb == 2 ? 1 : nb == 4 ? 2 : nb == 8 ? 3 : 4);
        if(low->isC() && low->lo == 0) step = nb;
    }
    std::function<Expr*(u64, u64)> build = [&](u64 lo, u64 hi) -> Expr* { // entries lo..hi (in steps)
        if(lo == hi) { u128 v = 0; memcpy(&v, o->b + lo * step, nb); return X.C(v, nb * 8); }
        u64 mid = (lo + hi) / 2;
        // an arithmetic progression of step one
        if(nb <= 8 && hi - lo >= 2 && hi - lo < 256) {
            u64 m = m64(nb * 8), v0 = 0; memcpy(&v0, o->b + lo * step, nb);
            bool prog = true;
            for(u64 i = lo; i <= hi && prog; i++) { u64 v = 0; memcpy(&v, o->b + i * step, nb); prog = v == ((v0 + (i - lo)) & m); }
            if(prog) { Expr* ix = step == 1 ? offE : X.mk(Op::LShr, 64, offE, X.C(__builtin_ctzll(step), 64)); return X.mk(Op::Add, nb * 8, X.zext(ix, nb * 8), X.C((v0 - lo) & m, nb * 8)); }
        }
        Expr *l = build(lo, mid), *h = build(mid + 1, hi);
        if(l == h) return l;
        return X.ite(X.mk(Op::Ule, 1, offE, X.C(mid * step, 64)), l, h);
    };
    u64 top = (o->size - nb) / step, most = (u64)X.umax(offE);
    if(most / step < top) top = most / step;
    // split where progressions end, so that digits and letters stay in one piece each
    std::vector<std::pair<u64, Expr*>> seg;
    if(nb <= 8 && top < 256) {
        for(u64 lo = 0; lo <= top;) {
            auto at = [&](u64 i) { u64 v = 0; memcpy(&v, o->b + i * step, nb); return v; };
            u64 hi = lo;
            while(hi < top && at(hi + 1) == ((at(hi) + 1) & m64(nb * 8))) hi++;
            if(hi == lo) while(hi < top && at(hi + 1) == at(lo)) hi++;
            seg.push_back({hi, build(lo, hi)}); lo = hi + 1;
        }
    }
    if(!seg.empty() && seg.size() <= 8) {
        Expr* r = seg.back().second;
        for(size_t i = seg.size() - 1; i-- > 0;) r = X.ite(X.mk(Op::Ule, 1, offE, X.C(seg[i].first * step, 64)), seg[i].second, r);
        out = fromE(r);
    } else out = fromE(build(0, top));
    return true;
}
static Val loadMem(State& S, const Val& addr, unsigned nb) {
    if(!addr.e) return readC(S, addr.c, nb);
    if(!addr.e->isC()) {
        if(allFixed(S, addr.e)) return readC(S, (u64)evalM(S, addr.e), nb);
        Val v;
        if(tryTableRead(S, addr.e, nb, v)) return v;
    }
    return readC(S, (u64)concretize(S, addr.e), nb);
}
static u64 allocHeap(State& S, u64 n, ObjKind k) {
    if(n > (1ull << SLOT) - PAD - 4096) {
        return 0;
    }
    Obj* o = new Obj(n, k); o->fillUndef();
    u32 i = S.H.push(o);
    return mkAddr(REG_H, i);
}
static u64 allocStack(State& S, u64 n) {
    Obj* o = new Obj(n, OK_Stack); o->fillUndef();
    o->gen = S.genCtr++ & 0xfff;
    return mkAddr(REG_S, S.S.push(o) | (u32)o->gen << 16);
}
static void copyMem(State& S, u64 d, u64 s, u64 n) {
    if(!n) return;
    u64 so, dof;
    Obj* src = accessObj(S, s, n, so, false);
    // turn lazy undef bytes into named ones so that both copies agree
    if(src->nsym) for(u64 i = 0; i < n; i++) if(src->s[so + i] == UNDEF) {
        // leave as UNDEF in both: reading either gives an arbitrary value; good enough for error detection
    }
    std::vector<u8> tb(src->b + so, src->b + so + n);
    std::vector<Expr*> ts;
    if(src->nsym) ts.assign(src->s + so, src->s + so + n);
    Obj* dst = accessObj(S, d, n, dof, true);
    if(ts.empty() && !dst->nsym) { memcpy(dst->b + dof, tb.data(), n); return; }
    for(u64 i = 0; i < n; i++) { if(!ts.empty() && ts[i]) dst->setSym(dof + i, ts[i]); else dst->setConc(dof + i, tb[i]); }
}
static u8 concByte(State& S, u64 a, const char* what) { Val v = readC(S, a, 1); return (u8)concV(S, v, what); }
static std::string readCStr(State& S, u64 a) {
    std::string s;
    for(;;) { u8 c = concByte(S, a++, "string"); if(!c) return s; s += (char)c; if(s.size() > 4096) return s; }
}

// ------------------------------------------------------------------ decoding
static unsigned tw(Type* t) {
    if(auto* i = dyn_cast<IntegerType>(t)) return i->getBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isFloatTy()) return 32;
    if(t->isDoubleTy()) return 64;
    if(t->isX86_FP80Ty()) return 80;
    return 0;
}
static int tn(Type* t) {
    if(t->isVoidTy()) return 0;
    if(auto* s = dyn_cast<StructType>(t)) { int n = 0; for(auto* e : s->elements()) n += tn(e); return n; }
    if(auto* a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * tn(a->getElementType());
    if(auto* v = dyn_cast<FixedVectorType>(t)) return (int)v->getNumElements() * tn(v->getElementType());
    return 1;
}
static void flatParts(Type* t, u64 off, std::vector<MemPart>& out) {
    if(auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for(unsigned i = 0; i < s->getNumElements(); i++) flatParts(s->getElementType(i), off + l->getElementOffset(i), out); return; }
    if(auto* a = dyn_cast<ArrayType>(t)) { u64 z = DL->getTypeAllocSize(a->getElementType()); for(u64 i = 0; i < a->getNumElements(); i++) flatParts(a->getElementType(), off + i * z, out); return; }
    if(auto* v = dyn_cast<FixedVectorType>(t)) { u64 z = DL->getTypeStoreSize(v->getElementType()); for(u64 i = 0; i < v->getNumElements(); i++) flatParts(v->getElementType(), off + i * z, out); return; }
    out.push_back({off, (u16)tw(t), (u16)DL->getTypeStoreSize(t)});
}
static u64 constAddr(const GlobalValue* g);
static bool constScalar(const Constant* c, u128& v);
static bool constExpr(const ConstantExpr* ce, u128& v) {
    u128 a, b;
    switch(ce->getOpcode()) {
    case Instruction::GetElementPtr: {
        if(!constScalar(ce->getOperand(0), a)) return false;
        APInt off(64, 0);
        if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
        v = (u64)((u64)a + off.getZExtValue());
        return true; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc:
        if(!constScalar(ce->getOperand(0), a)) return false;
        v = a & maskw(tw(ce->getType()));
        return true;
    case Instruction::Sub: case Instruction::Add:
        if(!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
        v = (ce->getOpcode() == Instruction::Sub ? a - b : a + b) & maskw(tw(ce->getType()));
        return true;
    default: return false;
    }
}
static bool constScalar(const Constant* c, u128& v) {
    if(auto* i = dyn_cast<ConstantInt>(c)) { const APInt& x = i->getValue(); v = x.getRawData()[0]; if(x.getBitWidth() > 64) v |= (u128)x.getRawData()[1] << 64; return true; }
    if(auto* f = dyn_cast<ConstantFP>(c)) { APInt x = f->getValueAPF().bitcastToAPInt(); v = x.getRawData()[0]; if(x.getBitWidth() > 64) v |= (u128)x.getRawData()[1] << 64; return true; }
    if(isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) { v = 0; return true; }
    if(isa<UndefValue>(c)) { v = 0; return true; }
    if(auto* g = dyn_cast<GlobalValue>(c)) { v = constAddr(g); return true; }
    if(auto* ce = dyn_cast<ConstantExpr>(c)) return constExpr(ce, v);
    return false;
}
static void flatConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if(tn(t) == 1 && tw(t)) {
        u128 v;
        if(!constScalar(c, v)) { errs() << "bad const " << *c << "\n"; abort(); }
        unsigned w = tw(t);
        out.push_back(w <= 64 ? mkv((u64)v & m64(w)) : Val{X.C(v, w), 0});
        return;
    }
    unsigned n = 0;
    if(auto* s = dyn_cast<StructType>(t)) n = s->getNumElements();
    else if(auto* a = dyn_cast<ArrayType>(t)) n = a->getNumElements();
    else if(auto* v = dyn_cast<FixedVectorType>(t)) n = v->getNumElements();
    for(unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
}
static std::unordered_map<const Constant*, u32> poolMemo;

struct Decoder {
    FnInfo& fi; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbpc;
    std::vector<std::pair<Extra*, std::pair<const BasicBlock*, const BasicBlock*>>> fixups;
    Decoder(FnInfo& f) : fi(f) {}
    Opd opd(const Value* v) {
        if(auto* c = dyn_cast<Constant>(v)) {
            auto it = poolMemo.find(c);
            if(it != poolMemo.end()) return {true, it->second};
            std::vector<Val> t; flatConst(c, t);
            u32 i = pool.size();
            for(auto& x : t) pool.push_back(x);
            if(t.empty()) pool.push_back(mkv(0));
            poolMemo[c] = i;
            return {true, i};
        }
        if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return {true, 0};
        auto it = slot.find(v);
        if(it == slot.end()) { errs() << "no slot for " << *v << "\n"; abort(); }
        return {false, (u32)it->second};
    }
    Edge edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.pc = bbpc[to];
        for(auto& phi : to->phis()) {
            Opd o = opd(phi.getIncomingValueForBlock(from));
            e.ph.push_back({slot[&phi], o.k, (int)o.i, tn(phi.getType())});
        }
        return e;
    }
    void run() {
        Function* F = fi.F;
        int n = 0;
        for(auto& a : F->args()) { slot[&a] = n; fi.argSlot.push_back(n); int k = tn(a.getType()); fi.argN.push_back(k); n += k; }
        int pc = 0;
        for(auto& bb : *F) {
            bbpc[&bb] = pc;
            for(auto& I : bb) {
                if(!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1, tn(I.getType())); }
                if(isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                pc++;
            }
        }
        fi.nslots = n;
        fi.code.reserve(pc);
        for(auto& bb : *F) for(auto& I : bb) {
            if(isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            fi.code.push_back(dec(I));
        }
        fi.decoded = true;
    }
    Ins dec(Instruction& I) {
        Ins r; memset((void*)&r, 0, sizeof r);
        r.op = I.getOpcode(); r.I = &I; r.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; r.w = tw(I.getType());
        auto ex = [&]() { if(!r.x) r.x = new Extra; return r.x; };
        switch(I.getOpcode()) {
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            ex()->edges.push_back(edge(I.getParent(), b.getSuccessor(0)));
            r.sub = b.isConditional();
            if(b.isConditional()) { r.a = opd(b.getCondition()); ex()->edges.push_back(edge(I.getParent(), b.getSuccessor(1))); }
            break; }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            r.a = opd(s.getCondition()); r.w2 = tw(s.getCondition()->getType());
            std::map<const BasicBlock*, int> ei;
            auto eidx = [&](const BasicBlock* b) { auto it = ei.find(b); if(it != ei.end()) return it->second; int k = ex()->edges.size(); ex()->edges.push_back(edge(I.getParent(), b)); ei[b] = k; return k; };
            eidx(s.getDefaultDest());
            for(auto& c : s.cases()) { u128 v; constScalar(c.getCaseValue(), v); ex()->cases.push_back({v, eidx(c.getCaseSuccessor())}); }
            break; }
        case Instruction::Ret:
            ex();
            if(auto* v = cast<ReturnInst>(I).getReturnValue()) { r.a = opd(v); r.x->nret = tn(v->getType()); }
            break;
        case Instruction::Call: case Instruction::Invoke: {
            auto& c = cast<CallBase>(I);
            auto* x = ex();
            x->nret = tn(I.getType());
            if(c.isInlineAsm()) { x->name = "<asm>"; break; }
            x->callee = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
            if(auto* ga = dyn_cast<GlobalAlias>(c.getCalledOperand())) x->callee = dyn_cast<Function>(ga->getAliaseeObject());
            if(x->callee) { x->name = x->callee->getName().str(); x->intr = x->callee->getIntrinsicID(); }
            else r.a = opd(c.getCalledOperand());
            for(unsigned i = 0; i < c.arg_size(); i++) {
                Value* a = c.getArgOperand(i);
                if(isa<MetadataAsValue>(a)) { x->ops.push_back({true, 0}); x->n.push_back(1); x->argw.push_back(64); x->byval.push_back(0); continue; }
                x->ops.push_back(opd(a)); x->n.push_back(tn(a->getType())); x->argw.push_back(tw(a->getType()));
                x->byval.push_back(c.isByValArgument(i) ? DL->getTypeAllocSize(c.getParamByValType(i)) : 0);
            }
            if(auto* iv = dyn_cast<InvokeInst>(&I)) {
                x->edges.push_back(edge(I.getParent(), iv->getNormalDest()));
                x->edges.push_back(edge(I.getParent(), iv->getUnwindDest()));
            }
            break; }
        case Instruction::Load: case Instruction::Store: {
            Value* p = getLoadStorePointerOperand(&I); Type* t = getLoadStoreType(&I);
            r.a = opd(p);
            if(I.getOpcode() == Instruction::Store) r.b = opd(cast<StoreInst>(I).getValueOperand());
            r.w = tw(t); r.w2 = DL->getTypeStoreSize(t);
            if(tn(t) != 1 || !tw(t)) { r.sub = 1; flatParts(t, 0, ex()->parts); }
            break; }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            ex()->size = DL->getTypeAllocSize(a.getAllocatedType());
            r.a = opd(a.getArraySize());
            break; }
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I);
            r.a = opd(g.getPointerOperand());
            auto* x = ex();
            for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* op = it.getOperand();
                if(StructType* stt = it.getStructTypeOrNull()) { x->base += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
                u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                if(auto* ci = dyn_cast<ConstantInt>(op)) { x->base += (u64)ci->getSExtValue() * sz; continue; }
                x->ops.push_back(opd(op)); x->scale.push_back(sz); x->argw.push_back(tw(op->getType()));
            }
            break; }
        case Instruction::ICmp: case Instruction::FCmp:
            r.sub = cast<CmpInst>(I).getPredicate(); r.a = opd(I.getOperand(0)); r.b = opd(I.getOperand(1)); r.w2 = tw(I.getOperand(0)->getType());
            if(!r.w2) r.sub |= 0x8000;
            break;
        case Instruction::Select:
            r.a = opd(I.getOperand(0)); r.b = opd(I.getOperand(1)); r.c = opd(I.getOperand(2));
            ex()->nret = tn(I.getType()); r.sub = I.getType()->isPointerTy();
            if(I.getOperand(0)->getType()->isVectorTy()) r.sub |= 0x8000;
            break;
        case Instruction::ExtractValue: {
            auto& ev = cast<ExtractValueInst>(I);
            r.a = opd(ev.getAggregateOperand());
            Type* t = ev.getAggregateOperand()->getType(); int off = 0;
            for(unsigned i : ev.indices()) { off += skip(t, i); t = sub(t, i); }
            r.a.i += off; ex()->nret = tn(I.getType());
            break; }
        case Instruction::InsertValue: {
            auto& iv = cast<InsertValueInst>(I);
            r.a = opd(iv.getAggregateOperand()); r.b = opd(iv.getInsertedValueOperand());
            Type* t = I.getType(); int off = 0;
            for(unsigned i : iv.indices()) { off += skip(t, i); t = sub(t, i); }
            ex()->nret = tn(I.getType()); r.x->base = off; r.x->size = tn(t);
            break; }
        case Instruction::LandingPad: {
            auto& lp = cast<LandingPadInst>(I);
            auto* x = ex();
            for(unsigned i = 0; i < lp.getNumClauses(); i++) {
                if(lp.isCatch(i)) { x->ops.push_back(opd(lp.getClause(i))); x->n.push_back(0); }
                else { x->ops.push_back({true, 0}); x->n.push_back(1); }
            }
            r.sub = lp.isCleanup();
            break; }
        case Instruction::Freeze:
            r.a = opd(I.getOperand(0)); ex()->nret = tn(I.getType()); break;
        case Instruction::Unreachable: break;
        case Instruction::AtomicRMW: {
            auto& a = cast<AtomicRMWInst>(I);
            r.a = opd(a.getPointerOperand()); r.b = opd(a.getValOperand()); r.sub = a.getOperation(); r.w2 = DL->getTypeStoreSize(I.getType()); break; }
        case Instruction::AtomicCmpXchg: {
            auto& a = cast<AtomicCmpXchgInst>(I);
            r.a = opd(a.getPointerOperand()); r.b = opd(a.getCompareOperand()); r.c = opd(a.getNewValOperand());
            r.w = tw(a.getCompareOperand()->getType()); r.w2 = DL->getTypeStoreSize(a.getCompareOperand()->getType()); break; }
        case Instruction::Fence: break;
        default:
            for(unsigned i = 0; i < I.getNumOperands() && i < 3; i++) { Opd o = opd(I.getOperand(i)); (i == 0 ? r.a : i == 1 ? r.b : r.c) = o; }
            if(I.getNumOperands()) r.w2 = tw(I.getOperand(0)->getType());
            if(I.getType()->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy())) r.sub = 0x8000;
            break;
        }
        return r;
    }
    static Type* sub(Type* t, unsigned i) { if(auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); return cast<ArrayType>(t)->getElementType(); }
    static int skip(Type* t, unsigned i) { if(auto* s = dyn_cast<StructType>(t)) { int n = 0; for(unsigned j = 0; j < i; j++) n += tn(s->getElementType(j)); return n; } return (int)i * tn(cast<ArrayType>(t)->getElementType()); }
};
static FnInfo* getFn(Function* F) {
    auto& p = fns[F];
    if(!p) { p = new FnInfo; p->F = F; p->name = F->getName().str(); }
    if(!p->decoded) { Decoder d(*p); d.run(); }
    return p;
}

// ------------------------------------------------------------------ globals
static Module* M;
static u32 nextFn = 1;
static State* initState;
static std::unordered_map<std::string, u64> extGlobals;
static u64 constAddr(const GlobalValue* g) {
    if(auto* a = dyn_cast<GlobalAlias>(g)) { u128 v; constScalar(a->getAliasee(), v); return (u64)v; }
    auto it = gaddr.find(g);
    if(it != gaddr.end()) return it->second;
    if(auto* f = dyn_cast<Function>(g)) {
        u64 a = mkAddr(REG_F, nextFn++);
        gaddr[g] = a; fnByAddr[a] = const_cast<Function*>(f);
        return a;
    }
    errs() << "global not allocated: " << g->getName() << "\n"; abort();
}
static void initObj(Obj* o, const Constant* c, u64 off) {
    Type* t = c->getType();
    if(isa<UndefValue>(c)) { return; }
    if(isa<ConstantAggregateZero>(c)) return;
    if(auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(o->b + off, r.data(), r.size()); return; }
    if(tn(t) == 1 && tw(t)) { u128 v; if(!constScalar(c, v)) { errs() << "bad init " << *c << "\n"; abort(); } memcpy(o->b + off, &v, DL->getTypeStoreSize(t)); return; }
    if(auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for(unsigned i = 0; i < s->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + l->getElementOffset(i)); return; }
    if(auto* a = dyn_cast<ArrayType>(t)) { u64 z = DL->getTypeAllocSize(a->getElementType()); for(u64 i = 0; i < a->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + i * z); return; }
    if(auto* v = dyn_cast<FixedVectorType>(t)) { u64 z = DL->getTypeStoreSize(v->getElementType()); for(u64 i = 0; i < v->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + i * z); return; }
}
static void allocGlobals(State& S) {
    for(auto& g : M->globals()) {
        u64 n = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
        if(!g.hasInitializer() && n < 64) n = 64;
        Obj* o = new Obj(n, OK_Global);
        u64 a = mkAddr(REG_G, S.G.push(o));
        gaddr[&g] = a; gvByAddr[a] = &g;
    }
    for(auto& g : M->globals()) {
        u64 off; Obj* o = findObj(S, gaddr[&g], off);
        if(g.hasInitializer()) { initObj(o, g.getInitializer(), 0); o->ro = g.isConstant(); }
    }
}

#include "interp.h"

// ------------------------------------------------------------------ driver
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if(c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static std::string result(bool complete) {
    std::string o = "{";
    auto num = [&](const char* k, double v) { char b[96]; snprintf(b, 96, "\"%s\":%.17g,", k, v); o += b; };
    num("paths", st.paths); num("completed", st.completed); num("assumed_away", st.assumed); num("errored", st.errored); num("forks", st.forks); num("insns", st.insns);
    num("queries", st.queries); num("cache_hits", st.cacheHits); num("sat", st.sat); num("unsat", st.unsat); num("unknown", st.unknown); num("dropped", st.dropped);
    num("solver_s", st.solverTime); num("max_query_s", st.maxQuery); num("asserts", st.asserts); num("assert_queries", st.assertQueries); num("wall_s", now() - tStart);
    o += std::string("\"complete\":") + (complete ? "true" : "false") + ",\"timed_out\":" + (timedOut ? "true" : "false") + ",";
    o += "\"reach\":{"; bool f = true;
    for(auto& r : reachCount) { if(!f) o += ","; f = false; o += jstr(r.first) + ":" + std::to_string(r.second); }
    o += "},\"unsupported\":["; f = true;
    for(auto& u : unsupportedSeen) { if(!f) o += ","; f = false; o += jstr(u); }
    o += "],\"functions\":{"; f = true;
    for(auto& p : fns) if(p.second->hits) { if(!f) o += ","; f = false; o += jstr(p.second->name) + ":" + std::to_string(p.second->hits); }
    auto inputs = [&](const std::vector<std::pair<std::string, std::vector<u8>>>& in) {
        bool g = true; o += "[";
        for(auto& i : in) { if(!g) o += ","; g = false; o += "[" + jstr(i.first) + ",\""; char b[4]; for(u8 x : i.second) { snprintf(b, 4, "%02x", x); o += b; } o += "\"]"; }
        o += "]";
    };
    o += "},\"samples\":["; f = true;
    for(auto& e : samples) { if(!f) o += ","; f = false; inputs(e); }
    o += "],\"errors\":["; f = true;
    for(auto& e : errors) {
        if(!f) o += ","; f = false;
        o += "{\"kind\":" + jstr(e.kind) + ",\"msg\":" + jstr(e.msg) + ",\"where\":" + jstr(e.where) + ",\"stack\":" + jstr(e.stack) + ",\"count\":" + std::to_string(e.count) + ",\"input\":";
        inputs(e.input);
        o += "}";
    }
    o += "]}";
    return o;
}
static u64 rssMB() {
    FILE* f = fopen("/proc/self/statm", "r"); if(!f) return 0;
    u64 a = 0, b = 0; if(fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f);
    return b * 4096 >> 20;
}
static void runPath(State* s) {
    try { execute(*s); }
    catch(PathEnd&) {}
    delete s;
    st.paths++;
}
static bool over() {
    if(now() - tStart > opt.maxTime) { timedOut = true; return true; }
    static u64 cnt = 0;
    if((++cnt & 255) == 0 && rssMB() > opt.memMB) { timedOut = true; unsupportedSeen.insert("memory limit"); return true; }
    return (int)errors.size() >= opt.maxErrors;
}
static void explore() {
    while(!work.empty() && !over()) {
        State* s = work.back(); work.pop_back();
        runPath(s);
    }
}
static int realMain(int argc, char** argv) {
    std::vector<std::string> files;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if(a == "--entry") opt.entry = nx();
        else if(a == "--out") opt.out = nx();
        else if(a == "--param") opt.params.push_back(strtoull(nx().c_str(), 0, 0));
        else if(a == "--jobs") opt.jobs = atoi(nx().c_str());
        else if(a == "--max-time") opt.maxTime = atof(nx().c_str());
        else if(a == "--max-insn") opt.maxInsn = strtoull(nx().c_str(), 0, 0);
        else if(a == "--query-timeout") opt.queryTimeoutMs = atoi(nx().c_str());
        else if(a == "--max-errors") opt.maxErrors = atoi(nx().c_str());
        else if(a == "--mem") opt.memMB = atoi(nx().c_str());
        else if(a == "-v") opt.verbose = true;
        else files.push_back(a);
    }
    tStart = now();
    static LLVMContext ctx; SMDiagnostic err;
    std::unique_ptr<Module> mod;
    for(auto& f : files) {
        auto m = parseIRFile(f, err, ctx);
        if(!m) { err.print("symex", errs()); return 3; }
        if(!mod) mod = std::move(m);
        else if(Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "link failed for %s\n", f.c_str()); return 3; }
    }
    M = mod.get(); DL = &M->getDataLayout();
    X.zinit();
    pool.push_back(mkv(0));
    initHandlers();
    State* s = new State;
    allocGlobals(*s);
    initState = s;
    Function* F = M->getFunction(opt.entry);
    if(!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
    // global constructors, then the harness, as one synthetic call sequence
    std::vector<std::pair<int, Function*>> ctors;
    if(auto* gc = M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for(auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if(auto* fn = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    try {
        for(auto& c : ctors) { enterFn(*s, getFn(c.second), {}, nullptr, -1, 0); runUntilDepth(*s, 0); }
    } catch(PathEnd&) { fprintf(stderr, "global constructor failed\n"); fprintf(stderr, "%s\n", result(false).c_str()); return 3; }
    s->insns = 0;
    s->live = 0;
    enterFn(*s, getFn(F), {}, nullptr, -1, 0);
    work.push_back(s);
    bool complete = true;
    if(opt.jobs <= 1) {
        explore();
        complete = work.empty() && !timedOut;
    } else {
        // breadth-first seeding, then worker processes claim pending states
        double t0 = now();
        while(!work.empty() && work.size() < (size_t)opt.jobs * 24 && !over() && now() - t0 < 20) {
            State* q = work.front(); work.pop_front();
            runPath(q);
        }
        if(!work.empty() && !over()) {
            auto* next = (std::atomic<u64>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            new(next) std::atomic<u64>(0);
            auto* stop = new((char*)next + 64) std::atomic<u64>(0);
            std::vector<State*> all(work.begin(), work.end());
            work.clear();
            std::vector<pid_t> pids;
            fflush(stdout); fflush(stderr);
            for(int j = 0; j < opt.jobs; j++) {
                pid_t p = fork();
                if(p == 0) {
                    Stats z; st = z; reachCount.clear(); samples.clear(); errors.clear(); errKey.clear(); for(auto& f : fns) f.second->hits = 0;
                    unsupportedSeen.clear();
                    bool comp = true;
                    for(;;) {
                        u64 i = next->fetch_add(1);
                        if(i >= all.size()) break;
                        if(stop->load()) { comp = false; break; }
                        work.push_back(all[i]);
                        while(!work.empty() && !over() && !stop->load()) { State* q = work.back(); work.pop_back(); runPath(q); }
                        if(!work.empty()) { comp = false; break; }
                    }
                    if(timedOut) comp = false;
                    if((int)errors.size() >= opt.maxErrors) stop->store(1);
                    FILE* f = fopen((opt.out + "." + std::to_string(j)).c_str(), "w");
                    std::string r = result(comp);
                    fwrite(r.data(), 1, r.size(), f); fclose(f);
                    _exit(0);
                }
                pids.push_back(p);
            }
            bool bad = false;
            for(auto p : pids) { int w; waitpid(p, &w, 0); if(!WIFEXITED(w) || WEXITSTATUS(w)) { bad = true; } }
            if(bad) { complete = false; unsupportedSeen.insert("worker process died"); }
        } else complete = work.empty() && !timedOut;
    }
    FILE* f = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    std::string r = result(complete);
    fwrite(r.data(), 1, r.size(), f); fputc('\n', f);
    if(f != stdout) fclose(f);
    fflush(stdout);
    _exit(0);
}
int main(int argc, char** argv) {
    // deep expression recursion: run on a large stack
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2048ull << 20);
    struct A { int c; char** v; int r; } x{argc, argv, 0};
    pthread_t t;
    pthread_create(&t, &a, [](void* p) -> void* { A* x = (A*)p; x->r = realMain(x->c, x->v); return nullptr; }, &x);
    pthread_join(t, nullptr);
    return x.r;
}
