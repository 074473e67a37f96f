// Instruction semantics, calls, exceptions and the models of external functions.
#pragma once

typedef std::vector<Val> Args;
enum HRes { H_DONE, H_JUMPED };
typedef HRes (*HFn)(State&, Ins&, Args& a, Args& ret);
static std::unordered_map<std::string, HFn> handlers;

static inline const Val& rd(State& S, const Opd& o, unsigned k = 0) { return o.k ? pool[o.i + k] : S.fr.back()->r[o.i + k]; }
static inline Val trunc(const Val& v, unsigned w) { if(!v.e) return mkv(v.c & m64(w)); return v.e->w == w ? v : fromE(X.extract(v.e, 0, w)); }

static void setReg(State& S, int dst, const Val& v) { S.top().r[dst] = v; }
static void jump(State& S, const Edge& e) {
    Frame& f = S.top();
    if(!e.ph.empty()) {
        static std::vector<Val> tmp; tmp.clear();
        for(auto& p : e.ph) for(int i = 0; i < std::max(1, p[3]); i++) tmp.push_back(p[1] ? pool[p[2] + i] : f.r[p[2] + i]);
        size_t k = 0;
        for(auto& p : e.ph) for(int i = 0; i < std::max(1, p[3]); i++) f.r[p[0] + i] = tmp[k++];
    }
    f.pc = e.pc;
}

// ------------------------------------------------------------------ arithmetic
static Val bin(Op op, unsigned w, const Val& a, const Val& b) {
    if(!a.e && !b.e && w <= 64) {
        u64 m = m64(w), x = a.c, y = b.c;
        switch(op) {
        case Op::Add: return mkv((x + y) & m); case Op::Sub: return mkv((x - y) & m); case Op::Mul: return mkv((x * y) & m);
        case Op::And: return mkv(x & y); case Op::Or: return mkv(x | y); case Op::Xor: return mkv(x ^ y);
        default: return mkv((u64)ExprCtx::evalOp(op, w, 0, nullptr, x, y, 0, w, w));
        }
    }
    return fromE(X.mk(op, w, toE(a, w), toE(b, w)));
}
static Expr* notE(Expr* e) { return X.Not(e); }
static Expr* icmpE(unsigned pred, Expr* a, Expr* b) {
    switch(pred) {
    case CmpInst::ICMP_EQ: return X.eq(a, b);
    case CmpInst::ICMP_NE: return notE(X.eq(a, b));
    case CmpInst::ICMP_UGT: return X.mk(Op::Ult, 1, b, a);
    case CmpInst::ICMP_UGE: return X.mk(Op::Ule, 1, b, a);
    case CmpInst::ICMP_ULT: return X.mk(Op::Ult, 1, a, b);
    case CmpInst::ICMP_ULE: return X.mk(Op::Ule, 1, a, b);
    case CmpInst::ICMP_SGT: return X.mk(Op::Slt, 1, b, a);
    case CmpInst::ICMP_SGE: return X.mk(Op::Sle, 1, b, a);
    case CmpInst::ICMP_SLT: return X.mk(Op::Slt, 1, a, b);
    case CmpInst::ICMP_SLE: return X.mk(Op::Sle, 1, a, b);
    }
    abort();
}
static bool icmpC(unsigned pred, u64 a, u64 b, unsigned w) {
    s64 x = (s64)sextw(a, w), y = (s64)sextw(b, w);
    switch(pred) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y; case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y;
    }
    abort();
}
static Expr* fcmpE(unsigned p, Expr* a, Expr* b) {
    auto lt = [&](Expr* x, Expr* y) { return X.mk(Op::FLt, 1, x, y); };
    auto le = [&](Expr* x, Expr* y) { return X.mk(Op::FLe, 1, x, y); };
    auto eq = [&](Expr* x, Expr* y) { return X.mk(Op::FEq, 1, x, y); };
    auto nan = [&](Expr* x) { return X.mk(Op::FNan, 1, x); };
    switch(p) {
    case CmpInst::FCMP_FALSE: return X.C(0, 1);
    case CmpInst::FCMP_TRUE: return X.C(1, 1);
    case CmpInst::FCMP_OEQ: return eq(a, b);
    case CmpInst::FCMP_OGT: return lt(b, a);
    case CmpInst::FCMP_OGE: return le(b, a);
    case CmpInst::FCMP_OLT: return lt(a, b);
    case CmpInst::FCMP_OLE: return le(a, b);
    case CmpInst::FCMP_ONE: return X.Or1(lt(a, b), lt(b, a));
    case CmpInst::FCMP_ORD: return notE(X.Or1(nan(a), nan(b)));
    case CmpInst::FCMP_UNO: return X.Or1(nan(a), nan(b));
    case CmpInst::FCMP_UEQ: return notE(X.Or1(lt(a, b), lt(b, a)));
    case CmpInst::FCMP_UGT: return notE(le(a, b));
    case CmpInst::FCMP_UGE: return notE(lt(a, b));
    case CmpInst::FCMP_ULT: return notE(le(b, a));
    case CmpInst::FCMP_ULE: return notE(lt(b, a));
    case CmpInst::FCMP_UNE: return notE(eq(a, b));
    }
    abort();
}

// ------------------------------------------------------------------ frames and calls
static void popFrame(State& S) {
    Frame* f = S.fr.back();
    u32 base = f->stackBase; u64 fe = f->freeOnRet;
    while(S.S.n > base) S.S.pop();
    if(fe) { u64 off; if(findObj(S, fe, off)) S.H.wr(slotOf(fe))->freed = true; }
    S.fr.pop_back();
    if(--f->rc == 0) delete f;
}
static void enterFn(State& S, FnInfo* fi, const Args& args, Ins* cs, int retDst, int retN, const std::vector<u64>* byval) {
    if(S.fr.size() > 1500) fail(S, "stack", "call depth limit (unbounded recursion)");
    Frame* f = new Frame;
    f->f = fi; f->r.resize(fi->nslots ? fi->nslots : 1); f->stackBase = S.S.n; f->retDst = retDst; f->retN = retN; f->callSite = cs;
    fi->hits++;
    size_t k = 0;
    std::vector<std::pair<u64, u64>> copies;
    for(size_t i = 0; i < fi->argSlot.size(); i++) for(int j = 0; j < fi->argN[i]; j++, k++) {
        if(k >= args.size()) break;
        Val v = args[k];
        if(byval && i < byval->size() && (*byval)[i]) {
            u64 n = (*byval)[i]; u64 src = concV(S, v);
            u64 d = allocStack(S, n);
            copyMem(S, d, src, n);
            v = mkv(d);
        }
        f->r[fi->argSlot[i] + j] = v;
    }
    S.fr.push_back(f);
}
static void enterFn(State& S, FnInfo* fi, const Args& args, Ins* cs, int retDst, int retN) { enterFn(S, fi, args, cs, retDst, retN, nullptr); }
// finish the call instruction on top of the stack
static void finishCall(State& S, Ins& in) {
    if(in.op == Instruction::Invoke) jump(S, in.x->edges[0]);
    else S.top().pc++;
}

// ------------------------------------------------------------------ exceptions
static u64 typeidOf(u64 a) { return a ? (((a & ~REG_MASK) >> SLOT) + 2) & 0x7fffffff : 1; }
static GlobalVariable* tiGV(u64 a) { auto it = gvByAddr.find(a); return it == gvByAddr.end() ? nullptr : it->second; }
static u64 cAddr(const Constant* c) { u128 v = 0; constScalar(c, v); return (u64)v; }
static std::string vtName(const Constant* c) {
    const Value* v = c->stripInBoundsConstantOffsets();
    return v->getName().str();
}
static std::string tiName(u64 a) { auto* g = tiGV(a); std::string n = g ? g->getName().str() : "?"; return n.compare(0, 4, "_ZTI") == 0 ? demang("_Z" + n.substr(4)) == "_Z" + n.substr(4) ? demang(n) : demang(n) : n; }
// does thrown type t match handler type h? adj receives the base offset
static bool tiMatch(u64 t, u64 h, u64& adj, int depth = 0) {
    if(t == h) return true;
    auto *gt = tiGV(t), *gh = tiGV(h);
    if(!gt || !gh) return false;
    if(gt->getName() == gh->getName() && !gt->getName().empty()) return true;
    if(!gt->hasInitializer() || depth > 20) return false;
    auto* cs = dyn_cast<ConstantStruct>(gt->getInitializer());
    if(!cs) return false;
    std::string k = vtName(cs->getOperand(0));
    if(k.find("__si_class_type_info") != std::string::npos) return tiMatch(cAddr(cs->getOperand(2)), h, adj, depth + 1);
    if(k.find("__vmi_class_type_info") != std::string::npos) {
        u64 n = cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
        for(u64 i = 0; i < n; i++) {
            u64 b = cAddr(cs->getOperand(4 + 2 * i)); s64 fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue();
            if((fl & 1) || !(fl & 2)) continue;
            u64 a2 = adj + (u64)(fl >> 8);
            if(tiMatch(b, h, a2, depth + 1)) { adj = a2; return true; }
        }
    }
    return false;
}
static ExcRec* excOf(State& S, u64 obj) { for(auto& e : S.excs) if(e.obj == obj) return &e; return nullptr; }
// selector for a landing pad: -1 does not stop here, 0 cleanup, >0 handler
static s64 padAction(State& S, Ins& lp, u64 tinfo, u64& adj) {
    for(size_t i = 0; i < lp.x->ops.size(); i++) {
        if(lp.x->n[i] == 1) return (s64)0x7ffffffe; // empty filter: unexpected
        u64 h = pool[lp.x->ops[i].i].c;
        adj = 0;
        if(!h) return (s64)typeidOf(0);
        if(tiMatch(tinfo, h, adj)) return (s64)typeidOf(h);
    }
    return lp.sub ? 0 : -1;
}
// unwind starting at the current instruction of the top frame
static void unwind(State& S, u64 obj) {
    ExcRec* e = excOf(S, obj);
    if(!e) unsupported(S, "unwinding an unknown exception");
    bool handled = false;
    for(int i = (int)S.fr.size() - 1; i >= 0 && !handled; i--) {
        Ins& in = S.fr[i]->f->code[S.fr[i]->pc];
        if(in.op != Instruction::Invoke) continue;
        Ins& lp = S.fr[i]->f->code[in.x->edges[1].pc];
        u64 adj;
        if(padAction(S, lp, e->tinfo, adj) > 0) handled = true;
    }
    if(!handled) fail(S, "uncaught", "exception of type " + tiName(e->tinfo) + " is not caught");
    for(;;) {
        Frame& f = *S.fr.back();
        Ins& in = f.f->code[f.pc];
        if(in.op == Instruction::Invoke) {
            Ins& lp = f.f->code[in.x->edges[1].pc];
            u64 adj = 0;
            s64 a = padAction(S, lp, e->tinfo, adj);
            if(a >= 0) {
                if(a > 0) e->adj = adj;
                jump(S, in.x->edges[1]);
                Frame& g = S.top();
                g.r[lp.dst] = mkv(obj); g.r[lp.dst + 1] = mkv((u64)a);
                g.pc++; // past the landingpad
                return;
            }
        }
        popFrame(S);
        if(S.fr.empty()) { st.completed++; throw PathEnd{}; }
    }
}

// ------------------------------------------------------------------ memory models
static Expr* byteAt(State& S, u64 a) { Val v = readC(S, a, 1); return toE(v, 8); }
static void memsetM(State& S, u64 d, const Val& v, u64 n) {
    if(!n) return;
    u64 off; Obj* o = accessObj(S, d, n, off, true);
    if(!v.e) { if(!o->nsym) memset(o->b + off, (int)v.c, n); else for(u64 i = 0; i < n; i++) o->setConc(off + i, (u8)v.c); return; }
    Expr* e = X.extract(v.e, 0, 8);
    for(u64 i = 0; i < n; i++) o->setSym(off + i, e);
}
static u64 chkLen(State& S, const Val& v) {
    u64 n = concV(S, v, "length");
    if(n >> 40) fail(S, "oob", "memory operation with a huge length");
    return n;
}
static void freeObj(State& S, u64 p, const char* fn, std::initializer_list<ObjKind> ok, s64 size) {
    if(!p) return;
    u64 off; Obj* o = findObj(S, p, off);
    if(!o || off) fail(S, "badfree", std::string(fn) + " of a pointer that was not allocated");
    if(o->freed) fail(S, "doublefree", std::string(fn) + " of already freed memory");
    bool k = false; for(auto x : ok) k |= x == o->kind;
    if(!k) fail(S, "badfree", std::string(fn) + " of " + kindName(o->kind) + " memory");
    if(size >= 0 && o->kind != OK_NewArr && (u64)size != o->size) fail(S, "badfree", "sized delete with the wrong size");
    Obj* w = tableOf(S, p)->wr(slotOf(p)); w->freed = true;
    S.live--;
}

// ------------------------------------------------------------------ external functions
#define H(name) handlers[name] = [](State& S, Ins& in, Args& a, Args& ret) -> HRes
#define UNUSED (void)S; (void)in; (void)a; (void)ret

static HRes hNew(State& S, const Val& n, ObjKind k, Args& ret, bool nothrow = false) {
    u64 sz = concV(S, n, "allocation size");
    u64 p = allocHeap(S, sz, k);
    if(!p) {
        if(nothrow) { ret = {mkv(0)}; return H_DONE; }
        // reported through std::bad_alloc by the shim
        Function* f = M->getFunction("vp_rt_throw_bad_alloc");
        if(!f) unsupported(S, "allocation too large");
        enterFn(S, getFn(f), {}, nullptr, -1, 0);
        return H_JUMPED;
    }
    S.live++;
    ret = {mkv(p)};
    return H_DONE;
}
static HRes hThrow(State& S, u64 obj) { unwind(S, obj); return H_JUMPED; }
static Val cmpBytes(State& S, u64 p, u64 q, u64 n, unsigned unit, bool sg) {
    // lexicographic three-way comparison as an expression (int result, sign only)
    std::vector<std::pair<Expr*, Expr*>> v;
    for(u64 i = 0; i < n; i++) {
        Expr *x = toE(readC(S, p + i * unit, unit), 8 * unit), *y = toE(readC(S, q + i * unit, unit), 8 * unit);
        v.push_back({x, y});
        if(x->isC() && y->isC() && x != y) break;
    }
    Expr* r = X.C(0, 32);
    for(size_t i = v.size(); i-- > 0;) {
        Expr* lt = X.mk(sg ? Op::Slt : Op::Ult, 1, v[i].first, v[i].second);
        r = X.ite(X.eq(v[i].first, v[i].second), r, X.ite(lt, X.C((u128)-1, 32), X.C(1, 32)));
    }
    return fromE(r);
}
static u64 scanUnit(State& S, u64 p, u64 n, unsigned unit, Expr* c, bool& found) {
    for(u64 i = 0; i < n; i++) {
        Expr* x = toE(readC(S, p + i * unit, unit), 8 * unit);
        if(branchOn(S, X.eq(x, c), "scan")) { found = true; return i; }
    }
    found = false;
    return n;
}
static std::vector<u8> concBytes(State& S, u64 a, u64 n) { std::vector<u8> v; for(u64 i = 0; i < n; i++) v.push_back(concByte(S, a + i, "bytes")); return v; }
static void putBytes(State& S, u64 a, const void* p, u64 n) { for(u64 i = 0; i < n; i++) writeC(S, a + i, mkv(((const u8*)p)[i]), 1, 8); }
template<class T> static T asFloat(State& S, const Val& v) {
    u128 c = v.e ? concretize(S, v.e, "floating-point value") : v.c;
    T t; memset((void*)&t, 0, sizeof t); memcpy((void*)&t, &c, sizeof(T) == 16 ? 10 : sizeof(T)); return t;
}
template<class T, int Mode> static HRes hToChars(State& S, Ins&, Args& a, Args& ret) {
    u64 first = concV(S, a[0]), last = concV(S, a[1]);
    T v = asFloat<T>(S, a[2]);
    std::vector<char> buf(last - first > 20000 ? 20000 : last - first);
    std::to_chars_result r;
    if(Mode == 0) r = std::to_chars(buf.data(), buf.data() + buf.size(), v);
    else if(Mode == 1) r = std::to_chars(buf.data(), buf.data() + buf.size(), v, (std::chars_format)concV(S, a[3]));
    else r = std::to_chars(buf.data(), buf.data() + buf.size(), v, (std::chars_format)concV(S, a[3]), (int)concV(S, a[4]));
    if(r.ec == std::errc()) putBytes(S, first, buf.data(), r.ptr - buf.data());
    ret = {mkv(r.ec == std::errc() ? first + (r.ptr - buf.data()) : last), mkv((u32)r.ec)};
    return H_DONE;
}
template<class T> static HRes hFromChars(State& S, Ins&, Args& a, Args& ret) {
    u64 first = concV(S, a[0]), last = concV(S, a[1]), out = concV(S, a[2]); auto fmt = (std::chars_format)concV(S, a[3]);
    std::vector<u8> b = concBytes(S, first, last - first);
    T v{};
    auto r = std::from_chars((const char*)b.data(), (const char*)b.data() + b.size(), v, fmt);
    if(r.ec == std::errc()) { u8 t[16] = {0}; memcpy(t, (void*)&v, sizeof(T) == 16 ? 10 : sizeof(T)); putBytes(S, out, t, sizeof(T) == 16 ? 10 : sizeof(T)); }
    ret = {mkv(first + (r.ptr - (const char*)b.data())), mkv((u32)r.ec)};
    return H_DONE;
}
static Expr* cond1(const Val& v) { return v.e ? (v.e->w == 1 ? v.e : X.extract(v.e, 0, 1)) : X.C(v.c & 1, 1); }

static void initHandlers() {
    // ---- harness API
    H("vp_symbolic") { UNUSED;
        u64 p = concV(S, a[0]), n = concV(S, a[1]); std::string nm = readCStr(S, concV(S, a[2]));
        u64 off; Obj* o = accessObj(S, p, n, off, true);
        SymRec r; r.name = nm; u32 k = S.symCtr++;
        for(u64 i = 0; i < n; i++) { Expr* e = X.sym(std::to_string(k) + ":" + nm + "[" + std::to_string(i) + "]", 8); o->setSym(off + i, e); r.bytes.push_back(e); }
        S.syms.push_back(r);
        return H_DONE; };
    H("vp_symbolic_num") { UNUSED; // the same, as one number
        u64 p = concV(S, a[0]), n = concV(S, a[1]); std::string nm = readCStr(S, concV(S, a[2]));
        u64 off; Obj* o = accessObj(S, p, n, off, true);
        SymRec r; r.name = nm; u32 k = S.symCtr++;
        Expr* v = X.sym(std::to_string(k) + ":" + nm, (unsigned)n * 8);
        for(u64 i = 0; i < n; i++) { Expr* e = X.extract(v, (unsigned)i * 8, 8); o->setSym(off + i, e); r.bytes.push_back(e); }
        S.syms.push_back(r);
        return H_DONE; };
    H("vp_assume") { UNUSED;
        Expr* c = cond1(a[0]);
        checkUndef(S, c, "assumption");
        std::shared_ptr<Model> m;
        int r;
        if(!c->isC() && evalM(S, c)) { r = 1; m = S.model; } else r = solve(S, c, &m);
        if(r == 0) { st.assumed++; throw PathEnd{}; }
        if(r < 0) { st.dropped++; throw PathEnd{}; }
        addCons(S, c); S.model = m;
        return H_DONE; };
    H("vp_assert") { UNUSED;
        Expr* c = cond1(a[0]);
        std::string msg = readCStr(S, concV(S, a[1]));
        st.asserts++;
        checkUndef(S, c, "assertion");
        if(c->isC()) { if(!c->lo) fail(S, "assert", msg); return H_DONE; }
        st.assertQueries++;
        Expr* nc = X.Not(c); std::shared_ptr<Model> m;
        int r;
        if(evalM(S, nc)) { r = 1; m = S.model; } else r = solve(S, nc, &m);
        if(r == 1) {
            recordError(S, "assert", msg, *m);
            std::shared_ptr<Model> m2;
            if(solve(S, c, &m2) != 1) throw PathEnd{};
            addCons(S, c); S.model = m2;
        } else if(r < 0) { st.dropped++; }
        return H_DONE; };
    H("vp_reach") { UNUSED; reachCount[readCStr(S, concV(S, a[0]))]++; return H_DONE; };
    H("vp_param") { UNUSED; u64 i = concV(S, a[0]); ret = {mkv(i < opt.params.size() ? opt.params[i] : 0)}; return H_DONE; };
    H("vp_native") { UNUSED; ret = {mkv(0)}; return H_DONE; };
    H("vp_live") { UNUSED; ret = {mkv((u64)S.live)}; return H_DONE; };
    H("vp_concrete") { UNUSED; ret = {mkv(concV(S, a[0], "concretised value"))}; return H_DONE; };
    H("vp_is_concrete") { UNUSED; ret = {mkv(isConc(a[0]))}; return H_DONE; };
    // do both sides differ? joins two outcomes without forking
    H("vp_print") { UNUSED; if(opt.verbose) { fprintf(stderr, "vp_print %s = %s\n", readCStr(S, concV(S, a[0])).c_str(), a[1].e ? X.str(a[1].e).c_str() : std::to_string((s64)a[1].c).c_str()); } return H_DONE; };
    H("vp_ite") { UNUSED; Expr* c = cond1(a[0]); ret = {fromE(X.ite(c, toE(a[1], 64), toE(a[2], 64)))}; return H_DONE; };
    H("vp_and") { UNUSED; ret = {fromE(X.And1(cond1(a[0]), cond1(a[1])))}; return H_DONE; };
    H("vp_or") { UNUSED; ret = {fromE(X.Or1(cond1(a[0]), cond1(a[1])))}; return H_DONE; };
    H("vp_eq_bytes") { UNUSED; // bool: equal contents, no fork
        u64 p = concV(S, a[0]), q = concV(S, a[1]), n = concV(S, a[2]); Expr* r = X.C(1, 1);
        for(u64 i = 0; i < n; i++) r = X.And1(r, X.eq(byteAt(S, p + i), byteAt(S, q + i)));
        ret = {fromE(r)};
        return H_DONE; };
    // is the byte range readable? (no error)
    // ---- allocation
    for(auto n : {"_Znwm"}) H(n) { UNUSED; return hNew(S, a[0], OK_New, ret); };
    H("_Znam") { UNUSED; return hNew(S, a[0], OK_NewArr, ret); };
    H("_ZnwmSt11align_val_t") { UNUSED; return hNew(S, a[0], OK_New, ret); };
    H("_ZnamSt11align_val_t") { UNUSED; return hNew(S, a[0], OK_NewArr, ret); };
    H("_ZnwmRKSt9nothrow_t") { UNUSED; return hNew(S, a[0], OK_New, ret, true); };
    H("malloc") { UNUSED; return hNew(S, a[0], OK_Malloc, ret, true); };
    H("free") { UNUSED; freeObj(S, concV(S, a[0]), "free", {OK_Malloc}, -1); return H_DONE; };
    for(auto n : {"_ZdlPv", "_ZdlPvSt11align_val_t"}) H(n) { UNUSED; freeObj(S, concV(S, a[0]), "delete", {OK_New}, -1); return H_DONE; };
    for(auto n : {"_ZdlPvm", "_ZdlPvmSt11align_val_t"}) H(n) { UNUSED; u64 z = concV(S, a[1]); freeObj(S, concV(S, a[0]), "delete", {OK_New}, (s64)z); return H_DONE; };
    for(auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}) H(n) { UNUSED; freeObj(S, concV(S, a[0]), "delete[]", {OK_NewArr}, -1); return H_DONE; };
    // ---- exceptions
    H("__cxa_allocate_exception") { UNUSED; u64 p = allocHeap(S, concV(S, a[0]), OK_Exc); ret = {mkv(p)}; return H_DONE; };
    H("__cxa_free_exception") { UNUSED; freeObj(S, concV(S, a[0]), "free exception", {OK_Exc}, -1); S.live++; return H_DONE; };
    H("__cxa_throw") { UNUSED;
        ExcRec e; e.obj = concV(S, a[0]); e.tinfo = concV(S, a[1]); e.dtor = concV(S, a[2]); e.handlers = 0; e.adj = 0;
        S.excs.push_back(e);
        return hThrow(S, e.obj); };
    H("__cxa_get_exception_ptr") { UNUSED; u64 o = concV(S, a[0]); auto* e = excOf(S, o); ret = {mkv(o + (e ? e->adj : 0))}; return H_DONE; };
    H("__cxa_begin_catch") { UNUSED;
        u64 o = concV(S, a[0]); auto* e = excOf(S, o);
        if(!e) unsupported(S, "begin_catch of unknown exception");
        e->handlers = (e->handlers < 0 ? -e->handlers : e->handlers) + 1;
        if(S.caught.empty() || S.caught.back() != o) S.caught.push_back(o);
        u64 adj = o + e->adj;
        auto* g = tiGV(e->tinfo);
        if(g && g->getName().starts_with("_ZTIP")) { Val v = readC(S, o, 8); ret = {v}; return H_DONE; }
        ret = {mkv(adj)};
        return H_DONE; };
    H("__cxa_end_catch") { UNUSED;
        if(S.caught.empty()) return H_DONE;
        u64 o = S.caught.back(); auto* e = excOf(S, o);
        if(!e) unsupported(S, "end_catch of unknown exception");
        if(e->handlers < 0) { if(++e->handlers == 0) S.caught.pop_back(); return H_DONE; }
        if(--e->handlers == 0) {
            S.caught.pop_back();
            u64 d = e->dtor;
            for(size_t i = 0; i < S.excs.size(); i++) if(S.excs[i].obj == o) { S.excs.erase(S.excs.begin() + i); break; }
            if(d) {
                auto it = fnByAddr.find(d);
                if(it == fnByAddr.end() || it->second->isDeclaration()) unsupported(S, "exception destructor");
                finishCall(S, in);
                enterFn(S, getFn(it->second), {mkv(o)}, nullptr, -1, 0);
                S.top().freeOnRet = o;
                return H_JUMPED;
            }
            u64 off; if(findObj(S, o, off)) S.H.wr(slotOf(o))->freed = true;
        }
        return H_DONE; };
    H("__cxa_rethrow") { UNUSED;
        if(S.caught.empty()) fail(S, "terminate", "rethrow without a current exception");
        u64 o = S.caught.back(); auto* e = excOf(S, o);
        e->handlers = -e->handlers;
        return hThrow(S, o); };
    H("__cxa_guard_acquire") { UNUSED; u64 p = concV(S, a[0]); ret = {mkv(concByte(S, p, "guard") == 0)}; return H_DONE; };
    H("__cxa_guard_release") { UNUSED; writeC(S, concV(S, a[0]), mkv(1), 1, 8); return H_DONE; };
    H("__cxa_guard_abort") { UNUSED; return H_DONE; };
    for(auto n : {"__cxa_atexit", "atexit", "__cxa_thread_atexit"}) H(n) { UNUSED; ret = {mkv(0)}; return H_DONE; };
    H("__cxa_uncaught_exceptions") { UNUSED; u64 n = 0; for(auto& e : S.excs) if(e.handlers <= 0) n++; ret = {mkv(n)}; return H_DONE; };
    H("_ZSt18uncaught_exceptionv") { UNUSED; ret = {mkv(0)}; return H_DONE; };
    H("_ZSt9terminatev") { UNUSED; fail(S, "terminate", "std::terminate called"); };
    H("abort") { UNUSED; fail(S, "abort", "abort called"); };
    H("__assert_fail") { UNUSED; fail(S, "assertfail", "assertion in the code failed: " + readCStr(S, concV(S, a[0]))); };
    H("_ZSt21__glibcxx_assert_failPKciS0_S0_") { UNUSED; fail(S, "libassert", "library assertion failed: " + readCStr(S, concV(S, a[3]))); };
    H("__cxa_pure_virtual") { UNUSED; fail(S, "purevirtual", "pure virtual call"); };
    H("_ZNSt8ios_base4InitC1Ev") { UNUSED; return H_DONE; };
    H("_ZNSt8ios_base4InitD1Ev") { UNUSED; return H_DONE; };
    H("_ZSt21ios_base_library_initv") { UNUSED; return H_DONE; };
    for(auto n : {"_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZNSt6localeC1ERKS_"}) H(n) { UNUSED; return H_DONE; };
    // ---- memory and strings
    auto cpy = [](State& S, Ins&, Args& a, Args& ret) -> HRes { u64 n = chkLen(S, a[2]), d = concV(S, a[0]); if(n) copyMem(S, d, concV(S, a[1]), n); ret = {mkv(d)}; return H_DONE; };
    handlers["memcpy"] = cpy; handlers["memmove"] = cpy;
    auto wcpy = [](State& S, Ins&, Args& a, Args& ret) -> HRes { u64 n = chkLen(S, a[2]), d = concV(S, a[0]); if(n) copyMem(S, d, concV(S, a[1]), n * 4); ret = {mkv(d)}; return H_DONE; };
    handlers["wmemcpy"] = wcpy; handlers["wmemmove"] = wcpy;
    H("memset") { UNUSED; u64 n = chkLen(S, a[2]), d = concV(S, a[0]); memsetM(S, d, a[1], n); ret = {mkv(d)}; return H_DONE; };
    H("wmemset") { UNUSED; u64 n = chkLen(S, a[2]), d = concV(S, a[0]); for(u64 i = 0; i < n; i++) writeC(S, d + 4 * i, a[1], 4, 32); ret = {mkv(d)}; return H_DONE; };
    auto mcmp = [](State& S, Ins&, Args& a, Args& ret) -> HRes { u64 n = chkLen(S, a[2]); if(!n) { ret = {mkv(0)}; return H_DONE; } u64 p = concV(S, a[0]), q = concV(S, a[1]); ret = {cmpBytes(S, p, q, n, 1, false)}; return H_DONE; };
    handlers["memcmp"] = mcmp; handlers["bcmp"] = mcmp;
    H("wmemcmp") { UNUSED; u64 n = chkLen(S, a[2]); if(!n) { ret = {mkv(0)}; return H_DONE; } ret = {cmpBytes(S, concV(S, a[0]), concV(S, a[1]), n, 4, true)}; return H_DONE; };
    H("strlen") { UNUSED; bool f; ret = {mkv(scanUnit(S, concV(S, a[0]), 1ull << 30, 1, X.C(0, 8), f))}; return H_DONE; };
    H("wcslen") { UNUSED; bool f; ret = {mkv(scanUnit(S, concV(S, a[0]), 1ull << 30, 4, X.C(0, 32), f))}; return H_DONE; };
    H("memchr") { UNUSED; u64 n = chkLen(S, a[2]), p = concV(S, a[0]); bool f; u64 i = scanUnit(S, p, n, 1, X.extract(toE(a[1], 32), 0, 8), f); ret = {mkv(f ? p + i : 0)}; return H_DONE; };
    H("wmemchr") { UNUSED; u64 n = chkLen(S, a[2]), p = concV(S, a[0]); bool f; u64 i = scanUnit(S, p, n, 4, toE(a[1], 32), f); ret = {mkv(f ? p + 4 * i : 0)}; return H_DONE; };
    H("strcmp") { UNUSED;
        u64 p = concV(S, a[0]), q = concV(S, a[1]);
        for(;; p++, q++) {
            Expr *x = byteAt(S, p), *y = byteAt(S, q);
            if(!branchOn(S, X.eq(x, y), "strcmp")) { ret = {mkv(branchOn(S, X.mk(Op::Ult, 1, x, y), "strcmp") ? 0xffffffffu : 1u)}; return H_DONE; }
            if(branchOn(S, X.eq(x, X.C(0, 8)), "strcmp")) { ret = {mkv(0)}; return H_DONE; }
        } };
    // ---- floating-point text conversion (run natively on concretised values)
    handlers["_ZSt8to_charsPcS_f"] = hToChars<float, 0>; handlers["_ZSt8to_charsPcS_d"] = hToChars<double, 0>; handlers["_ZSt8to_charsPcS_e"] = hToChars<long double, 0>;
    handlers["_ZSt8to_charsPcS_fSt12chars_format"] = hToChars<float, 1>; handlers["_ZSt8to_charsPcS_dSt12chars_format"] = hToChars<double, 1>; handlers["_ZSt8to_charsPcS_eSt12chars_format"] = hToChars<long double, 1>;
    handlers["_ZSt8to_charsPcS_fSt12chars_formati"] = hToChars<float, 2>; handlers["_ZSt8to_charsPcS_dSt12chars_formati"] = hToChars<double, 2>; handlers["_ZSt8to_charsPcS_eSt12chars_formati"] = hToChars<long double, 2>;
    handlers["_ZSt10from_charsPKcS0_RfSt12chars_format"] = hFromChars<float>; handlers["_ZSt10from_charsPKcS0_RdSt12chars_format"] = hFromChars<double>; handlers["_ZSt10from_charsPKcS0_ReSt12chars_format"] = hFromChars<long double>;
}

// ------------------------------------------------------------------ intrinsics
static const char* ubName(u64 k) {
    static const char* n[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound"};
    return k < 25 ? n[k] : "trap";
}
static Val ctz(const Val& v, unsigned w, bool lead) {
    if(!v.e) { u64 c = v.c; unsigned n = 0; if(lead) { for(int i = w - 1; i >= 0 && !((c >> i) & 1); i--) n++; } else { for(unsigned i = 0; i < w && !((c >> i) & 1); i++) n++; } return mkv(n); }
    Expr* r = X.C(w, w);
    if(lead) { for(unsigned i = 0; i < w; i++) r = X.ite(X.extract(v.e, i, 1), X.C(w - 1 - i, w), r); }
    else { for(unsigned i = w; i-- > 0;) r = X.ite(X.extract(v.e, i, 1), X.C(i, w), r); }
    return fromE(r);
}
static bool intrinsic(State& S, Ins& in, Args& a, Args& ret) {
    unsigned w = in.w;
    auto& x = *in.x;
    auto E = [&](int i) { return toE(a[i], x.argw[i]); };
    switch(x.intr) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        u64 p = concV(S, a[1]), off; Obj* o = findObj(S, p, off);
        if(o && off == 0 && !o->freed) { Obj* q = tableOf(S, p)->wr(slotOf(p)); q->fillUndef(); }
        return true; }
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::donothing: ret.assign(1, mkv(0)); return true;
    case Intrinsic::stacksave: ret = {mkv(0)}; return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::expect_with_probability: ret = {a[0]}; return true;
    case Intrinsic::is_constant: ret = {mkv(0)}; return true;
    case Intrinsic::objectsize: ret = {mkv(m64(w))}; return true;
    case Intrinsic::eh_typeid_for: ret = {mkv(typeidOf(a[0].c))}; return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 n = chkLen(S, a[2]); if(n) { u64 d = concV(S, a[0]), s = concV(S, a[1]); copyMem(S, d, s, n); } return true; }
    case Intrinsic::memset: { u64 n = chkLen(S, a[2]); if(n) { u64 d = concV(S, a[0]); memsetM(S, d, a[1], n); } return true; }
    case Intrinsic::ubsantrap: fail(S, "ub", std::string("undefined behaviour: ") + ubName(a[0].c));
    case Intrinsic::trap: case Intrinsic::debugtrap: fail(S, "ub", "trap (undefined behaviour)");
    case Intrinsic::smax: ret = {fromE(X.ite(X.mk(Op::Slt, 1, E(0), E(1)), E(1), E(0)))}; return true;
    case Intrinsic::smin: ret = {fromE(X.ite(X.mk(Op::Slt, 1, E(0), E(1)), E(0), E(1)))}; return true;
    case Intrinsic::umax: ret = {fromE(X.ite(X.mk(Op::Ult, 1, E(0), E(1)), E(1), E(0)))}; return true;
    case Intrinsic::umin: ret = {fromE(X.ite(X.mk(Op::Ult, 1, E(0), E(1)), E(0), E(1)))}; return true;
    case Intrinsic::abs: ret = {fromE(X.ite(X.mk(Op::Slt, 1, E(0), X.C(0, w)), X.mk(Op::Sub, w, X.C(0, w), E(0)), E(0)))}; return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool l = x.intr == Intrinsic::fshl;
        Expr* sh = X.mk(Op::URem, w, E(2), X.C(w, w));
        Expr* big = X.concat(E(0), E(1));
        Expr* r = l ? X.extract(X.mk(Op::Shl, 2 * w, big, X.zext(sh, 2 * w)), w, w) : X.extract(X.mk(Op::LShr, 2 * w, big, X.zext(sh, 2 * w)), 0, w);
        ret = {fromE(r)};
        return true; }
    case Intrinsic::usub_sat: ret = {fromE(X.ite(X.mk(Op::Ult, 1, E(0), E(1)), X.C(0, w), X.mk(Op::Sub, w, E(0), E(1))))}; return true;
    case Intrinsic::uadd_sat: { Expr* s = X.mk(Op::Add, w, E(0), E(1)); ret = {fromE(X.ite(X.mk(Op::Ult, 1, s, E(0)), X.C(maskw(w), w), s))}; return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned v = x.argw[0];
        bool sg = x.intr == Intrinsic::sadd_with_overflow || x.intr == Intrinsic::ssub_with_overflow || x.intr == Intrinsic::smul_with_overflow;
        bool mul = x.intr == Intrinsic::smul_with_overflow || x.intr == Intrinsic::umul_with_overflow;
        Op op = mul ? Op::Mul : (x.intr == Intrinsic::sadd_with_overflow || x.intr == Intrinsic::uadd_with_overflow) ? Op::Add : Op::Sub;
        unsigned W = mul ? 2 * v : v + 1;
        Expr *p, *q;
        if(sg) { p = X.sext(E(0), W); q = X.sext(E(1), W); } else { p = X.zext(E(0), W); q = X.zext(E(1), W); }
        if(W > 128) unsupported(S, "wide overflow arithmetic");
        Expr* r = X.mk(op, W, p, q);
        Expr* t = X.mk(op, v, E(0), E(1));
        Expr* ov = X.Not(X.eq(r, sg ? X.sext(t, W) : X.zext(t, W)));
        ret = {fromE(t), fromE(ov)};
        return true; }
    case Intrinsic::ctlz: ret = {ctz(a[0], w, true)}; return true;
    case Intrinsic::cttz: ret = {ctz(a[0], w, false)}; return true;
    case Intrinsic::ctpop: { Expr* r = X.C(0, w); for(unsigned i = 0; i < w; i++) r = X.mk(Op::Add, w, r, X.zext(X.extract(E(0), i, 1), w)); ret = {fromE(r)}; return true; }
    case Intrinsic::bswap: { Expr* r = X.extract(E(0), 0, 8); for(unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(E(0), i, 8)); ret = {fromE(r)}; return true; }
    case Intrinsic::fabs: ret = {fromE(X.mk(Op::And, w, E(0), X.C(maskw(w - 1), w)))}; return true;
    case Intrinsic::copysign: ret = {fromE(X.mk(Op::Or, w, X.mk(Op::And, w, E(0), X.C(maskw(w - 1), w)), X.mk(Op::And, w, E(1), X.C((u128)1 << (w - 1), w))))}; return true;
    case Intrinsic::is_fpclass: {
        u64 mask = a[1].c; unsigned fw = x.argw[0]; Expr* e = E(0);
        if(fw == 80) unsupported(S, "is.fpclass on long double");
        unsigned mb = fw == 32 ? 23 : 52, eb = fw == 32 ? 8 : 11;
        Expr *man = X.extract(e, 0, mb), *ex = X.extract(e, mb, eb), *sg = X.extract(e, fw - 1, 1);
        Expr *em = X.eq(ex, X.C(maskw(eb), eb)), *ez = X.eq(ex, X.C(0, eb)), *mz = X.eq(man, X.C(0, mb));
        Expr* r = X.C(0, 1);
        auto add = [&](u64 bit, Expr* c) { if(mask & bit) r = X.Or1(r, c); };
        Expr* qb = X.extract(man, mb - 1, 1);
        add(1, X.And1(X.And1(em, X.Not(mz)), X.Not(qb))); add(2, X.And1(X.And1(em, X.Not(mz)), qb));
        add(4, X.And1(X.And1(em, mz), sg)); add(0x200, X.And1(X.And1(em, mz), X.Not(sg)));
        Expr* nrm = X.And1(X.Not(em), X.Not(ez));
        add(8, X.And1(nrm, sg)); add(0x100, X.And1(nrm, X.Not(sg)));
        Expr* sub = X.And1(ez, X.Not(mz));
        add(0x10, X.And1(sub, sg)); add(0x80, X.And1(sub, X.Not(sg)));
        Expr* zr = X.And1(ez, mz);
        add(0x20, X.And1(zr, sg)); add(0x40, X.And1(zr, X.Not(sg)));
        ret = {fromE(r)};
        return true; }
    default: return false;
    }
}

// ------------------------------------------------------------------ interpreter
static void step(State& S) {
    Frame& f = *S.fr.back(); // read-only view; writes go through S.top()
    FnInfo* fi = f.f;
    Ins& in = fi->code[f.pc];
    st.insns++;
    if(++S.insns > opt.maxInsn) fail(S, "nonterm", "instruction limit exceeded (does not terminate within bounds)");
    if(in.sub & 0x8000) unsupported(S, "vector instruction");
    switch(in.op) {
    case Instruction::Br: {
        if(!in.sub) { jump(S, in.x->edges[0]); return; }
        const Val& c = rd(S, in.a);
        bool t = c.e ? branchOn(S, c.e) : (c.c & 1);
        jump(S, in.x->edges[t ? 0 : 1]);
        return; }
    case Instruction::Switch: {
        Val c = rd(S, in.a);
        auto& x = *in.x;
        if(!c.e || allFixed(S, c.e)) {
            u128 v = c.e ? evalM(S, c.e) : c.c; int e = 0;
            for(auto& k : x.cases) if(k.first == v) { e = k.second; break; }
            jump(S, x.edges[e]); return;
        }
        checkUndef(S, c.e, "switch");
        for(;;) {
            u128 v = evalM(S, c.e); int e = 0;
            for(auto& k : x.cases) if(k.first == v) { e = k.second; break; }
            Expr* cond = X.C(0, 1);
            if(e) { for(auto& k : x.cases) if(k.second == e) cond = X.Or1(cond, X.eq(c.e, X.C(k.first, c.e->w))); }
            else { cond = X.C(1, 1); for(auto& k : x.cases) if(k.second != 0) cond = X.And1(cond, X.Not(X.eq(c.e, X.C(k.first, c.e->w)))); }
            if(branchOn(S, cond, "switch")) { jump(S, x.edges[e]); return; }
        } }
    case Instruction::Ret: {
        Args vals; for(int i = 0; i < in.x->nret; i++) vals.push_back(rd(S, in.a, i));
        Ins* cs = f.callSite; int rdst = f.retDst, rn = f.retN;
        popFrame(S);
        if(S.fr.empty()) return;
        if(rdst >= 0) { Frame& g = S.top(); for(int i = 0; i < rn && i < (int)vals.size(); i++) g.r[rdst + i] = vals[i]; }
        if(cs) finishCall(S, *cs);
        return; }
    case Instruction::Unreachable: fail(S, "unreachable", "unreachable code executed");
    case Instruction::Resume: {
        u64 o = concV(S, rd(S, in.a)); unwind(S, o); return; }
    case Instruction::Call: case Instruction::Invoke: {
        auto& x = *in.x;
        Function* fn = x.callee;
        if(!fn) {
            if(!x.name.empty()) { if(x.name == "<asm>") { S.top().pc++; return; } unsupported(S, x.name); }
            u64 a = concV(S, rd(S, in.a), "call target");
            auto it = fnByAddr.find(a);
            if(it == fnByAddr.end()) { if(a < 4096) fail(S, "null", "call through a null function pointer"); fail(S, "badcall", "call through a bad function pointer"); }
            fn = it->second;
        }
        Args args; args.reserve(x.ops.size());
        for(size_t i = 0; i < x.ops.size(); i++) for(int k = 0; k < x.n[i]; k++) args.push_back(rd(S, x.ops[i], k));
        if(x.intr) {
            Args ret;
            if(!intrinsic(S, in, args, ret)) unsupported(S, "intrinsic " + x.name);
            if(in.dst >= 0) { Frame& g = S.top(); for(int i = 0; i < x.nret && i < (int)ret.size(); i++) g.r[in.dst + i] = ret[i]; }
            finishCall(S, in);
            return;
        }
        HFn h = nullptr;
        if(fn->isDeclaration() || true) {
            static std::unordered_map<const Function*, HFn> hm;
            auto it = hm.find(fn);
            if(it == hm.end()) { auto j = handlers.find(fn->getName().str()); h = j == handlers.end() ? nullptr : j->second;
                if(h && !fn->isDeclaration() && !fn->getName().starts_with("vp_")) { // a harness-provided definition wins for text conversion
                    if(fn->getName().contains("to_chars") || fn->getName().contains("from_chars")) h = nullptr; }
                hm[fn] = h; }
            else h = it->second;
        }
        if(h) {
            Args ret;
            HRes r = h(S, in, args, ret);
            if(r == H_JUMPED) return;
            if(in.dst >= 0) { Frame& g = S.top(); for(int i = 0; i < x.nret && i < (int)ret.size(); i++) g.r[in.dst + i] = ret[i]; }
            finishCall(S, in);
            return;
        }
        if(fn->isDeclaration()) unsupported(S, "external function " + demang(fn->getName().str()));
        enterFn(S, getFn(fn), args, &in, in.dst, x.nret, &x.byval);
        return; }
    case Instruction::Load: {
        Val a = rd(S, in.a);
        if(in.sub == 0) {
            Val v = loadMem(S, a, in.w2);
            if(in.w != in.w2 * 8u) v = trunc(v, in.w);
            Frame& g = S.top(); g.r[in.dst] = v; g.pc++;
        } else {
            u64 p = concV(S, a);
            Args vs; for(auto& m : in.x->parts) vs.push_back(trunc(readC(S, p + m.off, m.bytes), m.w));
            Frame& g = S.top(); for(size_t i = 0; i < vs.size(); i++) g.r[in.dst + i] = vs[i];
            g.pc++;
        }
        return; }
    case Instruction::Store: {
        u64 p = concV(S, rd(S, in.a));
        if(in.sub == 0) writeC(S, p, rd(S, in.b), in.w2, in.w);
        else { size_t i = 0; for(auto& m : in.x->parts) { writeC(S, p + m.off, rd(S, in.b, i), m.bytes, m.w); i++; } }
        S.top().pc++;
        return; }
    case Instruction::Alloca: {
        u64 n = concV(S, rd(S, in.a), "alloca size");
        u64 p = allocStack(S, in.x->size * n);
        Frame& g = S.top(); g.r[in.dst] = mkv(p); g.pc++;
        return; }
    case Instruction::GetElementPtr: {
        Val p = rd(S, in.a);
        auto& x = *in.x;
        if(!p.e) p.c += x.base; else if(x.base) p = fromE(X.mk(Op::Add, 64, p.e, X.C(x.base, 64)));
        for(size_t i = 0; i < x.ops.size(); i++) {
            const Val& o = rd(S, x.ops[i]);
            if(!o.e && !p.e) p.c += (u64)(s64)sextw(o.c, x.argw[i]) * x.scale[i];
            else {
                Expr* e = X.sext(toE(o, x.argw[i]), 64);
                if(x.scale[i] != 1) e = X.mk(Op::Mul, 64, e, X.C(x.scale[i], 64));
                p = fromE(X.mk(Op::Add, 64, toE(p, 64), e));
            }
        }
        Frame& g = S.top(); g.r[in.dst] = p; g.pc++;
        return; }
    case Instruction::ICmp: {
        const Val &a = rd(S, in.a), &b = rd(S, in.b);
        Val r;
        if(!a.e && !b.e) r = mkv(icmpC(in.sub, a.c, b.c, in.w2));
        else r = fromE(icmpE(in.sub, toE(a, in.w2), toE(b, in.w2)));
        Frame& g = S.top(); g.r[in.dst] = r; g.pc++;
        return; }
    case Instruction::FCmp: {
        Val r = fromE(fcmpE(in.sub, toE(rd(S, in.a), in.w2), toE(rd(S, in.b), in.w2)));
        Frame& g = S.top(); g.r[in.dst] = r; g.pc++;
        return; }
    case Instruction::Select: {
        Val c = rd(S, in.a); int n = in.x->nret;
        if(c.e && (in.sub & 1)) {
            const Val &p = rd(S, in.b), &q = rd(S, in.c);
            if(!p.e && !q.e && p.c == q.c) c = mkv(1);
            else c = mkv(branchOn(S, c.e, "select"));
        }
        Args vs;
        if(!c.e) for(int i = 0; i < n; i++) vs.push_back(rd(S, c.c & 1 ? in.b : in.c, i));
        else {
            if(n > 1) { bool t = branchOn(S, c.e, "select"); for(int i = 0; i < n; i++) vs.push_back(rd(S, t ? in.b : in.c, i)); }
            else vs.push_back(fromE(X.ite(c.e, toE(rd(S, in.b), in.w), toE(rd(S, in.c), in.w))));
        }
        Frame& g = S.top(); for(int i = 0; i < n; i++) g.r[in.dst + i] = vs[i];
        g.pc++;
        return; }
    case Instruction::ExtractValue: { Frame& g = S.top(); for(int i = 0; i < in.x->nret; i++) g.r[in.dst + i] = rd(S, in.a, i); g.pc++; return; }
    case Instruction::InsertValue: {
        Frame& g = S.top();
        Args vs; for(int i = 0; i < in.x->nret; i++) vs.push_back(rd(S, in.a, i));
        for(u64 i = 0; i < in.x->size; i++) vs[in.x->base + i] = rd(S, in.b, i);
        for(int i = 0; i < in.x->nret; i++) g.r[in.dst + i] = vs[i];
        g.pc++;
        return; }
    case Instruction::Freeze: { Frame& g = S.top(); for(int i = 0; i < in.x->nret; i++) g.r[in.dst + i] = rd(S, in.a, i); g.pc++; return; }
    case Instruction::Fence: S.top().pc++; return;
    case Instruction::AtomicRMW: {
        u64 p = concV(S, rd(S, in.a)); Val o = trunc(readC(S, p, in.w2), in.w); Val v = rd(S, in.b), n;
        switch(in.sub) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = bin(Op::Add, in.w, o, v); break;
        case AtomicRMWInst::Sub: n = bin(Op::Sub, in.w, o, v); break;
        case AtomicRMWInst::And: n = bin(Op::And, in.w, o, v); break;
        case AtomicRMWInst::Or: n = bin(Op::Or, in.w, o, v); break;
        default: unsupported(S, "atomicrmw");
        }
        writeC(S, p, n, in.w2, in.w);
        Frame& g = S.top(); g.r[in.dst] = o; g.pc++;
        return; }
    case Instruction::AtomicCmpXchg: {
        u64 p = concV(S, rd(S, in.a)); Val o = trunc(readC(S, p, in.w2), in.w);
        Expr* eq = X.eq(toE(o, in.w), toE(rd(S, in.b), in.w));
        bool t = branchOn(S, eq);
        if(t) writeC(S, p, rd(S, in.c), in.w2, in.w);
        Frame& g = S.top(); g.r[in.dst] = o; g.r[in.dst + 1] = mkv(t); g.pc++;
        return; }
    default: break;
    }
    // plain unary/binary operations
    Val a = rd(S, in.a), r; unsigned w = in.w;
    Op op;
    switch(in.op) {
    case Instruction::Add: op = Op::Add; break; case Instruction::Sub: op = Op::Sub; break; case Instruction::Mul: op = Op::Mul; break;
    case Instruction::UDiv: op = Op::UDiv; break; case Instruction::SDiv: op = Op::SDiv; break; case Instruction::URem: op = Op::URem; break; case Instruction::SRem: op = Op::SRem; break;
    case Instruction::And: op = Op::And; break; case Instruction::Or: op = Op::Or; break; case Instruction::Xor: op = Op::Xor; break;
    case Instruction::Shl: op = Op::Shl; break; case Instruction::LShr: op = Op::LShr; break; case Instruction::AShr: op = Op::AShr; break;
    case Instruction::FAdd: op = Op::FAdd; break; case Instruction::FSub: op = Op::FSub; break; case Instruction::FMul: op = Op::FMul; break; case Instruction::FDiv: op = Op::FDiv; break; case Instruction::FRem: op = Op::FRem; break;
    case Instruction::Trunc: r = trunc(a, w); goto done;
    case Instruction::ZExt: r = a.e ? fromE(X.zext(a.e, w)) : w <= 64 ? a : fromE(X.zext(X.C(a.c, in.w2), w)); goto done;
    case Instruction::SExt: r = a.e ? fromE(X.sext(a.e, w)) : w <= 64 ? mkv((u64)sextw(a.c, in.w2) & m64(w)) : fromE(X.sext(X.C(a.c, in.w2), w)); goto done;
    case Instruction::PtrToInt: r = w < 64 ? trunc(a, w) : a.e ? fromE(X.zext(a.e, w)) : a; goto done;
    case Instruction::IntToPtr: r = in.w2 > 64 ? trunc(a, 64) : a.e ? fromE(X.zext(a.e, 64)) : a; goto done;
    case Instruction::BitCast: r = a; goto done;
    case Instruction::FPToSI: r = fromE(X.mk(Op::FToSI, w, toE(a, in.w2))); goto done;
    case Instruction::FPToUI: r = fromE(X.mk(Op::FToUI, w, toE(a, in.w2))); goto done;
    case Instruction::SIToFP: r = fromE(X.mk(Op::SIToF, w, toE(a, in.w2))); goto done;
    case Instruction::UIToFP: r = fromE(X.mk(Op::UIToF, w, toE(a, in.w2))); goto done;
    case Instruction::FPTrunc: case Instruction::FPExt: r = fromE(X.mk(Op::FConv, w, toE(a, in.w2))); goto done;
    case Instruction::FNeg: r = fromE(X.mk(Op::Xor, w, toE(a, w), X.C((u128)1 << (w - 1), w))); goto done;
    default: unsupported(S, std::string("instruction ") + in.I->getOpcodeName());
    }
    {
        Val b = rd(S, in.b);
        if(op >= Op::FAdd) {
            if(op == Op::FRem && (!isConc(a) || !isConc(b))) unsupported(S, "symbolic frem");
            r = fromE(X.mk(op, w, toE(a, w), toE(b, w)));
        } else {
            if(op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
                if(!b.e ? b.c == 0 : branchOn(S, X.eq(b.e, X.C(0, w)), "divisor")) fail(S, "ub", "division by zero");
            }
            if((op == Op::SDiv || op == Op::SRem) && a.e && !b.e && (s64)sextw(b.c, w) > 1) { // settle the sign, then divide magnitudes
                Op u = op == Op::SDiv ? Op::UDiv : Op::URem;
                if(branchOn(S, X.mk(Op::Slt, 1, a.e, X.C(0, w)), "dividend sign")) r = bin(Op::Sub, w, mkv(0), bin(u, w, bin(Op::Sub, w, mkv(0), a), b));
                else r = bin(u, w, a, b);
            } else r = bin(op, w, a, b);
        }
    }
done:
    Frame& g = S.top(); g.r[in.dst] = r; g.pc++;
}

static void runUntilDepth(State& S, size_t d) { while(S.fr.size() > d) step(S); }
static void execute(State& S) {
    runUntilDepth(S, 0);
    st.completed++;
    if((st.completed & (st.completed - 1)) == 0 && samples.size() < 20) {
        std::vector<std::pair<std::string, std::vector<u8>>> in;
        for(auto& r : S.syms) { std::vector<u8> v; for(auto* b : r.bytes) v.push_back((u8)X.eval(b, *S.model)); in.push_back({r.name, v}); }
        samples.push_back(in);
    }
}
