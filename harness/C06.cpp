#include "utf.h"
#include <optional>
#include <vector>
using namespace papilio;
namespace u = papilio::utf;
using ref::same;
namespace
{
template <class C> struct World
{
    using cont = u::basic_string_container<C>;
    using str = std::basic_string<C>;
    using view = std::basic_string_view<C>;
    struct Model
    {
        size_t n = 0;
        char32_t cp[12];
        unsigned k[12];
        bool owned = true;
        int dep = -1; // the container whose owned storage is referred to
        void add(char32_t c, unsigned kk) { cp[n] = c; k[n] = kk; ++n; }
        str units() const
        {
            str r;
            C b[4];
            for(size_t i = 0; i < n; ++i) { ref::enc<C>(cp[i], k[i], b); r.append(b, k[i]); }
            return r;
        }
    };
    ref::Text<C> s0, s1;
    str st; // a std::string holding the text of s1
    std::optional<cont> c[2];
    Model m[2];
    char32_t ncp; unsigned nk; C nch;
    str k0, k1; // copies of the source units

    Model of(const ref::Text<C>& t, size_t i, size_t j, bool own) { Model r; r.owned = own; for(; i < j; ++i) r.add(t.cp[i], t.k[i]); return r; }
    bool lock(int x) { return m[1 - x].dep == x; } // the other container refers to x's storage
    void check(int x)
    {
        str e = m[x].units();
        const cont& k = *c[x];
        vp_assert(k.size() == e.size(), "a container has the size of its text");
        vp_assert(same<C>(view(k), e), "a container denotes the text its operations specify");
        vp_assert(k.empty() == e.empty(), "empty");
        vp_assert(k.has_ownership() == m[x].owned, "ownership is as the operations specify");
        vp_assert(k.length() == m[x].n, "length in characters");
        if(m[x].owned) vp_assert(k.capacity() >= e.size(), "capacity");
    }
    void all()
    {
        check(0); check(1);
        vp_assert(same<C>(s0.view(), k0), "borrowed text is never modified");
        vp_assert(same<C>(s1.view(), k1), "borrowed text is never modified");
        vp_assert(same<C>(view(st), k1), "a borrowed std::string is never modified");
    }
    // returns false when the operation is not applicable
    bool op(int o, int x)
    {
        int y = 1 - x;
        auto& X = c[x];
        if(lock(x) && o != 23 && o != 24 && o != 25 && o != 31) return false;
        switch(o)
        {
        case 0: X.emplace(s0.view()); m[x] = of(s0, 0, s0.ncp, false); break;
        case 1: X.emplace(independent, s0.p, s0.n); m[x] = of(s0, 0, s0.ncp, true); break;
        case 2: X.emplace(str(s1.view())); m[x] = of(s1, 0, s1.ncp, true); break;
        case 3: X.emplace(st); m[x] = of(s1, 0, s1.ncp, false); break;
        case 4: { auto d = m[y]; d.dep = d.owned ? y : d.dep; d.owned = false; if(d.dep == x) return false; X.emplace(std::as_const(*c[y])); m[x] = d; break; }
        case 5: { if(m[y].dep == x) return false; X.emplace(independent, *c[y]); m[x] = m[y]; m[x].owned = true; m[x].dep = -1; break; }
        case 6: { if(m[x].dep == y) m[x].dep = -1; X.emplace(std::move(*c[y])); m[x] = m[y]; c[y]->assign(s1.view()); m[y] = of(s1, 0, s1.ncp, false); break; }
        case 7: X.emplace(2, nch); m[x] = Model(); m[x].add((char32_t)nch, 1); m[x].add((char32_t)nch, 1); break;
        case 8: X.emplace(2, u::codepoint(u::decoder<char32_t>::to_codepoint(ncp).first)); m[x] = Model(); m[x].add(ncp, nk); m[x].add(ncp, nk); break;
        case 9: { u::basic_string_ref<C> r(s0.view()); auto i = r.begin(); if(s0.ncp) ++i; X.emplace(i, r.end()); m[x] = of(s0, s0.ncp ? 1 : 0, s0.ncp, false); break; }
        case 10: X.emplace((const C*)s0.p, (const C*)(s0.p + s0.n)); m[x] = of(s0, 0, s0.ncp, true); break;
        case 11: X->assign(s1.view()); m[x] = of(s1, 0, s1.ncp, false); break;
        case 12: X->assign(independent, s1.view()); m[x] = of(s1, 0, s1.ncp, true); break;
        case 13: X->assign(str(s0.view())); m[x] = of(s0, 0, s0.ncp, true); break;
        case 14: X->assign((size_t)2, nch); m[x] = Model(); m[x].add((char32_t)nch, 1); m[x].add((char32_t)nch, 1); break;
        case 15: X->assign((size_t)1, u::decoder<char32_t>::to_codepoint(ncp).first); m[x] = Model(); m[x].add(ncp, nk); break;
        case 16: X->assign(s0.p, s0.n); m[x] = of(s0, 0, s0.ncp, false); break;
        case 17: { auto d = m[y]; if(d.dep == x) return false; *X = std::as_const(*c[y]); m[x] = d; break; }
        case 18: { *X = std::move(*c[y]); m[x] = m[y]; c[y]->assign(s1.view()); m[y] = of(s1, 0, s1.ncp, false); break; }
        case 19: { if(lock(y)) return false; X->swap(*c[y]); std::swap(m[x], m[y]); break; }
        case 20: X->push_back(nch); m[x].add((char32_t)nch, 1); m[x].owned = true; m[x].dep = -1; break;
        case 21: X->push_back(u::decoder<char32_t>::to_codepoint(ncp).first); m[x].add(ncp, nk); m[x].owned = true; m[x].dep = -1; break;
        case 22: X->clear(); vp_assert(X->null_terminated() == X->has_ownership(), "a cleared container"); m[x].n = 0; m[x].dep = -1; break;
        case 23: X->obtain_ownership(); m[x].owned = true; m[x].dep = -1; break;
        case 24: { const C* p = std::as_const(*X).c_str(); str e = m[x].units(); vp_assert(vp_eq_bytes(p, e.c_str(), (e.size() + 1) * sizeof(C)), "c_str is the null-terminated text"); vp_assert(X->null_terminated(), "null terminated after c_str"); m[x].owned = true; m[x].dep = -1; break; }
        case 25: { const str& q = std::as_const(*X).str(); vp_assert(same<C>(view(q), m[x].units()), "str() is the text"); m[x].owned = true; m[x].dep = -1; break; }
        case 26: { str q = std::move(*X).str(); vp_assert(same<C>(view(q), m[x].units()), "the extracted string is the text"); X->clear(); m[x] = Model(); break; }
        case 27: { if(!m[x].n) return false; size_t i = vp_pick(0, m[x].n - 1, "at"); (*X)[i] = u::decoder<char32_t>::to_codepoint(ncp).first; m[x].cp[i] = ncp; m[x].k[i] = nk; m[x].owned = true; m[x].dep = -1; break; }
        case 28: { if(!m[x].n) return false; X->index(reverse_index, 0) = u::decoder<char32_t>::to_codepoint(ncp).first; size_t i = m[x].n - 1; m[x].cp[i] = ncp; m[x].k[i] = nk; m[x].owned = true; m[x].dep = -1; break; }
        case 29: { auto v = u::codepoint(u::decoder<char32_t>::to_codepoint(ncp).first); size_t i = 0; for(auto it = X->begin(); it != X->end(); ++it, ++i) { *it = v; if(i > 8) break; } vp_assert(i == m[x].n, "mutable iteration visits every character"); for(i = 0; i < m[x].n; ++i) { m[x].cp[i] = ncp; m[x].k[i] = nk; } if(m[x].n) { m[x].owned = true; m[x].dep = -1; } break; }
        case 30: { const C* q = s1.p; size_t n = s1.n; X->resize_and_overwrite(n + 2, [=](C* p, size_t) { for(size_t i = 0; i < n; ++i) p[i] = q[i]; return n; }); m[x] = of(s1, 0, s1.ncp, true); break; }
        case 31: { if(lock(y) || m[x].n < 1) return false; c[y].emplace(std::as_const(*X).substr(1)); Model d; for(size_t i = 1; i < m[x].n; ++i) d.add(m[x].cp[i], m[x].k[i]); d.owned = false; d.dep = m[x].owned ? x : m[x].dep; m[y] = d; break; }
        case 32: { u::basic_string_ref<C> r(s1.view()); X->assign_range(r); m[x] = of(s1, 0, s1.ncp, true); break; }
        case 33: { view v = s0.view(); *X = independent(v); m[x] = of(s0, 0, s0.ncp, true); break; }
        case 34: X->assign(independent, view(*X)); m[x].owned = true; m[x].dep = -1; break;
        case 35: { auto& z = *X; *X = z; break; }
        case 36: *X = s0.view(); m[x] = of(s0, 0, s0.ncp, false); break;
        case 37: { X->assign_range(str(s0.view())); m[x] = of(s0, 0, s0.ncp, true); break; }
        case 38: { u::basic_string_ref<C> r(s0.view()); auto j = r.end(); if(s0.ncp) --j; X->assign(r.begin(), j); m[x] = of(s0, 0, s0.ncp ? s0.ncp - 1 : 0, false); break; }
        case 39: { if(!m[x].n) return false; auto it = X->end(); size_t i = m[x].n; while(it != X->begin() && i > 0) { --it; --i; vp_assert((char32_t)*it == m[x].cp[i], "mutable iterators step backwards"); } vp_assert(it == X->begin() && i == 0, "backward mutable iteration visits every character"); break; }
        }
        return true;
    }
    static constexpr int OPS = 40;
    // parameters: depth, source shape, first op of container 0, first op of container 1, [operations only on container 0]
    void go()
    {
        unsigned sh = vp_param(1);
        ref::gen<C>(s0, sh & 7, 1, (sh >> 3) & 7);
        ref::gen<C>(s1, 1, 1, 1);
        unsigned cls = (sh >> 6) & 7;
        nk = ref::len_of<C>(cls); ncp = cls == 1 ? ref::sym_cp(1, 0x7F) : cls == 2 ? ref::sym_cp(0x80, 0x7FF) : cls == 3 ? ref::sym_cp(0x800, 0xFFFF) : ref::sym_cp(0x10000, 0x10FFFF);
        nch = (C)ref::sym_cp(1, 0x7F);
        st = str(s1.view()); k0 = str(s0.view()); k1 = str(s1.view());
        c[0].emplace(); c[1].emplace();
        all();
        if(vp_param(2)) { op(vp_param(2) - 1, 0); }
        if(vp_param(3)) { if(!op(vp_param(3) - 1, 1)) return; }
        all();
        for(unsigned d = vp_param(0); d > 0; --d)
        {
            int o = (int)vp_pick(0, OPS - 1, "op");
            int x = vp_param(4) ? 0 : (int)vp_pick(0, 1, "target");
            if(!op(o, x)) { vp_reach("inapplicable"); return; }
            all();
        }
        // owned text survives its sources
        for(size_t i = 0; i < s0.n; ++i) s0.p[i] = C(0x21);
        for(size_t i = 0; i < s1.n; ++i) s1.p[i] = C(0x22);
        st.assign(3, C(0x23));
        for(int x = 0; x < 2; ++x) if(m[x].owned) check(x);
        if(m[0].owned && m[1].dep != 0) { c[1].reset(); check(0); vp_reach("survivor"); }
        vp_reach("end");
    }
};
}
#define E(n, C) extern "C" void hist_##n() { World<C> w; w.go(); }
E(char, char) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t) E(wchar, wchar_t)
#undef E
