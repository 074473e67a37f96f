#include "fmt.h"
using namespace papilio;
template <class C> static void literal()
{
    using str = std::basic_string<C>;
    using view = std::basic_string_view<C>;
    size_t n = vp_param(0);
    unsigned top = ref::classes<C>() < vp_param(1) ? ref::classes<C>() : (unsigned)vp_param(1);
    struct Ch { char32_t c; unsigned k; } f[16];
    size_t m = 0;
    for(size_t i = 0; i < n; ++i)
    {
        switch(vp_pick(0, i + 1 == n ? 5 : 4, "token"))
        {
        case 0:
        {
            unsigned k = top == 1 ? 1 : (unsigned)vp_pick(1, top, "len");
            char32_t c = ref::sym_cp_class<C>(k);
            vp_assume(vp_and(c != U'{', c != U'}'));
            f[m++] = {c, k};
            break;
        }
        case 1: f[m++] = {U'{', 1}; f[m++] = {U'{', 1}; break;
        case 2: f[m++] = {U'}', 1}; f[m++] = {U'}', 1}; break;
        case 3: f[m++] = {U'{', 1}; f[m++] = {U'}', 1}; break;
        case 4: f[m++] = {U'}', 1}; break;
        case 5: f[m++] = {U'{', 1}; break;
        }
    }
    str fmt;
    C b[4];
    for(size_t i = 0; i < m; ++i) { ref::enc<C>(f[i].c, f[i].k, b); fmt.append(b, f[i].k); }
    // heap copy of the exact size, so that reading past the end is seen
    C* raw = new C[fmt.size() ? fmt.size() : 1];
    for(size_t i = 0; i < fmt.size(); ++i) raw[i] = fmt[i];
    view fv(fmt.empty() ? raw + 1 : raw, fmt.size());
    // arguments
    C a[3];
    for(auto& x : a) x = (C)ref::sym_cp(0, 0x7F);
    view args[3] = {view(a, 1), view(), view(a + 1, 2)};
    // reference semantics
    str want;
    bool bad = false;
    size_t na = 0;
    auto sp = [&](size_t i, char32_t c) { return f[i].k == 1 && vp_concrete(f[i].c == c); };
    for(size_t i = 0; i < m && !bad;)
    {
        if(sp(i, U'}'))
        {
            if(i + 1 < m && sp(i + 1, U'}')) { want.push_back(C('}')); i += 2; }
            else bad = true;
        }
        else if(sp(i, U'{'))
        {
            if(i + 1 < m && sp(i + 1, U'{')) { want.push_back(C('{')); i += 2; }
            else if(i + 1 < m && sp(i + 1, U'}')) { if(na < 3) want.append(args[na++]); else bad = true; i += 2; }
            else { bad = true; }
        }
        else { ref::enc<C>(f[i].c, f[i].k, b); want.append(b, f[i].k); ++i; }
    }
    auto r = fm::tryrun<C>(fv, args[0], args[1], args[2]);
    if(bad) vp_assert(r.threw, "an unmatched brace is rejected");
    else { vp_assert(!r.threw, "well-formed text is accepted"); vp_assert(ref::same<C>(view(r.s), want), "text, escapes and fields are output in order"); }
    vp_reach(bad ? "bad" : "end");
    delete[] raw;
}
#define E(n, C) extern "C" void lit_##n() { literal<C>(); }
E(char, char) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t) E(wchar, wchar_t)
#undef E
