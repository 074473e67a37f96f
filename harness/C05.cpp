#include "utf.h"
using namespace papilio;
namespace u = papilio::utf;
// -1, 0, 1 without forking
template <class A, class B> static int64_t order(const ref::Text<A>& a, const ref::Text<B>& b)
{
    size_t m = a.ncp < b.ncp ? a.ncp : b.ncp;
    int64_t r = a.ncp < b.ncp ? -1 : a.ncp > b.ncp ? 1 : 0;
    for(size_t i = m; i-- > 0;)
    {
        uint32_t x = a.cp[i], y = b.cp[i];
        r = (int64_t)vp_ite(x < y, (uint64_t)-1, vp_ite(x > y, 1, (uint64_t)r));
    }
    return r;
}
static int sgn(int v) { return (v > 0) - (v < 0); }
template <class X, class Y> static void ops(const X& x, const Y& y, int w, const char* what)
{
    if constexpr(requires { x == y; })
    {
        vp_assert((x == y) == (w == 0), what);
        vp_assert((x != y) == (w != 0), what);
    }
    if constexpr(requires { x < y; })
    {
        vp_assert((x < y) == (w < 0), what);
        vp_assert((x <= y) == (w <= 0), what);
        vp_assert((x > y) == (w > 0), what);
        vp_assert((x >= y) == (w >= 0), what);
        auto o = x <=> y;
        vp_assert((o < 0) == (w < 0), what);
        vp_assert((o > 0) == (w > 0), what);
    }
}
template <class A, class B> static void cmp()
{
    ref::Text<A> a; ref::Text<B> b;
    ref::gen<A>(a, vp_param(0), 1);
    ref::gen<B>(b, vp_param(1), 1);
    int64_t w64 = order(a, b);
    u::basic_string_ref<A> ra(a.view()); u::basic_string_ref<B> rb(b.view());
    int c = ra.compare(rb);
    vp_assert(sgn(c) == w64, "compare gives the lexicographic order of the code points");
    int w = (int)(int64_t)vp_concrete((uint64_t)w64);
    vp_assert(sgn(rb.compare(ra)) == -w, "compare is antisymmetric");
    ops(ra, rb, w, "operators between references");
    std::basic_string<A> sa(a.view()), ta(a.view()); std::basic_string<B> sb(b.view()), tb(b.view());
    u::basic_string_container<A> ca(a.view()), oa(std::move(ta));
    u::basic_string_container<B> cb(b.view()), ob(std::move(tb));
    switch(vp_param(2))
    {
    case 0:
        vp_assert(sgn(ca.compare(cb)) == w, "compare containers");
        vp_assert(sgn(oa.compare(rb)) == w, "compare an owning container with a reference");
        vp_assert(sgn(ra.compare(u::basic_string_ref<B>(ob))) == w, "compare a reference with a container");
        ops(ca, cb, w, "operators between containers");
        ops(oa, ob, w, "operators between owning containers");
        ops(ca, ob, w, "operators between borrowing and owning containers");
        ops(oa, rb, w, "operators between container and reference");
        ops(ra, ob, w, "operators between reference and container");
        break;
    case 1:
        vp_assert(sgn(ra.compare(b.view())) == w, "compare a view");
        vp_assert(sgn(ra.compare(sb)) == w, "compare a std::string");
        vp_assert(sgn(ra.compare(sb.c_str())) == w, "compare a C string");
        vp_assert(sgn(oa.compare(b.view())) == w, "compare a view with a container");
        vp_assert(sgn(oa.compare(sb)) == w, "compare a std::string with a container");
        vp_assert(sgn(oa.compare(sb.c_str())) == w, "compare a C string with a container");
        ops(ra, b.view(), w, "operators between reference and view");
        ops(a.view(), rb, w, "operators between view and reference");
        ops(ra, sb, w, "operators between reference and std::string");
        ops(sa, rb, w, "operators between std::string and reference");
        ops(ra, sb.c_str(), w, "operators between reference and C string");
        ops(sa.c_str(), rb, w, "operators between C string and reference");
        ops(ca, b.view(), w, "operators between container and view");
        ops(a.view(), cb, w, "operators between view and container");
        ops(ca, sb, w, "operators between container and std::string");
        ops(sa, cb, w, "operators between std::string and container");
        ops(ca, sb.c_str(), w, "operators between container and C string");
        ops(sa.c_str(), cb, w, "operators between C string and container");
        break;
    }
    vp_reach("end");
}
#define E(n, A, B) extern "C" void cmp_##n() { cmp<A, B>(); }
E(c_c, char, char) E(c_8, char, char8_t) E(c_16, char, char16_t) E(c_32, char, char32_t) E(c_w, char, wchar_t)
E(16_16, char16_t, char16_t) E(16_c, char16_t, char) E(16_32, char16_t, char32_t) E(8_8, char8_t, char8_t) E(32_8, char32_t, char8_t) E(32_32, char32_t, char32_t) E(w_16, wchar_t, char16_t) E(w_w, wchar_t, wchar_t)
#undef E
// starts_with, ends_with, contains and find against the code-point sequences
template <class C> static void search()
{
    ref::Text<C> t, s;
    ref::gen<C>(t, vp_param(0), 1, 3);
    ref::gen<C>(s, vp_param(1), 1, 3);
    size_t n = t.ncp, m = s.ncp, at = n;
    bool pre = false, suf = false, any = false;
    // by exact position, on code points
    uint64_t first = n;
    for(size_t i = n - m + 1; m <= n && i-- > 0;)
    {
        bool e = true;
        for(size_t j = 0; j < m; ++j) e = vp_and(e, t.cp[i + j] == s.cp[j]);
        if(i == 0) pre = e;
        if(i == n - m) suf = e;
        any = vp_or(any, e);
        first = vp_ite(e, i, first);
    }
    u::basic_string_ref<C> r(t.view()), q(s.view());
    std::basic_string<C> own(t.view());
    u::basic_string_container<C> c(own);
    vp_assert(r.starts_with(q) == pre, "starts_with");
    vp_assert(r.ends_with(q) == suf, "ends_with");
    vp_assert(c.starts_with(s.view()) == pre, "container starts_with");
    if(m > 0)
    {
        vp_assert(r.contains(q) == any, "contains");
        vp_assert(c.contains(s.view()) == any, "container contains");
        auto k = t.off[vp_concrete(first)];
        vp_assert((size_t)(r.find(q).base() - r.data()) == k, "find");
        vp_assert((size_t)(c.find(s.view()).base() - c.data()) == k, "container find");
    }
    if(m == 1)
    {
        u::codepoint cp = u::decoder<char32_t>::to_codepoint(s.cp[0]).first;
        vp_assert(r.starts_with(cp) == pre, "starts_with a character");
        vp_assert(r.ends_with(cp) == suf, "ends_with a character");
        vp_assert(r.contains(cp) == any, "contains a character");
        vp_assert(c.contains(cp) == any, "container contains a character");
        auto k = t.off[vp_concrete(first)];
        vp_assert((size_t)(r.find(cp).base() - r.data()) == k, "find a character");
    }
    vp_reach("end");
}
#define E(n, C) extern "C" void search_##n() { search<C>(); }
E(char, char) E(char16, char16_t) E(char32, char32_t)
#undef E
