#include "fmt.h"
#include <map>
using namespace papilio;
namespace
{
// a symbolic character of 1..4 bytes (or the corresponding units) appended to s
template <class C> char32_t add(std::basic_string<C>& s, bool ordinary, unsigned maxcls)
{
    unsigned top = ref::classes<C>() < maxcls ? ref::classes<C>() : maxcls;
    unsigned k = top <= 1 ? 1 : (unsigned)vp_pick(1, top, "len");
    char32_t c = ref::sym_cp_class<C>(k, 1);
    if(ordinary) vp_assume(vp_and(c != U'\'', c != U'\\'));
    C u[4];
    ref::enc<C>(c, k, u);
    s.append(u, k);
    return c;
}
// the text of a constant, and what it denotes
template <class C> void constant(std::basic_string<C>& text, std::basic_string<C>& means, unsigned n, unsigned maxcls)
{
    for(unsigned i = 0; i < n; ++i)
    {
        bool esc = vp_pick(0, 1, "escaped");
        if(!esc) { std::basic_string<C> u; add<C>(u, true, maxcls); text += u; means += u; }
        else
        {
            text.push_back(C('\\'));
            std::basic_string<C> u;
            char32_t c = add<C>(u, false, maxcls);
            text += u;
            if(u.size() == 1) u[0] = C(vp_ite(c == U'n', '\n', vp_ite(c == U't', '\t', (std::uint32_t)(std::make_unsigned_t<C>)u[0])));
            means += u;
        }
    }
}
}
template <class C> static void strings()
{
    unsigned n = vp_param(0), where = vp_param(1);
    std::basic_string<C> t, m, q = fm::L<C>("'");
    constant<C>(t, m, n, (unsigned)vp_param(2));
    using sv = std::basic_string_view<C>;
    if(where == 0)
    {
        auto r = fm::tryrun<C>(sv(fm::L<C>("<{$ 1 ? '") + t + fm::L<C>("'}>")));
        vp_assert(!r.threw && ref::same<C>(r.s, fm::L<C>("<") + m + fm::L<C>(">")), "a string constant as a result denotes its characters");
        r = fm::tryrun<C>(sv(fm::L<C>("<{$ 0 ? '") + t + fm::L<C>("' : 'z'}>")));
        vp_assert(!r.threw && ref::same<C>(r.s, fm::L<C>("<z>")), "a string constant that is not output is skipped as a whole");
    }
    else if(where == 1)
    {
        auto f = fm::L<C>("{$ {0} == '") + t + fm::L<C>("' ? 'y' : 'n'}");
        auto r = fm::tryrun<C>(sv(f), m);
        vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == C('y'), "a string constant in a condition equals the text it denotes");
        f = fm::L<C>("{$ '") + t + fm::L<C>("' == {0} ? 'y' : 'n'}");
        r = fm::tryrun<C>(sv(f), sv(m));
        vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == C('y'), "a string constant in a condition equals the text it denotes");
        auto other = m;
        other.push_back(C('x'));
        r = fm::tryrun<C>(sv(f), other);
        vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == C('n'), "a string constant differs from a longer text");
        f = fm::L<C>("{$ '") + t + fm::L<C>("' ? 'y' : 'n'}");
        r = fm::tryrun<C>(sv(f));
        vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == (n ? C('y') : C('n')), "a string constant is true exactly when it denotes a non-empty text");
    }
    else if(where == 2)
    {
        std::map<std::basic_string<C>, int> a;
        a[m] = 7;
        auto r = fm::tryrun<C>(sv(fm::L<C>("{0['") + t + fm::L<C>("']}")), a);
        vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == C('7'), "a string constant as an index denotes the key it spells");
        auto other = m;
        if(other.empty()) other.push_back(C('x')); else other.pop_back();
        std::map<std::basic_string<C>, int> b;
        b[other] = 7;
        auto r2 = fm::tryrun<C>(sv(fm::L<C>("{$ {0['") + t + fm::L<C>("']} == 7 ? 'y' : 'n'}")), b);
        vp_assert(r2.threw || (r2.s.size() == 1 && r2.s[0] == C('n')), "a string constant as an index finds no other key");
    }
    vp_reach("end");
}
#define E(n, C) extern "C" void strings_##n() { strings<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// a string without its closing quote is rejected wherever it stands
template <class C> static void unterminated()
{
    static const char* const PRE[] = {"{$ 1 ? '", "{$ 0 ? '", "{$ {0} == '", "{$ '", "{0['", "{$ 1 ? 'a' : '", "{$ {0['", "{:{0['"};
    std::basic_string<C> t, m;
    constant<C>(t, m, (unsigned)vp_pick(0, 2, "n"), 2);
    if(vp_pick(0, 1, "dangling escape")) t.push_back(C('\\'));
    auto f = fm::L<C>(PRE[vp_param(0)]) + t;
    auto* p = new C[f.size()]; // nothing follows the last unit
    for(size_t i = 0; i < f.size(); ++i) p[i] = f[i];
    auto r = fm::tryrun<C>(std::basic_string_view<C>(p, f.size()), fm::L<C>("x"));
    vp_assert(r.threw, "an unterminated string is rejected");
    delete[] p;
    vp_reach("end");
}
#define E(n, C) extern "C" void unterminated_##n() { unterminated<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// integer constants: any digits, any sign
template <class C> static void integers()
{
    unsigned n = vp_param(0);
    bool neg = vp_pick(0, 1, "negative");
    std::basic_string<C> t;
    if(neg) t.push_back(C('-'));
    long long v = 0;
    for(unsigned i = 0; i < n; ++i)
    {
        unsigned d = (unsigned)vp_range(0, 9, "digit");
        t.push_back(C('0' + d));
        v = v * 10 + d;
    }
    if(neg) v = -v;
    long long a = vp_any<long long>("a");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(fm::L<C>("{$ {0} == ") + t + fm::L<C>(" ? 'y' : 'n'}")), a);
    vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == C(vp_ite(a == v, 'y', 'n')), "an integer constant denotes its decimal value");
    r = fm::tryrun<C>(std::basic_string_view<C>(fm::L<C>("{$ ") + t + fm::L<C>(" < {0} ? 'y' : 'n'}")), a);
    vp_assert(!r.threw && r.s.size() == 1 && r.s[0] == C(vp_ite(v < a, 'y', 'n')), "an integer constant denotes its decimal value");
    vp_reach("end");
}
#define E(n, C) extern "C" void integers_##n() { integers<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// index ranges: every combination of given, negative and omitted bounds
template <class C> static void ranges()
{
    unsigned len = vp_param(0), shape = vp_param(1);
    std::basic_string<C> s;
    for(unsigned i = 0; i < len; ++i) { C c = vp_any<C>("c"); vp_assume(vp_and(c > C(' '), c < C(127))); s.push_back(c); }
    std::basic_string<C> f = fm::L<C>("{0[");
    long b[2] = {0, (long)len};
    for(int i = 0; i < 2; ++i)
    {
        unsigned k = i ? shape / 4 : shape % 4; // omitted, one digit, minus one digit, two digits
        if(k)
        {
            if(k == 2) f.push_back(C('-'));
            unsigned d = (unsigned)vp_range(0, 9, "bound"), e = 0;
            f.push_back(C('0' + d));
            long v = d;
            if(k == 3) { e = (unsigned)vp_range(0, 9, "bound"); f.push_back(C('0' + e)); v = 10 * (long)d + e; }
            if(k == 2) { vp_assume(v != 0); v = (long)len - v; } // counted from the end
            b[i] = (long)vp_ite(v < 0, 0, vp_ite(v > (long)len, len, v));
        }
        if(i == 0) f.push_back(C(':'));
    }
    f += fm::L<C>("]}");
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), s);
    long lo = (long)vp_concrete(b[0]), hi = (long)vp_concrete(b[1]);
    std::basic_string_view<C> e(s);
    e = lo < hi ? e.substr(lo, hi - lo) : e.substr(0, 0);
    vp_assert(!r.threw && ref::same<C>(r.s, e), "an index range denotes the characters between its bounds");
    vp_reach("end");
}
#define E(n, C) extern "C" void ranges_##n() { ranges<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
