#include "fmt.h"
#include <array>
#include <map>
#include <optional>
#include <tuple>
#include <variant>
#include <vector>
#include <papilio/papilio.hpp>
using namespace papilio;
namespace
{
enum class color { red, green };
// n arbitrary units after a fixed prefix and before a fixed suffix, in a buffer of exactly that size
template <class C> struct Fmt
{
    C* p; size_t n;
    Fmt(const char* pre, size_t k, const char* post, bool one_digit)
    {
        size_t a = std::strlen(pre), b = std::strlen(post);
        n = a + k + b;
        p = new C[n ? n : 1];
        if(!n) p += 1;
        for(size_t i = 0; i < a; ++i) p[i] = C((unsigned char)pre[i]);
        if(k) vp_symbolic(p + a, k * sizeof(C), "units");
        for(size_t i = 0; i < b; ++i) p[a + k + i] = C((unsigned char)post[i]);
        // numbers stay small: at most one arbitrary digit in a row, not next to a fixed one
        if(one_digit)
            for(size_t i = 0; i + 1 < n; ++i)
            {
                if(i + 1 < a || i >= a + k) continue;
                bool d = vp_and(vp_and(p[i] >= C('0'), p[i] <= C('9')), vp_and(p[i + 1] >= C('0'), p[i + 1] <= C('9')));
                vp_assume(!d);
            }
    }
    std::basic_string_view<C> view() const { return {p, n}; }
};
const char* const PRE[] = {"", "{", "{0", "{:", "{0:", "{$", "{$ {0}", "{$ {0} ?", "{$ {0} ? 'a' :", "{0[", "{0.", "{0[1:", "{$ '", "{$ 1", "{:{", "{:.{", "{a", "{:_>", "{0['", "{$ !", "{:#", "{$ {0} == ", "{0:n", "{$ {0} ? {0:", "{$ {0} : '\\", "{$ !{0} ? {0:", "{$ {0} ? '' : {:", "{$ {0} ? '' : {0:{"};
const char* const POST[] = {"", "}", "]}", "? 'x'}", "}}", ": 'x'}"};
template <class C, class... A> static void go(std::basic_string_view<C> f, A&&... a)
{
    auto r = fm::tryrun<C>(f, std::forward<A>(a)...);
    vp_reach(r.threw ? "thrown" : "formatted");
}
template <class C> static void by_type(std::basic_string_view<C> f, unsigned type)
{
    static const C txt[] = {'a', 'B', '9'};
    std::basic_string_view<C> s(txt, 3);
    switch(type)
    {
    case 0: go<C>(f, 42); break;
    case 1: go<C>(f, s); break;
    case 2: go<C>(f); break;
    case 3: { int seven = 7; go<C>(f, C(0x78), papilio::arg(s.substr(0, 1), seven)); break; }
    case 4: go<C>(f, -1, true); break;
    case 5: { int x = 0; const void* q = nullptr; (void)x; go<C>(f, q); break; }
    case 6: { std::vector<int> v{1, 2}; go<C>(f, v); break; }
    case 7: { std::tuple<int, char> t{1, 'c'}; go<C>(f, t); break; }
    case 8: { go<C>(f, color::green); break; }
    case 9: { std::vector<std::basic_string<C>> v(1, std::basic_string<C>(s)); go<C>(f, v); break; }
    case 10: { std::optional<int> o(3); go<C>(f, o); break; }
    case 11: { go<C>(f, 1.5); break; }
    case 12: { std::vector<C> v{C('q'), C('"')}; go<C>(f, v); break; }
    case 13: { std::map<int, int> v; v[3] = 4; go<C>(f, v); break; }
    case 14: { go<C>(f, true, s); break; }
    case 15: { std::variant<int, bool> v(2); go<C>(f, v); break; }
    }
}
template <class C> static void any()
{
    Fmt<C> f(PRE[vp_param(1)], vp_param(0), POST[vp_param(2)], true);
    unsigned ty = vp_param(3);
    // the locale facility is outside (C33)
    if(ty == 4 || ty == 14 || ty == 15) for(size_t i = 0; i < f.n; ++i) {
            vp_assume((std::uint32_t(f.p[i]) & 0x1FFFFF) != 'L');
            if(sizeof(C) == 1) { unsigned char u = (unsigned char)f.p[i]; vp_assume(vp_and(u != 0xC1, vp_and(u != 0xE0, u != 0xF0))); } // nor an overlong spelling of it
        }
    by_type<C>(f.view(), ty);
}
}
#define E(n, C) extern "C" void any_##n() { any<C>(); }
E(char, char) E(char16, char16_t) E(wchar, wchar_t)
#undef E
// numbers around the limits of the machine types: a value that cannot be represented must be rejected, never wrapped
static const char* const NUM[] = {
    "922337203685477580?", "922337203685477580??", "92233720368547758??", "?223372036854775807", "?223372036854775808",
    "1844674407370955161?", "1844674407370955161??", "184467440737095516??", "?8446744073709551615", "?8446744073709551616", "?0000000000000000000", "?00000000000000000000", "?9999999999999999999",
    "214748364?", "429496729?", "?147483648", "?294967296", "?8446744073709551616000?", "1844674407370955161?00000000000000000000", "3402823669209384634633746074317682114??"};
template <class C> static void number()
{
    std::string pat(NUM[vp_param(0)]);
    int what = vp_param(1);
    static const char* const pre[] = {"{:", "{:.", "{", "{0[", "{0[:", "{0[-", "{$ {0} == ", "{$ {0} == -", "{0[1:", "{0[", "{0[:", "{0[-"};
    static const char* const post[] = {"}", "}", "}", "]}", "]}", "]}", "? 'y'}", "? 'y'}", "]}", "]}", ":]}", ":]}"};
    std::basic_string<C> f = fm::L<C>(pre[what]);
    // exact value in 128 bits, saturated
    bool huge = pat.size() > 30;
    unsigned __int128 v = 0;
    for(size_t i = 0; i < pat.size(); ++i)
    {
        C d = C(pat[i]);
        if(pat[i] == '?') { d = (C)vp_range(i == 0 ? '1' : '0', '9', "digit"); }
        f.push_back(d);
        if(!huge) v = v * 10 + (unsigned)(d - C('0'));
    }
    f += fm::L<C>(post[what]);
    const unsigned __int128 smax = (unsigned __int128)INT64_MAX, umax = (unsigned __int128)UINT64_MAX;
    if(what == 0 && !huge) vp_assume(v > umax); // representable widths of this size are not formatted here
    static const C txt[] = {'a', 'B', '9'};
    std::basic_string_view<C> s(txt, 3), fv(f);
    fm::Res<C> r = (what == 6 || what == 7) ? fm::tryrun<C>(fv, 5) : what >= 9 ? fm::tryrun<C>(fv, std::vector<int>{4, 5}) : fm::tryrun<C>(fv, s);
    bool over = huge || (what <= 1 ? v > umax : what == 5 || what == 7 || what == 11 ? v > smax + 1 : v > smax);
    if(what == 2) over = true; // there is only one argument
    if(vp_concrete(over)) vp_assert(r.threw, "a number too large to represent is rejected");
    else if(what == 1) vp_assert(!r.threw && ref::same<C>(r.s, s), "a large precision keeps the whole string");
    else if(what == 6 || what == 7) vp_assert(!r.threw && r.s.empty(), "a large constant differs from a small number");
    else if(what == 4) vp_assert(!r.threw && ref::same<C>(r.s, s), "a large end bound selects the whole text");
    vp_reach("end");
}
extern "C" void number_char() { number<char>(); }
extern "C" void number_char16() { number<char16_t>(); }
