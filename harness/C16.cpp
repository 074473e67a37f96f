#include "fmt.h"
using namespace papilio;
namespace
{
template <class C> void num(std::basic_string<C>& f, unsigned v)
{
    if(v >= 10) num(f, v / 10);
    f.push_back(C('0' + v % 10));
}
// precision p (literal or nested), then a width; without = no precision at all
template <class C, class V> void cut(const V& v, const ref::Text<C>& t, const char* type, unsigned pmax, unsigned wmax)
{
    int p = (int)vp_pick(0, pmax + 1, "precision") - 1;
    bool dp = p >= 0 && vp_pick(0, 1, "dynamic precision");
    unsigned width = (unsigned)vp_pick(0, wmax, "width"), align = (unsigned)vp_pick(0, 3, "align");
    bool dw = width && dp;
    std::basic_string<C> f = fm::L<C>("{0:");
    if(align) { f.push_back(C('*')); f.push_back(C("<>^"[align - 1])); }
    if(dw) f += fm::L<C>("{1}"); else if(width) num(f, width);
    if(p >= 0) { f.push_back(C('.')); if(dp) f += fm::L<C>("{2}"); else num(f, (unsigned)p); }
    f += fm::L<C>(type);
    f.push_back(C('}'));
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v, width, p < 0 ? 0 : p);
    vp_assert(!r.threw, "a string with a precision is formatted");
    size_t used = 0, i = 0;
    for(; i < t.ncp; ++i)
    {
        size_t w = vp_concrete(ref::wide(t.cp[i]));
        if(p >= 0 && used + w > (size_t)p) break;
        used += w;
    }
    size_t n = width > used ? width - used : 0, left = align == 2 ? n : align == 3 ? n / 2 : 0;
    std::basic_string<C> want(left, align ? C('*') : C(' '));
    want.append(t.sub(0, i));
    want.append(n - left, align ? C('*') : C(' '));
    vp_assert(ref::same<C>(r.s, want), "the output is the longest prefix of whole characters that fits the precision, padded to the width");
    vp_reach("end");
}
}
template <class C> static void strings()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 1);
    unsigned p = (unsigned)vp_param(1), w = (unsigned)vp_param(2);
    switch(vp_param(3))
    {
    case 0: cut<C>(t.view(), t, "", p, w); break;
    case 1: cut<C>(std::basic_string<C>(t.view()), t, "s", p, w); break;
    case 2: cut<C>(utf::basic_string_container<C>(t.view()), t, "", p, w); break;
    case 3: cut<C>(std::basic_string<C>(t.view()).c_str(), t, "s", p, w); break;
    case 4: cut<C>(utf::basic_string_ref<C>(t.view()), t, "", p, w); break;
    }
}
// long text of narrow and wide characters, every precision
template <class C> static void lengthy()
{
    const size_t N = 40;
    char32_t one = ref::sym_cp(0x20, 0x7E), two = ref::sym_cp(0x4E00, 0x9FFF);
    unsigned pattern = (unsigned)vp_pick(0, 2, "pattern");
    std::basic_string<C> s;
    size_t off[N + 1] = {0}, wd[N];
    C b[4];
    for(size_t i = 0; i < N; ++i)
    {
        bool w = pattern == 0 ? i % 2 : pattern == 1 ? i % 3 == 0 : i >= 20;
        unsigned k = ref::len_of<C>(w ? 3 : 1);
        ref::enc<C>(w ? two : one, k, b);
        s.append(b, k);
        off[i + 1] = s.size();
        wd[i] = w ? 2 : 1;
    }
    unsigned p = (unsigned)vp_pick(0, 64, "precision");
    std::basic_string<C> f = fm::L<C>("{:.");
    num(f, p);
    f.push_back(C('}'));
    auto r = fm::run<C>(std::basic_string_view<C>(f), std::basic_string_view<C>(s));
    size_t i = 0, used = 0;
    while(i < N && used + wd[i] <= p) used += wd[i++];
    vp_assert(ref::same<C>(r, std::basic_string_view<C>(s).substr(0, off[i])), "the output is the longest prefix that fits");
    vp_reach("end");
}
#define E(n, C) extern "C" void strings_##n() { strings<C>(); } extern "C" void lengthy_##n() { lengthy<C>(); }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
enum class word { a, longer_word };
extern "C" void names()
{
    unsigned i = (unsigned)vp_pick(0, 1, "enum"), p = (unsigned)vp_pick(0, 12, "precision"), w = (unsigned)vp_pick(0, 3, "width");
    std::string name = i ? "longer_word" : "a", f = "{:";
    if(w) num(f, w);
    f += '.';
    num(f, p);
    f += '}';
    auto r = fm::run<char>(std::string_view(f), i ? word::longer_word : word::a);
    std::string want = name.substr(0, p);
    while(want.size() < w) want += ' ';
    vp_assert(fm::is(r, want), "a precision truncates the name of an enumerator");
    vp_reach("end");
}
