#include "fmt.h"
#include <limits>
using namespace papilio;
namespace
{
template <class C> void num(std::basic_string<C>& f, unsigned v)
{
    if(v >= 10) num(f, v / 10);
    f.push_back(C('0' + v % 10));
}
// the value with a fill, an alignment and a width; plain is the text without them, of display width used
template <class C, class V> void pad(const V& v, const char* opts, const char* type, const std::basic_string<C>& plain, size_t used, bool right, unsigned wlo, unsigned wmax, bool zero = false)
{
    unsigned align = (unsigned)vp_pick(0, 3, "align"), fk = align ? (unsigned)vp_pick(0, ref::classes<C>(), "fill") : 0;
    unsigned width = (unsigned)vp_pick(wlo, wmax, "width"), dynamic = width ? (unsigned)vp_pick(0, 1, "dynamic") : 0;
    std::basic_string<C> f = fm::L<C>("{0:");
    C fill[4] = {C(' ')};
    unsigned fn = 1;
    if(fk)
    {
        char32_t c = ref::sym_cp_class<C>(fk, 1);
        vp_assume(vp_and(c != U'{', c != U'}'));
        ref::enc<C>(c, fk, fill);
        fn = fk;
        f.append(fill, fn);
    }
    if(align) f.push_back(C("<>^"[align - 1]));
    f += fm::L<C>(opts);
    if(zero && !align) f.push_back(C('0'));
    if(dynamic) f += fm::L<C>("{1}");
    else if(width) num(f, width);
    f += fm::L<C>(type);
    f.push_back(C('}'));
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v, width);
    vp_assert(!r.threw, "a field with a fill, an alignment and a width is formatted");
    size_t n = width > used ? width - used : 0;
    size_t left = align == 1 ? 0 : align == 2 ? n : align == 3 ? n / 2 : right ? n : 0;
    std::basic_string<C> want;
    for(size_t i = 0; i < left; ++i) want.append(fill, fn);
    want += plain;
    for(size_t i = left; i < n; ++i) want.append(fill, fn);
    vp_assert(ref::same<C>(r.s, want), "the text is brought to exactly the width with the fill on the side the alignment names");
    vp_reach("end");
}
template <class C> std::basic_string<C> spec(const char* opts, const char* type)
{
    std::basic_string<C> f = fm::L<C>("{:");
    f += fm::L<C>(opts);
    f += fm::L<C>(type);
    f.push_back(C('}'));
    return f;
}
// values whose text is ASCII
template <class C, class V> void ascii(const V& v, const char* opts, const char* type, bool right, unsigned wlo, unsigned wmax)
{
    auto plain = fm::run<C>(std::basic_string_view<C>(spec<C>(opts, type)), v);
    pad<C>(v, opts, type, plain, plain.size(), right, wlo, wmax);
}
enum class color { red, green = 5, minus = -3, huge = 100000 };
}
// strings of n arbitrary characters; kind: as a view, a container, with type s
template <class C> static void strings()
{
    ref::Text<C> t;
    ref::gen<C>(t, vp_param(0), 1);
    size_t used = 0;
    for(size_t i = 0; i < t.ncp; ++i) used += ref::wide(t.cp[i]);
    used = vp_concrete(used);
    unsigned kind = (unsigned)vp_param(2), w = (unsigned)vp_param(1);
    std::basic_string<C> plain(t.view());
    if(kind == 0) pad<C>(t.view(), "", "", plain, used, false, 0, w);
    else if(kind == 1) pad<C>(std::basic_string<C>(t.view()), "", "s", plain, used, false, 0, w);
    else if(kind == 2) pad<C>(utf::basic_string_container<C>(t.view()), "", "", plain, used, false, 0, w);
    else pad<C>(plain.c_str(), "", "", plain, used, false, 0, w);
}
// one arbitrary character
template <class C> static void chars()
{
    if constexpr(sizeof(C) == 1)
    {
        C c = vp_any<C>("char");
        vp_assume(vp_and(c > 0, (unsigned char)c < 0x80));
        pad<C>(c, "", vp_param(0) ? "c" : "", std::basic_string<C>(1, c), 1, false, 0, (unsigned)vp_param(1));
    }
    else
    {
        C c = C(ref::sym_cp(1, sizeof(C) == 2 ? 0xFFFF : 0x10FFFF));
        pad<C>(c, "", vp_param(0) ? "c" : "", std::basic_string<C>(1, c), vp_concrete(ref::wide(c)), false, 0, (unsigned)vp_param(1));
    }
}
template <class C> static void codepoints()
{
    unsigned k = (unsigned)vp_pick(1, 4, "class");
    char32_t c = ref::sym_cp_class<char>(k, 1);
    C b[4];
    ref::enc<C>(c, ref::len_of<C>(k), b);
    pad<C>(utf::codepoint(c), "", vp_param(0) ? "c" : "", std::basic_string<C>(b, ref::len_of<C>(k)), vp_concrete(ref::wide(c)), false, 0, (unsigned)vp_param(1));
}
template <class C> static void numbers()
{
    unsigned w = (unsigned)vp_param(1);
    switch(vp_param(0))
    {
    case 0: ascii<C>(vp_num<signed char>("v"), "", "", true, 0, w); break;
    case 1: ascii<C>(vp_num<short>("v"), "+#", "x", true, 0, w); break;
    case 2: { unsigned char c = vp_any<unsigned char>("v"); vp_assume(vp_and(c > 0, c < 0x80)); pad<C>((int)c, "", "c", std::basic_string<C>(1, C(c)), 1, false, 0, w); } break;
    case 3: ascii<C>(vp_bool("v"), "", "", false, 0, w); break;
    case 4: ascii<C>(vp_bool("v"), "", "d", true, 0, w); break;
    case 5: ascii<C>(reinterpret_cast<const void*>((uintptr_t)vp_num<uint16_t>("v")), "", "", true, 0, w); break;
    case 6: { static const double d[] = {0.0, -1.5, 1e30, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; ascii<C>(d[vp_pick(0, 4, "double")], "", "", true, 0, w); } break;
    case 7: { static const float d[] = {-0.0f, 3.25f}; ascii<C>(d[vp_pick(0, 1, "float")], "+", ".3f", true, 0, w + 4); } break;
    case 8: { static const color e[] = {color::red, color::green, color::minus, color::huge}; unsigned i = (unsigned)vp_pick(0, 3, "enum"); ascii<C>(e[i], "", "", i == 3, 0, w); } break;
    case 9: { static const color e[] = {color::red, color::green, color::minus}; ascii<C>(e[vp_pick(0, 2, "enum")], "", "x", true, 0, w); } break;
    case 10: { unsigned char c = vp_any<unsigned char>("v"); vp_assume(c < 0x80); ascii<C>(C(c), "#", "b", true, 0, w); } break;
    case 11: ascii<C>(nullptr, "", "P", true, 0, w); break;
    case 12: { static const long double d[] = {1.25L, -2e100L}; ascii<C>(d[vp_pick(0, 1, "ldouble")], "", "e", true, 10, w + 12); } break;
    }
}
// escaped text is padded as text
template <class C> static void escaped()
{
    unsigned w = (unsigned)vp_param(1);
    unsigned char b[3];
    for(auto& c : b) { c = vp_any<unsigned char>("c"); vp_assume(c < 0x80); }
    std::basic_string<C> s;
    for(unsigned i = 0; i < vp_param(0); ++i) s.push_back(C(b[i]));
    if(vp_param(0) == 1) ascii<C>(s[0], "", "?", false, 0, w);
    else ascii<C>(std::basic_string_view<C>(s), "", "?", false, 0, w);
}
// very large widths
extern "C" void far_width()
{
    unsigned w = (unsigned)vp_pick(0, 3, "w");
    static const unsigned ws[] = {127, 256, 1000, 2500};
    char c = vp_any<char>("c");
    vp_assume(vp_and(c > 0, c != '}' ));
    std::string v(1, c), f = "{:*^";
    num(f, ws[w]);
    f += '}';
    auto s = fm::run<char>(std::string_view(f), std::string_view(v));
    size_t l = (ws[w] - 1) / 2;
    vp_assert(s.size() == ws[w] && s[l] == c && s[0] == '*' && s[l - 1] == '*' && s[l + 1] == '*' && s.back() == '*', "large widths are reached");
    vp_reach("end");
}
#define E(n, C) extern "C" void strings_##n() { strings<C>(); } extern "C" void chars_##n() { chars<C>(); } extern "C" void codepoints_##n() { codepoints<C>(); } \
    extern "C" void numbers_##n() { numbers<C>(); } extern "C" void escaped_##n() { escaped<C>(); }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
