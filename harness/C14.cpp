#include "fmt.h"
#include <limits>
using namespace papilio;
namespace
{
const char TYPES[] = "\0dbBoxX";
unsigned base_of(char t) { return t == 'b' || t == 'B' ? 2 : t == 'o' ? 8 : t == 'x' || t == 'X' ? 16 : 10; }
using fm::digits;
template <class T> bool negative(T v)
{
    if constexpr(std::is_signed_v<T>) return vp_concrete(v < 0);
    else return false;
}
}
template <class T, class C> static void plain(T v, char type)
{
    std::basic_string<C> f = fm::L<C>("{:");
    if(type) f.push_back(C(type));
    f.push_back(C('}'));
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v);
    vp_assert(!r.threw, "an integer is formatted");
    bool neg = negative(v);
    using U = std::make_unsigned_t<T>;
    const U mag = neg ? U(U(0) - U(v)) : U(v);
    vp_assert(!neg || (r.s.size() && r.s[0] == C('-')), "a negative integer starts with its sign");
    vp_assert(digits<U, C>(r.s, neg, r.s.size(), mag, base_of(type), type == 'X', false), "the digits spell exactly the value");
    vp_reach("end");
}
#define E(n, T) extern "C" void plain_##n() { plain<T, char>(vp_num<T>("v"), TYPES[vp_param(0)]); }
E(schar, signed char) E(uchar, unsigned char) E(short, short) E(ushort, unsigned short) E(int, int) E(uint, unsigned) E(long, long) E(ulong, unsigned long) E(llong, long long) E(ullong, unsigned long long)
#undef E
#define E(n, C) extern "C" void other_##n() { plain<int, C>(vp_num<int>("v"), TYPES[vp_param(0)]); plain<unsigned char, C>(vp_num<unsigned char>("u"), TYPES[vp_param(0)]); }
E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
#undef E
// sign, prefix, zeros, digits and padding in their places
template <class T, class C> static void layout(T v, char type, unsigned wmax)
{
    unsigned sign = (unsigned)vp_pick(0, 3, "sign"), align = (unsigned)vp_pick(0, 4, "align");
    bool alt = vp_pick(0, 1, "#"), zero = vp_pick(0, 1, "0");
    unsigned width = (unsigned)vp_pick(0, wmax, "width"), dynamic = width ? (unsigned)vp_pick(0, 1, "dynamic") : 0;
    std::basic_string<C> f = fm::L<C>("{0:");
    C fill = C(' ');
    if(align == 4) { fill = C('*'); f.push_back(fill); f.push_back(C('^')); }
    else if(align) f.push_back(C("<>^"[align - 1]));
    if(sign) f.push_back(C("+- "[sign - 1]));
    if(alt) f.push_back(C('#'));
    if(zero) f.push_back(C('0'));
    if(dynamic) f += fm::L<C>("{1}");
    else if(width) { if(width >= 10) f.push_back(C('0' + width / 10)); f.push_back(C('0' + width % 10)); }
    if(type) f.push_back(C(type));
    f.push_back(C('}'));
    auto r = fm::tryrun<C>(std::basic_string_view<C>(f), v, width);
    vp_assert(!r.threw, "an integer is formatted");
    bool neg = negative(v);
    using U = std::make_unsigned_t<T>;
    const U mag = neg ? U(U(0) - U(v)) : U(v);
    const auto& s = r.s;
    // padding goes first where the alignment puts it; zeros replace padding when no alignment is given
    zero = zero && align == 0;
    std::basic_string<C> head;
    if(neg) head.push_back(C('-'));
    else if(sign == 1) head.push_back(C('+'));
    else if(sign == 3) head.push_back(C(' '));
    unsigned base = base_of(type);
    if(alt && base != 10) { head.push_back(C('0')); if(base != 8) head.push_back(C(type)); }
    if(zero)
    {
        vp_assert(s.size() >= head.size() && ref::same<C>(s.substr(0, head.size()), head), "sign and prefix come first");
        size_t n = s.size() - head.size();
        if(s.size() > width || n <= 1) vp_assert(digits<U, C>(s, head.size(), s.size(), mag, base, type == 'X', false), "digits follow without needless zeros");
        else { vp_assert(s.size() == width, "zeros fill up to the width"); vp_assert(digits<U, C>(s, head.size(), s.size(), mag, base, type == 'X', true), "zeros fill between prefix and digits"); }
    }
    else
    {
        vp_assert(s.size() >= width, "the width is reached");
        size_t n = 0; // fill characters: they are not digits
        size_t a = 0, e = s.size();
        auto isfill = [&](size_t k) { return vp_concrete(s[k] == fill) != 0; };
        unsigned al = align == 4 ? 3 : align;
        if(al == 0 || al == 2 || al == 3) while(a < e && isfill(a)) ++a;
        if(al == 1 || al == 3) while(e > a && isfill(e - 1)) --e;
        if(fill == C(' ') && sign == 3 && !neg && al != 1) { vp_assert(a > 0, "the space sign is there"); --a; } // the sign itself
        size_t left = a, right = s.size() - e;
        n = left + right;
        vp_assert(n == 0 || s.size() == width, "padding stops at the width");
        if(al == 3) vp_assert(left == n / 2, "the smaller half is in front");
        vp_assert(e - a > head.size() && ref::same<C>(s.substr(a, head.size()), head), "sign and prefix come first");
        vp_assert(digits<U, C>(s, a + head.size(), e, mag, base, type == 'X', false), "the digits spell exactly the value");
    }
    vp_reach("end");
}
#define E(n, T, C) extern "C" void layout_##n() { layout<T, C>(vp_num<T>("v"), TYPES[vp_param(0)], vp_param(1)); }
E(schar, signed char, char) E(uchar, unsigned char, char) E(short, short, char) E(int, int, char) E(ullong, unsigned long long, char) E(llong, long long, char) E(wchar, signed char, wchar_t) E(char16, signed char, char16_t)
#undef E
